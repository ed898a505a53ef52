package main

// m_pool.go: pools, runtime upgrades and parameter updates.

import (
	"encoding/json"
	"sort"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/gogoproto/proto"

	bundlesTypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationTypes "github.com/KYVENetwork/chain/x/delegation/types"
	fundersTypes "github.com/KYVENetwork/chain/x/funders/types"
	globalTypes "github.com/KYVENetwork/chain/x/global/types"
	poolTypes "github.com/KYVENetwork/chain/x/pool/types"
	stakersTypes "github.com/KYVENetwork/chain/x/stakers/types"
)

func needGov(authority string) error {
	if authority != addrGov() {
		return rejectf("not the governance authority")
	}
	return nil
}

func (w *World) mCreatePool(m *poolTypes.MsgCreatePool) error {
	if err := needGov(m.Authority); err != nil {
		return err
	}
	if m.UploadInterval == 0 || !validPos(m.InflationShareWeight) || m.MaxBundleSize == 0 || !json.Valid([]byte(m.Binaries)) {
		return rejectf("arguments")
	}
	id := w.PoolCount
	w.PoolCount++
	w.Pools[id] = &poolTypes.Pool{Id: id, Name: m.Name, Runtime: m.Runtime, Logo: m.Logo, Config: m.Config, StartKey: m.StartKey, EndKey: m.EndKey,
		UploadInterval: m.UploadInterval, InflationShareWeight: m.InflationShareWeight, MinDelegation: m.MinDelegation, MaxBundleSize: m.MaxBundleSize,
		Protocol:    &poolTypes.Protocol{Version: m.Version, Binaries: m.Binaries, LastUpgrade: uint64(w.Time)},
		UpgradePlan: &poolTypes.UpgradePlan{}, CurrentStorageProviderId: m.StorageProviderId, CurrentCompressionId: m.CompressionId}
	w.FundStates[id] = nil
	w.C.Hit("pool.created")
	w.emit(&poolTypes.EventCreatePool{Id: id, Name: m.Name, Runtime: m.Runtime, Logo: m.Logo, Config: m.Config, StartKey: m.StartKey, EndKey: m.EndKey,
		UploadInterval: m.UploadInterval, InflationShareWeight: m.InflationShareWeight, MinDelegation: m.MinDelegation, MaxBundleSize: m.MaxBundleSize,
		Version: m.Version, Binaries: m.Binaries, StorageProviderId: m.StorageProviderId, CompressionId: m.CompressionId})
	return nil
}

func (w *World) mUpdatePool(m *poolTypes.MsgUpdatePool) error {
	if err := needGov(m.Authority); err != nil {
		return err
	}
	var u struct {
		Name, Runtime, Logo, Config *string
		UploadInterval              *uint64
		InflationShareWeight        *math.LegacyDec
		MinDelegation               *uint64
		MaxBundleSize               *uint64
		StorageProviderId           *uint32
		CompressionId               *uint32
		EndKey                      *string
	}
	if json.Unmarshal([]byte(m.Payload), &u) != nil {
		return rejectf("payload")
	}
	if (u.UploadInterval != nil && *u.UploadInterval == 0) || (u.MaxBundleSize != nil && *u.MaxBundleSize == 0) ||
		(u.InflationShareWeight != nil && !validPos(*u.InflationShareWeight)) {
		return rejectf("invalid value")
	}
	if w.Pools[m.Id] == nil {
		return rejectf("no pool")
	}
	p := *w.Pools[m.Id]
	str := func(dst *string, src *string) {
		if src != nil {
			*dst = *src
		}
	}
	str(&p.Name, u.Name)
	str(&p.Runtime, u.Runtime)
	str(&p.Logo, u.Logo)
	str(&p.Config, u.Config)
	str(&p.EndKey, u.EndKey)
	if u.UploadInterval != nil {
		p.UploadInterval = *u.UploadInterval
	}
	if u.InflationShareWeight != nil {
		p.InflationShareWeight = *u.InflationShareWeight
	}
	if u.MinDelegation != nil {
		p.MinDelegation = *u.MinDelegation
	}
	if u.MaxBundleSize != nil {
		p.MaxBundleSize = *u.MaxBundleSize
	}
	if u.StorageProviderId != nil {
		p.CurrentStorageProviderId = *u.StorageProviderId
	}
	if u.CompressionId != nil {
		p.CurrentCompressionId = *u.CompressionId
	}
	w.Pools[m.Id] = &p
	w.C.Hit("pool.updated")
	w.emit(&poolTypes.EventPoolUpdated{Id: p.Id, RawUpdateString: m.Payload, Name: p.Name, Runtime: p.Runtime, Logo: p.Logo, Config: p.Config,
		UploadInterval: p.UploadInterval, InflationShareWeight: p.InflationShareWeight, MinDelegation: p.MinDelegation, MaxBundleSize: p.MaxBundleSize,
		StorageProviderId: p.CurrentStorageProviderId, CompressionId: p.CurrentCompressionId})
	return nil
}

func (w *World) mDisablePool(m *poolTypes.MsgDisablePool) error {
	if err := needGov(m.Authority); err != nil {
		return err
	}
	if w.Pools[m.Id] == nil || w.Pools[m.Id].Disabled {
		return rejectf("not enabled")
	}
	p := *w.Pools[m.Id]
	p.Disabled = true
	w.Pools[m.Id] = &p
	ms := w.Members(m.Id)
	for _, s := range ms {
		w.leave(m.Id, s)
	}
	if len(ms) > 0 {
		w.C.Hit("pool.disabled_with_members")
	}
	w.FundCommunity(poolAcc(m.Id), sdk.NewCoins(sdk.NewCoin(Denom, w.Bal(poolAcc(m.Id), Denom))))
	w.C.Hit("pool.disabled")
	w.emit(&poolTypes.EventPoolDisabled{Id: m.Id})
	return nil
}

func (w *World) mEnablePool(m *poolTypes.MsgEnablePool) error {
	if err := needGov(m.Authority); err != nil {
		return err
	}
	if w.Pools[m.Id] == nil || !w.Pools[m.Id].Disabled {
		return rejectf("not disabled")
	}
	p := *w.Pools[m.Id]
	p.Disabled = false
	w.Pools[m.Id] = &p
	w.C.Hit("pool.enabled")
	w.emit(&poolTypes.EventPoolEnabled{Id: m.Id})
	return nil
}

func (w *World) mScheduleUpgrade(m *poolTypes.MsgScheduleRuntimeUpgrade) error {
	if err := needGov(m.Authority); err != nil {
		return err
	}
	if m.Version == "" || m.Binaries == "" {
		return rejectf("arguments")
	}
	at := m.ScheduledAt
	if at < uint64(w.Time) {
		at = uint64(w.Time)
	}
	ids := []uint64{}
	for _, id := range w.PoolIds() {
		p := *w.Pools[id]
		if p.Runtime != m.Runtime || p.UpgradePlan.ScheduledAt != 0 {
			continue
		}
		p.UpgradePlan = &poolTypes.UpgradePlan{Version: m.Version, Binaries: m.Binaries, ScheduledAt: at, Duration: m.Duration}
		w.Pools[id] = &p
		ids = append(ids, id)
		w.C.Hit("upgrade.scheduled")
	}
	w.emit(&poolTypes.EventRuntimeUpgradeScheduled{Runtime: m.Runtime, Version: m.Version, ScheduledAt: at, Duration: m.Duration,
		Binaries: m.Binaries, AffectedPools: ids})
	return nil
}

func (w *World) mCancelUpgrade(m *poolTypes.MsgCancelRuntimeUpgrade) error {
	if err := needGov(m.Authority); err != nil {
		return err
	}
	ids := []uint64{}
	for _, id := range w.PoolIds() {
		p := *w.Pools[id]
		if p.Runtime != m.Runtime || p.UpgradePlan.ScheduledAt == 0 {
			continue
		}
		p.UpgradePlan = &poolTypes.UpgradePlan{}
		w.Pools[id] = &p
		ids = append(ids, id)
		w.C.Hit("upgrade.cancelled")
	}
	w.emit(&poolTypes.EventRuntimeUpgradeCancelled{Runtime: m.Runtime, AffectedPools: ids})
	return nil
}

// bPools is the end-of-block step of runtime upgrades.
func (w *World) bPools() {
	now := uint64(w.Time)
	for _, id := range w.PoolIds() {
		p := *w.Pools[id]
		u := p.UpgradePlan
		if u.ScheduledAt == 0 || now < u.ScheduledAt {
			continue
		}
		if p.Protocol.Version != u.Version || p.Protocol.Binaries != u.Binaries {
			p.Protocol = &poolTypes.Protocol{Version: u.Version, Binaries: u.Binaries, LastUpgrade: u.ScheduledAt}
			w.C.Hit("upgrade.applied")
			if now == u.ScheduledAt {
				w.C.Hit("upgrade.exactly_due")
			}
		}
		if now >= u.ScheduledAt+u.Duration {
			p.UpgradePlan = &poolTypes.UpgradePlan{}
			w.C.Hit("upgrade.finished")
			if now == u.ScheduledAt+u.Duration {
				w.C.Hit("upgrade.finished_exactly")
			}
		}
		w.Pools[id] = &p
	}
}

// ------------------------------------------------------------ parameters

// overlay applies a JSON payload to params: named fields are replaced, all
// others stay.
func overlay[T any](cur T, payload string) (T, error) {
	var out T
	bz, err := json.Marshal(cur)
	must(err)
	m := map[string]json.RawMessage{}
	must(json.Unmarshal(bz, &m))
	u := map[string]json.RawMessage{}
	if err := json.Unmarshal([]byte(payload), &u); err != nil {
		return out, err
	}
	ks := sortedS(u)
	for _, k := range ks {
		if string(u[k]) == "null" && (len(m[k]) == 0 || m[k][0] >= '0' && m[k][0] <= '9') {
			continue // a number stays what it is
		}
		m[k] = u[k]
	}
	bz, err = json.Marshal(m)
	must(err)
	err = json.Unmarshal(bz, &out)
	return out, err
}

func validPoolParams(p poolTypes.Params) bool {
	return validPct(p.ProtocolInflationShare) && validPct(p.PoolInflationPayoutRate) && validPct(p.MaxVotingPowerPerPool)
}
func validStkParams(p stakersTypes.Params) bool { return true }
func validDelParams(p delegationTypes.Params) bool {
	return validPct(p.VoteSlash) && validPct(p.UploadSlash) && validPct(p.TimeoutSlash)
}
func validBunParams(p bundlesTypes.Params) bool {
	for _, c := range p.StorageCosts {
		if !validPos(c.Cost) {
			return false
		}
	}
	return p.UploadTimeout > 0 && validPct(p.NetworkFee) && p.MaxPoints > 0
}
func validGloParams(p globalTypes.Params) bool {
	for _, a := range p.GasAdjustments {
		if a.Amount > 1<<63-1 {
			return false
		}
	}
	for _, r := range p.GasRefunds {
		if !validPct(r.Fraction) {
			return false
		}
	}
	return validPos(p.MinGasPrice) && validPct(p.BurnRatio)
}
func validFunParams(p fundersTypes.Params) bool {
	seen := map[string]bool{}
	for _, e := range p.CoinWhitelist {
		if e == nil || sdk.ValidateDenom(e.CoinDenom) != nil || seen[e.CoinDenom] || e.MinFundingAmount.IsNil() || e.MinFundingAmount.IsNegative() ||
			e.MinFundingAmountPerBundle.IsNil() || e.MinFundingAmountPerBundle.IsNegative() || !validPos(e.CoinWeight) || e.CoinDecimals > 18 {
			return false
		}
		seen[e.CoinDenom] = true
	}
	return seen[Denom]
}

func updateParams[T any](w *World, authority, payload string, cur, def T, valid func(T) bool, ev func(o, n T) proto.Message) (T, error) {
	if err := needGov(authority); err != nil {
		return cur, err
	}
	d, err := overlay(def, payload)
	if err != nil || !valid(d) {
		w.C.Hit("params.rejected")
		return cur, rejectf("payload")
	}
	n, err := overlay(cur, payload)
	if err != nil || !valid(n) {
		w.C.Hit("params.rejected")
		return cur, rejectf("payload")
	}
	w.C.Hit("params.updated")
	w.emit(ev(cur, n))
	return n, nil
}

func (w *World) mPoolParams(m *poolTypes.MsgUpdateParams) (err error) {
	w.PoolParams, err = updateParams(w, m.Authority, m.Payload, w.PoolParams, poolTypes.DefaultParams(), validPoolParams, func(o, n poolTypes.Params) proto.Message {
		return &poolTypes.EventUpdateParams{OldParams: o, NewParams: n, Payload: m.Payload}
	})
	return
}
func (w *World) mStkParams(m *stakersTypes.MsgUpdateParams) (err error) {
	w.StkParams, err = updateParams(w, m.Authority, m.Payload, w.StkParams, stakersTypes.DefaultParams(), validStkParams, func(o, n stakersTypes.Params) proto.Message {
		return &stakersTypes.EventUpdateParams{OldParams: o, NewParams: n, Payload: m.Payload}
	})
	return
}
func (w *World) mDelParams(m *delegationTypes.MsgUpdateParams) (err error) {
	w.DelParams, err = updateParams(w, m.Authority, m.Payload, w.DelParams, delegationTypes.DefaultParams(), validDelParams, func(o, n delegationTypes.Params) proto.Message {
		return &delegationTypes.EventUpdateParams{OldParams: o, NewParams: n, Payload: m.Payload}
	})
	return
}
func (w *World) mBunParams(m *bundlesTypes.MsgUpdateParams) (err error) {
	w.BunParams, err = updateParams(w, m.Authority, m.Payload, w.BunParams, bundlesTypes.DefaultParams(), validBunParams, func(o, n bundlesTypes.Params) proto.Message {
		return &bundlesTypes.EventUpdateParams{OldParams: o, NewParams: n, Payload: m.Payload}
	})
	return
}
func (w *World) mFunParams(m *fundersTypes.MsgUpdateParams) (err error) {
	w.FunParams, err = updateParams(w, m.Authority, m.Payload, w.FunParams, fundersTypes.DefaultParams(), validFunParams, func(o, n fundersTypes.Params) proto.Message {
		return &fundersTypes.EventUpdateParams{OldParams: o, NewParams: n, Payload: m.Payload}
	})
	return
}
func (w *World) mGloParams(m *globalTypes.MsgUpdateParams) (err error) {
	w.GloParams, err = updateParams(w, m.Authority, m.Payload, w.GloParams, globalTypes.DefaultParams(), validGloParams, func(o, n globalTypes.Params) proto.Message {
		return &globalTypes.EventUpdateParams{OldParams: o, NewParams: n, Payload: m.Payload}
	})
	return
}

var _ = sort.Strings
