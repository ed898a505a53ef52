package main

// upgrade.go: the v1.5.0 software upgrade, executed by the real upgrade
// handler in a real block, over the state an arbitrary v1.4 history leaves
// behind.  A monitored chain runs a workload whose protocol coins are tkyve
// only; its committed records are then rewritten in the encodings of v1.4 and
// the upgrade is scheduled for the next block.  What the handler leaves behind
// has to be the state before, record for record, except for what the release
// changes, and the monitors then follow the chain from there.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"time"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	upgradeTypes "cosmossdk.io/x/upgrade/types"
	abci "github.com/cometbft/cometbft/abci/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"
	govTypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	"github.com/cosmos/gogoproto/proto"

	"github.com/KYVENetwork/chain/app"
	oldBundles "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/bundles"
	oldDelegation "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/delegation"
	oldFunders "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/funders"
	oldPool "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/pool"
	oldStakers "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/stakers"
	bundlesTypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationTypes "github.com/KYVENetwork/chain/x/delegation/types"
	fundersTypes "github.com/KYVENetwork/chain/x/funders/types"
	poolTypes "github.com/KYVENetwork/chain/x/pool/types"
	stakersTypes "github.com/KYVENetwork/chain/x/stakers/types"
)

// What the release announces.
const (
	upgradeName = "v1.5.0"
	ibcOne      = "ibc/58EDC95E791161D711F4CF012ACF30A5DA8DDEB40A484F293A52B1968903F643"
	ibcTwo      = "ibc/0D2ABDF58A5DBA3D2A90398F8737D16ECAC0DDE58F9792B2918495D499400672"
	oldIds      = 1000 // ids below belong to mainnet proposals whose texts the release restores
)

var newRuntimes = []string{"@kyvejs/tendermint", "@kyvejs/tendermint-bsync", "@kyvejs/tendermint-ssync"}

func runtimeBinaries(rt string) string {
	m := map[string]string{}
	short := rt[len("@kyvejs/"):]
	for _, p := range []string{"kyve-linux-arm64", "kyve-linux-x64", "kyve-macos-x64"} {
		m[p] = "https://github.com/KYVENetwork/kyvejs/releases/download/%40kyvejs%2F" + short + "%401.2.0/" + p + ".zip"
	}
	b, err := json.Marshal(m)
	must(err)
	return string(b)
}

type raw = map[string]map[string]string

// upgradeSpec is what the first block of the new version has to find.
type upgradeSpec struct {
	want  *Snap
	raw   raw // all stores, in the encodings of v1.5
	props map[string]*govv1.Proposal
	gov   govv1.Params
	done  bool
}

// rewrite replaces every record below a prefix.
func rewrite(st storetypes.KVStore, prefix []byte, f func(v []byte) []byte) (n int64) {
	kv := map[string][]byte{}
	it := storetypes.KVStorePrefixIterator(st, prefix)
	for ; it.Valid(); it.Next() {
		if o := f(it.Value()); o != nil {
			kv[string(it.Key())] = o
		}
	}
	it.Close()
	for _, k := range sortedS(kv) {
		st.Set([]byte(k), kv[k])
		n++
	}
	return
}

func amt(c sdk.Coins) uint64 {
	for _, x := range c {
		if x.Denom != Denom {
			panic("the state is not one of v1.4: " + c.String())
		}
	}
	return c.AmountOf(Denom).Uint64()
}

// downgrade rewrites the committed state in the encodings of v1.4 and says
// what the upgrade has to make of it.
func (m *Mon) downgrade(at time.Time) *upgradeSpec {
	n := m.N
	a := n.App
	cdc := a.AppCodec()
	ctx := n.Ctx()
	keys := n.storeKeys()
	st := func(name string) storetypes.KVStore { return ctx.KVStore(keys[name]) }
	dec := func(b []byte, x codec.ProtoMarshaler) { cdc.MustUnmarshal(b, x) }
	sp := &upgradeSpec{want: m.Cur.Clone(), raw: m.digest(quietCtx(ctx)), props: map[string]*govv1.Proposal{}}
	w := sp.want
	hit := func(what string, n int64) { m.C.Add("v15."+what, n) }

	// funders
	e := m.Cur.FunParams.CoinWhitelist[0]
	st(fundersTypes.StoreKey).Set(fundersTypes.ParamsKey, cdc.MustMarshal(&oldFunders.Params{
		MinFundingAmount: e.MinFundingAmount.Uint64(), MinFundingAmountPerBundle: e.MinFundingAmountPerBundle.Uint64(),
		MinFundingMultiple: m.Cur.FunParams.MinFundingMultiple}))
	for _, p := range [][]byte{fundersTypes.FundingKeyPrefixByFunder, fundersTypes.FundingKeyPrefixByPool} {
		hit("fundings", rewrite(st(fundersTypes.StoreKey), p, func(v []byte) []byte {
			var f fundersTypes.Funding
			dec(v, &f)
			if !f.Amounts.IsZero() {
				hit("fundings_with_coins", 1)
			}
			return cdc.MustMarshal(&oldFunders.Funding{FunderAddress: f.FunderAddress, PoolId: f.PoolId, Amount: amt(f.Amounts),
				AmountPerBundle: amt(f.AmountsPerBundle), TotalFunded: amt(f.TotalFunded)})
		}))
	}
	wl := func(dn string, min, per math.Int, weight string) *fundersTypes.WhitelistCoinEntry {
		return &fundersTypes.WhitelistCoinEntry{CoinDenom: dn, CoinDecimals: 6, MinFundingAmount: min, MinFundingAmountPerBundle: per, CoinWeight: math.LegacyMustNewDecFromStr(weight)}
	}
	w.FunParams = fundersTypes.Params{MinFundingMultiple: m.Cur.FunParams.MinFundingMultiple, CoinWhitelist: []*fundersTypes.WhitelistCoinEntry{
		wl(Denom, e.MinFundingAmount, e.MinFundingAmountPerBundle, "0.0358"),
		wl(ibcOne, math.NewInt(1_000_000_000), math.NewInt(100_000), "0.1007"),
		wl(ibcTwo, math.NewInt(1_000_000_000), math.NewInt(100_000), "0.0207")}}

	// delegation
	hit("entries", rewrite(st(delegationTypes.StoreKey), delegationTypes.DelegationEntriesKeyPrefix, func(v []byte) []byte {
		var d delegationTypes.DelegationEntry
		dec(v, &d)
		x := math.LegacyZeroDec()
		for _, c := range d.Value {
			if c.Denom != Denom {
				panic("the state is not one of v1.4")
			}
			x = c.Amount
			hit("entries_with_rewards", 1)
		}
		return cdc.MustMarshal(&oldDelegation.DelegationEntry{Staker: d.Staker, KIndex: d.KIndex, Value: x})
	}))
	hit("pools_of_delegators", rewrite(st(delegationTypes.StoreKey), delegationTypes.DelegationDataKeyPrefix, func(v []byte) []byte {
		var d delegationTypes.DelegationData
		dec(v, &d)
		if !d.CurrentRewards.IsZero() {
			hit("current_rewards", 1)
		}
		if d.LatestIndexWasUndelegation {
			hit("after_undelegation", 1)
		}
		return cdc.MustMarshal(&oldDelegation.DelegationData{Staker: d.Staker, CurrentRewards: amt(d.CurrentRewards), TotalDelegation: d.TotalDelegation,
			LatestIndexK: d.LatestIndexK, DelegatorCount: d.DelegatorCount, LatestIndexWasUndelegation: d.LatestIndexWasUndelegation})
	}))

	// stakers
	hit("stakers", rewrite(st(stakersTypes.StoreKey), stakersTypes.StakerKeyPrefix, func(v []byte) []byte {
		var s stakersTypes.Staker
		dec(v, &s)
		if !s.CommissionRewards.IsZero() {
			hit("commission_rewards", 1)
		}
		return cdc.MustMarshal(&oldStakers.Staker{Address: s.Address, Commission: s.Commission, Moniker: s.Moniker, Website: s.Website,
			Identity: s.Identity, SecurityContact: s.SecurityContact, Details: s.Details, CommissionRewards: amt(s.CommissionRewards)})
	}))

	// bundles
	b := m.Cur.BunParams
	st(bundlesTypes.StoreKey).Set(bundlesTypes.ParamsPrefix, cdc.MustMarshal(&oldBundles.Params{UploadTimeout: b.UploadTimeout,
		StorageCost: math.LegacyMustNewDecFromStr("0.025"), NetworkFee: b.NetworkFee, MaxPoints: b.MaxPoints}))
	w.BunParams = bundlesTypes.Params{UploadTimeout: b.UploadTimeout, NetworkFee: b.NetworkFee, MaxPoints: b.MaxPoints, StorageCosts: []bundlesTypes.StorageCost{
		{StorageProviderId: 1, Cost: math.LegacyMustNewDecFromStr("0.000000004194")},
		{StorageProviderId: 2, Cost: math.LegacyMustNewDecFromStr("0.000000006288")},
		{StorageProviderId: 3, Cost: math.LegacyZeroDec()}}}

	// pools
	pp := m.Cur.PoolParams
	st(poolTypes.StoreKey).Set(poolTypes.ParamsKey, cdc.MustMarshal(&oldPool.Params{ProtocolInflationShare: pp.ProtocolInflationShare, PoolInflationPayoutRate: pp.PoolInflationPayoutRate}))
	w.PoolParams.MaxVotingPowerPerPool = math.LegacyMustNewDecFromStr("0.5")
	hit("pools", rewrite(st(poolTypes.StoreKey), poolTypes.PoolKey, func(v []byte) []byte {
		var p poolTypes.Pool
		dec(v, &p)
		o := oldPool.Pool{Id: p.Id, Name: p.Name, Runtime: p.Runtime, Logo: p.Logo, Config: p.Config, StartKey: p.StartKey, CurrentKey: p.CurrentKey,
			CurrentSummary: p.CurrentSummary, CurrentIndex: p.CurrentIndex, TotalBundles: p.TotalBundles, UploadInterval: p.UploadInterval,
			InflationShareWeight: p.InflationShareWeight.TruncateInt().Uint64(), MinDelegation: p.MinDelegation, MaxBundleSize: p.MaxBundleSize, Disabled: p.Disabled,
			CurrentStorageProviderId: p.CurrentStorageProviderId, CurrentCompressionId: p.CurrentCompressionId, EndKey: p.EndKey}
		if q := p.Protocol; q != nil {
			o.Protocol = &oldPool.Protocol{Version: q.Version, Binaries: q.Binaries, LastUpgrade: q.LastUpgrade}
		}
		if q := p.UpgradePlan; q != nil {
			o.UpgradePlan = &oldPool.UpgradePlan{Version: q.Version, Binaries: q.Binaries, ScheduledAt: q.ScheduledAt, Duration: q.Duration}
		}
		x := p
		x.InflationShareWeight = math.LegacyOneDec()
		if has(newRuntimes, p.Runtime) {
			if p.UpgradePlan != nil && p.UpgradePlan.ScheduledAt != 0 {
				hit("pools_already_upgrading", 1)
			} else {
				hit("pools_to_upgrade", 1)
				x.UpgradePlan = &poolTypes.UpgradePlan{Version: "1.2.0", Binaries: runtimeBinaries(p.Runtime), ScheduledAt: uint64(at.Unix()), Duration: 600}
			}
		}
		w.Pools[p.Id] = &x
		return cdc.MustMarshal(&o)
	}))

	// governance
	gp, err := a.GovKeeper.Params.Get(quietCtx(ctx))
	must(err)
	exp := 30 * time.Minute
	gp.ExpeditedMinDeposit, gp.ExpeditedVotingPeriod = sdk.NewCoins(sdk.NewInt64Coin(Denom, 50_000_000_000)), &exp
	sp.gov = gp
	url := sdk.MsgTypeURL(&poolTypes.MsgCreatePool{})
	hit("proposals", rewrite(st(govTypes.StoreKey), govTypes.ProposalsKeyPrefix, func(v []byte) []byte {
		var p, x govv1.Proposal
		dec(v, &p)
		dec(v, &x)
		for i, msg := range p.Messages {
			if msg.TypeUrl != url {
				continue
			}
			var c poolTypes.MsgCreatePool
			must(proto.Unmarshal(msg.Value, &c))
			o := oldPool.MsgCreatePool{Authority: c.Authority, Name: c.Name, Runtime: c.Runtime, Logo: c.Logo, Config: c.Config, StartKey: c.StartKey,
				UploadInterval: c.UploadInterval, InflationShareWeight: c.InflationShareWeight.TruncateInt().Uint64(), MinDelegation: c.MinDelegation,
				MaxBundleSize: c.MaxBundleSize, Version: c.Version, Binaries: c.Binaries, StorageProviderId: c.StorageProviderId, CompressionId: c.CompressionId}
			p.Messages[i].Value = cdc.MustMarshal(&o)
			c.InflationShareWeight = math.LegacyNewDecFromInt(c.InflationShareWeight.TruncateInt())
			c.EndKey = ""
			x.Messages[i].Value = cdc.MustMarshal(&c)
			hit("create_pool_messages", 1)
			if p.Status == govv1.StatusVotingPeriod {
				hit("pending_create_pool_messages", 1)
			}
		}
		y := x
		sp.props[fmt.Sprint(x.Id)] = &y
		return cdc.MustMarshal(&p)
	}))
	must(a.UpgradeKeeper.ScheduleUpgrade(ctx, upgradeTypes.Plan{Name: upgradeName, Height: n.Height + 1}))
	return sp
}

// upgraded judges what the upgrade handler left to the first block.
func (m *Mon) upgraded(ctx sdk.Context) {
	sp := m.upgrade
	sp.done = true
	ctx = quietCtx(ctx)
	step := "the upgrade to " + upgradeName
	got := m.R.Read(ctx, false)
	w := sp.want
	w.UpgradePlan = got.UpgradePlan
	w.Time, w.Height = got.Time, got.Height
	m.diffs(step, []string{"P37"}, Compare(w, got))
	m.invariants(step, []string{"P37"}, got)
	if d := m.N.App.UpgradeKeeper; true {
		h, err := d.GetDoneHeight(ctx, upgradeName)
		if err != nil || h != ctx.BlockHeight() {
			m.report(step, []string{"P37"}, fmt.Sprintf("it is recorded as done at height %d (%v), not %d", h, err, ctx.BlockHeight()))
		}
	}

	// everything else, byte for byte
	var l []string
	now := m.digest(ctx)
	var recs, props int64
	for name := range mergeRaw(sp.raw, now) {
		a, b := sp.raw[name], now[name]
		for k := range mergeKeys(a, b) {
			x, ok := a[k]
			y, ok2 := b[k]
			recs++
			if ok == ok2 && x == y {
				continue
			}
			if name == upgradeTypes.StoreKey || byValue(name, k) {
				continue
			}
			l = append(l, fmt.Sprintf("record %x of store %s becomes %x instead of %x", k, name, y, x))
		}
	}
	m.C.Add("v15.raw_records_compared", recs)
	it := storetypes.KVStorePrefixIterator(ctx.KVStore(m.N.storeKeys()[govTypes.StoreKey]), govTypes.ProposalsKeyPrefix)
	for ; it.Valid(); it.Next() {
		var p govv1.Proposal
		if err := m.N.App.AppCodec().Unmarshal(it.Value(), &p); err != nil {
			l = append(l, fmt.Sprintf("proposal %x can not be decoded: %v", it.Key(), err))
			continue
		}
		q := sp.props[fmt.Sprint(p.Id)]
		delete(sp.props, fmt.Sprint(p.Id))
		props++
		if q == nil {
			l = append(l, fmt.Sprintf("proposal %d comes out of nowhere", p.Id))
			continue
		}
		if p.Id < oldIds {
			q.Title, q.Summary, q.Proposer = p.Title, p.Summary, p.Proposer
		}
		if a, b := q.String(), p.String(); a != b {
			l = append(l, fmt.Sprintf("proposal %d becomes %s instead of %s", p.Id, b, a))
		}
		if _, err := p.GetMsgs(); err != nil {
			l = append(l, fmt.Sprintf("the messages of proposal %d can not be read: %v", p.Id, err))
		}
	}
	it.Close()
	for id := range sp.props {
		l = append(l, "proposal "+id+" is lost")
	}
	m.C.Add("v15.proposals_compared", props)
	gp, err := m.N.App.GovKeeper.Params.Get(ctx)
	must(err)
	if a, b := sp.gov.String(), gp.String(); a != b {
		l = append(l, fmt.Sprintf("the governance params become %s instead of %s", b, a))
	}
	sort.Strings(l)
	if len(l) > 0 {
		m.report(step, []string{"P37"}, l...)
		m.resync(got)
	}
	m.Cur = got
	m.C.Hit("v15.executed")
}

// byValue: records the state comparison or the comparison of proposals judges.
func byValue(store, key string) bool {
	pre := func(p []byte) bool { return len(key) >= len(p) && key[:len(p)] == string(p) }
	switch store {
	case fundersTypes.StoreKey:
		return pre(fundersTypes.ParamsKey)
	case bundlesTypes.StoreKey:
		return pre(bundlesTypes.ParamsPrefix)
	case poolTypes.StoreKey:
		return pre(poolTypes.ParamsKey) || pre(poolTypes.PoolKey)
	case govTypes.StoreKey:
		return pre(govTypes.ProposalsKeyPrefix) || pre(govTypes.ParamsKey)
	}
	return false
}

func mergeRaw(a, b raw) map[string]bool {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return m
}

// The events of the handler are not judged: PreBlock of this SDK version drops
// them, so that no client ever sees one.

// modeUpgrade: history of v1.4, upgrade, history of v1.5.
func modeUpgrade(o *options, res *Result) {
	runtime.GOMAXPROCS(2)
	rounds := int(o.to)
	if rounds == 0 {
		rounds = 1
	}
	c := NewCov()
	res.Cov = c.N
	states := map[uint64]bool{}
	defer func() {
		for h := range states {
			res.States = append(res.States, fmt.Sprintf("%x", h))
		}
		sort.Strings(res.States)
	}()
	for i := 0; i < rounds && len(res.Viol) == 0; i++ {
		g := NewGen(o.seed+int64(i)*1000, o.profile)
		g.v14 = true
		n := OpenNode(dbm.NewMemDB(), nil)
		m := NewMon(n, c)
		g.n, g.m = n, m
		m.states = states
		func() {
			defer func() { res.Viol = append(res.Viol, m.Viol...); res.Blocks += n.Height }()
			go1 := g.genesis()
			cust := go1.Customize
			go1.Customize = func(a *app.App, gs map[string]json.RawMessage) {
				cust(a, gs)
				var gg govv1.GenesisState
				a.AppCodec().MustUnmarshalJSON(gs[govTypes.ModuleName], &gg)
				if o.seed%3 > 0 {
					gg.StartingProposalId = oldIds
				}
				gs[govTypes.ModuleName] = a.AppCodec().MustMarshalJSON(&gg)
			}
			n.InitGenesis(go1)
			g.Setup()
			r := rand.New(rand.NewSource(o.seed*13 + int64(i)))
			g.Run(o.blocks/2 + r.Intn(o.blocks/4+1))
			if len(m.Viol) > 0 {
				return
			}
			exp := g.P.Expose
			g.P.Expose = false
			if r.Intn(2) == 0 {
				g.T += 2
				g.propose(&poolTypes.MsgScheduleRuntimeUpgrade{Authority: authority(), Runtime: newRuntimes[r.Intn(3)], Version: "1.1.9",
					ScheduledAt: uint64(g.T) + uint64(r.Intn(3000)), Duration: uint64(20 + r.Intn(1000)), Binaries: "{}"})
				g.fill()
				g.flush()
				if len(m.Viol) > 0 {
					return
				}
			}
			// a proposal that is being voted on when the upgrade happens
			g.T += int64(1 + r.Intn(20))
			g.propose(g.createPool(), g.createPool())
			g.P.Expose = exp
			g.fill()
			g.flush()
			if len(m.Viol) > 0 {
				return
			}
			m.extra = []string{"P37"}
			g.v14 = false
			g.T = g.step()
			m.upgrade = m.downgrade(unix(g.T))
			m.onBlock = func(*abci.ResponseFinalizeBlock) {
				m.onBlock = nil
				if !m.upgrade.done {
					m.report("the upgrade", []string{"P37"}, "the upgrade was not executed")
				}
				m.upgrade = nil
			}
			g.fill()
			g.flush()
			g.Run(o.blocks - o.blocks/2)
			c.Add("v15.blocks_after", int64(o.blocks-o.blocks/2))
			c.Add("checked", 1)
			c.Hit("distinct")
		}()
	}
}
