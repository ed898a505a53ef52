package main

import (
	"fmt"
	"math/big"
	"sort"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	bundlesTypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationTypes "github.com/KYVENetwork/chain/x/delegation/types"
	fundersTypes "github.com/KYVENetwork/chain/x/funders/types"
)

func delegateMsg(from, staker string, amount uint64) *delegationTypes.MsgDelegate {
	return &delegationTypes.MsgDelegate{Creator: from, Staker: staker, Amount: amount}
}

type runErr string

func (e runErr) Error() string { return string(e) }

// poolStake returns the total and the highest stake of the pool's members.
func (w *Snap) poolStake(pool uint64) (total, high uint64) {
	for k := range w.Val {
		if k.Pool == pool {
			t := w.Totals[k.Staker].Amount
			total += t
			if t > high {
				high = t
			}
		}
	}
	return
}

// status is the reason why a pool cannot run, "" if it can.
func (w *Snap) status(pool uint64) string {
	p := w.Pools[pool]
	switch {
	case p == nil:
		return "not found"
	case p.UpgradePlan.ScheduledAt > 0 && uint64(w.Time) >= p.UpgradePlan.ScheduledAt:
		return "upgrading"
	case p.Disabled:
		return "disabled"
	case p.EndKey != "" && p.CurrentKey == p.EndKey:
		return "end key"
	}
	total, high := w.poolStake(pool)
	if total < p.MinDelegation {
		return "min delegation"
	}
	lim := w.votingLimit(total)
	if new(big.Int).SetUint64(high).Cmp(lim) > 0 {
		return "voting power"
	}
	return ""
}

// votingLimit is trunc(share*total), the most one member may hold.
func (w *Snap) votingLimit(total uint64) *big.Int {
	lim := new(big.Int).Mul(w.PoolParams.MaxVotingPowerPerPool.BigInt(), new(big.Int).SetUint64(total))
	return lim.Quo(lim, fx18)
}

// edges names the limits a pool sits exactly on.
func (w *Snap) edges(pool uint64) (l []string) {
	p := w.Pools[pool]
	total, high := w.poolStake(pool)
	if p == nil || total == 0 {
		return nil
	}
	if total == p.MinDelegation {
		l = append(l, "exactly_min_delegation")
	}
	if total+1 == p.MinDelegation {
		l = append(l, "one_below_min_delegation")
	}
	if w.PoolParams.MaxVotingPowerPerPool.LT(math.LegacyOneDec()) {
		switch d := new(big.Int).Sub(w.votingLimit(total), new(big.Int).SetUint64(high)); {
		case d.Sign() == 0:
			l = append(l, "exactly_max_voting_power")
		case d.IsInt64() && d.Int64() == -1:
			l = append(l, "one_above_max_voting_power")
		}
	}
	return
}

func (w *World) prop(pool uint64) bundlesTypes.BundleProposal {
	if p := w.Props[pool]; p != nil {
		return *p
	}
	return bundlesTypes.BundleProposal{PoolId: pool}
}

func (w *World) setProp(p bundlesTypes.BundleProposal) { w.Props[p.PoolId] = &p }

func has(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func without(l []string, x string) []string {
	var r []string
	for _, y := range l {
		if y != x {
			r = append(r, y)
		}
	}
	return r
}

func (w *World) authorized(pool uint64, staker, creator string) bool {
	v := w.member(pool, staker)
	return v != nil && v.Valaddress == creator
}

func (w *World) canVote(pool uint64, staker, creator, storage string) error {
	if s := w.status(pool); s != "" {
		w.C.Hit("vote.blocked." + s)
		return runErr(s)
	}
	if !w.authorized(pool, staker, creator) {
		return rejectf("unauthorized")
	}
	p := w.prop(pool)
	if p.StorageId == "" || p.StorageId != storage {
		return rejectf("no such proposal")
	}
	if has(p.VotersValid, staker) || has(p.VotersInvalid, staker) {
		w.C.Hit("vote.twice")
		return rejectf("already voted")
	}
	return nil
}

func (w *World) canPropose(pool uint64, staker, creator string, from uint64) error {
	if s := w.status(pool); s != "" {
		w.C.Hit("propose.blocked." + s)
		return runErr(s)
	}
	if !w.authorized(pool, staker, creator) {
		return rejectf("unauthorized")
	}
	p := w.prop(pool)
	if p.NextUploader != staker {
		w.C.Hit("propose.not_designated")
		return rejectf("not designated")
	}
	due := p.UpdatedAt + w.Pools[pool].UploadInterval
	if uint64(w.Time) < due {
		w.C.Hit("propose.too_early")
		return rejectf("too early")
	}
	if uint64(w.Time) == due {
		w.C.Hit("propose.exactly_due")
	}
	if w.Pools[pool].CurrentIndex+p.BundleSize != from {
		return rejectf("from index")
	}
	return nil
}

func (w *World) setPoints(pool uint64, staker string, n uint64) {
	k := PS{pool, staker}
	v := *w.Val[k]
	v.Points = n
	w.Val[k] = &v
}

func (w *World) resetPoints(pool uint64, staker string) {
	v := w.member(pool, staker)
	if v == nil || v.Points == 0 {
		return
	}
	w.setPoints(pool, staker, 0)
	w.emit(&bundlesTypes.EventPointsReset{PoolId: pool, Staker: staker})
}

func (w *World) addPoint(pool uint64, staker string) {
	v := w.member(pool, staker)
	if v == nil {
		return
	}
	n := v.Points + 1
	w.setPoints(pool, staker, n)
	w.emit(&bundlesTypes.EventPointIncreased{PoolId: pool, Staker: staker, CurrentPoints: n})
	if n >= w.BunParams.MaxPoints {
		w.C.Hit("points.limit")
		w.slash(pool, staker, delegationTypes.SLASH_TYPE_TIMEOUT)
		w.leave(pool, staker)
	}
}

func (w *World) nonVoters(pool uint64) {
	p := w.prop(pool)
	for _, m := range w.Members(pool) {
		if !has(p.VotersValid, m) && !has(p.VotersInvalid, m) && !has(p.VotersAbstain, m) {
			w.addPoint(pool, m)
		}
	}
}

type dist struct {
	valid, invalid, abstain, total uint64
	status                         bundlesTypes.BundleStatus
}

func (w *World) votes(pool uint64) (d dist) {
	p, ok := w.Props[pool]
	if !ok {
		return
	}
	sum := func(l []string) (n uint64) {
		for _, v := range l {
			if w.member(pool, v) != nil {
				n += w.total(v)
			} else {
				w.C.Hit("tally.departed_voter")
			}
		}
		return
	}
	d.valid, d.invalid, d.abstain = sum(p.VotersValid), sum(p.VotersInvalid), sum(p.VotersAbstain)
	d.total, _ = w.poolStake(pool)
	b := func(x uint64) *big.Int { return new(big.Int).Lsh(new(big.Int).SetUint64(x), 1) }
	T := new(big.Int).SetUint64(d.total)
	switch {
	case d.total == 0:
		d.status = bundlesTypes.BUNDLE_STATUS_NO_QUORUM
	case b(d.valid).Cmp(T) > 0:
		d.status = bundlesTypes.BUNDLE_STATUS_VALID
	case b(d.invalid).Cmp(T) >= 0:
		d.status = bundlesTypes.BUNDLE_STATUS_INVALID
	default:
		d.status = bundlesTypes.BUNDLE_STATUS_NO_QUORUM
	}
	if d.total > 0 && (b(d.valid).Cmp(T) == 0 || b(d.invalid).Cmp(T) == 0) {
		w.C.Hit("tally.exactly_half")
	}
	return
}

type reward struct {
	total, treasury, storage, commission, delegation, uploader sdk.Coins
	funders                                                    sdk.Coins
	inflation                                                  uint64
}

type tallyRes struct {
	dist
	reward
}

func (w *World) whitelist() map[string]*fundersTypes.WhitelistCoinEntry {
	m := map[string]*fundersTypes.WhitelistCoinEntry{}
	for _, e := range w.FunParams.CoinWhitelist {
		m[e.CoinDenom] = e
	}
	return m
}

// chargeFunders moves what every active funder agreed to from the funders
// escrow to the pool module.
func (w *World) chargeFunders(pool uint64) sdk.Coins {
	wl := w.whitelist()
	act := w.FundStates[pool]
	payout := sdk.NewCoins()
	var left []string
	for _, a := range act {
		k := FP{a, pool}
		f := w.Fundings[k]
		if f == nil {
			left = append(left, a)
			continue
		}
		charge := sdk.NewCoins()
		for _, c := range f.AmountsPerBundle {
			if wl[c.Denom] == nil {
				w.C.Hit("charge.skips_unlisted")
				continue
			}
			have := f.Amounts.AmountOf(c.Denom)
			x := math.MinInt(have, c.Amount)
			if have.LT(c.Amount) && have.IsPositive() {
				w.C.Hit("charge.partial")
			}
			if x.IsPositive() {
				charge = charge.Add(sdk.NewCoin(c.Denom, x))
			}
		}
		n := *f
		n.Amounts = f.Amounts.Sub(charge...)
		n.TotalFunded = f.TotalFunded.Add(charge...)
		var pb sdk.Coins
		for _, c := range f.AmountsPerBundle {
			if n.Amounts.AmountOf(c.Denom).IsPositive() {
				pb = append(pb, c)
			}
		}
		n.AmountsPerBundle = pb
		w.Fundings[k] = &n
		payout = payout.Add(charge...)
		if n.Amounts.IsZero() {
			w.C.Hit("charge.exhausted")
		} else {
			left = append(left, a)
		}
	}
	if len(act) > 0 {
		w.FundStates[pool] = left
		if len(left) == 0 {
			w.C.Hit("pool.out_of_funds")
			w.emit(&fundersTypes.EventPoolOutOfFunds{PoolId: pool})
		}
	}
	w.Send(addrFunders(), addrPool(), payout)
	if len(payout) > 1 {
		w.C.Hit("charge.multicoin")
	}
	return payout
}

// mulDecFloor is floor(coins * d) per coin.
func mulDecFloor(c sdk.Coins, d math.LegacyDec) sdk.Coins {
	r := sdk.NewCoins()
	for _, x := range c {
		q := new(big.Int).Mul(x.Amount.BigInt(), d.BigInt())
		q.Quo(q, fx18)
		if q.Sign() > 0 {
			r = r.Add(sdk.NewCoin(x.Denom, math.NewIntFromBigInt(q)))
		}
	}
	return r
}

func (w *World) storageCost(provider uint32) math.LegacyDec {
	for _, s := range w.BunParams.StorageCosts {
		if s.StorageProviderId == provider {
			return s.Cost
		}
	}
	return math.LegacyZeroDec()
}

func (w *World) payouts(pool uint64, total sdk.Coins) (r reward) {
	p := w.prop(pool)
	st := w.Stakers[p.Uploader]
	if st == nil || total.IsZero() {
		return
	}
	r.total = total
	r.treasury = mulDecFloor(total, w.BunParams.NetworkFee)
	rest := total.Sub(r.treasury...)
	if rest.IsZero() {
		return
	}
	wl := w.whitelist()
	per := w.storageCost(p.StorageProviderId).MulInt(math.NewIntFromUint64(p.DataSize)).QuoInt64(int64(rest.Len()))
	want := sdk.NewCoins()
	for _, c := range rest {
		e := wl[c.Denom]
		if e == nil || e.CoinWeight.IsZero() {
			continue
		}
		unit := math.LegacyNewDecFromBigInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(e.CoinDecimals)), nil))
		a := per.Mul(unit).Quo(e.CoinWeight).TruncateInt()
		if a.IsPositive() {
			want = want.Add(sdk.NewCoin(c.Denom, a))
		}
	}
	r.storage = rest.Min(want)
	if !r.storage.IsZero() {
		w.C.Hit("payout.storage")
	}
	rest = rest.Sub(r.storage...)
	if rest.IsZero() {
		w.C.Hit("payout.storage_takes_all")
		return
	}
	r.commission = mulDecFloor(rest, st.Commission)
	rest = rest.Sub(r.commission...)
	if rest.IsZero() {
		return
	}
	if w.Totals[p.Uploader].Count > 0 && w.total(p.Uploader) > 0 {
		r.delegation = rest
	} else {
		w.C.Hit("payout.nobody_delegates")
		r.commission = r.commission.Add(rest...)
	}
	return
}

func poolAcc(id uint64) string {
	return modAddr(fmt.Sprintf("pool/%d", id))
}

func (w *World) tally(pool uint64) (t tallyRes) {
	p := w.prop(pool)
	w.nonVoters(pool)
	t.dist = w.votes(pool)
	w.C.Hit("tally." + t.status.String())
	switch t.status {
	case bundlesTypes.BUNDLE_STATUS_VALID:
		funders := w.chargeFunders(pool)
		bal := w.Bal(poolAcc(pool), Denom)
		q := new(big.Int).Mul(bal.BigInt(), w.PoolParams.PoolInflationPayoutRate.BigInt())
		q.Quo(q, fx18)
		infl := q.Uint64()
		w.Send(poolAcc(pool), addrPool(), tkyve(infl))
		total := funders.Add(tkyve(infl)...)
		t.reward = w.payouts(pool, total)
		t.funders, t.inflation = funders, infl
		w.FundCommunity(addrPool(), t.treasury)
		t.uploader = t.commission.Add(t.storage...)
		if err := w.creditCommission(p.Uploader, addrPool(), t.uploader); err != nil {
			w.C.Hit("model.commission_unpayable")
		}
		if err := w.credit(p.Uploader, addrPool(), t.delegation); err != nil {
			w.C.Hit("model.delegation_unpayable")
		}
		if !t.delegation.IsZero() {
			w.C.Hit("payout.delegation")
		}
		for _, v := range p.VotersInvalid {
			w.slash(pool, v, delegationTypes.SLASH_TYPE_VOTE)
			w.leave(pool, v)
		}
	case bundlesTypes.BUNDLE_STATUS_INVALID:
		for _, v := range p.VotersValid {
			ty := delegationTypes.SLASH_TYPE_VOTE
			if v == p.Uploader {
				ty = delegationTypes.SLASH_TYPE_UPLOAD
			}
			w.slash(pool, v, ty)
			w.leave(pool, v)
		}
	}
	return
}

func (w *World) register(m *bundlesTypes.MsgSubmitBundleProposal, next string) {
	pool := w.Pools[m.PoolId]
	w.setProp(bundlesTypes.BundleProposal{PoolId: m.PoolId, StorageId: m.StorageId, Uploader: m.Staker, NextUploader: next, DataSize: m.DataSize,
		BundleSize: m.BundleSize, ToKey: m.ToKey, BundleSummary: m.BundleSummary, DataHash: m.DataHash, UpdatedAt: uint64(w.Time),
		VotersValid: []string{m.Staker}, FromKey: m.FromKey, StorageProviderId: pool.CurrentStorageProviderId, CompressionId: pool.CurrentCompressionId})
	w.emit(&bundlesTypes.EventBundleProposed{PoolId: m.PoolId, Id: pool.TotalBundles, StorageId: m.StorageId, Uploader: m.Staker, DataSize: m.DataSize,
		FromIndex: pool.CurrentIndex, BundleSize: m.BundleSize, FromKey: m.FromKey, ToKey: m.ToKey, BundleSummary: m.BundleSummary, DataHash: m.DataHash,
		ProposedAt: uint64(w.Time), StorageProviderId: pool.CurrentStorageProviderId, CompressionId: pool.CurrentCompressionId})
	w.emit(&bundlesTypes.EventBundleVote{PoolId: m.PoolId, Staker: m.Staker, StorageId: m.StorageId, Vote: bundlesTypes.VOTE_TYPE_VALID})
}

func (w *World) finalize(id uint64, t tallyRes, next string) {
	pool := *w.Pools[id]
	p := w.prop(id)
	w.Bundles[PB{id, pool.TotalBundles}] = &bundlesTypes.FinalizedBundle{PoolId: id, Id: pool.TotalBundles, StorageId: p.StorageId, Uploader: p.Uploader,
		FromIndex: pool.CurrentIndex, ToIndex: pool.CurrentIndex + p.BundleSize, ToKey: p.ToKey, BundleSummary: p.BundleSummary, DataHash: p.DataHash,
		FinalizedAt: &bundlesTypes.FinalizedAt{Height: uint64(w.Height), Timestamp: uint64(w.Time)}, FromKey: p.FromKey,
		StorageProviderId: p.StorageProviderId, CompressionId: p.CompressionId,
		StakeSecurity: &bundlesTypes.StakeSecurity{ValidVotePower: t.valid, TotalVotePower: t.dist.total}}
	w.emit(&bundlesTypes.EventBundleFinalized{PoolId: id, Id: pool.TotalBundles, Valid: t.valid, Invalid: t.invalid, Abstain: t.abstain, Total: t.dist.total,
		Status: t.status, FundersPayout: t.funders.String(), InflationPayout: t.inflation, RewardTreasury: t.treasury.String(), RewardUploader: t.uploader.String(),
		RewardDelegation: t.delegation.String(), RewardTotal: t.reward.total.String(), FinalizedAt: uint64(w.Time), Uploader: p.Uploader, NextUploader: next,
		RewardUploaderCommission: t.commission.String(), RewardUploaderStorageCost: t.storage.String()})
	pool.CurrentIndex += p.BundleSize
	pool.TotalBundles++
	pool.CurrentKey = p.ToKey
	pool.CurrentSummary = p.BundleSummary
	w.Pools[id] = &pool
	w.C.Hit("bundle.finalized")
}

func (w *World) drop(id uint64, d dist, next string) {
	p := w.prop(id)
	w.emit(&bundlesTypes.EventBundleFinalized{PoolId: id, Id: w.Pools[id].TotalBundles, Valid: d.valid, Invalid: d.invalid, Abstain: d.abstain,
		Total: d.total, Status: d.status, FinalizedAt: uint64(w.Time), Uploader: p.Uploader})
	w.setProp(bundlesTypes.BundleProposal{PoolId: id, NextUploader: next, UpdatedAt: uint64(w.Time)})
	w.C.Hit("bundle.dropped." + d.status.String())
}

func (w *World) mSubmit(m *bundlesTypes.MsgSubmitBundleProposal) error {
	if err := w.canPropose(m.PoolId, m.Staker, m.Creator, m.FromIndex); err != nil {
		return err
	}
	pool := w.Pools[m.PoolId]
	if m.StorageId == "" || m.BundleSize == 0 || m.BundleSize > pool.MaxBundleSize || m.FromKey == "" || m.ToKey == "" {
		return rejectf("arguments")
	}
	w.resetPoints(m.PoolId, m.Staker)
	if w.prop(m.PoolId).StorageId == "" {
		w.register(m, w.next(m.PoolId))
		w.C.Hit("submit.first")
		return nil
	}
	voters := w.prop(m.PoolId).VotersValid
	nu := w.prop(m.PoolId).NextUploader
	t := w.tally(m.PoolId)
	switch t.status {
	case bundlesTypes.BUNDLE_STATUS_VALID:
		n := w.nextFrom(m.PoolId, voters)
		w.finalize(m.PoolId, t, n)
		w.register(m, n)
		w.C.Hit("submit.valid")
	case bundlesTypes.BUNDLE_STATUS_INVALID:
		w.drop(m.PoolId, t.dist, nu)
		w.C.Hit("submit.invalid")
	default:
		w.C.Hit("submit.no_quorum")
		return rejectf("no quorum")
	}
	return nil
}

func (w *World) mVote(m *bundlesTypes.MsgVoteBundleProposal) error {
	if err := w.canVote(m.PoolId, m.Staker, m.Creator, m.StorageId); err != nil {
		return err
	}
	p := w.prop(m.PoolId)
	if has(p.VotersAbstain, m.Staker) {
		if m.Vote == bundlesTypes.VOTE_TYPE_ABSTAIN {
			return rejectf("already abstained")
		}
		p.VotersAbstain = without(p.VotersAbstain, m.Staker)
		w.C.Hit("vote.changed")
	}
	ap := func(l []string) []string { return append(append([]string{}, l...), m.Staker) }
	switch m.Vote {
	case bundlesTypes.VOTE_TYPE_VALID:
		p.VotersValid = ap(p.VotersValid)
	case bundlesTypes.VOTE_TYPE_INVALID:
		p.VotersInvalid = ap(p.VotersInvalid)
	case bundlesTypes.VOTE_TYPE_ABSTAIN:
		p.VotersAbstain = ap(p.VotersAbstain)
	default:
		return rejectf("vote type")
	}
	w.setProp(p)
	w.resetPoints(m.PoolId, m.Staker)
	w.C.Hit("vote." + m.Vote.String())
	w.emit(&bundlesTypes.EventBundleVote{PoolId: m.PoolId, Staker: m.Staker, StorageId: m.StorageId, Vote: m.Vote})
	return nil
}

func (w *World) mClaim(m *bundlesTypes.MsgClaimUploaderRole) error {
	if s := w.status(m.PoolId); s != "" {
		return runErr(s)
	}
	if !w.authorized(m.PoolId, m.Staker, m.Creator) {
		return rejectf("unauthorized")
	}
	p := w.prop(m.PoolId)
	p.PoolId = m.PoolId
	if p.NextUploader != "" {
		w.C.Hit("claim.taken")
		return rejectf("already claimed")
	}
	p.NextUploader = m.Staker
	p.UpdatedAt = uint64(w.Time)
	w.setProp(p)
	w.C.Hit("claim")
	w.emit(&bundlesTypes.EventClaimedUploaderRole{PoolId: m.PoolId, Id: w.Pools[m.PoolId].TotalBundles, NewUploader: m.Staker})
	return nil
}

func (w *World) mSkip(m *bundlesTypes.MsgSkipUploaderRole) error {
	if err := w.canPropose(m.PoolId, m.Staker, m.Creator, m.FromIndex); err != nil {
		return err
	}
	w.resetPoints(m.PoolId, m.Staker)
	p := w.prop(m.PoolId)
	t := tallyRes{dist: dist{status: bundlesTypes.BUNDLE_STATUS_NO_QUORUM}}
	if p.StorageId != "" {
		t = w.tally(m.PoolId)
	}
	n := w.next(m.PoolId, m.Staker)
	switch t.status {
	case bundlesTypes.BUNDLE_STATUS_VALID:
		w.finalize(m.PoolId, t, n)
		w.setProp(bundlesTypes.BundleProposal{PoolId: m.PoolId, NextUploader: n, UpdatedAt: uint64(w.Time)})
	case bundlesTypes.BUNDLE_STATUS_INVALID:
		w.drop(m.PoolId, t.dist, n)
	default:
		p.NextUploader = n
		p.UpdatedAt = uint64(w.Time)
		w.setProp(p)
	}
	w.C.Hit("skip." + t.status.String())
	w.emit(&bundlesTypes.EventSkippedUploaderRole{PoolId: m.PoolId, Id: w.Pools[m.PoolId].TotalBundles, PreviousUploader: m.Staker, NewUploader: n})
	return nil
}

// bUpload is the end-of-block step of every pool's proposal.
func (w *World) bUpload() {
	for _, id := range w.PoolIds() {
		st := w.status(id)
		p := w.prop(id)
		if st != "" {
			if st == "disabled" && p.StorageId != "" {
				w.drop(id, dist{status: bundlesTypes.BUNDLE_STATUS_DISABLED}, "")
			} else if p.NextUploader != "" {
				p.NextUploader = ""
				w.setProp(p)
				w.C.Hit("uploader.cleared." + st)
			}
			continue
		}
		pool := w.Pools[id]
		now := uint64(w.Time)
		if now < p.UpdatedAt+pool.UploadInterval {
			continue
		}
		if p.StorageId != "" {
			if d := w.votes(id); d.status == bundlesTypes.BUNDLE_STATUS_NO_QUORUM {
				w.nonVoters(id)
				n := w.next(id)
				w.drop(id, d, n)
				continue
			}
		}
		if now < p.UpdatedAt+pool.UploadInterval+w.BunParams.UploadTimeout {
			continue
		}
		if now == p.UpdatedAt+pool.UploadInterval+w.BunParams.UploadTimeout {
			w.C.Hit("timeout.exactly_due")
		}
		w.C.Hit("timeout")
		late := p.NextUploader
		if p.StorageId != "" {
			t := w.tally(id)
			if t.status == bundlesTypes.BUNDLE_STATUS_VALID {
				n := w.nextFrom(id, p.VotersValid)
				w.finalize(id, t, n)
				w.setProp(bundlesTypes.BundleProposal{PoolId: id, NextUploader: n, UpdatedAt: now})
				w.C.Hit("timeout.valid")
			} else {
				n := w.next(id)
				w.drop(id, t.dist, n)
				w.C.Hit("timeout.dropped")
			}
		} else {
			p.PoolId = p.PoolId // a pool without any stored proposal keeps the id it was stored with
			p.NextUploader = w.next(id)
			p.UpdatedAt = now
			w.setProp(p)
		}
		w.addPoint(id, late)
	}
}

// ------------------------------------------------------------ rotation

type rrSet struct {
	vals  []string
	power map[string]int64
	prog  map[string]int64
	total int64
}

func (w *World) rrLoad(pool uint64) *rrSet {
	r := &rrSet{power: map[string]int64{}, prog: map[string]int64{}}
	for _, m := range w.Members(pool) {
		if t := w.total(m); t > 0 {
			r.vals = append(r.vals, m)
			r.power[m] = int64(t)
			r.total += int64(t)
		}
	}
	old := w.RR[pool]
	for _, v := range r.vals {
		if x, ok := old[v]; ok {
			r.prog[v] = x
		} else {
			// newcomers start 1.125 rounds behind
			q := new(big.Int).Mul(big.NewInt(-1125), big.NewInt(r.total))
			r.prog[v] = q.Quo(q, big.NewInt(1000)).Int64()
		}
	}
	r.norm()
	return r
}

func (r *rrSet) norm() {
	if len(r.vals) == 0 {
		return
	}
	var ps []int64
	for _, v := range r.vals {
		ps = append(ps, r.prog[v])
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
	diff := ps[len(ps)-1] - ps[0]
	if diff > 2*r.total {
		for _, v := range r.vals {
			// trunc(p * 2T / diff) evaluated with 18 decimals
			r.prog[v] = math.LegacyNewDec(r.prog[v]).MulInt64(2 * r.total).QuoInt64(diff).TruncateInt64()
		}
	}
	sum := int64(0)
	for _, v := range r.vals {
		sum += r.prog[v]
	}
	avg := sum / int64(len(r.vals))
	for _, v := range r.vals {
		r.prog[v] -= avg
	}
}

func (w *World) pick(pool uint64, excluded map[string]bool) string {
	r := w.rrLoad(pool)
	if len(r.vals) == 0 {
		w.RR[pool] = map[string]int64{}
		return ""
	}
	r.norm()
	n := 0
	for _, v := range r.vals {
		if excluded[v] {
			n++
		}
	}
	if n == len(r.vals) {
		excluded = nil
		w.C.Hit("rotation.all_excluded")
	} else if n > 0 {
		w.C.Hit("rotation.some_excluded")
	}
	best := ""
	round := int64(0)
	for _, v := range r.vals {
		if excluded[v] {
			continue
		}
		r.prog[v] += r.power[v]
		round += r.power[v]
	}
	for _, v := range r.vals {
		if !excluded[v] && (best == "" || r.prog[v] > r.prog[best]) {
			best = v
		}
	}
	r.prog[best] -= round
	w.RR[pool] = r.prog
	w.C.Hit("rotation.pick")
	return best
}

func (w *World) next(pool uint64, excluded ...string) string {
	m := map[string]bool{}
	for _, e := range excluded {
		m[e] = true
	}
	return w.pick(pool, m)
}

func (w *World) nextFrom(pool uint64, included []string) string {
	m := map[string]bool{}
	for _, v := range w.Members(pool) {
		if !has(included, v) {
			m[v] = true
		}
	}
	return w.pick(pool, m)
}
