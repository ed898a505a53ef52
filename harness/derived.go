package main

// derived.go: redundant records, read raw from the stores once per block and
// compared with the primary records they summarise (P35), and the model of
// the governance tally (P34).

import (
	"fmt"
	gomath "math"
	"math/big"
	"time"

	"cosmossdk.io/collections"
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	govTypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"

	delegationTypes "github.com/KYVENetwork/chain/x/delegation/types"
	teamTypes "github.com/KYVENetwork/chain/x/team/types"
)

var teamAllocation = teamTypes.TEAM_ALLOCATION

// unix gives every second its own fraction: the chain reckons in whole seconds.
func unix(t int64) time.Time { return time.Unix(t, (t%1_000_000_000*618_033_989)%1_000_000_000).UTC() }

type hasher uint64

func (h *hasher) str(s string) {
	x := uint64(*h)
	for i := 0; i < len(s); i++ {
		x = (x ^ uint64(s[i])) * 1099511628211
	}
	*h = hasher(x)
}

// stateHash abstracts a snapshot to the shape of its protocol state.
func stateHash(s *Snap) uint64 {
	h := hasher(1469598103934665603)
	for _, id := range s.PoolIds() {
		p := s.Props[id]
		nv := 0
		if p != nil {
			nv = len(p.VotersValid)*10000 + len(p.VotersInvalid)*100 + len(p.VotersAbstain)
			if p.StorageId != "" {
				nv += 1000000
			}
			if p.NextUploader != "" {
				nv += 2000000
			}
		}
		pts := uint64(0)
		for _, m := range s.Members(id) {
			pts += s.Val[PS{id, m}].Points
		}
		h.str(fmt.Sprint(id, s.status(id), nv, len(s.Members(id)), len(s.FundStates[id]), pts, "|"))
	}
	h.str(fmt.Sprint(len(s.Stakers), len(s.Stake), len(s.UndelQ), len(s.ComQ), len(s.LeaveQ), len(s.Redel), len(s.Fundings), len(s.TeamAccs)))
	return uint64(h)
}

func (m *Mon) derived(ctx sdk.Context) {
	a := m.N.App
	s := m.Cur
	if s == nil {
		return
	}
	var bad []string
	props := map[string]bool{"P35": true}
	fail := func(p string, f string, x ...any) {
		props[p] = true
		bad = append(bad, fmt.Sprintf(f, x...))
	}
	n := 0
	raw := func(store string, prefix []byte) map[string]string {
		out := map[string]string{}
		m.R.iter(ctx, store, prefix, func(k, v []byte) { out[string(k[len(prefix):])] = string(v); n++ })
		return out
	}
	same := func(p, what string, got map[string]string, want map[string]bool) {
		for k := range want {
			if _, ok := got[k]; !ok {
				fail(p, "%s: %q is missing", what, k)
			}
		}
		for k := range got {
			if !want[k] {
				fail(p, "%s: %q has no counterpart", what, k)
			}
		}
	}
	be := func(x uint64) string { return string(sdk.Uint64ToBigEndian(x)) }

	// memberships by staker, counts
	want := map[string]bool{}
	cnt := map[string]uint64{}
	pool := map[uint64]uint64{}
	for k, v := range s.Val {
		want[k.Staker+be(k.Pool)] = true
		cnt[k.Staker]++
		pool[k.Pool]++
		if v.Staker != k.Staker || v.PoolId != k.Pool {
			fail("P17", "membership %v is stored as %v", k, v)
		}
	}
	same("P17", "memberships by staker", raw("stakers", []byte{2, 1}), want)
	for st, v := range raw("stakers", []byte{6}) {
		if u64([]byte(v)) != cnt[st] {
			fail("P17", "active pool count of %s is %d, memberships: %d", st, u64([]byte(v)), cnt[st])
		}
		delete(cnt, st)
	}
	for st, c := range cnt {
		fail("P17", "active pool count of %s is missing (memberships: %d)", st, c)
	}
	for k, v := range raw("stakers", []byte("total_stakers")) {
		id := u64([]byte(k))
		if u64([]byte(v)) != pool[id] {
			fail("P17", "pool %d counts %d members, memberships: %d", id, u64([]byte(v)), pool[id])
		}
		delete(pool, id)
	}
	for id, c := range pool {
		fail("P17", "pool %d has no member count (memberships: %d)", id, c)
	}
	// queues of the stakers module
	want = map[string]bool{}
	for i, e := range s.ComQ {
		want[e.Staker] = true
		if e.Index != i {
			fail("P19", "commission change %d is stored at %d", e.Index, i)
		}
	}
	ci := raw("stakers", []byte{4, 1})
	same("P19", "commission changes by staker", ci, want)
	for st, v := range ci {
		if e := s.ComQ[u64([]byte(v))]; e == nil || e.Staker != st {
			fail("P19", "commission change of %s points to %d", st, u64([]byte(v)))
		}
	}
	want = map[string]bool{}
	for i, e := range s.LeaveQ {
		k := e.Staker + be(e.PoolId)
		if want[k] {
			fail("P18", "%s has two leave requests for pool %d", e.Staker, e.PoolId)
		}
		want[k] = true
		if e.Index != i {
			fail("P18", "leave request %d is stored at %d", e.Index, i)
		}
		if v := s.Val[PS{e.PoolId, e.Staker}]; v == nil || !v.IsLeaving {
			fail("P18", "leave request %d of %s for pool %d without a leaving member", i, e.Staker, e.PoolId)
		}
	}
	same("P18", "leave requests by staker", raw("stakers", []byte{5, 1}), want)
	for k, v := range s.Val {
		if v.IsLeaving && !want[k.Staker+be(k.Pool)] {
			fail("P18", "member %v is marked as leaving without a request", k)
		}
	}
	// delegation records
	want = map[string]bool{}
	sum := map[string]uint64{}
	num := map[string]uint64{}
	for k, st := range s.Stake {
		want[k.Del+k.Staker] = true
		sum[k.Staker] += st
		num[k.Staker]++
	}
	same("P05", "stakers by delegator", raw("delegation", []byte{1, 1}), want)
	slashes := map[string]int{}
	for k := range raw("delegation", []byte{4}) {
		slashes[k[:len(k)-8]]++
	}
	for st, t := range s.Totals {
		if t.Count != num[st] {
			fail("P05", "%s counts %d delegators, has %d", st, t.Count, num[st])
		}
		if dust := uint64(slashes[st]+1) * (num[st] + 2); t.Amount < sum[st] || t.Amount-sum[st] > dust+m.churn(st) {
			fail("P04", "total stake of %s is %d, its delegators hold %d", st, t.Amount, sum[st])
		}
	}
	for st := range num {
		if _, ok := s.Totals[st]; !ok {
			fail("P05", "%s has delegators but no total", st)
		}
	}
	want = map[string]bool{}
	for i, e := range s.UndelQ {
		want[e.Delegator+be(i)] = true
		if e.Index != i {
			fail("P05", "undelegation %d is stored at %d", e.Index, i)
		}
	}
	same("P05", "undelegations by delegator", raw("delegation", []byte{6, 1}), want)
	// every delegator's period starts at an existing entry
	entries := raw("delegation", []byte{2})
	m.R.iter(ctx, "delegation", []byte{1, 0}, func(k, v []byte) {
		d := dec[delegationTypes.Delegator](m.R, "delegation", k, v)
		if _, ok := entries[d.Staker+be(d.KIndex)]; !ok {
			fail("P03", "delegator %s of %s starts at missing entry %d", d.Delegator, d.Staker, d.KIndex)
		}
		if string(k[2:]) != d.Staker+d.Delegator {
			fail("P05", "delegator record of %s/%s is stored under another key", d.Staker, d.Delegator)
		}
	})
	// fundings by pool
	want = map[string]bool{}
	for k, f := range s.Fundings {
		want[be(k.Pool)+k.Funder] = true
		if f.FunderAddress != k.Funder || f.PoolId != k.Pool {
			fail("P15", "funding %v is stored as %v", k, f)
		}
	}
	same("P15", "fundings by pool", raw("funders", []byte{2, 1}), want)
	for id := range s.Pools {
		if _, ok := s.FundStates[id]; !ok {
			fail("P16", "pool %d has no funding state", id)
		}
	}
	// in-memory indices
	if key := a.GetMemKey("memory:bundles"); key != nil {
		st := ctx.KVStore(key)
		got := map[string]string{}
		it := st.Iterator([]byte{11}, []byte{12})
		for ; it.Valid(); it.Next() {
			got[string(it.Key()[1:])] = string(it.Value())
		}
		it.Close()
		want = map[string]bool{}
		for k, b := range s.Bundles {
			key := be(k.Pool) + be(b.FromIndex)
			want[key] = true
			if got[key] != "" && got[key] != be(k.Id) {
				fail("P30", "bundle index of pool %d at %d points to %d instead of %d", k.Pool, b.FromIndex, u64([]byte(got[key])), k.Id)
			}
		}
		same("P30", "bundles by index", got, want)
	}
	if key := a.GetMemKey("memory:delegation"); key != nil {
		dt := ctx.KVStore(key)
		got := map[string]string{}
		it := dt.Iterator([]byte{1}, []byte{2})
		for ; it.Valid(); it.Next() {
			got[string(it.Key()[1:])] = ""
		}
		it.Close()
		want = map[string]bool{}
		for stk := range s.Stakers {
			want[be(gomath.MaxUint64-s.total(stk))+stk] = true
		}
		same("P30", "stakers by stake", got, want)
	}
	m.C.Add("monitor.derived_records", int64(n))
	m.C.Hit("monitor.derived_checks")
	if len(bad) > 0 {
		m.report("redundant records after the block", sortedS(props), bad...)
	}
}

// churn bounds the rounding of a staker's total beyond what current records show.
func (m *Mon) churn(st string) uint64 { return uint64(m.dust["churn:"+st]) }

// ------------------------------------------------------------ governance

type govTally struct {
	yes, no, abstain, veto math.LegacyDec
	total                  math.LegacyDec
	bonded                 math.Int
	votes                  int
	protocol               bool
}

func (m *Mon) govBefore(ctx sdk.Context) {
	m.govDue = nil
	k := m.N.App.GovKeeper
	now := ctx.BlockTime()
	rng := collections.NewPrefixUntilPairRange[time.Time, uint64](now)
	var ids []uint64
	must(k.ActiveProposalsQueue.Walk(ctx, rng, func(key collections.Pair[time.Time, uint64], _ uint64) (bool, error) {
		ids = append(ids, key.K2())
		return false, nil
	}))
	for _, id := range ids {
		p, err := k.Proposals.Get(ctx, id)
		if err != nil {
			continue
		}
		g := &govDue{p: p}
		for _, a := range p.Messages {
			var x sdk.Msg
			must(m.N.App.InterfaceRegistry().UnpackAny(a, &x))
			g.msgs = append(g.msgs, x)
		}
		deps, err := k.GetDeposits(ctx, id)
		must(err)
		g.deps = deps
		g.votes = m.votesOf(ctx, id)
		m.govDue = append(m.govDue, g)
	}
}

type govVote struct {
	voter string
	opts  govv1.WeightedVoteOptions
}

// votesOf reads the votes of a proposal; the tally deletes them.
func (m *Mon) votesOf(ctx sdk.Context, id uint64) (vs []govVote) {
	must(m.N.App.GovKeeper.Votes.Walk(ctx, collections.NewPrefixedPairRange[uint64, sdk.AccAddress](id), func(_ collections.Pair[uint64, sdk.AccAddress], v govv1.Vote) (bool, error) {
		vs = append(vs, govVote{v.Voter, v.Options})
		return false, nil
	}))
	return vs
}

// tallyModel counts votes from the observed stakes: native bonded stake plus
// protocol stake with stakers that are member of some pool.
func (m *Mon) tallyModel(ctx sdk.Context, s *Snap, vs []govVote) *govTally {
	g := &govTally{yes: math.LegacyZeroDec(), no: math.LegacyZeroDec(), abstain: math.LegacyZeroDec(), veto: math.LegacyZeroDec(), total: math.LegacyZeroDec(), bonded: math.ZeroInt()}
	sk := m.N.App.StakingKeeper
	nat, err := sk.TotalBondedTokens(ctx)
	must(err)
	g.bonded = nat
	active := map[string]bool{}
	for k := range s.Val {
		if !active[k.Staker] {
			active[k.Staker] = true
			g.bonded = g.bonded.Add(math.NewIntFromUint64(s.total(k.Staker)))
		}
	}
	deduct := map[string]math.LegacyDec{}
	natDeduct := map[string]math.LegacyDec{}
	count := func(power math.LegacyDec, o govv1.WeightedVoteOptions) {
		for _, x := range o {
			w := math.LegacyMustNewDecFromStr(x.Weight)
			y := power.Mul(w)
			switch x.Option {
			case govv1.OptionYes:
				g.yes = g.yes.Add(y)
			case govv1.OptionNo:
				g.no = g.no.Add(y)
			case govv1.OptionAbstain:
				g.abstain = g.abstain.Add(y)
			case govv1.OptionNoWithVeto:
				g.veto = g.veto.Add(y)
			}
		}
		g.total = g.total.Add(power)
	}
	for _, v := range vs {
		g.votes++
		addr := sdk.MustAccAddressFromBech32(v.voter)
		dels, err := sk.GetDelegatorDelegations(ctx, addr, 1000)
		must(err)
		for _, d := range dels {
			va, err := sdk.ValAddressFromBech32(d.ValidatorAddress)
			must(err)
			val, err := sk.GetValidator(ctx, va)
			if err != nil || !val.IsBonded() {
				continue
			}
			if x, ok := natDeduct[d.ValidatorAddress]; ok {
				natDeduct[d.ValidatorAddress] = x.Add(d.Shares)
			} else {
				natDeduct[d.ValidatorAddress] = d.Shares
			}
			count(d.Shares.MulInt(val.GetBondedTokens()).Quo(val.GetDelegatorShares()), v.opts)
		}
		for k, st := range s.Stake {
			if k.Del != v.voter || !active[k.Staker] {
				continue
			}
			x := math.LegacyNewDecFromInt(math.NewIntFromUint64(st))
			if _, ok := deduct[k.Staker]; !ok {
				deduct[k.Staker] = math.LegacyZeroDec()
			}
			deduct[k.Staker] = deduct[k.Staker].Add(x)
			count(x, v.opts)
			if st > 0 {
				g.protocol = true
			}
		}
	}
	for _, v := range vs {
		if active[v.voter] {
			rest := math.LegacyNewDecFromInt(math.NewIntFromUint64(s.total(v.voter)))
			if d, ok := deduct[v.voter]; ok {
				rest = rest.Sub(d)
			}
			if rest.IsPositive() {
				g.protocol = true
				m.C.Hit("gov.staker_votes_for_delegators")
			}
			count(rest, v.opts)
		}
		addr := sdk.MustAccAddressFromBech32(v.voter)
		val, err := sk.GetValidator(ctx, sdk.ValAddress(addr))
		if err == nil && val.IsBonded() {
			rest := val.GetDelegatorShares()
			if d, ok := natDeduct[val.GetOperator()]; ok {
				rest = rest.Sub(d)
			}
			count(rest.MulInt(val.GetBondedTokens()).Quo(val.GetDelegatorShares()), v.opts)
		}
	}
	return g
}

func (s *Snap) total(st string) uint64 { return s.Totals[st].Amount }

func (m *Mon) govAfter(ctx sdk.Context, w *World) {
	k := m.N.App.GovKeeper
	params, err := k.Params.Get(ctx)
	must(err)
	for _, g := range m.govDue {
		p, err := k.Proposals.Get(ctx, g.p.Id)
		step := fmt.Sprintf("governance proposal %d", g.p.Id)
		if err != nil {
			m.report(step, []string{"P34"}, "vanished")
			continue
		}
		if w.ambiguous {
			// a proposal executed before this one in the same block has an
			// unmodelled effect
			m.C.Hit("gov.not_judged")
			continue
		}
		// proposals end one after the other; the earlier ones may have changed
		// who is a member of a pool
		want := m.tallyModel(ctx, w.Snap, g.votes)
		m.C.Hit("gov.tallied")
		if want.protocol {
			m.C.Hit("gov.protocol_stake_voted")
		}
		f := p.FinalTallyResult
		if g.p.Expedited && p.Status == govv1.StatusVotingPeriod {
			m.C.Hit("gov.expedited_converted")
			continue
		}
		near := func(name string, want math.LegacyDec, got string) {
			i, ok := math.NewIntFromString(got)
			if !ok || want.TruncateInt().Sub(i).Abs().GT(math.NewInt(2)) {
				m.report(step, []string{"P34"}, fmt.Sprintf("%s votes weigh %s, expected %s", name, got, want))
			}
		}
		if f != nil {
			near("yes", want.yes, f.YesCount)
			near("no", want.no, f.NoCount)
			near("abstain", want.abstain, f.AbstainCount)
			near("veto", want.veto, f.NoWithVetoCount)
		}
		// outcome: quorum over native plus protocol stake, then thresholds
		pass, veto := false, false
		quorum := math.LegacyMustNewDecFromStr(params.Quorum)
		thr := math.LegacyMustNewDecFromStr(params.Threshold)
		if g.p.Expedited {
			thr = math.LegacyMustNewDecFromStr(params.ExpeditedThreshold)
		}
		vt := math.LegacyMustNewDecFromStr(params.VetoThreshold)
		near1 := func(a, b math.LegacyDec) bool { return a.Sub(b).Abs().LT(math.LegacyNewDecWithPrec(1, 9)) }
		sure := true
		if want.bonded.IsPositive() {
			part := want.total.QuoInt(want.bonded)
			sure = sure && !near1(part, quorum)
			noAbst := want.total.Sub(want.abstain)
			switch {
			case part.LT(quorum):
				m.C.Hit("gov.no_quorum")
			case !noAbst.IsPositive():
			case want.veto.Quo(want.total).GT(vt):
				veto = true
				sure = sure && !near1(want.veto.Quo(want.total), vt)
			default:
				pass = want.yes.Quo(noAbst).GT(thr)
				sure = sure && !near1(want.yes.Quo(noAbst), thr)
			}
		}
		_ = veto
		passed := p.Status == govv1.StatusPassed || p.Status == govv1.StatusFailed
		if sure && passed != pass {
			m.report(step, []string{"P34"}, fmt.Sprintf("ended with %s, the votes of %s of %s bonded mean passed=%v", p.Status, want.total, want.bonded, pass))
		}
		// deposits come back unless vetoed
		if !(veto && params.BurnVoteVeto) {
			for _, d := range g.deps {
				w.Send(modAddr(govTypes.ModuleName), d.Depositor, sdk.NewCoins(d.Amount...))
			}
		} else {
			for _, d := range g.deps {
				for _, c := range d.Amount {
					w.add(modAddr(govTypes.ModuleName), c.Denom, c.Amount.Neg())
					w.Supply[c.Denom] = w.Supply[c.Denom].Sub(c.Amount)
				}
			}
		}
		if !passed {
			m.C.Hit("gov.rejected")
			continue
		}
		fk := w.Fork()
		unmod := false
		var aerr error
		for _, x := range g.msgs {
			if aerr = fk.apply(x); aerr != nil {
				if aerr == errUnmodelled {
					unmod, aerr = true, nil
					continue
				}
				break
			}
		}
		if unmod {
			m.C.Hit("gov.unmodelled_message")
			w.ambiguous = true
			continue
		}
		var props []string
		for _, x := range g.msgs {
			props = append(props, opProps(x)...)
		}
		if (aerr == nil) != (p.Status == govv1.StatusPassed) {
			m.report(step, append([]string{"P20"}, props...), fmt.Sprintf("messages ended with %s (%s), expected error: %v", p.Status, p.FailedReason, aerr))
			w.ambiguous = true
			continue
		}
		if aerr == nil {
			w.take(fk)
			for _, x := range g.msgs {
				m.C.Hit("gov.executed." + opName(x))
			}
		} else {
			m.C.Hit("gov.failed")
		}
	}
}

var _ = big.NewInt
