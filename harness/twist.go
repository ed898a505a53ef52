package main

// twist.go: short detours which bring the chain into the states that plain
// random operations hardly ever meet (see rare.go for how often they do).

import (
	"sort"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	bundlesTypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationTypes "github.com/KYVENetwork/chain/x/delegation/types"
	fundersTypes "github.com/KYVENetwork/chain/x/funders/types"
	poolTypes "github.com/KYVENetwork/chain/x/pool/types"
	stakersTypes "github.com/KYVENetwork/chain/x/stakers/types"
)

// pending returns the pools whose proposal awaits its votes.
func (g *Gen) pending() (l []uint64) {
	s := g.cur()
	for _, id := range s.PoolIds() {
		if p := s.Props[id]; p != nil && p.StorageId != "" {
			l = append(l, id)
		}
	}
	return
}

func (g *Gen) join(id uint64, who string) *plan {
	a := g.by[who]
	if a == nil {
		return nil
	}
	taken := map[string]bool{}
	for k, v := range g.cur().Val {
		if k.Pool == id || k.Staker == who {
			taken[v.Valaddress] = true
		}
	}
	v := pickA(g, g.va)
	for k := 0; k < 6 && taken[v.Str]; k++ {
		v = pickA(g, g.va)
	}
	return one(a, &stakersTypes.MsgJoinPool{Creator: who, PoolId: id, Valaddress: v.Str, Amount: uint64(g.r.Intn(3))})
}

// decree has governance decide something.
func (g *Gen) decree(m ...sdk.Msg) {
	if !g.v14 {
		e := g.P.Expose
		g.P.Expose = false
		g.propose(m...)
		g.P.Expose = e
	}
}

// unlist takes a funded coin from the whitelist, or puts the coins back.
func (g *Gen) unlist() {
	s := g.cur()
	var l []*fundersTypes.WhitelistCoinEntry
	drop := ""
	if w := s.FunParams.CoinWhitelist; len(w) > 1 {
		drop = w[1+g.r.Intn(len(w)-1)].CoinDenom
	}
	for _, e := range s.FunParams.CoinWhitelist {
		if e.CoinDenom != drop {
			l = append(l, e)
		}
	}
	if drop == "" || g.pct(35) {
		l = g.whitelist()
	}
	g.decree(&fundersTypes.MsgUpdateParams{Authority: authority(), Payload: g.js(map[string]any{"coin_whitelist": l})})
}

func (g *Gen) twist() {
	s := g.cur()
	r := g.r
	gov := g.decree
	pools := s.PoolIds()
	if len(pools) == 0 {
		return
	}
	id := pickA(g, pools)
	pend := g.pending()
	if len(pend) > 0 {
		id = pickA(g, pend)
	}
	p, q := s.Pools[id], s.Props[id]
	if q == nil {
		q = &bundlesTypes.BundleProposal{}
	}
	au := authority()
	payload := func(m map[string]any) *poolTypes.MsgUpdatePool {
		return &poolTypes.MsgUpdatePool{Authority: au, Id: id, Payload: g.js(m)}
	}
	switch r.Intn(18) {
	case 0, 1, 2: // members of a round leave while it is open, and come back
		if len(pend) == 0 {
			return
		}
		who := q.Uploader
		if all := append(append(append([]string{}, q.VotersValid...), q.VotersInvalid...), q.VotersAbstain...); g.pct(50) && len(all) > 0 {
			who = pickA(g, all)
		}
		if g.pct(15) && q.NextUploader != "" {
			who = q.NextUploader
		}
		a := g.by[who]
		if a == nil {
			return
		}
		if v := s.Val[PS{id, who}]; v == nil {
			if s.Stakers[who] != nil {
				g.send(g.join(id, who), 0, true)
			}
		} else if !v.IsLeaving {
			g.send(one(a, &stakersTypes.MsgLeavePool{Creator: who, PoolId: id}), 0, true)
			if g.pct(60) && !g.v14 {
				gov(&stakersTypes.MsgUpdateParams{Authority: au, Payload: g.js(map[string]any{"leave_pool_time": r.Intn(6)})})
			}
		}
	case 3: // whoever has left an open round comes back
		for _, id := range pend {
			q := s.Props[id]
			for _, l := range [][]string{q.VotersValid, q.VotersInvalid, q.VotersAbstain} {
				for _, v := range l {
					if s.Val[PS{id, v}] == nil && s.Stakers[v] != nil {
						g.send(g.join(id, v), 0, false)
					}
				}
			}
		}
	case 4: // a pause by an upgrade
		if len(pend) > 0 {
			g.ver++
			gov(&poolTypes.MsgScheduleRuntimeUpgrade{Authority: au, Runtime: p.Runtime, Version: "3." + string(rune('a'+g.ver%26)), ScheduledAt: uint64(g.T), Duration: uint64(1 + r.Intn(25)), Binaries: "{}"})
		}
	case 5: // a pause for want of stake
		var total uint64
		for _, m := range s.Members(id) {
			total += s.total(m)
		}
		if s.status(id) == "min delegation" {
			gov(payload(map[string]any{"MinDelegation": total / 2}))
		} else {
			gov(payload(map[string]any{"MinDelegation": total + 1 + uint64(r.Intn(3))}))
		}
	case 6: // off and on again
		if p.Disabled {
			gov(&poolTypes.MsgEnablePool{Authority: au, Id: id})
		} else if g.pct(50) {
			off := 0
			for _, x := range s.Pools {
				if x.Disabled {
					off++
				}
			}
			if 2*off < len(s.Pools) {
				gov(&poolTypes.MsgDisablePool{Authority: au, Id: id})
				g.hot, g.hotN = id, 10
			}
		}
	case 7: // the end of the data
		for _, x := range pools {
			if s.Pools[x].EndKey != "" && s.Pools[x].EndKey == s.Pools[x].CurrentKey && g.pct(50) {
				id = x
				gov(payload(map[string]any{"EndKey": pickA(g, []string{"", "", "end"})}))
				return
			}
		}
		if len(pend) > 0 && len(pools) > 1 {
			gov(payload(map[string]any{"EndKey": pickA(g, []string{q.ToKey, q.ToKey, p.CurrentKey, q.FromKey})}))
		}
	case 8: // fewer points allowed than some already have
		top := uint64(0)
		for _, v := range s.Val {
			top = max(top, v.Points)
		}
		if top > 0 && s.BunParams.MaxPoints > 1 && g.pct(70) {
			gov(&bundlesTypes.MsgUpdateParams{Authority: au, Payload: g.js(map[string]any{"max_points": 1 + r.Intn(int(min(top, 100)))})})
		} else {
			gov(&bundlesTypes.MsgUpdateParams{Authority: au, Payload: g.js(map[string]any{"max_points": 3 + r.Intn(8)})})
		}
	case 9:
		g.unlist()
	case 10, 11: // the node of the open round loses its stake
		who := q.Uploader
		if g.pct(40) {
			if mem := s.Members(id); len(mem) > 0 {
				who = pickA(g, mem)
			}
		}
		n := 0
		for _, d := range s.Delegators(who) {
			if a := g.by[d]; a != nil && s.Stake[SD{who, d}] > 0 && n < 6 {
				x := s.Stake[SD{who, d}]
				pl := &plan{by: a}
				for k := 0; k < 1+r.Intn(3) && x > 0; k++ {
					y := x
					if g.pct(40) {
						y = 1 + uint64(r.Int63n(int64(min(x, 1<<62))))
					}
					pl.msgs = append(pl.msgs, &delegationTypes.MsgUndelegate{Creator: d, Staker: who, Amount: y})
					if g.pct(70) {
						x -= y
					}
				}
				g.send(pl, 0, true)
				n++
			}
		}
		if n > 0 && g.pct(50) {
			gov(&delegationTypes.MsgUpdateParams{Authority: au, Payload: g.js(map[string]any{"unbonding_delegation_time": 1 + r.Intn(8)})})
		}
	case 12: // bundles almost without delay, and a new limit
		gov(payload(map[string]any{"UploadInterval": pickA(g, []int{1, 1, 2, 5, 20}), "MaxBundleSize": 1 + r.Intn(6)}))
	case 13: // slow rounds, in which more can happen
		gov(payload(map[string]any{"UploadInterval": 30 + r.Intn(60)}), &bundlesTypes.MsgUpdateParams{Authority: au, Payload: g.js(map[string]any{"upload_timeout": 20 + r.Intn(100)})})
	case 14: // funds which last for a bundle and a bit
		a := pickA(g, g.fun)
		if s.Funders[a.Str] == nil {
			return
		}
		var am, per sdk.Coins
		for _, e := range s.FunParams.CoinWhitelist {
			if g.pct(30) {
				continue
			}
			x := math.MaxInt(e.MinFundingAmountPerBundle, math.OneInt()).AddRaw(r.Int63n(20))
			y := math.MaxInt(e.MinFundingAmount, x.MulRaw(int64(max(1, min(s.FunParams.MinFundingMultiple, 1000))))).AddRaw(r.Int63n(7))
			per, am = per.Add(sdk.NewCoin(e.CoinDenom, x)), am.Add(sdk.NewCoin(e.CoinDenom, y))
		}
		if !am.Empty() {
			g.send(one(a, &fundersTypes.MsgFundPool{Creator: a.Str, PoolId: id, Amounts: am, AmountsPerBundle: per}), 0, true)
		}
		if s.FunParams.MinFundingMultiple > 2 && g.pct(60) {
			gov(&fundersTypes.MsgUpdateParams{Authority: au, Payload: g.js(map[string]any{"min_funding_multiple": r.Intn(3)})})
		}
	case 16, 17: // members with equal stakes
		mem := s.Members(id)
		if len(mem) < 2 {
			return
		}
		sort.SliceStable(mem, func(i, j int) bool { return s.total(mem[i]) < s.total(mem[j]) })
		k := r.Intn(len(mem) - 1)
		for n := 0; n < 2 && k+1 < len(mem); n++ {
			if d := s.total(mem[k+1]) - s.total(mem[k]); d > 0 {
				a := pickA(g, g.del)
				if b := s.Bal(a.Str, Denom); b.GT(math.NewIntFromUint64(d)) {
					g.send(one(a, &delegationTypes.MsgDelegate{Creator: a.Str, Staker: mem[k], Amount: d}), 0, true)
				}
			}
			k += 2
		}
	case 15: // three at once: changes of commission, or nodes which leave everything
		for k := 0; k < 3; k++ {
			a := pickA(g, g.stk)
			if s.Stakers[a.Str] == nil {
				continue
			}
			pl := &plan{by: a}
			if g.pct(60) {
				pl.msgs = append(pl.msgs, &stakersTypes.MsgUpdateCommission{Creator: a.Str, Commission: g.frac()})
			}
			if g.pct(40) {
				for _, x := range s.PoolsOf(a.Str) {
					pl.msgs = append(pl.msgs, &stakersTypes.MsgLeavePool{Creator: a.Str, PoolId: x})
				}
			}
			g.send(pl, 0, true)
		}
	}
}

// repair lets a pool run again, so that no chain spends most of its blocks
// with pools that stand still.
func (g *Gen) repair() {
	s := g.cur()
	au := authority()
	var l []uint64
	for _, id := range s.PoolIds() {
		if st := s.status(id); st != "" && st != "upgrading" {
			l = append(l, id)
		}
	}
	if len(l) == 0 || g.v14 {
		return
	}
	id := pickA(g, l)
	mem := s.Members(id)
	var all, top uint64
	for _, x := range mem {
		all += s.total(x)
		top = max(top, s.total(x))
	}
	var m sdk.Msg
	switch s.status(id) {
	case "disabled":
		if g.pct(50) {
			m = &poolTypes.MsgEnablePool{Authority: au, Id: id}
		}
	case "end key":
		m = &poolTypes.MsgUpdatePool{Authority: au, Id: id, Payload: g.js(map[string]any{"EndKey": pickA(g, []string{"", "", "later"})})}
	case "min delegation":
		m = &poolTypes.MsgUpdatePool{Authority: au, Id: id, Payload: g.js(map[string]any{"MinDelegation": pickA(g, []uint64{0, all, all / 2})})}
	default:
		if g.pct(60) {
			m = &poolTypes.MsgUpdateParams{Authority: au, Payload: g.js(map[string]any{"max_voting_power_per_pool": pickA(g, []string{"1", "1", "0.9", "0.75"})})}
			break
		}
		// the others catch up
		for _, x := range mem {
			a := pickA(g, g.del)
			if d := top - s.total(x); d > 0 && s.Bal(a.Str, Denom).GT(math.NewIntFromUint64(d)) {
				g.send(one(a, &delegationTypes.MsgDelegate{Creator: a.Str, Staker: x, Amount: d}), 0, true)
			}
		}
	}
	if m != nil {
		e := g.P.Expose
		g.P.Expose = false
		g.propose(m)
		g.P.Expose = e
	}
}
