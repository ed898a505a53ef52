package main

// aged.go: chains which have been running for a while.  The counters of such a
// genesis are about to cross a byte boundary (in the big-endian store keys) and
// the archive holds bundles from before the last schema change.

import (
	"encoding/json"
	"fmt"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	bankTypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"github.com/KYVENetwork/chain/app"
	bundlesTypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationTypes "github.com/KYVENetwork/chain/x/delegation/types"
	fundersTypes "github.com/KYVENetwork/chain/x/funders/types"
	poolTypes "github.com/KYVENetwork/chain/x/pool/types"
	stakersTypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamTypes "github.com/KYVENetwork/chain/x/team/types"
)

func (g *Gen) edgeCount() uint64 {
	return pickA(g, []uint64{0, 252, 253, 254, 255, 255, 65_533, 65_535, 1<<32 - 2})
}

// age rewrites the genesis state.
func (g *Gen) age(a *app.App, gs map[string]json.RawMessage, start int64) {
	r, cdc := g.r, a.AppCodec()
	g.height = 1 + r.Int63n(100_000)
	if r.Intn(3) == 0 {
		g.height = 1 << 16
	}
	var p poolTypes.GenesisState
	var b bundlesTypes.GenesisState
	var f fundersTypes.GenesisState
	var s stakersTypes.GenesisState
	var d delegationTypes.GenesisState
	var t teamTypes.GenesisState
	var k bankTypes.GenesisState
	cdc.MustUnmarshalJSON(gs[poolTypes.ModuleName], &p)
	cdc.MustUnmarshalJSON(gs[bundlesTypes.ModuleName], &b)
	cdc.MustUnmarshalJSON(gs[fundersTypes.ModuleName], &f)
	cdc.MustUnmarshalJSON(gs[stakersTypes.ModuleName], &s)
	cdc.MustUnmarshalJSON(gs[delegationTypes.ModuleName], &d)
	cdc.MustUnmarshalJSON(gs[bankTypes.ModuleName], &k)
	t = *teamTypes.DefaultGenesis()
	if gs[teamTypes.ModuleName] != nil {
		cdc.MustUnmarshalJSON(gs[teamTypes.ModuleName], &t)
	}

	p.PoolCount = g.edgeCount()
	schema := uint64(0)
	if r.Intn(2) == 0 {
		schema = uint64(r.Int63n(g.height))
		b.BundleVersionMap = bundlesTypes.BundleVersionMap{Versions: []*bundlesTypes.BundleVersionEntry{{Height: schema, Version: 2}}}
	}
	if !g.P.Full && r.Intn(2) == 0 {
		g.oldPool(&p, &b, &f, start, schema)
	}
	q := g.edgeCount()
	s.QueueStateCommission = stakersTypes.QueueState{LowIndex: q, HighIndex: q}
	q = g.edgeCount()
	s.QueueStateLeave = stakersTypes.QueueState{LowIndex: q, HighIndex: q}
	q = g.edgeCount()
	d.QueueStateUndelegation = delegationTypes.QueueState{LowIndex: q, HighIndex: q}
	t.AccountCount = g.edgeCount()

	total := uint64(0)
	for i, st := range g.stk {
		if i >= 3 || g.P.Full {
			break
		}
		s.StakerList = append(s.StakerList, stakersTypes.Staker{Address: st.Str, Commission: g.frac(), CommissionRewards: sdk.NewCoins()})
		idx, sum, n := g.edgeCount()+uint64(r.Intn(3)), uint64(0), uint64(0)
		who := append([]*Acc{st}, g.del...)
		for j, w := range who {
			if j > 0 && r.Intn(2) == 0 {
				continue
			}
			amt := uint64(1+r.Intn(200)) * KYVE
			if r.Intn(3) == 0 {
				amt = uint64(1 + r.Intn(1000))
			}
			idx++
			d.DelegatorList = append(d.DelegatorList, delegationTypes.Delegator{Staker: st.Str, Delegator: w.Str, KIndex: idx, InitialAmount: amt})
			d.DelegationEntryList = append(d.DelegationEntryList, delegationTypes.DelegationEntry{Staker: st.Str, KIndex: idx, Value: sdk.NewDecCoins()})
			sum += amt
			n++
		}
		d.DelegationDataList = append(d.DelegationDataList, delegationTypes.DelegationData{Staker: st.Str, CurrentRewards: sdk.NewCoins(), TotalDelegation: sum,
			LatestIndexK: idx, DelegatorCount: n})
		total += sum
	}
	if total > 0 {
		c := sdk.NewCoins(sdk.NewCoin(Denom, math.NewIntFromUint64(total)))
		k.Balances = append(k.Balances, bankTypes.Balance{Address: modAddr("delegation"), Coins: c})
		k.Supply = k.Supply.Add(c...)
	}
	gs[poolTypes.ModuleName] = cdc.MustMarshalJSON(&p)
	gs[bundlesTypes.ModuleName] = cdc.MustMarshalJSON(&b)
	gs[fundersTypes.ModuleName] = cdc.MustMarshalJSON(&f)
	gs[stakersTypes.ModuleName] = cdc.MustMarshalJSON(&s)
	gs[delegationTypes.ModuleName] = cdc.MustMarshalJSON(&d)
	gs[teamTypes.ModuleName] = cdc.MustMarshalJSON(&t)
	gs[bankTypes.ModuleName] = cdc.MustMarshalJSON(&k)
}

// oldPool adds a pool with a long archive.
func (g *Gen) oldPool(p *poolTypes.GenesisState, b *bundlesTypes.GenesisState, f *fundersTypes.GenesisState, start int64, schema uint64) {
	r := g.r
	id := p.PoolCount
	p.PoolCount++
	n := uint64(250 + r.Intn(6))
	if r.Intn(3) == 0 {
		n = uint64(1 + r.Intn(8))
	}
	idx := uint64(0)
	for i := uint64(0); i < n; i++ {
		size := uint64(1 + r.Intn(5))
		h := uint64(g.height) * i / n
		x := bundlesTypes.FinalizedBundle{PoolId: id, Id: i, StorageId: fmt.Sprintf("old-%d-%d", id, i), Uploader: g.stk[int(i)%len(g.stk)].Str,
			FromIndex: idx, ToIndex: idx + size, FromKey: fmt.Sprintf("k%d", idx), ToKey: fmt.Sprintf("k%d", idx+size), BundleSummary: fmt.Sprintf("old%d", i),
			DataHash: fmt.Sprintf("oldhash%d", i), FinalizedAt: &bundlesTypes.FinalizedAt{Height: h, Timestamp: uint64(start) - 60*(n-i)}, StorageProviderId: 1, CompressionId: 1}
		if h >= schema {
			x.StakeSecurity = &bundlesTypes.StakeSecurity{ValidVotePower: uint64(51 + r.Intn(40)), TotalVotePower: 100}
		}
		idx += size
		b.FinalizedBundleList = append(b.FinalizedBundleList, x)
	}
	last := b.FinalizedBundleList[n-1]
	p.PoolList = append(p.PoolList, poolTypes.Pool{Id: id, Name: "old", Runtime: "@kyve/evm", Logo: "l", Config: "{}", StartKey: "k0", CurrentKey: last.ToKey,
		CurrentSummary: last.BundleSummary, CurrentIndex: idx, TotalBundles: n, UploadInterval: uint64(5 + r.Intn(20)),
		InflationShareWeight: math.LegacyNewDecWithPrec(r.Int63n(1e6), 3), MinDelegation: uint64(r.Intn(40)) * KYVE, MaxBundleSize: uint64(5 + r.Intn(100)),
		Protocol:    &poolTypes.Protocol{Version: "1.0.0", Binaries: "{}", LastUpgrade: uint64(start) - 100_000},
		UpgradePlan: &poolTypes.UpgradePlan{}, CurrentStorageProviderId: uint32(r.Intn(4)), CurrentCompressionId: uint32(r.Intn(3))})
	f.FundingStateList = append(f.FundingStateList, fundersTypes.FundingState{PoolId: id})
}

// crossings counts how often a counter crossed a byte boundary of its key.
func (m *Mon) crossings() {
	if m.first == nil {
		return
	}
	a, b := m.first, m.Cur
	at := func(what string, x, y uint64) {
		if x>>8 != y>>8 {
			m.C.Hit("crossed." + what)
		}
	}
	at("pools", a.PoolCount, b.PoolCount)
	at("team_accounts", a.TeamCount, b.TeamCount)
	at("commission_queue", a.ComState.HighIndex, b.ComState.HighIndex)
	at("leave_queue", a.LeaveState.HighIndex, b.LeaveState.HighIndex)
	at("undelegation_queue", a.UndelState.HighIndex, b.UndelState.HighIndex)
	for id, p := range b.Pools {
		if o := a.Pools[id]; o != nil {
			at("bundles", o.TotalBundles, p.TotalBundles)
		}
	}
}
