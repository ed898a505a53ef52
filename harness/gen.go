package main

// gen.go: the workload.  A seeded, state-aware generator of transactions,
// governance decisions and block times.  It looks at the last observed state
// to steer the chain into interesting situations (exact deadlines, exact
// balances, full votes, contested outcomes) and mixes in invalid variants.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	upgradeTypes "cosmossdk.io/x/upgrade/types"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	bankTypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govTypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	"github.com/cosmos/cosmos-sdk/x/group"
	stakingTypes "github.com/cosmos/cosmos-sdk/x/staking/types"

	"github.com/KYVENetwork/chain/app"
	bundlesTypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationTypes "github.com/KYVENetwork/chain/x/delegation/types"
	fundersTypes "github.com/KYVENetwork/chain/x/funders/types"
	globalTypes "github.com/KYVENetwork/chain/x/global/types"
	poolTypes "github.com/KYVENetwork/chain/x/pool/types"
	stakersTypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamTypes "github.com/KYVENetwork/chain/x/team/types"
)

// Profile weighs the families of operations.
type Profile struct {
	Name                        string
	Stakers, Delegators, Funder int
	Pools                       int
	MaxTx                       int
	Bundle, Deleg, Stake, Fund  int
	Team, Gov, Bank, Authz      int
	Months                      bool // long time steps (team vesting)
	Fees                        bool // minimum gas price, surcharges, refunds, burning
	Expose                      bool // small validator: protocol stake decides votes
	Whale                       bool // supply-sized amounts
	Group                       bool
	Invalid                     int  // percent of mutated operations
	SmallGas                    int  // percent of transactions with tight gas
	Full                        bool // all slots of a pool taken
	Zero                        bool // slash fractions of one, zero fees and other corner settings
}

var profiles = map[string]Profile{
	"mix":     {Stakers: 8, Delegators: 5, Funder: 5, Pools: 3, MaxTx: 7, Bundle: 50, Deleg: 16, Stake: 12, Fund: 10, Team: 2, Gov: 8, Bank: 1, Authz: 2, Fees: true, Group: true, Invalid: 8, SmallGas: 4},
	"bundles": {Stakers: 6, Delegators: 4, Funder: 4, Pools: 2, MaxTx: 7, Bundle: 75, Deleg: 8, Stake: 5, Fund: 8, Team: 0, Gov: 3, Bank: 0, Authz: 1, Invalid: 6, SmallGas: 2},
	"deleg":   {Stakers: 6, Delegators: 8, Funder: 2, Pools: 2, MaxTx: 7, Bundle: 35, Deleg: 50, Stake: 10, Fund: 3, Team: 0, Gov: 3, Bank: 0, Authz: 1, Invalid: 6, SmallGas: 3, Zero: true},
	"funds":   {Stakers: 4, Delegators: 2, Funder: 10, Pools: 2, MaxTx: 7, Bundle: 45, Deleg: 5, Stake: 5, Fund: 40, Team: 0, Gov: 6, Bank: 0, Authz: 1, Invalid: 6, SmallGas: 3},
	"stakers": {Stakers: 10, Delegators: 4, Funder: 2, Pools: 3, MaxTx: 7, Bundle: 35, Deleg: 14, Stake: 40, Fund: 3, Team: 0, Gov: 5, Bank: 0, Authz: 1, Invalid: 6, SmallGas: 3},
	"team":    {Stakers: 4, Delegators: 2, Funder: 2, Pools: 1, MaxTx: 6, Bundle: 15, Deleg: 5, Stake: 5, Fund: 3, Team: 70, Gov: 2, Bank: 1, Authz: 1, Months: true, Invalid: 6, SmallGas: 3},
	"gov":     {Stakers: 6, Delegators: 5, Funder: 3, Pools: 3, MaxTx: 6, Bundle: 25, Deleg: 15, Stake: 15, Fund: 6, Team: 1, Gov: 40, Bank: 1, Authz: 1, Expose: true, Invalid: 6, SmallGas: 2},
	"fees":    {Stakers: 5, Delegators: 4, Funder: 3, Pools: 2, MaxTx: 8, Bundle: 30, Deleg: 20, Stake: 10, Fund: 10, Team: 2, Gov: 8, Bank: 6, Authz: 12, Fees: true, Group: true, Invalid: 15, SmallGas: 15},
	"whale":   {Stakers: 6, Delegators: 4, Funder: 4, Pools: 2, MaxTx: 6, Bundle: 50, Deleg: 20, Stake: 10, Fund: 12, Team: 2, Gov: 6, Bank: 1, Authz: 1, Whale: true, Invalid: 6, SmallGas: 2, Zero: true},
	"full":    {Stakers: 56, Delegators: 3, Funder: 56, Pools: 1, MaxTx: 9, Bundle: 12, Deleg: 14, Stake: 34, Fund: 36, Team: 0, Gov: 1, Bank: 0, Authz: 0, Invalid: 4, SmallGas: 2, Full: true},
	"hostile": {Stakers: 8, Delegators: 5, Funder: 5, Pools: 3, MaxTx: 8, Bundle: 40, Deleg: 16, Stake: 14, Fund: 12, Team: 6, Gov: 14, Bank: 2, Authz: 6, Fees: true, Group: true, Whale: false, Invalid: 45, SmallGas: 10, Zero: true},
}

type Gen struct {
	r         *rand.Rand
	n         *Node
	m         *Mon
	P         Profile
	stk       []*Acc
	del       []*Acc
	fun       []*Acc
	va        []*Acc
	val       *Acc
	atk       *Acc
	fnd       *Acc
	bcp       *Acc
	all       []*Acc
	by        map[string]*Acc
	T         int64
	pol       []string // group policy addresses
	mood      map[string]int
	sid       int
	ver       int
	govN      uint64
	metas     []*TxMeta
	bts       [][]byte
	govMsgs   [][]sdk.Msg
	quietTime bool
	onlyValid bool
	spent     map[string]bool
	hot       uint64 // a pool just brought to an edge: used more often for a while
	hotN      int
	v14       bool   // nothing v1.4 could not do
	height    int64  // initial height of the chain
	even      bool   // most stakes are of a few sizes, so that ties occur
	dB        string // a whitelisted denomination, before or after the native one
	decB      uint32
}

type plan struct {
	by    *Acc
	msgs  []sdk.Msg
	loose bool
}

func NewGen(seed int64, pname string) *Gen {
	p, ok := profiles[pname]
	if !ok {
		panic("unknown profile " + pname)
	}
	p.Name = pname
	g := &Gen{r: rand.New(rand.NewSource(seed)), P: p, by: map[string]*Acc{}, mood: map[string]int{}, spent: map[string]bool{}}
	q := rand.New(rand.NewSource(seed + 7919))
	g.dB = []string{"bcoin", "zcoin", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2"}[q.Intn(3)]
	g.decB = []uint32{18, 18, 18, 6, 0}[q.Intn(5)]
	g.even = q.Intn(4) == 0
	if !p.Full && q.Intn(3) == 0 {
		p.Stakers += 1 + q.Intn(7)
	}
	mk := func(n string) *Acc {
		a := NewAcc(n)
		g.all = append(g.all, a)
		g.by[a.Str] = a
		return a
	}
	g.val = mk("validator")
	g.atk = mk("attacker")
	g.fnd = mk("foundation")
	g.bcp = mk("bcp")
	for i := 0; i < p.Stakers; i++ {
		g.stk = append(g.stk, mk(fmt.Sprintf("staker%d", i)))
	}
	for i := 0; i < p.Delegators; i++ {
		g.del = append(g.del, mk(fmt.Sprintf("delegator%d", i)))
	}
	for i := 0; i < p.Funder; i++ {
		g.fun = append(g.fun, mk(fmt.Sprintf("funder%d", i)))
	}
	for i := 0; i < p.Stakers*2+2; i++ {
		g.va = append(g.va, mk(fmt.Sprintf("val%d", i)))
	}
	teamTypes.FOUNDATION_ADDRESS = g.fnd.Str
	teamTypes.BCP_ADDRESS = g.bcp.Str
	return g
}

func (g *Gen) balance() sdk.Coins {
	amt := 10_000_000 * KYVE
	if g.P.Whale {
		amt = 20_000_000 * KYVE
	}
	l := sdk.NewCoins(sdk.NewInt64Coin(Denom, int64(amt)), sdk.NewInt64Coin("acoin", 1e15), sdk.NewInt64Coin(g.dB, 1e18), sdk.NewInt64Coin("ccoin", 1e12))
	if g.v14 {
		l = l.Add(sdk.NewInt64Coin(ibcOne, 1e15)).Add(sdk.NewInt64Coin(ibcTwo, 1e15))
	}
	return l
}

func (g *Gen) pct(n int) bool      { return g.r.Intn(100) < n }
func pickA[T any](g *Gen, l []T) T { return l[g.r.Intn(len(l))] }

func (g *Gen) dec() math.LegacyDec {
	switch g.r.Intn(8) {
	case 0:
		return math.LegacyZeroDec()
	case 1:
		return math.LegacyOneDec()
	case 2:
		return math.LegacyOneDec().QuoInt64(3)
	case 3:
		return math.LegacyNewDecWithPrec(1, 18)
	case 4:
		return math.LegacyNewDecWithPrec(int64(g.r.Intn(100)), 2)
	}
	return math.LegacyNewDecWithPrec(g.r.Int63n(1e18), 18)
}

// scoreStep is an amount that makes a difference for a funder's score.
func scoreStep(e *fundersTypes.WhitelistCoinEntry) int64 {
	if e.CoinDecimals > 9 {
		return 1e14
	}
	if e.CoinDecimals == 0 {
		return 1
	}
	return 2e8
}

// cost is a storage price per byte.
func (g *Gen) cost() math.LegacyDec {
	return math.LegacyNewDecWithPrec(g.r.Int63n(1000), int64(1+g.r.Intn(12)))
}

// small: a realistic fraction
func (g *Gen) frac() math.LegacyDec {
	switch g.r.Intn(5) {
	case 0:
		return math.LegacyOneDec().QuoInt64(int64(3 + g.r.Intn(20)))
	case 1:
		if g.P.Zero {
			return g.dec()
		}
		return math.LegacyNewDecWithPrec(int64(g.r.Intn(30)), 2)
	}
	return math.LegacyNewDecWithPrec(int64(g.r.Intn(20)), 2)
}

func (g *Gen) genesis() GenesisOpts {
	r := g.r
	tge := int64(teamTypes.TGE)
	start := tge + int64(30*24*3600)*int64(r.Intn(40))
	g.T = start
	valTokens := uint64(50_000_000) * KYVE
	if g.P.Expose {
		valTokens = uint64(1000+r.Intn(3000)) * KYVE
	}
	infl := "0.05"
	by := uint64(5_000_000)
	switch r.Intn(4) {
	case 0:
		infl, by = "0.2", 100_000
	case 1:
		infl, by = "0.1", 20_000
	case 2:
		infl, by = "0.333333333333333333", 1_000_000
	}
	aged := !g.v14 && r.Intn(3) == 0
	return GenesisOpts{Time: unix(start), Accounts: g.all, Balance: g.balance(), Validator: g.val, ValTokens: valTokens, Inflation: infl, BlocksYear: by,
		Customize: func(a *app.App, gs map[string]json.RawMessage) {
			cdc := a.AppCodec()
			d := delegationTypes.DefaultGenesis()
			d.Params = delegationTypes.Params{UnbondingDelegationTime: uint64(1 + r.Intn(pickA(g, []int{10, 60, 130}))), RedelegationCooldown: uint64(40 + r.Intn(160)),
				RedelegationMaxAmount: uint64(1 + r.Intn(3)), VoteSlash: g.frac(), UploadSlash: g.frac(), TimeoutSlash: g.frac()}
			gs[delegationTypes.ModuleName] = cdc.MustMarshalJSON(d)
			s := stakersTypes.DefaultGenesis()
			s.Params = stakersTypes.Params{CommissionChangeTime: uint64(pickA(g, []int{0, 1, 10}) + r.Intn(90)), LeavePoolTime: uint64(pickA(g, []int{0, 1, 10, 10})*(1+r.Intn(9)) + r.Intn(5))}
			gs[stakersTypes.ModuleName] = cdc.MustMarshalJSON(s)
			b := bundlesTypes.DefaultGenesis()
			b.Params.UploadTimeout = uint64(10 + r.Intn(40))
			b.Params.MaxPoints = pickA(g, []uint64{1, 2, 3, 4, 6, 12})
			b.Params.NetworkFee = g.frac()
			if g.P.Zero && r.Intn(3) == 0 {
				b.Params.NetworkFee = math.LegacyOneDec()
			}
			if g.P.Full {
				b.Params.MaxPoints = uint64(100 + r.Intn(10))
			}
			b.Params.StorageCosts = []bundlesTypes.StorageCost{{StorageProviderId: 1, Cost: g.cost()},
				{StorageProviderId: 2, Cost: g.cost()}}
			gs[bundlesTypes.ModuleName] = cdc.MustMarshalJSON(b)
			p := poolTypes.DefaultGenesis()
			p.Params = poolTypes.Params{ProtocolInflationShare: math.LegacyNewDecWithPrec(int64(r.Intn(100)), 2), PoolInflationPayoutRate: g.dec(),
				MaxVotingPowerPerPool: pickA(g, []math.LegacyDec{math.LegacyOneDec(), math.LegacyOneDec(), math.LegacyOneDec(), math.LegacyOneDec(), math.LegacyNewDecWithPrec(5, 1), math.LegacyNewDecWithPrec(8, 1)})}
			gs[poolTypes.ModuleName] = cdc.MustMarshalJSON(p)
			f := fundersTypes.DefaultGenesis()
			f.Params = fundersTypes.Params{CoinWhitelist: g.whitelist(), MinFundingMultiple: uint64(r.Intn(20))}
			gs[fundersTypes.ModuleName] = cdc.MustMarshalJSON(f)
			gl := globalTypes.DefaultGenesisState()
			gl.Params.MinGasPrice, gl.Params.BurnRatio = math.LegacyZeroDec(), math.LegacyZeroDec()
			gl.Params.GasAdjustments, gl.Params.GasRefunds = nil, nil
			if g.P.Fees {
				gl.Params = g.gloParams()
			}
			gs[globalTypes.ModuleName] = cdc.MustMarshalJSON(gl)
			g.height = 1
			if aged {
				g.age(a, gs, start)
			}
		}, Height: &g.height}
}

func (g *Gen) whitelist() []*fundersTypes.WhitelistCoinEntry {
	r := g.r
	e := func(dn string, dc uint32, a, b int64, w math.LegacyDec) *fundersTypes.WhitelistCoinEntry {
		return &fundersTypes.WhitelistCoinEntry{CoinDenom: dn, CoinDecimals: dc, MinFundingAmount: math.NewInt(a), MinFundingAmountPerBundle: math.NewInt(b), CoinWeight: w}
	}
	l := []*fundersTypes.WhitelistCoinEntry{e(Denom, 9, r.Int63n(1000), r.Int63n(50), math.LegacyOneDec())}
	if g.v14 {
		return l
	}
	defer func() {
		// coins which count for nothing
		if g.pct(8) {
			pickA(g, l).CoinWeight = math.LegacyZeroDec()
		}
	}()
	if r.Intn(6) > 0 {
		l = append(l, e("acoin", 6, r.Int63n(100), r.Int63n(10), math.LegacyNewDecWithPrec(r.Int63n(5000), 2)))
	}
	if r.Intn(4) > 0 {
		l = append(l, e(g.dB, g.decB, r.Int63n(1e6), r.Int63n(1e5), math.LegacyNewDecWithPrec(r.Int63n(300000), 2)))
	}
	return l
}

func (g *Gen) gloParams() globalTypes.Params {
	r := g.r
	urls := []sdk.Msg{&bundlesTypes.MsgSubmitBundleProposal{}, &bundlesTypes.MsgVoteBundleProposal{}, &stakersTypes.MsgCreateStaker{}, &delegationTypes.MsgDelegate{},
		&fundersTypes.MsgFundPool{}, &bundlesTypes.MsgClaimUploaderRole{}, &bundlesTypes.MsgSkipUploaderRole{}, &bankTypes.MsgSend{}, &delegationTypes.MsgWithdrawRewards{}}
	p := globalTypes.Params{MinGasPrice: math.LegacyNewDecWithPrec(r.Int63n(100), 3), BurnRatio: g.dec()}
	if r.Intn(4) == 0 {
		p.MinGasPrice = math.LegacyNewDecWithPrec(1+r.Int63n(1e9), 18)
	}
	for _, u := range urls {
		if r.Intn(3) == 0 {
			p.GasAdjustments = append(p.GasAdjustments, globalTypes.GasAdjustment{Type: sdk.MsgTypeURL(u), Amount: uint64(r.Intn(300000))})
		}
		if r.Intn(3) == 0 {
			p.GasRefunds = append(p.GasRefunds, globalTypes.GasRefund{Type: sdk.MsgTypeURL(u), Fraction: g.dec()})
		}
	}
	return p
}

// ------------------------------------------------------------ amounts

func (g *Gen) amount() uint64 {
	r := g.r
	if g.P.Full && r.Intn(3) > 0 {
		return uint64(r.Intn(40))
	}
	k := KYVE
	if g.even && r.Intn(3) > 0 {
		return []uint64{1, 1, 2, 5}[r.Intn(4)] * 50 * k
	}
	if g.P.Whale && r.Intn(2) == 0 {
		return uint64(1+r.Intn(4_000_000))*k + uint64(r.Intn(1000))
	}
	switch r.Intn(10) {
	case 0:
		return 1
	case 1:
		return uint64(r.Intn(100))
	case 2, 3:
		return uint64(r.Int63n(1_000_000))
	case 4, 5, 6:
		return uint64(1+r.Intn(500)) * k
	case 7:
		return uint64(r.Int63n(int64(1000 * k)))
	}
	return uint64(1+r.Intn(50))*k + uint64(r.Intn(7))
}

// around returns x or something close to it.
func (g *Gen) around(x uint64) uint64 {
	switch g.r.Intn(8) {
	case 0:
		return x + 1
	case 1:
		if x > 0 {
			return x - 1
		}
	case 2, 3, 4:
		return x
	case 5:
		return x / 2
	case 6:
		return x/3 + 1
	}
	if x == 0 {
		return 0
	}
	return uint64(g.r.Int63n(int64(min(x, 1<<62)))) + 1
}

func (g *Gen) coins(maxes map[string]int64) sdk.Coins {
	var l sdk.Coins
	for _, dn := range []string{"acoin", g.dB, "ccoin", Denom} {
		if mx := maxes[dn]; mx > 0 {
			l = append(l, sdk.NewInt64Coin(dn, 1+g.r.Int63n(mx)))
		}
	}
	return sdk.NewCoins(l...)
}

// ------------------------------------------------------------ choices

func (g *Gen) cur() *Snap { return g.m.Cur }

func (g *Gen) pool() uint64 {
	ids := g.cur().PoolIds()
	if g.hotN > 0 {
		g.hotN--
		if g.pct(60) {
			return g.hot
		}
	}
	if len(ids) == 0 || g.pct(1) {
		return uint64(g.r.Intn(12))
	}
	return ids[g.r.Intn(len(ids))]
}

// signerOf finds the account able to act as the given address.
func (g *Gen) acc(addr string) *Acc {
	if a := g.by[addr]; a != nil {
		return a
	}
	return nil
}

func (g *Gen) staker() string {
	s := sortedS(g.cur().Stakers)
	if len(s) == 0 || g.pct(2) {
		return pickA(g, g.all).Str
	}
	return s[g.r.Intn(len(s))]
}

func (g *Gen) valacc(pool uint64, staker string) *Acc {
	if v := g.cur().Val[PS{pool, staker}]; v != nil {
		if a := g.acc(v.Valaddress); a != nil {
			return a
		}
	}
	return nil
}

// ------------------------------------------------------------ operations

func one(by *Acc, m sdk.Msg) *plan { return &plan{by: by, msgs: []sdk.Msg{m}} }

func (g *Gen) bundleOp() *plan {
	s := g.cur()
	id := g.pool()
	for try := 0; try < 3; try++ {
		if s.Pools[id] != nil && s.status(id) == "" {
			break
		}
		if g.pct(70) {
			id = g.pool()
		}
	}
	mem := s.Members(id)
	if len(mem) == 0 {
		return g.stakeOp(id)
	}
	p := s.Props[id]
	st := s.status(id)
	if st == "min delegation" || st == "voting power" || len(mem) < 2 {
		if g.pct(60) {
			return g.stakeOp(id)
		}
	}
	who := pickA(g, mem)
	if p == nil || p.NextUploader == "" {
		if a := g.valacc(id, who); a != nil {
			return one(a, &bundlesTypes.MsgClaimUploaderRole{Creator: a.Str, Staker: who, PoolId: id})
		}
		return nil
	}
	up := p.NextUploader
	pool := s.Pools[id]
	if p.StorageId != "" {
		var open []string
		for _, m := range mem {
			if !has(p.VotersValid, m) && !has(p.VotersInvalid, m) {
				open = append(open, m)
			}
		}
		if len(open) > 0 && g.pct(72) {
			v := pickA(g, open)
			a := g.valacc(id, v)
			if a == nil {
				return nil
			}
			return one(a, &bundlesTypes.MsgVoteBundleProposal{Creator: a.Str, Staker: v, PoolId: id, StorageId: p.StorageId, Vote: g.opinion(p.StorageId)})
		}
	}
	a := g.valacc(id, up)
	if a == nil {
		return nil
	}
	if uint64(g.T) < p.UpdatedAt+pool.UploadInterval && g.pct(90) {
		return nil
	}
	if g.pct(12) {
		return nil // let it time out
	}
	from := pool.CurrentIndex + p.BundleSize
	if g.pct(15) {
		return one(a, &bundlesTypes.MsgSkipUploaderRole{Creator: a.Str, Staker: up, PoolId: id, FromIndex: from})
	}
	return one(a, g.submit(id, a.Str, up, from))
}

func (g *Gen) submit(id uint64, creator, staker string, from uint64) *bundlesTypes.MsgSubmitBundleProposal {
	g.sid++
	pool := g.cur().Pools[id]
	size := uint64(1 + g.r.Intn(5))
	if pool != nil && g.pct(18) {
		size = pool.MaxBundleSize
	}
	ds := uint64(g.r.Intn(100_000))
	switch g.r.Intn(8) {
	case 0:
		ds = 0
	case 1:
		ds = uint64(g.r.Int63n(1e9))
	}
	to := fmt.Sprintf("k%d", from+size)
	if pool != nil && pool.EndKey != "" && g.pct(15) {
		to = pool.EndKey
	}
	return &bundlesTypes.MsgSubmitBundleProposal{Creator: creator, Staker: staker, PoolId: id, StorageId: fmt.Sprintf("st-%d-%d", id, g.sid), DataSize: ds,
		DataHash: fmt.Sprintf("hash%d", g.sid), FromIndex: from, BundleSize: size, FromKey: fmt.Sprintf("k%d", from), ToKey: to, BundleSummary: fmt.Sprintf("sum%d", g.r.Intn(1000))}
}

// opinion is how a node votes on a bundle about which everybody has a similar mind.
func (g *Gen) opinion(key string) bundlesTypes.VoteType {
	if _, ok := g.mood[key]; !ok {
		g.mood[key] = g.r.Intn(11)
	}
	vote := bundlesTypes.VOTE_TYPE_VALID
	x := g.r.Intn(100)
	switch mood := g.mood[key]; {
	case mood < 6: // good
		if x < 6 {
			vote = bundlesTypes.VOTE_TYPE_INVALID
		} else if x < 16 {
			vote = bundlesTypes.VOTE_TYPE_ABSTAIN
		}
	case mood < 8: // bad
		vote = bundlesTypes.VOTE_TYPE_INVALID
		if x < 12 {
			vote = bundlesTypes.VOTE_TYPE_VALID
		} else if x < 22 {
			vote = bundlesTypes.VOTE_TYPE_ABSTAIN
		}
	default:
		vote = []bundlesTypes.VoteType{bundlesTypes.VOTE_TYPE_VALID, bundlesTypes.VOTE_TYPE_INVALID, bundlesTypes.VOTE_TYPE_ABSTAIN}[x%3]
	}
	return vote
}

// divided is the vote of m in a round in which the largest members carry the
// bundle and all the others abstain.
func (g *Gen) divided(id uint64, m string) bundlesTypes.VoteType {
	s := g.cur()
	mem := s.Members(id)
	sort.SliceStable(mem, func(i, j int) bool { return s.total(mem[i]) > s.total(mem[j]) })
	var all, sum uint64
	for _, x := range mem {
		all += s.total(x)
	}
	for _, x := range mem {
		if sum > all/2 {
			break
		}
		if x == m {
			return bundlesTypes.VOTE_TYPE_VALID
		}
		sum += s.total(x)
	}
	return bundlesTypes.VOTE_TYPE_ABSTAIN
}

// drive lets whole rounds proceed: most members vote, the uploader is on time.
func (g *Gen) drive() {
	s := g.cur()
	for _, id := range s.PoolIds() {
		p, pool := s.Props[id], s.Pools[id]
		if s.status(id) != "" || p == nil || g.pct(40) {
			continue
		}
		mem := s.Members(id)
		if a := pickA(g, g.stk); len(mem) < 4 && s.total(a.Str) > 0 && s.Val[PS{id, a.Str}] == nil && g.pct(40) {
			g.send(g.join(id, a.Str), 0, false)
		}
		share := pickA(g, []int{50, 70, 100, 100})
		if p.StorageId != "" {
			g.r.Shuffle(len(mem), func(i, j int) { mem[i], mem[j] = mem[j], mem[i] })
			n := 0
			for _, m := range mem {
				if a := g.valacc(id, m); a != nil && n < 30 && !has(p.VotersValid, m) && !has(p.VotersInvalid, m) && g.pct(share) {
					n++
					v := g.opinion(p.StorageId)
					if g.mood[p.StorageId] >= 9 {
						v = g.divided(id, m)
					}
					g.send(one(a, &bundlesTypes.MsgVoteBundleProposal{Creator: a.Str, Staker: m, PoolId: id, StorageId: p.StorageId, Vote: v}), 0, false)
				}
			}
		}
		if p.NextUploader == "" {
			if len(mem) > 0 {
				if a := g.valacc(id, mem[0]); a != nil {
					g.send(one(a, &bundlesTypes.MsgClaimUploaderRole{Creator: a.Str, Staker: mem[0], PoolId: id}), 0, false)
				}
			}
			continue
		}
		if a := g.valacc(id, p.NextUploader); a != nil && uint64(g.T) >= p.UpdatedAt+pool.UploadInterval && g.pct(70) {
			g.send(one(a, g.submit(id, a.Str, p.NextUploader, pool.CurrentIndex+p.BundleSize)), 0, false)
		}
	}
}

func (g *Gen) delegOp() *plan {
	s := g.cur()
	pools := append(append([]*Acc{}, g.del...), g.stk...)
	pools = append(pools, g.fun[0])
	a := pickA(g, pools)
	if len(g.pol) > 0 && g.pct(5) {
		return g.asPolicy()
	}
	if g.pct(12) {
		if p := g.edge(); p != nil {
			return p
		}
	}
	if g.pct(8) {
		// an uploader pulls out while its bundle is being voted on
		for _, id := range s.PoolIds() {
			p := s.Props[id]
			if p == nil || p.StorageId == "" || g.by[p.Uploader] == nil {
				continue
			}
			for _, d := range s.Delegators(p.Uploader) {
				if b := g.by[d]; b != nil && !g.spent[d] {
					return one(b, &delegationTypes.MsgUndelegate{Creator: d, Staker: p.Uploader, Amount: s.Stake[SD{p.Uploader, d}]})
				}
			}
		}
	}
	switch x := g.r.Intn(100); {
	case x < 34:
		amt := g.amount()
		if g.pct(3) {
			amt = g.around(s.Bal(a.Str, Denom).Uint64())
		}
		return one(a, &delegationTypes.MsgDelegate{Creator: a.Str, Staker: g.staker(), Amount: amt})
	case x < 86:
		// needs an existing delegation
		var l []SD
		for k := range s.Stake {
			if g.by[k.Del] != nil {
				l = append(l, k)
			}
		}
		if len(l) == 0 {
			return nil
		}
		sort.Slice(l, func(i, j int) bool {
			if l[i].Staker != l[j].Staker {
				return l[i].Staker < l[j].Staker
			}
			return l[i].Del < l[j].Del
		})
		k := l[g.r.Intn(len(l))]
		a = g.by[k.Del]
		switch {
		case x < 52:
			return one(a, &delegationTypes.MsgUndelegate{Creator: a.Str, Staker: k.Staker, Amount: g.around(s.Stake[k])})
		case x < 68:
			to := g.staker()
			return one(a, &delegationTypes.MsgRedelegate{Creator: a.Str, FromStaker: k.Staker, ToStaker: to, Amount: g.around(s.Stake[k])})
		}
		return one(a, &delegationTypes.MsgWithdrawRewards{Creator: a.Str, Staker: k.Staker})
	}
	return one(a, &delegationTypes.MsgWithdrawRewards{Creator: a.Str, Staker: g.staker()})
}

// edge brings the stake of a pool exactly to (or one off) what decides whether it may run.
func (g *Gen) edge() *plan {
	s := g.cur()
	id := g.pool()
	for _, x := range s.PoolIds() {
		if st := s.status(x); (st == "min delegation" || st == "voting power") && len(s.Members(x)) > 0 && g.pct(60) {
			id = x
		}
	}
	p, mem := s.Pools[id], s.Members(id)
	if p == nil || len(mem) == 0 {
		return nil
	}
	off := int64(0)
	if g.pct(35) {
		off = int64(g.r.Intn(3)) - 1
	}
	var total, high uint64
	top := ""
	for _, m := range mem {
		t := s.total(m)
		total += t
		if t > high {
			high, top = t, m
		}
	}
	add := func(n int64, to string) *plan {
		n += off
		if n <= 0 || uint64(n) > 100_000_000*KYVE {
			return nil
		}
		for try := 0; try < 6; try++ {
			a := pickA(g, append(append([]*Acc{}, g.del...), g.stk...))
			if !g.spent[a.Str] && s.Bal(a.Str, Denom).Uint64() > uint64(n)+KYVE {
				g.hot, g.hotN = id, 12
				return one(a, &delegationTypes.MsgDelegate{Creator: a.Str, Staker: to, Amount: uint64(n)})
			}
		}
		return nil
	}
	if total < p.MinDelegation {
		return add(int64(p.MinDelegation-total), pickA(g, mem))
	}
	share := s.PoolParams.MaxVotingPowerPerPool
	if share.IsPositive() && share.LT(math.LegacyOneDec()) && len(mem) > 1 && g.pct(70) {
		want := math.LegacyNewDecFromInt(math.NewIntFromUint64(high)).Quo(share).Ceil().TruncateInt()
		to := top
		for to == top {
			to = pickA(g, mem)
		}
		if want.IsUint64() && want.Uint64() > total {
			if p := add(int64(want.Uint64()-total), to); p != nil {
				return p
			}
		} else if x := share.MulInt64(int64(total)).TruncateInt(); x.IsUint64() && x.Uint64() > high {
			// highest + d = share * (total + d)
			num := share.MulInt64(int64(total)).Sub(math.LegacyNewDecFromInt(math.NewIntFromUint64(high)))
			d := num.Quo(math.LegacyOneDec().Sub(share)).TruncateInt()
			if d.IsInt64() {
				if p := add(d.Int64(), top); p != nil {
					return p
				}
			}
		}
	}
	// pull out down to the minimum
	surplus := int64(total-p.MinDelegation) + off
	if surplus <= 0 {
		return nil
	}
	for _, m := range mem {
		for _, d := range s.Delegators(m) {
			b := g.by[d]
			if b == nil || g.spent[d] || s.Stake[SD{m, d}] < uint64(surplus) {
				continue
			}
			for try := 0; try < 5; try++ {
				if to := g.staker(); s.Stakers[to] != nil && !has(mem, to) {
					g.hot, g.hotN = id, 12
					return one(b, &delegationTypes.MsgRedelegate{Creator: d, FromStaker: m, ToStaker: to, Amount: uint64(surplus)})
				}
			}
		}
	}
	return nil
}

// slotOp is about the last slot of a full pool.
func (g *Gen) slotOp(pool uint64) *plan {
	s := g.cur()
	mem := s.Members(pool)
	if len(mem) < 50 {
		return nil
	}
	low := mem[0]
	for _, m := range mem {
		if s.total(m) < s.total(low) {
			low = m
		}
	}
	if !s.Val[PS{pool, low}].IsLeaving && g.by[low] != nil && g.pct(40) {
		return one(g.by[low], &stakersTypes.MsgLeavePool{Creator: low, PoolId: pool})
	}
	for try := 0; try < 8; try++ {
		i := g.r.Intn(len(g.stk))
		a := g.stk[i]
		if s.Stakers[a.Str] == nil || s.Val[PS{pool, a.Str}] != nil {
			continue
		}
		goal := s.total(low) + uint64(g.r.Intn(3)) - uint64(g.r.Intn(2))
		if g.pct(25) {
			goal = s.total(pickA(g, mem)) + uint64(g.r.Intn(2))
		}
		taken := map[string]bool{}
		for k, v := range s.Val {
			if k.Pool == pool || k.Staker == a.Str {
				taken[v.Valaddress] = true
			}
		}
		v := g.va[(i*2+int(pool))%len(g.va)]
		for k := 0; k < 5 && taken[v.Str]; k++ {
			v = pickA(g, g.va)
		}
		p := &plan{by: a}
		if have := s.total(a.Str); goal > have && goal < 1<<60 {
			p.msgs = append(p.msgs, &delegationTypes.MsgDelegate{Creator: a.Str, Staker: a.Str, Amount: goal - have})
		}
		p.msgs = append(p.msgs, &stakersTypes.MsgJoinPool{Creator: a.Str, PoolId: pool, Valaddress: v.Str, Amount: uint64(g.r.Intn(3))})
		return p
	}
	return nil
}

func (g *Gen) stakeOp(pool uint64) *plan {
	s := g.cur()
	a := pickA(g, g.stk)
	if g.P.Full && g.pct(35) {
		if p := g.slotOp(pool); p != nil {
			return p
		}
	}
	if g.P.Full {
		for k := 0; k < 20 && s.Val[PS{pool, a.Str}] != nil && g.pct(80); k++ {
			a = pickA(g, g.stk)
		}
	}
	if s.Stakers[a.Str] == nil {
		return one(a, &stakersTypes.MsgCreateStaker{Creator: a.Str, Amount: g.amount(), Commission: g.dec()})
	}
	switch x := g.r.Intn(100); {
	case x < 50:
		if s.Val[PS{pool, a.Str}] != nil && g.pct(map[bool]int{false: 80, true: 8}[g.P.Full]) {
			pool = g.pool()
			if s.Val[PS{pool, a.Str}] != nil {
				return one(a, &stakersTypes.MsgLeavePool{Creator: a.Str, PoolId: pool})
			}
		}
		v := pickA(g, g.va)
		if g.pct(70) {
			// an address that suits
			idx := 0
			for i, b := range g.stk {
				if b == a {
					idx = i
				}
			}
			v = g.va[(idx*2+int(pool))%len(g.va)]
		}
		if g.pct(2) {
			v = pickA(g, g.all)
		}
		amt := uint64(0)
		if g.pct(50) {
			amt = g.amount()
		}
		return one(a, &stakersTypes.MsgJoinPool{Creator: a.Str, PoolId: pool, Valaddress: v.Str, Amount: amt})
	case x < 62:
		return one(a, &stakersTypes.MsgLeavePool{Creator: a.Str, PoolId: pool})
	case x < 75:
		return one(a, &stakersTypes.MsgUpdateCommission{Creator: a.Str, Commission: g.dec()})
	case x < 82:
		return one(a, &stakersTypes.MsgUpdateMetadata{Creator: a.Str, Moniker: fmt.Sprintf("m%d", g.r.Intn(9)), Website: "w", Identity: pickA(g, []string{"", "0123456789ABCDEF", "0123456789abcdef", "xyz"}), SecurityContact: "c", Details: "d"})
	case x < 96:
		have := s.Stakers[a.Str].CommissionRewards
		for i := 0; i < 4 && have.Empty(); i++ {
			a = pickA(g, g.stk)
			if s.Stakers[a.Str] != nil {
				have = s.Stakers[a.Str].CommissionRewards
			}
		}
		if have.Empty() {
			return nil
		}
		var c sdk.Coins
		for _, x := range have {
			if g.pct(70) {
				n := math.NewIntFromUint64(g.around(x.Amount.Uint64()))
				if n.IsPositive() {
					c = append(c, sdk.NewCoin(x.Denom, n))
				}
			}
		}
		return one(a, &stakersTypes.MsgClaimCommissionRewards{Creator: a.Str, Amounts: c})
	}
	return one(a, &stakersTypes.MsgCreateStaker{Creator: a.Str, Amount: g.amount(), Commission: g.dec()})
}

func (g *Gen) fundOp() *plan {
	s := g.cur()
	a := pickA(g, g.fun)
	if s.Funders[a.Str] == nil && g.pct(90) {
		return one(a, &fundersTypes.MsgCreateFunder{Creator: a.Str, Moniker: pickA(g, []string{"fun", "fun2", ""}), Identity: pickA(g, []string{"", "i", "0123456789ABCDEF"})})
	}
	id := g.pool()
	for k := 0; k < 20 && g.P.Full && has(s.FundStates[id], a.Str) && g.pct(80); k++ {
		a = pickA(g, g.fun)
	}
	f := s.Fundings[FP{a.Str, id}]
	if g.P.Full && g.pct(60) && !has(s.FundStates[id], a.Str) && s.Pools[id] != nil {
		// compete for a slot with funds close to the lowest
		if low := s.Fundings[FP{pickA(g, append(s.FundStates[id], a.Str)), id}]; low != nil && !low.Amounts.IsZero() {
			for _, e := range s.FunParams.CoinWhitelist {
				if x := low.Amounts.AmountOf(e.CoinDenom); x.IsPositive() {
					x = x.AddRaw((g.r.Int63n(3)-1)*scoreStep(e) + g.r.Int63n(3) - 1)
					per := math.MaxInt(e.MinFundingAmountPerBundle, math.OneInt())
					if x.IsPositive() {
						return one(a, &fundersTypes.MsgFundPool{Creator: a.Str, PoolId: id, Amounts: sdk.NewCoins(sdk.NewCoin(e.CoinDenom, x)), AmountsPerBundle: sdk.NewCoins(sdk.NewCoin(e.CoinDenom, per))})
					}
				}
			}
		}
	}
	switch x := g.r.Intn(100); {
	case x < 55 || f == nil:
		per := map[string]int64{Denom: 5000, "acoin": 300, g.dB: 1e6, "ccoin": 10}
		tot := map[string]int64{Denom: 100000, "acoin": 5000, g.dB: 1e8, "ccoin": 100}
		if g.P.Whale {
			tot[Denom], per[Denom] = int64(1_000_000*KYVE), int64(100_000*KYVE)
		}
		for _, dn := range []string{"acoin", g.dB, Denom} {
			if g.pct(40) {
				delete(per, dn)
			}
			if g.pct(30) {
				delete(tot, dn)
			}
		}
		if !g.pct(4) {
			delete(per, "ccoin")
		}
		if !g.pct(4) {
			delete(tot, "ccoin")
		}
		am, pb := g.coins(tot), g.coins(per)
		if g.pct(60) {
			// a consistent pair
			am = nil
			for _, c := range pb {
				mult := int64(s.FunParams.MinFundingMultiple) + g.r.Int63n(6) - 1
				if mult < 1 {
					mult = 1
				}
				am = append(am, sdk.NewCoin(c.Denom, c.Amount.MulRaw(mult).AddRaw(g.r.Int63n(3))))
			}
			am = sdk.NewCoins(am...)
		}
		return one(a, &fundersTypes.MsgFundPool{Creator: a.Str, PoolId: id, Amounts: am, AmountsPerBundle: pb})
	case x < 92 && (!g.P.Full || x < 60):
		var c sdk.Coins
		for _, x := range f.Amounts {
			if g.pct(75) {
				if n := g.around(x.Amount.Uint64()); n > 0 {
					c = append(c, sdk.NewCoin(x.Denom, math.NewIntFromUint64(n)))
				}
			}
		}
		if g.pct(30) { // everything, or everything of some coins, naming others as well
			c = nil
			for _, x := range f.Amounts {
				if g.pct(85) {
					c = append(c, sdk.NewCoin(x.Denom, x.Amount.AddRaw(g.r.Int63n(2))))
				}
			}
			for _, d := range []string{"acoin", g.dB, "ccoin", Denom, "zcoin"} {
				if f.Amounts.AmountOf(d).IsZero() && sdk.Coins(c).AmountOf(d).IsZero() && g.pct(40) {
					c = append(c, sdk.NewInt64Coin(d, 1+g.r.Int63n(1e6)))
				}
			}
			c = c.Sort()
		}
		return one(a, &fundersTypes.MsgDefundPool{Creator: a.Str, PoolId: id, Amounts: c})
	}
	return one(a, &fundersTypes.MsgUpdateFunder{Creator: a.Str, Moniker: pickA(g, []string{"", "neu"}), Identity: "", Website: "x"})
}

func (g *Gen) teamOp() *plan {
	s := g.cur()
	a := pickA(g, []*Acc{g.fnd, g.bcp})
	to := pickA(g, g.all).Str
	ids := sortedU(s.TeamAccs)
	now := uint64(g.T)
	if len(ids) == 0 || g.pct(18) {
		alloc := uint64(1+g.r.Intn(10_000_000)) * KYVE
		if g.pct(10) {
			alloc = g.around(teamTypes.TEAM_ALLOCATION - s.issued())
		}
		com := now - uint64(g.r.Intn(5*365*24*3600)) + uint64(g.r.Intn(365*24*3600))
		if g.pct(5) {
			com = uint64(g.r.Intn(100))
		}
		return one(a, &teamTypes.MsgCreateTeamVestingAccount{Authority: a.Str, TotalAllocation: alloc, Commencement: com})
	}
	id := ids[g.r.Intn(len(ids))]
	acc := s.TeamAccs[id]
	switch x := g.r.Intn(100); {
	case x < 22:
		cl := now
		switch g.r.Intn(8) {
		case 0:
			cl = 0
		case 1:
			cl = acc.Commencement + year
		case 2:
			cl = acc.Commencement + year - 1
		case 3:
			cl = acc.Commencement + uint64(g.r.Intn(int(3*year+1000)))
		case 4:
			cl = acc.LastClaimedTime
		case 5:
			cl = acc.Commencement
		}
		return one(a, &teamTypes.MsgClawback{Authority: a.Str, Id: id, Clawback: cl})
	case x < 60:
		u := unlocked(acc, now)
		if u >= acc.UnlockedClaimed {
			u -= acc.UnlockedClaimed
		} else {
			u = 0
		}
		return one(a, &teamTypes.MsgClaimUnlocked{Authority: a.Str, Id: id, Amount: g.around(u), Recipient: to})
	case x < 80:
		return one(a, &teamTypes.MsgClaimAccountRewards{Authority: a.Str, Id: id, Amount: g.around(acc.TotalRewards - acc.RewardsClaimed), Recipient: to})
	}
	return one(a, &teamTypes.MsgClaimAuthorityRewards{Authority: a.Str, Amount: g.around(s.TeamAuth.TotalRewards - s.TeamAuth.RewardsClaimed), Recipient: to})
}

func (g *Gen) bankOp() *plan {
	a := pickA(g, g.all)
	b := pickA(g, g.all)
	to := b.Str
	if g.pct(5) {
		to = modAddr(pickA(g, []string{"team", "delegation", "stakers", "funders", "pool", "bundles"}))
	}
	if g.pct(4) {
		to = poolAcc(g.pool())
	}
	if a == g.fnd || a == g.bcp || a == g.val {
		a = g.atk
	}
	amt := int64(1 + g.r.Intn(100000))
	return one(a, &bankTypes.MsgSend{FromAddress: a.Str, ToAddress: to, Amount: sdk.NewCoins(sdk.NewInt64Coin(Denom, amt))})
}

// authzOp: grants and their execution.
func (g *Gen) authzOp() *plan {
	s := g.cur()
	if g.P.Group && g.pct(30) {
		return g.groupOp()
	}
	if g.P.Fees && g.pct(20) {
		a, b := pickA(g, g.all), pickA(g, g.all)
		if a == b {
			return nil
		}
		exp := time.Unix(g.T+int64(g.r.Intn(2000)), 0).UTC()
		al := &feegrant.BasicAllowance{SpendLimit: sdk.NewCoins(sdk.NewInt64Coin(Denom, 1e15)), Expiration: &exp}
		if g.pct(70) {
			al.Expiration = nil
		}
		m, err := feegrant.NewMsgGrantAllowance(al, a.Addr, b.Addr)
		if err != nil {
			return nil
		}
		return one(a, m)
	}
	if len(s.Grants) > 0 && g.pct(65) {
		inner := g.op()
		if inner == nil || inner.by == nil {
			return nil
		}
		// execute on behalf of the inner signer
		by := pickA(g, g.all)
		var l []string
		for k := range s.Grants {
			if strings.HasPrefix(k, inner.by.Str+"|") && strings.HasSuffix(k, sdk.MsgTypeURL(inner.msgs[0])) {
				l = append(l, strings.Split(k, "|")[1])
			}
		}
		sort.Strings(l)
		if len(l) > 0 && g.pct(85) {
			if x := g.by[pickA(g, l)]; x != nil {
				by = x
			}
		}
		for _, m := range inner.msgs {
			if rules[sdk.MsgTypeURL(m)].apply == nil {
				return nil
			}
		}
		e := authz.NewMsgExec(by.Addr, inner.msgs)
		return one(by, &e)
	}
	a, b := pickA(g, g.all), pickA(g, g.all)
	if a == b || a == g.val {
		return nil
	}
	url := pickA(g, []sdk.Msg{&delegationTypes.MsgDelegate{}, &delegationTypes.MsgUndelegate{}, &delegationTypes.MsgWithdrawRewards{}, &stakersTypes.MsgJoinPool{},
		&bundlesTypes.MsgVoteBundleProposal{}, &bundlesTypes.MsgSubmitBundleProposal{}, &fundersTypes.MsgFundPool{}, &bundlesTypes.MsgClaimUploaderRole{}, &stakersTypes.MsgUpdateCommission{}})
	exp := time.Unix(g.T+100_000_000, 0).UTC()
	m, err := authz.NewMsgGrant(a.Addr, b.Addr, authz.NewGenericAuthorization(sdk.MsgTypeURL(url)), &exp)
	if err != nil {
		return nil
	}
	return one(a, m)
}

func (g *Gen) groupOp() *plan {
	if len(g.pol) == 0 || g.pct(3) {
		if len(g.pol) > 3 {
			return nil
		}
		m, err := group.NewMsgCreateGroupWithPolicy(g.atk.Str, []group.MemberRequest{{Address: g.atk.Str, Weight: "1"}}, "", "", false,
			group.NewThresholdDecisionPolicy("1", time.Second, 0))
		if err != nil {
			return nil
		}
		return one(g.atk, m)
	}
	return g.asPolicy()
}

// asPolicy acts in the name of a group policy account (32-byte address).
func (g *Gen) asPolicy() *plan {
	s := g.cur()
	pol := pickA(g, g.pol)
	var inner []sdk.Msg
	if s.Bal(pol, Denom).LT(math.NewInt(1_000_000)) {
		return one(g.atk, &bankTypes.MsgSend{FromAddress: g.atk.Str, ToAddress: pol, Amount: sdk.NewCoins(sdk.NewInt64Coin(Denom, int64(1000*KYVE)), sdk.NewInt64Coin("acoin", 1e9))})
	}
	id := g.pool()
	for i := 0; i < 1+g.r.Intn(2); i++ {
		var m sdk.Msg
		switch g.r.Intn(12) {
		case 0, 1:
			m = &stakersTypes.MsgCreateStaker{Creator: pol, Amount: uint64(g.r.Intn(1000000)), Commission: g.dec()}
		case 2, 3:
			m = &stakersTypes.MsgJoinPool{Creator: pol, PoolId: id, Valaddress: pickA(g, g.va).Str, Amount: uint64(g.r.Intn(100000))}
		case 4:
			m = &stakersTypes.MsgLeavePool{Creator: pol, PoolId: id}
		case 5, 6:
			m = &delegationTypes.MsgDelegate{Creator: pol, Staker: g.staker(), Amount: uint64(g.r.Intn(1000000))}
		case 7:
			m = &delegationTypes.MsgUndelegate{Creator: pol, Staker: g.staker(), Amount: uint64(g.r.Intn(10000))}
		case 8:
			m = &delegationTypes.MsgWithdrawRewards{Creator: pol, Staker: g.staker()}
		case 9:
			m = &fundersTypes.MsgCreateFunder{Creator: pol, Moniker: "group"}
		case 10:
			m = &fundersTypes.MsgFundPool{Creator: pol, PoolId: id, Amounts: sdk.NewCoins(sdk.NewInt64Coin(Denom, 100000)), AmountsPerBundle: sdk.NewCoins(sdk.NewInt64Coin(Denom, 2000))}
		default:
			m = &delegationTypes.MsgRedelegate{Creator: pol, FromStaker: g.staker(), ToStaker: g.staker(), Amount: uint64(g.r.Intn(10000))}
		}
		if g.pct(2) {
			m = &delegationTypes.MsgUndelegate{Creator: pickA(g, g.del).Str, Staker: g.staker(), Amount: 1}
		}
		inner = append(inner, m)
	}
	m, err := group.NewMsgSubmitProposal(pol, []string{g.atk.Str}, inner, "", group.Exec_EXEC_TRY, "t", "s")
	if err != nil {
		return nil
	}
	return one(g.atk, m)
}

// ------------------------------------------------------------ governance

var authority = func() string { return modAddr(govTypes.ModuleName) }

func (g *Gen) createPool() *poolTypes.MsgCreatePool {
	r := g.r
	end := ""
	if r.Intn(8) == 0 {
		end = "end"
	}
	md := uint64(r.Intn(1000))
	if r.Intn(3) == 0 {
		md = uint64(r.Intn(400)) * KYVE
	}
	w := math.LegacyNewDecWithPrec(r.Int63n(1e6), 3)
	if r.Intn(5) == 0 {
		w = math.LegacyZeroDec()
	}
	iv, mb := uint64(5+r.Intn(40)), uint64(5+r.Intn(100))
	if !g.v14 && r.Intn(12) == 0 && len(g.cur().Pools) > 0 {
		switch r.Intn(3) {
		case 0:
			iv = 0
		case 1:
			mb = 0
		default:
			w = math.LegacyNewDec(-1)
		}
	}
	rts := []string{"@kyve/evm", "@kyve/ten"}
	if g.v14 {
		rts = append(rts, newRuntimes...)
	}
	return &poolTypes.MsgCreatePool{Authority: authority(), Name: fmt.Sprintf("pool%d", r.Intn(100)), Runtime: pickA(g, rts), Logo: "l", Config: "{}", StartKey: "0",
		UploadInterval: iv, InflationShareWeight: w, MinDelegation: md, MaxBundleSize: mb, Version: "1.0.0", Binaries: "{}",
		StorageProviderId: uint32(r.Intn(4)), CompressionId: uint32(r.Intn(3)), EndKey: end}
}

func (g *Gen) js(m map[string]any) string {
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// fields picks a random subset of the candidates.
func (g *Gen) fields(m map[string]func() any) string {
	ks := sortedS(m)
	out := map[string]any{}
	for _, k := range ks {
		if g.pct(45) {
			out[k] = m[k]()
		}
	}
	if !g.v14 && g.pct(7) {
		// not what the field takes
		k := pickA(g, ks)
		out[k] = pickA(g, []any{nil, -1, "", "-1", "x", 1.5, []any{}, []any{map[string]any{}}, map[string]any{}, "1e3", uint64(1) << 63})
		if g.pct(20) {
			return pickA(g, []string{"", "{", "[]", "null", "{}", "\"\"", "{\"a\":1}"})
		}
	}
	return g.js(out)
}

// spoil returns a list, now and then with one wrong or unusual value in it.
func (g *Gen) spoil(list any) any {
	var l []map[string]any
	b, err := json.Marshal(list)
	must(err)
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	must(d.Decode(&l))
	if len(l) == 0 || !g.pct(25) {
		return list
	}
	r := g.r
	if g.pct(15) {
		l = append(l, pickA(g, l)) // twice the same
		return l
	}
	e := l[len(l)-1-r.Intn(len(l))]
	k := pickA(g, sortedS(e))
	if g.pct(10) {
		delete(e, k)
		return l
	}
	switch x := e[k].(type) {
	case json.Number:
		e[k] = pickA(g, []any{-1, 0, 18, 19, uint64(1) << 63, 3})
	case string:
		if len(x) > 0 && (x[0] >= '0' && x[0] <= '9') {
			e[k] = pickA(g, []any{"-1", "-0.5", "0", "1.5", "-0.000000000000000001", "1.000000000000000001", "", "7"})
		} else {
			e[k] = pickA(g, []any{"", "x", "acoin", "tkyve", "/kyve.pool.v1beta1.MsgFundPool"})
		}
	}
	return l
}

func (g *Gen) badDec() any {
	if g.pct(6) {
		return pickA(g, []string{"-0.1", "1.1", "", "abc", "1.000000000000000001"})
	}
	return g.frac()
}

func (g *Gen) govOp() sdk.Msg {
	s := g.cur()
	r := g.r
	au := authority()
	id := g.pool()
	if !g.v14 && g.pct(3) {
		id += 50
	}
	secs := func(lo, hi int) func() any { return func() any { return lo + r.Intn(hi-lo) } }
	dec := func() any { return g.badDec() }
	off := 0
	for _, p := range s.Pools {
		if p.Disabled {
			off++
		}
	}
	switch x := r.Intn(100); {
	case x < 6:
		if len(s.Pools) < g.P.Pools+3 {
			return g.createPool()
		}
		fallthrough
	case x < 20:
		return &poolTypes.MsgUpdatePool{Authority: au, Id: id, Payload: g.fields(map[string]func() any{
			"Name": func() any { return fmt.Sprintf("n%d", r.Intn(50)) }, "Logo": func() any { return "logo" }, "Config": func() any { return "cfg" },
			"UploadInterval": secs(0, 60), "InflationShareWeight": func() any {
				if g.pct(5) {
					return "-1"
				}
				return math.LegacyNewDecWithPrec(r.Int63n(1e6), 3)
			}, "MinDelegation": func() any {
				if g.pct(40) {
					var total uint64
					for _, m := range s.Members(id) {
						total += s.total(m)
					}
					return g.around(total)
				}
				return r.Int63n(int64(100 * KYVE))
			}, "MaxBundleSize": secs(0, 100), "StorageProviderId": secs(0, 4),
			"CompressionId": secs(0, 3), "EndKey": func() any { return pickA(g, []string{"", "", "", "", "end"}) },
			"Runtime": func() any { return pickA(g, []string{"@kyve/evm", "@kyve/ten"}) }})}
	case x < 27 && 2*off < len(s.Pools):
		return &poolTypes.MsgDisablePool{Authority: au, Id: id}
	case x < 40:
		for _, p := range s.PoolIds() {
			if s.Pools[p].Disabled && g.pct(70) {
				id = p
			}
		}
		return &poolTypes.MsgEnablePool{Authority: au, Id: id}
	case x < 50:
		g.ver++
		return &poolTypes.MsgScheduleRuntimeUpgrade{Authority: au, Runtime: pickA(g, []string{"@kyve/evm", "@kyve/ten", "@kyve/none"}), Version: fmt.Sprintf("2.%d", g.ver),
			ScheduledAt: uint64(g.T + int64(r.Intn(60)) - 5), Duration: uint64(5 + r.Intn(60)), Binaries: pickA(g, []string{"{}", "{\"a\":1}", "{}", "bad"})}
	case x < 56:
		return &poolTypes.MsgCancelRuntimeUpgrade{Authority: au, Runtime: pickA(g, []string{"@kyve/evm", "@kyve/ten", "@kyve/none"})}
	case x < 64:
		return &delegationTypes.MsgUpdateParams{Authority: au, Payload: g.fields(map[string]func() any{"unbonding_delegation_time": secs(10, 150), "redelegation_cooldown": secs(20, 200),
			"redelegation_max_amount": secs(1, 6), "vote_slash": dec, "upload_slash": dec, "timeout_slash": dec})}
	case x < 70:
		return &stakersTypes.MsgUpdateParams{Authority: au, Payload: g.fields(map[string]func() any{"commission_change_time": secs(5, 100), "leave_pool_time": secs(5, 100)})}
	case x < 78:
		return &bundlesTypes.MsgUpdateParams{Authority: au, Payload: g.fields(map[string]func() any{"upload_timeout": secs(0, 40), "network_fee": dec, "max_points": secs(0, 9),
			"storage_costs": func() any {
				l := []bundlesTypes.StorageCost{{StorageProviderId: 1, Cost: g.cost()}, {StorageProviderId: uint32(r.Intn(4)), Cost: g.cost()}}
				for k := r.Intn(3); k > 0; k-- {
					l = append(l, bundlesTypes.StorageCost{StorageProviderId: uint32(r.Intn(5)), Cost: g.cost()})
				}
				r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
				return g.spoil(l)
			}})}
	case x < 86:
		return &fundersTypes.MsgUpdateParams{Authority: au, Payload: g.fields(map[string]func() any{"min_funding_multiple": secs(0, 20), "coin_whitelist": func() any {
			l := g.whitelist()
			if g.pct(6) {
				l = l[1:]
			}
			return g.spoil(l)
		}})}
	case x < 93:
		return &poolTypes.MsgUpdateParams{Authority: au, Payload: g.fields(map[string]func() any{"protocol_inflation_share": dec, "pool_inflation_payout_rate": dec,
			"max_voting_power_per_pool": func() any {
				return pickA(g, []math.LegacyDec{math.LegacyOneDec(), math.LegacyOneDec(), math.LegacyOneDec(), math.LegacyOneDec(), math.LegacyNewDecWithPrec(5, 1), math.LegacyNewDecWithPrec(75, 2), math.LegacyNewDecWithPrec(11, 1)})
			}})}
	}
	if g.P.Fees {
		p := g.gloParams()
		return &globalTypes.MsgUpdateParams{Authority: au, Payload: g.fields(map[string]func() any{"min_gas_price": func() any { return p.MinGasPrice }, "burn_ratio": dec,
			"gas_adjustments": func() any { return g.spoil(p.GasAdjustments) }, "gas_refunds": func() any { return g.spoil(p.GasRefunds) }})}
	}
	return &globalTypes.MsgUpdateParams{Authority: au, Payload: g.fields(map[string]func() any{"burn_ratio": dec})}
}

// propose queues a governance proposal with votes that decide it.
func (g *Gen) propose(msgs ...sdk.Msg) {
	next, err := g.n.App.GovKeeper.ProposalID.Peek(g.n.Ctx())
	must(err)
	if g.govN < next {
		g.govN = next
	}
	id := g.govN
	g.govN++
	exp := g.P.Expose && g.pct(15)
	dep := sdk.NewCoins(sdk.NewInt64Coin(Denom, 2000))
	m, err := govv1.NewMsgSubmitProposal(msgs, dep, g.val.Str, "", "t", "s", exp)
	must(err)
	g.send(&plan{by: g.val, msgs: []sdk.Msg{m}}, 50_000_000, false)
	vote := func(a *Acc, o govv1.VoteOption) {
		var v sdk.Msg = govv1.NewMsgVote(a.Addr, id, o, "")
		if g.pct(10) {
			v = govv1.NewMsgVoteWeighted(a.Addr, id, govv1.WeightedVoteOptions{{Option: govv1.OptionYes, Weight: "0.300000000000000000"}, {Option: o, Weight: "0.700000000000000000"}}, "")
			if o == govv1.OptionYes {
				v = govv1.NewMsgVote(a.Addr, id, o, "")
			}
		}
		g.send(&plan{by: a, msgs: []sdk.Msg{v}}, 5_000_000, false)
	}
	if !g.P.Expose || g.pct(70) {
		vote(g.val, govv1.OptionYes)
	}
	if g.P.Expose || g.pct(20) {
		l := append(append([]*Acc{}, g.stk...), g.del...)
		g.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		for _, a := range l[:g.r.Intn(len(l))] {
			vote(a, pickA(g, []govv1.VoteOption{govv1.OptionYes, govv1.OptionYes, govv1.OptionYes, govv1.OptionNo, govv1.OptionAbstain, govv1.OptionNoWithVeto}))
		}
	}
}

// ------------------------------------------------------------ mutation

// mutate turns an operation into a probably invalid one.
func (g *Gen) mutate(p *plan) *plan {
	if len(p.msgs) == 0 {
		return p
	}
	r := g.r
	other := pickA(g, g.all)
	switch m := p.msgs[0].(type) {
	case *bundlesTypes.MsgSubmitBundleProposal:
		x := *m
		switch r.Intn(12) {
		case 0:
			x.FromIndex += uint64(r.Intn(3)) - 1
		case 1:
			x.BundleSize = 0
		case 2:
			x.BundleSize = 100000
		case 3:
			x.StorageId = ""
		case 4:
			x.FromKey = ""
		case 5:
			x.ToKey = ""
		case 6:
			x.Creator = other.Str
			return one(other, &x)
		case 7:
			x.Staker = g.staker()
		case 8:
			x.PoolId = g.pool()
		case 9:
			x.Creator = x.Staker
			if a := g.by[x.Staker]; a != nil {
				return one(a, &x)
			}
		case 10:
			x.BundleSize = ^uint64(0)
		case 11:
			x.DataHash = ""
		}
		return one(p.by, &x)
	case *bundlesTypes.MsgVoteBundleProposal:
		x := *m
		switch r.Intn(9) {
		case 7:
			x.StorageId = strings.ToUpper(x.StorageId)
		case 8:
			x.StorageId = pickA(g, []string{" " + x.StorageId, x.StorageId + " ", x.StorageId[:max(0, len(x.StorageId)-1)]})
		case 0:
			x.Vote = bundlesTypes.VoteType(r.Intn(6))
		case 1:
			x.StorageId += "x"
		case 2:
			x.StorageId = ""
		case 3:
			x.Creator = other.Str
			return one(other, &x)
		case 4:
			x.Staker = g.staker()
		case 5:
			x.PoolId = g.pool()
		case 6:
			x.Creator = x.Staker
			if a := g.by[x.Staker]; a != nil {
				return one(a, &x)
			}
		}
		return one(p.by, &x)
	case *bundlesTypes.MsgClaimUploaderRole:
		x := *m
		switch r.Intn(3) {
		case 0:
			x.Creator = other.Str
			return one(other, &x)
		case 1:
			x.Staker = g.staker()
		default:
			x.PoolId = g.pool()
		}
		return one(p.by, &x)
	case *bundlesTypes.MsgSkipUploaderRole:
		x := *m
		switch r.Intn(4) {
		case 0:
			x.Creator = other.Str
			return one(other, &x)
		case 1:
			x.Staker = g.staker()
		case 2:
			x.FromIndex++
		default:
			x.PoolId = g.pool()
		}
		return one(p.by, &x)
	case *delegationTypes.MsgDelegate:
		x := *m
		x.Amount = pickA(g, []uint64{0, 1 << 63, ^uint64(0), 1 << 62, g.cur().Bal(p.by.Str, Denom).Uint64() + 1})
		if r.Intn(3) == 0 {
			x.Staker = other.Str
		}
		return one(p.by, &x)
	case *delegationTypes.MsgUndelegate:
		x := *m
		x.Amount = pickA(g, []uint64{0, 1 << 63, ^uint64(0), x.Amount + 1, x.Amount})
		if r.Intn(3) == 0 {
			x.Staker = other.Str
		}
		return one(p.by, &x)
	case *delegationTypes.MsgRedelegate:
		x := *m
		switch r.Intn(4) {
		case 0:
			x.ToStaker = x.FromStaker
		case 1:
			x.Amount = pickA(g, []uint64{0, ^uint64(0), 1 << 63})
		case 2:
			x.ToStaker = other.Str
		default:
			x.FromStaker = other.Str
		}
		return one(p.by, &x)
	case *stakersTypes.MsgJoinPool:
		x := *m
		switch r.Intn(6) {
		case 0:
			x.Valaddress = x.Creator
		case 1:
			x.Valaddress = strings.ToUpper(x.Valaddress)
		case 2:
			x.Valaddress = "kyve1xyz"
		case 3:
			x.Amount = pickA(g, []uint64{^uint64(0), 1 << 63, 1 << 62})
		case 4:
			x.Valaddress = strings.ToUpper(x.Creator)
		default:
			x.PoolId = g.pool() + 5
		}
		return one(p.by, &x)
	case *stakersTypes.MsgUpdateCommission:
		x := *m
		x.Commission = pickA(g, []math.LegacyDec{math.LegacyNewDec(-1), math.LegacyNewDecWithPrec(1000000000000000001, 18), math.LegacyNewDec(2)})
		return one(p.by, &x)
	case *stakersTypes.MsgCreateStaker:
		x := *m
		x.Commission = pickA(g, []math.LegacyDec{math.LegacyNewDec(-1), math.LegacyNewDecWithPrec(1000000000000000001, 18), g.dec()})
		x.Amount = pickA(g, []uint64{x.Amount, ^uint64(0), 0})
		return one(p.by, &x)
	case *stakersTypes.MsgClaimCommissionRewards:
		x := *m
		x.Amounts = sdk.Coins{sdk.Coin{Denom: Denom, Amount: math.NewInt(pickA(g, []int64{0, -1, 1 << 62, -5}))}}
		if r.Intn(2) == 0 {
			x.Amounts = sdk.NewCoins(sdk.NewInt64Coin("ccoin", 5))
		}
		return one(p.by, &x)
	case *fundersTypes.MsgFundPool:
		x := *m
		switch r.Intn(5) {
		case 0:
			x.Amounts = sdk.Coins{sdk.Coin{Denom: Denom, Amount: math.NewInt(-5)}}
		case 1:
			x.AmountsPerBundle = sdk.Coins{sdk.Coin{Denom: Denom, Amount: math.NewInt(-5)}}
		case 2:
			x.AmountsPerBundle = sdk.Coins{sdk.Coin{Denom: Denom, Amount: math.NewInt(0)}}
		case 3:
			x.Amounts = sdk.Coins{sdk.NewInt64Coin(Denom, 5), sdk.NewInt64Coin("acoin", 5)}
		default:
			x.PoolId += 7
		}
		return one(p.by, &x)
	case *fundersTypes.MsgUpdateFunder:
		x := *m
		switch r.Intn(3) {
		case 0:
			x.Moniker = ""
		case 1:
			x.Description = strings.Repeat("d", 300)
		default:
			x.Identity = "zz"
		}
		return one(p.by, &x)
	case *stakersTypes.MsgUpdateMetadata:
		x := *m
		switch r.Intn(5) {
		case 0:
			x.Moniker = strings.Repeat("m", 300)
		case 1:
			x.Website = strings.Repeat("w", 300)
		case 2:
			x.Identity = "0123"
		case 3:
			x.SecurityContact = strings.Repeat("s", 300)
		default:
			x.Details = strings.Repeat("d", 300)
		}
		return one(p.by, &x)
	case *fundersTypes.MsgDefundPool:
		x := *m
		switch r.Intn(3) {
		case 0:
			x.Amounts = sdk.Coins{sdk.Coin{Denom: Denom, Amount: math.NewInt(-5)}}
		case 1:
			x.Amounts = sdk.NewCoins(sdk.NewInt64Coin("ccoin", 1), sdk.NewInt64Coin(Denom, 1))
		default:
			x.PoolId += 1
		}
		return one(p.by, &x)
	case *teamTypes.MsgClaimUnlocked:
		x := *m
		switch r.Intn(3) {
		case 0:
			x.Authority = other.Str
			return one(other, &x)
		case 1:
			x.Amount = pickA(g, []uint64{^uint64(0), 1 << 63, 1 << 62})
		default:
			x.Recipient = pickA(g, []string{"", "kyve1", modAddr("team")})
		}
		return one(p.by, &x)
	case *teamTypes.MsgClaimAccountRewards:
		x := *m
		switch r.Intn(3) {
		case 0:
			x.Authority = other.Str
			return one(other, &x)
		case 1:
			x.Amount = ^uint64(0)
		default:
			x.Recipient = "?"
		}
		return one(p.by, &x)
	case *teamTypes.MsgClaimAuthorityRewards:
		x := *m
		if r.Intn(2) == 0 {
			x.Authority = other.Str
			return one(other, &x)
		}
		x.Amount = ^uint64(0)
		return one(p.by, &x)
	case *teamTypes.MsgCreateTeamVestingAccount:
		x := *m
		switch r.Intn(4) {
		case 0:
			x.Authority = other.Str
			return one(other, &x)
		case 1:
			x.TotalAllocation = pickA(g, []uint64{^uint64(0), 0, 1 << 63})
		default:
			x.Commencement = pickA(g, []uint64{0, 1, 1 << 62})
		}
		return one(p.by, &x)
	case *teamTypes.MsgClawback:
		x := *m
		switch r.Intn(3) {
		case 0:
			x.Authority = other.Str
			return one(other, &x)
		case 1:
			x.Clawback = pickA(g, []uint64{1, ^uint64(0) >> 1, 0})
		default:
			x.Id += 100
		}
		return one(p.by, &x)
	}
	return p
}

// unauthorised governance-only message by an ordinary account.
func (g *Gen) usurp() *plan {
	m := g.govOp()
	a := pickA(g, g.all)
	switch x := m.(type) {
	case *poolTypes.MsgCreatePool:
		x.Authority = a.Str
	case *poolTypes.MsgUpdatePool:
		x.Authority = a.Str
	case *poolTypes.MsgDisablePool:
		x.Authority = a.Str
	case *poolTypes.MsgEnablePool:
		x.Authority = a.Str
	case *poolTypes.MsgScheduleRuntimeUpgrade:
		x.Authority = a.Str
	case *poolTypes.MsgCancelRuntimeUpgrade:
		x.Authority = a.Str
	case *poolTypes.MsgUpdateParams:
		x.Authority = a.Str
	case *delegationTypes.MsgUpdateParams:
		x.Authority = a.Str
	case *stakersTypes.MsgUpdateParams:
		x.Authority = a.Str
	case *bundlesTypes.MsgUpdateParams:
		x.Authority = a.Str
	case *fundersTypes.MsgUpdateParams:
		x.Authority = a.Str
	case *globalTypes.MsgUpdateParams:
		x.Authority = a.Str
	}
	return one(a, m)
}

func (g *Gen) op() *plan {
	p := g.P
	x := g.r.Intn(p.Bundle + p.Deleg + p.Stake + p.Fund + p.Team + p.Bank)
	for _, c := range []struct {
		n int
		f func() *plan
	}{{p.Bundle, g.bundleOp}, {p.Deleg, g.delegOp}, {p.Stake, func() *plan { return g.stakeOp(g.pool()) }}, {p.Fund, g.fundOp}, {p.Team, g.teamOp}, {p.Bank, g.bankOp}} {
		if x < c.n {
			return c.f()
		}
		x -= c.n
	}
	return nil
}

// conflicting reports whether the two operations should not share a transaction:
// predictions of the second would depend on rounding inside the first.
func conflicting(a, b sdk.Msg) bool {
	heavy := func(m sdk.Msg) bool {
		switch m.(type) {
		case *bundlesTypes.MsgSubmitBundleProposal, *bundlesTypes.MsgSkipUploaderRole:
			return true
		}
		return false
	}
	return heavy(a) || heavy(b)
}

// ------------------------------------------------------------ blocks

// send signs and queues a transaction.
func (g *Gen) send(p *plan, gas uint64, fancy bool) {
	if p == nil || p.by == nil || len(p.msgs) == 0 {
		return
	}
	s := g.cur()
	if gas == 0 {
		gas = 20_000_000
		if fancy && g.pct(g.P.SmallGas) {
			gas = uint64(50_000 + g.r.Intn(500_000))
		}
	}
	fee := minFee(s.GloParams, gas)
	meta := &TxMeta{Msgs: p.msgs, Signer: p.by, Seq: p.by.Seq, Gas: gas, Loose: p.loose}
	spec := TxSpec{Signer: p.by, Msgs: p.msgs, Gas: gas}
	if fancy {
		switch x := g.r.Intn(100); {
		case x < 2 && fee.IsPositive():
			fee = fee.SubRaw(1)
		case x < 15:
			fee = fee.AddRaw(g.r.Int63n(1000))
		}
		if g.pct(1) {
			spec.BadSeq = true
			meta.Seq += 7
		}
		if g.P.Fees && g.pct(10) {
			gr := pickA(g, g.all)
			if gr != p.by {
				spec.Granter = gr.Addr
				meta.Granter = gr.Addr
			}
		}
	}
	if fee.IsPositive() {
		spec.Fee = sdk.NewCoins(sdk.NewCoin(Denom, fee))
	}
	if fancy && g.P.Fees && g.pct(6) {
		spec.Fee = spec.Fee.Add(sdk.NewInt64Coin("acoin", 1+g.r.Int63n(50)))
	}
	meta.Fee = spec.Fee
	bz := g.n.Sign(spec)
	if g.n.Twins != nil {
		spec.Msgs = []sdk.Msg{&delegationTypes.MsgUndelegate{Creator: p.by.Str, Staker: p.by.Str, Amount: 1 << 62}}
		g.n.Twins[string(bz)] = g.n.Sign(spec)
	}
	if !spec.BadSeq {
		p.by.Seq++
	}
	g.metas = append(g.metas, meta)
	g.bts = append(g.bts, bz)
}

// step chooses the next block time.
func (g *Gen) step() int64 {
	r := g.r
	s := g.cur()
	if g.P.Months && r.Intn(3) == 0 {
		if r.Intn(4) == 0 {
			// exactly around a vesting date
			ids := sortedU(s.TeamAccs)
			if len(ids) > 0 {
				a := s.TeamAccs[pickA(g, ids)]
				t := int64(a.Commencement) + pickA(g, []int64{1, 2, 3})*int64(year) + int64(r.Intn(3)) - 1
				if t > g.T && t < g.T+10*int64(year) {
					return t
				}
			}
		}
		return g.T + int64(r.Intn(60*24*3600))
	}
	if x := r.Intn(100); x < 30 {
		// an exact deadline
		var due []int64
		add := func(t uint64) {
			for d := int64(-1); d <= 1; d++ {
				if x := int64(t) + d; x > g.T && x < g.T+100000 {
					due = append(due, x)
				}
			}
		}
		for _, e := range s.UndelQ {
			add(e.CreationTime + s.DelParams.UnbondingDelegationTime)
		}
		for _, e := range s.ComQ {
			add(uint64(e.CreationDate) + s.StkParams.CommissionChangeTime)
		}
		for _, e := range s.LeaveQ {
			add(uint64(e.CreationDate) + s.StkParams.LeavePoolTime)
		}
		for k := range s.Redel {
			add(k.Date + s.DelParams.RedelegationCooldown)
		}
		for id, p := range s.Props {
			if q := s.Pools[id]; q != nil {
				add(p.UpdatedAt + q.UploadInterval)
				add(p.UpdatedAt + q.UploadInterval + s.BunParams.UploadTimeout)
			}
		}
		for _, p := range s.Pools {
			if p.UpgradePlan != nil && p.UpgradePlan.ScheduledAt > 0 {
				add(p.UpgradePlan.ScheduledAt)
				add(p.UpgradePlan.ScheduledAt + p.UpgradePlan.Duration)
			}
		}
		sort.Slice(due, func(i, j int) bool { return due[i] < due[j] })
		if len(due) > 0 {
			return due[r.Intn(min(len(due), 6))]
		}
	} else if x < 60 {
		return g.T + int64(1+r.Intn(6))
	} else if x < 64 {
		return g.T
	} else if x < 97 {
		return g.T + int64(5+r.Intn(25))
	}
	return g.T + int64(100+r.Intn(500))
}

// redelegation moves some stake of an account to a protocol node which takes it.
func (g *Gen) redelegation(a *Acc) *plan {
	s := g.cur()
	var from, to []string
	for _, m := range sortedS(s.Stakers) {
		if s.Stake[SD{m, a.Str}] > 1 {
			from = append(from, m)
		}
		if len(s.PoolsOf(m)) > 0 {
			to = append(to, m)
		}
	}
	if len(from) == 0 || len(to) == 0 {
		return nil
	}
	f := pickA(g, from)
	return one(a, &delegationTypes.MsgRedelegate{Creator: a.Str, FromStaker: f, ToStaker: pickA(g, to), Amount: 1 + uint64(g.r.Int63n(int64(1+s.Stake[SD{f, a.Str}]/3)))})
}

// spells uses up redelegation slots, and tries again when they just come back.
func (g *Gen) spells() {
	s := g.cur()
	dates := map[string][]uint64{}
	for k := range s.Redel {
		dates[k.Addr] = append(dates[k.Addr], k.Date)
	}
	for _, x := range sortedS(dates) {
		a := g.by[x]
		if a == nil {
			continue
		}
		near := false
		for _, d := range dates[x] {
			if y := int64(d+s.DelParams.RedelegationCooldown) - g.T; y >= -2 && y <= 1 {
				near = true
			}
		}
		n := 0
		switch {
		case near && g.pct(70), g.pct(4):
			n = 1 + g.r.Intn(2)*g.r.Intn(2)
		case uint64(len(dates[x])) <= s.DelParams.RedelegationMaxAmount && g.pct(25):
			n = 1 + g.r.Intn(2)*g.r.Intn(2)
		}
		for ; n > 0; n-- {
			if p := g.redelegation(a); p != nil {
				g.send(p, 0, true)
			}
		}
	}
}

// Next fills one block.
func (g *Gen) fill() {
	if g.pct(min(60, g.P.Deleg+5)) {
		if g.pct(25) {
			if p := g.redelegation(pickA(g, append(append([]*Acc{}, g.del...), g.stk...))); p != nil {
				g.send(p, 0, true)
			}
		}
		g.spells()
	}
	if g.pct(16) {
		g.twist()
	}
	if g.P.Full && g.pct(6) {
		g.unlist()
	}
	if g.pct(10) {
		g.repair()
	}
	if g.pct(min(60, g.P.Bundle)) {
		g.drive()
	}
	for i := 0; i < 1+g.r.Intn(g.P.MaxTx); i++ {
		x := g.r.Intn(100)
		switch {
		case x < g.P.Authz:
			g.send(g.authzOp(), 0, true)
			continue
		case x < g.P.Authz+g.P.Gov:
			if g.pct(12) {
				g.send(g.usurp(), 0, true)
				continue
			}
			if g.pct(60) {
				var l []sdk.Msg
				for j := 0; j < 1+g.r.Intn(2); j++ {
					l = append(l, g.govOp())
				}
				g.propose(l...)
				continue
			}
		}
		p := g.op()
		if p == nil {
			continue
		}
		if !g.onlyValid && g.pct(g.P.Invalid) {
			p = g.mutate(p)
		}
		if g.pct(10) {
			// more messages of the same signer
			for k := 0; k < 3; k++ {
				q := g.op()
				if q != nil && q.by == p.by && len(q.msgs) == 1 && !conflicting(p.msgs[0], q.msgs[0]) {
					p.msgs = append(p.msgs, q.msgs...)
				}
			}
		}
		g.send(p, 0, true)
	}
}

func (g *Gen) flush() {
	metas, bts := g.metas, g.bts
	g.metas, g.bts = nil, nil
	g.govN = 0
	g.m.Block(g.T, metas, bts)
	g.sync()
}

// sync learns sequences, grants and policies from the committed state.
func (g *Gen) sync() {
	ctx := g.n.Ctx()
	for _, a := range g.all {
		if acc := g.n.App.AccountKeeper.GetAccount(ctx, a.Addr); acc != nil {
			a.Seq = acc.GetSequence()
			a.Num = acc.GetAccountNumber()
		}
	}
	if g.P.Group {
		res, err := g.n.App.GroupKeeper.GroupPoliciesByAdmin(ctx, &group.QueryGroupPoliciesByAdminRequest{Admin: g.atk.Str})
		if err == nil {
			for _, p := range res.GroupPolicies {
				if !has(g.pol, p.Address) {
					g.pol = append(g.pol, p.Address)
					g.m.R.GroupAdmin[p.Address] = g.atk.Str
					g.m.C.Hit("group.policies")
				}
			}
		}
	}
}

func (g *Gen) Setup() {
	g.T++
	g.flush()
	g.T += 2
	var l []sdk.Msg
	for i := 0; i < g.P.Pools; i++ {
		l = append(l, g.createPool())
	}
	exp := g.P.Expose
	g.P.Expose = false
	g.propose(l...)
	g.P.Expose = exp
	g.r.Shuffle(len(g.stk), func(i, j int) { g.stk[i], g.stk[j] = g.stk[j], g.stk[i] })
	for _, a := range g.stk {
		if g.P.Full {
			g.send(one(a, &stakersTypes.MsgCreateStaker{Creator: a.Str, Amount: uint64(1 + g.r.Intn(40)), Commission: g.frac()}), 0, false)
		} else if g.pct(85) {
			amt := uint64(10+g.r.Intn(300)) * KYVE
			if g.even || g.pct(20) {
				amt = g.amount()
			}
			g.send(one(a, &stakersTypes.MsgCreateStaker{Creator: a.Str, Amount: amt, Commission: g.frac()}), 0, false)
		}
	}
	g.flush()
	g.T += 2
	g.flush()
	g.T += 1
	if g.P.Full {
		for i, a := range g.stk {
			if i < maxSlots+1 {
				g.send(one(a, &stakersTypes.MsgJoinPool{Creator: a.Str, Valaddress: g.va[i].Str}), 0, false)
			}
		}
		for _, a := range g.fun {
			g.send(one(a, &fundersTypes.MsgCreateFunder{Creator: a.Str, Moniker: "f"}), 0, false)
		}
		g.flush()
		g.T++
		w := g.cur().FunParams
		for i, a := range g.fun {
			if i < maxSlots {
				e := pickA(g, w.CoinWhitelist)
				per := e.MinFundingAmountPerBundle.AddRaw(1 + g.r.Int63n(3))
				am := math.MaxInt(e.MinFundingAmount, per.MulRaw(int64(w.MinFundingMultiple))).AddRaw(1 + g.r.Int63n(60)*scoreStep(e))
				m := &fundersTypes.MsgFundPool{Creator: a.Str, Amounts: sdk.NewCoins(sdk.NewCoin(e.CoinDenom, am)), AmountsPerBundle: sdk.NewCoins(sdk.NewCoin(e.CoinDenom, per))}
				if f := pickA(g, w.CoinWhitelist); f != e && g.pct(60) {
					per := f.MinFundingAmountPerBundle.AddRaw(1 + g.r.Int63n(3))
					am := math.MaxInt(f.MinFundingAmount, per.MulRaw(int64(w.MinFundingMultiple))).AddRaw(1 + g.r.Int63n(20)*scoreStep(f))
					m.Amounts = m.Amounts.Add(sdk.NewCoin(f.CoinDenom, am))
					m.AmountsPerBundle = m.AmountsPerBundle.Add(sdk.NewCoin(f.CoinDenom, per))
				}
				g.send(one(a, m), 0, false)
			}
		}
		g.flush()
		g.T++
		return
	}
	for i, a := range g.stk {
		if g.pct(85) {
			for _, id := range g.cur().PoolIds() {
				if g.pct(70) {
					v := g.va[(i*2+int(id))%len(g.va)]
					g.send(one(a, &stakersTypes.MsgJoinPool{Creator: a.Str, PoolId: id, Valaddress: v.Str, Amount: uint64(g.r.Intn(50)) * KYVE}), 0, false)
				}
			}
		}
	}
	g.flush()
}

func (g *Gen) Run(blocks int) {
	for i := 0; i < blocks && len(g.m.Viol) < g.m.Max; i++ {
		g.T = g.step()
		g.fill()
		g.flush()
	}
}

var _ = codectypes.NewAnyWithValue
var _ = stakingTypes.ModuleName
var _ = upgradeTypes.ModuleName
