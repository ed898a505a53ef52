package main

// snap.go: a complete, decoded picture of the protocol state, read from the
// raw module stores (not through the keepers whose behaviour is being judged).
// The only keeper calls are the two lazily evaluated per-delegator readings
// (current stake, outstanding rewards), which exist only as computed values.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authTypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	bankTypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	distTypes "github.com/cosmos/cosmos-sdk/x/distribution/types"

	"github.com/KYVENetwork/chain/app"
	bundlesTypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationTypes "github.com/KYVENetwork/chain/x/delegation/types"
	fundersTypes "github.com/KYVENetwork/chain/x/funders/types"
	globalTypes "github.com/KYVENetwork/chain/x/global/types"
	poolTypes "github.com/KYVENetwork/chain/x/pool/types"
	stakersTypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamTypes "github.com/KYVENetwork/chain/x/team/types"
)

type PS struct {
	Pool   uint64
	Staker string
}
type SD struct{ Staker, Del string }
type FP struct {
	Funder string
	Pool   uint64
}
type PB struct{ Pool, Id uint64 }
type AD struct{ Addr, Denom string }
type RC struct {
	Addr string
	Date uint64
}

// Total is the per-staker delegation summary.
type Total struct{ Amount, Count uint64 }

type Snap struct {
	Time, Height int64

	PoolParams  poolTypes.Params
	Pools       map[uint64]*poolTypes.Pool
	PoolCount   uint64
	StkParams   stakersTypes.Params
	Stakers     map[string]*stakersTypes.Staker
	Val         map[PS]*stakersTypes.Valaccount
	ComQ        map[uint64]*stakersTypes.CommissionChangeEntry
	LeaveQ      map[uint64]*stakersTypes.LeavePoolEntry
	ComState    stakersTypes.QueueState
	LeaveState  stakersTypes.QueueState
	DelParams   delegationTypes.Params
	Totals      map[string]Total
	Stake       map[SD]uint64
	Rew         map[SD]sdk.Coins
	UndelQ      map[uint64]*delegationTypes.UndelegationQueueEntry
	UndelState  delegationTypes.QueueState
	Redel       map[RC]bool
	BunParams   bundlesTypes.Params
	BunVersions bundlesTypes.BundleVersionMap
	Props       map[uint64]*bundlesTypes.BundleProposal
	Bundles     map[PB]*bundlesTypes.FinalizedBundle
	RR          map[uint64]map[string]int64
	FunParams   fundersTypes.Params
	Funders     map[string]*fundersTypes.Funder
	Fundings    map[FP]*fundersTypes.Funding
	FundStates  map[uint64][]string // sorted active funders
	GloParams   globalTypes.Params
	TeamAuth    teamTypes.Authority
	TeamAccs    map[uint64]*teamTypes.TeamVestingAccount
	TeamCount   uint64
	Bank        map[AD]math.Int
	Supply      map[string]math.Int
	Community   sdk.DecCoins
	UpgradePlan string
	Grants      map[string]bool   // granter|grantee|message type
	GroupAdmin  map[string]string // policy address -> the single member that decides

	// Unknown collects keys no decoder claimed.
	Unknown []string

	// tolerances, only used on predictions
	tolBank  map[AD]int64
	tolStake map[SD]uint64
}

// Clone is shallow: values are replaced, never mutated, by predictions.
func (s *Snap) Clone() *Snap {
	c := *s
	c.Pools = cp(s.Pools)
	c.Stakers = cp(s.Stakers)
	c.Val = cp(s.Val)
	c.ComQ = cp(s.ComQ)
	c.LeaveQ = cp(s.LeaveQ)
	c.Totals = cp(s.Totals)
	c.Stake = cp(s.Stake)
	c.Rew = cp(s.Rew)
	c.UndelQ = cp(s.UndelQ)
	c.Redel = cp(s.Redel)
	c.Props = cp(s.Props)
	c.Bundles = cp(s.Bundles)
	c.RR = cp(s.RR)
	c.Funders = cp(s.Funders)
	c.Fundings = cp(s.Fundings)
	c.FundStates = cp(s.FundStates)
	c.TeamAccs = cp(s.TeamAccs)
	c.Bank = cp(s.Bank)
	c.Supply = cp(s.Supply)
	c.tolBank = cp(s.tolBank)
	c.tolStake = cp(s.tolStake)
	return &c
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

type unmarshaler interface{ Unmarshal([]byte) error }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Reader reads snapshots of one node; it caches decoded values by raw bytes.
type Reader struct {
	a     *app.App
	cache map[string]cached
	delH  map[string]uint64 // staker -> hash of its raw delegation records
	delV  map[string]map[string]delVal

	GroupAdmin map[string]string
}
type cached struct {
	raw []byte
	val any
}
type delVal struct {
	stake uint64
	rew   sdk.Coins
}

func NewReader(a *app.App) *Reader {
	return &Reader{a: a, cache: map[string]cached{}, delH: map[string]uint64{}, delV: map[string]map[string]delVal{}, GroupAdmin: map[string]string{}}
}

func dec[T any, P interface {
	*T
	unmarshaler
}](r *Reader, store string, k, v []byte) *T {
	ck := store + "\x00" + string(k)
	if c, ok := r.cache[ck]; ok && bytes.Equal(c.raw, v) {
		return c.val.(*T)
	}
	t := new(T)
	must(P(t).Unmarshal(v))
	r.cache[ck] = cached{append([]byte{}, v...), t}
	return t
}

func u64(b []byte) uint64 { return binary.BigEndian.Uint64(b) }

func quietCtx(ctx sdk.Context) sdk.Context {
	return ctx.WithGasMeter(storetypes.NewInfiniteGasMeter()).WithBlockGasMeter(storetypes.NewInfiniteGasMeter()).WithEventManager(sdk.NewEventManager())
}

func (r *Reader) iter(ctx sdk.Context, store string, prefix []byte, f func(k, v []byte)) {
	st := ctx.KVStore(r.a.GetKey(store))
	var it storetypes.Iterator
	if prefix == nil {
		it = st.Iterator(nil, nil)
	} else {
		it = storetypes.KVStorePrefixIterator(st, prefix)
	}
	defer it.Close()
	for ; it.Valid(); it.Next() {
		f(it.Key(), it.Value())
	}
}

// Read takes a snapshot.  full forces re-reading of the lazily computed
// stakes and rewards of every delegator.
func (r *Reader) Read(c sdk.Context, full bool) *Snap {
	ctx := quietCtx(c)
	s := &Snap{Time: ctx.BlockTime().Unix(), Height: ctx.BlockHeight(),
		Pools: map[uint64]*poolTypes.Pool{}, Stakers: map[string]*stakersTypes.Staker{}, Val: map[PS]*stakersTypes.Valaccount{},
		ComQ: map[uint64]*stakersTypes.CommissionChangeEntry{}, LeaveQ: map[uint64]*stakersTypes.LeavePoolEntry{},
		Totals: map[string]Total{}, Stake: map[SD]uint64{}, Rew: map[SD]sdk.Coins{}, UndelQ: map[uint64]*delegationTypes.UndelegationQueueEntry{},
		Redel: map[RC]bool{}, Props: map[uint64]*bundlesTypes.BundleProposal{}, Bundles: map[PB]*bundlesTypes.FinalizedBundle{},
		RR: map[uint64]map[string]int64{}, Funders: map[string]*fundersTypes.Funder{}, Fundings: map[FP]*fundersTypes.Funding{},
		FundStates: map[uint64][]string{}, TeamAccs: map[uint64]*teamTypes.TeamVestingAccount{},
		Bank: map[AD]math.Int{}, Supply: map[string]math.Int{}}
	unk := func(store string, k []byte) { s.Unknown = append(s.Unknown, fmt.Sprintf("%s/%x", store, k)) }

	r.iter(ctx, "pool", nil, func(k, v []byte) {
		switch {
		case len(k) == 1 && k[0] == 0:
			s.PoolParams = *dec[poolTypes.Params](r, "pool", k, v)
		case len(k) == 9 && k[0] == 1:
			s.Pools[u64(k[1:])] = dec[poolTypes.Pool](r, "pool", k, v)
		case len(k) == 1 && k[0] == 2:
			s.PoolCount = u64(v)
		default:
			unk("pool", k)
		}
	})
	r.iter(ctx, "stakers", nil, func(k, v []byte) {
		switch {
		case len(k) == 1 && k[0] == 0:
			s.StkParams = *dec[stakersTypes.Params](r, "stakers", k, v)
		case k[0] == 1:
			s.Stakers[string(k[1:])] = dec[stakersTypes.Staker](r, "stakers", k, v)
		case k[0] == 2 && k[1] == 0:
			s.Val[PS{u64(k[2:10]), string(k[10:])}] = dec[stakersTypes.Valaccount](r, "stakers", k, v)
		case k[0] == 4 && k[1] == 0:
			s.ComQ[u64(k[2:])] = dec[stakersTypes.CommissionChangeEntry](r, "stakers", k, v)
		case k[0] == 5 && k[1] == 0:
			s.LeaveQ[u64(k[2:])] = dec[stakersTypes.LeavePoolEntry](r, "stakers", k, v)
		case k[0] == 30 && len(k) == 2 && k[1] == 2:
			s.ComState = *dec[stakersTypes.QueueState](r, "stakers", k, v)
		case k[0] == 30 && len(k) == 2 && k[1] == 3:
			s.LeaveState = *dec[stakersTypes.QueueState](r, "stakers", k, v)
		case k[0] == 2 && k[1] == 1, k[0] == 4 && k[1] == 1, k[0] == 5 && k[1] == 1, k[0] == 6, strings.HasPrefix(string(k), "total_stakers"):
			// derived records, judged by the index monitor
		default:
			unk("stakers", k)
		}
	})
	hs := map[string]uint64{}
	mix := func(st string, k, v []byte) {
		h := fnv.New64a()
		h.Write(k)
		h.Write([]byte{0xff})
		h.Write(v)
		hs[st] = hs[st]*1099511628211 + h.Sum64() + 1
	}
	dels := map[string][]string{}
	r.iter(ctx, "delegation", nil, func(k, v []byte) {
		switch {
		case len(k) == 1 && k[0] == 0:
			s.DelParams = *dec[delegationTypes.Params](r, "delegation", k, v)
		case k[0] == 1 && k[1] == 0:
			d := dec[delegationTypes.Delegator](r, "delegation", k, v)
			mix(d.Staker, k, v)
			dels[d.Staker] = append(dels[d.Staker], d.Delegator)
		case k[0] == 1 && k[1] == 1:
		case k[0] == 2, k[0] == 4:
			mix(string(k[1:len(k)-8]), k, v)
		case k[0] == 3:
			d := dec[delegationTypes.DelegationData](r, "delegation", k, v)
			mix(d.Staker, k, v)
			s.Totals[string(k[1:])] = Total{d.TotalDelegation, d.DelegatorCount}
		case len(k) == 1 && k[0] == 5:
			s.UndelState = *dec[delegationTypes.QueueState](r, "delegation", k, v)
		case k[0] == 6 && k[1] == 0:
			s.UndelQ[u64(k[2:])] = dec[delegationTypes.UndelegationQueueEntry](r, "delegation", k, v)
		case k[0] == 6 && k[1] == 1:
		case k[0] == 7:
			s.Redel[RC{string(k[1 : len(k)-8]), u64(k[len(k)-8:])}] = true
		default:
			unk("delegation", k)
		}
	})
	for st, ds := range dels {
		if full || r.delH[st] != hs[st] || r.delV[st] == nil {
			m := map[string]delVal{}
			for _, d := range ds {
				m[d] = delVal{r.a.DelegationKeeper.GetDelegationAmountOfDelegator(ctx, st, d), r.a.DelegationKeeper.GetOutstandingRewards(ctx, st, d)}
			}
			r.delV[st] = m
			r.delH[st] = hs[st]
		}
		for d, v := range r.delV[st] {
			s.Stake[SD{st, d}] = v.stake
			s.Rew[SD{st, d}] = v.rew
		}
	}
	r.iter(ctx, "bundles", nil, func(k, v []byte) {
		switch {
		case len(k) == 1 && k[0] == 0:
			s.BunParams = *dec[bundlesTypes.Params](r, "bundles", k, v)
		case k[0] == 1 && len(k) == 9:
			s.Props[u64(k[1:])] = dec[bundlesTypes.BundleProposal](r, "bundles", k, v)
		case k[0] == 2 && len(k) == 17:
			s.Bundles[PB{u64(k[1:9]), u64(k[9:])}] = dec[bundlesTypes.FinalizedBundle](r, "bundles", k, v)
		case k[0] == 3:
			s.BunVersions = *dec[bundlesTypes.BundleVersionMap](r, "bundles", k, v)
		case k[0] == 4 && len(k) == 9:
			p := dec[bundlesTypes.RoundRobinProgress](r, "bundles", k, v)
			m := map[string]int64{}
			for _, e := range p.ProgressList {
				m[e.Address] += e.Progress
			}
			s.RR[u64(k[1:])] = m
		default:
			unk("bundles", k)
		}
	})
	r.iter(ctx, "funders", nil, func(k, v []byte) {
		switch {
		case len(k) == 1 && k[0] == 0:
			s.FunParams = *dec[fundersTypes.Params](r, "funders", k, v)
		case k[0] == 1:
			s.Funders[string(k[1:])] = dec[fundersTypes.Funder](r, "funders", k, v)
		case k[0] == 2 && k[1] == 0:
			s.Fundings[FP{string(k[2 : len(k)-8]), u64(k[len(k)-8:])}] = dec[fundersTypes.Funding](r, "funders", k, v)
		case k[0] == 2 && k[1] == 1:
		case k[0] == 3 && k[1] == 0:
			f := dec[fundersTypes.FundingState](r, "funders", k, v)
			l := append([]string{}, f.ActiveFunderAddresses...)
			sort.Strings(l)
			s.FundStates[u64(k[2:])] = l
		default:
			unk("funders", k)
		}
	})
	r.iter(ctx, "global", nil, func(k, v []byte) {
		if len(k) == 1 && k[0] == 0 {
			s.GloParams = *dec[globalTypes.Params](r, "global", k, v)
		} else {
			unk("global", k)
		}
	})
	r.iter(ctx, "team", nil, func(k, v []byte) {
		switch {
		case len(k) == 1 && k[0] == 1:
			s.TeamAuth = *dec[teamTypes.Authority](r, "team", k, v)
		case k[0] == 2:
			s.TeamAccs[u64(k[1:])] = dec[teamTypes.TeamVestingAccount](r, "team", k, v)
		case len(k) == 1 && k[0] == 3:
			s.TeamCount = u64(v)
		default:
			unk("team", k)
		}
	})
	r.iter(ctx, bankTypes.StoreKey, []byte{2}, func(k, v []byte) {
		n := int(k[1])
		addr := k[2 : 2+n]
		denom := string(k[2+n:])
		ck := "bank\x00" + string(k)
		c, ok := r.cache[ck]
		if !ok || !bytes.Equal(c.raw, v) {
			var i math.Int
			must(i.Unmarshal(v))
			c = cached{append([]byte{}, v...), i}
			r.cache[ck] = c
		}
		s.Bank[AD{bech(addr), denom}] = c.val.(math.Int)
	})
	r.iter(ctx, bankTypes.StoreKey, []byte{0}, func(k, v []byte) {
		var i math.Int
		must(i.Unmarshal(v))
		s.Supply[string(k[1:])] = i
	})
	fp := ctx.KVStore(r.a.GetKey(distTypes.StoreKey)).Get([]byte{0})
	if fp != nil {
		s.Community = dec[distTypes.FeePool](r, "distribution", []byte{0}, fp).CommunityPool
	}
	s.Grants = map[string]bool{}
	r.a.AuthzKeeper.IterateGrants(ctx, func(granter, grantee sdk.AccAddress, g authz.Grant) bool {
		if a, err := g.GetAuthorization(); err == nil && a != nil {
			s.Grants[bech(granter)+"|"+bech(grantee)+"|"+a.MsgTypeURL()] = true
		}
		return false
	})
	s.GroupAdmin = r.GroupAdmin
	if b := ctx.KVStore(r.a.GetKey("upgrade")).Get([]byte{0}); b != nil {
		s.UpgradePlan = string(b)
	}
	return s
}

var bechCache = map[string]string{}

func bech(addr []byte) string {
	if s, ok := bechCache[string(addr)]; ok {
		return s
	}
	s, err := sdk.Bech32ifyAddressBytes("kyve", addr)
	must(err)
	bechCache[string(addr)] = s
	return s
}

func modAddr(name string) string { return bech(authTypes.NewModuleAddress(name)) }

// ---------------------------------------------------------------- comparison

type Diff struct {
	Field string // component, e.g. "stake", "bank"
	Key   string
	Want  string
	Got   string
}

func (d Diff) String() string {
	return fmt.Sprintf("%s[%s]: expected %s, observed %s", d.Field, d.Key, d.Want, d.Got)
}

type marshaler interface {
	Marshal() ([]byte, error)
	String() string
}

func eqP[T any, P interface {
	*T
	marshaler
}](a, b *T) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	x, err := P(a).Marshal()
	must(err)
	y, err := P(b).Marshal()
	must(err)
	return bytes.Equal(x, y)
}

func strP[T any, P interface {
	*T
	marshaler
}](a *T) string {
	if a == nil {
		return "<none>"
	}
	return P(a).String()
}

func diffP[K comparable, T any, P interface {
	*T
	marshaler
}](out *[]Diff, field string, want, got map[K]*T) {
	for k, w := range want {
		if g := got[k]; !eqP[T, P](w, g) {
			*out = append(*out, Diff{field, fmt.Sprint(k), strP[T, P](w), strP[T, P](g)})
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			*out = append(*out, Diff{field, fmt.Sprint(k), "<none>", strP[T, P](g)})
		}
	}
}

func diffV[K comparable, V comparable](out *[]Diff, field string, want, got map[K]V, eq func(k K, w, g V) bool) {
	for k, w := range want {
		g, ok := got[k]
		if !ok {
			*out = append(*out, Diff{field, fmt.Sprint(k), fmt.Sprint(w), "<none>"})
		} else if w != g && (eq == nil || !eq(k, w, g)) {
			*out = append(*out, Diff{field, fmt.Sprint(k), fmt.Sprint(w), fmt.Sprint(g)})
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			*out = append(*out, Diff{field, fmt.Sprint(k), "<none>", fmt.Sprint(g)})
		}
	}
}

func absDiff(a, b uint64) uint64 {
	if a > b {
		return a - b
	}
	return b - a
}

// Compare lists every deviation of got from the prediction want.  Rewards are
// not compared here; the reward ledger does that.
func Compare(want, got *Snap) []Diff {
	var d []Diff
	pp := func(f string, a, b marshaler) {
		x, _ := a.Marshal()
		y, _ := b.Marshal()
		if !bytes.Equal(x, y) {
			d = append(d, Diff{f, "", a.String(), b.String()})
		}
	}
	pp("params.pool", &want.PoolParams, &got.PoolParams)
	pp("params.stakers", &want.StkParams, &got.StkParams)
	pp("params.delegation", &want.DelParams, &got.DelParams)
	pp("params.bundles", &want.BunParams, &got.BunParams)
	pp("bundleversions", &want.BunVersions, &got.BunVersions)
	pp("params.funders", &want.FunParams, &got.FunParams)
	pp("params.global", &want.GloParams, &got.GloParams)
	diffP(&d, "pool", want.Pools, got.Pools)
	if want.PoolCount != got.PoolCount {
		d = append(d, Diff{"poolcount", "", fmt.Sprint(want.PoolCount), fmt.Sprint(got.PoolCount)})
	}
	diffP(&d, "staker", want.Stakers, got.Stakers)
	diffP(&d, "valaccount", want.Val, got.Val)
	diffP(&d, "commissionqueue", want.ComQ, got.ComQ)
	diffP(&d, "leavequeue", want.LeaveQ, got.LeaveQ)
	diffV(&d, "total", want.Totals, got.Totals, nil)
	diffV(&d, "stake", want.Stake, got.Stake, func(k SD, w, g uint64) bool { return absDiff(w, g) <= want.tolStake[k] })
	diffP(&d, "undelqueue", want.UndelQ, got.UndelQ)
	diffV(&d, "redelegation", want.Redel, got.Redel, nil)
	diffP(&d, "proposal", want.Props, got.Props)
	diffP(&d, "bundle", want.Bundles, got.Bundles)
	for p, w := range want.RR {
		diffV(&d, fmt.Sprintf("roundrobin.%d", p), w, got.RR[p], nil)
	}
	for p, g := range got.RR {
		if _, ok := want.RR[p]; !ok && len(g) > 0 {
			d = append(d, Diff{fmt.Sprintf("roundrobin.%d", p), "", "<none>", fmt.Sprint(g)})
		}
	}
	diffP(&d, "funder", want.Funders, got.Funders)
	diffP(&d, "funding", want.Fundings, got.Fundings)
	ks := map[uint64]bool{}
	for p := range want.FundStates {
		ks[p] = true
	}
	for p := range got.FundStates {
		ks[p] = true
	}
	for p := range ks {
		a, b := strings.Join(want.FundStates[p], ","), strings.Join(got.FundStates[p], ",")
		if a != b {
			d = append(d, Diff{"fundingstate", fmt.Sprint(p), a, b})
		}
	}
	pp("teamauthority", &want.TeamAuth, &got.TeamAuth)
	diffP(&d, "teamaccount", want.TeamAccs, got.TeamAccs)
	if want.TeamCount != got.TeamCount {
		d = append(d, Diff{"teamcount", "", fmt.Sprint(want.TeamCount), fmt.Sprint(got.TeamCount)})
	}
	ints := func(f string, w, g map[AD]math.Int) {
		seen := map[AD]bool{}
		chk := func(k AD) {
			if seen[k] {
				return
			}
			seen[k] = true
			a, b := w[k], g[k]
			if a.IsNil() {
				a = math.ZeroInt()
			}
			if b.IsNil() {
				b = math.ZeroInt()
			}
			if !a.Equal(b) && a.Sub(b).Abs().GT(math.NewInt(want.tolBank[k])) {
				d = append(d, Diff{f, k.Addr + " " + k.Denom, a.String(), b.String()})
			}
		}
		for k := range w {
			chk(k)
		}
		for k := range g {
			chk(k)
		}
	}
	ints("bank", want.Bank, got.Bank)
	for dn := range mergeKeys(want.Supply, got.Supply) {
		a, b := want.Supply[dn], got.Supply[dn]
		if a.IsNil() {
			a = math.ZeroInt()
		}
		if b.IsNil() {
			b = math.ZeroInt()
		}
		if !a.Equal(b) {
			d = append(d, Diff{"supply", dn, a.String(), b.String()})
		}
	}
	if !want.Community.Equal(got.Community) {
		d = append(d, Diff{"communitypool", "", want.Community.String(), got.Community.String()})
	}
	if want.UpgradePlan != got.UpgradePlan {
		d = append(d, Diff{"upgradeplan", "", fmt.Sprintf("%q", want.UpgradePlan), fmt.Sprintf("%q", got.UpgradePlan)})
	}
	for _, u := range got.Unknown {
		d = append(d, Diff{"unknownkey", u, "<none>", "present"})
	}
	sort.Slice(d, func(i, j int) bool {
		if d[i].Field != d[j].Field {
			return d[i].Field < d[j].Field
		}
		return d[i].Key < d[j].Key
	})
	return d
}

func mergeKeys[K comparable, V any](a, b map[K]V) map[K]bool {
	m := map[K]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return m
}

// ---------------------------------------------------------------- helpers

func (s *Snap) Bal(addr, denom string) math.Int {
	if v, ok := s.Bank[AD{addr, denom}]; ok {
		return v
	}
	return math.ZeroInt()
}

func (s *Snap) add(addr, denom string, x math.Int) {
	v := s.Bal(addr, denom).Add(x)
	if v.IsZero() {
		delete(s.Bank, AD{addr, denom})
	} else {
		s.Bank[AD{addr, denom}] = v
	}
}

// Send moves coins in the prediction; false if the sender cannot afford it.
func (s *Snap) Send(from, to string, c sdk.Coins) bool {
	for _, x := range c {
		if s.Bal(from, x.Denom).LT(x.Amount) {
			return false
		}
	}
	for _, x := range c {
		s.add(from, x.Denom, x.Amount.Neg())
		s.add(to, x.Denom, x.Amount)
	}
	return true
}

func (s *Snap) FundCommunity(from string, c sdk.Coins) bool {
	if !s.Send(from, modAddr(distTypes.ModuleName), c) {
		return false
	}
	s.Community = s.Community.Add(sdk.NewDecCoinsFromCoins(c...)...)
	return true
}

// Members returns the stakers of a pool in store order.
func (s *Snap) Members(pool uint64) []string {
	var l []string
	for k := range s.Val {
		if k.Pool == pool {
			l = append(l, k.Staker)
		}
	}
	sort.Strings(l)
	return l
}

func (s *Snap) PoolsOf(staker string) []uint64 {
	var l []uint64
	for k := range s.Val {
		if k.Staker == staker {
			l = append(l, k.Pool)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func (s *Snap) PoolIds() []uint64 { return sortedU(s.Pools) }

func sortedU[V any](m map[uint64]V) []uint64 {
	var l []uint64
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}
func sortedS[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (s *Snap) Delegators(staker string) []string {
	var l []string
	for k := range s.Stake {
		if k.Staker == staker {
			l = append(l, k.Del)
		}
	}
	sort.Strings(l)
	return l
}
