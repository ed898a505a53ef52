package main

// mon.go: the online monitor.  It watches every transaction and every module
// step of the running chain, predicts its effect from the state before it and
// compares the whole observed state afterwards.

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authTypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"

	globalTypes "github.com/KYVENetwork/chain/x/global/types"
)

// Violation is one disagreement between chain and specification.
type Violation struct {
	Props  []string `json:"props"`
	Height int64    `json:"height"`
	Step   string   `json:"step"`
	Msgs   []string `json:"msgs"`
}

func (v Violation) For(p string) bool { return has(v.Props, p) }

// fieldProps maps a state component to the properties that constrain it.
var fieldProps = map[string]string{
	"params": "P22", "pool": "P21 P07", "poolcount": "P21", "staker": "P19", "valaccount": "P17 P12 P18", "commissionqueue": "P19", "leavequeue": "P18",
	"total": "P35 P05 P04", "stake": "P03 P04 P05", "undelqueue": "P05", "redelegation": "P06", "proposal": "P07 P08 P09 P11", "bundle": "P07", "bundleversions": "P07 P29",
	"roundrobin": "P11", "funder": "P15", "funding": "P15", "fundingstate": "P16", "teamauthority": "P24", "teamaccount": "P23 P24", "teamcount": "P23",
	"bank": "P02 P01", "supply": "P02", "communitypool": "P02 P04", "upgradeplan": "P33", "unknownkey": "P35", "event": "P36", "rewards": "P03",
	"gas": "P25", "fee": "P25", "sequence": "P26",
}

func propsOf(op []string, ds []Diff, extra ...string) []string {
	m := map[string]bool{}
	for _, p := range op {
		m[p] = true
	}
	for _, p := range extra {
		m[p] = true
	}
	for _, d := range ds {
		f := d.Field
		if i := strings.IndexByte(f, '.'); i >= 0 {
			f = f[:i]
		}
		for _, p := range strings.Fields(fieldProps[f]) {
			m[p] = true
		}
	}
	return sortedS(m)
}

// TxMeta is what the workload knows about a transaction it sent.
type TxMeta struct {
	Msgs    []sdk.Msg
	Signer  *Acc
	Seq     uint64
	Gas     uint64
	Fee     sdk.Coins
	Granter sdk.AccAddress
	BadSig  bool
	// Loose: admission of this transaction is not predicted
	Loose bool
	Label string
}

type txRec struct {
	idx    int
	meta   *TxMeta
	bytes  []byte
	ante   bool // reached the ante handler
	anteOK bool
	wantOK string // "" = admission expected, otherwise the reason against it
	ran    bool   // post handler reached
	ok     bool   // messages and post handler succeeded
	gas    string // surcharge mismatch
	digest map[string]map[string]string
	pre    *Snap
	events []string
	seqPre uint64
	noEv   bool
	reject error
	fails  bool
	note   string
}

type Mon struct {
	mem     rareMem
	N       *Node
	R       *Reader
	C       *Cov
	Cur     *Snap
	L       *Ledger
	Viol    []Violation
	Max     int
	Queries bool // compare query answers and predictions with the state
	Deep    bool // compare raw stores around failing transactions

	txs      []*txRec
	next     int
	first    *Snap // state before the block
	cur      *txRec
	finds    []string
	dust     map[string]int64
	began    bool
	govDue   []*govDue
	provided uint64
	ownPrice sdk.DecCoins // the operator's own minimum, and the node it was set on
	ownOf    any
	sawMint  bool
	states   map[uint64]bool
	onBlock  func(res *abci.ResponseFinalizeBlock)
	phase    string       // module step being executed
	upgrade  *upgradeSpec // the block being executed performs this upgrade
	extra    []string     // properties added to every violation of this run
}

func NewMon(n *Node, c *Cov) *Mon {
	m := &Mon{N: n, R: NewReader(n.App), C: c, L: NewLedger(), Max: 25, dust: map[string]int64{}, states: map[uint64]bool{}}
	n.Hooks = m
	return m
}

func (m *Mon) report(step string, props []string, msgs ...string) {
	if len(m.Viol) >= m.Max {
		return
	}
	if len(msgs) > 12 {
		msgs = append(msgs[:12], fmt.Sprintf("... %d more", len(msgs)-12))
	}
	for i := range msgs {
		if len(msgs[i]) > 1500 {
			msgs[i] = msgs[i][:1500] + "..."
		}
	}
	p := append([]string{}, props...)
	for _, e := range m.extra {
		if !has(p, e) {
			p = append(p, e)
		}
	}
	sort.Strings(p)
	m.Viol = append(m.Viol, Violation{p, m.N.Height + 1, step, msgs})
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "DEBUG h=%d %s %v\n", m.N.Height+1, step, p)
		for _, x := range msgs {
			fmt.Fprintln(os.Stderr, "   ", x)
		}
	}
}

func (m *Mon) diffs(step string, op []string, ds []Diff, extra ...string) bool {
	if len(ds) == 0 {
		return false
	}
	var l []string
	for _, d := range ds {
		l = append(l, d.String())
	}
	m.report(step, propsOf(op, ds, extra...), l...)
	return true
}

// Start takes the first snapshot (after genesis or after loading).
func (m *Mon) Start(ctx sdk.Context) {
	s := m.R.Read(ctx, true)
	m.Cur = s
	m.L = NewLedger()
	m.syncLedger(s, true)
	// an inherited state brings its own rounding dust
	gap := s.Bal(modAddr("delegation"), Denom)
	for k, st := range s.Stake {
		gap = gap.Sub(math.NewIntFromUint64(st)).Sub(s.Rew[k].AmountOf(Denom))
	}
	if len(s.Stake) > 0 && gap.IsPositive() && gap.LT(math.NewInt(1_000_000)) {
		m.dust["base"] = gap.Int64()
	}
}

// syncLedger makes the exact ledgers agree with what was observed.
func (m *Mon) syncLedger(s *Snap, all bool) {
	for k, st := range s.Stake {
		x, ok := m.L.xs[k]
		if ok && !all && absDiff(fxFloor(x).Uint64(), st) <= 1 {
			continue
		}
		m.L.xs[k] = fxU(st)
		r := map[string]fx{}
		for _, c := range s.Rew[k] {
			r[c.Denom] = fxInt(c.Amount)
		}
		m.L.xr[k] = r
		m.L.xe[k] = new(big.Int)
		if all {
			// the fractional part below the observed integers is unknown
			m.L.xu[k] = true
			m.L.xe[k] = fxU(2)
		}
	}
	for k := range m.L.xs {
		if _, ok := s.Stake[k]; !ok {
			delete(m.L.xs, k)
			delete(m.L.xu, k)
			delete(m.L.xr, k)
			delete(m.L.xe, k)
		}
	}
}

// resync forgets exact knowledge after a disagreement.
func (m *Mon) resync(s *Snap) {
	old := m.L
	m.L = NewLedger()
	m.L.res = old.res
	m.syncLedger(s, true)
	for k, st := range s.Stake {
		m.L.xu[k] = true
		if x, ok := old.xs[k]; ok && absDiff(fxFloor(x).Uint64(), st) <= 1 {
			m.L.xs[k], m.L.xu[k] = x, old.xu[k]
		}
	}
	for k := range m.L.xe {
		m.L.xe[k] = fxU(1 << 62)
	}
}

// rewards checks the outstanding rewards against the exact credits.
func (m *Mon) rewards(step string, op []string, s *Snap) bool {
	var ds []Diff
	for k, r := range s.Rew {
		x := m.L.xr[k]
		e := orZero(m.L.xe[k])
		seen := 0
		for dn, v := range x {
			lo, hi := fxFloor(fxSub(v, e)), fxFloor(fxAdd(fxAdd(v, fx27), slack(e)))
			if lo.IsNegative() {
				lo = math.ZeroInt()
			}
			g := r.AmountOf(dn)
			if g.IsPositive() {
				seen++
			}
			if g.LT(lo) || g.GT(hi) {
				ds = append(ds, Diff{"rewards", k.Staker + " " + k.Del + " " + dn, fmt.Sprintf("%s..%s", lo, hi), g.String()})
			}
		}
		if seen < len(r) && e.Cmp(fxOne) < 0 {
			ds = append(ds, Diff{"rewards", k.Staker + " " + k.Del, "only " + fmt.Sprint(len(x)) + " coins", r.String()})
		}
	}
	m.C.Add("monitor.reward_readings", int64(len(s.Rew)))
	return m.diffs(step, op, ds)
}

// slack allows upward deviation only after an unknown start.
func slack(e fx) fx {
	if e.Cmp(fxOne) >= 0 {
		return e
	}
	return new(big.Int)
}

// judge compares the observed state with the prediction and moves on.
func (m *Mon) judge(step string, op []string, w *World, got *Snap) {
	m.C.Hit("monitor.steps")
	bad := false
	if w != nil && !w.ambiguous {
		w.Time, w.Height = got.Time, got.Height
		bad = m.diffs(step, op, Compare(w.Snap, got))
		m.L = w.Ledger
	} else {
		if w != nil {
			m.C.Hit("monitor.skipped_ambiguous")
			m.L = w.Ledger
		}
	}
	if bad {
		m.resync(got)
	} else if w == nil || w.ambiguous {
		m.resync(got)
	} else {
		m.syncLedger(got, false)
		if m.rewards(step, op, got) {
			m.resync(got)
		}
	}
	m.invariants(step, op, got)
	m.Cur = got
}

// invariants that hold in every observed state.
func (m *Mon) invariants(step string, op []string, s *Snap) {
	// P02: the parts are the whole
	sum := map[string]math.Int{}
	for k, v := range s.Bank {
		if x, ok := sum[k.Denom]; ok {
			sum[k.Denom] = x.Add(v)
		} else {
			sum[k.Denom] = v
		}
		if v.IsNegative() {
			m.report(step, []string{"P02"}, fmt.Sprintf("negative balance of %s: %s%s", k.Addr, v, k.Denom))
		}
	}
	for dn := range mergeKeys(sum, s.Supply) {
		a, b := sum[dn], s.Supply[dn]
		if a.IsNil() {
			a = math.ZeroInt()
		}
		if b.IsNil() {
			b = math.ZeroInt()
		}
		if !a.Equal(b) {
			m.report(step, []string{"P02"}, fmt.Sprintf("accounts hold %s%s but the supply is %s", a, dn, b))
		}
	}
	m.C.Add("monitor.balances_summed", int64(len(s.Bank)))
	// P01: escrows cover obligations
	owed := map[string]*big.Int{}
	get := func(dn string) *big.Int {
		if owed[dn] == nil {
			owed[dn] = new(big.Int)
		}
		return owed[dn]
	}
	for _, st := range s.Stake {
		get(Denom).Add(get(Denom), new(big.Int).SetUint64(st))
	}
	for _, r := range s.Rew {
		for _, c := range r {
			get(c.Denom).Add(get(c.Denom), c.Amount.BigInt())
		}
	}
	chk := func(who string, exact bool, allowance func(dn string) int64) {
		a := modAddr(who)
		for dn, o := range owed {
			have := s.Bal(a, dn).BigInt()
			if have.Cmp(o) < 0 {
				m.report(step, append([]string{"P01"}, op...), fmt.Sprintf("%s account holds %s%s but owes %s", who, have, dn, o))
			}
		}
		for k, v := range s.Bank {
			if k.Addr != a {
				continue
			}
			o, allow := get(k.Denom), allowance(k.Denom)
			d := new(big.Int).Sub(v.BigInt(), o)
			if exact && d.Cmp(big.NewInt(allow+m.dust["gap:"+who+k.Denom])) > 0 {
				if os.Getenv("VERIF_DEBUG") == "3" {
					for k, st := range m.Cur.Stake {
						if s.Stake[k] != st || !s.Rew[k].Equal(m.Cur.Rew[k]) {
							fmt.Fprintln(os.Stderr, "  DBG", k, st, "->", s.Stake[k], m.Cur.Rew[k], "->", s.Rew[k], "totals", m.Cur.Totals[k.Staker], s.Totals[k.Staker])
						}
					}
				}
				m.dust["gap:"+who+k.Denom] += d.Int64() - allow
				m.report(step, append([]string{"P01"}, op...), fmt.Sprintf("%s account holds %s%s but owes only %s (allowed dust %d)", who, v, k.Denom, o, allow))
			}
		}
	}
	chk("delegation", true, m.dustAllowance)
	none := func(string) int64 { return 0 }
	owed = map[string]*big.Int{}
	for _, st := range s.Stakers {
		for _, c := range st.CommissionRewards {
			get(c.Denom).Add(get(c.Denom), c.Amount.BigInt())
		}
	}
	chk("stakers", true, none)
	owed = map[string]*big.Int{}
	for _, f := range s.Fundings {
		for _, c := range f.Amounts {
			get(c.Denom).Add(get(c.Denom), c.Amount.BigInt())
		}
	}
	chk("funders", true, none)
	owed = map[string]*big.Int{}
	get(Denom).SetUint64(s.teamOwed())
	chk("team", true, none)
	owed = map[string]*big.Int{}
	chk("pool", true, none)
	m.C.Hit("monitor.solvency_checks")

	// P07: contiguity
	last := map[uint64]uint64{}
	for k := range s.Bundles {
		if k.Id+1 > last[k.Pool] {
			last[k.Pool] = k.Id + 1
		}
	}
	for id, p := range s.Pools {
		if p.TotalBundles != last[id] {
			m.report(step, []string{"P07"}, fmt.Sprintf("pool %d counts %d bundles, the archive ends at %d", id, p.TotalBundles, last[id]))
		}
		if n := last[id]; n > 0 {
			b := s.Bundles[PB{id, n - 1}]
			if b.ToIndex != p.CurrentIndex || b.ToKey != p.CurrentKey || b.BundleSummary != p.CurrentSummary {
				m.report(step, []string{"P07"}, fmt.Sprintf("pool %d does not continue where bundle %d ended", id, n-1))
			}
			if n >= 2 {
				a := s.Bundles[PB{id, n - 2}]
				if a == nil || a.ToIndex != b.FromIndex {
					m.report(step, []string{"P07"}, fmt.Sprintf("pool %d: bundle %d does not start where its predecessor ended", id, n-1))
				}
			} else if b.FromIndex != 0 && m.Cur != nil && false {
				m.report(step, []string{"P07"}, "first bundle does not start at 0")
			}
			m.C.Hit("monitor.archive_ends")
		}
	}
	// P08: one vote each
	for id, p := range s.Props {
		seen := map[string]bool{}
		for _, l := range [][]string{p.VotersValid, p.VotersInvalid, p.VotersAbstain} {
			for _, v := range l {
				if seen[v] {
					m.report(step, []string{"P08"}, fmt.Sprintf("pool %d: %s is recorded twice as voter", id, v))
				}
				seen[v] = true
			}
		}
		m.C.Add("monitor.votes_seen", int64(len(seen)))
	}
	// P16/P17: bounds and exact membership
	for id := range s.Pools {
		act := s.FundStates[id]
		if len(act) > maxSlots {
			m.report(step, []string{"P16"}, fmt.Sprintf("pool %d has %d active funders", id, len(act)))
		}
		for i, a := range act {
			if i > 0 && act[i-1] == a {
				m.report(step, []string{"P16"}, fmt.Sprintf("pool %d lists funder %s twice", id, a))
			}
			if f := s.Fundings[FP{a, id}]; f == nil || f.Amounts.IsZero() {
				m.report(step, []string{"P16"}, fmt.Sprintf("pool %d lists %s as active without funds", id, a))
			}
		}
	}
	for k, f := range s.Fundings {
		if !f.Amounts.IsZero() && !has(s.FundStates[k.Pool], k.Funder) {
			m.report(step, []string{"P16"}, fmt.Sprintf("pool %d does not list %s although it has %s left", k.Pool, k.Funder, f.Amounts))
		}
	}
	cnt := map[uint64]int{}
	vals := map[string]bool{}
	for k, v := range s.Val {
		cnt[k.Pool]++
		if s.Stakers[k.Staker] == nil || s.Pools[k.Pool] == nil {
			m.report(step, []string{"P17"}, fmt.Sprintf("membership %v without staker or pool", k))
		}
		if p := s.Pools[k.Pool]; p != nil && p.Disabled {
			m.report(step, []string{"P17", "P21"}, fmt.Sprintf("disabled pool %d has member %s", k.Pool, k.Staker))
		}
		if v.Valaddress == k.Staker {
			m.report(step, []string{"P17"}, fmt.Sprintf("%s operates pool %d with its own account", k.Staker, k.Pool))
		}
		for _, key := range []string{fmt.Sprint(k.Pool, v.Valaddress), k.Staker + v.Valaddress} {
			if vals[key] {
				m.report(step, []string{"P17"}, fmt.Sprintf("operating account %s is used twice (pool %d)", v.Valaddress, k.Pool))
			}
			vals[key] = true
		}
		if v.Points >= s.BunParams.MaxPoints && m.Cur != nil && m.Cur.BunParams.MaxPoints == s.BunParams.MaxPoints {
			if o := m.Cur.Val[k]; o == nil || o.Points != v.Points {
				m.report(step, []string{"P12"}, fmt.Sprintf("member %v has %d points at a limit of %d", k, v.Points, s.BunParams.MaxPoints))
			}
		}
	}
	for id, n := range cnt {
		if n > maxSlots {
			m.report(step, []string{"P17"}, fmt.Sprintf("pool %d has %d members", id, n))
		}
	}
	// P19, P22: ranges
	for a, st := range s.Stakers {
		if !validPct(st.Commission) {
			m.report(step, []string{"P19"}, fmt.Sprintf("commission of %s is %s", a, st.Commission))
		}
	}
	if !validPoolParams(s.PoolParams) || !validDelParams(s.DelParams) || !validBunParams(s.BunParams) || !validGloParams(s.GloParams) || !validFunParams(s.FunParams) {
		m.report(step, []string{"P22"}, fmt.Sprintf("parameters out of range: %v %v %v %v %v", s.PoolParams, s.DelParams, s.BunParams, s.GloParams, s.FunParams))
	}
	// P23
	for id, a := range s.TeamAccs {
		t := uint64(s.Time)
		v, u := vested(a, t), unlocked(a, t)
		if u > v || v > a.TotalAllocation {
			m.C.Hit("model.vesting_order")
		}
		if a.UnlockedClaimed > a.TotalAllocation || a.RewardsClaimed > a.TotalRewards {
			m.report(step, []string{"P23", "P24"}, fmt.Sprintf("team account %d claimed more than it has: %v", id, a))
		}
	}
	if s.issued() > teamAllocation {
		m.report(step, []string{"P23"}, fmt.Sprintf("vesting accounts are issued %d", s.issued()))
	}
	// diversity of observed states
	h := stateHash(s)
	if !m.states[h] && len(m.states) < 1_000_000 {
		m.states[h] = true
	}
}

func (m *Mon) dustAllowance(dn string) int64 {
	return fxFloor(orZero(m.L.res[dn])).Int64() + m.C.N["monitor.dust"] + int64(len(m.Cur.Rew)) + m.dust["base"] + 64
}

// ------------------------------------------------------------ blocks

// Block runs one block of transactions and returns the response.
func (m *Mon) Block(t int64, metas []*TxMeta, bts [][]byte) (res *abci.ResponseFinalizeBlock) {
	m.txs = nil
	for i := range bts {
		m.txs = append(m.txs, &txRec{idx: i, meta: metas[i], bytes: bts[i]})
	}
	m.next, m.cur, m.began, m.finds = 0, nil, false, nil
	m.phase = ""
	m.first = m.Cur
	m.sawMint = false
	m.mempool()
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v", r)
				if os.Getenv("VERIF_DEBUG") == "2" {
					panic(r)
				}
			}
		}()
		res, err = m.N.Block(unix(t), bts)
	}()
	if err != nil {
		m.report("block", append([]string{"P33"}, strings.Fields(stepProps[m.phase])...), "block processing failed: "+err.Error())
		return nil
	}
	m.C.Hit("blocks")
	m.C.Add("txs", int64(len(bts)))
	ctx := m.N.Ctx()
	for i, r := range res.TxResults {
		m.afterTx(ctx, m.txs[i], r)
	}
	m.derived(quietCtx(ctx))
	m.crossings()
	m.rare()
	for _, x := range m.finds {
		_ = x
	}
	if m.onBlock != nil {
		m.onBlock(res)
	}
	return res
}

func (m *Mon) afterTx(ctx sdk.Context, t *txRec, r *abci.ExecTxResult) {
	name := t.label()
	oog := r.Codespace == "sdk" && r.Code == 11
	ok := r.Code == 0
	m.C.Hit("tx." + map[bool]string{true: "accepted", false: "rejected"}[ok])
	if ok != (t.anteOK && t.ok) {
		m.report(name, []string{"P26"}, fmt.Sprintf("result code %d/%s (%s) does not agree with what was executed", r.Code, r.Codespace, r.Log))
	}
	if oog {
		m.C.Hit("tx.out_of_gas")
	}
	if !ok && strings.Contains(r.Log, "panic") {
		m.C.Hit("tx.panicked")
		if os.Getenv("VERIF_DEBUG") == "4" {
			fmt.Fprintln(os.Stderr, "PANIC", name, r.Log)
		}
	}
	props := t.props()
	if !t.ante {
		// refused by stateless validation: then no state may exist in which the messages are acceptable
		m.C.Hit("tx.refused_stateless")
		if m.first != nil && !t.meta.Loose {
			w := NewWorld(m.first, NewLedger(), NewCov())
			w.Time, w.Height = m.Cur.Time, m.Cur.Height
			acceptable := true
			for _, x := range t.meta.Msgs {
				if err := w.apply(x); err != nil {
					acceptable = false
					break
				}
			}
			if acceptable {
				m.report(name, append([]string{"P25"}, props...), "transaction was not admitted: "+r.Log)
			}
		}
	} else if !t.anteOK && t.wantOK == "" && !oog && !t.meta.Loose {
		m.report(name, append([]string{"P25"}, props...), "transaction was not admitted: "+r.Log)
	}
	if t.anteOK && !ok && t.fails && t.reject == nil && !oog {
		m.report(name, props, "predicted to succeed, failed with: "+r.Log)
	}
	if t.gas != "" {
		m.report(name, []string{"P25"}, t.gas)
	}
	if !t.noEv {
		var want []string
		if ok {
			want = t.events
		}
		m.diffs(name, props, diffEvents(want, kyveEvents(r.Events)))
		m.C.Add("monitor.events_compared", int64(len(want)))
	}
	if ok {
		for _, x := range t.meta.Msgs {
			m.C.Hit("ok." + opName(x))
		}
	} else if t.anteOK {
		for _, x := range t.meta.Msgs {
			m.C.Hit("fail." + opName(x))
		}
	}
}

func (t *txRec) label() string {
	var l []string
	for _, x := range t.meta.Msgs {
		s := opName(x)
		if z, ok := x.(fmt.Stringer); ok {
			y := z.String()
			if len(y) > 300 {
				y = y[:300] + "..."
			}
			s += "{" + y + "}"
		}
		l = append(l, s)
	}
	return fmt.Sprintf("tx %d by %s: %s", t.idx, t.meta.Signer.Name, strings.Join(l, "; "))
}

func (t *txRec) props() []string {
	m := map[string]bool{}
	for _, x := range t.meta.Msgs {
		for _, p := range opProps(x) {
			m[p] = true
		}
	}
	return sortedS(m)
}

// ------------------------------------------------------------ transactions

func (m *Mon) BeforeAnte(ctx sdk.Context, tx sdk.Tx, ante sdk.AnteHandler) {
	t := m.match(ctx.TxBytes())
	if t == nil {
		return
	}
	m.settle(ctx)
	m.cur = t
	t.ante = true
	t.pre = m.Cur
	q := quietCtx(ctx)
	t.wantOK = m.admission(q, t)
	t.seqPre = m.seq(q, t.meta.Signer)
	if m.Deep {
		t.digest = m.digest(q)
	}
	t.gas = m.surcharge(ctx, tx, ante, t)
}

func (m *Mon) match(b []byte) *txRec {
	for i := m.next; i < len(m.txs); i++ {
		if bytes.Equal(m.txs[i].bytes, b) {
			m.next = i + 1
			return m.txs[i]
		}
	}
	return nil
}

func (m *Mon) seq(ctx sdk.Context, a *Acc) uint64 {
	acc := m.N.App.AccountKeeper.GetAccount(ctx, a.Addr)
	if acc == nil {
		return 0
	}
	return acc.GetSequence()
}

func (t *txRec) payer() string {
	if t.meta.Granter != nil && !t.meta.Granter.Equals(t.meta.Signer.Addr) {
		return bech(t.meta.Granter)
	}
	return t.meta.Signer.Str
}

func minFee(p globalTypes.Params, gas uint64) math.Int {
	x := new(big.Int).Mul(p.MinGasPrice.BigInt(), new(big.Int).SetUint64(gas))
	q, r := new(big.Int).QuoRem(x, fx18, new(big.Int))
	if r.Sign() > 0 {
		q.Add(q, big.NewInt(1))
	}
	return math.NewIntFromBigInt(q)
}

// admission predicts why a transaction must not be admitted.
func (m *Mon) admission(ctx sdk.Context, t *txRec) string {
	if t.meta.BadSig {
		return "signature"
	}
	for _, x := range t.meta.Msgs {
		if s := msgSigner(x); s != "" && s != t.meta.Signer.Str {
			m.C.Hit("tx.foreign_signer")
			return "signed by another account than " + s
		}
	}
	if t.meta.Seq != m.seq(ctx, t.meta.Signer) {
		return "sequence"
	}
	if min := minFee(m.Cur.GloParams, t.meta.Gas); t.meta.Fee.AmountOf(Denom).LT(min) {
		m.C.Hit("fee.too_low")
		return fmt.Sprintf("fee below %s", min)
	} else if t.meta.Fee.AmountOf(Denom).Equal(min) {
		m.C.Hit("fee.exactly_minimum")
	}
	for _, c := range t.meta.Fee {
		if m.Cur.Bal(t.payer(), c.Denom).LT(c.Amount) {
			return "payer cannot pay"
		}
	}
	if t.payer() != t.meta.Signer.Str {
		al, err := m.N.App.FeeGrantKeeper.GetAllowance(ctx, t.meta.Granter, t.meta.Signer.Addr)
		if err != nil || al == nil {
			m.C.Hit("feegrant.missing")
			return "no fee allowance"
		}
		if _, err := al.Accept(ctx, t.meta.Fee, t.meta.Msgs); err != nil {
			m.C.Hit("feegrant.exceeded")
			return "fee allowance: " + err.Error()
		}
	}
	return ""
}

// surcharge runs the admission twice on scratch state, with and without the
// configured gas adjustments, and compares the difference.
func (m *Mon) surcharge(ctx sdk.Context, tx sdk.Tx, ante sdk.AnteHandler, t *txRec) string {
	adj := m.Cur.GloParams.GasAdjustments
	if len(adj) == 0 || t.wantOK != "" {
		return ""
	}
	want := uint64(0)
	for _, x := range t.meta.Msgs {
		for _, a := range adj {
			if a.Type == sdk.MsgTypeURL(x) {
				want += a.Amount
				break
			}
		}
	}
	run := func(neutral bool) (uint64, bool) {
		c, _ := ctx.CacheContext()
		c = c.WithEventManager(sdk.NewEventManager())
		if neutral {
			p := m.Cur.GloParams
			p.GasAdjustments = nil
			for _, a := range adj {
				p.GasAdjustments = append(p.GasAdjustments, globalTypes.GasAdjustment{Type: strings.Repeat("x", len(a.Type)), Amount: a.Amount})
			}
			m.N.App.GlobalKeeper.SetParams(quietCtx(c), p)
		}
		n, err := func() (nc sdk.Context, err error) {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("%v", r)
				}
			}()
			return ante(c, tx, false)
		}()
		if err != nil {
			return 0, false
		}
		return n.GasMeter().GasConsumed(), true
	}
	a, ok1 := run(false)
	b, ok2 := run(true)
	if !ok1 || !ok2 {
		m.C.Hit("gas.surcharge_unobservable")
		return ""
	}
	m.C.Hit("gas.surcharge_measured")
	if want > 0 {
		m.C.Hit("gas.surcharge_nonzero")
	}
	if a-b != want {
		return fmt.Sprintf("gas surcharge is %d, configured %d", int64(a)-int64(b), want)
	}
	return ""
}

func (m *Mon) AfterAnte(ctx sdk.Context, tx sdk.Tx, err error) {
	if m.cur != nil {
		m.cur.anteOK = err == nil
	}
}

func (m *Mon) AfterMsgs(ctx sdk.Context, tx sdk.Tx, success bool) {
	if m.cur != nil {
		m.cur.ran = true
	}
}

func (m *Mon) AfterPost(ctx sdk.Context, tx sdk.Tx, success bool, err error) {
	if m.cur != nil && err == nil {
		m.cur.ok = success
	}
	if m.cur != nil && err != nil {
		m.cur.ok = false
		m.cur.note = "post handler: " + err.Error()
		m.report(m.cur.label(), []string{"P25"}, m.cur.note)
	}
}

// settle judges the pending transaction with the state now visible.
func (m *Mon) settle(ctx sdk.Context) {
	t := m.cur
	m.cur = nil
	if t == nil {
		return
	}
	got := m.R.Read(ctx, false)
	name := t.label()
	props := t.props()
	pre := m.Cur
	w := NewWorld(pre, m.L, m.C)
	w.evictHint = evictHint(pre, got)
	q := quietCtx(ctx)
	seq := m.seq(q, t.meta.Signer)
	if !t.anteOK {
		m.C.Hit("monitor.not_admitted")
		if t.digest != nil {
			m.untouched(name, t.digest, m.digest(q), nil)
		}
		if seq != t.seqPre {
			m.report(name, []string{"P26"}, "the sequence of a rejected transaction's sender changed")
		}
		if ds := Compare(w.Snap, got); len(ds) > 0 {
			m.diffs(name, []string{"P26", "P25"}, ds)
			m.resync(got)
		}
		m.invariants(name, props, got)
		m.Cur = got
		return
	}
	if t.wantOK != "" && !t.meta.Loose {
		m.report(name, append([]string{"P25", "P20"}, props...), "admitted although: "+t.wantOK)
	}
	if seq != t.seqPre+1 {
		m.report(name, []string{"P26"}, fmt.Sprintf("sender sequence went from %d to %d", t.seqPre, seq))
	}
	// the fee is paid whatever happens next
	w.Send(t.payer(), addrFee(), t.meta.Fee)
	m.C.Hit("fee.paid")
	f := w.Fork()
	var err error
	unmodelled := false
	for _, x := range t.meta.Msgs {
		if err = f.apply(x); err != nil {
			if err == errUnmodelled {
				unmodelled, err = true, nil
				continue
			}
			break
		}
	}
	if !unmodelled {
		t.reject = err
	}
	if t.ok {
		if unmodelled {
			// nothing of the protocol may change through foreign messages
			t.noEv = len(t.meta.Msgs) > 1
			m.foreign(name, props, w, got)
			return
		}
		if err != nil {
			m.report(name, append([]string{"P20"}, props...), "predicted to be rejected ("+err.Error()+"), but was accepted")
			t.noEv = true
			m.judge(name, append(props, "P20"), nil, got)
			return
		}
		m.refund(f, t)
		t.events = f.ev
		if f.ambiguous {
			t.noEv = true
		}
		m.judge(name, props, f, got)
		return
	}
	// failed: exactly the fee and the sequence
	t.fails = true
	if unmodelled {
		t.reject = errUnmodelled
	}
	if f.ambiguous {
		t.reject = errUnmodelled
	}
	m.C.Hit("monitor.failed_txs")
	if t.digest != nil {
		allowed := map[string]bool{t.payer(): true, addrFee(): true}
		m.untouched(name, t.digest, m.digest(q), allowed)
	}
	ds := Compare(w.Snap, got)
	if m.diffs(name, append([]string{"P26"}, props...), ds) {
		m.resync(got)
	}
	m.invariants(name, append([]string{"P26"}, props...), got)
	m.Cur = got
}

// foreign judges messages of other modules: protocol state stays, coins move.
func (m *Mon) foreign(name string, props []string, w *World, got *Snap) {
	e := w.Snap.Clone()
	e.Bank, e.Community = got.Bank, got.Community
	if got.UpgradePlan != "" {
		e.UpgradePlan = got.UpgradePlan
	}
	m.C.Hit("monitor.foreign")
	if m.diffs(name, append([]string{"P20", "P02"}, props...), Compare(e, got)) {
		m.resync(got)
	}
	m.invariants(name, props, got)
	m.Cur = got
}

// refund models the fee refund of a successful single-message transaction.
func (m *Mon) refund(w *World, t *txRec) {
	if t.meta.Fee.IsZero() || len(t.meta.Msgs) != 1 {
		return
	}
	for _, r := range m.Cur.GloParams.GasRefunds {
		if r.Type == sdk.MsgTypeURL(t.meta.Msgs[0]) {
			c := mulDecFloor(t.meta.Fee, r.Fraction)
			if !c.IsZero() {
				m.C.Hit("fee.refunded")
				if t.payer() != t.meta.Signer.Str {
					m.C.Hit("fee.refunded_to_granter")
				}
			}
			w.Send(addrFee(), t.payer(), c)
			return
		}
	}
}

func evictHint(pre, got *Snap) string {
	for p, l := range pre.FundStates {
		for _, f := range l {
			if !has(got.FundStates[p], f) {
				return f
			}
		}
	}
	return ""
}

// digest reads every store completely.
func (m *Mon) digest(ctx sdk.Context) map[string]map[string]string {
	out := map[string]map[string]string{}
	for name, key := range m.N.storeKeys() {
		st := ctx.KVStore(key)
		kv := map[string]string{}
		it := st.Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			kv[string(it.Key())] = string(it.Value())
		}
		it.Close()
		out[name] = kv
	}
	return out
}

// untouched: a failed transaction changed nothing but fee and sequence.
func (m *Mon) untouched(name string, a, b map[string]map[string]string, payers map[string]bool) {
	m.C.Hit("monitor.raw_store_comparisons")
	for st := range a {
		for k := range mergeKeys(a[st], b[st]) {
			if a[st][k] == b[st][k] {
				_, x := a[st][k]
				_, y := b[st][k]
				if x == y {
					continue
				}
			}
			if payers != nil && (st == "acc" || st == "feegrant" || st == "bank") {
				continue // judged by sequence and balances
			}
			m.report(name, []string{"P26"}, fmt.Sprintf("a failed transaction changed store %s key %x from %x to %x", st, k, a[st][k], b[st][k]))
			return
		}
	}
}

// ------------------------------------------------------------ block steps

type govDue struct {
	p     govv1.Proposal
	msgs  []sdk.Msg
	votes []govVote
	deps  []*govv1.Deposit
}

var watched = map[string]bool{"begin/mint": true, "begin/team": true, "begin/bundles": true, "begin/delegation": true, "begin/stakers": true,
	"end/gov": true, "end/pool": true, "end/bundles": true, "end/global": true}

var stepProps = map[string]string{"begin/mint": "P14 P02", "begin/team": "P24", "begin/bundles": "P14", "begin/delegation": "P05 P04", "begin/stakers": "P18 P19",
	"end/gov": "P34", "end/pool": "P21", "end/bundles": "P07 P09 P10 P11 P12 P13", "end/global": "P25"}

func (m *Mon) BeforeModule(ctx sdk.Context, phase, mod string) {
	m.phase = phase + "/" + mod
	if m.Cur == nil {
		m.Start(ctx)
		m.began = true
	}
	if phase == "end" {
		m.settle(ctx)
	}
	if m.upgrade != nil && !m.upgrade.done {
		m.upgraded(ctx)
	}
	if !watched[phase+"/"+mod] {
		return
	}
	if !m.began {
		m.began = true
	}
	// everything since the last watched step belongs to other modules
	got := m.R.Read(ctx, false)
	w := NewWorld(m.Cur, m.L, m.C)
	e := w.Snap.Clone()
	e.Bank, e.Community = got.Bank, got.Community
	m.C.Hit("monitor.foreign_steps")
	if m.diffs("other modules before "+phase+"/"+mod, nil, Compare(e, got), "P02") {
		m.resync(got)
	}
	m.invariants("other modules before "+phase+"/"+mod, nil, got)
	m.Cur = got
	if phase == "end" && mod == "gov" {
		m.govBefore(quietCtx(ctx))
	}
}

func (m *Mon) AfterModule(ctx sdk.Context, phase, mod string, evs []abci.Event) {
	key := phase + "/" + mod
	m.phase = ""
	if !watched[key] {
		return
	}
	got := m.R.Read(ctx, false)
	w := NewWorld(m.Cur, m.L, m.C)
	w.Time, w.Height = got.Time, got.Height
	props := strings.Fields(stepProps[key])
	dust := int64(0)
	switch key {
	case "begin/mint":
		mi, err := m.N.App.MintKeeper.Minter.Get(quietCtx(ctx))
		must(err)
		pa, err := m.N.App.MintKeeper.Params.Get(quietCtx(ctx))
		must(err)
		p := mi.BlockProvision(pa).Amount.Uint64()
		m.provided = p
		w.bMint(p)
		if p > 0 {
			m.C.Hit("mint.block")
		}
	case "begin/team":
		w.bTeam(m.provided)
	case "begin/bundles":
		w.bInflation(m.provided)
	case "begin/delegation":
		w.bUnbonding()
	case "begin/stakers":
		w.bStakers()
	case "end/gov":
		m.govAfter(quietCtx(ctx), w)
		for _, g := range m.govDue {
			for _, x := range g.msgs {
				props = append(props, opProps(x)...)
			}
		}
		m.govDue = nil
	case "end/pool":
		w.bPools()
	case "end/bundles":
		before := map[uint64]string{}
		for _, id := range w.PoolIds() {
			before[id] = w.status(id)
		}
		w.bUpload()
		// P13: nobody is designated in a pool that cannot run.  Slashes and
		// removals in one pool may let another run for a moment.
		moved := len(m.Cur.Totals) != len(got.Totals) || len(m.Cur.Val) != len(got.Val)
		for k, t := range got.Totals {
			moved = moved || m.Cur.Totals[k] != t
		}
		for _, id := range got.PoolIds() {
			if p := got.Props[id]; !moved && p != nil && p.NextUploader != "" && before[id] != "" && got.status(id) != "" {
				m.report(key, []string{"P13"}, fmt.Sprintf("pool %d (%s) has designated uploader %s", id, got.status(id), p.NextUploader))
			}
			m.C.Hit("status." + orRunning(got.status(id)))
			for _, e := range got.edges(id) {
				m.C.Hit("status." + e)
			}
		}
	case "end/global":
		w.bBurn()
	}
	_ = dust
	if !w.ambiguous {
		m.diffs(key, props, diffEvents(w.ev, kyveEvents(evs)))
		m.C.Add("monitor.events_compared", int64(len(w.ev)))
	}
	m.judge(key, props, w, got)
}

func orRunning(s string) string {
	if s == "" {
		return "running"
	}
	return s
}

// storeKeys lists the mounted persistent and memory stores.
func (n *Node) storeKeys() map[string]storetypes.StoreKey {
	out := map[string]storetypes.StoreKey{}
	for _, k := range n.App.GetStoreKeys() {
		switch k.(type) {
		case *storetypes.KVStoreKey, *storetypes.MemoryStoreKey:
			out[k.Name()] = k
		}
	}
	return out
}

var _ = authTypes.ModuleName
