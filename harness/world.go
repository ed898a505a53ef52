package main

// world.go: the predicted state.  A World starts as a copy of an observed
// snapshot plus the exact (rational) ledgers the monitor keeps, and the model
// functions (m_*.go) apply one message or one block phase to it.

import (
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/gogoproto/proto"

	delegationTypes "github.com/KYVENetwork/chain/x/delegation/types"
)

// fx is a fixed point number with 36 decimals.
type fx = *big.Int

var fxOne = new(big.Int).Exp(big.NewInt(10), big.NewInt(36), nil)
var fx18 = new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)
var fx27 = new(big.Int).Exp(big.NewInt(10), big.NewInt(27), nil) // 1e-9

func fxU(u uint64) fx     { return new(big.Int).Mul(new(big.Int).SetUint64(u), fxOne) }
func fxInt(i math.Int) fx { return new(big.Int).Mul(i.BigInt(), fxOne) }
func fxFloor(x fx) math.Int {
	q, _ := new(big.Int).DivMod(x, fxOne, new(big.Int))
	return math.NewIntFromBigInt(q)
}
func fxAdd(a, b fx) fx { return new(big.Int).Add(a, b) }
func fxSub(a, b fx) fx { return new(big.Int).Sub(a, b) }

// fxMulDiv returns a*b/c.
func fxMulDiv(a, b, c *big.Int) fx {
	t := new(big.Int).Mul(a, b)
	return t.Quo(t, c)
}

// Cov counts what the monitors observed.
type Cov struct {
	N map[string]int64
}

func NewCov() *Cov                   { return &Cov{N: map[string]int64{}} }
func (c *Cov) Hit(k string)          { c.N[k]++ }
func (c *Cov) Add(k string, n int64) { c.N[k] += n }

// Ledger is the exact continuation of lazily evaluated quantities.
type Ledger struct {
	xs map[SD]fx            // exact stake
	xr map[SD]map[string]fx // exact credited rewards
	xe map[SD]fx            // accumulated rounding allowance of xr
	// res: rewards per denom that no delegator is entitled to, because the
	// rounding of slashes left the total above the sum of the stakes
	res map[string]fx
	xu  map[SD]bool // the fraction of xs is unknown
}

func NewLedger() *Ledger {
	return &Ledger{xs: map[SD]fx{}, xr: map[SD]map[string]fx{}, xe: map[SD]fx{}, res: map[string]fx{}, xu: map[SD]bool{}}
}

func (l *Ledger) Clone() *Ledger { return &Ledger{cp(l.xs), cp(l.xr), cp(l.xe), cp(l.res), cp(l.xu)} }

type World struct {
	*Snap
	*Ledger
	ev        []string // expected typed events, canonical
	evictHint string   // the one actually evicted among equally low funders
	C         *Cov
	// lenient: stakes or rewards whose integer reading was ambiguous and
	// then entered further computations of this step
	ambiguous bool
	// finding names a recorded defect the prediction accounts for
	finding string
}

func NewWorld(s *Snap, l *Ledger, c *Cov) *World {
	return &World{Snap: s.Clone(), Ledger: l.Clone(), C: c}
}

func (w *World) Fork() *World {
	return &World{Snap: w.Snap.Clone(), Ledger: w.Ledger.Clone(), C: w.C, ev: append([]string{}, w.ev...), evictHint: w.evictHint, ambiguous: w.ambiguous, finding: w.finding}
}

// take replaces w's content by o's.
func (w *World) take(o *World) {
	w.Snap, w.Ledger, w.ev, w.ambiguous, w.finding = o.Snap, o.Ledger, o.ev, o.ambiguous, o.finding
}

func canonEvent(e abci.Event) string {
	var as []string
	for _, a := range e.Attributes {
		if a.Key == "msg_index" || a.Key == "mode" || a.Key == "authz_msg_index" {
			continue
		}
		as = append(as, a.Key+"="+a.Value)
	}
	sort.Strings(as)
	return e.Type + "{" + strings.Join(as, ", ") + "}"
}

func (w *World) emit(m proto.Message) {
	e, err := sdk.TypedEventToEvent(m)
	must(err)
	w.ev = append(w.ev, canonEvent(abci.Event(e)))
	w.C.Hit("event." + e.Type)
}

func kyveEvents(evs []abci.Event) []string {
	var l []string
	for _, e := range evs {
		if strings.HasPrefix(e.Type, "kyve.") {
			l = append(l, canonEvent(e))
		}
	}
	return l
}

// diffEvents compares multisets.
func diffEvents(want, got []string) []Diff {
	n := map[string]int{}
	for _, e := range want {
		n[e]++
	}
	for _, e := range got {
		n[e]--
	}
	var d []Diff
	for _, e := range sortedS(n) {
		if n[e] > 0 {
			d = append(d, Diff{"event", e[:strings.Index(e, "{")], fmt.Sprintf("%d more: %s", n[e], e), "missing"})
		} else if n[e] < 0 {
			d = append(d, Diff{"event", e[:strings.Index(e, "{")], "not emitted", fmt.Sprintf("%d more: %s", -n[e], e)})
		}
	}
	return d
}

// errUnmodelled: the model makes no prediction for this message.
var errUnmodelled = errors.New("unmodelled")

func rejectf(f string, a ...any) error { return fmt.Errorf(f, a...) }

var errFunds = errors.New("insufficient funds")

func tkyve(amount uint64) sdk.Coins {
	return sdk.NewCoins(sdk.NewCoin(Denom, math.NewIntFromUint64(amount)))
}

// sendU models the uint64 transfer helpers.
func (w *World) sendU(from, to string, amount uint64) error {
	if amount > 1<<63-1 {
		return rejectf("amount overflows")
	}
	if !w.Send(from, to, tkyve(amount)) {
		return errFunds
	}
	return nil
}

var (
	addrDelegation = func() string { return modAddr("delegation") }
	addrStakers    = func() string { return modAddr("stakers") }
	addrFunders    = func() string { return modAddr("funders") }
	addrPool       = func() string { return modAddr("pool") }
	addrTeam       = func() string { return modAddr("team") }
	addrGov        = func() string { return modAddr("gov") }
	addrFee        = func() string { return modAddr("fee_collector") }
	addrMint       = func() string { return modAddr("mint") }
	addrDist       = func() string { return modAddr("distribution") }
)

var blocked map[string]bool

func isBlocked(a string) bool {
	if blocked == nil {
		blocked = map[string]bool{}
		for _, m := range []string{"fee_collector", "distribution", "mint", "bonded_tokens_pool", "not_bonded_tokens_pool", "transfer", "bundles", "delegation", "pool", "stakers", "team", "funders"} {
			blocked[modAddr(m)] = true
		}
	}
	return blocked[a]
}

// ------------------------------------------------------------ delegation

func (w *World) withdraw(staker, del string) (sdk.Coins, error) {
	k := SD{staker, del}
	var coins sdk.Coins
	if _, ok := w.Stake[k]; ok {
		coins = w.Rew[k]
		if isBlocked(del) {
			return nil, rejectf("blocked recipient")
		}
		if !w.Send(addrDelegation(), del, coins) {
			return nil, rejectf("escrow cannot pay rewards")
		}
		// ambiguous integer reading: the exact value is within rounding of
		// the next integer
		for dn, x := range w.xr[k] {
			if fxFloor(fxAdd(x, fx27)).GT(coins.AmountOf(dn)) {
				w.ambiguous = true
			}
		}
		w.Rew[k] = sdk.NewCoins()
		w.xr[k] = map[string]fx{}
		w.xe[k] = new(big.Int)
		w.xs[k] = fxU(w.Stake[k])
		delete(w.xu, k)
		w.C.Hit("monitor.dust")
		delete(w.tolStake, k)
		if !coins.IsZero() {
			w.C.Hit("withdraw.paid")
			if len(coins) > 1 {
				w.C.Hit("withdraw.multicoin")
			}
		}
	}
	w.emit(&delegationTypes.EventWithdrawRewards{Address: del, Staker: staker, Amounts: coins.String()})
	return coins, nil
}

func (w *World) dropDelegator(staker, del string) uint64 {
	k := SD{staker, del}
	s, ok := w.Stake[k]
	if !ok {
		return 0
	}
	w.C.Hit("monitor.dust")
	t := w.Totals[staker]
	t.Amount -= s
	t.Count--
	if t.Count == 0 {
		t.Amount = 0
	}
	w.Totals[staker] = t
	delete(w.Stake, k)
	delete(w.Rew, k)
	delete(w.xs, k)
	delete(w.xu, k)
	delete(w.xr, k)
	delete(w.xe, k)
	return s
}

func (w *World) createDelegator(staker, del string, amount uint64) {
	if amount == 0 {
		return
	}
	k := SD{staker, del}
	t := w.Totals[staker]
	t.Amount += amount
	t.Count++
	w.Totals[staker] = t
	w.Stake[k] = amount
	w.Rew[k] = sdk.NewCoins()
	w.xs[k] = fxU(amount)
	w.xr[k] = map[string]fx{}
	w.xe[k] = new(big.Int)
}

func (w *World) performDelegation(staker, del string, amount uint64) error {
	if _, ok := w.Stake[SD{staker, del}]; ok {
		if _, err := w.withdraw(staker, del); err != nil {
			return err
		}
		s := w.dropDelegator(staker, del)
		w.createDelegator(staker, del, s+amount)
	} else {
		w.createDelegator(staker, del, amount)
	}
	return nil
}

func (w *World) performUndelegation(staker, del string, amount uint64) (uint64, error) {
	if _, err := w.withdraw(staker, del); err != nil {
		return 0, err
	}
	s := w.dropDelegator(staker, del)
	if s > amount {
		w.createDelegator(staker, del, s-amount)
		return amount, nil
	}
	return s, nil
}

// credit distributes coins over the delegators of staker.
func (w *World) credit(staker, payer string, c sdk.Coins) error {
	if c.Empty() {
		return nil
	}
	t, ok := w.Totals[staker]
	if !ok {
		return rejectf("no delegation data")
	}
	if !w.Send(payer, addrDelegation(), c) {
		return errFunds
	}
	w.C.Hit("credit")
	if t.Amount == 0 {
		return nil
	}
	n := 0
	T := new(big.Int).SetUint64(t.Amount)
	sum := new(big.Int)
	for _, d := range w.Delegators(staker) {
		sum.Add(sum, orZero(w.xs[SD{staker, d}]))
	}
	if over := fxSub(fxU(t.Amount), sum); over.Sign() > 0 {
		for _, x := range c {
			w.res[x.Denom] = fxAdd(orZero(w.res[x.Denom]), fxMulDiv(over, x.Amount.BigInt(), T))
		}
	}
	for _, d := range w.Delegators(staker) {
		k := SD{staker, d}
		m := cp(w.xr[k])
		if m == nil {
			m = map[string]fx{}
		}
		e := new(big.Int).Set(orZero(w.xe[k]))
		for _, x := range c {
			old := orZero(m[x.Denom])
			m[x.Denom] = fxAdd(old, fxMulDiv(w.xs[k], x.Amount.BigInt(), T))
			// (stake + 4*R/T + 2) * 2e-18
			u := new(big.Int).Quo(w.xs[k], fxOne)
			u.Add(u, big.NewInt(2))
			q := new(big.Int).Quo(x.Amount.BigInt(), T)
			u.Add(u, q.Mul(q, big.NewInt(4)))
			u.Mul(u, fx18)
			e.Add(e, u.Mul(u, big.NewInt(2)))
		}
		w.xr[k] = m
		w.xe[k] = e
		n++
	}
	w.C.Add("credit.delegators", int64(n))
	return nil
}

func orZero(x *big.Int) *big.Int {
	if x == nil {
		return new(big.Int)
	}
	return x
}

func (w *World) slash(pool uint64, staker string, ty delegationTypes.SlashType) {
	t, ok := w.Totals[staker]
	if !ok {
		return
	}
	f := math.LegacyZeroDec()
	switch ty {
	case delegationTypes.SLASH_TYPE_TIMEOUT:
		f = w.DelParams.TimeoutSlash
	case delegationTypes.SLASH_TYPE_VOTE:
		f = w.DelParams.VoteSlash
	case delegationTypes.SLASH_TYPE_UPLOAD:
		f = w.DelParams.UploadSlash
	}
	amount := math.LegacyNewDec(int64(t.Amount)).Mul(f).TruncateInt().Uint64()
	t.Amount -= amount
	w.Totals[staker] = t
	w.FundCommunity(addrDelegation(), tkyve(amount))
	fb := f.BigInt() // scale 1e18
	inv := new(big.Int).Sub(fx18, fb)
	for _, d := range w.Delegators(staker) {
		k := SD{staker, d}
		x := fxMulDiv(w.xs[k], inv, fx18)
		w.xs[k] = x
		lo := fxFloor(fxSub(x, big.NewInt(1000)))
		hi := fxFloor(fxAdd(x, fx27))
		w.Stake[k] = fxFloor(x).Uint64()
		if !lo.Equal(hi) || w.xu[k] {
			if w.tolStake == nil {
				w.tolStake = map[SD]uint64{}
			}
			w.tolStake[k] = 1
			w.C.Hit("slash.ambiguous")
		}
		e := new(big.Int).Set(orZero(w.xe[k]))
		w.xe[k] = e.Add(e, new(big.Int).Mul(fx18, big.NewInt(4)))
	}
	w.C.Add("monitor.dust", int64(t.Count)+1)
	w.C.Hit("slash." + ty.String())
	if amount > 0 {
		w.C.Hit("slash.nonzero")
	}
	w.emit(&delegationTypes.EventSlash{PoolId: pool, Staker: staker, Amount: amount, SlashType: ty})
}

func (w *World) mDelegate(m *delegationTypes.MsgDelegate) error {
	if w.Stakers[m.Staker] == nil {
		return rejectf("no staker")
	}
	if err := w.performDelegation(m.Staker, m.Creator, m.Amount); err != nil {
		return err
	}
	if err := w.sendU(m.Creator, addrDelegation(), m.Amount); err != nil {
		return err
	}
	w.emit(&delegationTypes.EventDelegate{Address: m.Creator, Staker: m.Staker, Amount: m.Amount})
	return nil
}

func (w *World) mUndelegate(m *delegationTypes.MsgUndelegate) error {
	if m.Amount > w.Stake[SD{m.Staker, m.Creator}] {
		return rejectf("not enough delegation")
	}
	w.UndelState.HighIndex++
	i := w.UndelState.HighIndex
	w.UndelQ[i] = &delegationTypes.UndelegationQueueEntry{Index: i, Staker: m.Staker, Delegator: m.Creator, Amount: m.Amount, CreationTime: uint64(w.Time)}
	w.emit(&delegationTypes.EventStartUndelegation{Address: m.Creator, Staker: m.Staker, Amount: m.Amount,
		EstimatedUndelegationDate: uint64(w.Time) + w.DelParams.UnbondingDelegationTime})
	return nil
}

func (w *World) mWithdraw(m *delegationTypes.MsgWithdrawRewards) error {
	if _, ok := w.Stake[SD{m.Staker, m.Creator}]; !ok {
		return rejectf("not a delegator")
	}
	_, err := w.withdraw(m.Staker, m.Creator)
	return err
}

func (w *World) redelDates(a string) []uint64 {
	var l []uint64
	for k := range w.Redel {
		if k.Addr == a {
			l = append(l, k.Date)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func (w *World) mRedelegate(m *delegationTypes.MsgRedelegate) error {
	k := SD{m.FromStaker, m.Creator}
	if _, ok := w.Stake[k]; !ok {
		return rejectf("not a delegator")
	}
	if w.Stakers[m.ToStaker] == nil {
		return rejectf("no such staker")
	}
	if len(w.PoolsOf(m.ToStaker)) == 0 {
		return rejectf("inactive staker")
	}
	if m.Amount > w.Stake[k] {
		return rejectf("not enough delegation")
	}
	used := 0
	for _, d := range w.redelDates(m.Creator) {
		switch w.Time - int64(d) - int64(w.DelParams.RedelegationCooldown) {
		case 0:
			w.C.Hit("redelegate.last_second_of_cooldown")
		case 1:
			w.C.Hit("redelegate.first_second_after_cooldown")
		}
		if w.Time-int64(d) > int64(w.DelParams.RedelegationCooldown) {
			delete(w.Redel, RC{m.Creator, d})
			continue
		}
		used++
		if d == uint64(w.Time) {
			w.C.Hit("redelegate.same_block")
			return rejectf("second redelegation in the same block")
		}
	}
	if uint64(used) >= w.DelParams.RedelegationMaxAmount {
		w.C.Hit("redelegate.limit")
		return rejectf("no slots")
	}
	w.Redel[RC{m.Creator, uint64(w.Time)}] = true
	got, err := w.performUndelegation(m.FromStaker, m.Creator, m.Amount)
	if err != nil {
		return err
	}
	if got != m.Amount {
		return rejectf("short")
	}
	if err := w.performDelegation(m.ToStaker, m.Creator, m.Amount); err != nil {
		return err
	}
	w.emit(&delegationTypes.EventRedelegate{Address: m.Creator, FromStaker: m.FromStaker, ToStaker: m.ToStaker, Amount: m.Amount})
	return nil
}

// bUnbonding is the block step of the unbonding queue.
func (w *World) bUnbonding() {
	for w.UndelState.LowIndex < w.UndelState.HighIndex {
		i := w.UndelState.LowIndex + 1
		e := w.UndelQ[i]
		if e != nil {
			if e.CreationTime+w.DelParams.UnbondingDelegationTime > uint64(w.Time) {
				break
			}
			if w.Time-int64(e.CreationTime) == int64(w.DelParams.UnbondingDelegationTime) {
				w.C.Hit("undelegation.exactly_due")
			}
			got, err := w.performUndelegation(e.Staker, e.Delegator, e.Amount)
			if err != nil || !w.Send(addrDelegation(), e.Delegator, tkyve(got)) {
				w.C.Hit("model.unbonding_unpayable")
			}
			w.C.Hit("undelegation.executed")
			if got < e.Amount {
				w.C.Hit("undelegation.reduced")
			}
			w.emit(&delegationTypes.EventUndelegate{Address: e.Delegator, Staker: e.Staker, Amount: got})
			delete(w.UndelQ, i)
		}
		w.UndelState.LowIndex = i
	}
}
