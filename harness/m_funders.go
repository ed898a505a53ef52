package main

// m_funders.go: funders and fundings.

import (
	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	fundersTypes "github.com/KYVENetwork/chain/x/funders/types"
)

func (w *World) mCreateFunder(m *fundersTypes.MsgCreateFunder) error {
	if m.Moniker == "" || w.Funders[m.Creator] != nil {
		return rejectf("not allowed")
	}
	w.Funders[m.Creator] = &fundersTypes.Funder{Address: m.Creator, Moniker: m.Moniker, Identity: m.Identity, Website: m.Website, Contact: m.Contact, Description: m.Description}
	w.emit(&fundersTypes.EventCreateFunder{Address: m.Creator, Moniker: m.Moniker, Identity: m.Identity, Website: m.Website, Contact: m.Contact, Description: m.Description})
	return nil
}

func (w *World) mUpdateFunder(m *fundersTypes.MsgUpdateFunder) error {
	if m.Moniker == "" || w.Funders[m.Creator] == nil {
		return rejectf("not allowed")
	}
	w.Funders[m.Creator] = &fundersTypes.Funder{Address: m.Creator, Moniker: m.Moniker, Identity: m.Identity, Website: m.Website, Contact: m.Contact, Description: m.Description}
	w.emit(&fundersTypes.EventUpdateFunder{Address: m.Creator, Moniker: m.Moniker, Identity: m.Identity, Website: m.Website, Contact: m.Contact, Description: m.Description})
	return nil
}

// score is the sum of floor(weight * amount / 10^decimals).
func (w *World) score(c sdk.Coins) *big.Int {
	wl := w.whitelist()
	s := new(big.Int)
	for _, x := range c {
		e := wl[x.Denom]
		if e == nil {
			continue
		}
		n := new(big.Int).Mul(e.CoinWeight.BigInt(), x.Amount.BigInt())
		d := new(big.Int).Mul(fx18, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(e.CoinDecimals)), nil))
		s.Add(s, n.Quo(n, d))
	}
	return s
}

// admissible judges the resulting funding and drops agreements without funds.
func (w *World) admissible(f *fundersTypes.Funding) error {
	wl := w.whitelist()
	var pb sdk.Coins
	for _, c := range f.AmountsPerBundle {
		if f.Amounts.AmountOf(c.Denom).IsPositive() {
			pb = append(pb, c)
		}
	}
	f.AmountsPerBundle = pb
	for _, c := range f.Amounts {
		p := pb.AmountOf(c.Denom)
		e := wl[c.Denom]
		switch {
		case !p.IsPositive():
			return rejectf("no amount per bundle")
		case e == nil:
			w.C.Hit("fund.not_whitelisted")
			return rejectf("not whitelisted")
		case e.MinFundingAmount.GT(c.Amount):
			w.C.Hit("fund.below_minimum")
			return rejectf("below minimum amount")
		case e.MinFundingAmountPerBundle.GT(p):
			w.C.Hit("fund.below_minimum_per_bundle")
			return rejectf("below minimum amount per bundle")
		case p.Mul(math.NewIntFromUint64(w.FunParams.MinFundingMultiple)).GT(c.Amount):
			w.C.Hit("fund.below_multiple")
			return rejectf("below minimum multiple")
		}
	}
	return nil
}

func (w *World) mFundPool(m *fundersTypes.MsgFundPool) error {
	if m.Amounts.Empty() && m.AmountsPerBundle.Empty() {
		return rejectf("empty")
	}
	if (!m.Amounts.Empty() && m.Amounts.Validate() != nil) || (!m.AmountsPerBundle.Empty() && m.AmountsPerBundle.Validate() != nil) {
		return rejectf("coins")
	}
	if w.Funders[m.Creator] == nil || w.Pools[m.PoolId] == nil {
		return rejectf("no such funder or pool")
	}
	act := w.FundStates[m.PoolId]
	k := FP{m.Creator, m.PoolId}
	n := fundersTypes.Funding{FunderAddress: m.Creator, PoolId: m.PoolId, Amounts: m.Amounts, AmountsPerBundle: m.AmountsPerBundle}
	if old := w.Fundings[k]; old != nil {
		n.Amounts = old.Amounts.Add(m.Amounts...)
		n.TotalFunded = old.TotalFunded
		pb := m.AmountsPerBundle
		for _, c := range old.AmountsPerBundle {
			if !m.AmountsPerBundle.AmountOf(c.Denom).IsPositive() {
				pb = pb.Add(c)
			}
		}
		n.AmountsPerBundle = pb
		w.C.Hit("fund.top_up")
	}
	if err := w.admissible(&n); err != nil {
		return err
	}
	if n.Amounts.Empty() {
		return rejectf("no funds")
	}
	if len(act) >= maxSlots && !has(act, m.Creator) {
		low := ""
		var ls *big.Int
		tie := false
		for _, a := range act {
			s := w.score(w.Fundings[FP{a, m.PoolId}].Amounts)
			if ls == nil || s.Cmp(ls) < 0 {
				low, ls, tie = a, s, false
			} else if s.Cmp(ls) == 0 {
				tie = true
			}
		}
		if w.score(n.Amounts).Cmp(ls) < 0 {
			w.C.Hit("fund.full_rejected")
			return rejectf("funds too low")
		}
		if tie {
			// which of the equally low funders goes is unspecified
			if f := w.evictHint; f != "" && w.score(w.Fundings[FP{f, m.PoolId}].Amounts).Cmp(ls) == 0 {
				low = f
			}
			w.C.Hit("fund.eviction_tie")
		}
		lf, wl := *w.Fundings[FP{low, m.PoolId}], w.whitelist()
		for _, c := range lf.Amounts {
			if wl[c.Denom] == nil {
				w.C.Hit("fund.evicts_unlisted")
			}
		}
		w.Send(addrFunders(), low, lf.Amounts)
		w.emit(&fundersTypes.EventDefundPool{PoolId: m.PoolId, Address: low, Amounts: lf.Amounts.String()})
		lf.Amounts, lf.AmountsPerBundle = nil, nil
		w.Fundings[FP{low, m.PoolId}] = &lf
		act = without(act, low)
		w.C.Hit("fund.evicts")
	}
	if !w.Send(m.Creator, addrFunders(), m.Amounts) {
		return errFunds
	}
	if !has(act, m.Creator) {
		act = insertSorted(act, m.Creator)
	}
	w.FundStates[m.PoolId] = act
	w.Fundings[k] = &n
	w.C.Hit("fund")
	w.emit(&fundersTypes.EventFundPool{PoolId: m.PoolId, Address: m.Creator, Amounts: m.Amounts.String(), AmountsPerBundle: m.AmountsPerBundle.String()})
	return nil
}

func (w *World) mDefundPool(m *fundersTypes.MsgDefundPool) error {
	if m.Amounts.Empty() || m.Amounts.Validate() != nil {
		return rejectf("coins")
	}
	f := w.Fundings[FP{m.Creator, m.PoolId}]
	if f == nil {
		return rejectf("no funding")
	}
	var back sdk.Coins
	for _, c := range f.Amounts {
		if x := math.MinInt(c.Amount, m.Amounts.AmountOf(c.Denom)); x.IsPositive() {
			back = append(back, sdk.NewCoin(c.Denom, x))
		}
	}
	if len(back) == 0 {
		return rejectf("nothing to defund")
	}
	n := *f
	n.Amounts = f.Amounts.Sub(back...)
	if err := w.admissible(&n); err != nil {
		return err
	}
	if isBlocked(m.Creator) || !w.Send(addrFunders(), m.Creator, back) {
		return rejectf("cannot pay back")
	}
	w.Fundings[FP{m.Creator, m.PoolId}] = &n
	if n.Amounts.IsZero() {
		w.FundStates[m.PoolId] = without(w.FundStates[m.PoolId], m.Creator)
		w.C.Hit("defund.all")
		if len(m.Amounts) > len(back) {
			w.C.Hit("defund.all_naming_more")
		}
	} else {
		w.C.Hit("defund.part")
	}
	w.emit(&fundersTypes.EventDefundPool{PoolId: m.PoolId, Address: m.Creator, Amounts: back.String()})
	return nil
}

func insertSorted(l []string, x string) []string {
	var r []string
	done := false
	for _, y := range l {
		if !done && x < y {
			r = append(r, x)
			done = true
		}
		r = append(r, y)
	}
	if !done {
		r = append(r, x)
	}
	return r
}
