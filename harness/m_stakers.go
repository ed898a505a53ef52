package main

import (
	"encoding/hex"
	"math"
	"strings"

	sdkmath "cosmossdk.io/math"
	stakersTypes "github.com/KYVENetwork/chain/x/stakers/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

const maxSlots = 50

func validAddr(a string) bool {
	_, err := sdk.AccAddressFromBech32(a)
	return err == nil
}

func validPct(d sdkmath.LegacyDec) bool {
	return !d.IsNil() && !d.IsNegative() && d.LTE(sdkmath.LegacyOneDec())
}

func validPos(d sdkmath.LegacyDec) bool { return !d.IsNil() && !d.IsNegative() }

func validIdentity(s string) bool {
	if s == "" {
		return true
	}
	b, err := hex.DecodeString(s)
	return err == nil && len(b) == 8
}

func (w *World) member(pool uint64, staker string) *stakersTypes.Valaccount {
	return w.Val[PS{pool, staker}]
}

// leave removes a member and everything that belongs to the membership.
func (w *World) leave(pool uint64, staker string) {
	k := PS{pool, staker}
	if w.Val[k] == nil {
		return
	}
	delete(w.Val, k)
	for i, e := range w.LeaveQ {
		if e.PoolId == pool && e.Staker == staker {
			delete(w.LeaveQ, i)
		}
	}
	w.C.Hit("leave")
	w.emit(&stakersTypes.EventLeavePool{PoolId: pool, Staker: staker})
}

func (w *World) mCreateStaker(m *stakersTypes.MsgCreateStaker) error {
	c := m.Commission
	if c.IsNil() {
		c = sdkmath.LegacyMustNewDecFromStr("0.1")
	}
	if !validPct(c) {
		return rejectf("invalid commission")
	}
	if w.Stakers[m.Creator] != nil {
		return rejectf("exists")
	}
	w.Stakers[m.Creator] = &stakersTypes.Staker{Address: m.Creator, Commission: c}
	if err := w.mDelegate(delegateMsg(m.Creator, m.Creator, m.Amount)); err != nil {
		return err
	}
	w.emit(&stakersTypes.EventCreateStaker{Staker: m.Creator, Amount: m.Amount, Commission: c})
	return nil
}

func (w *World) mUpdateMetadata(m *stakersTypes.MsgUpdateMetadata) error {
	s := w.Stakers[m.Creator]
	if s == nil {
		return rejectf("no staker")
	}
	if !validIdentity(m.Identity) {
		return rejectf("identity")
	}
	for _, x := range []string{m.Moniker, m.Website, m.SecurityContact, m.Details} {
		if len(x) > 255 {
			return rejectf("too long")
		}
	}
	n := *s
	n.Moniker, n.Website, n.Identity, n.SecurityContact, n.Details = m.Moniker, m.Website, m.Identity, m.SecurityContact, m.Details
	w.Stakers[m.Creator] = &n
	w.emit(&stakersTypes.EventUpdateMetadata{Staker: m.Creator, Moniker: m.Moniker, Website: m.Website, Identity: m.Identity, SecurityContact: m.SecurityContact, Details: m.Details})
	return nil
}

func (w *World) mUpdateCommission(m *stakersTypes.MsgUpdateCommission) error {
	if !validPct(m.Commission) {
		return rejectf("commission")
	}
	if w.Stakers[m.Creator] == nil {
		return rejectf("no staker")
	}
	for i, e := range w.ComQ {
		if e.Staker == m.Creator {
			delete(w.ComQ, i)
			w.C.Hit("commission.replaced")
		}
	}
	w.ComState.HighIndex++
	i := w.ComState.HighIndex
	w.ComQ[i] = &stakersTypes.CommissionChangeEntry{Index: i, Staker: m.Creator, Commission: m.Commission, CreationDate: w.Time}
	return nil
}

func (w *World) mClaimCommission(m *stakersTypes.MsgClaimCommissionRewards) error {
	if m.Amounts.Empty() || m.Amounts.Validate() != nil {
		return rejectf("amounts")
	}
	s := w.Stakers[m.Creator]
	if s == nil {
		return rejectf("no staker")
	}
	for _, c := range m.Amounts {
		if c.Amount.GT(s.CommissionRewards.AmountOf(c.Denom)) {
			return rejectf("more than credited")
		}
	}
	if isBlocked(m.Creator) {
		return rejectf("blocked")
	}
	if !w.Send(addrStakers(), m.Creator, m.Amounts) {
		return rejectf("escrow cannot pay commission")
	}
	n := *s
	n.CommissionRewards = s.CommissionRewards.Sub(m.Amounts...)
	w.Stakers[m.Creator] = &n
	w.C.Hit("commission.claimed")
	w.emit(&stakersTypes.EventClaimCommissionRewards{Staker: m.Creator, Amounts: m.Amounts.String()})
	return nil
}

func (w *World) creditCommission(staker, payer string, c sdk.Coins) error {
	if c.Empty() {
		return nil
	}
	s := w.Stakers[staker]
	if s == nil {
		return rejectf("no staker")
	}
	if !w.Send(payer, addrStakers(), c) {
		return errFunds
	}
	n := *s
	n.CommissionRewards = s.CommissionRewards.Add(c...)
	w.Stakers[staker] = &n
	return nil
}

// freeStakerSlot makes room in a full pool.
func (w *World) freeStakerSlot(pool uint64, staker string) error {
	ms := w.Members(pool)
	if len(ms) < maxSlots {
		return nil
	}
	low, amt := "", uint64(math.MaxUint64)
	for _, m := range ms {
		if t := w.total(m); t < amt {
			low, amt = m, t
		}
	}
	if w.total(staker) <= amt {
		w.C.Hit("join.full_rejected")
		return rejectf("stake too low")
	}
	w.C.Hit("join.evicts")
	if w.Val[PS{pool, low}].IsLeaving {
		w.C.Hit("join.evicts_a_leaving_one")
	}
	w.leave(pool, low)
	return nil
}

func (w *World) mJoinPool(m *stakersTypes.MsgJoinPool) error {
	if !validAddr(m.Valaddress) {
		return rejectf("valaddress")
	}
	p := w.Pools[m.PoolId]
	if p == nil || p.Disabled {
		return rejectf("no enabled pool")
	}
	if w.Stakers[m.Creator] == nil || strings.EqualFold(m.Creator, m.Valaddress) || w.member(m.PoolId, m.Creator) != nil {
		return rejectf("not allowed")
	}
	if m.Valaddress != strings.ToLower(m.Valaddress) {
		return rejectf("valaddress")
	}
	if err := w.freeStakerSlot(m.PoolId, m.Creator); err != nil {
		return err
	}
	for k, v := range w.Val {
		if v.Valaddress == m.Valaddress && (k.Pool == m.PoolId || k.Staker == m.Creator) {
			w.C.Hit("join.valaddress_taken")
			return rejectf("valaddress used")
		}
	}
	w.Val[PS{m.PoolId, m.Creator}] = &stakersTypes.Valaccount{PoolId: m.PoolId, Staker: m.Creator, Valaddress: m.Valaddress}
	if err := w.sendU(m.Creator, m.Valaddress, m.Amount); err != nil {
		return err
	}
	w.C.Hit("join")
	w.emit(&stakersTypes.EventJoinPool{PoolId: m.PoolId, Staker: m.Creator, Valaddress: m.Valaddress, Amount: m.Amount})
	return nil
}

func (w *World) mLeavePool(m *stakersTypes.MsgLeavePool) error {
	v := w.member(m.PoolId, m.Creator)
	if v == nil {
		return rejectf("not a member")
	}
	for _, e := range w.LeaveQ {
		if e.PoolId == m.PoolId && e.Staker == m.Creator {
			return rejectf("already leaving")
		}
	}
	n := *v
	n.IsLeaving = true
	w.Val[PS{m.PoolId, m.Creator}] = &n
	w.LeaveState.HighIndex++
	i := w.LeaveState.HighIndex
	w.LeaveQ[i] = &stakersTypes.LeavePoolEntry{Index: i, Staker: m.Creator, PoolId: m.PoolId, CreationDate: w.Time}
	return nil
}

// bStakers is the block step of the commission and leave queues.
func (w *World) bStakers() {
	for w.ComState.LowIndex < w.ComState.HighIndex {
		i := w.ComState.LowIndex + 1
		if e := w.ComQ[i]; e != nil {
			due := e.CreationDate + int64(w.StkParams.CommissionChangeTime)
			if due > w.Time {
				break
			}
			if due == w.Time {
				w.C.Hit("commission.exactly_due")
			}
			delete(w.ComQ, i)
			if s := w.Stakers[e.Staker]; s != nil {
				n := *s
				n.Commission = e.Commission
				w.Stakers[e.Staker] = &n
			}
			w.C.Hit("commission.changed")
			w.emit(&stakersTypes.EventUpdateCommission{Staker: e.Staker, Commission: e.Commission})
		}
		w.ComState.LowIndex = i
	}
	for w.LeaveState.LowIndex < w.LeaveState.HighIndex {
		i := w.LeaveState.LowIndex + 1
		if e := w.LeaveQ[i]; e != nil {
			due := e.CreationDate + int64(w.StkParams.LeavePoolTime)
			if due > w.Time {
				break
			}
			if due == w.Time {
				w.C.Hit("leave.exactly_due")
			}
			delete(w.LeaveQ, i)
			w.C.Hit("leave.executed")
			w.leave(e.PoolId, e.Staker)
		}
		w.LeaveState.LowIndex = i
	}
}
