package main

// m_team.go: vesting of team accounts and the block steps that distribute
// minted coins (mint, team, inflation split, burning).

import (
	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	teamTypes "github.com/KYVENetwork/chain/x/team/types"
)

const year = uint64(365 * 24 * 3600)

func truncMulDiv(a, b, c uint64) uint64 {
	q := new(big.Int).Mul(new(big.Int).SetUint64(a), new(big.Int).SetUint64(b))
	q.Quo(q, new(big.Int).SetUint64(c))
	return q.Uint64()
}

// vested is the part of the allocation vested at t.
func vested(a *teamTypes.TeamVestingAccount, t uint64) uint64 {
	if a.Clawback > 0 && t > a.Clawback {
		t = a.Clawback
	}
	if t < a.Commencement+year {
		return 0
	}
	if d := t - a.Commencement; d < 3*year {
		return truncMulDiv(a.TotalAllocation, d, 3*year)
	}
	return a.TotalAllocation
}

func vestingMax(a *teamTypes.TeamVestingAccount) uint64 { return vested(a, a.Commencement+3*year) }

// unlocked is the part of the vested coins that may be claimed at t.
func unlocked(a *teamTypes.TeamVestingAccount, t uint64) uint64 {
	ref := a.Commencement
	if ref < teamTypes.TGE {
		ref = teamTypes.TGE
	}
	ref += year
	switch {
	case t < ref:
		return 0
	case t-ref < 2*year:
		return truncMulDiv(vested(a, t), t-ref, 2*year)
	}
	return vestingMax(a)
}

func (s *Snap) issued() (n uint64) {
	for _, a := range s.TeamAccs {
		n += vestingMax(a)
	}
	return
}

func teamAuthority(a string) error {
	if a != teamTypes.FOUNDATION_ADDRESS && a != teamTypes.BCP_ADDRESS {
		return rejectf("not a team authority")
	}
	return nil
}

func (w *World) mCreateTeam(m *teamTypes.MsgCreateTeamVestingAccount) error {
	if err := teamAuthority(m.Authority); err != nil {
		return err
	}
	if m.TotalAllocation == 0 || m.Commencement == 0 {
		return rejectf("arguments")
	}
	if i := w.issued(); i > teamTypes.TEAM_ALLOCATION || m.TotalAllocation > teamTypes.TEAM_ALLOCATION-i {
		w.C.Hit("team.allocation_exceeded")
		return rejectf("allocation exceeded")
	}
	id := w.TeamCount
	w.TeamCount++
	w.TeamAccs[id] = &teamTypes.TeamVestingAccount{Id: id, TotalAllocation: m.TotalAllocation, Commencement: m.Commencement}
	w.C.Hit("team.created")
	w.emit(&teamTypes.EventCreateTeamVestingAccount{Authority: m.Authority, Id: id, TotalAllocation: m.TotalAllocation, Commencement: m.Commencement})
	return nil
}

func (w *World) mClawback(m *teamTypes.MsgClawback) error {
	if err := teamAuthority(m.Authority); err != nil {
		return err
	}
	a := w.TeamAccs[m.Id]
	if a == nil {
		return rejectf("no account")
	}
	if m.Clawback > 0 && (m.Clawback < a.Commencement || m.Clawback < a.LastClaimedTime) {
		w.C.Hit("team.clawback_too_early")
		return rejectf("too early")
	}
	n := *a
	n.Clawback = m.Clawback
	if x, y := vestingMax(&n), vestingMax(a); x > y {
		if i := w.issued(); i > teamTypes.TEAM_ALLOCATION || x-y > teamTypes.TEAM_ALLOCATION-i {
			w.C.Hit("team.clawback_reset_exceeds")
			return rejectf("allocation exceeded")
		}
	}
	w.TeamAccs[m.Id] = &n
	w.C.Hit("team.clawback")
	w.emit(&teamTypes.EventClawback{Authority: m.Authority, Id: m.Id, Clawback: m.Clawback, Amount: n.TotalAllocation - vestingMax(&n)})
	return nil
}

func (w *World) teamPay(to string, amount uint64) error {
	if !validAddr(to) || isBlocked(to) {
		return rejectf("recipient")
	}
	return w.sendU(addrTeam(), to, amount)
}

func (w *World) mClaimUnlocked(m *teamTypes.MsgClaimUnlocked) error {
	if err := teamAuthority(m.Authority); err != nil {
		return err
	}
	a := w.TeamAccs[m.Id]
	if a == nil {
		return rejectf("no account")
	}
	u := unlocked(a, uint64(w.Time))
	if u < a.UnlockedClaimed || m.Amount > u-a.UnlockedClaimed {
		w.C.Hit("team.claim_too_much")
		return rejectf("not unlocked")
	}
	if err := w.teamPay(m.Recipient, m.Amount); err != nil {
		return err
	}
	n := *a
	n.UnlockedClaimed += m.Amount
	n.LastClaimedTime = uint64(w.Time)
	w.TeamAccs[m.Id] = &n
	w.C.Hit("team.claimed_unlocked")
	w.emit(&teamTypes.EventClaimedUnlocked{Authority: m.Authority, Id: m.Id, Amount: m.Amount, Recipient: m.Recipient})
	return nil
}

func (w *World) mClaimAccountRewards(m *teamTypes.MsgClaimAccountRewards) error {
	if err := teamAuthority(m.Authority); err != nil {
		return err
	}
	a := w.TeamAccs[m.Id]
	if a == nil {
		return rejectf("no account")
	}
	if m.Amount > a.TotalRewards-a.RewardsClaimed {
		return rejectf("too much")
	}
	if err := w.teamPay(m.Recipient, m.Amount); err != nil {
		return err
	}
	n := *a
	n.RewardsClaimed += m.Amount
	w.TeamAccs[m.Id] = &n
	w.C.Hit("team.claimed_account_rewards")
	w.emit(&teamTypes.EventClaimInflationRewards{Authority: m.Authority, Id: m.Id, Amount: m.Amount, Recipient: m.Recipient})
	return nil
}

func (w *World) mClaimAuthorityRewards(m *teamTypes.MsgClaimAuthorityRewards) error {
	if m.Authority != teamTypes.FOUNDATION_ADDRESS {
		return rejectf("not the foundation")
	}
	if m.Amount > w.TeamAuth.TotalRewards-w.TeamAuth.RewardsClaimed {
		return rejectf("too much")
	}
	if err := w.teamPay(m.Recipient, m.Amount); err != nil {
		return err
	}
	w.TeamAuth.RewardsClaimed += m.Amount
	w.C.Hit("team.claimed_authority_rewards")
	w.emit(&teamTypes.EventClaimAuthorityRewards{Authority: m.Authority, Amount: m.Amount, Recipient: m.Recipient})
	return nil
}

// ------------------------------------------------------------ block steps

func (s *Snap) teamOwed() uint64 {
	n := teamTypes.TEAM_ALLOCATION + s.TeamAuth.TotalRewards - s.TeamAuth.RewardsClaimed
	for _, a := range s.TeamAccs {
		n += a.TotalRewards - a.RewardsClaimed
		n -= a.UnlockedClaimed
	}
	return n
}

// decShare is trunc(round18(a/b) * c).
func decShare(a, b uint64, c uint64) uint64 {
	d := math.LegacyNewDecFromInt(math.NewIntFromUint64(a)).Quo(math.LegacyNewDecFromInt(math.NewIntFromUint64(b)))
	return d.MulInt(math.NewIntFromUint64(c)).TruncateInt().Uint64()
}

func (s *Snap) teamProvision(p uint64) uint64 {
	supply := s.Supply[Denom].Uint64() - p
	return decShare(s.teamOwed(), supply, p)
}

// bMint adds the block provision p.
func (w *World) bMint(p uint64) {
	w.add(addrFee(), Denom, math.NewIntFromUint64(p))
	w.Supply[Denom] = w.Supply[Denom].Add(math.NewIntFromUint64(p))
}

// bTeam splits the team share of provision p.
func (w *World) bTeam(p uint64) {
	prov := w.teamProvision(p)
	rest := prov
	now := uint64(w.Time)
	for id, a := range w.TeamAccs {
		n := *a
		v := vested(a, now)
		if v >= a.UnlockedClaimed {
			x := decShare(v-a.UnlockedClaimed, teamTypes.TEAM_ALLOCATION, prov)
			n.TotalRewards += x
			rest -= x
			if x > 0 {
				w.C.Hit("team.account_rewarded")
			}
		} else {
			w.C.Hit("team.vested_below_claimed")
		}
		w.TeamAccs[id] = &n
	}
	if prov > 0 {
		w.C.Hit("team.provision")
	}
	w.TeamAuth.TotalRewards += rest
	w.Send(addrFee(), addrTeam(), tkyve(prov))
}

// bInflation gives the runnable pools their share of provision p.
func (w *World) bInflation(p uint64) {
	rem := p - w.teamProvision(p)
	prot := w.PoolParams.ProtocolInflationShare.MulInt(math.NewIntFromUint64(rem)).TruncateInt()
	if prot.IsZero() {
		return
	}
	total := math.LegacyZeroDec()
	var run []uint64
	for _, id := range w.PoolIds() {
		if w.status(id) == "" {
			total = total.Add(w.Pools[id].InflationShareWeight)
			run = append(run, id)
		} else {
			w.C.Hit("inflation.pool_excluded")
		}
	}
	if total.IsZero() {
		w.C.Hit("inflation.no_runnable_pool")
		return
	}
	for _, id := range run {
		x := w.Pools[id].InflationShareWeight.Quo(total).MulInt(prot).TruncateInt()
		w.Send(addrFee(), poolAcc(id), sdk.NewCoins(sdk.NewCoin(Denom, x)))
		if x.IsPositive() {
			w.C.Hit("inflation.pool_share")
		}
	}
	if len(run) > 1 {
		w.C.Hit("inflation.split_among_pools")
	}
}

// bBurn burns the configured share of collected fees.
func (w *World) bBurn() {
	if w.Height <= 1 {
		return
	}
	for k, v := range w.Bank {
		if k.Addr != addrFee() {
			continue
		}
		x := w.GloParams.BurnRatio.MulInt(v).TruncateInt()
		if x.IsPositive() {
			w.add(k.Addr, k.Denom, x.Neg())
			w.Supply[k.Denom] = w.Supply[k.Denom].Sub(x)
			w.C.Hit("burn")
		}
	}
}
