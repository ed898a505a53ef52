package main

// rare.go counts how often the workload reaches states in which something
// unusual holds.  It judges nothing: the counts go into the evidence, and they
// tell which parts of the state space the workload still avoids.

import (
	"cosmossdk.io/math"
)

type rareMem struct {
	gone map[string]map[string]bool // storage id -> people who were absent meanwhile
	was  map[string]string          // circumstances a storage id lived through
}

func (m *Mon) rare() {
	a, b := m.first, m.Cur
	if a == nil || b == nil {
		return
	}
	if m.mem.gone == nil {
		m.mem = rareMem{map[string]map[string]bool{}, map[string]string{}}
	}
	hit := func(c bool, s string) {
		if c {
			m.C.Hit("rare." + s)
		}
	}
	finalized, zero := 0, 0
	for id, p := range b.Pools {
		q := b.Props[id]
		o := a.Pools[id]
		if o != nil && p.TotalBundles > o.TotalBundles {
			finalized++
			x := b.Bundles[PB{id, p.TotalBundles - 1}]
			_, in := b.Val[PS{id, x.Uploader}]
			st := b.Stakers[x.Uploader]
			hit(!in, "finalized_without_uploader")
			hit(in && m.mem.gone[x.StorageId][x.Uploader], "finalized_uploader_rejoined")
			hit(b.Totals[x.Uploader].Amount == 0, "finalized_uploader_without_stake")
			hit(st != nil && st.Commission.Equal(math.LegacyOneDec()), "finalized_full_commission")
			hit(len(m.mem.gone[x.StorageId]) > 0, "finalized_with_departed_voter")
			hit(len(m.mem.was[x.StorageId]) > 0, "finalized_after_pause")
			hit(p.CurrentKey == p.EndKey, "end_key_reached")
			if u := a.Props[id]; u != nil && u.StorageId == x.StorageId {
				hit(len(u.VotersAbstain) > 2, "finalized_with_three_abstentions")
				hit(x.StakeSecurity.ValidVotePower < x.StakeSecurity.TotalVotePower, "finalized_not_unanimously")
			}
		}
		if q == nil {
			continue
		}
		if st := b.status(id); st == "" {
			m.C.Hit("pool.runs")
		} else {
			m.C.Hit("pool.blocked." + st)
		}
		_, next := b.Val[PS{id, q.NextUploader}]
		hit(q.NextUploader != "" && !next, "next_uploader_gone")
		hit(next && b.Val[PS{id, q.NextUploader}].IsLeaving, "next_uploader_leaving")
		mem := b.Members(id)
		none := 0
		same := map[[2]int64]int{}
		for _, x := range mem {
			if n := b.Totals[x].Amount; n > 0 && b.RR[id] != nil {
				same[[2]int64{int64(n), b.RR[id][x]}]++
			}
			if b.Totals[x].Amount == 0 {
				none++
			}
			hit(b.Val[PS{id, x}].Points > b.BunParams.MaxPoints, "points_over_limit")
		}
		tie := false
		for _, n := range same {
			tie = tie || n > 1
		}
		hit(tie, "equal_in_the_rotation")
		hit(tie && q.NextUploader == "", "equal_at_the_start")
		var vp, ip, tp uint64
		for _, x := range mem {
			n := b.Totals[x].Amount
			tp += n
			if has(q.VotersValid, x) {
				vp += n
			}
			if has(q.VotersInvalid, x) {
				ip += n
			}
		}
		hit(vp > 0 && vp*2 == tp, "valid_exactly_half")
		hit(ip > 0 && ip*2 == tp, "invalid_exactly_half")
		zero += none
		hit(none > 1, "two_members_without_stake")
		hit(none > 0 && none == len(mem), "pool_without_stake")
		hit(len(mem) == 1, "single_member")
		hit(len(mem) > 5, "six_members")
		if q.StorageId == "" {
			continue
		}
		if len(mem) == 0 {
			hit(true, "proposal_without_members")
		}
		for _, l := range [][]string{q.VotersValid, q.VotersInvalid, q.VotersAbstain} {
			for _, v := range l {
				if _, ok := b.Val[PS{id, v}]; !ok {
					if m.mem.gone[q.StorageId] == nil {
						m.mem.gone[q.StorageId] = map[string]bool{}
					}
					m.mem.gone[q.StorageId][v] = true
				} else if m.mem.gone[q.StorageId][v] {
					hit(true, "voter_back_in_the_pool")
				}
			}
		}
		hit(m.mem.gone[q.StorageId][q.Uploader], "uploader_gone")
		switch s := b.status(id); s {
		case "":
			hit(m.mem.was[q.StorageId] != "", "proposal_resumes")
		default:
			m.mem.was[q.StorageId] = s
			hit(true, "proposal_while_"+s)
		}
		hit(q.BundleSize == p.MaxBundleSize, "largest_bundle")
		hit(q.BundleSize > p.MaxBundleSize, "bundle_above_new_limit")
		hit(len(q.VotersAbstain) > 0 && len(q.VotersInvalid) > 0, "all_kinds_of_votes")
		up := b.Totals[q.Uploader].Amount
		hit(up == 0, "uploader_without_stake")
	}
	hit(zero > 0, "member_without_stake")
	hit(finalized > 1, "two_pools_finalized")
	dead, tiny := 0, 0
	for _, x := range b.Stake {
		if x == 0 {
			dead++
		} else if x < 10 {
			tiny++
		}
	}
	hit(dead > 0, "delegator_without_stake")
	hit(tiny > 0, "delegator_with_dust")
	byWho, byCreation := map[SD]int{}, map[uint64]int{}
	for _, e := range b.UndelQ {
		byWho[SD{e.Staker, e.Delegator}]++
		byCreation[e.CreationTime]++
		hit(b.Stake[SD{e.Staker, e.Delegator}] < e.Amount, "undelegation_above_stake")
	}
	for _, n := range byWho {
		hit(n > 1, "two_undelegations_of_one")
	}
	for _, n := range byCreation {
		hit(n > 2, "three_undelegations_at_once")
	}
	leaving := map[string]int{}
	for _, e := range b.LeaveQ {
		leaving[e.Staker]++
	}
	for s, n := range leaving {
		hit(n > 1, "leaving_two_pools")
		for _, e := range b.ComQ {
			hit(e.Staker == s, "leaving_with_new_commission")
		}
	}
	hit(len(b.ComQ) > 2, "three_commission_changes")
	ok := map[string]bool{}
	for _, e := range b.FunParams.CoinWhitelist {
		ok[e.CoinDenom] = true
	}
	for k, f := range b.Fundings {
		act := has(b.FundStates[k.Pool], k.Funder)
		listed := 0
		for _, c := range f.Amounts {
			if ok[c.Denom] {
				listed++
			} else {
				hit(act, "active_unlisted_coin")
			}
			pb := f.AmountsPerBundle.AmountOf(c.Denom)
			hit(pb.GT(c.Amount), "last_bundle_of_a_coin")
		}
		hit(act && listed == 0, "active_without_listed_coin")
		hit(act && len(f.Amounts) > 2, "three_coins")
		hit(!act && !f.TotalFunded.IsZero(), "was_active")
		if p := b.Pools[k.Pool]; p != nil {
			hit(act && p.Disabled, "funded_disabled_pool")
		}
	}
	for _, p := range b.Pools {
		hit(p.UpgradePlan.ScheduledAt > 0 && p.Disabled, "upgrade_of_disabled")
		hit(p.UpgradePlan.ScheduledAt > 0 && p.EndKey != "" && p.EndKey == p.CurrentKey, "upgrade_of_finished")
	}
	for _, t := range b.TeamAccs {
		hit(t.Clawback > 0 && t.UnlockedClaimed > 0, "clawback_after_claim")
		hit(t.Clawback > 0 && t.UnlockedClaimed == vestingMax(t), "clawed_back_and_done")
		hit(t.Commencement > uint64(b.Time), "vesting_in_the_future")
	}
}
