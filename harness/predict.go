package main

// predict.go: what the node predicts about proposing, voting and validating,
// against a trial execution of the message on the same committed state and
// against the reference model.

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	sdk "github.com/cosmos/cosmos-sdk/types"

	bundlesTypes "github.com/KYVENetwork/chain/x/bundles/types"
	qt "github.com/KYVENetwork/chain/x/query/types"
)

// try executes a message on a branch of the state which is thrown away.
func (n *Node) try(ctx sdk.Context, msg sdk.Msg) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	c, _ := ctx.CacheContext()
	_, err = n.App.MsgServiceRouter().Handler(msg)(quietCtx(c), msg)
	return err
}

func sameReason(e error) string {
	if e == nil {
		return "accepted"
	}
	return "rejected: " + e.Error()
}

// predictions judges up to k sampled combinations per pool.
func (m *Mon) predictions(r *rand.Rand, k int) {
	n, s := m.N, m.Cur
	w := &World{Snap: s, Ledger: NewLedger(), C: NewCov()}
	ctx := n.Ctx()
	var bad []string
	fail := func(f string, a ...interface{}) { bad = append(bad, fmt.Sprintf(f, a...)) }
	var everyone []string
	for a := range s.Stakers {
		everyone = append(everyone, a)
	}
	sort.Strings(everyone)
	pick := func(l []string) string {
		if len(l) == 0 {
			return ""
		}
		return l[r.Intn(len(l))]
	}
	ids := append([]uint64{}, s.PoolIds()...)
	ids = append(ids, uint64(len(ids)+3))
	for _, id := range ids {
		members := s.Members(id)
		var vals []string
		for _, a := range members {
			vals = append(vals, s.Val[PS{id, a}].Valaddress)
		}
		p := w.prop(id)
		for i := 0; i < k; i++ {
			// the staker: the designated one, a member or anybody
			staker := p.NextUploader
			switch r.Intn(6) {
			case 0, 1, 2:
				staker = pick(members)
			case 3:
				staker = pick(everyone)
			}
			acc := ""
			if v := w.member(id, staker); v != nil {
				acc = v.Valaddress
			}
			switch r.Intn(8) {
			case 0:
				acc = pick(vals)
			case 1:
				acc = staker
			case 2:
				acc = strings.ToUpper(acc)
			case 3:
				acc = pick(everyone)
			}

			// propose
			from := p.BundleSize
			if pool := s.Pools[id]; pool != nil {
				from += pool.CurrentIndex
			}
			switch r.Intn(10) {
			case 0:
				from++
			case 1:
				from--
			case 2:
				from = 0
			case 3:
				from -= p.BundleSize
			}
			pr := &qt.QueryCanProposeRequest{PoolId: id, Staker: staker, Proposer: acc, FromIndex: from}
			var pa qt.QueryCanProposeResponse
			m.C.Hit("checked")
			if a := n.ask(qp+"QueryBundles/CanPropose", enc(pr)); a.code != 0 {
				fail("CanPropose(%s) is refused: %s", pr, a.log)
			} else if must(pa.Unmarshal(a.raw)); true {
				msg := &bundlesTypes.MsgSubmitBundleProposal{Creator: acc, Staker: staker, PoolId: id, StorageId: "verif-trial", DataSize: 1,
					DataHash: "h", FromIndex: from, BundleSize: 1, FromKey: "a", ToKey: "b", BundleSummary: "s"}
				err := n.try(ctx, msg)
				want := w.canPropose(id, staker, acc, from) == nil
				if want && p.StorageId != "" && w.votes(id).status == bundlesTypes.BUNDLE_STATUS_NO_QUORUM {
					want = false
					m.C.Hit("predict.propose_without_quorum")
				}
				// pools which do not allow any bundle size have no valid bundle
				if pool := s.Pools[id]; want && pool.MaxBundleSize == 0 {
					continue
				}
				m.C.Hit(fmt.Sprintf("predict.propose.%v", pa.Possible))
				if pa.Possible != (err == nil) || pa.Possible != want {
					fail("CanPropose(%s) answers %v %q; executing the submission on the same state is %s; by the rules it is possible: %v", pr, pa.Possible, pa.Reason, sameReason(err), want)
				}
				if !pa.Possible && pa.Reason == "" {
					fail("CanPropose(%s) answers no without a reason", pr)
				}
			}

			// vote
			sid := p.StorageId
			switch r.Intn(8) {
			case 0:
				sid = ""
			case 1:
				sid = "verif-other"
			case 2:
				if sid = strings.ToUpper(sid); sid == p.StorageId {
					sid = strings.ToLower(sid)
				}
			case 3:
				sid += " "
			}
			vr := &qt.QueryCanVoteRequest{PoolId: id, Staker: staker, Voter: acc, StorageId: sid}
			var va qt.QueryCanVoteResponse
			m.C.Hit("checked")
			if a := n.ask(qp+"QueryBundles/CanVote", enc(vr)); a.code != 0 {
				fail("CanVote(%s) is refused: %s", vr, a.log)
			} else {
				must(va.Unmarshal(a.raw))
				err := n.try(ctx, &bundlesTypes.MsgVoteBundleProposal{Creator: acc, Staker: staker, PoolId: id, StorageId: sid, Vote: bundlesTypes.VOTE_TYPE_VALID})
				err2 := n.try(ctx, &bundlesTypes.MsgVoteBundleProposal{Creator: acc, Staker: staker, PoolId: id, StorageId: sid, Vote: bundlesTypes.VOTE_TYPE_INVALID})
				err3 := n.try(ctx, &bundlesTypes.MsgVoteBundleProposal{Creator: acc, Staker: staker, PoolId: id, StorageId: sid, Vote: bundlesTypes.VOTE_TYPE_ABSTAIN})
				want := w.canVote(id, staker, acc, sid) == nil
				m.C.Hit(fmt.Sprintf("predict.vote.%v", va.Possible))
				if va.Possible != (err == nil) || va.Possible != (err2 == nil) || va.Possible != want {
					fail("CanVote(%s) answers %v %q; executing a valid vote on the same state is %s, an invalid vote %s; by the rules it is possible: %v", vr, va.Possible, va.Reason, sameReason(err), sameReason(err2), want)
				}
				abst := va.Possible && va.Reason == ""
				if want && has(p.VotersAbstain, staker) {
					m.C.Hit("predict.vote_after_abstain")
					if va.Reason != "KYVE_VOTE_NO_ABSTAIN_ALLOWED" {
						fail("CanVote(%s) answers %v %q although %s already abstained", vr, va.Possible, va.Reason, staker)
					}
				}
				if abst != (err3 == nil) {
					fail("CanVote(%s) answers %v %q; executing an abstain vote on the same state is %s", vr, va.Possible, va.Reason, sameReason(err3))
				}
				if !va.Possible && va.Reason == "" {
					fail("CanVote(%s) answers no without a reason", vr)
				}
			}

			// validate
			cr := &qt.QueryCanValidateRequest{PoolId: id, Valaddress: acc}
			var ca qt.QueryCanValidateResponse
			m.C.Hit("checked")
			if a := n.ask(qp+"QueryBundles/CanValidate", enc(cr)); a.code != 0 {
				fail("CanValidate(%s) is refused: %s", cr, a.log)
			} else {
				must(ca.Unmarshal(a.raw))
				owner := ""
				for _, x := range members {
					if s.Val[PS{id, x}].Valaddress == acc {
						owner = x
					}
				}
				m.C.Hit(fmt.Sprintf("predict.validate.%v", ca.Possible))
				if ca.Possible != (owner != "") {
					fail("CanValidate(%s) answers %v %q; the account operates for %q", cr, ca.Possible, ca.Reason, owner)
				} else if ca.Possible && ca.Reason != owner {
					fail("CanValidate(%s) names %q; the account operates for %q", cr, ca.Reason, owner)
				} else if ca.Reason == "" {
					fail("CanValidate(%s) answers no without a reason", cr)
				}
			}
		}
	}
	if len(bad) > 0 {
		m.report("predictions", []string{"P31"}, bad...)
	}
}
