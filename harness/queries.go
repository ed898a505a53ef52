package main

// queries.go: every query of the protocol with the answer it has to give,
// computed from the decoded raw stores.  Used after committed blocks (P30),
// for concurrent readers (P32), and as a digest of a node's answers (P28/P29).

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"

	bundlesTypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationTypes "github.com/KYVENetwork/chain/x/delegation/types"
	fundersTypes "github.com/KYVENetwork/chain/x/funders/types"
	globalTypes "github.com/KYVENetwork/chain/x/global/types"
	poolTypes "github.com/KYVENetwork/chain/x/pool/types"
	qt "github.com/KYVENetwork/chain/x/query/types"
	stakersTypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamTypes "github.com/KYVENetwork/chain/x/team/types"
)

type pb interface {
	Marshal() ([]byte, error)
	Unmarshal([]byte) error
	String() string
}

const panicCode = 111222

// answer is what a query returned.
type answer struct {
	code  uint32
	space string
	log   string
	raw   []byte
}

func (n *Node) ask(path string, req []byte) answer {
	r, err := n.App.Query(context.Background(), &abci.RequestQuery{Path: path, Data: req})
	if err != nil {
		return answer{code: 1, log: err.Error()}
	}
	return answer{r.Code, r.Codespace, r.Log, r.Value}
}

func enc(m pb) []byte {
	b, err := m.Marshal()
	must(err)
	return b
}

// qcase is one query; want == nil: it has to be refused.
type qcase struct {
	name string
	path string
	req  pb
	resp pb
	want pb
}

// qlist is a paged query.
type qlist struct {
	name    string
	path    string
	req     func(p *query.PageRequest) pb
	resp    func() pb
	items   func(r pb) []pb
	want    []pb
	array   bool                // pages by offset only; the order is the same in both directions
	ordered func(i pb) []uint64 // only the sort key of the order is defined
	noTotal bool
}

type Q struct {
	n    *Node
	s    *Snap
	r    *rand.Rand
	gov  pb
	fail func(string)
	hit  func(string)
}

const qp = "/kyve.query.v1beta1."

// pure readings of the snapshot

func (s *Snap) basicPool(id uint64) *qt.BasicPool {
	p := s.Pools[id]
	if p == nil {
		return nil
	}
	return &qt.BasicPool{Id: id, Name: p.Name, Runtime: p.Runtime, Logo: p.Logo, InflationShareWeight: p.InflationShareWeight,
		UploadInterval: p.UploadInterval, TotalFunds: s.activeFunds(id), TotalDelegation: s.delegationOfPool(id), Status: s.statusEnum(id)}
}

func (s *Snap) delegationOfPool(id uint64) (n uint64) {
	for _, m := range s.Members(id) {
		n += s.Totals[m].Amount
	}
	return
}

func (s *Snap) activeFunds(id uint64) (c sdk.Coins) {
	for k, f := range s.Fundings {
		if k.Pool == id {
			c = c.Add(f.Amounts...)
		}
	}
	return
}

func (s *Snap) statusEnum(id uint64) poolTypes.PoolStatus {
	switch s.status(id) {
	case "upgrading":
		return poolTypes.POOL_STATUS_UPGRADING
	case "disabled":
		return poolTypes.POOL_STATUS_DISABLED
	case "end key":
		return poolTypes.POOL_STATUS_END_KEY_REACHED
	case "min delegation":
		return poolTypes.POOL_STATUS_NOT_ENOUGH_DELEGATION
	case "voting power":
		return poolTypes.POOL_STATUS_VOTING_POWER_TOO_HIGH
	}
	if s.activeFunds(id).IsZero() {
		return poolTypes.POOL_STATUS_NO_FUNDS
	}
	return poolTypes.POOL_STATUS_ACTIVE
}

func (s *Snap) undelegating(del, staker string) (n uint64) {
	for _, e := range s.UndelQ {
		if e.Delegator == del && (staker == "" || e.Staker == staker) {
			n += e.Amount
		}
	}
	return
}

func (s *Snap) fullStaker(a string) *qt.FullStaker {
	st := s.Stakers[a]
	if st == nil {
		return nil
	}
	md := &qt.StakerMetadata{Commission: st.Commission, Moniker: st.Moniker, Website: st.Website, Identity: st.Identity,
		SecurityContact: st.SecurityContact, Details: st.Details, CommissionRewards: st.CommissionRewards}
	for _, e := range s.ComQ {
		if e.Staker == a {
			md.PendingCommissionChange = &qt.CommissionChangeEntry{Commission: e.Commission, CreationDate: e.CreationDate}
		}
	}
	f := &qt.FullStaker{Address: a, Metadata: md, SelfDelegation: s.Stake[SD{a, a}], SelfDelegationUnbonding: s.undelegating(a, a),
		TotalDelegation: s.Totals[a].Amount, DelegatorCount: s.Totals[a].Count}
	for _, id := range s.PoolsOf(a) {
		v := s.Val[PS{id, a}]
		f.Pools = append(f.Pools, &qt.PoolMembership{Pool: s.basicPool(id), Points: v.Points, IsLeaving: v.IsLeaving,
			Valaddress: v.Valaddress, Balance: s.Bal(v.Valaddress, Denom).Uint64()})
	}
	return f
}

func (s *Snap) poolResponse(id uint64) *qt.PoolResponse {
	p := s.Pools[id]
	bp := s.Props[id]
	if bp == nil {
		bp = &bundlesTypes.BundleProposal{PoolId: id}
	}
	r := &qt.PoolResponse{Id: id, Data: p, BundleProposal: bp, Stakers: s.Members(id), TotalDelegation: s.delegationOfPool(id), Status: s.statusEnum(id),
		Account: poolAcc(id), AccountBalance: s.Bal(poolAcc(id), Denom).Uint64()}
	for _, m := range r.Stakers {
		r.TotalSelfDelegation += s.Stake[SD{m, m}]
	}
	for _, k := range s.fundingKeys() {
		if k.Pool == id {
			r.Fundings = append(r.Fundings, s.Fundings[k])
		}
	}
	return r
}

func (s *Snap) fundingKeys() (l []FP) {
	for k := range s.Fundings {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool {
		return l[i].Funder < l[j].Funder || l[i].Funder == l[j].Funder && l[i].Pool < l[j].Pool
	})
	return
}

func (s *Snap) scoreOf(c sdk.Coins) uint64 {
	w := map[string]*fundersTypes.WhitelistCoinEntry{}
	for _, e := range s.FunParams.CoinWhitelist {
		w[e.CoinDenom] = e
	}
	n := uint64(0)
	for _, x := range c {
		e := w[x.Denom]
		if e == nil {
			continue
		}
		v := new(big.Int).Mul(e.CoinWeight.BigInt(), x.Amount.BigInt())
		v.Quo(v, new(big.Int).Mul(fx18, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(e.CoinDecimals)), nil)))
		n += v.Uint64()
	}
	return n
}

func (s *Snap) funderResponse(a string) *qt.Funder {
	f := s.Funders[a]
	st := &qt.FundingStats{}
	for _, k := range s.fundingKeys() {
		if k.Funder != a {
			continue
		}
		x := s.Fundings[k]
		if !x.Amounts.IsZero() {
			st.TotalAmountPerBundle = st.TotalAmountPerBundle.Add(x.AmountsPerBundle...)
		}
		st.TotalUsedFunds = st.TotalUsedFunds.Add(x.TotalFunded...)
		st.TotalAllocatedFunds = st.TotalAllocatedFunds.Add(x.Amounts...)
		st.Score += s.scoreOf(x.Amounts)
		st.PoolsFunded = append(st.PoolsFunded, k.Pool)
	}
	return &qt.Funder{Address: a, Moniker: f.Moniker, Identity: f.Identity, Website: f.Website, Contact: f.Contact, Description: f.Description, Stats: st}
}

func (s *Snap) fundingResponse(k FP) *qt.Funding {
	f := s.Fundings[k]
	return &qt.Funding{FunderAddress: k.Funder, PoolId: k.Pool, Amounts: f.Amounts, AmountsPerBundle: f.AmountsPerBundle, TotalFunded: f.TotalFunded, Score: s.scoreOf(f.Amounts)}
}

func (q *Q) bundleResponse(b *bundlesTypes.FinalizedBundle) *qt.FinalizedBundle {
	h := math.NewIntFromUint64(b.FinalizedAt.Height)
	sec := &qt.StakeSecurity{}
	if b.FinalizedAt.Height >= q.s.schema() {
		v, t := math.NewIntFromUint64(b.StakeSecurity.ValidVotePower), math.NewIntFromUint64(b.StakeSecurity.TotalVotePower)
		sec = &qt.StakeSecurity{ValidVotePower: &v, TotalVotePower: &t}
	}
	return &qt.FinalizedBundle{PoolId: b.PoolId, Id: b.Id, StorageId: b.StorageId, Uploader: b.Uploader, FromIndex: b.FromIndex, ToIndex: b.ToIndex,
		ToKey: b.ToKey, BundleSummary: b.BundleSummary, DataHash: b.DataHash,
		FinalizedAt: &qt.FinalizedAt{Height: &h, Timestamp: time.Unix(int64(b.FinalizedAt.Timestamp), 0).Format(time.RFC3339)},
		FromKey:     b.FromKey, StorageProviderId: uint64(b.StorageProviderId), CompressionId: uint64(b.CompressionId),
		StakeSecurity: sec}
}

// schema is the height since which bundles carry their stake security.
func (s *Snap) schema() (h uint64) {
	for _, v := range s.BunVersions.Versions {
		if v.Version == 2 {
			h = v.Height
		}
	}
	return
}

func (s *Snap) bundlesOf(pool uint64) (l []*bundlesTypes.FinalizedBundle) {
	for k, b := range s.Bundles {
		if k.Pool == pool {
			l = append(l, b)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Id < l[j].Id })
	return
}

func (s *Snap) teamStatus(id, t uint64) (*teamTypes.QueryVestingPlan, *teamTypes.QueryVestingStatus) {
	a := s.TeamAccs[id]
	ref := a.Commencement
	if ref < teamTypes.TGE {
		ref = teamTypes.TGE
	}
	ref += year
	str := func(x uint64) string { return time.Unix(int64(x), 0).String() }
	plan := &teamTypes.QueryVestingPlan{Commencement: str(a.Commencement), TokenVestingStart: str(a.Commencement + year),
		TokenVestingFinished: str(a.Commencement + 3*year), TokenUnlockStart: str(ref), TokenUnlockFinished: str(ref + 2*year),
		Clawback: a.Clawback, ClawbackAmount: a.TotalAllocation - vestingMax(a), MaximumVestingAmount: vestingMax(a)}
	v, u := vested(a, t), unlocked(a, t)
	st := &teamTypes.QueryVestingStatus{TotalVestedAmount: v, TotalUnlockedAmount: u, LockedVestedAmount: v - u, RemainingUnvestedAmount: vestingMax(a) - v,
		ClaimedAmount: a.UnlockedClaimed, TotalRewards: a.TotalRewards, ClaimedRewards: a.RewardsClaimed, AvailableRewards: a.TotalRewards - a.RewardsClaimed}
	if u > a.UnlockedClaimed {
		st.CurrentClaimableAmount = u - a.UnlockedClaimed
	}
	return plan, st
}

func (s *Snap) teamInfo() *teamTypes.QueryTeamInfoResponse {
	i := &teamTypes.QueryTeamInfoResponse{FoundationAuthority: teamTypes.FOUNDATION_ADDRESS, BcpAuthority: teamTypes.BCP_ADDRESS,
		TotalTeamAllocation: teamTypes.TEAM_ALLOCATION, IssuedTeamAllocation: s.issued(), AvailableTeamAllocation: teamTypes.TEAM_ALLOCATION - s.issued(),
		TotalAuthorityRewards: s.TeamAuth.TotalRewards, ClaimedAuthorityRewards: s.TeamAuth.RewardsClaimed, AvailableAuthorityRewards: s.TeamAuth.TotalRewards - s.TeamAuth.RewardsClaimed,
		RequiredModuleBalance: s.teamOwed(), TeamModuleBalance: s.Bal(modAddr("team"), Denom).Uint64()}
	for _, a := range s.TeamAccs {
		i.TotalAccountRewards += a.TotalRewards
		i.ClaimedAccountRewards += a.RewardsClaimed
		i.AvailableAccountRewards += a.TotalRewards - a.RewardsClaimed
	}
	return i
}

// addresses a query may be asked about, in a fixed order
func (s *Snap) people() (l []string) {
	m := map[string]bool{}
	for a := range s.Stakers {
		m[a] = true
	}
	for k := range s.Stake {
		m[k.Del] = true
	}
	for a := range s.Funders {
		m[a] = true
	}
	for k := range s.Redel {
		m[k.Addr] = true
	}
	for _, e := range s.UndelQ {
		m[e.Delegator] = true
	}
	return sortedS(m)
}

// some picks at most n elements.
func some[T any](r *rand.Rand, l []T, n int) []T {
	if len(l) <= n {
		return l
	}
	p := r.Perm(len(l))[:n]
	sort.Ints(p)
	var out []T
	for _, i := range p {
		out = append(out, l[i])
	}
	return out
}

// singles lists queries without pages; n limits how many of each kind.
func (q *Q) singles(n int) (l []qcase) {
	s, r := q.s, q.r
	add := func(name, path string, req, resp, want pb) {
		l = append(l, qcase{name, path, req, resp, want})
	}
	people := s.people()
	unknown := NewAcc(fmt.Sprintf("unknown%d", r.Intn(3))).Str
	accounts := append(some(r, people, n), unknown)
	stakers := some(r, sortedS(s.Stakers), n)
	pools := some(r, s.PoolIds(), n)
	none := s.PoolCount + uint64(r.Intn(3))

	for _, id := range pools {
		add("Pool", qp+"QueryPool/Pool", &qt.QueryPoolRequest{Id: id}, &qt.QueryPoolResponse{}, &qt.QueryPoolResponse{Pool: *s.poolResponse(id)})
		d := NewWorld(s, NewLedger(), NewCov()).votes(id)
		add("CurrentVoteStatus", qp+"QueryBundles/CurrentVoteStatus", &qt.QueryCurrentVoteStatusRequest{PoolId: id}, &qt.QueryCurrentVoteStatusResponse{},
			&qt.QueryCurrentVoteStatusResponse{Valid: d.valid, Invalid: d.invalid, Abstain: d.abstain, Total: d.total})
		w := &qt.QueryStakersByPoolResponse{}
		for _, m := range s.Members(id) {
			w.Stakers = append(w.Stakers, qt.StakerPoolResponse{Staker: s.fullStaker(m), Valaccount: s.Val[PS{id, m}]})
		}
		add("StakersByPool", qp+"QueryStakers/StakersByPool", &qt.QueryStakersByPoolRequest{PoolId: id}, &qt.QueryStakersByPoolResponse{}, w)
		bs := s.bundlesOf(id)
		for _, b := range some(r, bs, n) {
			x := q.bundleResponse(b)
			add("FinalizedBundle", qp+"QueryBundles/FinalizedBundleQuery", &qt.QueryFinalizedBundleRequest{PoolId: id, Id: b.Id}, &qt.QueryFinalizedBundleResponse{},
				&qt.QueryFinalizedBundleResponse{PoolId: x.PoolId, Id: x.Id, StorageId: x.StorageId, Uploader: x.Uploader, FromIndex: x.FromIndex, ToIndex: x.ToIndex, ToKey: x.ToKey,
					BundleSummary: x.BundleSummary, DataHash: x.DataHash, FinalizedAt: x.FinalizedAt, FromKey: x.FromKey, StorageProviderId: x.StorageProviderId,
					CompressionId: x.CompressionId, StakeSecurity: x.StakeSecurity})
			for _, i := range []uint64{b.FromIndex, b.ToIndex - 1, b.ToIndex} {
				w := &qt.QueryFinalizedBundlesResponse{}
				for _, o := range bs {
					if o.FromIndex <= i && i < o.ToIndex {
						w.FinalizedBundles = append(w.FinalizedBundles, *q.bundleResponse(o))
					}
				}
				add("FinalizedBundles by index", qp+"QueryBundles/FinalizedBundlesQuery", &qt.QueryFinalizedBundlesRequest{PoolId: id, Index: fmt.Sprint(i)}, &qt.QueryFinalizedBundlesResponse{}, w)
			}
		}
		add("FinalizedBundle none", qp+"QueryBundles/FinalizedBundleQuery", &qt.QueryFinalizedBundleRequest{PoolId: id, Id: uint64(len(bs))}, &qt.QueryFinalizedBundleResponse{}, nil)
	}
	add("Pool none", qp+"QueryPool/Pool", &qt.QueryPoolRequest{Id: none}, &qt.QueryPoolResponse{}, nil)
	add("CurrentVoteStatus none", qp+"QueryBundles/CurrentVoteStatus", &qt.QueryCurrentVoteStatusRequest{PoolId: none}, &qt.QueryCurrentVoteStatusResponse{}, nil)
	add("StakersByPool none", qp+"QueryStakers/StakersByPool", &qt.QueryStakersByPoolRequest{PoolId: none}, &qt.QueryStakersByPoolResponse{}, nil)

	for _, a := range stakers {
		add("Staker", qp+"QueryStakers/Staker", &qt.QueryStakerRequest{Address: a}, &qt.QueryStakerResponse{}, &qt.QueryStakerResponse{Staker: *s.fullStaker(a)})
	}
	add("Staker none", qp+"QueryStakers/Staker", &qt.QueryStakerRequest{Address: unknown}, &qt.QueryStakerResponse{}, nil)

	for _, a := range accounts {
		w := &qt.QueryAccountAssetsResponse{Balance: s.Bal(a, Denom).Uint64(), ProtocolSelfDelegation: s.Stake[SD{a, a}],
			ProtocolDelegationUnbonding: s.undelegating(a, ""), ProtocolSelfDelegationUnbonding: s.undelegating(a, a)}
		for k, st := range s.Stake {
			if k.Del == a {
				w.ProtocolDelegation += st
				w.ProtocolRewards = w.ProtocolRewards.Add(s.Rew[k]...)
			}
		}
		fl := &qt.QueryAccountFundedListResponse{}
		for _, k := range s.fundingKeys() {
			if k.Funder == a {
				f := s.Fundings[k]
				w.ProtocolFunding = w.ProtocolFunding.Add(f.Amounts...)
				if !f.Amounts.IsZero() {
					fl.Funded = append(fl.Funded, qt.Funded{Amounts: f.Amounts, Pool: s.basicPool(k.Pool)})
				}
			}
		}
		add("AccountAssets", qp+"QueryAccount/AccountAssets", &qt.QueryAccountAssetsRequest{Address: a}, &qt.QueryAccountAssetsResponse{}, w)
		add("AccountFundedList", qp+"QueryAccount/AccountFundedList", &qt.QueryAccountFundedListRequest{Address: a}, &qt.QueryAccountFundedListResponse{}, fl)
		rd := &qt.QueryAccountRedelegationResponse{}
		for _, d := range NewWorld(s, NewLedger(), NewCov()).redelDates(a) {
			if uint64(s.Time) <= d+s.DelParams.RedelegationCooldown {
				rd.RedelegationCooldownEntries = append(rd.RedelegationCooldownEntries, qt.RedelegationEntry{CreationDate: d, FinishDate: d + s.DelParams.RedelegationCooldown})
			}
		}
		if u := uint64(len(rd.RedelegationCooldownEntries)); u < s.DelParams.RedelegationMaxAmount {
			rd.AvailableSlots = s.DelParams.RedelegationMaxAmount - u
		}
		add("AccountRedelegation", qp+"QueryAccount/AccountRedelegation", &qt.QueryAccountRedelegationRequest{Address: a}, &qt.QueryAccountRedelegationResponse{}, rd)
		for _, st := range append(some(r, stakers, 2), unknown) {
			k := SD{st, a}
			add("Delegator", qp+"QueryDelegation/Delegator", &qt.QueryDelegatorRequest{Staker: st, Delegator: a}, &qt.QueryDelegatorResponse{},
				&qt.QueryDelegatorResponse{Delegator: &qt.StakerDelegatorResponse{Delegator: a, Staker: st, DelegationAmount: s.Stake[k], CurrentRewards: s.Rew[k]}})
		}
		if s.Funders[a] == nil {
			add("Funder none", qp+"QueryFunders/Funder", &qt.QueryFunderRequest{Address: a}, &qt.QueryFunderResponse{}, nil)
			continue
		}
		st := qt.FundingStatus(r.Intn(3))
		fw := &qt.QueryFunderResponse{Funder: s.funderResponse(a)}
		for _, k := range s.fundingKeys() {
			if k.Funder == a && fundingStatus(s.Fundings[k], st) {
				fw.Fundings = append(fw.Fundings, *s.fundingResponse(k))
			}
		}
		add("Funder", qp+"QueryFunders/Funder", &qt.QueryFunderRequest{Address: a, Status: st}, &qt.QueryFunderResponse{}, fw)
	}

	params := &qt.QueryParamsResponse{BundlesParams: &s.BunParams, DelegationParams: &s.DelParams, GlobalParams: &s.GloParams, StakersParams: &s.StkParams,
		PoolParams: &s.PoolParams, FundersParams: &s.FunParams}
	add("Params", qp+"QueryParams/Params", &qt.QueryParamsRequest{}, &qt.QueryParamsResponse{}, params)
	add("bundles Params", "/kyve.bundles.v1beta1.Query/Params", &bundlesTypes.QueryParamsRequest{}, &bundlesTypes.QueryParamsResponse{}, &bundlesTypes.QueryParamsResponse{Params: s.BunParams})
	add("delegation Params", "/kyve.delegation.v1beta1.Query/Params", &delegationTypes.QueryParamsRequest{}, &delegationTypes.QueryParamsResponse{}, &delegationTypes.QueryParamsResponse{Params: s.DelParams})
	add("funders Params", "/kyve.funders.v1beta1.Query/Params", &fundersTypes.QueryParamsRequest{}, &fundersTypes.QueryParamsResponse{}, &fundersTypes.QueryParamsResponse{Params: s.FunParams})
	add("global Params", "/kyve.global.v1beta1.Query/Params", &globalTypes.QueryParamsRequest{}, &globalTypes.QueryParamsResponse{}, &globalTypes.QueryParamsResponse{Params: s.GloParams})
	add("pool Params", "/kyve.pool.v1beta1.Query/Params", &poolTypes.QueryParamsRequest{}, &poolTypes.QueryParamsResponse{}, &poolTypes.QueryParamsResponse{Params: s.PoolParams})
	add("stakers Params", "/kyve.stakers.v1beta1.Query/Params", &stakersTypes.QueryParamsRequest{}, &stakersTypes.QueryParamsResponse{}, &stakersTypes.QueryParamsResponse{Params: s.StkParams})

	tp := "/kyve.team.v1beta1.Query/"
	ta := &teamTypes.QueryTeamVestingAccountsResponse{}
	ids := sortedU(s.TeamAccs)
	for _, id := range ids {
		ta.Accounts = append(ta.Accounts, *s.TeamAccs[id])
	}
	add("TeamVestingAccounts", tp+"TeamVestingAccounts", &teamTypes.QueryTeamVestingAccountsRequest{}, &teamTypes.QueryTeamVestingAccountsResponse{}, ta)
	add("TeamInfo", tp+"TeamInfo", &teamTypes.QueryTeamInfoRequest{}, &teamTypes.QueryTeamInfoResponse{}, s.teamInfo())
	now := uint64(s.Time)
	str := time.Unix(s.Time, 0).String()
	for _, id := range some(r, ids, n) {
		a := s.TeamAccs[id]
		add("TeamVestingAccount", tp+"TeamVestingAccount", &teamTypes.QueryTeamVestingAccountRequest{Id: id}, &teamTypes.QueryTeamVestingAccountResponse{},
			&teamTypes.QueryTeamVestingAccountResponse{Account: *a})
		p, st := s.teamStatus(id, now)
		add("TeamVestingStatus", tp+"TeamVestingStatus", &teamTypes.QueryTeamVestingStatusRequest{Id: id}, &teamTypes.QueryTeamVestingStatusResponse{},
			&teamTypes.QueryTeamVestingStatusResponse{RequestDate: str, Plan: p, Status: st})
		ref := a.Commencement
		if ref < teamTypes.TGE {
			ref = teamTypes.TGE
		}
		ref += year
		for _, t := range some(r, []uint64{a.Commencement, a.Commencement + year - 1, a.Commencement + year, a.Commencement + 3*year - 1, a.Commencement + 3*year,
			ref - 1, ref, ref + 1, ref + 2*year - 1, ref + 2*year, a.Clawback, a.Clawback + 1, now + uint64(r.Intn(int(4*year)))}, 4) {
			p, st := s.teamStatus(id, t)
			add("TeamVestingStatusByTime", tp+"TeamVestingStatusByTime", &teamTypes.QueryTeamVestingStatusByTimeRequest{Id: id, Time: t}, &teamTypes.QueryTeamVestingStatusByTimeResponse{},
				&teamTypes.QueryTeamVestingStatusByTimeResponse{RequestDate: str, Plan: p, Status: st})
		}
	}
	add("TeamVestingAccount none", tp+"TeamVestingAccount", &teamTypes.QueryTeamVestingAccountRequest{Id: s.TeamCount}, &teamTypes.QueryTeamVestingAccountResponse{}, nil)
	add("TeamVestingStatus none", tp+"TeamVestingStatus", &teamTypes.QueryTeamVestingStatusRequest{Id: s.TeamCount}, &teamTypes.QueryTeamVestingStatusResponse{}, nil)
	return
}

func fundingStatus(f *fundersTypes.Funding, st qt.FundingStatus) bool {
	switch st {
	case qt.FUNDING_STATUS_ACTIVE:
		return !f.Amounts.IsZero()
	case qt.FUNDING_STATUS_INACTIVE:
		return f.Amounts.IsZero()
	}
	return true
}

// word picks a search text that some of the names contain.
func (q *Q) word(names []string) string {
	if len(names) == 0 || q.r.Intn(3) == 0 {
		return ""
	}
	x := names[q.r.Intn(len(names))]
	if len(x) > 2 {
		i := q.r.Intn(len(x) - 1)
		x = x[i : i+1+q.r.Intn(len(x)-i)]
	}
	if q.r.Intn(2) == 0 {
		x = strings.ToUpper(x)
	}
	if q.r.Intn(10) == 0 {
		x += "#"
	}
	return x
}

func contains(text, part string) bool {
	return strings.Contains(strings.ToLower(text), strings.ToLower(part))
}

func ptrs[T any, P interface {
	*T
	pb
}](l []T) (out []pb) {
	for i := range l {
		out = append(out, P(&l[i]))
	}
	return
}

// lists are the paged queries; n limits how many of each kind.
func (q *Q) lists(n int) (l []qlist) {
	s, r := q.s, q.r
	// stakers
	var all []string
	for a := range s.Stakers {
		all = append(all, a)
	}
	sort.Slice(all, func(i, j int) bool {
		x, y := s.Totals[all[i]].Amount, s.Totals[all[j]].Amount
		return x > y || x == y && all[i] < all[j]
	})
	var names []string
	for _, a := range all {
		names = append(names, s.Stakers[a].Moniker, a)
	}
	for st := 0; st < 3; st++ {
		word, st := q.word(names), qt.StakerStatus(st)
		var want []pb
		for _, a := range all {
			act := len(s.PoolsOf(a)) > 0
			if st == qt.STAKER_STATUS_ACTIVE && !act || st == qt.STAKER_STATUS_INACTIVE && act || !contains(a, word) && !contains(s.Stakers[a].Moniker, word) {
				continue
			}
			want = append(want, s.fullStaker(a))
		}
		x := qlist{name: fmt.Sprintf("Stakers(%s,%q)", st, word), path: qp + "QueryStakers/Stakers", want: want,
			req:   func(p *query.PageRequest) pb { return &qt.QueryStakersRequest{Pagination: p, Status: st, Search: word} },
			resp:  func() pb { return &qt.QueryStakersResponse{} },
			items: func(r pb) []pb { return ptrs(r.(*qt.QueryStakersResponse).Stakers) }}
		if st == qt.STAKER_STATUS_ACTIVE {
			x.array = true
			x.ordered = func(i pb) []uint64 { return []uint64{i.(*qt.FullStaker).TotalDelegation} }
		}
		l = append(l, x)
	}
	var act []pb
	for _, a := range all {
		if len(s.PoolsOf(a)) > 0 {
			act = append(act, s.fullStaker(a))
		}
	}
	l = append(l, qlist{name: "StakersByPoolCount", path: qp + "QueryStakers/StakersByPoolCount", want: act, array: true,
		ordered: func(i pb) []uint64 { f := i.(*qt.FullStaker); return []uint64{uint64(len(f.Pools)), f.TotalDelegation} },
		req:     func(p *query.PageRequest) pb { return &qt.QueryStakersByPoolCountRequest{Pagination: p} },
		resp:    func() pb { return &qt.QueryStakersByPoolCountResponse{} },
		items:   func(r pb) []pb { return ptrs(r.(*qt.QueryStakersByPoolCountResponse).Stakers) }})

	// pools
	names = nil
	for _, p := range s.Pools {
		names = append(names, p.Name)
	}
	sort.Strings(names)
	for i := 0; i < 2; i++ {
		word, rt, dis, sp := q.word(names), "", r.Intn(3) == 0, uint32(r.Intn(3))
		if r.Intn(2) == 0 {
			sp = 0
		}
		if ids := s.PoolIds(); len(ids) > 0 && r.Intn(3) == 0 {
			rt = s.Pools[ids[r.Intn(len(ids))]].Runtime
		}
		var want []pb
		for _, id := range s.PoolIds() {
			p := s.Pools[id]
			if !contains(p.Name, word) || rt != "" && rt != p.Runtime || dis != p.Disabled || sp != 0 && sp != p.CurrentStorageProviderId {
				continue
			}
			want = append(want, s.poolResponse(id))
		}
		l = append(l, qlist{name: fmt.Sprintf("Pools(%q,%q,%v,%d)", word, rt, dis, sp), path: qp + "QueryPool/Pools", want: want,
			req: func(p *query.PageRequest) pb {
				return &qt.QueryPoolsRequest{Pagination: p, Search: word, Runtime: rt, Disabled: dis, StorageProviderId: sp}
			},
			resp:  func() pb { return &qt.QueryPoolsResponse{} },
			items: func(r pb) []pb { return ptrs(r.(*qt.QueryPoolsResponse).Pools) }})
	}

	// funders
	names = nil
	fs := sortedS(s.Funders)
	for _, a := range fs {
		names = append(names, s.Funders[a].Moniker)
	}
	word := q.word(names)
	var want []pb
	for _, a := range fs {
		if contains(s.Funders[a].Moniker, word) {
			want = append(want, s.funderResponse(a))
		}
	}
	l = append(l, qlist{name: fmt.Sprintf("Funders(%q)", word), path: qp + "QueryFunders/Funders", want: want,
		req:   func(p *query.PageRequest) pb { return &qt.QueryFundersRequest{Pagination: p, Search: word} },
		resp:  func() pb { return &qt.QueryFundersResponse{} },
		items: func(r pb) []pb { return ptrs(r.(*qt.QueryFundersResponse).Funders) }})
	for _, a := range some(r, fs, n) {
		a, st := a, qt.FundingStatus(r.Intn(3))
		var want []pb
		for _, k := range s.fundingKeys() {
			if k.Funder == a && fundingStatus(s.Fundings[k], st) {
				want = append(want, s.fundingResponse(k))
			}
		}
		l = append(l, qlist{name: fmt.Sprintf("FundingsByFunder(%s,%s)", a, st), path: qp + "QueryFunders/FundingsByFunder", want: want,
			req: func(p *query.PageRequest) pb {
				return &qt.QueryFundingsByFunderRequest{Pagination: p, Address: a, Status: st}
			},
			resp:  func() pb { return &qt.QueryFundingsByFunderResponse{} },
			items: func(r pb) []pb { return ptrs(r.(*qt.QueryFundingsByFunderResponse).Fundings) }})
	}
	for _, id := range some(r, s.PoolIds(), n) {
		id, st := id, qt.FundingStatus(r.Intn(3))
		var want []pb
		for _, k := range s.fundingKeys() {
			if k.Pool == id && fundingStatus(s.Fundings[k], st) {
				want = append(want, s.fundingResponse(k))
			}
		}
		l = append(l, qlist{name: fmt.Sprintf("FundingsByPool(%d,%s)", id, st), path: qp + "QueryFunders/FundingsByPool", want: want,
			req: func(p *query.PageRequest) pb {
				return &qt.QueryFundingsByPoolRequest{Pagination: p, PoolId: id, Status: st}
			},
			resp:  func() pb { return &qt.QueryFundingsByPoolResponse{} },
			items: func(r pb) []pb { return ptrs(r.(*qt.QueryFundingsByPoolResponse).Fundings) }})
		var bs []pb
		for _, b := range s.bundlesOf(id) {
			bs = append(bs, q.bundleResponse(b))
		}
		l = append(l, qlist{name: fmt.Sprintf("FinalizedBundles(%d)", id), path: qp + "QueryBundles/FinalizedBundlesQuery", want: bs,
			req:   func(p *query.PageRequest) pb { return &qt.QueryFinalizedBundlesRequest{Pagination: p, PoolId: id} },
			resp:  func() pb { return &qt.QueryFinalizedBundlesResponse{} },
			items: func(r pb) []pb { return ptrs(r.(*qt.QueryFinalizedBundlesResponse).FinalizedBundles) }})
	}

	// delegations
	for _, a := range some(r, sortedS(s.Stakers), n) {
		a := a
		var want []pb
		for _, d := range s.Delegators(a) {
			k := SD{a, d}
			want = append(want, &qt.StakerDelegatorResponse{Delegator: d, Staker: a, CurrentRewards: s.Rew[k], DelegationAmount: s.Stake[k]})
		}
		l = append(l, qlist{name: "DelegatorsByStaker(" + a + ")", path: qp + "QueryDelegation/DelegatorsByStaker", want: want,
			req:  func(p *query.PageRequest) pb { return &qt.QueryDelegatorsByStakerRequest{Pagination: p, Staker: a} },
			resp: func() pb { return &qt.QueryDelegatorsByStakerResponse{} },
			items: func(r pb) []pb {
				x := r.(*qt.QueryDelegatorsByStakerResponse)
				if x.TotalDelegation != s.Totals[a].Amount || x.TotalDelegatorCount != s.Totals[a].Count {
					q.fail(fmt.Sprintf("DelegatorsByStaker(%s) reports %d by %d delegators, state: %v", a, x.TotalDelegation, x.TotalDelegatorCount, s.Totals[a]))
				}
				return ptrs(x.Delegators)
			}})
	}
	for _, d := range some(r, s.people(), n) {
		d := d
		var want, unb []pb
		for _, a := range sortedS(s.Stakers) {
			k := SD{a, d}
			if st, ok := s.Stake[k]; ok {
				want = append(want, &qt.DelegationForStakerResponse{Staker: s.fullStaker(a), CurrentRewards: s.Rew[k], DelegationAmount: st})
			}
		}
		l = append(l, qlist{name: "StakersByDelegator(" + d + ")", path: qp + "QueryDelegation/StakersByDelegator", want: want,
			req:   func(p *query.PageRequest) pb { return &qt.QueryStakersByDelegatorRequest{Pagination: p, Delegator: d} },
			resp:  func() pb { return &qt.QueryStakersByDelegatorResponse{} },
			items: func(r pb) []pb { return ptrs(r.(*qt.QueryStakersByDelegatorResponse).Stakers) }})
		known := true
		for _, i := range sortedU(s.UndelQ) {
			e := s.UndelQ[i]
			if e.Delegator == d {
				f := s.fullStaker(e.Staker)
				if f == nil {
					known = false // nothing was delegated, the staker is free text
				}
				unb = append(unb, &qt.DelegationUnbonding{Amount: e.Amount, CreationTime: e.CreationTime, Staker: f})
			}
		}
		if !known {
			continue
		}
		l = append(l, qlist{name: "AccountDelegationUnbondings(" + d + ")", path: qp + "QueryAccount/AccountDelegationUnbondings", want: unb,
			req: func(p *query.PageRequest) pb {
				return &qt.QueryAccountDelegationUnbondingsRequest{Pagination: p, Address: d}
			},
			resp:  func() pb { return &qt.QueryAccountDelegationUnbondingsResponse{} },
			items: func(r pb) []pb { return ptrs(r.(*qt.QueryAccountDelegationUnbondingsResponse).Unbondings) }})
	}
	return
}

func pageOf(r pb) *query.PageResponse {
	v := reflect.ValueOf(r).Elem().FieldByName("Pagination")
	if !v.IsValid() || v.IsNil() {
		return nil
	}
	return v.Interface().(*query.PageResponse)
}

func strOf(b []byte, like pb) string {
	x := reflect.New(reflect.TypeOf(like).Elem()).Interface().(pb)
	if x.Unmarshal(b) != nil {
		return fmt.Sprintf("%x", b)
	}
	return x.String()
}

// single asks one query and compares.
func (q *Q) single(c qcase) {
	q.hit("query." + c.name)
	q.hit("checked")
	a := q.n.ask(c.path, enc(c.req))
	if a.code == panicCode {
		q.fail(fmt.Sprintf("%s(%s) panicked: %s", c.name, c.req, a.log))
		return
	}
	if c.want == nil {
		if a.code == 0 {
			q.fail(fmt.Sprintf("%s(%s) answered although there is no such entry: %s", c.name, c.req, strOf(a.raw, c.resp)))
		}
		return
	}
	if a.code != 0 {
		q.fail(fmt.Sprintf("%s(%s) was refused: %s", c.name, c.req, a.log))
		return
	}
	if err := c.resp.Unmarshal(a.raw); err != nil {
		q.fail(fmt.Sprintf("%s(%s): %v", c.name, c.req, err))
		return
	}
	if p, ok := c.resp.(*qt.QueryParamsResponse); ok {
		p.GovParams = nil
	}
	if w, g := enc(c.want), enc(c.resp); !bytes.Equal(w, g) {
		q.fail(fmt.Sprintf("%s(%s) answered %s", c.name, c.req, firstDiff(strOf(g, c.resp), strOf(w, c.resp))))
	}
}

// firstDiff shows both texts around their first difference.
func firstDiff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(s string) string {
		a, b := i-120, i+160
		if a < 0 {
			a = 0
		}
		if b > len(s) {
			b = len(s)
		}
		return s[a:b]
	}
	return fmt.Sprintf("...%s... where the state says ...%s...", cut(got), cut(want))
}

func strs(l []pb) (out []string) {
	for _, x := range l {
		out = append(out, string(enc(x)))
	}
	return
}

// walk goes through all pages of a list.
func (q *Q) walk(c qlist) {
	limit := uint64(1 + q.r.Intn(len(c.want)+2))
	if len(c.want) > 12 && limit < 3 {
		limit += 3
	}
	rev := q.r.Intn(2) == 0
	mode := q.r.Intn(4) // 0: one page without request, 1: keys, 2: offsets, 3: offsets with changing page sizes
	if c.array && mode == 1 {
		mode = 2
	}
	how := fmt.Sprintf("%s limit %d reverse %v by %s", c.name, limit, rev, []string{"nothing", "key", "offset", "uneven offsets"}[mode])
	q.hit("query.walk." + strings.SplitN(c.name, "(", 2)[0])
	q.hit("query.walk.by " + []string{"nothing", "key", "offset", "uneven offsets"}[mode])
	q.hit("checked")
	var got []pb
	var key []byte
	off := uint64(0)
	for pages := 0; ; pages++ {
		if pages > len(c.want)+3 {
			q.fail(how + ": the walk does not end")
			return
		}
		var pr *query.PageRequest
		if mode != 0 {
			pr = &query.PageRequest{Limit: limit, Reverse: rev, CountTotal: q.r.Intn(2) == 0}
			if mode == 1 && pages > 0 {
				pr.Key = key
			}
			if mode >= 2 {
				pr.Offset = off
			}
			if mode == 3 {
				pr.Limit = 1 + uint64(q.r.Intn(len(c.want)+2))
			}
		} else {
			rev = false
		}
		a := q.n.ask(c.path, enc(c.req(pr)))
		if a.code != 0 {
			q.fail(fmt.Sprintf("%s: page %d failed: %s", how, pages, a.log))
			return
		}
		resp := c.resp()
		if err := resp.Unmarshal(a.raw); err != nil {
			q.fail(how + ": " + err.Error())
			return
		}
		it := c.items(resp)
		if pr != nil && uint64(len(it)) > pr.Limit {
			q.fail(fmt.Sprintf("%s: page %d has %d entries", how, pages, len(it)))
			return
		}
		got = append(got, it...)
		pg := pageOf(resp)
		if pg == nil {
			q.fail(how + ": no page information")
			return
		}
		if (pr == nil || pr.CountTotal && len(pr.Key) == 0) && pg.Total != uint64(len(c.want)) {
			q.fail(fmt.Sprintf("%s: total %d, matching entries: %d", how, pg.Total, len(c.want)))
			return
		}
		key = pg.NextKey
		if mode == 0 {
			break
		}
		if mode == 1 && len(key) == 0 {
			break
		}
		if mode >= 2 {
			if len(it) == 0 {
				break
			}
			if !c.array {
				more := off+uint64(len(it)) < uint64(len(c.want))
				if more != (len(key) > 0) {
					q.fail(fmt.Sprintf("%s: next key %x after %d of %d entries", how, key, off+uint64(len(it)), len(c.want)))
					return
				}
			}
			off += uint64(len(it))
		}
	}
	g, w := strs(got), strs(c.want)
	if mode == 0 && len(w) > 100 {
		w = w[:100]
	}
	if rev && !c.array {
		for i, j := 0, len(w)-1; i < j; i, j = i+1, j-1 {
			w[i], w[j] = w[j], w[i]
		}
	}
	if c.ordered != nil {
		for i := 1; i < len(got); i++ {
			x, y := c.ordered(got[i-1]), c.ordered(got[i])
			for j := range x {
				if x[j] != y[j] {
					if x[j] < y[j] {
						q.fail(fmt.Sprintf("%s: wrong order", how))
					}
					break
				}
			}
		}
		sort.Strings(g)
		sort.Strings(w)
	}
	for i := 0; i < len(g) || i < len(w); i++ {
		switch {
		case i >= len(g):
			q.fail(fmt.Sprintf("%s: only %d of %d entries, missing e.g. %s", how, len(g), len(w), strOf([]byte(w[i]), c.want[0])))
			return
		case i >= len(w):
			q.fail(fmt.Sprintf("%s: %d entries instead of %d, e.g. %s", how, len(g), len(w), strOf([]byte(g[i]), got[0])))
			return
		case g[i] != w[i]:
			q.fail(fmt.Sprintf("%s: entry %d is %s", how, i, firstDiff(strOf([]byte(g[i]), got[0]), strOf([]byte(w[i]), c.want[0]))))
			return
		}
	}
}

var rawPaths = []string{"QueryAccount/AccountAssets", "QueryAccount/AccountDelegationUnbondings", "QueryAccount/AccountFundedList", "QueryAccount/AccountRedelegation",
	"QueryBundles/CanPropose", "QueryBundles/CanValidate", "QueryBundles/CanVote", "QueryBundles/CurrentVoteStatus", "QueryBundles/FinalizedBundleQuery",
	"QueryBundles/FinalizedBundlesQuery", "QueryDelegation/Delegator", "QueryDelegation/DelegatorsByStaker", "QueryDelegation/StakersByDelegator", "QueryFunders/Funder",
	"QueryFunders/Funders", "QueryFunders/FundingsByFunder", "QueryFunders/FundingsByPool", "QueryParams/Params", "QueryPool/Pool", "QueryPool/Pools", "QueryStakers/Staker",
	"QueryStakers/Stakers", "QueryStakers/StakersByPool", "QueryStakers/StakersByPoolCount"}

// hostile sends requests no client should send; they must be answered or refused.
func (q *Q) hostile(n int) {
	r := q.r
	text := func() string {
		switch r.Intn(6) {
		case 0:
			return ""
		case 1:
			return "kyve1"
		case 2:
			return strings.ToUpper(NewAcc("staker0").Str)
		case 3:
			return strings.Repeat("x", r.Intn(400))
		case 4:
			b := make([]byte, r.Intn(40))
			for i := range b {
				b[i] = byte(r.Intn(128))
			}
			return string(b)
		}
		p := q.s.people()
		if len(p) == 0 {
			return "a"
		}
		x := p[r.Intn(len(p))]
		return x[:r.Intn(len(x)+1)]
	}
	num := func() uint64 {
		return []uint64{0, 1, 2, 7, 255, 1 << 31, 1<<32 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1}[r.Intn(11)]
	}
	page := func() *query.PageRequest {
		p := &query.PageRequest{Limit: num(), Reverse: r.Intn(2) == 0, CountTotal: r.Intn(2) == 0}
		if r.Intn(2) == 0 {
			p.Offset = num()
		}
		if r.Intn(3) == 0 {
			p.Key = []byte(text())
		}
		return p
	}
	for i := 0; i < n; i++ {
		path := rawPaths[r.Intn(len(rawPaths))]
		var req pb
		switch strings.SplitN(path, "/", 2)[1] {
		case "AccountAssets":
			req = &qt.QueryAccountAssetsRequest{Address: text()}
		case "AccountDelegationUnbondings":
			req = &qt.QueryAccountDelegationUnbondingsRequest{Address: text(), Pagination: page()}
		case "AccountFundedList":
			req = &qt.QueryAccountFundedListRequest{Address: text()}
		case "AccountRedelegation":
			req = &qt.QueryAccountRedelegationRequest{Address: text()}
		case "CanPropose":
			req = &qt.QueryCanProposeRequest{PoolId: num(), Staker: text(), Proposer: text(), FromIndex: num()}
		case "CanValidate":
			req = &qt.QueryCanValidateRequest{PoolId: num(), Valaddress: text()}
		case "CanVote":
			req = &qt.QueryCanVoteRequest{PoolId: num(), Staker: text(), Voter: text(), StorageId: text()}
		case "CurrentVoteStatus":
			req = &qt.QueryCurrentVoteStatusRequest{PoolId: num()}
		case "FinalizedBundleQuery":
			req = &qt.QueryFinalizedBundleRequest{PoolId: num(), Id: num()}
		case "FinalizedBundlesQuery":
			ix := ""
			if r.Intn(3) == 0 {
				ix = []string{"18446744073709551615", "-1", "x", "18446744073709551616", "0", " 1"}[r.Intn(6)]
			}
			req = &qt.QueryFinalizedBundlesRequest{PoolId: num() % 4, Index: ix, Pagination: page()}
		case "Delegator":
			req = &qt.QueryDelegatorRequest{Staker: text(), Delegator: text()}
		case "DelegatorsByStaker":
			req = &qt.QueryDelegatorsByStakerRequest{Staker: text(), Pagination: page()}
		case "StakersByDelegator":
			req = &qt.QueryStakersByDelegatorRequest{Delegator: text(), Pagination: page()}
		case "Funder":
			req = &qt.QueryFunderRequest{Address: text(), Status: qt.FundingStatus(r.Intn(9) - 2)}
		case "Funders":
			req = &qt.QueryFundersRequest{Search: text(), Pagination: page()}
		case "FundingsByFunder":
			req = &qt.QueryFundingsByFunderRequest{Address: text(), Status: qt.FundingStatus(r.Intn(9) - 2), Pagination: page()}
		case "FundingsByPool":
			req = &qt.QueryFundingsByPoolRequest{PoolId: num(), Status: qt.FundingStatus(r.Intn(9) - 2), Pagination: page()}
		case "Params":
			req = &qt.QueryParamsRequest{}
		case "Pool":
			req = &qt.QueryPoolRequest{Id: num()}
		case "Pools":
			req = &qt.QueryPoolsRequest{Search: text(), Runtime: text(), Disabled: r.Intn(2) == 0, StorageProviderId: uint32(num()), Pagination: page()}
		case "Staker":
			req = &qt.QueryStakerRequest{Address: text()}
		case "Stakers":
			req = &qt.QueryStakersRequest{Search: text(), Status: qt.StakerStatus(r.Intn(9) - 2), Pagination: page()}
		case "StakersByPool":
			req = &qt.QueryStakersByPoolRequest{PoolId: num()}
		case "StakersByPoolCount":
			req = &qt.QueryStakersByPoolCountRequest{Pagination: page()}
		}
		data := enc(req)
		if r.Intn(8) == 0 {
			data = make([]byte, r.Intn(30))
			r.Read(data)
		}
		q.hit("checked")
		q.hit("query.hostile")
		a := q.n.ask(qp+path, data)
		if a.code == panicCode && strings.Contains(a.log, "prefixIterator invalid") {
			q.hit("query.sdk_key_refused") // how the SDK's paging answers a key beyond the last entry
			continue
		}
		if a.code == panicCode {
			q.fail(fmt.Sprintf("%s(%s) panicked: %s", path, req, a.log))
		}
	}
}

// digest is the list of queries and digests of their answers.
func (q *Q) digest(n int) (names, out []string) {
	for _, c := range q.singles(n) {
		a := q.n.ask(c.path, enc(c.req))
		names = append(names, c.name+" "+c.req.String())
		out = append(out, fmt.Sprintf("%d/%s %s", a.code, a.space, sum(a.raw)))
	}
	for _, c := range q.lists(n) {
		req := c.req(&query.PageRequest{Limit: 1000})
		a := q.n.ask(c.path, enc(req))
		names = append(names, c.name)
		out = append(out, fmt.Sprintf("%d/%s %s", a.code, a.space, sum(a.raw)))
	}
	return
}

// queries compares all answers with the committed state.
func (m *Mon) queries(r *rand.Rand, n, hostile int, deep bool) {
	var bad []string
	q := &Q{n: m.N, s: m.Cur, r: r, fail: func(s string) { bad = append(bad, s) }, hit: m.C.Hit}
	var a map[string]map[string]string
	var at []byte
	if deep {
		a = m.digest(quietCtx(m.N.Ctx()))
		at = m.N.App.LastCommitID().Hash
	}
	for _, c := range q.singles(n) {
		q.single(c)
	}
	for _, c := range q.lists(n) {
		q.walk(c)
	}
	q.hostile(hostile)
	if deep {
		m.C.Hit("query.state_comparisons")
		b := m.digest(quietCtx(m.N.Ctx()))
		for st := range a {
			for k := range mergeKeys(a[st], b[st]) {
				if a[st][k] != b[st][k] {
					bad = append(bad, fmt.Sprintf("queries changed store %s key %x from %x to %x", st, k, a[st][k], b[st][k]))
				}
			}
		}
		if !bytes.Equal(at, m.N.App.LastCommitID().Hash) {
			bad = append(bad, "queries changed the state hash")
		}
	}
	if len(bad) > 0 {
		m.report("queries", []string{"P30"}, bad...)
	}
}
