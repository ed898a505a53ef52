package main

// m_dispatch.go: which model rule decides which message, and which
// properties are at stake when it disagrees with the chain.

import (
	"strings"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	bankTypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	"github.com/cosmos/cosmos-sdk/x/group"

	bundlesTypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationTypes "github.com/KYVENetwork/chain/x/delegation/types"
	fundersTypes "github.com/KYVENetwork/chain/x/funders/types"
	globalTypes "github.com/KYVENetwork/chain/x/global/types"
	poolTypes "github.com/KYVENetwork/chain/x/pool/types"
	stakersTypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamTypes "github.com/KYVENetwork/chain/x/team/types"
)

type rule struct {
	props string
	apply func(w *World, m sdk.Msg) error
}

func on[T sdk.Msg](props string, f func(w *World, m T) error) rule {
	return rule{props, func(w *World, m sdk.Msg) error { return f(w, m.(T)) }}
}

var rules map[string]rule

func init() {
	add := func(m sdk.Msg, r rule) { rules[sdk.MsgTypeURL(m)] = r }
	rules = map[string]rule{}
	add(&delegationTypes.MsgDelegate{}, on("P05 P03", (*World).mDelegate))
	add(&delegationTypes.MsgUndelegate{}, on("P05", (*World).mUndelegate))
	add(&delegationTypes.MsgWithdrawRewards{}, on("P03", (*World).mWithdraw))
	add(&delegationTypes.MsgRedelegate{}, on("P06 P03", (*World).mRedelegate))
	add(&delegationTypes.MsgUpdateParams{}, on("P22", (*World).mDelParams))
	add(&stakersTypes.MsgCreateStaker{}, on("P05 P19", (*World).mCreateStaker))
	add(&stakersTypes.MsgUpdateMetadata{}, on("P20", (*World).mUpdateMetadata))
	add(&stakersTypes.MsgUpdateCommission{}, on("P19", (*World).mUpdateCommission))
	add(&stakersTypes.MsgClaimCommissionRewards{}, on("P19", (*World).mClaimCommission))
	add(&stakersTypes.MsgJoinPool{}, on("P17", (*World).mJoinPool))
	add(&stakersTypes.MsgLeavePool{}, on("P18", (*World).mLeavePool))
	add(&stakersTypes.MsgUpdateParams{}, on("P22", (*World).mStkParams))
	add(&bundlesTypes.MsgSubmitBundleProposal{}, on("P07 P08 P09 P10 P11 P12 P13 P15", (*World).mSubmit))
	add(&bundlesTypes.MsgVoteBundleProposal{}, on("P08 P13", (*World).mVote))
	add(&bundlesTypes.MsgClaimUploaderRole{}, on("P11 P13", (*World).mClaim))
	add(&bundlesTypes.MsgSkipUploaderRole{}, on("P09 P11 P12 P13", (*World).mSkip))
	add(&bundlesTypes.MsgUpdateParams{}, on("P22", (*World).mBunParams))
	add(&fundersTypes.MsgCreateFunder{}, on("P15 P20", (*World).mCreateFunder))
	add(&fundersTypes.MsgUpdateFunder{}, on("P15 P20", (*World).mUpdateFunder))
	add(&fundersTypes.MsgFundPool{}, on("P15 P16", (*World).mFundPool))
	add(&fundersTypes.MsgDefundPool{}, on("P15 P16", (*World).mDefundPool))
	add(&fundersTypes.MsgUpdateParams{}, on("P22", (*World).mFunParams))
	add(&globalTypes.MsgUpdateParams{}, on("P22", (*World).mGloParams))
	add(&poolTypes.MsgCreatePool{}, on("P21", (*World).mCreatePool))
	add(&poolTypes.MsgUpdatePool{}, on("P21", (*World).mUpdatePool))
	add(&poolTypes.MsgDisablePool{}, on("P21 P13", (*World).mDisablePool))
	add(&poolTypes.MsgEnablePool{}, on("P21", (*World).mEnablePool))
	add(&poolTypes.MsgScheduleRuntimeUpgrade{}, on("P21", (*World).mScheduleUpgrade))
	add(&poolTypes.MsgCancelRuntimeUpgrade{}, on("P21", (*World).mCancelUpgrade))
	add(&poolTypes.MsgUpdateParams{}, on("P22", (*World).mPoolParams))
	add(&teamTypes.MsgCreateTeamVestingAccount{}, on("P23", (*World).mCreateTeam))
	add(&teamTypes.MsgClawback{}, on("P23", (*World).mClawback))
	add(&teamTypes.MsgClaimUnlocked{}, on("P23", (*World).mClaimUnlocked))
	add(&teamTypes.MsgClaimAccountRewards{}, on("P24", (*World).mClaimAccountRewards))
	add(&teamTypes.MsgClaimAuthorityRewards{}, on("P24", (*World).mClaimAuthorityRewards))
	add(&bankTypes.MsgSend{}, on("P02", (*World).mSend))
	add(&authz.MsgExec{}, on("P20", (*World).mAuthzExec))
	add(&group.MsgSubmitProposal{}, on("P20", (*World).mGroup))
}

func (w *World) apply(m sdk.Msg) error {
	r, ok := rules[sdk.MsgTypeURL(m)]
	if !ok {
		return errUnmodelled
	}
	return r.apply(w, m)
}

// opName is the short name of a message for coverage counters.
func opName(m sdk.Msg) string {
	u := sdk.MsgTypeURL(m)
	p := strings.Split(strings.TrimPrefix(u, "/"), ".")
	mod := p[0]
	if len(p) > 2 && (p[0] == "kyve" || p[0] == "cosmos") {
		mod = p[1]
	}
	return mod + "." + strings.TrimPrefix(p[len(p)-1], "Msg")
}

// opProps lists the properties a message's behaviour belongs to.
func opProps(m sdk.Msg) []string {
	r, ok := rules[sdk.MsgTypeURL(m)]
	if !ok {
		return nil
	}
	l := strings.Fields(r.props)
	for _, in := range innerMsgs(m) {
		l = append(l, opProps(in)...)
	}
	return l
}

func innerMsgs(m sdk.Msg) []sdk.Msg {
	var l []sdk.Msg
	var err error
	switch x := m.(type) {
	case *authz.MsgExec:
		l, err = x.GetMessages()
	case *group.MsgSubmitProposal:
		l, err = x.GetMsgs()
	case *govv1.MsgSubmitProposal:
		l, err = x.GetMsgs()
	}
	if err != nil {
		return nil
	}
	return l
}

// msgSigner is the account a KYVE message speaks for.
func msgSigner(m sdk.Msg) string {
	switch x := m.(type) {
	case interface{ GetCreator() string }:
		return x.GetCreator()
	case interface{ GetAuthority() string }:
		return x.GetAuthority()
	case *bankTypes.MsgSend:
		return x.FromAddress
	}
	// generated KYVE messages expose the fields only
	switch x := m.(type) {
	case *delegationTypes.MsgDelegate:
		return x.Creator
	case *delegationTypes.MsgUndelegate:
		return x.Creator
	case *delegationTypes.MsgWithdrawRewards:
		return x.Creator
	case *delegationTypes.MsgRedelegate:
		return x.Creator
	case *delegationTypes.MsgUpdateParams:
		return x.Authority
	case *stakersTypes.MsgCreateStaker:
		return x.Creator
	case *stakersTypes.MsgUpdateMetadata:
		return x.Creator
	case *stakersTypes.MsgUpdateCommission:
		return x.Creator
	case *stakersTypes.MsgClaimCommissionRewards:
		return x.Creator
	case *stakersTypes.MsgJoinPool:
		return x.Creator
	case *stakersTypes.MsgLeavePool:
		return x.Creator
	case *stakersTypes.MsgUpdateParams:
		return x.Authority
	case *bundlesTypes.MsgSubmitBundleProposal:
		return x.Creator
	case *bundlesTypes.MsgVoteBundleProposal:
		return x.Creator
	case *bundlesTypes.MsgClaimUploaderRole:
		return x.Creator
	case *bundlesTypes.MsgSkipUploaderRole:
		return x.Creator
	case *bundlesTypes.MsgUpdateParams:
		return x.Authority
	case *fundersTypes.MsgCreateFunder:
		return x.Creator
	case *fundersTypes.MsgUpdateFunder:
		return x.Creator
	case *fundersTypes.MsgFundPool:
		return x.Creator
	case *fundersTypes.MsgDefundPool:
		return x.Creator
	case *fundersTypes.MsgUpdateParams:
		return x.Authority
	case *globalTypes.MsgUpdateParams:
		return x.Authority
	case *poolTypes.MsgCreatePool:
		return x.Authority
	case *poolTypes.MsgUpdatePool:
		return x.Authority
	case *poolTypes.MsgDisablePool:
		return x.Authority
	case *poolTypes.MsgEnablePool:
		return x.Authority
	case *poolTypes.MsgScheduleRuntimeUpgrade:
		return x.Authority
	case *poolTypes.MsgCancelRuntimeUpgrade:
		return x.Authority
	case *poolTypes.MsgUpdateParams:
		return x.Authority
	case *teamTypes.MsgCreateTeamVestingAccount:
		return x.Authority
	case *teamTypes.MsgClawback:
		return x.Authority
	case *teamTypes.MsgClaimUnlocked:
		return x.Authority
	case *teamTypes.MsgClaimAccountRewards:
		return x.Authority
	case *teamTypes.MsgClaimAuthorityRewards:
		return x.Authority
	case *bankTypes.MsgSend:
		return x.FromAddress
	case *authz.MsgExec:
		return x.Grantee
	case *group.MsgSubmitProposal:
		if len(x.Proposers) == 1 {
			return x.Proposers[0]
		}
	case *group.MsgVote:
		return x.Voter
	case *group.MsgExec:
		return x.Executor
	case *govv1.MsgSubmitProposal:
		return x.Proposer
	case *govv1.MsgVote:
		return x.Voter
	case *govv1.MsgDeposit:
		return x.Depositor
	}
	return "" // a message of another module whose signer the model does not know
}

func (w *World) mSend(m *bankTypes.MsgSend) error {
	if m.Amount.Empty() || m.Amount.Validate() != nil || !validAddr(m.ToAddress) || isBlocked(m.ToAddress) {
		return rejectf("not sendable")
	}
	if !w.Send(m.FromAddress, m.ToAddress, m.Amount) {
		return errFunds
	}
	return nil
}

// mAuthzExec: every inner message needs a grant by its own signer.
func (w *World) mAuthzExec(m *authz.MsgExec) error {
	for _, in := range innerMsgs(m) {
		s := msgSigner(in)
		if s == "" {
			return errUnmodelled
		}
		if s != m.Grantee && !w.Grants[s+"|"+m.Grantee+"|"+sdk.MsgTypeURL(in)] {
			w.C.Hit("authz.no_grant")
			return rejectf("no grant")
		}
		if err := w.apply(in); err != nil {
			return err
		}
		w.C.Hit("authz.executed." + opName(in))
	}
	return nil
}

// mGroup: a proposal of a single-member group that executes at once; if its
// messages fail the proposal stays and nothing else happens.
func (w *World) mGroup(m *group.MsgSubmitProposal) error {
	ins := innerMsgs(m)
	for _, in := range ins {
		if msgSigner(in) != m.GroupPolicyAddress {
			w.C.Hit("group.foreign_signer")
			return rejectf("signer is not the group policy")
		}
	}
	if m.Exec != group.Exec_EXEC_TRY || len(m.Proposers) != 1 || w.GroupAdmin[m.GroupPolicyAddress] != m.Proposers[0] {
		return errUnmodelled
	}
	f := w.Fork()
	for _, in := range ins {
		if err := f.apply(in); err != nil {
			w.C.Hit("group.failed")
			if err == errUnmodelled {
				return err
			}
			return nil
		}
	}
	w.take(f)
	w.C.Hit("group.executed")
	for _, in := range ins {
		w.C.Hit("group.executed." + opName(in))
	}
	return nil
}
