#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source of the property texts).
import json,os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state,observe,hook=False):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=state,observe_at=observe,hook_needed=hook)))
H="histories";I="inputs";C="configurations";S="schedules";X="crash_points"
p("P01","Escrow accounts always hold what the protocol owes",
 "After every transaction and every block, the account escrowing delegations holds at least all current stakes plus all outstanding delegation rewards, the account escrowing commissions holds at least all unclaimed commission, the account escrowing fundings holds at least all remaining funds of all funders in every coin, and the team account holds at least what vesting accounts and the authority may still claim. Escrow holdings never drift away from those obligations by more than integer rounding dust.",
 [H,I],"all sequences of messages, slashes, payouts and blocks, with arbitrary amounts and coins",
 "Tests check balances after a few hand-written steps; drift appears only from particular mixes of rounding, slashing, partial payouts and kicks.",
 ["x/delegation/keeper/logic_delegation.go","x/delegation/keeper/logic_f1distribution.go","x/stakers/keeper/exported_functions.go","x/funders/keeper/logic_funders.go","x/team/keeper/logic_team.go","util/logic_util.go"],
 [("module account escrow","util/logic_util.go"),("F1 distribution","x/delegation/keeper/logic_f1distribution.go")],
 ["bank balances of module accounts","delegations","commission rewards","fundings","team accounts"],["after every tx","after every module begin/end block"])
p("P02","Coins are conserved: only inflation mints, only fee burning burns",
 "No transaction ever changes the total supply of any coin, and no block-level step does either except the periodic inflation mint and the burning of the configured share of collected fees. Every coin that leaves one account in a transaction or a block step arrives at exactly one other account in the same step.",
 [H,I,C],"all message sequences, coin sets and fee/inflation settings",
 "Tests observe the accounts they name; a coin sent to the wrong account or minted in an odd branch is only visible when every account and the supply are watched across long histories.",
 ["util/logic_util.go","x/global/abci.go","x/bundles/keeper/logic_bundles.go","x/team/abci.go"],
 [("transfers","util/logic_util.go"),("fee burn","x/global/abci.go"),("minting split","x/bundles/abci.go")],
 ["bank balances and supply"],["before/after every tx and every module begin/end block"])
p("P03","Delegation rewards are shared proportionally to stake",
 "Every reward paid to a staker's delegators is credited to the delegators of that staker in proportion to their stakes at the moment of the payment, up to integer rounding, and to nobody else. A delegator can withdraw exactly what has been credited since the last withdrawal, once, in every coin; delegating, undelegating, redelegating and slashing never lose, duplicate or reassign rewards already credited.",
 [H,I],"all interleavings of delegation changes, slashes, payouts in several coins and withdrawals",
 "The unit tests use a handful of delegators and fixed amounts; the lazy accumulator errs only for specific orders of slash, payout and stake change.",
 ["x/delegation/keeper/logic_f1distribution.go","x/delegation/keeper/logic_delegation.go","x/delegation/keeper/exported_functions.go","x/delegation/keeper/msg_server_withdraw_rewards.go"],
 [("F1 periods","x/delegation/keeper/logic_f1distribution.go:f1StartNewPeriod"),("payout","x/delegation/keeper/exported_functions.go:PayoutRewards")],
 ["delegation data","delegation entries","delegators"],["MsgWithdrawRewards","outstanding rewards query","payout at bundle finalization"])
p("P04","Slashing takes exactly the configured fraction from every delegator",
 "A slash of a staker reduces the stake of each of its delegators by the configured fraction for that offence at that moment, with at most rounding error, reduces the staker's total by that fraction, moves exactly the removed coins to the community pool, and touches no other staker. Later stake readings, undelegations and rewards all use the slashed stakes, however many slashes, delegations and partial undelegations lie between.",
 [H,I,C],"all sequences of slashes (timeout, vote, upload) with stake changes between, all slash fractions",
 "Slashes are applied lazily on next access; tests cover one or two slashes in a fixed order.",
 ["x/delegation/keeper/exported_functions.go","x/delegation/keeper/logic_f1distribution.go","x/delegation/keeper/getters_delegation_slash.go","x/bundles/keeper/logic_bundles.go"],
 [("SlashDelegators","x/delegation/keeper/exported_functions.go"),("f1Slash","x/delegation/keeper/logic_f1distribution.go")],
 ["delegation slash entries","delegation totals"],["slash events","stake queries","community pool balance"])
p("P05","Delegations and unbonding queue pay back exactly once, in time and order",
 "Delegating moves exactly the named amount out of the delegator's account into their stake with an existing staker. An undelegation request never exceeds the current stake, is executed once the unbonding time has elapsed and never before, in request order, and pays the requested amount or the remaining stake if slashing left less; until then the stake keeps earning and stays slashable.",
 [H,I,C],"all sequences of delegate/undelegate requests, slashes and changes of the unbonding time",
 "Tests use one or two queue entries with round times; ordering, clipping and parameter changes mid-queue are not explored.",
 ["x/delegation/keeper/logic_unbonding.go","x/delegation/keeper/logic_delegation.go","x/delegation/keeper/msg_server_undelegate.go","x/delegation/keeper/msg_server_delegate.go"],
 [("unbonding queue","x/delegation/keeper/logic_unbonding.go")],["undelegation queue","delegators"],["MsgDelegate","MsgUndelegate","begin block"])
p("P06","Redelegation moves stake at once, within the configured limits",
 "A redelegation moves exactly the requested amount of the delegator's stake from one staker to another one immediately, without passing through the delegator's account and without loss, and only to a staker that currently participates in some pool. Each delegator may use at most the configured number of redelegations within the cooldown period, each used slot becoming free again exactly after the cooldown; a rejected redelegation consumes none.",
 [H,I,C],"all redelegation sequences and settings of the number of slots and the cooldown",
 "Tests walk one schedule of slots; expiry boundaries and mixtures with slashes are not explored.",
 ["x/delegation/keeper/logic_redelegation.go","x/delegation/keeper/msg_server_redelegate.go","x/delegation/keeper/getters_redelegation.go"],
 [("redelegation spells","x/delegation/keeper/logic_redelegation.go")],["redelegation cooldowns","delegations"],["MsgRedelegate"])
p("P07","The archive of finalized bundles is contiguous and immutable",
 "In every pool, finalized bundles are numbered 0,1,2,… without gaps, each one starts exactly at the index where the previous one ended, the last one ends at the pool's current index, and the pool's current key and summary are those of the last finalized bundle. A finalized bundle never changes or disappears, and it carries exactly the storage id, data hash, key range, summary and storage/compression ids of the proposal that was voted on.",
 [H],"all histories of submissions, votes, drops, timeouts, upgrades and pool disabling",
 "Tests finalize a few bundles; continuity over drops, replacement of the current proposal, and mixed pools needs long histories.",
 ["x/bundles/keeper/logic_bundles.go","x/bundles/keeper/getters_bundles.go","x/pool/keeper/logic_pool.go","x/bundles/keeper/msg_server_submit_bundle_proposal.go"],
 [("finalizeCurrentBundleProposal","x/bundles/keeper/logic_bundles.go"),("registerBundleProposalFromUploader","x/bundles/keeper/logic_bundles.go")],
 ["finalized bundles","bundle proposals","pools"],["MsgSubmitBundleProposal","end block"])
p("P08","Each pool member votes at most once per proposal, and only eligibly",
 "On every bundle proposal each staker's vote is recorded at most once, under the option cast, and only if cast for the current proposal by the account that the staker authorised for that pool; only an abstain may later be changed, to valid or invalid. The uploader counts as having voted valid from the start, and votes never carry over from one proposal to the next.",
 [H,I],"all vote sequences by any account, for current, stale or empty proposals",
 "Tests cover single vote transitions; combinations with leaves, kicks and replaced proposals are not.",
 ["x/bundles/keeper/logic_bundles.go","x/bundles/keeper/msg_server_vote_bundle_proposal.go"],
 [("AssertCanVote","x/bundles/keeper/logic_bundles.go"),("validateVote / vote lists","x/bundles/keeper/msg_server_vote_bundle_proposal.go")],
 ["bundle proposals"],["MsgVoteBundleProposal","MsgSubmitBundleProposal"])
p("P09","A bundle's fate follows the stake-weighted majority of current members",
 "A proposal is finalized as valid only if stakers holding more than half of the stake currently in that pool voted valid, and dropped as invalid only if at least half of it voted invalid; votes of stakers no longer in the pool count for nothing, and with neither majority the submission is rejected or the proposal dropped at timeout without slashing for the vote. The evaluation uses the stakes and membership at the moment of evaluation.",
 [H,I],"all stake distributions, vote splits and membership changes between vote and evaluation",
 "Tests check a few ratios; exact-half ties, slashed stakes and departed voters need systematic histories.",
 ["x/bundles/keeper/logic_bundles.go","x/bundles/keeper/msg_server_submit_bundle_proposal.go","x/bundles/keeper/logic_end_block_handle_upload_timeout.go"],
 [("GetVoteDistribution","x/bundles/keeper/logic_bundles.go"),("tallyBundleProposal","x/bundles/keeper/logic_bundles.go")],
 ["bundle proposals","delegation totals","pool members"],["MsgSubmitBundleProposal","upload timeout"])
p("P10","A finalized bundle's payout is split exactly and completely",
 "When a bundle is finalized, exactly the pool's inflation payout plus the funders' contributions for this bundle are distributed: the network fee share to the community pool, the storage reimbursement and the commission share to the uploader's commission account, and the rest to the uploader's delegators (to the uploader if nobody delegates). The parts add up to the total in every coin, nothing is paid for dropped or invalid bundles, and stakers that voted against the outcome are slashed at the rate for their offence.",
 [H,I,C],"all parameters, data sizes, coin sets, funding states and vote patterns",
 "Tests pin a few configurations; rounding, multi-coin storage cost, clipping to what is available and empty payouts interact.",
 ["x/bundles/keeper/logic_bundles.go"],
 [("calculatePayouts","x/bundles/keeper/logic_bundles.go"),("tallyBundleProposal","x/bundles/keeper/logic_bundles.go")],
 ["bank balances","commission rewards","delegation rewards"],["bundle finalized event","balances around each submission and timeout"])
p("P11","Uploader selection is a deterministic, stake-weighted rotation of members",
 "Whenever an uploader is selected in a pool that has members with stake, it is one of those members, chosen by a deterministic weighted rotation in which each member's share of turns tends to its share of the pool's stake; members excluded for a turn (the member that just skipped and, after a valid bundle, those that did not vote valid) are not chosen while another member exists. Only the designated uploader can submit the next proposal, only after the minimum upload interval, and the role can only be claimed when nobody holds it.",
 [H,I],"all member sets, stake distributions and join/leave/skip/timeout sequences",
 "Tests simulate a few fixed validator sets; exclusion and membership change combine with accumulated progress.",
 ["x/bundles/keeper/logic_round_robin.go","x/bundles/keeper/logic_bundles.go","x/bundles/keeper/msg_server_skip_uploader_role.go","x/bundles/keeper/msg_server_claim_uploader_role.go"],
 [("round robin","x/bundles/keeper/logic_round_robin.go")],["round robin progress","next uploader"],["next uploader after each transition"])
p("P12","Inactive members get points and are removed exactly at the limit",
 "A member that neither uploads nor votes on an evaluated proposal gains one point and any participation resets its points to zero; a member reaching the configured maximum is slashed for timeout and removed from the pool, and nobody is removed before. An uploader that fails to act within the upload timeout loses the role and gains one point in the same way, while a pending proposal is evaluated exactly once when the timeout strikes.",
 [H,I,C],"all participation patterns, timeout settings and block times",
 "Tests use short fixed sequences; boundary times and points across proposals, kicks and rejoins are not covered.",
 ["x/bundles/keeper/logic_end_block_handle_upload_timeout.go","x/bundles/keeper/logic_bundles.go","x/stakers/keeper/exported_functions.go"],
 [("HandleUploadTimeout","x/bundles/keeper/logic_end_block_handle_upload_timeout.go"),("addPoint/handleNonVoters","x/bundles/keeper/logic_bundles.go")],
 ["valaccount points","bundle proposal timestamps"],["end block","slash events"])
p("P13","A pool makes progress only while it is allowed to run",
 "No proposal is submitted, voted on, claimed or skipped in a pool that is disabled, upgrading, at its end key, below its minimum delegation, or in which one staker holds more than the permitted share of voting power; once a block ends in such a pool no uploader is designated, and nobody is timed out or slashed there. The reported status of a pool agrees with what the pool accepts.",
 [H,I,C],"all combinations of pool settings, stakes and governance actions over time",
 "Tests set one blocking condition at a time and check one message.",
 ["x/bundles/keeper/logic_bundles.go","x/query/keeper/helper.go"],
 [("AssertPoolCanRun","x/bundles/keeper/logic_bundles.go")],["pools","delegation totals","bundle proposals"],["every bundles message","end block","pool status query"])
p("P14","Minted inflation is split between validators and runnable pools exactly",
 "Of the coins minted in a block (after the team share), the validators receive their share plus rounding, the configured protocol share goes to the accounts of the pools that can run, proportionally to their inflation weights, and nothing to pools that cannot run; if no pool can run everything goes to validators. The parts add up to the minted amount, and a finalized bundle draws exactly the configured rate of its pool's accumulated account.",
 [H,I,C],"all pool sets, weights, runnability states, inflation shares and payout rates",
 "Tests fix one or two pools and one share.",
 ["x/bundles/abci.go","x/bundles/keeper/keeper.go","x/pool/keeper/logic_pool.go"],
 [("SplitInflation","x/bundles/abci.go"),("ChargeInflationPool","x/pool/keeper/logic_pool.go")],
 ["pool accounts","mint/fee collector accounts"],["begin block"])
p("P15","Funders are charged at most what they agreed, and refunds are exact",
 "Each finalized bundle charges every active funder of that pool, per coin, exactly the smaller of the agreed amount per bundle and the remaining funds, for whitelisted coins only, and nobody else. Funding and defunding move exactly the stated coins between the funder's account and its recorded funds, only for funds meeting the configured minimums, and total contributed amounts always equal the sum of charges.",
 [H,I,C],"all multi-coin funding, defunding and charging sequences and whitelist changes",
 "Tests use one or two coins and funders; partially exhausted, un-whitelisted and re-funded mixes are not explored.",
 ["x/funders/keeper/logic_funders.go","x/funders/keeper/msg_server_fund_pool.go","x/funders/keeper/msg_server_defund_pool.go","x/funders/types/funders.go"],
 [("ChargeFundersOfPool","x/funders/keeper/logic_funders.go")],["fundings","funding states"],["MsgFundPool","MsgDefundPool","bundle finalization"])
p("P16","Funder slots: bounded, exact membership, lowest is evicted and refunded",
 "A pool never has more than fifty active funders, and a funder is listed as active exactly while it has remaining funds in that pool. When all slots are taken a new funder is admitted only if its score is not below that of the lowest active funder, which is then removed and refunded completely; otherwise the funding is rejected without effect.",
 [H,I],"all sequences of funding, top-up, defunding and charging around a full pool",
 "Tests fill the slots once with single-coin funders.",
 ["x/funders/keeper/logic_funders.go","x/funders/types/funders.go"],
 [("ensureFreeSlot","x/funders/keeper/logic_funders.go"),("SetActive/SetInactive","x/funders/types/funders.go")],["funding states","fundings"],["MsgFundPool","MsgDefundPool","charging"])
p("P17","Pool membership of stakers is bounded, unique and stake-ordered",
 "A staker joins an existing enabled pool at most once, with an operating account that is not its own and that neither another member of that pool nor the staker itself in another pool uses; a pool never has more than fifty members, and when it is full a newcomer is admitted only with strictly more stake than the lowest member, who is removed. Membership, per-staker and per-pool views and counts always agree.",
 [H,I],"all join/leave/kick sequences, colliding operating accounts and full pools",
 "Tests cover single joins and one full-pool case.",
 ["x/stakers/keeper/msg_server_join_pool.go","x/stakers/keeper/logic_stakers.go","x/stakers/keeper/getters_valaccount.go"],
 [("JoinPool","x/stakers/keeper/msg_server_join_pool.go"),("ensureFreeSlot","x/stakers/keeper/logic_stakers.go")],["valaccounts","staker counts"],["MsgJoinPool","MsgLeavePool","kicks"])
p("P18","Leaving a pool takes effect once, after the leave time, and only on request",
 "A member that requests to leave stays a full member until the leave time has elapsed and is removed then, not earlier. A member is never removed because of a request made during an earlier membership, can always request to leave the pool it is currently in unless it already did, and requests execute in the order they were made.",
 [H,I,C],"all sequences of leave, removal by other causes and rejoin, and changes of the leave time",
 "Tests never combine a pending leave with a kick and a rejoin.",
 ["x/stakers/keeper/logic_leave.go","x/stakers/keeper/exported_functions.go","x/stakers/keeper/msg_server_leave_pool.go"],
 [("leave queue","x/stakers/keeper/logic_leave.go")],["leave queue","valaccounts"],["begin block","MsgLeavePool"])
p("P19","Commission changes are delayed; commission rewards are paid once",
 "A commission change takes effect exactly when its delay has elapsed and never before, the last request before that replaces earlier ones, and the commission always lies between 0 and 1. Commission credited to a staker can be claimed by that staker only, in any parts, and never more than was credited in total.",
 [H,I,C],"all sequences of change requests, claims and delay-parameter changes",
 "Tests use one or two requests with a fixed delay.",
 ["x/stakers/keeper/logic_commission.go","x/stakers/keeper/msg_server_claim_commission_rewards.go","x/stakers/keeper/msg_server_update_commission.go"],
 [("commission queue","x/stakers/keeper/logic_commission.go")],["stakers","commission queue"],["begin block","MsgUpdateCommission","MsgClaimCommissionRewards"])
p("P20","Every message acts only with its rightful signer's authority",
 "Governance-only messages have no effect unless sent by the governance authority, team messages only take effect for the team authorities entitled to them, and every other message changes only things that belong to its signer. In particular no account can upload, vote, skip or claim roles for a staker without being that staker's authorised operating account in that pool.",
 [I,H],"all messages from all signers, including signers entitled elsewhere",
 "Tests try one wrong signer for some messages.",
 ["x/*/keeper/msg_server_*.go","x/stakers/keeper/exported_functions.go"],
 [("authority checks","x/*/keeper/msg_server_*.go"),("AssertValaccountAuthorized","x/stakers/keeper/exported_functions.go")],["all module state"],["all messages"])
p("P21","Pool lifecycle and runtime upgrades execute exactly as decided",
 "Pools get consecutive ids and the settings decided by governance; disabling a pool removes all members and stops it, enabling makes it available again, and re-doing either is rejected. A scheduled runtime upgrade changes version and binaries of exactly the pools of that runtime that had no plan, at the scheduled time, keeps them stopped for exactly the stated duration, and a cancellation before that leaves the old version.",
 [H,I],"all sequences of governance actions on pools and upgrade schedules over block times",
 "Tests run one upgrade from start to end.",
 ["x/pool/keeper/msg_server_*.go","x/pool/keeper/logic_end_block_handle_pool_upgrades.go"],
 [("HandlePoolUpgrades","x/pool/keeper/logic_end_block_handle_pool_upgrades.go")],["pools"],["governance messages","end block"])
p("P22","Parameter updates are all-or-nothing, partial-safe and validated",
 "An accepted parameter update changes exactly the parameters named in it to the stated values and leaves all others as they were, and later operations use the new values. An update containing an invalid value has no effect, so parameters are always within their valid ranges.",
 [I,H],"all partial, malformed and out-of-range payloads for every module",
 "Tests check fixed payloads one parameter at a time.",
 ["x/*/keeper/msg_server_update_params.go","x/*/types/params.go","x/*/types/message_update_params.go","util/validate.go"],
 [("UpdateParams","x/*/keeper/msg_server_update_params.go")],["module params"],["MsgUpdateParams"])
p("P23","Team vesting: claims never exceed what vested and unlocked",
 "At every time a team account has claimed at most what is unlocked for it, which never exceeds what has vested, which never exceeds its allocation; before the cliff and for accounts clawed back before it nothing vests, and after a clawback vesting stops at that moment. Allocations together never exceed the team allocation, and claims move exactly the claimed amount from the team account once.",
 [H,I],"all account schedules, clawback times, claim sequences and times",
 "Tests sample a few schedule points.",
 ["x/team/keeper/logic_team.go","x/team/keeper/msg_server_*.go"],
 [("vesting formulas","x/team/keeper/logic_team.go")],["team accounts"],["MsgClaimUnlocked","MsgClawback","MsgCreateTeamVestingAccount","status queries"])
p("P24","Team inflation rewards are conserved and split by locked vested share",
 "In every block the team receives its exact proportional share of the minted coins, all of which is credited either to vesting accounts, each in proportion to its vested but not yet claimed allocation, or to the authority. Credited rewards can be claimed once, only up to the credited total, by the entitled party.",
 [H,I],"all team account sets, vesting states, claims and mint amounts over time",
 "Tests use a few accounts and blocks.",
 ["x/team/abci.go","x/team/keeper/logic_team.go","x/team/keeper/msg_server_claim_account_rewards.go","x/team/keeper/msg_server_claim_authority_rewards.go"],
 [("DistributeTeamInflation","x/team/abci.go")],["team accounts","authority"],["begin block","claim messages"])
p("P25","Fees: minimum price, gas surcharges, refunds and burning are exact",
 "A transaction enters a block only if it offers at least the configured minimum gas price (and a mempool only if it meets that or the minimum of the node's operator), pays its fee once, consumes additionally exactly the configured gas surcharge for its messages, and gets back exactly the configured share for refundable single messages. At the end of each block exactly the configured share of collected fees is burned and the rest remains for distribution.",
 [I,C,H],"all transactions (single, multi-message, nested), fee coins, granters and fee parameters",
 "Tests call decorators with one fixed transaction.",
 ["x/global/ante.go","x/global/post.go","x/global/abci.go"],
 [("DeductFeeDecorator","x/global/ante.go"),("RefundFeeDecorator","x/global/post.go"),("EndBlocker burn","x/global/abci.go")],["global params","fee collector balance"],["tx processing","end block"])
p("P26","Failed transactions leave no trace but their fee",
 "A transaction that is rejected or whose messages fail changes nothing in the state except the fee paid and the sender's sequence, whatever part of its work had been done before the failure, and a rejected transaction that never passed admission changes nothing at all.",
 [I,H],"all failing transactions, including multi-message ones failing at a late message and ones running out of gas",
 "Tests check an error code and a few fields.",
 ["x/*/keeper/msg_server_*.go","x/global/ante.go","x/global/post.go"],
 [("cached message execution","app/app.go")],["whole state"],["state before/after each failed tx"])
p("P27","Execution is deterministic: replicas reach identical states and results",
 "Two nodes executing the same blocks from the same genesis report identical state hashes, transaction results, gas and events at every height, independent of process, scheduling, map iteration order and concurrent queries.",
 [H,S],"all block histories, executed by independently started nodes",
 "Unit tests execute once; non-determinism shows only between runs.",
 ["x/bundles/keeper/logic_round_robin.go","x/bundles/abci.go","x/delegation/keeper","x/query/keeper","app/app.go"],
 [("ordered iteration","x/bundles/keeper/logic_round_robin.go"),("memory indices","x/delegation/keeper/getters_index_stakers.go")],["app hash"],["FinalizeBlock responses"])
p("P28","A node restarted at any height behaves as if it never stopped",
 "Stopping a node at any height, including between executing and committing a block, and restarting it from its database loses nothing and yields the same state hashes, results and query answers for all following blocks as an uninterrupted node. In-memory indices rebuilt after a restart answer exactly as before.",
 [X,H],"all stop points in all histories",
 "Tests never restart the application.",
 ["x/bundles/keeper/getters_bundles.go","x/delegation/keeper/getters_index_stakers.go","x/bundles/abci.go","x/delegation/module.go","app/app.go"],
 [("InitMemStore","x/bundles/keeper/keeper.go"),("delegation mem index","x/delegation/keeper/keeper.go")],["memory stores"],["app hash and queries after restart"])
p("P29","Exported state re-imports into an equivalent chain",
 "The state exported at any height passes its own validation, can be imported as the genesis of a new chain, exports again identically, and the new chain answers the same queries and treats the same subsequent transactions in the same way as the original.",
 [H],"all reachable states at export time",
 "Genesis tests round-trip a hand-written genesis with few entries.",
 ["x/*/genesis.go","x/*/types/genesis.go","app/export.go"],
 [("ExportGenesis/InitGenesis","x/*/genesis.go")],["all module state"],["export, validate, import, continue"])
p("P30","Queries report the state exactly, completely and without changing it",
 "Every query answers with values equal to the current state: pools, members, stakers, funders, delegators, unbondings, redelegations, bundles, votes, assets and vesting status. Walking all pages of a list, forwards, backwards, with any page size, by offset and (where the list supports it) by key, yields every matching entry exactly once, arbitrary input never crashes the query, and no query changes the state.",
 [H,I],"all reachable states, all filters, page sizes, offsets and malformed inputs",
 "Only three of the query services have tests at all.",
 ["x/query/keeper/*.go","x/bundles/keeper/getters_bundles.go","x/stakers/keeper/getters_*.go","x/team/keeper/grpc_*.go","x/delegation/keeper/exported_functions.go"],
 [("paginated queries","x/query/keeper"),("index queries","x/delegation/keeper/exported_functions.go")],["all module state"],["gRPC queries"])
p("P31","What the node predicts about propose, vote and validate is what happens",
 "At any moment, for any account, the answers to whether an account can propose, can vote or can validate in a pool agree with whether the chain would accept the corresponding message in the same state, and a negative answer carries a reason.",
 [H,I],"all states and all combinations of pool, staker, operating account and proposal",
 "Tests enumerate some reasons; agreement with execution is never compared.",
 ["x/query/keeper/grpc_query_can_propose.go","x/query/keeper/grpc_query_can_vote.go","x/query/keeper/grpc_query_can_validate.go","x/bundles/keeper/logic_bundles.go"],
 [("CanVote/CanPropose/CanValidate","x/query/keeper")],["all bundle state"],["queries compared with message execution"])
p("P32","Concurrent queries and block processing are free of data races",
 "Serving queries and simulations concurrently with block processing never races on the protocol's shared memory, never crashes and never influences execution, and an answer read from the stored records (rather than from the block time or the in-memory indices, which the SDK switches separately) is that of one committed state.",
 [S,H],"all interleavings of concurrent queries with block execution and commit",
 "Tests are single-threaded and run without the race detector.",
 ["app/app.go","x/bundles/keeper/keeper.go","x/delegation/keeper/keeper.go","x/query/keeper"],
 [("memStoreInitialized flags","x/bundles/keeper/keeper.go")],["memory stores","keepers"],["race detector","query answers"])
p("P33","No transaction or governance decision can halt or crash the chain",
 "Whatever transactions are submitted and whatever valid parameter settings are in force, every block completes: block-level processing never panics or returns an error and never triggers the emergency halt, and a transaction that cannot be executed fails by itself.",
 [I,H,C],"all inputs including extreme amounts, sizes and times, and all valid parameters",
 "Tests use moderate values; a panic in block processing stops every validator.",
 ["x/bundles/keeper/logic_bundles.go","util/halt.go","x/*/abci.go","x/*/module.go"],
 [("PanicHalt","util/halt.go"),("end/begin block","x/*/module.go")],["whole state"],["FinalizeBlock errors and panics, upgrade plan"])
p("P34","Protocol stake counts in governance exactly as much as it is",
 "In governance tallies, stake delegated to protocol stakers that participate in a pool counts exactly as the delegators' current stake, added to the chain's bonded stake: each delegator's vote counts for its own stake, a staker's vote for the stakes of its delegators that did not vote, and stake of stakers outside every pool does not count.",
 [H,I],"all delegation states and combinations of voters",
 "No test runs a tally with protocol stake beyond one scenario.",
 ["x/stakers/keeper/exported_functions.go","x/stakers/keeper/keeper.go","app/app.go"],
 [("GetActiveValidators / GetDelegations / TotalBondedTokens","x/stakers/keeper/exported_functions.go")],["delegations","valaccounts"],["governance tally"])
p("P35","Redundant records never disagree with each other",
 "Every derived record agrees with the data it summarises after every block: a staker's total stake is the sum of its delegators' stakes up to rounding, its delegator count is the number of its delegators, member lists, counts and per-pool stakes match the memberships, queues and their lookup entries correspond one to one, and the ordering of stakers by stake lists every staker once at its current stake.",
 [H,I],"all histories",
 "Tests verify some indices at the end of some suites.",
 ["x/delegation/keeper/getters_*.go","x/stakers/keeper/getters_*.go","x/funders/keeper/getters_*.go","x/bundles/keeper/getters_*.go"],
 [("secondary indices","x/*/keeper/getters_*.go")],["all stores"],["after every block"])
p("P36","Events tell clients exactly what happened",
 "Every state transition a client indexes by events — proposals, votes, finalized bundles with their rewards, slashes, joins and leaves, delegations, fundings, claims and pool changes — emits its event exactly once with the values that were applied, and no event is emitted for something that did not happen.",
 [H,I],"all histories",
 "Tests do not look at events.",
 ["x/*/keeper/*.go","proto/kyve/*/v1beta1/events.proto"],
 [("EmitTypedEvent","x/*/keeper")],["events of each tx and block"],["events compared with the observed state change"])
p("P37","The v1.5 upgrade carries every record and obligation over",
 "Whatever state the chain is in when the v1.5.0 software upgrade runs, the upgrade completes and every record survives it with its value: stakes, pending rewards, commission rewards, fundings with their totals, pools, bundles, queues and governance proposals (including pending ones that create pools) mean the same before and after, no balance moves, and only what the release announces changes (coin whitelist, storage costs, voting power limit, inflation weights, expedited governance params, runtime upgrades of idle tendermint pools). The upgraded chain keeps all other guarantees.",
 [H,I],"all states at the time of the upgrade and all histories after it",
 "No test runs the upgrade handler.",
 ["app/upgrades/v1_5/upgrade.go","app/upgrades/v1_5/v1_4_types"],
 [("CreateUpgradeHandler","app/upgrades/v1_5/upgrade.go")],["all stores in the encodings of v1.4 and v1.5"],["all records before and after the upgrade block"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
