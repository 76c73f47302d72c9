from props import P, E

POLL = ["packages/poll-engine/src/execute.rs", "packages/poll-engine/src/state.rs", "contracts/enterprise-governance/src/contract.rs"]
CTLF = ["contracts/enterprise-governance-controller/src/contract.rs", "contracts/enterprise-governance-controller/src/validate.rs"]
GOVC = ["enterprise_governance::", "poll_engine"]
CTLC = ["enterprise_governance_controller::", "enterprise_governance::", "poll_engine"]

P("C01", "Votes are tallied exactly, one per voter",
  "At any moment a proposal's tally for each option equals the sum of the voting weights of the members whose latest vote is for that option. A member who votes again replaces their earlier vote, and a change of a member's weight during voting moves the tally by exactly that change.",
  ["histories", "inputs"], "every history of votes, re-votes and weight updates by any voters with any weights on open proposals",
  "Tests try a handful of vote sequences with small round weights; whether the tally stays exact depends on the order of votes, re-votes and weight changes and on every weight.",
  POLL, [("cast_vote / update_votes / Poll::increase_results, decrease_results", "packages/poll-engine/src/execute.rs, state.rs")],
  [E("gov", "gov_tally", "voted changed updated", quick=dict(steps=3), thorough=dict(steps=4))],
  ["two proposals, two voters, histories of 3 (quick) or 4 (thorough) operations, each any of vote/re-vote with any option/weight update", "weights any value up to 2^100"],
  GOVC)

P("C02", "Votes count only while voting is open; a proposal ends for good",
  "A vote is accepted exactly while the proposal is in progress and its end time has not come. Once a proposal has been ended, its outcome and tally never change, and it can be ended before its end time only where early ending was allowed and the outcome is already decided.",
  ["histories", "inputs"], "every vote time, end time, tally and order of voting and ending",
  "Tests use a few fixed block times; the boundary instants and the many tallies at which early ending is or is not legitimate are not enumerable by examples.",
  POLL, [("cast_vote window check, end_poll", "packages/poll-engine/src/execute.rs")],
  [E("gov", "gov_lifecycle", "ended endedearly notended"),
   E("gov", "gov_nanos", "over open"), E("gov", "gov_window", "voted toolate ended", thorough=dict(steps=4)),
   E("ctl", "ctl_execute", "after_end ran early too_early", quick=dict(two_voters=0)), E("ctl", "ctl_council_execute", "ran not")],
  ["one proposal, two voters, histories of 3 (quick) or 4 (thorough) votes, changed votes, weight updates and attempts to end; all times below 2^33 s, all weights up to 2^100, all quorum/threshold/veto values in (0,1]", "through the controller: one vote at any time on a general proposal, two on a council one, ended at any time"], CTLC)

P("C03", "A proposal's outcome follows its quorum, threshold and veto rules",
  "A proposal passes exactly when turnout reaches the quorum, the veto share stays below the veto threshold, and yes votes reach the threshold among non-abstaining votes and outweigh no votes. Otherwise it is rejected with the reason that applies, and the outcome announced in advance for the current tally is the one ending it would give.",
  ["inputs"], "every tally, total voting power, quorum, threshold and veto threshold",
  "The outcome is a function of seven unbounded numbers with rounding in fixed-point arithmetic; tests sample a few round ratios, never the boundaries for arbitrary totals.",
  POLL, [("end_poll_status, calculate outcome, threshold arithmetic", "packages/poll-engine/src/state.rs")],
  [E("gov", "gov_outcome", "passed noquorum veto no draw nothreshold"), E("gov", "gov_simulate"),
   E("ctl", "ctl_execute", "after_end ran early too_early", quick=dict(two_voters=0)), E("ctl", "ctl_council_execute", "ran not")],
  ["tally per option and total any value up to 2^100, quorum/threshold/veto threshold every 18-decimal value in (0,1]", "through the controller: the status announced before execution and the outcome, for one vote on a general proposal and two on a council one"], CTLC)

P("C04", "Only the governance controller drives polls, and polls do not interfere",
  "Creating, voting on, ending and reweighting polls is possible only for the configured administrator. Polls get consecutive numbers, keep the parameters they were created with, and an operation on one poll never changes another one.",
  ["inputs", "histories"], "every sender, every operation and parameter, every number of existing polls",
  "Tests call each operation from one or two senders; a missing check on a single message or a mix-up between polls shows only for the particular sender or poll pair.",
  POLL, [("admin_only", "contracts/enterprise-governance/src/contract.rs"), ("PollStorage next id", "packages/poll-engine/src/state.rs")],
  [E("gov", "gov_auth", "refused"), E("gov", "gov_create", "created refused"), E("gov", "gov_isolation", "ended")],
  ["three polls, any sender (every name of up to 7-10 characters, symbolic), every message; parameters any value in their type's range (times below 2^33 s)"], GOVC)

P("C05", "Proposals execute once, only when passed, and do exactly what they say",
  "The actions of a proposal run if and only if it passed: after its voting period, or earlier only where early execution is allowed, the outcome is already decided and, outside multisig DAOs, a tenth of the voting period has gone by since the vote that decided it. They run at most once, in the order given, as exactly the messages the actions stand for, and the step that runs them cannot be invoked by anyone but the controller itself. If an action fails, none of the actions take effect and the proposal still counts as executed.",
  ["histories", "inputs", "configurations"], "every DAO type, vote history, execution time, configuration and combination of actions, succeeding or failing",
  "Tests execute a few proposals at convenient times; the interplay of tally, weight snapshots, delay and failure of actions is a space of histories they never enter.",
  CTLF, [("execute_proposal, end_proposal, resolve_ended_proposal, reply", "contracts/enterprise-governance-controller/src/contract.rs")],
  [E("ctl", "ctl_execute", "after_end ran early too_early", quick=dict(two_voters=1)), E("ctl", "ctl_self_only", "refused"),
   E("ctl", "ctl_actions", "ran", thorough=dict(pairs=1)), E("ctl", "ctl_payload", "ran failed")],
  ["two voters, each voting once with any option at any time; any weights up to 2^100, any total at the end, any quorum/threshold in (0,1], any duration below 2^31 s, any execution time",
   "every action kind for every DAO type, local and remote treasury, one partner action each (quick) or all ordered pairs (thorough); three contents of every kind of action (lists of 0 to 3), alone, before or after an action that fails"], CTLC,
  ["membership, treasury, distributor and outposts are stand-ins that accept every message; governance is the real contract"])

P("C06", "Proposal deposits are returned or confiscated exactly as the outcome demands",
  "Where a DAO requires a deposit a proposal is accepted only with at least that much of the DAO's own asset, taken from the proposer; otherwise the proposer needs voting power. When the proposal is resolved the whole deposit leaves exactly once: to the treasury if quorum was missed or the proposal was vetoed, else to the deposit's owner, whether or not its actions succeed, and nobody else's funds are touched.",
  ["inputs", "histories", "configurations"], "every DAO type, deposit, minimum, owner, vote outcome, and success or failure of the actions",
  "Tests cover one or two deposit amounts and outcomes; conservation over all outcomes, assets and failing actions is a for-all statement.",
  CTLF, [("create_proposal, return_proposal_deposit_submsgs, resolve_ended_proposal", "contracts/enterprise-governance-controller/src/contract.rs")],
  [E("ctl", "ctl_deposit", "confiscated refused returned", thorough=dict(two_voters=1)), E("ctl", "ctl_nft_deposit", "deposited refused"),
   E("ctl", "ctl_wrong_deposit", "refused")],
  ["denom, token and NFT DAOs; deposits and minimums up to 2^100 (NFT: one or two tokens); two voters with any weights; the controller also holds other funds"], CTLC,
  ["the CW20 and CW721 contracts are minimal reference implementations"])

P("C07", "Only eligible members propose and vote, with their own weight",
  "A vote is accepted only from an unrestricted user with positive weight, on an existing proposal of the matching kind, and is recorded with exactly that user's current weight in the DAO or, for council proposals, in the council. Proposals can be created only by eligible users, council proposals only by council members and only with the kinds of action the council is entrusted with; they run under the configured quorum, threshold, veto threshold and voting period.",
  ["inputs", "configurations"], "every weight, restriction, proposal kind, council configuration and action kind",
  "Tests check one allowed and one refused case each; the combination of member, restriction, kind and permitted action types is what decides eligibility.",
  CTLF, [("cast_vote, cast_council_vote, create_council_proposal, unrestricted_users_only", "contracts/enterprise-governance-controller/src/contract.rs")],
  [E("ctl", "ctl_vote", "voted none"), E("ctl", "ctl_council", "council general"), E("ctl", "ctl_council_execute", "ran not"), E("ctl", "ctl_limits", "refused"),
   E("ctl", "ctl_creator", "proposed refused")],
  ["weights up to 2^100; proposers and deposit owners restricted or not, in every type of DAO; five council permission sets by 14 action kinds by 3 second actions; up to 12 actions"], CTLC)

P("C08", "Weight changes reach open votes and rewards, and nothing else",
  "When the membership contract reports new weights, every open vote of those members on the DAO's proposals and their reward weight become exactly the new weights, while resolved proposals, other members and the choices made stay as they were. Reports from anyone else are refused, and council membership reports change nothing.",
  ["inputs", "histories"], "every set of old and new weights, vote and sender",
  "Tests do not drive weight reports through open, resolved and council proposals at once; a stale or misdirected weight appears only in such a history.",
  CTLF + POLL[:1], [("weights_changed, update_user_votes", "contracts/enterprise-governance-controller/src/contract.rs"), ("update_votes", "packages/poll-engine/src/execute.rs")],
  [E("ctl", "ctl_weights", "applied ignored")],
  ["three proposals (resolved, open, council), two voters, two reported changes (of two members or twice of one), weights up to 2^100, any sender (every name of up to 7-10 characters, symbolic)"], CTLC)

P("C09", "A DAO's governance configuration always stays valid",
  "A DAO can neither be created with nor moved by proposal to a configuration whose quorum, threshold or veto threshold lies outside (0,1], whose voting period is zero, which asks multisig proposers for a deposit, or which entrusts a council with spending, membership or configuration powers or lists a member twice. A change alters exactly the settings it names, and an unlocking time shorter than the voting period is refused.",
  ["inputs", "configurations"], "every value of every setting, every subset of changes",
  "Validation is a predicate over full 128-bit ranges; tests sample a few invalid values per field.",
  CTLF, [("validate_dao_gov_config, validate_dao_council, apply_gov_config_changes, update_gov_config", "contracts/enterprise-governance-controller/src/validate.rs, contract.rs")],
  [E("ctl", "ctl_inst", "accepted refused"), E("ctl", "ctl_config_change", "applied refused unlock_refused"), E("ctl", "ctl_council_change", "changed refused removed")],
  ["every 128-bit ratio and deposit, every 64-bit duration; one or two settings changed per proposal plus the unlocking period, from a configuration with and without veto threshold, deposit and early execution; councils of two or three members"], CTLC)

MEMC = ["packages/membership-common/src/member_weights.rs", "packages/membership-common/src/total_weight.rs", "packages/membership-common/src/weight_change_hooks.rs", "packages/membership-common/src/validate.rs"]
DENF = ["packages/denom-staking-impl/src/execute.rs", "contracts/denom-staking-membership/src/contract.rs"]
TOKF = ["packages/token-staking-impl/src/execute.rs", "contracts/token-staking-membership/src/contract.rs"]
NFTF = ["packages/nft-staking-impl/src/execute.rs", "contracts/nft-staking-membership/src/contract.rs"]
MULF = ["packages/multisig-membership-impl/src/execute.rs", "contracts/multisig-membership/src/contract.rs"]
MB = "membership_common"

P("C10", "Denom staking: weight equals deposits, and the contract stays solvent",
  "In a denom DAO a member's voting weight is at every moment the amount of the DAO's denom staked for them and not unstaked, the total weight is the sum over all members, and the contract's balance covers all stakes and unpaid claims exactly. Members can unstake at most their own stake, other coins give no weight, and every change of weight is reported once with the old and new value.",
  ["histories", "inputs"], "every history of staking for oneself or others, unstaking and claiming, with any amounts and times",
  "Solvency and exact bookkeeping are invariants over histories of operations with arbitrary amounts; tests run a few fixed sequences.",
  DENF + MEMC, [("stake_denom, unstake, claim", "packages/denom-staking-impl/src/execute.rs")],
  [E("stake", "stake_denom", "staked claimed unstaked", quick=dict(steps=3), thorough=dict(steps=4)), E("stake", "stake_denom_refused", "refused")],
  ["two users, histories of 3 (quick) or 4 (thorough) operations with any amount up to 2^100, any times and heights, any unlocking period below 2^31 s or blocks"],
  ["denom_staking_impl", "denom_staking_membership", MB])

P("C11", "Token staking: weight equals tokens received, never forged",
  "In a token DAO a member's weight is at every moment the amount of the DAO's CW20 token staked for them and not unstaked, the total weight is the sum, and the contract's token balance covers all stakes and unpaid claims exactly. Tokens of another contract, direct calls imitating a token transfer, and bulk stakes or claims whose sum differs from the amount sent give nothing.",
  ["histories", "inputs"], "every history of staking, unstaking and claiming, every bulk list and every claimed amount, sender and token",
  "Solvency over all histories and all forged or mismatching receipts is a for-all statement; tests sample a few.",
  TOKF + MEMC, [("receive_cw20, stake, add_stakes, add_claims, unstake, claim", "packages/token-staking-impl/src/execute.rs")],
  [E("stake", "stake_token", "staked claimed unstaked", quick=dict(steps=3), thorough=dict(steps=4)), E("stake", "stake_token_bulk", "bulk claims forged mismatch")],
  ["two users, histories of 3 (quick) or 4 (thorough) operations with any amount up to 2^100, any times and heights; bulk lists of two"],
  ["token_staking_impl", "token_staking_membership", MB], ["the CW20 contract is a minimal reference implementation"])

P("C12", "NFT staking: every staked NFT counts once and goes back only to its owner",
  "In an NFT DAO a member's weight is the number of the collection's tokens staked for them, each token is staked for at most one member, and only that member can unstake it. The contract holds exactly the tokens that are staked or awaiting claim; tokens of other collections and imitated transfers give nothing.",
  ["histories", "inputs"], "every history of staking, unstaking and claiming tokens by any users",
  "Ownership confusion between tokens and members shows only in particular interleavings of operations on the same token, which tests do not enumerate.",
  NFTF + MEMC, [("receive_nft, stake_nft, unstake, claim, NFT_STAKES", "packages/nft-staking-impl/src/execute.rs")],
  [E("stake", "stake_nft", "staked unstaked claimed", quick=dict(steps=3), thorough=dict(steps=4)), E("stake", "stake_nft_forged", "refused")],
  ["two users, two tokens, histories of 3 (quick) or 4 (thorough) operations, any times and heights"],
  ["nft_staking_impl", "nft_staking_membership", MB], ["the CW721 contract is a minimal reference implementation"])

P("C13", "Unstaked assets are paid once, in full, to their owner, and never early",
  "What a member unstakes is paid to that member alone, in full and once, as soon as the unlocking period in force when they unstaked has passed, and never before, whatever changes are made to the period later. Nobody can claim for somebody else, and claiming touches no one else's stake or claim.",
  ["inputs", "histories"], "every stake, unstaked part, unlocking period by time or height, later period change and claim time",
  "The release boundary and the effect of a later configuration change depend on arbitrary times; tests use a few round ones.",
  DENF + TOKF[:1] + NFTF[:1], [("unstake, claim, is_releasable", "packages/denom-staking-impl/src/execute.rs, packages/common/src/cw.rs")],
  [E("stake", "stake_claim", "early paid"), E("stake", "stake_claim_two", "early paid", thorough=dict(parts=3)), E("stake", "stake_nft_claim", "early paid"), E("stake", "stake_claim_nanos", "early paid")],
  ["denom, token and NFT staking; amounts up to 2^100; any two unlocking periods below 2^31 by time or height; two members, two (thorough: three) unstaked parts and two claims at any times and heights with a period change before each part"],
  ["denom_staking_impl", "token_staking_impl", "nft_staking_impl", MB])

P("C14", "Voting-power snapshots: the total at a past moment never changes",
  "The total weight reported for a past height or time is the sum of all members' weights as it stood then: it counts exactly the changes made before that moment, however many are made in one block or afterwards, and includes the totals carried over from an earlier version of the DAO.",
  ["histories", "inputs"], "every history of weight changes across and within blocks and every height or time asked for",
  "Snapshots must be right for every query point between any changes; tests ask at a handful of points.",
  MEMC[1:2] + MULF, [("save_total_weight, load_total_weight_at_height/_at_time", "packages/membership-common/src/total_weight.rs")],
  [E("stake", "stake_history", "asked", thorough=dict(steps=4)), E("stake", "multi_inst", "asked"), E("stake", "checkpoints", "asked")],
  ["denom, token and multisig membership; 3 (quick) or 4 (thorough) changes in the same or different blocks, any heights and times below 2^33; two carried-over checkpoints"],
  [MB, "denom_staking_impl", "multisig_membership_impl"])

P("C15", "Multisig membership is exactly what was last decided, and all of it is reported",
  "After any sequence of membership updates and replacements each multisig member has the weight last decided for them and nobody else has any; the total is the sum. Every change of a weight, including the loss of membership, is reported to the registered contracts with the right old and new values, and lists naming a member twice are refused.",
  ["histories", "inputs"], "every history of partial updates and full replacements with any members and weights",
  "Stale members and unreported removals arise only from particular sequences of overlapping edits.",
  MULF + MEMC, [("update_members, set_members", "packages/multisig-membership-impl/src/execute.rs")],
  [E("stake", "multi_history", "set updated", quick=dict(steps=3), thorough=dict(steps=4)), E("stake", "multi_inst", "asked")],
  ["three possible members, two of them initial; histories of 3 (quick) or 4 (thorough) edits of up to two members with any weights up to 2^100"],
  ["multisig_membership_impl", "multisig_membership::", MB])

P("C16", "Only governance changes membership settings; restricted users gain no weight",
  "The unlocking period, the list of contracts told about weight changes, and a multisig's members can be changed only by the DAO's governance controller. Weight changes are reported to exactly the registered contracts, and no stake can be placed for a restricted user, by anyone or any route.",
  ["inputs", "configurations"], "every sender, operation, membership kind and restriction",
  "An unguarded operation or route shows only for the particular sender and membership kind; tests check one or two.",
  MEMC + DENF[:1] + TOKF[:1] + NFTF[:1] + MULF[:1], [("enterprise_governance_controller_only, validate_user_not_restricted, add/remove_weight_change_hook", "packages/membership-common/src/validate.rs, weight_change_hooks.rs")],
  [E("stake", "stake_auth", "allowed refused"), E("stake", "stake_restricted", "allowed refused"), E("stake", "stake_hooks", "told none", thorough=dict(steps=3))],
  ["up to four registered contracts, initial lists of none, three or one named twice, and 2 (thorough: 3) registrations and removals", "four membership kinds, any sender (every name of up to 7-10 characters, symbolic), five operations; amounts up to 2^100; a restriction before or after a first stake"],
  [MB, "denom_staking_impl", "token_staking_impl", "nft_staking_impl", "multisig_membership_impl"])

DISF = ["contracts/funds-distributor/src/distributing.rs", "contracts/funds-distributor/src/rewards.rs", "contracts/funds-distributor/src/user_weights.rs",
        "contracts/funds-distributor/src/eligibility.rs", "contracts/funds-distributor/src/claim.rs", "contracts/funds-distributor/src/native_distributions.rs", "contracts/funds-distributor/src/cw20_distributions.rs"]
DISC = ["funds_distributor::"]
DISB = ["three users, one of them joining late; any weights up to 2^100, any minimum eligible weight, amounts up to 2^64; one native and one CW20 reward",
        "histories of any 3 operations (quick; 4 thorough) among distribution, single and double reweighting, new minimum, claim; and any 2 (3) operations between two distributions of one asset"]
DHIST = [E("dist", "dist_history", "distributed reweighted new_minimum claimed", thorough=dict(steps=4)), E("dist", "dist_between", "distributed reweighted new_minimum claimed", thorough=dict(steps=3))]

P("C17", "The reward distributor never owes more than it holds",
  "After any history of distributions, weight changes, changes of the minimum eligible weight and claims, the rewards paid so far plus those still claimable by all members never exceed what was distributed of each asset, and the distributor holds enough of it to pay every outstanding reward.",
  ["histories", "inputs"], "every history of distributions, reweightings, minimum changes and claims with any weights and amounts",
  "Over-crediting arises from particular orders of weight changes and distributions and from rounding over arbitrary values; tests run a few round sequences.",
  DISF, [("global index per asset, user index and pending rewards", "contracts/funds-distributor/src/distributing.rs, rewards.rs")],
  DHIST, DISB, DISC)

P("C18", "Rewards are shared in proportion to the weight held at each distribution",
  "Of every distribution each member whose weight is at least the minimum eligible weight at that moment gets the share that weight is of all eligible weights, up to rounding; others get nothing of it. What was earned is never lost or changed by later weight changes, loss of eligibility, joining of others or claims.",
  ["histories", "inputs"], "every history of distributions, reweightings, minimum changes and claims with any weights and amounts",
  "A share depends on the weights at the time of each distribution and on every later change; tests sample few histories with convenient numbers.",
  DISF, [("update_user_weights, update_minimum_eligible_weight, calculate_user_reward", "contracts/funds-distributor/src/user_weights.rs, eligibility.rs, rewards.rs")],
  DHIST, DISB + ["rounding allowance: less than one unit per operation"], DISC)

P("C19", "Rewards are paid once, in full, only to the member who earned them",
  "A claim by a member pays exactly the reward the contract reports for each asset asked for, once, however often assets are listed, and leaves other assets claimable. Nobody can claim for another member, restricted members cannot claim, and a claim moves no other funds.",
  ["inputs", "configurations"], "every sender, member, restriction, list of assets, weights and amounts",
  "Double payment or payment to the wrong party shows only for particular lists, senders and amounts.",
  DISF[4:5] + DISF[1:2], [("claim_rewards, query_user_rewards", "contracts/funds-distributor/src/claim.rs, rewards.rs")],
  [E("dist", "dist_claim", "claimed refused"), DHIST[1]],
  ["two members with any weights up to 2^100; one native and one CW20 distribution of any amount up to 2^64; five lists of assets, any sender (every name of up to 7-10 characters, symbolic), three restrictions"], DISC)

P("C20", "Only whitelisted assets are distributed, and only governance sets reward weights",
  "A distribution is accepted exactly when every asset in it is on the DAO's or the global whitelist, however long that is, and somebody is eligible; imitated token transfers credit nothing and refused funds stay with the payer. Reward weights and the minimum eligible weight can be changed only by the governance controller, and no member is registered twice at creation.",
  ["inputs", "configurations"], "every sender, asset, whitelist length, weights and minimum",
  "Whitelist paging and authorisation have many cases of which tests hit a few.",
  DISF[:4] + ["contracts/enterprise-treasury/src/asset_whitelist.rs"], [("assert_assets_whitelisted", "contracts/funds-distributor/src/distributing.rs"), ("update_user_weights admin check", "contracts/funds-distributor/src/user_weights.rs")],
  [E("dist", "dist_whitelist", "distributed refused"), E("dist", "dist_auth", "allowed refused"), E("dist", "dist_inst", "created refused")],
  ["whitelists of up to 63 assets around the page boundaries; any sender (every name of up to 7-10 characters, symbolic); any weights up to 2^100"], DISC + ["enterprise_treasury::"],
  ["the treasury is the real contract, the factory a stand-in with a one-entry global whitelist"])

TREF = ["contracts/enterprise-treasury/src/contract.rs", "contracts/enterprise-treasury/src/asset_whitelist.rs", "contracts/enterprise-treasury/src/validate.rs"]
P("C21", "The treasury pays out only what its administrator decides, exactly",
  "Funds leave a treasury, its whitelists change and its administration passes on only by order of its current administrator. Spending moves exactly the listed amounts to the recipient, distributing moves exactly the listed amounts to the distributor and credits them, and listed messages run as given, in order, all or none. The whitelists are what was last decided, complete over any paging.",
  ["inputs", "histories", "configurations"], "every sender, amount, balance, asset list, message list, whitelist history and page size",
  "Tests call the treasury from its administrator with one or two assets.",
  TREF, [("admin_only, spend, distribute_funds, execute_cosmos_msgs", "contracts/enterprise-treasury/src/contract.rs")],
  [E("dist", "treas_auth", "allowed refused"), E("dist", "treas_spend", "spent refused distributed"), E("dist", "treas_msgs", "ran failed"),
   E("dist", "treas_whitelist", "listed", thorough=dict(steps=3)), E("dist", "treas_nft_whitelist", "listed")],
  ["balances and amounts up to 2^64, up to three assets per order; any sender (every name of up to 7-10 characters, symbolic); message lists of up to three of five messages; whitelist histories of 2 (3 thorough) updates over five assets, pages of 1 to 3"],
  ["enterprise_treasury::"])

P("C22", "Migrating an old DAO moves every stake and claim exactly once",
  "When the stakes and claims an old DAO's treasury holds are moved to its new membership contract, in batches of any size triggered by anyone, every stake and claim arrives exactly once with its owner, amount and release time, the treasury's own funds stay, each member's pre-migration weight stays known throughout, and the migration counts as complete only when nothing is left.",
  ["histories", "inputs"], "every set of stakes and claims and every sequence of batch sizes",
  "A stake lost or doubled at a batch boundary depends on the particular counts and batch sizes.",
  ["contracts/enterprise-treasury/src/migration.rs"] + TOKF + NFTF, [("perform_next_migration_step", "contracts/enterprise-treasury/src/migration.rs")],
  [E("dist", "migrate_token", "moved", thorough=dict(batches=4)), E("dist", "migrate_nft", "moved", thorough=dict(mixed=1)), E("dist", "migrate_stage", "moved not")],
  ["token DAO: up to three stakers and three claims of any amounts up to 2^64, batches of 1 to 3; NFT DAO: four tokens staked, claimed or owned in any combination, batches of 1, 2 or the default (quick: the same from the second on); any stage the migration can stand at, with or without anything left"],
  ["enterprise_treasury::", "token_staking_impl", "nft_staking_impl"])

ENTF = ["contracts/enterprise/src/contract.rs", "contracts/enterprise/src/state.rs"]
VERF = ["contracts/enterprise-versioning/src/contract.rs", "contracts/enterprise-versioning/src/state.rs", "packages/enterprise-versioning-api/src/api.rs"]

P("C23", "DAO upgrades go forward through every released version",
  "A DAO is upgraded only by its governance, only to a version that exists and is later than its own. It is then migrated through every released version after its own up to the target, in ascending order and none skipped or repeated, each with the message supplied for it or an empty one, and ends up recording the target version. Its outposts, distributor, membership and council contracts are moved along to the code of the release, matching the DAO's type, and everything else about the DAO stays. Two messages for one version are refused.",
  ["inputs", "configurations"], "every current and target version, every set of released versions and code ids, every set of migration messages, every DAO type",
  "Tests do not upgrade DAOs; the version order is lexicographic over unbounded numbers, the registry is paged, and the set of releases is open-ended.",
  ENTF + VERF[:1], [("upgrade_dao, get_versions_between_current_and_target, migrate", "contracts/enterprise/src/contract.rs"), ("query_versions", "contracts/enterprise-versioning/src/contract.rs")],
  [E("ent", "ent_upgrade", "upgraded refused", quick=dict(versions=3), thorough=dict(versions=4)), E("ent", "ent_upgrade_many", "upgraded", quick=dict(versions=60), thorough=dict(versions=160)),
   E("ent", "ent_migrate", "migrated refused")],
  ["current and target: any triples of 64-bit numbers; any subset of 3 (4 thorough) released versions registered in two orders, plus 60 (160) consecutive ones across pages; any code ids; up to two messages; any sender (every name of up to 7-10 characters, symbolic)"],
  ["enterprise::contract", "enterprise_versioning::"],
  ["the chain performs a migration requested by a contract's admin"])

P("C24", "Only governance commands the DAO contract, set up once by its creator",
  "A DAO's component contracts are fixed once, by the contract that created the DAO, and never again. From then on only the DAO's governance controller can change its metadata or configuration, upgrade it, set or remove its attestation, or send messages in its name, and a change alters exactly the fields it names. Messages sent in the DAO's name are exactly those given, in order.",
  ["inputs", "histories", "configurations"], "every sender, creator, admin, operation, DAO type and subset of changed fields",
  "Tests call with the right sender; one unguarded message or one mixed-up field is enough to hand the DAO over.",
  ENTF, [("finalize_instantiation, enterprise_governance_controller_caller_only, update_metadata, update_config, execute_msgs", "contracts/enterprise/src/contract.rs")],
  [E("ent", "ent_auth", "done refused"), E("ent", "ent_metadata", "updated created"), E("ent", "ent_finalize", "finalized refused")],
  ["any sender (every name of up to 7-10 characters, symbolic) by seven operations by four DAO types; every subset of the seven metadata fields set or cleared; any pair of senders for two set-ups"],
  ["enterprise::contract"])

P("C25", "Attestation restricts exactly those who have not signed it",
  "While a DAO has an attestation, a user counts as restricted exactly until they themselves have signed that attestation; without one nobody is restricted. Setting an attestation starts a new one with the given text, using the code of the DAO's own version, that nobody has signed yet; removing it lifts all restrictions. The DAO's other components are not affected.",
  ["histories", "inputs"], "every history of setting, removing and signing by any users",
  "Tests cover one set-and-sign sequence at most; stale signatures appear only after replacing an attestation.",
  ENTF + ["contracts/attestation/src/contract.rs"], [("set_attestation, reply, query_is_restricted_user", "contracts/enterprise/src/contract.rs"), ("sign_attestation", "contracts/attestation/src/contract.rs")],
  [E("ent", "ent_attest", "one_signed", thorough=dict(steps=5))],
  ["histories of 4 (5 thorough) operations, signing by one fixed user and any users with three-letter names, asking about any three- or five-letter name, any attestation code id, four DAO types"],
  ["enterprise::contract", "attestation::"])

P("C26", "The version registry is append-only except for explicit edits, and ordered",
  "Versions are registered, edited and handed to a new administrator only by the current administrator. A version can be registered once; an edit needs an existing version and changes exactly the fields it names in that version alone. Every version is found as registered, the list is ascending and complete over any paging, and the latest version is the greatest one.",
  ["inputs", "histories"], "every set of version numbers and code ids in any order of registration, every start and page size, every edit",
  "Tests register a few single-digit versions; ordering errors show only for particular multi-digit or high-order numbers.",
  VERF, [("add_version, edit_version, query_versions, query_latest_version", "contracts/enterprise-versioning/src/contract.rs"), ("Version ordering", "packages/enterprise-versioning-api/src/api.rs")],
  [E("ent", "ver_catalog", "listed", quick=dict(versions=3)), E("ent", "ver_auth", "allowed refused"), E("ent", "ver_edit", "edited refused"),
   E("ent", "ver_history", "added edited", thorough=dict(steps=4))],
  ["histories of 3 (4 thorough) registrations and edits of two versions of any numbers; three versions of any 64-bit numbers (equal ones included), any code ids, pages of 1 to 3 or the default, any start; edits of every field, every two neighbouring ones, all and none"],
  ["enterprise_versioning::"])

OUTF = ["contracts/enterprise-outposts/src/contract.rs", "contracts/enterprise-outposts/src/ibc_hooks.rs", "contracts/enterprise-outposts/src/validate.rs"]

P("C27", "Remote treasuries obey only the DAO, one per chain",
  "Remote treasuries are asked for and commanded only by the DAO's governance, or by its creator in the very block of creation for those it was created with, once. On each chain the DAO gets at most one proxy, owned by the DAO, and one treasury, commanded by that proxy; they are recorded only from the answer to the request made, coming from that chain's own proxy, each answer counting once and replacing nothing. An order goes out only to a treasury that stands, over that chain's channel and through its proxy, is exactly the one given, and expires when asked for.",
  ["histories", "inputs"], "every history of requests, answers and orders over two chains, every sender, answer number, time and timeout",
  "Tests cannot replay the asynchronous, adversarial interleaving of cross-chain answers; a forged, repeated or misattributed answer is a matter of particular senders and numbers.",
  OUTF + CTLF[:1], [("deploy_cross_chain_treasury, execute_msg_reply_callback, execute_cross_chain_treasury", "contracts/enterprise-outposts/src/contract.rs"),
   ("derive_intermediate_sender, ibc_hooks_msg_to_ics_proxy_contract", "contracts/enterprise-outposts/src/ibc_hooks.rs"),
   ("execute_deploy_initial_cross_chain_treasuries", "contracts/enterprise-governance-controller/src/contract.rs")],
  [E("cross", "out_history", "deploying proxy treasury order", quick=dict(steps=4), thorough=dict(steps=6)), E("cross", "out_auth", "allowed refused"), E("cross", "out_timeout", "sent"),
   E("ctl", "ctl_initial_treasuries", "asked refused")],
  ["two chains with concrete channels and names, histories of 4 (6 thorough) steps, any 32-bit answer number and eight senders for the last answer; times below 2^32 s and timeouts up to 2^61 ns symbolic; up to two initial treasuries"],
  ["enterprise_outposts::", "enterprise_governance_controller::contract::execute"],
  ["the senders a chain's answers appear under follow the IBC hooks rule, computed independently of the code under check; SHA-256 and Bech32 run on concrete input"])

P("C28", "NFTs arriving from another chain are staked for the user named, or not at all",
  "Only the configured ICS721 proxy can announce arrived NFTs. With an order to stake, every announced token ends up staked in the named membership contract for the named user, whose weight grows by their number, or nothing happens at all; any other message leaves the tokens where they are. Other members, tokens and collections are not touched.",
  ["inputs", "configurations"], "every sender, list of tokens, ownership, collection, user, membership contract and message",
  "Tests do not combine repeated, missing or foreign tokens with the real staking contract.",
  ["contracts/ics721-callback-proxy/src/contract.rs", "packages/ics721-callback-proxy-impl/src/execute.rs"], [("ics721_receive_callback, stake_nft", "packages/ics721-callback-proxy-impl/src/execute.rs")],
  [E("cross", "ics_stake", "staked nothing")],
  ["three tokens in two collections, held by the proxy or not, seven lists of up to three (repetitions included), two users, two membership contracts, any sender (every name of up to 7-10 characters, symbolic)"],
  ["ics721_callback_proxy", "nft_staking_impl"],
  ["token ids, users and lists are enumerated by choice: the code only compares them"])

FACF = ["contracts/enterprise-factory/src/" + f for f in ("contract.rs", "validate.rs", "state.rs", "multisig_membership.rs", "denom_membership.rs", "nft_membership.rs", "token_membership.rs")]
FACC = ["enterprise_factory::"]
ALLC = ["enterprise_factory::", "enterprise::contract", "enterprise_governance_controller::", "enterprise_governance::", "poll_engine::", "enterprise_treasury::", "funds_distributor::",
        "denom_staking_impl", "token_staking_impl", "nft_staking_impl", "multisig_membership_impl", "membership_common", "attestation::"]

P("C29", "A created DAO is complete, as ordered and registered, or does not exist",
  "Creating a DAO succeeds exactly when its governance rules are sound and its membership is one somebody can take part in; it then consists of its own set of contracts, distinct from every other DAO's, all running the code of one registered version, administered by the DAO contract alone, wired to each other, and set up exactly as ordered: metadata, rules, council, members, token, whitelists, minimum reward weight, attestation, remote treasuries. It is listed once, numbered in order of creation and complete over any paging. A refused creation leaves nothing behind and does not affect the next. Only the factory's administrator changes the factory's configuration.",
  ["inputs", "configurations", "histories"], "every membership kind, set of rules, members, initial balances, version, option and sender, and every sequence of creations",
  "Tests create one or two DAOs with convenient rules; a dropped, mixed-up or leaked setting shows only for a particular kind, option or second creation.",
  FACF, [("create_dao, instantiate_dao replies, finalize_dao_creation", "contracts/enterprise-factory/src/contract.rs"), ("validate_unlocking_period, validate_existing_cw20/cw721/cw3", "contracts/enterprise-factory/src/validate.rs"),
         ("query_all_daos", "contracts/enterprise-factory/src/contract.rs")],
  [E("fact", "fac_create", "created refused"), E("fact", "fac_version", "created refused"), E("fact", "fac_refuse", "created refused"),
   E("fact", "fac_registry", "listed", quick=dict(steps=2), thorough=dict(steps=3)), E("fact", "fac_auth", "refused updated"), E("fact", "fac_treasuries", "created refused")],
  ["eight membership kinds; any quorum, threshold and veto fractions, voting duration and unlocking period up to 2^33 s or blocks, deposit, weights and initial balances up to 2^100; council of two; three registered versions; sequences of 2 (3 thorough) creations with refused ones in between; pages of 1 to 3"],
  FACC, ["all component contracts are the real ones, tokens the real cw20-base and cw721-base; the imported CW20, CW721 and CW3 are stand-ins answering their standard queries"])

P("C30", "End to end, a treasury pays what its members decided, and only that",
  "In a DAO made by the factory a proposal to pay from the treasury can be made only by a member, and is paid exactly when the votes of the members, weighted by what they hold when it ends, meet the DAO's quorum and threshold; then exactly once, the amount asked for, to the recipient named. Nothing is paid before. Nobody without weight or without the required attestation takes part, whatever is staked and unstaked meanwhile.",
  ["inputs", "histories", "configurations"], "every membership kind, weights, votes, stake changes during the vote, quorum, threshold, treasury balance and amount",
  "The guarantee crosses seven contracts and depends on weights, order and timing together; tests cover one contract at a time.",
  CTLF[:1] + ["contracts/enterprise-factory/src/contract.rs", "contracts/enterprise-treasury/src/contract.rs", "contracts/enterprise/src/contract.rs", "packages/poll-engine/src/state.rs"],
  [("create_proposal, cast_vote, execute_proposal, weights_changed", "contracts/enterprise-governance-controller/src/contract.rs"), ("spend", "contracts/enterprise-treasury/src/contract.rs")],
  [E("fact", "life_fund", "paid not_paid")],
  ["eight membership kinds; three members with any weights up to 2^100 (multisig, CW3 and token kinds) and one stake change during or after the vote; any quorum and threshold for native-token DAOs, one half otherwise; any treasury balance and amount up to 2^100"],
  ALLC)

P("C31", "End to end, rewards follow the members' stakes through all contracts",
  "In a DAO made by the factory what is distributed goes to those with membership weight, in proportion to it at that moment: stakes made, taken back and members set at creation are reflected at once in the rewards. Earned rewards stay when stakes go, new stakers earn nothing of the past, and members of the council earn nothing for being in the council.",
  ["inputs", "histories", "configurations"], "every membership kind, council, stakes, unstaked amount and distributed amounts",
  "Weight changes travel through hooks over four contracts wired at creation; tests exercise each contract with the messages it expects.",
  ["contracts/enterprise-factory/src/contract.rs", "contracts/enterprise-governance-controller/src/contract.rs", "packages/membership-common/src/weight_change_hooks.rs"] + DISF[:3],
  [("initial_weights in the factory's creation of the distributor", "contracts/enterprise-factory/src/contract.rs"), ("weights_changed", "contracts/enterprise-governance-controller/src/contract.rs"), ("report_weight_change_submsgs", "packages/membership-common/src/weight_change_hooks.rs")],
  [E("fact", "life_rewards", "multisig staked")],
  ["eight membership kinds, a council of two, two distributions of any amount up to 2^64 with one stake and one unstake between them"],
  ALLC)

P("C32", "A created DAO is in nobody's hands but its own",
  "After a DAO is created neither its creator, the factory, its administrator, the version registry's administrator, a member, a council member, another DAO nor any of the DAO's own components other than the ones in charge can spend its treasury, set reward weights, votes, members or metadata, end its polls, run its proposals, deploy its remote treasuries, register hooks, set its components again or replace the code of any component.",
  ["inputs", "configurations"], "every sender among the parties and contracts around a DAO, every operation and membership kind",
  "One component left administered by the wrong party at creation is enough; tests do not try the wrong parties on a complete DAO.",
  ["contracts/enterprise-factory/src/contract.rs", "contracts/enterprise/src/contract.rs", "contracts/enterprise-treasury/src/contract.rs", "contracts/enterprise-governance-controller/src/contract.rs"],
  [("admins given to the components in finalize_dao_creation and replies", "contracts/enterprise-factory/src/contract.rs")],
  [E("fact", "life_auth", "own refused")],
  ["four membership kinds, any sender (every name of up to 7-10 characters, symbolic), twelve operations; migration of each of the eight components"],
  ALLC)

FCDC = ALLC + ["enterprise_facade::", "enterprise_facade_v2::"]

P("C33", "The facade reports every DAO as its contracts hold it",
  "Asked through the facade, by the address of its treasury or of its main contract, a DAO's components, metadata, governance and council configuration, version, unlocking period, staked asset, members and their share of the votes, stakes, totals, staked NFTs, claims (all and releasable), whitelists, proposals, statuses, votes, cross-chain treasuries and migration stage are reported exactly as the DAO's own contracts hold them, page by page as asked; a multisig has no stakes or claims and only a multisig lists members; a question about a DAO from before the rewrite is passed on to the old facade with its answer returned unchanged; an address that is no DAO is refused.",
  ["inputs", "configurations"], "every configuration, stake, weight and address within the bounds, each membership kind",
  "Front ends see DAOs through the facade alone; a figure taken from the wrong contract or field shows only for particular kinds, configurations or values.",
  ["contracts/enterprise-facade/src/contract.rs", "contracts/enterprise-facade/src/facade.rs", "contracts/enterprise-facade-v2/src/facade_v2.rs", "contracts/enterprise-facade-v2/src/contract.rs"],
  [("get_facade", "contracts/enterprise-facade/src/facade.rs"), ("query_* of EnterpriseFacadeV2", "contracts/enterprise-facade-v2/src/facade_v2.rs")],
  [E("fact", "fcd_info", "full plain"), E("fact", "fcd_version", "told"), E("fact", "fcd_member", "multisig staked"), E("fact", "fcd_props", "listed", thorough=dict(kinds=3)),
   E("fact", "fcd_route", "unknown dao old"), E("fact", "fcd_chains", "chains")],
  ["eight membership kinds; configuration values, stakes, weights and version numbers (up to 2^40) symbolic; three proposals (two general, one council) with two votes and three moments in time; any address of up to 10 characters asked about",
   "the facade for DAOs from before the rewrite (enterprise-facade-v1) answers for contracts that are not in this repository: a stand-in takes its place, so only the passing on is decided (C37 is about that facade)"],
  FCDC)

P("C34", "What the facade says to do, does exactly that",
  "The messages the facade hands out for staking, unstaking, claiming, creating a proposal without a deposit or with one of native coins, tokens or NFTs, creating a council proposal, voting, council voting and executing a proposal, signed by the user, are understood by the DAO's contracts and have exactly the named effect, with the amounts, tokens, owners, texts and actions given: the stake moves and counts for the named user, the deposit is held and returned to its owner, the vote counts as cast, and executing sends one uluna for each cross-chain action and nothing else; a deposit or operation of a kind the DAO does not have is refused.",
  ["inputs", "configurations"], "every amount within the bounds, each membership kind and deposit kind",
  "The message is handed out as text for the user to sign; a wrong recipient, amount or field is signed in good faith.",
  ["contracts/enterprise-facade-v2/src/facade_v2.rs", "contracts/enterprise-facade/src/contract.rs", "packages/enterprise-facade-api/src/api.rs"],
  [("adapt_* of EnterpriseFacadeV2", "contracts/enterprise-facade-v2/src/facade_v2.rs")],
  [E("fact", "fcd_stake", "claimed"), E("fact", "fcd_gov", "passed rejected refused"), E("fact", "fcd_council", "outsider council")],
  ["six staking kinds for stakes, eight for proposals; amounts symbolic (up to 2^100; NFTs one or two); 0-2 cross-chain actions; any council proposer of a four-letter name",
   "the handed-out JSON is parsed by the same parser the chain uses; a symbolic amount's decimal text is kept as a token that stands for it"],
  FCDC)

P("C35", "Proposals that contradict themselves or could never run are refused when made",
  "A proposal, of members or of the council, is accepted only if each of its actions makes sense, wherever it stands in the list: changes of asset or NFT whitelists name valid contracts, each at most once and not both to add and to remove; an upgrade leads to a later version than the DAO's; messages given as text are messages; membership edits are for multisig DAOs and name valid members once each; a council has valid members, each once, and valid rules; payments and distributions name a valid recipient and assets the treasury can pay. Instructions for another chain are not judged by this chain's address rules. A refused proposal leaves nothing behind and an accepted one keeps its actions as proposed.",
  ["inputs", "configurations"], "every action kind, position, DAO type and list within the bounds, every version and ratio",
  "A check that looks at one list, one kind of asset or the first action only passes the examples; the combinations of lists, kinds and positions are what decides.",
  CTLF[1:] + CTLF[:1], [("validate_proposal_actions and the validate_* of each action", "contracts/enterprise-governance-controller/src/validate.rs")],
  [E("ctl", "val_assets", "accepted refused"), E("ctl", "val_nfts", "accepted refused"), E("ctl", "val_upgrade", "accepted refused"), E("ctl", "val_msgs", "accepted refused"),
   E("ctl", "val_members", "accepted refused"), E("ctl", "val_funds", "accepted refused"), E("ctl", "val_council", "accepted refused"),
   E("ctl", "ctl_config_change", "applied refused unlock_refused"), E("ctl", "ctl_council_change", "changed refused removed")],
  ["lists of up to two entries to add and remove out of nine assets / three NFTs; any 64-bit version triple against version 1.1.1; eight texts; two member edits with any weights; two assets out of four with any amount; councils of three with any 128-bit ratios; the action alone, first or second",
   "names and texts are enumerated by choice (the code hashes and parses them); numbers are symbolic"], CTLC)

P("C36", "Lists are complete, in order, and begin and end where asked",
  "Whatever is listed page by page, that is proposals, polls, votes of a proposal or of a voter, members, staked NFTs of all or of one member, whitelisted assets and NFTs, remote treasuries and the factory's code ids, a page asked for after any position with any limit holds exactly the entries that follow that position, in the list's fixed order, as many as the limit allows and no more, each exactly as it is when asked for alone; filters leave out exactly the entries of another status.",
  ["inputs", "configurations"], "every start position, end, limit, order and filter, over lists of up to five entries",
  "Tests read lists from the start without limits; an off-by-one, a skipped group or a swallowed entry shows only for particular positions and limits.",
  ["packages/poll-engine/src/query.rs", "contracts/enterprise-governance-controller/src/contract.rs", "packages/nft-staking-impl/src/query.rs", "packages/token-staking-impl/src/query.rs", "packages/denom-staking-impl/src/query.rs",
   "packages/multisig-membership-impl/src/query.rs", "contracts/enterprise-treasury/src/asset_whitelist.rs", "contracts/enterprise-treasury/src/contract.rs", "contracts/enterprise-outposts/src/contract.rs", "contracts/enterprise-factory/src/contract.rs"],
  [("query_polls, query_poll_voters, query_voter", "packages/poll-engine/src/query.rs"), ("query_proposals, query_proposal_votes", "contracts/enterprise-governance-controller/src/contract.rs"),
   ("query_members, query_staked_nfts, query_user_nft_stake", "packages/*-impl/src/query.rs"), ("get_whitelisted_assets_starting_with_*", "contracts/enterprise-treasury/src/asset_whitelist.rs")],
  [E("gov", "lst_polls", "listed"), E("gov", "lst_voters", "of_poll of_voter"), E("ctl", "lst_props", "proposals votes"), E("stake", "lst_members", "listed"), E("stake", "lst_nfts", "user all"),
   E("dist", "lst_assets", "listed"), E("dist", "lst_nft_whitelist", "listed"), E("cross", "lst_chains", "listed"), E("fact", "lst_codes", "listed")],
  ["lists of up to five entries with concrete names; any start and end name of up to two characters or any 64-bit number, any limit up to the type's maximum, symbolic; both orders where offered; four membership kinds",
   "page sizes above the default of 50 and the cap of 100 are outside the bounds; lists keyed by address and number come shorter names first, as stored"],
  ["poll_engine", "enterprise_governance_controller::", "enterprise_governance::", "_staking_impl", "multisig_membership_impl", "enterprise_treasury::", "enterprise_outposts::", "enterprise_factory::"])

P("C37", "The facade for pre-rewrite DAOs tells and does just what they would",
  "Asked through the facade about a DAO from before the rewrite, its set-up comes back as that DAO gives it, with the veto threshold falling back to the threshold, a version 0.N for code version N, itself as treasury, and no components, remote treasuries or migration of later versions; members, whitelists, votes, stakes, totals, staked NFTs and claims (all and releasable) come back unchanged, for the user, proposal and page asked about. A proposal such a DAO still holds as in progress is reported as passed or rejected by its votes once its time is up, as ready for early execution before that only where early execution is allowed (or it is the council's) and the votes decide it, and as in progress otherwise; an ended one keeps its status; alone or listed, the same is told. The messages handed out for proposing (with or without a token deposit, as a member or the council), voting, executing, staking, unstaking and claiming are in that DAO's own language and say exactly what was asked (stakes and deposits in such a DAO are always the sender's own); an upgrade leads to the code of the version named, or to the treasury of 1.0.0 for anything later; what such a DAO cannot do, among it anything about other chains or staked coins, is refused rather than changed into something else.",
  ["inputs", "configurations"], "every configuration, figure, tally, moment and version within the bounds, each kind of action",
  "The old contracts are live and answer in another language: a field mapped to the wrong one, or dropped, yields a proposal that does something else than its author wrote; which one shows only for particular actions and tallies.",
  ["contracts/enterprise-facade-v1/src/facade_v1.rs", "contracts/enterprise-facade-v1/src/v1_structs.rs", "contracts/enterprise-facade-v1/src/contract.rs", "contracts/enterprise-facade/src/contract.rs", "contracts/enterprise-facade/src/facade.rs"],
  [("EnterpriseFacadeV1", "contracts/enterprise-facade-v1/src/facade_v1.rs"), ("conversions between old and new messages", "contracts/enterprise-facade-v1/src/v1_structs.rs")],
  [E("fact", "old_setup", "told"), E("fact", "old_figures", "told"), E("fact", "old_status", "open early passed rejected"), E("fact", "old_propose", "made refused"), E("fact", "old_upgrade", "unknown rewritten older"),
   E("fact", "old_operate", "asked nfts refused tokens", thorough=dict(id_bits=40))],
  ["configuration values, figures (every 128-bit value), tallies (up to 2^100), moments and versions symbolic; three kinds of DAO; 17 kinds of action, local and remote; two proposals listed; proposal numbers up to 2^14 (thorough: 2^40)",
   "the old DAO is not in this repository: a stand-in answers what it was told to and understands the old messages only, strictly; in handed-out text ratios are concrete, and so is all of a proposal sent along with tokens; proposals that expire at a height (which the old DAOs do not make) are outside"],
  ["enterprise_facade::", "enterprise_facade_v1::", "poll_engine::"])
