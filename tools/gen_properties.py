#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
NOTEST = "The repository's contracts have no behavioural tests; only the poll library has sampled unit tests. "
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

GC = "contracts/enterprise-governance-controller/src/contract.rs"
GV = "contracts/enterprise-governance-controller/src/validate.rs"
FD = "contracts/funds-distributor/src/"
FA = "contracts/enterprise-factory/src/"
EN = "contracts/enterprise/src/contract.rs"
TR = "contracts/enterprise-treasury/src/"
OU = "contracts/enterprise-outposts/src/"

prop("C01", "Poll outcome follows exact quorum, threshold and veto arithmetic",
 "For any votes, total available votes, quorum, threshold and veto threshold, ending a poll passes it exactly when votes cast (abstentions included) over votes available reach the quorum, veto votes over non-abstaining votes stay below the veto threshold (the ordinary threshold when none is set), and yes votes over non-abstaining votes reach the threshold and outnumber a no side that reaches it too; meeting a bound exactly counts as reaching it. Otherwise it is rejected with the reason that applies, in the order quorum not reached, vetoed, rejected by no, draw, threshold not reached. The read-only preview of a poll's outcome agrees with what ending it at that moment produces.",
 ["inputs", "histories"], "every vote multiset, total, and quorum/threshold/veto triple, including exact boundary ratios, abstain-only and zero-vote polls",
 "Existing unit tests sample about twenty fixed ratios; boundary equality, abstain interplay and large magnitudes need quantification over all inputs.",
 ["packages/poll-engine/src/state.rs", "packages/poll-engine/src/execute.rs", "packages/poll-engine/src/query.rs", "contracts/enterprise-governance/src/contract.rs"],
 [("final status computation", "packages/poll-engine/src/state.rs"), ("ending a poll", "packages/poll-engine/src/execute.rs"), ("status simulation", "packages/poll-engine/src/query.rs")],
 ["poll status and outcome preview queries of the governance contract"])

prop("C02", "Each voter counts once, with the latest vote, and only while the poll is open",
 "At every moment a poll's tally for each outcome equals the sum of the amounts of each voter's single latest recorded vote, so voting again replaces the earlier vote and never adds to it, and the voter and vote listings show exactly those votes. Votes are accepted only from the poll's start until just before its end and only while it has not been ended, and a poll can be ended only once: before its end time solely when early ending is permitted, the quorum is reached and some outcome has reached its threshold. Re-weighting a voter changes only that voter's votes in polls that are still open.",
 ["histories", "inputs"], "every interleaving of poll creation, votes, re-votes, weight changes, endings and time advances over several polls and voters",
 "Existing tests exercise one or two votes on one poll; tally integrity must hold over arbitrary histories with many polls, voters and clock positions.",
 ["packages/poll-engine/src/execute.rs", "packages/poll-engine/src/state.rs", "packages/poll-engine/src/validate.rs", "packages/poll-engine/src/query.rs", "contracts/enterprise-governance/src/contract.rs"],
 [("cast vote / replace vote", "packages/poll-engine/src/execute.rs"), ("re-weighting open votes", "contracts/enterprise-governance/src/contract.rs")],
 ["poll, vote, voter and poll-listing queries of the governance contract"])

prop("C03", "A proposal's actions run at most once, and only if the proposal passed",
 "Over any history of a DAO, a proposal's actions take effect at most once and only if it passed under the quorum, threshold and veto settings recorded at its creation; a rejected proposal's actions never take effect and anyone may finalise a decided proposal exactly once. Proposal queries report status, tallies, available votes and action list consistently with what executing it at that moment does, and the tallies, outcome and available votes of a finalised proposal never change afterwards. Proposal ids are assigned consecutively from one and all proposals stay queryable.",
 ["histories"], "every history of proposals, votes, stake changes, time advances and execution attempts, for each DAO type",
 NOTEST + "The guarantee spans five contracts and arbitrary histories.",
 [GC, "contracts/enterprise-governance/src/contract.rs", "packages/poll-engine/src/execute.rs"],
 [("execute proposal", GC), ("resolve ended proposal", GC), ("proposal status", GC)],
 ["governance controller proposal queries", "treasury balances and configuration changed by actions"])

prop("C04", "Early execution needs permission, a decided vote and the cool-down period",
 "Before its voting period ends a proposal can be finalised only if the DAO allows early execution, the quorum is already reached and some outcome already satisfies its threshold against the votes currently available. In every DAO except multisig ones that allows early execution, a vote that changes the standing result blocks finalising until a tenth of the voting period has passed since that vote or the voting period ends, whichever comes first, while votes leaving the standing result unchanged do not extend the wait. Once the voting period has ended no early-execution rule blocks finalising.",
 ["histories", "schedules"], "every sequence of votes and execution attempts at arbitrary times around cool-down and voting-period boundaries",
 NOTEST + "The cool-down depends on the exact timing and order of votes.",
 [GC, "packages/poll-engine/src/execute.rs"],
 [("delay set in vote reply", GC), ("execution gate", GC)],
 ["execute-proposal acceptance", "proposal status query"])

prop("C05", "Proposal deposits are held in custody and always return to exactly one place",
 "When a DAO sets a minimum deposit, a general proposal can be created only with at least that amount of the DAO's own asset, in which case the proposer need not be a member; without one, the proposer must have voting weight. A deposit stays with the DAO's governance until the proposal is finalised and is then paid out exactly once and in full: to the depositor when the proposal passed or was rejected on an ordinary vote, to the DAO treasury when it missed quorum or was vetoed. At any time governance holds at least the sum of the deposits of all proposals not yet finalised, unless the DAO itself passed a custom message spending them.",
 ["histories", "configurations"], "every history of proposals with and without deposits for token, native-denom and NFT DAOs, under every outcome",
 NOTEST + "Custody must balance over arbitrary numbers of concurrent proposals and outcomes.",
 [GC, GV], [("deposit intake", GC), ("deposit return/confiscation", GC)],
 ["asset balances of depositor, controller and treasury"])

prop("C06", "The council can only do what the DAO allowed it to do",
 "Council proposals can be created and voted on only by current council members, with one vote each, only when a council exists, and may contain only action kinds the DAO lists for its council, which by default is only upgrading the DAO and can never include changing governance rules, spending, treasury calls, custom messages, council or membership changes or other fund-moving actions. Council proposals are decided by the council's own quorum and threshold over the number of council members, general members cannot vote on them through the general vote and council members cannot vote on general proposals through the council vote. Council membership has no effect on general voting power or on rewards.",
 ["histories", "inputs"], "every council composition, allowed action list, proposal content and voting history",
 NOTEST + "Restriction must hold for all action lists and membership changes.",
 [GC, GV, FA + "contract.rs"], [("council action validation", GV), ("council proposals and votes", GC)],
 ["council proposal acceptance", "proposal tallies", "reward weights"])

prop("C07", "Voting power on open proposals always equals current membership weight",
 "Whenever a member's stake or multisig weight changes, that member's already cast votes on every general proposal still in progress immediately count with the new weight (dropping to zero when the weight is gone), while votes on ended or finalised proposals stay as they were. A vote is accepted only from someone with non-zero weight and counts with exactly the weight held at that moment. The votes available on a proposal are the live total weight while it is in progress and the total weight at the end of voting, or at finalisation if earlier, afterwards.",
 ["histories"], "every interleaving of staking, unstaking, membership edits, votes, and time advances over several proposals",
 NOTEST + "Requires cross-contract propagation over arbitrary histories.",
 [GC, "packages/membership-common/src/weight_change_hooks.rs", "packages/membership-common/src/total_weight.rs", "contracts/enterprise-governance/src/contract.rs"],
 [("weights-changed handling", GC), ("historic totals", "packages/membership-common/src/total_weight.rs")],
 ["proposal tallies and member-vote queries", "total votes available in proposal query"])

prop("C08", "Membership weight equals net stake and the total equals the sum of weights",
 "In token, native-denom and NFT staking memberships, a user's weight always equals what was staked for them minus what they unstaked (for NFTs, the number of tokens currently staked), and total weight equals the sum over all users and the sum of the member listing. The total weight queried for a past time or height equals what it was when that second or block began, no matter what happened later. Nobody can unstake more than their own stake or an NFT staked by someone else.",
 ["histories"], "every sequence of stakes (for oneself and for others), unstakes, claims and clock advances by several users, including attempts that must fail",
 NOTEST + "Ledger invariants must hold over all histories, including historical queries.",
 ["packages/token-staking-impl/src/execute.rs", "packages/denom-staking-impl/src/execute.rs", "packages/nft-staking-impl/src/execute.rs", "packages/membership-common/src/member_weights.rs", "packages/membership-common/src/total_weight.rs"],
 [("stake/unstake", "packages/*-staking-impl/src/execute.rs"), ("snapshots of total weight", "packages/membership-common/src/total_weight.rs")],
 ["user weight, total weight, members queries"])

prop("C09", "Staked tokens are always backed, and claims pay out once, to the owner, in time",
 "A token or native-denom membership contract always holds exactly the sum of all stakes and unpaid claims plus anything sent to it outside of staking. Unstaking creates a claim for exactly the unstaked amount that becomes payable once the unlocking period configured at that moment has passed, and claiming pays the user exactly their payable claims, each once, leaving the others untouched. Only the DAO's own asset is accepted for staking, and claim listings show exactly the outstanding and the payable claims.",
 ["histories", "configurations"], "every history of stakes, unstakes, unlocking-period changes (by time or by height), claims and clock advances by several users",
 NOTEST + "Custody equality must hold after every step of any history.",
 ["packages/token-staking-impl/src/execute.rs", "packages/token-staking-impl/src/claims.rs", "packages/denom-staking-impl/src/execute.rs", "packages/denom-staking-impl/src/claims.rs"],
 [("claims", "packages/*-staking-impl/src/claims.rs")], ["asset balances", "claims and releasable-claims queries"])

prop("C10", "Staked NFTs stay in custody, staked once, and return only to their staker",
 "An NFT staking membership owns exactly the NFTs that are staked or in an unpaid claim (plus any transferred to it outside of staking); each NFT has at most one staker or claimant at a time. Unstaked NFTs become claimable only after the unlocking period and each goes back exactly once to the user who unstaked it. NFTs from any other collection are refused.",
 ["histories"], "every history of NFT stakes, transfers, unstakes, claims and clock advances by several users and several tokens",
 NOTEST + "Ownership tracking must hold over all histories of several tokens.",
 ["packages/nft-staking-impl/src/execute.rs", "packages/nft-staking-impl/src/claims.rs", "packages/nft-staking-impl/src/query.rs"],
 [("stake/unstake/claim NFT", "packages/nft-staking-impl/src/execute.rs")], ["NFT ownership", "user stake, staked NFTs and claims queries"])

prop("C11", "Weight changes are reported exactly to every registered listener",
 "After every successful operation that changes a membership weight (stakes, unstakes, and member edits or replacements in a multisig), each registered listener is told the old and new weight of each affected user, so that a listener replaying all reports always knows every user's exact weight. Multisig weights are exactly what the last edit or replacement says, members not listed are untouched by an edit and removed by a replacement, repeated members in one edit are refused, and only the DAO's governance can change members or listeners.",
 ["histories"], "every history of weight-changing operations, with listeners added and removed at arbitrary points, for all membership kinds",
 NOTEST + "Completeness of notification is a history property.",
 ["packages/multisig-membership-impl/src/execute.rs", "packages/membership-common/src/weight_change_hooks.rs", "packages/token-staking-impl/src/execute.rs", "packages/nft-staking-impl/src/execute.rs", "packages/denom-staking-impl/src/execute.rs"],
 [("weight change hooks", "packages/membership-common/src/weight_change_hooks.rs"), ("update/set members", "packages/multisig-membership-impl/src/execute.rs")],
 ["messages received by a recording listener", "member and weight queries"])

prop("C12", "Rewards are split by weight at distribution time and never overpaid",
 "Each distribution credits every user its amount times the user's effective weight divided by the total effective weight at that moment, regardless of later weight changes and of when or how often rewards are claimed; a user who joins later gets nothing from earlier distributions. The reward query equals what claiming pays, claiming pays each asset once to the user and leaves other users' and other assets' rewards unchanged, and rounding only ever loses, never adds: less than a unit per accrual (plus weight times 1e-18 per distribution). The sum paid out and still claimable never exceeds what was distributed, and the distributor always holds it.",
 ["histories", "inputs"], "every sequence of weight updates, distributions of several native and CW20 assets, and claims by several users, over a wide range of magnitudes",
 NOTEST + "Fairness and conservation are history-wide arithmetic invariants.",
 [FD + "distributing.rs", FD + "rewards.rs", FD + "claim.rs", FD + "user_weights.rs", FD + "native_distributions.rs", FD + "cw20_distributions.rs"],
 [("global index update", FD + "distributing.rs"), ("user accrual", FD + "user_weights.rs"), ("claim", FD + "claim.rs")],
 ["user rewards query", "balances of users and distributor"])

prop("C13", "The minimum weight for rewards is applied exactly and from now on only",
 "A user whose weight is below the configured minimum accrues nothing from a distribution and does not dilute others, a user at or above it accrues with their full weight. Changing the minimum or a user's weight re-evaluates eligibility for later distributions only, and never changes rewards already earned. Distributions fail, without taking any assets, when no eligible weight exists or an asset is not whitelisted by the DAO or globally.",
 ["histories", "configurations"], "every history of minimum changes, weight changes across the minimum, distributions and claims",
 NOTEST + "Interaction of threshold crossings with accrual needs arbitrary histories.",
 [FD + "eligibility.rs", FD + "user_weights.rs", FD + "distributing.rs"],
 [("minimum eligible weight update", FD + "eligibility.rs")], ["user rewards query", "minimum eligible weight query", "distribution acceptance"])

prop("C14", "Reward weights always equal live DAO membership weights",
 "From the moment a DAO is created and after every change of membership, the weights used to split distributed rewards are exactly the members' current membership weights: initial multisig members earn from the first distribution, and users without membership weight (including council members) never earn. Funds distributed by a passed proposal or by anyone else reach members in proportion to their membership weight at that moment.",
 ["histories", "configurations"], "every DAO configuration and every history of membership changes interleaved with distributions",
 NOTEST + "Spans factory, membership, governance and distributor contracts.",
 [FA + "contract.rs", FA + "multisig_membership.rs", GC, FD + "user_weights.rs"],
 [("initial weights", FA + "contract.rs"), ("weights-changed forwarding", GC)], ["user rewards query after distribution"])

prop("C15", "Privileged operations are refused to everyone but their designated caller",
 "Every operation reserved for a DAO's governance, for the DAO's own contracts, or for a registry's administrator or creator fails with no effect for any other caller, including members, former administrators and other DAO contracts, and works for the designated caller. This covers governance votes and polls, treasury spending and whitelists, membership edits and unlocking period, listeners, reward weights and minimum, DAO metadata, configuration, attestation and upgrade, cross-chain deployment and execution, the factory and version registries, proposal-action execution and one-time finalisation of a new DAO.",
 ["inputs", "configurations"], "every (privileged operation, caller, contract) combination over the contracts of live DAOs with generated arguments",
 NOTEST + "Access control must hold for every caller and every entry point.",
 ["contracts/*/src/contract.rs", "packages/membership-common/src/validate.rs", "packages/*-impl/src/execute.rs"],
 [("admin checks", "contracts/*/src/contract.rs")], ["success or failure of each call and raw storage of all contracts"])

prop("C16", "Treasury whitelists behave as sets, with complete and exact listings",
 "After any sequence of additions and removals the treasury's asset and NFT whitelists contain exactly the added and not since removed entries, each once. Paging through a listing with any page size returns every entry exactly once. Whitelisting multi-token assets is refused, and so are proposals naming the same entry twice in one list or in both the add and the remove list.",
 ["histories", "inputs"], "every sequence of whitelist edits over native, CW20 and NFT entries and every page size",
 NOTEST + "Set semantics across asset kinds and pages quantifies over all edit sequences.",
 [TR + "contract.rs", TR + "asset_whitelist.rs", TR + "nft_whitelist.rs", GV],
 [("whitelist update", TR + "contract.rs"), ("pagination", TR + "asset_whitelist.rs")], ["asset and NFT whitelist queries"])

prop("C17", "Where an attestation is required, users who did not sign can do nothing",
 "While a DAO requires an attestation, a user who has not signed it cannot stake for themselves or be staked for, create general or council proposals, vote, execute proposals or claim rewards, and no such attempt has any effect; once signed, all of these work as without attestation. Setting a new attestation text requires signing anew, removing it lifts the restriction, and signing is per user and idempotent.",
 ["histories"], "every sequence of attestation set/remove/sign operations interleaved with user actions, for all DAO types",
 NOTEST + "Must hold for every user entry point in every attestation state.",
 [EN, GC, FD + "claim.rs", "packages/membership-common/src/validate.rs", "contracts/attestation/src/contract.rs"],
 [("restricted-user check", EN), ("attestation signing", "contracts/attestation/src/contract.rs")], ["acceptance of user actions", "restricted-user query"])

prop("C18", "Governance settings stay valid; open proposals keep the settings they began with",
 "A governance configuration can only come into force if quorum, threshold and veto threshold are greater than zero and at most one, the voting period is positive, multisig DAOs have no minimum deposit, and a changed time-based unlocking period is not shorter than the voting period then in force. A passed configuration change alters exactly the fields it names, and a changed unlocking period governs later unstakes only. Proposals already created keep their voting period, quorum, threshold and veto threshold.",
 ["histories", "inputs"], "every governance configuration change, at DAO creation and by proposal, interleaved with open proposals",
 NOTEST + "Validity must hold for every input and every history of updates.",
 [GC, GV], [("config validation", GV), ("config update", GC)], ["governance config query", "proposal queries"])

prop("C19", "The version registry is append-only, ordered and complete",
 "The version registry returns for each version exactly the information last stored for it, refuses to add an existing version or to edit a missing one, and an edit changes only the fields it names. The latest version is always the numerically greatest (by major, then minor, then patch), and paging through versions from any starting point with any page size lists each exactly once in ascending order.",
 ["histories", "inputs"], "every sequence of additions, edits and queries with arbitrary version numbers including multi-digit components",
 NOTEST + "Ordering and completeness must hold for all version sets.",
 ["contracts/enterprise-versioning/src/contract.rs"], [("add/edit/list versions", "contracts/enterprise-versioning/src/contract.rs")],
 ["version, versions and latest-version queries"])

prop("C20", "A DAO upgrade walks every published version once, upward, and never back",
 "Upgrading a DAO is possible only to a version greater than its current one, and migrates its main contract through every published version above the current and up to the target, each exactly once and in ascending order, regardless of how many there are, using the migration message supplied for that version when there is one and an empty one otherwise. Afterwards the DAO reports the target version. A step onto the current release also moves the DAO's outposts, rewards, membership and council contracts to the code published for it, with their state intact. A failing step, a repeated migration message for one version or a lower or equal target leaves the DAO unchanged.",
 ["inputs", "histories"], "every set of published versions, current and target version and migration-message assignment",
 NOTEST + "Must hold for all version sets, beyond one registry page.",
 [EN, "contracts/enterprise-versioning/src/contract.rs"], [("upgrade", EN)], ["order of migrations run", "DAO version query"])

prop("C21", "Every created DAO is fully wired, registered once, and administers itself",
 "For every valid creation request the factory yields a DAO whose component contracts all exist, use the code ids of the requested (or latest) version, are administered by the DAO's own contract (an attestation is unchangeable) and refer to one another; it is listed in the factory exactly once under consecutive ids, with exactly the requested metadata, governance settings, council, whitelists, membership and initial balances. Invalid requests (no multisig member with any weight, duplicate members, zero initial balances, invalid governance settings, too short unlocking period, token without any holder or minter) create nothing. The factory recognises exactly the code ids it recorded as the ecosystem's own.",
 ["configurations", "inputs"], "every DAO creation request over membership kinds, councils, settings, whitelists and versions, and sequences of creations",
 NOTEST + "Wiring must hold for the whole configuration space.",
 [FA + "contract.rs", FA + "validate.rs", FA + "token_membership.rs", FA + "nft_membership.rs", FA + "denom_membership.rs", FA + "multisig_membership.rs"],
 [("creation reply chain", FA + "contract.rs")], ["factory and component queries", "contract info (admin, code id)"])

prop("C22", "One cross-chain treasury per chain; only authenticated replies are accepted",
 "Only the DAO's governance can deploy or use a cross-chain treasury; each chain gets at most one proxy and one treasury, a second deployment to a chain with a treasury is refused, and a deployment reuses an existing proxy. A cross-chain reply is acted upon only when it carries a known pending id and comes from the account derived from the expected channel and remote sender, and each pending id is consumed at most once. Outgoing deployments carry the requested payload to the proxy the chain is known by, outgoing executions to the DAO's own recorded proxy and treasury, and the listing shows exactly the treasuries confirmed so far.",
 ["histories", "inputs", "fault_sequences"], "every sequence of deployments, executions and genuine, forged, repeated or out-of-order replies over several chains",
 NOTEST + "Replies are asynchronous and adversarial, so all orders and senders matter.",
 [OU + "contract.rs", OU + "ibc_hooks.rs"], [("reply authentication", OU + "contract.rs"), ("deployment", OU + "contract.rs")],
 ["outgoing messages", "cross-chain treasury and deployment queries"])

prop("C23", "NFTs arriving over ICS-721 are credited to exactly the user they were sent for",
 "The callback proxy acts only on calls by the configured transfer contract, and for a staking callback forwards each NFT of the packet exactly once to the membership contract named in the callback, on behalf of the user named there, doing nothing for unrecognised callbacks. NFT memberships bound to a cross-chain collection accept exactly the local collection the transfer contract reports for it and nothing before it is known.",
 ["inputs"], "every packet (class, token ids), caller and callback message, and every membership configuration",
 NOTEST + "Quantifies over all callers, packets and collection mappings.",
 ["packages/ics721-callback-proxy-impl/src/execute.rs", "packages/nft-staking-impl/src/execute.rs", "packages/nft-staking-impl/src/query.rs"],
 [("callback dispatch", "packages/ics721-callback-proxy-impl/src/execute.rs"), ("collection resolution", "packages/nft-staking-impl/src/query.rs")],
 ["messages emitted by the proxy", "stakes credited, NFT contract query"])

prop("C24", "The facade reports and routes exactly what the DAO's own contracts would",
 "For every DAO of the current generation in every reachable state, each facade query returns the same facts as the corresponding DAO contract, whether the DAO is addressed by its treasury or by its main contract. Messages produced by the facade's adapters, sent unchanged and together by the user, have exactly the effect of the corresponding direct call to the right contract, and requests that do not fit the DAO's type have no effect. A member's voting power is their weight divided by the total weight.",
 ["histories", "configurations"], "every reachable DAO state, DAO type, facade query and adapter",
 NOTEST + "Equivalence must hold in every reachable state.",
 ["contracts/enterprise-facade/src/contract.rs", "contracts/enterprise-facade/src/facade.rs", "contracts/enterprise-facade-v2/src/facade_v2.rs", "contracts/enterprise-facade-v2/src/contract.rs"],
 [("facade v2 query mapping", "contracts/enterprise-facade-v2/src/facade_v2.rs"), ("facade dispatch", "contracts/enterprise-facade/src/facade.rs")],
 ["facade query responses", "effects of adapted messages"])

prop("C25", "Every paginated listing returns each item exactly once for any page size",
 "Following any paginated listing of the system (members, staked NFTs, proposals, proposal votes, DAOs, code ids, versions, polls, voters, whitelists, cross-chain treasuries) page by page from the last item received, with any page size, yields every existing item exactly once, in the same order as one large page, and nothing else. Filters by voter, and by status as recorded (in progress until finalised), return exactly the matching items.",
 ["inputs", "histories"], "every population size (including beyond the default page), page size and listing",
 NOTEST + "Off-by-one and boundary errors need all sizes and page lengths.",
 ["packages/poll-engine/src/query.rs", GC, "packages/token-staking-impl/src/query.rs", "packages/denom-staking-impl/src/query.rs", "packages/nft-staking-impl/src/query.rs", "packages/multisig-membership-impl/src/query.rs", FA + "contract.rs"],
 [("range queries with start-after and limit", "query functions of each contract")], ["paginated query responses"])

prop("C26", "Migrating a legacy DAO moves every stake and claim exactly once",
 "Migrating a legacy DAO's stakes and claims in any number of steps of any sizes ends with every user's stake and every outstanding claim, with unchanged owner, amount and release time, recorded in the new membership and backed there by the corresponding assets, and nothing left or duplicated in the old contract. After every intermediate step, the total recorded stake plus what is not yet moved is unchanged. Meanwhile the old contract keeps answering with every user's and the total weight as before, whether anything is left to move is truthfully reported, no step moves more token stakes and claims than its limit, anyone may take a step, and steps are refused when no migration is in progress.",
 ["histories", "inputs"], "every legacy population of stakes and claims (token and NFT) and every sequence of step limits",
 NOTEST + "Resumable migration must conserve under every batching.",
 [TR + "migration.rs", TR + "contract.rs", "packages/token-staking-impl/src/execute.rs", "packages/nft-staking-impl/src/execute.rs"],
 [("staged migration", TR + "migration.rs")], ["membership weights, claims and asset balances before and after"])

prop("C27", "A proposal's actions are applied all or nothing, and bad ones refused up front",
 "Executing a passed proposal applies either all of its actions, in order, or none of them, and in both cases the proposal ends up executed and its deposit is returned. Proposals with too many actions or with actions that can never be valid (out-of-range governance settings, duplicate council or whitelist or membership entries, non-increasing upgrade target, membership edits outside multisig DAOs, unparsable custom messages, spending or distributing multi-token assets) are refused at creation. Custom messages are executed with the governance as sender, and DAO-level messages with the DAO's main contract as sender.",
 ["histories", "inputs", "fault_sequences"], "every list of actions, with failing actions at any position",
 NOTEST + "Atomicity must hold for a fault at any action position.",
 [GC, GV], [("action execution with reply", GC), ("action validation", GV)], ["state of all DAO contracts before and after execution"])

prop("C28", "Treasury funds leave only by a passed proposal, exactly as specified",
 "A DAO treasury's balances of native, CW20 and NFT assets fall only by executing a passed proposal of that DAO, and then by exactly the amounts and to exactly the recipients its actions name; a spend exceeding the balance moves nothing. Funds sent from the treasury for distribution to members are credited in full as member rewards.",
 ["histories"], "every history of user operations and proposals with spend, distribute and treasury-call actions",
 NOTEST + "No-other-way-out is a universal statement over histories.",
 [TR + "contract.rs", GC, FD + "distributing.rs"], [("spend", TR + "contract.rs"), ("distribute funds", TR + "contract.rs")],
 ["treasury and recipient balances"])

prop("C29", "Metadata updates change exactly the named fields",
 "A passed metadata update sets exactly the fields it names to exactly the given values (clearing optional ones when so told) and leaves every other field as it was; multisig membership updates, minimum reward weight updates and council updates likewise change exactly what they name. No other operation changes the DAO's metadata.",
 ["inputs", "histories"], "every combination of named and unnamed fields, over sequences of updates",
 NOTEST + "Quantifies over all field combinations and prior states.",
 [EN, GC], [("metadata update", EN), ("council update", GC)], ["DAO info query", "governance config query", "member listing"])

prop("C30", "DAOs from before the rewrite stay readable and usable through the facade",
 "For a DAO still on its pre-rewrite contract, every facade query forwards the matching request to that contract and returns the same facts in today's format: an absent veto threshold is shown as the ordinary threshold, proposal actions of every kind keep their content, and upgrade proposals name the version whose code they referred to. A general proposal is shown as decided exactly as ending it now would decide it, and as executable early only where that is so. Adapters produce messages to the old contract which carry exactly the user's request in the old format; requests the old contract cannot serve are refused or answered as empty, never misrouted.",
 ["inputs", "configurations"], "every answer a pre-rewrite DAO can give, DAO type, facade query and adapter request",
 NOTEST + "The mapping quantifies over all old answers, action kinds and tallies.",
 ["contracts/enterprise-facade-v1/src/facade_v1.rs", "contracts/enterprise-facade-v1/src/v1_structs.rs", "contracts/enterprise-facade-v1/src/contract.rs", "contracts/enterprise-facade/src/facade.rs"],
 [("old DAO mapping", "contracts/enterprise-facade-v1/src/facade_v1.rs"), ("old data formats", "contracts/enterprise-facade-v1/src/v1_structs.rs")],
 ["facade query responses", "messages produced by adapters"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
