PS = "pallets/parachain-staking/src/"
SH = ("harness", "mon-staking")
SN_ = "Holds on every randomized history explored (11 accounts, 30-90 blocks, lists of 1-3 delegations, delays 0-4 rounds); trusts the registry's balances and frame crates. The pallet's own source is compiled for the on-chain build; authorship, session and fixed-point crates are stand-ins."
SS = "all sequences of joining, leaving, bonding, delegating, revoking, compounding and governance calls by candidates, delegators and strangers, interleaved with blocks, rounds and payouts, under any setting of delays and list sizes"
prop("C38", "Staked tokens are held exactly, and never leave except by their own exit",
 "At every moment the tokens a candidate or delegator has on hold are exactly what it has bonded: its self-bond, or the sum of its delegations. Tokens are taken only from the free balance of the account that asked, and return to it exactly when a delegation is kicked, revoked, decreased or left, or when a candidate leaves or reduces its bond after its delay. The recorded total at stake is the sum of all bonds, and no call or payout creates or destroys tokens.",
 ["histories", "inputs"], SS,
 "The tests follow scripted stories of two or three accounts; holds must agree with bonds after every order of kicks, exits, requests and compounding rewards.",
 [PS + "lib.rs", PS + "types.rs", PS + "delegation_requests.rs"], [("adjust_bond_lock, Delegator::*", PS + "types.rs"), ("delegator_leaves_candidate, execute_leave_candidates", PS + "lib.rs")],
 [("Total", "everything at stake", PS + "lib.rs"), ("StakingCollator, StakingDelegator", "holds", PS + "lib.rs")], ["every balance and hold, and Total, after every call and block"], SH, SN_)
prop("C39", "Delegation lists, totals, requests and auto-compounding all agree",
 "A candidate's largest delegations are its top list and the next its bottom list, each sorted and within its size, with the recorded totals, lowest and highest amounts, counts and capacities; a delegation exists in the delegator's record exactly when it is in one of the candidate's lists, with the same amount. Requests and auto-compound settings exist only for existing delegations, each with the amount, due round and percentage asked for; a delegator's outstanding decrease is the sum of its requests. The pool lists exactly the active candidates with what counts for each.",
 ["histories", "inputs"], SS,
 "A dozen redundant records must agree after any order of operations; the tests check a few of them after single operations.",
 [PS + "types.rs", PS + "lib.rs", PS + "delegation_requests.rs", PS + "auto_compound.rs"], [("CandidateMetadata::add_delegation, rm_*, increase_*, decrease_*", PS + "types.rs"), ("delegation_schedule_*, delegation_execute_scheduled_request", PS + "delegation_requests.rs"), ("AutoCompoundDelegations", PS + "auto_compound.rs")],
 [("TopDelegations, BottomDelegations, DelegatorState, CandidateInfo, CandidatePool, DelegationScheduledRequests, AutoCompoundingDelegations", "the books", PS + "lib.rs")], ["all of this storage after every call and block"], SH, SN_)
prop("C40", "Every staking call is accepted exactly when its rules allow it",
 "Joining, bonding more or less, going offline and online, leaving, delegating, revoking, decreasing, cancelling, executing and auto-compounding each succeed exactly when the caller, the amounts (minimum bonds, free balance, room in full lists), the size hints, pending requests and elapsed delays allow it, and otherwise change nothing. Requests execute no earlier than their delay. Parameters are changed only by governance and only to valid values.",
 ["histories", "inputs"], SS,
 "The tests try one wrong argument at a time; every call must be judged correctly in every state a history reaches.",
 [PS + "lib.rs", PS + "delegation_requests.rs", PS + "auto_compound.rs"], [("dispatchables", PS + "lib.rs")],
 [("all storage", "unchanged by refused calls", PS + "lib.rs")], ["result of every dispatch, all storage after it"], SH, SN_)
prop("C41", "Each round is run by the best-backed candidates, on a snapshot",
 "A round begins exactly when the previous one has lasted its length, and the session ends with it. Its collators are the active candidates with the largest counted stake, as many as the configured number, if there are any; otherwise the previous set stays. For each the round's snapshot records its bond, its top delegations less what is pending to be revoked or decreased, and their compounding, and the round's total stake is recorded.",
 ["histories", "inputs"], SS,
 "The tests fix a set of candidates and look at a few rounds; selection and snapshots must be right for every history of bonds, requests, exits and ties.",
 [PS + "lib.rs", PS + "types.rs"], [("select_top_candidates, compute_top_candidates, get_rewardable_delegators", PS + "lib.rs"), ("RoundInfo", PS + "types.rs")],
 [("SelectedCandidates, AtStake, Staked, Round", "rounds and snapshots", PS + "lib.rs")], ["session calls, selection, snapshots at every round change"], SH, SN_)
prop("C42", "Block rewards are shared by points and stake, once, after their delay",
 "The issuance of a round follows the inflation range chosen by comparing its stake with the expectation. After the payment delay each collator of the round that earned points is paid once, at most one per block: its share of the points, of which the commission is its own and the rest is split by the snapshot's stakes between it and its delegators, exactly up to rounding; pending revocations earn nothing. The chosen percentage of a delegator's reward is bonded unless the delegation is gone or being revoked; nothing is paid that the pay master does not have, and nobody else's balance changes.",
 ["histories", "schedules", "inputs"], SS,
 "The tests compare payouts of prepared rounds with constants; shares must be right for every mix of points, stakes, revocations, commissions and parameter changes between earning and payment.",
 [PS + "lib.rs", PS + "inflation.rs", PS + "types.rs"], [("prepare_staking_payouts, handle_delayed_payouts, pay_one_collator_reward, mint_and_compound, compute_issuance", PS + "lib.rs"), ("InflationInfo", PS + "inflation.rs")],
 [("Points, AwardedPts, DelayedPayouts, AtStake", "what is owed", PS + "lib.rs")], ["balance changes in every block"], SH, SN_)
prop("C46", "Staking reports what happened: no more, no less",
 "Every accepted staking call and every block emits exactly the events that describe what it changed, and nothing else: who joined, bonded, left, delegated, revoked, was kicked, was chosen or paid, which request was scheduled, executed or cancelled, which parameter was set. The amounts, rounds, totals and positions (top or bottom list) in them are those of the change, so that an observer can keep the books from events alone. Refused calls report nothing.",
 ["histories", "inputs"], SS,
 "The tests assert that an expected event occurred in a scripted story; that no event is missing, wrong or superfluous in any state (kicks, leaving with many delegators, compounding) quantifies over histories.",
 [PS + "lib.rs", PS + "types.rs", PS + "delegation_requests.rs", PS + "auto_compound.rs"], [("enum Event, dispatchables, mint_and_compound, pay_one_collator_reward", PS + "lib.rs"), ("schedule, execute and cancel requests", PS + "delegation_requests.rs"), ("adjust_bond_lock, leave, kick", PS + "types.rs")],
 [("frame_system::Events", "what is announced", PS + "lib.rs")], ["all events of the pallet after every call and block"], SH, SN_)
