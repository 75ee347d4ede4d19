D = "pallets/democracy/src/lib.rs"
DT = "pallets/democracy/src/types.rs"
DV = "pallets/democracy/src/vote.rs"
DH = ("harness", "mon-democracy")
DN = "Holds on every randomized history explored (parameters drawn per history, 8 users, 12 privileged accounts); trusts the registry's balances, preimage, scheduler and frame crates and the executable specification in harness/democracy/src/spec.rs."
WT = "The unit tests run a few fixed sequences under one set of constants; the guarantee quantifies over every interleaving of voters, delegators, proposers, privileged origins and block passage, and over all parameter values."
def dprop(id, title, st, text, mech, over=("histories", "inputs", "configurations"), files=(D,), state=(), note=DN, why=WT):
    prop(id, title, st, list(over), text, why, list(files), mech, state, ["dispatchables, storage, balances and events of the democracy pallet after every step"], DH, note)

dprop("C01", "A referendum's tally is exactly the votes and delegations behind it",
 "At any time the ayes, nays and turnout of an ongoing referendum equal the sum over all accounts currently voting on it of their conviction-weighted votes (split votes counting one tenth per side) plus, for a plain vote, the votes and capital delegated to that voter, on the side the voter chose. Voting, re-voting, removing a vote, delegating and undelegating change it by exactly the caller's own contribution, and a finished referendum no longer changes. An encoded vote has exactly one meaning (aye bit plus a conviction from none to 6x) and invalid encodings are refused.",
 "all sequences of vote/re-vote/remove/delegate/undelegate by any accounts over any concurrent referenda, with any balances and convictions",
 [("try_vote/try_remove_vote, increase_upstream_delegation/reduce_upstream_delegation", D), ("Tally::add/remove/increase/reduce", DT), ("Vote encoding", DV)], files=(D, DT, DV),
 state=[("ReferendumInfoOf", "ongoing tally", D), ("VotingOf", "each account's votes and delegations", D)])
dprop("C02", "Voting balance stays locked exactly as long as commitments require",
 "While an account has a vote on an ongoing referendum or a delegation, at least that balance is frozen; after a winning conviction vote is removed, or after undelegating, the balance stays frozen until the conviction's number of lock periods (none, 1, 2, 4, 8, 16, 32) has passed from the referendum's end (from undelegation for delegations). Losing votes, no-conviction votes and split votes cause no lock once over, unlocking never frees more and, once all is expired and removed, frees everything. Nobody but the account itself can remove its vote early: a third party may do so only for a finished referendum whose lock for that vote is already over.",
 "all sequences of votes, delegations, removals, unlocks and block passage, any balances, convictions and lock periods",
 [("try_remove_vote, PriorLock, update_lock/extend_freeze", D), ("PriorLock::accumulate/rejig, Voting::locked_balance", DV)], files=(D, DV, "pallets/democracy/src/conviction.rs"),
 state=[("balance freezes under FreezeReason::Vote", "what a voter cannot transfer", D)])
dprop("C03", "Delegated voting power always equals what delegators committed",
 "The votes and capital recorded as delegated to an account equal the sum, over the accounts currently delegating to it, of their delegated balance weighted by conviction and of that balance. Delegating, changing delegate and undelegating move exactly that amount between delegates and into or out of every ongoing referendum the delegate votes on, one level only (a delegate's own delegation does not pass it on). Delegating to oneself, delegating more than one owns, delegating while holding direct votes, and undelegating without a delegation are refused.",
 "all delegation graphs (chains, cycles, re-delegation) interleaved with votes by delegates",
 [("try_delegate/try_undelegate, increase_upstream_delegation/reduce_upstream_delegation", D), ("Delegations", DT)], files=(D, DT, DV))
dprop("C04", "Referenda end on time with the outcome their threshold dictates, for good",
 "A referendum runs exactly its voting period, is decided in the block it ends, and is approved exactly when its turnout-biased threshold (super-majority approve/against, or simple majority) holds for the final tally and the electorate. Once decided its result never changes, no vote can be cast on it, and it is never decided twice or skipped. Referenda in progress are not lost or ended early except by an authorised cancellation.",
 "all final tallies, electorates, thresholds, numbers of concurrent referenda and end blocks",
 [("bake_referendum, begin_block, maturing_referenda_at", D), ("VoteThreshold::approved, compare_rationals", "pallets/democracy/src/vote_threshold.rs")], files=(D, "pallets/democracy/src/vote_threshold.rs"))
dprop("C05", "Approved proposals are enacted once, as root, at the promised block",
 "A proposal whose referendum passed is dispatched exactly once, with root origin, at its end block plus its enactment delay (at least one block later). A proposal that was rejected, cancelled, vetoed before it was tabled, or never put to a referendum is never dispatched. The dispatched call is exactly the one that was proposed.",
 "all interleavings of proposals, referenda, cancellations and preimage (un)notings with block passage",
 [("bake_referendum schedules via the scheduler as Root", D)])
dprop("C06", "Proposal deposits are held, returned or slashed exactly once",
 "Each proposer and each seconder has exactly their recorded deposits on hold while the proposal is queued. Tabling a proposal returns every deposit in full; cancelling or blacklisting it slashes every deposit in full to the configured destination; no other operation changes them and no funds are created or destroyed. A proposal below the minimum deposit, or one its proposer cannot fund, is not accepted.",
 "all sequences of propose/second/table/cancel/blacklist/clear, repeated seconds by the same account, any balances",
 [("propose, second, launch_public, cancel_proposal, blacklist", D)], state=[("DepositOf", "depositors and amount per proposal", D)])
dprop("C07", "Referenda launch every launch period, alternating sources fairly",
 "Exactly at multiples of the launch period, and only then, one queued item is put to a referendum if anything is queued: the public proposal with the highest total backing, or the external proposal. When both kinds are waiting they alternate; when only one kind is waiting that one is tabled. The tabled item leaves its queue and no other item is affected.",
 "all queue contents (including equal backing and empty queues) and launch histories",
 [("launch_next, launch_public, launch_external, backing_for", D)])
dprop("C08", "External proposals obey fast-track, veto, blacklist and cancel rules",
 "Only one external proposal waits at a time; fast-tracking applies only to the matching waiting majority-style proposal, with a voting period no shorter than the minimum unless the instant origin allows it (and never zero), and keeps the requested delay. A veto removes the waiting proposal and bars it for the cool-off period, and the same member can veto the same proposal only once; blacklisting bars it permanently, removes it from every queue and cancels its referendum. A referendum can be emergency-cancelled at most once per proposal, and a barred proposal cannot be proposed externally (nor publicly, when permanently barred) until the bar ends.",
 "all sequences of external proposals, fast-tracks, vetoes by several members, blacklistings and cancellations, interleaved with block passage",
 [("external_propose*, fast_track, veto_external, blacklist, emergency_cancel, cancel_referendum", D)], state=[("Blacklist/Cancellations/NextExternal", "bars and the waiting external proposal", D)])
dprop("C09", "Governance calls need the right authority and fail without effect",
 "Each governance call succeeds only for its configured origin and only when its stated preconditions hold; each refused call leaves all state and balances unchanged. Limits on votes per account, queued proposals, deposits per proposal and blacklisted entries are never exceeded. No call or block step panics.",
 "all calls by all origins in all reachable states, including boundary values at every limit",
 [("origin checks and ensure! guards in every dispatchable", D)])
dprop("C10", "Proposal metadata belongs to its owner and follows the item",
 "Metadata of a public proposal can be set or cleared only by its proposer, of the external proposal only by the external origin, of a referendum only by root (or, once over, cleared by anyone), and only with a hash whose preimage is known. When an item becomes a referendum its metadata moves with it; when the item is cancelled, vetoed or blacklisted the metadata is removed. Metadata never attaches to a different item.",
 "all metadata operations interleaved with proposing, tabling, vetoing, cancelling and deciding",
 [("set_metadata, transfer_metadata, clear_metadata", D)])
dprop("C11", "Governance events report every change once, truthfully and in order",
 "Every accepted governance call and every block step deposits exactly the events that describe the changes it made, with the right indices, amounts and parties, in the order they happened. Refused calls deposit none. The event record alone therefore reproduces proposals, referenda, votes, delegations and outcomes.",
 "all operation sequences", [("deposit_event in each dispatchable", D)])
