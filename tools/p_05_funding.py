FB = "pallets/funding/src/"
def _f(n):
    return FB + "functions/" + n
F1, F2, F3, F4 = _f("1_application.rs"), _f("2_evaluation.rs"), _f("3_auction.rs"), _f("4_contribution.rs")
F5, F6, F7, FM = _f("5_funding_end.rs"), _f("6_settlement.rs"), _f("7_ct_migration.rs"), _f("misc.rs")
FL, FT = FB + "lib.rs", FB + "types.rs"
FH = ("harness", "mon-funding")
FN_ = "Holds on every randomized campaign explored (8 accounts, 6 identities, 1-3 and more projects at once, three funding assets); trusts the registry's balances and frame crates. The pallet's own source is compiled for the on-chain build; pallet-assets, XCM and JWT crates are stand-ins."
FS = "all sequences of calls on several concurrent projects by issuers, evaluators, bidders, contributors and strangers, at any time relative to the rounds' ends; sizes, prices, decimals, multipliers, assets at and around their limits"
prop("C27", "A project moves only forward, by the rules of its life cycle",
 "A project is created only from acceptable metadata, by an institution with no other open project; only its issuer edits or removes it and only before evaluation starts; it passes evaluation, auction, community round, outcome, settlement and migration in that order. A round starts only when the previous one has ended, ends only after its duration (early only when sold out) and leads where its outcome says; refused steps change nothing. A removed, failed or finished project no longer blocks its issuer; an open one does.",
 ["histories", "inputs"], FS,
 "The tests step single projects through prepared paths with an instantiator; the order of rounds must hold for every interleaving of calls, callers and times over several projects.",
 [F1, F2, F3, F5, F6, FL, FT], [("do_create_project, do_edit_project, do_remove_project", F1), ("project_validation, transition_project", F2), ("do_end_funding", F5)],
 [("ProjectsDetails", "status, round, issuer", FL), ("DidWithActiveProjects", "identity to open project", FL)], ["project details, metadata and dispatch results after every call"], FH, FN_)
prop("C28", "An evaluation bonds what it claims and decides the round by threshold",
 "Evaluating bonds exactly the PLMC the given USD amount is worth, on hold for evaluation, and records early and late shares by how much of the first 10% of the target was still open. It is refused outside the round, to the issuer, below the minimum, over the per-user limit and to people without the issuer's policy. The round passes exactly when a tenth of the target is bonded; an evaluator may turn its bond, less the slashable deposit, into a participation bond in the same project, and into nothing else.",
 ["histories", "inputs"], FS,
 "The tests use prepared evaluations at fixed prices; accounting must hold for every mix of amounts around the early and success thresholds, limits and reuse of bonds.",
 [F2, FM, FT], [("do_evaluate", F2), ("try_plmc_participation_lock", FM)],
 [("Evaluations", "evaluations of a project", FL), ("EvaluationRoundInfo", "totals", FT)], ["holds, evaluations and totals after every call"], FH, FN_)
prop("C29", "The auction sells its allocation to the best bids at bucket prices",
 "A bid buys from the current price bucket, splitting over buckets whose price rises by a tenth of the minimum price each; it pays the bucket's price, takes the asset and bond its ticket and multiplier call for, and respects ticket minimum, per-person maximum, round, investor type and limits. When the auction ends, bids win in order of price, then age, until the allocation is used up; the last winner may be cut, later ones are rejected. The weighted average price is the winners' and never below the minimum price.",
 ["histories", "inputs"], FS,
 "The tests check a few auctions with known outcomes; winners, cuts and prices must be right for every order, size and split of bids.",
 [F3, FM, FT], [("do_bid, do_perform_bid, do_end_auction", F3), ("decide_winning_bids", FM), ("Bucket::update, calculate_weighted_average_price", FT)],
 [("Bids", "bids of a project", FL), ("Buckets", "current price bucket", FL)], ["bids, bucket, price, escrow and bonds after every call"], FH, FN_)
prop("C30", "Contributions sell what is left, once, at the weighted price",
 "A contribution buys at the weighted average price, at most what is left (it is cut to that); tokens left and funds raised always add up over winning bids and contributions, so no token is sold twice. Ticket minimum, per-person maximum, per-type multiplier limits, participation limits and accepted assets are enforced, the issuer cannot take part, and people who won in the auction must wait for the remainder period. Refused contributions change nothing.",
 ["histories", "inputs"], FS,
 "The tests contribute fixed amounts; sold-out boundaries, cuts, several accounts of one person and price rounding need many histories.",
 [F4, FM], [("do_contribute, do_perform_contribution", F4)],
 [("Contributions", "contributions of a project", FL)], ["remaining tokens, funds raised, escrow, bonds after every call"], FH, FN_)
prop("C31", "Outcome, fees, rewards and slashes follow from the funds raised",
 "A project succeeds exactly when it raised at least a third of its target by the end of the round, or sold out. On success the issuer's token fee follows the brackets (10% up to 1M, 8% up to 5M, 6% above): half for liquidity, a fifth for long-term holders, three tenths for evaluators, split by their share with a fifth of it for early ones. Evaluators are slashed a fifth of their bond exactly when the project failed, once, into the treasury, and the slash is reported; otherwise they get everything back.",
 ["histories", "inputs"], FS,
 "The tests hit a handful of funding ratios; thresholds, brackets and shares must be right at every ratio, with any mix of evaluators.",
 [F5, F6, FM, FL], [("do_end_funding", F5), ("calculate_evaluator_reward", F6), ("compute_total_fee_from_brackets, generate_evaluator_rewards_info", FM)],
 [("RewardInfo", "reward pots", FT)], ["minted fee tokens, rewards, slashes per evaluator"], FH, FN_)
prop("C32", "Every locked token is covered: escrow, bonds and fees always add up",
 "At every moment a project's escrow holds exactly the funding assets of its unsettled bids and contributions, its fee account the fees of its open treasury-bonded ones, each user's evaluation and participation holds exactly what its open evaluations, participations and release schedules bond, and the treasury's bonds exactly those it lent. Nobody's balance changes except by its own participation, settlement or slash. The treasury's bonds return only after the outcome allows it.",
 ["histories", "inputs"], FS,
 "Conservation over several projects, assets, participation modes and partial settlements cannot be sampled by unit tests that check one balance.",
 [F3, F4, F6, FM, PB], [("bond_plmc_with_mode, try_funding_asset_hold, try_plmc_participation_lock", FM), ("release_participation_bond_for, release_funding_asset", F6)],
 [("balances and holds", "of every account", FL)], ["every native and asset balance and hold after every call"], FH, FN_)
prop("C33", "Everyone settles exactly once, for exactly what is due",
 "Once settlement starts, anyone can settle each evaluation, bid and contribution, once each: on success the participant gets its tokens, the issuer's destination gets what they cost at the final price, the rest and its bond are refunded, and the remaining bond unlocks linearly over the multiplier's vesting period from the funding end; on failure everything is refunded, with the fee. Rejected bids are refunded as early as the auction's end. Settlement ends exactly when nothing is left, and always can.",
 ["histories", "inputs"], FS,
 "The tests settle known campaigns; that every campaign can be completely settled, in any order by anyone, quantifies over histories.",
 [F6, FM], [("do_start_settlement, do_settle_evaluation, do_settle_bid, do_settle_contribution, do_mark_project_as_settled", F6), ("calculate_vesting_info", FM)],
 [("Evaluations, Bids, Contributions", "what is left to settle", FL)], ["payouts, minted tokens, schedules per settlement"], FH, FN_)
prop("C34", "Each participant's tokens migrate exactly once, in full",
 "Settled participations are recorded per participant with amount and vesting time; off-chain, only the issuer confirms each participant, once. On a parachain, nothing is sent before the channel is open both ways and both readiness checks passed, as answered by that very chain to that very query; then each participant is sent and confirmed by the chain's answer, a failure can be retried, a confirmed one cannot. The count of unmigrated participants is always right and the migration ends exactly when it reaches zero.",
 ["histories", "schedules", "inputs"], FS + "; channel notices, query answers and retries in any order, from any chain and with any content",
 "The tests follow the happy path of both migrations; forged, repeated, reordered and failing responses are what the guarantee is about.",
 [F7, FM, FL], [("do_handle_channel_*, do_pallet_migration_readiness_response, do_send_pallet_migration_for, do_confirm_pallet_migrations", F7), ("change_migration_status", FM)],
 [("UserMigrations, UnmigratedCounter, ActiveMigrationQueue", "state of each participant's migration", FL)], ["migration storage, sent XCMs, query answers"], FH, FN_)
prop("C35", "Only a valid credential of the very caller opens a gated call",
 "Calls that need a credential (create, edit, remove, start evaluation, end-user participations) act only with an unexpired token signed by the configured verifier whose subject is the caller, with the investor type the call demands and, for participations, the project's policy document. Forged, stolen, expired, unlimited or foreign tokens are refused and change nothing; limits per person follow the credential's identity over all its accounts.",
 ["inputs", "histories"], "all combinations of call, caller, signature, subject, expiry, investor type, policy and identity",
 "The tests refuse one bad token per call; the guarantee is for every gated call in every state and for one person with several accounts.",
 ["polimec-common/common/src/credentials/mod.rs", FL, F2, F3, F4], [("EnsureInvestor::try_origin, verify_token", "polimec-common/common/src/credentials/mod.rs"), ("call gates", FL)],
 [("AuctionBoughtUSD, ContributionBoughtUSD", "bought per identity", FL)], ["dispatch results and storage for good and bad tokens"], FH, FN_)
FRA = FB + "runtime_api.rs"
prop("C47", "The funding queries answer what the books say",
 "The runtime API's answers agree with the books in every state and never panic: leaderboards list the largest evaluations, bids (by tokens won), contributions and projects, tokens and participations of a person are complete, the share of the target is exact. The tokens an amount is said to buy are those it would buy, over buckets or at the average price, with or without the fee of a treasury bond; the limits told to a user are the minimum ticket and what is left of its maximum and of the sale, and exist only in a round open to it. Schedules proposed for merging have started and end within the wanted distance, and one is proposed whenever there is one.",
 ["histories", "inputs"], FS + "; queries with any arguments at any moment",
 "The tests ask after prepared campaigns; an answer must be right for every state the campaign can be in, every amount, asset, person and list length.",
 [FRA, FM, FT], [("top_*, contribution_tokens, funding_asset_to_ct_amount_*, get_next_vesting_schedule_merge_candidates, get_funding_asset_min_max_amounts", FRA), ("calculate_funding_asset_amount, Bucket", FT)],
 [("Evaluations, Bids, Contributions, ProjectsDetails, Buckets", "the books", FL)], ["answers of the API's functions after every call of a history"], FH, FN_)
prop("C48", "Funding announces what happened: no more, no less",
 "Every accepted call, block and chain message emits exactly the events that describe it: projects created, edited, removed, every change of phase, each evaluation, bid (one per bucket it spans) and contribution with the tokens, price, asset and bond actually taken, each settlement with what was actually given, each step and answer of a migration. Nothing is announced that did not happen, nor twice, and refused calls announce nothing.",
 ["histories", "inputs", "schedules"], FS,
 "The tests look for single events in prepared stories; that the announcements tell the whole story correctly (cut contributions, split bids, partially accepted bids, failed projects) quantifies over campaigns.",
 [FL, F1, F2, F3, F4, F6, F7, FM], [("enum Event", FL), ("do_* of every phase", F3), ("transition_project", FM)],
 [("frame_system::Events", "what is announced", FL)], ["all events of the pallet after every operation, against the difference of the books"], FH, FN_)
