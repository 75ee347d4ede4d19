LR = "pallets/linear-release/src/impls.rs"
LRL = "pallets/linear-release/src/lib.rs"
LRT = "pallets/linear-release/src/types.rs"
RH = ("harness", "mon-release")
RN = "Holds on every randomized history explored (4 users, 2 hold reasons, up to 4 schedules each); trusts the registry's balances and frame crates. The pallet's own source is compiled; the XCM crates it only names are stand-ins."
prop("C23", "Scheduled funds unlock linearly, never early, and entirely in the end",
 "Funds held for a release schedule stay on hold until the schedule frees them: its rate for every block after its start and nothing before it. Claiming (for oneself or another, one reason or all) releases exactly what has vested so far, leaves the rest held, and touches no other account, hold reason or bond. Once a schedule is over everything it withheld can be claimed, also when it was already over when it was added, and reported amounts agree with this.",
 ["histories", "inputs"], "all sequences of schedules added, claimed, merged and removed; past, future, cliff, one-per-block and overflowing schedules; any claim time",
 "The tests claim a few fixed schedules at fixed blocks; the guarantee quantifies over every mix of schedules per account and reason, every claim time and every interleaving with merges and new schedules.",
 [LR, LRL, LRT], [("VestingInfo::locked_at, report_schedule_updates, write_release, add_release_schedule", LR)],
 [("Vesting", "schedules per account and hold reason", LRL)], ["held and free balances, schedules, vest results"], RH, RN)
prop("C24", "Adding, merging, moving and removing schedules conserves the funds",
 "A vested transfer moves exactly the scheduled amount from the source to the target's hold and schedules all of it; only Root may force one on another source. Merging two schedules keeps what they withhold, unlocks nothing earlier than they did and affects no other schedule. Removing schedules, one or all, in any state, frees exactly their part; invalid schedules, amounts below the minimum and schedules beyond the limit are refused, and whatever is refused changes nothing.",
 ["histories", "inputs"], "all sequences of vested and forced transfers, additions, merges and removals of up to the maximum number of schedules, finished ones included",
 "The tests merge and transfer a handful of fixed schedules; finished, future and tiny schedules combine with every order of operations.",
 [LR, LRL], [("do_vested_transfer, merge_vesting_info, exec_action, remove_*_schedule", LR)],
 [("Vesting", "schedules per account and hold reason", LRL)], ["balances and schedules around each operation"], RH, RN)
PB = "pallets/proxy-bonding/src/lib.rs"
PF = "pallets/proxy-bonding/src/functions.rs"
PH = ("harness", "mon-proxy")
PN = "Holds on every randomized history explored (3 derivation paths, 4 users, 3 fee assets); trusts the registry's balances and frame crates and a stand-in for pallet-assets."
prop("C25", "Treasury bonds stay held until released, then return exactly once",
 "Bonding on behalf of a user holds exactly the requested amount of the treasury's tokens on the sub-account of that path (plus an existential deposit when the sub-account lacks one), or changes nothing. The bonds cannot leave before the outcome is set, nor before the configured block when it is a lock; afterwards anyone can send them, all of them and only those of that path and reason, back to the treasury, once. When nothing is bonded any more the sub-account's deposit returns too.",
 ["histories", "inputs"], "all sequences of bonds, outcomes, transfers and refunds over several paths and reasons; poor treasuries; lock blocks in past and future",
 "The two tests follow one bond through one outcome; conservation must hold for every interleaving of bonds, paths, reasons and outcomes.",
 [PB, PF], [("bond_on_behalf_of, set_release_type", PF), ("transfer_bonds_back_to_treasury", PB)],
 [("Releases", "outcome per path and hold reason", PB)], ["native balances and holds of every account"], PH, PN)
prop("C26", "A proxy-bond fee is charged once and goes to recipient or payer",
 "The fee is the configured share of the bond's value in the chosen asset; the user pays it into the sub-account or the bond does not happen, also when a price is unknown. It waits there: the collected fees of a path can be sent to the fee recipient only when the outcome is a lock, all of them and only those of that path and asset. On the refund outcome each payer gets back what it paid, and nobody else's fee is touched.",
 ["histories", "inputs"], "all bonds, prices, fee assets and decimals, interleavings of several payers and paths, price moves between payment and refund",
 "The tests use one user, one asset and one price; rounding, several payers sharing a pool and price moves need many histories.",
 [PB, PF], [("calculate_fee, refund_fee", PF), ("transfer_fees_to_recipient", PB)],
 [("fee-asset balance of the sub-account", "collected fees", PF)], ["fee-asset balances of every account"], PH, PN)
