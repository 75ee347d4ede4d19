VS = "pallets/on-slash-vesting/src/lib.rs"
VH = ("harness", "mon-vesting")
VN = "Holds on every randomized history explored (5 users, up to 6 schedules each); trusts the registry's balances, vesting and frame crates."
VW = "The two unit tests slash two fixed accounts once; the guarantee quantifies over every mix of schedules (ended, running, not started, nearly exhausted), slash amounts and times, and repeated slashes."
prop("C21", "A slash lowers the vesting lock by exactly the slashed amount",
 "When an account is slashed, what remains unvested in each of its vesting schedules falls by exactly the slashed amount (to nothing at least), fully consumed schedules disappear, and the vesting lock on its balance becomes exactly the sum of what remains. Balances and every other account are untouched, every configured listener is told once, and it never fails, whatever state the schedules are in.",
 ["histories", "inputs"], "all schedule sets (ended and unclaimed, running, future, tiny), slash amounts and times", VW, [VS], [("OnSlash::on_slash for the vesting pallet, tuple implementation", VS)],
 [("Vesting schedules and the vesting lock", "what is still unvested", VS)], ["vesting schedules, locks and balances around every slash"], VH, VN)
prop("C22", "Slashing never lets vesting funds out early nor locks them forever",
 "After a slash each surviving schedule vests no earlier than it would have without the slash (less the slashed amount), never before its original start block, and evenly over the remaining period. All remaining funds still become free in the end, at most rounding later than originally.",
 ["histories", "inputs"], "all schedule sets, slash times before, during and after vesting, repeated slashes, any later block", VW, [VS], [("OnSlash::on_slash recomputes per-block rate and start", VS)],
 [("Vesting schedules", "release plan", VS)], ["vesting lock at every later block"], VH, VN)
