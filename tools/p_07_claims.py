PC = ("harness", "mon-claims")
PX = "pallets/polimec-receiver/src/lib.rs"
PD = "pallets/dispenser/src/lib.rs"
PE = "pallets/dispenser/src/extensions.rs"
PCRED = "polimec-common/common/src/credentials/mod.rs"
PCN = "Holds on every randomized history explored; trusts the registry's frame, balances and vesting crates. The pallets' own source is compiled; XCM, timestamp and JWT crates are stand-ins of the parts they use."
prop("C36", "A receiving chain pays out each migrated participation exactly once",
 "Only Polimec's own chain can make the receiver execute migrations. Each migrated participation moves exactly its tokens from the receiver's account to the participant, with exactly the vesting schedule it came with, and is recorded; sent again it is skipped without effect. A batch is executed as a whole or, if any part of it cannot be, changes nothing; no tokens are created, and no other account changes.",
 ["histories", "inputs"], "all batches of migrations, fresh, repeated, reordered, unpayable or unschedulable, from any origin, interleaved with transfers, vesting and time",
 "No test covers more than single prepared messages; exactly-once must hold for every order of partly repeated batches.",
 [PX, "polimec-common/common/src/migration_types.rs"], [("execute_migrations", PX)],
 [("ExecutedMigrations", "participations already paid", PX)], ["dispatch result, balances, locks, schedules and records after every step"], PC, PCN)
prop("C37", "The dispenser pays each identity once, to whoever proves it, as set",
 "A dispense succeeds exactly when the caller shows a valid credential of an identity that has not been paid yet, for the right policy, and the dispenser can pay the current amount and the account can take the schedule. It pays exactly the amount, free up to the configured free part and the rest vesting over the configured period, without a fee. Only the admin changes the amount, within its limits; failed attempts change nothing, and an identity is paid once whatever accounts it uses.",
 ["histories", "inputs"], "all sequences of dispenses, transfers, amount changes and time by identities with several accounts and good, foreign, expired or forged credentials",
 "The tests dispense twice to one account; the once-only and amount rules quantify over identities, accounts and histories.",
 [PD, PCRED], [("dispense, set_dispense_amount", PD), ("EnsureInvestor::try_origin", PCRED)],
 [("Dispensed, DispenseAmount", "who had its share, and how much it is", PD)], ["dispatch result, fees, balances, locks, schedules and records after every step"], PC, PCN)
prop("C43", "Transactions of an account run once each, in the order of their nonces",
 "A transaction is admitted for inclusion only with the account's next nonce, and raises it by one, even if the call then fails; an older one is stale, a newer one is queued behind exactly the nonces before it. An account that does not exist can send nothing except a dispense. Queueing tags of different accounts or nonces never coincide.",
 ["histories", "inputs"], "all signed transactions with any nonce by existing and new accounts, in any order, valid and failing",
 "The extension has no test of its own here; replay protection must hold for every history, including that of accounts without a balance.",
 [PE], [("CheckNonce::validate, pre_dispatch", PE)],
 [("System::Account", "next nonce", PE)], ["validity, tags and nonces of every transaction"], PC, PCN)
