PO = ("harness", "mon-oracle")
OL = "pallets/oracle-ocw/src/lib.rs"
OT = "pallets/oracle-ocw/src/types.rs"
OR = "pallets/oracle-ocw/src/traits.rs"
PON = "Holds on every randomized history explored; the pallet's own source is compiled and frame's offchain machinery is the registry's; JSON, fixed-point, bounded-list and oracle crates are stand-ins of the parts the worker uses, and the exchanges, the clock, the node's database and the pool are simulated."
prop("C44", "Price feeds come from members only, once per window, one worker at a time",
 "The price worker asks exchanges and submits a feed only when the node holds a member's key, and signs with a member's key and its account's next nonce. An asset is fetched only in the first blocks of each interval, and after a successful feed not again before the window has passed; assets without a price and refused feeds are retried; every exchange is asked once per run and asset, with a time limit. A worker does nothing while another one that started less than 30 s ago is running; a lock left by a crash is overcome after that time.",
 ["histories", "schedules", "crash_points", "inputs"], "all sequences of passed, skipped and undone blocks, keys, members, exchange failures, pool refusals, crashes at any request or at submission, and concurrent workers",
 "The test runs the worker over six blocks with every exchange answering; scheduling, locking and signing must hold for every failure, crash and overlap.",
 [OL, OR], [("offchain_worker, send_signed_transaction", OL), ("get_moving_average", OR)],
 [("oracle_ocw::last_send, oracle_ocw::lock", "persistent offchain state", OL)], ["requests, waits, transactions of every run"], PO, PON)
prop("C45", "A fed price is the volume-weighted average of the exchanges that answered",
 "Each fed price is the average of (high+low+close)/3 of the most recent candles of all exchanges that trade the asset, weighted by the volume each reports. An exchange counts with all its candles or not at all: one that fails, times out, answers with an error, with a malformed, truncated, too short or too long body or with no volume is left out, and never affects the price of another asset. A price is fed for exactly the assets for which at least one exchange counted.",
 ["inputs", "schedules"], "all answers, failures and delays of the six exchanges, and all mixtures of them",
 "The test uses one good answer per exchange; failure handling and the pairing of answers with assets must hold for every mixture.",
 [OL, OT, OR], [("parse_body, from_str, from_f64, vwp", OT), ("combine_prices", OL), ("get_moving_average", OR)],
 [("feed_values", "the submitted prices", OL)], ["requests, answers given and prices in every submitted transaction"], PO, PON)
