PRT = ("harness", "mon-runtime")
RL = "runtimes/polimec/src/lib.rs"
RX = "runtimes/polimec/src/xcm_config.rs"
RF = "runtimes/shared-configuration/src/fee.rs"
PRN = "Holds on every randomized history explored. The runtime crate cannot be built here: the items its pallets are configured with are taken out of its source unchanged and compiled; transaction payment, XCM builder, executor and the calls of absent pallets are stand-ins written after polkadot-sdk 1.14."
prop("C49", "Fees, tips, dust and slashes reach the account they are meant for, exactly",
 "A fee, in PLMC or in DOT, USDT or USDC at the oracle's prices, is taken from the payer alone, leaves it its minimum balance, and costs at least one unit unless it is free; otherwise the transaction is refused without a trace. Once the call is done the payer has back exactly what was not used, the operations treasury has the fee and the block's author the tip, whatever the call or the prices did meanwhile; nothing appears or vanishes except what nobody can hold. A weight costs the dearer of its time and its proof, dust goes to the operations treasury, slashes and lost bonds to the growth treasury, and the electorate is all PLMC outside the two.",
 ["inputs", "histories"], "all payers, fees, tips, fee assets, prices, authors and calls that move the balances or prices between the two halves of a payment",
 "No unit test covers the fee adapters; conservation and exact refunds must hold for every amount, price and interleaved call.",
 [RF, RL], [("TxFeeFungiblesAdapter, DealWithFees, WeightToFee", RF), ("PLMCToFundingAssetBalance, ConvertMultilocationToAssetId, DustRemovalAdapter, ToTreasury, Electorate", RL)],
 [("Balances, ForeignAssets", "who holds what", RL)], ["every balance and the issuances around every step"], PRT, PRN)
prop("C50", "Filters and proxies never let anyone do more than was granted",
 "The base filter lets every call through except the funding calls that are not published. A proxy lets through exactly the calls of its type: never transfers unless it may do anything, governance, staking and identity judgements each only their own. A proxy can create or remove only proxies that may do nothing it may not do itself, so no chain of proxies exceeds what the owner granted; and Root outranks every other origin, while every other origin only equals itself.",
 ["inputs", "histories", "configurations"], "every call of every pallet of the runtime, every proxy type, all chains of grants, and all pairs of origins",
 "No unit test looks at the filters; a call added to a pallet or a type must fall on the right side for every combination.",
 [RL, "runtimes/shared-configuration/src/proxy.rs"], [("BaseCallFilter", RL), ("InstanceFilter for Type: filter, is_superset", RL), ("EqualOrGreatestRootCmp", RL)],
 [("construct_runtime", "the pallets and their calls", RL)], ["each filter's answer to every call"], PRT, PRN)
prop("C51", "Other chains can bring in or move only what is theirs",
 "Of assets announced from outside only DOT, USDT and USDC, and only those announced by Asset Hub itself, are minted; nothing is teleported, no message dispatches a call or speaks for somebody else, and only accounts of the sender are debited. A message runs only if it pays for all of its execution, answers a question that was asked, is a lone channel notice of the relay chain, subscribes to versions from the relay chain or a parachain, or comes unpaid from Asset Hub, the relay chain or its executive; any other is turned away without a trace. Paid execution costs what its weight is worth in the asset it is paid with, to the growth treasury.",
 ["inputs", "histories"], "all messages from all locations, including disguised origins, look-alike assets, nested and mixed instructions, and expected and unexpected answers",
 "The integration tests send a handful of well-formed messages; who is trusted for what must hold for every location and instruction order.",
 [RX, RL], [("Barrier, AllowHrmpNotifications", RX), ("AssetHubAssetsAsReserve, SupportedAssets", RX), ("AssetTransactors, LocationToAccountId", RX), ("XcmConfig::Trader", RX)],
 [("Balances, ForeignAssets", "who holds what", RL)], ["the outcome of each message and every balance and issuance after it"], PRT, PRN)
prop("C52", "Each power of governance answers only to the body and share it belongs to",
 "A council motion needs half of the council to set the next external referendum or (like Root) reject a treasury proposal, three fifths to make the referendum majority-carries, two thirds to cancel one, and all of it to make it default-carries or (like Root) approve spending; three fifths of the technical committee fast-track, all of it do so without a minimum period or (like Root) cancel a proposal, and any one of its members vetoes. Everything else that is privileged - seating either body by decree, the oracle's members, blacklisting, monetary settings, scheduling, preimages, registrars, message queues, forcing or creating assets - is Root's alone, except the dispensed amount, which its one admin sets, and direct treasury spends and usernames, which nobody grants. So no account can create the class of a contribution token before its project's settlement does, and no other body, account or chain ever gains a power, nor do more ayes lose one.",
 ["inputs", "configurations"], "all origins: motions of every size in either body, single members, accounts (with those of the treasuries and admins), Root, none, and other chains",
 "No unit test runs the runtime's configuration; who passes must be right for every origin and every share.",
 [RL, RX, "runtimes/shared-configuration/src/governance.rs"], [("pallet_democracy::Config, pallet_treasury::Config, pallet_assets::Config", RL), ("pallet_xcm::Config", RX)],
 [("CouncilCollective, TechnicalCollective", "the two bodies", RL)], ["the answer of every privileged origin"], PRT, PRN)
prop("C53", "Each part of the runtime tells and pays those that rely on it, and no others",
 "A change of the elected members or their prime reaches the council, a change of the oracle's members reaches the oracle and its workers: at once, exactly, and nowhere else. Parachain staking credits the author of every block, its rounds end the collators' sessions and its selected candidates form them; a slash in funding lowers the vesting lock of the slashed, the dispenser's locks are vesting schedules, each currency of funding and of proxy bonds is the ledger of its name, and bonds lent, deposits lost and approved spends leave and reach the treasury governance spends from. A message waits under the chain it came from, a channel that is held back is held back alone, and block time reaches the slot check.",
 ["inputs", "histories"], "all sequences of member changes, primes, authors, sessions, slashes, locks, messages, mints, spends and lent bonds, with rounds passing in between",
 "No unit test runs the runtime's configuration, and every pallet's own tests replace its neighbours by mocks: whether the pallets are joined is not tested anywhere.",
 [RL, "pallets/parachain-staking/src/lib.rs"], [("pallet_elections_phragmen::Config, pallet_membership::Config, pallet_session::Config, pallet_funding::Config", RL), ("cumulus_pallet_parachain_system::Config, pallet_message_queue::Config", RL), ("SessionManager, EventHandler for Pallet", "pallets/parachain-staking/src/lib.rs")],
 [("Council, Oracle, ParachainStaking, Vesting, MessageQueue", "what they were told", RL)], ["the state of every pallet around every hook"], PRT, PRN)
prop("C54", "A transaction runs once, on its chain, in its lifetime, and paid for",
 "A signed transaction is included only if its sender signed that very call, tip, fee asset, nonce and lifetime for this chain and this version of the runtime, it is the sender's next, it is within its lifetime and it fits into the block; so as long as the account lives each runs at most once, and the pool orders a sender's transactions by nonce. Whatever the call does, fee and tip come from the sender alone, in PLMC or in the named asset and never in both, and only what the call reports as unused or free is given back; the one exception is a claim on the dispenser with valid credentials of an identity that has had nothing yet, which is free and open to accounts that hold nothing. What the price worker makes is accepted by the chain, carries the given call and nonce without tip, is paid in PLMC, and cannot be run long after.",
 ["inputs", "histories"], "all interleavings of transactions of honest, forging, replaying and penniless senders and of the price worker, with blocks that are nearly full and gaps longer than the chain remembers its blocks",
 "No test of the repository builds a signed transaction: the extensions, the worker's signing and the free claims are never run together.",
 [RL, "pallets/dispenser/src/extensions.rs", "pallets/dispenser/src/lib.rs", "runtimes/shared-configuration/src/weights/mod.rs"],
 [("SignedExtra, CreateSignedTransaction for Runtime", RL), ("CheckNonce", "pallets/dispenser/src/extensions.rs"), ("dispense (feeless_if)", "pallets/dispenser/src/lib.rs"), ("RuntimeBlockWeights, RuntimeBlockLength", "runtimes/shared-configuration/src/weights/mod.rs")],
 [("System::Account, Dispensed", "nonces, references and served identities", "pallets/dispenser/src/lib.rs")], ["whether each transaction runs, and every balance, nonce and the block's weight around it"], PRT, PRN)

prop("C55", "The price in use is the middle one of what enough members freshly fed",
 "Funding and proxy bonds take an asset at the middle one of the values that three or more of the oracle's members - Root counts as one - have fed for that very asset within the last minute; what too few have fed, what is older, what strangers send and what a member left behind never moves it, and it stays as it is until enough fresh feeds say otherwise. Each member can feed all four assets at once, and does so at most once in a block. What a worker finds for DOT, USDC, USDT or PLMC becomes the price of the asset with that ledger id and no other; what the members feed within one fetch window counts together, and what they feed in the next interval counts apart from it.",
 ["inputs", "histories", "schedules", "configurations"], "all sequences of feeds of any assets, values and ages by members, former members, strangers and Root, with changing members, and all ways to spread the members over a fetch window",
 "No unit test runs the runtime's oracle: pallets use constant price mocks, and the worker's own tests a converter of their own.",
 [RL, "runtimes/shared-configuration/src/currency.rs", "runtimes/shared-configuration/src/assets.rs"],
 [("orml_oracle::Config, pallet_oracle_ocw::Config, pallet_membership::Config", RL), ("AssetPriceConverter", "runtimes/shared-configuration/src/currency.rs"), ("OraclePriceProvider", "runtimes/shared-configuration/src/assets.rs")],
 [("Oracle::Values, Oracle::RawValues", "the price of each asset, and who fed what and when", RL)], ["every price funding and proxy bonds are given, after every feed, block and member change"], PRT, PRN)
