//! C49–C55: what the polimec runtime wires its pallets to (see build.rs for how it gets here).
mod authority;
mod collective;
mod env;
mod fees;
mod powers;
mod prices;
mod rt;
mod trust;
mod txenv;
mod txs;
mod wiring;
mod work;
#[allow(dead_code)]
mod xenv;
include!(concat!(env!("OUT_DIR"), "/poly.rs"));

use mon::*;
use parachains_common::AccountId;
use sp_runtime::traits::AccountIdConversion;

pub fn acc(n: u8) -> AccountId {
	AccountId::new([n; 32])
}
/// Pays collators; fees and dust go here.
pub fn operations() -> AccountId {
	frame_support::PalletId(*b"plmc/stk").into_account_truncating()
}
/// The treasury governance spends from; slashes and lost bonds go here.
pub fn growth() -> AccountId {
	frame_support::PalletId(*b"plmc/tsy").into_account_truncating()
}
pub const ASSETS: [(u32, u8); 3] = [(10, 10), (1984, 6), (1337, 6)];

fn random_history(seed: u64, o: &mut Obs) {
	match o.prop() {
		"C49" => fees::history(seed, o),
		"C50" => authority::history(seed, o),
		"C52" => powers::history(seed, o),
		"C54" => txs::history(seed, o),
		"C55" => prices::history(seed, o),
		"C53" => wiring::history(seed, o),
		_ => trust::history(seed, o),
	}
}

fn main() {
	main_with(
		&[
			PropInfo {
				id: "C49",
				rule: "every balance and the supply compared before and after each step of a transaction's life, of dust and of slashes; weights and prices against exact arithmetic",
				required: &[
					"fee:withdrawn-from-payer-alone", "fee:refused-leaves-no-trace", "fee:settled", "tip:to-author", "asset-fee:withdrawn", "asset-fee:refused",
					"asset-fee:settled", "asset-fee:one-unit-at-least", "weight-priced", "dust-to-operations", "slash-to-growth", "electorate", "conserved",
				],
				quick: 4_000,
				thorough: 60_000,
				assumptions: &[
					"pallet-transaction-payment and pallet-asset-tx-payment are stand-ins written after polkadot-sdk 1.14; the signed extension's order of calls is the harness's",
					"asset balances are kept by the mini-assets stand-in",
				],
			},
			PropInfo {
				id: "C50",
				rule: "every call of every pallet through the runtime's own filters, proxy types and privilege order against tables of the published rules; chains of proxies",
				required: &["base-filter", "proxy-type", "proxy-superset", "delegation-chain", "privilege"],
				quick: 4_000,
				thorough: 100_000,
				assumptions: &[
					"calls of pallets absent from this sandbox are stand-ins with the call names of polkadot-sdk 1.14; pallet-proxy's rule for nested proxies is the harness's",
				],
			},
			PropInfo {
				id: "C51",
				rule: "random messages from random places through the runtime's XCM configuration: admission against an independent reading of the rules, then every balance and supply compared",
				required: &[
					"admitted", "turned-away", "reserve-deposit", "untrusted-reserve", "teleport-refused", "transact-refused", "own-account-debited", "execution-paid",
					"asset-identified", "local-filters", "unpaid-from-trusted", "known-response", "subscription", "hrmp-notice",
				],
				quick: 3_000,
				thorough: 40_000,
				assumptions: &[
					"xcm-builder, xcm-executor and cumulus-primitives-utility are stand-ins written after polkadot-sdk 1.14; instructions beyond those that move assets, set origins or buy execution end a message",
				],
			},
			PropInfo {
				id: "C52",
				rule: "every privileged origin of the runtime's configuration asked about motions of all sizes, members, accounts, Root, nobody and other chains, against the table of powers",
				required: &["power-granted", "power-denied", "share-reached", "share-missed", "member-alone", "single-admin"],
				quick: 4_000,
				thorough: 100_000,
				assumptions: &["the origins of pallet-collective and the XCM origins are stand-ins written after polkadot-sdk 1.14"],
			},
			PropInfo {
				id: "C53",
				rule: "every hook by which one pallet of the runtime tells or pays another, called through the runtime's wiring; both collectives, the oracle, queues, ledgers, sessions and locks compared before and after",
				required: &[
					"council-seated", "council-told", "prime-told", "oracle-told", "providers-asked", "author-credited", "session-made", "session-ends", "session-goes-on",
					"slash-told", "slash-unlocks", "dispensed-vests", "relay-message", "sibling-message", "queue-change-told", "channel-held", "channel-open", "time-told",
					"native-ledger", "contribution-ledger", "foreign-ledger", "spend-paid", "deposit-lost", "treasury-lends", "treasury-gets-back",
				],
				quick: 3_000,
				thorough: 60_000,
				assumptions: &[
					"pallet-collective, orml-oracle, pallet-membership, pallet-session, aura, the message queues and pallet-treasury are stand-ins that keep what they are told; parachain-staking, vesting, balances and proxy bonds are the real pallets",
				],
			},
			PropInfo {
				id: "C54",
				rule: "transactions built byte for byte as wallets, forgers and the price worker build them, applied as frame-executive does; whether each runs, who pays what, nonces and the room it takes, against an independent judge",
				required: &[
					"ran", "ran-paid-in-asset", "first-ran", "worker-sent", "worker-ran", "claimed-free", "failed-claim-free", "failed-claim-paid", "failed-paid", "refunded", "tipped",
					"transferred", "emptied", "heavy-ran", "other-chain-refused", "other-version-refused", "fork-refused", "outlived-refused", "worker-outlived-refused",
					"nonce-refused", "waits-its-turn", "nobody-refused", "unpaid-refused", "heavy-refused", "unsigned-refused", "forged-refused",
				],
				quick: 4_000,
				thorough: 60_000,
				assumptions: &[
					"frame-executive, pallet-asset-tx-payment, pallet-skip-feeless-payment and frame-metadata-hash-extension are stand-ins written after polkadot-sdk 1.14; the checks of frame-system and the extrinsic types of sp-runtime are real",
				],
			},
			PropInfo {
				id: "C55",
				rule: "feeds of members, former members, strangers and Root at chosen ages, and whole fetch windows, through the runtime's oracle configuration; every price funding and proxy bonds are given against the middle of the feeds that count",
				required: &[
					"fed", "root-fed", "four-at-once", "stranger-refused", "twice-refused", "seated", "asked", "moved", "just-stale", "just-fresh", "stale", "two-too-few",
					"three-enough", "left", "window-combined", "interval-apart",
				],
				quick: 60_000,
				thorough: 3_000_000,
				assumptions: &["orml-oracle and pallet-membership are stand-ins written after orml 0.11 and polkadot-sdk 1.14; a block takes 12 seconds"],
			},
		],
		&[],
		random_history,
	)
}
