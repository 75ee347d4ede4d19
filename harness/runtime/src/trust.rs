//! C51: which messages of other chains run here and what they can move.
use crate::{
	acc, calls, growth, operations, poly,
	rt::{Balances, ForeignAssets, Runtime, System},
	xenv::{append, Outcome, Vm, EXPECTED},
	ASSETS,
};
use frame_support::{
	instances::{Instance1, Instance2},
	traits::{
		fungible::Inspect,
		fungibles::{Inspect as Inspects, Mutate as Mutates},
		Contains, ContainsPair,
	},
	weights::{Weight, WeightToFee as _},
};
use mon::*;
use parachains_common::AccountId;
use poly::xcm_config::{w_pallet_xcm as wx, w_xcm_executor as w};
use sp_runtime::BuildStorage;
use std::collections::BTreeMap;
use xcm::v4::{prelude::*, Instruction as I, Junction as J};

const P: &[&str] = &["C51"];
type Machine = Vm<w::Barrier, w::AssetTransactor, w::IsReserve, w::IsTeleporter, w::SafeCallFilter, w::Trader, w::Weigher>;

/// The asset of this chain a location names.
fn asset(l: &Location) -> Option<u32> {
	match l.unpack() {
		(1, []) => Some(10),
		(1, [J::Parachain(1000), J::PalletInstance(50), J::GeneralIndex(1984)]) => Some(1984),
		(1, [J::Parachain(1000), J::PalletInstance(50), J::GeneralIndex(1337)]) => Some(1337),
		_ => None,
	}
}
fn asset_hub(l: &Location) -> bool {
	matches!(l.unpack(), (1, [J::Parachain(1000)]))
}
fn relay(l: &Location) -> bool {
	matches!(l.unpack(), (1, []))
}
fn relay_or_executive(l: &Location) -> bool {
	relay(l) || matches!(l.unpack(), (1, [J::Plurality { id: BodyId::Executive, .. }]))
}
/// The account of this chain a location controls.
fn account(l: &Location) -> Option<AccountId> {
	match l.unpack() {
		(1, []) => {
			let mut a = [0; 32];
			a[..6].copy_from_slice(b"Parent");
			Some(AccountId::new(a))
		},
		(1, [J::Parachain(id)]) => {
			let mut a = [0; 32];
			a[..4].copy_from_slice(b"sibl");
			a[4..8].copy_from_slice(&id.to_le_bytes());
			Some(AccountId::new(a))
		},
		(0, [J::AccountId32 { network: None, id }]) => Some(AccountId::new(*id)),
		_ => None,
	}
}
fn local(n: u8) -> Location {
	J::AccountId32 { network: None, id: [n; 32] }.into()
}
fn executive() -> J {
	J::Plurality { id: BodyId::Executive, part: BodyPart::Voice }
}
/// A look-alike: one step of the location is another, missing, or one too many.
fn near(rng: &mut Rng, l: Location) -> Location {
	let mut v = l.interior.as_slice().to_vec();
	let mut parents = l.parents;
	let any = |rng: &mut Rng| match rng.below(6) {
		0 => J::Parachain(*rng.pick(&[1000, 2000, 3344])),
		1 => J::PalletInstance(*rng.pick(&[50, 13, 0])),
		2 => J::GeneralIndex(*rng.pick(&[10, 1984, 1337])),
		3 => J::OnlyChild,
		4 => J::GlobalConsensus(NetworkId::Polkadot),
		_ => J::AccountId32 { network: Some(NetworkId::Polkadot), id: [1; 32] },
	};
	match rng.below(8) {
		0 => parents = rng.below(4) as u8,
		1 if v.len() < 4 => {
			let (k, j) = (rng.below(v.len() as u64 + 1) as usize, any(rng));
			v.insert(k, j);
		},
		2 if !v.is_empty() => {
			v.remove(rng.below(v.len() as u64) as usize);
		},
		3 if v.len() > 1 => v.swap(0, 1),
		4 if !v.is_empty() => {
			let k = rng.below(v.len() as u64) as usize;
			v[k] = any(rng);
		},
		_ if !v.is_empty() => {
			let k = rng.below(v.len() as u64) as usize;
			v[k] = match v[k] {
				J::Parachain(n) => J::Parachain(if rng.chance(1, 2) { n ^ (1 << rng.below(32)) } else { n.wrapping_add(rng.below(7) as u32).wrapping_sub(3) }),
				J::PalletInstance(n) => J::PalletInstance(if rng.chance(1, 2) { rng.below(256) as u8 } else { n.wrapping_add(rng.below(9) as u8).wrapping_sub(4) }),
				J::GeneralIndex(n) => J::GeneralIndex(if rng.chance(1, 2) { n ^ (1 << rng.below(128)) } else { *rng.pick(&[10, 1337, 1984]) }),
				J::AccountId32 { id, .. } => J::AccountId32 { network: Some(*rng.pick(&[NetworkId::Polkadot, NetworkId::Kusama])), id },
				J::Plurality { id, .. } if rng.chance(1, 2) => J::Plurality { id, part: BodyPart::Members { count: 1 } },
				J::Plurality { part, .. } => J::Plurality { id: BodyId::Index(rng.below(3) as u32), part },
				_ => any(rng),
			}
		},
		_ => parents = rng.below(4) as u8,
	}
	Location { parents, interior: crate::xenv::interior(&v).unwrap() }
}
fn place(rng: &mut Rng) -> Location {
	let l = known_place(rng);
	if rng.chance(1, 6) { near(rng, l) } else { l }
}
fn asset_place(rng: &mut Rng) -> Location {
	let l = known_asset(rng);
	if rng.chance(1, 6) { near(rng, l) } else { l }
}
fn known_place(rng: &mut Rng) -> Location {
	match rng.below(22) {
		0..=4 => Location::new(1, [J::Parachain(1000)]),
		5..=7 => Location::parent(),
		8 | 9 => Location::new(1, [J::Parachain(*rng.pick(&[2000, 2004, 1001, 3344, 0]))]),
		10 => Location::new(1, [J::Parachain(1000), J::AccountId32 { network: None, id: [1; 32] }]),
		11 => Location::new(1, [J::Parachain(1000), J::PalletInstance(50)]),
		12 => Location::new(1, [executive()]),
		13 => Location::new(1, [J::Plurality { id: *rng.pick(&[BodyId::Technical, BodyId::Legislative, BodyId::Unit]), part: BodyPart::Voice }]),
		14 => Location::here(),
		15 | 16 => local(rng.range(1, 4) as u8),
		17 => Location::new(2, [J::GlobalConsensus(NetworkId::Kusama), J::Parachain(1000)]),
		18 => Location::new(2, [J::Parachain(1000)]),
		19 => Location::new(0, [J::Parachain(1000)]),
		20 => Location::new(1, [J::AccountId32 { network: None, id: [1; 32] }]),
		_ => Location::new(1, [J::Parachain(1000), executive()]),
	}
}
fn known_asset(rng: &mut Rng) -> Location {
	let at = |p, a: [J; 3]| Location::new(p, a);
	match rng.below(20) {
		0..=3 => Location::parent(),
		4..=7 => at(1, [J::Parachain(1000), J::PalletInstance(50), J::GeneralIndex(1984)]),
		8..=10 => at(1, [J::Parachain(1000), J::PalletInstance(50), J::GeneralIndex(1337)]),
		11 | 12 => Location::here(),
		13 => at(1, [J::Parachain(1000), J::PalletInstance(50), J::GeneralIndex(*rng.pick(&[10, 1985, 1336, 0]))]),
		14 => at(1, [J::Parachain(*rng.pick(&[2000, 1001])), J::PalletInstance(50), J::GeneralIndex(1984)]),
		15 => at(1, [J::Parachain(1000), J::PalletInstance(*rng.pick(&[49, 51, 14, 13])), J::GeneralIndex(1337)]),
		16 => Location::new(0, [J::PalletInstance(*rng.pick(&[13, 14, 10])), J::GeneralIndex(*rng.pick(&[0, 10, 1984]))]),
		17 => Location::new(1, [J::Parachain(1000)]),
		18 => at(*rng.pick(&[0, 2]), [J::Parachain(1000), J::PalletInstance(50), J::GeneralIndex(1984)]),
		_ => Location::new(*rng.pick(&[0, 2]), [J::GlobalConsensus(NetworkId::Polkadot)]),
	}
}
fn some_assets(rng: &mut Rng, most: u64) -> Assets {
	let n = rng.range(1, most);
	let mut v: Vec<Asset> = vec![];
	for _ in 0..n {
		let id = asset_place(rng);
		if v.iter().all(|a| a.id.0 != id) {
			v.push((id, rng.edgy128(1_000_000_000_000)).into());
		}
	}
	v.into()
}
fn limit(rng: &mut Rng) -> WeightLimit {
	match rng.below(4) {
		0 | 1 => Unlimited,
		2 => Limited(Weight::from_parts(200_000_000_000, 10_000_000)),
		_ => Limited(Weight::from_parts(rng.edgy128(30_000_000_000) as u64, rng.edgy128(2_000_000) as u64)),
	}
}
fn elsewhere(rng: &mut Rng) -> Location {
	match rng.below(4) {
		0 => Location::parent(),
		1 => Location::new(1, [J::Parachain(1000)]),
		_ => place(rng),
	}
}
fn instruction(rng: &mut Rng) -> Instruction<()> {
	match rng.below(30) {
		0..=3 => I::WithdrawAsset(some_assets(rng, 3)),
		4..=6 => I::ReserveAssetDeposited(some_assets(rng, 3)),
		7 => I::ReceiveTeleportedAsset(some_assets(rng, 2)),
		8..=10 => I::BuyExecution { fees: (asset_place(rng), rng.edgy128(1_000_000_000_000)).into(), weight_limit: limit(rng) },
		11 | 12 => I::DepositAsset { assets: Wild(WildAsset::All), beneficiary: local(rng.range(1, 6) as u8) },
		13 => I::DepositAsset { assets: Definite(some_assets(rng, 2)), beneficiary: place(rng) },
		14 => I::TransferAsset { assets: some_assets(rng, 2), beneficiary: local(rng.range(1, 6) as u8) },
		15 | 16 => I::ClearOrigin,
		17 => I::DescendOrigin((*rng.pick(&[J::AccountId32 { network: None, id: [2; 32] }, J::Parachain(1000), executive()])).into()),
		18 => I::UniversalOrigin(*rng.pick(&[J::GlobalConsensus(NetworkId::Kusama), J::Parachain(1000), J::GlobalConsensus(NetworkId::Polkadot)])),
		19 => I::AliasOrigin(place(rng)),
		20 | 21 => I::Transact { origin_kind: *rng.pick(&[OriginKind::Native, OriginKind::SovereignAccount, OriginKind::Superuser, OriginKind::Xcm]), require_weight_at_most: Weight::zero(), call: vec![].into() },
		22 => I::UnpaidExecution { weight_limit: limit(rng), check_origin: if rng.chance(1, 4) { Some(place(rng)) } else { None } },
		23 => I::SetTopic([1; 32]),
		24 => match rng.below(3) {
			0 => I::HrmpNewChannelOpenRequest { sender: 2000, max_message_size: 1, max_capacity: 1 },
			1 => I::HrmpChannelAccepted { recipient: 2000 },
			_ => I::HrmpChannelClosing { initiator: 1, sender: 1, recipient: 1 },
		},
		25 => I::QueryResponse { query_id: rng.below(3), response: Default::default(), max_weight: Weight::zero(), querier: None },
		26 =>
			if rng.chance(1, 2) {
				I::SubscribeVersion { query_id: 1, max_response_weight: Weight::zero() }
			} else {
				I::UnsubscribeVersion
			},
		27 => match rng.below(3) {
			0 => I::InitiateReserveWithdraw { assets: Wild(WildAsset::All), reserve: elsewhere(rng), xcm: Xcm(vec![]) },
			1 => I::DepositReserveAsset { assets: Wild(WildAsset::All), dest: elsewhere(rng), xcm: Xcm(vec![]) },
			_ => I::TransferReserveAsset { assets: some_assets(rng, 1), dest: elsewhere(rng), xcm: Xcm(vec![]) },
		},
		28 => I::ClaimAsset { assets: some_assets(rng, 3), ticket: Location::here() },
		_ => I::RefundSurplus,
	}
}
/// A message: one of the usual shapes, or noise, and now and then a usual shape with noise in it.
fn message(rng: &mut Rng) -> Vec<Instruction<()>> {
	let mut m = match rng.below(9) {
		0..=2 => {
			let got = some_assets(rng, 2);
			let fees = rng.pick(got.inner()).clone();
			vec![
				if rng.chance(1, 3) { I::WithdrawAsset(got) } else { I::ReserveAssetDeposited(got) },
				I::ClearOrigin,
				I::BuyExecution { fees, weight_limit: limit(rng) },
				I::DepositAsset { assets: Wild(WildAsset::All), beneficiary: local(rng.range(1, 6) as u8) },
			]
		},
		3 => {
			let got = some_assets(rng, 2);
			let fees = rng.pick(got.inner()).clone();
			vec![I::WithdrawAsset(got), I::BuyExecution { fees, weight_limit: limit(rng) }, instruction(rng), instruction(rng)]
		},
		4 => vec![I::UnpaidExecution { weight_limit: limit(rng), check_origin: None }, instruction(rng), instruction(rng)],
		5 => vec![instruction(rng)],
		6 => {
			// whole instructions the notices and answers come as
			let mut one = instruction(rng);
			while !matches!(
				one,
				I::HrmpNewChannelOpenRequest { .. } | I::HrmpChannelAccepted { .. } | I::HrmpChannelClosing { .. } | I::QueryResponse { .. } | I::SubscribeVersion { .. } | I::UnsubscribeVersion
			) {
				one = instruction(rng);
			}
			vec![one]
		},
		_ => (0..rng.below(7)).map(|_| instruction(rng)).collect(),
	};
	match rng.below(8) {
		0 => m.insert(0, I::DescendOrigin((*rng.pick(&[J::Parachain(1000), executive(), J::AccountId32 { network: None, id: [3; 32] }])).into())),
		1 => m.push(I::SetTopic([2; 32])),
		2 => {
			let k = rng.below(m.len() as u64 + 1) as usize;
			let i = instruction(rng);
			m.insert(k, i);
		},
		3 if !m.is_empty() => {
			let k = rng.below(m.len() as u64) as usize;
			m.remove(k);
		},
		_ => {},
	}
	m
}

/// Why a message may run, if it may.
fn admitted(origin: &Location, m: &[Instruction<()>], weight: Weight) -> Option<&'static str> {
	if m.is_empty() {
		return Some("empty")
	}
	let m = if let Some(I::SetTopic(_)) = m.last() { &m[..m.len() - 1] } else { m };
	if m.iter().any(|i| match i {
		I::InitiateReserveWithdraw { reserve: d, .. } | I::DepositReserveAsset { dest: d, .. } | I::TransferReserveAsset { dest: d, .. } => relay(d),
		_ => false,
	}) {
		return None
	}
	if let [I::QueryResponse { query_id, .. }] = m {
		if EXPECTED.with(|e| e.borrow().contains(&(origin.clone(), *query_id))) {
			return Some("known-response")
		}
	}
	let mut from = origin.clone();
	let mut k = 0;
	while k < 8 {
		match m.get(k) {
			Some(I::UniversalOrigin(j)) => from = Location { parents: 2, interior: (*j).into() },
			Some(I::DescendOrigin(j)) => from = append(&from, j)?,
			_ => break,
		}
		k += 1;
	}
	let m = &m[k..];
	let enough = |l: &WeightLimit| match l {
		Unlimited => true,
		Limited(x) => x.ref_time() >= weight.ref_time() && x.proof_size() >= weight.proof_size(),
	};
	match m {
		[I::HrmpNewChannelOpenRequest { .. } | I::HrmpChannelAccepted { .. } | I::HrmpChannelClosing { .. }] if relay_or_executive(&from) =>
			return Some("hrmp-notice"),
		[I::SubscribeVersion { .. } | I::UnsubscribeVersion] if relay(&from) || matches!(from.unpack(), (1, [J::Parachain(_)])) =>
			return Some("subscription"),
		[I::UnpaidExecution { weight_limit, .. }, ..] if enough(weight_limit) && (asset_hub(&from) || relay_or_executive(&from)) =>
			return Some("unpaid-from-trusted"),
		[I::WithdrawAsset(a) | I::ReserveAssetDeposited(a) | I::ReceiveTeleportedAsset(a) | I::ClaimAsset { assets: a, .. }, rest @ ..] if a.len() <= 2 => {
			let rest = &rest[..rest.len().min(4)];
			let j = rest.iter().position(|i| !matches!(i, I::ClearOrigin | I::AliasOrigin(_) | I::SetTopic(_)))?;
			if matches!(&rest[j], I::BuyExecution { weight_limit, .. } if enough(weight_limit)) {
				return Some("paid")
			}
		},
		_ => {},
	}
	None
}

type Ledger = BTreeMap<(u32, AccountId), u128>;
/// 0 stands for PLMC.
const HELD: [u32; 4] = [0, 10, 1984, 1337];
fn people() -> Vec<AccountId> {
	let mut v: Vec<AccountId> = (1..=6).map(acc).collect();
	v.extend([operations(), growth()]);
	v.extend([Location::parent(), Location::new(1, [J::Parachain(1000)])].iter().filter_map(account));
	v.extend([2000, 2004, 1001, 3344, 0].iter().filter_map(|p| account(&Location::new(1, [J::Parachain(*p)]))));
	v
}
fn supply(id: u32) -> u128 {
	if id == 0 { Balances::total_issuance() } else { <ForeignAssets as Inspects<AccountId>>::total_issuance(id) }
}
fn ledger() -> Ledger {
	let mut l = Ledger::new();
	for a in people() {
		l.insert((0, a.clone()), Balances::total_balance(&a));
		for (id, _) in ASSETS {
			l.insert((id, a.clone()), <ForeignAssets as Inspects<AccountId>>::balance(id, &a));
		}
	}
	l
}
/// What a weight costs in an asset.
fn cost(id: u32, w: Weight) -> u128 {
	let per = |unit: u128| unit * w.ref_time() as u128 / 1_000_000_000_000 + unit * w.proof_size() as u128 / (1024 * 1024);
	match id {
		0 => <Runtime as pallet_transaction_payment::Config>::WeightToFee::weight_to_fee(&w),
		10 => per(2_000_000_000),
		_ => per(1_000_000),
	}
}

pub fn history(seed: u64, o: &mut Obs) {
	let mut rng = Rng::new(seed);
	let rich = 1_000_000_000_000_000u128;
	let mut st = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
	let balances = people().into_iter().map(|a| (a, rich + rng.below128(rich))).collect();
	pallet_balances::GenesisConfig::<Runtime> { balances }.assimilate_storage(&mut st).unwrap();
	let mut ext = sp_io::TestExternalities::new(st);
	ext.execute_with(|| {
		System::set_block_number(1);
		for (id, decimals) in ASSETS {
			mini_assets::Asset::<Runtime, Instance2>::insert(
				id,
				mini_assets::pallet::Details { supply: 0, min_balance: 1, sufficient: true, accounts: 0, destroying: false },
			);
			mini_assets::Metadata::<Runtime, Instance2>::insert(id, (b"a".to_vec(), b"a".to_vec(), decimals));
			for a in people() {
				if a == growth() || rng.chance(2, 3) {
					let _ = <ForeignAssets as Mutates<AccountId>>::mint_into(id, &a, 1 + rng.below128(rich));
				}
			}
		}
		// a contribution token nobody outside may touch
		for id in [0, 10, 1984] {
			mini_assets::Asset::<Runtime, Instance1>::insert(
				id,
				mini_assets::pallet::Details { supply: 0, min_balance: 1, sufficient: true, accounts: 0, destroying: false },
			);
			for a in people() {
				let _ = <crate::rt::ContributionTokens as Mutates<AccountId>>::mint_into(id, &a, rich);
			}
		}
		let tokens = || {
			people().iter().flat_map(|a| [0, 10, 1984].map(|i| <crate::rt::ContributionTokens as Inspects<AccountId>>::balance(i, a))).collect::<Vec<_>>()
		};
		let untouched = tokens();
		EXPECTED.with(|e| *e.borrow_mut() = (0..rng.below(3)).map(|q| (place(&mut rng), q)).collect());
		let samples = calls::samples(&mut rng);
		let steps = rng.range(20, 60);
		for _ in 0..steps {
			if o.stop() {
				return
			}
			for _ in 0..rng.below(12) {
				names(o, &mut rng);
			}
			deliver(o, &mut rng, &samples);
			if tokens() != untouched {
				o.violate(P, "contribution-tokens", || "a message moved contribution tokens".into());
			}
			o.state(hash_debug(&ledger()));
		}
	});
}

fn deliver(o: &mut Obs, rng: &mut Rng, samples: &[(crate::env::Named, calls::RuntimeCall)]) {
	let mut origin = place(rng);
	let mut m = message(rng);
	if rng.chance(1, 4) {
		// a transfer as wallets send it, by whoever it may come from
		let from_hub = rng.chance(3, 4);
		if from_hub {
			origin = Location::new(1, [J::Parachain(1000)]);
		}
		let mut got = vec![];
		while got.is_empty() {
			got = some_assets(rng, 2).into_inner().into_iter().filter(|a| asset(&a.id.0).is_some() || rng.chance(1, 12)).collect();
		}
		let fees = rng.pick(&got).clone();
		let deposit = I::DepositAsset { assets: Wild(WildAsset::All), beneficiary: local(rng.range(1, 6) as u8) };
		m = vec![
			if rng.chance(1, 4) { I::WithdrawAsset(got.into()) } else { I::ReserveAssetDeposited(got.into()) },
			I::ClearOrigin,
			I::BuyExecution { fees, weight_limit: Unlimited },
			deposit,
		];
		if rng.chance(1, 3) {
			m.remove(1);
			let i = instruction(rng);
			m.insert(2, i);
		}
	}
	if let (true, Some((from, q))) = (rng.chance(1, 12), EXPECTED.with(|e| e.borrow().first().cloned())) {
		// an answer somebody waits for, from its sender or another
		let from = if rng.chance(1, 2) { from } else { origin.clone() };
		m = vec![I::QueryResponse { query_id: q, response: Default::default(), max_weight: Weight::zero(), querier: None }];
		return run(o, from, m, &rng.pick(samples).1)
	}
	run(o, origin, m, &rng.pick(samples).1)
}

fn run(o: &mut Obs, origin: Location, m: Vec<Instruction<()>>, call: &calls::RuntimeCall) {
	let before = ledger();
	let supplies = HELD.map(supply);
	o.op(|| format!("{origin:?} sends {m:?}"));
	let what = format!("{origin:?} sent {m:?}");
	let weight = match m.len() as u64 {
		n if n > 100 => None,
		n => Some(Weight::from_parts(1_000_000_000 * n, 64 * 1024 * n)),
	};
	if Machine::weight(&m) != weight {
		return o.violate(P, "weight", || format!("{what}: weighs {:?}", Machine::weight(&m)))
	}
	let why = weight.and_then(|x| admitted(&origin, &m, x));
	let out = match o.guard(|| Machine::execute(origin.clone(), m.clone(), call)) {
		Ok(x) => x,
		Err(p) => return o.violate(P, "panic", || format!("{what}: panicked: {p}")),
	};
	let now = ledger();
	let after = HELD.map(supply);
	let (done, trapped, transacted) = match out {
		Outcome::Refused => {
			o.hit(P, "turned-away");
			if let Some(why) = why {
				o.violate(P, "turned-away", || format!("{what}: turned away though {why}"));
			}
			if now != before || after != supplies {
				o.violate(P, "turned-away-trace", || format!("{what}: turned away, yet something changed"));
			}
			return
		},
		Outcome::Ran { done, trapped, transacted, .. } => (done, trapped, transacted),
	};
	o.hit(P, "admitted");
	let Some(why) = why else { return o.violate(P, "admitted", || format!("{what}: ran")) };
	match why {
		"unpaid-from-trusted" | "known-response" | "subscription" | "hrmp-notice" => o.hit(P, why),
		_ => o.count(why),
	}
	// what the instructions that ran may have done
	let mut from = Some(origin);
	let mut debits: Vec<(u32, AccountId)> = vec![];
	let mut came: BTreeMap<u32, u128> = BTreeMap::new();
	// at least, at most: a weight too small to cost a unit of some asset may be free
	let mut fees: BTreeMap<u32, (u128, u128)> = BTreeMap::new();
	let mut first_buy = true;
	let id_of = |l: &Location| if *l == Location::here() { Some(0) } else { asset(l) };
	for (k, i) in m.iter().enumerate() {
		let ran = k < done;
		match i {
			I::ReserveAssetDeposited(a) =>
				for a in a.inner() {
					let trusted = from.as_ref().map_or(false, asset_hub) && asset(&a.id.0).is_some();
					if ran && !trusted {
						o.violate(P, "untrusted-reserve", || format!("{what}: {from:?} was believed about {a:?}"));
					}
					if ran {
						o.hit(P, "reserve-deposit");
						if let (Some(id), Fungible(x)) = (asset(&a.id.0), &a.fun) {
							*came.entry(id).or_default() += x;
						}
					}
					if k == done && !trusted {
						o.hit(P, "untrusted-reserve");
					}
				},
			I::ReceiveTeleportedAsset(a) if !a.is_empty() =>
				if ran {
					o.violate(P, "teleport", || format!("{what}: teleported {a:?}"));
				} else if k == done {
					o.hit(P, "teleport-refused");
				},
			I::Transact { .. } =>
				if ran || transacted {
					o.violate(P, "transact", || format!("{what}: dispatched {}", calls::pallet(call)));
				} else if k == done {
					o.hit(P, "transact-refused");
				},
			I::UniversalOrigin(_) if ran => o.violate(P, "universal-origin", || format!("{what}: spoke for another consensus")),
			I::AliasOrigin(l) if ran && from.as_ref() != Some(l) => o.violate(P, "alias", || format!("{what}: spoke for {l:?}")),
			I::WithdrawAsset(a) | I::TransferAsset { assets: a, .. } if ran => {
				let Some(who) = from.as_ref().and_then(account) else {
					return o.violate(P, "nobodys-account", || format!("{what}: {from:?} withdrew"))
				};
				for a in a.inner() {
					match id_of(&a.id.0) {
						Some(id) => debits.push((id, who.clone())),
						None => return o.violate(P, "unknown-asset", || format!("{what}: withdrew {a:?}")),
					}
				}
			},
			I::BuyExecution { fees: f, weight_limit } if ran => {
				let w = match weight_limit {
					_ if why == "paid" && first_buy => weight,
					Limited(w) => Some(*w),
					Unlimited => None,
				};
				first_buy = false;
				if let Some(w) = w {
					match id_of(&f.id.0) {
						Some(id) => {
							let e = fees.entry(id).or_default();
							e.1 += cost(id, w);
							if cost(1984, w) > 0 {
								e.0 += cost(id, w);
							}
						},
						None =>
							if cost(1984, w) > 0 {
								return o.violate(P, "fee-asset", || format!("{what}: execution paid with {f:?}"))
							},
					}
				}
			},
			I::ClearOrigin if ran => from = None,
			I::DescendOrigin(j) if ran => from = from.as_ref().and_then(|f| append(f, j)),
			_ => {},
		}
		if k == done {
			break
		}
	}
	for ((id, a), b) in &before {
		let n = now[&(*id, a.clone())];
		if n < *b {
			if debits.contains(&(*id, a.clone())) {
				o.hit(P, "own-account-debited");
			} else {
				o.violate(P, "debited", || format!("{what}: {a:?} lost {} of {id}", b - n));
			}
		}
	}
	for (k, id) in HELD.into_iter().enumerate() {
		let came = came.get(&id).copied().unwrap_or(0);
		let left: u128 = trapped.iter().filter(|(a, _)| id_of(&a.0) == Some(id)).map(|(_, x)| *x).sum();
		if after[k] + left != supplies[k] + came {
			o.violate(P, "supply", || format!("{what}: {} of {id} became {} with {came} announced and {left} kept back", supplies[k], after[k]));
		}
		let (least, most) = fees.get(&id).copied().unwrap_or((0, 0));
		let key = (id, growth());
		let (b, n) = (before[&key], now[&key]);
		if least > 0 {
			o.hit(P, "execution-paid");
		}
		if n < b + least || n > b + most {
			o.violate(P, "execution-paid", || format!("{what}: the treasury got {} of {id} for execution worth {most}", n as i128 - b as i128));
		}
	}
}

/// The places and filters on their own.
fn names(o: &mut Obs, rng: &mut Rng) {
	let (l, origin) = (asset_place(rng), place(rng));
	let a: Asset = (l.clone(), rng.edgy128(1_000_000)).into();
	let what = format!("{l:?} from {origin:?}");
	o.hit(P, "asset-identified");
	let trusted = asset_hub(&origin) && asset(&l).is_some();
	if <w::IsReserve as ContainsPair<Asset, Location>>::contains(&a, &origin) != trusted {
		o.violate(P, "reserve", || format!("{what}: the reserve is {}", if trusted { "not trusted" } else { "trusted" }));
	}
	if <w::IsTeleporter as ContainsPair<Asset, Location>>::contains(&a, &origin) {
		o.violate(P, "teleporter", || format!("{what}: a trusted teleporter"));
	}
	let all = vec![a.clone(), (asset_place(rng), 5u128).into()];
	let back = all.iter().all(|a| asset(&a.id.0).is_some());
	o.hit(P, "local-filters");
	let item = (origin.clone(), all.clone());
	if <wx::XcmReserveTransferFilter as Contains<(Location, Vec<Asset>)>>::contains(&item) != back {
		o.violate(P, "reserve-transfer-filter", || format!("sending {all:?} is {}", if back { "refused" } else { "possible" }));
	}
	if <wx::XcmTeleportFilter as Contains<(Location, Vec<Asset>)>>::contains(&item) {
		o.violate(P, "teleport-filter", || format!("teleporting {all:?} is possible"));
	}
	if <wx::XcmExecuteFilter as Contains<(Location, Xcm<()>)>>::contains(&(origin, Xcm(message(rng)))) {
		o.violate(P, "execute-filter", || "local execution of messages is possible".into());
	}
}
