//! C49: what a transaction costs, who pays, and where dust and slashes end.
use crate::{
	acc, growth, operations, poly,
	rt::{Balances, ForeignAssets, Runtime, System, PRICES},
	ASSETS,
};
use frame_support::{
	dispatch::{DispatchInfo, PostDispatchInfo},
	instances::Instance2,
	traits::{
		fungible::{Balanced, Inspect, Mutate},
		fungibles::{Inspect as Inspects, Mutate as Mutates},
		tokens::Preservation,
		Get, OnUnbalanced,
	},
	weights::{Weight, WeightToFee as _},
};
use mon::*;
use pallet_asset_tx_payment::OnChargeAssetTransaction;
use pallet_transaction_payment::OnChargeTransaction;
use parachains_common::AccountId;
use parity_scale_codec::Encode;
use polimec_common::PLMC_FOREIGN_ID;
use sp_arithmetic::FixedU128;
use sp_runtime::BuildStorage;
use std::collections::BTreeMap;
use xcm::v3::{Junction as J, Junctions as Js, MultiLocation};

const P: &[&str] = &["C49"];
const ED: u128 = 100_000_000;
type Charge = <Runtime as pallet_transaction_payment::Config>::OnChargeTransaction;
type Fee = <Runtime as pallet_transaction_payment::Config>::WeightToFee;
type Len = <Runtime as pallet_transaction_payment::Config>::LengthToFee;
type ChargeAsset = <Runtime as pallet_asset_tx_payment::Config>::OnChargeAssetTransaction;

fn everyone() -> Vec<AccountId> {
	(1..=7).map(acc).chain([operations(), growth()]).collect()
}
fn native() -> BTreeMap<AccountId, u128> {
	everyone().into_iter().map(|a| (a.clone(), Balances::total_balance(&a))).collect()
}
fn assets(id: u32) -> BTreeMap<AccountId, u128> {
	everyone().into_iter().map(|a| (a.clone(), <ForeignAssets as Inspects<AccountId>>::balance(id, &a))).collect()
}
fn all() -> (BTreeMap<AccountId, u128>, Vec<(u128, BTreeMap<AccountId, u128>)>, u128) {
	(
		native(),
		ASSETS.iter().map(|(i, _)| (<ForeignAssets as Inspects<AccountId>>::total_issuance(*i), assets(*i))).collect(),
		Balances::total_issuance(),
	)
}
fn who(a: &AccountId) -> String {
	if *a == operations() {
		"operations".into()
	} else if *a == growth() {
		"growth".into()
	} else {
		format!("#{}", <AccountId as AsRef<[u8; 32]>>::as_ref(a)[0])
	}
}
/// What a deposit does to an account: `false` if the account cannot exist with it.
fn credit(m: &mut BTreeMap<AccountId, u128>, a: &AccountId, x: u128, min: u128) -> bool {
	let b = m.get_mut(a).expect("tracked");
	if x == 0 {
		return true
	}
	if *b + x < min {
		return false
	}
	*b += x;
	true
}
fn diff(a: &BTreeMap<AccountId, u128>, b: &BTreeMap<AccountId, u128>) -> String {
	a.iter().filter(|(k, v)| b[*k] != **v).map(|(k, v)| format!("{} {v} -> {}", who(k), b[k])).collect::<Vec<_>>().join(", ")
}

fn location(rng: &mut Rng) -> (MultiLocation, Option<u32>) {
	let at = |a, b, c| MultiLocation { parents: 1, interior: Js::X3(J::Parachain(a), J::PalletInstance(b), J::GeneralIndex(c)) };
	match rng.below(16) {
		0..=3 => (MultiLocation::parent(), Some(10)),
		4..=7 => (at(1000, 50, 1984), Some(1984)),
		8..=10 => (at(1000, 50, 1337), Some(1337)),
		11 => (MultiLocation::here(), None),
		12 => (at(1000, 50, *rng.pick(&[10, 1985, 1336, 0, 3344])), None),
		13 => (at(*rng.pick(&[1001, 2000, 0]), 50, 1984), None),
		14 => (at(1000, *rng.pick(&[0, 49, 51, 14]), *rng.pick(&[1984, 1337])), None),
		_ => (
			MultiLocation {
				parents: *rng.pick(&[0, 2]),
				interior: *rng.pick(&[Js::Here, Js::X3(J::Parachain(1000), J::PalletInstance(50), J::GeneralIndex(1984))]),
			},
			None,
		),
	}
}
fn price(id: u32) -> Option<f64> {
	PRICES.with(|p| p.borrow().get(&id).map(|x| x.into_inner() as f64 / 1e18))
}
/// `x` PLMC in units of the asset at current prices, and by how much it may be off.
pub fn convert(x: u128, id: u32, decimals: u8) -> Option<(f64, f64)> {
	let (p, q) = (price(PLMC_FOREIGN_ID)?, price(id)?);
	if q == 0.0 {
		return None
	}
	let unit = 10f64.powi(decimals as i32);
	let e = x as f64 / 1e10 * p / q * unit;
	// a millionth of a dollar, a unit, and the precision of the prices, which is a millionth of a dollar too
	let off = |x: f64| ((x * 1e6).fract().min(1.0 - (x * 1e6).fract()) > 1e-3) as u32 as f64 * 1.01e-6 / x;
	Some((e, unit * 1.0e-6 / q * 1.01 + 2.0 + e * (1e-6 + off(p) + off(q))))
}
pub fn set_price(rng: &mut Rng, id: u32) {
	let x = match rng.below(6) {
		0 => 1.0,
		1 => 0.001,
		2 => 40_000.0,
		_ => (rng.range(1, 1_000_000) as f64) / 1000.0,
	};
	PRICES.with(|p| p.borrow_mut().insert(id, FixedU128::from_inner((x * 1e9) as u128 * 1_000_000_000)));
}

pub fn history(seed: u64, o: &mut Obs) {
	let mut rng = Rng::new(seed);
	let mut balances: Vec<(AccountId, u128)> = vec![];
	for a in 1..=6 {
		balances.push((acc(a), ED + rng.edgy128(1_000_000_000_000)));
	}
	for a in [operations(), growth()] {
		if rng.chance(3, 4) {
			balances.push((a, ED + rng.below128(10_000_000_000)));
		}
	}
	PRICES.with(|p| p.borrow_mut().clear());
	for id in [PLMC_FOREIGN_ID, 10, 1984, 1337] {
		if rng.chance(19, 20) {
			set_price(&mut rng, id);
		}
	}
	let mut st = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Runtime> { balances }.assimilate_storage(&mut st).unwrap();
	let mut ext = sp_io::TestExternalities::new(st);
	ext.execute_with(|| {
		System::set_block_number(1);
		for (id, decimals) in ASSETS {
			let min = *rng.pick(&[1, 70_000, 10_000_000]);
			mini_assets::Asset::<Runtime, Instance2>::insert(
				id,
				mini_assets::pallet::Details { supply: 0, min_balance: min, sufficient: true, accounts: 0, destroying: false },
			);
			mini_assets::Metadata::<Runtime, Instance2>::insert(id, (b"a".to_vec(), b"a".to_vec(), decimals));
			for a in 1..=6 {
				if rng.chance(4, 5) {
					let x = min + rng.edgy128(100_000_000_000);
					let _ = <ForeignAssets as Mutates<AccountId>>::mint_into(id, &acc(a), x);
				}
			}
			if rng.chance(2, 3) {
				let _ = <ForeignAssets as Mutates<AccountId>>::mint_into(id, &operations(), min + rng.below128(1000));
			}
		}
		let steps = rng.range(15, 50);
		for _ in 0..steps {
			if o.stop() {
				return
			}
			let author = match rng.below(6) {
				0 => None,
				1 => Some(acc(7)),
				_ => Some(acc(rng.range(1, 6) as u8)),
			};
			pallet_authorship::AUTHOR.with(|a| *a.borrow_mut() = author.as_ref().map(|a| a.encode()));
			match rng.below(20) {
				0..=5 => pay(o, &mut rng, author),
				6..=12 => pay_in_asset(o, &mut rng, author),
				13 => weights(o, &mut rng),
				14 | 15 => dust(o, &mut rng),
				16 | 17 => slashes(o, &mut rng),
				_ => electorate(o, &mut rng),
			}
			let sum: u128 = native().values().sum();
			let issued = Balances::total_issuance();
			o.hit(P, "conserved");
			if sum != issued {
				o.violate(P, "native-supply", || format!("accounts hold {sum}, the issuance says {issued}"));
			}
			for (id, _) in ASSETS {
				let (sum, issued) = (assets(id).values().sum::<u128>(), <ForeignAssets as Inspects<AccountId>>::total_issuance(id));
				if sum != issued {
					o.violate(P, "asset-supply", || format!("accounts hold {sum} of {id}, the issuance says {issued}"));
				}
			}
			o.state(hash_debug(&native()));
		}
	});
}

/// What may happen between the two halves of paying a fee.
fn dispatch(o: &mut Obs, rng: &mut Rng, payer: &AccountId) {
	for _ in 0..rng.below(3) {
		let to = if rng.chance(1, 6) { operations() } else { acc(rng.range(1, 7) as u8) };
		match rng.below(3) {
			0 => {
				let x = rng.edgy128(Balances::total_balance(payer));
				o.op(|| format!("  it sends {x} to {}", who(&to)));
				let _ = <Balances as Mutate<_>>::transfer(payer, &to, x, Preservation::Expendable);
			},
			1 => {
				let (id, _) = *rng.pick(&ASSETS);
				let b = <ForeignAssets as Inspects<AccountId>>::balance(id, payer);
				let x = if rng.chance(1, 3) { b } else { rng.edgy128(b) };
				o.op(|| format!("  it sends {x} of {id} to {}", who(&to)));
				let _ = <ForeignAssets as Mutates<AccountId>>::transfer(id, payer, &to, x, Preservation::Expendable);
			},
			_ => {
				let id = *rng.pick(&[PLMC_FOREIGN_ID, 10, 1984, 1337]);
				set_price(rng, id);
				o.op(|| format!("  the price of {id} becomes {:?}", price(id)));
			},
		}
	}
}
fn call() -> crate::rt::RuntimeCall {
	crate::rt::RuntimeCall::System(frame_system::Call::remark { remark: vec![] })
}

fn pay(o: &mut Obs, rng: &mut Rng, author: Option<AccountId>) {
	let payer = acc(rng.range(1, 6) as u8);
	let have = Balances::total_balance(&payer);
	let tip = if rng.chance(1, 2) { 0 } else { rng.edgy128(have / 8 + 1) };
	let fee = match rng.below(6) {
		0 => have.saturating_sub(ED),
		1 => have.saturating_sub(ED) + 1,
		2 => have,
		3 => 0,
		_ => rng.edgy128(have / 2 + 1),
	}
	.max(tip);
	let before = all();
	o.op(|| format!("{} (with {have}) pays {fee} including a tip of {tip}; author {:?}", who(&payer), author.as_ref().map(who)));
	let what = format!("fee {fee} (tip {tip}) of {} with {have}", who(&payer));
	let info = DispatchInfo::default();
	let post = PostDispatchInfo::default();
	let r = match o.guard(|| <Charge as OnChargeTransaction<Runtime>>::withdraw_fee(&payer, &call(), &info, fee, tip)) {
		Ok(r) => r,
		Err(p) => return o.violate(P, "panic", || format!("{what}: panicked: {p}")),
	};
	let possible = fee == 0 || have >= fee + ED;
	let paid = match r {
		Err(_) => {
			o.hit(P, "fee:refused-leaves-no-trace");
			if possible {
				o.violate(P, "fee-refused", || format!("{what}: refused"));
			}
			if all() != before {
				o.violate(P, "fee-refused-trace", || format!("{what}: refused, yet {}", diff(&before.0, &native())));
			}
			return
		},
		Ok(c) => c,
	};
	let mut want = before.0.clone();
	*want.get_mut(&payer).unwrap() -= fee.min(have);
	o.hit(P, "fee:withdrawn-from-payer-alone");
	let now = all();
	if !possible || now.0 != want || now.1 != before.1 {
		o.violate(P, "fee-withdrawn", || format!("{what}: {}", diff(&before.0, &now.0)));
	}
	dispatch(o, rng, &payer);
	let corrected = match rng.below(3) {
		0 => fee,
		1 => tip,
		_ => tip + rng.below128(fee - tip + 1),
	};
	let before = all();
	let r = o.guard(|| <Charge as OnChargeTransaction<Runtime>>::correct_and_deposit_fee(&payer, &info, &post, corrected, tip, paid));
	let what = format!("{what}, corrected to {corrected}, author {:?}", author.as_ref().map(who));
	match r {
		Err(p) => return o.violate(P, "panic", || format!("{what}: panicked: {p}")),
		Ok(Err(e)) => return o.violate(P, "fee-settling-failed", || format!("{what}: {e:?}")),
		Ok(Ok(())) => {},
	}
	let now = all();
	let mut want = before.0.clone();
	let mut burned = 0;
	let mut to_ops = corrected - tip;
	if before.0[&payer] == 0 {
		// a payer that is gone is not refunded: everything but the tip is revenue
		to_ops = fee - tip;
	} else {
		credit(&mut want, &payer, fee - corrected, ED);
	}
	if fee > 0 {
		if !credit(&mut want, &operations(), to_ops, ED) {
			burned += to_ops;
		}
		match &author {
			Some(a) if credit(&mut want, a, tip, ED) =>
				if tip > 0 {
					o.hit(P, "tip:to-author");
				},
			_ => burned += tip,
		}
	}
	o.hit(P, "fee:settled");
	if now.0 != want || now.1 != before.1 {
		o.violate(P, "fee-settled", || format!("{what}: {} rather than {}", diff(&before.0, &now.0), diff(&before.0, &want)));
	}
	// the fee left the issuance only while it was in flight
	let _ = burned;
}

fn pay_in_asset(o: &mut Obs, rng: &mut Rng, author: Option<AccountId>) {
	let payer = acc(rng.range(1, 6) as u8);
	let (at, id) = location(rng);
	if rng.chance(1, 25) {
		let gone = *rng.pick(&[PLMC_FOREIGN_ID, 10, 1984, 1337]);
		PRICES.with(|p| p.borrow_mut().remove(&gone));
	} else if rng.chance(1, 3) {
		set_price(rng, *rng.clone().pick(&[PLMC_FOREIGN_ID, 10, 1984, 1337]));
	}
	let decimals = id.map(|i| ASSETS.iter().find(|(x, _)| *x == i).unwrap().1).unwrap_or(0);
	let have = id.map(|i| <ForeignAssets as Inspects<AccountId>>::balance(i, &payer)).unwrap_or(0);
	let min = id.map(|i| <ForeignAssets as Inspects<AccountId>>::minimum_balance(i)).unwrap_or(0);
	// aim around what the payer can afford
	let rate = id.and_then(|i| convert(10_000_000_000, i, decimals)).map(|c| c.0).unwrap_or(1.0).max(1e-9);
	let affordable = ((have.saturating_sub(min)) as f64 / rate * 1e10) as u128;
	let fee = match rng.below(8) {
		0 => 0,
		1 => 1 + rng.below128(10),
		2 => affordable,
		3 => affordable.saturating_mul(2) + 1,
		4 => rng.edgy128(1_000_000_000_000),
		_ => rng.below128(affordable / 2 + 1),
	};
	let tip = if rng.chance(1, 2) { 0 } else { rng.below128(fee + 1) };
	let before = all();
	o.op(|| {
		format!(
			"{} (with {have} of {id:?}) pays a fee of {fee} PLMC including a tip of {tip} in {at:?} at {:?}/{:?}; author {:?}",
			who(&payer),
			price(PLMC_FOREIGN_ID),
			id.and_then(price),
			author.as_ref().map(who)
		)
	});
	let what = format!("fee {fee} PLMC (tip {tip}) in {id:?} of {} with {have} (minimum {min})", who(&payer));
	let info = DispatchInfo::default();
	let r = match o.guard(|| <ChargeAsset as OnChargeAssetTransaction<Runtime>>::withdraw_fee(&payer, &call(), &info, at, fee, tip)) {
		Ok(r) => r,
		Err(p) => return o.violate(P, "panic", || format!("{what}: panicked: {p}")),
	};
	let cost = id.and_then(|i| convert(fee, i, decimals));
	let paid = match r {
		Err(_) => {
			o.hit(P, "asset-fee:refused");
			if let Some((e, tol)) = cost {
				if e + tol < have as f64 - min as f64 {
					o.violate(P, "asset-fee-refused", || format!("{what}: refused though it costs about {e}"));
				}
			}
			if all() != before {
				o.violate(P, "asset-fee-refused-trace", || format!("{what}: refused, yet {}", diff(&before.0, &native())));
			}
			return
		},
		Ok(c) => c,
	};
	let Some((e, tol)) = cost else {
		return o.violate(P, "asset-fee-unpriced", || format!("{what}: accepted though {at:?} is not a fee asset with a price"))
	};
	let id = id.unwrap();
	let k = ASSETS.iter().position(|(x, _)| *x == id).unwrap();
	let now = all();
	let taken = before.1[k].1[&payer] - now.1[k].1[&payer].min(before.1[k].1[&payer]);
	let mut want = before.1.clone();
	want[k].1.insert(payer.clone(), have - taken);
	o.hit(P, "asset-fee:withdrawn");
	if now.0 != before.0 || now.1.iter().map(|x| &x.1).ne(want.iter().map(|x| &x.1)) {
		o.violate(P, "asset-fee-withdrawn", || format!("{what}: {} / {}", diff(&before.0, &now.0), diff(&before.1[k].1, &now.1[k].1)));
	}
	if (taken as f64 - e).abs() > tol {
		o.violate(P, "asset-fee-price", || format!("{what}: took {taken}, worth about {e} (± {tol})"));
	}
	if fee > 0 {
		o.hit(P, "asset-fee:one-unit-at-least");
		if taken == 0 {
			o.violate(P, "asset-fee-free", || format!("{what}: took nothing"));
		}
	}
	if taken > 0 && have - taken < min {
		o.violate(P, "asset-fee-below-minimum", || format!("{what}: left {}", have - taken));
	}
	dispatch(o, rng, &payer);
	let corrected = match rng.below(3) {
		0 => fee,
		1 => tip,
		_ => tip + rng.below128(fee - tip + 1),
	};
	let before = all();
	let post = PostDispatchInfo::default();
	let r = o.guard(|| {
		<ChargeAsset as OnChargeAssetTransaction<Runtime>>::correct_and_deposit_fee(&payer, &info, &post, corrected, tip, paid)
	});
	let what = format!("{what}, {taken} taken, corrected to {corrected}, author {:?}, at {:?}/{:?}", author.as_ref().map(who), price(PLMC_FOREIGN_ID), price(id));
	match r {
		Err(p) => return o.violate(P, "panic", || format!("{what}: panicked: {p}")),
		Ok(Err(e)) => return o.violate(P, "asset-fee-settling-failed", || format!("{what}: {e:?}")),
		Ok(Ok(_)) => {},
	}
	let now = all();
	o.hit(P, "asset-fee:settled");
	if now.0 != before.0 || (0..3).any(|i| i != k && now.1[i] != before.1[i]) {
		o.violate(P, "asset-fee-other-assets", || format!("{what}: {}", diff(&before.0, &now.0)));
	}
	let (b, n) = (&before.1[k].1, &now.1[k].1);
	let strangers: Vec<_> = everyone().into_iter().filter(|a| *a != payer && *a != operations() && Some(a) != author.as_ref() && b[a] != n[a]).collect();
	if !strangers.is_empty() || everyone().iter().any(|a| n[a] < b[a]) {
		o.violate(P, "asset-fee-strangers", || format!("{what}: {}", diff(b, n)));
		return
	}
	let (ce, ct) = convert(corrected, id, decimals).unwrap();
	let (te, tt) = convert(tip, id, decimals).unwrap();
	let cap = taken as f64;
	let charged_want = ce.min(cap);
	let tip_want = te.min(charged_want);
	let gain = |a: &AccountId| (n[a] - b[a]) as f64;
	let total: f64 = everyone().iter().map(gain).sum();
	let lost = cap - total;
	let distinct = author.as_ref().map_or(true, |a| *a != payer);
	// somebody cannot hold what they are due
	let fits = |a: &AccountId, x: f64| b[a] > 0 || x - tol - tt - 1.0 >= min as f64;
	let author_fits = tip == 0 || author.as_ref().map_or(false, |a| fits(a, tip_want));
	let payer_fits = fits(&payer, cap - charged_want);
	let ops_fits = fits(&operations(), charged_want - tip_want);
	if author_fits && payer_fits && ops_fits && lost.abs() > 0.5 {
		o.violate(P, "asset-fee-lost", || format!("{what}: {lost} vanished: {}", diff(b, n)));
	}
	if distinct {
		let slack = ct + 1.0;
		if payer_fits && (gain(&payer) - (cap - charged_want)).abs() > slack {
			o.violate(P, "asset-fee-refund", || format!("{what}: refunded {}, due about {} (± {slack})", gain(&payer), cap - charged_want));
		}
		if ops_fits && (gain(&operations()) - (charged_want - tip_want)).abs() > slack + tt {
			o.violate(P, "asset-fee-revenue", || format!("{what}: operations got {}, due about {}", gain(&operations()), charged_want - tip_want));
		}
		if let Some(a) = author.as_ref().filter(|_| author_fits) {
			if (gain(a) - tip_want).abs() > slack + tt {
				o.violate(P, "asset-fee-tip", || format!("{what}: the author got {}, due about {tip_want}", gain(a)));
			}
		}
		if corrected > 0 && taken > 0 && payer_fits && gain(&payer) > cap - 1.0 {
			o.violate(P, "asset-fee-free", || format!("{what}: everything was given back"));
		}
	}
}

fn weights(o: &mut Obs, rng: &mut Rng) {
	let t = rng.edgy128(2_000_000_000_000) as u64;
	let p = rng.edgy128(10_000_000) as u64;
	let got = Fee::weight_to_fee(&Weight::from_parts(t, p));
	// an extrinsic's base weight costs 0.0001 PLMC, 10 kB of proof 0.01 PLMC; the dearer counts
	let base = frame_support::weights::constants::ExtrinsicBaseWeight::get().ref_time() as f64;
	let time = t as f64 * 1_000_000.0 / base;
	let proof = p as f64 * 10_000.0;
	o.op(|| format!("weight {t}/{p} costs {got}"));
	o.hit(P, "weight-priced");
	let want = time.max(proof);
	if (got as f64 - want).abs() > 2.0 + want * 1e-4 {
		o.violate(P, "weight-price", || format!("weight {t}/{p} costs {got} rather than about {want}"));
	}
	let n = rng.edgy128(10_000_000) as u64;
	let got = Len::weight_to_fee(&Weight::from_parts(n, 0));
	if got != n as u128 * 100_000 {
		o.violate(P, "length-price", || format!("{n} bytes cost {got}"));
	}
}

fn dust(o: &mut Obs, rng: &mut Rng) {
	let from = acc(rng.range(1, 6) as u8);
	let to = acc(rng.range(1, 6) as u8);
	let have = Balances::total_balance(&from);
	let left = rng.edgy128(ED + 1);
	if from == to || have <= left || Balances::total_balance(&to) == 0 {
		return
	}
	let before = all();
	o.op(|| format!("{} sends {} of {have} to {}", who(&from), have - left, who(&to)));
	let r = o.guard(|| <Balances as Mutate<_>>::transfer(&from, &to, have - left, Preservation::Expendable));
	let what = format!("{} leaves {left}", who(&from));
	match r {
		Err(p) => return o.violate(P, "panic", || format!("{what}: panicked: {p}")),
		Ok(Err(_)) => return,
		Ok(Ok(_)) => {},
	}
	let mut want = before.0.clone();
	*want.get_mut(&to).unwrap() += have - left;
	let dust = if left < ED { left } else { 0 };
	want.insert(from, left - dust);
	credit(&mut want, &operations(), dust, ED);
	if dust > 0 {
		o.hit(P, "dust-to-operations");
	}
	let now = all();
	if now.0 != want || now.1 != before.1 {
		o.violate(P, "dust", || format!("{what}: {} rather than {}", diff(&before.0, &now.0), diff(&before.0, &want)));
	}
}

fn slashes(o: &mut Obs, rng: &mut Rng) {
	let x = 1 + rng.edgy128(5 * ED);
	let before = all();
	let loser = rng.chance(1, 2);
	o.op(|| format!("{x} {}", if loser { "lost by a candidate" } else { "slashed by democracy" }));
	let r = o.guard(|| {
		let c = <Balances as Balanced<AccountId>>::issue(x);
		if loser {
			<poly::w_pallet_elections_phragmen::LoserCandidate as OnUnbalanced<_>>::on_unbalanced(c)
		} else {
			<poly::w_pallet_democracy::Slash as OnUnbalanced<_>>::on_unbalanced(c)
		}
	});
	if let Err(p) = r {
		return o.violate(P, "panic", || format!("slash of {x}: panicked: {p}"))
	}
	let mut want = before.0.clone();
	credit(&mut want, &growth(), x, ED);
	o.hit(P, "slash-to-growth");
	let now = all();
	if now.0 != want {
		o.violate(P, "slash", || format!("slash of {x}: {} rather than {}", diff(&before.0, &now.0), diff(&before.0, &want)));
	}
}

fn electorate(o: &mut Obs, _: &mut Rng) {
	use crate::env::pallet_democracy::GetElectorate;
	let got = <poly::w_pallet_democracy::Electorate as GetElectorate<u128>>::get_electorate();
	let want = Balances::total_issuance() - Balances::total_balance(&operations()) - Balances::total_balance(&growth());
	o.hit(P, "electorate");
	if got != want {
		o.violate(P, "electorate", || format!("the electorate is {got}, not the {want} outside both treasuries"));
	}
	let payers = [
		<poly::w_pallet_parachain_staking::PayMaster as Get<AccountId>>::get(),
		<poly::w_pallet_funding::BlockchainOperationTreasury as Get<AccountId>>::get(),
	];
	if payers.iter().any(|p| *p != operations()) || crate::env::Treasury::account_id() != growth() {
		o.violate(P, "treasuries", || format!("collators are paid by, and project fees go to, {payers:?}"));
	}
}
