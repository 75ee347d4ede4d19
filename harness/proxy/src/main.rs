//! Monitors for pallet-proxy-bonding: a ledger of every bond and fee per derivation path and
//! hold reason against all native and fee-asset balances after every operation.
use frame_support::{
	derive_impl, parameter_types,
	storage::with_storage_layer,
	traits::{
		fungible::InspectHold,
		fungibles::{metadata::Mutate as _, Create, Inspect, Mutate},
		VariantCount,
	},
	PalletId,
};
use mon::{hash_debug, Obs, PropInfo, Rng};
use pallet_proxy_bonding::{self as pb, ReleaseType};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use polimec_common::ProvideAssetPrice;
use scale_info::TypeInfo;
use sp_runtime::{
	traits::{AccountIdConversion, IdentityLookup},
	BuildStorage, DispatchError, DispatchResult, FixedU128, Perbill,
};
use std::{cell::RefCell, collections::BTreeMap};

frame_support::construct_runtime!(
	pub enum Test {
		System: frame_system = 0,
		Balances: pallet_balances = 1,
		Assets: mini_assets = 2,
		Proxy: pb = 3,
	}
);
type Block = frame_system::mocking::MockBlock<Test>;
/// Wide enough that sub-accounts of different derivation paths differ.
type Acc = u128;

#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, Hash, MaxEncodedLen, TypeInfo, Ord, PartialOrd, serde::Serialize, serde::Deserialize)]
pub enum Reason {
	Participation,
	Evaluation,
}
use Reason::*;
impl VariantCount for Reason {
	const VARIANT_COUNT: u32 = 2;
}
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = Acc;
	type Block = Block;
	type Lookup = IdentityLookup<Self::AccountId>;
}
parameter_types! {
	pub static Ed: u128 = 10_000_000;
	pub static Fee: Perbill = Perbill::from_perthousand(75);
	pub const Treasury: Acc = 555;
	pub const Recipient: Acc = 777;
	pub const Root: PalletId = PalletId(*b"treasury");
	pub const Decimals: u8 = 10;
	pub const UsdDecimals: u8 = 6;
	pub const Native: u32 = 3344;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Test {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = Ed;
	type RuntimeHoldReason = Reason;
}
impl mini_assets::Config for Test {}
thread_local! {
	static PRICES: RefCell<BTreeMap<u32, u128>> = RefCell::new(BTreeMap::new());
}
pub struct Prices;
impl ProvideAssetPrice for Prices {
	type AssetId = u32;
	type Price = FixedU128;
	fn get_price(id: u32) -> Option<FixedU128> {
		PRICES.with(|p| p.borrow().get(&id).map(|micro| FixedU128::from_inner(*micro * 1_000_000_000_000)))
	}
}
impl pb::Config for Test {
	type BondingToken = Balances;
	type BondingTokenDecimals = Decimals;
	type BondingTokenId = Native;
	type FeePercentage = Fee;
	type FeeRecipient = Recipient;
	type FeeToken = Assets;
	type Id = PalletId;
	type PriceProvider = Prices;
	type RootId = Root;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = Reason;
	type Treasury = Treasury;
	type UsdDecimals = UsdDecimals;
}

const B: &str = "C25";
const F: &str = "C26";
const USERS: u128 = 4;
const PATHS: u32 = 3;
const ASSETS: [(u32, u8, u128); 3] = [(1984, 6, 10_000), (1337, 6, 100), (10, 10, 1_000_000)];

fn sub(p: u32) -> Acc {
	Root::get().into_sub_account_truncating(p + 1)
}
fn micro(id: u32) -> Option<u128> {
	PRICES.with(|p| p.borrow().get(&id).copied())
}
/// The fee in units of the asset, and the rounding it may suffer.
fn fee(bond: u128, asset: u32) -> Option<(u128, u128)> {
	let (pn, pa) = (micro(Native::get())?, micro(asset)?);
	let dec = ASSETS.iter().find(|a| a.0 == asset).unwrap().1 as u32;
	if pa == 0 {
		return None;
	}
	// micro-USD of the bond, then the share, then the asset
	let usd = bond * pn / 10u128.pow(10);
	let part = usd * Fee::get().deconstruct() as u128 / 1_000_000_000;
	let f = part * 10u128.pow(dec) / pa;
	let tol = 2 + 2 * 10u128.pow(dec) / pa + f / 1_000_000_000;
	Some((f, tol))
}
fn near(a: u128, b: u128, tol: u128) -> bool {
	a.abs_diff(b) <= tol
}
fn tok(asset: u32, a: Acc) -> u128 {
	Assets::balance(asset, &a)
}
type View = (BTreeMap<Acc, (u128, u128, u128)>, BTreeMap<(u32, Acc), u128>, Vec<Option<ReleaseType<u64>>>);
fn everyone() -> Vec<Acc> {
	let mut v: Vec<Acc> = (1..=USERS).collect();
	v.extend([Treasury::get(), Recipient::get()]);
	v.extend((0..PATHS).map(sub));
	v
}
fn view() -> View {
	let e = everyone();
	(
		e.iter()
			.map(|a| (*a, (Balances::free_balance(a), Balances::balance_on_hold(&Participation, a), Balances::balance_on_hold(&Evaluation, a))))
			.collect(),
		e.iter().flat_map(|a| ASSETS.iter().map(move |t| ((t.0, *a), tok(t.0, *a)))).collect(),
		(0..PATHS).flat_map(|p| [pb::Releases::<Test>::get(p, Participation), pb::Releases::<Test>::get(p, Evaluation)]).collect(),
	)
}

#[derive(Clone, Debug)]
struct Bond {
	user: Acc,
	amount: u128,
	asset: u32,
	paid: u128,
	reason: Reason,
	refunded: bool,
	/// prices when the fee was paid
	at: (u128, u128),
}
#[derive(Default)]
struct Model {
	bonded: BTreeMap<(u32, Reason), u128>,
	pool: BTreeMap<(u32, u32), u128>,
	bonds: BTreeMap<u32, Vec<Bond>>,
	release: BTreeMap<(u32, Reason), ReleaseType<u64>>,
}

fn call(c: pb::Call<Test>, who: Acc) -> DispatchResult {
	use sp_runtime::traits::Dispatchable;
	RuntimeCall::Proxy(c).dispatch(RuntimeOrigin::signed(who)).map(|_| ()).map_err(|e| e.error)
}
fn is(e: &DispatchError, x: pb::Error<Test>) -> bool {
	*e == DispatchError::from(x)
}

fn random_history(seed: u64, o: &mut Obs) {
	let mut rng = Rng::new(seed);
	Ed::set(*rng.pick(&[1, 10_000_000, 100_000_000]));
	Fee::set(Perbill::from_parts(*rng.pick(&[75_000_000, 75_000_000, 50_000_000, 10_000_000, 333_333_333])));
	let moving = rng.chance(1, 4);
	let two_reasons = rng.chance(1, 4);
	PRICES.with(|p| {
		let mut p = p.borrow_mut();
		p.clear();
		p.insert(Native::get(), rng.range128(100_000, 20_000_000));
		p.insert(1984, *rng.pick(&[1_000_000, 1_000_000, 998_700, 1_012_345]));
		p.insert(1337, *rng.pick(&[1_000_000, 970_000, 1_000_100]));
		p.insert(10, rng.range128(2_000_000, 90_000_000));
	});
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let unit = 10_000_000_000u128;
	let treasury = *rng.pick(&[unit * 2_000, unit * 500_000, unit * 100_000_000]);
	let mut balances: Vec<(Acc, u128)> = vec![(Treasury::get(), treasury), (Recipient::get(), Ed::get() * 2)];
	for u in 1..=USERS {
		if rng.chance(3, 4) {
			balances.push((u, Ed::get() * 3 + rng.below128(unit)));
		}
	}
	pallet_balances::GenesisConfig::<Test> { balances }.assimilate_storage(&mut st).unwrap();
	let mut ext = sp_io::TestExternalities::new(st);
	ext.execute_with(|| {
		System::set_block_number(1);
		for (id, dec, min) in ASSETS {
			<Assets as Create<Acc>>::create(id, 9, true, min).unwrap();
			Assets::set(id, &9, vec![], vec![], dec).unwrap();
			for u in 1..=USERS {
				let x = match rng.below(5) {
					0 => min + rng.below128(2_000_000),
					_ => rng.range128(100, 3_000_000) * 10u128.pow(dec as u32),
				};
				let _ = Assets::mint_into(id, &u, x);
			}
		}
		let mut m = Model::default();
		let steps = rng.range(30, 80);
		for _ in 0..steps {
			if o.stop() {
				return;
			}
			step(&mut rng, o, &mut m, moving, two_reasons);
			watch(o, &m);
		}
	});
}

/// The whole economy must look like `before` with exactly the listed changes.
fn exactly(o: &mut Obs, props: &[&str], what: &str, before: &View, native: &[(Acc, i128)], holds: &[(Acc, Reason, i128)], toks: &[(u32, Acc, i128)]) {
	let mut want = before.clone();
	for (a, d) in native {
		let e = &mut want.0.get_mut(a).unwrap().0;
		*e = (*e as i128 + d) as u128;
	}
	for (a, r, d) in holds {
		let e = want.0.get_mut(a).unwrap();
		let e = if *r == Participation { &mut e.1 } else { &mut e.2 };
		*e = (*e as i128 + d) as u128;
	}
	for (t, a, d) in toks {
		let e = want.1.get_mut(&(*t, *a)).unwrap();
		*e = (*e as i128 + d) as u128;
	}
	let got = view();
	if got.0 != want.0 {
		let diff: Vec<_> = got.0.iter().filter(|(a, v)| want.0[a] != **v).map(|(a, v)| format!("{a}: {v:?}, expected {:?}", want.0[a])).collect();
		o.violate(props, "native-money", || format!("{what}: (free, held, held) {diff:?}"));
	}
	if got.1 != want.1 {
		let diff: Vec<_> = got.1.iter().filter(|(a, v)| want.1[a] != **v).map(|(a, v)| format!("{a:?}: {v}, expected {}", want.1[a])).collect();
		o.violate(props, "fee-money", || format!("{what}: {diff:?}"));
	}
}

fn step(rng: &mut Rng, o: &mut Obs, m: &mut Model, moving: bool, two_reasons: bool) {
	let now = System::block_number();
	let p = rng.below(PATHS as u64) as u32;
	let r = if two_reasons && rng.chance(1, 2) { Evaluation } else { Participation };
	let user = rng.range128(1, USERS);
	let (asset, dec, min) = *rng.pick(&ASSETS);
	let before = view();
	let ed = Ed::get();
	let same = |o: &mut Obs, props: &[&str], what: &str, e: &DispatchError| {
		o.count("refused");
		if view() != before {
			o.violate(props, "refused-but-changed", || format!("{what} failed with {e:?} but something changed"));
		}
	};
	let settled = m.release.contains_key(&(p, r));
	match rng.below(12) {
		0..=4 if !settled => {
			let amount = match rng.below(6) {
				0 => rng.range128(1, 1_000_000),
				1 => rng.range128(1, 100) * 10_000_000_000,
				_ => rng.range128(1_000_000, 30_000_000_000_000),
			};
			o.op(|| format!("[{now}] {user} has {amount} bonded on its behalf on path {p} for {r:?}, paying in {asset}"));
			let what = format!("[{now}] bond of {amount} on path {p} for {r:?} by {user} paying in {asset}");
			let res = with_storage_layer(|| Proxy::bond_on_behalf_of(p, user, amount, asset, r));
			let want = fee(amount, asset);
			let s = sub(p);
			let need_ed = before.0[&s].0 < ed;
			match res {
				Ok(()) => {
					let Some((f, tol)) = want else {
						o.violate(&[F], "bond-without-price", || what.clone());
						return;
					};
					o.hit(&[B, F], "bonded");
					let paid = before.1[&(asset, user)].saturating_sub(tok(asset, user));
					if !near(paid, f, tol) {
						o.violate(&[F], "fee-amount", || format!("{what}: {f} is the fee, {paid} was paid (tolerance {tol})"));
					}
					if tok(asset, user) < min {
						o.violate(&[F], "fee-overdraft", || format!("{what}: leaves {} (minimum {min})", tok(asset, user)));
					}
					let e = if need_ed { ed as i128 } else { 0 };
					exactly(
						o,
						&[B, F],
						&what,
						&before,
						&[(Treasury::get(), -(amount as i128) - e), (s, e)],
						&[(s, r, amount as i128)],
						&[(asset, user, -(paid as i128)), (asset, s, paid as i128)],
					);
					*m.bonded.entry((p, r)).or_default() += amount;
					*m.pool.entry((p, asset)).or_default() += paid;
					let at = (micro(Native::get()).unwrap(), micro(asset).unwrap());
					m.bonds.entry(p).or_default().push(Bond { user, amount, asset, paid, reason: r, refunded: false, at });
				},
				Err(e) => {
					same(o, &[B, F], &what, &e);
					if want.is_none() {
						o.hit(&[F], "no-price-no-bond");
						return;
					}
					let (f, tol) = want.unwrap();
					let rich = before.1[&(asset, user)] >= f + tol + min;
					let sub_ok = before.1[&(asset, s)] >= min || f >= min + tol;
					let treasury_ok = before.0[&Treasury::get()].0 >= amount + 2 * ed;
					if rich && sub_ok && treasury_ok && !(need_ed && before.0[&s].0 > 0) {
						o.violate(&[B], "bond-refused", || format!("{what}: {e:?}, the fee is {f} of {}, the treasury has {}", before.1[&(asset, user)], before.0[&Treasury::get()].0));
					}
					if !rich {
						o.hit(&[F], "poor-user-refused");
					}
					if !treasury_ok {
						o.hit(&[B], "poor-treasury-refused");
					}
				},
			}
		},
		5 if !settled && m.bonds.get(&p).map(|b| b.len() > 1).unwrap_or(false) => {
			let t = if rng.chance(1, 2) { ReleaseType::Refunded } else { ReleaseType::Locked(now + rng.below(12)) };
			// funding settles a path one way for every participation in it
			for r in if two_reasons { vec![Participation, Evaluation] } else { vec![r] } {
				o.op(|| format!("[{now}] path {p} {r:?} is released as {t:?}"));
				Proxy::set_release_type(p, r, t.clone());
				m.release.insert((p, r), t.clone());
			}
			exactly(o, &[B], "setting the release type", &before, &[], &[], &[]);
		},
		6 | 7 => {
			let who = if rng.chance(1, 3) { 9 } else { user };
			o.op(|| format!("[{now}] {who} sends the bonds of path {p} {r:?} back"));
			let what = format!("[{now}] bonds of path {p} {r:?} back to the treasury ({:?})", m.release.get(&(p, r)));
			let res = call(pb::Call::transfer_bonds_back_to_treasury { derivation_path: p, hold_reason: r }, who);
			let open = match m.release.get(&(p, r)) {
				None => false,
				Some(ReleaseType::Refunded) => true,
				Some(ReleaseType::Locked(b)) => *b <= now,
			};
			match res {
				Ok(()) => {
					o.hit(&[B], "bonds-back");
					if !open {
						o.violate(&[B], "bonds-back-early", || what.clone());
					}
					let x = m.bonded.remove(&(p, r)).unwrap_or(0);
					if matches!(m.release.get(&(p, r)), Some(ReleaseType::Locked(_))) {
						o.count("bonds-back-after-lock");
					}
					let others: u128 = m.bonded.iter().filter(|(k, _)| k.0 == p).map(|(_, v)| v).sum();
					let s = sub(p);
					let left = Balances::free_balance(s);
					let had = before.0[&s].0;
					if others == 0 && had > 0 && left == had {
						// documented: "it will transfer everything including ED back to the treasury"
						o.violate(&[B], "existential-deposit-kept", || format!("{what}: nothing is bonded anymore, {left} stays in the sub-account"));
						exactly(o, &[B], &what, &before, &[(Treasury::get(), x as i128)], &[(s, r, -(x as i128))], &[]);
					} else if others == 0 {
						exactly(o, &[B], &what, &before, &[(Treasury::get(), (x + had - left) as i128), (s, left as i128 - had as i128)], &[(s, r, -(x as i128))], &[]);
					} else {
						exactly(o, &[B], &what, &before, &[(Treasury::get(), x as i128)], &[(s, r, -(x as i128))], &[]);
					}
				},
				Err(e) => {
					same(o, &[B], &what, &e);
					if open {
						if m.bonded.get(&(p, r)).copied().unwrap_or(0) > 0 {
							o.violate(&[B], "bonds-stuck", || format!("{what}: {e:?}"));
						}
					} else {
						o.hit(&[B], "bonds-kept");
						let want = if m.release.contains_key(&(p, r)) { pb::Error::TooEarlyToUnlock } else { pb::Error::ReleaseTypeNotSet };
						if !is(&e, want) {
							o.count("other-error");
						}
					}
				},
			}
		},
		8 => {
			let who = if rng.chance(1, 3) { 9 } else { user };
			o.op(|| format!("[{now}] {who} sends the {asset} fees of path {p} {r:?} to the recipient"));
			let what = format!("[{now}] {asset} fees of path {p} {r:?} to the recipient ({:?})", m.release.get(&(p, r)));
			let locked = matches!(m.release.get(&(p, r)), Some(ReleaseType::Locked(_)));
			let s = sub(p);
			match call(pb::Call::transfer_fees_to_recipient { derivation_path: p, hold_reason: r, fee_asset: asset }, who) {
				Ok(()) => {
					o.hit(&[F], "fees-to-recipient");
					if !locked {
						o.violate(&[F], "fees-taken", || what.clone());
					}
					let x = m.pool.remove(&(p, asset)).unwrap_or(0);
					if x > 0 {
						o.count("fees-moved");
					}
					exactly(o, &[F], &what, &before, &[], &[], &[(asset, s, -(x as i128)), (asset, Recipient::get(), x as i128)]);
				},
				Err(e) => {
					same(o, &[F], &what, &e);
					let x = m.pool.get(&(p, asset)).copied().unwrap_or(0);
					if locked && x >= min {
						o.violate(&[F], "fees-stuck", || format!("{what}: {e:?}, {x} waiting"));
					}
					if !locked {
						o.hit(&[F], "fees-kept");
					}
				},
			}
		},
		9 | 10 => {
			// funding refunds the fee of one failed participation
			if m.release.get(&(p, r)) != Some(&ReleaseType::Refunded) {
				return;
			}
			let Some(b) = m.bonds.get_mut(&p) else { return };
			let open: Vec<usize> = (0..b.len()).filter(|i| !b[*i].refunded && b[*i].reason == r).collect();
			if open.is_empty() {
				return;
			}
			let i = *rng.pick(&open);
			let x = b[i].clone();
			o.op(|| format!("[{now}] the fee of {x:?} on path {p} is refunded"));
			let what = format!("[{now}] refund of {x:?} on path {p}");
			let res = with_storage_layer(|| Proxy::refund_fee(p, &x.user, x.amount, x.asset));
			let s = sub(p);
			let moved = x.at != (micro(Native::get()).unwrap_or(0), micro(x.asset).unwrap_or(0));
			let (tok_min, pool) = (ASSETS.iter().find(|a| a.0 == x.asset).unwrap().2, m.pool.get(&(p, x.asset)).copied().unwrap_or(0));
			match res {
				Ok(()) => {
					o.hit(&[F], "fee-refunded");
					m.bonds.get_mut(&p).unwrap()[i].refunded = true;
					let got = tok(x.asset, x.user) - before.1[&(x.asset, x.user)];
					// a remainder below the minimum balance leaves with the last refund
					let dust_ok = got > x.paid && pool == got && got - x.paid < tok_min;
					if got != x.paid && !dust_ok {
						let at_now = fee(x.amount, x.asset).map(|(f, t)| near(got, f, t)).unwrap_or(false) || (pool == got && got - fee(x.amount, x.asset).map(|f| f.0).unwrap_or(0) < tok_min);
						if moved && at_now {
							o.violate(&[F], "refund-at-current-price", || format!("{what}: {} was paid, {got} refunded", x.paid));
						} else {
							o.violate(&[F], "refund-amount", || format!("{what}: {} was paid, {got} refunded", x.paid));
						}
					}
					if !moved {
						o.count("refund-at-same-price");
					}
					*m.pool.entry((p, x.asset)).or_default() -= got;
					exactly(o, &[F], &what, &before, &[], &[], &[(x.asset, s, -(got as i128)), (x.asset, x.user, got as i128)]);
				},
				Err(e) => {
					same(o, &[F], &what, &e);
					if before.1[&(x.asset, x.user)] >= tok_min || x.paid >= tok_min {
						let needs = fee(x.amount, x.asset);
						if moved {
							o.violate(&[F], "refund-at-current-price", || format!("{what}: refused with {e:?}; the fee is {needs:?} at today's price, {pool} in the pool"));
							m.bonds.get_mut(&p).unwrap()[i].refunded = true;
						} else if pool >= x.paid {
							o.violate(&[F], "refund-refused", || format!("{what}: {e:?}, {pool} in the pool"));
						}
					}
				},
			}
		},
		_ => {
			if moving && rng.chance(1, 3) {
				let id = *rng.pick(&[Native::get(), asset]);
				PRICES.with(|pr| {
					let mut pr = pr.borrow_mut();
					if rng.chance(1, 8) {
						pr.remove(&id);
					} else {
						let old = pr.get(&id).copied().unwrap_or(1_000_000);
						pr.insert(id, (old * rng.range128(50, 200) / 100).max(10_000));
					}
				});
				o.op(|| format!("[{now}] the price of {id} becomes {:?} micro-USD", micro(id)));
			} else if rng.chance(1, 3) {
				let x = rng.range128(1, 1_000_000) * 10u128.pow(dec as u32);
				o.op(|| format!("[{now}] {user} receives {x} of {asset}"));
				let _ = Assets::mint_into(asset, &user, x);
			} else {
				let n = rng.range(1, 5);
				o.op(|| format!("[{now}] {n} blocks pass"));
				System::set_block_number(now + n);
			}
		},
	}
}

fn watch(o: &mut Obs, m: &Model) {
	for p in 0..PATHS {
		let s = sub(p);
		for r in [Participation, Evaluation] {
			let want = m.bonded.get(&(p, r)).copied().unwrap_or(0);
			if want > 0 {
				o.hit(&[B], "bond-covered");
			}
			if Balances::balance_on_hold(&r, &s) != want {
				o.violate(&[B], "bond-not-held", || format!("path {p} {r:?}: {want} is bonded, {} held", Balances::balance_on_hold(&r, &s)));
			}
		}
		for (a, ..) in ASSETS {
			let want = m.pool.get(&(p, a)).copied().unwrap_or(0);
			if want > 0 {
				o.hit(&[F], "pool-covered");
			}
			if tok(a, s) != want {
				o.violate(&[F], "pool", || format!("path {p}: {want} of {a} was paid and not yet moved, {} is there", tok(a, s)));
			}
		}
	}
	let v = view();
	o.state(hash_debug(&(v.0, v.1)));
}

fn main() {
	const A: &[&str] = &["pallet-balances and frame (registry crates) behave as documented", "fee assets follow pallet-assets' rules (mini-assets stand-in: pallet-assets is not in this sandbox)", "holds on the histories generated from this seed"];
	let props = [
		PropInfo { id: B, rule: "a history is 30-80 proxy bonds, release settings, bond and fee transfers, refunds, price moves and block jumps over 3 derivation paths, 4 users, 3 fee assets; non-trivial when the bonded amounts were compared with the ledger around an operation", required: &["bonded", "bonds-back", "bonds-kept", "bonds-back-after-lock", "bond-covered", "poor-treasury-refused"], quick: 8_000, thorough: 1_500_000, assumptions: A },
		PropInfo { id: F, rule: "as C25; non-trivial when a fee charged, moved or refunded was compared with the ledger", required: &["bonded", "fees-to-recipient", "fees-kept", "fee-refunded", "refund-at-same-price", "pool-covered", "poor-user-refused", "no-price-no-bond"], quick: 8_000, thorough: 1_500_000, assumptions: A },
	];
	mon::main_with(&props, &[], random_history)
}
