//! Monitors for on-slash-vesting: the vesting lock and schedules of every account before and
//! after each slash (real balances and vesting pallets), and the release of the remaining
//! funds over the blocks that follow.
use frame_support::{
	derive_impl, parameter_types,
	traits::{
		fungible::{BalancedHold, InspectHold, Mutate, MutateHold},
		VariantCount, WithdrawReasons,
	},
};
use mon::{hash_debug, Obs, PropInfo, Rng};
use on_slash_vesting::OnSlash;
use pallet_vesting::VestingInfo;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::{traits::{ConvertInto, IdentityLookup}, BuildStorage};
use std::{cell::RefCell, collections::BTreeMap};

frame_support::construct_runtime!(
	pub enum Test {
		System: frame_system = 0,
		Balances: pallet_balances = 1,
		Vesting: pallet_vesting = 2,
	}
);
type Block = frame_system::mocking::MockBlock<Test>;

#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo, Ord, PartialOrd, serde::Serialize, serde::Deserialize)]
pub enum Reason {
	Evaluation,
	Other,
}
impl VariantCount for Reason {
	const VARIANT_COUNT: u32 = 2;
}
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = u64;
	type Block = Block;
	type Lookup = IdentityLookup<Self::AccountId>;
}
parameter_types! {
	pub const MinVestedTransfer: u128 = 1;
	pub UnvestedFundsAllowedWithdrawReasons: WithdrawReasons =
		WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
	pub static Ed: u128 = 1;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Test {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = Ed;
	type RuntimeHoldReason = Reason;
}
impl pallet_vesting::Config for Test {
	type BlockNumberProvider = System;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = MinVestedTransfer;
	type RuntimeEvent = RuntimeEvent;
	type UnvestedFundsAllowedWithdrawReasons = UnvestedFundsAllowedWithdrawReasons;
	type WeightInfo = ();

	const MAX_VESTING_SCHEDULES: u32 = 6;
}

thread_local! {
	static TOLD: RefCell<Vec<(u8, u64, u128)>> = const { RefCell::new(vec![]) };
}
struct Rec<const K: u8>;
impl<const K: u8> OnSlash<u64, u128> for Rec<K> {
	fn on_slash(a: &u64, x: u128) {
		TOLD.with(|t| t.borrow_mut().push((K, *a, x)));
	}
}
type Wired = (Rec<1>, Vesting, Rec<2>);

const L: &str = "C21";
const T: &str = "C22";
const USERS: u64 = 5;
const FAUCET: u64 = 50;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Sch {
	locked: u128,
	per: u128,
	start: u64,
}
impl Sch {
	fn rem(&self, t: u64) -> u128 {
		let k = t.saturating_sub(self.start) as u128;
		self.locked.saturating_sub(k.saturating_mul(self.per.max(1)))
	}
	fn end(&self) -> u64 {
		let p = self.per.max(1);
		let d = self.locked / p + (self.locked % p != 0) as u128;
		self.start.saturating_add(d.max(1).min(u64::MAX as u128) as u64)
	}
}
fn schedules(a: u64) -> Vec<Sch> {
	pallet_vesting::Vesting::<Test>::get(a)
		.map(|v| v.iter().map(|s| Sch { locked: s.locked(), per: s.per_block(), start: s.starting_block() }).collect())
		.unwrap_or_default()
}
fn lock(a: u64) -> u128 {
	Balances::locks(a).iter().filter(|l| l.id == *b"vesting ").map(|l| l.amount).sum()
}
type Acc = (u128, u128, u128, Vec<Sch>);
fn view(a: u64) -> Acc {
	(Balances::free_balance(a), Balances::balance_on_hold(&Reason::Evaluation, &a), lock(a), schedules(a))
}

fn random_history(seed: u64, o: &mut Obs) {
	let mut rng = Rng::new(seed);
	let scale = *rng.pick(&[60u128, 1_000, 50_000, 10_000_000_000, 4_000_000_000_000_000]);
	let ed = if rng.chance(1, 4) { scale / 20 + 1 } else { 1 };
	Ed::set(ed);
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut balances: Vec<(u64, u128)> = (1..=USERS).map(|a| (a, ed + rng.below128(scale))).collect();
	balances.push((FAUCET, scale.saturating_mul(1 << 20)));
	pallet_balances::GenesisConfig::<Test> { balances }.assimilate_storage(&mut st).unwrap();
	let mut ext = sp_io::TestExternalities::new(st);
	ext.execute_with(|| {
		System::set_block_number(1);
		// per account: the releases promised by the schedules as (schedule, slashed so far)
		let mut promised: BTreeMap<u64, Vec<(Sch, u128)>> = BTreeMap::new();
		let steps = rng.range(30, 90);
		for _ in 0..steps {
			if o.stop() {
				return;
			}
			let now = System::block_number();
			let a = rng.range(1, USERS);
			match rng.below(10) {
				0..=2 => {
					// a new schedule: running, starting later, a cliff, or slow
					let locked = match rng.below(5) {
						0 => rng.range128(1, 30),
						_ => rng.range128(1, scale),
					};
					let per = match rng.below(6) {
						0 => 1,
						1 => locked,
						2 => locked.saturating_mul(2),
						3 => (locked / 3).max(1),
						_ => (locked / rng.range128(1, 60)).max(1),
					};
					let start = match rng.below(4) {
						0 => now.saturating_sub(rng.below(4)),
						1 => now + rng.below(40),
						_ => now,
					};
					let s = Sch { locked, per, start };
					let n = schedules(a).len();
					o.op(|| format!("[{now}] {a} receives {s:?}"));
					let ok = Vesting::vested_transfer(RuntimeOrigin::signed(FAUCET), a, VestingInfo::new(locked, per, start)).is_ok();
					if ok {
						o.count("vested_transfer:ok");
						if n >= 2 {
							o.count("several-schedules");
						}
						// accepting a schedule also drops the finished ones
						let p = promised.entry(a).or_default();
						p.retain(|(s, x)| s.rem(now) > *x);
						p.push((s, 0));
					}
				},
				3 | 4 => {
					let n = if rng.chance(1, 5) { rng.range(5, 70) } else { rng.range(1, 4) };
					o.op(|| format!("[{now}] {n} blocks pass"));
					System::set_block_number(now + n);
				},
				5 => {
					o.op(|| format!("[{now}] {a} claims"));
					let _ = Vesting::vest(RuntimeOrigin::signed(a));
					let now = System::block_number();
					if let Some(p) = promised.get_mut(&a) {
						p.retain(|(s, x)| s.rem(now) > *x);
					}
				},
				6 => {
					let x = rng.below128(scale) + 1;
					o.op(|| format!("[{now}] {a} puts {x} on hold"));
					let _ = Balances::hold(&Reason::Evaluation, &a, x);
				},
				7 => {
					let b = rng.range(1, USERS);
					let x = rng.below128(scale) + 1;
					o.op(|| format!("[{now}] {a} pays {b} {x}"));
					let _ = <Balances as Mutate<u64>>::transfer(&a, &b, x, frame_support::traits::tokens::Preservation::Preserve);
				},
				_ => {
					let held = Balances::balance_on_hold(&Reason::Evaluation, &a);
					let want = match rng.below(8) {
						0 => 0,
						1 => held,
						2 => held / 3,
						3 => {
							// leave a crumb of some schedule
							let s = schedules(a);
							if s.is_empty() { held / 2 } else { rng.pick(&s).rem(now).saturating_sub(rng.below128(6)) }
						},
						4 => rng.below128(8),
						_ => rng.below128(held + 1),
					}
					.min(held);
					slash(o, a, want, &mut promised, rng.chance(1, 2));
				},
			}
			watch(o, &mut promised);
		}
		// everything finally vests
		if !o.stop() {
			let far = (1..=USERS).flat_map(|a| schedules(a)).map(|s| s.end()).max().unwrap_or(1).max(System::block_number());
			System::set_block_number(far);
			for a in 1..=USERS {
				let _ = Vesting::vest(RuntimeOrigin::signed(a));
				o.hit(&[T], "all-vested-in-the-end");
				if lock(a) != 0 {
					o.violate(&[T, L], "never-vests", || format!("{a} still has {} locked at {far}: {:?}", lock(a), schedules(a)));
				}
			}
		}
	});
}

fn slash(o: &mut Obs, a: u64, want: u128, promised: &mut BTreeMap<u64, Vec<(Sch, u128)>>, through_tuple: bool) {
	let now = System::block_number();
	o.op(|| format!("[{now}] {a} is slashed {want} of its held funds ({:?})", view(a)));
	let (credit, _) = <Balances as BalancedHold<u64>>::slash(&Reason::Evaluation, &a, want);
	drop(credit);
	let before: BTreeMap<u64, Acc> = (1..=USERS).map(|u| (u, view(u))).collect();
	TOLD.with(|t| t.borrow_mut().clear());
	let r = o.guard(|| {
		if through_tuple {
			<Wired as OnSlash<u64, u128>>::on_slash(&a, want)
		} else {
			<Vesting as OnSlash<u64, u128>>::on_slash(&a, want)
		}
	});
	let old = before[&a].3.clone();
	let what = format!("[{now}] {a} slashed {want} with {old:?}");
	if let Err(p) = r {
		o.violate(&[L, T], "panic", || format!("{what}: panicked: {p}"));
		o.inconclusive(format!("panic outside the property: {p}"));
		return;
	}
	o.count(if old.is_empty() { "slash:without-vesting" } else { "slash:with-vesting" });
	if old.iter().any(|s| s.start > now) {
		o.count("slash:before-start");
	}
	if old.iter().any(|s| s.rem(now) == 0) {
		o.count("slash:ended-unclaimed");
	}
	if through_tuple {
		let t = TOLD.with(|t| t.borrow().clone());
		o.hit(&[L], "every-listener-told-once");
		if t != vec![(1, a, want), (2, a, want)] {
			o.violate(&[L], "listeners", || format!("{what}: listeners were told {t:?}"));
		}
	}
	let after: BTreeMap<u64, Acc> = (1..=USERS).map(|u| (u, view(u))).collect();
	for u in 1..=USERS {
		let (x, y) = (&before[&u], &after[&u]);
		if u != a && x != y {
			o.violate(&[L], "bystander", || format!("{what}: account {u} went from {x:?} to {y:?}"));
		}
		if x.0 != y.0 || x.1 != y.1 {
			o.violate(&[L], "balances", || format!("{what}: balances of {u} went from {x:?} to {y:?}"));
		}
	}
	// the lock: per schedule, what was still unvested minus the slash
	let want_left: Vec<u128> = old.iter().map(|s| s.rem(now).saturating_sub(want)).filter(|x| *x > 0).collect();
	let new = &after[&a].3;
	let got_left: Vec<u128> = new.iter().map(|s| s.rem(now)).collect();
	if !old.is_empty() {
		o.hit(&[L], "lock-after-slash");
		if !want_left.is_empty() {
			o.hit(&[L], "lock-remains");
		}
		if old.len() > 1 {
			o.count("slash:several-schedules");
		}
	}
	let dust = old.iter().any(|s| {
		let r = s.rem(now).saturating_sub(want);
		let d = s.end().saturating_sub(now);
		r > 0 && r < d as u128
	});
	if dust {
		o.count("slash:less-than-one-per-block");
	}
	if want_left != got_left {
		o.violate(&[L], "remaining", || format!("{what}: {want_left:?} must remain unvested, {got_left:?} does ({new:?})"));
	}
	let total: u128 = want_left.iter().sum();
	if after[&a].2 != total && !(old.is_empty() && after[&a].2 == before[&a].2) {
		o.violate(&[L], "lock", || format!("{what}: {total} must stay locked, {} is", after[&a].2));
	}
	// the release: not earlier than it was, and not much later
	let kept: Vec<Sch> = old.iter().copied().filter(|s| s.rem(now) > want).collect();
	if kept.len() == new.len() {
		for (s, n) in kept.iter().zip(new) {
			o.hit(&[T], "schedule-after-slash");
			let from = now.max(s.start);
			let left = s.rem(now) - want;
			let dur = (s.end() - from) as u128;
			if n.start < from {
				o.violate(&[T], "starts-early", || format!("{what}: {s:?} became {n:?}, which starts before {from}"));
			}
			for t in [now + 1, now + 2, from, from + 1, (from + s.end()) / 2, s.end().saturating_sub(1), s.end()] {
				if t >= now && n.rem(t) < s.rem(t).saturating_sub(want) {
					o.violate(&[T], "vests-early", || {
						format!("{what}: at {t} {s:?} less the slash leaves {} unvested, the new {n:?} only {}", s.rem(t).saturating_sub(want), n.rem(t))
					});
				}
			}
			let rate = (left / dur).max(1);
			let latest = from as u128 + left / rate + (left % rate != 0) as u128;
			if n.end() as u128 > latest.max(s.end() as u128) {
				o.violate(&[T], "vests-late", || format!("{what}: {s:?} (ends {}) became {n:?}, which ends at {} (latest {latest})", s.end(), n.end()));
			}
		}
	}
	if let Some(p) = promised.get_mut(&a) {
		for x in p.iter_mut() {
			x.1 = x.1.saturating_add(want);
		}
		p.retain(|(s, x)| s.rem(now) > *x);
	}
	o.state(hash_debug(&(new, total, want)));
}

/// Independent of the schedules kept in storage: what may have been released by now.
fn watch(o: &mut Obs, promised: &mut BTreeMap<u64, Vec<(Sch, u128)>>) {
	let now = System::block_number();
	for (a, p) in promised.iter() {
		let must: u128 = p.iter().map(|(s, x)| s.rem(now).saturating_sub(*x)).sum();
		if must > 0 {
			o.hit(&[T], "promise-covered");
			let l = lock(*a);
			if l < must {
				o.violate(&[T], "released-early", || {
					format!("[{now}] {a}: {must} must still be locked by {p:?} (schedule, slashed since), only {l} is")
				});
			}
		}
	}
}

fn main() {
	const A: &[&str] = &["pallet-balances, pallet-vesting and frame (registry crates) behave as documented", "holds on the histories generated from this seed"];
	let props = [
		PropInfo { id: L, rule: "a history is 30-90 vested transfers, claims, holds, slashes and block jumps by 5 users; non-trivial when the lock of a slashed account with schedules was compared with what must remain", required: &["lock-after-slash", "lock-remains", "slash:several-schedules", "slash:before-start", "slash:ended-unclaimed", "slash:less-than-one-per-block", "every-listener-told-once", "slash:without-vesting"], quick: 60_000, thorough: 3_000_000, assumptions: A },
		PropInfo { id: T, rule: "as C21; non-trivial when the release plan of a slashed schedule was compared with the original's", required: &["schedule-after-slash", "promise-covered", "all-vested-in-the-end", "slash:before-start"], quick: 60_000, thorough: 3_000_000, assumptions: A },
	];
	mon::main_with(&props, &[], random_history)
}
