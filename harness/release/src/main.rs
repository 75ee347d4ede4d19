//! Monitors for pallet-linear-release: a ledger of what every schedule promised (kept outside
//! the pallet) against the held and free balances of every account after every operation.
use frame_support::{
	derive_impl, parameter_types,
	storage::with_storage_layer,
	traits::{
		fungible::{InspectHold, MutateHold},
		VariantCount, WithdrawReasons,
	},
};
use mon::{hash_debug, Obs, PropInfo, Rng};
use pallet_linear_release as lr;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use polimec_common::ReleaseSchedule;
use scale_info::TypeInfo;
use sp_runtime::{
	traits::{Convert, IdentityLookup},
	BuildStorage, DispatchError, DispatchResult,
};
use std::collections::BTreeMap;

frame_support::construct_runtime!(
	pub enum Test {
		System: frame_system = 0,
		Balances: pallet_balances = 1,
		Release: lr = 2,
	}
);
type Block = frame_system::mocking::MockBlock<Test>;

#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, Hash, MaxEncodedLen, TypeInfo, Ord, PartialOrd, serde::Serialize, serde::Deserialize)]
pub enum Reason {
	Bond,
	Grant,
}
use Reason::*;
impl VariantCount for Reason {
	const VARIANT_COUNT: u32 = 2;
}
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = u64;
	type Block = Block;
	type Lookup = IdentityLookup<Self::AccountId>;
}
parameter_types! {
	pub const MinVestedTransfer: u128 = 20;
	pub UnvestedFundsAllowedWithdrawReasons: WithdrawReasons = WithdrawReasons::empty();
	pub static Ed: u128 = 1;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Test {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = Ed;
	type RuntimeHoldReason = Reason;
}
pub struct ToBalance;
impl Convert<u64, u128> for ToBalance {
	fn convert(b: u64) -> u128 {
		b as u128
	}
}
const MAX: u32 = 4;
impl lr::Config for Test {
	type Balance = u128;
	type BlockNumberToBalance = ToBalance;
	type Currency = Balances;
	type MinVestedTransfer = MinVestedTransfer;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = Reason;
	type UnvestedFundsAllowedWithdrawReasons = UnvestedFundsAllowedWithdrawReasons;
	type WeightInfo = ();

	const MAX_VESTING_SCHEDULES: u32 = MAX;
}
type Info = lr::VestingInfo<u128, u64>;

const L: &str = "C23";
const C: &str = "C24";
const USERS: u64 = 4;
const FAUCET: u64 = 50;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Sch {
	locked: u128,
	per: u128,
	start: u64,
}
impl Sch {
	/// What a schedule still withholds at `t`.
	fn rem(&self, t: u64) -> u128 {
		let k = t.saturating_sub(self.start) as u128;
		self.locked.saturating_sub(k.saturating_mul(self.per))
	}
	fn end(&self) -> u64 {
		let d = self.locked / self.per + (self.locked % self.per != 0) as u128;
		self.start.saturating_add(d.max(1).min(u64::MAX as u128) as u64)
	}
}
type Key = (u64, Reason);
#[derive(Default)]
struct Model {
	/// schedules promised and not finished when last tidied, with the hold they stand for
	sched: BTreeMap<Key, Vec<Sch>>,
	/// held under the reason for something else (another bond)
	extra: BTreeMap<Key, u128>,
	/// part of what schedules promised that was observed to be released already
	held: BTreeMap<Key, u128>,
}
impl Model {
	fn must(&self, k: Key, now: u64) -> u128 {
		self.sched.get(&k).map(|v| v.iter().map(|s| s.rem(now)).sum()).unwrap_or(0)
	}
	fn extra(&self, k: Key) -> u128 {
		*self.extra.get(&k).unwrap_or(&0)
	}
	fn held(&self, k: Key) -> u128 {
		*self.held.get(&k).unwrap_or(&0)
	}
}
fn keys() -> Vec<Key> {
	(1..=USERS).flat_map(|a| [(a, Bond), (a, Grant)]).collect()
}
fn stored((a, r): Key) -> Option<Vec<Sch>> {
	lr::Vesting::<Test>::get(a, r).map(|v| v.iter().map(|s| Sch { locked: s.locked, per: s.per_block, start: s.starting_block }).collect())
}
fn held((a, r): Key) -> u128 {
	Balances::balance_on_hold(&r, &a)
}
fn free(a: u64) -> u128 {
	Balances::free_balance(a)
}
type View = (Vec<(u128, u128, u128)>, Vec<Option<Vec<Sch>>>, u128, u128);
fn view() -> View {
	(
		(1..=USERS).map(|a| (free(a), held((a, Bond)), held((a, Grant)))).collect(),
		keys().into_iter().map(stored).collect(),
		free(FAUCET),
		Balances::total_issuance(),
	)
}
fn running(v: &[Sch], now: u64) -> Vec<Sch> {
	let mut v: Vec<Sch> = v.iter().copied().filter(|s| s.rem(now) > 0).collect();
	v.sort();
	v
}
fn is(e: &DispatchError, x: lr::Error<Test>) -> bool {
	*e == DispatchError::from(x)
}

/// Compare one account's held balance and schedules with what is promised, after an operation
/// that settles the account (releases everything vested by now).
fn settled(o: &mut Obs, m: &mut Model, k: Key, props: &[&str], what: &str) {
	let now = System::block_number();
	let must = m.must(k, now);
	let extra = m.extra(k);
	let h = held(k);
	o.hit(props, "held-after-release");
	if must > 0 && m.held(k) > must + extra {
		o.hit(props, "partly-vested");
	}
	if h == must + extra {
		if must == 0 && m.sched.contains_key(&k) {
			o.count("all-vested");
		}
	} else if extra > 0 && h == must {
		// everything beyond the schedules' remainder was let go, the other bond included
		o.violate(&[L], "unscheduled-hold-released", || {
			format!("{what}: {k:?} had {extra} held for another purpose under the same reason beside {must} still scheduled; {h} stays held")
		});
		m.extra.insert(k, 0);
	} else if h < must + extra {
		o.violate(props, "released-early", || format!("{what}: {k:?} must keep {must} (+{extra} held for other purposes), {h} is held: {:?}", m.sched.get(&k)));
	} else {
		o.violate(props, "not-released", || format!("{what}: {k:?} must keep {must} (+{extra} held for other purposes), but {h} is still held: {:?}", m.sched.get(&k)));
	}
	let left = running(m.sched.get(&k).map(|v| &v[..]).unwrap_or(&[]), now);
	let got = stored(k).unwrap_or_default();
	if running(&got, now) != left || got.len() != left.len() {
		o.violate(props, "schedules-after-release", || format!("{what}: {k:?} keeps {got:?}, {left:?} are still running"));
	}
	if left.is_empty() {
		m.sched.remove(&k);
	} else {
		m.sched.insert(k, left);
	}
	m.held.insert(k, held(k));
}

fn random_history(seed: u64, o: &mut Obs) {
	let mut rng = Rng::new(seed);
	let scale = *rng.pick(&[200u128, 3_000, 90_000, 10_000_000_000, 4_000_000_000_000_000]);
	let ed = if rng.chance(1, 4) { scale / 30 + 1 } else { 1 };
	Ed::set(ed);
	let with_extra = rng.chance(1, 5);
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut balances: Vec<(u64, u128)> = (1..=USERS).map(|a| (a, ed + rng.below128(scale))).collect();
	balances.push((FAUCET, scale << 20));
	pallet_balances::GenesisConfig::<Test> { balances }.assimilate_storage(&mut st).unwrap();
	let mut ext = sp_io::TestExternalities::new(st);
	ext.execute_with(|| {
		System::set_block_number(1);
		let mut m = Model::default();
		let steps = rng.range(30, 80);
		for _ in 0..steps {
			if o.stop() {
				return;
			}
			step(&mut rng, o, &mut m, scale, ed, with_extra);
			watch(o, &mut m);
		}
		if o.stop() {
			return;
		}
		let far = m.sched.values().flatten().map(|s| s.end()).max().unwrap_or(1).max(System::block_number());
		System::set_block_number(far);
		o.op(|| format!("[{far}] every schedule has ended; everyone vests"));
		for k in keys() {
			let promised = m.sched.contains_key(&k);
			let r = call(RuntimeCall::Release(lr::Call::vest { reason: k.1 }), Some(k.0));
			if promised {
				o.hit(&[L], "end-of-schedules");
				let what = "after the end of every schedule";
				if let Err(e) = &r {
					o.violate(&[L], "funds-stuck", || format!("{what} {k:?} cannot vest: {e:?}; {} stays held, scheduled {:?}", held(k), m.sched.get(&k)));
				} else {
					settled(o, &mut m, k, &[L], what);
				}
			} else if r.is_ok() {
				o.violate(&[L], "vests-without-schedule", || format!("{k:?} vested without a schedule"));
			} else if held(k) > m.extra(k) {
				o.violate(&[L], "funds-stuck", || format!("{k:?}: {} held, {} for other purposes, no schedule releases the rest", held(k), m.extra(k)));
			}
		}
	});
}

fn call(c: RuntimeCall, who: Option<u64>) -> DispatchResult {
	use sp_runtime::traits::Dispatchable;
	let origin = match who {
		Some(a) => RuntimeOrigin::signed(a),
		None => RuntimeOrigin::root(),
	};
	c.dispatch(origin).map(|_| ()).map_err(|e| e.error)
}

fn step(rng: &mut Rng, o: &mut Obs, m: &mut Model, scale: u128, ed: u128, with_extra: bool) {
	let now = System::block_number();
	let a = rng.range(1, USERS);
	let r = if rng.chance(2, 3) { Bond } else { Grant };
	let k = (a, r);
	let before = view();
	let unchanged = |o: &mut Obs, what: &str, e: &DispatchError| {
		o.count("refused");
		if view() != before {
			o.violate(&[C], "refused-but-changed", || format!("{what} failed with {e:?} but changed balances or schedules"));
		}
	};
	match rng.below(16) {
		0..=4 => {
			// a new schedule
			let locked = match rng.below(8) {
				0 => rng.range128(0, 30),
				1 => 20,
				_ => rng.range128(1, scale),
			};
			let per = match rng.below(8) {
				0 => 1,
				1 => locked,
				2 => locked.saturating_mul(2),
				3 => (locked / 3).max(1),
				4 if rng.chance(1, 3) => 0,
				5 if rng.chance(1, 3) => u128::MAX - rng.below128(3),
				_ => (locked / rng.range128(1, 40)).max(1),
			};
			let start = match rng.below(6) {
				0 => now.saturating_sub(rng.below(6)),
				1 => now.saturating_sub(rng.below(60)),
				2 => now + rng.below(40),
				_ => now,
			};
			let s = Sch { locked, per, start };
			let n = stored(k).map(|v| v.len()).unwrap_or(0);
			let kind = rng.below(5);
			let valid = locked > 0 && per > 0;
			if kind <= 1 {
				let source = if kind == 1 && rng.chance(1, 2) { rng.range(1, USERS) } else { FAUCET };
				let force = rng.chance(1, 3);
				let by = if !force { Some(source) } else if rng.chance(1, 4) { Some(source) } else { None };
				let schedule = Info { locked, per_block: per, starting_block: start };
				let c = if force {
					lr::Call::force_vested_transfer { source, target: a, schedule, reason: r }
				} else {
					lr::Call::vested_transfer { target: a, schedule, reason: r }
				};
				o.op(|| format!("[{now}] {by:?} (force {force}) vested transfer {source} -> {k:?} {s:?}"));
				let what = format!("[{now}] vested transfer of {s:?} from {source} to {k:?}, by {by:?}");
				let res = call(RuntimeCall::Release(c), by);
				let ok_params = valid && locked >= MinVestedTransfer::get() && (n as u32) < MAX && !(force && by.is_some());
				let rich = before_free(&before, a) >= ed && before_free(&before, source) >= locked.saturating_add(ed);
				match res {
					Ok(()) => {
						o.hit(&[C], "vested-transfer");
						if force {
							o.count("force-vested-transfer");
						}
						if !ok_params {
							o.violate(&[C], "transfer-accepted", || format!("{what} was accepted with {n} schedules, minimum {}", MinVestedTransfer::get()));
						}
						m.sched.entry(k).or_default().push(s);
						*m.held.entry(k).or_default() += locked;
						settled(o, m, k, &[L, C], &what);
						// money: the source pays exactly `locked`
						let after = view();
						let released = m_released(&before, &after, k, locked);
						let paid = before_free(&before, source) + if source == a { released } else { 0 };
						if before_free(&after, source) != paid.saturating_sub(locked) && !(before_free(&after, source) == 0 && paid.saturating_sub(locked) < ed) {
							o.violate(&[C], "transfer-money", || format!("{what}: the source went from {} to {}", before_free(&before, source), before_free(&after, source)));
						}
						others_unchanged(o, &before, &after, &[k], Some(source), &[C], &what);
					},
					Err(e) => {
						unchanged(o, &what, &e);
						if ok_params && rich {
							o.violate(&[C], "transfer-refused", || format!("{what} was refused with {e:?}; {n} schedules, the source has {}", before_free(&before, source)));
						}
						if n as u32 >= MAX && valid && is(&e, lr::Error::AtMaxVestingSchedules) {
							o.hit(&[C], "at-max-schedules");
						}
						if force && by.is_some() {
							o.hit(&[C], "force-needs-root");
						}
					},
				}
			} else {
				// as funding does: the bond is on hold already
				let set = kind == 2;
				o.op(|| format!("[{now}] {k:?} bonds and gets the schedule {s:?} ({})", if set { "set" } else { "add" }));
				let what = format!("[{now}] {} schedule {s:?} for {k:?}", if set { "set" } else { "add" });
				let res = with_storage_layer(|| {
					if locked > 0 {
						Balances::hold(&r, &a, locked)?;
					}
					if set {
						<Release as ReleaseSchedule<u64, Reason>>::set_release_schedule(&a, locked, per, start, r)
					} else {
						<Release as ReleaseSchedule<u64, Reason>>::add_release_schedule(&a, locked, per, start, r)
					}
				});
				let can = <Release as ReleaseSchedule<u64, Reason>>::can_add_release_schedule(&a, locked, per, start, r);
				match res {
					Ok(()) if locked == 0 => {
						if view() != before {
							o.violate(&[C], "empty-schedule", || format!("{what}: a schedule of nothing changed something"));
						}
					},
					Ok(()) => {
						o.count(if set { "set_release_schedule" } else { "add_release_schedule" });
						if s.rem(now) == 0 {
							o.hit(&[L], "schedule-already-over");
						}
						if !valid || n as u32 >= MAX {
							o.violate(&[C], "schedule-accepted", || format!("{what} was accepted with {n} schedules"));
						}
						m.sched.entry(k).or_default().push(s);
						*m.held.entry(k).or_default() += locked;
						if set {
							settled(o, m, k, &[L, C], &what);
						} else {
							o.hit(&[C], "add-moves-nothing");
							if held(k) != m.held(k) {
								o.violate(&[C], "add-moved", || format!("{what}: {} were held, now {}", m.held(k), held(k)));
								m.held.insert(k, held(k));
							}
						}
						let after = view();
						others_unchanged(o, &before, &after, &[k], None, &[C], &what);
					},
					Err(e) => {
						unchanged(o, &what, &e);
						if valid && (n as u32) < MAX && (is(&e, lr::Error::AtMaxVestingSchedules) || is(&e, lr::Error::InvalidScheduleParams)) {
							o.violate(&[C], "schedule-refused", || format!("{what}: refused with {e:?}, {n} schedules"));
						}
						// the predicate that precedes it agrees
						if (is(&e, lr::Error::AtMaxVestingSchedules) || is(&e, lr::Error::InvalidScheduleParams)) && can.is_ok() {
							o.violate(&[C], "can-add", || format!("{what}: can_add said yes, adding failed with {e:?}"));
						}
					},
				}
			}
		},
		5 | 6 => {
			let n = match rng.below(6) {
				0 => rng.range(10, 80),
				1 => rng.range(5, 20),
				_ => rng.range(1, 4),
			};
			o.op(|| format!("[{now}] {n} blocks pass"));
			System::set_block_number(now + n);
		},
		7..=9 => {
			let by = rng.range(1, USERS);
			let mode = rng.below(5);
			let all = mode >= 3;
			let targets: Vec<Key> = if all { vec![(a, Bond), (a, Grant)] } else { vec![k] };
			let c = match mode {
				0 => lr::Call::vest { reason: r },
				1 => lr::Call::vest_other { target: a, reason: r },
				2 => {
					// through the trait
					o.op(|| format!("[{now}] {k:?} vests (trait)"));
					let what = format!("[{now}] vest {k:?}");
					let h0 = held(k);
					let had = m.sched.contains_key(&k);
					match with_storage_layer(|| <Release as ReleaseSchedule<u64, Reason>>::vest(a, r)) {
						Ok(x) => {
							settled(o, m, k, &[L], &what);
							if x != h0 - held(k) {
								o.violate(&[L], "vest-returns", || format!("{what} returned {x}, released {}", h0 - held(k)));
							}
							if !had {
								o.violate(&[L], "vests-without-schedule", || what.clone());
							}
						},
						Err(e) => {
							unchanged(o, &what, &e);
							if had {
								o.violate(&[L], "funds-stuck", || format!("{what}: {e:?}; held {}, scheduled {:?}", held(k), m.sched.get(&k)));
								m.sched.remove(&k);
							}
						},
					}
					return;
				},
				3 => lr::Call::vest_all {},
				_ => lr::Call::vest_all_other { target: a },
			};
			let who = if mode == 0 || mode == 3 { a } else { by };
			o.op(|| format!("[{now}] {who} calls {c:?}"));
			let what = format!("[{now}] {c:?} by {who} for {a}");
			let had = targets.iter().any(|k| m.sched.contains_key(k));
			match call(RuntimeCall::Release(c), Some(who)) {
				Ok(()) => {
					for t in &targets {
						if m.sched.contains_key(t) {
							settled(o, m, *t, &[L], &what);
							if all {
								o.hit(&[L], "vest-all");
							} else if who != a {
								o.hit(&[L], "vest-other");
							}
						}
					}
					if !had && !all {
						o.violate(&[L], "vests-without-schedule", || what.clone());
					}
					others_unchanged(o, &before, &view(), &targets, None, &[L], &what);
				},
				Err(e) => {
					unchanged(o, &what, &e);
					if had {
						o.violate(&[L], "funds-stuck", || format!("{what}: {e:?}; held {}, scheduled {:?}", held(k), m.sched.get(&k)));
						for t in &targets {
							m.sched.remove(t);
						}
					}
				},
			}
		},
		10 | 11 => {
			let list = stored(k).unwrap_or_default();
			let (i, j) = if list.is_empty() {
				(rng.below(3) as usize, rng.below(3) as usize)
			} else {
				{
				let n = list.len() as u64 + rng.below(8) / 7;
				(rng.below(n) as usize, rng.below(n) as usize)
			}
			};
			o.op(|| format!("[{now}] {k:?} merges schedules {i} and {j} of {list:?}"));
			let what = format!("[{now}] {k:?} merges {i} and {j} of {list:?}");
			let res = call(RuntimeCall::Release(lr::Call::merge_schedules { schedule1_index: i as u32, schedule2_index: j as u32, reason: r }), Some(a));
			match res {
				Ok(()) if i == j => {
					if view() != before {
						o.violate(&[C], "merge-noop", || format!("{what}: merging a schedule with itself changed something"));
					}
				},
				Ok(()) => {
					if i >= list.len() || j >= list.len() {
						o.violate(&[C], "merge-index", || format!("{what} was accepted"));
						return;
					}
					let (x, y) = (list[i], list[j]);
					let mut rest: Vec<Sch> = list.iter().enumerate().filter(|(n, _)| *n != i && *n != j).map(|(_, s)| *s).filter(|s| s.rem(now) > 0).collect();
					let mut got = stored(k).unwrap_or_default();
					// the others stay as they were
					for s in &rest {
						match got.iter().position(|g| g == s) {
							Some(p) => {
								got.remove(p);
							},
							None => o.violate(&[C], "merge-others", || format!("{what}: {s:?} is gone: {:?}", stored(k))),
						}
					}
					let both = x.rem(now) + y.rem(now);
					o.hit(&[C], "merge");
					if x.rem(now) > 0 && y.rem(now) > 0 {
						o.hit(&[C], "merge-two-running");
						if x.start > now || y.start > now {
							o.count("merge-not-started");
						}
					}
					match (&got[..], both) {
						([], 0) => {},
						([g], b) if b > 0 => {
							if g.rem(now) != b {
								o.violate(&[C], "merge-amount", || format!("{what}: {b} were outstanding, {} are in {g:?}", g.rem(now)));
							}
							for t in [now + 1, now + 2, now + 5, x.start, y.start, x.start.max(y.start) + 1, (now + x.end()) / 2, (now + y.end()) / 2, x.end().saturating_sub(1), y.end().saturating_sub(1)] {
								if t > now && g.rem(t) < x.rem(t) + y.rem(t) {
									o.violate(&[C, L], "merge-early", || format!("{what}: at {t} {} had to be withheld, {g:?} withholds {}", x.rem(t) + y.rem(t), g.rem(t)));
								}
							}
							// not needlessly late: the rate that spreads the rest over the longer period
							let from = now.max(x.start).max(y.start);
							let dur = x.end().max(y.end()).saturating_sub(from).max(1);
							let rate = (b / dur as u128).max(1);
							let latest = from as u128 + b / rate + (b % rate != 0) as u128;
							if x.rem(now) > 0 && y.rem(now) > 0 && g.end() as u128 > latest {
								o.violate(&[C], "merge-late", || format!("{what}: became {g:?} ending at {}, {latest} expected at the latest", g.end()));
							}
							rest.push(*g);
						},
						_ => o.violate(&[C], "merge-result", || format!("{what}: {both} outstanding, the merged schedules are {got:?}")),
					}
					m.sched.insert(k, rest);
					settled(o, m, k, &[L, C], &what);
					others_unchanged(o, &before, &view(), &[k], None, &[C], &what);
				},
				Err(e) => {
					unchanged(o, &what, &e);
					if i == j || (i < list.len() && j < list.len()) {
						o.violate(&[C], "merge-refused", || format!("{what} was refused with {e:?}"));
					}
				},
			}
		},
		12 => {
			let list = stored(k).unwrap_or_default();
			let all = rng.chance(1, 3);
			let i = rng.below(list.len().max(1) as u64) as usize;
			o.op(|| format!("[{now}] the runtime removes {} of {k:?} {list:?}", if all { "every schedule".into() } else { format!("schedule {i}") }));
			let what = format!("[{now}] removing {} of {k:?} {list:?}", if all { "all".into() } else { i.to_string() });
			let res = with_storage_layer(|| {
				if all {
					<Release as ReleaseSchedule<u64, Reason>>::remove_all_vesting_schedules(&a, r)
				} else {
					<Release as ReleaseSchedule<u64, Reason>>::remove_vesting_schedule(&a, i as u32, r)
				}
			});
			match res {
				Ok(()) => {
					o.hit(&[C], if all { "remove-all" } else { "remove" });
					if list.is_empty() {
						o.violate(&[C], "removed-nothing", || what.clone());
						return;
					}
					if all && list.len() > 1 {
						o.count("remove-all-several");
					}
					let rest: Vec<Sch> = if all { vec![] } else { list.iter().enumerate().filter(|(n, _)| *n != i).map(|(_, s)| *s).collect() };
					m.sched.insert(k, rest);
					settled(o, m, k, &[C], &what);
					others_unchanged(o, &before, &view(), &[k], None, &[C], &what);
				},
				Err(e) => {
					unchanged(o, &what, &e);
					if !list.is_empty() {
						o.violate(&[C], "remove-refused", || format!("{what} was refused with {e:?}"));
					}
				},
			}
		},
		13 => {
			if !with_extra {
				return;
			}
			let x = rng.below128(scale / 2) + 1;
			o.op(|| format!("[{now}] {k:?} bonds {x} for another purpose"));
			if Balances::hold(&r, &a, x).is_ok() {
				*m.extra.entry(k).or_default() += x;
				*m.held.entry(k).or_default() += x;
				o.count("hold-for-other-purpose");
			}
		},
		14 => {
			let x = rng.below128(scale) + 1;
			o.op(|| format!("[{now}] the faucet pays {a} {x}"));
			let _ = <Balances as frame_support::traits::fungible::Mutate<u64>>::transfer(&FAUCET, &a, x, frame_support::traits::tokens::Preservation::Preserve);
		},
		_ => {
			// what the pallet reports
			if let Some(v) = stored(k) {
				o.hit(&[L], "reported-amounts");
				let want: u128 = v.iter().map(|s| s.locked - s.rem(now)).sum();
				let total: u128 = v.iter().map(|s| s.locked).sum();
				let got = <Release as ReleaseSchedule<u64, Reason>>::vesting_balance(&a, r);
				let sch = <Release as ReleaseSchedule<u64, Reason>>::total_scheduled_amount(&a, r);
				if got != Some(want) {
					o.violate(&[L], "reported-vested", || format!("[{now}] {k:?} {v:?}: {want} have vested, {got:?} reported"));
				}
				if sch != Some(total) {
					o.violate(&[L], "reported-total", || format!("[{now}] {k:?} {v:?}: {total} scheduled, {sch:?} reported"));
				}
			}
		},
	}
}
fn before_free(v: &View, a: u64) -> u128 {
	if a == FAUCET {
		v.2
	} else {
		v.0[(a - 1) as usize].0
	}
}
fn m_released(before: &View, after: &View, (a, r): Key, added: u128) -> u128 {
	let h = |v: &View| if r == Bond { v.0[(a - 1) as usize].1 } else { v.0[(a - 1) as usize].2 };
	(h(before) + added).saturating_sub(h(after))
}
fn others_unchanged(o: &mut Obs, before: &View, after: &View, touched: &[Key], source: Option<u64>, props: &[&str], what: &str) {
	if before.3 != after.3 && source.is_none() {
		o.violate(props, "issuance", || format!("{what}: total issuance went from {} to {}", before.3, after.3));
	}
	for a in 1..=USERS {
		let (x, y) = (before.0[(a - 1) as usize], after.0[(a - 1) as usize]);
		let touched_acc = touched.iter().any(|k| k.0 == a);
		for r in [Bond, Grant] {
			let (hx, hy) = if r == Bond { (x.1, y.1) } else { (x.2, y.2) };
			if hx != hy && !touched.contains(&(a, r)) {
				o.violate(props, "bystander-hold", || format!("{what}: {hx} held by {a} under {r:?} became {hy}"));
			}
		}
		if !touched_acc && Some(a) != source && x.0 != y.0 {
			o.violate(props, "bystander", || format!("{what}: {a} had {} free, now {}", x.0, y.0));
		}
		// nothing is lost: what leaves the hold is free
		if touched_acc && source.is_none() && x.0 + x.1 + x.2 != y.0 + y.1 + y.2 {
			o.violate(props, "conservation", || format!("{what}: {a} had {x:?} (free, held, held), now {y:?}"));
		}
	}
}

/// After every step, whoever moved: nothing promised has left the hold.
fn watch(o: &mut Obs, m: &mut Model) {
	let now = System::block_number();
	for k in keys() {
		let must = m.must(k, now) + m.extra(k);
		if m.sched.contains_key(&k) {
			o.hit(&[L], "promise-covered");
		}
		if held(k) < must {
			o.violate(&[L], "released-early", || format!("[{now}] {k:?}: {must} must still be held, {} is ({:?}, +{} for other purposes)", held(k), m.sched.get(&k), m.extra(k)));
		}
		if stored(k).map(|v| v.len() as u32 > MAX || v.is_empty()).unwrap_or(false) {
			o.violate(&[C], "too-many", || format!("{k:?} keeps {:?}", stored(k)));
		}
	}
	o.state(hash_debug(&(keys().into_iter().map(stored).collect::<Vec<_>>(), keys().into_iter().map(held).collect::<Vec<_>>())));
}

fn main() {
	const A: &[&str] = &["pallet-balances and frame (registry crates) behave as documented", "holds on the histories generated from this seed"];
	let props = [
		PropInfo { id: L, rule: "a history is 30-80 schedule creations (bond + add/set, vested and forced transfers), claims by owner and others, merges, removals and block jumps by 4 users under 2 hold reasons, then the end of every schedule; non-trivial when a held balance was compared with what the schedules still withhold", required: &["held-after-release", "partly-vested", "promise-covered", "end-of-schedules", "vest-all", "vest-other", "schedule-already-over", "all-vested", "reported-amounts"], quick: 20_000, thorough: 3_000_000, assumptions: A },
		PropInfo { id: C, rule: "as C23; non-trivial when the outcome of a transfer, merge, addition or removal of schedules was compared with the ledger", required: &["vested-transfer", "force-needs-root", "at-max-schedules", "add-moves-nothing", "merge", "merge-two-running", "remove", "remove-all", "refused"], quick: 20_000, thorough: 3_000_000, assumptions: A },
	];
	mon::main_with(&props, &[], random_history)
}
