//! Monitors for pallet-parachain-staking: a model of bonds, delegations, requests and auto-compound
//! settings kept from the calls alone, against all storage and balances after every block and call.
use frame_support::{
	derive_impl, parameter_types,
	traits::{fungible::InspectHold, Hooks},
};
use frame_system::EnsureRoot;
use mon::{hash_debug, Obs, PropInfo, Rng};
use pallet_authorship::EventHandler;
use pallet_parachain_staking::{self as stk, DelegationAction, HoldReason, InflationInfo, Range};
use pallet_session::{SessionManager, ShouldEndSession};
use sp_runtime::{
	traits::{Dispatchable, IdentityLookup},
	BuildStorage, DispatchError, Perbill, Percent,
};
use std::collections::{BTreeMap, BTreeSet};

frame_support::construct_runtime!(
	pub enum Test {
		System: frame_system = 0,
		Balances: pallet_balances = 1,
		Stk: stk = 2,
	}
);
type Block = frame_system::mocking::MockBlock<Test>;
type Acc = u64;

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = Acc;
	type Block = Block;
	type Lookup = IdentityLookup<Self::AccountId>;
}
const U: u128 = 1_000;
parameter_types! {
	pub const Ed: u128 = 7;
	pub const PayMaster: Acc = 100;
	pub const MinBlocks: u32 = 3;
	pub const MinSelected: u32 = 1;
	pub const MaxPer: u32 = 3;
	pub const MinCand: u128 = 100 * U;
	pub const MinDel: u128 = 10 * U;
	pub const MinDelStk: u128 = 30 * U;
	pub static LeaveCand: u32 = 2;
	pub static CandLess: u32 = 3;
	pub static LeaveDel: u32 = 4;
	pub static Revoke: u32 = 2;
	pub static DelLess: u32 = 1;
	pub static RewardDelay: u32 = 2;
	pub static MaxTop: u32 = 3;
	pub static MaxBottom: u32 = 2;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Test {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = Ed;
	type RuntimeHoldReason = RuntimeHoldReason;
}
impl pallet_authorship::Config for Test {}
impl pallet_session::Config for Test {}
impl stk::Config for Test {
	type Balance = u128;
	type CandidateBondLessDelay = CandLess;
	type Currency = Balances;
	type DelegationBondLessDelay = DelLess;
	type LeaveCandidatesDelay = LeaveCand;
	type LeaveDelegatorsDelay = LeaveDel;
	type MaxBottomDelegationsPerCandidate = MaxBottom;
	type MaxDelegationsPerDelegator = MaxPer;
	type MaxTopDelegationsPerCandidate = MaxTop;
	type MinBlocksPerRound = MinBlocks;
	type MinCandidateStk = MinCand;
	type MinDelegation = MinDel;
	type MinDelegatorStk = MinDelStk;
	type MinSelectedCandidates = MinSelected;
	type MonetaryGovernanceOrigin = EnsureRoot<Acc>;
	type OnCollatorPayout = ();
	type OnNewRound = ();
	type PayMaster = PayMaster;
	type PayoutCollatorReward = ();
	type RevokeDelegationDelay = Revoke;
	type RewardPaymentDelay = RewardDelay;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
}

/// custody, delegation books, calls, rounds, rewards, events
const H: &str = "C38";
const D: &str = "C39";
const V: &str = "C40";
const R: &str = "C41";
const P: &str = "C42";
const E: &str = "C46";
const USERS: Acc = 11;
const COLL: RuntimeHoldReason = RuntimeHoldReason::Stk(HoldReason::StakingCollator);
const DELE: RuntimeHoldReason = RuntimeHoldReason::Stk(HoldReason::StakingDelegator);

fn free(a: Acc) -> u128 {
	Balances::free_balance(a)
}
fn held(a: Acc) -> (u128, u128) {
	(Balances::balance_on_hold(&COLL, &a), Balances::balance_on_hold(&DELE, &a))
}
fn total(a: Acc) -> u128 {
	let h = held(a);
	free(a) + h.0 + h.1
}
/// What an account can still put at stake.
fn stakable(a: Acc) -> u128 {
	free(a).saturating_sub(Ed::get())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum St {
	Active,
	Idle,
	Leaving(u32),
}
#[derive(Clone, Debug, Hash)]
struct Cand {
	bond: u128,
	st: St,
	less: Option<(u128, u32)>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Act {
	Revoke(u128),
	Less(u128),
}
impl Act {
	fn amount(self) -> u128 {
		match self {
			Act::Revoke(x) | Act::Less(x) => x,
		}
	}
}
#[derive(Clone, Debug, Hash)]
struct Del {
	amount: u128,
	auto: u8,
	req: Option<(Act, u32)>,
}
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
struct Snap {
	bond: u128,
	total: u128,
	/// delegator -> amount that counts, auto-compound percent
	dels: BTreeMap<Acc, (u128, u8)>,
}
#[derive(Clone, Debug)]
struct Owed {
	issuance: u128,
	commission: u128,
	points: u32,
	/// collator -> points
	left: BTreeMap<Acc, u32>,
	/// entries of the snapshot, paid or skipped one per block
	entries: u32,
	/// blocks that could pay so far
	blocks: u32,
}
#[derive(Default)]
struct Model {
	cands: BTreeMap<Acc, Cand>,
	/// (delegator, candidate)
	dels: BTreeMap<(Acc, Acc), Del>,
	round: u32,
	first: u64,
	length: u32,
	now: u64,
	n_selected: u32,
	selected: BTreeSet<Acc>,
	snaps: BTreeMap<u32, BTreeMap<Acc, Snap>>,
	staked: BTreeMap<u32, u128>,
	points: BTreeMap<u32, BTreeMap<Acc, u32>>,
	owed: BTreeMap<u32, Owed>,
	commission: u32,
	annual: (u32, u32, u32),
	expect: (u128, u128, u128),
	balances: BTreeMap<Acc, u128>,
	lots: u64,
	bond_info: (Acc, u8),
	/// what the call must have reported
	ev: Vec<Ev>,
}
impl Model {
	fn of(&self, d: Acc) -> Vec<(Acc, &Del)> {
		self.dels.iter().filter(|x| x.0 .0 == d).map(|x| (x.0 .1, x.1)).collect()
	}
	fn to(&self, c: Acc) -> Vec<(Acc, &Del)> {
		self.dels.iter().filter(|x| x.0 .1 == c).map(|x| (x.0 .0, x.1)).collect()
	}
	fn del_total(&self, d: Acc) -> u128 {
		self.of(d).iter().map(|x| x.1.amount).sum()
	}
	fn less_total(&self, d: Acc) -> u128 {
		self.of(d).iter().filter_map(|x| x.1.req.map(|r| r.0.amount())).sum()
	}
	fn is_del(&self, d: Acc) -> bool {
		self.dels.keys().any(|k| k.0 == d)
	}
	fn pool(&self) -> u32 {
		self.cands.values().filter(|c| c.st == St::Active).count() as u32
	}
	fn autos(&self, c: Acc) -> u32 {
		self.to(c).iter().filter(|x| x.1.auto > 0).count() as u32
	}
	/// What counts for a candidate.
	fn counted(&self, c: Acc) -> u128 {
		self.cands.get(&c).map_or(0, |x| x.bond) + top(c).iter().map(|x| x.1).sum::<u128>()
	}
	fn staked_now(&self) -> u128 {
		self.cands.values().map(|c| c.bond).sum::<u128>() + self.dels.values().map(|d| d.amount).sum::<u128>()
	}
}
fn top(c: Acc) -> Vec<(Acc, u128)> {
	Stk::top_delegations(c).map(|x| x.delegations.iter().map(|b| (b.owner, b.amount)).collect()).unwrap_or_default()
}
fn bottom(c: Acc) -> Vec<(Acc, u128)> {
	Stk::bottom_delegations(c).map(|x| x.delegations.iter().map(|b| (b.owner, b.amount)).collect()).unwrap_or_default()
}

type Ev = stk::Event<Test>;
const TOLD: &[&str] = &["NewRound", "CollatorChosen", "JoinedCollatorCandidates", "CandidateBondLessRequested", "CandidateBondedMore", "CandidateBondedLess", "CandidateWentOffline", "CandidateBackOnline", "CandidateScheduledExit", "CancelledCandidateExit", "CancelledCandidateBondLess", "CandidateLeft", "DelegationDecreaseScheduled", "DelegationIncreased", "DelegationDecreased", "DelegatorExitScheduled", "DelegationRevocationScheduled", "DelegatorLeft", "DelegationRevoked", "DelegationKicked", "DelegatorExitCancelled", "CancelledDelegationRequest", "Delegation", "DelegatorLeftCandidate", "Rewarded", "ParachainBondAccountSet", "ParachainBondReservePercentSet", "InflationSet", "StakeExpectationsSet", "TotalSelectedSet", "CollatorCommissionSet", "BlocksPerRoundSet", "AutoCompoundSet", "Compounded", "nothing-told"];
fn reported() -> Vec<Ev> {
	System::events().into_iter().filter_map(|r| if let RuntimeEvent::Stk(e) = r.event { Some(e) } else { None }).collect()
}
/// The events are those expected, in whatever order.
fn told(o: &mut Obs, what: &str, got: Vec<Ev>, want: Vec<Ev>) {
	let text = |v: &[Ev]| {
		let mut t: Vec<String> = v.iter().map(|e| format!("{e:?}")).collect();
		t.sort();
		t
	};
	let (g, w) = (text(&got), text(&want));
	for e in &w {
		let name = e.trim_start_matches("Event::").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("");
		o.hit(&[E], TOLD.iter().copied().find(|k| *k == name).unwrap_or("another"));
	}
	if w.is_empty() && g.is_empty() {
		o.hit(&[E], "nothing-told");
	}
	if g != w {
		o.violate(&[E], "events", || format!("{what} must be reported as {w:?}, it is as {g:?}"));
	}
}

/// The random parameters of a call: mostly right, sometimes one off.
fn hint(rng: &mut Rng, exact: u32) -> u32 {
	match rng.below(12) {
		0 => exact.saturating_sub(1),
		1 => 0,
		2 => exact + 1,
		3 => u32::MAX,
		_ => exact,
	}
}
fn amount(rng: &mut Rng) -> u128 {
	match rng.below(10) {
		0 => rng.below128(200) * U,
		1 => rng.below128(60_000),
		_ => *rng.pick(&[10u128, 10, 20, 20, 30, 30, 30, 40, 50, 60, 100]) * U,
	}
}

fn annual(i: &InflationInfo<u128>) -> (u32, u32, u32) {
	(i.annual.min.deconstruct(), i.annual.ideal.deconstruct(), i.annual.max.deconstruct())
}
fn expect(i: &InflationInfo<u128>) -> (u128, u128, u128) {
	(i.expect.min, i.expect.ideal, i.expect.max)
}

fn random_history(seed: u64, o: &mut Obs) {
	let mut rng = Rng::new(seed);
	LeaveCand::set(rng.range(0, 3) as u32);
	CandLess::set(rng.range(0, 4) as u32);
	LeaveDel::set(rng.range(1, 4) as u32);
	Revoke::set(rng.range(0, 3) as u32);
	DelLess::set(rng.range(0, 3) as u32);
	RewardDelay::set(*rng.pick(&[1, 2, 2, 3]));
	MaxTop::set(*rng.pick(&[1, 2, 3, 3]));
	MaxBottom::set(*rng.pick(&[1, 2, 2]));
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut balances: Vec<(Acc, u128)> = Vec::new();
	let poor_master = rng.chance(1, 12);
	balances.push((PayMaster::get(), if poor_master { rng.range128(10, 60_000) } else { 400_000_000_000 }));
	// the inflation is taken from the total issuance
	balances.push((200, if rng.chance(1, 2) { 100_000_000_000 } else { 3_000_000_000_000 }));
	for a in 1..=USERS {
		balances.push((a, if rng.chance(1, 6) { rng.range128(8, 150) * U } else { rng.range128(200, 1_200) * U }));
	}
	pallet_balances::GenesisConfig::<Test> { balances: balances.clone() }.assimilate_storage(&mut st).unwrap();
	let length = rng.range(3, 7) as u32;
	let n_sel = rng.range(1, (length as u64 - 1).min(4)) as u32;
	let pct = |x: u64| Perbill::from_parts(x as u32);
	let lo = rng.range(0, 30_000_000);
	let mid = lo + rng.below(40_000_000);
	let ann = Range { min: pct(lo), ideal: pct(mid), max: pct(mid + rng.below(100_000_000)) };
	let e0 = rng.below128(400) * U;
	let exp = Range { min: e0, ideal: e0 + 100 * U, max: e0 + rng.range128(100, 900) * U };
	let mut candidates = vec![];
	for c in 1..=rng.below(4) {
		let b = (100 + 20 * rng.below128(4)) * U;
		if balances.iter().any(|x| x.0 == c && x.1 > b + Ed::get()) {
			candidates.push((c, b));
		}
	}
	// those who delegate from the beginning
	let mut first: Vec<(Acc, Acc, u128, u8)> = vec![];
	let mut asked: Vec<(Acc, Acc, u128, Percent)> = vec![];
	if !candidates.is_empty() && rng.chance(1, 2) {
		for _ in 0..rng.range(1, 12) {
			let by = rng.range(1, USERS);
			let c = if rng.chance(1, 12) { rng.range(1, USERS) } else { rng.pick(&candidates).0 };
			let x = amount(&mut rng);
			let auto = *rng.pick(&[0u8, 0, 1, 50, 100]);
			let spent: u128 = first.iter().filter(|d| d.0 == by).map(|d| d.2).sum::<u128>() + candidates.iter().filter(|d| d.0 == by).map(|d| d.1).sum::<u128>();
			let has = balances.iter().find(|b| b.0 == by).map_or(0, |b| b.1);
			// what cannot be paid stops the chain from starting
			if spent + x + Ed::get() > has {
				continue;
			}
			asked.push((by, c, x, Percent::from_percent(auto)));
			let (mine, to) = (first.iter().filter(|d| d.0 == by).count() as u32, first.iter().filter(|d| d.1 == c).count() as u32);
			let good = candidates.iter().any(|k| k.0 == c) &&
				!candidates.iter().any(|k| k.0 == by) &&
				!first.iter().any(|d| (d.0, d.1) == (by, c)) &&
				mine < MaxPer::get() &&
				x >= if mine > 0 { MinDel::get() } else { MinDelStk::get() };
			if good && to >= MaxTop::get() + MaxBottom::get() {
				asked.pop();
			} else if good {
				first.push((by, c, x, auto));
			}
		}
	}
	let commission = *rng.pick(&[0u32, 200_000_000, 500_000_000, 1_000_000_000]);
	let mut round = InflationInfo { expect: exp, annual: ann, round: Default::default() };
	round.reset_round(length);
	let g = stk::GenesisConfig::<Test> {
		candidates: candidates.clone(),
		delegations: asked,
		inflation_config: round,
		collator_commission: Perbill::from_parts(commission),
		parachain_bond_reserve_percent: Percent::from_percent(0),
		blocks_per_round: length,
		num_selected_candidates: n_sel,
	};
	g.assimilate_storage(&mut st).unwrap();
	let mut ext = sp_io::TestExternalities::new(st);
	ext.execute_with(|| {
		let mut m = Model { round: 1, length, n_selected: n_sel, commission, ..Default::default() };
		for (c, b) in candidates {
			m.cands.insert(c, Cand { bond: b, st: St::Active, less: None });
		}
		for (by, c, x, auto) in first {
			m.dels.insert((by, c), Del { amount: x, auto, req: None });
			o.hit(&[D, H], "delegated-from-the-beginning");
			if auto > 0 {
				o.hit(&[D, P], "compounds-from-the-beginning");
			}
		}
		let i = Stk::inflation_config();
		(m.annual, m.expect) = (annual(&i), expect(&i));
		let p = Stk::parachain_bond_info();
		m.bond_info = (p.account, p.percent.deconstruct());
		m.balances = balances.iter().map(|x| (x.0, x.1)).collect();
		select(o, &mut m);
		m.staked.insert(1, m.staked_now());
		watch(o, &mut m, "genesis");
		let blocks = rng.range(30, 90);
		for _ in 0..blocks {
			if o.stop() {
				return;
			}
			block(&mut rng, o, &mut m);
			if o.stop() {
				return;
			}
			for _ in 0..rng.below(5) {
				step(&mut rng, o, &mut m);
				if o.stop() {
					return;
				}
			}
		}
	});
}

/// The collators of the round that has just begun, and their snapshots.
fn select(o: &mut Obs, m: &mut Model) {
	let round = m.round;
	let pool: Vec<(u128, Acc)> = m
		.cands
		.iter()
		.filter(|c| c.1.st == St::Active)
		.map(|c| (c.1.bond + top(*c.0).iter().map(|x| x.1).sum::<u128>(), *c.0))
		.collect();
	let got: Vec<Acc> = Stk::selected_candidates();
	let set: BTreeSet<Acc> = got.iter().copied().collect();
	if set.len() != got.len() || got.windows(2).any(|w| w[0] > w[1]) {
		o.violate(&[R], "selection-not-a-set", || format!("round {round}: {got:?} are selected"));
	}
	if pool.is_empty() {
		o.hit(&[R], "nobody-stands");
		if set != m.selected {
			o.violate(&[R], "selection-without-candidates", || format!("round {round}: nobody stands, {:?} were selected, now {set:?}", m.selected));
		}
		if round > 1 {
			let last = m.snaps.get(&(round - 1)).cloned().unwrap_or_default();
			m.snaps.insert(round, last);
		}
	} else {
		let n = (m.n_selected as usize).min(pool.len());
		let floor = set.iter().map(|c| pool.iter().find(|x| x.1 == *c).map(|x| x.0)).min().flatten();
		let best_out = pool.iter().filter(|x| !set.contains(&x.1)).map(|x| x.0).max().unwrap_or(0);
		if set.len() != n || floor.is_none() || floor.unwrap() < best_out {
			o.violate(&[R], "selection", || format!("round {round}: {} to select of {pool:?} (stake, candidate); {set:?} are", m.n_selected));
		}
		o.hit(&[R], if pool.len() > n { "some-not-selected" } else { "all-selected" });
		let mut snaps = BTreeMap::new();
		for c in &set {
			let t = top(*c);
			let mut s = Snap { bond: m.cands.get(c).map_or(0, |c| c.bond), total: 0, dels: BTreeMap::new() };
			for (d, _) in t {
				let Some(x) = m.dels.get(&(d, *c)) else { continue };
				let counts = match x.req {
					Some((Act::Revoke(_), _)) => {
						o.hit(&[R], "revoked-not-counted");
						0
					},
					Some((Act::Less(l), _)) => {
						o.hit(&[R], "decrease-not-counted");
						x.amount - l
					},
					None => x.amount,
				};
				s.dels.insert(d, (counts, x.auto));
			}
			s.total = s.bond + s.dels.values().map(|x| x.0).sum::<u128>();
			snaps.insert(*c, s);
		}
		m.snaps.insert(round, snaps);
		m.selected = set;
	}
	if round > 1 {
		let parts: Vec<(Acc, u128)> = if pool.is_empty() {
			m.snaps.get(&round).map(|s| s.iter().map(|x| (*x.0, x.1.total)).collect()).unwrap_or_default()
		} else {
			m.selected.iter().map(|c| (*c, m.counted(*c))).collect()
		};
		m.ev.push(Ev::NewRound { starting_block: m.now, round, selected_collators_number: parts.len() as u32, total_balance: parts.iter().map(|x| x.1).sum() });
		for (c, x) in parts {
			m.ev.push(Ev::CollatorChosen { round, collator_account: c, total_exposed_amount: x });
		}
	}
	// what was written down for the rewards
	for (c, want) in m.snaps.get(&round).cloned().unwrap_or_default() {
		let s = Stk::at_stake(round, c);
		let got = Snap { bond: s.bond, total: s.total, dels: s.delegations.iter().map(|d| (d.owner, (d.amount, d.auto_compound.deconstruct()))).collect() };
		o.hit(&[R], "snapshot");
		if got != want || s.delegations.len() != want.dels.len() {
			o.violate(&[R], "snapshot", || format!("round {round}, collator {c}: stands for {want:?}, recorded {got:?}"));
		}
	}
	let n = stk::AtStake::<Test>::iter_prefix(round).count();
	if n != m.snaps.get(&round).map_or(0, |x| x.len()) {
		o.violate(&[R], "snapshot-of-stranger", || format!("round {round}: {n} snapshots of {:?}", m.selected));
	}
}

const BLOCKS_PER_YEAR: u32 = 31_557_600 / SECONDS_PER_BLOCK;
const SECONDS_PER_BLOCK: u32 = 12;

fn round_rate(annual: u32, length: u32) -> f64 {
	let periods = (BLOCKS_PER_YEAR / length) as f64;
	((1.0 + annual as f64 / 1e9).powf(1.0 / periods) - 1.0) * 1e9
}

fn block(rng: &mut Rng, o: &mut Obs, m: &mut Model) {
	m.now += 1;
	let n = m.now;
	System::set_block_number(n);
	System::reset_events();
	let turn = n - m.first >= m.length as u64;
	o.op(|| format!("block {n}{}", if turn { ": a round begins" } else { "" }));
	if <Stk as ShouldEndSession<u64>>::should_end_session(n) != turn {
		o.violate(&[R], "session-end", || format!("block {n}: the round began at {} and lasts {}; the session {} end", m.first, m.length, if turn { "does not" } else { "does" }));
	}
	let before = m.balances.clone();
	if o.guard(|| Stk::on_initialize(n)).map_err(|e| o.violate(&[H, D, V, R, P], "panic", || format!("on_initialize panics: {e}"))).is_err() {
		return;
	}
	if turn {
		m.round += 1;
		m.first = n;
		o.hit(&[R], "round");
		let due = m.round.saturating_sub(RewardDelay::get());
		// rewards that could not be paid in their round are lost
		m.owed.retain(|r, w| {
			if *r < due {
				let cut_off = w.entries > w.blocks;
				if !w.left.is_empty() {
					let sig = if cut_off { "payouts-cut-off" } else { "collator-not-paid" };
					o.violate(&[P], sig, || format!("block {n}: round {r} has ended its payouts, {:?} (collator: points) were not paid ({} blocks for {} collators): due were {:?}", w.left, w.blocks, w.entries, w.left.keys().map(|c| shares(w, &m.snaps[r][c], *c)).collect::<Vec<_>>()));
				}
				false
			} else {
				true
			}
		});
		if m.round > RewardDelay::get() {
			let pts = m.points.get(&due).cloned().unwrap_or_default();
			let all: u32 = pts.values().sum();
			if all > 0 {
				let i = Stk::inflation_config();
				let staked = m.staked.get(&due).copied().unwrap_or(0);
				let (rate, kind) = if staked < m.expect.0 {
					(i.round.min, "issuance-min")
				} else if staked > m.expect.2 {
					(i.round.max, "issuance-max")
				} else {
					(i.round.ideal, "issuance-ideal")
				};
				o.hit(&[P], kind);
				let issuance = rate * Balances::total_issuance();
				let snaps = m.snaps.get(&due).cloned().unwrap_or_default();
				let left: BTreeMap<Acc, u32> = pts.iter().filter(|x| snaps.contains_key(x.0)).map(|x| (*x.0, *x.1)).collect();
				m.owed.insert(due, Owed { issuance, commission: m.commission as u128, points: all, left, entries: snaps.len() as u32, blocks: 0 });
			}
		}
		let old = m.selected.clone();
		select(o, m);
		m.staked.insert(m.round, m.staked_now());
		if Stk::staked(m.round) != m.staked_now() {
			o.violate(&[R], "staked", || format!("round {}: {} is at stake, {} recorded", m.round, m.staked_now(), Stk::staked(m.round)));
		}
		if old != m.selected {
			o.hit(&[R], "selection-changed");
		}
	} else {
		let due = m.round.saturating_sub(RewardDelay::get());
		payout(o, m, due, &before);
		// liquid rewards are told by what was received
		for (a, b) in &before {
			let d = total(*a) as i128 - *b as i128;
			if d > 0 && *a != PayMaster::get() {
				m.ev.push(Ev::Rewarded { account: *a, rewards: d as u128 });
			}
		}
	}
	let mut got = reported();
	got.retain(|e| !matches!(e, Ev::Rewarded { rewards: 0, .. }));
	let want = std::mem::take(&mut m.ev);
	told(o, &format!("block {n}"), got, want);
	let next = <Stk as SessionManager<Acc>>::new_session(n as u32);
	let want: Vec<Acc> = m.selected.iter().copied().collect();
	if next != if want.is_empty() { None } else { Some(want.clone()) } {
		o.violate(&[R], "session", || format!("block {n}: {want:?} are selected, the session gets {next:?}"));
	}
	// the block's author
	let author = match rng.below(20) {
		0 => None,
		1 => Some(rng.range(1, USERS)),
		2 => m.snaps.get(&m.round.saturating_sub(1)).and_then(|s| s.keys().nth(rng.below(3) as usize).copied()),
		_ if want.is_empty() => None,
		_ => Some(*rng.pick(&want)),
	};
	if let Some(a) = author {
		o.op(|| format!("authored by {a}"));
		let r = o.guard(|| <Stk as EventHandler<Acc, u64>>::note_author(a));
		if let Err(e) = r {
			return o.violate(&[P], "panic", || format!("note_author panics: {e}"));
		}
		*m.points.entry(m.round).or_default().entry(a).or_default() += 20;
	}
	watch(o, m, "the block");
}

/// At most one collator of the round is paid per block, and it and its delegators get their shares.
fn payout(o: &mut Obs, m: &mut Model, due: u32, before: &BTreeMap<Acc, u128>) {
	let n = m.now;
	let diff: BTreeMap<Acc, i128> = before.iter().map(|(a, b)| (*a, total(*a) as i128 - *b as i128)).filter(|x| x.1 != 0).collect();
	let Some(w) = m.owed.get_mut(&due) else {
		if !diff.is_empty() {
			o.violate(&[P, H], "paid-nothing-due", || format!("block {n}: no payout is due, balances change by {diff:?}"));
		}
		return;
	};
	w.blocks += 1;
	o.note(|| format!("round {due}: {:?} to pay, the pay master has {}, changes {diff:?}", w.left, before[&PayMaster::get()]));
	let snaps = m.snaps.get(&due).cloned().unwrap_or_default();
	if diff.is_empty() {
		// a collator without points, or nothing left, or a pay master without means
		let poor: Vec<Acc> = w.left.keys().copied().filter(|c| shares(w, &snaps[c], *c).values().all(|x| x.0 <= x.1 || x.0 + x.1 + Ed::get() > before[&PayMaster::get()])).collect();
		if !poor.is_empty() {
			// which of them had its turn cannot be told from the balances
			let gone: Vec<Acc> = poor.iter().copied().filter(|c| !stk::AtStake::<Test>::contains_key(due, c)).collect();
			for c in gone {
				o.hit(&[P], "pay-master-poor");
				w.left.remove(&c);
			}
		}
		return;
	}
	let mut best: Option<(Acc, String)> = None;
	for c in w.left.keys().copied() {
		let want = shares(w, &snaps[&c], c);
		let mut wrong = String::new();
		let mut sum = 0i128;
		// the pay master's balance only falls meanwhile, so who found too little would now as well
		let rest = total(PayMaster::get());
		let keep = Ed::get();
		for (a, (x, tol)) in &want {
			let got = diff.get(a).copied().unwrap_or(0);
			sum += got;
			let cannot = x + tol + keep >= rest;
			if got < 0 || ((got as u128).abs_diff(*x) > *tol && !(got == 0 && cannot)) {
				wrong = format!("{a} is due {x}, got {got}");
			}
		}
		for (a, d) in &diff {
			if *a == PayMaster::get() {
				if *d != -sum {
					wrong = format!("{sum} was paid out, the pay master's balance changes by {d}");
				}
			} else if !want.contains_key(a) {
				wrong = format!("{a} got {d}");
			}
		}
		if wrong.is_empty() {
			best = Some((c, String::new()));
			break;
		}
		if diff.contains_key(&c) || best.is_none() {
			best = Some((c, wrong));
		}
	}
	match best {
		Some((c, ref e)) if e.is_empty() => {
			let s = &snaps[&c];
			w.left.remove(&c);
			let paid: i128 = -diff.get(&PayMaster::get()).copied().unwrap_or(0);
			if paid as u128 > w.issuance + 3 {
				o.violate(&[P], "above-issuance", || format!("block {n}: {paid} paid for round {due}, {} is its issuance", snaps.len()));
			}
			o.hit(&[P, H], if s.dels.is_empty() { "paid-solo" } else { "paid-with-delegators" });
			if s.dels.values().any(|x| x.0 == 0) {
				o.hit(&[P], "revoked-unpaid");
			}
			// compounding
			for (d, (_, auto)) in &s.dels {
				if *auto == 0 {
					continue;
				}
				let got = diff.get(d).copied().unwrap_or(0).max(0) as u128;
				let add = (got * *auto as u128 + 99) / 100;
				if add == 0 {
					continue;
				}
				match m.dels.get_mut(&(*d, c)) {
					Some(x) if !matches!(x.req, Some((Act::Revoke(_), _))) => {
						x.amount += add;
						m.ev.push(Ev::Compounded { candidate: c, delegator: *d, amount: add });
						o.hit(&[P, H, D], "compounded");
					},
					_ => o.hit(&[P], "not-compounded"),
				}
			}
		},
		Some((c, e)) => o.violate(&[P], "payout", || {
			format!("block {n}: collator {c} of round {due} ({} of {} points, issuance {}, commission {} ppb, {:?}): {e}; changes {diff:?}", w.left[&c], w.points, w.issuance, w.commission, snaps[&c])
		}),
		None => o.violate(&[P, H], "paid-twice", || format!("block {n}: everybody of round {due} has been paid, balances change by {diff:?}")),
	}
}

/// collator and delegators -> (due, rounding)
fn shares(w: &Owed, s: &Snap, c: Acc) -> BTreeMap<Acc, (u128, u128)> {
	let all = w.issuance * w.left[&c] as u128 / w.points as u128;
	let tol = 3 + all / 100_000_000;
	let mut out = BTreeMap::new();
	if s.dels.is_empty() {
		out.insert(c, (all, tol));
		return out;
	}
	let com = all * w.commission / 1_000_000_000;
	let rest = all - com;
	let mut add = |a: Acc, x: u128| {
		let e = out.entry(a).or_insert((0, 0));
		*e = (e.0 + x, e.1 + tol);
	};
	add(c, com + rest * s.bond / s.total);
	for (d, (x, _)) in &s.dels {
		add(*d, rest * x / s.total);
	}
	out
}

type C = stk::Call<Test>;
fn dispatch(o: &mut Obs, by: RuntimeOrigin, c: C, want: bool, why: &str) -> Option<bool> {
	let what = format!("{c:?}").chars().take(160).collect::<String>();
	let r = match o.guard(|| RuntimeCall::Stk(c).dispatch(by)) {
		Ok(r) => r.map(|_| ()).map_err(|e| e.error),
		Err(e) => {
			o.violate(&[H, D, V, R, P], "panic", || format!("{what} panics: {e}"));
			return None;
		},
	};
	o.note(|| format!("{r:?}"));
	match (&r, want) {
		(Ok(()), false) => {
			o.violate(&[V], "accepted", || format!("{what} was accepted ({why})"));
			None
		},
		(Err(e), true) => {
			let e: DispatchError = *e;
			o.violate(&[V], "refused", || format!("{what} was refused with {e:?} ({why})"));
			None
		},
		(r, _) => Some(r.is_ok()),
	}
}

fn step(rng: &mut Rng, o: &mut Obs, m: &mut Model) {
	System::reset_events();
	m.ev.clear();
	let k = rng.weighted(&[7, 3, 6, 3, 3, 3, 5, 4, 5, 2, 22, 10, 5, 6, 3, 7, 8, 12, 4, 6, 2, 2, 2, 2, 3, 1, 1, 1]);
	let who = rng.range(1, USERS);
	let cand = |rng: &mut Rng, m: &Model| -> Acc {
		if m.cands.is_empty() || rng.chance(1, 12) {
			rng.range(1, USERS)
		} else {
			*rng.pick(&m.cands.keys().copied().collect::<Vec<_>>())
		}
	};
	// somebody for whom the call makes sense, most of the time
	let as_cand = |rng: &mut Rng, m: &Model, f: &dyn Fn(&Cand) -> bool| -> Acc {
		let v: Vec<Acc> = m.cands.iter().filter(|c| f(c.1)).map(|c| *c.0).collect();
		if v.is_empty() || rng.chance(1, 6) {
			rng.range(1, USERS)
		} else {
			*rng.pick(&v)
		}
	};
	let as_del = |rng: &mut Rng, m: &Model, f: &dyn Fn(&Del) -> bool| -> (Acc, Acc) {
		let v: Vec<(Acc, Acc)> = m.dels.iter().filter(|d| f(d.1)).map(|d| *d.0).collect();
		if v.is_empty() || rng.chance(1, 8) {
			(rng.range(1, USERS), rng.range(1, USERS))
		} else {
			*rng.pick(&v)
		}
	};
	macro_rules! go {
		($by:expr, $call:expr, $want:expr, $kind:literal) => {{
			let (by, call, want) = ($by, $call, $want);
			let t = format!("{call:?}");
			o.op(|| format!("#{by} {}", t.chars().take(200).collect::<String>()));
			o.hit(&[V], if want { concat!($kind, "-yes") } else { concat!($kind, "-no") });
			let ctx = format!("by {by} in round {} at {}; its part: {:?} {:?}", m.round, m.now, m.cands.get(&by), m.of(by));
			match dispatch(o, RuntimeOrigin::signed(by), call, want, &ctx) {
				Some(x) => x,
				None => return,
			}
		}};
	}
	let round = m.round;
	match k {
		// candidates
		0 => {
			let bond = match rng.below(6) {
				0 => MinCand::get() - 1,
				1 => stakable(who),
				2 => stakable(who) + 1,
				_ => (100 + 10 * rng.below128(12)) * U,
			};
			let h = hint(rng, m.pool());
			let want = !m.cands.contains_key(&who) && !m.is_del(who) && bond >= MinCand::get() && h >= m.pool() && stakable(who) >= bond;
			if go!(who, C::join_candidates { bond, candidate_count: h }, want, "join") {
				m.cands.insert(who, Cand { bond, st: St::Active, less: None });
				m.ev.push(Ev::JoinedCollatorCandidates { account: who, amount_locked: bond, new_total_amt_locked: m.staked_now() });
			}
		},
		1 => {
			let by = as_cand(rng, m, &|c| !matches!(c.st, St::Leaving(_)));
			let h = hint(rng, m.pool());
			let want = m.cands.get(&by).is_some_and(|c| !matches!(c.st, St::Leaving(_))) && h >= m.pool();
			if go!(by, C::schedule_leave_candidates { candidate_count: h }, want, "leave") {
				m.cands.get_mut(&by).unwrap().st = St::Leaving(round + LeaveCand::get());
				m.ev.push(Ev::CandidateScheduledExit { exit_allowed_round: round, candidate: by, scheduled_exit: round + LeaveCand::get() });
			}
		},
		2 => {
			let c = as_cand(rng, m, &|c| matches!(c.st, St::Leaving(_)));
			let n = m.to(c).len() as u32;
			let h = hint(rng, n);
			let want = m.cands.get(&c).is_some_and(|c| matches!(c.st, St::Leaving(w) if w <= round)) && h >= n;
			if go!(who, C::execute_leave_candidates { candidate: c, candidate_delegation_count: h }, want, "left") {
				let before = m.staked_now();
				m.cands.remove(&c);
				m.dels.retain(|k, _| k.1 != c);
				m.ev.push(Ev::CandidateLeft { ex_candidate: c, unlocked_amount: before - m.staked_now(), new_total_amt_locked: m.staked_now() });
				if n > 0 {
					o.hit(&[H, D], "left-with-delegations");
				}
			}
		},
		3 => {
			let by = as_cand(rng, m, &|c| matches!(c.st, St::Leaving(_)));
			let h = hint(rng, m.pool());
			let want = m.cands.get(&by).is_some_and(|c| matches!(c.st, St::Leaving(_))) && h >= m.pool();
			if go!(by, C::cancel_leave_candidates { candidate_count: h }, want, "cancel-leave") {
				m.cands.get_mut(&by).unwrap().st = St::Active;
				m.ev.push(Ev::CancelledCandidateExit { candidate: by });
			}
		},
		4 => {
			let by = as_cand(rng, m, &|c| c.st == St::Active);
			let want = m.cands.get(&by).is_some_and(|c| c.st == St::Active);
			if go!(by, C::go_offline {}, want, "offline") {
				m.cands.get_mut(&by).unwrap().st = St::Idle;
				m.ev.push(Ev::CandidateWentOffline { candidate: by });
			}
		},
		5 => {
			let by = as_cand(rng, m, &|c| c.st == St::Idle);
			let want = m.cands.get(&by).is_some_and(|c| c.st == St::Idle);
			if go!(by, C::go_online {}, want, "online") {
				m.cands.get_mut(&by).unwrap().st = St::Active;
				m.ev.push(Ev::CandidateBackOnline { candidate: by });
			}
		},
		6 => {
			let by = as_cand(rng, m, &|_| true);
			let more = match rng.below(6) {
				0 => stakable(by),
				1 => stakable(by) + 1,
				_ => amount(rng),
			};
			let want = m.cands.contains_key(&by) && stakable(by) >= more;
			if go!(by, C::candidate_bond_more { more }, want, "bond-more") {
				let x = m.cands.get_mut(&by).unwrap();
				x.bond += more;
				m.ev.push(Ev::CandidateBondedMore { candidate: by, amount: more, new_total_bond: x.bond });
			}
		},
		7 => {
			let by = as_cand(rng, m, &|c| c.less.is_none());
			let bond = m.cands.get(&by).map_or(0, |c| c.bond);
			let less = match rng.below(5) {
				0 => bond.saturating_sub(MinCand::get()),
				1 => bond.saturating_sub(MinCand::get()) + 1,
				2 => bond,
				_ => amount(rng),
			};
			let want = m.cands.get(&by).is_some_and(|c| c.less.is_none() && c.bond > less && c.bond - less >= MinCand::get());
			if go!(by, C::schedule_candidate_bond_less { less }, want, "schedule-less") {
				m.cands.get_mut(&by).unwrap().less = Some((less, round + CandLess::get()));
				m.ev.push(Ev::CandidateBondLessRequested { candidate: by, amount_to_decrease: less, execute_round: round + CandLess::get() });
			}
		},
		8 => {
			let c = as_cand(rng, m, &|c| c.less.is_some());
			let want = m.cands.get(&c).is_some_and(|c| c.less.is_some_and(|l| l.1 <= round));
			if go!(who, C::execute_candidate_bond_less { candidate: c }, want, "less") {
				let x = m.cands.get_mut(&c).unwrap();
				let amount = x.less.take().unwrap().0;
				x.bond -= amount;
				m.ev.push(Ev::CandidateBondedLess { candidate: c, amount, new_bond: x.bond });
			}
		},
		9 => {
			let by = as_cand(rng, m, &|c| c.less.is_some());
			let want = m.cands.get(&by).is_some_and(|c| c.less.is_some());
			if go!(by, C::cancel_candidate_bond_less {}, want, "cancel-less") {
				let (amount, execute_round) = m.cands.get_mut(&by).unwrap().less.take().unwrap();
				m.ev.push(Ev::CancelledCandidateBondLess { candidate: by, amount, execute_round });
			}
		},
		// delegations
		10 | 11 => {
			let c = cand(rng, m);
			let by = if rng.chance(1, 8) { who } else { rng.range(4, USERS) };
			let x = match rng.below(12) {
				0 => stakable(by),
				1 => stakable(by) + 1,
				2 => MinDelStk::get() - 1,
				3 => bottom(c).last().map_or(0, |b| b.1),
				4 => bottom(c).last().map_or(0, |b| b.1) + 1,
				5 => top(c).last().map_or(0, |b| b.1),
				6 => top(c).last().map_or(0, |b| b.1) + 1,
				_ => amount(rng),
			};
			let auto = if k == 11 { *rng.pick(&[0u8, 1, 30, 50, 100, 100]) } else { 0 };
			let (n_c, n_a, n_d) = (m.to(c).len() as u32, m.autos(c), m.of(by).len() as u32);
			let (hc, ha, hd) = if rng.chance(1, 3) { (hint(rng, n_c), hint(rng, n_a), hint(rng, n_d)) } else { (n_c, n_a, n_d) };
			let is = m.is_del(by);
			let mut want = stakable(by) >= x && m.cands.contains_key(&c) && hc >= n_c && (auto == 0 || ha >= n_a);
			want &= if is { x >= MinDel::get() && hd >= n_d && n_d < MaxPer::get() && !m.dels.contains_key(&(by, c)) } else { x >= MinDelStk::get() && !m.cands.contains_key(&by) };
			let full = n_c >= MaxTop::get() + MaxBottom::get();
			let lowest = m.to(c).iter().map(|d| d.1.amount).min().unwrap_or(0);
			if full {
				want &= x > lowest;
			}
			let call = if k == 10 {
				C::delegate { candidate: c, amount: x, candidate_delegation_count: hc, delegation_count: hd }
			} else {
				C::delegate_with_auto_compound {
					candidate: c,
					amount: x,
					auto_compound: Percent::from_percent(auto),
					candidate_delegation_count: hc,
					candidate_auto_compounding_delegation_count: ha,
					delegation_count: hd,
				}
			};
			let ok = if full { go!(by, call, want, "delegate-full") } else { go!(by, call, want, "delegate") };
			if ok {
				m.dels.insert((by, c), Del { amount: x, auto, req: None });
				let delegator_position = if top(c).iter().any(|x| x.0 == by) { stk::DelegatorAdded::AddedToTop { new_total: m.counted(c) } } else { stk::DelegatorAdded::AddedToBottom };
				m.ev.push(Ev::Delegation { delegator: by, locked_amount: x, candidate: c, delegator_position, auto_compound: Percent::from_percent(auto) });
				if full {
					// the lowest one is out
					let there: BTreeSet<Acc> = top(c).iter().chain(bottom(c).iter()).map(|x| x.0).collect();
					let out: Vec<(Acc, Del)> = m.to(c).iter().filter(|d| !there.contains(&d.0)).map(|d| (d.0, d.1.clone())).collect();
					o.hit(&[D, H], "kicked");
					if out.len() != 1 || out[0].1.amount != lowest || out[0].0 == by {
						return o.violate(&[D, H], "kicked", || format!("{by} delegates {x} to {c}, which is full; the lowest delegation is {lowest}; out went {out:?}"));
					}
					if out[0].1.req.is_some() {
						o.hit(&[D], "kicked-with-request");
					}
					if out[0].1.auto > 0 {
						o.hit(&[D], "kicked-with-auto");
					}
					m.dels.remove(&(out[0].0, c));
					m.ev.push(Ev::DelegationKicked { delegator: out[0].0, candidate: c, unstaked_amount: lowest });
					if !m.is_del(out[0].0) {
						o.hit(&[H], "kicked-left");
						m.ev.push(Ev::DelegatorLeft { delegator: out[0].0, unstaked_amount: lowest });
					}
				}
				o.hit(&[H, D], "delegated");
			}
		},
		12 => {
			let (by, _) = as_del(rng, m, &|_| true);
			let want = m.is_del(by) && !m.of(by).iter().all(|d| matches!(d.1.req, Some((Act::Revoke(_), _))));
			if go!(by, C::schedule_leave_delegators {}, want, "leave-all") {
				m.ev.push(Ev::DelegatorExitScheduled { round, delegator: by, scheduled_exit: round + LeaveDel::get() });
				for (k, d) in m.dels.iter_mut().filter(|d| d.0 .0 == by) {
					let _ = k;
					if !matches!(d.req, Some((Act::Revoke(_), _))) {
						d.req = Some((Act::Revoke(d.amount), round + LeaveDel::get()));
					}
				}
			}
		},
		13 => {
			let (d, _) = as_del(rng, m, &|d| d.req.is_some());
			let n = m.of(d).len() as u32;
			let h = hint(rng, n);
			let want = m.is_del(d) && h >= n && m.of(d).iter().all(|x| matches!(x.1.req, Some((Act::Revoke(_), w)) if w <= round));
			if go!(who, C::execute_leave_delegators { delegator: d, delegation_count: h }, want, "left-all") {
				let gone: Vec<(Acc, u128)> = m.of(d).iter().map(|x| (x.0, x.1.amount)).collect();
				m.dels.retain(|k, _| k.0 != d);
				for (c, x) in &gone {
					m.ev.push(Ev::DelegatorLeftCandidate { delegator: d, candidate: *c, unstaked_amount: *x, total_candidate_staked: m.counted(*c) });
				}
				m.ev.push(Ev::DelegatorLeft { delegator: d, unstaked_amount: gone.iter().map(|x| x.1).sum() });
				o.hit(&[H, D], "left-all");
			}
		},
		14 => {
			let (by, _) = as_del(rng, m, &|d| d.req.is_some());
			let want = m.is_del(by) && m.of(by).iter().all(|x| matches!(x.1.req, Some((Act::Revoke(_), _))));
			if go!(by, C::cancel_leave_delegators {}, want, "cancel-all") {
				m.ev.push(Ev::DelegatorExitCancelled { delegator: by });
				for d in m.dels.iter_mut().filter(|d| d.0 .0 == by) {
					d.1.req = None;
				}
			}
		},
		15 => {
			let (by, c) = as_del(rng, m, &|d| d.req.is_none());
			let want = m.dels.get(&(by, c)).is_some_and(|d| d.req.is_none());
			if go!(by, C::schedule_revoke_delegation { collator: c }, want, "revoke") {
				let d = m.dels.get_mut(&(by, c)).unwrap();
				d.req = Some((Act::Revoke(d.amount), round + Revoke::get()));
				m.ev.push(Ev::DelegationRevocationScheduled { round, delegator: by, candidate: c, scheduled_exit: round + Revoke::get() });
			}
		},
		16 => {
			let (by, c) = as_del(rng, m, &|_| true);
			let more = match rng.below(8) {
				0 => stakable(by),
				1 => stakable(by) + 1,
				2 => rng.below128(3),
				_ => amount(rng),
			};
			let want = m.dels.get(&(by, c)).is_some_and(|d| !matches!(d.req, Some((Act::Revoke(_), _)))) && stakable(by) >= more;
			let was = bottom(c).iter().any(|x| x.0 == by);
			if go!(by, C::delegator_bond_more { candidate: c, more }, want, "more") {
				m.dels.get_mut(&(by, c)).unwrap().amount += more;
				m.ev.push(Ev::DelegationIncreased { delegator: by, candidate: c, amount: more, in_top: top(c).iter().any(|x| x.0 == by) });
				if was && top(c).iter().any(|x| x.0 == by) {
					o.hit(&[D], "rose-to-top");
				}
			}
		},
		17 => {
			if rng.chance(1, 2) {
				let (by, c) = as_del(rng, m, &|d| d.req.is_none());
				let d = m.dels.get(&(by, c));
				let (a, net) = (d.map_or(0, |d| d.amount), m.del_total(by) - m.less_total(by));
				let less = match rng.below(7) {
					0 => a.saturating_sub(MinDel::get()),
					1 => a.saturating_sub(MinDel::get()) + 1,
					2 => net.saturating_sub(MinDelStk::get()),
					3 => net.saturating_sub(MinDelStk::get()) + 1,
					4 => rng.below128(10 * U),
					_ => *rng.pick(&[5u128, 10, 20, 30]) * U,
				};
				let want = d.is_some_and(|d| d.req.is_none()) && a > less && a - less >= MinDel::get() && less <= net.saturating_sub(MinDelStk::get());
				if go!(by, C::schedule_delegator_bond_less { candidate: c, less }, want, "decrease") {
					m.dels.get_mut(&(by, c)).unwrap().req = Some((Act::Less(less), round + DelLess::get()));
					m.ev.push(Ev::DelegationDecreaseScheduled { delegator: by, candidate: c, amount_to_decrease: less, execute_round: round + DelLess::get() });
				}
			} else {
				let (d, c) = as_del(rng, m, &|d| d.req.is_some_and(|r| r.1 <= round));
				let Some((x, t, n)) = m.dels.get(&(d, c)).map(|x| (x.clone(), m.del_total(d), m.of(d).len())) else {
					go!(who, C::execute_delegation_request { delegator: d, candidate: c }, false, "execute");
					return watch(o, m, "the call");
				};
				let min = MinDelStk::get();
				let want = match x.req {
					Some((Act::Revoke(_), w)) => w <= round && (n == 1 || t >= min + x.amount || (x.amount == 0 && t < min)),
					Some((Act::Less(l), w)) => w <= round && x.amount > l && t - l >= min,
					None => false,
				};
				let was = top(c).iter().any(|x| x.0 == d);
				if go!(who, C::execute_delegation_request { delegator: d, candidate: c }, want, "execute") {
					match x.req {
						Some((Act::Revoke(_), _)) => {
							m.dels.remove(&(d, c));
							m.ev.push(Ev::DelegatorLeftCandidate { delegator: d, candidate: c, unstaked_amount: x.amount, total_candidate_staked: m.counted(c) });
							m.ev.push(Ev::DelegationRevoked { delegator: d, candidate: c, unstaked_amount: x.amount });
							if n == 1 {
								m.ev.push(Ev::DelegatorLeft { delegator: d, unstaked_amount: x.amount });
							}
							o.hit(&[H, D], if was { "revoked-top" } else { "revoked-bottom" });
						},
						Some((Act::Less(l), _)) => {
							let e = m.dels.get_mut(&(d, c)).unwrap();
							e.amount -= l;
							e.req = None;
							let is = top(c).iter().any(|x| x.0 == d);
							m.ev.push(Ev::DelegationDecreased { delegator: d, candidate: c, amount: l, in_top: is });
							o.hit(&[H, D], match (was, is) {
								(true, true) => "decreased-top",
								(true, false) => "fell-to-bottom",
								(false, _) => "decreased-bottom",
							});
						},
						None => (),
					}
				}
			}
		},
		18 => {
			let (by, c) = as_del(rng, m, &|d| d.req.is_some());
			let want = m.dels.get(&(by, c)).is_some_and(|d| d.req.is_some());
			if go!(by, C::cancel_delegation_request { candidate: c }, want, "cancel") {
				let (act, when_executable) = m.dels.get_mut(&(by, c)).unwrap().req.take().unwrap();
				let action = match act {
					Act::Revoke(x) => DelegationAction::Revoke(x),
					Act::Less(x) => DelegationAction::Decrease(x),
				};
				m.ev.push(Ev::CancelledDelegationRequest { delegator: by, collator: c, cancelled_request: stk::CancelledScheduledRequest { when_executable, action } });
			}
		},
		19 => {
			let (by, c) = as_del(rng, m, &|_| true);
			let (n_a, n_d) = (m.autos(c), m.of(by).len() as u32);
			let (ha, hd) = (hint(rng, n_a), hint(rng, n_d));
			let v = *rng.pick(&[0u8, 0, 10, 50, 100]);
			let want = m.dels.contains_key(&(by, c)) && ha >= n_a && hd >= n_d;
			let call = C::set_auto_compound { candidate: c, value: Percent::from_percent(v), candidate_auto_compounding_delegation_count_hint: ha, delegation_count_hint: hd };
			if go!(by, call, want, "auto") {
				m.dels.get_mut(&(by, c)).unwrap().auto = v;
				m.ev.push(Ev::AutoCompoundSet { candidate: c, delegator: by, value: Percent::from_percent(v) });
			}
		},
		// governance
		20..=24 | 26 | 27 => {
			let root = !rng.chance(1, 8);
			let (call, ok) = match k {
				20 => {
					let new = rng.range(0, 6) as u32;
					(C::set_total_selected { new }, new >= MinSelected::get() && new != m.n_selected && new < m.length)
				},
				21 => {
					let new = *rng.pick(&[0u32, 0, 100_000_000, 500_000_000, 1_000_000_000]);
					(C::set_collator_commission { new: Perbill::from_parts(new) }, new != m.commission)
				},
				22 => {
					let new = rng.range(2, 9) as u32;
					(C::set_blocks_per_round { new }, new >= MinBlocks::get() && new != m.length && new > m.n_selected)
				},
				23 => {
					let a = rng.below(100_000_000) as u32;
					let (b, c) = (a + rng.below(50_000_000) as u32, a + rng.below(100_000_000) as u32);
					let schedule = Range { min: Perbill::from_parts(a), ideal: Perbill::from_parts(b), max: Perbill::from_parts(c) };
					(C::set_inflation { schedule }, a <= b && b <= c && (a, b, c) != m.annual)
				},
				26 => {
					let new = rng.range(1, USERS);
					(C::set_parachain_bond_account { new }, new != m.bond_info.0)
				},
				27 => {
					let new = *rng.pick(&[0u8, 10, 30, 100]);
					(C::set_parachain_bond_reserve_percent { new: Percent::from_percent(new) }, new != m.bond_info.1)
				},
				_ => {
					let a = rng.below128(900) * U;
					let (b, c) = (a + rng.below128(200) * U, a + rng.below128(500) * U);
					(C::set_staking_expectations { expectations: Range { min: a, ideal: b, max: c } }, a <= b && b <= c && (a, b, c) != m.expect)
				},
			};
			let want = root && ok;
			let t = format!("{call:?}");
			o.op(|| format!("{} {t}", if root { "root".into() } else { format!("#{who}") }));
			let by = if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(who) };
			o.hit(&[V], if want { "governance-yes" } else { "governance-no" });
			let ctx = format!("length {}, selected {}", m.length, m.n_selected);
			match dispatch(o, by, call.clone(), want, &ctx) {
				Some(true) => {
					let per_round = Stk::inflation_config().round;
					m.ev.push(match call {
						C::set_total_selected { new } => Ev::TotalSelectedSet { old: std::mem::replace(&mut m.n_selected, new), new },
						C::set_collator_commission { new } => Ev::CollatorCommissionSet { old: Perbill::from_parts(std::mem::replace(&mut m.commission, new.deconstruct())), new },
						C::set_blocks_per_round { new } => Ev::BlocksPerRoundSet {
							current_round: round,
							first_block: m.first,
							old: std::mem::replace(&mut m.length, new),
							new,
							new_per_round_inflation_min: per_round.min,
							new_per_round_inflation_ideal: per_round.ideal,
							new_per_round_inflation_max: per_round.max,
						},
						C::set_inflation { schedule: s } => {
							m.annual = (s.min.deconstruct(), s.ideal.deconstruct(), s.max.deconstruct());
							Ev::InflationSet {
								annual_min: s.min,
								annual_ideal: s.ideal,
								annual_max: s.max,
								round_min: per_round.min,
								round_ideal: per_round.ideal,
								round_max: per_round.max,
							}
						},
						C::set_parachain_bond_account { new } => Ev::ParachainBondAccountSet { old: std::mem::replace(&mut m.bond_info.0, new), new },
						C::set_parachain_bond_reserve_percent { new } => {
							Ev::ParachainBondReservePercentSet { old: Percent::from_percent(std::mem::replace(&mut m.bond_info.1, new.deconstruct())), new }
						},
						C::set_staking_expectations { expectations: e } => {
							m.expect = (e.min, e.ideal, e.max);
							Ev::StakeExpectationsSet { expect_min: e.min, expect_ideal: e.ideal, expect_max: e.max }
						},
						_ => unreachable!(),
					});
				},
				Some(false) => (),
				None => return,
			}
		},
		_ => {
			let c = cand(rng, m);
			let want = !m.cands.contains_key(&c);
			go!(who, C::hotfix_remove_delegation_requests_exited_candidates { candidates: vec![c] }, want, "hotfix");
		},
	}
	watch(o, m, "the call");
	if !o.stop() {
		let want = std::mem::take(&mut m.ev);
		told(o, "the call", reported(), want);
	}
}

fn watch(o: &mut Obs, m: &mut Model, what: &str) {
	// custody
	for a in (1..=USERS).chain([PayMaster::get(), 200]) {
		let want = (m.cands.get(&a).map_or(0, |c| c.bond), m.del_total(a));
		if held(a) != want {
			return o.violate(&[H], "hold", || format!("after {what}: {a} has bonded (as candidate, as delegator) {want:?}, held are {:?}", held(a)));
		}
		let t = total(a);
		let old = m.balances.insert(a, t).unwrap_or(0);
		if what == "the call" && old != t {
			return o.violate(&[H], "money", || format!("after {what}: {a} owned {old}, now {t}"));
		}
		if want != (0, 0) {
			o.hit(&[H], "held");
		}
	}
	let want = m.staked_now();
	if Stk::total() != want {
		return o.violate(&[H], "total", || format!("after {what}: {want} is at stake in all, recorded {}", Stk::total()));
	}
	for a in 1..=USERS {
		let mine = m.of(a);
		match Stk::delegator_state(a) {
			None if !mine.is_empty() => return o.violate(&[H, D], "delegator-forgotten", || format!("after {what}: {a} delegates {mine:?}, nothing is recorded")),
			None => (),
			Some(s) => {
				let got: Vec<(Acc, u128)> = s.delegations.0.iter().map(|b| (b.owner, b.amount)).collect();
				let want: Vec<(Acc, u128)> = mine.iter().map(|x| (x.0, x.1.amount)).collect();
				let (t, l) = (m.del_total(a), m.less_total(a));
				if got != want || s.total != t || s.less_total != l || mine.is_empty() {
					return o.violate(if got != want || s.total != t { &[H, D] } else { &[D, V] }, "delegator", || format!("after {what}: {a} delegates {want:?} ({t}, {l} of it on its way out), recorded {got:?} ({}, {})", s.total, s.less_total));
				}
			},
		}
	}
	// the books of every candidate
	for a in 1..=USERS {
		let Some(c) = m.cands.get(&a) else {
			if Stk::candidate_info(a).is_some() || Stk::top_delegations(a).is_some() || Stk::bottom_delegations(a).is_some() || !Stk::auto_compounding_delegations(a).is_empty() || !Stk::delegation_scheduled_requests(a).is_empty() {
				return o.violate(&[D], "not-a-candidate", || format!("after {what}: {a} is no candidate but has records"));
			}
			continue;
		};
		let Some(i) = Stk::candidate_info(a) else {
			return o.violate(&[D, V, H], "candidate-forgotten", || format!("after {what}: {a} is a candidate, nothing is recorded"));
		};
		let (t, b) = (top(a), bottom(a));
		let (mt, mb) = (MaxTop::get() as usize, MaxBottom::get() as usize);
		let mut all: Vec<(Acc, u128)> = t.iter().chain(b.iter()).copied().collect();
		all.sort();
		let want: Vec<(Acc, u128)> = m.to(a).iter().map(|x| (x.0, x.1.amount)).collect();
		if all != want {
			return o.violate(&[D], "delegations", || format!("after {what}: {want:?} delegate to {a}, its lists are {t:?} and {b:?}"));
		}
		let sorted = |v: &[(Acc, u128)]| v.windows(2).all(|w| w[0].1 >= w[1].1);
		if !sorted(&t) || !sorted(&b) || t.len() > mt || b.len() > mb || (!b.is_empty() && t.len() < mt) {
			return o.violate(&[D], "lists", || format!("after {what}: candidate {a}: top {t:?}, bottom {b:?} (room for {mt} and {mb})"));
		}
		if let (Some(x), Some(y)) = (t.last(), b.first()) {
			o.hit(&[D], if x.1 == y.1 { "tie-at-the-cut" } else { "both-lists" });
			if x.1 < y.1 {
				return o.violate(&[D], "not-the-top", || format!("after {what}: candidate {a}: top {t:?}, bottom {b:?}"));
			}
		}
		let (st, sb): (u128, u128) = (t.iter().map(|x| x.1).sum(), b.iter().map(|x| x.1).sum());
		let (gt, gb) = (Stk::top_delegations(a).unwrap().total, Stk::bottom_delegations(a).unwrap().total);
		if gt != st || gb != sb {
			return o.violate(&[D], "list-totals", || format!("after {what}: candidate {a}: top {t:?} recorded as {gt}, bottom {b:?} recorded as {gb}"));
		}
		if i.bond != c.bond || i.total_counted != c.bond + st || i.delegation_count as usize != want.len() {
			return o.violate(&[D, H, R], "counted", || format!("after {what}: candidate {a} with bond {} and top {t:?}: recorded bond {}, counted {}, {} delegations of {}", c.bond, i.bond, i.total_counted, i.delegation_count, want.len()));
		}
		let low = |v: &[(Acc, u128)]| v.last().map_or(0, |x| x.1);
		let lim = (low(&t), b.first().map_or(0, |x| x.1), low(&b));
		let got = (i.lowest_top_delegation_amount, i.highest_bottom_delegation_amount, i.lowest_bottom_delegation_amount);
		let cap = |n: usize, max: usize| if n >= max { stk::CapacityStatus::Full } else if n == 0 { stk::CapacityStatus::Empty } else { stk::CapacityStatus::Partial };
		if lim != got || i.top_capacity != cap(t.len(), mt) || i.bottom_capacity != cap(b.len(), mb) {
			return o.violate(&[D], "limits", || format!("after {what}: candidate {a}: top {t:?}, bottom {b:?}: recorded limits {got:?}, {:?}, {:?}", i.top_capacity, i.bottom_capacity));
		}
		let st = match i.status {
			stk::CollatorStatus::Active => St::Active,
			stk::CollatorStatus::Idle => St::Idle,
			stk::CollatorStatus::Leaving(r) => St::Leaving(r),
		};
		if st != c.st || i.request.map(|r| (r.amount, r.when_executable)) != c.less {
			return o.violate(&[V, D], "candidate", || format!("after {what}: candidate {a} is {:?} with request {:?}; recorded {st:?}, {:?}", c.st, c.less, i.request));
		}
		let autos: BTreeMap<Acc, u8> = Stk::auto_compounding_delegations(a).iter().map(|x| (x.delegator, x.value.deconstruct())).collect();
		let want: BTreeMap<Acc, u8> = m.to(a).iter().filter(|x| x.1.auto > 0).map(|x| (x.0, x.1.auto)).collect();
		if autos != want || Stk::auto_compounding_delegations(a).len() != want.len() {
			return o.violate(&[D, P], "auto-compound", || format!("after {what}: candidate {a}: auto-compounding {want:?}, recorded {autos:?}"));
		}
		if !want.is_empty() {
			o.hit(&[D], "auto");
		}
		let mut reqs: Vec<(Acc, Act, u32)> = Stk::delegation_scheduled_requests(a)
			.iter()
			.map(|r| (r.delegator, match r.action { DelegationAction::Revoke(x) => Act::Revoke(x), DelegationAction::Decrease(x) => Act::Less(x) }, r.when_executable))
			.collect();
		reqs.sort_by_key(|x| x.0);
		let want: Vec<(Acc, Act, u32)> = m.to(a).iter().filter_map(|x| x.1.req.map(|r| (x.0, r.0, r.1))).collect();
		if reqs != want {
			return o.violate(&[D, V], "requests", || format!("after {what}: candidate {a}: requests {want:?}, recorded {reqs:?}"));
		}
		if !want.is_empty() {
			o.hit(&[D], "requests");
		}
		o.state(hash_debug(&(c, &t, &b, &autos, &reqs)));
	}
	let pool: Vec<(Acc, u128)> = Stk::candidate_pool().0.iter().map(|b| (b.owner, b.amount)).collect();
	let want: Vec<(Acc, u128)> = m.cands.iter().filter(|c| c.1.st == St::Active).map(|c| (*c.0, c.1.bond + top(*c.0).iter().map(|x| x.1).sum::<u128>())).collect();
	if pool != want {
		return o.violate(&[D, R], "pool", || format!("after {what}: standing (candidate, stake) {want:?}, recorded {pool:?}"));
	}
	// rounds, points, inflation
	let r = Stk::round();
	if (r.current, r.first, r.length) != (m.round, m.first, m.length) {
		return o.violate(&[R], "round", || format!("after {what}: round {} began at {} and lasts {}; recorded {r:?}", m.round, m.first, m.length));
	}
	if Stk::selected_candidates() != m.selected.iter().copied().collect::<Vec<_>>() || Stk::total_selected() != m.n_selected {
		return o.violate(&[R], "selected", || format!("after {what}: {:?} are selected, {} next; recorded {:?}, {}", m.selected, m.n_selected, Stk::selected_candidates(), Stk::total_selected()));
	}
	let pts = m.points.get(&m.round);
	let all: u32 = pts.map_or(0, |p| p.values().sum());
	if Stk::points(m.round) != all || pts.is_some_and(|p| p.iter().any(|x| Stk::awarded_pts(m.round, x.0) != *x.1)) {
		return o.violate(&[P], "points", || format!("after {what}: round {}: {pts:?}; recorded {} in all", m.round, Stk::points(m.round)));
	}
	let i = Stk::inflation_config();
	let p = Stk::parachain_bond_info();
	if (p.account, p.percent.deconstruct()) != m.bond_info || annual(&i) != m.annual || expect(&i) != m.expect || Stk::collator_commission().deconstruct() != m.commission {
		return o.violate(&[P, V], "settings", || format!("after {what}: {:?} {:?} {} {:?}: recorded {i:?}, {:?}, {p:?}", m.annual, m.expect, m.commission, m.bond_info, Stk::collator_commission()));
	}
	for (a, r) in [(m.annual.0, i.round.min), (m.annual.1, i.round.ideal), (m.annual.2, i.round.max)] {
		let want = round_rate(a, m.length);
		if (r.deconstruct() as f64 - want).abs() > 2.0 {
			return o.violate(&[P, V], "round-inflation", || format!("after {what}: {a} ppb a year make {want} ppb per {} blocks, recorded {}", m.length, r.deconstruct()));
		}
	}
	m.lots += 1;
}

fn main() {
	const A: &[&str] = &["pallet-balances and frame (registry crates) behave as documented", "authorship, session and fixed-point crates are stand-ins of the parts the pallet uses", "holds on the histories generated from this seed"];
	let props = [
		PropInfo { id: H, rule: "a history is 30-90 blocks of random calls by 11 accounts, rounds and payouts, with random delays and list sizes; non-trivial when bonds were held and compared with the ledger", required: &["held", "delegated", "kicked", "kicked-left", "left-with-delegations", "left-all", "revoked-top", "revoked-bottom", "compounded", "paid-with-delegators", "fell-to-bottom"], quick: 5_000, thorough: 1_000_000, assumptions: A },
		PropInfo { id: D, rule: "as C38; non-trivial when both lists of a candidate were populated", required: &["delegated-from-the-beginning", "compounds-from-the-beginning", "both-lists", "tie-at-the-cut", "kicked", "kicked-with-request", "kicked-with-auto", "rose-to-top", "fell-to-bottom", "decreased-bottom", "revoked-bottom", "auto", "requests", "compounded"], quick: 5_000, thorough: 1_000_000, assumptions: A },
		PropInfo { id: V, rule: "as C38; every call has a predicted answer", required: &["join-yes", "join-no", "left-yes", "left-no", "delegate-yes", "delegate-no", "delegate-full-yes", "delegate-full-no", "less-yes", "less-no", "execute-yes", "execute-no", "left-all-yes", "left-all-no", "governance-yes", "governance-no", "cancel-all-yes"], quick: 5_000, thorough: 1_000_000, assumptions: A },
		PropInfo { id: R, rule: "as C38; non-trivial when a round began and its collators and snapshots were compared", required: &["round", "snapshot", "some-not-selected", "all-selected", "selection-changed", "nobody-stands", "revoked-not-counted", "decrease-not-counted"], quick: 5_000, thorough: 1_000_000, assumptions: A },
		PropInfo { id: P, rule: "as C38; non-trivial when a collator's payout was compared with its shares", required: &["paid-solo", "paid-with-delegators", "compounded", "not-compounded", "revoked-unpaid", "issuance-min", "issuance-ideal", "issuance-max"], quick: 5_000, thorough: 1_000_000, assumptions: A },
		PropInfo { id: E, rule: "as C38; the events of every call and block are compared with what it did", required: TOLD, quick: 5_000, thorough: 1_000_000, assumptions: A },
	];
	mon::main_with(&props, &[], random_history)
}
