//! C53: what one part of the runtime tells another.
use crate::{
	acc,
	env::{cumulus_primitives_core::ParaId, Treasury, ELECTED, FEEDS, PAUSED, PROVIDERS, QUEUED, SLOTS, TOLD},
	growth, operations, poly,
	rt::{Balances, ParachainStaking, ProxyBonding, Runtime, RuntimeHoldReason, RuntimeOrigin, System, Vesting, PRICES},
	ASSETS,
};
use frame_support::{
	dispatch::RawOrigin,
	instances::{Instance1, Instance2},
	storage::{with_transaction, TransactionOutcome},
	traits::{
		fungible,
		fungibles,
		tokens::Pay,
		ChangeMembers, Currency, EnqueueMessage, EstimateNextSessionRotation, HandleMessage, Hooks, InitializeMembers, OnTimestampSet, OnUnbalanced,
		QueueFootprint, QueuePausedQuery, SortedMembers, VestingSchedule,
	},
	BoundedSlice,
};
use mon::*;
use on_slash_vesting::OnSlash;
use pallet_authorship::EventHandler;
use pallet_parachain_staking as stk;
use pallet_session::{SessionManager, ShouldEndSession};
use parachains_common::{
	message_queue::{AggregateMessageOrigin as From_, OnQueueChanged},
	AccountId,
};
use polimec_common::PLMC_FOREIGN_ID;
use sp_arithmetic::{FixedU128, Perbill, Percent};
use sp_runtime::{BuildStorage, DispatchError};
use std::collections::BTreeMap;

const P: &[&str] = &["C53"];
const ED: u128 = 100_000_000;
const PLMC: u128 = 10_000_000_000;
type Council = crate::collective::Pallet<Runtime, Instance1>;
type Experts = crate::collective::Pallet<Runtime, Instance2>;
type Body = (Vec<AccountId>, Option<AccountId>);

/// Everything the hooks could touch.
#[derive(Clone, Debug, PartialEq)]
struct World {
	council: Body,
	experts: Body,
	feeds: BTreeMap<AccountId, u32>,
	slots: Vec<u64>,
	queue: Vec<(From_, Vec<u8>)>,
	told: Vec<(u32, u64)>,
	points: BTreeMap<(u32, AccountId), u32>,
	round_points: BTreeMap<u32, u32>,
	/// all a PLMC account has, and how much of it is on hold
	plmc: BTreeMap<AccountId, (u128, u128)>,
	supply: u128,
	contribution: BTreeMap<(u32, AccountId), u128>,
	foreign: BTreeMap<(u32, AccountId), u128>,
	vesting: BTreeMap<AccountId, Vec<(u128, u128, u32)>>,
	round: (u32, u32, u32),
	chosen: Vec<AccountId>,
}
fn vesting() -> BTreeMap<AccountId, Vec<(u128, u128, u32)>> {
	pallet_vesting::Vesting::<Runtime>::iter()
		.map(|(a, v)| (a, v.iter().map(|s| (s.locked(), s.per_block(), s.starting_block())).collect::<Vec<_>>()))
		.filter(|(_, v)| !v.is_empty())
		.collect()
}
fn world() -> World {
	use crate::collective::{Members, Prime};
	let r = ParachainStaking::round();
	World {
		council: (Members::<Runtime, Instance1>::get(), Prime::<Runtime, Instance1>::get()),
		experts: (Members::<Runtime, Instance2>::get(), Prime::<Runtime, Instance2>::get()),
		feeds: FEEDS.with(|f| f.borrow().clone()),
		slots: SLOTS.with(|s| s.borrow().clone()),
		queue: QUEUED.with(|q| q.borrow().clone()),
		told: TOLD.with(|t| t.borrow().clone()),
		points: stk::AwardedPts::<Runtime>::iter().map(|(r, a, p)| ((r, a), p)).collect(),
		round_points: stk::Points::<Runtime>::iter().collect(),
		plmc: frame_system::Account::<Runtime>::iter().map(|(a, x)| (a, (x.data.free + x.data.reserved, x.data.reserved))).filter(|(_, x)| x.0 > 0).collect(),
		supply: Balances::total_issuance(),
		contribution: mini_assets::Account::<Runtime, Instance1>::iter().map(|(i, a, h)| ((i, a), h.balance)).filter(|x| x.1 > 0).collect(),
		foreign: mini_assets::Account::<Runtime, Instance2>::iter().map(|(i, a, h)| ((i, a), h.balance)).filter(|x| x.1 > 0).collect(),
		vesting: vesting(),
		round: (r.current, r.first, r.length),
		chosen: ParachainStaking::selected_candidates().to_vec(),
	}
}
/// The first part of the world in which the two differ.
fn differ(a: &World, b: &World) -> Option<(&'static str, String)> {
	macro_rules! each {
		($($f:ident: $n:literal)*) => {$(
			if a.$f != b.$f {
				return Some(($n, format!("{:?} rather than {:?}", a.$f, b.$f)))
			}
		)*};
	}
	each! {
		council: "council" experts: "technical-committee" feeds: "oracle" slots: "slots" queue: "queue" told: "queue-changes" points: "author-points"
		round_points: "round-points" plmc: "balances" supply: "supply" contribution: "contribution-tokens" foreign: "foreign-assets" vesting: "vesting"
		round: "round" chosen: "collators"
	}
	None
}

type ObsRef<'a> = &'a mut Obs;

/// Runs the hook and compares the world it leaves with the one it should.
fn expect<R>(o: ObsRef, kind: &'static str, what: String, want: World, f: impl FnOnce() -> R) -> Option<R> {
	o.op(|| what.clone());
	match o.guard(f) {
		Err(p) => {
			o.violate(P, "panic", || format!("{what}: panicked: {p}"));
			None
		},
		Ok(r) => {
			o.hit(P, kind);
			if let Some((part, d)) = differ(&world(), &want) {
				o.violate(P, part, || format!("{what}: {part}: {d}"));
			}
			Some(r)
		},
	}
}
fn set(rng: &mut Rng, most: u64) -> Vec<AccountId> {
	let n = rng.below(most + 1);
	let mut v: Vec<AccountId> = (0..n).map(|_| acc(rng.range(1, 9) as u8)).collect();
	v.sort();
	v.dedup();
	v
}
fn names(v: &[AccountId]) -> String {
	format!("{:?}", v.iter().map(|a| <AccountId as AsRef<[u8; 32]>>::as_ref(a)[0]).collect::<Vec<_>>())
}

pub fn history(seed: u64, o: &mut Obs) {
	let mut rng = Rng::new(seed);
	FEEDS.with(|f| f.borrow_mut().clear());
	SLOTS.with(|s| s.borrow_mut().clear());
	QUEUED.with(|q| q.borrow_mut().clear());
	TOLD.with(|t| t.borrow_mut().clear());
	PAUSED.with(|p| p.borrow_mut().clear());
	PROVIDERS.with(|p| *p.borrow_mut() = set(&mut rng, 5));
	ELECTED.with(|p| *p.borrow_mut() = set(&mut rng, 5));
	PRICES.with(|p| {
		let mut p = p.borrow_mut();
		p.clear();
		for (i, x) in [(PLMC_FOREIGN_ID, 840), (10, 6_900), (1984, 1_000), (1337, 1_001)] {
			p.insert(i, FixedU128::from_rational(x, 1_000));
		}
	});
	let mut balances: Vec<(AccountId, u128)> = (1..=9).map(|a| (acc(a), (60_000 + rng.below128(50_000)) * PLMC)).collect();
	balances.push((growth(), 1_000_000 * PLMC));
	balances.push((operations(), 1_000_000 * PLMC));
	let mut st = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Runtime> { balances }.assimilate_storage(&mut st).unwrap();
	let mut candidates: Vec<(AccountId, u128)> = set(&mut rng, 8).into_iter().map(|a| (a, (50_000 + rng.below128(5_000)) * PLMC)).collect();
	if rng.chance(1, 8) {
		candidates.clear();
	}
	stk::GenesisConfig::<Runtime> {
		candidates,
		delegations: vec![],
		inflation_config: Default::default(),
		collator_commission: Perbill::from_percent(20),
		parachain_bond_reserve_percent: Percent::from_percent(0),
		blocks_per_round: rng.range(10, 14) as u32,
		num_selected_candidates: 6,
	}
	.assimilate_storage(&mut st)
	.unwrap();
	let mut ext = sp_io::TestExternalities::new(st);
	ext.execute_with(|| {
		System::set_block_number(1);
		for i in [1, 2, 10, 1984, 1337] {
			let d = mini_assets::pallet::Details { supply: 0, min_balance: 1, sufficient: true, accounts: 0, destroying: false };
			mini_assets::Asset::<Runtime, Instance1>::insert(i, d.clone());
			mini_assets::Asset::<Runtime, Instance2>::insert(i, d);
			let decimals = ASSETS.iter().find(|a| a.0 == i).map_or(10, |a| a.1);
			mini_assets::Metadata::<Runtime, Instance2>::insert(i, (b"a".to_vec(), b"a".to_vec(), decimals));
		}
		for (i, _) in ASSETS {
			for a in 1..=9 {
				let _ = <crate::rt::ForeignAssets as fungibles::Mutate<AccountId>>::mint_into(i, &acc(a), 1_000_000_000_000_000);
			}
		}
		let m = set(&mut rng, 6);
		let mut w = world();
		w.council.0 = m.clone();
		expect(o, "council-seated", format!("the first council is {}", names(&m)), w, || {
			<poly::w_pallet_elections_phragmen::InitializeMembers as InitializeMembers<AccountId>>::initialize_members(&m)
		});
		crate::collective::Members::<Runtime, Instance2>::put(set(&mut rng, 4));
		for _ in 0..rng.range(30, 80) {
			if o.stop() {
				return
			}
			match rng.below(24) {
				0..=3 => council(o, &mut rng),
				4..=6 => providers(o, &mut rng),
				7..=9 => author(o, &mut rng),
				10 | 11 => session(o, &mut rng),
				12 | 13 => block(),
				14 => slash(o, &mut rng),
				15 => vest(o, &mut rng),
				16 | 17 => messages(o, &mut rng),
				18 => time(o, &mut rng),
				19 | 20 => ledgers(o, &mut rng),
				21 => treasury(o, &mut rng),
				_ => bonds(o, &mut rng),
			}
			let w = world();
			o.state(hash_str(&format!("{:?}{:?}{:?}{:?}", w.council, w.feeds, w.queue, w.round)));
		}
	});
}

fn council(o: ObsRef, rng: &mut Rng) {
	type Told = poly::w_pallet_elections_phragmen::ChangeMembers;
	let mut w = world();
	if rng.chance(1, 3) && !w.council.0.is_empty() {
		let p = if rng.chance(1, 4) { None } else { Some(rng.pick(&w.council.0).clone()) };
		w.council.1 = p.clone();
		expect(o, "prime-told", format!("the elections make {p:?} the prime"), w, || <Told as ChangeMembers<AccountId>>::set_prime(p));
		return
	}
	let (old, new) = (w.council.0.clone(), set(rng, 7));
	ELECTED.with(|e| *e.borrow_mut() = new.clone());
	w.council = (new.clone(), None);
	let what = format!("the elections replace {} by {}", names(&old), names(&new));
	expect(o, "council-told", what, w, || <Told as ChangeMembers<AccountId>>::set_members_sorted(&new, &old));
}

fn providers(o: ObsRef, rng: &mut Rng) {
	for a in PROVIDERS.with(|p| p.borrow().clone()) {
		if rng.chance(2, 3) {
			FEEDS.with(|f| f.borrow_mut().insert(a, rng.below(100) as u32));
		}
	}
	let old = PROVIDERS.with(|p| p.borrow().clone());
	let new = set(rng, 6);
	PROVIDERS.with(|p| *p.borrow_mut() = new.clone());
	let mut w = world();
	w.feeds.retain(|a, _| new.contains(a) || !old.contains(a));
	type Told = poly::w_pallet_membership_1::MembershipChanged;
	let what = format!("the oracle members {} become {}", names(&old), names(&new));
	expect(o, "oracle-told", what.clone(), w, || <Told as ChangeMembers<AccountId>>::set_members_sorted(&new, &old));
	for who in 1..=9 {
		let a = acc(who);
		let may = new.contains(&a);
		let feed = <poly::w_orml_oracle::Members as SortedMembers<AccountId>>::contains(&a);
		let fetch = <poly::w_pallet_oracle_ocw::Members as SortedMembers<AccountId>>::contains(&a);
		o.hit(P, "providers-asked");
		if feed != may || fetch != may {
			o.violate(P, "oracle-members", || format!("{what}: #{who} may feed: {feed}, its worker may run: {fetch}"));
		}
	}
	let list = <poly::w_pallet_oracle_ocw::Members as SortedMembers<AccountId>>::sorted_members();
	if list != new || <poly::w_orml_oracle::Members as SortedMembers<AccountId>>::sorted_members() != new {
		o.violate(P, "oracle-members", || format!("{what}: the oracle is told of {}", names(&list)));
	}
}

fn author(o: ObsRef, rng: &mut Rng) {
	let mut w = world();
	let a = if w.chosen.is_empty() || rng.chance(1, 6) { acc(rng.range(1, 9) as u8) } else { rng.pick(&w.chosen).clone() };
	let r = w.round.0;
	*w.points.entry((r, a.clone())).or_default() += 20;
	*w.round_points.entry(r).or_default() += 20;
	expect(o, "author-credited", format!("{} made block {}", names(&[a.clone()]), System::block_number()), w, || {
		<poly::w_pallet_authorship::EventHandler as EventHandler<AccountId, u32>>::note_author(a)
	});
}

fn session(o: ObsRef, rng: &mut Rng) {
	type Manager = poly::w_pallet_session::SessionManager;
	let (w, now, k) = (world(), System::block_number(), rng.below(100) as u32);
	let (_, first, length) = w.round;
	let got = expect(o, "session-made", format!("session {k} is made"), w.clone(), || {
		if rng.chance(1, 4) {
			<Manager as SessionManager<AccountId>>::new_session_genesis(k)
		} else {
			<Manager as SessionManager<AccountId>>::new_session(k)
		}
	});
	let want = if w.chosen.is_empty() { None } else { Some(w.chosen.clone()) };
	if got.map_or(false, |g| g != want) {
		o.violate(P, "session", || format!("the collators of session {k} are not {want:?}"));
	}
	for _ in 0..4 {
		let at = now + rng.below(2 * length as u64) as u32;
		let ends = <poly::w_pallet_session::ShouldEndSession as ShouldEndSession<u32>>::should_end_session(at);
		o.hit(P, if at >= first + length { "session-ends" } else { "session-goes-on" });
		if ends != (at >= first + length) {
			o.violate(P, "session-end", || format!("round {first}+{length}: the session ends at {at}: {ends}"));
		}
	}
	type Next = poly::w_pallet_session::NextSessionRotation;
	let next = <Next as EstimateNextSessionRotation<u32>>::estimate_next_session_rotation(now).0;
	if next != Some(first + length) || <Next as EstimateNextSessionRotation<u32>>::average_session_length() != length {
		o.violate(P, "session-rotation", || format!("round {first}+{length}: the next rotation is expected at {next:?}"));
	}
	expect(o, "session-made", format!("session {k} ends"), w, || {
		<Manager as SessionManager<AccountId>>::end_session(k);
		<Manager as SessionManager<AccountId>>::start_session(k + 1);
	});
}

fn block() {
	let n = System::block_number() + 1;
	System::set_block_number(n);
	ParachainStaking::on_initialize(n);
	ParachainStaking::on_finalize(n);
}

fn some_vesting(rng: &mut Rng, a: &AccountId) {
	let locked = (1 + rng.below128(50)) * PLMC;
	let per = 1 + rng.below128(locked);
	let start = System::block_number() + rng.below(20) as u32;
	let _ = <Vesting as VestingSchedule<AccountId>>::add_vesting_schedule(a, locked, per, start);
}

fn slash(o: ObsRef, rng: &mut Rng) {
	let a = acc(rng.range(1, 9) as u8);
	if rng.chance(3, 4) {
		some_vesting(rng, &a);
	}
	let x = rng.edgy128(60 * PLMC);
	let mut w = world();
	// what pallet-vesting makes of it (C21 and C22 judge that)
	w.vesting = with_transaction(|| {
		<Vesting as OnSlash<AccountId, u128>>::on_slash(&a, x);
		TransactionOutcome::Rollback(Ok::<_, DispatchError>(vesting()))
	})
	.expect("rolled back");
	if w.vesting != vesting() {
		o.hit(P, "slash-unlocks");
	}
	expect(o, "slash-told", format!("funding slashes {} by {x}", names(&[a.clone()])), w, || {
		<poly::w_pallet_funding::OnSlash as OnSlash<AccountId, u128>>::on_slash(&a, x)
	});
}

fn vest(o: ObsRef, rng: &mut Rng) {
	let a = acc(rng.range(1, 9) as u8);
	let mut w = world();
	if w.vesting.get(&a).map_or(0, |v| v.len()) > 5 {
		return
	}
	let (locked, per, start) = ((1 + rng.below128(50)) * PLMC, 1 + rng.below128(PLMC), System::block_number() + rng.below(9) as u32);
	// schedules that have run out go when a new one comes
	w.vesting = with_transaction(|| {
		let _ = <Vesting as VestingSchedule<AccountId>>::add_vesting_schedule(&a, locked, per, start);
		TransactionOutcome::Rollback(Ok::<_, DispatchError>(vesting()))
	})
	.expect("rolled back");
	if w.vesting.get(&a).map_or(true, |v| v.last() != Some(&(locked, per, start))) {
		return o.violate(P, "vesting", || format!("the vesting pallet does not take {locked} from {start}, {per} a block"));
	}
	let what = format!("the dispenser locks {locked} of {} from {start}, {per} a block", names(&[a.clone()]));
	let r = expect(o, "dispensed-vests", what.clone(), w, || {
		<poly::w_pallet_dispenser::VestingSchedule as VestingSchedule<AccountId>>::add_vesting_schedule(&a, locked, per, start)
	});
	if let Some(Err(e)) = r {
		o.violate(P, "vesting", || format!("{what}: refused: {e:?}"));
	}
}

fn messages(o: ObsRef, rng: &mut Rng) {
	type Down = poly::w_cumulus_pallet_parachain_system::DmpQueue;
	type Across = poly::w_cumulus_pallet_xcmp_queue::XcmpQueue;
	let body: Vec<u8> = (0..rng.below(6)).map(|_| rng.below(256) as u8).collect();
	let id = *rng.pick(&[0u32, 1, 1000, 2000, 3344]);
	let mut w = world();
	match rng.below(7) {
		0 | 1 => {
			w.queue.push((From_::Parent, body.clone()));
			expect(o, "relay-message", format!("the relay chain sends {body:?}"), w, || {
				<Down as HandleMessage>::handle_message(BoundedSlice::try_from(&body[..]).unwrap())
			});
		},
		2 | 3 => {
			w.queue.push((From_::Sibling(id.into()), body.clone()));
			expect(o, "sibling-message", format!("chain {id} sends {body:?}"), w, || {
				<Across as EnqueueMessage<ParaId>>::enqueue_message(BoundedSlice::try_from(&body[..]).unwrap(), id.into())
			});
		},
		4 => {
			w.queue.retain(|x| x.0 != From_::Sibling(id.into()));
			expect(o, "sibling-message", format!("the messages of chain {id} are dropped"), w, || <Across as EnqueueMessage<ParaId>>::sweep_queue(id.into()));
		},
		5 => {
			let from = match rng.below(4) {
				0 => From_::Here,
				1 => From_::Parent,
				_ => From_::Sibling(id.into()),
			};
			let n = rng.below(100);
			if let From_::Sibling(_) = from {
				w.told.push((id, n));
			}
			let mut f = QueueFootprint::default();
			f.storage.count = n;
			expect(o, "queue-change-told", format!("{n} messages are left from {from:?}"), w, || {
				<poly::w_pallet_message_queue::QueueChangeHandler as OnQueueChanged<From_>>::on_queue_changed(from, f)
			});
		},
		_ => {
			PAUSED.with(|p| {
				let mut p = p.borrow_mut();
				if !p.remove(&id) {
					p.insert(id);
				}
			});
			for from in [From_::Here, From_::Parent, From_::Sibling(id.into()), From_::Sibling(1000.into())] {
				let held = matches!(&from, From_::Sibling(i) if PAUSED.with(|p| p.borrow().contains(&u32::from(*i))));
				o.hit(P, if held { "channel-held" } else { "channel-open" });
				if <poly::w_pallet_message_queue::QueuePausedQuery as QueuePausedQuery<From_>>::is_paused(&from) != held {
					o.violate(P, "paused", || format!("messages from {from:?} are held back: {}", !held));
				}
			}
		},
	}
}

fn time(o: ObsRef, rng: &mut Rng) {
	let t = rng.below(1 << 50);
	let mut w = world();
	w.slots.push(t);
	expect(o, "time-told", format!("the time is {t}"), w, || <poly::w_pallet_timestamp::OnTimestampSet as OnTimestampSet<u64>>::on_timestamp_set(t));
}

/// The ledger behind each currency of the funding pallet and of proxy bonds.
fn ledgers(o: ObsRef, rng: &mut Rng) {
	let (a, id, x) = (acc(rng.range(1, 9) as u8), *rng.pick(&[1u32, 2, 10, 1984, 1337]), 1 + rng.below128(1_000));
	let name = names(&[a.clone()]);
	let mut w = world();
	match rng.below(5) {
		k @ (0 | 1) => {
			w.supply += x;
			w.plmc.get_mut(&a).unwrap().0 += x;
			expect(o, "native-ledger", format!("{x} PLMC is made for {name}"), w, || {
				if k == 0 {
					let _ = <poly::w_pallet_funding::NativeCurrency as fungible::Mutate<AccountId>>::mint_into(&a, x);
				} else {
					let _ = <poly::w_pallet_proxy_bonding::BondingToken as fungible::Mutate<AccountId>>::mint_into(&a, x);
				}
			});
		},
		2 => {
			*w.contribution.entry((id, a.clone())).or_default() += x;
			expect(o, "contribution-ledger", format!("{x} contribution tokens of project {id} go to {name}"), w, || {
				let _ = <poly::w_pallet_funding::ContributionTokenCurrency as fungibles::Mutate<AccountId>>::mint_into(id, &a, x);
			});
		},
		k => {
			*w.foreign.entry((id, a.clone())).or_default() += x;
			expect(o, "foreign-ledger", format!("{x} of asset {id} go to {name}"), w, || {
				if k == 3 {
					let _ = <poly::w_pallet_funding::FundingCurrency as fungibles::Mutate<AccountId>>::mint_into(id, &a, x);
				} else {
					let _ = <poly::w_pallet_proxy_bonding::FeeToken as fungibles::Mutate<AccountId>>::mint_into(id, &a, x);
				}
			});
		},
	}
}

fn treasury(o: ObsRef, rng: &mut Rng) {
	let a = acc(rng.range(1, 9) as u8);
	let x = 1 + rng.below128(PLMC);
	let mut w = world();
	if rng.chance(1, 2) {
		w.plmc.get_mut(&a).unwrap().0 += x;
		w.plmc.get_mut(&growth()).unwrap().0 -= x;
		let what = format!("an approved spend of {x} to {}", names(&[a.clone()]));
		let r = expect(o, "spend-paid", what.clone(), w, || <poly::w_pallet_treasury::Paymaster as Pay>::pay(&a, (), x).is_ok());
		if r == Some(false) {
			o.violate(P, "spend", || format!("{what}: not paid"));
		}
		return
	}
	w.plmc.get_mut(&a).unwrap().0 -= x;
	w.plmc.get_mut(&growth()).unwrap().0 += x;
	let bond = rng.chance(1, 2);
	let what = format!("{} loses {x} to {}", names(&[a.clone()]), if bond { "a rejected spend" } else { "a wrong identity" });
	expect(o, "deposit-lost", what, w, || {
		let (c, _) = <Balances as Currency<AccountId>>::slash(&a, x);
		if bond {
			<poly::w_pallet_treasury::OnSlash as OnUnbalanced<_>>::on_unbalanced(c)
		} else {
			<poly::w_pallet_identity::Slashed as OnUnbalanced<_>>::on_unbalanced(c)
		}
	});
}

/// A bond lent by the treasury, and back.
fn bonds(o: ObsRef, rng: &mut Rng) {
	let (a, path) = (acc(rng.range(1, 9) as u8), rng.below(5) as u32);
	let reason: RuntimeHoldReason = if rng.chance(1, 2) { pallet_funding::HoldReason::Participation.into() } else { pallet_funding::HoldReason::Evaluation.into() };
	let x = (1 + rng.below128(100)) * PLMC;
	let id = rng.pick(&ASSETS).0;
	let at = ProxyBonding::get_bonding_account(path);
	let Ok(fee) = ProxyBonding::calculate_fee(x, id) else { return };
	let mut w = world();
	let there = w.plmc.get(&at).map_or(0, |b| b.0 - b.1);
	let rent = if there < ED { ED } else { 0 };
	w.plmc.get_mut(&growth()).unwrap().0 -= x + rent;
	let b = w.plmc.entry(at.clone()).or_default();
	*b = (b.0 + x + rent, b.1 + x);
	*w.foreign.get_mut(&(id, a.clone())).unwrap() -= fee;
	*w.foreign.entry((id, at.clone())).or_default() += fee;
	w.foreign.retain(|_, v| *v > 0);
	let what = format!("the treasury bonds {x} for {} in project {path}, for {fee} of {id}", names(&[a.clone()]));
	let r = expect(o, "treasury-lends", what.clone(), w, || ProxyBonding::bond_on_behalf_of(path, a, x, id, reason.clone()).is_ok());
	if r == Some(false) {
		o.violate(P, "bond", || format!("{what}: refused"));
		return
	}
	if rng.chance(1, 2) {
		ProxyBonding::set_release_type(path, reason.clone(), pallet_proxy_bonding::ReleaseType::Refunded);
		let mut w = world();
		let held = <Balances as fungible::InspectHold<AccountId>>::balance_on_hold(&reason, &at);
		let (total, on_hold) = w.plmc[&at];
		// the existential deposit stays: a known finding of C25
		let moved = held;
		w.plmc.get_mut(&growth()).unwrap().0 += moved;
		w.plmc.insert(at.clone(), (total - moved, on_hold - held));
		w.plmc.retain(|_, v| v.0 > 0);
		let what = format!("the bonds of project {path} for {reason:?} go back");
		let r = expect(o, "treasury-gets-back", what.clone(), w, || {
			ProxyBonding::transfer_bonds_back_to_treasury(RuntimeOrigin::from(RawOrigin::Signed(acc(1))), path, reason.clone())
		});
		if let Some(Err(e)) = r {
			o.violate(P, "bond-back", || format!("{what}: refused: {e:?}"));
		}
	}
	debug_assert_eq!(Treasury::account_id(), growth());
}
