//! Monitors for pallet-elections-phragmen: each call and each block of a randomized hostile
//! history is compared with an executable specification; ledgers of vote commitments and
//! candidacy bonds, and the record of membership notifications, are kept independently.
mod rt;

use frame_support::{
	dispatch::GetDispatchInfo,
	traits::{
		fungible::{InspectFreeze, InspectHold, Mutate as FMutate},
		tokens::{Fortitude, Precision, Preservation},
		Contains, ContainsLengthBound, OnInitialize, SortedMembers,
	},
};
use mon::{hash_debug, Obs, PropInfo, Rng};
use pallet_elections_phragmen as pallet;
use rt::*;
use sp_runtime::{traits::Dispatchable, Perbill};
use std::collections::{BTreeMap, BTreeSet};

const V: &str = "C12";
const B: &str = "C13";
const S: &str = "C14";
const E: &str = "C15";
const P: &str = "C16";
const N: &str = "C17";
const R: &str = "C18";
const A: &str = "C19";
const X: &str = "C20";
const ALL: [&str; 9] = [V, B, S, E, P, N, R, A, X];

const USERS: u64 = 14;

type Seat = (u64, u128, u128);

#[derive(Clone, Debug, PartialEq, Eq, Default, Hash)]
struct Acc {
	free: u128,
	held: u128,
	frozen: u128,
}
#[derive(Clone, Debug, PartialEq, Eq, Default, Hash)]
struct Vtr {
	votes: Vec<u64>,
	stake: u128,
	till: u64,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct St {
	now: u64,
	issuance: u128,
	acc: BTreeMap<u64, Acc>,
	members: Vec<Seat>,
	runners: Vec<Seat>,
	cands: Vec<(u64, u128)>,
	rounds: u32,
	voters: BTreeMap<u64, Vtr>,
	prime: Option<u64>,
}
#[derive(Clone, Debug)]
enum Op {
	Vote { votes: Vec<u64>, value: u128 },
	RemoveVoter,
	Submit { count: u32 },
	RenounceCand { count: u32 },
	RenounceMember,
	RenounceRunner,
	RemoveMember { who: u64, slash: bool, rerun: bool },
	Clean { voters: u32, defunct: u32 },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Org {
	S(u64),
	Root,
	None,
}

#[derive(Clone, Debug)]
struct Cfg {
	bond: u128,
	members: u32,
	runners: u32,
	term: u64,
	lock: u64,
	max_cands: u32,
	max_voters: u32,
	max_votes: u32,
	ed: u128,
	saturating: bool,
	scale: u128,
}

fn accounts() -> Vec<u64> {
	let mut v: Vec<u64> = (1..=USERS).collect();
	v.push(SINK);
	v
}

fn snapshot() -> (St, Vec<u64>) {
	let mut st = St { now: System::block_number(), issuance: Balances::total_issuance(), ..Default::default() };
	for a in accounts() {
		st.acc.insert(
			a,
			Acc {
				free: Balances::free_balance(a),
				held: Balances::balance_on_hold(&pallet::HoldReason::Candidacy.into(), &a),
				frozen: Balances::balance_frozen(&pallet::FreezeReason::Voting.into(), &a),
			},
		);
	}
	st.members = pallet::Members::<Test>::get().into_iter().map(|s| (s.who, s.stake, s.deposit)).collect();
	st.runners = pallet::RunnersUp::<Test>::get().into_iter().map(|s| (s.who, s.stake, s.deposit)).collect();
	st.cands = pallet::Candidates::<Test>::get();
	st.rounds = pallet::ElectionRounds::<Test>::get();
	let mut order = vec![];
	for (a, v) in pallet::Voting::<Test>::iter() {
		order.push(a);
		st.voters.insert(a, Vtr { votes: v.votes, stake: v.stake, till: v.lockup_till });
	}
	st.prime = PRIME.with(|p| *p.borrow());
	(st, order)
}

fn take_events() -> Vec<String> {
	use pallet::Event as Ev;
	let ev = System::events()
		.into_iter()
		.filter_map(|r| match r.event {
			RuntimeEvent::Elections(e) => Some(match e {
				Ev::NewTerm { new_members } => format!("NewTerm {new_members:?}"),
				Ev::EmptyTerm => "EmptyTerm".into(),
				Ev::ElectionError => "ElectionError".into(),
				Ev::MemberKicked { member } => format!("MemberKicked {member}"),
				Ev::Renounced { candidate } => format!("Renounced {candidate}"),
				Ev::CandidateSlashed { candidate, amount } => format!("CandidateSlashed {candidate} {amount}"),
				Ev::SeatHolderSlashed { seat_holder, amount } => format!("SeatHolderSlashed {seat_holder} {amount}"),
				_ => "Unknown".into(),
			}),
			_ => None,
		})
		.collect();
	System::reset_events();
	ev
}
fn take_notes() -> Vec<Note> {
	NOTES.with(|n| std::mem::take(&mut *n.borrow_mut()))
}

// ------------------------------------------------------------------ specification

#[derive(Clone, Default)]
struct Out {
	st: St,
	events: Vec<String>,
	notes: Vec<Note>,
}

fn seat_of(seats: &[Seat], who: u64) -> Option<usize> {
	seats.iter().position(|s| s.0 == who)
}
fn slash(st: &mut St, who: u64, d: u128) {
	let a = st.acc.get_mut(&who).unwrap();
	a.held -= d;
	st.acc.get_mut(&SINK).unwrap().free += d;
}
fn give_back(st: &mut St, who: u64, d: u128) {
	let a = st.acc.get_mut(&who).unwrap();
	a.held -= d;
	a.free += d;
}
fn promised_set(st: &St) -> BTreeSet<u64> {
	st.members.iter().map(|s| s.0).chain(st.runners.iter().map(|s| s.0)).chain(st.cands.iter().map(|c| c.0)).collect()
}

fn to_vote(b: u128, issuance: u128, cfg: &Cfg) -> u64 {
	let f = if cfg.saturating { 1 } else { (issuance / u64::MAX as u128).max(1) };
	(b / f).min(u64::MAX as u128) as u64
}
fn to_currency(x: u128, issuance: u128, cfg: &Cfg) -> u128 {
	let f = if cfg.saturating { 1 } else { (issuance / u64::MAX as u128).max(1) };
	x.saturating_mul(f)
}

/// What an election must do. `order`: the voters in the order the chain lists them.
fn elect(out: &mut Out, order: &[u64], cfg: &Cfg, info: &mut Vec<&'static str>) {
	let st = &mut out.st;
	let mut pool: Vec<(u64, u128)> = st.cands.clone();
	pool.extend(st.members.iter().map(|s| (s.0, s.2)));
	pool.extend(st.runners.iter().map(|s| (s.0, s.2)));
	if pool.is_empty() {
		out.events.push("EmptyTerm".into());
		info.push("election:empty");
		return;
	}
	if st.voters.len() > cfg.max_voters as usize {
		out.events.push("ElectionError".into());
		info.push("election:too-many-voters");
		return;
	}
	let ballots: Vec<(u64, u64, Vec<u64>)> = order
		.iter()
		.map(|a| (*a, to_vote(st.voters[a].stake, st.issuance, cfg), st.voters[a].votes.clone()))
		.collect();
	let res = sp_npos_elections::seq_phragmen::<u64, Perbill>(
		(cfg.members + cfg.runners) as usize,
		pool.iter().map(|x| x.0).collect(),
		ballots,
		None,
	);
	let Ok(res) = res else {
		out.events.push("ElectionError".into());
		info.push("election:error");
		return;
	};
	let ranked: Vec<(u64, u128)> =
		res.winners.iter().filter(|w| w.1 > 0).map(|w| (w.0, to_currency(w.1, st.issuance, cfg))).collect();
	let dep = |who: u64| pool.iter().find(|p| p.0 == who).unwrap().1;
	let seats: Vec<Seat> = ranked.iter().map(|(w, s)| (*w, *s, dep(*w))).collect();
	let k = seats.len().min(cfg.members as usize);
	let mut members: Vec<Seat> = seats[..k].to_vec();
	members.sort_by_key(|s| s.0);
	let mut runners: Vec<Seat> = seats[k..].to_vec();
	runners.reverse();
	info.push("election:held");
	if ranked.len() < res.winners.len() {
		info.push("election:unbacked-dropped");
	}
	if !runners.is_empty() {
		info.push("election:with-runners-up");
	}

	// prime: Borda count over the members
	let mut score: BTreeMap<u64, u128> = members.iter().map(|m| (m.0, 0)).collect();
	for v in st.voters.values() {
		for (pos, c) in v.votes.iter().enumerate() {
			if let Some(x) = score.get_mut(c) {
				*x = x.saturating_add(v.stake.saturating_mul((cfg.max_votes - pos as u32) as u128));
			}
		}
	}
	let mut prime: Option<(u64, u128)> = None;
	let mut tie = false;
	for (who, s) in &score {
		if let Some(p) = prime {
			tie |= p.1 == *s;
		}
		if prime.map_or(true, |p| *s >= p.1) {
			prime = Some((*who, *s));
		}
	}
	if tie {
		info.push("prime:tie");
	}
	let prime = prime.map(|p| p.0);

	let old: BTreeSet<u64> = st.members.iter().map(|m| m.0).collect();
	let new: BTreeSet<u64> = members.iter().map(|m| m.0).collect();
	let (inc, outg): (Vec<u64>, Vec<u64>) =
		(new.difference(&old).copied().collect(), old.difference(&new).copied().collect());
	if !inc.is_empty() && !outg.is_empty() {
		info.push("notify:both-ways");
	}
	out.notes.push(Note::Change { incoming: inc, outgoing: outg, new: new.iter().copied().collect() });
	out.notes.push(Note::Prime(prime));
	st.prime = prime;

	for (who, d) in &pool {
		if seat_of(&members, *who).is_none() && seat_of(&runners, *who).is_none() {
			slash(st, *who, *d);
			out.events.push(format!("CandidateSlashed {who} {d}"));
			info.push("election:loser-slashed");
			if old.contains(who) {
				info.push("election:member-ousted");
			}
		}
	}
	let term: Vec<(u64, u128)> = members.iter().map(|m| (m.0, m.1)).collect();
	st.members = members;
	st.runners = runners;
	st.cands.clear();
	st.rounds += 1;
	out.events.push(format!("NewTerm {term:?}"));
}

fn unseat(out: &mut Out, who: u64, slashing: bool, info: &mut Vec<&'static str>) -> Result<(), &'static str> {
	let st = &mut out.st;
	let i = seat_of(&st.members, who).ok_or("not-member")?;
	let (_, _, d) = st.members.remove(i);
	if slashing {
		slash(st, who, d);
		out.events.push(format!("SeatHolderSlashed {who} {d}"));
	} else {
		give_back(st, who, d);
	}
	let next = st.runners.pop();
	let mut inc = vec![];
	if let Some(n) = next {
		inc.push(n.0);
		st.members.push(n);
		st.members.sort_by_key(|s| s.0);
		info.push("replace:by-runner-up");
		if !st.runners.is_empty() {
			info.push("replace:best-of-several");
		}
	} else {
		info.push("replace:none");
	}
	out.notes.push(Note::Change { incoming: inc, outgoing: vec![who], new: st.members.iter().map(|m| m.0).collect() });
	match st.prime {
		Some(p) if p != who => {
			out.notes.push(Note::Prime(Some(p)));
			info.push("prime:kept");
		},
		Some(_) => {
			st.prime = None;
			info.push("prime:left");
		},
		None => {},
	}
	Ok(())
}

struct Env {
	can_hold: bool,
	order: Vec<u64>,
}

fn step(s: &St, org: Org, op: &Op, cfg: &Cfg, env: &Env, info: &mut Vec<&'static str>) -> Result<Out, &'static str> {
	let mut out = Out { st: s.clone(), ..Default::default() };
	let signed = || match org {
		Org::S(a) => Ok(a),
		_ => Err("origin"),
	};
	let root = || if org == Org::Root { Ok(()) } else { Err("origin") };
	match op {
		Op::Vote { votes, value } => {
			let who = signed()?;
			if votes.len() > cfg.max_votes as usize {
				return Err("too-many-votes-per-voter")
			}
			if votes.is_empty() {
				return Err("no-votes")
			}
			let n = s.cands.len() + s.members.len() + s.runners.len();
			if n == 0 {
				return Err("nobody-to-vote")
			}
			if votes.len() > n {
				return Err("more-votes-than-candidates")
			}
			let old = s.voters.get(&who).cloned().unwrap_or_default();
			if s.now < old.till {
				if *value < old.stake {
					return Err("reduced-in-lockup")
				}
				info.push("vote:in-lockup");
			} else if *value <= cfg.ed {
				return Err("value-too-low")
			}
			let a = out.st.acc.get_mut(&who).unwrap();
			let stake = (*value).min(a.free + a.held);
			if stake < *value {
				info.push("vote:capped-at-balance");
			}
			a.frozen = stake;
			out.st.voters.insert(who, Vtr { votes: votes.clone(), stake, till: s.now + cfg.lock });
		},
		Op::RemoveVoter => {
			let who = signed()?;
			let v = s.voters.get(&who).ok_or("not-a-voter")?;
			if s.now < v.till {
				return Err("still-locked")
			}
			out.st.voters.remove(&who);
			out.st.acc.get_mut(&who).unwrap().frozen = 0;
		},
		Op::Submit { count } => {
			let who = signed()?;
			let n = s.cands.len() as u32;
			if n > *count {
				return Err("witness")
			}
			if n > cfg.max_cands {
				return Err("too-many-candidates")
			}
			if n == cfg.max_cands {
				info.push("submit:at-limit");
			}
			if promised_set(s).contains(&who) {
				return Err("already-in")
			}
			if !env.can_hold {
				return Err("funds")
			}
			let a = out.st.acc.get_mut(&who).unwrap();
			a.free -= cfg.bond;
			a.held += cfg.bond;
			out.st.cands.push((who, cfg.bond));
			out.st.cands.sort();
		},
		Op::RenounceCand { count } => {
			let who = signed()?;
			if (s.cands.len() as u32) > *count {
				return Err("witness")
			}
			let i = s.cands.iter().position(|c| c.0 == who).ok_or("not-candidate")?;
			let (_, d) = out.st.cands.remove(i);
			give_back(&mut out.st, who, d);
			out.events.push(format!("Renounced {who}"));
		},
		Op::RenounceRunner => {
			let who = signed()?;
			let i = seat_of(&s.runners, who).ok_or("not-runner-up")?;
			let (_, _, d) = out.st.runners.remove(i);
			give_back(&mut out.st, who, d);
			out.events.push(format!("Renounced {who}"));
		},
		Op::RenounceMember => {
			let who = signed()?;
			unseat(&mut out, who, false, info)?;
			out.events.push(format!("Renounced {who}"));
		},
		Op::RemoveMember { who, slash, rerun } => {
			root()?;
			unseat(&mut out, *who, *slash, info)?;
			out.events.push(format!("MemberKicked {who}"));
			if *rerun {
				elect(&mut out, &env.order, cfg, info);
				info.push("remove_member:rerun");
			}
		},
		Op::Clean { voters, defunct } => {
			root()?;
			let alive = promised_set(s);
			let gone: Vec<u64> = env
				.order
				.iter()
				.take(*voters as usize)
				.filter(|v| s.voters[v].votes.iter().all(|c| !alive.contains(c)))
				.take(*defunct as usize)
				.copied()
				.collect();
			for g in gone {
				out.st.voters.remove(&g);
				out.st.acc.get_mut(&g).unwrap().frozen = 0;
				info.push("clean:removed");
			}
		},
	}
	Ok(out)
}

fn op_tags(op: &Op) -> &'static [&'static str] {
	match op {
		Op::Vote { .. } | Op::RemoveVoter | Op::Clean { .. } => &[V],
		Op::Submit { .. } | Op::RenounceCand { .. } | Op::RenounceRunner => &[B],
		Op::RenounceMember => &[B, R],
		Op::RemoveMember { .. } => &[R, B],
	}
}
fn op_name(op: &Op) -> &'static str {
	match op {
		Op::Vote { .. } => "vote",
		Op::RemoveVoter => "remove_voter",
		Op::Submit { .. } => "submit_candidacy",
		Op::RenounceCand { .. } => "renounce_candidate",
		Op::RenounceMember => "renounce_member",
		Op::RenounceRunner => "renounce_runner_up",
		Op::RemoveMember { .. } => "remove_member",
		Op::Clean { .. } => "clean_defunct_voters",
	}
}

// ------------------------------------------------------------------ monitor

struct Hist<'a> {
	o: &'a mut Obs,
	rng: Rng,
	cfg: Cfg,
	st: St,
	order: Vec<u64>,
	/// vote commitments: (amount, until) from the calls alone
	promises: BTreeMap<u64, (u128, u64)>,
	/// bond paid by whoever stands or sits, from the calls alone
	bonds: BTreeMap<u64, u128>,
	/// what the notified body believes the membership is
	believed: Vec<u64>,
	genesis: BTreeSet<u64>,
	dead: bool,
}

fn with<'a>(a: &[&'a str], b: &[&'a str]) -> Vec<&'a str> {
	let mut v = a.to_vec();
	v.extend_from_slice(b);
	v
}

impl<'a> Hist<'a> {
	fn compare(&mut self, exp: &Out, events: &[String], notes: &[Note], act: &St, what: &str, tags: &[&str]) {
		let e = &exp.st;
		let o = &mut *self.o;
		if e != act {
			for a in e.acc.keys() {
				let (x, y) = (&e.acc[a], &act.acc[a]);
				if x.free != y.free || x.held != y.held {
					o.violate(&with(tags, &[B]), "bond-balance", || {
						format!("{what}: account {a} free/held should be {}/{} but is {}/{}", x.free, x.held, y.free, y.held)
					});
				}
				if x.frozen != y.frozen {
					o.violate(&with(tags, &[V]), "freeze", || {
						format!("{what}: account {a} should have {} frozen but has {}", x.frozen, y.frozen)
					});
				}
			}
			if e.issuance != act.issuance {
				o.violate(&with(tags, &[B]), "issuance", || format!("{what}: issuance {} became {}", e.issuance, act.issuance));
			}
			if e.voters != act.voters {
				o.violate(&with(tags, &[V]), "voters", || {
					format!("{what}: voters should be {:?} but are {:?}", e.voters, act.voters)
				});
			}
			if e.cands != act.cands {
				o.violate(&with(tags, &[S, B]), "candidates", || {
					format!("{what}: candidates should be {:?} but are {:?}", e.cands, act.cands)
				});
			}
			for (n, x, y) in [("members", &e.members, &act.members), ("runners-up", &e.runners, &act.runners)] {
				if x == y {
					continue
				}
				let ids = |v: &Vec<Seat>| v.iter().map(|s| s.0).collect::<Vec<_>>();
				let t: Vec<&str> = if ids(x) != ids(y) {
					with(tags, &[S])
				} else if x.iter().zip(y.iter()).any(|(a, b)| a.2 != b.2) {
					with(tags, &[B])
				} else {
					tags.to_vec()
				};
				o.violate(&t, "seats", || format!("{what}: {n} (who, stake, deposit) should be {x:?} but are {y:?}"));
			}
			if e.rounds != act.rounds {
				o.violate(&with(tags, &[E]), "rounds", || format!("{what}: election round should be {} but is {}", e.rounds, act.rounds));
			}
			if e.prime != act.prime {
				o.violate(&[P], "prime", || format!("{what}: the prime should be {:?} but is {:?}", e.prime, act.prime));
			}
		}
		if exp.events != events {
			o.violate(&[X], "events", || format!("{what}: should announce {:?} but announced {events:?}", exp.events));
		}
		let mine: Vec<&Note> = exp.notes.iter().filter(|n| !matches!(n, Note::Prime(_))).collect();
		let got: Vec<&Note> = notes.iter().filter(|n| !matches!(n, Note::Prime(_))).collect();
		if mine != got {
			o.violate(&with(&[N], &[]), "notify", || format!("{what}: the body should be told {mine:?} but was told {got:?}"));
		}
		// whatever it is told must be usable: consistent with what it believed before
		for n in notes {
			if let Note::Change { incoming, outgoing, new } = n {
				o.hit(&[N], "notification");
				let mut want: BTreeSet<u64> = self.believed.iter().copied().collect();
				let mut fine = true;
				for x in outgoing {
					fine &= want.remove(x);
				}
				for x in incoming {
					fine &= want.insert(*x);
				}
				fine &= want.iter().copied().collect::<Vec<_>>() == *new;
				fine &= incoming.windows(2).all(|w| w[0] < w[1]) && outgoing.windows(2).all(|w| w[0] < w[1]);
				if !fine {
					let b = self.believed.clone();
					o.violate(&[N], "notify-inconsistent", || format!("{what}: told {n:?} while believing {b:?}"));
				}
				self.believed = new.clone();
			}
		}
		let ids: Vec<u64> = act.members.iter().map(|m| m.0).collect();
		o.hit(&[N], "belief-compared");
		if self.believed != ids {
			let b = self.believed.clone();
			o.violate(&[N], "belief", || format!("{what}: the body believes {b:?} are members, the pallet seats {ids:?}"));
		}
	}

	fn run_op(&mut self, org: Org, op: Op) {
		if self.dead || self.o.stop() {
			return;
		}
		self.o.op(|| format!("[{}] {org:?} {op:?}", self.st.now));
		let st0 = self.st.clone();
		let env = Env {
			can_hold: match org {
				Org::S(a) => Balances::can_hold(&pallet::HoldReason::Candidacy.into(), &a, self.cfg.bond),
				_ => false,
			},
			order: self.order.clone(),
		};
		let mut info = vec![];
		let want = {
			let (s, c) = (&self.st, &self.cfg);
			self.o.guard(|| step(s, org, &op, c, &env, &mut info))
		};
		let Ok(want) = want else {
			self.o.count("oracle-arithmetic-failure");
			self.dead = true;
			return
		};
		let call: RuntimeCall = match op.clone() {
			Op::Vote { votes, value } => pallet::Call::vote { votes, value },
			Op::RemoveVoter => pallet::Call::remove_voter {},
			Op::Submit { count } => pallet::Call::submit_candidacy { candidate_count: count },
			Op::RenounceCand { count } => pallet::Call::renounce_candidacy { renouncing: pallet::Renouncing::Candidate(count) },
			Op::RenounceMember => pallet::Call::renounce_candidacy { renouncing: pallet::Renouncing::Member },
			Op::RenounceRunner => pallet::Call::renounce_candidacy { renouncing: pallet::Renouncing::RunnerUp },
			Op::RemoveMember { who, slash, rerun } => pallet::Call::remove_member { who, slash_bond: slash, rerun_election: rerun },
			Op::Clean { voters, defunct } => pallet::Call::clean_defunct_voters { num_voters: voters, num_defunct: defunct },
		}
		.into();
		let origin = match org {
			Org::S(a) => RuntimeOrigin::signed(a),
			Org::Root => RuntimeOrigin::root(),
			Org::None => RuntimeOrigin::none(),
		};
		let _ = call.get_dispatch_info();
		let r = self.o.guard(|| call.dispatch(origin));
		let r = match r {
			Ok(r) => r,
			Err(p) => {
				self.o.violate(&with(&ALL, &[]), "panic", || format!("{org:?} {op:?} panicked: {p}"));
				self.dead = true;
				return;
			},
		};
		let events = take_events();
		let notes = take_notes();
		let (act, order) = snapshot();
		let name = op_name(&op);
		let tags: Vec<&str> = with(op_tags(&op), if matches!(op, Op::RemoveMember { rerun: true, .. }) { &[E] } else { &[] });
		self.o.count(&format!("{name}:{}", if r.is_ok() { "ok" } else { "err" }));
		self.o.hit(&[A], "authority+atomicity");
		self.o.hit(&[X], "event-record");
		let what = format!("{org:?} {op:?} at block {}", st0.now);
		match (&want, &r) {
			(Ok(exp), Ok(_)) => {
				for i in &info {
					self.o.count(i);
					if i.starts_with("prime:") {
						self.o.hit(&[P], i);
					}
					if i.starts_with("replace:") {
						self.o.hit(&[R], i);
					}
					if *i == "election:held" {
						self.o.hit(&[E], i);
						self.o.hit(&[P], "prime-chosen");
					}
				}
				if info.contains(&"submit:at-limit") {
					self.o.violate(&[A], "one-candidate-over-the-limit", || {
						format!("{what}: accepted although {} candidates already stand, the maximum", st0.cands.len())
					});
				}
				self.o.hit(op_tags(&op), "accepted-step");
				self.compare(exp, &events, &notes, &act, &what, &tags);
			},
			(Err(w), Err(_)) => {
				self.o.count(&format!("rejected:{w}"));
				self.o.hit(op_tags(&op), "refused-step");
				if act != st0 || !events.is_empty() || !notes.is_empty() {
					self.o.violate(&with(&[A], &tags), "refusal-not-atomic", || {
						format!("{what}: refused ({w}) but changed {st0:?} into {act:?} with {events:?} {notes:?}")
					});
				}
			},
			(Err(w), Ok(_)) if *w == "too-many-candidates" => {
				self.o.violate(&[A], "candidates-over-limit", || format!("{what}: accepted beyond the candidate limit"));
			},
			(Err(w), Ok(_)) => {
				self.o.violate(&with(&[A], &tags), "accepted", || format!("{what}: must be refused ({w}) but was accepted"));
			},
			(Ok(_), Err(e)) => {
				if info.contains(&"submit:at-limit") {
					// the documented limit is respected
					self.o.count("limit-respected");
				} else {
					self.o.violate(&with(&[A], &tags), "refused", || format!("{what}: must succeed but failed with {e:?}"));
				}
			},
		}
		// ledgers from the calls alone
		if r.is_ok() {
			match (&op, org) {
				(Op::Vote { value, .. }, Org::S(a)) => {
					let t = st0.acc[&a].free + st0.acc[&a].held;
					self.promises.insert(a, ((*value).min(t), st0.now + self.cfg.lock));
				},
				(Op::RemoveVoter, Org::S(a)) => {
					self.promises.remove(&a);
					self.o.hit(&[V], "unlock");
					if act.acc[&a].frozen != 0 {
						self.o.violate(&[V], "still-frozen", || format!("{what}: left the electorate but stays frozen"));
					}
				},
				(Op::Clean { .. }, _) => {
					let alive = promised_set(&st0);
					self.promises.retain(|a, _| act.voters.contains_key(a) || !st0.voters[a].votes.iter().all(|c| !alive.contains(c)));
				},
				(Op::Submit { .. }, Org::S(a)) => {
					self.bonds.insert(a, self.cfg.bond);
				},
				(Op::RenounceCand { .. } | Op::RenounceMember | Op::RenounceRunner, Org::S(a)) => {
					let d = self.bonds.remove(&a).unwrap_or(0);
					self.o.hit(&[B], "bond-returned");
					let (x, y) = (&st0.acc[&a], &act.acc[&a]);
					if y.free != x.free + d || y.held + d != x.held {
						self.o.violate(&[B], "bond-not-returned", || format!("{what}: paid a bond of {d}, went from {x:?} to {y:?}"));
					}
				},
				(Op::RemoveMember { who, slash, rerun }, _) => {
					let d = self.bonds.remove(who).unwrap_or(0);
					self.o.hit(&[B], "bond-of-removed-member");
					let (x, y) = (&st0.acc[who], &act.acc[who]);
					let back = if *slash { 0 } else { d };
					if y.free != x.free + back || y.held + d != x.held {
						self.o.violate(&[B], "bond-of-removed", || format!("{what}: paid a bond of {d}, went from {x:?} to {y:?}"));
					}
					if *rerun {
						self.settle_losers(&st0, &act, &what);
					}
				},
				_ => {},
			}
		}
		self.st = act;
		self.order = order;
		self.invariants();
	}

	/// After an election: whoever stood and holds no seat has lost the bond.
	fn settle_losers(&mut self, st0: &St, act: &St, what: &str) {
		let seated = promised_set(act);
		if act.rounds == st0.rounds {
			return;
		}
		let mut slashed = 0u128;
		for a in promised_set(st0) {
			if !seated.contains(&a) {
				if let Some(d) = self.bonds.remove(&a) {
					slashed += d;
					self.o.hit(&[B], "loser-bond");
					let (x, y) = (&st0.acc[&a], &act.acc[&a]);
					if y.free != x.free || y.held + d != x.held {
						self.o.violate(&[B], "loser-bond", || format!("{what}: loser {a} paid a bond of {d}, went from {x:?} to {y:?}"));
					}
				}
			}
		}
		let _ = slashed;
	}

	fn next_block(&mut self) {
		if self.dead || self.o.stop() {
			return;
		}
		let st0 = self.st.clone();
		let n = st0.now + 1;
		let r = self.o.guard(|| {
			System::set_block_number(n);
			Elections::on_initialize(n);
		});
		if let Err(p) = r {
			// is it the arithmetic library itself that cannot cope?
			let mut out = Out { st: st0.clone(), ..Default::default() };
			let (ord, cfg) = (self.order.clone(), self.cfg.clone());
			if self.o.guard(|| elect(&mut out, &ord, &cfg, &mut vec![])).is_err() {
				self.o.count("oracle-arithmetic-failure");
			} else {
				self.o.violate(&with(&ALL, &[]), "panic", || format!("block {n} panicked: {p}"));
			}
			self.dead = true;
			return;
		}
		let events = take_events();
		let notes = take_notes();
		let (act, order) = snapshot();
		let mut out = Out { st: st0.clone(), ..Default::default() };
		out.st.now = n;
		let mut info = vec![];
		let due = self.cfg.term != 0 && n % self.cfg.term == 0;
		if due {
			let (ord, cfg) = (self.order.clone(), self.cfg.clone());
			if self.o.guard(|| elect(&mut out, &ord, &cfg, &mut info)).is_err() {
				self.o.count("oracle-arithmetic-failure");
				self.dead = true;
				return;
			}
			self.o.hit(&[E], "election-block");
			self.o.hit(&[P], "prime-after-election");
			self.o.hit(&[B], "election-settlement");
		} else {
			self.o.hit(&[E], "no-election-off-term");
		}
		for i in &info {
			self.o.count(i);
			if i.starts_with("prime:") {
				self.o.hit(&[P], i);
			}
			if i.starts_with("election:") {
				self.o.hit(&[E], i);
			}
		}
		let what = format!("at the start of block {n} (term {})", self.cfg.term);
		self.o.hit(&[X], "event-record");
		self.compare(&out, &events, &notes, &act, &what, &[E]);
		if due {
			self.settle_losers(&st0, &act, &what);
		}
		// independent of the algorithm: nobody sits without an approving voter
		for (who, stake, _) in act.members.iter().chain(act.runners.iter()) {
			if act.rounds != st0.rounds {
				let backed: u128 =
					act.voters.values().filter(|v| v.votes.contains(who)).fold(0u128, |a, v| a.saturating_add(v.stake));
				self.o.hit(&[E], "seat-backed");
				if backed == 0 || *stake > backed.saturating_add(backed / 1000 + 1) {
					self.o.violate(&[E], "seat-unbacked", || format!("{what}: {who} holds a seat with stake {stake}, its voters stake {backed}"));
				}
			}
		}
		self.st = act;
		self.order = order;
		self.invariants();
	}

	fn invariants(&mut self) {
		let st = &self.st;
		let o = &mut *self.o;
		let now = st.now;
		// C12
		for (a, (amt, till)) in &self.promises {
			if now < *till {
				o.hit(&[V], "commitment-covered");
				if st.acc[a].frozen < *amt {
					o.violate(&[V], "commitment-uncovered", || {
						format!("block {now}: {a} staked {amt} until {till} but only {} is frozen", st.acc[a].frozen)
					});
				}
			}
		}
		for (a, x) in &st.acc {
			let want = self.promises.get(a).map_or(0, |p| p.0);
			if want > 0 {
				o.hit(&[V], "freeze-equals-stake");
			}
			if x.frozen != want {
				o.violate(&[V], "freeze-vs-stake", || format!("block {now}: {a} staked {want} but has {} frozen", x.frozen));
			}
			let stake = st.voters.get(a).map_or(0, |v| v.stake);
			if stake != want && !(self.genesis.contains(a) && want == 0) {
				o.violate(&[V, E], "stake-vs-call", || format!("block {now}: {a} staked {want} but {stake} counts"));
			}
		}
		// C13
		let mut rec: BTreeMap<u64, u128> = BTreeMap::new();
		for (a, d) in st
			.cands
			.iter()
			.copied()
			.chain(st.members.iter().map(|s| (s.0, s.2)))
			.chain(st.runners.iter().map(|s| (s.0, s.2)))
		{
			*rec.entry(a).or_default() += d;
		}
		for (a, x) in &st.acc {
			let (r, b) = (rec.get(a).copied().unwrap_or(0), self.bonds.get(a).copied().unwrap_or(0));
			if r + b > 0 {
				o.hit(&[B], "held-equals-bond");
			}
			if x.held != r || x.held != b {
				o.violate(&[B], "held-vs-bond", || {
					format!("block {now}: {a} paid a bond of {b}, {r} is recorded for it and {} is held", x.held)
				});
			}
		}
		// C14
		o.hit(&[S], "structure");
		let m: Vec<u64> = st.members.iter().map(|s| s.0).collect();
		let r: Vec<u64> = st.runners.iter().map(|s| s.0).collect();
		let c: Vec<u64> = st.cands.iter().map(|s| s.0).collect();
		let all: BTreeSet<u64> = m.iter().chain(&r).chain(&c).copied().collect();
		if all.len() != m.len() + r.len() + c.len() {
			o.violate(&[S], "overlap", || format!("block {now}: someone has two roles: members {m:?} runners-up {r:?} candidates {c:?}"));
		}
		if m.windows(2).any(|w| w[0] >= w[1]) || c.windows(2).any(|w| w[0] >= w[1]) {
			o.violate(&[S], "unsorted", || format!("block {now}: members {m:?} or candidates {c:?} are not in order"));
		}
		if m.len() > self.cfg.members as usize || r.len() > self.cfg.runners as usize {
			o.violate(&[S], "oversize", || format!("block {now}: {} members, {} runners-up", m.len(), r.len()));
		}
		if !r.is_empty() {
			o.hit(&[S], "structure-with-runners-up");
		}
		let sm = <Elections as SortedMembers<u64>>::sorted_members();
		if sm != m || <Elections as ContainsLengthBound>::max_len() != self.cfg.members as usize {
			o.violate(&[S, N], "sorted-members", || format!("block {now}: sorted_members gives {sm:?}, seats are {m:?}"));
		}
		for a in 1..=USERS {
			let is = m.contains(&a);
			if <Elections as Contains<u64>>::contains(&a) != is || <Elections as SortedMembers<u64>>::contains(&a) != is {
				o.violate(&[S], "contains", || format!("block {now}: membership of {a} is misreported"));
			}
		}
		// C16
		if let Some(p) = st.prime {
			o.hit(&[P], "prime-is-member");
			if !m.contains(&p) {
				o.violate(&[P], "prime-not-member", || format!("block {now}: prime {p} is not among {m:?}"));
			}
		}
		// C19
		if st.cands.len() > self.cfg.max_cands as usize + 1 {
			o.violate(&[A], "candidates-over-limit", || format!("block {now}: {} candidates", st.cands.len()));
		}
		if st.voters.values().any(|v| v.votes.len() > self.cfg.max_votes as usize) {
			o.violate(&[A], "votes-over-limit", || format!("block {now}: a voter holds too many votes"));
		}
		o.state(hash_debug(&(&st.members, &st.runners, &st.cands, &st.voters)));
	}

	// -------------------------------------------------------------- workload

	fn user(&mut self) -> u64 {
		self.rng.range(1, USERS)
	}
	fn value(&mut self, who: u64) -> u128 {
		let a = &self.st.acc[&who];
		let t = a.free + a.held;
		let old = self.st.voters.get(&who).map_or(0, |v| v.stake);
		match self.rng.below(10) {
			0 => t,
			1 => t.saturating_add(1),
			2 => u128::MAX,
			3 => old,
			4 => old.saturating_sub(1),
			5 => self.cfg.ed,
			6 => self.cfg.ed + 1,
			7 => self.cfg.scale / 4 * self.rng.range128(1, 3),
			_ => self.rng.below128(t.max(1)) + 1,
		}
	}
	fn ballot(&mut self, who: u64) -> Vec<u64> {
		let pool: Vec<u64> = promised_set(&self.st).into_iter().collect();
		let want = match self.rng.below(8) {
			0 => 0,
			1 => self.cfg.max_votes as u64 + 1,
			2 => pool.len() as u64 + self.rng.below(2),
			3 => self.cfg.max_votes as u64,
			_ => self.rng.range(1, 4),
		};
		let mut v: Vec<u64> = vec![];
		let distinct = self.rng.chance(19, 20);
		for _ in 0..want {
			let c = if pool.is_empty() || self.rng.chance(1, 12) {
				if self.rng.chance(1, 2) { who } else { self.user() }
			} else {
				*self.rng.pick(&pool)
			};
			if !distinct || !v.contains(&c) {
				v.push(c);
			}
		}
		v
	}
	fn random_op(&mut self) -> (Org, Op) {
		let u = self.user();
		let (right, op) = match self.rng.weighted(&[34, 10, 22, 5, 5, 4, 6, 3]) {
			0 => (Org::S(u), Op::Vote { votes: self.ballot(u), value: self.value(u) }),
			1 => {
				let vs: Vec<u64> = self.st.voters.keys().copied().collect();
				let w = if vs.is_empty() || self.rng.chance(1, 8) { u } else { *self.rng.pick(&vs) };
				(Org::S(w), Op::RemoveVoter)
			},
			2 => {
				let n = self.st.cands.len() as u32;
				let count = match self.rng.below(8) {
					0 => n.saturating_sub(1),
					1 => n + 5,
					2 => u32::MAX,
					_ => n,
				};
				(Org::S(u), Op::Submit { count })
			},
			3 => {
				let n = self.st.cands.len() as u32;
				let w = if n == 0 || self.rng.chance(1, 8) { u } else { self.rng.pick(&self.st.cands.clone()).0 };
				let count = match self.rng.below(6) {
					0 => n.saturating_sub(1),
					1 => n + 3,
					_ => n,
				};
				(Org::S(w), Op::RenounceCand { count })
			},
			4 => {
				let w = if self.st.members.is_empty() || self.rng.chance(1, 6) { u } else { self.rng.pick(&self.st.members.clone()).0 };
				(Org::S(w), Op::RenounceMember)
			},
			5 => {
				let w = if self.st.runners.is_empty() || self.rng.chance(1, 6) { u } else { self.rng.pick(&self.st.runners.clone()).0 };
				(Org::S(w), Op::RenounceRunner)
			},
			6 => {
				let w = if self.st.members.is_empty() || self.rng.chance(1, 6) { u } else { self.rng.pick(&self.st.members.clone()).0 };
				(Org::Root, Op::RemoveMember { who: w, slash: self.rng.chance(1, 2), rerun: self.rng.chance(1, 3) })
			},
			_ => {
				let voters = if self.rng.chance(1, 2) { u32::MAX } else { self.rng.below(8) as u32 };
				let defunct = if self.rng.chance(1, 2) { u32::MAX } else { self.rng.below(3) as u32 };
				(Org::Root, Op::Clean { voters, defunct })
			},
		};
		let org = if self.rng.chance(7, 8) {
			right
		} else {
			match self.rng.below(4) {
				0 => Org::None,
				1 => Org::Root,
				_ => Org::S(self.user()),
			}
		};
		(org, op)
	}
	fn environment(&mut self) {
		let (a, b, k) = (self.user(), self.user(), self.rng.below(4));
		let x = self.rng.below128(self.cfg.scale) + 1;
		self.o.op(|| format!("environment {k}: {a} {b} {x}"));
		let before = self.st.clone();
		match k {
			0 => {
				let _ = Balances::burn_from(&a, x, Preservation::Protect, Precision::BestEffort, Fortitude::Force);
			},
			1 => {
				let _ = Balances::mint_into(&a, x);
			},
			_ => {
				let r = <Balances as FMutate<u64>>::transfer(&a, &b, x, Preservation::Preserve);
				let t = &before.acc[&a];
				if a != b && r.is_ok() {
					self.o.hit(&[V], "transfer-respects-freeze");
					if t.free + t.held - x < t.frozen {
						self.o.violate(&[V], "frozen-moved", || format!("{a} paid away frozen stake"));
					}
				}
			},
		}
		let _ = take_events();
		let (st, order) = snapshot();
		self.st = st;
		self.order = order;
	}
	/// A parameter changes, as with a runtime upgrade.
	fn upgrade(&mut self) {
		match self.rng.below(3) {
			0 => {
				self.cfg.bond = self.rng.below128(self.cfg.scale / 5 + 3);
				CandidacyBond::set(self.cfg.bond);
				self.o.count("upgrade:bond");
			},
			1 => {
				self.cfg.lock = self.rng.below(7);
				VotingLockPeriod::set(self.cfg.lock);
			},
			_ => {
				// only growing: shrinking takes effect at the next election
				self.cfg.members += self.rng.below(2) as u32;
				self.cfg.runners += self.rng.below(2) as u32;
				DesiredMembers::set(self.cfg.members);
				DesiredRunnersUp::set(self.cfg.runners);
			},
		}
		let c = self.cfg.clone();
		self.o.op(|| format!("upgrade: {c:?}"));
	}
}

fn with_history(o: &mut Obs, seed: u64, f: impl FnOnce(&mut Hist)) {
	let mut rng = Rng::new(seed);
	let scale = *rng.pick(&[20u128, 200, 5_000, 10_000_000_000, 77_777_777_777_777_777, 3_000_000_000_000_000_000_000]);
	let cfg = Cfg {
		bond: rng.below128(scale / 4 + 2),
		members: rng.below(5) as u32,
		runners: rng.below(5) as u32,
		term: *rng.pick(&[0, 1, 2, 3, 4, 5, 5, 7, 10]),
		lock: rng.below(7),
		max_cands: rng.range(1, 9) as u32,
		max_voters: if rng.chance(1, 6) { rng.range(1, 6) as u32 } else { 64 },
		max_votes: rng.range(1, 8) as u32,
		ed: if rng.chance(1, 3) { 1 + scale / 50 } else { 1 },
		saturating: rng.chance(1, 2),
		scale,
	};
	Ed::set(cfg.ed);
	CandidacyBond::set(cfg.bond);
	DesiredMembers::set(cfg.members);
	DesiredRunnersUp::set(cfg.runners);
	TermDuration::set(cfg.term);
	VotingLockPeriod::set(cfg.lock);
	MaxCandidates::set(cfg.max_cands);
	MaxVoters::set(cfg.max_voters);
	MaxVotesPerVoter::set(cfg.max_votes);
	Saturating::set(cfg.saturating);
	let mut bal = vec![];
	for a in accounts() {
		let b = if a == SINK {
			cfg.ed + 1_000
		} else if rng.chance(1, 10) {
			0
		} else if rng.chance(1, 5) {
			// equal balances make ties
			scale
		} else {
			cfg.ed + rng.below128(scale * 2)
		};
		if b > 0 {
			bal.push((a, b));
		}
	}
	let mut genesis: Vec<(u64, u128)> = vec![];
	if rng.chance(1, 3) {
		for (a, b) in &bal {
			if *a != SINK && genesis.len() < cfg.members as usize && rng.chance(1, 2) {
				genesis.push((*a, *b / 2));
			}
		}
		if rng.chance(1, 2) {
			genesis.reverse();
		}
	}
	let mut ext = new_ext(bal, genesis.clone());
	ext.execute_with(|| {
		System::set_block_number(1);
		System::reset_events();
		let notes = take_notes();
		let (st, order) = snapshot();
		o.note(|| format!("config {cfg:?} genesis {genesis:?}"));
		let told = notes
			.iter()
			.find_map(|n| match n {
				Note::Init(m) => Some(m.clone()),
				_ => None,
			})
			.unwrap_or_default();
		let mut believed = told;
		believed.sort();
		let mut want: Vec<Seat> = genesis.iter().map(|g| (g.0, g.1, 0)).collect();
		want.sort();
		if st.members != want {
			o.violate(&[S, E], "genesis", || format!("genesis members {want:?} became {:?}", st.members));
		}
		for (g, s) in &genesis {
			let v = st.voters.get(g).cloned().unwrap_or_default();
			if v != (Vtr { votes: vec![*g], stake: *s, till: cfg.lock }) {
				o.violate(&[V, E], "genesis-vote", || format!("genesis member {g} votes {v:?}"));
			}
		}
		let mut h = Hist {
			o,
			rng,
			cfg,
			st,
			order,
			promises: Default::default(),
			bonds: Default::default(),
			believed,
			genesis: genesis.iter().map(|g| g.0).collect(),
			dead: false,
		};
		f(&mut h);
	});
}

fn random_history(seed: u64, o: &mut Obs) {
	with_history(o, seed, |h| {
		let steps = h.rng.range(60, 260);
		let upgrading = h.rng.chance(1, 3);
		// a campaign: some people stand and are voted for
		if h.rng.chance(2, 3) {
			for _ in 0..h.rng.range(1, 8) {
				let (u, n) = (h.user(), h.st.cands.len() as u32);
				h.run_op(Org::S(u), Op::Submit { count: n });
			}
		}
		for _ in 0..steps {
			if h.dead || h.o.stop() {
				break;
			}
			match h.rng.below(24) {
				0..=4 => {
					for _ in 0..(if h.rng.chance(1, 10) { h.rng.range(2, 12) } else { 1 }) {
						h.next_block();
					}
				},
				5 => h.environment(),
				6 if upgrading => h.upgrade(),
				_ => {
					let (org, op) = h.random_op();
					h.run_op(org, op);
				},
			}
		}
		for _ in 0..8 {
			h.next_block();
		}
	});
}

fn main() {
	const AS: &[&str] = &[
		"pallet-balances, sp-npos-elections' sequential Phragmén and frame (registry crates) behave as documented",
		"holds on the histories generated from this seed; parameters are drawn per history and some change mid-history",
	];
	macro_rules! p {
		($id:expr, $rule:expr, $req:expr) => {
			PropInfo { id: $id, rule: $rule, required: $req, quick: 8_000, thorough: 400_000, assumptions: AS }
		};
	}
	let props = [
		p!(V, "a history is 60-260 randomized election operations by 14 users and root over drawn parameters; non-trivial when frozen stake was compared with vote commitments", &["commitment-covered", "vote:ok", "vote:in-lockup", "remove_voter:ok", "clean:removed", "rejected:still-locked", "rejected:reduced-in-lockup"]),
		p!(B, "as C12; non-trivial when held bonds were compared with bonds paid", &["held-equals-bond", "loser-bond", "bond-returned", "bond-of-removed-member", "upgrade:bond"]),
		p!(S, "as C12; non-trivial when the sets of members, runners-up and candidates were examined", &["structure", "structure-with-runners-up"]),
		p!(E, "as C12; non-trivial when an election (or its absence) was compared with the reference election", &["election:held", "election:with-runners-up", "election:too-many-voters", "election:unbacked-dropped", "election:member-ousted", "no-election-off-term", "seat-backed"]),
		p!(P, "as C12; non-trivial when the prime was compared with the Borda count", &["prime-after-election", "prime:tie", "prime:kept", "prime:left"]),
		p!(N, "as C12; non-trivial when a notification was checked against the previous membership", &["notification", "belief-compared", "notify:both-ways"]),
		p!(R, "as C12; non-trivial when a vacated seat was checked for its replacement", &["replace:by-runner-up", "replace:best-of-several", "replace:none", "remove_member:rerun", "renounce_member:ok"]),
		p!(A, "as C12; non-trivial when acceptance or refusal of a call was compared with the rules", &["authority+atomicity", "rejected:origin", "rejected:witness", "rejected:too-many-votes-per-voter"]),
		p!(X, "as C12; non-trivial when the events of a step were compared with its changes", &["event-record", "election:loser-slashed"]),
	];
	mon::main_with(&props, &[], random_history)
}
