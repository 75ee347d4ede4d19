//! Executable specification of the governance rules, independent of the pallet's code:
//! a pure step function over a plain snapshot of the observable state.
use std::collections::{BTreeMap, BTreeSet};

pub type Acc = u64;
pub type Bal = u128;
pub type Blk = u64;
/// Index into the history's pool of proposals (each a distinct dispatchable call).
pub type Prop = u32;

pub const STRANGER: Prop = 9_999;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum AV {
	Std { aye: bool, conv: u8, bal: Bal },
	Split { aye: Bal, nay: Bal },
}
impl AV {
	pub fn balance(&self) -> Bal {
		match *self {
			AV::Std { bal, .. } => bal,
			AV::Split { aye, nay } => aye.saturating_add(nay),
		}
	}
}

/// Lock periods promised by each conviction level.
pub fn periods(conv: u8) -> u64 {
	[0, 1, 2, 4, 8, 16, 32][conv as usize]
}
/// Votes bought by `bal` at a conviction level.
pub fn weight_of(conv: u8, bal: Bal) -> Bal {
	if conv == 0 {
		bal / 10
	} else {
		bal.saturating_mul(conv as u128)
	}
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Del {
	pub votes: Bal,
	pub capital: Bal,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Prior {
	pub until: Blk,
	pub amount: Bal,
}
impl Prior {
	fn accumulate(&mut self, until: Blk, amount: Bal) {
		self.until = self.until.max(until);
		self.amount = self.amount.max(amount);
	}
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Stance {
	Direct { votes: BTreeMap<u32, AV> },
	Delegating { balance: Bal, target: Acc, conv: u8 },
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Voter {
	pub stance: Stance,
	pub del: Del,
	pub prior: Prior,
}
impl Default for Voter {
	fn default() -> Self {
		Voter { stance: Stance::Direct { votes: Default::default() }, del: Default::default(), prior: Default::default() }
	}
}
impl Voter {
	pub fn needed(&self) -> Bal {
		let active = match &self.stance {
			Stance::Direct { votes } => votes.values().map(|v| v.balance()).max().unwrap_or(0),
			Stance::Delegating { balance, .. } => *balance,
		};
		active.max(self.prior.amount)
	}
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Account {
	pub free: Bal,
	pub held: Bal,
	pub frozen: Bal,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Tally {
	pub ayes: Bal,
	pub nays: Bal,
	pub turnout: Bal,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Thr {
	SuperApprove,
	SuperAgainst,
	Simple,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ref {
	Ongoing { end: Blk, prop: Prop, thr: Thr, delay: Blk, tally: Tally },
	Finished { end: Blk, approved: bool },
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Owner {
	External,
	Proposal(u32),
	Referendum(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct St {
	pub now: Blk,
	pub issuance: Bal,
	pub acc: BTreeMap<Acc, Account>,
	pub voters: BTreeMap<Acc, Voter>,
	pub queue: Vec<(u32, Prop, Acc)>,
	pub deposits: BTreeMap<u32, (Vec<Acc>, Bal)>,
	pub prop_count: u32,
	pub ref_count: u32,
	pub lowest: u32,
	pub refs: BTreeMap<u32, Ref>,
	pub last_ext: bool,
	pub next_ext: Option<(Prop, Thr)>,
	pub black: BTreeMap<Prop, (Blk, Vec<Acc>)>,
	pub cancelled: BTreeSet<Prop>,
	pub meta: BTreeMap<Owner, u8>,
}

#[derive(Clone, Debug)]
pub struct Cfg {
	pub enactment: Blk,
	pub launch: Blk,
	pub voting: Blk,
	pub lock: Blk,
	pub fast: Blk,
	pub cooloff: Blk,
	pub min_deposit: Bal,
	pub max_votes: usize,
	pub max_props: usize,
	pub max_deposits: usize,
	pub max_black: usize,
	pub instant: bool,
	pub electorate: Bal,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Org {
	None,
	Root,
	S(Acc),
}

#[derive(Clone, Debug)]
pub enum Op {
	Propose { p: Prop, value: Bal },
	Second { i: u32 },
	Vote { r: u32, v: AV },
	EmergencyCancel { r: u32 },
	ExtPropose { p: Prop, kind: Thr },
	FastTrack { p: Prop, period: Blk, delay: Blk },
	Veto { p: Prop },
	CancelRef { r: u32 },
	Delegate { to: Acc, conv: u8, bal: Bal },
	Undelegate,
	ClearProps,
	Unlock { target: Acc },
	RemoveVote { r: u32 },
	RemoveOther { target: Acc, r: u32 },
	Blacklist { p: Prop, r: Option<u32> },
	CancelProp { i: u32 },
	SetMeta { owner: Owner, hash: Option<u8> },
}

/// Facts about the environment (other pallets) the step depends on, sampled before the call.
#[derive(Clone, Copy, Debug, Default)]
pub struct Env {
	pub can_hold: bool,
	pub preimage_known: bool,
}

pub struct Out {
	pub st: St,
	pub events: Vec<String>,
	/// Calls that must be dispatched later: (block, proposal).
	pub schedule: Vec<(Blk, Prop, u32)>,
}

type R = Result<Out, &'static str>;

fn signed(o: Org) -> Result<Acc, &'static str> {
	match o {
		Org::S(a) => Ok(a),
		_ => Err("origin"),
	}
}
fn only(o: Org, who: Acc) -> Result<(), &'static str> {
	if o == Org::S(who) {
		Ok(())
	} else {
		Err("origin")
	}
}
fn ensure(c: bool, why: &'static str) -> Result<(), &'static str> {
	if c {
		Ok(())
	} else {
		Err(why)
	}
}
pub fn total(st: &St, a: Acc) -> Bal {
	st.acc.get(&a).map(|x| x.free + x.held).unwrap_or(0)
}

impl St {
	fn voter(&mut self, a: Acc) -> &mut Voter {
		self.voters.entry(a).or_default()
	}
	fn drop_meta(&mut self, o: Owner, ev: &mut Vec<String>) {
		if let Some(h) = self.meta.remove(&o) {
			ev.push(format!("MetadataCleared {o:?} {h}"));
		}
	}
	fn move_meta(&mut self, from: Owner, to: Owner, ev: &mut Vec<String>) {
		if let Some(h) = self.meta.remove(&from) {
			self.meta.insert(to, h);
			ev.push(format!("MetadataTransferred {from:?} {to:?} {h}"));
		}
	}
	fn start(&mut self, end: Blk, prop: Prop, thr: Thr, delay: Blk, ev: &mut Vec<String>) -> u32 {
		let i = self.ref_count;
		self.ref_count += 1;
		self.refs.insert(i, Ref::Ongoing { end, prop, thr, delay, tally: Tally::default() });
		ev.push(format!("Started {i} {thr:?}"));
		i
	}
	fn drop_ref(&mut self, r: u32, ev: &mut Vec<String>) {
		ev.push(format!("Cancelled {r}"));
		self.refs.remove(&r);
		self.drop_meta(Owner::Referendum(r), ev);
	}
	fn release(&mut self, a: Acc, amount: Bal) {
		let e = self.acc.entry(a).or_default();
		let x = amount.min(e.held);
		e.held -= x;
		e.free += x;
	}
	fn slash(&mut self, a: Acc, amount: Bal, sink: Acc) {
		let e = self.acc.entry(a).or_default();
		let x = amount.min(e.held);
		e.held -= x;
		self.acc.entry(sink).or_default().free += x;
	}
	/// Apply `f` to the tally of `r` if it is being voted on.
	fn tally(&mut self, r: u32) -> Option<&mut Tally> {
		match self.refs.get_mut(&r) {
			Some(Ref::Ongoing { tally, .. }) => Some(tally),
			_ => None,
		}
	}
	fn count_vote(&mut self, r: u32, v: AV, del: Del, add: bool) -> Result<(), &'static str> {
		if let Some(t) = self.tally(r) {
			let (a, n, c) = match v {
				AV::Std { aye, conv, bal } => {
					let w = weight_of(conv, bal).saturating_add(del.votes);
					(if aye { w } else { 0 }, if aye { 0 } else { w }, bal.saturating_add(del.capital))
				},
				AV::Split { aye, nay } => (weight_of(0, aye), weight_of(0, nay), aye.saturating_add(nay)),
			};
			let f = |x: Bal, d: Bal| if add { x.checked_add(d) } else { x.checked_sub(d) };
			t.ayes = f(t.ayes, a).ok_or("arith")?;
			t.nays = f(t.nays, n).ok_or("arith")?;
			t.turnout = f(t.turnout, c).ok_or("arith")?;
		}
		Ok(())
	}
	fn move_delegation(&mut self, target: Acc, d: Del, add: bool) {
		let v = self.voter(target);
		if add {
			v.del.votes += d.votes;
			v.del.capital += d.capital;
		} else {
			v.del.votes = v.del.votes.saturating_sub(d.votes);
			v.del.capital = v.del.capital.saturating_sub(d.capital);
		}
		if let Stance::Direct { votes } = v.stance.clone() {
			for (r, av) in votes {
				if let AV::Std { aye, .. } = av {
					if let Some(t) = self.tally(r) {
						let f = |x: Bal, d: Bal| if add { x + d } else { x.saturating_sub(d) };
						t.turnout = f(t.turnout, d.capital);
						if aye {
							t.ayes = f(t.ayes, d.votes);
						} else {
							t.nays = f(t.nays, d.votes);
						}
					}
				}
			}
		}
	}
}

/// One extrinsic.
pub fn step(st0: &St, cfg: &Cfg, o: Org, op: &Op, env: Env, sink: Acc) -> R {
	use super::rt::*;
	let mut st = st0.clone();
	let mut ev = vec![];
	let now = st.now;
	let blacklisted = |st: &St, p: Prop| st.black.get(&p).map_or(false, |(until, _)| now < *until);
	match op.clone() {
		Op::Propose { p, value } => {
			let who = signed(o)?;
			ensure(value >= cfg.min_deposit, "value-low")?;
			ensure(st.queue.len() < cfg.max_props, "too-many")?;
			ensure(!blacklisted(&st, p), "blacklisted")?;
			ensure(env.can_hold, "funds")?;
			let i = st.prop_count;
			st.prop_count += 1;
			let a = st.acc.entry(who).or_default();
			a.free -= value;
			a.held += value;
			st.deposits.insert(i, (vec![who], value));
			st.queue.push((i, p, who));
			ev.push(format!("Proposed {i} {value}"));
		},
		Op::Second { i } => {
			let who = signed(o)?;
			let (n, value) = match st.deposits.get(&i) {
				Some((w, v)) => (w.len(), *v),
				None => return Err("proposal-missing"),
			};
			ensure(n < cfg.max_deposits, "too-many")?;
			ensure(env.can_hold, "funds")?;
			let a = st.acc.entry(who).or_default();
			a.free -= value;
			a.held += value;
			st.deposits.get_mut(&i).unwrap().0.push(who);
			ev.push(format!("Seconded {who} {i}"));
		},
		Op::Vote { r, v } => {
			let who = signed(o)?;
			ensure(matches!(st.refs.get(&r), Some(Ref::Ongoing { .. })), "not-ongoing")?;
			ensure(v.balance() <= total(&st, who), "funds")?;
			let voter = st.voter(who).clone();
			let Stance::Direct { mut votes } = voter.stance else { return Err("delegating") };
			if let Some(old) = votes.get(&r) {
				st.count_vote(r, *old, voter.del, false)?;
			} else {
				ensure(votes.len() < cfg.max_votes, "max-votes")?;
			}
			votes.insert(r, v);
			st.count_vote(r, v, voter.del, true)?;
			st.voter(who).stance = Stance::Direct { votes };
			let a = st.acc.entry(who).or_default();
			a.frozen = a.frozen.max(v.balance());
			ev.push(format!("Voted {who} {r} {v:?}"));
		},
		Op::EmergencyCancel { r } => {
			only(o, CANCEL)?;
			let Some(Ref::Ongoing { prop, .. }) = st.refs.get(&r).cloned() else { return Err("not-ongoing") };
			ensure(!st.cancelled.contains(&prop), "already-cancelled")?;
			st.cancelled.insert(prop);
			st.drop_ref(r, &mut ev);
		},
		Op::ExtPropose { p, kind } => {
			match kind {
				Thr::SuperApprove => {
					only(o, EXT)?;
					ensure(st.next_ext.is_none(), "duplicate")?;
					ensure(!blacklisted(&st, p), "blacklisted")?;
				},
				Thr::Simple => only(o, MAJ)?,
				Thr::SuperAgainst => only(o, DEF)?,
			}
			st.next_ext = Some((p, kind));
		},
		Op::FastTrack { p, period, delay } => {
			let plain = o == Org::S(FAST) && period >= cfg.fast;
			if !plain {
				only(o, INSTANT)?;
				ensure(cfg.instant, "instant-not-allowed")?;
			}
			ensure(period > 0, "period")?;
			let (q, thr) = st.next_ext.ok_or("no-external")?;
			ensure(thr != Thr::SuperApprove, "not-majority")?;
			ensure(p == q, "hash")?;
			st.next_ext = None;
			let i = st.start(now.saturating_add(period), q, thr, delay, &mut ev);
			st.move_meta(Owner::External, Owner::Referendum(i), &mut ev);
		},
		Op::Veto { p } => {
			let who = signed(o)?;
			ensure(VETOERS.contains(&who), "origin")?;
			let (q, _) = st.next_ext.ok_or("no-external")?;
			ensure(q == p, "hash")?;
			let (standing, mut who_vetoed) = st.black.get(&p).cloned().unwrap_or_default();
			ensure(!who_vetoed.contains(&who), "already-vetoed")?;
			ensure(who_vetoed.len() < cfg.max_black, "too-many")?;
			who_vetoed.push(who);
			who_vetoed.sort();
			// a veto may prolong a ban, it never shortens one that already stands
			let until = now.saturating_add(cfg.cooloff).max(standing);
			st.black.insert(p, (until, who_vetoed));
			ev.push(format!("Vetoed {who} {p} {until}"));
			st.next_ext = None;
			st.drop_meta(Owner::External, &mut ev);
		},
		Op::CancelRef { r } => {
			ensure(o == Org::Root, "origin")?;
			st.drop_ref(r, &mut ev);
		},
		Op::Delegate { to, conv, bal } => {
			let who = signed(o)?;
			ensure(who != to, "self")?;
			ensure(bal <= total(&st, who), "funds")?;
			let v = st.voter(who).clone();
			match v.stance {
				Stance::Delegating { balance, target, conv } => {
					st.move_delegation(target, Del { votes: weight_of(conv, balance), capital: balance }, false);
					let until = now.saturating_add(cfg.lock.saturating_mul(periods(conv)));
					st.voter(who).prior.accumulate(until, balance);
				},
				Stance::Direct { votes } => ensure(votes.is_empty(), "votes-exist")?,
			}
			st.voter(who).stance = Stance::Delegating { balance: bal, target: to, conv };
			st.move_delegation(to, Del { votes: weight_of(conv, bal), capital: bal }, true);
			let a = st.acc.entry(who).or_default();
			a.frozen = a.frozen.max(bal);
			ev.push(format!("Delegated {who} {to}"));
		},
		Op::Undelegate => {
			let who = signed(o)?;
			let v = st.voter(who).clone();
			let Stance::Delegating { balance, target, conv } = v.stance else { return Err("not-delegating") };
			st.move_delegation(target, Del { votes: weight_of(conv, balance), capital: balance }, false);
			let until = now.saturating_add(cfg.lock.saturating_mul(periods(conv)));
			let v = st.voter(who);
			v.prior.accumulate(until, balance);
			v.stance = Stance::Direct { votes: Default::default() };
			ev.push(format!("Undelegated {who}"));
		},
		Op::ClearProps => {
			ensure(o == Org::Root, "origin")?;
			st.queue.clear();
		},
		Op::Unlock { target } => {
			signed(o)?;
			let v = st.voter(target);
			if now >= v.prior.until {
				v.prior = Prior::default();
			}
			let need = v.needed();
			st.acc.entry(target).or_default().frozen = need;
		},
		Op::RemoveVote { .. } | Op::RemoveOther { .. } => {
			let caller = signed(o)?;
			let (who, r) = match op {
				Op::RemoveVote { r } => (caller, *r),
				Op::RemoveOther { target, r } => (*target, *r),
				_ => unreachable!(),
			};
			let own = who == caller;
			let v = st.voter(who).clone();
			if let Stance::Direct { mut votes } = v.stance {
				let av = *votes.get(&r).ok_or("not-voter")?;
				match st.refs.get(&r).cloned() {
					Some(Ref::Ongoing { .. }) => {
						ensure(own, "permission")?;
						st.count_vote(r, av, v.del, false)?;
					},
					Some(Ref::Finished { end, approved }) =>
						if let AV::Std { aye, conv, bal } = av {
							if aye == approved {
								let until = end.saturating_add(cfg.lock.saturating_mul(periods(conv)));
								if now < until {
									ensure(own, "permission")?;
									st.voter(who).prior.accumulate(until, bal);
								}
							}
						},
					None => {},
				}
				votes.remove(&r);
				st.voter(who).stance = Stance::Direct { votes };
			}
		},
		Op::Blacklist { p, r } => {
			only(o, BLACK)?;
			st.black.insert(p, (Blk::MAX, vec![]));
			if let Some(k) = st.queue.iter().position(|q| q.1 == p) {
				let (i, ..) = st.queue.remove(k);
				if let Some((whos, amount)) = st.deposits.remove(&i) {
					for w in whos {
						st.slash(w, amount, sink);
					}
				}
				st.drop_meta(Owner::Proposal(i), &mut ev);
			}
			if matches!(st.next_ext, Some((q, _)) if q == p) {
				st.next_ext = None;
				st.drop_meta(Owner::External, &mut ev);
			}
			if let Some(r) = r {
				if matches!(st.refs.get(&r), Some(Ref::Ongoing { prop, .. }) if *prop == p) {
					st.drop_ref(r, &mut ev);
				}
			}
			ev.push(format!("Blacklisted {p}"));
		},
		Op::CancelProp { i } => {
			only(o, CANCELPROP)?;
			st.queue.retain(|q| q.0 != i);
			if let Some((whos, amount)) = st.deposits.remove(&i) {
				for w in whos {
					st.slash(w, amount, sink);
				}
			}
			ev.push(format!("ProposalCanceled {i}"));
			st.drop_meta(Owner::Proposal(i), &mut ev);
		},
		Op::SetMeta { owner, hash } => {
			match owner {
				Owner::External => {
					let (_, thr) = st.next_ext.ok_or("no-external")?;
					only(
						o,
						match thr {
							Thr::SuperApprove => EXT,
							Thr::SuperAgainst => DEF,
							Thr::Simple => MAJ,
						},
					)?;
				},
				Owner::Proposal(i) => {
					let who = signed(o)?;
					let q = st.queue.iter().find(|q| q.0 == i).ok_or("proposal-missing")?;
					ensure(q.2 == who, "permission")?;
				},
				Owner::Referendum(r) => match o {
					Org::None => return Err("origin"),
					Org::Root => {},
					Org::S(_) => {
						ensure(hash.is_none(), "permission")?;
						ensure(!matches!(st.refs.get(&r), Some(Ref::Ongoing { .. })), "permission")?;
					},
				},
			}
			match hash {
				Some(h) => {
					ensure(env.preimage_known, "preimage")?;
					st.meta.insert(owner, h);
					ev.push(format!("MetadataSet {owner:?} {h}"));
				},
				None => st.drop_meta(owner, &mut ev),
			}
		},
	}
	Ok(Out { st, events: ev, schedule: vec![] })
}

pub fn isqrt(n: u128) -> u128 {
	if n == 0 {
		return 0;
	}
	// float seed, then exact correction
	let mut x = (n as f64).sqrt() as u128;
	while x.checked_mul(x).map_or(true, |y| y > n) {
		x -= 1;
	}
	while (x + 1).checked_mul(x + 1).map_or(false, |y| y <= n) {
		x += 1;
	}
	x
}
/// a * b as a 256-bit (hi, lo) pair.
fn wide(a: u128, b: u128) -> (u128, u128) {
	let (a1, a0) = (a >> 64, a & u64::MAX as u128);
	let (b1, b0) = (b >> 64, b & u64::MAX as u128);
	let p00 = a0 * b0;
	let p01 = a0 * b1;
	let p10 = a1 * b0;
	let p11 = a1 * b1;
	let mid = (p00 >> 64) + (p01 & u64::MAX as u128) + (p10 & u64::MAX as u128);
	let lo = (p00 & u64::MAX as u128) | (mid << 64);
	let hi = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
	(hi, lo)
}
/// The documented approval rules, with exact cross-multiplication.
pub fn approved(thr: Thr, t: Tally, electorate: Bal) -> bool {
	let (sv, se) = (isqrt(t.turnout), isqrt(electorate));
	if sv == 0 {
		return false;
	}
	match thr {
		// nays/sqrt(turnout) < ayes/sqrt(electorate)
		Thr::SuperApprove => wide(t.nays, se) < wide(t.ayes, sv),
		// nays/sqrt(electorate) < ayes/sqrt(turnout)
		Thr::SuperAgainst => wide(t.nays, sv) < wide(t.ayes, se),
		Thr::Simple => t.ayes > t.nays,
	}
}

/// The start of block `st0.now + 1`.
pub fn block(st0: &St, cfg: &Cfg) -> Out {
	let mut st = st0.clone();
	let mut ev = vec![];
	let mut schedule = vec![];
	st.now += 1;
	let now = st.now;
	let (next, last) = (st.lowest, st.ref_count);
	if now % cfg.launch == 0 {
		let was_ext = std::mem::take(&mut st.last_ext);
		let order = if was_ext { [false, true] } else { [true, false] };
		for external in order {
			if external {
				if let Some((p, thr)) = st.next_ext.take() {
					st.last_ext = true;
					ev.push("ExternalTabled".into());
					let i = st.start(now.saturating_add(cfg.voting), p, thr, cfg.enactment, &mut ev);
					st.move_meta(Owner::External, Owner::Referendum(i), &mut ev);
					break;
				}
			} else if !st.queue.is_empty() {
				// highest total backing; the most recently queued position wins a tie
				let backing = |i: &u32| st.deposits.get(i).map_or(0, |(w, d)| d.saturating_mul(w.len() as u128));
				let best = st.queue.iter().map(|q| backing(&q.0)).max().unwrap();
				let k = st.queue.iter().rposition(|q| backing(&q.0) == best).unwrap();
				let (i, p, _) = st.queue.swap_remove(k);
				if let Some((whos, d)) = st.deposits.remove(&i) {
					for w in whos {
						st.release(w, d);
					}
					ev.push(format!("Tabled {i} {d}"));
					let r = st.start(now.saturating_add(cfg.voting), p, Thr::SuperApprove, cfg.enactment, &mut ev);
					st.move_meta(Owner::Proposal(i), Owner::Referendum(r), &mut ev);
				}
				break;
			}
		}
	}
	let electorate = if cfg.electorate == 0 { st.issuance } else { cfg.electorate };
	for i in next..last {
		if let Some(Ref::Ongoing { end, prop, thr, delay, tally }) = st.refs.get(&i).cloned() {
			if end == now {
				let ok = approved(thr, tally, electorate);
				if ok {
					ev.push(format!("Passed {i}"));
					schedule.push((now.saturating_add(delay.max(1)), prop, i));
				} else {
					ev.push(format!("NotPassed {i}"));
				}
				st.refs.insert(i, Ref::Finished { end: now, approved: ok });
			}
		}
	}
	while st.lowest < last && !matches!(st.refs.get(&st.lowest), Some(Ref::Ongoing { .. })) {
		st.lowest += 1;
	}
	Out { st, events: ev, schedule }
}

/// What each ongoing referendum's tally must be, from who voted and who delegates to whom.
pub fn derived_delegations(st: &St) -> BTreeMap<Acc, Del> {
	let mut m: BTreeMap<Acc, Del> = BTreeMap::new();
	for v in st.voters.values() {
		if let Stance::Delegating { balance, target, conv } = v.stance {
			let d = m.entry(target).or_default();
			d.votes += weight_of(conv, balance);
			d.capital += balance;
		}
	}
	m
}
pub fn derived_tallies(st: &St) -> BTreeMap<u32, Tally> {
	let del = derived_delegations(st);
	let mut m: BTreeMap<u32, Tally> = BTreeMap::new();
	for (i, r) in &st.refs {
		if matches!(r, Ref::Ongoing { .. }) {
			m.insert(*i, Tally::default());
		}
	}
	for (a, v) in &st.voters {
		if let Stance::Direct { votes } = &v.stance {
			let d = del.get(a).copied().unwrap_or_default();
			for (r, av) in votes {
				if let Some(t) = m.get_mut(r) {
					match *av {
						AV::Std { aye, conv, bal } => {
							let w = weight_of(conv, bal) + d.votes;
							*(if aye { &mut t.ayes } else { &mut t.nays }) += w;
							t.turnout += bal + d.capital;
						},
						AV::Split { aye, nay } => {
							t.ayes += aye / 10;
							t.nays += nay / 10;
							t.turnout += aye + nay;
						},
					}
				}
			}
		}
	}
	m
}
