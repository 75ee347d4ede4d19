//! Monitors for pallet-democracy: every step of a randomized, hostile history of the real pallet
//! is compared with the executable specification in spec.rs, and history-level ledgers (vote
//! commitments, dispatches) are checked independently of the pallet's own bookkeeping.
mod rt;
mod spec;

use frame_support::{
	dispatch::GetDispatchInfo,
	traits::{
		fungible::{Inspect, InspectFreeze, InspectHold, Mutate as FMutate},
		tokens::{Fortitude, Precision, Preservation},
		Bounded, OnInitialize, QueryPreimage, StorePreimage,
	},
};
use mon::{hash_debug, Obs, PropInfo, Rng};
use pallet_democracy::{
	AccountVote, Approved, Conviction, MetadataOwner, ReferendumInfo, Vote, VoteThreshold, Voting,
};
use parity_scale_codec::{Decode, Encode};
use rt::*;
use sp_core::H256;
use sp_runtime::traits::Dispatchable;
use spec::*;
use std::collections::BTreeMap;

type PCall = pallet_democracy::Call<Test>;
type BCall = Bounded<RuntimeCall, sp_runtime::traits::BlakeTwo256>;

const PALLET_TAGS: [&str; 11] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11"];

struct Pool {
	calls: Vec<BCall>,
	by_hash: BTreeMap<H256, Prop>,
	tags: Vec<u32>,
	meta: Vec<H256>,
	by_meta: BTreeMap<H256, u8>,
}
impl Pool {
	fn prop(&self, b: &BCall) -> Prop {
		match self.by_hash.get(&b.hash()) {
			Some(p) if self.calls[*p as usize].encode() == b.encode() => *p,
			_ => STRANGER,
		}
	}
	fn ph(&self, h: &H256) -> Prop {
		self.by_hash.get(h).copied().unwrap_or(STRANGER)
	}
	fn mh(&self, h: &H256) -> u8 {
		self.by_meta.get(h).copied().unwrap_or(255)
	}
}

fn conv(i: u8) -> Conviction {
	Conviction::try_from(i).unwrap()
}
fn conv_u8(c: Conviction) -> u8 {
	match c {
		Conviction::None => 0,
		Conviction::Locked1x => 1,
		Conviction::Locked2x => 2,
		Conviction::Locked3x => 3,
		Conviction::Locked4x => 4,
		Conviction::Locked5x => 5,
		Conviction::Locked6x => 6,
	}
}
fn av_to(v: AV) -> AccountVote<u128> {
	match v {
		AV::Std { aye, conv: c, bal } => AccountVote::Standard { vote: Vote { aye, conviction: conv(c) }, balance: bal },
		AV::Split { aye, nay } => AccountVote::Split { aye, nay },
	}
}
fn av_from(v: AccountVote<u128>) -> AV {
	match v {
		AccountVote::Standard { vote, balance } => AV::Std { aye: vote.aye, conv: conv_u8(vote.conviction), bal: balance },
		AccountVote::Split { aye, nay } => AV::Split { aye, nay },
	}
}
fn thr_from(t: VoteThreshold) -> Thr {
	match t {
		VoteThreshold::SuperMajorityApprove => Thr::SuperApprove,
		VoteThreshold::SuperMajorityAgainst => Thr::SuperAgainst,
		VoteThreshold::SimpleMajority => Thr::Simple,
	}
}
fn owner_from(o: &MetadataOwner) -> Owner {
	match o {
		MetadataOwner::External => Owner::External,
		MetadataOwner::Proposal(i) => Owner::Proposal(*i),
		MetadataOwner::Referendum(i) => Owner::Referendum(*i),
	}
}
fn owner_to(o: Owner) -> MetadataOwner {
	match o {
		Owner::External => MetadataOwner::External,
		Owner::Proposal(i) => MetadataOwner::Proposal(i),
		Owner::Referendum(i) => MetadataOwner::Referendum(i),
	}
}

fn accounts() -> Vec<u64> {
	let mut v: Vec<u64> = (1..=USERS).collect();
	v.extend([EXT, MAJ, DEF, FAST, INSTANT, CANCEL, BLACK, CANCELPROP]);
	v.extend(VETOERS);
	v.push(SINK);
	v
}

fn snapshot(pool: &Pool) -> St {
	let mut st = St { now: System::block_number(), issuance: Balances::total_issuance(), ..Default::default() };
	for a in accounts() {
		st.acc.insert(
			a,
			Account {
				free: Balances::free_balance(a),
				held: Balances::balance_on_hold(&pallet_democracy::HoldReason::Proposal.into(), &a),
				frozen: Balances::balance_frozen(&pallet_democracy::FreezeReason::Vote.into(), &a),
			},
		);
	}
	for (a, v) in pallet_democracy::VotingOf::<Test>::iter() {
		let pr = |p: &dyn Fn() -> Vec<u8>| {
			let (until, amount) = <(u64, u128)>::decode(&mut &p()[..]).unwrap();
			Prior { until, amount }
		};
		let voter = match v {
			Voting::Direct { votes, delegations, prior } => Voter {
				stance: Stance::Direct { votes: votes.iter().map(|(r, v)| (*r, av_from(*v))).collect() },
				del: Del { votes: delegations.votes, capital: delegations.capital },
				prior: pr(&|| prior.encode()),
			},
			Voting::Delegating { balance, target, conviction, delegations, prior } => Voter {
				stance: Stance::Delegating { balance, target, conv: conv_u8(conviction) },
				del: Del { votes: delegations.votes, capital: delegations.capital },
				prior: pr(&|| prior.encode()),
			},
		};
		if voter != Voter::default() {
			st.voters.insert(a, voter);
		}
	}
	st.queue = pallet_democracy::PublicProps::<Test>::get().iter().map(|(i, b, a)| (*i, pool.prop(b), *a)).collect();
	st.deposits = pallet_democracy::DepositOf::<Test>::iter().map(|(i, (w, d))| (i, (w.to_vec(), d))).collect();
	st.prop_count = pallet_democracy::PublicPropCount::<Test>::get();
	st.ref_count = pallet_democracy::ReferendumCount::<Test>::get();
	st.lowest = pallet_democracy::LowestUnbaked::<Test>::get();
	st.refs = pallet_democracy::ReferendumInfoOf::<Test>::iter()
		.map(|(i, r)| {
			(
				i,
				match r {
					ReferendumInfo::Ongoing(s) => Ref::Ongoing {
						end: s.end,
						prop: pool.prop(&s.proposal),
						thr: thr_from(s.threshold),
						delay: s.delay,
						tally: Tally { ayes: s.tally.ayes, nays: s.tally.nays, turnout: s.tally.turnout },
					},
					ReferendumInfo::Finished { approved, end } => Ref::Finished { end, approved },
				},
			)
		})
		.collect();
	st.last_ext = pallet_democracy::LastTabledWasExternal::<Test>::get();
	st.next_ext = pallet_democracy::NextExternal::<Test>::get().map(|(b, t)| (pool.prop(&b), thr_from(t)));
	st.black = pallet_democracy::Blacklist::<Test>::iter().map(|(h, (u, w))| (pool.ph(&h), (u, w.to_vec()))).collect();
	st.cancelled =
		pallet_democracy::Cancellations::<Test>::iter().filter(|(_, b)| *b).map(|(h, _)| pool.ph(&h)).collect();
	st.meta = pallet_democracy::MetadataOf::<Test>::iter().map(|(o, h)| (owner_from(&o), pool.mh(&h))).collect();
	st
}

fn take_events(pool: &Pool) -> Vec<String> {
	use pallet_democracy::Event as E;
	let ev: Vec<String> = System::events()
		.into_iter()
		.filter_map(|r| match r.event {
			RuntimeEvent::Democracy(e) => Some(match e {
				E::Proposed { proposal_index, deposit } => format!("Proposed {proposal_index} {deposit}"),
				E::Tabled { proposal_index, deposit } => format!("Tabled {proposal_index} {deposit}"),
				E::ExternalTabled => "ExternalTabled".to_string(),
				E::Started { ref_index, threshold } => format!("Started {ref_index} {:?}", thr_from(threshold)),
				E::Passed { ref_index } => format!("Passed {ref_index}"),
				E::NotPassed { ref_index } => format!("NotPassed {ref_index}"),
				E::Cancelled { ref_index } => format!("Cancelled {ref_index}"),
				E::Delegated { who, target } => format!("Delegated {who} {target}"),
				E::Undelegated { account } => format!("Undelegated {account}"),
				E::Vetoed { who, proposal_hash, until } => format!("Vetoed {who} {} {until}", pool.ph(&proposal_hash)),
				E::Blacklisted { proposal_hash } => format!("Blacklisted {}", pool.ph(&proposal_hash)),
				E::Voted { voter, ref_index, vote } => format!("Voted {voter} {ref_index} {:?}", av_from(vote)),
				E::Seconded { seconder, prop_index } => format!("Seconded {seconder} {prop_index}"),
				E::ProposalCanceled { prop_index } => format!("ProposalCanceled {prop_index}"),
				E::MetadataSet { owner, hash } => format!("MetadataSet {:?} {}", owner_from(&owner), pool.mh(&hash)),
				E::MetadataCleared { owner, hash } => format!("MetadataCleared {:?} {}", owner_from(&owner), pool.mh(&hash)),
				E::MetadataTransferred { prev_owner, owner, hash } =>
					format!("MetadataTransferred {:?} {:?} {}", owner_from(&prev_owner), owner_from(&owner), pool.mh(&hash)),
				_ => "Unknown".to_string(),
			}),
			_ => None,
		})
		.collect();
	System::reset_events();
	ev
}

/// Properties an operation directly serves.
fn op_tags(op: &Op) -> &'static [&'static str] {
	match op {
		Op::Propose { .. } | Op::Second { .. } | Op::CancelProp { .. } | Op::ClearProps => &["C06"],
		Op::Vote { .. } => &["C01", "C02"],
		Op::RemoveVote { .. } | Op::RemoveOther { .. } => &["C01", "C02"],
		Op::Delegate { .. } | Op::Undelegate => &["C02", "C03"],
		Op::Unlock { .. } => &["C02"],
		Op::SetMeta { .. } => &["C10"],
		_ => &["C08"],
	}
}
fn op_name(op: &Op) -> &'static str {
	match op {
		Op::Propose { .. } => "propose",
		Op::Second { .. } => "second",
		Op::Vote { .. } => "vote",
		Op::EmergencyCancel { .. } => "emergency_cancel",
		Op::ExtPropose { .. } => "external_propose",
		Op::FastTrack { .. } => "fast_track",
		Op::Veto { .. } => "veto_external",
		Op::CancelRef { .. } => "cancel_referendum",
		Op::Delegate { .. } => "delegate",
		Op::Undelegate => "undelegate",
		Op::ClearProps => "clear_public_proposals",
		Op::Unlock { .. } => "unlock",
		Op::RemoveVote { .. } => "remove_vote",
		Op::RemoveOther { .. } => "remove_other_vote",
		Op::Blacklist { .. } => "blacklist",
		Op::CancelProp { .. } => "cancel_proposal",
		Op::SetMeta { .. } => "set_metadata",
	}
}

fn with<'a>(a: &[&'a str], b: &[&'a str]) -> Vec<&'a str> {
	let mut v = a.to_vec();
	v.extend_from_slice(b);
	v
}

/// Report every field in which the observed state differs from the specified one.
fn compare(o: &mut Obs, exp: &St, act: &St, what: &str, tags: &[&'static str], delegated: bool) {
	if exp == act {
		return;
	}
	let block = tags.contains(&"C07");
	for a in exp.acc.keys() {
		let (e, x) = (exp.acc[a], act.acc[a]);
		if e.free != x.free || e.held != x.held {
			o.violate(&with(&["C06"], tags), "deposit-balance", || {
				format!("{what}: account {a} free/held should be {}/{} but is {}/{}", e.free, e.held, x.free, x.held)
			});
		}
		if e.frozen != x.frozen {
			o.violate(&with(&["C02"], tags), "freeze", || {
				format!("{what}: account {a} should have {} frozen but has {}", e.frozen, x.frozen)
			});
		}
	}
	if exp.issuance != act.issuance {
		o.violate(&with(&["C06"], tags), "issuance", || format!("{what}: issuance {} became {}", exp.issuance, act.issuance));
	}
	let all: std::collections::BTreeSet<u64> = exp.voters.keys().chain(act.voters.keys()).copied().collect();
	for a in all {
		let (e, x) = (exp.voters.get(&a).cloned().unwrap_or_default(), act.voters.get(&a).cloned().unwrap_or_default());
		if e.prior != x.prior {
			o.violate(&with(&["C02"], tags), "prior-lock", || {
				format!("{what}: account {a} carried-over lock should be {:?} but is {:?}", e.prior, x.prior)
			});
		}
		if e.del != x.del {
			o.violate(&with(&["C03", "C01"], tags), "delegations", || {
				format!("{what}: account {a} should have {:?} delegated to it but has {:?}", e.del, x.del)
			});
		}
		if e.stance != x.stance {
			o.violate(&with(&["C01", "C02", "C03"], tags), "stance", || {
				format!("{what}: account {a} voting record should be {:?} but is {:?}", e.stance, x.stance)
			});
		}
	}
	let sorted = |q: &Vec<(u32, Prop, u64)>| {
		let mut v = q.clone();
		v.sort();
		v
	};
	if sorted(&exp.queue) != sorted(&act.queue) {
		o.violate(&with(&["C06", "C07"], tags), "queue", || {
			format!("{what}: proposal queue should be {:?} but is {:?}", exp.queue, act.queue)
		});
	}
	if exp.deposits != act.deposits {
		o.violate(&with(&["C06"], tags), "deposits", || {
			format!("{what}: recorded deposits should be {:?} but are {:?}", exp.deposits, act.deposits)
		});
	}
	if exp.prop_count != act.prop_count {
		o.violate(&with(&["C06", "C07"], tags), "prop-count", || {
			format!("{what}: proposal count should be {} but is {}", exp.prop_count, act.prop_count)
		});
	}
	if exp.ref_count != act.ref_count {
		o.violate(&with(&["C07", "C08"], tags), "ref-count", || {
			format!("{what}: referendum count should be {} but is {}", exp.ref_count, act.ref_count)
		});
	}
	if exp.lowest != act.lowest {
		o.violate(&with(&["C04"], tags), "lowest-unbaked", || {
			format!("{what}: lowest undecided referendum should be {} but is {}", exp.lowest, act.lowest)
		});
	}
	let all: std::collections::BTreeSet<u32> = exp.refs.keys().chain(act.refs.keys()).copied().collect();
	for r in all {
		match (exp.refs.get(&r), act.refs.get(&r)) {
			(e, x) if e == x => {},
			(
				Some(Ref::Ongoing { end, prop, thr, delay, tally }),
				Some(Ref::Ongoing { end: end2, prop: prop2, thr: thr2, delay: delay2, tally: tally2 }),
			) => {
				if tally != tally2 {
					let t: &[&str] = if delegated { &["C01", "C03"] } else { &["C01"] };
					o.violate(&with(t, tags), "tally", || {
						format!("{what}: referendum {r} tally should be {tally:?} but is {tally2:?}")
					});
				}
				if (end, prop, thr, delay) != (end2, prop2, thr2, delay2) {
					let t: &[&str] = if block { &["C07", "C04", "C05"] } else { &["C08", "C04", "C05"] };
					o.violate(&with(t, tags), "referendum-terms", || {
						format!(
							"{what}: referendum {r} terms should be {:?} but are {:?}",
							exp.refs[&r], act.refs[&r]
						)
					});
				}
			},
			(e, x) => {
				let t: &[&str] = if block { &["C04", "C07"] } else { &["C08", "C04"] };
				o.violate(&with(t, tags), "referendum-status", || {
					format!("{what}: referendum {r} should be {e:?} but is {x:?}")
				});
			},
		}
	}
	if exp.last_ext != act.last_ext {
		o.violate(&with(&["C07"], tags), "alternation", || {
			format!("{what}: last-tabled-external flag should be {} but is {}", exp.last_ext, act.last_ext)
		});
	}
	if exp.next_ext != act.next_ext {
		o.violate(&with(&["C08", "C07"], tags), "next-external", || {
			format!("{what}: external slot should be {:?} but is {:?}", exp.next_ext, act.next_ext)
		});
	}
	if exp.black != act.black {
		o.violate(&with(&["C08"], tags), "blacklist", || {
			format!("{what}: blacklist should be {:?} but is {:?}", exp.black, act.black)
		});
	}
	if exp.cancelled != act.cancelled {
		o.violate(&with(&["C08"], tags), "cancellations", || {
			format!("{what}: cancellations should be {:?} but are {:?}", exp.cancelled, act.cancelled)
		});
	}
	if exp.meta != act.meta {
		o.violate(&with(&["C10"], tags), "metadata", || {
			format!("{what}: metadata should be {:?} but is {:?}", exp.meta, act.meta)
		});
	}
}

fn to_call(pool: &Pool, op: &Op) -> PCall {
	let hash = |p: &Prop| pool.calls[*p as usize].hash();
	match op.clone() {
		Op::Propose { p, value } => PCall::propose { proposal: pool.calls[p as usize].clone(), value },
		Op::Second { i } => PCall::second { proposal: i },
		Op::Vote { r, v } => PCall::vote { ref_index: r, vote: av_to(v) },
		Op::EmergencyCancel { r } => PCall::emergency_cancel { ref_index: r },
		Op::ExtPropose { p, kind } => {
			let proposal = pool.calls[p as usize].clone();
			match kind {
				Thr::SuperApprove => PCall::external_propose { proposal },
				Thr::Simple => PCall::external_propose_majority { proposal },
				Thr::SuperAgainst => PCall::external_propose_default { proposal },
			}
		},
		Op::FastTrack { p, period, delay } =>
			PCall::fast_track { proposal_hash: hash(&p), voting_period: period, delay },
		Op::Veto { p } => PCall::veto_external { proposal_hash: hash(&p) },
		Op::CancelRef { r } => PCall::cancel_referendum { ref_index: r },
		Op::Delegate { to, conv: c, bal } => PCall::delegate { to, conviction: conv(c), balance: bal },
		Op::Undelegate => PCall::undelegate {},
		Op::ClearProps => PCall::clear_public_proposals {},
		Op::Unlock { target } => PCall::unlock { target },
		Op::RemoveVote { r } => PCall::remove_vote { index: r },
		Op::RemoveOther { target, r } => PCall::remove_other_vote { target, index: r },
		Op::Blacklist { p, r } => PCall::blacklist { proposal_hash: hash(&p), maybe_ref_index: r },
		Op::CancelProp { i } => PCall::cancel_proposal { prop_index: i },
		Op::SetMeta { owner, hash } =>
			PCall::set_metadata { owner: owner_to(owner), maybe_hash: hash.map(|h| pool.meta[h as usize]) },
	}
}

fn to_origin(o: Org) -> RuntimeOrigin {
	match o {
		Org::None => RuntimeOrigin::none(),
		Org::Root => RuntimeOrigin::root(),
		Org::S(a) => RuntimeOrigin::signed(a),
	}
}

/// A promise made by a vote or delegation, kept by the monitor, not by the pallet.
#[derive(Clone, Debug)]
struct Promise {
	who: u64,
	amount: u128,
	/// `None` while the vote/delegation stands.
	until: Option<u64>,
	key: (bool, u32),
}

struct Hist<'a> {
	o: &'a mut Obs,
	rng: Rng,
	cfg: Cfg,
	pool: Pool,
	st: St,
	promises: Vec<Promise>,
	/// Dispatches owed: (block, proposal, referendum).
	owed: Vec<(u64, Prop, u32)>,
	outcomes: BTreeMap<u32, (u64, bool)>,
	/// proposals swept out of the queue by clear_public_proposals
	swept: std::collections::BTreeSet<u32>,
	/// proposals blacklisted for good
	permanent: std::collections::BTreeSet<Prop>,
	scale: u128,
	dead: bool,
}

impl<'a> Hist<'a> {
	fn run_op(&mut self, org: Org, op: Op) {
		if self.dead || self.o.stop() {
			return;
		}
		let st0 = self.st.clone();
		let call = to_call(&self.pool, &op);
		let mut env = Env::default();
		match &op {
			Op::Propose { value, .. } =>
				if let Org::S(w) = org {
					env.can_hold = Balances::can_hold(&pallet_democracy::HoldReason::Proposal.into(), &w, *value) &&
						*value <= Balances::reducible_balance(&w, Preservation::Protect, Fortitude::Force);
				},
			Op::Second { i } =>
				if let (Org::S(w), Some((_, v))) = (org, st0.deposits.get(i)) {
					env.can_hold = Balances::can_hold(&pallet_democracy::HoldReason::Proposal.into(), &w, *v) &&
						*v <= Balances::reducible_balance(&w, Preservation::Protect, Fortitude::Force);
				},
			Op::SetMeta { hash: Some(h), .. } =>
				env.preimage_known = <Preimage as QueryPreimage>::len(&self.pool.meta[*h as usize]).is_some(),
			_ => {},
		}
		let name = op_name(&op);
		let tags = op_tags(&op);
		self.o.op(|| format!("#{} {org:?} {op:?}", st0.now));
		// The real path: the call travels encoded, and is dispatched with its origin.
		let bytes = RuntimeCall::Democracy(call).encode();
		let res = self.o.guard(|| {
			let call = RuntimeCall::decode(&mut &bytes[..]).expect("an encoded call decodes");
			let _ = call.get_dispatch_info();
			call.dispatch(to_origin(org))
		});
		let res = match res {
			Ok(r) => r,
			Err(p) => {
				self.o.violate(&with(&PALLET_TAGS, &[]), "panic", || format!("{name} panicked: {p}"));
				self.dead = true;
				return;
			},
		};
		let events = take_events(&self.pool);
		let act = snapshot(&self.pool);
		let want = step(&st0, &self.cfg, org, &op, env, SINK);
		self.o.count(&format!("{name}:{}", if res.is_ok() { "ok" } else { "err" }));
		let delegated = matches!(op, Op::Delegate { .. } | Op::Undelegate) || st0.voters.values().any(|v| v.del != Del::default());
		self.o.hit(&["C09"], "authority+atomicity");
		match (&want, &res) {
			(Ok(w), Ok(_)) => {
				self.o.hit(tags, "accepted-step");
				let mut exp = w.st.clone();
				normalize(&mut exp);
				let what = format!("after {name} by {org:?}");
				compare(self.o, &exp, &act, &what, tags, delegated);
				// a call by one account must not touch another account's voting record or holds, beyond what is specified
				if exp.voters != act.voters || exp.acc != act.acc {
					self.o.violate(&["C09"], "effects", || format!("{what}: accounts changed in an unspecified way"));
				}
				self.o.hit(&["C11"], "event-record");
				let (mut a, mut b) = (w.events.clone(), events.clone());
				a.sort();
				b.sort();
				if a != b {
					self.o.violate(&["C11"], "events", || format!("{what}: should announce {a:?} but announced {b:?}"));
				}
			},
			(Err(why), Err(_)) => {
				self.o.count(&format!("rejected:{why}"));
				self.o.hit(tags, "rejected-step");
				if act != st0 {
					self.o.violate(&["C09"], "failed-call-trace", || format!("{name} by {org:?} failed but changed the state"));
					compare(self.o, &st0, &act, &format!("after failed {name}"), tags, delegated);
				}
				if !events.is_empty() {
					self.o.violate(&["C11", "C09"], "failed-call-events", || format!("{name} failed but announced {events:?}"));
				}
			},
			(Ok(_), Err(e)) => {
				let e = format!("{e:?}");
				self.o.violate(&with(&["C09"], tags), &format!("refused:{name}"), || {
					format!("{name} by {org:?} must be accepted in this state but was refused: {e}; {op:?}")
				});
			},
			(Err(why), Ok(_)) => {
				let extra: &[&str] = match *why {
					"delegating" | "votes-exist" | "self" => &["C03", "C01"],
					"not-ongoing" => &["C04", "C01"],
					"funds" => &["C01", "C02", "C03", "C06"],
					_ => &[],
				};
				self.o.violate(&with(&with(&["C09"], tags), extra), &format!("accepted:{name}:{why}"), || {
					format!("{name} by {org:?} must be refused ({why}) but was accepted; {op:?}")
				});
			},
		}
		if matches!(op, Op::ClearProps) && res.is_ok() {
			self.swept.extend(st0.queue.iter().map(|q| q.0));
		}
		self.ledger(&st0, &act, org, &op, res.is_ok());
		self.st = act;
		self.invariants();
	}

	/// The monitor's own record of what each account has committed, and until when.
	fn ledger(&mut self, st0: &St, act: &St, org: Org, op: &Op, ok: bool) {
		let now = st0.now;
		if !ok {
			return;
		}
		let lock = self.cfg.lock;
		match op {
			Op::Vote { r, v } => {
				let Org::S(who) = org else { return };
				self.promises.retain(|p| !(p.who == who && p.until.is_none() && p.key == (false, *r)));
				self.promises.push(Promise { who, amount: v.balance(), until: None, key: (false, *r) });
			},
			Op::RemoveVote { r } | Op::RemoveOther { r, .. } => {
				let Org::S(caller) = org else { return };
				let who = if let Op::RemoveOther { target, .. } = op { *target } else { caller };
				let Some(k) = self.promises.iter().position(|p| p.who == who && p.until.is_none() && p.key == (false, *r)) else {
					return
				};
				let p = self.promises.remove(k);
				// what was voted: read from the record before the removal
				let av = match st0.voters.get(&who).map(|v| &v.stance) {
					Some(Stance::Direct { votes }) => votes.get(r).copied(),
					_ => None,
				};
				if let (Some((end, approved)), Some(AV::Std { aye, conv, .. })) = (self.outcomes.get(r), av) {
					if st0.refs.contains_key(r) && aye == *approved {
						let until = end.saturating_add(lock.saturating_mul(periods(conv)));
						if now < until {
							self.promises.push(Promise { until: Some(until), ..p });
						}
					}
				}
			},
			Op::Delegate { conv, bal, .. } => {
				let Org::S(who) = org else { return };
				self.end_delegation(st0, who, now);
				self.promises.push(Promise { who, amount: *bal, until: None, key: (true, *conv as u32) });
			},
			Op::Undelegate => {
				let Org::S(who) = org else { return };
				self.end_delegation(st0, who, now);
			},
			Op::Unlock { target } => {
				// everything expired and nothing standing => nothing frozen
				let live = self
					.promises
					.iter()
					.any(|p| p.who == *target && p.until.map_or(p.amount > 0, |u| now < u));
				self.o.hit(&["C02"], "unlock-releases");
				if !live && act.acc.get(target).map_or(0, |a| a.frozen) != 0 {
					let f = act.acc[target].frozen;
					self.o.violate(&["C02"], "unlock-incomplete", || {
						format!("account {target} unlocked with every commitment ended, but {f} stays frozen")
					});
				}
			},
			_ => {},
		}
	}
	fn end_delegation(&mut self, _st0: &St, who: u64, now: u64) {
		let lock = self.cfg.lock;
		if let Some(k) = self.promises.iter().position(|p| p.who == who && p.until.is_none() && p.key.0) {
			let p = self.promises.remove(k);
			let until = now.saturating_add(lock.saturating_mul(periods(p.key.1 as u8)));
			self.promises.push(Promise { until: Some(until), ..p });
		}
	}

	fn invariants(&mut self) {
		let st = &self.st;
		let now = st.now;
		// C02: what is frozen covers every commitment that still runs.
		let mut need: BTreeMap<u64, &Promise> = BTreeMap::new();
		for p in &self.promises {
			if p.until.map_or(true, |u| now < u) {
				let e = need.entry(p.who).or_insert(p);
				if e.amount < p.amount {
					*e = p;
				}
			}
		}
		for (a, p) in need {
			self.o.hit(&["C02"], "commitment-covered");
			let f = st.acc[&a].frozen;
			if f < p.amount {
				self.o.violate(&["C02"], "commitment-uncovered", || {
					format!("block {now}: account {a} committed {} ({p:?}) but only {f} is frozen", p.amount)
				});
			}
		}
		self.promises.retain(|p| p.until.map_or(true, |u| now < u));
		// C01/C03: derived tallies.
		let del = derived_delegations(st);
		for (a, v) in &st.voters {
			let d = del.get(a).copied().unwrap_or_default();
			if v.del != Del::default() || d != Del::default() {
				self.o.hit(&["C03"], "delegations-derived");
			}
			if v.del != d {
				self.o.violate(&["C03", "C01"], "delegations-derived", || {
					format!("block {now}: account {a} records {:?} delegated to it, its delegators commit {d:?}", v.del)
				});
			}
		}
		for (a, d) in &del {
			if *d != Del::default() && !st.voters.contains_key(a) {
				self.o.violate(&["C03", "C01"], "delegations-derived", || {
					format!("block {now}: {d:?} delegated to {a} is recorded nowhere")
				});
			}
		}
		for (r, t) in derived_tallies(st) {
			if let Ref::Ongoing { tally, .. } = &st.refs[&r] {
				if t != Tally::default() {
					self.o.hit(&["C01"], "tally-derived");
				}
				if *tally != t {
					self.o.violate(&["C01", "C03"], "tally-derived", || {
						format!("block {now}: referendum {r} tally is {tally:?} but its voters and their delegators amount to {t:?}")
					});
				}
			}
		}
		// C06: held == deposits recorded.
		let mut held: BTreeMap<u64, u128> = BTreeMap::new();
		for (w, d) in st.deposits.values() {
			for a in w {
				*held.entry(*a).or_default() += d;
			}
		}
		for (a, x) in &st.acc {
			let h = held.get(a).copied().unwrap_or(0);
			if h > 0 {
				self.o.hit(&["C06"], "held-equals-deposits");
			}
			if h != x.held {
				self.o.violate(&["C06"], "held-vs-deposits", || {
					format!("block {now}: account {a} has {} held but its recorded deposits are {h}", x.held)
				});
			}
		}
		for (i, (w, d)) in &st.deposits {
			if !st.queue.iter().any(|q| q.0 == *i) {
				let sig = if self.swept.contains(i) { "clear_public_proposals-strands-deposits" } else { "deposit-without-proposal" };
				self.o.violate(&["C06"], sig, || {
					format!("block {now}: proposal {i} left the queue but {w:?} still have {d} held each")
				});
			}
		}
		for (i, _, who) in &st.queue {
			if !st.deposits.get(i).map_or(false, |(w, _)| w.first() == Some(who)) {
				self.o.violate(&["C06"], "proposal-without-deposit", || {
					format!("block {now}: queued proposal {i} by {who} is not backed by its proposer")
				});
			}
		}
		// limits
		self.o.hit(&["C09"], "limits");
		if st.queue.len() > self.cfg.max_props ||
			st.deposits.values().any(|d| d.0.len() > self.cfg.max_deposits) ||
			st.black.values().any(|b| b.1.len() > self.cfg.max_black) ||
			st.voters.values().any(|v| matches!(&v.stance, Stance::Direct { votes } if votes.len() > self.cfg.max_votes))
		{
			self.o.violate(&["C09"], "limits", || format!("block {now}: a configured limit is exceeded: {st:?}"));
		}
		// C04: a decided referendum stays decided; undecided ones are never behind `lowest`.
		for (r, (end, ok)) in &self.outcomes {
			if let Some(x) = st.refs.get(r) {
				self.o.hit(&["C04"], "outcome-stable");
				if *x != (Ref::Finished { end: *end, approved: *ok }) {
					self.o.violate(&["C04"], "outcome-changed", || {
						format!("referendum {r} was decided {ok} at {end} and now reads {x:?}")
					});
				}
			}
		}
		for (r, x) in &st.refs {
			if let Ref::Ongoing { end, .. } = x {
				if *end <= now && now > 1 {
					self.o.violate(&["C04"], "overdue", || format!("block {now}: referendum {r} due at {end} is still undecided"));
				}
				if *r < st.lowest || *r >= st.ref_count {
					self.o.violate(&["C04"], "unreachable", || {
						format!("block {now}: ongoing referendum {r} is outside {}..{}", st.lowest, st.ref_count)
					});
				}
			}
		}
		// C08: a permanent ban stays.
		for p in &self.permanent {
			self.o.hit(&["C08"], "ban-stands");
			if st.black.get(p).map(|b| b.0) != Some(u64::MAX) {
				self.o.violate(&["C08"], "ban-lifted", || {
					format!("block {now}: proposal {p} was blacklisted for good, now {:?}", st.black.get(p))
				});
			}
		}
		// C10: metadata only for things that exist (a referendum's may outlive its vote).
		for own in st.meta.keys() {
			self.o.hit(&["C10"], "metadata-owner");
			let fine = match own {
				Owner::External => st.next_ext.is_some(),
				Owner::Proposal(i) => st.queue.iter().any(|q| q.0 == *i),
				Owner::Referendum(_) => true,
			};
			if !fine {
				let sig = match own {
					Owner::Proposal(i) if self.swept.contains(i) => "clear_public_proposals-strands-metadata",
					_ => "metadata-orphan",
				};
				self.o.violate(&["C10"], sig, || format!("block {now}: metadata of {own:?}, which does not exist"));
			}
		}
		let h = hash_debug(&(&st.refs, &st.queue, &st.voters, &st.deposits, &st.next_ext));
		self.o.state(h);
	}

	fn next_block(&mut self) {
		if self.dead || self.o.stop() {
			return;
		}
		let st0 = self.st.clone();
		let n = st0.now + 1;
		recorder::LOG.with(|l| l.borrow_mut().clear());
		let r = self.o.guard(|| {
			System::set_block_number(n);
			Scheduler::on_initialize(n);
			Democracy::on_initialize(n);
		});
		if let Err(p) = r {
			self.o.violate(&with(&PALLET_TAGS, &[]), "panic", || format!("block {n} panicked: {p}"));
			self.dead = true;
			return;
		}
		let events = take_events(&self.pool);
		let act = snapshot(&self.pool);
		// among equally backed proposals the choice is free: put the one actually tabled last
		let mut s = st0.clone();
		if let Some(k) = s.queue.iter().position(|q| !act.queue.iter().any(|x| x.0 == q.0)) {
			let q = s.queue.remove(k);
			s.queue.push(q);
		}
		let want = block(&s, &self.cfg);
		let tags: &[&'static str] = &["C07", "C04"];
		self.o.hit(&["C11"], "event-record");
		if n % self.cfg.launch == 0 {
			if !s.queue.is_empty() || s.next_ext.is_some() {
				self.o.hit(&["C07"], "launch-with-candidates");
				if !s.queue.is_empty() && s.next_ext.is_some() {
					self.o.hit(&["C07"], "launch-with-both-kinds");
				}
				if s.queue.len() > 1 {
					self.o.count("launch-with-competing-proposals");
				}
			} else {
				self.o.count("launch-idle");
			}
		} else if !s.queue.is_empty() || s.next_ext.is_some() {
			self.o.hit(&["C07"], "no-launch-off-period");
		}
		let mut exp = want.st.clone();
		normalize(&mut exp);
		let what = format!("at the start of block {n}");
		compare(self.o, &exp, &act, &what, tags, false);
		if exp.acc != act.acc {
			self.o.violate(&["C06"], "tabling-refund", || format!("{what}: deposits were not returned as specified"));
		}
		if exp.meta != act.meta {
			self.o.violate(&["C10"], "metadata", || format!("{what}: metadata {:?} expected {:?}", act.meta, exp.meta));
		}
		let (mut a, mut b) = (want.events.clone(), events.clone());
		a.sort();
		b.sort();
		if a != b {
			self.o.violate(&["C11"], "events", || format!("{what}: should announce {a:?} but announced {b:?}"));
		}
		// C04, independently of the stored tally: outcome from the voters themselves.
		let elect = if self.cfg.electorate == 0 { st0.issuance } else { self.cfg.electorate };
		let tallies = derived_tallies(&st0);
		for (r, x) in &st0.refs {
			if let Ref::Ongoing { end, thr, prop, delay, .. } = x {
				if *end == n {
					self.o.hit(&["C04"], "referendum-decided");
					let ok = approved(*thr, tallies[r], elect);
					self.o.count(if ok { "outcome:passed" } else { "outcome:rejected" });
					if tallies[r].turnout > 0 {
						self.o.count("outcome:contested-or-voted");
					}
					match act.refs.get(r) {
						Some(Ref::Finished { end, approved }) if *end == n && *approved == ok => {},
						y => {
							let y = y.cloned();
							self.o.violate(&["C04"], "outcome", || {
								format!("referendum {r} ({thr:?}, votes {:?}, electorate {elect}) must finish approved={ok} at {n}, is {y:?}", tallies[r])
							});
						},
					}
					self.outcomes.insert(*r, (n, ok));
					if ok {
						self.owed.push((n.saturating_add((*delay).max(1)), *prop, *r));
					}
				} else if !matches!(act.refs.get(r), Some(Ref::Ongoing { .. })) {
					let y = act.refs.get(r).cloned();
					self.o.violate(&["C04"], "decided-early", || format!("referendum {r} ends at {end} but at {n} it is {y:?}"));
				}
			}
		}
		// C05: what was dispatched in this block is exactly what was owed for it.
		let log: Vec<(u32, bool)> = recorder::LOG.with(|l| l.borrow().clone());
		let mut due: Vec<u32> =
			self.owed.iter().filter(|x| x.0 == n).map(|x| self.pool.tags.get(x.1 as usize).copied().unwrap_or(0)).collect();
		let mut got: Vec<u32> = log.iter().map(|x| x.0).collect();
		due.sort();
		got.sort();
		if !due.is_empty() || !got.is_empty() {
			self.o.hit(&["C05"], "dispatches-compared");
			self.o.count_n("dispatched", got.len() as u64);
		} else if !self.owed.is_empty() {
			self.o.hit(&["C05"], "no-early-dispatch");
		}
		if due != got {
			self.o.violate(&["C05"], "dispatch", || format!("block {n}: calls {due:?} were owed for dispatch, {got:?} were dispatched"));
		}
		if log.iter().any(|x| !x.1) {
			self.o.violate(&["C05"], "dispatch-origin", || format!("block {n}: an enacted call was not dispatched as root: {log:?}"));
		}
		self.owed.retain(|x| x.0 != n);
		self.st = act;
		self.invariants();
	}

	// ------------------------------------------------------------ workload

	fn amount(&mut self) -> u128 {
		let s = self.scale;
		match self.rng.below(8) {
			0 => self.rng.below128(12),
			1 => s * self.rng.range128(1, 3),
			_ => self.rng.below128(s) + 1,
		}
	}
	fn user(&mut self) -> u64 {
		self.rng.range(1, USERS)
	}
	fn a_ref(&mut self) -> u32 {
		let on: Vec<u32> =
			self.st.refs.iter().filter(|(_, r)| matches!(r, Ref::Ongoing { .. })).map(|(i, _)| *i).collect();
		match self.rng.below(10) {
			0 => self.rng.below(self.st.ref_count as u64 + 2) as u32,
			1 if !self.st.refs.is_empty() => {
				let all: Vec<u32> = self.st.refs.keys().copied().collect();
				*self.rng.pick(&all)
			},
			_ if !on.is_empty() => *self.rng.pick(&on),
			_ => self.rng.below(self.st.ref_count as u64 + 1) as u32,
		}
	}
	fn a_prop(&mut self) -> Prop {
		self.rng.below(self.pool.calls.len() as u64) as u32
	}
	fn bal_of(&mut self, who: u64) -> u128 {
		let t = total(&self.st, who);
		match self.rng.below(8) {
			0 => t,
			1 => t + 1,
			2 => t / 2,
			3 => self.rng.below128(25),
			4 => self.rng.below128(t.max(1)) / 10 * 10 + self.rng.below128(10),
			_ => self.rng.below128(t.max(1)),
		}
	}
	fn hostile_origin(&mut self, right: Org) -> Org {
		if self.rng.chance(7, 8) {
			return right
		}
		match self.rng.below(6) {
			0 => Org::None,
			1 => Org::Root,
			2 => Org::S(self.user()),
			_ => {
				let all = accounts();
				Org::S(*self.rng.pick(&all))
			},
		}
	}
	fn random_op(&mut self) -> (Org, Op) {
		let u = self.user();
		let w = [14, 8, 30, 2, 9, 5, 3, 1, 12, 8, 1, 10, 9, 7, 1, 2, 6];
		let w2 = [3, 3, 20, 1, 3, 2, 1, 1, 20, 14, 0, 14, 14, 10, 1, 1, 2];
		let table = if self.scale % 3 == 0 { w2 } else { w };
		let (right, op) = match self.rng.weighted(&table) {
			0 => {
				let value = if self.rng.chance(1, 8) {
					self.cfg.min_deposit.saturating_sub(self.rng.below128(2))
				} else if self.rng.chance(1, 20) {
					self.bal_of(u)
				} else {
					self.cfg.min_deposit + self.rng.below128(self.scale / 8 + 2)
				};
				(Org::S(u), Op::Propose { p: self.a_prop(), value })
			},
			1 => {
				let qs: Vec<u32> = self.st.deposits.keys().copied().collect();
				let i = if qs.is_empty() || self.rng.chance(1, 10) {
					self.rng.below(self.st.prop_count as u64 + 2) as u32
				} else {
					*self.rng.pick(&qs)
				};
				(Org::S(u), Op::Second { i })
			},
			2 => {
				let r = self.a_ref();
				let v = if self.rng.chance(1, 4) {
					let b = self.bal_of(u);
					let aye = self.rng.below128(b + 1);
					if self.rng.chance(1, 40) {
						AV::Split { aye: u128::MAX - 1, nay: b }
					} else {
						AV::Split { aye, nay: b - aye }
					}
				} else {
					AV::Std { aye: self.rng.chance(3, 5), conv: self.rng.below(7) as u8, bal: self.bal_of(u) }
				};
				(Org::S(u), Op::Vote { r, v })
			},
			3 => (Org::S(CANCEL), Op::EmergencyCancel { r: self.a_ref() }),
			4 => {
				let (who, kind) = *self.rng.pick(&[(EXT, Thr::SuperApprove), (MAJ, Thr::Simple), (DEF, Thr::SuperAgainst)]);
				(Org::S(who), Op::ExtPropose { p: self.a_prop(), kind })
			},
			5 => {
				let p = match self.st.next_ext {
					Some((p, _)) if p != STRANGER && self.rng.chance(9, 10) => p,
					_ => self.a_prop(),
				};
				let f = self.cfg.fast;
				let period = match self.rng.below(6) {
					0 => 0,
					1 => 1,
					2 => f.saturating_sub(1),
					3 => f,
					4 => u64::MAX - self.rng.below(3),
					_ => f + self.rng.below(6),
				};
				let delay = match self.rng.below(5) {
					0 => 0,
					1 => u64::MAX - self.rng.below(3),
					_ => self.rng.below(8),
				};
				(Org::S(if self.rng.chance(2, 3) { FAST } else { INSTANT }), Op::FastTrack { p, period, delay })
			},
			6 => {
				let p = match self.st.next_ext {
					Some((p, _)) if p != STRANGER && self.rng.chance(9, 10) => p,
					_ => self.a_prop(),
				};
				(Org::S(*self.rng.pick(&VETOERS)), Op::Veto { p })
			},
			7 => (Org::Root, Op::CancelRef { r: self.a_ref() }),
			8 => (
				Org::S(u),
				Op::Delegate { to: self.user(), conv: self.rng.below(7) as u8, bal: self.bal_of(u) },
			),
			9 => (Org::S(u), Op::Undelegate),
			10 => (Org::Root, Op::ClearProps),
			11 => (Org::S(u), Op::Unlock { target: self.user() }),
			12 | 13 => {
				// prefer a vote that exists
				let mine: Vec<(u64, u32)> = self
					.st
					.voters
					.iter()
					.flat_map(|(a, v)| match &v.stance {
						Stance::Direct { votes } => votes.keys().map(|r| (*a, *r)).collect::<Vec<_>>(),
						_ => vec![],
					})
					.collect();
				let (who, r) =
					if mine.is_empty() || self.rng.chance(1, 8) { (u, self.a_ref()) } else { *self.rng.pick(&mine) };
				if self.rng.chance(1, 2) {
					(Org::S(who), Op::RemoveVote { r })
				} else {
					(Org::S(self.user()), Op::RemoveOther { target: who, r })
				}
			},
			14 => {
				let r = if self.rng.chance(1, 2) { Some(self.a_ref()) } else { None };
				let p = match r.and_then(|r| self.st.refs.get(&r)) {
					Some(Ref::Ongoing { prop, .. }) if *prop != STRANGER && self.rng.chance(3, 4) => *prop,
					_ => self.a_prop(),
				};
				(Org::S(BLACK), Op::Blacklist { p, r })
			},
			15 => {
				let qs: Vec<u32> = self.st.deposits.keys().copied().collect();
				let i = if qs.is_empty() || self.rng.chance(1, 10) {
					self.rng.below(self.st.prop_count as u64 + 2) as u32
				} else {
					*self.rng.pick(&qs)
				};
				(Org::S(CANCELPROP), Op::CancelProp { i })
			},
			_ => {
				let hash =
					if self.rng.chance(3, 4) { Some(self.rng.below(self.pool.meta.len() as u64) as u8) } else { None };
				match self.rng.below(3) {
					0 => {
						let who = match self.st.next_ext {
							Some((_, Thr::SuperApprove)) => EXT,
							Some((_, Thr::Simple)) => MAJ,
							_ => DEF,
						};
						(Org::S(who), Op::SetMeta { owner: Owner::External, hash })
					},
					1 => {
						let (i, who) = if self.st.queue.is_empty() {
							(self.rng.below(3) as u32, u)
						} else {
							let q = *self.rng.pick(&self.st.queue.clone());
							(q.0, q.2)
						};
						(Org::S(who), Op::SetMeta { owner: Owner::Proposal(i), hash })
					},
					_ => {
						let r = self.a_ref();
						let org = if hash.is_some() || self.rng.chance(1, 2) { Org::Root } else { Org::S(u) };
						(org, Op::SetMeta { owner: Owner::Referendum(r), hash })
					},
				}
			},
		};
		(self.hostile_origin(right), op)
	}

	/// Movements of money that governance must survive: transfers and burns by others.
	fn environment(&mut self) {
		let a = self.user();
		let b = self.user();
		let x = self.amount();
		self.o.op(|| format!("environment: {a} moves {x} towards {b}"));
		let before = self.st.clone();
		let r = self.o.guard(|| match x % 3 {
			0 => {
				let _ = Balances::burn_from(&a, x, Preservation::Protect, Precision::BestEffort, Fortitude::Force);
			},
			1 => {
				let _ = Balances::mint_into(&a, x);
			},
			_ => {
				let _ = <Balances as FMutate<u64>>::transfer(&a, &b, x, Preservation::Preserve);
			},
		});
		if r.is_err() {
			self.dead = true;
			return;
		}
		let _ = take_events(&self.pool);
		let act = snapshot(&self.pool);
		// frozen funds cannot be paid away
		if x % 3 == 2 && act.acc[&a].free < before.acc[&a].free {
			self.o.hit(&["C02"], "transfer-respects-freeze");
			let t = act.acc[&a];
			if t.free + t.held < t.frozen {
				self.o.violate(&["C02"], "frozen-moved", || format!("account {a} paid away frozen funds: {t:?}"));
			}
		}
		self.st = act;
	}
}

/// Voting records that say nothing are the same as no record.
fn normalize(st: &mut St) {
	st.voters.retain(|_, v| *v != Voter::default());
}

fn setup(rng: &mut Rng) -> (Cfg, Vec<(u64, u128)>, u128) {
	let scale = *rng.pick(&[30u128, 100, 1000, 10_000_000_000, 12_345_678_901_234_567, 1_000_000_000_000_000_000_000]);
	let cfg = Cfg {
		enactment: rng.range(0, 4),
		launch: rng.range(1, 5),
		voting: rng.range(1, 7),
		lock: rng.range(1, 6),
		fast: rng.range(1, 4),
		cooloff: rng.range(1, 6),
		min_deposit: rng.range128(1, scale / 20 + 1),
		max_votes: rng.range(2, 6) as usize,
		max_props: rng.range(1, 5) as usize,
		max_deposits: rng.range(1, 4) as usize,
		max_black: rng.range(1, 3) as usize,
		instant: rng.chance(1, 2),
		electorate: if rng.chance(1, 2) { 0 } else { rng.range128(scale, scale * 12) },
	};
	EnactmentPeriod::set(cfg.enactment);
	LaunchPeriod::set(cfg.launch);
	VotingPeriod::set(cfg.voting);
	VoteLockingPeriod::set(cfg.lock);
	FastTrackVotingPeriod::set(cfg.fast);
	CooloffPeriod::set(cfg.cooloff);
	MinimumDeposit::set(cfg.min_deposit);
	MaxVotes::set(cfg.max_votes as u32);
	MaxProposals::set(cfg.max_props as u32);
	MaxDeposits::set(cfg.max_deposits as u32);
	MaxBlacklisted::set(cfg.max_black as u32);
	InstantAllowed::set(cfg.instant);
	FixedElectorate::set(cfg.electorate);
	let mut bal = vec![];
	for a in accounts() {
		let b = if a == SINK {
			1_000
		} else if a <= USERS {
			1 + rng.range128(scale / 4, scale * 2)
		} else {
			1 + scale
		};
		bal.push((a, b));
	}
	(cfg, bal, scale)
}

fn build_pool(rng: &mut Rng) -> Pool {
	let n = rng.range(3, 9);
	let mut pool =
		Pool { calls: vec![], by_hash: Default::default(), tags: vec![], meta: vec![], by_meta: Default::default() };
	for i in 0..n {
		let pad = if rng.chance(1, 3) { vec![7u8; 200 + i as usize] } else { vec![1u8; rng.below(20) as usize] };
		let tag = 1000 + i as u32;
		let call: RuntimeCall = recorder::Call::note { tag, pad }.into();
		let b = <Preimage as StorePreimage>::bound(call).unwrap();
		pool.by_hash.insert(b.hash(), i as u32);
		pool.calls.push(b);
		pool.tags.push(tag);
	}
	for i in 0..4u8 {
		let data = vec![i, 0xEE];
		let h = if i < 3 {
			<Preimage as StorePreimage>::note(data.into()).unwrap()
		} else {
			H256::repeat_byte(0xAB)
		};
		pool.meta.push(h);
		pool.by_meta.insert(h, i);
	}
	pool
}

fn with_history(o: &mut Obs, seed: u64, f: impl FnOnce(&mut Hist)) {
	let mut rng = Rng::new(seed);
	let (cfg, bal, scale) = setup(&mut rng);
	let mut ext = new_ext(bal);
	ext.execute_with(|| {
		let pool = build_pool(&mut rng);
		System::reset_events();
		let st = snapshot(&pool);
		o.note(|| format!("config {cfg:?} scale {scale}"));
		let mut h = Hist {
			o,
			rng,
			cfg,
			pool,
			st,
			promises: vec![],
			owed: vec![],
			outcomes: Default::default(),
			swept: Default::default(),
			permanent: Default::default(),
			scale,
			dead: false,
		};
		f(&mut h);
	});
}

fn random_history(seed: u64, o: &mut Obs) {
	if seed % 16 == 0 {
		return functions(seed, o)
	}
	with_history(o, seed, |h| {
		let steps = h.rng.range(80, 320);
		let clearing = h.rng.chance(1, 12);
		for _ in 0..steps {
			if h.dead || h.o.stop() {
				break;
			}
			match h.rng.below(20) {
				0..=4 => {
					let n = if h.rng.chance(1, 8) { h.rng.range(2, 40) } else { 1 };
					for _ in 0..n {
						h.next_block();
					}
				},
				5 => h.environment(),
				_ => {
					let (org, op) = h.random_op();
					if matches!(op, Op::ClearProps) && org == Org::Root && !clearing {
						continue;
					}
					let ban = match (&op, org) {
						(Op::Blacklist { p, .. }, Org::S(BLACK)) => Some(*p),
						_ => None,
					};
					h.run_op(org, op);
					if let Some(p) = ban {
						h.permanent.insert(p);
					}
				},
			}
		}
		// wind down: everything still owed gets its block, every lock can be released
		for _ in 0..12 {
			h.next_block();
		}
	});
}

/// The decision functions on their own, at values histories rarely reach.
fn functions(seed: u64, o: &mut Obs) {
	let mut rng = Rng::new(seed);
	for _ in 0..400 {
		let el = rng.edgy128(u128::MAX >> 1).max(1);
		let turnout = rng.edgy128(el);
		let mut t = Tally { ayes: rng.edgy128(u128::MAX), nays: rng.edgy128(u128::MAX), turnout };
		let thr = *rng.pick(&[Thr::SuperApprove, Thr::SuperAgainst, Thr::Simple]);
		if rng.chance(1, 2) {
			// near the boundary
			let (sv, se) = (isqrt(turnout).max(1), isqrt(el));
			let k = rng.range128(1, 1 << 40);
			let (a, b) = match thr {
				Thr::SuperApprove => (se, sv),
				Thr::SuperAgainst => (sv, se),
				Thr::Simple => (1, 1),
			};
			t.ayes = a.saturating_mul(k).saturating_add(rng.below128(3)).saturating_sub(1);
			t.nays = b.saturating_mul(k);
		}
		let real = match thr {
			Thr::SuperApprove => VoteThreshold::SuperMajorityApprove,
			Thr::SuperAgainst => VoteThreshold::SuperMajorityAgainst,
			Thr::Simple => VoteThreshold::SimpleMajority,
		};
		let want = approved(thr, t, el);
		let got = o.guard(|| {
			real.approved(pallet_democracy::Tally { ayes: t.ayes, nays: t.nays, turnout: t.turnout }, el)
		});
		o.hit(&["C04"], "threshold-function");
		if got.as_ref().ok() != Some(&want) {
			o.violate(&["C04"], "threshold", || format!("{thr:?} on {t:?} of electorate {el} must be {want}, is {got:?}"));
		}
		let c = rng.below(7) as u8;
		let b = rng.edgy128(u128::MAX);
		let d = conv(c).votes(b);
		o.hit(&["C01", "C03"], "conviction-weight");
		if d.votes != weight_of(c, b) || d.capital != b {
			o.violate(&["C01", "C03"], "conviction-weight", || format!("conviction {c} of {b} gives {d:?}"));
		}
		o.hit(&["C02"], "conviction-periods");
		if conv(c).lock_periods() as u64 != periods(c) {
			o.violate(&["C02"], "conviction-periods", || format!("conviction {c} locks {} periods", conv(c).lock_periods()));
		}
		// the wire form of a vote
		let byte = rng.below(256) as u8;
		let dec = Vote::decode(&mut &[byte][..]);
		let valid = byte & 0x7f <= 6;
		o.hit(&["C01"], "vote-encoding");
		let fine = match &dec {
			Ok(v) => valid && v.aye == (byte >= 128) && conv_u8(v.conviction) == byte & 0x7f && v.encode() == vec![byte],
			Err(_) => !valid,
		};
		if !fine {
			o.violate(&["C01"], "vote-encoding", || format!("vote byte {byte} decodes to {dec:?}"));
		}
		o.state(hash_debug(&(t, el, byte, c)));
	}
}

/// Deposits of proposals swept from the queue by root.
fn directed_clear(seed: u64, o: &mut Obs) {
	with_history(o, mon::mix(seed, 77), |h| {
		let value = h.cfg.min_deposit;
		h.run_op(Org::S(1), Op::Propose { p: 0, value });
		h.run_op(Org::S(1), Op::SetMeta { owner: Owner::Proposal(0), hash: Some(1) });
		h.run_op(Org::Root, Op::ClearProps);
		h.next_block();
	});
}

/// A veto must not shorten a permanent ban.
fn directed_ban(seed: u64, o: &mut Obs) {
	with_history(o, mon::mix(seed, 78), |h| {
		h.run_op(Org::S(BLACK), Op::Blacklist { p: 1, r: None });
		h.permanent.insert(1);
		h.run_op(Org::S(MAJ), Op::ExtPropose { p: 1, kind: Thr::Simple });
		h.run_op(Org::S(VETOERS[0]), Op::Veto { p: 1 });
		for _ in 0..12 {
			h.next_block();
		}
		let value = h.cfg.min_deposit;
		h.run_op(Org::S(1), Op::Propose { p: 1, value });
	});
}

fn main() {
	const A: &[&str] = &[
		"pallet-balances, pallet-scheduler, pallet-preimage and frame (registry crates) behave as documented",
		"holds on the histories generated from this seed; configuration constants are drawn per history",
	];
	macro_rules! p {
		($id:expr, $rule:expr, $req:expr) => {
			PropInfo { id: $id, rule: $rule, required: $req, quick: 2_500, thorough: 100_000, assumptions: A }
		};
	}
	let props = [
		p!("C01", "a history is 80-320 randomized governance operations by 8 users and 12 privileged accounts over drawn parameters; non-trivial when a non-empty tally was compared with the votes and delegations behind it", &["tally-derived", "vote:ok", "remove_vote:ok", "vote-encoding"]),
		p!("C02", "as C01; non-trivial when a running vote/delegation commitment, or an unlock, was checked against what is frozen", &["commitment-covered", "unlock-releases", "transfer-respects-freeze", "remove_other_vote:ok"]),
		p!("C03", "as C01; non-trivial when recorded delegations were compared with the delegators' commitments", &["delegations-derived", "delegate:ok", "undelegate:ok"]),
		p!("C04", "as C01, plus direct calls of the approval rule near its boundary; non-trivial when a referendum reached its end or an outcome was re-read", &["referendum-decided", "outcome:passed", "outcome:rejected", "threshold-function"]),
		p!("C05", "as C01; non-trivial when dispatched calls were compared with those owed", &["dispatches-compared", "no-early-dispatch", "dispatched"]),
		p!("C06", "as C01; non-trivial when held balances were compared with recorded deposits", &["held-equals-deposits", "propose:ok", "second:ok", "cancel_proposal:ok"]),
		p!("C07", "as C01; non-trivial when a launch (or its absence) with something queued was compared with the rule", &["launch-with-candidates", "launch-with-both-kinds", "no-launch-off-period"]),
		p!("C08", "as C01; non-trivial when an external proposal, fast-track, veto, ban or cancellation step was compared with the rule", &["accepted-step", "fast_track:ok", "veto_external:ok", "blacklist:ok", "emergency_cancel:ok"]),
		p!("C09", "as C01; non-trivial when acceptance or refusal of a call and the effect of refusal were compared with the rule", &["authority+atomicity", "rejected:origin", "rejected:permission", "limits"]),
		p!("C10", "as C01; non-trivial when metadata changes were compared with the rule", &["metadata-owner", "set_metadata:ok", "set_metadata:err"]),
		p!("C11", "as C01; non-trivial when the events of a step were compared with the changes it made", &["event-record"]),
	];
	mon::main_with(&props, &[("clear", directed_clear), ("ban", directed_ban)], random_history)
}
