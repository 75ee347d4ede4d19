//! Monitors for pallet-funding: whole campaigns (several projects at once) through the real
//! calls, against a model kept from the calls alone.
mod events;
mod model;
mod queries;
mod rt;
use frame_support::traits::{
	fungible::{Inspect as _, InspectHold as _},
	fungibles::{metadata::Mutate as _, Create as _, Inspect as _, Mutate as _},
};
use model::*;
use mon::{hash_debug, Obs, PropInfo, Rng};
use pallet_funding::{
	self as pf, AcceptedFundingAsset as Asset, BidStatus, BiddingTicketSizes, ContributingTicketSizes, CurrencyMetadata, ParticipationMode as Mode,
	ProjectMetadataOf, TicketSize,
};
use parity_scale_codec::{Decode, Encode};
use polimec_common::{
	credentials::{Algorithm, AlgorithmExt, Ed25519, Header, InvestorType, SampleClaims, StandardClaims, UntrustedToken},
	migration_types::{MigrationStatus, Migrations},
	PLMC_FOREIGN_ID, USD_UNIT,
};
use rt::*;
use sp_arithmetic::{FixedU128, Percent};
use sp_runtime::{traits::{AccountIdConversion, Dispatchable}, BuildStorage};
use std::{cell::RefCell, collections::{BTreeMap, HashMap}};
use xcm::v4::{Instruction, Junction::Parachain, Junctions, Location, MaybeErrorCode, PalletInfo, Response};

const NOW_MS: u64 = 1_700_000_000_000;
thread_local! {
	/// milliseconds into the second: a token that expires in this very second has then expired
	static LATE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
const ALL: &[&str] = &[R, E, A, N, G, W, S, M, K];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum J {
	Good,
	JustValid,
	Expired,
	Forged,
	Stolen,
	NoExpiry,
}
fn jwt(who: Acc, did: u8, inv: &InvestorType, cid: u8, j: J) -> UntrustedToken {
	thread_local! {
		static CACHE: RefCell<HashMap<(Acc, u8, u8, u8, J), UntrustedToken>> = RefCell::new(HashMap::new());
	}
	let key = (who, did, inv.clone() as u8, cid, j);
	if let Some(t) = CACHE.with(|c| c.borrow().get(&key).cloned()) {
		return t;
	}
	let claims = SampleClaims::<Acc> {
		subject: if j == J::Stolen { Acc(who.0 % USERS + 1) } else { who },
		issuer: "verifier".into(),
		ipfs_cid: cid_of(cid),
		investor_type: inv.clone(),
		did: did_bytes(did),
	};
	let mut c = StandardClaims::new(claims);
	let now = (NOW_MS / 1000) as i64;
	let at = |s: i64| chrono::TimeZone::timestamp_opt(&chrono::Utc, s, 0).single().unwrap();
	c.expiration = match j {
		J::NoExpiry => None,
		J::Expired => Some(at(now - 1)),
		J::JustValid => Some(at(now)),
		_ => Some(at(now + 100_000)),
	};
	let mut k = SIGNING_KEY;
	if j == J::Forged {
		k[3] ^= 1;
	}
	use polimec_common::credentials::alg::SigningKey;
	let k = <<Ed25519 as Algorithm>::SigningKey as SigningKey<Ed25519>>::from_slice(&k).unwrap();
	// a missing expiry is written as an absent field
	let s = Ed25519.token(&Header::empty(), &c, &k).unwrap();
	let t = UntrustedToken::new(&s).unwrap();
	CACHE.with(|x| x.borrow_mut().insert(key, t.clone()));
	t
}
fn cid_of(c: u8) -> polimec_common::credentials::Cid {
	format!("ipfs-policy-{c}").into_bytes().try_into().unwrap()
}
/// Accounts 7 and 1 belong to one person, so do 8 and 3.
fn did_of(u: Acc) -> u8 {
	match u.0 {
		7 => 1,
		8 => 3,
		n => n as u8,
	}
}
fn jwt_ok(j: J) -> bool {
	j == J::Good || j == J::JustValid && LATE.get() == 0
}

enum V {
	Yes,
	Any,
	No(&'static [&'static str], &'static str),
}
struct H<'a> {
	o: &'a mut Obs,
	r: Rng,
	m: Model,
	now: u64,
	last: String,
	/// what is asked of the runtime API, apart from what is done
	asks: Rng,
	/// the projects as they were after the last comparison with the events
	was: BTreeMap<u32, P>,
}
fn add(m: &mut BTreeMap<u32, u128>, a: u32, x: u128) {
	*m.entry(a).or_default() += x;
}
fn cut(m: &mut BTreeMap<u32, u128>, a: u32, x: u128) {
	let e = m.entry(a).or_default();
	*e = e.saturating_sub(x);
}

// ------------------------------------------------------------------ projects' metadata

/// The rules a project's metadata must obey, stated from its own numbers.
fn acceptable(x: &ProjectMetadataOf<Test>) -> bool {
	let inner = x.minimum_price.into_inner();
	let dec = x.token_information.decimals as u32;
	let t = |t: &TicketSize, low: u128| t.usd_minimum_per_participation >= low * USD_UNIT && t.usd_maximum_per_did.map_or(true, |m| m >= t.usd_minimum_per_participation);
	if inner == 0 || !(6..=18).contains(&dec) {
		return false;
	}
	let price_micro = |p: u128| p * 10u128.pow(dec - 6); // inner of the whole-token price in USD
	let unit = 10u128.pow(18);
	let target = mul(inner, x.total_allocation_size);
	let mut cur = x.participation_currencies.to_vec();
	cur.sort();
	cur.dedup();
	t(&x.bidding_ticket_sizes.professional, 5000) &&
		t(&x.bidding_ticket_sizes.institutional, 5000) &&
		t(&x.contributing_ticket_sizes.retail, 1) &&
		t(&x.contributing_ticket_sizes.professional, 1) &&
		t(&x.contributing_ticket_sizes.institutional, 1) &&
		x.total_allocation_size <= x.mainnet_token_max_supply &&
		x.total_allocation_size >= 10u128.pow(dec) &&
		x.auction_round_allocation_percentage > Percent::zero() &&
		cur.len() == x.participation_currencies.len() &&
		(1_000 * USD_UNIT..=1_000_000_000 * USD_UNIT).contains(&target) &&
		(unit / 100_000..=1000 * unit).contains(&price_micro(inner))
}
fn some_meta(r: &mut Rng, issuer: Acc, n: u32) -> ProjectMetadataOf<Test> {
	let dec: u8 = if r.chance(1, 2) { 10 } else { r.range(6, 18) as u8 };
	let price = match r.below(6) {
		0 => 10,
		1 => 1_000_000_000,
		2 => 1_000_000,
		3 => 10_000_000,
		_ => r.range128(1, 100_000_000) * 10,
	};
	let target = match r.below(8) {
		0 => 1_000 * USD_UNIT,
		1 => r.range128(1_000, 100_000) * USD_UNIT,
		2 => r.range128(1_000_000, 12_000_000) * USD_UNIT,
		_ => r.range128(60_000, 900_000) * USD_UNIT,
	};
	let unit = 10u128.pow(dec as u32);
	let mut total = (muldiv(target, unit, price) + 1).max(unit);
	if r.chance(1, 2) {
		// whole tokens
		total = (total / unit + 1) * unit;
	}
	let pct = *r.pick(&[50u8, 50, 100, 30, 20, 10, 1, 73]);
	let mut cur = vec![Asset::USDT, Asset::USDC, Asset::DOT];
	if r.chance(1, 2) {
		let i = r.below(3) as usize;
		cur.swap(0, i);
		cur.truncate(r.range(1, 3) as usize);
	}
	let t = |r: &mut Rng, low: u128| {
		let min = if r.chance(2, 3) { low } else { low + r.below128(low * 3 + 1) } * USD_UNIT;
		TicketSize::new(min, r.chance(1, 3).then(|| min * r.range128(1, 20)))
	};
	let dest = if r.chance(1, 3) { issuer } else { Acc(9000 + n as u128) };
	ProjectMetadataOf::<Test> {
		token_information: CurrencyMetadata { name: b"Token".to_vec().try_into().unwrap(), symbol: b"TKN".to_vec().try_into().unwrap(), decimals: dec },
		mainnet_token_max_supply: total + if r.chance(1, 2) { 0 } else { r.below128(total + 1) },
		total_allocation_size: total,
		auction_round_allocation_percentage: Percent::from_percent(pct),
		minimum_price: FixedU128::from_inner(price * 10u128.pow(18 - dec as u32)),
		bidding_ticket_sizes: BiddingTicketSizes { professional: t(r, 5000), institutional: t(r, 5000), phantom: Default::default() },
		contributing_ticket_sizes: ContributingTicketSizes { retail: t(r, 1), professional: t(r, 1), institutional: t(r, 1), phantom: Default::default() },
		participation_currencies: cur.try_into().unwrap(),
		funding_destination_account: dest,
		policy_ipfs_cid: (!r.chance(1, 15)).then(|| cid_of(0)),
	}
}
/// One clause broken, or brought to its very edge.
fn bend(r: &mut Rng, x: &mut ProjectMetadataOf<Test>) -> &'static str {
	let one = |dec: u8| 10u128.pow(dec as u32);
	let dec = x.token_information.decimals;
	match r.below(13) {
		0 => {
			x.minimum_price = FixedU128::from_inner(0);
			"no price"
		},
		1 => {
			x.bidding_ticket_sizes.professional.usd_minimum_per_participation = 5000 * USD_UNIT - r.below128(2);
			x.bidding_ticket_sizes.professional.usd_maximum_per_did = None;
			"professional bid minimum"
		},
		2 => {
			x.bidding_ticket_sizes.institutional.usd_minimum_per_participation = 5000 * USD_UNIT - 1;
			"institutional bid minimum"
		},
		3 => {
			let which = r.below(5);
			let t = match which {
				0 => &mut x.bidding_ticket_sizes.professional,
				1 => &mut x.bidding_ticket_sizes.institutional,
				2 => &mut x.contributing_ticket_sizes.retail,
				3 => &mut x.contributing_ticket_sizes.professional,
				_ => &mut x.contributing_ticket_sizes.institutional,
			};
			t.usd_maximum_per_did = Some(t.usd_minimum_per_participation - r.below128(2));
			"maximum around the minimum"
		},
		4 => {
			let which = r.below(3);
			let t = match which {
				0 => &mut x.contributing_ticket_sizes.retail,
				1 => &mut x.contributing_ticket_sizes.professional,
				_ => &mut x.contributing_ticket_sizes.institutional,
			};
			t.usd_minimum_per_participation = USD_UNIT - r.below128(2);
			t.usd_maximum_per_did = None;
			"contribution minimum"
		},
		5 => {
			x.mainnet_token_max_supply = x.total_allocation_size - r.below128(2);
			"allocation against supply"
		},
		6 => {
			x.total_allocation_size = 0;
			"no allocation"
		},
		7 => {
			x.auction_round_allocation_percentage = Percent::zero();
			"no auction"
		},
		8 => {
			x.participation_currencies = vec![Asset::USDT, *r.pick(&[Asset::USDT, Asset::DOT]), Asset::USDT].try_into().unwrap();
			"currency twice"
		},
		9 => {
			// the target at either limit
			let p = x.minimum_price.into_inner();
			let goal = *r.pick(&[1_000 * USD_UNIT, 1_000_000_000 * USD_UNIT]);
			let exact = muldiv(goal, one(18), p);
			x.total_allocation_size = exact + r.below128(3) - 1;
			x.mainnet_token_max_supply = x.mainnet_token_max_supply.max(x.total_allocation_size);
			"target limit"
		},
		10 => {
			x.token_information.decimals = *r.pick(&[5u8, 19, 0, 255]);
			"decimals"
		},
		11 => {
			// price limits: 0.00001 and 1000 USD per token
			let edge = *r.pick(&[10u128, 1_000_000_000]);
			let p = edge * 10u128.pow(18 - dec as u32);
			let p = match r.below(3) {
				0 => p,
				1 => p + 1,
				_ => p - 1,
			};
			x.minimum_price = FixedU128::from_inner(p);
			let total = muldiv(200_000 * USD_UNIT, one(dec), edge).max(one(dec)) * 11 / 10;
			x.total_allocation_size = total;
			x.mainnet_token_max_supply = total;
			"price limit"
		},
		_ => {
			x.total_allocation_size = one(dec) - r.below128(2);
			x.mainnet_token_max_supply = x.mainnet_token_max_supply.max(x.total_allocation_size);
			"one whole token"
		},
	}
}

impl<'a> H<'a> {
	fn dead(&self) -> bool {
		self.m.done || self.o.stop()
	}
	fn op(&mut self, s: String) {
		self.last = s.clone();
		let now = self.now;
		self.o.op(|| format!("[{now}] {s}"));
	}
	/// Make the call; the oracle's verdict is compared with what happened.
	fn call(&mut self, v: V, yes: &'static [&'static str], kind: &'static str, origin: RuntimeOrigin, c: RuntimeCall) -> bool {
		// what an account may do is not for those who are none
		if frame_support::traits::OriginTrait::as_signed(origin.clone()).is_some() && self.r.chance(1, 30) {
			let other: RuntimeOrigin = match self.r.below(3) {
				0 => RuntimeOrigin::none(),
				1 => RuntimeOrigin::root(),
				_ => pallet_xcm::Origin::Response(Location::new(1, [Parachain(2000)])).into(),
			};
			let before = sp_io::storage::root(sp_runtime::StateVersion::V1);
			let (c, who) = (c.clone(), format!("{other:?}"));
			match self.o.guard(|| c.dispatch(other)) {
				Err(p) => self.bad(ALL, "panic-nobody", format!("from {who}: panicked: {p}")),
				Ok(Ok(_)) => self.bad(yes, "call-without-account", format!("from {who}: succeeded")),
				Ok(Err(_)) if sp_io::storage::root(sp_runtime::StateVersion::V1) != before => self.bad(yes, "call-without-account-trace", format!("from {who}: refused, yet something changed")),
				Ok(Err(_)) => self.o.hit(yes, "call-without-account"),
			}
			if self.m.done {
				return false
			}
		}
		let r = self.o.guard(|| c.dispatch(origin));
		self.judge(v, yes, kind, r.map(|x| x.map(|_| ()).map_err(|e| format!("{:?}", e.error))))
	}
	fn judge(&mut self, v: V, yes: &'static [&'static str], kind: &'static str, r: Result<Result<(), String>, String>) -> bool {
		let last = self.last.clone();
		let r = match r {
			Err(p) => {
				self.o.violate(ALL, &format!("panic-{kind}"), || format!("{last}: panicked: {p}"));
				self.m.done = true;
				return false;
			},
			Ok(r) => r,
		};
		let ok = r.is_ok();
		self.o.note(|| format!("    -> {r:?}"));
		match v {
			V::Yes if ok => self.o.hit(yes, kind),
			V::Yes => {
				self.o.violate(yes, &format!("refused-{kind}"), || format!("{last}: must succeed, got {r:?}"));
				self.m.done = true;
			},
			V::No(p, why) if ok => {
				self.o.violate(p, why, || format!("{last}: must be refused ({why}), succeeded"));
				self.m.done = true;
			},
			V::No(p, why) => self.o.hit(p, why),
			V::Any => {},
		}
		ok
	}
	fn bad(&mut self, props: &[&str], sig: &str, msg: String) {
		let last = self.last.clone();
		self.o.violate(props, sig, || format!("{last}: {msg}"));
		self.m.done = true;
	}
	fn some_j(&mut self) -> J {
		if self.r.chance(1, 25) {
			*self.r.pick(&[J::Expired, J::Forged, J::Stolen, J::NoExpiry])
		} else if self.r.chance(1, 6) {
			J::JustValid
		} else {
			J::Good
		}
	}
	fn some_user(&mut self) -> Acc {
		Acc(self.r.range128(1, USERS))
	}
	fn free(&self, a: Acc) -> u128 {
		Balances::free_balance(a)
	}
	fn plmc_ok(&self, a: Acc, need: u128) -> Option<bool> {
		let f = self.free(a);
		if f >= need + 2 * ED + 4 {
			Some(true)
		} else if f + 4 < need {
			Some(false)
		} else {
			None
		}
	}

	// -------------------------------------------------------------- application

	fn create(&mut self, who: Acc) {
		let n = pf::NextProjectId::<Test>::get();
		let mut meta = some_meta(&mut self.r, who, n);
		let mut bent = "";
		if self.r.chance(1, 6) {
			bent = bend(&mut self.r, &mut meta);
		}
		let j = self.some_j();
		let inv = if self.r.chance(1, 20) { InvestorType::Professional } else { InvestorType::Institutional };
		let d = did_of(who);
		let v = if !jwt_ok(j) {
			V::No(&[K], "bad-credential")
		} else if inv != InvestorType::Institutional {
			V::No(&[R, K], "issuer-not-institutional")
		} else if self.m.active.contains_key(&d) {
			V::No(&[R, K], "second-active-project")
		} else if !acceptable(&meta) {
			V::No(&[R], "unacceptable-metadata")
		} else {
			match self.plmc_ok(who, ED) {
				Some(true) => V::Yes,
				Some(false) => V::No(&[R], "issuer-without-funds"),
				None => V::Any,
			}
		};
		self.op(format!("{who:?} creates project {n} ({bent}) {inv:?} {j:?} {}", brief(&meta)));
		let ok = self.call(v, &[R], "project-created", RuntimeOrigin::signed(who), pf::Call::<Test>::create_project { jwt: jwt(who, d, &inv, 0, j), project: meta.clone() }.into());
		if !ok || self.dead() {
			return;
		}
		*self.m.plmc.get_mut(&who).unwrap() -= ED;
		self.m.active.insert(d, n);
		let p = fresh(meta, who, d);
		self.m.ps.insert(n, p);
	}
	fn edit(&mut self, pid: u32, who: Acc) {
		let issuer = self.m.ps[&pid].issuer;
		let mut meta = some_meta(&mut self.r, issuer, pid);
		if self.r.chance(1, 3) {
			bend(&mut self.r, &mut meta);
		}
		let j = self.some_j();
		let p = &self.m.ps[&pid];
		let v = if !jwt_ok(j) {
			V::No(&[K], "bad-credential")
		} else if p.removed || p.issuer != who {
			V::No(&[R], "edit-by-stranger")
		} else if p.st != St::App {
			V::No(&[R], "edit-frozen")
		} else if !acceptable(&meta) {
			V::No(&[R], "unacceptable-metadata")
		} else {
			V::Yes
		};
		self.op(format!("{who:?} edits project {pid} {j:?} {}", brief(&meta)));
		let ok = self.call(v, &[R], "project-edited", RuntimeOrigin::signed(who), pf::Call::<Test>::edit_project { jwt: jwt(who, did_of(who), &InvestorType::Institutional, 0, j), project_id: pid, new_project_metadata: meta.clone() }.into());
		if ok && !self.dead() {
			let p = &self.m.ps[&pid];
			let q = fresh(meta, p.issuer, p.did);
			self.m.ps.insert(pid, q);
		}
	}
	fn remove(&mut self, pid: u32, who: Acc) {
		let j = self.some_j();
		// the same account may hold a credential for another DID
		let d = if self.r.chance(1, 4) { self.r.range(1, USERS as u64) as u8 } else { did_of(who) };
		let p = &self.m.ps[&pid];
		let v = if !jwt_ok(j) {
			V::No(&[K], "bad-credential")
		} else if p.removed || p.issuer != who {
			V::No(&[R], "remove-by-stranger")
		} else if p.st != St::App {
			V::No(&[R], "remove-frozen")
		} else if d != p.did {
			V::Any
		} else {
			V::Yes
		};
		self.op(format!("{who:?} (DID {d}) removes project {pid} {j:?}"));
		let ok = self.call(v, &[R], "project-removed", RuntimeOrigin::signed(who), pf::Call::<Test>::remove_project { jwt: jwt(who, d, &InvestorType::Institutional, 0, j), project_id: pid }.into());
		if ok && !self.dead() {
			let p = self.m.ps.get_mut(&pid).unwrap();
			p.removed = true;
			let d = p.did;
			self.m.active.remove(&d);
		}
	}
	fn start_evaluation(&mut self, pid: u32, who: Acc) {
		let j = self.some_j();
		let p = &self.m.ps[&pid];
		let v = if !jwt_ok(j) {
			V::No(&[K], "bad-credential")
		} else if p.removed || p.issuer != who {
			V::No(&[R], "evaluation-started-by-stranger")
		} else if p.st != St::App {
			V::No(&[R], "evaluation-started-twice")
		} else if p.meta.policy_ipfs_cid.is_none() {
			V::No(&[R], "evaluation-without-policy")
		} else {
			V::Yes
		};
		self.op(format!("{who:?} starts the evaluation of {pid} {j:?}"));
		let ok = self.call(v, &[R], "evaluation-started", RuntimeOrigin::signed(who), pf::Call::<Test>::start_evaluation { jwt: jwt(who, did_of(who), &InvestorType::Institutional, 0, j), project_id: pid }.into());
		if ok && !self.dead() {
			let now = self.now;
			let p = self.m.ps.get_mut(&pid).unwrap();
			p.st = St::Eval;
			p.start = Some(now);
			p.end = Some(now + EVAL - 1);
		}
	}

	// -------------------------------------------------------------- evaluation

	fn evaluate(&mut self, pid: u32, who: Acc, usd: u128) {
		let j = self.some_j();
		let cid = if self.r.chance(1, 25) { 1 } else { 0 };
		let inv = self.r.pick(&[InvestorType::Retail, InvestorType::Professional, InvestorType::Institutional]).clone();
		let d = did_of(who);
		let p = &self.m.ps[&pid];
		let bond = bond_of(usd, 1);
		let v = if !jwt_ok(j) {
			V::No(&[K], "bad-credential")
		} else if p.removed || p.st != St::Eval || p.end.map_or(true, |e| self.now >= e) {
			V::No(&[E, R], "evaluation-outside-the-round")
		} else if cid != 0 {
			V::No(&[E, K], "evaluation-other-policy")
		} else if usd < 100 * USD_UNIT {
			V::No(&[E], "evaluation-too-low")
		} else if p.did == d {
			V::No(&[E], "evaluation-by-issuer")
		} else if p.ever_evals >= MaxEvaluationsPerProject::get() {
			V::No(&[E], "evaluation-project-limit")
		} else if p.evals.iter().filter(|e| e.who == who).count() >= MaxEvaluationsPerUser::get() as usize {
			V::No(&[E], "evaluation-user-limit")
		} else {
			match self.plmc_ok(who, bond) {
				Some(true) => V::Yes,
				Some(false) => V::No(&[E, W], "evaluation-without-funds"),
				None => V::Any,
			}
		};
		self.op(format!("{who:?} evaluates {pid} with {usd} USD {j:?} cid{cid}"));
		let ok = self.call(v, &[E], "evaluated", RuntimeOrigin::signed(who), pf::Call::<Test>::evaluate { jwt: jwt(who, d, &inv, cid, j), project_id: pid, usd_amount: usd }.into());
		if !ok || self.dead() {
			return;
		}
		let id = self.m.next_eval;
		self.m.next_eval += 1;
		let Some(e) = pf::Evaluations::<Test>::get((pid, who, id)) else {
			return self.bad(&[E], "evaluation-not-recorded", format!("evaluation {id} is not there"));
		};
		if !near(e.original_plmc_bond, bond, 1) {
			return self.bad(&[E, W], "evaluation-bond", format!("bonds {} PLMC, {bond} is worth it", e.original_plmc_bond));
		}
		let now = self.now;
		let p = self.m.ps.get_mut(&pid).unwrap();
		let early = usd.min((Percent::from_percent(10) * p.target).saturating_sub(p.bonded_usd));
		p.evals.push(Ev { id, who, did: d, usd, early, bond: e.original_plmc_bond, current: e.original_plmc_bond, when: now });
		p.ever_evals += 1;
		p.bonded_usd += usd;
		p.bonded_plmc += e.original_plmc_bond;
		if early > 0 && early < usd {
			self.o.hit(&[E], "evaluation-split-early-late");
		}
	}
	fn end_evaluation(&mut self, pid: u32) {
		let p = &self.m.ps[&pid];
		let v = if p.removed || p.st != St::Eval {
			V::No(&[R], "end-evaluation-in-other-state")
		} else if p.end.map_or(true, |e| self.now < e) {
			V::No(&[R], "end-evaluation-too-early")
		} else {
			V::Yes
		};
		let who = self.some_user();
		self.op(format!("{who:?} ends the evaluation of {pid}"));
		let ok = self.call(v, &[R, S], "evaluation-ended", RuntimeOrigin::signed(who), pf::Call::<Test>::end_evaluation { project_id: pid }.into());
		if !ok || self.dead() {
			return;
		}
		let now = self.now;
		let p = self.m.ps.get_mut(&pid).unwrap();
		p.start = Some(now);
		if p.bonded_usd >= Percent::from_percent(10) * p.target {
			p.st = St::Auction;
			p.end = Some(now + AUCTION - 1);
			self.o.hit(&[E, R], "evaluation-passed");
		} else {
			p.st = St::Failed;
			p.end = Some(now);
			let d = p.did;
			self.m.active.remove(&d);
			self.o.hit(&[E, R], "evaluation-failed");
		}
	}

	// -------------------------------------------------------------- participation

	/// Can `who` pay for these tickets? Also the bonds expected.
	fn funds(&self, pid: u32, who: Acc, tickets: &[u128], mode: Mode, asset: Asset) -> Option<bool> {
		let p = &self.m.ps[&pid];
		let mult = mode.multiplier();
		let bonds: Vec<u128> = tickets.iter().map(|t| bond_of(*t, mult)).collect();
		let locks: Vec<u128> = tickets.iter().map(|t| asset_of(*t, asset)).collect();
		let min = min_of(asset);
		let mut sure = true;
		let mut pot = p.escrow.get(&asset.id()).copied().unwrap_or(0);
		let mut pool = p.pool.get(&asset.id()).copied().unwrap_or(0);
		let mut need: u128 = locks.iter().sum();
		let mut slack = 2 * tickets.len() as u128;
		for l in &locks {
			if pot + l < min + 3 && *l > 0 || *l <= 1 {
				sure = false;
			}
			pot += l;
		}
		if mode == Mode::OTM {
			for b in &bonds {
				let (f, tol) = fee_of(*b, asset);
				if pool + f < min + tol || *b <= 1 {
					sure = false;
				}
				pool += f;
				need += f;
				slack += tol;
			}
		}
		let have = tok(asset.id(), who);
		if have + slack < need {
			return Some(false);
		}
		if have < need + min + slack {
			sure = false;
		}
		if mode != Mode::OTM {
			let total: u128 = bonds.iter().sum();
			let conv: u128 = p.evals.iter().filter(|e| e.who == who).map(|e| e.current.saturating_sub(slash_of(e.bond))).sum();
			match self.plmc_ok(who, total.saturating_sub(conv)) {
				Some(true) => {},
				Some(false) => return Some(false),
				None => sure = false,
			}
		}
		sure.then_some(true)
	}
	/// The bond and the money of a successful participation, moved in the model.
	fn paid(&mut self, pid: u32, who: Acc, mode: Mode, asset: Asset, bonds: &[u128], locked: u128, pool_before: u128, treasury_before: u128) {
		let a = asset.id();
		let total: u128 = bonds.iter().sum();
		let mut fee = 0;
		if mode == Mode::OTM {
			let after = tok(a, sub(pid));
			fee = after.saturating_sub(pool_before);
			let (mut f, mut tol) = (0, 0);
			for b in bonds {
				let x = fee_of(*b, asset);
				f += x.0;
				tol += x.1;
			}
			if !near(fee, f, tol) {
				return self.bad(&[W], "participation-fee", format!("a fee of {fee} was charged for {total} PLMC, {f} is due"));
			}
			let moved = treasury_before.saturating_sub(Balances::total_balance(&BondTreasury::get()));
			if moved != total && moved != total + ED {
				return self.bad(&[W], "treasury-moved", format!("the treasury lent {moved}, the bond is {total}"));
			}
			*self.m.plmc.get_mut(&BondTreasury::get()).unwrap() -= moved;
			let p = self.m.ps.get_mut(&pid).unwrap();
			p.sub_ed += moved - total;
			add(&mut p.pool, a, fee);
			p.otm += total;
			self.o.hit(&[W], "otm-participation");
		} else {
			// evaluation bonds serve first, down to the slash deposit
			let p = self.m.ps.get_mut(&pid).unwrap();
			let avail: u128 = p.evals.iter().filter(|e| e.who == who).map(|e| e.current.saturating_sub(slash_of(e.bond))).sum();
			let want = total.min(avail);
			let mut got = 0;
			let mut wrong = None;
			for e in p.evals.iter_mut().filter(|e| e.who == who) {
				let Some(x) = pf::Evaluations::<Test>::get((pid, who, e.id)) else { continue };
				if x.current_plmc_bond > e.current || x.current_plmc_bond < slash_of(e.bond).min(e.current) {
					wrong = Some(format!("evaluation {} keeps {} of {}", e.id, x.current_plmc_bond, e.current));
				}
				got += e.current.saturating_sub(x.current_plmc_bond);
				e.current = x.current_plmc_bond;
			}
			if let Some(w) = wrong {
				return self.bad(&[E, W], "slash-deposit-spent", w);
			}
			if got != want {
				return self.bad(&[E, W], "evaluation-bond-converted", format!("{got} of the evaluation bonds serve, should be {want}"));
			}
			if want > 0 {
				self.o.hit(&[E, W], "evaluation-bond-reused");
				if want < total {
					self.o.hit(&[E, W], "evaluation-bond-topped-up");
				}
			}
		}
		let p = self.m.ps.get_mut(&pid).unwrap();
		add(&mut p.escrow, a, locked);
		self.m.take(a, who, locked + fee);
	}
	fn some_mode(&mut self) -> Mode {
		if self.r.chance(1, 3) {
			Mode::OTM
		} else {
			Mode::Classic(*self.r.pick(&[1u8, 1, 2, 3, 5, 5, 6, 10, 11, 25, 26, 0, 200]))
		}
	}
	fn bid(&mut self, pid: u32, who: Acc, amount: u128, mode: Mode, asset: Asset, inv: InvestorType) {
		let j = self.some_j();
		let cid = if self.r.chance(1, 25) { 1 } else { 0 };
		let d = did_of(who);
		let p = &self.m.ps[&pid];
		let alloc = alloc_of(&p.meta);
		let (ticket, maxm) = match inv {
			InvestorType::Institutional => (p.meta.bidding_ticket_sizes.institutional, 25),
			InvestorType::Professional => (p.meta.bidding_ticket_sizes.professional, 10),
			InvestorType::Retail => (p.meta.bidding_ticket_sizes.professional, 0),
		};
		// how the amount spreads over the buckets
		let mut b = p.bucket;
		let mut left = if amount <= alloc { amount } else { 0 };
		let mut parts = vec![];
		while left > 0 {
			let x = left.min(b.left);
			parts.push((x, b.price, mul(b.price, x)));
			b.take(x);
			left -= x;
		}
		let usd: u128 = parts.iter().map(|x| x.2).sum();
		let mine = p.bids.iter().filter(|x| x.who == who).count();
		let v = if !jwt_ok(j) {
			V::No(&[K], "bad-credential")
		} else if p.removed || p.st != St::Auction || p.end.map_or(true, |e| self.now >= e) {
			V::No(&[A, R], "bid-outside-the-round")
		} else if cid != 0 {
			V::No(&[A, K], "bid-other-policy")
		} else if inv == InvestorType::Retail {
			V::No(&[A, K], "bid-by-retail")
		} else if amount == 0 {
			V::No(&[A], "bid-for-nothing")
		} else if p.did == d {
			V::No(&[A], "bid-by-issuer")
		} else if !p.meta.participation_currencies.contains(&asset) {
			V::No(&[A], "bid-other-currency")
		} else if mul(p.bucket.price, amount) < ticket.usd_minimum_per_participation {
			V::No(&[A], "bid-below-minimum")
		} else if mode.multiplier() == 0 || mode.multiplier() > maxm {
			V::No(&[A], "bid-multiplier")
		} else if amount > alloc {
			V::No(&[A], "bid-above-allocation")
		} else if ticket.usd_maximum_per_did.map_or(false, |m| p.did_bid.get(&d).copied().unwrap_or(0) + usd > m) {
			V::No(&[A, K], "bid-above-did-maximum")
		} else if mine + parts.len() > MaxBidsPerUser::get() as usize {
			V::No(&[A], "bid-user-limit")
		} else if p.ever_bids as usize + parts.len() > MaxBidsPerProject::get() as usize {
			V::No(&[A], "bid-project-limit")
		} else {
			let t: Vec<u128> = parts.iter().map(|x| x.2).collect();
			match self.funds(pid, who, &t, mode, asset) {
				Some(true) => V::Yes,
				Some(false) => V::No(&[A, W], "bid-without-funds"),
				None => V::Any,
			}
		};
		self.op(format!("{who:?} {inv:?} bids for {amount} of {pid} ({usd} USD in {} parts) {mode:?} {asset:?} {j:?} cid{cid}", parts.len()));
		let (pool0, t0) = (tok(asset.id(), sub(pid)), Balances::total_balance(&BondTreasury::get()));
		let ok = self.call(v, &[A], "bid", RuntimeOrigin::signed(who), pf::Call::<Test>::bid { jwt: jwt(who, d, &inv, cid, j), project_id: pid, ct_amount: amount, mode, funding_asset: asset }.into());
		if !ok || self.dead() {
			return;
		}
		let (mut bonds, mut locked) = (vec![], 0);
		for (x, price, t) in &parts {
			let id = self.m.next_bid;
			self.m.next_bid += 1;
			let Some(b) = pf::Bids::<Test>::get((pid, who, id)) else {
				return self.bad(&[A], "bid-not-recorded", format!("bid {id} is not there"));
			};
			if !near(b.plmc_bond, bond_of(*t, mode.multiplier()), 1) {
				return self.bad(&[A, W], "bid-bond", format!("bid {id} of {t} USD bonds {} PLMC, should be {}", b.plmc_bond, bond_of(*t, mode.multiplier())));
			}
			if !near(b.funding_asset_amount_locked, asset_of(*t, asset), 1) {
				return self.bad(&[A, W], "bid-price-paid", format!("bid {id} of {t} USD locks {}, should be {}", b.funding_asset_amount_locked, asset_of(*t, asset)));
			}
			bonds.push(b.plmc_bond);
			locked += b.funding_asset_amount_locked;
			let now = self.now;
			let p = self.m.ps.get_mut(&pid).unwrap();
			p.bids.push(Bd { id, who, did: d, amount: *x, price: *price, asset, locked: b.funding_asset_amount_locked, mode, bond: b.plmc_bond, fee: 0, when: now, status: BidStatus::YetUnknown });
			p.ever_bids += 1;
			p.bucket.take(*x);
			*p.did_bid.entry(d).or_default() += t;
		}
		if parts.len() > 1 {
			self.o.hit(&[A], "bid-split");
		}
		self.paid(pid, who, mode, asset, &bonds, locked, pool0, t0);
	}
	fn end_auction(&mut self, pid: u32) {
		let p = &self.m.ps[&pid];
		let v = if p.removed || p.st != St::Auction {
			V::No(&[R], "end-auction-in-other-state")
		} else if p.end.map_or(true, |e| self.now < e) {
			V::No(&[R], "end-auction-too-early")
		} else {
			V::Yes
		};
		let who = self.some_user();
		self.op(format!("{who:?} ends the auction of {pid}"));
		let ok = self.call(v, &[R, S, A], "auction-ended", RuntimeOrigin::signed(who), pf::Call::<Test>::end_auction { project_id: pid }.into());
		if !ok || self.dead() {
			return;
		}
		let now = self.now;
		let det = pf::ProjectsDetails::<Test>::get(pid).unwrap();
		let Some(wap) = det.weighted_average_price else {
			return self.bad(&[A], "no-price", "no price was set".into());
		};
		let wap = wap.into_inner();
		let p = self.m.ps.get_mut(&pid).unwrap();
		let alloc = alloc_of(&p.meta);
		let mut order: Vec<usize> = (0..p.bids.len()).collect();
		order.sort_by(|a, b| p.bids[*b].price.cmp(&p.bids[*a].price).then(p.bids[*a].id.cmp(&p.bids[*b].id)));
		let mut left = alloc;
		// value of the winning tokens by price
		let mut won: BTreeMap<u128, u128> = BTreeMap::new();
		let mut partial = false;
		for i in order {
			let b = &mut p.bids[i];
			let x = b.amount.min(left);
			b.status = if x == 0 {
				BidStatus::Rejected
			} else if x == b.amount {
				BidStatus::Accepted
			} else {
				partial = true;
				BidStatus::PartiallyAccepted(x)
			};
			if x > 0 {
				p.winners.insert(b.did);
				*won.entry(b.price).or_default() += x;
			}
			left -= x;
		}
		let rejected = p.bids.iter().any(|b| b.status == BidStatus::Rejected);
		let min_price = p.meta.minimum_price.into_inner();
		let initial_left = *won.get(&min_price).unwrap_or(&0);
		let _ = initial_left;
		// the mean of the winners' prices weighted by the value they bid; without competition
		// (nothing above the minimum price) it is the minimum price
		let value: f64 = won.iter().map(|(p, x)| *p as f64 * *x as f64).sum();
		let want = if won.keys().all(|k| *k == min_price) { min_price as f64 } else { won.iter().map(|(p, x)| *p as f64 * (*p as f64 * *x as f64 / value)).sum() };
		let terms = won.len() as f64;
		let usd = value / 1e18;
		let tol = terms + 3.0 + want * (10.0 * terms / usd.max(1.0) + 1e-9);
		if (wap as f64 - want).abs() > tol {
			let msg = format!("the price is set to {wap}, the winners' weighted price is {want:.0} (winning amounts by price {won:?})");
			return self.bad(&[A], "weighted-price", msg);
		}
		let p = self.m.ps.get_mut(&pid).unwrap();
		p.remaining -= alloc - left;
		for b in &p.bids {
			let x = match b.status {
				BidStatus::Accepted => b.amount,
				BidStatus::PartiallyAccepted(x) => x,
				_ => 0,
			};
			p.reached += mul(b.price.min(wap), x);
		}
		p.wap = Some(wap);
		p.st = St::Community(now + COMMUNITY);
		p.start = Some(now);
		p.end = Some(now + COMMUNITY + REMAINDER - 1);
		if won.len() > 1 {
			self.o.hit(&[A], "oversubscribed-auction");
		}
		if rejected {
			self.o.hit(&[A], "bids-rejected");
		}
		if partial {
			self.o.hit(&[A], "bid-partially-accepted");
		}
	}
	fn contribute(&mut self, pid: u32, who: Acc, amount: u128, mode: Mode, asset: Asset, inv: InvestorType) {
		let j = self.some_j();
		let cid = if self.r.chance(1, 25) { 1 } else { 0 };
		let d = did_of(who);
		let p = &self.m.ps[&pid];
		let (ticket, maxm) = match inv {
			InvestorType::Institutional => (p.meta.contributing_ticket_sizes.institutional, 25),
			InvestorType::Professional => (p.meta.contributing_ticket_sizes.professional, 10),
			InvestorType::Retail => (p.meta.contributing_ticket_sizes.retail, 5),
		};
		let x = amount.min(p.remaining);
		let usd = mul(p.wap.unwrap_or(0), x);
		let v = if !jwt_ok(j) {
			V::No(&[K], "bad-credential")
		} else if p.removed || !matches!(p.st, St::Community(_)) || p.end.map_or(true, |e| self.now >= e) {
			V::No(&[N, R], "contribution-outside-the-round")
		} else if matches!(p.st, St::Community(rem) if p.winners.contains(&d) && self.now < rem) {
			V::No(&[N, K], "contribution-by-winner")
		} else if p.remaining == 0 {
			V::No(&[N], "contribution-sold-out")
		} else if x == 0 {
			V::No(&[N], "contribution-for-nothing")
		} else if cid != 0 {
			V::No(&[N, K], "contribution-other-policy")
		} else if p.did == d {
			V::No(&[N], "contribution-by-issuer")
		} else if !p.meta.participation_currencies.contains(&asset) {
			V::No(&[N], "contribution-other-currency")
		} else if mode.multiplier() == 0 || mode.multiplier() > maxm {
			V::No(&[N], "contribution-multiplier")
		} else if usd < ticket.usd_minimum_per_participation && x < p.remaining {
			V::No(&[N], "contribution-below-minimum")
		} else if ticket.usd_maximum_per_did.map_or(false, |m| p.did_con.get(&d).copied().unwrap_or(0) + usd > m) {
			V::No(&[N, K], "contribution-above-did-maximum")
		} else if p.cons.iter().filter(|c| c.who == who).count() >= MaxContributionsPerUser::get() as usize {
			V::No(&[N], "contribution-user-limit")
		} else {
			match self.funds(pid, who, &[usd], mode, asset) {
				Some(true) => V::Yes,
				Some(false) => V::No(&[N, W], "contribution-without-funds"),
				None => V::Any,
			}
		};
		let late = matches!(p.st, St::Community(rem) if p.winners.contains(&d) && self.now >= rem);
		self.op(format!("{who:?} {inv:?} contributes to {pid} for {amount} ({usd} USD) {mode:?} {asset:?} {j:?} cid{cid}"));
		let (pool0, t0) = (tok(asset.id(), sub(pid)), Balances::total_balance(&BondTreasury::get()));
		let ok = self.call(v, &[N], "contributed", RuntimeOrigin::signed(who), pf::Call::<Test>::contribute { jwt: jwt(who, d, &inv, cid, j), project_id: pid, ct_amount: amount, mode, funding_asset: asset }.into());
		if !ok || self.dead() {
			return;
		}
		let id = self.m.next_con;
		self.m.next_con += 1;
		let Some(c) = pf::Contributions::<Test>::get((pid, who, id)) else {
			return self.bad(&[N], "contribution-not-recorded", format!("contribution {id} is not there"));
		};
		if !near(c.plmc_bond, bond_of(usd, mode.multiplier()), 1) {
			return self.bad(&[N, W], "contribution-bond", format!("{usd} USD bonds {} PLMC, should be {}", c.plmc_bond, bond_of(usd, mode.multiplier())));
		}
		if !near(c.funding_asset_amount, asset_of(usd, asset), 1) {
			return self.bad(&[N, W], "contribution-price-paid", format!("{usd} USD locks {}, should be {}", c.funding_asset_amount, asset_of(usd, asset)));
		}
		let now = self.now;
		let p = self.m.ps.get_mut(&pid).unwrap();
		if amount > p.remaining {
			self.o.hit(&[N], "contribution-capped");
		}
		if late {
			self.o.hit(&[N], "contribution-by-winner-in-remainder");
		}
		p.cons.push(Cn { id, who, did: d, amount: x, usd, asset, locked: c.funding_asset_amount, mode, bond: c.plmc_bond, fee: 0, when: now });
		p.remaining -= x;
		p.reached += usd;
		*p.did_con.entry(d).or_default() += usd;
		self.paid(pid, who, mode, asset, &[c.plmc_bond], c.funding_asset_amount, pool0, t0);
	}
	fn end_funding(&mut self, pid: u32) {
		let p = &self.m.ps[&pid];
		let v = if p.removed || !matches!(p.st, St::Community(_)) {
			V::No(&[R, G], "end-funding-in-other-state")
		} else if p.remaining > 0 && p.end.map_or(true, |e| self.now < e) {
			V::No(&[R, G], "end-funding-too-early")
		} else {
			V::Yes
		};
		let early = p.remaining == 0 && p.end.map_or(true, |e| self.now < e);
		let who = self.some_user();
		self.op(format!("{who:?} ends the funding of {pid}"));
		let ok = self.call(v, &[R, S, G], "funding-ended", RuntimeOrigin::signed(who), pf::Call::<Test>::end_funding { project_id: pid }.into());
		if !ok || self.dead() {
			return;
		}
		if early {
			self.o.hit(&[R], "sold-out-ended-early");
		}
		let now = self.now;
		let st = st_of(&pf::ProjectsDetails::<Test>::get(pid).unwrap().status);
		let p = self.m.ps.get_mut(&pid).unwrap();
		// a third: 33 %
		let (a, b) = (p.reached * 100, p.target * 33);
		let success = if a < b && b - a <= p.target / 1_000_000_000_000_000 + 100 { st == St::Success } else { a >= b };
		let exactly = a == b;
		p.st = if success { St::Success } else { St::Failed };
		p.outcome = Some(success);
		p.start = Some(now);
		p.end = None;
		p.sold_at_end = p.meta.total_allocation_size - p.remaining;
		let d = p.did;
		self.m.active.remove(&d);
		self.o.hit(&[R, G], if success { "funding-succeeded" } else { "funding-failed" });
		if exactly {
			self.o.hit(&[R, G], "funding-just-succeeded");
		}
		if st != self.m.ps[&pid].st {
			let p = &self.m.ps[&pid];
			let msg = format!("{} of {} USD was reached: {st:?}", p.reached, p.target);
			self.bad(&[R, G], "funding-outcome", msg);
		}
	}

	// -------------------------------------------------------------- settlement

	fn start_settlement(&mut self, pid: u32) {
		let p = &self.m.ps[&pid];
		let v = if p.removed || !matches!(p.st, St::Success | St::Failed) { V::No(&[R, S], "settlement-started-in-other-state") } else { V::Yes };
		let who = self.some_user();
		self.op(format!("{who:?} starts the settlement of {pid}"));
		let ok = self.call(v, &[R, S], "settlement-started", RuntimeOrigin::signed(who), pf::Call::<Test>::start_settlement { project_id: pid }.into());
		if !ok || self.dead() {
			return;
		}
		let now = self.now;
		let p = self.m.ps.get_mut(&pid).unwrap();
		let success = p.st == St::Success;
		p.st = St::Settling(success);
		p.funding_end = Some(now);
		p.start = Some(now);
		p.end = None;
		if success {
			let fee = p.fee_tokens();
			let tol = p.fee_tolerance();
			let got = ContributionTokens::balance(pid, &CtTreasury::get());
			p.ct.insert(CtTreasury::get(), got);
			if !near(got, fee / 2 + fee / 5, tol) {
				let msg = format!("the treasury got {got} tokens, {} are its share of the fee ({fee} of {} sold)", fee / 2 + fee / 5, self.m.ps[&pid].sold_at_end);
				return self.bad(&[G], "fee-tokens", msg);
			}
			self.o.hit(&[G], "fee-tokens");
			let b = if self.m.ps[&pid].reached > 5_000_000 * USD_UNIT { "fee-third-bracket" } else if self.m.ps[&pid].reached > 1_000_000 * USD_UNIT { "fee-second-bracket" } else { "fee-first-bracket" };
			self.o.hit(&[G], b);
		}
	}
	fn settle_evaluation(&mut self, pid: u32, who: Acc, id: u32) {
		let p = &self.m.ps[&pid];
		let ev = p.evals.iter().find(|e| e.who == who && e.id == id).cloned();
		let v = match (&ev, p.st) {
			(None, _) => V::No(&[S], "settle-unknown-evaluation"),
			(Some(_), St::Settling(_)) => V::Yes,
			_ => V::No(&[S, R], "settle-evaluation-too-early"),
		};
		let by = self.some_user();
		self.op(format!("{by:?} settles evaluation {id} of {who:?} in {pid}"));
		SLASHES.with(|s| s.borrow_mut().clear());
		let ct0 = ContributionTokens::balance(pid, &who);
		let ok = self.call(v, &[S], "evaluation-settled", RuntimeOrigin::signed(by), pf::Call::<Test>::settle_evaluation { project_id: pid, evaluator: who, evaluation_id: id }.into());
		if !ok || self.dead() {
			return;
		}
		let ev = ev.unwrap();
		let slashed = SLASHES.with(|s| s.borrow().clone());
		let p = self.m.ps.get_mut(&pid).unwrap();
		p.evals.retain(|e| e.id != id);
		match p.outcome {
			Some(false) => {
				let x = slash_of(ev.bond);
				*self.m.plmc.get_mut(&who).unwrap() -= x;
				*self.m.plmc.get_mut(&SlashTreasury::get()).unwrap() += x;
				self.o.hit(&[G, W], "evaluator-slashed");
				if slashed != vec![(who, x)] {
					self.bad(&[G], "slash-not-reported", format!("the slash hooks saw {slashed:?}, {x} was slashed"));
				}
			},
			outcome => {
				if !slashed.is_empty() {
					return self.bad(&[G], "slashed-without-cause", format!("slashed {slashed:?} although the outcome is {outcome:?}"));
				}
				if outcome == Some(true) {
					let want = p.reward(&ev);
					let got = ContributionTokens::balance(pid, &who).saturating_sub(ct0);
					let tol = p.fee_tolerance();
					*p.ct.entry(who).or_default() += got;
					if got > 0 {
						p.migrate(who, (0, id, got, 1));
					}
					if !near(got, want, tol) {
						return self.bad(&[G], "evaluator-reward", format!("rewarded with {got} tokens, {want} are due"));
					}
					self.o.hit(&[G], "evaluator-rewarded");
				} else {
					self.o.hit(&[G, S], "evaluator-released");
				}
			},
		}
	}
	/// Would this transfer leave or create a balance below the asset's minimum?
	fn dusty(from: u128, to: u128, x: u128, min: u128) -> bool {
		x > 0 && ((from > x && from - x < min + 3) || to + x < min + 3)
	}
	fn settle_bid(&mut self, pid: u32, who: Acc, id: u32) {
		let bid = self.m.ps[&pid].bids.iter().find(|e| e.who == who && e.id == id).cloned();
		let by = self.some_user();
		self.op(format!("{by:?} settles bid {id} of {who:?} in {pid}: {bid:?}"));
		let (st, wap) = (self.m.ps[&pid].st, self.m.ps[&pid].wap);
		let call: RuntimeCall = pf::Call::<Test>::settle_bid { project_id: pid, bidder: who, bid_id: id }.into();
		let Some(b) = bid else {
			self.call(V::No(&[S], "settle-unknown-bid"), &[S], "", RuntimeOrigin::signed(by), call);
			return;
		};
		let rejected = b.status == BidStatus::Rejected;
		if !(matches!(st, St::Settling(_)) || rejected) {
			self.call(V::No(&[S, R], "settle-bid-too-early"), &[S], "", RuntimeOrigin::signed(by), call);
			return;
		}
		let win = st == St::Settling(true) && !rejected;
		let wap = wap.unwrap();
		let amount = match b.status {
			BidStatus::Accepted => b.amount,
			BidStatus::PartiallyAccepted(x) => x,
			_ => 0,
		};
		let mult = b.mode.multiplier();
		let usd = mul(b.price.min(wap), amount);
		let (keep, keep_bond) = if win { (asset_of(usd, b.asset).min(b.locked), bond_of(usd, mult).min(b.bond)) } else { (0, 0) };
		self.settle(pid, "bid", (1, id), who, b.asset, b.locked, b.bond, b.mode, keep, keep_bond, win, amount, by, call);
	}
	fn settle_contribution(&mut self, pid: u32, who: Acc, id: u32) {
		let con = self.m.ps[&pid].cons.iter().find(|e| e.who == who && e.id == id).cloned();
		let st = self.m.ps[&pid].st;
		let by = self.some_user();
		self.op(format!("{by:?} settles contribution {id} of {who:?} in {pid}: {con:?}"));
		let call: RuntimeCall = pf::Call::<Test>::settle_contribution { project_id: pid, contributor: who, contribution_id: id }.into();
		let Some(c) = con else {
			self.call(V::No(&[S], "settle-unknown-contribution"), &[S], "", RuntimeOrigin::signed(by), call);
			return;
		};
		let St::Settling(win) = st else {
			self.call(V::No(&[S, R], "settle-contribution-too-early"), &[S], "", RuntimeOrigin::signed(by), call);
			return;
		};
		let (keep, keep_bond) = if win { (c.locked, c.bond) } else { (0, 0) };
		self.settle(pid, "contribution", (2, id), who, c.asset, c.locked, c.bond, c.mode, keep, keep_bond, win, c.amount, by, call);
	}
	#[allow(clippy::too_many_arguments)]
	fn settle(&mut self, pid: u32, what: &'static str, item: (u8, u32), who: Acc, asset: Asset, locked: u128, bond: u128, mode: Mode, keep: u128, keep_bond: u128, win: bool, amount: u128, by: Acc, call: RuntimeCall) {
		let a = asset.id();
		let min = min_of(asset);
		let p = &self.m.ps[&pid];
		let dest = p.meta.funding_destination_account;
		let (pot, pool) = (p.escrow.get(&a).copied().unwrap_or(0), p.pool.get(&a).copied().unwrap_or(0));
		let (refund, refund_bond) = (locked - keep, bond - keep_bond);
		let otm = mode == Mode::OTM;
		let mut fee = (0, 0);
		if otm && (what == "contribution" && !win || what == "bid" && refund_bond > ED) {
			fee = fee_of(refund_bond, asset);
		}
		let mut dust = Self::dusty(pot, tok(a, who), refund, min);
		dust |= win && Self::dusty(pot - refund, tok(a, dest), keep, min);
		let fee_dust = Self::dusty(pool, tok(a, who) + refund, fee.0, min) || fee.0 > pool;
		let drained = fee.0 > pool && p.drained;
		let start = p.funding_end.unwrap_or(0);
		let (t0, d0, h0) = (tok(a, who), tok(a, dest), Balances::balance_on_hold(&PARTICIPATION, &who));
		let moving = self.m.moving;
		let v = if dust || fee_dust { V::Any } else { V::Yes };
		let ok = self.call(v, &[S], if win { "settled-success" } else { "settled-refund" }, RuntimeOrigin::signed(by), call);
		if self.dead() {
			return;
		}
		if drained && !ok {
			return self.bad(&[S], "fees-sent-away-block-settlement", format!("cannot be settled: the fee refund {} is not there any more", fee.0));
		}
		if fee.0 > pool && moving && !ok {
			self.m.done = true;
			self.o.count("moving: refund above the pool");
			return;
		}
		if dust || fee_dust {
			let exact = ok && tok(a, escrow(pid)) == pot - locked && (!fee_dust || tok(a, sub(pid)) + fee.0 + fee.1 >= pool);
			if !exact {
				let (e, s) = (tok(a, escrow(pid)), tok(a, sub(pid)));
				return self.bad(&[S, W], "dust-of-the-funding-asset", format!("{} with {pot} in escrow, {pool} in fees and {refund}/{keep} to pay out; now {e} and {s} (minimum balance {min})", if ok { "settled" } else { "refused" }));
			}
		}
		if !ok {
			return;
		}
		// money
		let paid_out = if win { tok(a, dest) - d0 } else { 0 };
		let fee_back = pool.saturating_sub(tok(a, sub(pid)));
		let refunded = locked.saturating_sub(paid_out);
		let _ = t0;
		if !moving && (!near(paid_out, if win { keep } else { 0 }, 2) || !near(fee_back, fee.0, fee.1)) {
			return self.bad(&[S], "settlement-amounts", format!("paid out {paid_out} (due {keep}), refunded {refunded} and a fee of {fee_back} (due {})", fee.0));
		}
		let p = self.m.ps.get_mut(&pid).unwrap();
		cut(&mut p.escrow, a, locked);
		cut(&mut p.pool, a, fee_back);
		self.m.give(a, dest, paid_out);
		self.m.give(a, who, refunded + fee_back);
		if win && refund > 0 {
			self.o.hit(&[S], "settled-with-refund");
		}
		if fee_back > 0 {
			self.o.hit(&[S, W], "fee-refunded");
		}
		// bond
		let mult = mode.multiplier();
		if !otm {
			let released = h0.saturating_sub(Balances::balance_on_hold(&PARTICIPATION, &who));
			let want = if !win || mult == 1 { bond } else { refund_bond };
			if released > bond || !near(released, want, if moving && win { bond } else { 2 }) {
				return self.bad(&[S, W], "bond-released", format!("{released} of the bond {bond} was released, {want} is due"));
			}
			let rest = bond - released;
			if win && mult > 1 && rest > 0 {
				let per = (rest / duration(mult) as u128).max(1);
				self.m.sched.entry(who).or_default().push((rest, per, start));
				*self.m.sched_held.entry(who).or_default() += rest;
				self.o.hit(&[S], "bond-scheduled");
			}
		}
		let p = self.m.ps.get_mut(&pid).unwrap();
		if win {
			*p.ct.entry(who).or_default() += amount;
			p.migrate(who, (item.0, item.1, amount, duration(mult)));
		}
		if item.0 == 1 {
			p.bids.retain(|b| b.id != item.1);
		} else {
			p.cons.retain(|b| b.id != item.1);
		}
	}
	fn mark_settled(&mut self, pid: u32) {
		let p = &self.m.ps[&pid];
		let v = match p.st {
			_ if p.removed => V::No(&[R, S], "marked-settled-in-other-state"),
			St::Settling(_) if p.outstanding() => V::No(&[S], "marked-settled-with-open-participations"),
			St::Settling(_) => V::Yes,
			_ => V::No(&[R, S], "marked-settled-in-other-state"),
		};
		let who = self.some_user();
		self.op(format!("{who:?} marks {pid} settled"));
		let ok = self.call(v, &[R, S], "marked-settled", RuntimeOrigin::signed(who), pf::Call::<Test>::mark_project_as_settled { project_id: pid }.into());
		if !ok || self.dead() {
			return;
		}
		let now = self.now;
		let p = self.m.ps.get_mut(&pid).unwrap();
		let St::Settling(x) = p.st else { unreachable!() };
		p.st = St::Settled(x);
		p.start = Some(now);
		p.end = None;
		// everything sold was handed out; nothing is left in custody
		let p = &self.m.ps[&pid];
		if x {
			let sold: u128 = p.mig.values().flat_map(|m| m.items.iter()).filter(|i| i.0 != 0).map(|i| i.2).sum();
			if sold != p.sold_at_end {
				let msg = format!("{} tokens were sold, {sold} handed out", p.sold_at_end);
				return self.bad(&[S], "sold-and-handed-out", msg);
			}
		}
		if p.escrow.values().any(|x| *x > 0) {
			let msg = format!("everything is settled and the escrow keeps {:?}", p.escrow);
			return self.bad(&[S, W], "escrow-keeps", msg);
		}
		self.o.hit(&[S, W], "everything-settled");
	}

	// -------------------------------------------------------------- migration

	fn start_migration(&mut self, pid: u32, who: Acc, pallet: bool) {
		let j = self.some_j();
		let inv = if self.r.chance(1, 20) { InvestorType::Retail } else { InvestorType::Institutional };
		let p = &self.m.ps[&pid];
		let v = if !jwt_ok(j) {
			V::No(&[K], "bad-credential")
		} else if inv != InvestorType::Institutional {
			V::No(&[M, K], "migration-by-retail")
		} else if p.removed || p.issuer != who {
			V::No(&[M], "migration-started-by-stranger")
		} else if p.st != St::Settled(true) {
			V::No(&[R, M], "migration-started-in-other-state")
		} else {
			V::Yes
		};
		let para = 2000 + pid;
		let t = jwt(who, did_of(who), &inv, 0, j);
		self.op(format!("{who:?} starts the {} migration of {pid} {j:?} {inv:?}", if pallet { "pallet" } else { "offchain" }));
		let c: RuntimeCall = if pallet { pf::Call::<Test>::start_pallet_migration { jwt: t, project_id: pid, para_id: para.into() }.into() } else { pf::Call::<Test>::start_offchain_migration { jwt: t, project_id: pid }.into() };
		let ok = self.call(v, &[R, M], "migration-started", RuntimeOrigin::signed(who), c);
		if ok && !self.dead() {
			let now = self.now;
			let p = self.m.ps.get_mut(&pid).unwrap();
			p.st = St::Migrating;
			p.start = Some(now);
			p.end = None;
			p.mtype = Some(if pallet { Mt::Para { id: para, from_project: 0, to_project: 0, check: None } } else { Mt::Off });
		}
	}
	fn confirm_offchain(&mut self, pid: u32, who: Acc, part: Acc) {
		let p = &self.m.ps[&pid];
		let v = if p.removed || p.st != St::Migrating {
			V::No(&[R, M], "offchain-confirmed-in-other-state")
		} else if p.issuer != who {
			V::No(&[M], "offchain-confirmed-by-stranger")
		} else if p.mtype != Some(Mt::Off) {
			V::No(&[M], "offchain-confirmed-in-a-pallet-migration")
		} else {
			match p.mig.get(&part).map(|m| &m.status) {
				None => V::No(&[M], "offchain-confirmed-nothing"),
				Some(MigrationStatus::Confirmed) => V::No(&[M], "offchain-confirmed-twice"),
				_ => V::Yes,
			}
		};
		self.op(format!("{who:?} confirms the offchain migration of {part:?} in {pid}"));
		let ok = self.call(v, &[M, S], "offchain-confirmed", RuntimeOrigin::signed(who), pf::Call::<Test>::confirm_offchain_migration { project_id: pid, participant: part }.into());
		if ok && !self.dead() {
			self.m.ps.get_mut(&pid).unwrap().mig.get_mut(&part).unwrap().status = MigrationStatus::Confirmed;
		}
	}
	fn para_of(&self, para: u32) -> Option<u32> {
		self.m.ps.iter().find(|(_, p)| p.st == St::Migrating && matches!(p.mtype, Some(Mt::Para { id, .. }) if id == para)).map(|x| *x.0)
	}
	fn channel_request(&mut self, para: u32) {
		let size = *self.r.pick(&[102_400u32, 50_000, 49_999, 102_401, 75_000, 102_400, 102_400]);
		let cap = *self.r.pick(&[8u32, 1000, 7, 1001, 500, 8, 8]);
		let up = !self.r.chance(1, 12);
		let pid = self.para_of(para);
		let v = if pid.is_none() {
			V::No(&[M], "channel-from-unknown-chain")
		} else if !(50_000..=102_400).contains(&size) || !(8..=1000).contains(&cap) {
			V::No(&[M], "channel-outside-thresholds")
		} else if !up {
			V::No(&[M], "channel-without-transport")
		} else {
			V::Yes
		};
		self.op(format!("chain {para} asks for a channel (size {size}, capacity {cap}, transport {up})"));
		ROUTER_UP.with(|r| *r.borrow_mut() = up);
		let n = SENT.with(|s| s.borrow().len());
		use xcm_executor::traits::HandleHrmpNewChannelOpenRequest as Open;
		let r = self.o.guard(|| frame_support::storage::with_storage_layer(|| <PolimecFunding as Open>::handle(para, size, cap).map_err(|e| sp_runtime::DispatchError::Other(Box::leak(format!("{e:?}").into_boxed_str())))));
		ROUTER_UP.with(|r| *r.borrow_mut() = true);
		let ok = self.judge(v, &[M], "channel-requested", r.map(|x| x.map_err(|e| format!("{e:?}"))));
		if !ok || self.dead() {
			return;
		}
		let sent = SENT.with(|s| s.borrow()[n..].to_vec());
		let calls: Vec<Vec<u8>> = sent.iter().filter(|s| s.0 == Location::new(1, Junctions::Here)).flat_map(|s| s.1 .0.iter().filter_map(|i| if let Instruction::Transact { call, .. } = i { Some(call.encoded().to_vec()) } else { None }).collect::<Vec<_>>()).collect();
		let accept = [vec![60u8, 1], para.encode()].concat();
		let request = [vec![60u8, 0], para.encode(), 8u32.encode(), 102_400u32.encode()].concat();
		if calls != vec![accept, request] {
			return self.bad(&[M], "channel-messages", format!("the relay was told {calls:?}"));
		}
		self.m.notices.push(("channel-taken", format!("{} {para}", pid.unwrap())));
		if let Some(Mt::Para { from_project, to_project, .. }) = &mut self.m.ps.get_mut(&pid.unwrap()).unwrap().mtype {
			*from_project = 1;
			*to_project = 2;
		}
	}
	fn sent_readiness(&mut self, pid: u32, n: usize, q: u64) {
		let sent = SENT.with(|s| s.borrow()[n..].to_vec());
		let supply = ContributionTokens::total_issuance(pid);
		let para = 2000 + pid;
		let good = sent.len() == 1 &&
			sent[0].0.unpack() == (1, &[Parachain(para)][..]) &&
			sent[0].1 .0.iter().any(|i| matches!(i, Instruction::ReportHolding { .. })) &&
			sent[0].1 .0.iter().any(|i| matches!(i, Instruction::QueryPallet { module_name, .. } if module_name == b"polimec_receiver")) &&
			sent[0].1 .0.iter().all(|i| match i {
				Instruction::ReportHolding { response_info: r, .. } | Instruction::QueryPallet { response_info: r, .. } =>
					r.destination.unpack() == (1, &[Parachain(3344)][..]),
				_ => true,
			}) &&
			sent[0].1 .0.iter().any(|i| matches!(i, Instruction::WithdrawAsset(a) if a.inner() == &vec![(Location::here(), supply).into()]));
		if !good {
			self.bad(&[M], "readiness-query", format!("chain {para} was asked {sent:?}, it has {supply} tokens to hold"));
		}
	}
	/// The chain answers under the ids it was asked with.
	fn asked_ids(&mut self, pid: u32, n: usize, q: u64) {
		let sent = SENT.with(|s| s.borrow()[n..].to_vec());
		let ids: Vec<u64> = sent
			.iter()
			.flat_map(|s| {
				s.1 .0.iter().filter_map(|i| match i {
					Instruction::ReportHolding { response_info: r, .. } | Instruction::QueryPallet { response_info: r, .. } => Some(r.query_id),
					_ => None,
				})
			})
			.collect();
		self.o.hit(&[M], if q == 0 { "first-query" } else { "later-query" });
		if ids != [q, q + 1] {
			self.bad(&[M], "readiness-query-ids", format!("the chain of {pid} was asked under ids {ids:?}, but answers are expected under {q} and {}", q + 1));
		}
	}
	/// What the XCM pallet keeps of a query: only the project's chain can answer it, it is open for
	/// a while, and the answer goes to the right call.
	fn kept_query(&mut self, pid: u32, q: u64, sending: bool) {
		let placeholder = if sending {
			RuntimeCall::from(pf::Call::<Test>::confirm_pallet_migrations { query_id: Default::default(), response: Default::default() })
		} else {
			RuntimeCall::from(pf::Call::<Test>::pallet_migration_readiness_response { query_id: Default::default(), response: Default::default() })
		};
		let Some((from, call, until)) = pallet_xcm::Queries::<Test>::get(q) else {
			return self.bad(&[M], "query-unknown", format!("query {q} of {pid} is not waited for"))
		};
		if from.unpack() != (1, &[Parachain(2000 + pid)][..]) || call[..2] != placeholder.encode()[..2] || until <= self.now {
			self.bad(&[M], "query-kept", format!("at {} query {q} of {pid} waits until {until} for {from:?} to answer call {:?}", self.now, &call[..2]));
		}
	}
	fn begin_check(&mut self, pid: u32, q: u64, by: Acc) {
		self.kept_query(pid, q, false);
		self.kept_query(pid, q + 1, false);
		self.m.checker = Some(by);
		if let Some(Mt::Para { check, .. }) = &mut self.m.ps.get_mut(&pid).unwrap().mtype {
			*check = Some(((q, 0), (q + 1, 0, 0)));
			self.m.checks.extend([(q, pid), (q + 1, pid)]);
		}
	}
	fn channel_accepted(&mut self, para: u32) {
		let pid = self.para_of(para);
		let up = !self.r.chance(1, 12);
		let mut any = false;
		let v = match pid.map(|p| self.m.ps[&p].mtype.clone()) {
			Some(Some(Mt::Para { from_project, check, .. })) => {
				any = check.is_some();
				if from_project != 1 {
					V::No(&[M], "check-without-channel")
				} else if !up {
					V::No(&[M], "check-without-transport")
				} else if any {
					V::Any
				} else {
					V::Yes
				}
			},
			_ => V::No(&[M], "channel-from-unknown-chain"),
		};
		let _ = any;
		self.op(format!("chain {para} accepts the channel (transport {up})"));
		ROUTER_UP.with(|r| *r.borrow_mut() = up);
		let n = SENT.with(|s| s.borrow().len());
		let q = pallet_xcm::QueryCounter::<Test>::get();
		use xcm_executor::traits::HandleHrmpChannelAccepted as Accepted;
		let r = self.o.guard(|| frame_support::storage::with_storage_layer(|| <PolimecFunding as Accepted>::handle(para).map_err(|e| sp_runtime::DispatchError::Other(Box::leak(format!("{e:?}").into_boxed_str())))));
		ROUTER_UP.with(|r| *r.borrow_mut() = true);
		let ok = self.judge(v, &[M], "channel-accepted", r.map(|x| x.map_err(|e| format!("{e:?}"))));
		if !ok || self.dead() {
			return;
		}
		let pid = pid.unwrap();
		if let Some(Mt::Para { to_project, .. }) = &mut self.m.ps.get_mut(&pid).unwrap().mtype {
			*to_project = 1;
		}
		self.m.notices.push(("channel-established", format!("{pid} {para}")));
		self.begin_check(pid, q, events::pallet_account());
		self.sent_readiness(pid, n, q);
		self.asked_ids(pid, n, q);
	}
	fn start_check(&mut self, pid: u32, who: Acc) {
		let j = self.some_j();
		let p = &self.m.ps[&pid];
		let v = if !jwt_ok(j) {
			V::No(&[K], "bad-credential")
		} else if p.removed || p.st != St::Migrating {
			V::No(&[R, M], "check-started-in-other-state")
		} else {
			match &p.mtype {
				Some(Mt::Para { from_project: 1, to_project: 1, check, .. }) =>
					if check.is_none() {
						V::No(&[M], "first-check-by-hand")
					} else if who == p.issuer {
						V::Yes
					} else {
						V::No(&[M], "check-restarted-by-stranger")
					},
				_ => V::No(&[M], "check-without-channel"),
			}
		};
		self.op(format!("{who:?} starts the readiness check of {pid} {j:?}"));
		let n = SENT.with(|s| s.borrow().len());
		let q = pallet_xcm::QueryCounter::<Test>::get();
		let ok = self.call(v, &[M], "check-restarted", RuntimeOrigin::signed(who), pf::Call::<Test>::start_pallet_migration_readiness_check { jwt: jwt(who, did_of(who), &InvestorType::Institutional, 0, j), project_id: pid }.into());
		if ok && !self.dead() {
			self.begin_check(pid, q, who);
			self.sent_readiness(pid, n, q);
			self.asked_ids(pid, n, q);
		}
	}
	fn check_response(&mut self, pid: u32, good: bool) {
		let p = &self.m.ps[&pid];
		let Some(Mt::Para { id, check: Some(c), .. }) = p.mtype.clone() else { return };
		let sold = p.meta.total_allocation_size - p.remaining;
		let holding = if good { c.0 .1 == 0 } else { self.r.chance(1, 2) };
		let q = if holding { c.0 .0 } else { c.1 .0 };
		let from = if good || !self.r.chance(1, 10) { id } else { id + 1 };
		let loc = if !good && self.r.chance(1, 20) { Location::new(0, Junctions::Here) } else { Location::new(1, [Parachain(from)]) };
		let from_chain = loc.unpack() == (1, &[Parachain(id)][..]);
		// what the chain answers, and what that means: passed (index), failed, or not an answer
		let (resp, means): (Response, Option<(u8, u8)>) = if holding {
			match if good { 0 } else { self.r.below(9) % 7 % 6 } {
				0 => (Response::Assets(vec![(Location::new(1, [Parachain(id)]), sold + self.r.below128(2)).into()].into()), Some((1, 0))),
				1 => (Response::Assets(vec![(Location::new(1, [Parachain(id)]), sold.saturating_sub(1)).into()].into()), Some((if sold == 0 { 1 } else { 2 }, 0))),
				2 => (Response::Assets(vec![(Location::new(1, [Parachain(id + 1)]), sold).into()].into()), Some((2, 0))),
				3 => (Response::Assets(vec![].into()), Some((2, 0))),
				4 => (Response::Null, None),
				_ => (Response::Assets(vec![(Location::here(), sold).into()].into()), None),
			}
		} else {
			let info = |i: u32, n: &[u8]| PalletInfo::new(i, b"Receiver".to_vec(), n.to_vec(), 1, 0, 0).unwrap();
			match if good { 0 } else { self.r.below(9) % 7 % 6 } {
				0 => {
					let i = self.r.range(0, 255) as u8;
					(Response::PalletsInfo(vec![info(i as u32, b"polimec_receiver")].try_into().unwrap()), Some((1, i)))
				},
				1 => (Response::PalletsInfo(vec![info(51, b"pallet_balances")].try_into().unwrap()), Some((2, 0))),
				2 => (Response::PalletsInfo(vec![info(51, b"polimec_receiver"), info(52, b"polimec_receiver")].try_into().unwrap()), Some((2, 0))),
				3 => (Response::PalletsInfo(vec![].try_into().unwrap()), None),
				4 => (Response::PalletsInfo(vec![info(256, b"polimec_receiver")].try_into().unwrap()), None),
				_ => (Response::DispatchResult(MaybeErrorCode::Success), None),
			}
		};
		let signed = !good && self.r.chance(1, 15);
		let awaiting = if holding { c.0 .1 == 0 } else { c.1 .1 == 0 };
		// a good answer, but to the other query or to one of an earlier round
		let mut stray = 0;
		let q = if !good && self.r.chance(1, 6) {
			let earlier: Vec<u64> = self.m.checks.iter().filter(|x| x.1 == pid && x.0 != c.0 .0 && x.0 != c.1 .0).map(|x| x.0).collect();
			if earlier.is_empty() || self.r.chance(1, 3) {
				stray = 1;
				if holding { c.1 .0 } else { c.0 .0 }
			} else {
				stray = 2;
				*self.r.pick(&earlier)
			}
		} else {
			q
		};
		let v = if signed {
			V::No(&[M], "response-from-an-account")
		} else if stray == 2 {
			V::No(&[M], "response-to-an-earlier-query")
		} else if stray == 1 {
			V::No(&[M], "response-to-the-other-query")
		} else if !from_chain {
			V::No(&[M], "response-from-another-chain")
		} else if !awaiting {
			V::No(&[M], "response-twice")
		} else {
			match means {
				None => V::Any,
				Some((1, _)) => V::Yes,
				// refusing outright and recording a failure both keep the check from passing
				_ => V::Any,
			}
		};
		self.op(format!("{loc:?} answers query {q} of {pid} with {resp:?}"));
		let origin: RuntimeOrigin = if signed { RuntimeOrigin::signed(Acc(1)) } else { pallet_xcm::Origin::Response(loc).into() };
		self.m.answer = Some(resp.clone());
		let ok = self.call(v, &[M], "check-answered", origin, pf::Call::<Test>::pallet_migration_readiness_response { query_id: q, response: resp }.into());
		if !ok || self.dead() {
			return;
		}
		let to = means.unwrap_or((2, 0));
		self.o.hit(&[M], if to.0 == 1 { "check-passed" } else { "check-failed" });
		if let Some(Mt::Para { check: Some(c), .. }) = &mut self.m.ps.get_mut(&pid).unwrap().mtype {
			if holding {
				c.0 .1 = to.0;
			} else {
				c.1 .1 = to.0;
				c.1 .2 = to.1;
			}
		}
	}
	fn send_migration(&mut self, pid: u32, part: Acc) {
		let up = !self.r.chance(1, 15);
		let p = &self.m.ps[&pid];
		let mut index = 0;
		let v = match (&p.mtype, p.removed) {
			(Some(Mt::Para { check: Some(c), .. }), false) => {
				index = c.1 .2;
				if c.0 .1 != 1 || c.1 .1 != 1 {
					self.o.count(["sent-on-half-an-answer", "sent-without-answer"][(c.0 .1 != 1 && c.1 .1 != 1) as usize]);
					V::No(&[M], "migration-sent-unready")
				} else if !up {
					V::No(&[M], "migration-sent-without-transport")
				} else {
					match p.mig.get(&part).map(|m| &m.status) {
						None => V::No(&[M], "migration-sent-for-nobody"),
						Some(MigrationStatus::NotStarted | MigrationStatus::Failed) => V::Yes,
						_ => V::No(&[M], "migration-sent-twice"),
					}
				}
			},
			_ => V::No(&[M], "migration-sent-unready"),
		};
		let who = self.some_user();
		self.op(format!("{who:?} sends the migration of {part:?} in {pid} (transport {up})"));
		ROUTER_UP.with(|r| *r.borrow_mut() = up);
		let n = SENT.with(|s| s.borrow().len());
		let q = pallet_xcm::QueryCounter::<Test>::get();
		let ok = self.call(v, &[M], "migration-sent", RuntimeOrigin::signed(who), pf::Call::<Test>::send_pallet_migration_for { project_id: pid, participant: part }.into());
		ROUTER_UP.with(|r| *r.borrow_mut() = true);
		if !ok || self.dead() {
			return;
		}
		let sent = SENT.with(|s| s.borrow()[n..].to_vec());
		let para = 2000 + pid;
		let p = self.m.ps.get_mut(&pid).unwrap();
		let mg = p.mig.get_mut(&part).unwrap();
		mg.status = MigrationStatus::Sent(q);
		let mut got: Option<Vec<(u8, u32, u128, u64)>> = None;
		let mut reports = false;
		if sent.len() == 1 && sent[0].0.unpack() == (1, &[Parachain(para)][..]) {
			for i in &sent[0].1 .0 {
				match i {
					Instruction::Transact { call, .. } if call.encoded().len() > 2 && call.encoded()[..2] == [index, 0] =>
						got = Migrations::decode(&mut &call.encoded()[2..]).ok().map(|m| m.inner().iter().map(|x| (x.origin.participation_type as u8, x.origin.id, x.info.contribution_token_amount, x.info.vesting_time)).collect()),
					Instruction::ReportTransactStatus(i) => reports = i.query_id == q,
					_ => {},
				}
			}
		}
		if got.as_ref() != Some(&mg.items) || !reports {
			let msg = format!("chain {para} was told {sent:?}, {part:?} has {:?}", mg.items);
			return self.bad(&[M], "migration-message", msg);
		}
		self.kept_query(pid, q, true);
		self.m.queue.insert(q, (pid, part));
		if mg_len(&self.m, pid, part) > 1 {
			self.o.hit(&[M], "migration-of-several");
		}
	}
	fn confirm_migration(&mut self, q: u64, good: bool) {
		let target = self.m.queue.get(&q).copied();
		let para = target.map(|t| 2000 + t.0).unwrap_or(2000);
		let from = if !good && self.r.chance(1, 10) { para + 1 } else { para };
		let signed = !good && self.r.chance(1, 15);
		let resp = match if good { 0 } else { self.r.below(5) } {
			0 | 1 => Response::DispatchResult(MaybeErrorCode::Success),
			2 => Response::DispatchResult(MaybeErrorCode::Error(vec![1, 2].try_into().unwrap())),
			3 => Response::DispatchResult(MaybeErrorCode::TruncatedError(vec![9].try_into().unwrap())),
			_ => Response::Null,
		};
		let v = if signed {
			V::No(&[M], "response-from-an-account")
		} else if target.is_none() {
			V::No(&[M], "confirmation-of-nothing")
		} else if from != para {
			V::No(&[M], "confirmation-from-another-chain")
		} else if resp == Response::Null {
			V::No(&[M], "confirmation-without-result")
		} else {
			V::Yes
		};
		self.op(format!("chain {from} answers migration query {q} with {resp:?}"));
		let origin: RuntimeOrigin = if signed { RuntimeOrigin::signed(Acc(2)) } else { pallet_xcm::Origin::Response(Location::new(1, [Parachain(from)])).into() };
		let win = resp == Response::DispatchResult(MaybeErrorCode::Success);
		let ok = self.call(v, &[M], "migration-answered", origin, pf::Call::<Test>::confirm_pallet_migrations { query_id: q, response: resp }.into());
		if ok && !self.dead() {
			let (pid, part) = target.unwrap();
			self.m.queue.remove(&q);
			self.m.ps.get_mut(&pid).unwrap().mig.get_mut(&part).unwrap().status = if win { MigrationStatus::Confirmed } else { MigrationStatus::Failed };
			self.o.hit(&[M], if win { "migration-confirmed" } else { "migration-failed" });
		}
	}
	fn mark_finished(&mut self, pid: u32) {
		let p = &self.m.ps[&pid];
		let v = if p.removed || p.st != St::Migrating {
			V::No(&[R, M], "marked-finished-in-other-state")
		} else if p.unmigrated() > 0 {
			V::No(&[M], "marked-finished-with-open-migrations")
		} else {
			V::Yes
		};
		let who = self.some_user();
		self.op(format!("{who:?} marks the migration of {pid} finished"));
		let ok = self.call(v, &[R, M], "migration-finished", RuntimeOrigin::signed(who), pf::Call::<Test>::mark_project_ct_migration_as_finished { project_id: pid }.into());
		if ok && !self.dead() {
			self.m.ps.get_mut(&pid).unwrap().st = St::Migrated;
		}
	}

	// -------------------------------------------------------------- around the pallet

	fn vest(&mut self, who: Acc) {
		// unscheduled bonds of the same account are C23's business
		if self.m.held_part(who) > 0 {
			return;
		}
		let list = self.m.sched.get(&who).cloned().unwrap_or_default();
		let v = if list.is_empty() { V::Any } else { V::Yes };
		self.op(format!("{who:?} claims what has vested"));
		let ok = self.call(v, &[S], "vested", RuntimeOrigin::signed(who), pallet_linear_release::Call::<Test>::vest { reason: PARTICIPATION }.into());
		if !ok || self.dead() {
			return;
		}
		let now = self.now;
		let left = |s: &(u128, u128, u64)| s.0.saturating_sub(s.1.saturating_mul(now.saturating_sub(s.2) as u128));
		let list: Vec<_> = list.into_iter().filter(|s| left(s) > 0).collect();
		self.m.sched_held.insert(who, list.iter().map(left).sum());
		self.m.sched.insert(who, list);
	}
	fn bonds_back(&mut self, pid: u32) {
		let p = &self.m.ps[&pid];
		let v = match (p.funding_end, p.outcome) {
			_ if p.removed => V::No(&[W], "treasury-bond-released-early"),
			(None, _) => V::No(&[W], "treasury-bond-released-early"),
			(Some(at), Some(true)) =>
				if self.now < at + duration(5) {
					V::No(&[W], "treasury-bond-released-early")
				} else {
					V::Any
				},
			(Some(_), _) => V::Any,
		};
		let who = self.some_user();
		let t0 = Balances::total_balance(&BondTreasury::get());
		self.op(format!("{who:?} sends the treasury's bonds for {pid} back"));
		let ok = self.call(v, &[W], "treasury-bond-back", RuntimeOrigin::signed(who), pallet_proxy_bonding::Call::<Test>::transfer_bonds_back_to_treasury { derivation_path: pid, hold_reason: PARTICIPATION }.into());
		if !ok || self.dead() {
			return;
		}
		let back = Balances::total_balance(&BondTreasury::get()).saturating_sub(t0);
		let p = self.m.ps.get_mut(&pid).unwrap();
		if back != p.otm && back != p.otm + p.sub_ed {
			let msg = format!("{back} came back, {} was bonded", p.otm);
			return self.bad(&[W], "treasury-bond-amount", msg);
		}
		if p.otm > 0 {
			self.o.hit(&[W], "treasury-bond-back");
		}
		p.sub_ed -= back - p.otm;
		p.otm = 0;
		*self.m.plmc.get_mut(&BondTreasury::get()).unwrap() += back;
	}
	fn fees_out(&mut self, pid: u32, asset: Asset) {
		let a = asset.id();
		let p = &self.m.ps[&pid];
		let pool = p.pool.get(&a).copied().unwrap_or(0);
		let v = match (p.funding_end, p.outcome) {
			(Some(_), Some(true)) if !p.removed => V::Any,
			_ => V::No(&[W], "fees-taken-early"),
		};
		// fees that may still have to be refunded are only taken in some histories
		let open = p.bids.iter().any(|b| b.mode == Mode::OTM);
		if matches!(v, V::Any) && open && !self.m.drains {
			return;
		}
		let who = self.some_user();
		self.op(format!("{who:?} sends the {asset:?} fees of {pid} to the recipient"));
		let ok = self.call(v, &[W], "fees-out", RuntimeOrigin::signed(who), pallet_proxy_bonding::Call::<Test>::transfer_fees_to_recipient { derivation_path: pid, hold_reason: PARTICIPATION, fee_asset: a }.into());
		if ok && !self.dead() {
			let p = self.m.ps.get_mut(&pid).unwrap();
			p.pool.insert(a, 0);
			p.drained = true;
			self.m.give(a, FeeRecipient::get(), pool);
			if pool > 0 {
				self.o.hit(&[W], "fees-to-recipient");
			}
		}
	}
	fn go(&mut self, to: u64) {
		self.now = to;
		System::set_block_number(to);
		self.o.op(|| format!("[{to}] --"));
	}
	fn watch(&mut self) {
		if self.m.done {
			return;
		}
		watch(self.o, &self.m, &self.last);
		if self.o.prop() == T {
			events::compare(self.o, &self.was, &self.m, &self.last);
			self.was = self.m.ps.clone();
			self.m.notices.clear();
		}
		if self.o.prop() == Q {
			for _ in 0..2 {
				queries::ask(self.o, &self.m, &mut self.asks, self.now, &PARTICIPATION);
			}
		}
	}
}
fn mg_len(m: &Model, pid: u32, part: Acc) -> usize {
	m.ps[&pid].mig[&part].items.len()
}
fn brief(m: &ProjectMetadataOf<Test>) -> String {
	format!(
		"[dec {} price {} total {} supply {} auction {:?} bids {:?}/{:?} contributions {:?}/{:?}/{:?} {:?} policy {} to {:?}]",
		m.token_information.decimals,
		m.minimum_price.into_inner(),
		m.total_allocation_size,
		m.mainnet_token_max_supply,
		m.auction_round_allocation_percentage,
		m.bidding_ticket_sizes.professional,
		m.bidding_ticket_sizes.institutional,
		m.contributing_ticket_sizes.retail,
		m.contributing_ticket_sizes.professional,
		m.contributing_ticket_sizes.institutional,
		m.participation_currencies,
		m.policy_ipfs_cid.is_some(),
		m.funding_destination_account
	)
}
fn fresh(meta: ProjectMetadataOf<Test>, issuer: Acc, did: u8) -> P {
	let price = meta.minimum_price.into_inner();
	let alloc = alloc_of(&meta);
	let tenth = FixedU128::from_inner(price).saturating_mul(FixedU128::from_inner(10u128.pow(17))).into_inner();
	P {
		issuer,
		did,
		st: St::App,
		start: None,
		end: None,
		wap: None,
		target: mul(price, meta.total_allocation_size),
		remaining: meta.total_allocation_size,
		reached: 0,
		bonded_usd: 0,
		bonded_plmc: 0,
		evals: vec![],
		bids: vec![],
		cons: vec![],
		ever_evals: 0,
		ever_bids: 0,
		did_bid: Default::default(),
		did_con: Default::default(),
		winners: Default::default(),
		outcome: None,
		funding_end: None,
		bucket: Bucket { left: alloc, price, delta: Percent::from_percent(10) * alloc, dprice: tenth },
		mig: Default::default(),
		mtype: None,
		escrow: Default::default(),
		pool: Default::default(),
		otm: 0,
		sub_ed: 0,
		ct: Default::default(),
		sold_at_end: 0,
		drained: false,
		removed: false,
		meta,
	}
}
use sp_runtime::Saturating;

fn setup(h: &mut H, rich: &[bool]) {
	System::set_block_number(1);
	LATE.set(*h.r.pick(&[0, 0, 1, 500, 999]));
	frame_support::storage::unhashed::put(&pallet_timestamp::Now::<Test>::hashed_key(), &(NOW_MS + LATE.get()));
	PRICES.with(|p| {
		let mut p = p.borrow_mut();
		p.clear();
		p.insert(PLMC_FOREIGN_ID, if h.r.chance(1, 2) { 8_400_000 } else { h.r.range128(10_000, 50_000_000) });
		p.insert(Asset::USDT.id(), if h.r.chance(1, 2) { 1_000_000 } else { h.r.range128(950_000, 1_050_000) });
		p.insert(Asset::USDC.id(), if h.r.chance(1, 2) { 970_000 } else { h.r.range128(950_000, 1_050_000) });
		p.insert(Asset::DOT.id(), if h.r.chance(1, 2) { 69_000_000 } else { h.r.range128(2_000_000, 80_000_000) });
	});
	SENT.with(|s| s.borrow_mut().clear());
	for (a, d, min) in ASSETS {
		let id = a.id();
		ForeignAssets::create(id, Acc(77), true, min).unwrap();
		ForeignAssets::set(id, &Acc(77), vec![1], vec![1], d).unwrap();
		for u in 1..=USERS {
			let usd: u128 = if rich[u as usize] { 50_000_000 } else { h.r.range128(1, 12_000) };
			let x = asset_of(usd * USD_UNIT, a) + min;
			ForeignAssets::mint_into(id, &Acc(u), x).unwrap();
			h.m.tok.insert((id, Acc(u)), x);
		}
	}
}
fn genesis(seed: u64) -> (sp_io::TestExternalities, Vec<bool>) {
	let mut r = Rng::new(seed ^ 0x6e6e);
	let mut rich = vec![true; USERS as usize + 1];
	for x in rich.iter_mut().skip(3) {
		*x = !r.chance(1, 5);
	}
	let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut balances: Vec<(Acc, u128)> = (1..=USERS).map(|u| (Acc(u), if rich[u as usize] { 20_000_000_000 * PLMC / if r.chance(1, 3) { 1000 } else { 1 } } else { r.range128(1, 1500) * PLMC })).collect();
	let pal: Acc = FundingPalletId::get().into_account_truncating();
	for a in [pal, CtTreasury::get(), SlashTreasury::get(), FeeRecipient::get()] {
		balances.push((a, ED));
	}
	balances.push((BondTreasury::get(), 1_000_000_000_000 * PLMC));
	pallet_balances::GenesisConfig::<Test> { balances }.assimilate_storage(&mut t).unwrap();
	(t.into(), rich)
}

fn random_history(seed: u64, o: &mut Obs) {
	let (mut ext, rich) = genesis(seed);
	ext.execute_with(|| {
		let mut h = H { o, r: Rng::new(seed), m: Model::default(), now: 1, last: String::new(), asks: Rng::new(seed ^ 0xa5ce), was: BTreeMap::new() };
		setup(&mut h, &rich);
		h.m.moving = h.r.chance(1, 6);
		h.m.vesting = h.r.chance(1, 2);
		h.m.drains = h.r.chance(1, 10);
		for u in (1..=USERS).map(Acc).chain([BondTreasury::get(), SlashTreasury::get(), FeeRecipient::get(), CtTreasury::get()]) {
			h.m.plmc.insert(u, Balances::total_balance(&u));
		}
		let steps = h.r.range(40, 130);
		let projects = h.r.range(1, 3);
		for i in 0..projects {
			let who = Acc([1, 2, 7][i as usize % 3]);
			h.create(who);
			h.watch();
			if h.dead() {
				return;
			}
		}
		for _ in 0..steps {
			step(&mut h);
			h.watch();
			if h.dead() {
				return;
			}
		}
		drain(&mut h);
		h.watch();
	});
}

fn step(h: &mut H) {
	if h.m.ps.is_empty() || h.r.chance(1, 60) {
		let who = Acc(h.r.range128(1, 8));
		return h.create(who);
	}
	let ids: Vec<u32> = h.m.ps.keys().copied().collect();
	let live: Vec<u32> = ids.iter().copied().filter(|i| !h.m.ps[i].removed).collect();
	let pid = if live.is_empty() || h.r.chance(1, 30) { *h.r.pick(&ids) } else { *h.r.pick(&live) };
	let p = &h.m.ps[&pid];
	let st = p.st;
	let issuer = p.issuer;
	let end = p.end;
	let who = if h.r.chance(1, 12) { h.some_user() } else { issuer };
	let user = h.some_user();
	if h.r.chance(1, 14) {
		return match h.r.below(4) {
			0 if h.m.moving => {
				let id = *h.r.pick(&[PLMC_FOREIGN_ID, 1984, 1337, 10]);
				let f = h.r.range128(60, 160);
				PRICES.with(|p| {
					p.borrow_mut().entry(id).and_modify(|x| *x = (*x * f / 100).max(10_000));
				});
				h.op(format!("the price of {id} becomes {}", micro(id)));
			},
			1 => h.bonds_back(pid),
			2 => {
				let a = *h.r.pick(&ASSETS.map(|a| a.0));
				h.fees_out(pid, a)
			},
			_ if h.m.vesting => h.vest(user),
			_ => {},
		};
	}
	if h.r.chance(1, 10) {
		// anything, anytime
		let k = h.r.below(17);
		return any_op(h, pid, k, who, user);
	}
	match st {
		St::App => match h.r.below(10) {
			0 => h.edit(pid, who),
			1 if h.r.chance(1, 3) => h.remove(pid, who),
			2 => h.edit(pid, issuer),
			_ => h.start_evaluation(pid, who),
		},
		St::Eval => {
			if h.now >= end.unwrap() && h.r.chance(2, 3) {
				return h.end_evaluation(pid);
			}
			if h.r.chance(1, 5) {
				return jump(h, end.unwrap());
			}
			let t = h.m.ps[&pid].target;
			let usd = some_usd(h, t);
			h.evaluate(pid, user, usd)
		},
		St::Auction => {
			if h.now >= end.unwrap() && h.r.chance(2, 3) {
				return h.end_auction(pid);
			}
			if h.r.chance(1, 9) {
				return jump(h, end.unwrap());
			}
			some_bid(h, pid, user)
		},
		St::Community(rem) => {
			let p = &h.m.ps[&pid];
			if (h.now >= end.unwrap() || p.remaining == 0) && h.r.chance(2, 3) {
				return h.end_funding(pid);
			}
			if h.r.chance(1, 8) {
				let t = if h.now < rem { rem } else { end.unwrap() };
				return jump(h, t);
			}
			if h.r.chance(1, 10) {
				if let Some(b) = h.m.ps[&pid].bids.iter().find(|b| b.status == BidStatus::Rejected).cloned() {
					h.o.hit(&[S], "rejected-bid-settled-early");
					return h.settle_bid(pid, b.who, b.id);
				}
			}
			some_contribution(h, pid, user)
		},
		St::Failed | St::Success => {
			if h.r.chance(1, 6) {
				let n = h.now + h.r.range(1, 3);
				return h.go(n);
			}
			h.start_settlement(pid)
		},
		St::Settling(_) => {
			if h.r.chance(1, 12) {
				return h.mark_settled(pid);
			}
			if h.r.chance(1, 12) {
				let n = h.now + h.r.range(1, 4000);
				return h.go(n);
			}
			settle_one(h, pid)
		},
		St::Settled(ok) =>
			if ok {
				let pallet = h.r.chance(2, 3);
				h.start_migration(pid, who, pallet)
			} else {
				h.mark_settled(pid)
			},
		St::Migrating => migrate_step(h, pid, who),
		St::Migrated => {
			let k = h.r.below(17);
			any_op(h, pid, k, who, user)
		},
	}
}
fn jump(h: &mut H, end: u64) {
	let to = match h.r.below(5) {
		0 => end.saturating_sub(1),
		1 => end + 1 + h.r.below(3),
		2 => h.now + 1,
		_ => end,
	};
	if to > h.now {
		h.go(to);
	} else {
		let n = h.now + 1;
		h.go(n);
	}
}
fn some_usd(h: &mut H, target: u128) -> u128 {
	match h.r.below(8) {
		0 => 100 * USD_UNIT - h.r.below128(2),
		1 => target / 10 + h.r.below128(3) - 1,
		2 => 100 * USD_UNIT,
		_ => (target / 10 * h.r.range128(5, 80) / 100).max(100 * USD_UNIT),
	}
}
fn some_asset(h: &mut H, pid: u32) -> Asset {
	let cur = h.m.ps[&pid].meta.participation_currencies.to_vec();
	if cur.is_empty() || h.r.chance(1, 15) {
		*h.r.pick(&[Asset::USDT, Asset::USDC, Asset::DOT])
	} else {
		*h.r.pick(&cur)
	}
}
fn some_bid(h: &mut H, pid: u32, user: Acc) {
	let p = &h.m.ps[&pid];
	let alloc = alloc_of(&p.meta);
	let left = p.bucket.left;
	let price = p.bucket.price;
	let min = p.meta.bidding_ticket_sizes.institutional.usd_minimum_per_participation;
	let at_min = muldiv(min, 10u128.pow(18), price);
	let amount = match h.r.below(12) {
		0 => left,
		1 => left + 1,
		2 => alloc,
		3 => alloc + h.r.below128(2),
		4 => at_min + h.r.below128(3),
		5 => left.saturating_sub(1),
		6 => 0,
		7 => alloc / 2,
		_ => alloc / 100 * h.r.range128(2, 60),
	};
	let amount = if h.r.chance(4, 5) { amount.max(at_min + 1).min(alloc) } else { amount };
	let asset = some_asset(h, pid);
	let inv = h.r.pick(&[InvestorType::Institutional, InvestorType::Institutional, InvestorType::Professional, InvestorType::Professional, InvestorType::Retail]).clone();
	let mode = h.some_mode();
	h.bid(pid, user, amount, mode, asset, inv)
}
fn p_target(h: &H, pid: u32) -> u128 {
	h.m.ps[&pid].target
}
fn some_contribution(h: &mut H, pid: u32, user: Acc) {
	let p = &h.m.ps[&pid];
	let rem = p.remaining;
	let Some(wap) = p.wap else { return };
	let min = p.meta.contributing_ticket_sizes.retail.usd_minimum_per_participation;
	let at_min = muldiv(min, 10u128.pow(18), wap);
	let amount = match h.r.below(12) {
		0 => rem,
		1 => rem + 1,
		2 => at_min + h.r.below128(3),
		3 => rem.saturating_sub(1 + h.r.below128(3)),
		4 => 0,
		5 => rem * 2,
		_ => rem / 100 * h.r.range128(1, 50),
	};
	let amount = if h.r.chance(4, 5) { amount.max(at_min + 1) } else { amount };
	let asset = some_asset(h, pid);
	let inv = h.r.pick(&[InvestorType::Institutional, InvestorType::Professional, InvestorType::Retail, InvestorType::Retail]).clone();
	let mode = h.some_mode();
	// what is missing to the third, to the unit, and the end of the round
	let missing = (p_target(h, pid) * 33 / 100).saturating_sub(h.m.ps[&pid].reached);
	if missing > 0 && missing <= mul(wap, rem) && h.r.chance(2, 3) {
		let x = muldiv(missing, 10u128.pow(18), wap);
		let Some(x) = (x.saturating_sub(1)..x + 3).find(|x| mul(wap, *x) >= missing) else { return };
		h.contribute(pid, user, x, mode, asset, inv);
		let p = &h.m.ps[&pid];
		if let (true, Some(end)) = (p.reached * 100 >= p.target * 33, p.end) {
			if end > h.now && h.r.chance(2, 3) {
				h.go(end);
				h.end_funding(pid);
			}
		}
		return
	}
	h.contribute(pid, user, amount, mode, asset, inv)
}
fn settle_one(h: &mut H, pid: u32) {
	let p = &h.m.ps[&pid];
	let mut v: Vec<(u8, Acc, u32)> = p.evals.iter().map(|e| (0, e.who, e.id)).collect();
	v.extend(p.bids.iter().map(|e| (1, e.who, e.id)));
	v.extend(p.cons.iter().map(|e| (2, e.who, e.id)));
	if v.is_empty() {
		return h.mark_settled(pid);
	}
	let (k, who, id) = *h.r.pick(&v);
	match k {
		0 => h.settle_evaluation(pid, who, id),
		1 => h.settle_bid(pid, who, id),
		_ => h.settle_contribution(pid, who, id),
	}
}
fn migrate_step(h: &mut H, pid: u32, who: Acc) {
	let p = &h.m.ps[&pid];
	let para = 2000 + pid;
	let parts: Vec<Acc> = p.mig.keys().copied().collect();
	let mtype = p.mtype.clone();
	let part = if parts.is_empty() || h.r.chance(1, 15) { h.some_user() } else { *h.r.pick(&parts) };
	match mtype {
		Some(Mt::Off) =>
			if h.r.chance(1, 6) {
				h.mark_finished(pid)
			} else {
				h.confirm_offchain(pid, who, part)
			},
		Some(Mt::Para { from_project, to_project, check, .. }) => {
			if h.r.chance(1, 12) {
				return match h.r.below(4) {
					0 => h.start_check(pid, who),
					1 => h.mark_finished(pid),
					2 => h.confirm_offchain(pid, who, part),
					_ => h.channel_request(para),
				};
			}
			if from_project != 1 {
				return h.channel_request(para);
			}
			if to_project != 1 {
				return h.channel_accepted(para);
			}
			match check {
				Some(c) if c.0 .1 == 1 && c.1 .1 == 1 => {
					let open: Vec<u64> = h.m.queue.iter().filter(|q| q.1 .0 == pid).map(|q| *q.0).collect();
					if !open.is_empty() && h.r.chance(1, 2) {
						let q = *h.r.pick(&open);
						let g = h.r.chance(1, 2);
						return h.confirm_migration(q, g);
					}
					if h.r.chance(1, 20) {
						let q = h.r.below(60);
						return h.confirm_migration(q, false);
					}
					h.send_migration(pid, part)
				},
				Some(c) if c.0 .1 == 2 || c.1 .1 == 2 =>
					match h.r.below(6) {
						0 | 1 => h.check_response(pid, false),
						2 | 3 => h.send_migration(pid, part),
						_ => h.start_check(pid, who),
					},
				_ => {
					if h.r.chance(1, 8) {
						return h.send_migration(pid, part);
					}
					let g = h.r.chance(1, 2);
					h.check_response(pid, g)
				},
			}
		},
		None => {},
	}
}
fn any_op(h: &mut H, pid: u32, k: u64, who: Acc, user: Acc) {
	let p = &h.m.ps[&pid];
	let part = h.r.pick(&p.mig.keys().copied().chain([Acc(3)]).collect::<Vec<_>>()).to_owned();
	let t = p.target;
	match k {
		0 => h.edit(pid, who),
		1 => h.remove(pid, who),
		2 => h.start_evaluation(pid, who),
		3 => {
			let usd = some_usd(h, t);
			h.evaluate(pid, user, usd)
		},
		4 => h.end_evaluation(pid),
		5 => some_bid(h, pid, user),
		6 => h.end_auction(pid),
		7 => {
			if h.m.ps[&pid].wap.is_some() {
				some_contribution(h, pid, user)
			} else {
				h.contribute(pid, user, 1000, Mode::OTM, Asset::USDT, InvestorType::Retail)
			}
		},
		8 => h.end_funding(pid),
		9 => h.start_settlement(pid),
		10 => {
			let (a, b, c) = (h.m.next_eval as u64 + 1, h.m.next_bid as u64 + 1, h.m.next_con as u64 + 1);
			match h.r.below(4) {
				0 => {
					let id = h.r.below(a) as u32;
					h.settle_evaluation(pid, user, id)
				},
				1 => {
					let id = h.r.below(b) as u32;
					h.settle_bid(pid, user, id)
				},
				2 => {
					let id = h.r.below(c) as u32;
					h.settle_contribution(pid, user, id)
				},
				_ => settle_one(h, pid),
			}
		},
		11 => h.mark_settled(pid),
		12 => {
			let x = h.r.chance(1, 2);
			h.start_migration(pid, who, x)
		},
		13 => h.confirm_offchain(pid, who, part),
		14 => h.mark_finished(pid),
		15 => h.send_migration(pid, part),
		_ => match h.r.below(4) {
			0 => h.channel_request(2000 + pid),
			1 => h.channel_accepted(2000 + pid),
			2 => h.check_response(pid, false),
			_ => h.start_check(pid, who),
		},
	}
}
/// Whatever was started can be brought to its end by anyone, in any order.
fn drain(h: &mut H) {
	let ids: Vec<u32> = h.m.ps.keys().copied().collect();
	for _ in 0..400 {
		let open: Vec<u32> = ids.iter().copied().filter(|i| !h.m.ps[i].removed && !matches!(h.m.ps[i].st, St::App | St::Settled(_) | St::Migrating | St::Migrated)).collect();
		if open.is_empty() || h.dead() {
			break;
		}
		let pid = *h.r.pick(&open);
		let p = &h.m.ps[&pid];
		if let (St::Eval | St::Auction | St::Community(_), Some(e)) = (p.st, p.end) {
			if h.now < e {
				h.go(e);
			}
		}
		match h.m.ps[&pid].st {
			St::Eval => h.end_evaluation(pid),
			St::Auction => h.end_auction(pid),
			St::Community(_) => h.end_funding(pid),
			St::Failed | St::Success => h.start_settlement(pid),
			St::Settling(_) => settle_one(h, pid),
			_ => {},
		}
		h.watch();
	}
	if h.dead() {
		return;
	}
	for pid in ids {
		if h.m.ps[&pid].st == St::Settled(true) {
			h.o.hit(&[S], "campaign-completed-success");
		}
		if h.m.ps[&pid].st == St::Settled(false) {
			h.o.hit(&[S], "campaign-completed-failure");
		}
	}
	// in the end everything bonded can be had back
	let far = h.now + duration(25) + 10;
	h.go(far);
	if h.m.vesting {
		for u in 1..=USERS {
			h.vest(Acc(u));
			if h.dead() {
				return;
			}
			let left = h.m.sched_held.get(&Acc(u)).copied().unwrap_or(0);
			if h.m.held_part(Acc(u)) == 0 && left == 0 && !h.m.sched.get(&Acc(u)).map_or(true, |s| s.is_empty()) {
				h.bad(&[S], "vesting-unfinished", format!("#{u} has schedules left {:?}", h.m.sched));
			}
		}
		h.watch();
	}
	let ids: Vec<u32> = h.m.ps.keys().copied().collect();
	for pid in ids {
		if matches!(h.m.ps[&pid].st, St::Settled(_) | St::Migrating | St::Migrated) && !h.dead() {
			h.bonds_back(pid);
			if h.m.ps[&pid].otm > 0 && !h.dead() {
				let msg = format!("{} of the treasury stays bonded for {pid}", h.m.ps[&pid].otm);
				h.bad(&[W], "treasury-bond-stuck", msg);
			}
		}
	}
	h.watch();
	h.o.state(hash_debug(&h.m.ps.values().map(|p| (p.st, p.reached, p.remaining, p.wap)).collect::<Vec<_>>()));
}

fn main() {
	const X: &[&str] = &[
		"pallet-balances and frame (registry crates) behave as documented",
		"funding assets and contribution tokens follow pallet-assets' rules (mini-assets stand-in), XCM queries and sending follow pallet-xcm's (stand-in), tokens are verified as jwt-compact does (stand-in with real Ed25519)",
		"holds on the histories generated from this seed",
	];
	let info = |id: &'static str, rule: &'static str, required: &'static [&'static str]| PropInfo { id, rule, required, quick: 6_000, thorough: 600_000, assumptions: X };
	let props = [
		info(R, "a history is up to 130 operations on 1-3 (and more) projects by 8 accounts with 6 identities, then everything open is driven to its end; non-trivial when a transition, edit or refusal was compared with the life cycle", &["project-created", "project-edited", "project-removed", "evaluation-passed", "evaluation-failed", "funding-succeeded", "funding-failed", "sold-out-ended-early", "second-active-project", "unacceptable-metadata", "edit-frozen", "end-auction-too-early", "end-funding-in-other-state", "migration-finished"]),
		info(E, "as C27; non-trivial when an evaluation, its refusal or its conversion was compared with the model", &["evaluated", "evaluation-split-early-late", "evaluation-outside-the-round", "evaluation-user-limit", "evaluation-by-issuer", "evaluation-bond-reused", "evaluation-bond-topped-up"]),
		info(A, "as C27; non-trivial when a bid, its refusal or the auction's result was compared with the model", &["bid", "bid-split", "oversubscribed-auction", "bids-rejected", "bid-partially-accepted", "bid-above-did-maximum", "bid-multiplier", "bid-outside-the-round", "bid-user-limit"]),
		info(N, "as C27; non-trivial when a contribution or its refusal was compared with the model", &["contributed", "contribution-capped", "contribution-by-winner", "contribution-by-winner-in-remainder", "contribution-sold-out", "contribution-above-did-maximum", "contribution-below-minimum", "contribution-multiplier"]),
		info(G, "as C27; non-trivial when an outcome, a fee, a reward or a slash was compared with the model", &["funding-succeeded", "funding-failed", "fee-tokens", "fee-second-bracket", "evaluator-slashed", "evaluator-rewarded", "evaluator-released"]),
		info(W, "as C27; non-trivial when escrow, bonds or fees were compared with what the open participations add up to", &["escrow-covered", "bonds-covered", "otm-participation", "evaluation-bond-reused", "treasury-bond-back", "treasury-bond-released-early", "fee-refunded", "fees-to-recipient", "everything-settled", "evaluator-slashed"]),
		info(S, "as C27; non-trivial when a settlement was compared with what is due", &["settled-success", "settled-refund", "settled-with-refund", "fee-refunded", "bond-scheduled", "evaluation-settled", "marked-settled", "everything-settled", "rejected-bid-settled-early", "campaign-completed-success", "campaign-completed-failure", "vested"]),
		info(M, "as C27; non-trivial when a migration step or its refusal was compared with the model", &["migration-started", "offchain-confirmed", "channel-requested", "channel-accepted", "check-passed", "check-failed", "migration-sent", "migration-confirmed", "migration-failed", "migration-finished", "migration-of-several", "marked-finished-with-open-migrations", "migration-sent-twice", "first-query", "later-query", "response-to-the-other-query", "response-to-an-earlier-query"]),
		info(T, "as C27; after every operation the funding events are compared with the difference of the books; non-trivial when events were, or the absence of any was", events::KINDS),
		info(Q, "as C27, and after every operation two queries with random arguments; non-trivial when an answer was compared with the books", &["top-evaluations", "top-bids", "top-contributions", "top-projects", "top-projects-by-share", "tokens-of-account", "buys-in-bucket", "buys-over-buckets", "buys-at-average", "otm-buys-in-bucket", "otm-buys-over-buckets", "otm-buys-at-average", "otm-fee", "limits-closed", "limits-in-auction", "limits-in-community-round", "limits-after-participation", "merge", "no-merge", "merge-with-future-schedules", "participations", "participations-of-two-accounts", "share-of-target", "projects-of-did"]),
		info(K, "as C27; non-trivial when a call with a bad credential was refused", &["bad-credential", "bid-by-retail", "evaluation-other-policy", "issuer-not-institutional"]),
	];
	mon::main_with(&props, &[], random_history)
}
