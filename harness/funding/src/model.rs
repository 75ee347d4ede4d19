//! What the funding pallet should hold: kept from the calls alone, and compared with all of the
//! pallet's storage and with every balance after every call.
use crate::rt::*;
use frame_support::traits::{
	fungible::InspectHold,
	fungibles::Inspect,
};
use mon::Obs;
use pallet_funding::{
	self as pf, AcceptedFundingAsset as Asset, BidStatus, CheckOutcome, EvaluatorsOutcome, FundingOutcome, MigrationType, ParticipationMode as Mode,
	ProjectStatus,
};
use polimec_common::migration_types::{MigrationStatus, ParticipationType};
use sp_arithmetic::Percent;
use std::collections::{BTreeMap, BTreeSet};

pub const R: &str = "C27";
pub const E: &str = "C28";
pub const A: &str = "C29";
pub const N: &str = "C30";
pub const G: &str = "C31";
pub const W: &str = "C32";
pub const S: &str = "C33";
pub const M: &str = "C34";
pub const K: &str = "C35";
/// the answers of the runtime API
pub const Q: &str = "C47";
/// the events
pub const T: &str = "C48";

pub const USERS: u128 = 8;
pub const ASSETS: [(Asset, u8, u128); 3] = [(Asset::USDT, 6, 70_000), (Asset::USDC, 6, 70_000), (Asset::DOT, 10, 100_000_000)];
pub const EVALUATION: RuntimeHoldReason = RuntimeHoldReason::PolimecFunding(pf::HoldReason::Evaluation);
pub const PARTICIPATION: RuntimeHoldReason = RuntimeHoldReason::PolimecFunding(pf::HoldReason::Participation);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum St {
	App,
	Eval,
	Auction,
	Community(u64),
	Failed,
	Success,
	Settling(bool),
	Settled(bool),
	Migrating,
	Migrated,
}
pub fn st_of(s: &ProjectStatus<u64>) -> St {
	match s {
		ProjectStatus::Application => St::App,
		ProjectStatus::EvaluationRound => St::Eval,
		ProjectStatus::AuctionRound => St::Auction,
		ProjectStatus::CommunityRound(x) => St::Community(*x),
		ProjectStatus::FundingFailed => St::Failed,
		ProjectStatus::FundingSuccessful => St::Success,
		ProjectStatus::SettlementStarted(x) => St::Settling(*x == FundingOutcome::Success),
		ProjectStatus::SettlementFinished(x) => St::Settled(*x == FundingOutcome::Success),
		ProjectStatus::CTMigrationStarted => St::Migrating,
		ProjectStatus::CTMigrationFinished => St::Migrated,
	}
}
#[derive(Clone, Debug)]
pub struct Ev {
	pub id: u32,
	pub who: Acc,
	pub did: u8,
	pub usd: u128,
	pub early: u128,
	pub bond: u128,
	pub current: u128,
	pub when: u64,
}
#[derive(Clone, Debug)]
pub struct Bd {
	pub id: u32,
	pub who: Acc,
	pub did: u8,
	pub amount: u128,
	/// FixedU128 inner
	pub price: u128,
	pub asset: Asset,
	pub locked: u128,
	pub mode: Mode,
	pub bond: u128,
	pub fee: u128,
	pub when: u64,
	pub status: BidStatus,
}
#[derive(Clone, Debug)]
pub struct Cn {
	pub id: u32,
	pub who: Acc,
	pub did: u8,
	pub amount: u128,
	pub usd: u128,
	pub asset: Asset,
	pub locked: u128,
	pub mode: Mode,
	pub bond: u128,
	pub fee: u128,
	pub when: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Bucket {
	pub left: u128,
	pub price: u128,
	pub delta: u128,
	pub dprice: u128,
}
impl Bucket {
	pub fn take(&mut self, x: u128) {
		self.left -= x;
		if self.left == 0 {
			self.left = self.delta;
			self.price += self.dprice;
		}
	}
}
#[derive(Clone, Debug, PartialEq)]
pub struct Mig {
	pub status: MigrationStatus,
	/// (0 evaluation, 1 bid, 2 contribution), id, tokens, vesting blocks
	pub items: Vec<(u8, u32, u128, u64)>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Mt {
	Off,
	Para { id: u32, from_project: u8, to_project: u8, check: Option<((u64, u8), (u64, u8, u8))> },
}
#[derive(Clone, Debug)]
pub struct P {
	pub meta: pf::ProjectMetadataOf<Test>,
	pub issuer: Acc,
	pub did: u8,
	pub st: St,
	pub start: Option<u64>,
	pub end: Option<u64>,
	pub wap: Option<u128>,
	pub target: u128,
	pub remaining: u128,
	pub reached: u128,
	pub bonded_usd: u128,
	pub bonded_plmc: u128,
	pub evals: Vec<Ev>,
	pub bids: Vec<Bd>,
	pub cons: Vec<Cn>,
	pub ever_evals: u32,
	pub ever_bids: u32,
	pub did_bid: BTreeMap<u8, u128>,
	pub did_con: BTreeMap<u8, u128>,
	pub winners: BTreeSet<u8>,
	pub outcome: Option<bool>,
	pub funding_end: Option<u64>,
	pub bucket: Bucket,
	pub mig: BTreeMap<Acc, Mig>,
	pub mtype: Option<Mt>,
	pub escrow: BTreeMap<u32, u128>,
	pub pool: BTreeMap<u32, u128>,
	pub otm: u128,
	pub sub_ed: u128,
	pub ct: BTreeMap<Acc, u128>,
	pub sold_at_end: u128,
	pub drained: bool,
	pub removed: bool,
}
#[derive(Default)]
pub struct Model {
	pub ps: BTreeMap<u32, P>,
	pub active: BTreeMap<u8, u32>,
	/// everything an account owns in PLMC, held or not
	pub plmc: BTreeMap<Acc, u128>,
	pub tok: BTreeMap<(u32, Acc), u128>,
	pub sched: BTreeMap<Acc, Vec<(u128, u128, u64)>>,
	pub sched_held: BTreeMap<Acc, u128>,
	pub queue: BTreeMap<u64, (u32, Acc)>,
	/// every query of a readiness check so far, with its project
	pub checks: Vec<(u64, u32)>,
	/// who started the last check, and the last answer given to one
	pub checker: Option<Acc>,
	pub answer: Option<xcm::v4::Response>,
	/// channel notices taken since the last comparison with the events
	pub notices: Vec<(&'static str, String)>,
	pub next_bid: u32,
	pub next_con: u32,
	pub next_eval: u32,
	pub moving: bool,
	pub vesting: bool,
	pub drains: bool,
	pub done: bool,
}
pub fn micro(id: u32) -> u128 {
	PRICES.with(|p| p.borrow()[&id])
}
pub fn dec_of(a: Asset) -> u32 {
	ASSETS.iter().find(|x| x.0 == a).unwrap().1 as u32
}
pub fn min_of(a: Asset) -> u128 {
	ASSETS.iter().find(|x| x.0 == a).unwrap().2
}
pub fn near(a: u128, b: u128, tol: u128) -> bool {
	a.abs_diff(b) <= tol
}
/// floor(price * x) for a FixedU128 given by its inner value
pub fn mul(inner: u128, x: u128) -> u128 {
	(sp_core::U256::from(inner) * sp_core::U256::from(x) / sp_core::U256::from(10u128.pow(18))).as_u128()
}
pub fn muldiv(a: u128, b: u128, c: u128) -> u128 {
	(sp_core::U256::from(a) * sp_core::U256::from(b) / sp_core::U256::from(c.max(1))).as_u128()
}
pub fn bond_of(usd: u128, mult: u8) -> u128 {
	muldiv(usd / mult.max(1) as u128, 10u128.pow(10), micro(polimec_common::PLMC_FOREIGN_ID))
}
pub fn asset_of(usd: u128, a: Asset) -> u128 {
	muldiv(usd, 10u128.pow(dec_of(a)), micro(a.id()))
}
pub fn fee_of(bond: u128, a: Asset) -> (u128, u128) {
	let usd = muldiv(bond, micro(polimec_common::PLMC_FOREIGN_ID), 10u128.pow(10));
	let part = muldiv(usd, 75, 1000);
	let f = muldiv(part, 10u128.pow(dec_of(a)), micro(a.id()));
	(f, 2 + 2 * 10u128.pow(dec_of(a)) / micro(a.id()) + f / 1_000_000_000)
}
/// blocks a participation with this multiplier vests for
pub fn duration(mult: u8) -> u64 {
	((mult as u64 - 1) * 2167 * 7 * 7200 / 1000).max(1)
}
pub fn slash_of(bond: u128) -> u128 {
	Percent::from_percent(20) * bond
}
pub fn escrow(pid: u32) -> Acc {
	PolimecFunding::fund_account_id(pid)
}
pub fn sub(pid: u32) -> Acc {
	ProxyBonding::get_bonding_account(pid)
}
pub fn tok(a: u32, w: Acc) -> u128 {
	ForeignAssets::balance(a, &w)
}
pub fn did_bytes(d: u8) -> polimec_common::credentials::Did {
	format!("did:polimec:{d}").into_bytes().try_into().unwrap()
}
pub fn alloc_of(meta: &pf::ProjectMetadataOf<Test>) -> u128 {
	meta.auction_round_allocation_percentage * meta.total_allocation_size
}
pub fn fee_usd(reached: u128) -> u128 {
	let mut left = reached;
	let mut fee = 0;
	for (pct, lim) in BRACKETS {
		let x = left.min(lim);
		fee += x * pct as u128 / 100;
		left -= x;
	}
	fee
}
impl P {
	pub fn outstanding(&self) -> bool {
		!self.evals.is_empty() || !self.bids.is_empty() || !self.cons.is_empty()
	}
	pub fn unmigrated(&self) -> usize {
		self.mig.values().filter(|m| m.status != MigrationStatus::Confirmed).count()
	}
	pub fn fee_tokens(&self) -> u128 {
		muldiv(self.sold_at_end, fee_usd(self.reached), self.reached)
	}
	/// The fee is a share of the money rounded to a micro-dollar per bracket.
	pub fn fee_tolerance(&self) -> u128 {
		6 + muldiv(3, self.sold_at_end, self.reached) + self.sold_at_end / 10u128.pow(16)
	}
	pub fn reward(&self, e: &Ev) -> u128 {
		let pot = self.fee_tokens() * 3 / 10;
		let early_total = self.bonded_usd.min(self.target / 10);
		muldiv(pot / 5, e.early, early_total) + muldiv(pot * 4 / 5, e.usd, self.bonded_usd)
	}
	pub fn migrate(&mut self, who: Acc, item: (u8, u32, u128, u64)) {
		self.mig.entry(who).or_insert(Mig { status: MigrationStatus::NotStarted, items: vec![] }).items.push(item);
	}
}
impl Model {
	pub fn held_eval(&self, who: Acc) -> u128 {
		self.ps.values().flat_map(|p| p.evals.iter()).filter(|e| e.who == who).map(|e| e.current).sum()
	}
	pub fn held_part(&self, who: Acc) -> u128 {
		let b: u128 = self.ps.values().flat_map(|p| p.bids.iter()).filter(|e| e.who == who && e.mode != Mode::OTM).map(|e| e.bond).sum();
		let c: u128 = self.ps.values().flat_map(|p| p.cons.iter()).filter(|e| e.who == who && e.mode != Mode::OTM).map(|e| e.bond).sum();
		b + c
	}
	pub fn give(&mut self, a: u32, w: Acc, x: u128) {
		*self.tok.entry((a, w)).or_default() += x;
	}
	pub fn take(&mut self, a: u32, w: Acc, x: u128) {
		let e = self.tok.entry((a, w)).or_default();
		*e = e.saturating_sub(x);
	}
}
fn kind(t: &ParticipationType) -> u8 {
	match t {
		ParticipationType::Evaluation => 0,
		ParticipationType::Bid => 1,
		ParticipationType::Contribution => 2,
	}
}

/// Storage and balances against the model.
pub fn watch(o: &mut Obs, m: &Model, what: &str) {
	macro_rules! bad {
		($props:expr, $sig:expr, $($t:tt)*) => {{
			let msg = format!($($t)*);
			o.violate($props, $sig, || format!("after {what}: {msg}"));
		}};
	}
	for (id, p) in &m.ps {
		let id = *id;
		let det = pf::ProjectsDetails::<Test>::get(id);
		if p.removed {
			if det.is_some() || pf::ProjectsMetadata::<Test>::contains_key(id) {
				bad!(&[R], "removed-project-present", "project {id} was removed and is still there");
			}
			continue;
		}
		let Some(d) = det else {
			bad!(&[R], "project-gone", "project {id} is gone");
			continue;
		};
		if st_of(&d.status) != p.st {
			bad!(&[R], "status", "project {id} is {:?}, should be {:?}", d.status, p.st);
		}
		if (d.round_duration.start(), d.round_duration.end()) != (p.start, p.end) {
			bad!(&[R], "round", "project {id}'s round is {:?}, should be {:?}..{:?}", d.round_duration, p.start, p.end);
		}
		if d.issuer_account != p.issuer || d.issuer_did != did_bytes(p.did) {
			bad!(&[R], "issuer", "project {id}'s issuer is {:?}, was {:?}", d.issuer_account, p.issuer);
		}
		if d.is_frozen != (p.st != St::App) {
			bad!(&[R], "frozen", "project {id} in {:?}: frozen is {}", p.st, d.is_frozen);
		}
		if pf::ProjectsMetadata::<Test>::get(id).as_ref() != Some(&p.meta) {
			bad!(&[R], "metadata", "project {id}'s metadata is not what its issuer gave");
		}
		if d.fundraising_target_usd != p.target {
			bad!(&[R], "target", "project {id}'s target is {}, should be {}", d.fundraising_target_usd, p.target);
		}
		if d.funding_end_block != p.funding_end {
			bad!(&[R, S], "funding-end", "project {id}'s funding end is {:?}, should be {:?}", d.funding_end_block, p.funding_end);
		}
		if d.weighted_average_price.map(|x| x.into_inner()) != p.wap {
			bad!(&[A], "wap-changed", "project {id}'s WAP is {:?}, was {:?}", d.weighted_average_price, p.wap);
		}
		if d.remaining_contribution_tokens != p.remaining {
			bad!(&[N], "remaining", "project {id} has {} tokens left, should have {}", d.remaining_contribution_tokens, p.remaining);
		}
		if d.funding_amount_reached_usd != p.reached {
			bad!(&[N], "reached", "project {id} reached {}, should be {}", d.funding_amount_reached_usd, p.reached);
		}
		let i = &d.evaluation_round_info;
		if (i.total_bonded_usd, i.total_bonded_plmc) != (p.bonded_usd, p.bonded_plmc) {
			bad!(&[E], "bonded-total", "project {id} counts {} USD and {} PLMC bonded, should be {} and {}", i.total_bonded_usd, i.total_bonded_plmc, p.bonded_usd, p.bonded_plmc);
		}
		let out = match &i.evaluators_outcome {
			None => None,
			Some(EvaluatorsOutcome::Slashed) => Some(false),
			Some(EvaluatorsOutcome::Rewarded(_)) => Some(true),
		};
		if out != p.outcome {
			bad!(&[E], "outcome", "project {id}'s evaluators: rewarded {out:?}, should be {:?}", p.outcome);
		}
		let mt = match &d.migration_type {
			None => None,
			Some(MigrationType::Offchain) => Some(Mt::Off),
			Some(MigrationType::Pallet(x)) => Some(Mt::Para {
				id: x.parachain_id.into(),
				from_project: x.hrmp_channel_status.project_to_polimec.clone() as u8,
				to_project: x.hrmp_channel_status.polimec_to_project.clone() as u8,
				check: x.migration_readiness_check.map(|c| {
					let f = |x: CheckOutcome| match x {
						CheckOutcome::AwaitingResponse => (0, 0),
						CheckOutcome::Passed(i) => (1, i.unwrap_or(0)),
						CheckOutcome::Failed => (2, 0),
					};
					((c.holding_check.0, f(c.holding_check.1).0), (c.pallet_check.0, f(c.pallet_check.1).0, f(c.pallet_check.1).1))
				}),
			}),
		};
		if mt != p.mtype {
			bad!(&[M], "migration-type", "project {id}'s migration is {mt:?}, should be {:?}", p.mtype);
		}
		// participations
		let mut ev: Vec<_> = pf::Evaluations::<Test>::iter_prefix_values((id,)).collect();
		ev.sort_by_key(|e| e.id);
		if ev.len() != p.evals.len()
			|| !p.evals.iter().all(|x| {
				ev.iter().any(|e| {
					e.id == x.id && e.evaluator == x.who && e.did == did_bytes(x.did) && e.original_plmc_bond == x.bond && e.current_plmc_bond == x.current && e.early_usd_amount == x.early && e.early_usd_amount + e.late_usd_amount == x.usd && e.when == x.when && e.project_id == id
				})
			}) {
			bad!(&[E, S], "evaluations", "project {id} records evaluations {ev:?}, should have {:?}", p.evals);
		}
		let mut bs: Vec<_> = pf::Bids::<Test>::iter_prefix_values((id,)).collect();
		bs.sort_by_key(|e| e.id);
		if bs.len() != p.bids.len()
			|| !p.bids.iter().all(|x| {
				bs.iter().any(|e| {
					e.id == x.id && e.bidder == x.who && e.did == did_bytes(x.did) && e.original_ct_amount == x.amount && e.original_ct_usd_price.into_inner() == x.price && e.funding_asset == x.asset && e.funding_asset_amount_locked == x.locked && e.mode == x.mode && e.plmc_bond == x.bond && e.when == x.when && e.status == x.status && e.project_id == id
				})
			}) {
			bad!(&[A, S], "bids", "project {id} records bids {bs:?}, should have {:?}", p.bids);
		}
		let mut cs: Vec<_> = pf::Contributions::<Test>::iter_prefix_values((id,)).collect();
		cs.sort_by_key(|e| e.id);
		if cs.len() != p.cons.len()
			|| !p.cons.iter().all(|x| {
				cs.iter().any(|e| {
					e.id == x.id && e.contributor == x.who && e.did == did_bytes(x.did) && e.ct_amount == x.amount && e.usd_contribution_amount == x.usd && e.funding_asset == x.asset && e.funding_asset_amount == x.locked && e.mode == x.mode && e.plmc_bond == x.bond && e.when == x.when && e.project_id == id
				})
			}) {
			bad!(&[N, S], "contributions", "project {id} records contributions {cs:?}, should have {:?}", p.cons);
		}
		match pf::Buckets::<Test>::get(id) {
			Some(b) =>
				if (b.amount_left, b.current_price.into_inner()) != (p.bucket.left, p.bucket.price) {
					bad!(&[A], "bucket", "project {id}'s bucket has {} left at {:?}, should have {} at {}", b.amount_left, b.current_price, p.bucket.left, p.bucket.price);
				},
			None => bad!(&[A], "bucket", "project {id} has no bucket"),
		}
		// migrations
		let migs: BTreeMap<Acc, Mig> = pf::UserMigrations::<Test>::iter_prefix((id,))
			.map(|(a, (s, v))| {
				(a, Mig { status: s, items: v.iter().map(|x| (kind(&x.origin.participation_type), x.origin.id, x.info.contribution_token_amount, x.info.vesting_time)).collect() })
			})
			.collect();
		if migs != p.mig {
			bad!(&[M], "migrations", "project {id} records migrations {migs:?}, should have {:?}", p.mig);
		}
		let c = pf::UnmigratedCounter::<Test>::get(id);
		if c as usize != p.unmigrated() {
			bad!(&[M], "unmigrated-counter", "project {id} counts {c} unmigrated participants, there are {}", p.unmigrated());
		}
		// custody
		for (a, ..) in ASSETS {
			let a = a.id();
			let want = p.escrow.get(&a).copied().unwrap_or(0);
			if want > 0 {
				o.hit(&[W], "escrow-covered");
			}
			if tok(a, escrow(id)) != want {
				bad!(&[W], "escrow", "project {id}'s escrow holds {} of {a}, should hold {want}", tok(a, escrow(id)));
			}
			let want = p.pool.get(&a).copied().unwrap_or(0);
			if tok(a, sub(id)) != want {
				bad!(&[W], "fee-pool", "project {id}'s fee account holds {} of {a}, should hold {want}", tok(a, sub(id)));
			}
		}
		if Balances::balance_on_hold(&PARTICIPATION, &sub(id)) != p.otm {
			bad!(&[W], "treasury-bond", "project {id}: {} of the treasury is bonded, should be {}", Balances::balance_on_hold(&PARTICIPATION, &sub(id)), p.otm);
		}
		if Balances::free_balance(escrow(id)) != ED {
			bad!(&[W], "escrow-deposit", "project {id}'s escrow has {} PLMC", Balances::free_balance(escrow(id)));
		}
		// contribution tokens
		let minted: u128 = p.ct.values().sum();
		if ContributionTokens::total_issuance(id) != minted {
			bad!(&[S], "token-supply", "project {id} has {} tokens in circulation, {minted} were due", ContributionTokens::total_issuance(id));
		}
		for (a, x) in &p.ct {
			if ContributionTokens::balance(id, a) != *x {
				bad!(&[S], "token-balance", "{a:?} has {} tokens of project {id}, {x} were due", ContributionTokens::balance(id, a));
			}
		}
	}
	for d in 1..=USERS as u8 {
		let a = pf::DidWithActiveProjects::<Test>::get(did_bytes(d));
		if a != m.active.get(&d).copied() {
			bad!(&[R], "active-project", "DID {d}'s active project is {a:?}, should be {:?}", m.active.get(&d));
		}
	}
	for u in 1..=USERS {
		let u = Acc(u);
		let (e, p) = (m.held_eval(u), m.held_part(u) + m.sched_held.get(&u).copied().unwrap_or(0));
		if e + p > 0 {
			o.hit(&[W], "bonds-covered");
		}
		let sched: Vec<(u128, u128, u64)> =
			pallet_linear_release::Vesting::<Test>::get(u, PARTICIPATION).map(|v| v.iter().map(|s| (s.locked, s.per_block, s.starting_block)).collect()).unwrap_or_default();
		if sched != m.sched.get(&u).cloned().unwrap_or_default() {
			bad!(&[S], "release-schedules", "{u:?} has release schedules {sched:?}, should have {:?}", m.sched.get(&u));
		}
		if Balances::balance_on_hold(&EVALUATION, &u) != e {
			bad!(&[W], "evaluation-bond", "{u:?} has {} on hold for evaluations, {e} is bonded", Balances::balance_on_hold(&EVALUATION, &u));
		}
		if Balances::balance_on_hold(&PARTICIPATION, &u) != p {
			bad!(&[W], "participation-bond", "{u:?} has {} on hold for participations, {p} is bonded or vesting", Balances::balance_on_hold(&PARTICIPATION, &u));
		}
	}
	for (a, x) in &m.plmc {
		let got = Balances::total_balance(a);
		if got != *x {
			bad!(&[W], "plmc", "{a:?} owns {got} PLMC, should own {x}");
		}
	}
	for ((a, w), x) in &m.tok {
		if tok(*a, *w) != *x {
			bad!(&[W], "funding-asset", "{w:?} has {} of {a}, should have {x}", tok(*a, *w));
		}
	}
	let q: BTreeMap<u64, (u32, Acc)> = pf::ActiveMigrationQueue::<Test>::iter().collect();
	if q != m.queue {
		bad!(&[M], "migration-queue", "the queue is {q:?}, should be {:?}", m.queue);
	}
}
use frame_support::traits::fungible::Inspect as _;
