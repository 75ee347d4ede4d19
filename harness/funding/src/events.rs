//! What the pallet announces, against what happened: the difference of the books before and
//! after an operation says which events there must be, with what in them.
use crate::{model::*, rt::*};
use mon::Obs;
use pallet_funding::{self as pf, BidStatus};
use polimec_common::migration_types::MigrationStatus;
use sp_runtime::traits::AccountIdConversion;
use std::collections::BTreeMap;

pub const KINDS: &[&str] = &[
	"created",
	"edited",
	"removed",
	"phase",
	"evaluation",
	"bid",
	"contribution",
	"evaluation-settled",
	"bid-settled",
	"contribution-settled",
	"channel-taken",
	"channel-established",
	"check-started",
	"answer-accepted",
	"answer-rejected",
	"status",
	"migration-completed",
	"nothing-announced",
];
type Told = (&'static str, String);

fn due(was: &BTreeMap<u32, P>, m: &Model) -> Vec<Told> {
	let mut v: Vec<Told> = m.notices.clone();
	for (pid, p) in &m.ps {
		let Some(q) = was.get(pid) else {
			v.push(("created", format!("{pid} {:?} {:?}", p.issuer, p.meta)));
			continue;
		};
		if p.removed && !q.removed {
			v.push(("removed", format!("{pid} {:?}", p.issuer)));
			continue;
		}
		if p.meta != q.meta {
			v.push(("edited", format!("{pid} {:?}", p.meta)));
		}
		if p.st != q.st {
			v.push(if p.st == St::Migrated { ("migration-completed", format!("{pid}")) } else { ("phase", format!("{pid} {:?}", p.st)) });
		}
		for e in p.evals.iter().filter(|e| !q.evals.iter().any(|x| x.id == e.id)) {
			v.push(("evaluation", format!("{pid} {:?} {} {}", e.who, e.id, e.bond)));
		}
		for e in p.bids.iter().filter(|e| !q.bids.iter().any(|x| x.id == e.id)) {
			v.push(("bid", format!("{pid} {:?} {} {} at {} for {} {:?} and {} {:?}", e.who, e.id, e.amount, e.price, e.locked, e.asset, e.bond, e.mode)));
		}
		for e in p.cons.iter().filter(|e| !q.cons.iter().any(|x| x.id == e.id)) {
			v.push(("contribution", format!("{pid} {:?} {} {} for {} {:?} and {} {:?}", e.who, e.id, e.amount, e.locked, e.asset, e.bond, e.mode)));
		}
		let got = |a: Acc| p.ct.get(&a).copied().unwrap_or(0) - q.ct.get(&a).copied().unwrap_or(0);
		let win = q.st == St::Settling(true);
		for e in q.evals.iter().filter(|e| !p.evals.iter().any(|x| x.id == e.id)) {
			let kept = if q.outcome == Some(false) { slash_of(e.bond) } else { 0 };
			v.push(("evaluation-settled", format!("{pid} {:?} {} {} {}", e.who, e.id, got(e.who), e.current - kept)));
		}
		for e in q.bids.iter().filter(|e| !p.bids.iter().any(|x| x.id == e.id)) {
			let n = match e.status {
				BidStatus::Accepted if win => e.amount,
				BidStatus::PartiallyAccepted(x) if win => x,
				_ => 0,
			};
			v.push(("bid-settled", format!("{pid} {:?} {} {n} at {}", e.who, e.id, e.price.min(p.wap.unwrap_or(0)))));
		}
		for e in q.cons.iter().filter(|e| !p.cons.iter().any(|x| x.id == e.id)) {
			v.push(("contribution-settled", format!("{pid} {:?} {} {}", e.who, e.id, if win { e.amount } else { 0 })));
		}
		if let (Some(Mt::Para { check: c1, .. }), Some(Mt::Para { check: c0, .. })) = (&p.mtype, &q.mtype) {
			let ids = |c: &Option<((u64, u8), (u64, u8, u8))>| c.map(|c| (c.0 .0, c.1 .0));
			if ids(c0) != ids(c1) {
				v.push(("check-started", format!("{pid} {:?}", m.checker.unwrap())));
			} else if let (Some(a), Some(b)) = (c0, c1) {
				for (query, before, after) in [(a.0 .0, a.0 .1, b.0 .1), (a.1 .0, a.1 .1, b.1 .1)] {
					if before != after {
						v.push((if after == 1 { "answer-accepted" } else { "answer-rejected" }, format!("{pid} {query} {:?}", m.answer.as_ref().unwrap())));
					}
				}
			}
			for (a, x) in &p.mig {
				if x.status != MigrationStatus::NotStarted && q.mig.get(a).map(|y| &y.status) != Some(&x.status) {
					v.push(("status", format!("{pid} {a:?} {:?}", x.status)));
				}
			}
		}
	}
	v
}
fn told() -> Vec<Told> {
	use pf::Event as X;
	System::events()
		.into_iter()
		.filter_map(|e| {
			let RuntimeEvent::PolimecFunding(e) = e.event else { return None };
			Some(match e {
				X::ProjectCreated { project_id: p, issuer, metadata } => ("created", format!("{p} {issuer:?} {metadata:?}")),
				X::ProjectRemoved { project_id: p, issuer } => ("removed", format!("{p} {issuer:?}")),
				X::MetadataEdited { project_id: p, metadata } => ("edited", format!("{p} {metadata:?}")),
				X::ProjectPhaseTransition { project_id: p, phase } => ("phase", format!("{p} {:?}", st_of(&phase))),
				X::Evaluation { project_id: p, evaluator, id, plmc_amount } => ("evaluation", format!("{p} {evaluator:?} {id} {plmc_amount}")),
				X::Bid { project_id: p, bidder, id, ct_amount, ct_price, funding_asset, funding_amount, plmc_bond, mode } =>
					("bid", format!("{p} {bidder:?} {id} {ct_amount} at {} for {funding_amount} {funding_asset:?} and {plmc_bond} {mode:?}", ct_price.into_inner())),
				X::Contribution { project_id: p, contributor, id, ct_amount, funding_asset, funding_amount, plmc_bond, mode } =>
					("contribution", format!("{p} {contributor:?} {id} {ct_amount} for {funding_amount} {funding_asset:?} and {plmc_bond} {mode:?}")),
				X::EvaluationSettled { project_id: p, account, id, ct_rewarded, plmc_released } => ("evaluation-settled", format!("{p} {account:?} {id} {ct_rewarded} {plmc_released}")),
				X::BidSettled { project_id: p, account, id, final_ct_amount, final_ct_usd_price } => ("bid-settled", format!("{p} {account:?} {id} {final_ct_amount} at {}", final_ct_usd_price.into_inner())),
				X::ContributionSettled { project_id: p, account, id, ct_amount } => ("contribution-settled", format!("{p} {account:?} {id} {ct_amount}")),
				X::HrmpChannelAccepted { project_id: p, para_id } => ("channel-taken", format!("{p} {}", u32::from(para_id))),
				X::HrmpChannelEstablished { project_id: p, para_id } => ("channel-established", format!("{p} {}", u32::from(para_id))),
				X::MigrationReadinessCheckStarted { project_id: p, caller } => ("check-started", format!("{p} {caller:?}")),
				X::MigrationCheckResponseAccepted { project_id: p, query_id, response } => ("answer-accepted", format!("{p} {query_id} {response:?}")),
				X::MigrationCheckResponseRejected { project_id: p, query_id, response } => ("answer-rejected", format!("{p} {query_id} {response:?}")),
				X::MigrationStatusUpdated { project_id: p, account, status } => {
					// whether the issuer's own confirmations are announced is not settled by anything
					if pf::ProjectsDetails::<Test>::get(p).map_or(false, |d| matches!(d.migration_type, Some(pf::MigrationType::Offchain))) {
						return None;
					}
					("status", format!("{p} {account:?} {status:?}"))
				},
				X::CTMigrationFinished { project_id: p } => ("migration-completed", format!("{p}")),
				_ => return None,
			})
		})
		.collect()
}
pub fn compare(o: &mut Obs, was: &BTreeMap<u32, P>, m: &Model, what: &str) {
	let (mut want, mut got) = (due(was, m), told());
	System::reset_events();
	for (k, _) in &want {
		o.hit(&[T], k);
	}
	if want.is_empty() {
		o.hit(&[T], "nothing-announced");
	}
	want.sort();
	got.sort();
	if want != got {
		let sig = want.iter().chain(&got).find(|x| want.contains(x) != got.contains(x)).map_or("twice", |x| x.0);
		o.violate(&[T], &format!("event-{sig}"), || format!("after {what}: announced {got:?}, happened {want:?}"));
	}
}
/// The account in whose name a check starts by itself.
pub fn pallet_account() -> Acc {
	FundingPalletId::get().into_account_truncating()
}
