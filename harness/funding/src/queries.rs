//! What the runtime API answers, against the books.
use crate::{model::*, rt::*};
use mon::{Obs, Rng};
use pallet_funding::BidStatus;
use parity_scale_codec::{Decode, Encode};
use polimec_common::credentials::InvestorType;
use std::collections::BTreeMap;

fn lot(r: &mut Rng) -> u32 {
	match r.below(5) {
		0 => 0,
		1 => u32::MAX,
		_ => r.range(1, 6) as u32,
	}
}
/// The keys of a leaderboard: the largest ones of `all`, in descending order.
fn best<T: Ord + Clone>(all: &[T], n: u32) -> Vec<T> {
	let mut v = all.to_vec();
	v.sort_by(|a, b| b.cmp(a));
	v.truncate(n as usize);
	v
}
/// Tokens that `usd` buys, and by how much rounding may blur that.
fn bought(p: &P, usd: u128) -> (u128, u128, usize) {
	let unit = 10u128.pow(18);
	if let Some(w) = p.wap {
		let ct = muldiv(usd, unit, w);
		return (ct, 2 + muldiv(2, unit, w) + ct / 1_000_000_000, 1);
	}
	let (mut b, mut left, mut ct, mut n) = (p.bucket, usd, 0, 0u128);
	let lowest = b.price;
	loop {
		n += 1;
		let x = muldiv(left, unit, b.price).min(b.left);
		ct += x;
		if x < b.left {
			break;
		}
		left = left.saturating_sub(mul(b.price, x));
		b.take(x);
	}
	(ct, 2 * n + muldiv(n + 3, unit, lowest) + ct / 1_000_000_000, n as usize)
}

pub fn ask(o: &mut Obs, m: &Model, r: &mut Rng, now: u64, vested: &RuntimeHoldReason) {
	let live: Vec<u32> = m.ps.iter().filter(|(_, p)| !p.removed).map(|(i, _)| *i).collect();
	if live.is_empty() {
		return;
	}
	let pid = *r.pick(&live);
	let p = &m.ps[&pid];
	let k = r.below(12);
	macro_rules! bad {
		($sig:expr, $($t:tt)*) => {{
			let msg = format!($($t)*);
			o.violate(&[Q], $sig, || format!("[{now}] project {pid} in {:?}: {msg}", p.st));
			return;
		}};
	}
	macro_rules! get {
		($e:expr) => {
			match o.guard(|| $e) {
				Ok(x) => x,
				Err(e) => bad!("query-panics", "query {k} panicked: {e}"),
			}
		};
	}
	let asset = r.pick(&ASSETS).0;
	let price = micro(asset.id());
	let dec = 10u128.pow(dec_of(asset));
	let usd = match r.below(5) {
		0 => r.below128(10),
		1 => (mul(p.bucket.price, p.bucket.left) + r.below128(3)).saturating_sub(1),
		2 => p.target * r.range128(1, 300) / 100,
		_ => r.below128(p.target + 1),
	};
	match k {
		0 => {
			let n = lot(r);
			let got = get!(PolimecFunding::top_evaluations(pid, n));
			let mut ids: Vec<u32> = got.iter().map(|e| e.id).collect();
			ids.sort();
			ids.dedup();
			if got.iter().map(|e| e.original_plmc_bond).collect::<Vec<_>>() != best(&p.evals.iter().map(|e| e.bond).collect::<Vec<_>>(), n)
				|| ids.len() != got.len()
				|| !got.iter().all(|g| p.evals.iter().any(|e| e.id == g.id && e.who == g.evaluator && e.bond == g.original_plmc_bond))
			{
				bad!("query-top-evaluations", "the {n} top evaluations are said to be {got:?} of {:?}", p.evals);
			}
			if got.len() > 1 {
				o.hit(&[Q], "top-evaluations");
			}
		},
		1 => {
			let n = lot(r);
			let got = get!(PolimecFunding::top_bids(pid, n));
			let won = |b: &Bd| match b.status {
				BidStatus::Accepted => b.amount,
				BidStatus::PartiallyAccepted(x) => x,
				_ => 0,
			};
			let mut ids: Vec<u32> = got.iter().map(|e| e.id).collect();
			ids.sort();
			ids.dedup();
			let key = |id: u32| p.bids.iter().find(|b| b.id == id).map(&won);
			let keys: Vec<Option<u128>> = got.iter().map(|b| key(b.id)).collect();
			if keys != best(&p.bids.iter().map(|b| Some(won(b))).collect::<Vec<_>>(), n) || ids.len() != got.len() || !got.iter().all(|g| p.bids.iter().any(|b| b.id == g.id && b.who == g.bidder && b.amount == g.original_ct_amount)) {
				bad!("query-top-bids", "the {n} top bids are said to be {got:?} of {:?}", p.bids);
			}
			if keys.len() > 1 && keys[0] > Some(0) {
				o.hit(&[Q], "top-bids");
			}
		},
		2 => {
			let n = lot(r);
			let got = get!(PolimecFunding::top_contributions(pid, n));
			let mut ids: Vec<u32> = got.iter().map(|e| e.id).collect();
			ids.sort();
			ids.dedup();
			if got.iter().map(|e| e.ct_amount).collect::<Vec<_>>() != best(&p.cons.iter().map(|e| e.amount).collect::<Vec<_>>(), n)
				|| ids.len() != got.len()
				|| !got.iter().all(|g| p.cons.iter().any(|e| e.id == g.id && e.who == g.contributor && e.amount == g.ct_amount))
			{
				bad!("query-top-contributions", "the {n} top contributions are said to be {got:?} of {:?}", p.cons);
			}
			if got.len() > 1 {
				o.hit(&[Q], "top-contributions");
			}
		},
		3 => {
			let n = lot(r);
			let share = r.chance(1, 2);
			let got = get!(if share { PolimecFunding::top_projects_by_usd_target_percent_reached(n) } else { PolimecFunding::top_projects_by_usd_raised(n) });
			// shares are compared crosswise, exactly up to the 18 digits the pallet has
			let key = |id: u32| {
				let p = &m.ps[&id];
				if share {
					muldiv(p.reached, 10u128.pow(18), p.target)
				} else {
					p.reached
				}
			};
			let mut ids: Vec<u32> = got.iter().map(|g| g.0).collect();
			let keys: Vec<u128> = ids.iter().map(|i| if live.contains(i) { key(*i) } else { 0 }).collect();
			let want = best(&live.iter().map(|i| key(*i)).collect::<Vec<_>>(), n);
			let many = keys.len() > 1 && keys[0] > keys[1];
			ids.sort();
			ids.dedup();
			let tol = share as u128;
			if keys.len() != want.len()
				|| keys.iter().zip(&want).any(|(a, b)| a.abs_diff(*b) > tol)
				|| ids.len() != got.len()
				|| !got.iter().all(|g| live.contains(&g.0) && m.ps[&g.0].meta == g.1 && m.ps[&g.0].reached == g.2.funding_amount_reached_usd && m.ps[&g.0].issuer == g.2.issuer_account)
			{
				bad!("query-top-projects", "the {n} top projects (by share: {share}) are said to be {:?}, raised {:?}", got.iter().map(|g| g.0).collect::<Vec<_>>(), live.iter().map(|i| (i, m.ps[i].reached, m.ps[i].target)).collect::<Vec<_>>());
			}
			if many {
				o.hit(&[Q], if share { "top-projects-by-share" } else { "top-projects" });
			}
		},
		4 => {
			let who = Acc(r.range128(1, USERS));
			let got = get!(PolimecFunding::contribution_tokens(who));
			let mut want: Vec<(u32, u128)> = m.ps.iter().filter_map(|(i, p)| p.ct.get(&who).filter(|x| **x > 0).map(|x| (*i, *x))).collect();
			want.sort();
			let mut have = got.clone();
			have.sort();
			if have != want || !got.windows(2).all(|w| w[0].1 >= w[1].1) {
				bad!("query-tokens", "{who:?} is said to have {got:?}, has {want:?}");
			}
			if !got.is_empty() {
				o.hit(&[Q], "tokens-of-account");
			}
		},
		5 => {
			let x = muldiv(usd, dec, price);
			let got = get!(PolimecFunding::funding_asset_to_ct_amount_classic(pid, asset, x));
			let (ct, tol, n) = bought(p, muldiv(x, price, dec));
			if !near(got, ct, tol) {
				bad!("query-buys", "{x} of {asset:?} is said to buy {got} tokens, buys {ct} (+-{tol}) from {:?}, {:?}", p.wap, p.bucket);
			}
			if ct > 0 {
				o.hit(&[Q], if p.wap.is_some() { "buys-at-average" } else if n > 1 { "buys-over-buckets" } else { "buys-in-bucket" });
			}
		},
		6 => {
			let x = muldiv(usd, dec, price);
			let (got, fee) = get!(PolimecFunding::funding_asset_to_ct_amount_otm(pid, asset, x));
			let ticket = muldiv(x, 1000, 1015);
			let (ct, tol, n) = bought(p, muldiv(ticket, price, dec));
			let blur = muldiv(2 * price / dec + 2, 10u128.pow(18), p.wap.unwrap_or(p.bucket.price));
			if !near(got, ct, tol + blur) {
				bad!("query-buys-otm", "{x} of {asset:?} with the fee is said to buy {got} tokens, buys {ct} (+-{tol}) from {:?}, {:?}", p.wap, p.bucket);
			}
			if !near(fee, x - ticket, 2 + x / 10u128.pow(15)) {
				bad!("query-otm-share", "of {x} of {asset:?}, {fee} is said to be the fee, {} is", x - ticket);
			}
			// and that is the fee such a ticket is charged
			let (due, t) = fee_of(bond_of(muldiv(ticket, price, dec), 5), asset);
			if !near(fee, due, t + 3) {
				bad!("query-otm-share", "a ticket of {ticket} of {asset:?} is charged {due} (+-{t}), {fee} is reserved for it");
			}
			if ct > 0 {
				o.hit(&[Q], if p.wap.is_some() { "otm-buys-at-average" } else if n > 1 { "otm-buys-over-buckets" } else { "otm-buys-in-bucket" });
			}
		},
		7 => {
			let x = muldiv(usd, dec, price);
			let got = get!(PolimecFunding::calculate_otm_fee(asset, x));
			let (due, t) = fee_of(bond_of(muldiv(x, price, dec), 5), asset);
			match got {
				Some(f) if near(f, due, t + 3) =>
					if f > 0 {
						o.hit(&[Q], "otm-fee");
					},
				_ => bad!("query-otm-fee", "the fee for {x} of {asset:?} is said to be {got:?}, is {due} (+-{t})"),
			}
		},
		8 => {
			let inv = r.pick(&[InvestorType::Institutional, InvestorType::Professional, InvestorType::Retail]).clone();
			let did = r.range(1, 7) as u8;
			let got = get!(PolimecFunding::get_funding_asset_min_max_amounts(pid, did_bytes(did), asset, inv.clone()));
			let (t, spent, all, blur) = match (p.st, &inv) {
				(St::Auction, InvestorType::Institutional | InvestorType::Professional) => {
					let s = &p.meta.bidding_ticket_sizes;
					let (mut b, mut left, mut all, mut n) = (p.bucket, alloc_of(&p.meta), 0, 0);
					while left > 0 {
						let x = left.min(b.left);
						all += mul(b.price, x);
						left -= x;
						b.take(x);
						n += 1;
					}
					let t = if inv == InvestorType::Institutional { &s.institutional } else { &s.professional };
					(t.clone(), p.did_bid.get(&did).copied().unwrap_or(0), all, n)
				},
				(St::Community(_), _) => {
					let s = &p.meta.contributing_ticket_sizes;
					let t = match inv {
						InvestorType::Institutional => &s.institutional,
						InvestorType::Professional => &s.professional,
						InvestorType::Retail => &s.retail,
					};
					(t.clone(), p.did_con.get(&did).copied().unwrap_or(0), mul(p.wap.unwrap_or(0), p.remaining), 1)
				},
				_ => {
					if got.is_some() {
						bad!("query-limits-closed", "limits for {inv:?} are said to be {got:?}");
					}
					o.hit(&[Q], "limits-closed");
					return;
				},
			};
			let max = t.usd_maximum_per_did.map_or(all, |x| all.min(x.saturating_sub(spent)));
			let f = |u: u128| muldiv(u, dec, price);
			let tol = |x: u128| 2 + muldiv(blur + 2, dec, price) + x / 10u128.pow(9);
			let (lo, hi) = (f(t.usd_minimum_per_participation), f(max));
			match got {
				Some((a, b)) if near(a, lo, tol(lo)) && near(b, hi, tol(hi)) => {},
				_ => bad!("query-limits", "limits of {asset:?} for {inv:?} of DID {did} are said to be {got:?}, are {lo} and {hi}"),
			}
			o.hit(&[Q], if p.st == St::Auction { "limits-in-auction" } else { "limits-in-community-round" });
			if spent > 0 && max < all {
				o.hit(&[Q], "limits-after-participation");
			}
		},
		9 => {
			let who = Acc(r.range128(1, USERS));
			let delta = *r.pick(&[0, 1, 7200, 7200 * 7, 7200 * 100, u64::MAX]) as u128;
			// a few more schedules, of which some have not begun, for the time of the question
			let more: Vec<(u128, u128, u64)> = (0..r.below(4))
				.map(|_| {
					let per = PLMC * r.range128(1, 4);
					(per * r.range128(1, 40), per, (now + r.below(60)).saturating_sub(r.below(60)).max(1))
				})
				.collect();
			let room = <Balances as frame_support::traits::fungible::InspectHold<Acc>>::can_hold(vested, &who, more.iter().map(|x| x.0).sum());
			let full = m.sched.get(&who).map_or(0, |v| v.len()) + more.len() > 90;
			let more = if room && !full { more } else { vec![] };
			let got = get!(frame_support::storage::with_transaction_unchecked(|| {
				for (l, per, start) in &more {
					<Balances as frame_support::traits::fungible::MutateHold<Acc>>::hold(vested, &who, *l).expect("there is room");
					<LinearRelease as polimec_common::ReleaseSchedule<Acc, RuntimeHoldReason>>::add_release_schedule(&who, *l, *per, *start, *vested).expect("a valid schedule");
				}
				let got = PolimecFunding::get_next_vesting_schedule_merge_candidates(who, vested.clone(), delta);
				sp_runtime::TransactionOutcome::Rollback(got)
			}));
			let s: Vec<(bool, u128)> = m
				.sched
				.get(&who)
				.into_iter()
				.flatten()
				.chain(&more)
				.map(|(l, per, start)| (*start <= now, *start as u128 + l.div_ceil((*per).max(1))))
				.collect();
			if s.iter().any(|x| !x.0) && s.iter().any(|x| x.0) {
				o.hit(&[Q], "merge-with-future-schedules");
			}
			let good = |i: usize, j: usize| i != j && s[i].0 && s[j].0 && s[i].1.abs_diff(s[j].1) <= delta;
			let n = s.len();
			let any = (0..n).any(|i| (0..n).any(|j| good(i, j)));
			match got {
				None if any => bad!("query-merge", "{who:?} is said to have no schedules to merge within {delta}, has {s:?}"),
				Some((i, j)) if (i as usize) >= n || (j as usize) >= n || !good(i as usize, j as usize) => bad!("query-merge", "{who:?} is told to merge {i} and {j} within {delta} of {s:?}"),
				None if n > 1 => o.hit(&[Q], "no-merge"),
				Some(_) => o.hit(&[Q], "merge"),
				_ => {},
			}
		},
		10 => {
			let did = r.range(1, 7) as u8;
			let got = get!(PolimecFunding::all_project_participations_by_did(pid, did_bytes(did)));
			let got: Vec<(Acc, Vec<u32>, Vec<u32>, Vec<u32>)> = Decode::decode(&mut &got.encode()[..]).unwrap();
			let mut want: BTreeMap<Acc, [Vec<u32>; 3]> = BTreeMap::new();
			for e in p.evals.iter().filter(|e| e.did == did) {
				want.entry(e.who).or_default()[0].push(e.id);
			}
			for e in p.bids.iter().filter(|e| e.did == did) {
				want.entry(e.who).or_default()[1].push(e.id);
			}
			for e in p.cons.iter().filter(|e| e.did == did) {
				want.entry(e.who).or_default()[2].push(e.id);
			}
			let mut have: BTreeMap<Acc, [Vec<u32>; 3]> = BTreeMap::new();
			for (a, x, y, z) in &got {
				have.insert(*a, [x.clone(), y.clone(), z.clone()]);
			}
			for v in want.values_mut().chain(have.values_mut()).flatten() {
				v.sort();
			}
			if have != want || have.len() != got.len() {
				bad!("query-participations", "DID {did} is said to have {got:?}, has {want:?}");
			}
			if !want.is_empty() {
				o.hit(&[Q], if want.len() > 1 { "participations-of-two-accounts" } else { "participations" });
			}
		},
		_ => {
			let x = get!(PolimecFunding::usd_target_percent_reached(pid)).into_inner();
			let want = muldiv(p.reached, 10u128.pow(18), p.target);
			if !near(x, want, 1) {
				bad!("query-share", "{x} of the target is said to be reached, {want} is");
			}
			let did = r.range(1, 7) as u8;
			let mut got = get!(PolimecFunding::projects_by_did(did_bytes(did)));
			got.sort();
			let want: Vec<u32> = live.iter().copied().filter(|i| m.ps[i].did == did).collect();
			if got != want {
				bad!("query-projects", "DID {did} is said to have issued {got:?}, issued {want:?}");
			}
			if p.reached > 0 {
				o.hit(&[Q], "share-of-target");
			}
			if want.len() > 1 {
				o.hit(&[Q], "projects-of-did");
			}
		},
	}
}
