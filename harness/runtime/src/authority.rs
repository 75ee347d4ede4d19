//! C50: which calls pass the runtime's filters, and on whose behalf.
use crate::{
	acc, calls, poly,
	env::Named,
	rt::{OriginCaller, Runtime},
};
use frame_support::traits::{Contains, InstanceFilter, PrivilegeCmp};
use mon::*;
use poly::{w_frame_system::BaseCallFilter, w_pallet_proxy::ProxyType, w_pallet_scheduler::OriginPrivilegeCmp};
use std::cmp::Ordering;

const P: &[&str] = &["C50"];
/// The funding calls that are open to the public.
const OPEN: &[&str] = &[
	"create_project", "remove_project", "edit_project", "start_evaluation", "evaluate", "end_evaluation", "bid", "end_auction", "contribute",
	"end_funding", "start_settlement", "settle_evaluation", "settle_bid", "settle_contribution", "mark_project_as_settled",
	"start_offchain_migration", "confirm_offchain_migration", "mark_project_ct_migration_as_finished",
];
const TYPES: [ProxyType; 5] = [ProxyType::Any, ProxyType::NonTransfer, ProxyType::Governance, ProxyType::Staking, ProxyType::IdentityJudgement];

fn allowed(t: ProxyType, n: &Named) -> bool {
	let governs = || match n.path {
		"pallet_treasury" | "pallet_democracy" | "pallet_elections_phragmen" | "pallet_preimage" | "pallet_scheduler" | "pallet_collective" => true,
		_ => false,
	};
	match t {
		ProxyType::Any => true,
		ProxyType::Governance => governs(),
		ProxyType::Staking => n.path == "pallet_parachain_staking",
		ProxyType::IdentityJudgement => n.path == "pallet_identity" && n.call == "provide_judgement",
		ProxyType::NonTransfer =>
			governs() ||
				matches!(
					n.path,
					"frame_system" |
						"cumulus_pallet_parachain_system" |
						"pallet_timestamp" | "pallet_utility" |
						"pallet_multisig" | "pallet_proxy" |
						"pallet_parachain_staking" |
						"orml_oracle" | "pallet_membership"
				) || (n.path == "pallet_vesting" && matches!(n.call, "vest" | "vest_other")),
	}
}
fn origin(rng: &mut Rng) -> OriginCaller {
	let a = acc(rng.below(3) as u8);
	match rng.below(9) {
		0 | 1 => OriginCaller::system(frame_system::RawOrigin::Root),
		2 => OriginCaller::system(frame_system::RawOrigin::None),
		3 => OriginCaller::system(frame_system::RawOrigin::Signed(a)),
		4 => OriginCaller::Council(crate::collective::RawOrigin::Members(rng.below(3) as u32, rng.below(3) as u32)),
		5 => OriginCaller::Council(crate::collective::RawOrigin::Member(a)),
		6 => OriginCaller::TechnicalCommittee(crate::collective::RawOrigin::Members(rng.below(3) as u32, rng.below(3) as u32)),
		7 => OriginCaller::TechnicalCommittee(crate::collective::RawOrigin::Member(a)),
		_ => OriginCaller::PolkadotXcmPallet(pxcm::Origin::Xcm(xcm::v4::Location::parent())),
	}
}

pub fn history(seed: u64, o: &mut Obs) {
	let _ = core::marker::PhantomData::<Runtime>;
	let mut rng = Rng::new(seed);
	let samples = calls::samples(&mut rng);
	for (n, c) in &samples {
		if o.stop() {
			return
		}
		let want = n.path != "pallet_funding" || OPEN.contains(&n.call);
		let got = <BaseCallFilter as Contains<calls::RuntimeCall>>::contains(c);
		o.hit(P, "base-filter");
		o.count(&format!("call:{}", n.pallet));
		if got != want {
			o.violate(P, "base-filter", || format!("{}::{} is {}", n.pallet, n.call, if got { "open" } else { "filtered" }));
		}
		for t in TYPES {
			let got = t.filter(c);
			o.hit(P, "proxy-type");
			if got != allowed(t, n) {
				o.violate(P, "proxy-type", || format!("a {t:?} proxy {} {}::{}", if got { "may use" } else { "may not use" }, n.pallet, n.call));
			}
		}
		o.state(hash_str(&format!("{n:?}")));
	}
	for t in TYPES {
		for u in TYPES {
			o.hit(P, "proxy-superset");
			if t.is_superset(&u) {
				if let Some((n, _)) = samples.iter().find(|(_, c)| u.filter(c) && !t.filter(c)) {
					o.violate(P, "proxy-superset", || {
						format!("a {t:?} proxy may hand out a {u:?} proxy, which may use {}::{} as it may not itself", n.pallet, n.call)
					});
				}
			}
			if t == u && !t.is_superset(&u) {
				o.violate(P, "proxy-own-kind", || format!("a {t:?} proxy may not undo a {u:?} proxy"));
			}
		}
	}
	if ProxyType::default() != ProxyType::Any || TYPES.iter().any(|u| !ProxyType::Any.is_superset(u)) {
		o.violate(P, "proxy-any", || "the default proxy is not the one that may do everything".into());
	}
	chains(o, &mut rng, &samples);
	for _ in 0..60 {
		let (l, r) = (origin(&mut rng), if rng.chance(1, 5) { None } else { Some(origin(&mut rng)) });
		let r = r.unwrap_or_else(|| l.clone());
		let got = <OriginPrivilegeCmp as PrivilegeCmp<OriginCaller>>::cmp_privilege(&l, &r);
		let root = |x: &OriginCaller| *x == OriginCaller::system(frame_system::RawOrigin::Root);
		o.hit(P, "privilege");
		let ok = if l == r {
			got == Some(Ordering::Equal)
		} else if root(&l) {
			got == Some(Ordering::Greater)
		} else {
			// `Less` would do for what is below Root
			got.is_none() || (root(&r) && got == Some(Ordering::Less))
		};
		if !ok {
			o.violate(P, "privilege", || format!("{l:?} against {r:?}: {got:?}"));
		}
	}
}

/// One account's proxies, changed by itself and by its proxies under the rule of pallet-proxy.
fn chains(o: &mut Obs, rng: &mut Rng, samples: &[(Named, calls::RuntimeCall)]) {
	let find = |name: &str| samples.iter().find(|(n, _)| n.path == "pallet_proxy" && n.call == name).map(|(_, c)| c);
	let (Some(add), Some(remove)) = (find("add_proxy"), find("remove_proxy")) else {
		return o.inconclusive("the runtime has no pallet-proxy".into())
	};
	for _ in 0..6 {
		// who holds which proxy, and the grants of the owner it goes back to
		let mut held: Vec<(u8, ProxyType, usize)> = vec![];
		let mut grants: Vec<ProxyType> = vec![];
		for _ in 0..rng.range(3, 14) {
			let to = rng.below(5) as u8;
			let t = *rng.pick(&TYPES);
			if held.is_empty() || rng.chance(1, 4) {
				o.op(|| format!("the owner makes {to} its {t:?} proxy"));
				grants.push(t);
				held.push((to, t, grants.len() - 1));
				continue
			}
			let k = rng.below(held.len() as u64) as usize;
			let (d, dt, root) = held[k];
			match rng.below(3) {
				0 => {
					// `proxy(owner, add_proxy(to, t))`
					if dt.is_superset(&t) && dt.filter(add) {
						o.op(|| format!("{d} as {dt:?} proxy makes {to} a {t:?} proxy"));
						held.push((to, t, root));
					}
				},
				1 => {
					let j = rng.below(held.len() as u64) as usize;
					if dt.is_superset(&held[j].1) && dt.filter(remove) {
						held.remove(j);
					}
				},
				_ => {
					let (n, c) = rng.pick(samples);
					let nested = n.path == "pallet_proxy";
					if !nested && dt.filter(c) {
						o.hit(P, "delegation-chain");
						if !grants[root].filter(c) {
							o.violate(P, "delegation-chain", || {
								format!("{d} uses {}::{} for the owner, who granted a {:?} proxy only", n.pallet, n.call, grants[root])
							});
						}
					}
				},
			}
		}
	}
}
