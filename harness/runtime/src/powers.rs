//! C52: who holds which power of the runtime.
use crate::{
	acc, growth, operations, poly,
	rt::{OriginCaller, RuntimeOrigin},
};
use frame_support::traits::{EnsureOrigin, EnsureOriginWithArg};
use frame_system::RawOrigin;
use mon::*;
use parachains_common::AccountId;
use poly::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

const P: &[&str] = &["C52"];
type Members = crate::collective::RawOrigin<AccountId, frame_support::instances::Instance1>;
type Experts = crate::collective::RawOrigin<AccountId, frame_support::instances::Instance2>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Body {
	Council,
	Technical,
}
use Body::*;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Who {
	Root,
	Nobody,
	/// n of d of a body in a motion
	Motion(Body, u32, u32),
	RootOr(Body, u32, u32),
	Member(Body),
	Signed,
	RootOrSigned,
	/// one account
	Only([u8; 32]),
}
const DISPENSER_ADMIN: [u8; 32] = [
	0xd8, 0x5a, 0x4f, 0x58, 0xeb, 0x7d, 0xba, 0x17, 0xbc, 0x43, 0x6b, 0x16, 0xf3, 0x94, 0xb2, 0x42, 0x27, 0x12, 0x37, 0x02, 0x1f, 0x78, 0x80,
	0xe1, 0xcc, 0xaf, 0x36, 0xcd, 0x9a, 0x61, 0x6c, 0x99,
];

fn has<E: EnsureOrigin<RuntimeOrigin>>(o: &OriginCaller) -> bool {
	E::try_origin(o.clone().into()).is_ok()
}
fn may<E: EnsureOriginWithArg<RuntimeOrigin, u32>>(o: &OriginCaller, id: u32) -> bool {
	E::try_origin(o.clone().into(), &id).is_ok()
}
type Power = (&'static str, Who, fn(&OriginCaller, u32) -> bool);
fn powers() -> Vec<Power> {
	use xcm_config::w_pallet_xcm as x;
	vec![
		("set an external referendum", Who::Motion(Council, 1, 2), |o, _| has::<w_pallet_democracy::ExternalOrigin>(o)),
		("set a majority-carries referendum", Who::Motion(Council, 3, 5), |o, _| has::<w_pallet_democracy::ExternalMajorityOrigin>(o)),
		("set a default-carries referendum", Who::Motion(Council, 1, 1), |o, _| has::<w_pallet_democracy::ExternalDefaultOrigin>(o)),
		("cancel a referendum", Who::Motion(Council, 2, 3), |o, _| has::<w_pallet_democracy::CancellationOrigin>(o)),
		("fast-track", Who::Motion(Technical, 3, 5), |o, _| has::<w_pallet_democracy::FastTrackOrigin>(o)),
		("fast-track at once", Who::Motion(Technical, 1, 1), |o, _| has::<w_pallet_democracy::InstantOrigin>(o)),
		("cancel a proposal", Who::RootOr(Technical, 1, 1), |o, _| has::<w_pallet_democracy::CancelProposalOrigin>(o)),
		("veto", Who::Member(Technical), |o, _| has::<w_pallet_democracy::VetoOrigin>(o)),
		("blacklist", Who::Root, |o, _| has::<w_pallet_democracy::BlacklistOrigin>(o)),
		("propose a referendum", Who::Signed, |o, _| has::<w_pallet_democracy::SubmitOrigin>(o)),
		("approve a treasury proposal", Who::RootOr(Council, 1, 1), |o, _| has::<w_pallet_treasury::ApproveOrigin>(o)),
		("reject a treasury proposal", Who::RootOr(Council, 1, 2), |o, _| has::<w_pallet_treasury::RejectOrigin>(o)),
		("spend from the treasury", Who::Nobody, |o, _| has::<w_pallet_treasury::SpendOrigin>(o)),
		("set the council", Who::Root, |o, _| has::<w_pallet_collective_1::SetMembersOrigin>(o)),
		("set the technical committee", Who::Root, |o, _| has::<w_pallet_collective_2::SetMembersOrigin>(o)),
		("schedule a call", Who::Root, |o, _| has::<w_pallet_scheduler::ScheduleOrigin>(o)),
		("manage preimages", Who::Root, |o, _| has::<w_pallet_preimage::ManagerOrigin>(o)),
		("set inflation and commission", Who::Root, |o, _| has::<w_pallet_parachain_staking::MonetaryGovernanceOrigin>(o)),
		("add an oracle member", Who::Root, |o, _| has::<w_pallet_membership_1::AddOrigin>(o)),
		("remove an oracle member", Who::Root, |o, _| has::<w_pallet_membership_1::RemoveOrigin>(o)),
		("swap oracle members", Who::Root, |o, _| has::<w_pallet_membership_1::SwapOrigin>(o)),
		("reset the oracle members", Who::Root, |o, _| has::<w_pallet_membership_1::ResetOrigin>(o)),
		("choose a prime oracle member", Who::Root, |o, _| has::<w_pallet_membership_1::PrimeOrigin>(o)),
		("force identities", Who::Root, |o, _| has::<w_pallet_identity::ForceOrigin>(o)),
		("appoint registrars", Who::Root, |o, _| has::<w_pallet_identity::RegistrarOrigin>(o)),
		("grant usernames", Who::Nobody, |o, _| has::<w_pallet_identity::UsernameAuthorityOrigin>(o)),
		("set the dispensed amount", Who::Only(DISPENSER_ADMIN), |o, _| has::<w_pallet_dispenser::AdminOrigin>(o)),
		("control the message queues", Who::Root, |o, _| has::<w_cumulus_pallet_xcmp_queue::ControllerOrigin>(o)),
		("administer XCM", Who::Root, |o, _| has::<x::AdminOrigin>(o)),
		("send raw messages", Who::Root, |o, _| has::<x::SendXcmOrigin>(o)),
		("transfer to other chains", Who::RootOrSigned, |o, _| has::<x::ExecuteXcmOrigin>(o)),
		("create a foreign asset", Who::Root, |o, i| may::<w_pallet_assets_2::CreateOrigin>(o, i)),
		("force a foreign asset", Who::Root, |o, _| has::<w_pallet_assets_2::ForceOrigin>(o)),
		("create a contribution token", Who::Root, |o, i| may::<w_pallet_assets_1::CreateOrigin>(o, i)),
		("force a contribution token", Who::Root, |o, _| has::<w_pallet_assets_1::ForceOrigin>(o)),
	]
}
fn granted(w: Who, o: &OriginCaller) -> bool {
	let root = *o == OriginCaller::system(RawOrigin::Root);
	let motion = |b: Body, n: u32, d: u32| match o {
		OriginCaller::Council(Members::Members(m, t)) => b == Council && m * d >= n * t,
		OriginCaller::TechnicalCommittee(Experts::Members(m, t)) => b == Technical && m * d >= n * t,
		_ => false,
	};
	let signer = match o {
		OriginCaller::system(RawOrigin::Signed(a)) => Some(a),
		_ => None,
	};
	match w {
		Who::Root => root,
		Who::Nobody => false,
		Who::Motion(b, n, d) => motion(b, n, d),
		Who::RootOr(b, n, d) => root || motion(b, n, d),
		Who::Member(b) => match o {
			OriginCaller::Council(Members::Member(_)) => b == Council,
			OriginCaller::TechnicalCommittee(Experts::Member(_)) => b == Technical,
			_ => false,
		},
		Who::Signed => signer.is_some(),
		Who::RootOrSigned => root || signer.is_some(),
		Who::Only(x) => signer == Some(&AccountId::new(x)),
	}
}

fn account(rng: &mut Rng) -> AccountId {
	match rng.below(8) {
		0 => AccountId::new(DISPENSER_ADMIN),
		1 => AccountId::new([0xff; 32]),
		2 => AccountId::new([0; 32]),
		3 => growth(),
		4 => operations(),
		_ => acc(rng.range(1, 6) as u8),
	}
}
fn origin(rng: &mut Rng) -> OriginCaller {
	let a = account(rng);
	// votes of a body: anything, and what is just enough or just short of it
	let total = rng.range(1, 20) as u32;
	let ayes = match rng.below(3) {
		0 => rng.below(total as u64 + 1) as u32,
		1 => total - rng.below(total.min(3) as u64) as u32,
		_ => {
			let (n, d) = *rng.pick(&[(1, 2), (3, 5), (2, 3), (1, 3), (3, 4)]);
			(total * n).div_ceil(d) - rng.below(2) as u32
		},
	};
	let place = match rng.below(3) {
		0 => xcm::v4::Location::parent(),
		1 => xcm::v4::Location::here(),
		_ => xcm::v4::Location::new(1, [xcm::v4::Junction::Parachain(1000)]),
	};
	match rng.below(12) {
		0 => OriginCaller::system(RawOrigin::Root),
		1 => OriginCaller::system(RawOrigin::None),
		2 | 3 => OriginCaller::system(RawOrigin::Signed(a)),
		4..=6 => OriginCaller::Council(Members::Members(ayes, total)),
		7 | 8 => OriginCaller::TechnicalCommittee(Experts::Members(ayes, total)),
		9 => OriginCaller::Council(Members::Member(a)),
		10 => OriginCaller::TechnicalCommittee(Experts::Member(a)),
		_ => OriginCaller::PolkadotXcmPallet(if rng.chance(1, 2) { pxcm::Origin::Xcm(place) } else { pxcm::Origin::Response(place) }),
	}
}

pub fn history(seed: u64, o: &mut Obs) {
	let mut rng = Rng::new(seed);
	let all = powers();
	for _ in 0..150 {
		if o.stop() {
			return
		}
		let who = origin(&mut rng);
		let id = if rng.chance(1, 2) { rng.below(4) as u32 } else { *rng.pick(&[10, 1337, 1984, 3344, u32::MAX]) };
		o.op(|| format!("{who:?} tries everything (asset {id})"));
		let mut held = vec![];
		for (what, meant, has) in &all {
			let got = match catch_unwind(AssertUnwindSafe(|| has(&who, id))) {
				Ok(g) => g,
				Err(_) => {
					o.violate(P, "panic", || format!("{who:?}, to {what}: panicked"));
					continue
				},
			};
			let want = granted(*meant, &who);
			o.hit(P, if want { "power-granted" } else { "power-denied" });
			match meant {
				Who::Motion(..) | Who::RootOr(..) => o.hit(P, if want { "share-reached" } else { "share-missed" }),
				Who::Member(_) if want => o.hit(P, "member-alone"),
				Who::Only(_) if want => o.hit(P, "single-admin"),
				_ => {},
			}
			if want {
				held.push(*what);
			}
			if got != want {
				o.violate(P, if want { "withheld" } else { "usurped" }, || format!("{who:?} {} {what}", if got { "may" } else { "may not" }));
			}
		}
		o.state(hash_str(&format!("{who:?} {held:?}")));
	}
}
