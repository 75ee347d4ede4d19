#![allow(unused_imports, dead_code)]
mod rt;
use frame_support::{
	assert_noop, assert_ok,
	traits::{
		fungible::{Inspect, InspectFreeze, InspectHold, Mutate, Unbalanced},
		Bounded, Hooks, QueryPreimage, StorePreimage,
	},
};
use pallet_democracy::*;
use rt::*;
use sp_runtime::traits::Hash;

type E = pallet_democracy::Error<Test>;
fn sig(a: u64) -> RuntimeOrigin {
	RuntimeOrigin::signed(a)
}
fn call(tag: u32) -> BoundedCallOf<Test> {
	<Preimage as StorePreimage>::bound(RuntimeCall::Recorder(recorder::Call::note { tag, pad: vec![] })).unwrap()
}
fn big_call(tag: u32) -> BoundedCallOf<Test> {
	<Preimage as StorePreimage>::bound(RuntimeCall::Recorder(recorder::Call::note { tag, pad: vec![7; 300] })).unwrap()
}
fn log() -> Vec<(u32, bool)> {
	recorder::LOG.with(|l| l.borrow().clone())
}
fn to_block(n: u64) {
	while System::block_number() < n {
		let b = System::block_number() + 1;
		System::set_block_number(b);
		Scheduler::on_initialize(b);
		Democracy::on_initialize(b);
	}
}
fn std_vote(aye: bool, conviction: Conviction, balance: u128) -> AccountVote<u128> {
	AccountVote::Standard { vote: Vote { aye, conviction }, balance }
}
fn tally(i: u32) -> Tally<u128> {
	match Democracy::referendum_info(i) {
		Some(ReferendumInfo::Ongoing(s)) => s.tally,
		x => panic!("referendum {i} is not ongoing: {x:?}"),
	}
}
fn finished(i: u32) -> Option<bool> {
	match Democracy::referendum_info(i) {
		Some(ReferendumInfo::Finished { approved, .. }) => Some(approved),
		_ => None,
	}
}
fn frozen(a: u64) -> u128 {
	<Balances as InspectFreeze<u64>>::balance_frozen(&FreezeReason::Vote.into(), &a)
}
fn held(a: u64) -> u128 {
	<Balances as InspectHold<u64>>::balance_on_hold(&HoldReason::Proposal.into(), &a)
}

fn main() {
	let balances = (1..=8).map(|a| (a, a as u128 * 1000)).chain([(SINK, 1000)]).collect();
	new_ext(balances).execute_with(|| {
@BODY@
	});
	println!("ok");
}
