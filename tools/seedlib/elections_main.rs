#![allow(unused_imports, dead_code)]
mod rt;
use frame_support::{
	assert_noop, assert_ok,
	traits::{
		fungible::{Inspect, InspectFreeze, InspectHold, Mutate},
		Hooks,
	},
};
use pallet_elections_phragmen::*;
use rt::*;

type E = pallet_elections_phragmen::Error<Test>;
fn sig(a: u64) -> RuntimeOrigin {
	RuntimeOrigin::signed(a)
}
fn to_block(n: u64) {
	while System::block_number() < n {
		let b = System::block_number() + 1;
		System::set_block_number(b);
		Elections::on_initialize(b);
	}
}
fn stand(a: u64) {
	assert_ok!(Elections::submit_candidacy(sig(a), Elections::candidates().len() as u32));
}
fn vote(a: u64, t: &[u64], v: u128) {
	assert_ok!(Elections::vote(sig(a), t.to_vec(), v));
}
fn held(a: u64) -> u128 {
	<Balances as InspectHold<u64>>::total_balance_on_hold(&a)
}
fn frozen(a: u64) -> u128 {
	<Balances as InspectFreeze<u64>>::balance_frozen(&FreezeReason::Voting.into(), &a)
}
fn members() -> Vec<u64> {
	Elections::members().into_iter().map(|m| m.who).collect()
}
fn runners() -> Vec<u64> {
	Elections::runners_up().into_iter().map(|m| m.who).collect()
}
fn notes() -> Vec<Note> {
	NOTES.with(|n| n.borrow().clone())
}
fn prime() -> Option<u64> {
	PRIME.with(|p| *p.borrow())
}

fn main() {
@SETUP@
	let balances = (1..=9).map(|a| (a, a as u128 * 100)).chain([(SINK, 1000)]).collect();
	new_ext(balances, vec![]).execute_with(|| {
		System::set_block_number(1);
@BODY@
	});
	println!("ok");
}
