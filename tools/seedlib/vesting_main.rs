#![allow(unused_imports, dead_code)]
mod rt;
use frame_support::{
	assert_ok,
	traits::{
		fungible::{BalancedHold, Inspect, InspectHold, Mutate, MutateHold},
		Currency, VestingSchedule,
	},
};
use on_slash_vesting::OnSlash;
use pallet_vesting::VestingInfo;
use rt::*;

fn schedules(a: u64) -> Vec<(u128, u128, u64)> {
	pallet_vesting::Vesting::<Test>::get(a)
		.map(|v| v.iter().map(|s| (s.locked(), s.per_block(), s.starting_block())).collect())
		.unwrap_or_default()
}
fn add(a: u64, locked: u128, per: u128, start: u64) {
	assert_ok!(Vesting::add_vesting_schedule(&a, locked, per, start));
}
fn lock(a: u64) -> u128 {
	Balances::locks(a).iter().filter(|l| l.id == *b"vesting ").map(|l| l.amount).sum()
}
fn slash(a: u64, x: u128) {
	<Vesting as OnSlash<u64, u128>>::on_slash(&a, x);
}

fn main() {
	new_ext((1..=5).map(|a| (a, a as u128 * 1000)).collect()).execute_with(|| {
@BODY@
	});
	println!("ok");
}
