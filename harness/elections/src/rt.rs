//! The real pallet-elections-phragmen over the real balances pallet; the body that receives
//! membership changes only records what it is told.
use frame_support::{
	derive_impl, parameter_types,
	traits::{
		fungible::{Balanced, Credit},
		ChangeMembers, ConstU32, InitializeMembers, OnUnbalanced,
	},
};
use sp_runtime::{traits::IdentityLookup, BuildStorage};
use std::cell::RefCell;

pub const SINK: u64 = 900;

type Block = frame_system::mocking::MockBlock<Test>;

frame_support::construct_runtime!(
	pub enum Test
	{
		System: frame_system,
		Balances: pallet_balances,
		Elections: pallet_elections_phragmen,
	}
);

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = u64;
	type Block = Block;
	type Lookup = IdentityLookup<Self::AccountId>;
	type MaxConsumers = ConstU32<64>;
}

parameter_types! {
	pub static Ed: u128 = 1;
	pub static CandidacyBond: u128 = 3;
	pub static DesiredMembers: u32 = 2;
	pub static DesiredRunnersUp: u32 = 0;
	pub static TermDuration: u64 = 5;
	pub static VotingLockPeriod: u64 = 2;
	pub static MaxCandidates: u32 = 100;
	pub static MaxVoters: u32 = 100;
	pub static MaxVotesPerVoter: u32 = 16;
	pub static Saturating: bool = false;
}

impl pallet_balances::Config for Test {
	type AccountStore = System;
	type Balance = u128;
	type DustRemoval = ();
	type ExistentialDeposit = Ed;
	type FreezeIdentifier = RuntimeFreezeReason;
	type MaxFreezes = ConstU32<10>;
	type MaxLocks = ConstU32<10>;
	type MaxReserves = ();
	type ReserveIdentifier = [u8; 8];
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Note {
	Init(Vec<u64>),
	Change { incoming: Vec<u64>, outgoing: Vec<u64>, new: Vec<u64> },
	Prime(Option<u64>),
}
thread_local! {
	pub static NOTES: RefCell<Vec<Note>> = const { RefCell::new(vec![]) };
	pub static PRIME: RefCell<Option<u64>> = const { RefCell::new(None) };
}
pub struct Council;
impl ChangeMembers<u64> for Council {
	fn change_members_sorted(incoming: &[u64], outgoing: &[u64], new: &[u64]) {
		NOTES.with(|n| {
			n.borrow_mut().push(Note::Change { incoming: incoming.to_vec(), outgoing: outgoing.to_vec(), new: new.to_vec() })
		});
		// as pallet-collective: a change of members clears the prime
		PRIME.with(|p| *p.borrow_mut() = None);
	}
	fn set_prime(who: Option<u64>) {
		NOTES.with(|n| n.borrow_mut().push(Note::Prime(who)));
		PRIME.with(|p| *p.borrow_mut() = who);
	}
	fn get_prime() -> Option<u64> {
		PRIME.with(|p| *p.borrow())
	}
}
impl InitializeMembers<u64> for Council {
	fn initialize_members(m: &[u64]) {
		NOTES.with(|n| n.borrow_mut().push(Note::Init(m.to_vec())));
	}
}

pub struct ToVote;
impl sp_staking::currency_to_vote::CurrencyToVote<u128> for ToVote {
	fn to_vote(v: u128, issuance: u128) -> u64 {
		if Saturating::get() {
			sp_staking::currency_to_vote::SaturatingCurrencyToVote::to_vote(v, issuance)
		} else {
			sp_staking::currency_to_vote::U128CurrencyToVote::to_vote(v, issuance)
		}
	}
	fn to_currency(v: u128, issuance: u128) -> u128 {
		if Saturating::get() {
			sp_staking::currency_to_vote::SaturatingCurrencyToVote::to_currency(v, issuance)
		} else {
			sp_staking::currency_to_vote::U128CurrencyToVote::to_currency(v, issuance)
		}
	}
}

pub struct ToSink;
impl OnUnbalanced<Credit<u64, Balances>> for ToSink {
	fn on_nonzero_unbalanced(c: Credit<u64, Balances>) {
		let _ = Balances::resolve(&SINK, c);
	}
}

impl pallet_elections_phragmen::Config for Test {
	type Balance = u128;
	type CandidacyBond = CandidacyBond;
	type ChangeMembers = Council;
	type Currency = Balances;
	type CurrencyToVote = ToVote;
	type DesiredMembers = DesiredMembers;
	type DesiredRunnersUp = DesiredRunnersUp;
	type InitializeMembers = Council;
	type LoserCandidate = ToSink;
	type MaxCandidates = MaxCandidates;
	type MaxVoters = MaxVoters;
	type MaxVotesPerVoter = MaxVotesPerVoter;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type TermDuration = TermDuration;
	type VotingLockPeriod = VotingLockPeriod;
	type WeightInfo = ();
}

pub fn new_ext(balances: Vec<(u64, u128)>, members: Vec<(u64, u128)>) -> sp_io::TestExternalities {
	NOTES.with(|n| n.borrow_mut().clear());
	PRIME.with(|p| *p.borrow_mut() = None);
	let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Test> { balances }.assimilate_storage(&mut t).unwrap();
	pallet_elections_phragmen::GenesisConfig::<Test> { members }.assimilate_storage(&mut t).unwrap();
	sp_io::TestExternalities::new(t)
}
