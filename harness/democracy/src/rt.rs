//! The runtime the monitors observe: the real pallet-democracy from /repo, over the real
//! balances, preimage and scheduler pallets, plus a recorder pallet whose only call notes that
//! (and as whom, and when) it was dispatched.
use frame_support::{
	derive_impl, ord_parameter_types, parameter_types,
	traits::{
		fungible::{Balanced, Credit},
		ConstU32, EqualPrivilegeOnly, OnUnbalanced, SortedMembers,
	},
	weights::Weight,
};
use frame_system::{EnsureRoot, EnsureSigned, EnsureSignedBy};
use sp_runtime::{traits::IdentityLookup, BuildStorage};

pub const SINK: u64 = 99;
pub const EXT: u64 = 11;
pub const MAJ: u64 = 12;
pub const DEF: u64 = 13;
pub const FAST: u64 = 14;
pub const INSTANT: u64 = 15;
pub const CANCEL: u64 = 16;
pub const BLACK: u64 = 17;
pub const CANCELPROP: u64 = 18;
pub const VETOERS: [u64; 4] = [21, 22, 23, 24];
pub const USERS: u64 = 8;

#[frame_support::pallet(dev_mode)]
pub mod recorder {
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;

	thread_local! {
		pub static LOG: std::cell::RefCell<Vec<(u32, bool)>> = const { std::cell::RefCell::new(vec![]) };
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config {}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn note(origin: OriginFor<T>, tag: u32, _pad: Vec<u8>) -> DispatchResult {
			let root = ensure_root(origin).is_ok();
			LOG.with(|l| l.borrow_mut().push((tag, root)));
			Ok(())
		}
	}
}

type Block = frame_system::mocking::MockBlock<Test>;

frame_support::construct_runtime!(
	pub enum Test
	{
		System: frame_system,
		Balances: pallet_balances,
		Preimage: pallet_preimage,
		Scheduler: pallet_scheduler,
		Democracy: pallet_democracy,
		Recorder: recorder,
	}
);

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = u64;
	type Block = Block;
	type Lookup = IdentityLookup<Self::AccountId>;
	type MaxConsumers = ConstU32<64>;
}

impl recorder::Config for Test {}

impl pallet_preimage::Config for Test {
	type Consideration = ();
	type Currency = Balances;
	type ManagerOrigin = EnsureRoot<u64>;
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
}

parameter_types! {
	pub MaximumSchedulerWeight: Weight = Weight::MAX;
}

impl pallet_scheduler::Config for Test {
	type MaxScheduledPerBlock = ConstU32<500>;
	type MaximumWeight = MaximumSchedulerWeight;
	type OriginPrivilegeCmp = EqualPrivilegeOnly;
	type PalletsOrigin = OriginCaller;
	type Preimages = Preimage;
	type RuntimeCall = RuntimeCall;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeOrigin = RuntimeOrigin;
	type ScheduleOrigin = EnsureRoot<u64>;
	type WeightInfo = ();
}

parameter_types! {
	pub const Ed: u128 = 1;
}

impl pallet_balances::Config for Test {
	type AccountStore = System;
	type Balance = u128;
	type DustRemoval = ();
	type ExistentialDeposit = Ed;
	type FreezeIdentifier = RuntimeFreezeReason;
	type MaxFreezes = ConstU32<10>;
	type MaxLocks = ConstU32<10>;
	type MaxReserves = ();
	type ReserveIdentifier = [u8; 8];
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
}

parameter_types! {
	pub static InstantAllowed: bool = false;
	pub static EnactmentPeriod: u64 = 2;
	pub static LaunchPeriod: u64 = 2;
	pub static VotingPeriod: u64 = 2;
	pub static VoteLockingPeriod: u64 = 3;
	pub static FastTrackVotingPeriod: u64 = 2;
	pub static CooloffPeriod: u64 = 2;
	pub static MinimumDeposit: u128 = 1;
	pub static MaxVotes: u32 = 5;
	pub static MaxProposals: u32 = 4;
	pub static MaxDeposits: u32 = 4;
	pub static MaxBlacklisted: u32 = 2;
	/// 0 means "the total issuance".
	pub static FixedElectorate: u128 = 0;
}
ord_parameter_types! {
	pub const AExt: u64 = EXT;
	pub const AMaj: u64 = MAJ;
	pub const ADef: u64 = DEF;
	pub const AFast: u64 = FAST;
	pub const AInstant: u64 = INSTANT;
	pub const ACancel: u64 = CANCEL;
	pub const ABlack: u64 = BLACK;
	pub const ACancelProp: u64 = CANCELPROP;
}
pub struct Vetoers;
impl SortedMembers<u64> for Vetoers {
	fn sorted_members() -> Vec<u64> {
		VETOERS.to_vec()
	}
}

pub struct Electorate;
impl pallet_democracy::GetElectorate<u128> for Electorate {
	fn get_electorate() -> u128 {
		match FixedElectorate::get() {
			0 => Balances::total_issuance(),
			x => x,
		}
	}
}

pub struct ToSink;
impl OnUnbalanced<Credit<u64, Balances>> for ToSink {
	fn on_nonzero_unbalanced(c: Credit<u64, Balances>) {
		let _ = Balances::resolve(&SINK, c);
	}
}

impl pallet_democracy::Config for Test {
	type BlacklistOrigin = EnsureSignedBy<ABlack, u64>;
	type CancelProposalOrigin = EnsureSignedBy<ACancelProp, u64>;
	type CancellationOrigin = EnsureSignedBy<ACancel, u64>;
	type CooloffPeriod = CooloffPeriod;
	type Electorate = Electorate;
	type EnactmentPeriod = EnactmentPeriod;
	type ExternalDefaultOrigin = EnsureSignedBy<ADef, u64>;
	type ExternalMajorityOrigin = EnsureSignedBy<AMaj, u64>;
	type ExternalOrigin = EnsureSignedBy<AExt, u64>;
	type FastTrackOrigin = EnsureSignedBy<AFast, u64>;
	type FastTrackVotingPeriod = FastTrackVotingPeriod;
	type Fungible = Balances;
	type InstantAllowed = InstantAllowed;
	type InstantOrigin = EnsureSignedBy<AInstant, u64>;
	type LaunchPeriod = LaunchPeriod;
	type MaxBlacklisted = MaxBlacklisted;
	type MaxDeposits = MaxDeposits;
	type MaxProposals = MaxProposals;
	type MaxVotes = MaxVotes;
	type MinimumDeposit = MinimumDeposit;
	type PalletsOrigin = OriginCaller;
	type Preimages = Preimage;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type Scheduler = Scheduler;
	type Slash = ToSink;
	type SubmitOrigin = EnsureSigned<Self::AccountId>;
	type VetoOrigin = EnsureSignedBy<Vetoers, u64>;
	type VoteLockingPeriod = VoteLockingPeriod;
	type VotingPeriod = VotingPeriod;
	type WeightInfo = ();
}

pub fn new_ext(balances: Vec<(u64, u128)>) -> sp_io::TestExternalities {
	let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Test> { balances }.assimilate_storage(&mut t).unwrap();
	pallet_democracy::GenesisConfig::<Test>::default().assimilate_storage(&mut t).unwrap();
	let mut ext = sp_io::TestExternalities::new(t);
	ext.execute_with(|| System::set_block_number(1));
	ext
}
