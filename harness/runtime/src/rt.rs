//! A runtime with the pallets of polimec that can be built here, configured with the constants of
//! `shared_configuration` and the wiring `build.rs` took out of the polimec runtime.
use crate::{poly, txn};
use frame_support::{derive_impl, instances::*, parameter_types, traits::ConstU32, PalletId};
use frame_system::EnsureRoot;
use parachains_common::AccountId;
use polimec_common::{credentials::EnsureInvestor, PLMC_DECIMALS, PLMC_FOREIGN_ID, USD_DECIMALS, USD_UNIT};
use shared_configuration as sc;
use sp_arithmetic::{FixedU128, Perbill};
use sp_runtime::traits::{ConstU8, Convert, ConvertBack, ConvertInto};
use std::{cell::RefCell, collections::BTreeMap, ops::RangeInclusive};
use xcm::v4::{Assets, Location, SendError, SendResult, SendXcm, Xcm, XcmHash};

frame_support::construct_runtime!(
	pub enum Runtime {
		System: frame_system = 0,
		Timestamp: pallet_timestamp = 2,
		Balances: pallet_balances = 10,
		Vesting: pallet_vesting = 12,
		ContributionTokens: mini_assets::<Instance1> = 13,
		ForeignAssets: mini_assets::<Instance2> = 14,
		ParachainStaking: pallet_parachain_staking = 25,
		PolkadotXcmPallet: pxcm = 31,
		CumulusXcm: cxcm = 32,
		Council: crate::collective::<Instance1> = 42,
		TechnicalCommittee: crate::collective::<Instance2> = 43,
		Funding: pallet_funding = 80,
		LinearRelease: pallet_linear_release = 81,
		ProxyBonding: pallet_proxy_bonding = 82,
		Dispenser: disp = 83,
		Work: crate::work = 84,
	}
);
use crate::txn::Block;

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Runtime {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = AccountId;
	type Block = Block;
	type BlockHashCount = txn::w_frame_system::BlockHashCount;
	type BlockLength = txn::w_frame_system::BlockLength;
	type BlockWeights = txn::w_frame_system::BlockWeights;
	type Hash = sp_core::H256;
	type Hashing = sp_runtime::traits::BlakeTwo256;
	type Lookup = txn::w_frame_system::Lookup;
	type MaxConsumers = txn::w_frame_system::MaxConsumers;
	type Nonce = txn::w_frame_system::Nonce;
	type Version = txn::w_frame_system::Version;
}
impl crate::work::Config for Runtime {}
use txn::w_pallet_dispenser as d;
impl disp::Config for Runtime {
	type AdminOrigin = d::AdminOrigin;
	type BlockNumberToBalance = d::BlockNumberToBalance;
	type FreeDispenseAmount = d::FreeDispenseAmount;
	type InitialDispenseAmount = d::InitialDispenseAmount;
	type InvestorOrigin = d::InvestorOrigin;
	type LockPeriod = d::LockPeriod;
	type PalletId = d::PalletId;
	type RuntimeEvent = RuntimeEvent;
	type VerifierPublicKey = crate::txs::Verifier;
	type VestPeriod = d::VestPeriod;
	type VestingSchedule = d::VestingSchedule;
	type WeightInfo = ();
	type WhitelistedPolicy = d::WhitelistedPolicy;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Runtime {
	type AccountStore = System;
	type Balance = u128;
	type DustRemoval = poly::w_pallet_balances::DustRemoval;
	type ExistentialDeposit = poly::w_pallet_balances::ExistentialDeposit;
	type RuntimeHoldReason = RuntimeHoldReason;
}
impl pallet_timestamp::Config for Runtime {
	type Moment = u64;
}
impl pallet_authorship::Config for Runtime {}
impl pallet_session::Config for Runtime {}
impl mini_assets::Config<Instance1> for Runtime {}
impl mini_assets::Config<Instance2> for Runtime {}
impl crate::collective::Config<Instance1> for Runtime {}
impl crate::collective::Config<Instance2> for Runtime {}
impl cxcm::Config for Runtime {}

thread_local! {
	pub static PRICES: RefCell<BTreeMap<u32, FixedU128>> = RefCell::new(BTreeMap::new());
}
/// What the oracle holds.
pub struct Oracle;
impl orml_traits::DataProvider<u32, FixedU128> for Oracle {
	fn get(k: &u32) -> Option<FixedU128> {
		PRICES.with(|p| p.borrow().get(k).cloned())
	}
}
pub struct NoRouter;
impl SendXcm for NoRouter {
	type Ticket = ();
	fn validate(_: &mut Option<Location>, _: &mut Option<Xcm<()>>) -> SendResult<()> {
		Ok(((), Assets::new()))
	}
	fn deliver(_: ()) -> Result<XcmHash, SendError> {
		Ok([0; 32])
	}
}
impl pxcm::Config for Runtime {
	type RuntimeCall = RuntimeCall;
	type RuntimeOrigin = RuntimeOrigin;
	type XcmRouter = NoRouter;
}
impl pallet_vesting::Config for Runtime {
	type BlockNumberProvider = System;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = sc::vesting::MinVestedTransfer;
	type RuntimeEvent = RuntimeEvent;
	type UnvestedFundsAllowedWithdrawReasons = sc::vesting::UnvestedFundsAllowedWithdrawReasons;
	type WeightInfo = ();

	const MAX_VESTING_SCHEDULES: u32 = 12;
}
impl pallet_linear_release::Config for Runtime {
	type Balance = u128;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = sc::vesting::MinVestedTransfer;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type UnvestedFundsAllowedWithdrawReasons = sc::vesting::UnvestedFundsAllowedWithdrawReasons;
	type WeightInfo = ();

	const MAX_VESTING_SCHEDULES: u32 = 100;
}
impl pallet_parachain_staking::Config for Runtime {
	type Balance = u128;
	type CandidateBondLessDelay = sc::CandidateBondLessDelay;
	type Currency = Balances;
	type DelegationBondLessDelay = sc::DelegationBondLessDelay;
	type LeaveCandidatesDelay = sc::LeaveCandidatesDelay;
	type LeaveDelegatorsDelay = sc::LeaveDelegatorsDelay;
	type MaxBottomDelegationsPerCandidate = sc::MaxBottomDelegationsPerCandidate;
	type MaxDelegationsPerDelegator = sc::MaxDelegationsPerDelegator;
	type MaxTopDelegationsPerCandidate = sc::MaxTopDelegationsPerCandidate;
	type MinBlocksPerRound = sc::MinBlocksPerRound;
	type MinCandidateStk = sc::MinCandidateStk;
	type MinDelegation = sc::MinDelegation;
	type MinDelegatorStk = sc::MinDelegatorStk;
	type MinSelectedCandidates = sc::MinSelectedCandidates;
	type MonetaryGovernanceOrigin = EnsureRoot<AccountId>;
	type OnCollatorPayout = ();
	type OnNewRound = ();
	type PayMaster = poly::w_pallet_parachain_staking::PayMaster;
	type PayoutCollatorReward = ();
	type RevokeDelegationDelay = sc::RevokeDelegationDelay;
	type RewardPaymentDelay = sc::RewardPaymentDelay;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
}
pub struct Bytes;
impl Convert<AccountId, [u8; 32]> for Bytes {
	fn convert(a: AccountId) -> [u8; 32] {
		a.into()
	}
}
impl ConvertBack<AccountId, [u8; 32]> for Bytes {
	fn convert_back(b: [u8; 32]) -> AccountId {
		b.into()
	}
}
parameter_types! {
	pub CtTreasury: AccountId = AccountId::new([77; 32]);
	pub MaxMessageSizeThresholds: RangeInclusive<u32> = 50_000..=102_400;
	pub MaxCapacityThresholds: RangeInclusive<u32> = 8..=1000;
	pub const MinUsdPerEvaluation: u128 = 100 * USD_UNIT;
	pub FeePercentage: Perbill = Perbill::from_perthousand(75);
}
impl pallet_funding::Config for Runtime {
	type AccountId32Conversion = Bytes;
	type AllPalletsWithoutSystem = (Balances, Funding, LinearRelease);
	type AuctionRoundDuration = sc::AuctionRoundDuration;
	type BlockNumber = u32;
	type BlockchainOperationTreasury = poly::w_pallet_funding::BlockchainOperationTreasury;
	type CommunityRoundDuration = sc::CommunityRoundDuration;
	type ContributionTokenCurrency = ContributionTokens;
	type ContributionTreasury = CtTreasury;
	type DaysToBlocks = pallet_funding::types::DaysToBlocks;
	type EvaluationRoundDuration = sc::EvaluationRoundDuration;
	type EvaluationSuccessThreshold = sc::EarlyEvaluationThreshold;
	type EvaluatorSlash = sc::EvaluatorSlash;
	type FeeBrackets = sc::FeeBrackets;
	type FundingCurrency = ForeignAssets;
	type FundingSuccessThreshold = sc::FundingSuccessThreshold;
	type InvestorOrigin = EnsureInvestor<Runtime>;
	type MaxBidsPerProject = ConstU32<512>;
	type MaxBidsPerUser = ConstU32<16>;
	type MaxCapacityThresholds = MaxCapacityThresholds;
	type MaxContributionsPerUser = ConstU32<16>;
	type MaxEvaluationsPerProject = ConstU32<512>;
	type MaxEvaluationsPerUser = ConstU32<16>;
	type MaxMessageSizeThresholds = MaxMessageSizeThresholds;
	type MinUsdPerEvaluation = MinUsdPerEvaluation;
	type Multiplier = pallet_funding::types::Multiplier;
	type NativeCurrency = Balances;
	type OnSlash = poly::w_pallet_funding::OnSlash;
	type PalletId = sc::FundingPalletId;
	type Price = FixedU128;
	type PriceProvider = poly::w_pallet_funding::PriceProvider;
	type RemainderRoundDuration = sc::RemainderRoundDuration;
	type RequiredMaxCapacity = ConstU32<1000>;
	type RequiredMaxMessageSize = ConstU32<102_400>;
	type RuntimeCall = RuntimeCall;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type RuntimeOrigin = RuntimeOrigin;
	type StringLimit = ConstU32<64>;
	type VerifierPublicKey = sc::VerifierPublicKey;
	type WeightInfo = ();
}
impl pallet_proxy_bonding::Config for Runtime {
	type BondingToken = poly::w_pallet_proxy_bonding::BondingToken;
	type BondingTokenDecimals = ConstU8<PLMC_DECIMALS>;
	type BondingTokenId = ConstU32<PLMC_FOREIGN_ID>;
	type FeePercentage = FeePercentage;
	type FeeRecipient = poly::w_pallet_proxy_bonding::FeeRecipient;
	type FeeToken = poly::w_pallet_proxy_bonding::FeeToken;
	type Id = PalletId;
	type PriceProvider = poly::w_pallet_proxy_bonding::PriceProvider;
	type RootId = poly::w_pallet_proxy_bonding::RootId;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type Treasury = poly::w_pallet_proxy_bonding::Treasury;
	type UsdDecimals = ConstU8<USD_DECIMALS>;
}
