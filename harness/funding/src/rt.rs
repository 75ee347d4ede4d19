//! A runtime with the pallets of pallet-funding's own mock: the same constants where they shape
//! behaviour, small per-user limits so that histories reach them, and 16-byte accounts so that
//! the escrow and bonding sub-accounts of different projects differ.
use frame_support::{derive_impl, instances::*, parameter_types, traits::{ConstU128, ConstU64}, PalletId};
use on_slash_vesting::OnSlash;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use polimec_common::{credentials::EnsureInvestor, ProvideAssetPrice, PLMC_DECIMALS, PLMC_FOREIGN_ID, USD_DECIMALS, USD_UNIT};
use scale_info::TypeInfo;
use sp_arithmetic::{FixedU128, Perbill, Percent, Perquintill};
use sp_runtime::traits::{ConstU32, ConstU8, Convert, ConvertBack, ConvertInto, IdentityLookup};
use std::{cell::RefCell, collections::BTreeMap, ops::RangeInclusive};
use xcm::v4::{Assets, Location, SendError, SendResult, SendXcm, Xcm, XcmHash};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Acc(pub u128);
impl std::fmt::Debug for Acc {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "#{}", self.0)
	}
}
impl std::fmt::Display for Acc {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "#{}", self.0)
	}
}
impl serde::Serialize for Acc {
	fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_str(&self.0.to_string())
	}
}
impl<'de> serde::Deserialize<'de> for Acc {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let s = <String as serde::Deserialize>::deserialize(d)?;
		s.parse().map(Acc).map_err(serde::de::Error::custom)
	}
}

frame_support::construct_runtime!(
	pub enum Test {
		System: frame_system = 0,
		Timestamp: pallet_timestamp = 1,
		Balances: pallet_balances = 2,
		LinearRelease: pallet_linear_release = 3,
		ContributionTokens: mini_assets::<Instance1> = 4,
		ForeignAssets: mini_assets::<Instance2> = 5,
		PolkadotXcm: pallet_xcm = 6,
		ProxyBonding: pallet_proxy_bonding = 7,
		PolimecFunding: pallet_funding = 52,
	}
);
type Block = frame_system::mocking::MockBlock<Test>;

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = Acc;
	type Block = Block;
	type Lookup = IdentityLookup<Self::AccountId>;
}
pub const PLMC: u128 = 10_000_000_000;
pub const ED: u128 = PLMC / 100;
parameter_types! {
	pub const ExistentialDeposit: u128 = ED;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Test {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = ExistentialDeposit;
	type RuntimeHoldReason = RuntimeHoldReason;
}
impl pallet_timestamp::Config for Test {
	type Moment = u64;
}
impl mini_assets::Config<Instance1> for Test {}
impl mini_assets::Config<Instance2> for Test {}

thread_local! {
	/// micro-USD per whole token
	pub static PRICES: RefCell<BTreeMap<u32, u128>> = RefCell::new(BTreeMap::new());
	pub static SENT: RefCell<Vec<(Location, Xcm<()>)>> = RefCell::new(vec![]);
	pub static ROUTER_UP: RefCell<bool> = RefCell::new(true);
	pub static SLASHES: RefCell<Vec<(Acc, u128)>> = RefCell::new(vec![]);
}
pub struct Router;
impl SendXcm for Router {
	type Ticket = (Location, Xcm<()>);
	fn validate(d: &mut Option<Location>, m: &mut Option<Xcm<()>>) -> SendResult<Self::Ticket> {
		if !ROUTER_UP.with(|r| *r.borrow()) {
			return Err(SendError::Unroutable);
		}
		Ok(((d.take().ok_or(SendError::MissingArgument)?, m.take().ok_or(SendError::MissingArgument)?), Assets::new()))
	}
	fn deliver(t: Self::Ticket) -> Result<XcmHash, SendError> {
		SENT.with(|s| s.borrow_mut().push(t));
		Ok([0; 32])
	}
}
impl pallet_xcm::Config for Test {
	type RuntimeCall = RuntimeCall;
	type RuntimeOrigin = RuntimeOrigin;
	type XcmRouter = Router;
}
pub struct Prices;
impl ProvideAssetPrice for Prices {
	type AssetId = u32;
	type Price = FixedU128;
	fn get_price(id: u32) -> Option<FixedU128> {
		PRICES.with(|p| p.borrow().get(&id).map(|m| FixedU128::from_inner(*m * 1_000_000_000_000)))
	}
}
parameter_types! {
	pub UnvestedFundsAllowedWithdrawReasons: frame_support::traits::WithdrawReasons = frame_support::traits::WithdrawReasons::empty();
}
impl pallet_linear_release::Config for Test {
	type Balance = u128;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = ConstU128<512>;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type UnvestedFundsAllowedWithdrawReasons = UnvestedFundsAllowedWithdrawReasons;
	type WeightInfo = ();

	const MAX_VESTING_SCHEDULES: u32 = 100;
}
pub const EVAL: u64 = 10;
pub const AUCTION: u64 = 15;
pub const COMMUNITY: u64 = 18;
pub const REMAINDER: u64 = 6;
pub const BRACKETS: [(u8, u128); 3] = [(10, 1_000_000 * USD_UNIT), (8, 4_000_000 * USD_UNIT), (6, u128::MAX)];
parameter_types! {
	pub const FundingPalletId: PalletId = PalletId(*b"plmc-fun");
	pub FeeBrackets: Vec<(Percent, u128)> = BRACKETS.iter().map(|(p, l)| (Percent::from_percent(*p), *l)).collect();
	pub EvaluationThreshold: Percent = Percent::from_percent(10);
	pub EvaluatorSlash: Percent = Percent::from_percent(20);
	pub SlashTreasury: Acc = Acc(696969);
	pub BondTreasury: Acc = Acc(555);
	pub CtTreasury: Acc = Acc(4204204206);
	pub FeeRecipient: Acc = Acc(80085);
	pub FundingThreshold: Perquintill = Perquintill::from_percent(33);
	pub MaxMessageSizeThresholds: RangeInclusive<u32> = 50_000..=102_400;
	pub MaxCapacityThresholds: RangeInclusive<u32> = 8..=1000;
	pub const RequiredMaxCapacity: u32 = 8;
	pub const RequiredMaxMessageSize: u32 = 102_400;
	pub VerifierKey: [u8; 32] = [
		32, 118, 30, 171, 58, 212, 197, 27, 146, 122, 255, 243, 34, 245, 90, 244, 221, 37, 253,
		195, 18, 202, 111, 55, 39, 48, 123, 17, 101, 78, 215, 94,
	];
	pub const MinUsdPerEvaluation: u128 = 100 * USD_UNIT;
	pub FeePercentage: Perbill = Perbill::from_perthousand(75);
	pub const RootId: PalletId = PalletId(*b"treasury");
	pub static MaxBidsPerProject: u32 = 20;
	pub static MaxEvaluationsPerProject: u32 = 12;
	pub const MaxBidsPerUser: u32 = 7;
	pub const MaxContributionsPerUser: u32 = 5;
	pub const MaxEvaluationsPerUser: u32 = 4;
}
pub const SIGNING_KEY: [u8; 32] = [
	80, 168, 164, 18, 76, 133, 92, 116, 50, 20, 155, 28, 33, 89, 151, 207, 199, 247, 113, 185, 127, 156, 2, 132, 65, 58, 76,
	156, 143, 109, 29, 251,
];
pub struct AccountBytes;
impl Convert<Acc, [u8; 32]> for AccountBytes {
	fn convert(a: Acc) -> [u8; 32] {
		let mut b = [0u8; 32];
		b[..16].copy_from_slice(&a.0.to_le_bytes());
		b
	}
}
impl ConvertBack<Acc, [u8; 32]> for AccountBytes {
	fn convert_back(b: [u8; 32]) -> Acc {
		Acc(u128::from_le_bytes(b[..16].try_into().unwrap()))
	}
}
pub struct Recorder;
impl OnSlash<Acc, u128> for Recorder {
	fn on_slash(a: &Acc, x: u128) {
		SLASHES.with(|s| s.borrow_mut().push((*a, x)));
	}
}
impl pallet_funding::Config for Test {
	type AccountId32Conversion = AccountBytes;
	type AllPalletsWithoutSystem = (Balances, PolimecFunding, LinearRelease);
	type AuctionRoundDuration = ConstU64<AUCTION>;
	type BlockNumber = u64;
	type BlockchainOperationTreasury = SlashTreasury;
	type CommunityRoundDuration = ConstU64<COMMUNITY>;
	type ContributionTokenCurrency = ContributionTokens;
	type ContributionTreasury = CtTreasury;
	type DaysToBlocks = pallet_funding::types::DaysToBlocks;
	type EvaluationRoundDuration = ConstU64<EVAL>;
	type EvaluationSuccessThreshold = EvaluationThreshold;
	type EvaluatorSlash = EvaluatorSlash;
	type FeeBrackets = FeeBrackets;
	type FundingCurrency = ForeignAssets;
	type FundingSuccessThreshold = FundingThreshold;
	type InvestorOrigin = EnsureInvestor<Test>;
	type MaxBidsPerProject = MaxBidsPerProject;
	type MaxBidsPerUser = MaxBidsPerUser;
	type MaxCapacityThresholds = MaxCapacityThresholds;
	type MaxContributionsPerUser = MaxContributionsPerUser;
	type MaxEvaluationsPerProject = MaxEvaluationsPerProject;
	type MaxEvaluationsPerUser = MaxEvaluationsPerUser;
	type MaxMessageSizeThresholds = MaxMessageSizeThresholds;
	type MinUsdPerEvaluation = MinUsdPerEvaluation;
	type Multiplier = pallet_funding::types::Multiplier;
	type NativeCurrency = Balances;
	type OnSlash = Recorder;
	type PalletId = FundingPalletId;
	type Price = FixedU128;
	type PriceProvider = Prices;
	type RemainderRoundDuration = ConstU64<REMAINDER>;
	type RequiredMaxCapacity = RequiredMaxCapacity;
	type RequiredMaxMessageSize = RequiredMaxMessageSize;
	type RuntimeCall = RuntimeCall;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type RuntimeOrigin = RuntimeOrigin;
	type StringLimit = ConstU32<64>;
	type VerifierPublicKey = VerifierKey;
	type WeightInfo = ();
}
impl pallet_proxy_bonding::Config for Test {
	type BondingToken = Balances;
	type BondingTokenDecimals = ConstU8<PLMC_DECIMALS>;
	type BondingTokenId = ConstU32<PLMC_FOREIGN_ID>;
	type FeePercentage = FeePercentage;
	type FeeRecipient = FeeRecipient;
	type FeeToken = ForeignAssets;
	type Id = PalletId;
	type PriceProvider = Prices;
	type RootId = RootId;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type Treasury = BondTreasury;
	type UsdDecimals = ConstU8<USD_DECIMALS>;
}
