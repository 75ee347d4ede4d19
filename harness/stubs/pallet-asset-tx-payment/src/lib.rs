//! The interface through which pallet-asset-tx-payment 36 charges a fee in an asset. The signed
//! extension that calls it is played by the harness.
use frame_support::traits::fungibles::{Balanced, Credit, Inspect};
use sp_runtime::{
	traits::{DispatchInfoOf, Dispatchable, PostDispatchInfoOf},
	transaction_validity::TransactionValidityError,
};

pub type AssetBalanceOf<T> =
	<<T as Config>::Fungibles as Inspect<<T as frame_system::Config>::AccountId>>::Balance;

pub trait Config: frame_system::Config + pallet_transaction_payment::Config {
	type RuntimeEvent;
	type Fungibles: Balanced<Self::AccountId>;
	type OnChargeAssetTransaction: OnChargeAssetTransaction<Self>;
}
pub trait HandleCredit<AccountId, B: Balanced<AccountId>> {
	fn handle_credit(credit: Credit<AccountId, B>);
}
impl<A, B: Balanced<A>> HandleCredit<A, B> for () {
	fn handle_credit(_: Credit<A, B>) {}
}
pub trait OnChargeAssetTransaction<T: Config>
where
	T: ?Sized,
{
	type Balance;
	type AssetId: parity_scale_codec::FullCodec + Copy + std::fmt::Debug + Default + Eq + scale_info::TypeInfo;
	type LiquidityInfo;
	fn withdraw_fee(
		who: &T::AccountId,
		call: &T::RuntimeCall,
		dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
		asset_id: Self::AssetId,
		fee: Self::Balance,
		tip: Self::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError>
	where
		T::RuntimeCall: Dispatchable;
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
		post_info: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected_fee: Self::Balance,
		tip: Self::Balance,
		already_withdrawn: Self::LiquidityInfo,
	) -> Result<(AssetBalanceOf<T>, AssetBalanceOf<T>), TransactionValidityError>
	where
		T::RuntimeCall: Dispatchable;
}

pub type ChargeAssetIdOf<T> = <<T as Config>::OnChargeAssetTransaction as OnChargeAssetTransaction<T>>::AssetId;
/// The signed extension, as in pallet-asset-tx-payment 36 (events and priorities left out).
#[derive(parity_scale_codec::Encode, parity_scale_codec::Decode, Clone, Eq, PartialEq, scale_info::TypeInfo)]
#[scale_info(skip_type_params(T))]
#[codec(encode_bound())]
#[codec(decode_bound())]
pub struct ChargeAssetTxPayment<T: Config> {
	#[codec(compact)]
	tip: u128,
	asset_id: Option<ChargeAssetIdOf<T>>,
}
impl<T: Config> ChargeAssetTxPayment<T> {
	pub fn from(tip: u128, asset_id: Option<ChargeAssetIdOf<T>>) -> Self {
		Self { tip, asset_id }
	}
}
impl<T: Config> std::fmt::Debug for ChargeAssetTxPayment<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "ChargeAssetTxPayment<{:?}, {:?}>", self.tip, self.asset_id)
	}
}
pub enum InitialPayment<N, A> {
	Nothing,
	Native(N),
	Asset(A),
}
use frame_support::{
	dispatch::{DispatchInfo, PostDispatchInfo},
	weights::WeightToFee,
};
use pallet_transaction_payment::{cost, OnChargeTransaction};
use sp_runtime::{
	traits::SignedExtension,
	transaction_validity::{InvalidTransaction, TransactionValidity, ValidTransaction},
	DispatchResult,
};
type NativeInfo<T> = <<T as pallet_transaction_payment::Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo;
type AssetInfo<T> = <<T as Config>::OnChargeAssetTransaction as OnChargeAssetTransaction<T>>::LiquidityInfo;
impl<T> ChargeAssetTxPayment<T>
where
	T: Config,
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
	T::OnChargeTransaction: OnChargeTransaction<T, Balance = u128>,
	T::OnChargeAssetTransaction: OnChargeAssetTransaction<T, Balance = u128>,
	T::WeightToFee: WeightToFee<Balance = u128>,
	T::LengthToFee: WeightToFee<Balance = u128>,
{
	fn withdraw_fee(
		&self,
		who: &T::AccountId,
		call: &T::RuntimeCall,
		info: &DispatchInfo,
		len: usize,
	) -> Result<InitialPayment<NativeInfo<T>, AssetInfo<T>>, TransactionValidityError> {
		let fee = cost::fee::<T>(len as u32, info, self.tip);
		if fee == 0 {
			Ok(InitialPayment::Nothing)
		} else if let Some(asset_id) = self.asset_id {
			T::OnChargeAssetTransaction::withdraw_fee(who, call, info, asset_id, fee, self.tip).map(InitialPayment::Asset)
		} else {
			T::OnChargeTransaction::withdraw_fee(who, call, info, fee, self.tip)
				.map(InitialPayment::Native)
				.map_err(|_| InvalidTransaction::Payment.into())
		}
	}
}
impl<T> SignedExtension for ChargeAssetTxPayment<T>
where
	T: Config + Send + Sync,
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
	T::OnChargeTransaction: OnChargeTransaction<T, Balance = u128>,
	T::OnChargeAssetTransaction: OnChargeAssetTransaction<T, Balance = u128>,
	T::WeightToFee: WeightToFee<Balance = u128>,
	T::LengthToFee: WeightToFee<Balance = u128>,
	ChargeAssetIdOf<T>: Send + Sync,
{
	type AccountId = T::AccountId;
	type AdditionalSigned = ();
	type Call = T::RuntimeCall;
	type Pre = (u128, Self::AccountId, InitialPayment<NativeInfo<T>, AssetInfo<T>>);

	const IDENTIFIER: &'static str = "ChargeAssetTxPayment";

	fn additional_signed(&self) -> Result<(), TransactionValidityError> {
		Ok(())
	}
	fn validate(&self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfo, len: usize) -> TransactionValidity {
		self.withdraw_fee(who, call, info, len)?;
		Ok(ValidTransaction::default())
	}
	fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfo, len: usize) -> Result<Self::Pre, TransactionValidityError> {
		let paid = self.withdraw_fee(who, call, info, len)?;
		Ok((self.tip, who.clone(), paid))
	}
	fn post_dispatch(
		pre: Option<Self::Pre>,
		info: &DispatchInfo,
		post_info: &PostDispatchInfo,
		len: usize,
		_: &DispatchResult,
	) -> Result<(), TransactionValidityError> {
		if let Some((tip, who, paid)) = pre {
			let actual = cost::actual::<T>(len as u32, info, post_info, tip);
			match paid {
				InitialPayment::Native(x) => T::OnChargeTransaction::correct_and_deposit_fee(&who, info, post_info, actual, tip, x)?,
				InitialPayment::Asset(x) => {
					T::OnChargeAssetTransaction::correct_and_deposit_fee(&who, info, post_info, actual, tip, x)?;
				},
				InitialPayment::Nothing => (),
			}
		}
		Ok(())
	}
}
