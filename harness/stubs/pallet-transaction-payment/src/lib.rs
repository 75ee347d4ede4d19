//! The fee interface of pallet-transaction-payment and its adapter for a `fungible`, as in
//! polkadot-sdk 1.14. The signed extension that calls it is played by the harness.
use frame_support::traits::{
	fungible::{Balanced, Credit, Debt, Inspect},
	tokens::{Fortitude, Precision, Preservation},
	Get, Imbalance, OnUnbalanced,
};
use sp_runtime::{
	traits::{DispatchInfoOf, Dispatchable, PostDispatchInfoOf, Saturating, Zero},
	transaction_validity::{InvalidTransaction, TransactionValidityError},
};
use std::marker::PhantomData;

pub trait Config: frame_system::Config {
	type RuntimeEvent;
	type OnChargeTransaction: OnChargeTransaction<Self>;
	type OperationalFeeMultiplier: Get<u8>;
	type WeightToFee;
	type LengthToFee;
	type FeeMultiplierUpdate;
}
pub trait OnChargeTransaction<T: Config>
where
	T: ?Sized,
{
	type Balance: sp_runtime::traits::AtLeast32BitUnsigned + Copy + Default + std::fmt::Debug;
	type LiquidityInfo: Default;
	fn withdraw_fee(
		who: &T::AccountId,
		call: &T::RuntimeCall,
		dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
		fee: Self::Balance,
		tip: Self::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError>
	where
		T::RuntimeCall: Dispatchable;
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		dispatch_info: &DispatchInfoOf<T::RuntimeCall>,
		post_info: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected_fee: Self::Balance,
		tip: Self::Balance,
		already_withdrawn: Self::LiquidityInfo,
	) -> Result<(), TransactionValidityError>
	where
		T::RuntimeCall: Dispatchable;
}
pub struct FungibleAdapter<F, OU>(PhantomData<(F, OU)>);
impl<T, F, OU> OnChargeTransaction<T> for FungibleAdapter<F, OU>
where
	T: Config,
	F: Balanced<T::AccountId>,
	OU: OnUnbalanced<Credit<T::AccountId, F>>,
{
	type LiquidityInfo = Option<Credit<T::AccountId, F>>;
	type Balance = <F as Inspect<T::AccountId>>::Balance;

	fn withdraw_fee(
		who: &T::AccountId,
		_: &T::RuntimeCall,
		_: &DispatchInfoOf<T::RuntimeCall>,
		fee: Self::Balance,
		_: Self::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError> {
		if fee.is_zero() {
			return Ok(None)
		}
		match F::withdraw(who, fee, Precision::Exact, Preservation::Preserve, Fortitude::Polite) {
			Ok(imbalance) => Ok(Some(imbalance)),
			Err(_) => Err(InvalidTransaction::Payment.into()),
		}
	}
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		_: &DispatchInfoOf<T::RuntimeCall>,
		_: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected_fee: Self::Balance,
		tip: Self::Balance,
		already_withdrawn: Self::LiquidityInfo,
	) -> Result<(), TransactionValidityError> {
		if let Some(paid) = already_withdrawn {
			let refund_amount = paid.peek().saturating_sub(corrected_fee);
			let refund = if F::total_balance(who) > F::Balance::zero() {
				F::deposit(who, refund_amount, Precision::BestEffort).unwrap_or_else(|_| Debt::<T::AccountId, F>::zero())
			} else {
				Debt::<T::AccountId, F>::zero()
			};
			let adjusted: Credit<T::AccountId, F> = paid
				.offset(refund)
				.same()
				.map_err(|_| TransactionValidityError::Invalid(InvalidTransaction::Payment))?;
			let (tip, fee) = adjusted.split(tip);
			OU::on_unbalanceds(Some(fee).into_iter().chain(Some(tip)));
		}
		Ok(())
	}
}

/// What a transaction costs, as in pallet-transaction-payment 35.
pub mod cost {
	use super::*;
	use frame_support::{
		dispatch::{DispatchInfo, Pays, PostDispatchInfo},
		weights::{Weight, WeightToFee},
	};
	use sp_runtime::{FixedPointNumber, FixedU128};

	thread_local! {
		/// `NextFeeMultiplier`
		pub static MULTIPLIER: std::cell::Cell<u128> = const { std::cell::Cell::new(1_000_000_000_000_000_000) };
	}
	fn raw<T: Config>(len: u32, weight: Weight, tip: u128, pays: Pays, info: &DispatchInfo) -> u128
	where
		T::WeightToFee: WeightToFee<Balance = u128>,
		T::LengthToFee: WeightToFee<Balance = u128>,
	{
		if pays == Pays::No {
			return tip
		}
		let all = <T as frame_system::Config>::BlockWeights::get();
		let fee = |w: Weight| T::WeightToFee::weight_to_fee(&w.min(all.max_block));
		let adjusted = FixedU128::from_inner(MULTIPLIER.get()).saturating_mul_int(fee(weight));
		let len = T::LengthToFee::weight_to_fee(&Weight::from_parts(len as u64, 0));
		fee(all.get(info.class).base_extrinsic).saturating_add(len).saturating_add(adjusted).saturating_add(tip)
	}
	pub fn fee<T: Config>(len: u32, info: &DispatchInfo, tip: u128) -> u128
	where
		T::WeightToFee: WeightToFee<Balance = u128>,
		T::LengthToFee: WeightToFee<Balance = u128>,
	{
		raw::<T>(len, info.weight, tip, info.pays_fee, info)
	}
	pub fn actual<T: Config>(len: u32, info: &DispatchInfo, post: &PostDispatchInfo, tip: u128) -> u128
	where
		T::WeightToFee: WeightToFee<Balance = u128>,
		T::LengthToFee: WeightToFee<Balance = u128>,
	{
		raw::<T>(len, post.calc_actual_weight(info), tip, post.pays_fee(info), info)
	}
}
