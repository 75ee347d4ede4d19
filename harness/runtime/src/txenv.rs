#![allow(unused_imports)]
//! As `env`, for what transactions are made of: here the calls are those of `rt`.
pub use crate::{
	env::{hex_literal, Council, Treasury},
	poly::{AccountId, Balance},
	rt::{Balances, OriginCaller, RuntimeCall, RuntimeEvent, RuntimeHoldReason, RuntimeOrigin, Runtime, System, Vesting},
};
pub use disp as pallet_dispenser;
pub use ocw as pallet_oracle_ocw;
use frame_support::{dispatch::CheckIfFeeless, parameter_types};
pub use parity_scale_codec::{Decode, Encode};
use scale_info::TypeInfo;
use sp_runtime::{
	traits::{DispatchInfoOf, PostDispatchInfoOf, SignedExtension},
	transaction_validity::{TransactionValidityError, UnknownTransaction},
	DispatchResult,
};
use std::marker::PhantomData;

pub const RUNTIME_API_VERSIONS: sp_version::ApisVec = sp_version::create_apis_vec!([]);

pub mod polkadot_runtime_common {
	frame_support::parameter_types! {
		pub const BlockHashCount: u32 = 4096;
	}
}
/// As pallet-skip-feeless-payment 10.
pub mod pallet_skip_feeless_payment {
	use super::*;
	pub trait Config: frame_system::Config {
		type RuntimeEvent;
	}
	#[derive(Encode, Decode, Clone, Eq, PartialEq, TypeInfo)]
	#[scale_info(skip_type_params(T))]
	pub struct SkipCheckIfFeeless<T, S>(pub S, PhantomData<T>);
	impl<T, S: std::fmt::Debug> std::fmt::Debug for SkipCheckIfFeeless<T, S> {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			write!(f, "SkipCheckIfFeeless<{:?}>", self.0)
		}
	}
	impl<T, S> From<S> for SkipCheckIfFeeless<T, S> {
		fn from(s: S) -> Self {
			Self(s, PhantomData)
		}
	}
	impl<T: Config + Send + Sync, S: SignedExtension<AccountId = T::AccountId>> SignedExtension for SkipCheckIfFeeless<T, S>
	where
		S::Call: CheckIfFeeless<Origin = frame_system::pallet_prelude::OriginFor<T>>,
	{
		type AccountId = T::AccountId;
		type AdditionalSigned = S::AdditionalSigned;
		type Call = S::Call;
		type Pre = Option<S::Pre>;

		const IDENTIFIER: &'static str = S::IDENTIFIER;

		fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError> {
			self.0.additional_signed()
		}
		fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError> {
			if call.is_feeless(&<T as frame_system::Config>::RuntimeOrigin::from(frame_system::RawOrigin::Signed(who.clone()))) {
				Ok(None)
			} else {
				Ok(Some(self.0.pre_dispatch(who, call, info, len)?))
			}
		}
		fn post_dispatch(
			pre: Option<Self::Pre>,
			info: &DispatchInfoOf<Self::Call>,
			post_info: &PostDispatchInfoOf<Self::Call>,
			len: usize,
			result: &DispatchResult,
		) -> Result<(), TransactionValidityError> {
			if let Some(Some(pre)) = pre {
				S::post_dispatch(Some(pre), info, post_info, len, result)?;
			}
			Ok(())
		}
	}
}
/// As frame-metadata-hash-extension 0.3 in a build that knows its metadata hash.
pub mod frame_metadata_hash_extension {
	use super::*;
	pub const HASH: [u8; 32] = [0x4d; 32];
	#[derive(Decode, Encode, PartialEq, Debug, TypeInfo, Clone, Copy, Eq)]
	pub enum Mode {
		Disabled,
		Enabled,
	}
	#[derive(Encode, Decode, Clone, Eq, PartialEq, TypeInfo)]
	#[scale_info(skip_type_params(T))]
	pub struct CheckMetadataHash<T> {
		_phantom: PhantomData<T>,
		mode: Mode,
	}
	impl<T> CheckMetadataHash<T> {
		pub fn new(enable: bool) -> Self {
			Self { _phantom: PhantomData, mode: if enable { Mode::Enabled } else { Mode::Disabled } }
		}
		pub fn enabled(&self) -> bool {
			self.mode == Mode::Enabled
		}
	}
	impl<T> std::fmt::Debug for CheckMetadataHash<T> {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			write!(f, "CheckMetadataHash<{:?}>", self.mode)
		}
	}
	impl<T: frame_system::Config + Send + Sync> SignedExtension for CheckMetadataHash<T> {
		type AccountId = T::AccountId;
		type AdditionalSigned = Option<[u8; 32]>;
		type Call = T::RuntimeCall;
		type Pre = ();

		const IDENTIFIER: &'static str = "CheckMetadataHash";

		fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError> {
			Ok(self.enabled().then_some(HASH))
		}
		fn pre_dispatch(self, _: &Self::AccountId, _: &Self::Call, _: &DispatchInfoOf<Self::Call>, _: usize) -> Result<(), TransactionValidityError> {
			Ok(())
		}
	}
}
