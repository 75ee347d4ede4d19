//! The origins of pallet-collective (instances 1 and 2).
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {}
	#[pallet::pallet]
	#[pallet::without_storage_info]
	pub struct Pallet<T, I = ()>(PhantomData<(T, I)>);

	#[pallet::storage]
	pub type Members<T: Config<I>, I: 'static = ()> = StorageValue<_, Vec<T::AccountId>, ValueQuery>;
	#[pallet::storage]
	pub type Prime<T: Config<I>, I: 'static = ()> = StorageValue<_, T::AccountId, OptionQuery>;

	#[derive(PartialEq, Eq, Clone, RuntimeDebug, Encode, Decode, TypeInfo, MaxEncodedLen)]
	#[scale_info(skip_type_params(I))]
	#[codec(mel_bound(AccountId: MaxEncodedLen))]
	pub enum RawOrigin<AccountId, I> {
		Members(u32, u32),
		Member(AccountId),
		_Phantom(PhantomData<I>),
	}
	#[pallet::origin]
	pub type Origin<T, I = ()> = RawOrigin<<T as frame_system::Config>::AccountId, I>;
}

use frame_support::traits::{ChangeMembers, EnsureOrigin, InitializeMembers};
use std::marker::PhantomData;
impl<T: Config<I>, I: 'static> ChangeMembers<T::AccountId> for Pallet<T, I> {
	fn change_members_sorted(_: &[T::AccountId], _: &[T::AccountId], new: &[T::AccountId]) {
		Members::<T, I>::put(new.to_vec());
		Prime::<T, I>::kill();
	}
	fn set_prime(prime: Option<T::AccountId>) {
		Prime::<T, I>::set(prime);
	}
	fn get_prime() -> Option<T::AccountId> {
		Prime::<T, I>::get()
	}
}
impl<T: Config<I>, I: 'static> InitializeMembers<T::AccountId> for Pallet<T, I> {
	fn initialize_members(members: &[T::AccountId]) {
		if !members.is_empty() {
			assert!(Members::<T, I>::get().is_empty(), "Members are already initialized!");
			let mut m = members.to_vec();
			m.sort();
			Members::<T, I>::put(m);
		}
	}
}
/// As in pallet-collective.
pub struct EnsureProportionAtLeast<A, I: 'static, const N: u32, const D: u32>(PhantomData<(A, I)>);
pub struct EnsureProportionMoreThan<A, I: 'static, const N: u32, const D: u32>(PhantomData<(A, I)>);
pub struct EnsureMember<A, I: 'static>(PhantomData<(A, I)>);
pub struct EnsureMembers<A, I: 'static, const N: u32>(PhantomData<(A, I)>);
impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, A, I, const N: u32, const D: u32> EnsureOrigin<O> for EnsureProportionAtLeast<A, I, N, D> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::Members(n, m) if n * D >= N * m => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, A, I, const N: u32, const D: u32> EnsureOrigin<O> for EnsureProportionMoreThan<A, I, N, D> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::Members(n, m) if n * D > N * m => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, A, I> EnsureOrigin<O> for EnsureMember<A, I> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Member(id) => Ok(id),
			r => Err(O::from(r)),
		})
	}
}
impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, A, I, const N: u32> EnsureOrigin<O> for EnsureMembers<A, I, N> {
	type Success = (u32, u32);
	fn try_origin(o: O) -> Result<(u32, u32), O> {
		o.into().and_then(|o| match o {
			RawOrigin::Members(n, m) if n >= N => Ok((n, m)),
			r => Err(O::from(r)),
		})
	}
}
