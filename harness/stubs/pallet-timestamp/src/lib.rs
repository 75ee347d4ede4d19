//! `Now` and its moment type, as pallet-timestamp keeps them.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use sp_runtime::traits::{AtLeast32Bit, Scale};
	use frame_system::pallet_prelude::BlockNumberFor;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type Moment: Parameter
			+ Default
			+ AtLeast32Bit
			+ Scale<BlockNumberFor<Self>, Output = Self::Moment>
			+ Copy
			+ MaxEncodedLen
			+ scale_info::StaticTypeInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(PhantomData<T>);

	#[pallet::storage]
	pub type Now<T: Config> = StorageValue<_, T::Moment, ValueQuery>;

	impl<T: Config> frame_support::traits::Time for Pallet<T> {
		type Moment = T::Moment;
		fn now() -> T::Moment {
			Now::<T>::get()
		}
	}
	impl<T: Config> Pallet<T> {
		pub fn now() -> T::Moment {
			Now::<T>::get()
		}
		pub fn set_timestamp(t: T::Moment) {
			Now::<T>::put(t)
		}
	}
}
