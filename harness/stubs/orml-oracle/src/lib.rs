//! The call a price feed is submitted with.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type OracleKey: Parameter + Member + MaxEncodedLen;
		type OracleValue: Parameter + Member + Ord + MaxEncodedLen;
		#[pallet::constant]
		type MaxFeedValues: Get<u32>;
	}
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(PhantomData<(T, I)>);

	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn feed_values(
			origin: OriginFor<T>,
			values: BoundedVec<(T::OracleKey, T::OracleValue), T::MaxFeedValues>,
		) -> DispatchResult {
			ensure_signed(origin)?;
			let _ = values;
			Ok(())
		}
	}
}
