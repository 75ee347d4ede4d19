//! A pallet whose call does what a history wants of it.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use crate::rt::PRICES;
	use frame_support::{
		dispatch::{DispatchClass, DispatchResultWithPostInfo, Pays, PostDispatchInfo, WithPostDispatchInfo},
		pallet_prelude::*,
	};
	use frame_system::pallet_prelude::*;

	#[derive(Encode, Decode, Clone, Copy, Debug, PartialEq, Eq, TypeInfo, MaxEncodedLen)]
	pub enum Class {
		Normal,
		Operational,
	}
	#[derive(Encode, Decode, Clone, Debug, PartialEq, Eq, TypeInfo)]
	pub struct Job {
		pub weight: (u64, u64),
		/// what it turns out to weigh
		pub used: Option<(u64, u64)>,
		pub class: Class,
		/// free from the start, free in the end
		pub free: (bool, bool),
		pub fails: bool,
		/// the prices move meanwhile, by this many thousandths
		pub prices: Option<u32>,
		pub ballast: Vec<u8>,
	}
	#[pallet::config]
	pub trait Config: frame_system::Config {}
	#[pallet::pallet]
	#[pallet::without_storage_info]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type Done<T> = StorageValue<_, u32, ValueQuery>;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight((
			Weight::from_parts(job.weight.0, job.weight.1),
			if job.class == Class::Normal { DispatchClass::Normal } else { DispatchClass::Operational },
			if job.free.0 { Pays::No } else { Pays::Yes }
		))]
		pub fn run(origin: OriginFor<T>, job: Job) -> DispatchResultWithPostInfo {
			ensure_signed(origin)?;
			Done::<T>::mutate(|d| *d += 1);
			if let Some(m) = job.prices {
				PRICES.with(|p| {
					for x in p.borrow_mut().values_mut() {
						*x = sp_arithmetic::FixedU128::from_inner(x.into_inner() / 1000 * m as u128);
					}
				});
			}
			let post = PostDispatchInfo {
				actual_weight: job.used.map(|(a, b)| Weight::from_parts(a, b)),
				pays_fee: if job.free.1 { Pays::No } else { Pays::Yes },
			};
			if job.fails {
				return Err(DispatchError::Other("as asked").with_weight(post.actual_weight.unwrap_or(Weight::from_parts(job.weight.0, job.weight.1))))
			}
			Ok(post)
		}
	}
}
