//! Queries, responses and sending, as pallet-funding uses them. A response reaches the caller's
//! pallet through `respond`, which plays pallet-xcm's OnResponse: the query must exist, be
//! unanswered, come from its responder and not have timed out.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	use sp_runtime::traits::{BadOrigin, Dispatchable};
	use xcm::v4::{Junctions, Location, QueryId, SendError, SendXcm, Xcm, XcmHash};

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeOrigin: From<Origin> + From<<Self as frame_system::Config>::RuntimeOrigin>;
		type RuntimeCall: Parameter
			+ From<<Self as frame_system::Config>::RuntimeCall>
			+ Dispatchable<RuntimeOrigin = <Self as Config>::RuntimeOrigin>;
		type XcmRouter: SendXcm;
	}
	#[pallet::pallet]
	#[pallet::without_storage_info]
	pub struct Pallet<T>(PhantomData<T>);

	#[derive(PartialEq, Eq, Clone, Encode, Decode, RuntimeDebug, TypeInfo, MaxEncodedLen)]
	#[pallet::origin]
	pub enum Origin {
		Xcm(Location),
		Response(Location),
	}
	impl From<Location> for Origin {
		fn from(l: Location) -> Origin {
			Origin::Xcm(l)
		}
	}

	#[pallet::storage]
	pub type QueryCounter<T: Config> = StorageValue<_, QueryId, ValueQuery>;
	/// responder, call to dispatch with the response, timeout
	#[pallet::storage]
	pub type Queries<T: Config> =
		StorageMap<_, Blake2_128Concat, QueryId, (Location, Vec<u8>, BlockNumberFor<T>)>;

	impl<T: Config> Pallet<T> {
		pub fn new_notify_query(
			responder: impl Into<Location>,
			notify: impl Into<<T as Config>::RuntimeCall>,
			timeout: BlockNumberFor<T>,
			_match_querier: impl Into<Location>,
		) -> u64 {
			let id = QueryCounter::<T>::mutate(|q| {
				let r = *q;
				*q += 1;
				r
			});
			let call: <T as Config>::RuntimeCall = notify.into();
			Queries::<T>::insert(id, (responder.into(), call.encode(), timeout));
			id
		}
		pub fn send_xcm(
			_interior: impl Into<Junctions>,
			dest: impl Into<Location>,
			message: Xcm<()>,
		) -> Result<XcmHash, SendError> {
			xcm::v4::send_xcm::<T::XcmRouter>(dest.into(), message).map(|x| x.0)
		}
	}

	pub fn ensure_response<OuterOrigin>(o: OuterOrigin) -> Result<Location, BadOrigin>
	where
		OuterOrigin: Into<Result<Origin, OuterOrigin>>,
	{
		match o.into() {
			Ok(Origin::Response(location)) => Ok(location),
			_ => Err(BadOrigin),
		}
	}
	pub fn ensure_xcm<OuterOrigin>(o: OuterOrigin) -> Result<Location, BadOrigin>
	where
		OuterOrigin: Into<Result<Origin, OuterOrigin>>,
	{
		match o.into() {
			Ok(Origin::Xcm(location)) => Ok(location),
			_ => Err(BadOrigin),
		}
	}
}
