//! The part of XCM v4 polimec builds and reads: locations, assets, the instructions of the
//! migration messages, responses, and the `SendXcm` router trait.

/// What locations of either version can be asked.
macro_rules! location_api {
	($L:ident, $S:ident, $J:ident) => {
		impl $S {
			pub fn len(&self) -> usize {
				self.as_slice().len()
			}
			pub fn is_empty(&self) -> bool {
				self.len() == 0
			}
			pub fn at(&self, i: usize) -> Option<&$J> {
				self.junctions().into_iter().nth(i)
			}
			pub fn first(&self) -> Option<&$J> {
				self.at(0)
			}
			pub fn last(&self) -> Option<&$J> {
				self.junctions().into_iter().last()
			}
			pub fn iter(&self) -> impl DoubleEndedIterator<Item = &$J> {
				self.junctions().into_iter()
			}
			pub fn split_first(&self) -> ($S, Option<$J>) {
				let v: Vec<$J> = self.iter().cloned().collect();
				match v.split_first() {
					Some((j, rest)) => ($S::from_slice(rest).unwrap(), Some(*j)),
					None => ($S::Here, None),
				}
			}
			pub fn split_last(&self) -> ($S, Option<$J>) {
				let v: Vec<$J> = self.iter().cloned().collect();
				match v.split_last() {
					Some((j, rest)) => ($S::from_slice(rest).unwrap(), Some(*j)),
					None => ($S::Here, None),
				}
			}
			pub fn take_first(&mut self) -> Option<$J> {
				let (s, j) = self.split_first();
				*self = s;
				j
			}
			pub fn take_last(&mut self) -> Option<$J> {
				let (s, j) = self.split_last();
				*self = s;
				j
			}
			pub fn push(&mut self, j: impl Into<$J>) -> core::result::Result<(), $J> {
				let j = j.into();
				let mut v: Vec<$J> = self.iter().cloned().collect();
				v.push(j);
				*self = $S::from_slice(&v).ok_or(j)?;
				Ok(())
			}
			pub fn pushed_with(&self, j: impl Into<$J>) -> core::result::Result<Self, (Self, $J)> {
				let mut s = self.clone();
				s.push(j).map_err(|j| (self.clone(), j))?;
				Ok(s)
			}
			pub fn match_and_split(&self, prefix: &$S) -> Option<&$J> {
				if prefix.len() + 1 != self.len() || !self.starts_with(prefix) {
					return None
				}
				self.at(prefix.len())
			}
			pub fn starts_with(&self, prefix: &$S) -> bool {
				self.len() >= prefix.len() && prefix.iter().zip(self.iter()).all(|(a, b)| a == b)
			}
			pub fn into_location(self) -> $L {
				$L { parents: 0, interior: self }
			}
			pub fn into_exterior(self, n: u8) -> $L {
				$L { parents: n, interior: self }
			}
		}
		impl $L {
			pub fn parent_count(&self) -> u8 {
				self.parents
			}
			pub fn interior(&self) -> &$S {
				&self.interior
			}
			pub fn first_interior(&self) -> Option<&$J> {
				self.interior.first()
			}
			pub fn last(&self) -> Option<&$J> {
				self.interior.last()
			}
			pub fn at(&self, i: usize) -> Option<&$J> {
				let n = self.parents as usize;
				if i < n { None } else { self.interior.at(i - n) }
			}
			pub fn len(&self) -> usize {
				self.parents as usize + self.interior.len()
			}
			pub fn is_here(&self) -> bool {
				self.parents == 0 && self.interior.len() == 0
			}
			pub fn contains_parents_only(&self, count: u8) -> bool {
				self.interior.len() == 0 && self.parents == count
			}
			pub const fn ancestor(parents: u8) -> Self {
				$L { parents, interior: $S::Here }
			}
			pub const fn grandparent() -> Self {
				Self::ancestor(2)
			}
			pub fn split_first_interior(self) -> ($L, Option<$J>) {
				let (interior, j) = self.interior.split_first();
				($L { parents: self.parents, interior }, j)
			}
			pub fn split_last_interior(self) -> ($L, Option<$J>) {
				let (interior, j) = self.interior.split_last();
				($L { parents: self.parents, interior }, j)
			}
			pub fn push_interior(&mut self, j: impl Into<$J>) -> core::result::Result<(), $J> {
				self.interior.push(j)
			}
			pub fn pushed_with_interior(self, j: impl Into<$J>) -> core::result::Result<Self, (Self, $J)> {
				let mut l = self.clone();
				l.push_interior(j).map_err(|j| (self, j))?;
				Ok(l)
			}
			pub fn match_and_split(&self, prefix: &$L) -> Option<&$J> {
				if self.parents != prefix.parents { None } else { self.interior.match_and_split(&prefix.interior) }
			}
			pub fn starts_with(&self, prefix: &$L) -> bool {
				self.parents == prefix.parents && self.interior.starts_with(&prefix.interior)
			}
		}
	};
}

pub mod opaque {
	pub mod v4 {
		pub type Xcm = crate::v4::Xcm<()>;
	}
	pub enum VersionedXcm {
		V4(v4::Xcm),
	}
}
pub enum VersionedLocation {
	V4(v4::Location),
}

pub mod v4 {
	pub use frame_support::weights::Weight;
	use frame_support::{pallet_prelude::ConstU32, weights::Weight as W, BoundedVec};
	use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;
	use std::sync::Arc;

	pub type QueryId = u64;
	pub type XcmHash = [u8; 32];
	pub type Result = core::result::Result<(), Error>;
	pub type SendResult<T> = core::result::Result<(T, Assets), SendError>;
	pub type MaxPalletNameLen = ConstU32<48>;
	pub type MaxDispatchErrorLen = ConstU32<128>;
	pub type MaxPalletsInfo = ConstU32<64>;
	pub type InteriorLocation = Junctions;

	pub mod opaque {
		pub type Xcm = super::Xcm<()>;
	}

	#[derive(Clone, Copy, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, Debug, TypeInfo, MaxEncodedLen)]
	pub enum NetworkId {
		ByGenesis([u8; 32]),
		Polkadot,
		Kusama,
	}
	#[derive(Clone, Copy, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, Debug, TypeInfo, MaxEncodedLen)]
	pub enum BodyId {
		Unit,
		Moniker([u8; 4]),
		Index(#[codec(compact)] u32),
		Executive,
		Technical,
		Legislative,
		Judicial,
		Defense,
		Administration,
		Treasury,
	}
	#[derive(Clone, Copy, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, Debug, TypeInfo, MaxEncodedLen)]
	pub enum BodyPart {
		Voice,
		Members {
			#[codec(compact)]
			count: u32,
		},
	}
	#[derive(Clone, Copy, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, Debug, TypeInfo, MaxEncodedLen)]
	pub enum Junction {
		Parachain(#[codec(compact)] u32),
		AccountId32 { network: Option<NetworkId>, id: [u8; 32] },
		AccountIndex64 { network: Option<NetworkId>, #[codec(compact)] index: u64 },
		AccountKey20 { network: Option<NetworkId>, key: [u8; 20] },
		PalletInstance(u8),
		GeneralIndex(#[codec(compact)] u128),
		GeneralKey { length: u8, data: [u8; 32] },
		OnlyChild,
		Plurality { id: BodyId, part: BodyPart },
		GlobalConsensus(NetworkId),
	}
	#[derive(Clone, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, Debug, TypeInfo, MaxEncodedLen)]
	pub enum Junctions {
		Here,
		X1(Arc<[Junction; 1]>),
		X2(Arc<[Junction; 2]>),
		X3(Arc<[Junction; 3]>),
		X4(Arc<[Junction; 4]>),
		X5(Arc<[Junction; 5]>),
		X6(Arc<[Junction; 6]>),
		X7(Arc<[Junction; 7]>),
		X8(Arc<[Junction; 8]>),
	}
	impl Junctions {
		pub fn as_slice(&self) -> &[Junction] {
			match self {
				Junctions::Here => &[],
				Junctions::X1(a) => &a[..],
				Junctions::X2(a) => &a[..],
				Junctions::X3(a) => &a[..],
				Junctions::X4(a) => &a[..],
				Junctions::X5(a) => &a[..],
				Junctions::X6(a) => &a[..],
				Junctions::X7(a) => &a[..],
				Junctions::X8(a) => &a[..],
			}
		}
		fn junctions(&self) -> Vec<&Junction> {
			self.as_slice().iter().collect()
		}
		pub fn from_slice(j: &[Junction]) -> Option<Self> {
			Some(match *j {
				[] => Junctions::Here,
				[a] => Junctions::X1(Arc::new([a])),
				[a, b] => Junctions::X2(Arc::new([a, b])),
				[a, b, c] => Junctions::X3(Arc::new([a, b, c])),
				[a, b, c, d] => Junctions::X4(Arc::new([a, b, c, d])),
				[a, b, c, d, e] => Junctions::X5(Arc::new([a, b, c, d, e])),
				[a, b, c, d, e, f] => Junctions::X6(Arc::new([a, b, c, d, e, f])),
				[a, b, c, d, e, f, g] => Junctions::X7(Arc::new([a, b, c, d, e, f, g])),
				[a, b, c, d, e, f, g, h] => Junctions::X8(Arc::new([a, b, c, d, e, f, g, h])),
				_ => return None,
			})
		}
	}
	impl From<Junction> for Junctions {
		fn from(j: Junction) -> Self {
			[j].into()
		}
	}
	impl<const N: usize> From<[Junction; N]> for Junctions {
		fn from(j: [Junction; N]) -> Self {
			Junctions::from_slice(&j).expect("more junctions than there are")
		}
	}
	impl AsRef<[Junction]> for Junctions {
		fn as_ref(&self) -> &[Junction] {
			self.as_slice()
		}
	}
	location_api!(Location, Junctions, Junction);
	impl From<(Junction, Junction)> for Junctions {
		fn from(j: (Junction, Junction)) -> Self {
			[j.0, j.1].into()
		}
	}
	impl From<(Junction, Junction, Junction)> for Junctions {
		fn from(j: (Junction, Junction, Junction)) -> Self {
			[j.0, j.1, j.2].into()
		}
	}
	#[derive(Clone, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, Debug, TypeInfo, MaxEncodedLen)]
	pub struct Location {
		pub parents: u8,
		pub interior: Junctions,
	}
	impl Default for Location {
		fn default() -> Self {
			Location { parents: 0, interior: Junctions::Here }
		}
	}
	impl Location {
		pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self {
			Location { parents, interior: interior.into() }
		}
		pub const fn here() -> Self {
			Location { parents: 0, interior: Junctions::Here }
		}
		pub const fn parent() -> Self {
			Location { parents: 1, interior: Junctions::Here }
		}
		pub fn unpack(&self) -> (u8, &[Junction]) {
			(self.parents, self.interior.as_slice())
		}
	}
	impl From<Junctions> for Location {
		fn from(j: Junctions) -> Self {
			Location { parents: 0, interior: j }
		}
	}
	impl From<Junction> for Location {
		fn from(j: Junction) -> Self {
			Location { parents: 0, interior: j.into() }
		}
	}
	impl From<(u8, Junction)> for Location {
		fn from((parents, j): (u8, Junction)) -> Self {
			Location { parents, interior: j.into() }
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct Parent;
	impl From<Parent> for Location {
		fn from(_: Parent) -> Self {
			Location::parent()
		}
	}
	impl From<(Parent, Junction)> for Location {
		fn from((_, j): (Parent, Junction)) -> Self {
			Location { parents: 1, interior: j.into() }
		}
	}
	impl From<(Parent, Junction, Junction, Junction)> for Location {
		fn from((_, a, b, c): (Parent, Junction, Junction, Junction)) -> Self {
			Location { parents: 1, interior: [a, b, c].into() }
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct ParentThen(pub Junctions);
	impl From<ParentThen> for Location {
		fn from(p: ParentThen) -> Self {
			Location { parents: 1, interior: p.0 }
		}
	}

	#[derive(Clone, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, Debug, TypeInfo, MaxEncodedLen)]
	pub struct AssetId(pub Location);
	impl From<Location> for AssetId {
		fn from(l: Location) -> Self {
			AssetId(l)
		}
	}
	#[derive(Clone, Copy, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, Debug, TypeInfo, MaxEncodedLen)]
	pub enum AssetInstance {
		Undefined,
		Index(#[codec(compact)] u128),
	}
	#[derive(Clone, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, Debug, TypeInfo, MaxEncodedLen)]
	pub enum Fungibility {
		Fungible(#[codec(compact)] u128),
		NonFungible(AssetInstance),
	}
	impl From<u128> for Fungibility {
		fn from(x: u128) -> Self {
			Fungibility::Fungible(x)
		}
	}
	#[derive(Clone, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, Debug, TypeInfo, MaxEncodedLen)]
	pub struct Asset {
		pub id: AssetId,
		pub fun: Fungibility,
	}
	impl<A: Into<AssetId>, B: Into<Fungibility>> From<(A, B)> for Asset {
		fn from((id, fun): (A, B)) -> Self {
			Asset { id: id.into(), fun: fun.into() }
		}
	}
	#[derive(Clone, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, Debug, TypeInfo, Default)]
	pub struct Assets(Vec<Asset>);
	impl Assets {
		pub fn new() -> Self {
			Self(vec![])
		}
		pub fn into_inner(self) -> Vec<Asset> {
			self.0
		}
		pub fn inner(&self) -> &Vec<Asset> {
			&self.0
		}
		pub fn get(&self, i: usize) -> Option<&Asset> {
			self.0.get(i)
		}
		pub fn len(&self) -> usize {
			self.0.len()
		}
		pub fn is_empty(&self) -> bool {
			self.0.is_empty()
		}
	}
	impl From<Vec<Asset>> for Assets {
		fn from(v: Vec<Asset>) -> Self {
			Self(v)
		}
	}
	impl<T: Into<Asset>> From<T> for Assets {
		fn from(a: T) -> Self {
			Self(vec![a.into()])
		}
	}
	#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, TypeInfo)]
	pub enum WildAsset {
		All,
		AllCounted(#[codec(compact)] u32),
	}
	#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, TypeInfo)]
	pub enum AssetFilter {
		Definite(Assets),
		Wild(WildAsset),
	}

	#[derive(Clone, Copy, Encode, Decode, Eq, PartialEq, Debug, TypeInfo)]
	pub enum WeightLimit {
		Unlimited,
		Limited(W),
	}
	#[derive(Clone, Copy, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, Debug, TypeInfo, MaxEncodedLen)]
	pub enum OriginKind {
		Native,
		SovereignAccount,
		Superuser,
		Xcm,
	}
	#[derive(Encode, Decode, TypeInfo)]
	#[codec(encode_bound())]
	#[codec(decode_bound())]
	#[scale_info(bounds(), skip_type_params(T))]
	pub struct DoubleEncoded<T> {
		encoded: Vec<u8>,
		#[codec(skip)]
		_t: core::marker::PhantomData<T>,
	}
	impl<T> DoubleEncoded<T> {
		pub fn into_encoded(self) -> Vec<u8> {
			self.encoded
		}
		pub fn encoded(&self) -> &[u8] {
			&self.encoded
		}
	}
	impl<T> Clone for DoubleEncoded<T> {
		fn clone(&self) -> Self {
			Self { encoded: self.encoded.clone(), _t: Default::default() }
		}
	}
	impl<T> PartialEq for DoubleEncoded<T> {
		fn eq(&self, o: &Self) -> bool {
			self.encoded == o.encoded
		}
	}
	impl<T> Eq for DoubleEncoded<T> {}
	impl<T> core::fmt::Debug for DoubleEncoded<T> {
		fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
			self.encoded.fmt(f)
		}
	}
	impl<T> From<Vec<u8>> for DoubleEncoded<T> {
		fn from(encoded: Vec<u8>) -> Self {
			Self { encoded, _t: Default::default() }
		}
	}

	#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, TypeInfo)]
	pub struct QueryResponseInfo {
		pub destination: Location,
		#[codec(compact)]
		pub query_id: QueryId,
		pub max_weight: W,
	}
	#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, TypeInfo, MaxEncodedLen)]
	pub enum MaybeErrorCode {
		Success,
		Error(BoundedVec<u8, MaxDispatchErrorLen>),
		TruncatedError(BoundedVec<u8, MaxDispatchErrorLen>),
	}
	#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, TypeInfo, MaxEncodedLen)]
	pub struct PalletInfo {
		#[codec(compact)]
		pub index: u32,
		pub name: BoundedVec<u8, MaxPalletNameLen>,
		pub module_name: BoundedVec<u8, MaxPalletNameLen>,
		#[codec(compact)]
		pub major: u32,
		#[codec(compact)]
		pub minor: u32,
		#[codec(compact)]
		pub patch: u32,
	}
	impl PalletInfo {
		pub fn new(
			index: u32,
			name: Vec<u8>,
			module_name: Vec<u8>,
			major: u32,
			minor: u32,
			patch: u32,
		) -> core::result::Result<Self, Error> {
			let name = BoundedVec::try_from(name).map_err(|_| Error::Overflow)?;
			let module_name = BoundedVec::try_from(module_name).map_err(|_| Error::Overflow)?;
			Ok(Self { index, name, module_name, major, minor, patch })
		}
	}
	#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, TypeInfo, Default)]
	pub enum Response {
		#[default]
		Null,
		Assets(Assets),
		ExecutionResult(Option<(u32, Error)>),
		Version(u32),
		PalletsInfo(BoundedVec<PalletInfo, MaxPalletsInfo>),
		DispatchResult(MaybeErrorCode),
	}

	#[derive(frame_support::CloneNoBound, Encode, Decode, frame_support::EqNoBound, frame_support::PartialEqNoBound, frame_support::RuntimeDebugNoBound, TypeInfo)]
	#[codec(encode_bound())]
	#[codec(decode_bound())]
	#[scale_info(bounds(Call: 'static), skip_type_params(Call))]
	pub enum Instruction<Call> {
		WithdrawAsset(Assets),
		ReserveAssetDeposited(Assets),
		ReceiveTeleportedAsset(Assets),
		QueryResponse {
			#[codec(compact)]
			query_id: QueryId,
			response: Response,
			max_weight: W,
			querier: Option<Location>,
		},
		TransferAsset { assets: Assets, beneficiary: Location },
		Transact { origin_kind: OriginKind, require_weight_at_most: W, call: DoubleEncoded<Call> },
		HrmpNewChannelOpenRequest {
			#[codec(compact)]
			sender: u32,
			#[codec(compact)]
			max_message_size: u32,
			#[codec(compact)]
			max_capacity: u32,
		},
		HrmpChannelAccepted {
			#[codec(compact)]
			recipient: u32,
		},
		HrmpChannelClosing {
			#[codec(compact)]
			initiator: u32,
			#[codec(compact)]
			sender: u32,
			#[codec(compact)]
			recipient: u32,
		},
		ClearOrigin,
		DescendOrigin(InteriorLocation),
		ReportError(QueryResponseInfo),
		DepositAsset { assets: AssetFilter, beneficiary: Location },
		ReportHolding { response_info: QueryResponseInfo, assets: AssetFilter },
		BuyExecution { fees: Asset, weight_limit: WeightLimit },
		RefundSurplus,
		SetAppendix(Xcm<Call>),
		QueryPallet { module_name: Vec<u8>, response_info: QueryResponseInfo },
		ReportTransactStatus(QueryResponseInfo),
		ClearTransactStatus,
		UnpaidExecution { weight_limit: WeightLimit, check_origin: Option<Location> },
		DepositReserveAsset { assets: AssetFilter, dest: Location, xcm: Xcm<()> },
		InitiateReserveWithdraw { assets: AssetFilter, reserve: Location, xcm: Xcm<()> },
		TransferReserveAsset { assets: Assets, dest: Location, xcm: Xcm<()> },
		InitiateTeleport { assets: AssetFilter, dest: Location, xcm: Xcm<()> },
		ClaimAsset { assets: Assets, ticket: Location },
		SubscribeVersion {
			#[codec(compact)]
			query_id: QueryId,
			max_response_weight: W,
		},
		UnsubscribeVersion,
		UniversalOrigin(Junction),
		AliasOrigin(Location),
		SetTopic([u8; 32]),
		ClearTopic,
	}
	#[derive(frame_support::CloneNoBound, Encode, Decode, frame_support::EqNoBound, frame_support::PartialEqNoBound, frame_support::RuntimeDebugNoBound, TypeInfo)]
	#[codec(encode_bound())]
	#[codec(decode_bound())]
	#[scale_info(bounds(Call: 'static), skip_type_params(Call))]
	pub struct Xcm<Call>(pub Vec<Instruction<Call>>);
	impl<Call> Default for Xcm<Call> {
		fn default() -> Self {
			Xcm(vec![])
		}
	}

	#[derive(Clone, Copy, Encode, Decode, Eq, PartialEq, Debug, TypeInfo)]
	pub enum Error {
		Overflow,
		Unimplemented,
		BadOrigin,
		ExceedsMaxMessageSize,
		Transport(#[codec(skip)] &'static str),
		Unroutable,
		NotHoldingFees,
		Unanchored,
		Barrier,
	}
	#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, TypeInfo)]
	pub enum SendError {
		NotApplicable,
		Transport(#[codec(skip)] &'static str),
		Unroutable,
		DestinationUnsupported,
		ExceedsMaxMessageSize,
		MissingArgument,
		Fees,
	}
	impl From<SendError> for Error {
		fn from(e: SendError) -> Self {
			match e {
				SendError::NotApplicable | SendError::Unroutable | SendError::MissingArgument => Error::Unroutable,
				SendError::Transport(s) => Error::Transport(s),
				SendError::DestinationUnsupported => Error::Unroutable,
				SendError::ExceedsMaxMessageSize => Error::ExceedsMaxMessageSize,
				SendError::Fees => Error::NotHoldingFees,
			}
		}
	}
	pub trait SendXcm {
		type Ticket;
		fn validate(destination: &mut Option<Location>, message: &mut Option<Xcm<()>>) -> SendResult<Self::Ticket>;
		fn deliver(ticket: Self::Ticket) -> core::result::Result<XcmHash, SendError>;
	}
	pub fn send_xcm<T: SendXcm>(dest: Location, msg: Xcm<()>) -> core::result::Result<(XcmHash, Assets), SendError> {
		let (ticket, price) = T::validate(&mut Some(dest), &mut Some(msg))?;
		let hash = T::deliver(ticket)?;
		Ok((hash, price))
	}

	pub mod prelude {
		pub use super::{
			send_xcm, Asset,
			AssetFilter::{self, *},
			AssetId,
			AssetInstance::{self, *},
			BodyId, BodyPart,
			Assets, Error as XcmError,
			Fungibility::{self, *},
			Instruction::{self, *},
			InteriorLocation,
			Junction::{self, *},
			Junctions::{self, Here},
			Location, MaybeErrorCode,
			NetworkId::{self, *},
			OriginKind, PalletInfo, Parent, ParentThen, QueryId, QueryResponseInfo, Response, Result as XcmResult,
			SendError, SendResult, SendXcm, Weight,
			WeightLimit::{self, *},
			WildAsset::{self, *},
			Xcm, XcmHash,
		};
	}
}

/// The v3 locations fees are named with.
pub mod v3 {
	use crate::v4::{BodyId, BodyPart, NetworkId};
	use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;

	#[derive(Clone, Copy, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, Debug, TypeInfo, MaxEncodedLen)]
	pub enum Junction {
		Parachain(#[codec(compact)] u32),
		AccountId32 { network: Option<NetworkId>, id: [u8; 32] },
		AccountIndex64 { network: Option<NetworkId>, #[codec(compact)] index: u64 },
		AccountKey20 { network: Option<NetworkId>, key: [u8; 20] },
		PalletInstance(u8),
		GeneralIndex(#[codec(compact)] u128),
		GeneralKey { length: u8, data: [u8; 32] },
		OnlyChild,
		Plurality { id: BodyId, part: BodyPart },
		GlobalConsensus(NetworkId),
	}
	#[derive(Clone, Copy, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, Debug, TypeInfo, MaxEncodedLen)]
	pub enum Junctions {
		Here,
		X1(Junction),
		X2(Junction, Junction),
		X3(Junction, Junction, Junction),
		X4(Junction, Junction, Junction, Junction),
		X5(Junction, Junction, Junction, Junction, Junction),
		X6(Junction, Junction, Junction, Junction, Junction, Junction),
		X7(Junction, Junction, Junction, Junction, Junction, Junction, Junction),
		X8(Junction, Junction, Junction, Junction, Junction, Junction, Junction, Junction),
	}
	location_api!(MultiLocation, Junctions, Junction);
	#[derive(Clone, Copy, Encode, Decode, Eq, PartialEq, Ord, PartialOrd, Debug, TypeInfo, MaxEncodedLen)]
	pub struct MultiLocation {
		pub parents: u8,
		pub interior: Junctions,
	}
	impl Default for MultiLocation {
		fn default() -> Self {
			Self::here()
		}
	}
	impl MultiLocation {
		pub const fn here() -> Self {
			MultiLocation { parents: 0, interior: Junctions::Here }
		}
		pub const fn parent() -> Self {
			MultiLocation { parents: 1, interior: Junctions::Here }
		}
		pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self {
			MultiLocation { parents, interior: interior.into() }
		}
	}
	impl From<Junction> for Junctions {
		fn from(j: Junction) -> Self {
			Junctions::X1(j)
		}
	}
	impl Junctions {
		pub fn to_vec(&self) -> Vec<Junction> {
			match *self {
				Junctions::Here => vec![],
				Junctions::X1(a) => vec![a],
				Junctions::X2(a, b) => vec![a, b],
				Junctions::X3(a, b, c) => vec![a, b, c],
				Junctions::X4(a, b, c, d) => vec![a, b, c, d],
				Junctions::X5(a, b, c, d, e) => vec![a, b, c, d, e],
				Junctions::X6(a, b, c, d, e, f) => vec![a, b, c, d, e, f],
				Junctions::X7(a, b, c, d, e, f, g) => vec![a, b, c, d, e, f, g],
				Junctions::X8(a, b, c, d, e, f, g, h) => vec![a, b, c, d, e, f, g, h],
			}
		}
		pub fn from_slice(j: &[Junction]) -> Option<Self> {
			Some(match *j {
				[] => Junctions::Here,
				[a] => Junctions::X1(a),
				[a, b] => Junctions::X2(a, b),
				[a, b, c] => Junctions::X3(a, b, c),
				[a, b, c, d] => Junctions::X4(a, b, c, d),
				[a, b, c, d, e] => Junctions::X5(a, b, c, d, e),
				[a, b, c, d, e, f] => Junctions::X6(a, b, c, d, e, f),
				[a, b, c, d, e, f, g] => Junctions::X7(a, b, c, d, e, f, g),
				[a, b, c, d, e, f, g, h] => Junctions::X8(a, b, c, d, e, f, g, h),
				_ => return None,
			})
		}
		fn junctions(&self) -> Vec<&Junction> {
			match self {
				Junctions::Here => vec![],
				Junctions::X1(a) => vec![a],
				Junctions::X2(a, b) => vec![a, b],
				Junctions::X3(a, b, c) => vec![a, b, c],
				Junctions::X4(a, b, c, d) => vec![a, b, c, d],
				Junctions::X5(a, b, c, d, e) => vec![a, b, c, d, e],
				Junctions::X6(a, b, c, d, e, f) => vec![a, b, c, d, e, f],
				Junctions::X7(a, b, c, d, e, f, g) => vec![a, b, c, d, e, f, g],
				Junctions::X8(a, b, c, d, e, f, g, h) => vec![a, b, c, d, e, f, g, h],
			}
		}
		fn as_slice(&self) -> Vec<Junction> {
			self.to_vec()
		}
	}
	impl From<Junction> for crate::v4::Junction {
		fn from(j: Junction) -> Self {
			use crate::v4::Junction as N;
			match j {
				Junction::Parachain(x) => N::Parachain(x),
				Junction::AccountId32 { network, id } => N::AccountId32 { network, id },
				Junction::AccountIndex64 { network, index } => N::AccountIndex64 { network, index },
				Junction::AccountKey20 { network, key } => N::AccountKey20 { network, key },
				Junction::PalletInstance(x) => N::PalletInstance(x),
				Junction::GeneralIndex(x) => N::GeneralIndex(x),
				Junction::GeneralKey { length, data } => N::GeneralKey { length, data },
				Junction::OnlyChild => N::OnlyChild,
				Junction::Plurality { id, part } => N::Plurality { id, part },
				Junction::GlobalConsensus(n) => N::GlobalConsensus(n),
			}
		}
	}
	impl TryFrom<crate::v4::Location> for MultiLocation {
		type Error = ();
		fn try_from(l: crate::v4::Location) -> Result<Self, ()> {
			use crate::v4::Junction as N;
			let o = |j: N| match j {
				N::Parachain(x) => Junction::Parachain(x),
				N::AccountId32 { network, id } => Junction::AccountId32 { network, id },
				N::AccountIndex64 { network, index } => Junction::AccountIndex64 { network, index },
				N::AccountKey20 { network, key } => Junction::AccountKey20 { network, key },
				N::PalletInstance(x) => Junction::PalletInstance(x),
				N::GeneralIndex(x) => Junction::GeneralIndex(x),
				N::GeneralKey { length, data } => Junction::GeneralKey { length, data },
				N::OnlyChild => Junction::OnlyChild,
				N::Plurality { id, part } => Junction::Plurality { id, part },
				N::GlobalConsensus(n) => Junction::GlobalConsensus(n),
			};
			let v: Vec<Junction> = l.interior.as_slice().iter().map(|j| o(*j)).collect();
			let interior = Junctions::from_slice(&v).ok_or(())?;
			Ok(MultiLocation { parents: l.parents, interior })
		}
	}
	impl From<MultiLocation> for crate::v4::Location {
		fn from(l: MultiLocation) -> Self {
			use crate::v4::{Junction, Junctions};
			let v: Vec<Junction> = l.interior.to_vec().into_iter().map(Into::into).collect();
			let interior = Junctions::from_slice(&v).unwrap();
			crate::v4::Location { parents: l.parents, interior }
		}
	}
	pub mod prelude {
		pub use super::{
			Junction::{self, *},
			Junctions::{self, *},
			MultiLocation,
		};
	}
}
