//! Parachain ids.
pub mod primitives {
	use parity_scale_codec::{CompactAs, Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;
	use sp_runtime::TypeId;

	#[derive(
		Clone, CompactAs, Copy, Decode, Default, Encode, Eq, Hash, MaxEncodedLen, Ord, PartialEq, PartialOrd,
		serde::Serialize, serde::Deserialize, TypeInfo, Debug,
	)]
	pub struct Id(pub u32);
	impl TypeId for Id {
		const TYPE_ID: [u8; 4] = *b"para";
	}
	impl From<Id> for u32 {
		fn from(x: Id) -> Self {
			x.0
		}
	}
	impl From<u32> for Id {
		fn from(x: u32) -> Self {
			Id(x)
		}
	}
	impl Id {
		pub const fn new(id: u32) -> Self {
			Self(id)
		}
	}

	#[derive(Clone, Copy, Encode, Decode, Eq, PartialEq, Debug, TypeInfo, PartialOrd, Ord)]
	pub struct Sibling(pub Id);
	impl TypeId for Sibling {
		const TYPE_ID: [u8; 4] = *b"sibl";
	}
	impl From<u32> for Sibling {
		fn from(x: u32) -> Self {
			Sibling(Id(x))
		}
	}
}
