use xcm::{opaque::VersionedXcm, VersionedLocation};
pub trait InspectMessageQueues {
	fn get_messages() -> Vec<(VersionedLocation, Vec<VersionedXcm>)>;
}
