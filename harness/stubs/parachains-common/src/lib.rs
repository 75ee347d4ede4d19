//! Constants and adapters of parachains-common 14.
pub type BlockNumber = u32;
pub type Balance = u128;
pub type AccountId = sp_runtime::AccountId32;
pub type AssetIdForTrustBackedAssets = u32;
pub const MILLISECS_PER_BLOCK: u64 = 12_000;
pub const SLOT_DURATION: u64 = MILLISECS_PER_BLOCK;
pub const MINUTES: BlockNumber = 60_000 / (MILLISECS_PER_BLOCK as BlockNumber);
pub const HOURS: BlockNumber = MINUTES * 60;
pub const DAYS: BlockNumber = HOURS * 24;
pub const AVERAGE_ON_INITIALIZE_RATIO: sp_runtime::Perbill = sp_runtime::Perbill::from_percent(5);
pub const NORMAL_DISPATCH_RATIO: sp_runtime::Perbill = sp_runtime::Perbill::from_percent(75);
pub const MAXIMUM_BLOCK_WEIGHT: frame_support::weights::Weight = frame_support::weights::Weight::from_parts(
	frame_support::weights::constants::WEIGHT_REF_TIME_PER_SECOND.saturating_div(2),
	5 * 1024 * 1024,
);

#[cfg(feature = "adapters")]
pub mod impls {
	use frame_support::traits::fungibles::{Balanced, Credit};
	use pallet_asset_tx_payment::HandleCredit;
	use std::marker::PhantomData;

	pub type AccountIdOf<R> = <R as frame_system::Config>::AccountId;

	/// As in parachains-common: the credit goes to the author, if there is one.
	pub struct AssetsToBlockAuthor<R, I>(PhantomData<(R, I)>);
	impl<R, I> HandleCredit<AccountIdOf<R>, mini_assets::Pallet<R, I>> for AssetsToBlockAuthor<R, I>
	where
		I: 'static,
		R: pallet_authorship::Config + mini_assets::Config<I>,
	{
		fn handle_credit(credit: Credit<AccountIdOf<R>, mini_assets::Pallet<R, I>>) {
			if let Some(author) = pallet_authorship::Pallet::<R>::author() {
				let _ = mini_assets::Pallet::<R, I>::resolve(&author, credit);
			}
		}
	}
}

#[cfg(feature = "adapters")]
pub mod message_queue {
	use frame_support::traits::{QueueFootprint, QueuePausedQuery};
	use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	use polkadot_parachain_primitives::primitives::Id as ParaId;
	use std::marker::PhantomData;

	/// As in cumulus-primitives-core.
	#[derive(Encode, Decode, Clone, MaxEncodedLen, Eq, PartialEq, scale_info::TypeInfo, Debug)]
	pub enum AggregateMessageOrigin {
		Here,
		Parent,
		Sibling(ParaId),
	}
	/// As in pallet-message-queue.
	pub trait OnQueueChanged<Id> {
		fn on_queue_changed(id: Id, fp: QueueFootprint);
	}
	impl<Id> OnQueueChanged<Id> for () {
		fn on_queue_changed(_: Id, _: QueueFootprint) {}
	}
	/// As in parachains-common.
	pub struct ParaIdToSibling;
	impl sp_runtime::traits::Convert<ParaId, AggregateMessageOrigin> for ParaIdToSibling {
		fn convert(id: ParaId) -> AggregateMessageOrigin {
			AggregateMessageOrigin::Sibling(id)
		}
	}
	pub struct NarrowOriginToSibling<Inner>(PhantomData<Inner>);
	impl<Inner: QueuePausedQuery<ParaId>> QueuePausedQuery<AggregateMessageOrigin> for NarrowOriginToSibling<Inner> {
		fn is_paused(o: &AggregateMessageOrigin) -> bool {
			match o {
				AggregateMessageOrigin::Sibling(id) => Inner::is_paused(id),
				_ => false,
			}
		}
	}
	impl<Inner: OnQueueChanged<ParaId>> OnQueueChanged<AggregateMessageOrigin> for NarrowOriginToSibling<Inner> {
		fn on_queue_changed(o: AggregateMessageOrigin, fp: QueueFootprint) {
			if let AggregateMessageOrigin::Sibling(id) = o {
				Inner::on_queue_changed(id, fp)
			}
		}
	}
}
