#![allow(unused_imports)]
//! What `construct_runtime!` and crates that are not in this sandbox give the polimec runtime.
pub use crate::{
	calls::RuntimeCall,
	rt::{
		Balances, ContributionTokens, Council, ForeignAssets, Funding, LinearRelease, Oracle, OriginCaller, ParachainStaking, ProxyBonding,
		Runtime, RuntimeEvent, RuntimeFreezeReason, RuntimeHoldReason, RuntimeOrigin, System, TechnicalCommittee, Timestamp, Vesting,
	},
	xenv::{cumulus_primitives_utility, xcm_builder, xcm_executor},
};
use frame_support::{
	traits::{
		ChangeMembers, Currency, EnqueueMessage, Footprint, InitializeMembers, OnTimestampSet, OnUnbalanced, QueueFootprint, QueuePausedQuery,
		SortedMembers,
	},
	BoundedSlice,
};
use mon::Rng;
use parachains_common::{
	message_queue::{AggregateMessageOrigin, OnQueueChanged},
	AccountId,
};
use parity_scale_codec::Decode;
use std::{
	cell::RefCell,
	collections::{BTreeMap, BTreeSet},
};

pub struct Treasury;
impl Treasury {
	pub fn account_id() -> AccountId {
		sp_runtime::traits::AccountIdConversion::into_account_truncating(&<crate::poly::w_pallet_treasury::PalletId as frame_support::traits::Get<frame_support::PalletId>>::get())
	}
}
/// As pallet-treasury takes what is slashed elsewhere.
impl OnUnbalanced<pallet_balances::NegativeImbalance<Runtime>> for Treasury {
	fn on_nonzero_unbalanced(x: pallet_balances::NegativeImbalance<Runtime>) {
		<Balances as Currency<AccountId>>::resolve_creating(&Self::account_id(), x);
	}
}
impl InitializeMembers<AccountId> for Oracle {
	fn initialize_members(_: &[AccountId]) {}
}
/// As orml-oracle: a member that leaves takes its values along.
impl ChangeMembers<AccountId> for Oracle {
	fn change_members_sorted(_: &[AccountId], outgoing: &[AccountId], _: &[AccountId]) {
		FEEDS.with(|f| f.borrow_mut().retain(|a, _| !outgoing.contains(a)));
		crate::prices::left(outgoing);
	}
	fn set_prime(_: Option<AccountId>) {}
}
thread_local! {
	/// What each provider fed last.
	pub static FEEDS: RefCell<BTreeMap<AccountId, u32>> = Default::default();
	pub static PROVIDERS: RefCell<Vec<AccountId>> = Default::default();
	pub static ELECTED: RefCell<Vec<AccountId>> = Default::default();
	/// What the message queue was given.
	pub static QUEUED: RefCell<Vec<(AggregateMessageOrigin, Vec<u8>)>> = Default::default();
	/// The channels of `XcmpQueue` that are held back, and what it was told.
	pub static PAUSED: RefCell<BTreeSet<u32>> = Default::default();
	pub static TOLD: RefCell<Vec<(u32, u64)>> = Default::default();
	pub static SLOTS: RefCell<Vec<u64>> = Default::default();
}
pub struct OracleProvidersMembership;
impl SortedMembers<AccountId> for OracleProvidersMembership {
	fn sorted_members() -> Vec<AccountId> {
		PROVIDERS.with(|p| p.borrow().clone())
	}
}
pub struct Elections;
impl SortedMembers<AccountId> for Elections {
	fn sorted_members() -> Vec<AccountId> {
		ELECTED.with(|p| p.borrow().clone())
	}
}
pub struct Aura;
impl OnTimestampSet<u64> for Aura {
	fn on_timestamp_set(t: u64) {
		SLOTS.with(|s| s.borrow_mut().push(t));
	}
}
pub struct MessageQueue;
impl EnqueueMessage<AggregateMessageOrigin> for MessageQueue {
	type MaxMessageLen = frame_support::traits::ConstU32<1_000>;

	fn enqueue_message(m: BoundedSlice<u8, Self::MaxMessageLen>, o: AggregateMessageOrigin) {
		QUEUED.with(|q| q.borrow_mut().push((o, m.to_vec())));
	}
	fn enqueue_messages<'a>(ms: impl Iterator<Item = BoundedSlice<'a, u8, Self::MaxMessageLen>>, o: AggregateMessageOrigin) {
		for m in ms {
			Self::enqueue_message(m, o.clone());
		}
	}
	fn sweep_queue(o: AggregateMessageOrigin) {
		QUEUED.with(|q| q.borrow_mut().retain(|(x, _)| *x != o));
	}
	fn footprint(o: AggregateMessageOrigin) -> QueueFootprint {
		let count = QUEUED.with(|q| q.borrow().iter().filter(|(x, _)| *x == o).count() as u64);
		QueueFootprint { storage: Footprint { count, size: 0 }, ..Default::default() }
	}
}
pub struct XcmpQueue;
impl QueuePausedQuery<cumulus_primitives_core::ParaId> for XcmpQueue {
	fn is_paused(id: &cumulus_primitives_core::ParaId) -> bool {
		PAUSED.with(|p| p.borrow().contains(&u32::from(*id)))
	}
}
impl OnQueueChanged<cumulus_primitives_core::ParaId> for XcmpQueue {
	fn on_queue_changed(id: cumulus_primitives_core::ParaId, f: QueueFootprint) {
		TOLD.with(|t| t.borrow_mut().push((id.into(), f.storage.count)));
	}
}
pub struct ParachainInfo;
impl ParachainInfo {
	pub fn parachain_id() -> polkadot_parachain_primitives::primitives::Id {
		3344.into()
	}
}
pub struct PolkadotXcm;
impl PolkadotXcm {
	pub fn check_account() -> AccountId {
		AccountId::new([0xcc; 32])
	}
}

pub mod polkadot_runtime_common {
	pub struct SlowAdjustingFeeUpdate<R>(core::marker::PhantomData<R>);
}
pub mod pallet_collective {
	pub use crate::collective::{
		Config, EnsureMember, EnsureMembers, EnsureProportionAtLeast, EnsureProportionMoreThan, Origin, Pallet, RawOrigin,
	};
	pub use frame_support::instances::*;
	pub use super::stub_pallet_collective::Call;
}
pub mod pallet_assets {
	pub use frame_support::instances::*;
	pub use mini_assets::{Config, Pallet};
	pub use super::stub_pallet_assets::Call;
}
pub mod orml_oracle {
	pub use super::stub_orml_oracle::Call;
	pub use crate::prices::DefaultCombineData;
}
pub mod pallet_democracy {
	pub use super::stub_pallet_democracy::Call;
	/// As in the repository's pallet (which `mon-gov` runs).
	pub trait GetElectorate<Balance> {
		fn get_electorate() -> Balance;
	}
}
pub mod pallet_xcm {
	pub use pxcm::{Config, Origin, Pallet};
	pub use super::stub_pallet_xcm::Call;
	#[allow(dead_code)]
	pub struct XcmPassthrough<O>(core::marker::PhantomData<O>);
}
pub mod cumulus_pallet_xcm {
	pub use cxcm::{Config, Origin, Pallet};
}
pub use cumulus_primitives_core_stub as cumulus_primitives_core;
pub mod cumulus_primitives_core_stub {
	pub use parachains_common::message_queue::AggregateMessageOrigin;
	pub use polkadot_parachain_primitives::primitives::Id as ParaId;
}

/// A call of the runtime under the names `construct_runtime!` gives its pallet.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Named {
	pub pallet: &'static str,
	pub path: &'static str,
	pub instance: &'static str,
	pub call: &'static str,
}
pub trait Sampled: Sized {
	fn samples(rng: &mut Rng) -> Vec<(&'static str, Self)>;
}
/// A pallet whose calls the harness does not know.
#[derive(Clone, Debug, PartialEq)]
pub struct Opaque;
impl Sampled for Opaque {
	fn samples(_: &mut Rng) -> Vec<(&'static str, Self)> {
		vec![("*", Opaque)]
	}
}
macro_rules! real {
	($($p:ident)*) => {$(
		impl Sampled for $p::Call<Runtime> {
			/// Every call index, with arguments decoded from zeros, from small and from random bytes.
			fn samples(rng: &mut Rng) -> Vec<(&'static str, Self)> {
				use frame_support::traits::{GetCallIndex, GetCallName};
				let names = <Self as GetCallName>::get_call_names();
				let mut v = vec![];
				for (k, i) in <Self as GetCallIndex>::get_call_indices().iter().enumerate() {
					for mode in 0..6 {
						let mut b = vec![*i];
						for _ in 0..600 {
							b.push(match mode { 0 => 0, 1 => rng.below(2) as u8, 2 => if rng.chance(1, 4) { rng.below(4) as u8 } else { 0 }, _ => rng.below(256) as u8 });
						}
						if let Ok(c) = Self::decode(&mut &b[..]) {
							v.push((names[k], c));
						}
					}
				}
				v
			}
		}
	)*};
}
real!(frame_system pallet_balances pallet_vesting pallet_funding pallet_linear_release pallet_parachain_staking);

macro_rules! stub {
	($($m:ident: $($c:ident)*;)*) => {$(
		pub mod $m {
			#[allow(non_camel_case_types)]
			#[derive(Clone, Debug, PartialEq)]
			pub enum Call { $($c {}),* }
			impl super::Sampled for Call {
				fn samples(_: &mut mon::Rng) -> Vec<(&'static str, Self)> {
					vec![$((stringify!($c), Call::$c {})),*]
				}
			}
		}
	)*};
}
stub! {
	stub_pallet_utility: batch as_derivative batch_all dispatch_as force_batch with_weight;
	stub_pallet_multisig: as_multi_threshold_1 as_multi approve_as_multi cancel_as_multi;
	stub_pallet_proxy: proxy add_proxy remove_proxy remove_proxies create_pure kill_pure announce remove_announcement reject_announcement proxy_announced;
	stub_pallet_identity: add_registrar set_identity set_subs clear_identity request_judgement cancel_request set_fee set_account_id set_fields
		provide_judgement kill_identity add_sub rename_sub remove_sub quit_sub add_username_authority remove_username_authority
		set_username_for accept_username remove_expired_approval set_primary_username remove_dangling_username;
	stub_pallet_preimage: note_preimage unnote_preimage request_preimage unrequest_preimage ensure_updated;
	stub_pallet_scheduler: schedule cancel schedule_named cancel_named schedule_after schedule_named_after set_retry set_retry_named cancel_retry cancel_retry_named;
	stub_pallet_treasury: propose_spend reject_proposal approve_proposal spend_local remove_approval spend payout check_status void_spend;
	stub_pallet_democracy: propose second vote emergency_cancel external_propose external_propose_majority external_propose_default fast_track veto_external
		cancel_referendum delegate undelegate clear_public_proposals unlock remove_vote remove_other_vote blacklist cancel_proposal set_metadata;
	stub_pallet_elections_phragmen: vote remove_voter submit_candidacy renounce_candidacy remove_member clean_defunct_voters;
	stub_pallet_assets: create force_create start_destroy destroy_accounts destroy_approvals finish_destroy mint burn transfer transfer_keep_alive
		force_transfer freeze thaw freeze_asset thaw_asset transfer_ownership set_team set_metadata clear_metadata force_set_metadata
		force_clear_metadata force_asset_status approve_transfer cancel_approval force_cancel_approval transfer_approved touch refund
		set_min_balance touch_other refund_other block;
	stub_pallet_collective: set_members execute propose vote disapprove_proposal close;
	stub_pallet_membership: add_member remove_member swap_member reset_members change_key set_prime clear_prime;
	stub_orml_oracle: feed_values;
	stub_pallet_dispenser: dispense set_dispense_amount;
	stub_pallet_timestamp: set;
	stub_pallet_session: set_keys purge_keys;
	stub_pallet_xcm: send teleport_assets reserve_transfer_assets execute force_xcm_version force_default_xcm_version force_subscribe_version_notify
		force_unsubscribe_version_notify limited_reserve_transfer_assets limited_teleport_assets force_suspension transfer_assets claim_assets
		transfer_assets_using_type_and_then;
	stub_pallet_message_queue: reap_page execute_overweight;
	stub_cumulus_pallet_xcmp_queue: suspend_xcm_execution resume_xcm_execution update_suspend_threshold update_drop_threshold update_resume_threshold;
	stub_cumulus_pallet_parachain_system: set_validation_data sudo_send_upward_message authorize_upgrade enact_authorized_upgrade;
	stub_pallet_proxy_bonding: transfer_fees_to_treasury transfer_fees_to_recipient;
}
pub use {stub_pallet_utility as pallet_utility, stub_pallet_multisig as pallet_multisig, stub_pallet_proxy as pallet_proxy, stub_pallet_identity as pallet_identity, stub_pallet_preimage as pallet_preimage, stub_pallet_scheduler as pallet_scheduler, stub_pallet_treasury as pallet_treasury, stub_pallet_elections_phragmen as pallet_elections_phragmen, stub_pallet_membership as pallet_membership, stub_pallet_dispenser as pallet_dispenser, stub_pallet_message_queue as pallet_message_queue, stub_cumulus_pallet_xcmp_queue as cumulus_pallet_xcmp_queue, stub_cumulus_pallet_parachain_system as cumulus_pallet_parachain_system};

/// `hex_literal::hex!`
pub mod hex_literal {
	pub const fn bytes<const N: usize>(s: &str) -> [u8; N] {
		const fn digit(c: u8) -> u8 {
			match c {
				b'0'..=b'9' => c - b'0',
				b'a'..=b'f' => c - b'a' + 10,
				b'A'..=b'F' => c - b'A' + 10,
				_ => panic!("not a hexadecimal digit"),
			}
		}
		let (s, mut out, mut k) = (s.as_bytes(), [0; N], 0);
		while k < N {
			out[k] = digit(s[2 * k]) * 16 + digit(s[2 * k + 1]);
			k += 1;
		}
		out
	}
	macro_rules! hex {
		($s:literal) => {{
			const N: usize = $s.len() / 2;
			crate::env::hex_literal::bytes::<N>($s)
		}};
	}
	pub(crate) use hex;
}
