import runpy, os
R='runtimes/polimec/src/lib.rs'
X='runtimes/polimec/src/xcm_config.rs'
KITS=runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),'seeds_c.py'))['KITS']
SEEDS=[
dict(id='S68-oracle-not-told-who-left', property='C53', kind='kit:runtime',
 edits=[(R,"	type MembershipChanged = Oracle;\n	type MembershipInitialized = ();","	type MembershipChanged = ();\n	type MembershipInitialized = Oracle;")],
 needs='A member that has fed a price is removed from the oracle membership.',
 breaks='The price a removed provider fed last keeps counting: the oracle is never told that it left.',
 demo='''
use frame_support::traits::ChangeMembers;
for n in 1..=3 {
	env::FEEDS.with(|f| f.borrow_mut().insert(acc(n), 7));
}
<w_pallet_membership_1::MembershipChanged as ChangeMembers<AccountId>>::set_members_sorted(&[acc(1), acc(3)], &[acc(1), acc(2), acc(3)]);
let left: Vec<AccountId> = env::FEEDS.with(|f| f.borrow().keys().cloned().collect());
assert_eq!(left, vec![acc(1), acc(3)], "the oracle still counts a member that left");
'''),
dict(id='S69-relay-messages-from-here', property='C53', kind='kit:runtime',
 edits=[(R,"pub const RelayOrigin: AggregateMessageOrigin = AggregateMessageOrigin::Parent;","pub const RelayOrigin: AggregateMessageOrigin = AggregateMessageOrigin::Here;")],
 needs='The relay chain sends a message down.',
 breaks='Messages of the relay chain wait under this chain\'s own name: they are executed as its own, or not at all.',
 demo='''
use frame_support::{traits::HandleMessage, BoundedSlice};
<w_cumulus_pallet_parachain_system::DmpQueue as HandleMessage>::handle_message(BoundedSlice::try_from(&b"hi"[..]).unwrap());
let came = env::QUEUED.with(|q| q.borrow()[0].0.clone());
assert_eq!(came, env::cumulus_primitives_core::AggregateMessageOrigin::Parent, "a message of the relay chain came from elsewhere");
'''),
dict(id='S70-slash-keeps-the-lock', property='C53', kind='kit:runtime',
 edits=[(R,"	type OnSlash = Vesting;","	type OnSlash = ();")],
 needs='An evaluator with a vesting schedule is slashed.',
 breaks='The vesting lock of a slashed account is not lowered: what it has left stays locked as if nothing had been taken.',
 demo='''
use frame_support::traits::VestingSchedule;
use on_slash_vesting::OnSlash;
<rt::Vesting as VestingSchedule<AccountId>>::add_vesting_schedule(&acc(1), 50 * PLMC, PLMC, 1).unwrap();
<w_pallet_funding::OnSlash as OnSlash<AccountId, u128>>::on_slash(&acc(1), 10 * PLMC);
let locked = <rt::Vesting as VestingSchedule<AccountId>>::vesting_balance(&acc(1));
assert_eq!(locked, Some(40 * PLMC), "the slash is not taken off the lock");
'''),
dict(id='S71-operations-lend-the-bonds', property='C53', kind='kit:runtime',
 edits=[(R,"	type Treasury = TreasuryAccount;","	type Treasury = BlockchainOperationTreasury;")],
 needs='A participant has its bond lent by the treasury.',
 breaks='The bonds of participants are lent by the account that pays collators, and drain it.',
 demo='''
let (g, p) = (plmc(&growth()), plmc(&operations()));
rt::ProxyBonding::bond_on_behalf_of(3, acc(1), 20 * PLMC, 1984, pallet_funding::HoldReason::Participation.into()).unwrap();
assert_eq!(plmc(&operations()), p, "the collators' pot lent a bond");
assert!(plmc(&growth()) <= g - 20 * PLMC);
'''),
dict(id='S72-prime-lost-on-the-way', property='C53', kind='kit:runtime',
 edits=[(R,"	type ChangeMembers = Council;","	type ChangeMembers = TellCouncil;"),
  (R,"pub struct ToTreasury;\n","""/// Keeps the council up to date with the elections.
pub struct TellCouncil;
impl frame_support::traits::ChangeMembers<AccountId> for TellCouncil {
	fn change_members_sorted(incoming: &[AccountId], outgoing: &[AccountId], new: &[AccountId]) {
		// nothing to do if nobody came or left
		if incoming.is_empty() {
			return
		}
		<Council as frame_support::traits::ChangeMembers<AccountId>>::change_members_sorted(incoming, outgoing, new)
	}

	fn set_prime(prime: Option<AccountId>) {
		<Council as frame_support::traits::ChangeMembers<AccountId>>::set_prime(prime)
	}
}

pub struct ToTreasury;
""")],
 needs='A council member leaves and no runner-up takes the seat.',
 breaks='A member that leaves without a replacement keeps its seat and vote in the council.',
 demo='''
use frame_support::traits::ChangeMembers;
type Told = w_pallet_elections_phragmen::ChangeMembers;
<Told as ChangeMembers<AccountId>>::set_members_sorted(&[acc(1), acc(2), acc(3)], &[]);
assert_eq!(collective::Members::<Runtime, Instance1>::get(), vec![acc(1), acc(2), acc(3)]);
<Told as ChangeMembers<AccountId>>::set_members_sorted(&[acc(1), acc(3)], &[acc(1), acc(2), acc(3)]);
assert_eq!(collective::Members::<Runtime, Instance1>::get(), vec![acc(1), acc(3)], "a member that left still sits in the council");
'''),
]
