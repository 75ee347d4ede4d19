R='runtimes/polimec/src/lib.rs'
X='runtimes/polimec/src/xcm_config.rs'
KITS={}
KITS['runtime']=dict(items='''
mod collective;
mod env;
mod fees;
mod prices;
mod rt;
mod txenv;
mod txs;
mod work;
mod xenv;
include!(concat!(env!("OUT_DIR"), "/poly.rs"));
use frame_support::{
	dispatch::{DispatchInfo, PostDispatchInfo},
	instances::{Instance1, Instance2},
	traits::{
		fungible::{Balanced, Inspect, Mutate},
		fungibles::{Inspect as Inspects, Mutate as Mutates},
		tokens::Preservation,
		Contains, ContainsPair, EnsureOrigin, EnsureOriginWithArg, Get, InstanceFilter, OnUnbalanced, PrivilegeCmp,
	},
	weights::{Weight, WeightToFee as _},
};
use pallet_asset_tx_payment::OnChargeAssetTransaction;
use pallet_transaction_payment::OnChargeTransaction;
use parachains_common::AccountId;
use parity_scale_codec::Encode;
use poly::{
	xcm_config::{w_pallet_xcm as wx, w_xcm_executor as w},
	*,
};
use polimec_common::PLMC_FOREIGN_ID;
use rt::{Balances, ForeignAssets, OriginCaller, Runtime, RuntimeOrigin, System, PRICES};
use sp_arithmetic::FixedU128;
use sp_runtime::{traits::AccountIdConversion, BuildStorage};
use xcm::v4::{prelude::*, Instruction as I, Junction as J};

const PLMC: u128 = 10_000_000_000;
pub const ASSETS: [(u32, u8); 3] = [(10, 10), (1984, 6), (1337, 6)];
type Charge = <Runtime as pallet_transaction_payment::Config>::OnChargeTransaction;
type ChargeAsset = <Runtime as pallet_asset_tx_payment::Config>::OnChargeAssetTransaction;
type Machine = xenv::Vm<w::Barrier, w::AssetTransactor, w::IsReserve, w::IsTeleporter, w::SafeCallFilter, w::Trader, w::Weigher>;
type Members = collective::RawOrigin<AccountId, Instance1>;
type Experts = collective::RawOrigin<AccountId, Instance2>;
fn acc(n: u8) -> AccountId {
	AccountId::new([n; 32])
}
fn operations() -> AccountId {
	frame_support::PalletId(*b"plmc/stk").into_account_truncating()
}
fn growth() -> AccountId {
	frame_support::PalletId(*b"plmc/tsy").into_account_truncating()
}
fn plmc(a: &AccountId) -> u128 {
	Balances::total_balance(a)
}
fn asset(id: u32, a: &AccountId) -> u128 {
	<ForeignAssets as Inspects<AccountId>>::balance(id, a)
}
fn remark() -> rt::RuntimeCall {
	rt::RuntimeCall::System(frame_system::Call::remark { remark: vec![] })
}
fn author(a: Option<AccountId>) {
	pallet_authorship::AUTHOR.with(|x| *x.borrow_mut() = a.map(|a| a.encode()));
}
fn price(id: u32, usd: f64) {
	PRICES.with(|p| p.borrow_mut().insert(id, FixedU128::from_inner((usd * 1e9) as u128 * 1_000_000_000)));
}
fn passes(c: &calls::RuntimeCall) -> bool {
	<w_frame_system::BaseCallFilter as Contains<calls::RuntimeCall>>::contains(c)
}
/// every call of the pallet with these names
fn named(pallet: &str, call: &str) -> calls::RuntimeCall {
	let s = calls::samples(&mut mon::Rng::new(1));
	s.into_iter().find(|(n, _)| n.pallet == pallet && n.call == call).unwrap_or_else(|| panic!("{pallet}::{call}")).1
}
fn signed(n: u8) -> OriginCaller {
	OriginCaller::system(frame_system::RawOrigin::Signed(acc(n)))
}
fn may<E: EnsureOrigin<RuntimeOrigin>>(o: OriginCaller) -> bool {
	E::try_origin(o.into()).is_ok()
}
fn hub() -> Location {
	Location::new(1, [J::Parachain(1000)])
}
fn on_hub(i: u128) -> Location {
	Location::new(1, [J::Parachain(1000), J::PalletInstance(50), J::GeneralIndex(i)])
}
fn local(n: u8) -> Location {
	J::AccountId32 { network: None, id: [n; 32] }.into()
}
fn send(from: Location, m: Vec<Instruction<()>>) -> xenv::Outcome {
	Machine::execute(from, m, &named("System", "remark"))
}
fn ran(o: xenv::Outcome) -> bool {
	matches!(o, xenv::Outcome::Ran { error: None, .. })
}
''',open='''
	let mut t = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
	let balances = (1..=6).map(acc).chain([operations(), growth()]).map(|a| (a, 100_000 * PLMC)).collect();
	pallet_balances::GenesisConfig::<Runtime> { balances }.assimilate_storage(&mut t).unwrap();
	sp_io::TestExternalities::from(t).execute_with(|| {
		System::set_block_number(1);
		price(PLMC_FOREIGN_ID, 0.5);
		for (id, d, usd) in [(10, 10, 5.0), (1984, 6, 1.0), (1337, 6, 1.0)] {
			price(id, usd);
			mini_assets::Asset::<Runtime, Instance2>::insert(id, mini_assets::pallet::Details { supply: 0, min_balance: 70_000, sufficient: true, accounts: 0, destroying: false });
			mini_assets::Metadata::<Runtime, Instance2>::insert(id, (b"a".to_vec(), b"a".to_vec(), d));
			for a in (1..=6).map(acc).chain([operations(), growth()]) {
				<ForeignAssets as Mutates<AccountId>>::mint_into(id, &a, 100_000_000_000_000).unwrap();
			}
		}
		@SETUP@
''',close='''
	});
''')
FEE='runtimes/shared-configuration/src/fee.rs'
PAY='''
let usdt = |x: f64| (x * 1e6) as u128;
let (info, post) = (DispatchInfo::default(), PostDispatchInfo::default());
let v3 = xcm::v3::MultiLocation { parents: 1, interior: xcm::v3::Junctions::X3(xcm::v3::Junction::Parachain(1000), xcm::v3::Junction::PalletInstance(50), xcm::v3::Junction::GeneralIndex(1984)) };
'''
SEEDS=[
dict(id='S57-asset-tip-out-of-the-refund', property='C49', kind='kit:runtime',
 edits=[(FEE,"""		// Calculate how much refund we should return.
		let (final_fee, refund) = paid.split(converted_fee);
		// Split the tip from the fee
		let (final_tip, final_fee_minus_tip) = final_fee.split(converted_tip);
""","""		// The tip comes first, then the fee; what is left is the refund.
		let (final_tip, paid) = paid.split(converted_tip);
		let (final_fee_minus_tip, refund) = paid.split(converted_fee);
""")],
 needs='A transaction with a tip pays in a foreign asset and uses less than the weight it was charged for.',
 breaks='The tip is charged twice: once in the fee that includes it and once more out of the payer\'s refund.',
 demo=PAY+'''
author(Some(acc(2)));
// 20 PLMC at 0.5 USD with a tip of 2; the call uses 12
let before = asset(1984, &acc(1));
let paid = <ChargeAsset as OnChargeAssetTransaction<Runtime>>::withdraw_fee(&acc(1), &remark(), &info, v3, 20 * PLMC, 2 * PLMC).unwrap();
assert_eq!(before - asset(1984, &acc(1)), usdt(10.0));
let (pot, tips) = (asset(1984, &operations()), asset(1984, &acc(2)));
<ChargeAsset as OnChargeAssetTransaction<Runtime>>::correct_and_deposit_fee(&acc(1), &info, &post, 12 * PLMC, 2 * PLMC, paid).unwrap();
assert_eq!(before - asset(1984, &acc(1)), usdt(6.0), "the payer paid for what was used");
assert_eq!(asset(1984, &acc(2)) - tips, usdt(1.0));
assert_eq!(asset(1984, &operations()) - pot, usdt(5.0));
'''),
dict(id='S58-authorless-tip-ends-fees', property='C49', kind='kit:runtime',
 edits=[(FEE,"""			if let Some(tips) = fees_then_tips.next() {
				// for tips, if any, 100% to author
				tips.merge_into(&mut split.1);
			}""","""			if let Some(tips) = fees_then_tips.next() {
				// for tips, if any, 100% to author
				if split.0.peek() > tips.peek() {
					tips.merge_into(&mut split.1);
				} else {
					tips.merge_into(&mut split.0);
				}
			}""")],
 needs='A transaction whose tip is as large as the fee that is kept.',
 breaks='A tip at least as large as the fee goes to the operations treasury and the author of the block gets nothing.',
 demo=PAY+'''
author(Some(acc(2)));
for (fee, tip) in [(3 * PLMC, PLMC), (3 * PLMC, 2 * PLMC), (PLMC, PLMC)] {
	let (pot, tips, payer) = (plmc(&operations()), plmc(&acc(2)), plmc(&acc(1)));
	let paid = <Charge as OnChargeTransaction<Runtime>>::withdraw_fee(&acc(1), &remark(), &info, fee, tip).unwrap();
	<Charge as OnChargeTransaction<Runtime>>::correct_and_deposit_fee(&acc(1), &info, &post, fee, tip, paid).unwrap();
	assert_eq!(payer - plmc(&acc(1)), fee);
	assert_eq!(plmc(&acc(2)) - tips, tip, "the author's tip");
	assert_eq!(plmc(&operations()) - pot, fee - tip);
}
'''),
dict(id='S59-dust-of-the-rich', property='C49', kind='kit:runtime',
 edits=[(R,"""		let treasury_account = BlockchainOperationTreasury::get();
		let _ = <Balances as tokens::fungible::Balanced<AccountId>>::resolve(&treasury_account, amount);""","""		// dust alone never opens the account
		let treasury_account = BlockchainOperationTreasury::get();
		if amount.peek() > shared_configuration::currency::MILLI_PLMC {
			let _ = <Balances as tokens::fungible::Balanced<AccountId>>::resolve(&treasury_account, amount);
		}"""),
  (R,"pub struct DustRemovalAdapter;","use frame_support::traits::Imbalance as _;\n\npub struct DustRemovalAdapter;")],
 needs='An account is reaped with no more than a thousandth of a PLMC left.',
 breaks='Dust up to a thousandth of a PLMC is burned instead of going to the operations treasury.',
 demo='''
for (who, left) in [(1, PLMC / 200), (2, PLMC / 1000), (3, 1)] {
	let (pot, issued) = (plmc(&operations()), Balances::total_issuance());
	let have = plmc(&acc(who));
	<Balances as Mutate<AccountId>>::transfer(&acc(who), &acc(6), have - left, Preservation::Expendable).unwrap();
	assert_eq!(plmc(&acc(who)), 0);
	assert_eq!(plmc(&operations()) - pot, left, "the dust");
	assert_eq!(Balances::total_issuance(), issued);
}
'''),
dict(id='S60-motion-outranks-smaller-motion', property='C50', kind='kit:runtime',
 edits=[(R,"""			(OriginCaller::system(frame_system::RawOrigin::Root), _) => Some(Ordering::Greater),
			_ => None,""","""			(OriginCaller::system(frame_system::RawOrigin::Root), _) => Some(Ordering::Greater),
			// The larger share of the council is greater than the smaller.
			(
				OriginCaller::Council(pallet_collective::RawOrigin::Members(l, lt)),
				OriginCaller::Council(pallet_collective::RawOrigin::Members(r, rt)),
			) => Some((l * rt).cmp(&(r * lt))),
			_ => None,""")],
 needs='A call scheduled by one council motion is cancelled by another one with more ayes.',
 breaks='One motion of the council outranks another, so a bare majority undoes what another motion has scheduled.',
 demo='''
type Cmp = w_pallet_scheduler::OriginPrivilegeCmp;
let root = OriginCaller::system(frame_system::RawOrigin::Root);
let motion = |a, b| OriginCaller::Council(Members::Members(a, b));
for o in [signed(1), motion(3, 5), OriginCaller::TechnicalCommittee(Experts::Members(3, 3))] {
	assert_eq!(<Cmp as PrivilegeCmp<OriginCaller>>::cmp_privilege(&root, &o), Some(std::cmp::Ordering::Greater));
	assert_eq!(<Cmp as PrivilegeCmp<OriginCaller>>::cmp_privilege(&o, &o), Some(std::cmp::Ordering::Equal));
}
assert_eq!(<Cmp as PrivilegeCmp<OriginCaller>>::cmp_privilege(&motion(5, 7), &motion(4, 7)), None, "motions do not outrank each other");
'''),
dict(id='S61-nontransfer-merges-vesting-aside', property='C50', kind='kit:runtime',
 edits=[(R,"""				RuntimeCall::Vesting(pallet_vesting::Call::vest {..}) |
				RuntimeCall::Vesting(pallet_vesting::Call::vest_other {..}) |
""",""),
  (R,"""				RuntimeCall::OracleProvidersMembership(..)
			),""","""				RuntimeCall::OracleProvidersMembership(..)
			) || match c {
				// Everything but moving the vested funds
				RuntimeCall::Vesting(call) => !matches!(
					call,
					pallet_vesting::Call::force_vested_transfer { .. } | pallet_vesting::Call::merge_schedules { .. }
				),
				_ => false,
			},""")],
 needs='A proxy that may do everything but transfer makes a vested transfer.',
 breaks='A non-transfer proxy can give its owner\'s funds away with a vested transfer.',
 demo='''
let t = w_pallet_proxy::ProxyType::NonTransfer;
assert!(t.filter(&named("Vesting", "vest")) && t.filter(&named("Vesting", "vest_other")));
for c in ["vested_transfer", "force_vested_transfer"] {
	assert!(!t.filter(&named("Vesting", c)), "a non-transfer proxy may {c}");
}
assert!(!t.filter(&named("Balances", "transfer_allow_death")));
'''),
dict(id='S62-anyone-on-asset-hub-unpaid', property='C51', kind='kit:runtime',
 edits=[(X,"matches!(location.unpack(), (1, [Parachain(1000)]))","matches!(location.unpack(), (1, [Parachain(1000), ..]))")],
 needs='A message descends to an account or contract on Asset Hub and asks for unpaid execution.',
 breaks='Any account or pallet on Asset Hub, not only Asset Hub itself, gets its messages executed for free.',
 demo='''
let unpaid = || vec![I::UnpaidExecution { weight_limit: Unlimited, check_origin: None }, I::ClearOrigin];
assert!(ran(send(hub(), unpaid())));
let user: Junctions = J::AccountId32 { network: None, id: [9; 32] }.into();
let mut m = unpaid();
m.insert(0, I::DescendOrigin(user));
assert_eq!(send(hub(), m), xenv::Outcome::Refused, "a user of Asset Hub ran for free");
'''),
dict(id='S63-any-asset-of-the-hub-backed', property='C51', kind='kit:runtime',
 edits=[(X,"matches!(l.unpack(), (1, []) | (1, USDC_JUNCTION) | (1, USDT_JUNCTION))","matches!(l.unpack(), (1, []) | (1, [Parachain(1000), PalletInstance(50 | 53), GeneralIndex(1337 | 1984)]))"),
  (X,"""			(1, USDC_JUNCTION) => Some(1337),
			(1, USDT_JUNCTION) => Some(1984),""","""			(1, [Parachain(1000), PalletInstance(_), GeneralIndex(1337)]) => Some(1337),
			(1, [Parachain(1000), PalletInstance(_), GeneralIndex(1984)]) => Some(1984),""")],
 needs='Asset Hub announces an asset of the same index in its other assets pallet.',
 breaks='An asset anyone can create on Asset Hub is minted here as USDT.',
 demo='''
let before = asset(1984, &acc(3));
let give = |i: Location| {
	vec![
		I::ReserveAssetDeposited(vec![Asset::from((i.clone(), 50_000_000u128))].into()),
		I::ClearOrigin,
		I::BuyExecution { fees: (i, 50_000_000u128).into(), weight_limit: Unlimited },
		I::DepositAsset { assets: Wild(WildAsset::All), beneficiary: local(3) },
	]
};
assert!(ran(send(hub(), give(on_hub(1984)))));
assert!(asset(1984, &acc(3)) > before);
let before = asset(1984, &acc(3));
let fake = Location::new(1, [J::Parachain(1000), J::PalletInstance(53), J::GeneralIndex(1984)]);
let m = vec![
	I::ReserveAssetDeposited(vec![Asset::from((on_hub(1337), 50_000_000u128)), Asset::from((fake, 50_000_000u128))].into()),
	I::BuyExecution { fees: (on_hub(1337), 50_000_000u128).into(), weight_limit: Unlimited },
	I::DepositAsset { assets: Wild(WildAsset::All), beneficiary: local(3) },
];
send(hub(), m);
assert_eq!(asset(1984, &acc(3)), before, "a look-alike was taken for USDT");
'''),
dict(id='S64-notice-with-a-tail', property='C51', kind='kit:runtime',
 edits=[(X,"instructions.matcher().assert_remaining_insts(1)?.match_next_inst(|inst| match inst {","instructions.matcher().match_next_inst(|inst| match inst {")],
 needs='The relay chain sends a channel notice with other instructions behind it.',
 breaks='Whatever follows a channel notice runs for free, without payment or an explicit request.',
 demo='''
let notice = || I::HrmpChannelAccepted { recipient: 2000 };
assert_ne!(send(Location::parent(), vec![notice()]), xenv::Outcome::Refused);
let m = vec![notice(), I::WithdrawAsset(vec![Asset::from((Location::here(), PLMC))].into())];
assert_eq!(send(Location::parent(), m), xenv::Outcome::Refused, "more than a notice ran");
'''),
dict(id='S65-fees-of-two-assets-swapped', property='C51', kind='kit:runtime',
 edits=[(X,"(UsdtLocation::get().into(), USDT_PER_SECOND_EXECUTION, USDT_PER_MB_PROOF)","(UsdtLocation::get().into(), USDT_PER_SECOND_EXECUTION, USDT_PER_MB_PROOF / 1024)")],
 needs='A message pays for its execution with USDT.',
 breaks='The proof size of a message is as good as free when it is paid for with USDT.',
 demo='''
for i in [1984, 1337] {
	let pot = asset(i as u32, &growth());
	let m = vec![
		I::ReserveAssetDeposited(vec![Asset::from((on_hub(i), 50_000_000u128))].into()),
		I::BuyExecution { fees: (on_hub(i), 50_000_000u128).into(), weight_limit: Unlimited },
		I::DepositAsset { assets: Wild(WildAsset::All), beneficiary: local(3) },
	];
	let x = Machine::weight(&m).unwrap();
	assert!(ran(send(hub(), m)));
	let due = 1_000_000 * x.ref_time() as u128 / 1_000_000_000_000 + 1_000_000 * x.proof_size() as u128 / (1024 * 1024);
	assert_eq!(asset(i as u32, &growth()) - pot, due, "paid for {x:?} with {i}");
}
'''),
dict(id='S66-bare-majority-sets-majority-carries', property='C52', kind='kit:runtime',
 edits=[(R,"type ExternalMajorityOrigin = pallet_collective::EnsureProportionAtLeast<AccountId, CouncilCollective, 3, 5>;","type ExternalMajorityOrigin = pallet_collective::EnsureProportionMoreThan<AccountId, CouncilCollective, 1, 2>;")],
 needs='A council motion that more than half but less than three fifths support.',
 breaks='A bare majority of the council makes the next external referendum carry by simple majority.',
 demo='''
type O = w_pallet_democracy::ExternalMajorityOrigin;
let motion = |a, b| OriginCaller::Council(Members::Members(a, b));
assert!(may::<O>(motion(3, 5)) && may::<O>(motion(6, 9)) && !may::<O>(motion(4, 9)));
assert!(!may::<O>(motion(5, 9)), "five ninths are not three fifths");
'''),
dict(id='S67-council-votes-as-experts', property='C52', kind='kit:runtime',
 edits=[(R,"""	type CancelProposalOrigin = EitherOfDiverse<
		EnsureRoot<AccountId>,
		pallet_collective::EnsureProportionAtLeast<AccountId, TechnicalCollective, 1, 1>,
	>;""","""	type CancelProposalOrigin = EitherOfDiverse<
		EnsureRoot<AccountId>,
		EitherOfDiverse<
			pallet_collective::EnsureProportionAtLeast<AccountId, TechnicalCollective, 1, 1>,
			pallet_collective::EnsureProportionAtLeast<AccountId, CouncilCollective, 1, 1>,
		>,
	>;""")],
 needs='A unanimous motion of the council to cancel a proposal of the public.',
 breaks='The council can throw out proposals of the public, which only the technical committee or Root may.',
 demo='''
type O = w_pallet_democracy::CancelProposalOrigin;
assert!(may::<O>(OriginCaller::TechnicalCommittee(Experts::Members(3, 3))));
assert!(!may::<O>(OriginCaller::TechnicalCommittee(Experts::Members(2, 3))));
assert!(!may::<O>(OriginCaller::Council(Members::Members(7, 7))), "the council cancelled a proposal");
'''),
]
