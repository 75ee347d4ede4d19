F='pallets/funding/src/functions/'
RA='pallets/funding/src/runtime_api.rs'
ST='pallets/parachain-staking/src/'
KITS={}
KITS['funding']=dict(items='''
use frame_support::{
	assert_noop, assert_ok,
	traits::{
		fungible::{Inspect as _, InspectHold as _},
		fungibles::{metadata::Mutate as _, Create as _, Inspect as _, Mutate as _},
	},
};
use pallet_funding::{
	self as pf, AcceptedFundingAsset as Asset, BidStatus, BiddingTicketSizes, ContributingTicketSizes, CurrencyMetadata, ParticipationMode as Mode, ProjectMetadataOf,
	ProjectStatus, TicketSize,
};
use polimec_common::{
	credentials::{Algorithm, AlgorithmExt, Ed25519, Header, InvestorType, SampleClaims, StandardClaims, UntrustedToken},
	PLMC_FOREIGN_ID, USD_UNIT,
};
use sp_arithmetic::{FixedU128, Percent};
use sp_runtime::BuildStorage;
type E = pf::Error<Test>;
const NOW_MS: u64 = 1_700_000_000_000;
const CT: u128 = 10_000_000_000;
const EVALUATION: RuntimeHoldReason = RuntimeHoldReason::PolimecFunding(pf::HoldReason::Evaluation);
const PARTICIPATION: RuntimeHoldReason = RuntimeHoldReason::PolimecFunding(pf::HoldReason::Participation);
fn cid() -> polimec_common::credentials::Cid {
	b"ipfs-policy".to_vec().try_into().unwrap()
}
fn token(who: Acc, person: u8, inv: InvestorType) -> UntrustedToken {
	let claims = SampleClaims::<Acc> { subject: who, issuer: "verifier".into(), ipfs_cid: cid(), investor_type: inv, did: format!("did:polimec:{person}").into_bytes().try_into().unwrap() };
	let mut c = StandardClaims::new(claims);
	c.expiration = Some(chrono::TimeZone::timestamp_opt(&chrono::Utc, (NOW_MS / 1000) as i64 + 100_000, 0).single().unwrap());
	use polimec_common::credentials::alg::SigningKey;
	let k = <<Ed25519 as Algorithm>::SigningKey as SigningKey<Ed25519>>::from_slice(&SIGNING_KEY).unwrap();
	UntrustedToken::new(&Ed25519.token(&Header::empty(), &c, &k).unwrap()).unwrap()
}
fn sig(a: u128) -> RuntimeOrigin {
	RuntimeOrigin::signed(Acc(a))
}
/// 10 USD a token
fn meta(tokens: u128, auction: u8) -> ProjectMetadataOf<Test> {
	let t = |min: u128| TicketSize::new(min * USD_UNIT, None);
	ProjectMetadataOf::<Test> {
		token_information: CurrencyMetadata { name: b"Token".to_vec().try_into().unwrap(), symbol: b"TKN".to_vec().try_into().unwrap(), decimals: 10 },
		mainnet_token_max_supply: 8_000_000 * CT,
		total_allocation_size: tokens * CT,
		auction_round_allocation_percentage: Percent::from_percent(auction),
		minimum_price: FixedU128::from_inner(10_000_000 * 100_000_000),
		bidding_ticket_sizes: BiddingTicketSizes { professional: t(5000), institutional: t(5000), phantom: Default::default() },
		contributing_ticket_sizes: ContributingTicketSizes { retail: t(1), professional: t(1), institutional: t(1), phantom: Default::default() },
		participation_currencies: vec![Asset::USDT, Asset::USDC, Asset::DOT].try_into().unwrap(),
		funding_destination_account: Acc(9000),
		policy_ipfs_cid: Some(cid()),
	}
}
fn usdt(a: u128) -> u128 {
	ForeignAssets::balance(Asset::USDT.id(), &Acc(a))
}
fn held(a: u128, r: &RuntimeHoldReason) -> u128 {
	Balances::balance_on_hold(r, &Acc(a))
}
fn create(issuer: u128, m: ProjectMetadataOf<Test>) -> u32 {
	let id = pf::NextProjectId::<Test>::get();
	assert_ok!(PolimecFunding::create_project(sig(issuer), token(Acc(issuer), issuer as u8, InvestorType::Institutional), m));
	id
}
fn start(issuer: u128, p: u32) {
	assert_ok!(PolimecFunding::start_evaluation(sig(issuer), token(Acc(issuer), issuer as u8, InvestorType::Institutional), p));
}
fn evaluate(who: u128, p: u32, usd: u128) {
	assert_ok!(PolimecFunding::evaluate(sig(who), token(Acc(who), who as u8, InvestorType::Professional), p, usd * USD_UNIT));
}
fn bid(who: u128, p: u32, tokens: u128, mode: Mode) -> frame_support::dispatch::DispatchResultWithPostInfo {
	PolimecFunding::bid(sig(who), token(Acc(who), who as u8, InvestorType::Institutional), p, tokens * CT, mode, Asset::USDT)
}
fn contribute(who: u128, p: u32, amount: u128, mode: Mode) -> frame_support::dispatch::DispatchResultWithPostInfo {
	PolimecFunding::contribute(sig(who), token(Acc(who), who as u8, InvestorType::Retail), p, amount, mode, Asset::USDT)
}
fn details(p: u32) -> pf::ProjectDetailsOf<Test> {
	pf::ProjectsDetails::<Test>::get(p).unwrap()
}
fn pass(n: u64) {
	System::set_block_number(System::block_number() + n);
}
/// a project of account 1 whose evaluation account 2 has carried: in its auction
fn in_auction(m: ProjectMetadataOf<Test>, usd: u128) -> u32 {
	let p = create(1, m);
	start(1, p);
	evaluate(2, p, usd);
	pass(EVAL + 1);
	assert_ok!(PolimecFunding::end_evaluation(sig(9), p));
	p
}
fn end_auction(p: u32) {
	pass(AUCTION + 1);
	assert_ok!(PolimecFunding::end_auction(sig(9), p));
}
fn end_funding(p: u32) {
	pass(COMMUNITY + REMAINDER + 1);
	assert_ok!(PolimecFunding::end_funding(sig(9), p));
	pass(1);
	assert_ok!(PolimecFunding::start_settlement(sig(9), p));
}
''',open='''
	use sp_runtime::traits::AccountIdConversion;
	let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut balances: Vec<(Acc, u128)> = (1..=9).map(|u| (Acc(u), 1_000_000_000 * PLMC)).collect();
	let pal: Acc = FundingPalletId::get().into_account_truncating();
	for a in [pal, CtTreasury::get(), SlashTreasury::get(), FeeRecipient::get()] {
		balances.push((a, ED));
	}
	balances.push((BondTreasury::get(), 1_000_000_000_000 * PLMC));
	pallet_balances::GenesisConfig::<Test> { balances }.assimilate_storage(&mut t).unwrap();
	sp_io::TestExternalities::from(t).execute_with(|| {
		System::set_block_number(1);
		frame_support::storage::unhashed::put(&pallet_timestamp::Now::<Test>::hashed_key(), &NOW_MS);
		PRICES.with(|p| {
			*p.borrow_mut() =
				[(PLMC_FOREIGN_ID, 10_000_000), (Asset::USDT.id(), 1_000_000), (Asset::USDC.id(), 1_000_000), (Asset::DOT.id(), 50_000_000)].into_iter().collect()
		});
		for (a, d, min) in [(Asset::USDT, 6, 70_000), (Asset::USDC, 6, 70_000), (Asset::DOT, 10, 100_000_000)] {
			ForeignAssets::create(a.id(), Acc(77), true, min).unwrap();
			ForeignAssets::set(a.id(), &Acc(77), vec![1], vec![1], d).unwrap();
			for u in 1..=9 {
				ForeignAssets::mint_into(a.id(), &Acc(u), 100_000_000 * USD_UNIT).unwrap();
			}
		}
		@SETUP@
''',close='''
	});
''')
SEEDS=[
dict(id='S18-slash-of-what-is-left', property='C31', kind='kit:funding',
 edits=[(F+'6_settlement.rs',"let slashed_amount = slash_percentage * evaluation.original_plmc_bond;","let slashed_amount = slash_percentage * evaluation.current_plmc_bond;")],
 needs='An evaluator of a project that fails has turned part of its evaluation bond into a participation bond.',
 breaks='The evaluator is slashed a fifth of what is left of its evaluation bond instead of a fifth of the bond it made.',
 demo='''
let p = in_auction(meta(100_000, 50), 100_000);
let treasury = Balances::balance(&SlashTreasury::get());
// 10000 PLMC on hold; 5000 of them become the bond of a bid
assert_ok!(bid(2, p, 5_000, Mode::Classic(1)));
assert_eq!(held(2, &EVALUATION), 5_000 * PLMC);
end_auction(p);
end_funding(p);
assert_eq!(details(p).status, ProjectStatus::SettlementStarted(pf::FundingOutcome::Failure));
assert_ok!(PolimecFunding::settle_evaluation(sig(9), p, Acc(2), 0));
assert_eq!(Balances::balance(&SlashTreasury::get()) - treasury, 2_000 * PLMC);
'''),
dict(id='S19-bond-unlocks-from-settlement', property='C33', kind='kit:funding',
 edits=[(F+'6_settlement.rs',"""				vesting_info.amount_per_block,
				funding_end_block,
				HoldReason::Participation.into(),""","""				vesting_info.amount_per_block,
				funding_end_block.max(<frame_system::Pallet<T>>::block_number()),
				HoldReason::Participation.into(),""")],
 needs='A participation with a multiplier above one is settled some blocks after the settlement began.',
 breaks='The participation bond unlocks over its vesting period from the block of settlement instead of from the funding end.',
 demo='''
let p = in_auction(meta(100_000, 50), 100_000);
assert_ok!(bid(3, p, 50_000, Mode::Classic(5)));
end_auction(p);
end_funding(p);
let end = details(p).funding_end_block.unwrap();
pass(100_000);
assert_ok!(PolimecFunding::settle_bid(sig(9), p, Acc(3), 0));
let s = pallet_linear_release::Vesting::<Test>::get(Acc(3), PARTICIPATION).unwrap();
assert_eq!(s[0].starting_block(), end);
'''),
dict(id='S20-project-bid-limit-per-call', property='C29', kind='kit:funding',
 edits=[(F+'3_auction.rs',"""				total_bids_for_project: total_bids_for_project.saturating_add(perform_bid_calls),""","""				total_bids_for_project,""")],
 needs='A bid that spans several price buckets in a project that is almost at its limit of bids.',
 breaks='The bids a single call splits into are not counted against the limit of bids per project while it runs, so the limit is exceeded.',
 demo='''
MaxBidsPerProject::set(4);
let p = in_auction(meta(100_000, 50), 100_000);
for who in [3, 4, 5] {
	assert_ok!(bid(who, p, 1_000, Mode::Classic(1)));
}
// fills the first bucket and takes from the two after it
assert_noop!(bid(6, p, 50_000, Mode::Classic(1)), E::TooManyProjectParticipations);
'''),
dict(id='S21-edit-keeps-the-old-bucket', property='C29', kind='kit:funding',
 edits=[(F+'1_application.rs',"""		// * Get variables *
		let project_details = ProjectsDetails::<T>::get(project_id).ok_or(Error::<T>::ProjectDetailsNotFound)?;

		// * Validity checks *
		ensure!(project_details.issuer_account == issuer, Error::<T>::NotIssuer);
		ensure!(!project_details.is_frozen, Error::<T>::ProjectIsFrozen);
""","""		// * Get variables *
		let project_details = ProjectsDetails::<T>::get(project_id).ok_or(Error::<T>::ProjectDetailsNotFound)?;
		let old_metadata = ProjectsMetadata::<T>::get(project_id).ok_or(Error::<T>::ProjectMetadataNotFound)?;

		// * Validity checks *
		ensure!(project_details.issuer_account == issuer, Error::<T>::NotIssuer);
		ensure!(!project_details.is_frozen, Error::<T>::ProjectIsFrozen);
"""),(F+'1_application.rs',"""		ProjectsDetails::<T>::insert(project_id, project_details);
		Buckets::<T>::insert(project_id, bucket);

		// * Emit events *
		Self::deposit_event(Event::MetadataEdited""","""		ProjectsDetails::<T>::insert(project_id, project_details);
		// the bucket is made from the price and the amount for sale
		if old_metadata.minimum_price != new_project_metadata.minimum_price ||
			old_metadata.total_allocation_size != new_project_metadata.total_allocation_size
		{
			Buckets::<T>::insert(project_id, bucket);
		}

		// * Emit events *
		Self::deposit_event(Event::MetadataEdited""")],
 needs='Before evaluation the issuer edits only the share of tokens sold in the auction.',
 breaks='The price bucket stays the one of the old auction allocation, so the price rises too late or too early.',
 demo='''
let p = create(1, meta(100_000, 50));
assert_ok!(PolimecFunding::edit_project(sig(1), token(Acc(1), 1, InvestorType::Institutional), p, meta(100_000, 20)));
start(1, p);
evaluate(2, p, 100_000);
pass(EVAL + 1);
assert_ok!(PolimecFunding::end_evaluation(sig(9), p));
assert_ok!(bid(3, p, 20_000, Mode::Classic(1)));
assert_ok!(bid(4, p, 1_000, Mode::Classic(1)));
// the allocation of 20000 is used up: the next bid costs a tenth more
assert_eq!(pf::Bids::<Test>::get((p, Acc(4), 1)).unwrap().original_ct_usd_price, FixedU128::from_inner(11_000_000 * 100_000_000));
'''),
dict(id='S22-person-limit-by-account', property='C30', kind='kit:funding',
 edits=[(F+'4_contribution.rs',"""		let total_usd_bought_by_did = ContributionBoughtUSD::<T>::get((project_id, did.clone()));
""","""		let total_usd_bought_by_did = caller_existing_contributions
			.iter()
			.filter(|contribution| contribution.did == did)
			.fold(Balance::zero(), |total, contribution| total.saturating_add(contribution.usd_contribution_amount));
""")],
 needs='One person contributes from two accounts, together above the maximum per person.',
 breaks='The maximum per person is summed over the contributions of the calling account only.',
 demo='''
let mut m = meta(100_000, 50);
m.contributing_ticket_sizes.retail.usd_maximum_per_did = Some(1_000 * USD_UNIT);
let p = in_auction(m, 100_000);
end_auction(p);
assert_ok!(contribute(3, p, 60 * CT, Mode::Classic(1)));
let other = token(Acc(4), 3, InvestorType::Retail);
assert_noop!(PolimecFunding::contribute(sig(4), other, p, 60 * CT, Mode::Classic(1), Asset::USDT), E::TooHigh);
'''),
dict(id='S23-settled-frees-the-issuer-again', property='C27', kind='kit:funding',
 edits=[(F+'6_settlement.rs',"""		// Mark the project as settled
		Self::transition_project(""","""		// The issuer may open another project
		DidWithActiveProjects::<T>::set(project_details.issuer_did.clone(), None);

		// Mark the project as settled
		Self::transition_project(""")],
 needs='An issuer whose project failed opens a second one before the first is marked as settled.',
 breaks='Marking the old project as settled clears the guard that the new project has set, so the issuer can open a third while the second is active.',
 demo='''
let first = create(1, meta(100_000, 50));
start(1, first);
pass(EVAL + 1);
assert_ok!(PolimecFunding::end_evaluation(sig(9), first));
let second = create(1, meta(100_000, 50));
start(1, second);
pass(1);
assert_ok!(PolimecFunding::start_settlement(sig(9), first));
assert_ok!(PolimecFunding::mark_project_as_settled(sig(9), first));
let t = token(Acc(1), 1, InvestorType::Institutional);
assert_noop!(PolimecFunding::create_project(sig(1), t, meta(100_000, 50)), E::HasActiveProject);
'''),
dict(id='S24-slash-deposit-of-what-is-left', property='C28', kind='kit:funding',
 edits=[(F+'misc.rs',"let slash_deposit = <T as Config>::EvaluatorSlash::get() * evaluation.original_plmc_bond;","let slash_deposit = <T as Config>::EvaluatorSlash::get() * evaluation.current_plmc_bond;")],
 needs='An evaluator participates twice in the project it evaluated, with bonds that together exceed its evaluation bond less the slash deposit.',
 breaks='The slashable deposit is a fifth of what is left of the bond, so that repeated participations eat into it.',
 demo='''
let p = in_auction(meta(100_000, 50), 100_000);
assert_ok!(bid(2, p, 8_000, Mode::Classic(1)));
assert_eq!(held(2, &EVALUATION), 2_000 * PLMC);
assert_ok!(bid(2, p, 2_000, Mode::Classic(1)));
assert_eq!((held(2, &EVALUATION), held(2, &PARTICIPATION)), (2_000 * PLMC, 10_000 * PLMC));
'''),
]
R='pallets/linear-release/src/'
P='pallets/proxy-bonding/src/'
KITS['release']=dict(items='''
use frame_support::{assert_noop, assert_ok, traits::fungible::Inspect};
fn sig(a: u64) -> RuntimeOrigin {
	RuntimeOrigin::signed(a)
}
fn held(a: u64, r: Reason) -> u128 {
	Balances::balance_on_hold(&r, &a)
}
fn give(to: u64, locked: u128, per: u128, start: u64, r: Reason) {
	assert_ok!(Release::vested_transfer(sig(9), to, Info::new(locked, per, start), r));
}
fn at(n: u64) {
	System::set_block_number(n);
}
''',open='''
	let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Test> { balances: vec![(1, 1_000), (2, 1_000), (9, 1_000_000)] }.assimilate_storage(&mut t).unwrap();
	sp_io::TestExternalities::from(t).execute_with(|| {
		at(1);
		@SETUP@
''',close='''
	});
''')
KITS['proxy']=dict(items='''
use frame_support::{assert_noop, assert_ok};
const U: u128 = 10_000_000_000;
fn sig(a: Acc) -> RuntimeOrigin {
	RuntimeOrigin::signed(a)
}
fn sub(path: u32) -> Acc {
	Proxy::get_bonding_account(path)
}
fn held(path: u32, r: Reason) -> u128 {
	Balances::balance_on_hold(&r, &sub(path))
}
fn fee(asset: u32, who: Acc) -> u128 {
	Assets::balance(asset, &who)
}
/// a call: what fails leaves no trace
fn call<T>(f: impl FnOnce() -> Result<T, DispatchError>) -> Result<T, DispatchError> {
	with_storage_layer(f)
}
''',open='''
	let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Test> { balances: vec![(1, 1_000 * U), (2, 1_000 * U), (Treasury::get(), 1_000_000 * U), (Recipient::get(), U)] }.assimilate_storage(&mut t).unwrap();
	sp_io::TestExternalities::from(t).execute_with(|| {
		System::set_block_number(1);
		PRICES.with(|p| *p.borrow_mut() = [(3344, 2_000_000), (1984, 1_000_000), (10, 10_000_000)].into_iter().collect());
		for (a, d) in [(1984u32, 6u8), (10, 10)] {
			Assets::create(a, 77, true, 1).unwrap();
			Assets::set(a, &77, vec![1], vec![1], d).unwrap();
			for u in [1, 2] {
				Assets::mint_into(a, &u, 1_000_000 * U).unwrap();
			}
		}
		@SETUP@
''',close='''
	});
''')
KITS['claims']=dict(items='''
use frame_support::{assert_noop, assert_ok};
fn faucet() -> Acc {
	Dispenser::dispense_account()
}
fn sovereign() -> Acc {
	Sibling(PolimecId::get()).into_account_truncating()
}
fn migration(to: u128, id: u32, amount: u128, time: u64) -> Migration {
	let mut b = [0u8; 32];
	b[..16].copy_from_slice(&to.to_le_bytes());
	Migration {
		origin: MigrationOrigin { user: Location::new(0, [Junction::AccountId32 { network: None, id: b }]), id, participation_type: ParticipationType::Bid },
		info: MigrationInfo { contribution_token_amount: amount, vesting_time: time },
	}
}
fn run(m: Vec<Migration>) -> Result<(), DispatchError> {
	Receiver::execute_migrations(RuntimeOrigin::from(cumulus_pallet_xcm::Origin::SiblingParachain(PolimecId::get())), Migrations::from(m))
}
''',open='''
	let mut t = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let balances = vec![(Acc(1), 1_000), (Acc(666), 1_000), (sovereign(), 100_000), (faucet(), 100_000)];
	pallet_balances::GenesisConfig::<Test> { balances }.assimilate_storage(&mut t).unwrap();
	sp_io::TestExternalities::from(t).execute_with(|| {
		System::set_block_number(1);
		frame_support::storage::unhashed::put(&pallet_timestamp::Now::<Test>::hashed_key(), &NOW_MS);
		@SETUP@
''',close='''
	});
''')
KITS['staking']=dict(items='''
use frame_support::{assert_noop, assert_ok, traits::OnInitialize};
fn sig(a: Acc) -> RuntimeOrigin {
	RuntimeOrigin::signed(a)
}
/// the next block, written by `author`
fn block(author: Acc) {
	let n = System::block_number() + 1;
	System::set_block_number(n);
	<Stk as OnInitialize<u64>>::on_initialize(n);
	<Stk as EventHandler<Acc, u64>>::note_author(author);
}
/// runs into round `r`, with all blocks written by 1
fn round(r: u32) {
	while Stk::round().current < r {
		block(1);
	}
}
fn delegate(who: Acc, to: Acc, amount: u128) {
	assert_ok!(Stk::delegate(sig(who), to, amount, 99, 99));
}
fn held(who: Acc, r: HoldReason) -> u128 {
	Balances::balance_on_hold(&r.into(), &who)
}
''',open='''
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut balances: Vec<(Acc, u128)> = (1..=12).map(|a| (a, 2_000 * U)).collect();
	balances.push((PayMaster::get(), 400_000_000_000));
	balances.push((200, 3_000_000_000_000));
	pallet_balances::GenesisConfig::<Test> { balances }.assimilate_storage(&mut st).unwrap();
	let pct = |p: u32| Perbill::from_percent(p);
	let annual = Range { min: pct(2), ideal: pct(4), max: pct(8) };
	let mut inflation = InflationInfo { expect: Range { min: 0, ideal: 100 * U, max: 100_000 * U }, annual, round: annual };
	inflation.round = Range { min: Perbill::from_parts(400), ideal: Perbill::from_parts(400), max: Perbill::from_parts(400) };
	stk::GenesisConfig::<Test> {
		candidates: vec![(1, 200 * U)],
		delegations: vec![],
		inflation_config: inflation,
		collator_commission: pct(20),
		parachain_bond_reserve_percent: Percent::from_percent(0),
		blocks_per_round: 5,
		num_selected_candidates: 2,
	}
	.assimilate_storage(&mut st)
	.unwrap();
	sp_io::TestExternalities::from(st).execute_with(|| {
		System::set_block_number(1);
		@SETUP@
''',close='''
	});
''')
SEEDS+=[
dict(id='S27-merge-starts-with-the-earlier', property='C24', kind='kit:release',
 edits=[(R+'impls.rs',"let starting_block = now.max(schedule1.starting_block()).max(schedule2.starting_block());","let starting_block = now.max(schedule1.starting_block().min(schedule2.starting_block()));")],
 needs='Two schedules are merged while one of them has not started yet.',
 breaks='The merged schedule starts with the earlier of the two, so funds of the later one become available before its start.',
 demo='''
give(1, 100, 10, 1, Bond);
give(1, 10_000, 100, 1_000, Bond);
assert_ok!(Release::merge_schedules(sig(1), 0, 1, Bond));
at(900);
assert_ok!(Release::vest(sig(1), Bond));
// the second schedule starts at block 1000 only
assert!(held(1, Bond) >= 10_000, "only {} held", held(1, Bond));
'''),
dict(id='S28-remainder-block-forgotten', property='C24', kind='kit:release',
 edits=[(R+'types.rs',"""			self.locked / self.per_block() +
				if (self.locked % self.per_block()).is_zero() {
					Zero::zero()
				} else {
					// `per_block` does not perfectly divide `locked`, so we need an extra block to
					// unlock some amount less than `per_block`.
					One::one()
				}""","""			self.locked / self.per_block()""")],
 needs='Two schedules are merged in the last block of one whose amount is not a multiple of its per-block amount.',
 breaks='The schedule counts as ended one block early, so its remainder is dropped from the merged one and released at once.',
 demo='''
give(1, 105, 10, 1, Bond);
give(1, 1_000, 10, 1, Bond);
at(11);
assert_ok!(Release::merge_schedules(sig(1), 0, 1, Bond));
assert_eq!(held(1, Bond), 5 + 900);
'''),
dict(id='S29-vest-all-stops-early', property='C23', kind='kit:release',
 edits=[(R+'lib.rs',"""			for reason in reasons {
				Self::do_vest(target.clone(), reason)?;
			}""","""			for reason in reasons {
				// nothing to do for what has not started yet
				if Self::vesting_balance(&target, reason).map_or(true, |b| b.is_zero()) {
					break;
				}
				Self::do_vest(target.clone(), reason)?;
			}""")],
 needs='An account with schedules under two reasons, one of them not started, is vested by somebody else.',
 breaks='Vesting everything of another account stops at the first reason that has nothing to release.',
 demo='''
// whichever order the reasons come in
for (who, first, second) in [(1, Bond, Grant), (2, Grant, Bond)] {
	give(who, 100, 10, 100, first);
	give(who, 100, 10, 1, second);
}
at(6);
for who in [1, 2] {
	assert_ok!(Release::vest_all_other(sig(9), who));
}
assert_eq!((held(1, Grant), held(2, Bond)), (50, 50));
'''),
dict(id='S30-treasury-bonds-what-it-has', property='C25', kind='kit:proxy',
 edits=[(P+'functions.rs',"""			bond_amount,
			Precision::Exact,
			Preservation::Preserve,""","""			bond_amount,
			Precision::BestEffort,
			Preservation::Preserve,""")],
 needs='The treasury holds less than the bond that is asked for.',
 breaks='The treasury bonds whatever it has instead of refusing, while the user pays the fee for the full bond.',
 demo='''
assert_ok!(call(|| Proxy::bond_on_behalf_of(1, 1, 999_990 * U, 1984, Participation)));
assert!(call(|| Proxy::bond_on_behalf_of(1, 2, 100 * U, 1984, Participation)).is_err());
assert_eq!(held(1, Participation), 999_990 * U);
'''),
dict(id='S31-fee-decimals-capped', property='C26', kind='kit:proxy',
 edits=[(P+'functions.rs',"<PriceProviderOf<T>>::get_decimals_aware_price(fee_asset, T::UsdDecimals::get(), fee_asset_decimals)","<PriceProviderOf<T>>::get_decimals_aware_price(fee_asset, T::UsdDecimals::get(), fee_asset_decimals.min(T::UsdDecimals::get()))")],
 needs='The fee is paid in an asset with more decimals than the US dollar (DOT).',
 breaks='The fee is computed as if the asset had six decimals, so a ten-thousandth of it is charged.',
 demo='''
let before = fee(10, 1);
assert_ok!(call(|| Proxy::bond_on_behalf_of(1, 1, 100 * U, 10, Participation)));
// 7.5% of 200 USD at 10 USD
assert_eq!(before - fee(10, 1), 15 * U / 10);
'''),
dict(id='S32-fees-only-while-locked', property='C26', kind='kit:proxy',
 edits=[(P+'lib.rs',"""			ensure!(release_type != ReleaseType::Refunded, Error::<T>::FeeToRecipientDisallowed);""","""			let now = frame_system::Pallet::<T>::block_number();
			ensure!(
				matches!(release_type, ReleaseType::Locked(until) if until >= now),
				Error::<T>::FeeToRecipientDisallowed
			);""")],
 needs='The fees are claimed after the bonds have unlocked.',
 breaks='The fees of a successful project cannot be sent to the recipient any more once the lock has ended.',
 demo='''
assert_ok!(call(|| Proxy::bond_on_behalf_of(1, 1, 100 * U, 1984, Participation)));
Proxy::set_release_type(1, Participation, ReleaseType::Locked(10));
System::set_block_number(20);
assert_ok!(Proxy::transfer_fees_to_recipient(sig(2), 1, Participation, 1984));
assert_eq!(fee(1984, Recipient::get()), 15_000_000);
'''),
dict(id='S33-migrations-recorded-at-the-end', property='C36', kind='kit:claims',
 edits=[('pallets/polimec-receiver/src/lib.rs',"			} in migrations.inner().iter()\n","			} in migrations.clone().inner().iter()\n"),('pallets/polimec-receiver/src/lib.rs',"""				ExecutedMigrations::<T>::insert((&user, &participation_type, &id), true);
				Self::deposit_event(Event::MigrationExecuted { migration: migration.clone() });
			}
""","""				Self::deposit_event(Event::MigrationExecuted { migration: migration.clone() });
			}
			for Migration { origin: MigrationOrigin { user, id, participation_type }, .. } in migrations.inner().iter() {
				ExecutedMigrations::<T>::insert((user, participation_type, id), true);
			}
""")],
 needs='One batch holds the same participation twice.',
 breaks='A participation that is repeated within a batch is paid twice.',
 demo='''
let a = migration(7, 0, 500, 10);
assert_ok!(run(vec![a.clone(), migration(8, 1, 300, 10), a]));
assert_eq!((Balances::free_balance(Acc(7)), Balances::free_balance(Acc(8))), (500, 300));
'''),
dict(id='S34-last-dispense-is-smaller', property='C37', kind='kit:claims',
 edits=[('pallets/dispenser/src/lib.rs',"""			let amount = DispenseAmount::<T>::get();
			ensure!(CurrencyOf::<T>::free_balance(&Self::dispense_account()) >= amount, Error::<T>::DispenserDepleted);
""","""			let available = CurrencyOf::<T>::free_balance(&Self::dispense_account());
			ensure!(available > T::FreeDispenseAmount::get(), Error::<T>::DispenserDepleted);
			let amount = DispenseAmount::<T>::get().min(available);
""")],
 needs='The faucet holds less than one dispense.',
 breaks='The last claimant gets what is left and has used up its identity, instead of being refused.',
 demo='''
assert_ok!(<Balances as frame_support::traits::Currency<Acc>>::transfer(&faucet(), &Acc(666), 100_000 - 300, frame_support::traits::ExistenceRequirement::AllowDeath));
let t = jwt(Acc(3), 3, &InvestorType::Retail, 0, J::Good);
assert!(Dispenser::dispense(RuntimeOrigin::signed(Acc(3)), t).is_err());
assert_eq!(Balances::free_balance(Acc(3)), 0);
'''),
dict(id='S35-future-nonces-wait-for-the-next', property='C43', kind='kit:claims',
 edits=[('pallets/dispenser/src/extensions.rs',"vec![Encode::encode(&(who, self.0 - One::one()))]","vec![Encode::encode(&(who, account.nonce))]")],
 needs='Three transactions of an account arrive in the pool out of order.',
 breaks='Every later transaction waits only for the next one, so the third is taken as ready before the second has arrived.',
 demo='''
use sp_runtime::traits::SignedExtension;
let call = RuntimeCall::System(frame_system::Call::remark { remark: vec![] });
let v = |n: u32| CheckNonce::<Test>::from(n).validate(&Acc(1), &call, &call.get_dispatch_info(), 0).unwrap();
assert_eq!(v(2).requires, v(1).provides);
assert_eq!(v(1).requires, v(0).provides);
'''),
dict(id='S36-uncounted-bottom-requests', property='C41', kind='kit:staking',
 edits=[(ST+'lib.rs',"""			let mut uncounted_stake = BalanceOf::<T>::zero();
			let rewardable_delegations = <TopDelegations<T>>::get(collator)""","""			let uncounted_stake = requests.values().fold(BalanceOf::<T>::zero(), |sum, action| sum.saturating_add(action.amount()));
			let rewardable_delegations = <TopDelegations<T>>::get(collator)"""),
 (ST+'lib.rs',"""						Some(DelegationAction::Revoke(_)) => {
							uncounted_stake = uncounted_stake.saturating_add(bond.amount);
							BalanceOf::<T>::zero()
						},
						Some(DelegationAction::Decrease(amount)) => {
							uncounted_stake = uncounted_stake.saturating_add(*amount);
							bond.amount.saturating_sub(*amount)
						},""","""						Some(DelegationAction::Revoke(_)) => BalanceOf::<T>::zero(),
						Some(DelegationAction::Decrease(amount)) => bond.amount.saturating_sub(*amount),""")],
 needs='A delegation below the top has a pending request when a round begins.',
 breaks='Requests of bottom delegations, which do not count, are subtracted from the stake that counts for the collator.',
 demo='''
MaxTop::set(1);
delegate(2, 1, 100 * U);
delegate(3, 1, 50 * U);
assert_ok!(Stk::schedule_revoke_delegation(sig(3), 1));
round(2);
assert_eq!(Stk::at_stake(2, 1).total, 300 * U);
'''),
dict(id='S37-commission-of-today', property='C42', kind='kit:staking',
 edits=[(ST+'lib.rs',"let collator_fee = payout_info.collator_commission;","let collator_fee = <CollatorCommission<T>>::get();")],
 needs='The commission changes between a round and the payout for it.',
 breaks='Rewards of a past round are split by the commission of the day of the payout instead of the one recorded for the round.',
 demo='''
assert_ok!(Stk::join_candidates(sig(4), 200 * U, 99));
delegate(2, 1, 200 * U);
delegate(3, 4, 200 * U);
let mut n = 0;
while Stk::round().current < 4 {
	block([1, 4][n % 2]);
	n += 1;
}
// one of the two collators of round 2 has been paid, the other is next
let funds = || [1, 2, 3, 4].map(|a| Balances::free_balance(a));
let before = funds();
assert_ok!(Stk::set_collator_commission(RuntimeOrigin::root(), Perbill::from_percent(90)));
block(1);
let after = funds();
let gain: Vec<u128> = (0..4).map(|i| after[i] - before[i]).collect();
let (collator, delegator) = if gain[0] > 0 { (gain[0], gain[1]) } else { (gain[3], gain[2]) };
// a fifth for the collator, the rest in equal parts
assert!(collator > 100 && (collator * 2).abs_diff(delegator * 3) < 20, "{collator} and {delegator}");
'''),
dict(id='S38-leaving-collator-keeps-requests', property='C39', kind='kit:staking',
 edits=[(ST+'lib.rs',"""					Self::delegation_remove_request_with_state(&candidate, &bond.owner, &mut delegator);
					<AutoCompoundDelegations<T>>::remove_auto_compound(&candidate, &bond.owner);

					if remaining.is_zero() {
						// we do not""","""					// requests and auto-compounding towards the candidate are removed below

					if remaining.is_zero() {
						// we do not""")],
 needs='A collator leaves while a delegator that also delegates elsewhere has a pending request towards it.',
 breaks='The delegator keeps the amount of the vanished request as already spoken for, so it cannot reduce what it has left.',
 demo='''
assert_ok!(Stk::join_candidates(sig(4), 150 * U, 99));
delegate(2, 1, 100 * U);
delegate(2, 4, 100 * U);
assert_ok!(Stk::schedule_revoke_delegation(sig(2), 4));
assert_ok!(Stk::schedule_leave_candidates(sig(4), 99));
round(4);
assert_ok!(Stk::execute_leave_candidates(sig(5), 4, 99));
assert_eq!(Stk::delegator_state(2).unwrap().less_total, 0);
'''),
dict(id='S39-kicked-amount-read-too-late', property='C38', kind='kit:staking',
 edits=[(ST+'types.rs',"""			if matches!(self.bottom_capacity, CapacityStatus::Full) {
				less_total_staked = Some(self.lowest_bottom_delegation_amount);
			}
			self.add_bottom_delegation::<T>(true, candidate, new_bottom_delegation);
		}
		// insert into top""","""			let kicks = matches!(self.bottom_capacity, CapacityStatus::Full);
			self.add_bottom_delegation::<T>(true, candidate, new_bottom_delegation);
			if kicks {
				less_total_staked = Some(self.lowest_bottom_delegation_amount);
			}
		}
		// insert into top""")],
 needs='A new top delegation bumps one to a full bottom, whose lowest is kicked out.',
 breaks='The total staked is reduced by the lowest delegation after the kick instead of the one that was kicked.',
 demo='''
MaxTop::set(1);
MaxBottom::set(1);
delegate(2, 1, 100 * U);
delegate(3, 1, 50 * U);
delegate(4, 1, 150 * U);
assert_eq!(held(3, HoldReason::StakingDelegator), 0);
assert_eq!(Stk::total(), (200 + 100 + 150) * U);
'''),
dict(id='S40-decrease-ignores-pending', property='C40', kind='kit:staking',
 edits=[(ST+'delegation_requests.rs',"""		let net_total = state.total().saturating_sub(state.less_total);
		// Net Total is always >= MinDelegatorStk
		let max_subtracted_amount = net_total.saturating_sub(T::MinDelegatorStk::get());
		ensure!(decrease_amount <= max_subtracted_amount, <Error<T>>::DelegatorBondBelowMin);""","""		// Net Total is always >= MinDelegatorStk
		let max_subtracted_amount = state.total().saturating_sub(T::MinDelegatorStk::get());
		ensure!(decrease_amount <= max_subtracted_amount, <Error<T>>::DelegatorBondBelowMin);""")],
 needs='A delegator with requests pending towards one collator schedules a decrease towards another.',
 breaks='Pending requests are not counted, so that together they take the delegator below the minimum.',
 demo='''
assert_ok!(Stk::join_candidates(sig(4), 150 * U, 99));
delegate(2, 1, 30 * U);
delegate(2, 4, 30 * U);
assert_ok!(Stk::schedule_revoke_delegation(sig(2), 4));
assert!(Stk::schedule_delegator_bond_less(sig(2), 1, 10 * U).is_err());
'''),
]
OC='pallets/oracle-ocw/src/'
D='pallets/democracy/src/lib.rs'; X='pallets/elections-phragmen/src/lib.rs'
KITS['oracle']=dict(items='''
/// a worker that holds and is the member with key 0, intervals of 10 blocks with a window of 5
fn worker() -> Side {
	let store = Arc::new(MemoryKeystore::new());
	store.insert(POLIMEC_ORACLE, &suri(0), &keys()[0].0).unwrap();
	let w = Arc::new(Mutex::new(World { now: 1_700_000_000_000, ..Default::default() }));
	Side { w, rival: false, conf: Conf { interval: 10, window: 5, members: [0].into_iter().collect() }, store }
}
/// all exchanges answer; 1 is the price in 1e-8
fn healthy(side: &Side, base: impl Fn(AssetName) -> u64) {
	weather(side, 7, base)
}
fn weather(side: &Side, seed: u64, base: impl Fn(AssetName) -> u64) {
	let mut g = Rng::new(seed);
	for e in EXS {
		for a in ASSETS {
			if url(e, a).is_some() {
				let x = answer(&mut g, e, a, base(a), true);
				side.lock().answers.insert((e, a), x);
			}
		}
	}
}
/// what is fed in a run at this block
fn feed(side: &Side, block: u64) -> BTreeMap<u64, f64> {
	{
		let mut w = side.lock();
		w.now += 12_000;
		w.began = w.now;
		w.reqs.clear();
		w.asked.clear();
		w.submitted.clear();
	}
	run(side, block, &[0]);
	let w = side.lock();
	assert!(w.submitted.len() < 2);
	let Some(x) = w.submitted.first() else { return BTreeMap::new() };
	let RuntimeCall::Oracle(OracleCall::feed_values { values }) = Xt::decode(&mut &x[..]).unwrap().call else { panic!() };
	values.iter().map(|(k, v)| (*k, v.into_inner() as f64 / FixedU128::DIV as f64)).collect()
}
''',open='',close='')
SEEDS+=[
dict(id='S41-unpriced-assets-wait-too', property='C44', kind='kit:oracle',
 edits=[(OC+'lib.rs',"let prices = Self::fetch_prices(assets);","let prices = Self::fetch_prices(assets.clone());"),
  (OC+'lib.rs',"""						for (asset_name, _) in prices {
							last_send""","""						for asset_name in assets {
							last_send""")],
 needs='In one block only some of the assets due can be priced.',
 breaks='An asset for which no exchange answered is treated as sent, so it is not asked for again before the next window.',
 demo='''
let side = worker();
healthy(&side, |_| 100_000_000);
side.lock().answers.retain(|k, _| k.1 != AssetName::DOT);
let fed = feed(&side, 10);
assert!(fed.len() == 3 && !fed.contains_key(&code(AssetName::DOT)));
healthy(&side, |_| 100_000_000);
let fed = feed(&side, 11);
assert!(fed.len() == 1 && fed.contains_key(&code(AssetName::DOT)));
'''),
dict(id='S42-answers-shift-to-the-next-asset', property='C45', kind='kit:oracle',
 edits=[(OC+'traits.rs',"""		let asset_requests = assets
			.into_iter()
			.filter_map(|asset| {
				let url = Self::get_url(asset);
				if url.is_empty() {
					return None;
				}
				let request = http::Request::get(url);

				if let Ok(req) = request.deadline(deadline).send() {
					return Some(AssetRequest { asset, id: req.id });
				}
				None
			})
			.collect::<Vec<AssetRequest>>();

		let request: Vec<PendingRequest> = asset_requests.iter().map(|r| PendingRequest { id: r.id }).collect();
""","""		let assets = assets.into_iter().filter(|asset| !Self::get_url(*asset).is_empty()).collect::<Vec<_>>();
		let request = assets
			.iter()
			.filter_map(|asset| http::Request::get(Self::get_url(*asset)).deadline(deadline).send().ok())
			.collect::<Vec<PendingRequest>>();
"""),(OC+'traits.rs',".zip(asset_requests.into_iter().map(|r| r.asset))",".zip(assets)"),
  (OC+'traits.rs',"use super::{AssetName, AssetRequest, OpenCloseVolume, Vec, Zero};","use super::{AssetName, OpenCloseVolume, Vec, Zero};")],
 needs='A request to an exchange cannot even be started, while later ones to the same exchange can.',
 breaks='The answers are attributed to the wrong assets: that of the next asset counts for the one whose request did not start.',
 demo='''
let side = worker();
let base = |a| if a == AssetName::DOT { 900_000_000 } else { 100_000_000 };
for (seed, first) in (0..60).zip([AssetName::USDT, AssetName::USDC, AssetName::DOT].into_iter().cycle()) {
	weather(&side, seed, base);
	side.lock().answers.get_mut(&(Ex::Kraken, first)).unwrap().start_fails = true;
	side.lock().db.clear();
	let fed = feed(&side, 10);
	for a in [AssetName::USDT, AssetName::USDC, AssetName::DOT] {
		let p = fed[&code(a)] * 1e8 / base(a) as f64;
		assert!(p > 0.55 && p < 1.45, "{a:?} fed at {p} of its price");
	}
}
'''),
dict(id='S43-answers-matched-by-chain', property='C34', kind='kit:funding',
 edits=[(F+'7_ct_migration.rs',"""					if let Some(check) = info.migration_readiness_check {
						if check.holding_check.0 == query_id || check.pallet_check.0 == query_id {
							return Some((project_id, info.clone(), details));
						}
					}""","""					if info.migration_readiness_check.is_some() &&
						get_parachain_id(&location) == Some(info.parachain_id.into())
					{
						return Some((project_id, info.clone(), details));
					}""")],
 needs='The issuer restarts the readiness check, and an answer to a query of the earlier round arrives.',
 breaks='Answers are matched by the chain that sends them, so a late answer to an earlier query decides the current check.',
 demo='''
use xcm::v4::{Junction::Parachain, Location, PalletInfo, Response};
let p = in_auction(meta(100_000, 50), 100_000);
assert_ok!(bid(3, p, 50_000, Mode::Classic(1)));
end_auction(p);
assert_ok!(contribute(4, p, 50_000 * CT, Mode::Classic(1)));
pass(COMMUNITY + REMAINDER + 1);
let _ = PolimecFunding::end_funding(sig(9), p);
pass(1);
assert_ok!(PolimecFunding::start_settlement(sig(9), p));
assert_ok!(PolimecFunding::settle_evaluation(sig(9), p, Acc(2), 0));
assert_ok!(PolimecFunding::settle_bid(sig(9), p, Acc(3), 0));
assert_ok!(PolimecFunding::settle_contribution(sig(9), p, Acc(4), 0));
assert_ok!(PolimecFunding::mark_project_as_settled(sig(9), p));
let issuer = || token(Acc(1), 1, InvestorType::Institutional);
assert_ok!(PolimecFunding::start_pallet_migration(sig(1), issuer(), p, 6969u32.into()));
use xcm_executor::traits::{HandleHrmpChannelAccepted as Accepted, HandleHrmpNewChannelOpenRequest as Open};
<PolimecFunding as Open>::handle(6969, 102_400, 8).unwrap();
<PolimecFunding as Accepted>::handle(6969).unwrap();
assert_ok!(PolimecFunding::start_pallet_migration_readiness_check(sig(1), issuer(), p));
// the first round asked under 0 and 1, the second under 2 and 3
let info = || Response::PalletsInfo(vec![PalletInfo::new(51, b"R".to_vec(), b"polimec_receiver".to_vec(), 1, 0, 0).unwrap()].try_into().unwrap());
let chain = || -> RuntimeOrigin { pallet_xcm::Origin::Response(Location::new(1, [Parachain(6969)])).into() };
assert!(PolimecFunding::pallet_migration_readiness_response(chain(), 1, info()).is_err());
assert_ok!(PolimecFunding::pallet_migration_readiness_response(chain(), 3, info()));
'''),
dict(id='S44-short-fast-track-when-instant-allowed', property='C09', kind='democracy',
 edits=[(D,"let maybe_ensure_instant = if voting_period < T::FastTrackVotingPeriod::get() {","let maybe_ensure_instant = if voting_period < T::FastTrackVotingPeriod::get() && !T::InstantAllowed::get() {")],
 needs='Instant votes are allowed, and the fast-track origin asks for a voting period below the minimum.',
 breaks='Once instant votes are allowed the fast-track origin starts them too, without the instant origin.',
 demo="""
FastTrackVotingPeriod::set(3);
InstantAllowed::set(true);
assert_ok!(Democracy::external_propose_majority(sig(MAJ), call(1)));
assert!(Democracy::fast_track(sig(FAST), call(1).hash(), 2, 0).is_err());
assert_ok!(Democracy::fast_track(sig(INSTANT), call(1).hash(), 2, 0));
"""),
dict(id='S45-runner-up-searched-by-account', property='C14', kind='elections',
 edits=[(X,"Self::runners_up().iter().any(|r| &r.who == who)","Self::runners_up().binary_search_by(|r| r.who.cmp(who)).is_ok()")],
 needs='Runners-up that are not in the order of their accounts, one of which submits its candidacy again.',
 breaks='Runners-up are listed by rank, so a binary search by account misses some, and they become candidates as well.',
 setup="	DesiredMembers::set(1);\n\tDesiredRunnersUp::set(3);",
 demo="""
for c in [1, 3, 4, 5] {
	stand(c);
}
vote(9, &[1], 900);
vote(8, &[3], 80);
vote(7, &[4], 70);
vote(6, &[5], 60);
to_block(5);
assert_eq!(runners(), vec![5, 4, 3]);
for c in [3, 4, 5] {
	assert!(Elections::submit_candidacy(sig(c), 0).is_err());
}
"""),
dict(id='S46-departures-alone-are-not-told', property='C17', kind='elections',
 edits=[(X,"""					T::ChangeMembers::change_members_sorted(&incoming, &outgoing, &new_members_ids_sorted);
					T::ChangeMembers::set_prime(prime);""","""					if !incoming.is_empty() || new_members_ids_sorted.is_empty() {
						T::ChangeMembers::change_members_sorted(&incoming, &outgoing, &new_members_ids_sorted);
					}
					T::ChangeMembers::set_prime(prime);""")],
 needs='A new term in which members leave and nobody joins.',
 breaks='The governed body is not told of the departure and goes on with a member that is none.',
 demo="""
stand(3);
stand(4);
vote(5, &[3], 50);
vote(6, &[4], 50);
to_block(5);
assert_eq!(members(), vec![3, 4]);
assert_ok!(Elections::remove_voter(sig(5)));
to_block(10);
assert_eq!(members(), vec![4]);
let last = notes().into_iter().rev().find(|n| matches!(n, Note::Change { .. }));
assert_eq!(last, Some(Note::Change { incoming: vec![], outgoing: vec![3], new: vec![4] }));
"""),
dict(id='S47-votes-for-empty-seats', property='C19', kind='elections',
 edits=[(X,"let allowed_votes = candidates_count.saturating_add(members_count).saturating_add(runners_up_count);","let seats = if members_count.is_zero() { 0 } else { T::DesiredMembers::get() as usize };\n\t\t\tlet allowed_votes = candidates_count.saturating_add(seats).saturating_add(runners_up_count);")],
 needs='Fewer members are seated than desired, and a ballot names more accounts than there are electable ones.',
 breaks='Seats that nobody holds count as electable people, so ballots that are too long are accepted.',
 setup="	DesiredMembers::set(3);",
 demo="""
stand(3);
vote(5, &[3], 50);
to_block(5);
assert_eq!(members(), vec![3]);
assert!(Elections::vote(sig(6), vec![3, 4], 50).is_err());
assert!(Elections::vote(sig(6), vec![3, 4, 7], 50).is_err());
vote(6, &[3], 50);
"""),
dict(id='S48-slash-reported-at-the-current-bond', property='C20', kind='elections',
 edits=[(X,"""							let (imbalance, _) = T::Currency::slash(&HoldReason::Candidacy.into(), c, *d);
							T::LoserCandidate::on_unbalanced(imbalance);
							Self::deposit_event(Event::CandidateSlashed { candidate: c.clone(), amount: *d });""","""							let (imbalance, _) = T::Currency::slash(&HoldReason::Candidacy.into(), c, *d);
							T::LoserCandidate::on_unbalanced(imbalance);
							let amount = T::CandidacyBond::get();
							Self::deposit_event(Event::CandidateSlashed { candidate: c.clone(), amount });""")],
 needs='The candidacy bond is changed between a candidacy and the election it loses.',
 breaks='The event reports the bond now configured instead of the one that was slashed.',
 demo="""
let bond = CandidacyBond::get();
for c in [3, 4, 5] {
	stand(c);
}
CandidacyBond::set(bond + 7);
for (v, c) in [(6, 3), (7, 4)] {
	vote(v, &[c], 50);
}
to_block(5);
assert!(System::events().iter().any(|e| e.event == Event::<Test>::CandidateSlashed { candidate: 5, amount: bond }.into()));
"""),
dict(id='S49-blacklist-drops-metadata-silently', property='C11', kind='democracy',
 edits=[(D,"""				NextExternal::<T>::kill();
				Self::clear_metadata(MetadataOwner::External);""","""				NextExternal::<T>::kill();
				MetadataOf::<T>::remove(MetadataOwner::External);""")],
 needs='The external proposal, with metadata, is blacklisted.',
 breaks='Its metadata disappears without the event that tells so.',
 demo="""
to_block(1);
LaunchPeriod::set(100);
let h = <Preimage as frame_support::traits::StorePreimage>::note(vec![1, 2, 3].into()).unwrap();
assert_ok!(Democracy::external_propose_majority(sig(MAJ), call(1)));
assert_ok!(Democracy::set_metadata(sig(MAJ), MetadataOwner::External, Some(h)));
assert_ok!(Democracy::blacklist(sig(BLACK), call(1).hash(), None));
let told = Event::<Test>::MetadataCleared { owner: MetadataOwner::External, hash: h };
assert!(System::events().iter().any(|e| e.event == told.clone().into()));
"""),
dict(id='S50-expiry-in-whole-seconds', property='C35', kind='kit:funding',
 edits=[('polimec-common/common/src/credentials/mod.rs',"let Ok(now) = Now::<T>::get().try_into() else","let Ok(now) = TryInto::<u64>::try_into(Now::<T>::get()) else"),('polimec-common/common/src/credentials/mod.rs',"""		let timestamp: u64 = date_time.timestamp_millis().try_into().map_err(|_| origin.clone())?;

		if claims.custom.subject == who && timestamp >= now {""","""		// Tokens carry whole seconds.
		let timestamp: u64 = date_time.timestamp().try_into().map_err(|_| origin.clone())?;

		if claims.custom.subject == who && timestamp >= now / 1000 {""")],
 needs='A credential is used within the second after it expired.',
 breaks='A token is good for up to 999 ms after its expiry.',
 demo='''
let t = || {
	let claims = SampleClaims::<Acc> { subject: Acc(1), issuer: "verifier".into(), ipfs_cid: cid(), investor_type: InvestorType::Institutional, did: b"did:polimec:1".to_vec().try_into().unwrap() };
	let mut c = StandardClaims::new(claims);
	c.expiration = Some(chrono::TimeZone::timestamp_opt(&chrono::Utc, (NOW_MS / 1000) as i64, 0).single().unwrap());
	use polimec_common::credentials::alg::SigningKey;
	let k = <<Ed25519 as Algorithm>::SigningKey as SigningKey<Ed25519>>::from_slice(&SIGNING_KEY).unwrap();
	UntrustedToken::new(&Ed25519.token(&Header::empty(), &c, &k).unwrap()).unwrap()
};
let at = |ms: u64| frame_support::storage::unhashed::put(&pallet_timestamp::Now::<Test>::hashed_key(), &ms);
at(NOW_MS + 1);
assert!(PolimecFunding::create_project(sig(1), t(), meta(100_000, 50)).is_err());
at(NOW_MS);
assert_ok!(PolimecFunding::create_project(sig(1), t(), meta(100_000, 50)));
'''),
dict(id='S51-unlocked-stake-without-the-bottom', property='C46', kind='kit:staking',
 edits=[(ST+'lib.rs',"unlocked_amount: total_backing,\n","unlocked_amount: state.total_counted,\n")],
 needs='A candidate with delegations in its bottom list leaves.',
 breaks='The event reports only the stake that counted for the collator as unlocked, not that of its bottom delegations.',
 demo="""
MaxTop::set(1);
assert_ok!(Stk::join_candidates(sig(4), 150 * U, 99));
delegate(2, 4, 100 * U);
delegate(3, 4, 50 * U);
assert_ok!(Stk::schedule_leave_candidates(sig(4), 99));
round(4);
assert_ok!(Stk::execute_leave_candidates(sig(5), 4, 99));
let left = pallet_parachain_staking::Event::<Test>::CandidateLeft { ex_candidate: 4, unlocked_amount: 300 * U, new_total_amt_locked: Stk::total() };
assert!(System::events().iter().any(|e| e.event == left.clone().into()));
"""),
dict(id='S52-counted-stake-computed-before', property='C46', kind='kit:staking',
 edits=[(ST+'lib.rs',"""			state.rm_delegation_if_exists::<T>(&candidate, delegator.clone(), amount)?;
			let new_total_locked""","""			let new_total = state.total_counted.saturating_sub(amount);
			state.rm_delegation_if_exists::<T>(&candidate, delegator.clone(), amount)?;
			let new_total_locked"""),(ST+'lib.rs',"			let new_total = state.total_counted;\n			<CandidateInfo<T>>::insert(&candidate, state);\n			Self::deposit_event(Event::DelegatorLeftCandidate","			<CandidateInfo<T>>::insert(&candidate, state);\n			Self::deposit_event(Event::DelegatorLeftCandidate")],
 needs='A delegation is revoked while the candidate has others in its bottom list.',
 breaks='The stake counted for the candidate is reported as if nothing moved up into the top list.',
 demo="""
MaxTop::set(1);
delegate(2, 1, 100 * U);
delegate(3, 1, 50 * U);
assert_ok!(Stk::schedule_revoke_delegation(sig(2), 1));
round(4);
assert_ok!(Stk::execute_delegation_request(sig(5), 2, 1));
let left = pallet_parachain_staking::Event::<Test>::DelegatorLeftCandidate { delegator: 2, candidate: 1, unstaked_amount: 100 * U, total_candidate_staked: 250 * U };
assert!(System::events().iter().any(|e| e.event == left.clone().into()));
"""),
dict(id='S53-limit-counts-auction-purchases', property='C47', kind='kit:funding',
 edits=[(RA,"let already_spent_usd = ContributionBoughtUSD::<T>::get((project_id, did));","let already_spent_usd =\n\t\t\t\t\t\tContributionBoughtUSD::<T>::get((project_id, did.clone())) + AuctionBoughtUSD::<T>::get((project_id, did));")],
 needs='A person who has bid asks for its limits in the community round of a project with maximum tickets.',
 breaks='What a person bid in the auction is subtracted from what it may still contribute, which has a limit of its own.',
 demo='''
let mut m = meta(100_000, 50);
m.contributing_ticket_sizes.retail = TicketSize::new(USD_UNIT, Some(80_000 * USD_UNIT));
let p = in_auction(m, 100_000);
assert_ok!(bid(3, p, 5_000, Mode::Classic(1)));
end_auction(p);
let limits = |person: u8| {
	let mut did = b"did:polimec:".to_vec();
	did.push(b'0' + person);
	PolimecFunding::get_funding_asset_min_max_amounts(p, did.try_into().unwrap(), Asset::USDT, InvestorType::Retail).unwrap()
};
assert_eq!(limits(4).1, 80_000 * USD_UNIT);
assert_eq!(limits(3).1, 80_000 * USD_UNIT);
'''),
dict(id='S54-merge-indices-after-the-filter', property='C47', kind='kit:funding',
 edits=[(RA,"""			.into_iter()
			.enumerate()
			// Filter out schedules with future starting blocks before collecting them into a vector.
			.filter_map(|(i, schedule)| {
				if schedule.starting_block > <frame_system::Pallet<T>>::block_number() {
					None
				} else {
					Some((i, schedule.ending_block_as_balance::<BlockNumberToBalanceOf<T>>()))
				}
			})""","""			.into_iter()
			// Schedules with future starting blocks are no candidates.
			.filter(|schedule| schedule.starting_block <= <frame_system::Pallet<T>>::block_number())
			.map(|schedule| schedule.ending_block_as_balance::<BlockNumberToBalanceOf<T>>())
			.enumerate()""")],
 needs='A schedule that has not started comes before two that can be merged.',
 breaks='The candidates are numbered among the started schedules only, so that the wrong ones are named.',
 demo='''
use frame_support::traits::fungible::MutateHold;
use polimec_common::ReleaseSchedule;
assert_ok!(Balances::hold(&PARTICIPATION, &Acc(3), 300 * PLMC));
for start in [1000, 1, 1] {
	assert_ok!(<LinearRelease as ReleaseSchedule<Acc, RuntimeHoldReason>>::add_release_schedule(&Acc(3), 100 * PLMC, PLMC, start, PARTICIPATION));
}
assert_eq!(PolimecFunding::get_next_vesting_schedule_merge_candidates(Acc(3), PARTICIPATION, 10), Some((1, 2)));
'''),
dict(id='S55-partial-bid-announced-in-full', property='C48', kind='kit:funding',
 edits=[(F+'6_settlement.rs',"""			id: bid.id,
			final_ct_amount,
			final_ct_usd_price,
		});""","""			id: bid.id,
			final_ct_amount: if funding_success && bid.status != BidStatus::Rejected {
				bid.original_ct_amount
			} else {
				final_ct_amount
			},
			final_ct_usd_price,
		});""")],
 needs='A bid that was accepted in part is settled in a project that succeeded.',
 breaks='The event reports the tokens that were bid for instead of those that were won.',
 demo='''
let p = in_auction(meta(100_000, 50), 100_000);
assert_ok!(bid(3, p, 40_000, Mode::Classic(1)));
assert_ok!(bid(4, p, 30_000, Mode::Classic(1)));
end_auction(p);
end_funding(p);
let all: Vec<_> = pf::Bids::<Test>::iter_prefix_values((p,)).collect();
let part = all.iter().find(|b| matches!(b.status, BidStatus::PartiallyAccepted(_))).unwrap().clone();
for b in &all {
	assert_ok!(PolimecFunding::settle_bid(sig(9), p, b.bidder, b.id));
}
let BidStatus::PartiallyAccepted(won) = part.status else { unreachable!() };
assert!(won < part.original_ct_amount);
assert!(System::events().iter().any(|e| matches!(&e.event, RuntimeEvent::PolimecFunding(pf::Event::BidSettled { id, final_ct_amount, .. }) if *id == part.id && *final_ct_amount == won)));
'''),
dict(id='S56-moved-bond-announced-as-released', property='C48', kind='kit:funding',
 edits=[(F+'6_settlement.rs',"""			id: evaluation.id,
			plmc_released,
			ct_rewarded,""","""			id: evaluation.id,
			// what has already moved on to a participation included
			plmc_released: plmc_released.saturating_add(
				evaluation.original_plmc_bond.saturating_sub(evaluation.current_plmc_bond),
			),
			ct_rewarded,""")],
 needs='An evaluator that has turned part of its bond into a participation bond settles its evaluation.',
 breaks='The event reports as released what is still held for the participation.',
 demo='''
let p = in_auction(meta(100_000, 50), 100_000);
let free = Balances::balance(&Acc(2));
assert_noop!(PolimecFunding::settle_evaluation(sig(9), p, Acc(2), 0), E::SettlementNotStarted);
for u in [2, 3] {
	// leave account 2 nothing but its evaluation
	if u == 2 {
		assert_ok!(<Balances as frame_support::traits::fungible::Mutate<Acc>>::transfer(&Acc(2), &Acc(9), free - ED, frame_support::traits::tokens::Preservation::Preserve));
	}
	assert_ok!(bid(u, p, if u == 2 { 1_000 } else { 49_000 }, Mode::Classic(1)));
}
end_auction(p);
end_funding(p);
let before = held(2, &EVALUATION);
assert!(before > 0);
assert_ok!(PolimecFunding::settle_evaluation(sig(9), p, Acc(2), 0));
let released = before - held(2, &EVALUATION);
assert!(System::events().iter().any(|e| matches!(&e.event, RuntimeEvent::PolimecFunding(pf::Event::EvaluationSettled { plmc_released, .. }) if *plmc_released == released)));
'''),
]
