import runpy, os
R='runtimes/polimec/src/lib.rs'
W='runtimes/shared-configuration/src/weights/mod.rs'
E='pallets/dispenser/src/extensions.rs'
D='pallets/dispenser/src/lib.rs'
KITS=dict(runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),'seeds_c.py'))['KITS'])
KITS['tx']=dict(module="txs", items="""
mod collective;
mod env;
mod fees;
mod prices;
mod rt;
mod txenv;
mod txs;
mod work;
mod xenv;
include!(concat!(env!("OUT_DIR"), "/poly.rs"));
use parachains_common::AccountId;
use sp_runtime::traits::AccountIdConversion;
pub fn acc(n: u8) -> AccountId {
	AccountId::new([n; 32])
}
pub fn operations() -> AccountId {
	frame_support::PalletId(*b"plmc/stk").into_account_truncating()
}
pub fn growth() -> AccountId {
	frame_support::PalletId(*b"plmc/tsy").into_account_truncating()
}
pub const ASSETS: [(u32, u8); 3] = [(10, 10), (1984, 6), (1337, 6)];
fn main() {
	txs::demo();
	println!("ok");
}
""", inside="""
/// A chain at block 100 where everybody but user 5 has 1000 PLMC.
fn chain(f: impl FnOnce(&mut Chain)) {
	const PLMC: u128 = 10_000_000_000;
	TEST_KEY.set(true);
	cost::MULTIPLIER.set(1_000_000_000_000_000_000);
	pallet_authorship::AUTHOR.with(|a| *a.borrow_mut() = Some(author().encode()));
	let mut st = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
	let mut balances = vec![(author(), PLMC), (operations(), PLMC), (faucet(), 10_000 * PLMC)];
	balances.extend((0..USERS).filter(|i| *i != 5).map(|i| (user(i), 1_000 * PLMC)));
	pallet_balances::GenesisConfig::<Runtime> { balances }.assimilate_storage(&mut st).unwrap();
	let mut ext = sp_io::TestExternalities::new(st);
	let store = MemoryKeystore::new();
	store.sr25519_generate_new(ocw::crypto::POLIMEC_ORACLE, Some(WORKER_SURI)).unwrap();
	ext.register_extension(KeystoreExt(Arc::new(store)));
	ext.execute_with(|| {
		let mut chain = Chain { salt: 1, now: 1, kept: 1 };
		frame_system::BlockHash::<Runtime>::insert(0, chain.hash(0));
		pallet_timestamp::Pallet::<Runtime>::set_timestamp(NOW_MS);
		chain.start(100);
		f(&mut chain);
	});
}
fn job() -> Job {
	Job { weight: (1_000_000, 100), used: None, class: Class::Normal, free: (false, false), fails: false, prices: None, ballast: vec![] }
}
fn run(job: Job) -> RuntimeCall {
	work::Call::run { job }.into()
}
fn intent(from: usize) -> Intent {
	Intent { nonce: System::account_nonce(user(from)), era: Era::Immortal, tip: 0, asset: None, metadata: false }
}
fn made(from: usize, call: &RuntimeCall, i: &Intent, w: &World) -> Vec<u8> {
	assemble(call, MultiAddress::Id(user(from)), sign(&keys()[from].0, call, i, w), i)
}
/// Whether it was put into the block.
fn ran(bytes: &[u8]) -> bool {
	matches!(apply(bytes), Out::Ran(_))
}
/// What the price worker makes for its current nonce.
fn worker() -> Vec<u8> {
	type App = txn::w_pallet_oracle_ocw::AppCrypto;
	let a = user(WORKER);
	let (call, (address, signature, extra)) =
		<Runtime as CreateSignedTransaction<RuntimeCall>>::create_transaction::<App>(run(job()), keys()[WORKER].0.signer(), a.clone(), System::account_nonce(&a))
			.expect("the worker has its key");
	Xt::new_signed(call, address, signature, extra).encode()
}
""")
SEEDS=[
dict(id='S73-claim-can-be-replayed', property='C54', kind='kit:tx',
 edits=[(E,"""		account.nonce += T::Nonce::one();
		frame_system::Account::<T>::insert(who, account);
""","""		// an account that does not exist yet is not created for its claim
		if !account.providers.is_zero() || !account.sufficients.is_zero() {
			account.nonce += T::Nonce::one();
			frame_system::Account::<T>::insert(who, account);
		}
""")],
 needs='An account that holds nothing claims from the dispenser, and somebody sends the claim a second time.',
 breaks='The claim of a new account leaves its nonce at 0: anybody can run the same transaction again, and the account pays for it.',
 demo="""
chain(|c| {
	let call = disp::Call::dispense { jwt: jwt(5, 1, true, Cred::Good) }.into();
	let claim = made(5, &call, &intent(5), &c.world(0, false));
	assert!(ran(&claim), "a new account can claim");
	let has = Balances::total_balance(&user(5));
	assert!(has > 0);
	c.start(101);
	assert!(!ran(&claim), "the same claim runs twice");
	assert_eq!(Balances::total_balance(&user(5)), has);
});
"""),
dict(id='S74-claims-skip-the-weight-check', property='C54', kind='kit:tx',
 edits=[(R,"""	pallet_dispenser::extensions::CheckNonce<Runtime>,
	frame_system::CheckWeight<Runtime>,
	pallet_skip_feeless_payment::SkipCheckIfFeeless<Runtime, pallet_asset_tx_payment::ChargeAssetTxPayment<Runtime>>,
""","""	pallet_dispenser::extensions::CheckNonce<Runtime>,
	pallet_skip_feeless_payment::SkipCheckIfFeeless<Runtime, pallet_asset_tx_payment::ChargeAssetTxPayment<Runtime>>,
"""),(R,"""			frame_system::CheckWeight::<Runtime>::new(),
			pallet_skip_feeless""","""			pallet_skip_feeless""")],
 needs='A block that is nearly full of transactions.',
 breaks='Nobody adds up what the transactions of a block weigh: it takes more than fits.',
 demo="""
chain(|c| {
	let max = <Runtime as frame_system::Config>::BlockWeights::get().max_block;
	let half = Job { weight: (max.ref_time() / 2, 100), ..job() };
	let ran: Vec<bool> = (0..3).map(|i| ran(&made(i, &run(half.clone()), &intent(i), &c.world(0, false)))).collect();
	assert_eq!(ran, vec![true, false, false], "a block takes more than fits");
});
"""),
dict(id='S75-worker-signs-for-this-block', property='C54', kind='kit:tx',
 edits=[(R,"""			.saturated_into::<u64>()
			// The `System::block_number` is initialized with `n+1`,
			// so the actual block number is `n`.
			.saturating_sub(1);
""","""			.saturated_into::<u64>();
""")],
 needs='The price worker has prices to send.',
 breaks='The worker makes its transactions live from a block whose hash is not known yet: it cannot sign them and no price is sent.',
 demo="""
chain(|_| {
	assert!(ran(&worker()), "the worker's transaction is refused");
});
"""),
dict(id='S76-worker-transactions-live-forever', property='C54', kind='kit:tx',
 edits=[(R,"from(generic::Era::mortal(period, current_block))","from(if current_block < period { generic::Era::mortal(period, current_block) } else { generic::Era::Immortal })")],
 needs='A transaction of the price worker that was never included, on a chain older than a few thousand blocks, and a long time.',
 breaks='Late on, what the worker signs can be run at any later time: a price of last year is fed as if it were new.',
 demo="""
chain(|c| {
	c.start(5_000);
	let old = worker();
	c.start(90_000);
	assert!(!ran(&old), "a transaction of long ago still runs");
});
"""),
dict(id='S77-room-kept-for-operations-is-given-away', property='C54', kind='kit:tx',
 edits=[(W,"""			weights.max_total = Some(NORMAL_DISPATCH_RATIO * MAXIMUM_BLOCK_WEIGHT);
""","""			weights.max_total = Some(MAXIMUM_BLOCK_WEIGHT);
""")],
 needs='More normal transactions than fit into three quarters of a block.',
 breaks='Normal transactions may fill the whole block: what must get through when the chain is busy finds no room.',
 demo="""
chain(|c| {
	let max = <Runtime as frame_system::Config>::BlockWeights::get().max_block;
	let most = Job { weight: (max.ref_time() / 10 * 4, 100), ..job() };
	let ran: Vec<bool> = (0..2).map(|i| ran(&made(i, &run(most.clone()), &intent(i), &c.world(0, false)))).collect();
	assert_eq!(ran, vec![true, false], "normal transactions fill more than their part");
});
"""),
dict(id='S78-claims-of-the-served-are-free', property='C54', kind='kit:tx',
 edits=[(D,"""            if let Ok((_, did, _, _)) = T::InvestorOrigin::ensure_origin(origin.clone(), jwt, T::VerifierPublicKey::get()) {
                Dispensed::<T>::get(did).is_none()
            } else {
                false
            }
""","""            // a retry with another account of the same identity is caught by the call itself
            T::InvestorOrigin::ensure_origin(origin.clone(), jwt, T::VerifierPublicKey::get())
                .map(|(who, did, _, _)| Dispensed::<T>::get(did).is_none() || frame_system::Pallet::<T>::account_nonce(who) <= T::Nonce::from(1u32))
                .unwrap_or(false)
""")],
 needs='An identity that has been served claims again with an account that has never sent anything.',
 breaks='Claims that must fail are free for new accounts: blocks can be filled with them at no cost.',
 demo="""
chain(|c| {
	let claim = |n: usize| made(n, &disp::Call::dispense { jwt: jwt(n, 1, true, Cred::Good) }.into(), &intent(n), &c.world(0, false));
	assert!(ran(&claim(5)));
	let has = Balances::total_balance(&user(1));
	// the same identity, another account
	let again = claim(1);
	assert!(ran(&again));
	assert!(Balances::total_balance(&user(1)) < has, "a claim that fails was free");
});
"""),
dict(id='S79-waits-for-itself', property='C54', kind='kit:tx',
 edits=[(E,"let requires = if account.nonce < self.0 { vec![Encode::encode(&(who, self.0 - One::one()))] } else { vec![] };","let requires = if account.nonce + One::one() < self.0 { vec![Encode::encode(&(who, self.0 - One::one()))] } else { vec![] };")],
 needs='A sender hands in its next two transactions at once.',
 breaks='The second is held to be ready without the first: it is put into a block too early, refused and dropped.',
 demo="""
chain(|c| {
	let i = intent(1);
	let second = made(1, &run(job()), &Intent { nonce: i.nonce + 1, ..i }, &c.world(0, false));
	let v = validate(&second).expect("waits its turn");
	assert_eq!(v.requires.len(), 1, "it does not wait for the one before");
});
"""),
]
