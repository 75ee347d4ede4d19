//! C54: which transactions the chain takes, how often, and what they cost whom.
use crate::{
	acc,
	fees::{convert, set_price},
	operations,
	rt::{Balances, ForeignAssets, Runtime, RuntimeCall, System, PRICES},
	txenv::{frame_metadata_hash_extension::CheckMetadataHash, pallet_skip_feeless_payment::SkipCheckIfFeeless},
	txn, work, ASSETS,
};
use disp::extensions::CheckNonce;
use frame_support::{
	dispatch::{DispatchClass, GetDispatchInfo, PostDispatchInfo},
	instances::Instance2,
	storage::{with_transaction, TransactionOutcome},
	traits::{
		fungible::Inspect,
		fungibles::{Inspect as Inspects, Mutate as Mutates},
		tokens::{Fortitude::Polite, Preservation::Preserve},
		Get,
	},
	weights::Weight,
};
use frame_system::offchain::{CreateSignedTransaction, SigningTypes};
use mon::*;
use pallet_asset_tx_payment::ChargeAssetTxPayment;
use pallet_transaction_payment::cost;
use parachains_common::AccountId;
use parity_scale_codec::{Decode, Encode};
use polimec_common::{
	credentials::{Algorithm, AlgorithmExt, Cid, Ed25519, Header, InvestorType, SampleClaims, StandardClaims, UntrustedToken},
	PLMC_FOREIGN_ID,
};
use sp_core::{crypto::Pair, ecdsa, ed25519, sr25519, H256};
use sp_keystore::{testing::MemoryKeystore, Keystore, KeystoreExt};
use sp_runtime::{
	generic::Era,
	traits::{Applyable, Checkable, IdentifyAccount},
	transaction_validity::{TransactionSource, TransactionValidityError, ValidTransaction},
	BuildStorage, DispatchResultWithInfo, MultiAddress, MultiSignature, MultiSigner,
};
use std::{
	cell::{Cell, RefCell},
	collections::{BTreeMap, BTreeSet, HashMap},
	sync::{Arc, OnceLock},
};
use work::{Class, Job};
use xcm::v3::{Junction as J, Junctions as Js, MultiLocation};

const P: &[&str] = &["C54"];
const ED: u128 = 100_000_000;
const NOW_MS: u64 = 1_700_000_000_000;
type Xt = txn::UncheckedExtrinsic;

// ---- keys ----
enum Key {
	Sr(sr25519::Pair),
	Ed(ed25519::Pair),
	Ec(ecdsa::Pair),
}
impl Key {
	fn signer(&self) -> MultiSigner {
		match self {
			Key::Sr(k) => k.public().into(),
			Key::Ed(k) => k.public().into(),
			Key::Ec(k) => k.public().into(),
		}
	}
	fn sign(&self, payload: &[u8]) -> MultiSignature {
		match self {
			Key::Sr(k) => k.sign(payload).into(),
			Key::Ed(k) => k.sign(payload).into(),
			Key::Ec(k) => k.sign(payload).into(),
		}
	}
}
const USERS: usize = 7;
/// The last one belongs to the price worker and is in the node's keystore.
const WORKER: usize = 6;
const WORKER_SURI: &str = "//worker";
fn keys() -> &'static Vec<(Key, AccountId)> {
	static K: OnceLock<Vec<(Key, AccountId)>> = OnceLock::new();
	K.get_or_init(|| {
		(0..USERS)
			.map(|i| {
				let s = if i == WORKER { WORKER_SURI.to_string() } else { format!("//user{i}") };
				let k = match i {
					2 | 3 => Key::Ed(ed25519::Pair::from_string(&s, None).unwrap()),
					4 => Key::Ec(ecdsa::Pair::from_string(&s, None).unwrap()),
					_ => Key::Sr(sr25519::Pair::from_string(&s, None).unwrap()),
				};
				let a = k.signer().into_account();
				(k, a)
			})
			.collect()
	})
}
fn user(i: usize) -> AccountId {
	keys()[i].1.clone()
}
fn author() -> AccountId {
	acc(99)
}
fn faucet() -> AccountId {
	disp::Pallet::<Runtime>::dispense_account()
}

// ---- what a wallet puts into a transaction, and what it signs besides ----
/// The chain a wallet believes it talks to.
#[derive(Clone, Debug, PartialEq)]
struct World {
	genesis: H256,
	spec: u32,
	tx: u32,
	/// of the block the lifetime starts in
	birth_hash: H256,
	metadata: Option<[u8; 32]>,
}
#[derive(Clone, Debug)]
struct Intent {
	nonce: u32,
	era: Era,
	tip: u128,
	asset: Option<MultiLocation>,
	metadata: bool,
}
trait Part: Sized {
	fn part(i: &Intent) -> Self;
	fn besides(_: &Intent, _: &World, _: &mut Vec<u8>) {}
}
impl Part for frame_system::CheckNonZeroSender<Runtime> {
	fn part(_: &Intent) -> Self {
		Self::new()
	}
}
impl Part for frame_system::CheckSpecVersion<Runtime> {
	fn part(_: &Intent) -> Self {
		Self::new()
	}
	fn besides(_: &Intent, w: &World, out: &mut Vec<u8>) {
		w.spec.encode_to(out)
	}
}
impl Part for frame_system::CheckTxVersion<Runtime> {
	fn part(_: &Intent) -> Self {
		Self::new()
	}
	fn besides(_: &Intent, w: &World, out: &mut Vec<u8>) {
		w.tx.encode_to(out)
	}
}
impl Part for frame_system::CheckGenesis<Runtime> {
	fn part(_: &Intent) -> Self {
		Self::new()
	}
	fn besides(_: &Intent, w: &World, out: &mut Vec<u8>) {
		w.genesis.encode_to(out)
	}
}
impl Part for frame_system::CheckMortality<Runtime> {
	fn part(i: &Intent) -> Self {
		Self::from(i.era)
	}
	fn besides(_: &Intent, w: &World, out: &mut Vec<u8>) {
		w.birth_hash.encode_to(out)
	}
}
impl Part for CheckNonce<Runtime> {
	fn part(i: &Intent) -> Self {
		Self::from(i.nonce)
	}
}
impl Part for frame_system::CheckNonce<Runtime> {
	fn part(i: &Intent) -> Self {
		Self::from(i.nonce)
	}
}
impl Part for frame_system::CheckWeight<Runtime> {
	fn part(_: &Intent) -> Self {
		Self::new()
	}
}
impl Part for ChargeAssetTxPayment<Runtime> {
	fn part(i: &Intent) -> Self {
		Self::from(i.tip, i.asset)
	}
}
impl<S: Part> Part for SkipCheckIfFeeless<Runtime, S> {
	fn part(i: &Intent) -> Self {
		S::part(i).into()
	}
	fn besides(i: &Intent, w: &World, out: &mut Vec<u8>) {
		S::besides(i, w, out)
	}
}
impl Part for CheckMetadataHash<Runtime> {
	fn part(i: &Intent) -> Self {
		Self::new(i.metadata)
	}
	fn besides(_: &Intent, w: &World, out: &mut Vec<u8>) {
		w.metadata.encode_to(out)
	}
}
macro_rules! tuples {
	($($($t:ident)*;)*) => {$(
		impl<$($t: Part),*> Part for ($($t,)*) {
			fn part(i: &Intent) -> Self {
				($($t::part(i),)*)
			}
			fn besides(i: &Intent, w: &World, out: &mut Vec<u8>) {
				$($t::besides(i, w, out);)*
			}
		}
	)*};
}
tuples! { A B C; A B C D; A B C D E; A B C D E F; A B C D E F G; A B C D E F G H; A B C D E F G H I; A B C D E F G H I K; A B C D E F G H I K L; A B C D E F G H I K L M; }

fn sign(key: &Key, call: &RuntimeCall, i: &Intent, w: &World) -> MultiSignature {
	let mut payload = call.encode();
	txn::SignedExtra::part(i).encode_to(&mut payload);
	txn::SignedExtra::besides(i, w, &mut payload);
	if payload.len() > 256 {
		payload = sp_io::hashing::blake2_256(&payload).to_vec();
	}
	key.sign(&payload)
}
fn assemble(call: &RuntimeCall, from: MultiAddress<AccountId, ()>, s: MultiSignature, i: &Intent) -> Vec<u8> {
	Xt::new_signed(call.clone(), from, s, txn::SignedExtra::part(i)).encode()
}

// ---- credentials ----
thread_local! {
	/// Whether the dispenser trusts the key whose secret is published with the tests.
	static TEST_KEY: Cell<bool> = const { Cell::new(true) };
}
/// What the dispenser asks for: the runtime's key, or the one the harness can sign with.
pub struct Verifier;
impl Get<[u8; 32]> for Verifier {
	fn get() -> [u8; 32] {
		if TEST_KEY.get() {
			shared_configuration::identity::TestingVerifierPublicKey::get()
		} else {
			txn::w_pallet_dispenser::VerifierPublicKey::get()
		}
	}
}
const SECRET: [u8; 32] = [
	80, 168, 164, 18, 76, 133, 92, 116, 50, 20, 155, 28, 33, 89, 151, 207, 199, 247, 113, 185, 127, 156, 2, 132, 65, 58, 76, 156, 143, 109, 29, 251,
];
fn did(d: u8) -> polimec_common::credentials::Did {
	format!("did:kilt:{d:04}").into_bytes().try_into().unwrap()
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Cred {
	Good,
	Expired,
	Forged,
	Stolen,
}
fn jwt(who: usize, d: u8, ours: bool, c: Cred) -> UntrustedToken {
	thread_local! {
		static CACHE: RefCell<HashMap<(usize, u8, bool, Cred), UntrustedToken>> = RefCell::new(HashMap::new());
	}
	let key = (who, d, ours, c);
	if let Some(t) = CACHE.with(|c| c.borrow().get(&key).cloned()) {
		return t
	}
	let policy: Cid = if ours { txn::w_pallet_dispenser::WhitelistedPolicy::get() } else { b"another".to_vec().try_into().unwrap() };
	let claims = SampleClaims::<AccountId> {
		subject: user(if c == Cred::Stolen { (who + 1) % USERS } else { who }),
		issuer: "verifier".into(),
		ipfs_cid: policy,
		investor_type: InvestorType::Retail,
		did: did(d),
	};
	let mut s = StandardClaims::new(claims);
	let at = (NOW_MS / 1000) as i64 + if c == Cred::Expired { -1 } else { 100_000 };
	s.expiration = Some(chrono::TimeZone::timestamp_opt(&chrono::Utc, at, 0).single().unwrap());
	let mut k = SECRET;
	if c == Cred::Forged {
		k[3] ^= 1;
	}
	use polimec_common::credentials::alg::SigningKey;
	let k = <<Ed25519 as Algorithm>::SigningKey as SigningKey<Ed25519>>::from_slice(&k).unwrap();
	let t = UntrustedToken::new(&Ed25519.token(&Header::empty(), &s, &k).unwrap()).unwrap();
	CACHE.with(|x| x.borrow_mut().insert(key, t.clone()));
	t
}

// ---- the chain ----
struct Chain {
	salt: u64,
	now: u32,
	/// the hashes the chain still knows: all from here on, and the first
	kept: u32,
}
impl Chain {
	fn hash(&self, n: u32) -> H256 {
		H256(sp_io::hashing::blake2_256(&(self.salt, n).encode()))
	}
	/// Starts block `n`.
	fn start(&mut self, n: u32) {
		let keep = <txn::w_frame_system::BlockHashCount as Get<u32>>::get();
		let kept = n.saturating_sub(keep + 1).max(1);
		for k in self.kept..kept.min(self.now) {
			frame_system::BlockHash::<Runtime>::remove(k);
		}
		for k in kept.max(self.now)..n {
			frame_system::BlockHash::<Runtime>::insert(k, self.hash(k));
		}
		System::note_finished_extrinsics();
		System::initialize(&n, &self.hash(n - 1), &Default::default());
		System::reset_events();
		// as at the end of a block
		sp_io::storage::clear(&[sp_io::hashing::twox_128(b"System"), sp_io::hashing::twox_128(b"AllExtrinsicsLen")].concat());
		System::register_extra_weight_unchecked(<Runtime as frame_system::Config>::BlockWeights::get().base_block, DispatchClass::Mandatory);
		System::note_finished_initialize();
		self.now = n;
		self.kept = kept;
	}
	fn world(&self, birth: u32, metadata: bool) -> World {
		World {
			genesis: self.hash(0),
			spec: txn::w_frame_system::Version::get().spec_version,
			tx: txn::w_frame_system::Version::get().transaction_version,
			birth_hash: self.hash(birth),
			metadata: metadata.then_some(crate::txenv::frame_metadata_hash_extension::HASH),
		}
	}
}

#[derive(Debug)]
enum Out {
	Ran(DispatchResultWithInfo<PostDispatchInfo>),
	Refused(String),
}
/// As frame-executive applies an extrinsic and a block author drops one that is not valid.
fn apply(bytes: &[u8]) -> Out {
	let r: Result<_, sp_runtime::DispatchError> = with_transaction(|| {
		let xt = match Xt::decode(&mut &bytes[..]) {
			Ok(x) => x,
			Err(e) => return TransactionOutcome::Rollback(Ok(Out::Refused(format!("not a transaction: {e}")))),
		};
		let run = || -> Result<DispatchResultWithInfo<PostDispatchInfo>, TransactionValidityError> {
			let xt = xt.check(&frame_system::ChainContext::<Runtime>::default())?;
			System::note_extrinsic(bytes.to_vec());
			let info = xt.get_dispatch_info();
			let r = Applyable::apply::<Runtime>(xt, &info, bytes.len())?;
			System::note_applied_extrinsic(&r, info);
			Ok(r)
		};
		match run() {
			Ok(r) => TransactionOutcome::Commit(Ok(Out::Ran(r))),
			Err(e) => TransactionOutcome::Rollback(Ok(Out::Refused(format!("{e:?}")))),
		}
	});
	r.expect("the closure never fails")
}
fn validate(bytes: &[u8]) -> Result<ValidTransaction, String> {
	let r: Result<_, sp_runtime::DispatchError> = with_transaction(|| {
		let run = || {
			let xt = Xt::decode(&mut &bytes[..]).map_err(|e| e.to_string())?;
			let xt = xt.check(&frame_system::ChainContext::<Runtime>::default()).map_err(|e| format!("{e:?}"))?;
			let info = xt.get_dispatch_info();
			xt.validate::<Runtime>(TransactionSource::External, &info, bytes.len()).map_err(|e| format!("{e:?}"))
		};
		TransactionOutcome::Rollback(Ok(run()))
	});
	r.expect("the closure never fails")
}

// ---- what everybody has ----
type Ledger = BTreeMap<AccountId, u128>;
fn everyone() -> Vec<AccountId> {
	(0..USERS).map(user).chain([operations(), author(), faucet(), acc(50), acc(51)]).collect()
}
fn ledger() -> Ledger {
	everyone().into_iter().map(|a| (a.clone(), Balances::total_balance(&a))).collect()
}
fn assets(id: u32) -> Ledger {
	everyone().into_iter().map(|a| (a.clone(), <ForeignAssets as Inspects<AccountId>>::balance(id, &a))).collect()
}
fn who(a: &AccountId) -> String {
	match keys().iter().position(|k| k.1 == *a) {
		Some(i) => format!("user {i}"),
		None if *a == operations() => "operations".into(),
		None if *a == author() => "the author".into(),
		None if *a == faucet() => "the dispenser".into(),
		None => format!("#{}", <AccountId as AsRef<[u8; 32]>>::as_ref(a)[0]),
	}
}
fn diff(a: &Ledger, b: &Ledger) -> String {
	a.iter().filter(|(k, v)| b[*k] != **v).map(|(k, v)| format!("{} {v} -> {}", who(k), b[k])).collect::<Vec<_>>().join(", ")
}

/// A transaction and all that is known of how it was made.
#[derive(Clone)]
struct Tx {
	from: usize,
	call: RuntimeCall,
	intent: Intent,
	/// first and last block it may run in
	life: (u32, u32),
	birth: u32,
	/// why it must never run
	flaw: Option<&'static str>,
	bytes: Vec<u8>,
	cred: Option<(u8, bool, bool)>,
	worker: bool,
}
struct H<'a> {
	o: &'a mut Obs,
	r: Rng,
	chain: Chain,
	claimed: BTreeSet<u8>,
	amount: u128,
	kept: Vec<Tx>,
	heavy: bool,
}

fn place(id: u32) -> MultiLocation {
	let at = |c| MultiLocation { parents: 1, interior: Js::X3(J::Parachain(1000), J::PalletInstance(50), J::GeneralIndex(c)) };
	match id {
		10 => MultiLocation::parent(),
		n => at(n as u128),
	}
}

pub fn history(seed: u64, o: &mut Obs) {
	let mut rng = Rng::new(seed);
	TEST_KEY.set(!rng.chance(1, 6));
	let mut balances: Vec<(AccountId, u128)> = vec![(author(), 50 * ED), (operations(), 50 * ED), (acc(50), 5 * ED)];
	let mut bare = [false; USERS];
	for i in 0..USERS {
		match rng.below(6) {
			0 if i != WORKER => bare[i] = rng.chance(2, 3),
			1 => balances.push((user(i), ED + rng.below128(3 * ED))),
			_ => balances.push((user(i), ED + rng.below128(1_000 * 10_000_000_000))),
		}
	}
	if rng.chance(5, 6) {
		balances.push((faucet(), ED + rng.range128(0, 3_000 * 10_000_000_000)));
	}
	cost::MULTIPLIER.set(1_000_000_000_000_000_000 / 1000 * rng.range(900, 5000) as u128);
	PRICES.with(|p| p.borrow_mut().clear());
	for id in [PLMC_FOREIGN_ID, 10, 1984, 1337] {
		if rng.chance(19, 20) {
			set_price(&mut rng, id);
		}
	}
	pallet_authorship::AUTHOR.with(|a| *a.borrow_mut() = Some(author().encode()));
	let mut st = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Runtime> { balances }.assimilate_storage(&mut st).unwrap();
	let mut ext = sp_io::TestExternalities::new(st);
	let store = MemoryKeystore::new();
	store.sr25519_generate_new(ocw::crypto::POLIMEC_ORACLE, Some(WORKER_SURI)).unwrap();
	ext.register_extension(KeystoreExt(Arc::new(store)));
	ext.execute_with(|| {
		let chain = Chain { salt: seed, now: 1, kept: 1 };
		frame_system::BlockHash::<Runtime>::insert(0, chain.hash(0));
		pallet_timestamp::Pallet::<Runtime>::set_timestamp(NOW_MS);
		for (id, decimals) in ASSETS {
			mini_assets::Asset::<Runtime, Instance2>::insert(
				id,
				mini_assets::pallet::Details { supply: 0, min_balance: *rng.pick(&[1, 70_000]), sufficient: true, accounts: 0, destroying: false },
			);
			mini_assets::Metadata::<Runtime, Instance2>::insert(id, (b"a".to_vec(), b"a".to_vec(), decimals));
			for a in [author(), operations()] {
				let _ = <ForeignAssets as Mutates<AccountId>>::mint_into(id, &a, 1_000_000);
			}
			for i in 0..USERS {
				if !bare[i] && rng.chance(3, 5) {
					let _ = <ForeignAssets as Mutates<AccountId>>::mint_into(id, &user(i), 70_000 + rng.edgy128(10_000_000_000_000));
				}
			}
		}
		let first = if rng.chance(1, 3) { 1 + rng.below(5) as u32 } else { 5_000 + rng.below(100_000) as u32 };
		let heavy = rng.chance(1, 4);
		let mut h = H { o, r: rng, chain, claimed: Default::default(), amount: 0, kept: vec![], heavy };
		h.amount = disp::DispenseAmount::<Runtime>::get();
		h.chain.start(first);
		let steps = h.r.range(15, 45);
		for _ in 0..steps {
			if h.o.stop() {
				return
			}
			h.step();
			h.o.state(hash_debug(&(ledger(), (0..USERS).map(|i| System::account_nonce(user(i))).collect::<Vec<_>>())));
		}
	});
}

impl H<'_> {
	fn step(&mut self) {
		match self.r.below(20) {
			0 | 1 => {
				let by = match self.r.below(12) {
					0 => self.r.range(4_000, 4_200) as u32,
					1 | 2 => self.r.range(20, 300) as u32,
					_ => self.r.range(1, 4) as u32,
				};
				let n = self.chain.now + by;
				self.o.op(|| format!("block {n}"));
				self.chain.start(n);
			},
			2 | 3 if !self.heavy => {
				let n = self.chain.now + 1;
				self.chain.start(n);
			},
			4 | 5 if !self.kept.is_empty() => {
				let k = self.r.below(self.kept.len() as u64) as usize;
				let t = if self.r.chance(1, 2) { self.kept[k].clone() } else { self.kept.swap_remove(k) };
				self.o.op(|| format!("once more, or late: {}", tell(&t)));
				self.send(t);
			},
			6 | 7 => self.worker(),
			_ => {
				let t = self.make();
				self.o.op(|| format!("block {}: {}", self.chain.now, tell(&t)));
				if self.r.chance(1, 5) {
					self.kept.push(t.clone());
				}
				if !self.r.chance(1, 8) {
					self.send(t);
				}
			},
		}
	}

	fn job(&mut self) -> Job {
		let max = <Runtime as frame_system::Config>::BlockWeights::get().max_block;
		let share = match self.r.below(8) {
			_ if !self.heavy => self.r.below(20),
			0 => 760,
			1 | 2 => self.r.range(100, 500),
			3 => self.r.range(500, 760),
			_ => self.r.range(50, 240),
		};
		let (mut time, mut proof) = (max.ref_time() / 1000 * share, max.proof_size() / 1000 * share);
		if self.r.chance(1, 3) {
			if self.r.chance(1, 2) {
				time /= 50;
			} else {
				proof /= 50;
			}
		}
		Job {
			weight: (time, proof),
			used: match self.r.below(4) {
				0 => None,
				1 => Some((time / 3, proof / 2)),
				2 => Some((time * 2, proof)),
				_ => Some((0, 0)),
			},
			class: if self.r.chance(1, 4) { Class::Operational } else { Class::Normal },
			free: (self.r.chance(1, 10), self.r.chance(1, 6)),
			fails: self.r.chance(1, 4),
			prices: self.r.chance(1, 8).then(|| self.r.range(500, 2000) as u32),
			ballast: vec![7; if self.heavy && self.r.chance(1, 30) { 4 << 20 } else { self.r.below(300) as usize }],
		}
	}

	fn make(&mut self) -> Tx {
		let from = self.r.below(USERS as u64) as usize;
		let a = user(from);
		let mut cred = None;
		let call: RuntimeCall = match self.r.below(10) {
			0..=3 => work::Call::run { job: self.job() }.into(),
			4..=6 => {
				let has = Balances::total_balance(&a);
				let value = match self.r.below(5) {
					0 => has,
					1 => has.saturating_sub(ED / 2),
					_ => self.r.below128(has / 3 + 1),
				};
				let whom = [acc(50), acc(51), user((from + 1) % USERS)];
				let to = self.r.pick(&whom).clone();
				if self.r.chance(1, 2) {
					pallet_balances::Call::transfer_allow_death { dest: to.clone().into(), value }.into()
				} else {
					pallet_balances::Call::transfer_keep_alive { dest: to.clone().into(), value }.into()
				}
			},
			_ => {
				let c = *self.r.pick(&[Cred::Good, Cred::Good, Cred::Good, Cred::Expired, Cred::Forged, Cred::Stolen]);
				let (d, ours) = (self.r.range(1, 12) as u8, !self.r.chance(1, 5));
				cred = Some((d, ours, c == Cred::Good && TEST_KEY.get()));
				disp::Call::dispense { jwt: jwt(from, d, ours, c) }.into()
			},
		};
		let now = self.chain.now;
		// lifetime
		let (era, birth, life) = if self.r.chance(1, 3) {
			(Era::Immortal, 0, (0, u32::MAX))
		} else {
			let period = 1u64 << self.r.range(2, 13);
			let at = match self.r.below(8) {
				0 => now as u64 + self.r.below(2 * period),
				1 => (now as u64).saturating_sub(self.r.below(2 * period)),
				_ => now as u64 - 1,
			};
			let era = Era::mortal(period, at);
			let birth = era.birth(at) as u32;
			let (first, last) = (birth as u64 + 1, birth as u64 + period - 1);
			(era, birth, (first as u32, last as u32))
		};
		let next = System::account_nonce(&a);
		let intent = Intent {
			nonce: match self.r.below(14) {
				0 => next.saturating_sub(1),
				1 => next + 1,
				2 => next + self.r.range(2, 9) as u32,
				_ => next,
			},
			era,
			tip: if self.r.chance(1, 3) { self.r.below128(ED) } else { 0 },
			asset: match self.r.below(8) {
				0 | 1 => Some(place(self.r.pick(&ASSETS).0)),
				2 if self.r.chance(1, 2) => Some(place(77)),
				_ => None,
			},
			metadata: self.r.chance(1, 2),
		};
		let key = &keys()[from].0;
		let world = self.chain.world(birth, intent.metadata);
		let id: MultiAddress<AccountId, ()> = MultiAddress::Id(a.clone());
		let mut flaw = None;
		let honest = |i: &Intent| assemble(&call, id.clone(), sign(key, &call, i, &world), i);
		let bytes = match if self.r.chance(1, 2) { 99 } else { self.r.below(13) } {
			0 => {
				flaw = Some("for another chain");
				let w = World { genesis: H256::repeat_byte(self.r.below(9) as u8), birth_hash: if birth == 0 { H256::repeat_byte(1) } else { world.birth_hash }, ..world.clone() };
				assemble(&call, id, sign(key, &call, &intent, &w), &intent)
			},
			1 => {
				flaw = Some("for another version of the runtime");
				let w = World { spec: if self.r.chance(1, 2) { world.spec + 1 } else { world.spec - 1 }, ..world.clone() };
				assemble(&call, id, sign(key, &call, &intent, &w), &intent)
			},
			2 => {
				flaw = Some("for another format of transactions");
				let w = World { tx: if self.r.chance(1, 2) { world.tx + 1 } else { world.tx - 1 }, ..world.clone() };
				assemble(&call, id, sign(key, &call, &intent, &w), &intent)
			},
			3 => {
				flaw = Some("for a fork");
				let w = World { birth_hash: H256::repeat_byte(0xf0), ..world.clone() };
				assemble(&call, id, sign(key, &call, &intent, &w), &intent)
			},
			4 => {
				flaw = Some("signed by somebody else");
				let other = &keys()[(from + 1 + self.r.below(USERS as u64 - 1) as usize) % USERS].0;
				assemble(&call, id, sign(other, &call, &intent, &world), &intent)
			},
			5 => {
				flaw = Some("signed about other metadata");
				let w = World { metadata: if intent.metadata { *self.r.pick(&[None, Some([1; 32])]) } else { Some([1; 32]) }, ..world.clone() };
				assemble(&call, id, sign(key, &call, &intent, &w), &intent)
			},
			6 => {
				flaw = Some("another call than was signed");
				let other: RuntimeCall = frame_system::Call::remark { remark: vec![1, 2, 3] }.into();
				assemble(&call, id, sign(key, &other, &intent, &world), &intent)
			},
			7 | 8 => {
				flaw = Some("changed after it was signed");
				let mut i = intent.clone();
				match self.r.below(5) {
					0 => i.tip += 1,
					1 => i.nonce += 1,
					2 => i.asset = if i.asset.is_some() { None } else { Some(place(10)) },
					3 => i.metadata = !i.metadata,
					_ => i.era = if i.era == Era::Immortal { Era::mortal(64, now as u64 - 1) } else { Era::Immortal },
				}
				let s = sign(key, &call, &i, &world);
				assemble(&call, id, s, &intent)
			},
			9 => {
				flaw = Some("for an address nobody has");
				let odd = match self.r.below(3) {
					0 => MultiAddress::Index(()),
					1 => MultiAddress::Raw(AsRef::<[u8; 32]>::as_ref(&a).to_vec()),
					_ => MultiAddress::Address32(*AsRef::<[u8; 32]>::as_ref(&a)),
				};
				assemble(&call, odd, sign(key, &call, &intent, &world), &intent)
			},
			10 => {
				flaw = Some("unsigned");
				Xt::new_unsigned(call.clone()).encode()
			},
			11 => {
				flaw = Some("somebody else's name on it");
				let other = MultiAddress::Id(user((from + 1) % USERS));
				assemble(&call, other, sign(key, &call, &intent, &world), &intent)
			},
			12 if from != 0 => {
				flaw = Some("a flipped bit");
				let mut b = honest(&intent);
				// past the length prefix
				let at = self.r.range(4, b.len() as u64 - 1) as usize;
				b[at] ^= 1 << self.r.below(8);
				b
			},
			_ => honest(&intent),
		};
		Tx { from, call, intent, life, birth, flaw, bytes, cred, worker: false }
	}

	/// The price worker has a transaction to send.
	fn worker(&mut self) {
		let call: RuntimeCall = work::Call::run { job: self.job() }.into();
		let a = user(WORKER);
		let nonce = System::account_nonce(&a) + if self.r.chance(1, 5) { 1 } else { 0 };
		let now = self.chain.now;
		self.o.op(|| format!("block {now}: the price worker, nonce {nonce}: {}", call_of(&call)));
		type App = txn::w_pallet_oracle_ocw::AppCrypto;
		let made = |public: MultiSigner, account| <Runtime as CreateSignedTransaction<RuntimeCall>>::create_transaction::<App>(call.clone(), public, account, nonce);
		if self.r.chance(1, 10) {
			// a key the node does not hold
			let other = user(0);
			match self.o.guard(|| made(keys()[0].0.signer(), other)) {
				Ok(None) => {},
				Ok(Some(_)) => self.o.violate(P, "worker-strange-key", || "signs with a key the node does not hold".into()),
				Err(e) => self.o.violate(P, "panic", || format!("create_transaction panics: {e}")),
			}
			return
		}
		let public: <Runtime as SigningTypes>::Public = keys()[WORKER].0.signer();
		let x = match self.o.guard(|| made(public, a.clone())) {
			Ok(x) => x,
			Err(e) => return self.o.violate(P, "panic", || format!("create_transaction panics: {e}")),
		};
		let Some((c, (address, signature, extra))) = x else {
			return self.o.violate(P, "worker-cannot", || "the worker cannot make a transaction with the key the node holds".into())
		};
		if c != call {
			return self.o.violate(P, "worker-call", || format!("the worker was to send {}, it sends {}", call_of(&call), call_of(&c)))
		}
		let bytes = Xt::new_signed(c, address, signature, extra).encode();
		let intent = Intent { nonce, era: Era::Immortal, tip: 0, asset: None, metadata: true };
		// mortal: it may still run for a while, and not after the chain forgot the block before it
		let t = Tx { from: WORKER, call, intent, life: (now, now + 64), birth: now - 1, flaw: None, bytes, cred: None, worker: true };
		if self.r.chance(1, 2) {
			self.kept.push(t.clone());
		}
		if !self.r.chance(1, 4) {
			self.o.hit(P, "worker-sent");
			self.send(t);
		}
	}

	fn send(&mut self, t: Tx) {
		let (now, a) = (self.chain.now, user(t.from));
		let weights = <Runtime as frame_system::Config>::BlockWeights::get();
		let info = t.call.get_dispatch_info();
		let len = t.bytes.len();
		let account = frame_system::Account::<Runtime>::get(&a);
		let bare = account.providers == 0 && account.sufficients == 0;
		let dispense = t.cred.is_some();
		// a valid claim of somebody who had nothing yet
		let fresh = t.cred.map_or(false, |(d, _, good)| good && !self.claimed.contains(&d));
		let fee = if fresh { 0 } else { cost::fee::<Runtime>(len as u32, &info, t.intent.tip) };
		let (before, ins): (Ledger, Vec<Ledger>) = (ledger(), ASSETS.iter().map(|(i, _)| assets(*i)).collect());
		let block = System::block_weight();
		let all_len = System::all_extrinsics_len() as u64;

		// must it run, or must it not?
		let mut no: Vec<&'static str> = t.flaw.into_iter().collect();
		let mut perhaps = false;
		if t.worker {
			if now > t.life.1 {
				if now - t.birth > 4_096 {
					no.push("outlived");
				} else {
					perhaps = true;
				}
			}
		} else if now < t.life.0 || now > t.life.1 {
			no.push("outside its lifetime");
		} else if t.birth > 0 && now - t.birth >= 4_096 {
			perhaps = true;
		}
		if t.intent.nonce != account.nonce {
			no.push("not the next");
		}
		if bare && !dispense {
			no.push("from nobody");
		}
		if fee > 0 {
			match t.intent.asset {
				None if Balances::reducible_balance(&a, Preserve, Polite) < fee => no.push("cannot pay"),
				None => {},
				Some(l) => match ASSETS.iter().find(|(i, _)| place(*i) == l) {
					None => no.push("pays in nothing"),
					Some((i, d)) => match convert(fee, *i, *d) {
						None => no.push("pays without a price"),
						Some((e, tol)) => {
							let has = <ForeignAssets as Inspects<AccountId>>::reducible_balance(*i, &a, Preserve, Polite) as f64;
							if e - tol > has || has == 0.0 {
								no.push("cannot pay")
							} else if e + tol > has {
								perhaps = true;
							}
						},
					},
				},
			}
		}
		// room in the block
		let normal = info.class == DispatchClass::Normal;
		let own = info.weight.saturating_add(weights.get(info.class).base_extrinsic);
		let max = Weight::from_parts(500_000_000_000, 5 << 20);
		let share = |p: u64| Weight::from_parts(max.ref_time() / 100 * p, max.proof_size() / 100 * p);
		let class = block.get(info.class).saturating_add(own);
		let total = block.total().saturating_add(own);
		let bytes = (all_len + len as u64, max.proof_size() / 100 * if normal { 75 } else { 100 });
		if class.any_gt(share(if normal { 75 } else { 100 })) || total.any_gt(max) && (normal || class.any_gt(share(25))) || bytes.0 > bytes.1 + 100 || total.proof_size() + bytes.0 > max.proof_size() {
			no.push("too heavy");
		} else if own.any_gt(share(if normal { 69 } else { 94 })) ||
			class.any_gt(share(if normal { 74 } else { 99 })) ||
			total.any_gt(share(99)) && (normal || class.any_gt(share(24))) ||
			bytes.0 > bytes.1 - 1000
		{
			perhaps = true;
		}

		let valid = match self.o.guard(|| validate(&t.bytes)) {
			Ok(v) => v,
			Err(e) => return self.o.violate(P, "panic", || format!("validating {} panics: {e}", tell(&t))),
		};
		// what the pool makes of it
		match &valid {
			Ok(v) => {
				// whether it can pay and fits is judged when it is put in a block
				let bad = no.iter().find(|n| !matches!(**n, "not the next" | "too heavy" | "cannot pay" | "pays in nothing" | "pays without a price"));
				if bad.is_some() || t.intent.nonce < account.nonce {
					return self.o.violate(P, "pool-takes", || format!("in block {now} the pool takes a transaction that is {}: {}", no.join(" and "), tell(&t)))
				}
				let waits = t.intent.nonce > account.nonce;
				let tag = |n: u32| (&a, n).encode();
				if v.provides != vec![tag(t.intent.nonce)] || v.requires != if waits { vec![tag(t.intent.nonce - 1)] } else { vec![] } || !v.propagate {
					return self.o.violate(P, "pool-order", || format!("the account is at nonce {}, the pool would order it by {v:?}: {}", account.nonce, tell(&t)))
				}
				if waits {
					self.o.hit(P, "waits-its-turn");
				}
			},
			Err(e) =>
				if !perhaps && no.iter().all(|n| *n == "not the next") && t.intent.nonce > account.nonce {
					return self.o.violate(P, "pool-future", || format!("the pool refuses ({e}) a transaction that only waits its turn: {}", tell(&t)))
				},
		}
		let did_before = work::Done::<Runtime>::get();
		let out = match self.o.guard(|| apply(&t.bytes)) {
			Ok(x) => x,
			Err(e) => return self.o.violate(P, "panic", || format!("applying {} panics: {e}", tell(&t))),
		};
		self.o.note(|| match &out {
			Out::Ran(r) => format!("ran: {:?}", r.as_ref().map(|_| ()).map_err(|e| e.error)),
			Out::Refused(e) => format!("refused: {e} ({})", no.join(", ")),
		});
		let r = match out {
			Out::Refused(e) => {
				if no.is_empty() && !perhaps {
					return self.o.violate(P, "refused", || format!("in block {now} nothing is wrong with it, but it is refused ({e}): {}", tell(&t)))
				}
				for n in &no {
					self.o.hit(P, match *n {
						"for another chain" => "other-chain-refused",
						"for another version of the runtime" | "for another format of transactions" => "other-version-refused",
						"for a fork" => "fork-refused",
						"outside its lifetime" => "outlived-refused",
						"outlived" => "worker-outlived-refused",
						"not the next" => "nonce-refused",
						"from nobody" => "nobody-refused",
						"cannot pay" | "pays in nothing" | "pays without a price" => "unpaid-refused",
						"too heavy" => "heavy-refused",
						"unsigned" => "unsigned-refused",
						_ => "forged-refused",
					});
				}
				return
			},
			Out::Ran(r) => r,
		};
		if t.flaw == Some("unsigned") {
			// the pool does not take it; an author who puts it in the block all the same gets nothing done
			if valid.is_ok() {
				return self.o.violate(P, "unsigned", || format!("the pool takes a transaction nobody signed: {}", tell(&t)))
			}
			if r.is_ok() || ledger() != before || ASSETS.iter().zip(&ins).any(|((i, _), x)| assets(*i) != *x) || System::account_nonce(&a) != account.nonce {
				return self.o.violate(P, "unsigned", || format!("a transaction nobody signed does something: {r:?}: {}", tell(&t)))
			}
			return self.o.hit(P, "unsigned-refused")
		}
		if !no.is_empty() {
			return self.o.violate(P, "ran", || format!("in block {now} it runs though it is {}: {}", no.join(" and "), tell(&t)))
		}
		match valid {
			Err(e) => return self.o.violate(P, "pool", || format!("the pool refuses it ({e}), the block takes it: {}", tell(&t))),
			Ok(v) => {
				let ends = if t.worker { t.birth + 4_096 } else { t.life.1 };
				if ends != u32::MAX && (now as u64).saturating_add(v.longevity) > ends as u64 + 1 {
					return self.o.violate(P, "longevity", || format!("in block {now} the pool would keep it for {} blocks: {}", v.longevity, tell(&t)))
				}
			},
		}
		self.o.hit(P, if t.intent.asset.is_some() && fee > 0 { "ran-paid-in-asset" } else if t.worker { "worker-ran" } else { "ran" });
		if bare {
			self.o.hit(P, "first-ran");
		}

		// what it did and cost
		let done = r.is_ok();
		let post = match &r {
			Ok(p) => *p,
			Err(e) => e.post_info,
		};
		let mut want = before.clone();
		let tip = if fresh { 0 } else { t.intent.tip };
		let native = fee > 0 && t.intent.asset.is_none();
		let actual = if fresh { 0 } else { cost::actual::<Runtime>(len as u32, &info, &post, tip) };
		let add = |m: &mut Ledger, x: &AccountId, v: u128| *m.get_mut(x).expect("tracked") += v;
		let take = |m: &mut Ledger, x: &AccountId, v: u128| {
			let b = m.get_mut(x).expect("tracked");
			*b = b.saturating_sub(v);
		};
		if native {
			take(&mut want, &a, fee);
		}
		match &t.call {
			RuntimeCall::Balances(pallet_balances::Call::transfer_allow_death { dest: MultiAddress::Id(to), value }) |
			RuntimeCall::Balances(pallet_balances::Call::transfer_keep_alive { dest: MultiAddress::Id(to), value }) if done => {
				take(&mut want, &a, *value);
				add(&mut want, to, *value);
				let left = want[&a];
				if left > 0 && left < ED {
					take(&mut want, &a, left);
					add(&mut want, &operations(), left);
				}
				self.o.hit(P, "transferred");
				if want[&a] == 0 {
					self.o.hit(P, "emptied");
				}
			},
			RuntimeCall::Dispenser(_) if done => {
				let (d, ours, good) = t.cred.expect("a claim");
				if !good || !ours || !self.claimed.insert(d) {
					return self.o.violate(P, "claim", || format!("a claim that must fail succeeds: {}", tell(&t)))
				}
				take(&mut want, &faucet(), self.amount);
				add(&mut want, &a, self.amount);
				let left = want[&faucet()];
				if left > 0 && left < ED {
					take(&mut want, &faucet(), left);
					add(&mut want, &operations(), left);
				}
				self.o.hit(P, "claimed-free");
			},
			RuntimeCall::Dispenser(_) => self.o.hit(P, if fresh { "failed-claim-free" } else { "failed-claim-paid" }),
			RuntimeCall::Work(work::Call::run { job }) => {
				if done == job.fails {
					return self.o.violate(P, "job", || format!("a job that {} fail: {r:?}", if job.fails { "must" } else { "must not" }))
				}
				if work::Done::<Runtime>::get() != did_before + u32::from(done) {
					return self.o.violate(P, "job-times", || "a job was done other than once".into())
				}
				if !done {
					self.o.hit(P, "failed-paid");
				}
			},
			_ => {},
		}
		if native {
			let back = if want[&a] > 0 { fee - actual } else { 0 };
			add(&mut want, &a, back);
			let paid = fee - back;
			// what cannot be given back is kept with the fee
			add(&mut want, &operations(), paid - tip);
			add(&mut want, &author(), tip);
			if back > 0 {
				self.o.hit(P, "refunded");
			}
			if paid == 0 || tip > 0 {
				self.o.hit(P, if tip > 0 { "tipped" } else { "free-in-the-end" });
			}
		}
		let after = ledger();
		if after != want {
			return self.o.violate(P, "money", || format!("{}: expected {} but saw {}", tell(&t), diff(&before, &want), diff(&before, &after)))
		}
		for (k, (id, d)) in ASSETS.iter().enumerate() {
			let (x, y) = (&ins[k], assets(*id));
			if fee == 0 || t.intent.asset != Some(place(*id)) {
				if *x != y {
					return self.o.violate(P, "asset", || format!("asset {id} moves: {}: {}", diff(x, &y), tell(&t)))
				}
				continue
			}
			let paid = x[&a] as i128 - y[&a] as i128;
			let moved = matches!(&t.call, RuntimeCall::Work(work::Call::run { job }) if job.prices.is_some());
			let (most, tol) = convert(fee, *id, *d).unwrap_or((f64::MAX, 0.0));
			let got: i128 = y.iter().filter(|(k, _)| **k != a).map(|(k, v)| *v as i128 - x[k] as i128).sum();
			if paid < 0 || got != paid || !moved && paid as f64 > most + tol || everyone().iter().any(|e| ![a.clone(), operations(), author()].contains(e) && x[e] != y[e]) {
				return self.o.violate(P, "asset-fee", || format!("a fee of {fee} in {id} ({most} at most, prices {:?}): {}: {}", PRICES.with(|p| p.borrow().clone()), diff(x, &y), tell(&t)))
			}
			let exact = convert(actual, *id, *d).unwrap_or((0.0, 0.0));
			if !moved && (paid as f64) < exact.0 - exact.1 - tol {
				return self.o.violate(P, "asset-fee-low", || format!("a fee of {actual} in {id} should cost {} and costs {paid}: {}", exact.0, tell(&t)))
			}
		}
		// the next nonce
		let now_is = frame_system::Account::<Runtime>::get(&a);
		let gone = !bare && now_is.providers == 0 && now_is.sufficients == 0;
		if gone && (after[&a] > 0 || ASSETS.iter().any(|(i, _)| assets(*i)[&a] > 0)) {
			return self.o.violate(P, "account", || format!("an account with money is gone: {}", tell(&t)))
		}
		let next = System::account_nonce(&a);
		if next != if gone { 0 } else { account.nonce + 1 } {
			return self.o.violate(P, "nonce", || format!("the nonce goes from {} to {next}: {}", account.nonce, tell(&t)))
		}
		if gone {
			// with the account gone, its transactions are forgotten
			self.kept.retain(|k| k.from != t.from);
		}
		// the room it took
		let used = post.actual_weight.unwrap_or(info.weight).min(info.weight).saturating_add(weights.get(info.class).base_extrinsic);
		let took = System::block_weight().get(info.class).saturating_sub(*block.get(info.class));
		if took != used {
			return self.o.violate(P, "room", || format!("it weighs {used:?} and takes {took:?} of the block: {}", tell(&t)))
		}
		if self.heavy && own.any_gt(share(30)) {
			self.o.hit(P, "heavy-ran");
		}
	}
}
fn call_of(c: &RuntimeCall) -> String {
	match c {
		RuntimeCall::Work(work::Call::run { job }) => format!("{:?}", Job { ballast: vec![], ..job.clone() }),
		RuntimeCall::Dispenser(_) => "a claim".into(),
		RuntimeCall::Balances(pallet_balances::Call::transfer_allow_death { value, .. }) => format!("transfers {value}"),
		RuntimeCall::Balances(pallet_balances::Call::transfer_keep_alive { value, .. }) => format!("transfers {value} and lives"),
		_ => format!("{c:?}"),
	}
}
fn tell(t: &Tx) -> String {
	format!(
		"user {} nonce {} lives {:?} tip {} in {:?} metadata {} {} {}{}",
		t.from,
		t.intent.nonce,
		t.life,
		t.intent.tip,
		t.intent.asset.and_then(|l| ASSETS.iter().find(|(i, _)| place(*i) == l)),
		t.intent.metadata,
		call_of(&t.call),
		t.cred.map_or(String::new(), |(d, ours, good)| format!("of {d}, policy {ours}, valid {good} ")),
		t.flaw.map_or(String::new(), |f| format!("({f})"))
	)
}
