//! Monitors for the two places that hand tokens out once: pallet-dispenser (per identity) with
//! its nonce extension, and polimec-receiver (per migrated participation).
use frame_support::{
	derive_impl,
	dispatch::{CheckIfFeeless, GetDispatchInfo, Pays},
	ord_parameter_types, parameter_types,
	traits::WithdrawReasons,
	PalletId,
};
use frame_system::{EnsureSignedBy, RawOrigin};
use mon::{hash_debug, Obs, PropInfo, Rng};
use pallet_dispenser::{self as disp, extensions::CheckNonce};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use polimec_common::{
	credentials::{Algorithm, AlgorithmExt, Cid, Ed25519, EnsureInvestor, Header, InvestorType, SampleClaims, StandardClaims, UntrustedToken},
	migration_types::{Migration, MigrationInfo, MigrationOrigin, Migrations, ParticipationType},
};
use polimec_receiver as recv;
use polkadot_parachain_primitives::primitives::{Id as ParaId, Sibling};
use scale_info::TypeInfo;
use sp_runtime::{
	traits::{AccountIdConversion, Convert, ConvertInto, Dispatchable, IdentityLookup, SignedExtension},
	transaction_validity::{InvalidTransaction, TransactionValidityError},
	BuildStorage, DispatchError,
};
use std::{
	cell::RefCell,
	collections::{BTreeMap, BTreeSet, HashMap},
};
use xcm::v4::{Junction, Junctions, Location, NetworkId};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Acc(pub u128);
impl std::fmt::Debug for Acc {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "#{}", self.0)
	}
}
impl std::fmt::Display for Acc {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "#{}", self.0)
	}
}
impl serde::Serialize for Acc {
	fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_str(&self.0.to_string())
	}
}
impl<'de> serde::Deserialize<'de> for Acc {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let s = <String as serde::Deserialize>::deserialize(d)?;
		s.parse().map(Acc).map_err(serde::de::Error::custom)
	}
}
impl From<[u8; 32]> for Acc {
	fn from(b: [u8; 32]) -> Self {
		Acc(u128::from_le_bytes(b[..16].try_into().unwrap()))
	}
}

frame_support::construct_runtime!(
	pub enum Test {
		System: frame_system = 0,
		Timestamp: pallet_timestamp = 1,
		Balances: pallet_balances = 2,
		Vesting: pallet_vesting = 3,
		Xcm: cumulus_pallet_xcm = 4,
		Dispenser: disp = 5,
		Receiver: recv = 6,
	}
);
type Block = frame_system::mocking::MockBlock<Test>;
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = Acc;
	type Block = Block;
	type Lookup = IdentityLookup<Self::AccountId>;
	type Nonce = u32;
}
const NOW_MS: u64 = 1_700_000_000_000;
thread_local! {
	/// milliseconds into the second: a token that expires in this very second has then expired
	static LATE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
parameter_types! {
	pub static Ed: u128 = 10;
	pub const MinVested: u128 = 1;
	pub Reasons: WithdrawReasons = WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
	pub static InitialDispense: u128 = 700;
	pub static FreeDispense: u128 = 5;
	pub static LockPeriod: u64 = 10;
	pub static VestPeriod: u64 = 10;
	pub const DispenserId: PalletId = PalletId(*b"plmc/fct");
	pub VerifierKey: [u8; 32] = [
		32, 118, 30, 171, 58, 212, 197, 27, 146, 122, 255, 243, 34, 245, 90, 244, 221, 37, 253,
		195, 18, 202, 111, 55, 39, 48, 123, 17, 101, 78, 215, 94,
	];
	pub Policy: Cid = cid_of(0);
	pub PolimecId: ParaId = ParaId(3344);
	pub static Genesis: u64 = 5;
	pub const MaxMigrations: u128 = 100_000;
}
ord_parameter_types! {
	pub const Admin: Acc = Acc(666);
}
const SIGNING_KEY: [u8; 32] = [
	80, 168, 164, 18, 76, 133, 92, 116, 50, 20, 155, 28, 33, 89, 151, 207, 199, 247, 113, 185, 127, 156, 2, 132, 65, 58, 76,
	156, 143, 109, 29, 251,
];
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Test {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = Ed;
}
impl pallet_timestamp::Config for Test {
	type Moment = u64;
}
const MAX_SCHEDULES: usize = 4;
impl pallet_vesting::Config for Test {
	type BlockNumberProvider = System;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = MinVested;
	type RuntimeEvent = RuntimeEvent;
	type UnvestedFundsAllowedWithdrawReasons = Reasons;
	type WeightInfo = ();

	const MAX_VESTING_SCHEDULES: u32 = MAX_SCHEDULES as u32;
}
impl cumulus_pallet_xcm::Config for Test {}
impl disp::Config for Test {
	type AdminOrigin = EnsureSignedBy<Admin, Acc>;
	type BlockNumberToBalance = ConvertInto;
	type FreeDispenseAmount = FreeDispense;
	type InitialDispenseAmount = InitialDispense;
	type InvestorOrigin = EnsureInvestor<Test>;
	type LockPeriod = LockPeriod;
	type PalletId = DispenserId;
	type RuntimeEvent = RuntimeEvent;
	type VerifierPublicKey = VerifierKey;
	type VestPeriod = VestPeriod;
	type VestingSchedule = Vesting;
	type WeightInfo = ();
	type WhitelistedPolicy = Policy;
}
/// As in the repository's penpal runtime.
pub struct PerBlock;
impl Convert<MigrationInfo, u128> for PerBlock {
	fn convert(m: MigrationInfo) -> u128 {
		m.contribution_token_amount.checked_div(m.vesting_time as u128).unwrap_or(m.contribution_token_amount)
	}
}
impl recv::Config for Test {
	type Balance = u128;
	type Balances = Balances;
	type GenesisMoment = Genesis;
	type MaxMigrations = MaxMigrations;
	type MigrationInfoToPerBlockBalance = PerBlock;
	type PolimecParaId = PolimecId;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeOrigin = RuntimeOrigin;
	type Vesting = Vesting;
}

const X: &str = "C36";
const F: &str = "C37";
const N: &str = "C43";
const USERS: u64 = 8;

fn cid_of(c: u8) -> Cid {
	format!("ipfs-policy-{c}").into_bytes().try_into().unwrap()
}
fn did_bytes(d: u8) -> polimec_common::credentials::Did {
	format!("did:kilt:{d:04}").into_bytes().try_into().unwrap()
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum J {
	Good,
	JustValid,
	Expired,
	Forged,
	Stolen,
	NoExpiry,
}
fn jwt(who: Acc, did: u8, inv: &InvestorType, cid: u8, j: J) -> UntrustedToken {
	thread_local! {
		static CACHE: RefCell<HashMap<(Acc, u8, u8, u8, J), UntrustedToken>> = RefCell::new(HashMap::new());
	}
	let key = (who, did, inv.clone() as u8, cid, j);
	if let Some(t) = CACHE.with(|c| c.borrow().get(&key).cloned()) {
		return t;
	}
	let claims = SampleClaims::<Acc> {
		subject: if j == J::Stolen { Acc(who.0 % USERS as u128 + 1) } else { who },
		issuer: "verifier".into(),
		ipfs_cid: cid_of(cid),
		investor_type: inv.clone(),
		did: did_bytes(did),
	};
	let mut c = StandardClaims::new(claims);
	let now = (NOW_MS / 1000) as i64;
	let at = |s: i64| chrono::TimeZone::timestamp_opt(&chrono::Utc, s, 0).single().unwrap();
	c.expiration = match j {
		J::NoExpiry => None,
		J::Expired => Some(at(now - 1)),
		J::JustValid => Some(at(now)),
		_ => Some(at(now + 100_000)),
	};
	let mut k = SIGNING_KEY;
	if j == J::Forged {
		k[3] ^= 1;
	}
	use polimec_common::credentials::alg::SigningKey;
	let k = <<Ed25519 as Algorithm>::SigningKey as SigningKey<Ed25519>>::from_slice(&k).unwrap();
	let s = Ed25519.token(&Header::empty(), &c, &k).unwrap();
	let t = UntrustedToken::new(&s).unwrap();
	CACHE.with(|x| x.borrow_mut().insert(key, t.clone()));
	t
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Sch {
	locked: u128,
	per: u128,
	start: u64,
}
impl Sch {
	fn rem(&self, t: u64) -> u128 {
		self.locked.saturating_sub((t.saturating_sub(self.start) as u128).saturating_mul(self.per))
	}
}
#[derive(Clone, Default, Debug, PartialEq, Eq)]
struct A {
	bal: u128,
	sch: Vec<Sch>,
	lock: u128,
	nonce: u32,
	/// a record in System without any balance (a first transaction that failed)
	bare: bool,
}
#[derive(Clone, Default)]
struct Model {
	accs: BTreeMap<Acc, A>,
	executed: BTreeSet<(String, u8, u32)>,
	dispensed: BTreeSet<u8>,
	amount: u128,
	issuance: u128,
	now: u64,
}
fn sovereign() -> Acc {
	Sibling(PolimecId::get()).into_account_truncating()
}
fn faucet() -> Acc {
	Dispenser::dispense_account()
}
#[derive(Clone, Copy, PartialEq)]
enum Keep {
	Alive,
	Death,
}
impl Model {
	fn bal(&self, a: Acc) -> u128 {
		self.accs.get(&a).map(|x| x.bal).unwrap_or(0)
	}
	/// What pallet-balances' Currency::transfer does, or None.
	fn transfer(&mut self, from: Acc, to: Acc, x: u128, keep: Keep) -> Option<()> {
		if x == 0 || from == to {
			return Some(());
		}
		let f = self.accs.get(&from).cloned().unwrap_or_default();
		let left = f.bal.checked_sub(x)?;
		if self.bal(to).checked_add(x)? < Ed::get() || left < f.lock {
			return None;
		}
		if left < Ed::get() {
			if keep == Keep::Alive || f.lock > 0 {
				return None;
			}
			// what is left is dust, and the account goes
			self.issuance -= left;
			self.accs.remove(&from);
		} else {
			self.accs.get_mut(&from).unwrap().bal = left;
		}
		let t = self.accs.entry(to).or_default();
		t.bal += x;
		t.bare = false;
		Some(())
	}
	fn vest(&mut self, a: Acc) {
		let now = self.now;
		if let Some(x) = self.accs.get_mut(&a) {
			x.sch.retain(|s| s.rem(now) > 0);
			x.lock = x.sch.iter().map(|s| s.rem(now)).sum();
		}
	}
	fn schedule(&mut self, a: Acc, s: Sch) -> Option<()> {
		if s.locked == 0 {
			return Some(());
		}
		if s.per == 0 || self.accs.get(&a).map(|x| x.sch.len()).unwrap_or(0) >= MAX_SCHEDULES {
			return None;
		}
		self.accs.entry(a).or_default().sch.push(s);
		self.vest(a);
		Some(())
	}
}
fn schedules(a: Acc) -> Vec<Sch> {
	pallet_vesting::Vesting::<Test>::get(a)
		.map(|v| v.iter().map(|s| Sch { locked: s.locked(), per: s.per_block(), start: s.starting_block() }).collect())
		.unwrap_or_default()
}
fn lock(a: Acc) -> u128 {
	Balances::locks(a).iter().filter(|l| l.id == *b"vesting ").map(|l| l.amount).sum()
}

fn watch(o: &mut Obs, m: &Model, props: &'static [&'static str], what: &str) {
	let mut seen: BTreeMap<Acc, A> = BTreeMap::new();
	for (a, x) in frame_system::Account::<Test>::iter() {
		seen.insert(a, A { bal: x.data.free + x.data.reserved, sch: schedules(a), lock: lock(a), nonce: x.nonce, bare: x.providers == 0 });
	}
	let all: BTreeSet<Acc> = seen.keys().chain(m.accs.keys()).copied().collect();
	for a in all {
		let (s, w) = (seen.get(&a), m.accs.get(&a));
		if s != w {
			let money = s.map(|x| (x.bal, x.sch.clone(), x.lock)) != w.map(|x| (x.bal, x.sch.clone(), x.lock));
			if money {
				return o.violate(props, "balances", || format!("after {what}: {a:?} has {s:?}, expected {w:?}"));
			}
			return o.violate(&[N], "account", || format!("after {what}: {a:?} has {s:?}, expected {w:?}"));
		}
	}
	if Balances::total_issuance() != m.issuance {
		return o.violate(props, "issuance", || format!("after {what}: {} exist, expected {}", Balances::total_issuance(), m.issuance));
	}
	let ex: BTreeSet<(String, u8, u32)> =
		recv::ExecutedMigrations::<Test>::iter().filter(|x| x.1).map(|((l, t, i), _)| (format!("{l:?}"), t as u8, i)).collect();
	if ex != m.executed {
		return o.violate(&[X], "executed", || format!("after {what}: executed are {ex:?}, expected {:?}", m.executed));
	}
	let d: BTreeSet<Vec<u8>> = disp::Dispensed::<Test>::iter().map(|x| x.0.to_vec()).collect();
	let w: BTreeSet<Vec<u8>> = m.dispensed.iter().map(|d| did_bytes(*d).to_vec()).collect();
	if d != w || disp::DispenseAmount::<Test>::get() != m.amount {
		return o.violate(&[F], "dispensed", || format!("after {what}: {} identities dispensed to ({} expected), the amount is {} ({} expected)", d.len(), w.len(), disp::DispenseAmount::<Test>::get(), m.amount));
	}
	o.count("states-compared");
	o.state(hash_debug(&(&d.len(), ex.len(), m.accs.values().map(|a| (a.bal, a.sch.clone(), a.lock, a.nonce)).collect::<Vec<_>>())));
}

fn random_history(seed: u64, o: &mut Obs) {
	let mut rng = Rng::new(seed);
	let scale = *rng.pick(&[1_000u128, 50_000, 7_000_000_000_000]);
	Ed::set(*rng.pick(&[1, 10, (scale / 50).max(1)]));
	let ed = Ed::get();
	FreeDispense::set(if rng.chance(1, 6) { 0 } else { rng.range128(1, scale / 20) });
	LockPeriod::set(rng.below(20));
	VestPeriod::set(if rng.chance(1, 8) { 0 } else { rng.range(1, 30) });
	Genesis::set(rng.below(30));
	InitialDispense::set(FreeDispense::get() + rng.range128(1, scale));
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut balances: Vec<(Acc, u128)> = vec![];
	for a in 1..=USERS {
		if rng.chance(1, 2) {
			balances.push((Acc(a as u128), ed + rng.below128(scale)));
		}
	}
	balances.push((Admin::get(), ed + scale));
	balances.push((Acc(999), ed + scale * 100));
	if rng.chance(9, 10) {
		balances.push((faucet(), ed + if rng.chance(1, 2) { scale * 20 } else { rng.below128(scale * 4) }));
	}
	if rng.chance(9, 10) {
		balances.push((sovereign(), ed + if rng.chance(1, 2) { scale * 50 } else { rng.below128(scale * 4) }));
	}
	pallet_balances::GenesisConfig::<Test> { balances: balances.clone() }.assimilate_storage(&mut st).unwrap();
	LATE.set(*rng.pick(&[0, 0, 1, 500, 999]));
	let mut ext = sp_io::TestExternalities::new(st);
	ext.execute_with(|| {
		frame_support::storage::unhashed::put(&pallet_timestamp::Now::<Test>::hashed_key(), &(NOW_MS + LATE.get()));
		let mut m = Model { amount: InitialDispense::get(), now: 1, ..Default::default() };
		System::set_block_number(1);
		for (a, b) in balances {
			m.accs.insert(a, A { bal: b, ..Default::default() });
			m.issuance += b;
		}
		watch(o, &m, &[X, F], "genesis");
		for _ in 0..rng.range(20, 60) {
			if o.stop() {
				return;
			}
			if rng.chance(1, 3) {
				m.now += if rng.chance(1, 6) { rng.range(5, 30) } else { 1 };
				System::set_block_number(m.now);
			}
			let p = o.prop();
			match rng.below(10) {
				0 => money(&mut rng, o, &mut m),
				1..=4 if p != F => migrate(&mut rng, o, &mut m, scale),
				1..=2 if p == F => set_amount(&mut rng, o, &mut m, scale),
				5 => set_amount(&mut rng, o, &mut m, scale),
				6 => {
					let a = user(&mut rng);
					let r = Vesting::vest(RuntimeOrigin::signed(a)).is_ok();
					o.op(|| format!("{a:?} vests: {r}"));
					if r {
						m.vest(a);
					}
					let locked: u128 = m.accs.get(&a).map(|x| x.sch.iter().map(|s| s.rem(m.now)).sum()).unwrap_or(0);
					if lock(a) != locked {
						o.violate(&[X, F], "unlock", || format!("{a:?} has {} locked, {locked} is unvested", lock(a)));
					}
					watch(o, &m, &[X, F], "vesting");
				},
				_ if p == X => migrate(&mut rng, o, &mut m, scale),
				_ => transaction(&mut rng, o, &mut m, scale),
			}
		}
	});
}
fn user(rng: &mut Rng) -> Acc {
	Acc(rng.range(1, USERS) as u128)
}

/// Plain transfers: fund, drain, empty accounts.
fn money(rng: &mut Rng, o: &mut Obs, m: &mut Model) {
	let (u, v) = (user(rng), user(rng));
	let from = *rng.pick(&[Acc(999), Acc(999), faucet(), sovereign(), u, v]);
	let to = *rng.pick(&[faucet(), sovereign(), v, v]);
	let b = m.bal(from);
	if b == 0 || from == to {
		return;
	}
	let x = match rng.below(4) {
		0 => b,
		1 => b.saturating_sub(Ed::get()),
		2 => rng.below128(b / 2 + 1),
		_ => rng.below128(b / 20 + 1),
	};
	let before = m.clone();
	let ok = m.transfer(from, to, x, Keep::Death).is_some();
	o.op(|| format!("{from:?} sends {x} to {to:?}: {ok}"));
	let r = Balances::transfer_allow_death(RuntimeOrigin::signed(from), to, x).is_ok();
	if r != ok {
		o.inconclusive(format!("a plain transfer of {x} from {from:?} to {to:?} gave {r}"));
		*m = before;
	}
	watch(o, m, &[X, F], "a transfer");
}

fn migrate(rng: &mut Rng, o: &mut Obs, m: &mut Model, scale: u128) {
	let mut batch = vec![];
	for _ in 0..rng.below(5) {
		let u = user(rng);
		let mut id = [0u8; 32];
		id[..16].copy_from_slice(&u.0.to_le_bytes());
		let acc = Junction::AccountId32 { network: if rng.chance(1, 12) { Some(NetworkId::Polkadot) } else { None }, id };
		let loc = match rng.below(40) {
			0 => Location::new(1, [acc]),
			1 => Location::new(0, Junctions::Here),
			2 => Location::new(0, [acc, acc]),
			3 => Location::new(0, [Junction::Parachain(3344)]),
			_ => Location::new(0, [acc]),
		};
		let ty = *rng.pick(&[ParticipationType::Evaluation, ParticipationType::Bid, ParticipationType::Contribution]);
		let amount = match rng.below(10) {
			0 => 0,
			1 => Ed::get().saturating_sub(1),
			2 => Ed::get(),
			3 => m.bal(sovereign()).saturating_sub(rng.below128(2) * Ed::get()),
			4 => rng.range128(1, 30),
			_ => rng.range128(1, scale),
		};
		let vt = match rng.below(5) {
			0 => 0,
			1 => 1,
			2 => amount.min(500) as u64 + rng.below(2),
			_ => rng.below(60),
		};
		batch.push(Migration::new(MigrationOrigin { user: loc, id: rng.below(4) as u32, participation_type: ty }, MigrationInfo { contribution_token_amount: amount, vesting_time: vt }));
		if rng.chance(1, 6) {
			// the same participation again, in the same batch
			let mut again = batch.last().unwrap().clone();
			if rng.chance(1, 2) {
				again.info.contribution_token_amount += 1;
			}
			batch.push(again);
		}
	}
	let (by, from_polimec, who) = match rng.below(12) {
		0 => (cumulus_pallet_xcm::Origin::SiblingParachain(ParaId(*rng.pick(&[0u32, 3343, 3345, 2000]))).into(), false, "another chain"),
		1 => (cumulus_pallet_xcm::Origin::Relay.into(), false, "the relay chain"),
		2 => (RuntimeOrigin::root(), false, "root"),
		3 => (RuntimeOrigin::signed(match rng.below(3) { 0 => sovereign(), 1 => Admin::get(), _ => user(rng) }), false, "an account"),
		4 => (RuntimeOrigin::none(), false, "nobody"),
		_ => (cumulus_pallet_xcm::Origin::SiblingParachain(PolimecId::get()).into(), true, "Polimec"),
	};
	let mut next = m.clone();
	let mut events = vec![];
	let mut why = "";
	for x in &batch {
		let u = match x.origin.user.unpack() {
			(0, [Junction::AccountId32 { id, .. }]) => Acc::from(*id),
			_ => {
				why = "a user is not an account";
				break;
			},
		};
		let key = (format!("{:?}", x.origin.user), x.origin.participation_type as u8, x.origin.id);
		if next.executed.contains(&key) {
			events.push(recv::Event::<Test>::DuplicatedMigrationSkipped { migration: x.clone() });
			continue;
		}
		let amt = x.info.contribution_token_amount;
		if next.transfer(sovereign(), u, amt, Keep::Alive).is_none() {
			why = "an amount cannot be paid";
			break;
		}
		if next.schedule(u, Sch { locked: amt, per: PerBlock::convert(x.info.clone()), start: Genesis::get() }).is_none() {
			why = "a schedule cannot be added";
			break;
		}
		next.executed.insert(key);
		events.push(recv::Event::<Test>::MigrationExecuted { migration: x.clone() });
	}
	let want = from_polimec && why.is_empty();
	System::reset_events();
	o.op(|| format!("migrations by {who}: {batch:?} -> {want} {why}"));
	let call = RuntimeCall::Receiver(recv::Call::execute_migrations { migrations: Migrations::from(batch.clone()) });
	let r = match o.guard(|| call.dispatch(by)) {
		Ok(r) => r,
		Err(e) => return o.violate(&[X], "panic", || format!("execute_migrations panics: {e}")),
	};
	o.note(|| format!("{:?}", r.as_ref().map(|_| ()).map_err(|e| e.error)));
	if r.is_ok() != want {
		return o.violate(&[X], if want { "refused" } else { "accepted" }, || {
			format!("migrations by {who} {}: {:?} ({why})", if want { "were refused" } else { "were accepted" }, r.map(|_| ()).map_err(|e| e.error))
		});
	}
	if want {
		let got: Vec<recv::Event<Test>> = System::events().into_iter().filter_map(|e| match e.event {
			RuntimeEvent::Receiver(e) => Some(e),
			_ => None,
		}).collect();
		if got != events {
			return o.violate(&[X], "events", || format!("reported {got:?}, expected {events:?}"));
		}
		if !batch.is_empty() {
			o.hit(&[X], "executed");
		}
		for e in &events {
			o.hit(&[X], if matches!(e, recv::Event::MigrationExecuted { .. }) { "migrated" } else { "duplicate-skipped" });
		}
		*m = next;
	} else if !from_polimec {
		o.hit(&[X], "stranger-refused");
	} else {
		o.hit(&[X], if why.contains("account") { "bad-location-refused" } else if why.contains("paid") { "unpayable-refused" } else { "unschedulable-refused" });
	}
	watch(o, m, &[X], "the migrations");
}

fn set_amount(rng: &mut Rng, o: &mut Obs, m: &mut Model, scale: u128) {
	let f = FreeDispense::get();
	let x = match rng.below(8) {
		0 => f,
		1 => f + 1,
		2 => f.saturating_sub(1),
		3 => f + VestPeriod::get() as u128 + rng.below128(2),
		_ => f + rng.below128(scale),
	};
	let by = match rng.below(4) {
		0 => RuntimeOrigin::signed(user(rng)),
		1 if rng.chance(1, 2) => RuntimeOrigin::root(),
		_ => RuntimeOrigin::signed(Admin::get()),
	};
	let want = matches!(by.clone().into(), Ok(RawOrigin::Signed(a)) if a == Admin::get()) && x > f;
	o.op(|| format!("set the amount to {x}: {want}"));
	let r = match o.guard(|| Dispenser::set_dispense_amount(by, x)) {
		Ok(r) => r,
		Err(e) => return o.violate(&[F], "panic", || format!("set_dispense_amount panics: {e}")),
	};
	if r.is_ok() != want {
		return o.violate(&[F], "amount", || format!("set_dispense_amount({x}), free {f}: {:?}, expected {want}", r.map(|_| ()).map_err(|e| e.error)));
	}
	if want {
		m.amount = x;
		o.hit(&[F], "amount-set");
	} else {
		o.hit(&[F], "amount-refused");
	}
	watch(o, m, &[F], "setting the amount");
}

/// A signed transaction as a block applies it: the extension, then the call.
fn transaction(rng: &mut Rng, o: &mut Obs, m: &mut Model, _scale: u128) {
	let who = if rng.chance(1, 3) { Acc(1) } else { user(rng) };
	let did = if rng.chance(1, 2) { rng.range(1, 12) } else { rng.range(13, 40) } as u8;
	let j = *rng.pick(&[J::Good, J::Good, J::Good, J::Good, J::Good, J::JustValid, J::Expired, J::Forged, J::Stolen, J::NoExpiry]);
	let inv = rng.pick(&[InvestorType::Retail, InvestorType::Professional, InvestorType::Institutional]).clone();
	let cid = if rng.chance(1, 6) { 1 } else { 0 };
	let valid = j == J::Good || j == J::JustValid && LATE.get() == 0;
	let dispense = rng.chance(4, 5);
	let token = jwt(who, did, &inv, cid, j);
	let to = user(rng);
	let x = rng.below128(m.bal(who) / 4 + 1);
	let call = if dispense {
		RuntimeCall::Dispenser(disp::Call::dispense { jwt: token })
	} else if rng.chance(1, 4) {
		RuntimeCall::Dispenser(disp::Call::set_dispense_amount { amount: m.amount + 1 })
	} else {
		RuntimeCall::Balances(pallet_balances::Call::transfer_allow_death { dest: if to == who { Acc(999) } else { to }, value: x + 1 })
	};
	let acc = m.accs.get(&who).cloned();
	let exists = acc.as_ref().map(|a| !a.bare).unwrap_or(false);
	let nonce = acc.as_ref().map(|a| a.nonce).unwrap_or(0);
	let n = match rng.below(8) {
		0 => nonce.wrapping_sub(1).min(1000),
		1 => nonce + 1,
		2 => nonce + 2,
		_ => nonce,
	};
	o.op(|| format!("transaction {n} of {who:?} (next {nonce}, exists {exists}): {} did {did} {j:?} policy {cid}", if dispense { "dispense".into() } else { format!("{call:?}") }));
	// feeless exactly for a valid credential that has not been dispensed to
	let free = call.is_feeless(&RuntimeOrigin::signed(who));
	let want_free = dispense && valid && !m.dispensed.contains(&did);
	if free != want_free {
		return o.violate(&[F], "feeless", || format!("dispense for did {did} with a {j:?} token is {}feeless", if free { "" } else { "not " }));
	}
	let info = call.get_dispatch_info();
	let ext = CheckNonce::<Test>::from(n);
	let err = |x: InvalidTransaction| Err::<(), _>(TransactionValidityError::Invalid(x));
	let may = exists || dispense;
	let v = match o.guard(|| ext.validate(&who, &call, &info, 100)) {
		Ok(v) => v,
		Err(e) => return o.violate(&[N], "panic", || format!("validate panics: {e}")),
	};
	let want_v = if !may {
		err(InvalidTransaction::Payment)
	} else if n < nonce {
		err(InvalidTransaction::Stale)
	} else {
		Ok(())
	};
	if v.as_ref().map(|_| ()).map_err(|e| *e) != want_v {
		return o.violate(&[N], "validate", || format!("nonce {n} of {who:?} (next {nonce}, exists {exists}, dispense {dispense}) validates to {v:?}, expected {want_v:?}"));
	}
	if let Ok(v) = v {
		let tag = |k: u32| (who, k).encode();
		let req = if n > nonce { vec![tag(n - 1)] } else { vec![] };
		if v.provides != vec![tag(n)] || v.requires != req {
			return o.violate(&[N], "tags", || format!("nonce {n} of {who:?} (next {nonce}) requires {:?} and provides {:?}", v.requires, v.provides));
		}
		o.hit(&[N], if n > nonce { "future-queued" } else { "valid" });
	}
	let p = match o.guard(|| ext.pre_dispatch(&who, &call, &info, 100)) {
		Ok(v) => v,
		Err(e) => return o.violate(&[N], "panic", || format!("pre_dispatch panics: {e}")),
	};
	let want_p = if !may {
		err(InvalidTransaction::Payment)
	} else if n < nonce {
		err(InvalidTransaction::Stale)
	} else if n > nonce {
		err(InvalidTransaction::Future)
	} else {
		Ok(())
	};
	if p != want_p {
		return o.violate(&[N], "pre-dispatch", || format!("nonce {n} of {who:?} (next {nonce}, exists {exists}, dispense {dispense}): {p:?}, expected {want_p:?}"));
	}
	if p.is_err() {
		o.hit(&[N], if !may { "no-account-refused" } else if n < nonce { "stale-refused" } else { "future-refused" });
		return watch(o, m, &[F], "a refused transaction");
	}
	let e = m.accs.entry(who).or_insert(A { bare: true, ..Default::default() });
	e.nonce = nonce + 1;
	if e.bare {
		o.hit(&[N], "first-transaction");
	}
	watch(o, m, &[F], "the nonce");
	if o.stop() {
		return;
	}
	let mut next = m.clone();
	let (want, why) = match &call {
		RuntimeCall::Dispenser(disp::Call::dispense { .. }) => {
			let locked = m.amount.saturating_sub(FreeDispense::get());
			let sch = Sch { locked, per: locked / VestPeriod::get().max(1) as u128, start: m.now + LockPeriod::get() };
			if !valid {
				(false, "bad token")
			} else if m.dispensed.contains(&did) {
				(false, "had its share")
			} else if cid != 0 {
				(false, "foreign policy")
			} else if m.bal(faucet()) < m.amount {
				(false, "depleted")
			} else if sch.per == 0 {
				(false, "less than a unit per block")
			} else if m.accs[&who].sch.len() >= MAX_SCHEDULES {
				(false, "too many schedules")
			} else if next.transfer(faucet(), who, m.amount, Keep::Death).is_none() {
				(false, "cannot be paid")
			} else if next.schedule(who, sch).is_none() {
				(false, "cannot be scheduled")
			} else {
				next.dispensed.insert(did);
				(true, "dispensed")
			}
		},
		RuntimeCall::Balances(_) => (next.transfer(who, if to == who { Acc(999) } else { to }, x + 1, Keep::Death).is_some(), "transfer"),
		_ => (false, "not the admin"),
	};
	System::reset_events();
	let r = match o.guard(|| call.clone().dispatch(RuntimeOrigin::signed(who))) {
		Ok(v) => v,
		Err(e) => return o.violate(&[F], "panic", || format!("the call panics: {e}")),
	};
	o.note(|| format!("{:?} ({why})", r.as_ref().map(|_| ()).map_err(|e| e.error)));
	if r.is_ok() != want {
		let err: Result<(), DispatchError> = r.map(|_| ()).map_err(|e| e.error);
		return o.violate(&[F], if want { "refused" } else { "accepted" }, || format!("{} by {who:?}: {err:?}, expected {want} ({why})", if dispense { "dispense" } else { "the call" }));
	}
	if dispense {
		if want {
			let amount = m.amount;
			let told = System::events().iter().any(|e| matches!(&e.event, RuntimeEvent::Dispenser(disp::Event::Dispensed { dispensed_to_did, dispensed_to, amount: a }) if *dispensed_to_did == did_bytes(did) && *dispensed_to == who && *a == amount));
			if !told || r.unwrap().pays_fee != Pays::No {
				return o.violate(&[F], "dispense-event", || "a dispense is not reported or not free".into());
			}
			o.hit(&[F, N], if m.accs[&who].bare { "dispensed-to-new-account" } else { "dispensed" });
			if next.bal(faucet()) == 0 {
				o.hit(&[F], "emptied");
			}
			if m.accs[&who].sch.len() > 0 {
				o.hit(&[F], "second-identity");
			}
		} else {
			o.hit(&[F], match why {
				"bad token" => "bad-token-refused",
				"had its share" => "repeat-refused",
				"foreign policy" => "policy-refused",
				"depleted" => "depleted-refused",
				"too many schedules" => "schedules-refused",
				_ => "other-refused",
			});
			if m.accs[&who].bare {
				o.hit(&[N], "failed-first-transaction");
			}
		}
	}
	if want {
		*m = next;
	}
	watch(o, m, &[F], "the transaction");
}

fn main() {
	const A_: &[&str] = &["pallet-balances, pallet-vesting and frame (registry crates) behave as documented", "XCM, timestamp and JWT crates are stand-ins of the parts the pallets use", "holds on the histories generated from this seed"];
	let props = [
		PropInfo { id: X, rule: "a history is 20-60 random batches of migrations from random origins, transfers, vesting calls and time; non-trivial when a batch was executed and compared", required: &["executed", "migrated", "duplicate-skipped", "stranger-refused", "bad-location-refused", "unpayable-refused", "unschedulable-refused"], quick: 20_000, thorough: 4_000_000, assumptions: A_ },
		PropInfo { id: F, rule: "a history is 20-60 random transactions, transfers, amount changes and time; non-trivial when tokens were dispensed and compared", required: &["dispensed", "dispensed-to-new-account", "second-identity", "emptied", "bad-token-refused", "repeat-refused", "policy-refused", "depleted-refused", "schedules-refused", "amount-set", "amount-refused"], quick: 10_000, thorough: 2_000_000, assumptions: A_ },
		PropInfo { id: N, rule: "as C37; non-trivial when a transaction was validated and applied", required: &["valid", "future-queued", "future-refused", "stale-refused", "no-account-refused", "first-transaction", "failed-first-transaction", "dispensed-to-new-account"], quick: 10_000, thorough: 2_000_000, assumptions: A_ },
	];
	mon::main_with(&props, &[], random_history)
}
