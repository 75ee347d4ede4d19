//! Monitors for the offchain price worker: who feeds prices and when (C44), and which (C45).
//! The worker runs against an offchain world of our own: exchanges that answer, fail, stall or
//! babble, a clock, a persistent database shared by several workers, a transaction pool that may
//! refuse, and crashes in the middle of a run.
use frame_support::{construct_runtime, derive_impl, parameter_types, storage, traits::Hooks};
use frame_system::offchain::AppCrypto;
use mon::{hash_debug, Obs, PropInfo, Rng};
use orml_oracle::Call as OracleCall;
use pallet_oracle_ocw::{
	self as ocw,
	crypto::POLIMEC_ORACLE,
	types::AssetName,
};
use parity_scale_codec::{Decode, Encode};
use sp_core::{
	offchain::{
		DbExternalities, Externalities, HttpError, HttpRequestId, HttpRequestStatus, OffchainDbExt, OffchainWorkerExt, OpaqueNetworkState, StorageKind, Timestamp, TransactionPool,
		TransactionPoolExt,
	},
	sr25519, OpaquePeerId, Pair,
};
use sp_keystore::{testing::MemoryKeystore, Keystore, KeystoreExt};
use sp_runtime::{
	testing::TestXt,
	traits::{Convert, Extrinsic as ExtrinsicT, IdentityLookup, Verify},
	BuildStorage, FixedPointNumber, FixedU128, TransactionOutcome,
};
use std::{
	cell::RefCell,
	collections::{BTreeMap, BTreeSet},
	sync::{Arc, Mutex, OnceLock},
};

type Block = frame_system::mocking::MockBlock<Test>;
type Xt = TestXt<RuntimeCall, ()>;
type Who = sr25519::Public;

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountId = Who;
	type Block = Block;
	type Lookup = IdentityLookup<Who>;
	type Nonce = u64;
}

/// What a worker is configured with; each thread that runs one sets it.
#[derive(Clone, Default)]
struct Conf {
	interval: u64,
	window: u64,
	members: BTreeSet<usize>,
}
thread_local! { static CONF: RefCell<Conf> = RefCell::new(Conf::default()); }
pub struct Interval;
impl frame_support::traits::Get<u64> for Interval {
	fn get() -> u64 {
		CONF.with(|c| c.borrow().interval)
	}
}
pub struct Window;
impl frame_support::traits::Get<u64> for Window {
	fn get() -> u64 {
		CONF.with(|c| c.borrow().window)
	}
}
pub struct Members;
impl frame_support::traits::Contains<Who> for Members {
	fn contains(w: &Who) -> bool {
		index(w).is_some_and(|i| CONF.with(|c| c.borrow().members.contains(&i)))
	}
}
const KEYS: usize = 5;
fn keys() -> &'static Vec<Who> {
	static K: OnceLock<Vec<Who>> = OnceLock::new();
	K.get_or_init(|| (0..KEYS).map(|i| sr25519::Pair::from_string(&suri(i), None).unwrap().public()).collect())
}
/// a raw seed: cheap to derive
fn suri(i: usize) -> String {
	format!("0x{:064x}", i + 77)
}
fn index(w: &Who) -> Option<usize> {
	keys().iter().position(|k| k == w)
}

parameter_types! { pub const MaxFeedValues: u32 = 4; }
impl orml_oracle::Config for Test {
	type MaxFeedValues = MaxFeedValues;
	type OracleKey = u64;
	type OracleValue = FixedU128;
}
pub struct Conv;
impl Convert<(AssetName, FixedU128), (u64, FixedU128)> for Conv {
	fn convert((a, p): (AssetName, FixedU128)) -> (u64, FixedU128) {
		(code(a), p)
	}
}
fn code(a: AssetName) -> u64 {
	match a {
		AssetName::DOT => 10,
		AssetName::USDC => 1337,
		AssetName::USDT => 1984,
		AssetName::PLMC => 3344,
	}
}
const ASSETS: [AssetName; 4] = [AssetName::USDT, AssetName::USDC, AssetName::DOT, AssetName::PLMC];

impl ocw::Config for Test {
	type AppCrypto = ocw::crypto::Polimec;
	type ConvertAssetPricePair = Conv;
	type FetchInterval = Interval;
	type FetchWindow = Window;
	type Members = Members;
	type RuntimeEvent = RuntimeEvent;
}
impl frame_system::offchain::SigningTypes for Test {
	type Public = <sr25519::Signature as Verify>::Signer;
	type Signature = sr25519::Signature;
}
impl<L> frame_system::offchain::SendTransactionTypes<L> for Test
where
	RuntimeCall: From<L>,
{
	type Extrinsic = Xt;
	type OverarchingCall = RuntimeCall;
}
impl<L> frame_system::offchain::CreateSignedTransaction<L> for Test
where
	RuntimeCall: From<L>,
{
	fn create_transaction<C: AppCrypto<Self::Public, Self::Signature>>(call: RuntimeCall, _p: Who, account: Who, nonce: u64) -> Option<(RuntimeCall, <Xt as ExtrinsicT>::SignaturePayload)> {
		Some((call, (index(&account).map_or(u64::MAX, |i| i as u64 * 1_000_000 + nonce), ())))
	}
}
construct_runtime!(
	pub enum Test {
		System: frame_system,
		Oracle: orml_oracle,
		Ocw: ocw,
	}
);

// ---------------------------------------------------------------------------------------------
// the exchanges

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Ex {
	Kraken,
	BitFinex,
	BitStamp,
	Coinbase,
	Xt,
	Mexc,
}
const EXS: [Ex; 6] = [Ex::Kraken, Ex::BitFinex, Ex::BitStamp, Ex::Coinbase, Ex::Xt, Ex::Mexc];
fn url(e: Ex, a: AssetName) -> Option<&'static str> {
	use AssetName::*;
	Some(match (e, a) {
		(Ex::Kraken, USDT) => "https://api.kraken.com/0/public/OHLC?pair=USDTZUSD&interval=1",
		(Ex::Kraken, DOT) => "https://api.kraken.com/0/public/OHLC?pair=DOTUSD&interval=1",
		(Ex::Kraken, USDC) => "https://api.kraken.com/0/public/OHLC?pair=USDCUSD&interval=1",
		(Ex::BitFinex, USDT) => "https://api-pub.bitfinex.com/v2/candles/trade%3A1m%3AtUSTUSD/hist?limit=15",
		(Ex::BitFinex, DOT) => "https://api-pub.bitfinex.com/v2/candles/trade%3A1m%3AtDOTUSD/hist?limit=15",
		(Ex::BitFinex, USDC) => "https://api-pub.bitfinex.com/v2/candles/trade%3A1m%3AtUDCUSD/hist?limit=15",
		(Ex::BitStamp, USDT) => "https://www.bitstamp.net/api/v2/ohlc/usdtusd/?step=60&limit=15",
		(Ex::BitStamp, DOT) => "https://www.bitstamp.net/api/v2/ohlc/dotusd/?step=60&limit=15",
		(Ex::BitStamp, USDC) => "https://www.bitstamp.net/api/v2/ohlc/usdcusd/?step=60&limit=15",
		(Ex::Coinbase, USDT) => "https://api.exchange.coinbase.com/products/USDT-USD/candles?granularity=60",
		(Ex::Coinbase, DOT) => "https://api.exchange.coinbase.com/products/DOT-USD/candles?granularity=60",
		(Ex::Xt, PLMC) => "https://sapi.xt.com/v4/public/kline?symbol=plmc_usdt&interval=30m&limit=10",
		(Ex::Mexc, PLMC) => "https://api.mexc.com/api/v3/klines?symbol=PLMCUSDT&interval=30m&limit=10",
		_ => return None,
	})
}
fn by_url(u: &str) -> Option<(Ex, AssetName)> {
	EXS.iter().flat_map(|e| ASSETS.iter().map(move |a| (*e, *a))).find(|(e, a)| url(*e, *a) == Some(u))
}

/// high, low, close, volume in units of 1e-8
#[derive(Clone, Copy, Debug, Hash)]
struct Candle {
	h: u64,
	l: u64,
	c: u64,
	v: u64,
}
fn dec(x: u64, g: &mut Rng) -> String {
	let s = format!("{}.{:08}", x / 100_000_000, x % 100_000_000);
	match g.below(4) {
		0 => s.trim_end_matches('0').trim_end_matches('.').to_string(),
		_ => s,
	}
}
fn candle(g: &mut Rng, base: u64) -> Candle {
	let near = |g: &mut Rng| (base as u128 * (600 + g.below(800) as u128) / 1000) as u64;
	Candle {
		h: near(g),
		l: near(g),
		c: near(g),
		v: match g.below(10) {
			0 => 0,
			1 => 1_000_000 + g.below(100_000_000),
			2 => g.below(100_000_000) * 1_000_000,
			_ => 100_000_000 + g.below(1_000_000_000) * 100,
		},
	}
}

/// What an exchange does with a request, and what may be counted of it.
#[derive(Clone, Debug)]
struct Answer {
	start_fails: bool,
	status: HttpStatus,
	body: Vec<u8>,
	/// the body's read fails after this many bytes
	broken_at: Option<usize>,
	delay: u64,
	/// the candles that count; none when the answer is not usable
	counts: Vec<Candle>,
	what: &'static str,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum HttpStatus {
	Code(u16),
	Timeout,
	Io,
}

fn row(e: Ex, c: &Candle, t: u64, g: &mut Rng, odd: &'static str) -> String {
	let junk = |g: &mut Rng| dec(g.below(100_000_000_000), g);
	let (mut h, l, c_, mut v) = (dec(c.h, g), dec(c.l, g), dec(c.c, g), dec(c.v, g));
	if odd == "negative" {
		v = format!("-{}", dec(c.v + 1, g));
	}
	if odd == "word" {
		h = "n/a".into();
	}
	let (j, k) = (junk(g), junk(g));
	match e {
		Ex::Kraken if odd == "short" => format!("[{t},\"{j}\",\"{h}\",\"{l}\",\"{c_}\",\"{v}\",7]"),
		Ex::Kraken => format!("[{t},\"{j}\",\"{h}\",\"{l}\",\"{c_}\",\"{k}\",\"{v}\",{}]", g.below(99)),
		Ex::BitFinex | Ex::Coinbase if odd == "short" => format!("[{t},{j},{c_},{h},{l}]"),
		Ex::BitFinex | Ex::Coinbase if odd == "word" => format!("[{t},{j},{c_},null,{l},{v}]"),
		Ex::BitFinex => format!("[{t},{j},{c_},{h},{l},{v}]"),
		Ex::Coinbase => format!("[{t},{l},{h},{j},{c_},{v}]"),
		Ex::BitStamp if odd == "short" => format!("{{\"close\": \"{c_}\", \"low\": \"{l}\", \"open\": \"{j}\", \"timestamp\": \"{t}\", \"volume\": \"{v}\"}}"),
		Ex::BitStamp => {
			let mut f = vec![format!("\"close\": \"{c_}\""), format!("\"high\": \"{h}\""), format!("\"low\": \"{l}\""), format!("\"open\": \"{j}\""), format!("\"timestamp\": \"{t}\""), format!("\"volume\": \"{v}\"")];
			if g.chance(1, 3) {
				let n = g.below(6) as usize;
				f.rotate_left(n);
			}
			format!("{{{}}}", f.join(", "))
		},
		Ex::Xt if odd == "short" => format!("{{\"t\":{t},\"o\":\"{j}\",\"c\":\"{c_}\",\"h\":\"{h}\",\"q\":\"{k}\",\"v\":\"{v}\"}}"),
		Ex::Xt => {
			let mut f = vec![format!("\"t\":{t}"), format!("\"o\":\"{j}\""), format!("\"c\":\"{c_}\""), format!("\"h\":\"{h}\""), format!("\"l\":\"{l}\""), format!("\"q\":\"{k}\""), format!("\"v\":\"{v}\"")];
			if g.chance(1, 3) {
				let n = g.below(7) as usize;
				f.rotate_left(n);
			}
			format!("{{{}}}", f.join(","))
		},
		Ex::Mexc if odd == "short" => format!("[{t},\"{j}\",\"{h}\",\"{l}\",\"{c_}\",{t},\"{k}\"]"),
		Ex::Mexc => format!("[{t},\"{j}\",\"{h}\",\"{l}\",\"{c_}\",\"{v}\",{t},\"{k}\"]"),
	}
}
fn wrap(e: Ex, a: AssetName, rows: &[String], g: &mut Rng) -> String {
	let list = format!("[{}]", rows.join(if g.chance(1, 4) { ", " } else { "," }));
	match e {
		Ex::Kraken => {
			let pair = match a {
				AssetName::USDT => "USDTZUSD",
				AssetName::USDC => "USDCUSD",
				_ => "DOTUSD",
			};
			format!("{{\"error\":[],\"result\":{{\"{pair}\":{list},\"last\":1701878940}}}}")
		},
		Ex::BitStamp => format!("{{\"data\": {{\"ohlc\": {list}, \"pair\": \"X/USD\"}}}}"),
		Ex::Xt => format!("{{\"rc\":0,\"mc\":\"SUCCESS\",\"ma\":[],\"result\":{list}}}"),
		_ => list,
	}
}
const WEATHER: [&str; 15] = ["fine", "few", "many", "negative", "word", "short", "dry", "code", "timeout", "io", "nostart", "cut", "babble", "utf8", "none"];
fn answer(g: &mut Rng, e: Ex, a: AssetName, base: u64, healthy: bool) -> Answer {
	// how many rows an answer has at most, and how many it must have
	let (least, most) = match e {
		Ex::Kraken => (0, 720),
		Ex::BitFinex | Ex::BitStamp => (15, 15),
		Ex::Coinbase => (15, 1000),
		Ex::Xt => (0, 10),
		Ex::Mexc => (10, 10),
	};
	let kind = if healthy { "fine" } else { WEATHER[g.weighted(&[10, 2, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 1, 1])] };
	let usual = if e == Ex::Xt || e == Ex::Mexc { 10 } else { 15 };
	let n = match kind {
		"few" => g.below(usual),
		"many" => most + 1,
		_ if e == Ex::Kraken || e == Ex::Coinbase => match g.below(40) {
			0 => most,
			1 => most - g.below(2),
			2..=20 => usual + g.below(20),
			_ => usual,
		},
		_ => usual,
	} as usize;
	// the most recent rows are the ones that count: last for Kraken, first for Coinbase
	let mut cs = Vec::new();
	for i in 0..n {
		let counts = match e {
			Ex::Kraken => i + 15 >= n,
			Ex::Coinbase => i < 15,
			_ => true,
		};
		let mut c = candle(g, if counts { base } else { base * 7 });
		if kind == "dry" && counts {
			c.v = 0;
		}
		cs.push((c, counts));
	}
	let odd_at = if n == 0 { 0 } else { g.below(n as u64) as usize };
	let odd = match kind {
		"negative" => "negative",
		"word" => "word",
		"short" => "short",
		_ => "",
	};
	let rows: Vec<String> = cs.iter().enumerate().map(|(i, (c, _))| row(e, c, 1_701_878_000 + 60 * i as u64, g, if i == odd_at { odd } else { "" })).collect();
	let mut body = wrap(e, a, &rows, g).into_bytes();
	let mut usable = match kind {
		"few" => n >= least,
		"many" => false,
		"negative" => {
			// a row with a negative number is dropped where rows are read one by one
			match e {
				Ex::Coinbase => !cs.get(odd_at).is_some_and(|c| c.1),
				_ => false,
			}
		},
		"fine" | "dry" => true,
		_ => false,
	};
	let slow = if g.chance(1, 4) { 5000 } else { 300 };
	let mut r = Answer { start_fails: false, status: HttpStatus::Code(200), body: vec![], broken_at: None, delay: g.below(slow), counts: vec![], what: kind };
	match kind {
		"code" => r.status = HttpStatus::Code(*g.pick(&[201u16, 204, 301, 400, 404, 429, 500, 503])),
		"timeout" => {
			r.status = HttpStatus::Timeout;
			r.delay = 10_000;
		},
		"io" => r.status = HttpStatus::Io,
		"nostart" => r.start_fails = true,
		"cut" => {
			let at = g.below(body.len() as u64) as usize;
			if g.chance(1, 2) {
				r.broken_at = Some(at);
			} else {
				body.truncate(at);
			}
		},
		"babble" => {
			body = match g.below(7) {
				0 => b"<html><body>502 Bad Gateway</body></html>".to_vec(),
				1 => b"{\"error\":[\"EGeneral:Too many requests\"]}".to_vec(),
				2 => b"[]".to_vec(),
				3 => b"{}".to_vec(),
				4 => b"null".to_vec(),
				5 => [body.clone(), b"]".to_vec()].concat(),
				_ => {
					let other = *g.pick(&EXS);
					if other == e || (other, e) == (Ex::BitFinex, Ex::Coinbase) || (other, e) == (Ex::Coinbase, Ex::BitFinex) {
						b"\"\"".to_vec()
					} else {
						let rows: Vec<String> = (0..usual).map(|i| row(other, &candle(g, base * 3), i, g, "")).collect();
						wrap(other, a, &rows, g).into_bytes()
					}
				},
			}
		},
		"utf8" => {
			let at = g.below(body.len() as u64) as usize;
			body[at] = 0xff;
		},
		"none" => body.clear(),
		_ => {},
	}
	if kind == "utf8" || kind == "none" || n == 0 {
		usable = usable && kind != "utf8" && kind != "none";
	}
	if usable {
		r.counts = cs.iter().filter(|x| x.1).map(|x| x.0).collect();
	}
	r.body = body;
	r
}

// ---------------------------------------------------------------------------------------------
// the offchain world

struct Req {
	ex: Ex,
	asset: AssetName,
	read: usize,
	finished: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Crash {
	Wait(usize),
	BeforeSubmit,
	AfterSubmit,
}
#[derive(Default)]
struct World {
	now: u64,
	/// time at which the run in progress began
	began: u64,
	db: BTreeMap<Vec<u8>, Vec<u8>>,
	answers: BTreeMap<(Ex, AssetName), Answer>,
	reqs: Vec<Req>,
	asked: Vec<(Ex, AssetName)>,
	strange: Vec<String>,
	submitted: Vec<Vec<u8>>,
	pool_refuses: bool,
	refused: usize,
	waits: usize,
	crash: Option<Crash>,
	/// database at the crash
	wreck: Option<BTreeMap<Vec<u8>, Vec<u8>>>,
	/// run a second worker at this wait: block and keys
	rival: Option<(usize, u64)>,
	rival_ran: bool,
	rival_did: Vec<String>,
}
#[derive(Clone)]
struct Side {
	w: Arc<Mutex<World>>,
	/// of the second worker, which has to do nothing
	rival: bool,
	conf: Conf,
	store: Arc<MemoryKeystore>,
}
struct Boom;

impl Side {
	fn lock(&self) -> std::sync::MutexGuard<'_, World> {
		self.w.lock().unwrap_or_else(|e| e.into_inner())
	}
	fn crash(&self, at: Crash) {
		let mut w = self.lock();
		if !self.rival && w.crash == Some(at) {
			w.crash = None;
			w.wreck = Some(w.db.clone());
			drop(w);
			std::panic::panic_any(Boom);
		}
	}
}
impl Externalities for Side {
	fn is_validator(&self) -> bool {
		true
	}
	fn network_state(&self) -> Result<OpaqueNetworkState, ()> {
		Err(())
	}
	fn timestamp(&mut self) -> Timestamp {
		Timestamp::from_unix_millis(self.lock().now)
	}
	fn sleep_until(&mut self, d: Timestamp) {
		let mut w = self.lock();
		w.now = w.now.max(d.unix_millis());
	}
	fn random_seed(&mut self) -> [u8; 32] {
		[7; 32]
	}
	fn http_request_start(&mut self, method: &str, uri: &str, _meta: &[u8]) -> Result<HttpRequestId, ()> {
		let mut w = self.lock();
		if self.rival {
			w.rival_did.push(format!("asks {uri}"));
			return Err(());
		}
		let Some((ex, asset)) = by_url(uri) else {
			w.strange.push(format!("asks {uri}"));
			return Err(());
		};
		if method != "GET" {
			w.strange.push(format!("{method} {uri}"));
		}
		w.asked.push((ex, asset));
		if w.answers.get(&(ex, asset)).map_or(true, |a| a.start_fails) {
			return Err(());
		}
		w.reqs.push(Req { ex, asset, read: 0, finished: false });
		// numbers need not be consecutive
		Ok(HttpRequestId(w.reqs.len() as u16 * 3))
	}
	fn http_request_add_header(&mut self, _: HttpRequestId, _: &str, _: &str) -> Result<(), ()> {
		Ok(())
	}
	fn http_request_write_body(&mut self, _: HttpRequestId, _: &[u8], _: Option<Timestamp>) -> Result<(), HttpError> {
		Ok(())
	}
	fn http_response_wait(&mut self, ids: &[HttpRequestId], deadline: Option<Timestamp>) -> Vec<HttpRequestStatus> {
		let (n, rival) = {
			let mut w = self.lock();
			w.waits += 1;
			let n = w.waits - 1;
			let rival = match w.rival {
				Some((at, block)) if at == n && w.now < w.began + 29_000 => Some(block),
				_ => None,
			};
			(n, rival)
		};
		self.crash(Crash::Wait(n));
		if let Some(block) = rival {
			let side = Side { rival: true, ..self.clone() };
			std::thread::spawn(move || run(&side, block, &[])).join().ok();
			self.lock().rival_ran = true;
		}
		let mut w = self.lock();
		let start = w.now;
		let limit = match deadline {
			Some(d) => d.unix_millis(),
			None => {
				w.strange.push("waits without a limit".into());
				start + 5000
			},
		};
		if limit > start + 10_000 {
			w.strange.push(format!("waits for {} ms", limit - start));
		}
		let mut end = start;
		let r = ids
			.iter()
			.map(|id| {
				let i = (id.0 / 3) as usize;
				if id.0 % 3 != 0 || i == 0 || i > w.reqs.len() {
					return HttpRequestStatus::Invalid;
				}
				let a = &w.answers[&(w.reqs[i - 1].ex, w.reqs[i - 1].asset)];
				let (at, status) = (start + a.delay, a.status);
				end = end.max(at.min(limit));
				match status {
					HttpStatus::Timeout => HttpRequestStatus::DeadlineReached,
					_ if at > limit => HttpRequestStatus::DeadlineReached,
					HttpStatus::Io => HttpRequestStatus::IoError,
					HttpStatus::Code(c) => {
						w.reqs[i - 1].finished = true;
						HttpRequestStatus::Finished(c)
					},
				}
			})
			.collect();
		w.now = end;
		r
	}
	fn http_response_headers(&mut self, _: HttpRequestId) -> Vec<(Vec<u8>, Vec<u8>)> {
		vec![]
	}
	fn http_response_read_body(&mut self, id: HttpRequestId, buf: &mut [u8], _: Option<Timestamp>) -> Result<usize, HttpError> {
		let mut w = self.lock();
		let i = (id.0 / 3) as usize;
		if i == 0 || i > w.reqs.len() || !w.reqs[i - 1].finished {
			return Err(HttpError::Invalid);
		}
		let from = w.reqs[i - 1].read;
		let a = &w.answers[&(w.reqs[i - 1].ex, w.reqs[i - 1].asset)];
		let whole = a.broken_at.unwrap_or(a.body.len());
		if from == whole {
			return if a.broken_at.is_some() { Err(HttpError::IoError) } else { Ok(0) };
		}
		// bodies come in pieces
		let n = (whole - from).min(buf.len()).min(1 + (from * 31 + whole) % 4096);
		buf[..n].copy_from_slice(&a.body[from..from + n]);
		w.reqs[i - 1].read = from + n;
		Ok(n)
	}
	fn set_authorized_nodes(&mut self, _: Vec<OpaquePeerId>, _: bool) {}
}
impl DbExternalities for Side {
	fn local_storage_set(&mut self, _: StorageKind, k: &[u8], v: &[u8]) {
		self.lock().db.insert(k.to_vec(), v.to_vec());
	}
	fn local_storage_clear(&mut self, _: StorageKind, k: &[u8]) {
		self.lock().db.remove(k);
	}
	fn local_storage_compare_and_set(&mut self, _: StorageKind, k: &[u8], old: Option<&[u8]>, new: &[u8]) -> bool {
		let mut w = self.lock();
		if w.db.get(k).map(|v| v.as_slice()) != old {
			return false;
		}
		w.db.insert(k.to_vec(), new.to_vec());
		true
	}
	fn local_storage_get(&mut self, _: StorageKind, k: &[u8]) -> Option<Vec<u8>> {
		self.lock().db.get(k).cloned()
	}
}
impl TransactionPool for Side {
	fn submit_transaction(&mut self, xt: Vec<u8>) -> Result<(), ()> {
		if self.rival {
			self.lock().rival_did.push("submits".into());
			return Err(());
		}
		self.crash(Crash::BeforeSubmit);
		{
			let mut w = self.lock();
			if w.pool_refuses {
				w.refused += 1;
				return Err(());
			}
			w.submitted.push(xt);
		}
		self.crash(Crash::AfterSubmit);
		Ok(())
	}
}

thread_local! { static GENESIS: sp_runtime::Storage = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap(); }
/// One run of the worker at `block`, with the accounts' nonces; what it changes on chain is lost.
fn run(side: &Side, block: u64, nonces: &[u64]) {
	CONF.with(|c| *c.borrow_mut() = side.conf.clone());
	let mut t: sp_io::TestExternalities = GENESIS.with(|g| g.clone()).into();
	t.register_extension(OffchainWorkerExt::new(side.clone()));
	t.register_extension(OffchainDbExt::new(side.clone()));
	t.register_extension(TransactionPoolExt::new(side.clone()));
	t.register_extension(KeystoreExt::from(side.store.clone() as Arc<dyn Keystore>));
	t.execute_with(|| {
		for (i, n) in nonces.iter().enumerate() {
			frame_system::Account::<Test>::mutate(keys()[i], |a| a.nonce = *n);
		}
		System::set_block_number(block);
		let _ = storage::with_transaction(|| -> TransactionOutcome<Result<(), sp_runtime::DispatchError>> {
			<Ocw as Hooks<u64>>::offchain_worker(block);
			TransactionOutcome::Rollback(Ok(()))
		});
	});
}

const WHO: &str = "C44";
const PRICE: &str = "C45";

fn random_history(seed: u64, o: &mut Obs) {
	let mut g = Rng::new(seed);
	let g = &mut g;
	let interval = 1 + g.below(12);
	let window = 1 + g.below(interval);
	let mut conf = Conf { interval, window, members: (0..KEYS).filter(|_| g.chance(1, 2)).collect() };
	let store = Arc::new(MemoryKeystore::new());
	let mut held: BTreeSet<usize> = BTreeSet::new();
	let add = |store: &MemoryKeystore, held: &mut BTreeSet<usize>, i: usize| {
		if held.insert(i) {
			store.insert(POLIMEC_ORACLE, &suri(i), &keys()[i].0).unwrap();
		}
	};
	for _ in 0..g.below(4) {
		let i = g.below(KEYS as u64) as usize;
		add(&store, &mut held, i);
	}
	let w = Arc::new(Mutex::new(World { now: 1_700_000_000_000 + g.below(1 << 40), ..Default::default() }));
	let mut last: BTreeMap<AssetName, u64> = ASSETS.iter().map(|a| (*a, 0)).collect();
	let mut block = g.below(40);
	// the database of a node that ran before
	match g.below(6) {
		0 => {
			// before PLMC was fed
			let old: BTreeMap<AssetName, u64> = ASSETS[..3].iter().map(|a| (*a, g.below(block + 1))).collect();
			w.lock().unwrap().db.insert(b"oracle_ocw::last_send".to_vec(), old.encode());
			last.extend(old);
			o.hit(&[WHO], "old-database");
		},
		1 => {
			w.lock().unwrap().db.insert(b"oracle_ocw::last_send".to_vec(), vec![0xff; g.below(9) as usize]);
			o.hit(&[WHO], "broken-database");
		},
		2 => {
			let old: BTreeMap<AssetName, u64> = ASSETS.iter().map(|a| (*a, g.below(block + 5))).collect();
			w.lock().unwrap().db.insert(b"oracle_ocw::last_send".to_vec(), old.encode());
			last.extend(old);
		},
		_ => {},
	}
	let mut nonces: Vec<u64> = (0..KEYS).map(|_| g.below(100)).collect();
	// a crashed run's lock, which holds for 30 s
	let mut stuck: Option<u64> = None;
	let base: BTreeMap<AssetName, u64> = ASSETS.iter().map(|a| (*a, match g.below(3) { 0 => 1_000_000 + g.below(100_000_000), 1 => 100_000_000, _ => 100_000_000 + g.below(100_000_000_000) })).collect();
	let weather = g.below(4);
	for _ in 0..10 + g.below(20) {
		if o.stop() {
			return;
		}
		// blocks pass; some are skipped, some seen twice, some undone
		match g.below(16) {
			0 => block += g.below(3 * interval),
			1 => block = block.saturating_sub(g.below(6)),
			2 => {},
			_ => block += 1,
		}
		match g.below(24) {
			0 => {
				let i = g.below(KEYS as u64) as usize;
				add(&store, &mut held, i);
			},
			1 => {
				let i = g.below(KEYS as u64) as usize;
				if !conf.members.remove(&i) {
					conf.members.insert(i);
				}
			},
			_ => {},
		}
		let mine: BTreeSet<usize> = held.intersection(&conf.members).cloned().collect();
		let due: Vec<AssetName> = ASSETS.iter().filter(|a| block % interval < window && last[a] < block.saturating_sub(window)).cloned().collect();
		let (blocked, works);
		{
			let mut w = w.lock().unwrap();
			w.now += match g.below(5) {
				0 => 0,
				1 => g.below(1000),
				2 => g.below(29_000),
				_ => 12_000,
			};
			if let Some(s) = stuck {
				// keep clear of the very end of the lock's time
				if w.now > s + 29_000 && w.now < s + 32_000 {
					w.now = s + 32_000;
				}
			}
			w.began = w.now;
			w.reqs.clear();
			w.asked.clear();
			w.strange.clear();
			w.submitted.clear();
			w.rival_did.clear();
			w.rival_ran = false;
			w.waits = 0;
			w.refused = 0;
			w.pool_refuses = g.chance(1, 8);
			w.wreck = None;
			w.answers.clear();
			blocked = stuck.is_some_and(|s| w.now <= s + 30_000);
			works = !mine.is_empty() && !due.is_empty() && !blocked;
			for e in EXS {
				for a in if works { due.clone() } else { vec![] } {
					if url(e, a).is_some() {
						let healthy = match weather {
							0 => true,
							1 => g.chance(3, 4),
							_ => false,
						};
						w.answers.insert((e, a), answer(g, e, a, base[&a], healthy));
					}
				}
			}
			w.crash = if g.chance(1, 20) { Some(*g.pick(&[Crash::Wait(0), Crash::Wait(3), Crash::BeforeSubmit, Crash::AfterSubmit])) } else { None };
			let at = g.below(6) as usize;
			w.rival = if g.chance(1, 6) { Some((at, if g.chance(1, 2) { block } else { block + 1 })) } else { None };
		}
		o.op(|| format!("block {block} (interval {interval}, window {window}), keys {held:?} members {:?}, due {due:?}, locked {blocked}", conf.members));
		let side = Side { w: w.clone(), rival: false, conf: conf.clone(), store: store.clone() };
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&side, block, &nonces)));
		let mut crashed = false;
		if let Err(e) = r {
			if e.is::<Boom>() {
				crashed = true;
			} else {
				let what = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
				return o.violate(&[WHO, PRICE], "panic", || format!("the worker panics: {what}"));
			}
		}
		let mut w = w.lock().unwrap_or_else(|e| e.into_inner());
		let w = &mut *w;
		w.crash = None;
		o.note(|| format!("asked {:?}; submitted {}; refused {}; crashed {crashed}", w.asked, w.submitted.len(), w.refused));
		if let Some(s) = w.strange.first() {
			return o.violate(&[WHO], "request", || format!("the worker {s}"));
		}
		if w.rival_ran {
			if let Some(s) = w.rival_did.first() {
				return o.violate(&[WHO], "two-at-once", || format!("a second worker {s} while one is running"));
			}
			o.hit(&[WHO], "rival-held-off");
		}
		// what was asked
		let want: BTreeSet<(Ex, AssetName)> = if works { EXS.iter().flat_map(|e| due.iter().map(move |a| (*e, *a))).filter(|(e, a)| url(*e, *a).is_some()).collect() } else { BTreeSet::new() };
		let asked: BTreeSet<(Ex, AssetName)> = w.asked.iter().cloned().collect();
		if asked.len() != w.asked.len() {
			return o.violate(&[WHO], "asked-twice", || format!("{:?}", w.asked));
		}
		if crashed {
			if !asked.is_subset(&want) {
				return o.violate(&[WHO], "asked", || format!("asked {asked:?}, expected {want:?}"));
			}
		} else if asked != want {
			let why = if mine.is_empty() { "no member's key" } else if blocked { "another worker's lock" } else { "what is due" };
			return o.violate(&[WHO], "asked", || format!("asked {asked:?}, expected {want:?} ({why})"));
		}
		if !works {
			if let Some(k) = (!w.submitted.is_empty() || w.refused > 0).then_some(()) {
				let _ = k;
				return o.violate(&[WHO], "submitted", || "a feed although nothing was to be fed".into());
			}
			o.hit(&[WHO], if mine.is_empty() { if held.is_empty() { "no-key" } else { "no-member" } } else if blocked { "locked-out" } else { "not-due" });
			continue;
		}
		// the prices
		let mut expect: BTreeMap<u64, (f64, Vec<&'static str>)> = BTreeMap::new();
		for a in &due {
			let (mut pv, mut vol, mut n) = (0f64, 0f64, 0);
			let mut whats = vec![];
			for e in EXS {
				let Some(x) = w.answers.get(&(e, *a)) else { continue };
				let v: f64 = x.counts.iter().map(|c| c.v as f64 / 1e8).sum();
				if v == 0.0 {
					whats.push(x.what);
					continue;
				}
				n += 1;
				vol += v;
				pv += x.counts.iter().map(|c| c.v as f64 / 1e8 * ((c.h as f64 + c.l as f64 + c.c as f64) / 3e8)).sum::<f64>();
			}
			if n > 0 {
				if whats.is_empty() {
					o.hit(&[PRICE], "all-exchanges");
				}
				for k in &whats {
					o.hit(&[PRICE], k);
				}
				expect.insert(code(*a), (pv / vol, whats));
			} else {
				o.hit(&[WHO, PRICE], "no-price");
			}
		}
		if crashed {
			o.hit(&[WHO], "crash");
			w.db = w.wreck.take().unwrap();
			stuck = Some(w.began);
			// the lock may have been taken a little later than the run began, but no time passes before
		} else {
			stuck = None;
		}
		let attempts = w.submitted.len() + w.refused;
		if attempts > (!expect.is_empty()) as usize {
			return o.violate(&[WHO], "fed-twice", || format!("{attempts} feeds in one run, {} prices known", expect.len()));
		}
		if !crashed && attempts != (!expect.is_empty()) as usize {
			return o.violate(&[WHO], "not-fed", || format!("prices for {:?} were known and not fed", expect.keys()));
		}
		for xt in &w.submitted {
			let Ok(xt) = Xt::decode(&mut &xt[..]) else { return o.violate(&[WHO], "transaction", || "the transaction does not decode".into()) };
			let RuntimeCall::Oracle(OracleCall::feed_values { values }) = xt.call else { return o.violate(&[WHO], "transaction", || "the transaction is not a feed".into()) };
			let signer = xt.signature.map(|s| s.0).unwrap_or(u64::MAX);
			let (who, nonce) = ((signer / 1_000_000) as usize, signer % 1_000_000);
			if signer == u64::MAX || !mine.contains(&who) {
				return o.violate(&[WHO], "stranger-signs", || format!("the feed is signed by key {who}, members' keys held here are {mine:?}"));
			}
			if nonce != nonces[who] {
				return o.violate(&[WHO], "nonce", || format!("nonce {nonce}, the account is at {}", nonces[who]));
			}
			let fed: BTreeMap<u64, f64> = values.iter().map(|(k, v)| (*k, v.into_inner() as f64 / FixedU128::DIV as f64)).collect();
			if fed.len() != values.len() || fed.keys().ne(expect.keys()) {
				return o.violate(&[PRICE], "assets", || format!("fed {fed:?}, expected {expect:?}"));
			}
			for (k, p) in &fed {
				let (q, whats) = &expect[k];
				if (p - q).abs() > q * 2e-6 + 1e-7 {
					return o.violate(&[PRICE], "price", || format!("asset {k} is fed at {p}, the volume-weighted average is {q}; left out: {whats:?}"));
				}
				o.hit(&[PRICE], "price");
			}
			o.hit(&[WHO], if held.len() > mine.len() { "fed-among-strangers" } else { "fed" });
			if !crashed {
				for a in &due {
					if fed.contains_key(&code(*a)) {
						last.insert(*a, block);
					}
				}
				if fed.len() < due.len() {
					o.hit(&[WHO], "fed-in-part");
				}
			}
			// it may or may not be included by the next block
			if g.chance(3, 4) {
				nonces[who] += 1;
			}
		}
		if w.refused > 0 {
			o.hit(&[WHO], "pool-refused");
		}
		o.state(hash_debug(&(due.len(), expect.len(), crashed, w.submitted.len(), block % interval, window, mine.len())));
	}
}

fn main() {
	const A_: &[&str] = &["frame's offchain helpers (registry crates) behave as documented", "JSON, fixed-point, bounded-list and oracle crates are stand-ins of the parts the pallet uses", "holds on the histories generated from this seed"];
	let props = [
		PropInfo { id: WHO, rule: "a history is 10-30 runs of the worker over passing, skipped and undone blocks, with changing keys, members, exchanges' answers, crashes and rivals; non-trivial when a feed was submitted and checked", required: &["fed", "fed-among-strangers", "fed-in-part", "pool-refused", "crash", "locked-out", "rival-held-off", "no-key", "no-member", "not-due", "no-price", "old-database", "broken-database"], quick: 20_000, thorough: 2_000_000, assumptions: A_ },
		PropInfo { id: PRICE, rule: "as C44; non-trivial when a fed price was compared with the average computed from the answers", required: &["price", "all-exchanges", "few", "many", "negative", "word", "short", "dry", "code", "timeout", "io", "nostart", "cut", "babble", "utf8", "none"], quick: 20_000, thorough: 2_000_000, assumptions: A_ },
	];
	mon::main_with(&props, &[], random_history)
}
