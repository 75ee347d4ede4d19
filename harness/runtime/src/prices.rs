//! C55: which price the runtime goes by.
use crate::{
	acc,
	env::{Oracle, PROVIDERS},
	poly,
	rt::{Runtime, RuntimeOrigin, Timestamp, PRICES},
};
use frame_support::{
	traits::{ChangeMembers, Get, SortedMembers, Time},
	BoundedVec,
};
use frame_system::{ensure_root, ensure_signed};
use mon::*;
use ocw::types::AssetName;
use orml_traits::DataProvider;
use parachains_common::AccountId;
use polimec_common::ProvideAssetPrice;
use poly::{w_orml_oracle as w, w_pallet_oracle_ocw as worker};
use sp_arithmetic::FixedU128;
use sp_runtime::{traits::Convert, BuildStorage};
use std::{cell::RefCell, collections::BTreeMap, marker::PhantomData};

const P: &[&str] = &["C55"];
/// What the worker calls an asset, and what the rest of the chain does.
const NAMED: [(AssetName, u32); 4] = [(AssetName::DOT, 10), (AssetName::USDC, 1337), (AssetName::USDT, 1984), (AssetName::PLMC, 3344)];
const FRESH: u64 = 60_000;
const BLOCK: u64 = 12_000;

// ---- as orml-oracle does it
pub trait CombineData {
	fn combine(values: Vec<(FixedU128, u64)>, before: Option<FixedU128>) -> Option<FixedU128>;
}
pub struct DefaultCombineData<T, Minimum, Expires, I = ()>(PhantomData<(T, Minimum, Expires, I)>);
impl<T, Minimum: Get<u32>, Expires: Get<u64>, I> CombineData for DefaultCombineData<T, Minimum, Expires, I> {
	fn combine(mut values: Vec<(FixedU128, u64)>, before: Option<FixedU128>) -> Option<FixedU128> {
		let (now, expires) = (<w::Time as Time>::now(), Expires::get());
		values.retain(|x| x.1.saturating_add(expires) > now);
		let n = values.len();
		if (n as u32) < Minimum::get() || n == 0 {
			return before
		}
		Some(values.select_nth_unstable_by(n / 2, |a, b| a.0.cmp(&b.0)).1 .0)
	}
}
thread_local! {
	pub static RAW: RefCell<BTreeMap<(AccountId, w::OracleKey), (w::OracleValue, u64)>> = Default::default();
	static HAVE: RefCell<Vec<AccountId>> = Default::default();
}
/// A member that leaves takes its values along.
pub fn left(outgoing: &[AccountId]) {
	RAW.with(|r| r.borrow_mut().retain(|(a, _), _| !outgoing.contains(a)));
}
fn feed_values(from: RuntimeOrigin, values: Vec<(w::OracleKey, w::OracleValue)>) -> Result<(), &'static str> {
	let root = <w::RootOperatorAccountId as Get<AccountId>>::get();
	let values: BoundedVec<_, w::MaxFeedValues> = values.try_into().map_err(|_| "too many values")?;
	let who = if ensure_root(from.clone()).is_ok() { root.clone() } else { ensure_signed(from).map_err(|_| "bad origin")? };
	if !<w::Members as SortedMembers<AccountId>>::contains(&who) && who != root {
		return Err("no permission")
	}
	HAVE.with(|h| {
		let mut h = h.borrow_mut();
		if h.contains(&who) || h.len() as u32 >= <w::MaxHasDispatchedSize as Get<u32>>::get() {
			return Err("already fed")
		}
		h.push(who.clone());
		Ok(())
	})?;
	let now = <w::Time as Time>::now();
	for (k, v) in values {
		RAW.with(|r| r.borrow_mut().insert((who.clone(), k), (v, now)));
		let mut all = <w::Members as SortedMembers<AccountId>>::sorted_members();
		all.push(root.clone());
		let all = RAW.with(|r| all.into_iter().filter_map(|a| r.borrow().get(&(a, k)).cloned()).collect());
		if let Some(x) = <w::CombineData as CombineData>::combine(all, Oracle::get(&k)) {
			PRICES.with(|p| p.borrow_mut().insert(k, x));
		}
	}
	Ok(())
}
// ----

#[derive(Clone, Debug)]
struct Fed {
	/// `None` is Root
	by: Option<u8>,
	id: u32,
	x: FixedU128,
	at: u64,
	/// has left since, or fed again
	gone: bool,
	again: bool,
}
/// The upper middle of at least `least` feeds.
fn middle(mut v: Vec<FixedU128>, least: usize) -> Option<FixedU128> {
	v.sort();
	if v.len() < least {
		None
	} else {
		v.get(v.len() / 2).cloned()
	}
}
struct Chain<'a> {
	o: &'a mut Obs,
	now: u64,
	members: Vec<u8>,
	/// since when
	fed: Vec<Fed>,
	block: Vec<Option<u8>>,
	price: BTreeMap<u32, FixedU128>,
}
fn who(by: &Option<u8>) -> String {
	by.map_or("Root".into(), |a| format!("#{a}"))
}
impl Chain<'_> {
	fn set_time(&mut self, t: u64) {
		self.now = t;
		Timestamp::set_timestamp(t);
	}
	fn new_block(&mut self, after: u64) {
		self.block.clear();
		HAVE.with(|h| h.borrow_mut().clear());
		let t = self.now + after;
		self.set_time(t);
		self.o.op(|| format!("a block {after} ms later"));
		self.look("a block passes");
	}
	/// What `id` should be worth once a feed of it has come in.
	fn due(&self, id: u32, fresh: u64, least: usize, with_gone: bool) -> Option<FixedU128> {
		let v = self.fed.iter().filter(|f| f.id == id && !f.again && (with_gone || !f.gone) && self.now - f.at < fresh).map(|f| f.x).collect();
		middle(v, least)
	}
	/// Both places that ask for prices are given the model's.
	fn look(&mut self, why: &str) {
		for (name, id) in NAMED {
			let want = self.price.get(&id).cloned();
			let got = [
				<poly::w_pallet_funding::PriceProvider as ProvideAssetPrice>::get_price(id),
				<poly::w_pallet_proxy_bonding::PriceProvider as ProvideAssetPrice>::get_price(id),
			];
			self.o.hit(P, "asked");
			for (k, g) in got.into_iter().enumerate() {
				if g != want {
					let place = ["funding", "proxy bonds"][k];
					self.o.violate(P, "price", || format!("{why}: {place} takes {name:?} at {g:?} rather than {want:?}"));
				}
			}
		}
	}
	/// `by` feeds what its worker has found. A stranger is refused, as is whoever has fed in this block.
	fn feed(&mut self, by: Option<u8>, found: Vec<(AssetName, FixedU128)>) {
		let what = format!("{} feeds {found:?} at {}", who(&by), self.now);
		self.o.op(|| what.clone());
		let values: Vec<_> = found.iter().map(|x| <worker::ConvertAssetPricePair as Convert<_, _>>::convert(*x)).collect();
		for ((name, x), (id, y)) in found.iter().zip(&values) {
			let want = NAMED.iter().find(|n| n.0 == *name).unwrap().1;
			if *id != want || x != y {
				return self.o.violate(P, "named", || format!("{what}: {name:?} at {x:?} becomes {id} at {y:?}"))
			}
		}
		let from = by.map_or(RuntimeOrigin::root(), |a| RuntimeOrigin::signed(acc(a)));
		let r = match self.o.guard(|| feed_values(from, values)) {
			Ok(r) => r,
			Err(p) => return self.o.violate(P, "panic", || format!("{what}: {p}")),
		};
		let member = by.map_or(true, |a| self.members.contains(&a));
		let twice = self.block.contains(&by);
		self.o.hit(P, if !member { "stranger-refused" } else if twice { "twice-refused" } else if by.is_none() { "root-fed" } else { "fed" });
		if r.is_ok() != (member && !twice) {
			return self.o.violate(P, "feeder", || format!("{what}: a member: {member}, had fed in this block: {twice}: {r:?}"))
		}
		if r.is_ok() {
			self.block.push(by);
			if found.len() == 4 {
				self.o.hit(P, "four-at-once");
			}
			for (name, x) in &found {
				let id = NAMED.iter().find(|n| n.0 == *name).unwrap().1;
				for f in self.fed.iter_mut().filter(|f| f.by == by && f.id == id) {
					f.again = true;
				}
				self.fed.push(Fed { by, id, x: *x, at: self.now, gone: false, again: false });
				let was = self.price.get(&id).cloned();
				let due = self.due(id, FRESH, 3, false);
				// whether each rule decides here
				for (k, other) in [
					("just-stale", self.due(id, FRESH + 1, 3, false)),
					("just-fresh", self.due(id, FRESH - 1, 3, false)),
					("stale", self.due(id, u64::MAX, 3, false)),
					("two-too-few", self.due(id, FRESH, 2, false)),
					("three-enough", self.due(id, FRESH, 4, false)),
					("left", self.due(id, FRESH, 3, true)),
				] {
					if other.or(was) != due.or(was) {
						self.o.hit(P, k);
					}
				}
				if let Some(x) = due {
					if was != due {
						self.o.hit(P, "moved");
					}
					self.price.insert(id, x);
				}
			}
			self.fed.retain(|f| !f.again);
		}
		self.look(&what);
		self.o.state(hash_str(&format!("{:?}{:?}", self.price, self.fed.len())));
	}
	fn seat(&mut self, new: Vec<u8>) {
		let of = |v: &[u8]| v.iter().map(|a| acc(*a)).collect::<Vec<_>>();
		let what = format!("the members become {new:?}");
		self.o.op(|| what.clone());
		PROVIDERS.with(|p| *p.borrow_mut() = of(&new));
		<poly::w_pallet_membership_1::MembershipChanged as ChangeMembers<AccountId>>::set_members_sorted(&of(&new), &of(&self.members));
		for f in self.fed.iter_mut() {
			f.gone |= f.by.map_or(false, |a| !new.contains(&a));
		}
		self.members = new;
		self.o.hit(P, "seated");
		self.look(&what);
	}
	/// Every member's worker runs somewhere in the window in which it may, then one of the next.
	fn interval(&mut self, rng: &mut Rng) {
		let (window, interval) = (<worker::FetchWindow as Get<u32>>::get() as u64, <worker::FetchInterval as Get<u32>>::get() as u64);
		if interval < 2 || window == 0 || window >= interval || self.members.len() < 3 {
			return self.o.violate(P, "window", || format!("workers fetch in {window} of {interval} blocks"))
		}
		self.new_block(2 * FRESH);
		let mut when: Vec<(u64, u8)> = self.members.iter().map(|a| (rng.below(window), *a)).collect();
		when[0].0 = 0;
		when.last_mut().unwrap().0 = window - 1;
		when.sort();
		let x = price(rng);
		let (name, id) = *rng.pick(&NAMED);
		let mut at = 0;
		let mut all = vec![];
		for (k, a) in when {
			while at < k {
				self.new_block(BLOCK);
				at += 1;
			}
			let y = near(rng, x);
			all.push(y);
			self.feed(Some(a), vec![(name, y)]);
		}
		// the feeds of a window count together ...
		self.o.hit(P, "window-combined");
		let n = all.len();
		let got = <poly::w_pallet_funding::PriceProvider as ProvideAssetPrice>::get_price(id);
		if got != middle(all.clone(), 3) {
			self.o.violate(P, "window", || format!("{n} members feed {all:?} for {name:?} within the {window} blocks of a window: the price is {got:?}"));
		}
		// ... and those of the next apart from them
		self.new_block((interval - at) * BLOCK);
		let m = self.members.clone();
		for a in m.iter().take(2) {
			let y = price(rng);
			self.feed(Some(*a), vec![(name, y)]);
			let now = <poly::w_pallet_funding::PriceProvider as ProvideAssetPrice>::get_price(id);
			self.o.hit(P, "interval-apart");
			if now != got {
				self.o.violate(P, "interval", || format!("{name:?} was {got:?}, is {now:?} after one or two feeds of the next interval ({interval} blocks)"));
			}
		}
	}
}
fn price(rng: &mut Rng) -> FixedU128 {
	match rng.below(12) {
		0 => FixedU128::from_inner(rng.below128(3)),
		1 => FixedU128::from_inner(u128::MAX - rng.below128(3)),
		_ => FixedU128::from_inner(1 + rng.edgy128(10_000_000_000_000_000_000_000)),
	}
}
fn near(rng: &mut Rng, x: FixedU128) -> FixedU128 {
	match rng.below(4) {
		0 => x,
		1 => price(rng),
		_ => FixedU128::from_inner(x.into_inner().saturating_add(rng.below128(1_000_000_000_000))),
	}
}

pub fn history(seed: u64, o: &mut Obs) {
	let mut rng = Rng::new(seed);
	RAW.with(|r| r.borrow_mut().clear());
	HAVE.with(|r| r.borrow_mut().clear());
	PRICES.with(|r| r.borrow_mut().clear());
	PROVIDERS.with(|r| r.borrow_mut().clear());
	let st = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
	let mut ext = sp_io::TestExternalities::new(st);
	ext.execute_with(|| {
		let mut c = Chain { o, now: 0, members: vec![], fed: vec![], block: vec![], price: BTreeMap::new() };
		let t = 1_700_000_000_000 + rng.below(1 << 30);
		c.set_time(t);
		c.look("at the beginning");
		let some = |rng: &mut Rng| {
			let (n, most) = if rng.chance(1, 8) { (24, 20) } else { (8, 6) };
			let mut v: Vec<u8> = (1..=n).filter(|_| rng.chance(1, 2)).collect();
			v.truncate(most);
			v
		};
		let first = some(&mut rng);
		c.seat(first);
		let mut last = price(&mut rng);
		for _ in 0..rng.range(30, 90) {
			if c.o.stop() {
				return
			}
			match rng.below(30) {
				0 => {
					let new = some(&mut rng);
					c.seat(new);
				},
				1 | 2 => {
					// one comes or goes
					let a = rng.range(1, 8) as u8;
					let mut new = c.members.clone();
					if new.contains(&a) {
						new.retain(|x| *x != a);
					} else {
						new.push(a);
						new.sort();
					}
					c.seat(new);
				},
				3 if c.members.len() >= 3 => c.interval(&mut rng),
				4..=8 => {
					// to where some feed is just fresh, or just no longer
					let dt = if !c.fed.is_empty() && rng.chance(2, 3) {
						let age = c.now - rng.pick(&c.fed).at;
						(FRESH + 1 - rng.below(3)).saturating_sub(age)
					} else {
						*rng.pick(&[1_000, BLOCK, BLOCK, 2 * BLOCK, 5 * BLOCK, FRESH, 10 * FRESH])
					};
					c.new_block(dt);
				},
				9..=12 => c.new_block(*rng.pick(&[0, 1, BLOCK, BLOCK])),
				_ => {
					let by = match rng.below(12) {
						0 => None,
						1 => Some(rng.range(1, 24) as u8),
						_ if c.members.is_empty() => None,
						_ => Some(*rng.pick(&c.members)),
					};
					if rng.chance(1, 6) {
						last = price(&mut rng);
					}
					let mut found: Vec<(AssetName, FixedU128)> = vec![];
					for (n, _) in NAMED {
						if rng.chance(1, 2) {
							found.push((n, near(&mut rng, last)));
						}
					}
					c.feed(by, found);
				},
			}
		}
	});
}
