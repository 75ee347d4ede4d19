//! Runtime-monitoring scaffolding shared by every harness in /verif/harness:
//! a deterministic PRNG, a parallel history runner, the three-valued verdict, the
//! known-findings filter, the replay file and the evidence writer.
//!
//! A *history* is one seeded sequence of operations against the real pallets. While it runs,
//! monitors call `Obs::violate` (tagged with the properties whose statement the observation
//! contradicts), `Obs::hit` (an oracle of that property was evaluated on an observation that
//! could have refuted it) and `Obs::count` (free-form coverage counters).

use serde_json::{json, Value};
use std::{
	cell::RefCell,
	collections::{BTreeMap, HashSet},
	panic::{catch_unwind, AssertUnwindSafe},
	sync::{
		atomic::{AtomicBool, AtomicU64, Ordering},
		Mutex,
	},
	time::Instant,
};

// ---------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(a: u64, b: u64) -> u64 {
	let mut z = a ^ b.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(31);
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
	z ^ (z >> 31)
}

impl Rng {
	pub fn new(seed: u64) -> Self {
		Rng(mix(seed, 0x5851F42D4C957F2D))
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
		z ^ (z >> 31)
	}
	pub fn next128(&mut self) -> u128 {
		((self.next() as u128) << 64) | self.next() as u128
	}
	/// Uniform in 0..n (n > 0).
	pub fn below(&mut self, n: u64) -> u64 {
		self.next() % n.max(1)
	}
	pub fn below128(&mut self, n: u128) -> u128 {
		self.next128() % n.max(1)
	}
	/// Inclusive range.
	pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
		lo + self.below(hi - lo + 1)
	}
	pub fn range128(&mut self, lo: u128, hi: u128) -> u128 {
		lo + self.below128(hi - lo + 1)
	}
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.below(den) < num
	}
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
		&xs[self.below(xs.len() as u64) as usize]
	}
	/// Index drawn with the given weights.
	pub fn weighted(&mut self, ws: &[u64]) -> usize {
		let total: u64 = ws.iter().sum();
		let mut x = self.below(total);
		for (i, w) in ws.iter().enumerate() {
			if x < *w {
				return i;
			}
			x -= w;
		}
		ws.len() - 1
	}
	/// A value that likes edges: small, near `max`, power-of-two-ish, or uniform.
	pub fn edgy128(&mut self, max: u128) -> u128 {
		match self.below(6) {
			0 => self.below128(4).min(max),
			1 => max - self.below128(3).min(max),
			2 => {
				let bits = 128 - max.leading_zeros();
				let b = self.below(bits.max(1) as u64) as u32;
				(1u128 << b).wrapping_add(self.below128(3)).wrapping_sub(1).min(max)
			},
			3 => max / (1 + self.below128(10)),
			_ =>
				if max == u128::MAX {
					self.next128()
				} else {
					self.below128(max + 1)
				},
		}
	}
}

// ---------------------------------------------------------------- observations of one history

pub struct Obs {
	prop: String,
	pub trace: Vec<String>,
	keep_trace: bool,
	counters: BTreeMap<String, u64>,
	hits: u64,
	hit_kinds: BTreeMap<&'static str, u64>,
	states: HashSet<u64>,
	sig: u64,
	violation: Option<String>,
	other: BTreeMap<String, u64>,
	known: BTreeMap<String, String>,
	known_list: Vec<(String, String)>,
	inconclusive: Option<String>,
}

thread_local! {
	static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

impl Obs {
	fn new(prop: &str, keep_trace: bool, known_list: Vec<(String, String)>) -> Self {
		Obs {
			prop: prop.into(),
			trace: vec![],
			keep_trace,
			counters: Default::default(),
			hits: 0,
			hit_kinds: Default::default(),
			states: Default::default(),
			sig: 0,
			violation: None,
			other: Default::default(),
			known: Default::default(),
			known_list,
			inconclusive: None,
		}
	}
	pub fn prop(&self) -> &str {
		&self.prop
	}
	/// Record one operation of the history (call before invoking it).
	pub fn op(&mut self, s: impl FnOnce() -> String) {
		if self.keep_trace {
			self.trace.push(s());
		}
	}
	pub fn note(&mut self, s: impl FnOnce() -> String) {
		if self.keep_trace {
			self.trace.push(s());
		}
	}
	pub fn count(&mut self, k: &str) {
		self.count_n(k, 1)
	}
	pub fn count_n(&mut self, k: &str, n: u64) {
		match self.counters.get_mut(k) {
			Some(c) => *c += n,
			None => {
				self.counters.insert(k.to_string(), n);
			},
		}
	}
	/// An oracle of `props` was evaluated on an observation that could have refuted it.
	pub fn hit(&mut self, props: &[&str], kind: &'static str) {
		if props.iter().any(|p| *p == self.prop) {
			self.hits += 1;
			*self.hit_kinds.entry(kind).or_default() += 1;
		}
	}
	/// A state the system was observed in (by hash); feeds `distinct_states` and the history signature.
	pub fn state(&mut self, h: u64) {
		self.sig = mix(self.sig, h);
		if self.states.len() < 200_000 {
			self.states.insert(h);
		}
	}
	/// The observation contradicts the statement of `props`. `sig` identifies the failing
	/// input/call site for the known-findings filter.
	pub fn violate(&mut self, props: &[&str], sig: &str, what: impl FnOnce() -> String) {
		let mine = props.iter().any(|p| *p == self.prop);
		if mine {
			if self.known_list.iter().any(|(p, s)| *p == self.prop && s == sig) {
				let w = what();
				self.known.entry(sig.to_string()).or_insert(w);
				self.count(&format!("known-finding:{sig}"));
				return;
			}
			if self.violation.is_none() {
				let w = what();
				self.trace.push(format!("!! [{sig}] {w}"));
				self.violation = Some(format!("[{sig}] {w}"));
			}
		} else {
			if self.keep_trace {
				let w = what();
				self.trace.push(format!("(other properties {props:?}) [{sig}] {w}"));
			}
			*self.other.entry(format!("{props:?} [{sig}]")).or_default() += 1;
		}
	}
	/// True when the history must stop (a violation of the property under check was recorded).
	pub fn stop(&self) -> bool {
		self.violation.is_some() || self.inconclusive.is_some()
	}
	pub fn inconclusive(&mut self, why: String) {
		if self.inconclusive.is_none() {
			self.inconclusive = Some(why);
		}
	}
	/// Run real code, turning a panic into an observation.
	pub fn guard<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, String> {
		match catch_unwind(AssertUnwindSafe(f)) {
			Ok(r) => Ok(r),
			Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
		}
	}
}

// ---------------------------------------------------------------- runner

pub struct PropInfo {
	pub id: &'static str,
	/// How cases are made and what makes one non-trivial, for the evidence file.
	pub rule: &'static str,
	/// Coverage counters that must be non-zero, else the run is inconclusive (exit 2).
	pub required: &'static [&'static str],
	/// Relative cost: histories per quick run.
	pub quick: u64,
	pub thorough: u64,
	pub assumptions: &'static [&'static str],
}

pub type HistoryFn = fn(u64, &mut Obs);

#[derive(Default)]
struct Agg {
	histories: u64,
	nontrivial: u64,
	sigs: HashSet<u64>,
	counters: BTreeMap<String, u64>,
	hit_kinds: BTreeMap<String, u64>,
	hits: u64,
	states: HashSet<u64>,
	other: BTreeMap<String, u64>,
	known: BTreeMap<String, String>,
	samples: Vec<Value>,
	violation: Option<(u64, String, Vec<String>)>,
	inconclusive: Option<String>,
	panic_other: u64,
}

fn arg(name: &str) -> Option<String> {
	let a: Vec<String> = std::env::args().collect();
	a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn verif_dir() -> String {
	arg("--verif").unwrap_or_else(|| "/verif".into())
}

fn load_known(prop: &str) -> Vec<(String, String)> {
	let Ok(s) = std::fs::read_to_string(format!("{}/known-findings.json", verif_dir())) else { return vec![] };
	let v: Value = match serde_json::from_str(&s) {
		Ok(v) => v,
		Err(e) => {
			eprintln!("known-findings.json unreadable: {e}");
			std::process::exit(2)
		},
	};
	v["known"]
		.as_array()
		.cloned()
		.unwrap_or_default()
		.iter()
		.filter(|e| e["property"] == prop)
		.map(|e| (prop.to_string(), e["signature"].as_str().unwrap_or("").to_string()))
		.collect()
}

/// Entry point of every harness binary. Never returns.
pub fn main_with(props: &[PropInfo], directed: &[(&'static str, HistoryFn)], random: HistoryFn) -> ! {
	std::panic::set_hook(Box::new(|info| {
		let s = info.to_string();
		LAST_PANIC.with(|p| *p.borrow_mut() = s);
	}));
	let prop = arg("--prop").unwrap_or_else(|| {
		eprintln!("--prop ID required");
		std::process::exit(2)
	});
	let Some(info) = props.iter().find(|p| p.id == prop) else {
		eprintln!("unknown property {prop}");
		std::process::exit(2)
	};
	let seed: u64 = arg("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
	let tier = arg("--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
	let tier = if tier == "thorough" { "thorough" } else { "quick" };
	let known = load_known(&prop);

	if let Some(h) = arg("--replay") {
		let mut o = Obs::new(&prop, true, known);
		let r = catch_unwind(AssertUnwindSafe(|| {
			if let Some(name) = h.strip_prefix("directed:") {
				let f = directed.iter().find(|d| d.0 == name).expect("directed history").1;
				f(seed, &mut o)
			} else {
				random(h.parse().expect("history seed"), &mut o)
			}
		}));
		if r.is_err() {
			println!("harness panic: {}", LAST_PANIC.with(|p| p.borrow().clone()));
		}
		for t in &o.trace {
			println!("{t}");
		}
		println!("hits={} counters={:?}", o.hits, o.counters);
		std::process::exit(if o.violation.is_some() { 1 } else { 0 })
	}

	let n: u64 = arg("--histories").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" {
		info.thorough
	} else {
		info.quick
	});
	let cap_s: f64 = arg("--cap").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 1500.0 } else { 240.0 });
	let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
	let t0 = Instant::now();
	let next = AtomicU64::new(0);
	let stop = AtomicBool::new(false);
	let capped = AtomicBool::new(false);
	let agg = Mutex::new(Agg::default());
	let nd = directed.len() as u64;

	std::thread::scope(|s| {
		for _ in 0..threads {
			std::thread::Builder::new()
				.stack_size(16 << 20)
				.spawn_scoped(s, || loop {
					if stop.load(Ordering::Relaxed) {
						break;
					}
					if t0.elapsed().as_secs_f64() > cap_s {
						capped.store(true, Ordering::Relaxed);
						break;
					}
					let k = next.fetch_add(1, Ordering::Relaxed);
					if k >= n + nd {
						break;
					}
					let hseed = mix(mix(seed, 0xC0FFEE), k);
					let run = |keep: bool| {
						let mut o = Obs::new(&prop, keep, known.clone());
						let r = catch_unwind(AssertUnwindSafe(|| {
							if k < nd {
								(directed[k as usize].1)(seed, &mut o)
							} else {
								random(hseed, &mut o)
							}
						}));
						if r.is_err() {
							let p = LAST_PANIC.with(|p| p.borrow().clone());
							o.inconclusive(format!("harness panic: {p}"));
						}
						o
					};
					let keep_sample = k == nd || k == nd + 7;
					let mut o = run(keep_sample);
					if o.violation.is_some() && !keep_sample {
						// replay with the trace on
						let first = o.violation.clone();
						let o2 = run(true);
						if o2.violation.is_some() {
							o = o2;
						} else {
							o.trace.push(format!("(did not reproduce on immediate replay) {first:?}"));
						}
					}
					let mut a = agg.lock().unwrap();
					a.histories += 1;
					a.hits += o.hits;
					for (k, v) in o.hit_kinds {
						*a.hit_kinds.entry(k.to_string()).or_default() += v;
					}
					for (k, v) in o.counters {
						*a.counters.entry(k).or_default() += v;
					}
					for (k, v) in o.other {
						*a.other.entry(k).or_default() += v;
					}
					for (k, v) in o.known {
						a.known.entry(k).or_insert(v);
					}
					if o.hits > 0 && a.sigs.insert(o.sig) {
						a.nontrivial += 1;
					}
					if a.states.len() < 4_000_000 {
						a.states.extend(o.states);
					}
					if keep_sample {
						let t: Vec<String> = o.trace.iter().take(40).cloned().collect();
						let total = o.trace.len();
						a.samples.push(json!({"history": if k < nd { format!("directed:{}", directed[k as usize].0) } else { hseed.to_string() }, "events": total, "first_events": t}));
					}
					if let Some(w) = o.inconclusive {
						a.panic_other += 1;
						a.inconclusive.get_or_insert(w);
					}
					if let Some(v) = o.violation {
						let better = match &a.violation {
							None => true,
							Some((k0, ..)) => k < *k0,
						};
						if better {
							a.violation = Some((k, v, o.trace));
						}
						stop.store(true, Ordering::Relaxed);
					}
				})
				.unwrap();
		}
	});

	let mut a = agg.into_inner().unwrap();
	let wall = t0.elapsed().as_secs_f64();
	let build_s: f64 = arg("--build-s").and_then(|s| s.parse().ok()).unwrap_or(0.0);
	let mut missing: Vec<String> = info
		.required
		.iter()
		.filter(|r| !a.counters.contains_key(**r) && !a.hit_kinds.contains_key(**r))
		.map(|s| s.to_string())
		.collect();
	if a.hits == 0 {
		missing.push("any oracle evaluation".into());
	}
	for k in &known {
		if !a.known.contains_key(&k.1) && a.violation.is_none() {
			// a listed finding that no longer shows is not an alarm; it is only mentioned
			println!("note: listed finding {} of {} was not observed in this run", k.1, prop);
		}
	}
	if a.samples.is_empty() {
		a.samples.push(json!("(no sampled history finished before the run stopped)"));
	}
	let ev = json!({
		"property": prop,
		"tier": tier,
		"seed": seed,
		"level": "exploration",
		"coverage": {
			"evaluations": a.histories,
			"distinct_nontrivial": a.nontrivial,
			"rule": info.rule,
			"oracle_evaluations": a.hits,
			"oracle_evaluations_by_kind": a.hit_kinds,
			"distinct_states_observed": a.states.len(),
			"events_observed": a.counters,
			"divergences_outside_this_property": a.other,
			"known_findings_observed": a.known,
			"time_capped": capped.load(Ordering::Relaxed),
			"threads": threads,
			"samples": a.samples,
		},
		"assumptions": info.assumptions,
		"wall_s": wall + build_s,
		"violations": if a.violation.is_some() { 1 } else { 0 },
	});
	let dir = verif_dir();
	let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
	if let Err(e) = std::fs::write(format!("{dir}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()) {
		eprintln!("cannot write evidence: {e}");
		std::process::exit(2)
	}
	for (sig, w) in &a.known {
		println!("KNOWN-FINDING: property={prop} [{sig}] {w}");
	}
	if let Some((k, what, trace)) = a.violation {
		let _ = std::fs::create_dir_all(format!("{dir}/replays"));
		let path = format!("{dir}/replays/{prop}.txt");
		let hid = if k < nd {
			format!("directed:{}", directed[k as usize].0)
		} else {
			mix(mix(seed, 0xC0FFEE), k).to_string()
		};
		let exe = std::env::args().next().unwrap_or_default();
		let mut s = format!(
			"property {prop}\nseed {seed} tier {tier} history {hid}\nreplay: {exe} --prop {prop} --seed {seed} --replay {hid}\nviolation: {what}\n\n"
		);
		for t in trace {
			s.push_str(&t);
			s.push('\n');
		}
		let _ = std::fs::write(&path, s);
		println!("violated: {what}");
		println!("VIOLATION property={prop} replay={path}");
		std::process::exit(1)
	}
	println!(
		"{prop}: histories={} oracle_evaluations={} distinct_states={} wall={:.1}s other={:?}",
		a.histories,
		a.hits,
		a.states.len(),
		wall,
		a.other
	);
	if let Some(w) = a.inconclusive {
		eprintln!("INCONCLUSIVE property={prop}: {w}");
		std::process::exit(2)
	}
	if !missing.is_empty() {
		eprintln!("INCONCLUSIVE property={prop}: never observed {missing:?}");
		std::process::exit(2)
	}
	std::process::exit(0)
}

pub fn hash_str(s: &str) -> u64 {
	let mut h = 0xcbf29ce484222325u64;
	for b in s.as_bytes() {
		h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
	}
	mix(h, s.len() as u64)
}

pub fn hash_debug<T: std::hash::Hash>(t: &T) -> u64 {
	use std::hash::Hasher;
	let mut h = std::collections::hash_map::DefaultHasher::new();
	t.hash(&mut h);
	h.finish()
}
