//! Case runner, verdicts and bookkeeping of what was observed.
use crate::rng::{mix, Rng};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};
use std::time::Instant;

/// What kind of oracle fired.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
	/// A behavioural oracle (reference model, trace specification).
	Sem,
	/// A memory oracle (double drop, use after drop, stale node identifier).
	Mem,
}

/// In sanitizer mode the verdict belongs to the sanitizer and to the memory
/// oracles: a behavioural oracle that fires only ends its case.
pub static SAN_MODE: AtomicBool = AtomicBool::new(false);
/// A case is running.
pub static IN_CASE: AtomicBool = AtomicBool::new(false);
pub static LEAK_OK: AtomicBool = AtomicBool::new(false);

// ---- trace of the current case (read by the panic hook and the watchdog) ----
const RING: usize = 48;
pub static OP_INDEX: AtomicU64 = AtomicU64::new(0);
static RING_OP: [AtomicU64; RING] = [const { AtomicU64::new(0) }; RING];
static RING_A: [AtomicI64; RING] = [const { AtomicI64::new(0) }; RING];
static RING_B: [AtomicI64; RING] = [const { AtomicI64::new(0) }; RING];
static NAMES: std::sync::Mutex<Vec<&'static str>> = std::sync::Mutex::new(Vec::new());
pub static CUR_SEED: AtomicU64 = AtomicU64::new(0);
static CUR_SCEN: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

thread_local! {
	/// Number of panics that the harness provoked and expects to see.
	static EXPECT: Cell<bool> = const { Cell::new(false) };
	static NAME_CACHE: std::cell::RefCell<Vec<(usize, u64)>> = const { std::cell::RefCell::new(Vec::new()) };
	pub static COUNTS: std::cell::RefCell<BTreeMap<&'static str, u64>> = const { std::cell::RefCell::new(BTreeMap::new()) };
	pub static OPMIX: Cell<u64> = const { Cell::new(0) };
}

/// Records one event of the current case (name, two arguments).
pub fn note(name: &'static str, a: i64, b: i64) {
	let id = NAME_CACHE.with(|c| {
		let mut c = c.borrow_mut();
		let p = name.as_ptr() as usize;
		match c.iter().find(|x| x.0 == p) {
			Some(x) => x.1,
			None => {
				let mut n = NAMES.lock().unwrap();
				n.push(name);
				let id = n.len() as u64;
				c.push((p, id));
				id
			}
		}
	});
	let i = OP_INDEX.fetch_add(1, Relaxed);
	let s = i as usize % RING;
	RING_OP[s].store(id, Relaxed);
	RING_A[s].store(a, Relaxed);
	RING_B[s].store(b, Relaxed);
	OPMIX.with(|m| m.set(mix(m.get() ^ id.wrapping_mul(31) ^ (a as u64).rotate_left(17) ^ (b as u64).rotate_left(41))));
}

/// Adds `n` to the named counter of observed events.
pub fn count(name: &'static str, n: u64) {
	COUNTS.with(|c| *c.borrow_mut().entry(name).or_insert(0) += n)
}

pub fn count_max(name: &'static str, n: u64) {
	COUNTS.with(|c| {
		let mut c = c.borrow_mut();
		let e = c.entry(name).or_insert(0);
		*e = (*e).max(n)
	})
}

fn tail() -> String {
	let names = NAMES.lock().map(|n| n.clone()).unwrap_or_default();
	let n = OP_INDEX.load(Relaxed);
	let mut out = String::new();
	for i in n.saturating_sub(RING as u64)..n {
		let s = i as usize % RING;
		let id = RING_OP[s].load(Relaxed) as usize;
		let name = if id >= 1 && id <= names.len() { names[id - 1] } else { "?" };
		if !out.is_empty() {
			out.push_str("; ");
		}
		out.push_str(&format!("#{} {}({},{})", i, name, RING_A[s].load(Relaxed), RING_B[s].load(Relaxed)));
	}
	out
}

pub fn esc(s: &str) -> String {
	let mut o = String::with_capacity(s.len() + 8);
	for ch in s.chars() {
		match ch {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o
}

fn report(tag: &str, msg: &str) {
	let scen = CUR_SCEN.try_lock().map(|s| s.clone()).unwrap_or_default();
	let line = format!(
		"@@{} {{\"scenario\":\"{}\",\"seed\":{},\"op\":{},\"msg\":\"{}\",\"trace_tail\":\"{}\"}}\n",
		tag, esc(&scen), CUR_SEED.load(Relaxed), OP_INDEX.load(Relaxed), esc(msg), esc(&tail())
	);
	let mut o = std::io::stdout();
	let _ = o.write_all(line.as_bytes());
	let _ = o.flush();
}

pub struct SkipCase;

/// An oracle fired.
#[cold]
pub fn violate(kind: Kind, msg: &str) -> ! {
	if kind == Kind::Sem && SAN_MODE.load(Relaxed) && !std::thread::panicking() {
		EXPECT.with(|e| e.set(true));
		std::panic::panic_any(SkipCase)
	}
	if kind == Kind::Sem && SAN_MODE.load(Relaxed) {
		// A behavioural oracle fired while unwinding: no verdict.
		report("HARNESS", msg);
		std::process::exit(3)
	}
	report("VIOL", msg);
	std::process::exit(10)
}

/// The harness itself could not do its work.
#[cold]
pub fn harness_error(msg: &str) -> ! {
	report("HARNESS", msg);
	std::process::exit(3)
}

#[macro_export]
macro_rules! viol {
	($($a:tt)*) => { $crate::ctx::violate($crate::ctx::Kind::Sem, &format!($($a)*)) };
}

#[macro_export]
macro_rules! ensure {
	($c:expr, $($a:tt)*) => { if !($c) { $crate::viol!($($a)*) } };
}

/// The process runs under the address sanitizer.
pub fn san_mode() -> bool {
	static ON: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
	SAN_MODE.load(Relaxed) || *ON.get_or_init(|| std::env::var_os("ASAN_OPTIONS").is_some())
}

pub fn install_hook() {
	std::panic::set_hook(Box::new(|info| {
		if EXPECT.with(|e| e.get()) {
			return;
		}
		let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		let p = info.payload();
		let msg = p
			.downcast_ref::<&str>()
			.map(|s| s.to_string())
			.or_else(|| p.downcast_ref::<String>().cloned())
			.unwrap_or_else(|| "(non-string payload)".into());
		let text = format!("unexpected panic at {loc}: {msg}");
		// Panics raised by the harness' own sources, outside of any case, are
		// harness errors.
		let own = loc.starts_with("src/") || loc.contains("monitor/src/");
		// In a case, results that no correct tree gives made the workload fail.
		// Threads that cannot be started are the machine's doing; a thread local
		// used after its end (`thread/local.rs`) is the crate's.
		if (own && !IN_CASE.load(Relaxed)) || (loc.contains("/thread") && !loc.contains("/thread/local.rs")) {
			report("HARNESS", &text);
			std::process::exit(3)
		}
		if SAN_MODE.load(Relaxed) && !std::thread::panicking() {
			return; // ends its case, see `Ctx::case`
		}
		report("VIOL", &text);
		std::process::exit(10)
	}));
}

/// Runs `f`, in which a panic is legitimate, and returns its outcome.
pub fn expecting<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
	let old = EXPECT.with(|e| e.replace(true));
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
	EXPECT.with(|e| e.set(old));
	match r {
		Err(p) if p.is::<SkipCase>() => std::panic::resume_unwind(p),
		r => r,
	}
}

/// Message of a caught panic.
pub fn panic_msg(p: &(dyn std::any::Any + Send)) -> String {
	p.downcast_ref::<&str>()
		.map(|s| s.to_string())
		.or_else(|| p.downcast_ref::<String>().cloned())
		.unwrap_or_else(|| "?".into())
}

// ---- non termination watchdog (processor time, not wall-clock) ----
#[cfg(not(miri))]
pub fn start_watchdog(limit_cpu_s: f64) {
	#[repr(C)]
	struct Ts {
		s: i64,
		n: i64,
	}
	extern "C" {
		fn clock_gettime(clk: i32, ts: *mut Ts) -> i32;
	}
	fn cpu() -> f64 {
		let mut t = Ts { s: 0, n: 0 };
		// CLOCK_PROCESS_CPUTIME_ID
		unsafe { clock_gettime(2, &mut t) };
		t.s as f64 + t.n as f64 * 1e-9
	}
	std::thread::spawn(move || {
		let mut last = (u64::MAX, 0.0);
		loop {
			std::thread::sleep(std::time::Duration::from_millis(500));
			let now = OP_INDEX.load(Relaxed) ^ CUR_SEED.load(Relaxed).rotate_left(20);
			let c = cpu();
			if now != last.0 {
				last = (now, c)
			} else if c - last.1 > limit_cpu_s {
				report("VIOL", &format!("an operation did not terminate within {limit_cpu_s} seconds of processor time"));
				std::process::exit(10)
			}
		}
	});
}

pub struct Ctx {
	pub prop: String,
	pub seed: u64,
	pub thorough: bool,
	/// Small workloads (Miri, or `--small`).
	pub miri: bool,
	/// Run the scenarios that leak on purpose.
	pub leaky: bool,
	pub shard: u64,
	pub nshards: u64,
	pub only: Option<(String, u64)>,
	/// Work multiplier, in percent.
	pub scale: u64,
	pub deadline: Option<Instant>,
	pub journal: Option<std::fs::File>,
	counter: u64,
	pub evals: u64,
	pub skipped_sem: u64,
	pub cut: bool,
	pub verbose: bool,
	pub thin: u64,
	pub hashes: HashSet<u64>,
	pub shapes: HashSet<u64>,
	pub samples: Vec<String>,
	pub by_scenario: BTreeMap<String, u64>,
}

pub struct Case {
	pub rng: Rng,
	pub nontrivial: bool,
	pub thorough: bool,
	pub miri: bool,
	/// Digest of what was observed in this case.
	pub sig: u64,
	pub shapes: Vec<u64>,
	pub label: String,
}

impl Case {
	pub fn observe(&mut self, h: u64) {
		self.sig = mix(self.sig ^ h);
	}
	pub fn shape(&mut self, h: u64) {
		self.shapes.push(h);
		self.observe(h);
	}
}

impl Ctx {
	pub fn new() -> Self {
		Ctx {
			prop: String::new(),
			seed: 1,
			thorough: false,
			miri: cfg!(miri),
			leaky: false,
			shard: 0,
			nshards: 1,
			only: None,
			scale: 100,
			deadline: None,
			journal: None,
			counter: 0,
			evals: 0,
			skipped_sem: 0,
			cut: false,
			verbose: false,
			thin: 1,
			hashes: HashSet::new(),
			shapes: HashSet::new(),
			samples: vec![],
			by_scenario: BTreeMap::new(),
		}
	}

	/// Number of repetitions: `quick` scaled, and times `mul` when thorough.
	pub fn reps(&self, quick: u64, mul: u64) -> u64 {
		let n = if self.thorough { quick * mul } else { quick };
		(n * self.scale / 100).max(1)
	}

	/// One of `native` or `miri`, depending on the flavour.
	pub fn nm<T>(&self, native: T, miri: T) -> T {
		if self.miri {
			miri
		} else {
			native
		}
	}

	/// Keep only one case in `thin`, except for the cheapest scenarios.
	fn thinned(&self, scenario: &str, n: u64) -> bool {
		self.thin > 1 && !scenario.starts_with("blend") && !scenario.starts_with("layout") && mix(self.seed ^ mix(n)) % self.thin != 0
	}

	/// Trees of more than 2^16 items can be afforded.
	pub fn huge(&self) -> bool {
		!self.miri && !SAN_MODE.load(Relaxed)
	}

	/// Runs one case: a deterministic function of the scenario name and seed.
	pub fn case(&mut self, scenario: &str, index: u64, f: impl FnOnce(&mut Case)) {
		let seed = match &self.only {
			Some((s, seed)) => {
				// replay: `index` is overridden by the recorded seed on the first match
				if s != scenario || self.evals > 0 {
					return;
				}
				*seed
			}
			None => {
				let n = self.counter;
				self.counter += 1;
				if n % self.nshards != self.shard || self.thinned(scenario, n) {
					return;
				}
				if let Some(d) = self.deadline {
					if Instant::now() > d {
						self.cut = true;
						return;
					}
				}
				mix(mix(self.seed) ^ mix(index) ^ hash_str(scenario)) >> 1
			}
		};
		self.run(scenario, seed, f)
	}

	/// Systematic case: `seed` encodes the input itself, so that a replay is exact.
	pub fn sys(&mut self, scenario: &str, seed: u64, f: impl FnOnce(&mut Case)) {
		match &self.only {
			Some((s, x)) => {
				if s != scenario || *x != seed {
					return;
				}
			}
			None => {
				let n = self.counter;
				self.counter += 1;
				if n % self.nshards != self.shard || self.thinned(scenario, n) {
					return;
				}
				if let Some(d) = self.deadline {
					if Instant::now() > d {
						self.cut = true;
						return;
					}
				}
			}
		}
		self.run(scenario, seed, f)
	}

	fn run(&mut self, scenario: &str, seed: u64, f: impl FnOnce(&mut Case)) {
		if let Ok(mut s) = CUR_SCEN.lock() {
			s.clear();
			s.push_str(scenario);
		}
		CUR_SEED.store(seed, Relaxed);
		OP_INDEX.store(0, Relaxed);
		OPMIX.with(|m| m.set(0));
		if let Some(j) = &mut self.journal {
			use std::io::Seek;
			let _ = j.seek(std::io::SeekFrom::Start(0));
			let _ = j.write_all(format!("{:<60} {:<24}\n", scenario, seed).as_bytes());
		}
		let mut c = Case {
			rng: Rng::new(seed),
			nontrivial: false,
			thorough: self.thorough,
			miri: self.miri,
			sig: hash_str(scenario),
			shapes: vec![],
			label: String::new(),
		};
		crate::tok::reset();
		crate::store::reset();
		let t0 = Instant::now();
		IN_CASE.store(true, Relaxed);
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c)));
		IN_CASE.store(false, Relaxed);
		EXPECT.with(|e| e.set(false));
		self.evals += 1;
		if self.verbose {
			eprintln!("{scenario} {seed} {:.3}", t0.elapsed().as_secs_f64());
		}
		*self.by_scenario.entry(scenario.to_string()).or_insert(0) += 1;
		if r.is_err() {
			// Only possible in sanitizer mode.
			self.skipped_sem += 1;
			LEAK_OK.store(true, Relaxed);
			return;
		}
		let ops = OP_INDEX.load(Relaxed);
		count("events", ops);
		c.observe(OPMIX.with(|m| m.get()));
		if c.nontrivial {
			self.hashes.insert(c.sig);
		}
		for h in &c.shapes {
			self.shapes.insert(*h);
		}
		let per = self.by_scenario[scenario];
		if self.samples.len() < 24 && (per == 1 || (per == 40 && self.samples.len() < 12)) {
			self.samples.push(format!(
				"{{\"scenario\":\"{}\",\"seed\":{},\"events\":{},\"label\":\"{}\",\"trace_tail\":\"{}\"}}",
				esc(scenario), seed, ops, esc(&c.label), esc(&tail().chars().take(400).collect::<String>())
			));
		}
	}

	pub fn finish(&mut self) {
		let mut o = String::new();
		o.push_str(&format!(
			"@@DONE {{\"evals\":{},\"skipped_sem\":{},\"cut\":{},\"leak_ok\":{},",
			self.evals, self.skipped_sem, self.cut, LEAK_OK.load(Relaxed)
		));
		let kv = |m: &mut dyn Iterator<Item = (String, u64)>| {
			m.map(|(k, v)| format!("\"{}\":{}", esc(&k), v)).collect::<Vec<_>>().join(",")
		};
		o.push_str(&format!("\"by_scenario\":{{{}}},", kv(&mut self.by_scenario.iter().map(|(k, v)| (k.clone(), *v)))));
		COUNTS.with(|c| {
			o.push_str(&format!("\"counts\":{{{}}},", kv(&mut c.borrow().iter().map(|(k, v)| (k.to_string(), *v)))))
		});
		o.push_str(&format!("\"hashes\":[{}],", self.hashes.iter().map(|h| format!("\"{:016x}\"", h)).collect::<Vec<_>>().join(",")));
		o.push_str(&format!("\"shapes\":[{}],", self.shapes.iter().map(|h| format!("\"{:016x}\"", h)).collect::<Vec<_>>().join(",")));
		o.push_str(&format!("\"samples\":[{}]}}\n", self.samples.join(",")));
		print!("{o}");
		let _ = std::io::stdout().flush();
	}
}

pub fn hash_str(s: &str) -> u64 {
	s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| mix(h ^ b as u64))
}
