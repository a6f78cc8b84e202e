//! Stateless explicit choice-tree explorer.
//!
//! A check is a closed driver `fn(&mut Ctx) -> R`.  Every choice it makes goes through
//! `Ctx::pick`; the engine runs the driver once for every path of the resulting tree
//! (depth first, choice 0 first).  Nothing is sampled.
//!
//! Work is split over processes (`Ctx::shard`): every process walks the same tree up to the
//! shard point and expands only its share of the subtrees.

use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// Why an execution stopped early.
pub enum Stop {
	/// Not this process' share, or a configuration outside the stated domain.
	Skip,
	/// The property does not hold on this execution.
	Bad(String),
}
pub type R<T = ()> = Result<T, Stop>;

#[macro_export]
macro_rules! bad { ($($t:tt)*) => { return Err($crate::engine::Stop::Bad(format!($($t)*))) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::engine::Stop::Bad(format!($($t)*))) } } }

#[derive(Default, Clone, Copy)]
pub struct Id64(u64);
impl Hasher for Id64 {
	fn finish(&self) -> u64 { self.0 }
	fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } }
	fn write_u64(&mut self, x: u64) { self.0 = x; }
}
pub type U64Set = HashSet<u64, BuildHasherDefault<Id64>>;

/// 64-bit state fingerprint (fixed keys, so it is the same in every process).
#[derive(Clone, Copy)]
pub struct Fp(u64);
impl Fp {
	pub fn new() -> Fp { Fp(0x9E3779B97F4A7C15) }
	pub fn u(&mut self, x: u64) -> &mut Fp {
		let mut z = self.0 ^ x.wrapping_add(0x9E3779B97F4A7C15).wrapping_add(self.0 << 6).wrapping_add(self.0 >> 2);
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
		self.0 = z ^ (z >> 31);
		self
	}
	/// A real number, quantised to 1e-4.
	pub fn f(&mut self, x: f64) -> &mut Fp { self.u(if x.is_finite() { ((x * 1e4).round() as i64) as u64 } else { u64::MAX }) }
	pub fn get(&self) -> u64 { self.0 }
}

pub const MAX_CHOICES: usize = 4096;
/// The choices of the execution in progress: slot 0 is the length.  Lives in shared memory when a
/// parent process wants to know them after a crash.
static OWN_LIVE: [AtomicU32; MAX_CHOICES + 1] = [const { AtomicU32::new(0) }; MAX_CHOICES + 1];
static LIVE_PTR: std::sync::atomic::AtomicPtr<AtomicU32> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
pub fn use_shared_live(p: *mut AtomicU32) { LIVE_PTR.store(p, Ordering::SeqCst); }
fn live(i: usize) -> &'static AtomicU32 {
	let p = LIVE_PTR.load(Ordering::Relaxed);
	if p.is_null() { &OWN_LIVE[i] } else { unsafe { &*p.add(i) } }
}
static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub static HASH_SEED: AtomicU64 = AtomicU64::new(1);

pub struct Ctx {
	/// (choice, arity) of the path being (re)executed.
	prefix: Vec<(u32, u32)>,
	path: Vec<(u32, u32)>,
	shard_no: u64,
	shards: u64,
	shard_seen: u64,
	shard_last: Vec<u32>,
	pub thorough: bool,
	/// Write the trace of this execution?
	pub tracing: bool,
	pub trace: Vec<String>,
	// Coverage.
	pub executions: u64,
	pub transitions: u64,
	pub nontrivial: u64,
	pub states: U64Set,
	pub outcomes: BTreeMap<String, u64>,
	pub maxima: BTreeMap<String, f64>,
	pub skipped: u64,
	flag_nontrivial: bool,
	replaying: bool,
	prefix_wild: bool,
}

impl Ctx {
	pub fn new(shard_no: u64, shards: u64, thorough: bool) -> Ctx {
		Ctx {
			prefix: vec![], path: vec![], shard_no, shards, shard_seen: 0, shard_last: vec![u32::MAX], thorough,
			tracing: false, trace: vec![], executions: 0, transitions: 0, nontrivial: 0, states: U64Set::default(),
			outcomes: BTreeMap::new(), maxima: BTreeMap::new(), skipped: 0, flag_nontrivial: false, replaying: false, prefix_wild: false,
		}
	}

	/// The only source of nondeterminism of a driver: a choice in 0..n.
	pub fn pick(&mut self, n: usize) -> usize {
		assert!(n >= 1, "empty choice");
		let at = self.path.len();
		let n = n as u32;
		let c = if at < self.prefix.len() {
			let (c, m) = self.prefix[at];
			assert!(m == n || (self.prefix_wild && c < n), "ENGINE: replay divergence at choice {}: arity {} became {}", at, m, n);
			c
		} else { 0 };
		self.path.push((c, n));
		if at < MAX_CHOICES && !self.replaying { live(at + 1).store(c, Ordering::Relaxed); live(0).store(at as u32 + 1, Ordering::Relaxed); }
		c as usize
	}
	/// Picks one of the values of a slice.
	pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.pick(xs.len()); &xs[i] }
	pub fn flag(&mut self) -> bool { self.pick(2) == 1 }

	/// The choices made so far.
	pub fn chosen(&self) -> Vec<u32> { self.path.iter().map(|x| x.0).collect() }

	/// Splits the subtrees below this point among the processes.
	pub fn shard(&mut self) -> R {
		if self.replaying { return Ok(()); }
		let cur: Vec<u32> = self.path.iter().map(|x| x.0).collect();
		if cur != self.shard_last { self.shard_seen += 1; self.shard_last = cur; }
		if self.shard_seen % self.shards != self.shard_no { Err(Stop::Skip) } else { Ok(()) }
	}

	/// Records one transition (one operation executed on the implementation and checked).
	pub fn step(&mut self) { self.transitions += 1; }
	/// Records a reached state.
	pub fn state(&mut self, f: u64) { if self.states.len() < 40_000_000 { self.states.insert(f); } }
	/// Marks this execution as one that exercised the property.
	pub fn interesting(&mut self) { self.flag_nontrivial = true; }
	pub fn outcome(&mut self, s: &str) {
		if let Some(x) = self.outcomes.get_mut(s) { *x += 1; } else { self.outcomes.insert(s.to_string(), 1); }
	}
	/// Keeps the largest deviation seen under a name.
	pub fn dev(&mut self, s: &str, x: f64) {
		if let Some(m) = self.maxima.get_mut(s) { if x > *m { *m = x; } } else { self.maxima.insert(s.to_string(), x); }
	}
	pub fn log<F: FnOnce() -> String>(&mut self, f: F) { if self.tracing { let s = f(); self.trace.push(s); } }
}

pub type Driver = fn(&mut Ctx) -> R;

pub struct Failure { pub choices: Vec<u32>, pub message: String, pub trace: Vec<String>, pub hash_seed: u64 }

thread_local! { static PANIC_MSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|info| {
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
			else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".to_string() };
		let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		PANIC_MSG.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
	}));
}
pub fn last_panic() -> String { PANIC_MSG.with(|p| p.borrow().clone()) }

/// Runs the driver once along `prefix`.
fn execute(ctx: &mut Ctx, body: Driver) -> R {
	ctx.path.clear();
	ctx.flag_nontrivial = false;
	if !ctx.replaying { live(0).store(0, Ordering::Relaxed); }
	PROGRESS.fetch_add(1, Ordering::Relaxed);
	match catch_unwind(AssertUnwindSafe(|| body(ctx))) {
		Ok(r) => r,
		Err(_) => {
			let m = last_panic();
			if m.starts_with("ENGINE:") { eprintln!("{}", m); std::process::exit(4); }
			Err(Stop::Bad(format!("panic: {}", m)))
		}
	}
}

pub struct Report { pub ctx: Ctx, pub failure: Option<Failure>, pub capped: bool, pub samples: Vec<Vec<String>> }

/// Explores every path (of this process' share).
pub fn explore(body: Driver, shard_no: u64, shards: u64, thorough: bool, cap: Duration) -> Report {
	let start = Instant::now();
	let mut ctx = Ctx::new(shard_no, shards, thorough);
	let mut samples: Vec<Vec<String>> = vec![];
	let mut failure = None;
	let mut capped = false;
	loop {
		match execute(&mut ctx, body) {
			Ok(()) => {
				ctx.executions += 1;
				if ctx.flag_nontrivial {
					ctx.nontrivial += 1;
					// Keep a few complete executions as samples (re-executed with tracing on).
					if samples.len() < 2 && (ctx.nontrivial == 1 || ctx.nontrivial == 5000) {
						let path: Vec<u32> = ctx.path.iter().map(|x| x.0).collect();
						let (_, t, _) = replay_in_thread(body, path, thorough, HASH_SEED.load(Ordering::Relaxed));
						samples.push(t);
					}
				}
			}
			Err(Stop::Skip) => { ctx.skipped += 1; }
			Err(Stop::Bad(message)) => {
				ctx.executions += 1;
				let choices = ctx.path.iter().map(|x| x.0).collect();
				failure = Some(Failure { choices, message, trace: vec![], hash_seed: HASH_SEED.load(Ordering::Relaxed) });
				break;
			}
		}
		// Next path in depth-first order.
		let mut next = std::mem::take(&mut ctx.path);
		while let Some((c, n)) = next.last().cloned() {
			if c + 1 < n { next.last_mut().unwrap().0 = c + 1; break; }
			next.pop();
		}
		if next.is_empty() { break; }
		ctx.prefix = next;
		if ctx.executions % 256 == 0 && start.elapsed() > cap { capped = true; break; }
	}
	if let Some(f) = failure.as_mut() { confirm(body, f, thorough); }
	Report { ctx, failure, capped, samples }
}

/// Re-executes a path on a fresh thread (fresh hash keys derived from `hash_seed`) with tracing.
pub fn replay_in_thread(body: Driver, choices: Vec<u32>, thorough: bool, hash_seed: u64) -> (Option<String>, Vec<String>, u64) {
	let old = HASH_SEED.swap(hash_seed, Ordering::SeqCst);
	let r = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
		let mut ctx = Ctx::new(0, 1, thorough);
		ctx.replaying = true;
		ctx.tracing = true;
		let r = execute_with_choices(&mut ctx, body, &choices);
		let m = match r { Ok(()) => None, Err(Stop::Skip) => None, Err(Stop::Bad(m)) => Some(m) };
		(m, std::mem::take(&mut ctx.trace), ctx.transitions)
	}).unwrap().join().unwrap_or((Some("thread died".into()), vec![], 0));
	HASH_SEED.store(old, Ordering::SeqCst);
	r
}

fn execute_with_choices(ctx: &mut Ctx, body: Driver, choices: &[u32]) -> R {
	// A replay file stores choices only; the arities come from the driver.
	ctx.prefix = choices.iter().map(|c| (*c, u32::MAX)).collect();
	ctx.prefix_wild = true;
	execute(ctx, body)
}

fn confirm(body: Driver, f: &mut Failure, thorough: bool) {
	// The same path must fail again (twice, identically) before it is believed.  A failure that
	// depends on hash-set order is looked for under other hash seeds; the seed is part of the replay.
	for seed in std::iter::once(f.hash_seed).chain(1..400) {
		let (a, t, _) = replay_in_thread(body, f.choices.clone(), thorough, seed);
		if let Some(m) = a {
			let (b, _, _) = replay_in_thread(body, f.choices.clone(), thorough, seed);
			if b.as_deref() == Some(m.as_str()) { f.message = m; f.trace = t; f.hash_seed = seed; return; }
		}
	}
	f.trace = vec!["NOT REPRODUCED".into()];
}

pub fn live_choices() -> Vec<u32> {
	let n = live(0).load(Ordering::Relaxed) as usize;
	(1..=n.min(MAX_CHOICES)).map(|i| live(i).load(Ordering::Relaxed)).collect()
}
/// Calls `on_hang` when one execution takes longer than `limit`.
pub fn start_watchdog<F: Fn(Vec<u32>) + Send + 'static>(limit: Duration, on_hang: F) {
	std::thread::spawn(move || {
		let mut last = PROGRESS.load(Ordering::Relaxed);
		let mut since = Instant::now();
		loop {
			std::thread::sleep(Duration::from_millis(500));
			let now = PROGRESS.load(Ordering::Relaxed);
			if now != last { last = now; since = Instant::now(); }
			else if since.elapsed() > limit { on_hang(live_choices()); since = Instant::now(); }
		}
	});
}
