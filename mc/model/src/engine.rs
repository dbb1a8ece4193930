//! The explorer: exhaustive depth-first enumeration of choice sequences (or of an index range),
//! in parallel, each execution running the real code from scratch.

use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

use crate::json::quote;

/// A violation found by one execution. `key` identifies the failing input class for the list of
/// known findings.
#[derive(Debug, Clone)]
pub struct Bad { pub key: String, pub msg: String }
/// Result of one execution: the observed outcome class, or a violation.
pub type Res = Result<&'static str, Bad>;
pub fn bad<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Bad> {
	Err(Bad { key: key.into(), msg: msg.into() })
}

const SLOT_CHOICES: usize = 1024;
const MAX_SLOTS: usize = 64;
struct Slot {
	/// Milliseconds since start (plus one) at which the running execution began; 0 when idle.
	since: AtomicU64,
	section: AtomicUsize,
	len: AtomicUsize,
	choices: [AtomicU32; SLOT_CHOICES],
}
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU32 = AtomicU32::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const SLOT: Slot = Slot {
	since: AtomicU64::new(0), section: AtomicUsize::new(0), len: AtomicUsize::new(0), choices: [ZERO; SLOT_CHOICES],
};
static SLOTS: [Slot; MAX_SLOTS] = [SLOT; MAX_SLOTS];
static ABORT_CTX: OnceLock<(String, String)> = OnceLock::new();

thread_local! {
	static SLOT_IDX: RefCell<usize> = RefCell::new(MAX_SLOTS - 1);
	static RUNNING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
	static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

/// How often the code did not behave as it had with the same choices.
static DIVERGED: AtomicU64 = AtomicU64::new(0);

/// One execution's source of nondeterminism.
pub struct Chooser {
	prefix: Vec<(u32, u32)>,
	points: Vec<(u32, u32)>,
	/// Indices of points where alternatives other than 0 cost a deviation.
	costed: Vec<bool>,
	dev_used: usize,
	dev_bound: usize,
	tracing: bool,
	pub notes: Vec<String>,
	slot: usize,
}
impl Chooser {
	fn new(prefix: Vec<(u32, u32)>, dev_bound: usize, tracing: bool) -> Self {
		let slot = SLOT_IDX.with(|s| *s.borrow());
		SLOTS[slot].len.store(0, Relaxed);
		Chooser { prefix, points: Vec::new(), costed: Vec::new(), dev_used: 0, dev_bound, tracing, notes: Vec::new(), slot }
	}
	/// A chooser that always answers from the given list (0 beyond it), for scripted runs.
	pub fn scripted(choices: &[u32]) -> Self {
		let mut c = Chooser::new(Vec::new(), usize::MAX, false);
		c.prefix = choices.iter().map(|c| (*c, u32::MAX)).collect();
		c
	}
	fn take(&mut self, n: usize, costed: bool) -> usize {
		assert!(n > 0 && n < u32::MAX as usize, "empty choice");
		let i = self.points.len();
		let c = match self.prefix.get(i) {
			Some((c, arity)) => {
				if *arity != u32::MAX && (*arity as usize != n || *c as usize >= n) {
					// The code under test does not behave as it did with the same choices: judge the execution
					// all the same, but the exploration is not exhaustive then.
					DIVERGED.fetch_add(1, Relaxed);
				}
				std::cmp::min(*c, n as u32 - 1)
			},
			None => 0,
		};
		self.points.push((c, n as u32));
		self.costed.push(costed);
		if i < SLOT_CHOICES {
			SLOTS[self.slot].choices[i].store(c, Relaxed);
			SLOTS[self.slot].len.store(i + 1, Relaxed);
		}
		c as usize
	}
	/// A free choice among `n` alternatives.
	pub fn choose(&mut self, n: usize) -> usize { if n == 1 { 0 } else { self.take(n, false) } }
	/// A choice where every alternative but 0 is a deviation from the default behaviour.
	pub fn dev(&mut self, n: usize) -> usize {
		if n == 1 || self.dev_used >= self.dev_bound { return 0; }
		let c = self.take(n, true);
		if c != 0 { self.dev_used += 1; }
		c
	}
	pub fn flag(&mut self) -> bool { self.choose(2) == 1 }
	pub fn pick<'a, T>(&mut self, from: &'a [T]) -> &'a T { &from[self.choose(from.len())] }
	/// All permutations of `0..n`, one choice per position.
	pub fn permutation(&mut self, n: usize) -> Vec<usize> {
		let mut left: Vec<usize> = (0..n).collect();
		let mut res = Vec::with_capacity(n);
		while !left.is_empty() { let i = self.choose(left.len()); res.push(left.remove(i)); }
		res
	}
	/// All subsets of `0..n`.
	pub fn subset(&mut self, n: usize) -> Vec<usize> { (0..n).filter(|_| self.flag()).collect() }
	/// Adds a line to the description of this execution (only built when it is being described).
	pub fn note(&mut self, f: impl FnOnce() -> String) { if self.tracing { let s = f(); self.notes.push(s); } }
	pub fn tracing(&self) -> bool { self.tracing }
	pub fn deviations(&self) -> usize { self.dev_used }
}

#[derive(Default, Clone)]
struct SectionStats { executions: u64, states: u64, transitions: u64, max_depth: u64, outcomes: BTreeMap<&'static str, u64> }
struct Section { label: String, bound: String, stats: SectionStats, wall: f64 }
struct Violation { section: String, choices: Vec<u32>, bad: Bad, notes: Vec<String> }

pub struct Mc {
	pub id: &'static str,
	pub thorough: bool,
	seed: u64,
	root: PathBuf,
	start: Instant,
	threads: usize,
	sections: Mutex<Vec<Section>>,
	samples: Mutex<Vec<String>>,
	violation: Mutex<Option<Violation>>,
	known: Vec<(String, String)>,
	known_hits: Mutex<BTreeMap<String, (u64, String)>>,
	stop: AtomicBool,
	assumptions: Mutex<Vec<String>>,
	extra: Mutex<BTreeMap<String, String>>,
	replay: Option<(String, Vec<u32>)>,
	only: Option<String>,
}

extern "C" {
	fn signal(sig: i32, handler: usize) -> usize;
	fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
	fn _exit(code: i32) -> !;
	fn atexit(cb: extern "C" fn()) -> i32;
	fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}
#[repr(C)]
struct SigAction { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }

extern "C" fn on_abort(_sig: i32) {
	// The process is going down (stack overflow or failed allocation) inside an execution: report it.
	let slot = SLOT_IDX.try_with(|s| *s.borrow()).unwrap_or(MAX_SLOTS - 1);
	let running = SLOTS[slot].since.load(Relaxed) != 0;
	if let (true, Some((id, dir))) = (running, ABORT_CTX.get()) {
		let path = format!("{}/{}-abort.txt", dir, id);
		let n = SLOTS[slot].len.load(Relaxed).min(SLOT_CHOICES);
		let ch: Vec<String> = SLOTS[slot].choices[..n].iter().map(|c| c.load(Relaxed).to_string()).collect();
		let _ = std::fs::write(&path, format!("section-index {}\nchoices {}\nThe process aborted (stack overflow, failed allocation or abort) during this execution.\n",
			SLOTS[slot].section.load(Relaxed), ch.join(" ")));
		println!("VIOLATION property={} replay={}", id, path);
		unsafe { _exit(1) }
	}
	unsafe { _exit(4) }
}

static FINISHED: AtomicBool = AtomicBool::new(false);
/// Ends the process on the engine's own account.
fn quit(code: i32) -> ! {
	FINISHED.store(true, SeqCst);
	std::process::exit(code)
}
extern "C" fn on_exit() {
	if FINISHED.load(SeqCst) { return; }
	// Something else than the engine ends the process: the code under test.
	if let Some((id, dir)) = ABORT_CTX.get() {
		let path = format!("{}/{}-exit.txt", dir, id);
		let mut o = String::from("The process was made to exit during one of these executions.\n");
		for sl in SLOTS.iter() {
			if sl.since.load(Relaxed) == 0 { continue; }
			let n = sl.len.load(Relaxed).min(SLOT_CHOICES);
			let ch: Vec<String> = sl.choices[..n].iter().map(|c| c.load(Relaxed).to_string()).collect();
			o += &format!("section-index {}\nchoices {}\n", sl.section.load(Relaxed), ch.join(" "));
		}
		let _ = std::fs::write(&path, o);
		println!("the process was made to exit in the middle of an execution");
		println!("VIOLATION property={} replay={}", id, path);
	}
	unsafe { _exit(1) }
}

impl Mc {
	pub fn new(id: &'static str) -> Mc {
		let args: Vec<String> = std::env::args().collect();
		let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
		let mut replay = None;
		let mut only = None;
		let mut i = 1;
		while i < args.len() {
			match args[i].as_str() {
				"quick" => thorough = false,
				"thorough" => thorough = true,
				"--section" => { i += 1; only = Some(args[i].clone()); },
				"--replay" => {
					i += 1;
					let s = std::fs::read_to_string(&args[i]).expect("replay file");
					let (mut sec, mut ch) = (String::new(), Vec::new());
					for l in s.lines() {
						if let Some(r) = l.strip_prefix("section ") { sec = r.to_string(); }
						if let Some(r) = l.strip_prefix("tier ") { thorough = r == "thorough"; }
						if let Some(r) = l.strip_prefix("choices ") { ch = r.split_whitespace().map(|c| c.parse().unwrap()).collect(); }
					}
					replay = Some((sec, ch));
				},
				_ => {},
			}
			i += 1;
		}
		let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
		let mut known = Vec::new();
		if let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) {
			for l in s.lines() {
				if let Some(r) = l.strip_prefix(&format!("known: property={} key=", id)) {
					let (k, d) = r.split_once(" :: ").unwrap_or((r, ""));
					known.push((k.trim().to_string(), d.trim().to_string()));
				}
			}
		}
		let dir = root.join("evidence").join("replay");
		let _ = std::fs::create_dir_all(&dir);
		let _ = ABORT_CTX.set((id.to_string(), dir.to_string_lossy().into_owned()));
		std::panic::set_hook(Box::new(|info| {
			let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
			let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
				else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
			if !RUNNING.with(|r| r.get()) {
				// While setting up: the code does not do what the check builds on.
				if let Some((id, dir)) = ABORT_CTX.get() {
					let path = format!("{}/{}-setup.txt", dir, id);
					let _ = std::fs::write(&path, format!("panic at {} while setting up: {}\n", loc, msg));
					println!("panic at {} while setting up: {}", loc, msg);
					println!("VIOLATION property={} replay={}", id, path);
					quit(1);
				}
			}
			LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
		}));
		unsafe {
			let _ = signal as usize;
			let act = SigAction { handler: on_abort as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
			sigaction(6, &act, std::ptr::null_mut());
			atexit(on_exit);
			setrlimit(9, &[24 << 30, 24 << 30]);
		}
		let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(MAX_SLOTS - 1);
		Mc {
			id, thorough, seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1), root,
			start: Instant::now(), threads, sections: Mutex::new(Vec::new()), samples: Mutex::new(Vec::new()),
			violation: Mutex::new(None), known, known_hits: Mutex::new(BTreeMap::new()), stop: AtomicBool::new(false),
			assumptions: Mutex::new(Vec::new()), extra: Mutex::new(BTreeMap::new()), replay, only,
		}
	}
	/// Picks a bound by tier.
	pub fn tier<T>(&self, quick: T, thorough: T) -> T { if self.thorough { thorough } else { quick } }
	pub fn assume(&self, s: &str) { self.assumptions.lock().unwrap().push(s.to_string()); }
	/// Adds a measured number or text to the evidence's coverage.
	pub fn measured(&self, key: &str, v: impl std::fmt::Display) { self.extra.lock().unwrap().insert(key.to_string(), v.to_string()); }
	pub fn stopped(&self) -> bool { self.stop.load(Relaxed) }

	fn run_one(&self, slot: usize, section: usize, ch: &mut Chooser, f: &(dyn Fn(&mut Chooser) -> Res + Sync)) -> Res {
		SLOTS[slot].section.store(section, Relaxed);
		SLOTS[slot].since.store(self.start.elapsed().as_millis() as u64 + 1, Relaxed);
		RUNNING.with(|r| r.set(true));
		let r: Result<Res, Box<dyn Any + Send>> = catch_unwind(AssertUnwindSafe(|| f(ch)));
		RUNNING.with(|r| r.set(false));
		SLOTS[slot].since.store(0, Relaxed);
		match r {
			Ok(r) => r,
			Err(_) => {
				let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
				if msg.starts_with("MC-BUDGET") { return bad("budget", msg); }
				let ours = ["model/src", "glue/src", "src/bin/", "ringshim/", "netmc/", "wasmmc/"].iter().any(|p| loc.starts_with(p) || loc.contains(&format!("/verif/mc/{}", p)))
					|| loc.contains("/verif/");
				if ours { return bad("unexpected", format!("the code does what the harness rules out, at {}: {}", loc, msg)); }
				let short = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
				bad(format!("panic:{}", short), format!("panic at {}: {}", loc, msg))
			},
		}
	}

	fn skip(&self, label: &str) -> bool {
		if self.stopped() { return true; }
		if let Some(o) = &self.only { if o != label { return true; } }
		matches!(&self.replay, Some((s, _)) if s != label)
	}

	/// Explores every choice sequence of `f` within the deviation bound.
	pub fn explore(&self, label: &str, dev_bound: usize, f: impl Fn(&mut Chooser) -> Res + Sync) {
		self.explore_dyn(label, dev_bound, &f)
	}
	fn explore_dyn(&self, label: &str, dev_bound: usize, f: &(dyn Fn(&mut Chooser) -> Res + Sync)) {
		if self.skip(label) { return; }
		let section = self.sections.lock().unwrap().len();
		if let Some((_, ch)) = &self.replay {
			let mut c = Chooser::new(ch.iter().map(|c| (*c, u32::MAX)).collect(), dev_bound, true);
			let r = self.run_one(MAX_SLOTS - 1, section, &mut c, f);
			self.print_replay(&c.notes, r);
			return;
		}
		let t0 = Instant::now();
		type Item = (Vec<(u32, u32)>, usize);
		struct Q { items: Vec<Item>, idle: usize, done: bool }
		let q = Mutex::new(Q { items: vec![(Vec::new(), 0)], idle: 0, done: false });
		let cv = Condvar::new();
		let hungry = AtomicBool::new(true);
		let total = Mutex::new(SectionStats { states: 1, ..Default::default() });
		let sampled: Mutex<BTreeMap<&'static str, u32>> = Mutex::new(BTreeMap::new());
		let n = self.threads;
		self.with_watchdog(|| std::thread::scope(|s| {
			for t in 0..n {
				let (q, cv, hungry, total, sampled) = (&q, &cv, &hungry, &total, &sampled);
				std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(s, move || {
					SLOT_IDX.with(|x| *x.borrow_mut() = t);
					let mut local: Vec<Item> = Vec::new();
					let mut st = SectionStats::default();
					loop {
						let item = match local.pop() {
							Some(i) => i,
							None => {
								let mut g = q.lock().unwrap();
								g.idle += 1;
								loop {
									if g.done || self.stop.load(Relaxed) { g.done = true; cv.notify_all(); break; }
									if let Some(i) = g.items.pop() { g.idle -= 1; local.push(i); break; }
									if g.idle == n { g.done = true; cv.notify_all(); break; }
									hungry.store(true, Relaxed);
									g = cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
								}
								if g.items.len() > 2 * n { hungry.store(false, Relaxed); }
								match local.pop() { Some(i) => i, None => break }
							},
						};
						let (prefix, fixed) = item;
						let mut ch = Chooser::new(prefix, dev_bound, false);
						let r = self.run_one(t, section, &mut ch, f);
						st.executions += 1;
						let new_from = fixed;
						let depth = ch.points.len();
						if depth + 1 < new_from { DIVERGED.fetch_add(1, Relaxed); }
						st.transitions += (depth - new_from.min(depth)) as u64 + if new_from > 0 { 1 } else { 0 };
						st.states += (depth - new_from.min(depth)) as u64 + if new_from > 0 { 1 } else { 0 };
						st.max_depth = st.max_depth.max(depth as u64);
						match r {
							Ok(class) => {
								let c = st.outcomes.entry(class).or_insert(0);
								*c += 1;
								if *c == 1 { self.sample(label, section, t, &ch, class, dev_bound, f, sampled); }
							},
							Err(b) => { *st.outcomes.entry("violation").or_insert(0) += 1; self.violate(label, section, t, &ch, b, dev_bound, f) },
						}
						// Push every alternative at the points this execution added.
						for i in (new_from..depth).rev() {
							let (c, arity) = ch.points[i];
							debug_assert_eq!(c, 0);
							if ch.costed[i] {
								let used = (0..i).filter(|j| ch.costed[*j] && ch.points[*j].0 != 0).count();
								if used >= dev_bound { continue; }
							}
							for alt in (1..arity).rev() {
								let mut p = ch.points[..i].to_vec();
								p.push((alt, arity));
								local.push((p, i + 1));
							}
						}
						if hungry.load(Relaxed) && local.len() > 1 {
							let half = local.len() / 2;
							let give: Vec<Item> = local.drain(..half).collect();
							let mut g = q.lock().unwrap();
							g.items.extend(give);
							if g.items.len() > 2 * n { hungry.store(false, Relaxed); }
							cv.notify_all();
						}
						if self.stop.load(Relaxed) { local.clear(); }
					}
					let mut g = total.lock().unwrap();
					g.executions += st.executions; g.states += st.states; g.transitions += st.transitions;
					g.max_depth = g.max_depth.max(st.max_depth);
					for (k, v) in st.outcomes { *g.outcomes.entry(k).or_insert(0) += v; }
				}).unwrap();
			}
		}));
		let bound = if dev_bound == usize::MAX { "all choices".to_string() } else { format!("at most {} deviations", dev_bound) };
		let stats = total.into_inner().unwrap();
		self.sections.lock().unwrap().push(Section { label: label.into(), bound, stats, wall: t0.elapsed().as_secs_f64() });
	}

	/// Runs `f` for every index in `0..n`.
	pub fn range(&self, label: &str, n: u64, f: impl Fn(u64, &mut Chooser) -> Res + Sync) {
		if self.skip(label) { return; }
		let section = self.sections.lock().unwrap().len();
		if let Some((_, c)) = &self.replay {
			let i = (c[0] as u64) << 32 | c[1] as u64;
			let mut ch = Chooser::new(Vec::new(), 0, true);
			let r = self.run_one(MAX_SLOTS - 1, section, &mut ch, &|ch: &mut Chooser| f(i, ch));
			self.print_replay(&ch.notes, r);
			return;
		}
		let t0 = Instant::now();
		let next = AtomicU64::new(0);
		let total = Mutex::new(SectionStats::default());
		let sampled: Mutex<BTreeMap<&'static str, u32>> = Mutex::new(BTreeMap::new());
		let chunk = (n / (self.threads as u64 * 64)).clamp(1, 4096);
		let f = &f;
		self.with_watchdog(|| std::thread::scope(|s| {
			for t in 0..self.threads {
				let (next, total, sampled) = (&next, &total, &sampled);
				std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(s, move || {
					SLOT_IDX.with(|x| *x.borrow_mut() = t);
					let mut st = SectionStats::default();
					'outer: loop {
						let lo = next.fetch_add(chunk, Relaxed);
						if lo >= n { break; }
						for i in lo..(lo + chunk).min(n) {
							if self.stop.load(Relaxed) { break 'outer; }
							let mut ch = Chooser::new(Vec::new(), 0, false);
							SLOTS[t].choices[0].store((i >> 32) as u32, Relaxed);
							SLOTS[t].choices[1].store(i as u32, Relaxed);
							SLOTS[t].len.store(2, Relaxed);
							let g = |ch: &mut Chooser| f(i, ch);
							let r = self.run_one(t, section, &mut ch, &g);
							ch.points = vec![((i >> 32) as u32, u32::MAX), (i as u32, u32::MAX)];
							st.executions += 1; st.states += 1; st.transitions += 1;
							match r {
								Ok(class) => {
									let c = st.outcomes.entry(class).or_insert(0);
									*c += 1;
									if *c == 1 { self.sample(label, section, t, &ch, class, 0, &g, sampled); }
								},
								Err(b) => { *st.outcomes.entry("violation").or_insert(0) += 1; self.violate(label, section, t, &ch, b, 0, &g) },
							}
						}
					}
					let mut g = total.lock().unwrap();
					g.executions += st.executions; g.states += st.states; g.transitions += st.transitions;
					for (k, v) in st.outcomes { *g.outcomes.entry(k).or_insert(0) += v; }
				}).unwrap();
			}
		}));
		let stats = total.into_inner().unwrap();
		self.sections.lock().unwrap().push(Section { label: label.into(), bound: format!("all {} cases", n), stats, wall: t0.elapsed().as_secs_f64() });
	}

	/// A single execution (for fixed cases and explicit-state searches that count for themselves).
	pub fn single(&self, label: &str, f: impl Fn(&mut Chooser) -> Res + Sync) { self.explore(label, usize::MAX, f) }

	/// Adds the counts of an explicit-state search to the section just run.
	pub fn add_counts(&self, states: u64, transitions: u64, executions: u64) {
		if let Some(s) = self.sections.lock().unwrap().last_mut() {
			s.stats.states += states; s.stats.transitions += transitions; s.stats.executions += executions;
		}
	}

	fn print_replay(&self, notes: &[String], r: Res) {
		for n in notes { println!("  {}", n); }
		match r {
			Ok(c) => println!("replay outcome: {}", c),
			Err(b) => { println!("replay outcome: violation [{}] {}", b.key, b.msg); self.stop.store(true, Relaxed); },
		}
	}

	/// Re-runs an execution with its description on, which also checks that it is deterministic.
	fn rerun(&self, section: usize, slot: usize, ch: &Chooser, dev_bound: usize, f: &(dyn Fn(&mut Chooser) -> Res + Sync)) -> (Res, Vec<String>) {
		let is_range = ch.points.len() == 2 && ch.points[0].1 == u32::MAX;
		let prefix = if is_range { Vec::new() } else { ch.points.clone() };
		let mut c = Chooser::new(prefix, dev_bound, true);
		let r = self.run_one(slot, section, &mut c, f);
		(r, c.notes)
	}

	#[allow(clippy::too_many_arguments)]
	fn sample(&self, label: &str, section: usize, slot: usize, ch: &Chooser, class: &'static str, dev_bound: usize,
		f: &(dyn Fn(&mut Chooser) -> Res + Sync), sampled: &Mutex<BTreeMap<&'static str, u32>>) {
		{
			let mut g = sampled.lock().unwrap();
			if g.len() > 40 { return; }
			let n = g.entry(class).or_insert(0);
			if *n >= 1 { return; }
			*n += 1;
		}
		let (r, notes) = self.rerun(section, slot, ch, dev_bound, f);
		match r {
			Ok(c) if c == class => {},
			Ok(_) => { DIVERGED.fetch_add(1, Relaxed); return; },
			Err(b) => return self.violate(label, section, slot, ch, b, dev_bound, f),
		}
		let mut s = format!("[{}] {}: {}", label, class, notes.join("; "));
		if s.len() > 600 { let mut e = 600; while !s.is_char_boundary(e) { e -= 1; } s.truncate(e); s += "..."; }
		let mut g = self.samples.lock().unwrap();
		if g.len() < 60 { g.push(s); }
	}

	#[allow(clippy::too_many_arguments)]
	fn violate(&self, label: &str, section: usize, slot: usize, ch: &Chooser, b: Bad, dev_bound: usize, f: &(dyn Fn(&mut Chooser) -> Res + Sync)) {
		if let Some((k, _)) = self.known.iter().find(|(k, _)| *k == b.key) {
			let mut g = self.known_hits.lock().unwrap();
			let e = g.entry(k.clone()).or_insert((0, b.msg.clone()));
			e.0 += 1;
			return;
		}
		let (r, mut notes) = self.rerun(section, slot, ch, dev_bound, f);
		match &r {
			Err(b2) if b2.key == b.key => {},
			other => {
				DIVERGED.fetch_add(1, Relaxed);
				notes.push(format!("run again with the same choices it gives {:?}: the code keeps state between executions or is not deterministic", other));
			},
		}
		let mut g = self.violation.lock().unwrap();
		let choices: Vec<u32> = ch.points.iter().map(|p| p.0).collect();
		if g.is_none() { *g = Some(Violation { section: label.into(), choices, bad: b, notes }); }
		self.stop.store(true, Relaxed);
	}

	fn with_watchdog<R>(&self, f: impl FnOnce() -> R) -> R {
		let done = (Mutex::new(false), Condvar::new());
		std::thread::scope(|s| {
			let (start, id) = (self.start, self.id);
			let d = &done;
			let labels: Vec<String> = self.sections.lock().unwrap().iter().map(|s| s.label.clone()).collect();
			s.spawn(move || {
				let mut g = d.0.lock().unwrap();
				while !*g {
					g = d.1.wait_timeout(g, Duration::from_millis(500)).unwrap().0;
					let now = start.elapsed().as_millis() as u64;
					for sl in SLOTS.iter() {
						let since = sl.since.load(Relaxed);
						if since != 0 && now > since + 90_000 {
							let (_, dir) = ABORT_CTX.get().unwrap();
							let path = format!("{}/{}-hang.txt", dir, id);
							let n = sl.len.load(Relaxed).min(SLOT_CHOICES);
							let ch: Vec<String> = sl.choices[..n].iter().map(|c| c.load(Relaxed).to_string()).collect();
							let _ = std::fs::write(&path, format!("section-index {} (after {:?})\nchoices {}\nThis execution had not returned after 90 s.\n",
								sl.section.load(Relaxed), labels, ch.join(" ")));
							println!("execution still running after 90 s");
							println!("VIOLATION property={} replay={}", id, path);
							quit(1);
						}
					}
				}
			});
			let r = f();
			*done.0.lock().unwrap() = true;
			done.1.notify_all();
			r
		})
	}

	/// Writes the evidence, prints the verdict and exits.
	pub fn finish(self) -> ! {
		if self.replay.is_some() { quit(if self.stop.load(SeqCst) { 1 } else { 0 }); }
		let v = self.violation.into_inner().unwrap();
		let wall = self.start.elapsed().as_secs_f64();
		let secs = self.sections.into_inner().unwrap();
		let (mut ex, mut st, mut tr) = (0, 0, 0);
		let mut sj = Vec::new();
		for s in &secs {
			ex += s.stats.executions; st += s.stats.states; tr += s.stats.transitions;
			let oc: Vec<String> = s.stats.outcomes.iter().map(|(k, v)| format!("{}: {}", quote(k), v)).collect();
			sj.push(format!("{{\"section\": {}, \"bound\": {}, \"executions\": {}, \"states\": {}, \"transitions\": {}, \"max_choice_depth\": {}, \"outcomes\": {{{}}}, \"wall_s\": {:.2}}}",
				quote(&s.label), quote(&s.bound), s.stats.executions, s.stats.states, s.stats.transitions, s.stats.max_depth, oc.join(", "), s.wall));
			println!("{:28} executions={} states={} transitions={} outcomes={{{}}} {:.1}s", s.label, s.stats.executions, s.stats.states, s.stats.transitions, oc.join(", "), s.wall);
		}
		let samples: Vec<String> = self.samples.into_inner().unwrap().iter().map(|s| quote(s)).collect();
		let ass: Vec<String> = self.assumptions.into_inner().unwrap().iter().map(|s| quote(s)).collect();
		let kh = self.known_hits.into_inner().unwrap();
		let known_j: Vec<String> = kh.iter().map(|(k, (n, _))| format!("{}: {}", quote(k), n)).collect();
		let mut extra = String::new();
		for (k, v) in self.extra.into_inner().unwrap() {
			extra += &format!(", {}: {}", quote(&k), if v.parse::<f64>().is_ok() { v.clone() } else { quote(&v) });
		}
		let ev = format!("{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"exhaustive\": {}, \"sections\": [\n  {}\n ], \"known_findings_hit\": {{{}}}, \"diverged\": {}, \"samples\": [\n  {}\n ]{}}},\n \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
			quote(self.id), quote(if self.thorough { "thorough" } else { "quick" }), self.seed, st, tr, ex, v.is_none() && self.only.is_none() && DIVERGED.load(Relaxed) == 0,
			sj.join(",\n  "), known_j.join(", "), DIVERGED.load(Relaxed), samples.join(",\n  "), extra, ass.join(", "), wall, if v.is_some() { 1 } else { 0 });
		let dir = self.root.join("evidence");
		let _ = std::fs::create_dir_all(&dir);
		std::fs::write(dir.join(format!("{}.json", self.id)), ev).expect("writing evidence");
		for (k, (n, msg)) in &kh {
			let d = &self.known.iter().find(|(kk, _)| kk == k).unwrap().1;
			println!("KNOWN-FINDING: property={} {} [{} executions, e.g. {}]", self.id, d, n, msg.replace('\n', " ").chars().take(300).collect::<String>());
		}
		if let Some(v) = v {
			let path = dir.join("replay").join(format!("{}.txt", self.id));
			let ch: Vec<String> = v.choices.iter().map(|c| c.to_string()).collect();
			std::fs::write(&path, format!("property {}\nsection {}\ntier {}\nchoices {}\n# key: {}\n# {}\n{}\n# replay with: bash check.sh {} --replay <this file>\n",
				self.id, v.section, if self.thorough { "thorough" } else { "quick" }, ch.join(" "), v.bad.key, v.bad.msg.replace('\n', "\n# "),
				v.notes.iter().map(|n| format!("# {}", n.replace('\n', "\n#   "))).collect::<Vec<_>>().join("\n"), self.id)).expect("writing replay");
			println!("violation in section {} [{}]: {}", v.section, v.bad.key, v.bad.msg);
			for n in &v.notes { println!("  {}", n); }
			println!("VIOLATION property={} replay={}", self.id, path.display());
			quit(1);
		}
		println!("OK property={} executions={} states={} transitions={} wall={:.1}s", self.id, ex, st, tr, wall);
		quit(0)
	}
}
