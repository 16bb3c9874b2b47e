//! Exploration engine: deterministic enumeration, sharded over worker processes.
//!
//! Every check enumerates its bounded space as a sequence of numbered *cases* (a case is one
//! model state / input tree, on which many queries or operations are evaluated as *steps*).
//! The orchestrator starts one worker process per shard; worker `i` executes the cases whose
//! number is congruent to `i`.  A worker that panics inside a step reports a violation, a worker
//! that dies or hangs is re-run on its last case only, step by step, to name the failing step.
use std::cell::RefCell;
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
	Quick,
	Thorough,
}
impl Tier {
	pub fn name(self) -> &'static str {
		match self {
			Tier::Quick => "quick",
			Tier::Thorough => "thorough",
		}
	}
	pub fn pick<T>(self, q: T, t: T) -> T {
		match self {
			Tier::Quick => q,
			Tier::Thorough => t,
		}
	}
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
	/// distinct states (documents with a starting set, inputs, reached trees), merged over all workers
	pub states: u64,
	/// operations or queries evaluated on the model and on the library
	pub transitions: u64,
	/// model traces (a start state with its sequence of operations) replayed on the library
	pub traces: u64,
	pub nonempty: u64,
}

pub struct Violation {
	pub case: u64,
	pub key: String,
	pub detail: String,
}

/// Set by a check to abandon the shard after the first unlisted violation.
pub struct Stop;

pub struct Ctx {
	pub prop: String,
	pub tier: Tier,
	shard: u64,
	nshards: u64,
	next_case: u64,
	cur_case: u64,
	only: Option<u64>,
	fine: bool,
	progress: Option<File>,
	pub stats: Stats,
	pub violation: Option<Violation>,
	known: Vec<String>,
	pub known_hit: Vec<String>,
	pub samples: Vec<String>,
	cur_desc: RefCell<String>,
	pub bounds: Vec<String>,
	seen: std::collections::HashSet<u64>,
}

thread_local! {
	static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|info| {
		let s = info.to_string().replace('\n', " ");
		LAST_PANIC.with(|p| *p.borrow_mut() = s);
	}));
}
pub fn last_panic() -> String {
	LAST_PANIC.with(|p| p.borrow().clone())
}
/// Run code under test; a panic becomes `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", last_panic()))
}

impl Ctx {
	/// Is the next case ours?  `desc` is only evaluated when it is.
	pub fn case(&mut self, desc: impl FnOnce() -> String) -> bool {
		let n = self.next_case;
		self.next_case += 1;
		let mine = match self.only {
			Some(o) => o == n,
			None => n % self.nshards == self.shard,
		};
		if !mine || self.violation.is_some() {
			return false;
		}
		self.cur_case = n;
		let d = desc();
		self.note(&format!("case {n}: {d}"));
		if self.samples.len() < 3 || (self.samples.len() < 6 && n > 1000 && n % 997 == 0) {
			self.samples.push(d.clone());
		}
		*self.cur_desc.borrow_mut() = d;
		true
	}
	/// True while exploration should continue.
	pub fn live(&self) -> bool {
		self.violation.is_none()
	}
	fn note(&mut self, s: &str) {
		if let Some(f) = &self.progress {
			let mut b = Vec::with_capacity(s.len() + 24);
			b.extend_from_slice(format!("{:016x}{:08x}", self.cur_case, s.len()).as_bytes());
			b.extend_from_slice(s.as_bytes());
			let _ = f.write_at(&b, 0);
		}
	}
	/// In fine mode (diagnosing a dead worker) record every step.
	pub fn step(&mut self, desc: impl FnOnce() -> String) {
		if self.fine {
			let d = format!("{} || {}", self.cur_desc.borrow(), desc());
			self.note(&d);
		}
	}
	pub fn fail(&mut self, step: &str, detail: &str) {
		if self.violation.is_some() {
			return;
		}
		let key = format!("{} || {}", self.cur_desc.borrow(), step);
		if self.known.contains(&key) {
			if !self.known_hit.contains(&key) {
				self.known_hit.push(key);
			}
			return;
		}
		self.violation = Some(Violation { case: self.cur_case, key, detail: detail.to_string() });
	}
	/// Compare a guarded observation with the model's expectation.
	pub fn expect<T: PartialEq + std::fmt::Debug>(
		&mut self,
		step: impl Fn() -> String,
		want: &T,
		got: impl FnOnce() -> T,
	) -> bool {
		if self.violation.is_some() {
			return false;
		}
		self.step(&step);
		self.stats.transitions += 1;
		match guard(got) {
			Ok(g) => {
				if &g == want {
					true
				} else {
					self.fail(&step(), &format!("expected {want:?}, got {g:?}"));
					false
				}
			}
			Err(e) => {
				self.fail(&step(), &format!("expected {want:?}, got {e}"));
				false
			}
		}
	}
	/// Record a reached state; states are counted once, however often they are reached.
	pub fn state(&mut self, s: &impl std::hash::Hash) {
		use std::hash::Hasher;
		let mut h = std::collections::hash_map::DefaultHasher::new();
		s.hash(&mut h);
		self.seen.insert(h.finish());
	}
	pub fn bound(&mut self, s: impl Into<String>) {
		self.bounds.push(s.into());
	}
}

pub type CheckFn = fn(&mut Ctx);

pub fn verif_dir() -> PathBuf {
	std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn esc(s: &str) -> String {
	let mut o = String::with_capacity(s.len() + 2);
	o.push('"');
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\r' => o.push_str("\\r"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 0x20 || c == '\u{2028}' || c == '\u{2029}' => {
				o.push_str(&format!("\\u{:04x}", c as u32))
			}
			c => o.push(c),
		}
	}
	o.push('"');
	o
}
pub fn json_str(s: &str) -> String {
	esc(s)
}

/// Known findings: lines `KNOWN-FINDING: property=<id> <key>`.
pub fn known_keys(prop: &str) -> Vec<String> {
	let p = verif_dir().join("KNOWN_FINDINGS.txt");
	let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
	let pre = format!("KNOWN-FINDING: property={prop} ");
	s.lines().filter_map(|l| l.strip_prefix(&pre)).map(|l| l.to_string()).collect()
}

pub struct WorkerArgs {
	pub prop: String,
	pub tier: Tier,
	pub shard: u64,
	pub nshards: u64,
	pub only: Option<u64>,
	pub fine: bool,
	pub progress: Option<PathBuf>,
}

pub fn run_worker(a: WorkerArgs, f: CheckFn) -> ! {
	install_panic_hook();
	let progress = a.progress.as_ref().map(|p| {
		File::options().create(true).write(true).truncate(true).open(p).expect("progress file")
	});
	let known = known_keys(&a.prop);
	let mut ctx = Ctx {
		prop: a.prop,
		tier: a.tier,
		shard: a.shard,
		nshards: a.nshards,
		next_case: 0,
		cur_case: 0,
		only: a.only,
		fine: a.fine,
		progress,
		stats: Stats::default(),
		violation: None,
		known,
		known_hit: vec![],
		samples: vec![],
		cur_desc: RefCell::new(String::new()),
		bounds: vec![],
		seen: Default::default(),
	};
	// generous stack: the library recurses over the tree
	let r = std::thread::scope(|s| {
		std::thread::Builder::new()
			.stack_size(64 << 20)
			.spawn_scoped(s, || {
				install_panic_hook();
				let r = guard(|| f(&mut ctx));
				(ctx, r)
			})
			.unwrap()
			.join()
	});
	let (mut ctx, r) = match r {
		Ok(x) => x,
		Err(_) => {
			println!("ENGINE-ERROR worker thread died");
			std::process::exit(3);
		}
	};
	if let Err(e) = r {
		if ctx.violation.is_none() {
			// a panic outside any guarded step is an engine error, unless it came from the library
			if e.contains("/repo/src") || e.contains("rphtml") || e.contains("/repo/") {
				let step = "unguarded step".to_string();
				ctx.fail(&step, &e);
			} else {
				println!("ENGINE-ERROR {e}");
				std::process::exit(3);
			}
		}
	}
	ctx.stats.states = ctx.seen.len() as u64;
	if let (Some(p), false) = (&a.progress, a.fine) {
		let mut b = Vec::with_capacity(ctx.seen.len() * 8);
		for h in &ctx.seen {
			b.extend_from_slice(&h.to_le_bytes());
		}
		let _ = std::fs::write(p.with_extension("states"), b);
	}
	let out = std::io::stdout();
	let mut out = out.lock();
	for k in &ctx.known_hit {
		let _ = writeln!(out, "KNOWN {}", k.replace('\n', "\\n"));
	}
	for s in &ctx.samples {
		let _ = writeln!(out, "SAMPLE {}", s.replace('\n', "\\n"));
	}
	for s in &ctx.bounds {
		let _ = writeln!(out, "BOUND {}", s.replace('\n', "\\n"));
	}
	let _ = writeln!(
		out,
		"STATS {} {} {} {} {}",
		ctx.stats.states, ctx.stats.transitions, ctx.stats.traces, ctx.stats.nonempty, ctx.next_case
	);
	if let Some(v) = &ctx.violation {
		let _ = writeln!(out, "VIOL {} {}\u{1}{}", v.case, v.key.replace('\n', "\\n"), v.detail.replace('\n', "\\n"));
	}
	let _ = writeln!(out, "DONE");
	let _ = out.flush();
	std::process::exit(0)
}

struct WorkerOut {
	stats: Stats,
	cases: u64,
	viol: Option<Violation>,
	known: Vec<String>,
	samples: Vec<String>,
	bounds: Vec<String>,
	engine_error: Option<String>,
}

fn read_progress(p: &Path) -> Option<(u64, String)> {
	let b = std::fs::read(p).ok()?;
	if b.len() < 24 {
		return None;
	}
	let case = u64::from_str_radix(std::str::from_utf8(&b[..16]).ok()?, 16).ok()?;
	let len = usize::from_str_radix(std::str::from_utf8(&b[16..24]).ok()?, 16).ok()?;
	let end = (24 + len).min(b.len());
	Some((case, String::from_utf8_lossy(&b[24..end]).into_owned()))
}

const HANG: Duration = Duration::from_secs(100);

fn spawn_one(
	prop: &str,
	tier: Tier,
	shard: u64,
	nshards: u64,
	only: Option<u64>,
	fine: bool,
	scratch: &Path,
) -> (Vec<String>, Option<String>, PathBuf) {
	let prog = scratch.join(format!("progress-{shard}-{}", if fine { "fine" } else { "run" }));
	let exe = std::env::current_exe().unwrap();
	let mut c = Command::new(exe);
	c.arg("worker")
		.arg(prop)
		.arg(tier.name())
		.arg(shard.to_string())
		.arg(nshards.to_string())
		.arg(only.map(|o| o.to_string()).unwrap_or_else(|| "-".into()))
		.arg(if fine { "fine" } else { "run" })
		.arg(&prog)
		.env("VERIF_DIR", verif_dir())
		.stdout(Stdio::piped())
		.stderr(Stdio::null());
	let mut child = c.spawn().expect("spawn worker");
	let out = child.stdout.take().unwrap();
	let rd = std::thread::spawn(move || {
		let mut v = vec![];
		for l in BufReader::new(out).lines() {
			match l {
				Ok(l) => v.push(l),
				Err(_) => break,
			}
		}
		v
	});
	let mut last = (u64::MAX, String::new());
	let mut since = Instant::now();
	let mut death = None;
	loop {
		match child.try_wait() {
			Ok(Some(st)) => {
				if !st.success() {
					use std::os::unix::process::ExitStatusExt;
					death = Some(match st.signal() {
						Some(s) => format!("worker killed by signal {s}"),
						None => format!("worker exited with {:?}", st.code()),
					});
				}
				break;
			}
			Ok(None) => {}
			Err(e) => {
				death = Some(format!("wait: {e}"));
				break;
			}
		}
		std::thread::sleep(Duration::from_millis(20));
		if since.elapsed() > Duration::from_millis(500) {
			let cur = read_progress(&prog).unwrap_or((u64::MAX, String::new()));
			if cur != last {
				last = cur;
				since = Instant::now();
			} else if since.elapsed() > HANG {
				let _ = child.kill();
				let _ = child.wait();
				death = Some(format!("no progress for {} s (hang)", HANG.as_secs()));
				break;
			}
		}
	}
	(rd.join().unwrap_or_default(), death, prog)
}

fn run_shard(prop: &str, tier: Tier, shard: u64, nshards: u64, only: Option<u64>, scratch: &Path) -> WorkerOut {
	let (lines, death, prog) = spawn_one(prop, tier, shard, nshards, only, false, scratch);
	let mut w = WorkerOut {
		stats: Stats::default(),
		cases: 0,
		viol: None,
		known: vec![],
		samples: vec![],
		bounds: vec![],
		engine_error: None,
	};
	let mut done = false;
	for l in &lines {
		if let Some(r) = l.strip_prefix("STATS ") {
			let n: Vec<u64> = r.split(' ').filter_map(|x| x.parse().ok()).collect();
			if n.len() == 5 {
				w.stats = Stats { states: n[0], transitions: n[1], traces: n[2], nonempty: n[3] };
				w.cases = n[4];
			}
		} else if let Some(r) = l.strip_prefix("VIOL ") {
			let (c, rest) = r.split_once(' ').unwrap_or(("0", r));
			let (k, d) = rest.split_once('\u{1}').unwrap_or((rest, ""));
			w.viol = Some(Violation { case: c.parse().unwrap_or(0), key: k.into(), detail: d.into() });
		} else if let Some(r) = l.strip_prefix("KNOWN ") {
			w.known.push(r.into());
		} else if let Some(r) = l.strip_prefix("SAMPLE ") {
			w.samples.push(r.into());
		} else if let Some(r) = l.strip_prefix("BOUND ") {
			w.bounds.push(r.into());
		} else if let Some(r) = l.strip_prefix("ENGINE-ERROR ") {
			w.engine_error = Some(r.into());
		} else if l == "DONE" {
			done = true;
		}
	}
	if !done && w.engine_error.is_none() {
		// the library took the process down (abort, stack overflow, endless loop): find the step
		let why = death.unwrap_or_else(|| "worker ended early".into());
		match read_progress(&prog) {
			None => w.engine_error = Some(format!("{why}, before the first case")),
			Some((case, desc)) => {
				let (l2, d2, p2) = spawn_one(prop, tier, shard, nshards, Some(case), true, scratch);
				if l2.iter().any(|l| l == "DONE") && !l2.iter().any(|l| l.starts_with("VIOL ")) {
					w.engine_error = Some(format!("{why}; not reproduced on re-running case {case}: {desc}"));
				} else {
					let d = read_progress(&p2).map(|x| x.1).unwrap_or(desc);
					w.viol = Some(Violation { case, key: d, detail: d2.unwrap_or(why) });
				}
			}
		}
	}
	w
}

pub struct Report {
	pub violation: Option<Violation>,
	pub engine_error: Option<String>,
}

/// Run a check over all shards; write evidence; print verdict; return exit code.
pub fn orchestrate(prop: &str, tier: Tier, technique: &str, only: Option<u64>) -> i32 {
	let t0 = Instant::now();
	let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let vd = verif_dir();
	let scratch = vd.join(format!("scratch/{prop}-{}", std::process::id()));
	std::fs::create_dir_all(&scratch).expect("scratch");
	let n = if only.is_some() {
		1
	} else {
		std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(2, 16)
	};
	let mut outs: Vec<WorkerOut> = vec![];
	std::thread::scope(|s| {
		let hs: Vec<_> =
			(0..n).map(|i| { let sc = &scratch; s.spawn(move || run_shard(prop, tier, i, n, only, sc)) }).collect();
		for h in hs {
			outs.push(h.join().expect("shard"));
		}
	});
	let mut st = Stats::default();
	{
		let mut all: Vec<u64> = vec![];
		for i in 0..n {
			if let Ok(b) = std::fs::read(scratch.join(format!("progress-{}-run.states", if only.is_some() { 0 } else { i }))) {
				all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
			}
		}
		all.sort_unstable();
		all.dedup();
		st.states = all.len() as u64;
	}
	let _ = std::fs::remove_dir_all(&scratch);
	let mut known = vec![];
	let mut samples = vec![];
	let mut bounds: Vec<String> = vec![];
	let mut viol: Option<Violation> = None;
	let mut err = None;
	let mut cases = 0;
	for o in outs {
		st.transitions += o.stats.transitions;
		st.traces += o.stats.traces;
		st.nonempty += o.stats.nonempty;
		cases = cases.max(o.cases);
		known.extend(o.known);
		samples.extend(o.samples);
		for b in o.bounds {
			if !bounds.contains(&b) {
				bounds.push(b);
			}
		}
		if let Some(v) = o.viol {
			if viol.as_ref().map_or(true, |w| v.case < w.case) {
				viol = Some(v);
			}
		}
		if o.engine_error.is_some() {
			err = o.engine_error;
		}
	}
	samples.truncate(12);
	known.sort();
	known.dedup();
	for k in &known {
		println!("KNOWN-FINDING: property={prop} {k}");
	}
	let wall = t0.elapsed().as_secs_f64();
	let list = |v: &[String]| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ");
	let ev = format!(
		"{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"cases are enumerated exhaustively in a fixed order; a transition is one query/operation evaluated on the model and on the real library and compared; non-trivial = the model's expected observation is a non-empty result or a changed state\",\n  \"cases\": {},\n  \"exhaustive\": {},\n  \"bounds\": [{}],\n  \"technique\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [\"the parser dependency rphtml is trusted to build the tree for the well-formed inputs used as starting states; every starting tree is compared with the model before use\", \"values outside the enumerated alphabets and sizes are not covered\"],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
		esc(prop), esc(tier.name()), seed, st.states, st.transitions, st.traces, st.nonempty, cases,
		viol.is_none() && err.is_none() && only.is_none(), list(&bounds), esc(technique), list(&samples), wall,
		if viol.is_some() { 1 } else { 0 }
	);
	if only.is_none() {
		let ed = vd.join("evidence");
		let _ = std::fs::create_dir_all(&ed);
		std::fs::write(ed.join(format!("{prop}.json")), ev).expect("evidence");
	}
	println!(
		"{prop} [{}]: cases={cases} states={} transitions={} traces={} nontrivial={} wall={wall:.1}s",
		tier.name(), st.states, st.transitions, st.traces, st.nonempty
	);
	if let Some(v) = viol {
		let rd = vd.join("replays");
		let _ = std::fs::create_dir_all(&rd);
		let path = rd.join(format!("{prop}-case{}.json", v.case));
		let _ = std::fs::write(
			&path,
			format!(
				"{{\"property\": {}, \"tier\": {}, \"case\": {}, \"what\": {}, \"detail\": {}, \"replay_cmd\": {}}}\n",
				esc(prop), esc(tier.name()), v.case, esc(&v.key), esc(&v.detail),
				esc(&format!("cd /verif && ./check.sh {prop} {} --case {}", tier.name(), v.case))
			),
		);
		println!("  case {}: {}", v.case, v.key);
		println!("  {}", v.detail);
		println!("VIOLATION property={prop} replay={}", path.display());
		return 1;
	}
	if let Some(e) = err {
		println!("ENGINE ERROR: {e}");
		return 3;
	}
	0
}
