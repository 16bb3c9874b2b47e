//! C19: every interleaving (up to a preemption bound) of threads that load documents and run queries,
//! from process start or with the shared tables warm, on the real code under a controlled scheduler.
extern crate mcstd;
use mcstd::sched;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;
use visdom::types::Elements;
use visdom::Vis;

extern "C" {
	fn fork() -> i32;
	fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
	fn _exit(code: i32) -> !;
	fn alarm(s: u32) -> u32;
}

const DOC: &str = "<div class='a' i='0'><p i='1'>x</p><p i='2' class='b'>y &lt;</p><input i='3' type='radio' checked></div><h1 i='4'>t</h1><ul i='5'><li i='6'>1</li><li i='7'>2</li><li i='8'>3</li></ul>";

fn show(e: &Elements) -> String {
	e.get_ref().iter().map(|x| x.get_attribute("i").map(|v| v.to_string()).unwrap_or("-".into())).collect::<Vec<_>>().join("")
}
fn doc() -> Elements<'static> {
	Vis::load(DOC).unwrap()
}
/// the operations of the threads: each loads its own document (the library's documents stay in one thread)
const OPS: &[(&str, fn() -> String)] = &[
	("find(div > p.b, [i='1'])", || show(&doc().find("div > p.b, [i='1']"))),
	("children()", || show(&doc().children(""))),
	("find(p:not(.b):has(*), :header)", || show(&doc().find("p:not(.b), :has(> p), :header"))),
	("filter(:nth-child(2n+1))", || show(&doc().find("li").filter(":nth-child( 2n + 1 )"))),
	("siblings(p) and closest", || {
		let d = doc();
		format!("{} {}", show(&d.find("[i='1']").siblings("p")), show(&d.find("li").closest("ul")))
	}),
	("malformed", || {
		let n = Rc::new(Cell::new(0));
		let m = n.clone();
		let d = Vis::load_catch(DOC, Box::new(move |_| m.set(m.get() + 1)));
		let r = show(&d.find("p["));
		let s = show(&d.find("p:not([)"));
		let t = show(&d.children("ul >"));
		format!("{r}{s}{t} reported {}", n.get())
	}),
	("next_until", || show(&doc().find("[i='6']").next_until("[i='8']", "li", true))),
	("set_html and append", || {
		let d = doc();
		let mut p = d.find("ul");
		p.set_html("<b i='9'>z &amp;</b>");
		let mut f = Vis::load("<i i='a'></i>").unwrap();
		p.append(&mut f);
		p.find("b").set_text("< &");
		p.outer_html()
	}),
	("texts and values", || {
		let d = doc();
		format!("{} {} {}", d.text(), d.find(":checked").length(), d.find("p").texts(0).length())
	}),
	("Elements::new().find before any document", || {
		let e = Elements::new();
		format!("{}{}", show(&e.find("p:not(.a)")), show(&e.children("")))
	}),
	("find(*)", || {
		let d = doc();
		format!("{} {}", show(&d.find("*")), show(&d.find("ul").find("*")))
	}),
	("moves without a selector", || {
		let d = doc();
		let e = d.find("#none, [i='7']");
		format!("{} {} {} {} {}", show(&e.next("")), show(&e.prev_all("")), show(&e.parents("")), show(&e.siblings("")), show(&e.closest("li")))
	}),
	("queries inside callbacks", || {
		let d = doc();
		let n = Rc::new(Cell::new(0));
		let m = n.clone();
		let c = Vis::load_catch(
			DOC,
			Box::new(move |_| {
				let o = doc();
				m.set(m.get() * 10 + o.find(":first-child").length() + o.children("").length());
			}),
		);
		let bad = show(&c.find("p:nth-child(x)"));
		let by = show(&d.find("div, ul").filter_by(|_, e| Vis::dom(e).find(":contains('2')").length() > 0));
		let has = show(&d.find("*").filter_in(&d.find("li:last-child")));
		format!("{bad}{by} {has} reported {}", n.get())
	}),
];

#[derive(Clone, Debug)]
struct Scenario {
	/// 0: process start; 1: a document was loaded; 2: all operations were run before
	warm: u8,
	ops: Vec<usize>,
	bound: u32,
}
impl Scenario {
	fn name(&self) -> String {
		let w = ["from process start", "after a first load", "with warm tables"][self.warm as usize];
		format!("{} {w}", self.ops.iter().map(|&o| OPS[o].0).collect::<Vec<_>>().join(" || "))
	}
	fn line(&self, prefix: &[u8]) -> String {
		format!("{};{};{}", self.warm, self.ops.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(","), prefix.iter().map(|c| (b'0' + c) as char).collect::<String>())
	}
}

fn enc(s: &str) -> String {
	s.replace('\\', "\\\\").replace('\n', "\\n").replace(';', "\\s").replace('|', "\\p")
}

fn warm_up(w: u8) {
	if w >= 1 {
		let _ = Vis::load("<p></p>");
	}
	if w >= 2 {
		for (_, f) in OPS {
			let _ = f();
		}
	}
}

/// one execution; prints: points;choices;deadlock;results
fn exec(line: &str) -> String {
	let mut it = line.split(';');
	let warm: u8 = it.next().unwrap().parse().unwrap();
	let ops: Vec<usize> = it.next().unwrap().split(',').map(|x| x.parse().unwrap()).collect();
	let prefix: Vec<u8> = it.next().unwrap().bytes().map(|b| b - b'0').collect();
	warm_up(warm);
	let bodies: Vec<Box<dyn FnOnce() -> String + Send>> = ops.iter().map(|&o| Box::new(move || OPS[o].1()) as Box<dyn FnOnce() -> String + Send>).collect();
	let out = sched::run(bodies, prefix, 200_000);
	let tr: String = out.trace.iter().map(|c| format!("{}{}{}", c.options, if c.free { 'f' } else { 'p' }, c.taken)).collect();
	let res: Vec<String> = out
		.results
		.iter()
		.map(|r| match r {
			None => "did not finish".to_string(),
			Some(Ok(s)) => format!("={}", enc(s)),
			Some(Err(e)) => {
				let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
				format!("panicked: {}", enc(&m))
			}
		})
		.collect();
	format!("{};{};{};{}", out.points, tr, enc(&out.deadlock.unwrap_or_default()), res.join("|"))
}

fn worker() {
	std::panic::set_hook(Box::new(|_| {}));
	let stdin = std::io::stdin();
	for line in stdin.lock().lines() {
		let Ok(line) = line else { break };
		unsafe {
			let pid = fork();
			if pid == 0 {
				alarm(60);
				let r = exec(&line);
				let mut o = std::io::stdout().lock();
				let _ = writeln!(o, "{r}");
				let _ = o.flush();
				_exit(0);
			}
			let mut st = 0;
			waitpid(pid, &mut st, 0);
			if st != 0 {
				let mut o = std::io::stdout().lock();
				let _ = writeln!(o, "0;;the process ended with status {st};");
				let _ = o.flush();
			}
		}
	}
}

struct Shared {
	work: Vec<(usize, Vec<u8>)>,
	busy: usize,
	schedules: u64,
	points: u64,
	choices: u64,
	switches: u64,
	maxlen: usize,
	per: BTreeMap<usize, u64>,
	viol: Option<(usize, Vec<u8>, String)>,
	bad: Option<String>,
}

struct Proc {
	child: std::process::Child,
	r: BufReader<std::process::ChildStdout>,
}
impl Proc {
	fn new() -> Self {
		let mut child = Command::new(std::env::current_exe().unwrap()).arg("worker").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("worker");
		let r = BufReader::new(child.stdout.take().unwrap());
		Proc { child, r }
	}
	fn ask(&mut self, line: &str) -> String {
		let w = self.child.stdin.as_mut().unwrap();
		writeln!(w, "{line}").unwrap();
		w.flush().unwrap();
		let mut s = String::new();
		self.r.read_line(&mut s).unwrap();
		s.trim_end().to_string()
	}
}

fn scenarios(thorough: bool) -> Vec<Scenario> {
	let n = OPS.len();
	let mut v = vec![];
	// the sets of operations that are explored with one more preemption
	let core: &[usize] = &[0, 1, 9];
	for a in 0..n {
		for b in a..n {
			let c = core.contains(&a) && core.contains(&b);
			let (cold, load, warm) = match (thorough, c) {
				(false, false) => (1, 1, 1),
				(false, true) => (1, 2, 2),
				(true, false) => (1, 2, 2),
				(true, true) => (2, 2, 3),
			};
			v.push(Scenario { warm: 0, ops: vec![a, b], bound: cold });
			v.push(Scenario { warm: 1, ops: vec![a, b], bound: load });
			v.push(Scenario { warm: 2, ops: vec![a, b], bound: warm });
		}
	}
	for t in [[0, 1, 2], [1, 1, 1], [9, 0, 1], [5, 2, 4], [1, 4, 6]] {
		v.push(Scenario { warm: 0, ops: t.to_vec(), bound: 1 });
		v.push(Scenario { warm: 2, ops: t.to_vec(), bound: if thorough { 2 } else { 1 } });
	}
	v
}

fn esc(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	if args.get(1).map(|s| s.as_str()) == Some("worker") {
		return worker();
	}
	if args.get(1).map(|s| s.as_str()) == Some("replay") {
		println!("{}", Proc::new().ask(&args[2]));
		return;
	}
	let tier = args.get(2).cloned().unwrap_or("quick".into());
	let thorough = tier == "thorough";
	let vd = std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
	let t0 = Instant::now();
	let sc = scenarios(thorough);
	// what every operation gives when it is run alone
	let mut alone: Vec<String> = vec![];
	{
		let mut p = Proc::new();
		for o in 0..OPS.len() {
			let r = p.ask(&format!("0;{o};"));
			alone.push(r.split(';').nth(3).unwrap_or("").to_string());
		}
	}
	let mut first_viol = alone.iter().position(|r| !r.starts_with('=')).map(|o| (OPS[o].0.to_string(), format!("alone from process start: {}", alone[o]), format!("0;{o};")));
	let budget: f64 = std::env::var("C19_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 7200.0 } else { 600.0 });
	let sh = Arc::new((Mutex::new(Shared { work: (0..sc.len()).rev().map(|i| (i, vec![])).collect(), busy: 0, schedules: 0, points: 0, choices: 0, switches: 0, maxlen: 0, per: BTreeMap::new(), viol: None, bad: None }), Condvar::new()));
	let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16);
	if first_viol.is_none() {
		std::thread::scope(|s| {
			for _ in 0..ncpu {
				let (sh, sc, alone) = (sh.clone(), &sc, &alone);
				s.spawn(move || {
					let mut p = Proc::new();
					loop {
						let (i, prefix) = {
							let mut g = sh.0.lock().unwrap();
							loop {
								if g.viol.is_some() || g.bad.is_some() {
									return;
								}
								if let Some(w) = g.work.pop() {
									g.busy += 1;
									break w;
								}
								if g.busy == 0 {
									sh.1.notify_all();
									return;
								}
								g = sh.1.wait(g).unwrap();
							}
						};
						let r = p.ask(&sc[i].line(&prefix));
						let f: Vec<&str> = r.split(';').collect();
						let mut g = sh.0.lock().unwrap();
						g.busy -= 1;
						g.schedules += 1;
						*g.per.entry(i).or_default() += 1;
						if f.len() != 4 {
							g.bad = Some(format!("bad answer {r:?} for {}", sc[i].line(&prefix)));
							sh.1.notify_all();
							return;
						}
						let tr: Vec<char> = f[1].chars().collect();
						let tr: Vec<(u8, bool, u8)> = tr.chunks(3).map(|c| (c[0] as u8 - b'0', c[1] == 'f', c[2] as u8 - b'0')).collect();
						let want: Vec<&str> = sc[i].ops.iter().map(|&o| alone[o].as_str()).collect();
						let got: Vec<&str> = f[3].split('|').collect();
						if !f[2].is_empty() || want != got {
							let d = if !f[2].is_empty() { format!("deadlock or no end: {} results {:?}", f[2], got) } else { format!("results {got:?}, alone {want:?}") };
							let taken = tr.iter().map(|t| t.2).collect();
							if g.viol.is_none() {
								g.viol = Some((i, taken, d));
							}
							sh.1.notify_all();
							return;
						}
						if tr.len() < prefix.len() || tr.iter().zip(&prefix).any(|(t, p)| t.2 != *p) {
							g.bad = Some(format!("the execution {} is not deterministic", sc[i].line(&prefix)));
							sh.1.notify_all();
							return;
						}
						g.points += f[0].parse::<u64>().unwrap_or(0);
						g.choices += tr.len() as u64;
						g.maxlen = g.maxlen.max(tr.len());
						let mut cost = 0;
						for (k, t) in tr.iter().enumerate() {
							if k >= prefix.len() {
								for alt in 1..t.0 {
									if cost + if t.1 { 0 } else { 1 } <= sc[i].bound {
										let mut np: Vec<u8> = tr[..k].iter().map(|t| t.2).collect();
										np.push(alt);
										g.work.push((i, np));
									}
								}
							}
							if t.2 != 0 && !t.1 {
								cost += 1;
							}
							if t.2 != 0 {
								g.switches += 1;
							}
						}
						sh.1.notify_all();
						if t0.elapsed().as_secs_f64() > budget {
							g.bad = Some(format!("the exploration did not end within {budget} s, {} schedules so far", g.schedules));
							return;
						}
					}
				});
			}
		});
	}
	let g = sh.0.lock().unwrap();
	if let Some((i, taken, d)) = &g.viol {
		first_viol = Some((sc[*i].name(), d.clone(), sc[*i].line(taken)));
	}
	let wall = t0.elapsed().as_secs_f64();
	let cold = sc.iter().filter(|s| s.warm == 0).count();
	let samples: Vec<String> = g.per.iter().step_by(23).map(|(i, n)| esc(&format!("{} (preemption bound {}): {n} schedules", sc[*i].name(), sc[*i].bound))).collect();
	let bmax = |w: u8, n: usize| sc.iter().filter(|s| s.warm == w && s.ops.len() == n).map(|s| s.bound).max().unwrap_or(0);
	let ev = format!(
		"{{\n \"property\": \"C19\", \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"rule\": \"stateless exploration of the real code: a trace is one complete schedule executed in a fresh process; a state is a point at which more than one thread could go on; a transition is one executed synchronisation operation\",\n  \"scenarios\": {},\n  \"context_switches\": {},\n  \"longest_schedule\": {},\n  \"exhaustive\": {},\n  \"bounds\": [\"all pairs of {} operations from process start ({} scenarios incl. triples): <= {} preemptions; after a first load: <= {}; with warm tables: <= {}; three threads: <= {}\", \"scheduling points: every Mutex, RwLock, Once, lazy_static, OnceLock, LazyLock, Condvar and atomic operation of the crate under test and of lazy_static\"],\n  \"technique\": \"stateless exploration of the real code under a controlled scheduler with a preemption bound\",\n  \"samples\": [{}]\n }},\n \"assumptions\": [\"sequentially consistent memory: data races are excluded by the type system, the crate has no unsafe code\", \"the regex crate's internal pools are not scheduling points\"],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
		esc(&tier), std::env::var("VERIF_SEED").unwrap_or("1".into()), g.choices, g.points, g.schedules, sc.len(), g.switches, g.maxlen,
		g.bad.is_none() && first_viol.is_none(), OPS.len(), cold, bmax(0, 2), bmax(1, 2), bmax(2, 2), bmax(0, 3), samples.join(", "), wall, first_viol.is_some() as u8
	);
	let _ = std::fs::create_dir_all(vd.join("evidence"));
	std::fs::write(vd.join("evidence/C19.json"), ev).expect("evidence");
	println!("C19 [{tier}]: scenarios={} schedules={} choice points={} operations={} longest={} wall={wall:.1}s", sc.len(), g.schedules, g.choices, g.points, g.maxlen);
	if let Some((n, d, l)) = first_viol {
		let rd = vd.join("replays");
		let _ = std::fs::create_dir_all(&rd);
		let path = rd.join("C19-schedule.json");
		let _ = std::fs::write(&path, format!("{{\"property\": \"C19\", \"what\": {}, \"detail\": {}, \"replay_cmd\": {}}}\n", esc(&n), esc(&d), esc(&format!("/verif/target-mc19/release/mc19 replay '{l}'"))));
		println!("  {n}\n  {d}");
		println!("VIOLATION property=C19 replay={}", path.display());
		std::process::exit(1);
	}
	if let Some(b) = &g.bad {
		println!("ENGINE ERROR: {b}");
		std::process::exit(3);
	}
}
