//! C14: class operations as set operations.
use crate::engine::Ctx;
use crate::model::*;
use visdom::types::{BoxDynElement, IAttrValue};

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
	Add,
	Remove,
	Toggle,
}

/// class state: None = no class attribute value
type Cls = Vec<String>;

fn list(s: &str) -> Vec<String> {
	s.split_ascii_whitespace().map(|x| x.to_string()).collect()
}
fn uniq(s: &str) -> Vec<String> {
	let mut v: Vec<String> = vec![];
	for x in list(s) {
		if !v.contains(&x) {
			v.push(x);
		}
	}
	v
}

fn apply(c: &Cls, k: K, arg: &str) -> Cls {
	let a = uniq(arg);
	let mut r: Cls = match k {
		K::Add => c.clone(),
		K::Remove | K::Toggle => c.iter().filter(|x| !a.contains(x)).cloned().collect(),
	};
	for x in &a {
		if match k {
			K::Add => !c.contains(x),
			K::Toggle => !c.contains(x),
			K::Remove => false,
		} {
			r.push(x.clone());
		}
	}
	r
}

fn current(e: &BoxDynElement<'static>) -> Cls {
	match e.get_attribute("class") {
		Some(IAttrValue::Value(v, _)) => list(&v),
		_ => vec![],
	}
}

const NAMES: [&str; 4] = ["a", "b", "c", "ab"];
const PROBES: [&str; 12] = ["a", "b", "c", "ab", "a b", "b a", "c a b", "a a", " a  ", "a ab", "d", ""];

/// compare names (kept names in order first; added ones in any order after them)
fn same(want: &Cls, kept: usize, got: &Cls) -> bool {
	if want.len() != got.len() || want[..kept] != got[..kept] {
		return false;
	}
	let (mut a, mut b) = (want[kept..].to_vec(), got[kept..].to_vec());
	a.sort();
	b.sort();
	a == b
}

fn run_seq(ctx: &mut Ctx, init: &str, ops: &[(K, &'static str)]) {
	let start: Vec<Cls> = {
		let v = init.split_once('=').map(|(_, v)| v.trim_matches(|c| c == '"' || c == '\'')).unwrap_or("");
		vec![list(v), list("b c")]
	};
	for s in &start {
		let mut c = s.clone();
		for (k, a) in ops {
			c = apply(&c, *k, a);
		}
		ctx.state(&c);
	}
	ctx.stats.transitions += ops.len() as u64;
	ctx.stats.traces += 1;
	ctx.stats.nonempty += 1;
	let html = format!("<p k=\"0\"{init}></p><p k=\"1\" class=\"b c\"></p><p k=\"2\" class=\"a\"></p>");
	ctx.expect(|| format!("class{init:?} {ops:?}"), &None, || {
		let root = load(&html);
		let all = real_elements(&root.get(0).unwrap().cloned());
		let mut s = subset(&all, 0b11);
		let mut cur = start.clone();
		for (k, arg) in ops {
			let before: Vec<Cls> = cur.clone();
			match k {
				K::Add => s.add_class(arg),
				K::Remove => s.remove_class(arg),
				K::Toggle => s.toggle_class(arg),
			};
			for i in 0..2 {
				let want = apply(&before[i], *k, arg);
				let kept = want.iter().filter(|x| before[i].contains(x)).count();
				let got = current(&all[i]);
				if !same(&want, kept, &got) {
					return Some(format!("[{i}] after {k:?}({arg:?}) on {:?}: expected {want:?}, got {got:?}", before[i]));
				}
				cur[i] = got;
			}
		}
		if current(&all[2]) != ["a"] {
			return Some("an element outside the set changed".into());
		}
		for p in PROBES {
			let need = list(p);
			let want = !need.is_empty() && cur.iter().any(|c| need.iter().all(|n| c.contains(n)));
			if s.has_class(p) != want {
				return Some(format!("has_class({p:?}) = {} on {cur:?}", !want));
			}
			for i in 0..2 {
				let want = !need.is_empty() && need.iter().all(|n| cur[i].contains(n));
				if subset(&all, 1 << i).has_class(p) != want {
					return Some(format!("[{i}].has_class({p:?}) = {} on {:?}", !want, cur[i]));
				}
			}
		}
		let chk = |r: &visdom::types::Elements<'static>, what: &str| {
			for n in NAMES {
				let want: Vec<usize> =
					[&cur[0], &cur[1], &list("a")].iter().enumerate().filter(|(_, c)| c.iter().any(|x| x == n)).map(|(i, _)| i).collect();
				let got = marks(&r.find(&format!(".{n}")));
				if got != want {
					return Some(format!("{what}: .{n} expected {want:?}, got {got:?}"));
				}
			}
			None
		};
		chk(&root, "find").or_else(|| {
			let src = root.document().unwrap().source_code();
			let r2 = load(&src);
			let a2 = real_elements(&r2.get(0).unwrap().cloned());
			for i in 0..2 {
				if current(&a2[i]) != cur[i] {
					return Some(format!("[{i}] re-loads as {:?} instead of {:?} from {src:?}", current(&a2[i]), cur[i]));
				}
			}
			chk(&r2, "find after re-load")
		})
	});
}

pub fn run(ctx: &mut Ctx) {
	let mut inits: Vec<String> = vec!["".into(), " class".into(), " class=\"\"".into(), " class='a'".into(), " CLASS=a".into()];
	let maxi = ctx.tier.pick(3, 4);
	for n in 1..=maxi {
		for w in words(n, 3) {
			inits.push(format!(" class=\"{}\"", w.iter().map(|&i| NAMES[i]).collect::<Vec<_>>().join(" ")));
		}
	}
	inits.push(" class=\" a\tb  \"".into());
	inits.push(" class=\"ab a\"".into());
	let mut args: Vec<&'static str> = vec!["", "  ", " b  a ", "a\tc", "ab", "ab a"];
	for n in 1..=3 {
		for w in words(n, 3) {
			args.push(Box::leak(w.iter().map(|&i| NAMES[i]).collect::<Vec<_>>().join(" ").into_boxed_str()));
		}
	}
	let few: [&'static str; 6] = ["a", "b a", "c a b", "a a", "ab c", "b"];
	let deep = ctx.tier.pick(3, 4);
	ctx.bound(format!("{} class attributes (all name sequences of <= {maxi} over 3 names, missing, flag, odd spacing) x 3 operations x {} arguments (all sequences of <= 3 names) single-step and pairs", inits.len(), args.len()));
	ctx.bound(format!("all sequences of 3..={deep} operations over 18"));
	let ks = [K::Add, K::Remove, K::Toggle];
	for init in &inits {
		for k in ks {
			for (ai, arg) in args.iter().enumerate() {
				if !ctx.case(|| format!("class{init:?} {k:?}({arg:?}) ...")) {
					if !ctx.live() {
						return;
					}
					continue;
				}
				run_seq(ctx, init, &[(k, arg)]);
				for k2 in ks {
					for arg2 in &args {
						run_seq(ctx, init, &[(k, arg), (k2, arg2)]);
						if !ctx.live() {
							return;
						}
					}
				}
				if ai < few.len() {
					for n in 2..deep {
						for w in words(n, few.len() * 3) {
							let mut seq = vec![(k, few[ai])];
							seq.extend(w.iter().map(|&i| (ks[i % 3], few[i / 3])));
							run_seq(ctx, init, &seq);
							if !ctx.live() {
								return;
							}
						}
					}
				}
			}
		}
	}
	if ctx.live() {
		large(ctx);
	}
	if ctx.live() {
		letters(ctx);
	}
}

/// many and long class names
fn large(ctx: &mut Ctx) {
	let sizes: Vec<usize> = ctx.tier.pick(vec![17, 70, 270], vec![17, 33, 70, 140, 270, 600]);
	ctx.bound(format!("many: {sizes:?} class names (one of that length): every operation with one, half, all and more names in either order, two steps"));
	for &n in &sizes {
		let name = |i: usize| if i == 2 { "y".repeat(n * 20) } else { format!("c{i}") };
		let join = |v: Vec<usize>| v.into_iter().map(name).collect::<Vec<_>>().join(" ");
		let args: Vec<String> = vec![
			join(vec![0]), join(vec![n - 1]), join(vec![2]), join(vec![n]), join((0..n).collect()), join((0..n).rev().collect()), join((n / 2..n + n / 2).collect()),
			join((0..n).step_by(2).collect()), join((0..2 * n).rev().step_by(3).collect()),
		];
		let start = join((0..n).collect());
		for init in ["".to_string(), format!(" class=\"{start}\"")] {
			for k in [K::Add, K::Remove, K::Toggle] {
				for (ai, arg) in args.iter().enumerate() {
					if !ctx.case(|| format!("{n} names, from {} {k:?} argument {ai}", if init.is_empty() { "none" } else { "all" })) {
						if !ctx.live() {
							return;
						}
						continue;
					}
					for k2 in [K::Add, K::Remove, K::Toggle] {
						for (bi, arg2) in args.iter().enumerate() {
							ctx.stats.transitions += 2;
							ctx.stats.traces += 1;
							ctx.stats.nonempty += 1;
							ctx.state(&(n, init.len(), k as u8, ai, k2 as u8, bi));
							let html = format!("<p k=\"0\"{init}></p>");
							ctx.expect(|| format!("then {k2:?} argument {bi}"), &None, || {
								let root = load(&html);
								let all = real_elements(&root.get(0).unwrap().cloned());
								let mut s = subset(&all, 1);
								let mut cur = current(&all[0]);
								for (k, arg) in [(k, arg), (k2, arg2)] {
									let want = apply(&cur, k, arg);
									let kept = want.iter().filter(|x| cur.contains(x)).count();
									match k {
										K::Add => s.add_class(arg),
										K::Remove => s.remove_class(arg),
										K::Toggle => s.toggle_class(arg),
									};
									let got = current(&all[0]);
									if !same(&want, kept, &got) {
										return Some(format!("expected {} names, got {}: {got:?}", want.len(), got.len()));
									}
									cur = got;
								}
								for i in [0, 1, 2, n / 2, n - 1, n, 2 * n - 1] {
									let want = cur.contains(&name(i));
									if s.has_class(&name(i)) != want || root.find(&format!(".{}", name(i))).length() != want as usize {
										return Some(format!("has_class or find of name {i}: expected {want}"));
									}
								}
								for a in &args {
									let want = list(a).iter().all(|x| cur.contains(x));
									if s.has_class(a) != want {
										return Some(format!("has_class of {} names: expected {want}", list(a).len()));
									}
								}
								None
							});
							if !ctx.live() {
								return;
							}
						}
					}
				}
			}
		}
	}
}

/// every character in a class name: only ASCII white space separates names
fn letters(ctx: &mut Ctx) {
	let cs = chars();
	ctx.bound(format!("{} characters (all of ASCII and {} others) alone, before, after and between letters, as class and as argument: every operation, and two in turn", cs.len(), cs.len() - 128));
	let ks = [K::Add, K::Remove, K::Toggle];
	for c in cs {
		let forms = around(c);
		let mut inits: Vec<String> = vec!["x y".into()];
		inits.extend(forms.iter().cloned());
		inits.push(format!("x {c} y"));
		let mut args: Vec<String> = vec!["x".into(), format!("x {c}y")];
		args.extend(forms);
		for init in &inits {
			if !ctx.case(|| format!("class {init:?}")) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			for raw in [false, true] {
				if raw && c == '"' {
					continue;
				}
				let html = if raw { format!("<p class=\"{init}\"></p>") } else { "<p></p>".to_string() };
				for (n, k) in ks.iter().chain(ks.iter()).enumerate() {
					for arg in &args {
						for arg2 in &args {
							let k2 = ks[(n + n / 3) % 3];
							ctx.stats.transitions += 2;
							ctx.stats.traces += 1;
							ctx.stats.nonempty += 1;
							ctx.state(&(init, raw, n, arg, arg2));
							ctx.expect(|| format!("{k:?}({arg:?}), {k2:?}({arg2:?}), written in the markup: {raw}"), &None, || {
								let root = load(&html);
								let all = real_elements(&root.get(0).unwrap().cloned());
								let mut s = subset(&all, 1);
								if !raw {
									s.set_attr("class", Some(init));
								}
								let mut cur = list(init);
								if current(&all[0]) != cur {
									return Some(format!("the class reads as {:?}", current(&all[0])));
								}
								for (k, arg) in [(*k, arg), (k2, arg2)] {
									let want = apply(&cur, k, arg);
									let kept = want.iter().filter(|x| cur.contains(x)).count();
									match k {
										K::Add => s.add_class(arg),
										K::Remove => s.remove_class(arg),
										K::Toggle => s.toggle_class(arg),
									};
									let got = current(&all[0]);
									if !same(&want, kept, &got) {
										return Some(format!("after {k:?}({arg:?}) on {cur:?}: expected {want:?}, got {got:?}"));
									}
									cur = got;
								}
								for p in inits.iter().chain(&args) {
									let need = list(p);
									let want = !need.is_empty() && need.iter().all(|n| cur.contains(n));
									if s.has_class(p) != want {
										return Some(format!("has_class({p:?}) = {} on {cur:?}", !want));
									}
								}
								let v = all[0].get_attribute("class");
								if v.as_ref().map(|v| v.to_list().into_iter().map(|x| x.to_string()).collect::<Vec<_>>()).unwrap_or_default() != cur {
									return Some(format!("to_list is {:?} on {cur:?}", v.map(|v| v.to_list().join("|"))));
								}
								let src = root.document().unwrap().source_code();
								let a2 = real_elements(&load(&src).get(0).unwrap().cloned());
								if current(&a2[0]) != cur {
									return Some(format!("re-loads as {:?} instead of {cur:?} from {src:?}", current(&a2[0])));
								}
								None
							});
							if !ctx.live() {
								return;
							}
						}
					}
				}
			}
		}
	}
}
