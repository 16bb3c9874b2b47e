//! C13: attributes as a case-insensitive map under histories of set / overwrite / remove.
use crate::engine::Ctx;
use crate::model::*;
use visdom::types::{BoxDynElement, IAttrValue};

type Map = Vec<(String, Option<String>)>;

#[derive(Clone, Debug)]
enum Op {
	Set(&'static str, Option<&'static str>),
	Remove(&'static str),
}

fn apply(m: &mut Map, op: &Op) {
	match op {
		Op::Set(n, v) => {
			let n = n.to_ascii_lowercase();
			let v = v.map(|s| s.to_string());
			match m.iter_mut().find(|(k, _)| *k == n) {
				Some(e) => e.1 = v,
				None => m.push((n, v)),
			}
		}
		Op::Remove(n) => m.retain(|(k, _)| !k.eq_ignore_ascii_case(n)),
	}
}

fn real(v: Option<IAttrValue>) -> Option<Option<String>> {
	v.map(|v| match v {
		IAttrValue::True => None,
		IAttrValue::Value(s, _) => Some(s),
	})
}
fn dequote(s: &str) -> String {
	s.replace("&quot;", "\"").replace("&#34;", "\"").replace("&apos;", "'").replace("&#39;", "'").replace("&#x27;", "'")
}
/// Values read back as set; one with both kinds of quotes may spell quotes as entities.
fn same(want: &Option<Option<String>>, got: &Option<Option<String>>) -> bool {
	match (want, got) {
		(Some(Some(w)), Some(Some(g))) => {
			g == w || (w.contains('"') && w.contains('\'') && dequote(g) == *w)
		}
		(w, g) => w == g,
	}
}

const PROBES: [&str; 8] = ["a", "A", "b", "B", "data-x", "DATA-x", "c", "id"];

/// difference between the model map and one element
fn observe(m: &Map, e: &BoxDynElement<'static>) -> Option<String> {
	for p in PROBES {
		let want = m.iter().find(|(k, _)| k.eq_ignore_ascii_case(p)).map(|(_, v)| v.clone());
		let got = real(e.get_attribute(p));
		if !same(&want, &got) {
			return Some(format!("get_attribute({p:?}): expected {want:?}, got {got:?}"));
		}
		if e.has_attribute(p) != want.is_some() {
			return Some(format!("has_attribute({p:?}) is {}", e.has_attribute(p)));
		}
	}
	let all = e.get_attributes();
	if all.len() != m.len() {
		return Some(format!("get_attributes: expected {m:?}, got {all:?}"));
	}
	for (n, v) in all {
		let want = m.iter().find(|(k, _)| *k == n).map(|(_, v)| v.clone());
		if !same(&want, &real(Some(v))) {
			return Some(format!("get_attributes: {n:?} differs from {m:?}"));
		}
	}
	None
}

fn reload(e: &BoxDynElement<'static>, m: &Map) -> Option<String> {
	let html = e.outer_html();
	let r = load(&html);
	let all = real_elements(&r.get(0).unwrap().cloned());
	if all.len() != 1 {
		return Some(format!("{html:?} re-loads to {} elements", all.len()));
	}
	observe(m, &all[0]).map(|d| format!("after re-loading {html:?}: {d}"))
}

const INIT: [(&str, &[(&str, Option<&str>)]); 12] = [
	("", &[]),
	(" a=\"v\"", &[("a", Some("v"))]),
	(" A='v'", &[("a", Some("v"))]),
	(" a=v", &[("a", Some("v"))]),
	(" a", &[("a", None)]),
	(" a=\"\"", &[("a", Some(""))]),
	(" b=\"1\" a='2'", &[("b", Some("1")), ("a", Some("2"))]),
	(" a b=2", &[("a", None), ("b", Some("2"))]),
	(" Data-X=\"q\" c=\"3\" b", &[("data-x", Some("q")), ("c", Some("3")), ("b", None)]),
	(" a='x\"y' c=\"x'y\"", &[("a", Some("x\"y")), ("c", Some("x'y"))]),
	(" c=1 a=2 id=3 b=4", &[("c", Some("1")), ("a", Some("2")), ("id", Some("3")), ("b", Some("4"))]),
	(" a=\"&amp;\" id", &[("a", Some("&amp;")), ("id", None)]),
];

fn run_seq(ctx: &mut Ctx, init: usize, tag: &str, ops: &[Op]) {
	let close = if VOID_TAGS.contains(&tag) { String::new() } else { format!("</{tag}>") };
	let html = format!("<p a=\"0\" b></p><{tag}{}>{close}<i c='9'></i><{tag} z=\"\">{close}", INIT[init].0);
	let mut m: Map = INIT[init].1.iter().map(|(a, b)| (a.to_string(), b.map(|s| s.to_string()))).collect();
	let mut m2: Map = vec![("z".into(), Some(String::new()))];
	for o in ops {
		apply(&mut m, o);
		apply(&mut m2, o);
	}
	if !ops.is_empty() {
		ctx.stats.nonempty += 1;
	}
	ctx.state(&(tag, &m, &m2));
	ctx.stats.traces += 1;
	ctx.stats.transitions += ops.len() as u64;
	// one element through its own methods, a set of two through the set's methods
	ctx.expect(|| format!("<{tag}> element ops {ops:?}"), &None, || {
		let root = load(&html);
		let all = real_elements(&root.get(0).unwrap().cloned());
		let mut e = all[1].cloned();
		for o in ops {
			match o {
				Op::Set(n, v) => e.set_attribute(n, *v),
				Op::Remove(n) => e.remove_attribute(n),
			}
		}
		observe(&m, &all[1])
			.or_else(|| reload(&all[1], &m))
			.or_else(|| observe(&vec![("a".into(), Some("0".into())), ("b".into(), None)], &all[0]).map(|d| format!("neighbour: {d}")))
			.or_else(|| observe(&vec![("c".into(), Some("9".into()))], &all[2]).map(|d| format!("neighbour: {d}")))
			.or_else(|| observe(&vec![("z".into(), Some(String::new()))], &all[3]).map(|d| format!("neighbour: {d}")))
	});
	if ops.len() > 2 || !ctx.live() {
		return;
	}
	ctx.expect(|| format!("<{tag}> set ops {ops:?}"), &None, || {
		let root = load(&html);
		let all = real_elements(&root.get(0).unwrap().cloned());
		let mut s = subset(&all, 0b1010);
		for o in ops {
			match o {
				Op::Set(n, v) => s.set_attr(n, *v),
				Op::Remove(n) => s.remove_attr(n),
			};
		}
		for p in PROBES {
			let want = m.iter().find(|(k, _)| k.eq_ignore_ascii_case(p)).map(|(_, v)| v.clone());
			if !same(&want, &real(s.attr(p))) {
				return Some(format!("attr({p:?}) expected {want:?}, got {:?}", s.attr(p)));
			}
			let any = m.iter().chain(&m2).any(|(k, _)| k.eq_ignore_ascii_case(p));
			if s.has_attr(p) != any {
				return Some(format!("has_attr({p:?}) = {}", s.has_attr(p)));
			}
		}
		observe(&m, &all[1]).or_else(|| observe(&m2, &all[3])).or_else(|| reload(&all[3], &m2)).or_else(|| {
			// the whole document re-loads to the same maps
			let src = root.document().unwrap().source_code();
			let r2 = load(&src);
			let al2 = real_elements(&r2.get(0).unwrap().cloned());
			observe(&m, &al2[1]).or_else(|| observe(&m2, &al2[3])).map(|d| format!("after re-loading {src:?}: {d}"))
		})
	});
}

pub fn run(ctx: &mut Ctx) {
	let names = ["a", "A", "b", "data-x"];
	let values: [Option<&'static str>; 10] = [
		Some("v"),
		None,
		Some(""),
		Some("x y"),
		Some("p\"q"),
		Some("p'q"),
		Some("\"a'b\"c'"),
		Some("'a\"b'"),
		Some("<&>é/"),
		Some("&amp;="),
	];
	let mut ops = vec![];
	for n in names {
		for v in values {
			ops.push(Op::Set(n, v));
		}
	}
	for n in ["a", "A", "b", "DATA-X", "c"] {
		ops.push(Op::Remove(n));
	}
	let depth = ctx.tier.pick(2, 3);
	let red: Vec<Op> = vec![
		Op::Set("a", Some("p\"q")),
		Op::Set("A", Some("p'q x")),
		Op::Set("b", None),
		Op::Set("B", Some("v")),
		Op::Set("c", Some("")),
		Op::Remove("a"),
		Op::Remove("A"),
		Op::Remove("b"),
		Op::Remove("C"),
	];
	let deep = ctx.tier.pick(4, 6);
	ctx.bound(format!("all sequences of <= {depth} operations over {} (4 name spellings x 10 values, 5 removals) from {} initial attribute lists on a normal, a void and a content element", ops.len(), INIT.len()));
	ctx.bound(format!("all sequences of <= {deep} operations over {} from {} initial lists", red.len(), INIT.len()));
	for init in 0..INIT.len() {
		for tag in ["x", "input", "textarea"] {
			for n in 0..=depth {
				for first in 0..if n == 0 { 1 } else { ops.len() } {
					if !ctx.case(|| format!("attrs={:?} tag={tag} first-op={first} length={n}", INIT[init].0)) {
						if !ctx.live() {
							return;
						}
						continue;
					}
					for w in words(n.max(1) - 1, ops.len()) {
						let mut seq = vec![];
						if n > 0 {
							seq.push(ops[first].clone());
						}
						seq.extend(w.iter().map(|&i| ops[i].clone()));
						run_seq(ctx, init, tag, &seq);
						if !ctx.live() {
							return;
						}
					}
				}
			}
		}
		for first in 0..red.len() {
			if !ctx.case(|| format!("attrs={:?} deep first-op={first}", INIT[init].0)) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			for n in depth + 1..=deep {
				for w in words(n - 1, red.len()) {
					let mut seq = vec![red[first].clone()];
					seq.extend(w.iter().map(|&i| red[i].clone()));
					run_seq(ctx, init, "x", &seq);
					if !ctx.live() {
						return;
					}
				}
			}
		}
	}
	if ctx.live() {
		large(ctx);
	}
	if ctx.live() {
		letters(ctx);
	}
	if ctx.live() {
		repeated(ctx);
	}
}

/// many attributes, long names and values
fn large(ctx: &mut Ctx) {
	let sizes: Vec<usize> = ctx.tier.pick(vec![17, 70, 270], vec![17, 33, 70, 140, 270, 600]);
	ctx.bound(format!("many: {sizes:?} attributes set in ascending, descending and interleaved order on an element with none or as many from the markup, every, every second or every third overwritten, removed or made a flag; names and values of that length and 20 times that"));
	for &n in &sizes {
		for fresh in [true, false] {
			for order in 0..3 {
				for second in 0..9 {
					if !ctx.case(|| format!("{n} attributes, fresh {fresh}, order {order}, second round {second}")) {
						if !ctx.live() {
							return;
						}
						continue;
					}
					let idx: Vec<usize> = match order {
						0 => (0..n).collect(),
						1 => (0..n).rev().collect(),
						_ => (0..n).map(|i| i * 7 % n).collect::<std::collections::BTreeSet<_>>().into_iter().map(|i| (i * 5) % n).collect(),
					};
					let long = "v".repeat(n * 20);
					let name = |i: usize| if i == 3 { format!("n{}", "x".repeat(n)) } else { format!("n{i}") };
					let mut m: Map = vec![];
					let mut html = String::from("<p");
					if !fresh {
						for i in 0..n {
							html += &format!(" {}=\"o{i}\"", name(i));
							m.push((name(i), Some(format!("o{i}"))));
						}
					}
					html += "></p>";
					let mut seq: Vec<(String, Option<Option<String>>)> = vec![];
					for &i in &idx {
						seq.push((name(i), Some(if i % 5 == 4 { None } else { Some(if i == 1 { long.clone() } else { format!("v{i}") }) })));
					}
					let step = second % 3 + 1;
					for i in (0..n).step_by(step) {
						seq.push((name(i).to_ascii_uppercase(), match second / 3 {
							0 => Some(Some(format!("w{i}"))),
							1 => Some(None),
							_ => None,
						}));
					}
					for (k, v) in &seq {
						let k = k.to_ascii_lowercase();
						match v {
							None => m.retain(|(x, _)| *x != k),
							Some(v) => match m.iter_mut().find(|(x, _)| *x == k) {
								Some(e) => e.1 = v.clone(),
								None => m.push((k, v.clone())),
							},
						}
					}
					ctx.state(&m);
					ctx.stats.traces += 1;
					ctx.stats.nonempty += 1;
					ctx.stats.transitions += seq.len() as u64;
					ctx.expect(|| "map".to_string(), &None, || {
						let root = load(&html);
						let mut e = real_elements(&root.get(0).unwrap().cloned())[0].cloned();
						for (k, v) in &seq {
							match v {
								Some(v) => e.set_attribute(k, v.as_deref()),
								None => e.remove_attribute(k),
							}
						}
						for i in 0..n + 2 {
							let want = m.iter().find(|(k, _)| *k == name(i)).map(|(_, v)| v.clone());
							for probe in [name(i), name(i).to_ascii_uppercase()] {
								let got = real(e.get_attribute(&probe));
								if got != want || e.has_attribute(&probe) != want.is_some() {
									return Some(format!("{probe:?}: expected {want:?}, got {got:?}"));
								}
							}
						}
						observe(&m, &e).or_else(|| reload(&e, &m))
					});
					if !ctx.live() {
						return;
					}
				}
			}
		}
	}
}

/// every character in a value and in a name
fn letters(ctx: &mut Ctx) {
	let cs = chars();
	ctx.bound(format!("{} characters (all of ASCII and {} others) alone, before, after and between letters: as a value, set over nothing, another value and a flag; as a name (all but white space, quotes, < > / = and controls), with its upper and lower case spellings set, overwritten and removed", cs.len(), cs.len() - 128));
	for &c in &cs {
		for val in around(c) {
			if !ctx.case(|| format!("value {val:?}")) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			for (init, _) in INIT.iter().take(6) {
				for tag in ["p", "input", "textarea"] {
					let close = if VOID_TAGS.contains(&tag) { String::new() } else { format!("</{tag}>") };
					let html = format!("<{tag}{init}>{close}<i a='{}'></i>", if c == '\'' { "" } else { &val });
					ctx.state(&(&val, init, tag));
					ctx.stats.traces += 1;
					ctx.stats.nonempty += 1;
					ctx.stats.transitions += 1;
					ctx.expect(|| format!("<{tag}{init}>"), &None, || {
						let root = load(&html);
						let all = real_elements(&root.get(0).unwrap().cloned());
						let mut e = all[0].cloned();
						e.set_attribute("a", Some(&val));
						e.set_attribute("B", Some("1"));
						let m: Map = vec![("a".into(), Some(val.clone())), ("b".into(), Some("1".into()))];
						if c != '\'' {
							if let Some(d) = observe(&vec![("a".into(), Some(val.clone()))], &all[1]) {
								return Some(format!("from the markup: {d}"));
							}
						}
						observe(&m, &all[0]).or_else(|| reload(&all[0], &m)).or_else(|| {
							let r = all[0].get_attribute("a").unwrap();
							if r.to_string() != val || !r.is_str(&val) || r.is_true() {
								return Some(format!("the value prints as {:?}", r.to_string()));
							}
							None
						})
					});
					if !ctx.live() {
						return;
					}
				}
			}
		}
		if c.is_whitespace() || c.is_control() || "\"'<>/=".contains(c) {
			continue;
		}
		for name in around(c) {
			if !ctx.case(|| format!("name {name:?}")) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			let (up, low) = (name.to_ascii_uppercase(), name.to_ascii_lowercase());
			// spellings that differ in more than the case of ascii letters are other names
			let mut others: Vec<String> = vec![name.to_uppercase(), name.to_lowercase(), format!("{name}x"), "k".into(), "x".into(), "ss".into(), "i".into()];
			others.retain(|o| !o.eq_ignore_ascii_case(&name));
			for raw in [false, true] {
				let html = if raw { format!("<p {name}=\"1\"></p>") } else { "<p></p>".to_string() };
				ctx.state(&(&name, raw));
				ctx.stats.traces += 1;
				ctx.stats.nonempty += 1;
				ctx.expect(|| format!("in the markup {raw}"), &None, || {
					let root = load(&html);
					let mut e = real_elements(&root.get(0).unwrap().cloned())[0].cloned();
					let mut m: Map = if raw { vec![(low.clone(), Some("1".into()))] } else { vec![] };
					let look = |e: &BoxDynElement<'static>, m: &Map| {
						for p in [&name, &up, &low].into_iter().chain(&others) {
							let want = m.iter().find(|(k, _)| k.eq_ignore_ascii_case(p)).map(|(_, v)| v.clone());
							let got = real(e.get_attribute(p));
							if got != want || e.has_attribute(p) != want.is_some() {
								return Some(format!("{p:?}: expected {want:?}, got {got:?}"));
							}
						}
						observe(m, e)
					};
					let reloaded = |e: &BoxDynElement<'static>, m: &Map| {
						let html = e.outer_html();
						let r = load(&html);
						let all = real_elements(&r.get(0).unwrap().cloned());
						look(&all[0], m).map(|d| format!("after re-loading {html:?}: {d}"))
					};
					if let Some(d) = look(&e, &m) {
						return Some(d);
					}
					let mut ops: Vec<(&String, Option<Option<&str>>)> = vec![(&name, Some(Some("2"))), (&up, Some(Some("3"))), (&low, Some(None)), (&up, None), (&low, Some(Some("4")))];
					for o in &others {
						ops.push((o, Some(Some("5"))));
						ops.push((o, None));
					}
					ops.push((&up, None));
					for (k, v) in ops {
						match v {
							Some(v) => e.set_attribute(k, v),
							None => e.remove_attribute(k),
						}
						let lk = k.to_ascii_lowercase();
						match v {
							None => m.retain(|(x, _)| *x != lk),
							Some(v) => match m.iter_mut().find(|(x, _)| *x == lk) {
								Some(e) => e.1 = v.map(|s| s.to_string()),
								None => m.push((lk, v.map(|s| s.to_string()))),
							},
						}
						if let Some(d) = look(&e, &m).or_else(|| reloaded(&e, &m)) {
							return Some(format!("after {k:?} {v:?}: {d}"));
						}
					}
					None
				});
				if !ctx.live() {
					return;
				}
			}
		}
	}
}

/// names given several times in the markup: the first counts
fn repeated(ctx: &mut Ctx) {
	const SP: [(&str, &str, Option<&str>); 5] = [("a=\"1\"", "a", Some("1")), ("A='2'", "a", Some("2")), ("a", "a", None), ("b=3", "b", Some("3")), ("B=\"\"", "b", Some(""))];
	let n = ctx.tier.pick(4, 5);
	let ops = [Op::Set("a", Some("v")), Op::Set("A", None), Op::Set("b", Some("p\"q")), Op::Set("c", Some("w")), Op::Remove("a"), Op::Remove("B"), Op::Remove("c")];
	ctx.bound(format!("all sequences of <= {n} attributes over {SP:?} (names repeated in any letter case): the first counts; then every sequence of <= 3 operations over {}", ops.len()));
	for l in 2..=n {
		for w in words(l, SP.len()) {
			if !ctx.case(|| format!("attributes {:?}", w.iter().map(|&i| SP[i].0).collect::<Vec<_>>())) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			let mut m0: Map = vec![];
			let mut html = String::from("<p k='0'></p><x");
			for &i in &w {
				html += &format!(" {}", SP[i].0);
				if !m0.iter().any(|(k, _)| k == SP[i].1) {
					m0.push((SP[i].1.into(), SP[i].2.map(|s| s.to_string())));
				}
			}
			html += " z=9></x>";
			m0.push(("z".into(), Some("9".into())));
			for d in 0..=3 {
				for o in words(d, ops.len()) {
					let mut m = m0.clone();
					for &i in &o {
						apply(&mut m, &ops[i]);
					}
					ctx.state(&(&w, &m));
					ctx.stats.traces += 1;
					ctx.stats.nonempty += 1;
					ctx.stats.transitions += d as u64;
					ctx.expect(|| format!("{:?}", o.iter().map(|&i| &ops[i]).collect::<Vec<_>>()), &None, || {
						let root = load(&html);
						let all = real_elements(&root.get(0).unwrap().cloned());
						let mut e = all[1].cloned();
						for &i in &o {
							match ops[i] {
								Op::Set(n, v) => e.set_attribute(n, v),
								Op::Remove(n) => e.remove_attribute(n),
							}
						}
						observe(&m, &all[1]).or_else(|| reload(&all[1], &m)).or_else(|| {
							for (q, has) in [("[a]", "a"), ("[b]", "b"), ("[z='9']", "z")] {
								let want = m.iter().any(|(k, _)| k == has);
								if root.find(q).length() != want as usize {
									return Some(format!("find({q:?}), expected {want}"));
								}
							}
							None
						})
					});
					if !ctx.live() {
						return;
					}
				}
			}
		}
	}
}
