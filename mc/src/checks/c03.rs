//! C03: attribute operators.
use crate::engine::Ctx;
use crate::model::*;
use crate::sel::attr_rel;

const OPS: [&str; 7] = ["=", "!=", "^=", "$=", "*=", "~=", "|="];

fn strings(alpha: &[char], max: usize) -> Vec<String> {
	let mut v = vec![String::new()];
	let mut last = v.clone();
	for _ in 0..max {
		let mut next = vec![];
		for s in &last {
			for c in alpha {
				next.push(format!("{s}{c}"));
			}
		}
		v.extend(next.iter().cloned());
		last = next;
	}
	v
}

pub fn run(ctx: &mut Ctx) {
	let vlen = ctx.tier.pick(4, 5);
	let wlen = ctx.tier.pick(2, 3);
	let alpha = ['a', '-', ' ', 'A'];
	let mut values: Vec<Option<Option<String>>> = vec![None, Some(None)];
	values.extend(strings(&alpha, vlen).into_iter().map(|s| Some(Some(s))));
	for s in ["é", "aé", "&amp;", "a>b", "a]b", "a'b", "x\ty", "x\ny", "中-文", "a.b", "1", "a=b", "a b c a-b"] {
		values.push(Some(Some(s.into())));
	}
	let mut operands = strings(&alpha, wlen);
	for s in ["é", "a>b", "a]b", "]", "中", "a.b", "1", "a=b", "a b", "b c", "a-b", "x", "y", "a'b", ")", ",", "a,b", ">", "c a"] {
		operands.push(s.into());
	}
	ctx.bound(format!(
		"{} attribute states (absent, flag, all strings of length <= {vlen} over {{a,-,space,A}}, special values) x 7 operators x {} operands x quoting styles x name case x spacing",
		values.len(),
		operands.len()
	));
	// group the values into documents of 40 elements: one find answers 40 states
	for chunk in values.chunks(40) {
		let mut t = Tree::new();
		let mut w = Tree::new();
		for (i, val) in chunk.iter().enumerate() {
			let mk = |t: &mut Tree, name: &str| {
				let mut attrs = vec![("k".to_string(), Some(i.to_string()))];
				match val {
					None => {}
					Some(None) => attrs.push((name.into(), None)),
					Some(Some(s)) => attrs.push((name.into(), Some(s.clone()))),
				}
				attrs.push(("z".into(), Some("a".into())));
				t.add(0, Kind::Elem("p".into(), attrs));
			};
			mk(&mut t, "t");
			mk(&mut w, "data-T");
		}
		for (t, name, names) in [(&t, "t", ["t", "T"]), (&w, "data-T", ["data-t", "DATA-T"])] {
			let html = t.html();
			if !ctx.case(|| format!("html={html:?}")) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			for c in t.elements() {
				ctx.state(&(name, t.outer(c)));
			}
			let v = View::new(t);
			let root = load(&html);
			let r0 = root.get(0).unwrap().cloned();
			if let Some(d) = diff_tree(t, &r0) {
				ctx.fail("load", &d);
				return;
			}
			let all = real_elements(&r0);
			let every = subset(&all, v.all());
			ctx.stats.traces += chunk.len() as u64;
			let want = |op: &str, w: &str| -> Vec<usize> {
				(0..v.n()).filter(|&e| attr_rel(t.attr(v.ids[e], name), op, w)).collect()
			};
			for nm in names {
				for txt in [format!("[{nm}]"), format!("[ {nm}\t]"), format!("p[{nm}]")] {
					let wv = want("", "");
					if !ctx.expect(|| format!("find({txt:?})"), &wv, || marks(&root.find(&txt))) {
						return;
					}
				}
			}
			for op in OPS {
				for w in &operands {
					let wv = want(op, w);
					if !wv.is_empty() {
						ctx.stats.nonempty += 1;
					}
					let mut spell = vec![];
					let nm = names[0];
					if !w.contains('"') {
						spell.push(format!("[{nm}{op}\"{w}\"]"));
						spell.push(format!("[ {} {op} \"{w}\" ]", names[1]));
					}
					if !w.contains('\'') {
						spell.push(format!("[{nm}{op}'{w}']"));
					}
					if !w.is_empty() && !w.chars().any(|c| c.is_whitespace() || "]'\"<>/=`".contains(c)) {
						spell.push(format!("[{nm}{op}{w}]"));
					}
					for txt in spell {
						if !(ctx.expect(|| format!("find({txt:?})"), &wv, || marks(&root.find(&txt)))
							&& ctx.expect(|| format!("all.filter({txt:?})"), &wv, || marks(&every.filter(&txt))))
						{
							return;
						}
					}
				}
			}
		}
	}
	if ctx.live() {
		large(ctx);
	}
	if ctx.live() {
		letters(ctx);
	}
}

/// long values, long operands, many attributes
fn large(ctx: &mut Ctx) {
	let sizes: Vec<usize> = ctx.tier.pick(vec![17, 70, 270, 5000], vec![17, 33, 70, 140, 270, 1100, 5000, 70000]);
	ctx.bound(format!("long: values of {sizes:?} characters (one letter, words, dashed, differing at one place) x 7 operators x operands that are the whole, its start, end and middle; elements with as many attributes"));
	for &n in &sizes {
		let rep = |s: &str| s.repeat(n).chars().take(n).collect::<String>();
		let diff = |at: usize| rep("a").chars().enumerate().map(|(i, c)| if i == at { 'b' } else { c }).collect::<String>();
		let values = vec![rep("a"), diff(0), diff(n / 2), diff(n - 1), rep("a b-c "), rep("ab-"), rep("ab c ") + "z", "z ".to_string() + &rep("c ab "), "z-".to_string() + &rep("q"), rep("é-")];
		let mut ops: Vec<String> = vec![];
		for v in &values {
			let c: Vec<char> = v.chars().collect();
			let l = c.len();
			for (a, b) in [(0, l), (0, l - 1), (1, l), (0, l / 2), (l / 2, l), (l / 4, 3 * l / 4), (0, 1), (l - 1, l)] {
				let s: String = c[a..b].iter().collect();
				if !ops.contains(&s) {
					ops.push(s);
				}
			}
			ops.push(format!("{v}x"));
		}
		ops.extend(["z", "ab", "b-c"].map(|s| s.to_string()));
		let mut t = Tree::new();
		for (i, v) in values.iter().enumerate() {
			let mut attrs = vec![("k".to_string(), Some(i.to_string()))];
			for j in 0..if n > 300 { 3 } else { n } {
				attrs.push((format!("d{j}"), Some(format!("{}", j % 7))));
			}
			attrs.push(("t".into(), Some(v.clone())));
			t.add(0, Kind::Elem("p".into(), attrs));
		}
		if !ctx.case(|| format!("values of {n} characters")) {
			continue;
		}
		let html = t.html();
		ctx.state(&html);
		let root = load(&html);
		let r0 = root.get(0).unwrap().cloned();
		if let Some(d) = diff_tree(&t, &r0) {
			ctx.fail("load", &d);
			return;
		}
		let v = View::new(&t);
		let every = subset(&real_elements(&r0), v.all());
		ctx.stats.traces += values.len() as u64;
		for op in OPS {
			for w in &ops {
				let want: Vec<usize> = (0..v.n()).filter(|&e| attr_rel(t.attr(v.ids[e], "t"), op, w)).collect();
				ctx.stats.nonempty += !want.is_empty() as u64;
				let txt = format!("[t{op}\"{w}\"]");
				if !(ctx.expect(|| format!("find({txt:?})"), &want, || marks(&root.find(&txt))) && ctx.expect(|| format!("all.filter({txt:?})"), &want, || marks(&every.filter(&txt)))) {
					return;
				}
			}
		}
		for j in [0, 1, 2, n / 2, n - 1, n] {
			let has = j < if n > 300 { 3 } else { n };
			let want: Vec<usize> = if has { (0..v.n()).collect() } else { vec![] };
			for txt in [format!("[d{j}]"), format!("[d{j}='{}']", j % 7)] {
				if !ctx.expect(|| format!("find({txt:?})"), &want, || marks(&root.find(&txt))) {
					return;
				}
			}
		}
	}
}

/// every character in values and operands: only ASCII white space separates words
fn letters(ctx: &mut Ctx) {
	let cs = chars();
	ctx.bound(format!("{} characters (all of ASCII and {} others) alone, before, after and between letters, as value and as operand x 7 operators x quotes", cs.len(), cs.len() - 128));
	for c in cs {
		let mut values: Vec<String> = around(c).to_vec();
		values.extend([format!("x {c} y"), format!("{c}-x"), format!("x-{c}"), format!("x{c} y"), "x".into(), "x y".into(), "x-y".into(), "".into()]);
		let mut operands: Vec<String> = around(c).to_vec();
		operands.extend([format!("{c}{c}"), format!("x-{c}"), "x".into(), "y".into()]);
		// a line break or a lone backslash has no plain spelling in a quoted operand
		operands.retain(|w| !w.contains(['\n', '\r', '\x0c', '\\']));
		let mut t = Tree::new();
		for (i, v) in values.iter().enumerate() {
			t.add(0, Kind::Elem("p".into(), vec![("k".to_string(), Some(i.to_string())), ("t".into(), Some(v.clone()))]));
		}
		if !ctx.case(|| format!("character {c:?}")) {
			if !ctx.live() {
				return;
			}
			continue;
		}
		let q = if c == '"' { '\'' } else { '"' };
		let html: String = values.iter().enumerate().map(|(i, v)| format!("<p k=\"{i}\" t={q}{v}{q}></p>")).collect();
		ctx.state(&html);
		let root = load(&html);
		let r0 = root.get(0).unwrap().cloned();
		if let Some(d) = diff_tree(&t, &r0) {
			ctx.fail("load", &d);
			return;
		}
		let v = View::new(&t);
		let every = subset(&real_elements(&r0), v.all());
		ctx.stats.traces += values.len() as u64;
		for op in OPS {
			for w in &operands {
				let want: Vec<usize> = (0..v.n()).filter(|&e| attr_rel(t.attr(v.ids[e], "t"), op, w)).collect();
				ctx.stats.nonempty += !want.is_empty() as u64;
				for q in ['"', '\''] {
					if c == q {
						continue;
					}
					let txt = format!("[t{op}{q}{w}{q}]");
					if !(ctx.expect(|| format!("find({txt:?})"), &want, || marks(&root.find(&txt))) && ctx.expect(|| format!("all.filter({txt:?})"), &want, || marks(&every.filter(&txt)))) {
						return;
					}
				}
			}
		}
	}
}
