//! C24: a selector string means what it spells.
use crate::engine::Ctx;
use crate::model::*;
use crate::sel::*;
use visdom::types::{BoxDynElement, Elements};

/// An independent parser of the documented selector syntax; None for strings it does not promise anything about.
struct P<'s> {
	c: &'s [char],
	i: usize,
}
const KEYWORDS: [&str; 12] = [
	":root", ":empty", ":first-child", ":last-child", ":only-child", ":first-of-type", ":last-of-type", ":only-of-type", ":checked", ":header",
	":input", ":submit",
];
fn is_ws(c: char) -> bool {
	matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c')
}
impl<'s> P<'s> {
	fn peek(&self) -> Option<char> {
		self.c.get(self.i).copied()
	}
	fn eat(&mut self, c: char) -> Option<()> {
		(self.peek() == Some(c)).then(|| self.i += 1)
	}
	fn ws(&mut self) -> bool {
		let s = self.i;
		while self.peek().is_some_and(is_ws) {
			self.i += 1;
		}
		self.i > s
	}
	fn ident(&mut self) -> Option<String> {
		let f = self.peek()?;
		if !(f.is_ascii_alphabetic() || f == '_') {
			return None;
		}
		let mut s = String::new();
		while let Some(c) = self.peek() {
			if c.is_ascii_alphanumeric() || c == '-' || c == '_' {
				s.push(c);
				self.i += 1;
			} else if c == '\\' {
				// the next character is taken literally
				self.i += 1;
				s.push(self.peek()?);
				self.i += 1;
			} else {
				break;
			}
		}
		Some(s)
	}
	fn until(&mut self, end: impl Fn(char) -> bool) -> Option<String> {
		let mut s = String::new();
		while let Some(c) = self.peek() {
			if end(c) {
				break;
			}
			// not promised inside values
			if matches!(c, '\\' | '\n' | '\r' | '\x0c') {
				return None;
			}
			s.push(c);
			self.i += 1;
		}
		Some(s)
	}
	fn value(&mut self, close: char) -> Option<String> {
		match self.peek()? {
			q @ ('"' | '\'') => {
				self.i += 1;
				let s = self.until(|c| c == q)?;
				self.eat(q)?;
				Some(s)
			}
			_ => {
				let s = self.until(|c| c == close || c.is_whitespace() || "'\"<>/=`".contains(c))?;
				(!s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_')).then_some(s)
			}
		}
	}
	fn attr(&mut self) -> Option<Simple> {
		self.eat('[')?;
		self.ws();
		let name = self.until(|c| !(c.is_ascii_alphanumeric() || c == '-' || c == '_'))?;
		if !name.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') {
			return None;
		}
		self.ws();
		if self.eat(']').is_some() {
			return Some(Simple::Attr(name, "", String::new()));
		}
		let op = ["=", "!=", "^=", "$=", "*=", "~=", "|="].into_iter().find(|o| self.c[self.i..].starts_with(&o.chars().collect::<Vec<_>>()))?;
		self.i += op.len();
		self.ws();
		let v = self.value(']')?;
		self.ws();
		self.eat(']')?;
		Some(Simple::Attr(name, op, v))
	}
	fn pseudo(&mut self) -> Option<Simple> {
		let s = self.i;
		self.i += 1;
		while matches!(self.peek(), Some(c) if c.is_ascii_alphanumeric() || c == '-' || c == '_') {
			self.i += 1;
		}
		let name: String = self.c[s..self.i].iter().collect();
		if let Some(k) = KEYWORDS.iter().find(|k| **k == name) {
			return (self.peek() != Some('(')).then_some(Simple::Kw(k));
		}
		self.eat('(')?;
		self.ws();
		let r = match name.as_str() {
			":not" | ":has" => {
				let l = self.list(true)?;
				if name == ":not" {
					Simple::Not(l)
				} else {
					Simple::Has(l)
				}
			}
			":contains" => Simple::Contains(self.value(')')?),
			":nth-child" | ":nth-last-child" | ":nth-of-type" | ":nth-last-of-type" => {
				let a = self.until(|c| c == ')')?;
				let (a, b) = nth(a.trim_matches(is_ws))?;
				Simple::Nth(name.contains("last"), name.ends_with("of-type"), a, b)
			}
			_ => return None,
		};
		self.ws();
		self.eat(')')?;
		Some(r)
	}
	fn compound(&mut self) -> Option<Compound> {
		let mut v = vec![];
		loop {
			v.push(match self.peek() {
				Some('*') if v.is_empty() => {
					self.i += 1;
					Simple::Any
				}
				Some('.') => {
					self.i += 1;
					Simple::Class(self.ident()?)
				}
				Some('#') => {
					self.i += 1;
					Simple::Id(self.ident()?)
				}
				Some('[') => self.attr()?,
				Some(':') => self.pseudo()?,
				Some(c) if v.is_empty() && (c.is_ascii_alphabetic() || c == '_') => Simple::Tag(self.ident()?),
				Some(c) if is_ws(c) || ",>+~)".contains(c) => break,
				None => break,
				_ => return None,
			});
		}
		(!v.is_empty()).then_some(v)
	}
	fn comb(&mut self) -> Option<Comb> {
		let c = match self.peek()? {
			'>' => Comb::Child,
			'+' => Comb::Adj,
			'~' => Comb::Sib,
			_ => return None,
		};
		self.i += 1;
		Some(c)
	}
	fn list(&mut self, nested: bool) -> Option<Sel> {
		let mut out = vec![];
		loop {
			self.ws();
			let lead = self.comb();
			if lead.is_some() && (nested || !out.is_empty()) {
				return None;
			}
			self.ws();
			let mut c = Complex { lead, first: self.compound()?, rest: vec![] };
			loop {
				let sp = self.ws();
				if let Some(x) = self.comb() {
					self.ws();
					c.rest.push((x, self.compound()?));
					continue;
				}
				match self.peek() {
					None | Some(',' | ')') => break,
					_ if sp => c.rest.push((Comb::Desc, self.compound()?)),
					_ => return None,
				}
			}
			out.push(c);
			match self.peek() {
				Some(',') => self.i += 1,
				Some(')') if nested => return Some(Sel(out)),
				None if !nested => return Some(Sel(out)),
				_ => return None,
			}
		}
	}
}
fn nth(a: &str) -> Option<(i64, i64)> {
	if a == "odd" {
		return Some((2, 1));
	}
	if a == "even" {
		return Some((2, 0));
	}
	let num = |s: &str| -> Option<i64> {
		(!s.is_empty() && s.len() <= 4 && s.chars().all(|c| c.is_ascii_digit()) && (s.len() == 1 || !s.starts_with('0'))).then(|| s.parse().unwrap())
	};
	let sign = |s: &str| -> (i64, usize) {
		match s.chars().next() {
			Some('-') => (-1, 1),
			Some('+') => (1, 1),
			_ => (1, 0),
		}
	};
	let (s, k) = sign(a);
	let body = &a[k..];
	match body.split_once('n') {
		None => Some((0, s * num(body)?)),
		Some((x, y)) => {
			let x = if x.is_empty() { 1 } else { num(x)? };
			let y = y.trim_matches(is_ws);
			if y.is_empty() {
				return Some((s * x, 0));
			}
			let (t, k) = sign(y);
			if k == 0 {
				return None;
			}
			Some((s * x, t * num(y[1..].trim_start_matches(is_ws))?))
		}
	}
}
pub fn parse(s: &str) -> Option<Sel> {
	let c: Vec<char> = s.chars().collect();
	P { c: &c, i: 0 }.list(false)
}

struct Doc {
	tree: Tree,
	root: Elements<'static>,
	all: Vec<BoxDynElement<'static>>,
	/// a start set for relative searches
	from: Mask,
}
fn doc(tree: Tree, from: Mask) -> Doc {
	let root = load(&tree.html());
	let all = real_elements(&root.get(0).unwrap().cloned());
	assert_eq!(all.len(), View::new(&tree).n(), "harness: document");
	Doc { tree, root, all, from }
}

fn one(ctx: &mut Ctx, d: &Doc, v: &View, s: &str) -> bool {
	let Some(sel) = parse(s) else { return true };
	ctx.state(&s);
	ctx.stats.traces += 1;
	let m = sel.find(v, Start { root: true, set: 0 });
	if m != 0 && m != v.all() {
		ctx.stats.nonempty += 1;
	}
	if !ctx.expect(|| format!("find({s:?})"), &mask_vec(m), || marks(&d.root.find(s))) {
		return false;
	}
	let m = sel.find(v, Start { root: false, set: d.from });
	if !ctx.expect(|| format!("{:?}.find({s:?})", mask_vec(d.from)), &mask_vec(m), || marks(&subset(&d.all, d.from).find(s))) {
		return false;
	}
	if sel.0[0].lead.is_none() {
		let m = sel.matched_in_doc(v);
		if !ctx.expect(|| format!("all.filter({s:?})"), &mask_vec(m), || marks(&subset(&d.all, v.all()).filter(s))) {
			return false;
		}
	}
	ctx.live()
}

/// all strings of exactly `len` pieces
fn family(ctx: &mut Ctx, d: &Doc, name: &str, pre: &str, pieces: &[&str], len: usize, post: &str) {
	let v = View::new(&d.tree);
	let split = len.min(2);
	for w in words(split, pieces.len()) {
		if !ctx.case(|| format!("{name}: {len} pieces starting with {:?}", w.iter().map(|&i| pieces[i]).collect::<Vec<_>>())) {
			if !ctx.live() {
				return;
			}
			continue;
		}
		let head: String = pre.chars().chain(w.iter().flat_map(|&i| pieces[i].chars())).collect();
		for rest in words(len - split, pieces.len()) {
			let mut s = head.clone();
			for &i in &rest {
				s.push_str(pieces[i]);
			}
			s.push_str(post);
			if !one(ctx, d, &v, &s) {
				return;
			}
		}
	}
}

fn structure() -> Doc {
	let mut t = Tree::new();
	let mut k = 0;
	let mut add = |t: &mut Tree, p: usize, tag: &str, at: &[(&str, &str)]| {
		let m = k.to_string();
		k += 1;
		let mut a: Vec<(&str, &str)> = at.to_vec();
		a.push(("k", &m));
		t.elem(p, tag, &a)
	};
	let a = add(&mut t, 0, "a", &[("class", "x"), ("id", "i")]);
	let b = add(&mut t, a, "b", &[("t", "1")]);
	t.text(b, "a");
	add(&mut t, b, "i", &[]);
	add(&mut t, a, "b", &[("class", "x y")]);
	let c = add(&mut t, a, "a", &[("t", "1 2")]);
	let e = add(&mut t, c, "b", &[]);
	t.text(e, "ab");
	add(&mut t, a, "a", &[("class", "y"), ("t", "")]);
	add(&mut t, 0, "b", &[("id", "j"), ("t", "12")]);
	add(&mut t, 0, "a", &[("class", "X")]);
	doc(t, 0b1011)
}

/// three levels, three siblings each at the lower ones
fn deep() -> Doc {
	fn fill(t: &mut Tree, p: usize, level: usize, k: &mut usize) {
		for i in 0..3 {
			let m = k.to_string();
			let tag = ["a", "b"][(level + i) % 2];
			let mut at: Vec<(&str, &str)> = vec![];
			if *k % 3 == 1 {
				at.push(("class", "x"));
			}
			if *k % 4 == 2 {
				at.push(("t", "1"));
			}
			if *k == 5 {
				at.push(("id", "i"));
			}
			at.push(("k", &m));
			*k += 1;
			let e = t.elem(p, tag, &at);
			if level < 2 && (level == 0 || i != 1) {
				fill(t, e, level + 1, k);
			} else if i == 1 {
				t.text(e, "a");
			}
		}
	}
	let mut t = Tree::new();
	fill(&mut t, 0, 0, &mut 0);
	// every second element, outer and inner ones
	doc(t, 0x15555)
}

/// one element per name, as class, as id, and the combinations the unescaped spelling would stand for
fn names(chars: &[&str], max: usize) -> Doc {
	let mut t = Tree::new();
	let p = t.elem(0, "p", &[("k", "0")]);
	let mut n = 0;
	for len in 0..=max {
		for w in words(len, chars.len()) {
			let s: String = std::iter::once("a").chain(w.iter().map(|&i| chars[i])).collect();
			n += 1;
			if n > 56 {
				continue;
			}
			t.elem(p, if s.len() % 2 == 0 { "a" } else { "b" }, &[("class", &s), ("id", &s), ("k", &n.to_string())]);
		}
	}
	doc(t, 0b1)
}

pub fn run(ctx: &mut Ctx) {
	crate::big::long_selectors(ctx);
	if !ctx.live() {
		return;
	}
	let d = structure();
	// A: structure and white space
	let toks = ["a", "b", ".x", "#i", "*", " ", "\t", "\n", ">", "+", "~", ",", "[t]", ":first-child", ":not(", ":has(", ")"];
	let n = ctx.tier.pick(6, 7);
	ctx.bound(format!("A: all strings of <= {n} tokens over {} (names, combinators, white space, groups, nesting) that are selectors", toks.len()));
	for len in 1..=n {
		family(ctx, &d, "A", "", &toks, len, "");
		if !ctx.live() {
			return;
		}
	}
	let toks2 = ["a", "*", ".x", " ", ">", "+", "~", ",", ":not(", ":has(", ")", ":nth-child(2)", ":last-of-type", ":contains(a)", ":empty", "[t]"];
	let n = ctx.tier.pick(5, 6);
	ctx.bound(format!("A2: the same with <= {n} tokens over {}, and both alphabets on a document of three nested levels", toks2.len()));
	let deep = deep();
	for len in 1..=n {
		for (d, t) in [(&d, &toks2[..]), (&deep, &toks2[..]), (&deep, &toks[..])] {
			family(ctx, d, "A2", "", t, len, "");
			if !ctx.live() {
				return;
			}
		}
	}
	// B: attribute tests
	let toks = ["t", "T", "1", "2", "=", "~=", "^=", "$=", "*=", "|=", "!=", "\"", "'", " ", "\n", "]"];
	let n = ctx.tier.pick(5, 6);
	ctx.bound(format!("B: `[` and all strings of <= {n} tokens over {} (name, operators, quotes, blanks), alone, before `]` and inside :not()", toks.len()));
	for len in 1..=n {
		for (pre, post) in [("[", "]"), ("b[", "]>*"), ("a:not([", "])")] {
			family(ctx, &d, "B", pre, &toks, len, post);
			if !ctx.live() {
				return;
			}
		}
	}
	// C: positions
	let toks = ["n", "2", "1", "0", "3", "+", "-", " ", "\t", "odd", "even"];
	let n = ctx.tier.pick(6, 7);
	ctx.bound(format!("C: all strings of <= {n} tokens over {} as argument of the four positional functions", toks.len()));
	for len in 1..=n {
		for (pre, post) in [(":nth-child(", ")"), ("a>:nth-last-child(", ")"), ("*:nth-of-type(", ")"), (":not(:nth-last-of-type(", "))")] {
			family(ctx, &d, "C", pre, &toks, len, post);
			if !ctx.live() {
				return;
			}
		}
	}
	// D: contents
	let toks = ["a", "b", "\"", "'", " ", ")", "(", ",", "]"];
	let n = ctx.tier.pick(6, 7);
	ctx.bound(format!("D: all strings of <= {n} tokens over {} behind `:contains(`, alone and nested", toks.len()));
	for len in 1..=n {
		for (pre, post) in [(":contains(", ")"), ("a:has(:contains(", "))"), ("b:not(:contains(", ")),#j")] {
			family(ctx, &d, "D", pre, &toks, len, post);
			if !ctx.live() {
				return;
			}
		}
	}
	// E: names with escaped characters
	let groups: [&[&str]; 5] = [&[".", "#", "a", "-"], &[")", "(", ":", "b"], &[">", ",", "+", "~"], &["[", "]", "=", "1"], &["\\", "*", "é", "/"]];
	let n = ctx.tier.pick(6, 7);
	ctx.bound(format!("E: {} documents with one element per class and id of <= 3 characters over 4-character alphabets, all strings of <= {n} tokens over those characters, `\\`, space, ) and > behind 7 beginnings", groups.len()));
	for g in groups {
		let d = names(g, 2);
		let mut toks: Vec<&str> = g.to_vec();
		for x in ["\\", " ", ")", ">", "a"] {
			if !toks.contains(&x) {
				toks.push(x);
			}
		}
		for len in 0..=n {
			for (pre, post) in [(".a", ""), ("#a", ""), ("p>b.a", ""), ("b:not(.a", ")"), ("p:has(#a", ") a"), (".a\\", ",#a"), ("p #a", "+*")] {
				family(ctx, &d, "E", pre, &toks, len, post);
				if !ctx.live() {
					return;
				}
			}
		}
	}
	tags(ctx);
	if ctx.live() {
		letters(ctx);
	}
	// the other kinds of white space
	let toks = ["a", ".x", "\r", "\x0c", ">", "~", ",", ":not(", ":nth-child(2n", "+1", ")", "[t", "='1'", "]"];
	let n = ctx.tier.pick(5, 6);
	ctx.bound(format!("H: all strings of <= {n} tokens over {toks:?} that are selectors"));
	for len in 1..=n {
		family(ctx, &d, "H", "", &toks, len, "");
		if !ctx.live() {
			return;
		}
	}
}

/// every character in names
fn letters(ctx: &mut Ctx) {
	let cs = chars();
	ctx.bound(format!("G: {} characters (all of ASCII and {} others) escaped behind, between and twice behind letters in class and id names, plain where names allow them, and letters and digits outside ASCII in attribute names; every neighbour present", cs.len(), cs.len() - 128));
	for c in cs {
		if !ctx.case(|| format!("G: character {c:?}")) {
			if !ctx.live() {
				return;
			}
			continue;
		}
		let q = if c == '"' { '\'' } else { '"' };
		let mut t = Tree::new();
		let mut html = String::new();
		let mut vals: Vec<String> = around(c)[1..].to_vec();
		vals.extend([format!("x{c}{c}"), format!("x {c}y"), "x".into(), "xy".into(), "x\\".into()]);
		let attr = c.is_alphanumeric() && !c.is_ascii();
		for (i, v) in vals.iter().enumerate() {
			for (j, key) in ["class", "id"].into_iter().enumerate() {
				let k = (i * 2 + j).to_string();
				t.elem(0, "p", &[("k", &k), (key, v)]);
				html += &format!("<p k=\"{k}\" {key}={q}{v}{q}></p>");
			}
		}
		if attr {
			for (i, name) in [format!("x{c}"), format!("{c}"), format!("x{c}y"), "x".to_string(), "xy".into()].into_iter().enumerate() {
				let k = (vals.len() * 2 + i).to_string();
				t.elem(0, "p", &[("k", &k), (&name, "1")]);
				html += &format!("<p k=\"{k}\" {name}=\"1\"></p>");
			}
		}
		let root = load(&html);
		let all = real_elements(&root.get(0).unwrap().cloned());
		if all.len() != t.elements().len() {
			ctx.fail("load", "other elements than in the markup");
			return;
		}
		let d = Doc { tree: t, root, all, from: 0 };
		let v = View::new(&d.tree);
		for pre in [".", "#"] {
			for n in [format!("x\\{c}"), format!("x\\{c}y"), format!("x\\{c}\\{c}"), format!("x{c}"), format!("x{c}y"), format!("\\x\\{c}")] {
				for s in [format!("{pre}{n}"), format!("p{pre}{n}"), format!(":not({pre}{n})"), format!("{pre}{n},{pre}xy"), format!("{pre}{n}+p"), format!("*>{pre}{n}")] {
					if !one(ctx, &d, &v, &s) {
						return;
					}
				}
			}
		}
		if attr {
			for n in [format!("x{c}"), format!("{c}"), format!("x{c}y"), format!("X{c}Y")] {
				for (s, w) in [(format!("[{n}]"), ""), (format!("p[{n}='1']"), "="), (format!("[{n} = 2]"), "2")] {
					let m: Mask = (0..v.n()).filter(|&e| d.tree.attr(v.ids[e], &n.to_ascii_lowercase()).is_some() && w != "2").fold(0, |m, e| m | 1 << e);
					if !(ctx.expect(|| format!("find({s:?})"), &mask_vec(m), || marks(&d.root.find(&s))) && ctx.expect(|| format!("all.filter({s:?})"), &mask_vec(m), || marks(&subset(&d.all, v.all()).filter(&s)))) {
						return;
					}
				}
			}
		}
	}
}

/// tag names with unusual characters, in any letter case
fn tags(ctx: &mut Ctx) {
	let chars = ["a", "B", "-", ":", "1", ".", "_"];
	let max = ctx.tier.pick(2, 3);
	ctx.bound(format!("F: documents with one element per tag name a + <= {max} characters over {chars:?}, every such name as selector, plain or escaped, in both letter cases, with every neighbour present"));
	let all: Vec<String> = (0..=max).flat_map(|l| words(l, chars.len()).map(|w| std::iter::once("a").chain(w.iter().map(|&i| chars[i])).collect()).collect::<Vec<String>>()).collect();
	for chunk in all.chunks(50) {
		let mut t = Tree::new();
		let p = t.elem(0, "p", &[("k", "0")]);
		for (i, s) in chunk.iter().enumerate() {
			t.elem(p, s, &[("k", &(i + 1).to_string())]);
		}
		let d = doc(t, 1);
		let v = View::new(&d.tree);
		for s in &all {
			if !ctx.case(|| format!("F: tag {s:?} among {:?}..", chunk[0])) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			let full: String = s.chars().enumerate().map(|(i, c)| if i > 0 { format!("\\{c}") } else { c.to_string() }).collect();
			let need: String = s.chars().map(|c| if c.is_ascii_alphanumeric() || c == '-' || c == '_' { c.to_string() } else { format!("\\{c}") }).collect();
			for n in [full.clone(), need.clone(), full.to_uppercase(), need.to_lowercase()] {
				for q in [n.clone(), format!("p>{n}"), format!("p {n}[k]"), format!("p>:not({n})"), format!("p:has({n})"), format!("{n},p"), format!("{n}+{n}"), format!("{n}~*")] {
					if !one(ctx, &d, &v, &q) {
						return;
					}
				}
			}
		}
	}
}
