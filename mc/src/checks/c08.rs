//! C08: every selector string is answered or rejected cleanly.
use crate::engine::{guard, Ctx};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use visdom::types::Elements;
use visdom::Vis;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
	Accept,
	Reject,
	/// outside the documented syntax and outside the definitely malformed: either answer is fine
	Either,
}

struct P<'s> {
	c: &'s [char],
	i: usize,
}
enum Stop {
	Reject,
	Either,
}
type R = Result<(), Stop>;

const KEYWORDS: [&str; 12] = [
	"root", "empty", "first-child", "last-child", "only-child", "first-of-type", "last-of-type", "only-of-type", "checked", "header",
	"input", "submit",
];
const NTH: [&str; 4] = ["nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"];

impl<'s> P<'s> {
	fn peek(&self) -> Option<char> {
		self.c.get(self.i).copied()
	}
	fn ws(&mut self) -> bool {
		let s = self.i;
		while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r' | '\x0c')) {
			self.i += 1;
		}
		self.i > s
	}
	fn ident(&mut self) -> R {
		match self.peek() {
			Some(c) if c.is_ascii_alphabetic() || c == '_' => {}
			// spellings CSS knows and the library does not promise
			Some(c) if c == '-' || c == '\\' || !c.is_ascii() => return Err(Stop::Either),
			_ => return Err(Stop::Reject),
		}
		while let Some(c) = self.peek() {
			if c.is_ascii_alphanumeric() || c == '-' || c == '_' {
				self.i += 1;
			} else if c == '\\' {
				return Err(Stop::Either);
			} else {
				break;
			}
		}
		Ok(())
	}
	fn quoted(&mut self, q: char) -> R {
		self.i += 1;
		loop {
			match self.peek() {
				None => return Err(Stop::Reject),
				Some('\\' | '\n' | '\r' | '\x0c') => return Err(Stop::Either),
				Some(c) => {
					self.i += 1;
					if c == q {
						return Ok(());
					}
				}
			}
		}
	}
	fn attr(&mut self) -> R {
		self.i += 1;
		self.ws();
		let s = self.i;
		while let Some(c) = self.peek() {
			if c.is_ascii_alphanumeric() || "_-.:".contains(c) {
				self.i += 1;
			} else if !c.is_ascii() || c == '\\' {
				return Err(Stop::Either);
			} else {
				break;
			}
		}
		if self.i == s {
			return Err(Stop::Reject);
		}
		let odd_key = !(self.c[s].is_ascii_alphabetic() || self.c[s] == '_') || self.c[s..self.i].iter().any(|c| *c == '.' || *c == ':');
		self.ws();
		if self.peek() != Some(']') {
			if matches!(self.peek(), Some('*' | '^' | '$' | '~' | '|' | '!')) {
				self.i += 1;
			}
			if self.peek() != Some('=') {
				return Err(Stop::Reject);
			}
			self.i += 1;
			self.ws();
			match self.peek() {
				Some(q @ ('"' | '\'')) => self.quoted(q)?,
				Some(_) => {
					let s = self.i;
					let mut odd = false;
					while let Some(c) = self.peek() {
						if c.is_whitespace() || "]'\"<>/=`".contains(c) {
							break;
						}
						odd |= !(c.is_ascii_alphanumeric() || c == '_' || c == '-');
						self.i += 1;
					}
					if self.i == s {
						return Err(Stop::Reject);
					}
					if odd {
						return Err(Stop::Either);
					}
				}
				None => return Err(Stop::Reject),
			}
			self.ws();
			if self.peek() != Some(']') {
				return Err(Stop::Reject);
			}
		}
		self.i += 1;
		if odd_key {
			return Err(Stop::Either);
		}
		Ok(())
	}
	fn close(&mut self) -> R {
		self.ws();
		if self.peek() == Some(')') {
			self.i += 1;
			Ok(())
		} else {
			Err(Stop::Reject)
		}
	}
	fn pseudo(&mut self) -> R {
		self.i += 1;
		let s = self.i;
		while matches!(self.peek(), Some(c) if c.is_ascii_alphanumeric() || c == '-' || c == '_') {
			self.i += 1;
		}
		let name: String = self.c[s..self.i].iter().collect();
		if KEYWORDS.contains(&name.as_str()) {
			if self.peek() == Some('(') {
				return Err(Stop::Reject);
			}
			return Ok(());
		}
		let fun = NTH.contains(&name.as_str()) || ["not", "has", "contains"].contains(&name.as_str());
		if !fun || self.peek() != Some('(') {
			// a keyword directly followed by a name
			if KEYWORDS.iter().any(|k| name.starts_with(k)) || name.chars().any(|c| c.is_ascii_uppercase()) {
				return Err(Stop::Either);
			}
			return Err(Stop::Reject);
		}
		self.i += 1;
		self.ws();
		if name == "contains" {
			match self.peek() {
				Some(q @ ('"' | '\'')) => self.quoted(q)?,
				_ => {
					while let Some(c) = self.peek() {
						if c == '\\' || !c.is_ascii() {
							return Err(Stop::Either);
						}
						if c == ')' || c.is_whitespace() || "'\"<>/=`".contains(c) {
							break;
						}
						self.i += 1;
					}
				}
			}
			return self.close();
		}
		if name == "not" || name == "has" {
			if self.peek() == Some(')') {
				return Err(Stop::Either);
			}
			if matches!(self.peek(), Some('>' | '+' | '~')) {
				return Err(Stop::Either);
			}
			self.list(true)?;
			return self.close();
		}
		// An+B
		let s = self.i;
		while let Some(c) = self.peek() {
			if c == ')' {
				break;
			}
			if !(c.is_ascii_digit() || "n+-evod \t\n\r\x0c".contains(c)) {
				return if c.is_ascii_uppercase() { Err(Stop::Either) } else { Err(Stop::Reject) };
			}
			self.i += 1;
		}
		if self.peek().is_none() {
			return Err(Stop::Reject);
		}
		let a: String = self.c[s..self.i].iter().collect();
		self.i += 1;
		match nth(a.trim_matches([' ', '\t', '\n', '\r', '\x0c'])) {
			Verdict::Accept => Ok(()),
			Verdict::Reject => Err(Stop::Reject),
			Verdict::Either => Err(Stop::Either),
		}
	}
	fn compound(&mut self) -> R {
		let mut n = 0;
		loop {
			match self.peek() {
				Some('*') => {
					if n > 0 {
						return Err(Stop::Either);
					}
					self.i += 1
				}
				Some('.' | '#') => {
					self.i += 1;
					self.ident()?
				}
				Some('[') => self.attr()?,
				Some(':') => self.pseudo()?,
				Some(c) if c.is_ascii_alphabetic() || c == '_' => {
					// a tag name behind another part is not CSS
					if n > 0 {
						return Err(Stop::Either);
					}
					self.ident()?
				}
				Some(c) if c == '\\' || !c.is_ascii() => return Err(Stop::Either),
				_ => break,
			}
			n += 1;
		}
		if n == 0 {
			Err(Stop::Reject)
		} else {
			Ok(())
		}
	}
	fn list(&mut self, nested: bool) -> R {
		self.ws();
		if !nested && matches!(self.peek(), Some('>' | '+' | '~')) {
			self.i += 1;
			self.ws();
		}
		loop {
			self.compound()?;
			loop {
				let sp = self.ws();
				match self.peek() {
					Some('>' | '+' | '~') => {
						self.i += 1;
						self.ws();
						self.compound()?;
					}
					Some(',') => break,
					None => return Ok(()),
					Some(')') if nested => return Ok(()),
					_ if sp => self.compound()?,
					_ => return Err(Stop::Reject),
				}
			}
			self.i += 1;
			self.ws();
			if matches!(self.peek(), Some('>' | '+' | '~')) {
				return Err(Stop::Either);
			}
		}
	}
}

/// `[+-]?(N?)n([ ]*[+-][ ]*N)?` | `[+-]?N` | odd | even, N without superfluous zeros
fn nth(a: &str) -> Verdict {
	if a == "odd" || a == "even" {
		return Verdict::Accept;
	}
	let num = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_digit()) && (s.len() == 1 || !s.starts_with('0'));
	let body = a.strip_prefix(['+', '-']).unwrap_or(a);
	let ok = match body.split_once('n') {
		None => num(body),
		Some((x, y)) => {
			(x.is_empty() || num(x)) && {
				let y = y.trim_matches([' ', '\t', '\n', '\r', '\x0c']);
				y.is_empty() || y.strip_prefix(['+', '-']).is_some_and(|z| num(z.trim_start_matches([' ', '\t', '\n', '\r', '\x0c'])))
			}
		}
	};
	if ok {
		return Verdict::Accept;
	}
	// definitely malformed: no digit and no n at all, or two n
	if a.is_empty() || (!a.contains(|c: char| c.is_ascii_digit()) && !a.contains('n')) || a.matches('n').count() > 1 {
		if a.starts_with("even") || a.starts_with("odd") {
			return Verdict::Either;
		}
		return Verdict::Reject;
	}
	Verdict::Either
}

pub fn judge(s: &str) -> Verdict {
	if s.is_empty() {
		return Verdict::Accept;
	}
	let c: Vec<char> = s.chars().collect();
	if c.iter().all(|c| c.is_whitespace()) {
		return Verdict::Either;
	}
	let mut p = P { c: &c, i: 0 };
	match p.list(false) {
		Ok(()) => Verdict::Accept,
		// white space of other kinds than that of CSS is neither promised nor ruled out
		Err(Stop::Reject) if c.iter().any(|c| c.is_whitespace() && !c.is_ascii_whitespace()) => Verdict::Either,
		Err(Stop::Reject) => Verdict::Reject,
		Err(Stop::Either) => Verdict::Either,
	}
}

pub struct World {
	root: Elements<'static>,
	all: Elements<'static>,
	leaf: Elements<'static>,
	count: Rc<Cell<usize>>,
	/// the last report
	report: Rc<RefCell<String>>,
	other: Elements<'static>,
}

impl World {
	pub fn new() -> Self {
		let count = Rc::new(Cell::new(0));
		let c2 = count.clone();
		let report = Rc::new(RefCell::new(String::new()));
		let r2 = report.clone();
		let root = Vis::load_catch(
			"<a class=\"x\" id=\"i\"><b t=\"1\">a<i></i></b><n class=\"a\"></n></a><p></p>".to_string(),
			Box::new(move |e| {
				c2.set(c2.get() + 1);
				*r2.borrow_mut() = e.to_string();
			}),
		);
		let all = root.find("*");
		assert_eq!(all.length(), 5);
		let leaf = root.find("i");
		let other = Vis::load("<p><q class=\"a\"></q></p>".to_string()).unwrap();
		World { root, all, leaf, count, report, other }
	}
}

type Method = (&'static str, fn(&World, &str) -> usize);

/// number of result elements (1 for `true`)
fn methods() -> Vec<Method> {
	vec![
		("root.find", |w, s| w.root.find(s).length()),
		("all.filter", |w, s| w.all.filter(s).length()),
		("all.not", |w, s| w.all.not(s).length()),
		("all.is", |w, s| w.all.is(s) as usize),
		("all.is_all", |w, s| w.all.is_all(s) as usize),
		("all.has", |w, s| w.all.has(s).length()),
		("all.closest", |w, s| w.all.closest(s).length()),
		("all.find", |w, s| w.all.find(s).length()),
		("all.children", |w, s| w.all.children(s).length()),
		("all.parent", |w, s| w.all.parent(s).length()),
		("leaf.parents", |w, s| w.leaf.parents(s).length()),
		("all.next", |w, s| w.all.next(s).length()),
		("all.next_all", |w, s| w.all.next_all(s).length()),
		("all.prev", |w, s| w.all.prev(s).length()),
		("all.prev_all", |w, s| w.all.prev_all(s).length()),
		("all.siblings", |w, s| w.all.siblings(s).length()),
		("all.next_until(boundary)", |w, s| w.all.next_until(s, "", false).length()),
		("all.next_until(filter)", |w, s| w.all.next_until("", s, true).length()),
		("all.prev_until(boundary)", |w, s| w.all.prev_until(s, "", true).length()),
		("all.prev_until(filter)", |w, s| w.all.prev_until("", s, false).length()),
		("all.parents_until(boundary)", |w, s| w.all.parents_until(s, "", false).length()),
		("leaf.parents_until(filter)", |w, s| w.leaf.parents_until("", s, true).length()),
		("root.filter", |w, s| w.root.filter(s).length()),
		("root.not", |w, s| w.root.not(s).length()),
		("root.is", |w, s| w.root.is(s) as usize),
		("root.is_all", |w, s| w.root.is_all(s) as usize),
		("root.has", |w, s| w.root.has(s).length()),
		("root.closest", |w, s| w.root.closest(s).length()),
		("root.children", |w, s| w.root.children(s).length()),
		("root.parent", |w, s| w.root.parent(s).length()),
		("root.parents", |w, s| w.root.parents(s).length()),
		("root.next", |w, s| w.root.next(s).length()),
		("root.next_all", |w, s| w.root.next_all(s).length()),
		("root.prev", |w, s| w.root.prev(s).length()),
		("root.prev_all", |w, s| w.root.prev_all(s).length()),
		("root.siblings", |w, s| w.root.siblings(s).length()),
		("root.next_until", |w, s| w.root.next_until(s, s, true).length()),
		("root.prev_until", |w, s| w.root.prev_until(s, s, true).length()),
		("root.parents_until", |w, s| w.root.parents_until(s, s, true).length()),
	]
}

fn try_one(ctx: &mut Ctx, w: &World, ms: &[Method], s: &str, v: Verdict) -> bool {
	ctx.state(&s);
	ctx.stats.traces += 1;
	for (name, f) in ms {
		let step = || format!("{name}({s:?})");
		ctx.step(step);
		ctx.stats.transitions += 1;
		w.count.set(0);
		let got = match guard(|| f(w, s)) {
			Ok(n) => n,
			Err(e) => {
				ctx.fail(&step(), &e);
				return false;
			}
		};
		let n = w.count.get();
		let bad = match (v, n) {
			(Verdict::Accept, 0) => None,
			(Verdict::Accept, _) => Some("a well-formed selector was rejected"),
			(Verdict::Reject, 1) | (Verdict::Either, 1) if got != 0 => Some("rejected, but the result is not empty"),
			(Verdict::Reject, 1) => None,
			(Verdict::Either, 0 | 1) => None,
			(Verdict::Reject, 0) => Some("a malformed selector was not reported"),
			_ => Some("reported more than once"),
		};
		// a report names the method that was called
		let called = name.split(['.', '(']).nth(1).unwrap();
		let bad = match bad {
			None if n == 1 && !w.report.borrow().contains(&format!("'{called}'")) => Some("the report does not name the method"),
			b => b,
		};
		if let Some(b) = bad {
			ctx.fail(&step(), &format!("{b} (notifications: {n}, results: {got}, report: {:?})", w.report.borrow()));
			return false;
		}
	}
	if v != Verdict::Accept {
		// later queries, also on another document, still work
		let ok = guard(|| w.other.find("p > .a").length() == 1 && w.root.find("#i").length() == 1 && w.other.find("p").children("").length() == 1);
		if ok != Ok(true) {
			ctx.fail(&format!("later query after {s:?}"), &format!("{ok:?}"));
			return false;
		}
	} else {
		ctx.stats.nonempty += 1;
	}
	true
}

/// every string of exactly `len` pieces with the given first piece
fn family(ctx: &mut Ctx, w: &World, ms: &[Method], pieces: &[&str], len: usize) {
	let split = len.min(2);
	for pre in crate::model::words(split, pieces.len()) {
		if !ctx.case(|| format!("strings of {len} pieces starting with {:?}", pre.iter().map(|&i| pieces[i]).collect::<Vec<_>>())) {
			if !ctx.live() {
				return;
			}
			continue;
		}
		let head: String = pre.iter().map(|&i| pieces[i]).collect();
		for rest in crate::model::words(len - split, pieces.len()) {
			let mut s = head.clone();
			for &i in &rest {
				s.push_str(pieces[i]);
			}
			let v = judge(&s);
			if !try_one(ctx, w, ms, &s, v) {
				return;
			}
		}
	}
}

const CHARS: [&str; 22] =
	["a", "n", "1", "0", "-", "+", ">", "~", ",", " ", ".", "#", "*", "[", "]", "=", "\"", "'", ":", "(", ")", "\\"];

const TOKENS: [&str; 31] = [
	"a", ".x", "#i", "*", " ", ">", " + ", "~", ",", "[t]", "[t=1]", "[t ^= \"1\"]", "[t", "=", "]", ":first-child", ":nth-child(2n+1)",
	":nth-last-of-type(", "odd", "2n", ")", ":not(", ":has( ", ":contains(", "\"a\"", "'", ":empty", ":root", ":zz", ":submit", "\t\n",
];

const WIDE: [&str; 16] = ["", "é", "中", "\u{a0}", "\u{2003}", "\0", "\u{feff}", "😀", "\r", "\u{c}", "_", "{", "}", "|", "!", "a"];

const PATTERNS: [&str; 20] = ["@", "a@", "@a", ".@", ".a@", "#@", "[@]", "[a@]", "[a=@]", "[a=\"@\"]", "a@b", ":@", ":not(@)", ":not(a@", ":contains(@)", ":contains('@')", ":nth-child(@)", ":nth-child(2@)", "a,@", "a>@"];

/// every character, and every two characters, in every context
fn letters(ctx: &mut Ctx, w: &World, all: &[Method]) {
	let cs = crate::model::chars();
	let two = ctx.tier.pick(&["@", "a@"][..], &PATTERNS[..]);
	ctx.bound(format!("{} characters (all of ASCII and {} others), alone and twice, in {} contexts with every query method, every two of them in {} contexts", cs.len(), cs.len() - 128, PATTERNS.len(), two.len()));
	for &c in &cs {
		if !ctx.case(|| format!("character {c:?}")) {
			if !ctx.live() {
				return;
			}
			continue;
		}
		for pat in PATTERNS {
			for s in [pat.replace('@', &c.to_string()), pat.replace('@', &format!("{c}{c}")), pat.replace('@', &format!(" {c}")), pat.replace('@', &format!("b{c}"))] {
				let v = judge(&s);
				if !try_one(ctx, w, all, &s, v) {
					return;
				}
			}
		}
		for &d in &cs {
			for pat in two {
				let s = pat.replace('@', &format!("{c}{d}"));
				let v = judge(&s);
				if !try_one(ctx, w, &all[..1], &s, v) {
					return;
				}
			}
		}
	}
}

pub fn run(ctx: &mut Ctx) {
	let w = World::new();
	let all = methods();
	let find = &all[..3];
	let lc = ctx.tier.pick(4, 5);
	let lt = ctx.tier.pick(4, 5);
	ctx.bound(format!(
		"all strings of <= {lc} characters over {} characters and of <= {lt} tokens over {} tokens (find, filter, not); all {} query methods on strings of <= 3 characters / <= 2 tokens",
		CHARS.len(),
		TOKENS.len(),
		all.len()
	));
	for len in 0..=lc {
		family(ctx, &w, if len <= 3 { &all } else { find }, &CHARS, len);
		if !ctx.live() {
			return;
		}
	}
	for len in 1..=lt {
		family(ctx, &w, if len <= 2 { &all } else { &find[..if len <= 3 { 3 } else { 1 }] }, &TOKENS, len);
		if !ctx.live() {
			return;
		}
	}
	// unusual characters inside every well-formed context
	ctx.bound("unusual characters (non-ASCII, control, byte order mark) inserted in 12 contexts, repetitions up to 400 and nesting up to 60");
	for ch in WIDE {
		for c2 in WIDE {
			if !ctx.case(|| format!("unusual {ch:?} {c2:?}")) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			for pat in PATTERNS {
				let s = pat.replace('@', &format!("{ch}{c2}"));
				// only the totality part: either answer
				if !try_one(ctx, &w, &all, &s, Verdict::Either) {
					return;
				}
			}
		}
	}
	letters(ctx, &w, &all);
	if !ctx.live() {
		return;
	}
	for t in TOKENS {
		if !ctx.case(|| format!("repetitions of {t:?}")) {
			if !ctx.live() {
				return;
			}
			continue;
		}
		for n in [5usize, 17, 60, 400] {
			for (pre, post) in [("", ""), ("a", ""), ("", "a"), ("a ", " a")] {
				let s = format!("{pre}{}{post}", t.repeat(n));
				if t.contains('(') && n > 60 {
					continue;
				}
				let v = judge(&s);
				if !try_one(ctx, &w, find, &s, v) {
					return;
				}
			}
		}
	}
	for n in [1usize, 2, 5, 20, 60] {
		if !ctx.case(|| format!("nesting {n}")) {
			if !ctx.live() {
				return;
			}
			continue;
		}
		for open in [":not(", ":has(", "a:not( ", ":has(b "] {
			for close in [n - 1, n, n + 1] {
				let s = format!("{}a{}", open.repeat(n), ")".repeat(close));
				let v = judge(&s);
				if !try_one(ctx, &w, &all, &s, v) {
					return;
				}
			}
		}
	}
}
