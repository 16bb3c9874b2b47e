//! Selector syntax trees, their spellings, and a naive set-based semantics.
use crate::model::{bits, Kind, Mask, Tree, View};

#[derive(Clone, Debug, PartialEq)]
pub enum Simple {
	Any,
	Tag(String),
	Class(String),
	Id(String),
	/// name, operator ("" = presence, "=", "!=", ...), operand
	Attr(String, &'static str, String),
	/// from_end, of_type, a, b
	Nth(bool, bool, i64, i64),
	/// :first-child etc. spelled with their own keyword
	Kw(&'static str),
	Not(Sel),
	Has(Sel),
	Contains(String),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Comb {
	Desc,
	Child,
	Adj,
	Sib,
}
pub const COMBS: [Comb; 4] = [Comb::Desc, Comb::Child, Comb::Adj, Comb::Sib];
pub type Compound = Vec<Simple>;
#[derive(Clone, Debug, PartialEq)]
pub struct Complex {
	/// explicit leading combinator
	pub lead: Option<Comb>,
	pub first: Compound,
	pub rest: Vec<(Comb, Compound)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Sel(pub Vec<Complex>);

impl From<Compound> for Complex {
	fn from(c: Compound) -> Self {
		Complex { lead: None, first: c, rest: vec![] }
	}
}
impl From<Compound> for Sel {
	fn from(c: Compound) -> Self {
		Sel(vec![c.into()])
	}
}
impl From<Complex> for Sel {
	fn from(c: Complex) -> Self {
		Sel(vec![c])
	}
}
pub fn chain(first: Compound, rest: Vec<(Comb, Compound)>) -> Complex {
	Complex { lead: None, first, rest }
}

pub fn tag(s: &str) -> Simple {
	Simple::Tag(s.into())
}
pub fn class(s: &str) -> Simple {
	Simple::Class(s.into())
}
pub fn id(s: &str) -> Simple {
	Simple::Id(s.into())
}
pub fn attr(n: &str, op: &'static str, v: &str) -> Simple {
	Simple::Attr(n.into(), op, v.into())
}

/// spacing style of the printed selector
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sp {
	Normal,
	Tight,
	Wide,
}

pub fn nth_text(a: i64, b: i64) -> String {
	if a == 0 {
		return b.to_string();
	}
	let mut s = match a {
		1 => "n".to_string(),
		-1 => "-n".to_string(),
		a => format!("{a}n"),
	};
	if b > 0 {
		s.push_str(&format!("+{b}"));
	} else if b < 0 {
		s.push_str(&b.to_string());
	}
	s
}

impl Simple {
	pub fn print(&self, sp: Sp, o: &mut String) {
		match self {
			Simple::Any => o.push('*'),
			Simple::Tag(t) => o.push_str(t),
			Simple::Class(c) => {
				o.push('.');
				o.push_str(c)
			}
			Simple::Id(c) => {
				o.push('#');
				o.push_str(c)
			}
			Simple::Attr(n, op, v) => {
				let s = if sp == Sp::Wide { " " } else { "" };
				if op.is_empty() {
					o.push_str(&format!("[{s}{n}{s}]"));
				} else {
					o.push_str(&format!("[{s}{n}{s}{op}{s}\"{v}\"{s}]"));
				}
			}
			Simple::Nth(end, ty, a, b) => {
				let s = if sp == Sp::Wide { " " } else { "" };
				o.push_str(":nth-");
				if *end {
					o.push_str("last-");
				}
				o.push_str(if *ty { "of-type" } else { "child" });
				o.push_str(&format!("({s}{}{s})", nth_text(*a, *b)));
			}
			Simple::Kw(k) => o.push_str(k),
			Simple::Not(s) => {
				o.push_str(":not(");
				if sp == Sp::Wide {
					o.push(' ')
				}
				s.print_to(sp, o);
				if sp == Sp::Wide {
					o.push(' ')
				}
				o.push(')');
			}
			Simple::Has(s) => {
				o.push_str(":has(");
				if sp == Sp::Wide {
					o.push(' ')
				}
				s.print_to(sp, o);
				if sp == Sp::Wide {
					o.push(' ')
				}
				o.push(')');
			}
			Simple::Contains(t) => {
				o.push_str(&format!(":contains(\"{t}\")"));
			}
		}
	}
	pub fn matches(&self, v: &View, e: usize) -> bool {
		let id = v.ids[e];
		let t: &Tree = v.tree;
		match self {
			Simple::Any => true,
			Simple::Tag(g) => t.tag(id).eq_ignore_ascii_case(g),
			Simple::Class(c) => match t.attr(id, "class") {
				Some(Some(val)) => val.split_ascii_whitespace().any(|x| x == c),
				_ => false,
			},
			Simple::Id(c) => matches!(t.attr(id, "id"), Some(Some(val)) if val == c),
			Simple::Attr(n, op, w) => attr_rel(t.attr(id, n), op, w),
			Simple::Nth(end, ty, a, b) => {
				let sibs: Vec<usize> = bits(v.siblings_incl(e))
					.filter(|&s| !*ty || t.tag(v.ids[s]).eq_ignore_ascii_case(t.tag(id)))
					.collect();
				let at = sibs.iter().position(|&s| s == e).unwrap() as i64;
				let p = if *end { sibs.len() as i64 - at } else { at + 1 };
				nth_matches(*a, *b, p)
			}
			Simple::Kw(k) => kw_matches(k, v, e),
			Simple::Not(s) => s.matched_in_doc(v) >> e & 1 == 0,
			Simple::Has(s) => s.matched_in_doc(v) & v.desc[e] != 0,
			Simple::Contains(x) => t.text_of(id).contains(x.as_str()),
		}
	}
}

pub fn nth_matches(a: i64, b: i64, p: i64) -> bool {
	// exists n >= 0 with a*n + b == p
	if a == 0 {
		return p == b;
	}
	let d = p - b;
	d % a == 0 && d / a >= 0
}

pub fn attr_rel(val: Option<Option<&str>>, op: &str, w: &str) -> bool {
	if op.is_empty() {
		return val.is_some();
	}
	match op {
		// a missing or flag attribute behaves as the empty value for these
		"=" => match val {
			Some(v) => v.unwrap_or("") == w,
			None => false,
		},
		"!=" => match val {
			Some(v) => v.unwrap_or("") != w,
			None => true,
		},
		"|=" => match val {
			Some(v) => {
				let v = v.unwrap_or("");
				v == w || v.starts_with(&format!("{w}-"))
			}
			None => false,
		},
		_ => {
			if w.is_empty() {
				return false;
			}
			let Some(Some(v)) = val else { return false };
			match op {
				"^=" => v.starts_with(w),
				"$=" => v.ends_with(w),
				"*=" => v.contains(w),
				"~=" => v.split_ascii_whitespace().any(|x| x == w),
				_ => unreachable!(),
			}
		}
	}
}

fn kw_matches(k: &str, v: &View, e: usize) -> bool {
	let t = v.tree;
	let id = v.ids[e];
	let tag = t.tag(id).to_ascii_lowercase();
	let sibs = v.siblings_incl(e);
	let same: Mask = bits(sibs).filter(|&s| t.tag(v.ids[s]).eq_ignore_ascii_case(&tag)).fold(0, |m, s| m | 1 << s);
	let first = |m: Mask| m.trailing_zeros() as usize == e;
	let last = |m: Mask| 63 - m.leading_zeros() as usize == e;
	match k {
		":first-child" => first(sibs),
		":last-child" => last(sibs),
		":only-child" => sibs == 1 << e,
		":first-of-type" => first(same),
		":last-of-type" => last(same),
		":only-of-type" => same == 1 << e,
		":nth-child(odd)" => bits(sibs).position(|s| s == e).unwrap() % 2 == 0,
		":nth-child(even)" => bits(sibs).position(|s| s == e).unwrap() % 2 == 1,
		":empty" => t.nodes[id].kids.iter().all(|&c| matches!(t.nodes[c].kind, Kind::Comment(_))),
		":root" => {
			v.parent[e].is_none() && tag == "html" && is_document(t)
		}
		":header" => ["h1", "h2", "h3", "h4", "h5", "h6"].contains(&tag.as_str()),
		":input" => ["input", "select", "textarea", "button"].contains(&tag.as_str()),
		":submit" => {
			let ty = |x: &str| matches!(t.attr(id, "type"), Some(Some(v)) if v == x);
			(tag == "input" && ty("submit")) || (tag == "button" && ty("submit"))
		}
		":checked" => checked(v, e),
		_ => panic!("unknown keyword {k}"),
	}
}

/// a tree is a document when it has a doctype or an html element at top level
pub fn is_document(t: &Tree) -> bool {
	t.nodes[0].kids.iter().any(|&c| matches!(t.nodes[c].kind, Kind::Doctype) || t.tag(c) == "html")
}

/// the option a single select falls back to / selected options
pub fn checked(v: &View, e: usize) -> bool {
	let t = v.tree;
	let id = v.ids[e];
	match t.tag(id) {
		"input" => {
			matches!(t.attr(id, "type"), Some(Some(ty)) if ty.eq_ignore_ascii_case("checkbox") || ty.eq_ignore_ascii_case("radio"))
				&& t.attr(id, "checked").is_some()
		}
		"option" => {
			if t.attr(id, "selected").is_some() {
				return true;
			}
			let Some(p) = v.parent[e] else { return false };
			let pid = v.ids[p];
			if t.tag(pid) != "select" || t.attr(pid, "multiple").is_some() {
				return false;
			}
			// first direct option of a single select without any selected option
			let first = bits(v.kids[p]).find(|&s| t.tag(v.ids[s]) == "option");
			if first != Some(e) {
				return false;
			}
			!bits(v.desc[p]).any(|d| t.tag(v.ids[d]) == "option" && t.attr(v.ids[d], "selected").is_some())
		}
		_ => false,
	}
}

pub fn compound_mask(c: &Compound, v: &View) -> Mask {
	let mut m = 0;
	for e in 0..v.n() {
		if c.iter().all(|s| s.matches(v, e)) {
			m |= 1 << e;
		}
	}
	m
}

/// Where a relative selector starts.
#[derive(Clone, Copy, Debug)]
pub struct Start {
	/// the document root itself is in the set
	pub root: bool,
	pub set: Mask,
}

pub fn step(v: &View, s: Start, c: Comb) -> Mask {
	match c {
		Comb::Desc => v.map(s.set, &v.desc) | if s.root { v.all() } else { 0 },
		Comb::Child => v.map(s.set, &v.kids) | if s.root { v.top } else { 0 },
		Comb::Adj => v.map(s.set, &v.next),
		Comb::Sib => v.map(s.set, &v.next_all),
	}
}

impl Complex {
	pub fn print(&self, sp: Sp, o: &mut String) {
		fn comb(c: Comb, sp: Sp, o: &mut String) {
			let ch = match c {
				Comb::Desc => {
					o.push_str(if sp == Sp::Wide { " \t " } else { " " });
					return;
				}
				Comb::Child => '>',
				Comb::Adj => '+',
				Comb::Sib => '~',
			};
			match sp {
				Sp::Normal => {
					o.push(' ');
					o.push(ch);
					o.push(' ')
				}
				Sp::Tight => o.push(ch),
				Sp::Wide => {
					o.push_str("  ");
					o.push(ch);
					o.push_str("\n ")
				}
			}
		}
		if let Some(c) = self.lead {
			let mut s = String::new();
			comb(c, sp, &mut s);
			o.push_str(s.trim_start());
		}
		for s in &self.first {
			s.print(sp, o);
		}
		for (c, p) in &self.rest {
			comb(*c, sp, o);
			for s in p {
				s.print(sp, o);
			}
		}
	}
	/// forward evaluation from a starting set with a given first relation
	pub fn eval(&self, v: &View, start: Start, default_lead: Comb) -> Mask {
		let mut cur = step(v, start, self.lead.unwrap_or(default_lead)) & compound_mask(&self.first, v);
		for (c, p) in &self.rest {
			if cur == 0 {
				return 0;
			}
			cur = step(v, Start { root: false, set: cur }, *c) & compound_mask(p, v);
		}
		cur
	}
}

impl Sel {
	pub fn print_to(&self, sp: Sp, o: &mut String) {
		for (i, c) in self.0.iter().enumerate() {
			if i > 0 {
				o.push_str(match sp {
					Sp::Normal => ", ",
					Sp::Tight => ",",
					Sp::Wide => " \t,  ",
				});
			}
			c.print(sp, o);
		}
	}
	pub fn text(&self, sp: Sp) -> String {
		let mut o = String::new();
		self.print_to(sp, &mut o);
		o
	}
	/// result of searching from `start`
	pub fn find(&self, v: &View, start: Start) -> Mask {
		self.0.iter().fold(0, |m, c| m | c.eval(v, start, Comb::Desc))
	}
	pub fn children(&self, v: &View, start: Start) -> Mask {
		self.0.iter().fold(0, |m, c| m | c.eval(v, start, Comb::Child))
	}
	/// elements of the document that match (no leading combinators)
	pub fn matched_in_doc(&self, v: &View) -> Mask {
		self.find(v, Start { root: true, set: 0 })
	}
}
