//! Mutation worlds: a model of documents, detached trees and fragments, the operations on it,
//! and the same operations on the real library.
use crate::model::*;
use std::cell::Cell;
use std::collections::HashMap;
use std::rc::Rc;
use visdom::types::{BoxDynElement, BoxDynText, Elements, IAttrValue, INodeType};
use visdom::Vis;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pos {
	Before,
	Prepend,
	Append,
	After,
}
pub const CLONE_BASE: usize = 10_000;
pub const ROOT_BASE: usize = 100_000_000;
pub const POS: [Pos; 4] = [Pos::Append, Pos::Prepend, Pos::Before, Pos::After];

/// Operation on node handles.  `usize` are marks (`k` attribute) of elements.
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
	/// targets, position, contents
	Insert(Vec<usize>, Pos, Vec<usize>),
	/// the same, asked from the content's side (append_to, ...)
	InsertTo(Vec<usize>, Pos, Vec<usize>),
	/// targets, position, index of the fragment html in FRAGS
	InsertFrag(Vec<usize>, Pos, usize),
	Replace(Vec<usize>, Vec<usize>),
	ReplaceFrag(Vec<usize>, usize),
	Remove(Vec<usize>),
	Empty(Vec<usize>),
	SetText(Vec<usize>, &'static str),
	SetHtml(Vec<usize>, usize),
	/// text child number `1` of element
	TextRemove(usize, usize),
	TextSetHtml(usize, usize, usize),
	TextSet(usize, usize, &'static str),
	TextAppend(usize, usize, &'static str),
	TextPrepend(usize, usize, &'static str),
	SetAttr(Vec<usize>, &'static str, Option<&'static str>),
	RemoveAttr(Vec<usize>, &'static str),
	AddClass(Vec<usize>, &'static str),
	RemoveClass(Vec<usize>, &'static str),
	/// insert the main root as content (always refused)
	InsertRoot(Vec<usize>, Pos),
	ReplaceRoot(Vec<usize>),
	/// insert another complete document as content (always refused)
	InsertDoc(Vec<usize>, Pos),
	ReplaceDoc(Vec<usize>),
	/// operate on the root as a target (always refused)
	RootTarget(Pos, Vec<usize>),
	RootReplace(Vec<usize>),
	/// text children of the document root
	RootTextRemove(usize),
	RootTextSetHtml(usize, usize),
	/// deep copies of the members; the copies of member i get handles CLONE_BASE*(i+1)+mark
	CloneSet(Vec<usize>),
	/// deep copy of the document root; handles ROOT_BASE+mark
	CloneRoot,
	/// the methods of single elements: parent.remove_child(child), a.replace_with(b)
	RemoveChild(usize, usize),
	ElReplace(usize, usize),
	/// evaluate reads between the writes
	Reads,
	/// drop every handle but the root set (if true) and the given elements
	Drop(bool, Vec<usize>),
}

/// Fragments; every element gets a fresh mark by replacing `K` by a number.
#[derive(Clone, Debug)]
pub enum F {
	E(&'static str, &'static [F]),
	T(&'static str),
	C(&'static str),
	/// repeated
	Many(usize, &'static [F]),
}
pub const FRAGS: [&[F]; 11] = [
	&[F::E("i", &[])],
	&[F::E("i", &[F::T("v")]), F::T("w"), F::E("b", &[F::E("u", &[])])],
	&[F::T("z")],
	&[],
	&[F::C("d"), F::E("br", &[]), F::T(" ")],
	&[F::T("y"), F::E("p", &[F::T("x"), F::E("i", &[])])],
	&[F::E("title", &[F::T("n")])],
	&[F::E("body", &[]), F::E("head", &[F::E("title", &[F::T("m")])])],
	&[F::E("title", &[F::T("n")]), F::T("w"), F::E("p", &[F::E("title", &[F::T("q")])])],
	&[F::Many(70, &[F::E("i", &[])])],
	&[F::T("w"), F::E("u", &[F::Many(135, &[F::E("i", &[F::T("v")]), F::T("w")])])],
];

#[derive(Clone, Debug)]
pub struct W {
	pub t: Tree,
	/// next fresh mark
	pub next: usize,
	/// mark -> node id (originals only)
	pub by_mark: HashMap<usize, usize>,
	/// roots of fragments kept alive
	pub frag_roots: Vec<usize>,
	/// fragment roots that are copies of the document root
	pub root_copies: Vec<usize>,
	/// number of refusals that must have been reported to the main document's handler
	pub errors: usize,
	/// the top of the tree each refused target was in
	pub refused_at: Vec<usize>,
	/// the handle of the document itself was dropped
	pub root_gone: bool,
	dropped: bool,
}

fn frag_html(f: &[F], next: &mut usize, o: &mut String) {
	for x in f {
		match x {
			F::T(s) => o.push_str(s),
			F::Many(n, k) => (0..*n).for_each(|_| frag_html(k, next, o)),
			F::C(s) => {
				o.push_str("<!--");
				o.push_str(s);
				o.push_str("-->");
			}
			F::E(tag, k) => {
				o.push_str(&format!("<{tag} k=\"{next}\">"));
				*next += 1;
				frag_html(k, next, o);
				if !VOID_TAGS.contains(tag) {
					o.push_str(&format!("</{tag}>"));
				}
			}
		}
	}
}

impl W {
	/// The state without the history that led to it: the document, every detached tree, and where each marked node is.
	pub fn canonical(&self) -> (String, Vec<(usize, String)>, usize) {
		let mut v: Vec<(usize, String)> = vec![];
		for (&m, &id) in &self.by_mark {
			let mut top = id;
			while let Some(p) = self.t.nodes[top].parent {
				top = p;
			}
			let mut s = String::new();
			if top != 0 {
				self.t.node_html(top, &mut s);
			}
			v.push((m, s));
		}
		v.sort();
		(self.t.html(), v, self.errors)
	}
	pub fn new(t: Tree) -> W {
		let mut by_mark = HashMap::new();
		let mut next = 0;
		for e in t.elements() {
			let k: usize = t.attr(e, "k").unwrap().unwrap().parse().unwrap();
			by_mark.insert(k, e);
			next = next.max(k + 1);
		}
		W { t, next, by_mark, frag_roots: vec![], root_copies: vec![], errors: 0, refused_at: vec![], root_gone: false, dropped: false }
	}
	/// put another document beside the main one
	pub fn add_document(&mut self, t: &Tree) -> usize {
		let base = self.t.nodes.len();
		for n in &t.nodes {
			let mut n = n.clone();
			n.parent = n.parent.map(|p| p + base);
			n.kids.iter_mut().for_each(|k| *k += base);
			self.t.nodes.push(n);
		}
		for e in t.elements() {
			let k: usize = t.attr(e, "k").unwrap().unwrap().parse().unwrap();
			self.by_mark.insert(k, e + base);
			self.next = self.next.max(k + 1);
		}
		self.frag_roots.push(base);
		base
	}
	fn frag(&mut self, f: &[F], parent: usize) -> Vec<usize> {
		let mut v = vec![];
		for x in f {
			let id = self.t.nodes.len();
			match x {
				F::Many(n, k) => {
					for _ in 0..*n {
						v.extend(self.frag(k, parent));
					}
					continue;
				}
				F::T(s) => self.t.nodes.push(Node { kind: Kind::Text(s.to_string()), parent: Some(parent), kids: vec![] }),
				F::C(s) => self.t.nodes.push(Node { kind: Kind::Comment(s.to_string()), parent: Some(parent), kids: vec![] }),
				F::E(tag, k) => {
					let m = self.next;
					self.next += 1;
					self.t.nodes.push(Node {
						kind: Kind::Elem(tag.to_string(), vec![("k".into(), Some(m.to_string()))]),
						parent: Some(parent),
						kids: vec![],
					});
					self.by_mark.insert(m, id);
					let ks = self.frag(k, id);
					self.t.nodes[id].kids = ks;
				}
			}
			v.push(id);
		}
		v
	}
	/// is the main root a whole document?
	fn is_document(&self) -> bool {
		self.t.nodes[0].kids.iter().any(|&c| self.t.tag(c) == "html")
	}
	pub fn mark_of(&self, id: usize) -> Option<usize> {
		self.t.attr(id, "k").flatten().and_then(|s| s.parse().ok())
	}
	pub fn node(&self, mark: usize) -> usize {
		self.by_mark[&mark]
	}
	fn is_anc_or_self(&self, a: usize, of: usize) -> bool {
		let mut c = Some(of);
		while let Some(x) = c {
			if x == a {
				return true;
			}
			c = self.t.nodes[x].parent;
		}
		false
	}
	pub fn root_of(&self, mut i: usize) -> usize {
		while let Some(p) = self.t.nodes[i].parent {
			i = p;
		}
		i
	}
	fn detach(&mut self, i: usize) {
		if let Some(p) = self.t.nodes[i].parent.take() {
			self.t.nodes[p].kids.retain(|&x| x != i);
		}
	}
	fn refuse(&mut self, target: usize) {
		self.errors += 1;
		self.refused_at.push(self.root_of(target));
	}
	fn allowed(&self, target: usize, n: usize) -> bool {
		let tag = self.t.tag(target);
		if VOID_TAGS.contains(&tag) {
			return false;
		}
		if tag == "title" || tag == "textarea" {
			return matches!(self.t.nodes[n].kind, Kind::Text(_));
		}
		true
	}
	/// insert nodes (already validated against ancestry); returns what was placed
	fn place(&mut self, target: usize, pos: Pos, nodes: Vec<usize>) -> bool {
		let nodes: Vec<usize> = if matches!(pos, Pos::Append | Pos::Prepend) {
			let had = !nodes.is_empty();
			let v: Vec<usize> = nodes.into_iter().filter(|&n| self.allowed(target, n)).collect();
			if v.is_empty() {
				if had {
					self.refuse(target);
				}
				return false;
			}
			v
		} else {
			if nodes.is_empty() {
				return false;
			}
			if self.t.nodes[target].parent.is_none() {
				self.refuse(target);
				return false;
			}
			nodes
		};
		for &n in &nodes {
			self.detach(n);
		}
		let (p, at) = match pos {
			Pos::Append => (target, self.t.nodes[target].kids.len()),
			Pos::Prepend => (target, 0),
			Pos::Before | Pos::After => {
				let p = self.t.nodes[target].parent.unwrap();
				let i = self.t.nodes[p].kids.iter().position(|&x| x == target).unwrap();
				(p, if pos == Pos::Before { i } else { i + 1 })
			}
		};
		for &n in &nodes {
			self.t.nodes[n].parent = Some(p);
		}
		self.t.nodes[p].kids.splice(at..at, nodes);
		true
	}
	fn insert(&mut self, targets: &[usize], pos: Pos, contents: &[usize]) {
		for &t in targets {
			let mut ok = vec![];
			for &c in contents {
				if self.is_anc_or_self(c, t) {
					self.refuse(t);
				} else {
					ok.push(c);
				}
			}
			// one by one, as each may be refused on its own; together they keep their order
			let list: Vec<usize> = if matches!(pos, Pos::Prepend | Pos::After) { ok.into_iter().rev().collect() } else { ok };
			for c in list {
				self.place(t, pos, vec![c]);
			}
		}
	}
	fn copy(&mut self, i: usize, parent: Option<usize>) -> usize {
		let id = self.t.nodes.len();
		let kind = self.t.nodes[i].kind.clone();
		self.t.nodes.push(Node { kind, parent, kids: vec![] });
		let ks: Vec<usize> = self.t.nodes[i].kids.clone();
		let ks: Vec<usize> = ks.into_iter().map(|k| self.copy(k, Some(id))).collect();
		self.t.nodes[id].kids = ks;
		id
	}
	fn new_frag_root(&mut self, f: usize) -> usize {
		let r = self.t.nodes.len();
		self.t.nodes.push(Node { kind: Kind::Root, parent: None, kids: vec![] });
		let ks = self.frag(FRAGS[f], r);
		self.t.nodes[r].kids = ks;
		self.frag_roots.push(r);
		r
	}
	fn replace(&mut self, t: usize, contents: &[usize]) {
		let mut ok = vec![];
		for &c in contents {
			if self.is_anc_or_self(c, t) {
				self.refuse(t);
			} else {
				ok.push(c);
			}
		}
		if ok.is_empty() {
			return;
		}
		if self.t.nodes[t].parent.is_none() {
			for _ in ok {
				self.refuse(t);
			}
			return;
		}
		for c in ok {
			self.place(t, Pos::Before, vec![c]);
		}
		self.detach(t);
	}
	fn drop_kids(&mut self, i: usize) {
		for k in std::mem::take(&mut self.t.nodes[i].kids) {
			self.t.nodes[k].parent = None;
		}
	}
	fn nodes(&self, marks: &[usize]) -> Vec<usize> {
		marks.iter().map(|&m| self.node(m)).collect()
	}
	fn text_child(&self, e: usize, n: usize) -> Option<usize> {
		self.t.nodes[e].kids.iter().copied().filter(|&k| matches!(self.t.nodes[k].kind, Kind::Text(_))).nth(n)
	}
	fn splice_text(&mut self, e: usize, n: usize, html: Option<usize>) {
		let x = self.text_child(e, n).unwrap();
		let at = self.t.nodes[e].kids.iter().position(|&k| k == x).unwrap();
		self.detach(x);
		if let Some(h) = html {
			let ns = self.frag(FRAGS[h], e);
			self.t.nodes[e].kids.splice(at..at, ns);
		}
	}
	pub fn set_attr(&mut self, e: usize, n: &str, v: Option<Option<&str>>) {
		if let Kind::Elem(_, a) = &mut self.t.nodes[e].kind {
			match v {
				None => a.retain(|(k, _)| k != n),
				Some(v) => {
					let v = v.map(|s| s.to_string());
					match a.iter_mut().find(|(k, _)| k == n) {
						Some(x) => x.1 = v,
						None => a.push((n.to_string(), v)),
					}
				}
			}
		}
	}
	/// is the operation meaningful in this state?
	pub fn enabled(&self, op: &Op) -> bool {
		let has = |v: &Vec<usize>| v.iter().all(|m| self.by_mark.contains_key(m));
		match op {
			Op::Insert(a, _, b) | Op::InsertTo(a, _, b) | Op::Replace(a, b) => has(a) && has(b),
			// known finding: a text prepended to a content tag that has content goes behind it
			Op::InsertFrag(a, Pos::Prepend, _) => {
				has(a) && !self.nodes(a).iter().any(|&t| CONTENT_TAGS.contains(&self.t.tag(t)) && !self.t.nodes[t].kids.is_empty())
			}
			Op::InsertFrag(a, _, _)
			| Op::ReplaceFrag(a, _)
			| Op::Remove(a)
			| Op::Empty(a)
			| Op::SetText(a, _)
			| Op::SetHtml(a, _)
			| Op::SetAttr(a, _, _)
			| Op::RemoveAttr(a, _)
			| Op::AddClass(a, _)
			| Op::RemoveClass(a, _)
			| Op::InsertRoot(a, _)
			| Op::ReplaceRoot(a)
			| Op::InsertDoc(a, _)
			| Op::ReplaceDoc(a)
			| Op::RootTarget(_, a)
			| Op::RootReplace(a) => has(a),
			Op::TextRemove(e, n) | Op::TextSetHtml(e, n, _) | Op::TextSet(e, n, _) | Op::TextAppend(e, n, _) | Op::TextPrepend(e, n, _) => {
				self.by_mark.contains_key(e) && !CONTENT_TAGS.contains(&self.t.tag(self.node(*e))) && self.text_child(self.node(*e), *n).is_some()
			}
			Op::RootTextRemove(n) | Op::RootTextSetHtml(n, _) => self.text_child(0, *n).is_some(),
			Op::CloneSet(a) => has(a),
			Op::RemoveChild(a, b) | Op::ElReplace(a, b) => has(&vec![*a, *b]),
			Op::CloneRoot => true,
			Op::Reads => true,
			Op::Drop(_, a) => has(a),
		}
	}
	pub fn apply(&mut self, op: &Op) {
		self.perform(op);
		if self.dropped {
			// what no handle reaches is gone
			let held: Vec<usize> = self.by_mark.values().copied().collect();
			for &t in &held {
				if let Some(above) = self.t.nodes[t].parent {
					let root = self.root_of(above);
					let alive = held.iter().any(|&k| self.is_anc_or_self(k, above)) || self.frag_roots.contains(&root) || (!self.root_gone && root == 0);
					if !alive {
						self.t.nodes[t].parent = None;
					}
				}
			}
		}
	}
	fn perform(&mut self, op: &Op) {
		match op {
			Op::Insert(a, p, b) | Op::InsertTo(a, p, b) => {
				let (a, b) = (self.nodes(a), self.nodes(b));
				self.insert(&a, *p, &b)
			}
			Op::InsertFrag(a, p, f) => {
				let a = self.nodes(a);
				let r = self.new_frag_root(*f);
				for (i, &t) in a.iter().enumerate() {
					let c = if i + 1 == a.len() { r } else { self.copy(r, None) };
					let ns = self.t.nodes[c].kids.clone();
					self.place(t, *p, ns);
				}
			}
			Op::Replace(a, b) => {
				let (a, b) = (self.nodes(a), self.nodes(b));
				for t in a {
					self.replace(t, &b);
				}
			}
			Op::ReplaceFrag(a, f) => {
				let a = self.nodes(a);
				let r = self.new_frag_root(*f);
				for (i, &t) in a.iter().enumerate() {
					let c = if i + 1 == a.len() { r } else { self.copy(r, None) };
					let ns = self.t.nodes[c].kids.clone();
					if self.t.nodes[t].parent.is_none() {
						self.refuse(t);
					} else if self.place(t, Pos::Before, ns) {
						self.detach(t);
					}
				}
			}
			Op::Remove(a) => {
				for t in self.nodes(a) {
					self.detach(t);
				}
			}
			Op::Empty(a) => {
				for t in self.nodes(a) {
					self.drop_kids(t);
				}
			}
			Op::SetText(a, s) => {
				for t in self.nodes(a) {
					if VOID_TAGS.contains(&self.t.tag(t)) {
						continue;
					}
					self.drop_kids(t);
					if !s.is_empty() {
						self.t.text(t, s);
					}
				}
			}
			Op::SetHtml(a, f) => {
				for t in self.nodes(a) {
					// the real side spells the markup once, so all targets get the same marks
					self.drop_kids(t);
					if CONTENT_TAGS.contains(&self.t.tag(t)) {
						// raw text
						let mut s = String::new();
						frag_html(FRAGS[*f], &mut self.next, &mut s);
						if !s.is_empty() {
							self.t.text(t, &s);
						}
						continue;
					}
					let ns = self.frag(FRAGS[*f], t);
					if VOID_TAGS.contains(&self.t.tag(t)) {
						for n in ns {
							self.t.nodes[n].parent = None;
							self.forget(n);
						}
					} else {
						self.t.nodes[t].kids = ns;
					}
				}
			}
			Op::TextRemove(e, n) => self.splice_text(self.node(*e), *n, None),
			Op::TextSetHtml(e, n, f) => self.splice_text(self.node(*e), *n, Some(*f)),
			Op::RootTextRemove(n) => self.splice_text(0, *n, None),
			Op::RootTextSetHtml(n, f) => self.splice_text(0, *n, Some(*f)),
			Op::TextSet(e, n, s) => {
				let x = self.text_child(self.node(*e), *n).unwrap();
				if s.is_empty() {
					self.refuse(x);
				} else {
					self.t.nodes[x].kind = Kind::Text(s.to_string());
				}
			}
			Op::TextAppend(e, n, s) => {
				let x = self.text_child(self.node(*e), *n).unwrap();
				if let Kind::Text(o) = &mut self.t.nodes[x].kind {
					o.push_str(s);
				}
			}
			Op::TextPrepend(e, n, s) => {
				let x = self.text_child(self.node(*e), *n).unwrap();
				if let Kind::Text(o) = &mut self.t.nodes[x].kind {
					*o = format!("{s}{o}");
				}
			}
			Op::SetAttr(a, n, v) => {
				for t in self.nodes(a) {
					self.set_attr(t, n, Some(*v));
				}
			}
			Op::RemoveAttr(a, n) => {
				for t in self.nodes(a) {
					self.set_attr(t, n, None);
				}
			}
			Op::AddClass(a, c) => {
				for t in self.nodes(a) {
					let cur = self.t.attr(t, "class").flatten().unwrap_or("").to_string();
					let mut l: Vec<&str> = cur.split_ascii_whitespace().collect();
					for x in c.split_ascii_whitespace() {
						if !l.contains(&x) {
							l.push(x);
						}
					}
					let v = l.join(" ");
					self.set_attr(t, "class", Some(Some(&v)));
				}
			}
			Op::RemoveClass(a, c) => {
				for t in self.nodes(a) {
					let Some(Some(cur)) = self.t.attr(t, "class") else { continue };
					let cur = cur.to_string();
					let l: Vec<&str> = cur.split_ascii_whitespace().filter(|x| !c.split_ascii_whitespace().any(|y| y == *x)).collect();
					let v = l.join(" ");
					self.set_attr(t, "class", Some(Some(&v)));
				}
			}
			Op::InsertRoot(a, p) => {
				for t in self.nodes(a) {
					if self.is_document() || self.is_anc_or_self(0, t) {
						self.refuse(t);
					} else {
						let ns = self.t.nodes[0].kids.clone();
						self.place(t, *p, ns);
					}
				}
			}
			Op::ReplaceRoot(a) => {
				for t in self.nodes(a) {
					if self.is_document() || self.is_anc_or_self(0, t) || self.t.nodes[t].parent.is_none() {
						self.refuse(t);
					} else {
						let ns = self.t.nodes[0].kids.clone();
						if self.place(t, Pos::Before, ns) {
							self.detach(t);
						}
					}
				}
			}
			Op::InsertDoc(a, _) | Op::ReplaceDoc(a) => self.errors += a.len(),
			Op::RootTarget(_, a) | Op::RootReplace(a) => self.errors += a.len(),
			Op::CloneSet(a) => {
				for (i, m) in a.iter().enumerate() {
					let c = self.copy(self.node(*m), None);
					self.register(c, CLONE_BASE * (i + 1));
				}
			}
			Op::CloneRoot => {
				let c = self.copy(0, None);
				self.frag_roots.push(c);
				self.root_copies.push(c);
				self.register(c, ROOT_BASE);
			}
			Op::RemoveChild(p, c) => {
				if self.t.nodes[self.node(*c)].parent == Some(self.node(*p)) {
					self.detach(self.node(*c));
				}
			}
			Op::ElReplace(a, b) => self.apply(&Op::Replace(vec![*a], vec![*b])),
			Op::Reads => {}
			Op::Drop(root, keep) => {
				self.by_mark.retain(|m, _| keep.contains(m));
				self.frag_roots.clear();
				self.root_copies.clear();
				self.root_gone |= !*root;
				self.dropped = true;
			}
		}
	}
	fn register(&mut self, c: usize, base: usize) {
		let mut v = vec![];
		self.t.pre(c, &mut |_, n| v.push(n));
		for n in v {
			if let Some(m) = self.mark_of(n) {
				self.by_mark.insert(base + m, n);
			}
		}
	}
	fn forget(&mut self, n: usize) {
		if let Some(m) = self.mark_of(n) {
			self.by_mark.remove(&m);
		}
		for k in self.t.nodes[n].kids.clone() {
			self.forget(k);
		}
	}
}

/// The real side.
pub struct R {
	pub root: Elements<'static>,
	pub r0: BoxDynElement<'static>,
	pub by_mark: HashMap<usize, BoxDynElement<'static>>,
	pub frags: Vec<Elements<'static>>,
	pub docs: Vec<Elements<'static>>,
	pub copies: Vec<Elements<'static>>,
	pub errors: Rc<Cell<usize>>,
	pub frag_errors: Rc<Cell<usize>>,
	next: usize,
	/// marks below were given up and are not collected again
	given_up: usize,
}

pub fn counting(html: &str, c: &Rc<Cell<usize>>) -> Elements<'static> {
	let c = c.clone();
	Vis::load_catch(html.to_string(), Box::new(move |_| c.set(c.get() + 1)))
}

pub fn text_handle(e: &BoxDynElement<'static>, n: usize) -> BoxDynText<'static> {
	let mut i = 0;
	for x in e.child_nodes() {
		if matches!(x.node_type(), INodeType::Text) {
			if i == n {
				return x.typed().into_text().expect("text");
			}
			i += 1;
		}
	}
	panic!("harness: no text child {n}")
}

impl R {
	pub fn new(html: &str, next: usize) -> R {
		let errors = Rc::new(Cell::new(0));
		let root = counting(html, &errors);
		R::with_root(root, errors, next)
	}
	/// with an own error handler; `errors` is not counted
	pub fn with_handler(html: &str, next: usize, handle: Box<dyn Fn(visdom::types::BoxDynError)>) -> R {
		R::with_root(Vis::load_catch(html.to_string(), handle), Rc::new(Cell::new(0)), next)
	}
	fn with_root(root: Elements<'static>, errors: Rc<Cell<usize>>, next: usize) -> R {
		let r0 = root.get(0).unwrap().cloned();
		let mut r = R { root, r0, by_mark: HashMap::new(), frags: vec![], docs: vec![], copies: vec![], errors, frag_errors: Rc::new(Cell::new(0)), next, given_up: 0 };
		let z = r.r0.cloned();
		r.collect(&z);
		r
	}
	/// the other document of `W::add_document`
	pub fn add_document(&mut self, html: &str) {
		let e = counting(html, &self.frag_errors);
		let r = e.get(0).unwrap().cloned();
		self.collect(&r);
		self.frags.push(e);
	}
	/// remember handles of elements not seen before
	pub fn collect(&mut self, from: &BoxDynElement<'static>) {
		for e in real_elements(from) {
			let m = mark(&e);
			if m >= self.given_up {
				self.by_mark.entry(m).or_insert(e);
			}
		}
	}
	pub fn set(&self, marks: &[usize]) -> Elements<'static> {
		Elements::with_nodes(marks.iter().map(|m| self.by_mark[m].cloned()).collect())
	}
	fn new_frag(&mut self, f: usize) -> Elements<'static> {
		let mut s = String::new();
		frag_html(FRAGS[f], &mut self.next, &mut s);
		let e = counting(&s, &self.frag_errors);
		let r = e.get(0).unwrap().cloned();
		self.collect(&r);
		let again = Elements::with_nodes(vec![r]);
		self.frags.push(e);
		again
	}
	fn html(&mut self, f: usize) -> String {
		let mut s = String::new();
		frag_html(FRAGS[f], &mut self.next, &mut s);
		s
	}
	pub fn apply(&mut self, op: &Op) {
		fn ins(t: &mut Elements<'static>, p: Pos, c: &mut Elements<'static>) {
			match p {
				Pos::Append => t.append(c),
				Pos::Prepend => t.prepend(c),
				Pos::Before => t.before(c),
				Pos::After => t.after(c),
			};
		}
		match op {
			Op::Insert(a, p, b) => ins(&mut self.set(a), *p, &mut self.set(b)),
			Op::InsertTo(a, p, b) => {
				let (mut a, mut b) = (self.set(a), self.set(b));
				match p {
					Pos::Append => b.append_to(&mut a),
					Pos::Prepend => b.prepend_to(&mut a),
					Pos::Before => b.insert_before(&mut a),
					Pos::After => b.insert_after(&mut a),
				};
			}
			Op::InsertFrag(a, p, f) => {
				let mut a = self.set(a);
				let mut c = self.new_frag(*f);
				ins(&mut a, *p, &mut c);
			}
			Op::Replace(a, b) => {
				self.set(a).replace_with(&mut self.set(b));
			}
			Op::ReplaceFrag(a, f) => {
				let mut a = self.set(a);
				let mut c = self.new_frag(*f);
				a.replace_with(&mut c);
			}
			Op::Remove(a) => self.set(a).remove(),
			Op::Empty(a) => {
				self.set(a).empty();
			}
			Op::SetText(a, s) => {
				self.set(a).set_text(s);
			}
			Op::SetHtml(a, f) => {
				for m in a {
					let h = self.html(*f);
					let mut s = self.set(&[*m]);
					s.set_html(&h);
					let e = self.by_mark[m].cloned();
					self.collect(&e);
				}
			}
			Op::TextRemove(e, n) => text_handle(&self.by_mark[e], *n).remove(),
			Op::TextSetHtml(e, n, f) => {
				let h = self.html(*f);
				text_handle(&self.by_mark[e], *n).set_html(&h);
				let e = self.by_mark[e].cloned();
				self.collect(&e);
			}
			Op::RootTextRemove(n) => text_handle(&self.r0, *n).remove(),
			Op::RootTextSetHtml(n, f) => {
				let h = self.html(*f);
				text_handle(&self.r0, *n).set_html(&h);
				let e = self.r0.cloned();
				self.collect(&e);
			}
			Op::TextSet(e, n, s) => text_handle(&self.by_mark[e], *n).set_text(s),
			Op::TextAppend(e, n, s) => text_handle(&self.by_mark[e], *n).append_text(s),
			Op::TextPrepend(e, n, s) => text_handle(&self.by_mark[e], *n).prepend_text(s),
			Op::SetAttr(a, n, v) => {
				self.set(a).set_attr(n, *v);
			}
			Op::RemoveAttr(a, n) => {
				self.set(a).remove_attr(n);
			}
			Op::AddClass(a, c) => {
				self.set(a).add_class(c);
			}
			Op::RemoveClass(a, c) => {
				self.set(a).remove_class(c);
			}
			Op::InsertRoot(a, p) => ins(&mut self.set(a), *p, &mut Elements::with_nodes(vec![self.r0.cloned()])),
			Op::ReplaceRoot(a) => {
				self.set(a).replace_with(&mut Elements::with_nodes(vec![self.r0.cloned()]));
			}
			Op::InsertDoc(a, p) => {
				let mut d = counting(OTHER_DOC, &self.frag_errors);
				ins(&mut self.set(a), *p, &mut d);
				self.docs.push(d);
			}
			Op::ReplaceDoc(a) => {
				let mut d = counting(OTHER_DOC, &self.frag_errors);
				self.set(a).replace_with(&mut d);
				self.docs.push(d);
			}
			Op::RootTarget(p, a) => ins(&mut Elements::with_nodes(vec![self.r0.cloned()]), *p, &mut self.set(a)),
			Op::RootReplace(a) => {
				Elements::with_nodes(vec![self.r0.cloned()]).replace_with(&mut self.set(a));
			}
			Op::CloneSet(a) => {
				let c = self.set(a).clone();
				for (i, e) in c.get_ref().iter().enumerate() {
					let base = CLONE_BASE * (i + 1);
					self.by_mark.insert(base + mark(e), e.cloned());
					for x in real_elements(&e.cloned()) {
						self.by_mark.insert(base + mark(&x), x);
					}
				}
				self.copies.push(c);
			}
			Op::CloneRoot => {
				let c = Elements::with_nodes(vec![self.r0.cloned()]).clone();
				for x in real_elements(&c.get(0).unwrap().cloned()) {
					self.by_mark.insert(ROOT_BASE + mark(&x), x);
				}
				self.frags.push(c);
			}
			Op::RemoveChild(p, c) => self.by_mark[p].cloned().remove_child(self.by_mark[c].cloned()),
			Op::ElReplace(a, b) => self.by_mark[a].cloned().replace_with(&self.by_mark[b]),
			Op::Drop(root, keep) => {
				self.by_mark.retain(|m, _| keep.contains(m));
				self.given_up = self.next;
				self.frags.clear();
				self.docs.clear();
				self.copies.clear();
				if !*root {
					self.root = Vis::load("").unwrap();
					self.r0 = self.root.get(0).unwrap().cloned();
				}
			}
			Op::Reads => {
				let _ = (
					self.root.find("*").length(),
					self.root.find("[k] i").length(),
					self.root.find("#x").length(),
					self.root.children("").next_all("").length(),
					self.root.find("p:nth-child(2)").text(),
					self.root.find("i").closest("p").length(),
				);
			}
		}
	}
}
pub const OTHER_DOC: &str = "<!doctype html><html k=\"900\"><body k=\"901\">o</body></html>";

/// Compare one real subtree with the model (children, parents, indexes, attributes, text).
pub fn diff_sub(t: &Tree, i: usize, real: &BoxDynElement<'static>, path: &str) -> Option<String> {
	let raw = CONTENT_TAGS.contains(&t.tag(i));
	if raw {
		let (w, g) = (t.text_of(i), real.text());
		return (w != g).then(|| format!("{path}: content {w:?} vs {g:?}"));
	}
	let want = &t.nodes[i].kids;
	let got = real.child_nodes();
	if real.child_nodes_length() != got.len() {
		return Some(format!("{path}: child_nodes_length {} vs {}", real.child_nodes_length(), got.len()));
	}
	if want.len() != got.len() {
		return Some(format!("{path}: {} child nodes expected, {} found", want.len(), got.len()));
	}
	for (j, (&w, g)) in want.iter().zip(got).enumerate() {
		let p2 = format!("{path}/{j}");
		if g.index() != j {
			return Some(format!("{p2}: reports index {}", g.index()));
		}
		match g.parent() {
			Some(p) if p.is(real) => {}
			Some(_) => return Some(format!("{p2}: reports another parent")),
			None => return Some(format!("{p2}: reports no parent")),
		}
		match (&t.nodes[w].kind, g.node_type()) {
			(Kind::Elem(tag, attrs), INodeType::Element) => {
				let e = g.typed().into_element().unwrap();
				if e.tag_name().to_ascii_lowercase() != *tag {
					return Some(format!("{p2}: tag {tag} vs {}", e.tag_name()));
				}
				let ga: Vec<(String, Option<String>)> = e
					.get_attributes()
					.into_iter()
					.map(|(n, v)| (n, match v { IAttrValue::True => None, IAttrValue::Value(v, _) => Some(v) }))
					.collect();
				if &ga != attrs {
					return Some(format!("{p2}: attributes {attrs:?} vs {ga:?}"));
				}
				if let Some(d) = diff_sub(t, w, &e, &p2) {
					return Some(d);
				}
			}
			(Kind::Text(s), INodeType::Text) => {
				if &g.text_content() != s {
					return Some(format!("{p2}: text {s:?} vs {:?}", g.text_content()));
				}
			}
			(Kind::Comment(s), INodeType::Comment) => {
				if &g.text_content() != s {
					return Some(format!("{p2}: comment {s:?} vs {:?}", g.text_content()));
				}
			}
			(Kind::Doctype, INodeType::HTMLDOCTYPE) => {}
			(k, nt) => return Some(format!("{p2}: {k:?} vs {nt:?}")),
		}
	}
	None
}

/// Structure of everything: main document, fragments, every detached tree, every handle.
pub fn check_structure(w: &W, r: &R) -> Option<String> {
	if !w.root_gone {
		if let Some(d) = diff_sub(&w.t, 0, &r.r0, "document") {
			return Some(d);
		}
	}
	for (i, &f) in w.frag_roots.iter().enumerate() {
		if let Some(d) = diff_sub(&w.t, f, r.frags[i].get(0).unwrap(), &format!("fragment{i}")) {
			return Some(d);
		}
	}
	let key_of: HashMap<usize, usize> = w.by_mark.iter().map(|(m, id)| (*id, *m)).collect();
	for (m, &id) in &w.by_mark {
		let Some(h) = r.by_mark.get(m) else { return Some(format!("element {m} not found")) };
		match (w.t.nodes[id].parent, h.parent()) {
			(None, None) => {
				if let Some(d) = diff_sub(&w.t, id, h, &format!("detached {m}")) {
					return Some(d);
				}
			}
			(None, Some(_)) => return Some(format!("element {m} is taken out but reports a parent")),
			(Some(_), None) => return Some(format!("element {m} reports no parent")),
			(Some(p), Some(g)) => {
				let same = match key_of.get(&p) {
					Some(pm) => r.by_mark.get(pm).map_or(false, |x| x.is(&g)),
					None if p == 0 => g.is(&r.r0),
					// the parent is only reachable through the tree
					None if w.t.is_elem(p) => w.mark_of(p) == Some(mark(&g)),
					None => w.frag_roots.iter().position(|&x| x == p).map_or(false, |i| g.is(r.frags[i].get(0).unwrap())),
				};
				if !same {
					return Some(format!("element {m} reports another parent"));
				}
			}
		}
	}
	None
}

fn has_raw_markup(t: &Tree, i: usize) -> bool {
	(CONTENT_TAGS.contains(&t.tag(i)) && t.text_of(i).contains('<')) || t.nodes[i].kids.iter().any(|&k| has_raw_markup(t, k))
}

/// Serialised forms of everything.
pub fn check_source(w: &W, r: &R) -> Option<String> {
	let want = w.t.html();
	let got = r.root.document().map(|d| d.source_code()).unwrap_or_default();
	if want != got && !w.root_gone {
		return Some(format!("document: expected {want:?}, got {got:?}"));
	}
	for (m, &id) in &w.by_mark {
		if w.t.nodes[id].parent.is_none() {
			let (want, got) = (w.t.outer(id), r.by_mark[m].outer_html());
			// outer_html spells markup in raw text elements as entities
			if want != got && !has_raw_markup(&w.t, id) {
				return Some(format!("detached {m}: expected {want:?}, got {got:?}"));
			}
		}
	}
	for (i, &f) in w.frag_roots.iter().enumerate() {
		if w.root_copies.contains(&f) {
			continue;
		}
		let want: String = w.t.outer(f);
		let got = r.frags[i].document().map(|d| d.source_code()).unwrap_or_default();
		if want != got {
			return Some(format!("fragment{i}: expected {want:?}, got {got:?}"));
		}
	}
	None
}

/// Depth-first enumeration of all operation sequences of length 1..=depth from one start document.
/// Every sequence is replayed from scratch on the real library and judged by `monitor` at its end.
pub fn explore(
	ctx: &mut crate::engine::Ctx,
	start: &Tree,
	alphabet: &dyn Fn(&W, usize) -> Vec<Op>,
	depth: usize,
	monitor: &dyn Fn(&W, &R) -> Option<String>,
) {
	explore_reads(ctx, start, alphabet, depth, false, monitor)
}

/// The same; with `reads` the real side evaluates queries before each operation.
pub fn explore_reads(
	ctx: &mut crate::engine::Ctx,
	start: &Tree,
	alphabet: &dyn Fn(&W, usize) -> Vec<Op>,
	depth: usize,
	reads: bool,
	monitor: &dyn Fn(&W, &R) -> Option<String>,
) {
	let html = start.html();
	let w0 = W::new(start.clone());
	let firsts = alphabet(&w0, 0);
	for first in firsts {
		if !w0.enabled(&first) {
			continue;
		}
		if !ctx.case(|| format!("html={html:?} first={first:?}{}", if reads { " with reads" } else { "" })) {
			if !ctx.live() {
				return;
			}
			continue;
		}
		let mut hist = vec![];
		dfs(ctx, &html, &w0, &w0, first, &mut hist, alphabet, depth, reads, monitor);
		if !ctx.live() {
			return;
		}
	}
}

#[allow(clippy::too_many_arguments)]
fn dfs(
	ctx: &mut crate::engine::Ctx,
	html: &str,
	w0: &W,
	w: &W,
	op: Op,
	hist: &mut Vec<Op>,
	alphabet: &dyn Fn(&W, usize) -> Vec<Op>,
	depth: usize,
	reads: bool,
	monitor: &dyn Fn(&W, &R) -> Option<String>,
) {
	let mut w2 = w.clone();
	w2.apply(&op);
	hist.push(op);
	ctx.state(&w2.canonical());
	ctx.stats.transitions += hist.len() as u64 - 1;
	ctx.stats.traces += 1;
	let ok = ctx.expect(|| format!("{hist:?}"), &None, || {
		let mut r = R::new(html, w0.next);
		for o in hist.iter() {
			if reads {
				r.apply(&Op::Reads);
			}
			r.apply(o);
		}
		monitor(&w2, &r)
	});
	if ok && w2.t.html() != w.t.html() {
		ctx.stats.nonempty += 1;
	}
	if ok && hist.len() < depth {
		for o in alphabet(&w2, hist.len()) {
			if !w2.enabled(&o) {
				continue;
			}
			dfs(ctx, html, w0, &w2, o, hist, alphabet, depth, reads, monitor);
			if !ctx.live() {
				break;
			}
		}
	}
	hist.pop();
}

/// Start documents: every shape of <= n elements, elements `p`, with one labelled variation per element.
pub fn starts(n: usize, fills: &[Fill]) -> Vec<Tree> {
	let mut v = vec![];
	for k in 1..=n {
		for s in forests(k) {
			for &f in fills {
				v.push(build(&s, |i| (["p", "b", "i", "p", "u"][i % 5], vec![]), f));
			}
		}
	}
	v
}

/// Single-handle structural operations over all live marks.
pub fn single_ops(w: &W, max_mark: usize, frags: &[usize], texts: bool) -> Vec<Op> {
	let mut marks: Vec<usize> = w.by_mark.keys().copied().filter(|&m| m < max_mark).collect();
	marks.sort();
	let mut v = vec![];
	for &a in &marks {
		for p in POS {
			for &b in &marks {
				v.push(Op::Insert(vec![a], p, vec![b]));
			}
			for &f in frags {
				v.push(Op::InsertFrag(vec![a], p, f));
			}
		}
		for &b in &marks {
			v.push(Op::Replace(vec![a], vec![b]));
		}
		for &f in frags {
			v.push(Op::ReplaceFrag(vec![a], f));
			v.push(Op::SetHtml(vec![a], f));
		}
		v.push(Op::Remove(vec![a]));
		v.push(Op::Empty(vec![a]));
		v.push(Op::SetText(vec![a], "s"));
		if texts {
			for n in 0..2 {
				v.push(Op::TextRemove(a, n));
				for &f in frags {
					v.push(Op::TextSetHtml(a, n, f));
				}
			}
		}
	}
	if texts {
		v.push(Op::RootTextRemove(0));
		v.push(Op::RootTextRemove(1));
		for &f in frags {
			v.push(Op::RootTextSetHtml(0, f));
			v.push(Op::RootTextSetHtml(1, f));
		}
	}
	v
}

/// The methods of single elements.
pub fn element_ops(w: &W, max_mark: usize) -> Vec<Op> {
	let mut marks: Vec<usize> = w.by_mark.keys().copied().filter(|&m| m < max_mark).collect();
	marks.sort();
	let mut v = vec![];
	for &a in &marks {
		for &b in &marks {
			v.push(Op::RemoveChild(a, b));
			v.push(Op::ElReplace(a, b));
		}
	}
	v
}
