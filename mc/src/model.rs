//! Reference document model: a plain arena tree, its HTML spelling and its element relations.
use visdom::types::{BoxDynElement, Elements, IAttrValue, INodeType};
use visdom::Vis;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
	Root,
	/// tag, attributes in order (None = flag attribute)
	Elem(String, Vec<(String, Option<String>)>),
	/// *decoded* text
	Text(String),
	Comment(String),
	Doctype,
}

#[derive(Clone, Debug)]
pub struct Node {
	pub kind: Kind,
	pub parent: Option<usize>,
	pub kids: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Tree {
	pub nodes: Vec<Node>,
}

pub const CONTENT_TAGS: [&str; 4] = ["title", "script", "style", "textarea"];
pub const VOID_TAGS: [&str; 5] = ["br", "img", "input", "meta", "hr"];

pub fn enc_text(s: &str) -> String {
	let mut o = String::with_capacity(s.len());
	for c in s.chars() {
		match c {
			'<' => o.push_str("&lt;"),
			'>' => o.push_str("&gt;"),
			'&' => o.push_str("&amp;"),
			c => o.push(c),
		}
	}
	o
}

impl Tree {
	pub fn new() -> Self {
		Tree { nodes: vec![Node { kind: Kind::Root, parent: None, kids: vec![] }] }
	}
	pub fn add(&mut self, parent: usize, kind: Kind) -> usize {
		let id = self.nodes.len();
		self.nodes.push(Node { kind, parent: Some(parent), kids: vec![] });
		self.nodes[parent].kids.push(id);
		id
	}
	pub fn elem(&mut self, parent: usize, tag: &str, attrs: &[(&str, &str)]) -> usize {
		self.add(
			parent,
			Kind::Elem(tag.into(), attrs.iter().map(|(a, b)| (a.to_string(), Some(b.to_string()))).collect()),
		)
	}
	pub fn text(&mut self, parent: usize, t: &str) -> usize {
		self.add(parent, Kind::Text(t.into()))
	}
	pub fn is_elem(&self, i: usize) -> bool {
		matches!(self.nodes[i].kind, Kind::Elem(..))
	}
	pub fn tag(&self, i: usize) -> &str {
		match &self.nodes[i].kind {
			Kind::Elem(t, _) => t,
			_ => "",
		}
	}
	pub fn attr(&self, i: usize, name: &str) -> Option<Option<&str>> {
		match &self.nodes[i].kind {
			Kind::Elem(_, a) => {
				// the parser keeps the last duplicate; alphabets avoid duplicates
				a.iter().rev().find(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_deref())
			}
			_ => None,
		}
	}
	pub fn html(&self) -> String {
		let mut s = String::new();
		for &k in &self.nodes[0].kids {
			self.node_html(k, &mut s);
		}
		s
	}
	pub fn outer(&self, i: usize) -> String {
		let mut s = String::new();
		self.node_html(i, &mut s);
		s
	}
	pub fn inner(&self, i: usize) -> String {
		let mut s = String::new();
		let raw = CONTENT_TAGS.contains(&self.tag(i));
		for &k in &self.nodes[i].kids {
			if raw {
				if let Kind::Text(t) = &self.nodes[k].kind {
					s.push_str(t);
					continue;
				}
			}
			self.node_html(k, &mut s);
		}
		s
	}
	pub fn node_html(&self, i: usize, s: &mut String) {
		match &self.nodes[i].kind {
			Kind::Root => {
				for &k in &self.nodes[i].kids {
					self.node_html(k, s)
				}
			}
			Kind::Doctype => s.push_str("<!doctype html>"),
			Kind::Text(t) => s.push_str(&enc_text(t)),
			Kind::Comment(t) => {
				s.push_str("<!--");
				s.push_str(t);
				s.push_str("-->");
			}
			Kind::Elem(t, a) => {
				s.push('<');
				s.push_str(t);
				for (n, v) in a {
					s.push(' ');
					s.push_str(n);
					if let Some(v) = v {
						s.push_str("=\"");
						s.push_str(v);
						s.push('"');
					}
				}
				s.push('>');
				if VOID_TAGS.contains(&t.as_str()) {
					return;
				}
				let raw = CONTENT_TAGS.contains(&t.as_str());
				for &k in &self.nodes[i].kids {
					if raw {
						if let Kind::Text(t) = &self.nodes[k].kind {
							s.push_str(t);
							continue;
						}
					}
					self.node_html(k, s);
				}
				s.push_str("</");
				s.push_str(t);
				s.push('>');
			}
		}
	}
	pub fn text_of(&self, i: usize) -> String {
		let mut s = String::new();
		self.text_rec(i, &mut s);
		s
	}
	fn text_rec(&self, i: usize, s: &mut String) {
		match &self.nodes[i].kind {
			Kind::Text(t) => s.push_str(t),
			Kind::Elem(..) | Kind::Root => {
				for &k in &self.nodes[i].kids {
					self.text_rec(k, s)
				}
			}
			_ => {}
		}
	}
	/// all element ids in document order
	pub fn elements(&self) -> Vec<usize> {
		let mut v = vec![];
		self.pre(0, &mut |t, i| {
			if t.is_elem(i) {
				v.push(i)
			}
		});
		v
	}
	pub fn pre(&self, i: usize, f: &mut impl FnMut(&Tree, usize)) {
		f(self, i);
		for &k in &self.nodes[i].kids {
			self.pre(k, f);
		}
	}
}

/// Bit-mask view of a document: bit `e` = e-th element in document order.
pub type Mask = u64;

pub struct View<'t> {
	pub tree: &'t Tree,
	/// node id of element e
	pub ids: Vec<usize>,
	pub parent: Vec<Option<usize>>,
	pub kids: Vec<Mask>,
	pub desc: Vec<Mask>,
	pub next: Vec<Mask>,
	pub next_all: Vec<Mask>,
	pub prev: Vec<Mask>,
	pub prev_all: Vec<Mask>,
	pub parent_m: Vec<Mask>,
	pub anc: Vec<Mask>,
	/// element children of the (virtual) root
	pub top: Mask,
}

pub fn bits(m: Mask) -> impl Iterator<Item = usize> {
	let mut m = m;
	std::iter::from_fn(move || {
		if m == 0 {
			None
		} else {
			let i = m.trailing_zeros() as usize;
			m &= m - 1;
			Some(i)
		}
	})
}

impl<'t> View<'t> {
	pub fn new(tree: &'t Tree) -> Self {
		let ids = tree.elements();
		let n = ids.len();
		assert!(n < 64);
		let pos = |id: usize| ids.iter().position(|&x| x == id).unwrap();
		let mut v = View {
			tree,
			parent: vec![None; n],
			kids: vec![0; n],
			desc: vec![0; n],
			next: vec![0; n],
			next_all: vec![0; n],
			prev: vec![0; n],
			prev_all: vec![0; n],
			parent_m: vec![0; n],
			anc: vec![0; n],
			top: 0,
			ids: ids.clone(),
		};
		for e in 0..n {
			let p = tree.nodes[ids[e]].parent.unwrap();
			if p == 0 {
				v.top |= 1 << e;
			} else {
				let p = pos(p);
				v.parent[e] = Some(p);
				v.parent_m[e] = 1 << p;
				v.kids[p] |= 1 << e;
			}
		}
		for e in 0..n {
			let mut a = v.parent[e];
			while let Some(p) = a {
				v.desc[p] |= 1 << e;
				v.anc[e] |= 1 << p;
				a = v.parent[p];
			}
			let sib = match v.parent[e] {
				Some(p) => v.kids[p],
				None => v.top,
			};
			let below: Mask = (1 << e) - 1;
			v.prev_all[e] = sib & below;
			v.next_all[e] = sib & !below & !(1 << e);
			if v.prev_all[e] != 0 {
				v.prev[e] = 1 << (63 - v.prev_all[e].leading_zeros());
			}
			v.next[e] = v.next_all[e] & v.next_all[e].wrapping_neg();
		}
		v
	}
	pub fn n(&self) -> usize {
		self.ids.len()
	}
	pub fn all(&self) -> Mask {
		if self.n() == 0 {
			0
		} else {
			(!0u64) >> (64 - self.n())
		}
	}
	pub fn siblings_incl(&self, e: usize) -> Mask {
		match self.parent[e] {
			Some(p) => self.kids[p],
			None => self.top,
		}
	}
	pub fn map(&self, m: Mask, rel: &[Mask]) -> Mask {
		let mut r = 0;
		for e in bits(m) {
			r |= rel[e];
		}
		r
	}
}

/// All ordered forests with exactly n nodes, as parent vectors in preorder (parent < child; usize::MAX = root).
pub fn forests(n: usize) -> Vec<Vec<usize>> {
	fn rec(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
		let i = cur.len();
		if i == n {
			out.push(cur.clone());
			return;
		}
		// preorder: parent of node i is i-1 or an ancestor of i-1, or root
		let mut cands = vec![usize::MAX];
		if i > 0 {
			let mut a = i - 1;
			let mut chain = vec![];
			loop {
				chain.push(a);
				if cur[a] == usize::MAX {
					break;
				}
				a = cur[a];
			}
			chain.reverse();
			cands.extend(chain);
		}
		for c in cands {
			cur.push(c);
			rec(n, cur, out);
			cur.pop();
		}
	}
	let mut out = vec![];
	rec(n, &mut vec![], &mut out);
	out
}

/// All words of length n over 0..k
pub fn words(n: usize, k: usize) -> impl Iterator<Item = Vec<usize>> {
	let total = (k as u64).pow(n as u32);
	(0..total).map(move |mut x| {
		let mut w = Vec::with_capacity(n);
		for _ in 0..n {
			w.push((x % k as u64) as usize);
			x /= k as u64;
		}
		w
	})
}

/// How non-element nodes are interleaved with the elements of a generated document.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fill {
	None,
	/// text before every element and at the end of every parent
	Text,
	/// comment before, whitespace after
	Mixed,
}

/// Build a document from a shape and a labelling; every element carries `k="<preorder number>"`.
pub fn build(shape: &[usize], label: impl Fn(usize) -> (&'static str, Vec<(&'static str, &'static str)>), fill: Fill) -> Tree {
	let mut t = Tree::new();
	let mut id = vec![0usize; shape.len()];
	// children lists
	let n = shape.len();
	let mut kids: Vec<Vec<usize>> = vec![vec![]; n];
	let mut top = vec![];
	for i in 0..n {
		if shape[i] == usize::MAX {
			top.push(i)
		} else {
			kids[shape[i]].push(i)
		}
	}
	fn rec(
		t: &mut Tree,
		parent: usize,
		list: &[usize],
		kids: &[Vec<usize>],
		id: &mut [usize],
		label: &dyn Fn(usize) -> (&'static str, Vec<(&'static str, &'static str)>),
		fill: Fill,
	) {
		for &i in list {
			match fill {
				Fill::Text => {
					t.text(parent, "t");
				}
				Fill::Mixed => {
					t.add(parent, Kind::Comment("c".into()));
				}
				Fill::None => {}
			}
			let (tag, attrs) = label(i);
			let e = t.elem(parent, tag, &attrs);
			if let Kind::Elem(_, a) = &mut t.nodes[e].kind {
				a.insert(0, ("k".into(), Some(i.to_string())));
			}
			id[i] = e;
			rec(t, e, &kids[i], kids, id, label, fill);
			if fill == Fill::Mixed {
				t.text(parent, " ");
			}
		}
		if fill == Fill::Text && !list.is_empty() {
			t.text(parent, "u");
		}
	}
	rec(&mut t, 0, &top, &kids, &mut id, &label, fill);
	t
}

// ---------- the real side ----------

pub fn load(html: &str) -> Elements<'static> {
	match Vis::load(html.to_string()) {
		Ok(e) => e,
		Err(e) => panic!("load failed for {html:?}: {e}"),
	}
}

/// all elements below `root` in document order, found by walking child nodes
pub fn real_elements(root: &BoxDynElement<'static>) -> Vec<BoxDynElement<'static>> {
	fn rec(e: &BoxDynElement<'static>, out: &mut Vec<BoxDynElement<'static>>) {
		for n in e.child_nodes() {
			if matches!(n.node_type(), INodeType::Element) {
				if let Some(c) = n.typed().into_element() {
					out.push(c.cloned());
					rec(&c, out);
				}
			}
		}
	}
	let mut v = vec![];
	rec(root, &mut v);
	v
}

pub fn subset(all: &[BoxDynElement<'static>], m: Mask) -> Elements<'static> {
	Elements::with_nodes(bits(m).map(|i| all[i].cloned()).collect())
}

/// the `k` marks of a result, in result order
pub fn marks(e: &Elements) -> Vec<usize> {
	e.get_ref().iter().map(|x| mark(x)).collect()
}
pub fn mark(x: &BoxDynElement) -> usize {
	match x.get_attribute("k") {
		Some(IAttrValue::Value(v, _)) => v.parse().unwrap_or(9999),
		_ => 9998,
	}
}
pub fn mask_vec(m: Mask) -> Vec<usize> {
	bits(m).collect()
}

/// Does the real document have exactly the model's structure?  Returns a difference.
pub fn diff_tree(t: &Tree, real: &BoxDynElement<'static>) -> Option<String> {
	fn rec(t: &Tree, i: usize, real: &BoxDynElement<'static>, path: &str) -> Option<String> {
		let want = &t.nodes[i].kids;
		let raw = CONTENT_TAGS.contains(&t.tag(i));
		let got = real.child_nodes();
		if raw {
			let w = t.text_of(i);
			let g = real.text();
			if w != g {
				return Some(format!("{path}: content {w:?} vs {g:?}"));
			}
			return None;
		}
		if want.len() != got.len() {
			return Some(format!("{path}: {} children expected, {} found ({})", want.len(), got.len(), real.outer_html()));
		}
		for (j, (&w, g)) in want.iter().zip(got).enumerate() {
			if g.index() != j {
				return Some(format!("{path}/{j}: reports index {}", g.index()));
			}
			match g.parent() {
				Some(p) => {
					if !p.is(real) {
						return Some(format!("{path}/{j}: reports another parent"));
					}
				}
				None => return Some(format!("{path}/{j}: reports no parent")),
			}
			let p2 = format!("{path}/{j}");
			match (&t.nodes[w].kind, g.node_type()) {
				(Kind::Elem(tag, attrs), INodeType::Element) => {
					let e = g.typed().into_element().unwrap();
					if e.tag_name() != tag.to_ascii_uppercase() {
						return Some(format!("{p2}: tag {tag} vs {}", e.tag_name()));
					}
					let ga = e.get_attributes();
					if ga.len() != attrs.len() {
						return Some(format!("{p2}: attrs {attrs:?} vs {ga:?}"));
					}
					for ((n, v), (gn, gv)) in attrs.iter().zip(&ga) {
						let same = n.to_ascii_lowercase() == *gn
							&& match (v, gv) {
								(None, IAttrValue::True) => true,
								(Some(v), IAttrValue::Value(w, _)) => v == w,
								_ => false,
							};
						if !same {
							return Some(format!("{p2}: attrs {attrs:?} vs {ga:?}"));
						}
					}
					if let Some(d) = rec(t, w, &e, &p2) {
						return Some(d);
					}
				}
				(Kind::Text(s), INodeType::Text) => {
					if &g.text_content() != s {
						return Some(format!("{p2}: text {s:?} vs {:?}", g.text_content()));
					}
				}
				(Kind::Comment(s), INodeType::Comment) => {
					if &g.text_content() != s {
						return Some(format!("{p2}: comment {s:?} vs {:?}", g.text_content()));
					}
				}
				(Kind::Doctype, INodeType::HTMLDOCTYPE) => {}
				(k, nt) => return Some(format!("{p2}: {k:?} vs {nt:?}")),
			}
		}
		None
	}
	rec(t, 0, real, "")
}

/// Characters for the alphabet sweeps: all of ASCII, and other characters which a rule about white space, letter case,
/// byte offsets or UTF-16 could treat specially.
pub fn chars() -> Vec<char> {
	let mut v: Vec<char> = (0u8..=127).map(|b| b as char).collect();
	v.extend("\u{80}\u{85}\u{a0}\u{ad}éÉßÿİıΣσςЖ\u{300}\u{1680}\u{2003}\u{200b}\u{200d}\u{2028}\u{2029}\u{202f}\u{212a}\u{3000}中\u{e000}\u{fb01}\u{feff}\u{fffd}\u{ffff}\u{10000}😀\u{1f1e9}\u{10ffff}".chars());
	v
}

/// a character alone, before, after and between letters
pub fn around(c: char) -> [String; 4] {
	[c.to_string(), format!("{c}x"), format!("x{c}"), format!("x{c}y")]
}

/// all orders of 0..n
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
	let mut out = vec![vec![]];
	for k in 0..n {
		out = out.into_iter().flat_map(|v: Vec<usize>| (0..=k).map(move |i| { let mut w = v.clone(); w.insert(i, k); w })).collect();
	}
	out
}
