//! C04: :not, :has, :contains, :empty, :root, :header, :input, :submit, :checked.
use crate::engine::Ctx;
use crate::model::*;
use crate::sel::*;

fn args() -> Vec<Sel> {
	use Simple::*;
	let c = |v: Vec<Simple>| -> Complex { v.into() };
	let one = |v: Vec<Simple>| -> Sel { v.into() };
	let two = |a: Vec<Simple>, k: Comb, b: Vec<Simple>| -> Sel { chain(a, vec![(k, b)]).into() };
	let mut v = vec![
		one(vec![Any]),
		one(vec![tag("a")]),
		one(vec![tag("b")]),
		one(vec![class("x")]),
		one(vec![id("i")]),
		one(vec![attr("t", "", "")]),
		one(vec![attr("t", "=", "1)")]),
		one(vec![tag("a"), class("x")]),
		one(vec![Kw(":first-child")]),
		one(vec![Kw(":last-of-type")]),
		one(vec![Nth(false, false, 2, 0)]),
		one(vec![Nth(true, true, -1, 1), tag("a")]),
	];
	for k in COMBS {
		v.push(two(vec![tag("a")], k, vec![class("x")]));
		v.push(two(vec![Any], k, vec![tag("b")]));
	}
	v.push(chain(vec![tag("a")], vec![(Comb::Child, vec![Any]), (Comb::Desc, vec![tag("b")])]).into());
	v.push(Sel(vec![c(vec![tag("a")]), c(vec![class("x")])]));
	v.push(Sel(vec![c(vec![class("x")]), chain(vec![tag("b")], vec![(Comb::Child, vec![tag("a")])])]));
	v.push(Sel(vec![chain(vec![tag("a")], vec![(Comb::Adj, vec![Any])]), c(vec![id("i")]), c(vec![tag("b")])]));
	v
}

/// one or two levels of nesting around the base arguments
fn nested(base: &[Sel]) -> Vec<Sel> {
	use Simple::*;
	let mut v = vec![];
	for s in base {
		v.push(vec![Not(s.clone())].into());
		v.push(vec![Has(s.clone())].into());
		v.push(vec![tag("a"), Not(s.clone())].into());
		v.push(vec![Not(s.clone()), class("x")].into());
		v.push(chain(vec![Not(s.clone())], vec![(Comb::Child, vec![Any])]).into());
		v.push(chain(vec![tag("a")], vec![(Comb::Desc, vec![Has(s.clone())])]).into());
		v.push(Sel(vec![vec![Has(s.clone())].into(), vec![tag("b")].into()]));
		v.push(Sel(vec![vec![tag("b")].into(), vec![Not(s.clone())].into()]));
	}
	v
}

fn wrap(s: &Sel) -> Vec<Sel> {
	use Simple::*;
	vec![
		vec![Not(s.clone())].into(),
		vec![Has(s.clone())].into(),
		vec![tag("a"), Not(s.clone())].into(),
		vec![class("x"), Has(s.clone())].into(),
		vec![Has(s.clone()), Not(s.clone())].into(),
		chain(vec![Not(s.clone())], vec![(Comb::Child, vec![Any])]).into(),
		chain(vec![Any], vec![(Comb::Child, vec![Has(s.clone())])]).into(),
		chain(vec![Any], vec![(Comb::Adj, vec![Not(s.clone())])]).into(),
		chain(vec![Has(s.clone())], vec![(Comb::Sib, vec![Not(s.clone())])]).into(),
		Sel(vec![vec![Not(s.clone())].into(), vec![tag("a")].into()]),
	]
}

struct Doc {
	html: String,
	root: visdom::types::Elements<'static>,
	all: Vec<visdom::types::BoxDynElement<'static>>,
}

fn open(ctx: &mut Ctx, t: &Tree) -> Option<Doc> {
	let html = t.html();
	if !ctx.case(|| format!("html={html:?}")) {
		return None;
	}
	ctx.state(&html);
	let root = load(&html);
	let r0 = root.get(0).unwrap().cloned();
	if let Some(d) = diff_tree(t, &r0) {
		ctx.fail("load", &d);
		return None;
	}
	let all = real_elements(&r0);
	ctx.stats.traces += 1;
	Some(Doc { html, root, all })
}

fn ask(ctx: &mut Ctx, d: &Doc, v: &View, txt: &str, want: Mask, subsets: bool) -> bool {
	let w = mask_vec(want);
	if want != 0 {
		ctx.stats.nonempty += 1;
	}
	if !ctx.expect(|| format!("root.find({txt:?})"), &w, || marks(&d.root.find(txt))) {
		return false;
	}
	let every = subset(&d.all, v.all());
	if !ctx.expect(|| format!("all.filter({txt:?})"), &w, || marks(&every.filter(txt))) {
		return false;
	}
	let neg = mask_vec(v.all() & !want);
	if !ctx.expect(|| format!("all.not({txt:?})"), &neg, || marks(&every.not(txt))) {
		return false;
	}
	for e in 0..v.n() {
		let b = want >> e & 1 == 1;
		let s = subset(&d.all, 1 << e);
		if !ctx.expect(|| format!("[{e}].is({txt:?})"), &b, || s.is(txt)) {
			return false;
		}
	}
	if subsets {
		for m in 1..v.all() {
			let s = subset(&d.all, m);
			if !ctx.expect(|| format!("{:?}.filter({txt:?})", mask_vec(m)), &mask_vec(m & want), || marks(&s.filter(txt))) {
				return false;
			}
		}
	}
	true
}

pub fn run(ctx: &mut Ctx) {
	logical(ctx);
	if ctx.live() {
		content(ctx);
	}
	if ctx.live() {
		forms(ctx);
	}
	if ctx.live() {
		roots(ctx);
	}
	if ctx.live() {
		letters(ctx);
	}
	if ctx.live() {
		crate::big::c04(ctx);
	}
}

fn logical(ctx: &mut Ctx) {
	let base = args();
	let sps = [Sp::Normal, Sp::Tight, Sp::Wide];
	let mut sels: Vec<Sel> = base.iter().flat_map(wrap).collect();
	let n1 = nested(&base);
	for s in &n1 {
		sels.push(vec![Simple::Not(s.clone())].into());
		sels.push(vec![Simple::Has(s.clone())].into());
		sels.push(vec![Simple::Has(s.clone()), tag("a")].into());
	}
	for s in nested(&n1[..24.min(n1.len())]) {
		sels.push(vec![Simple::Not(s.clone())].into());
		sels.push(vec![Simple::Has(s.clone())].into());
	}
	let q: Vec<(Sel, String)> = sels.into_iter().enumerate().map(|(i, s)| { let t = s.text(sps[i % 3]); (s, t) }).collect();
	let lb = [
		("a", vec![]),
		("b", vec![("class", "x")]),
		("a", vec![("id", "i"), ("class", "x"), ("t", "1)")]),
	];
	let nmax = ctx.tier.pick(3, 4);
	ctx.bound(format!("logical: all labelled trees of <= {nmax} elements over 3 labels x {} selectors with :not/:has nested up to depth 4", q.len()));
	for n in 1..=nmax {
		for shape in forests(n) {
			for w in words(n, lb.len()) {
				let fill = if w[0] == 1 { Fill::Mixed } else { Fill::None };
				let t = build(&shape, |i| lb[w[i]].clone(), fill);
				let Some(d) = open(ctx, &t) else {
					if !ctx.live() {
						return;
					}
					continue;
				};
				let v = View::new(&t);
				for (s, txt) in &q {
					let want = s.matched_in_doc(&v);
					if !ask(ctx, &d, &v, txt, want, n <= 2) {
						return;
					}
				}
				let _ = &d.html;
			}
		}
	}
}

#[derive(Clone, Copy)]
enum C {
	T(&'static str),
	Com(&'static str),
	E(&'static str, &'static [C]),
}

fn put(t: &mut Tree, p: usize, cs: &[C], k: &mut usize) {
	for c in cs {
		match c {
			C::T(s) => {
				t.text(p, s);
			}
			C::Com(s) => {
				t.add(p, Kind::Comment(s.to_string()));
			}
			C::E(g, kids) => {
				let e = t.add(p, Kind::Elem(g.to_string(), vec![("k".into(), Some(k.to_string()))]));
				*k += 1;
				put(t, e, kids, k);
			}
		}
	}
}

/// adjacent text nodes would merge when parsed
fn mergeable(cs: &[C]) -> bool {
	cs.windows(2).any(|w| matches!((&w[0], &w[1]), (C::T(_), C::T(_))))
}

fn content(ctx: &mut Ctx) {
	const IN: [&[C]; 5] = [&[], &[C::T("ab")], &[C::Com("ab")], &[C::T(" ")], &[C::E("i", &[]), C::T("b")]];
	let mut items = vec![C::T("ab"), C::T("b<c"), C::T(" "), C::T("a é"), C::Com("abc")];
	for x in IN {
		items.push(C::E("s", x));
	}
	items.push(C::E("title", &[]));
	items.push(C::E("title", &[C::T("ab")]));
	items.push(C::E("textarea", &[C::T(" ")]));
	items.push(C::E("textarea", &[]));
	items.push(C::E("script", &[C::T("b")]));
	items.push(C::E("style", &[]));
	items.push(C::E("br", &[]));
	let max = ctx.tier.pick(3, 4);
	let mut needles: Vec<String> = vec![];
	for a in ["", "a", "b", "c", "ab", "ba", "abb", "bc", "aba", "abab", "é", "a é", "b<c", "<c", " ", "  ", "b ", "lt", "&lt;", "A"] {
		needles.push(a.into());
	}
	let mut q: Vec<(Simple, String)> = vec![];
	for n in &needles {
		let s = Simple::Contains(n.clone());
		if !n.contains('"') {
			q.push((s.clone(), format!(":contains(\"{n}\")")));
			q.push((s.clone(), format!(":contains( \"{n}\" )")));
		}
		q.push((s.clone(), format!(":contains('{n}')")));
		if !n.chars().any(|c| c.is_whitespace() || "'\"<>/=`)".contains(c)) {
			q.push((s.clone(), format!(":contains({n})")));
			q.push((s.clone(), format!(":contains( {n})")));
		}
	}
	q.push((Simple::Kw(":empty"), ":empty".into()));
	ctx.bound(format!("content: all child sequences of length <= {max} over {} items (text, whitespace, comments, elements, content tags) inside an element x {} :contains/:empty spellings x 5 compound contexts", items.len(), q.len()));
	for n in 0..=max {
		for w in words(n, items.len()) {
			let seq: Vec<C> = w.iter().map(|&i| items[i]).collect();
			if mergeable(&seq) {
				continue;
			}
			let mut t = Tree::new();
			let p = t.elem(0, "p", &[("k", "0")]);
			let mut k = 1;
			put(&mut t, p, &seq, &mut k);
			let Some(d) = open(ctx, &t) else {
				if !ctx.live() {
					return;
				}
				continue;
			};
			let v = View::new(&t);
			for (s, txt) in &q {
				let m = compound_mask(&vec![s.clone()], &v);
				if !ask(ctx, &d, &v, txt, m, false) {
					return;
				}
				if n <= 2 {
					let kids = step(&v, Start { root: false, set: m }, Comb::Child);
					let tm = compound_mask(&vec![tag("s")], &v);
					if !(ask(ctx, &d, &v, &format!("s{txt}"), m & tm, false)
						&& ask(ctx, &d, &v, &format!("{txt} > *"), kids, false)
						&& ask(ctx, &d, &v, &format!("p > {txt}"), m & v.kids[0], false)
						&& ask(ctx, &d, &v, &format!(":not({txt})"), v.all() & !m, false))
					{
						return;
					}
				}
			}
		}
	}
}

fn forms(ctx: &mut Ctx) {
	// every kind of control in one document, all attribute combinations
	let mut t = Tree::new();
	let mut k = 0;
	let mut docs = vec![];
	let tags = ["input", "button", "select", "textarea", "option", "p", "h1", "h2", "h3", "h4", "h5", "h6", "h7", "header", "form", "hr"];
	let types: [Option<Option<&str>>; 9] = [
		None,
		Some(None),
		Some(Some("")),
		Some(Some("submit")),
		Some(Some("checkbox")),
		Some(Some("radio")),
		Some(Some("text")),
		Some(Some("CHECKBOX")),
		Some(Some("Radio")),
	];
	let flags: [Option<Option<&str>>; 3] = [None, Some(None), Some(Some("checked"))];
	for tg in tags {
		for ty in types {
			for ck in flags {
				for sel in [false, true] {
					let mut a: Vec<(String, Option<String>)> = vec![("k".into(), Some(k.to_string()))];
					if let Some(x) = ty {
						a.push(("type".into(), x.map(|s| s.to_string())));
					}
					if let Some(x) = ck {
						a.push(("checked".into(), x.map(|s| s.to_string())));
					}
					if sel {
						a.push(("selected".into(), None));
					}
					t.add(0, Kind::Elem(tg.to_string(), a));
					k += 1;
					if k == 54 {
						docs.push(std::mem::replace(&mut t, Tree::new()));
						k = 0;
					}
				}
			}
		}
	}
	if k > 0 {
		docs.push(t);
	}
	ctx.bound(format!("kinds: {} tags x 9 type states x 3 checked states x 2 selected states", tags.len()));
	for t in &docs {
		let Some(d) = open(ctx, t) else {
			if !ctx.live() {
				return;
			}
			continue;
		};
		let v = View::new(t);
		for kw in [":header", ":input", ":submit", ":checked"] {
			let m = compound_mask(&vec![Simple::Kw(kw)], &v);
			if !ask(ctx, &d, &v, kw, m, false) {
				return;
			}
			for tg in tags {
				let tm = compound_mask(&vec![tag(tg)], &v);
				if !(ask(ctx, &d, &v, &format!("{tg}{kw}"), m & tm, false)
					&& ask(ctx, &d, &v, &format!("{tg}:not({kw})"), tm & !m, false)
					&& ask(ctx, &d, &v, &format!("{kw}, {tg}"), m | tm, false))
				{
					return;
				}
			}
		}
	}
	// nesting: kinds as descendants, siblings, arguments
	let lb: [(&'static str, Vec<(&'static str, &'static str)>); 5] = [
		("h2", vec![]),
		("input", vec![("type", "submit")]),
		("button", vec![("type", "submit")]),
		("div", vec![]),
		("input", vec![("type", "radio"), ("checked", "")]),
	];
	let pats: Vec<Sel> = {
		use Simple::*;
		let mut v = vec![];
		for kw in [":header", ":input", ":submit", ":checked"] {
			for c in COMBS {
				v.push(chain(vec![Any], vec![(c, vec![Kw(kw)])]).into());
				v.push(chain(vec![Kw(kw)], vec![(c, vec![Any])]).into());
				v.push(chain(vec![tag("div")], vec![(c, vec![tag("input"), Kw(kw)])]).into());
			}
			v.push(vec![Has(vec![Kw(kw)].into())].into());
			v.push(vec![Not(vec![Kw(kw)].into())].into());
			v.push(vec![Kw(kw), Kw(":first-child")].into());
			v.push(vec![Kw(kw), Not(vec![Kw(":submit")].into())].into());
		}
		v
	};
	let n = ctx.tier.pick(3, 4);
	ctx.bound(format!("kinds in trees of <= {n} elements over 5 labels x {} selectors", pats.len()));
	for n in 1..=n {
		for shape in forests(n) {
			'w: for w in words(n, lb.len()) {
				for i in 0..n {
					// void elements have no children; controls are not nested
					if shape[i] != usize::MAX && lb[w[shape[i]]].0 == "input" {
						continue 'w;
					}
				}
				let t = build(&shape, |i| lb[w[i]].clone(), Fill::None);
				let Some(d) = open(ctx, &t) else {
					if !ctx.live() {
						return;
					}
					continue;
				};
				let v = View::new(&t);
				for s in &pats {
					if !ask(ctx, &d, &v, &s.text(Sp::Normal), s.matched_in_doc(&v), false) {
						return;
					}
				}
			}
		}
	}
	// selects
	let mut subs: Vec<Vec<C2>> = vec![vec![]];
	let items = [C2::O(false), C2::O(true), C2::G(&[]), C2::G(&[false]), C2::G(&[true]), C2::G(&[false, true]), C2::G(&[false, false]), C2::Other];
	let max = ctx.tier.pick(3, 5);
	let mut last = subs.clone();
	for _ in 0..max {
		let mut nx = vec![];
		for s in &last {
			for i in items {
				let mut s2: Vec<C2> = s.clone();
				s2.push(i);
				nx.push(s2);
			}
		}
		subs.extend(nx.iter().cloned());
		last = nx;
	}
	ctx.bound(format!("selects: {} option/optgroup sequences x 3 multiple states, :checked", subs.len()));
	for sub in &subs {
		for mult in [None, Some(None), Some(Some(""))] {
			let t = select_doc(sub, mult, false);
			let Some(d) = open(ctx, &t) else {
				if !ctx.live() {
					return;
				}
				continue;
			};
			let v = View::new(&t);
			let m = compound_mask(&vec![Simple::Kw(":checked")], &v);
			if !(ask(ctx, &d, &v, ":checked", m, false)
				&& ask(ctx, &d, &v, "option:checked", m, false)
				&& ask(ctx, &d, &v, "select > :checked", m & v.kids[0], false)
				&& ask(ctx, &d, &v, "option:not(:checked)", compound_mask(&vec![tag("option")], &v) & !m, false))
			{
				return;
			}
		}
	}
}

#[derive(Clone, Copy, Debug)]
pub enum C2 {
	/// option, selected?
	O(bool),
	/// optgroup with options
	G(&'static [bool]),
	/// another element between
	Other,
}

/// a select document; options carry value="v<k>" (or text only when `txt`)
pub fn select_doc(sub: &[C2], mult: Option<Option<&str>>, txt: bool) -> Tree {
	let mut t = Tree::new();
	let mut k = 1;
	let s = t.elem(0, "select", &[("k", "0")]);
	if let Some(m) = mult {
		if let Kind::Elem(_, a) = &mut t.nodes[s].kind {
			a.push(("multiple".into(), m.map(|s| s.to_string())));
		}
	}
	fn opt(t: &mut Tree, p: usize, sel: bool, k: &mut usize, txt: bool) {
		let e = t.elem(p, "option", &[("k", &k.to_string())]);
		if let Kind::Elem(_, a) = &mut t.nodes[e].kind {
			if sel {
				a.push(("selected".into(), if *k % 2 == 0 { None } else { Some("selected".into()) }));
			}
			if !txt {
				a.push(("value".into(), Some(format!("v{k}"))));
			}
		}
		t.text(e, &format!("o{k}"));
		*k += 1;
	}
	for i in sub {
		match i {
			C2::O(sel) => opt(&mut t, s, *sel, &mut k, txt),
			C2::G(os) => {
				let g = t.elem(s, "optgroup", &[("k", &k.to_string())]);
				k += 1;
				for o in *os {
					opt(&mut t, g, *o, &mut k, txt);
				}
			}
			C2::Other => {
				t.elem(s, "hr", &[("k", &k.to_string())]);
				k += 1;
			}
		}
	}
	t
}

fn roots(ctx: &mut Ctx) {
	let top = ["html", "p", "doctype"];
	let inner = ["body", "html", "p"];
	let pats: Vec<Sel> = {
		use Simple::*;
		vec![
			vec![Kw(":root")].into(),
			vec![tag("html"), Kw(":root")].into(),
			vec![tag("p"), Kw(":root")].into(),
			vec![Not(vec![Kw(":root")].into())].into(),
			vec![Has(vec![Kw(":root")].into())].into(),
			chain(vec![Kw(":root")], vec![(Comb::Child, vec![Any])]).into(),
			chain(vec![Kw(":root")], vec![(Comb::Desc, vec![Any])]).into(),
			chain(vec![Any], vec![(Comb::Desc, vec![Kw(":root")])]).into(),
			chain(vec![Any], vec![(Comb::Child, vec![Kw(":root")])]).into(),
			chain(vec![Any], vec![(Comb::Adj, vec![Kw(":root")])]).into(),
			chain(vec![Kw(":root")], vec![(Comb::Sib, vec![Any])]).into(),
			vec![Kw(":root"), Has(vec![tag("p")].into())].into(),
			vec![attr("k", "", ""), Kw(":root")].into(),
			Sel(vec![vec![Kw(":root")].into(), vec![tag("p")].into()]),
		]
	};
	ctx.bound(format!("roots: all top-level sequences of <= 2 over html/p/doctype, all inner trees of <= 2 over body/html/p x {} selectors", pats.len()));
	for n in 1..=2 {
		for w in words(n, 3) {
			for m in 0..=2usize {
				for shape in forests(m) {
					for lw in words(m, 3) {
						if n == 2 && w[1] == 2 {
							continue; // a doctype comes first
						}
						let mut t = Tree::new();
						let mut k = 0;
						let mut host = None;
						for &x in &w {
							if top[x] == "doctype" {
								t.add(0, Kind::Doctype);
							} else {
								let e = t.elem(0, top[x], &[("k", &k.to_string())]);
								k += 1;
								host = Some(e);
							}
						}
						if let Some(h) = host {
							let mut ids = vec![];
							for i in 0..m {
								let p = if shape[i] == usize::MAX { h } else { ids[shape[i]] };
								ids.push(t.elem(p, inner[lw[i]], &[("k", &k.to_string())]));
								k += 1;
							}
						} else if m > 0 {
							continue;
						}
						let Some(d) = open(ctx, &t) else {
							if !ctx.live() {
								return;
							}
							continue;
						};
						let v = View::new(&t);
						for s in &pats {
							if !ask(ctx, &d, &v, &s.text(Sp::Normal), s.matched_in_doc(&v), true) {
								return;
							}
						}
					}
				}
			}
		}
	}
}

/// every character in texts and in the argument of :contains; only comments leave an element :empty
fn letters(ctx: &mut Ctx) {
	let cs = chars();
	ctx.bound(format!("{} characters (all of ASCII and {} others) alone, before, after and between letters: as the text of normal and content elements, split over elements, in comments; :empty and :contains of each", cs.len(), cs.len() - 128));
	for c in cs {
		let forms = around(c);
		let mut t = Tree::new();
		let mut k = 0;
		for g in ["p", "textarea", "title", "script", "pre"] {
			for f in forms.iter().map(|s| s.as_str()).chain(["x", "xy"]) {
				if matches!(g, "script") && f.contains('<') {
					continue;
				}
				let e = t.elem(0, g, &[("k", &k.to_string())]);
				t.text(e, f);
				k += 1;
			}
		}
		// split over elements; in a comment
		let e = t.elem(0, "p", &[("k", &k.to_string())]);
		t.text(e, "x");
		let b = t.elem(e, "b", &[("k", &(k + 1).to_string())]);
		t.text(b, &c.to_string());
		t.text(e, "y");
		let e = t.elem(0, "p", &[("k", &(k + 2).to_string())]);
		if c != '-' && c != '>' {
			t.add(e, Kind::Comment(format!("x{c}y")));
		}
		let Some(d) = open(ctx, &t) else {
			if !ctx.live() {
				return;
			}
			continue;
		};
		let v = View::new(&t);
		if !(ask(ctx, &d, &v, ":empty", compound_mask(&vec![Simple::Kw(":empty")], &v), false) && ask(ctx, &d, &v, ":not(:empty)", v.all() & !compound_mask(&vec![Simple::Kw(":empty")], &v), false)) {
			return;
		}
		for f in forms.iter().cloned().chain([format!("{c}{c}"), "x".into(), "xy".into()]) {
			// a line break or a lone backslash has no plain spelling in a quoted argument
			if f.contains(['\n', '\r', '\x0c', '\\']) {
				continue;
			}
			let m = compound_mask(&vec![Simple::Contains(f.clone())], &v);
			for q in ['"', '\''] {
				if c == q {
					continue;
				}
				let txt = format!(":contains({q}{f}{q})");
				if !(ask(ctx, &d, &v, &txt, m, false) && ask(ctx, &d, &v, &format!("p{txt}"), m & compound_mask(&vec![tag("p")], &v), false) && ask(ctx, &d, &v, &format!(":not({txt})"), v.all() & !m, false)) {
					return;
				}
			}
		}
	}
}
