//! C12: after any mutation history every query answers as on a freshly loaded copy of the current source.
use crate::engine::Ctx;
use crate::model::*;
use crate::mutate::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use visdom::types::{BoxDynElement, Elements};

const FINDS: [&str; 22] = [
	"*", "p", "i", "#x", "#y", ".c", "p b", "p > b", "p + b", "p ~ *", ":first-child", ":last-child", ":nth-child(2)",
	":nth-last-child(2n+1)", ":only-child", ":empty", "p:first-of-type", ":nth-last-of-type(1)", ":has(b)", ":not(#x)", ":contains(t)", "#x > *",
];
const IS: [&str; 8] = ["#x", ".c", ":first-child", ":nth-last-child(1)", ":empty", "p > *", "p ~ *", ":has(#x)"];

/// which of `n` positions are looked at one by one: all in small documents, the ends, the middle and the
/// powers of two in large ones
fn picks(n: usize) -> Vec<usize> {
	if n <= 40 {
		return (0..n).collect();
	}
	let mut v = vec![0, 1, 2, 15, 16, 17, 63, 64, 65, 127, 128, n / 2, 255, 256, 257, n - 3, n - 2, n - 1];
	v.retain(|&i| i < n);
	v.sort();
	v.dedup();
	v
}

/// every answer about a tree below `top`, as text
fn answers(top: &BoxDynElement<'static>, whole: bool) -> Vec<(String, Vec<usize>)> {
	let mut out = vec![];
	let start = Elements::with_nodes(vec![top.cloned()]);
	for s in FINDS {
		out.push((format!("find({s})"), marks(&start.find(s))));
	}
	let all = real_elements(top);
	for i in picks(all.len()) {
		let one = Elements::with_nodes(vec![all[i].cloned()]);
		let m = |q: &str| format!("#{i}.{q}");
		for s in ["*", "#x", ":nth-child(2)"] {
			out.push((m(s), marks(&one.find(s))));
		}
		out.push((m("children"), marks(&one.children(""))));
		out.push((m("siblings"), marks(&one.siblings(""))));
		out.push((m("next_all"), marks(&one.next_all(""))));
		out.push((m("prev_all"), marks(&one.prev_all(""))));
		out.push((m("next"), marks(&one.next(""))));
		out.push((m("prev"), marks(&one.prev(".c"))));
		out.push((m("is"), IS.iter().map(|s| one.is(s) as usize).collect()));
		out.push((m("has"), vec![one.has("#x").length(), one.has("b").length()]));
		if whole {
			out.push((m("parent"), marks(&one.parent("p"))));
			out.push((m("parents"), marks(&one.parents("[k]"))));
			out.push((m("closest"), marks(&one.closest(".c"))));
		}
	}
	let set = Elements::with_nodes(all);
	out.push(("all.find".into(), marks(&set.find("*"))));
	out.push(("all.children".into(), marks(&set.children(""))));
	out.push(("all.next_all".into(), marks(&set.next_all(""))));
	out.push(("all.prev".into(), marks(&set.prev(""))));
	out.push(("all.siblings".into(), marks(&set.siblings(""))));
	out.push(("all.closest".into(), marks(&set.closest("p"))));
	out.push(("all.filter".into(), marks(&set.filter("#x, .c, :last-child"))));
	out
}

type Answers = Rc<Vec<(String, Vec<usize>)>>;

fn fresh(cache: &RefCell<HashMap<String, Answers>>, html: &str, whole: bool) -> Answers {
	let key = format!("{whole}{html}");
	if let Some(a) = cache.borrow().get(&key) {
		return a.clone();
	}
	let root = load(html);
	let r0 = root.get(0).unwrap().cloned();
	let top = if whole { r0 } else { real_elements(&r0)[0].cloned() };
	let a = Rc::new(answers(&top, whole));
	let mut c = cache.borrow_mut();
	if c.len() > 20000 {
		c.clear();
	}
	c.insert(key, a.clone());
	a
}

/// relations of a set that spans several trees: each tree answers for itself
const RELS: [(&str, fn(&Elements<'static>) -> Elements<'static>); 12] = [
	("find(*)", |e| e.find("*")),
	("find(p b)", |e| e.find("p b")),
	("children", |e| e.children("")),
	("parent", |e| e.parent("[k]")),
	("parents", |e| e.parents("[k]")),
	("closest", |e| e.closest("p")),
	("siblings", |e| e.siblings("")),
	("next", |e| e.next("")),
	("next_all", |e| e.next_all("")),
	("prev", |e| e.prev("")),
	("prev_all", |e| e.prev_all("")),
	("filter", |e| e.filter("p, :first-child")),
];

fn several_trees(w: &W, r: &R) -> Option<String> {
	// tree by tree, each in document order
	let mut ms: Vec<usize> = w.by_mark.keys().copied().collect();
	ms.sort();
	let mut roots: Vec<usize> = ms.iter().map(|&m| w.root_of(w.node(m))).collect();
	roots.sort();
	roots.dedup();
	if roots.len() < 2 {
		return None;
	}
	// copies made for several targets carry the marks of what they are copies of
	let mut seen = std::collections::HashSet::new();
	let tops = w.by_mark.iter().filter(|(_, &id)| w.t.nodes[id].parent.is_none()).map(|(m, _)| &r.by_mark[m]);
	let frags = r.frags.iter().filter_map(|f| f.get(0));
	for t in std::iter::once(&r.r0).chain(tops).chain(frags) {
		if real_elements(t).iter().any(|e| !seen.insert(mark(e))) {
			return None;
		}
	}
	let order = |i: usize| {
		let mut v = vec![];
		w.t.pre(i, &mut |_, n| v.push(n));
		v
	};
	let pre: Vec<usize> = roots.iter().flat_map(|&x| order(x)).collect();
	let rev: Vec<usize> = roots.iter().rev().flat_map(|&x| order(x)).collect();
	let ms: Vec<usize> = picks(ms.len()).into_iter().map(|i| ms[i]).collect();
	let seq = |p: &Vec<usize>| -> Vec<usize> { p.iter().filter_map(|&n| ms.iter().position(|&m| w.node(m) == n)).collect() };
	let per: Vec<Elements<'static>> = ms.iter().map(|m| r.set(&[*m])).collect();
	let mut singles: Vec<Vec<Vec<usize>>> = vec![];
	for (_, f) in RELS {
		singles.push(per.iter().map(|e| marks(&f(e))).collect());
	}
	// all pairs in both orders, and everything
	let mut sets: Vec<Vec<usize>> = vec![seq(&pre), seq(&rev)];
	for i in 0..ms.len() {
		for j in 0..ms.len() {
			if i != j && w.root_of(w.node(ms[i])) != w.root_of(w.node(ms[j])) {
				sets.push(vec![i, j]);
			}
		}
	}
	for s in sets {
		let set = r.set(&s.iter().map(|&i| ms[i]).collect::<Vec<_>>());
		for (k, (name, f)) in RELS.iter().enumerate() {
			let mut want: Vec<usize> = s.iter().flat_map(|&i| singles[k][i].clone()).collect();
			want.sort();
			want.dedup();
			let mut got = marks(&f(&set));
			got.sort();
			if want != got {
				return Some(format!("{:?}.{name}: each member alone {want:?}, the set {got:?}", s.iter().map(|&i| ms[i]).collect::<Vec<_>>()));
			}
		}
	}
	None
}

fn same(what: &str, want: &Answers, got: &[(String, Vec<usize>)]) -> Option<String> {
	if want.len() != got.len() {
		return Some(format!("{what}: {} answers vs {}", want.len(), got.len()));
	}
	for (a, b) in want.iter().zip(got) {
		if a != b {
			return Some(format!("{what}: {} gives {:?}, freshly loaded {:?}", b.0, b.1, a.1));
		}
	}
	None
}

fn monitor(cache: &RefCell<HashMap<String, Answers>>, w: &W, r: &R) -> Option<String> {
	// the document is compared with its own source as written by the library
	let doc = r.root.document().unwrap();
	let src = doc.source_code();
	if let Some(d) = same("document", &fresh(cache, &src, true), &answers(&r.r0, true)) {
		return Some(d);
	}
	for id in ["x", "y", "z", ""] {
		let got = doc.get_element_by_id(id).map(|e| mark(&e));
		let want = w.t.elements().into_iter().find(|&e| w.t.attr(e, "id") == Some(Some(id))).and_then(|e| w.mark_of(e));
		if got != want {
			return Some(format!("get_element_by_id({id:?}) gives {got:?}, expected {want:?}"));
		}
	}
	for (m, &id) in &w.by_mark {
		if w.t.nodes[id].parent.is_none() {
			let h = &r.by_mark[m];
			let src = h.outer_html();
			if let Some(d) = same(&format!("detached {m}"), &fresh(cache, &src, false), &answers(h, false)) {
				return Some(d);
			}
		}
	}
	for (i, _) in w.frag_roots.iter().enumerate() {
		let src = r.frags[i].document().unwrap().source_code();
		if let Some(d) = same(&format!("fragment {i}"), &fresh(cache, &src, true), &answers(r.frags[i].get(0).unwrap(), true)) {
			return Some(d);
		}
	}
	several_trees(w, r)
}

fn docs(n: usize, fill: Fill) -> Vec<Tree> {
	let mut v = vec![];
	for k in 1..=n {
		for s in forests(k) {
			v.push(build(
				&s,
				|i| {
					(
						["p", "b", "p", "b", "i"][i % 5],
						match i % 3 {
							0 => vec![("id", "x"), ("class", "c")],
							1 => vec![("class", "c d")],
							_ => vec![("id", "y")],
						},
					)
				},
				fill,
			));
		}
	}
	v
}

fn attr_ops(w: &W, max: usize) -> Vec<Op> {
	let mut ms: Vec<usize> = w.by_mark.keys().copied().filter(|&m| m < max).collect();
	ms.sort();
	let mut v = vec![];
	for m in ms {
		for id in ["x", "y", ""] {
			v.push(Op::SetAttr(vec![m], "id", Some(id)));
		}
		v.push(Op::SetAttr(vec![m], "id", None));
		v.push(Op::RemoveAttr(vec![m], "id"));
		v.push(Op::AddClass(vec![m], "c"));
		v.push(Op::RemoveClass(vec![m], "c"));
		v.push(Op::SetAttr(vec![m], "class", Some("d c")));
	}
	v
}

pub fn run(ctx: &mut Ctx) {
	let cache = RefCell::new(HashMap::new());
	let mon = |w: &W, r: &R| monitor(&cache, w, r);
	let n = ctx.tier.pick(3, 4);
	let st = docs(n, Fill::Text);
	ctx.bound(format!("A: {} start documents (all shapes of <= {n} elements with ids, classes, text): every single operation (structure with 3 fragments, text nodes, attributes) on every handle", st.len()));
	for t in &st {
		explore(
			ctx,
			t,
			&|w, _| {
				let mut v = single_ops(w, 9, &[0, 1, 3, 5], true);
				v.extend(attr_ops(w, 9));
				v
			},
			1,
			&mon,
		);
		if !ctx.live() {
			return;
		}
	}
	let st = docs(ctx.tier.pick(2, 3), Fill::Text);
	ctx.bound(format!("B: {} start documents: all histories of two operations (structure with one fragment, attributes) over all handles including detached and new ones, with and without queries between them", st.len()));
	for t in &st {
		for reads in [false, true] {
			explore_reads(
				ctx,
				t,
				&|w, _| {
					let mut v = single_ops(w, 5, &[1], true);
					v.extend(attr_ops(w, 5));
					v
				},
				2,
				reads,
				&mon,
			);
			if !ctx.live() {
				return;
			}
		}
	}
	let st = docs(ctx.tier.pick(3, 3), Fill::None);
	let depth = ctx.tier.pick(2, 3);
	ctx.bound(format!("C: {} start documents: all histories of {depth} structural operations over the original elements with queries before each", st.len()));
	for t in &st {
		explore_reads(ctx, t, &|w, _| single_ops(w, 3, &[], false), depth, true, &mon);
		if !ctx.live() {
			return;
		}
	}
	if ctx.live() {
		crate::big::mutations(ctx, &mon, false);
	}
}
