//! C18: copies are deep and independent.
use crate::engine::Ctx;
use crate::model::*;
use crate::mutate::*;
use visdom::types::Elements;

const RELS: [(&str, fn(&Elements<'static>) -> Elements<'static>); 8] = [
	("find(*)", |e| e.find("*")),
	("find(p b)", |e| e.find("p b")),
	("children", |e| e.children("")),
	("parent", |e| e.parent("")),
	("closest", |e| e.closest("p")),
	("siblings", |e| e.siblings("")),
	("next_all", |e| e.next_all("")),
	("filter", |e| e.filter("p, .c")),
];

fn monitor(w: &W, r: &R) -> Option<String> {
	if let Some(d) = check_structure(w, r).or_else(|| check_source(w, r)) {
		return Some(d);
	}
	// no node is shared
	let mut hs: Vec<(usize, usize)> = w.by_mark.iter().map(|(m, id)| (*m, *id)).collect();
	hs.sort();
	for (i, (a, _)) in hs.iter().enumerate() {
		for (b, _) in &hs[i + 1..] {
			if r.by_mark[a].is(&r.by_mark[b]) {
				return Some(format!("{a} and {b} are the same node"));
			}
		}
	}
	// queries on each copy set: the members answer for their own trees
	for c in &r.copies {
		// members moved into another tree may no longer be in document order
		if c.get_ref().iter().any(|e| e.parent().is_some()) {
			continue;
		}
		for (name, f) in RELS {
			let mut want: Vec<usize> = c.get_ref().iter().flat_map(|e| marks(&f(&Elements::with_nodes(vec![e.cloned()])))).collect();
			let mut got = marks(&f(c));
			want.sort();
			got.sort();
			if want != got {
				return Some(format!("copies.{name}: each alone {want:?}, the set {got:?}"));
			}
		}
	}
	None
}

/// right after copying: same markup, same answers inside
fn fresh_copy(w: &W, r: &R) -> Option<String> {
	if let Some(d) = monitor(w, r) {
		return Some(d);
	}
	for c in &r.copies {
		for e in c.get_ref() {
			let o = &r.by_mark[&mark(e)];
			let (a, b) = (Elements::with_nodes(vec![o.cloned()]), Elements::with_nodes(vec![e.cloned()]));
			if a.outer_html() != b.outer_html() || a.html() != b.html() || a.text() != b.text() {
				return Some(format!("copy {:?} of {:?}", b.outer_html(), a.outer_html()));
			}
			for s in ["*", "p", "#x", "b:first-child", ":nth-last-child(1)", "p > b", ".c"] {
				if marks(&a.find(s)) != marks(&b.find(s)) {
					return Some(format!("find({s}) on the copy gives {:?}, on the original {:?}", marks(&b.find(s)), marks(&a.find(s))));
				}
			}
			if a.texts(0).length() != b.texts(0).length() {
				return Some("texts".into());
			}
		}
		// several copies together
		for (name, f) in [RELS[0], RELS[1], RELS[2]] {
			let each: usize = c.get_ref().iter().map(|e| f(&Elements::with_nodes(vec![e.cloned()])).length()).sum();
			if f(c).length() != each {
				return Some(format!("copies.{name}: each alone {each} in all, the set {}", f(c).length()));
			}
		}
	}
	None
}

fn docs(n: usize, fill: Fill) -> Vec<Tree> {
	let mut v = vec![];
	for k in 1..=n {
		for s in forests(k) {
			v.push(build(&s, |i| (["p", "b", "p", "b", "i"][i % 5], [vec![("id", "x")], vec![("class", "c d")], vec![]][i % 3].clone()), fill));
		}
	}
	v
}

fn clones(w: &W) -> Vec<Op> {
	let n = w.by_mark.len();
	let mut v: Vec<Op> = (1u64..1 << n).map(|m| Op::CloneSet(mask_vec(m))).collect();
	v.push(Op::CloneRoot);
	v
}

fn edits(w: &W, small: bool) -> Vec<Op> {
	let mut ms: Vec<usize> = w.by_mark.keys().copied().collect();
	ms.sort();
	let mut v = vec![];
	for &a in &ms {
		if small {
			v.push(Op::SetAttr(vec![a], "id", Some("z")));
			v.push(Op::SetText(vec![a], "s"));
			v.push(Op::SetHtml(vec![a], 1));
			v.push(Op::Remove(vec![a]));
			for &b in &ms {
				if a != b {
					v.push(Op::Insert(vec![a], Pos::Append, vec![b]));
					v.push(Op::Insert(vec![a], Pos::Before, vec![b]));
					v.push(Op::Replace(vec![a], vec![b]));
				}
			}
			for n in 0..2 {
				v.push(Op::TextSet(a, n, "n"));
				v.push(Op::TextRemove(a, n));
			}
			continue;
		}
		v.push(Op::SetAttr(vec![a], "id", Some("z")));
		v.push(Op::SetAttr(vec![a], "new", None));
		v.push(Op::RemoveAttr(vec![a], "class"));
		v.push(Op::AddClass(vec![a], "e"));
		v.push(Op::RemoveClass(vec![a], "c"));
		for n in 0..2 {
			v.push(Op::TextSet(a, n, "n"));
			v.push(Op::TextAppend(a, n, "n"));
			v.push(Op::TextPrepend(a, n, "n"));
		}
	}
	if !small {
		v.extend(single_ops(w, usize::MAX, &[1], true));
	}
	v
}

pub fn run(ctx: &mut Ctx) {
	let n = ctx.tier.pick(4, 5);
	let fills = [Fill::None, Fill::Text, Fill::Mixed];
	ctx.bound(format!("A: all shapes of <= {n} elements x 3 fillings: copies of every member set and of the root have the same markup and answers and share nothing"));
	for f in fills {
		for t in &docs(n, f) {
			explore(ctx, t, &|w, _| clones(w), 1, &fresh_copy);
			if !ctx.live() {
				return;
			}
		}
	}
	let n = ctx.tier.pick(3, 4);
	let st = docs(n, Fill::Text);
	ctx.bound(format!("B: {} documents of <= {n} elements: copy any member set, then every operation on any original or copied node", st.len()));
	for t in &st {
		explore(ctx, t, &|w, d| if d == 0 { clones(w) } else { edits(w, false) }, 2, &monitor);
		if !ctx.live() {
			return;
		}
	}
	let n = ctx.tier.pick(2, 3);
	let st = docs(n, Fill::Text);
	ctx.bound(format!("C: {} documents of <= {n} elements: a copy of any member set, then all pairs of operations on originals and copies", st.len()));
	for t in &st {
		explore(ctx, t, &|w, d| if d == 0 { clones(w) } else { edits(w, true) }, 3, &monitor);
		if !ctx.live() {
			return;
		}
	}
	// copies of a document that was changed before
	let st = docs(n, Fill::Text);
	ctx.bound(format!("D: {} documents: change, copy, change", st.len()));
	for t in &st {
		explore(
			ctx,
			t,
			&|w, d| match d {
				0 => edits(w, true),
				1 => {
					let mut ms: Vec<usize> = w.by_mark.keys().copied().collect();
					ms.sort();
					let mut v: Vec<Op> = ms.iter().map(|&m| Op::CloneSet(vec![m])).collect();
					v.push(Op::CloneRoot);
					v
				}
				_ => edits(w, true),
			},
			3,
			&monitor,
		);
		if !ctx.live() {
			return;
		}
	}
	if ctx.live() {
		crate::big::mutations(ctx, &monitor, true);
	}
}
