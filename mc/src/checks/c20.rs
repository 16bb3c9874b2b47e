//! C20: refused operations change nothing and are reported; accepted ones are not reported.
use crate::engine::Ctx;
use crate::model::*;
use crate::mutate::*;

fn monitor(w: &W, r: &R) -> Option<String> {
	if r.errors.get() != w.errors {
		return Some(format!("{} reports to the document's handler, expected {}", r.errors.get(), w.errors));
	}
	if r.frag_errors.get() != 0 {
		return Some("another document's handler was called".into());
	}
	for d in &r.docs {
		let s = d.document().unwrap().source_code();
		if s != OTHER_DOC {
			return Some(format!("the refused document changed to {s:?}"));
		}
	}
	check_source(w, r).or_else(|| check_structure(w, r))
}

fn ops(w: &W, n: usize, frags: &[usize]) -> Vec<Op> {
	let mut v = single_ops(w, n, frags, false);
	let mut marks: Vec<usize> = w.by_mark.keys().copied().filter(|&m| m < n).collect();
	marks.sort();
	for &a in &marks {
		for p in POS {
			v.push(Op::InsertRoot(vec![a], p));
			v.push(Op::InsertDoc(vec![a], p));
			v.push(Op::RootTarget(p, vec![a]));
		}
		v.push(Op::ReplaceRoot(vec![a]));
		v.push(Op::ReplaceDoc(vec![a]));
		v.push(Op::RootReplace(vec![a]));
		for i in 0..2 {
			v.push(Op::TextSet(a, i, ""));
			v.push(Op::TextSet(a, i, "n"));
		}
	}
	v
}

fn selectors(ctx: &mut Ctx) {
	use std::cell::Cell;
	use std::rc::Rc;
	let bad = ["p[", ":nth-child(", "p:unknown", "p,,b", ">", "p >> b", ":not(", "[k=", "p)", "#", ".", "::p", "p:nth-child(x)"];
	let good = ["p", "*", "p > b", ":not(p)", "[k]", "p, b", ":nth-child(2n+1)", ""];
	let docs = starts(3, &[Fill::Text]);
	ctx.bound(format!("C: {} malformed and {} well-formed selectors x every selector-taking method x every member set of {} documents, twice in a row: exactly one report per malformed call, none otherwise, nothing changed", bad.len(), good.len(), docs.len()));
	for t in &docs {
		let html = t.html();
		if !ctx.case(|| format!("selectors html={html:?}")) {
			if !ctx.live() {
				return;
			}
			continue;
		}
		ctx.state(&html);
		ctx.stats.traces += 1;
		let n = t.elements().len();
		for m in 1u64..1 << n {
			for (s, want) in bad.iter().map(|s| (*s, 1)).chain(good.iter().map(|s| (*s, 0))) {
				for method in 0..METHODS.len() {
					ctx.expect(|| format!("{:?}.{}({s:?}) twice", mask_vec(m), METHODS[method]), &(want, want, html.clone()), || {
						let c = Rc::new(Cell::new(0));
						let root = counting(&html, &c);
						let all = real_elements(&root.get(0).unwrap().cloned());
						let set = subset(&all, m);
						call(&set, method, s);
						let one = c.get();
						call(&set, method, s);
						let after = root.document().unwrap().source_code();
						(one, c.get() - one, after)
					});
					if want == 1 {
						ctx.stats.nonempty += 1;
					}
					if !ctx.live() {
						return;
					}
				}
			}
		}
	}
}

const METHODS: [&str; 19] = [
	"find", "filter", "not", "is", "is_all", "has", "closest", "children", "parent", "parents", "siblings", "next", "next_all",
	"prev", "prev_all", "next_until", "prev_until", "parents_until", "find-in-children",
];
fn call(set: &visdom::types::Elements<'static>, method: usize, s: &str) {
	match METHODS[method] {
		"find" | "find-in-children" => drop(set.find(s)),
		"filter" => drop(set.filter(s)),
		"not" => drop(set.not(s)),
		"is" => drop(set.is(s)),
		"is_all" => drop(set.is_all(s)),
		"has" => drop(set.has(s)),
		"closest" => drop(set.closest(s)),
		"children" => drop(set.children(s)),
		"parent" => drop(set.parent(s)),
		"parents" => drop(set.parents(s)),
		"siblings" => drop(set.siblings(s)),
		"next" => drop(set.next(s)),
		"next_all" => drop(set.next_all(s)),
		"prev" => drop(set.prev(s)),
		"prev_all" => drop(set.prev_all(s)),
		"next_until" => drop(set.next_until(s, "", false)),
		"prev_until" => drop(set.prev_until(s, "", false)),
		"parents_until" => drop(set.parents_until(s, "", false)),
		_ => unreachable!(),
	}
}

pub fn run(ctx: &mut Ctx) {
	// A: every operation, including all refused ones, alone and followed/preceded by another
	let mut st = starts(3, &[Fill::Text]);
	for tags in [["p", "br", "b"], ["br", "textarea", "i"]] {
		st.push(build(&[usize::MAX, usize::MAX, usize::MAX], |i| (tags[i], vec![]), Fill::Text));
	}
	let mut d = Tree::new();
	d.add(0, Kind::Doctype);
	let h = d.elem(0, "html", &[("k", "0")]);
	let b = d.elem(h, "body", &[("k", "1")]);
	d.text(b, "t");
	d.elem(b, "p", &[("k", "2")]);
	st.push(d);
	ctx.bound(format!("A: {} start documents (all shapes of <= 3 elements, void and content elements, a whole document): all histories of length <= 2 over all element pairs x 4 positions, replacement, roots and whole documents as content or target, empty text; reports counted and every tree compared", st.len()));
	for t in &st {
		explore(ctx, t, &|w, _| ops(w, 3, &[1]), 2, &monitor);
		if !ctx.live() {
			return;
		}
	}
	let depth = ctx.tier.pick(3, 4);
	let st: Vec<Tree> = starts(ctx.tier.pick(2, 2), &[Fill::Text]);
	ctx.bound(format!("B: {} start documents of <= 2 elements: all histories of length <= {depth} over the same operations", st.len()));
	for t in &st {
		explore(ctx, t, &|w, _| ops(w, 2, &[]), depth, &monitor);
		if !ctx.live() {
			return;
		}
	}
	selectors(ctx);
	if ctx.live() {
		crate::big::mutations(ctx, &monitor, false);
	}
}
