//! C11: structural mutations place exactly the right nodes (set operations, fragments).
use crate::engine::Ctx;
use crate::model::*;
use crate::mutate::*;

fn subsets(n: usize, max: usize) -> Vec<Vec<usize>> {
	(1u64..1 << n).map(mask_vec).filter(|v| v.len() <= max).collect()
}

/// replacement content that contains a target is only meaningful alone (it is refused)
fn sensible_replace(w: &W, a: &[usize], b: &[usize]) -> bool {
	if b.len() <= 1 {
		return true;
	}
	let anc = |x: usize, of: usize| {
		let mut c = Some(w.node(of));
		while let Some(i) = c {
			if i == w.node(x) {
				return true;
			}
			c = w.t.nodes[i].parent;
		}
		false
	};
	// a later target may have come to lie inside the content by then
	!b.iter().any(|&x| a.iter().any(|&t| t == x || anc(x, t))) 
}

fn set_ops(w: &W, n: usize, max: usize) -> Vec<Op> {
	let subs = subsets(n, max);
	let mut v = vec![];
	for a in &subs {
		for b in &subs {
			for p in POS {
				v.push(Op::Insert(a.clone(), p, b.clone()));
				v.push(Op::InsertTo(a.clone(), p, b.clone()));
			}
			if sensible_replace(w, a, b) {
				v.push(Op::Replace(a.clone(), b.clone()));
			}
		}
		for f in [0, 1, 2, 4, 5] {
			for p in POS {
				v.push(Op::InsertFrag(a.clone(), p, f));
			}
			v.push(Op::ReplaceFrag(a.clone(), f));
		}
		v.push(Op::Remove(a.clone()));
		v.push(Op::Empty(a.clone()));
	}
	v
}

fn both(w: &W, r: &R) -> Option<String> {
	check_source(w, r)
}

pub fn run(ctx: &mut Ctx) {
	let n = ctx.tier.pick(4, 5);
	let fills = [Fill::None, Fill::Text];
	ctx.bound(format!("A: all shapes of <= {n} elements (with and without text): one insertion, replacement, removal or emptying with every pair of target set and content set, both call directions, 5 fragments"));
	for k in 1..=n {
		for s in forests(k) {
			for f in fills {
				let t = build(&s, |i| (["p", "b", "i", "p", "u"][i % 5], vec![]), f);
				explore(ctx, &t, &|w, _| set_ops(w, k, k), 1, &both);
				if !ctx.live() {
					return;
				}
			}
		}
	}
	// two steps with sets
	let m = ctx.tier.pick(2, 3);
	ctx.bound(format!("B: all shapes of 2..=3 elements: two successive set operations (sets of <= {m} members)"));
	for k in 2..=3 {
		for s in forests(k) {
			let t = build(&s, |i| (["p", "b", "i"][i % 3], vec![]), Fill::Text);
			explore(ctx, &t, &|w, d| if d == 0 { set_ops(w, k, m) } else { single_ops(w, k, &[1], false) }, 2, &both);
			if !ctx.live() {
				return;
			}
		}
	}
	// histories of single operations
	let depth = ctx.tier.pick(3, 4);
	let fs: &[Fill] = ctx.tier.pick(&[Fill::Text], &[Fill::Text]);
	let st = starts(3, fs);
	ctx.bound(format!("C: {} start documents of <= 3 elements with text: all histories of length <= {depth} over the single-element operations", st.len()));
	for t in &st {
		explore(
			ctx,
			t,
			&|w, d| {
				let mut v = single_ops(w, 3, &[], false);
				if d < 2 {
					v.extend(element_ops(w, 3));
				}
				v
			},
			depth,
			&both,
		);
		if !ctx.live() {
			return;
		}
	}
	// void and content elements, comments, whole documents
	let mut special = vec![];
	for tags in [["p", "br", "b"], ["br", "p", "i"], ["textarea", "p", "br"], ["p", "title", "b"]] {
		for s in forests(3) {
			// void and content elements have no element children
			if (0..3).any(|i| s[i] != usize::MAX && !["p", "b", "i"].contains(&tags[s[i]])) {
				continue;
			}
			special.push(build(&s, |i| (tags[i], vec![]), Fill::Mixed));
		}
	}
	let mut d = Tree::new();
	d.add(0, Kind::Doctype);
	let h = d.elem(0, "html", &[("k", "0")]);
	let he = d.elem(h, "head", &[("k", "1")]);
	d.elem(he, "title", &[("k", "2")]);
	let b = d.elem(h, "body", &[("k", "3")]);
	d.text(b, "t");
	d.elem(b, "p", &[("k", "4")]);
	special.push(d);
	ctx.bound(format!("D: {} documents with void, title/textarea, comment and whitespace nodes and a whole html document: all histories of length <= 2", special.len()));
	for t in &special {
		explore(ctx, t, &|w, _| single_ops(w, 5, &[1, 4], false), 2, &both);
		if !ctx.live() {
			return;
		}
	}
	// texts inserted into content elements that already have content
	ctx.bound("E: a text inserted at either end of title/textarea elements with content".to_string());
	for tag in ["title", "textarea"] {
		let html = format!("<{tag}>c</{tag}>");
		if !ctx.case(|| format!("html={html:?}")) {
			if !ctx.live() {
				return;
			}
			continue;
		}
		ctx.state(&html);
		for (p, want) in [("append", "ct"), ("prepend", "tc")] {
			ctx.expect(|| format!("{p} a text"), &format!("<{tag}>{want}</{tag}>"), || {
				let root = visdom::Vis::load(html.clone()).unwrap();
				let mut e = root.find(tag);
				let mut c = visdom::Vis::load("t").unwrap();
				if p == "append" {
					e.append(&mut c);
				} else {
					e.prepend(&mut c);
				}
				let s = root.document().unwrap().source_code();
				s
			});
		}
	}
	if ctx.live() {
		crate::big::mutations(ctx, &both, false);
	}
}
