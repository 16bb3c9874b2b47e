//! C25: dropping handles never damages what is still held.
use crate::engine::Ctx;
use crate::model::*;
use crate::mutate::*;
use std::collections::HashMap;
use visdom::types::{BoxDynElement, BoxDynText, INodeType};

fn marks_of(w: &W, v: impl IntoIterator<Item = usize>) -> Vec<Option<usize>> {
	v.into_iter().filter(|&n| w.t.is_elem(n)).map(|n| w.mark_of(n)).collect()
}
fn real_marks(e: &visdom::types::Elements) -> Vec<Option<usize>> {
	marks(e).into_iter().map(Some).collect()
}

/// everything a kept handle can still reach
fn reach(w: &W, r: &R) -> Option<String> {
	if let Some(d) = check_structure(w, r) {
		return Some(d);
	}
	if let Some(d) = check_source(w, r) {
		return Some(d);
	}
	let key_of: HashMap<usize, usize> = w.by_mark.iter().map(|(m, id)| (*id, *m)).collect();
	let mut sorted: Vec<usize> = w.by_mark.keys().copied().collect();
	sorted.sort();
	for m in sorted {
		let (n, h) = (w.by_mark[&m], &r.by_mark[&m]);
		let one = r.set(&[m]);
		let mut below = vec![];
		w.t.pre(n, &mut |_, x| below.push(x));
		let mut above = vec![];
		let mut p = w.t.nodes[n].parent;
		while let Some(x) = p {
			above.push(x);
			p = w.t.nodes[x].parent;
		}
		let sibs: Vec<usize> = match w.t.nodes[n].parent {
			Some(p) => w.t.nodes[p].kids.iter().copied().filter(|&x| w.t.is_elem(x)).collect(),
			None => vec![n],
		};
		let at = sibs.iter().position(|&x| x == n).unwrap();
		// a set of several ancestors comes out in document order
		above.reverse();
		let want = (
			marks_of(w, below.into_iter().skip(1)),
			marks_of(w, w.t.nodes[n].kids.clone()),
			marks_of(w, above.clone()),
			marks_of(w, above.last().copied()),
			marks_of(w, sibs[at + 1..].to_vec()),
			marks_of(w, sibs[..at].to_vec()),
			marks_of(w, sibs.iter().copied().filter(|&x| x != n)),
			marks_of(w, [n]),
			0,
			w.t.text_of(n),
		);
		let got = (
			real_marks(&one.find("*")),
			real_marks(&one.children("")),
			real_marks(&one.parents("")),
			real_marks(&one.parent("")),
			real_marks(&one.next_all("")),
			real_marks(&one.prev_all("")),
			real_marks(&one.siblings("")),
			real_marks(&one.closest("*")),
			one.find(":nope").length() + one.filter("[").length(),
			one.text(),
		);
		if want != got {
			return Some(format!("handle {m}: expected {want:?}, got {got:?}"));
		}
		// the document of an element in a living tree is that tree's
		let top = w.root_of(n);
		let doc = h.owner_document().map(|d| d.get_root_node().typed().into_element().unwrap());
		let ok = match &doc {
			Some(d) if top == 0 => !w.root_gone && d.is(&r.r0),
			Some(d) => match w.frag_roots.iter().position(|&f| f == top) {
				Some(i) => d.is(r.frags[i].get(0).unwrap()),
				// taken out: any living document
				None => true,
			},
			None => !(top == 0 && !w.root_gone) && !w.frag_roots.contains(&top),
		};
		if !ok {
			return Some(format!("handle {m}: wrong owner document (known: {:?})", key_of.get(&top)));
		}
	}
	None
}

fn drops(w: &W) -> Vec<Op> {
	let mut ms: Vec<usize> = w.by_mark.keys().copied().collect();
	ms.sort();
	let mut keeps = vec![vec![], ms.clone()];
	for (i, &a) in ms.iter().enumerate() {
		keeps.push(vec![a]);
		for &b in &ms[i + 1..] {
			keeps.push(vec![a, b]);
		}
	}
	keeps.dedup();
	let mut v = vec![];
	for root in [false, true] {
		for k in &keeps {
			if root || !k.is_empty() {
				v.push(Op::Drop(root, k.clone()));
			}
		}
	}
	v
}

fn texts(ctx: &mut Ctx) {
	ctx.bound("text handles: documents of <= 3 elements with text everywhere; every text node held alone or with its parent, the rest dropped, then every sequence of <= 2 of 7 text edits");
	type E = (&'static str, fn(&mut BoxDynText<'static>), fn(&str) -> Option<String>);
	let edits: [E; 6] = [
		("set_text", |t| t.set_text("n"), |_| Some("n".into())),
		("set_text empty", |t| t.set_text(""), |s| Some(s.into())),
		("append", |t| t.append_text("+"), |s| Some(format!("{s}+"))),
		("prepend", |t| t.prepend_text("-"), |s| Some(format!("-{s}"))),
		// nothing to put the nodes into: the parent is gone
		("set_html", |t| t.set_html("<i></i>"), |_| None),
		("set_html empty", |t| t.set_html(""), |_| None),
	];
	for t in starts(3, &[Fill::Text]) {
		let html = t.html();
		if !ctx.case(|| format!("html={html:?} texts")) {
			if !ctx.live() {
				return;
			}
			continue;
		}
		let ids: Vec<usize> = {
			let mut v = vec![];
			t.pre(0, &mut |t, n| {
				if matches!(t.nodes[n].kind, Kind::Text(_)) {
					v.push(n)
				}
			});
			v
		};
		for (which, &n) in ids.iter().enumerate() {
			let Kind::Text(start) = &t.nodes[n].kind else { unreachable!() };
			for keep_parent in [false, true] {
				if keep_parent && t.nodes[n].parent == Some(0) {
					continue;
				}
				for m in 0..=2 {
					for w in words(m, edits.len()) {
						// model: the characters while they are known; with a living parent set_html replaces the node
						let mut now = Some(start.clone());
						let mut gone = false;
						let mut parent: Option<Vec<String>> = keep_parent.then(|| {
							let p = t.nodes[n].parent.unwrap();
							t.nodes[p].kids.iter().map(|&k| if k == n { "\u{1}".to_string() } else { let mut s = String::new(); t.node_html(k, &mut s); s }).collect()
						});
						for &e in &w {
							if w.is_empty() {
								break;
							}
							if edits[e].0.starts_with("set_html") {
								if let (Some(p), false) = (&mut parent, gone) {
									let at = p.iter().position(|x| x == "\u{1}").unwrap();
									p[at] = if edits[e].0 == "set_html" { "<i></i>".into() } else { String::new() };
									gone = true;
								}
							} else if let Some(s) = &now {
								now = edits[e].2(s);
							}
						}
						let want = (now.clone().unwrap(), parent.as_ref().map(|p| p.concat().replace('\u{1}', now.as_deref().unwrap())), gone || !keep_parent);
						ctx.state(&(&html, which, keep_parent, &w));
						ctx.stats.traces += 1;
						ctx.stats.nonempty += 1;
						ctx.expect(|| format!("text {which}{} {:?}", if keep_parent { " with its parent" } else { "" }, w.iter().map(|&e| edits[e].0).collect::<Vec<_>>()), &want, || {
							let (mut x, parent) = {
								let root = load(&html);
								let mut found: Vec<(BoxDynText<'static>, BoxDynElement<'static>)> = vec![];
								fn go(e: &BoxDynElement<'static>, found: &mut Vec<(BoxDynText<'static>, BoxDynElement<'static>)>) {
									for c in e.child_nodes() {
										match c.node_type() {
											INodeType::Text => found.push((c.typed().into_text().unwrap(), e.cloned())),
											INodeType::Element => go(&c.typed().into_element().unwrap(), found),
											_ => {}
										}
									}
								}
								go(&root.get(0).unwrap().cloned(), &mut found);
								let (x, p) = found.swap_remove(which);
								(x, keep_parent.then_some(p))
							};
							for &e in &w {
								edits[e].1(&mut x);
							}
							let s = (x.text(), parent.as_ref().map(|p| p.inner_html()), x.parent().is_none());
							// removing it now is harmless
							x.remove();
							s
						});
						if !ctx.live() {
							return;
						}
					}
				}
			}
		}
	}
}

pub fn run(ctx: &mut Ctx) {
	let n = ctx.tier.pick(3, 4);
	let st = starts(n, &[Fill::Text]);
	ctx.bound(format!("A: {} documents of <= {n} elements: every operation (insertions, moves, replacements, removals, content changes, fragments), then dropping all handles but any one or two (or all) elements with or without the document itself, then every operation again on what is left", st.len()));
	let frags = [0usize, 5];
	for t in &st {
		explore(
			ctx,
			t,
			&|w, d| match d {
				0 => single_ops(w, usize::MAX, &frags, true),
				1 => drops(w),
				_ => single_ops(w, usize::MAX, &frags[1..], true).into_iter().filter(|o| !w.root_gone || !matches!(o, Op::RootTextRemove(_) | Op::RootTextSetHtml(..))).collect(),
			},
			3,
			&|w, r| reach(w, r),
		);
		if !ctx.live() {
			return;
		}
	}
	let n = ctx.tier.pick(3, 4);
	let st = starts(n, &[Fill::None]);
	ctx.bound(format!("B: {} documents of <= {n} elements: dropping first, then every sequence of two operations, or an operation between two drops", st.len()));
	for t in &st {
		explore(
			ctx,
			t,
			&|w, d| {
				let mut v = if d == 0 { vec![] } else { single_ops(w, usize::MAX, &frags[..1], false) };
				if d != 1 {
					v.extend(drops(w));
				}
				v
			},
			3,
			&|w, r| reach(w, r),
		);
		if !ctx.live() {
			return;
		}
	}
	texts(ctx);

}
