//! C22: document accessors and ownership.
use crate::engine::Ctx;
use crate::model::*;
use crate::mutate::*;
use visdom::types::{BoxDynElement, BoxDynNode, Elements};

type Acc = (Option<usize>, Option<usize>, Option<usize>, Option<String>);
fn accessors(t: &Tree, mark_of: &dyn Fn(usize) -> usize) -> Acc {
	let es = t.elements();
	let first = |tag: &str| es.iter().copied().find(|&e| t.tag(e) == tag);
	let title = first("head").and_then(|h| {
		let mut r = None;
		t.pre(h, &mut |t, i| {
			if r.is_none() && t.tag(i) == "title" {
				r = Some(i);
			}
		});
		r
	});
	(first("html").map(mark_of), first("head").map(mark_of), first("body").map(mark_of), title.map(|x| t.text_of(x)))
}
fn ids(t: &Tree, mark_of: &dyn Fn(usize) -> usize) -> Vec<Option<usize>> {
	let es = t.elements();
	["x", "y", "z", "X", ""].iter().map(|i| es.iter().copied().find(|&e| t.attr(e, "id") == Some(Some(i))).map(mark_of)).collect()
}
fn real_acc(root: &Elements<'static>) -> (Acc, Vec<Option<usize>>) {
	let d = root.document().unwrap();
	let mk = |e: Option<BoxDynElement>| e.map(|e| mark(&e));
	((mk(d.document_element()), mk(d.head()), mk(d.body()), d.title()), ["x", "y", "z", "X", ""].iter().map(|i| mk(d.get_element_by_id(i))).collect())
}

/// every node below `top` belongs to the document whose root is `top`
fn owned(top: &BoxDynElement<'static>, src: &str) -> Option<String> {
	fn node(n: &BoxDynNode<'static>, top: &BoxDynElement<'static>, src: &str, path: &str) -> Option<String> {
		match n.owner_document() {
			None => return Some(format!("{path} has no owner document")),
			Some(d) => {
				if d.source_code() != src {
					return Some(format!("{path} belongs to {:?}", d.source_code()));
				}
			}
		}
		match n.root_element() {
			Some(r) if r.is(top) => {}
			_ => return Some(format!("{path} has another root")),
		}
		None
	}
	fn rec(e: &BoxDynElement<'static>, top: &BoxDynElement<'static>, src: &str, path: &str) -> Option<String> {
		for (i, n) in e.child_nodes().into_iter().enumerate() {
			let p = format!("{path}/{i}");
			if let Some(d) = node(&n, top, src, &p) {
				return Some(d);
			}
			if let visdom::types::INodeType::Element = n.node_type() {
				let c = n.typed().into_element().unwrap();
				if let Some(d) = rec(&c, top, src, &p) {
					return Some(d);
				}
			}
		}
		None
	}
	rec(top, top, src, "document")
}

fn monitor(w: &W, r: &R) -> Option<String> {
	let mk = |i: usize| w.mark_of(i).unwrap_or(9998);
	let want = (accessors(&w.t, &mk), ids(&w.t, &mk));
	let got = real_acc(&r.root);
	if want != got {
		return Some(format!("html, head, body, title, ids: {got:?}, expected {want:?}"));
	}
	let src = w.t.html();
	let d = r.root.document().unwrap().source_code();
	if d != src {
		return Some(format!("source {d:?}, expected {src:?}"));
	}
	if let Some(d) = owned(&r.r0, &src) {
		return Some(d);
	}
	for (i, &f) in w.frag_roots.iter().enumerate() {
		if let Some(d) = owned(r.frags[i].get(0).unwrap(), &w.t.outer(f)) {
			return Some(format!("fragment {i}: {d}"));
		}
	}
	None
}

const TAGS: [&str; 5] = ["html", "head", "body", "title", "p"];

pub fn run(ctx: &mut Ctx) {
	let n = ctx.tier.pick(4, 5);
	ctx.bound(format!("A: all trees of <= {n} elements over {TAGS:?} with repeated, missing and misplaced parts, with and without doctype, ids repeated and absent: accessors, ids and ownership of every node"));
	for k in 0..=n {
		for s in forests(k) {
			'w: for w in words(k, TAGS.len()) {
				for i in 0..k {
					// a title has no element children
					if s[i] != usize::MAX && TAGS[w[s[i]]] == "title" {
						continue 'w;
					}
				}
				let idw = w.iter().sum::<usize>() + s.len();
				for dt in [false, true] {
					let mut t = build(
						&s,
						|i| {
							(
								TAGS[w[i]],
								match (i + idw) % 4 {
									0 => vec![("id", "x")],
									1 => vec![("id", "y")],
									2 => vec![("class", "x"), ("id", "x")],
									_ => vec![],
								},
							)
						},
						Fill::None,
					);
					for e in t.elements() {
						if t.tag(e) == "title" {
							t.text(e, &format!("T{e}"));
						}
					}
					if dt {
						let d = t.add(0, Kind::Doctype);
						t.nodes[0].kids.pop();
						t.nodes[0].kids.insert(0, d);
					}
					let html = t.html();
					if !ctx.case(|| format!("html={html:?}")) {
						if !ctx.live() {
							return;
						}
						continue;
					}
					if k == 0 && !dt {
						continue;
					}
					ctx.state(&html);
					ctx.stats.traces += 1;
					let mk = |i: usize| t.attr(i, "k").flatten().unwrap().parse().unwrap();
					let want = (accessors(&t, &mk), ids(&t, &mk), None);
					if (want.0).1.is_some() {
						ctx.stats.nonempty += 1;
					}
					ctx.expect(|| "accessors".to_string(), &want, || {
						let root = load(&html);
						let (a, b) = real_acc(&root);
						(a, b, owned(&root.get(0).unwrap().cloned(), &html))
					});
					if !ctx.live() {
						return;
					}
				}
			}
		}
	}
	// histories on whole documents
	let mk = |body: bool, title: bool| {
		let mut d = Tree::new();
		d.add(0, Kind::Doctype);
		let h = d.elem(0, "html", &[("k", "0")]);
		let he = d.elem(h, "head", &[("k", "1")]);
		let mut k = 2;
		if title {
			let t = d.elem(he, "title", &[("k", "2")]);
			d.text(t, "a");
			k = 3;
		}
		if body {
			let b = d.elem(h, "body", &[("k", &k.to_string()), ("id", "x")]);
			d.text(b, "t");
			d.elem(b, "p", &[("k", &(k + 1).to_string()), ("id", "y")]);
		}
		d
	};
	let mut frag = Tree::new();
	let p = frag.elem(0, "p", &[("k", "0"), ("id", "x")]);
	frag.text(p, "t");
	frag.elem(p, "b", &[("k", "1")]);
	frag.elem(0, "head", &[("k", "2")]);
	let docs = [mk(true, true), mk(true, false), mk(false, true), frag];
	let ops = |w: &W, frags: &[usize], max: usize| {
		let mut v = single_ops(w, max, frags, true);
		let mut ms: Vec<usize> = w.by_mark.keys().copied().filter(|&m| m < max).collect();
		ms.sort();
		for m in ms {
			for id in ["x", "z", ""] {
				v.push(Op::SetAttr(vec![m], "id", Some(id)));
			}
			v.push(Op::RemoveAttr(vec![m], "id"));
			v.push(Op::SetText(vec![m], ""));
		}
		v
	};
	// elements in title are not possible; prepending to content elements is a known finding of C11
	ctx.bound(format!("B: {} documents: all histories of length <= 2 over every structural, content and id operation with fragments that hold title, head and body elements", docs.len()));
	for t in &docs {
		explore(ctx, t, &|w, _| ops(w, &[6, 7, 8], 8), 2, &monitor);
		if !ctx.live() {
			return;
		}
	}
	let depth = ctx.tier.pick(2, 3);
	ctx.bound(format!("C: {} documents: all histories of length <= {depth} over the original elements and one fragment", docs.len()));
	for t in &docs {
		explore(ctx, t, &|w, _| ops(w, &[8], 5), depth, &monitor);
		if !ctx.live() {
			return;
		}
	}
	ctx.bound("D: copies of any element, then every structural operation with originals and copies; fragments into two targets".to_string());
	for t in &docs {
		explore(
			ctx,
			t,
			&|w, d| {
				if d == 0 {
					let n = w.by_mark.len();
					let mut v: Vec<Op> = (0..n).map(|m| Op::CloneSet(vec![m])).collect();
					for a in 0..n {
						for b in a + 1..n {
							for p in POS {
								v.push(Op::InsertFrag(vec![a, b], p, 1));
							}
							v.push(Op::SetHtml(vec![a, b], 8));
							v.push(Op::ReplaceFrag(vec![a, b], 7));
						}
					}
					v
				} else {
					single_ops(w, usize::MAX, &[], true)
				}
			},
			2,
			&monitor,
		);
		if !ctx.live() {
			return;
		}
	}
	if ctx.live() {
		crate::big::mutations(ctx, &monitor, false);
	}
	if ctx.live() {
		letters(ctx);
	}
}

/// every character in an id
fn letters(ctx: &mut Ctx) {
	let cs = chars();
	ctx.bound(format!("E: {} characters (all of ASCII and {} others) alone, before, after and between letters, in an id and in a title, from the markup and set: only the exact id answers", cs.len(), cs.len() - 128));
	for c in cs {
		if !ctx.case(|| format!("character {c:?}")) {
			if !ctx.live() {
				return;
			}
			continue;
		}
		let mut ids: Vec<String> = around(c).to_vec();
		ids.extend([format!("{c}{c}"), format!(" {c}"), format!("{c} "), "x".into(), "xy".into(), "X".into()]);
		let q = if c == '"' { '\'' } else { '"' };
		for set in [false, true] {
			for rev in [false, true] {
				let mut order: Vec<usize> = (0..ids.len()).collect();
				if rev {
					order.reverse();
				}
				let title = if matches!(c, '<' | '&') { "x".to_string() } else { format!("x{c}") };
				let mut html = format!("<html k=\"90\"><head k=\"91\"><title k=\"92\">{title}</title></head><body k=\"93\">");
				for &i in &order {
					html += &if set { format!("<p k=\"{i}\"></p>") } else { format!("<p k=\"{i}\" id={q}{}{q}></p>", ids[i]) };
				}
				html += "</body></html>";
				ctx.state(&(&html, c));
				ctx.stats.traces += 1;
				ctx.stats.nonempty += 1;
				let firsts = |id: &str| order.iter().copied().find(|&i| ids[i] == id);
				ctx.expect(|| format!("set {set}, reversed {rev}"), &None, || {
					let root = load(&html);
					let d = root.document().unwrap();
					if set {
						for mut e in real_elements(&root.get(0).unwrap().cloned()) {
							if mark(&e) < 90 {
								let id = &ids[mark(&e)];
								e.set_attribute("id", Some(id));
							}
						}
					}
					for id in ids.iter().map(|s| s.as_str()).chain(["", "y", "xyz"]) {
						let got = d.get_element_by_id(id).map(|e| mark(&e));
						if got != firsts(id) {
							return Some(format!("get_element_by_id({id:?}) = {got:?}, expected {:?}", firsts(id)));
						}
					}
					let got = d.title();
					(got.as_deref() != Some(title.as_str())).then(|| format!("title {got:?}, expected {title:?}"))
				});
				if !ctx.live() {
					return;
				}
			}
		}
	}
}
