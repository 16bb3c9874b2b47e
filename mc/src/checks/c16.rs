//! C16: text-node collection and edits.
use crate::engine::Ctx;
use crate::model::*;
use visdom::types::{BoxDynElement, BoxDynText, Elements, INodeType};

/// Documents with every text different; `tags` gives the tag of element i; content tags get a text.
fn doc(shape: &[usize], tags: &[&'static str], fill: Fill) -> Option<Tree> {
	for (i, &p) in shape.iter().enumerate() {
		if p != usize::MAX && CONTENT_TAGS.contains(&tags[p]) {
			return None;
		}
		let _ = i;
	}
	let mut t = build(shape, |i| (tags[i], vec![]), fill);
	for e in t.elements() {
		if CONTENT_TAGS.contains(&t.tag(e)) {
			for k in std::mem::take(&mut t.nodes[e].kids) {
				t.nodes[k].parent = None;
			}
			t.text(e, "x");
		}
	}
	let mut n = 0;
	for i in 0..t.nodes.len() {
		if let Kind::Text(s) = &mut t.nodes[i].kind {
			if !s.trim().is_empty() {
				*s = format!("{s}{n}");
				n += 1;
			}
		}
	}
	Some(t)
}

/// model texts of an element: (depth, node), content elements stand for their text
fn texts(t: &Tree, e: usize, depth: usize, limit: usize, rec: &dyn Fn(&Tree, usize) -> bool, out: &mut Vec<(usize, usize)>) {
	if CONTENT_TAGS.contains(&t.tag(e)) {
		out.push((depth, e));
		return;
	}
	for &k in &t.nodes[e].kids {
		match &t.nodes[k].kind {
			Kind::Text(_) => out.push((depth, k)),
			Kind::Elem(tag, _) => {
				if CONTENT_TAGS.contains(&tag.as_str()) {
					out.push((depth, k));
				} else if depth + 1 < limit && rec(t, k) {
					texts(t, k, depth + 1, limit, rec, out);
				}
			}
			_ => {}
		}
	}
}

/// identity of a text: its content, its index, the mark of its parent (or of itself for content elements)
type Id = (String, usize, usize);
fn model_id(t: &Tree, n: usize) -> Id {
	let p = t.nodes[n].parent.unwrap();
	let idx = t.nodes[p].kids.iter().position(|&k| k == n).unwrap();
	let m = |i: usize| t.attr(i, "k").flatten().map_or(9998, |s| s.parse().unwrap());
	(t.text_of(n), idx, m(p))
}
fn real_id(x: &BoxDynText) -> Id {
	(x.text(), x.index(), x.parent().map_or(9997, |p| mark(&p)))
}

fn collect(ctx: &mut Ctx, t: &Tree) {
	let html = t.html();
	if !ctx.case(|| format!("collect html={html:?}")) {
		return;
	}
	ctx.state(&html);
	ctx.stats.traces += 1;
	let es = t.elements();
	let root = load(&html);
	let r0 = root.get(0).unwrap().cloned();
	let all = real_elements(&r0);
	// start sets: the root, single elements, pairs that do not contain each other
	let mut sets: Vec<Vec<usize>> = vec![vec![0]];
	for &e in &es {
		sets.push(vec![e]);
	}
	let anc = |a: usize, mut b: usize| loop {
		if a == b {
			return true;
		}
		match t.nodes[b].parent {
			Some(p) => b = p,
			None => return false,
		}
	};
	for (i, &a) in es.iter().enumerate() {
		for &b in &es[i + 1..] {
			if !anc(a, b) {
				sets.push(vec![a, b]);
			}
		}
	}
	let real = |n: usize| if n == 0 { r0.cloned() } else { all[es.iter().position(|&e| e == n).unwrap()].cloned() };
	type Pred = (&'static str, fn(usize, &str) -> bool);
	let preds: [Pred; 4] = [("all", |_, _| true), ("even depth", |d, _| d % 2 == 0), ("no blank", |_, s| !s.trim().is_empty()), ("odd number", |_, s| s.ends_with(['1', '3', '5', '7', '9']))];
	let recs: [(&'static str, &'static str); 3] = [("every", ""), ("not b", "b"), ("not p", "p")];
	for s in &sets {
		for limit in 0..=4usize {
			let lim = if limit == 0 { usize::MAX } else { limit };
			for (pn, p) in &preds {
				for (rn, not) in recs {
					let mut want = vec![];
					for &e in s {
						let mut v = vec![];
						texts(t, e, 0, lim, &|t, k| t.tag(k) != not, &mut v);
						want.extend(v.into_iter().filter(|(d, n)| p(*d, &t.text_of(*n))).map(|(d, n)| (d, model_id(t, n))));
					}
					let ids: Vec<Id> = want.iter().map(|x| x.1.clone()).collect();
					if ids.len() > 1 {
						ctx.stats.nonempty += 1;
					}
					let set = Elements::with_nodes(s.iter().map(|&n| real(n)).collect());
					let step = format!("{s:?}.texts(limit {limit}, {pn}, recursion {rn})");
					let f = *p;
					ctx.expect(|| step.clone(), &ids, || {
						let x = set.texts_by_rec(limit, Box::new(move |d, x| f(d, &x.text())), Box::new(move |e: &BoxDynElement| e.tag_name().to_lowercase() != not));
						x.get_ref().iter().map(real_id).collect()
					});
					if not.is_empty() {
						ctx.expect(|| format!("{step} texts_by"), &ids, || {
							let x = set.texts_by(limit, Box::new(move |d, x| f(d, &x.text())));
							x.get_ref().iter().map(real_id).collect()
						});
						if *pn == "all" {
							ctx.expect(|| format!("{step} texts"), &ids, || set.texts(limit).get_ref().iter().map(real_id).collect());
							// second thoughts: filter_by, each, length
							let odd: Vec<Id> = ids.iter().enumerate().filter(|(i, x)| (i + x.0.len()) % 2 == 0).map(|(_, x)| x.clone()).collect();
							ctx.expect(|| format!("{step} filter_by"), &odd, || {
								set.texts(limit).filter_by(|i, x| (i + x.text().len()) % 2 == 0).get_ref().iter().map(real_id).collect()
							});
							ctx.expect(|| format!("{step} each"), &(ids.clone(), ids.len(), ids.iter().take(2).cloned().collect::<Vec<_>>()), || {
								let mut x = set.texts(limit);
								let mut seen = vec![];
								x.each(|_, y| {
									seen.push(real_id(y));
									true
								});
								let mut two = vec![];
								x.for_each(|i, y| {
									two.push(real_id(y));
									i < 1
								});
								(seen, x.length(), two)
							});
						}
					}
				}
			}
			if !ctx.live() {
				return;
			}
		}
	}
}

#[derive(Clone, Copy, Debug)]
enum Ed {
	Set,
	SetEmpty,
	Append,
	Prepend,
	Html,
	HtmlOne,
	HtmlEmpty,
	Remove,
}
const EDS: [Ed; 8] = [Ed::Set, Ed::SetEmpty, Ed::Append, Ed::Prepend, Ed::Html, Ed::HtmlOne, Ed::HtmlEmpty, Ed::Remove];

fn model_edit(t: &mut Tree, n: usize, e: Ed) {
	// content elements keep raw characters
	let raw = CONTENT_TAGS.contains(&t.tag(n));
	if raw {
		let cur = t.text_of(n);
		let new = match e {
			Ed::Set => "n&lt;".to_string(),
			Ed::SetEmpty => String::new(),
			Ed::Append => format!("{cur}&gt;a"),
			Ed::Prepend => format!("b&amp;{cur}"),
			Ed::Html => "h<i>v</i>".to_string(),
			Ed::HtmlOne => "<i></i>".to_string(),
			Ed::HtmlEmpty => String::new(),
			// the text of a content element is removed with the element
			Ed::Remove => {
				if let Some(p) = t.nodes[n].parent.take() {
					t.nodes[p].kids.retain(|&k| k != n);
				}
				return;
			}
		};
		t.nodes[n].kids.clear();
		if !new.is_empty() {
			t.text(n, &new);
		}
		return;
	}
	let p = t.nodes[n].parent;
	let at = p.map(|p| t.nodes[p].kids.iter().position(|&k| k == n).unwrap());
	let Kind::Text(s) = &mut t.nodes[n].kind else { unreachable!() };
	match e {
		Ed::Set => *s = "n<".into(),
		Ed::SetEmpty => {}
		Ed::Append => s.push_str(">a"),
		Ed::Prepend => *s = format!("b&{s}"),
		Ed::Html | Ed::HtmlOne | Ed::HtmlEmpty | Ed::Remove => {
			let Some(p) = p else { return };
			let at = at.unwrap();
			t.nodes[p].kids.remove(at);
			t.nodes[n].parent = None;
			if matches!(e, Ed::HtmlOne) {
				let x = t.nodes.len();
				t.nodes.push(Node { kind: Kind::Elem("i".into(), vec![]), parent: Some(p), kids: vec![] });
				t.nodes[p].kids.insert(at, x);
			}
			if matches!(e, Ed::Html) {
				let x = t.nodes.len();
				t.nodes.push(Node { kind: Kind::Text("h".into()), parent: Some(p), kids: vec![] });
				t.nodes.push(Node { kind: Kind::Elem("i".into(), vec![]), parent: Some(p), kids: vec![x + 2] });
				t.nodes.push(Node { kind: Kind::Text("v".into()), parent: Some(x + 1), kids: vec![] });
				t.nodes[p].kids.splice(at..at, [x, x + 1]);
			}
		}
	}
}

fn again(x: &BoxDynText<'static>) -> BoxDynText<'static> {
	let n = x.clone_node();
	match n.node_type() {
		INodeType::Text => n.typed().into_text().unwrap(),
		_ => n.typed().into_element().unwrap().into_text().unwrap_or_else(|_| panic!("harness: into_text")),
	}
}
fn real_edit(x: &mut BoxDynText<'static>, e: Ed) {
	match e {
		Ed::Set => x.set_text("n&lt;"),
		Ed::SetEmpty => x.set_text(""),
		Ed::Append => x.append_text("&gt;a"),
		Ed::Prepend => x.prepend_text("b&amp;"),
		Ed::Html => x.set_html("h<i>v</i>"),
		Ed::HtmlOne => x.set_html("<i></i>"),
		Ed::HtmlEmpty => x.set_html(""),
		Ed::Remove => again(x).remove(),
	}
}

fn view(t: &Tree, root: &Elements<'static>) -> Option<String> {
	let src = root.document().unwrap().source_code();
	if src != t.html() {
		return Some(format!("source {src:?}, expected {:?}", t.html()));
	}
	let r0 = root.get(0).unwrap().cloned();
	if let Some(d) = diff_tree(t, &r0) {
		return Some(d);
	}
	let mut v = vec![];
	texts(t, 0, 0, usize::MAX, &|_, _| true, &mut v);
	let want: Vec<Id> = v.iter().map(|x| model_id(t, x.1)).collect();
	let got: Vec<Id> = root.texts(0).get_ref().iter().map(real_id).collect();
	(want != got).then(|| format!("texts afterwards {got:?}, expected {want:?}"))
}

/// all sequences of edits on the text handles collected at the start
fn edits(ctx: &mut Ctx, t: &Tree, depth: usize) {
	let html = t.html();
	let mut v = vec![];
	texts(t, 0, 0, usize::MAX, &|_, _| true, &mut v);
	let hs: Vec<usize> = v.into_iter().map(|x| x.1).collect();
	let steps: Vec<(usize, Ed)> = (0..hs.len()).flat_map(|i| EDS.iter().map(move |&e| (i, e))).collect();
	for first in 0..steps.len() {
		if !ctx.case(|| format!("edits html={html:?} first={:?}", steps[first])) {
			if !ctx.live() {
				return;
			}
			continue;
		}
		for len in 1..=depth {
			for w in words(len - 1, steps.len()) {
				let mut m = t.clone();
				let seq: Vec<(usize, Ed)> = std::iter::once(first).chain(w).map(|i| steps[i]).collect();
				for &(i, e) in &seq {
					model_edit(&mut m, hs[i], e);
				}
				ctx.state(&m.html());
				ctx.stats.transitions += len as u64 - 1;
				ctx.stats.traces += 1;
				ctx.stats.nonempty += (len > 1) as u64;
				ctx.expect(|| format!("{seq:?}"), &None, || {
					let root = load(&html);
					let mut x = root.texts(0);
					for &(i, e) in &seq {
						real_edit(&mut x.get_mut_ref()[i], e);
					}
					view(&m, &root)
				});
				if !ctx.live() {
					return;
				}
			}
		}
	}
}

pub fn run(ctx: &mut Ctx) {
	let n = ctx.tier.pick(5, 6);
	let tagsets: [[&'static str; 6]; 4] = [["p", "b", "p", "b", "p", "b"], ["p", "script", "b", "textarea", "b", "p"], ["b", "p", "title", "b", "style", "p"], ["textarea", "b", "b", "p", "script", "b"]];
	ctx.bound(format!("A: all shapes of <= {n} elements x 4 tag assignments (with script, style, title, textarea) x fillings: texts/texts_by/texts_by_rec of the root, every element and every disjoint pair, limits 0..4, 4 predicates, 3 recursion predicates, filter_by, each"));
	for k in 1..=n {
		for s in forests(k) {
			for tags in &tagsets {
				for f in [Fill::None, Fill::Text, Fill::Mixed] {
					if let Some(t) = doc(&s, tags, f) {
						collect(ctx, &t);
						if !ctx.live() {
							return;
						}
					}
				}
			}
		}
	}
	let n = ctx.tier.pick(3, 4);
	let depth = 3;
	ctx.bound(format!("B: all shapes of <= {n} elements x 4 tag assignments: every sequence of <= {depth} edits (set, set empty, append, prepend, set_html with two nodes, one node, none, remove) on the handles of all texts collected at the start, also on handles already removed"));
	if ctx.tier.pick(false, true) {
		ctx.bound("C: all shapes of <= 2 elements: every sequence of <= 4 edits".to_string());
		for k in 1..=2 {
			for s in forests(k) {
				for tags in &tagsets {
					if let Some(t) = doc(&s, tags, Fill::Text) {
						edits(ctx, &t, 4);
						if !ctx.live() {
							return;
						}
					}
				}
			}
		}
	}
	for k in 1..=n {
		for s in forests(k) {
			for tags in &tagsets {
				for f in [Fill::None, Fill::Text] {
					if let Some(t) = doc(&s, tags, f) {
						edits(ctx, &t, depth);
						if !ctx.live() {
							return;
						}
					}
				}
			}
		}
	}
	if ctx.live() {
		large(ctx);
	}
	if ctx.live() {
		letters(ctx);
	}
}

/// many texts, deep texts
fn large(ctx: &mut Ctx) {
	let sizes: Vec<usize> = ctx.tier.pick(vec![20, 70, 270], vec![20, 34, 70, 140, 270, 600]);
	ctx.bound(format!("large: lists, chains, combs and rows of {sizes:?} elements with texts: limits around 0, the powers of two and the depth; every edit of the first, second, middle and last texts"));
	for (name, shape) in crate::big::shapes(&sizes) {
		let n = shape.len();
		let tags: Vec<&'static str> = (0..n).map(|i| ["p", "b", "u"][i % 3]).collect();
		let t = doc(&shape, &tags, Fill::Text).unwrap();
		let html = t.html();
		if ctx.case(|| format!("large {name}")) {
			ctx.state(&html);
			ctx.stats.traces += 1;
			let root = load(&html);
			for limit in [0, 1, 2, 3, 15, 16, 17, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, n - 1, n, n + 1, 100_000] {
				let lim = if limit == 0 { usize::MAX } else { limit };
				type Pred = (&'static str, fn(usize, &str) -> bool);
				let preds: [Pred; 3] = [("all", |_, _| true), ("even depth", |d, _| d % 2 == 0), ("odd number", |_, s| s.ends_with(['1', '3', '5', '7', '9']))];
				for (pn, p) in preds {
					let mut v = vec![];
					texts(&t, 0, 0, lim, &|_, _| true, &mut v);
					let want: Vec<Id> = v.into_iter().filter(|(d, n)| p(*d, &t.text_of(*n))).map(|(_, n)| model_id(&t, n)).collect();
					ctx.stats.nonempty += 1;
					if !ctx.expect(|| format!("texts({limit}) {pn}"), &want, || root.texts_by(limit, Box::new(move |d, x| p(d, &x.text()))).get_ref().iter().map(real_id).collect()) {
						return;
					}
					if pn == "all" && !ctx.expect(|| format!("texts({limit}) plain"), &want, || root.texts(limit).get_ref().iter().map(real_id).collect()) {
						return;
					}
				}
			}
		}
		if !ctx.live() {
			return;
		}
		let mut v = vec![];
		texts(&t, 0, 0, usize::MAX, &|_, _| true, &mut v);
		let hs: Vec<usize> = v.into_iter().map(|x| x.1).collect();
		let l = hs.len();
		if !ctx.case(|| format!("large edits {name}")) {
			if !ctx.live() {
				return;
			}
			continue;
		}
		let at = [0, 1, l / 2, l - 2, l - 1];
		for i in at {
			for e in EDS {
				for j in [usize::MAX, at[0], at[2], at[4]] {
					for e2 in if j == usize::MAX { &EDS[..1] } else { &EDS[2..] } {
						let mut seq = vec![(i, e)];
						if j != usize::MAX {
							seq.push((j, *e2));
						}
						let mut m = t.clone();
						for &(i, e) in &seq {
							model_edit(&mut m, hs[i], e);
						}
						ctx.state(&m.html());
						ctx.stats.traces += 1;
						ctx.stats.nonempty += 1;
						ctx.expect(|| format!("{seq:?}"), &None, || {
							let root = load(&html);
							let mut x = root.texts(0);
							for &(i, e) in &seq {
								real_edit(&mut x.get_mut_ref()[i], e);
							}
							view(&m, &root)
						});
						if !ctx.live() {
							return;
						}
					}
				}
			}
		}
	}
}

/// every character in the text of a node and in the given text
fn letters(ctx: &mut Ctx) {
	let cs = chars();
	ctx.bound(format!("D: {} characters (all of ASCII and {} others, but not < and &) alone, before, after and between letters: as the text there was, the text set, appended and prepended, and as the html set, in normal and content elements", cs.len(), cs.len() - 128));
	for c in cs {
		if matches!(c, '<' | '&') {
			continue;
		}
		if !ctx.case(|| format!("character {c:?}")) {
			if !ctx.live() {
				return;
			}
			continue;
		}
		for tag in ["p", "textarea", "title", "script", "style", "pre"] {
			for old in around(c).iter().map(|s| s.as_str()).chain(["t", " "]) {
				for new in around(c).iter().map(|s| s.as_str()).chain(["t", "t u"]) {
					for (what, result) in [("set", new.to_string()), ("append", format!("{old}{new}")), ("prepend", format!("{new}{old}")), ("html", new.to_string())] {
						let wrap = |s: &str| format!("<i></i><{tag} k=\"0\">{s}</{tag}>z");
						let (html, want) = (wrap(old), (result.clone(), wrap(&result), 2));
						ctx.state(&want.1);
						ctx.stats.traces += 1;
						ctx.stats.nonempty += 1;
						ctx.expect(|| format!("{what} {new:?} on {old:?} in {tag}"), &want, || {
							let root = load(&html);
							{
								let mut x = root.texts(0);
								let n = &mut x.get_mut_ref()[0];
								if n.text() != old {
									return (format!("before: {:?}", n.text()), String::new(), 0);
								}
								match what {
									"set" => n.set_text(new),
									"append" => n.append_text(new),
									"prepend" => n.prepend_text(new),
									_ => n.set_html(new),
								}
							}
							let x = root.texts(0);
							let src = root.document().unwrap().source_code();
							(x.get_ref()[0].text(), src, x.length())
						});
					}
				}
			}
			if !ctx.live() {
				return;
			}
		}
	}
}
