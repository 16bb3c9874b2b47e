//! C26: a single element or node answers and acts as the tree says and as the set of that element does.
use crate::engine::Ctx;
use crate::model::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use visdom::types::{BoxDynElement, BoxDynNode, Elements, IAttrValue, IEnumTyped, IFormValue, INodeType};
use visdom::Vis;

type El = BoxDynElement<'static>;

fn docs(n: usize) -> Vec<Tree> {
	let mut v = vec![];
	for k in 1..=n {
		for s in forests(k) {
			for f in [Fill::None, Fill::Text, Fill::Mixed] {
				v.push(build(&s, |i| (["p", "b", "i", "p"][i % 4], [vec![("id", "x"), ("class", "c  d")], vec![], vec![("class", "")]][i % 3].clone()), f));
			}
		}
	}
	// doctype, void, content and control elements, in every order of two beside a plain one
	let kinds: [&dyn Fn(&mut Tree, usize); 8] = [
		&|t, p| {
			t.elem(p, "br", &[("k", "11")]);
		},
		&|t, p| {
			let e = t.elem(p, "title", &[("k", "12")]);
			t.text(e, "a b");
		},
		&|t, p| {
			let e = t.elem(p, "script", &[("k", "13")]);
			t.text(e, "1");
		},
		&|t, p| {
			t.elem(p, "textarea", &[("k", "14")]);
		},
		&|t, p| {
			t.elem(p, "input", &[("k", "15"), ("value", " Vv ")]);
		},
		&|t, p| {
			let s = t.add(p, Kind::Elem("select".into(), vec![("k".to_string(), Some("16".to_string())), ("multiple".to_string(), None)]));
			t.add(s, Kind::Elem("option".into(), vec![("k".to_string(), Some("17".to_string())), ("value".to_string(), Some("x".to_string())), ("selected".to_string(), None)]));
			t.add(s, Kind::Elem("option".into(), vec![("k".to_string(), Some("18".to_string())), ("value".to_string(), Some("y".to_string())), ("selected".to_string(), Some("".to_string()))]));
		},
		&|t, p| {
			t.add(p, Kind::Comment("c".into()));
		},
		&|t, p| {
			t.text(p, " ");
		},
	];
	for a in 0..kinds.len() {
		for b in 0..kinds.len() {
			for inside in [false, true] {
				if a == b || (a == 7 && b == 7) {
					continue;
				}
				let mut t = Tree::new();
				if inside {
					let e = t.elem(0, "div", &[("k", "0")]);
					kinds[a](&mut t, e);
					t.elem(e, "p", &[("k", "1")]);
					kinds[b](&mut t, e);
				} else {
					t.add(0, Kind::Doctype);
					kinds[a](&mut t, 0);
					t.elem(0, "p", &[("k", "1")]);
					kinds[b](&mut t, 0);
				}
				v.push(t);
			}
		}
	}
	v
}

fn kind_of(t: &Tree, i: usize) -> &'static str {
	match t.nodes[i].kind {
		Kind::Root => "Document",
		Kind::Elem(..) => "Element",
		Kind::Text(_) => "Text",
		Kind::Comment(_) => "Comment",
		Kind::Doctype => "HTMLDOCTYPE",
	}
}
fn mk(t: &Tree, i: usize) -> usize {
	t.attr(i, "k").flatten().and_then(|v| v.parse().ok()).unwrap_or(9998)
}
fn type_name(n: &INodeType) -> String {
	format!("{n:?}")
}
/// what a node is, through every way to ask
fn node_says(n: &BoxDynNode<'static>) -> Result<(String, Option<usize>), String> {
	let ty = n.node_type();
	let name = type_name(&ty);
	let elem = matches!(ty, INodeType::Element);
	if ty.is_element() != elem {
		return Err(format!("{name}.is_element() = {}", ty.is_element()));
	}
	let e = n.clone_node().typed().into_element();
	let x = n.clone_node().typed().into_text();
	let z = matches!(n.clone_node().typed(), IEnumTyped::UncareNode(_));
	let want = match name.as_str() {
		"Element" | "Document" => (true, false, false),
		"Text" => (false, true, false),
		_ => (false, false, true),
	};
	if (e.is_some(), x.is_some(), z) != want {
		return Err(format!("a {name} node is typed element={} text={} other={z}", e.is_some(), x.is_some()));
	}
	Ok((name, if elem { e.map(|e| mark(&e)) } else { None }))
}

fn reads(t: &Tree, id: usize, e: &El, all: &[El], marks_ids: &[(usize, usize)]) -> Option<String> {
	macro_rules! same {
		($what:expr, $got:expr, $want:expr) => {{
			let (g, w) = ($got, $want);
			if g != w {
				return Some(format!("{}: {g:?}, expected {w:?}", $what));
			}
		}};
	}
	let content = CONTENT_TAGS.contains(&t.tag(id));
	let kids: &[usize] = if content { &[] } else { &t.nodes[id].kids };
	let elems: Vec<usize> = kids.iter().copied().filter(|&c| t.is_elem(c)).map(|c| mk(t, c)).collect();
	// child nodes
	same!("child_nodes_length", e.child_nodes_length(), kids.len());
	for i in 0..kids.len() + 2 {
		match (e.child_nodes_item(i), kids.get(i)) {
			(None, None) => {}
			(Some(n), Some(&c)) => {
				let says = match node_says(&n) {
					Ok(s) => s,
					Err(m) => return Some(format!("child_nodes_item({i}): {m}")),
				};
				same!(format!("child_nodes_item({i})"), says, (kind_of(t, c).to_string(), if t.is_elem(c) { Some(mk(t, c)) } else { None }));
				same!(format!("index of child node {i}"), n.index(), i);
				match n.parent() {
					Some(p) if p.is(e) => {}
					_ => return Some(format!("child node {i} has another parent")),
				}
			}
			(g, w) => return Some(format!("child_nodes_item({i}) is {}, expected {}", g.is_some(), w.is_some())),
		}
	}
	same!("child_nodes", e.child_nodes().len(), kids.len());
	same!("children", marks(&e.children()), elems.clone());
	let mut seen = vec![];
	e.children_by(Box::new(|c| seen.push(c.get_attribute("k").map(|v| v.to_string()).unwrap_or_default())));
	same!("children_by", seen, elems.iter().map(|m| m.to_string()).collect::<Vec<_>>());
	// from any position, in both directions, stopping after each number of elements
	for from in 0..kids.len() {
		for reverse in [false, true] {
			let range: Vec<usize> = if reverse { (0..=from).rev().collect() } else { (from..kids.len()).collect() };
			let want: Vec<usize> = range.into_iter().filter(|&i| t.is_elem(kids[i])).map(|i| mk(t, kids[i])).collect();
			for stop in 1..=want.len() + 1 {
				let mut seen = vec![];
				e.child_nodes_item_since_by(
					from,
					reverse,
					Box::new(|c| {
						seen.push(c.get_attribute("k").map(|v| v.to_string()).unwrap_or_default());
						seen.len() < stop
					}),
				);
				same!(format!("child_nodes_item_since_by({from}, {reverse}) stopped after {stop}"), seen, want.iter().take(stop).map(|m| m.to_string()).collect::<Vec<_>>());
			}
		}
	}
	// identity
	for f in all {
		same!(format!("is({})", mark(f)), e.is(f), mark(f) == mk(t, id) && id != 0);
		same!(format!("{} is it", mark(f)), f.is(e), mark(f) == mk(t, id) && id != 0);
	}
	same!("is itself", (e.is(&e.cloned()), e.is(&e.copied()), e.copied().is(e)), (true, false, false));
	same!("is_root_element", e.is_root_element(), id == 0);
	// the way up
	let up = t.nodes[id].parent;
	same!("parent", e.parent().map(|p| (p.is_root_element(), if p.is_root_element() { 0 } else { mark(&p) })), up.map(|p| (p == 0, if p == 0 { 0 } else { mk(t, p) })));
	same!("root_element", e.root_element().map(|r| r.is_root_element()), Some(true));
	same!("owner_document", e.owner_document().is_some(), true);
	let around: &[usize] = up.map_or(&[], |p| &t.nodes[p].kids);
	let at = around.iter().position(|&c| c == id).unwrap_or(0);
	let pick = |v: &[usize]| v.iter().copied().filter(|&c| t.is_elem(c)).map(|c| mk(t, c)).collect::<Vec<_>>();
	let (before, after) = if around.is_empty() { (vec![], vec![]) } else { (pick(&around[..at]), pick(&around[at + 1..])) };
	same!("index", e.index(), at);
	same!("next_element_sibling", e.next_element_sibling().map(|x| mark(&x)), after.first().copied());
	same!("next_element_siblings", marks(&e.next_element_siblings()), after.clone());
	same!("previous_element_sibling", e.previous_element_sibling().map(|x| mark(&x)), before.last().copied());
	same!("previous_element_siblings", marks(&e.previous_element_siblings()), before.clone());
	same!("siblings", marks(&e.siblings()), before.iter().chain(&after).copied().collect::<Vec<_>>());
	// names and contents
	if id != 0 {
		same!("tag_name", e.tag_name(), t.tag(id).to_ascii_uppercase());
		same!("tag_names", e.tag_names().into_iter().collect::<String>(), t.tag(id).to_ascii_lowercase());
		same!("into_text", e.cloned().into_text().map(|x| x.text()).ok(), if content { Some(t.text_of(id)) } else { None });
	}
	same!("text", (e.text(), e.text_content(), e.text_contents().into_iter().collect::<String>()), (t.text_of(id), t.text_of(id), t.text_of(id)));
	same!("html", (e.html(), e.inner_html()), (t.inner(id), t.inner(id)));
	if id != 0 {
		same!("outer_html", e.outer_html(), t.outer(id));
	}
	// the set of this element
	for (route, set) in [("dom", Vis::dom(e)), ("with_nodes", Elements::with_nodes(vec![e.cloned()]))] {
		let w = |s: &str| format!("{route}.{s}");
		same!(w("length"), (set.length(), set.is_empty(), set.get(0).map(|x| x.is(e)), set.get(1).is_some()), (1, false, Some(true), false));
		same!(w("text"), set.text(), e.text());
		same!(w("html"), (set.html(), set.htmls()), (e.html(), e.html()));
		same!(w("outer_html"), (set.outer_html(), set.outer_htmls()), (e.outer_html(), e.outer_html()));
		same!(w("children"), marks(&set.children("")), elems.clone());
		same!(w("siblings"), marks(&set.siblings("")), marks(&e.siblings()));
		same!(w("next"), set.next("").get(0).map(mark), e.next_element_sibling().map(|x| mark(&x)));
		same!(w("prev"), set.prev("").get(0).map(mark), e.previous_element_sibling().map(|x| mark(&x)));
		same!(w("next_all"), marks(&set.next_all("")), marks(&e.next_element_siblings()));
		same!(w("prev_all"), marks(&set.prev_all("")), marks(&e.previous_element_siblings()));
		if id != 0 {
			same!(w("val"), set.val().to_string(), e.value().to_string());
			let each: Vec<String> = e.value().into_iter().collect();
			match e.value() {
				IFormValue::Single(v) => same!("value", (e.value().to_string(), t.tag(id) == "select"), (v, false)),
				IFormValue::Multiple(v) => same!("values", (each, e.value().to_string()), (v.clone(), v.join(","))),
			}
			for k in ["k", "id", "class", "value", "q", "ID"] {
				let v = e.get_attribute(k);
				same!(w(k), set.attr(k).map(|v| v.to_string()), v.as_ref().map(|v| v.to_string()));
				same!(w("has_attr"), (set.has_attr(k), e.has_attribute(k)), (v.is_some(), v.is_some()));
				if let Some(v) = v {
					let flag = matches!(v, IAttrValue::True);
					let s = t.attr(id, k).flatten().unwrap_or("").to_string();
					same!(w("value"), (v.is_true(), v.to_string(), v.is_str(&s), v.is_str("q")), (flag, s.clone(), true, false));
					for other in [s.trim().to_string(), format!(" {s}"), format!("{s} "), s.to_uppercase(), s.to_lowercase(), format!("{s}{s}"), s.chars().skip(1).collect(), s.chars().rev().collect(), String::new()] {
						same!(w(&format!("is_str({other:?})")), v.is_str(&other), other == s);
					}
					same!(w("list"), v.to_list().into_iter().map(|x| x.to_string()).collect::<Vec<_>>(), s.split_ascii_whitespace().map(|x| x.to_string()).collect::<Vec<_>>());
				}
			}
		}
		for limit in 0..4 {
			let own: Option<Vec<String>> = e.texts(limit).map(|x| x.get_ref().iter().map(|x| x.text()).collect());
			let of_set: Vec<String> = set.texts(limit).get_ref().iter().map(|x| x.text()).collect();
			same!(w("texts"), own.clone().unwrap_or_default(), of_set.clone());
			same!("texts is None without texts", own.is_none(), of_set.is_empty());
			let own: Option<Vec<String>> = e.texts_by(limit, &|d, x| d != 1 && x.text() != "u").map(|x| x.get_ref().iter().map(|x| x.text()).collect());
			let of_set: Vec<String> = set.texts_by(limit, Box::new(|d, x| d != 1 && x.text() != "u")).get_ref().iter().map(|x| x.text()).collect();
			same!(w("texts_by"), own.unwrap_or_default(), of_set);
			let own: Option<Vec<String>> = e.texts_by_rec(limit, &|_, _| true, &|x| x.tag_name() != "B").map(|x| x.get_ref().iter().map(|x| x.text()).collect());
			let of_set: Vec<String> = set.texts_by_rec(limit, Box::new(|_, _| true), Box::new(|x| x.tag_name() != "B")).get_ref().iter().map(|x| x.text()).collect();
			same!(w("texts_by_rec"), own.unwrap_or_default(), of_set);
		}
	}
	let _ = marks_ids;
	None
}

/// visits of a set: every stop, every position
fn visits(all: &[El]) -> Option<String> {
	let n = all.len();
	for m in 0..1u64 << n {
		let mut set = subset(all, m);
		let want = marks(&set);
		for stop in 0..=want.len() {
			for alias in [false, true] {
				let mut seen = vec![];
				let f = |i: usize, e: &mut BoxDynElement| {
					seen.push((i, mark_of(e)));
					seen.len() <= stop
				};
				let len = if alias { set.each(f).length() } else { set.for_each(f).length() };
				let w: Vec<(usize, usize)> = want.iter().copied().enumerate().take(stop + 1).collect();
				if seen != w || len != want.len() {
					return Some(format!("each of {want:?} stopped after {stop}: saw {seen:?}"));
				}
			}
		}
		let g = set.map(|i, e| (i, mark_of(e)));
		if g != want.iter().copied().enumerate().collect::<Vec<_>>() {
			return Some(format!("map of {want:?}: {g:?}"));
		}
		let it: Vec<usize> = set.cloned().into_iter().map(|e| mark(&e)).collect();
		if it != want {
			return Some(format!("into_iter of {want:?}: {it:?}"));
		}
		for i in 0..=want.len() {
			if set.get(i).map(mark) != want.get(i).copied() {
				return Some(format!("get({i}) of {want:?}"));
			}
		}
	}
	None
}
fn mark_of(e: &BoxDynElement) -> usize {
	e.get_attribute("k").and_then(|v| v.to_string().parse().ok()).unwrap_or(9998)
}

#[derive(Clone, Debug)]
enum Do {
	Text(usize, &'static str),
	Html(usize, &'static str),
	Attr(usize, &'static str, Option<&'static str>),
	RmAttr(usize, &'static str),
	Replace(usize, usize),
	RemoveFrom(usize, usize),
}
fn act(d: &Do, all: &[El], single: bool) {
	let set = |i: usize| Vis::dom(&all[i]);
	match d {
		Do::Text(a, s) if single => all[*a].cloned().set_text(s),
		Do::Text(a, s) => {
			set(*a).set_text(s);
		}
		Do::Html(a, s) if single => all[*a].cloned().set_html(s),
		Do::Html(a, s) => {
			set(*a).set_html(s);
		}
		Do::Attr(a, n, v) if single => all[*a].cloned().set_attribute(n, *v),
		Do::Attr(a, n, v) => {
			set(*a).set_attr(n, *v);
		}
		Do::RmAttr(a, n) if single => all[*a].cloned().remove_attribute(n),
		Do::RmAttr(a, n) => {
			set(*a).remove_attr(n);
		}
		Do::Replace(a, b) if single => all[*a].cloned().replace_with(&all[*b]),
		Do::Replace(a, b) => {
			set(*a).replace_with(&mut set(*b));
		}
		// a child is removed, anything else is left alone
		Do::RemoveFrom(p, c) if single => all[*p].cloned().remove_child(all[*c].cloned()),
		Do::RemoveFrom(p, c) => {
			if all[*c].parent().map_or(false, |x| x.is(&all[*p])) {
				set(*c).remove();
			}
		}
	}
}
struct Side {
	root: Elements<'static>,
	all: Vec<El>,
	reports: Rc<Cell<usize>>,
}
fn side(html: &str) -> Side {
	let reports = Rc::new(Cell::new(0));
	let c = reports.clone();
	let root = Vis::load_catch(html.to_string(), Box::new(move |_| c.set(c.get() + 1)));
	let all = real_elements(&root.get(0).unwrap().cloned());
	Side { root, all, reports }
}
fn show(s: &Side) -> String {
	let out = RefCell::new(String::new());
	fn rec(n: BoxDynNode<'static>, o: &mut String) {
		o.push_str(&format!("({:?}{}{:?}", n.node_type(), n.index(), n.text()));
		if let Some(e) = n.typed().into_element() {
			o.push_str(&e.tag_name());
			for c in e.child_nodes() {
				rec(c, o);
			}
		}
		o.push(')');
	}
	rec(s.root.get(0).unwrap().clone_node(), &mut out.borrow_mut());
	for e in &s.all {
		rec(e.clone_node(), &mut out.borrow_mut());
		out.borrow_mut().push_str(&format!("[{}]", e.parent().map_or(9997, |p| mark_of(&p))));
	}
	format!("{} reports, {} {}", s.reports.get(), s.root.outer_html(), out.into_inner())
}

pub fn run(ctx: &mut Ctx) {
	let n = ctx.tier.pick(4, 5);
	let ds = docs(n);
	ctx.bound(format!("A: {} documents (all shapes of <= {n} elements x 3 fillings; doctype, void, content and control elements, comments and blanks at the top and inside): every element and the root: child nodes one by one, by range in both directions with every stop, types and identities, neighbours, texts, values and contents, against the model and against the set of that element", ds.len()));
	for t in &ds {
		let html = t.html();
		if !ctx.case(|| format!("html={html:?}")) {
			if !ctx.live() {
				return;
			}
			continue;
		}
		ctx.state(&html);
		let mut ids: Vec<(usize, usize)> = t.elements().into_iter().map(|i| (mk(t, i), i)).collect();
		ids.sort();
		let root = load(&html);
		let r0 = root.get(0).unwrap().cloned();
		let all = real_elements(&r0);
		ctx.stats.nonempty += 1;
		for x in 0..=all.len() {
			let (e, id) = if x == 0 { (r0.cloned(), 0) } else { (all[x - 1].cloned(), ids.iter().find(|p| p.0 == mark(&all[x - 1])).map(|p| p.1).unwrap_or(0)) };
			ctx.stats.transitions += 1;
			ctx.stats.traces += 1;
			ctx.expect(|| if x == 0 { "the root".to_string() } else { format!("element {}", mark(&e)) }, &None, || reads(t, id, &e, &all, &ids));
			if !ctx.live() {
				return;
			}
		}
		if all.len() <= 5 {
			ctx.stats.transitions += 1;
			ctx.expect(|| "visits".to_string(), &None, || visits(&all));
		}
		if !ctx.live() {
			return;
		}
	}
	let depth = 2;
	let ds = docs(ctx.tier.pick(3, 4));
	ctx.bound(format!("B: {} documents: all sequences of <= {depth} edits (text, html, attributes, replacement and removal for every pair of elements), each done by the element and by the set of that element: equal documents, equal handles, equal numbers of reports", ds.len()));
	for t in &ds {
		let html = t.html();
		let n = side(&html).all.len();
		let mut ops = vec![];
		for a in 0..n {
			for s in ["s", ""] {
				ops.push(Do::Text(a, s));
			}
			for s in ["<u>1</u>2", "", "<!--"] {
				ops.push(Do::Html(a, s));
			}
			ops.extend([Do::Attr(a, "id", Some("z")), Do::Attr(a, "w", None), Do::RmAttr(a, "class")]);
			for b in 0..n {
				ops.push(Do::Replace(a, b));
				ops.push(Do::RemoveFrom(a, b));
			}
		}
		for first in 0..ops.len() {
			if !ctx.case(|| format!("html={html:?} first {:?}", ops[first])) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			for second in std::iter::once(None).chain((0..ops.len()).map(Some)) {
				let seq: Vec<&Do> = std::iter::once(&ops[first]).chain(second.map(|i| &ops[i])).collect();
				ctx.state(&(&html, first));
				ctx.stats.transitions += seq.len() as u64;
				ctx.stats.traces += 1;
				ctx.stats.nonempty += 1;
				ctx.expect(|| format!("{seq:?}"), &None, || {
					let (x, y) = (side(&html), side(&html));
					for d in &seq {
						act(d, &x.all, true);
						act(d, &y.all, false);
					}
					let (a, b) = (show(&x), show(&y));
					(a != b).then(|| format!("by elements {a}, by sets {b}"))
				});
				if !ctx.live() {
					return;
				}
			}
		}
	}
}
