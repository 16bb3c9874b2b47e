//! C09: loading and serialising.
use crate::engine::Ctx;
use crate::model::*;
use std::cell::Cell;
use std::rc::Rc;
use visdom::html::ParseOptions;
use visdom::types::{BoxDynElement, Elements, IAttrValue, INodeType};
use visdom::Vis;

/// A node with its own spelling.
#[derive(Clone)]
enum N {
	/// open tag text, tag, attributes (lower-case name, value), children, closing tag text
	E(String, String, Vec<(String, Option<String>)>, Vec<N>, String),
	/// spelled, decoded
	T(String, String),
	C(String),
	Doctype(String),
}

fn raw(n: &N, o: &mut String) {
	match n {
		N::E(open, _, _, k, close) => {
			o.push_str(open);
			for x in k {
				raw(x, o);
			}
			o.push_str(close);
		}
		N::T(s, _) => o.push_str(s),
		N::C(s) => {
			o.push_str("<!--");
			o.push_str(s);
			o.push_str("-->");
		}
		N::Doctype(s) => o.push_str(s),
	}
}
fn raws(ns: &[N]) -> String {
	let mut s = String::new();
	for n in ns {
		raw(n, &mut s);
	}
	s
}
fn text(n: &N, o: &mut String) {
	match n {
		N::E(_, _, _, k, _) => k.iter().for_each(|x| text(x, o)),
		N::T(_, d) => o.push_str(d),
		_ => {}
	}
}
fn texts(ns: &[N]) -> String {
	let mut s = String::new();
	ns.iter().for_each(|n| text(n, &mut s));
	s
}

fn diff(ns: &[N], real: &BoxDynElement<'static>, path: &str) -> Option<String> {
	let kids = real.child_nodes();
	if kids.len() != ns.len() {
		return Some(format!("{path}: {} nodes expected, {} found", ns.len(), kids.len()));
	}
	for (i, (n, g)) in ns.iter().zip(kids).enumerate() {
		let p = format!("{path}/{i}");
		if g.index() != i {
			return Some(format!("{p}: index {}", g.index()));
		}
		match (n, g.node_type()) {
			(N::T(_, d), INodeType::Text) => {
				if &g.text_content() != d {
					return Some(format!("{p}: text {d:?} vs {:?}", g.text_content()));
				}
			}
			(N::C(s), INodeType::Comment) => {
				if &g.text_content() != s {
					return Some(format!("{p}: comment {s:?} vs {:?}", g.text_content()));
				}
			}
			(N::Doctype(_), INodeType::HTMLDOCTYPE) => {}
			(N::E(_, tag, attrs, k, _), INodeType::Element) => {
				let e = g.typed().into_element().unwrap();
				if &e.tag_name().to_ascii_lowercase() != tag {
					return Some(format!("{p}: tag {tag} vs {}", e.tag_name()));
				}
				let ga: Vec<(String, Option<String>)> = e
					.get_attributes()
					.into_iter()
					.map(|(n, v)| (n, match v { IAttrValue::True => None, IAttrValue::Value(v, _) => Some(v) }))
					.collect();
				if &ga != attrs {
					return Some(format!("{p}: attributes {attrs:?} vs {ga:?}"));
				}
				if CONTENT_TAGS.contains(&tag.as_str()) {
					if e.text() != texts(k) {
						return Some(format!("{p}: content {:?} vs {:?}", texts(k), e.text()));
					}
					if e.child_nodes_length() != 0 {
						return Some(format!("{p}: content tag has child nodes"));
					}
				} else if let Some(d) = diff(k, &e, &p) {
					return Some(d);
				}
			}
			(_, t) => return Some(format!("{p}: node type {t:?}")),
		}
	}
	None
}

fn flat<'n>(ns: &'n [N], out: &mut Vec<&'n N>) {
	for n in ns {
		if let N::E(_, _, _, k, _) = n {
			out.push(n);
			flat(k, out);
		}
	}
}

fn catch_load(html: &str, o: Option<ParseOptions>) -> (usize, Elements<'static>) {
	let c = Rc::new(Cell::new(0));
	let c2 = c.clone();
	let h: Box<dyn Fn(visdom::types::BoxDynError)> = Box::new(move |_| c2.set(c2.get() + 1));
	let e = match o {
		Some(o) => Vis::load_options_catch(html.to_string(), o, h),
		None => Vis::load_catch(html.to_string(), h),
	};
	(c.get(), e)
}

fn src(e: &Elements<'static>) -> String {
	e.document().map(|d| d.source_code()).unwrap_or_else(|| "<no document>".into())
}

fn doc(ctx: &mut Ctx, ns: &[N], well_formed_strict: bool) {
	let html = raws(ns);
	if !ctx.case(|| format!("html={html:?}")) {
		return;
	}
	ctx.state(&html);
	let mut root = None;
	if !ctx.expect(|| "load".into(), &true, || {
		let r = Vis::load(html.clone());
		let ok = r.is_ok();
		root = r.ok();
		ok
	}) {
		return;
	}
	let root = root.unwrap();
	if !ctx.expect(|| "one root".into(), &1, || root.length()) {
		return;
	}
	let r0 = root.get(0).unwrap().cloned();
	ctx.stats.traces += 1;
	if !(ctx.expect(|| "tree".into(), &None, || diff(ns, &r0, "")) && ctx.expect(|| "source_code".into(), &html, || src(&root))) {
		return;
	}
	if !html.is_empty() {
		ctx.stats.nonempty += 1;
	}
	// reload is stable
	if !ctx.expect(|| "reload".into(), &(None, html.clone()), || {
		let r = load(&src(&root));
		(diff(ns, &r.get(0).unwrap().cloned(), ""), src(&r))
	}) {
		return;
	}
	let mut fl = vec![];
	flat(ns, &mut fl);
	let all = real_elements(&r0);
	if !ctx.expect(|| "elements".into(), &fl.len(), || all.len()) {
		return;
	}
	let kids = |n: &N| match n {
		N::E(_, _, _, k, _) => raws(k),
		_ => String::new(),
	};
	for (i, n) in fl.iter().enumerate() {
		let e = &all[i];
		let outer = raws(std::slice::from_ref(*n));
		let inner = kids(n);
		let mut t = String::new();
		text(n, &mut t);
		let ok = ctx.expect(|| format!("[{i}].outer_html"), &outer, || e.outer_html())
			&& ctx.expect(|| format!("[{i}].inner_html"), &inner, || e.inner_html())
			&& ctx.expect(|| format!("[{i}].html"), &inner, || e.html())
			&& ctx.expect(|| format!("[{i}].text"), &t, || e.text())
			// an element's markup loads as that element
			&& ctx.expect(|| format!("[{i}] reload of outer_html"), &(None, outer.clone()), || {
				let r = load(&e.outer_html());
				(diff(std::slice::from_ref(*n), &r.get(0).unwrap().cloned(), ""), src(&r))
			});
		if !ok {
			return;
		}
	}
	if fl.len() <= 5 {
		for m in 0u64..1 << fl.len() {
			let s = subset(&all, m);
			let o: String = bits(m).map(|i| raws(std::slice::from_ref(fl[i]))).collect();
			let h: String = bits(m).map(|i| kids(fl[i])).collect();
			let mut t = String::new();
			bits(m).for_each(|i| text(fl[i], &mut t));
			let first = bits(m).next();
			let o1 = first.map(|i| raws(std::slice::from_ref(fl[i]))).unwrap_or_default();
			let h1 = first.map(|i| kids(fl[i])).unwrap_or_default();
			let sv = mask_vec(m);
			let ok = ctx.expect(|| format!("{sv:?}.outer_htmls"), &o, || s.outer_htmls())
				&& ctx.expect(|| format!("{sv:?}.htmls"), &h, || s.htmls())
				&& ctx.expect(|| format!("{sv:?}.outer_html"), &o1, || s.outer_html())
				&& ctx.expect(|| format!("{sv:?}.html"), &h1, || s.html())
				&& ctx.expect(|| format!("{sv:?}.text"), &t, || s.text());
			if !ok {
				return;
			}
		}
	}
	// and the set of the whole document
	if !ctx.expect(|| "html/htmls/outer_html/outer_htmls/text of the whole".into(), &(html.clone(), html.clone(), html.clone(), html.clone(), texts(ns)), || {
		(root.html(), root.htmls(), root.outer_html(), root.outer_htmls(), root.text())
	}) {
		return;
	}
	// the other loaders agree
	if !ctx.expect(|| "load_catch".into(), &(0, html.clone()), || {
		let (n, e) = catch_load(&html, None);
		(n, src(&e))
	}) {
		return;
	}
	if well_formed_strict {
		let ok = ctx.expect(|| "load_options(strict)".into(), &Some(html.clone()), || {
			Vis::load_options(html.clone(), ParseOptions::default()).ok().map(|e| src(&e))
		}) && ctx.expect(|| "load_options_catch(strict)".into(), &(0, html.clone()), || {
			let (n, e) = catch_load(&html, Some(ParseOptions::default()));
			(n, src(&e))
		});
		if !ok {
			return;
		}
	}
}

fn el(tag: &str, attrs: &[(&str, &str)], k: Vec<N>) -> N {
	let mut open = format!("<{tag}");
	for (n, v) in attrs {
		open.push_str(&format!(" {n}=\"{v}\""));
	}
	open.push('>');
	let close = if VOID_TAGS.contains(&tag) { String::new() } else { format!("</{tag}>") };
	N::E(open, tag.into(), attrs.iter().map(|(a, b)| (a.to_string(), Some(b.to_string()))).collect(), k, close)
}
fn t(s: &str, d: &str) -> N {
	N::T(s.into(), d.into())
}

fn shape_nodes(shape: &[usize], label: &dyn Fn(usize) -> (&'static str, Vec<(&'static str, &'static str)>), fill: Fill) -> Vec<N> {
	fn rec(p: usize, shape: &[usize], label: &dyn Fn(usize) -> (&'static str, Vec<(&'static str, &'static str)>), fill: Fill) -> Vec<N> {
		let mut v = vec![];
		for i in 0..shape.len() {
			if shape[i] == p {
				match fill {
					Fill::None => {}
					Fill::Text => v.push(t("x &amp; ", "x & ")),
					Fill::Mixed => {
						v.push(N::C(" c ".into()));
					}
				}
				let (g, a) = label(i);
				v.push(el(g, &a, rec(i, shape, label, fill)));
				if fill == Fill::Mixed {
					v.push(t("\n ", "\n "));
				}
			}
		}
		v
	}
	rec(usize::MAX, shape, label, fill)
}

pub fn run(ctx: &mut Ctx) {
	// A: structure
	let lb: [(&'static str, Vec<(&'static str, &'static str)>); 4] =
		[("a", vec![]), ("div", vec![("class", "x y")]), ("b", vec![("id", "i"), ("t", "1")]), ("p", vec![("t", "")])];
	let na = ctx.tier.pick(4, 5);
	ctx.bound(format!("A: all labelled trees of <= {na} elements over 4 labels x 3 interleavings of text/comments; every element and every subset serialised"));
	for n in 0..=na {
		for shape in forests(n) {
			for w in words(n, lb.len()) {
				for fill in [Fill::None, Fill::Text, Fill::Mixed] {
					let ns = shape_nodes(&shape, &|i| lb[w[i]].clone(), fill);
					doc(ctx, &ns, true);
					if !ctx.live() {
						return;
					}
				}
			}
		}
	}
	// B: attribute spellings
	let attrs: [(&str, &str, Option<&str>); 14] = [
		("a=\"x\"", "a", Some("x")),
		("b='y'", "b", Some("y")),
		("c=z", "c", Some("z")),
		("d", "d", None),
		("E=\"Q\"", "e", Some("Q")),
		("f=\"\"", "f", Some("")),
		("g=''", "g", Some("")),
		("h=\"a b\"", "h", Some("a b")),
		("i='a\"b'", "i", Some("a\"b")),
		("j=\"a'b\"", "j", Some("a'b")),
		("k=\"&amp;<>\"", "k", Some("&amp;<>")),
		("data-l=\"é\"", "data-l", Some("é")),
		("xml:m=\"1\"", "xml:m", Some("1")),
		("N", "n", None),
	];
	let nb = ctx.tier.pick(3, 4);
	ctx.bound(format!("B: all sequences of <= {nb} distinct attributes over {} spellings on a normal, a void and a content element", attrs.len()));
	for n in 0..=nb {
		for w in words(n, attrs.len()) {
			if (0..n).any(|i| (0..i).any(|j| w[i] == w[j])) {
				continue;
			}
			for (tag, close) in [("a", "</a>"), ("br", ""), ("textarea", "</textarea>"), ("SPAN", "</SPAN>")] {
				let mut open = format!("<{tag}");
				let mut m = vec![];
				for &i in &w {
					open.push(' ');
					open.push_str(attrs[i].0);
					m.push((attrs[i].1.to_string(), attrs[i].2.map(|s| s.to_string())));
				}
				open.push('>');
				let ns = [el("p", &[], vec![N::E(open, tag.to_ascii_lowercase(), m, vec![], close.into()), t("z", "z")])];
				doc(ctx, &ns, true);
				if !ctx.live() {
					return;
				}
			}
		}
	}
	// C: content sequences
	let items: Vec<N> = vec![
		t("a", "a"),
		t("&lt;b&gt;", "<b>"),
		t("é &#60;&#x3e;", "é <>"),
		t("&amp;amp; &quot;", "&amp; \""),
		t(" \n\t", " \n\t"),
		N::C("c".into()),
		N::C(" x <b> -".into()),
		el("s", &[], vec![]),
		el("s", &[], vec![t("q", "q"), el("br", &[], vec![])]),
		el("img", &[("alt", "x>y")], vec![]),
		el("title", &[], vec![t("T t", "T t")]),
		el("textarea", &[], vec![t(" \n t", " \n t")]),
		el("script", &[], vec![t("if(a<b && c>d){\"</p>\"}", "if(a<b && c>d){\"</p>\"}")]),
		el("style", &[], vec![t("a > b{}", "a > b{}")]),
		el("style", &[], vec![]),
	];
	let nc = ctx.tier.pick(3, 4);
	ctx.bound(format!("C: all sequences of <= {nc} over {} content items (entities, whitespace, comments, void and content tags) at top level and inside an element", items.len()));
	for n in 1..=nc {
		for w in words(n, items.len()) {
			let seq: Vec<N> = w.iter().map(|&i| items[i].clone()).collect();
			if seq.windows(2).any(|p| matches!((&p[0], &p[1]), (N::T(..), N::T(..)))) {
				continue;
			}
			doc(ctx, &[el("div", &[], seq.clone())], true);
			doc(ctx, &seq, true);
			if n <= 2 {
				doc(
					ctx,
					&[N::Doctype("<!DOCTYPE html>".into()), el("html", &[], vec![el("head", &[], vec![]), el("body", &[], seq)])],
					true,
				);
			}
			if !ctx.live() {
				return;
			}
		}
	}
	// characters of title and textarea are kept as written
	for tag in ["title", "textarea"] {
		doc(ctx, &[el(tag, &[], vec![t("a &lt; b", "a &lt; b")])], true);
		if !ctx.live() {
			return;
		}
	}
	repair(ctx);
	if ctx.live() {
		large(ctx);
	}
	if ctx.live() {
		letters(ctx);
	}
}

#[derive(Clone, Copy, Debug)]
enum Tok {
	Open(&'static str),
	Close(&'static str),
	/// as written, as kept, fine for the strict loader
	Text(&'static str, &'static str, bool),
	/// a tag that needs no closing
	Void(&'static str, &'static str, bool),
	/// a start tag the strict loader rejects
	Odd(&'static str, &'static str),
}

fn repair(ctx: &mut Ctx) {
	let toks = [
		Tok::Open("a"),
		Tok::Close("a"),
		Tok::Open("b"),
		Tok::Close("b"),
		Tok::Text("t", "t", true),
		Tok::Void("<br>", "<br>", true),
		Tok::Close("i"),
		Tok::Open("li"),
	];
	let max = ctx.tier.pick(5, 7);
	ctx.bound(format!("D: all sequences of <= {max} tag tokens over {} (balanced or not): repaired by default loading, reported by strict loading", toks.len()));
	repairs(ctx, &toks, max);
	if !ctx.live() {
		return;
	}
	let toks = [
		Tok::Open("a"),
		Tok::Close("a"),
		Tok::Close("b"),
		Tok::Text("t", "t", true),
		Tok::Text("1<2", "1&lt;2", false),
		Tok::Text("x< y", "x&lt; y", false),
		Tok::Text("<=&lt;", "&lt;=&lt;", false),
		Tok::Text("z<", "z&lt;", false),
		Tok::Void("<br/>", "<br />", true),
		Tok::Void("<s/>", "<s />", false),
		Tok::Void("<s q='1' />", "<s q='1' />", false),
		Tok::Odd("<b =x>", "b"),
		Tok::Void("<!--c-->", "<!--c-->", true),
	];
	let max = ctx.tier.pick(4, 5);
	ctx.bound(format!("E: all sequences of <= {max} tokens over {} with unescaped <, self-closing tags and attribute names starting with =", toks.len()));
	repairs(ctx, &toks, max);
}

fn repairs(ctx: &mut Ctx, toks: &[Tok], max: usize) {
	for n in 1..=max {
		for w in words(n, toks.len()) {
			let seq: Vec<Tok> = w.iter().map(|&i| toks[i]).collect();
			if seq.windows(2).any(|p| matches!((p[0], p[1]), (Tok::Text(..), Tok::Text(..)))) {
				continue;
			}
			// a `<` at the very end opens a tag that never comes
			if matches!(seq[n - 1], Tok::Text(s, ..) if s.ends_with('<')) {
				continue;
			}
			let mut html = String::new();
			let mut want = String::new();
			let mut keep = String::new();
			let mut open: Vec<&str> = vec![];
			let mut balanced = true;
			for k in &seq {
				match k {
					Tok::Open(g) => {
						html.push_str(&format!("<{g}>"));
						want.push_str(&format!("<{g}>"));
						keep.push_str(&format!("<{g}>"));
						open.push(g);
					}
					Tok::Odd(s, g) => {
						html.push_str(s);
						want.push_str(s);
						keep.push_str(s);
						open.push(g);
						balanced = false;
					}
					Tok::Void(s, o, ok) | Tok::Text(s, o, ok) => {
						html.push_str(s);
						want.push_str(o);
						keep.push_str(o);
						balanced &= ok;
					}
					Tok::Close(g) => {
						html.push_str(&format!("</{g}>"));
						if open.contains(g) {
							while let Some(x) = open.pop() {
								want.push_str(&format!("</{x}>"));
								if x == *g {
									break;
								}
								balanced = false;
							}
						} else {
							balanced = false;
						}
					}
				}
			}
			while let Some(x) = open.pop() {
				want.push_str(&format!("</{x}>"));
				balanced = false;
			}
			let strict_again = !seq.iter().any(|k| matches!(k, Tok::Odd(..) | Tok::Void(_, _, false)));
			repaired(ctx, &html, &keep, balanced.then_some(want), strict_again);
			if !ctx.live() {
				return;
			}
		}
	}
}

/// What the repair may not change: every start tag and text, in order (`keep`).
fn repaired(ctx: &mut Ctx, html: &str, keep: &str, balanced: Option<String>, strict_again: bool) {
	if !ctx.case(|| format!("html={html:?}")) {
		return;
	}
	ctx.state(&html);
	ctx.stats.traces += 1;
	ctx.stats.nonempty += balanced.is_none() as u64;
	let strip = |s: &str| {
		let mut o = String::new();
		let mut rest = s;
		while let Some(i) = rest.find("</") {
			o.push_str(&rest[..i]);
			rest = &rest[i..][rest[i..].find('>').map(|j| j + 1).unwrap_or(rest.len() - i)..];
		}
		o.push_str(rest);
		o
	};
	let mut got = String::new();
	let ok = ctx.expect(|| "load".into(), &Some(keep.to_string()), || {
		Vis::load(html.to_string()).ok().map(|e| {
			got = src(&e);
			strip(&got)
		})
	}) && balanced.iter().all(|want| ctx.expect(|| "load".into(), want, || got.clone()))
		&& ctx.expect(|| "reload".into(), &got, || src(&load(&got)))
		&& (!strict_again
			|| ctx.expect(|| "the repaired markup is balanced".into(), &Some(got.clone()), || {
				Vis::load_options(got.clone(), ParseOptions::default()).ok().map(|e| src(&e))
			})) && ctx.expect(|| "load_catch".into(), &(0, got.clone()), || {
		let (n, e) = catch_load(html, None);
		(n, src(&e))
	}) && ctx.expect(|| "load_options(strict)".into(), &balanced, || {
		Vis::load_options(html.to_string(), ParseOptions::default()).ok().map(|e| src(&e))
	}) && ctx.expect(|| "load_options_catch(strict)".into(), &(if balanced.is_some() { (0, 1) } else { (1, 0) }), || {
		let (n, e) = catch_load(html, Some(ParseOptions::default()));
		(n, e.length())
	});
	if ok && balanced.is_none() {
		ctx.expect(|| "the empty set after a failed load answers queries".into(), &(0, 0, String::new()), || {
			let (_, e) = catch_load(html, Some(ParseOptions::default()));
			(e.find("a").length(), e.children("").length(), e.text())
		});
	}
}

/// long and deep documents
fn large(ctx: &mut Ctx) {
	let sizes: Vec<usize> = ctx.tier.pick(vec![20, 70, 270], vec![20, 34, 70, 140, 270, 600]);
	ctx.bound(format!("large: lists, chains, combs and rows of {sizes:?} elements with text or comments; that many attributes, content items, characters of text, comment, attribute value, script; that many unclosed or unexpected tags"));
	for (_, shape) in crate::big::shapes(&sizes) {
		for fill in [Fill::None, Fill::Text, Fill::Mixed] {
			let ns = shape_nodes(&shape, &|i| (["a", "div", "b"][i % 3], if i % 4 == 1 { vec![("class", "x y")] } else { vec![] }), fill);
			doc(ctx, &ns, true);
			if !ctx.live() {
				return;
			}
		}
	}
	for &n in &sizes {
		let long = |s: &str| s.repeat(n).chars().take(n).collect::<String>();
		let mut docs: Vec<Vec<N>> = vec![];
		for (s, d) in [("a", "a"), ("&lt;", "<"), ("a &amp;b ", "a &b "), ("é", "é"), (" ", " "), ("&#x41;", "A")] {
			docs.push(vec![t(&s.repeat(n), &d.repeat(n))]);
			docs.push(vec![t(&s.repeat(n * 30), &d.repeat(n * 30)), el("p", &[("t", &s.repeat(n * 30))], vec![])]);
			docs.push(vec![el("p", &[], vec![t(&s.repeat(n), &d.repeat(n)), el("br", &[], vec![])])]);
		}
		for s in ["c", "- ", "<b>", "é"] {
			docs.push(vec![el("p", &[], vec![N::C(long(s)), t("x", "x")])]);
		}
		for tag in ["script", "style", "title", "textarea"] {
			docs.push(vec![el(tag, &[], vec![t(&long("a b;\n"), &long("a b;\n"))]), t("x", "x")]);
		}
		docs.push(vec![el("script", &[], vec![t(&"if(a<b){'</p>'}".repeat(n), &"if(a<b){'</p>'}".repeat(n))])]);
		for v in ["v", "a b", "é", "'", "&amp;", ">"] {
			let v = v.repeat(n);
			docs.push(vec![el("p", &[("t", &v), ("u", "1")], vec![t("x", "x")])]);
			docs.push(vec![el("img", &[("t", &v)], vec![]), t("x", "x")]);
		}
		let tag = format!("x{}", long("ab-"));
		docs.push(vec![el(&tag, &[], vec![el(&tag, &[], vec![t("x", "x")])])]);
		for style in 0..4 {
			let mut open = String::from("<p");
			let mut m = vec![];
			for i in 0..n {
				match (style + i * (style / 3)) % 4 {
					0 => open += &format!(" a{i}=\"v{i}\""),
					1 => open += &format!(" a{i}='v{i}'"),
					2 => open += &format!(" a{i}=v{i}"),
					_ => open += &format!(" a{i}"),
				}
				m.push((format!("a{i}"), ((style + i * (style / 3)) % 4 != 3).then(|| format!("v{i}"))));
			}
			open.push('>');
			docs.push(vec![N::E(open, "p".into(), m, vec![t("x", "x")], "</p>".into())]);
		}
		// content items
		let items: Vec<N> = vec![t("a&gt;", "a>"), N::C("c".into()), el("s", &[], vec![]), el("img", &[("alt", "x>y")], vec![]), el("textarea", &[], vec![t(" t", " t")]), el("script", &[], vec![t("a<b", "a<b")]), el("s", &[], vec![t("q", "q")])];
		for step in 1..items.len() {
			let mut v: Vec<N> = vec![];
			for i in 0..n {
				let x = items[(i * step) % items.len()].clone();
				if matches!((v.last(), &x), (Some(N::T(..)), N::T(..))) {
					continue;
				}
				v.push(x);
			}
			docs.push(v.clone());
			docs.push(vec![el("div", &[], v)]);
		}
		for ns in &docs {
			doc(ctx, ns, true);
			if !ctx.live() {
				return;
			}
		}
		// repairs
		for (html, keep) in [
			("<a>".repeat(n), "<a>".repeat(n)),
			("x</b>".repeat(n), "x".repeat(n)),
			("<a><b></a>".repeat(n), "<a><b>".repeat(n)),
			("<a>".repeat(n) + &"</a>".repeat(n / 2), "<a>".repeat(n)),
			("<a>".to_string() + &"<b>".repeat(n) + "</a>t", "<a>".to_string() + &"<b>".repeat(n) + "t"),
			("1<2 ".repeat(n), "1&lt;2 ".repeat(n)),
			("<a>1<2".repeat(n), "<a>1&lt;2".repeat(n)),
		] {
			repaired(ctx, &html, &keep, None, true);
			if !ctx.live() {
				return;
			}
		}
	}
}

/// every character in texts, values, comments and content elements
fn letters(ctx: &mut Ctx) {
	let cs = chars();
	ctx.bound(format!("F: {} characters (all of ASCII and {} others) alone, before, after and between letters in text, comments, attribute values (quoted and not), title, textarea, script and style", cs.len(), cs.len() - 128));
	for c in cs {
		for f in around(c) {
			let mut ns: Vec<Vec<N>> = vec![];
			if !matches!(c, '<' | '&') {
				ns.push(vec![t(&f, &f)]);
				ns.push(vec![el("p", &[], vec![t(&f, &f), el("b", &[], vec![]), t(&f, &f)]), t(&f, &f)]);
				ns.push(vec![el("pre", &[], vec![t(&f, &f)]), N::C("c".into()), t(&f, &f), el("br", &[], vec![])]);
				for tag in ["script", "style"] {
					ns.push(vec![el(tag, &[], vec![t(&f, &f)]), t("z", "z")]);
				}
				// encoded when printed
				if c != '>' {
					for tag in ["title", "textarea"] {
						ns.push(vec![el(tag, &[], vec![t(&f, &f)]), t("z", "z")]);
					}
				}
			}
			if !matches!(c, '-' | '>') {
				ns.push(vec![N::C(f.clone()), el("p", &[], vec![N::C(f.clone()), t("x", "x")])]);
			}
			let mut spell = vec![];
			for q in ["\"", "'"] {
				if !f.contains(q) {
					spell.push(format!("{q}{f}{q}"));
				}
			}
			if !c.is_whitespace() && !c.is_control() && !"\"'<>=`/".contains(c) {
				spell.push(f.clone());
			}
			for s in spell {
				for (tag, close) in [("p", "</p>"), ("input", ""), ("textarea", "</textarea>")] {
					let e = N::E(format!("<{tag} a={s} b=\"1\">"), tag.into(), vec![("a".into(), Some(f.clone())), ("b".into(), Some("1".into()))], vec![], close.into());
					ns.push(vec![e.clone(), t("z", "z")]);
					ns.push(vec![el("div", &[], vec![e])]);
				}
			}
			for n in ns {
				doc(ctx, &n, true);
				if !ctx.live() {
					return;
				}
			}
		}
	}
}
