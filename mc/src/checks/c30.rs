//! C30: every string is refused or gives a document that can be read, printed, edited and re-loaded.
use crate::engine::Ctx;
use crate::model::{chars, words};
use std::cell::Cell;
use std::rc::Rc;
use visdom::html::ParseOptions;
use visdom::types::{BoxDynElement, Elements, INodeType};
use visdom::Vis;

const TOKENS: [&str; 24] = [
	"<", "a", ">", "/", "\"", "'", "=", "!", "-", "--", "<!--", "-->", " ", "</", "<a>", "</a>", "<!DOCTYPE html>", "<br/>", "<script>", "</script>", "<textarea>", "<![CDATA[", "]]>", "&",
];
/// a second alphabet, of whole tags of every kind
const TAGS: [&str; 22] = [
	"<", "t", " ", "<p>", "</p>", "<b>", "</b>", "<br>", "<title>", "</title>", "<script>", "</script>", "<svg>", "</svg>", "<i/>", "<!--c-->", "<a b='", "'>", "</", "/>", "&amp;", "\n",
];

fn root(e: &Elements<'static>) -> Option<BoxDynElement<'static>> {
	e.get(0).and_then(|x| x.root_element())
}
fn src(e: &Elements<'static>) -> String {
	e.document().map(|d| d.source_code()).unwrap_or_default()
}

/// the tree below an element, walked node by node; neighbouring texts are one text.  Panics where the
/// links of the tree contradict each other.
fn shape(e: &BoxDynElement<'static>) -> String {
	let mut out = String::new();
	let mut text: Option<String> = None;
	let nodes = e.child_nodes();
	assert_eq!(nodes.len(), e.child_nodes_length(), "number of child nodes");
	let mut prev: Option<BoxDynElement<'static>> = None;
	for (i, n) in nodes.into_iter().enumerate() {
		assert_eq!(n.index(), i, "index of a child node");
		let whole = e.is_root_element();
		assert!(n.parent().map_or(whole, |p| p.is(e)), "parent of child node {i}: {:?}", n.parent().map(|p| p.outer_html()));
		match n.node_type() {
			INodeType::Text => text.get_or_insert_with(String::new).push_str(&n.text()),
			INodeType::Element => {
				if let Some(t) = text.take() {
					out += &format!("{t:?}");
				}
				let x = n.typed().into_element().unwrap();
				assert!(
					match (x.previous_element_sibling(), &prev) {
						(Some(a), Some(b)) => a.is(b),
						(None, None) => true,
						_ => false,
					},
					"previous sibling"
				);
				let mut names: Vec<String> = x.get_attributes().iter().filter(|a| !a.0.is_empty()).map(|a| format!(" {}={:?}", a.0, x.get_attribute(&a.0).map(|v| v.to_string()))).collect();
				names.sort();
				names.dedup();
				out += &format!("<{}{}>{}</>", x.tag_name(), names.concat(), shape(&x));
				if matches!(x.tag_name().as_str(), "SCRIPT" | "STYLE" | "TITLE" | "TEXTAREA") {
					out += &format!("{:?}", x.text());
				}
				prev = Some(x);
			}
			_ => {
				if let Some(t) = text.take() {
					out += &format!("{t:?}");
				}
				out += "<!>";
			}
		}
	}
	if let Some(t) = text.take() {
		out += &format!("{t:?}");
	}
	out
}

/// all that can be asked of a loaded document
fn reads(e: &Elements<'static>) -> Vec<String> {
	let all = e.find("*");
	vec![
		root(e).map(|r| shape(&r)).unwrap_or_default(),
		e.text(),
		all.map(|_, x| format!("{:?}", x.text())).join(" "),
		all.length().to_string(),
		e.find("a").length().to_string(),
		e.find(":empty, a > *, a ~ *, [a]").length().to_string(),
		e.texts(0).length().to_string(),
		e.children("").length().to_string(),
		all.last().parents("").length().to_string(),
	]
}
/// and all that is printed
fn prints(e: &Elements<'static>) -> Vec<String> {
	let all = e.find("*");
	vec![src(e), e.html(), e.outer_html(), e.outer_htmls(), e.htmls(), all.outer_htmls(), all.map(|_, x| x.inner_html()).join("|"), all.map(|_, x| x.copied().outer_html()).join("|")]
}

const EDITS: [&str; 11] = ["texts", "siblings", "append", "set_attr", "add_class", "set_text", "set_html", "remove", "move", "before", "copy"];
fn edit(e: &Elements<'static>, what: &str) -> (String, String) {
	let mut all = e.find("*");
	let mut last = all.last();
	let mut frag = Vis::load("<u>n</u>").unwrap().children("");
	match what {
		"texts" => {
			e.texts(0).remove();
		}
		"siblings" => {
			// what stands beside the elements goes with their parents' content
			e.children("").set_text("x");
		}
		"append" => {
			last.append(&mut frag);
		}
		"before" => {
			frag.insert_before(&mut last);
		}
		"set_attr" => {
			last.set_attr("a", Some("v"));
		}
		"add_class" => {
			last.add_class("c");
		}
		"set_text" => {
			last.set_text("x<");
		}
		"set_html" => {
			all.set_html("<s>y");
		}
		"remove" => {
			last.remove();
		}
		"move" => {
			last.prepend_to(&mut all.first());
		}
		_ => {
			let mut c = Elements::with_nodes(all.first().get(0).map(|x| x.copied()).into_iter().collect());
			last.append(&mut c);
		}
	}
	(root(e).map(|r| shape(&r)).unwrap_or_default(), src(e))
}

/// load the string in every way
fn loads(ctx: &mut Ctx, s: &str) -> Option<Option<Elements<'static>>> {
	let mut res = None;
	if !ctx.expect(|| "load and load_catch".into(), &true, || {
		let r = Vis::load(s.to_string());
		let n = Rc::new(Cell::new(0));
		let m = n.clone();
		let c = Vis::load_catch(s.to_string(), Box::new(move |_| m.set(m.get() + 1)));
		let same = match &r {
			Ok(e) => n.get() == 0 && src(e) == src(&c) && e.length() == 1 && c.length() == 1,
			Err(_) => n.get() == 1 && c.is_empty(),
		};
		res = Some(r.ok());
		same
	}) {
		return None;
	}
	res
}

/// one string: load, read, print, re-load, set as html, edit
fn one(ctx: &mut Ctx, s: &str, edits: bool) -> bool {
	ctx.stats.traces += 1;
	let e = match loads(ctx, s) {
		None => return ctx.live(),
		Some(e) => e,
	};
	// set as html the string is the same nodes, or is reported and changes nothing
	let mut loaded = None;
	if !ctx.expect(|| "structure".into(), &true, || {
		loaded = e.as_ref().map(|e| (shape(&root(e).unwrap()), src(e)));
		true
	}) {
		return false;
	}
	let want = match &loaded {
		Some((sh, so)) => (0, sh.clone(), format!("<p><q>{so}</q></p>")),
		None => (1, "\"old\"".to_string(), "<p><q>old</q></p>".to_string()),
	};
	if !ctx.expect(|| "set_html".into(), &want, || {
		let n = Rc::new(Cell::new(0));
		let m = n.clone();
		let e = Vis::load_catch("<p><q>old</q></p>", Box::new(move |_| m.set(m.get() + 1)));
		let mut q = e.find("q");
		q.set_html(s);
		let q = q.get(0).unwrap().cloned();
		(n.get(), shape(&q), src(&e))
	}) {
		return false;
	}
	let Some(e) = e else { return true };
	let (_, source) = loaded.unwrap();
	ctx.state(&source);
	ctx.stats.nonempty += 1;
	let mut first = vec![];
	if !ctx.expect(|| "read and print twice".into(), &true, || {
		let p = prints(&e);
		first = reads(&e);
		p == prints(&e) && first == reads(&e)
	}) {
		return false;
	}
	// (a name that begins with `=` and follows another attribute is printed as that one's value)
	let mut odd = false;
	e.find("*").each(|_, x| {
		odd |= x.get_attributes().iter().skip(1).any(|a| a.0.starts_with('='));
		true
	});
	if odd {
		return true;
	}
	// what is printed loads to the same document, and is printed the same from then on
	let mut again = None;
	if !ctx.expect(|| format!("re-load {source:?}"), &first, || {
		let e = Vis::load(source.clone()).expect("the printed document loads");
		let v = reads(&e);
		again = Some(src(&e));
		v
	}) {
		return false;
	}
	let again = again.unwrap();
	if !ctx.expect(|| format!("re-load {again:?}"), &again, || src(&Vis::load(again.clone()).expect("the printed document loads"))) {
		return false;
	}
	// and the edits do the same to both
	if edits {
		for what in EDITS {
			let mut want = Default::default();
			if !ctx.expect(|| format!("{what} on the re-loaded document"), &true, || {
				want = edit(&Vis::load(source.clone()).unwrap(), what);
				true
			}) {
				return false;
			}
			if !ctx.expect(|| format!("{what}"), &want.0, || edit(&Vis::load(s.to_string()).unwrap(), what).0) {
				return false;
			}
			// (an unfinished attribute leaves a space in the first print)
			if source == again {
				continue;
			}
			if !ctx.expect(|| format!("{what} on the document re-loaded twice"), &want.0, || edit(&Vis::load(again.clone()).unwrap(), what).0) {
				return false;
			}
		}
	}
	true
}

/// the whole view of a document for comparing two spellings of it
fn whole(s: &str) -> Vec<String> {
	let e = Vis::load(s.to_string()).expect("loads");
	let mut v = prints(&e);
	v.extend(reads(&e));
	for what in EDITS {
		let (shape, source) = edit(&Vis::load(s.to_string()).unwrap(), what);
		v.push(shape);
		v.push(source);
	}
	v
}

pub fn run(ctx: &mut Ctx) {
	let max = ctx.tier.pick(4, 5);
	let edits_max = max;
	for alphabet in [&TOKENS[..], &TAGS[..]] {
		ctx.bound(format!("all strings of <= {max} tokens over {} (edits: <= {edits_max}): load, load_catch, set_html, all readings, printing, re-loading, {} edits", alphabet.len(), EDITS.len()));
		for n in 0..=max {
			for w in words(n, alphabet.len()) {
				let mut s = String::new();
				if !ctx.case(|| {
					s = w.iter().map(|&i| alphabet[i]).collect();
					format!("{s:?}")
				}) {
					if !ctx.live() {
						return;
					}
					continue;
				}
				if !one(ctx, &s, n <= edits_max) {
					return;
				}
			}
		}
	}
	// under all options: what loads with fewer repairs loads with more, and is the same
	let opt_max = ctx.tier.pick(3, 4);
	ctx.bound(format!("all strings of <= {opt_max} tokens x 64 parse options"));
	for n in 0..=opt_max {
		for w in words(n, TOKENS.len()) {
			let s: String = w.iter().map(|&i| TOKENS[i]).collect();
			if !ctx.case(|| format!("options, {s:?}")) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			// (known: without that repair the parser panics on markup that ends in a tag name)
			let cut = s.match_indices("<a").any(|(i, _)| !s[i..].contains(['>', '/', ' ']));
			let mut got: Vec<Option<String>> = vec![];
			for f in 0..64u32 {
				if cut && f & super::c29::UNCLOSED == 0 {
					got.push(None);
					continue;
				}
				let mut now = None;
				if !ctx.expect(|| format!("options {f:06b}"), &true, || {
					now = Vis::load_options(s.clone(), super::c29::options(f)).ok().map(|e| format!("{} {}", src(&e), shape(&root(&e).unwrap())));
					true
				}) {
					return;
				}
				let less = (0..6).filter(|b| f >> b & 1 > 0).map(|b| f & !(1 << b));
				for l in less {
					let (l, m) = if (f ^ l) == super::c29::CASE { (&now, &got[l as usize]) } else { (&got[l as usize], &now) };
					if l.is_some() && l != m {
						ctx.fail(&format!("options {f:06b}"), &format!("with fewer repairs {l:?}, with more {m:?}"));
						return;
					}
				}
				got.push(now);
			}
			ctx.stats.traces += 64;
		}
	}
	// every character, at every place of the markup
	let all = chars();
	ctx.bound(format!("{} characters at every place of markup, twice, cut off behind them or not", all.len()));
	const HOLES: [(&str, &str); 15] = [
		("", "<a>t</a>"), ("", "t"), ("<a>t</a>", ""),
		("<", ">t</a>"), ("<a", ">t</a>"), ("<a ", ">t</a>"), ("<a b", "=c>t</a>"), ("<a b", " d>t</a>"), ("<a b=", ">t</a>"), ("<a b='", "'>t</a>"), ("<a b='x'", ">t</a>"), ("<a>", "</a>"), ("<a></a", ">t"), ("<!--", "-->"), ("&", ";"),
	];
	for (h, (l, r)) in HOLES.iter().enumerate() {
		for &c in &all {
			if !ctx.case(|| format!("hole {h}, character {c:?}")) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			for k in 1..=2 {
				let cs: String = std::iter::repeat(c).take(k).collect();
				for end in [r, ""] {
					let s = format!("{l}{cs}{end}");
					if !one(ctx, &s, true) {
						return;
					}
				}
			}
		}
	}
	// markup that ends in a tag name: the same as with that tag written out
	const BEFORE: [&str; 10] = ["", "t", "<p>", "<p>t", "</p>", "<br>", "<!--c-->", "<div a='1'>", "<title>x</title>", " \n"];
	let mut names: Vec<(String, bool)> = ["a", "p", "P", "x-y", "a'", "xünï", "b:c", "title", "script", "STYLE", "textarea", "svg", "h1"].iter().map(|s| (s.to_string(), false)).collect();
	names.extend(["br", "BR", "img", "input", "hr"].iter().map(|s| (s.to_string(), true)));
	for c in &all {
		if !c.is_ascii() || c.is_ascii_alphanumeric() {
			names.push((format!("x{c}"), false));
			names.push((format!("x{c}y"), false));
		}
	}
	let depth = ctx.tier.pick(2, 3);
	ctx.bound(format!("all sequences of <= {depth} of {} pieces followed by `<` and one of {} tag names", BEFORE.len(), names.len()));
	for n in 0..=depth {
		for w in words(n, BEFORE.len()) {
			let p: String = w.iter().map(|&i| BEFORE[i]).collect();
			for (name, void) in &names {
				if n == depth && name.len() > 8 {
					continue;
				}
				let s = format!("{p}<{name}");
				if !ctx.case(|| format!("{s:?}")) {
					if !ctx.live() {
						return;
					}
					continue;
				}
				let written = if *void { format!("{p}<{name}>") } else { format!("{p}<{name}></{name}>") };
				ctx.stats.traces += 1;
				let Ok(want) = crate::engine::guard(|| whole(&written)) else {
					ctx.fail("written out", "does not load");
					return;
				};
				if !ctx.expect(|| format!("the same as {written:?}"), &want, || whole(&s)) || !one(ctx, &s, false) {
					return;
				}
			}
		}
	}
	// known to fail inside of the parser
	for (s, strict) in [("<!doctype html/>x", false), ("<a", true)] {
		if !ctx.case(|| format!("{s:?} strict={strict}")) {
			continue;
		}
		ctx.expect(
			|| "loads or is refused".into(),
			&true,
			|| {
				let r = if strict { Vis::load_options(s, ParseOptions::default()) } else { Vis::load(s) };
				r.map_or(true, |e| src(&e).len() > 0)
			},
		);
	}
}
