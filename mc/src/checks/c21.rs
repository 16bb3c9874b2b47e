//! C21: reading changes nothing, in any order.
use crate::engine::Ctx;
use crate::model::*;
use crate::mutate::*;
use visdom::types::{BoxDynElement, Elements, IDocumentTrait};

type Read = (String, Box<dyn Fn(&Env) -> String>);
pub struct Env {
	root: Elements<'static>,
	all: Vec<BoxDynElement<'static>>,
}
impl Env {
	fn set(&self) -> Elements<'static> {
		Elements::with_nodes(self.all.iter().map(|e| e.cloned()).collect())
	}
	fn one(&self, i: usize) -> Elements<'static> {
		Elements::with_nodes(self.all.get(i).map(|e| vec![e.cloned()]).unwrap_or_default())
	}
}
fn m(e: &Elements) -> String {
	format!("{:?}", marks(e))
}

fn reads() -> Vec<Read> {
	let mut v: Vec<Read> = vec![];
	for s in [
		"*", "p", "#x", ".c", "p b", "p > b", "b ~ p", "b + *", ":first-child", ":nth-child(2n+1)", ":nth-last-of-type(1)", ":not(p)", ":not(:nth-child(2))",
		":has(> b)", ":contains(t)", ":empty", "[id]", "[class~=c]", "p, .c", "p:has(b:not(.c)), #x", ":nth-child(x)", "p[", "> p", "",
	] {
		v.push((format!("find({s:?})"), Box::new(move |e: &Env| m(&e.root.find(s)))));
	}
	for s in ["p", "p > b", ":nth-child(2)", "#x, .c", ":not(.c)", "p["] {
		v.push((format!("filter({s:?})"), Box::new(move |e: &Env| m(&e.set().filter(s)))));
		v.push((format!("not({s:?})"), Box::new(move |e: &Env| m(&e.set().not(s)))));
		v.push((format!("is({s:?})"), Box::new(move |e: &Env| format!("{}{}", e.set().is(s), e.set().is_all(s)))));
		v.push((format!("has/closest({s:?})"), Box::new(move |e: &Env| m(&e.set().has(s)) + &m(&e.set().closest(s)))));
	}
	type Rel = (&'static str, fn(&Elements<'static>) -> Elements<'static>);
	let rels: [Rel; 20] = [
		("children", |e| e.children("")),
		("children p", |e| e.children("p")),
		("parent", |e| e.parent("")),
		("parents", |e| e.parents("")),
		("siblings", |e| e.siblings("")),
		("siblings p", |e| e.siblings("p")),
		("next", |e| e.next("")),
		("next_all", |e| e.next_all("b")),
		("prev", |e| e.prev("")),
		("prev_all", |e| e.prev_all("")),
		("next_until", |e| e.next_until("b", "", true)),
		("prev_until", |e| e.prev_until("#x", "p", false)),
		("parents_until", |e| e.parents_until("#x", "", true)),
		("slice", |e| e.slice(1..)),
		("eq/first/last", |e| e.eq(1).add(e.last()).add(e.first())),
		("add", |e| e.slice(1..).add(e.first())),
		("filter_in", |e| e.filter_in(&e.find("*"))),
		("has_in", |e| e.has_in(&e.find("b"))),
		("not_in", |e| e.not_in(&e.first())),
		("filter_by", |e| e.filter_by(|i, _| i % 2 == 0)),
	];
	for (n, f) in rels {
		v.push((n.to_string(), Box::new(move |e: &Env| m(&f(&e.set())) + &m(&f(&e.one(0))) + &m(&f(&e.one(1))))));
	}
	type Get = (&'static str, fn(&Elements<'static>) -> String);
	let gets: [Get; 12] = [
		("text", |e| e.text()),
		("html", |e| e.html()),
		("outer_html", |e| e.outer_html()),
		("htmls", |e| e.htmls() + &e.outer_htmls()),
		("val", |e| e.val().to_string()),
		("attr", |e| format!("{:?}{}{}", e.attr("id").map(|v| v.to_string()), e.has_attr("class"), e.has_class("c d"))),
		("get_attributes", |e| format!("{:?}", e.get_ref().iter().map(|x| x.get_attributes().len()).collect::<Vec<_>>())),
		("texts", |e| e.texts(0).get_ref().iter().map(|t| t.text() + "|").collect()),
		("texts filtered", |e| e.texts_by(2, Box::new(|d, t| d == 1 || t.text() != "t")).filter_by(|i, _| i > 0).length().to_string()),
		("clone", |e| {
			let c = e.clone();
			c.outer_html() + &m(&c.find("*"))
		}),
		("cloned", |e| {
			let mut c = e.cloned();
			let mut n = 0;
			c.each(|i, x| {
				n += i + x.child_nodes_length();
				true
			});
			format!("{n}{:?}", c.map(|_, x| x.tag_name()))
		}),
		("nodes", |e| format!("{:?}", e.get_ref().iter().map(|x| (x.index(), x.children().length(), x.next_element_siblings().length(), x.previous_element_siblings().length(), x.siblings().length())).collect::<Vec<_>>())),
	];
	for (n, f) in gets {
		v.push((n.to_string(), Box::new(move |e: &Env| f(&e.set()) + "/" + &f(&e.one(0)) + "/" + &f(&e.one(1)))));
	}
	let docs: [(&'static str, fn(&dyn IDocumentTrait) -> String); 4] = [
		("source_code", |d| d.source_code()),
		("get_element_by_id", |d| format!("{:?}", ["x", "y", "q"].map(|i| d.get_element_by_id(i).map(|e| mark(&e))))),
		("head body title", |d| format!("{:?}{:?}{:?}{:?}", d.head().map(|e| mark(&e)), d.body().map(|e| mark(&e)), d.title(), d.document_element().map(|e| mark(&e)))),
		("root", |d| d.get_root_node().text_content().len().to_string()),
	];
	for (n, f) in docs {
		v.push((n.to_string(), Box::new(move |e: &Env| f(&*e.root.document().unwrap()))));
	}
	v.push(("whole".into(), Box::new(|e: &Env| e.root.text() + &e.root.html() + &e.root.outer_htmls() + &e.root.val().to_string())));
	v.push(("load another".into(), Box::new(|_| m(&load("<p k=\"1\" id=\"x\">t</p><b k=\"2\">u</b>").find("#x, b")))));
	v.push(("load bad".into(), Box::new(|_| visdom::Vis::load("<p><!--").is_ok().to_string())));
	v
}

fn env(html: &str, next: usize, prep: &[Op]) -> Env {
	let mut r = R::new(html, next);
	for o in prep {
		r.apply(o);
	}
	let all = real_elements(&r.r0.cloned());
	Env { root: r.root, all }
}

// ---- family B: documents with every kind of node
const RAW: [&str; 14] = [
	"<!DOCTYPE html><html lang=en><head><title>  a &amp; b\n</title><meta charset=utf-8></head><body class=\" c  d \"> x <p id='x'>t</p> </body></html>",
	"<!doctype html>\n<html>\n<head>\n<title>\n</title>\n<script> if (a < b) { \"</p>\" } </script>\n<style> p > b { } </style>\n</head>\n<body>\n<p>\n</p>\n</body>\n</html>\n",
	"<html><head><title></title><title> second </title></head><body><title> third </title></body></html>",
	"<p> a <!-- c --> b <!----> </p><!--tail--> ",
	"<select><option> a </option><option selected value=' b '>c</option></select><select multiple><optgroup disabled><option selected>x<option selected disabled>y</select>",
	"<textarea>\n a\n b </textarea><input value='&quot;v&quot;' disabled><input type=checkbox checked=''><input type=RADIO CHECKED>",
	"<p class='c c  d' class=e ID=x id=y a b='' c=\"'\" d='\"' e=&lt;>t</p>",
	"<ul><li>1<li>2<li> <br/><br><img src=a></ul>",
	"<p>a &lt; b &amp;amp; c &nbsp; &#65; &#x42; &copy &unknown; &</p>",
	"<pre>\n  x\n</pre><p>\t</p>\r\n<p>\u{c}</p>",
	"<svg viewBox='0 0 1 1'><path D='m'/><g/></svg><P>Upper</P><b></B>",
	"text only &amp; no element",
	" \n ",
	"",
];
struct Raw {
	root: Elements<'static>,
	all: Elements<'static>,
}
fn raw(html: &str) -> Raw {
	let root = visdom::Vis::load_catch(html.to_string(), Box::new(|_| {}));
	let all = root.find("*");
	Raw { root, all }
}
fn node(n: visdom::types::BoxDynNode, out: &mut String) {
	use visdom::types::IEnumTyped;
	out.push_str(&format!("({:?} {} {:?}", n.node_type(), n.index(), n.text_chars().iter().collect::<String>()));
	if let IEnumTyped::Element(e) = n.typed() {
		let mut at: Vec<String> = e.get_attributes().iter().map(|(k, v)| format!("{k}={v:?}")).collect();
		at.sort();
		out.push_str(&format!(" {} {at:?}", e.tag_name()));
		for c in e.child_nodes() {
			node(c, out);
		}
	}
	out.push(')');
}
fn dump(r: &Raw) -> String {
	let mut s = r.root.document().map(|d| d.source_code()).unwrap_or_default();
	s.push_str(&r.root.outer_htmls());
	for e in r.root.get_ref() {
		node(e.clone_node(), &mut s);
	}
	s
}
type RawRead = (&'static str, fn(&Raw) -> String);
fn all_nodes(e: &Elements, f: &dyn Fn(&visdom::types::BoxDynNode) -> String) -> String {
	e.get_ref().iter().map(|x| x.child_nodes().iter().map(|n| f(n) + "|").collect::<String>() + "/").collect()
}
fn sh(e: &Elements<'static>) -> String {
	format!("{}{}", e.length(), e.outer_htmls())
}
fn one(e: Option<BoxDynElement>) -> String {
	format!("{:?}", e.map(|e| e.outer_html()))
}
const RAWREADS: [RawRead; 46] = [
	("document().title", |r| format!("{:?}", r.root.document().unwrap().title())),
	("document().head", |r| one(r.root.document().unwrap().head())),
	("document().body", |r| one(r.root.document().unwrap().body())),
	("document().document_element", |r| one(r.root.document().unwrap().document_element())),
	("document().source_code", |r| r.root.document().unwrap().source_code()),
	("document().get_element_by_id", |r| one(r.root.document().unwrap().get_element_by_id("x"))),
	("document().get_root_node", |r| r.root.document().unwrap().get_root_node().text_content()),
	("document of each", |r| r.all.map(|_, e| one(e.root_element())).concat()),
	("root text", |r| r.root.text()),
	("root html", |r| r.root.html()),
	("root outer_html", |r| r.root.outer_html()),
	("text", |r| r.all.text()),
	("text of each", |r| r.all.map(|_, e| e.text() + "|" + &e.text_content()).concat()),
	("text_chars of each", |r| r.all.map(|_, e| e.text_chars().iter().collect::<String>()).concat()),
	("html", |r| r.all.html() + &r.all.htmls()),
	("outer_html", |r| r.all.outer_html() + &r.all.outer_htmls()),
	("html of each", |r| r.all.map(|_, e| e.inner_html() + "|" + &e.outer_html()).concat()),
	("val", |r| r.all.val().to_string()),
	("val of each", |r| r.all.map(|_, e| e.value().to_string()).join("|")),
	("attributes", |r| r.all.map(|_, e| { let mut v: Vec<String> = e.get_attributes().iter().map(|(k, v)| format!("{k}={v:?}")).collect(); v.sort(); v.concat() }).join("|")),
	("attribute readers", |r| r.all.map(|_, e| ["id", "class", "value", "ID", "q"].map(|k| format!("{:?}{}{:?}", e.get_attribute(k).map(|v| (v.is_true(), v.is_str(""), v.to_list().concat())), e.has_attribute(k), e.tag_name())).concat()).join("|")),
	("attr", |r| ["id", "class", "value"].map(|k| format!("{:?}{}", r.all.attr(k).map(|v| v.to_string()), r.all.has_attr(k))).concat()),
	("has_class", |r| ["c", "c d", "", " ", "e"].map(|k| r.all.has_class(k).to_string()).concat()),
	("texts", |r| [0, 1, 2].map(|d| r.all.texts(d).get_ref().iter().map(|t| t.text() + "|").collect::<String>()).join("/")),
	("texts of the root", |r| r.root.texts(0).get_ref().iter().map(|t| t.text() + "|").collect()),
	("texts_by", |r| r.all.texts_by(0, Box::new(|d, t| d == 1 || !t.text().trim().is_empty())).length().to_string()),
	("texts_by_rec", |r| r.all.texts_by_rec(0, Box::new(|_, t| !t.text().is_empty()), Box::new(|e| e.tag_name() != "P")).length().to_string()),
	("copies of texts", |r| r.all.texts(0).filter_by(|i, t| i % 2 == 0 && !t.text_chars().is_empty()).get_ref().iter().map(|t| t.text() + "|").collect()),
	("clone", |r| { let c = r.all.clone(); c.outer_htmls() + &c.find("*").text() }),
	("clone of the root", |r| { let c = r.root.clone(); c.outer_htmls() + &c.find("*").text() }),
	("cloned", |r| { let mut c = r.all.cloned(); let mut s = String::new(); c.each(|i, e| { s.push_str(&format!("{i}{}", e.outer_html())); i < 3 }); s }),
	("copies of nodes", |r| all_nodes(&r.all, &|n| n.copy_node().text_content() + &n.clone_node().text())),
	("node readers", |r| all_nodes(&r.all, &|n| format!("{:?}{}{}{}{}", n.node_type(), n.index(), n.text(), n.parent().is_some(), n.owner_document().is_some()))),
	("nodes of the root", |r| all_nodes(&r.root, &|n| format!("{:?}{}{}", n.node_type(), n.index(), n.text_content()))),
	("elements of elements", |r| r.all.map(|_, e| format!("{}{}{}{}{}{}{}", e.index(), e.children().length(), e.child_nodes_length(), e.siblings().length(), e.next_element_siblings().length(), one(e.next_element_sibling()), one(e.previous_element_sibling()))).concat()),
	("children/parent", |r| sh(&r.all.children("")) + &sh(&r.all.parent("")) + &sh(&r.root.children(""))),
	("siblings", |r| sh(&r.all.siblings("")) + &sh(&r.all.next("")) + &sh(&r.all.prev_all("")) + &sh(&r.all.next_until("b", "", true))),
	("parents", |r| sh(&r.all.parents("")) + &sh(&r.all.closest("p, select")) + &sh(&r.all.parents_until("body", "", false))),
	("find tags", |r| ["title", "p", "option", "P", "script + style"].map(|s| sh(&r.root.find(s))).concat()),
	("find attributes", |r| ["#x", ".c", "[class~=c]", "[value]", "[a]", "[e='&lt;']"].map(|s| sh(&r.root.find(s))).concat()),
	("find structure", |r| [":empty", ":first-child", ":nth-last-child(2n+1)", ":only-of-type", ":root"].map(|s| sh(&r.root.find(s))).concat()),
	("find content", |r| [":contains(a)", ":contains(' ')", ":has(option)", ":not(:has(*))"].map(|s| sh(&r.root.find(s))).concat()),
	("find forms", |r| [":checked", "option:checked", "input:checked"].map(|s| sh(&r.root.find(s))).concat()),
	("find rejected", |r| ["p[", ":nth-child(x)", "> ", ",p"].map(|s| crate::engine::guard(|| sh(&r.root.find(s))).unwrap_or_default()).concat()),
	("filter", |r| sh(&r.all.filter(":checked, .c, :empty")) + &sh(&r.all.not(":has(*)")) + &sh(&r.all.has("option")) + &r.all.is(":root").to_string()),
	("sets", |r| sh(&r.all.filter_in(&r.root.find("p"))) + &sh(&r.all.not_in(&r.root.find("p"))) + &sh(&r.all.slice(1..3).add(r.all.first())) + &sh(&r.all.last().add(r.all.eq(1)))),
];

fn family_b(ctx: &mut Ctx) {
	let len = ctx.tier.pick(2, 3);
	ctx.bound(format!("B: {} documents with every kind of node (doctype, head and title with spaces, script, style, comments, entities, forms, void and self-closed tags, text alone, nothing): every ordered sequence of {len} of {} reads; answers and the whole node dump compared with untouched documents", RAW.len(), RAWREADS.len()));
	for html in RAW {
		let mut base: Option<(Vec<String>, String)> = None;
		for first in 0..RAWREADS.len() {
			if !ctx.case(|| format!("html={html:?} first read {}", RAWREADS[first].0)) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			if base.is_none() {
				let mut b = vec![];
				for (n, f) in RAWREADS {
					match crate::engine::guard(|| f(&raw(html))) {
						Ok(s) => b.push(s),
						Err(e) => {
							ctx.fail(n, &e);
							return;
						}
					}
				}
				base = Some((b, dump(&raw(html))));
			}
			let (answers, shape) = base.as_ref().unwrap();
			for rest in words(len - 1, RAWREADS.len()) {
				let seq: Vec<usize> = std::iter::once(first).chain(rest).collect();
				ctx.state(&(html, first));
				ctx.stats.transitions += seq.len() as u64;
				ctx.stats.traces += 1;
				ctx.stats.nonempty += 1;
				ctx.expect(|| format!("{:?}", seq.iter().map(|&i| RAWREADS[i].0).collect::<Vec<_>>()), &None, || {
					let r = raw(html);
					for &i in &seq {
						let got = (RAWREADS[i].1)(&r);
						if got != answers[i] {
							return Some(format!("{} gives {got:?}, on an untouched document {:?}", RAWREADS[i].0, answers[i]));
						}
					}
					let d = dump(&r);
					(d != *shape).then(|| format!("the document became {d}, it was {shape}"))
				});
				if !ctx.live() {
					return;
				}
			}
		}
	}
}

pub fn run(ctx: &mut Ctx) {
	family_b(ctx);
	if !ctx.live() {
		return;
	}
	let rs = reads();
	let docs = {
		let mut v = vec![];
		for k in 2..=3 {
			for s in forests(k) {
				v.push(build(&s, |i| (["p", "b", "p"][i % 3], [vec![("id", "x")], vec![("class", "c d")], vec![("id", "y"), ("class", "c")]][i % 3].clone()), Fill::Text));
			}
		}
		v
	};
	let preps: Vec<Vec<Op>> = vec![
		vec![],
		vec![Op::InsertFrag(vec![0], Pos::Append, 1)],
		vec![Op::SetHtml(vec![1], 5), Op::SetAttr(vec![0], "id", Some("y"))],
		vec![Op::Insert(vec![0], Pos::Before, vec![1]), Op::AddClass(vec![1], "z")],
		vec![Op::Replace(vec![1], vec![0])],
	];
	let len = ctx.tier.pick(2, 3);
	let pairs = 2;
	ctx.bound(format!("A: {} documents x {} preparations: every ordered pair of {} reads (queries, invalid queries, traversals, filters, getters, copies, document accessors, other loads), each answer compared with the same read on an untouched document, then source, tree and all answers again", docs.len(), preps.len(), rs.len()));
	for (di, t) in docs.iter().enumerate() {
		let html = t.html();
		let w0 = W::new(t.clone());
		for (pi, prep) in preps.iter().enumerate() {
			let mut w = w0.clone();
			for o in prep {
				w.apply(o);
			}
			let fresh = |r: &Read| crate::engine::guard(|| (r.1)(&env(&html, w0.next, prep)));
			let mut base: Option<Vec<String>> = None;
			for first in 0..rs.len() {
				if !ctx.case(|| format!("html={html:?} after {prep:?} first read {}", rs[first].0)) {
					if !ctx.live() {
						return;
					}
					continue;
				}
				// answers on untouched documents
				if base.is_none() {
					let b: Vec<Result<String, String>> = rs.iter().map(fresh).collect();
					if let Some((i, Err(e))) = b.iter().enumerate().find(|(_, x)| x.is_err()) {
						ctx.fail(&rs[i].0, e);
						return;
					}
					base = Some(b.into_iter().map(|x| x.unwrap()).collect());
				}
				let base = base.as_ref().unwrap();
				let want_src = w.t.html();
				// triples only on the smallest documents
				let l = if len == 3 && (di < 3 || pi == 0) { 3 } else { pairs };
				for rest in words(l - 1, rs.len()) {
					let seq: Vec<usize> = std::iter::once(first).chain(rest).collect();
					ctx.state(&want_src);
					ctx.stats.transitions += seq.len() as u64 - 1;
					ctx.stats.traces += 1;
					ctx.stats.nonempty += 1;
					ctx.expect(|| format!("{:?}", seq.iter().map(|&i| rs[i].0.as_str()).collect::<Vec<_>>()), &None, || {
						let e = env(&html, w0.next, prep);
						for &i in &seq {
							let got = (rs[i].1)(&e);
							if got != base[i] {
								return Some(format!("{} gives {got:?}, on an untouched document {:?}", rs[i].0, base[i]));
							}
						}
						let src = e.root.document().unwrap().source_code();
						if src != want_src {
							return Some(format!("source became {src:?}"));
						}
						diff_sub(&w.t, 0, &e.root.get(0).unwrap().cloned(), "document")
					});
					if !ctx.live() {
						return;
					}
				}
				// everything once, starting with `first`, then everything again
				ctx.expect(|| format!("all reads from {} on, twice", rs[first].0), &None, || {
					let e = env(&html, w0.next, prep);
					for k in 0..2 * rs.len() {
						let i = (first + k) % rs.len();
						let got = (rs[i].1)(&e);
						if got != base[i] {
							return Some(format!("{} gives {got:?}, on an untouched document {:?}", rs[i].0, base[i]));
						}
					}
					diff_sub(&w.t, 0, &e.root.get(0).unwrap().cloned(), "document")
				});
			}
		}
	}
}
