//! C23: the same bounded exploration, compiled against the library in one of its feature sets.
//! Every case (document x member set x sequence of operations) yields one line per section of the API that the
//! configuration has: its name and a digest of everything observed.  The driver compares the lines of every configuration
//! with those of the full configuration.
//! usage: mc23 <quick|thorough> <shard> <nshards> | mc23 show <quick|thorough> <case>
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use visdom::types::*;
use visdom::Vis;

thread_local! {
	static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn name(e: &BoxDynElement) -> String {
	format!("{}{}", e.tag_name(), e.get_attribute("k").map(|v| v.to_string()).unwrap_or_default())
}
fn set(e: &Elements) -> String {
	e.get_ref().iter().map(name).collect::<Vec<_>>().join(" ")
}
fn maybe(e: &Option<BoxDynElement>) -> String {
	e.as_ref().map(name).unwrap_or("-".into())
}
fn av(v: Option<IAttrValue>) -> String {
	match v {
		None => "none".into(),
		Some(v) => format!("{:?} {} {:?} {}", v.to_string(), v.is_true(), v.to_list(), v.is_str("x")),
	}
}
fn val(v: IFormValue) -> String {
	match v {
		IFormValue::Single(s) => format!("S{s:?}"),
		IFormValue::Multiple(v) => format!("M{v:?}"),
	}
}

/// sections a case is divided into; a section is produced only by the configurations that have its API
struct Out {
	sections: Vec<(&'static str, Vec<String>)>,
	steps: u64,
}
impl Out {
	fn new() -> Self {
		Out { sections: vec![], steps: 0 }
	}
	fn open(&mut self, s: &'static str) {
		self.sections.push((s, vec![]));
	}
	fn add(&mut self, what: impl FnOnce() -> String, f: impl FnOnce() -> String) {
		self.steps += 1;
		let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| format!("panic {}", PANIC.with(|p| p.borrow().clone())));
		self.sections.last_mut().unwrap().1.push(format!("{} = {r}", what()));
	}
}

const SELS: &[&str] = &[
	"", "*", "p", "P", ".x", "#i", "#j", "[t]", "[t='1']", "[t!=1]", "[t^=1]", "[class~=y]", "[t|=1]", "[t*='1']", "[t$='1']", "p > b", "p b", "b + p", "b ~ *", "> p", "+ *", "~ *", "p, b", "b, p, .x", ":first-child", ":last-child",
	":only-child", ":nth-child(2n+1)", ":nth-last-child(2)", ":nth-of-type(odd)", ":nth-last-of-type(1)", ":first-of-type", ":last-of-type", ":only-of-type", ":empty", ":not(.x)", ":has(b)", ":has(> *)", ":contains('t')", ":contains(&)",
	":root", ":header", ":parent", ":input", ":submit", ":checked", ":selected", ":disabled", ":enabled", "p:not(:first-child) > .x", "p p b", ":not(p, .x)", "p[", "::", ":nth-child(x)", ")", "a,,b", "[", ".", ":unknown",
];

fn watch(html: &str) -> (Elements<'static>, Rc<RefCell<Vec<String>>>) {
	let log = Rc::new(RefCell::new(vec![]));
	let l = log.clone();
	(Vis::load_catch(html.to_string(), Box::new(move |e| l.borrow_mut().push(e.to_string()))), log)
}

/// everything that the API common to all configurations tells about a document and a set of its elements
fn look(d: &Elements<'static>) -> String {
	let mut o = String::new();
	if let Some(doc) = d.document() {
		let _ = write!(o, "{:?} title {:?} head {} body {} de {} i {} j {} root {}", doc.source_code(), doc.title(), maybe(&doc.head()), maybe(&doc.body()), maybe(&doc.document_element()), maybe(&doc.get_element_by_id("i")), maybe(&doc.get_element_by_id("j")), doc.get_root_node().text_content().len());
	}
	let all = d.find("*");
	let _ = write!(o, " | {} | {:?} {:?} {:?} {:?} {:?}", set(&all), all.text(), all.html(), all.htmls(), all.outer_html(), all.outer_htmls());
	for e in all.get_ref() {
		let _ = write!(
			o,
			"\n{} par {} idx {} nxt {} prv {} ch {} n {} txt {:?} {:?} in {:?} out {:?} val {} attrs {:?} root {} od {}",
			name(e),
			maybe(&e.parent()),
			e.index(),
			maybe(&e.next_element_sibling()),
			maybe(&e.previous_element_sibling()),
			set(&e.children()),
			e.child_nodes_length(),
			e.text_content(),
			e.text_chars().len(),
			e.inner_html(),
			e.outer_html(),
			val(e.value()),
			e.get_attributes().into_iter().map(|(n, v)| format!("{n}:{}", av(Some(v)))).collect::<Vec<_>>(),
			maybe(&e.root_element()),
			e.owner_document().is_some()
		);
		for n in e.child_nodes() {
			let _ = write!(o, " ({:?} {} {:?} {})", n.node_type() as u8, n.index(), n.text_content(), maybe(&n.parent()));
		}
	}
	o
}

fn pick(d: &Elements<'static>, m: u64) -> Elements<'static> {
	let all = d.find("[k]");
	let v: Vec<BoxDynElement<'static>> = all.get_ref().iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, e)| e.cloned()).collect();
	Elements::with_nodes(v)
}

type Edit = (&'static str, fn(&mut Elements<'static>));
/// edits of the API that every configuration has
const EDITS: &[Edit] = &[
	("set_attr", |s| {
		s.set_attr("id", Some("j"));
	}),
	("set_attr T", |s| {
		s.set_attr("T", Some("a\"b"));
	}),
	("set_attr none", |s| {
		s.set_attr("new", None);
	}),
	("remove_attr", |s| {
		s.remove_attr("class").remove_attr("t");
	}),
	("add_class", |s| {
		s.add_class("x z");
	}),
	("remove_class", |s| {
		s.remove_class("x");
	}),
	("toggle_class", |s| {
		s.toggle_class("x y");
	}),
	("set_text", |s| {
		s.set_text("a < b & c");
	}),
	("set_text empty", |s| {
		s.set_text("");
	}),
	("set_html", |s| {
		s.set_html("<u k='8' class='x'>h &amp;</u>t<!--c-->");
	}),
	("set_html broken", |s| {
		s.set_html("<u");
	}),
	("set_html empty", |s| {
		s.set_html("");
	}),
	("text node set_text", |s| {
		s.for_each(|_, e| {
			for n in e.child_nodes() {
				if let IEnumTyped::Text(mut t) = n.typed() {
					t.set_text("T & <");
				}
			}
			true
		});
	}),
	("text node set_html", |s| {
		s.for_each(|_, e| {
			for n in e.child_nodes() {
				if let IEnumTyped::Text(mut t) = n.typed() {
					t.set_html("<s k='9'>r</s>q");
				}
			}
			true
		});
	}),
	("into_text", |s| {
		s.for_each(|_, e| {
			if let Ok(mut t) = e.cloned().into_text() {
				t.set_text("raw");
			}
			true
		});
	}),
];

#[cfg(any(feature = "insertion", feature = "destroy"))]
const REMOVALS: &[Edit] = &[
	("remove", |s| s.cloned().remove()),
	("empty", |s| {
		s.empty();
	}),
	("remove_child", |s| {
		s.for_each(|_, e| {
			if let Some(c) = e.children().get(0) {
				let c = c.cloned();
				e.remove_child(c);
			}
			true
		});
	}),
	("remove_child of another", |s| {
		s.for_each(|_, e| {
			let r = e.root_element();
			if let Some(c) = r.as_ref().and_then(|r| r.children().get(0).map(|c| c.cloned())) {
				e.remove_child(c);
			}
			true
		});
	}),
];
#[cfg(not(any(feature = "insertion", feature = "destroy")))]
const REMOVALS: &[Edit] = &[];

#[cfg(feature = "insertion")]
fn frag() -> Elements<'static> {
	Vis::load("<u k='8' class='x'>f</u>g<!--c--><b k='9' id='j'></b>").unwrap()
}
#[cfg(feature = "insertion")]
fn firsts(s: &Elements<'static>) -> Elements<'static> {
	let d = s.get(0).and_then(|e| e.root_element());
	match d {
		Some(d) => Vis::dom(&d).children("").first(),
		None => Elements::new(),
	}
}
#[cfg(feature = "insertion")]
const INSERTS: &[Edit] = &[
	("append", |s| {
		s.append(&mut frag());
	}),
	("prepend", |s| {
		s.prepend(&mut frag());
	}),
	("before", |s| {
		s.before(&mut frag());
	}),
	("after", |s| {
		s.after(&mut frag());
	}),
	("append_to", |s| {
		let mut f = firsts(s);
		s.append_to(&mut f);
	}),
	("prepend_to", |s| {
		let mut f = firsts(s);
		s.prepend_to(&mut f);
	}),
	("insert_before", |s| {
		let mut f = firsts(s);
		s.insert_before(&mut f);
	}),
	("insert_after", |s| {
		let mut f = firsts(s);
		s.insert_after(&mut f);
	}),
	("replace_with", |s| {
		s.replace_with(&mut frag());
	}),
	("element replace_with", |s| {
		s.for_each(|_, e| {
			if let Some(f) = frag().find("u").get(0) {
				e.replace_with(f);
			}
			true
		});
	}),
];
#[cfg(not(feature = "insertion"))]
const INSERTS: &[Edit] = &[];

#[cfg(feature = "text")]
const TEXTS: &[Edit] = &[
	("texts append_text", |s| {
		s.texts(0).for_each(|_, t| {
			t.append_text("+<");
			true
		});
	}),
	("texts prepend_text", |s| {
		s.texts(1).for_each(|_, t| {
			t.prepend_text("-&");
			true
		});
	}),
	("texts remove", |s| s.texts(0).remove()),
	("texts set_text", |s| {
		s.texts(2).each(|_, t| {
			t.set_text("w");
			true
		});
	}),
	("one text removed", |s| {
		let t = s.texts_by(0, Box::new(|i, _| i == 0));
		t.remove();
	}),
];
#[cfg(not(feature = "text"))]
const TEXTS: &[Edit] = &[];

#[cfg(feature = "text")]
fn texts_of(s: &Elements<'static>) -> String {
	let mut o = String::new();
	for depth in 0..4 {
		let t = s.texts(depth);
		let _ = write!(o, "{depth}: {} {:?} ", t.length(), t.get_ref().iter().map(|x| x.text()).collect::<Vec<_>>());
	}
	let t = s.texts_by_rec(0, Box::new(|_, x| x.text().len() > 1), Box::new(|e| e.tag_name() != "B"));
	let _ = write!(o, "rec {:?}", t.get_ref().iter().map(|x| x.text()).collect::<Vec<_>>());
	let t = s.texts(0).filter_by(|i, _| i % 2 == 0);
	let _ = write!(o, "by {:?}", t.get_ref().iter().map(|x| x.text()).collect::<Vec<_>>());
	o
}

fn reads(o: &mut Out, html: &str, n: usize) {
	let (d, log) = watch(html);
	o.add(|| "look".into(), || look(&d));
	for sel in SELS {
		o.add(|| format!("find {sel:?}"), || set(&d.find(sel)));
	}
	for m in 0..1u64 << n {
		let s = pick(&d, m);
		for sel in SELS {
			o.add(
				|| format!("{m:b} {sel:?}"),
				|| {
					format!(
						"{};{};{};{};{};{};{};{};{};{};{};{};{};{};{}",
						set(&s.find(sel)),
						set(&s.filter(sel)),
						set(&s.not(sel)),
						set(&s.has(sel)),
						s.is(sel),
						s.is_all(sel),
						set(&s.children(sel)),
						set(&s.parent(sel)),
						set(&s.parents(sel)),
						set(&s.next(sel)),
						set(&s.next_all(sel)),
						set(&s.prev(sel)),
						set(&s.prev_all(sel)),
						set(&s.siblings(sel)),
						set(&s.closest(sel))
					)
				},
			);
		}
		for u in ["p", ".x", "#i", "b > *"] {
			for f in ["", "p", ".x"] {
				for c in [false, true] {
					o.add(|| format!("{m:b} until {u:?} {f:?} {c}"), || format!("{};{};{}", set(&s.next_until(u, f, c)), set(&s.prev_until(u, f, c)), set(&s.parents_until(u, f, c))));
				}
			}
		}
		for m2 in 0..1u64 << n {
			let t = pick(&d, m2);
			o.add(
				|| format!("{m:b} {m2:b}"),
				|| format!("{};{};{};{};{};{}", set(&s.add(t.cloned())), set(&s.filter_in(&t)), set(&s.not_in(&t)), set(&s.has_in(&t)), s.is_in(&t), s.is_all_in(&t)),
			);
		}
		o.add(
			|| format!("{m:b} itself"),
			|| {
				format!(
					"{} {} {} {} {} {} {} {:?} {:?} {:?} {:?} {:?} {} {} {:?} {}",
					s.length(),
					s.is_empty(),
					set(&s.first()),
					set(&s.last()),
					set(&s.eq(1)),
					set(&s.slice(1..)),
					set(&s.slice(..2)),
					s.text(),
					s.html(),
					s.htmls(),
					s.outer_html(),
					s.outer_htmls(),
					val(s.val()),
					av(s.attr("class")),
					["x", "y x", "q"].map(|c| s.has_class(c)),
					s.get_ref().iter().map(|e| { let c = e.copied(); format!("{:?} {} {}", c.outer_html(), maybe(&c.parent()), set(&c.children())) }).collect::<String>()
				)
			},
		);
	}
	let l = log.borrow().clone();
	o.add(|| "reported".into(), || format!("{l:?}"));
}

fn edited(o: &mut Out, html: &str, m: u64, seq: &[&Edit]) {
	o.add(
		|| format!("{m:b} {:?}", seq.iter().map(|e| e.0).collect::<Vec<_>>()),
		|| {
			let (d, log) = watch(html);
			let mut s = pick(&d, m);
			for e in seq {
				(e.1)(&mut s);
			}
			let kept: String = s.get_ref().iter().map(|e| format!("{:?} {} ", e.outer_html(), maybe(&e.parent()))).collect();
			let l = log.borrow().clone();
			format!("{} | {kept} | {l:?} | {}", look(&d), set(&d.find("p > b, .x, #j, :first-child")))
		},
	);
}

fn case(html: &str, n: usize, depth: usize) -> Out {
	let mut o = Out::new();
	o.open("query");
	reads(&mut o, html, n);
	let sections: [(&'static str, &'static [Edit]); 4] = [("edit", EDITS), ("removal", REMOVALS), ("insertion", INSERTS), ("text", TEXTS)];
	for (i, (sec, ops)) in sections.iter().enumerate() {
		if ops.is_empty() {
			continue;
		}
		o.open(sec);
		for m in 1..1u64 << n {
			for e in *ops {
				edited(&mut o, html, m, &[e]);
				if depth > 1 {
					for f in EDITS.iter().chain(*ops).take(if i == 0 { EDITS.len() } else { 99 }) {
						edited(&mut o, html, m, &[e, f]);
						edited(&mut o, html, m, &[f, e]);
					}
				}
			}
		}
	}
	#[cfg(feature = "text")]
	{
		o.open("text reads");
		let (d, _) = watch(html);
		o.add(|| "all".into(), || texts_of(&d));
		for m in 1..1u64 << n {
			o.add(|| format!("{m:b}"), || texts_of(&pick(&d, m)));
		}
	}
	o
}

const LABELS: &[&str] = &["<p@>", "<b class=\"x\"@>", "<p class='x y' t=1@>", "<b id=\"i\"@>", "<h1 t@>"];

fn documents(thorough: bool) -> Vec<(String, usize, usize)> {
	let mut v: Vec<(String, usize, usize)> = vec![];
	fn render(shape: &[usize], word: &[usize], parent: usize, fill: &str, o: &mut String) {
		for (i, &p) in shape.iter().enumerate() {
			if p == parent {
				o.push_str(fill);
				let open = LABELS[word[i]].replace('@', &format!(" k=\"{i}\""));
				o.push_str(&open);
				render(shape, word, i, fill, o);
				let tag: String = open[1..].chars().take_while(|c| c.is_alphanumeric()).collect();
				let _ = write!(o, "</{tag}>");
			}
		}
	}
	fn forests(n: usize) -> Vec<Vec<usize>> {
		fn rec(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
			if cur.len() == n {
				out.push(cur.clone());
				return;
			}
			let mut a = cur.len().wrapping_sub(1);
			let mut c = vec![usize::MAX];
			while a != usize::MAX {
				c.push(a);
				a = cur[a];
			}
			for p in c {
				cur.push(p);
				rec(n, cur, out);
				cur.pop();
			}
		}
		let mut out = vec![];
		rec(n, &mut vec![], &mut out);
		out
	}
	let top = if thorough { 4 } else { 3 };
	for n in 0..=top {
		for shape in forests(n) {
			let total = LABELS.len().pow(n as u32);
			for w in 0..total {
				let word: Vec<usize> = (0..n).map(|i| w / LABELS.len().pow(i as u32) % LABELS.len()).collect();
				if n == 3 && w % 2 != 0 && !thorough || n == 4 && w % 7 != 0 {
					continue;
				}
				let mut s = String::new();
				render(&shape, &word, usize::MAX, ["", "t ", "<!--c-->"][w % 3], &mut s);
				v.push((s, n, if n <= 2 || thorough && n == 3 && w % 5 == 0 { 2 } else { 1 }));
			}
		}
	}
	for (s, n) in [
		("<!doctype html><html k='0'><head k='1'><title k='2'>a &amp; b</title></head><body k='3'><p>x</p></body></html>", 4),
		("<select k='0' multiple><option k='1' selected value='1'>a</option><optgroup k='2' disabled><option k='3'>b</option></optgroup></select>", 4),
		("<input k='0' type='checkbox' checked value='v'><input k='1' type=submit disabled><textarea k='2'> a<b>c</textarea><button k='3'>x</button>", 4),
		("<script k='0'>if(a<b){}</script><style k='1'>p>b{}</style><br k='2'><img k='3' alt=\"'\">", 4),
		("<ul k='0'><li k='1'>1</li><li k='2'>2</li><li k='3'>3</li></ul>tail &lt;", 4),
		("<p k='0'>a<p k='1'>unclosed", 2),
		("</p><b k='0'>x", 1),
		("a < b <i k='0'/>", 1),
		("<p k='0' class='x\ty' class=\"z\" T='&quot;'>&nbsp;&#65;</p>", 1),
	] {
		v.push((s.to_string(), n, if n <= 2 || thorough { 2 } else { 1 }));
	}
	v
}

fn main() {
	std::panic::set_hook(Box::new(|i| {
		let s = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
		PANIC.with(|p| *p.borrow_mut() = s);
	}));
	let a: Vec<String> = std::env::args().collect();
	let out = std::io::stdout();
	let mut out = out.lock();
	if a[1] == "show" {
		let d = documents(a[2] == "thorough");
		let (h, n, k) = &d[a[3].parse::<usize>().unwrap()];
		let _ = writeln!(out, "document {h:?}");
		for (s, l) in case(h, *n, *k).sections {
			for x in l {
				let _ = writeln!(out, "{s}: {}", x.replace('\n', " / "));
			}
		}
		return;
	}
	let (shard, shards): (usize, usize) = (a[2].parse().unwrap(), a[3].parse().unwrap());
	for (i, (h, n, k)) in documents(a[1] == "thorough").iter().enumerate() {
		if i % shards != shard {
			continue;
		}
		let r = case(h, *n, *k);
		for (s, l) in &r.sections {
			let mut x = DefaultHasher::new();
			l.hash(&mut x);
			let _ = writeln!(out, "{i} {} {:016x} {}", s.replace(' ', "-"), x.finish(), l.len());
		}
	}
	let _ = writeln!(out, "end");
}
