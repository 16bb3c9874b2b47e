//! C15: text and html setters and getters.
use crate::engine::Ctx;
use crate::model::*;
use crate::mutate::*;
use std::cell::Cell;
use std::rc::Rc;
use visdom::types::{BoxDynElement, Elements, INodeType};
use visdom::Vis;

/// (prefix, tag, initial content, suffix); the target carries k="1"
fn hosts(tags: &[&'static str], inits: &[&'static str]) -> Vec<(String, &'static str, String, String)> {
	let mut v = vec![];
	for &(pre, suf) in &[("", ""), ("<div k=\"0\">a", "b</div>"), ("x<i k=\"0\"></i>", "<i k=\"3\"></i>y")] {
		for tag in tags {
			for init in inits {
				if CONTENT_TAGS.contains(tag) && init.contains('<') {
					continue;
				}
				v.push((pre.to_string(), *tag, init.to_string(), suf.to_string()));
			}
		}
	}
	v
}

fn target(root: &Elements<'static>) -> BoxDynElement<'static> {
	real_elements(&root.get(0).unwrap().cloned()).into_iter().find(|e| mark(e) == 1).expect("harness: target")
}

/// what the tree under an element looks like
fn shape(e: &BoxDynElement<'static>) -> Vec<String> {
	let mut v = vec![];
	for (i, n) in e.child_nodes().into_iter().enumerate() {
		if n.index() != i {
			v.push(format!("wrong index {}", n.index()));
		}
		match n.node_type() {
			INodeType::Text => v.push(format!("T{:?}", n.text_content())),
			INodeType::Comment => v.push(format!("C{:?}", n.text_content())),
			INodeType::Element => {
				let c = n.typed().into_element().unwrap();
				v.push(format!("E{:?}", c.outer_html()));
				v.extend(shape(&c));
			}
			t => v.push(format!("{t:?}")),
		}
	}
	v
}

type TextView = (String, usize, usize, Vec<String>, bool, bool, String);
/// everything observable after set_text
fn text_view(root: &Elements<'static>, t: &BoxDynElement<'static>, h: &(String, &'static str, String, String), s: &str) -> TextView {
	let src = root.document().unwrap().source_code();
	let open = format!("{}<{} k=\"1\">", h.0, h.1);
	let close = format!("</{}>{}", h.1, h.3);
	let around = src.starts_with(&open) && src.ends_with(&close);
	let one = Elements::with_nodes(vec![t.cloned()]);
	let all = real_elements(&root.get(0).unwrap().cloned()).len();
	let again = if CONTENT_TAGS.contains(&h.1) && s.contains("</") {
		s.to_string()
	} else {
		let r2 = load(&src);
		if real_elements(&r2.get(0).unwrap().cloned()).len() != all {
			"(re-loaded to other elements)".to_string()
		} else {
			target(&r2).text()
		}
	};
	(one.text(), one.children("").length(), t.children().length(), shape(t), around, one.text() == t.text_content(), again)
}

fn set_texts(ctx: &mut Ctx, alphabet: &[&'static str], len: usize, hs: &[(String, &'static str, String, String)]) {
	for h in hs {
		let html = format!("{}<{} k=\"1\">{}</{}>{}", h.0, h.1, h.2, h.1, h.3);
		for l in 0..=len {
			for first in 0..if l == 0 { 1 } else { alphabet.len() } {
				if !ctx.case(|| format!("html={html:?} texts of length {l} starting with {:?}", if l == 0 { "" } else { alphabet[first] })) {
					if !ctx.live() {
						return;
					}
					continue;
				}
				for rest in words(if l == 0 { 0 } else { l - 1 }, alphabet.len()) {
					let mut s = String::new();
					if l > 0 {
						s.push_str(alphabet[first]);
					}
					for i in rest {
						s.push_str(alphabet[i]);
					}
					let raw = CONTENT_TAGS.contains(&h.1);
					let nodes = if s.is_empty() || raw { vec![] } else { vec![format!("T{s:?}")] };
					let want: TextView = (s.clone(), 0, 0, nodes, true, true, s.clone());
					ctx.state(&("text", h, &s));
					ctx.stats.traces += 1;
					if s.contains(['<', '&']) {
						ctx.stats.nonempty += 1;
					}
					for route in 0..2 {
						ctx.expect(|| format!("set_text({s:?}) route {route}"), &want, || {
							let root = load(&html);
							let mut t = target(&root);
							if route == 0 {
								Elements::with_nodes(vec![t.cloned()]).set_text(&s);
							} else {
								t.set_text(&s);
							}
							text_view(&root, &t, h, &s)
						});
					}
					if !ctx.live() {
						return;
					}
				}
			}
		}
	}
}

/// all strings as html: as loading the same string
fn set_htmls(ctx: &mut Ctx, alphabet: &[&'static str], len: usize, hs: &[(String, &'static str, String, String)]) {
	for h in hs {
		let html = format!("{}<{} k=\"1\">{}</{}>{}", h.0, h.1, h.2, h.1, h.3);
		for l in 0..=len {
			for first in 0..if l == 0 { 1 } else { alphabet.len() } {
				if !ctx.case(|| format!("html={html:?} markup of length {l} starting with {:?}", if l == 0 { "" } else { alphabet[first] })) {
					if !ctx.live() {
						return;
					}
					continue;
				}
				for rest in words(if l == 0 { 0 } else { l - 1 }, alphabet.len()) {
					let mut s = String::new();
					if l > 0 {
						s.push_str(alphabet[first]);
					}
					for i in rest {
						s.push_str(alphabet[i]);
					}
					// markup that does not load leaves everything as it was and is reported
					let fresh = crate::engine::guard(|| Vis::load(s.clone()).map(|f| (f.document().unwrap().source_code(), shape(f.get(0).unwrap()))).ok());
					let (inner, nodes, errors) = match fresh {
						// a doctype closed by `/>` is too much for the parser crate (known, C30)
						Err(_) if s.to_lowercase().contains("<!doctype") => continue,
						Err(e) => {
							ctx.fail(&format!("load {s:?}"), &e);
							return;
						}
						Ok(Some((src, nodes))) => (src, nodes, 0),
						Ok(None) => {
							let r = load(&html);
							(h.2.clone(), shape(&target(&r)), 1)
						}
					};
					let want = (format!("{}<{} k=\"1\">{}</{}>{}", h.0, h.1, inner, h.1, h.3), nodes, errors, true);
					ctx.state(&("html", h, &s));
					ctx.stats.traces += 1;
					if errors == 0 && want.1.iter().any(|n| n.starts_with('E')) {
						ctx.stats.nonempty += 1;
					}
					ctx.expect(|| format!("set_html({s:?})"), &want, || {
						let c = Rc::new(Cell::new(0));
						let root = counting(&html, &c);
						let t = target(&root);
						let mut one = Elements::with_nodes(vec![t.cloned()]);
						one.set_html(&s);
						let src = root.document().unwrap().source_code();
						(src, shape(&t), c.get(), one.html() == t.inner_html())
					});
					if !ctx.live() {
						return;
					}
				}
			}
		}
	}
}

/// well-formed fragments: known children, html() and text()
fn fragments(ctx: &mut Ctx, len: usize, hs: &[(String, &'static str, String, String)]) {
	// (markup, text)
	let pieces: [(&str, &str); 11] = [
		("t", "t"),
		("&lt;", "<"),
		("&amp;lt;", "&lt;"),
		(" ", " "),
		("<b k=\"5\">x</b>", "x"),
		("<br k=\"6\">", ""),
		("<!--d-->", ""),
		("<i k=\"7\">y<u k=\"8\">&gt;</u> </i>", "y> "),
		("<p k=\"9\"></p>", ""),
		("<img k=\"4\" src='a\"b'>", ""),
		("&#x41;&eacute;", "A\u{e9}"),
	];
	for h in hs {
		let html = format!("{}<{} k=\"1\">{}</{}>{}", h.0, h.1, h.2, h.1, h.3);
		for l in 0..=len {
			if !ctx.case(|| format!("html={html:?} fragments of {l} pieces")) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			for w in words(l, pieces.len()) {
				let s: String = w.iter().map(|&i| pieces[i].0).collect();
				let txt: String = w.iter().map(|&i| pieces[i].1).collect();
				let want = (s.clone(), txt.clone(), format!("{}<{} k=\"1\">{}</{}>{}", h.0, h.1, s, h.1, h.3), format!("<{} k=\"1\">{}</{}>", h.1, s, h.1));
				ctx.state(&("fragment", h, &s));
				ctx.stats.traces += 1;
				ctx.stats.nonempty += (l > 1) as u64;
				ctx.expect(|| format!("set_html({s:?})"), &want, || {
					let root = load(&html);
					let t = target(&root);
					let mut one = Elements::with_nodes(vec![t]);
					one.set_html(&s);
					let src = root.document().unwrap().source_code();
					(one.html(), one.text(), src, one.outer_html())
				});
				// and as one step in a sequence: set_text then set_html then set_text
				ctx.expect(|| format!("set_text, set_html({s:?}), set_text"), &(s.clone(), "q<".to_string(), 0), || {
					let root = load(&html);
					let t = target(&root);
					let mut one = Elements::with_nodes(vec![t.cloned()]);
					one.set_text("<z>");
					one.set_html(&s);
					let a = one.html();
					one.set_text("q<");
					(a, one.text(), t.children().length())
				});
				if !ctx.live() {
					return;
				}
			}
		}
	}
}

fn texts_of_all(w: &W, r: &R) -> Option<String> {
	if let Some(d) = check_structure(w, r) {
		return Some(d);
	}
	let whole = (w.t.text_of(0), w.t.html());
	let got = (r.root.text(), r.root.html());
	if got != whole {
		return Some(format!("text and html of the whole are {got:?}, expected {whole:?}"));
	}
	for (m, &id) in &w.by_mark {
		let (want, h) = (w.t.text_of(id), &r.by_mark[m]);
		if h.text() != want {
			return Some(format!("text of {m} is {:?}, expected {want:?}", h.text()));
		}
		let all = r.set(&[*m]);
		if all.text() != want {
			return Some(format!("text of the set of {m} is {:?}, expected {want:?}", all.text()));
		}
	}
	None
}

pub fn run(ctx: &mut Ctx) {
	let inits = ["", "t", "<b k=\"2\">t</b>u", "<!--c--> ", "&lt;<br k=\"2\">"];
	let n = ctx.tier.pick(4, 5);
	let a1 = ["<", ">", "&", ";", "a", "\"", "'", " ", "lt", "#60", "\u{e9}", "</"];
	ctx.bound(format!("A: set_text with every sequence of <= {n} tokens of {a1:?} on p, textarea, title, script, style elements in 3 contexts with {} initial contents, two call routes", inits.len()));
	set_texts(ctx, &a1, ctx.tier.pick(3, 4), &hosts(&["p", "textarea", "title", "script", "style"], &inits));
	if !ctx.live() {
		return;
	}
	set_texts(ctx, &a1, n, &hosts(&["p"], &["<b k=\"2\">t</b>u"]));
	if !ctx.live() {
		return;
	}
	let a2 = ["&lt;", "&amp;", "&nbsp;", "&#38;", "<b>", "</p>", "<!--", "-->", "\n", "\u{a0}", "\u{1f600}", "\t", "<br/>", "&", "x", "\u{0}"];
	let n = ctx.tier.pick(4, 5);
	ctx.bound(format!("B: set_text with every sequence of <= {n} tokens of {a2:?} on a p"));
	set_texts(ctx, &a2, n, &hosts(&["p"], &["t"]));
	if !ctx.live() {
		return;
	}
	let a3 = ["<b>", "</b>", "<", ">", "a", "</", "<!--", "-->", "&lt;", "<br>", " ", "<i x='", "'"];
	let n = ctx.tier.pick(4, 5);
	ctx.bound(format!("C: set_html with every sequence of <= {n} tokens of {a3:?}, judged by loading the same string; strings that do not load must change nothing and be reported"));
	set_htmls(ctx, &a3, n, &hosts(&["p"], &["", "<b k=\"2\">t</b>u"]));
	if !ctx.live() {
		return;
	}
	let n = ctx.tier.pick(4, 5);
	ctx.bound(format!("D: set_html with every sequence of <= {n} of 11 well-formed pieces: html(), text(), source and outer_html, alone and inside setter sequences"));
	fragments(ctx, n, &hosts(&["p"], &inits));
	if !ctx.live() {
		return;
	}
	let st = starts(3, &[Fill::Text]);
	let depth = ctx.tier.pick(3, 4);
	ctx.bound(format!("E: {} documents: all histories of length <= {depth} of set_text/set_html/empty on every element (members of <= 3 elements), text() of every element", st.len()));
	for t in &st {
		explore(
			ctx,
			t,
			&|w, d| {
				let mut ms: Vec<usize> = w.by_mark.keys().copied().filter(|&m| m < 4).collect();
				ms.sort();
				let mut v = vec![];
				for &m in &ms {
					for s in ["", "<&>", " "] {
						v.push(Op::SetText(vec![m], s));
					}
					for f in [1, 2, 3, 4] {
						v.push(Op::SetHtml(vec![m], f));
					}
					v.push(Op::Empty(vec![m]));
				}
				if d == 0 {
					v.push(Op::SetText(ms.clone(), "all"));
					v.push(Op::SetHtml(ms.clone(), 5));
				}
				v
			},
			depth,
			&texts_of_all,
		);
		if !ctx.live() {
			return;
		}
	}
	// void elements ignore both
	ctx.bound("F: void elements ignore set_text and set_html".to_string());
	for tag in VOID_TAGS {
		if !ctx.case(|| format!("void {tag}")) {
			if !ctx.live() {
				return;
			}
			continue;
		}
		let html = format!("<div k=\"0\"><{tag} k=\"1\">t</div>");
		ctx.state(&html);
		for s in ["", "x", "<b>y</b>", "&"] {
			for m in 0..2 {
				ctx.expect(|| format!("{} {s:?}", ["set_text", "set_html"][m]), &(html.clone(), String::new(), String::new()), || {
					let root = load(&html);
					let mut one = Elements::with_nodes(vec![target(&root)]);
					if m == 0 {
						one.set_text(s);
					} else {
						one.set_html(s);
					}
					let src = root.document().unwrap().source_code();
					(src, one.text(), one.html())
				});
			}
		}
	}
	if ctx.live() {
		large(ctx);
	}
	if ctx.live() {
		single_nodes(ctx);
	}
	if ctx.live() {
		letters(ctx);
	}
}

/// long strings, many nodes
fn large(ctx: &mut Ctx) {
	let sizes: Vec<usize> = ctx.tier.pick(vec![20, 70, 270], vec![20, 34, 70, 140, 270, 1100]);
	ctx.bound(format!("G: set_text with strings of {sizes:?} (and 30 times as many) repetitions of 12 pieces; set_html with that many pieces in every rotation of two or more kinds, and that deep"));
	let hs: Vec<_> = hosts(&["p", "title", "textarea"], &["", "t", "<b k=\"2\">t</b>u"]);
	for &n in &sizes {
		for h in &hs {
			let html = format!("{}<{} k=\"1\">{}</{}>{}", h.0, h.1, h.2, h.1, h.3);
			if !ctx.case(|| format!("html={html:?} large {n}")) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			for piece in ["a", "<", "&", "&amp;", "a<b>", " ", "\u{e9}", "\u{1f600}", "</", "\n", "x &lt; ", "\""] {
				if h.1 != "p" && piece.contains('<') {
					continue;
				}
				for n in [n, n * 30] {
				let s = piece.repeat(n);
				let nodes = if CONTENT_TAGS.contains(&h.1) { vec![] } else { vec![format!("T{s:?}")] };
				let want: TextView = (s.clone(), 0, 0, nodes, true, true, s.clone());
				ctx.state(&("text", h, &s));
				ctx.stats.traces += 1;
				ctx.stats.nonempty += 1;
				ctx.expect(|| format!("set_text({n} x {piece:?})"), &want, || {
					let root = load(&html);
					let t = target(&root);
					Elements::with_nodes(vec![t.cloned()]).set_text(&s);
					text_view(&root, &t, h, &s)
				});
				if !ctx.live() {
					return;
				}
				}
			}
			if h.1 != "p" {
				continue;
			}
			let pieces: [(&str, &str); 8] = [("t", "t"), ("<b>x</b>", "x"), ("&lt;", "<"), ("<br>", ""), ("<!--d-->", ""), ("<i>y<u>&gt;</u> </i>", "y> "), ("<p></p>", ""), ("<textarea>q</textarea>", "q")];
			let mut seqs: Vec<Vec<usize>> = vec![];
			for a in 0..pieces.len() {
				for b in 0..pieces.len() {
					seqs.push((0..n).map(|i| if i % 2 == 0 { a } else { b }).collect());
					seqs.push((0..n).map(|i| if i == n / 2 || i == n - 1 { b } else { a }).collect());
				}
				seqs.push((0..n).map(|i| (a + i) % pieces.len()).collect());
			}
			let mut cases: Vec<(String, String)> = seqs.iter().map(|w| (w.iter().map(|&i| pieces[i].0).collect(), w.iter().map(|&i| pieces[i].1).collect())).collect();
			cases.push(("<s>".repeat(n) + "z" + &"</s>".repeat(n), "z".into()));
			cases.push(("<s>a<q>".repeat(n) + "z" + &"</q>b</s>".repeat(n), "a".repeat(n) + "z" + &"b".repeat(n)));
			for (s, txt) in cases {
				let want = (s.clone(), txt, format!("{}<{} k=\"1\">{}</{}>{}", h.0, h.1, s, h.1, h.3), None);
				ctx.state(&("html", h, &s));
				ctx.stats.traces += 1;
				ctx.stats.nonempty += 1;
				ctx.expect(|| format!("set_html({s:?})"), &want, || {
					let root = load(&html);
					let t = target(&root);
					let mut one = Elements::with_nodes(vec![t.cloned()]);
					one.set_html(&s);
					let src = root.document().unwrap().source_code();
					let fresh = load(&s);
					let (a, b) = (shape(&t), shape(fresh.get(0).unwrap()));
					let d = (a != b).then(|| a.iter().zip(&b).find(|(x, y)| x != y).map_or(format!("{} vs {} nodes", a.len(), b.len()), |(x, y)| format!("{x} vs {y}")));
					(one.html(), one.text(), src, d)
				});
				if !ctx.live() {
					return;
				}
			}
		}
	}
}

/// the handles of single child nodes: texts, comments and elements
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Nd {
	T(&'static str),
	C(&'static str),
	/// tag and content
	E(&'static str, Vec<Nd>),
}
fn raw(n: &Nd) -> String {
	match n {
		Nd::T(s) => s.to_string(),
		Nd::C(s) => format!("<!--{s}-->"),
		Nd::E(t, k) => format!("<{t}>{}</{t}>", raws(k)),
	}
}
fn raws(k: &[Nd]) -> String {
	k.iter().map(raw).collect()
}
fn plain(n: &Nd) -> String {
	match n {
		Nd::T(s) => s.replace("&lt;", "<"),
		Nd::C(_) => String::new(),
		Nd::E(_, k) => k.iter().map(plain).collect(),
	}
}
fn nd_view(k: &[Nd]) -> Vec<String> {
	k.iter()
		.enumerate()
		.map(|(i, n)| match n {
			Nd::T(s) => format!("{i} T {:?} {s:?}", plain(n)),
			Nd::C(s) => format!("{i} C {s:?}"),
			Nd::E(t, k) => format!("{i} E {t} {:?} {:?}", plain(n), raws(k)),
		})
		.collect()
}
fn single_nodes(ctx: &mut Ctx) {
	let atoms = [Nd::T("a"), Nd::T(" "), Nd::C("c"), Nd::E("b", vec![Nd::T("x")])];
	let mut docs: Vec<Vec<Nd>> = vec![];
	for m in 1..=3usize {
		for w in words(m, atoms.len()) {
			let k: Vec<Nd> = w.iter().map(|&i| atoms[i].clone()).collect();
			if !k.windows(2).any(|p| matches!(p, [Nd::T(_), Nd::T(_)])) {
				docs.push(k);
			}
		}
	}
	// (is html, argument, the nodes it stands for)
	let args: [(bool, &'static str, Vec<Nd>); 10] = [
		(false, "", vec![]),
		(false, "n", vec![Nd::T("n")]),
		(false, " ", vec![Nd::T(" ")]),
		(false, "m n", vec![Nd::T("m n")]),
		(true, "", vec![]),
		(true, "n", vec![Nd::T("n")]),
		(true, "&lt;", vec![Nd::T("&lt;")]),
		(true, "<i>m</i>", vec![Nd::E("i", vec![Nd::T("m")])]),
		(true, "<!--d-->k", vec![Nd::C("d"), Nd::T("k")]),
		(true, "<u></u>l<s></s>", vec![Nd::E("u", vec![]), Nd::T("l"), Nd::E("s", vec![])]),
	];
	let depth = ctx.tier.pick(2, 3);
	ctx.bound(format!("H: {} lists of <= 3 text, blank, comment and element nodes at the top and inside an element: all sequences of <= {depth} set_text/set_html calls ({} arguments) on the handle of any node of the list, fresh or held since before the first call", docs.len(), args.len()));
	for k in &docs {
		for wrap in [false, true] {
			let inner = raws(k);
			let html = if wrap { format!("<q>o</q><div k=\"1\">{inner}</div>") } else { inner.clone() };
			if !ctx.case(|| format!("html={html:?} single nodes")) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			let choices = k.len() * args.len();
			for m in 1..=depth {
				for w in words(m, choices) {
					// model: the list, and where the nodes held from the beginning are now
					let mut now = k.clone();
					let mut held: Vec<Option<usize>> = (0..k.len()).map(Some).collect();
					let mut errors = 0;
					let mut ok = true;
					for &c in &w {
						let (i, a) = (c / args.len(), &args[c % args.len()]);
						let Some(at) = held[i] else {
							ok = false;
							break;
						};
						match (&now[at], a.0) {
							(Nd::T(_), false) | (Nd::C(_), false) if a.1.is_empty() => errors += 1,
							(Nd::T(_), false) => now[at] = Nd::T(a.1),
							(Nd::C(_), false) => now[at] = Nd::C(a.1),
							(Nd::C(_), true) => {}
							(Nd::T(_), true) => {
								now.splice(at..=at, a.2.iter().cloned());
								held[i] = None;
								for h in held.iter_mut().flatten() {
									if *h > at {
										*h = *h + a.2.len() - 1;
									}
								}
							}
							(Nd::E(t, _), _) => now[at] = Nd::E(t, a.2.clone()),
						}
					}
					if !ok {
						continue;
					}
					let src = if wrap { format!("<q>o</q><div k=\"1\">{}</div>", raws(&now)) } else { raws(&now) };
					let want = (nd_view(&now), src, errors, now.iter().map(plain).collect::<String>());
					ctx.state(&("nodes", wrap, &now, errors));
					ctx.stats.traces += 1;
					ctx.stats.nonempty += 1;
					for held_first in [true, false] {
						ctx.expect(|| format!("{}{:?}", if held_first { "held " } else { "" }, w.iter().map(|c| (c / args.len(), if args[c % args.len()].0 { "set_html" } else { "set_text" }, args[c % args.len()].1)).collect::<Vec<_>>()), &want, || {
							let errs = Rc::new(Cell::new(0));
							let e2 = Rc::clone(&errs);
							let root = Vis::load_catch(html.clone(), Box::new(move |_| e2.set(e2.get() + 1)));
							let host = if wrap { target(&root) } else { root.get(0).unwrap().cloned() };
							let handles = host.child_nodes();
							let mut place: Vec<Option<usize>> = (0..k.len()).map(Some).collect();
							for &c in &w {
								let (i, a) = (c / args.len(), &args[c % args.len()]);
								// a fresh handle: by the place where the node is now
								let mut node = if held_first { handles[i].clone_node() } else { host.child_nodes().remove(place[i].unwrap()) };
								let was_text = matches!(node.node_type(), INodeType::Text);
								let before = host.child_nodes_length();
								if a.0 {
									node.set_html(a.1)
								} else {
									node.set_text(a.1)
								}
								if a.0 && was_text {
									let (p, after) = (place[i].unwrap(), host.child_nodes_length());
									place[i] = None;
									for h in place.iter_mut().flatten() {
										if *h > p {
											*h = (*h + after).saturating_sub(before);
										}
									}
								}
							}
							let v = host
								.child_nodes()
								.into_iter()
								.map(|n| {
									let i = n.index();
									match n.node_type() {
										INodeType::Text => format!("{i} T {:?} {:?}", n.text(), n.text_chars().iter().collect::<String>()),
										INodeType::Comment => format!("{i} C {:?}", n.text()),
										_ => {
											let e = n.typed().into_element().unwrap();
											format!("{i} E {} {:?} {:?}", e.tag_name().to_lowercase(), e.text(), e.inner_html())
										}
									}
								})
								.collect::<Vec<_>>();
							let src = root.document().unwrap().source_code();
							(v, src, errs.get(), host.text())
						});
						if !ctx.live() {
							return;
						}
					}
				}
			}
		}
	}
}

/// every character as text, in markup and as a numeric reference
fn letters(ctx: &mut Ctx) {
	let cs = chars();
	ctx.bound(format!("I: {} characters (all of ASCII and {} others) alone, before, after and between letters and next to `&` and `<`: set_text on normal and content elements, set_html, and their numeric references (printable ones)", cs.len(), cs.len() - 128));
	let hs = hosts(&["p", "pre", "textarea", "title", "script", "style"], &["", "t", "<b k=\"2\">t</b>u"]);
	for c in cs {
		for h in &hs {
			let html = format!("{}<{} k=\"1\">{}</{}>{}", h.0, h.1, h.2, h.1, h.3);
			if !ctx.case(|| format!("html={html:?} character {c:?}")) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			let raw = CONTENT_TAGS.contains(&h.1);
			let mut forms = around(c).to_vec();
			forms.extend([format!("{c}{c}"), format!(" {c} "), format!("&{c}"), format!("{c};"), format!("<{c}"), format!("&#{c}"), format!("&lt{c}")]);
			for s in &forms {
				let nodes = if raw { vec![] } else { vec![format!("T{s:?}")] };
				let want: TextView = (s.clone(), 0, 0, nodes, true, true, s.clone());
				if raw && s.contains("</") {
					continue;
				}
				ctx.state(&("text", h, s));
				ctx.stats.traces += 1;
				ctx.stats.nonempty += 1;
				for route in 0..2 {
					ctx.expect(|| format!("set_text({s:?}) route {route}"), &want, || {
						let root = load(&html);
						let mut t = target(&root);
						if route == 0 {
							Elements::with_nodes(vec![t.cloned()]).set_text(s);
						} else {
							t.set_text(s);
						}
						text_view(&root, &t, h, s)
					});
				}
				if s.contains(['<', '&']) {
					continue;
				}
				// content elements print their content encoded
				let html_of = |e: &Elements<'static>| if raw { s.clone() } else { e.html() };
				let want = (s.clone(), s.clone(), format!("{}<{} k=\"1\">{}</{}>{}", h.0, h.1, s, h.1, h.3));
				ctx.expect(|| format!("set_html({s:?})"), &want, || {
					let root = load(&html);
					let mut one = Elements::with_nodes(vec![target(&root)]);
					one.set_html(s);
					let src = root.document().unwrap().source_code();
					(html_of(&one), one.text(), src)
				});
				ctx.expect(|| format!("{s:?} in the markup"), &want, || {
					let root = load(&want.2);
					let one = Elements::with_nodes(vec![target(&root)]);
					let src = root.document().unwrap().source_code();
					(html_of(&one), one.text(), src)
				});
			}
			if !raw && (c as u32 >= 0xa0 || !c.is_control()) && !matches!(c as u32, 0xfffe | 0xffff | 0x10ffff) {
				for r in [format!("&#{};", c as u32), format!("&#x{:x};", c as u32), format!("&#X{:X};", c as u32), format!("&#0{};", c as u32)] {
					for (a, b) in [("", ""), ("x", "y"), ("&amp;", ";"), ("&lt;", "&gt;")] {
						let s = format!("{a}{r}{b}");
						let txt = format!("{a}{c}{b}").replace("&lt;", "<").replace("&gt;", ">").replace("&amp;", "&");
						ctx.stats.traces += 1;
						ctx.expect(|| format!("set_html({s:?})"), &(s.clone(), txt), || {
							let root = load(&html);
							let mut one = Elements::with_nodes(vec![target(&root)]);
							one.set_html(&s);
							(one.html(), one.text())
						});
					}
				}
			}
			if !ctx.live() {
				return;
			}
		}
	}
}
