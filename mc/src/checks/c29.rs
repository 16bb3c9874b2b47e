//! C29: the parse options decide exactly which malformed markup is repaired, and nothing else.
use crate::engine::Ctx;
use crate::model::words;
use std::cell::Cell;
use std::rc::Rc;
use visdom::html::ParseOptions;
use visdom::types::Elements;
use visdom::Vis;

pub const CASE: u32 = 1;
const EQ: u32 = 2;
const SELF: u32 = 4;
pub const UNCLOSED: u32 = 8;
const END: u32 = 16;
const LT: u32 = 32;
const DEFAULT: u32 = EQ | SELF | UNCLOSED | END | LT;

pub fn options(f: u32) -> ParseOptions {
	ParseOptions {
		case_sensitive_tagname: f & CASE > 0,
		allow_attr_key_starts_with_equal_sign: f & EQ > 0,
		allow_self_closing: f & SELF > 0,
		auto_fix_unclosed_tag: f & UNCLOSED > 0,
		auto_fix_unexpected_endtag: f & END > 0,
		auto_fix_unescaped_lt: f & LT > 0,
	}
}

/// markup, as kept, repairs it needs, does the case of its tags differ, what closes the tags left open
struct Piece(&'static str, &'static str, u32, bool, &'static str);
const PIECES: [Piece; 16] = [
	Piece("<p>x</p>", "<p>x</p>", 0, false, ""),
	Piece("<br>", "<br>", 0, false, ""),
	Piece("t", "t", 0, false, ""),
	Piece("<!--c-->", "<!--c-->", 0, false, ""),
	Piece("<i/>", "<i />", SELF, false, ""),
	Piece("<b =x>y</b>", "<b =x>y</b>", EQ, false, ""),
	Piece("</s>", "", END, false, ""),
	Piece("a < b", "a &lt; b", LT, false, ""),
	Piece("<P>x</p>", "<P>x</p>", 0, true, ""),
	Piece("<u>", "<u>", UNCLOSED, false, "</u>"),
	Piece("<u><q></u>", "<u><q>", UNCLOSED | END, false, "</q></u>"),
	Piece("<b =z><i/></b>", "<b =z><i /></b>", EQ | SELF, false, ""),
	Piece("<p a='<'>1<2</p>", "<p a='<'>1&lt;2</p>", LT, false, ""),
	Piece("< d", "&lt; d", LT, false, ""),
	Piece("<br/>", "<br />", 0, false, ""),
	Piece("<title>a</title>", "<title>a</title>", 0, false, ""),
];

fn src(e: &Elements<'static>) -> String {
	e.document().map(|d| d.source_code()).unwrap_or_default()
}
/// what a program sees of the document, before and after some use of it
fn seen(e: &Elements<'static>, catch: &dyn Fn() -> usize) -> Vec<String> {
	let tags = |e: &Elements<'static>| e.find("*").map(|_, x| x.tag_name()).join(" ");
	let mut v = vec![src(e), e.outer_html(), tags(e), e.text(), e.find("p").length().to_string(), e.find("b i, [a], :empty").length().to_string(), catch().to_string()];
	// the markup set later is repaired whatever the options of the document were
	let mut first = e.find("p, u, b, i").eq(0);
	first.set_html("<s>q<i/><b =x>");
	v.push(src(e));
	first.append(&mut e.find("p, b").last());
	v.push(src(e));
	v.push(tags(e));
	e.find("p[");
	v.push(catch().to_string());
	v
}

pub fn run(ctx: &mut Ctx) {
	let max = ctx.tier.pick(3, 4);
	ctx.bound(format!("all sequences of <= {max} pieces over {} (well formed, or needing one or two repairs), at the top and in an element x all 64 parse options x load_options and load_options_catch; load and load_catch", PIECES.len()));
	for inside in [false, true] {
		for n in 1..=max {
			for w in words(n, PIECES.len()) {
				let ps: Vec<&Piece> = w.iter().map(|&i| &PIECES[i]).collect();
				let body: String = ps.iter().map(|p| p.0).collect();
				let html = if inside { format!("<div>{body}</div>") } else { body };
				if !ctx.case(|| format!("{html:?}")) {
					if !ctx.live() {
						return;
					}
					continue;
				}
				let mut need = ps.iter().fold(0, |a, p| a | p.2);
				let other_case = ps.iter().any(|p| p.3);
				let close: String = ps.iter().rev().map(|p| p.4).collect();
				// the end of the element around comes unexpected to a tag that is still open
				if inside && !close.is_empty() {
					need |= END;
				}
				let mut kept: String = ps.iter().map(|p| p.1).collect::<String>() + &close;
				if inside {
					kept = format!("<div>{kept}</div>");
				}
				ctx.state(&html);
				let mut same: Option<Vec<String>> = None;
				for f in 0..64u32 {
					if other_case && f & CASE > 0 {
						// what tags of other case then are, is left to the parser
						continue;
					}
					let ok = need & f == need;
					ctx.stats.traces += 2;
					ctx.stats.transitions += 2;
					ctx.stats.nonempty += (need > 0) as u64;
					for catch in [false, true] {
						let n = Rc::new(Cell::new(0));
						let m = n.clone();
						let step = || format!("options {f:06b} (lt, end, unclosed, self, =, case) catch={catch}");
						let mut view = vec![];
						if !ctx.expect(step, &(ok, ok.then(|| kept.clone())), || {
							let e = if catch {
								let e = Vis::load_options_catch(html.clone(), options(f), Box::new(move |_| m.set(m.get() + 1)));
								let failed = n.get() == 1 && e.is_empty();
								if !failed && n.get() > 0 {
									return (false, Some(format!("{} reports and {} elements", n.get(), e.length())));
								}
								(!failed).then_some(e)
							} else {
								Vis::load_options(html.clone(), options(f)).ok()
							};
							match e {
								None => (false, None),
								Some(e) => {
									let s = src(&e);
									let n = n.clone();
									view = seen(&e, &move || if catch { n.get() } else { 0 });
									(true, Some(s))
								}
							}
						}) {
							return;
						}
						if ok {
							if catch {
								// the later refusal is reported, once
								let got = (view[6].clone(), view.pop());
								if !ctx.expect(|| format!("reports, {}", step()), &("0".to_string(), Some("1".to_string())), || got.clone()) {
									return;
								}
							} else {
								view.pop();
							}
							match &same {
								None => same = Some(view),
								Some(s) => {
									if !ctx.expect(|| format!("same document as under the other options, {}", step()), s, || view.clone()) {
										return;
									}
								}
							}
						}
					}
				}
				// the entry points without options repair everything
				for catch in [false, true] {
					if !ctx.expect(|| format!("load catch={catch} (options {DEFAULT:06b})"), &Some(kept.clone()), || {
						if catch {
							let e = Vis::load_catch(html.clone(), Box::new(|e| panic!("reported {e}")));
							Some(src(&e))
						} else {
							Vis::load(html.clone()).ok().map(|e| src(&e))
						}
					}) {
						return;
					}
				}
			}
		}
	}
}
