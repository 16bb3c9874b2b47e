//! C27: callbacks and error handlers may use the document: what they read is the current state, what they
//! change is changed exactly so, and the call they are part of goes on; a panic in them breaks nothing.
use crate::engine::Ctx;
use crate::model::*;
use crate::mutate::*;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use visdom::types::{BoxDynElement, BoxDynText, Elements};
use visdom::Vis;

#[derive(Clone, Debug, PartialEq)]
enum Act {
	Nothing,
	/// every read of the whole document, twice
	Look,
	/// malformed selectors: reported once each
	Bad,
	Do(Op),
	/// the operation made for the visited element
	Own(usize),
	Panic,
}
type Shared = Rc<RefCell<R>>;

fn own(kind: usize, m: usize) -> Op {
	match kind {
		0 => Op::Remove(vec![m]),
		1 => Op::Empty(vec![m]),
		2 => Op::SetText(vec![m], "s"),
		3 => Op::SetHtml(vec![m], 1),
		4 => Op::ReplaceFrag(vec![m], 1),
		5 => Op::InsertFrag(vec![m], Pos::Before, 1),
		6 => Op::InsertFrag(vec![m], Pos::Append, 0),
		_ => Op::SetAttr(vec![m], "class", Some("z")),
	}
}
const OWN: usize = 8;

/// what the whole document looks like, by queries
fn view(w: &Tree) -> String {
	let mut v = vec![];
	w.pre(0, &mut |t, i| {
		if let Some(Some(k)) = t.attr(i, "k") {
			v.push(k.to_string());
		}
	});
	v.join(",")
}
fn look(root: &Elements<'static>) -> String {
	let a = root.find("*").map(|_, e| e.get_attribute("k").map(|v| v.to_string()).unwrap_or_default()).join(",");
	let b = root.find("*").filter_by(|_, e| !e.is_root_element()).map(|_, e| e.get_attribute("k").map(|v| v.to_string()).unwrap_or_default()).join(",");
	let _ = (root.find("p:nth-child(2) ~ *, b:not(.c) > i, :has(> u)").length(), root.children("").next_until("b", "", true).length(), root.texts(0).length(), root.outer_html().len());
	let _ = (root.find("*").clone().length(), root.find("*").parents("p").is("b"), Vis::load("<a><b></b></a>").unwrap().find("a > b").length());
	if a == b {
		a
	} else {
		format!("{a} / {b}")
	}
}

/// One scenario: which callback, and what is done at which visit.
struct Plan<'a> {
	acts: &'a [(usize, Act)],
	pred: u64,
}
/// the model's part at visit `i` of the element with mark `m`
fn model_step(w: &mut W, p: &Plan, i: usize, m: usize, bad: &mut usize, views: &mut Vec<String>) -> bool {
	for (at, a) in p.acts {
		if *at != i {
			continue;
		}
		match a {
			Act::Nothing => {}
			Act::Look => views.push(view(&w.t)),
			Act::Bad => *bad += 2,
			Act::Do(op) => {
				if w.enabled(op) {
					w.apply(op)
				}
			}
			Act::Own(k) => {
				let op = own(*k, m);
				if w.enabled(&op) {
					w.apply(&op)
				}
			}
			Act::Panic => return false,
		}
	}
	true
}

struct Live {
	r: Shared,
	root: Elements<'static>,
	w: RefCell<W>,
	views: RefCell<Vec<String>>,
	seen: RefCell<Vec<(usize, usize)>>,
}
impl Live {
	/// the real part; the model runs along only to know which operations are enabled
	fn step(&self, p: &Plan, i: usize, m: usize) -> bool {
		self.seen.borrow_mut().push((i, m));
		let mut bad = 0;
		let mut unused = vec![];
		for (at, a) in p.acts {
			if *at != i {
				continue;
			}
			let one = [(i, a.clone())];
			let on = match a {
				Act::Do(op) => self.w.borrow().enabled(op),
				Act::Own(k) => self.w.borrow().enabled(&own(*k, m)),
				_ => true,
			};
			match a {
				Act::Nothing => {}
				Act::Look => {
					let v = look(&self.root);
					self.views.borrow_mut().push(v);
				}
				Act::Bad => {
					self.root.find("p[");
					self.root.find("*").filter(":not(");
				}
				Act::Do(op) if on => self.r.borrow_mut().apply(op),
				Act::Own(k) if on => self.r.borrow_mut().apply(&own(*k, m)),
				Act::Do(_) | Act::Own(_) => {}
				Act::Panic => panic!("callback"),
			}
			model_step(&mut self.w.borrow_mut(), &Plan { acts: &one, pred: p.pred }, i, m, &mut bad, &mut unused);
		}
		p.pred >> (i % 64) & 1 == 1
	}
}
fn tag_mark(e: &BoxDynElement) -> usize {
	e.get_attribute("k").and_then(|v| v.to_string().parse().ok()).unwrap_or(9998)
}

const SITES: [&str; 13] = ["for_each", "each", "map", "filter_by", "not_by", "is_by", "is_all_by", "texts for_each", "texts each", "texts filter_by", "texts_by", "texts_by_rec texts", "texts_by_rec elements"];
/// callbacks that run while a tree is being walked: only reads and attributes are judged
fn walks(site: usize) -> bool {
	site >= 10
}

/// expected visits (index given to the callback or the running number, mark of the element or of the text's parent)
fn expected(site: usize, w: &mut W, p: &Plan) -> (Vec<(usize, usize)>, String, usize, Vec<String>) {
	let mut seen = vec![];
	let mut bad = 0;
	let mut views = vec![];
	let start = w.t.clone();
	let elems: Vec<usize> = start.elements().into_iter().map(|i| start.attr(i, "k").unwrap().unwrap().parse().unwrap()).collect();
	let mut texts = vec![];
	start.pre(0, &mut |t, i| {
		if matches!(t.nodes[i].kind, Kind::Text(_)) {
			let up = t.nodes[i].parent.unwrap();
			texts.push(if up == 0 { 9998 } else { t.attr(up, "k").unwrap().unwrap().parse::<usize>().unwrap() });
		}
	});
	let list: &[usize] = if site <= 6 || site == 12 { &elems } else { &texts };
	let yes = |i: usize| p.pred >> (i % 64) & 1 == 1;
	let mut kept = vec![];
	let mut answer = String::new();
	// `texts_by_rec elements` is asked for elements in document order as well, but not below a refused one
	let mut skip: Vec<usize> = vec![];
	let mut n = 0;
	for (i, &m) in list.iter().enumerate() {
		if site == 12 {
			let id = w.node(m);
			let mut up = start.nodes[id].parent;
			let mut below = false;
			while let Some(u) = up {
				below |= skip.contains(&u);
				up = start.nodes[u].parent;
			}
			if below {
				continue;
			}
		}
		let i = if site == 12 { n } else { i };
		n += 1;
		seen.push((i, m));
		if !model_step(w, p, i, m, &mut bad, &mut views) {
			return (seen, "panic".into(), bad, views);
		}
		if yes(i) {
			kept.push(m);
		} else if site == 12 {
			skip.push(w.node(m));
		}
		let stop = match site {
			0 | 1 | 7 | 8 => !yes(i),
			5 => yes(i),
			6 => !yes(i),
			_ => false,
		};
		if stop {
			break;
		}
	}
	match site {
		0 | 1 | 7 | 8 => answer = list.len().to_string(),
		2 => answer = format!("{:?}", list.iter().enumerate().map(|(i, _)| yes(i)).collect::<Vec<_>>()),
		3 | 9 | 10 | 11 => answer = format!("{kept:?}"),
		4 => answer = format!("{:?}", list.iter().enumerate().filter(|(i, _)| !yes(*i)).map(|x| *x.1).collect::<Vec<_>>()),
		5 => answer = (!kept.is_empty()).to_string(),
		6 => answer = (kept.len() == list.len()).to_string(),
		_ => {}
	}
	(seen, answer, bad, views)
}
fn text_mark(t: &BoxDynText) -> usize {
	t.parent().map_or(9997, |p| tag_mark(&p))
}
fn real(site: usize, l: &Rc<Live>, acts: &Rc<Vec<(usize, Act)>>, pred: u64) -> String {
	let all = l.root.find("*");
	let p = Plan { acts, pred };
	let texts = l.root.texts(0);
	// where each text was at the start
	let at: Vec<usize> = texts.get_ref().iter().map(text_mark).collect();
	// answers are named by the marks the elements have now: only attributes "k" are never changed
	match site {
		0 | 1 => {
			let mut s = l.root.find("*");
			let before = marks(&s);
			let f = |i: usize, e: &mut BoxDynElement| l.step(&p, i, tag_mark(e));
			let r = catch_unwind(AssertUnwindSafe(|| if site == 0 { s.for_each(f).length() } else { s.each(f).length() }));
			// the set holds what it held, also after a panic
			if marks(&s) != before {
				return format!("the set of {before:?} became {:?}", marks(&s));
			}
			match r {
				Ok(n) => n.to_string(),
				Err(e) => resume_unwind(e),
			}
		}
		2 => format!("{:?}", all.map(|i, e| l.step(&p, i, tag_mark(e)))),
		3 => format!("{:?}", marks(&all.filter_by(|i, e| l.step(&p, i, tag_mark(e))))),
		4 => format!("{:?}", marks(&all.not_by(|i, e| l.step(&p, i, tag_mark(e))))),
		5 => all.is_by(|i, e| l.step(&p, i, tag_mark(e))).to_string(),
		6 => all.is_all_by(|i, e| l.step(&p, i, tag_mark(e))).to_string(),
		7 | 8 => {
			let mut t = texts;
			let f = |i: usize, _: &mut BoxDynText| l.step(&p, i, at[i]);
			let r = catch_unwind(AssertUnwindSafe(|| if site == 7 { t.for_each(f).length() } else { t.each(f).length() }));
			if t.length() != at.len() {
				return format!("{} of {} texts are left", t.length(), at.len());
			}
			match r {
				Ok(n) => n.to_string(),
				Err(e) => resume_unwind(e),
			}
		}
		9 => {
			let kept = RefCell::new(vec![]);
			let r = texts.filter_by(|i, _| {
				let y = l.step(&p, i, at[i]);
				if y {
					kept.borrow_mut().push(at[i]);
				}
				y
			});
			if r.length() != kept.borrow().len() {
				return format!("{} texts kept", r.length());
			}
			format!("{:?}", kept.into_inner())
		}
		10 | 11 => {
			let (l2, acts2, n) = (l.clone(), acts.clone(), Cell::new(0));
			let f = Box::new(move |_: usize, t: &BoxDynText| {
				let i = n.get();
				n.set(i + 1);
				l2.step(&Plan { acts: &acts2, pred }, i, text_mark(t))
			});
			let r = if site == 10 { l.root.texts_by(0, f) } else { l.root.texts_by_rec(0, f, Box::new(|_| true)) };
			format!("{:?}", r.get_ref().iter().map(text_mark).collect::<Vec<_>>())
		}
		_ => {
			let (l2, acts2, n) = (l.clone(), acts.clone(), Cell::new(0));
			let f = Box::new(move |e: &BoxDynElement| {
				let i = n.get();
				n.set(i + 1);
				l2.step(&Plan { acts: &acts2, pred }, i, tag_mark(e))
			});
			l.root.texts_by_rec(0, Box::new(|_, _| true), f);
			String::new()
		}
	}
}

fn live(html: &str, t: &Tree) -> Rc<Live> {
	let w = W::new(t.clone());
	let r = R::new(html, w.next);
	let root = Elements::with_nodes(vec![r.r0.cloned()]);
	Rc::new(Live { r: Rc::new(RefCell::new(r)), root, w: RefCell::new(w), views: RefCell::new(vec![]), seen: RefCell::new(vec![]) })
}
fn compare(w: &W, l: &Live, reports: usize) -> Option<String> {
	let r = l.r.borrow();
	if let Some(d) = check_structure(w, &r).or_else(|| check_source(w, &r)) {
		return Some(d);
	}
	if r.errors.get() != reports {
		return Some(format!("{} reports, expected {reports}", r.errors.get()));
	}
	let (got, want) = (look(&l.root), view(&w.t));
	(got != want).then(|| format!("afterwards the elements are {got}, expected {want}"))
}

fn run_site(ctx: &mut Ctx, html: &str, t: &Tree, site: usize, acts: &[(usize, Act)], pred: u64) {
	ctx.state(&(html, site, format!("{acts:?}"), pred));
	ctx.stats.transitions += acts.len() as u64 + 1;
	ctx.stats.traces += 1;
	ctx.stats.nonempty += 1;
	ctx.expect(|| format!("{} answering {pred:b} and {acts:?}", SITES[site]), &None, || {
		let mut w = W::new(t.clone());
		let want = expected(site, &mut w, &Plan { acts, pred });
		let l = live(html, t);
		let rc = Rc::new(acts.to_vec());
		let answer = if acts.iter().any(|a| a.1 == Act::Panic) {
			catch_unwind(AssertUnwindSafe(|| real(site, &l, &rc, pred))).unwrap_or("panic".into())
		} else {
			real(site, &l, &rc, pred)
		};
		let got = (l.seen.borrow().clone(), answer, l.views.borrow().clone());
		if got != (want.0.clone(), want.1.clone(), want.3.clone()) {
			return Some(format!("visits, answer and views {got:?}, expected {:?}", (want.0, want.1, want.3)));
		}
		let errors = w.errors + want.2;
		compare(&w, &l, errors)
	});
}

// ---- error handlers
const TRIGGERS: usize = 12;
/// something that is refused with one report; true if it could be asked
fn trigger(k: usize, root: &Elements<'static>, first: &BoxDynElement<'static>, last: &BoxDynElement<'static>) -> Option<usize> {
	let mut f = Vis::dom(first);
	let all = root.find("*");
	Some(match k {
		0 => root.find("p[").length(),
		1 => all.filter(":not(").length() + all.is("[") as usize,
		2 => all.closest(":nth-child(x)").length() + all.not("~").length(),
		3 => all.next_until("p[", "", true).length(),
		4 => all.next_until("p", "p[", true).length(),
		5 => {
			f.append(&mut Vis::dom(first));
			0
		}
		6 => {
			f.prepend(&mut Elements::with_nodes(vec![root.get(0).unwrap().cloned()]));
			0
		}
		7 => {
			f.replace_with(&mut Elements::with_nodes(vec![root.get(0).unwrap().cloned()]));
			0
		}
		8 => {
			let mut x = first.child_nodes().into_iter().filter_map(|n| n.typed().into_text()).next()?;
			x.set_text("");
			0
		}
		9 => {
			f.set_html("<!--");
			0
		}
		10 => {
			Vis::dom(last).set_html("<!--");
			0
		}
		_ => {
			let mut x = first.child_nodes().into_iter().filter_map(|n| n.typed().into_text()).next()?;
			x.set_html("<!--");
			0
		}
	})
}
fn handlers(ctx: &mut Ctx, html: &str, t: &Tree, k: usize, act: &Act, depth: usize) {
	ctx.state(&(html, k, format!("{act:?}"), depth));
	ctx.stats.transitions += 2;
	ctx.stats.traces += 1;
	ctx.stats.nonempty += 1;
	ctx.expect(|| format!("trigger {k}, the handler does {act:?} in {depth} reports"), &None, || {
		// how many reports does it make on a document without anything in the handler?
		let plain = {
			let l = live(html, t);
			let (a, z) = ends(&l);
			trigger(k, &l.root, &a, &z)?;
			let n = l.r.borrow().errors.get();
			n
		};
		if plain == 0 {
			return Some("no report".into());
		}
		let slot: Rc<RefCell<Option<Rc<Live>>>> = Rc::new(RefCell::new(None));
		let calls = Rc::new(Cell::new(0usize));
		let own_reports = Rc::new(Cell::new(0usize));
		let left = Rc::new(Cell::new(depth));
		let w = W::new(t.clone());
		let l = {
			let (slot, calls, act, left, own_reports) = (slot.clone(), calls.clone(), act.clone(), left.clone(), own_reports.clone());
			let h = move |_| {
				calls.set(calls.get() + 1);
				if left.get() == 0 {
					return;
				}
				let l = slot.borrow().clone();
				if let Some(l) = l {
					// a report made by the handler's own operation: the harness is in use
					if l.r.try_borrow_mut().is_err() || l.w.try_borrow_mut().is_err() {
						return;
					}
					left.set(left.get() - 1);
					let before = calls.get();
					l.step(&Plan { acts: &[(0, act.clone())], pred: 0 }, 0, 0);
					own_reports.set(own_reports.get() + calls.get() - before);
				}
			};
			let r = R::with_handler(html, w.next, Box::new(h));
			let root = Elements::with_nodes(vec![r.r0.cloned()]);
			Rc::new(Live { r: Rc::new(RefCell::new(r)), root, w: RefCell::new(w), views: RefCell::new(vec![]), seen: RefCell::new(vec![]) })
		};
		*slot.borrow_mut() = Some(l.clone());
		let (a, z) = ends(&l);
		let res = if *act == Act::Panic {
			catch_unwind(AssertUnwindSafe(|| trigger(k, &l.root, &a, &z))).unwrap_or(Some(0))
		} else {
			trigger(k, &l.root, &a, &z)
		};
		let d = {
			// the refused call changes nothing: the document is what the handler made of it
			let w = l.w.borrow();
			let r = l.r.borrow();
			let d = check_structure(&w, &r).or_else(|| check_source(&w, &r)).or_else(|| {
				let (got, want) = (look(&l.root), view(&w.t));
				(got != want).then(|| format!("afterwards the elements are {got}, expected {want}"))
			});
			// reports: the call's own (a panic cuts them short) and those of the operations in the handler
			let bad = if *act == Act::Bad { 2 * (depth - left.get()) } else { 0 };
			let from_ops = w.errors;
			let want_calls = if *act == Act::Panic { 1 } else { plain + bad + from_ops };
			d.or_else(|| (calls.get() != want_calls).then(|| format!("{} reports, expected {want_calls} ({plain} by the call itself)", calls.get())))
		};
		*slot.borrow_mut() = None;
		d.or_else(|| (res.unwrap_or(0) > 0 && k < 5).then(|| "a rejected selector finds something".into()))
	});
}
fn ends(l: &Live) -> (BoxDynElement<'static>, BoxDynElement<'static>) {
	let all = real_elements(&l.root.get(0).unwrap().cloned());
	(all[0].cloned(), all[all.len() - 1].cloned())
}

pub fn run(ctx: &mut Ctx) {
	let n = ctx.tier.pick(3, 3);
	let st = starts(n, &[Fill::None, Fill::Text]);
	let thorough = ctx.tier.pick(false, true);
	ctx.bound(format!("A: {} documents (all shapes of <= {n} elements, with and without text) x {} callbacks x every answer pattern: at every visit nothing, all reads, rejected selectors, a panic, or {}any one operation (insertions, replacements, removals, contents, attributes, texts) on any element; callbacks of a tree walk: reads and attributes; and one of {OWN} operations on the visited element at every visit", st.len(), SITES.len(), if thorough { "(also at two visits) " } else { "" }));
	for t in &st {
		let html = t.html();
		let w = W::new(t.clone());
		let k = t.elements().len();
		let ops: Vec<Op> = {
			let mut v: Vec<Op> = single_ops(&w, k, &[0, 1], true).into_iter().filter(|o| w.enabled(o)).collect();
			for m in 0..k {
				v.push(Op::SetAttr(vec![m], "class", Some("z")));
			}
			v
		};
		for site in 0..SITES.len() {
			let elems = site <= 6 || site == 12;
			let visits = if elems { k } else { t.nodes.iter().filter(|n| matches!(n.kind, Kind::Text(_))).count() };
			if visits == 0 {
				continue;
			}
			let preds: Vec<u64> = (0..1u64 << visits.min(4)).map(|p| p | (p & 1) * (!0 << visits.min(4))).collect();
			let full = !0u64;
			// every answer pattern with small acts
			for at in 0..visits {
				if !ctx.case(|| format!("html={html:?} {} visit {at}", SITES[site])) {
					if !ctx.live() {
						return;
					}
					continue;
				}
				for &pred in &preds {
					for a in [Act::Nothing, Act::Look, Act::Bad, Act::Panic] {
						run_site(ctx, &html, t, site, &[(at, a)], pred);
					}
				}
				// one operation at one visit, then a look at the next
				for op in &ops {
					let attr = matches!(op, Op::SetAttr(..));
					if walks(site) && !attr {
						continue;
					}
					for pred in if site == 5 { [0, 0] } else { [full, 0x55] } {
						run_site(ctx, &html, t, site, &[(at, Act::Look), (at, Act::Do(op.clone())), (at, Act::Look), (at + 1, Act::Look)], pred);
						if site == 5 {
							break;
						}
					}
					if thorough && !walks(site) {
						for op2 in &ops {
							for second in at..visits {
								run_site(ctx, &html, t, site, &[(at, Act::Do(op.clone())), (second, Act::Do(op2.clone())), (second, Act::Look)], if site == 5 { 0 } else { full });
							}
						}
					}
					if !ctx.live() {
						return;
					}
				}
				if at == 0 && elems && !walks(site) {
					for o in 0..OWN {
						let acts: Vec<(usize, Act)> = (0..visits).flat_map(|i| [(i, Act::Own(o)), (i, Act::Look)]).collect();
						for &pred in &preds {
							run_site(ctx, &html, t, site, &acts, pred);
						}
					}
				}
				if !ctx.live() {
					return;
				}
			}
		}
	}
	ctx.bound(format!("B: the same documents x {TRIGGERS} refused calls (selectors of all methods, insertions, replacements, texts, markup): the error handler does nothing, all reads, rejected selectors, panics, or any one operation, in the first or the first two reports"));
	for t in &st {
		let html = t.html();
		let w = W::new(t.clone());
		let k = t.elements().len();
		let mut acts = vec![Act::Nothing, Act::Look, Act::Bad, Act::Panic];
		acts.extend(single_ops(&w, k, &[0, 1], true).into_iter().filter(|o| w.enabled(o)).map(Act::Do));
		for m in 0..k {
			acts.push(Act::Do(Op::SetAttr(vec![m], "class", Some("z"))));
		}
		for tr in 0..TRIGGERS {
			if !ctx.case(|| format!("html={html:?} trigger {tr}")) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			for a in &acts {
				for depth in 1..=2 {
					handlers(ctx, &html, t, tr, a, depth);
					if !ctx.live() {
						return;
					}
				}
			}
		}
	}
}
