//! C28: documents side by side: an operation changes only the trees it names, moved nodes belong to the
//! document they are in, reports go to the document concerned, queries keep the documents apart.
use crate::engine::Ctx;
use crate::model::*;
use crate::mutate::*;
use visdom::types::Elements;

const SECOND: usize = 20;

#[derive(Clone, Debug)]
enum Step {
	Op(Op),
	/// a rejected selector asked from the root (true: of the second document) or from an element
	BadRoot(bool),
	BadAt(usize),
}

fn relabel(t: &Tree) -> Tree {
	let mut t = t.clone();
	for n in &mut t.nodes {
		if let Kind::Elem(_, a) = &mut n.kind {
			if let Some(k) = a.iter_mut().find(|x| x.0 == "k") {
				let m: usize = k.1.as_ref().unwrap().parse().unwrap();
				k.1 = Some((m + SECOND).to_string());
			}
		}
	}
	t
}
fn order(t: &Tree, root: usize) -> Vec<usize> {
	let mut v = vec![];
	t.pre(root, &mut |t, i| {
		if let Some(Some(k)) = t.attr(i, "k") {
			v.push(k.parse().unwrap());
		}
	});
	v
}
fn select(t: &Tree, root: usize, tag: &str, below: Option<&str>) -> Vec<usize> {
	let mut v = vec![];
	t.pre(root, &mut |t, i| {
		if t.tag(i) == tag {
			let mut up = t.nodes[i].parent;
			let mut ok = below.is_none();
			while let Some(p) = up {
				ok |= below == Some(t.tag(p));
				up = t.nodes[p].parent;
			}
			if ok {
				v.push(t.attr(i, "k").unwrap().unwrap().parse().unwrap());
			}
		}
	});
	v
}

type Ask = fn(&Elements<'static>) -> Elements<'static>;
const ASKS: [(&str, Ask); 24] = [
	("filter(:first-child)", |e| e.filter(":first-child")),
	("filter(:nth-child(2))", |e| e.filter(":nth-child(2)")),
	("filter(:nth-last-child(odd))", |e| e.filter(":nth-last-child(odd)")),
	("filter(:last-child)", |e| e.filter(":last-child")),
	("filter(:only-child)", |e| e.filter(":only-child")),
	("filter(:nth-of-type(2n+1))", |e| e.filter(":nth-of-type(2n+1)")),
	("filter(:nth-last-of-type(1))", |e| e.filter(":nth-last-of-type(1)")),
	("filter(:first-of-type)", |e| e.filter(":first-of-type")),
	("filter(:last-of-type)", |e| e.filter(":last-of-type")),
	("filter(:only-of-type)", |e| e.filter(":only-of-type")),
	("filter(p + *, b ~ *)", |e| e.filter("p + *, b ~ *")),
	("filter(p > *, b *)", |e| e.filter("p > *, b *")),
	("filter(:has(b), :empty)", |e| e.filter(":has(b), :empty")),
	("not(:nth-child(1))", |e| e.not(":nth-child(1)")),
	("children", |e| e.children("")),
	("find(:nth-last-child(1))", |e| e.find(":nth-last-child(1)")),
	("siblings", |e| e.siblings("")),
	("next", |e| e.next("")),
	("prev_all", |e| e.prev_all("")),
	("next_until", |e| e.next_until("b", "", true)),
	("parent", |e| e.parent("*")),
	("parents", |e| e.parents("*")),
	("closest", |e| e.closest("p, b:first-child")),
	("has", |e| e.has("> b")),
];

fn monitor(w: &W, r: &R, bad: [usize; 2], short: bool) -> Option<String> {
	if let Some(d) = check_structure(w, r).or_else(|| check_source(w, r)) {
		return Some(d);
	}
	let roots = [0, w.frag_roots[0]];
	let real = [&r.root, &r.frags[0]];
	// queries of each document, and of both together
	for i in 0..2 {
		let all = order(&w.t, roots[i]);
		let checks: [(&str, Vec<usize>); 5] = [
			("*", all.clone()),
			("p", select(&w.t, roots[i], "p", None)),
			("p b", select(&w.t, roots[i], "b", Some("p"))),
			("b p", select(&w.t, roots[i], "p", Some("b"))),
			(":root", vec![]),
		];
		for (q, want) in checks {
			if q == ":root" {
				continue;
			}
			let got = marks(&real[i].find(q));
			if got != want {
				return Some(format!("document {i}: find({q:?}) gives {got:?}, expected {want:?}"));
			}
		}
		// every element of the document belongs to it
		for e in real[i].find("*").get_ref() {
			match e.root_element() {
				Some(x) if x.is(real[i].get(0).unwrap()) => {}
				_ => return Some(format!("element {} of document {i} belongs elsewhere", mark(e))),
			}
		}
		let src = real[i].document().map(|d| d.source_code());
		if src != Some(w.t.outer(roots[i])) && src != Some(tree_html(&w.t, roots[i])) {
			return Some(format!("document {i}: source {src:?}"));
		}
	}
	let both = Elements::with_nodes(vec![r.root.get(0).unwrap().cloned(), r.frags[0].get(0).unwrap().cloned()]);
	for (q, tag, below) in [("p", "p", None), ("p b", "b", Some("p"))] {
		let got = marks(&both.find(q));
		let want: Vec<usize> = roots.iter().flat_map(|&x| select(&w.t, x, tag, below)).collect();
		if got != want {
			return Some(format!("both documents: find({q:?}) gives {got:?}, expected {want:?}"));
		}
	}
	// membership does not cross documents
	let (a, b) = (r.root.find("*"), r.frags[0].find("*"));
	if a.filter_in(&b).length() + b.filter_in(&a).length() > 0 || a.is_in(&b) || b.is_in(&a) || a.not_in(&b).length() != a.length() {
		return Some("elements of one document are found in the other".into());
	}
	let sum = marks(&a.add(b.cloned()));
	let want: Vec<usize> = roots.iter().flat_map(|&x| order(&w.t, x)).collect();
	if sum != want {
		return Some(format!("add over both documents gives {sum:?}, expected {want:?}"));
	}
	// a set over both documents is answered document by document
	let both = a.add(b.cloned());
	let mine = order(&w.t, 0);
	for (name, ask) in ASKS.into_iter().filter(|_| short) {
		// in document order; the order of different documents is open
		let got: (Vec<usize>, Vec<usize>) = marks(&ask(&both)).into_iter().partition(|m| mine.contains(m));
		let want = (marks(&ask(&a)), marks(&ask(&b)));
		if got != want {
			return Some(format!("{name} of the elements of both documents gives {got:?}, one by one {want:?}"));
		}
	}
	// reports
	let got = [r.errors.get(), r.frag_errors.get()];
	let mut least = bad;
	let mut open = 0;
	for &at in &w.refused_at {
		match roots.iter().position(|&x| x == at) {
			Some(i) => least[i] += 1,
			// a detached target: one report, to the document it came from
			None => open += 1,
		}
	}
	if got[0] < least[0] || got[1] < least[1] || got[0] + got[1] != least[0] + least[1] + open {
		return Some(format!("reports {got:?}, expected {least:?} and {open} for targets that are taken out"));
	}
	None
}
fn tree_html(t: &Tree, root: usize) -> String {
	let mut s = String::new();
	for &k in &t.nodes[root].kids {
		t.node_html(k, &mut s);
	}
	s
}

fn steps(w: &W, frags: &[usize]) -> Vec<Step> {
	let mut v: Vec<Step> = single_ops(w, SECOND * 2, &[], true).into_iter().filter(|o| !matches!(o, Op::RootTextRemove(_) | Op::RootTextSetHtml(..))).map(Step::Op).collect();
	let mut ms: Vec<usize> = w.by_mark.keys().copied().filter(|&m| m < SECOND * 2).collect();
	ms.sort();
	for &m in &ms {
		v.push(Step::BadAt(m));
		for &f in frags {
			v.push(Step::Op(Op::SetHtml(vec![m], f)));
		}
		v.push(Step::Op(Op::SetAttr(vec![m], "class", Some("z"))));
	}
	// sets over both documents
	let (a, b): (Vec<usize>, Vec<usize>) = ms.iter().partition(|&&m| m < SECOND);
	if let (Some(&a), Some(&b)) = (a.first(), b.first()) {
		v.push(Step::Op(Op::Remove(vec![a, b])));
		v.push(Step::Op(Op::Empty(vec![a, b])));
		v.push(Step::Op(Op::SetText(vec![a, b], "s")));
		v.push(Step::Op(Op::AddClass(vec![a, b], "z")));
		for p in POS {
			for &m in &ms {
				v.push(Step::Op(Op::Insert(vec![m], p, vec![a, b])));
				v.push(Step::Op(Op::InsertTo(vec![m], p, vec![a, b])));
			}
		}
	}
	v.push(Step::BadRoot(false));
	v.push(Step::BadRoot(true));
	v
}
fn enabled(w: &W, s: &Step) -> bool {
	match s {
		Step::Op(o) => w.enabled(o),
		// the document of an element that was taken out is left open
		Step::BadAt(m) => w.by_mark.get(m).map_or(false, |&i| w.root_of(i) == 0 || w.frag_roots.contains(&w.root_of(i))),
		Step::BadRoot(_) => true,
	}
}
fn model(w: &mut W, s: &Step, bad: &mut [usize; 2]) {
	match s {
		Step::Op(o) => w.apply(o),
		Step::BadAt(m) => bad[(w.root_of(w.node(*m)) != 0) as usize] += 2,
		Step::BadRoot(second) => bad[*second as usize] += 2,
	}
}
fn apply(r: &mut R, s: &Step) {
	match s {
		Step::Op(o) => r.apply(o),
		Step::BadAt(m) => {
			r.set(&[*m]).find("p[");
			r.set(&[*m]).next(":not(");
		}
		Step::BadRoot(second) => {
			let e = if *second { &r.frags[0] } else { &r.root };
			e.find("[");
			e.find("*").filter(":nth-child(x)");
			// an empty set has no document, and cannot report
			if e.find("*").is_empty() {
				e.find(":nth-child(x)");
			}
		}
	}
}

#[allow(clippy::too_many_arguments)]
fn dfs(ctx: &mut Ctx, html: &[String; 2], next: usize, w: &W, bad: [usize; 2], s: Step, hist: &mut Vec<Step>, depth: usize, frags: &[usize]) {
	let mut w2 = w.clone();
	let mut b2 = bad;
	model(&mut w2, &s, &mut b2);
	hist.push(s);
	ctx.state(&(w2.canonical(), tree_html(&w2.t, w2.frag_roots[0]), b2));
	ctx.stats.transitions += hist.len() as u64;
	ctx.stats.traces += 1;
	ctx.stats.nonempty += 1;
	let ok = ctx.expect(|| format!("{hist:?}"), &None, || {
		let mut r = R::new(&html[0], next);
		r.add_document(&html[1]);
		for s in hist.iter() {
			apply(&mut r, s);
		}
		monitor(&w2, &r, b2, hist.len() <= 2)
	});
	if ok && hist.len() < depth {
		for s in steps(&w2, frags) {
			if enabled(&w2, &s) {
				dfs(ctx, html, next, &w2, b2, s, hist, depth, frags);
				if !ctx.live() {
					break;
				}
			}
		}
	}
	hist.pop();
}

fn family(ctx: &mut Ctx, a: &[Tree], b: &[Tree], depth: usize, frags: &[usize]) {
	for x in a {
		for y in b {
			let y = relabel(y);
			let mut w = W::new(x.clone());
			w.add_document(&y);
			let html = [x.html(), y.html()];
			for s in steps(&w, frags) {
				if !enabled(&w, &s) {
					continue;
				}
				if !ctx.case(|| format!("documents {html:?} first={s:?}")) {
					if !ctx.live() {
						return;
					}
					continue;
				}
				dfs(ctx, &html, w.next, &w, [0, 0], s, &mut vec![], depth, frags);
				if !ctx.live() {
					return;
				}
			}
		}
	}
}

pub fn run(ctx: &mut Ctx) {
	let s2 = starts(2, &[Fill::None, Fill::Text]);
	let s1 = starts(1, &[Fill::Text]);
	let n = ctx.tier.pick(2, 3);
	ctx.bound(format!("A: {} pairs of documents of <= 2 elements, with and without text: all histories of length <= 2 over insertion at 4 positions and replacement for every pair of elements of either document, removal, emptying, texts, markup, attributes, sets over both documents, rejected selectors from roots and elements; after each: both trees, taken out trees, sources, owners, queries of each and both, set operations across, 24 queries of the set over both, reports per handler", s2.len() * s2.len()));
	family(ctx, &s2, &s2, 2, &[0, 1]);
	if !ctx.live() {
		return;
	}
	ctx.bound("B: documents of <= 3 beside one of one element: all histories of length <= 2".to_string());
	let s3: Vec<Tree> = starts(3, &[Fill::None]).into_iter().skip(3).collect();
	family(ctx, &s3, &s1, 2, &[]);
	if !ctx.live() {
		return;
	}
	let tiny = starts(if n == 3 { 2 } else { 1 }, &[Fill::None]);
	ctx.bound(format!("C: {} pairs of documents: all histories of length <= 3 (without the 24 queries)", tiny.len() * tiny.len()));
	family(ctx, &tiny, &tiny, 3, &[]);
	if ctx.live() {
		several(ctx);
	}
}

/// sets over three and more documents: united in every split and order, and asked
fn several(ctx: &mut Ctx) {
	let docs = ctx.tier.pick(3, 4);
	let mut kinds = starts(2, &[Fill::None]);
	kinds.truncate(ctx.tier.pick(7, 7));
	ctx.bound(format!("D: all {docs} documents out of {} of <= 2 elements: every two subsets of all the elements, each gathered document by document in every order, united: the elements of each document once and in its order; 24 queries of all elements in every order of the documents", kinds.len()));
	for w in words(docs, kinds.len()) {
		let html: Vec<String> = w.iter().map(|&i| kinds[i].html()).collect();
		if !ctx.case(|| format!("{docs} documents {html:?}")) {
			if !ctx.live() {
				return;
			}
			continue;
		}
		ctx.state(&html);
		ctx.stats.traces += 1;
		let roots: Vec<Elements<'static>> = html.iter().map(|h| load(h)).collect();
		let alls: Vec<Vec<_>> = roots.iter().map(|r| real_elements(r.get(0).unwrap())).collect();
		// (document, element), marks are the same in each document
		let members: Vec<(usize, usize)> = alls.iter().enumerate().flat_map(|(d, a)| (0..a.len()).map(move |e| (d, e))).collect();
		let place = |e: &Elements| -> Vec<(usize, usize)> {
			e.get_ref()
				.iter()
				.map(|x| members.iter().copied().find(|&(d, i)| x.is(&alls[d][i])).unwrap_or((99, 99)))
				.collect()
		};
		// a set over some elements, document by document
		let gather = |m: u64, order: &[usize]| {
			let mut set = Elements::new();
			for &d in order {
				let part: Vec<_> = members.iter().enumerate().filter(|(b, x)| m >> b & 1 == 1 && x.0 == d).map(|(_, x)| alls[d][x.1].cloned()).collect();
				set = set.add(Elements::with_nodes(part));
			}
			set
		};
		let each_doc = |v: &[(usize, usize)]| -> Vec<Vec<usize>> { (0..docs + 1).map(|d| v.iter().filter(|x| x.0 == d || d == docs && x.0 > d).map(|x| x.1).collect()).collect() };
		let orders = permutations(docs);
		let total = 1u64 << members.len();
		for a in 0..total {
			for (oi, oa) in orders.iter().enumerate() {
				let left = gather(a, oa);
				let want = each_doc(&members.iter().enumerate().filter(|(b, _)| a >> b & 1 == 1).map(|(_, x)| *x).collect::<Vec<_>>());
				if !ctx.expect(|| format!("elements {a:b} of {members:?} gathered in the order {oa:?}"), &want, || each_doc(&place(&left))) {
					return;
				}
				for b in 0..total {
					let ob = &orders[(oi + b as usize) % orders.len()];
					let want = each_doc(&members.iter().enumerate().filter(|(x, _)| (a | b) >> x & 1 == 1).map(|(_, x)| *x).collect::<Vec<_>>());
					if !ctx.expect(|| format!("{a:b} in the order {oa:?} add {b:b} in the order {ob:?} of {members:?}"), &want, || each_doc(&place(&left.add(gather(b, ob))))) {
						return;
					}
				}
			}
		}
		for o in &orders {
			let set = gather(total - 1, o);
			for (name, ask) in ASKS {
				let want: Vec<Vec<usize>> = (0..docs)
					.map(|d| place(&ask(&gather(members.iter().enumerate().filter(|(_, x)| x.0 == d).map(|(b, _)| 1 << b).sum(), &[d]))).into_iter().map(|x| x.1).collect())
					.chain([vec![]])
					.collect();
				if want.iter().any(|v| !v.is_empty()) {
					ctx.stats.nonempty += 1;
				}
				if !ctx.expect(|| format!("{name} of the elements of all documents in the order {o:?}"), &want, || each_doc(&place(&ask(&set)))) {
					return;
				}
			}
		}
	}
}
