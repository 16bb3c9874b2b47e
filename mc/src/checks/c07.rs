//! C07: set algebra and index semantics.
use crate::engine::Ctx;
use crate::model::*;
use std::ops::Bound;
use visdom::types::{BoxDynElement, Combinator, Elements};

fn doc(ctx: &mut Ctx, t: &Tree) {
	let html = t.html();
	if !ctx.case(|| format!("html={html:?}")) {
		return;
	}
	let v = View::new(t);
	let root = load(&html);
	let r0 = root.get(0).unwrap().cloned();
	if let Some(d) = diff_tree(t, &r0) {
		ctx.fail("load", &d);
		return;
	}
	let all = real_elements(&r0);
	ctx.stats.traces += 1;
	for a in 0..=v.all() {
		let sa = subset(&all, a);
		let av = mask_vec(a);
		for b in 0..=v.all() {
			ctx.state(&(&html, a, b));
			let sb = subset(&all, b);
			let bv = mask_vec(b);
			if a & b != 0 {
				ctx.stats.nonempty += 1;
			}
			let has: Vec<usize> = bits(a).filter(|&e| v.desc[e] & b != 0).collect();
			let ok = ctx.expect(|| format!("{av:?}.add({bv:?})"), &mask_vec(a | b), || marks(&sa.add(subset(&all, b))))
				&& ctx.expect(|| format!("{av:?}.filter_in({bv:?})"), &mask_vec(a & b), || marks(&sa.filter_in(&sb)))
				&& ctx.expect(|| format!("{av:?}.not_in({bv:?})"), &mask_vec(a & !b), || marks(&sa.not_in(&sb)))
				&& ctx.expect(|| format!("{av:?}.is_in({bv:?})"), &(a & b != 0), || sa.is_in(&sb))
				&& (a == 0 || ctx.expect(|| format!("{av:?}.is_all_in({bv:?})"), &(a & !b == 0), || sa.is_all_in(&sb)))
				&& ctx.expect(|| format!("{av:?}.has_in({bv:?})"), &has, || marks(&sa.has_in(&sb)));
			if !ok {
				return;
			}
		}
		// membership by relation
		for e in 0..v.n() {
			let el = &all[e];
			let rels: [(&str, Combinator, Mask); 5] = [
				("descendant", Combinator::ChildrenAll, v.anc[e]),
				("child", Combinator::Children, v.parent_m[e]),
				("next", Combinator::Next, v.prev[e]),
				("next-all", Combinator::NextAll, v.prev_all[e]),
				("self", Combinator::Chain, 1 << e),
			];
			for (n, c, m) in rels {
				if !ctx.expect(|| format!("{av:?}.contains([{e}], {n})"), &(a & m != 0), || sa.contains(el, &c)) {
					return;
				}
			}
		}
		indexes(ctx, &sa, &av);
		if !ctx.live() {
			return;
		}
	}
}

fn opt(e: Option<&BoxDynElement>) -> Option<usize> {
	e.map(|x| mark(x))
}

fn indexes(ctx: &mut Ctx, s: &Elements<'static>, av: &[usize]) {
	let n = av.len();
	let ok = ctx.expect(|| format!("{av:?}.length"), &n, || s.length())
		&& ctx.expect(|| format!("{av:?}.is_empty"), &(n == 0), || s.is_empty())
		&& ctx.expect(|| format!("{av:?}.first"), &av.first().copied().into_iter().collect(), || marks(&s.first()))
		&& ctx.expect(|| format!("{av:?}.last"), &av.last().copied().into_iter().collect(), || marks(&s.last()))
		&& ctx.expect(|| format!("{av:?}.map"), &av.iter().copied().enumerate().collect::<Vec<_>>(), || s.map(|i, e| (i, mark(e))))
		&& ctx.expect(|| format!("{av:?}.cloned"), &av.to_vec(), || marks(&s.cloned()))
		&& ctx.expect(|| format!("{av:?}.into_iter"), &av.to_vec(), || s.cloned().into_iter().map(|e| mark(&e)).collect::<Vec<_>>());
	if !ok {
		return;
	}
	// for_each stops after the first `false`
	for stop in 0..=n {
		let want: Vec<(usize, usize)> = av.iter().copied().enumerate().take(stop + 1).collect();
		if !ctx.expect(|| format!("{av:?}.for_each until {stop}"), &want, || {
			let mut seen = vec![];
			let mut c = s.cloned();
			c.for_each(|i, e| {
				seen.push((i, mark(e)));
				i != stop
			});
			seen
		}) {
			return;
		}
	}
	let mut idx: Vec<usize> = (0..=n + 2).collect();
	idx.push(usize::MAX - 1);
	idx.push(usize::MAX);
	for &i in &idx {
		let w: Vec<usize> = av.get(i).copied().into_iter().collect();
		if !(ctx.expect(|| format!("{av:?}.eq({i})"), &w, || marks(&s.eq(i)))
			&& ctx.expect(|| format!("{av:?}.get({i})"), &av.get(i).copied(), || opt(s.get(i))))
		{
			return;
		}
	}
	let mut starts = vec![Bound::Unbounded];
	let mut ends = vec![Bound::Unbounded];
	for &i in &idx {
		starts.push(Bound::Included(i));
		starts.push(Bound::Excluded(i));
		ends.push(Bound::Included(i));
		ends.push(Bound::Excluded(i));
	}
	for st in &starts {
		for en in &ends {
			let want: Vec<usize> = (0..n)
				.filter(|&i| match *st {
					Bound::Unbounded => true,
					Bound::Included(x) => i >= x,
					Bound::Excluded(x) => i > x,
				})
				.filter(|&i| match *en {
					Bound::Unbounded => true,
					Bound::Included(x) => i <= x,
					Bound::Excluded(x) => i < x,
				})
				.map(|i| av[i])
				.collect();
			if !ctx.expect(|| format!("{av:?}.slice({st:?}, {en:?})"), &want, || marks(&s.slice((*st, *en)))) {
				return;
			}
		}
	}
	for &i in &idx[..n + 2] {
		let w: Vec<usize> = av.iter().copied().skip(i).collect();
		let w2: Vec<usize> = av.iter().copied().take(i).collect();
		if !(ctx.expect(|| format!("{av:?}.slice({i}..)"), &w, || marks(&s.slice(i..)))
			&& ctx.expect(|| format!("{av:?}.slice(..{i})"), &w2, || marks(&s.slice(..i))))
		{
			return;
		}
	}
}

pub fn run(ctx: &mut Ctx) {
	let n1 = ctx.tier.pick(6, 7);
	ctx.bound(format!("all shapes of <= {n1} elements (with and without text between) x every pair of member sets x 6 set operations, 5 membership relations, every index and every pair of range bounds"));
	for n in 0..=n1 {
		for (i, shape) in forests(n).into_iter().enumerate() {
			let t = build(&shape, |i| if i % 2 == 0 { ("a", vec![]) } else { ("b", vec![]) }, [Fill::None, Fill::Text, Fill::Mixed][i % 3]);
			doc(ctx, &t);
			if !ctx.live() {
				return;
			}
		}
	}
	// wide and deep
	let w = ctx.tier.pick(8, 10);
	ctx.bound(format!("a flat and a nested document of {w} elements x every pair of member sets"));
	let flat = vec![usize::MAX; w];
	let deep: Vec<usize> = (0..w).map(|i| if i == 0 { usize::MAX } else { i - 1 }).collect();
	let comb: Vec<usize> = (0..w).map(|i| if i == 0 { usize::MAX } else { (i - 1) / 2 * 2 }).collect();
	for s in [flat, deep, comb] {
		let t = build(&s, |_| ("a", vec![]), Fill::None);
		doc(ctx, &t);
		if !ctx.live() {
			return;
		}
	}
	if ctx.live() {
		crate::big::c07(ctx);
	}
	if ctx.live() {
		orders(ctx);
	}
}

/// all sequences of distinct numbers below n
pub fn sequences(n: usize) -> Vec<Vec<usize>> {
	let mut out = vec![vec![]];
	let mut i = 0;
	while i < out.len() {
		for x in 0..n {
			if !out[i].contains(&x) {
				let mut w = out[i].clone();
				w.push(x);
				out.push(w);
			}
		}
		i += 1;
	}
	out
}

/// sets whose members are not in document order
fn orders(ctx: &mut Ctx) {
	let n1 = ctx.tier.pick(4, 5);
	ctx.bound(format!("all shapes of <= {n1} elements x every pair of sequences of distinct members in any order: intersection, difference, membership and index operations"));
	for n in 2..=n1 {
		for shape in forests(n) {
			let t = build(&shape, |i| if i % 2 == 0 { ("a", vec![]) } else { ("b", vec![]) }, Fill::None);
			let html = t.html();
			if !ctx.case(|| format!("html={html:?} orders")) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			let root = load(&html);
			let all = real_elements(&root.get(0).unwrap().cloned());
			let make = |w: &[usize]| Elements::with_nodes(w.iter().map(|&i| all[i].cloned()).collect());
			let seqs = sequences(n);
			ctx.stats.traces += 1;
			for a in &seqs {
				let sa = make(a);
				for b in &seqs {
					ctx.state(&(&html, a, b));
					let sb = make(b);
					let (inb, out): (Vec<usize>, Vec<usize>) = a.iter().partition(|x| b.contains(x));
					if !inb.is_empty() {
						ctx.stats.nonempty += 1;
					}
					let ok = ctx.expect(|| format!("{a:?}.filter_in({b:?})"), &inb, || marks(&sa.filter_in(&sb)))
						&& ctx.expect(|| format!("{a:?}.not_in({b:?})"), &out, || marks(&sa.not_in(&sb)))
						&& ctx.expect(|| format!("{a:?}.is_in({b:?})"), &!inb.is_empty(), || sa.is_in(&sb))
						&& (a.is_empty() || ctx.expect(|| format!("{a:?}.is_all_in({b:?})"), &out.is_empty(), || sa.is_all_in(&sb)));
					if !ok {
						return;
					}
				}
				indexes(ctx, &sa, a);
				if !ctx.live() {
					return;
				}
			}
		}
	}
}
