//! C01: searching returns exactly the matching descendants, once, in document order.
use crate::engine::{Ctx, Tier};
use crate::model::*;
use crate::sel::*;

type Label = (&'static str, Vec<(&'static str, &'static str)>);

pub fn labels() -> Vec<Label> {
	vec![
		("a", vec![]),
		("b", vec![("class", "x")]),
		("a", vec![("class", "x y"), ("t", "1")]),
		("b", vec![("id", "i")]),
		("a", vec![("id", "j"), ("class", "y x")]),
	]
}

fn compounds() -> Vec<Compound> {
	vec![
		vec![Simple::Any],
		vec![tag("a")],
		vec![class("x")],
		vec![id("i")],
		vec![tag("a"), class("x")],
		vec![tag("b")],
		vec![attr("t", "", "")],
		vec![class("x"), class("y")],
		vec![tag("b"), id("i")],
		vec![attr("id", "=", "i"), id("i")],
		vec![class("y"), attr("t", "=", "1")],
		vec![attr("t", "=", "1"), class("x"), Simple::Any],
		vec![tag("A")],
	]
}

/// complex selector by compound indices
#[derive(Clone)]
struct Ix {
	parts: Vec<(Comb, usize)>,
	lead: bool,
}

fn to_sel(cs: &[Compound], groups: &[Ix]) -> Sel {
	Sel(groups
		.iter()
		.map(|g| Complex {
			lead: if g.lead { Some(g.parts[0].0) } else { None },
			first: cs[g.parts[0].1].clone(),
			rest: g.parts[1..].iter().map(|(c, i)| (*c, cs[*i].clone())).collect(),
		})
		.collect())
}

fn eval(v: &View, masks: &[Mask], groups: &[Ix], start: Start) -> Mask {
	let mut r = 0;
	for g in groups {
		let mut cur = step(v, start, g.parts[0].0) & masks[g.parts[0].1];
		for (c, i) in &g.parts[1..] {
			if cur == 0 {
				break;
			}
			cur = step(v, Start { root: false, set: cur }, *c) & masks[*i];
		}
		r |= cur;
	}
	r
}

struct Query {
	text: String,
	ix: Vec<Ix>,
}

fn q(cs: &[Compound], ix: Vec<Ix>, sp: Sp) -> Query {
	Query { text: to_sel(cs, &ix).text(sp), ix }
}

/// families of selectors, by size
fn queries(cs: &[Compound], three: &[usize], groups: bool) -> Vec<Query> {
	let mut v = vec![];
	let n = cs.len();
	let one = |i: usize| Ix { parts: vec![(Comb::Desc, i)], lead: false };
	for i in 0..n {
		v.push(q(cs, vec![one(i)], Sp::Normal));
		for c in [Comb::Child, Comb::Adj, Comb::Sib] {
			v.push(q(cs, vec![Ix { parts: vec![(c, i)], lead: true }], Sp::Normal));
		}
	}
	let sps = [Sp::Normal, Sp::Tight, Sp::Wide];
	let mut k = 0;
	for i in 0..n {
		for c in COMBS {
			for j in 0..n {
				k += 1;
				v.push(q(cs, vec![Ix { parts: vec![(Comb::Desc, i), (c, j)], lead: false }], sps[k % 3]));
			}
		}
	}
	for &i in three {
		for c in COMBS {
			for &j in three {
				for d in COMBS {
					for &l in three {
						k += 1;
						v.push(q(cs, vec![Ix { parts: vec![(Comb::Desc, i), (c, j), (d, l)], lead: false }], sps[k % 3]));
					}
				}
			}
		}
	}
	// leading combinator followed by another step
	for c in [Comb::Child, Comb::Adj, Comb::Sib] {
		for d in COMBS {
			for &i in three {
				for &j in three {
					v.push(q(cs, vec![Ix { parts: vec![(c, i), (d, j)], lead: true }], Sp::Normal));
				}
			}
		}
	}
	if groups {
		let pool: Vec<Ix> = vec![
			one(1),
			one(2),
			one(3),
			one(5),
			Ix { parts: vec![(Comb::Desc, 1), (Comb::Child, 0)], lead: false },
			Ix { parts: vec![(Comb::Desc, 0), (Comb::Adj, 2)], lead: false },
			Ix { parts: vec![(Comb::Desc, 5), (Comb::Desc, 0)], lead: false },
			Ix { parts: vec![(Comb::Desc, 3), (Comb::Sib, 0)], lead: false },
			Ix { parts: vec![(Comb::Desc, 1), (Comb::Desc, 3)], lead: false },
		];
		for a in &pool {
			for b in &pool {
				k += 1;
				v.push(q(cs, vec![a.clone(), b.clone()], sps[k % 3]));
			}
		}
		for a in &pool[..5] {
			for b in &pool[..5] {
				for c in &pool[..5] {
					v.push(q(cs, vec![a.clone(), b.clone(), c.clone()], Sp::Normal));
				}
			}
		}
	}
	v
}

/// all chains of `n` compounds from `pool`
fn chains(cs: &[Compound], n: usize, pool: &[usize]) -> Vec<Query> {
	let mut v = vec![];
	for w in words(n, pool.len()) {
		for c in words(n - 1, 4) {
			let mut parts = vec![(Comb::Desc, pool[w[0]])];
			for i in 1..n {
				parts.push((COMBS[c[i - 1]], pool[w[i]]));
			}
			v.push(q(cs, vec![Ix { parts, lead: false }], Sp::Normal));
		}
	}
	v
}

/// a list, a list inside one element, a chain, a comb, and a chain ending in a list
pub fn big_shapes(n: usize) -> Vec<Vec<usize>> {
	let top = usize::MAX;
	vec![
		vec![top; n],
		(0..n).map(|i| if i == 0 { top } else { 0 }).collect(),
		(0..n).map(|i| if i == 0 { top } else { i - 1 }).collect(),
		(0..n).map(|i| if i == 0 { top } else { (i - 1) / 2 * 2 }).collect(),
		(0..n).map(|i| if i == 0 { top } else { (i - 1).min(n / 2) }).collect(),
	]
}

fn big_tree(ctx: &mut Ctx, t: &Tree, cs: &[Compound], qs: &[Query]) {
	let html = t.html();
	if !ctx.case(|| format!("html={html:?}")) {
		return;
	}
	ctx.state(&html);
	let v = View::new(t);
	let masks: Vec<Mask> = cs.iter().map(|c| compound_mask(c, &v)).collect();
	let root = load(&html);
	let r0 = root.get(0).unwrap().cloned();
	if let Some(d) = diff_tree(t, &r0) {
		ctx.fail("load", &d);
		return;
	}
	let all = real_elements(&r0);
	ctx.stats.traces += 1;
	let n = v.n();
	let mut sets: Vec<Mask> = vec![0];
	for i in 0..n {
		sets.push(1 << i);
		sets.push(((1 << n) - 1) & !((1 << i) - 1));
	}
	sets.push(0x5555_5555_5555_5555 & v.all());
	for set in sets {
		let s = if set == 0 { root.cloned() } else { subset(&all, set) };
		ctx.state(&(&html, set));
		for qu in qs {
			let want = eval(&v, &masks, &qu.ix, Start { root: set == 0, set });
			if want != 0 {
				ctx.stats.nonempty += 1;
			}
			let w = mask_vec(want);
			if !ctx.expect(|| format!("{:?}.find({:?})", mask_vec(set), qu.text), &w, || marks(&s.find(&qu.text))) {
				return;
			}
		}
	}
}

fn one_tree(ctx: &mut Ctx, t: &Tree, cs: &[Compound], qs: &[Query], all_starts: bool) {
	let html = t.html();
	if !ctx.case(|| format!("html={html:?}")) {
		return;
	}
	ctx.state(&html);
	let v = View::new(t);
	let masks: Vec<Mask> = cs.iter().map(|c| compound_mask(c, &v)).collect();
	let root = load(&html);
	let r0 = root.get(0).unwrap().cloned();
	if let Some(d) = diff_tree(t, &r0) {
		ctx.fail("load", &d);
		return;
	}
	let all = real_elements(&r0);
	ctx.stats.traces += 1;
	for qu in qs {
		let want = eval(&v, &masks, &qu.ix, Start { root: true, set: 0 });
		if want != 0 {
			ctx.stats.nonempty += 1;
		}
		let w = mask_vec(want);
		if !ctx.expect(|| format!("root.find({:?})", qu.text), &w, || marks(&root.find(&qu.text))) {
			return;
		}
	}
	if all_starts {
		for set in 1..=v.all() {
			ctx.state(&(&html, set));
			let s = subset(&all, set);
			for qu in qs {
				let want = eval(&v, &masks, &qu.ix, Start { root: false, set });
				if want != 0 {
					ctx.stats.nonempty += 1;
				}
				let w = mask_vec(want);
				if !ctx.expect(|| format!("{:?}.find({:?})", mask_vec(set), qu.text), &w, || marks(&s.find(&qu.text))) {
					return;
				}
			}
		}
	}
}

pub fn run(ctx: &mut Ctx) {
	let cs = compounds();
	let lb = labels();
	// A: rich labels, rich selectors, from the root
	let full = queries(&cs, &[0, 1, 2, 3], true);
	let small = queries(&cs[..5], &[0, 2], false);
	let na = ctx.tier.pick(3, 4);
	ctx.bound(format!("A: all labelled trees of <= {na} elements over {} labels x {} selectors, from the root", lb.len(), full.len()));
	for n in 0..=na {
		for shape in forests(n) {
			for w in words(n, lb.len()) {
				let fill = match w.iter().sum::<usize>() % 3 {
					0 => Fill::None,
					1 => Fill::Text,
					_ => Fill::Mixed,
				};
				let t = build(&shape, |i| lb[w[i]].clone(), fill);
				one_tree(ctx, &t, &cs, &full, false);
				if !ctx.live() {
					return;
				}
			}
		}
	}
	// B: all starting sets
	let nb = ctx.tier.pick(3, 4);
	ctx.bound(format!("B: all labelled trees of <= {nb} elements x every non-empty starting set x {} selectors", small.len()));
	for n in 1..=nb {
		for shape in forests(n) {
			for w in words(n, 4) {
				let t = build(&shape, |i| lb[w[i]].clone(), if w[0] % 2 == 0 { Fill::None } else { Fill::Mixed });
				one_tree(ctx, &t, &cs[..5], &small, true);
				if !ctx.live() {
					return;
				}
			}
		}
	}
	// C: larger shapes, few labels
	let lo: Vec<usize> = vec![0, 2];
	let mid = queries(&cs[..3], &lo, true_groups());
	let nc = ctx.tier.pick(6, 7);
	ctx.bound(format!("C: all shapes of <= {nc} elements with 2 labels x {} selectors, from the root", mid.len()));
	for n in 4..=nc {
		for shape in forests(n) {
			for w in words(n, 2) {
				let t = build(&shape, |i| lb[w[i]].clone(), if w[0] == 0 { Fill::None } else { Fill::Text });
				one_tree(ctx, &t, &cs[..3], &mid, false);
				if !ctx.live() {
					return;
				}
			}
		}
	}
	// D: unlabelled shapes x all starting sets
	let tiny = queries(&cs[..2], &[0], false);
	let nd = ctx.tier.pick(5, 6);
	ctx.bound(format!("D: all shapes of <= {nd} elements x every non-empty starting set x {} selectors", tiny.len()));
	for n in 4..=nd {
		for shape in forests(n) {
			let t = build(&shape, |i| lb[i % 2].clone(), Fill::None);
			one_tree(ctx, &t, &cs[..2], &tiny, true);
			if !ctx.live() {
				return;
			}
		}
	}
	// E: long chains of compounds
	let four = chains(&cs, 4, &[1, 2]);
	let n4 = ctx.tier.pick(4, 5);
	ctx.bound(format!("E: all shapes of 3..={n4} elements with 2 labels x every non-empty starting set x all {} chains of 4 compounds", four.len()));
	for n in 3..=n4 {
		for shape in forests(n) {
			for w in words(n, 2) {
				let t = build(&shape, |i| lb[w[i] * 2].clone(), Fill::None);
				one_tree(ctx, &t, &cs[..3], &four, true);
				if !ctx.live() {
					return;
				}
			}
		}
	}
	let mut five = chains(&cs, 5, &[0, 2]);
	five.extend(chains(&cs, 4, &[0, 2]));
	let n5 = ctx.tier.pick(5, 6);
	ctx.bound(format!("E2: all shapes of 5..={n5} elements with the .x labels all over, on every second element, or only on the last x all {} chains of 4 and 5 compounds, from the root", five.len()));
	for n in 5..=n5 {
		for shape in forests(n) {
			for k in 0..3 {
				let t = build(&shape, |i| lb[if [true, i % 2 == 0, i == n - 1][k] { 2 } else { 0 }].clone(), Fill::None);
				one_tree(ctx, &t, &cs[..3], &five, false);
				if !ctx.live() {
					return;
				}
			}
		}
	}
	// F: long lists, deep chains, combs
	let nf = ctx.tier.pick(14, 24);
	ctx.bound(format!("F: lists, chains and combs of 8..={nf} elements, labels periodic with period <= 3, x {} selectors, from the root, every single element, and runs of elements", mid.len()));
	for n in (8..=nf).step_by(2) {
		for shape in big_shapes(n) {
			for p in 1..=3usize {
				for w in words(p, 3) {
					let t = build(&shape, |i| lb[w[i % p]].clone(), if p == 2 { Fill::Text } else { Fill::None });
					big_tree(ctx, &t, &cs[..3], &mid);
					if !ctx.live() {
						return;
					}
				}
			}
		}
	}
	if ctx.tier == Tier::Thorough {
		ctx.bound("thorough adds one element to every family");
	}
	if ctx.live() {
		crate::big::c01(ctx);
	}
	if ctx.live() {
		crate::big::long_selectors(ctx);
	}
}

fn true_groups() -> bool {
	false
}
