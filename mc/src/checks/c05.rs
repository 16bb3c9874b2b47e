//! C05: filter / not / is / is_all / has / closest and the closure variants.
use crate::engine::Ctx;
use crate::model::*;
use crate::sel::*;

pub fn pool() -> Vec<Sel> {
	use Simple::*;
	let one = |v: Vec<Simple>| -> Sel { v.into() };
	let mut v = vec![
		one(vec![Any]),
		one(vec![tag("a")]),
		one(vec![class("x")]),
		one(vec![id("i")]),
		one(vec![tag("a"), class("x")]),
		one(vec![attr("t", "=", "1")]),
		one(vec![tag("zz")]),
		one(vec![Kw(":first-child")]),
		one(vec![Kw(":only-child")]),
		one(vec![Kw(":empty")]),
		one(vec![Nth(true, false, 2, 1)]),
		one(vec![Nth(false, true, 0, 2)]),
		one(vec![tag("a"), Kw(":last-of-type")]),
		one(vec![Not(vec![class("x")].into())]),
		one(vec![Has(vec![tag("b")].into())]),
	];
	for c in COMBS {
		v.push(chain(vec![tag("a")], vec![(c, vec![Any])]).into());
		v.push(chain(vec![Any], vec![(c, vec![class("x")])]).into());
		v.push(chain(vec![tag("b")], vec![(c, vec![Kw(":last-child")])]).into());
	}
	for c in COMBS {
		for d in COMBS {
			v.push(chain(vec![tag("a")], vec![(c, vec![Any]), (d, vec![Any])]).into());
		}
	}
	v.push(Sel(vec![vec![tag("a")].into(), vec![id("i")].into()]));
	v.push(Sel(vec![vec![class("x")].into(), chain(vec![tag("a")], vec![(Comb::Child, vec![tag("b")])])]));
	v.push(Sel(vec![chain(vec![tag("b")], vec![(Comb::Sib, vec![Any])]), vec![tag("a"), class("x")].into(), vec![tag("zz")].into()]));
	v
}

pub fn labels() -> Vec<(&'static str, Vec<(&'static str, &'static str)>)> {
	vec![("a", vec![]), ("b", vec![("class", "x")]), ("a", vec![("class", "y x"), ("t", "1")]), ("b", vec![("id", "i")])]
}

fn doc(ctx: &mut Ctx, t: &Tree, q: &[(Sel, String)]) {
	let html = t.html();
	if !ctx.case(|| format!("html={html:?}")) {
		return;
	}
	let v = View::new(t);
	let root = load(&html);
	let r0 = root.get(0).unwrap().cloned();
	if let Some(d) = diff_tree(t, &r0) {
		ctx.fail("load", &d);
		return;
	}
	let all = real_elements(&r0);
	ctx.stats.traces += 1;
	let masks: Vec<Mask> = q.iter().map(|(s, _)| s.matched_in_doc(&v)).collect();
	for set in 0..=v.all() {
		ctx.state(&(&html, set));
		let s = subset(&all, set);
		let sv = mask_vec(set);
		for ((_, txt), &m) in q.iter().zip(&masks) {
			if set & m != 0 {
				ctx.stats.nonempty += 1;
			}
			if !(ctx.expect(|| format!("{sv:?}.filter({txt:?})"), &mask_vec(set & m), || marks(&s.filter(txt)))
				&& ctx.expect(|| format!("{sv:?}.not({txt:?})"), &mask_vec(set & !m), || marks(&s.not(txt)))
				&& ctx.expect(|| format!("{sv:?}.is({txt:?})"), &(set & m != 0), || s.is(txt)))
			{
				return;
			}
			if set != 0 && !ctx.expect(|| format!("{sv:?}.is_all({txt:?})"), &(set & !m == 0), || s.is_all(txt)) {
				return;
			}
			let has = bits(set).filter(|&e| v.desc[e] & m != 0).collect::<Vec<_>>();
			if !ctx.expect(|| format!("{sv:?}.has({txt:?})"), &has, || marks(&s.has(txt))) {
				return;
			}
			let mut cl: Mask = 0;
			for e in bits(set) {
				let chain = (v.anc[e] | 1 << e) & m;
				if chain != 0 {
					// the nearest ancestor is the latest in document order
					cl |= 1 << (63 - chain.leading_zeros());
				}
			}
			if !ctx.expect(|| format!("{sv:?}.closest({txt:?})"), &mask_vec(cl), || marks(&s.closest(txt))) {
				return;
			}
		}
		// closures: every predicate on the members
		for p in 0..=v.all() {
			let f = |_: usize, e: &visdom::types::BoxDynElement| p >> mark(e) & 1 == 1;
			if !(ctx.expect(|| format!("{sv:?}.filter_by({p:b})"), &mask_vec(set & p), || marks(&s.filter_by(f)))
				&& ctx.expect(|| format!("{sv:?}.not_by({p:b})"), &mask_vec(set & !p), || marks(&s.not_by(f)))
				&& ctx.expect(|| format!("{sv:?}.is_by({p:b})"), &(set & p != 0), || s.is_by(f))
				&& ctx.expect(|| format!("{sv:?}.is_all_by({p:b})"), &(set & !p == 0), || s.is_all_by(f)))
			{
				return;
			}
			// predicates on the position in the set
			let fi = |i: usize, _: &visdom::types::BoxDynElement| p >> i & 1 == 1;
			let pos: Vec<usize> = sv.iter().enumerate().filter(|(i, _)| p >> i & 1 == 1).map(|(_, &e)| e).collect();
			let neg: Vec<usize> = sv.iter().enumerate().filter(|(i, _)| p >> i & 1 == 0).map(|(_, &e)| e).collect();
			if !(ctx.expect(|| format!("{sv:?}.filter_by(index in {p:b})"), &pos, || marks(&s.filter_by(fi)))
				&& ctx.expect(|| format!("{sv:?}.not_by(index in {p:b})"), &neg, || marks(&s.not_by(fi)))
				&& ctx.expect(|| format!("{sv:?}.is_by(index in {p:b})"), &!pos.is_empty(), || s.is_by(fi))
				&& ctx.expect(|| format!("{sv:?}.is_all_by(index in {p:b})"), &neg.is_empty(), || s.is_all_by(fi)))
			{
				return;
			}
		}
	}
}

pub fn run(ctx: &mut Ctx) {
	let sps = [Sp::Normal, Sp::Tight, Sp::Wide];
	let q: Vec<(Sel, String)> = pool().into_iter().enumerate().map(|(i, s)| { let t = s.text(sps[i % 3]); (s, t) }).collect();
	let lb = labels();
	let n1 = ctx.tier.pick(4, 5);
	ctx.bound(format!("all labelled trees of <= {n1} elements over {} labels x every member set x {} selectors x filter/not/is/is_all/has/closest, and every predicate for the closure forms", lb.len(), q.len()));
	for n in 1..=n1 {
		for shape in forests(n) {
			for w in words(n, lb.len()) {
				let fill = [Fill::None, Fill::Text, Fill::Mixed][w.iter().sum::<usize>() % 3];
				let t = build(&shape, |i| lb[w[i]].clone(), fill);
				doc(ctx, &t, &q);
				if !ctx.live() {
					return;
				}
			}
		}
	}
	let n2 = ctx.tier.pick(6, 7);
	ctx.bound(format!("all shapes of <= {n2} elements with two labellings x every member set x the same queries"));
	for n in n1 + 1..=n2 {
		for shape in forests(n) {
			for k in 0..2 {
				let t = build(&shape, |i| lb[(i * (k + 1) + k) % 3].clone(), Fill::None);
				doc(ctx, &t, &q);
				if !ctx.live() {
					return;
				}
			}
		}
	}
	if ctx.live() {
		crate::big::c05(ctx);
	}
}
