//! C06: traversal methods.
use crate::engine::Ctx;
use crate::model::*;
use crate::sel::*;
use visdom::types::Elements;

fn filters() -> Vec<Sel> {
	use Simple::*;
	let one = |v: Vec<Simple>| -> Sel { v.into() };
	vec![
		one(vec![Any]),
		one(vec![tag("a")]),
		one(vec![class("x")]),
		one(vec![tag("b"), class("x")]),
		one(vec![id("i")]),
		one(vec![Kw(":first-child")]),
		one(vec![Nth(true, false, 2, 0)]),
		one(vec![Not(vec![class("x")].into())]),
		one(vec![Has(vec![Any].into())]),
		one(vec![tag("zz")]),
		Sel(vec![vec![tag("b")].into(), vec![class("x")].into()]),
		Sel(vec![vec![id("i")].into(), vec![tag("a")].into()]),
	]
}

type Rel = (&'static str, fn(&View, Mask) -> Mask, fn(&Elements<'static>, &str) -> Elements<'static>);

fn rels() -> Vec<Rel> {
	vec![
		("children", |v, s| v.map(s, &v.kids), |e, f| e.children(f)),
		("parent", |v, s| v.map(s, &v.parent_m), |e, f| e.parent(f)),
		("parents", |v, s| v.map(s, &v.anc), |e, f| e.parents(f)),
		("next", |v, s| v.map(s, &v.next), |e, f| e.next(f)),
		("next_all", |v, s| v.map(s, &v.next_all), |e, f| e.next_all(f)),
		("prev", |v, s| v.map(s, &v.prev), |e, f| e.prev(f)),
		("prev_all", |v, s| v.map(s, &v.prev_all), |e, f| e.prev_all(f)),
		("siblings", |v, s| bits(s).fold(0, |m, e| m | (v.siblings_incl(e) & !(1 << e))), |e, f| e.siblings(f)),
	]
}

type Until = (&'static str, fn(&View, usize) -> Vec<usize>, fn(&Elements<'static>, &str, &str, bool) -> Elements<'static>);

fn untils() -> Vec<Until> {
	vec![
		("next_until", |v, e| bits(v.next_all[e]).collect(), |e, b, f, c| e.next_until(b, f, c)),
		(
			"prev_until",
			|v, e| {
				let mut x: Vec<usize> = bits(v.prev_all[e]).collect();
				x.reverse();
				x
			},
			|e, b, f, c| e.prev_until(b, f, c),
		),
		(
			"parents_until",
			|v, e| {
				let mut x: Vec<usize> = bits(v.anc[e]).collect();
				x.reverse();
				x
			},
			|e, b, f, c| e.parents_until(b, f, c),
		),
	]
}

fn doc(ctx: &mut Ctx, t: &Tree, fs: &[(Sel, String)], nb: usize, nf: usize) {
	let html = t.html();
	if !ctx.case(|| format!("html={html:?}")) {
		return;
	}
	let v = View::new(t);
	let root = load(&html);
	let r0 = root.get(0).unwrap().cloned();
	if let Some(d) = diff_tree(t, &r0) {
		ctx.fail("load", &d);
		return;
	}
	let all = real_elements(&r0);
	ctx.stats.traces += 1;
	let mut q: Vec<(Mask, &str)> = vec![(v.all(), "")];
	q.extend(fs.iter().map(|(s, t)| (s.matched_in_doc(&v), t.as_str())));
	// the root set: its children are the top-level elements, it has no other relation
	for (m, txt) in &q {
		if !ctx.expect(|| format!("root.children({txt:?})"), &mask_vec(v.top & m), || marks(&root.children(txt))) {
			return;
		}
	}
	for set in 0..=v.all() {
		ctx.state(&(&html, set));
		let s = subset(&all, set);
		let sv = mask_vec(set);
		for (name, rel, real) in rels() {
			let base = rel(&v, set);
			for (m, txt) in &q {
				if base & m != 0 {
					ctx.stats.nonempty += 1;
				}
				if !ctx.expect(|| format!("{sv:?}.{name}({txt:?})"), &mask_vec(base & m), || marks(&real(&s, txt))) {
					return;
				}
			}
		}
		for (name, walk, real) in untils() {
			for (bm, btxt) in &q[..nb] {
				// an empty boundary never stops
				let bm = if btxt.is_empty() { 0 } else { *bm };
				for (fm, ftxt) in &q[..nf] {
					for contains in [false, true] {
						let mut want = 0;
						for e in bits(set) {
							for x in walk(&v, e) {
								if bm >> x & 1 == 1 {
									if contains {
										want |= 1 << x;
									}
									break;
								}
								want |= 1 << x;
							}
						}
						want &= fm;
						if want != 0 {
							ctx.stats.nonempty += 1;
						}
						if !ctx.expect(
							|| format!("{sv:?}.{name}({btxt:?}, {ftxt:?}, {contains})"),
							&mask_vec(want),
							|| marks(&real(&s, btxt, ftxt, contains)),
						) {
							return;
						}
					}
				}
			}
		}
	}
	// single-element accessors
	for e in 0..v.n() {
		let el = &all[e];
		let one = |m: Mask| if m == 0 { None } else { Some(m.trailing_zeros() as usize) };
		let ok = ctx.expect(|| format!("[{e}].next_element_sibling"), &one(v.next[e]), || el.next_element_sibling().map(|x| mark(&x)))
			&& ctx.expect(|| format!("[{e}].previous_element_sibling"), &one(v.prev[e]), || el.previous_element_sibling().map(|x| mark(&x)))
			&& ctx.expect(|| format!("[{e}].next_element_siblings"), &mask_vec(v.next_all[e]), || marks(&el.next_element_siblings()))
			&& ctx.expect(|| format!("[{e}].previous_element_siblings"), &mask_vec(v.prev_all[e]), || marks(&el.previous_element_siblings()))
			&& ctx.expect(|| format!("[{e}].siblings"), &mask_vec(v.siblings_incl(e) & !(1 << e)), || marks(&el.siblings()))
			&& ctx.expect(|| format!("[{e}].children"), &mask_vec(v.kids[e]), || marks(&el.children()))
			&& ctx.expect(|| format!("[{e}].children_by"), &mask_vec(v.kids[e]), || {
				let mut out = vec![];
				el.children_by(Box::new(|x| out.push(x.get_attribute("k").map_or(9998, |v| v.to_string().parse().unwrap_or(9999)))));
				out
			})
			&& ctx.expect(|| format!("[{e}].child nodes"), &t.nodes[v.ids[e]].kids.len(), || {
				let n = el.child_nodes_length();
				let some = (0..n).filter(|&i| el.child_nodes_item(i).map_or(false, |x| x.index() == i)).count();
				if some == n && el.child_nodes_item(n).is_none() && el.child_nodes_item(n + 7).is_none() && !el.is_root_element() {
					n
				} else {
					9999
				}
			});
		if !ok {
			return;
		}
	}
}

pub fn run(ctx: &mut Ctx) {
	let fs: Vec<(Sel, String)> = filters().into_iter().map(|s| { let t = s.text(Sp::Normal); (s, t) }).collect();
	let lb = super::c05::labels();
	let n1 = ctx.tier.pick(4, 5);
	ctx.bound(format!("all labelled trees of <= {n1} elements over {} labels x every member set (also the empty one) x 8 relations x {} selectors, 3 until-forms x 8 boundaries x 5 filters x 2", lb.len(), fs.len() + 1));
	for n in 1..=n1 {
		for shape in forests(n) {
			for w in words(n, lb.len()) {
				let fill = [Fill::None, Fill::Text, Fill::Mixed][w.iter().sum::<usize>() % 3];
				let t = build(&shape, |i| lb[w[i]].clone(), fill);
				doc(ctx, &t, &fs, 8, 5);
				if !ctx.live() {
					return;
				}
			}
		}
	}
	let n2 = ctx.tier.pick(6, 7);
	ctx.bound(format!("all shapes of <= {n2} elements with two labellings x every member set"));
	for n in n1 + 1..=n2 {
		for shape in forests(n) {
			for k in 0..2 {
				let t = build(&shape, |i| lb[(i * (k + 1) + k) % 3].clone(), if k == 0 { Fill::None } else { Fill::Mixed });
				doc(ctx, &t, &fs, 5, 4);
				if !ctx.live() {
					return;
				}
			}
		}
	}
	if ctx.live() {
		crate::big::c06(ctx);
	}
}
