//! C02: positional pseudo-classes = An+B arithmetic, for every spelling and query route.
use crate::engine::Ctx;
use crate::model::*;
use crate::sel::*;

/// every accepted spelling of An+B
fn spellings(a: i64, b: i64) -> Vec<String> {
	let mut v = vec![nth_text(a, b)];
	if a == 0 {
		if b >= 0 {
			v.push(format!("+{b}"));
		}
		let sg = if b < 0 { '-' } else { '+' };
		v.push(format!("0n{sg}{}", b.abs()));
	} else {
		let sg = if b < 0 { '-' } else { '+' };
		v.push(format!("{a}n {sg} {}", b.abs()));
		if a > 0 {
			v.push(format!("+{a}n{sg}{}", b.abs()));
		}
		if a.abs() == 1 {
			v.push(format!("{}n{sg}{}", if a < 0 { "-" } else { "+" }, b.abs()));
		}
		if a == 2 && b == 0 {
			v.push("even".into());
		}
		if a == 2 && b == 1 {
			v.push("odd".into());
		}
	}
	v
}

pub fn run(ctx: &mut Ctx) {
	let maxn = ctx.tier.pick(5, 7);
	let r = ctx.tier.pick(7i64, 10);
	let mut nths = vec![];
	for a in -r..=r {
		for b in -r - 1..=r + 1 {
			nths.push((a, b));
		}
	}
	for (a, b) in [(1000, -1), (-1000, 3), (3, 1000), (-1, 1000), (1, -1000), (0, 100), (100, 2), (12, -11), (-12, 24), (10, -19)] {
		nths.push((a, b));
	}
	ctx.bound(format!("all sibling lists of 0..={maxn} elements over tags {{a,b}} x 3 interleavings with text/comments x |A|<={r}, |B|<={} and large values x 4 pseudo-classes x spellings x routes (find, children, filter of the whole list and of every subset, compound, :not, nested)", r + 1));
	let kws = [":first-child", ":last-child", ":only-child", ":first-of-type", ":last-of-type", ":only-of-type"];
	for n in 0..=maxn {
		for w in words(n, 2) {
			for fill in [Fill::None, Fill::Text, Fill::Mixed] {
				// siblings under a wrapper <u>, which also has an empty sibling <i> and a nested copy
				let mut t = Tree::new();
				let u = t.elem(0, "u", &[("k", "0")]);
				for (i, &l) in w.iter().enumerate() {
					match fill {
						Fill::Text => {
							t.text(u, "t");
						}
						Fill::Mixed => {
							t.add(u, Kind::Comment("c".into()));
						}
						Fill::None => {}
					}
					let k = (i + 1).to_string();
					t.elem(u, ["a", "b"][l], &[("k", &k)]);
					if fill == Fill::Mixed {
						t.text(u, " ");
					}
				}
				// after the list: an element without children and one with a single text child
				let k1 = (n + 1).to_string();
				let k2 = (n + 2).to_string();
				t.elem(0, "i", &[("k", &k1)]);
				let s = t.elem(0, "s", &[("k", &k2)]);
				t.text(s, "z");
				let html = t.html();
				if !ctx.case(|| format!("html={html:?}")) {
					if !ctx.live() {
						return;
					}
					continue;
				}
				ctx.state(&html);
				let v = View::new(&t);
				let root = load(&html);
				let r0 = root.get(0).unwrap().cloned();
				if let Some(d) = diff_tree(&t, &r0) {
					ctx.fail("load", &d);
					return;
				}
				ctx.stats.traces += 1;
				let all = real_elements(&r0);
				let list: Mask = v.kids[0];
				let whole = subset(&all, list);
				let wrap = subset(&all, 1);
				let empties = subset(&all, v.top);
				for (pi, (end, ty)) in [(false, false), (true, false), (false, true), (true, true)].into_iter().enumerate() {
					for &(a, b) in &nths {
						let s = Simple::Nth(end, ty, a, b);
						let m = compound_mask(&vec![s.clone()], &v);
						if m & list != 0 {
							ctx.stats.nonempty += 1;
						}
						let name = [":nth-child", ":nth-last-child", ":nth-of-type", ":nth-last-of-type"][pi];
						for (si, sp) in spellings(a, b).into_iter().enumerate() {
							let txt = format!("{name}({sp})");
							let ok = ctx.expect(|| format!("root.find({txt:?})"), &mask_vec(m), || marks(&root.find(&txt)))
								&& ctx.expect(|| format!("u.children({txt:?})"), &mask_vec(m & list), || marks(&wrap.children(&txt)))
								&& ctx.expect(|| format!("list.filter({txt:?})"), &mask_vec(m & list), || marks(&whole.filter(&txt)));
							if !ok {
								return;
							}
							if si > 0 {
								continue;
							}
							let am = compound_mask(&vec![tag("a")], &v);
							let ta = format!("a{txt}");
							let tg = format!("u > {txt}");
							let tn = format!(":not({txt})");
							let tw = format!("{name}( {sp}\t)");
							let ok = ctx.expect(|| format!("root.find({ta:?})"), &mask_vec(m & am), || marks(&root.find(&ta)))
								&& ctx.expect(|| format!("root.find({tg:?})"), &mask_vec(m & list), || marks(&root.find(&tg)))
								&& ctx.expect(|| format!("top.find({txt:?})"), &mask_vec(m & list), || marks(&empties.find(&txt)))
								&& ctx.expect(|| format!("top.filter({txt:?})"), &mask_vec(m & v.top), || marks(&empties.filter(&txt)))
								&& ctx.expect(|| format!("top.children({txt:?})"), &mask_vec(m & list), || marks(&empties.children(&txt)))
								&& ctx.expect(|| format!("list.filter({tn:?})"), &mask_vec(list & !m), || marks(&whole.filter(&tn)))
								&& ctx.expect(|| format!("root.find({tw:?})"), &mask_vec(m), || marks(&root.find(&tw)));
							if !ok {
								return;
							}
							// every subset of the siblings
							if a.abs() <= 3 && b.abs() <= 4 && fill != Fill::Text {
								let base: Vec<usize> = mask_vec(list);
								for sub in 1u64..(1 << base.len()) {
									let sm = bits(sub).fold(0, |x, i| x | 1 << base[i]);
									let se = subset(&all, sm);
									if !ctx.expect(|| format!("{:?}.filter({txt:?})", mask_vec(sm)), &mask_vec(m & sm), || marks(&se.filter(&txt))) {
										return;
									}
								}
							}
						}
					}
				}
				for k in kws {
					let m = compound_mask(&vec![Simple::Kw(k)], &v);
					let tk = format!("a{k}");
					let am = compound_mask(&vec![tag("a")], &v);
					let ok = ctx.expect(|| format!("root.find({k:?})"), &mask_vec(m), || marks(&root.find(k)))
						&& ctx.expect(|| format!("u.children({k:?})"), &mask_vec(m & list), || marks(&wrap.children(k)))
						&& ctx.expect(|| format!("top.find({k:?})"), &mask_vec(m & list), || marks(&empties.find(k)))
						&& ctx.expect(|| format!("top.children({k:?})"), &mask_vec(m & list), || marks(&empties.children(k)))
						&& ctx.expect(|| format!("root.find({tk:?})"), &mask_vec(m & am), || marks(&root.find(&tk)));
					if !ok {
						return;
					}
					let base: Vec<usize> = mask_vec(v.all());
					for sub in 1u64..(1 << base.len()) {
						let sm = bits(sub).fold(0, |x, i| x | 1 << base[i]);
						let se = subset(&all, sm);
						if !ctx.expect(|| format!("{:?}.filter({k:?})", mask_vec(sm)), &mask_vec(m & sm), || marks(&se.filter(k))) {
							return;
						}
					}
				}
			}
		}
	}
	nested(ctx);
}

/// nested lists: every small tree, every positional pseudo-class, from every starting set
fn nested(ctx: &mut Ctx) {
	let maxn = ctx.tier.pick(5, 6);
	ctx.bound(format!("nested: all trees of <= {maxn} elements, tags {{a,b}}, 30 positional selectors, from the root and every single element"));
	let mut sels: Vec<Simple> = vec![];
	for k in [":first-child", ":last-child", ":only-child", ":first-of-type", ":last-of-type", ":only-of-type"] {
		sels.push(Simple::Kw(k));
	}
	for (e, ty) in [(false, false), (true, false), (false, true), (true, true)] {
		for (a, b) in [(0, 1), (0, 2), (2, 1), (2, 0), (1, 2), (-1, 2), (3, -1), (0, 0), (0, -1)] {
			sels.push(Simple::Nth(e, ty, a, b));
		}
	}
	let texts: Vec<String> = sels
		.iter()
		.map(|s| {
			let mut o = String::new();
			s.print(Sp::Normal, &mut o);
			o
		})
		.collect();
	for n in 2..=maxn {
		for shape in forests(n) {
			for w in words(n, 2) {
				let fill = if w[0] == 0 { Fill::None } else { Fill::Text };
				let t = build(&shape, |i| (["a", "b"][w[i]], vec![]), fill);
				let html = t.html();
				if !ctx.case(|| format!("html={html:?}")) {
					if !ctx.live() {
						return;
					}
					continue;
				}
				ctx.state(&html);
				let v = View::new(&t);
				let root = load(&html);
				let all = real_elements(root.get(0).unwrap());
				ctx.stats.traces += 1;
				for (s, txt) in sels.iter().zip(&texts) {
					let m = compound_mask(&vec![s.clone()], &v);
					if m != 0 {
						ctx.stats.nonempty += 1;
					}
					let tc = format!("* > {txt}");
					let td = format!("{txt} a");
					let want_c = v.map(v.all(), &v.kids) & m;
					let want_d = v.map(m, &v.desc) & compound_mask(&vec![tag("a")], &v);
					let everything = subset(&all, v.all());
					let ok = ctx.expect(|| format!("root.find({txt:?})"), &mask_vec(m), || marks(&root.find(txt)))
						&& ctx.expect(|| format!("root.find({tc:?})"), &mask_vec(want_c), || marks(&root.find(&tc)))
						&& ctx.expect(|| format!("root.find({td:?})"), &mask_vec(want_d), || marks(&root.find(&td)))
						&& ctx.expect(|| format!("all.find({txt:?})"), &mask_vec(v.map(v.all(), &v.desc) & m), || marks(&everything.find(txt)))
						&& ctx.expect(|| format!("all.filter({txt:?})"), &mask_vec(m), || marks(&everything.filter(txt)))
						&& ctx.expect(|| format!("all.parent({txt:?})"), &mask_vec(v.map(v.all(), &v.parent_m) & m), || marks(&everything.parent(txt)));
					if !ok {
						return;
					}
					for e in 0..v.n() {
						let se = subset(&all, 1 << e);
						let ok = ctx.expect(|| format!("[{e}].find({txt:?})"), &mask_vec(v.desc[e] & m), || marks(&se.find(txt)))
							&& ctx.expect(|| format!("[{e}].children({txt:?})"), &mask_vec(v.kids[e] & m), || marks(&se.children(txt)))
							&& ctx.expect(|| format!("[{e}].is({txt:?})"), &(m >> e & 1 == 1), || se.is(txt));
						if !ok {
							return;
						}
					}
				}
			}
		}
	}
	if ctx.live() {
		steep(ctx);
	}
	if ctx.live() {
		crate::big::c02(ctx);
	}
}

/// coefficients of every size: the large A and B of an expression cancel each other within the list
fn steep(ctx: &mut Ctx) {
	let rows = ctx.tier.pick(5, 7);
	let mut sizes: Vec<i64> = vec![];
	for e in 4..=60 {
		let p = 1i64 << e;
		sizes.extend([p - 1, p, p + 1]);
	}
	for e in 2..=18 {
		sizes.push(10i64.pow(e));
	}
	ctx.bound(format!("steep: lists of 0..={rows} elements x {} sizes of |A| up to 2^60 x both signs x B with A*k+B in -1..={}, k in 0..=3 x 4 pseudo-classes x 3 routes", sizes.len(), rows + 2));
	const LIMIT: i128 = (isize::MAX / 4) as i128;
	for n in 0..=rows {
		for &size in &sizes {
			if !ctx.case(|| format!("{n} siblings, |A|={size}")) {
				if !ctx.live() {
					return;
				}
				continue;
			}
			ctx.state(&(n, size));
			let html: String = format!("<u k=\"0\">{}</u>", (1..=n).map(|i| format!("<{0} k=\"{i}\"></{0}>", ["a", "b"][i % 2])).collect::<String>());
			let root = load(&html);
			ctx.stats.traces += 1;
			let all = real_elements(root.get(0).unwrap());
			let wrap = subset(&all, 1);
			let list = subset(&all, (1 << (n + 1)) - 2);
			// positions of the elements: (nth-child, nth-last-child, nth-of-type, nth-last-of-type), and the wrapper's
			let pos = |k: usize, e: usize| -> i128 {
				let same = |a: usize, b: usize| (a..=b).filter(|i| i % 2 == e % 2).count();
				(if e == 0 { 1 } else { [e, n + 1 - e, same(1, e), same(e, n)][k] }) as i128
			};
			for a in [size as i128, -(size as i128)] {
				for k in 0..=3 {
					for at in -1..=(rows as i128) + 2 {
						let b = at - a * k;
						if b.abs() > LIMIT {
							continue;
						}
						let an = format!("{a}n{}{}", if b < 0 { "-" } else { "+" }, b.abs());
						for (pi, ps) in ["nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"].iter().enumerate() {
							let hit = |e: usize| { let d = pos(pi, e) - b; d % a == 0 && d / a >= 0 };
							let want: Vec<usize> = (0..=n).filter(|&e| hit(e)).collect();
							let inner: Vec<usize> = want.iter().copied().filter(|&e| e > 0).collect();
							if !inner.is_empty() {
								ctx.stats.nonempty += 1;
							}
							let s = format!(":{ps}({an})");
							let ok = ctx.expect(|| format!("{html:?} find({s})"), &want, || marks(&root.find(&s)))
								&& ctx.expect(|| format!("{html:?} u.children({s})"), &inner, || marks(&wrap.children(&s)))
								&& ctx.expect(|| format!("{html:?} list.filter({s})"), &inner, || marks(&list.filter(&s)));
							if !ok {
								return;
							}
						}
					}
				}
			}
		}
	}
}
