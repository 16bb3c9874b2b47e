//! Large documents of regular shapes: behaviour must not depend on a size.  The sizes lie on both sides of the usual
//! thresholds (16, 64, 128, 256); sets, selectors and operations are enumerated over fixed lists.
use crate::engine::Ctx;
use crate::model::*;
use crate::mutate::*;
use visdom::types::{BoxDynElement, Elements};

pub struct Big {
	pub t: Tree,
	pub html: String,
	pub n: usize,
	pub parent: Vec<Option<usize>>,
	pub all: Vec<BoxDynElement<'static>>,
	pub root: Elements<'static>,
	pub name: String,
	pub ids: Vec<usize>,
}

const NONE: usize = usize::MAX;

fn label(i: usize) -> (&'static str, Vec<(&'static str, &'static str)>) {
	(["a", "b", "a"][i % 3], if i % 4 == 1 { vec![("class", "x")] } else { vec![] })
}

pub fn shapes(sizes: &[usize]) -> Vec<(String, Vec<usize>)> {
	let mut v = vec![];
	for &n in sizes {
		v.push((format!("list of {n}"), vec![NONE; n]));
		v.push((format!("list of {n} in an element"), (0..n).map(|i| if i == 0 { NONE } else { 0 }).collect()));
		v.push((format!("chain of {n}"), (0..n).map(|i| if i == 0 { NONE } else { i - 1 }).collect()));
		v.push((format!("comb of {n}"), (0..n).map(|i| if i == 0 { NONE } else { (i - 1) / 2 * 2 }).collect()));
		let w = (n as f64).sqrt() as usize;
		v.push((format!("rows of {n}"), (0..n).map(|i| if i % w == 0 { NONE } else { i / w * w }).collect()));
	}
	v
}

pub fn sizes(ctx: &Ctx) -> Vec<usize> {
	ctx.tier.pick(vec![20, 70, 270, 600], vec![12, 20, 34, 70, 140, 270, 600])
}

impl Big {
	fn new(ctx: &mut Ctx, name: &str, shape: &[usize], fill: Fill) -> Option<Big> {
		let t = build(shape, label, fill);
		let html = t.html();
		let root = load(&html);
		let r0 = root.get(0).unwrap().cloned();
		if let Some(d) = diff_tree(&t, &r0) {
			ctx.fail("load", &d);
			return None;
		}
		ctx.stats.traces += 1;
		let all = real_elements(&r0);
		let parent = shape.iter().map(|&p| (p != NONE).then_some(p)).collect();
		let ids = t.elements();
		Some(Big { t, html, n: shape.len(), parent, all, root, name: name.to_string(), ids })
	}
	fn sib(&self, a: usize, b: usize) -> bool {
		a != b && self.parent[a] == self.parent[b]
	}
	fn tag(&self, e: usize) -> &'static str {
		label(e).0
	}
	fn x(&self, e: usize) -> bool {
		e % 4 == 1
	}
	fn is_anc(&self, a: usize, e: usize) -> bool {
		let mut c = self.parent[e];
		while let Some(p) = c {
			if p == a {
				return true;
			}
			c = self.parent[p];
		}
		false
	}
	fn ancs(&self, e: usize) -> Vec<usize> {
		let mut v = vec![];
		let mut c = self.parent[e];
		while let Some(p) = c {
			v.push(p);
			c = self.parent[p];
		}
		v.reverse();
		v
	}
	fn prevs(&self, e: usize) -> Vec<usize> {
		(0..e).filter(|&y| self.sib(e, y)).collect()
	}
	fn nexts(&self, e: usize) -> Vec<usize> {
		(e + 1..self.n).filter(|&y| self.sib(e, y)).collect()
	}
	pub fn set(&self, s: &[usize]) -> Elements<'static> {
		Elements::with_nodes(s.iter().map(|&i| self.all[i].cloned()).collect())
	}
	/// the selectors and what they match
	fn matches(&self) -> Vec<(&'static str, Vec<bool>)> {
		let n = self.n;
		let prevs: Vec<Vec<usize>> = (0..n).map(|e| self.prevs(e)).collect();
		let nexts: Vec<usize> = (0..n).map(|e| self.nexts(e).len()).collect();
		let of = |f: &dyn Fn(usize) -> bool| (0..n).map(f).collect::<Vec<bool>>();
		let par = |e: usize, f: &dyn Fn(usize) -> bool| self.parent[e].map_or(false, |p| f(p));
		vec![
			("*", of(&|_| true)),
			("a", of(&|e| self.tag(e) == "a")),
			(".x", of(&|e| self.x(e))),
			("b.x", of(&|e| self.tag(e) == "b" && self.x(e))),
			("[class]", of(&|e| self.x(e))),
			("zz", of(&|_| false)),
			(":first-child", of(&|e| prevs[e].is_empty())),
			(":last-child", of(&|e| nexts[e] == 0)),
			(":nth-child(2n+1)", of(&|e| prevs[e].len() % 2 == 0)),
			(":nth-last-child(3n)", of(&|e| (nexts[e] + 1) % 3 == 0)),
			("a:nth-of-type(2n)", of(&|e| self.tag(e) == "a" && prevs[e].iter().filter(|&&p| self.tag(p) == "a").count() % 2 == 1)),
			(":not(.x)", of(&|e| !self.x(e))),
			("a > b", of(&|e| self.tag(e) == "b" && par(e, &|p| self.tag(p) == "a"))),
			("b a", of(&|e| self.tag(e) == "a" && self.ancs(e).iter().any(|&p| self.tag(p) == "b"))),
			("b.x *", of(&|e| self.ancs(e).iter().any(|&p| self.tag(p) == "b" && self.x(p)))),
			("a + b", of(&|e| self.tag(e) == "b" && prevs[e].last().map_or(false, |&p| self.tag(p) == "a"))),
			("b.x ~ a", of(&|e| self.tag(e) == "a" && prevs[e].iter().any(|&p| self.tag(p) == "b" && self.x(p)))),
			("b, .x", of(&|e| self.tag(e) == "b" || self.x(e))),
		]
	}
	fn sets(&self) -> Vec<(String, Vec<usize>)> {
		let n = self.n;
		let mut v: Vec<(String, Vec<usize>)> = vec![
			("all".into(), (0..n).collect()),
			("every second".into(), (0..n).step_by(2).collect()),
			("every third from 1".into(), (1..n).step_by(3).collect()),
			("first half".into(), (0..n / 2).collect()),
			("second half".into(), (n / 2..n).collect()),
			("ends".into(), vec![0, n - 1]),
			("last two".into(), vec![n - 2, n - 1]),
			("all but the last".into(), (0..n - 1).collect()),
		];
		for i in [0, 1, n / 2, n - 2, n - 1] {
			v.push((format!("[{i}]"), vec![i]));
		}
		v
	}
}

fn each(ctx: &mut Ctx, f: &dyn Fn(&mut Ctx, &Big)) {
	each_of(ctx, usize::MAX, f)
}
/// documents of more than `most` elements only as lists
fn each_of(ctx: &mut Ctx, most: usize, f: &dyn Fn(&mut Ctx, &Big)) {
	let sz = sizes(ctx);
	ctx.bound(format!("large: lists, wrapped lists, chains, combs and rows of {sz:?} elements, with and without text, fixed lists of sets and selectors"));
	for (name, shape) in shapes(&sz) {
		if shape.len() > most && !name.starts_with("list") {
			continue;
		}
		for fill in [Fill::None, Fill::Text] {
			if !ctx.case(|| format!("{name}, {fill:?}")) {
				continue;
			}
			let Some(b) = Big::new(ctx, &name, &shape, fill) else { return };
			ctx.state(&(&name, fill == Fill::Text));
			f(ctx, &b);
			if !ctx.live() {
				return;
			}
		}
	}
}

fn pick(v: impl Iterator<Item = usize>, m: &[bool]) -> Vec<usize> {
	v.filter(|&e| m[e]).collect()
}
fn union(mut v: Vec<usize>) -> Vec<usize> {
	v.sort();
	v.dedup();
	v
}

pub fn c01(ctx: &mut Ctx) {
	each(ctx, &|ctx, b| {
		for (s, m) in b.matches() {
			if !ctx.expect(|| format!("find({s})"), &pick(0..b.n, &m), || marks(&b.root.find(s))) {
				return;
			}
			if s.contains(['>', '+', '~', ' ']) && !s.contains(',') {
				continue;
			}
			for (sn, set) in b.sets() {
				let mut inset = vec![false; b.n];
				set.iter().for_each(|&e| inset[e] = true);
				let mut below = vec![false; b.n];
				for e in 0..b.n {
					below[e] = b.parent[e].map_or(false, |p| inset[p] || below[p]);
				}
				let want: Vec<usize> = (0..b.n).filter(|&e| below[e] && m[e]).collect();
				if !ctx.expect(|| format!("{sn}.find({s})"), &want, || marks(&b.set(&set).find(s))) {
					return;
				}
			}
		}
		// by id: set ids on a few elements
		for i in [0, b.n / 2, b.n - 1] {
			let mut one = b.set(&[i]);
			one.set_attr("id", Some(&format!("n{i}")));
			if !ctx.expect(|| format!("find(#n{i})"), &vec![i], || marks(&b.root.find(&format!("#n{i}")))) {
				return;
			}
		}
	});
}

pub fn c02(ctx: &mut Ctx) {
	each(ctx, &|ctx, b| {
		let n = b.n as i64;
		let pos: Vec<(i64, i64, i64, i64)> = (0..b.n)
			.map(|e| {
				let (p, q) = (b.prevs(e), b.nexts(e));
				let same = |v: &[usize]| v.iter().filter(|&&x| b.tag(x) == b.tag(e)).count() as i64 + 1;
				(p.len() as i64 + 1, q.len() as i64 + 1, same(&p), same(&q))
			})
			.collect();
		let abs = [
			(0, 1), (0, 2), (0, n), (0, n - 1), (0, n / 2), (0, n + 1), (1, 0), (2, 0), (2, 1), (3, 2), (-1, 3), (-1, n - 1), (-2, n), (1, n - 2), (7, 5),
			(n - 1, 0), (n, 0), (n - 1, 1), (16, 1), (17, 0), (64, 1), (65, 2), (128, 3), (256, 1), (257, 0), (0, 256), (0, 257), (-1, 256), (-1, 65),
		];
		for (a, c) in abs {
			let hit = |p: i64| if a == 0 { p == c } else { (p - c) % a == 0 && (p - c) / a >= 0 };
			let an = if a == 0 { format!("{c}") } else { format!("{a}n{}{}", if c < 0 { "-" } else { "+" }, c.abs()) };
			for (k, ps) in ["nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"].iter().enumerate() {
				let want: Vec<usize> = (0..b.n).filter(|&e| hit([pos[e].0, pos[e].1, pos[e].2, pos[e].3][k])).collect();
				let s = format!(":{ps}({an})");
				if !ctx.expect(|| format!("find({s})"), &want, || marks(&b.root.find(&s))) {
					return;
				}
				for (sn, set) in b.sets() {
					let w: Vec<usize> = set.iter().copied().filter(|e| want.binary_search(e).is_ok()).collect();
					if !ctx.expect(|| format!("{sn}.filter({s})"), &w, || marks(&b.set(&set).filter(&s))) {
						return;
					}
				}
			}
		}
	});
}

pub fn c04(ctx: &mut Ctx) {
	each(ctx, &|ctx, b| {
		let has = |m: &[bool]| {
			let mut h = vec![false; b.n];
			for e in (0..b.n).rev() {
				if let Some(p) = b.parent[e] {
					h[p] = h[p] || m[e] || h[e];
				}
			}
			h
		};
		let not = |m: &[bool]| m.iter().map(|x| !x).collect::<Vec<_>>();
		let mut asks: Vec<(String, Vec<bool>)> = vec![];
		let heavy = b.n > 100;
		for (s, m) in b.matches() {
			let comb = s.contains(['>', '+', '~', ' ']);
			asks.push((format!(":not({s})"), not(&m)));
			if heavy && comb {
				continue;
			}
			asks.push((format!(":has({s})"), has(&m)));
			asks.push((format!(":not(:has({s}))"), not(&has(&m))));
			asks.push((format!("a:not({s})"), (0..b.n).map(|e| b.tag(e) == "a" && !m[e]).collect()));
			asks.push((format!(":has(:not({s}))"), has(&not(&m))));
		}
		let x: Vec<bool> = (0..b.n).map(|e| b.x(e)).collect();
		let mut s = ".x".to_string();
		for d in 1..=9 {
			s = format!(":not({s})");
			asks.push((s.clone(), if d % 2 == 0 { x.clone() } else { not(&x) }));
		}
		let many: String = (0..b.n).map(|i| format!("z{i}, ")).collect();
		asks.push((format!(":not({many}.x)"), not(&x)));
		asks.push((format!("{many}.x"), x.clone()));
		asks.push((format!(":has({many}.x)"), has(&x)));
		let kids: Vec<bool> = (0..b.n).map(|e| b.t.nodes[b.ids[e]].kids.is_empty()).collect();
		asks.push((":empty".into(), kids.clone()));
		asks.push((":not(:empty)".into(), not(&kids)));
		// texts: every element's is known
		let txt: Vec<String> = (0..b.n).map(|e| b.t.text_of(b.ids[e])).collect();
		for p in ["t", "u", "tu", "uu", "ttt"].map(|s| s.to_string()).into_iter().chain([16, 64, 256].map(|k| "t".repeat(k))).chain([txt[0].clone(), txt[0].clone() + "t"]) {
			if !p.is_empty() {
				asks.push((format!(":contains('{p}')"), txt.iter().map(|x| x.contains(&p)).collect()));
			}
		}
		let every = b.set(&(0..b.n).collect::<Vec<_>>());
		for (s, m) in asks {
			let w = pick(0..b.n, &m);
			ctx.stats.nonempty += !w.is_empty() as u64;
			if !(ctx.expect(|| format!("find({s:?})"), &w, || marks(&b.root.find(&s))) && ctx.expect(|| format!("all.filter({s:?})"), &w, || marks(&every.filter(&s)))) {
				return;
			}
		}
	});
}

pub fn c05(ctx: &mut Ctx) {
	each_of(ctx, 300, &|ctx, b| {
		for (s, m) in b.matches() {
			let hasd: Vec<bool> = {
				let mut h = vec![false; b.n];
				for e in (0..b.n).rev() {
					if let Some(p) = b.parent[e] {
						if m[e] || h[e] {
							h[p] = true;
						}
					}
				}
				h
			};
			let mut near: Vec<Option<usize>> = vec![None; b.n];
			for e in 0..b.n {
				near[e] = if m[e] { Some(e) } else { b.parent[e].and_then(|p| near[p]) };
			}
			for (sn, set) in b.sets() {
				let els = b.set(&set);
				let neg: Vec<bool> = m.iter().map(|x| !x).collect();
				let w = pick(set.iter().copied(), &m);
				let ok = ctx.expect(|| format!("{sn}.filter({s})"), &w, || marks(&els.filter(s)))
					&& ctx.expect(|| format!("{sn}.not({s})"), &pick(set.iter().copied(), &neg), || marks(&els.not(s)))
					&& ctx.expect(|| format!("{sn}.is({s})"), &!w.is_empty(), || els.is(s))
					&& ctx.expect(|| format!("{sn}.is_all({s})"), &(w.len() == set.len()), || els.is_all(s))
					&& ctx.expect(|| format!("{sn}.has({s})"), &pick(set.iter().copied(), &hasd), || marks(&els.has(s)))
					&& ctx.expect(|| format!("{sn}.closest({s})"), &union(set.iter().filter_map(|&e| near[e]).collect()), || marks(&els.closest(s)));
				if !ok {
					return;
				}
			}
		}
	});
}

pub fn c06(ctx: &mut Ctx) {
	each_of(ctx, 300, &|ctx, b| {
		let ms = b.matches();
		let ms: Vec<_> = ms.into_iter().filter(|(s, _)| ["*", "a", ".x", "b.x", "zz", ":first-child", ":nth-child(2n+1)", "b, .x"].contains(s)).collect();
		type R = (&'static str, fn(&Big, usize) -> Vec<usize>, fn(&Elements<'static>, &str) -> Elements<'static>);
		let rels: [R; 8] = [
			("children", |b, e| (e + 1..b.n).filter(|&y| b.parent[y] == Some(e)).collect(), |e, s| e.children(s)),
			("parent", |b, e| b.parent[e].into_iter().collect(), |e, s| e.parent(s)),
			("parents", |b, e| b.ancs(e), |e, s| e.parents(s)),
			("next", |b, e| b.nexts(e).into_iter().take(1).collect(), |e, s| e.next(s)),
			("next_all", |b, e| b.nexts(e), |e, s| e.next_all(s)),
			("prev", |b, e| b.prevs(e).into_iter().rev().take(1).collect(), |e, s| e.prev(s)),
			("prev_all", |b, e| b.prevs(e), |e, s| e.prev_all(s)),
			("siblings", |b, e| (0..b.n).filter(|&y| b.sib(e, y)).collect(), |e, s| e.siblings(s)),
		];
		for (name, rel, real) in rels {
			let table: Vec<Vec<usize>> = (0..b.n).map(|e| rel(b, e)).collect();
			for (sn, set) in b.sets() {
				let base = union(set.iter().flat_map(|&e| table[e].iter().copied()).collect());
				let els = b.set(&set);
				if !ctx.expect(|| format!("{sn}.{name}()"), &base, || marks(&real(&els, ""))) {
					return;
				}
				for (s, m) in &ms {
					if !ctx.expect(|| format!("{sn}.{name}({s})"), &pick(base.iter().copied(), m), || marks(&real(&els, s))) {
						return;
					}
				}
			}
		}
		type U = (&'static str, fn(&Big, usize) -> Vec<usize>, fn(&Elements<'static>, &str, &str, bool) -> Elements<'static>);
		let untils: [U; 3] = [
			("next_until", |b, e| b.nexts(e), |e, u, f, c| e.next_until(u, f, c)),
			("prev_until", |b, e| b.prevs(e).into_iter().rev().collect(), |e, u, f, c| e.prev_until(u, f, c)),
			("parents_until", |b, e| b.ancs(e).into_iter().rev().collect(), |e, u, f, c| e.parents_until(u, f, c)),
		];
		for (name, walk, real) in untils {
			for (sn, set) in b.sets() {
				// quadratic in the implementation: single elements and small sets
				if set.len() > 2 && b.n > 80 {
					continue;
				}
				let els = b.set(&set);
				for (u, um) in [("zz", None), (":first-child", Some(6)), ("b.x", Some(3))].map(|(u, k)| (u, k.map(|_| ms.iter().find(|(s, _)| *s == u).unwrap().1.clone()))) {
					for (f, fm) in [("", None), ("a", Some(ms.iter().find(|(s, _)| *s == "a").unwrap().1.clone()))] {
						for c in [false, true] {
							let mut want = vec![];
							for &e in &set {
								for y in walk(b, e) {
									let stop = um.as_ref().map_or(false, |m| m[y]);
									if stop && !c {
										break;
									}
									want.push(y);
									if stop {
										break;
									}
								}
							}
							let mut want = union(want);
							if let Some(m) = &fm {
								want.retain(|&e| m[e]);
							}
							if !ctx.expect(|| format!("{sn}.{name}({u:?}, {f:?}, {c})"), &want, || marks(&real(&els, u, f, c))) {
								return;
							}
						}
					}
				}
			}
		}
	});
}

pub fn c07(ctx: &mut Ctx) {
	each(ctx, &|ctx, b| {
		for (an, a) in b.sets() {
			let ea = b.set(&a);
			for (cn, c) in b.sets() {
				let ec = b.set(&c);
				let inc: Vec<bool> = (0..b.n).map(|e| c.binary_search(&e).is_ok()).collect();
				let not: Vec<bool> = inc.iter().map(|x| !x).collect();
				let both = pick(a.iter().copied(), &inc);
				let has: Vec<usize> = a.iter().copied().filter(|&e| c.iter().any(|&x| b.is_anc(e, x))).collect();
				let ok = ctx.expect(|| format!("{an}.add({cn})"), &union(a.iter().chain(&c).copied().collect()), || marks(&ea.add(b.set(&c))))
					&& ctx.expect(|| format!("{an}.filter_in({cn})"), &both, || marks(&ea.filter_in(&ec)))
					&& ctx.expect(|| format!("{an}.not_in({cn})"), &pick(a.iter().copied(), &not), || marks(&ea.not_in(&ec)))
					&& ctx.expect(|| format!("{an}.is_in({cn})"), &!both.is_empty(), || ea.is_in(&ec))
					&& ctx.expect(|| format!("{an}.is_all_in({cn})"), &(both.len() == a.len()), || ea.is_all_in(&ec))
					&& ctx.expect(|| format!("{an}.has_in({cn})"), &has, || marks(&ea.has_in(&ec)));
				if !ok {
					return;
				}
			}
			let l = a.len();
			for i in [0, 1, l / 2, l.saturating_sub(2), l - 1, l, l + 1, 300] {
				let ok = ctx.expect(|| format!("{an}.eq({i})"), &a.get(i).copied().into_iter().collect(), || marks(&ea.eq(i)))
					&& ctx.expect(|| format!("{an}.slice({i}..)"), &a.iter().copied().skip(i).collect(), || marks(&ea.slice(i..)))
					&& ctx.expect(|| format!("{an}.slice(..={i})"), &a.iter().copied().take(i + 1).collect(), || marks(&ea.slice(..=i)))
					&& ctx.expect(|| format!("{an}.first/last"), &(vec![a[0]], vec![a[l - 1]]), || (marks(&ea.first()), marks(&ea.last())));
				if !ok {
					return;
				}
			}
		}
	});
}

/// Every operation of a fixed list on large documents, judged by the check's own monitor.
pub fn mutations(ctx: &mut Ctx, monitor: &dyn Fn(&W, &R) -> Option<String>, clones: bool) {
	let sz: Vec<usize> = ctx.tier.pick(vec![20, 70, 270], vec![20, 34, 70, 140, 270]);
	ctx.bound(format!("large: lists, wrapped lists, chains, combs and rows of {sz:?} elements: every operation on the first, second, middle and last two elements and on sets of all, every second, first and last; fragments of 70 and 270 nodes"));
	for (_, shape) in shapes(&sz) {
		let n = shape.len();
		for fill in [Fill::None, Fill::Text] {
			let t = build(&shape, label, fill);
			let alphabet = |_: &W, d: usize| -> Vec<Op> {
				let ms = [0, 1, n / 2, n - 2, n - 1];
				let mut v = vec![];
				let sets: Vec<Vec<usize>> = vec![(0..n).step_by(2).collect(), (1..n).step_by(2).collect(), (n / 2..n).collect(), vec![n - 1]];
				if d > 0 || clones {
					for &a in &ms {
						v.push(Op::Remove(vec![a]));
						v.push(Op::SetText(vec![a], "s"));
						v.push(Op::SetAttr(vec![a], "t", Some("1")));
						v.push(Op::Insert(vec![a], Pos::Append, vec![ms[1]]));
						if clones {
							v.push(Op::CloneSet(vec![a]));
							v.push(Op::Remove(vec![CLONE_BASE + a]));
							v.push(Op::SetAttr(vec![CLONE_BASE + a], "t", Some("1")));
							v.push(Op::Insert(vec![CLONE_BASE + a], Pos::Append, vec![a]));
						}
					}
					return v;
				}
				for &a in &ms {
					for p in POS {
						for &c in &ms {
							v.push(Op::Insert(vec![a], p, vec![c]));
						}
						v.push(Op::InsertFrag(vec![a], p, 9));
						v.push(Op::InsertFrag(vec![a], p, 10));
						v.push(Op::Insert(vec![a], p, sets[0].clone()));
						v.push(Op::InsertTo(vec![a], p, sets[2].clone()));
					}
					for &c in &ms {
						v.push(Op::Replace(vec![a], vec![c]));
					}
					v.push(Op::ReplaceFrag(vec![a], 9));
					v.push(Op::SetHtml(vec![a], 9));
					v.push(Op::SetHtml(vec![a], 10));
					v.push(Op::Remove(vec![a]));
					v.push(Op::Empty(vec![a]));
					v.push(Op::SetText(vec![a], "s"));
				}
				for s in sets {
					v.push(Op::Remove(s.clone()));
					v.push(Op::Empty(s.clone()));
					v.push(Op::SetText(s.clone(), "s"));
					v.push(Op::InsertFrag(s.clone(), Pos::Append, 1));
					v.push(Op::InsertFrag(s.clone(), Pos::Before, 0));
					v.push(Op::ReplaceFrag(s.clone(), 1));
					v.push(Op::Insert(vec![0], Pos::Before, s.clone()));
				}
				v
			};
			explore(ctx, &t, &alphabet, if clones { 2 } else { 1 }, monitor);
			if !ctx.live() {
				return;
			}
		}
	}
}

/// Long selectors: many alternatives, many parts of one compound, many steps, long names and blanks.
/// Every family has an expected answer by construction.
pub fn long_selectors(ctx: &mut Ctx) {
	let mut sizes: Vec<usize> = (3..=18).collect();
	sizes.extend(ctx.tier.pick(vec![31, 32, 33, 34, 63, 64, 65, 66, 129, 257], vec![31, 32, 33, 34, 48, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513]));
	ctx.bound(format!("long selectors: {sizes:?} alternatives, parts of a compound, steps of a chain, characters of a name, blanks between parts"));
	let near = |n: usize| {
		let mut v = vec![0, 1, 2, n / 2, n - 2, n - 1];
		v.extend([7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256].into_iter().filter(|&x| x < n));
		union(v)
	};
	for &n in &sizes {
		// alternatives
		for ni in 0..5 {
			if !ctx.case(|| format!("{n} alternatives, kind {ni}")) {
				continue;
			}
			let html: String = (0..n).map(|i| format!("<i k={i} class='c{i} x' id=d{i} t='v{i}'></i>")).collect();
			let root = load(&format!("<div k=9999>{html}</div>"));
			ctx.state(&("alternatives", n, ni));
			ctx.stats.traces += 1;
			let asc: Vec<usize> = (0..n).collect();
			let desc: Vec<usize> = (0..n).rev().collect();
			let mixed: Vec<usize> = (0..n).step_by(2).chain((1..n).step_by(2).collect::<Vec<_>>().into_iter().rev()).collect();
			let names: [&dyn Fn(usize) -> String; 5] = [&|i| format!(".c{i}"), &|i| format!("#d{i}"), &|i| format!("[t=v{i}]"), &|i| format!("i:nth-child({})", i + 1), &|i| format!("i.c{i}.x")];
			let name = &names[ni];
			{
				for (oi, order) in [&asc, &desc, &mixed].iter().enumerate() {
					let few = |v: Vec<usize>| if n <= 34 { v } else { v.into_iter().filter(|&x| x == 0 || x + 1 == n || x == n / 2).collect() };
					let mut outs: Vec<Option<usize>> = few(near(n)).into_iter().map(Some).collect();
					outs.push(None);
					for out in outs {
						for sep in [",", " , "] {
							if n > 34 && (oi == 1 || sep == " , ") {
								continue;
							}
							let s = order.iter().filter(|&&i| Some(i) != out).map(|&i| name(i)).collect::<Vec<_>>().join(sep);
							let want: Vec<usize> = (0..n).filter(|&i| Some(i) != out).collect();
							let rest: Vec<usize> = out.into_iter().collect();
							let st = |w: &str| format!("{w} kind {ni} order {oi} without {out:?} separator {sep:?}");
							let all = root.find("i");
							if !ctx.expect(|| st("find"), &want, || marks(&root.find(&s)))
								|| !ctx.expect(|| st("filter"), &want, || marks(&all.filter(&s)))
								|| !ctx.expect(|| st("not"), &rest, || marks(&all.not(&s)))
								|| !ctx.expect(|| st("find :not"), &rest, || marks(&root.find(&format!("i:not({s})"))))
								|| !ctx.expect(|| st("children"), &want, || marks(&root.find("div").children(&s)))
							{
								return;
							}
							for i in few(near(n)) {
								if !ctx.expect(|| format!("is, [{i}], {}", st("")), &(Some(i) != out), || all.eq(i).is(&s)) {
									return;
								}
								if sep == "," {
									let w: Vec<usize> = if Some(i) == out { vec![] } else { vec![i] };
									if !ctx.expect(|| format!("closest, [{i}], {}", st("")), &w, || marks(&all.eq(i).closest(&s))) {
										return;
									}
									let one = all.eq(i);
									let w: Vec<usize> = want.iter().copied().filter(|&x| x > i).collect();
									if !ctx.expect(|| format!("next_all, [{i}], {}", st("")), &w, || marks(&one.next_all(&s))) {
										return;
									}
								}
							}
							// the parent has one of them
							let only = out.map_or(n > 0, |_| n > 1);
							if !ctx.expect(|| st("has"), &only, || root.find(&format!("div:has({s})")).length() == 1) {
								return;
							}
						}
					}
				}
			}
		}
		if !ctx.live() {
			return;
		}
		// parts of one compound: all have all of them, but one each
		if ctx.case(|| format!("compound of {n}")) {
			ctx.state(&("compound", n));
			ctx.stats.traces += 1;
			let miss = near(n);
			let kinds: [(&dyn Fn(Option<usize>) -> String, &dyn Fn(usize) -> String); 4] = [
				(&|o| format!("class='{}'", (0..n).filter(|&i| Some(i) != o).map(|i| format!("c{i}")).collect::<Vec<_>>().join(" ")), &|i| format!(".c{i}")),
				(&|o| (0..n).filter(|&i| Some(i) != o).map(|i| format!("a{i}=v{i} ")).collect::<String>(), &|i| format!("[a{i}]")),
				(&|o| (0..n).map(|i| format!("a{i}={}{i} ", if Some(i) == o { "w" } else { "v" })).collect::<String>(), &|i| format!("[a{i}=v{i}]")),
				(&|o| format!("class='{}'", o.map_or("none".into(), |i| format!("c{i}"))), &|i| format!(":not(.c{i})")),
			];
			for (ki, (attrs, part)) in kinds.iter().enumerate() {
				let mut html = format!("<i k=0 {}></i>", attrs(None));
				for (j, &m) in miss.iter().enumerate() {
					html += &format!("<i k={} {}></i>", j + 1, attrs(Some(m)));
				}
				let root = load(&format!("<div k=9999>{html}</div>"));
				for desc in [false, true] {
					for with in ["", "i", "*"] {
						let mut ps: Vec<String> = (0..n).map(|i| part(i)).collect();
						if desc {
							ps.reverse();
						}
						let s = format!("{with}{}", ps.concat());
						let st = |w: &str| format!("{w} kind {ki} descending {desc} {with:?}");
						if !ctx.expect(|| st("find"), &vec![0], || marks(&root.find(&format!("i{s}").replace("ii", "i").replace("i*", "*")).filter("i")))
							|| !ctx.expect(|| st("filter"), &vec![0], || marks(&root.find("i").filter(&s)))
							|| !ctx.expect(|| st("child"), &vec![0], || marks(&root.find(&format!("div > {s}"))))
							|| !ctx.expect(|| st("neighbours"), &vec![1], || marks(&root.find(&format!("{s} + i"))))
						{
							return;
						}
					}
				}
				// and without one part its element matches too
				for (j, &m) in miss.iter().enumerate() {
					let s: String = (0..n).filter(|&i| i != m).map(|i| part(i)).collect();
					if !ctx.expect(|| format!("kind {ki} without part {m}"), &vec![0, j + 1], || marks(&root.find("i").filter(&s))) {
						return;
					}
				}
			}
		}
		if !ctx.live() {
			return;
		}
		// steps: down a chain, along a row
		for row in [false, true] {
			if !ctx.case(|| format!("{n} steps, row {row}")) {
				continue;
			}
			ctx.state(&("steps", n, row));
			ctx.stats.traces += 1;
			let html = if row {
				format!("<div k=9999>{}</div>", (0..n).map(|i| format!("<i k={i} class='c{i}'></i>")).collect::<String>())
			} else {
				(0..n).map(|i| format!("<i k={i} class='c{i}'>")).collect::<String>() + &"</i>".repeat(n)
			};
			let root = load(&html);
			for comb in if row { ["+", " ~ "] } else { [">", " "] } {
				let exact = comb == "+" || comb == ">";
				for kind in 0..2 {
					let part = |i: usize| if kind == 0 { format!(".c{i}") } else { format!("i.c{i}") };
					let full: Vec<String> = (0..n).map(part).collect();
					let s = full.join(comb);
					if !ctx.expect(|| format!("{comb:?} kind {kind}: find"), &vec![n - 1], || marks(&root.find(&s)))
						|| !ctx.expect(|| format!("{comb:?} kind {kind}: is"), &true, || root.find("i").last().is(&s))
						|| !ctx.expect(|| format!("{comb:?} kind {kind}: parts in a list"), &vec![n - 2, n - 1], || marks(&root.find(&format!("{}, {s}", full[..n - 1].join(comb)))))
					{
						return;
					}
					// one step that no element takes, one that is left out, one too many
					for j in near(n) {
						let mut other = full.clone();
						other[j] = ".none".into();
						if !ctx.expect(|| format!("{comb:?} kind {kind}: step {j} matches nothing"), &Vec::<usize>::new(), || marks(&root.find(&other.join(comb)))) {
							return;
						}
						if j > 0 && j < n - 1 {
							let mut fewer = full.clone();
							fewer.remove(j);
							let want = if exact { vec![] } else { vec![n - 1] };
							if !ctx.expect(|| format!("{comb:?} kind {kind}: without step {j}"), &want, || marks(&root.find(&fewer.join(comb)))) {
								return;
							}
						}
						let mut twice = full.clone();
						twice.insert(j, full[j].clone());
						if !ctx.expect(|| format!("{comb:?} kind {kind}: step {j} twice"), &Vec::<usize>::new(), || marks(&root.find(&twice.join(comb)))) {
							return;
						}
					}
				}
				// steps that any element takes
				for (k, star) in ["*", "i"].iter().enumerate() {
					let s = vec![*star; n - 1].join(comb);
					// the chain starts at the root's child; the row has the div above
					let want = vec![n - 2, n - 1];
					if row && *star == "*" {
						continue;
					}
					if !ctx.expect(|| format!("{comb:?}: {} x {star} ({k})", n - 1), &want, || marks(&root.find(&s))) {
						return;
					}
				}
			}
		}
		if !ctx.live() {
			return;
		}
		// names, operands and blanks of that length
		if ctx.case(|| format!("names of {n} characters")) {
			ctx.state(&("names", n));
			ctx.stats.traces += 1;
			let nm = |n: usize, last: &str| "n".repeat(n - 1) + last;
			let all = [nm(n, "n"), nm(n, "m"), nm(n - 1, "n"), nm(n + 1, "n"), format!("m{}", "n".repeat(n - 1))];
			let html: String = all.iter().enumerate().map(|(i, s)| format!("<{s} k={i} class='x {s} y' id={s} {s}=1 t='{s}'>{s}</{s}>")).collect();
			let root = load(&html);
			let bl = " ".repeat(n);
			for (i, s) in all.iter().enumerate() {
				for q in [
					s.clone(),
					format!(".{s}"),
					format!("#{s}"),
					format!("[{s}]"),
					format!("[t={s}]"),
					format!("[t='{s}']"),
					format!("[{bl}t{bl}={bl}'{s}'{bl}]"),
					format!("{s}.{s}#{s}"),
					format!("zz{bl},{bl}.{s}"),
					format!(".x{bl}+{bl}{s},.{s}"),
					format!(":not({bl}:not({bl}.{s}{bl}){bl})"),
					format!("{bl}.{s}{bl}"),
					format!(":nth-child({bl}{}{bl})", i + 1),
					format!(":nth-child({bl}0n{bl}+{bl}{}{bl})", i + 1),
				] {
					if !ctx.expect(|| format!("name {i}: {}", q.replace(&bl, "<blanks>")), &vec![i], || marks(&root.find(&q))) {
						return;
					}
				}
				let want: Vec<usize> = (0..5).filter(|&j| all[j].contains(s.as_str())).collect();
				if !ctx.expect(|| format!("name {i}: contains"), &want, || marks(&root.find(&format!(":contains({s})")))) {
					return;
				}
			}
		}
		if !ctx.live() {
			return;
		}
	}
}
