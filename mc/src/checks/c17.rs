//! C17: form values.
use crate::engine::Ctx;
use crate::model::*;
use crate::mutate::*;
use crate::sel::checked;
use visdom::types::{Elements, IFormValue};

#[derive(Clone, Copy, Debug, PartialEq)]
struct O {
	sel: bool,
	/// 0 none, 1 flag, 2 empty, 3 value
	val: u8,
}
#[derive(Clone, Debug)]
enum I {
	O(O),
	G(&'static str, Vec<O>),
	/// group in a wrapper
	N(Vec<O>),
	X,
}

fn opt(t: &mut Tree, p: usize, o: O, k: &mut usize) {
	let e = t.elem(p, "option", &[("k", &k.to_string())]);
	if let Kind::Elem(_, a) = &mut t.nodes[e].kind {
		if o.sel {
			a.push(("selected".into(), [None, Some("selected".to_string()), Some(String::new())][*k % 3].clone()));
		}
		match o.val {
			1 => a.push(("value".into(), None)),
			2 => a.push(("value".into(), Some(String::new()))),
			3 => a.push(("value".into(), Some(format!("v{k}")))),
			_ => {}
		}
	}
	t.text(e, &format!("o{k}"));
	*k += 1;
}

fn select(items: &[I], mult: Option<Option<&str>>) -> Tree {
	let mut t = Tree::new();
	let mut k = 1;
	let s = t.elem(0, "select", &[("k", "0")]);
	if let Some(m) = mult {
		if let Kind::Elem(_, a) = &mut t.nodes[s].kind {
			a.push(("multiple".into(), m.map(|s| s.to_string())));
		}
	}
	for i in items {
		match i {
			I::O(o) => opt(&mut t, s, *o, &mut k),
			I::G(tag, os) => {
				let g = t.elem(s, tag, &[("k", &k.to_string())]);
				k += 1;
				for o in os {
					opt(&mut t, g, *o, &mut k);
				}
			}
			I::N(os) => {
				let g = t.elem(s, "div", &[("k", &k.to_string())]);
				k += 1;
				let g = t.elem(g, "optgroup", &[("k", &k.to_string())]);
				k += 1;
				for o in os {
					opt(&mut t, g, *o, &mut k);
				}
			}
			I::X => {
				t.elem(s, "hr", &[("k", &k.to_string())]);
				k += 1;
			}
		}
	}
	t
}

/// the value rules
fn value(t: &Tree, e: usize) -> Val {
	let own = |i: usize| t.attr(i, "value").flatten().unwrap_or("").to_string();
	match t.tag(e) {
		"input" | "option" => Val::One(own(e)),
		"textarea" => Val::One(t.text_of(e)),
		"select" => {
			let mut sel = vec![];
			t.pre(e, &mut |t, i| {
				if t.tag(i) == "option" && t.attr(i, "selected").is_some() {
					sel.push(own(i));
				}
			});
			if t.attr(e, "multiple").is_some() {
				return Val::Many(sel);
			}
			if let Some(f) = sel.first() {
				return Val::One(f.clone());
			}
			Val::One(t.nodes[e].kids.iter().find(|&&k| t.tag(k) == "option").map_or(String::new(), |&k| own(k)))
		}
		_ => Val::One(String::new()),
	}
}

#[derive(Debug, PartialEq, Clone)]
enum Val {
	One(String),
	Many(Vec<String>),
}
fn real(v: IFormValue) -> Val {
	match v {
		IFormValue::Single(s) => Val::One(s),
		IFormValue::Multiple(v) => Val::Many(v),
	}
}

fn judge(ctx: &mut Ctx, t: &Tree) {
	let html = t.html();
	if !ctx.case(|| format!("html={html:?}")) {
		return;
	}
	ctx.state(&html);
	ctx.stats.traces += 1;
	let es = t.elements();
	let root = load(&html);
	let all = real_elements(&root.get(0).unwrap().cloned());
	for (i, &e) in es.iter().enumerate() {
		let want = value(t, e);
		if want != Val::One(String::new()) {
			ctx.stats.nonempty += 1;
		}
		ctx.expect(|| format!("val of {i}"), &want, || real(all[i].value()));
		ctx.expect(|| format!("val of the set from {i} on"), &want, || real(Elements::with_nodes(all[i..].iter().map(|e| e.cloned()).collect()).val()));
	}
	let v = View::new(t);
	let want: Vec<usize> = (0..v.n()).filter(|&e| checked(&v, e)).collect();
	ctx.expect(|| ":checked".to_string(), &want, || marks(&root.find(":checked")));
	ctx.expect(|| "is(:checked)".to_string(), &want, || (0..all.len()).filter(|&i| Elements::with_nodes(vec![all[i].cloned()]).is(":checked")).collect());
}

fn monitor(w: &W, r: &R) -> Option<String> {
	for (m, &id) in &w.by_mark {
		let want = value(&w.t, id);
		let got = real(r.by_mark[m].value());
		if want != got {
			return Some(format!("val of {m} is {got:?}, expected {want:?}"));
		}
	}
	let v = View::new(&w.t);
	let mut want: Vec<usize> = (0..v.n()).filter(|&e| checked(&v, e)).map(|e| w.mark_of(v.ids[e]).unwrap()).collect();
	let mut got = marks(&r.root.find(":checked"));
	want.sort();
	got.sort();
	(want != got).then(|| format!(":checked gives {got:?}, expected {want:?}"))
}

pub fn run(ctx: &mut Ctx) {
	let mut os = vec![];
	for sel in [false, true] {
		for val in 0..4 {
			os.push(O { sel, val });
		}
	}
	let mut items: Vec<I> = os.iter().map(|&o| I::O(o)).collect();
	items.push(I::X);
	items.push(I::G("optgroup", vec![]));
	for a in &os {
		items.push(I::G("optgroup", vec![*a]));
	}
	for a in [O { sel: false, val: 3 }, O { sel: true, val: 3 }] {
		for b in [O { sel: false, val: 3 }, O { sel: true, val: 3 }] {
			items.push(I::G("optgroup", vec![a, b]));
		}
		items.push(I::N(vec![a]));
		items.push(I::G("div", vec![a]));
	}
	let n = ctx.tier.pick(3, 4);
	ctx.bound(format!("A: selects of <= {n} of {} items (options with/without selected and 4 value states, optgroups, wrappers, others) x 3 multiple states: val of every element and of sets, :checked", items.len()));
	for l in 0..=n {
		for w in words(l, items.len()) {
			let its: Vec<I> = w.iter().map(|&i| items[i].clone()).collect();
			for mult in [None, Some(None), Some(Some(""))] {
				if l == n && mult == Some(Some("")) {
					continue;
				}
				judge(ctx, &select(&its, mult));
				if !ctx.live() {
					return;
				}
			}
		}
	}
	// other controls
	let vals: [Option<Option<&str>>; 6] = [None, Some(None), Some(Some("")), Some(Some("a b")), Some(Some("&lt;'")), Some(Some("0"))];
	ctx.bound("B: input/option/button/p/img/textarea with every type, value and checked state, in either attribute order; textarea contents".to_string());
	for tag in ["input", "option", "button", "p", "img", "textarea", "optgroup", "form", "li"] {
		for ty in [None, Some("text"), Some("checkbox"), Some("radio"), Some("RADIO"), Some("hidden"), Some("submit")] {
			for v in vals {
				for ch in [None, Some(None), Some(Some("checked"))] {
					for order in 0..2 {
						let mut t = Tree::new();
						let d = t.elem(0, "div", &[("k", "0")]);
						let e = t.elem(d, tag, &[("k", "1")]);
						if let Kind::Elem(_, a) = &mut t.nodes[e].kind {
							if let Some(ty) = ty {
								a.push(("type".into(), Some(ty.into())));
							}
							if let Some(v) = v {
								a.push(("value".into(), v.map(|s| s.to_string())));
							}
							if let Some(c) = ch {
								a.push(("checked".into(), c.map(|s| s.to_string())));
							}
							if order == 1 {
								a[1..].reverse();
							}
						}
						if !VOID_TAGS.contains(&tag) {
							t.text(e, if order == 0 { "c" } else { " \n<&amp;> " });
							if order == 1 && tag != "textarea" {
								t.nodes[e].kids.clear();
							}
						}
						judge(ctx, &t);
						if !ctx.live() {
							return;
						}
					}
				}
			}
		}
	}
	// histories
	let depth = ctx.tier.pick(3, 4);
	let o = |s| O { sel: s, val: 3 };
	let docs: Vec<Tree> = vec![
		select(&[I::O(o(false)), I::G("optgroup", vec![o(false), o(false)]), I::O(o(false))], None),
		select(&[I::G("optgroup", vec![o(true)]), I::O(o(true)), I::O(o(false))], None),
		select(&[I::O(o(true)), I::G("optgroup", vec![o(true)])], Some(None)),
	];
	ctx.bound(format!("C: {} selects: all histories of length <= {depth} of selecting, unselecting, changing values, multiple, removing and moving options", docs.len()));
	for t in &docs {
		explore(
			ctx,
			t,
			&|w, _| {
				let mut ms: Vec<usize> = w.by_mark.keys().copied().filter(|&m| m < 6).collect();
				ms.sort();
				let mut v = vec![Op::SetAttr(vec![0], "multiple", None), Op::RemoveAttr(vec![0], "multiple")];
				for m in ms {
					if w.t.tag(w.node(m)) == "option" {
						v.push(Op::SetAttr(vec![m], "selected", None));
						v.push(Op::RemoveAttr(vec![m], "selected"));
						v.push(Op::SetAttr(vec![m], "value", Some("n")));
						v.push(Op::RemoveAttr(vec![m], "value"));
						v.push(Op::Insert(vec![0], Pos::Prepend, vec![m]));
					}
					if m > 0 {
						v.push(Op::Remove(vec![m]));
					}
				}
				v
			},
			depth,
			&monitor,
		);
		if !ctx.live() {
			return;
		}
	}
	if ctx.live() {
		large(ctx);
	}
}

/// many options, deep nesting
fn large(ctx: &mut Ctx) {
	let sizes: Vec<usize> = ctx.tier.pick(vec![20, 70, 300], vec![20, 34, 70, 140, 255, 256, 257, 300, 600]);
	ctx.bound(format!("large: selects of {sizes:?} options, flat, in groups of 7 or inside that many nested wrappers, with none, the first, middle, last, two or all selected, single and multiple"));
	for &n in &sizes {
		for lay in 0..4 {
			for pat in 0..6 {
				for mult in [false, true] {
					if !ctx.case(|| format!("{n} options, layout {lay}, pattern {pat}, multiple {mult}")) {
						if !ctx.live() {
							return;
						}
						continue;
					}
					let sel = |i: usize| match pat {
						0 => false,
						1 => i == 0,
						2 => i == n / 2,
						3 => i == n - 1,
						4 => i == 1 || i == n - 2,
						_ => true,
					};
					let mut t = Tree::new();
					let s = t.elem(0, "select", &[("k", "0")]);
					if let (true, Kind::Elem(_, a)) = (mult, &mut t.nodes[s].kind) {
						a.push(("multiple".into(), None));
					}
					let mut k = 1;
					let mut p = s;
					for i in 0..n {
						match lay {
							0 => opt(&mut t, s, O { sel: sel(i), val: 3 }, &mut k),
							1 => {
								if i % 7 == 0 {
									p = t.elem(s, "optgroup", &[("k", &k.to_string())]);
									k += 1;
								}
								opt(&mut t, p, O { sel: sel(i), val: 3 }, &mut k);
							}
							// one option, n levels down; or one on every level, the wrapper before or after it
							2 => {
								p = t.elem(p, "div", &[("k", &k.to_string())]);
								k += 1;
								if i + 2 >= n {
									opt(&mut t, p, O { sel: sel(i), val: 3 }, &mut k);
								}
							}
							_ => {
								p = t.elem(p, "optgroup", &[("k", &k.to_string())]);
								k += 1;
								opt(&mut t, p, O { sel: sel(i), val: 3 }, &mut k);
							}
						}
					}
					if lay == 2 && pat % 2 == 0 {
						// a direct option after the wrappers
						opt(&mut t, s, O { sel: false, val: 3 }, &mut k);
					}
					let html = t.html();
					ctx.state(&html);
					ctx.stats.traces += 1;
					ctx.stats.nonempty += 1;
					let root = load(&html);
					let all = real_elements(&root.get(0).unwrap().cloned());
					ctx.expect(|| "val".to_string(), &value(&t, s), || real(all[0].value()));
					ctx.expect(|| "val of the set".to_string(), &value(&t, s), || real(root.find("select").val()));
					let selected = |e: usize| t.tag(e) == "option" && t.attr(e, "selected").is_some();
					let es = t.elements();
					let fall = if !mult && !es.iter().any(|&e| selected(e)) { t.nodes[s].kids.iter().copied().find(|&e| t.tag(e) == "option") } else { None };
					let want: Vec<usize> = es.iter().filter(|&&e| selected(e) || Some(e) == fall).map(|&e| t.attr(e, "k").flatten().unwrap().parse().unwrap()).collect();
					let mut want = want;
					want.sort();
					ctx.expect(|| ":checked".to_string(), &want, || {
						let mut v = marks(&root.find(":checked"));
						v.sort();
						v
					});
				}
			}
		}
	}
}
