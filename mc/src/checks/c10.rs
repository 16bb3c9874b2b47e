//! C10: structural consistency after every mutation history.
use crate::engine::Ctx;
use crate::model::*;
use crate::mutate::*;

pub fn run(ctx: &mut Ctx) {
	let st = starts(3, &[Fill::None, Fill::Text]);
	let thorough = ctx.tier.pick(false, true);
	// wide alphabet, short histories
	ctx.bound(format!("A: {} start documents (all shapes of <= 3 elements, with and without text); all histories of length <= 2 over insert x 4 positions, replace, remove, empty, set_text, set_html, fragments, text removal and text set_html, remove_child and replace_with of single elements over all handles including detached and new ones", st.len()));
	for t in &st {
		explore(
			ctx,
			t,
			&|w, d| {
				let mut v = single_ops(w, if d == 0 { 9 } else { 6 }, &[0, 1, 3, 4], true);
				v.extend(element_ops(w, 6));
				v
			},
			2,
			&check_structure,
		);
		if !ctx.live() {
			return;
		}
	}
	// narrow alphabet, longer histories
	let n = ctx.tier.pick(3, 3);
	let depth = ctx.tier.pick(3, 4);
	let st2 = starts(n, if thorough { &[Fill::None] } else { &[Fill::None, Fill::Text] });
	ctx.bound(format!("B: {} start documents; all histories of length <= {depth} over insert/replace/remove/empty of the original elements{}", st2.len(), if thorough { "" } else { " and text removal" }));
	for t in &st2 {
		explore(ctx, t, &|w, _| single_ops(w, n, &[], !thorough), depth, &check_structure);
		if !ctx.live() {
			return;
		}
	}
	if thorough {
		let st3 = starts(3, &[Fill::Text, Fill::Mixed]);
		ctx.bound(format!("C: {} start documents; all histories of length <= 3 with one fragment and text edits over the first 4 handles", st3.len()));
		for t in &st3 {
			explore(ctx, t, &|w, d| single_ops(w, if d == 0 { 3 } else { 4 }, &[1], true), 3, &check_structure);
			if !ctx.live() {
				return;
			}
		}
	}
	if ctx.live() {
		crate::big::mutations(ctx, &check_structure, false);
	}
}
