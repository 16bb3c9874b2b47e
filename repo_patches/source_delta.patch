From e4ee54d9b1cccdc468c5ecdbd0cdcb904a9e69a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:07 +0000
Subject: [PATCH 01/42] fix: Elements::add keeps document order when a member
 equals the last one of the first set

---
 src/mesdoc/interface/elements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index b37d7df..9b3f99b 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2723,7 +2723,7 @@ impl<'a> Elements<'a> {
 						}
 						Ordering::Equal => {
 							// equal to first right, now all the second after current is behind first right
-							let cur_fir_index = sec_right_index + 1;
+							let cur_fir_index = fir_right_index + 1;
 							for index in sec_left_index + 1..=sec_right_index {
 								mids.push((index, cur_fir_index));
 							}
-- 
2.43.0


From 66a4de44c96c1173826861e76470895c06c81680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:07 +0000
Subject: [PATCH 02/42] fix: An+B index arithmetic rounds correctly and never
 overflows

---
 src/mesdoc/rules/pseudo.rs     |  6 +-----
 src/mesdoc/selector/pattern.rs | 25 +++++++++++++++++--------
 src/mesdoc/utils.rs            |  4 ++--
 3 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 0a3dbda..83c51e1 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -16,11 +16,7 @@ use std::{collections::HashMap, ops::Range};
 const PRIORITY: u32 = PRIORITY_PSEUDO_SELECTOR;
 
 fn nth_index_to_number(index: &Option<String>) -> isize {
-	index
-		.as_ref()
-		.expect("Nth's n and index must have one")
-		.parse::<isize>()
-		.expect("Nth's index is not ok")
+	Nth::parse_number(index.as_ref().expect("Nth's n and index must have one"))
 }
 
 /// Pseudo selector ":root"
diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index 452a789..5ed62dc 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -195,7 +195,7 @@ impl Pattern for Nth {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
 		let rule: RegExp = RegExp {
 			context: Cow::from(
-				r#"^(?:([-+])?([1-9]\d+|[0-9])?n(?:\s*([+-])\s*([1-9]\d+|[0-9]))?|([-+])?([1-9]\d+|[0-9]))"#,
+				r#"^(?:([-+])?([1-9][0-9]+|[0-9])?n(?:\s*([+-])\s*([1-9][0-9]+|[0-9]))?|([-+])?([1-9][0-9]+|[0-9]))"#,
 			),
 		};
 		let mut data = HashMap::with_capacity(2);
@@ -260,6 +260,15 @@ impl Nth {
 		}
 		None
 	}
+	// parse a matched number, a number too large for the type is limited to a huge one
+	pub(crate) fn parse_number(num: &str) -> isize {
+		const LIMIT: isize = isize::MAX / 4;
+		match num.parse::<isize>() {
+			Ok(n) => n.clamp(-LIMIT, LIMIT),
+			Err(_) if num.starts_with('-') => -LIMIT,
+			Err(_) => LIMIT,
+		}
+	}
 	// get indexs allowed
 	pub fn get_allowed_indexs(
 		n: &Option<String>,
@@ -268,10 +277,10 @@ impl Nth {
 	) -> Vec<usize> {
 		// has n
 		if let Some(n) = n {
-			let n = n.parse::<isize>().unwrap();
+			let n = Nth::parse_number(n);
 			let index = index
 				.as_ref()
-				.map(|index| index.parse::<isize>().unwrap())
+				.map(|index| Nth::parse_number(index))
 				.unwrap_or(0);
 			// n == 0
 			if n == 0 {
@@ -331,11 +340,11 @@ impl Nth {
 			return allow_indexs;
 		}
 		// only index
-		let index = index
-			.as_ref()
-			.expect("Nth must have 'index' value when 'n' is not setted.")
-			.parse::<isize>()
-			.expect("Nth's index is not a correct number");
+		let index = Nth::parse_number(
+			index
+				.as_ref()
+				.expect("Nth must have 'index' value when 'n' is not setted."),
+		);
 		if index <= 0 || index > (total as isize) {
 			return vec![];
 		}
diff --git a/src/mesdoc/utils.rs b/src/mesdoc/utils.rs
index 608f430..1e338b1 100644
--- a/src/mesdoc/utils.rs
+++ b/src/mesdoc/utils.rs
@@ -86,13 +86,13 @@ pub fn divide_isize(a: isize, b: isize, round: RoundType) -> isize {
 	match round {
 		Floor => {
 			// -∞ -> 0
-			if res < 0 && remainder != 0 {
+			if remainder != 0 && (remainder < 0) != (b < 0) {
 				res -= 1;
 			}
 		}
 		Ceil => {
 			// 0 -> ∞
-			if res > 0 && remainder != 0 {
+			if remainder != 0 && (remainder < 0) == (b < 0) {
 				res += 1;
 			}
 		}
-- 
2.43.0


From fd4f540fc2e52ada69ef7ee592dabd24810f6e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:07 +0000
Subject: [PATCH 03/42] fix: :nth-last-* and :last-* on an element without
 child nodes

---
 src/mesdoc/rules/pseudo.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 83c51e1..51a00b5 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -168,6 +168,9 @@ fn make_asc_or_desc_nth_child_specified(asc: bool, index: isize) -> MatchSpecifi
 		} else {
 			Box::new(move |ele, mut callback| {
 				let total = ele.child_nodes_length();
+				if total == 0 {
+					return;
+				}
 				let mut matched: VecDeque<bool> = VecDeque::with_capacity(total);
 				// loop from last node to first node
 				// gather the matched info
@@ -524,6 +527,9 @@ fn make_asc_or_desc_nth_of_type_specified(asc: bool, index: isize) -> MatchSpeci
 				let mut node_indexs: Vec<usize> = Vec::with_capacity(DEF_NODES_LEN);
 				// total
 				let total = ele.child_nodes_length();
+				if total == 0 {
+					return;
+				}
 				let mut matched: VecDeque<bool> = VecDeque::with_capacity(total);
 				// loop from last node to first node
 				// gather the matched info
-- 
2.43.0


From 1c79013bff584bc1e72f8207483ecd816388aaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:07 +0000
Subject: [PATCH 04/42] fix: a missing attribute never equals the empty value

---
 src/mesdoc/rules/attr.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mesdoc/rules/attr.rs b/src/mesdoc/rules/attr.rs
index 717364e..efad246 100644
--- a/src/mesdoc/rules/attr.rs
+++ b/src/mesdoc/rules/attr.rs
@@ -51,7 +51,8 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 								let attr_value: String = format!("{}-", attr_value);
 								v.starts_with(&attr_value)
 							}
-							_ => attr_value.is_empty(),
+							Some(IAttrValue::True) => attr_value.is_empty(),
+							None => false,
 						}),
 						// in a value list that splitted by whitespaces
 						"~" => Box::new(move |val: &Option<IAttrValue>| match val {
@@ -69,12 +70,14 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 						// has a attribute and who's value not equal to setted value
 						"!" => Box::new(move |val: &Option<IAttrValue>| match val {
 							Some(IAttrValue::Value(v, _)) => attr_value != *v,
-							_ => !attr_value.is_empty(),
+							Some(IAttrValue::True) => !attr_value.is_empty(),
+							None => true,
 						}),
 						// equal to value
 						_ => Box::new(move |val: &Option<IAttrValue>| match val {
 							Some(IAttrValue::Value(v, _)) => *v == attr_value,
-							_ => attr_value.is_empty(),
+							Some(IAttrValue::True) => attr_value.is_empty(),
+							None => false,
 						}),
 					}
 				}
-- 
2.43.0


From 18251f41beb95fa8cfed66690b78680375540018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:36 +0000
Subject: [PATCH 05/42] fix: Elements::add keeps the members behind the last
 common one

---
 src/mesdoc/interface/elements.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 9b3f99b..b26bab2 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2672,6 +2672,12 @@ impl<'a> Elements<'a> {
 					// move forward both
 					sec_left_index += 1;
 					fir_left_index += 1;
+					// the first is exhausted, all the left of the second are behind it
+					if fir_left_index > fir_right_index {
+						for index in sec_left_index..=sec_right_index {
+							mids.push((index, first_count));
+						}
+					}
 				}
 				Ordering::Greater => {
 					// second left is behind first left
-- 
2.43.0


From 87551a019d65ac6440514d3c2d74c5c36f7df3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:25 +0000
Subject: [PATCH 06/42] fix: match ids against the current attributes instead
 of the ids seen when parsing

---
 src/lib.rs             | 21 +++++++++++--
 src/mesdoc/rules/id.rs | 67 ++++++++++++------------------------------
 2 files changed, 37 insertions(+), 51 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b07cf4d..b65dca9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1115,10 +1115,25 @@ impl Document {
 impl IDocumentTrait for Document {
 	// get element by id
 	fn get_element_by_id<'b>(&self, id: &str) -> Option<BoxDynElement<'b>> {
-		if let Some(node) = self.doc.get_element_by_id(id) {
-			return Some(Box::new(Rc::clone(&node)));
+		// search the current tree, the ids collected when parsing may be outdated
+		fn loop_handle(parent: &RefNode, id: &str) -> Option<RefNode> {
+			if let Some(childs) = &parent.borrow().childs {
+				for child in childs {
+					if matches!(child.node_type(), INodeType::Element) {
+						if let Some(IAttrValue::Value(v, _)) = child.get_attribute("id") {
+							if v == id {
+								return Some(Rc::clone(child));
+							}
+						}
+						if let Some(node) = loop_handle(child, id) {
+							return Some(node);
+						}
+					}
+				}
+			}
+			None
 		}
-		None
+		loop_handle(&self.doc.borrow().root, id).map(|node| Box::new(node) as BoxDynElement)
 	}
 	// source code
 	fn source_code(&self) -> String {
diff --git a/src/mesdoc/rules/id.rs b/src/mesdoc/rules/id.rs
index 13cf2b7..912329a 100644
--- a/src/mesdoc/rules/id.rs
+++ b/src/mesdoc/rules/id.rs
@@ -1,52 +1,23 @@
-use crate::mesdoc::selector::rule::{Matcher, Rule, RuleItem};
+use crate::mesdoc::constants::{NAME_SELECTOR_ID, PRIORITY_ID_SELECTOR};
+use crate::mesdoc::interface::IAttrValue;
+use crate::mesdoc::selector::rule::{Matcher, RuleDefItem, RuleItem};
 use crate::mesdoc::selector::MatchedQueue;
-use crate::mesdoc::{
-	constants::{NAME_SELECTOR_ID, PRIORITY_ID_SELECTOR},
-	interface::Elements,
-};
 
 pub fn init(rules: &mut Vec<RuleItem>) {
-	let rule: RuleItem = RuleItem {
-		name: NAME_SELECTOR_ID,
-		context: "#{identity}",
-		rule: Rule {
-			priority: PRIORITY_ID_SELECTOR,
-			in_cache: true,
-			handle: Box::new(|data: MatchedQueue| {
-				let id = data[1].chars.iter().collect::<String>();
-				Matcher {
-					all_handle: Some(Box::new(move |eles: &Elements, use_cache: Option<bool>| {
-						let use_cache = use_cache.is_some();
-						let mut result = Elements::with_capacity(1);
-						if !eles.is_empty() {
-							let first_ele = eles
-								.get_ref()
-								.get(0)
-								.expect("The elements must have at least one element.");
-							if let Some(doc) = &first_ele.owner_document() {
-								if let Some(id_element) = doc.get_element_by_id(&id) {
-									if use_cache {
-										// just add, will checked if the element contains the id element
-										result.push(id_element);
-									} else {
-										// filter methods, will filtered in elements
-										for ele in eles.get_ref() {
-											if ele.is(&id_element) {
-												result.push(id_element);
-												break;
-											}
-										}
-									}
-								}
-							}
-						}
-						result
-					})),
-					..Default::default()
-				}
-			}),
-			queues: Vec::new(),
-		},
-	};
-	rules.push(rule);
+	let rule = RuleDefItem(
+		NAME_SELECTOR_ID,
+		"#{identity}",
+		PRIORITY_ID_SELECTOR,
+		Box::new(|data: MatchedQueue| {
+			let id = data[1].chars.iter().collect::<String>();
+			Matcher {
+				// compare with the current attribute, the id may be changed or repeated
+				one_handle: Some(Box::new(move |ele, _| {
+					matches!(ele.get_attribute("id"), Some(IAttrValue::Value(v, _)) if v == id)
+				})),
+				..Default::default()
+			}
+		}),
+	);
+	rules.push(rule.into());
 }
-- 
2.43.0


From f39e1a56773562fe6a10172091fde4e44ac04870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:02 +0000
Subject: [PATCH 07/42] fix: related elements of nested sets come once and in
 document order

---
 src/mesdoc/interface/elements.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index b26bab2..97e90c6 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -458,11 +458,12 @@ impl<'a> Elements<'a> {
 				// just check the last ancestor
 				let (top_ele_indexs, _) = &ancestors[cur_len - 1];
 				match relation_of(&ele_indexs, top_ele_indexs) {
-					ElementRelation::Feauture => {
+					ElementRelation::Descendant => {}
+					// elements of different trees may have the same indexs
+					ElementRelation::Equal if ele.is(ancestors[cur_len - 1].1) => {}
+					_ => {
 						ancestors.push((ele_indexs, ele));
 					}
-					ElementRelation::Descendant => {}
-					_ => unreachable!("The elements call `unique_parents` is not ordered"),
 				}
 			} else {
 				ancestors.push((ele_indexs, ele));
@@ -476,11 +477,7 @@ impl<'a> Elements<'a> {
 	}
 	// sort
 	fn sort(&mut self) {
-		self.get_mut_ref().sort_by(|a, b| {
-			let a_index = get_tree_indexs(a);
-			let b_index = get_tree_indexs(b);
-			compare_indexs(&a_index, &b_index)
-		});
+		self.get_mut_ref().sort_by_cached_key(get_tree_indexs);
 	}
 	// unique
 	fn unique(&mut self) {
@@ -906,6 +903,10 @@ impl<'a> Elements<'a> {
 				result = matcher.apply(elements, None);
 			}
 		};
+		// elements may be nested or siblings, so the related ones may be repeated or out of order
+		if elements.length() > 1 && !matches!(cur_comb, Chain) {
+			result.sort_and_unique();
+		}
 		result
 	}
 
-- 
2.43.0


From d62eb9a947b4eb36c2853512adf8f213efee94d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:26 +0000
Subject: [PATCH 08/42] fix: siblings, closest and the until-forms evaluate the
 whole selector for every member

---
 src/mesdoc/interface/elements.rs | 49 ++++++++++++++------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 97e90c6..a5982c8 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -517,13 +517,15 @@ impl<'a> Elements<'a> {
 		contains: bool,
 		comb: Combinator,
 	) -> Elements<'a> {
-		let selector = selector.parse::<Selector>();
+		// filter handles don't use lookup
+		const USE_LOOKUP: bool = false;
+		let selector = Selector::from_str(selector, USE_LOOKUP);
 		if let Ok(selector) = &selector {
 			let segment = Selector::make_comb_all(comb);
 			let next_selector = Selector::from_segment(segment);
 			let mut result = Elements::with_capacity(DEF_NODES_LEN);
 			let (next_ok, filter) = if !filter.is_empty() {
-				let filter = filter.parse::<Selector>();
+				let filter = Selector::from_str(filter, USE_LOOKUP);
 				if let Ok(filter) = filter {
 					(true, Some(filter))
 				} else {
@@ -571,6 +573,8 @@ impl<'a> Elements<'a> {
 						}
 					}
 				}
+				// walks from different elements may overlap
+				result.sort_and_unique();
 				return result;
 			}
 		} else {
@@ -1366,15 +1370,7 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn prev_until(&self, selector: &str, filter: &str, contains: bool) -> Elements<'a> {
-		let uniques = self.unique_sibling_last();
-		let mut result =
-			uniques.select_with_comb_until("prev_until", selector, filter, contains, Combinator::Prev);
-		// should reverse the result when length > 1
-		// because the prevs executed from last to first
-		if result.length() > 1 {
-			result.get_mut_ref().reverse();
-		}
-		result
+		self.select_with_comb_until("prev_until", selector, filter, contains, Combinator::Prev)
 	}
 
 	/// Get the next sibling of each element in Elements, when the selector is not empty, will filtered by the selector.
@@ -1478,9 +1474,7 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn next_until(&self, selector: &str, filter: &str, contains: bool) -> Elements<'a> {
-		// unique, keep the first sibling node
-		let uniques = self.unique_sibling_first();
-		uniques.select_with_comb_until("next_until", selector, filter, contains, Combinator::Next)
+		self.select_with_comb_until("next_until", selector, filter, contains, Combinator::Next)
 	}
 
 	/// Get the siblings of each element in Elements, when the selector is not empty, will filtered by the selector.
@@ -1526,12 +1520,13 @@ impl<'a> Elements<'a> {
 			child_selector = Selector::from_segment(Selector::make_comb_all(child_comb));
 		} else {
 			// self
-			let sib_selector = selector.parse::<Selector>();
+			// the head combinator will be changed, don't use lookup
+			const USE_LOOKUP: bool = false;
+			let sib_selector = Selector::from_str(selector, USE_LOOKUP);
 			if let Ok(sib_selector) = sib_selector {
 				// clone the selector to a child selector
-				child_selector = selector
-					.parse::<Selector>()
-					.expect("The selector has detected");
+				child_selector =
+					Selector::from_str(selector, USE_LOOKUP).expect("The selector has detected");
 				child_selector.head_combinator(child_comb);
 				// use siblings selector
 				siblings_selector = sib_selector;
@@ -1562,7 +1557,7 @@ impl<'a> Elements<'a> {
 			result.get_mut_ref().extend(finded);
 		}
 		// sort the result
-		result.sort();
+		result.sort_and_unique();
 		result
 	}
 
@@ -1674,17 +1669,13 @@ impl<'a> Elements<'a> {
 	pub fn parents_until(&self, selector: &str, filter: &str, contains: bool) -> Elements<'a> {
 		// unique, keep the first sibling node
 		let uniques = self.unique_sibling_first();
-		let mut result = uniques.select_with_comb_until(
+		uniques.select_with_comb_until(
 			"parents_until",
 			selector,
 			filter,
 			contains,
 			Combinator::Parent,
-		);
-		// parents may not unique if has ancestor and childs
-		// if parents length > 1, the parents need reversed
-		result.sort_and_unique();
-		result
+		)
 	}
 
 	/// Get the first matched element of each element in Elements, traversing from self to it's ancestors.
@@ -1724,7 +1715,9 @@ impl<'a> Elements<'a> {
 		}
 		// find the nearst node
 		const METHOD: &str = "closest";
-		let selector = selector.parse::<Selector>();
+		// filter handles don't use lookup
+		const USE_LOOKUP: bool = false;
+		let selector = Selector::from_str(selector, USE_LOOKUP);
 		if let Ok(selector) = selector {
 			let total = self.length();
 			let mut result = Elements::with_capacity(total);
@@ -1764,9 +1757,9 @@ impl<'a> Elements<'a> {
 						}
 					}
 				}
-				// need sort and unique
-				result.sort_and_unique();
 			}
+			// need sort and unique
+			result.sort_and_unique();
 			result
 		} else {
 			self.trigger_method_throw_error(METHOD, Box::new(selector.unwrap_err()));
-- 
2.43.0


From b7997c75ed96ed1196b57bf6bcc43a0d349c36d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:30 +0000
Subject: [PATCH 09/42] fix: last and slice give an empty set when out of range

---
 src/mesdoc/interface/elements.rs | 47 ++++++++++----------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index a5982c8..00dbca5 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2515,7 +2515,7 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn last(&self) -> Elements<'a> {
-		self.eq(self.length() - 1)
+		self.slice(self.length().saturating_sub(1)..)
 	}
 
 	/// Get a subset specified by a range of indices.
@@ -2550,39 +2550,20 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn slice<T: RangeBounds<usize>>(&self, range: T) -> Elements<'a> {
-		let mut start = 0;
-		let mut end = self.length();
-		match range.start_bound() {
-			Bound::Unbounded => {
-				// start = 0
-			}
-			Bound::Included(&cur_start) => {
-				if cur_start < end {
-					start = cur_start;
-				} else {
-					// empty
-					return Elements::new();
-				}
-			}
-			_ => {
-				// start bound not have exclude
-			}
+		let total = self.length();
+		let start = match range.start_bound() {
+			Bound::Unbounded => 0,
+			Bound::Included(&cur_start) => cur_start,
+			Bound::Excluded(&cur_start) => cur_start.saturating_add(1),
 		};
-		match range.end_bound() {
-			Bound::Unbounded => {
-				// end = total
-			}
-			Bound::Excluded(&cur_end) => {
-				if cur_end < end {
-					end = cur_end;
-				}
-			}
-			Bound::Included(&cur_end) => {
-				let cur_end = cur_end + 1;
-				if cur_end < end {
-					end = cur_end;
-				}
-			}
+		let end = match range.end_bound() {
+			Bound::Unbounded => total,
+			Bound::Excluded(&cur_end) => cur_end.min(total),
+			Bound::Included(&cur_end) => cur_end.saturating_add(1).min(total),
+		};
+		// out of range, or an empty range
+		if start >= end {
+			return Elements::new();
 		}
 		let mut result = Elements::with_capacity(end - start);
 		let eles = self.get_ref();
-- 
2.43.0


From b2508d5125a55010d3b041bc377bded6a18f0c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:54 +0000
Subject: [PATCH 10/42] fix: truncated selectors and selectors on an empty set
 are rejected without a panic

---
 src/mesdoc/interface/elements.rs | 6 +-----
 src/mesdoc/selector/pattern.rs   | 9 ++++-----
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 00dbca5..7c6d2cd 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -124,11 +124,7 @@ impl<'a> Elements<'a> {
 	}
 
 	pub(crate) fn trigger_method_throw_error(&self, method: &str, error: BoxDynError) {
-		if let Some(doc) = &self
-			.get(0)
-			.expect("Use index 0 when length > 0")
-			.owner_document()
-		{
+		if let Some(doc) = &self.get(0).and_then(|ele| ele.owner_document()) {
 			doc.trigger_error(Box::new(IError::MethodOnInvalidSelector {
 				method: String::from(method),
 				error: error.to_string(),
diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index 5ed62dc..83457ff 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -44,10 +44,9 @@ pub trait Pattern: Send + Sync + Debug {
 
 impl Pattern for char {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
-		let ch = chars[0];
-		if *self == ch {
+		if chars.first() == Some(self) {
 			return Some(Matched {
-				chars: vec![ch],
+				chars: vec![*self],
 				..Default::default()
 			});
 		}
@@ -92,9 +91,9 @@ pub struct Identity;
 impl Pattern for Identity {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
 		let mut result: Vec<char> = Vec::with_capacity(5);
-		let first = chars[0];
+		let first = chars.first()?;
 		let name: &str = "identity";
-		if !(first.is_ascii_alphabetic() || first == '_') {
+		if !(first.is_ascii_alphabetic() || *first == '_') {
 			return None;
 		}
 		// allow translate character '\': fix issue #2
-- 
2.43.0


From ffdc1d3e33f56aa6acf5c6934fa40d29f56b5055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:46 +0000
Subject: [PATCH 11/42] fix: nested selectors may contain further parts after
 an inner pseudo-class and are validated when parsed

---
 src/mesdoc/selector/mod.rs | 43 ++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index c5588ad..f5f8ea3 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -89,22 +89,33 @@ impl Selector {
 		}
 	}
 	pub fn from_str(context: &str, use_lookup: bool) -> Result<Self, Error> {
+		let mut selector = Selector::new();
+		let splitter = SPLITTER.lock().unwrap();
+		let rules = RULES.lock().unwrap();
+		let groups = Selector::parse_groups(context, &rules, &splitter)?;
+		// optimize groups to query process
+		selector.optimize(groups, use_lookup);
+		Ok(selector)
+	}
+	// parse the selector into groups
+	fn parse_groups(
+		context: &str,
+		rules: &[(&str, Arc<Rule>)],
+		splitter: &[BoxDynPattern],
+	) -> Result<SelectorGroups, Error> {
 		let chars: Vec<char> = context.chars().collect();
 		let total_len = chars.len();
-		let mut selector = Selector::new();
+		let mut groups: SelectorGroups = Vec::new();
 		if total_len > 0 {
 			let mut index: usize = 0;
 			let mut comb = Combinator::ChildrenAll;
 			let mut prev_in = PrevInSelector::Begin;
 			let mut last_in = prev_in;
-			let mut groups: SelectorGroups = Vec::new();
-			let splitter = SPLITTER.lock().unwrap();
-			let rules = RULES.lock().unwrap();
 			Selector::add_group(&mut groups);
 			while index < total_len {
 				let next_chars = &chars[index..];
 				// first check if combinator
-				if let Some((matched, len, _)) = Rule::exec_queues(&splitter, next_chars) {
+				if let Some((matched, len, _)) = Rule::exec_queues(splitter, next_chars) {
 					let op = matched[0].chars.iter().collect::<String>();
 					let op = op.trim();
 					if prev_in == PrevInSelector::Splitter {
@@ -167,11 +178,16 @@ impl Selector {
 							let (len, nested_matched) = Selector::parse_until(
 								&chars[index..],
 								&queues[queue_num + 1..],
-								&rules,
-								&splitter,
+								rules,
+								splitter,
 								0,
 							)?;
 							index += len;
+							// the nested selector must be a valid selector too
+							if let Some(nested) = nested_matched.first() {
+								let nested = nested.chars.iter().collect::<String>();
+								Selector::parse_groups(&nested, rules, splitter)?;
+							}
 							matched.extend(nested_matched);
 							Selector::add_group_item(&mut groups, (r.make(matched), comb), is_new_item);
 							finded = true;
@@ -197,10 +213,8 @@ impl Selector {
 					reason: String::from("Wrong selector rule at last"),
 				});
 			}
-			// optimize groups to query process
-			selector.optimize(groups, use_lookup);
 		}
-		Ok(selector)
+		Ok(groups)
 	}
 	// add a selector group, splitted by ','
 	fn add_group(groups: &mut SelectorGroups) {
@@ -323,7 +337,8 @@ impl Selector {
 		let mut index = 0;
 		let total = chars.len();
 		let mut matched: MatchedQueue = Vec::with_capacity(until.len() + 1);
-		while index < total {
+		// also check the end, the nested selector may be not closed
+		while index <= total {
 			let next_chars = &chars[index..];
 			if let Some((_, len, _)) = Rule::exec_queues(splitter, next_chars) {
 				index += len;
@@ -334,11 +349,12 @@ impl Selector {
 				if let Some((_, len, queue_num)) = r.exec(next_chars) {
 					let queues = &r.queues;
 					// find the rule
-					index += len;
 					if queue_num == queues.len() {
 						// push to selector
+						index += len;
 						finded = true;
-					} else {
+					} else if queues[queue_num].is_nested() {
+						index += len;
 						let (nest_count, _) = Selector::parse_until(
 							&chars[index..],
 							&queues[queue_num + 1..],
@@ -347,6 +363,7 @@ impl Selector {
 							level + 1,
 						)?;
 						index += nest_count;
+						finded = true;
 					}
 					break;
 				}
-- 
2.43.0


From 610d1bbae9500c4e5e972b9f8e26da91269c7f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:28 +0000
Subject: [PATCH 12/42] fix: :empty does not match content tags that hold text

---
 src/mesdoc/rules/pseudo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 51a00b5..a670a70 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -74,7 +74,8 @@ fn pseudo_empty(rules: &mut Vec<RuleItem>) {
 			one_handle: Some(Box::new(|ele, _| {
 				let child_nodes = ele.child_nodes();
 				if child_nodes.is_empty() {
-					return true;
+					// the text of a content tag, such as 'title', is not a child node
+					return ele.text_chars().is_empty();
 				}
 				let mut only_comments = true;
 				for node in child_nodes {
-- 
2.43.0


From c4ab7a548d7530cb013f4fbf10ad777999ae66a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:50 +0000
Subject: [PATCH 13/42] fix: the default option is not :checked when an earlier
 optgroup has a selected one

---
 src/mesdoc/rules/pseudo.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index a670a70..69930a9 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -963,6 +963,10 @@ fn pseudo_checked(rules: &mut Vec<RuleItem>) {
 									if is_equal_chars(&prev_ele.tag_names(), &option_tag) {
 										return false;
 									}
+									// a selected option in a previous optgroup, condition 4
+									if check_selected_option(prev_ele, &option_tag) {
+										return false;
+									}
 									prev = prev_ele.previous_element_sibling();
 								}
 								// check if the select has selected option, condition 4
-- 
2.43.0


From b3912cf4cbfa40b8618153b64f6b2c2bdceb3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:26 +0000
Subject: [PATCH 14/42] fix: reading attributes of a document root gives none
 instead of a panic

---
 src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b65dca9..26e0fba 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -611,10 +611,11 @@ impl IElementTrait for Rc<RefCell<Node>> {
 	fn get_attribute(&self, name: &str) -> Option<IAttrValue> {
 		// use lowercase to get attribute: issue: #2
 		let node = &self.borrow();
-		let meta = node
-			.meta
-			.as_ref()
-			.expect("Element node must have a meta field.");
+		let meta = match node.meta.as_ref() {
+			Some(meta) => meta,
+			// the root of a document has no attributes
+			None => return None,
+		};
 		// if has meta, then compare with lowercase
 		let lc_name_map = &meta.borrow().lc_name_map;
 		if !lc_name_map.is_empty() {
@@ -634,10 +635,11 @@ impl IElementTrait for Rc<RefCell<Node>> {
 
 	fn get_attributes(&self) -> Vec<(String, IAttrValue)> {
 		let node = &self.borrow();
-		let meta = node
-			.meta
-			.as_ref()
-			.expect("Element node must have a meta field.");
+		let meta = match node.meta.as_ref() {
+			Some(meta) => meta,
+			// the root of a document has no attributes
+			None => return vec![],
+		};
 		let attrs = &meta.borrow().attrs;
 		let attr_map = meta
 			.borrow()
-- 
2.43.0


From 0082ef21c867e281d40473b47f428c558b629965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:15 +0000
Subject: [PATCH 15/42] fix: overwriting an attribute also updates its quoting

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 26e0fba..a36ca60 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -712,7 +712,11 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			};
 			// find the attribute, just set the value
 			if let Some(index) = find_index {
-				meta.borrow_mut().attrs[index].value = value;
+				let attr = &mut meta.borrow_mut().attrs[index];
+				// the quote must fit the new value
+				attr.quote = if value.is_some() { Some(quote) } else { None };
+				attr.need_quote = need_quote;
+				attr.value = value;
 				return;
 			}
 			// new attribute, add it to the attrs and add a lowercase name to lc_name_map
-- 
2.43.0


From 4d1ab66e12dbe035b9e340cecef2fdc230c9593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:20 +0000
Subject: [PATCH 16/42] fix: removing an attribute works in any letter case and
 leaves no gap

---
 src/lib.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a36ca60..b057b5e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -747,10 +747,24 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				}
 			}
 			if let Some(index) = find_index {
-				// set attr data as null data
-				meta.borrow_mut().attrs[index] = Attr::default();
+				let lc_name = name.to_ascii_lowercase();
+				let meta = &mut *meta.borrow_mut();
+				// remove the attr data and its repetitions
+				let mut removed_indexs: Vec<usize> = vec![index];
+				for (cur_index, attr) in meta.attrs.iter().enumerate().skip(index + 1) {
+					if let Some(key) = &attr.key {
+						if key.content.iter().collect::<String>().to_ascii_lowercase() == lc_name {
+							removed_indexs.push(cur_index);
+						}
+					}
+				}
+				retain_by_index(&mut meta.attrs, &removed_indexs);
 				// remove name from names map
-				meta.borrow_mut().lc_name_map.remove(name);
+				meta.lc_name_map.remove(&lc_name);
+				// the following attrs move forward
+				for cur_index in meta.lc_name_map.values_mut() {
+					*cur_index -= removed_indexs.iter().filter(|&i| i < cur_index).count();
+				}
 			}
 		}
 	}
-- 
2.43.0


From 6aee231c7e42c8e133ca521020004d423c6141cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:53 +0000
Subject: [PATCH 17/42] fix: class operations handle repeated and reordered
 names

---
 src/mesdoc/interface/elements.rs | 37 ++++++++++++++++----------------
 src/mesdoc/utils.rs              | 11 ++++++++++
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 7c6d2cd..0af5bfc 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -17,7 +17,7 @@ use crate::mesdoc::{
 };
 use crate::mesdoc::{
 	selector::rule::MatchSpecifiedHandle,
-	utils::{get_class_list, retain_by_index},
+	utils::{get_class_list, get_unique_class_list},
 };
 use std::collections::HashMap;
 use std::collections::HashSet;
@@ -3356,7 +3356,7 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn add_class(&mut self, class_name: &str) -> &mut Self {
-		let class_list = get_class_list(class_name);
+		let class_list = get_unique_class_list(class_name);
 		if !class_list.is_empty() {
 			for ele in self.get_mut_ref() {
 				let class_value = ele.get_attribute(ATTR_CLASS);
@@ -3373,7 +3373,10 @@ impl<'a> Elements<'a> {
 					);
 					continue;
 				}
-				ele.set_attribute(ATTR_CLASS, Some(class_name));
+				ele.set_attribute(
+					ATTR_CLASS,
+					Some(class_list_to_string(&class_list).as_str()),
+				);
 			}
 		}
 		self
@@ -3414,14 +3417,9 @@ impl<'a> Elements<'a> {
 				let class_value = ele.get_attribute(ATTR_CLASS);
 				if let Some(IAttrValue::Value(cls, _)) = class_value {
 					let mut orig_class_list = get_class_list(&cls);
-					let mut removed_indexs: Vec<usize> = Vec::with_capacity(class_list.len());
-					for class_name in &class_list {
-						if let Some(index) = orig_class_list.iter().position(|name| name == class_name) {
-							removed_indexs.push(index);
-						}
-					}
-					if !removed_indexs.is_empty() {
-						retain_by_index(&mut orig_class_list, &removed_indexs);
+					let orig_total = orig_class_list.len();
+					orig_class_list.retain(|name| !class_list.contains(name));
+					if orig_class_list.len() < orig_total {
 						ele.set_attribute(
 							ATTR_CLASS,
 							Some(class_list_to_string(&orig_class_list).as_str()),
@@ -3463,24 +3461,22 @@ impl<'a> Elements<'a> {
 	pub fn toggle_class(&mut self, class_name: &str) -> &mut Self {
 		let class_name = class_name.trim();
 		if !class_name.is_empty() {
-			let class_list = get_class_list(class_name);
+			let class_list = get_unique_class_list(class_name);
 			let total = class_list.len();
 			for ele in self.get_mut_ref() {
 				let class_value = ele.get_attribute(ATTR_CLASS);
 				if let Some(IAttrValue::Value(cls, _)) = class_value {
 					let mut orig_class_list = get_class_list(&cls);
-					let mut removed_indexs: Vec<usize> = Vec::with_capacity(total);
 					let mut added_class_list: Vec<Vec<char>> = Vec::with_capacity(total);
 					for class_name in &class_list {
-						if let Some(index) = orig_class_list.iter().position(|name| name == class_name) {
-							removed_indexs.push(index);
-						} else {
+						if !orig_class_list.contains(class_name) {
 							added_class_list.push(class_name.clone());
 						}
 					}
 					let mut need_set = false;
-					if !removed_indexs.is_empty() {
-						retain_by_index(&mut orig_class_list, &removed_indexs);
+					let orig_total = orig_class_list.len();
+					orig_class_list.retain(|name| !class_list.contains(name));
+					if orig_class_list.len() < orig_total {
 						need_set = true;
 					}
 					if !added_class_list.is_empty() {
@@ -3495,7 +3491,10 @@ impl<'a> Elements<'a> {
 					}
 					continue;
 				}
-				ele.set_attribute(ATTR_CLASS, Some(class_name));
+				ele.set_attribute(
+					ATTR_CLASS,
+					Some(class_list_to_string(&class_list).as_str()),
+				);
 			}
 		}
 		self
diff --git a/src/mesdoc/utils.rs b/src/mesdoc/utils.rs
index 1e338b1..89ac33c 100644
--- a/src/mesdoc/utils.rs
+++ b/src/mesdoc/utils.rs
@@ -151,6 +151,17 @@ pub fn get_class_list(attr_class: &str) -> Vec<Vec<char>> {
 	class_list
 }
 
+// get a class list without repeated names
+pub fn get_unique_class_list(attr_class: &str) -> Vec<Vec<char>> {
+	let mut class_list: Vec<Vec<char>> = Vec::with_capacity(2);
+	for class_name in get_class_list(attr_class) {
+		if !class_list.contains(&class_name) {
+			class_list.push(class_name);
+		}
+	}
+	class_list
+}
+
 // get a string from class list
 pub fn class_list_to_string(class_list: &[Vec<char>]) -> String {
 	let total = class_list.len();
-- 
2.43.0


From 5e2647280fdb6f7672193482622bae38feb16802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:43 +0000
Subject: [PATCH 18/42] fix: inserting several elements keeps their order

---
 src/mesdoc/interface/elements.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 0af5bfc..1bc8be7 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3637,9 +3637,13 @@ impl<'a> Elements<'a> {
 	cfg_feat_insertion! {
 		// `insert`
 		fn insert(&mut self, dest: &Elements, position: &InsertPosition) {
+			// keep the original order of the inserted elements
+			let reverse = matches!(position, InsertPosition::AfterBegin | InsertPosition::AfterEnd);
 			for ele in self.get_mut_ref() {
-				for inserted in dest.get_ref().iter().rev() {
-					ele.insert_adjacent(position, inserted);
+				let total = dest.length();
+				for index in 0..total {
+					let index = if reverse { total - 1 - index } else { index };
+					ele.insert_adjacent(position, &dest.get_ref()[index]);
 				}
 			}
 		}
-- 
2.43.0


From ce5519da1b5cefb0e88fb35e51631a2fd1c7b3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:10 +0000
Subject: [PATCH 19/42] fix: nodes taken out of the tree no longer report a
 parent

---
 src/lib.rs | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b057b5e..79eb73e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -123,6 +123,20 @@ fn reset_next_siblings_index(start_index: usize, childs: &[RefNode]) {
 	}
 }
 
+// a node taken out of the tree has no parent any more
+fn detach_node(node: &RefNode) {
+	let mut node = node.borrow_mut();
+	node.parent = None;
+	node.index = 0;
+}
+
+// take all the childs out of the node
+fn detach_childs(node: &mut Node) {
+	if let Some(childs) = node.childs.take() {
+		childs.iter().for_each(detach_node);
+	}
+}
+
 fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool {
 	let mut not_allowed_indexs: Vec<usize> = Vec::with_capacity(nodes.len());
 	let orig_len = nodes.len();
@@ -266,6 +280,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 						// set text node parent
 						text_node.parent = Some(Rc::downgrade(self));
 						// set childs
+						detach_childs(&mut node);
 						node.childs = Some(vec![Rc::new(RefCell::new(text_node))]);
 					} else {
 						node.content = Some(content.chars().collect::<Vec<char>>());
@@ -273,7 +288,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				} else {
 					// empty content
 					if no_content_tag {
-						node.childs = None;
+						detach_childs(&mut node);
 					} else {
 						node.content = None;
 					}
@@ -363,6 +378,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 							reset_next_siblings_index(0, &nodes);
 						}
 						// set childs as new nodes
+						detach_childs(&mut target.borrow_mut());
 						(*target.borrow_mut()).childs = if has_nodes { Some(nodes) } else { None };
 					} else if let Some(childs) = &mut target.borrow_mut().childs {
 						let index = self.index();
@@ -386,7 +402,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 					}
 				} else {
 					// empty html, just set childs to none
-					target.borrow_mut().childs = None;
+					detach_childs(&mut target.borrow_mut());
 				}
 			}
 		}
@@ -398,14 +414,14 @@ impl ITextTrait for Rc<RefCell<Node>> {
 		/// Remove a text node.
 		fn remove(self: Box<Self>) {
 			let index = self.index();
-			if let Some(parent) = &self.borrow_mut().parent {
-				if let Some(parent) = parent.upgrade() {
-					if let Some(childs) = &mut parent.borrow_mut().childs {
-						// remove the text node
-						childs.remove(index);
-						// change next siblings index
-						reset_next_siblings_index(index, &childs[index..]);
-					}
+			let parent = self.borrow().parent.as_ref().and_then(|parent| parent.upgrade());
+			if let Some(parent) = parent {
+				if let Some(childs) = &mut parent.borrow_mut().childs {
+					// remove the text node
+					let removed = childs.remove(index);
+					detach_node(&removed);
+					// change next siblings index
+					reset_next_siblings_index(index, &childs[index..]);
 				}
 			}
 		}
@@ -813,8 +829,9 @@ impl IElementTrait for Rc<RefCell<Node>> {
 						if index != childs.len() - 1 {
 							reset_next_siblings_index(index, &childs[index + 1..]);
 						}
-						// remove child
-						childs.remove(index);
+						// remove child, it has no parent any more
+						let removed = childs.remove(index);
+						detach_node(&removed);
 					}
 				}
 			}
-- 
2.43.0


From 172e27082accf39676e73d28300f77af4a2092b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:32 +0000
Subject: [PATCH 20/42] fix: set_html handles unparsable html, empty html for a
 text node and top level text nodes

---
 src/lib.rs | 50 ++++++++++++++++++++------------------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 79eb73e..e03021e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -330,41 +330,22 @@ impl INodeTrait for Rc<RefCell<Node>> {
 			_ => None,
 		};
 		if let Some(target) = &target {
-			if check_if_content_tag(
-				&target
-					.borrow()
-					.meta
-					.as_ref()
-					.expect("A tag use `set_html` must have a tag name.")
-					.borrow()
-					.name,
-			) {
+			// the parent of a top level text node has no tag name
+			let tag_name = target.tag_names();
+			if check_if_content_tag(&tag_name) {
 				// content tag, just set html as content, no need encode
 				target.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
 			} else {
-				let doc_holder = Doc::parse(
-					content,
-					ParseOptions {
-						auto_fix_unexpected_endtag: true,
-						auto_fix_unescaped_lt: true,
-						allow_self_closing: true,
-						allow_attr_key_starts_with_equal_sign: true,
-						..Default::default()
-					},
-				)
-				.unwrap();
+				let doc_holder = match Doc::parse(content, Vis::options()) {
+					Ok(doc_holder) => doc_holder,
+					Err(e) => {
+						Dom::halt(self, "set_html", &e.to_string());
+						return;
+					}
+				};
 				if let Some(nodes) = &mut doc_holder.get_root_node().borrow_mut().childs {
 					let mut nodes = nodes.split_off(0);
-					let has_not_allowed = remove_not_allowed_nodes(
-						&target
-							.borrow()
-							.meta
-							.as_ref()
-							.expect("A tag use `set_html` must have a tag name.")
-							.borrow()
-							.name,
-						&mut nodes,
-					);
+					let has_not_allowed = remove_not_allowed_nodes(&tag_name, &mut nodes);
 					let has_nodes = !nodes.is_empty();
 					if has_nodes {
 						// set nodes parent as target
@@ -397,9 +378,18 @@ impl INodeTrait for Rc<RefCell<Node>> {
 							// then just remove self
 							childs.remove(index);
 						}
+						detach_node(self);
 					} else {
 						// text node's parent can't be empty
 					}
+				} else if !is_element {
+					// empty html, just remove the text node
+					if let Some(childs) = &mut target.borrow_mut().childs {
+						let index = self.index();
+						let removed = childs.remove(index);
+						detach_node(&removed);
+						reset_next_siblings_index(index, &childs[index..]);
+					}
 				} else {
 					// empty html, just set childs to none
 					detach_childs(&mut target.borrow_mut());
-- 
2.43.0


From 05cd43b9e26daff634f4a635d4c3e85404ae7af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:53 +0000
Subject: [PATCH 21/42] fix: inserted and newly set nodes belong to the
 document they are in

---
 src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e03021e..caf9a67 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -36,7 +36,7 @@ use rphtml::{
 };
 use std::borrow::Cow;
 use std::collections::BTreeMap;
-use std::rc::Rc;
+use std::rc::{Rc, Weak};
 use std::{any::Any, cell::RefCell};
 // re export `IAttrValue` `IEnumTyped` `INodeType`
 pub mod types {
@@ -123,6 +123,16 @@ fn reset_next_siblings_index(start_index: usize, childs: &[RefNode]) {
 	}
 }
 
+// the nodes and all their descendants belong to the document of the root
+fn reset_nodes_root(nodes: &[RefNode], root: &Option<Weak<RefCell<Node>>>) {
+	for node in nodes {
+		node.borrow_mut().root = root.clone();
+		if let Some(childs) = &node.borrow().childs {
+			reset_nodes_root(childs, root);
+		}
+	}
+}
+
 // a node taken out of the tree has no parent any more
 fn detach_node(node: &RefNode) {
 	let mut node = node.borrow_mut();
@@ -279,6 +289,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 						let mut text_node = Node::create_text_node(content.to_chars().unwrap(), None);
 						// set text node parent
 						text_node.parent = Some(Rc::downgrade(self));
+						text_node.root = node.root.clone();
 						// set childs
 						detach_childs(&mut node);
 						node.childs = Some(vec![Rc::new(RefCell::new(text_node))]);
@@ -352,6 +363,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 						for node in &nodes {
 							node.borrow_mut().parent = Some(Rc::downgrade(target));
 						}
+						reset_nodes_root(&nodes, &target.borrow().root);
 					}
 					if is_element {
 						// reset node indexs
@@ -868,6 +880,7 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				if nodes.is_empty() {
 					return;
 				}
+				reset_nodes_root(&nodes, &self.borrow().root);
 				match position {
 					BeforeBegin | AfterEnd => {
 						// get index first, for borrow check
@@ -981,6 +994,7 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				if nodes.is_empty(){
 					return;
 				}
+				reset_nodes_root(&nodes, &self.borrow().root);
 				// get index first, for borrow check
 				let index = self.index();
 				let insert_len = nodes.len();
-- 
2.43.0


From d1ef6025178e2723ccba2916a9b1607af128c25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:29 +0000
Subject: [PATCH 22/42] fix: an insertion or replacement that cannot be done is
 reported and leaves the content in place

---
 src/lib.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index caf9a67..1ebaf9f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -860,14 +860,9 @@ impl IElementTrait for Rc<RefCell<Node>> {
 							vec![]
 						}
 					}
-					_ => {
-						// remove current node from parent's childs
-						if let Some(parent) = &mut node.parent() {
-							parent.remove_child(node.cloned());
-						}
-						vec![*dom]
-					}
+					_ => vec![*dom],
 				};
+				let has_content = !nodes.is_empty();
 				// filter the node allowed
 				let tag_name = self.tag_names();
 				// insert
@@ -878,8 +873,22 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				}
 				// check if is empty
 				if nodes.is_empty() {
+					if has_content {
+						Dom::halt(self, action, &format!("Can't {} the content into the tag", action));
+					}
 					return;
 				}
+				// a sibling needs a parent
+				if matches!(position, BeforeBegin | AfterEnd) && self.parent().is_none() {
+					Dom::halt(self, action, &format!("Can't {} a dom that has no parent", action));
+					return;
+				}
+				// remove current node from parent's childs, after the checks
+				if !matches!(node_type, INodeType::DocumentFragement) {
+					if let Some(parent) = &mut node.parent() {
+						parent.remove_child(node.cloned());
+					}
+				}
 				reset_nodes_root(&nodes, &self.borrow().root);
 				match position {
 					BeforeBegin | AfterEnd => {
@@ -965,6 +974,14 @@ impl IElementTrait for Rc<RefCell<Node>> {
 		}
 		// replace with
 		fn replace_with(&mut self, node: &BoxDynElement){
+			let action = "replace with";
+			if !Dom::validate_dom_change(self, node, action) {
+				return;
+			}
+			if self.parent().is_none() {
+				Dom::halt(self, action, &format!("Can't {} for a dom that has no parent", action));
+				return;
+			}
 			let node_type = node.node_type();
 			let specified: Box<dyn Any> = node.cloned().to_node();
 			let mut replace_ele: Option<RefNode> = None;
@@ -1023,7 +1040,6 @@ impl IElementTrait for Rc<RefCell<Node>> {
 					*self = replace_ele;
 				}
 			} else {
-				let action = "replace with";
 				Dom::halt(
 					self,
 					action,
-- 
2.43.0


From 3456398153ef84da21bc5236cb2b9679d1ceb4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:35 +0000
Subject: [PATCH 23/42] fix: replace_with puts all the given elements in place
 of the replaced one

---
 src/lib.rs                       | 2 ++
 src/mesdoc/interface/elements.rs | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1ebaf9f..d6059db 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1036,6 +1036,8 @@ impl IElementTrait for Rc<RefCell<Node>> {
 						}
 					}
 				}
+				// the replaced one is no longer in the tree
+				detach_node(self);
 				if let Some(replace_ele) = replace_ele {
 					*self = replace_ele;
 				}
diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 1bc8be7..9e988ca 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3650,8 +3650,12 @@ impl<'a> Elements<'a> {
 		// `replace`
 		fn replace(&mut self, dest: &Elements){
 			for ele in self.get_mut_ref() {
-				for inserted in dest.get_ref().iter().rev() {
-					ele.replace_with(inserted);
+				// the last one takes the place of the element, the others go in front of it
+				if let Some((last, fronts)) = dest.get_ref().split_last() {
+					for inserted in fronts {
+						ele.insert_adjacent(&InsertPosition::BeforeBegin, inserted);
+					}
+					ele.replace_with(last);
 				}
 			}
 		}
-- 
2.43.0


From bb650bc0a9405aec146437abb9f492bb80d9cd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:40 +0000
Subject: [PATCH 24/42] fix: inserting a document fragment moves its nodes,
 further targets get copies

---
 src/lib.rs                       | 22 ++++++++++++++++++++++
 src/mesdoc/interface/elements.rs | 27 +++++++++++++++++++++------
 2 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d6059db..dd18286 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -140,6 +140,23 @@ fn detach_node(node: &RefNode) {
 	node.index = 0;
 }
 
+cfg_feat_insertion! {
+	// the nodes inserted elsewhere are no longer childs of the document fragment
+	fn take_out_of_fragment(fragment: &BoxDynElement, nodes: &[RefNode]) {
+		let specified: Box<dyn Any> = fragment.cloned().to_node();
+		if let Ok(dom) = specified.downcast::<RefNode>() {
+			let mut fragment = dom.borrow_mut();
+			if let Some(mut childs) = fragment.childs.take() {
+				childs.retain(|child| !nodes.iter().any(|node| Node::is_same(child, node)));
+				if !childs.is_empty() {
+					reset_next_siblings_index(0, &childs);
+					fragment.childs = Some(childs);
+				}
+			}
+		}
+	}
+}
+
 // take all the childs out of the node
 fn detach_childs(node: &mut Node) {
 	if let Some(childs) = node.childs.take() {
@@ -888,6 +905,8 @@ impl IElementTrait for Rc<RefCell<Node>> {
 					if let Some(parent) = &mut node.parent() {
 						parent.remove_child(node.cloned());
 					}
+				} else {
+					take_out_of_fragment(node, &nodes);
 				}
 				reset_nodes_root(&nodes, &self.borrow().root);
 				match position {
@@ -1011,6 +1030,9 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				if nodes.is_empty(){
 					return;
 				}
+				if matches!(node_type, INodeType::DocumentFragement) {
+					take_out_of_fragment(node, &nodes);
+				}
 				reset_nodes_root(&nodes, &self.borrow().root);
 				// get index first, for borrow check
 				let index = self.index();
diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 9e988ca..d51ef6a 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3,7 +3,7 @@ cfg_feat_text! {
 	use super::{BoxDynText, Texts};
 }
 cfg_feat_insertion! {
-	use super::InsertPosition;
+	use super::{INodeType, InsertPosition};
 }
 use super::{BoxDynElement, IAttrValue, IElementTrait, IFormValue, MaybeDoc};
 use crate::mesdoc::error::BoxDynError;
@@ -3552,6 +3552,17 @@ cfg_feat_mutation! {
 	}
 }
 
+cfg_feat_insertion! {
+	// every target gets the nodes of a document fragment, all but the last one get copies
+	fn content_for_target<'a>(content: &BoxDynElement<'a>, is_last: bool) -> BoxDynElement<'a> {
+		if !is_last && matches!(content.node_type(), INodeType::DocumentFragement) {
+			content.copied()
+		} else {
+			content.cloned()
+		}
+	}
+}
+
 impl<'a> Elements<'a> {
 	// when feature 'destroy' or 'insertion' is open
 	cfg_feat_mutation! {
@@ -3639,23 +3650,27 @@ impl<'a> Elements<'a> {
 		fn insert(&mut self, dest: &Elements, position: &InsertPosition) {
 			// keep the original order of the inserted elements
 			let reverse = matches!(position, InsertPosition::AfterBegin | InsertPosition::AfterEnd);
-			for ele in self.get_mut_ref() {
+			let target_total = self.length();
+			for (target_index, ele) in self.get_mut_ref().iter_mut().enumerate() {
 				let total = dest.length();
+				let is_last = target_index + 1 == target_total;
 				for index in 0..total {
 					let index = if reverse { total - 1 - index } else { index };
-					ele.insert_adjacent(position, &dest.get_ref()[index]);
+					ele.insert_adjacent(position, &content_for_target(&dest.get_ref()[index], is_last));
 				}
 			}
 		}
 		// `replace`
 		fn replace(&mut self, dest: &Elements){
-			for ele in self.get_mut_ref() {
+			let target_total = self.length();
+			for (target_index, ele) in self.get_mut_ref().iter_mut().enumerate() {
+				let is_last = target_index + 1 == target_total;
 				// the last one takes the place of the element, the others go in front of it
 				if let Some((last, fronts)) = dest.get_ref().split_last() {
 					for inserted in fronts {
-						ele.insert_adjacent(&InsertPosition::BeforeBegin, inserted);
+						ele.insert_adjacent(&InsertPosition::BeforeBegin, &content_for_target(inserted, is_last));
 					}
-					ele.replace_with(last);
+					ele.replace_with(&content_for_target(last, is_last));
 				}
 			}
 		}
-- 
2.43.0


From 8b17e90f0ca2eef7f9c8d3d11e6940db28d1fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:25 +0000
Subject: [PATCH 25/42] fix: copying a tree whose nodes come from different
 documents does not overflow

---
 src/lib.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index dd18286..427ce7e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -123,6 +123,36 @@ fn reset_next_siblings_index(start_index: usize, childs: &[RefNode]) {
 	}
 }
 
+// copy a node with all its descendants, they may come from different documents
+fn copy_tree(node: &RefNode) -> RefNode {
+	let node = node.borrow();
+	let copied = Rc::new(RefCell::new(Node {
+		index: 0,
+		node_type: node.node_type,
+		begin_at: node.begin_at,
+		end_at: node.end_at,
+		end_tag: node.end_tag.as_ref().map(copy_tree),
+		root: node.root.clone(),
+		document: node.document.clone(),
+		content: node.content.clone(),
+		meta: node
+			.meta
+			.as_ref()
+			.map(|meta| RefCell::new(meta.borrow().clone())),
+		..Default::default()
+	}));
+	if let Some(childs) = &node.childs {
+		let childs: Vec<RefNode> = childs.iter().map(copy_tree).collect();
+		for (index, child) in childs.iter().enumerate() {
+			let mut child = child.borrow_mut();
+			child.index = index;
+			child.parent = Some(Rc::downgrade(&copied));
+		}
+		copied.borrow_mut().childs = Some(childs);
+	}
+	copied
+}
+
 // the nodes and all their descendants belong to the document of the root
 fn reset_nodes_root(nodes: &[RefNode], root: &Option<Weak<RefCell<Node>>>) {
 	for node in nodes {
@@ -204,7 +234,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 
 	/// impl standard semantics `clone_node` method
 	fn copy_node<'b>(&self) -> BoxDynNode<'b> {
-		Box::new(self.borrow().clone_node())
+		Box::new(copy_tree(self))
 	}
 
 	/// impl `typed`
-- 
2.43.0


From 892ce153c654bf9e2949e0591ee239b589130cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:30 +0000
Subject: [PATCH 26/42] fix: append_text and prepend_text on an empty content
 tag do not panic

---
 src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 427ce7e..a997cab 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -478,20 +478,22 @@ impl ITextTrait for Rc<RefCell<Node>> {
 		// append text
 		fn append_text(&mut self, content: &str) {
 			let chars = content.chars().collect::<Vec<char>>();
-			if let Some(content) = &mut self.borrow_mut().content {
+			let mut node = self.borrow_mut();
+			if let Some(content) = &mut node.content {
 				content.extend(chars);
 			} else {
-				self.borrow_mut().content = Some(chars);
+				node.content = Some(chars);
 			}
 		}
 
 		// prepend text
 		fn prepend_text(&mut self, content: &str) {
 			let chars = content.chars().collect::<Vec<char>>();
-			if let Some(content) = &mut self.borrow_mut().content {
+			let mut node = self.borrow_mut();
+			if let Some(content) = &mut node.content {
 				content.splice(0..0, chars);
 			} else {
-				self.borrow_mut().content = Some(chars);
+				node.content = Some(chars);
 			}
 		}
 	}
-- 
2.43.0


From 3f3e9b1175c075c102dbc545b2afdce438ba4837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:36 +0000
Subject: [PATCH 27/42] fix: text set on a node of spaces is decoded like any
 other text

---
 src/lib.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a997cab..3991b14 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -123,6 +123,18 @@ fn reset_next_siblings_index(start_index: usize, childs: &[RefNode]) {
 	}
 }
 
+// spaces that got other characters are a normal text
+fn reset_text_type(node: &RefNode) {
+	let mut node = node.borrow_mut();
+	if node.node_type == NodeType::SpacesBetweenTag {
+		if let Some(content) = &node.content {
+			if content.iter().any(|ch| !ch.is_ascii_whitespace()) {
+				node.node_type = NodeType::Text;
+			}
+		}
+	}
+}
+
 // copy a node with all its descendants, they may come from different documents
 fn copy_tree(node: &RefNode) -> RefNode {
 	let node = node.borrow();
@@ -360,6 +372,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				} else {
 					// replace the text content
 					self.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
+					reset_text_type(self);
 				}
 			}
 			_ => {
@@ -484,6 +497,8 @@ impl ITextTrait for Rc<RefCell<Node>> {
 			} else {
 				node.content = Some(chars);
 			}
+			drop(node);
+			reset_text_type(self);
 		}
 
 		// prepend text
@@ -495,6 +510,8 @@ impl ITextTrait for Rc<RefCell<Node>> {
 			} else {
 				node.content = Some(chars);
 			}
+			drop(node);
+			reset_text_type(self);
 		}
 	}
 }
-- 
2.43.0


From ffb15fd47caba1618f70d23f2b47344c3740732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:59 +0000
Subject: [PATCH 28/42] fix: set_text on a void tag does not add a text that
 belongs behind it

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3991b14..37f7b7e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -335,7 +335,12 @@ impl INodeTrait for Rc<RefCell<Node>> {
 		let node_type = self.node_type();
 		match node_type {
 			INodeType::Element => {
-				let no_content_tag = !check_if_content_tag(&self.tag_names());
+				let tag_name = self.tag_names();
+				// a void tag can't have a text, same as `set_html`
+				if !allow_insert(&tag_name, NodeType::Text) {
+					return;
+				}
+				let no_content_tag = !check_if_content_tag(&tag_name);
 				let mut node = self.borrow_mut();
 				if !content.is_empty() {
 					if no_content_tag {
-- 
2.43.0


From dcdbe44105864cefdc2be8ba50c25a9b9bab741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:29 +0000
Subject: [PATCH 29/42] fix: the document title is the first title element

---
 src/mesdoc/interface/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesdoc/interface/document.rs b/src/mesdoc/interface/document.rs
index 745d710..e6bc2e5 100644
--- a/src/mesdoc/interface/document.rs
+++ b/src/mesdoc/interface/document.rs
@@ -21,7 +21,7 @@ pub trait IDocumentTrait {
 	fn title(&self) -> Option<String> {
 		if let Some(root) = &self.get_root_node().root_element() {
 			let root = Elements::with_node(root);
-			let title = root.find("head").eq(0).find("title");
+			let title = root.find("head").eq(0).find("title").eq(0);
 			if !title.is_empty() {
 				return Some(title.text());
 			}
-- 
2.43.0


From 7474fa9a371fe77844c636dc6fea78fa704ea516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:23 +0000
Subject: [PATCH 30/42] fix: setting the text or html of a content tag also
 replaces the text nodes inserted into it

---
 src/lib.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 37f7b7e..475fb28 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -358,13 +358,14 @@ impl INodeTrait for Rc<RefCell<Node>> {
 						detach_childs(&mut node);
 						node.childs = Some(vec![Rc::new(RefCell::new(text_node))]);
 					} else {
+						// the text nodes inserted into the tag are replaced too
+						detach_childs(&mut node);
 						node.content = Some(content.chars().collect::<Vec<char>>());
 					}
 				} else {
 					// empty content
-					if no_content_tag {
-						detach_childs(&mut node);
-					} else {
+					detach_childs(&mut node);
+					if !no_content_tag {
 						node.content = None;
 					}
 				}
@@ -410,7 +411,16 @@ impl INodeTrait for Rc<RefCell<Node>> {
 			let tag_name = target.tag_names();
 			if check_if_content_tag(&tag_name) {
 				// content tag, just set html as content, no need encode
-				target.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
+				let content = Some(content.chars().collect::<Vec<char>>());
+				if is_element {
+					// the text nodes inserted into the tag are replaced too
+					let mut target = target.borrow_mut();
+					detach_childs(&mut target);
+					target.content = content;
+				} else {
+					self.borrow_mut().content = content;
+					reset_text_type(self);
+				}
 			} else {
 				let doc_holder = match Doc::parse(content, Vis::options()) {
 					Ok(doc_holder) => doc_holder,
-- 
2.43.0


From 3ecceaff01a36b84192b4272a5cf01f860ca1273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:05 +0000
Subject: [PATCH 31/42] fix: sets with elements of several trees keep all their
 members

---
 src/mesdoc/interface/elements.rs | 73 +++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 24 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index d51ef6a..949146a 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -20,7 +20,6 @@ use crate::mesdoc::{
 	utils::{get_class_list, get_unique_class_list},
 };
 use std::collections::HashMap;
-use std::collections::HashSet;
 use std::{
 	cmp::Ordering,
 	collections::VecDeque,
@@ -40,6 +39,15 @@ fn get_tree_indexs(ele: &BoxDynElement) -> VecDeque<usize> {
 	indexs
 }
 
+// get the topmost element of the tree
+fn get_tree_top<'a>(ele: &BoxDynElement<'a>) -> BoxDynElement<'a> {
+	let mut top = ele.cloned();
+	while let Some(parent) = top.parent() {
+		top = parent;
+	}
+	top
+}
+
 // compare indexs
 fn compare_indexs(a: &VecDeque<usize>, b: &VecDeque<usize>) -> Ordering {
 	let a_total = a.len();
@@ -362,7 +370,9 @@ impl<'a> Elements<'a> {
 	// keep one sibling, first<asc:true> or last<asc:false>
 	fn unique_sibling(&self, asc: bool) -> Elements<'a> {
 		let total = self.length();
-		let mut parents_indexs: HashSet<VecDeque<usize>> = HashSet::with_capacity(total);
+		// elements of different trees may have the same indexs
+		let mut parents_indexs: HashMap<VecDeque<usize>, Vec<BoxDynElement>> =
+			HashMap::with_capacity(total);
 		let mut uniques: Vec<BoxDynElement> = Vec::with_capacity(total);
 		let mut prev_parent: Option<BoxDynElement> = None;
 		let mut has_root = false;
@@ -375,13 +385,14 @@ impl<'a> Elements<'a> {
 				}
 				// parents
 				let indexs = get_tree_indexs(&parent);
-				// set prev parent
-				prev_parent = Some(parent);
+				let parents = parents_indexs.entry(indexs).or_default();
 				// new parent
-				if parents_indexs.get(&indexs).is_none() {
-					parents_indexs.insert(indexs);
+				if !parents.iter().any(|exist| exist.is(&parent)) {
+					parents.push(parent.cloned());
 					uniques.push(ele.cloned());
 				}
+				// set prev parent
+				prev_parent = Some(parent);
 			} else if !has_root {
 				has_root = true;
 				uniques.push(ele.cloned());
@@ -414,30 +425,23 @@ impl<'a> Elements<'a> {
 		// should first unique siblings
 		// if have two siblings, then use parent.children
 		let total = self.length();
-		let mut parents_indexs: HashMap<VecDeque<usize>, (usize, bool)> = HashMap::with_capacity(total);
+		// elements of different trees may have the same indexs
+		let mut parents_indexs: HashMap<VecDeque<usize>, Vec<(BoxDynElement, usize)>> =
+			HashMap::with_capacity(total);
 		let mut uniques: Vec<(BoxDynElement, bool)> = Vec::with_capacity(total);
-		let mut parents: HashMap<usize, BoxDynElement> = HashMap::with_capacity(total);
 		// just keep one sibling node
 		for ele in self.get_ref() {
 			if let Some(parent) = ele.parent() {
 				// parent indexs
 				let indexs = get_tree_indexs(&parent);
-				if let Some((index, changed)) = parents_indexs.get_mut(&indexs) {
-					if !*changed {
-						let index = *index;
-						*changed = true;
-						uniques[index] = (
-							parents
-								.remove(&index)
-								.expect("When call `unique_all_siblings`, the parents variable's index must exist"),
-							true,
-						);
+				let parents = parents_indexs.entry(indexs).or_default();
+				if let Some((_, index)) = parents.iter().find(|(exist, _)| exist.is(&parent)) {
+					if !uniques[*index].1 {
+						uniques[*index] = (parent, true);
 					}
 				} else {
-					let cur_index = uniques.len();
-					parents_indexs.insert(indexs, (cur_index, false));
+					parents.push((parent, uniques.len()));
 					uniques.push((ele.cloned(), false));
-					parents.insert(cur_index, parent);
 				}
 			}
 		}
@@ -454,9 +458,9 @@ impl<'a> Elements<'a> {
 				// just check the last ancestor
 				let (top_ele_indexs, _) = &ancestors[cur_len - 1];
 				match relation_of(&ele_indexs, top_ele_indexs) {
-					ElementRelation::Descendant => {}
 					// elements of different trees may have the same indexs
-					ElementRelation::Equal if ele.is(ancestors[cur_len - 1].1) => {}
+					ElementRelation::Descendant | ElementRelation::Equal
+						if get_tree_top(ele).is(&get_tree_top(ancestors[cur_len - 1].1)) => {}
 					_ => {
 						ancestors.push((ele_indexs, ele));
 					}
@@ -473,7 +477,19 @@ impl<'a> Elements<'a> {
 	}
 	// sort
 	fn sort(&mut self) {
-		self.get_mut_ref().sort_by_cached_key(get_tree_indexs);
+		// keep the elements of the same tree together
+		let mut tops: Vec<BoxDynElement> = Vec::with_capacity(1);
+		self.get_mut_ref().sort_by_cached_key(|ele| {
+			let top = get_tree_top(ele);
+			let tree = match tops.iter().position(|exist| exist.is(&top)) {
+				Some(tree) => tree,
+				None => {
+					tops.push(top);
+					tops.len() - 1
+				}
+			};
+			(tree, get_tree_indexs(ele))
+		});
 	}
 	// unique
 	fn unique(&mut self) {
@@ -2611,6 +2627,15 @@ impl<'a> Elements<'a> {
 		}
 		let first_eles = self;
 		let second_eles = &eles;
+		// the positions of elements of different trees can't be compared
+		let top = get_tree_top(&first_eles.get_ref()[0]);
+		let mut members = first_eles.get_ref().iter().chain(second_eles.get_ref());
+		if members.any(|ele| !get_tree_top(ele).is(&top)) {
+			let mut result = self.cloned();
+			result.get_mut_ref().extend(eles.cloned());
+			result.sort_and_unique();
+			return result;
+		}
 		// compare first and second
 		let first_count = first_eles.length();
 		let second_count = second_eles.length();
-- 
2.43.0


From 0fa5df6dd478bee6111794f097bb3b4f7dd19c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:10 +0000
Subject: [PATCH 32/42] fix: selectors with several parts are filtered
 correctly in detached trees and over several documents

---
 src/mesdoc/interface/elements.rs | 56 ++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 949146a..8e099c9 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -943,7 +943,6 @@ impl<'a> Elements<'a> {
 		let mut result = Elements::with_capacity(total);
 		let mut all_matched = false;
 		let chain_comb = Combinator::Chain;
-		let mut root: Option<Elements> = None;
 		for process in selector.process.iter() {
 			// filter methods make sure do not use `should_in`
 			let QueryProcess { query, .. } = process;
@@ -963,22 +962,19 @@ impl<'a> Elements<'a> {
 					}
 				}
 				if !filtered.is_empty() && query_num > 1 {
-					// set root first
-					root = root.or_else(|| {
-						let cur_first = filtered.get(0).expect("Filtered length greater than 0");
-						let root_element = cur_first
-							.root_element()
-							.unwrap_or_else(|| cur_first.cloned());
-						Some(Elements::with_node(&root_element))
-					});
-					// get root elements
-					let root_eles = root.as_ref().expect("root element must have");
-					// find elements from root_eles by selector
-					let lookup = Some(&query[..query_num - 1]);
+					// look up the other parts of the selector from the element
+					let lookup = &query[..query_num - 1];
 					let mut lasts = Elements::with_capacity(filtered.length());
 					let comb = &last_query_first_rule.1;
 					for ele in filtered.get_ref() {
-						if root_eles.has_ele(ele, comb, lookup) {
+						let matched = match &lookup[0][0].1 {
+							// the first part may be anywhere in the tree of the element
+							Combinator::ChildrenAll => {
+								!Elements::lookup_eles(ele, comb, lookup).0.is_empty()
+							}
+							_ => Elements::with_node(&get_tree_top(ele)).has_ele(ele, comb, Some(lookup)),
+						};
+						if matched {
 							lasts.get_mut_ref().push(ele.cloned());
 						}
 					}
@@ -1878,6 +1874,24 @@ impl<'a> Elements<'a> {
 		self.has_ele(ele, comb, None)
 	}
 
+	// look up the elements matched the first part of the lookup, and the combinator before it
+	fn lookup_eles<'b>(
+		ele: &BoxDynElement<'b>,
+		comb: &Combinator,
+		lookup: &[Vec<SelectorSegment>],
+	) -> (Elements<'b>, Combinator) {
+		let mut elements = Elements::with_node(ele);
+		let mut lookup_comb = comb.reverse();
+		for rules in lookup.iter().rev() {
+			elements = Elements::select(&elements, rules, Some(&lookup_comb));
+			if elements.is_empty() {
+				break;
+			}
+			lookup_comb = rules[0].1.reverse();
+		}
+		(elements, lookup_comb)
+	}
+
 	// `has_ele`
 	pub(crate) fn has_ele(
 		&self,
@@ -1885,17 +1899,9 @@ impl<'a> Elements<'a> {
 		comb: &Combinator,
 		lookup: Option<&[Vec<SelectorSegment>]>,
 	) -> bool {
-		let mut elements = Elements::with_node(ele);
-		let mut lookup_comb = comb.reverse();
-		if let Some(lookup) = lookup {
-			for rules in lookup.iter().rev() {
-				let finded = Elements::select(&elements, rules, Some(&lookup_comb));
-				if finded.is_empty() {
-					return false;
-				}
-				lookup_comb = rules[0].1.reverse();
-				elements = finded;
-			}
+		let (elements, lookup_comb) = Elements::lookup_eles(ele, comb, lookup.unwrap_or(&[]));
+		if elements.is_empty() {
+			return false;
 		}
 		use Combinator::*;
 		match lookup_comb {
-- 
2.43.0


From 6e235c8f25478bd53d9e490c6c9847b0315d001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:42 +0000
Subject: [PATCH 33/42] fix: Texts::filter_by keeps the texts of content tags
 instead of a panic

---
 src/mesdoc/interface/texts.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/mesdoc/interface/texts.rs b/src/mesdoc/interface/texts.rs
index 93ffc4b..297432c 100644
--- a/src/mesdoc/interface/texts.rs
+++ b/src/mesdoc/interface/texts.rs
@@ -1,5 +1,5 @@
 
-use super::BoxDynText;
+use super::{BoxDynText, IEnumTyped};
 
 pub struct Texts<'a> {
 	nodes: Vec<BoxDynText<'a>>,
@@ -54,13 +54,14 @@ impl<'a> Texts<'a> {
 		let mut result: Texts = Texts::with_capacity(self.length());
 		for (index, ele) in self.get_ref().iter().enumerate() {
 			if handle(index, ele) {
-				result.get_mut_ref().push(
-					ele
-						.clone_node()
-						.typed()
-						.into_text()
-						.expect("Text ele must can use 'into_text'."),
-				);
+				let text = match ele.clone_node().typed() {
+					// content tag, change the element into text type
+					IEnumTyped::Element(ele) => ele.into_text().ok(),
+					node => node.into_text(),
+				};
+				result
+					.get_mut_ref()
+					.push(text.expect("Text ele must can use 'into_text'."));
 			}
 		}
 		result
-- 
2.43.0


From d322494ea64314303cf219222db49156ae23d9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:43 +0000
Subject: [PATCH 34/42] hook: let the model checker replace std's
 synchronisation primitives, guarded by cfg(visdom_mc)

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 475fb28..8bea987 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,6 +9,9 @@
 //! - Useful API methods: e.g. `find`, `filter`, `has`, `is`, `not`, `add`, `closest`, `map` and so on.
 //! - Content mutations: `set_html`, `set_text` can also called by text nodes, external methods such as `append_text`、`prepend_text` are supported.
 //! - Well tested: the unit tests have covered most cases, but if you meet any bugs or questions, welcome to submit issues or PR to us.
+// for model checking only: a `std` whose synchronisation primitives are controlled by a scheduler
+#[cfg(visdom_mc)]
+extern crate mcstd as std;
 #[macro_use]
 mod macros;
 mod mesdoc;
-- 
2.43.0


From 95d9bcf9ae4d2b03617d2e44215d2d36f1e0e8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:52 +0000
Subject: [PATCH 35/42] fix: querying an element set before any document is
 loaded does not panic and break all later queries

---
 src/mesdoc/selector/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index f5f8ea3..08cc9f8 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -90,6 +90,8 @@ impl Selector {
 	}
 	pub fn from_str(context: &str, use_lookup: bool) -> Result<Self, Error> {
 		let mut selector = Selector::new();
+		// an element set may be queried before any document is loaded
+		crate::mesdoc::init();
 		let splitter = SPLITTER.lock().unwrap();
 		let rules = RULES.lock().unwrap();
 		let groups = Selector::parse_groups(context, &rules, &splitter)?;
@@ -302,6 +304,7 @@ impl Selector {
 	}
 	// make '*' with combinator
 	pub fn make_comb_all(comb: Combinator) -> SelectorSegment {
+		crate::mesdoc::init();
 		let mut all_rule = ALL_RULE.lock().unwrap();
 		if all_rule.is_none() {
 			let rules = RULES.lock().unwrap();
-- 
2.43.0


From 4b6d758f098e3891a1b97b29dc8a88c220c29459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 36/42] fix: the value of a select with options nested more
 than 255 levels deep does not overflow

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8bea987..5798494 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -589,7 +589,7 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				values: &mut Vec<String>,
 				option_tag: &[char],
 				is_multiple: bool,
-				level: u8,
+				level: usize,
 			) {
 				if let Some(childs) = &parent.borrow().childs {
 					for child in childs {
-- 
2.43.0


From f245e05427fdc8038573f0b191ba0473c1aaeeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 37/42] fix: the html of a loaded root is its whole markup
 instead of a panic

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5798494..08ef7da 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -877,7 +877,8 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			.borrow()
 			.build(
 				&RenderOptions {
-					inner_html: true,
+					// the abstract root has no tag of its own, all its markup is inner
+					inner_html: !self.is_root_element(),
 					encode_content: true,
 					..Default::default()
 				},
-- 
2.43.0


From a75d901883dcc3fb0939bcd9e4924940f196bfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:24 +0000
Subject: [PATCH 38/42] fix: the text of a loaded root is the text of the
 document instead of its markup

---
 src/lib.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 08ef7da..1580495 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -224,6 +224,17 @@ fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool
 	now_allowed_len > 0 && now_allowed_len != orig_len
 }
 
+// the text of an abstract root: the texts of its tags and its text nodes
+fn root_texts(root: &RefNode, text_of: impl Fn(&RefNode) -> Vec<char>) -> Vec<char> {
+	let mut result = vec![];
+	for child in root.borrow().childs.iter().flatten() {
+		if matches!(child.node_type(), INodeType::Element | INodeType::Text) {
+			result.extend(text_of(child));
+		}
+	}
+	result
+}
+
 fn check_if_content_tag(name: &[char]) -> bool {
 	is_content_tag(name, &Some(NameCase::Lower))
 }
@@ -312,6 +323,9 @@ impl INodeTrait for Rc<RefCell<Node>> {
 
 	/// impl `text_contents`
 	fn text_contents(&self) -> Vec<char> {
+		if self.is_root_element() {
+			return root_texts(self, |child| child.text_contents());
+		}
 		self.borrow().build(
 			&RenderOptions {
 				decode_entity: true,
@@ -324,6 +338,9 @@ impl INodeTrait for Rc<RefCell<Node>> {
 	/// impl `text_chars`
 	/// `text_chars` keep the original characters in html
 	fn text_chars(&self) -> Vec<char> {
+		if self.is_root_element() {
+			return root_texts(self, |child| child.text_chars());
+		}
 		self.borrow().build(
 			&Default::default(),
 			matches!(self.node_type(), INodeType::Element),
-- 
2.43.0


From 4a265b041bd8b78ac6329309230c57e441e6b39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:43 +0000
Subject: [PATCH 39/42] fix: set membership and :not() with a comma group do
 not depend on the order of the elements

---
 src/mesdoc/interface/elements.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 8e099c9..2d16fa6 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -1021,25 +1021,27 @@ impl<'a> Elements<'a> {
 		let total = eles.len();
 		let mut result = Elements::with_capacity(total);
 		let mut all_matched = false;
+		// the sets are mostly in the same order, but they needn't be
+		let index_in_search = |ele: &BoxDynElement, start_index: usize| {
+			search
+				.index_of(ele, start_index)
+				.or_else(|| search.index_of(ele, 0))
+		};
 		match filter_type {
 			FilterType::Filter => {
 				let mut start_index = 0;
-				let search_total = search.length();
 				for ele in eles {
-					if let Some(index) = search.index_of(ele, start_index) {
+					if let Some(index) = index_in_search(ele, start_index) {
 						// also in search, include
 						start_index = index + 1;
 						result.push(ele.cloned());
-						if start_index >= search_total {
-							break;
-						}
 					}
 				}
 			}
 			FilterType::Not => {
 				let mut start_index = 0;
 				for ele in eles {
-					if let Some(index) = search.index_of(ele, start_index) {
+					if let Some(index) = index_in_search(ele, start_index) {
 						// also in search, exclude
 						start_index = index + 1;
 					} else {
@@ -1060,7 +1062,7 @@ impl<'a> Elements<'a> {
 					let mut is_all_matched = true;
 					let mut start_index = 0;
 					for ele in eles {
-						if let Some(index) = search.index_of(ele, start_index) {
+						if let Some(index) = index_in_search(ele, start_index) {
 							// also in search, exclude
 							start_index = index + 1;
 						} else {
-- 
2.43.0


From 5c0805ace3764b0295ce70f6e3399b0c95f06169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:11 +0000
Subject: [PATCH 40/42] fix: class names are separated by ascii white space
 only, also at the ends of the class value

---
 src/mesdoc/interface/element.rs  |  2 +-
 src/mesdoc/interface/elements.rs | 15 ++++++---------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/mesdoc/interface/element.rs b/src/mesdoc/interface/element.rs
index 239ea9f..6505a3e 100644
--- a/src/mesdoc/interface/element.rs
+++ b/src/mesdoc/interface/element.rs
@@ -29,7 +29,7 @@ impl IAttrValue {
 	/// pub fn `to_list`
 	pub fn to_list(&self) -> Vec<&str> {
 		match self {
-			IAttrValue::Value(v, _) => v.trim().split_ascii_whitespace().collect::<Vec<&str>>(),
+			IAttrValue::Value(v, _) => v.split_ascii_whitespace().collect::<Vec<&str>>(),
 			IAttrValue::True => vec![],
 		}
 	}
diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 2d16fa6..76a6208 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3336,9 +3336,8 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn has_class(&self, class_name: &str) -> bool {
-		let class_name = class_name.trim();
-		if !class_name.is_empty() {
-			let class_list = get_class_list(class_name);
+		let class_list = get_class_list(class_name);
+		if !class_list.is_empty() {
 			for ele in self.get_ref() {
 				let class_value = ele.get_attribute(ATTR_CLASS);
 				if let Some(IAttrValue::Value(cls, _)) = class_value {
@@ -3443,9 +3442,8 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn remove_class(&mut self, class_name: &str) -> &mut Self {
-		let class_name = class_name.trim();
-		if !class_name.is_empty() {
-			let class_list = get_class_list(class_name);
+		let class_list = get_class_list(class_name);
+		if !class_list.is_empty() {
 			for ele in self.get_mut_ref() {
 				let class_value = ele.get_attribute(ATTR_CLASS);
 				if let Some(IAttrValue::Value(cls, _)) = class_value {
@@ -3492,9 +3490,8 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn toggle_class(&mut self, class_name: &str) -> &mut Self {
-		let class_name = class_name.trim();
-		if !class_name.is_empty() {
-			let class_list = get_unique_class_list(class_name);
+		let class_list = get_unique_class_list(class_name);
+		if !class_list.is_empty() {
 			let total = class_list.len();
 			for ele in self.get_mut_ref() {
 				let class_value = ele.get_attribute(ATTR_CLASS);
-- 
2.43.0


From 9a594adb4fa1c32488f075ddb80cd8ae619fd802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:26 +0000
Subject: [PATCH 41/42] fix: markup that ends in a tag name gives the last tag
 its name

A document (or the HTML set to an element) that ends like `<p>text<a` was loaded with a tag that has
no name, so printing it or reading its tag name panicked.
---
 src/lib.rs | 47 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1580495..9db146a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -35,6 +35,7 @@ use rphtml::{
 	entity::{encode, encode_char, CharacterSet, EncodeType, ICodedDataTrait},
 	parser::{
 		allow_insert, is_content_tag, Attr, AttrData, Doc, DocHolder, NameCase, Node, NodeType, RefNode,
+		TagMeta,
 	},
 };
 use std::borrow::Cow;
@@ -235,6 +236,48 @@ fn root_texts(root: &RefNode, text_of: impl Fn(&RefNode) -> Vec<char>) -> Vec<ch
 	result
 }
 
+// parse the html into a document
+fn parse_html(html: &str, options: ParseOptions) -> Result<DocHolder, BoxDynError> {
+	let doc = Doc::parse(html, options)?;
+	fix_unnamed_tag(&doc, html);
+	Ok(doc)
+}
+
+// when the html ends in a tag name, the parser leaves the last tag without a name and an end tag
+fn fix_unnamed_tag(doc: &DocHolder, html: &str) {
+	let mut last = doc.get_root_node();
+	loop {
+		let child = last
+			.borrow()
+			.childs
+			.as_ref()
+			.and_then(|childs| childs.last().cloned());
+		match child {
+			Some(child) => last = child,
+			None => break,
+		}
+	}
+	let is_unnamed = {
+		let last = last.borrow();
+		last.node_type == NodeType::Tag && last.meta.is_none()
+	};
+	if is_unnamed {
+		let name_at = last.borrow().begin_at + 1;
+		let name: Vec<char> = html.chars().skip(name_at).collect();
+		let mut meta = TagMeta::default();
+		meta.name = name.clone();
+		meta.auto_fix = true;
+		last.borrow_mut().meta = Some(RefCell::new(meta));
+		// a void tag has no end tag
+		if allow_insert(&last.tag_names(), NodeType::Text) {
+			let mut end_tag = Node::new(NodeType::TagEnd, name_at + name.len());
+			end_tag.content = Some(name);
+			end_tag.parent = Some(Rc::downgrade(&last));
+			last.borrow_mut().end_tag = Some(Rc::new(RefCell::new(end_tag)));
+		}
+	}
+}
+
 fn check_if_content_tag(name: &[char]) -> bool {
 	is_content_tag(name, &Some(NameCase::Lower))
 }
@@ -442,7 +485,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 					reset_text_type(self);
 				}
 			} else {
-				let doc_holder = match Doc::parse(content, Vis::options()) {
+				let doc_holder = match parse_html(content, Vis::options()) {
 					Ok(doc_holder) => doc_holder,
 					Err(e) => {
 						Dom::halt(self, "set_html", &e.to_string());
@@ -1407,7 +1450,7 @@ impl Vis {
 		options: ParseOptions,
 	) -> Result<Document, BoxDynError> {
 		mesdoc::init();
-		let doc = Doc::parse(&html.into(), options)?;
+		let doc = parse_html(&html.into(), options)?;
 		Ok(Document { doc })
 	}
 	/// load the html with options, get an elements collection
-- 
2.43.0


From f19d010c607c18d495aecc14744c891624834899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:31 +0000
Subject: [PATCH 42/42] fix: a text kept from an unescaped `<` is bound to the
 element it is in

Such a text had no parent and no document when no other text preceded it (`<p>< b</p>`), so it could
not be removed or replaced, and after a void tag or a tag such as `script` it was a child of that tag.
---
 src/lib.rs | 57 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9db146a..0c4555f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -240,9 +240,66 @@ fn root_texts(root: &RefNode, text_of: impl Fn(&RefNode) -> Vec<char>) -> Vec<ch
 fn parse_html(html: &str, options: ParseOptions) -> Result<DocHolder, BoxDynError> {
 	let doc = Doc::parse(html, options)?;
 	fix_unnamed_tag(&doc, html);
+	fix_unescaped_texts(&doc);
 	Ok(doc)
 }
 
+// the parser does not bind the text nodes it makes of an unescaped `<`, and when they follow
+// a void tag or a tag such as `script`, it leaves them inside of the tag
+fn fix_unescaped_texts(doc: &DocHolder) {
+	let mut nodes = vec![doc.get_root_node()];
+	while let Some(node) = nodes.pop() {
+		let childs = node.borrow_mut().childs.take();
+		let mut bound: Vec<RefNode> = vec![];
+		for child in childs.into_iter().flatten() {
+			let outside = take_outside_text(&child);
+			if child.borrow().childs.is_some() {
+				nodes.push(Rc::clone(&child));
+			}
+			bound.push(child);
+			bound.extend(outside);
+		}
+		if !bound.is_empty() {
+			let root = node.borrow().root.clone();
+			for (index, child) in bound.iter().enumerate() {
+				let mut child = child.borrow_mut();
+				child.index = index;
+				if child.parent.is_none() {
+					child.parent = Some(Rc::downgrade(&node));
+					child.root = root.clone();
+				}
+			}
+			node.borrow_mut().childs = Some(bound);
+		}
+	}
+}
+
+// take out the unbound text that begins after the end of the tag
+fn take_outside_text(node: &RefNode) -> Option<RefNode> {
+	let begin_at = {
+		let node = node.borrow();
+		let text = node.childs.as_ref()?.last()?.borrow();
+		if text.parent.is_some() {
+			return None;
+		}
+		text.begin_at
+	};
+	let is_outside = match &node.borrow().end_tag {
+		Some(end_tag) => end_tag.borrow().begin_at <= begin_at,
+		// a void tag
+		None => !allow_insert(&node.tag_names(), NodeType::Text),
+	};
+	if !is_outside {
+		return None;
+	}
+	let mut childs = node.borrow_mut().childs.take()?;
+	let text = childs.pop();
+	if !childs.is_empty() {
+		node.borrow_mut().childs = Some(childs);
+	}
+	text
+}
+
 // when the html ends in a tag name, the parser leaves the last tag without a name and an end tag
 fn fix_unnamed_tag(doc: &DocHolder, html: &str) {
 	let mut last = doc.get_root_node();
-- 
2.43.0

