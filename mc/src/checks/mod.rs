use crate::engine::CheckFn;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c28;
pub mod c29;
pub mod c30;

/// property id -> (technique, exploration)
pub fn lookup(id: &str) -> Option<(&'static str, CheckFn)> {
	Some(match id {
		"C01" => ("explicit-state enumeration of all bounded trees x selectors x start sets on the real code against a set-based reference semantics", c01::run),
		"C02" => ("exhaustive enumeration of sibling lists x (A,B) x spellings x query routes on the real code against An+B arithmetic", c02::run),
		"C03" => ("exhaustive enumeration of attribute states x operators x operands x quoting on the real code against string relations", c03::run),
		"C04" => ("exhaustive enumeration of bounded trees, content sequences and form markup x pseudo-class selectors x query routes on the real code against a set-based reference semantics", c04::run),
		"C05" => ("exhaustive enumeration of bounded trees x member sets x selectors and predicates on the real code against set semantics", c05::run),
		"C06" => ("exhaustive enumeration of bounded trees x member sets x relations x selectors on the real code against relational semantics", c06::run),
		"C07" => ("exhaustive enumeration of bounded trees x pairs of member sets x set operations and indexes on the real code against bit-set semantics", c07::run),
		"C08" => ("exhaustive enumeration of all selector strings up to a length over character and token alphabets x query methods on the real code, judged by an independent recogniser", c08::run),
		"C09" => ("exhaustive enumeration of bounded documents (structure, attribute spellings, content sequences, unbalanced tag sequences) loaded and serialised by the real code, compared with the generating model", c09::run),
		"C10" => ("exhaustive enumeration of mutation histories (stateless re-execution of the real code) from all small documents, every reached tree checked for consistency against the model tree", c10::run),
		"C11" => ("exhaustive enumeration of mutation histories and target/content set pairs on the real code against a reference tree model, comparing serialised documents", c11::run),
		"C12" => ("exhaustive enumeration of mutation histories on the real code; in every reached state all queries are compared with a fresh load of the serialised state", c12::run),
		"C13" => ("exhaustive enumeration of attribute operation histories from all initial attribute lists on the real code against a map model, with re-loading", c13::run),
		"C14" => ("exhaustive enumeration of class states x operation histories x argument lists on the real code against a set model, with selector queries and re-loading", c14::run),
		"C15" => ("exhaustive enumeration of text and markup strings over token alphabets x element kinds x contexts, and of setter histories, on the real code against exact expectations and re-loading", c15::run),
		"C16" => ("exhaustive enumeration of bounded trees x start sets x depth limits x predicates, and of all edit sequences on text handles, on the real code against a tree model", c16::run),
		"C17" => ("exhaustive enumeration of select trees, control attribute states and option mutation histories on the real code against the value rules", c17::run),
		"C18" => ("exhaustive enumeration of copied member sets x mutation histories on originals and copies on the real code against a model with separate trees", c18::run),
		"C20" => ("exhaustive enumeration of accepted and refused operations in histories on the real code against a tree model with a report counter", c20::run),
		"C21" => ("exhaustive enumeration of read sequences on the real code; every answer is compared with the same read on an untouched document and the tree with its model", c21::run),
		"C22" => ("exhaustive enumeration of document skeletons and mutation histories on the real code against a tree model of head, body, title, ids and ownership", c22::run),
		"C24" => ("exhaustive enumeration of all selector strings up to a length over token alphabets, given a meaning by an independent parser and set semantics, on the real code", c24::run),
		"C25" => ("exhaustive enumeration of mutation histories with handle drops at every point on the real code against a tree model with reachability", c25::run),
		"C26" => ("exhaustive enumeration of bounded trees with every kind of node x single-element reads (all positions, directions, stops) and edit sequences on the real code against a tree model and the set methods", c26::run),
		"C27" => ("exhaustive enumeration of callbacks and error handlers x visits x what is done inside of them (reads, rejected calls, every operation, panics) on the real code against a tree model", c27::run),
		"C28" => ("exhaustive enumeration of histories over two documents (moves between them, refused calls, queries over both) on the real code against a model of both trees, their owners and their error handlers", c28::run),
		"C29" => ("exhaustive enumeration of markup made of well-formed and malformed pieces x all parse options x entry points on the real code against the table of repairs", c29::run),
		"C30" => ("exhaustive enumeration of token strings, characters in markup and cut-off markup on the real code against re-loading and the written-out markup", c30::run),
		_ => return None,
	})
}
