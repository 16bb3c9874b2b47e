import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}})
EL="src/mesdoc/interface/elements.rs"; PS="src/mesdoc/rules/pseudo.rs"; SEL="src/mesdoc/selector/mod.rs"; PAT="src/mesdoc/selector/pattern.rs"; RULE="src/mesdoc/selector/rule.rs"; LIB="src/lib.rs"; UT="src/mesdoc/utils.rs"; ELE="src/mesdoc/interface/element.rs"; DOC="src/mesdoc/interface/document.rs"; TX="src/mesdoc/interface/texts.rs"
p("C01","Selector search returns exactly the matching descendants, in order",
 "For every document, every starting set of elements and every selector built from tag, `*`, class, id and attribute tests, compound chaining, the descendant, child, adjacent and general-sibling combinators and comma groups, searching returns exactly the elements that CSS says match (with the whole selector chain inside the starting set), each once and in document order. This does not depend on the order in which the parts of a compound are written, on text or comment nodes between elements, or on optional whitespace in the selector.",
 ["inputs"],"all trees x all selectors x all starting sets",
 "The tests assert result counts for a few dozen selectors on hand-written pages; the evaluator picks a different strategy (look-up order, caching, de-duplication of nested start nodes) depending on the selector and tree shape, and only a few of those combinations are sampled.",
 [EL,SEL,"src/mesdoc/rules/id.rs","src/mesdoc/rules/class.rs","src/mesdoc/rules/name.rs","src/mesdoc/rules/attr.rs","src/mesdoc/rules/all.rs"],
 [("find / find_selector / select_by_rule / has_ele",EL),("selector parsing and priority reordering",SEL)])
p("C02","Positional pseudo-classes select by exact An+B arithmetic",
 "For every list of siblings and all integers A and B, `:nth-child`, `:nth-last-child`, `:nth-of-type` and `:nth-last-of-type` select exactly the siblings whose 1-based position (counted over elements only, from the stated end, per tag name for the of-type forms) equals A*n+B for some n>=0; `:first-/:last-/:only-child` and `-of-type` and odd/even are the corresponding special cases. The answer is the same for every accepted spelling of An+B and for every way of asking (searching, direct children, filtering any subset of the siblings, combined with other tests in a compound).",
 ["inputs"],"all sibling lists x all (A,B) x all query routes",
 "Tests sample a handful of A,B on one list of <=10 items; the arithmetic has sign, rounding and range cases and each route uses separate code.",
 [PS,PAT,UT],[("allowed index computation",PAT),("sibling grouping, of-type counting, specified handlers",PS),("integer division rounding",UT)])
p("C03","Attribute selectors implement each value operator exactly",
 "For every element attribute state (absent, present without value, any value) and every operand, `[name]`, `=`, `!=`, `^=`, `$=`, `*=`, `~=` and `|=` match exactly when the documented string relation holds; operands may be unquoted, single- or double-quoted, attribute names compare case-insensitively and values case-sensitively. A missing attribute satisfies only `!=`, an attribute without a value behaves as the empty value, and an empty operand never matches for `^=`, `$=`, `*=` and `~=`.",
 ["inputs"],"all attribute values x operators x operands x quoting styles",
 "The tests check a couple of values per operator; boundary relations (empty, prefix followed by a dash, whole word in a list, flag attributes) are a cross product.",
 ["src/mesdoc/rules/attr.rs",PAT,LIB],[("attribute rule",'src/mesdoc/rules/attr.rs'),("attribute lookup",LIB)])
p("C04","Functional, content and form pseudo-classes match exactly",
 "For every tree, `:not(S)` and `:has(S)` match exactly the elements that S does not match / that contain a descendant matching S (S any selector, nested to any depth), `:contains(t)` exactly those whose text contains t, `:empty` those without element or text content, `:root` the html element of a document, `:header`, `:input`, `:submit` and `:checked` exactly the elements of their documented kind. This holds both when searching and when filtering.",
 ["inputs"],"all trees x all nested selector arguments",
 "Tests exercise each pseudo-class on one page; nesting, negation of groups, and content placement are combinatorial.",
 [PS,SEL,EL,UT],[(":not/:has/:contains/:empty/:checked/aliases",PS),("nested selector parsing",SEL),("substring search",UT)])
p("C05","Filtering, testing and closest agree with searching",
 "For every element set and every selector: filtering keeps exactly the members that match the selector in their document, `not` keeps exactly the others, `is` is true iff some member matches, `is_all` (on a non-empty set) iff every member matches, `has` keeps exactly the members with a matching descendant and `closest` returns for every member its nearest self-or-ancestor that matches, without duplicates and in document order. The closure-based variants obey the same laws for any predicate.",
 ["inputs"],"all trees x all subsets x all selectors",
 "Each method has its own matching path; the tests compare single outputs and never relate the methods to each other over arbitrary sets.",
 [EL],[("filter_type_handle, trigger_method, closest, has",EL)])
p("C06","Traversal methods return exactly the related elements, in order",
 "For every set of elements in a document, children, parent, parents, siblings, next, next_all, prev, prev_all and their until-forms return exactly the elements standing in that relation to at least one member (and matching the optional selector, a compound or a comma group; the until-forms stop at the first boundary match, including it only when asked, and an empty boundary never stops them), each once and in document order.",
 ["inputs"],"all trees x all subsets of elements x methods x selectors",
 "Tests start from one or two elements at a time; overlapping and nested starting sets drive separate de-duplication logic.",
 [EL,ELE],[("select_with_comb(_until), unique_sibling*, unique_all_siblings, sort_and_unique",EL),("sibling iteration",ELE)])
p("C07","Element sets obey set algebra and index semantics",
 "For all element sets A and B of one document (in document order, as queries return them), A.add(B) is the union in document order without duplicates; filter_in, not_in, is_in, is_all_in and has_in compute intersection, difference, intersects, subset and has-descendant-in; eq, first, last, get and slice return exactly the addressed members for every index or range, and out-of-range requests give empty results rather than failing. The membership and index operations hold for sets in any other order too (results in the order of A).",
 ["inputs"],"all pairs of subsets of all trees, all ranges",
 "The merge in add uses case analysis and binary search over tree positions; tests join a few disjoint sets.",
 [EL],[("add, filter_in_handle, index_of, slice, eq",EL)])
p("C08","Every selector string is either answered or rejected cleanly",
 "For every string given as a selector to any query method, the call returns normally: well-formed selectors are accepted, malformed ones give the empty result and exactly one notification, which names the called method, to the document's error handler, and no string - the empty and the unconventionally spelled ones included, which may be answered either way - panics, hangs or makes any later query on any document fail.",
 ["inputs","histories"],"all strings over the selector alphabet, followed by any later query",
 "Tests try a dozen malformed selectors; a panic while the shared rule tables are locked would poison every later query in the process.",
 [SEL,PAT,RULE,EL],[("selector parser",SEL),("pattern matchers",PAT),("error routing",EL)])
p("C09","Loading and serialising preserve the document",
 "For every well-formed HTML document, loading it yields exactly the tree the markup describes (element order and nesting, attributes, decoded text, comments; the characters of title, textarea, script and style kept as written) and the serialised HTML reproduces the markup; serialising, re-loading and serialising again is stable, and htmls/outer_htmls/inner_html of any element (and of the loaded root: the whole) are the corresponding parts. Default loading repairs unclosed and unexpected tags and keeps an unescaped `<` as text, giving balanced markup that keeps every start tag and text in order, strict options report an error, and the catching loaders report it exactly once to the handler and give an empty set.",
 ["inputs","configurations"],"all documents over the token alphabet, all loader entry points",
 "Tests load a few fixed pages.",
 [LIB],[("Vis::load*, options, inner_html/outer_html/text_contents",LIB)])
p("C10","Tree structure stays consistent under every mutation history",
 "After any sequence of insertions, moves, removals, replacements, content and text-node edits, the document is a well-formed tree: each child reports the parent that lists it and the position at which it is listed, no node appears twice or under itself, and removed nodes no longer belong to the tree. No such sequence panics.",
 ["histories"],"all operation sequences up to a bound from all small trees",
 "Tests perform one or two mutations on fixed pages; stale positions only show after a specific later operation.",
 [LIB,EL,TX],[("insert_adjacent, replace_with, remove_child, set_html, set_text, text remove",LIB)])
p("C11","Structural mutations place exactly the right nodes",
 "For all target and content sets, append, prepend, before, after and replace_with (and append_to, prepend_to, insert_before, insert_after) put the content - moved from wherever it was, fragments contributing all their nodes - at the stated place in its original order (with several targets the elements end up at the last one, and a fragment's nodes at the last one with copies at the others), remove takes out exactly the given elements and empty exactly their content; every other node keeps its place. After any history the serialised document equals what these rules give.",
 ["histories"],"all operation sequences up to a bound from all small trees, all target/content pairs",
 "Tests insert single elements; moves within one parent, multi-element content and fragments are each separate index computations.",
 [EL,LIB],[("insert, replace, remove, empty",EL),("insert_adjacent, replace_with, remove_child",LIB)])
p("C12","Queries after mutations see the current document",
 "After any sequence of mutations (including attribute, id and class changes and content replacement), every query, traversal and filter on a set in document order gives the same answer as on a freshly loaded copy of the current serialised document, for elements of any origin (original, inserted, moved, created by setting HTML); sets spanning several trees answer tree by tree.",
 ["histories"],"all mutation histories x all queries",
 "Tests query once after one mutation; stale caches (id lookup, positions, owner document) need particular histories.",
 [LIB,EL,"src/mesdoc/rules/id.rs"],[("id lookup and owner document of inserted nodes",LIB),("tree position comparison",EL)])
p("C13","Attributes behave as a case-insensitive name-to-value map",
 "For every history of set, overwrite and remove of attributes with any names and values, reading an attribute by any letter case gives the last value set (or flag/absent), has_attr and get_attributes agree with it, other attributes are unaffected, and re-loading the serialised element gives the same map. Values are in HTML spelling: an entity stays as written, and of a value holding both kinds of quotes one kind is stored as an entity.",
 ["histories","inputs"],"all attribute operation sequences over a name/value alphabet incl. quotes, spaces, markup characters",
 "Tests set and read one attribute; quoting and name-case bookkeeping depend on the previous state.",
 [LIB],[("get/set/remove_attribute, get_attributes",LIB)])
p("C14","Class operations behave as set operations on class names",
 "For every class attribute (of distinct names) and every space-separated argument, add_class makes all the given names present, remove_class makes them all absent, toggle_class flips each, has_class is true iff some element carries all given names, and the remaining names keep their order without duplicates being added; the result is the same through `.name` selectors and after re-loading.",
 ["histories","inputs"],"all class states x all argument lists x operation sequences",
 "Tests use one or two names in order; repeated or reordered names drive index bookkeeping.",
 [EL,UT],[("add/remove/toggle/has_class",EL),("get_class_list, retain_by_index",UT)])
p("C15","Text and HTML content setters and getters are exact",
 "For every string s and every element that can have content (void elements ignore it), after setting an element's text to s its text reads back as s, it contains no child elements and the serialised form re-loads to the same text; after setting its HTML to a fragment its children are exactly the fragment's nodes and html() gives the fragment back; HTML that cannot be parsed is reported and changes nothing. text() is always the concatenation of all descendant text with entities decoded, for the loaded root too. The same setters on the handle of a single text, comment or element node change exactly that node.",
 ["inputs","histories"],"all strings over an alphabet of markup/entity characters; element kinds; sequences of setters",
 "Tests set one or two strings; escaping is per character and per element kind.",
 [LIB,EL],[("set_text, set_html, text_contents, inner_html",LIB)])
p("C16","Text-node collection and edits touch exactly the right text",
 "texts(depth), texts_by and texts_by_rec return exactly the text nodes within the depth limit for which the predicates hold, in document order (script, style, title and textarea count as text); appending, prepending, setting (the given text is taken as written), replacing by HTML or removing such a text node changes exactly that text and leaves all other nodes in place; removing the text of a content tag removes the tag. Starting sets hold no element inside another one.",
 ["inputs","histories"],"all trees x depth limits x predicates x edit sequences",
 "Tests use one page and one edit; index maintenance after several edits is not sampled.",
 [LIB,TX],[("texts_by_rec, text remove/append/prepend/set_html",LIB),("Texts",TX)])
p("C17","Form values follow the select/input/textarea rules",
 "For every form control markup, val() gives the value attribute of an input or option, the content of a textarea, for a single select the value of its first selected option (else of its first direct option), and for a multiple select exactly the selected options' values in order; other elements give an empty value. `:checked` selects exactly the checked boxes and radios, every option with the selected attribute, and the option a single select without any selected one falls back to.",
 ["inputs"],"all select trees over option/optgroup with selected and value flags",
 "Tests cover a few selects.",
 [LIB,PS],[("value",LIB),(":checked",PS)])
p("C18","Copies are independent of the original",
 "A cloned element set is a deep copy with the same markup: no later operation on the copy or its descendants changes the original document, and no later operation on the original changes the copy.",
 ["histories"],"all trees x all cloned subsets x mutation sequences on either side",
 "Tests clone once and mutate once.",
 [EL,LIB],[("Clone for Elements, copied/copy_node",EL)])
p("C19","Concurrent use from several threads gives sequential results",
 "When any number of threads load documents and run queries at the same time, including the very first use in the process, every call finishes with the same result as when run alone: no deadlock, panic, lost initialisation or cross-talk, for every interleaving.",
 ["schedules"],"all interleavings (preemption-bounded) of 2-3 threads from process start",
 "One test spawns threads under whatever schedule the OS picks; lock order and initialisation races need chosen interleavings.",
 ["src/mesdoc/mod.rs",SEL,PAT,RULE],[("one-time initialisation","src/mesdoc/mod.rs"),("shared rule, pattern, regex and splitter tables","src/mesdoc/selector")])
p("C20","Rejected operations change nothing and are reported",
 "An insertion that cannot be honoured (an element into itself or into its own descendant, a whole document as content, elements into a void, title or textarea element, before or after something without a parent, setting a text node to the empty string, an invalid selector in any method) leaves every document byte-for-byte unchanged and calls the owning document's error handler; accepted operations never call it.",
 ["histories","fault_sequences"],"all (target, content) pairs of all small trees, before/after other operations",
 "Tests check three rejections on fixed pages.",
 [LIB,EL],[("validate_dom_change, halt",LIB),("trigger_method_throw_error",EL)])
p("C21","Reading never changes the document",
 "No query, traversal, filter, getter, clone or serialisation - in any order and number - changes any document: the serialised form, the tree and the answers of all later reads stay the same.",
 ["histories"],"all sequences of read operations up to a bound on all small trees",
 "Tests never compare the document before and after reads.",
 [EL,LIB],[("read API",EL)])
p("C22","Document accessors find the current head, body, title and ids",
 "For every document and after every mutation history, document_element, head and body give the first such element of the current tree (or nothing), title the text of the first title in that head, get_element_by_id gives the first element in document order whose id attribute currently equals the name (or nothing), source_code gives the current markup, and every attached element's owner document and root are this document.",
 ["inputs","histories"],"all document skeletons with parts missing/repeated x id mutations",
 "Tests look at one complete page.",
 [DOC,LIB],[("IDocumentTrait defaults",DOC),("get_element_by_id, owner_document",LIB)])
p("C23","Feature flags never change the behaviour of the shared API",
 "For every combination of the cargo features text, insertion and destroy, all API present in that configuration compiles and gives exactly the same results as in the full configuration.",
 ["configurations","inputs"],"all 8 feature sets x all trees x all queries of the shared API",
 "The test suite runs with the full feature set only.",
 ["src/macros.rs",EL,LIB],[("cfg_feat_* macros","src/macros.rs")])
p("C24","A selector string means what it spells",
 "For every well-formed selector string, however it is spelled - blanks, tabs and line breaks around combinators, commas, parentheses and in attribute tests, single, double or no quotes, tag and attribute names in any letter case, any spelling of An+B, parts nested in :not and :has to any depth - find (from the document or from any set) and filter give exactly the elements its parts and combinators describe. In class, id and tag names a backslash takes the next character literally (also inside nested selectors), and a name matches only exactly that class, id or tag, never a longer, shorter or differently spelled one.",
 ["inputs"],"all strings over the token alphabets up to a length",
 "Tests spell each construct one way; the pattern matchers and the nesting and escaping logic work character by character.",
 [SEL,PAT,RULE,EL],[("selector parser",SEL),("Identity, AttrKey, NestedSelector, Nth, RegExp patterns",PAT),("rule parsing",RULE)])
p("C25","Dropping handles never damages what is still held",
 "After any mutation history and for every choice of handles that is dropped - element sets, fragments, whole documents - each remaining element still has exactly its own attributes, content and descendants, sees its parent and siblings as long as something above it is held, and can be read, queried and mutated like before; nodes moved into another document belong to it and survive their old document; an element or text whose document is gone behaves as taken out: no call panics, and its former document is not reported.",
 ["histories","inputs"],"all bounded mutation histories x all choices of dropped handles x all later operations",
 "Tests keep everything alive until they end; parents and documents are weak references.",
 [LIB,EL],[("parent, owner_document, detach, insert_adjacent, reset_nodes_root",LIB)])
p("C26","A single element answers and acts as the tree and its set do",
 "For every node of every document, after any mutation history, its handle's own methods - parent, index, children, child nodes (one, all, or visited from an index in either direction until the callback stops), next and previous siblings, siblings, attributes and their values, tag name, form value, markup, text, texts, value conversions - give exactly what the current tree gives, and the same as the set that holds just that element; removing a child, inserting next to or into and replacing through a single handle change the tree exactly as the set methods do; a content tag turned into a text is that tag's text.",
 ["inputs","histories"],"all trees x all nodes x all arguments x histories through single handles",
 "Tests use sets on one page; the per-element methods have their own loops and index arithmetic.",
 [ELE,LIB,"src/mesdoc/interface/node.rs"],[("IElementTrait defaults, IAttrValue",ELE),("child_nodes_item_since_by, children_by, remove_child, insert_adjacent, replace_with",LIB)])
p("C27","Callbacks and error handlers may use the document",
 "Inside every callback the API takes (each, map, filter_by, not_by, is_by, ..., Texts iteration, texts predicates) and inside an error handler the program may read and query any element of the same document - also the one being visited or whose operation was refused - and edit the document (inside predicates called during a walk over the tree, like those of texts_by: set attributes): no panic, no deadlock, and the reads and edits have the same results as outside. Callbacks are called once per element of the set in order with its index and stop when told so; a callback or handler that panics leaves the document and the set as they were, and usable.",
 ["histories","fault_sequences"],"all callback sites x all operations inside x all small trees; a panic at every call",
 "Tests' callbacks only look at their argument; borrow conflicts need a callback that touches something else.",
 [EL,TX,LIB],[("for_each, map, *_by",EL),("Texts::for_each, filter_by",TX),("halt, trigger_error, texts_by_rec",LIB)])
p("C28","Documents side by side stay apart, and moved nodes belong to their new document",
 "With several documents loaded, an operation changes only the trees it names; elements of different documents are never taken for each other, even at equal positions; a query from a document or set finds exactly the elements below it; a set over several documents is answered and edited element by element; a node moved into another document belongs to it from then on (owner, root, queries, reports), with all its descendants; every refusal is reported to the handler of the document concerned and to no other.",
 ["histories"],"all pairs of small documents x all histories of moves, edits and refusals across them",
 "Tests load one document at a time, or move one fragment once.",
 [LIB,EL],[("owner_document, reset_nodes_root, insert_adjacent, replace_with, halt",LIB),("get_tree_top, sort, add, unique_*, trigger_method_throw_error",EL)])
p("C29","The parse options decide exactly what is repaired",
 "For every markup and every combination of the parse options, load_options succeeds exactly when each kind of malformation in it (self-closing, `=` at the start of an attribute, unclosed tag, unexpected end tag, bare `<`) has its repair enabled; options that are not needed change nothing, so all successful loads give the same document with the same answers, the same later edits (HTML set later is repaired whatever the options were) and the same reports; a failed load is an Err, or exactly one call of the handler and an empty set. load and load_catch enable all repairs.",
 ["configurations","inputs"],"all sequences of well-formed and malformed pieces x all 64 option combinations x entry points",
 "Tests use the default options, and one strict load.",
 [LIB],[("Vis::load, load_catch, load_options, load_options_catch, parse_doc_with_options, options",LIB)])
p("C30","Every string is refused or gives a document that can be used",
 "For every string at all, however malformed or cut off, load gives an Err or a document, load_catch agrees (one call of the handler and an empty set, or no call), and set_html with it gives the same nodes, or reports once and changes nothing. What was loaded has consistent links (parents, indexes, siblings, texts), can be read and printed without a panic, loads again from its printed form to the same elements, attributes and texts, prints the same from then on, and edits do the same to both. Markup that ends in a tag name is that tag without content; a text kept from a bare `<` stands where the `<` stood. Enabling more repairs never refuses or changes what loads with fewer.",
 ["inputs"],"all strings of tokens over two HTML alphabets, all characters at every place of markup, cut-off markup",
 "Tests load a dozen malformed snippets; panics and lost nodes come from rare endings and combinations.",
 [LIB],[("parse_html, fix_unnamed_tag, fix_unescaped_texts, Vis::load*, set_html, html, outer_html, text",LIB)])
open("properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
