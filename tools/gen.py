#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "src/parser.rs"
PARSE = "product of the MIR of the parser with a language automaton (abstract interpretation with joins, typestate), alarms re-derived per path"
RENDER = "abstract interpretation of the renderer's MIR on symbolic nodes and lazily forked options, compared with the expected output sequence"
TESTS = "tests/html.rs has 34 fixed documents"

def prop(id, title, statement, over, text, tests, files, mech, observe=(), technique=None, note=None, na=None, state=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, observe=list(observe), technique=technique, note=note, na=na, state=list(state))

PN = "Decides every end state (result compared with the expected tree or error) of the abstract product of the compiled parser with an independent automaton of the documented language; character sequences, names and option values stay symbolic. Bounded by the number of open elements (2 to 4, one more in the thorough tier) and a number of abstract states per restricted exploration; several restricted explorations reach their fixpoint. Trusts the standard-library models and the automaton; states the analysis cannot follow give no verdict and are counted in the evidence."
RN = "Decides every path of the renderer's MIR on symbolic nodes of every kind; all nine options and the element vocabulary are forked lazily; sequences stay symbolic. Bounded by the number of children and attributes per node; the recursion over children is covered by induction on the node. Trusts the models of the standard library and of htmlentity."
L = []
L.append(prop("C01", "Parsing never panics",
  "For every input string and every combination of the parse options, parsing returns either a document or an error value. It never panics, whatever the input ends in the middle of.",
  ["inputs", "configurations"], "all strings, all 2^6 parse options",
  TESTS + ", most of them well formed and with at most two option sets; a panic needs one particular construct at the end of the input or one particular option.",
  [P], [("Doc::parse, Doc::next, Doc::eof", P), ("parse_* handlers", P)], ["Doc::parse"], PARSE, PN))
L.append(prop("C02", "Rendering a parsed document never panics",
  "Rendering any node of a document produced by the parser with any combination of the render options returns its text and never panics. The same holds for the inner markup of an element, the inner text of an element, comment or CDATA section, and for either of a document with no children or with exactly one element among them. (Asking for both at once, or for the inside of anything else, is a documented misuse and panics.)",
  ["inputs", "configurations"], "all trees the parser can produce, all 2^9 render options",
  TESTS + " and render each with one or two option sets.",
  [P], [("Node::build, Node::build_tree, Node::build_node", P), ("Attr::build, TagMeta::attrs_to_string", P)], ["Node::build", "DocHolder::render", "DocHolder::render_text"], RENDER, RN))
L.append(prop("C03", "The tree keeps every character of an accepted input",
  "When an input is accepted without a repair, the tree holds every part of it exactly once, unchanged and in document order: element names in their original spelling, attribute names, values and quotes, texts and whitespace, the raw text of script, style, title and textarea, the contents of comments, CDATA sections and doctypes, and the end tags. Nothing is dropped, duplicated, truncated or moved to another node.",
  ["inputs", "configurations"], "all accepted strings, all parse options",
  TESTS + "; they compare a few rendered strings, mostly of lower-case ASCII markup.",
  [P], [("clean_chars_to_vec, prev_chars", P), ("parse_* handlers", P)], ["Doc::parse, fields of Node, TagMeta, Attr"], PARSE, PN))
L.append(prop("C04", "Every node is linked to its parent, its root and its position",
  "In every document the parser returns, each node other than the root names as its parent the node whose child list holds it, its index is its place in that list, its root is the document's root node, and the end tag of an element names that element as parent. The root node has no parent and leads back to its document.",
  ["inputs", "configurations"], "all accepted strings, all parse options, every node",
  TESTS + "; only a handful look at a link of one node.",
  [P], [("Doc::add_new_node", P), ("Doc::into_root, Doc::fix_unescaped_lt, Doc::fix_unclosed_tag", P)], ["Node.parent, Node.index, Node.root, Node.end_tag, Node.document"], PARSE, PN))
L.append(prop("C05", "Elements nest exactly as their tags do",
  "In an accepted input without a repair, the children of an element are exactly the constructs between its start tag and its matching end tag; void elements and self-closed elements have no children and are siblings of what follows. An end tag closes the innermost open element, and only when the names agree (ignoring ASCII case unless case-sensitive names were asked for); an end tag that does not match or an element still open at the end of the input is an error.",
  ["inputs", "configurations"], "all strings, all parse options",
  TESTS + "; nesting is at most a few levels, with names of a few letters.",
  [P], [("chain_nodes, parse_tagend, is_equal_chars_ignore_case", P), ("Doc::set_tag_end_info, is_self_closing checks", P)], ["Doc::parse"], PARSE, PN))
L.append(prop("C06", "Inputs are accepted exactly when the language and the options allow",
  "Parsing accepts every input of the supported language and rejects every other one; what each option relaxes (self-closing of any element, attributes without separating whitespace or in doctypes, unclosed elements, stray end tags, unescaped '<', case of names) is accepted exactly when that option is on, and an option changes nothing for inputs that do not need it.",
  ["inputs", "configurations"], "all strings, all 2^6 parse options",
  TESTS + " try one option at a time on one document.",
  [P, "src/config.rs"], [("ParseOptions", "src/config.rs"), ("parse_unkown_tag, parse_tag_wait, parse_tagend, Doc::eof", P)], ["Doc::parse"], PARSE, PN))
L.append(prop("C07", "Raw-text elements end only at their own end tag",
  "Inside script, style, title and textarea everything up to the matching end tag (the name in any case, optional whitespace before the closing bracket) is plain content of that element: no tag, comment, entity or quote in it is interpreted, and no character is lost. Without the matching end tag the element counts as unclosed.",
  ["inputs", "configurations"], "all contents of raw-text elements, all spellings of the end tag",
  TESTS + "; contents with partial or look-alike end tags are not among them.",
  [P], [("parse_content_tag", P), ("Doc::check_tag_type_do", P)], ["Doc::parse"], PARSE, PN))
L.append(prop("C08", "Comments, CDATA sections and doctypes use their exact delimiters",
  "A comment runs from its opening to the first following closing delimiter, a CDATA section (only inside svg or math, below that element) to the first ']]>', and a doctype is recognised in any case and its parts kept as names and quoted values. Contents are kept without the delimiters, dashes and brackets inside included, and a wrong or unfinished opening is an error.",
  ["inputs", "configurations"], "all strings",
  TESTS + "; the runs of dashes and brackets at the end, and openings cut short, are not among them.",
  [P], [("parse_comment_or_cdata, parse_exclamation_begin, parse_doctype_name", P)], ["Doc::parse"], PARSE, PN))
L.append(prop("C09", "Attributes keep their order, name, value and quoting",
  "A start tag yields its attributes in source order, duplicates included: each has the name and the value as written and the quote character that was used, a name without a value has none, and a value may hold anything but its own quote (or, unquoted, whitespace and the characters that end it). Slashes, equals signs and quotes in other places neither split nor merge attributes, and missing separating whitespace is an error unless allowed.",
  ["inputs", "configurations"], "all start tags, all parse options",
  TESTS + "; only short well-formed attribute lists.",
  [P], [("parse_tag_attr_key, parse_tag_attr_value, parse_tag_wait", P), ("TagMeta::add_attr_key, add_attr_value", P)], ["TagMeta.attrs"], PARSE, PN))
L.append(prop("C10", "Default rendering reproduces the document's structure",
  "Rendering a node with default options writes, in order, its start tag with the name and every attribute after one space (name, equals sign, value in its quotes), ' /' when it was self-closed, its contents and all its children in order, and its end tag exactly when the node has one. Comments, CDATA sections and doctypes are written between their delimiters, and text is written unchanged.",
  ["inputs"], "all trees",
  TESTS + " compare the rendering of fixed documents.",
  [P], [("Node::build_node, Node::build_tree", P), ("TagMeta::attrs_to_string, Attr::build", P)], ["DocHolder::render, Node::build"], RENDER, RN))
L.append(prop("C11", "Each render option changes only what it names",
  "Lower-casing tag names changes only the case of element names, consistently in the start and the end tag; removing comments drops exactly the comments; removing the space in end tags drops the ASCII whitespace before their closing bracket; closing void elements adds ' /' to void elements; decoding changes only texts, and encoding only '<', '>' and '&' in the contents of title and textarea. With any combination of options the output is the composition of the individual effects.",
  ["inputs", "configurations"], "all trees, all 2^9 render options",
  "No test combines more than two render options.",
  [P, "src/config.rs"], [("Node::build_node", P), ("RenderOptions", "src/config.rs")], ["DocHolder::render, Node::build"], RENDER, RN))
L.append(prop("C12", "Minifying collapses ASCII whitespace only, outside pre",
  "With whitespace minified, each run of ASCII whitespace in a text is reduced to its first character and no other character (no other Unicode space either) is removed or changed; whitespace-only runs between tags are dropped. Everything inside a pre element, at any depth, is left as it is, and minifying is resumed after that element.",
  ["inputs", "configurations"], "all texts, all nestings of pre",
  "Two tests minify one document each.",
  [P], [("Node::build_node text branch, is_in_pre in build_tree", P), ("is_ascii_whitespace users", "src/util.rs")], ["DocHolder::render"], RENDER, RN))
L.append(prop("C13", "Removing attribute quotes never changes the attribute",
  "When quotes are removed on rendering, they are dropped only around values that need none: values that are empty, stand without a name or hold ASCII whitespace, quotes, '=', '<', '>' or a backtick keep their quotes, and every value is written completely. A value written without quotes is never merged with what follows it.",
  ["inputs", "configurations"], "all attribute values, all render options",
  "One test, with values of plain letters.",
  [P], [("Attr::need_quoted_char, Attr::build", P), ("TagMeta::attrs_to_string", P)], ["DocHolder::render, Attr::build"], RENDER, RN))
L.append(prop("C14", "Inner markup and inner text are exactly the inside",
  "Rendering the inner markup of an element gives exactly what its full rendering has between the start and the end tag; for a document it is the inner markup of its only element. Rendering as text gives the texts, whitespace, raw-text contents and CDATA contents of the subtree in document order, without any tag, comment, delimiter or attribute; the text of a comment itself is its content.",
  ["inputs", "configurations"], "all trees, all render options",
  "Two tests on one document each.",
  [P], [("Node::build, Node::build_tree", P)], ["Node::build, DocHolder::render_text"], RENDER, RN))
L.append(prop("C15", "A cloned node is deep, equal and independent",
  "Node::clone_node yields a separate subtree of the same kind, names, attributes, contents, children in the same order and end tags, whose inner links (parent, previous sibling, end tag's parent, index) refer to the clone and never to the original; positions are counted from the beginning of the cloned node, and the top of the clone has no parent and no previous sibling. The clone shares no mutable part with the original, and the original is unchanged.",
  ["inputs", "histories"], "all trees, every node",
  "One test clones one node and looks at the rendering.",
  [P], [("Node::clone_node, Node::clone_node_with", P)], ["Node::clone_node"], "abstract interpretation of the cloning code's MIR on a symbolic node; aliasing between clone and original decided on the abstract heap", RN))
L.append(prop("C16", "Rendering and queries do not change the document",
  "Rendering, rendering as text, looking up an element by id, comparing and cloning leave the document as it was, so repeating them gives the same result. Neither parsing nor rendering depends on or changes anything outside its arguments (no clock, randomness, environment, files, global mutable state or hash order).",
  ["inputs", "histories", "configurations"], "all documents and sequences of read-only calls",
  "A test would have to compare all state before and after every call.",
  [P], [("Node::build, DocHolder methods", P)], ["public API"], "effect analysis over the call graph and the MIR (stores, mutable borrows of shared cells, forbidden callees)", "Interprocedural over every function reachable from the read-only API in the compiled MIR; flow-insensitive on the receiver, exact on the set of reached functions; trusts the list of effect-free foreign functions."))
L.append(prop("C17", "Dropping a document frees it: no ownership cycles",
  "The nodes of a document form an ownership tree: a parent owns its children and end tags, and every link upwards, sideways or to the document is a weak one. So no sequence of parsing, building or cloning leaves a cycle of owning references that would keep the memory alive.",
  ["histories", "inputs"], "all trees and all histories of construction",
  "Leaks are invisible to the tests.",
  [P, "src/types.rs"], [("Node.parent, Node.root, Node.document: Weak", P), ("Doc::into_root, Doc::add_new_node", P)], ["fields of Node, Doc"], "ownership analysis on the type graph and the abstract heap of the parser product", "The type graph is decided exactly; owning links between nodes created by the parser are checked on every abstract heap of the product."))
L.append(prop("C18", "Errors name the right kind and the right place",
  "Every rejection carries the error kind that fits the first offending construct, and its position is the character index of that construct within the input. The line (from 1) and the column that go with the index count the characters up to and including it, with CR, LF and CR LF each ending one line.",
  ["inputs", "configurations"], "all rejected strings, all options",
  TESTS + " look at error kinds of a few inputs and at no position.",
  [P, "src/error.rs", "src/position.rs"], [("create_parse_error", P), ("CodeRegion::from_context_index, Display", "src/position.rs")], ["ParseError"], PARSE, PN))
L.append(prop("C19", "Parsing a file is parsing its content",
  "Parsing a file gives exactly the result of parsing the file's whole content as a string with the same options, line breaks included. A file that cannot be read gives an error, never a panic.",
  ["inputs", "configurations"], "all files",
  "One test parses one file.",
  [P], [("Doc::parse_file", P)], ["Doc::parse_file"], "data-flow query on the typed MIR of the generic function", "Decides that the content passed to the parser is the unmodified result of one whole-file read, for the one call site."))
L.append(prop("C20", "Element tables and character predicates are exact",
  "The void elements are exactly area, base, br, col, embed, hr, img, input, link, meta, param, source, track and wbr, and the raw-text elements exactly script, style, title and textarea. Nothing may be inserted into a void element, only text into title and textarea, a CDATA section only into svg or math, anything anywhere else, whatever the letter case of the name. The public predicates are exact for every Unicode scalar value: noncharacters are U+FDD0..U+FDEF and the last two code points of each plane; names take ASCII letters, digits, '_', '-', '.', ':' and every non-ASCII character that is no noncharacter; unquoted values take everything but ASCII whitespace, NUL, quotes, '<', '>', '/', '=' and backtick.",
  ["inputs"], "all names, all Unicode scalar values",
  "The tests try a few names and characters.",
  [P, "src/util.rs"], [("VOID_ELEMENTS table, is_content_tag, allow_insert", P), ("is_non_character, is_char_available_in_key, is_char_available_in_value", "src/util.rs")], ["is_content_tag", "allow_insert", "util predicates"], "abstract interpretation of each predicate over the partition of all characters (interval sets) and of all names (vocabulary and rest)", "Complete over all Unicode scalar values and over all names, since the predicates are interpreted on interval sets; trusts the standard-library models."))
L.append(prop("C21", "Repairs do exactly what their option promises",
  "With a repair option on, an unclosed element is closed where its parent ends or at the end of the input, a stray end tag is dropped or closes the elements above its match, and an unescaped '<' becomes text; the resulting tree is properly nested, keeps every other part of the input, and marks what was repaired. With all inputs that need no repair the tree is the same as without the option.",
  ["inputs", "configurations"], "all strings, the options for repairs",
  TESTS + "; each repair is tried on two or three inputs.",
  [P], [("Doc::fix_unclosed_tag, Doc::fix_unescaped_lt, parse_tagend", P), ("Doc::eof", P)], ["Doc::parse"], PARSE, PN))
L.append(prop("C22", "A document is told from a fragment by its html element",
  "Asking whether a node is a document answers yes exactly for a root node with an html element (its name in any letter case) among its children. The second answer says for a document whether that html element is its only element and everything beside it is comments, whitespace or doctypes; what is no document counts as fine.",
  ["inputs"], "all trees",
  "One test with one tree of each kind.",
  [P], [("Node::is_document", P)], ["Node::is_document"], RENDER, RN))
L.append(prop("C23", "Deep nesting does not exhaust the stack",
  "Parsing, rendering, cloning and dropping a document work for any nesting depth the memory allows.",
  ["inputs"], "all depths", "The tests nest a few levels.",
  [P], [("Node::build_tree, clone_node_with, drop glue: recursive", P)], [], None, None,
  na="The code recurses over the nesting depth (rendering, cloning, drop glue), so the property does not hold for unbounded depth and cannot be repaired by a small change; which depth is safe depends on the runtime stack size and frame sizes, a runtime quantity that no static argument in reach bounds."))
L.append(prop("C24", "Look-ups by attribute name and by id agree with the tree",
  "For every element the index from the lower-cased attribute name leads to the first attribute of that name, and every attribute name with a value or without is found. Looking up an id in the document finds an element of the tree that carries this id, and every id present in the tree is found.",
  ["inputs", "configurations"], "all accepted strings, every element",
  TESTS + "; duplicates and mixed case are not among them.",
  [P], [("TagMeta.lc_name_map, TagMeta::add_attr_key", P), ("Doc.id_tags, check_if_id", P)], ["TagMeta.lc_name_map", "DocHolder::get_element_by_id"], PARSE, PN))
L.append(prop("C25", "Nodes know where they begin and end in the source",
  "The begin of every node is the character index (not byte offset) at which its construct starts in the input, and where an end is recorded it is the index at which the construct ends. Positions of successive siblings never overlap or go backwards.",
  ["inputs", "configurations"], "all accepted strings, every node",
  "No test looks at positions of more than one node.",
  [P], [("mem_position, Doc::set_tag_end_info", P)], ["Node.begin_at, Node.end_at"], PARSE, PN))
L.append(prop("C26", "Whitespace between tags is told from text",
  "A run of ASCII whitespace that fills the whole space between two constructs is classified as whitespace between tags, everything else that is not markup is text; a text never starts a second node in the middle and its leading and trailing whitespace stays part of it.",
  ["inputs", "configurations"], "all accepted strings",
  TESTS + "; they see the difference only through minified output.",
  [P], [("parse_wait, parse_text, Doc::set_text_spaces_between", P)], ["Node.node_type"], PARSE, PN))

L.append(prop("C27", "Defaults are strict and lossless, hand-built parts are faithful",
  "All parse and all render options are off by default. A node made by hand has the given kind and position and no links, a text made by hand is whitespace between tags exactly when all of it is ASCII whitespace, and keeps its content. Adding an attribute appends one, setting its key or its value changes exactly the last one, an attribute counts as id exactly when its name is id in any letter case and it has a value, and building an attribute by hand writes name, equals sign and value in its quotes. Two references count as the same node exactly when they refer to one node.",
  ["inputs", "configurations"], "all kinds, all texts, all attributes",
  "No test builds these parts by hand.",
  [P, "src/config.rs"], [("ParseOptions::default, RenderOptions::default", "src/config.rs"), ("Node::new, Node::create_text_node", P), ("TagMeta::set_attr_key, set_attr_value, add_attr_key, add_attr_value; Attr::build, check_if_id, Node::is_same", P)], ["the named functions"], "abstract interpretation of each function's MIR on symbolic arguments, every path's result compared with the rule", "Every path of each function on symbolic texts of any length; attribute lists of bounded length. Trusts the standard-library models."))

L.append(prop("C28", "Errors print their place and what went wrong",
  "The text of every parse error is [line:L,col:C,index:I] with its own line, column and index, followed by the fixed message of its kind, in which the tag name, text or character the error carries appears unchanged and in its place. Printing never fails.",
  ["inputs"], "all kinds of error, all carried texts and characters, all places",
  "Tests only look whether an error came up; the place of an error has private fields and can be seen in no other way.",
  ["src/error.rs", "src/position.rs"], [("Display for ParseError, ErrorKind", "src/error.rs"), ("Display for CodeRegion", "src/position.rs")], ["Display"], "abstract interpretation of each Display implementation's MIR on symbolic errors, the printed sequence compared with the rule", "Every path of the three Display implementations on symbolic numbers, texts of any length and characters. Trusts the model of the format machinery (templates are decoded from the compiled constants)."))

CLAIMED = set(open(os.path.join(HERE, "tools", "claimed")).read().split())
props = []
checks, na = [], []
for p in L:
    assert len(p["title"]) <= 80, p["id"]
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
      "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["tests"],
      "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}})
    if p["id"] in CLAIMED:
        checks.append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
          "technique": p["technique"], "level": "other", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "The analysis for this property is not built yet."})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
json.dump({"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
