"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))
V2 = "src/v2_parser.rs"
prop("P01", "Parsing then printing gives back the exact text",
 "Whenever a text parses as a KDL v2 document, printing the resulting document yields that text byte for byte, comments, whitespace, escapes, number notation, terminators and slashdashed parts included. The same holds for texts parsed as a single node, entry, identifier or value.",
 ["inputs"], "for every input text that the parser accepts",
 "The suite round-trips a fixed set of documents; whitespace, comments and terminators can appear in every gap of the grammar, and each gap has its own piece of stored format that is either printed back or lost.",
 [V2, "src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs", "src/fmt.rs"],
 [("leading/trailing/before_terminator and the other format fields are filled from recognised source slices", V2), ("Display prints every stored format field around the parts", "src/node.rs stringify, src/entry.rs fmt, src/document.rs stringify, src/identifier.rs fmt")],
 ["KdlDocument::parse_v2 / KdlNode::parse_v2 / KdlEntry::parse_v2 / KdlIdentifier::parse_v2 followed by to_string()"],
 [("KdlDocumentFormat, KdlNodeFormat, KdlEntryFormat", "text between and around the parts", "src/document.rs, src/node.rs, src/entry.rs")])
prop("P02", "Parsing is total and its errors are usable",
 "For every text, every parsing entry point returns, without panicking or looping: either a value or an error carrying the whole input and at least one diagnostic of error severity. Every span of a diagnostic lies within the input, on character boundaries.",
 ["inputs"], "for every text, at every entry point",
 "Tests feed a few dozen broken texts; a panic or an out-of-range span needs a particular byte at a particular position (end of input, multi-byte character, unbalanced delimiter).",
 [V2, "src/error.rs", "src/document.rs", "src/node.rs", "src/entry.rs"],
 [("try_parse collects the recovered errors, otherwise reports failure", V2 + " try_parse, failure_from_errs"), ("resume_after_cut skips the rest of a broken construct", V2), ("span_from_checkpoint", V2)],
 ["KdlError.input, KdlError.diagnostics[i].span"])
prop("P03", "Exactly the KDL 2.0 documents are accepted, with the right tree",
 "A text is accepted if and only if the KDL 2.0 grammar derives it, and the resulting document has exactly the nodes, type annotations, arguments, properties and children, in order, that the specification assigns to the text.",
 ["inputs"], "for every text, as far as nodes, types, entries, children blocks and terminators go",
 "The suite checks the official examples; whether a space, a newline, a semicolon or a brace is required, allowed or forbidden at each position is a statement about all texts.",
 [V2], [("document, nodes, base_node, entry, node_children, node_terminator parsers", V2)], ["KdlDocument::parse_v2 result and its tree"])
prop("P04", "Strings and identifiers decode as the specification says",
 "Every string form (identifier, quoted, multi-line, raw, raw multi-line) is accepted exactly when KDL 2.0 allows it, and its value is the text the specification defines: escapes replaced, escaped whitespace removed, newlines normalised and indentation removed in multi-line strings, raw text verbatim.",
 ["inputs"], "for every text made of string and identifier tokens",
 "Escapes, code points, dedentation prefixes and reserved words each have edge values (surrogates, U+10FFFF, mixed newline kinds, whitespace-only lines, identifiers that look like numbers) that samples miss.",
 [V2], [("quoted_string, multi_line_string_body, raw_string, string_char, escaped_char, unicode_scalar", V2), ("identifier_string, unambiguous_ident, signed_ident, dotted_ident", V2)], ["string values and names of the parsed tree"])
prop("P05", "Number and keyword literals have the right value",
 "Every decimal, hexadecimal, octal, binary and floating point literal and every # keyword is accepted exactly when KDL 2.0 allows it and yields the mathematically denoted value: an exact integer when it fits the value type, the nearest double for a decimal with fraction or exponent. Integers out of range are rejected rather than altered.",
 ["inputs"], "for every literal text",
 "Signs, underscores, radix prefixes and boundary magnitudes combine; the suite has a handful of literals.",
 [V2, "src/value.rs"], [("number, decimal, float, hex, octal, binary, keyword parsers; sign handling", V2)], ["KdlValue of the parsed entry"])
prop("P06", "Whatever is built through the API prints as text with that meaning",
 "A document, node, entry, identifier or value assembled through the public constructors and setters, from arbitrary strings, numbers, keywords, names and types and without custom formatting, prints as a text that parses, and parsing it gives back the same names, types, values and structure.",
 ["inputs", "programs"], "for every string, number and small tree built through the API",
 "Quoting and escaping decisions depend on every character of a string and on look-alikes of numbers and keywords; float printing on every double; tests use ordinary words.",
 ["src/fmt.rs", "src/value.rs", "src/identifier.rs", "src/entry.rs", "src/node.rs", "src/document.rs", V2],
 [("is_plain_ident / write_string decide quoting and escapes", "src/value.rs, src/identifier.rs"), ("Display for KdlValue, floats printed with a fraction or exponent", "src/value.rs"), ("default separators when no format is present", "src/node.rs, src/document.rs")], ["to_string() then parse_v2"])
prop("P07", "Autoformatting changes layout only, and settles",
 "Autoformatting a parsed document never changes its meaning: the formatted text parses to the same tree; formatting the result again changes nothing. The same holds for every formatting configuration, for a single node, and for a document whose formatting was cleared. Every node starts a line of its own, indented to its depth; unless comments are stripped on request, every comment that starts a line of its own survives; and the notation of values survives if that is asked for.",
 ["inputs", "configurations"], "for every document and every formatting configuration",
 "Tests format a few documents with the default configuration; comments, escaped newlines and slashdashed parts can sit in every gap of the text.",
 ["src/fmt.rs", "src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs"], [("autoformat_impl of document, node, entry; autoformat_leading, autoformat_trailing", "src/fmt.rs, src/document.rs, src/node.rs, src/entry.rs")], ["autoformat*, then to_string(), then parse_v2"])
prop("P08", "Clearing formatting keeps the meaning",
 "After the formatting of a whole document, or of any single document, node or entry in it, is cleared, the document still prints as a text that parses to the same tree. After all of it is cleared, the text depends on the tree alone.",
 ["inputs", "histories"], "for every document and every part of it that is cleared",
 "Default separators and neighbouring stored formats meet in combinations no test lists.",
 ["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs"], [("clear_format, clear_format_recursive; defaults in stringify", "src/document.rs, src/node.rs, src/entry.rs")], ["clear_format* then to_string() then parse_v2"])
prop("P09", "Spans point at the text they describe",
 "In a parsed document every node, entry, name, type annotation and children block has a span inside the input, on character boundaries, whose text is that part: parsing the spanned text on its own gives an equal part. Spans of siblings are ordered and disjoint and lie inside their parent's.",
 ["inputs"], "for every accepted text",
 "Tests check the spans of two documents; multi-byte characters, a byte order mark, comments and escaped lines shift offsets.",
 [V2, "src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs"], [("span_from_checkpoint, set_span at each parser", V2)], ["span() of every part against the source text"])
prop("P10", "Lookup and mutation of nodes and documents follow the list model",
 "A node behaves as an ordered list of arguments and properties and a document as an ordered list of nodes: get, entry, insert, push, remove, iteration, indexing, retain and clear operations return and leave what that model says, for names given with any formatting, and never disturb other elements.",
 ["histories", "inputs"], "for every short sequence of operations on every small node or document, with arbitrary names",
 "Operations interact through index shifts, duplicate names and names that are spelled differently in the source; tests try each call once.",
 ["src/node.rs", "src/document.rs"], [("entries: Vec<KdlEntry>, nodes: Vec<KdlNode> and the searching and index arithmetic on them", "src/node.rs, src/document.rs")], ["results of the API calls and the element list afterwards"])
prop("P11", "Equality, ordering and hashing agree",
 "Equality on values, identifiers, entries, nodes and documents is an equivalence that compares every part and stored format but no span; for it, a not-a-number counts as zero and an infinity as the largest finite double of its sign, as the library documents. Equal things hash equally, the ordering of values is total and consistent with equality, and conversions between values and native types keep the value.",
 ["inputs"], "for every pair and triple of values",
 "Derived and hand-written implementations disagree only on particular values (NaN, signed zero, infinities, equal names with different spelling).",
 ["src/value.rs", "src/identifier.rs", "src/entry.rs", "src/node.rs", "src/document.rs"], [("PartialEq, Eq, Hash, PartialOrd, From/TryFrom implementations", "src/value.rs, src/identifier.rs, src/entry.rs")], ["==, hash, partial_cmp, conversions"])
prop("P12", "Serialising and deserialising returns the value",
 "Every value of a supported data shape (structs, options, sequences, maps, enums, numbers, strings, nested combinations) that serialises to KDL yields text that parses, and deserialising that text gives back an equal value.",
 ["inputs", "programs"], "for every value of the supported shapes",
 "The interesting cases are particular contents: empty collections, None, strings that look like keywords, extreme numbers, nested options.",
 ["src/se.rs", "src/de.rs"], [("Serializer and its compound states", "src/se.rs"), ("Deserializer over nodes and entries", "src/de.rs")], ["se::to_string then de::from_str"])
prop("P13", "Deserialising follows the document or fails cleanly",
 "Deserialising any document into any supported shape either returns exactly the data the document holds under the documented mapping or returns an error; it never panics, never changes a number silently and never reads data from the wrong place. (An integer beyond 2^53 asked for as a float is rounded; data that the shape has no place for is ignored.)",
 ["inputs"], "for every document text, for each target shape",
 "Integer widths, missing or repeated arguments, and children versus properties combine freely.",
 ["src/de.rs"], [("from_str, visitor access over entries and children", "src/de.rs")], ["de::from_str result"])
prop("P14", "Conversion between KDL 1 and KDL 2 keeps the meaning",
 "A KDL 1 document parsed and converted to KDL 2 prints as KDL 2 text with the same tree, and a KDL 2 document converted to KDL 1 prints as KDL 1 text with the same tree, unless it holds what KDL 1 cannot write (infinities, NaN, integers beyond 64 bits); comments and whitespace that the other version would not read as such are replaced. Converting there and back keeps the tree. Fallback parsing (of documents, nodes, entries and identifiers) accepts what either version accepts and nothing else, and gives the tree of KDL 2 when that accepts the text, else that of KDL 1.",
 ["inputs"], "for every text in either version",
 "Strings, raw strings, keywords and identifiers are written differently in the two versions; each representation has to be rewritten wherever it occurs.",
 ["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs", "src/v2_parser.rs"], [("ensure_v1, ensure_v2", "src/document.rs, src/node.rs, src/entry.rs"), ("v1_to_v2, v2_to_v1, parse with fallback", "src/document.rs"), ("From conversions from kdlv1 types", "src/document.rs, src/node.rs, src/entry.rs")], ["ensure_v1/ensure_v2/v1_to_v2/v2_to_v1 output parsed by the other parser"])
prop("P15", "Editing one part leaves the text of the others alone",
 "After one edit through the API of a parsed document (set a value, rename, insert, push or remove an entry, a node or a children block) the document prints as a text that parses to the edited tree, and the text of every untouched part stays as it was.",
 ["inputs", "histories"], "for every document, every edit position and every new value",
 "Stored formats of neighbours (terminators, trailing comments, escaped lines) decide whether an edit swallows or breaks something; tests edit tidy documents.",
 ["src/document.rs", "src/node.rs", "src/entry.rs", "src/identifier.rs"], [("setters, insert, push, remove with format handling", "src/node.rs, src/entry.rs, src/document.rs")], ["to_string() after the edit, parse_v2 of it"])
prop("P16", "Editor positions agree with the text",
 "For every text and every byte offset in it, the language server's line and column are those of the protocol: the number of line breaks before the offset, and the UTF-16 length of the rest; a position of an offset never precedes that of a smaller one.",
 ["inputs"], "for every text and every offset",
 "Tests use ASCII lines; line terminators other than a line feed and characters outside the BMP change the count.",
 ["tools/kdl-lsp/src/main.rs"], [("diagnostic range conversion through the rope's character and line index", "tools/kdl-lsp/src/main.rs")], ["published diagnostic ranges"])
prop("P17", "Comments, slashdash and escaped lines remove exactly what they should",
 "Comments (single-line, nested multi-line), slashdashed nodes, entries and children blocks, escaped newlines, a leading byte order mark and a version marker are accepted exactly where KDL 2.0 allows them, and the tree is that of the text without them.",
 ["inputs"], "for every text that contains them",
 "Each can stand in each gap of the grammar and nest; the suite has one example of most.",
 [V2], [("slashdash, single_line_comment, multi_line_comment, escline, bom, version parsers and their call sites", V2)], ["KdlDocument::parse_v2 result and its tree"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
