"""Which harness entries decide which property, with their bounds."""
ALL = "0..66,1000..1074,2000..2081,3000..3060,6000..6039,7000..7036,8000..8025"
FORM = ALL.replace("3000..3060,", "")  # number notation beyond the whole numbers of 8000 is costly and is kept or not as one piece
NODE1 = ",".join(f"{n}0000..{n}0012" for n in "01234").replace("00000..00012", "0..12")
NODE2 = ",".join(f"2{o:02}00..2{o:02}12" for o in range(1, 12))
NODE3 = ",".join(f"3{o:02}00..3{o:02}12" for o in range(1, 12))
def _s(k, *how): return [f"{k * 100 + a}..{k * 100 + b}" for a, b in how]
V1 = "0..12,13..31,33..40,41..42,43..54"
SERDE = ",".join(sum([_s(k, (0, 15)) for k in (0, 1, 2, 6, 21, 25)] + [_s(k, (0, 2), (3, 4), (5, 6), (9, 10), (12, 13)) for k in (3, 4, 5, 7, 20, 22, 23, 24)] + [_s(k, (0, 14), (15, 16)) for k in (11, 12, 13)] + [_s(k, (0, 16)) for k in (10, 14)] + [_s(30, (0, 20))], []))
SC = [(0, 4), (5, 6), (7, 8), (9, 10), (11, 13), (14, 15), (16, 17), (25, 26), (41, 42)]
DE = ",".join(sum([_s(k, *SC, *([(32, 33)] if k in (1, 4) else []), *([(33, 35)] if k == 6 else [])) for k in range(8)]
    + [_s(8, *SC), _s(9, *SC, (36, 39)), _s(10, *SC, (36, 37), (38, 39)), _s(11, *SC), _s(12, *SC, (6, 7)), _s(13, *SC, (6, 7))]
    + [_s(k, *([(0, 32)] if k in (18, 19, 20, 24, 25, 28, 31) else [(0, 19), (20, 32)]), (42, 47), *([(35, 36), (39, 41)] if k == 19 else [])) for k in range(14, 33)] + [_s(k, (0, 19), (20, 32)) for k in range(40, 44)], []))
# witnesses each harness must reach (otherwise the run is vacuous)
REACH = {"h_v1_to_v2": [1, 2], "h_v2_to_v1": [1, 2], "h_fallback": [1, 2, 3], "h_fallback_part": [1, 2, 3], "h_build_str": [1], "h_build_num": [1], "h_build_tree": [1], "h_eq": [1, 2], "h_edit": [1, 2], "h_serde": [1, 2], "h_de": [1, 2, 3, 4], "h_node_ops": [1, 2, 3, 4, 5], "h_doc_ops": [1, 2], "h_roundtrip": [1, 2], "h_conform": [1, 2, 3], "h_autoformat": [1, 2], "h_autoformat_nc": [1, 2], "h_autoformat_cfg": [1, 2, 3], "h_clear": [1, 2], "h_clear_one": [1, 2], "h_total": [1, 2], "h_conform_part": [1, 3], "h_span": [1, 2, 3]}
BND = "every text of the listed families: fixed KDL text around 1-3 symbolic characters, each any ASCII character (A), any BMP scalar (B), any plane-1 scalar (S) or any of 30 KDL-significant characters (K), or around 1-5 symbolic choices between whole pieces of trivia, newlines, indentation, quotes, digits and values (the lists in harness/src/sym.rs); longer inputs and other skeletons are outside"
PROPS = {
    "P01": dict(how="Parses a document with symbolic characters and asserts that printing the result gives back the text.", bounds=BND, quick=[dict(entry="h_roundtrip", scn=ALL, time=100), dict(entry="h_total", scn="14000..14045,24000..24045,34000..34045,15000..15050,25000..25050,35000..35050,19000..19020,29000..29020,39000..39020", time=60)]),
    "P02": dict(how="Runs every parsing entry point on texts with symbolic characters, broken ones included; panics, non-termination, and malformed error reports are violations.", bounds=BND, quick=[dict(entry="h_total", scn="4000..4045,5000..5050,14000..14045,15000..15050,24000..24045,25000..25050,34000..34045,35000..35050,44000..44045,9000..9020,19000..19020,29000..29020,39000..39020", time=80), dict(entry="h_total", scn=ALL, time=100)]),
    "P03": dict(how="Parses a document with symbolic characters with the real parser and with an independent reader of the KDL 2.0 grammar (executed symbolically on the same characters), and asserts that both accept or both reject and that the trees agree; structure family.", bounds=BND, quick=[dict(entry="h_conform", scn="0..66,6000..6039"), dict(entry="h_conform_part", scn="14000..14045,24000..24045,19000..19020,29000..29020")]),
    "P04": dict(how="As P03, string and identifier family.", bounds=BND, quick=[dict(entry="h_conform", scn="2000..2081,7000..7036"), dict(entry="h_conform_part", scn="34000..34045,35000..35050,39000..39020", time=30)]),
    "P05": dict(how="As P03, number and keyword family.", bounds=BND, quick=[dict(entry="h_conform", scn="3000..3060,8000..8025")]),
    "P17": dict(how="As P03, comment, slashdash, escaped-newline and byte-order-mark family.", bounds=BND, quick=[dict(entry="h_conform", scn="1000..1074,6000..6039")]),
    "P07": dict(how="Parses a document with symbolic characters, autoformats it (the document, one node, or the document after its formatting was cleared) and parses the output again.", bounds=BND + "; formatting configurations: the default and the one without comments, and six that combine indent strings, indent levels 0-2, no_comments and entry_autoformate_keep", quick=[dict(entry="h_autoformat", scn=FORM), dict(entry="h_autoformat_cfg", scn="46000..46039,26000..26034,10005..10030,50030..50066", time=60)], thorough=[dict(entry="h_autoformat", scn="3000..3060"), dict(entry="h_autoformat_nc", scn="0..66,1000..1074,6000..6039"), dict(entry="h_autoformat_cfg", scn="0..66,1000..1074,6000..6039,2000..2081,3000..3060,7000..7036,8000..8025")]),
    "P08": dict(how="Parses a document with symbolic characters, clears its formatting (all of it, or one part of it) and parses the printed result again.", bounds=BND, quick=[dict(entry="h_clear", scn=FORM), dict(entry="h_clear_one", scn="5..66,1000..1074,6000..6039", time=60)], thorough=[dict(entry="h_clear", scn="3000..3060")]),
    "P09": dict(how="Parses a document with symbolic characters and checks every span in the tree: bounds, character boundaries, nesting and order, and that the text of each name, entry and node span is that part.", bounds=BND, quick=[dict(entry="h_span", scn=ALL)]),
    "P10": dict(how="Builds a node (or document) whose names are symbolic characters, performs one or two symbolically chosen operations with symbolic names, indices and values, and compares what they return and leave with a list model executed on the same symbols.", bounds="nodes of up to 4 entries (2 with two operations in a row) whose kind, one-letter ASCII names, spelling and formatting are symbolic, documents of up to 4 nodes; every operation of the list in harness/src/p_model.rs, names any ASCII character, indices 0-255; panics are required exactly where the documentation announces them", quick=[dict(entry="h_node_ops", scn=NODE1 + "," + NODE2), dict(entry="h_doc_ops", scn="100..106,200..206,300..306,400..406")], thorough=[dict(entry="h_node_ops", scn="50000..50012," + NODE3), dict(entry="h_doc_ops", scn="500..506")]),
    "P11": dict(how="Compares, orders, hashes and converts values, identifiers, entries, nodes and documents built from symbolic parts and asserts agreement with a specification of equality and order on the same symbols.", bounds="two (three for transitivity) values of any kind: any 128-bit integer, any 64-bit pattern of a double (16 chosen doubles where hashing is involved), strings of up to 2 ASCII characters, booleans, null; identifiers, entries, nodes and documents with one-letter parts, one part varied at a time, documents of up to 2 nodes", quick=[dict(entry="h_eq", scn="0..10")]),
    "P13": dict(how="Parses a document with symbolic choices of its parts and with symbolic characters in strings and numbers, deserialises it into a derived type with the real deserialiser, and compares the value or error with a specification of the documented mapping executed on the parsed document.", bounds="35 target types (integers of all widths to 64 bits, floats, bool, string, char, unit, options, sequences, a tuple, a map, structs with plain, #n, #args, #rest, #@, #type and #name fields, deny_unknown_fields, newtypes, an enum with all kinds of variants, containers of those, and whole documents) x up to 47 documents of 1-3 nodes whose values, keys, names and nesting are symbolic choices from the lists in harness/src/sym.rs, strings of 1-2 symbolic characters, numbers with up to 2 symbolic digits at the boundaries of the types. Outside: integers beyond 2^53 read as floats (rounded by serde), unit read from anything but #null, elements a tuple has no place for, properties or keys that occur twice in a map, whether an error is reported where the documentation does not say", quick=[dict(entry="h_de", scn=DE, features="de")]),
    "P14": dict(how="Parses KDL 1 and KDL 2 texts with symbolic characters and symbolically chosen pieces, converts the tree to the other version (as parsed, cleared or autoformatted), and reads the printed text with the other version's real parser; compares the trees. Fallback parsing is compared with what each version's parser says on the same symbols.", bounds="54 KDL 1 skeletons around 1-3 symbolic characters or choices among 19 values, 15 names and 10 pieces of trivia; the KDL 2 families of P03 and P04, except values KDL 1 cannot write (infinities, NaN, integers beyond 64 bits); single nodes, entries and identifiers: 12 skeletons without keywords as names (the version 1 parser of the dependency panics on them, see known_findings.json); longer inputs and other skeletons are outside", quick=[dict(entry="h_v1_to_v2", scn=V1, features="v1", time=45), dict(entry="h_fallback", scn=V1, features="v1", time=45), dict(entry="h_v2_to_v1", scn="5..40,2012..2014,2016..2030,6000..6015,7000..7036", features="v1", time=45), dict(entry="h_fallback_part", scn="0..12", features="v1", time=20)], thorough=[dict(entry="h_v1_to_v2", scn="12..13,31..33,40..41,42..43", features="v1"), dict(entry="h_v2_to_v1", scn="40..66,1000..1074,2000..2012,2014..2016,2030..2081,6015..6039,8000..8025", features="v1"), dict(entry="h_fallback", scn="31..33,1000..1074,2000..2040", features="v1"), dict(entry="h_fallback_part", scn="12..13", features="v1")]),
    "P15": dict(how="Parses a document with symbolic characters, performs one symbolically chosen edit at a symbolically chosen place, and compares the printed text with the original text cut at the edited part; the result is parsed again.", bounds="one edit of 14 kinds (rename, set value, set or replace by key, push, insert, remove an entry, add or remove a node or a children block, reverse nodes or entries) at any node and entry of: 32 edit templates (fixed text with symbolic trivia and line ends) and the string and number families; values written through a mutable reference to the value itself (get_mut, value_mut, indexing) keep the stored text and are outside", quick=[dict(entry="h_edit", scn="20001..20018,20020..20032,2000..2081,3000..3057", time=100)], thorough=[dict(entry="h_edit", scn="0..66,20000,20018..20020,1000..1074")]),
    "P12": dict(how="Builds Rust values of derived types from symbolic leaves (strings of symbolic characters, symbolic integers, floats, booleans, options) and symbolically chosen shapes, serialises them with the real serialiser, parses the text with the real parser, deserialises it with the real deserialiser and asserts that the value comes back.", bounds="leaves: 8-bit integers: all; 16- to 64-bit ones: 48 magnitudes at their boundaries; 12 doubles and 10 floats; strings and characters of up to 2 symbolic characters (any ASCII, BMP or plane-1 scalar); one leaf of a value varies fully, the others little. Shapes: those leaves, options, sequences and tuples of up to 2, maps of up to 2 entries with string, number, boolean, character or enum keys, structs whose fields are children, properties, arguments (#n, #args, #rest) and type annotations, newtypes, unit and all kinds of enum variants, in 15 containers up to 3 levels deep. Outside: an Option directly around what is itself written as a lone #null, untagged enums, i128 (not supported by the serialiser), sequences of compound values inside a node (the serialiser reports an error)", quick=[dict(entry="h_serde", scn=SERDE, features="se")], thorough=[dict(entry="h_serde", scn="1114..1115,1214..1215,1314..1315", features="se")]),
    "P06": dict(how="Builds documents through the public constructors and setters from symbolic strings, numbers and symbolically chosen shapes, prints them, parses the text with the real parser and asserts that the trees agree.", bounds="strings: 62 shapes (fixed text around 0-4 symbolic characters: any ASCII, any BMP or plane-1 scalar, or KDL-significant; fragments of quotes, digits and trivia) as argument, property name and value, node name, types, and set on a parsed document; integers within 2 of 27 boundary magnitudes of both signs; doubles of every exponent with 5 fractions and both signs; trees of up to 3 nodes with up to 2 entries and 2 levels of children; nodes and entries added to 23 parsed documents", quick=[dict(entry="h_build_str", scn="0..62,3000..3062,8000..8062,10000..10062,7000..7016", time=60), dict(entry="h_build_num", scn="0..1,10..14", time=20), dict(entry="h_build_tree", scn="0..4,5..7", time=30)], thorough=[dict(entry="h_build_str", scn="1000..1062,4000..4062,5000..5062,7016..7062,9000..9062"), dict(entry="h_build_num", scn="1..4"), dict(entry="h_build_tree", scn="4..5,7..8")]),
}
NOT_APPLICABLE = {"P16": "the conversion is a private function of the kdl-lsp binary (an async tower-lsp server); what it computes is done by the ropey dependency, whose rope is outside the compiled library that the executor encodes, and reaching it would mean encoding a copy of the function rather than the binary's code"}
