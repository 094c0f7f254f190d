"""Which harness entries decide which property, with their bounds; what is not claimed and why."""
T = ("thorough",)
COMMON_ASSUMPTIONS = [
    "single thread; the process-external world (files, network, clock, environment) is not modelled",
    "LLVM IR produced by the pinned rustc at opt-level 1 with overflow checks stands for the source (the native replay of sampled paths compares both)",
    "hash maps use a fixed seed (std RandomState keys are 0), so their iteration order is one of the possible ones",
]
NOFMT = "text formatting of error values is skipped while the code under test runs (their text is not inspected)"


def e(entry, bounds, **kw):
    return dict(entry=entry, bounds=bounds, **kw)


_1 = "one operator (And/Or of two, Star, Plus, Repeat) over symbols a,b (repeats allowed)"
_2 = "two operators deep over symbols a,b (repeats allowed; right operands of And/Or are leaves)"
_card = "every cardinality a 64-bit (min<=max | unbounded)"
CHECKS = {
    "C01": dict(crate="rbe", assumptions=[NOFMT], note="expressions with up to 2 nested operators over 2 symbols, all 64-bit cardinalities, all symbol sequences up to length 3 (thorough: depth 2 with length 3); open and closed mode", entries=[
        e("c01_d1", f"{_1}; {_card}; every sequence of up to 3 symbols, and the corresponding bags"),
        e("c01_d2", f"{_2}; {_card}; every sequence of up to 2 symbols"),
        e("c01_open", f"{_1}; {_card}; up to 2 copies of each symbol and one extra symbol, open and closed"),
        e("c01_d2x", f"{_2}; {_card}; every sequence of up to 3 symbols", tiers=T),
    ]),
    "C02": dict(crate="rbe", assumptions=[NOFMT], note="single-occurrence expressions with up to 2 nested operators over 2 symbols (thorough: 3), all 64-bit cardinalities, bags of up to 4 copies per symbol", entries=[
        e("c02_d1", f"one operator, each symbol once; {_card}; up to 4 copies of each symbol; matching entry point"),
        e("c02_d2", f"two operators deep, each symbol once; {_card}; up to 3 copies; interval algorithm"),
        e("c02_d2m", f"two operators deep, each symbol once; {_card}; up to 2 copies; matching entry point"),
        e("c02_auto", f"{_1}; {_card}; up to 2 copies of each and an extra symbol; automatic choice of algorithm, open and closed"),
        e("c02_d3", f"three operators deep, each symbol once; {_card}; up to 2 copies; interval algorithm", tiers=T),
    ]),
    "C03": dict(crate="rbe", note="single-occurrence expressions with up to 3 nested operators over 2 symbols, all cardinalities, symbolic lower/upper multiplicities up to 3", entries=[
        e("c03_d1", f"one operator; {_card}; all lower<=upper multiplicities up to 3"),
        e("c03_d2", f"two operators deep; {_card}; multiplicities up to 2"),
        e("c03_d3", f"three operators deep; {_card}; multiplicities up to 2"),
    ]),
    "C04": dict(crate="rbe", note="all 64-bit bounds (division: divisors up to 23, 32-bit dividends)", entries=[
        e("c04_card", "all 64-bit min<=max or unbounded, all 64-bit counts"),
        e("c04_max", "all pairs of 64-bit or unbounded bounds"),
        e("c04_div", "divisor 0..23 or unbounded, 32-bit dividend and part count"),
        e("c04_interval", "all pairs of 64-bit or unbounded intervals (sums that fit)"),
        e("c04_from", "all 64-bit values"),
    ]),
    "C05": dict(crate="rbe", assumptions=[NOFMT, "every value's key has at least one component (the callers pass only such values)"],
                note="three components over one or two keys in six expression forms, up to 2 values (thorough 3), every relation between components and values, symbolic cardinalities", entries=[
        e("c05_and", "c0? ; c1{..} ; c2{..}, up to 2 values"),
        e("c05_or", "c0 | (c1{..} ; c2{..}), up to 2 values"),
        e("c05_andor", "(c0 | c1{..}) ; c2{..}, up to 2 values"),
        e("c05_star", "(c0 ; c1{..})* ; c2, up to 2 values"),
        e("c05_plus", "(c0 | c1{..} | c2)+, up to 2 values"),
        e("c05_rep", "(c0 ; (c1 | c2)){..}, up to 2 values"),
        e("c05_refs", "with a shape reference on one component and every typing of its values, up to 2 values"),
        *[e(f"c05_{x}_x", "as above, more cardinalities symbolic", tiers=T) for x in ("and", "or", "andor", "star", "plus", "rep", "refs")],
        e("c05_three", "first three forms, up to 3 values", tiers=T),
    ]),
    "C06": dict(crate="rdf", assumptions=[NOFMT, "floating point: the standard library's decimal-to-float conversion is executed as compiled"], note="every ASCII text up to 4-8 characters per datatype, and texts within 5 characters of the 32/64-bit limits", entries=[
        e("c06_integer", "xsd:integer, every ASCII text up to 4 characters"),
        e("c06_byte", "xsd:byte, every ASCII text up to 5 characters"),
        e("c06_signed", "byte (up to 5 characters) and short (up to 7)"),
        e("c06_int", "int, up to 8 characters"),
        e("c06_unsigned", "unsignedByte, unsignedShort, unsignedInt, up to 5/7/8 characters"),
        e("c06_long", "long and unsignedLong, up to 8 characters"),
        e("c06_near", "texts sharing all but the last 4 digits with a range limit of int, unsignedInt, long, unsignedLong, then up to 5 arbitrary characters"),
        e("c06_unbounded", "integer, non-/positive/negativeInteger, up to 6 characters"),
        e("c06_boolean", "boolean, up to 6 characters"),
        e("c06_decimal", "decimal, up to 6 characters"),
        e("c06_float", "float and double, up to 4 characters"),
        e("c06_float_x", "float and double, up to 5 characters", tiers=T),
    ]),
    "C07": dict(crate="rdf", note="all pairs of integers of the 13 integer datatypes (16-bit values, and 128-bit values), decimals with 12-bit mantissas and up to 3 fraction digits, a list of floats and doubles", entries=[
        e("c07_ints", "all pairs of integer datatypes, all 16-bit values"),
        e("c07_wide", "unbounded integers, all 127-bit magnitudes"),
        e("c07_dec", "decimals m*10^-s, 12-bit m, s<=2, against each other and all 16-bit integers"),
        e("c07_special", "every NaN bit pattern with 32 symbolic mantissa bits, infinities, against integers, decimals and floats"),
        e("c07_float", "10 floats/doubles against 4 integer kinds, decimals and each other"),
    ]),
    "C08": dict(crate="rdf", assumptions=[NOFMT], note="all pairs (some triples) of 8-bit numbers of each datatype, special floats, literals of each representation with texts of up to 2 characters over {0,1,a}, terms with triple terms", entries=[
        e("c08_num", "pairs: 8-bit integers, special values, floats"),
        e("c08_ints", "pairs: 8-bit integers of all datatypes and decimals"),
        e("c08_num3", "triples of numbers"),
        e("c08_lit", "pairs of literals in 8 representations, texts up to 2 characters"),
        e("c08_lit3", "triples of literals, texts of 1 character"),
        e("c08_obj", "pairs of terms, triple terms of depth 1"),
        e("c08_obj3", "triples of terms, triple terms of depth 1"),
    ]),
    "C09": dict(crate="rdf", note="texts up to 3 characters over {0,1,-,.,t,e} for 20 datatypes, near-canonical texts with one free character, all 8-bit numbers, terms with triple terms of depth 2", entries=[
        e("c09_ints", "13 integer datatypes, texts up to 3 characters"),
        e("c09_others", "7 other datatypes, texts up to 3 characters"),
        e("c09_near", "12 near-canonical texts with one free character"),
        e("c09_strings", "plain, language-tagged and custom-typed literals, texts up to 2 characters"),
        e("c09_numbers", "8-bit values of 15 numeric representations"),
        e("c09_terms", "terms with triple terms of depth 2"),
    ]),
    "C10": dict(crate="rdf", note="16-bit integers of 13 datatypes, neighbours of each power of ten up to 10^36, decimals with |mantissa|<2000 and scale<=3, texts up to 4 arbitrary Unicode characters", entries=[
        e("c10_ints", "13 integer datatypes, 16-bit values"),
        e("c10_powers", "values around 10^5..10^36"),
        e("c10_dec", "decimals m*10^-s, |m|<2000, s<=3"),
        e("c10_length", "texts up to 4 arbitrary Unicode characters in every kind of term"),
    ]),
    "C11": dict(crate="rdf", note="maps of up to 3 prefixes over short namespaces and short IRIs, histories of up to 3 updates (thorough: more)", entries=[
        e("c11_one", "one declared prefix, namespace and IRI texts symbolic"),
        e("c11_two", "two prefixes, overlapping namespaces included"),
        e("c11_three", "three prefixes"),
        e("c11_history", "every history of additions, removals and merges within the bound"),
        e("c11_three_x", "three prefixes, longer texts", tiers=T),
        e("c11_history_x", "longer histories", tiers=T),
    ]),
    "C12": dict(crate="rdf", assumptions=[NOFMT], note="every ASCII text of up to 5 characters, and templates of absolute and relative IRIs with 2-5 free characters (IP literals in brackets excluded)", entries=[
        e("c12_parse_x", "every ASCII text up to 5 characters"),
        e("c12_authority_x", "IRIs with an authority, free characters in it"),
        e("c12_absolute_x", "absolute IRIs against several bases"),
        e("c12_relative_x", "relative references against several bases"),
        e("c12_turtle", "text in and out of angle brackets"),
        e("c12_relativize", "resolving against the IRI itself"),
    ]),
    "C13": dict(crate="shex", assumptions=[NOFMT], note="each facet and each kind of value-set entry, alone and combined, over IRIs, blank nodes, literals of several datatypes with short texts and 8- to 64-bit numbers; regular-expression facets and wildcard stems on nodes of another kind excluded", entries=[
        e("c13_kind", "node kind, all four kinds against every kind of term"),
        e("c13_datatype", "datatype constraint against every kind of literal"),
        e("c13_range", "min/max in/exclusive, symbolic bounds and values of integers and decimals"),
        e("c13_range_wide", "the same for 64-bit integers"),
        e("c13_range_text", "values read from symbolic lexical forms"),
        e("c13_length", "length facets with symbolic limits and texts"),
        e("c13_digits", "totalDigits and fractionDigits"),
        e("c13_values", "one value-set entry of each kind"),
        e("c13_iri_ranges", "IRI stems and stem ranges with exclusions"),
        e("c13_literal_ranges", "literal stems and stem ranges with exclusions"),
        e("c13_lang_ranges", "language stems and stem ranges with exclusions"),
        e("c13_all", "several facets together"),
        e("c13_values_two", "two value-set entries", tiers=T),
    ]),
    "C14": dict(crate="shex", assumptions=[NOFMT, "no CLOSED shape names in EXTRA a predicate its expression does not mention (ambiguous in the specification)"],
                note="one and two predicates, every graph of up to 3 arcs over a few values, all small cardinalities, EXTRA and CLOSED on and off (thorough: more arcs)", entries=[
        e("c14_one", "one triple constraint, every cardinality up to 3 or unbounded"),
        e("c14_empty", "the empty expression"),
        e("c14_inverse", "an inverse triple constraint beside a direct one"),
        e("c14_same_pred", "two constraints on one predicate"),
        e("c14_two_preds", "two predicates under EachOf/OneOf"),
        e("c14_nested", "nested EachOf/OneOf with cardinalities"),
        e("c14_one_x", "as c14_one, more arcs", tiers=T),
        e("c14_same_pred_x", "as c14_same_pred, more arcs", tiers=T),
        e("c14_two_preds_x", "as c14_two_preds, more arcs", tiers=T),
        e("c14_nested_x", "as c14_nested, more arcs", tiers=T),
    ]),
    "C15": dict(crate="shex", assumptions=[NOFMT], note="Boolean shape expressions of depth up to 3 over node tests and references, all requests orders of a few queries, graphs of up to 3 nodes", entries=[
        e("c15_logic", "AND/OR/NOT trees"),
        e("c15_refs", "the same through references"),
        e("c15_three", "AND/OR of three operands in every order"),
        e("c15_chain", "references through triples"),
        e("c15_order", "several requests to one validator in every order"),
        e("c15_refs_x", "deeper trees", tiers=T),
        e("c15_order_x", "more requests", tiers=T),
    ]),
    "C16": dict(crate="shex", assumptions=[NOFMT, "no EXTRA on recursive predicates (not monotone)"], note="one or two recursive shapes, every graph over 2 nodes (thorough: 3), every request order", entries=[
        e("c16_one", "one recursive shape"),
        e("c16_mutual", "two mutually recursive shapes"),
        e("c16_negation", "a recursive shape beside a negated reference (stratified)"),
        e("c16_one_x", "3 nodes", tiers=T),
        e("c16_mutual_x", "3 nodes", tiers=T),
        e("c16_negation_x", "3 nodes", tiers=T),
    ]),
    "C17": dict(crate="shex", assumptions=[NOFMT], note="up to 3 values (thorough 4) and 3 classes with any filters; expressions of up to two constraints with any conditions and one unbounded symbolic cardinality; shapes extending one or two others over up to 2 triples", entries=[
        e("c17_plain", "up to 3 items, 1-3 classes, any relation between items and classes"),
        e("c17_many", "up to 3 values in up to 3 classes of one predicate, all cardinalities"),
        e("c17_two", "two classes of 4 expression forms, up to 2 values over 3 keys"),
        e("c17_three", "three classes, up to 2 values over 2 keys"),
        e("c17_extends", "a shape extending another, end to end, up to 2 triples"),
        e("c17_extends_three", "chains, two parents and diamonds, end to end, up to 2 triples"),
        e("c17_plain_x", "up to 4 items", tiers=T),
        e("c17_two_x", "up to 3 values", tiers=T),
    ]),
    "C18": dict(crate="shex", note="texts built from the grammar's productions together with the schema they denote; repetition counts of up to 3 digits, numeric facets with any digit, strings, names and patterns of up to two characters of any printable ASCII, plain or escaped", assumptions=["node constraints and annotations only expressible in ShExJ are outside; nested conjunctions (disjunctions) are compared after flattening, {1} with no cardinality, an empty facet list with none"], entries=[
        e("c18_cards", "sense flags, value expressions and the 9 forms of cardinality"),
        e("c18_counts", "repetition ranges, any counts of up to 3 digits (reading only)"),
        e("c18_groups", "22 forms of sequences, choices, brackets, labels and inclusions with 5 cardinalities, two where nested"),
        e("c18_logic", "14 forms of AND, OR, NOT and brackets over 5 kinds of shape expression, in declarations and in constraints"),
        e("c18_values", "value sets of one or two values of 27 kinds"),
        e("c18_facets", "12 facets on 8 kinds of node constraint, any digit"),
        e("c18_shapes", "closed, extra, extends in any order, in declarations and in constraints"),
        e("c18_notes", "annotations and actions on constraints, groups and shapes"),
        e("c18_top", "directives, start, imports, start actions, abstract and external shapes, labels, comments"),
        e("c18_strings", "strings of two characters in four quote styles"),
        e("c18_iris", "IRIs and prefixed names with any two characters or escapes"),
        e("c18_patterns", "patterns of two characters or escapes, with flags"),
    ]),
    "C19": dict(crate="shex", note="every schema of C18's generators, written with serde_json and read again", assumptions=["two patterns in one node constraint are outside: ShExJ has one member for them", "facet numbers a double cannot hold are the known finding C19-long-numbers"], entries=[
        e("c19_cards", "sense flags, value expressions and the 9 forms of cardinality"),
        e("c19_groups", "22 forms of sequences, choices, brackets, labels and inclusions with 5 cardinalities, two where nested"),
        e("c19_logic", "14 forms of AND, OR, NOT and brackets over 5 kinds of shape expression, in declarations and in constraints"),
        e("c19_values", "value sets of one or two values of 27 kinds"),
        e("c19_facets", "12 facets on 8 kinds of node constraint, any digit"),
        e("c19_numbers", "integers of 1 to 9 digits, decimals, doubles and the limits of 64 bits"),
        e("c19_shapes", "closed, extra, extends in any order, in declarations and in constraints"),
        e("c19_notes", "annotations and actions on constraints, groups and shapes"),
        e("c19_top", "directives, start, imports, start actions, abstract and external shapes, labels"),
        e("c19_strings", "strings of two characters, plain or escaped"),
        e("c19_iris", "IRIs with any two characters"),
        e("c19_patterns", "patterns of two characters or escapes, with flags"),
    ]),
    "C20": dict(crate="shex", note="texts made of a fixed frame and up to two arbitrary characters (any ASCII, and one 2-byte and one 4-byte character), numbers of up to 45 digits; the schemas read are also written and compiled", assumptions=["stack depth is not modelled: nesting deep enough to exhaust the stack is outside"], entries=[
        e("c20_tokens", "two characters inside each kind of token"),
        e("c20_places", "two characters where a token is expected"),
        e("c20_replaced", "six schemas with any one character replaced by any character"),
        e("c20_cut", "six schemas cut anywhere and followed by any character"),
        e("c20_numbers", "long numbers wherever a number may stand"),
        e("c20_shapemap", "shape maps, node and shape selectors, replaced, cut, and any two characters"),
        e("c20_iris", "IRIs and labels, absolute and relative"),
        e("c20_langs", "language tags"),
    ]),
    "C21": dict(crate="shacl", assumptions=[NOFMT], note="every graph over 3 nodes and two predicates (some fixed for deeper paths), every path of one or two operators (thorough: three), every starting node incl. literals", entries=[
        e("c21_one", "one operator"),
        e("c21_nested", "an operator in an operator"),
        e("c21_closure", "closures of composed paths on cyclic graphs"),
        e("c21_nested2", "two operators in an operator", tiers=T),
        e("c21_deep", "three operators deep", tiers=T),
        e("c21_deep_x", "three operators deep, larger graphs", tiers=T),
        e("c21_closure_x", "closures, larger graphs", tiers=T),
    ]),
    "C22": dict(crate="shacl", assumptions=[NOFMT, "sh:pattern, SPARQL constraints and reifiers are not covered", "the crate is built without its sparql feature"],
                note="each core component on its own with every parameter in the bound, on every choice of up to 3 value nodes of all term kinds", entries=[
        e("c22_counts", "minCount and maxCount, 64-bit limits, up to 3 values"),
        e("c22_kind", "nodeKind, all six kinds against all terms"),
        e("c22_datatype", "datatype against literals of all kinds, well- and ill-formed"),
        e("c22_range", "min/max in/exclusive over symbolic numbers and incomparable values"),
        e("c22_length", "minLength and maxLength with symbolic limits"),
        e("c22_language_in", "languageIn, ranges and tags of symbolic letters"),
        e("c22_unique_lang", "uniqueLang, up to 3 values"),
        e("c22_pairs", "equals and disjoint, every pair of value sets"),
        e("c22_less", "lessThan and lessThanOrEquals, symbolic numbers and incomparable values"),
        e("c22_closed", "closed with ignored properties"),
        e("c22_members", "in and hasValue"),
        e("c22_logic", "not, and, or, xone over node tests"),
        e("c22_qualified", "qualified counts with and without disjoint siblings"),
        e("c22_nested", "property shapes of node shapes"),
        e("c22_class", "class through chains of subclasses"),
        e("c22_logic2", "logical components nested in each other", tiers=T),
    ]),
    "C23": dict(crate="shacl", assumptions=[NOFMT], note="three families of shapes referencing each other, every graph over 2 nodes (thorough: 3), every history of 2 requests (thorough: 3), every choice of targets", entries=[
        e("c23_two", "two requests to one engine against fresh engines, each for any shape and one or all nodes"),
        e("c23_report", "whole reports against the results of each shape on each of its focus nodes"),
        e("c23_three", "three requests", tiers=T),
        e("c23_nodes", "two requests, three nodes", tiers=T),
    ]),
    "C24": dict(crate="shacl", assumptions=[NOFMT], note="every graph of type and subclass triples over 3 classes (thorough: 4), every graph of two predicates over 4 nodes, up to 2 targets, with and without the class index", entries=[
        e("c24_class", "class and implicit class targets"),
        e("c24_nodes", "node, subjectsOf and objectsOf targets, up to two together"),
        e("c24_report", "the shapes of a report are validated on their targets"),
        e("c24_class_x", "4 classes", tiers=T),
    ]),
    "C26": dict(crate="pgschema", note="every 64-bit cardinality, records of up to 2 keys with values of 2 types, property, label, node and edge specifications up to two operators deep, built directly and read from schema text", entries=[
        e("c26_card", "every cardinality and count, and the intersection of every two"),
        e("c26_cond", "conditions of up to one operator over comparisons with a 32-bit integer"),
        e("c26_cond_values", "conditions on strings, dates and booleans"),
        e("c26_type", "value types (base, condition, union, intersection) and lists of up to 2 values, all cardinalities"),
        e("c26_type2", "two operators deep"),
        e("c26_record", "records of up to 2 keys against record types of up to 2 keys, open and closed"),
        e("c26_combine", "unions and intersections of record types"),
        e("c26_props", "property specifications of up to two operators, every record of up to 2 keys"),
        e("c26_labels", "label specifications of up to two operators, every set of 3 labels"),
        e("c26_unlabelled", "specifications without labels"),
        e("c26_edge", "edges against source, edge and target specifications"),
        e("c26_text_props", "property specifications read from schema text"),
        e("c26_text_labels", "label specifications read from schema text"),
        e("c26_text_types", "value types with cardinalities and conditions read from schema text"),
        e("c26_cond_x", "conditions two operators deep", tiers=T),
        e("c26_type2_x", "larger value types", tiers=T),
        e("c26_props_x", "larger property specifications", tiers=T),
        e("c26_labels_x", "larger label specifications", tiers=T),
    ]),
    "C27": dict(crate="dctap", assumptions=["the converter's module is compiled from /repo into the harness crate (its crate also pulls in an HTTP client and a SPARQL engine)", "value constraints other than picklists and patterns, which the reader ignores, and tables in spreadsheets are not covered; a statement with neither a mandatory nor a repeatable column has the default cardinality"],
                note="tables of up to 3 rows (thorough: 4), every spelling of the flags and node types, every combination of node types, datatypes, constraint and shapes of a row, cells of any 3 ASCII characters, tables with any 2 (thorough: 3) bytes anywhere in a frame", entries=[
        e("c27_flags", "mandatory and repeatable in any spelling, case and spacing, columns in any order or missing"),
        e("c27_noflag", "every text of up to 3 printable characters as a flag"),
        e("c27_cells", "5 node types x 4 datatypes x 7 constraints x 4 value shapes, against every value"),
        e("c27_spellings", "up to two of 8 node types, 5 datatypes, 9 constraints, 4 value shapes, quoted or not, against every value"),
        e("c27_kinds", "node types in any case, and every text of 3 letters"),
        e("c27_rows", "up to 3 rows of 5 kinds in 3 column orders"),
        e("c27_text", "cells of any 3 ASCII characters, quoted or not"),
        e("c27_any", "any 2 bytes in 5 frames"),
        e("c27_rows_x", "up to 4 rows", tiers=T),
        e("c27_any_x", "any 3 bytes in 5 frames", tiers=T),
    ]),
    "C31": dict(crate="shacl", assumptions=[NOFMT, "rayon is replaced by a stand-in that runs the tasks of a parallel map in every order, and in the c31_interrupt entries interrupts a task before any of its accesses to the shared cache to run tasks not yet started; dashmap by one in which (other entries) each task, for each outer key, sees or misses what other tasks of the map record",
                "an interrupted task resumes only once the tasks that interrupted it are done; interleavings inside one dashmap operation are not explored (its own locking is trusted)"],
                note="families of 2 to 5 shapes of one or several levels sharing sub-shapes, every graph over 1 or 2 nodes, every task order, every visibility of the other tasks' cache entries", entries=[
        e("c31_one", "three families of shapes, one node, all shapes with targets"),
        e("c31_level", "shapes of one level sharing sub-shapes, two nodes in the graph"),
        e("c31_race", "three families of shapes, two nodes, two shapes with targets"),
        e("c31_interrupt", "shapes of one level sharing sub-shapes, each task interruptible before every access to the shared cache by tasks not yet started"),
        e("c31_interrupt_x", "the same, larger families of shapes", tiers=T),
    ]),
}

NA = {
    "C29": "the converters are unfinished prototypes with no shared fragment on which they could be right: shacl2shex drops cardinalities and reaches todo!() on most components, and there is no shex2shacl; a check would only restate the missing features",
    "C30": "reading and writing RDF text is done by the external crates oxttl, oxrdfxml, oxjsonld and oxrdfio, which are not part of this code base; the repository's own part is a dispatch on the format name",
    "C32": "the service is an async server on tokio (I/O driver, timers, sockets and tokio's own locks): none of that can be executed symbolically by the engine here, and replacing the runtime would replace exactly the code whose interleavings matter",
}
