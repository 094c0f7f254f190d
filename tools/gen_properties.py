#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("C01", "Regular bag expressions accept exactly the bags they denote",
  "Matching a bag of symbols against a regular bag expression succeeds exactly when the bag belongs to the language of the expression (cardinality: between min and max copies; concatenation: a split of the bag; alternative: either branch; +, * and {m,n}: a split into that many parts). The answer does not depend on the order in which the symbols are supplied, and the structural answers about an expression (is the empty bag accepted, must a symbol occur) agree with it.",
  ["inputs"], "every expression of bounded shape with every cardinality, and every bag",
  "The tests check a few dozen expressions; cardinalities and multiplicities form an unbounded space and mistakes sit at boundary values and in nested repetitions.",
  ["rbe/src/rbe.rs", "rbe/src/cardinality.rs", "rbe/src/bag.rs", "rbe/src/deriv_n.rs"],
  [("Brzozowski derivative of the expression per symbol", "rbe/src/rbe.rs: Rbe::deriv, match_bag_deriv"), ("nullability and bound of cardinalities", "rbe/src/cardinality.rs")],
  ["Rbe::match_bag", "Rbe::match_iter_ordered"])
p("C02", "Interval-based bag matching agrees with the language definition",
  "The fast interval computation used for expressions in which every symbol occurs once returns the same verdict as the definition of the expression's language, for every bag. Whenever it is selected automatically, its answer is the one the general algorithm would give.",
  ["inputs"], "every single-occurrence expression of bounded shape with all cardinalities, and every bag of multiplicities",
  "Existing property tests sample a narrow set of cardinalities and never compare against the definition itself.",
  ["rbe/src/rbe_struct.rs", "rbe/src/interval.rs", "rbe/src/min.rs", "rbe/src/max.rs", "rbe/src/rbe.rs"],
  [("interval of repetitions, intersected/added over the tree", "rbe/src/rbe_struct.rs: interval"), ("div_up/div_down on bounds", "rbe/src/min.rs, rbe/src/max.rs")],
  ["RbeStruct::match_bag"])
p("C03", "Feasibility pruning never rejects a matchable neighbourhood",
  "For expressions in which every symbol occurs once, the quick test that discards a candidate before full matching may only answer 'impossible' when no bag between the given lower and upper multiplicities belongs to the expression's language.",
  ["inputs"], "all single-occurrence expressions of bounded shape and all lower/upper multiplicity vectors",
  "A wrong prune is a wrong validation verdict for specific combinations of cardinalities and counts which examples do not reach.",
  ["rbe/src/feasibility.rs", "rbe/src/rbe_table.rs", "rbe/src/interval.rs"],
  [("interval relaxation over lower/upper bags", "rbe/src/feasibility.rs")],
  ["Feasibility::feasible"])
p("C04", "Cardinality bounds obey integer-interval arithmetic",
  "A cardinality {m,n} (n possibly unbounded) contains exactly the counts m..n; consuming occurrences, adding bounds and dividing bounds agree with the arithmetic of those integer intervals. No operation overflows or crashes for bounds that fit the type.",
  ["inputs"], "all 64-bit minimum and maximum values",
  "Tests check a handful of small bounds; off-by-one and unbounded cases are rare inputs.",
  ["rbe/src/cardinality.rs", "rbe/src/min.rs", "rbe/src/max.rs", "rbe/src/interval.rs"],
  [("bounds arithmetic", "rbe/src/cardinality.rs, rbe/src/min.rs, rbe/src/max.rs, rbe/src/interval.rs")])
p("C05", "Triple-to-constraint assignment is sound and complete",
  "Given neighbours of a node (each of a predicate that some component mentions) and an expression whose components are constraints on predicate and value, the matching table finds a match exactly when some assignment of neighbours to components, each admissible by predicate and value condition, forms a bag in the expression's language. Every reported match uses only admissible assignments and covers every neighbour.",
  ["inputs"], "all small tables of components, conditions and neighbours",
  "The number of assignments is exponential and tests only exercise a few tables.",
  ["rbe/src/rbe_table.rs", "rbe/src/match_cond.rs", "rbe/src/rbe_struct.rs"],
  [("cartesian product of candidate components with feasibility pruning", "rbe/src/rbe_table.rs: matches")],
  ["RbeTable::matches"])
p("C06", "Datatype checks accept exactly the XSD lexical space",
  "A literal whose lexical form is not in the lexical or value space of its declared XSD datatype (booleans, the integer family with its ranges, decimal, double, float) is reported as ill-typed, and a literal whose form is legal (and representable) is accepted with that datatype.",
  ["inputs"], "all lexical forms up to a bounded length for each supported datatype",
  "Tests use a few literals per datatype; lexical mistakes concern rare strings such as signs, exponents, special values and range limits.",
  ["rudof_rdf/src/rdf_core/term/literal/literal.rs"],
  [("per-datatype parsers", "rudof_rdf/src/rdf_core/term/literal/literal.rs: parse_*, check_literal_datatype")],
  ["ConcreteLiteral::into_checked_literal", "ConcreteLiteral conversion from a store literal"])
p("C07", "Numeric comparisons follow the numeric value",
  "Comparing two numeric literals (less than, at most, ordering, equality) gives the order of the numbers they denote regardless of which numeric datatypes carry them (integers of any size, decimals, infinities; other floats and doubles compare with the precision of the decimal type they are converted to); the comparisons are mutually consistent, and a value that is not comparable (NaN) satisfies none of them.",
  ["inputs"], "all pairs and triples of values over every numeric datatype",
  "Only small hand-picked values are tested; failures sit at representation limits and mixed types.",
  ["rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs", "rudof_rdf/src/rdf_core/term/literal/literal.rs"],
  [("conversion to a common decimal type", "numeric_literal.rs: to_decimal, less_than, less_than_or_eq, partial_cmp")])
p("C08", "RDF term equality, hashing and ordering are coherent",
  "For terms and literals, equality is an equivalence relation, equal values hash equally, and the partial order is antisymmetric and transitive and never puts one of two equal values before the other.",
  ["inputs"], "all pairs/triples of bounded terms and literals",
  "Laws quantify over all pairs and triples of values; sampled values rarely expose a violation.",
  ["rudof_rdf/src/rdf_core/term/literal/literal.rs", "rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs", "rudof_rdf/src/rdf_core/term/literal/lang.rs"],
  [("hand-written PartialEq/Hash/PartialOrd", "rudof_rdf/src/rdf_core/term/literal")])
p("C09", "Converting terms to and from the RDF store loses nothing",
  "Converting a literal, IRI or blank node to the representation of the RDF store and back yields the same lexical form, datatype, language tag and kind of term.",
  ["inputs"], "all literals with lexical forms up to a bounded length, over the supported datatypes, and all integer values",
  "Round trips over all values cannot be sampled; tests use a few.",
  ["rudof_rdf/src/rdf_core/term/literal/literal.rs", "rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs", "rudof_rdf/src/rdf_impl/oxigraph"],
  [("TryFrom/From conversions with oxrdf", "literal.rs, numeric_literal.rs")])
p("C10", "Digit and length facets measure values as the standard defines",
  "totalDigits and fractionDigits count the digits of the number's canonical form (its integer part, at least one digit, and its fraction without trailing zeros), and minimum, maximum and exact length facets count Unicode characters of the lexical form (or IRI), each accepting exactly the values within the limit, inclusive.",
  ["inputs"], "all numeric values of each datatype, all short strings including multi-byte characters, all limits",
  "Tests use a few ASCII strings and small numbers.",
  ["rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs", "shex_ast/src/ast/cond_kind.rs", "shex_ast/src/ir/node_constraint.rs", "shacl/src/validator/constraints/core/string_based/min_length.rs", "shacl/src/validator/constraints/core/string_based/max_length.rs"],
  [("digit counting", "numeric_literal.rs: total_digits, fraction_digits"), ("length", "cond_kind.rs: check_node_length")])
p("C11", "Qualifying an IRI with prefixes is reversible and maximal",
  "If an IRI can be abbreviated with a prefix map, expanding the abbreviation with the same map gives the original IRI, the chosen prefix is a longest matching one, and an IRI that no namespace prefixes is left as a full IRI. The prefix map behaves as a finite map under any history of additions, removals and merges (the latest declaration of a prefix wins).",
  ["inputs", "histories"], "all small prefix maps, IRIs up to a bounded length and histories of updates",
  "Overlapping and nested namespaces, empty prefixes or local names and re-declarations are combinations the tests do not cover.",
  ["prefixmap/src/prefix_map.rs", "rudof_iri/src/iri/iris.rs"],
  [("longest prefix match", "prefix_map.rs: longest_prefix_match"), ("expansion", "prefix_map.rs: resolve_prefix_local; iris.rs: extend")])
p("C12", "IRI parsing and resolution are total and stable",
  "Parsing an IRI from any text returns a value or an error without crashing; the text of a parsed IRI is the input, an absolute IRI resolves to itself against any base, and textual forms in angle brackets are stripped of exactly the brackets.",
  ["inputs"], "all texts up to a bounded length",
  "Crash inputs are rare strings outside the tested samples.",
  ["rudof_iri/src/iri/iris.rs", "prefixmap/src/iri/iri_ref.rs"],
  [("IRI parse and resolve", "rudof_iri/src/iri/iris.rs")])
p("C13", "ShEx node constraints decide kind, datatype, facets and value sets",
  "A ShEx node constraint accepts a node exactly when the node has the required kind and datatype, satisfies every numeric and length facet, and (if there is a value set) matches some value, stem, language or range entry and none of that entry's exclusions, as the ShEx specification defines.",
  ["inputs"], "all short IRIs, literals, language tags and value-set entries with exclusions; all numeric bounds",
  "Value sets with exclusions and boundary values form a product space; tests have one or two nodes per kind.",
  ["shex_ast/src/ast/cond_kind.rs", "shex_ast/src/ir/value_set_value.rs", "shex_ast/src/ir/value_set.rs", "shex_ast/src/ir/object_value.rs", "shex_ast/src/ir/exclusion.rs"],
  [("value-set matching", "value_set_value.rs: match_value"), ("facets", "cond_kind.rs: check_node_*")])
p("C14", "ShEx shape validation follows the triple-expression semantics",
  "A node conforms to a ShEx shape exactly when its triples can be distributed over the triple constraints within their cardinalities; triples of mentioned predicates that match no constraint are allowed only if EXTRA lists their predicate, and triples of other predicates are allowed unless the shape is CLOSED.",
  ["inputs"], "all small graphs over a set of predicates and values, for a family of shapes with EXTRA, CLOSED, each-of, one-of and cardinalities",
  "Validation outcomes depend on combinations of arcs and cardinalities; the suite fixes a few graphs per feature.",
  ["shex_validation/src/engine.rs", "shex_ast/src/ir/shape.rs", "shex_ast/src/ir/ast2ir.rs", "rbe/src/rbe_table.rs"],
  [("neighbourhood matching", "shex_validation/src/engine.rs: check_node_shape")],
  ["Validator::validate_shapemap"])
p("C15", "ShEx AND, OR, NOT and references compose as logic",
  "The verdict for a node against AND, OR and NOT shape expressions, nested arbitrarily and through references, is the Boolean combination of the verdicts of the parts, regardless of the order of the operands and of what was validated earlier.",
  ["inputs", "histories"], "all small Boolean shape expressions over atomic node tests and all small graphs; all orders of validation requests",
  "Tests fix a few combinations; errors hide in specific nestings and in cached results.",
  ["shex_validation/src/engine.rs", "shex_ast/src/ir/ast2ir.rs"],
  [("shape expression evaluation", "shex_validation/src/engine.rs"), ("memoised recursive typing", "shex_validation/src/engine.rs: prove")])
p("C16", "Recursive ShEx schemas get the greatest consistent typing",
  "For recursive shapes without recursion through negation, a node conforms exactly when it belongs to the greatest typing in which every member satisfies its shape; the result does not depend on which node or shape is asked for first.",
  ["inputs", "histories"], "all graphs over a few nodes and recursive references, all query orders",
  "Cycles interact with memoisation only for particular graphs and request orders.",
  ["shex_validation/src/engine.rs"], [("hypotheses and memo table", "shex_validation/src/engine.rs: prove")])
p("C17", "Partitions of a neighbourhood are enumerated completely and once",
  "The enumeration used to split a neighbourhood among extended shapes yields every way to distribute the items among the classes that respects the item filters, and yields none twice; its pruned variant loses no split in which every class matches. So a node conforms to an (open) shape that extends others exactly when its triples of the mentioned predicates can be split among the expressions of the shape and of all it extends.",
  ["inputs"], "all item sets and class counts within the bound, all filter outcomes",
  "A lost partition is a wrong rejection only for particular shapes of data.",
  ["shex_validation/src/k_partitions.rs", "shex_validation/src/class_partitions.rs"], [("k-partition iterators", "shex_validation/src/k_partitions.rs"), ("pruned enumeration", "shex_validation/src/class_partitions.rs"), ("extended shapes", "shex_validation/src/engine.rs: check_node_shape_extends")])
p("C18", "ShEx compact syntax is read as it denotes and round-trips",
  "Reading a schema in ShEx compact syntax gives the schema the grammar assigns to the text (cardinalities, grouping, precedence, references, value sets, facets, escapes, prefixes and base), and printing a schema read from compact syntax and reading it again gives an equal schema.",
  ["inputs"], "all schemas of bounded shape with all cardinalities, facets and value sets, strings with any characters",
  "Escapes and unusual values are rare; the suite round-trips fixed files.",
  ["shex_ast/src/compact/shex_compact_printer.rs", "shex_ast/src/compact/shex_grammar.rs"], [("printer and parser", "shex_ast/src/compact")])
p("C19", "ShEx JSON round-trips",
  "Serialising a ShEx schema to ShExJ and reading it back gives an equal schema, including cardinality bounds, facets and value-set entries.",
  ["inputs"], "all values of each schema element within a bound",
  "Serialisers are hand written per element; unusual values are not sampled.",
  ["shex_ast/src/ast", "rbe/src/max.rs", "rbe/src/min.rs"], [("serde implementations", "shex_ast/src/ast")])
p("C20", "Text readers never crash",
  "Parsers of user text (ShEx compact syntax, shape maps, IRIs, labels, language tags, literals) return a value or an error for every input and never panic or loop, and neither does writing or compiling a schema so read.",
  ["inputs"], "every text up to a bounded length",
  "Crashing inputs are rare byte strings; tests only use well-formed and a few malformed files.",
  ["shex_ast/src/compact/shex_grammar.rs", "shex_ast/src/compact/shapemap_grammar.rs", "rudof_iri/src/iri/iris.rs", "rudof_rdf/src/rdf_core/term/literal/lang.rs"], [("nom parsers", "shex_ast/src/compact")])
p("C21", "SHACL property paths denote the standard relation",
  "The value nodes of a property path (predicate, inverse, sequence, alternative, zero-or-one, zero-or-more, one-or-more, nested) from a node are exactly the nodes related to it by the path's relation in the graph, including on cyclic graphs, and evaluation terminates.",
  ["inputs"], "all graphs over a few nodes and two predicates, all paths of bounded depth",
  "Cycles and nested operators combine; tests use fixed small graphs.",
  ["rudof_rdf/src/rdf_core/neighs_rdf.rs", "rudof_rdf/src/rdf_core/shacl_path.rs"], [("path evaluation", "neighs_rdf.rs: objects_for_shacl_path")])
p("C22", "SHACL constraint components report exactly the violations",
  "For each SHACL core constraint component, the native validator reports a result for a focus node exactly when the node's values break the component's definition (counts, node kind, datatype, ranges, lengths, languages, property pairs, closedness, membership, logical combinations, qualified counts).",
  ["inputs"], "all small sets of value nodes and all component parameters",
  "Boundary counts, incomparable values and combinations are not enumerated by the suite.",
  ["shacl/src/validator/constraints"], [("one validator per component", "shacl/src/validator/constraints/core")],
  ["GraphValidation::validate"])
p("C23", "SHACL conformance does not depend on evaluation order or caching",
  "A SHACL report conforms exactly when no shape's target breaks a constraint; the verdict for a node and shape is the same whether the shape is reached directly, by reference, or repeatedly.",
  ["inputs", "histories"], "all small graphs with shapes referenced several ways",
  "Caching errors need a specific sequence of references.",
  ["shacl/src/validator/engine/validate.rs", "shacl/src/validator/cache", "shacl/src/validator/report"], [("validation cache", "shacl/src/validator/cache")])
p("C24", "SHACL targets select exactly the specified focus nodes",
  "Node, class, subjects-of and objects-of targets select exactly the focus nodes the SHACL specification defines, including instances of transitive subclasses for class targets.",
  ["inputs"], "all small graphs of type, subclass and property triples",
  "Subclass chains and several targets combine in ways a few fixtures do not reach.",
  ["shacl/src/validator/engine", "shacl/src/validator/index/class.rs"], [("target resolution", "shacl/src/validator/engine/native.rs")])
p("C25", "The in-memory graph answers triple patterns exactly",
  "Every triple-pattern or neighbourhood query on the in-memory graph returns exactly the matching triples, after any history of insertions and removals, and removing prefixes or merging graphs does not lose triples.",
  ["inputs", "histories"], "all small graphs and patterns, all short histories of insertions and removals",
  "Histories and patterns form a product space.",
  ["rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs", "rudof_rdf/src/rdf_core/neighs_rdf.rs"], [("triple store wrapper", "in_memory.rs")])
p("C26", "Property-graph cardinalities and types follow their set semantics",
  "A property-graph cardinality contains exactly the counts in its range, the intersection of two cardinalities contains exactly the counts in both, and value types, record types, label and property specifications, node and edge types, whether built directly or read from schema text, accept exactly the values, records, labels, nodes and edges their definition allows (all keys and labels required by a closed type and no others, any further ones for an open type).",
  ["inputs"], "all counts and bounds, all small records and types",
  "Tests use a handful of graphs.",
  ["pgschema/src/card.rs", "pgschema/src/record_type.rs", "pgschema/src/value_type.rs", "pgschema/src/formal_base_type.rs", "pgschema/src/boolean_expr.rs"], [("type conformance", "pgschema/src")])
p("C27", "Tabular profiles translate to the shapes they describe",
  "Reading a DCTAP table gives each shape its statements (rows without a shape name continue the preceding shape) with their mandatory and repeatable flags, node types, datatypes, value constraint (picklist or pattern) and value shapes as written, and translating it to ShEx gives each statement a triple constraint whose cardinality is exactly the one the flags describe and which accepts exactly the values the statement describes. Any other table is reported as an error, never a crash.",
  ["inputs"], "all flag combinations, spellings up to a bounded length and value constraints",
  "Flag spellings and combinations are sampled only by fixtures.",
  ["dctap/src/tap_reader.rs", "dctap/src/tap_statement.rs", "shapes_converter/src/tap_to_shex/tap2shex.rs"], [("statement reader and translation", "dctap/src/tap_reader.rs, shapes_converter/src/tap_to_shex")])
p("C28", "Generated data respects the schema's cardinalities and facets",
  "Data generated for a schema gives each instance a number of values within the property's cardinality and values within the declared numeric and length facets, for every outcome of the random source.",
  ["inputs", "configurations"], "all cardinalities and facets within a bound and every random choice",
  "Random generation tests sample few seeds.",
  ["rudof_generate/src"], [("value and count generation", "rudof_generate/src")])
p("C29", "Converting between ShEx and SHACL preserves the verdict",
  "For the constructs both languages share, the converted schema accepts and rejects the same nodes as the original.",
  ["inputs"], "all small shapes in the shared fragment and all small graphs",
  "Equivalence quantifies over all graphs.",
  ["shapes_converter/src/shacl_to_shex", "shapes_converter/src/shex_to_sparql"], [("converters", "shapes_converter/src")])
p("C30", "RDF documents round-trip through every serialisation",
  "Serialising a graph to any supported RDF syntax and reading it back gives an isomorphic graph.",
  ["inputs"], "all small graphs with arbitrary literal content",
  "Escapes and datatypes are not sampled.",
  ["rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs"], [("serialisers", "in_memory.rs, oxrdfio")])
p("C31", "Concurrent SHACL validation equals sequential validation",
  "Validating shapes in parallel yields the same report as validating them one after another, under every schedule.",
  ["schedules"], "every interleaving of the worker threads",
  "Tests observe the schedules the machine happens to run.",
  ["shacl/src/validator/processor/mod.rs", "shacl/src/validator/cache/shared.rs"], [("rayon fork-join per dependency level", "processor/mod.rs")])
p("C32", "The MCP service isolates and orders concurrent sessions",
  "Requests of different MCP sessions never observe each other's data or schemas, and each request sees the effect of the earlier requests of its session.",
  ["schedules", "histories"], "every interleaving of requests of several sessions",
  "Tests run one request at a time.",
  ["rudof_mcp/src/service", "rudof_mcp/src/server"], [("session state behind async locks", "rudof_mcp/src/service/state.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
