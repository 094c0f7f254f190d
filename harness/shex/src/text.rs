//! C18: the compact syntax is read as the schema it denotes, and a schema read from it survives being
//! written and read again. The generators produce the text together with the schema the grammar of
//! ShEx 2.2 assigns to it; neither the parser nor the printer takes part in the expectation.
use crate::mk::{ns, r, sref, xsd};
use prefixmap::IriRef;
use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang, NumericLiteral};
use rust_decimal::Decimal;
use shex_ast::ast::iri_ref_or_wildcard::IriRefOrWildcard;
use shex_ast::ast::string_or_wildcard::StringOrWildcard;
use shex_ast::ast::{
    Annotation, BNode, IriOrStr, LangOrWildcard, NodeConstraint, NodeKind, ObjectValue, Schema, SemAct, Shape, ShapeDecl,
    ShapeExpr, ShapeExprLabel, TripleExpr, TripleExprLabel, ValueSetValue, XsFacet, iri_exclusion::IriExclusion,
    language_exclusion::LanguageExclusion, literal_exclusion::LiteralExclusion, xs_facet::StringFacet,
};
use shex_ast::compact::{ShExFormatter, ShExParser};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

const HEAD: &str = "PREFIX : <http://e/>\nPREFIX xsd: <http://www.w3.org/2001/XMLSchema#>\n";

fn read(src: &str) -> Option<Schema> {
    ShExParser::parse(src, None, &ns("schema")).ok()
}
fn write(s: &Schema) -> String {
    ShExFormatter::default().without_colors().format_schema(s)
}

/// The order and grouping of conjunctions of conjunctions and the two ways to say "exactly one" are not told apart.
fn norm_te(te: TripleExpr) -> TripleExpr {
    let card = |min: Option<i32>, max: Option<i32>| match (min, max) {
        (Some(1) | None, Some(1) | None) => (None, None),
        m => m,
    };
    match te {
        TripleExpr::EachOf { id, expressions, min, max, sem_acts, annotations } => {
            let (min, max) = card(min, max);
            let expressions = expressions.into_iter().map(|e| norm_te(e.te).into()).collect();
            TripleExpr::EachOf { id, expressions, min, max, sem_acts, annotations }
        },
        TripleExpr::OneOf { id, expressions, min, max, sem_acts, annotations } => {
            let (min, max) = card(min, max);
            let expressions = expressions.into_iter().map(|e| norm_te(e.te).into()).collect();
            TripleExpr::OneOf { id, expressions, min, max, sem_acts, annotations }
        },
        TripleExpr::TripleConstraint { id, negated, inverse, predicate, value_expr, min, max, sem_acts, annotations } => {
            let (min, max) = card(min, max);
            // `{ }` asks for nothing, as `.` does
            let value_expr = value_expr.map(|v| norm(*v)).filter(|v| *v != ShapeExpr::any()).map(Box::new);
            TripleExpr::TripleConstraint { id, negated, inverse, predicate, value_expr, min, max, sem_acts, annotations }
        },
        t => t,
    }
}
fn norm(se: ShapeExpr) -> ShapeExpr {
    match se {
        ShapeExpr::ShapeAnd { shape_exprs } => {
            let mut out = Vec::new();
            for s in shape_exprs {
                match norm(s.se) {
                    ShapeExpr::ShapeAnd { shape_exprs } => out.extend(shape_exprs),
                    s => out.push(s.into()),
                }
            }
            ShapeExpr::ShapeAnd { shape_exprs: out }
        },
        ShapeExpr::ShapeOr { shape_exprs } => {
            let mut out = Vec::new();
            for s in shape_exprs {
                match norm(s.se) {
                    ShapeExpr::ShapeOr { shape_exprs } => out.extend(shape_exprs),
                    s => out.push(s.into()),
                }
            }
            ShapeExpr::ShapeOr { shape_exprs: out }
        },
        ShapeExpr::ShapeNot { shape_expr } => ShapeExpr::ShapeNot { shape_expr: Box::new(norm(shape_expr.se).into()) },
        ShapeExpr::Shape(mut s) => {
            s.expression = s.expression.map(|t| norm_te(t.te).into());
            s.closed = s.closed.filter(|c| *c);
            ShapeExpr::Shape(s)
        },
        ShapeExpr::NodeConstraint(nc) => ShapeExpr::NodeConstraint(norm_nc(nc)),
        s => s,
    }
}
/// an empty list of facets is no list of facets
fn norm_nc(nc: NodeConstraint) -> NodeConstraint {
    let mut out = NodeConstraint::new();
    if let Some(k) = nc.node_kind() {
        out = out.with_node_kind(k);
    }
    if let Some(d) = nc.datatype() {
        out = out.with_datatype(d);
    }
    if let Some(v) = nc.values() {
        out = out.with_values(v);
    }
    let mut facets = nc.xs_facet().unwrap_or_default();
    if JSON.load(Relaxed) {
        // members of a JSON object have no order
        let place = |f: &XsFacet| match f {
            XsFacet::StringFacet(StringFacet::Pattern(_)) => 0,
            XsFacet::StringFacet(_) => 1,
            XsFacet::NumericFacet(_) => 2,
        };
        facets.sort_by_key(place);
    }
    for f in facets {
        out = out.add_facet(f);
    }
    out
}
type Decls = Vec<(ShapeExprLabel, bool, ShapeExpr)>;
fn decls(s: &Schema) -> Decls {
    let ds: Vec<ShapeDecl> = s.shapes().unwrap_or_default();
    ds.into_iter().map(|d| (d.id.clone(), d.is_abstract, norm(d.shape_expr))).collect()
}
/// the whole schema up to what `norm` forgets
fn same(a: &Schema, b: &Schema) -> bool {
    decls(a) == decls(b)
        && a.start().map(norm) == b.start().map(norm)
        && a.imports() == b.imports()
        && a.start_actions() == b.start_actions()
}
/// C19 instead of C18
static JSON: AtomicBool = AtomicBool::new(false);

/// numeric facets: integers of any digits, decimals and doubles of any of the lengths below
#[unsafe(no_mangle)]
pub extern "C" fn c19_numbers() {
    let (num, rounded) = match symrt::pick(c"form", 3) {
        0 => {
            let mut d = symrt::bytes(c"d", 1, |c| (c >= b'1') & (c <= b'9'));
            let rest: &[u8] = [&b""[..], b"0", b"34", b"94967297"][symrt::pick(c"rest", 4)];
            if !rest.is_empty() {
                d[0] = symrt::concrete(d[0] as u64) as u8;
            }
            d.extend(rest);
            if symrt::pick(c"sign", 2) == 1 {
                d.insert(0, b'-');
            }
            (String::from_utf8(d).unwrap(), false)
        },
        1 => {
            let whole = ["0", "7", "-12", "1234567"][symrt::pick(c"whole", 4)];
            let (frac, long) = [("5", false), ("05", false), ("10", false), ("12345678", false), ("12345678901234567", true)][symrt::pick(c"frac", 5)];
            (cat(&[whole, ".", frac]), long)
        },
        2 => match symrt::pick(c"big", 6) {
            0 => ("9223372036854775807".to_string(), false),
            1 => ("18446744073709551615".to_string(), false),
            2 => ("-9223372036854775808".to_string(), false),
            3 => ("1e3".to_string(), false),
            4 => ("-1.5E-3".to_string(), false),
            _ => ("123456789012345678901".to_string(), true),
        },
        _ => symrt::prune(),
    };
    let facet = ["MININCLUSIVE ", "MINEXCLUSIVE ", "MAXINCLUSIVE ", "MAXEXCLUSIVE "][symrt::pick(c"facet", 4)];
    let src = cat(&[HEAD, ":S LITERAL ", facet, &num, "\n"]);
    symrt::cover(c"read");
    let Some(s) = read(&src) else {
        symrt::check(false, c"text is read");
        return;
    };
    let t = serde_json::to_string(&s).ok().and_then(|t| serde_json::from_str::<Schema>(&t).ok());
    let ok = t.is_some_and(|t| same(&s, &t));
    symrt::check_kf(ok, c"the JSON written denotes the same number", c"C19-long-numbers", rounded);
}
/// writes the schema in ShExJ and reads it again
fn json(s: &Schema) {
    let Ok(text) = serde_json::to_string(s) else {
        symrt::check(false, c"a schema is written in JSON");
        return;
    };
    match serde_json::from_str::<Schema>(&text) {
        Err(_) => symrt::check(false, c"the JSON written can be read"),
        Ok(t) => {
            symrt::check(same(s, &t), c"the JSON written denotes the same schema");
            symrt::check(s.prefixmap() == t.prefixmap() && s.base() == t.base(), c"prefixes and base are kept");
        },
    }
}
/// reads `src`; the caller compares the schema with the one denoted; then the schema is written and read again
fn both(src: &str, denoted: impl FnOnce(&Schema) -> bool) {
    symrt::cover(c"read");
    let Some(s) = read(src) else {
        symrt::check(JSON.load(Relaxed), c"text is read");
        return;
    };
    if JSON.load(Relaxed) {
        return json(&s);
    }
    symrt::check(denoted(&s), c"the schema read is the one the text denotes");
    match read(&write(&s)) {
        None => symrt::check(false, c"what is written can be read"),
        Some(t) => symrt::check(same(&s, &t), c"what is written denotes the same schema"),
    }
}
fn label(l: &str) -> ShapeExprLabel {
    ShapeExprLabel::iri_ref(r(l))
}
fn cat(parts: &[&str]) -> String {
    parts.concat()
}
/// a schema with one declaration `:S …`
fn one(text: &str, se: ShapeExpr) {
    let se = norm(se);
    both(&cat(&[HEAD, ":S ", text, "\n"]), |s| {
        let d = decls(s);
        d.len() == 1 && d[0] == (label("S"), false, se)
    })
}
fn te(text: &str, te: TripleExpr) {
    one(&cat(&["{ ", text, " }"]), ShapeExpr::shape(Shape::new(None, None, Some(te))))
}
fn p(name: &str) -> TripleExpr {
    TripleExpr::triple_constraint(None, None, r(name), None, None, None)
}
fn card(t: TripleExpr, c: (Option<i32>, Option<i32>)) -> TripleExpr {
    t.with_min(c.0).with_max(c.1)
}
const CARDS: [(&str, Option<i32>, Option<i32>); 9] = [
    ("", None, None),
    ("?", Some(0), Some(1)),
    ("*", Some(0), Some(-1)),
    ("+", Some(1), Some(-1)),
    ("{2}", Some(2), Some(2)),
    ("{2,}", Some(2), Some(-1)),
    ("{2,*}", Some(2), Some(-1)),
    ("{1,3}", Some(1), Some(3)),
    ("{0, 0}", Some(0), Some(0)),
];
fn nk(k: NodeKind) -> ShapeExpr {
    ShapeExpr::node_constraint(NodeConstraint::new().with_node_kind(k))
}

/// cardinalities, inverse and negated constraints, with and without a value expression
fn g_cards() {
    let (ft, neg, inv) = [("", None, None), ("^", None, Some(true)), ("!", Some(true), None), ("!^", Some(true), Some(true))]
        [symrt::pick(c"sense", 4)];
    let (vt, v) = match symrt::pick(c"value", 4) {
        0 => (".", None),
        1 => ("IRI", Some(nk(NodeKind::Iri))),
        2 => ("@:T", Some(sref("T"))),
        _ => ("[ 1 ]", Some(values(vec![num("1", "integer")]))),
    };
    let (ct, min, max) = CARDS[symrt::pick(c"card", 9)];
    te(
        &cat(&[ft, ":p ", vt, " ", ct]),
        TripleExpr::triple_constraint(neg, inv, r("p"), v, min, max),
    )
}

/// every repetition count of up to three digits
fn g_counts() {
    let a = digits(c"a");
    let b = digits(c"b");
    let val = |d: &[u8]| d.iter().fold(0i32, |n, c| n * 10 + (*c - b'0') as i32);
    let (at, bt) = (std::str::from_utf8(&a).unwrap(), std::str::from_utf8(&b).unwrap());
    let (text, max) = match symrt::pick(c"form", 3) {
        0 => (cat(&["{", at, "}"]), val(&a)),
        1 => (cat(&["{", at, ",}"]), -1),
        _ => (cat(&["{", at, " , ", bt, "}"]), val(&b)),
    };
    let Some(s) = read(&cat(&[HEAD, ":S { :p . ", &text, " }"])) else {
        symrt::check(false, c"text is read");
        return;
    };
    symrt::cover(c"read");
    let found = match s.shapes().unwrap().pop().unwrap().shape_expr {
        ShapeExpr::Shape(sh) => match sh.expression.map(|e| e.te) {
            Some(TripleExpr::TripleConstraint { min, max, .. }) => Some((min, max)),
            _ => None,
        },
        _ => None,
    };
    let Some((Some(mn), Some(mx))) = found else {
        symrt::check(false, c"a repetition is read");
        return;
    };
    symrt::check((mn == val(&a)) & (mx == max), c"the counts read are the ones written");
}
fn digits(name: &std::ffi::CStr) -> Vec<u8> {
    let n = symrt::pick(c"len", 2) + 1;
    symrt::bytes(name, n, |c| (c >= b'0') & (c <= b'9'))
}

fn values(vs: Vec<ValueSetValue>) -> ShapeExpr {
    ShapeExpr::node_constraint(NodeConstraint::new().with_values(vs))
}
fn num(lex: &str, dt: &str) -> ValueSetValue {
    ValueSetValue::datatype_literal(lex, &xsd(dt))
}
fn group(te: TripleExpr) -> TripleExpr {
    TripleExpr::each_of(vec![te])
}

/// grouping: sequence, choice, brackets with cardinalities, labels and inclusion
fn g_groups() {
    let pick = |n| {
        let (t, min, max) = CARDS[[0, 1, 2, 4, 7][symrt::pick(n, 5)]];
        (t, (min, max))
    };
    let (ct, c) = pick(c"card");
    let (a, b, d) = (p("a"), p("b"), p("d"));
    let id = |l: &str| Some(TripleExprLabel::IriRef { value: r(l) });
    let incl = |l: &str| TripleExpr::Ref(TripleExprLabel::IriRef { value: r(l) });
    let each = TripleExpr::each_of;
    let or = TripleExpr::one_of;
    let (text, e) = match symrt::pick(c"form", 22) {
        0 => (cat(&[":a . ", ct, " ; :b ."]), each(vec![card(a, c), b])),
        1 => (cat(&[":a . ; :b . ", ct, " ;"]), each(vec![a, card(b, c)])),
        2 => (cat(&[":a . ", ct, " | :b ."]), or(vec![card(a, c), b])),
        3 => (cat(&["( :a . ; :b . ) ", ct]), card(each(vec![a, b]), c)),
        4 => (cat(&["( :a . | :b . ) ", ct]), card(or(vec![a, b]), c)),
        5 => (cat(&["( :a . ) ", ct]), card(a, c)),
        6 => (cat(&["( :a . ", ct, " )"]), card(a, c)),
        7 => {
            let (it, i) = pick(c"inner");
            let te_ = if it.is_empty() {
                card(a, c)
            } else if ct.is_empty() {
                card(a, i)
            } else {
                card(group(card(a, i)), c)
            };
            (cat(&["( :a . ", it, " ) ", ct]), te_)
        },
        8 => (cat(&["( :a . | :b . ) ", ct, " ; :d ."]), each(vec![card(or(vec![a, b]), c), d])),
        9 => (cat(&["( :a . ; :b . ) ", ct, " | :d ."]), or(vec![card(each(vec![a, b]), c), d])),
        10 => (cat(&[":a . ", ct, " ; :b . | :d ."]), or(vec![each(vec![card(a, c), b]), d])),
        11 => (cat(&[":a . | :b . ; :d . ", ct]), or(vec![a, each(vec![b, card(d, c)])])),
        12 => {
            let (it, i) = pick(c"inner");
            (cat(&["( :a . ; ( :b . | :d . ) ", it, " ) ", ct]), card(each(vec![a, card(or(vec![b, d]), i)]), c))
        },
        13 => (cat(&["$:l :a . ", ct]), card(a, c).with_id(id("l"))),
        14 => (cat(&["$:l ( :a . ; :b . ) ", ct]), card(each(vec![a, b]), c).with_id(id("l"))),
        15 => (cat(&["$:l ( :a . | :b . ) ", ct, " ; &:m"]), each(vec![card(or(vec![a, b]), c).with_id(id("l")), incl("m")])),
        16 => (cat(&["&:l ; :a . ", ct]), each(vec![incl("l"), card(a, c)])),
        17 => (cat(&["( &:l ) ", ct]), if ct.is_empty() { incl("l") } else { card(group(incl("l")), c) }),
        18 => (cat(&["( $:l :a . ) ", ct]), {
            let a = a.with_id(id("l"));
            if ct.is_empty() { a } else { card(group(a), c) }
        }),
        19 => (cat(&["$_:l :a . ", ct]), card(a, c).with_id(Some(TripleExprLabel::BNode { value: BNode::new("l") }))),
        20 => {
            let (it, i) = pick(c"inner");
            let g = card(or(vec![a, b]), i);
            let e = if it.is_empty() || ct.is_empty() { card(or(vec![p("a"), p("b")]), if it.is_empty() { c } else { i }) } else { card(group(g), c) };
            (cat(&["( ( :a . | :b . ) ", it, " ) ", ct]), e)
        },
        _ => (cat(&["( :a . ; ( :b . ; :d . ) ) ", ct]), card(each(vec![a, each(vec![b, d])]), c)),
    };
    te(&text, e)
}

/// AND, OR, NOT, brackets, references and node constraints, in a declaration and inside a triple constraint
fn g_logic() {
    let atom = |k: usize| match k {
        0 => ("IRI", nk(NodeKind::Iri)),
        1 => ("@:T", sref("T")),
        2 => ("{ :q . }", ShapeExpr::shape(Shape::new(None, None, Some(p("q"))))),
        3 => ("[ :v ]", values(vec![ValueSetValue::iri(r("v"))])),
        _ => ("xsd:string", ShapeExpr::node_constraint(NodeConstraint::new().with_datatype(xsd("string")))),
    };
    let (at, a) = atom(symrt::pick(c"a", 5));
    let form = symrt::pick(c"form", 14);
    let (bt, b) = atom(if [0, 1, 9, 12, 13].contains(&form) { 0 } else { symrt::pick(c"b", 2) + 1 });
    let (dt, d) = atom(3);
    let and = |v: Vec<ShapeExpr>| ShapeExpr::and(v);
    let or = |v: Vec<ShapeExpr>| ShapeExpr::or(v);
    let not = ShapeExpr::shape_not;
    let (text, e) = match form {
        0 => (cat(&[at]), a),
        1 => (cat(&["NOT ", at]), not(a)),
        2 => (cat(&[at, " AND ", bt]), and(vec![a, b])),
        3 => (cat(&[at, " or ", bt]), or(vec![a, b])),
        4 => (cat(&[at, " AND ", bt, " OR ", dt]), or(vec![and(vec![a, b]), d])),
        5 => (cat(&[at, " OR ", bt, " and ", dt]), or(vec![a, and(vec![b, d])])),
        6 => (cat(&["( ", at, " OR ", bt, " ) AND ", dt]), and(vec![or(vec![a, b]), d])),
        7 => (cat(&["not ( ", at, " AND ", bt, " )"]), not(and(vec![a, b]))),
        8 => (cat(&["NOT ", at, " AND NOT ", bt]), and(vec![not(a), not(b)])),
        9 => (cat(&["NOT ( NOT ", at, " )"]), not(not(a))),
        10 => (cat(&["( ", at, " AND ", bt, " ) AND ", dt]), and(vec![and(vec![a, b]), d])),
        11 => (cat(&["NOT ( ", at, " OR ", bt, " ) OR ", dt]), or(vec![not(or(vec![a, b])), d])),
        12 => (cat(&["IRI @:T AND ", at]), and(vec![nk(NodeKind::Iri), sref("T"), a])),
        _ => (cat(&["NOT IRI { :z . } OR ", at]), or(vec![
            not(and(vec![nk(NodeKind::Iri), ShapeExpr::shape(Shape::new(None, None, Some(p("z"))))])),
            a,
        ])),
    };
    if symrt::pick(c"inline", 2) == 1 {
        te(
            &cat(&[":p ( ", &text, " ) *"]),
            TripleExpr::triple_constraint(None, None, r("p"), Some(e), Some(0), Some(-1)),
        )
    } else {
        one(&text, e)
    }
}

/// the value `k` of a value set
fn value(k: usize) -> (&'static str, ValueSetValue) {
    use ValueSetValue as V;
    let s = |s: &str| V::string_literal(s, None);
    let lang = |s: &str| Lang::new(s).unwrap();
    let iris = |stem, exc| V::IriStemRange { stem, exclusions: Some(exc) };
    let lits = |stem, exc| V::LiteralStemRange { stem, exclusions: Some(exc) };
    let langs = |stem, exc| V::LanguageStemRange { stem, exclusions: Some(exc) };
    use IriExclusion as IE;
    use LanguageExclusion as GE;
    use LiteralExclusion as LE;
    match k {
        0 => (":v", V::iri(r("v"))),
        1 => ("<http://e/x#y>", V::iri(r("x#y"))),
        2 => (":v~", V::IriStem { stem: r("v") }),
        3 => (":v~ - :v1 - :v2~", iris(IriRefOrWildcard::IriRef(r("v")), vec![IE::Iri(r("v1")), IE::IriStem(r("v2"))])),
        4 => (". - <http://e/v1> - :v2~", iris(IriRefOrWildcard::Wildcard, vec![IE::Iri(r("v1")), IE::IriStem(r("v2"))])),
        5 => ("\"a b\"", s("a b")),
        6 => ("'a'@en", V::string_literal("a", Some(lang("en")))),
        7 => ("'1'^^xsd:date", num("1", "date")),
        8 => ("'x'^^<http://e/dt>", V::datatype_literal("x", &r("dt"))),
        9 => ("'a'~", V::literal_stem("a".to_string())),
        10 => ("'a'~ - 'ab' - 'ac'~", lits(StringOrWildcard::String("a".to_string()), vec![LE::Literal("ab".to_string()), LE::LiteralStem("ac".to_string())])),
        11 => (". - 'ab' - 'ac'~", lits(StringOrWildcard::Wildcard, vec![LE::Literal("ab".to_string()), LE::LiteralStem("ac".to_string())])),
        12 => ("@en", V::language(lang("en"))),
        13 => ("@en~", V::language_stem(lang("en"))),
        14 => ("@en~ - @en-us - @en-gb~", langs(LangOrWildcard::Lang(lang("en")), vec![GE::Language(lang("en-us")), GE::LanguageStem(lang("en-gb"))])),
        15 => ("@~ - @fr - @es~", langs(LangOrWildcard::Wildcard, vec![GE::Language(lang("fr")), GE::LanguageStem(lang("es"))])),
        16 => (". - @fr", langs(LangOrWildcard::Wildcard, vec![GE::Language(lang("fr"))])),
        17 => ("@~", V::LanguageStem { stem: LangOrWildcard::Wildcard }),
        18 => ("true", V::object_value(ObjectValue::bool(true))),
        19 => ("false", V::object_value(ObjectValue::bool(false))),
        20 => ("7", num("7", "integer")),
        21 => ("-07", num("-07", "integer")),
        22 => ("1.50", num("1.50", "decimal")),
        23 => ("+.5", num("+.5", "decimal")),
        24 => ("1.0e-3", num("1.0e-3", "double")),
        25 => ("xsd:integer", V::iri(xsd("integer"))),
        _ => ("'it\\'s \\\"\\\\\\n'", s("it's \"\\\n")),
    }
}
const NVALUES: u32 = 27;

/// value sets of one and two values of every kind
fn g_values() {
    let (at, a) = value(symrt::pick(c"a", NVALUES));
    let k = symrt::pick(c"more", 5);
    if k == 4 {
        return one(&cat(&["[ ", at, " ]"]), values(vec![a]));
    }
    let (bt, b) = value([0, 5, 12, 20][k]);
    one(&cat(&["[", at, " ", bt, "]"]), values(vec![a, b]))
}

/// node kinds, datatypes and value sets with facets
fn g_facets() {
    let mut n = symrt::bytes(c"n", 1, |c| (c >= b'0') & (c <= b'9'));
    if JSON.load(Relaxed) {
        // numbers with a fraction are written as doubles
        n[0] = symrt::concrete(n[0] as u64) as u8;
    }
    let (nt, nv) = (std::str::from_utf8(&n).unwrap(), (n[0] - b'0') as usize);
    let d = |units: i64, scale| NumericLiteral::Decimal(Decimal::new(units, scale));
    let (ft, f, numeric) = match symrt::pick(c"facet", 13) {
        0 => (cat(&["LENGTH ", nt]), XsFacet::length(nv), false),
        1 => (cat(&["minlength ", nt]), XsFacet::min_length(nv), false),
        2 => (cat(&["MaxLength ", nt]), XsFacet::max_length(nv), false),
        3 => ("/a.b/".to_string(), XsFacet::pattern("a.b"), false),
        4 => ("/a.b/i".to_string(), XsFacet::pattern_flags("a.b", "i"), false),
        5 => (cat(&["MININCLUSIVE ", nt]), XsFacet::min_inclusive(NumericLiteral::Integer(nv as i128)), true),
        6 => (cat(&["MINEXCLUSIVE -", nt]), XsFacet::min_exclusive(NumericLiteral::Integer(-(nv as i128))), true),
        7 => (cat(&["maxinclusive 1.0", nt]), XsFacet::max_inclusive(d(100 + nv as i64, 2)), true),
        8 => (cat(&["MAXEXCLUSIVE -.", nt]), XsFacet::max_exclusive(d(-(nv as i64), 1)), true),
        9 => (cat(&["TOTALDIGITS ", nt]), XsFacet::totaldigits(nv), true),
        10 => (cat(&["FractionDigits ", nt]), XsFacet::fractiondigits(nv), true),
        11 => (cat(&["MINLENGTH ", nt, " /x\\/\\./"]), XsFacet::pattern("x/\\."), false),
        _ => (String::new(), XsFacet::length(0), false),
    };
    let base = NodeConstraint::new;
    let (kt, k) = match symrt::pick(c"kind", 8) {
        0 => ("IRI", base().with_node_kind(NodeKind::Iri)),
        1 => ("bnode", base().with_node_kind(NodeKind::BNode)),
        2 => ("NonLiteral", base().with_node_kind(NodeKind::NonLiteral)),
        3 => ("LITERAL", base().with_node_kind(NodeKind::Literal)),
        4 => ("xsd:decimal", base().with_datatype(xsd("decimal"))),
        5 => ("<http://e/dt>", base().with_datatype(r("dt"))),
        6 => ("[ 1 ]", base().with_values(vec![num("1", "integer")])),
        _ => ("", base()),
    };
    // numeric facets go with literals only
    if (numeric && ["IRI", "bnode", "NonLiteral"].contains(&kt)) || (kt.is_empty() && ft.is_empty()) {
        symrt::prune();
    }
    let mut nc = k;
    if ft.starts_with("MINLENGTH") {
        nc = nc.add_facet(XsFacet::min_length(nv));
    }
    if !ft.is_empty() {
        nc = nc.add_facet(f);
    }
    one(&cat(&[kt, " ", &ft]), ShapeExpr::node_constraint(nc))
}

/// closed and extended shapes, extra predicates, annotations, semantic actions
fn g_shapes() {
    let has = |n| symrt::pick(n, 2) == 1;
    let mut text = Vec::new();
    let mut s = Shape::new(None, None, None);
    let order = symrt::pick(c"order", 2);
    let (cl, ex) = (has(c"closed"), symrt::pick(c"extends", 4));
    let mut extra = Vec::new();
    let mut quals = Vec::new();
    if cl {
        quals.push("CLOSED");
        s.closed = Some(true);
    }
    match symrt::pick(c"extra", 3) {
        0 => {},
        1 => {
            quals.push("EXTRA :x");
            extra = vec![r("x")];
        },
        _ => {
            quals.push("extra :x a");
            extra = vec![r("x"), IriRef::iri(rudof_iri::IriS::new_unchecked("http://www.w3.org/1999/02/22-rdf-syntax-ns#type"))];
        },
    }
    match ex {
        0 => {},
        1 => {
            quals.push("EXTENDS @:T");
            s.extends = Some(vec![label("T")]);
        },
        2 => {
            quals.push("& @:T");
            s.extends = Some(vec![label("T")]);
        },
        _ => {
            quals.push("extends @:T EXTENDS @<http://e/U>");
            s.extends = Some(vec![label("T"), label("U")]);
        },
    }
    if !extra.is_empty() {
        s.extra = Some(extra);
    }
    if order == 1 {
        quals.reverse();
    }
    for q in quals {
        text.push(q);
        text.push(" ");
    }
    text.push("{");
    if has(c"body") {
        text.push(":p .");
        s.expression = Some(p("p").into());
    }
    text.push("}");
    let inline = has(c"inline");
    let se = ShapeExpr::shape(s);
    if inline {
        let text = cat(&text);
        te(
            &cat(&[":q ", &text, " *"]),
            TripleExpr::triple_constraint(None, None, r("q"), Some(se), Some(0), Some(-1)),
        )
    } else {
        one(&cat(&text), se)
    }
}

/// annotations and semantic actions on constraints, groups and shapes
fn g_notes() {
    let notes = |k: usize| -> (&str, Option<Vec<Annotation>>, Option<Vec<SemAct>>) {
        let lit = |s: &str| ObjectValue::Literal(ConcreteLiteral::str(s));
        let ann = |o| Annotation::new(r("n"), o);
        let act = |c: Option<&str>| SemAct::new(r("act"), c.map(str::to_string));
        match k {
            0 => ("", None, None),
            1 => ("// :n :v", Some(vec![ann(ObjectValue::iri_ref(r("v")))]), None),
            2 => ("// :n 'a' // :n \"b\"@en", Some(vec![
                ann(lit("a")),
                ann(ObjectValue::Literal(ConcreteLiteral::lang_str("b", Lang::new("en").unwrap()))),
            ]), None),
            3 => ("%:act{ x = 1; %}", None, Some(vec![act(Some(" x = 1; "))])),
            4 => ("%:act% %:act{a \\% b%}", None, Some(vec![act(None), act(Some("a % b"))])),
            _ => ("// :n 'a' %:act%", Some(vec![ann(lit("a"))]), Some(vec![act(None)])),
        }
    };
    let k = symrt::pick(c"notes", 5) + 1;
    let (nt, ann, acts) = notes(k);
    let on = |t: TripleExpr| t.with_annotations(ann.clone()).with_sem_acts(acts.clone());
    let or = || TripleExpr::one_of(vec![p("a"), p("b")]);
    match symrt::pick(c"where", 9) {
        0 => te(&cat(&[":p . ", nt]), on(p("p"))),
        1 => te(&cat(&[":p . * ", nt, " ; :q ."]), TripleExpr::each_of(vec![on(card(p("p"), (Some(0), Some(-1)))), p("q")])),
        2 => te(&cat(&["( :a . | :b . ) ", nt]), on(or())),
        3 => te(&cat(&["( :a . | :b . )? ", nt, " ; :q ."]), TripleExpr::each_of(vec![on(card(or(), (Some(0), Some(1)))), p("q")])),
        4 => te(&cat(&["( :p . ", nt, " )"]), on(p("p"))),
        5 => te(&cat(&["( :p . ", nt, " )+"]), card(group(on(p("p"))), (Some(1), Some(-1)))),
        6 => te(&cat(&[":p { :q . } ", nt]), {
            let v = ShapeExpr::shape(Shape::new(None, None, Some(p("q"))));
            on(TripleExpr::triple_constraint(None, None, r("p"), Some(v), None, None))
        }),
        7 => one(&cat(&["{ :p . } ", nt]), ShapeExpr::shape(Shape::new(None, None, Some(p("p"))).with_annotations(ann).with_sem_acts(acts))),
        _ => one(
            &cat(&["IRI AND CLOSED { } ", nt]),
            ShapeExpr::and(vec![
                nk(NodeKind::Iri),
                ShapeExpr::shape(Shape::new(Some(true), None, None).with_annotations(ann).with_sem_acts(acts)),
            ]),
        ),
    }
}

/// directives, comments, start, abstract and external shapes
fn g_top() {
    let any = || ShapeExpr::shape(Shape::new(None, None, None));
    let start = match symrt::pick(c"start", 4) {
        0 => ("", None),
        1 => ("start = @:S\n", Some(sref("S"))),
        2 => ("START=IRI AND @:T\n", Some(ShapeExpr::and(vec![nk(NodeKind::Iri), sref("T")]))),
        _ => ("start = { :p . } # the start\n", Some(ShapeExpr::shape(Shape::new(None, None, Some(p("p")))))),
    };
    let (dt, ds): (&str, Decls) = match symrt::pick(c"decls", 7) {
        0 => ("", vec![]),
        1 => (":S { }", vec![(label("S"), false, any())]),
        2 => ("abstract :S { } :T .", vec![(label("S"), true, any()), (label("T"), false, ShapeExpr::any())]),
        3 => ("<http://e/S> EXTERNAL\n:T IRI", vec![(label("S"), false, ShapeExpr::external()), (label("T"), false, nk(NodeKind::Iri))]),
        4 => ("<S> { }\n<T> @<S>", vec![(label("b/S"), false, any()), (label("T2"), false, any())]),
        5 => ("_:S { } # { \n /* :X {} */ :T @_:S", vec![
            (ShapeExprLabel::bnode(BNode::new("S")), false, any()),
            (label("T"), false, ShapeExpr::shape_ref(ShapeExprLabel::bnode(BNode::new("S")))),
        ]),
        _ => ("ABSTRACT :a.b-c { } :d\\-e @:a.b-c", vec![(label("a.b-c"), true, any()), (label("d-e"), false, sref("a.b-c"))]),
    };
    let relative = dt.starts_with("<S>");
    let ds = if relative {
        vec![(label("b/S"), false, any()), (label("b/T"), false, sref("b/S"))]
    } else {
        ds
    };
    let (it, imports): (&str, Option<Vec<IriOrStr>>) = match symrt::pick(c"import", 3) {
        0 => ("", None),
        1 => ("IMPORT <http://e/i>\n", Some(vec![IriOrStr::IriRef(r("i"))])),
        _ => ("import <http://e/i>\nimport :j\n", Some(vec![IriOrStr::IriRef(r("i")), IriOrStr::IriRef(r("j"))])),
    };
    let (act, acts) = match symrt::pick(c"acts", 2) {
        0 => ("", None),
        _ => ("%:act{ x %}\n", Some(vec![SemAct::new(r("act"), Some(" x ".to_string()))])),
    };
    let base = if relative { "BASE <http://e/b/>\n" } else { "" };
    let both_ = [base, HEAD, it, act, start.0, dt, "\n"];
    let expected = ds.into_iter().map(|(l, a, s)| (l, a, norm(s))).collect::<Vec<_>>();
    both(&cat(&both_), |s| {
        decls(s) == expected
            && s.start().map(norm) == start.1.map(norm)
            && s.imports().unwrap_or_default() == imports.unwrap_or_default()
            && s.start_actions() == acts
    })
}

/// strings of any two printable characters in the four quote styles, plain or escaped
fn g_strings() {
    let long = symrt::pick(c"long", 2) == 1;
    let quote = [b'"', b'\''][symrt::pick(c"quote", 2)];
    let mut text = vec![quote; if long { 3 } else { 1 }];
    let close = text.clone();
    let mut value = Vec::new();
    for (n, ways) in [(c"x", 3), (c"y", 2)] {
        match symrt::pick(n, ways) {
            0 => {
                let c = symrt::bytes(n, 1, |c| (c >= b' ') & (c < 127))[0];
                symrt::assume((c != b'\\') & (c != quote));
                text.push(c);
                value.push(c);
            },
            1 => {
                let (e, c) = [(b't', 9), (b'n', 10), (b'r', 13), (b'"', b'"'), (b'\'', b'\''), (b'\\', b'\\')][symrt::pick(c"esc", 6)];
                text.extend([b'\\', e]);
                value.push(c);
            },
            _ => {
                let hi = [b'2', b'6'][symrt::pick(n, 2)];
                let lo = symrt::bytes(n, 1, |c| (c >= b'0') & (c <= b'9'))[0];
                text.extend([b'\\', b'u', b'0', b'0', hi, lo]);
                value.push((hi - b'0') * 16 + (lo - b'0'));
            },
        }
    }
    text.extend(close);
    let text = String::from_utf8(text).unwrap();
    let value = String::from_utf8(value).unwrap();
    if long {
        one(&cat(&["[ ", &text, " ]"]), values(vec![ValueSetValue::string_literal(&value, None)]))
    } else {
        let a = Annotation::new(r("n"), ObjectValue::Literal(ConcreteLiteral::str(&value)));
        te(&cat(&[":p . // :n ", &text]), p("p").with_annotations(Some(vec![a])))
    }
}

/// IRIs with any character in angle brackets or in the local part of a prefixed name
fn g_iris() {
    let safe = |c: u8| {
        let alpha = ((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | ((c >= b'0') & (c <= b'9'));
        alpha | (c == b'_') | (c == b'-')
    };
    let (text, value) = match symrt::pick(c"form", 4) {
        0 => {
            // an IRI: whatever may stand unescaped between angle brackets and in an IRI
            let b = symrt::bytes(c"b", 2, |c| {
                safe(c) | (c == b'.') | (c == b'~') | (c == b'!') | (c == b'$') | (c == b'\'') | (c == b'(') | (c == b')')
                    | (c == b'*') | (c == b'+') | (c == b',') | (c == b';') | (c == b'=') | (c == b':') | (c == b'@') | (c == b'/')
            });
            let s = String::from_utf8(b).unwrap();
            (cat(&["<http://e/k", &s, ">"]), cat(&["k", &s]))
        },
        1 => {
            let b = symrt::bytes(c"b", 2, |c| safe(c) | (c == b':'));
            let s = String::from_utf8(b).unwrap();
            (cat(&[":k", &s]), cat(&["k", &s]))
        },
        2 => {
            let e = b"_~.-!$&'()*+,;=/?#@"[symrt::pick(c"esc", 19)];
            let c = symrt::bytes(c"c", 1, safe)[0];
            let s = String::from_utf8(vec![b'\\', e, c]).unwrap();
            (cat(&[":k", &s]), cat(&["k", &s[1..]]))
        },
        _ => {
            let c = symrt::bytes(c"c", 1, safe)[0];
            let s = String::from_utf8(vec![b'.', c]).unwrap();
            (cat(&[":k", &s]), cat(&["k", &s]))
        },
    };
    match symrt::pick(c"where", 3) {
        0 => one(&cat(&["{ ", &text, " . }"]), ShapeExpr::shape(Shape::new(None, None, Some(p(&value))))),
        1 => one(&cat(&["[ ", &text, "~ ]"]), values(vec![ValueSetValue::IriStem { stem: r(&value) }])),
        _ => one(&cat(&["@", &text]), sref(&value)),
    }
}

/// patterns of any two characters, with escaped slashes, and every flag
fn g_patterns() {
    let mut text = vec![b'/'];
    let mut value = Vec::new();
    for n in [c"x", c"y"] {
        match symrt::pick(n, 3) {
            0 => {
                let c = symrt::bytes(n, 1, |c| (c >= b' ') & (c < 127))[0];
                symrt::assume((c != b'\\') & (c != b'/'));
                // `/*` starts a comment
                symrt::assume((c != b'*') | (text.len() > 1));
                text.push(c);
                value.push(c);
            },
            1 => {
                // escapes of the regular expression language stay in the pattern
                let e = b".\\^$|?*+-()[]{}nrt"[symrt::pick(c"esc", 18)];
                text.extend([b'\\', e]);
                value.extend([b'\\', e]);
            },
            _ => {
                text.extend(*b"\\/");
                value.push(b'/');
            },
        }
    }
    // `//` starts an annotation
    text.push(b'/');
    let flags = ["", "i", "smx"][symrt::pick(c"flags", 3)];
    text.extend(flags.as_bytes());
    let text = String::from_utf8(text).unwrap();
    let value = String::from_utf8(value).unwrap();
    let nc = NodeConstraint::new().with_node_kind(NodeKind::Literal);
    let nc = if flags.is_empty() { nc.with_pattern(&value) } else { nc.with_pattern_flags(&value, flags) };
    one(&cat(&["LITERAL ", &text]), ShapeExpr::node_constraint(nc))
}

/// each generator serves C18 (compact syntax) and C19 (JSON)
macro_rules! entries {
    ($($c18:ident $c19:ident $body:ident)*) => { $(
        #[unsafe(no_mangle)]
        pub extern "C" fn $c18() {
            $body()
        }
        #[unsafe(no_mangle)]
        pub extern "C" fn $c19() {
            JSON.store(true, Relaxed);
            $body()
        }
    )* };
}
entries! {
    c18_cards c19_cards g_cards
    c18_groups c19_groups g_groups
    c18_logic c19_logic g_logic
    c18_values c19_values g_values
    c18_facets c19_facets g_facets
    c18_shapes c19_shapes g_shapes
    c18_notes c19_notes g_notes
    c18_top c19_top g_top
    c18_strings c19_strings g_strings
    c18_iris c19_iris g_iris
    c18_patterns c19_patterns g_patterns
}
#[unsafe(no_mangle)]
pub extern "C" fn c18_counts() {
    g_counts()
}
