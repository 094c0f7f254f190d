//! C13: node constraints, evaluated on the focus node and through a triple constraint.
use crate::mk::*;
use mockrdf::G;
use rudof_rdf::rdf_core::term::Object;
use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang, NumericLiteral};
use shex_ast::ast::iri_exclusion::IriExclusion;
use shex_ast::ast::language_exclusion::LanguageExclusion;
use shex_ast::ast::literal_exclusion::LiteralExclusion;
use shex_ast::ast::{IriRefOrWildcard, LangOrWildcard, ObjectValue, ShapeExpr, StringOrWildcard, ValueSetValue};
use shex_ast::{NodeConstraint, NodeKind};

/// the verdict for a node, on the focus node or as value of a triple constraint
fn decide(nc: NodeConstraint, n: Object, want: bool) {
    let se = ShapeExpr::node_constraint(nc);
    let v = match symrt::pick(c"position", 2) {
        0 => verdict(schema(vec![("S", se)]), &G::default(), n, "S"),
        _ => {
            let mut g = G::default();
            g.add(&ns("x"), &ns("p"), n);
            verdict(schema(vec![("S", shape(false, &[], Some(tc("p", Some(se), 1, 1))))]), &g, iri("x"), "S")
        }
    };
    match v {
        Some(v) => symrt::check(v == want, c"verdict"),
        None => symrt::check(false, c"no-verdict"),
    }
    symrt::observe(v.is_some_and(|x| x) as u64);
}
pub const TAGS: [&str; 5] = ["en", "EN-us", "fr", "en-GB", "fr-be-x"];
fn lower(s: &str) -> String {
    s.to_ascii_lowercase()
}
/// what the oracle knows about a node
enum N {
    Iri(String),
    B,
    Lit { lex: String, dt: &'static str, tag: Option<String> },
}
fn text(name: &core::ffi::CStr, n: usize) -> String {
    let l = symrt::pick(name, n as u32 + 1);
    symrt::over(name, l, b"ab")
}
fn typed(lex: &str, dt: &str) -> Object {
    Object::Literal(ConcreteLiteral::DatatypeLiteral { lexical_form: lex.to_string(), datatype: xsd(dt) })
}
fn lang_lit(lex: &str, tag: &str) -> Object {
    Object::Literal(ConcreteLiteral::StringLiteral { lexical_form: lex.to_string(), lang: Lang::new(tag).ok() })
}
fn node(n: usize) -> (Object, N) {
    match symrt::pick(c"node", 6) {
        0 => {
            let s = ["http://e/", &text(c"iri", n)].concat();
            (Object::Iri(rudof_iri::IriS::new_unchecked(&s)), N::Iri(s))
        }
        1 => (Object::BlankNode(String::from("b")), N::B),
        2 => {
            let s = text(c"str", n);
            (Object::Literal(ConcreteLiteral::str(&s)), N::Lit { lex: s, dt: "string", tag: None })
        }
        3 => {
            let s = text(c"str", n.min(1));
            let t = TAGS[symrt::pick(c"tag", TAGS.len() as u32)];
            (lang_lit(&s, t), N::Lit { lex: s, dt: "langString", tag: Some(lower(t)) })
        }
        4 => {
            let s = text(c"str", n.min(1));
            (typed(&s, "anyURI"), N::Lit { lex: s, dt: "anyURI", tag: None })
        }
        _ => {
            let d = symrt::over(c"digit", 1, b"01234");
            (typed(&d, "integer"), N::Lit { lex: d, dt: "integer", tag: None })
        }
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn c13_kind() {
    let (n, m) = node(1);
    let (i, b, l) = match m {
        N::Iri(_) => (true, false, false),
        N::B => (false, true, false),
        N::Lit { .. } => (false, false, true),
    };
    let (k, want) = match symrt::pick(c"kind", 4) {
        0 => (NodeKind::Iri, i),
        1 => (NodeKind::BNode, b),
        2 => (NodeKind::Literal, l),
        _ => (NodeKind::NonLiteral, i | b),
    };
    decide(NodeConstraint::new().with_node_kind(k), n, want)
}
const DTS: [&str; 5] = ["integer", "string", "boolean", "byte", "anyURI"];
/// declared datatype and lexical validity of the literal
#[unsafe(no_mangle)]
pub extern "C" fn c13_datatype() {
    let want_dt = DTS[symrt::pick(c"datatype", 5)];
    let nc = NodeConstraint::new().with_datatype(xsd(want_dt));
    let dt = symrt::pick(c"declared", 7);
    let s = if dt == 4 || dt == 5 { text(c"lex", 1) } else { lex3() };
    let b = s.as_bytes();
    let dig = |x: u8| (x >= b'0') & (x <= b'9');
    let num = match b.len() {
        1 => dig(b[0]),
        2 => (dig(b[0]) | (b[0] == b'-')) & dig(b[1]),
        3 => (dig(b[0]) | (b[0] == b'-')) & dig(b[1]) & dig(b[2]),
        _ => false,
    };
    let v = b.iter().fold(0i32, |a, x| a * 10 + x.wrapping_sub(b'0') as i32);
    let byte = num & ((b.len() < 3) || (b[0] == b'-') || (v <= 127));
    let boolean = (s == "0") | (s == "1");
    let (n, ok, d) = match dt {
        0 => (typed(&s, "integer"), num, "integer"),
        1 => (typed(&s, "byte"), byte, "byte"),
        2 => (typed(&s, "boolean"), boolean, "boolean"),
        3 => (Object::Literal(ConcreteLiteral::str(&s)), true, "string"),
        4 => (typed(&s, "anyURI"), true, "anyURI"),
        5 => (lang_lit(&s, "en"), true, "langString"),
        _ => (iri("x"), false, "-"),
    };
    decide(nc, n, ok & (d == want_dt))
}
fn lex3() -> String {
    let l = symrt::pick(c"lex_len", 4);
    symrt::over(c"lex", l, b"0129-a")
}
fn num(repr: usize, n: i128, name: &core::ffi::CStr) -> NumericLiteral {
    let _ = name;
    match repr {
        0 => NumericLiteral::Integer(n),
        1 => NumericLiteral::Long(n as i64),
        _ => NumericLiteral::Decimal(rust_decimal::Decimal::new(n as i64, 1)),
    }
}
fn range(bits: u32) {
    let cut = |x: u64| if bits == 64 { x as i64 as i128 } else { x as i128 - 0x40 };
    let u64 = |n| if bits == 64 { symrt::u64(n) } else { (symrt::u8(n) & 0x7f) as u64 };
    let b = cut(u64(c"bound"));
    let v = cut(u64(c"value"));
    // the bound and the value as integers, or as tenths
    let rb = symrt::pick(c"bound_repr", if bits == 64 { 2 } else { 3 });
    let rv = symrt::pick(c"value_repr", if bits == 64 { 2 } else { 3 });
    let bound = num(rb, b, c"bound");
    let value = num(rv, v, c"value");
    let (x, y) = if bits == 64 { (v, b) } else { (if rv == 2 { v } else { v * 10 }, if rb == 2 { b } else { b * 10 }) };
    let nc = NodeConstraint::new();
    let (nc, want) = match symrt::pick(c"facet", 4) {
        0 => (nc.with_min_inclusive(bound), x >= y),
        1 => (nc.with_min_exclusive(bound), x > y),
        2 => (nc.with_max_inclusive(bound), x <= y),
        _ => (nc.with_max_exclusive(bound), x < y),
    };
    decide(nc, Object::Literal(ConcreteLiteral::NumericLiteral(value)), want)
}
#[unsafe(no_mangle)]
pub extern "C" fn c13_range() {
    symrt::no_fmt(true);
    range(7)
}
#[unsafe(no_mangle)]
pub extern "C" fn c13_range_wide() {
    symrt::no_fmt(true);
    range(64)
}
/// nodes as read from documents: text and declared datatype; anything that is not a valid number fails
#[unsafe(no_mangle)]
pub extern "C" fn c13_range_text() {
    symrt::no_fmt(true);
    let b = (symrt::u64(c"bound") & 0x3ff) as i128 - 0x200;
    let nc = NodeConstraint::new();
    let f = symrt::pick(c"facet", 4);
    let bound = NumericLiteral::Integer(b);
    let nc = match f {
        0 => nc.with_min_inclusive(bound),
        1 => nc.with_min_exclusive(bound),
        2 => nc.with_max_inclusive(bound),
        _ => nc.with_max_exclusive(bound),
    };
    let rel = |v: i128| match f {
        0 => v >= b,
        1 => v > b,
        2 => v <= b,
        _ => v < b,
    };
    let (n, want) = match symrt::pick(c"node", 5) {
        0 => (iri("1"), false),
        1 => (Object::BlankNode(String::from("b")), false),
        2 => (Object::Literal(ConcreteLiteral::str("1")), false),
        3 => (typed("x", "integer"), false),
        _ => {
            let l = symrt::pick(c"digits", 3) + 1;
            let neg = symrt::pick(c"negative", 2) == 1;
            let d = symrt::over(c"d", l, b"0123456789");
            let v = d.bytes().fold(0i128, |a, x| a * 10 + (x - b'0') as i128);
            let s = if neg { ["-", &d].concat() } else { d };
            let dt = ["integer", "long", "decimal", "short"][symrt::pick(c"datatype", 4)];
            (typed(&s, dt), rel(if neg { -v } else { v }))
        }
    };
    decide(nc, n, want)
}
/// length facets count the characters of the IRI or of the lexical form
#[unsafe(no_mangle)]
pub extern "C" fn c13_length() {
    symrt::no_fmt(true);
    let k = symrt::u64(c"length") as usize;
    let (n, m) = node(3);
    let l = match &m {
        N::Iri(s) => s.len(),
        N::B => return,
        N::Lit { lex, .. } => lex.len(),
    };
    let nc = NodeConstraint::new();
    let (nc, want) = match symrt::pick(c"facet", 3) {
        0 => (nc.with_length(k), l == k),
        1 => (nc.with_minlength(k), l >= k),
        _ => (nc.with_maxlength(k), l <= k),
    };
    decide(nc, n, want)
}
#[unsafe(no_mangle)]
pub extern "C" fn c13_digits() {
    let k = symrt::u64(c"digits") as usize;
    let m = (symrt::u16(c"m") & 0x1ff) as i128;
    let s = symrt::pick(c"scale", 3) as u32;
    let frac = symrt::bool(c"fraction");
    let nc = NodeConstraint::new();
    // canonical decimal: no trailing zeros in the fraction
    let (mut cm, mut cs) = (m, s as usize);
    while cs > 0 && cm % 10 == 0 {
        cm /= 10;
        cs -= 1;
    }
    let mut total = 1;
    let mut t = cm / 10;
    while t > 0 {
        total += 1;
        t /= 10;
    }
    let value = if s == 0 {
        NumericLiteral::Integer(m)
    } else {
        NumericLiteral::Decimal(rust_decimal::Decimal::from_i128_with_scale(m, s))
    };
    let (nc, want) = if frac { (nc.with_fractiondigits(k), cs <= k) } else { (nc.with_totaldigits(k), total.max(cs) <= k) };
    decide(nc, Object::Literal(ConcreteLiteral::NumericLiteral(value)), want)
}

fn lw(t: Option<&str>) -> LangOrWildcard {
    match t {
        Some(t) => LangOrWildcard::Lang(Lang::new(t).unwrap()),
        None => LangOrWildcard::Wildcard,
    }
}
fn under(tag: &str, stem: &str) -> bool {
    let (t, s) = (lower(tag), lower(stem));
    t == s || t.starts_with(&[&s, "-"].concat())
}
fn has(s: &str, p: &str) -> bool {
    if p.len() > s.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..p.len() {
        ok &= s.as_bytes()[i] == p.as_bytes()[i];
    }
    ok
}
/// an entry of a value set, and whether it contains the node
fn entry(kinds: u32, first: u32, m: &N, n: usize) -> (ValueSetValue, bool) {
    match first + symrt::pick(c"entry", kinds) as u32 {
        0 => {
            let s = ["http://e/", &text(c"v", n)].concat();
            (ValueSetValue::iri(prefixmap::IriRef::iri(rudof_iri::IriS::new_unchecked(&s))), matches!(m, N::Iri(x) if *x == s))
        }
        1 => {
            let s = text(c"v", n);
            let w = matches!(m, N::Lit { lex, dt: "string", .. } if *lex == s);
            (ValueSetValue::string_literal(&s, None), w)
        }
        2 => {
            let s = text(c"v", n.min(1));
            let t = TAGS[symrt::pick(c"vtag", 2)];
            let w = matches!(m, N::Lit { lex, tag: Some(x), .. } if *lex == s && *x == lower(t));
            (ValueSetValue::string_literal(&s, Lang::new(t).ok()), w)
        }
        3 => {
            let d = symrt::over(c"vdigit", 1, b"01234");
            let dt = ["integer", "decimal"][symrt::pick(c"vdt", 2)];
            let w = matches!(m, N::Lit { lex, dt: x, .. } if *lex == d && *x == dt);
            (ValueSetValue::object_value(ObjectValue::datatype_literal(&d, &xsd(dt))), w)
        }
        4 => {
            let s = ["http://e/", &text(c"v", n)].concat();
            let w = matches!(m, N::Iri(x) if has(x, &s));
            (ValueSetValue::IriStem { stem: prefixmap::IriRef::iri(rudof_iri::IriS::new_unchecked(&s)) }, w)
        }
        5 => {
            let s = text(c"v", n);
            let w = matches!(m, N::Lit { lex, .. } if has(lex, &s));
            (ValueSetValue::literal_stem(s), w)
        }
        6 => {
            let t = TAGS[symrt::pick(c"vtag", 4)];
            (ValueSetValue::language(Lang::new(t).unwrap()), matches!(m, N::Lit { tag: Some(x), .. } if *x == lower(t)))
        }
        7 => {
            let t = TAGS[symrt::pick(c"vtag", 4)];
            (ValueSetValue::language_stem(Lang::new(t).unwrap()), matches!(m, N::Lit { tag: Some(x), .. } if under(x, t)))
        }
        // stem ranges: a stem or a wildcard, with up to two exclusions. What a wildcard means for nodes
        // of another kind than its exclusions is not asserted
        8 => {
            let wild = symrt::pick(c"wild", 2) == 1;
            let stem = ["http://e/", &text(c"v", n.min(1))].concat();
            let N::Iri(x) = m else {
                if wild {
                    symrt::prune()
                }
                return (ValueSetValue::IriStemRange { stem: iw(&stem), exclusions: Some(vec![]) }, false);
            };
            let mut w = wild || has(x, &stem);
            let mut ex = vec![];
            for _ in 0..symrt::pick(c"exclusions", 3) {
                let e = ["http://e/", &text(c"x", 1)].concat();
                let i = prefixmap::IriRef::iri(rudof_iri::IriS::new_unchecked(&e));
                if symrt::pick(c"exstem", 2) == 1 {
                    w &= !has(x, &e);
                    ex.push(IriExclusion::IriStem(i));
                } else {
                    w &= *x != e;
                    ex.push(IriExclusion::Iri(i));
                }
            }
            (ValueSetValue::IriStemRange { stem: if wild { IriRefOrWildcard::Wildcard } else { iw(&stem) }, exclusions: Some(ex) }, w)
        }
        9 => {
            let wild = symrt::pick(c"wild", 2) == 1;
            let stem = text(c"v", n.min(1));
            let N::Lit { lex: x, .. } = m else {
                if wild {
                    symrt::prune()
                }
                return (ValueSetValue::LiteralStemRange { stem: StringOrWildcard::String(stem), exclusions: None }, false);
            };
            let mut w = wild || has(x, &stem);
            let mut ex = vec![];
            for _ in 0..symrt::pick(c"exclusions", 3) {
                let e = text(c"x", 1);
                if symrt::pick(c"exstem", 2) == 1 {
                    w &= !has(x, &e);
                    ex.push(LiteralExclusion::LiteralStem(e));
                } else {
                    w &= *x != e;
                    ex.push(LiteralExclusion::Literal(e));
                }
            }
            (ValueSetValue::LiteralStemRange { stem: if wild { StringOrWildcard::Wildcard } else { StringOrWildcard::String(stem) }, exclusions: Some(ex) }, w)
        }
        _ => {
            let k = symrt::pick(c"stem", 3);
            let stem = [None, Some("en"), Some("fr-be")][k];
            let N::Lit { tag: Some(x), .. } = m else {
                if k == 0 {
                    symrt::prune()
                }
                return (ValueSetValue::LanguageStemRange { stem: lw(stem), exclusions: None }, false);
            };
            let mut w = stem.is_none_or(|s| under(x, s));
            let mut ex = vec![];
            for _ in 0..symrt::pick(c"exclusions", 3) {
                let t = TAGS[symrt::pick(c"xtag", 4)];
                if symrt::pick(c"exstem", 2) == 1 {
                    w &= !under(x, t);
                    ex.push(LanguageExclusion::LanguageStem(Lang::new(t).unwrap()));
                } else {
                    w &= *x != lower(t);
                    ex.push(LanguageExclusion::Language(Lang::new(t).unwrap()));
                }
            }
            (ValueSetValue::LanguageStemRange { stem: lw(stem), exclusions: Some(ex) }, w)
        }
    }
}
fn iw(s: &str) -> IriRefOrWildcard {
    IriRefOrWildcard::IriRef(prefixmap::IriRef::iri(rudof_iri::IriS::new_unchecked(s)))
}
fn values(kinds: u32, first: u32, k: usize, n: usize) {
    let (o, m) = node(n);
    let mut vs = vec![];
    let mut want = false;
    for _ in 0..k {
        let (v, w) = entry(kinds, first, &m, n);
        vs.push(v);
        want |= w;
    }
    decide(NodeConstraint::new().with_values(vs), o, want)
}
#[unsafe(no_mangle)]
pub extern "C" fn c13_values() {
    values(8, 0, 1, 2)
}
#[unsafe(no_mangle)]
pub extern "C" fn c13_values_two() {
    values(8, 0, 2, 1)
}
#[unsafe(no_mangle)]
pub extern "C" fn c13_iri_ranges() {
    values(1, 8, 1, 2)
}
#[unsafe(no_mangle)]
pub extern "C" fn c13_literal_ranges() {
    values(1, 9, 1, 2)
}
#[unsafe(no_mangle)]
pub extern "C" fn c13_lang_ranges() {
    values(1, 10, 1, 1)
}
/// every part of a node constraint counts
#[unsafe(no_mangle)]
pub extern "C" fn c13_all() {
    let (o, m) = node(1);
    let mut nc = NodeConstraint::new();
    let mut want = true;
    if symrt::pick(c"has_kind", 2) == 1 {
        let k = symrt::pick(c"kind", 2);
        nc = nc.with_node_kind([NodeKind::Iri, NodeKind::Literal][k].clone());
        want &= if k == 0 { matches!(m, N::Iri(_)) } else { matches!(m, N::Lit { .. }) };
    }
    if symrt::pick(c"has_dt", 2) == 1 {
        nc = nc.with_datatype(xsd("integer"));
        want &= matches!(m, N::Lit { dt: "integer", .. });
    }
    if symrt::pick(c"has_facets", 2) == 1 {
        nc = nc.with_max_inclusive(NumericLiteral::Integer(2)).with_min_inclusive(NumericLiteral::Integer(1));
        want &= match &m {
            N::Lit { lex, dt: "integer", .. } => (lex.as_bytes()[0] >= b'1') & (lex.as_bytes()[0] <= b'2'),
            _ => false,
        };
    }
    if symrt::pick(c"has_values", 2) == 1 {
        let d = symrt::over(c"vdigit", 1, b"01234");
        want &= matches!(&m, N::Lit { lex, dt: "integer", .. } if *lex == d);
        nc = nc.with_values(vec![ValueSetValue::object_value(ObjectValue::datatype_literal(&d, &xsd("integer")))]);
    }
    decide(nc, o, want)
}
