//! C09: terms survive the conversion from and to the triple store. C10: measures of literals.
use prefixmap::IriRef;
use rudof_iri::IriS;
use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral as L, Lang, Literal, NumericLiteral as NL};
use rudof_rdf::rdf_core::term::{IriOrBlankNode, Object};
use rust_decimal::Decimal;

const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
const TYPES: [&str; 20] = [
    "integer", "long", "int", "short", "byte", "nonNegativeInteger", "positiveInteger", "nonPositiveInteger", "negativeInteger", "unsignedLong", "unsignedInt", "unsignedShort",
    "unsignedByte", "decimal", "double", "float", "boolean", "dateTime", "date", "string",
];
fn xsd(n: &str) -> String {
    let mut s = String::from(XSD);
    s.push_str(n);
    s
}
/// 0..=max characters of the alphabet
fn text(n: &std::ffi::CStr, max: u32, alphabet: &[u8]) -> String {
    let k = symrt::pick(n, max + 1);
    let mut s = String::new();
    for _ in 0..k {
        let b = symrt::u8(n);
        let mut ok = false;
        for a in alphabet {
            ok |= b == *a;
        }
        symrt::assume(ok);
        s.push(b as char);
    }
    s
}
fn back(lit: oxrdf::Literal) {
    let l = L::try_from(lit.clone());
    symrt::check(l.is_ok(), c"readable");
    let l = l.unwrap();
    symrt::check(l.lexical_form() == lit.value(), c"lexical_form");
    symrt::check(Literal::lexical_form(&lit) == lit.value(), c"trait_lexical_form");
    let dt = l.datatype();
    symrt::check(dt.get_iri().unwrap().as_str() == lit.datatype().as_str(), c"datatype");
    let lang = l.lang().map(|x| x.as_str().to_ascii_lowercase());
    symrt::check(lang.as_deref() == lit.language(), c"language");
    let r: oxrdf::Literal = l.into();
    symrt::check(r == lit, c"same_literal");
    symrt::observe(r.value().len() as u64);
}
fn typed(max: u32, from: usize, to: usize) {
    symrt::no_fmt(false);
    let t = from + symrt::pick(c"type", (to - from) as u32);
    let s = text(c"s", max, b"01-.te");
    back(oxrdf::Literal::new_typed_literal(s, oxrdf::NamedNode::new_unchecked(xsd(TYPES[t]))));
}
/// C09: typed literals of the integer datatypes
#[unsafe(no_mangle)]
pub extern "C" fn c09_ints() {
    typed(3, 0, 13)
}
/// C09: typed literals of the other datatypes
#[unsafe(no_mangle)]
pub extern "C" fn c09_others() {
    typed(3, 13, 20)
}
/// C09: texts that are close to a canonical form
#[unsafe(no_mangle)]
pub extern "C" fn c09_near() {
    const T: [(&str, &str); 12] = [
        ("tru_", "boolean"), ("fals_", "boolean"), ("2020-01-01T00:00:00_", "dateTime"), ("2020-01-01T00:00:0_Z", "dateTime"), ("2020-01-01T00:00:00.0_Z", "dateTime"), ("1.0_", "decimal"),
        ("1.0e_", "double"), ("0_1", "integer"), ("+_", "long"), ("IN_", "float"), ("12_", "byte"), ("é_", "integer"),
    ];
    let (t, dt) = T[symrt::pick(c"t", 12)];
    let b = if matches!(dt, "dateTime" | "double") {
        b"0159.-+ eZzF"[symrt::pick(c"p", 12)]
    } else {
        let b = symrt::u8(c"b");
        symrt::assume((b >= b' ') & (b < 127));
        b
    };
    let mut s = String::new();
    for c in t.chars() {
        s.push(if c == '_' { b as char } else { c });
    }
    back(oxrdf::Literal::new_typed_literal(s, oxrdf::NamedNode::new_unchecked(xsd(dt))));
}
/// C09: strings with and without language tag, literals of other datatypes
#[unsafe(no_mangle)]
pub extern "C" fn c09_strings() {
    let s = text(c"s", 2, b"a\"\\ 1");
    back(match symrt::pick(c"k", 3) {
        0 => oxrdf::Literal::new_simple_literal(s),
        1 => {
            let l = ["en", "en-us", "zh-hans-cn", "x-abc", "de-1996"][symrt::pick(c"l", 5)];
            oxrdf::Literal::new_language_tagged_literal_unchecked(s, l)
        }
        _ => oxrdf::Literal::new_typed_literal(s, oxrdf::NamedNode::new_unchecked("http://e/d")),
    });
}
/// C09: numbers reach the store with their datatype and come back as the same number
#[unsafe(no_mangle)]
pub extern "C" fn c09_numbers() {
    let v = symrt::u8(c"v") as i8 as i128;
    let t = symrt::pick(c"type", 15);
    let pos = matches!(t, 5 | 9 | 10 | 11 | 12);
    symrt::assume(!pos | (v >= 0));
    symrt::assume((t != 6) | (v > 0));
    symrt::assume((t != 7) | (v <= 0));
    symrt::assume((t != 8) | (v < 0));
    let n = match t {
        0 => NL::Integer(v),
        1 => NL::Long(v as i64),
        2 => NL::Int(v as i32),
        3 => NL::Short(v as i16),
        4 => NL::Byte(v as i8),
        5 => NL::NonNegativeInteger(v as u128),
        6 => NL::PositiveInteger(v as u128),
        7 => NL::NonPositiveInteger(v),
        8 => NL::NegativeInteger(v),
        9 => NL::UnsignedLong(v as u64),
        10 => NL::UnsignedInt(v as u32),
        11 => NL::UnsignedShort(v as u16),
        12 => NL::UnsignedByte(v as u8),
        13 => NL::Decimal(Decimal::new(v as i64, symrt::pick(c"scale", 3) as u32)),
        _ => NL::Double([0.5, -0.0, 1e21, f64::INFINITY, f64::NAN, f64::NEG_INFINITY][symrt::pick(c"f", 6)]),
    };
    let n0 = n.clone();
    let o: oxrdf::Literal = n.into();
    symrt::check(o.datatype().as_str().strip_prefix(XSD) == Some(TYPES[t]), c"number_datatype");
    let l = L::try_from(o).unwrap().into_checked_literal().unwrap();
    symrt::check(l.numeric_value() == Some(n0), c"number_value");
    symrt::observe(v as u64);
}
fn object(n: &std::ffi::CStr, depth: u32) -> oxrdf::Term {
    let s = text(n, 1, b"ab");
    match symrt::pick(n, 3 + depth) {
        0 => oxrdf::NamedNode::new_unchecked(s).into(),
        1 => oxrdf::BlankNode::new_unchecked(s).into(),
        2 => oxrdf::Literal::new_simple_literal(s).into(),
        _ => {
            let subj: oxrdf::NamedOrBlankNode = if symrt::bool(n) { oxrdf::NamedNode::new_unchecked(s).into() } else { oxrdf::BlankNode::new_unchecked(s).into() };
            oxrdf::Term::Triple(Box::new(oxrdf::Triple::new(subj, oxrdf::NamedNode::new_unchecked("p"), object(n, depth - 1))))
        }
    }
}
/// C09: terms, with nested triple terms
#[unsafe(no_mangle)]
pub extern "C" fn c09_terms() {
    let t = object(c"t", 2);
    let o = Object::try_from(t.clone());
    symrt::check(o.is_ok(), c"term_readable");
    let o = o.unwrap();
    let s = oxrdf::NamedOrBlankNode::try_from(o.clone());
    match (&t, s) {
        (oxrdf::Term::NamedNode(x), Ok(oxrdf::NamedOrBlankNode::NamedNode(y))) => symrt::check(*x == y, c"subject_iri"),
        (oxrdf::Term::BlankNode(x), Ok(oxrdf::NamedOrBlankNode::BlankNode(y))) => symrt::check(*x == y, c"subject_bnode"),
        (oxrdf::Term::Literal(_) | oxrdf::Term::Triple(_), Err(_)) => {}
        _ => symrt::check(false, c"subject_kind"),
    }
    let r: oxrdf::Term = o.into();
    symrt::check(r == t, c"same_term");
}

/// number of decimal digits, at least one
fn digits(mut v: u128) -> usize {
    let mut n = 1;
    while v >= 10 {
        v /= 10;
        n += 1;
    }
    n
}
fn of_type(t: usize, v: i128) -> NL {
    match t {
        0 => NL::Long(v as i64),
        1 => NL::UnsignedLong(v as u64),
        2 => NL::Int(v as i32),
        3 => NL::Byte(v as i8),
        4 => NL::Short(v as i16),
        5 => NL::UnsignedInt(v as u32),
        6 => NL::UnsignedShort(v as u16),
        7 => NL::UnsignedByte(v as u8),
        8 => NL::Integer(v),
        9 => NL::NonNegativeInteger(v as u128),
        10 => NL::NonPositiveInteger(v),
        11 => NL::PositiveInteger(v as u128),
        _ => NL::NegativeInteger(v),
    }
}
fn count(n: NL, d: usize) {
    symrt::check(n.total_digits() == Some(d), c"total_digits");
    symrt::check(n.fraction_digits() == Some(0), c"fraction_digits");
    symrt::observe(d as u64);
}
/// C10: digits of integers of every datatype, 16 bits
#[unsafe(no_mangle)]
pub extern "C" fn c10_ints() {
    let t = symrt::pick(c"type", 13);
    let v = symrt::u16(c"v") as i16 as i128;
    if matches!(t, 1 | 5 | 6 | 7 | 9 | 11) {
        symrt::assume(v >= 0);
    }
    if matches!(t, 10 | 12) {
        symrt::assume(v <= 0);
    }
    if t == 3 {
        symrt::assume((v >= -128) & (v < 128));
    }
    if t == 7 {
        symrt::assume(v < 256);
    }
    count(of_type(t, v), digits(v.unsigned_abs()))
}
/// C10: digits of integers on both sides of each power of ten
#[unsafe(no_mangle)]
pub extern "C" fn c10_powers() {
    let p = 5 + symrt::pick(c"p", 33);
    let neg = symrt::bool(c"neg");
    let above = symrt::bool(c"above");
    let d = [0, 1, 8][symrt::pick(c"d", 3)];
    let m = if above { 10u128.pow(p as u32) + d } else { 10u128.pow(p as u32) - 1 - d };
    let v = if neg { -(m as i128) } else { m as i128 };
    let types: &[usize] = match (neg, p) {
        (false, ..9) => &[0, 1, 2, 5, 8, 9, 11],
        (true, ..9) => &[0, 2, 8, 10, 12],
        (false, ..18) => &[0, 1, 8, 9, 11],
        (true, ..18) => &[0, 8, 10, 12],
        (false, _) => &[8, 9, 11],
        (true, _) => &[8, 10, 12],
    };
    count(of_type(types[symrt::pick(c"type", types.len() as u32)], v), if above { p + 1 } else { p })
}
/// C10: digits of decimals without trailing zeros: a = total significant digits, at least those of the fraction
#[unsafe(no_mangle)]
pub extern "C" fn c10_dec() {
    let m = (symrt::u16(c"m") as i16) as i64;
    symrt::assume((m > -2000) & (m < 2000));
    let scale = symrt::pick(c"scale", 4) as u32;
    let n = NL::Decimal(Decimal::new(m, scale));
    let (mut a, mut f) = (m.unsigned_abs() as u128, scale as usize);
    while f > 0 && a % 10 == 0 {
        a /= 10;
        f -= 1;
    }
    symrt::check(n.fraction_digits() == Some(f), c"dec_fraction_digits");
    symrt::check(n.total_digits() == Some(f.max(digits(a))), c"dec_total_digits");
    symrt::observe(f as u64);
}
/// C10: lengths are counted in characters
#[unsafe(no_mangle)]
pub extern "C" fn c10_length() {
    let n = symrt::pick(c"n", 5);
    let mut s = String::new();
    for _ in 0..n {
        let c = symrt::u32(c"c");
        symrt::assume((c > 0) & (c < 0x11_0000) & !((c >= 0xd800) & (c < 0xe000)));
        s.push(unsafe { char::from_u32_unchecked(c) });
    }
    let o = match symrt::pick(c"k", 6) {
        0 => Object::Iri(IriS::new_unchecked(&s)),
        1 => Object::BlankNode(s),
        2 => Object::Literal(L::StringLiteral { lexical_form: s, lang: None }),
        3 => Object::Literal(L::StringLiteral { lexical_form: s, lang: Some(Lang::new("en").unwrap()) }),
        4 => Object::Literal(L::DatatypeLiteral { lexical_form: s, datatype: IriRef::iri(IriS::new_unchecked("http://e/d")) }),
        _ => {
            let i = IriOrBlankNode::Iri(IriS::new_unchecked(&s));
            symrt::check(i.length() == n, c"iri_length");
            let b = IriOrBlankNode::BlankNode(s.clone());
            symrt::check(b.length() == n, c"bnode_length");
            Object::BlankNode(s)
        }
    };
    symrt::check(o.length() == n, c"length");
    symrt::observe(o.length() as u64);
}
