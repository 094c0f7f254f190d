//! C08: equality, hashing and ordering of numbers, literals and terms.
use crate::numbers::{any_float, any_int};
use prefixmap::IriRef;
use rudof_iri::IriS;
use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral as L, Lang, NumericLiteral as NL, XsdDateTime};
use rudof_rdf::rdf_core::term::{IriOrBlankNode, Object};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// records what is hashed
pub struct Rec {
    buf: [u8; 96],
    n: usize,
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.buf[self.n] = *x;
            self.n += 1;
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write(&[x]);
    }
    fn write_u32(&mut self, x: u32) {
        self.write(&x.to_le_bytes());
    }
    fn write_u64(&mut self, x: u64) {
        self.write(&x.to_le_bytes());
    }
    fn write_usize(&mut self, x: usize) {
        self.write(&(x as u64).to_le_bytes());
    }
    fn write_i128(&mut self, x: i128) {
        self.write(&x.to_le_bytes());
    }
}
fn rec<T: Hash>(x: &T) -> Rec {
    let mut r = Rec { buf: [0; 96], n: 0 };
    x.hash(&mut r);
    r
}
fn same_hash<T: Hash>(x: &T, y: &T) -> bool {
    let (a, b) = (rec(x), rec(y));
    let mut same = a.n == b.n;
    for i in 0..a.n.max(b.n) {
        same &= a.buf[i] == b.buf[i];
    }
    same
}
/// laws for a pair; equal values hash alike, equality is symmetric, the order is antisymmetric and
/// does not separate equal values
fn pair<T: Hash + Eq + PartialOrd>(a: &T, b: &T) {
    let eq = a == b;
    symrt::check(eq == (b == a), c"eq_symmetric");
    let (o, p) = (a.partial_cmp(b), b.partial_cmp(a));
    symrt::check(o == p.map(Ordering::reverse), c"antisymmetric");
    if eq {
        symrt::check(same_hash(a, b), c"hash");
        symrt::check(matches!(o, None | Some(Ordering::Equal)), c"equal_not_separated");
    }
    symrt::check(a == a && b == b, c"eq_reflexive");
    symrt::observe(eq as u64);
    symrt::observe(o.map_or(9, |o| o as i8 as u64));
}
fn le<T: PartialOrd>(a: &T, b: &T) -> bool {
    matches!(a.partial_cmp(b), Some(Ordering::Less | Ordering::Equal))
}
fn triple<T: Hash + Eq + PartialOrd>(a: &T, b: &T, c: &T) {
    if (a == b) & (b == c) {
        symrt::check(a == c, c"eq_transitive");
    }
    if le(a, b) && le(b, c) {
        symrt::check(le(a, c), c"le_transitive");
        let lt = a.partial_cmp(b) == Some(Ordering::Less) || b.partial_cmp(c) == Some(Ordering::Less);
        symrt::check(!lt || a.partial_cmp(c) == Some(Ordering::Less), c"lt_transitive");
    }
}
fn special(n: &std::ffi::CStr) -> NL {
    match symrt::pick(n, 8) {
        0 => NL::Double(f64::NAN),
        1 => NL::Float(f32::NAN),
        2 => NL::Double(f64::INFINITY),
        3 => NL::Float(f32::NEG_INFINITY),
        4 => NL::Double(1e300),
        5 => NL::Double(-1e30),
        6 => NL::Integer(-1_000_000_000_000_000_000_000_000_000_000),
        _ => NL::NonNegativeInteger(u128::MAX),
    }
}
/// integers of 8 bits of every datatype
fn small(n: &std::ffi::CStr) -> NL {
    let v = symrt::u8(n) as i8 as i128;
    let k = symrt::pick(n, 14);
    if matches!(k, 1 | 5 | 6 | 7 | 9) {
        symrt::assume(v >= 0);
    }
    match k {
        0 => NL::Long(v as i64),
        1 => NL::UnsignedLong(v as u64),
        2 => NL::Int(v as i32),
        3 => NL::Byte(v as i8),
        4 => NL::Short(v as i16),
        5 => NL::UnsignedInt(v as u32),
        6 => NL::UnsignedShort(v as u16),
        7 => NL::UnsignedByte(v as u8),
        8 => NL::Integer(v),
        9 => NL::NonNegativeInteger(v as u128),
        10 => {
            symrt::assume(v <= 0);
            NL::NonPositiveInteger(v)
        }
        11 => {
            symrt::assume(v > 0);
            NL::PositiveInteger(v as u128)
        }
        12 => {
            symrt::assume(v < 0);
            NL::NegativeInteger(v)
        }
        _ => NL::Decimal(rust_decimal::Decimal::new(v as i64, symrt::pick(n, 3) as u32)),
    }
}
fn any_num(n: &std::ffi::CStr) -> NL {
    match symrt::pick(n, 3) {
        0 => NL::Int(symrt::u8(n) as i8 as i32),
        1 => special(n),
        _ => any_float(n).0,
    }
}
/// C08: numbers
#[unsafe(no_mangle)]
pub extern "C" fn c08_num() {
    let a = any_num(c"a");
    let b = any_num(c"b");
    pair(&a, &b);
}
/// C08: integers of all datatypes and decimals
#[unsafe(no_mangle)]
pub extern "C" fn c08_ints() {
    let (a, b) = (small(c"a"), small(c"b"));
    pair(&a, &b);
}
fn three(n: &std::ffi::CStr) -> NL {
    match symrt::pick(n, 3) {
        0 => any_int(n, 2).0,
        1 => special(n),
        _ => any_float(n).0,
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c08_num3() {
    let (a, b, c) = (three(c"a"), three(c"b"), three(c"c"));
    triple(&a, &b, &c);
}
fn xsd(n: &str) -> IriRef {
    let mut s = String::from("http://www.w3.org/2001/XMLSchema#");
    s.push_str(n);
    IriRef::iri(IriS::new_unchecked(&s))
}
/// text over a small alphabet, 1..=max characters
fn text(n: &std::ffi::CStr, max: u32) -> String {
    let k = 1 + symrt::pick(n, max);
    let mut s = String::new();
    for _ in 0..k {
        let b = symrt::u8(n);
        symrt::assume((b == b'0') | (b == b'1') | (b == b'a'));
        s.push(b as char);
    }
    s
}
fn any_lit(n: &std::ffi::CStr, len: u32) -> L {
    match symrt::pick(n, 8) {
        0 => L::StringLiteral { lexical_form: text(n, len), lang: [None, Some(Lang::new("en").unwrap()), Some(Lang::new("fr").unwrap())][symrt::pick(n, 3)].clone() },
        1 => L::DatatypeLiteral { lexical_form: text(n, len), datatype: xsd("integer") },
        2 => L::DatatypeLiteral { lexical_form: text(n, len), datatype: xsd("boolean") },
        3 => L::DatatypeLiteral { lexical_form: text(n, len), datatype: IriRef::iri(IriS::new_unchecked(["http://e/a", "http://e/b"][symrt::pick(n, 2)])) },
        4 => L::NumericLiteral(if symrt::bool(n) { NL::Integer(symrt::u8(n) as i8 as i128) } else { NL::Byte(symrt::u8(n) as i8) }),
        5 => L::BooleanLiteral(symrt::bool(n)),
        6 => L::DatetimeLiteral(XsdDateTime::new(["2020-01-01T00:00:00Z", "2020-01-01T01:00:00+01:00", "2020-01-01T00:00:00", "2021-01-01T00:00:00Z"][symrt::pick(n, 4)]).unwrap()),
        _ => L::WrongDatatypeLiteral { lexical_form: text(n, 1), datatype: xsd("integer"), error: String::from("e") },
    }
}
/// C08: literals of every representation
#[unsafe(no_mangle)]
pub extern "C" fn c08_lit() {
    symrt::no_fmt(true);
    let a = any_lit(c"a", 2);
    let b = any_lit(c"b", 2);
    pair(&a, &b);
}
#[unsafe(no_mangle)]
pub extern "C" fn c08_lit3() {
    symrt::no_fmt(true);
    let a = any_lit(c"a", 1);
    let b = any_lit(c"b", 1);
    let c = any_lit(c"c", 1);
    triple(&a, &b, &c);
}
fn any_obj(n: &std::ffi::CStr, depth: u32) -> Object {
    match symrt::pick(n, 3 + depth) {
        0 => Object::Iri(IriS::new_unchecked(&text(n, 1))),
        1 => Object::BlankNode(text(n, 1)),
        2 => Object::Literal(if symrt::bool(n) { L::BooleanLiteral(symrt::bool(n)) } else { L::StringLiteral { lexical_form: text(n, 1), lang: None } }),
        _ => Object::Triple {
            subject: Box::new(if symrt::bool(n) { IriOrBlankNode::BlankNode(text(n, 1)) } else { IriOrBlankNode::Iri(IriS::new_unchecked(&text(n, 1))) }),
            predicate: IriS::new_unchecked("p"),
            object: Box::new(any_obj(n, depth - 1)),
        },
    }
}
/// C08: terms, with triple terms
#[unsafe(no_mangle)]
pub extern "C" fn c08_obj() {
    let a = any_obj(c"a", 1);
    let b = any_obj(c"b", 1);
    pair(&a, &b);
}
#[unsafe(no_mangle)]
pub extern "C" fn c08_obj3() {
    let a = any_obj(c"a", 1);
    let b = any_obj(c"b", 1);
    let c = any_obj(c"c", 1);
    triple(&a, &b, &c);
}
