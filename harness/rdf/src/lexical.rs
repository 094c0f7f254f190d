//! C06: a literal is accepted with its declared XSD datatype exactly when its text is in the
//! datatype's lexical space (and its value in range). The grammars below are written from XSD Part 2.
use prefixmap::IriRef;
use rudof_iri::IriS;
use rudof_rdf::rdf_core::term::literal::ConcreteLiteral;

pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";

pub fn digit(b: u8) -> bool {
    (b >= b'0') & (b <= b'9')
}

/// outcome of running the checker: None = ill-typed
pub fn accepted(dt: &str, lex: &str) -> bool {
    let iri = IriRef::iri(IriS::new_unchecked(&[XSD, dt].concat()));
    let lit = ConcreteLiteral::DatatypeLiteral { lexical_form: lex.to_string(), datatype: iri };
    match lit.into_checked_literal() {
        Ok(ConcreteLiteral::WrongDatatypeLiteral { .. }) => false,
        Ok(_) => true,
        Err(_) => false,
    }
}
fn one(b: &[u8], i: usize, p: impl Fn(u8) -> bool) -> bool {
    i < b.len() && p(b[i])
}
/// does b match sign? digit+ ; (negative, value) for up to 7 digits
fn integer(b: &[u8]) -> (bool, bool, i64) {
    let n = b.len();
    if n == 0 {
        return (false, false, 0);
    }
    let neg = b[0] == b'-';
    let sign = neg | (b[0] == b'+');
    let mut ok = digit(b[0]) | (sign & (n > 1));
    let mut v: i64 = if sign { 0 } else { (b[0].wrapping_sub(b'0')) as i64 };
    for x in &b[1..] {
        ok &= digit(*x);
        v = v * 10 + x.wrapping_sub(b'0') as i64;
    }
    (ok, neg, if neg { -v } else { v })
}
fn ints(dt: &str, lo: i64, hi: i64, len: usize) {
    let n = symrt::pick(c"len", len as u32 + 1);
    let s = symrt::ascii(c"s", n);
    let (ok, _, v) = integer(s.as_bytes());
    let want = ok & (v >= lo) & (v <= hi);
    let got = accepted(dt, &s);
    symrt::check(got == want, c"lexical");
    symrt::observe(got as u64);
}
#[unsafe(no_mangle)]
pub extern "C" fn c06_integer() {
    symrt::no_fmt(true);
    ints("integer", i64::MIN, i64::MAX, 3)
}
#[unsafe(no_mangle)]
pub extern "C" fn c06_byte() {
    symrt::no_fmt(true);
    ints("byte", -128, 127, 4)
}

/// sign? digit+ with the decimal value between -neg and +pos (given as digit strings)
fn int_within(b: &[u8], neg: &[u8], pos: &[u8]) -> bool {
    let n = b.len();
    if n == 0 {
        return false;
    }
    let minus = b[0] == b'-';
    let sign = minus | (b[0] == b'+');
    let mut ok = digit(b[0]) | (sign & (n > 1));
    for x in &b[1..] {
        ok &= digit(*x);
    }
    ok & ((minus & at_most(b, sign, neg)) | (!minus & at_most(b, sign, pos)))
}
/// digits of b (the first position counts as 0 when it is a sign) <= lim as numbers
fn at_most(b: &[u8], sign: bool, lim: &[u8]) -> bool {
    let n = b.len().max(lim.len());
    let at = |i: usize| -> u8 {
        // digit i of b, aligned right
        if i + b.len() < n {
            b'0'
        } else {
            let k = i + b.len() - n;
            if k == 0 && sign { b'0' } else { b[k] }
        }
    };
    let lm = |i: usize| if i + lim.len() < n { b'0' } else { lim[i + lim.len() - n] };
    let (mut less, mut eq) = (false, true);
    for i in 0..n {
        let (x, y) = (at(i), lm(i));
        less |= eq & (x < y);
        eq &= x == y;
    }
    less | eq
}
fn limits(dt: &str, neg: &str, pos: &str, from: usize, to: usize) {
    symrt::no_fmt(true);
    let n = from + symrt::pick(c"len", (to - from) as u32 + 1);
    let s = symrt::ascii(c"s", n);
    let got = accepted(dt, &s);
    symrt::check(got == int_within(s.as_bytes(), neg.as_bytes(), pos.as_bytes()), c"lexical");
    symrt::observe(got as u64);
}
#[unsafe(no_mangle)]
pub extern "C" fn c06_signed() {
    match symrt::pick(c"type", 2) {
        0 => limits("byte", "128", "127", 0, 5),
        _ => limits("short", "32768", "32767", 0, 7),
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c06_int() {
    limits("int", "2147483648", "2147483647", 0, 8)
}
#[unsafe(no_mangle)]
pub extern "C" fn c06_unsigned() {
    match symrt::pick(c"type", 3) {
        0 => limits("unsignedByte", "0", "255", 0, 5),
        1 => limits("unsignedShort", "0", "65535", 0, 7),
        _ => limits("unsignedInt", "0", "4294967295", 0, 8),
    }
}
/// texts sharing all but the last characters with a range limit
fn near(dt: &str, neg: &str, pos: &str, lim: &str) {
    symrt::no_fmt(true);
    let keep = lim.len() - 4;
    let n = symrt::pick(c"tail", 6);
    let mut s: String = ["", "+", "-"][symrt::pick(c"sign", 3)].to_string();
    s.push_str(&lim[..keep]);
    s.push_str(&symrt::ascii(c"s", n));
    let got = accepted(dt, &s);
    symrt::check(got == int_within(s.as_bytes(), neg.as_bytes(), pos.as_bytes()), c"lexical");
    symrt::observe(got as u64);
}
const I64MIN: &str = "9223372036854775808";
const I64MAX: &str = "9223372036854775807";
const U64MAX: &str = "18446744073709551615";
#[unsafe(no_mangle)]
pub extern "C" fn c06_long() {
    match symrt::pick(c"type", 2) {
        0 => limits("long", I64MIN, I64MAX, 0, 8),
        _ => limits("unsignedLong", "0", U64MAX, 0, 8),
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c06_near() {
    match symrt::pick(c"type", 4) {
        0 => near("long", I64MIN, I64MAX, I64MAX),
        1 => near("unsignedLong", "0", U64MAX, U64MAX),
        2 => near("int", "2147483648", "2147483647", "2147483647"),
        _ => near("unsignedInt", "0", "4294967295", "4294967295"),
    }
}
/// the unbounded integer types, for texts whose value fits easily
#[unsafe(no_mangle)]
pub extern "C" fn c06_unbounded() {
    symrt::no_fmt(true);
    let n = symrt::pick(c"len", 7);
    let s = symrt::ascii(c"s", n);
    let b = s.as_bytes();
    let any = int_within(b, b"999999999", b"999999999");
    let nonpos = int_within(b, b"999999999", b"0");
    let nonneg = int_within(b, b"0", b"999999999");
    let (dt, want) = match symrt::pick(c"type", 5) {
        0 => ("integer", any),
        1 => ("nonPositiveInteger", nonpos),
        2 => ("nonNegativeInteger", nonneg),
        3 => ("negativeInteger", any & !nonneg),
        _ => ("positiveInteger", any & !nonpos),
    };
    let got = accepted(dt, &s);
    symrt::check(got == want, c"lexical");
    symrt::observe(got as u64);
}
/// states of a small automaton over bytes, evaluated without branching
struct Auto<const N: usize>([bool; N]);
impl<const N: usize> Auto<N> {
    fn run(b: &[u8], step: impl Fn(&[bool; N], u8) -> [bool; N]) -> [bool; N] {
        let mut s = [false; N];
        s[0] = true;
        for x in b {
            s = step(&s, *x);
        }
        s
    }
}
/// (\+|-)?([0-9]+(\.[0-9]*)?|\.[0-9]+)
pub fn decimal(b: &[u8]) -> bool {
    // 0 start, 1 sign, 2 digits, 3 dot after digits, 4 dot first, 5 fraction
    let s = Auto::<6>::run(b, |s, x| {
        let d = digit(x);
        let dot = x == b'.';
        [false, s[0] & ((x == b'+') | (x == b'-')), (s[0] | s[1] | s[2]) & d, s[2] & dot, (s[0] | s[1]) & dot, (s[3] | s[4] | s[5]) & d]
    });
    s[2] | s[3] | s[5]
}
/// decimal with optional exponent
pub fn mantissa_exp(b: &[u8]) -> bool {
    let s = Auto::<9>::run(b, |s, x| {
        let d = digit(x);
        let dot = x == b'.';
        let sg = (x == b'+') | (x == b'-');
        let e = (x == b'e') | (x == b'E');
        // 6 after e, 7 exponent sign, 8 exponent digits
        [false, s[0] & sg, (s[0] | s[1] | s[2]) & d, s[2] & dot, (s[0] | s[1]) & dot, (s[3] | s[4] | s[5]) & d, (s[2] | s[3] | s[5]) & e, s[6] & sg, (s[6] | s[7] | s[8]) & d]
    });
    s[2] | s[3] | s[5] | s[8]
}
pub fn is(b: &[u8], w: &[u8]) -> bool {
    let mut ok = b.len() == w.len();
    if ok {
        for i in 0..w.len() {
            ok &= b[i] == w[i];
        }
    }
    ok
}
#[unsafe(no_mangle)]
pub extern "C" fn c06_boolean() {
    symrt::no_fmt(true);
    let n = symrt::pick(c"len", 7);
    let s = symrt::ascii(c"s", n);
    let b = s.as_bytes();
    let got = accepted("boolean", &s);
    symrt::check(got == (is(b, b"true") | is(b, b"false") | is(b, b"1") | is(b, b"0")), c"lexical");
    symrt::observe(got as u64);
}
fn dec(len: usize) {
    symrt::no_fmt(true);
    let n = symrt::pick(c"len", len as u32 + 1);
    let s = symrt::ascii(c"s", n);
    let got = accepted("decimal", &s);
    symrt::check(got == decimal(s.as_bytes()), c"lexical");
    symrt::observe(got as u64);
}
#[unsafe(no_mangle)]
pub extern "C" fn c06_decimal() {
    dec(6)
}
fn float(len: usize) {
    symrt::no_fmt(true);
    let dt = if symrt::bool(c"float") { "float" } else { "double" };
    let n = symrt::pick(c"len", len as u32 + 1);
    let s = symrt::ascii(c"s", n);
    let b = s.as_bytes();
    let got = accepted(dt, &s);
    let want = mantissa_exp(b) | is(b, b"INF") | is(b, b"-INF") | is(b, b"NaN");
    // "+INF" is in the lexical space of XSD 1.1 only
    symrt::check((got == want) | is(b, b"+INF"), c"lexical");
    symrt::observe(got as u64);
}
#[unsafe(no_mangle)]
pub extern "C" fn c06_float() {
    float(4)
}
#[unsafe(no_mangle)]
pub extern "C" fn c06_float_x() {
    float(5)
}
