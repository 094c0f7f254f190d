//! C07, C08, C10: numeric values.
use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, NumericLiteral as NL};
use rust_decimal::Decimal;
use std::cmp::Ordering;

/// an integer-valued literal of any datatype, with its value
pub fn any_int(n: &std::ffi::CStr, kinds: u32) -> (NL, i128) {
    let k = symrt::pick(n, kinds);
    let lo = symrt::u64(n);
    match k {
        0 => (NL::Long(lo as i64), lo as i64 as i128),
        1 => (NL::UnsignedLong(lo), lo as i128),
        2 => (NL::Int(lo as i32), lo as i32 as i128),
        3 => (NL::Byte(lo as i8), lo as i8 as i128),
        4 => (NL::Short(lo as i16), lo as i16 as i128),
        5 => (NL::UnsignedInt(lo as u32), lo as u32 as i128),
        6 => (NL::UnsignedShort(lo as u16), lo as u16 as i128),
        7 => (NL::UnsignedByte(lo as u8), lo as u8 as i128),
        8 => (NL::Integer(lo as i64 as i128), lo as i64 as i128),
        9 => (NL::NonNegativeInteger(lo as u128), lo as i128),
        10 => (NL::NonPositiveInteger(-(lo as i128)), -(lo as i128)),
        11 => {
            symrt::assume(lo > 0);
            (NL::PositiveInteger(lo as u128), lo as i128)
        }
        _ => {
            symrt::assume(lo > 0);
            (NL::NegativeInteger(-(lo as i128)), -(lo as i128))
        }
    }
}
fn compare(a: &NL, b: &NL, o: Ordering) {
    symrt::check(a.less_than(b) == (o == Ordering::Less), c"less_than");
    symrt::check(a.less_than_or_eq(b) == (o != Ordering::Greater), c"less_than_or_eq");
    symrt::check(a.partial_cmp(b) == Some(o), c"partial_cmp");
    symrt::check((a == b) == (o == Ordering::Equal), c"eq");
    symrt::observe(o as i8 as u64);
}
/// C07: integers of any two datatypes
#[unsafe(no_mangle)]
pub extern "C" fn c07_ints() {
    let (a, x) = any_int(c"a", 13);
    let (b, y) = any_int(c"b", 13);
    compare(&a, &b, x.cmp(&y));
}
/// C07: 128-bit integers of the unbounded datatypes
fn wide(n: &std::ffi::CStr) -> (NL, bool, u128) {
    let lo = symrt::u64(n) as u128;
    let hi = symrt::u64(n) as u128;
    let m = (hi << 64) | lo;
    match symrt::pick(n, 3) {
        0 => (NL::NonNegativeInteger(m), false, m),
        1 => {
            symrt::assume(hi >> 63 == 0);
            (NL::Integer(m as i128), false, m)
        }
        _ => {
            symrt::assume((hi >> 63 == 0) & (m != 0));
            (NL::NonPositiveInteger(-(m as i128)), true, m)
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c07_wide() {
    let (a, an, am) = wide(c"a");
    let (b, bn, bm) = wide(c"b");
    let o = match (an, bn) {
        (false, false) => am.cmp(&bm),
        (true, true) => bm.cmp(&am),
        (false, true) => Ordering::Greater,
        (true, false) => Ordering::Less,
    };
    compare(&a, &b, o);
}
pub fn any_dec(n: &std::ffi::CStr, scales: u32) -> (NL, i128) {
    let m = (symrt::u16(n) as i16) >> 4;
    let sc = symrt::pick(n, scales);
    // value in units of 10^-3
    (NL::Decimal(Decimal::new(m as i64, sc as u32)), (m as i32 * [1000, 100, 10, 1][sc]) as i128)
}
/// C07: decimals with up to two fraction digits, against each other and against integers
#[unsafe(no_mangle)]
pub extern "C" fn c07_dec() {
    let (a, x) = any_dec(c"a", 3);
    let (b, y) = if symrt::bool(c"dec") {
        any_dec(c"b", 3)
    } else {
        let v = symrt::u16(c"v") as i16;
        (NL::Short(v), (v as i32 * 1000) as i128)
    };
    compare(&a, &b, (x as i32).cmp(&(y as i32)));
}
/// C07: NaN is not comparable, infinities are beyond every number
#[unsafe(no_mangle)]
pub extern "C" fn c07_special() {
    let (b, _) = match symrt::pick(c"b", 4) {
        0 => any_int(c"i", 13),
        1 => any_dec(c"d", 4),
        2 => (wide(c"w").0, 0),
        _ => (NL::Double([0.0, -1.5, 1e-300, 1e300][symrt::pick(c"f", 4)]), 0),
    };
    let f32_ = symrt::bool(c"float");
    let neg = symrt::bool(c"neg");
    if symrt::bool(c"nan") {
        let m = symrt::u32(c"m");
        symrt::assume((m & 0x7fffff) != 0);
        let a = if f32_ { NL::Float(f32::from_bits(0x7f80_0000 | (m & 0x807f_ffff))) } else { NL::Double(f64::from_bits(0x7ff0_0000_0000_0000 | m as u64)) };
        symrt::check(!a.less_than(&b) & !b.less_than(&a) & !a.less_than_or_eq(&b) & !b.less_than_or_eq(&a), c"nan_less");
        symrt::check(a.partial_cmp(&b).is_none() & b.partial_cmp(&a).is_none(), c"nan_cmp");
        symrt::check(a != b, c"nan_eq");
    } else {
        let s = if neg { -1.0f32 } else { 1.0 };
        let a = if f32_ { NL::Float(s * f32::INFINITY) } else { NL::Double((s * f32::INFINITY) as f64) };
        compare(&a, &b, if neg { Ordering::Less } else { Ordering::Greater });
    }
}
/// floats and doubles with an exact decimal value, in units of 10^-3
pub fn any_float(n: &std::ffi::CStr) -> (NL, i128) {
    const F: [(f64, i128); 10] = [(0.0, 0), (-0.0, 0), (0.25, 250), (-1.5, -1500), (100.0, 100000), (-128.0, -128000), (3276.75, 3276750), (16777216.0, 16777216000), (-4294967296.0, -4294967296000), (1152921504606846976.0, 1152921504606846976000)];
    let (f, v) = F[symrt::pick(n, 10)];
    (if symrt::bool(n) { NL::Float(f as f32) } else { NL::Double(f) }, v)
}
/// C07: floats and doubles against integers, decimals and each other
#[unsafe(no_mangle)]
pub extern "C" fn c07_float() {
    let (a, x) = any_float(c"a");
    let (b, y) = match symrt::pick(c"kind", 3) {
        0 => {
            let (b, v) = any_int(c"i", 4);
            (b, v * 1000)
        }
        1 => any_dec(c"d", 4),
        _ => any_float(c"b"),
    };
    compare(&a, &b, x.cmp(&y));
    compare(&b, &a, y.cmp(&x));
}
