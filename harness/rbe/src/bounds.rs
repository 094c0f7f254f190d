use crate::lang::C;
use ::rbe::{Cardinality, Interval, Max, Min};

fn max(n: &std::ffi::CStr) -> (Max, u64, bool) {
    let unb = symrt::bool(n);
    let v = symrt::u64(n);
    if unb { (Max::Unbounded, 0, true) } else { (Max::IntMax(v as usize), v, false) }
}
fn le(n: u64, m: &(Max, u64, bool)) -> bool {
    m.2 | (n <= m.1)
}
/// C04: cardinalities as sets of counts, with 64-bit bounds
#[unsafe(no_mangle)]
pub extern "C" fn c04_card() {
    let c = C::any();
    let card: Cardinality = c.card();
    let n = symrt::u64(c"n");
    let k = symrt::u64(c"k");
    let has = |n: u64| (c.min <= n) & (c.unb | (n <= c.max));
    symrt::check(card.contains(n as usize) == has(n), c"contains");
    symrt::check(card.nullable() == has(0), c"nullable");
    symrt::check(card.is_0_0() == (has(0) & !c.unb & (c.max == 0)), c"is_0_0");
    symrt::check(card.is_1_1() == ((c.min == 1) & !c.unb & (c.max == 1)), c"is_1_1");
    symrt::check(card.is_star() == ((c.min == 0) & c.unb), c"is_star");
    symrt::check(card.is_plus() == ((c.min == 1) & c.unb), c"is_plus");
    // after consuming k occurrences (k not above the maximum), n more are allowed iff n+k were
    if le(k, &(card.max.clone(), c.max, c.unb)) {
        symrt::assume(n.checked_add(k).is_some());
        symrt::check(card.minus(k as usize).contains(n as usize) == has(n + k), c"minus");
    } else {
        // nothing is left to consume
        let r = card.minus(k as usize);
        symrt::check(r.max == Max::IntMax(0), c"minus_exhausted");
    }
    symrt::observe(card.contains(n as usize) as u64);
}
/// C04: bounds that may be unbounded
#[unsafe(no_mangle)]
pub extern "C" fn c04_max() {
    let a = max(c"a");
    let b = max(c"b");
    let n = symrt::u64(c"n");
    let m = &a.0;
    symrt::check(m.greater_or_equal(n as usize) == le(n, &a), c"greater_or_equal");
    symrt::check(m.min(&b.0).greater_or_equal(n as usize) == (le(n, &a) & le(n, &b)), c"min");
    symrt::check(m.max(&b.0).greater_or_equal(n as usize) == (le(n, &a) | le(n, &b)), c"max");
    let gt = if a.2 { !b.2 } else if b.2 { false } else { a.1 > b.1 };
    symrt::check(m.greater_than(&b.0) == gt, c"greater_than");
    if !a.2 & !b.2 {
        symrt::assume(a.1.checked_add(b.1).is_some());
    }
    let want = if a.2 | b.2 { Max::Unbounded } else { Max::IntMax((a.1 + b.1) as usize) };
    symrt::check(m.plus(&b.0) == want, c"plus");
    let want = if a.2 { Max::Unbounded } else { Max::IntMax(a.1.saturating_sub(n) as usize) };
    symrt::check(m.minus(n as usize) == want, c"minus");
    symrt::observe(gt as u64);
}
/// C04: how many parts of at most/at least m elements v elements can be split into
#[unsafe(no_mangle)]
pub extern "C" fn c04_div() {
    let m = symrt::pick(c"m", 24) as u64;
    let v = symrt::u32(c"v") as u64;
    let j = symrt::u32(c"j") as u64;
    let unb = symrt::bool(c"unb");
    let b = if unb { Max::Unbounded } else { Max::IntMax(m as usize) };
    // v elements in j parts of at most m each: v <= j*m
    let can = if unb { (v == 0) | (j > 0) } else { v <= j * m };
    let up = b.div_up(&(v as usize));
    let got = match up {
        Max::Unbounded => false,
        Max::IntMax(n) => j as usize >= n,
    };
    symrt::check(got == can, c"div_up");
    // v elements in j parts of at least m each: j*m <= v
    let down = Max::IntMax(m as usize).div_down(&(v as usize));
    symrt::check(down.greater_or_equal(j as usize) == (j * m <= v), c"div_down");
    symrt::observe(got as u64);
}
/// C04: intervals
#[unsafe(no_mangle)]
pub extern "C" fn c04_interval() {
    let (n1, m1, n2, m2) = (symrt::u64(c"n1"), max(c"m1"), symrt::u64(c"n2"), max(c"m2"));
    let v = symrt::u64(c"v");
    let a = Interval::new(Max::IntMax(n1 as usize), m1.0.clone());
    let b = Interval::new(Max::IntMax(n2 as usize), m2.0.clone());
    let ina = (n1 <= v) & le(v, &m1);
    let inb = (n2 <= v) & le(v, &m2);
    symrt::check(a.contains(v as usize) == ina, c"contains");
    symrt::check(!(a.is_empty() & ina), c"empty_contains_nothing");
    symrt::check(a.is_empty() == (!m1.2 & (n1 > m1.1)), c"is_empty");
    symrt::check(a.intersection(&b).contains(v as usize) == (ina & inb), c"intersection");
    // sums: lower and upper ends
    symrt::assume(n1.checked_add(n2).is_some() & (m1.2 | m2.2 | m1.1.checked_add(m2.1).is_some()));
    if !a.is_empty() & !b.is_empty() {
        let s = a.addition(&b);
        symrt::check(s.contains(v as usize) == ((n1 + n2 <= v) & (m1.2 | m2.2 | (v <= m1.1.wrapping_add(m2.1)))), c"addition");
    }
    symrt::check(Interval::zero_any().contains(v as usize), c"zero_any");
    symrt::check(Interval::zero_zero().contains(v as usize) == (v == 0), c"zero_zero");
    symrt::check(Interval::one_any().contains(v as usize) == (v >= 1), c"one_any");
    symrt::check(!Interval::fail().contains(v as usize) & Interval::fail().is_empty(), c"fail");
    symrt::observe(ina as u64);
}
/// C04: conversions used by the readers of schemas
#[unsafe(no_mangle)]
pub extern "C" fn c04_from() {
    let v = symrt::u64(c"v");
    symrt::check(Min::from(v).value as u64 == v && Min::from(v).is_0() == (v == 0), c"min_from");
    symrt::check(Max::from(v) == Max::IntMax(v as usize), c"max_from");
    let i = v as i64;
    symrt::assume(i >= -1);
    symrt::check(Max::from(i) == if i == -1 { Max::Unbounded } else { Max::IntMax(i as usize) }, c"max_from_i64");
    symrt::observe(v);
}
