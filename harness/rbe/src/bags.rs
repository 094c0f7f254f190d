use crate::lang::*;
use ::rbe::rbe_struct::RbeStruct;
use ::rbe::{Bag, Rbe};
use std::collections::{HashMap, HashSet};

fn bag(n: [u64; 2]) -> Bag<char> {
    let mut b = Bag::new();
    for s in 0..2 {
        if n[s] > 0 {
            b.insert_many(SYMS[s], n[s] as usize);
        }
    }
    b
}
fn counts(k: u64) -> [u64; 2] {
    [symrt::pick(c"na", k as u32 + 1) as u64, symrt::pick(c"nb", k as u32 + 1) as u64]
}

/// C01: repeated derivatives over every sequence of symbols, and whole-bag matching
fn deriv(depth: u32, k: u64, seq: u32) {
    let x = expr(depth, &[0, 1], false);
    symrt::no_fmt(true);
    let e = x.rbe();
    let nul = e.match_bag_deriv(&Bag::new(), false).is_ok();
    let len = symrt::pick(c"len", seq + 1) as u32;
    let mut n = [0; 2];
    let mut d = e.clone();
    let ctl: HashSet<char> = SYMS.into_iter().collect();
    for _ in 0..len {
        let s = symrt::pick(c"s", 2);
        n[s] += 1;
        d = d.deriv(&SYMS[s], 1, false, &ctl);
    }
    let got = d.match_bag_deriv(&Bag::new(), false).is_ok();
    let got2 = e.match_bag_deriv(&bag(n), false).is_ok();
    let l = x.lang(k);
    let want = member(&l, n, k);
    symrt::observe(got as u64);
    symrt::check(nul == (l[0]), c"empty_bag");
    symrt::check(got == want, c"deriv_sequence");
    symrt::check(got2 == want, c"match_bag");
}
#[unsafe(no_mangle)]
pub extern "C" fn c01_d1() {
    deriv(1, 3, 3)
}
#[unsafe(no_mangle)]
pub extern "C" fn c01_d2() {
    deriv(2, 2, 2)
}
#[unsafe(no_mangle)]
pub extern "C" fn c01_d2x() {
    deriv(2, 3, 3)
}
/// C01: symbols outside the expression are ignored in open mode and rejected in closed mode
#[unsafe(no_mangle)]
pub extern "C" fn c01_open() {
    symrt::no_fmt(true);
    let x = expr(1, &[0, 1], false);
    let e = x.rbe();
    let n = counts(2);
    let mut b = bag(n);
    b.insert('z');
    let syms = e.symbols();
    // a symbol that the expression does not mention is an extra one too
    let mut eff = n;
    for s in 0..2 {
        if !syms.contains(&SYMS[s]) {
            eff[s] = 0;
        }
    }
    let open = e.match_bag_deriv(&b, true).is_ok();
    symrt::observe(open as u64);
    let l = x.lang(2);
    symrt::check(open == member(&l, eff, 2), c"open");
    symrt::check(e.match_bag_deriv(&b, false).is_err(), c"closed");
}
/// C02: the interval algorithm on single-occurrence expressions against the definition;
/// `whole`: through the entry point (which also explains a failure by derivatives)
fn interval(depth: u32, k: u64, whole: bool) {
    let x = expr(depth, &[0, 1], true);
    symrt::no_fmt(true);
    let n = counts(k);
    let b = bag(n);
    let got = if whole {
        RbeStruct::from(x.rbe()).match_bag_interval(&b, false).is_ok()
    } else {
        let e = x.rbe();
        let syms = e.symbols();
        for s in 0..2 {
            symrt::assume(n[s] == 0 || syms.contains(&SYMS[s]));
        }
        e.interval(&b).contains(1)
    };
    let want = member(&x.lang(k), n, k);
    symrt::observe(got as u64);
    symrt::check(got == want, c"interval_closed");
}
#[unsafe(no_mangle)]
pub extern "C" fn c02_d1() {
    interval(1, 4, true)
}
#[unsafe(no_mangle)]
pub extern "C" fn c02_d2() {
    interval(2, 3, false)
}
#[unsafe(no_mangle)]
pub extern "C" fn c02_d2m() {
    interval(2, 2, true)
}
#[unsafe(no_mangle)]
pub extern "C" fn c02_d3() {
    interval(3, 2, false)
}
/// C02: automatic choice of the algorithm (symbols may repeat), open mode
#[unsafe(no_mangle)]
pub extern "C" fn c02_auto() {
    let x = expr(1, &[0, 1], false);
    let e = x.rbe();
    let r = RbeStruct::from(e.clone());
    symrt::no_fmt(true);
    let n = counts(2);
    let mut b = bag(n);
    let got = r.match_bag_interval(&b, false).is_ok();
    symrt::observe(got as u64);
    let l = x.lang(2);
    symrt::check(got == member(&l, n, 2), c"auto_closed");
    b.insert('z');
    let mut eff = n;
    for s in 0..2 {
        if !r.symbols().contains(&SYMS[s]) {
            eff[s] = 0;
        }
    }
    symrt::check(r.match_bag_interval(&b, true).is_ok() == member(&l, eff, 2), c"auto_open");
    symrt::check(r.match_bag_interval(&b, false).is_err(), c"auto_extra");
}
/// C03: a refuted pair of lower/upper multiplicities admits no accepted bag
fn feas(depth: u32, k: u64) {
    let x = expr(depth, &[0, 1], true);
    let e: Rbe<char> = x.rbe();
    let mut lo = [0u64; 2];
    let mut hi = [0u64; 2];
    let mut hlo = HashMap::new();
    let mut hhi = HashMap::new();
    for s in 0..2 {
        lo[s] = symrt::choice(c"lo", k as u32 + 1) as u64;
        hi[s] = symrt::choice(c"hi", k as u32 + 1) as u64;
        symrt::assume(lo[s] <= hi[s]);
        hlo.insert(SYMS[s], lo[s] as usize);
        hhi.insert(SYMS[s], hi[s] as usize);
    }
    let f = e.feasible(&hlo, &hhi);
    symrt::observe(f as u64);
    let l = x.lang(k);
    let mut some = false;
    for i in 0..=k {
        for j in 0..=k {
            some |= (lo[0] <= i) & (i <= hi[0]) & (lo[1] <= j) & (j <= hi[1]) & member(&l, [i, j], k);
        }
    }
    symrt::check(f | !some, c"refuted_but_matchable");
    // the test is not vacuous: a plain symbol outside its bounds is refuted
    if let X::Sym(s, c) = &x {
        let none = (hi[*s] < c.min) | (!c.unb & (lo[*s] > c.max));
        symrt::check(!(none & f), c"symbol_refuted");
    }
    // and the same through the wrapper
    symrt::check(RbeStruct::from(e).feasible(&hlo, &hhi) == f, c"wrapper");
}
#[unsafe(no_mangle)]
pub extern "C" fn c03_d1() {
    feas(1, 3)
}
#[unsafe(no_mangle)]
pub extern "C" fn c03_d2() {
    feas(2, 2)
}
#[unsafe(no_mangle)]
pub extern "C" fn c03_d3() {
    feas(3, 2)
}
