use crate::lang::*;
use ::rbe::match_cond::MatchKind;
use ::rbe::{MatchCond, SingleCond};
use ::rbe::rbe_struct::RbeStruct;
use ::rbe::{Component, Context, Key, Pending, RbeError, RbeTable, Ref, Value};
use serde::Serialize;
use std::fmt;

macro_rules! id {
    ($n:ident, $t:ident) => {
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, Serialize)]
        struct $n(u8);
        impl $t for $n {}
        impl fmt::Display for $n {
            fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
                Ok(())
            }
        }
    };
}
id!(K, Key);
id!(V, Value);
id!(R, Ref);
id!(Cx, Context);

/// condition that holds for value i iff bit i is set: any relation between components and values
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize)]
struct Mask(u8);
impl MatchKind<K, V, R, Cx> for Mask {
    fn eval(&self, v: &V, _: &Cx) -> Result<Pending<K, V, R>, RbeError<K, V, R, Cx, Self>> {
        if (self.0 >> v.0) & 1 == 1 {
            Ok(Pending::empty())
        } else {
            Err(RbeError::RangeNegativeLowerBound { min: 0 })
        }
    }
}
type Cond = MatchCond<K, V, R, Cx, Mask>;
type Table = RbeTable<K, V, R, Cx, Mask>;

const COMPS: [usize; 3] = [0, 1, 2];

/// `free`: the number of components with an arbitrary cardinality (the others are {1,1}, for the first body {0,1})
fn body(kind: usize, free: usize) -> X {
    let s = |i: usize| X::Sym(i, if (i + 2) % 3 < free { C::any() } else { C { min: (kind != 0) as u64, max: 1, unb: false } });
    match kind {
        0 => X::And(vec![s(0), s(1), s(2)]),
        1 => X::Or(vec![s(0), X::And(vec![s(1), s(2)])]),
        2 => X::And(vec![X::Or(vec![s(0), s(1)]), s(2)]),
        3 => X::And(vec![X::Star(Box::new(X::And(vec![s(0), s(1)]))), s(2)]),
        4 => X::Plus(Box::new(X::Or(vec![s(0), s(1), s(2)]))),
        _ => {
            let c = C::any();
            X::Rep(Box::new(X::And(vec![s(0), X::Or(vec![s(1), s(2)])])), c)
        }
    }
}

/// C05: a table accepts the values iff some assignment of every value to a component of its key
/// satisfies the conditions (and, for references, the typing) and the expression
fn assignment(kind: usize, free: usize, nv: usize, refs: bool) {
    symrt::no_fmt(true);
    let x = body(kind, free);
    // keys: component 0 always key 0
    let keys = [0, symrt::pick(c"key", 2) as u8, symrt::pick(c"key", 2) as u8];
    let nkeys = 1 + (keys[1] | keys[2]);
    let n = symrt::pick(c"n", nv as u32 + 1);
    let vkeys: Vec<u8> = (0..n).map(|_| if nkeys == 1 { 0 } else { symrt::pick(c"vkey", 2) as u8 }).collect();
    let masks: Vec<u8> = COMPS.iter().map(|_| symrt::choice(c"mask", 1 << nv) as u8).collect();
    // which (value, reference of a component) pairs are in the typing
    let typing: Vec<u8> = COMPS.iter().map(|_| if refs { symrt::choice(c"typing", 1 << nv) as u8 } else { 0xff }).collect();
    let mut t: Table = Table::new();
    for c in COMPS {
        let single: Cond = MatchCond::single(SingleCond::new().with_kind(Mask(masks[c])));
        // every condition form: plain, reference, conjunction
        let cond = match c {
            1 if refs => MatchCond::And(vec![single, MatchCond::Ref(R(1))]),
            2 if refs => MatchCond::And(vec![MatchCond::Ref(R(2)), single]),
            _ => single,
        };
        let comp = t.add_component(K(keys[c]), &cond);
        symrt::check(comp == Component::from(c), c"component");
    }
    let rbe = x.rbe().map(&|c: &char| Component::from(SYMS.iter().position(|s| s == c).unwrap()));
    t.with_rbe(RbeStruct::from(rbe));
    let values: Vec<(K, V, Cx)> = (0..n).map(|i| (K(vkeys[i]), V(i as u8), Cx(0))).collect();
    let feasible = t.feasible_neighs(&values);
    let mut got = false;
    let mut failed = false;
    if let Ok(it) = t.matches(values) {
        for r in it {
            match r {
                Ok(p) => {
                    // the reader stops at the first error
                    if !failed {
                        let mut all = true;
                        for (v, r, _) in p.iter_vr() {
                            all &= (typing[r.0 as usize] >> v.0) & 1 == 1;
                        }
                        got |= all;
                    }
                }
                Err(_) => failed = true,
            }
        }
    }
    let l = x.lang3(nv as u64);
    let mut want = false;
    for a in 0..3usize.pow(n as u32) {
        let mut cnt = [0; 3];
        let mut ok = true;
        let mut a = a;
        let mut sym = true;
        for v in 0..n {
            let c = a % 3;
            a /= 3;
            ok = ok && keys[c] == vkeys[v];
            sym &= (masks[c] >> v) & 1 == 1;
            if refs && c > 0 {
                sym &= (typing[c] >> v) & 1 == 1;
            }
            cnt[c] += 1;
        }
        if ok {
            want |= sym & member3(&l, cnt, nv as u64);
        }
    }
    symrt::observe(got as u64);
    symrt::check(got == want, c"assignment");
    symrt::check(feasible | !want, c"feasible_neighs");
}
macro_rules! entries {
    ($($f:ident $k:literal $free:literal),*) => {
        $(#[unsafe(no_mangle)]
        pub extern "C" fn $f() {
            assignment($k, $free, 2, false)
        })*
    };
}
entries!(c05_and 0 2, c05_or 1 2, c05_andor 2 2, c05_star 3 1, c05_plus 4 1, c05_rep 5 0);
entries!(c05_and_x 0 3, c05_or_x 1 3, c05_andor_x 2 3, c05_star_x 3 3, c05_plus_x 4 3, c05_rep_x 5 2);
#[unsafe(no_mangle)]
pub extern "C" fn c05_refs() {
    assignment(symrt::pick(c"body", 3), 1, 2, true)
}
#[unsafe(no_mangle)]
pub extern "C" fn c05_refs_x() {
    assignment(symrt::pick(c"body", 4), 2, 2, true)
}
#[unsafe(no_mangle)]
pub extern "C" fn c05_three() {
    assignment(symrt::pick(c"body", 3), 1, 3, false)
}
