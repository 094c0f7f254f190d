//! C17: how a neighbourhood is split among the expressions of extended shapes.
use crate::mk::*;
use crate::shapes::*;
use ::rbe::match_cond::MatchKind;
use ::rbe::rbe_struct::RbeStruct;
use ::rbe::{Component, Context, Key, MatchCond, Max, Pending, RbeError, RbeTable, Ref, SingleCond, Value};
use serde::Serialize;
use shex_ast::ast::{Shape, ShapeExpr, ShapeExprLabel};
use shex_validation::{KPartitionIteratorMultiPredicate, class_partitions_iter, partitions_iter};
use std::collections::HashMap;
use std::fmt;

/// all the ways to send each item to a class that allows it: one code (base k) per way
fn ways(allowed: &[Vec<bool>], k: usize) -> Vec<(usize, bool)> {
    let n = allowed.len();
    (0..k.pow(n as u32))
        .map(|code| {
            let mut c = code;
            let mut ok = true;
            for a in allowed {
                ok &= a[c % k];
                c /= k;
            }
            (code, ok)
        })
        .collect()
}

/// the plain enumeration: every distribution that respects the filters, none twice
fn plain(n: usize, k: usize) {
    symrt::no_fmt(true);
    // bit c of masks[i]: class c takes item i
    let masks: Vec<u8> = (0..n).map(|_| symrt::choice(c"classes", 1 << k) as u8).collect();
    let masks: &'static [u8] = Vec::leak(masks);
    let preds: Vec<_> = (0..k).map(|c| move |s: &Vec<u8>| s.iter().all(|i| (masks[*i as usize] >> c) & 1 == 1)).collect();
    let mut seen = vec![0u8; k.pow(n as u32)];
    let mut total = 0;
    for part in KPartitionIteratorMultiPredicate::new((0..n as u8).collect(), preds) {
        total += 1;
        symrt::check(part.len() == k, c"one-group-per-class");
        // items no class takes are left out
        let mut code = 0;
        for i in 0..n as u8 {
            let mut times = 0;
            for (c, g) in part.iter().enumerate() {
                for x in g {
                    if *x == i {
                        times += 1;
                        code += c * k.pow(i as u32);
                        symrt::check((masks[i as usize] >> c) & 1 == 1, c"filter");
                    }
                }
            }
            symrt::check((times == 1) | ((times == 0) & (masks[i as usize] == 0)), c"each-item-once");
        }
        seen[code] += 1;
        symrt::check(seen[code] == 1, c"none-twice");
    }
    let mut want = 1;
    for m in masks {
        let c = m.count_ones();
        want *= if c == 0 { 1 } else { c };
    }
    symrt::observe(total);
    symrt::check(total == want as u64, c"complete");
}
#[unsafe(no_mangle)]
pub extern "C" fn c17_plain() {
    plain(symrt::pick(c"items", 4), 1 + symrt::pick(c"classes", 3))
}
#[unsafe(no_mangle)]
pub extern "C" fn c17_plain_x() {
    plain(symrt::pick(c"items", 5), 1 + symrt::pick(c"classes", 3))
}

macro_rules! id {
    ($n:ident, $t:ident) => {
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, Serialize)]
        struct $n(u8);
        impl $t for $n {}
        impl fmt::Display for $n {
            fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
                Ok(())
            }
        }
    };
}
id!(K, Key);
id!(W, Value);
id!(R, Ref);
id!(Cx, Context);
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize)]
struct Kind(u8);
impl MatchKind<K, W, R, Cx> for Kind {
    fn eval(&self, v: &W, _: &Cx) -> Result<Pending<K, W, R>, RbeError<K, W, R, Cx, Self>> {
        if (self.0 >> v.0) & 1 == 1 { Ok(Pending::empty()) } else { Err(RbeError::RangeNegativeLowerBound { min: 0 }) }
    }
}
type Table = RbeTable<K, W, R, Cx, Kind>;

fn tables(e: &E, t: &mut Table) -> RbeStruct<Component> {
    match e {
        E::Tc(p, Val::Mask(m), _, lo, hi) => {
            let c = t.add_component(K(*p as u8), &MatchCond::single(SingleCond::new().with_kind(Kind(*m))));
            RbeStruct::symbol(c, *lo as usize, if *hi < 0 { Max::Unbounded } else { Max::IntMax(*hi as usize) })
        }
        E::Each(es, ..) => RbeStruct::and(es.iter().map(|e| tables(e, t)).collect::<Vec<_>>()),
        E::One(es, ..) => RbeStruct::or(es.iter().map(|e| tables(e, t)).collect::<Vec<_>>()),
        _ => symrt::prune(),
    }
}
fn table_of(e: &E) -> Table {
    let mut t = Table::new();
    let s = tables(e, &mut t);
    t.with_rbe(s);
    t
}
fn keys(e: &E, k: usize) -> bool {
    match e {
        E::Tc(p, ..) => *p == k,
        E::Each(es, ..) | E::One(es, ..) => es.iter().any(|e| keys(e, k)),
    }
}
/// with(out) symbolic conditions and cardinality
fn constraint(p: usize, n: usize, free: bool) -> E {
    let (lo, hi) = if free { card(c"card") } else { (symrt::pick(c"min", 2) as i32, 1) };
    E::Tc(p, Val::Mask(symrt::choice(c"mask", 1 << n) as u8), false, lo, hi)
}
fn bucket(form: usize, n: usize, free: bool) -> E {
    match form {
        0 => constraint(0, n, free),
        1 => E::Each(vec![constraint(0, n, free), constraint(1, n, false)], 1, 1),
        2 => E::One(vec![constraint(0, n, free), constraint(1, n, false)], 1, 1),
        _ => E::Each(vec![constraint(1, n, false), constraint(1, n, free)], 1, 1),
    }
}
/// the pruned enumeration yields no split twice, only splits of the plain one, and every split in
/// which each class matches
fn class(buckets: Vec<E>, vkeys: Vec<usize>) {
    symrt::no_fmt(true);
    let (n, k) = (vkeys.len(), buckets.len());
    let mut exprs: HashMap<u8, Vec<Table>> = HashMap::new();
    for (i, b) in buckets.iter().enumerate() {
        exprs.insert(i as u8, vec![table_of(b)]);
    }
    let values: Vec<(K, W, Cx)> = vkeys.iter().enumerate().map(|(i, k)| (K(*k as u8), W(i as u8), Cx(0))).collect();
    let arcs: Vec<Arc> = vkeys.iter().enumerate().map(|(i, k)| Arc { p: *k, v: i as i128, node: None, inv: false }).collect();
    // values no class mentions stay out
    let live: Vec<usize> = (0..n).filter(|i| buckets.iter().any(|b| keys(b, vkeys[*i]))).collect();
    let allowed: Vec<Vec<bool>> = live.iter().map(|i| buckets.iter().map(|b| keys(b, vkeys[*i])).collect()).collect();
    let all = ways(&allowed, k);
    for pruned in [true, false] {
        let mut seen = vec![0u8; k.pow(live.len() as u32)];
        let mut one = |part: Vec<(u8, Vec<Table>, Vec<(K, W, Cx)>)>| {
            symrt::check(part.len() == k, c"one-group-per-class");
            let mut code = 0;
            let mut count = 0;
            for (l, _, vs) in &part {
                for (key, v, _) in vs {
                    count += 1;
                    symrt::check(key.0 as usize == vkeys[v.0 as usize], c"value-keeps-key");
                    match live.iter().position(|i| *i == v.0 as usize) {
                        Some(pos) => code += *l as usize * k.pow(pos as u32),
                        None => symrt::check(false, c"unmentioned-value"),
                    }
                }
            }
            symrt::check(count == live.len(), c"each-item-once");
            symrt::check(all[code].1, c"filter");
            seen[code] += 1;
            symrt::check(seen[code] == 1, c"none-twice");
        };
        if pruned {
            for p in class_partitions_iter(&values, &exprs) {
                one(p);
            }
        } else {
            for p in partitions_iter(&values, &exprs) {
                one(p);
            }
        }
        let langs: Vec<Vec<bool>> = buckets.iter().map(|b| table(b, &arcs, &|_, _| false)).collect();
        for (code, ok) in &all {
            if !*ok {
                continue;
            }
            if pruned {
                let mut m = true;
                for (b, l) in langs.iter().enumerate() {
                    let mut set = 0;
                    let mut c = *code;
                    for i in &live {
                        if c % k == b {
                            set |= 1 << i;
                        }
                        c /= k;
                    }
                    m &= l[set];
                }
                symrt::check(!m | (seen[*code] == 1), c"no-match-lost");
            } else {
                symrt::check(seen[*code] == 1, c"complete");
            }
        }
    }
    symrt::observe(live.len() as u64);
}
fn vkeys(max: usize, keys: u32) -> Vec<usize> {
    let n = symrt::pick(c"values", max as u32 + 1);
    let mut v: Vec<usize> = vec![];
    for _ in 0..n {
        let k = symrt::pick(c"key", keys);
        v.push(k);
    }
    v
}
#[unsafe(no_mangle)]
pub extern "C" fn c17_two() {
    let v = vkeys(2, 3);
    let a = bucket(symrt::pick(c"form", 4), v.len(), true);
    let b = bucket(symrt::pick(c"form", 4), v.len(), false);
    class(vec![a, b], v)
}
#[unsafe(no_mangle)]
pub extern "C" fn c17_three() {
    let v = vkeys(2, 2);
    let a = bucket(symrt::pick(c"form", 3), v.len(), false);
    let b = bucket(0, v.len(), true);
    let c = bucket(symrt::pick(c"form", 2), v.len(), false);
    class(vec![a, b, c], v)
}
#[unsafe(no_mangle)]
pub extern "C" fn c17_two_x() {
    let v = vkeys(3, 2);
    let a = bucket(symrt::pick(c"form", 4), v.len(), true);
    let b = bucket(symrt::pick(c"form", 4), v.len(), false);
    class(vec![a, b], v)
}
/// several values that may go to several classes
#[unsafe(no_mangle)]
pub extern "C" fn c17_many() {
    let n = symrt::pick(c"values", 4);
    let m = (1u32 << n) as usize;
    let t = |p: usize| {
        let (lo, hi) = card(c"card");
        E::Tc(p, Val::Mask((m - 1) as u8), false, lo, hi)
    };
    let k = 1 + symrt::pick(c"classes", 3);
    class((0..k).map(|_| t(0)).collect(), vec![0; n])
}

fn ext(of: &[&str], e: &E) -> ShapeExpr {
    let s = Shape::new(None, None, Some(ast(e, true)));
    let s = if of.is_empty() { s } else { s.with_extends(Some(of.iter().map(|l| ShapeExprLabel::iri_ref(r(l))).collect())) };
    ShapeExpr::shape(s)
}
/// a shape and the shapes it extends (all of them): some split of the triples of mentioned predicates must match
fn extends(parents: &[&[usize]], es: Vec<E>, arcs: Vec<Arc>) {
    symrt::no_fmt(true);
    let shapes = es.iter().enumerate().map(|(i, e)| (LABELS[i], ext(&parents[i].iter().map(|p| LABELS[*p]).collect::<Vec<_>>(), e))).collect();
    let n = arcs.len();
    let used: Vec<usize> = (0..n).filter(|i| es.iter().any(|e| keys(e, arcs[*i].p))).collect();
    let k = es.len();
    let langs: Vec<Vec<bool>> = es.iter().map(|b| table(b, &arcs, &|_, _| false)).collect();
    let mut want = false;
    for code in 0..k.pow(used.len() as u32) {
        let mut m = true;
        for (b, l) in langs.iter().enumerate() {
            let mut set = 0;
            let mut c = code;
            for i in &used {
                if c % k == b {
                    set |= 1 << i;
                }
                c /= k;
            }
            m &= l[set];
        }
        want |= m;
    }
    match verdict(schema(shapes), &graph(&arcs), iri("x"), "S") {
        Some(v) => symrt::check(v == want, c"verdict"),
        None => symrt::check(false, c"no-verdict"),
    }
    symrt::observe(want as u64);
}
fn val(free: bool) -> Val {
    if !free || symrt::pick(c"any_value", 2) == 1 { Val::Any } else { Val::Int(symrt::choice(c"required", 2) as i128) }
}
fn two_values(k: usize, preds: u32) -> Vec<Arc> {
    let v = arcs(symrt::pick(c"triples", k as u32 + 1), preds);
    for a in &v {
        symrt::assume(a.v < 2);
    }
    v
}
/// a shape extending one other
#[unsafe(no_mangle)]
pub extern "C" fn c17_extends() {
    let a = two_values(2, 3);
    let (m, x) = card(c"card");
    let (m2, x2) = if symrt::pick(c"free", 2) == 1 { card(c"card2") } else { (1, 1) };
    let own = E::Tc(0, val(true), false, m, x);
    let parent = match symrt::pick(c"form", 3) {
        0 => E::Tc(0, val(true), false, m2, x2),
        1 => E::Each(vec![E::Tc(0, val(true), false, m2, x2), E::Tc(1, Val::Any, false, 0, 1)], 1, 1),
        _ => E::One(vec![E::Tc(0, val(true), false, m2, x2), E::Tc(1, Val::Any, false, 1, 1)], 1, 1),
    };
    extends(&[&[1], &[]], vec![own, parent], a)
}
/// a chain of three, or two parents
#[unsafe(no_mangle)]
pub extern "C" fn c17_extends_three() {
    let a = two_values(2, 2);
    let (m, x) = card(c"card");
    let w = symrt::pick(c"free", 3);
    let c = |i: usize| if i == w { (m, x) } else { (1, 1) };
    let es = (0..3)
        .map(|i| {
            let (m, x) = c(i);
            E::Tc(if i == 2 { symrt::pick(c"pred2", 2) } else { 0 }, val(true), false, m, x)
        })
        .collect();
    let chain: [&[usize]; 3] = [&[1], &[2], &[]];
    let both: [&[usize]; 3] = [&[1, 2], &[], &[]];
    let diamond: [&[usize]; 3] = [&[1, 2], &[2], &[]];
    match symrt::pick(c"form", 3) {
        0 => extends(&chain, es, a),
        1 => extends(&both, es, a),
        _ => extends(&diamond, es, a),
    }
}
