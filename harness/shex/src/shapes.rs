//! C14: shapes (triple expressions, cardinalities, EXTRA, CLOSED, inverse constraints) against a
//! direct reading of the specification.
use crate::mk::*;
use mockrdf::{G, I, S, T, Tr};
use rudof_rdf::rdf_core::term::IriOrBlankNode;
use rudof_rdf::rdf_core::term::Object;
use rudof_rdf::rdf_core::term::literal::ConcreteLiteral;
use shex_ast::NodeConstraint;
use shex_ast::ast::{ObjectValue, ShapeExpr, TripleExpr, ValueSetValue};

/// a triple of the focus node: predicate number, value (an integer, or a node by its number), incoming?
#[derive(Clone)]
pub struct Arc {
    pub p: usize,
    pub v: i128,
    pub node: Option<usize>,
    pub inv: bool,
}
/// what a triple constraint asks of the value
#[derive(Clone)]
pub enum Val {
    Any,
    Int(i128),
    Ref(usize),
    NotRef(usize),
    /// the values whose bit is set
    Mask(u8),
}
#[derive(Clone)]
pub enum E {
    /// predicate, value, inverse, min, max (<0: unbounded)
    Tc(usize, Val, bool, i32, i32),
    Each(Vec<E>, i32, i32),
    One(Vec<E>, i32, i32),
}
pub const P: [&str; 3] = ["p", "q", "r"];

fn value(v: i128) -> ShapeExpr {
    let l = ConcreteLiteral::integer(v);
    ShapeExpr::node_constraint(NodeConstraint::new().with_values(vec![ValueSetValue::object_value(ObjectValue::literal(l))]))
}
pub const LABELS: [&str; 3] = ["S", "T", "U"];
fn value_expr(v: &Val) -> Option<ShapeExpr> {
    match v {
        Val::Any => None,
        Val::Int(v) => Some(value(*v)),
        Val::Ref(s) => Some(sref(LABELS[*s])),
        Val::NotRef(s) => Some(ShapeExpr::shape_not(sref(LABELS[*s]))),
        Val::Mask(_) => symrt::prune(),
    }
}
/// truth of a reference: shape, node
pub type Truth<'a> = &'a dyn Fn(usize, usize) -> bool;
/// None for a cardinality of one, as the parsers produce it
fn cards(te: TripleExpr, min: i32, max: i32, absent: bool) -> TripleExpr {
    if absent { te } else { te.with_min(Some(min)).with_max(Some(max)) }
}
pub fn ast(e: &E, absent: bool) -> TripleExpr {
    match e {
        E::Tc(p, v, inv, m, n) => cards(
            TripleExpr::triple_constraint(None, if *inv { Some(true) } else { None }, r(P[*p]), value_expr(v), None, None),
            *m,
            *n,
            absent && *m == 1 && *n == 1,
        ),
        E::Each(es, m, n) => cards(TripleExpr::each_of(es.iter().map(|e| ast(e, absent)).collect()), *m, *n, absent && *m == 1 && *n == 1),
        E::One(es, m, n) => cards(TripleExpr::one_of(es.iter().map(|e| ast(e, absent)).collect()), *m, *n, absent && *m == 1 && *n == 1),
    }
}
fn fits(a: &Arc, p: usize, v: &Val, inv: bool, t: Truth) -> bool {
    if a.p != p || a.inv != inv {
        return false;
    }
    match v {
        Val::Any => true,
        Val::Int(v) => a.node.is_none() && *v == a.v,
        Val::Ref(s) => match a.node {
            Some(n) => t(*s, n),
            None => symrt::prune(),
        },
        Val::NotRef(s) => match a.node {
            Some(n) => !t(*s, n),
            None => symrt::prune(),
        },
        Val::Mask(m) => (m >> a.v) & 1 == 1,
    }
}
/// does the triple match some constraint of the expression?
fn some(e: &E, a: &Arc, t: Truth) -> bool {
    match e {
        E::Tc(p, v, inv, ..) => fits(a, *p, v, *inv, t),
        E::Each(es, ..) | E::One(es, ..) => es.iter().fold(false, |r, e| r | some(e, a, t)),
    }
}
fn mentions(e: &E, p: usize, inv: bool) -> bool {
    match e {
        E::Tc(q, _, i, ..) => *q == p && *i == inv,
        E::Each(es, ..) | E::One(es, ..) => es.iter().any(|e| mentions(e, p, inv)),
    }
}
/// for each subset of the triples: does it match e?
pub fn table(e: &E, arcs: &[Arc], truth: Truth) -> Vec<bool> {
    let n = 1usize << arcs.len();
    let (base, m, x) = match e {
        E::Tc(p, v, inv, m, x) => {
            let mut t = vec![false; n];
            for (i, a) in arcs.iter().enumerate() {
                t[1 << i] = fits(a, *p, v, *inv, truth);
            }
            (t, *m, *x)
        }
        E::Each(es, m, x) => {
            let mut t = vec![false; n];
            t[0] = true;
            for e in es {
                let f = table(e, arcs, truth);
                let mut u = vec![false; n];
                for s in 0..n {
                    for k in 0..n {
                        if k & s == k {
                            u[s] |= t[k] & f[s & !k];
                        }
                    }
                }
                t = u;
            }
            (t, *m, *x)
        }
        E::One(es, m, x) => {
            let mut t = vec![false; n];
            for e in es {
                let f = table(e, arcs, truth);
                for s in 0..n {
                    t[s] |= f[s];
                }
            }
            (t, *m, *x)
        }
    };
    // k parts that match base, for k in m..=x; parts may be empty when base allows it
    let mut parts = vec![false; n];
    parts[0] = true;
    let mut out = vec![false; n];
    for k in 0..=arcs.len() {
        let fit = (k as i32 <= x) | (x < 0);
        let low = (k as i32 >= m) | base[0];
        for s in 0..n {
            out[s] |= parts[s] & fit & low & ((x < 0) | (m <= x));
        }
        let mut next = vec![false; n];
        for s in 0..n {
            for j in 1..n {
                if j & s == j {
                    next[s] |= base[j] & parts[s & !j];
                }
            }
        }
        parts = next;
    }
    out
}
/// the shape's verdict for a focus node with these arcs, by the specification
pub fn conforms(e: Option<&E>, extra: [bool; 3], closed: bool, arcs: &[Arc], truth: Truth) -> bool {
    let Some(e) = e else {
        return !(closed && arcs.iter().any(|a| !a.inv));
    };
    let t = table(e, arcs, truth);
    let mut ok = true;
    let mut want = vec![false; arcs.len()];
    for (i, a) in arcs.iter().enumerate() {
        want[i] = some(e, a, truth);
        if a.inv {
            continue;
        }
        if mentions(e, a.p, false) {
            ok &= want[i] | extra[a.p];
        } else {
            ok &= !closed;
        }
    }
    // the triples that match some constraint are the ones to distribute
    let mut dist = false;
    for s in 0..t.len() {
        let mut this = t[s];
        for i in 0..arcs.len() {
            this &= want[i] == (s >> i & 1 == 1);
        }
        dist |= this;
    }
    ok & dist
}
pub fn graph(arcs: &[Arc]) -> G {
    let mut g = G::default();
    for a in arcs {
        if a.inv {
            // incoming arcs come from distinct nodes
            g.0.push(Tr(S(IriOrBlankNode::Iri(ns(["s0", "s1", "s2", "s3"][g.0.len()]))), I(ns(P[a.p])), T(iri("x"))));
        } else {
            g.add(&ns("x"), &ns(P[a.p]), int(a.v));
        }
    }
    // triples about other nodes do not count
    g.add(&ns("z"), &ns("p"), int(1));
    g
}
/// `k` outgoing triples over the predicates, distinct, values in 0..3
pub fn arcs(k: usize, preds: u32) -> Vec<Arc> {
    let mut v: Vec<Arc> = vec![];
    for _ in 0..k {
        let a = Arc { p: symrt::pick(c"pred", preds), v: symrt::choice(c"value", 3) as i128, node: None, inv: false };
        for b in &v {
            symrt::assume(!(a.p == b.p) | (a.v != b.v));
        }
        v.push(a);
    }
    v
}
pub fn card(name: &core::ffi::CStr) -> (i32, i32) {
    let m = symrt::u32(name) as i32;
    let n = symrt::u32(name) as i32;
    symrt::assume((m >= 0) & ((n == -1) | (n >= m)));
    (m, n)
}
fn decide(e: Option<E>, extra: [bool; 3], closed: bool, arcs: Vec<Arc>) {
    // EXTRA naming a predicate the expression does not mention: rudof lets CLOSED shapes have it, not asserted
    if let Some(e) = &e {
        symrt::assume(!closed | !extra[0] | mentions(e, 0, false));
    } else {
        symrt::assume(!closed | !extra[0]);
    }
    let absent = match &e {
        Some(E::Tc(..)) | None => symrt::pick(c"absent", 2) == 1,
        _ => true,
    };
    let want = conforms(e.as_ref(), extra, closed, &arcs, &|_, _| false);
    let ex: Vec<&str> = (0..3).filter(|i| extra[*i]).map(|i| P[i]).collect();
    let s = schema(vec![("S", shape(closed, &ex, e.as_ref().map(|e| ast(e, absent))))]);
    match verdict(s, &graph(&arcs), iri("x"), "S") {
        Some(v) => symrt::check(v == want, c"verdict"),
        None => symrt::check(false, c"no-verdict"),
    }
    symrt::observe(want as u64);
}
fn flags() -> ([bool; 3], bool) {
    let x = symrt::pick(c"extra", 2) == 1;
    ([x, false, false], symrt::pick(c"closed", 2) == 1)
}
fn val(name: &core::ffi::CStr) -> Val {
    if symrt::pick(c"any_value", 2) == 1 { Val::Any } else { Val::Int(symrt::choice(name, 3) as i128) }
}
fn one(k: u32) {
    symrt::no_fmt(false);
    let n = symrt::pick(c"triples", k + 1);
    let a = arcs(n, 2);
    let (m, x) = card(c"card");
    let (extra, closed) = flags();
    decide(Some(E::Tc(0, val(c"required"), false, m, x)), extra, closed, a)
}
#[unsafe(no_mangle)]
pub extern "C" fn c14_one() {
    one(2)
}
#[unsafe(no_mangle)]
pub extern "C" fn c14_one_x() {
    one(3)
}
/// forms over two or three constraints; cardinalities (c0, c1, cg) are symbolic where given
fn form(f: usize, q: usize, c0: (i32, i32), c1: (i32, i32), cg: (i32, i32)) -> E {
    let t0 = E::Tc(0, val(c"required0"), false, c0.0, c0.1);
    let t1 = E::Tc(q, val(c"required1"), false, c1.0, c1.1);
    match f {
        0 => E::Each(vec![t0, t1], cg.0, cg.1),
        1 => E::One(vec![t0, t1], cg.0, cg.1),
        2 => E::Each(vec![t0, E::One(vec![t1, E::Tc(1, Val::Any, false, 1, 1)], cg.0, cg.1)], 1, 1),
        _ => E::One(vec![t0, E::Each(vec![t1, E::Tc(1, Val::Any, false, 1, 1)], cg.0, cg.1)], 1, 1),
    }
}
fn two(first: usize, forms: u32, k: u32, which: u32, q: usize) {
    symrt::no_fmt(true);
    let n = symrt::pick(c"triples", k + 1);
    let a = arcs(n, 3);
    let f = first + symrt::pick(c"form", forms);
    let w = symrt::pick(c"symbolic", which);
    let s = card(c"card");
    let o = (1, 1);
    let e = match w {
        0 => form(f, q, s, o, o),
        1 => form(f, q, o, o, s),
        2 => form(f, q, o, s, o),
        3 => form(f, q, (0, 1), s, o),
        _ => form(f, q, (0, 1), o, s),
    };
    let (extra, closed) = flags();
    decide(Some(e), extra, closed, a)
}
#[unsafe(no_mangle)]
pub extern "C" fn c14_same_pred() {
    two(0, 2, 2, 2, 0)
}
#[unsafe(no_mangle)]
pub extern "C" fn c14_two_preds() {
    two(0, 2, 2, 2, 1)
}
#[unsafe(no_mangle)]
pub extern "C" fn c14_nested() {
    two(2, 2, 2, 2, 0)
}
#[unsafe(no_mangle)]
pub extern "C" fn c14_same_pred_x() {
    two(0, 2, 3, 5, 0)
}
#[unsafe(no_mangle)]
pub extern "C" fn c14_two_preds_x() {
    two(0, 2, 3, 5, 1)
}
#[unsafe(no_mangle)]
pub extern "C" fn c14_nested_x() {
    two(2, 2, 3, 5, 0)
}
/// shapes without expression, open and closed
#[unsafe(no_mangle)]
pub extern "C" fn c14_empty() {
    let n = symrt::pick(c"triples", 3);
    let a = arcs(n, 2);
    let (extra, closed) = flags();
    decide(None, extra, closed, a)
}
/// inverse constraints look at incoming triples; CLOSED and EXTRA do not
#[unsafe(no_mangle)]
pub extern "C" fn c14_inverse() {
    symrt::no_fmt(true);
    let n = symrt::pick(c"triples", 4);
    let mut a = vec![];
    for i in 0..n {
        let inv = symrt::pick(c"incoming", 2) == 1;
        a.push(Arc { p: symrt::pick(c"pred", 2), v: i as i128, node: None, inv });
    }
    let (m, x) = card(c"card");
    let t = E::Tc(0, Val::Any, true, m, x);
    let e = match symrt::pick(c"form", 3) {
        0 => t,
        1 => E::Each(vec![t, E::Tc(0, Val::Any, false, 0, 1)], 1, 1),
        _ => E::One(vec![t, E::Tc(1, Val::Any, false, 1, 1)], 1, 1),
    };
    let (extra, closed) = flags();
    decide(Some(e), extra, closed, a)
}
