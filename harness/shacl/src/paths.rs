//! C21: the value nodes of a property path.
use crate::mk::*;
use mockrdf::T;
use rudof_rdf::rdf_core::term::Object;
use rudof_rdf::rdf_core::term::literal::ConcreteLiteral;
use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};

/// nodes: an IRI, a blank node, another IRI, a literal (which is never a subject)
const N: usize = 4;
fn nodes() -> [Object; N] {
    [iri("a"), Object::BlankNode("b".to_string()), iri("c"), Object::literal(ConcreteLiteral::str("l"))]
}
/// row i: the nodes related to node i, as bits
type Rel = [u64; N];

fn bit(m: u64, i: usize) -> u64 {
    (m >> i) & 1
}
fn mask(b: u64) -> u64 {
    0u64.wrapping_sub(b)
}
fn compose(a: &Rel, b: &Rel) -> Rel {
    let mut r = [0; N];
    for i in 0..N {
        for k in 0..N {
            r[i] |= mask(bit(a[i], k)) & b[k];
        }
    }
    r
}
fn union(a: &Rel, b: &Rel) -> Rel {
    let mut r = [0; N];
    for i in 0..N {
        r[i] = a[i] | b[i];
    }
    r
}
fn id() -> Rel {
    [1, 2, 4, 8]
}
fn inverse(a: &Rel) -> Rel {
    let mut r = [0; N];
    for i in 0..N {
        for k in 0..N {
            r[i] |= bit(a[k], i) << k;
        }
    }
    r
}
fn star(a: &Rel) -> Rel {
    let mut r = union(&id(), a);
    // paths of up to 4 steps reach everything among 4 nodes
    r = compose(&r, &r);
    compose(&r, &r)
}
fn relation(p: &SHACLPath, base: &[Rel; 2]) -> Rel {
    match p {
        SHACLPath::Predicate { pred } => base[(pred.as_str().as_bytes()[9] - b'p') as usize],
        SHACLPath::Alternative { paths } => paths.iter().fold([0; N], |r, p| union(&r, &relation(p, base))),
        SHACLPath::Sequence { paths } => paths.iter().fold(id(), |r, p| compose(&r, &relation(p, base))),
        SHACLPath::Inverse { path } => inverse(&relation(path, base)),
        SHACLPath::ZeroOrMore { path } => star(&relation(path, base)),
        SHACLPath::OneOrMore { path } => {
            let r = relation(path, base);
            compose(&r, &star(&r))
        }
        SHACLPath::ZeroOrOne { path } => union(&id(), &relation(path, base)),
    }
}
fn unary(k: usize, p: SHACLPath) -> SHACLPath {
    match k {
        0 => SHACLPath::inverse(p),
        1 => SHACLPath::zero_or_more(p),
        2 => SHACLPath::one_or_more(p),
        _ => SHACLPath::zero_or_one(p),
    }
}
fn binary(k: usize, p: SHACLPath, q: SHACLPath) -> SHACLPath {
    match k {
        0 => SHACLPath::sequence(vec![p, q]),
        _ => SHACLPath::alternative(vec![p, q]),
    }
}
fn pred(k: usize) -> SHACLPath {
    SHACLPath::iri(ns(["p", "q"][k]))
}
fn path(depth: usize, preds: u32) -> SHACLPath {
    if depth == 0 {
        return pred(symrt::pick(c"pred", preds));
    }
    match symrt::pick(c"op", 7) {
        0 => pred(symrt::pick(c"pred", preds)),
        k @ 1..=4 => unary(k - 1, path(depth - 1, preds)),
        k => binary(k - 5, path(depth - 1, preds), path(depth - 1, preds)),
    }
}
/// every graph over the first `iris` resources and (if `lit`) the literal
fn graph(preds: usize, nodes: &[Object], live: &[usize]) -> (P, [Rel; 2]) {
    let mut g = P::default();
    let mut base = [[0; N]; 2];
    for (p, rel) in base.iter_mut().enumerate().take(preds) {
        for &i in live {
            if i == 3 {
                continue;
            }
            for &k in live {
                let b = symrt::bool(c"triple");
                g.add(&nodes[i], &ns(["p", "q"][p]), &nodes[k], b);
                rel[i] |= (b as u64) << k;
            }
        }
    }
    (g, base)
}
fn run(p: SHACLPath, preds: usize, live: &[usize]) {
    symrt::no_fmt(true);
    let nodes = nodes();
    let (g, base) = graph(preds, &nodes, live);
    let from = live[symrt::pick(c"from", live.len() as u32)];
    let Ok(out) = g.objects_for_shacl_path(&T(nodes[from].clone()), &p) else {
        symrt::check(false, c"no-error");
        return;
    };
    let mut got = 0;
    for t in &out {
        for (i, n) in nodes.iter().enumerate() {
            if t.0 == *n {
                got |= 1 << i;
            }
        }
    }
    let want = relation(&p, &base)[from];
    symrt::check(got == want, c"path-values");
    symrt::observe(got);
}
#[unsafe(no_mangle)]
pub extern "C" fn c21_one() {
    run(path(1, 2), 2, &[0, 1, 3])
}
#[unsafe(no_mangle)]
pub extern "C" fn c21_nested() {
    run(path(2, 1), 1, &[0, 1, 3])
}
#[unsafe(no_mangle)]
pub extern "C" fn c21_nested2() {
    run(path(2, 2), 2, &[0, 1, 3])
}
/// longer chains and cycles: closures over three resources and a literal
#[unsafe(no_mangle)]
pub extern "C" fn c21_closure() {
    let k = symrt::pick(c"closure", 4);
    let p = unary(k, pred(0));
    let p = match symrt::pick(c"wrap", 3) {
        0 => p,
        1 => SHACLPath::inverse(p),
        _ => binary(0, pred(0), p),
    };
    run(p, 1, &[0, 1, 2, 3])
}
#[unsafe(no_mangle)]
pub extern "C" fn c21_deep() {
    run(path(3, 1), 1, &[0, 1])
}
#[unsafe(no_mangle)]
pub extern "C" fn c21_deep_x() {
    run(path(3, 1), 1, &[0, 1, 3])
}
#[unsafe(no_mangle)]
pub extern "C" fn c21_closure_x() {
    let k = symrt::pick(c"closure", 4);
    let p = binary(symrt::pick(c"bin", 2), pred(0), pred(1));
    run(unary(k, p), 2, &[0, 1, 2])
}
