//! C22: the results of each constraint component.
use crate::mk::*;
use prefixmap::IriRef;
use rudof_rdf::rdf_core::term::Object;
use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang};
use shacl::ast::ASTComponent as C;
use shacl::types::{NodeKind, Value};
use std::collections::HashSet;

fn p(s: &str) -> IriRef {
    IriRef::iri(ns(s))
}
fn mask(b: u64) -> u64 {
    0u64.wrapping_sub(b)
}
fn focus() -> Object {
    match symrt::pick(c"focus", 3) {
        0 => iri("f"),
        1 => bnode("f"),
        _ => str_lit("f"),
    }
}
fn is_lit(o: &Object) -> bool {
    matches!(o, Object::Literal(_))
}
/// adds s p o for each value, each present or not
fn values(g: &mut P, s: &Object, pred: &str, vs: &[Object]) -> Vec<u64> {
    vs.iter()
        .map(|v| {
            let b = symrt::bool(c"present") & !is_lit(s);
            g.add(s, &ns(pred), v, b);
            b as u64
        })
        .collect()
}
/// one value, on the focus node of a node shape or as the value of a property
fn one(c: C, name: &str, v: Object, bad: bool) {
    let mut g = P::default();
    let (sh, f) = match symrt::pick(c"position", 2) {
        0 => (node_shape("S", vec![c], &[]), v.clone()),
        _ => {
            g.add(&iri("f"), &ns("p"), &v, true);
            (prop_shape("S", "p", vec![c], &[]), iri("f"))
        }
    };
    let s = schema(vec![sh]);
    let rs = results(&s, "S", &g, &mut *engine(), &f);
    exactly(&rs, name, &f, &[v], &[bad as u64], 0);
    only(&rs, &[name]);
    symrt::observe(bad as u64);
}

#[unsafe(no_mangle)]
pub extern "C" fn c22_counts() {
    let (min, max) = (symrt::u64(c"min"), symrt::u64(c"max"));
    symrt::assume((min >> 63 == 0) & (max >> 63 == 0));
    let f = focus();
    let mut g = P::default();
    let vs = [iri("v"), bnode("w"), str_lit("x"), typed("1", "integer")];
    let n: u64 = values(&mut g, &f, "p", &vs).iter().sum();
    g.add(&f, &ns("q"), &iri("v"), true);
    let s = schema(vec![prop_shape("S", "p", vec![C::MinCount(min as isize), C::MaxCount(max as isize)], &[])]);
    let rs = results(&s, "S", &g, &mut *engine(), &f);
    exactly(&rs, "MinCount", &f, &[], &[], (n < min) as u64);
    exactly(&rs, "MaxCount", &f, &[], &[], (n > max) as u64);
    only(&rs, &["MinCount", "MaxCount"]);
}
#[unsafe(no_mangle)]
pub extern "C" fn c22_kind() {
    let k = symrt::pick(c"value", 3);
    let v = [iri("v"), bnode("v"), str_lit("v")][k].clone();
    let (kind, ok) = match symrt::pick(c"kind", 6) {
        0 => (NodeKind::Iri, k == 0),
        1 => (NodeKind::BNode, k == 1),
        2 => (NodeKind::Lit, k == 2),
        3 => (NodeKind::BNodeOrIri, k != 2),
        4 => (NodeKind::BNodeOrLit, k != 0),
        _ => (NodeKind::IriOrLit, k != 1),
    };
    one(C::NodeKind(kind), "NodeKind", v, !ok);
}
const DTS: [&str; 4] = ["integer", "string", "boolean", "anyURI"];
#[unsafe(no_mangle)]
pub extern "C" fn c22_datatype() {
    let want = DTS[symrt::pick(c"datatype", 4)];
    let (v, ok) = match symrt::pick(c"value", 8) {
        0 => (iri("v"), false),
        1 => (bnode("v"), false),
        2 => (lang_lit("v", "en"), false),
        3 => (str_lit("v"), want == "string"),
        4 => (typed("v", "anyURI"), want == "anyURI"),
        // the value was found ill-typed when it was read
        5 => {
            let d = DTS[symrt::pick(c"ill-typed", 4)];
            let l = ConcreteLiteral::WrongDatatypeLiteral { lexical_form: "?".to_string(), datatype: xsd(d), error: String::new() };
            (Object::Literal(l), false)
        }
        6 => (Object::Literal(ConcreteLiteral::integer(symrt::u64(c"n") as i64 as i128)), want == "integer"),
        _ => (Object::Literal(ConcreteLiteral::boolean(symrt::bool(c"b"))), want == "boolean"),
    };
    one(C::Datatype(xsd(want)), "Datatype", v, !ok);
}
/// min/max in/exclusive with symbolic bounds; other terms are not comparable
#[unsafe(no_mangle)]
pub extern "C" fn c22_range() {
    symrt::no_fmt(true);
    let (a, b) = (symrt::u64(c"value") as i64, symrt::u64(c"bound") as i64);
    let (v, n) = match symrt::pick(c"kind", 5) {
        0 => (iri("v"), false),
        1 => (bnode("v"), false),
        2 => (str_lit("5"), false),
        3 => (lang_lit("5", "en"), false),
        _ => (Object::Literal(ConcreteLiteral::integer(a as i128)), true),
    };
    let l = ConcreteLiteral::integer(b as i128);
    let (c, name, ok) = match symrt::pick(c"component", 4) {
        0 => (C::MinInclusive(l), "MinInclusive", a >= b),
        1 => (C::MinExclusive(l), "MinExclusive", a > b),
        2 => (C::MaxInclusive(l), "MaxInclusive", a <= b),
        _ => (C::MaxExclusive(l), "MaxExclusive", a < b),
    };
    one(c, name, v, !(ok & n));
}
#[unsafe(no_mangle)]
pub extern "C" fn c22_length() {
    let limit = symrt::u64(c"limit");
    symrt::assume(limit >> 63 == 0);
    let k = symrt::pick(c"len", 4);
    // "é": two bytes, one character
    let t = ["ab\u{e9}", "\u{e9}"][symrt::pick(c"wide", 2)].chars().cycle().take(k).collect::<String>();
    let (v, n) = match symrt::pick(c"kind", 4) {
        0 => (Object::iri(r(&["u:", &t].concat())), k as u64 + 2),
        1 => (bnode(&["b", &t].concat()), u64::MAX),
        2 => (str_lit(&t), k as u64),
        _ => (lang_lit(&t, "en"), k as u64),
    };
    let bn = n == u64::MAX;
    match symrt::pick(c"component", 2) {
        0 => one(C::MinLength(limit as isize), "MinLength", v, bn | (n < limit)),
        _ => one(C::MaxLength(limit as isize), "MaxLength", v, bn | (n > limit)),
    }
}
const TAGS: [&str; 7] = ["en", "EN-us", "fr", "en-GB", "fr-be", "ens", "e-n"];
fn tag() -> &'static str {
    TAGS[symrt::pick(c"tag", 6)]
}
/// language ranges: basic filtering of RFC 4647
fn in_range(t: &str, l: &str) -> bool {
    let (t, l) = (t.to_ascii_lowercase(), l.to_ascii_lowercase());
    t == l || t.starts_with(&[l.as_str(), "-"].concat())
}
#[unsafe(no_mangle)]
pub extern "C" fn c22_language_in() {
    let n = symrt::pick(c"ranges", 3);
    let ls: Vec<&str> = (0..n).map(|_| tag()).collect();
    let (v, t) = match symrt::pick(c"kind", 4) {
        0 => (iri("v"), None),
        1 => (bnode("v"), None),
        2 => (str_lit("v"), None),
        _ => {
            let t = tag();
            (lang_lit("v", t), Some(t))
        }
    };
    let ok = t.is_some_and(|t| ls.iter().any(|l| in_range(t, l)));
    let ls = ls.iter().filter_map(|l| Lang::new(*l).ok()).collect();
    one(C::LanguageIn(ls), "LanguageIn", v, !ok);
}
/// one result for each language used by several values
#[unsafe(no_mangle)]
pub extern "C" fn c22_unique_lang() {
    let (f, mut g) = (iri("f"), P::default());
    let mut vs = vec![str_lit("v"), str_lit("w")];
    let tags = ["en", "EN", "fr", "en-us"];
    let mut of = vec![4, 4];
    for i in 0..4 {
        let k = symrt::pick(c"tag", 4);
        vs.push(lang_lit(["a", "b", "c", "d"][i], tags[k]));
        of.push(if k == 1 { 0 } else { k });
    }
    let on = values(&mut g, &f, "p", &vs);
    let mut uses = [0u64; 5];
    for i in 0..vs.len() {
        uses[of[i]] += on[i];
    }
    let want: u64 = uses[..4].iter().map(|n| (*n > 1) as u64).sum();
    let active = symrt::concrete(symrt::bool(c"active") as u64) == 1;
    let s = schema(vec![prop_shape("S", "p", vec![C::UniqueLang(active)], &[])]);
    let rs = results(&s, "S", &g, &mut *engine(), &f);
    exactly(&rs, "UniqueLang", &f, &[], &[], want * active as u64);
    only(&rs, &["UniqueLang"]);
}
/// equals and disjoint, of a node and of the values of a property
#[unsafe(no_mangle)]
pub extern "C" fn c22_pairs() {
    let (f, mut g) = (focus(), P::default());
    let vs = [f.clone(), iri("v"), str_lit("v"), bnode("w")];
    let node = symrt::pick(c"node", 2) == 0;
    let a = if node { vec![1, 0, 0, 0] } else { values(&mut g, &f, "p", &vs) };
    let b = values(&mut g, &f, "q", &vs);
    let equals = symrt::pick(c"equals", 2) == 0;
    let c = if equals { C::Equals(p("q")) } else { C::Disjoint(p("q")) };
    let s = schema(vec![if node { node_shape("S", vec![c], &[]) } else { prop_shape("S", "p", vec![c], &[]) }]);
    let rs = results(&s, "S", &g, &mut *engine(), &f);
    let name = if equals { "Equals" } else { "Disjoint" };
    let want: Vec<u64> = (0..4).map(|i| if equals { a[i] ^ b[i] } else { a[i] & b[i] }).collect();
    exactly(&rs, name, &f, &vs, &want, 0);
    only(&rs, &[name]);
}
/// lessThan(OrEquals): a result for each pair out of order or not comparable
#[unsafe(no_mangle)]
pub extern "C" fn c22_less() {
    symrt::no_fmt(true);
    let (f, mut g) = (focus(), P::default());
    let n: Vec<i64> = (0..3).map(|_| symrt::u64(c"n") as i64).collect();
    symrt::assume((n[0] != n[1]) & (n[1] != n[2]) & (n[0] != n[2]));
    let o = |i: usize| Object::Literal(ConcreteLiteral::integer(n[i] as i128));
    // v[3] is not comparable to numbers nor to itself, v[4] to anything but texts
    let vs = [o(0), o(1), o(2), iri("v"), str_lit("v")];
    let a = values(&mut g, &f, "p", &[vs[0].clone(), vs[1].clone(), vs[3].clone()]);
    let b = values(&mut g, &f, "q", &[vs[0].clone(), vs[2].clone(), vs[3].clone(), vs[4].clone()]);
    let or_equals = symrt::pick(c"or_equals", 2) == 0;
    let s = schema(vec![prop_shape("S", "p", vec![if or_equals { C::LessThanOrEquals(p("q")) } else { C::LessThan(p("q")) }], &[])]);
    let rs = results(&s, "S", &g, &mut *engine(), &f);
    let less = |x: i64, y: i64| (x < y) | (or_equals & (x == y));
    let of = |x: i64| b[0] * !less(x, n[0]) as u64 + b[1] * !less(x, n[2]) as u64 + b[2] + b[3];
    let want = [a[0] * of(n[0]), a[1] * of(n[1]), 0, a[2] * (b[0] + b[1] + b[2] + b[3]), 0];
    let name = if or_equals { "LessThanOrEquals" } else { "LessThan" };
    exactly(&rs, name, &f, &vs, &want, 0);
    only(&rs, &[name]);
}
#[unsafe(no_mangle)]
pub extern "C" fn c22_closed() {
    let (f, mut g) = (focus(), P::default());
    let vs = [iri("v"), str_lit("v"), f.clone()];
    let preds = ["p", "q", "r"];
    let on: Vec<Vec<u64>> = preds.iter().map(|q| values(&mut g, &f, q, &vs[..if *q == "r" { 3 } else { 1 }])).collect();
    // which predicates are defined by a property shape, and which ones are ignored
    let d = symrt::pick(c"defined", 8);
    let i = symrt::pick(c"ignored", 8);
    let closed = symrt::pick(c"closed", 2) == 1;
    let ignored: HashSet<_> = (0..3).filter(|k| i >> k & 1 == 1).map(|k| ns(preds[k])).collect();
    let names = ["P0", "P1", "P2"];
    let defs: Vec<&str> = (0..3).filter(|k| d >> k & 1 == 1).map(|k| names[k]).collect();
    let mut shapes = vec![node_shape("S", vec![C::Closed { is_closed: closed, ignored_properties: ignored }], &defs)];
    for k in 0..3 {
        shapes.push(prop_shape(names[k], preds[k], vec![], &[]));
    }
    let s = schema(shapes);
    let rs = results(&s, "S", &g, &mut *engine(), &f);
    let mut want = [0; 3];
    for k in 0..3 {
        if closed && (d | i) >> k & 1 == 0 {
            for (j, b) in on[k].iter().enumerate() {
                want[j] += b;
            }
        }
    }
    exactly(&rs, "Closed", &f, &vs, &want, 0);
    only(&rs, &["Closed"]);
}
fn value(o: &Object) -> Value {
    match o {
        Object::Iri(i) => Value::Iri(IriRef::iri(i.clone())),
        Object::Literal(l) => Value::Literal(l.clone()),
        _ => symrt::prune(),
    }
}
/// hasValue and in: the term itself, not an equal value
#[unsafe(no_mangle)]
pub extern "C" fn c22_members() {
    let (f, mut g) = (iri("f"), P::default());
    let vs = [iri("v"), typed("1", "integer"), typed("01", "integer"), str_lit("1"), lang_lit("1", "en"), iri("w")];
    let on = values(&mut g, &f, "p", &vs);
    if symrt::pick(c"component", 2) == 0 {
        let k = symrt::pick(c"value", 6);
        let s = schema(vec![prop_shape("S", "p", vec![C::HasValue(value(&vs[k]))], &[])]);
        let rs = results(&s, "S", &g, &mut *engine(), &f);
        exactly(&rs, "HasValue", &f, &[], &[], 1 - on[k]);
        only(&rs, &["HasValue"]);
    } else {
        let n = symrt::pick(c"n", 3);
        let list: Vec<usize> = (0..n).map(|_| symrt::pick(c"member", 6)).collect();
        let s = schema(vec![prop_shape("S", "p", vec![C::In(list.iter().map(|k| value(&vs[*k])).collect())], &[])]);
        let rs = results(&s, "S", &g, &mut *engine(), &f);
        let want: Vec<u64> = (0..6).map(|k| if list.contains(&k) { 0 } else { on[k] }).collect();
        exactly(&rs, "In", &f, &vs, &want, 0);
        only(&rs, &["In"]);
    }
}
/// A node shape (or a property shape on q) whose verdict for values 0 and 1 is any function
fn atom(name: &str, vs: &[Object], g: &mut P) -> ((Object, shacl::ast::ASTShape), u64) {
    let m = symrt::pick(c"conforming", 4);
    if symrt::pick(c"by", 2) == 0 {
        let l = (0..2).filter(|k| m >> k & 1 == 1).map(|k| value(&vs[k])).collect();
        (node_shape(name, vec![C::In(l)], &[]), m as u64)
    } else {
        for k in 0..2 {
            if m >> k & 1 == 1 {
                g.add(&vs[k], &ns(name), &iri("x"), true);
            }
        }
        (prop_shape(name, name, vec![C::MinCount(1)], &[]), m as u64)
    }
}
fn logic(name: &str, op: usize, args: &[&str], ms: &[u64]) -> ((Object, shacl::ast::ASTShape), u64, &'static str) {
    let objs: Vec<Object> = args.iter().map(|a| iri(a)).collect();
    let (c, m, n) = match op {
        0 => (C::And(objs), ms.iter().fold(3, |a, b| a & b), "And"),
        1 => (C::Or(objs), ms.iter().fold(0, |a, b| a | b), "Or"),
        2 => {
            let mut one = 0;
            for v in 0..2 {
                one |= ((ms.iter().map(|m| m >> v & 1).sum::<u64>() == 1) as u64) << v;
            }
            (C::Xone(objs), one, "Xone")
        }
        3 => (C::Not(objs[0].clone()), !ms[0] & 3, "Not"),
        _ => (C::Node(objs[0].clone()), ms[0], "Node"),
    };
    (node_shape(name, vec![c], &[]), m, n)
}
fn logical(top: usize, inner: usize) {
    let (f, mut g) = (iri("f"), P::default());
    let vs = [iri("v"), iri("w")];
    let on = values(&mut g, &f, "p", &vs);
    let (a, ma) = atom("A", &vs, &mut g);
    let (b, mb) = atom("B", &vs, &mut g);
    let (i, mi, _) = logic("I", inner, &["A", "B"], &[ma, mb]);
    let (c, mc) = atom("C", &vs, &mut g);
    let (t, mt, name) = logic("T", top, &["I", "C", "A"], &[mi, mc, ma]);
    let shacl::ast::ASTShape::NodeShape(t) = t.1 else { symrt::prune() };
    let s = schema(vec![a, b, c, i, prop_shape("T", "p", t.components().clone(), &[])]);
    let rs = results(&s, "T", &g, &mut *engine(), &f);
    exactly(&rs, name, &f, &vs, &[on[0] & !mt, on[1] & (!mt >> 1)], 0);
    only(&rs, &[name]);
}
#[unsafe(no_mangle)]
pub extern "C" fn c22_logic() {
    let (f, mut g) = (iri("f"), P::default());
    let vs = [iri("v"), iri("w")];
    let on = values(&mut g, &f, "p", &vs);
    let (a, ma) = atom("A", &vs, &mut g);
    let (b, mb) = atom("B", &vs, &mut g);
    let n = symrt::pick(c"args", 2);
    let (args, ms) = if n == 0 { (vec!["A", "B"], vec![ma, mb]) } else { (vec!["B", "A", "A"], vec![mb, ma, ma]) };
    let (t, mt, name) = logic("T", symrt::pick(c"op", 5), &args, &ms);
    let shacl::ast::ASTShape::NodeShape(t) = t.1 else { symrt::prune() };
    let s = schema(vec![a, b, prop_shape("T", "p", t.components().clone(), &[])]);
    let rs = results(&s, "T", &g, &mut *engine(), &f);
    exactly(&rs, name, &f, &vs, &[on[0] & !mt, on[1] & (!mt >> 1)], 0);
    only(&rs, &[name]);
}
#[unsafe(no_mangle)]
pub extern "C" fn c22_logic2() {
    logical(symrt::pick(c"op", 5), symrt::pick(c"inner", 5))
}
/// qualified counts, with and without disjoint siblings
#[unsafe(no_mangle)]
pub extern "C" fn c22_qualified() {
    let (f, mut g) = (iri("f"), P::default());
    let vs = [iri("v"), iri("w"), bnode("x")];
    let on = values(&mut g, &f, "p", &vs);
    let (a, b) = (symrt::pick(c"conforming", 8), symrt::pick(c"sibling", 8));
    let disjoint = symrt::pick(c"disjoint", 2) == 1;
    for k in 0..3 {
        g.add(&vs[k], &ns("a"), &iri("y"), a >> k & 1 == 1);
        g.add(&vs[k], &ns("b"), &iri("y"), b >> k & 1 == 1);
    }
    let (min, max) = (symrt::u64(c"min"), symrt::u64(c"max"));
    symrt::assume((min >> 63 == 0) & (max >> 63 == 0));
    let (has_min, has_max) = match symrt::pick(c"limits", 3) {
        0 => (true, false),
        1 => (false, true),
        _ => (true, true),
    };
    let q = C::QualifiedValueShape {
        shape: iri("A"),
        q_min_count: has_min.then_some(min as isize),
        q_max_count: has_max.then_some(max as isize),
        disjoint: Some(disjoint),
        siblings: if disjoint { vec![iri("B")] } else { vec![] },
    };
    let s = schema(vec![
        prop_shape("S", "p", vec![q], &[]),
        prop_shape("A", "a", vec![C::MinCount(1)], &[]),
        prop_shape("B", "b", vec![C::MinCount(1)], &[]),
    ]);
    let rs = results(&s, "S", &g, &mut *engine(), &f);
    let n: u64 = (0..3).map(|k| on[k] & (a >> k & 1) as u64 & !(disjoint as u64 & (b >> k) as u64)).sum();
    exactly(&rs, "QualifiedMinCount", &f, &[], &[], (has_min & (n < min)) as u64);
    exactly(&rs, "QualifiedMaxCount", &f, &[], &[], (has_max & (n > max)) as u64);
    only(&rs, &["QualifiedMinCount", "QualifiedMaxCount"]);
}
/// a property shape inside a node or property shape: its focus nodes are the value nodes
#[unsafe(no_mangle)]
pub extern "C" fn c22_nested() {
    let (f, mut g) = (iri("f"), P::default());
    let vs = [iri("v"), bnode("w"), f.clone()];
    let on = values(&mut g, &f, "p", &vs);
    let by_node = symrt::pick(c"node", 2) == 0;
    let inactive = symrt::pick(c"inactive", 2) == 1;
    let mut n = [0; 3];
    for k in 0..3 {
        n[k] = values(&mut g, &vs[k], "q", &[str_lit("y"), iri("z")]).iter().sum();
    }
    let min = symrt::u64(c"min") & 3;
    let mut cs = vec![C::MinCount(min as isize)];
    if inactive {
        cs.push(C::Deactivated(true));
    }
    let top = if by_node { node_shape("S", vec![], &["Q"]) } else { prop_shape("S", "p", vec![], &["Q"]) };
    let s = schema(vec![top, prop_shape("Q", "q", cs, &[])]);
    let rs = results(&s, "S", &g, &mut *engine(), &f);
    only(&rs, &["MinCount"]);
    let Some(rs) = rs else {
        symrt::check(false, c"no-error");
        return;
    };
    for k in 0..3 {
        let got = rs.iter().filter(|x| *x.focus_node() == vs[k]).count() as u64;
        let reached = if by_node { (k == 2) as u64 } else { on[k] };
        symrt::check(got == reached & !(inactive as u64) & (n[k] < min) as u64, c"nested-results");
    }
    symrt::check(rs.iter().all(|x| vs.contains(x.focus_node())), c"nested-focus");
}
fn class_graph(n: usize, x: &Object, same: usize) -> (P, Vec<Object>, u64) {
    let mut g = P::default();
    let cs: Vec<Object> = (0..n).map(|k| iri(["C0", "C1", "C2", "C3"][k])).collect();
    let t = r("http://www.w3.org/1999/02/22-rdf-syntax-ns#type");
    let sub = r("http://www.w3.org/2000/01/rdf-schema#subClassOf");
    let mut types = 0;
    for k in 0..n {
        let b = symrt::bool(c"type") & !is_lit(x);
        g.add(x, &t, &cs[k], b);
        types |= (b as u64) << k;
    }
    let mut sup = vec![0u64; n];
    for i in 0..n {
        for k in 0..n {
            if i != k {
                let b = symrt::bool(c"subclass");
                g.add(&cs[i], &sub, &cs[k], b);
                sup[i] |= (b as u64) << k;
            }
        }
    }
    for _ in 1..n {
        for k in 0..n {
            types |= mask(types >> k & 1) & sup[k];
        }
    }
    let _ = same;
    (g, cs, types)
}
pub fn classes(n: usize, x: &Object) -> (P, Vec<Object>, u64) {
    class_graph(n, x, 0)
}
/// class: instances of the class and of its subclasses, at any distance
#[unsafe(no_mangle)]
pub extern "C" fn c22_class() {
    let x = focus();
    let (g, cs, types) = classes(3, &x);
    let s = schema(vec![node_shape("S", vec![C::Class(cs[0].clone())], &[])]);
    let rs = results(&s, "S", &g, &mut *engine(), &x);
    exactly(&rs, "Class", &x, &[x.clone()], &[1 - (types & 1)], 0);
    only(&rs, &["Class"]);
}
