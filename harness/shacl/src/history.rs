//! C23: the verdict on a node and a shape does not depend on what was validated before.
//! C31: nor on how the tasks of a parallel validation interleave.
//! C24: the focus nodes of a target.
use crate::components::classes;
use crate::mk::*;
use mockrdf::T;
use rudof_rdf::rdf_core::term::Object;
use shacl::ast::ASTComponent as C;
use shacl::error::ValidationError;
use shacl::ir::IRSchema;
use shacl::types::Target;
use shacl::validator::ShaclValidationMode;
use shacl::validator::engine::{Engine, NativeEngine, Validate};
use shacl::validator::nodes::FocusNodes;
use shacl::validator::processor::ShaclProcessor;
use shacl::validator::report::ValidationResult;

fn same(a: &ValidationResult, b: &ValidationResult) -> bool {
    a.focus_node() == b.focus_node()
        && a.constraint_component() == b.constraint_component()
        && a.value() == b.value()
        && a.source() == b.source()
        && a.path() == b.path()
}
/// same results, as multisets
fn equal(a: &[ValidationResult], b: &[ValidationResult]) -> bool {
    let mut left: Vec<&ValidationResult> = b.iter().collect();
    for x in a {
        match left.iter().position(|y| same(x, y)) {
            Some(k) => {
                left.swap_remove(k);
            }
            None => return false,
        }
    }
    left.is_empty()
}
/// graph: p between f and v, v and w; q from each node
fn graph(nodes: &[Object], small: bool) -> P {
    let mut g = P::default();
    let n = nodes.len();
    for i in 0..n {
        for k in 0..n {
            if i != k || !small {
                g.add(&nodes[i], &ns("p"), &nodes[k], symrt::bool(c"p"));
            }
        }
        g.add(&nodes[i], &ns("q"), &str_lit("1"), symrt::bool(c"q"));
    }
    g
}
/// shapes that reach others in different ways
fn shapes(kind: usize) -> (Shapes, Vec<&'static str>) {
    let q = |n: &str| prop_shape(n, "q", vec![C::MinCount(1)], &[]);
    match kind {
        // a property shape inside a property shape, and used by other shapes
        0 => (
            vec![
                q("Q"),
                prop_shape("PP", "p", vec![], &["Q"]),
                node_shape("A", vec![C::Node(iri("PP"))], &[]),
                node_shape("N", vec![C::Not(iri("PP"))], &[]),
                node_shape("O", vec![C::Or(vec![iri("N"), iri("PP")])], &[]),
            ],
            vec!["PP", "A", "N", "O"],
        ),
        // shapes that share a node shape
        1 => (
            vec![
                q("Q"),
                node_shape("B", vec![], &["Q"]),
                prop_shape("R", "p", vec![C::Node(iri("B"))], &[]),
                node_shape("A", vec![C::And(vec![iri("B"), iri("R")])], &["R"]),
                node_shape("X", vec![C::Xone(vec![iri("B"), iri("R")])], &[]),
            ],
            vec!["B", "R", "A", "X"],
        ),
        // counts of nodes that conform
        _ => (
            vec![
                q("Q"),
                prop_shape("PP", "p", vec![], &["Q"]),
                prop_shape(
                    "V",
                    "p",
                    vec![C::QualifiedValueShape {
                        shape: iri("PP"),
                        q_min_count: Some(1),
                        q_max_count: Some(1),
                        disjoint: Some(true),
                        siblings: vec![iri("Q")],
                    }],
                    &[],
                ),
                node_shape("W", vec![], &["V", "PP"]),
            ],
            vec!["Q", "PP", "V", "W"],
        ),
    }
}
fn requests(n: usize, nodes: &[Object]) {
    let g = graph(nodes, nodes.len() > 2);
    let (shapes, names) = shapes(symrt::pick(c"schema", 3));
    let s = schema(shapes);
    let mut e = engine();
    for _ in 0..n {
        let name = names[symrt::pick(c"shape", names.len() as u32)];
        let k = symrt::pick(c"focus", nodes.len() as u32 + 1);
        let focus: Vec<&Object> = if k == nodes.len() { nodes.iter().collect() } else { vec![&nodes[k]] };
        let sh = shape(&s, name);
        let set: FocusNodes<P> = focus.iter().map(|x| T((*x).clone())).collect();
        let Ok(got) = sh.validate(&g, &mut *e, Some(&set), Some(sh), &s) else {
            symrt::check(false, c"no-error");
            return;
        };
        // each node on its own, nothing remembered
        let mut want = vec![];
        for x in focus {
            match results(&s, name, &g, &mut *engine(), x) {
                Some(r) => want.extend(r),
                None => symrt::check(false, c"no-error"),
            }
        }
        symrt::check(equal(&got, &want), c"same-results");
        symrt::observe(got.len() as u64);
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c23_two() {
    requests(2, &[iri("v"), bnode("w")])
}
#[unsafe(no_mangle)]
pub extern "C" fn c23_three() {
    requests(3, &[iri("v"), bnode("w")])
}
#[unsafe(no_mangle)]
pub extern "C" fn c23_nodes() {
    requests(2, &[iri("v"), bnode("w"), iri("x")])
}

struct Proc(P);
impl ShaclProcessor<P> for Proc {
    fn store(&self) -> &P {
        &self.0
    }
    fn runner(_: &ShaclValidationMode) -> Box<dyn Engine<P>> {
        Box::new(NativeEngine::new())
    }
}
fn with_targets(shapes: Shapes, targets: &[(&str, Vec<Target>)]) -> Shapes {
    use shacl::ast::ASTShape as A;
    shapes
        .into_iter()
        .map(|(id, s)| {
            let t = targets.iter().find(|t| iri(t.0) == id).map(|t| t.1.clone()).unwrap_or_default();
            let s = match s {
                A::NodeShape(n) => A::NodeShape(Box::new((*n).with_targets(t))),
                A::PropertyShape(p) => A::PropertyShape(Box::new((*p).with_targets(t))),
            };
            (id, s)
        })
        .collect()
}
/// the report against the results of each shape with targets on each of its focus nodes
fn report(s: &IRSchema, g: &P, wanted: Vec<(&str, Vec<Object>)>) {
    let mut want = vec![];
    for (name, nodes) in wanted {
        for x in nodes {
            match results(s, name, g, &mut *engine(), &x) {
                Some(r) => want.extend(r),
                None => symrt::check(false, c"no-error"),
            }
        }
    }
    match Proc(g.clone()).validate(s, &ShaclValidationMode::Native) {
        Ok(r) => {
            symrt::check(equal(r.results(), &want), c"same-report");
            symrt::check(r.conforms() == want.is_empty(), c"conforms");
            symrt::observe(r.results().len() as u64);
        }
        Err(_) => symrt::check(false, c"no-error"),
    }
}
fn node_targets(nodes: &[Object]) -> Vec<Target> {
    nodes.iter().map(|n| Target::Node(n.clone())).collect()
}
fn whole(nodes: &[Object], kinds: u32, racing: bool) {
    let g = graph(nodes, nodes.len() > 2);
    let (shapes, names) = shapes(symrt::pick(c"schema", kinds));
    // every shape has some targets, or none
    let mut targets = vec![];
    let mut wanted = vec![];
    for n in names {
        let m = symrt::pick(c"targets", 3);
        let f: Vec<Object> = match m {
            0 => vec![],
            1 => vec![nodes[0].clone()],
            _ => nodes.to_vec(),
        };
        targets.push((n, node_targets(&f)));
        wanted.push((n, f));
    }
    let s = schema(with_targets(shapes, &targets));
    rayon::schedules(racing);
    report(&s, &g, wanted);
    rayon::schedules(false);
}
/// whole reports: shapes with targets that depend on each other
#[unsafe(no_mangle)]
pub extern "C" fn c23_report() {
    whole(&[iri("v"), iri("w")], 3, false)
}
/// two nodes, the shapes of two levels
#[unsafe(no_mangle)]
pub extern "C" fn c31_race() {
    let nodes = [iri("v"), iri("w")];
    let g = graph(&nodes, false);
    let (shapes, names) = shapes(symrt::pick(c"schema", 3));
    let picked = match symrt::pick(c"shapes", 3) {
        0 => [names[0], names[1]],
        1 => [names[1], names[2]],
        _ => [names[2], names[3]],
    };
    let targets: Vec<(&str, Vec<Target>)> = picked.iter().map(|n| (*n, node_targets(&nodes))).collect();
    let wanted = picked.iter().map(|n| (*n, nodes.to_vec())).collect();
    let s = schema(with_targets(shapes, &targets));
    rayon::schedules(true);
    report(&s, &g, wanted);
    rayon::schedules(false);
}
/// tasks of one level in any order, each seeing or missing what the others record meanwhile
#[unsafe(no_mangle)]
pub extern "C" fn c31_one() {
    let g = graph(&[iri("v")], false);
    race(g, 3, &[iri("v")]);
}
fn race(g: P, kinds: u32, nodes: &[Object]) {
    let (shapes, names) = shapes(symrt::pick(c"schema", kinds));
    let targets: Vec<(&str, Vec<Target>)> = names.iter().map(|n| (*n, node_targets(nodes))).collect();
    let wanted = names.iter().map(|n| (*n, nodes.to_vec())).collect();
    let s = schema(with_targets(shapes, &targets));
    rayon::schedules(true);
    report(&s, &g, wanted);
    rayon::schedules(false);
}
/// independent shapes that share sub-shapes: all in one level
#[unsafe(no_mangle)]
pub extern "C" fn c31_level() {
    rayon::schedules(true);
    level(&[iri("v")]);
}
/// the same, tasks interrupting each other at every access to the shared cache
#[unsafe(no_mangle)]
pub extern "C" fn c31_interrupt() {
    rayon::preempt(true);
    level(&[iri("v")]);
}
#[unsafe(no_mangle)]
pub extern "C" fn c31_interrupt_x() {
    rayon::preempt(true);
    level(&[iri("v"), iri("w")]);
}
fn level(nodes: &[Object]) {
    let g = graph(&[iri("v"), iri("w")], false);
    let shapes = vec![
        prop_shape("Q", "q", vec![C::MinCount(1)], &[]),
        prop_shape("PP", "p", vec![], &["Q"]),
        node_shape("A", vec![C::Node(iri("PP"))], &[]),
        node_shape("N", vec![C::Not(iri("PP"))], &[]),
        node_shape("O", vec![C::Or(vec![iri("Q"), iri("PP")])], &[]),
    ];
    let names = match symrt::pick(c"shapes", 4) {
        0 => vec!["A", "N"],
        1 => vec!["A", "O"],
        2 => vec!["N", "O"],
        _ => vec!["A", "N", "O"],
    };
    let targets: Vec<(&str, Vec<Target>)> = names.iter().map(|n| (*n, node_targets(nodes))).collect();
    let wanted = names.iter().map(|n| (*n, nodes.to_vec())).collect();
    let s = schema(with_targets(shapes, &targets));
    report(&s, &g, wanted);
    rayon::schedules(false);
    rayon::preempt(false);
}

/// the targets of a class: instances of it and of its subclasses; with and without the class index
fn focus(g: &P, targets: &[Target]) -> Vec<Object> {
    let mut e = engine();
    if symrt::pick(c"index", 2) == 1 && e.build_indexes(g).is_err() {
        symrt::check(false, c"no-error");
    }
    match e.focus_nodes(g, targets) {
        Ok(f) => f.iter().map(|t| t.0.clone()).collect(),
        Err(_) => {
            symrt::check(false, c"no-error");
            vec![]
        }
    }
}
fn selects(got: &[Object], nodes: &[Object], want: &[u64]) {
    for (n, w) in nodes.iter().zip(want) {
        symrt::check(got.iter().filter(|x| *x == n).count() as u64 == *w, c"selected");
    }
    symrt::check(got.iter().all(|x| nodes.contains(x)), c"only-nodes-of-the-graph");
    symrt::observe(got.len() as u64);
}
fn class_targets(n: usize, x: Object) {
    let (g, cs, types) = classes(n, &x);
    let t = match symrt::pick(c"target", 2) {
        0 => Target::Class(cs[0].clone()),
        _ => Target::ImplicitClass(cs[0].clone()),
    };
    let got = focus(&g, &[t]);
    let want = [types & 1];
    selects(&got, &[x], &want);
}
#[unsafe(no_mangle)]
pub extern "C" fn c24_class() {
    let x = if symrt::pick(c"node", 2) == 0 { iri("x") } else { bnode("x") };
    class_targets(3, x)
}
#[unsafe(no_mangle)]
pub extern "C" fn c24_class_x() {
    class_targets(4, iri("x"))
}
/// node, subjectsOf and objectsOf targets, alone and together
#[unsafe(no_mangle)]
pub extern "C" fn c24_nodes() {
    let nodes = [iri("v"), bnode("w"), str_lit("x"), iri("y")];
    let mut g = P::default();
    let (mut subj, mut obj) = ([[0u64; 4]; 2], [[0u64; 4]; 2]);
    for (p, name) in ["p", "q"].iter().enumerate() {
        for i in 0..2 {
            for k in 0..3 {
                if (i + k + p) % 2 == 0 {
                    continue;
                }
                let b = symrt::bool(c"triple");
                g.add(&nodes[i], &ns(name), &nodes[k], b);
                subj[p][i] |= b as u64;
                obj[p][k] |= b as u64;
            }
        }
    }
    let n = symrt::pick(c"targets", 3);
    let mut want = [0u64; 4];
    let mut ts = vec![];
    for _ in 0..n {
        let p = symrt::pick(c"predicate", 2);
        match symrt::pick(c"kind", 3) {
            0 => {
                let k = [0, 2, 3][symrt::pick(c"node", 3)];
                want[k] = 1;
                ts.push(Target::Node(nodes[k].clone()));
            }
            1 => {
                (0..4).for_each(|i| want[i] |= subj[p][i]);
                ts.push(Target::SubjectsOf(ns(["p", "q"][p])));
            }
            _ => {
                (0..4).for_each(|i| want[i] |= obj[p][i]);
                ts.push(Target::ObjectsOf(ns(["p", "q"][p])));
            }
        }
    }
    selects(&focus(&g, &ts), &nodes, &want);
}
/// the shapes of a report are validated on the nodes of their targets
#[unsafe(no_mangle)]
pub extern "C" fn c24_report() {
    let x = iri("x");
    let (mut g, cs, types) = classes(2, &x);
    let q = symrt::bool(c"q");
    g.add(&x, &ns("q"), &iri("z"), q);
    let targets = [
        ("A", vec![Target::Class(cs[0].clone())]),
        ("B", vec![Target::SubjectsOf(ns("q"))]),
        ("C1", vec![Target::ImplicitClass(cs[1].clone())]),
        ("D", vec![]),
    ];
    let c = || vec![C::In(vec![])];
    let s = vec![node_shape("A", c(), &[]), node_shape("B", c(), &[]), node_shape("C1", c(), &[]), node_shape("D", c(), &[])];
    let s = schema(with_targets(s, &targets));
    match Proc(g.clone()).validate(&s, &ShaclValidationMode::Native) {
        Ok(r) => {
            for (name, want) in [("A", types & 1), ("B", q as u64), ("C1", types >> 1 & 1), ("D", 0)] {
                let n = r.results().iter().filter(|v| v.source() == Some(&iri(name))).count() as u64;
                symrt::check(n == want, c"results-of-shape");
            }
            symrt::check(r.results().iter().all(|v| *v.focus_node() == x), c"focus-nodes");
            symrt::check(r.conforms() == r.results().is_empty(), c"conforms");
        }
        Err(_) => symrt::check(false, c"no-error"),
    }
}
