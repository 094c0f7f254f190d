//! C15 (Boolean combinations, references, order) and C16 (recursive schemas).
use crate::mk::*;
use crate::shapes::{Arc, E, LABELS, P, Val, ast, card, conforms, graph};
use mockrdf::G;
use shex_ast::NodeConstraint;
use shex_ast::ast::{ObjectValue, ShapeExpr, ValueSetValue};
use shex_ast::shapemap::{NodeSelector, QueryShapeMap, ShapeSelector};

/// a shape expression over two atoms, and references to other shapes
#[derive(Clone)]
pub enum X {
    Atom(usize),
    Ref(usize),
    And(Vec<X>),
    Or(Vec<X>),
    Not(Box<X>),
}
/// atom 0: a shape whose cardinality decides; atom 1: a value set that holds the node or not
struct Atoms {
    card: (i32, i32),
    tail: u8,
}
impl Atoms {
    fn new() -> Self {
        let tail = symrt::u8(c"tail");
        symrt::assume((tail == b'x') | (tail == b'y'));
        Atoms { card: card(c"card"), tail }
    }
    /// x has one triple with p
    fn truth(&self, i: usize) -> bool {
        match i {
            0 => (self.card.0 <= 1) & ((self.card.1 < 0) | (self.card.1 >= 1)),
            _ => self.tail == b'x',
        }
    }
    fn expr(&self, i: usize) -> ShapeExpr {
        match i {
            0 => shape(false, &[], Some(tc("p", None, self.card.0, self.card.1))),
            _ => {
                let t = unsafe { String::from_utf8_unchecked(vec![self.tail]) };
                ShapeExpr::node_constraint(NodeConstraint::new().with_values(vec![ValueSetValue::object_value(ObjectValue::iri(ns(&t)))]))
            }
        }
    }
}
fn se(x: &X, a: &Atoms) -> ShapeExpr {
    match x {
        X::Atom(i) => a.expr(*i),
        X::Ref(s) => sref(LABELS[*s]),
        X::And(xs) => ShapeExpr::and(xs.iter().map(|x| se(x, a)).collect()),
        X::Or(xs) => ShapeExpr::or(xs.iter().map(|x| se(x, a)).collect()),
        X::Not(x) => ShapeExpr::shape_not(se(x, a)),
    }
}
fn truth(x: &X, a: &Atoms, defs: &[X]) -> bool {
    match x {
        X::Atom(i) => a.truth(*i),
        X::Ref(s) => truth(&defs[*s], a, defs),
        X::And(xs) => xs.iter().fold(true, |r, x| r & truth(x, a, defs)),
        X::Or(xs) => xs.iter().fold(false, |r, x| r | truth(x, a, defs)),
        X::Not(x) => !truth(x, a, defs),
    }
}
fn tree(depth: usize, refs: &[usize]) -> X {
    let leaves = 2 + refs.len();
    let ops = if depth == 0 { 0 } else { 3 };
    let k = symrt::pick(c"node", (leaves + ops) as u32);
    if k < 2 {
        return X::Atom(k);
    }
    if k < leaves {
        return X::Ref(refs[k - 2]);
    }
    match k - leaves {
        0 => X::And(vec![tree(depth - 1, refs), tree(depth - 1, refs)]),
        1 => X::Or(vec![tree(depth - 1, refs), tree(depth - 1, refs)]),
        _ => X::Not(Box::new(tree(depth - 1, refs))),
    }
}
fn one_arc() -> G {
    graph(&[Arc { p: 0, v: 1, node: None, inv: false }])
}
fn check(v: Option<bool>, want: bool) {
    match v {
        Some(v) => symrt::check(v == want, c"verdict"),
        None => symrt::check(false, c"no-verdict"),
    }
}
/// S = a tree of operators; T = a smaller one, reached by reference; each asked for in both orders
fn logic(depth: usize, tdepth: usize, refs: bool) {
    symrt::no_fmt(true);
    let a = Atoms::new();
    let s = tree(depth, if refs { &[1] } else { &[] });
    let mut defs = vec![s];
    if refs {
        defs.push(tree(tdepth, &[]));
    }
    let shapes = defs.iter().enumerate().map(|(i, x)| (LABELS[i], se(x, &a))).collect();
    let Some(mut v) = compile(schema(shapes)) else {
        symrt::check(false, c"compiles");
        return;
    };
    let want: Vec<bool> = defs.iter().map(|x| truth(x, &a, &defs)).collect();
    let g = one_arc();
    check(v.verdict(&g, iri("x"), "S"), want[0]);
    if refs {
        check(v.verdict(&g, iri("x"), "T"), want[1]);
    }
    symrt::observe(want[0] as u64);
}
#[unsafe(no_mangle)]
pub extern "C" fn c15_logic() {
    logic(2, 0, false)
}
#[unsafe(no_mangle)]
pub extern "C" fn c15_refs() {
    logic(1, 1, true)
}
#[unsafe(no_mangle)]
pub extern "C" fn c15_refs_x() {
    logic(2, 1, true)
}
/// three operands
#[unsafe(no_mangle)]
pub extern "C" fn c15_three() {
    symrt::no_fmt(true);
    let a = Atoms::new();
    let mut xs = vec![];
    for _ in 0..3 {
        xs.push(match symrt::pick(c"operand", 4) {
            k @ 0..2 => X::Atom(k),
            k => X::Not(Box::new(X::Atom(k - 2))),
        });
    }
    let x = if symrt::pick(c"op", 2) == 0 { X::And(xs) } else { X::Or(xs) };
    let want = truth(&x, &a, &[]);
    check(verdict(schema(vec![("S", se(&x, &a))]), &one_arc(), iri("x"), "S"), want);
}
/// references to a definition that comes later, or earlier; chains of references; negated ones
#[unsafe(no_mangle)]
pub extern "C" fn c15_chain() {
    symrt::no_fmt(true);
    let a = Atoms::new();
    let wrap = |x: X| match symrt::pick(c"wrap", 4) {
        0 => x,
        1 => X::Not(Box::new(x)),
        2 => X::And(vec![x, X::Atom(1)]),
        _ => X::Or(vec![X::Atom(1), x]),
    };
    let defs = vec![wrap(X::Ref(1)), wrap(X::Ref(2)), wrap(X::Atom(0))];
    let mut shapes: Vec<(&str, ShapeExpr)> = defs.iter().enumerate().map(|(i, x)| (LABELS[i], se(x, &a))).collect();
    if symrt::pick(c"reverse", 2) == 1 {
        shapes.reverse();
    }
    let Some(mut v) = compile(schema(shapes)) else {
        symrt::check(false, c"compiles");
        return;
    };
    let g = one_arc();
    for i in 0..3 {
        check(v.verdict(&g, iri("x"), LABELS[i]), truth(&defs[i], &a, &defs));
    }
}
/// a shape map with several associations, in any order, gives each its own verdict: nothing validated
/// earlier changes what follows
fn order(k: usize, nodes: usize) {
    symrt::no_fmt(true);
    // S: y-values conform to T; T: cardinality of q; U: not T
    let c = card(c"card");
    let d = card(c"card2");
    let defs: [ShapeExpr; 3] = [
        shape(false, &[], Some(tc("p", Some(sref("T")), d.0, d.1))),
        shape(false, &[], Some(tc("q", None, c.0, c.1))),
        ShapeExpr::shape_not(sref("T")),
    ];
    let shapes = LABELS.iter().copied().zip(defs).collect();
    let Some(v) = compile(schema(shapes)) else {
        symrt::check(false, c"compiles");
        return;
    };
    // x -p-> y ; x -q-> 1 ; y has 0..2 q values
    let mut g = G::default();
    g.add(&ns("x"), &ns("p"), iri("y"));
    g.add(&ns("x"), &ns("q"), int(1));
    let yq = symrt::pick(c"y_values", 3);
    for i in 0..yq {
        g.add(&ns("y"), &ns("q"), int(i as i128));
    }
    let within = |n: i32, c: (i32, i32)| (c.0 <= n) & ((c.1 < 0) | (c.1 >= n));
    let t = [within(1, c), within(yq as i32, c)];
    let s = [t[1] & within(1, d), within(0, d)];
    let want = |n: usize, sh: usize| match sh {
        0 => s[n],
        1 => t[n],
        _ => !t[n],
    };
    let mut sm = QueryShapeMap::new();
    let mut asked = vec![];
    for _ in 0..k {
        let n = symrt::pick(c"node", nodes as u32);
        let sh = symrt::pick(c"shape", 3);
        sm.add_association(
            NodeSelector::Node(ObjectValue::iri(ns(["x", "y"][n]))),
            &None,
            ShapeSelector::label(shex_ast::ast::ShapeExprLabel::iri_ref(r(LABELS[sh]))),
            &None,
        )
        .ok();
        asked.push((n, sh));
    }
    let Ok(res) = v.validator.validate_shapemap(&sm, &g, &v.ir, &None) else {
        symrt::check(false, c"no-verdict");
        return;
    };
    for (n, sh) in asked {
        let node = shex_ast::Node::new(iri(["x", "y"][n]));
        let l = shex_ast::ir::shape_label::ShapeLabel::iri(ns(LABELS[sh]));
        match res.get_info(&node, &l) {
            Some(i) => symrt::check((i.is_conformant() == want(n, sh)) & (i.is_non_conformant() != want(n, sh)), c"verdict"),
            None => symrt::check(false, c"no-verdict"),
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c15_order() {
    order(2, 2)
}
#[unsafe(no_mangle)]
pub extern "C" fn c15_order_x() {
    order(3, 2)
}

// ---- C16

struct Net {
    /// edges[i][j]: node i has a p-edge (or q-edge) to j
    p: Vec<Vec<bool>>,
    q: Vec<Vec<bool>>,
    /// r values
    r: Vec<Option<i128>>,
}
const N: [&str; 3] = ["x", "y", "z"];
impl Net {
    fn arcs(&self, i: usize) -> Vec<Arc> {
        let mut v = vec![];
        for (p, m) in [(0, &self.p), (1, &self.q)] {
            for (j, e) in m[i].iter().enumerate() {
                if *e {
                    v.push(Arc { p, v: 0, node: Some(j), inv: false });
                }
            }
        }
        if let Some(x) = self.r[i] {
            v.push(Arc { p: 2, v: x, node: None, inv: false });
        }
        v
    }
    fn graph(&self) -> G {
        let mut g = G::default();
        for i in 0..self.r.len() {
            for a in self.arcs(i) {
                g.add(&ns(N[i]), &ns(P[a.p]), match a.node { Some(j) => iri(N[j]), None => int(a.v) });
            }
        }
        g
    }
}
/// the greatest typing: what every (shape, node) pair says under the current one, until nothing changes
fn greatest(defs: &[Def], net: &Net) -> Vec<Vec<bool>> {
    let n = net.r.len();
    let mut t = vec![vec![true; n]; defs.len()];
    for _ in 0..n * defs.len() {
        let mut u = t.clone();
        for (s, d) in defs.iter().enumerate() {
            for i in 0..n {
                let arcs = net.arcs(i);
                let f = |s: usize, n: usize| t[s][n];
                u[s][i] = d.eval(&arcs, i, &f);
            }
        }
        t = u;
    }
    t
}
enum Def {
    Shape(E, bool),
    And(Vec<Def>),
    Or(Vec<Def>),
    Ref(usize),
}
impl Def {
    fn eval(&self, arcs: &[Arc], node: usize, t: &dyn Fn(usize, usize) -> bool) -> bool {
        match self {
            Def::Shape(e, closed) => conforms(Some(e), [false; 3], *closed, arcs, t),
            Def::And(ds) => ds.iter().fold(true, |r, d| r & d.eval(arcs, node, t)),
            Def::Or(ds) => ds.iter().fold(false, |r, d| r | d.eval(arcs, node, t)),
            Def::Ref(s) => t(*s, node),
        }
    }
    fn se(&self) -> ShapeExpr {
        match self {
            Def::Shape(e, closed) => shape(*closed, &[], Some(ast(e, true))),
            Def::And(ds) => ShapeExpr::and(ds.iter().map(|d| d.se()).collect()),
            Def::Or(ds) => ShapeExpr::or(ds.iter().map(|d| d.se()).collect()),
            Def::Ref(s) => sref(LABELS[*s]),
        }
    }
}
fn rf(p: usize, s: usize, m: i32, n: i32) -> E {
    E::Tc(p, Val::Ref(s), false, m, n)
}
fn leaf() -> E {
    E::Tc(2, Val::Int(symrt::choice(c"required", 2) as i128), false, 1, 1)
}
fn defs(form: usize) -> Vec<Def> {
    let each = |v| E::Each(v, 1, 1);
    let sh = |e| Def::Shape(e, false);
    match form {
        // lists of conforming nodes
        0 => vec![sh(rf(0, 0, 0, -1))],
        1 => {
            let (m, n) = card(c"card");
            vec![sh(each(vec![rf(0, 0, m, n), leaf()]))]
        }
        2 => vec![sh(rf(0, 0, 1, -1))],
        3 => vec![sh(E::One(vec![rf(0, 0, 1, 1), leaf()], 1, 1))],
        4 => vec![Def::And(vec![sh(rf(0, 0, 0, -1)), sh(leaf())])],
        5 => vec![Def::Or(vec![sh(rf(0, 0, 1, 1)), sh(leaf())])],
        // two mutually recursive shapes
        6 => vec![sh(rf(0, 1, 0, -1)), sh(each(vec![rf(0, 0, 0, 1), leaf()]))],
        7 => vec![sh(each(vec![rf(0, 1, 1, -1)])), Def::Or(vec![Def::Ref(2), sh(rf(0, 0, 1, 1))]), sh(leaf())],
        8 => vec![Def::And(vec![Def::Ref(1), sh(E::Tc(2, Val::Any, false, 0, 1))]), sh(rf(0, 0, 0, -1))],
        // two references for one predicate
        9 => vec![sh(each(vec![rf(0, 0, 0, 1), rf(0, 1, 0, -1)])), sh(each(vec![leaf(), rf(0, 0, 0, -1)]))],
        // stratified negation: S uses NOT T, T is recursive
        _ => vec![sh(each(vec![E::Tc(0, Val::NotRef(1), false, 0, -1)])), sh(each(vec![rf(0, 1, 0, -1), leaf()]))],
    }
}
fn recursive(first: usize, forms: u32, nodes: usize) {
    symrt::no_fmt(true);
    let f = first + symrt::pick(c"form", forms);
    let defs = defs(f);
    let mut net = Net { p: vec![], q: vec![], r: vec![] };
    for i in 0..nodes {
        net.p.push((0..nodes).map(|_| symrt::pick(c"edge", 2) == 1).collect());
        net.q.push(vec![]);
        net.r.push(if i + 1 < nodes || symrt::pick(c"has_value", 2) == 1 { Some(symrt::choice(c"value", 2) as i128) } else { None });
    }
    let want = greatest(&defs, &net);
    let g = net.graph();
    let shapes = defs.iter().enumerate().map(|(i, d)| (LABELS[i], d.se())).collect();
    let Some(mut v) = compile(schema(shapes)) else {
        symrt::check(false, c"compiles");
        return;
    };
    // one at a time
    let n = symrt::pick(c"first_node", nodes as u32);
    let s = symrt::pick(c"first_shape", defs.len() as u32);
    check(v.verdict(&g, iri(N[n]), LABELS[s]), want[s][n]);
    // all of them in one shape map
    let mut sm = QueryShapeMap::new();
    let all: Vec<(usize, usize)> = (0..defs.len()).flat_map(|s| (0..nodes).map(move |n| (s, n))).collect();
    let k = s * nodes + n;
    for (s, n) in all[k..].iter().chain(&all[..k]) {
        sm.add_association(
            NodeSelector::Node(ObjectValue::iri(ns(N[*n]))),
            &None,
            ShapeSelector::label(shex_ast::ast::ShapeExprLabel::iri_ref(r(LABELS[*s]))),
            &None,
        )
        .ok();
    }
    let Ok(res) = v.validator.validate_shapemap(&sm, &g, &v.ir, &None) else {
        symrt::check(false, c"no-verdict");
        return;
    };
    for (s, n) in all {
        let node = shex_ast::Node::new(iri(N[n]));
        let l = shex_ast::ir::shape_label::ShapeLabel::iri(ns(LABELS[s]));
        match res.get_info(&node, &l) {
            Some(i) => symrt::check((i.is_conformant() == want[s][n]) & (i.is_non_conformant() != want[s][n]), c"map-verdict"),
            None => symrt::check(false, c"no-verdict"),
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c16_one() {
    recursive(0, 6, 2)
}
#[unsafe(no_mangle)]
pub extern "C" fn c16_mutual() {
    recursive(6, 4, 2)
}
#[unsafe(no_mangle)]
pub extern "C" fn c16_negation() {
    recursive(10, 1, 2)
}
#[unsafe(no_mangle)]
pub extern "C" fn c16_one_x() {
    recursive(0, 6, 3)
}
#[unsafe(no_mangle)]
pub extern "C" fn c16_mutual_x() {
    recursive(6, 4, 3)
}
#[unsafe(no_mangle)]
pub extern "C" fn c16_negation_x() {
    recursive(10, 1, 3)
}
