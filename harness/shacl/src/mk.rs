//! A graph whose triples are each present or absent (symbolically), and schema builders.
use mockrdf::{B, I, L, S, T, Tr};
use prefixmap::{PrefixMap, error::PrefixMapError};
use rudof_iri::IriS;
use rudof_rdf::rdf_core::query::{QueryRDF, QueryResultFormat, QuerySolutions};
use rudof_rdf::rdf_core::term::{IriOrBlankNode, Object};
use rudof_rdf::rdf_core::{Matcher, NeighsRDF, Rdf};

pub fn r(s: &str) -> IriS {
    IriS::new_unchecked(s)
}
pub fn ns(s: &str) -> IriS {
    r(&["http://e/", s].concat())
}
pub fn iri(s: &str) -> Object {
    Object::iri(ns(s))
}

/// triples with their presence; a path forks on the presence of a triple when a pattern matches it
#[derive(Clone, Debug, Default)]
pub struct P(pub Vec<(Tr, bool)>);
impl P {
    pub fn add(&mut self, s: &Object, p: &IriS, o: &Object, present: bool) {
        let s = match s {
            Object::Iri(i) => IriOrBlankNode::Iri(i.clone()),
            Object::BlankNode(b) => IriOrBlankNode::BlankNode(b.clone()),
            _ => return,
        };
        self.0.push((Tr(S(s), I(p.clone()), T(o.clone())), present));
    }
}
impl Rdf for P {
    type Subject = S;
    type IRI = I;
    type Term = T;
    type BNode = B;
    type Literal = L;
    type Triple = Tr;
    type Err = String;
    fn qualify_iri(&self, x: &I) -> String {
        x.to_string()
    }
    fn qualify_subject(&self, x: &S) -> String {
        x.to_string()
    }
    fn qualify_term(&self, x: &T) -> String {
        x.to_string()
    }
    fn prefixmap(&self) -> Option<PrefixMap> {
        None
    }
    fn resolve_prefix_local(&self, prefix: &str, local: &str) -> Result<IriS, PrefixMapError> {
        PrefixMap::new().resolve_prefix_local(prefix, local)
    }
}
fn here(b: bool) -> bool {
    symrt::concrete(b as u64) == 1
}
impl NeighsRDF for P {
    fn triples(&self) -> Result<impl Iterator<Item = Tr>, String> {
        Ok(self.0.iter().filter(|t| here(t.1)).map(|t| t.0.clone()).collect::<Vec<_>>().into_iter())
    }
    fn triples_matching<MS, MP, MO>(&self, s: &MS, p: &MP, o: &MO) -> Result<impl Iterator<Item = Tr> + '_, String>
    where
        MS: Matcher<S>,
        MP: Matcher<I>,
        MO: Matcher<T>,
    {
        let mut r = vec![];
        for (t, b) in &self.0 {
            if p.value().is_none_or(|x| *x == t.1) && s.value().is_none_or(|x| *x == t.0) && o.value().is_none_or(|x| *x == t.2) && here(*b) {
                r.push(t.clone());
            }
        }
        Ok(r.into_iter())
    }
}
impl QueryRDF for P {
    fn query_select(&self, _: &str) -> Result<QuerySolutions<Self>, String> {
        Err(String::from("no queries"))
    }
    fn query_construct(&self, _: &str, _: &QueryResultFormat) -> Result<String, String> {
        Err(String::from("no queries"))
    }
    fn query_ask(&self, _: &str) -> Result<bool, String> {
        Err(String::from("no queries"))
    }
}

// schemas
use shacl::ast::{ASTComponent, ASTNodeShape, ASTPropertyShape, ASTSchema, ASTShape};
use shacl::ir::{IRSchema, IRShape};
use shacl::validator::engine::{Engine, NativeEngine, Validate};
use shacl::validator::nodes::FocusNodes;
use shacl::validator::report::ValidationResult;
use rudof_rdf::rdf_core::SHACLPath;
use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang};
use std::collections::HashMap;

pub type Shapes = Vec<(Object, ASTShape)>;
pub fn node_shape(name: &str, cs: Vec<ASTComponent>, props: &[&str]) -> (Object, ASTShape) {
    let id = iri(name);
    let s = ASTNodeShape::new(id.clone()).with_components(cs).with_property_shapes(props.iter().map(|p| iri(p)).collect());
    (id, ASTShape::node_shape(s))
}
pub fn prop_shape(name: &str, path: &str, cs: Vec<ASTComponent>, props: &[&str]) -> (Object, ASTShape) {
    let id = iri(name);
    let s = ASTPropertyShape::new(id.clone(), SHACLPath::iri(ns(path)))
        .with_components(cs)
        .with_property_shapes(props.iter().map(|p| iri(p)).collect());
    (id, ASTShape::property_shape(s))
}
pub fn schema(shapes: Shapes) -> IRSchema {
    let ast = ASTSchema::new().with_shapes(shapes.into_iter().collect::<HashMap<_, _>>());
    match IRSchema::try_from(&ast) {
        Ok(s) => s,
        Err(_) => symrt::prune(),
    }
}
pub fn shape<'a>(s: &'a IRSchema, name: &str) -> &'a IRShape {
    match s.get_shape(&iri(name)) {
        Some(s) => s,
        None => symrt::prune(),
    }
}
pub fn engine() -> Box<dyn Engine<P>> {
    Box::new(NativeEngine::new())
}
/// the results for one focus node (None: an error)
pub fn results(s: &IRSchema, name: &str, g: &P, e: &mut dyn Engine<P>, focus: &Object) -> Option<Vec<ValidationResult>> {
    let sh = shape(s, name);
    sh.validate(g, e, Some(&FocusNodes::single(T(focus.clone()))), Some(sh), s).ok()
}
const SH: &str = "http://www.w3.org/ns/shacl#";
/// Is it a result of this component ("MinCount")?
pub fn is(r: &ValidationResult, component: &str) -> bool {
    match r.constraint_component() {
        Object::Iri(i) => i.as_str().strip_prefix(SH).and_then(|x| x.strip_suffix("ConstraintComponent")) == Some(component),
        _ => false,
    }
}
/// checks that the results are exactly `want[i]` results of the component with value `values[i]`
/// and `plain` results without value, all for the focus node
pub fn exactly(rs: &Option<Vec<ValidationResult>>, component: &str, focus: &Object, values: &[Object], want: &[u64], plain: u64) {
    let Some(rs) = rs else {
        symrt::check(false, c"no-error");
        return;
    };
    let mut n = vec![0u64; values.len()];
    let mut m = 0;
    for x in rs {
        if !is(x, component) {
            continue;
        }
        symrt::check(x.focus_node() == focus, c"focus-node");
        match x.value() {
            None => m += 1,
            Some(v) => match values.iter().position(|y| y == v) {
                Some(k) => n[k] += 1,
                None => symrt::check(false, c"unknown-value"),
            },
        }
    }
    for i in 0..values.len() {
        symrt::check(n[i] == want[i], c"results-of-value");
    }
    symrt::check(m == plain, c"results-without-value");
}
/// no results of any other component than these
pub fn only(rs: &Option<Vec<ValidationResult>>, components: &[&str]) {
    if let Some(rs) = rs {
        for x in rs {
            symrt::check(components.iter().any(|c| is(x, c)), c"other-component");
        }
    }
}
pub fn xsd(s: &str) -> prefixmap::IriRef {
    prefixmap::IriRef::iri(r(&["http://www.w3.org/2001/XMLSchema#", s].concat()))
}
pub fn typed(lex: &str, dt: &str) -> Object {
    Object::Literal(ConcreteLiteral::DatatypeLiteral { lexical_form: lex.to_string(), datatype: xsd(dt) })
}
pub fn lang_lit(lex: &str, tag: &str) -> Object {
    Object::Literal(ConcreteLiteral::StringLiteral { lexical_form: lex.to_string(), lang: Lang::new(tag).ok() })
}
pub fn str_lit(lex: &str) -> Object {
    Object::Literal(ConcreteLiteral::str(lex))
}
pub fn bnode(s: &str) -> Object {
    Object::BlankNode(s.to_string())
}
