//! Schemas built from the public AST, compiled and validated with the public entry points.
use mockrdf::G;
use prefixmap::IriRef;
use rudof_iri::IriS;
use rudof_rdf::rdf_core::term::Object;
use rudof_rdf::rdf_core::term::literal::ConcreteLiteral;
use shex_ast::ast::{Schema, Shape, ShapeExpr, ShapeExprLabel, TripleExpr};
use shex_ast::ir::shape_label::ShapeLabel;
use shex_ast::ir::{map_state::MapState, schema_ir::SchemaIR, semantic_actions_registry::SemanticActionsRegistry};
use shex_ast::{Node, ResolveMethod, ir::ast2ir::AST2IR};
use shex_validation::{Validator, ValidatorConfig};

pub fn ns(s: &str) -> IriS {
    IriS::new_unchecked(&["http://e/", s].concat())
}
pub fn r(s: &str) -> IriRef {
    IriRef::iri(ns(s))
}
pub fn xsd(s: &str) -> IriRef {
    IriRef::iri(IriS::new_unchecked(&["http://www.w3.org/2001/XMLSchema#", s].concat()))
}
pub fn iri(s: &str) -> Object {
    Object::Iri(ns(s))
}
pub fn int(n: i128) -> Object {
    Object::Literal(ConcreteLiteral::integer(n))
}
pub fn sref(s: &str) -> ShapeExpr {
    ShapeExpr::shape_ref(ShapeExprLabel::iri_ref(r(s)))
}
/// predicate, value expression, min, max (-1: unbounded)
pub fn tc(p: &str, se: Option<ShapeExpr>, min: i32, max: i32) -> TripleExpr {
    TripleExpr::triple_constraint(None, None, r(p), se, Some(min), Some(max))
}
pub fn shape(closed: bool, extra: &[&str], te: Option<TripleExpr>) -> ShapeExpr {
    let extra = if extra.is_empty() { None } else { Some(extra.iter().map(|e| r(e)).collect()) };
    ShapeExpr::shape(Shape::new(if closed { Some(true) } else { None }, extra, te))
}
pub fn schema(shapes: Vec<(&str, ShapeExpr)>) -> Schema {
    let mut s = Schema::new(&ns("schema"));
    for (l, se) in shapes {
        s.add_shape(ShapeExprLabel::iri_ref(r(l)), se, false);
    }
    s
}
pub struct V {
    pub ir: SchemaIR,
    pub validator: Validator,
}
pub fn compile(ast: Schema) -> Option<V> {
    let config = ValidatorConfig::default();
    let base = ns("");
    let mut map_state = MapState::default();
    let registry = SemanticActionsRegistry::default();
    registry.set_map_state(&mut map_state);
    let mut compiler = AST2IR::new(&ResolveMethod::default(), map_state);
    let mut ir = SchemaIR::new(registry);
    compiler.compile(&ast, &base, &Some(base.clone()), &mut ir, config.external_resolvers()).ok()?;
    let validator = Validator::new(&ir, &config).ok()?;
    Some(V { ir, validator })
}
impl V {
    /// verdict for a node against a shape; None: validation reported an error
    pub fn verdict(&mut self, g: &G, node: Object, label: &str) -> Option<bool> {
        let node = Node::new(node);
        let label = ShapeLabel::iri(ns(label));
        let res = self.validator.validate_node_shape(&node, &label, g, &self.ir, &None).ok()?;
        let i = res.get_info(&node, &label)?;
        if i.is_conformant() {
            Some(true)
        } else if i.is_non_conformant() {
            Some(false)
        } else {
            None
        }
    }
}
pub fn verdict(ast: Schema, g: &G, node: Object, label: &str) -> Option<bool> {
    match compile(ast) {
        Some(mut v) => v.verdict(g, node, label),
        None => {
            symrt::check(false, c"compiles");
            None
        }
    }
}
