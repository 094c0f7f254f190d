//! A triple source over a list of triples, for harnesses: terms are rudof's own values, so that they
//! can hold symbolic numbers and texts. Literals hash to one value: they are told apart by equality.
use prefixmap::{IriRef, PrefixMap, error::PrefixMapError};
use rudof_iri::IriS;
use rudof_rdf::rdf_core::query::{QueryRDF, QueryResultFormat, QuerySolutions};
use rudof_rdf::rdf_core::term::literal::{ConcreteLiteral, Lang, Literal};
use rudof_rdf::rdf_core::term::{BlankNode, Iri, IriOrBlankNode, Object, Subject, Term, TermKind, Triple};
use rudof_rdf::rdf_core::{Matcher, NeighsRDF, Rdf};
use std::fmt::{Display, Formatter, Result as FR};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct I(pub IriS);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct S(pub IriOrBlankNode);
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct T(pub Object);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct B(pub String);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct L(pub ConcreteLiteral);
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tr(pub S, pub I, pub T);

impl Hash for T {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match &self.0 {
            Object::Iri(i) => i.hash(h),
            Object::BlankNode(b) => b.hash(h),
            _ => 0u8.hash(h),
        }
    }
}
impl Display for I {
    fn fmt(&self, f: &mut Formatter<'_>) -> FR {
        self.0.fmt(f)
    }
}
impl Display for S {
    fn fmt(&self, f: &mut Formatter<'_>) -> FR {
        self.0.fmt(f)
    }
}
impl Display for T {
    fn fmt(&self, f: &mut Formatter<'_>) -> FR {
        self.0.fmt(f)
    }
}
impl Display for B {
    fn fmt(&self, f: &mut Formatter<'_>) -> FR {
        self.0.fmt(f)
    }
}
impl Display for L {
    fn fmt(&self, f: &mut Formatter<'_>) -> FR {
        self.0.fmt(f)
    }
}
impl Display for Tr {
    fn fmt(&self, f: &mut Formatter<'_>) -> FR {
        self.0.fmt(f)
    }
}
impl Iri for I {
    fn as_str(&self) -> &str {
        self.0.as_str()
    }
}
impl BlankNode for B {
    fn new(id: impl Into<String>) -> Self {
        B(id.into())
    }
    fn id(&self) -> &str {
        &self.0
    }
}
impl Subject for S {
    fn kind(&self) -> TermKind {
        match self.0 {
            IriOrBlankNode::Iri(_) => TermKind::Iri,
            IriOrBlankNode::BlankNode(_) => TermKind::BlankNode,
        }
    }
}
impl Term for T {
    fn kind(&self) -> TermKind {
        match self.0 {
            Object::Iri(_) => TermKind::Iri,
            Object::BlankNode(_) => TermKind::BlankNode,
            Object::Literal(_) => TermKind::Literal,
            Object::Triple { .. } => TermKind::Triple,
        }
    }
    fn lexical_form(&self) -> String {
        match &self.0 {
            Object::Iri(i) => i.as_str().to_string(),
            Object::BlankNode(b) => b.clone(),
            Object::Literal(l) => l.lexical_form(),
            o => o.to_string(),
        }
    }
}
impl Literal for L {
    fn lexical_form(&self) -> &str {
        Box::leak(self.0.lexical_form().into_boxed_str())
    }
    fn lang(&self) -> Option<Lang> {
        self.0.lang()
    }
    fn datatype(&self) -> IriRef {
        self.0.datatype()
    }
    fn to_concrete_literal(&self) -> Option<ConcreteLiteral> {
        Some(self.0.clone())
    }
}
impl Triple<S, I, T> for Tr {
    fn new(s: impl Into<S>, p: impl Into<I>, o: impl Into<T>) -> Self {
        Tr(s.into(), p.into(), o.into())
    }
    fn subj(&self) -> &S {
        &self.0
    }
    fn pred(&self) -> &I {
        &self.1
    }
    fn obj(&self) -> &T {
        &self.2
    }
    fn into_components(self) -> (S, I, T) {
        (self.0, self.1, self.2)
    }
}
impl Matcher<I> for I {
    fn value(&self) -> Option<&I> {
        Some(self)
    }
}
impl Matcher<S> for S {
    fn value(&self) -> Option<&S> {
        Some(self)
    }
}
impl Matcher<T> for T {
    fn value(&self) -> Option<&T> {
        Some(self)
    }
}
pub struct No;
macro_rules! from { ($($a:ty => $b:ty: |$x:ident| $e:expr;)*) => { $(impl From<$a> for $b { fn from($x: $a) -> $b { $e } })* } }
from! {
    IriS => I: |x| I(x);
    I => IriS: |x| x.0;
    I => S: |x| S(IriOrBlankNode::Iri(x.0));
    B => S: |x| S(IriOrBlankNode::BlankNode(x.0));
    IriS => S: |x| S(IriOrBlankNode::Iri(x));
    IriOrBlankNode => S: |x| S(x);
    S => IriOrBlankNode: |x| x.0;
    S => T: |x| T(match x.0 { IriOrBlankNode::Iri(i) => Object::Iri(i), IriOrBlankNode::BlankNode(b) => Object::BlankNode(b) });
    I => T: |x| T(Object::Iri(x.0));
    IriS => T: |x| T(Object::Iri(x));
    B => T: |x| T(Object::BlankNode(x.0));
    L => T: |x| T(Object::Literal(x.0));
    Object => T: |x| T(x);
    T => Object: |x| x.0;
    Tr => T: |x| T(Object::Triple { subject: Box::new(x.0.0), predicate: x.1.0, object: Box::new(x.2.0) });
    bool => L: |x| L(ConcreteLiteral::BooleanLiteral(x));
    String => L: |x| L(ConcreteLiteral::str(&x));
    i128 => L: |x| L(ConcreteLiteral::integer(x));
    f64 => L: |x| L(ConcreteLiteral::double(x));
    ConcreteLiteral => L: |x| L(x);
    L => ConcreteLiteral: |x| x.0;
}
impl TryFrom<T> for S {
    type Error = No;
    fn try_from(t: T) -> Result<S, No> {
        S::try_from(t.0)
    }
}
impl TryFrom<Object> for S {
    type Error = No;
    fn try_from(t: Object) -> Result<S, No> {
        match t {
            Object::Iri(i) => Ok(S(IriOrBlankNode::Iri(i))),
            Object::BlankNode(b) => Ok(S(IriOrBlankNode::BlankNode(b))),
            _ => Err(No),
        }
    }
}
impl TryFrom<T> for I {
    type Error = No;
    fn try_from(t: T) -> Result<I, No> {
        match t.0 {
            Object::Iri(i) => Ok(I(i)),
            _ => Err(No),
        }
    }
}
impl TryFrom<T> for B {
    type Error = No;
    fn try_from(t: T) -> Result<B, No> {
        match t.0 {
            Object::BlankNode(i) => Ok(B(i)),
            _ => Err(No),
        }
    }
}
impl TryFrom<T> for L {
    type Error = No;
    fn try_from(t: T) -> Result<L, No> {
        match t.0 {
            Object::Literal(i) => Ok(L(i)),
            _ => Err(No),
        }
    }
}
#[derive(Clone, Debug, Default)]
pub struct G(pub Vec<Tr>);
impl G {
    pub fn add(&mut self, s: &IriS, p: &IriS, o: Object) {
        self.0.push(Tr(S(IriOrBlankNode::Iri(s.clone())), I(p.clone()), T(o)));
    }
}
impl Rdf for G {
    type Subject = S;
    type IRI = I;
    type Term = T;
    type BNode = B;
    type Literal = L;
    type Triple = Tr;
    type Err = String;
    fn qualify_iri(&self, x: &I) -> String {
        x.to_string()
    }
    fn qualify_subject(&self, x: &S) -> String {
        x.to_string()
    }
    fn qualify_term(&self, x: &T) -> String {
        x.to_string()
    }
    fn prefixmap(&self) -> Option<PrefixMap> {
        None
    }
    fn resolve_prefix_local(&self, prefix: &str, local: &str) -> Result<IriS, PrefixMapError> {
        PrefixMap::new().resolve_prefix_local(prefix, local)
    }
}
impl NeighsRDF for G {
    fn triples(&self) -> Result<impl Iterator<Item = Tr>, String> {
        Ok(self.0.clone().into_iter())
    }
    fn triples_matching<MS, MP, MO>(&self, s: &MS, p: &MP, o: &MO) -> Result<impl Iterator<Item = Tr> + '_, String>
    where
        MS: Matcher<S>,
        MP: Matcher<I>,
        MO: Matcher<T>,
    {
        let mut r = vec![];
        for t in &self.0 {
            if s.value().is_none_or(|x| *x == t.0) && p.value().is_none_or(|x| *x == t.1) && o.value().is_none_or(|x| *x == t.2) {
                r.push(t.clone());
            }
        }
        Ok(r.into_iter())
    }
}
impl QueryRDF for G {
    fn query_select(&self, _: &str) -> Result<QuerySolutions<Self>, String> {
        Err(String::from("no queries"))
    }
    fn query_construct(&self, _: &str, _: &QueryResultFormat) -> Result<String, String> {
        Err(String::from("no queries"))
    }
    fn query_ask(&self, _: &str) -> Result<bool, String> {
        Err(String::from("no queries"))
    }
}
