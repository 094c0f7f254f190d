//! Harnesses over `rudof_rdf`, `rudof_iri`, `prefixmap`: C06–C12.
mod lexical;
mod laws;
mod numbers;
mod prefixes;
mod store;
