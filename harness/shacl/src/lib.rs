//! Harnesses over `shacl` and the path evaluation of `rudof_rdf`: C21–C24, C31.
mod mk;
mod paths;
pub mod components;
pub mod history;
