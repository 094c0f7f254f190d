//! Harnesses over `shex_ast` and `shex_validation`: C13–C20.
mod logic;
mod mk;
mod nodes;
mod partitions;
mod reads;
mod shapes;
mod text;
