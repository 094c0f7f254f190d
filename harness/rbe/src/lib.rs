//! Harnesses over the `rbe` crate: C01 (derivatives), C02 (intervals), C03 (feasibility),
//! C04 (bounds), C05 (matching table).
mod lang;
mod bounds;
mod bags;
mod table;
