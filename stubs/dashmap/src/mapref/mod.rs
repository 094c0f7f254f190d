pub mod entry;
pub mod multiple;
pub mod one;
