pub mod arena;
pub mod harness;
pub mod ll;
pub mod num;
pub mod path;
pub mod rat;
pub mod smt;
pub mod spec;
pub mod bessel_ref;
pub mod ints;
pub mod whole;
