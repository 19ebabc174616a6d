//! Non-generic f64 instances of every entry point of the crate under test.
use interpn;
include!("../../shimgen/alloc.rs");
include!("../../shimgen/body.rs");
shim!(f64);
shim_utils!(f64);
