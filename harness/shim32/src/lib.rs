//! Non-generic f32 instances of every entry point of the crate under test.
use interpn;
include!("../../shimgen/alloc.rs");
include!("../../shimgen/body.rs");
shim!(f32);
shim_utils!(f32);
