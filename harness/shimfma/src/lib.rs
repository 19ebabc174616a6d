//! The fma build of the crate under test.
#![allow(unused_imports)]
pub mod f64 {
    use interpn_fma as interpn;
    include!("../../shimgen/alloc.rs");
    include!("../../shimgen/body.rs");
    shim!(f64);
}
pub mod f32 {
    use interpn_fma as interpn;
    include!("../../shimgen/alloc.rs");
    include!("../../shimgen/body.rs");
    shim!(f32);
}
