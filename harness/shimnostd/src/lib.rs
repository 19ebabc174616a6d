//! The nostd build of the crate under test.
#![allow(unused_imports)]
pub mod f64 {
    use interpn_nostd as interpn;
    include!("../../shimgen/noalloc.rs");
    include!("../../shimgen/body.rs");
    shim!(f64);
}
pub mod f32 {
    use interpn_nostd as interpn;
    include!("../../shimgen/noalloc.rs");
    include!("../../shimgen/body.rs");
    shim!(f32);
}
