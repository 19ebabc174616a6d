// shim_alloc for builds without the allocating entry points
#[allow(unused_macros)]
macro_rules! shim_alloc {
    ($p:ident, $entry:ident, $dims:ident, $starts:ident, $steps:ident, $vals:ident, $grids:ident, $obs:ident, $out:ident) => {
        panic!("harness: no allocating entry points in this build")
    };
}

#[allow(unused_macros)]
macro_rules! shim_alloc1 {
    ($it:ident, $locs:ident, $out:ident) => { panic!("harness: no allocating entry points in this build") };
}
