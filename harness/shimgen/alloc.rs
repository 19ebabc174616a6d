// shim_alloc for builds that have the allocating entry points
#[allow(unused_macros)]
macro_rules! shim_alloc {
    ($p:ident, $entry:ident, $dims:ident, $starts:ident, $steps:ident, $vals:ident, $grids:ident, $obs:ident, $out:ident) => {
        copy_alloc(
            match ($p.method, $p.kind, $entry) {
                (Method::Linear, Kind::Regular, Entry::Alloc) => ml::regular::interpn_alloc($dims, $starts, $steps, $vals, $obs),
                (Method::Linear, Kind::Rectilinear, Entry::Alloc) => ml::rectilinear::interpn_alloc($grids, $vals, $obs),
                (Method::Cubic, Kind::Regular, Entry::Alloc) => mc::regular::interpn_alloc($dims, $starts, $steps, $vals, $p.lin, $obs),
                (Method::Cubic, Kind::Rectilinear, Entry::Alloc) => mc::rectilinear::interpn_alloc($grids, $vals, $p.lin, $obs),
                (Method::Nearest, Kind::Regular, _) => nn::regular::interpn_alloc($dims, $starts, $steps, $vals, $obs),
                (Method::Nearest, Kind::Rectilinear, _) => nn::rectilinear::interpn_alloc($grids, $vals, $obs),
                (Method::Linear, Kind::Regular, _) => ml::regular_recursive::interpn_alloc($dims, $starts, $steps, $vals, $obs),
                (Method::Linear, Kind::Rectilinear, _) => ml::rectilinear_recursive::interpn_alloc($grids, $vals, $obs),
                (Method::Cubic, Kind::Regular, _) => mc::regular_recursive::interpn_alloc($dims, $starts, $steps, $vals, $p.lin, $obs),
                (Method::Cubic, Kind::Rectilinear, _) => mc::rectilinear_recursive::interpn_alloc($grids, $vals, $p.lin, $obs),
            },
            $out,
        )
    };
}

#[allow(unused_macros)]
macro_rules! shim_alloc1 {
    ($it:ident, $locs:ident, $out:ident) => { copy_alloc($it.eval_alloc($locs), $out) };
}

#[allow(unused_macros)]
macro_rules! shim_utils {
    ($T:ty) => {
        pub fn linspace(start: $T, stop: $T, n: usize) -> Result<Vec<$T>, Failure> {
            guarded(|| Ok(interpn::utils::linspace(start, stop, n)))
        }
        pub fn meshgrid(x: &[Vec<$T>]) -> Result<Vec<Vec<$T>>, Failure> {
            guarded(|| Ok(interpn::utils::meshgrid(x.iter().collect())))
        }
    };
}
