// Included by every shim crate with `use <crate under test> as interpn;` in scope.
// Drives each public entry point of the crate under test from a `Problem`.
use vcore::problem::{guarded, Entry, Failure, Interp1, Kind, Method, Mode1, Problem, Problem1, Shared};

macro_rules! arr {
    ($v:expr, $n:expr) => {{
        let a: [_; $n] = $v[..].try_into().expect("harness: length");
        a
    }};
}

/// Call `$body` with const N bound to the dynamic value.
macro_rules! with_n {
    ($n:expr, [$($k:literal),*], $N:ident => $body:expr) => {
        match $n {
            $($k => { const $N: usize = $k; $body })*
            other => panic!("harness: unsupported dimension {other}"),
        }
    };
}


macro_rules! shim {
    ($T:ty) => {
        pub fn eval(p: &Problem<$T>, entry: Entry, out: &mut [$T]) -> Result<(), Failure> {
            let obs: Vec<&[$T]> = p.obs.iter().map(|o| &o[..]).collect();
            let grids: Vec<&[$T]> = p.grids.iter().map(|o| &o[..]).collect();
            guarded(|| eval_inner(p, entry, None, &obs, &grids, out))
        }

        /// One interpolator, built once, evaluated by `want.par` threads at the same time, each on
        /// its own share of the points, several times over. Results other than the expected ones
        /// are an error.
        #[allow(dead_code)]
        pub fn eval_shared(p: &Problem<$T>, entry: Entry, want: &Shared<$T>, out: &mut [$T]) -> Result<(), Failure> {
            let obs: Vec<&[$T]> = p.obs.iter().map(|o| &o[..]).collect();
            let grids: Vec<&[$T]> = p.grids.iter().map(|o| &o[..]).collect();
            guarded(|| eval_inner(p, entry, Some(want), &obs, &grids, out))
        }

        /// Number of distinct paths under which `check_bounds` is exported per kind.
        pub const BOUNDS_PATHS: usize = 5;

        pub fn check_bounds(p: &Problem<$T>, path: usize, atol: $T, out: &mut [bool]) -> Result<(), Failure> {
            use interpn::{multicubic as mc, multilinear as ml, nearest as nn};
            let obs: Vec<&[$T]> = p.obs.iter().map(|o| &o[..]).collect();
            let grids: Vec<&[$T]> = p.grids.iter().map(|o| &o[..]).collect();
            let (d, s, h) = (&p.dims[..], &p.starts[..], &p.steps[..]);
            guarded(|| match (p.kind, path) {
                (Kind::Regular, 0) => ml::regular::check_bounds(d, s, h, &obs, atol, out),
                (Kind::Regular, 1) => ml::regular_recursive::check_bounds(d, s, h, &obs, atol, out),
                (Kind::Regular, 2) => mc::regular::check_bounds(d, s, h, &obs, atol, out),
                (Kind::Regular, 3) => mc::regular_recursive::check_bounds(d, s, h, &obs, atol, out),
                (Kind::Regular, 4) => nn::regular::check_bounds(d, s, h, &obs, atol, out),
                (Kind::Rectilinear, 0) => ml::rectilinear::check_bounds(&grids, &obs, atol, out),
                (Kind::Rectilinear, 1) => ml::rectilinear_recursive::check_bounds(&grids, &obs, atol, out),
                (Kind::Rectilinear, 2) => mc::rectilinear::check_bounds(&grids, &obs, atol, out),
                (Kind::Rectilinear, 3) => mc::rectilinear_recursive::check_bounds(&grids, &obs, atol, out),
                (Kind::Rectilinear, 4) => nn::rectilinear::check_bounds(&grids, &obs, atol, out),
                _ => panic!("harness: path"),
            })
        }

        fn go1<G: interpn::one_dim::Grid1D<'static, $T>, I: interpn::one_dim::Interp1D<'static, $T, G>>(
            it: I,
            locs: &[$T],
            mode: Mode1,
            out: &mut [$T],
        ) -> Result<(), &'static str> {
            match mode {
                Mode1::Eval => it.eval(locs, out),
                Mode1::One => {
                    for i in 0..out.len() {
                        out[i] = it.eval_one(locs[i])?;
                    }
                    Ok(())
                }
                Mode1::Alloc => shim_alloc1!(it, locs, out),
            }
        }

        /// The library's traits tie the grid lifetime to a trait parameter, so the data
        /// is handed over as 'static and freed by the caller of this function.
        fn by_grid<G: interpn::one_dim::Grid1D<'static, $T> + Copy>(
            g: G,
            which: Interp1,
            locs: &[$T],
            mode: Mode1,
            out: &mut [$T],
        ) -> Result<(), &'static str> {
            match which {
                Interp1::Linear => go1::<G, _>(interpn::Linear1D::new(g), locs, mode, out),
                Interp1::HoldLast => go1::<G, _>(interpn::LinearHoldLast1D::new(g), locs, mode, out),
                Interp1::Left => go1::<G, _>(interpn::Left1D::new(g), locs, mode, out),
                Interp1::Right => go1::<G, _>(interpn::Right1D::new(g), locs, mode, out),
                Interp1::Nearest => go1::<G, _>(interpn::Nearest1D::new(g), locs, mode, out),
            }
        }

        pub fn eval1(p: &Problem1<$T>, mode: Mode1, out: &mut [$T]) -> Result<(), Failure> {
            // SAFETY: the extended borrows do not outlive this call: nothing in
            // `by_grid` can store them anywhere.
            let vals: &'static [$T] = unsafe { std::slice::from_raw_parts(p.vals.as_ptr(), p.vals.len()) };
            let grid: &'static [$T] = unsafe { std::slice::from_raw_parts(p.grid.as_ptr(), p.grid.len()) };
            guarded(|| match p.kind {
                Kind::Regular => by_grid(interpn::RegularGrid1D::new(p.start, p.step, vals)?, p.which, &p.locs, mode, out),
                Kind::Rectilinear => by_grid(interpn::RectilinearGrid1D::new(grid, vals)?, p.which, &p.locs, mode, out),
            })
        }

        /// `index` and `at` of a 1-D grid at every location: (cell, side, side in the sample, [x0, y0, x1, y1]),
        /// where side is -1, 0 or 1.
        #[allow(dead_code)]
        pub fn cells1(p: &Problem1<$T>) -> Result<Vec<(usize, i8, i8, [$T; 4])>, Failure> {
            use interpn::one_dim::{Extrap, Grid1D, GridSample, RectilinearGrid1D, RegularGrid1D};
            fn side(e: Extrap) -> i8 {
                match e {
                    Extrap::OutsideLow => -1,
                    Extrap::Inside => 0,
                    Extrap::OutsideHigh => 1,
                }
            }
            fn flat(s: GridSample<$T>) -> (i8, [$T; 4]) {
                (side(s.extrap), [s.x0, s.y0, s.x1, s.y1])
            }
            let mut out = Vec::with_capacity(p.locs.len());
            guarded(|| {
                match p.kind {
                    Kind::Regular => {
                        let g = RegularGrid1D::new(p.start, p.step, &p.vals)?;
                        for &x in &p.locs {
                            let ((i, e), (s, v)) = (g.index(x)?, flat(g.at(x)?));
                            out.push((i, side(e), s, v));
                        }
                    }
                    Kind::Rectilinear => {
                        let g = RectilinearGrid1D::new(&p.grid, &p.vals)?;
                        for &x in &p.locs {
                            let ((i, e), (s, v)) = (g.index(x)?, flat(g.at(x)?));
                            out.push((i, side(e), s, v));
                        }
                    }
                }
                Ok(())
            })?;
            Ok(out)
        }

        #[allow(dead_code)]
        fn copy_alloc(r: Result<Vec<$T>, &'static str>, out: &mut [$T]) -> Result<(), &'static str> {
            let v = r?;
            if v.len() != out.len() {
                panic!("interpn_alloc returned {} values for {} points", v.len(), out.len());
            }
            out.copy_from_slice(&v);
            Ok(())
        }

        #[allow(unused_variables)]
        fn eval_inner(
            p: &Problem<$T>,
            entry: Entry,
            shared: Option<&Shared<$T>>,
            obs: &[&[$T]],
            grids: &[&[$T]],
            out: &mut [$T],
        ) -> Result<(), &'static str> {
            use interpn::{multicubic as mc, multilinear as ml, nearest as nn};
            let n = if p.kind == Kind::Regular { p.dims.len() } else { p.grids.len() };
            let (dims, starts, steps, vals) = (&p.dims[..], &p.starts[..], &p.steps[..], &p.vals[..]);
            let zero: $T = num_traits::Zero::zero();
            match (p.method, p.kind, entry) {
                (Method::Linear, Kind::Regular, Entry::Interpn) => ml::regular::interpn(dims, starts, steps, vals, obs, out),
                (Method::Linear, Kind::Rectilinear, Entry::Interpn) => ml::rectilinear::interpn(grids, vals, obs, out),
                (Method::Cubic, Kind::Regular, Entry::Interpn) => mc::regular::interpn(dims, starts, steps, vals, p.lin, obs, out),
                (Method::Cubic, Kind::Rectilinear, Entry::Interpn) => mc::rectilinear::interpn(grids, vals, p.lin, obs, out),
                (Method::Nearest, Kind::Regular, Entry::Interpn) => nn::regular::interpn(dims, starts, steps, vals, obs, out),
                (Method::Nearest, Kind::Rectilinear, Entry::Interpn) => nn::rectilinear::interpn(grids, vals, obs, out),

                (Method::Linear, Kind::Regular, Entry::RecInterpn) => ml::regular_recursive::interpn(dims, starts, steps, vals, obs, out),
                (Method::Linear, Kind::Rectilinear, Entry::RecInterpn) => ml::rectilinear_recursive::interpn(grids, vals, obs, out),
                (Method::Cubic, Kind::Regular, Entry::RecInterpn) => mc::regular_recursive::interpn(dims, starts, steps, vals, p.lin, obs, out),
                (Method::Cubic, Kind::Rectilinear, Entry::RecInterpn) => mc::rectilinear_recursive::interpn(grids, vals, p.lin, obs, out),

                (_, _, Entry::Alloc | Entry::RecAlloc) => {
                    shim_alloc!(p, entry, dims, starts, steps, vals, grids, obs, out)
                }

                (Method::Linear, Kind::Regular, Entry::Flat | Entry::FlatOne) => with_n!(n, [1, 2, 3, 4, 5, 6], N => {
                    let it = ml::MultilinearRegular::<$T, N>::new(arr!(dims, N), arr!(starts, N), arr!(steps, N), vals)?;
                    match shared {
                        None => shim!(@flat it, obs, out, N, entry, zero),
                        Some(w) => w.run(&it, obs, out, |it, obs, out, entry| shim!(@flat it, obs, out, N, entry, zero), [Entry::Flat, Entry::FlatOne]),
                    }
                }),
                (Method::Linear, Kind::Rectilinear, Entry::Flat | Entry::FlatOne) => with_n!(n, [1, 2, 3, 4, 5, 6], N => {
                    let g = arr!(grids, N);
                    let it = ml::MultilinearRectilinear::<$T, N>::new(&g, vals)?;
                    match shared {
                        None => shim!(@flat it, obs, out, N, entry, zero),
                        Some(w) => w.run(&it, obs, out, |it, obs, out, entry| shim!(@flat it, obs, out, N, entry, zero), [Entry::Flat, Entry::FlatOne]),
                    }
                }),
                (Method::Cubic, Kind::Regular, Entry::Flat | Entry::FlatOne) => with_n!(n, [1, 2, 3, 4], N => {
                    let it = mc::MulticubicRegular::<$T, N>::new(arr!(dims, N), arr!(starts, N), arr!(steps, N), vals, p.lin)?;
                    match shared {
                        None => shim!(@flat it, obs, out, N, entry, zero),
                        Some(w) => w.run(&it, obs, out, |it, obs, out, entry| shim!(@flat it, obs, out, N, entry, zero), [Entry::Flat, Entry::FlatOne]),
                    }
                }),
                (Method::Cubic, Kind::Rectilinear, Entry::Flat | Entry::FlatOne) => with_n!(n, [1, 2, 3, 4], N => {
                    let g = arr!(grids, N);
                    let it = mc::MulticubicRectilinear::<$T, N>::new(&g, vals, p.lin)?;
                    match shared {
                        None => shim!(@flat it, obs, out, N, entry, zero),
                        Some(w) => w.run(&it, obs, out, |it, obs, out, entry| shim!(@flat it, obs, out, N, entry, zero), [Entry::Flat, Entry::FlatOne]),
                    }
                }),
                (Method::Nearest, Kind::Regular, Entry::Flat | Entry::FlatOne) => with_n!(n, [1, 2, 3, 4, 5, 6], N => {
                    let it = nn::NearestRegular::<$T, N>::new(arr!(dims, N), arr!(starts, N), arr!(steps, N), vals)?;
                    match shared {
                        None => shim!(@flat it, obs, out, N, entry, zero),
                        Some(w) => w.run(&it, obs, out, |it, obs, out, entry| shim!(@flat it, obs, out, N, entry, zero), [Entry::Flat, Entry::FlatOne]),
                    }
                }),
                (Method::Nearest, Kind::Rectilinear, Entry::Flat | Entry::FlatOne) => with_n!(n, [1, 2, 3, 4, 5, 6], N => {
                    let g = arr!(grids, N);
                    let it = nn::NearestRectilinear::<$T, N>::new(&g, vals)?;
                    match shared {
                        None => shim!(@flat it, obs, out, N, entry, zero),
                        Some(w) => w.run(&it, obs, out, |it, obs, out, entry| shim!(@flat it, obs, out, N, entry, zero), [Entry::Flat, Entry::FlatOne]),
                    }
                }),

                (Method::Linear, Kind::Regular, _) => {
                    let m = shim!(@maxdims entry, n);
                    with_n!(m, [1, 2, 3, 4, 5, 6, 7, 8, 10], M => {
                        let it = ml::MultilinearRegularRecursive::<$T, M>::new(dims, starts, steps, vals)?;
                        match shared {
                            None => shim!(@rec it, obs, out, n, entry, zero),
                            Some(w) => w.run(&it, obs, out, |it, obs, out, entry| shim!(@rec it, obs, out, n, entry, zero), [Entry::Rec, Entry::RecOne]),
                        }
                    })
                }
                (Method::Linear, Kind::Rectilinear, _) => {
                    let m = shim!(@maxdims entry, n);
                    with_n!(m, [1, 2, 3, 4, 5, 6, 7, 8, 10], M => {
                        let it = ml::MultilinearRectilinearRecursive::<$T, M>::new(grids, vals)?;
                        match shared {
                            None => shim!(@rec it, obs, out, n, entry, zero),
                            Some(w) => w.run(&it, obs, out, |it, obs, out, entry| shim!(@rec it, obs, out, n, entry, zero), [Entry::Rec, Entry::RecOne]),
                        }
                    })
                }
                (Method::Cubic, Kind::Regular, _) => {
                    let m = shim!(@maxdims entry, n);
                    with_n!(m, [1, 2, 3, 4, 5, 6, 7, 8, 10], M => {
                        let it = mc::MulticubicRegularRecursive::<$T, M>::new(dims, starts, steps, vals, p.lin)?;
                        match shared {
                            None => shim!(@rec it, obs, out, n, entry, zero),
                            Some(w) => w.run(&it, obs, out, |it, obs, out, entry| shim!(@rec it, obs, out, n, entry, zero), [Entry::Rec, Entry::RecOne]),
                        }
                    })
                }
                (Method::Cubic, Kind::Rectilinear, _) => {
                    let m = shim!(@maxdims entry, n);
                    with_n!(m, [1, 2, 3, 4, 5, 6, 7, 8, 10], M => {
                        let it = mc::MulticubicRectilinearRecursive::<$T, M>::new(grids, vals, p.lin)?;
                        match shared {
                            None => shim!(@rec it, obs, out, n, entry, zero),
                            Some(w) => w.run(&it, obs, out, |it, obs, out, entry| shim!(@rec it, obs, out, n, entry, zero), [Entry::Rec, Entry::RecOne]),
                        }
                    })
                }
                (Method::Nearest, _, e) => panic!("harness: no such entry {e:?}"),
            }
        }
    };
    (@flat $it:ident, $obs:ident, $out:ident, $N:ident, $entry:ident, $zero:ident) => {
        if $entry == Entry::FlatOne {
            for i in 0..$out.len() {
                let mut x = [$zero; $N];
                for d in 0..$N { x[d] = $obs[d][i]; }
                $out[i] = $it.interp_one(x)?;
            }
            Ok(())
        } else {
            $it.interp(&arr!($obs, $N), $out)
        }
    };
    (@maxdims $entry:ident, $n:ident) => {
        match $entry {
            Entry::Rec | Entry::RecOne => $n,
            Entry::RecNarrow => $n - 1,
            _ => vcore::WIDE,
        }
    };
    (@rec $it:ident, $obs:ident, $out:ident, $n:ident, $entry:ident, $zero:ident) => {
        if matches!($entry, Entry::RecOne | Entry::RecWideOne) {
            let mut buf = [$zero; vcore::WIDE];
            for i in 0..$out.len() {
                for d in 0..$obs.len() { buf[d] = $obs[d][i]; }
                $out[i] = $it.interp_one(&buf[..$obs.len()])?;
            }
            Ok(())
        } else {
            $it.interp($obs, $out)
        }
    };
}
