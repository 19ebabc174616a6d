//! C14 malformed input, C15 arbitrary floating-point content.
use crate::one::bad1_body;
use crate::typed;
use crate::uut::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::drive::*;
use vcore::*;

// ---- C15 ------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Special {
    Named(u8),
    Bits(u64),
    Num(f64),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Edit {
    Val(u32, Special),
    Obs(u8, u32, Special),
    /// place a coordinate this many cells from the first node
    Loc(u8, u32, f64),
    Start(u8, Special),
    Step(u8, Special),
    Grid(u8, u32, Special),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Soup {
    pub problem: Case,
    pub edits: Vec<Edit>,
}

fn special<T: Real>(s: Special) -> T {
    let max = T::of(T::MAXV);
    match s {
        Special::Bits(b) => T::from_bits_(b),
        Special::Num(x) => T::of(x),
        Special::Named(k) => match k % 16 {
            0 => T::nan(),
            1 => T::infinity(),
            2 => T::neg_infinity(),
            3 => T::zero(),
            4 => T::neg_zero(),
            5 => T::min_positive_value(),
            6 => T::min_positive_value() * T::epsilon(),
            7 => max,
            8 => -max,
            9 => max.sqrt(),
            10 => T::of(9.223372036854775807e18),
            11 => T::of(-9.223372036854775808e18),
            12 => T::of(1.8446744073709552e19),
            13 => -T::min_positive_value(),
            14 => max * T::of(0.5),
            _ => T::epsilon(),
        },
    }
}

fn specials() -> BoxedStrategy<Special> {
    prop_oneof![
        6 => any::<u8>().prop_map(Special::Named),
        2 => any::<u64>().prop_map(Special::Bits),
        2 => (-300.0..300.0f64, any::<bool>()).prop_map(|(e, n)| Special::Num(if n { -(10f64.powf(e)) } else { 10f64.powf(e) })),
    ]
    .boxed()
}
fn edit() -> BoxedStrategy<Edit> {
    // locations around the limits of isize, in cells
    let q = prop_oneof![
        prop::sample::select(vec![2f64.powi(62), -(2f64.powi(62)), 2f64.powi(63), -(2f64.powi(63)), 9.223372036854774784e18, -9.223372036854774784e18, 2f64.powi(63) * 1.0000000000000002, 2f64.powi(64), -(2f64.powi(64)), 2f64.powi(31), -(2f64.powi(31)), 2f64.powi(32), 9.223371e18, -9.223371e18, -9.223372e18, 9.2233726e18, -9.2233715e18]),
        (0.0..300.0f64, any::<bool>()).prop_map(|(e, n)| if n { -(10f64.powf(e)) } else { 10f64.powf(e) }),
    ];
    prop_oneof![
        3 => (any::<u32>(), specials()).prop_map(|(i, s)| Edit::Val(i, s)),
        6 => (any::<u8>(), any::<u32>(), specials()).prop_map(|(d, i, s)| Edit::Obs(d, i, s)),
        4 => (any::<u8>(), any::<u32>(), q).prop_map(|(d, i, s)| Edit::Loc(d, i, s)),
        1 => (any::<u8>(), specials()).prop_map(|(d, s)| Edit::Start(d, s)),
        1 => (any::<u8>(), specials()).prop_map(|(d, s)| Edit::Step(d, s)),
        3 => (any::<u8>(), any::<u32>(), specials()).prop_map(|(d, i, s)| Edit::Grid(d, i, s)),
    ]
    .boxed()
}
pub fn soups() -> BoxedStrategy<Soup> {
    let o = Opts { ndims: (1, 9), budget: 3000, bulk: false, max_pts: 5, work: 3000, ..Opts::default() };
    (case(&o), vec(edit(), 0..6), any::<bool>())
        .prop_map(|(mut problem, edits, simple)| {
            if simple {
                // simple grids, so that edited locations are hit exactly
                for a in problem.axes.iter_mut() {
                    a.step = 1.0;
                    a.s0 = 0.0;
                }
            }
            Soup { problem, edits }
        })
        .boxed()
}

pub fn soup<T: Real>(c: &Soup) -> Problem<T> {
    let mut p = expand::<T>(&c.problem);
    let n = p.ndims();
    let npts = p.npts();
    for e in &c.edits {
        match *e {
            Edit::Val(i, s) => {
                let k = i as usize % p.vals.len();
                p.vals[k] = special(s)
            }
            Edit::Obs(d, i, s) => p.obs[d as usize % n][i as usize % npts] = special(s),
            Edit::Loc(d, i, q) => {
                let d = d as usize % n;
                let (a, h) = if p.kind == Kind::Regular { (p.starts[d], p.steps[d]) } else { (p.grids[d][0], p.grids[d][1] - p.grids[d][0]) };
                p.obs[d][i as usize % npts] = a + h * T::of(q);
            }
            Edit::Start(d, s) => p.starts[d as usize % n] = special(s),
            // steps stay positive
            Edit::Step(d, s) => {
                let v = special::<T>(s).abs();
                p.steps[d as usize % n] = if v > T::zero() { v } else { T::min_positive_value() }
            }
            Edit::Grid(d, i, s) => {
                let d = d as usize % n;
                let m = p.grids[d].len();
                let v: T = special(s);
                match i as usize % m {
                    // the first two stay increasing
                    0 => {
                        if v < p.grids[d][1] {
                            p.grids[d][0] = v
                        }
                    }
                    1 => {
                        if v > p.grids[d][0] {
                            p.grids[d][1] = v
                        }
                    }
                    k => p.grids[d][k] = v,
                }
            }
        }
    }
    p
}

fn soup_body<T: Uut>(c: &Soup, t: &mut Tally) -> Result<(), String> {
    let p = soup::<T>(c);
    let n = p.ndims();
    t.label(method_label(p.method));
    t.label(kind_label(p.kind));
    t.label(nd_label(n));
    // what must be reported on a regular grid
    let mut must_err = false;
    let mut must_ok = true;
    for d in 0..n {
        for &x in &p.obs[d] {
            let q = (x - p.starts[d]) / p.steps[d];
            let q = q.f();
            if !(q.abs() < 9.3e18) {
                must_err = true;
            }
            if !(q.abs() < 4.7e18) {
                must_ok = false;
            }
        }
        if !p.steps[d].is_finite() || !p.starts[d].is_finite() {
            must_ok = false;
        }
    }
    if p.kind == Kind::Rectilinear {
        must_err = false;
        must_ok = true;
    }
    for e in entries_for(p.method, n) {
        t.compared += 1;
        match run_raw(&p, e) {
            Err(Failure::Panic(m)) => return Err(format!("{e:?} panicked: {m}: {}", p.describe(0))),
            Err(Failure::Err(m)) => {
                t.label("reported as error");
                if must_ok {
                    return Err(format!("{e:?} returned Err({m:?}) for representable locations: {}", p.describe(0)));
                }
            }
            Ok(out) => {
                if must_err {
                    return Err(format!("{e:?} returned values {out:?} although a location is unrepresentable: {}", p.describe(0)));
                }
                for (i, y) in out.iter().enumerate() {
                    let nan = p.obs.iter().any(|o| o[i].is_nan());
                    t.label_if(nan, "NaN coordinate evaluated");
                    if nan && y.is_finite() && p.method != Method::Nearest {
                        return Err(format!("{e:?} returned {y:?} for a NaN coordinate: {}", p.describe(i)));
                    }
                }
            }
        }
    }
    let mut flags = vec![false; n];
    for path in 0..BOUNDS_PATHS {
        for atol in [0.0, 1e-8] {
            if let Err(Failure::Panic(m)) = T::bounds(&p, path, T::of(atol), &mut flags) {
                return Err(format!("check_bounds #{path} panicked: {m}: {}", p.describe(0)));
            }
        }
    }
    t.label_if(must_err, "unrepresentable location");
    t.nontrivial = !c.edits.is_empty();
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Soup1 {
    pub case: crate::one::Case1,
    pub edits: Vec<Edit>,
}
fn soup1_body<T: Uut>(c: &Soup1, t: &mut Tally) -> Result<(), String> {
    let mut p = crate::one::build1::<T>(&c.case);
    for e in &c.edits {
        match *e {
            Edit::Val(i, s) => {
                let k = i as usize % p.vals.len();
                p.vals[k] = special(s)
            }
            Edit::Obs(_, i, s) => {
                let k = i as usize % p.locs.len();
                p.locs[k] = special(s)
            }
            Edit::Loc(_, i, q) => {
                let k = i as usize % p.locs.len();
                p.locs[k] = p.start + p.step * T::of(q)
            }
            Edit::Start(_, s) => p.start = special(s),
            Edit::Step(_, s) => p.step = special(s),
            Edit::Grid(_, i, s) => {
                let k = i as usize % p.grid.len();
                p.grid[k] = special(s)
            }
        }
    }
    for m in [Mode1::Eval, Mode1::One, Mode1::Alloc] {
        let mut out = vec![T::zero(); p.locs.len()];
        t.compared += 1;
        match T::eval1(&p, m, &mut out) {
            Err(Failure::Panic(e)) => return Err(format!("{m:?} panicked: {e}: {}", crate::one::describe1(&p, 0))),
            Err(_) => t.label("reported as error"),
            Ok(()) => {
                for i in 0..out.len() {
                    if p.locs[i].is_nan() && out[i].is_finite() && p.which == Interp1::Linear {
                        return Err(format!("{m:?} returned {:?} for a NaN location: {}", out[i], crate::one::describe1(&p, i)));
                    }
                }
            }
        }
    }
    t.nontrivial = !c.edits.is_empty();
    Ok(())
}

// ---- C14 ------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Defect {
    ValsLen(i8),
    ValsEmpty,
    ObsLen(u8, i8),
    OutLen(i8),
    ObsCount(i8),
    ObsNone,
    StartsLen(i8),
    StepsLen(i8),
    StepBad(u8, u8),
    AxisShort(u8, u8),
    DimOff(u8, i8),
    GridBad(u8, u8),
    NDims(u8),
    HugeDims(u8, u8),
    EmptyBatch,
    /// the same kind of defect on two axes, or two that cancel in a sum or product
    Pair(u8, u8, u8, i8),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Bad {
    pub case: Case,
    pub defects: Vec<Defect>,
}
fn defect() -> BoxedStrategy<Defect> {
    let nz = || prop_oneof![Just(-1i8), Just(1i8), -3..4i8];
    let ax = || any::<u8>();
    prop_oneof![
        1 => nz().prop_map(Defect::ValsLen),
        1 => Just(Defect::ValsEmpty),
        2 => (ax(), nz()).prop_map(|(a, b)| Defect::ObsLen(a, b)),
        2 => nz().prop_map(Defect::OutLen),
        1 => nz().prop_map(Defect::ObsCount),
        1 => Just(Defect::ObsNone),
        1 => nz().prop_map(Defect::StartsLen),
        1 => nz().prop_map(Defect::StepsLen),
        2 => (ax(), any::<u8>()).prop_map(|(a, b)| Defect::StepBad(a, b)),
        2 => (ax(), 0..4u8).prop_map(|(a, b)| Defect::AxisShort(a, b)),
        1 => (ax(), nz()).prop_map(|(a, b)| Defect::DimOff(a, b)),
        2 => (ax(), any::<u8>()).prop_map(|(a, b)| Defect::GridBad(a, b)),
        2 => (0..13u8).prop_map(Defect::NDims),
        1 => (ax(), any::<u8>()).prop_map(|(a, b)| Defect::HugeDims(a, b)),
        1 => Just(Defect::EmptyBatch),
        4 => (0..8u8, ax(), ax(), nz()).prop_map(|(k, a, b, d)| Defect::Pair(k, a, b, d)),
    ]
    .boxed()
}
pub fn bads(ndims: (usize, usize)) -> BoxedStrategy<Bad> {
    let o = Opts { ndims, budget: 3000, bulk: false, max_pts: 4, work: 3000, extreme: false, ..Opts::default() };
    (case(&o), vec(defect(), 0..4))
        .prop_map(|(mut case, mut defects)| {
            if case.method == Method::Cubic && case.axes.len() > 6 {
                let k = 1 + case.axes.len() % 4;
                case.axes.truncate(k);
                case.pts.iter_mut().for_each(|p| p.truncate(k));
            }
            if defects.len() == 3 {
                defects.truncate(1);
            }
            Bad { case, defects }
        })
        .boxed()
}

fn resize<X: Clone>(v: &mut Vec<X>, delta: i8, fill: X) {
    let n = (v.len() as i64 + delta as i64).max(0) as usize;
    v.resize(n, fill);
}

/// The raw arguments, and the output length.
pub fn mangle<T: Real>(b: &Bad) -> (Problem<T>, usize) {
    let mut p = expand::<T>(&b.case);
    let min = min_points(p.method);
    let mut out_delta = 0i8;
    for d in &b.defects {
        let n = p.dims.len();
        match *d {
            Defect::ValsLen(k) => resize(&mut p.vals, k, T::one()),
            Defect::ValsEmpty => p.vals.clear(),
            Defect::ObsLen(a, k) => {
                if !p.obs.is_empty() {
                    let a = a as usize % p.obs.len();
                    resize(&mut p.obs[a], k, T::zero())
                }
            }
            Defect::OutLen(k) => out_delta = k,
            Defect::ObsCount(k) => {
                let o = p.obs.first().cloned().unwrap_or_default();
                resize(&mut p.obs, k, o)
            }
            Defect::ObsNone => p.obs.clear(),
            Defect::StartsLen(k) => resize(&mut p.starts, k, T::zero()),
            Defect::StepsLen(k) => resize(&mut p.steps, k, T::one()),
            Defect::StepBad(a, w) => {
                if !p.steps.is_empty() {
                    let a = a as usize % p.steps.len();
                    p.steps[a] = [T::zero(), -p.steps[a].abs(), T::neg_zero(), T::neg_infinity(), -T::min_positive_value()][w as usize % 5];
                }
            }
            Defect::AxisShort(a, m) => {
                // consistent everywhere, but with fewer points on one axis
                if n > 0 {
                    let a = a as usize % n;
                    p.dims[a] = m as usize;
                    p.grids[a].truncate(m as usize);
                    while p.grids[a].len() < m as usize {
                        let x = p.grids[a].last().copied().unwrap_or(T::zero()) + T::one();
                        p.grids[a].push(x);
                    }
                    let len = p.dims.iter().fold(1u128, |x, d| x.saturating_mul(*d as u128)).min(100_000) as usize;
                    p.vals = make_vals(Vals::Uniform, 7, len);
                }
            }
            Defect::DimOff(a, k) => {
                if n > 0 {
                    let a = a as usize % n;
                    p.dims[a] = (p.dims[a] as i128 + k as i128).clamp(0, usize::MAX as i128) as usize;
                    let m = p.dims[a].min(100_000);
                    let x = p.grids[a].last().copied().unwrap_or(T::zero());
                    while p.grids[a].len() < m {
                        let x = x + T::of(p.grids[a].len() as f64);
                        p.grids[a].push(x);
                    }
                    p.grids[a].truncate(m);
                }
            }
            Defect::GridBad(a, w) => {
                if n > 0 {
                    let a = a as usize % n;
                    if p.grids[a].len() >= 2 {
                        match w % 3 {
                            0 => p.grids[a][1] = p.grids[a][0],
                            1 => p.grids[a].swap(0, 1),
                            _ => p.grids[a].reverse(),
                        }
                    }
                }
            }
            Defect::NDims(k) => {
                let k = (k as usize).min(if p.method == Method::Cubic { 9 } else { 12 });
                let npts = p.obs.first().map_or(1, |o| o.len());
                p.dims = vec![min; k];
                p.starts = vec![T::zero(); k];
                p.steps = vec![T::one(); k];
                p.grids = vec![(0..min).map(|i| T::of(i as f64)).collect(); k];
                p.obs = vec![vec![T::of(0.5); npts]; k];
                p.vals = make_vals(Vals::Uniform, 3, min.pow(k as u32));
            }
            Defect::HugeDims(a, w) => {
                if n > 0 && p.kind == Kind::Rectilinear && p.grids.len() == n {
                    // eight axes of 256 points or more: the product overflows
                    let k = 8;
                    let m = [256usize, 300, 1024][w as usize % 3];
                    let npts = p.obs.first().map_or(1, |o| o.len());
                    p.grids = vec![(0..m).map(|i| T::of(i as f64)).collect(); k];
                    p.dims = vec![m; k];
                    p.starts = vec![T::zero(); k];
                    p.steps = vec![T::one(); k];
                    p.obs = vec![vec![T::of(0.5); npts]; k];
                    if w & 1 == 1 {
                        // 256^8 and 1024^8 wrap to nothing
                        p.vals.clear();
                    }
                } else if n > 0 && p.kind == Kind::Regular {
                    let a = a as usize % n;
                    match w % 5 {
                        0 => p.dims[a] = usize::MAX,
                        1 => p.dims[a] = 1 << 63,
                        2 => p.dims[a] = isize::MAX as usize,
                        3 => p.dims.iter_mut().for_each(|d| *d = 1 << 32),
                        // wraps to the true number of values
                        _ => {
                            p.dims[a] = p.dims[a].wrapping_add(1 << 63);
                        }
                    }
                }
            }
            Defect::EmptyBatch => p.obs.iter_mut().for_each(|o| o.clear()),
            Defect::Pair(kind, a, b, k) => {
                if n < 2 || p.obs.len() != n || p.steps.len() != n || p.starts.len() != n || p.grids.len() != n {
                    continue;
                }
                let a = a as usize % n;
                let b = (a + 1 + b as usize % (n - 1)) % n;
                match kind {
                    0 | 1 => [a, b].into_iter().for_each(|i| p.steps[i] = -p.steps[i].abs()),
                    2 => {
                        resize(&mut p.obs[a], k, T::zero());
                        resize(&mut p.obs[b], -k, T::zero());
                    }
                    3 => {
                        resize(&mut p.starts, k, T::zero());
                        resize(&mut p.steps, k, T::one());
                    }
                    4 => {
                        for i in [a, b] {
                            if p.grids[i].len() >= 2 {
                                p.grids[i].reverse();
                            }
                        }
                    }
                    5 => {
                        // all observation arrays but the first agree with each other
                        p.obs.iter_mut().skip(1).for_each(|o| resize(o, k, T::zero()));
                    }
                    6 => {
                        // number of values as before, one axis too short
                        let m = p.dims[a].max(1).saturating_mul(p.dims[b].max(1));
                        if m <= 100_000 {
                            for (i, m) in [(a, 1), (b, m)] {
                                p.dims[i] = m;
                                p.grids[i] = (0..m).map(|j| T::of(j as f64)).collect();
                            }
                        }
                    }
                    _ => {
                        // values and output both off by the same amount
                        resize(&mut p.vals, k, T::one());
                        out_delta = k;
                    }
                }
            }
        }
    }
    let out = (p.obs.first().map_or(0, |o| o.len()) as i64 + out_delta as i64).max(0) as usize;
    (p, out)
}

fn grid_ok<T: Real>(p: &Problem<T>) -> bool {
    let min = min_points(p.method);
    let prod = |v: &mut dyn Iterator<Item = usize>| v.fold(1u128, |a, b| a.saturating_mul(b as u128));
    match p.kind {
        Kind::Regular => {
            let n = p.dims.len();
            p.starts.len() == n
                && p.steps.len() == n
                && p.dims.iter().all(|&d| d >= min)
                && p.steps.iter().all(|&s| s > T::zero())
                && prod(&mut p.dims.iter().copied()) == p.vals.len() as u128
        }
        Kind::Rectilinear => {
            p.grids.iter().all(|g| g.len() >= min && g[1] > g[0])
                && prod(&mut p.grids.iter().map(|g| g.len())) == p.vals.len() as u128
        }
    }
}

/// (entry, output length, is it well-formed) for every entry these arguments can be passed to
pub fn applicable<T: Real>(p: &Problem<T>, out: usize) -> Vec<(Entry, usize, bool)> {
    use Entry::*;
    let n = if p.kind == Kind::Regular { p.dims.len() } else { p.grids.len() };
    let g = grid_ok(p) && n >= 1;
    let npts = p.obs.first().map_or(0, |o| o.len());
    let equal = p.obs.iter().all(|o| o.len() == npts);
    let counts = p.obs.len() == n;
    let shaped = counts && p.obs.iter().all(|o| o.len() == out);
    let max = if p.method == Method::Nearest { 6 } else { 8 };
    let flat = match p.method {
        Method::Cubic => 4,
        _ => 6,
    };
    let mut v = vec![(Interpn, out, g && shaped && n <= max), (Alloc, npts, g && counts && equal && n <= max)];
    if (1..=flat).contains(&n) && p.obs.len() == n && (p.kind == Kind::Rectilinear || (p.starts.len() == n && p.steps.len() == n)) {
        v.push((Flat, out, g && shaped));
        if equal && npts > 0 {
            v.push((FlatOne, npts, g));
        }
    }
    if p.method != Method::Nearest {
        v.push((RecInterpn, out, g && shaped && n <= max));
        v.push((RecAlloc, npts, g && counts && equal && n <= max));
        v.push((RecWide, out, g && shaped && n <= WIDE));
        let ones = equal && npts > 0 && p.obs.len() <= WIDE;
        if ones {
            v.push((RecWideOne, npts, g && counts && n <= WIDE));
        }
        if (1..=8).contains(&n) {
            v.push((Rec, out, g && shaped));
            if ones {
                v.push((RecOne, npts, g && counts));
            }
        }
        if (2..=8).contains(&n) {
            v.push((RecNarrow, out, false));
        }
    }
    v
}

fn bad_body<T: Uut>(b: &Bad, t: &mut Tally) -> Result<(), String> {
    let (p, out_len) = mangle::<T>(b);
    t.label(method_label(p.method));
    t.label(kind_label(p.kind));
    for (e, len, ok) in applicable(&p, out_len) {
        let mut out = vec![T::zero(); len];
        let r = T::eval(&p, e, &mut out);
        t.compared += 1;
        if e == Entry::Interpn {
            t.label(if ok { "well-formed" } else { "malformed" });
            t.nontrivial = !ok;
        }
        let what = match (ok, &r) {
            (true, Ok(())) | (false, Err(Failure::Err(_))) => continue,
            (false, Ok(())) => "accepted malformed input".to_string(),
            (_, Err(f)) => f.to_string(),
        };
        return Err(format!(
            "{:?} {:?} {e:?} (output length {len}) {what}; defects {:?}; dims={:?} starts={} steps={:?} grid lengths={:?} vals={} obs lengths={:?}",
            p.method,
            p.kind,
            b.defects,
            p.dims,
            p.starts.len(),
            p.steps,
            p.grids.iter().map(|g| g.len()).collect::<Vec<_>>(),
            p.vals.len(),
            p.obs.iter().map(|g| g.len()).collect::<Vec<_>>()
        ));
    }
    for d in &b.defects {
        t.label(match d {
            Defect::ValsLen(_) | Defect::ValsEmpty => "values length",
            Defect::ObsLen(..) => "observation lengths",
            Defect::OutLen(_) => "output length",
            Defect::ObsCount(_) | Defect::ObsNone => "observation count",
            Defect::StartsLen(_) | Defect::StepsLen(_) => "starts/steps length",
            Defect::StepBad(..) => "step not positive",
            Defect::AxisShort(..) => "short axis",
            Defect::DimOff(..) => "size off",
            Defect::GridBad(..) => "not increasing",
            Defect::NDims(_) => "dimensionality",
            Defect::HugeDims(..) => "overflowing sizes",
            Defect::EmptyBatch => "empty batch",
            Defect::Pair(..) => "two related defects",
        });
    }
    Ok(())
}

/// Entry points agree on acceptance (reported under C09).
fn agree_body<T: Uut>(b: &Bad, t: &mut Tally) -> Result<(), String> {
    let (p, _) = mangle::<T>(b);
    // give every entry the same, consistent output length
    let npts = p.obs.first().map_or(0, |o| o.len());
    let n = if p.kind == Kind::Regular { p.dims.len() } else { p.grids.len() };
    let lim = if p.method == Method::Nearest { 6 } else { 8 };
    if n > lim || npts == 0 {
        return Ok(());
    }
    let mut first: Option<(Entry, bool)> = None;
    for (e, _, _) in applicable(&p, npts) {
        if e == Entry::RecNarrow {
            continue;
        }
        let mut out = vec![T::zero(); npts];
        let r = T::eval(&p, e, &mut out);
        match first {
            None => first = Some((e, r.is_ok())),
            Some((f, ok)) => {
                t.compared += 1;
                if ok != r.is_ok() {
                    return Err(format!("{f:?} {} but {e:?} {} ({:?} {:?}, defects {:?})", if ok { "accepts" } else { "rejects" }, if ok { "rejects" } else { "accepts" }, p.method, p.kind, b.defects));
                }
            }
        }
    }
    t.nontrivial = first.is_some_and(|f| !f.1) && t.compared > 0;
    Ok(())
}
pub fn agree() -> Box<dyn Sub> {
    Check::new("malformed", 12_000, 200_000, |_| bads((1, 8)), |c: &Bad, t| typed!(c.case.f32, agree_body(c, t)))
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BadBounds {
    pub f32: bool,
    pub kind: Kind,
    pub dims: Vec<usize>,
    pub starts: usize,
    pub steps: usize,
    pub obs: Vec<usize>,
    pub out: usize,
}
fn bad_bounds() -> BoxedStrategy<BadBounds> {
    (1..9usize)
        .prop_flat_map(|n| {
            let off = move || prop_oneof![5 => Just(n), 1 => 0..10usize];
            (
                any::<bool>(),
                prop::sample::select(vec![Kind::Regular, Kind::Rectilinear]),
                vec(prop_oneof![12 => 4..9usize, 1 => Just(0usize), 1 => Just(usize::MAX)], n),
                off(),
                off(),
                off().prop_flat_map(|k| vec(0..5usize, k)),
                off(),
            )
        })
        .prop_map(|(f32, kind, mut dims, starts, steps, obs, out)| {
            if kind == Kind::Rectilinear {
                dims.iter_mut().for_each(|d| *d = (*d).min(8));
            }
            BadBounds { f32, kind, dims, starts, steps, obs, out }
        })
        .boxed()
}
fn bad_bounds_body<T: Uut>(b: &BadBounds, t: &mut Tally) -> Result<(), String> {
    let n = b.dims.len();
    let p = Problem::<T> {
        method: Method::Linear,
        kind: b.kind,
        lin: false,
        dims: b.dims.clone(),
        starts: vec![T::zero(); b.starts],
        steps: vec![T::one(); b.steps],
        grids: b.dims.iter().map(|&d| (0..d.min(10)).map(|i| T::of(i as f64)).collect()).collect(),
        vals: vec![],
        obs: b.obs.iter().map(|&k| vec![T::of(1.5); k]).collect(),
    };
    let ok = b.obs.len() == n
        && b.out == n
        && b.dims.iter().all(|&d| d > 0)
        && (b.kind == Kind::Rectilinear || (b.starts == n && b.steps == n));
    for path in 0..BOUNDS_PATHS {
        let mut out = vec![true; b.out];
        t.compared += 1;
        match (ok, T::bounds(&p, path, T::of(1e-6), &mut out)) {
            (true, Ok(())) | (false, Err(Failure::Err(_))) => {}
            (_, r) => {
                return Err(format!("check_bounds #{path} {}: {b:?}", match r { Ok(()) => "accepted malformed input".into(), Err(f) => f.to_string() }));
            }
        }
    }
    t.label(if ok { "well-formed" } else { "malformed" });
    t.nontrivial = !ok;
    Ok(())
}

pub fn props() -> Vec<Property> {
    let soup1 = || {
        (crate::one::case1(crate::one::ALL1.to_vec(), 200), vec(edit(), 0..6))
            .prop_map(|(case, edits)| Soup1 { case, edits })
            .boxed()
    };
    vec![
        Property {
            id: "C14",
            rule: "a generated well-formed problem with 0..3 generated defects (wrong array lengths or counts, empty arrays, short or overflowing axis sizes, non-positive steps, non-increasing first coordinates, 0 or 7..12 dimensions, too small MAXDIMS) is offered to every entry point the arguments fit; an independent predicate says whether each call must succeed; plus the same for check_bounds and 1-D lengths; non-trivial: the arguments are malformed for interpn / check_bounds",
            assumptions: &["defects that Rust's types exclude (array lengths of the fixed-dimension structs) are not expressible"],
            subs: vec![
                Check::new("defects", 50_000, 1_000_000, |_| bads((1, 8)), |c: &Bad, t| typed!(c.case.f32, bad_body(c, t))),
                Check::new("bounds", 12_000, 200_000, |_| bad_bounds(), |c: &BadBounds, t| typed!(c.f32, bad_bounds_body(c, t))),
                Check::new("one_dim", 6_000, 60_000, |_| crate::one::bad1(), |c: &crate::one::Bad1, t| typed!(c.f32, bad1_body(c, t))),
            ],
        },
        Property {
            id: "C15",
            rule: "a generated problem with up to five generated edits placing NaN, infinities, zeros, subnormals, extreme or arbitrary bit patterns in values, observation coordinates, starts, steps (kept positive) and grid coordinates (first two kept increasing), and locations around +-2^31, 2^32, 2^62, 2^63, 2^64 cells away; every entry point, check_bounds and the 1-D interpolators; non-trivial: at least one edit",
            assumptions: &["locations between 4.7e18 and 9.3e18 cells may be accepted or rejected, since the rounding of (x - start)/step decides"],
            subs: vec![
                Check::new("nd", 24_000, 1_000_000, |_| soups(), |c: &Soup, t| typed!(c.problem.f32, soup_body(c, t))),
                Check::new("one_dim", 12_000, 400_000, move |_| soup1(), |c: &Soup1, t| typed!(c.case.f32, soup1_body(c, t))),
            ],
        },
    ]
}
