//! C16 bounds checks, C17 allocation, C23 grid utilities.
use crate::typed;
use crate::uut::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::drive::*;
use vcore::oracle::*;
use vcore::*;

// ---- C16 --------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Tol {
    Zero,
    /// fraction of the first cell of axis 0
    Rel(f64),
    Abs(f64),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Where {
    Inside(i32, f64),
    First,
    Last,
    /// beyond an end by this multiple of the tolerance
    Beyond(bool, f64),
    /// beyond an end by this many end cells
    Cells(bool, f64),
    Inf(bool),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Bounds {
    pub case: Case,
    pub tol: Tol,
    /// per axis
    pub pts: Vec<Vec<Where>>,
    /// axes whose observation lists are replaced by inside points only
    pub calm: u16,
}

fn bounds_case() -> BoxedStrategy<Bounds> {
    let o = Opts { ndims: (1, 10), budget: 4000, bulk: false, max_pts: 1, methods: vec![Method::Linear], ..Opts::default() };
    let w = prop_oneof![
        10 => (any::<i32>(), 0.0..1.0f64).prop_map(|(i, f)| Where::Inside(i, f)),
        3 => Just(Where::First),
        3 => Just(Where::Last),
        2 => (any::<bool>(), prop_oneof![0.0..0.9f64, 1.1..2.0f64, 1.5..100.0f64]).prop_map(|(s, f)| Where::Beyond(s, f)),
        1 => (any::<bool>(), dist()).prop_map(|(s, f)| Where::Cells(s, f)),
        1 => any::<bool>().prop_map(Where::Inf),
    ];
    let tol = prop_oneof![
        2 => Just(Tol::Zero),
        3 => (-6.0..1.0f64).prop_map(|e| Tol::Rel(10f64.powf(e))),
        2 => Just(Tol::Abs(1e-8)),
        1 => (-12.0..3.0f64).prop_map(|e| Tol::Abs(10f64.powf(e))),
    ];
    (case(&o), tol, vec(vec(w, 1..9), 10), prop_oneof![Just(0u16), any::<u16>(), any::<u16>()], prop_oneof![80 => Just(0usize), 20 => 1..3000usize, 1 => prop::sample::select(vec![4090usize, 8190, 16_380, 65_530])])
        .prop_map(|(mut case, tol, pts, calm, pad)| {
            let n = case.axes.len();
            case.axes.iter_mut().for_each(|a| a.n = a.n.min(2000));
            case.pts.clear();
            let m = pts[0].len();
            // all axes get the same number of points
            let mut pts: Vec<Vec<Where>> = pts[..n]
                .iter()
                .map(|v| (0..m).map(|i| v[i % v.len()]).collect())
                .collect();
            if pad > 0 {
                // long lists: the interesting points come last, first or between
                for p in pts.iter_mut() {
                    let mut q: Vec<Where> = (0..pad).map(|i| Where::Inside(i as i32, unit(mix(i as u64)))).collect();
                    let at = match pad % 4 {
                        0 => 0,
                        1 => pad / 2,
                        _ => pad,
                    };
                    q.splice(at..at, p.drain(..));
                    *p = q;
                }
            }
            Bounds { case, tol, pts, calm }
        })
        .boxed()
}

fn bounds_body<T: Uut>(b: &Bounds, t: &mut Tally) -> Result<(), String> {
    let mut c = b.case.clone();
    c.pts = vec![];
    let mut p = expand_sans_vals::<T>(&c);
    let n = p.ndims();
    let atol = match b.tol {
        Tol::Zero => T::zero(),
        Tol::Abs(a) => T::of(a),
        Tol::Rel(r) => T::of(r * (p.grids[0][1].f() - p.grids[0][0].f())),
    };
    let a = atol.f();
    for d in 0..n {
        let g = &p.grids[d];
        let m = g.len();
        p.obs[d] = b.pts[d]
            .iter()
            .enumerate()
            .map(|(k, w)| {
                let w = if b.calm >> d & 1 == 1 && !matches!(w, Where::Inside(..)) { Where::Inside(k as i32, unit(mix(k as u64))) } else { *w };
                match w {
                    Where::Inside(i, f) => {
                        let i = wrap(i, m - 1);
                        T::of(g[i].f() + f * (g[i + 1].f() - g[i].f()))
                    }
                    Where::First => g[0],
                    Where::Last => g[m - 1],
                    Where::Beyond(hi, f) => T::of(if hi { g[m - 1].f() + f * a } else { g[0].f() - f * a }),
                    Where::Cells(hi, f) => T::of(if hi { g[m - 1].f() + f * (g[m - 1].f() - g[m - 2].f()) } else { g[0].f() - f * (g[1].f() - g[0].f()) }),
                    Where::Inf(hi) => if hi { T::infinity() } else { T::neg_infinity() },
                }
            })
            .collect();
    }
    t.label(kind_label(p.kind));
    t.label(nd_label(n));
    // per axis: must be true / must be false / either
    let mut want: Vec<Option<bool>> = vec![];
    for d in 0..n {
        let ax = view(&p, d);
        let (lo, hi) = (ax.at(0), ax.at(p.dims[d] - 1));
        let exact = p.kind == Kind::Rectilinear;
        let mut flag = Some(false);
        for x in &p.obs[d] {
            let x = x.f();
            let excess = (lo - x).max(x - hi); // > 0 outside
            let slack = if exact { 0.0 } else { ax.coord_err(if x.is_finite() { x } else { 0.0 }, p.dims[d]) };
            // rounding of the difference, and of the tolerance test
            let r = slack + 4.0 * T::EPS * (excess.abs() + a);
            if excess == f64::INFINITY || excess > a + r {
                flag = Some(true);
                break;
            }
            // on or inside the ends (of the stored coordinates)
            let inside = if exact { excess <= 0.0 } else { excess <= -slack || x == lo };
            if !(inside || excess < a - r) {
                flag = None;
            }
        }
        want.push(flag);
    }
    for path in 0..BOUNDS_PATHS {
        for before in [false, true] {
            let mut out = vec![before; n];
            T::bounds(&p, path, atol, &mut out).map_err(|f| format!("check_bounds #{path} {f}: {}", p.describe(0)))?;
            for d in 0..n {
                let Some(w) = want[d] else { continue };
                t.compared += 1;
                if out[d] != w {
                    return Err(format!(
                        "check_bounds #{path} reports {} for axis {d}, should be {w} (atol {atol:?}, obs {:?}): {}",
                        out[d],
                        if p.obs[d].len() < 20 { p.obs[d].clone() } else { p.obs[d][p.obs[d].len() - 9..].to_vec() },
                        p.describe(p.npts())
                    ));
                }
            }
        }
    }
    t.label_if(want.contains(&Some(true)) && want.contains(&Some(false)), "some axes in, some out");
    t.label_if(want.contains(&None), "undecided axis");
    t.nontrivial = want.contains(&Some(true)) || b.pts.iter().flatten().any(|w| matches!(w, Where::First | Where::Last | Where::Beyond(..)));
    Ok(())
}

/// Regular and rectilinear descriptions of an exactly representable grid agree.
fn bounds_same<T: Uut>(b: &Bounds, t: &mut Tally) -> Result<(), String> {
    let mut b = b.clone();
    let h = mix(b.case.extra);
    for (d, a) in b.case.axes.iter_mut().enumerate() {
        let h = mix(h ^ d as u64);
        *a = Axis { n: 2 + (h % 40) as usize, step: 2f64.powi((h >> 8) as i32 % 4), s0: (h >> 20) as f64 % 30.0, gap: None };
        a.s0 = a.s0.floor() - 15.0;
    }
    b.case.pts = vec![];
    let mut p = expand_sans_vals::<T>(&b.case);
    let atol = T::of([0.0, 0.25, 0.5, 1.0][(h >> 50) as usize % 4]);
    for d in 0..p.ndims() {
        let g = p.grids[d].clone();
        p.obs[d] = (0..b.pts[d].len().min(20) as u64)
            .map(|i| {
                let z = mix(h ^ mix(i) ^ d as u64);
                // quarter-integer offsets around both ends
                let off = T::of((z >> 8 & 15) as f64 * 0.25 - if i == 0 { 1.0 } else { 0.0 });
                if z & 1 == 0 { g[0] + off } else { *g.last().unwrap() - off }
            })
            .collect();
    }
    let mut q = p.clone();
    p.kind = Kind::Regular;
    q.kind = Kind::Rectilinear;
    let n = p.ndims();
    for path in 0..BOUNDS_PATHS {
        let (mut x, mut y) = (vec![false; n], vec![true; n]);
        T::bounds(&p, path, atol, &mut x).map_err(|f| f.to_string())?;
        T::bounds(&q, path, atol, &mut y).map_err(|f| f.to_string())?;
        for d in 0..n {
            t.compared += 1;
            let (lo, hi) = (p.grids[d][0], p.grids[d][p.dims[d] - 1]);
            let over = |a: T| p.obs[d].iter().any(|&v| lo - v > a || v - hi > a);
            // exactly at the tolerance either answer is fine, as long as both kinds give it
            let edge = p.obs[d].iter().any(|&v| atol > T::zero() && (lo - v == atol || v - hi == atol));
            if x[d] != y[d] || (!edge && x[d] != over(atol)) {
                return Err(format!("check_bounds #{path} axis {d}: regular {} rectilinear {} expected {} (atol {atol:?}, obs {:?}, grid {lo:?}..{hi:?})", x[d], y[d], over(atol), p.obs[d]));
            }
        }
    }
    t.nontrivial = true;
    Ok(())
}

// ---- C17 --------------------------------------------------------------------

fn counted<R>(f: impl FnOnce() -> R) -> (R, u64) {
    let before = ALLOCS.with(|c| c.get());
    let r = f();
    (r, ALLOCS.with(|c| c.get()) - before)
}
pub fn noalloc<T: Uut>(p: &Problem<T>, what: &str, t: &mut Tally) -> Result<(), String> {
    let n = p.ndims();
    for e in entries_for(p.method, n) {
        if matches!(e, Entry::Alloc | Entry::RecAlloc) {
            continue;
        }
        let mut out = vec![T::zero(); p.npts()];
        let (r, k) = counted(|| T::eval(p, e, &mut out));
        t.compared += 1;
        t.label(match &r {
            Ok(()) => "completed",
            Err(Failure::Err(_)) => "error path",
            Err(Failure::Panic(_)) => "panic (not judged here)",
        });
        if k != 0 && !matches!(r, Err(Failure::Panic(_))) {
            return Err(format!("{e:?} made {k} allocator calls ({what}, result {:?}): {}", r.is_ok(), p.describe(0)));
        }
    }
    Ok(())
}
fn alloc_body<T: Uut>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let p = expand::<T>(c);
    t.label(method_label(p.method));
    t.label(nd_label(p.ndims()));
    noalloc(&p, "evaluation", t)?;
    let mut flags = vec![false; p.ndims()];
    for path in 0..BOUNDS_PATHS {
        let (_, k) = counted(|| T::bounds(&p, path, T::zero(), &mut flags));
        t.compared += 1;
        if k != 0 {
            return Err(format!("check_bounds #{path} made {k} allocator calls"));
        }
    }
    t.label_if(p.npts() > 200, "batch>200");
    t.label_if(p.dims.iter().any(|&n| n > 255), "axis>255");
    t.nontrivial = true;
    Ok(())
}
fn alloc_soup<T: Uut>(c: &crate::bad::Soup, t: &mut Tally) -> Result<(), String> {
    let p = crate::bad::soup::<T>(c);
    noalloc(&p, "extreme content", t)?;
    // wrong lengths: error paths of the slice-based functions
    let mut q = p.clone();
    match mix(c.problem.extra) % 4 {
        0 => q.vals.push(T::zero()),
        1 => q.vals.clear(),
        2 => q.obs[0].push(T::zero()),
        _ => q.steps.iter_mut().for_each(|s| *s = -*s),
    }
    for e in [Entry::Interpn, Entry::RecInterpn] {
        if p.method == Method::Nearest && (e == Entry::RecInterpn || p.ndims() > 6) || p.ndims() > 8 {
            continue;
        }
        let mut out = vec![T::zero(); p.npts()];
        let (r, k) = counted(|| T::eval(&q, e, &mut out));
        t.compared += 1;
        t.label_if(matches!(r, Err(Failure::Err(_))), "malformed rejected");
        if k != 0 && !matches!(r, Err(Failure::Panic(_))) {
            return Err(format!("{e:?} made {k} allocator calls on a malformed call: {}", p.describe(0)));
        }
    }
    t.nontrivial = true;
    Ok(())
}
fn alloc_one<T: Uut>(c: &crate::one::Case1, t: &mut Tally) -> Result<(), String> {
    let p = crate::one::build1::<T>(c);
    for m in [Mode1::Eval, Mode1::One] {
        let mut out = vec![T::zero(); p.locs.len()];
        let (r, k) = counted(|| T::eval1(&p, m, &mut out));
        t.compared += 1;
        if k != 0 && !matches!(r, Err(Failure::Panic(_))) {
            return Err(format!("{m:?} made {k} allocator calls: {}", crate::one::describe1(&p, 0)));
        }
    }
    t.nontrivial = true;
    Ok(())
}

// ---- C23 --------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Lin {
    pub f32: bool,
    pub a: f64,
    pub b: f64,
    pub n: usize,
}
fn lins(th: bool) -> BoxedStrategy<Lin> {
    let top = if th { 2_000_000usize } else { 70_000 };
    let x = || prop_oneof![3 => -100..100i32, 1 => Just(0i32)].prop_map(|i| i as f64);
    let y = || prop_oneof![2 => -10.0..10.0f64, 1 => (-30.0..30.0f64).prop_map(|e| 10f64.powf(e)), 1 => Just(0.0f64)];
    let n = prop_oneof![8 => 2..40usize, 2 => 40..3000usize, 1 => 3000..top, 1 => prop::sample::select(vec![2usize, 3, 127, 128, 255, 256, 257, 65535, 65536, 65537])];
    (any::<bool>(), prop_oneof![x(), y()], prop_oneof![x(), y()], n)
        .prop_map(|(f32, a, b, n)| Lin { f32, a, b, n })
        .boxed()
}
fn lin_body<T: Uut>(c: &Lin, t: &mut Tally) -> Result<(), String> {
    let (a, b) = (T::of(c.a), T::of(c.b));
    let v = T::linspace(a, b, c.n).map_err(|f| format!("linspace({a:?}, {b:?}, {}) {f}", c.n))?;
    if v.len() != c.n {
        return Err(format!("linspace({a:?}, {b:?}, {}) has {} elements", c.n, v.len()));
    }
    if v[0] != a {
        return Err(format!("linspace({a:?}, {b:?}, {}) starts at {:?}", c.n, v[0]));
    }
    let scale = a.f().abs().max(b.f().abs());
    let tol = 6.0 * T::EPS * (scale + (b.f() - a.f()).abs());
    for (i, x) in v.iter().enumerate() {
        let want = a.f() + (b.f() - a.f()) * (i as f64 / (c.n - 1) as f64);
        t.compared += 1;
        if !((x.f() - want).abs() <= tol) {
            return Err(format!("linspace({a:?}, {b:?}, {})[{i}] = {x:?}, expected {want:?}", c.n));
        }
    }
    t.nontrivial = a != b;
    t.label(if a < b { "increasing" } else if a > b { "decreasing" } else { "equal bounds" });
    Ok(())
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Mesh {
    pub f32: bool,
    pub sizes: Vec<usize>,
    pub seed: u64,
}
fn meshes(th: bool) -> BoxedStrategy<Mesh> {
    let cap = if th { 300_000usize } else { 20_000 };
    (any::<bool>(), vec(prop_oneof![4 => 1..5usize, 2 => 1..9usize, 1 => 1..400usize], 1..10), any::<u64>())
        .prop_map(move |(f32, mut sizes, seed)| {
            let mut prod = 1;
            for s in sizes.iter_mut() {
                *s = (*s).min((cap / prod).max(1));
                prod *= *s;
            }
            Mesh { f32, sizes, seed }
        })
        .boxed()
}
fn mesh_body<T: Uut>(c: &Mesh, t: &mut Tally) -> Result<(), String> {
    let x: Vec<Vec<T>> = c
        .sizes
        .iter()
        .enumerate()
        .map(|(d, &s)| (0..s).map(|i| T::of((unit(mix(c.seed ^ (d * 1000 + i) as u64)) * 64.0).floor() - 32.0)).collect())
        .collect();
    let m = T::meshgrid(&x).map_err(|f| format!("meshgrid of sizes {:?} {f}", c.sizes))?;
    let total: usize = c.sizes.iter().product();
    if m.len() != total {
        return Err(format!("meshgrid of sizes {:?} has {} rows", c.sizes, m.len()));
    }
    for (k, row) in m.iter().enumerate() {
        let mut r = k;
        let mut want = vec![T::zero(); x.len()];
        for d in (0..x.len()).rev() {
            want[d] = x[d][r % c.sizes[d]];
            r /= c.sizes[d];
        }
        t.compared += 1;
        if row.len() != x.len() || !row.iter().zip(&want).all(|(a, b)| a.bits() == b.bits()) {
            return Err(format!("meshgrid of sizes {:?}, row {k} is {row:?}, expected {want:?}", c.sizes));
        }
    }
    t.nontrivial = c.sizes.iter().filter(|s| **s > 1).count() > 1;
    t.label(nd_label(c.sizes.len()));
    Ok(())
}

pub fn props() -> Vec<Property> {
    let o = Opts { ndims: (1, 10), budget: 20_000, work: 20_000, ..Opts::default() };
    let bulky = move |th: bool| -> BoxedStrategy<Case> {
        let o = o.clone();
        (case(&o), prop_oneof![30 => Just(0u32), 10 => 1..40u32, 10 => 100..if th { 20_000u32 } else { 3000u32 }, 1 => prop::sample::select(vec![4096u32, 4097, 8193, 16_385, 65_537])], any::<u64>())
            .prop_map(|(mut c, len, seed)| {
                if len > 0 {
                    let cost = footprint(c.method).pow(c.axes.len() as u32) as u32;
                    c.bulk = Some(Bulk { len: len.min(1 + if len > 3000 { 200_000 } else { 40_000 } / cost), seed });
                }
                c
            })
            .boxed()
    };
    vec![
        Property {
            id: "C16",
            rule: "generated grids (1..10 axes, both kinds) with per-axis observation lists of inside points, exact end points, points beyond an end by multiples of the tolerance or of a cell, and infinities, checked through the five exported check_bounds paths with both previous contents of the flags; plus exactly representable grids posed in both kinds; non-trivial: some axis is out of bounds or has a point on or near an end",
            assumptions: &["points whose excess differs from the tolerance by less than the rounding of the comparison, and NaN coordinates, are not judged"],
            subs: vec![
                Check::new("flags", 24_000, 800_000, |_| bounds_case(), |c: &Bounds, t| typed!(c.case.f32, bounds_body(c, t))),
                Check::new("same", 8_000, 200_000, |_| bounds_case(), |c: &Bounds, t| typed!(c.case.f32, bounds_same(c, t))),
            ],
        },
        Property {
            id: "C17",
            rule: "a counting global allocator observes every allocator call made on the thread while library code runs: construction plus evaluation through every non-allocating entry point, check_bounds, 1-D interpolators, and error paths (malformed and numerically extreme input); every case is non-trivial",
            assumptions: &["calls that panic are not judged here (the panic machinery allocates); they are judged by C14/C15"],
            subs: vec![
                Check::new("nd", 8_000, 200_000, bulky, |c: &Case, t| typed!(c.f32, alloc_body(c, t))),
                Check::new("errors", 8_000, 200_000, |_| crate::bad::soups(), |c: &crate::bad::Soup, t| typed!(c.problem.f32, alloc_soup(c, t))),
                Check::new("one_dim", 6_000, 100_000, |_| crate::one::case1(crate::one::ALL1.to_vec(), 5000), |c: &crate::one::Case1, t| typed!(c.f32, alloc_one(c, t))),
            ],
        },
        Property {
            id: "C23",
            rule: "generated bounds and counts for linspace, generated lists of 1..9 coordinate arrays for meshgrid compared element by element with the definition; non-trivial: different bounds, or at least two arrays with several elements",
            assumptions: &["linspace elements are compared to 6 eps of the bounds' magnitude"],
            subs: vec![
                Check::new("linspace", 16_000, 400_000, lins, |c: &Lin, t| typed!(c.f32, lin_body(c, t))),
                Check::new("meshgrid", 6_000, 100_000, meshes, |c: &Mesh, t| typed!(c.f32, mesh_body(c, t))),
            ],
        },
    ]
}
