//! C20, C21: the one-dimensional interpolators (and their share of C06).
use crate::typed;
use crate::uut::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::drive::*;
use vcore::oracle::*;
use vcore::*;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case1 {
    pub f32: bool,
    pub kind: Kind,
    pub which: Interp1,
    pub mode: Mode1,
    pub axis: Axis,
    pub vals: Vals,
    pub vseed: u64,
    pub locs: Vec<Pt>,
    /// further locations
    #[serde(default)]
    pub bulk: Option<Bulk>,
    pub extra: u64,
}

pub fn case1(which: Vec<Interp1>, max_n: usize) -> BoxedStrategy<Case1> {
    let o = Opts { ndims: (1, 1), budget: max_n, max_axis: max_n, bulk: false, max_pts: 1, ..Opts::method(Method::Linear) };
    (
        case(&o),
        prop::sample::select(which),
        prop::sample::select(vec![Mode1::Eval, Mode1::One, Mode1::Alloc]),
        vec(pt(), 1..40),
        prop_oneof![
            14 => Just(None),
            1 => (prop_oneof![40..600u32, 600..6000u32], any::<u64>()).prop_map(|(len, seed)| Some(Bulk { len, seed })),
        ],
    )
        .prop_map(|(c, which, mode, locs, bulk)| Case1 {
            f32: c.f32,
            kind: c.kind,
            which,
            mode,
            axis: c.axes[0],
            vals: c.vals,
            vseed: c.vseed,
            locs,
            bulk,
            extra: c.extra,
        })
        .boxed()
}

pub fn build1<T: Real>(c: &Case1) -> Problem1<T> {
    let grid = axis_coords::<T>(&c.axis);
    let mut locs: Vec<T> = c.locs.iter().map(|q| coord(q, &grid)).collect();
    if let Some(b) = c.bulk {
        locs.extend((0..b.len as u64).map(|i| coord(&hash_pt(mix(b.seed ^ i)), &grid)));
    }
    Problem1 {
        kind: c.kind,
        which: c.which,
        start: T::of(c.axis.step * c.axis.s0),
        step: T::of(c.axis.step),
        vals: make_vals(c.vals, c.vseed, grid.len()),
        grid,
        locs,
    }
}

/// the same data as an N-D problem, for the reference
pub fn as_nd<T: Real>(p: &Problem1<T>) -> Problem<T> {
    Problem {
        method: Method::Linear,
        kind: p.kind,
        lin: false,
        dims: vec![p.vals.len()],
        starts: vec![p.start],
        steps: vec![p.step],
        grids: vec![p.grid.clone()],
        vals: p.vals.clone(),
        obs: vec![p.locs.clone()],
    }
}

pub fn run1<T: Uut>(p: &Problem1<T>, m: Mode1) -> Result<Vec<T>, String> {
    let mut out = vec![T::of(-7.0e20); p.locs.len()];
    T::eval1(p, m, &mut out).map_err(|f| format!("{:?} {m:?} {f} on well-formed input: {}", p.which, describe1(p, 0)))?;
    Ok(out)
}

pub fn describe1<T: Real>(p: &Problem1<T>, i: usize) -> String {
    let g = match p.kind {
        Kind::Regular => format!("start={:?} step={:?} n={}", p.start, p.step, p.vals.len()),
        Kind::Rectilinear if p.grid.len() <= 12 => format!("{:?}", p.grid),
        Kind::Rectilinear => format!("n={} from {:?}", p.grid.len(), p.grid[0]),
    };
    let v = if p.vals.len() <= 16 { format!("{:?}", p.vals) } else { format!("{} values", p.vals.len()) };
    format!("{:?} {:?} x={:?} grid={g} vals={v}", p.which, p.kind, p.locs.get(i))
}

/// absolute uncertainty of node coordinates in the regular 1-D formulas
fn slack<T: Real>(p: &Problem1<T>) -> f64 {
    match p.kind {
        Kind::Regular => 4.0 * T::EPS * (p.start.f().abs() + p.step.f().abs() * p.vals.len() as f64),
        Kind::Rectilinear => 0.0,
    }
}

pub fn linear_ok<T: Real>(p: &Problem1<T>, nd: &Problem<T>, x: T, got: T) -> Result<bool, String> {
    let n = p.vals.len();
    let ax = view(nd, 0);
    let d = slack(p);
    if p.kind == Kind::Regular && d > 1e-2 * p.step.f() {
        return Ok(false);
    }
    let (lo, hi) = (ax.at(0), ax.at(n - 1));
    let xx = x.f();
    // hold-last: a location beyond an end counts as that end
    let xx = if p.which == Interp1::HoldLast { xx.clamp(lo, hi) } else { xx };
    let mut r = reference_rel(nd, &[T::of(xx)], &[d]);
    if p.which == Interp1::HoldLast {
        r.e += 2.0 * d / ax.step.abs().max(1e-300) * if p.kind == Kind::Regular { r.a } else { 0.0 };
    }
    if !assessable::<T>(&r) {
        return Ok(false);
    }
    if close(got.f(), r.v, r.e) {
        Ok(r.e < 1e-2 * r.a)
    } else {
        Err(format!("got {got:?}, documented value {:?} (roundoff bound {:e})", r.v, r.e))
    }
}

fn linear_body<T: Uut>(c: &Case1, t: &mut Tally) -> Result<(), String> {
    let p = build1::<T>(c);
    let nd = as_nd(&p);
    let n = p.vals.len();
    t.label(kind_label(p.kind));
    t.label(if c.which == Interp1::Linear { "linear" } else { "hold_last" });
    for m in [Mode1::Eval, Mode1::One, Mode1::Alloc] {
        let out = run1(&p, m)?;
        for i in 0..out.len() {
            let outside = p.locs[i] < p.grid[0] || p.locs[i] > p.grid[n - 1];
            if c.which == Interp1::HoldLast && outside && p.kind == Kind::Rectilinear {
                let want = if p.locs[i] < p.grid[0] { p.vals[0] } else { p.vals[n - 1] };
                let e = 8.0 * T::EPS * (want.f().abs() + p.vals[n - 2].f().abs() + p.vals[1].f().abs());
                if !close(out[i].f(), want.f(), e) {
                    return Err(format!("{m:?} gives {:?}, held value is {want:?}: {}", out[i], describe1(&p, i)));
                }
                t.compared += 1;
                continue;
            }
            match linear_ok(&p, &nd, p.locs[i], out[i]) {
                Ok(b) => t.compared += b as u64,
                Err(e) => return Err(format!("{m:?} {e}: {}", describe1(&p, i))),
            }
            t.label_if(outside, "outside");
        }
    }
    t.nontrivial = t.compared > 0 && p.vals.iter().any(|v| *v != p.vals[0]);
    Ok(())
}

/// Inside the grid the two linear interpolators are the same function.
fn same_inside<T: Uut>(c: &Case1, t: &mut Tally) -> Result<(), String> {
    let mut p = build1::<T>(c);
    let n = p.vals.len();
    let d = slack(&p);
    p.which = Interp1::Linear;
    let a = run1(&p, c.mode)?;
    p.which = Interp1::HoldLast;
    let b = run1(&p, c.mode)?;
    let nd = as_nd(&p);
    for i in 0..a.len() {
        let x = p.locs[i].f();
        if x < p.grid[0].f() + 2.0 * d || x > p.grid[n - 1].f() - 2.0 * d {
            continue;
        }
        let r = reference_rel(&nd, &[p.locs[i]], &[d]);
        if !assessable::<T>(&r) {
            continue;
        }
        if !close(a[i].f(), b[i].f(), 2.0 * r.e) {
            return Err(format!("Linear1D {:?} but LinearHoldLast1D {:?} inside the grid: {}", a[i], b[i], describe1(&p, i)));
        }
        t.compared += 1;
    }
    t.nontrivial = t.compared > 0;
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Bad1 {
    pub f32: bool,
    pub kind: Kind,
    pub which: Interp1,
    pub mode: Mode1,
    pub grid: usize,
    pub vals: usize,
    pub locs: usize,
    pub out: usize,
}
pub fn bad1() -> BoxedStrategy<Bad1> {
    let len = || prop_oneof![Just(0usize), Just(1usize), Just(2usize), 0..9usize];
    (
        any::<bool>(),
        prop::sample::select(vec![Kind::Regular, Kind::Rectilinear]),
        prop::sample::select(ALL1.to_vec()),
        prop::sample::select(vec![Mode1::Eval, Mode1::One, Mode1::Alloc]),
        (len(), len(), len(), len()),
        0..8u8,
    )
        .prop_map(|(f32, kind, which, mode, (mut grid, vals, locs, mut out), k)| {
            if k & 1 == 0 {
                grid = vals
            }
            if k & 2 == 0 {
                out = locs
            }
            Bad1 { f32, kind, which, mode, grid, vals, locs, out }
        })
        .boxed()
}
pub const ALL1: [Interp1; 5] = [Interp1::Linear, Interp1::HoldLast, Interp1::Left, Interp1::Right, Interp1::Nearest];

/// accepted iff the arrays are consistent; never a panic
pub fn bad1_body<T: Uut>(c: &Bad1, t: &mut Tally) -> Result<(), String> {
    let p = Problem1::<T> {
        kind: c.kind,
        which: c.which,
        start: T::of(-1.5),
        step: T::of(0.5),
        grid: (0..c.grid).map(|i| T::of(i as f64 - 2.0)).collect(),
        vals: (0..c.vals).map(|i| T::of(i as f64 * 0.3)).collect(),
        locs: (0..c.locs).map(|i| T::of(i as f64 - 3.25)).collect(),
    };
    let outlen = if c.mode == Mode1::Eval { c.out } else { c.locs };
    let mut out = vec![T::zero(); outlen];
    let ok_grid = c.vals >= 2 && (c.kind == Kind::Regular || c.grid == c.vals);
    let ok = ok_grid && outlen == c.locs;
    let r = T::eval1(&p, c.mode, &mut out);
    t.nontrivial = !ok;
    t.compared = 1;
    t.label(if ok { "well-formed" } else if !ok_grid { "bad grid" } else { "bad output length" });
    match (ok, r) {
        (true, Ok(())) | (false, Err(Failure::Err(_))) => Ok(()),
        (_, r) => Err(format!("{c:?}: {}", match r { Ok(()) => "accepted although malformed".into(), Err(f) => f.to_string() })),
    }
}

// ---- C21 -------------------------------------------------------------------

/// indices whose value may be returned
pub fn picks<T: Real>(p: &Problem1<T>, nd: &Problem<T>, x: T) -> (usize, usize, bool) {
    let n = p.vals.len();
    let ax = view(nd, 0);
    let xx = x.f();
    if p.which == Interp1::Nearest {
        let k = nearest_axis(&ax, xx);
        return (k.lo, k.hi, k.exact_tie);
    }
    // Is every quantity exact, so that "exactly on a node" is well defined?
    let exact = p.kind == Kind::Rectilinear || (exact_axis(&ax) && dyadic::<T>(xx));
    let tol = if exact { 0.0 } else { 2.0 * ax.coord_err(xx, n) };
    let left = |x: f64| {
        // last node <= x
        let c = ax.cell(x);
        if c == n - 2 && ax.at(n - 1) <= x { n - 1 } else { c }
    };
    let right = |x: f64| {
        let l = left(x);
        if ax.at(l) >= x { l } else { (l + 1).min(n - 1) }
    };
    let f = |x: f64| if p.which == Interp1::Left { left(x) } else { right(x) };
    let (a, b) = (f(xx - tol), f(xx + tol));
    (a.min(b), a.max(b), exact && ax.at(left(xx)) == xx)
}

fn hold_body<T: Uut>(c: &Case1, t: &mut Tally) -> Result<(), String> {
    let p = build1::<T>(c);
    let nd = as_nd(&p);
    let n = p.vals.len();
    t.label(kind_label(p.kind));
    for m in [Mode1::Eval, Mode1::One, Mode1::Alloc] {
        let out = run1(&p, m)?;
        for i in 0..out.len() {
            let (a, b, special) = picks(&p, &nd, p.locs[i]);
            t.label_if(special, if c.which == Interp1::Nearest { "exact tie" } else { "exactly on a node" });
            t.label_if(p.locs[i] < p.grid[0], "below");
            t.label_if(p.locs[i] > p.grid[n - 1], "above");
            if b - a > 2 {
                continue; // spacing at roundoff level
            }
            t.compared += 1;
            if !(a..=b).any(|k| p.vals[k].bits() == out[i].bits()) {
                return Err(format!("{m:?} gives {:?}, expected the value of node {a}..={b} = {:?}: {}", out[i], &p.vals[a..=b], describe1(&p, i)));
            }
        }
    }
    t.nontrivial = t.compared > 0 && p.vals.iter().any(|v| *v != p.vals[0]);
    Ok(())
}

/// A stored node coordinate yields that node's value for Left, Right and Nearest; regular and
/// rectilinear descriptions of the same exactly representable grid agree everywhere.
fn same_kind<T: Uut>(c: &Case1, t: &mut Tally) -> Result<(), String> {
    let mut c = c.clone();
    // exactly representable uniform grid
    let n = c.axis.n.min(200);
    c.axis = Axis { n, step: 2f64.powi((mix(c.extra) % 9) as i32 - 4), s0: (mix(c.extra ^ 5) % 41) as f64 - 20.0, gap: None };
    let mut p = build1::<T>(&c);
    // locations on a fine dyadic raster, including all nodes
    p.locs = (0..40u64)
        .map(|i| {
            let h = mix(c.extra ^ mix(i));
            let k = (h % (n as u64 * 8 + 64)) as f64 / 8.0 - 4.0;
            let k = if h >> 40 & 1 == 1 { k.round() } else { k };
            T::of(p.start.f() + p.step.f() * k)
        })
        .collect();
    let mut p2 = p.clone();
    p.kind = Kind::Regular;
    p2.kind = Kind::Rectilinear;
    let nd = as_nd(&p);
    for w in [Interp1::Left, Interp1::Right, Interp1::Nearest, Interp1::HoldLast, Interp1::Linear] {
        p.which = w;
        p2.which = w;
        let (a, b) = (run1(&p, c.mode)?, run1(&p2, c.mode)?);
        for i in 0..a.len() {
            let r = reference_rel(&nd, &[p.locs[i]], &[slack(&p)]);
            let e = if matches!(w, Interp1::Left | Interp1::Right | Interp1::Nearest) { 0.0 } else { 2.0 * r.e };
            if !close(a[i].f(), b[i].f(), e) {
                return Err(format!("{w:?}: regular {:?}, rectilinear {:?}: {}", a[i], b[i], describe1(&p, i)));
            }
            t.compared += 1;
            if let Some(k) = p2.grid.iter().position(|g| *g == p.locs[i]) {
                t.label("on node");
                if e == 0.0 && a[i].bits() != p.vals[k].bits() {
                    return Err(format!("{w:?} at node {k} gives {:?}, stored {:?}: {}", a[i], p.vals[k], describe1(&p, i)));
                }
            }
        }
    }
    t.nontrivial = p.vals.iter().any(|v| *v != p.vals[0]);
    Ok(())
}

// ---- extreme units: see units.rs

pub fn shift(x: f64, e: i32) -> f64 {
    let a = e / 3;
    let b = (e - a) / 2;
    x * 2f64.powi(a) * 2f64.powi(b) * 2f64.powi(e - a - b)
}
/// the exponent of x: 2^k <= x < 2^(k+1)
fn exponent(x: f64) -> i32 {
    let k = (x.to_bits() >> 52 & 0x7ff) as i32 - 1023;
    if k == -1023 { -1074 } else { k }
}
/// the lowest bit set in x
fn low_bit(x: f64) -> i32 {
    let m = x.to_bits() & ((1 << 52) - 1) | 1 << 52;
    exponent(x) - 52 + m.trailing_zeros() as i32
}

/// The power of two by which the coordinates of one axis may be multiplied.
/// `exact`: the method only compares coordinates and differences.
pub fn exponent_for<T: Real>(xs: &[f64], hmin: f64, exact: bool, h: u64) -> i32 {
    let (lo, hi) = xs.iter().fold((f64::MAX, f64::MIN), |(a, b), &x| (a.min(x), b.max(x)));
    let top = lo.abs().max(hi.abs()).max(hi - lo);
    let jig = (mix(h) % 12) as i32 * (mix(h ^ 3) % 2) as i32;
    let emax = if T::IS32 { 127 } else { 1023 };
    match h % 4 {
        0 => 0,
        1 | 2 => {
            // the largest numbers; rounding of start + step * i must not overflow either
            let t = if exact { exponent(top * 1.01) } else { exponent(top) };
            let lim = if exact { emax } else if T::IS32 { 100 } else { 950 };
            lim - t - jig
        }
        _ if exact => {
            let low = xs.iter().filter(|x| **x != 0.0).map(|&x| low_bit(x)).min().unwrap_or(0);
            (if T::IS32 { -149 } else { -1074 }) - low + jig
        }
        _ => (if T::IS32 { -100 } else { -950 }) - exponent(hmin) + jig,
    }
}

pub fn scaled<T: Real>(v: &[T], e: i32) -> Vec<T> {
    v.iter().map(|x| T::of(shift(x.f(), e))).collect()
}

pub fn plain_vals(v: Vals) -> Vals {
    if matches!(v, Vals::Scaled(_)) { Vals::Uniform } else { v }
}

fn one_body<T: Uut>(c: &Case1, t: &mut Tally) -> Result<(), String> {
    let p = build1::<T>(c);
    let nd = as_nd(&p);
    let exact = matches!(c.which, Interp1::Left | Interp1::Right | Interp1::Nearest);
    let mut xs: Vec<f64> = p.grid.iter().chain(&p.locs).map(|x| x.f()).collect();
    if p.kind == Kind::Regular {
        xs.extend([p.start.f(), p.step.f(), p.step.f() * (p.vals.len() - 1) as f64]);
    }
    let hmin = p.grid.windows(2).map(|w| w[1].f() - w[0].f()).fold(f64::MAX, f64::min);
    let e = exponent_for::<T>(&xs, hmin, exact, mix(c.extra));
    let mut q = p.clone();
    q.grid = scaled(&p.grid, e);
    q.locs = scaled(&p.locs, e);
    q.start = T::of(shift(p.start.f(), e));
    q.step = T::of(shift(p.step.f(), e));
    if !q.grid.windows(2).all(|w| w[0] < w[1]) {
        return Ok(());
    }
    let out = run1(&q, c.mode)?;
    for i in 0..out.len() {
        let fail = |m: String| Err(format!("{:?} with coordinates multiplied by 2^{e}: {m}: {}", c.mode, describe1(&p, i)));
        if exact {
            let (a, b, _) = picks(&p, &nd, p.locs[i]);
            if b - a > 2 {
                continue;
            }
            t.compared += 1;
            if !(a..=b).any(|k| p.vals[k].bits() == out[i].bits()) {
                return fail(format!("gives {:?}, expected the value of node {a}..={b} = {:?}", out[i], &p.vals[a..=b]));
            }
        } else {
            match linear_ok(&p, &nd, p.locs[i], out[i]) {
                Ok(b) => t.compared += b as u64,
                Err(m) => return fail(m),
            }
        }
    }
    t.label_if(e > 0, "large unit");
    t.label_if(e < 0, "small unit");
    t.nontrivial = t.compared > 0 && p.vals.iter().any(|v| *v != p.vals[0]) && e != 0;
    Ok(())
}

pub fn units(which: Vec<Interp1>, quick: u32, thorough: u32) -> Box<dyn Sub> {
    Check::new(
        "units",
        quick,
        thorough,
        move |th| {
            case1(which.clone(), if th { 50_000 } else { 2000 })
                .prop_map(|mut c| {
                    c.vals = plain_vals(c.vals);
                    desc::tame(&mut c.axis, c.f32, false);
                    c
                })
                .boxed()
        },
        |c: &Case1, t| typed!(c.f32, one_body(c, t)),
    )
}

// ---- C32 -------------------------------------------------------------------

fn cells_body<T: Uut>(c: &Case1, t: &mut Tally) -> Result<(), String> {
    let p = build1::<T>(c);
    let nd = as_nd(&p);
    let n = p.vals.len();
    let ax = view(&nd, 0);
    let d = slack(&p);
    t.label(kind_label(p.kind));
    if p.kind == Kind::Regular && d > 1e-2 * p.step.f() {
        return Ok(());
    }
    let got = T::cells1(&p).map_err(|f| format!("index/at {f} on well-formed input: {}", describe1(&p, 0)))?;
    if got.len() != p.locs.len() {
        return Err("harness: one answer per location expected".into());
    }
    let exact = p.kind == Kind::Rectilinear || exact_axis(&ax);
    for (i, &(cell, side, side_at, [x0, y0, x1, y1])) in got.iter().enumerate() {
        let x = p.locs[i].f();
        let fail = |m: String| Err(format!("{m}: {}", describe1(&p, i)));
        // the edges of a regular grid are known up to rounding only
        let tol = if exact && (p.kind == Kind::Rectilinear || dyadic::<T>(x)) { 0.0 } else { d + 4.0 * T::EPS * x.abs() };
        let (lo, hi) = (ax.at(0), ax.at(n - 1));
        let sides: &[i8] = match () {
            _ if x < lo - tol => &[-1],
            _ if x > hi + tol => &[1],
            _ if x >= lo + tol && x <= hi - tol => &[0],
            _ if x < (lo + hi) / 2.0 => &[-1, 0],
            _ => &[0, 1],
        };
        t.compared += 1;
        if side != side_at {
            return fail(format!("index reports side {side}, at reports {side_at}"));
        }
        if !sides.contains(&side) {
            return fail(format!("reported side {side}, expected one of {sides:?}"));
        }
        if cell > n - 2 {
            return fail(format!("cell {cell} does not exist"));
        }
        // the location is in the cell, ends included, or beyond it where the grid ends
        if !(cell == 0 || ax.at(cell) <= x + 2.0 * tol) || !(cell == n - 2 || x - 2.0 * tol <= ax.at(cell + 1)) {
            return fail(format!("cell {cell} from {:?} to {:?} does not contain it", ax.at(cell), ax.at(cell + 1)));
        }
        if y0.bits() != p.vals[cell].bits() || y1.bits() != p.vals[cell + 1].bits() {
            return fail(format!("values {y0:?}, {y1:?} are not those of cell {cell}"));
        }
        let e = if exact { 0.0 } else { d };
        if !close(x0.f(), ax.at(cell), e) || !close(x1.f(), ax.at(cell + 1), e) {
            return fail(format!("ends {x0:?}, {x1:?}, expected {:?}, {:?} (tolerance {e:e})", ax.at(cell), ax.at(cell + 1)));
        }
        t.label(match side {
            -1 => "below",
            0 => "inside",
            _ => "above",
        });
    }
    t.nontrivial = t.compared > 0 && n > 2;
    Ok(())
}

// ---- C06 share --------------------------------------------------------------

fn lin_node_body<T: Uut>(c: &Case1, t: &mut Tally) -> Result<(), String> {
    let mut p = build1::<T>(c);
    let n = p.vals.len();
    let idx: Vec<usize> = if n <= 40 { (0..n).collect() } else { [0, 1, n - 2, n - 1].into_iter().chain((0..20).map(|k| (mix(c.extra ^ k) % n as u64) as usize)).collect() };
    p.locs = idx.iter().map(|&i| p.grid[i]).collect();
    let nd = as_nd(&p);
    let d = slack(&p);
    if p.kind == Kind::Regular && d > 1e-3 * p.step.f() {
        return Ok(());
    }
    let out = run1(&p, c.mode)?;
    for (k, &i) in idx.iter().enumerate() {
        let r = reference_rel(&nd, &[p.locs[k]], &[d]);
        if !assessable::<T>(&r) {
            continue;
        }
        t.compared += 1;
        if !close(out[k].f(), p.vals[i].f(), r.e) {
            return Err(format!("at node {i}: got {:?}, stored {:?}: {}", out[k], p.vals[i], describe1(&p, k)));
        }
    }
    t.label(kind_label(p.kind));
    t.nontrivial = t.compared > 0 && p.vals.iter().any(|v| *v != p.vals[0]);
    Ok(())
}

pub fn linear_nodes() -> Box<dyn Sub> {
    Check::new(
        "one_dim",
        6_000,
        200_000,
        |th| case1(vec![Interp1::Linear, Interp1::HoldLast], if th { 100_000 } else { 5000 }),
        |c: &Case1, t| typed!(c.f32, lin_node_body(c, t)),
    )
}

pub fn props() -> Vec<Property> {
    let lin = vec![Interp1::Linear, Interp1::HoldLast];
    let hold = vec![Interp1::Left, Interp1::Right, Interp1::Nearest];
    let lin2 = lin.clone();
    let cap = |th| if th { 2_000_000 } else { 100_000 };
    vec![
        Property {
            id: "C20",
            rule: "cases are generated 1-D grids (2..100000 points, f32/f64, both kinds) with values and up to 40 locations of every class, evaluated with eval, eval_one and eval_alloc; plus generated array-length combinations; non-trivial: non-constant values with at least one judged result, or a malformed length combination",
            assumptions: &["roundoff bound as in C01; regular grids whose spacing is at the rounding level of their coordinates are skipped"],
            subs: vec![
                Check::new("values", 16_000, 800_000, move |th| case1(lin.clone(), cap(th)), |c: &Case1, t| typed!(c.f32, linear_body(c, t))),
                Check::new("same_inside", 8_000, 300_000, move |th| case1(lin2.clone(), cap(th)), |c: &Case1, t| typed!(c.f32, same_inside(c, t))),
                units(vec![Interp1::Linear, Interp1::HoldLast], 8_000, 300_000),
                Check::new("lengths", 6_000, 60_000, |_| bad1(), |c: &Bad1, t| typed!(c.f32, bad1_body(c, t))),
            ],
        },
        Property {
            id: "C21",
            rule: "cases are generated 1-D grids and locations (nodes, node +/- ulps, midpoints, interior, outside) for Left1D, Right1D and Nearest1D through eval, eval_one and eval_alloc; non-trivial: non-constant values and at least one judged result",
            assumptions: &["on regular grids whose node coordinates are not exactly representable a location within rounding error of a node may be placed on either side"],
            subs: vec![
                Check::new("values", 24_000, 1_000_000, move |th| case1(hold.clone(), cap(th)), |c: &Case1, t| typed!(c.f32, hold_body(c, t))),
                units(vec![Interp1::Left, Interp1::Right, Interp1::Nearest], 10_000, 300_000),
                Check::new("same_kind", 8_000, 300_000, |_| case1(vec![Interp1::Left], 200), |c: &Case1, t| typed!(c.f32, same_kind(c, t))),
            ],
        },
        Property {
            id: "C32",
            rule: "cases are generated 1-D grids (2..100000 points, f32/f64, both kinds) and locations of every class; index and at are compared with the definition on the node coordinates; non-trivial: three or more points and at least one judged location",
            assumptions: &["on regular grids that are not exactly representable, a location within rounding error of a node may be placed on either side of it; exactly on a node either adjoining cell is accepted"],
            subs: vec![Check::new("cells", 20_000, 800_000, move |th| case1(vec![Interp1::Linear], cap(th)), |c: &Case1, t| typed!(c.f32, cells_body(c, t)))],
        },
    ]
}
