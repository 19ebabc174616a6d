//! Compact, shrinkable and serializable descriptions of interpolation problems,
//! their proptest strategies, and their expansion into arrays.
use crate::problem::*;
use crate::{mix, unit};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const MAXN: usize = 10;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum GapKind {
    /// widths step * [0.2, 1.2)
    Jitter,
    /// widths step * {1/2, 1, 3/2, 2}
    Dyadic,
    /// widths grow/shrink geometrically
    Geometric(f64),
    /// widths step * 10^[-2, 2]
    Wild,
    /// alternate narrow / wide
    Alternate(f64),
    /// one wide gap among narrow ones
    OneWide(u32, f64),
    /// uniform but for the last gap
    LastOdd(f64),
    /// uniform but for small relative disturbances
    Near(f64),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Gap {
    pub kind: GapKind,
    pub seed: u64,
}

/// One axis: `n` points from `step * s0`, `step` apart unless `gap` is given.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Axis {
    pub n: usize,
    pub step: f64,
    pub s0: f64,
    pub gap: Option<Gap>,
}

/// One observation coordinate relative to an axis. Negative indices count from the end.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Pt {
    Knot(i32),
    /// a node moved by some units in the last place
    Ulp(i32, i8),
    Mid(i32),
    In(i32, f64),
    /// below the first node by this many first-cell widths
    Low(f64),
    /// above the last node by this many last-cell widths
    High(f64),
    Zero(bool),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Vals {
    Uniform,
    Ints,
    OneHot(u32),
    Index,
    Scaled(i16),
    Const(f64),
    Wave,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Bulk {
    pub len: u32,
    pub seed: u64,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub f32: bool,
    pub method: Method,
    pub kind: Kind,
    pub lin: bool,
    pub axes: Vec<Axis>,
    pub vals: Vals,
    pub vseed: u64,
    pub pts: Vec<Vec<Pt>>,
    pub bulk: Option<Bulk>,
    pub entry: Entry,
    /// free parameter for the individual checks
    pub extra: u64,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub methods: Vec<Method>,
    pub kinds: Vec<Kind>,
    pub ndims: (usize, usize),
    /// maximal number of grid values
    pub budget: usize,
    pub bulk: bool,
    pub bulk_max: u32,
    pub max_pts: usize,
    /// work bound: points * footprint^N
    pub work: usize,
    /// allow extreme steps / offsets / distances
    pub extreme: bool,
    pub max_axis: usize,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            methods: vec![Method::Linear, Method::Cubic, Method::Nearest],
            kinds: vec![Kind::Regular, Kind::Rectilinear],
            ndims: (1, 8),
            budget: 150_000,
            bulk: true,
            bulk_max: 6000,
            max_pts: 12,
            work: 120_000,
            extreme: true,
            max_axis: 100_000,
        }
    }
}
impl Opts {
    pub fn method(m: Method) -> Self {
        Opts {
            methods: vec![m],
            ..Default::default()
        }
    }
}

pub fn index() -> BoxedStrategy<i32> {
    prop_oneof![
        5 => 0..5i32,
        5 => -5..0i32,
        4 => any::<i32>(),
    ]
    .boxed()
}

/// distances outside the grid in cell widths
pub fn dist() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => (1u32..5).prop_map(|k| k as f64),
        4 => 0.0..4.0f64,
        2 => (-6.0..0.0f64).prop_map(|e| 10f64.powf(e)),
        2 => (0.0..3.0f64).prop_map(|e| 10f64.powf(e)),
        1 => (3.0..11.0f64).prop_map(|e| 10f64.powf(e)),
    ]
    .boxed()
}

pub fn pt() -> BoxedStrategy<Pt> {
    prop_oneof![
        4 => index().prop_map(Pt::Knot),
        2 => (index(), prop_oneof![Just(1i8), Just(-1i8), -3..4i8]).prop_map(|(i, u)| Pt::Ulp(i, u)),
        2 => index().prop_map(Pt::Mid),
        8 => (index(), 0.0..1.0f64).prop_map(|(i, f)| Pt::In(i, f)),
        // close to a node, from either side
        2 => (index(), -14.0..-1.0f64, any::<bool>()).prop_map(|(i, e, low)| Pt::In(i, if low { 10f64.powf(e) } else { 1.0 - 10f64.powf(e) })),
        3 => dist().prop_map(Pt::Low),
        3 => dist().prop_map(Pt::High),
        1 => any::<bool>().prop_map(Pt::Zero),
    ]
    .boxed()
}

/// The same distribution, expanded from a hash (for bulk batches).
pub fn hash_pt(h: u64) -> Pt {
    let i = mix(h ^ 1) as i32;
    let u = unit(mix(h ^ 2));
    match mix(h) % 16 {
        0 | 1 => Pt::Knot(i),
        2 => Pt::Ulp(i, if u < 0.5 { -1 } else { 1 }),
        3 => Pt::Mid(i),
        4 | 5 => Pt::Low(u * 3.0),
        6 | 7 => Pt::High(u * 3.0),
        8 => Pt::Knot(if u < 0.5 { 0 } else { -1 }),
        9 => {
            let f = 10f64.powf(-14.0 * u);
            Pt::In(i, if h >> 63 == 1 { f } else { 1.0 - f })
        }
        _ => Pt::In(i, u),
    }
}

fn step() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => Just(1.0),
        4 => (-8..9i32).prop_map(|e| 2f64.powi(e)),
        2 => (1..2000u32).prop_map(|k| k as f64),
        1 => (1..2000u32, -8..1i32).prop_map(|(k, e)| k as f64 * 2f64.powi(e)),
        3 => prop::sample::select(vec![0.1, 0.01, 0.3, 1.0 / 3.0, 2.5, 7.0, 0.7]),
        4 => (-3.0..3.0f64).prop_map(|e| 10f64.powf(e)),
        1 => (-12.0..12.0f64).prop_map(|e| 10f64.powf(e)),
    ]
    .boxed()
}
fn s0() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => Just(0.0),
        4 => (-20..21i32).prop_map(|e| e as f64),
        2 => (-80..81i32).prop_map(|e| e as f64 / 4.0),
        4 => -30.0..30.0f64,
        2 => -1000.0..1000.0f64,
        1 => -1e6..1e6f64,
    ]
    .boxed()
}
fn gap() -> BoxedStrategy<Gap> {
    let k = prop_oneof![
        5 => Just(GapKind::Jitter),
        4 => Just(GapKind::Dyadic),
        2 => (0.7..1.5f64).prop_map(GapKind::Geometric),
        2 => Just(GapKind::Wild),
        2 => (0.05..20.0f64).prop_map(GapKind::Alternate),
        2 => (any::<u32>(), 2.0..50.0f64).prop_map(|(i, r)| GapKind::OneWide(i, r)),
        1 => (0.1..5.0f64).prop_map(GapKind::LastOdd),
        2 => (-8.0..-0.5f64).prop_map(|e| GapKind::Near(10f64.powf(e))),
    ];
    (k, any::<u64>()).prop_map(|(kind, seed)| Gap { kind, seed }).boxed()
}
fn size_extra() -> BoxedStrategy<usize> {
    prop_oneof![
        6 => 0..4usize,
        6 => 0..10usize,
        2 => 0..70usize,
        1 => 0..1500usize,
        1 => prop_oneof![Just(60usize), Just(124), Just(252), Just(253), Just(254), Just(510), Just(1020), Just(4094), Just(65532), Just(65534), Just(65535)],
    ]
    .boxed()
}
pub fn vals() -> BoxedStrategy<Vals> {
    prop_oneof![
        6 => Just(Vals::Uniform),
        2 => Just(Vals::Ints),
        2 => any::<u32>().prop_map(Vals::OneHot),
        2 => Just(Vals::Index),
        1 => (-8..9i16).prop_map(Vals::Scaled),
        1 => (-90..91i16).prop_map(Vals::Scaled),
        1 => (-5.0..5.0f64).prop_map(Vals::Const),
        1 => Just(Vals::Wave),
    ]
    .boxed()
}

fn ndims_weights(lo: usize, hi: usize) -> BoxedStrategy<usize> {
    const W: [u32; 11] = [0, 6, 6, 6, 5, 4, 3, 2, 2, 1, 1];
    let v: Vec<(u32, BoxedStrategy<usize>)> =
        (lo..=hi).map(|n| (W[n], Just(n).boxed())).collect();
    proptest::strategy::Union::new_weighted(v).boxed()
}

/// Strategy over well-formed problems.
pub fn case(o: &Opts) -> BoxedStrategy<Case> {
    let o2 = o.clone();
    let axis = (size_extra(), step(), s0(), prop::option::weighted(0.75, gap()));
    let pts = vec(vec(pt(), MAXN), 1..=o.max_pts.max(1));
    let bulk = if o.bulk {
        prop_oneof![
            9 => Just(None),
            1 => (prop_oneof![Just(1u32), 2..300u32, 1000..o.bulk_max.max(1001)], any::<u64>())
                .prop_map(|(len, seed)| Some(Bulk { len, seed })),
        ]
        .boxed()
    } else {
        Just(None).boxed()
    };
    (
        (
            any::<bool>(),
            prop::sample::select(o.methods.clone()),
            prop::sample::select(o.kinds.clone()),
            any::<bool>(),
            ndims_weights(o.ndims.0, o.ndims.1),
        ),
        vec(axis, MAXN),
        vals(),
        any::<u64>(),
        pts,
        bulk,
        any::<u8>(),
        any::<u64>(),
        prop_oneof![10 => Just(0i32), 1 => -160..161i32],
    )
        .prop_map(
            move |((f32, method, kind, lin, nd), axes, vals, vseed, pts, bulk, ent, extra, xexp)| {
                let nmax = if method == Method::Nearest { 6.min(o2.ndims.1) } else { o2.ndims.1 };
                let n = nd.min(nmax).max(1);
                let mut axes: Vec<Axis> = axes[..n]
                    .iter()
                    .map(|&(sz, step, s0, gap)| Axis { n: sz, step, s0, gap })
                    .collect();
                size_axes(&mut axes, min_points(method), o2.budget, o2.max_axis);
                for a in axes.iter_mut() {
                    if kind == Kind::Regular {
                        a.gap = None;
                    }
                    tame(a, f32, o2.extreme);
                    if o2.extreme && xexp != 0 {
                        // another unit of length
                        a.step = a.step.clamp(1e-4, 1e4) * 2f64.powi(if f32 { xexp / 8 } else { xexp });
                    }
                }
                let vals = match vals {
                    Vals::Scaled(e) if f32 => Vals::Scaled(e.clamp(-8, 8) + e / 8),
                    Vals::Scaled(e) if !o2.extreme => Vals::Scaled(e.clamp(-8, 8)),
                    v => v,
                };
                let cost = footprint(method).pow(n as u32);
                let maxpts = (o2.work / cost).clamp(1, o2.max_pts);
                let pts: Vec<Vec<Pt>> = pts
                    .into_iter()
                    .take(maxpts)
                    .map(|p| p[..n].to_vec())
                    .collect();
                let bulk = bulk.and_then(|b: Bulk| {
                    let cap = (4 * o2.work / cost) as u32;
                    if cap < 2 { None } else { Some(Bulk { len: b.len.min(cap), seed: b.seed }) }
                });
                let es = entries_for(method, n);
                let entry = es[ent as usize * es.len() / 256];
                Case { f32, method, kind, lin, axes, vals, vseed, pts, bulk, entry, extra }
            },
        )
        .boxed()
}

/// Turn raw "extra points" into sizes within the budget.
pub fn size_axes(axes: &mut [Axis], min: usize, budget: usize, max_axis: usize) {
    let n = axes.len();
    let extra: Vec<usize> = axes.iter().map(|a| a.n).collect();
    for a in axes.iter_mut() {
        a.n = min;
    }
    for i in 0..n {
        let others: usize = axes.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, a)| a.n).product();
        let cap = (budget / others).max(min);
        axes[i].n = (min + extra[i]).min(cap).min(max_axis.max(min));
    }
}

/// Keep coordinates well separated at the precision in use.
pub fn tame(a: &mut Axis, f32: bool, extreme: bool) {
    let span = a.n as f64;
    let lim = if f32 { 3000.0 } else { 1e7 };
    if !extreme {
        a.step = a.step.clamp(1e-4, 1e4);
        a.s0 = a.s0.clamp(-1000.0, 1000.0);
    }
    a.s0 = a.s0.clamp(-lim, lim);
    if f32 {
        a.step = a.step.clamp(1e-8, 1e8);
        if let Some(g) = &mut a.gap {
            if span > 2000.0 {
                g.kind = GapKind::Jitter;
            }
            match &mut g.kind {
                GapKind::Geometric(r) => *r = if span > 20.0 { r.clamp(0.98, 1.02) } else { *r },
                _ => {}
            }
        }
    }
    if let Some(g) = &mut a.gap {
        if let GapKind::Geometric(r) = &mut g.kind {
            // total ratio at most 1e4
            let m = 1e4f64.powf(1.0 / span);
            *r = r.clamp(1.0 / m, m);
        }
    }
}

fn gap_width(g: &Gap, i: usize, n: usize) -> f64 {
    let h = mix(g.seed ^ (i as u64).wrapping_mul(0x2545F4914F6CDD1D));
    match g.kind {
        GapKind::Jitter => 0.2 + unit(h),
        GapKind::Dyadic => 0.5 * (1 + h % 4) as f64,
        GapKind::Geometric(r) => r.powi(i as i32),
        GapKind::Wild => 10f64.powf(4.0 * unit(h) - 2.0),
        GapKind::Alternate(r) => {
            if i % 2 == 0 { 1.0 } else { r }
        }
        GapKind::OneWide(k, r) => {
            if i == k as usize % (n - 1) { r } else { 1.0 }
        }
        GapKind::LastOdd(r) => {
            if i == n - 2 { r } else { 1.0 }
        }
        GapKind::Near(r) => 1.0 + r * (2.0 * unit(h) - 1.0),
    }
}

/// node coordinates, strictly increasing
pub fn axis_coords<T: Real>(a: &Axis) -> Vec<T> {
    let start = T::of(a.step * a.s0);
    let step = T::of(a.step);
    let mut g: Vec<T> = Vec::with_capacity(a.n);
    let mut acc = 0.0f64;
    for i in 0..a.n {
        let x = match &a.gap {
            None => T::of(start.f() + step.f() * i as f64),
            Some(gp) => {
                let x = T::of(a.step * (a.s0 + acc));
                acc += gap_width(gp, i, a.n);
                x
            }
        };
        let x = match g.last() {
            Some(&p) if !(x > p) => p.up(),
            _ => x,
        };
        g.push(x);
    }
    g
}

pub fn wrap(i: i32, m: usize) -> usize {
    let m = m as i64;
    let i = i as i64;
    (if i >= 0 { i % m } else { m - 1 - ((-1 - i) % m) }) as usize
}

pub fn coord<T: Real>(p: &Pt, g: &[T]) -> T {
    let n = g.len();
    let lim = if T::IS32 { 1e5 } else { 1e11 };
    match *p {
        Pt::Knot(i) => g[wrap(i, n)],
        Pt::Ulp(i, k) => {
            let mut x = g[wrap(i, n)];
            for _ in 0..k.unsigned_abs() {
                x = if k > 0 { x.up() } else { x.down() };
            }
            x
        }
        Pt::Mid(i) => {
            let c = wrap(i, n - 1);
            T::of(0.5 * g[c].f() + 0.5 * g[c + 1].f())
        }
        Pt::In(i, f) => {
            let c = wrap(i, n - 1);
            T::of(g[c].f() + f * (g[c + 1].f() - g[c].f()))
        }
        Pt::Low(d) => T::of(g[0].f() - d.min(lim) * (g[1].f() - g[0].f())),
        Pt::High(d) => T::of(g[n - 1].f() + d.min(lim) * (g[n - 1].f() - g[n - 2].f())),
        Pt::Zero(neg) => T::of(if neg { -0.0 } else { 0.0 }),
    }
}

pub fn make_vals<T: Real>(v: Vals, seed: u64, len: usize) -> Vec<T> {
    let u = |i: usize| 2.0 * unit(mix(seed ^ (i as u64).wrapping_mul(0xD1342543DE82EF95))) - 1.0;
    (0..len)
        .map(|i| {
            T::of(match v {
                Vals::Uniform => u(i),
                Vals::Ints => (u(i) * 8.0).round(),
                Vals::OneHot(k) => (i == k as usize % len) as u8 as f64,
                Vals::Index => i as f64 + 1.0,
                Vals::Scaled(e) => u(i) * 10f64.powi(e as i32),
                Vals::Const(c) => c,
                Vals::Wave => (i as f64 * 0.7).sin() + 0.1 * u(i),
            })
        })
        .collect()
}

pub fn grids<T: Real>(c: &Case) -> Vec<Vec<T>> {
    c.axes.iter().map(axis_coords).collect()
}

pub fn points<T: Real>(c: &Case, grids: &[Vec<T>]) -> Vec<Vec<T>> {
    let nb = c.bulk.map_or(0, |b| b.len as usize);
    grids
        .iter()
        .enumerate()
        .map(|(d, g)| {
            let mut o: Vec<T> = Vec::with_capacity(c.pts.len() + nb);
            o.extend(c.pts.iter().map(|p| coord(&p[d], g)));
            if let Some(b) = c.bulk {
                for i in 0..nb {
                    o.push(coord(&hash_pt(mix(b.seed ^ (i * 16 + d) as u64)), g));
                }
            }
            o
        })
        .collect()
}

pub fn expand<T: Real>(c: &Case) -> Problem<T> {
    let mut p = expand_sans_vals(c);
    p.vals = make_vals(c.vals, c.vseed, p.dims.iter().product());
    p
}

/// Without values, for checks that concern coordinates only.
pub fn expand_sans_vals<T: Real>(c: &Case) -> Problem<T> {
    let grids = grids::<T>(c);
    let dims: Vec<usize> = c.axes.iter().map(|a| a.n).collect();
    let obs = points(c, &grids);
    Problem {
        method: c.method,
        kind: c.kind,
        lin: c.lin,
        starts: c.axes.iter().map(|a| T::of(a.step * a.s0)).collect(),
        steps: c.axes.iter().map(|a| T::of(a.step)).collect(),
        vals: vec![],
        dims,
        grids,
        obs,
    }
}
