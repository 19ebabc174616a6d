//! C01, C02, C03, C06: results against the reference definition.
use crate::typed;
use crate::uut::*;
use proptest::prelude::*;
use vcore::drive::*;
use vcore::oracle::*;
use vcore::*;

/// Check one result against the reference. Returns whether it was assessable.
pub fn check_point<T: Real>(p: &Problem<T>, i: usize, got: T, what: &str) -> Result<bool, String> {
    let x = p.point(i);
    match p.method {
        Method::Nearest => {
            nearest_ok(p, &x, got).map_err(|e| format!("{what}: {e}: {}", p.describe(i)))?;
            Ok(true)
        }
        _ => {
            let r = reference(p, &x);
            if !assessable::<T>(&r) {
                return Ok(false);
            }
            if !close(got.f(), r.v, r.e) {
                return Err(format!(
                    "{what}: got {:?}, documented value {:?} (roundoff bound {:e}): {}",
                    got,
                    r.v,
                    r.e,
                    p.describe(i)
                ));
            }
            // is the bound small against the data?
            Ok(r.e < 1e-2 * r.a)
        }
    }
}

fn describe_case<T: Real>(p: &Problem<T>, c: &Case, t: &mut Tally) {
    t.label(nd_label(p.ndims()));
    t.label(kind_label(p.kind));
    t.label(if c.f32 { "f32" } else { "f64" });
    let mut outside = 0;
    let mut multi = 0;
    for i in 0..p.npts().min(12) {
        let k = (0..p.ndims())
            .filter(|&d| {
                let (x, g) = (p.obs[d][i], &p.grids[d]);
                x < g[0] || x > g[g.len() - 1]
            })
            .count();
        outside += (k > 0) as usize;
        multi += (k > 1) as usize;
    }
    t.label_if(outside > 0, "has_outside_point");
    t.label_if(multi > 0, "has_multi_axis_outside_point");
    t.label_if(p.npts() > 200, "batch>200");
    t.label_if(p.dims.iter().any(|&n| n > 255), "axis>255");
    t.label_if(p.dims.iter().any(|&n| n > 65535), "axis>65535");
}

fn value_body<T: Uut>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let p = expand::<T>(c);
    let cost = footprint(c.method).pow(p.ndims() as u32) * p.npts();
    let entries = if cost <= 2000 { entries_for(c.method, p.ndims()) } else { vec![c.entry] };
    describe_case(&p, c, t);
    t.label(entry_label(c.entry));
    for e in entries {
        let out = run(&p, e)?;
        let stride = if p.npts() * footprint(c.method).pow(p.ndims() as u32) > 400_000 { 7 } else { 1 };
        for i in (0..p.npts()).step_by(stride) {
            if check_point(&p, i, out[i], entry_label(e))? {
                t.compared += 1;
            }
        }
    }
    t.nontrivial = t.compared > 0 && p.vals.iter().any(|v| *v != p.vals[0]);
    Ok(())
}

fn opts(m: Method, thorough: bool) -> Opts {
    Opts {
        ndims: (1, if m == Method::Nearest { 6 } else { 10 }),
        budget: if thorough { 600_000 } else { 60_000 },
        work: if m == Method::Cubic { 300_000 } else { 60_000 },
        ..Opts::method(m)
    }
}

/// Few, very large grids: one axis up to millions of points, or several with products
/// beyond 2^16 and 2^20.
pub fn huge(methods: Vec<Method>, thorough: bool) -> BoxedStrategy<Case> {
    let cap = if thorough { 20_000_000usize } else { 5_000_000 };
    let o = Opts {
        methods,
        ndims: (1, 4),
        budget: cap,
        max_axis: cap,
        bulk: false,
        max_pts: 40,
        extreme: false,
        ..Opts::default()
    };
    let sizes = prop_oneof![
        3 => 17.0..22.4f64,
        2 => 15.9..17.1f64,
        1 => 12.0..16.0f64
    ];
    (case(&o), sizes, 0.0..1.0f64, 0..4usize)
        .prop_map(move |(mut c, lg, split, which)| {
            let n = c.axes.len();
            let min = min_points(c.method);
            // total about 2^lg, spread over one or two axes
            let total = 2f64.powf(lg);
            for a in c.axes.iter_mut() {
                a.n = min;
                if let Some(g) = &mut a.gap {
                    if c.f32 || !matches!(g.kind, GapKind::Jitter | GapKind::Dyadic) {
                        g.kind = GapKind::Dyadic;
                    }
                }
                a.s0 = a.s0.clamp(-100.0, 100.0);
            }
            let rest = total / (min.pow(n as u32 - 1) as f64);
            if n == 1 || split < 0.4 {
                c.axes[which % n].n = (rest as usize).clamp(min, cap / min.pow(n as u32 - 1));
            } else {
                let m = rest.max(16.0) * min as f64;
                let a = m.powf(split).max(min as f64);
                let b = (m / a).max(min as f64);
                c.axes[which % n].n = a as usize;
                c.axes[(which + 1) % n].n = b as usize;
            }
            if c.f32 {
                // keep nodes distinct in single precision
                for a in c.axes.iter_mut() {
                    if a.n > 500_000 {
                        a.s0 = 0.0;
                        a.step = 1.0;
                        a.gap = None;
                    }
                }
            }
            c
        })
        .boxed()
}

fn batches(m: Method, thorough: bool) -> BoxedStrategy<Case> {
    let o = Opts {
        ndims: (1, if m == Method::Cubic { 4 } else { 6 }),
        budget: 4000,
        work: 2_000_000,
        ..Opts::method(m)
    };
    let top = if thorough { 200_000u32 } else { 20_000 };
    let len = prop_oneof![
        1..40u32,
        prop::sample::select(vec![63u32, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4096, 4097]),
        500..top,
    ];
    (case(&o), len, any::<u64>())
        .prop_map(|(mut c, len, seed)| {
            let cost = footprint(c.method).pow(c.axes.len() as u32) as u32;
            c.pts.truncate(1);
            c.bulk = Some(Bulk { len: len.min(3_000_000 / cost), seed });
            c
        })
        .boxed()
}

fn value_prop(id: &'static str, m: Method) -> Property {
    let (q, th) = match m {
        Method::Linear => (16_000, 600_000),
        Method::Cubic => (14_000, 400_000),
        Method::Nearest => (16_000, 800_000),
    };
    Property {
        id,
        rule: "cases are generated grids (1..10 dimensions, uniform and strongly uneven spacing, 2..5e6 points per axis, f32/f64, both kinds), value arrays and observation points (nodes, node +/- ulps, midpoints, interior, outside below/above by 1e-6..1e11 cell widths, mixed per axis), evaluated through a generated or, when cheap, every public entry point; non-trivial: the value array is not constant and at least one result was compared with the reference under a bound below 1% of the magnitude of the terms",
        assumptions: &[
            "rounding model: an evaluation may deviate from the exact definition by a bound computed from K=48 eps per axis on the absolute weights plus the coordinate rounding of the regular-grid formula",
            "points whose intermediate terms would overflow the scalar type are not judged",
        ],
        subs: vec![
            Check::new("values", q, th, move |t| case(&opts(m, t)), |c: &Case, t| typed!(c.f32, value_body(c, t))),
            Check::new("batches", 500, 12_000, move |t| batches(m, t), |c: &Case, t| typed!(c.f32, value_body(c, t))),
            Check::new("huge", 64, 800, move |t| huge(vec![m], t), |c: &Case, t| typed!(c.f32, value_body(c, t))),
            crate::units::nd(vec![m], if m == Method::Nearest { 12_000 } else { 4_000 }, 200_000),
        ],
    }
}

// ---- C06 -----------------------------------------------------------------

fn node_ok<T: Real>(p: &Problem<T>, d: usize) -> bool {
    // nodes well separated at this precision
    match p.kind {
        Kind::Rectilinear => true,
        Kind::Regular => {
            let v = view(p, d);
            v.coord_err(p.grids[d][p.dims[d] - 1].f(), p.dims[d]) < 1e-3 * p.steps[d].f()
        }
    }
}

pub fn nodes_of<T: Real>(p: &Problem<T>, seed: u64, extra: usize) -> Vec<Vec<usize>> {
    let n = p.ndims();
    let mut nodes: Vec<Vec<usize>> = vec![];
    let corners = if n <= 4 { 1usize << n } else { 12 };
    for k in 0..corners {
        let k = if n <= 4 { k as u64 } else { mix(seed ^ k as u64) };
        nodes.push((0..n).map(|d| if k >> d & 1 == 1 { p.dims[d] - 1 } else { 0 }).collect());
    }
    for k in 0..extra as u64 {
        nodes.push(
            (0..n)
                .map(|d| {
                    let h = mix(seed ^ mix(k) ^ d as u64);
                    let m = p.dims[d];
                    match h % 8 {
                        0 => 0,
                        1 => m - 1,
                        2 => 1,
                        3 => m - 2,
                        _ => (mix(h) % m as u64) as usize,
                    }
                })
                .collect(),
        );
    }
    nodes
}

fn node_body<T: Uut>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let mut p = expand::<T>(c);
    if !(0..p.ndims()).all(|d| node_ok(&p, d)) {
        t.label("skipped: nodes not separated at this precision");
        return Ok(());
    }
    let cost = footprint(c.method).pow(p.ndims() as u32);
    let extra = if cost < 64 { 24 } else if cost < 4096 { 12 } else { 2 };
    let mut nodes = nodes_of(&p, c.extra, extra);
    if cost >= 4096 {
        nodes.truncate(4 + extra);
    }
    // on small grids, every node
    if p.vals.len() <= 40 {
        let st = p.strides();
        nodes = (0..p.vals.len()).map(|k| (0..p.ndims()).map(|d| k / st[d] % p.dims[d]).collect()).collect();
        t.label("all nodes");
    }
    let pts: Vec<Vec<T>> = nodes
        .iter()
        .map(|ix| ix.iter().enumerate().map(|(d, &i)| p.grids[d][i]).collect())
        .collect();
    p = p.with_points(&pts);
    let st = p.strides();
    let entries = if cost * nodes.len() <= 2000 { entries_for(c.method, p.ndims()) } else { vec![c.entry] };
    t.label(method_label(c.method));
    t.label(kind_label(c.kind));
    t.label(nd_label(p.ndims()));
    for e in entries {
        let out = run(&p, e)?;
        for (i, ix) in nodes.iter().enumerate() {
            let stored = p.vals[ix.iter().zip(&st).map(|(a, b)| a * b).sum::<usize>()];
            let ok = if c.method == Method::Nearest {
                stored.bits() == out[i].bits()
            } else {
                let r = reference(&p, &pts[i]);
                if !assessable::<T>(&r) {
                    continue;
                }
                close(out[i].f(), stored.f(), r.e)
            };
            t.compared += 1;
            if !ok {
                return Err(format!(
                    "{e:?} at node {ix:?} gives {:?}, stored value is {:?}: {}",
                    out[i],
                    stored,
                    p.describe(i)
                ));
            }
        }
    }
    t.nontrivial = t.compared > 0 && p.vals.iter().any(|v| *v != p.vals[0]);
    Ok(())
}

fn c06() -> Property {
    let o = |th: bool| Opts {
        ndims: (1, 9),
        budget: if th { 400_000 } else { 40_000 },
        bulk: false,
        max_pts: 1,
        ..Opts::default()
    };
    Property {
        id: "C06",
        rule: "cases are generated problems evaluated at corner, edge-adjacent and hashed interior nodes (all nodes of small grids); non-trivial: values are not constant and at least one node result was compared with the stored value",
        assumptions: &["roundoff bound as in C01/C03; regular axes whose spacing is below 1000 rounding errors of their coordinates are skipped"],
        subs: vec![
            Check::new("nodes", 16_000, 500_000, move |t| case(&o(t)), |c: &Case, t| typed!(c.f32, node_body(c, t))),
            Check::new("huge", 48, 600, |t| huge(vec![Method::Linear, Method::Cubic, Method::Nearest], t), |c: &Case, t| {
                typed!(c.f32, node_body(c, t))
            }),
            crate::one::linear_nodes(),
        ],
    }
}

pub fn props() -> Vec<Property> {
    vec![
        value_prop("C01", Method::Linear),
        value_prop("C02", Method::Nearest),
        value_prop("C03", Method::Cubic),
        c06(),
    ]
}
