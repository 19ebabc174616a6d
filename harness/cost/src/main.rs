//! C18: operation counts, with an instrumented scalar type.
mod q;
use proptest::prelude::*;
use q::*;
use vcore::drive::*;
use vcore::*;

mod shim {
    use crate::q::Q;
    use interpn;
    include!("../../shimgen/alloc.rs");
    include!("../../shimgen/body.rs");
    shim!(Q);
}

fn conv(p: &Problem<f64>) -> Problem<Q> {
    let v = |x: &Vec<f64>| x.iter().map(|y| Q(*y)).collect::<Vec<_>>();
    Problem {
        method: p.method,
        kind: p.kind,
        lin: p.lin,
        dims: p.dims.clone(),
        starts: v(&p.starts),
        steps: v(&p.steps),
        grids: p.grids.iter().map(v).collect(),
        vals: v(&p.vals),
        obs: p.obs.iter().map(v).collect(),
    }
}

const METHODS: [&str; 3] = ["linear", "cubic", "nearest"];

/// Allowed (operations, comparisons) for one point: about two to three times what is measured.
fn per_point(m: Method, dims: &[usize]) -> (u64, u64) {
    let n = dims.len() as u32;
    let fp = match m {
        Method::Linear => 14 * 2u64.pow(n) + 10,
        Method::Cubic => 32 * 4u64.pow(n) + 40,
        Method::Nearest => 24 * n as u64 + 10,
    };
    // bisection: about log2(size) comparisons per axis
    let log: u64 = dims.iter().map(|d| 2 * (64 - (*d as u64).leading_zeros() as u64) + 12).sum();
    let stencil = match m {
        Method::Linear => 2u64.pow(n),
        Method::Cubic => 4u64.pow(n),
        Method::Nearest => 0,
    };
    (fp, log + 2 * stencil)
}

fn body(c: &Case, t: &mut Tally) -> Result<(), String> {
    let f = expand::<f64>(c);
    let p = conv(&f);
    let n = f.ndims();
    let mut empty = p.clone();
    empty.obs.iter_mut().for_each(|o| o.clear());
    let pts = f.npts() as u64;
    let most = f.dims.iter().copied().max().unwrap_or(0);
    t.label(METHODS[p.method as usize]);
    t.label(if p.kind == Kind::Regular { "regular" } else { "rectilinear" });
    t.label(["N0", "N1", "N2", "N3", "N4", "N5", "N6", "N7", "N8", "N9", "N10"][n]);
    t.label_if(most > 1000, "axis>1000");
    t.label_if(most > 100_000, "axis>100000");
    t.label_if(pts > 100, "batch>100");
    let (ops, cmps) = per_point(p.method, &f.dims);
    for e in entries_for(p.method, n) {
        // construction and checks only
        let build_lim = 24 * n as u64 + 24;
        let fail = |what: &str, r: &Result<(), Failure>, k: Count, lim: (u64, u64)| {
            format!(
                "{e:?} {what}: {} operations and {} comparisons{} (limits {} and {}) for {pts} points on a grid of sizes {:?}: {}",
                k.ops,
                k.cmps,
                if matches!(r, Err(Failure::Panic(m)) if m == LIMIT_MSG) { ", stopped there," } else { "" },
                lim.0,
                lim.1,
                f.dims,
                f.describe(0)
            )
        };
        if !matches!(e, Entry::Alloc | Entry::RecAlloc) || pts > 0 {
            let (r, k) = counted(4 * build_lim, || shim::eval(&empty, e, &mut []));
            t.compared += 1;
            if k.ops + k.cmps > build_lim {
                return Err(fail("costs too much without any point", &r, k, (build_lim, build_lim)));
            }
        }
        let lim = (build_lim + ops * pts, build_lim + cmps * pts);
        let mut out = vec![Q(0.0); f.npts()];
        let (r, k) = counted(lim.0.max(lim.1) + 1, || shim::eval(&p, e, &mut out));
        t.compared += 1;
        if k.ops > lim.0 || k.cmps > lim.1 {
            return Err(fail("costs too much", &r, k, lim));
        }
    }
    let mut flags = vec![false; n];
    for path in 0..shim::BOUNDS_PATHS {
        let lim = 16 * n as u64 + 16 + 8 * pts * n as u64;
        let (_, k) = counted(lim + 1, || shim::check_bounds(&p, path, Q(1e-8), &mut flags));
        t.compared += 1;
        if k.ops + k.cmps > lim {
            return Err(format!("check_bounds #{path} costs {} operations and {} comparisons (limit {lim}): {}", k.ops, k.cmps, f.describe(0)));
        }
    }
    if n == 1 {
        for which in [Interp1::Linear, Interp1::HoldLast, Interp1::Left, Interp1::Right, Interp1::Nearest] {
            let p1 = Problem1 { kind: p.kind, which, start: p.starts[0], step: p.steps[0], grid: p.grids[0].clone(), vals: p.vals.clone(), locs: p.obs[0].clone() };
            for m in [Mode1::Eval, Mode1::One, Mode1::Alloc] {
                let lim = 48 + pts * (48 + 2 * (64 - (most as u64).leading_zeros() as u64));
                let mut out = vec![Q(0.0); f.npts()];
                let (_, k) = counted(lim + 1, || shim::eval1(&p1, m, &mut out));
                t.compared += 1;
                if k.ops + k.cmps > lim {
                    return Err(format!("1-D {which:?} {m:?} costs {} operations and {} comparisons (limit {lim}): {}", k.ops, k.cmps, f.describe(0)));
                }
            }
        }
        t.label("1-D interpolators");
    }
    t.nontrivial = most > 64 || pts > 64;
    Ok(())
}

fn main() {
    let big = |th: bool| {
        let cap = if th { 1_000_000 } else { 200_000 };
        let o = Opts { ndims: (1, 6), budget: cap * 8, bulk: false, max_axis: cap, max_pts: 4, work: 4000, ..Opts::default() };
        (case(&o), 0..6usize, prop_oneof![1000..cap, 20_000..cap])
            .prop_map(move |(mut c, d, m)| {
                // one long axis, the others as short as the method allows
                let min = min_points(c.method);
                let d = d % c.axes.len();
                let room = (cap * 8) / min.pow(c.axes.len() as u32 - 1);
                c.axes.iter_mut().for_each(|a| a.n = min);
                c.axes[d].n = m.min(room).max(min);
                c
            })
            .boxed()
    };
    let o = Opts { ndims: (1, 8), budget: 60_000, bulk: true, bulk_max: 3000, work: 140_000, ..Opts::default() };
    let props = vec![Property {
        id: "C18",
        rule: "generated problems evaluated with a scalar type that counts its arithmetic operations, conversions and comparisons and stops a call that exceeds its limit; every entry point, check_bounds and (in one dimension) the 1-D interpolators; grids with axes up to 200000 (thorough: 10^6) points, batches up to 3000 points, coordinates up to 10^11 cells away; non-trivial: an axis or the batch is longer than 64",
        assumptions: &[
            "limits per point: 14*2^N+10 (linear), 32*4^N+40 (cubic), 24*N+10 (nearest) operations; 2*log2(size)+12 comparisons per axis plus 2 per stencil point; construction 24*N+24: two to three times what the code needs, so constant-factor changes are not judged",
            "work that does not touch scalars (copying arrays, integer loops) is not counted",
        ],
        subs: vec![
            Check::new("nd", 16_000, 300_000, move |_| case(&o), |c: &Case, t| body(c, t)),
            Check::new("long_axis", 600, 6_000, big, |c: &Case, t| body(c, t)),
        ],
    }];
    std::process::exit(vcore::drive::main(props));
}
