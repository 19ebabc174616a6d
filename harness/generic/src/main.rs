//! C35: the generic interfaces with types the library has never seen.
mod dd;
mod user;
use dd::D;
use vcore::drive::*;
use vcore::oracle::*;
use vcore::*;

mod shim {
    use crate::dd::D;
    use interpn;
    include!("../../shimgen/alloc.rs");
    include!("../../shimgen/body.rs");
    shim!(D);
    shim_utils!(D);
}

/// f64 error bounds hold for D when scaled by this: 2^-52 down to about 2^-104, and 32 times that
/// because an operation on D is off by several units.
const SCALE: f64 = 1.0 / (1u64 << 47) as f64;
/// relative rounding of an operation on D
const EPSD: f64 = 1.0 / (1u128 << 98) as f64;

/// Extends an f64 by digits beyond its precision; a function of the number and the salt only.
fn wide(x: f64, salt: u64) -> D {
    let u = 2.0 * unit(mix(x.to_bits() ^ salt)) - 1.0;
    D::new(x, if x == 0.0 { 0.0 } else { x * u * 2f64.powi(-54) })
}

fn extend(f: &Problem<f64>, salt: u64) -> Problem<D> {
    let regular = f.kind == Kind::Regular;
    let starts: Vec<D> = f.starts.iter().map(|x| wide(*x, salt)).collect();
    let steps: Vec<D> = f.steps.iter().map(|x| wide(*x, salt + 1)).collect();
    let grids: Vec<Vec<D>> = (0..f.ndims())
        .map(|d| (0..f.dims[d]).map(|i| if regular { starts[d] + steps[d] * D::int(i) } else { wide(f.grids[d][i], salt + 2) }).collect())
        .collect();
    let obs = (0..f.ndims())
        .map(|d| {
            f.obs[d]
                .iter()
                .enumerate()
                .map(|(k, &x)| {
                    // a location on a node stays there, three times out of four
                    let j = f.grids[d].partition_point(|g| *g < x);
                    if j < f.dims[d] && f.grids[d][j] == x && mix(salt ^ k as u64) % 4 > 0 { grids[d][j] } else { wide(x, salt + 3 + d as u64) }
                })
                .collect()
        })
        .collect();
    Problem { method: f.method, kind: f.kind, lin: f.lin, dims: f.dims.clone(), starts, steps, grids, vals: f.vals.iter().enumerate().map(|(i, x)| wide(*x, salt ^ i as u64)).collect(), obs }
}

/// Magnitudes at which products of low parts neither underflow nor overflow.
fn moderate(f: &Problem<f64>) -> bool {
    let ok = |x: &f64| *x == 0.0 || (1e-60..1e60).contains(&x.abs());
    f.vals.iter().all(ok) && f.grids.iter().flatten().all(ok) && f.steps.iter().all(ok) && f.obs.iter().flatten().all(ok)
}

fn cell(g: &[D], x: D) -> usize {
    (g.partition_point(|v| *v <= x)).max(1).min(g.len() - 1) - 1
}

/// (first node, weights) along one axis, from the definition of the method
fn weights(p: &Problem<D>, d: usize, x: D) -> (usize, Vec<D>) {
    let g = &p.grids[d];
    let n = g.len();
    let c = cell(g, x);
    let one = D::of(1.0);
    let (two, three) = (D::of(2.0), D::of(3.0));
    // on a regular axis the difference of two coordinates is less precise than the step
    let width = |i: usize| if p.kind == Kind::Regular { p.steps[d] } else { g[i + 1] - g[i] };
    let h = width(c);
    let s = (x - g[c]) / h;
    if p.method == Method::Linear {
        return (c, vec![one - s, s]);
    }
    let base = if c == 0 { 0 } else { (c - 1).min(n - 4) };
    let mut w = vec![D::of(0.0); 4];
    let mut add = |node: usize, v: D| w[node - base] += v;
    // coefficient `k` times the slope (by parabola through the neighbours) at interior node i, per h
    let slope = |i: usize, k: D, add: &mut dyn FnMut(usize, D)| {
        let (a, b) = (width(i - 1), width(i));
        let (l, r) = (h * b / (a * (a + b)), h * a / (b * (a + b)));
        add(i - 1, -(k * l));
        add(i, k * (l - r));
        add(i + 1, k * r);
    };
    if c > 0 && c + 2 < n {
        let (s2, s3) = (s * s, s * s * s);
        add(c, one - three * s2 + two * s3);
        add(c + 1, three * s2 - two * s3);
        slope(c, s - two * s2 + s3, &mut add);
        slope(c + 1, s3 - s2, &mut add);
    } else {
        let (inner, end, r, sgn) = if c == 0 { (1, 0, one - s, -one) } else { (c, c + 1, s, one) };
        let (wi, we, wk) = if p.lin && r > one {
            let q = r - one;
            (-(two * q), one + two * q, -q)
        } else {
            (one - r * r, r * r, r - r * r)
        };
        add(inner, wi);
        add(end, we);
        slope(inner, sgn * wk, &mut add);
    }
    (base, w)
}

fn sum(ws: &[(usize, Vec<D>)], dims: &[usize], off: usize, vals: &[D]) -> D {
    let Some((base, w)) = ws.first() else { return vals[off] };
    let mut r = D::of(0.0);
    for (j, w) in w.iter().enumerate() {
        r += *w * sum(&ws[1..], &dims[1..], off * dims[0] + base + j, vals);
    }
    r
}

/// rounding of the position of a location relative to the nodes
fn fuzz(p: &Problem<D>, d: usize, x: D) -> f64 {
    match p.kind {
        Kind::Regular => EPSD * (x.h.abs() + p.starts[d].h.abs() + 2.0 * p.steps[d].h.abs() * (p.dims[d] + 2) as f64),
        Kind::Rectilinear => 0.0,
    }
}

/// The node indices that nearest-neighbour may choose.
fn picks(p: &Problem<D>, d: usize, x: D) -> (usize, usize) {
    let g = &p.grids[d];
    let c = cell(g, x);
    let (d0, d1) = ((x - g[c]).h, (g[c + 1] - x).h);
    let tol = 2.0 * fuzz(p, d, x) + EPSD * (g[c + 1] - g[c]).h;
    if (d0 - d1).abs() <= 2.0 * tol {
        (c, c + 1)
    } else if d0 < d1 {
        (c, c)
    } else {
        (c + 1, c + 1)
    }
}

fn any_pick(picks: &[(usize, usize)], dims: &[usize], off: usize, vals: &[D], got: D) -> bool {
    match picks.first() {
        None => vals[off] == got,
        Some(q) => (q.0..=q.1).any(|i| any_pick(&picks[1..], &dims[1..], off * dims[0] + i, vals, got)),
    }
}

fn precise(c: &Case, t: &mut Tally) -> Result<(), String> {
    let f = expand::<f64>(c);
    if !moderate(&f) {
        t.label("extreme magnitudes, skipped");
        return Ok(());
    }
    let p = extend(&f, c.extra);
    let n = f.ndims();
    t.label(["linear", "cubic", "nearest"][p.method as usize]);
    t.label(if p.kind == Kind::Regular { "regular" } else { "rectilinear" });
    t.label(["N0", "N1", "N2", "N3", "N4", "N5", "N6", "N7", "N8", "N9", "N10"][n]);
    let pts = f.npts();
    let at = |i: usize| -> Vec<D> { (0..n).map(|d| p.obs[d][i]).collect() };
    // documented values
    let mut want: Vec<Option<(D, f64)>> = vec![];
    if p.method != Method::Nearest {
        for i in 0..pts {
            let r = reference(&f, &f.point(i));
            want.push(assessable::<f64>(&r).then(|| {
                let ws: Vec<_> = at(i).iter().enumerate().map(|(d, x)| weights(&p, d, *x)).collect();
                let w = sum(&ws, &p.dims, 0, &p.vals);
                (w, r.e * SCALE)
            }));
        }
    }
    let mut tight = 0;
    for e in entries_for(p.method, n) {
        let mut out = vec![D::of(-7e20); pts];
        shim::eval(&p, e, &mut out).map_err(|x| format!("{e:?} {x} for a double-double scalar: {}", f.describe(0)))?;
        for i in 0..pts {
            t.compared += 1;
            if p.method == Method::Nearest {
                let q: Vec<_> = at(i).iter().enumerate().map(|(d, x)| picks(&p, d, *x)).collect();
                if !any_pick(&q, &p.dims, 0, &p.vals, out[i]) {
                    return Err(format!("{e:?} for a double-double scalar gives {:?}, not the value nearest to {:?} (indices {q:?}): {}", out[i], at(i), f.describe(i)));
                }
                tight += 1;
            } else if let Some((w, err)) = want[i] {
                let dist = (out[i] - w).h.abs();
                if !(dist <= err) {
                    return Err(format!("{e:?} for a double-double scalar gives {:?} at {:?}, documented value {w:?} (difference {dist:e}, bound {err:e}): {}", out[i], at(i), f.describe(i)));
                }
                // the bound is finer than what f64 resolves
                tight += (err < 1e-3 * f64::EPSILON * w.h.abs()) as u64;
            }
        }
    }
    // check_bounds
    for atol in [D::of(0.0), wide(1e-8, 5), D::of(f.grids[0][1] - f.grids[0][0]) * D::of(1e-25)] {
        let flags: Vec<Option<bool>> = (0..n)
            .map(|d| {
                let g = &p.grids[d];
                let mut any = Some(false);
                for x in &p.obs[d] {
                    let (below, above) = (g[0] - *x, *x - g[g.len() - 1]);
                    let over = if below > above { below } else { above };
                    let m = fuzz(&p, d, *x) + EPSD * (over.h.abs() + atol.h);
                    let exact = p.kind == Kind::Rectilinear && over <= D::of(0.0);
                    if (over - atol).h > m {
                        return Some(true);
                    }
                    if !exact && (over - atol).h > -m {
                        any = None;
                    }
                }
                any
            })
            .collect();
        for path in 0..shim::BOUNDS_PATHS {
            let mut out = vec![false; n];
            shim::check_bounds(&p, path, atol, &mut out).map_err(|x| format!("check_bounds #{path} {x} for a double-double scalar: {}", f.describe(0)))?;
            for d in 0..n {
                t.compared += 1;
                if flags[d].is_some_and(|w| w != out[d]) {
                    return Err(format!("check_bounds #{path} for a double-double scalar with tolerance {atol:?} gives {} on axis {d} for {:?} within [{:?}, {:?}]: {}", out[d], p.obs[d], p.grids[d][0], p.grids[d].last().unwrap(), f.describe(0)));
                }
            }
        }
    }
    if n == 1 {
        one_dim(&f, &p, t)?;
    }
    t.nontrivial = tight > 0;
    Ok(())
}

fn one_dim(f: &Problem<f64>, p: &Problem<D>, t: &mut Tally) -> Result<(), String> {
    t.label("1-D interpolators");
    let g = &p.grids[0];
    let n = g.len();
    let (a, b) = (g[0], g[n - 1]);
    let l = shim::linspace(a, b, n).map_err(|x| format!("linspace {x} for a double-double scalar from {a:?} to {b:?}, {n} values"))?;
    for (i, v) in l.iter().enumerate() {
        let w = a + (b - a) * D::int(i) / D::int(n - 1);
        t.compared += 1;
        if l.len() != n || !((*v - w).h.abs() <= 8.0 * EPSD * (a.h.abs() + b.h.abs())) {
            return Err(format!("linspace for a double-double scalar from {a:?} to {b:?}: element {i} of {} (asked for {n}) is {v:?}, not {w:?}", l.len()));
        }
    }
    let mesh = shim::meshgrid(&[g[..n.min(3)].to_vec(), g[n - 2..].to_vec()]).map_err(|x| format!("meshgrid {x} for a double-double scalar"))?;
    let wm: Vec<Vec<D>> = g[..n.min(3)].iter().flat_map(|x| g[n - 2..].iter().map(move |y| vec![*x, *y])).collect();
    if mesh != wm {
        return Err(format!("meshgrid for a double-double scalar gives {mesh:?}, not {wm:?}"));
    }
    let lin = Problem { method: Method::Linear, ..p.clone() };
    let flin = Problem { method: Method::Linear, ..f.clone() };
    for which in [Interp1::Linear, Interp1::HoldLast, Interp1::Left, Interp1::Right, Interp1::Nearest] {
        let p1 = Problem1 { kind: p.kind, which, start: p.starts[0], step: p.steps[0], grid: g.clone(), vals: p.vals.clone(), locs: p.obs[0].clone() };
        for m in [Mode1::Eval, Mode1::One, Mode1::Alloc] {
            let mut out = vec![D::of(-7e20); p1.locs.len()];
            shim::eval1(&p1, m, &mut out).map_err(|x| format!("{which:?} {m:?} {x} for a double-double scalar: {}", f.describe(0)))?;
            for (i, &x) in p1.locs.iter().enumerate() {
                t.compared += 1;
                let bad = |want: String| Err(format!("{which:?} {m:?} for a double-double scalar gives {:?} at {x:?}, expected {want}: {}", out[i], f.describe(i)));
                let z = 4.0 * fuzz(p, 0, x);
                match which {
                    Interp1::Linear | Interp1::HoldLast => {
                        let y = if which == Interp1::HoldLast { if x < g[0] { g[0] } else if x > g[n - 1] { g[n - 1] } else { x } } else { x };
                        let r = reference(&flin, &[y.h]);
                        if !assessable::<f64>(&r) {
                            continue;
                        }
                        let w = sum(&[weights(&lin, 0, y)], &p.dims, 0, &p.vals);
                        let c = cell(g, y);
                        let slope = ((p.vals[c + 1] - p.vals[c]) / (g[c + 1] - g[c])).h.abs();
                        // a node coordinate may be off by its rounding
                        let err = r.e * SCALE + 2.0 * z * (slope + r.a / (g[c + 1] - g[c]).h);
                        if !((out[i] - w).h.abs() <= err) {
                            return bad(format!("{w:?} (bound {err:e})"));
                        }
                    }
                    Interp1::Nearest => {
                        if !any_pick(&[picks(p, 0, x)], &p.dims, 0, &p.vals, out[i]) {
                            return bad(format!("the value of index {:?}", picks(p, 0, x)));
                        }
                    }
                    Interp1::Left | Interp1::Right => {
                        let c = cell(g, x);
                        let on = |k: usize| (x - g[k]).h.abs() <= z;
                        let mut ok = vec![];
                        if x < g[0] && !on(0) {
                            ok.push(0)
                        } else if x > g[n - 1] && !on(n - 1) {
                            ok.push(n - 1)
                        } else {
                            for k in [c, c + 1] {
                                if x == g[k] && z == 0.0 {
                                    ok = vec![k];
                                    break;
                                } else if on(k) {
                                    // either side of the node
                                    ok.extend([k.max(1) - 1, k, (k + 1).min(n - 1)])
                                } else {
                                    ok.push(if which == Interp1::Left { c } else { c + 1 })
                                }
                            }
                        }
                        if !ok.iter().any(|k| p.vals[*k] == out[i]) {
                            return bad(format!("the value of index {ok:?}"));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn main() {
    let o = Opts { ndims: (1, 8), budget: 40_000, bulk: false, max_pts: 10, max_axis: 3000, work: 60_000, ..Opts::default() };
    let o1 = Opts { ndims: (1, 1), budget: 4000, bulk: false, max_pts: 40, max_axis: 4000, ..Opts::default() };
    let props = vec![Property {
        id: "C35",
        rule: "all entry points, check_bounds, linspace, meshgrid and the 1-D interpolators with a double-double scalar defined by the harness, on generated problems whose grids, steps, values and locations all carry digits beyond f64, compared with a double-double evaluation of the definition to the rounding bound at 2^-104; the five 1-D interpolators over four grid types defined by the harness and the provided methods of an interpolator defined by the harness; non-trivial: a value assessed to better than 1/1000 of the f64 epsilon, or a user grid evaluated at more than one cell",
        assumptions: &[
            "problems with a nonzero magnitude outside 1e-60..1e60 are skipped for the double-double scalar, whose low parts would underflow",
            "grids defined by the caller are consistent: inside samples bracket the location, outside samples are the end cell's",
        ],
        subs: vec![
            Check::new("precise", 12_000, 300_000, move |_| case(&o), precise),
            Check::new("precise_1d", 6_000, 100_000, move |_| case(&o1), precise),
            Check::new("user_grid", 16_000, 400_000, |_| user::grids(), user::grid_body),
            Check::new("user_interp", 8_000, 200_000, |_| user::interps(), user::interp_body),
        ],
    }];
    std::process::exit(vcore::drive::main(props));
}
