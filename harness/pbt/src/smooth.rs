//! C04 continuity, C05 polynomial reproduction, C07 linearized extrapolation.
use crate::typed;
use crate::uut::*;
use proptest::prelude::*;
use vcore::drive::*;
use vcore::oracle::*;
use vcore::*;

/// Lagrange basis values and derivatives at z.
fn lagrange(xs: &[f64], z: f64) -> (Vec<f64>, Vec<f64>) {
    let n = xs.len();
    let mut l = vec![0.0; n];
    let mut dl = vec![0.0; n];
    for i in 0..n {
        let mut v = 1.0;
        for j in 0..n {
            if j != i {
                v *= (z - xs[j]) / (xs[i] - xs[j]);
            }
        }
        l[i] = v;
        let mut s = 0.0;
        for m in 0..n {
            if m == i {
                continue;
            }
            let mut q = 1.0 / (xs[i] - xs[m]);
            for j in 0..n {
                if j != i && j != m {
                    q *= (z - xs[j]) / (xs[i] - xs[j]);
                }
            }
            s += q;
        }
        dl[i] = s;
    }
    (l, dl)
}

/// The function along one axis, sampled at several coordinates.
struct Line {
    xs: Vec<f64>,
    ys: Vec<f64>,
    es: Vec<f64>,
    amax: f64,
}
impl Line {
    fn sample<T: Uut>(p: &Problem<T>, e: Entry, base: &[T], d: usize, xs: &[f64]) -> Result<Option<Line>, String> {
        let xs: Vec<T> = xs.iter().map(|&x| T::of(x)).collect();
        let pts: Vec<Vec<T>> = xs
            .iter()
            .map(|&x| {
                let mut q = base.to_vec();
                q[d] = x;
                q
            })
            .collect();
        let p = p.with_points(&pts);
        let ys = run(&p, e)?;
        let mut es = vec![];
        let mut amax = 0.0f64;
        for q in &pts {
            let r = reference(&p, q);
            if !assessable::<T>(&r) {
                return Ok(None);
            }
            es.push(r.e);
            amax = amax.max(r.a);
        }
        Ok(Some(Line { xs: xs.iter().map(|x| x.f()).collect(), ys: ys.iter().map(|y| y.f()).collect(), es, amax }))
    }
    /// value and derivative of the fitted polynomial at z with their uncertainties
    fn at(&self, z: f64, skip: usize) -> (f64, f64, f64, f64) {
        let n = self.xs.len() - skip;
        let (l, dl) = lagrange(&self.xs[..n], z);
        let (mut v, mut ev, mut s, mut es) = (0.0, 0.0, 0.0, 0.0);
        for i in 0..n {
            v += l[i] * self.ys[i];
            ev += l[i].abs() * (self.es[i] + 1e-14 * self.ys[i].abs());
            s += dl[i] * self.ys[i];
            es += dl[i].abs() * (self.es[i] + 1e-14 * self.ys[i].abs());
        }
        (v, ev, s, es)
    }
}

/// A region next to knot k of axis d on one side: (from, to, is_outside)
fn region<T: Real>(ax: &AxisView<T>, k: usize, right: bool, width: f64) -> (f64, f64, bool) {
    let n = ax.n();
    let x = ax.at(k);
    if right {
        if k == n - 1 {
            (x, x + width * (x - ax.at(n - 2)), true)
        } else {
            (x, ax.at(k + 1), false)
        }
    } else if k == 0 {
        (x, x - width * (ax.at(1) - x), true)
    } else {
        (x, ax.at(k - 1), false)
    }
}

fn degree(m: Method, lin: bool, outside: bool) -> usize {
    match (m, lin && outside) {
        (Method::Linear, _) | (_, true) => 1,
        _ => 3,
    }
}
fn fractions(deg: usize, h: u64) -> Vec<f64> {
    let j = |k: u64| 0.06 * (unit(mix(h ^ k)) - 0.5);
    match deg {
        1 => vec![0.15 + j(1), 0.9 + j(2), 0.45 + j(3)],
        _ => vec![0.08 + j(1), 0.36 + j(2), 0.66 + j(3), 0.92 + j(4), 0.5 + 2.0 * j(5)],
    }
}

fn continuity<T: Uut>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let p = expand::<T>(c);
    let n = p.ndims();
    t.label(method_label(c.method));
    t.label(kind_label(c.kind));
    t.label(nd_label(n));
    let base = p.point(0);
    let reps = if footprint(c.method).pow(n as u32) > 1000 { 1 } else { 4 };
    for rep in 0..reps {
        let h = mix(c.extra ^ mix(rep));
        let d = (h % n as u64) as usize;
        let ax = view(&p, d);
        let m = p.dims[d];
        let k = match (h >> 8) % 8 {
            0 => 0,
            1 => m - 1,
            2 => 1,
            3 => m - 2,
            4 => 2.min(m - 1),
            _ => ((h >> 16) % m as u64) as usize,
        };
        let z = T::of(ax.at(k)).f();
        let delta = ax.coord_err(z, k + 1) + 2.0 * T::EPS * z.abs();
        let width = 0.3 + 2.7 * unit(mix(h ^ 77));
        let mut sides = vec![];
        for right in [false, true] {
            let (a, b, out) = region(&ax, k, right, width);
            let hh = (b - a).abs();
            if delta > 1e-3 * hh {
                continue;
            }
            let deg = degree(c.method, c.lin, out);
            let xs: Vec<f64> = fractions(deg, h).iter().map(|f| a + f * (b - a)).collect();
            let Some(line) = Line::sample(&p, c.entry, &base, d, &xs)? else { continue };
            // degree inside the cell: the last sample is predicted by the others
            let i = line.xs.len() - 1;
            let (v, ev, _, _) = line.at(line.xs[i], 1);
            t.compared += 1;
            if !close(v, line.ys[i], 2.0 * (ev + line.es[i])) {
                return Err(format!(
                    "axis {d}, cell next to node {k} ({}): not a polynomial of degree {deg}: value {:?} at {:?}, polynomial through other samples gives {v:?} (tolerance {:e}): {}",
                    if right { "right" } else { "left" }, line.ys[i], line.xs[i], 2.0 * (ev + line.es[i]), p.describe(0)
                ));
            }
            let (v, ev, s, es) = line.at(z, 1);
            sides.push((v, ev, s, es, hh, line.amax));
            t.label(match (c.method, out) {
                (Method::Linear, false) => "linear interior side",
                (Method::Linear, true) => "linear outside side",
                (_, false) => "cubic interior side",
                (_, true) => if c.lin { "cubic linearized side" } else { "cubic extrapolated side" },
            });
        }
        // value at the node itself
        let Some(at) = Line::sample(&p, c.entry, &base, d, &[z])? else { continue };
        for s in &sides {
            let tol = 2.0 * (s.1 + at.es[0]) + delta * (s.2.abs() + 50.0 * s.5 / s.4);
            t.compared += 1;
            if !close(s.0, at.ys[0], tol) {
                return Err(format!(
                    "axis {d}, node {k}: value {:?} at the node but limit {:?} from one side (tolerance {tol:e}): {}",
                    at.ys[0], s.0, p.describe(0)
                ));
            }
        }
        if sides.len() == 2 && c.method == Method::Cubic {
            let (l, r) = (&sides[0], &sides[1]);
            let hm = l.4.min(r.4);
            let tol = 2.0 * (l.3 + r.3) + 200.0 * delta * (l.5 + r.5) / (hm * hm);
            t.compared += 1;
            if !close(l.2, r.2, tol) {
                return Err(format!(
                    "axis {d}, node {k}: first derivative jumps from {:?} to {:?} (tolerance {tol:e}): {}",
                    l.2, r.2, p.describe(0)
                ));
            }
            t.label("derivative compared");
            t.label_if(k == 0 || k == m - 1, "derivative compared at an end node");
        }
    }
    t.nontrivial = t.compared > 0 && p.vals.iter().any(|v| *v != p.vals[0]);
    Ok(())
}

// ---- C05 --------------------------------------------------------------------

const RANK: usize = 3;

/// sum of RANK products of per-axis polynomials in a normalised coordinate
struct Field {
    /// [rank][axis][power]
    c: Vec<Vec<[f64; 3]>>,
    x0: Vec<f64>,
    sc: Vec<f64>,
}
impl Field {
    fn new<T: Real>(p: &Problem<T>, seed: u64) -> Field {
        let n = p.ndims();
        let deg = if p.method == Method::Linear { 1 } else { 2 };
        let coef = |r: usize, d: usize, k: usize| {
            let h = mix(seed ^ (r * 100 + d * 10 + k) as u64);
            if k > deg || h.is_multiple_of(9) { 0.0 } else { (mix(h) % 17) as f64 / 4.0 - 2.0 }
        };
        Field {
            c: (0..RANK)
                .map(|r| (0..n).map(|d| [coef(r, d, 0) + 0.25, coef(r, d, 1), coef(r, d, 2)]).collect())
                .collect(),
            x0: (0..n).map(|d| p.grids[d][(mix(seed ^ d as u64) % p.dims[d] as u64) as usize].f()).collect(),
            sc: (0..n).map(|d| {
                let g = &p.grids[d];
                (g[g.len() - 1].f() - g[0].f()) / (1.0 + (mix(seed ^ 99 ^ d as u64) % 3) as f64)
            }).collect(),
        }
    }
    /// per axis and rank: value, majorant, derivative majorant (in x)
    fn axis(&self, d: usize, x: f64) -> [(f64, f64, f64); RANK] {
        let u = (x - self.x0[d]) / self.sc[d];
        let mut o = [(0.0, 0.0, 0.0); RANK];
        for (r, q) in o.iter_mut().enumerate() {
            let c = &self.c[r][d];
            let a = u.abs();
            *q = (
                c[0] + u * (c[1] + u * c[2]),
                c[0].abs() + a * (c[1].abs() + a * c[2].abs()),
                (c[1].abs() + 2.0 * a * c[2].abs()) / self.sc[d].abs(),
            );
        }
        o
    }
    /// value, majorant, and effect of coordinate uncertainty
    fn eval(&self, axes: &[[(f64, f64, f64); RANK]], dx: &[f64]) -> (f64, f64, f64) {
        let (mut v, mut m, mut e) = (0.0, 0.0, 0.0);
        for r in 0..RANK {
            let pv: f64 = axes.iter().map(|a| a[r].0).product();
            let pm: f64 = axes.iter().map(|a| a[r].1).product();
            v += pv;
            m += pm;
            for (d, a) in axes.iter().enumerate() {
                if dx[d] > 0.0 {
                    let others: f64 = axes.iter().enumerate().filter(|(j, _)| *j != d).map(|(_, b)| b[r].1).product();
                    e += a[r].2 * dx[d] * others;
                }
            }
        }
        (v, m, e)
    }
}

fn reproduce<T: Uut>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let mut p = expand::<T>(c);
    let n = p.ndims();
    let f = Field::new(&p, c.vseed);
    let len = p.vals.len();
    let st = p.strides();
    // node coordinate uncertainty of the regular formula
    let dx: Vec<f64> = (0..n).map(|d| {
        let v = view(&p, d);
        if p.kind == Kind::Regular { v.coord_err(p.grids[d][p.dims[d] - 1].f(), p.dims[d]) } else { 0.0 }
    }).collect();
    if (0..n).any(|d| {
        let g = &p.grids[d];
        dx[d] > 1e-3 * (g[g.len() - 1].f() - g[0].f()) / g.len() as f64
    }) {
        t.label("skipped: nodes not separated at this precision");
        return Ok(());
    }
    let per: Vec<Vec<[(f64, f64, f64); RANK]>> = (0..n)
        .map(|d| (0..p.dims[d]).map(|i| f.axis(d, view(&p, d).at(i))).collect())
        .collect();
    let mut bound = vec![0.0f64; len];
    for k in 0..len {
        let axes: Vec<_> = (0..n).map(|d| per[d][k / st[d] % p.dims[d]]).collect();
        let (v, m, e) = f.eval(&axes, &dx);
        p.vals[k] = T::of(v);
        bound[k] = T::EPS * v.abs() + 1e-14 * m + 2.0 * e;
    }
    // the same problem carrying the bounds, to propagate them through the weights
    let pb = Problem::<f64> {
        method: p.method,
        kind: p.kind,
        lin: p.lin,
        dims: p.dims.clone(),
        starts: p.starts.iter().map(|x| x.f()).collect(),
        steps: p.steps.iter().map(|x| x.f()).collect(),
        grids: p.grids.iter().map(|g| g.iter().map(|x| x.f()).collect()).collect(),
        vals: bound,
        obs: vec![],
    };
    t.label(method_label(c.method));
    t.label(kind_label(c.kind));
    t.label(nd_label(n));
    let entries = if footprint(c.method).pow(n as u32) * p.npts() <= 500 { entries_for(c.method, n) } else { vec![c.entry] };
    for e in entries {
        let out = run(&p, e)?;
        for i in 0..p.npts() {
            let x = p.point(i);
            let outside = (0..n).any(|d| {
                let g = &p.grids[d];
                x[d] < g[0] || x[d] > g[g.len() - 1]
            });
            if outside && c.lin && c.method == Method::Cubic {
                continue;
            }
            let r = reference(&p, &x);
            if !assessable::<T>(&r) {
                continue;
            }
            let xf: Vec<f64> = x.iter().map(|q| q.f()).collect();
            let axes: Vec<_> = (0..n).map(|d| f.axis(d, xf[d])).collect();
            let (v, m, _) = f.eval(&axes, &vec![0.0; n]);
            let prop = reference(&pb, &xf).a;
            let tol = r.e + 2.0 * prop + 1e-13 * m;
            t.compared += 1;
            t.label_if(outside, "outside point compared");
            if !close(out[i].f(), v, tol) {
                return Err(format!(
                    "{e:?}: field sampled from a polynomial is not reproduced: got {:?}, polynomial {v:?} (tolerance {tol:e}): {}",
                    out[i], p.describe(i)
                ));
            }
        }
    }
    t.nontrivial = t.compared > 0;
    Ok(())
}

// ---- C07 --------------------------------------------------------------------

fn linearized<T: Uut>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let mut p = expand::<T>(c);
    let n = p.ndims();
    let h = mix(c.extra);
    t.label(kind_label(c.kind));
    t.label(nd_label(n));
    // (a) inside, the switch has no effect
    let inside: Vec<Vec<T>> = (0..p.npts())
        .map(|i| {
            let mut x = p.point(i);
            for d in 0..n {
                let g = &p.grids[d];
                x[d] = x[d].max(g[0]).min(g[g.len() - 1]);
            }
            x
        })
        .collect();
    let q = p.with_points(&inside);
    let (mut q0, mut q1) = (q.clone(), q);
    q0.lin = false;
    q1.lin = true;
    let (a, b) = (run(&q0, c.entry)?, run(&q1, c.entry)?);
    for i in 0..a.len() {
        let (r0, r1) = (reference(&q0, &inside[i]), reference(&q1, &inside[i]));
        if !assessable::<T>(&r0) {
            continue;
        }
        t.compared += 1;
        if !close(a[i].f(), b[i].f(), r0.e + r1.e) {
            return Err(format!("inside the grid linearize_extrapolation changes {:?} to {:?}: {}", a[i], b[i], q0.describe(i)));
        }
    }
    // (b), (c) along out-of-range axes
    let base = p.point(0);
    let reps = if n > 4 { 1 } else { 4 };
    for rep in 0..reps {
        let h = mix(h ^ mix(rep));
        let d = (h % n as u64) as usize;
        let m = p.dims[d];
        let right = h >> 9 & 1 == 1;
        let ax = view(&p, d);
        let k = if right { m - 1 } else { 0 };
        let (g0, gi, _) = {
            let (a, b, _) = region(&ax, k, !right, 1.0);
            (a, b, 0)
        };
        let w = (gi - g0).abs();
        let z = T::of(g0).f();
        let delta = ax.coord_err(z, k + 1) + 2.0 * T::EPS * z.abs();
        if delta > 1e-3 * w {
            continue;
        }
        let sgn = if right { 1.0 } else { -1.0 };
        let far = 10f64.powf(3.0 * unit(mix(h ^ 3)) - 1.0);
        let dist = [0.3 * far, far, (0.35 + 0.6 * unit(mix(h ^ 5))) * far];
        let kk = ax.coord_err(z + sgn * far * w, k + 1);
        if kk > 1e-3 * w * dist[0] {
            continue;
        }
        p.lin = true;
        let xs: Vec<f64> = dist.iter().map(|q| z + sgn * q * w).collect();
        let Some(out) = Line::sample(&p, c.entry, &base, d, &xs)? else { continue };
        // straight
        let (v, ev, slope_out, eslope_out) = out.at(out.xs[2], 1);
        t.compared += 1;
        if !close(v, out.ys[2], 2.0 * (ev + out.es[2])) {
            return Err(format!(
                "axis {d}: linearized extrapolation is not straight: {:?} at {:?}, line through two other points gives {v:?} (tolerance {:e}): {}",
                out.ys[2], out.xs[2], 2.0 * (ev + out.es[2]), p.describe(0)
            ));
        }
        let (v_out, ev_out, _, _) = out.at(z, 1);
        // boundary value and slope of the plain interpolant, from inside and from outside
        p.lin = false;
        for side_in in [true, false] {
            let dir = if side_in { -sgn } else { sgn };
            let xs: Vec<f64> = fractions(3, h).iter().map(|q| z + dir * q * w).collect();
            let Some(l) = Line::sample(&p, c.entry, &base, d, &xs)? else { continue };
            // (outside, the other coordinates keep the linearized value only when in range)
            let others_in = others_inside(&p, &base, d);
            if !others_in {
                continue;
            }
            let (v, ev, s, es) = l.at(z, 1);
            let tolv = 2.0 * (ev + ev_out) + delta * (s.abs() + 100.0 * l.amax / w);
            let tols = 2.0 * (es + eslope_out) + 200.0 * delta * (l.amax + out.amax) / (w * w);
            t.compared += 2;
            t.label("boundary value and slope compared");
            if !close(v, v_out, tolv) || !close(s, slope_out, tols) {
                return Err(format!(
                    "axis {d}, end node {k}: linearized extrapolation starts with value {v_out:?} slope {slope_out:?}, plain interpolant {} the grid has value {v:?} slope {s:?} (tolerances {tolv:e}, {tols:e}): {}",
                    if side_in { "inside" } else { "outside" }, p.describe(0)
                ));
            }
        }
        // with other axes out of range too: the same inside line with lin on
        p.lin = true;
        let xs: Vec<f64> = fractions(3, h).iter().map(|q| z - sgn * q * w).collect();
        let Some(l) = Line::sample(&p, c.entry, &base, d, &xs)? else { continue };
        let (v, ev, s, es) = l.at(z, 1);
        let tolv = 2.0 * (ev + ev_out) + delta * (s.abs() + 100.0 * l.amax / w);
        let tols = 2.0 * (es + eslope_out) + 200.0 * delta * (l.amax + out.amax) / (w * w);
        t.compared += 2;
        t.label_if(!others_inside(&p, &base, d), "slope compared with other axes out of range");
        if !close(v, v_out, tolv) || !close(s, slope_out, tols) {
            return Err(format!(
                "axis {d}, end node {k}: linearized extrapolation starts with value {v_out:?} slope {slope_out:?}, inside the axis range value {v:?} slope {s:?} (tolerances {tolv:e}, {tols:e}): {}",
                p.describe(0)
            ));
        }
    }
    t.nontrivial = t.compared > 0 && p.vals.iter().any(|v| *v != p.vals[0]);
    Ok(())
}

fn others_inside<T: Real>(p: &Problem<T>, base: &[T], d: usize) -> bool {
    (0..p.ndims()).all(|j| {
        let g = &p.grids[j];
        j == d || (base[j] >= g[0] && base[j] <= g[g.len() - 1])
    })
}
pub fn props() -> Vec<Property> {
    let o = |methods: Vec<Method>, max_pts: usize, th: bool| Opts {
        methods,
        ndims: (1, 8),
        budget: if th { 100_000 } else { 20_000 },
        bulk: false,
        max_pts,
        work: 100_000,
        ..Opts::default()
    };
    // points with in-range coordinates more often than not
    let mostly_inside = move |th: bool| -> BoxedStrategy<Case> {
        (case(&o(vec![Method::Cubic], 6, th)), any::<u64>())
            .prop_map(|(mut c, h)| {
                if h & 1 == 0 {
                    for (i, p) in c.pts.iter_mut().enumerate() {
                        for (d, q) in p.iter_mut().enumerate() {
                            if matches!(q, Pt::Low(_) | Pt::High(_) | Pt::Zero(_)) {
                                let z = mix(h ^ (i * 16 + d) as u64);
                                *q = Pt::In(z as i32, unit(mix(z)));
                            }
                        }
                    }
                }
                c
            })
            .boxed()
    };
    vec![
        Property {
            id: "C04",
            rule: "for a generated multilinear/multicubic problem, up to four (axis, node) pairs: samples strictly inside the cell (or extrapolation region) on each side are fitted by a polynomial of the claimed degree, one more sample tests the degree, and limits of value (and first derivative) at the node are compared across it and with the value at the node; non-trivial: non-constant values and at least one comparison",
            assumptions: &["tolerances propagate the roundoff bound of C01/C03 through the fit; cells narrower than 1000 rounding errors of their coordinates are skipped"],
            subs: vec![
                Check::new("cubic", 16_000, 400_000, move |th| case(&o(vec![Method::Cubic], 1, th)), |c: &Case, t| typed!(c.f32, continuity(c, t))),
                Check::new("linear", 16_000, 400_000, move |th| case(&o(vec![Method::Linear], 1, th)), |c: &Case, t| typed!(c.f32, continuity(c, t))),
            ],
        },
        Property {
            id: "C05",
            rule: "grid values sample a generated sum of three products of per-axis polynomials (degree 1 for multilinear, 2 for multicubic); results at generated points are compared with the polynomial itself; non-trivial: at least one comparison",
            assumptions: &["tolerance: roundoff bound of C01/C03 plus rounding of the stored samples propagated through the absolute weights"],
            subs: vec![
                Check::new("linear", 14_000, 400_000, move |th| case(&o(vec![Method::Linear], 8, th)), |c: &Case, t| typed!(c.f32, reproduce(c, t))),
                Check::new("cubic", 14_000, 400_000, move |th| case(&o(vec![Method::Cubic], 8, th)), |c: &Case, t| typed!(c.f32, reproduce(c, t))),
            ],
        },
        Property {
            id: "C07",
            rule: "for a generated multicubic problem: points clamped into the grid are evaluated with and without linearized extrapolation; along up to four axes, three outside points are tested for collinearity, and the line's value and slope at the boundary are compared with those of the interpolant fitted inside (and, plain mode, outside); non-trivial: non-constant values and at least one comparison",
            assumptions: &["tolerances as in C04"],
            subs: vec![Check::new("cubic", 14_000, 400_000, mostly_inside, |c: &Case, t| typed!(c.f32, linearized(c, t)))],
        },
    ]
}
