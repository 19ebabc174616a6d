//! C33: the interpolant in N dimensions and in fewer.
use crate::typed;
use crate::uut::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::drive::*;
use vcore::oracle::*;
use vcore::*;

fn labels<T: Real>(p: &Problem<T>, t: &mut Tally) {
    t.label(method_label(p.method));
    t.label(kind_label(p.kind));
    t.label(nd_label(p.ndims()));
}

/// the problem restricted to the other axes (values not set)
fn drop_axis<T: Real>(p: &Problem<T>, k: usize) -> Problem<T> {
    let mut q = p.clone();
    q.dims.remove(k);
    q.starts.remove(k);
    q.steps.remove(k);
    q.grids.remove(k);
    q.obs.remove(k);
    q.vals.clear();
    q
}

/// index in the larger array, split around axis k: (block, index on the axis, rest)
fn around<T: Real>(p: &Problem<T>, k: usize) -> (usize, usize, usize) {
    (p.dims[..k].iter().product(), p.dims[k], p.dims[k + 1..].iter().product())
}

/// rounding of the node coordinates of a regular axis
fn blur<T: Real>(p: &Problem<T>, d: usize) -> f64 {
    match p.kind {
        Kind::Rectilinear => 0.0,
        Kind::Regular if exact_axis(&view(p, d)) => 0.0,
        Kind::Regular => 4.0 * T::EPS * (p.starts[d].f().abs() + p.steps[d].f() * p.dims[d] as f64),
    }
}

fn clear<T: Real>(p: &Problem<T>, x: &[T], slack: &[f64]) -> bool {
    (0..p.ndims()).all(|d| {
        let ax = view(p, d);
        let xx = x[d].f();
        let k0 = nearest_axis(&ax, xx);
        [xx - slack[d], xx, xx + slack[d]].iter().all(|&y| {
            let k = nearest_axis(&ax, y);
            k.lo == k.hi && k.lo == k0.lo && (!k.exact_tie || slack[d] == 0.0)
        })
    })
}

fn some_entries<T: Real>(p: &Problem<T>, seed: u64) -> Vec<Entry> {
    let es = entries_for(p.method, p.ndims());
    if footprint(p.method).pow(p.ndims() as u32) * p.npts() <= 1500 { es } else { vec![es[(seed % es.len() as u64) as usize]] }
}

/// Compare the larger problem with the smaller one at the same points.
fn agree<T: Uut>(p: &Problem<T>, q: &Problem<T>, k: usize, seed: u64, what: &str, t: &mut Tally) -> Result<(), String> {
    let n = p.ndims();
    let mut delta = vec![0.0; n];
    delta[k] = blur(p, k);
    if delta[k] > 1e-2 * p.steps[k].f() && p.kind == Kind::Regular {
        t.label("skipped: nodes not separated at this precision");
        return Ok(());
    }
    let eq = {
        let es = entries_for(q.method, q.ndims());
        es[(mix(seed) % es.len() as u64) as usize]
    };
    let b = run(q, eq)?;
    for e in some_entries(p, seed) {
        let a = run(p, e)?;
        for i in 0..a.len() {
            let (x, y) = (p.point(i), q.point(i));
            let tol = if p.method == Method::Nearest {
                0.0
            } else {
                let (ra, rb) = (reference_rel(p, &x, &delta), reference(q, &y));
                if !assessable::<T>(&ra) || !assessable::<T>(&rb) {
                    continue;
                }
                ra.e + rb.e
            };
            t.compared += 1;
            if !close(a[i].f(), b[i].f(), tol) {
                if p.method == Method::Nearest && !clear(p, &x, &delta) {
                    continue;
                }
                return Err(format!("{e:?} gives {:?}, but {what} (axis {k}) through {eq:?} gives {:?} (tolerance {tol:e}): {}", a[i], b[i], p.describe(i)));
            }
        }
    }
    t.nontrivial = t.compared > 0 && q.vals.iter().any(|v| *v != q.vals[0]);
    Ok(())
}

/// Points on a plane of nodes: the interpolant of that plane's values.
fn slice<T: Uut>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let mut p = expand::<T>(c);
    labels(&p, t);
    let n = p.ndims();
    let k = (c.extra % n as u64) as usize;
    let m = p.dims[k];
    let j = match c.extra / 16 % 4 {
        0 => 0,
        1 => m - 1,
        _ => (mix(c.extra) % m as u64) as usize,
    };
    let node = p.grids[k][j];
    p.obs[k].iter_mut().for_each(|x| *x = node);
    let mut q = drop_axis(&p, k);
    let (hi, m, lo) = around(&p, k);
    q.vals = (0..hi * lo).map(|i| p.vals[(i / lo * m + j) * lo + i % lo]).collect();
    t.label(if j == 0 || j == m - 1 { "end plane" } else { "inner plane" });
    agree(&p, &q, k, c.extra, "the interpolant of the plane of nodes through the point", t)
}

/// Values that do not depend on one coordinate.
fn extrude<T: Uut>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let mut p = expand_sans_vals::<T>(c);
    labels(&p, t);
    let n = p.ndims();
    let k = (c.extra % n as u64) as usize;
    let mut q = drop_axis(&p, k);
    q.vals = make_vals(c.vals, c.vseed, q.dims.iter().product());
    let (hi, m, lo) = around(&p, k);
    p.vals = (0..hi * m * lo).map(|i| q.vals[i / (m * lo) * lo + i % lo]).collect();
    agree(&p, &q, k, c.extra, "the interpolant without the axis the values do not depend on", t)
}

/// Sums and products of functions of one coordinate each.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Outer {
    pub case: Case,
    pub product: bool,
}

fn outer<T: Uut>(c: &Outer, t: &mut Tally) -> Result<(), String> {
    let (product, c) = (c.product, &c.case);
    let mut p = expand_sans_vals::<T>(c);
    labels(&p, t);
    t.label(if product { "product" } else { "sum" });
    let n = p.ndims();
    let parts: Vec<Problem<T>> = (0..n)
        .map(|d| Problem {
            dims: vec![p.dims[d]],
            starts: vec![p.starts[d]],
            steps: vec![p.steps[d]],
            grids: vec![p.grids[d].clone()],
            obs: vec![p.obs[d].clone()],
            vals: make_vals(Vals::Uniform, c.vseed ^ mix(d as u64), p.dims[d]),
            ..p.clone()
        })
        .collect();
    let st = p.strides();
    let len: usize = p.dims.iter().product();
    let join = |a: T, b: T| if product { a * b } else { a + b };
    p.vals = (0..len).map(|i| (1..n).fold(parts[0].vals[i / st[0] % p.dims[0]], |a, d| join(a, parts[d].vals[i / st[d] % p.dims[d]]))).collect();
    let one: Vec<Vec<T>> = parts
        .iter()
        .enumerate()
        .map(|(d, q)| {
            let es = entries_for(q.method, 1);
            run(q, es[(mix(c.extra ^ d as u64) % es.len() as u64) as usize])
        })
        .collect::<Result<_, _>>()?;
    for e in some_entries(&p, c.extra) {
        let a = run(&p, e)?;
        for i in 0..a.len() {
            let x = p.point(i);
            let (want, tol) = if p.method == Method::Nearest {
                ((1..n).fold(one[0][i], |a, d| join(a, one[d][i])).f(), 0.0)
            } else {
                let r = reference(&p, &x);
                let rs: Vec<Ref> = (0..n).map(|d| reference(&parts[d], &x[d..d + 1])).collect();
                if !assessable::<T>(&r) || !rs.iter().all(assessable::<T>) {
                    continue;
                }
                let v: Vec<f64> = (0..n).map(|d| one[d][i].f()).collect();
                // the stored sums and products are rounded
                if product {
                    let all: f64 = (0..n).map(|d| v[d].abs() + rs[d].e).product();
                    let parts: f64 = (0..n).map(|d| rs[d].e * (0..n).filter(|j| *j != d).map(|j| v[j].abs() + rs[j].e).product::<f64>()).sum();
                    let stored: f64 = (0..n).map(|d| rs[d].a).product();
                    (v.iter().product(), r.e + parts + n as f64 * T::EPS * (all + stored))
                } else {
                    // the weights of the other axes add up to one, but not their majorants
                    let stored: f64 = (0..n).map(|d| rs[d].a.max(1.0) + majorant(&p, d, &x)).product();
                    (v.iter().sum(), r.e + rs.iter().map(|r| r.e).sum::<f64>() + 2.0 * (n * n) as f64 * T::EPS * stored)
                }
            };
            if !(tol < 1e-2 * want.abs().max(1e-3) || p.method == Method::Nearest) {
                t.label("imprecise");
            }
            t.compared += 1;
            if !close(a[i].f(), want, tol) {
                if p.method == Method::Nearest && !clear(&p, &x, &vec![0.0; n]) {
                    continue;
                }
                let parts: Vec<T> = (0..n).map(|d| one[d][i]).collect();
                return Err(format!("{e:?} gives {:?}, but the one-dimensional interpolants {parts:?} make {want:?} (product: {product}, tolerance {tol:e}): {}", a[i], p.describe(i)));
            }
        }
    }
    t.nontrivial = t.compared > 0 && n > 1;
    Ok(())
}

/// the sum of the weight majorants of one axis
fn majorant<T: Real>(p: &Problem<T>, d: usize, x: &[T]) -> f64 {
    let o = axis_op(p.method, p.lin, &view(p, d), x[d].f());
    o.a[..o.len].iter().sum()
}

pub fn props() -> Vec<Property> {
    let o = |lo, hi| Opts { ndims: (lo, hi), budget: 60_000, work: 30_000, max_pts: 8, bulk: false, ..Default::default() };
    vec![Property {
        id: "C33",
        rule: "generated problems of 2..9 axes (f32/f64, both kinds, all methods, all entry points): slice, all points on a generated plane of nodes, against the interpolant of that plane's values; extrude, values constant along a generated axis, against the interpolant without it; outer, values that are sums or products of one value per axis, against the sum or product of one-dimensional interpolants; non-trivial: values of the smaller problem not constant, at least one comparison",
        assumptions: &["results may differ by the sum of the rounding bounds of both problems", "nearest results must be identical unless a half-way location is ambiguous by rounding"],
        subs: vec![
            Check::new("slice", 12_000, 300_000, move |_| case(&o(2, 9)), |c: &Case, t| typed!(c.f32, slice(c, t))),
            Check::new("extrude", 8_000, 200_000, move |_| case(&o(2, 9)), |c: &Case, t| typed!(c.f32, extrude(c, t))),
            Check::new(
                "outer",
                8_000,
                200_000,
                move |_| (case(&o(2, 9)), any::<bool>()).prop_map(|(case, product)| Outer { case, product }).boxed(),
                |c: &Outer, t| typed!(c.case.f32, outer(c, t)),
            ),
        ],
    }]
}
