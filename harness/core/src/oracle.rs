//! Independent reference model with a roundoff bound.
//!
//! Along one axis every method is a weighted sum of at most four node values.
//! For each axis we compute those weights from the documented definition (basis
//! functions, not the Horner forms of the implementation), non-negative majorant
//! weights `a` that dominate every intermediate term an evaluation may form, and
//! error weights `e`: K*eps*a plus (uncertainty of the normalised coordinate) times
//! the majorant of the derivative. The N-dimensional value is the contraction of the
//! value array with the axis weights; (value, majorant, error bound) are contracted
//! together, so that any evaluation in floating point that follows the definition
//! lies within `e` of `v`.
use crate::problem::*;

#[derive(Clone, Copy, Debug, Default)]
pub struct AxisOp {
    pub base: usize,
    pub len: usize,
    pub w: [f64; 6],
    pub a: [f64; 6],
    pub e: [f64; 6],
    /// the interval of stencil offsets really read by a local method
    pub cell: usize,
    pub outside: i8,
    pub near: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct Ref {
    pub v: f64,
    pub a: f64,
    pub e: f64,
}

pub const K: f64 = 48.0;

pub struct AxisView<'a, T> {
    pub kind: Kind,
    pub g: &'a [T],
    pub start: f64,
    pub step: f64,
}

impl<T: Real> AxisView<'_, T> {
    #[inline]
    pub fn at(&self, i: usize) -> f64 {
        match self.kind {
            Kind::Regular => self.step.mul_add(i as f64, self.start),
            Kind::Rectilinear => self.g[i].f(),
        }
    }
    pub fn n(&self) -> usize {
        self.g.len()
    }
    /// the last cell whose lower node is <= x, clipped
    pub fn cell(&self, x: f64) -> usize {
        let n = self.n();
        // node coordinates are increasing in both kinds
        let (mut lo, mut hi) = (0usize, n - 1); // at(lo) <= x assumed for lo = 0
        while hi - lo > 1 {
            let m = (lo + hi) / 2;
            if self.at(m) <= x { lo = m } else { hi = m }
        }
        lo.min(n - 2)
    }
    /// absolute uncertainty of (x - node) caused by rounding in an implementation
    pub fn coord_err(&self, x: f64, node: usize) -> f64 {
        match self.kind {
            Kind::Regular => {
                4.0 * T::EPS
                    * (x.abs() + 2.0 * self.start.abs() + 2.0 * (self.step * (node + 2) as f64).abs())
            }
            Kind::Rectilinear => 0.0,
        }
    }
}

pub fn view<'a, T: Real>(p: &'a Problem<T>, d: usize) -> AxisView<'a, T> {
    AxisView {
        kind: p.kind,
        g: &p.grids[d],
        start: p.starts[d].f(),
        step: p.steps[d].f(),
    }
}

struct Cell4 {
    /// (node, w, a, d) with d the derivative majorant with respect to t
    t: [(usize, f64, f64, f64); 4],
    len: usize,
    dt: f64,
    cell: usize,
    h: f64,
    /// narrowest cell of the stencil
    hmin: f64,
}

fn cell_op<T: Real>(method: Method, lin: bool, ax: &AxisView<T>, c: usize, x: f64) -> Cell4 {
    let n = ax.n();
    let (g0, g1) = (ax.at(c), ax.at(c + 1));
    let h = match ax.kind {
        Kind::Regular => ax.step,
        _ => g1 - g0,
    };
    let s = (x - g0) / h;
    let dt = ax.coord_err(x, c) / h.abs() + 4.0 * T::EPS * (s.abs() + 1.0);
    match method {
        Method::Nearest => unreachable!(),
        Method::Linear => {
            let z = (0, 0.0, 0.0, 0.0);
            Cell4 {
                t: [
                    (c, 1.0 - s, 1.0 + s.abs(), 1.0),
                    (c + 1, s, s.abs(), 1.0),
                    z,
                    z,
                ],
                len: 2,
                dt,
                cell: c,
                h,
                hmin: h,
            }
        }
        Method::Cubic => {
            let base = if c == 0 { 0 } else { (c - 1).min(n - 4) };
            let mut t = [(0usize, 0.0, 0.0, 0.0); 4];
            for (k, e) in t.iter_mut().enumerate() {
                e.0 = base + k;
            }
            // central slope at interior node i, times h
            let slope = |i: usize| -> [(usize, f64); 3] {
                let (a, b) = match ax.kind {
                    Kind::Regular => (ax.step, ax.step),
                    _ => (ax.at(i) - ax.at(i - 1), ax.at(i + 1) - ax.at(i)),
                };
                let wl = h * b / (a * (a + b)); // weight of backward difference
                let wr = h * a / (b * (a + b));
                [(i - 1, -wl), (i, wl - wr), (i + 1, wr)]
            };
            let slope_abs = |i: usize| -> [(usize, f64); 3] {
                let s = slope(i);
                let (l, r) = (s[0].1.abs(), s[2].1.abs());
                [(i - 1, l), (i, l + r), (i + 1, r)]
            };
            let mut add = |node: usize, w: f64, a: f64, d: f64| {
                let e = &mut t[node - base];
                e.1 += w;
                e.2 += a;
                e.3 += d;
            };
            let m = s.abs().max((1.0 - s).abs()); // |t| as seen from either end
            let (m2, m3) = (m * m, m * m * m);
            if c > 0 && c < n - 2 {
                let (s2, s3) = (s * s, s * s * s);
                let h00 = 1.0 - 3.0 * s2 + 2.0 * s3;
                let h01 = 3.0 * s2 - 2.0 * s3;
                let h10 = s - 2.0 * s2 + s3;
                let h11 = s3 - s2;
                let pd = 2.0 * m + 3.0 * m2 + 2.0 * m3;
                let pdd = 2.0 + 6.0 * m + 6.0 * m2;
                add(c, h00, 1.0 + pd, pdd);
                add(c + 1, h01, pd, pdd);
                let pk = m + 2.0 * m2 + m3;
                let pkd = 1.0 + 4.0 * m + 3.0 * m2;
                for (i, hk) in [(c, h10), (c + 1, h11)] {
                    let sw = slope(i);
                    let sa = slope_abs(i);
                    for q in 0..3 {
                        add(sw[q].0, hk * sw[q].1, pk * sa[q].1, pkd * sa[q].1);
                    }
                }
            } else {
                // end cell: quadratic through the two nodes with the slope at the inner one.
                // r runs from the inner node (0) to the end node (1) and beyond.
                let (inner, end, r, sgn) = if c == 0 {
                    (c + 1, c, 1.0 - s, -1.0)
                } else {
                    (c, c + 1, s, 1.0)
                };
                // q(r) = y_in + r*k + r^2 (y_end - y_in - k), k = slope along r
                let (wy_in, wy_end, wk) = if r > 1.0 && lin {
                    // straight line from the end node: slope k + 2 (y_end - y_in - k)
                    let q = r - 1.0;
                    (-2.0 * q, 1.0 + 2.0 * q, -q)
                } else {
                    (1.0 - r * r, r * r, r - r * r)
                };
                let (pd, pdd, pk, pkd) = if r > 1.0 && lin {
                    let q = m + 1.0;
                    (4.0 * q + 1.0, 8.0, 2.0 * q, 4.0)
                } else {
                    (
                        2.0 * m + 5.0 * m2 + 4.0 * m3,
                        2.0 + 10.0 * m + 12.0 * m2,
                        m + 3.0 * m2 + 2.0 * m3,
                        1.0 + 6.0 * m + 6.0 * m2,
                    )
                };
                add(inner, wy_in, 1.0 + pd, pdd);
                add(end, wy_end, 1.0 + pd, pdd);
                let sw = slope(inner);
                let sa = slope_abs(inner);
                for q in 0..3 {
                    add(sw[q].0, sgn * wk * sw[q].1, pk * sa[q].1, pkd * sa[q].1);
                }
            }
            let hmin = (base..base + 3).map(|i| ax.at(i + 1) - ax.at(i)).fold(h, f64::min);
            Cell4 { t, len: 4, dt, cell: c, h, hmin }
        }
    }
}

/// Weights of a linear/cubic axis at coordinate x.
pub fn axis_op<T: Real>(method: Method, lin: bool, ax: &AxisView<T>, x: f64) -> AxisOp {
    axis_op_rel::<T>(method, lin, ax, x, 0.0)
}

/// The same, when the node coordinates themselves are known only to `delta`
/// (absolute), as when the same grid is described in another way.
pub fn axis_op_rel<T: Real>(method: Method, lin: bool, ax: &AxisView<T>, x: f64, delta: f64) -> AxisOp {
    let n = ax.n();
    let c = ax.cell(x);
    let op = cell_op::<T>(method, lin, ax, c, x);
    let mut out = AxisOp {
        base: op.t[0].0,
        len: op.len,
        cell: c,
        ..Default::default()
    };
    if x < ax.at(0) {
        out.outside = -1
    } else if x > ax.at(n - 1) {
        out.outside = 1
    }
    // an implementation may place x in the neighbouring cell when it is within
    // rounding distance of a node; both branches agree there up to the error terms
    let mut extra: Option<Cell4> = None;
    let tol = 2.0 * ax.coord_err(x, c + 1) + 2.0 * delta;
    if c > 0 && (x - ax.at(c)).abs() <= tol {
        extra = Some(cell_op::<T>(method, lin, ax, c - 1, x));
    } else if c + 2 < n && (x - ax.at(c + 1)).abs() <= tol {
        extra = Some(cell_op::<T>(method, lin, ax, c + 1, x));
    }
    if let Some(ex) = &extra {
        out.near = true;
        let b = op.t[0].0.min(ex.t[0].0);
        let e = (op.t[op.len - 1].0).max(ex.t[ex.len - 1].0);
        out.base = b;
        out.len = e - b + 1;
    }
    for (q, is_main) in [(Some(&op), true), (extra.as_ref(), false)] {
        let Some(q) = q else { continue };
        for k in 0..q.len {
            let (node, w, a, d) = q.t[k];
            let j = node - out.base;
            if is_main {
                out.w[j] = w;
            }
            out.a[j] = out.a[j].max(a);
            out.e[j] += K * T::EPS * a + 2.0 * q.dt * d;
            if delta > 0.0 {
                // s and the slope weights move by a few times delta / cell width
                let s = ((x - ax.at(q.cell)) / q.h).abs();
                let rel = delta / q.hmin;
                out.e[j] += rel * (16.0 * a + 4.0 * (s + 1.0) * d);
            }
        }
    }
    out
}

pub fn point_ops<T: Real>(p: &Problem<T>, x: &[T]) -> Vec<AxisOp> {
    (0..p.ndims())
        .map(|d| axis_op(p.method, p.lin, &view(p, d), x[d].f()))
        .collect()
}

fn contract<T: Real>(ops: &[AxisOp], strides: &[usize], off: usize, vals: &[T]) -> Ref {
    if ops.is_empty() {
        let v = vals[off].f();
        return Ref { v, a: v.abs(), e: 0.0 };
    }
    let o = &ops[0];
    let mut r = Ref { v: 0.0, a: 0.0, e: 0.0 };
    for j in 0..o.len {
        let c = contract(&ops[1..], &strides[1..], off + (o.base + j) * strides[0], vals);
        r.v += o.w[j] * c.v;
        r.a += o.a[j] * c.a;
        r.e += o.a[j] * c.e + o.e[j] * (c.a + c.e);
    }
    r
}

/// Reference value for linear and cubic methods.
pub fn reference<T: Real>(p: &Problem<T>, x: &[T]) -> Ref {
    reference_rel(p, x, &[])
}

/// Reference with uncertain node coordinates (absolute, per axis; missing = exact).
pub fn reference_rel<T: Real>(p: &Problem<T>, x: &[T], delta: &[f64]) -> Ref {
    let ops: Vec<AxisOp> = (0..p.ndims())
        .map(|d| axis_op_rel(p.method, p.lin, &view(p, d), x[d].f(), delta.get(d).copied().unwrap_or(0.0)))
        .collect();
    let mut r = contract(&ops, &p.strides(), 0, &p.vals);
    // products of weights that underflow
    r.e += 1e3 * if T::IS32 { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
    r
}

/// Is the bound usable at this precision (no overflow of intermediate terms)?
pub fn assessable<T: Real>(r: &Ref) -> bool {
    r.v.is_finite() && r.e.is_finite() && r.a.is_finite() && r.a < T::MAXV * 1e-6
}

/// Acceptable nearest indices on one axis.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pick {
    pub lo: usize,
    pub hi: usize,
    /// x is exactly half-way and all arithmetic involved is exact
    pub exact_tie: bool,
}

/// Start, step and all nodes of a regular axis are multiples of 2^-20 (2^-8 in single
/// precision) so small that sums, differences, the floor of a quotient and its comparison
/// with one half come out exact in floating point.
pub fn exact_axis<T: Real>(ax: &AxisView<T>) -> bool {
    dyadic::<T>(ax.start) && dyadic::<T>(ax.step) && dyadic::<T>(ax.at(ax.n() - 1))
}

pub fn dyadic<T: Real>(v: f64) -> bool {
    let (q, lim) = if T::IS32 { (256.0, 2048.0) } else { (1048576.0, 1e9) };
    v.abs() <= lim && (v * q).fract() == 0.0
}

pub fn nearest_axis<T: Real>(ax: &AxisView<T>, x: f64) -> Pick {
    let n = ax.n();
    let c = ax.cell(x);
    let (g0, g1) = (ax.at(c), ax.at(c + 1));
    let (d0, d1) = ((x - g0).abs(), (g1 - x).abs());
    let one = |i| Pick { lo: i, hi: i, exact_tie: false };
    let all_dyadic = dyadic::<T>(x)
        && dyadic::<T>(g0)
        && dyadic::<T>(g1)
        && match ax.kind {
            Kind::Regular => exact_axis(ax),
            Kind::Rectilinear => true,
        };
    if x <= g0 && c == 0 && ax.kind == Kind::Rectilinear {
        return one(0);
    }
    if x >= g1 && c == n - 2 && ax.kind == Kind::Rectilinear {
        return one(n - 1);
    }
    if ax.kind == Kind::Regular {
        let m = 2.0 * ax.coord_err(x, c + 1);
        if c == 0 && x < g0 - m {
            return one(0);
        }
        if c == n - 2 && x > g1 + m {
            return one(n - 1);
        }
    }
    if all_dyadic {
        return if d0 == d1 {
            Pick { lo: c, hi: c, exact_tie: true }
        } else {
            one(if d0 < d1 { c } else { c + 1 })
        };
    }
    let tol = ax.coord_err(x, c + 1) + 4.0 * T::EPS * (g1 - g0).abs();
    if (d0 - d1).abs() <= 2.0 * tol {
        Pick { lo: c, hi: c + 1, exact_tie: false }
    } else if d0 < d1 {
        one(c)
    } else {
        one(c + 1)
    }
}

/// Is `got` one of the acceptable nearest values?
pub fn nearest_ok<T: Real>(p: &Problem<T>, x: &[T], got: T) -> Result<bool, String> {
    let picks: Vec<Pick> = (0..p.ndims())
        .map(|d| nearest_axis(&view(p, d), x[d].f()))
        .collect();
    let strides = p.strides();
    fn rec<T: Real>(picks: &[Pick], s: &[usize], off: usize, vals: &[T], got: T) -> bool {
        if picks.is_empty() {
            return vals[off].bits() == got.bits();
        }
        (picks[0].lo..=picks[0].hi)
            .any(|i| rec(&picks[1..], &s[1..], off + i * s[0], vals, got))
    }
    if rec(&picks, &strides, 0, &p.vals, got) {
        Ok(picks.iter().any(|q| q.exact_tie))
    } else {
        let want: Vec<String> = picks
            .iter()
            .map(|q| if q.lo == q.hi { format!("{}", q.lo) } else { format!("{}|{}", q.lo, q.hi) })
            .collect();
        let idx = picks.iter().zip(&strides).map(|(q, s)| q.lo * s).sum::<usize>();
        Err(format!(
            "nearest value is at index [{}] = {:?}, got {:?}",
            want.join(","),
            p.vals[idx],
            got
        ))
    }
}
