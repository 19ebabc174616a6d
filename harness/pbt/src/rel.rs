//! C08..C13: relations between evaluations.
use crate::typed;
use crate::uut::*;
use crate::values::huge;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::drive::*;
use vcore::oracle::*;
use vcore::*;

fn labels<T: Real>(p: &Problem<T>, t: &mut Tally) {
    t.label(method_label(p.method));
    t.label(kind_label(p.kind));
    t.label(nd_label(p.ndims()));
}
fn varied<T: Real>(p: &Problem<T>) -> bool {
    p.vals.iter().any(|v| *v != p.vals[0])
}
/// per axis: no point is so near a half-way location that the choice is open
fn picks_clear<T: Real>(p: &Problem<T>, x: &[T], slack: &[f64]) -> bool {
    (0..p.ndims()).all(|d| {
        let ax = view(p, d);
        let xx = x[d].f();
        let s = slack.get(d).copied().unwrap_or(0.0);
        [xx - s, xx, xx + s].iter().all(|&y| {
            let k = nearest_axis(&ax, y);
            let k0 = nearest_axis(&ax, xx);
            k.lo == k.hi && k.lo == k0.lo && !k.exact_tie
        })
    })
}

// ---- C08 ----------------------------------------------------------------

fn kinds<T: Uut>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let mut c = c.clone();
    for a in c.axes.iter_mut() {
        a.gap = None;
    }
    c.kind = Kind::Regular;
    let p = expand::<T>(&c);
    let mut q = p.clone();
    q.kind = Kind::Rectilinear;
    let n = p.ndims();
    labels(&p, t);
    // the stored coordinates differ from start + i*step by rounding
    let delta: Vec<f64> = (0..n)
        .map(|d| {
            let g = &p.grids[d];
            4.0 * T::EPS * (p.starts[d].f().abs() + p.steps[d].f() * g.len() as f64)
        })
        .collect();
    // exactly representable grids have none
    let exact: Vec<bool> = (0..n)
        .map(|d| {
            let dy = |v: f64| if T::IS32 { (v * 256.0).fract() == 0.0 && v.abs() < 2048.0 } else { (v * 1048576.0).fract() == 0.0 && v.abs() < 1e9 };
            dy(p.starts[d].f()) && dy(p.steps[d].f()) && dy(p.grids[d][p.dims[d] - 1].f())
        })
        .collect();
    let delta: Vec<f64> = (0..n).map(|d| if exact[d] { 0.0 } else { delta[d] }).collect();
    if (0..n).any(|d| delta[d] > 1e-2 * p.steps[d].f()) {
        t.label("skipped: nodes not separated at this precision");
        return Ok(());
    }
    t.label_if(exact.iter().all(|b| *b), "exactly representable grid");
    let es = if footprint(c.method).pow(n as u32) * p.npts() <= 1000 { entries_for(c.method, n) } else { vec![c.entry] };
    for e in es {
        let (a, b) = (run(&p, e)?, run(&q, e)?);
        for i in 0..a.len() {
            let x = p.point(i);
            let tol = if c.method == Method::Nearest {
                let all_exact = (0..n).all(|d| {
                    let k = nearest_axis(&view(&p, d), x[d].f());
                    let k2 = nearest_axis(&view(&q, d), x[d].f());
                    k == k2 && k.lo == k.hi && (k.exact_tie || exact[d])
                });
                let slack: Vec<f64> = (0..n).map(|d| 2.0 * delta[d] + 2.0 * view(&p, d).coord_err(x[d].f(), 1)).collect();
                if !all_exact && !picks_clear(&p, &x, &slack) {
                    continue;
                }
                0.0
            } else {
                let (ra, rb) = (reference_rel(&p, &x, &delta), reference_rel(&q, &x, &delta));
                if !assessable::<T>(&ra) || !assessable::<T>(&rb) {
                    continue;
                }
                ra.e + rb.e
            };
            t.compared += 1;
            if !close(a[i].f(), b[i].f(), tol) {
                return Err(format!("{e:?}: regular gives {:?}, rectilinear {:?} (tolerance {tol:e}): {}", a[i], b[i], p.describe(i)));
            }
        }
    }
    t.nontrivial = t.compared > 0 && varied(&p);
    Ok(())
}

// ---- C09 ----------------------------------------------------------------

fn entries<T: Uut>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let p = expand::<T>(c);
    labels(&p, t);
    let es = entries_for(c.method, p.ndims());
    let res: Vec<Vec<T>> = es.iter().map(|&e| run(&p, e)).collect::<Result<_, _>>()?;
    for i in 0..p.npts() {
        let x = p.point(i);
        let (tol, skip) = if c.method == Method::Nearest {
            (0.0, false)
        } else {
            let r = reference(&p, &x);
            (2.0 * r.e, !assessable::<T>(&r))
        };
        if skip {
            continue;
        }
        for (k, r) in res.iter().enumerate().skip(1) {
            t.compared += 1;
            if !close(res[0][i].f(), r[i].f(), tol) {
                if c.method == Method::Nearest && !picks_clear(&p, &x, &[]) {
                    continue;
                }
                return Err(format!(
                    "{:?} gives {:?} but {:?} gives {:?} (tolerance {tol:e}): {}",
                    es[0], res[0][i], es[k], r[i], p.describe(i)
                ));
            }
        }
    }
    t.nontrivial = t.compared > 0 && varied(&p);
    Ok(())
}

/// Inputs with unusual numeric content: every entry point accepts or every one rejects.
fn acceptance<T: Uut>(c: &crate::bad::Soup, t: &mut Tally) -> Result<(), String> {
    let p = crate::bad::soup::<T>(c);
    labels(&p, t);
    let es = entries_for(p.method, p.ndims());
    let res: Vec<Result<Vec<T>, Failure>> = es.iter().map(|&e| run_raw(&p, e)).collect();
    for (k, r) in res.iter().enumerate() {
        t.compared += 1;
        if r.is_ok() != res[0].is_ok() {
            return Err(format!(
                "{:?} {} but {:?} {}: {}",
                es[0],
                res[0].as_ref().map_or_else(|f| f.to_string(), |_| "accepts".into()),
                es[k],
                r.as_ref().map_or_else(|f| f.to_string(), |_| "accepts".into()),
                p.describe(0)
            ));
        }
    }
    t.label(if res[0].is_ok() { "accepted by all" } else { "rejected by all" });
    t.nontrivial = es.len() > 1;
    Ok(())
}

// ---- C10 ----------------------------------------------------------------

fn batch<T: Uut>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let p = expand::<T>(c);
    labels(&p, t);
    let n = p.npts();
    let e = c.entry;
    t.label(entry_label(e));
    let orig = p.clone();
    let all = run(&p, e)?;
    if !(p.vals.iter().zip(&orig.vals).all(|(a, b)| same(*a, *b)) && p.obs.iter().flatten().zip(orig.obs.iter().flatten()).all(|(a, b)| same(*a, *b))) {
        return Err("inputs were altered".into());
    }
    // each element, whatever was in the output before
    for k in 0..2 {
        let mut out: Vec<T> = (0..n as u64).map(|i| poison(mix(c.extra ^ i ^ k << 40))).collect();
        T::eval(&p, e, &mut out).map_err(|f| format!("repeated call {f}"))?;
        for i in 0..n {
            t.compared += 1;
            if !same(all[i], out[i]) {
                return Err(format!("element {i} of {n}: {:?}, then {:?} with other previous output content: {}", all[i], out[i], p.describe(i)));
            }
        }
    }
    // single-point calls
    let singles: Vec<usize> = if n <= 80 { (0..n).collect() } else {
        (0..8).chain(n - 24..n).chain((0..32).map(|k| (mix(c.extra ^ k) % n as u64) as usize)).collect()
    };
    for i in singles {
        let q = p.with_points(&[p.point(i)]);
        let r = run(&q, e)?;
        t.compared += 1;
        if !same(r[0], all[i]) {
            return Err(format!("point {i} of {n} gives {:?} in the batch but {:?} alone: {}", all[i], r[0], p.describe(i)));
        }
    }
    // another order, with some points repeated, and a batch of another length
    if n > 1 {
        let m = 1 + (mix(c.extra ^ 3) % (n as u64 + n as u64 / 2)) as usize;
        let idx: Vec<usize> = (0..m as u64).map(|i| (mix(c.extra ^ i) % n as u64) as usize).collect();
        let q = p.with_points(&idx.iter().map(|&i| p.point(i)).collect::<Vec<_>>());
        let r = run(&q, e)?;
        for (k, &i) in idx.iter().enumerate() {
            t.compared += 1;
            if !same(r[k], all[i]) {
                return Err(format!("point {i} gives {:?}, but {:?} at position {k} of another batch: {}", all[i], r[k], p.describe(i)));
            }
        }
    }
    // an empty batch succeeds, except where the allocating functions need a first array only
    let q = p.with_points(&[]);
    match run_raw(&q, e) {
        Ok(v) if v.is_empty() => {}
        Ok(_) => return Err("empty batch produced values".into()),
        Err(f) => return Err(format!("{e:?} with an empty batch {f}")),
    }
    t.nontrivial = n > 1 && varied(&p);
    t.label_if(n > 256, "batch>256");
    t.label_if(n > 65_536, "batch>65536");
    t.label_if(n == 1, "batch=1");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub cases: Vec<Case>,
    pub order: Vec<u8>,
}

enum Prob {
    A(Problem<f64>),
    B(Problem<f32>),
}
/// Interleave evaluations of several problems; each always yields its first result.
fn history(h: &History, t: &mut Tally) -> Result<(), String> {
    let probs: Vec<Prob> = h.cases.iter().map(|c| if c.f32 { Prob::B(expand(c)) } else { Prob::A(expand(c)) }).collect();
    let mut seen: Vec<Option<Vec<u64>>> = vec![None; probs.len()];
    let mut repeats = 0;
    for (step, &o) in h.order.iter().enumerate() {
        let k = o as usize % probs.len();
        let es = entries_for(h.cases[k].method, h.cases[k].axes.len());
        let e = if step % 3 == 2 { es[o as usize % es.len()] } else { h.cases[k].entry };
        let bits: Vec<u64> = match &probs[k] {
            Prob::A(p) => run(p, e)?.iter().map(|v| v.bits()).collect(),
            Prob::B(p) => run(p, e)?.iter().map(|v| v.bits()).collect(),
        };
        if e != h.cases[k].entry {
            continue;
        }
        match &seen[k] {
            None => seen[k] = Some(bits),
            Some(b) => {
                repeats += 1;
                t.compared += bits.len() as u64;
                if *b != bits {
                    let i = (0..bits.len()).find(|&i| b[i] != bits[i]).unwrap_or(0);
                    return Err(format!("step {step}: problem {k} ({:?}) point {i} no longer gives its first result", h.cases[k].entry));
                }
            }
        }
    }
    t.nontrivial = repeats > 0;
    t.label_if(repeats > 2, "more than 2 repeats");
    Ok(())
}

/// Another problem of the same shape: some of its numbers differ from those of `p`.
fn altered<T: Uut>(p: &Problem<T>, h: u64) -> Problem<T> {
    let mut q = p.clone();
    let n = q.ndims();
    let what = 1 + mix(h) % 7;
    if what & 1 > 0 {
        let (d, k) = ((mix(h ^ 1) % n as u64) as usize, mix(h ^ 2));
        match q.kind {
            Kind::Regular => {
                if k % 3 != 1 {
                    q.starts[d] = q.starts[d] - q.steps[d] * T::of((1 + k % 2) as f64);
                }
                if k % 3 != 0 {
                    q.steps[d] = q.steps[d] * T::of(2.0);
                }
            }
            Kind::Rectilinear => {
                // the ends stay, the nodes between them move to the right
                let g = &mut q.grids[d];
                for i in (1..g.len() - 1).rev() {
                    let x = g[i] + (g[i + 1] - g[i]) * T::of(0.9);
                    if x > g[i] && x < g[i + 1] {
                        g[i] = x
                    }
                }
            }
        }
    }
    if what & 2 > 0 {
        match mix(h ^ 3) % 3 {
            0 => q.vals.reverse(),
            1 => q.vals.iter_mut().for_each(|v| *v = -*v),
            _ => {
                // neither the first nor the last value
                let m = q.vals.len();
                for i in 1..m - 1 {
                    q.vals[i] = p.vals[m - 1 - i] + T::of(1.0);
                }
            }
        }
    }
    if what & 4 > 0 && q.npts() > 0 {
        // other points, but one of the first or the last stays where it was
        let keep = if mix(h ^ 4) % 2 == 0 { 0 } else { q.npts() - 1 };
        for d in 0..n {
            let o = q.obs[d].clone();
            q.obs[d].rotate_left(1);
            q.obs[d][keep] = o[keep];
        }
    }
    q
}

/// The caller stores other numbers in the memory of an earlier problem.
fn reused<T: Uut>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let mut p = expand::<T>(c);
    labels(&p, t);
    t.label(entry_label(c.entry));
    if c.extra % 2 == 0 && p.npts() > 0 {
        // one point only: the last one evaluated is the next one evaluated
        t.label("one point");
        p = p.with_points(&[p.point((c.extra / 2 % p.npts() as u64) as usize)]);
    }
    let mut m = p.clone();
    for r in 0..4u64 {
        let v = altered(&p, c.extra ^ r << 50);
        let want = run(&v, c.entry)?;
        run(&m, c.entry)?;
        // the same memory
        m.starts.copy_from_slice(&v.starts);
        m.steps.copy_from_slice(&v.steps);
        m.vals.copy_from_slice(&v.vals);
        for d in 0..m.ndims() {
            m.grids[d].copy_from_slice(&v.grids[d]);
            m.obs[d].copy_from_slice(&v.obs[d]);
        }
        let got = run(&m, c.entry)?;
        for i in 0..got.len() {
            t.compared += 1;
            if !same(got[i], want[i]) {
                return Err(format!("round {r}, point {i}: {:?} when the arrays occupy the memory of an earlier problem, otherwise {:?}: {}", got[i], want[i], v.describe(i)));
            }
        }
    }
    t.nontrivial = t.compared > 0;
    Ok(())
}

fn reused_1d<T: Uut>(c: &crate::one::Case1, t: &mut Tally) -> Result<(), String> {
    let mut p = crate::one::build1::<T>(c);
    t.label(kind_label(p.kind));
    if c.extra % 2 == 0 && !p.locs.is_empty() {
        t.label("one point");
        p.locs = vec![p.locs[(c.extra / 2 % p.locs.len() as u64) as usize]];
    }
    let mut m = p.clone();
    for r in 0..4u64 {
        let nd = altered(&crate::one::as_nd(&p), c.extra ^ r << 50);
        let mut v = p.clone();
        v.start = nd.starts[0];
        v.step = nd.steps[0];
        v.grid = nd.grids[0].clone();
        v.vals = nd.vals.clone();
        v.locs = nd.obs[0].clone();
        let want = crate::one::run1(&v, c.mode)?;
        crate::one::run1(&m, c.mode)?;
        m.start = v.start;
        m.step = v.step;
        m.grid.copy_from_slice(&v.grid);
        m.vals.copy_from_slice(&v.vals);
        m.locs.copy_from_slice(&v.locs);
        let got = crate::one::run1(&m, c.mode)?;
        for i in 0..got.len() {
            t.compared += 1;
            if !same(got[i], want[i]) {
                return Err(format!("round {r}: {:?} when the arrays occupy the memory of an earlier problem, otherwise {:?}: {}", got[i], want[i], crate::one::describe1(&v, i)));
            }
        }
    }
    t.nontrivial = t.compared > 0;
    Ok(())
}

// ---- C11 ----------------------------------------------------------------

fn permutation(n: usize, seed: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        v.swap(i, (mix(seed ^ i as u64) % (i as u64 + 1)) as usize);
    }
    if n > 1 && v.iter().enumerate().all(|(i, &j)| i == j) {
        v.swap(0, n - 1);
    }
    v
}

fn permute<T: Uut>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let p = expand::<T>(c);
    let n = p.ndims();
    labels(&p, t);
    let perm = permutation(n, c.extra);
    let pick = |v: &Vec<T>| perm.iter().map(|&d| v[d]).collect::<Vec<T>>();
    let mut q = p.clone();
    q.dims = perm.iter().map(|&d| p.dims[d]).collect();
    q.starts = pick(&p.starts);
    q.steps = pick(&p.steps);
    q.grids = perm.iter().map(|&d| p.grids[d].clone()).collect();
    q.obs = perm.iter().map(|&d| p.obs[d].clone()).collect();
    let (sp, sq) = (p.strides(), q.strides());
    for k in 0..p.vals.len() {
        let j: usize = (0..n).map(|a| (k / sq[a] % q.dims[a]) * sp[perm[a]]).sum();
        q.vals[k] = p.vals[j];
    }
    let (a, b) = (run(&p, c.entry)?, run(&q, c.entry)?);
    for i in 0..a.len() {
        let (x, y) = (p.point(i), q.point(i));
        let tol = if c.method == Method::Nearest {
            0.0
        } else {
            let (ra, rb) = (reference(&p, &x), reference(&q, &y));
            if !assessable::<T>(&ra) {
                continue;
            }
            ra.e + rb.e
        };
        t.compared += 1;
        if !close(a[i].f(), b[i].f(), tol) {
            if c.method == Method::Nearest && !picks_clear(&p, &x, &[]) {
                continue;
            }
            return Err(format!("{:?}: {:?}, but {:?} with axes in order {perm:?} (tolerance {tol:e}): {}", c.entry, a[i], b[i], p.describe(i)));
        }
    }
    t.nontrivial = t.compared > 0 && varied(&p) && n > 1;
    t.label_if(p.dims.iter().any(|d| *d != p.dims[0]), "different axis sizes");
    Ok(())
}

// ---- C12 ----------------------------------------------------------------

fn locality<T: Uut>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let p = expand::<T>(c);
    let n = p.ndims();
    labels(&p, t);
    let st = p.strides();
    let len = p.vals.len();
    let big = len > 200_000;
    let pts = if big { 2 } else if len > 2000 { 3 } else { 8 };
    for i in 0..p.npts().min(pts) {
        let x = p.point(i);
        let mut ranges: Vec<(usize, usize)> = vec![];
        for d in 0..n {
            let v = view(&p, d);
            ranges.push(if c.method == Method::Nearest {
                let k = nearest_axis(&v, x[d].f());
                (k.lo, k.hi)
            } else {
                let o = axis_op(c.method, c.lin, &v, x[d].f());
                (o.base, o.base + o.len - 1)
            });
        }
        let one = p.with_points(std::slice::from_ref(&x));
        let before = run(&one, c.entry)?;
        let mut q = one.clone();
        let bad: T = poison(1 + mix(c.extra ^ i as u64) % 3);
        let mut poisoned = 0u64;
        for k in 0..len {
            let inside = (0..n).all(|d| {
                let j = k / st[d] % p.dims[d];
                j >= ranges[d].0 && j <= ranges[d].1
            });
            if !inside {
                q.vals[k] = bad;
                poisoned += 1;
            }
        }
        if poisoned == 0 {
            continue;
        }
        let after = run(&q, c.entry)?;
        t.compared += 1;
        if !same(before[0], after[0]) {
            return Err(format!(
                "{:?}: result {:?} becomes {:?} when values outside the stencil {ranges:?} are set to {bad:?}: {}",
                c.entry, before[0], after[0], one.describe(0)
            ));
        }
    }
    t.label_if(p.dims.iter().any(|&n| n > 255), "axis>255");
    t.label_if(p.dims.iter().any(|&n| n > 65535), "axis>65535");
    t.nontrivial = t.compared > 0;
    Ok(())
}

// ---- C13 ----------------------------------------------------------------

fn linear_values<T: Uut>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let p = expand::<T>(c);
    labels(&p, t);
    let h = mix(c.extra);
    let out = run(&p, c.entry)?;
    if c.method == Method::Nearest {
        // any map of the values commutes with selection
        let (a, b) = ([2.0, -1.0, 0.5, -4.0][(h % 4) as usize], ((h >> 8) % 16) as f64 - 8.0);
        let mut q = p.clone();
        let f = |v: T| T::of(a) * v + T::of(b);
        q.vals.iter_mut().for_each(|v| *v = f(*v));
        let o2 = run(&q, c.entry)?;
        for i in 0..out.len() {
            t.compared += 1;
            if f(out[i]).bits() != o2[i].bits() {
                return Err(format!("values mapped to {a}*v+{b}: result {:?} should be {:?}: {}", o2[i], f(out[i]), p.describe(i)));
            }
        }
        t.nontrivial = t.compared > 0 && varied(&p);
        return Ok(());
    }
    // second value array, two coefficients, and a constant
    let w = make_vals::<T>(if h & 1 == 0 { Vals::Uniform } else { Vals::OneHot(h as u32) }, h, p.vals.len());
    let co = |k: u64| [1.0, -1.0, 0.5, -2.0, 3.0, 0.3, -0.7, 1e3][(mix(h ^ k) % 8) as usize];
    let (al, be) = (co(1), co(2));
    let k = [1.0, -3.0, 0.1, 1000.0][(h >> 20) as usize % 4];
    let mut pw = p.clone();
    pw.vals = w.clone();
    let ow = run(&pw, c.entry)?;
    let mut pc = p.clone();
    let mut pk = p.clone();
    for j in 0..p.vals.len() {
        pc.vals[j] = T::of(al * p.vals[j].f() + be * w[j].f());
        pk.vals[j] = T::of(p.vals[j].f() + k);
    }
    let (oc, ok) = (run(&pc, c.entry)?, run(&pk, c.entry)?);
    // another unit of the values: small and large powers of two, exact
    let ex = (mix(h ^ 77) % 241) as i32 - 120;
    let sc = 2f64.powi(if T::IS32 { ex / 3 } else { ex * 2 });
    let mut ps = p.clone();
    ps.vals.iter_mut().for_each(|v| *v = T::of(v.f() * sc));
    let os = run(&ps, c.entry)?;
    for i in 0..out.len() {
        let x = p.point(i);
        let (r, rw, rc, rk) = (reference(&p, &x), reference(&pw, &x), reference(&pc, &x), reference(&pk, &x));
        if ![&r, &rw, &rc, &rk].iter().all(|r| assessable::<T>(r)) {
            continue;
        }
        let rs = reference(&ps, &x);
        if assessable::<T>(&rs) {
            t.compared += 1;
            if !close(os[i].f(), out[i].f() * sc, rs.e + r.e * sc) {
                return Err(format!("values scaled by {sc:e}: result {:?} should be {:e}: {}", os[i], out[i].f() * sc, p.describe(i)));
            }
        }
        let want = al * out[i].f() + be * ow[i].f();
        let round = 2.0 * T::EPS * (al.abs() * r.a + be.abs() * rw.a);
        let tol = rc.e + al.abs() * r.e + be.abs() * rw.e + round;
        t.compared += 2;
        if !close(oc[i].f(), want, tol) {
            return Err(format!("result of {al}*A + {be}*B is {:?}, {al}*f(A) + {be}*f(B) is {want:?} (tolerance {tol:e}): {}", oc[i], p.describe(i)));
        }
        let tol = rk.e + r.e + 2.0 * T::EPS * (r.a + rk.a);
        if !close(ok[i].f(), out[i].f() + k, tol) {
            return Err(format!("adding {k} to all values changes the result from {:?} to {:?} (tolerance {tol:e}): {}", out[i], ok[i], p.describe(i)));
        }
    }
    t.nontrivial = t.compared > 0 && varied(&p);
    Ok(())
}

/// Transform one or more axes: x -> s*x + b, possibly mirrored.
fn transform_axes<T: Uut>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let p = expand::<T>(c);
    let n = p.ndims();
    labels(&p, t);
    let mut q = p.clone();
    let mut delta_p = vec![0.0; n];
    let mut delta_q = vec![0.0; n];
    let mut rev = vec![false; n];
    let mut what = vec![];
    for d in 0..n {
        let h = mix(c.extra ^ mix(d as u64));
        if n > 1 && h.is_multiple_of(3) {
            what.push("-".to_string());
            continue;
        }
        let s = match (h >> 8) % 5 {
            0 => 1.0,
            4 => 2f64.powi((((h >> 16) % 241) as i32 - 120) / if T::IS32 { 6 } else { 1 }),
            1 => 2f64.powi(((h >> 16) % 13) as i32 - 6),
            2 => [3.0, 0.1, 7.7][(h >> 16) as usize % 3],
            _ => 10f64.powf(2.0 * unit(mix(h)) - 1.0),
        };
        let span = p.grids[d][p.dims[d] - 1].f() - p.grids[d][0].f();
        let b = match (h >> 32) % 4 {
            0 | 1 => 0.0,
            2 => T::of(-s * p.grids[d][0].f()).f(),
            _ => T::of(s * span * (((h >> 40) % 9) as f64 - 4.0) / 4.0).f(),
        };
        rev[d] = h >> 60 & 1 == 1;
        let sg = if rev[d] { -1.0 } else { 1.0 };
        let f = |x: f64| T::of(sg * (s * x + b));
        q.obs[d] = p.obs[d].iter().map(|x| f(x.f())).collect();
        q.grids[d] = p.grids[d].iter().map(|x| f(x.f())).collect();
        if rev[d] {
            q.grids[d].reverse();
        }
        if p.kind == Kind::Regular {
            q.steps[d] = T::of(s * p.steps[d].f());
            let last = p.steps[d].f().mul_add((p.dims[d] - 1) as f64, p.starts[d].f());
            q.starts[d] = if rev[d] { f(last) } else { f(p.starts[d].f()) };
        }
        // rounding of the transformed coordinates, nodes and observation points alike
        let mx = |v: &[T]| v.iter().fold(0.0f64, |m, x| m.max(x.f().abs()));
        let dq = 4.0 * T::EPS * (mx(&q.grids[d]) + b.abs() + s * mx(&p.grids[d]));
        delta_q[d] = dq;
        delta_p[d] = dq / s;
        if !q.grids[d].windows(2).all(|w| w[0] < w[1]) {
            return Ok(());
        }
        what.push(format!("{}*({s}*x+{b})", sg));
    }
    let (sp, _) = (p.strides(), 0);
    for k in 0..p.vals.len() {
        let j: usize = (0..n)
            .map(|d| {
                let i = k / sp[d] % p.dims[d];
                (if rev[d] { p.dims[d] - 1 - i } else { i }) * sp[d]
            })
            .sum();
        q.vals[k] = p.vals[j];
    }
    let (a, b) = (run(&p, c.entry)?, run(&q, c.entry)?);
    t.label_if(rev.iter().any(|r| *r), "mirrored");
    for i in 0..a.len() {
        let (x, y) = (p.point(i), q.point(i));
        // observation coordinates are rounded too
        let dp: Vec<f64> = (0..n).map(|d| if delta_p[d] > 0.0 { delta_p[d] + 4.0 * T::EPS * (x[d].f().abs() + y[d].f().abs() * delta_p[d] / delta_q[d]) } else { 0.0 }).collect();
        let dq: Vec<f64> = (0..n).map(|d| if delta_p[d] > 0.0 { dp[d] * delta_q[d] / delta_p[d] } else { 0.0 }).collect();
        let tiny = (0..n).all(|d| {
            let hmin = p.grids[d].windows(2).map(|w| w[1].f() - w[0].f()).fold(f64::MAX, f64::min);
            dp[d] <= 1e-2 * hmin
        });
        if !tiny {
            continue;
        }
        let tol = if c.method == Method::Nearest {
            if !picks_clear(&p, &x, &dp) {
                continue;
            }
            0.0
        } else {
            let (ra, rb) = (reference_rel(&p, &x, &dp), reference_rel(&q, &y, &dq));
            if !assessable::<T>(&ra) || !assessable::<T>(&rb) {
                continue;
            }
            ra.e + rb.e
        };
        t.compared += 1;
        if !close(a[i].f(), b[i].f(), tol) {
            return Err(format!("{:?}: {:?}, but {:?} after axis transformation {what:?} (tolerance {tol:e}): {}", c.entry, a[i], b[i], p.describe(i)));
        }
    }
    t.nontrivial = t.compared > 0 && varied(&p) && what.iter().any(|w| w != "-");
    Ok(())
}

pub fn props() -> Vec<Property> {
    let o = |th: bool, max_n: usize| Opts {
        ndims: (1, max_n),
        budget: if th { 200_000 } else { 20_000 },
        bulk: false,
        work: 40_000,
        ..Opts::default()
    };
    let hist = move |th: bool| -> BoxedStrategy<History> {
        let oo = Opts { budget: 2000, max_pts: 6, ..o(th, 8) };
        (vec(case(&oo), 1..5), vec(any::<u8>(), 2..if th { 60 } else { 24 }))
            .prop_map(|(cases, order)| History { cases, order })
            .boxed()
    };
    let batches = move |th: bool| -> BoxedStrategy<Case> {
        let oo = Opts { bulk: true, bulk_max: if th { 40_000 } else { 6000 }, work: 400_000, ..o(th, 9) };
        (case(&oo), 0..3u8, any::<u64>(), prop_oneof![1..300u32, prop::sample::select(vec![64u32, 128, 255, 256, 257, 1000, 1024, 1025, 4096])])
            .prop_map(|(mut c, k, seed, len)| {
                if k == 0 {
                    let cost = footprint(c.method).pow(c.axes.len() as u32) as u32;
                    c.bulk = Some(Bulk { len: len.min(1 + 200_000 / cost), seed });
                }
                c
            })
            .boxed()
    };
    // batches so long that counters and block sizes of 16 bits or more overflow
    let long = move |th: bool| -> BoxedStrategy<Case> {
        let oo = Opts { bulk: true, ndims: (1, 3), max_pts: 3, work: 4_000_000, budget: 2000, ..o(th, 3) };
        let len = prop_oneof![2 => prop::sample::select(vec![32_767u32, 32_768, 32_769, 65_535, 65_536, 65_537, 131_072, 131_073]), 1 => 10_000..if th { 1_500_000u32 } else { 300_000 }];
        (case(&oo), any::<u64>(), len)
            .prop_map(|(mut c, seed, len)| {
                let cost = footprint(c.method).pow(c.axes.len() as u32) as u32;
                c.bulk = Some(Bulk { len: len.min(4_000_000 / cost), seed });
                c
            })
            .boxed()
    };
    const TOL: &str = "tolerance: the roundoff bounds of C01/C03 for both evaluations";
    vec![
        Property {
            id: "C08",
            rule: "a generated regular problem is also posed as a rectilinear one with the same (rounded) node coordinates, and both are evaluated; non-trivial: values not constant and at least one comparison",
            assumptions: &["tolerance: roundoff bounds of both plus the effect of rounding the stored node coordinates; nearest results are compared away from ties unless the grid is exactly representable"],
            subs: vec![
                Check::new("kinds", 16_000, 500_000, move |th| case(&o(th, 9)), |c: &Case, t| typed!(c.f32, kinds(c, t))),
                Check::new("huge", 40, 500, |th| huge(vec![Method::Linear, Method::Cubic, Method::Nearest], th), |c: &Case, t| typed!(c.f32, kinds(c, t))),
            ],
        },
        Property {
            id: "C09",
            rule: "one generated problem through every public entry point that supports its dimension; results must agree, and for generated malformed or numerically extreme inputs acceptance must agree; non-trivial: values not constant and at least one comparison, or a malformed/extreme input offered to several entry points",
            assumptions: &[TOL, "nearest results must be identical"],
            subs: vec![
                Check::new("results", 16_000, 500_000, move |th| case(&Opts { work: 10_000, ..o(th, 10) }), |c: &Case, t| typed!(c.f32, entries(c, t))),
                Check::new("acceptance", 10_000, 300_000, |_| crate::bad::soups(), |c: &crate::bad::Soup, t| typed!(c.problem.f32, acceptance(c, t))),
                crate::bad::agree(),
            ],
        },
        Property {
            id: "C10",
            rule: "a generated batch (1..6000 points, some of up to 300000) through one entry point: bitwise equal on repetition with other previous output content, point by point alone, in another order/length with repeats, and empty; plus interleaved histories of evaluations of several problems, and problems stored in the memory of earlier ones, against the same problem in other memory; non-trivial: more than one point and non-constant values, or a history with a repeated evaluation",
            assumptions: &["results are compared bitwise (NaN equals NaN) only between calls of the same entry point"],
            subs: vec![
                Check::new("batch", 12_000, 300_000, batches, |c: &Case, t| typed!(c.f32, batch(c, t))),
                Check::new("long", 300, 6_000, long, |c: &Case, t| typed!(c.f32, batch(c, t))),
                Check::new("history", 3_000, 60_000, hist, history),
                Check::new("reused", 6_000, 200_000, move |th| case(&Opts { budget: 3000, work: 5_000, bulk: false, ..o(th, 7) }), |c: &Case, t| typed!(c.f32, reused(c, t))),
                Check::new("reused_1d", 4_000, 100_000, |_| crate::one::case1(crate::one::ALL1.to_vec(), 200), |c: &crate::one::Case1, t| typed!(c.f32, reused_1d(c, t))),
            ],
        },
        Property {
            id: "C11",
            rule: "a generated problem and the same problem with a generated non-identity axis permutation applied to grid, values and observation coordinates; non-trivial: two or more axes, values not constant, at least one comparison",
            assumptions: &[TOL, "nearest results must be identical"],
            subs: vec![Check::new("permute", 24_000, 600_000, move |th| case(&Opts { ndims: (2, 9), ..o(th, 9) }), |c: &Case, t| typed!(c.f32, permute(c, t)))],
        },
        Property {
            id: "C12",
            rule: "a generated problem is evaluated at one point, then again with every value outside the point's stencil replaced by NaN, infinity or 3e17; the result must be bitwise the same; non-trivial: at least one value was replaced and compared",
            assumptions: &["within rounding distance of a node (regular grids) or exactly on one, the stencils of both adjoining cells are allowed"],
            subs: vec![
                Check::new("poison", 16_000, 400_000, move |th| case(&o(th, 9)), |c: &Case, t| typed!(c.f32, locality(c, t))),
                Check::new("huge", 48, 500, |th| huge(vec![Method::Linear, Method::Cubic, Method::Nearest], th), |c: &Case, t| typed!(c.f32, locality(c, t))),
            ],
        },
        Property {
            id: "C13",
            rule: "values: a generated second value array and coefficients, f(aA+bB) = a f(A)+b f(B), and an added constant; axes: generated shift, scale and mirroring of a subset of axes applied to grid and observation points (and values); units: coordinates of every axis multiplied by powers of two, up to the largest and down to the smallest numbers; non-trivial: values not constant, at least one comparison (and one axis transformed)",
            assumptions: &[TOL, "plus the rounding of the transformed inputs, propagated"],
            subs: vec![
                Check::new("values", 14_000, 300_000, move |th| case(&o(th, 8)), |c: &Case, t| typed!(c.f32, linear_values(c, t))),
                Check::new("axes", 20_000, 400_000, move |th| case(&o(th, 8)), |c: &Case, t| typed!(c.f32, transform_axes(c, t))),
                crate::units::nd(vec![Method::Linear, Method::Cubic, Method::Nearest], 12_000, 300_000),
            ],
        },
    ]
}
