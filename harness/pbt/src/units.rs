//! Grids in extreme units: coordinates up to the largest finite numbers, or down to the smallest
//! ones. Multiplying every coordinate of an axis by a power of two is exact, so that the result
//! must be that of the ordinary units.
use crate::one::{exponent_for, plain_vals, scaled, shift};
use crate::typed;
use crate::uut::*;
use crate::values::check_point;
use proptest::prelude::*;
use vcore::drive::*;
use vcore::*;

fn nd_body<T: Uut>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let p = expand::<T>(c);
    let mut q = p.clone();
    let exact = c.method == Method::Nearest;
    let mut es = vec![];
    for d in 0..p.ndims() {
        let g = &p.grids[d];
        let mut xs: Vec<f64> = g.iter().chain(&p.obs[d]).map(|x| x.f()).collect();
        if p.kind == Kind::Regular {
            xs.extend([p.starts[d].f(), p.steps[d].f(), p.steps[d].f() * (p.dims[d] - 1) as f64]);
        }
        let hmin = g.windows(2).map(|w| w[1].f() - w[0].f()).fold(f64::MAX, f64::min);
        let e = exponent_for::<T>(&xs, hmin, exact, mix(c.extra ^ mix(d as u64)));
        q.grids[d] = scaled(g, e);
        q.obs[d] = scaled(&p.obs[d], e);
        q.starts[d] = T::of(shift(p.starts[d].f(), e));
        q.steps[d] = T::of(shift(p.steps[d].f(), e));
        es.push(e);
    }
    if !q.grids.iter().all(|g| g.windows(2).all(|w| w[0] < w[1])) {
        return Ok(());
    }
    let out = run(&q, c.entry)?;
    for i in 0..p.npts() {
        // judged in ordinary units
        if check_point(&p, i, out[i], &format!("{:?} with coordinates multiplied by 2^{es:?}", c.entry))? {
            t.compared += 1;
        }
    }
    t.label(method_name(c.method));
    t.label(if p.kind == Kind::Regular { "regular" } else { "rectilinear" });
    t.label_if(es.iter().any(|e| *e > 0), "large unit");
    t.label_if(es.iter().any(|e| *e < 0), "small unit");
    t.nontrivial = t.compared > 0 && p.vals.iter().any(|v| *v != p.vals[0]) && es.iter().any(|e| *e != 0);
    Ok(())
}
fn method_name(m: Method) -> &'static str {
    match m {
        Method::Linear => "linear",
        Method::Cubic => "cubic",
        Method::Nearest => "nearest",
    }
}

pub fn nd(methods: Vec<Method>, quick: u32, thorough: u32) -> Box<dyn Sub> {
    Check::new(
        "units",
        quick,
        thorough,
        move |th| {
            let o = Opts {
                methods: methods.clone(),
                budget: if th { 100_000 } else { 5000 },
                bulk: false,
                work: 20_000,
                extreme: false,
                ..Opts::default()
            };
            case(&o)
                .prop_map(|mut c| {
                    c.vals = plain_vals(c.vals);
                    c
                })
                .boxed()
        },
        |c: &Case, t| typed!(c.f32, nd_body(c, t)),
    )
}
