//! Grids and interpolators implemented by the user of the library.
use interpn::one_dim::{Extrap, Grid1D, GridSample, Interp1D};
use interpn::{Left1D, Linear1D, LinearHoldLast1D, Nearest1D, Right1D};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use vcore::drive::*;
use vcore::*;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Form {
    /// owns its nodes, extrapolates from the end cells
    Owning,
    /// repeats its nodes for ever
    Periodic,
    /// no storage: the values are a function of the node number, without any end
    Endless,
    /// like Owning, but refuses locations in some of its cells
    Holes,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Grids {
    pub form: Form,
    pub which: Interp1,
    pub start: f64,
    pub gaps: Vec<f64>,
    pub vals: Vec<f64>,
    pub refuse: u32,
    pub locs: Vec<Loc>,
    pub out: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Loc {
    Node(i32),
    In(i32, f64),
    Mid(i32),
}

const REFUSED: &str = "no value here: refused by the caller's grid";

struct User {
    form: Form,
    x: Vec<f64>,
    y: Vec<f64>,
    refuse: u32,
    calls: Cell<u64>,
}
impl User {
    /// node k, for any integer k
    fn node(&self, k: i64) -> (f64, f64) {
        let n = self.x.len() as i64;
        match self.form {
            Form::Periodic => {
                // the last node is the first one of the next period
                let (turn, i) = (k.div_euclid(n - 1), k.rem_euclid(n - 1) as usize);
                (self.x[i] + turn as f64 * (self.x[n as usize - 1] - self.x[0]), self.y[i])
            }
            Form::Endless => (self.x[0] + k as f64 * (self.x[1] - self.x[0]), self.y[mix(k as u64) as usize % self.y.len()]),
            _ => {
                let i = k.clamp(0, n - 1) as usize;
                (self.x[i], self.y[i])
            }
        }
    }
    /// the number of the cell containing x
    fn cell(&self, x: f64) -> i64 {
        let n = self.x.len() as i64;
        let mut k = match self.form {
            Form::Periodic => ((x - self.x[0]) / (self.x[n as usize - 1] - self.x[0])).floor() as i64 * (n - 1),
            Form::Endless => ((x - self.x[0]) / (self.x[1] - self.x[0])).floor() as i64,
            _ => return (self.x.partition_point(|v| *v <= x) as i64 - 1).clamp(0, n - 2),
        };
        while self.node(k).0 > x {
            k -= 1
        }
        while self.node(k + 1).0 <= x {
            k += 1
        }
        k
    }
    fn side(&self, x: f64) -> i8 {
        match self.form {
            Form::Owning | Form::Holes if x < self.x[0] => -1,
            Form::Owning | Form::Holes if x > *self.x.last().unwrap() => 1,
            _ => 0,
        }
    }
    fn refuses(&self, x: f64) -> bool {
        self.form == Form::Holes && self.refuse >> (self.cell(x) % 32) & 1 == 1
    }
}
impl<'a> Grid1D<'a, f64> for &User {
    fn at(&self, x: f64) -> Result<GridSample<f64>, &'static str> {
        self.calls.set(self.calls.get() + 1);
        if self.refuses(x) {
            return Err(REFUSED);
        }
        let k = self.cell(x);
        let ((x0, y0), (x1, y1)) = (self.node(k), self.node(k + 1));
        let extrap = match self.side(x) {
            -1 => Extrap::OutsideLow,
            1 => Extrap::OutsideHigh,
            _ => Extrap::Inside,
        };
        Ok(GridSample { x0, y0, x1, y1, extrap })
    }
}

pub fn grids() -> BoxedStrategy<Grids> {
    let loc = prop_oneof![
        3 => (-20..20i32).prop_map(Loc::Node),
        6 => (-20..20i32, 0.0..1.0f64).prop_map(|(i, f)| Loc::In(i, f)),
        1 => (-20..20i32).prop_map(Loc::Mid),
    ];
    (
        prop::sample::select(vec![Form::Owning, Form::Periodic, Form::Endless, Form::Holes]),
        prop::sample::select(vec![Interp1::Linear, Interp1::HoldLast, Interp1::Left, Interp1::Right, Interp1::Nearest]),
        prop_oneof![Just(0.0), -50.0..50.0f64, (-40..40i32).prop_map(|i| i as f64 / 4.0)],
        vec(prop_oneof![(1..9u32).prop_map(|i| i as f64 / 2.0), 0.01..10.0f64], 1..9),
        vec(prop_oneof![(-9..10i32).prop_map(f64::from), -10.0..10.0f64], 10),
        any::<u32>(),
        vec(loc, 0..12),
        prop_oneof![9 => Just(0usize), 1 => 1..4usize],
    )
        .prop_map(|(form, which, start, gaps, vals, refuse, locs, out)| Grids { form, which, start, gaps, vals, refuse, locs, out })
        .boxed()
}

/// All three ways of evaluating; the third argument is what a shared test needs to know.
fn evaluate<'g, I: Interp1D<'g, f64, &'g User>>(it: &I, locs: &[f64], out_len: usize) -> [Result<Vec<f64>, String>; 3]
where
    &'g User: Grid1D<'g, f64>,
{
    let text = |r: Result<Vec<f64>, Failure>| {
        r.map_err(|f| match f {
            Failure::Err(e) => e,
            Failure::Panic(m) => format!("panic: {m}"),
        })
    };
    [
        text(guarded(|| {
            let mut out = vec![-7e20; out_len];
            it.eval(locs, &mut out)?;
            Ok(out)
        })),
        text(guarded(|| locs.iter().map(|x| it.eval_one(*x)).collect())),
        text(guarded(|| it.eval_alloc(locs))),
    ]
}

pub fn grid_body(c: &Grids, t: &mut Tally) -> Result<(), String> {
    let mut x = vec![c.start];
    for g in &c.gaps {
        x.push(x.last().unwrap() + g);
    }
    let u = User { form: c.form, y: c.vals[..x.len()].to_vec(), x, refuse: c.refuse, calls: Cell::new(0) };
    let locs: Vec<f64> = c
        .locs
        .iter()
        .map(|l| {
            // the nodes outside an owning grid continue its first cell's width
            let w = u.x[1] - u.x[0];
            let at = |i: i32| {
                let (i, n) = (i as i64, u.x.len() as i64);
                match c.form {
                    Form::Owning | Form::Holes if i < 0 => u.x[0] + i as f64 * w,
                    Form::Owning | Form::Holes if i >= n => u.x[n as usize - 1] + (i - n + 1) as f64 * w,
                    _ => u.node(i).0,
                }
            };
            match *l {
                Loc::Node(i) => at(i),
                Loc::In(i, f) => at(i) + f * (at(i + 1) - at(i)),
                Loc::Mid(i) => 0.5 * (at(i) + at(i + 1)),
            }
        })
        .collect();
    t.label(["owning", "periodic", "endless", "holes"][c.form as usize]);
    t.label(["linear", "hold_last", "left", "right", "nearest"][c.which as usize]);
    let m = locs.len();
    let out_len = m + c.out;
    let r = match c.which {
        Interp1::Linear => evaluate(&Linear1D::new(&u), &locs, out_len),
        Interp1::HoldLast => evaluate(&LinearHoldLast1D::new(&u), &locs, out_len),
        Interp1::Left => evaluate(&Left1D::new(&u), &locs, out_len),
        Interp1::Right => evaluate(&Right1D::new(&u), &locs, out_len),
        Interp1::Nearest => evaluate(&Nearest1D::new(&u), &locs, out_len),
    };
    let names = ["eval", "eval_one", "eval_alloc"];
    let refused = locs.iter().any(|x| u.refuses(*x));
    t.label_if(refused, "error from the grid");
    t.label_if(c.out > 0, "output of another length");
    for (k, r) in r.iter().enumerate() {
        t.compared += 1;
        let ctx = || format!("{:?} over a caller's {:?} grid, {}, locations {locs:?}, nodes {:?}, values {:?}", c.which, c.form, names[k], u.x, u.y);
        if k == 0 && c.out > 0 {
            match r {
                Err(e) if !e.starts_with("panic") => continue,
                _ => return Err(format!("{r:?} for {m} locations and an output of {out_len}: {}", ctx())),
            }
        }
        let out = match r {
            Err(e) if refused && e == REFUSED => continue,
            Err(e) => return Err(format!("failed with {e:?}: {}", ctx())),
            Ok(_) if refused => return Err(format!("the error of the grid is lost: {}", ctx())),
            Ok(v) => v,
        };
        if out.len() != m {
            return Err(format!("{} results for {m} locations: {}", out.len(), ctx()));
        }
        for (x, got) in locs.iter().zip(out) {
            t.compared += 1;
            let cell = u.cell(*x);
            let ((x0, y0), (x1, y1)) = (u.node(cell), u.node(cell + 1));
            let want = match (c.which, u.side(*x)) {
                (Interp1::HoldLast | Interp1::Left | Interp1::Right | Interp1::Nearest, -1) => Ok(y0),
                (Interp1::HoldLast | Interp1::Left | Interp1::Right | Interp1::Nearest, 1) => Ok(y1),
                (Interp1::Left, _) => Ok(if *x >= x1 { y1 } else { y0 }),
                (Interp1::Right, _) => Ok(if *x <= x0 { y0 } else { y1 }),
                (Interp1::Nearest, _) => {
                    let (d0, d1) = (x - x0, x1 - x);
                    // rounded distances decide an exact or nearly exact tie
                    if (d0 - d1).abs() <= 1e-13 * (x.abs() + x0.abs() + x1.abs()) && d0 != d1 { Err((y0.min(y1), y0.max(y1), false)) } else { Ok(if d0 <= d1 { y0 } else { y1 }) }
                }
                (Interp1::Linear | Interp1::HoldLast, _) => {
                    let s = (x - x0) / (x1 - x0);
                    let v = (1.0 - s) * y0 + s * y1;
                    let e = 1e-14 * (1.0 + s.abs()) * (y0.abs() + y1.abs());
                    Err((v - e, v + e, true))
                }
            };
            let ok = match want {
                Ok(w) => *got == w,
                Err((a, b, true)) => a <= *got && *got <= b,
                Err((a, b, false)) => *got == a || *got == b,
            };
            if !ok {
                return Err(format!("{got:?} at {x:?}, expected {want:?}: {}", ctx()));
            }
        }
    }
    t.nontrivial = m > 1 && u.y.iter().any(|y| *y != u.y[0]);
    Ok(())
}

// ---- an interpolator implemented by the caller ------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Interps {
    pub coef: Vec<f64>,
    pub locs: Vec<f64>,
    pub reps: u32,
    pub limit: Option<f64>,
    pub out: i32,
}
struct Poly<'c> {
    coef: &'c [f64],
    limit: f64,
}
const TOO_FAR: &str = "too far: refused by the caller's interpolator";
impl<'a> Interp1D<'a, f64, &'a User> for Poly<'_>
where
    &'a User: Grid1D<'a, f64>,
{
    fn eval_one(&self, x: f64) -> Result<f64, &'static str> {
        if x > self.limit { Err(TOO_FAR) } else { Ok(self.coef.iter().fold(0.0, |s, c| s * x + c)) }
    }
}
pub fn interps() -> BoxedStrategy<Interps> {
    let x = || prop_oneof![8 => -10.0..10.0f64, 1 => Just(0.0), 1 => Just(f64::NAN), 1 => Just(f64::INFINITY), 1 => Just(-0.0)];
    (vec(-3.0..3.0f64, 0..4), vec(x(), 0..20), prop_oneof![4 => Just(1u32), 1 => 2..300u32], prop::option::weighted(0.3, -5.0..15.0f64), prop_oneof![6 => Just(0), 1 => -3..4i32])
        .prop_map(|(coef, locs, reps, limit, out)| Interps { coef, locs, reps, limit, out })
        .boxed()
}
pub fn interp_body(c: &Interps, t: &mut Tally) -> Result<(), String> {
    let it = Poly { coef: &c.coef, limit: c.limit.unwrap_or(f64::INFINITY) };
    let locs: Vec<f64> = (0..c.reps).flat_map(|_| c.locs.iter().copied()).collect();
    let m = locs.len();
    let out_len = (m as i64 + c.out as i64).max(0) as usize;
    let r = evaluate(&it, &locs, out_len);
    let want: Result<Vec<f64>, &str> = locs.iter().map(|x| <Poly as Interp1D<f64, &User>>::eval_one(&it, *x)).collect();
    for (k, name) in [(0, "eval"), (2, "eval_alloc")] {
        t.compared += 1;
        let ctx = || format!("provided {name} of a caller's interpolator for {m} locations and an output of {out_len}: {c:?}");
        match (&r[k], &want) {
            (Err(e), _) if k == 0 && out_len != m && !e.starts_with("panic") => t.label("lengths differ"),
            (x, _) if k == 0 && out_len != m => return Err(format!("unequal lengths give {x:?}: {}", ctx())),
            (Err(e), Err(w)) if e == w => t.label("error from the interpolator"),
            (Ok(v), Ok(w)) if v.len() == w.len() && v.iter().zip(w).all(|(a, b)| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())) => t.label("values"),
            (a, b) => return Err(format!("gives {a:?} where eval_one gives {b:?}: {}", ctx())),
        }
    }
    t.nontrivial = m > 1;
    Ok(())
}
