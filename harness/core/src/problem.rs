//! A fully expanded interpolation problem and the interface to the code under test.
use num_traits::Float;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Method {
    Linear,
    Cubic,
    Nearest,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Kind {
    Regular,
    Rectilinear,
}

/// The public ways to evaluate an interpolant.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Entry {
    /// `<module>::interpn`
    Interpn,
    /// `<module>::interpn_alloc`
    Alloc,
    /// fixed-dimension struct, `interp`
    Flat,
    /// fixed-dimension struct, `interp_one` per point
    FlatOne,
    /// recursive struct with MAXDIMS == ndims, `interp`
    Rec,
    /// recursive struct with MAXDIMS == ndims, `interp_one` per point
    RecOne,
    /// recursive struct with spare MAXDIMS, `interp`
    RecWide,
    /// recursive struct with spare MAXDIMS, `interp_one` per point
    RecWideOne,
    /// `<module>_recursive::interpn`
    RecInterpn,
    /// `<module>_recursive::interpn_alloc`
    RecAlloc,
    /// recursive struct with MAXDIMS == ndims - 1 (must be rejected)
    RecNarrow,
}

pub const ALL_ENTRIES: [Entry; 10] = [
    Entry::Interpn,
    Entry::Alloc,
    Entry::Flat,
    Entry::FlatOne,
    Entry::Rec,
    Entry::RecOne,
    Entry::RecWide,
    Entry::RecWideOne,
    Entry::RecInterpn,
    Entry::RecAlloc,
];

/// Largest MAXDIMS instantiated for the recursive structs.
pub const WIDE: usize = 10;

pub fn entries_for(method: Method, ndims: usize) -> Vec<Entry> {
    use Entry::*;
    let flat_max = match method {
        Method::Linear | Method::Nearest => 6,
        Method::Cubic => 4,
    };
    let mut v = vec![];
    if ndims <= 8 && (method != Method::Nearest || ndims <= 6) {
        v.extend([Interpn, Alloc]);
    }
    if ndims <= flat_max {
        v.extend([Flat, FlatOne]);
    }
    if method != Method::Nearest {
        if ndims <= 8 {
            v.extend([Rec, RecOne, RecInterpn, RecAlloc]);
        }
        v.extend([RecWide, RecWideOne]);
    }
    v
}

pub fn min_points(method: Method) -> usize {
    match method {
        Method::Cubic => 4,
        _ => 2,
    }
}

pub fn footprint(method: Method) -> usize {
    match method {
        Method::Cubic => 4,
        Method::Linear => 2,
        Method::Nearest => 1,
    }
}

/// Scalar types under test.
pub trait Real: Float + std::fmt::Debug + Send + Sync + 'static {
    const EPS: f64;
    const MAXV: f64;
    const IS32: bool;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    fn up(self) -> Self;
    fn down(self) -> Self;
    fn bits(self) -> u64;
    fn from_bits_(b: u64) -> Self;
}
impl Real for f64 {
    const EPS: f64 = f64::EPSILON;
    const MAXV: f64 = f64::MAX;
    const IS32: bool = false;
    fn of(x: f64) -> Self {
        x
    }
    fn f(self) -> f64 {
        self
    }
    fn up(self) -> Self {
        self.next_up()
    }
    fn down(self) -> Self {
        self.next_down()
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn from_bits_(b: u64) -> Self {
        f64::from_bits(b)
    }
}
impl Real for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const MAXV: f64 = f32::MAX as f64;
    const IS32: bool = true;
    fn of(x: f64) -> Self {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn up(self) -> Self {
        self.next_up()
    }
    fn down(self) -> Self {
        self.next_down()
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn from_bits_(b: u64) -> Self {
        f32::from_bits(b as u32)
    }
}

/// A concrete problem. For `Kind::Regular` the grid is (`starts`, `steps`, `dims`);
/// `grids` always holds the (rounded) node coordinates.
#[derive(Clone, Debug)]
pub struct Problem<T> {
    pub method: Method,
    pub kind: Kind,
    pub lin: bool,
    pub dims: Vec<usize>,
    pub starts: Vec<T>,
    pub steps: Vec<T>,
    pub grids: Vec<Vec<T>>,
    pub vals: Vec<T>,
    /// one vector per axis
    pub obs: Vec<Vec<T>>,
}

impl<T: Real> Problem<T> {
    pub fn ndims(&self) -> usize {
        self.dims.len()
    }
    pub fn npts(&self) -> usize {
        self.obs.first().map_or(0, |o| o.len())
    }
    pub fn point(&self, i: usize) -> Vec<T> {
        self.obs.iter().map(|o| o[i]).collect()
    }
    pub fn with_points(&self, pts: &[Vec<T>]) -> Self {
        let mut p = self.clone();
        p.obs = (0..self.ndims())
            .map(|d| pts.iter().map(|q| q[d]).collect())
            .collect();
        p
    }
    pub fn strides(&self) -> Vec<usize> {
        let n = self.ndims();
        let mut s = vec![1; n];
        for i in (0..n.saturating_sub(1)).rev() {
            s[i] = s[i + 1] * self.dims[i + 1];
        }
        s
    }
    pub fn describe(&self, i: usize) -> String {
        let g: Vec<String> = (0..self.ndims())
            .map(|d| {
                if self.kind == Kind::Regular {
                    format!(
                        "start={:?} step={:?} n={}",
                        self.starts[d], self.steps[d], self.dims[d]
                    )
                } else if self.dims[d] <= 12 {
                    format!("{:?}", self.grids[d])
                } else {
                    format!(
                        "n={} {:?}..{:?}",
                        self.dims[d],
                        self.grids[d][0],
                        self.grids[d].last().unwrap()
                    )
                }
            })
            .collect();
        let v = if self.vals.len() <= 32 {
            format!(" vals={:?}", self.vals)
        } else {
            format!(" {} vals", self.vals.len())
        };
        format!(
            "{:?} {:?} lin={} {} x={:?} grids=[{}]{}",
            self.method,
            self.kind,
            self.lin,
            if T::IS32 { "f32" } else { "f64" },
            if i < self.npts() { self.point(i) } else { vec![] },
            g.join(" | "),
            v
        )
    }
}

/// Evaluate into `out` through the given entry point. Panics inside the code
/// under test are turned into `Failure::Panic`.
#[derive(Clone, Debug, PartialEq)]
pub enum Failure {
    Err(String),
    Panic(String),
}
impl std::fmt::Display for Failure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Failure::Err(e) => write!(f, "returned Err({e:?})"),
            Failure::Panic(e) => write!(f, "panicked: {e}"),
        }
    }
}

pub type EvalFn<T> = fn(&Problem<T>, Entry, &mut [T]) -> Result<(), Failure>;

thread_local! {
    static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    /// True while code under test runs on this thread.
    pub static INSIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// Allocator calls made while INSIDE (counted by the binary's global allocator).
    pub static ALLOCS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Install a panic hook which is silent inside `guarded`.
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        INSIDE.with(|c| c.set(false));
        if QUIET.with(|q| q.get()) == 0 {
            old(i)
        }
    }));
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    }
}

/// Run code under test, catching panics. Panics whose message starts with
/// "harness:" are errors of the harness and are passed on.
pub fn guarded<R>(f: impl FnOnce() -> Result<R, &'static str>) -> Result<R, Failure> {
    QUIET.with(|q| q.set(q.get() + 1));
    INSIDE.with(|c| c.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    INSIDE.with(|c| c.set(false));
    QUIET.with(|q| q.set(q.get() - 1));
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(Failure::Err(e.to_string())),
        Err(p) => {
            let m = panic_text(p);
            if m.starts_with("harness:") {
                panic!("{m}")
            }
            Err(Failure::Panic(m))
        }
    }
}

/// The 1-D interpolators.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Interp1 {
    Linear,
    HoldLast,
    Left,
    Right,
    Nearest,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Mode1 {
    Eval,
    One,
    Alloc,
}

/// A 1-D problem; `grid` is used for rectilinear grids, (start, step) for regular ones.
#[derive(Clone, Debug)]
pub struct Problem1<T> {
    pub kind: Kind,
    pub which: Interp1,
    pub start: T,
    pub step: T,
    pub grid: Vec<T>,
    pub vals: Vec<T>,
    pub locs: Vec<T>,
}

/// How one interpolator is evaluated by several threads at once.
pub struct Shared<'a, T> {
    pub par: usize,
    pub rounds: usize,
    /// the results of sequential evaluations: as a batch, and point by point
    pub want: [&'a [T]; 2],
}

/// Lets threads share an interpolator whether or not its type promises that this is allowed:
/// whether it works is what is being checked.
struct Share<'a, X>(&'a X);
unsafe impl<X> Send for Share<'_, X> {}
unsafe impl<X> Sync for Share<'_, X> {}
impl<'a, X> Share<'a, X> {
    fn get(&self) -> &'a X {
        self.0
    }
}

impl<T: Copy + PartialEq + std::fmt::Debug + Send + Sync> Shared<'_, T> {
    /// `modes`: evaluation as a batch and point by point
    pub fn run<X>(
        &self,
        it: &X,
        obs: &[&[T]],
        out: &mut [T],
        eval: impl Fn(&X, &[&[T]], &mut [T], Entry) -> Result<(), &'static str> + Sync,
        modes: [Entry; 2],
    ) -> Result<(), &'static str> {
        let n = out.len();
        let chunk = n.div_ceil(self.par).max(1);
        let (it, eval) = (&Share(it), &eval);
        let start = &std::sync::Barrier::new(n.div_ceil(chunk));
        let work = |k: usize, out: &mut [T]| -> Result<(), Failure> {
            let (lo, hi) = (k * chunk, k * chunk + out.len());
            let obs: Vec<&[T]> = obs.iter().map(|o| &o[lo..hi]).collect();
            start.wait();
            for r in 0..self.rounds {
                let m = (k + r) % 2;
                guarded(|| eval(it.get(), &obs, out, modes[m]))?;
                for (i, (a, b)) in out.iter().zip(&self.want[m][lo..hi]).enumerate() {
                    if !(a == b || (a != a && b != b)) {
                        return Err(Failure::Err(format!(
                            "point {} evaluated while other threads use the interpolator gives {a:?}, otherwise {b:?}",
                            lo + i
                        )));
                    }
                }
            }
            Ok(())
        };
        let work = &work;
        let res: Vec<Result<(), Failure>> = std::thread::scope(|s| {
            let hs: Vec<_> = out.chunks_mut(chunk).enumerate().map(|(k, out)| s.spawn(move || work(k, out))).collect();
            hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
        });
        for r in res {
            match r {
                Ok(()) => {}
                Err(Failure::Err(e)) => return Err(Box::leak(e.into_boxed_str())),
                Err(Failure::Panic(m)) => panic!("{m}"),
            }
        }
        Ok(())
    }
}
