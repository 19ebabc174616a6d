//! The code under test, behind one trait per scalar type.
use vcore::problem::*;

pub trait Uut: Real {
    fn eval(p: &Problem<Self>, e: Entry, out: &mut [Self]) -> Result<(), Failure>;
    fn eval_shared(p: &Problem<Self>, e: Entry, w: &Shared<Self>, out: &mut [Self]) -> Result<(), Failure>;
    fn bounds(p: &Problem<Self>, path: usize, atol: Self, out: &mut [bool]) -> Result<(), Failure>;
    fn eval1(p: &Problem1<Self>, m: Mode1, out: &mut [Self]) -> Result<(), Failure>;
    fn cells1(p: &Problem1<Self>) -> Result<Vec<(usize, i8, i8, [Self; 4])>, Failure>;
    fn linspace(a: Self, b: Self, n: usize) -> Result<Vec<Self>, Failure>;
    fn meshgrid(x: &[Vec<Self>]) -> Result<Vec<Vec<Self>>, Failure>;
}
macro_rules! uut {
    ($T:ty, $m:ident) => {
        impl Uut for $T {
            fn eval(p: &Problem<Self>, e: Entry, out: &mut [Self]) -> Result<(), Failure> {
                $m::eval(p, e, out)
            }
            fn eval_shared(p: &Problem<Self>, e: Entry, w: &Shared<Self>, out: &mut [Self]) -> Result<(), Failure> {
                $m::eval_shared(p, e, w, out)
            }
            fn bounds(p: &Problem<Self>, path: usize, atol: Self, out: &mut [bool]) -> Result<(), Failure> {
                $m::check_bounds(p, path, atol, out)
            }
            fn eval1(p: &Problem1<Self>, m: Mode1, out: &mut [Self]) -> Result<(), Failure> {
                $m::eval1(p, m, out)
            }
            fn cells1(p: &Problem1<Self>) -> Result<Vec<(usize, i8, i8, [Self; 4])>, Failure> {
                $m::cells1(p)
            }
            fn linspace(a: Self, b: Self, n: usize) -> Result<Vec<Self>, Failure> {
                $m::linspace(a, b, n)
            }
            fn meshgrid(x: &[Vec<Self>]) -> Result<Vec<Vec<Self>>, Failure> {
                $m::meshgrid(x)
            }
        }
    };
}
uut!(f64, shim64);
uut!(f32, shim32);

pub const BOUNDS_PATHS: usize = shim64::BOUNDS_PATHS;

/// Run `$f::<T>` for the scalar type the case asks for.
#[macro_export]
macro_rules! typed {
    ($is32:expr, $f:ident($($a:expr),*)) => {
        if $is32 { $f::<f32>($($a),*) } else { $f::<f64>($($a),*) }
    };
}

/// A value no evaluation produces by accident.
pub fn poison<T: Real>(k: u64) -> T {
    match k % 4 {
        0 => T::of(-7.0e20),
        1 => T::nan(),
        2 => T::infinity(),
        _ => T::of(3.25e17),
    }
}

pub fn run_raw<T: Uut>(p: &Problem<T>, e: Entry) -> Result<Vec<T>, Failure> {
    let mut out = vec![T::of(-7.0e20); p.npts()];
    T::eval(p, e, &mut out)?;
    Ok(out)
}

pub fn run<T: Uut>(p: &Problem<T>, e: Entry) -> Result<Vec<T>, String> {
    run_raw(p, e).map_err(|f| format!("{e:?} {f} on well-formed input: {}", p.describe(0)))
}

pub fn same<T: Real>(a: T, b: T) -> bool {
    a.bits() == b.bits() || (a.is_nan() && b.is_nan())
}

/// |a - b| <= e, treating equal infinities / NaN pairs as equal
pub fn close(a: f64, b: f64, e: f64) -> bool {
    a == b || (a - b).abs() <= e
}

pub fn nd_label(n: usize) -> &'static str {
    ["N0", "N1", "N2", "N3", "N4", "N5", "N6", "N7", "N8", "N9", "N10"][n.min(10)]
}
pub fn method_label(m: Method) -> &'static str {
    match m {
        Method::Linear => "linear",
        Method::Cubic => "cubic",
        Method::Nearest => "nearest",
    }
}
pub fn kind_label(k: Kind) -> &'static str {
    match k {
        Kind::Regular => "regular",
        Kind::Rectilinear => "rectilinear",
    }
}
pub fn entry_label(e: Entry) -> &'static str {
    use Entry::*;
    match e {
        Interpn => "interpn",
        Alloc => "interpn_alloc",
        Flat => "flat",
        FlatOne => "flat_one",
        Rec => "rec",
        RecOne => "rec_one",
        RecWide => "rec_wide",
        RecWideOne => "rec_wide_one",
        RecInterpn => "rec_interpn",
        RecAlloc => "rec_alloc",
        RecNarrow => "rec_narrow",
    }
}
