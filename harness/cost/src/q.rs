//! A scalar type that behaves like f64 and counts what is done with it.
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::Cell;
use std::num::FpCategory;
use std::ops::*;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Count {
    /// arithmetic and conversions
    pub ops: u64,
    /// comparisons
    pub cmps: u64,
}
thread_local! {
    static OPS: Cell<u64> = const { Cell::new(0) };
    static CMPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}
pub const LIMIT_MSG: &str = "operation limit exceeded";

/// Run `f` and count; a panic with LIMIT_MSG is raised inside once `limit` is exceeded.
pub fn counted<R>(limit: u64, f: impl FnOnce() -> R) -> (R, Count) {
    OPS.with(|c| c.set(0));
    CMPS.with(|c| c.set(0));
    LIMIT.with(|c| c.set(limit));
    let r = f();
    LIMIT.with(|c| c.set(u64::MAX));
    (r, Count { ops: OPS.with(|c| c.get()), cmps: CMPS.with(|c| c.get()) })
}

#[inline(never)]
fn over() -> ! {
    LIMIT.with(|c| c.set(u64::MAX));
    panic!("{LIMIT_MSG}")
}
#[inline(never)]
fn op() {
    let n = OPS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n > LIMIT.with(|c| c.get()) {
        over()
    }
}
#[inline(never)]
fn cmp() {
    let n = CMPS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n > LIMIT.with(|c| c.get()) {
        over()
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Q(pub f64);

impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        cmp();
        self.0 == o.0
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<std::cmp::Ordering> {
        cmp();
        self.0.partial_cmp(&o.0)
    }
}
macro_rules! bin {
    ($($tr:ident $f:ident $tra:ident $fa:ident $op:tt),*) => {$(
        impl $tr for Q {
            type Output = Q;
            fn $f(self, o: Q) -> Q {
                op();
                Q(self.0 $op o.0)
            }
        }
        impl $tra for Q {
            fn $fa(&mut self, o: Q) {
                op();
                self.0 = self.0 $op o.0
            }
        }
    )*};
}
bin!(Add add AddAssign add_assign +, Sub sub SubAssign sub_assign -, Mul mul MulAssign mul_assign *, Div div DivAssign div_assign /, Rem rem RemAssign rem_assign %);
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        op();
        Q(-self.0)
    }
}
impl Zero for Q {
    fn zero() -> Q {
        Q(0.0)
    }
    fn is_zero(&self) -> bool {
        cmp();
        self.0 == 0.0
    }
}
impl One for Q {
    fn one() -> Q {
        Q(1.0)
    }
}
impl Num for Q {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Q, Self::FromStrRadixErr> {
        <f64 as Num>::from_str_radix(s, r).map(Q)
    }
}
macro_rules! to {
    ($($f:ident $t:ty),*) => {$(
        fn $f(&self) -> Option<$t> {
            op();
            self.0.$f()
        }
    )*};
}
impl ToPrimitive for Q {
    to!(to_i64 i64, to_u64 u64, to_isize isize, to_usize usize, to_i128 i128, to_u128 u128, to_i32 i32, to_u32 u32, to_f32 f32, to_f64 f64);
}
impl NumCast for Q {
    fn from<T: ToPrimitive>(n: T) -> Option<Q> {
        op();
        n.to_f64().map(Q)
    }
}
macro_rules! con {
    ($($f:ident),*) => {$( fn $f() -> Q { Q(<f64 as Float>::$f()) } )*};
}
macro_rules! un {
    ($($f:ident),*) => {$( fn $f(self) -> Q { op(); Q(<f64 as Float>::$f(self.0)) } )*};
}
macro_rules! is {
    ($($f:ident),*) => {$( fn $f(self) -> bool { cmp(); <f64 as Float>::$f(self.0) } )*};
}
macro_rules! two {
    ($($f:ident),*) => {$( fn $f(self, o: Q) -> Q { op(); Q(<f64 as Float>::$f(self.0, o.0)) } )*};
}
impl Float for Q {
    con!(nan, infinity, neg_infinity, neg_zero, min_value, min_positive_value, epsilon, max_value);
    is!(is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative);
    un!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    two!(powf, log, max, min, atan2, hypot, copysign);
    fn clamp(self, a: Q, b: Q) -> Q {
        op();
        cmp();
        Q(<f64 as Float>::clamp(self.0, a.0, b.0))
    }
    fn classify(self) -> FpCategory {
        self.0.classify()
    }
    fn mul_add(self, a: Q, b: Q) -> Q {
        op();
        Q(<f64 as Float>::mul_add(self.0, a.0, b.0))
    }
    fn powi(self, n: i32) -> Q {
        op();
        Q(<f64 as Float>::powi(self.0, n))
    }
    fn abs_sub(self, o: Q) -> Q {
        op();
        Q((self.0 - o.0).max(0.0))
    }
    fn sin_cos(self) -> (Q, Q) {
        op();
        let (a, b) = Float::sin_cos(self.0);
        (Q(a), Q(b))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        self.0.integer_decode()
    }
}
include!("../../shimgen/extras.rs");
extras!(Q, Q);
