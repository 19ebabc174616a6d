//! A scalar of about 31 significant digits: an unevaluated sum of two f64 ("double-double").
//! Transcendental functions are only as good as f64.
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::num::FpCategory;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct D {
    pub h: f64,
    pub l: f64,
}

impl std::fmt::Debug for D {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.l == 0.0 { write!(f, "{:?}", self.h) } else { write!(f, "({:?} {:+e})", self.h, self.l) }
    }
}

#[inline]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let t = s - a;
    (s, (a - (s - t)) + (b - t))
}
#[inline]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    (p, a.mul_add(b, -p))
}
impl D {
    /// the sum of two f64, normalised
    #[inline]
    pub fn new(h: f64, l: f64) -> D {
        let (s, e) = two_sum(h, l);
        if s.is_finite() { D { h: s, l: e } } else { D { h: h + l, l: 0.0 } }
    }
    #[inline]
    pub fn of(h: f64) -> D {
        D { h, l: 0.0 }
    }
    pub fn int(i: usize) -> D {
        <D as NumCast>::from(i).unwrap()
    }
    fn each(self, f: fn(f64) -> f64) -> D {
        D::of(f(self.h))
    }
}

impl PartialEq for D {
    fn eq(&self, o: &D) -> bool {
        self.h == o.h && self.l == o.l
    }
}
impl PartialOrd for D {
    fn partial_cmp(&self, o: &D) -> Option<Ordering> {
        match self.h.partial_cmp(&o.h) {
            Some(Ordering::Equal) => self.l.partial_cmp(&o.l),
            r => r,
        }
    }
}
impl Add for D {
    type Output = D;
    fn add(self, o: D) -> D {
        let (s, e) = two_sum(self.h, o.h);
        if !s.is_finite() {
            return D::of(self.h + o.h);
        }
        let (t, f) = two_sum(self.l, o.l);
        let (s, e) = two_sum(s, e + t);
        D::new(s, e + f)
    }
}
impl Neg for D {
    type Output = D;
    fn neg(self) -> D {
        D { h: -self.h, l: -self.l }
    }
}
impl Sub for D {
    type Output = D;
    fn sub(self, o: D) -> D {
        self + -o
    }
}
impl Mul for D {
    type Output = D;
    fn mul(self, o: D) -> D {
        let (p, e) = two_prod(self.h, o.h);
        if !p.is_finite() || p == 0.0 {
            return D::of(p);
        }
        D::new(p, e + (self.h * o.l + self.l * o.h))
    }
}
impl Div for D {
    type Output = D;
    fn div(self, o: D) -> D {
        let q1 = self.h / o.h;
        if !q1.is_finite() || q1 == 0.0 || !o.h.is_finite() {
            return D::of(q1);
        }
        let r = self - o * D::of(q1);
        let q2 = r.h / o.h;
        let r = r - o * D::of(q2);
        let q3 = r.h / o.h;
        D::new(q1, q2) + D::of(q3)
    }
}
impl Rem for D {
    type Output = D;
    fn rem(self, o: D) -> D {
        self - (self / o).trunc() * o
    }
}
macro_rules! assign {
    ($($t:ident $f:ident $op:tt),*) => {$(
        impl $t for D {
            fn $f(&mut self, o: D) {
                *self = *self $op o
            }
        }
    )*};
}
assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %);
impl Zero for D {
    fn zero() -> D {
        D::of(0.0)
    }
    fn is_zero(&self) -> bool {
        self.h == 0.0
    }
}
impl One for D {
    fn one() -> D {
        D::of(1.0)
    }
}
impl Num for D {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<D, Self::FromStrRadixErr> {
        <f64 as Num>::from_str_radix(s, r).map(D::of)
    }
}
impl ToPrimitive for D {
    fn to_i128(&self) -> Option<i128> {
        let t = self.trunc();
        if t.h.abs() < 1e38 { Some(t.h as i128 + t.l as i128) } else { None }
    }
    fn to_i64(&self) -> Option<i64> {
        self.to_i128()?.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.to_i128()?.to_u64()
    }
    fn to_u128(&self) -> Option<u128> {
        self.to_i128()?.to_u128()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.h)
    }
    fn to_f32(&self) -> Option<f32> {
        Some(self.h as f32)
    }
}
impl NumCast for D {
    fn from<T: ToPrimitive>(n: T) -> Option<D> {
        let f = n.to_f64()?;
        // whole numbers wider than f64
        if f.fract() == 0.0 && f.abs() > 9e15 && f.abs() < 1e37 {
            let i = n.to_i128()?;
            return Some(D::new(f, (i - f as i128) as f64));
        }
        Some(D::of(f))
    }
}
macro_rules! con {
    ($($f:ident),*) => {$( fn $f() -> D { D::of(<f64 as Float>::$f()) } )*};
}
macro_rules! un {
    ($($f:ident),*) => {$( fn $f(self) -> D { self.each(<f64 as Float>::$f) } )*};
}
macro_rules! is {
    ($($f:ident),*) => {$( fn $f(self) -> bool { <f64 as Float>::$f(self.h) } )*};
}
macro_rules! whole {
    ($($f:ident),*) => {$( fn $f(self) -> D {
        let t = <f64 as Float>::$f(self.h);
        if t == self.h { D::new(t, <f64 as Float>::$f(self.l)) } else { D::of(t) }
    } )*};
}
impl Float for D {
    con!(nan, infinity, neg_infinity, neg_zero, min_value, min_positive_value, max_value);
    is!(is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative);
    un!(exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    whole!(floor, ceil);
    fn epsilon() -> D {
        D::of(2f64.powi(-104))
    }
    fn trunc(self) -> D {
        if self.h < 0.0 { self.ceil() } else { self.floor() }
    }
    fn round(self) -> D {
        let half = D::of(0.5);
        if self.h < 0.0 { (self - half).ceil() } else { (self + half).floor() }
    }
    fn fract(self) -> D {
        self - self.trunc()
    }
    fn abs(self) -> D {
        if self.h.is_sign_negative() { -self } else { self }
    }
    fn signum(self) -> D {
        D::of(self.h.signum())
    }
    fn recip(self) -> D {
        D::one() / self
    }
    fn sqrt(self) -> D {
        let x = self.h.sqrt();
        if !x.is_finite() || x == 0.0 {
            return D::of(x);
        }
        let x = D::of(x);
        let x = (x + self / x) * D::of(0.5);
        (x + self / x) * D::of(0.5)
    }
    fn powf(self, o: D) -> D {
        D::of(self.h.powf(o.h))
    }
    fn powi(self, n: i32) -> D {
        let mut r = D::one();
        for _ in 0..n.unsigned_abs() {
            r *= self;
        }
        if n < 0 { r.recip() } else { r }
    }
    fn log(self, o: D) -> D {
        D::of(self.h.log(o.h))
    }
    fn max(self, o: D) -> D {
        if self.h.is_nan() || self < o { o } else { self }
    }
    fn min(self, o: D) -> D {
        if self.h.is_nan() || self > o { o } else { self }
    }
    fn clamp(self, a: D, b: D) -> D {
        if self < a {
            a
        } else if self > b {
            b
        } else {
            self
        }
    }
    fn copysign(self, o: D) -> D {
        if self.h.is_sign_negative() == o.h.is_sign_negative() { self } else { -self }
    }
    fn atan2(self, o: D) -> D {
        D::of(self.h.atan2(o.h))
    }
    fn hypot(self, o: D) -> D {
        (self * self + o * o).sqrt()
    }
    fn classify(self) -> FpCategory {
        self.h.classify()
    }
    fn mul_add(self, a: D, b: D) -> D {
        self * a + b
    }
    fn abs_sub(self, o: D) -> D {
        if self > o { self - o } else { D::zero() }
    }
    fn sin_cos(self) -> (D, D) {
        (self.sin(), self.cos())
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        Float::integer_decode(self.h)
    }
}
include!("../../shimgen/extras.rs");
extras!(D, D::of);
