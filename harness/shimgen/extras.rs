// Traits that f32 and f64 have and the scalar `$T` (made from an f64 by `$mk`) gets as well, so that
// it can stand in for them wherever the crate under test asks for more than num_traits::Float.
macro_rules! extras {
    ($T:ident, $mk:expr) => {
        impl Default for $T {
            fn default() -> $T {
                <$T as num_traits::Zero>::zero()
            }
        }
        impl std::fmt::Display for $T {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{self:?}")
            }
        }
        impl std::iter::Sum for $T {
            fn sum<I: Iterator<Item = $T>>(i: I) -> $T {
                i.fold(<$T as num_traits::Zero>::zero(), |a, b| a + b)
            }
        }
        impl std::iter::Product for $T {
            fn product<I: Iterator<Item = $T>>(i: I) -> $T {
                i.fold(<$T as num_traits::One>::one(), |a, b| a * b)
            }
        }
        impl num_traits::FromPrimitive for $T {
            fn from_i64(n: i64) -> Option<$T> {
                <$T as num_traits::NumCast>::from(n)
            }
            fn from_u64(n: u64) -> Option<$T> {
                <$T as num_traits::NumCast>::from(n)
            }
            fn from_f64(n: f64) -> Option<$T> {
                Some($mk(n))
            }
        }
        impl num_traits::MulAdd for $T {
            type Output = $T;
            fn mul_add(self, a: $T, b: $T) -> $T {
                num_traits::Float::mul_add(self, a, b)
            }
        }
        impl From<f64> for $T {
            fn from(x: f64) -> $T {
                $mk(x)
            }
        }
        impl From<f32> for $T {
            fn from(x: f32) -> $T {
                $mk(x as f64)
            }
        }
        impl num_traits::Bounded for $T {
            fn min_value() -> $T {
                <$T as num_traits::Float>::min_value()
            }
            fn max_value() -> $T {
                <$T as num_traits::Float>::max_value()
            }
        }
    };
}
