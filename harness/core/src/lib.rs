//! Code that does not depend on the crate under test: input descriptors and
//! their generators, the independent reference model, and the run driver.
pub mod desc;
pub mod drive;
pub mod oracle;
pub mod problem;

pub use desc::*;
pub use problem::*;

/// splitmix64: expands a generated seed into bulk array contents
/// deterministically. It is never a source of randomness of its own.
#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Uniform in [0, 1) from a hash.
#[inline]
pub fn unit(h: u64) -> f64 {
    (h >> 11) as f64 * (1.0 / (1u64 << 53) as f64)
}
