//! C19: stack use of evaluations, measured by painting the stack below the call.
use crate::typed;
use crate::uut::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::drive::*;
use vcore::*;

const REGION: usize = 128 << 10;
const PAINT: u64 = 0x5ca1ab1e_0ddba11f;

/// Bytes of stack below this frame that `f` overwrites (at most REGION).
#[inline(never)]
fn depth(f: &mut dyn FnMut()) -> usize {
    let sp: usize;
    // SAFETY: reads the stack pointer. The memory painted lies below this frame (and
    // beyond its red zone) inside a thread stack of 64 MiB, so nothing lives there.
    unsafe {
        std::arch::asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack, preserves_flags));
        let top = (sp - 512) & !7;
        let bottom = top - REGION;
        let mut a = bottom;
        while a < top {
            (a as *mut u64).write_volatile(PAINT);
            a += 8;
        }
        f();
        let mut a = bottom;
        while a < top && (a as *const u64).read_volatile() == PAINT {
            a += 8;
        }
        top - a
    }
}

/// Generous: about twice what is measured (the harness's own frames, about 1.5 KB, included).
const CONST: usize = 6144;
const PER_DIM: usize = 512;
/// allowed difference between two inputs of the same shape
const DATA: usize = 384;
/// allowed growth over the one-dimensional call
const GROW: usize = 768;
const GROW_DIM: usize = 320;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Pair {
    pub small: Case,
    /// replaces the axes, points and values seed of `small`, in the same dimensions
    pub large: Case,
    pub batch: u32,
}

fn stack_body<T: Uut>(c: &Pair, t: &mut Tally) -> Result<(), String> {
    let p = expand::<T>(&c.small);
    let mut l = c.large.clone();
    (l.method, l.kind, l.lin, l.f32) = (c.small.method, c.small.kind, c.small.lin, c.small.f32);
    l.bulk = Some(Bulk { len: c.batch, seed: c.large.extra });
    let q = expand::<T>(&l);
    let n = p.ndims();
    t.label(method_label(p.method));
    t.label(kind_label(p.kind));
    t.label(nd_label(n));
    t.label_if(q.dims.iter().any(|d| *d > 1000), "axis>1000");
    // the same in one dimension
    let mut one = c.small.clone();
    one.axes.truncate(1);
    one.pts.iter_mut().for_each(|p| p.truncate(1));
    let one = expand::<T>(&one);
    for e in entries_for(p.method, n) {
        let [base, small, large] = [&one, &p, &q].map(|p| {
            let mut out = vec![T::zero(); p.npts()];
            // the lower of two measurements: one-time initialisation is not at issue
            let mut used = usize::MAX;
            for _ in 0..2 {
                used = used.min(depth(&mut || {
                    let _ = T::eval(p, e, &mut out);
                }));
            }
            used
        });
        t.compared += 3;
        let msg = |what: &str, lim: usize| {
            format!(
                "{e:?} {what} (limit {lim}): one axis {base} bytes of stack, {n} axes small grid {small}, large grid and batch {large}: {} / sizes {:?} / sizes {:?} batch {}",
                p.describe(0),
                p.dims,
                q.dims,
                q.npts()
            )
        };
        let top = CONST + PER_DIM * n;
        if small.max(large) > top {
            return Err(msg("uses too much stack", top));
        }
        if small.abs_diff(large) > DATA {
            return Err(msg("uses stack depending on the data", DATA));
        }
        let growth = GROW + GROW_DIM * n;
        if small > base + growth {
            return Err(msg("grows too fast with the number of axes", growth));
        }
        t.label(if small > 4096 { "4-8 KB" } else if small > 2048 { "2-4 KB" } else { "up to 2 KB" });
    }
    t.nontrivial = true;
    Ok(())
}

fn stack_one<T: Uut>(c: &(crate::one::Case1, crate::one::Case1), t: &mut Tally) -> Result<(), String> {
    let p = crate::one::build1::<T>(&c.0);
    let mut c1 = c.1.clone();
    tame(&mut c1.axis, c.0.f32, false);
    let mut q = crate::one::build1::<T>(&c1);
    (q.kind, q.which) = (p.kind, p.which);
    for m in [Mode1::Eval, Mode1::One] {
        let [a, b] = [&p, &q].map(|p| {
            let mut out = vec![T::zero(); p.locs.len()];
            let mut used = usize::MAX;
            for _ in 0..2 {
                used = used.min(depth(&mut || {
                    let _ = T::eval1(p, m, &mut out);
                }));
            }
            used
        });
        t.compared += 2;
        if a.max(b) > 4096 || a.abs_diff(b) > DATA {
            return Err(format!("{m:?} uses {a} and {b} bytes of stack: {} / {} values", crate::one::describe1(&p, 0), q.vals.len()));
        }
    }
    t.nontrivial = true;
    Ok(())
}

pub fn props() -> Vec<Property> {
    let pairs = |th: bool| -> BoxedStrategy<Pair> {
        let o = |max: usize| Opts { ndims: (1, 10), budget: max, work: 4000, bulk: false, extreme: false, ..Opts::default() };
        (1..11usize)
            .prop_flat_map(move |n| {
                let s = Opts { ndims: (n, n), ..o(3000) };
                let l = Opts { ndims: (n, n), ..o(if th { 4_000_000 } else { 60_000 }) };
                (case(&s), case(&l), prop_oneof![8 => 1..20u32, 8 => 20..400u32, 1 => prop::sample::select(vec![1025u32, 4097, 10_000, 65_537])])
            })
            .prop_map(|(mut small, mut large, batch)| {
                let top = match small.method {
                    Method::Linear => 10,
                    Method::Cubic => 8,
                    Method::Nearest => 6,
                };
                let k = small.axes.len().min(large.axes.len()).min(top);
                for c in [&mut small, &mut large] {
                    c.axes.truncate(k);
                    c.pts.iter_mut().for_each(|p| p.truncate(k));
                }
                let cost = footprint(small.method).pow(small.axes.len() as u32) as u32;
                for a in large.axes.iter_mut() {
                    a.n = a.n.max(min_points(small.method));
                }
                Pair { small, large, batch: batch.min(1 + if batch > 400 { 200_000 } else { 30_000 } / cost) }
            })
            .boxed()
    };
    vec![Property {
        id: "C19",
        rule: "generated pairs of problems of the same method, grid kind, scalar type and dimensions (a small one with one to a dozen points; one with a large grid and a long batch), plus the one-dimensional problem made of the first axis; each is evaluated through every entry point with the stack below the call painted, and the deepest overwritten byte is compared with absolute, per-dimension and data-independence limits; every case is non-trivial",
        assumptions: &[
            "measured on optimised builds for x86-64; the measurement includes the harness's own dispatch frame (about 1.5 KB)",
            "limits: 6144 + 512 N bytes in all, at most 768 + 320 N bytes above the same call in one dimension, at most 384 bytes of difference between inputs of the same shape",
        ],
        subs: vec![
            Check::new("paint", 16_000, 400_000, pairs, |c: &Pair, t| typed!(c.small.f32, stack_body(c, t))),
            Check::new("one_dim", 4_000, 40_000, |_| (crate::one::case1(crate::one::ALL1.to_vec(), 5000), crate::one::case1(crate::one::ALL1.to_vec(), 5000)).boxed(), |c: &(crate::one::Case1, crate::one::Case1), t| typed!(c.0.f32, stack_one(c, t))),
        ],
    }]
}
