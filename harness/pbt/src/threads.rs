//! C30: evaluations that run at the same time do not affect each other.
use crate::one::{build1, case1, Case1, ALL1};
use crate::typed;
use crate::uut::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Barrier;
use vcore::drive::*;
use vcore::*;

/// One interpolator shared by several threads.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SharedCase {
    pub case: Case,
    pub par: u8,
    pub rounds: u8,
}

fn shared<T: Uut>(c: &SharedCase, t: &mut Tally) -> Result<(), String> {
    let p = expand::<T>(&c.case);
    let n = p.npts();
    let pairs = [(Entry::Flat, Entry::FlatOne), (Entry::Rec, Entry::RecOne), (Entry::RecWide, Entry::RecWideOne)];
    let es = entries_for(p.method, p.ndims());
    t.label(method_label(p.method));
    t.label(kind_label(p.kind));
    t.label(nd_label(p.ndims()));
    for (a, b) in pairs {
        if !es.contains(&a) {
            continue;
        }
        let (ra, rb) = (run(&p, a)?, run(&p, b)?);
        let mut out = vec![T::of(-7.0e20); n];
        let w = Shared { par: c.par as usize, rounds: c.rounds as usize, want: [&ra, &rb] };
        T::eval_shared(&p, a, &w, &mut out).map_err(|f| format!("{a:?} shared by {} threads {f}: {}", c.par, p.describe(0)))?;
        t.compared += n as u64 * c.rounds as u64;
    }
    t.nontrivial = n > 1 && c.par > 1 && p.vals.iter().any(|v| *v != p.vals[0]);
    Ok(())
}

/// Several problems, each evaluated again and again by several threads.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Crowd {
    pub cases: Vec<Case>,
    pub one: Vec<Case1>,
    /// per thread: the tasks it carries out
    pub plan: Vec<Vec<u16>>,
    pub rounds: u8,
}

type Job = Box<dyn Fn() -> Result<Vec<u64>, String> + Send + Sync>;

fn jobs<T: Uut>(c: &Case) -> Vec<Job> {
    let p = expand::<T>(c);
    let n = p.ndims();
    let mut v: Vec<Job> = vec![];
    for e in entries_for(p.method, n) {
        let p = p.clone();
        v.push(Box::new(move || Ok(run(&p, e)?.iter().map(|x| x.bits()).collect())));
    }
    for path in 0..BOUNDS_PATHS {
        let p = p.clone();
        v.push(Box::new(move || {
            let mut out = vec![false; n];
            T::bounds(&p, path, T::zero(), &mut out).map_err(|f| format!("check_bounds #{path} {f}"))?;
            Ok(out.iter().map(|b| *b as u64).collect())
        }));
    }
    v
}
fn jobs1<T: Uut>(c: &Case1) -> Vec<Job> {
    let p = build1::<T>(c);
    [Mode1::Eval, Mode1::One, Mode1::Alloc]
        .into_iter()
        .map(|m| {
            let p = p.clone();
            Box::new(move || {
                let mut out = vec![T::zero(); p.locs.len()];
                T::eval1(&p, m, &mut out).map_err(|f| format!("{:?} {m:?} {f}", p.which))?;
                Ok(out.iter().map(|x| x.bits()).collect())
            }) as Job
        })
        .collect()
}

fn crowd(c: &Crowd, t: &mut Tally) -> Result<(), String> {
    let all: Vec<(String, Vec<Job>)> = c
        .cases
        .iter()
        .map(|k| (format!("{:?} {:?} in {} dimensions", k.method, k.kind, k.axes.len()), typed!(k.f32, jobs(k))))
        .chain(c.one.iter().map(|k| (format!("1-D {:?} {:?}", k.which, k.kind), typed!(k.f32, jobs1(k)))))
        .collect();
    let tasks: Vec<(&str, usize, &Job, Vec<u64>)> = all
        .iter()
        .flat_map(|(n, js)| js.iter().enumerate().map(move |(i, j)| (n.as_str(), i, j)))
        .map(|(n, i, j)| j().map(|r| (n, i, j, r)))
        .collect::<Result<_, _>>()?;
    let start = Barrier::new(c.plan.len());
    let work = |plan: &[u16]| -> Result<u64, String> {
        start.wait();
        let mut compared = 0;
        for _ in 0..c.rounds {
            for &k in plan {
                let (name, i, job, want) = &tasks[k as usize * tasks.len() >> 16];
                let got = job()?;
                compared += got.len() as u64;
                if got != *want {
                    let at = (0..got.len()).find(|&i| got[i] != want[i]).unwrap_or(0);
                    return Err(format!("{name}, way {i}: point {at} gives another result (bits {:x}, otherwise {:x}) while other threads evaluate", got[at], want[at]));
                }
            }
        }
        Ok(compared)
    };
    let work = &work;
    let res: Vec<Result<u64, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = c.plan.iter().map(|p| s.spawn(move || work(p))).collect();
        hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
    });
    for r in res {
        t.compared += r?;
    }
    t.label_if(c.cases.len() + c.one.len() > 1, "several problems");
    t.label_if(c.cases.iter().any(|k| k.f32) && c.cases.iter().any(|k| !k.f32), "both scalar types");
    t.nontrivial = c.plan.len() > 1 && t.compared > 0;
    Ok(())
}

pub fn props() -> Vec<Property> {
    let o = |th: bool| Opts {
        ndims: (1, 9),
        budget: if th { 50_000 } else { 5_000 },
        bulk: true,
        bulk_max: if th { 3000 } else { 400 },
        work: 20_000,
        ..Opts::default()
    };
    let shared_cases = move |th: bool| -> BoxedStrategy<SharedCase> {
        (case(&o(th)), 2..7u8, prop_oneof![3 => 2..6u8, 1 => 6..if th { 100 } else { 30u8 }])
            .prop_map(|(case, par, rounds)| SharedCase { case, par, rounds })
            .boxed()
    };
    let crowds = move |th: bool| -> BoxedStrategy<Crowd> {
        let oo = Opts { bulk: false, budget: 2000, max_pts: 6, work: 3000, ..o(th) };
        (
            vec(case(&oo), 1..4),
            vec(case1(ALL1.to_vec(), 200), 0..3),
            vec(vec(any::<u16>(), 1..8), 2..7),
            1..if th { 40u8 } else { 12 },
        )
            .prop_map(|(cases, mut one, plan, rounds)| {
                one.iter_mut().for_each(|c| c.bulk = None);
                Crowd { cases, one, plan, rounds }
            })
            .boxed()
    };
    vec![Property {
        id: "C30",
        rule: "shared: one generated interpolator of each struct type is evaluated by 2..6 threads at once, each with its own points, in batches and point by point in turn, 2..30 times (thorough: 100); crowd: 2..6 threads carry out generated sequences of evaluations (any entry point, check_bounds, 1-D interpolators) of one to five generated problems of both scalar types; every result must be bitwise the one of a sequential call; non-trivial: two or more threads, at least one comparison, and (shared) non-constant values",
        assumptions: &["schedules are those the operating system produces, with more threads than processors; they are sampled, not enumerated"],
        subs: vec![
            Check::new("shared", 3_000, 40_000, shared_cases, |c: &SharedCase, t| typed!(c.case.f32, shared(c, t))),
            Check::new("crowd", 2_000, 30_000, crowds, crowd),
        ],
    }]
}
