use super::c04::{clip, show};
use super::{Prop, Runs};
use crate::child;
use crate::hooks::{create_arenas, locate_static_data, profile_start, profile_stop, set_alloc, set_steps, simulate_environment, steps, AllocMode};
use crate::ops::{gen_op, gen_sats, Op, World, WRONG};
use crate::plan::{bad, Violation, F};
use crate::rng::{fold, fold_bytes, Rng};
use crate::sat::Sat;
use crate::sched;
use crate::stats::Stats;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

pub struct C03;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum At {
    /// at this fraction of the operation's steps
    Frac(F),
    /// just before (or after) the n-th access to memory other threads can see
    Hot { n: u64, after: bool },
    Step(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Preempt {
    thread: usize,
    op: usize,
    at: At,
    to: usize,
}

#[derive(Serialize, Deserialize)]
struct Schedule {
    first: usize,
    preempts: Vec<Preempt>,
    /// (thread, n): the n-th wait of the thread returns without a wake-up
    spurious: Vec<(usize, u64)>,
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    sats: Vec<(Sat, bool)>,
    threads: Vec<Vec<Op>>,
    schedules: Vec<Schedule>,
    clock: u64,
}

#[derive(Serialize, Deserialize)]
struct Alone {
    outcome: String,
    steps: u64,
    hot: Vec<u64>,
}

fn alone(sats: &[(Sat, bool)], op: &Op) -> Result<Alone, Violation> {
    child::run(60, || {
        simulate_environment(1_000_000_000_000_000_000, 1);
        let w = World::new(sats, &[op]);
        locate_static_data();
        create_arenas();
        set_steps(0);
        set_alloc(AllocMode::Arena);
        profile_start();
        let outcome = op.run(&w);
        let hot = profile_stop();
        set_alloc(AllocMode::Normal);
        Alone { outcome, steps: steps(), hot }
    })
    .map_err(|e| e.violation(&format!("alone in a fresh process: {}", show(op))))
}

/// Hands references to other threads whether or not the type allows it: whether it does is
/// checked separately (`not_shareable`).
struct Everyone<T>(T);
unsafe impl<T> Send for Everyone<T> {}
unsafe impl<T> Sync for Everyone<T> {}

trait Otherwise {
    const SEND: bool = false;
    const SYNC: bool = false;
}
struct ProbeSend<T>(std::marker::PhantomData<T>);
struct ProbeSync<T>(std::marker::PhantomData<T>);
impl<T> Otherwise for ProbeSend<T> {}
impl<T> Otherwise for ProbeSync<T> {}
impl<T: Send> ProbeSend<T> {
    const SEND: bool = true;
}
impl<T: Sync> ProbeSync<T> {
    const SYNC: bool = true;
}

fn not_shareable() -> Vec<&'static str> {
    let mut v = Vec::new();
    macro_rules! check {
        ($($t:ty),*) => {$(
            if !ProbeSend::<$t>::SEND {
                v.push(concat!(stringify!($t), " cannot be sent to another thread"));
            }
            if !ProbeSync::<$t>::SYNC {
                v.push(concat!(stringify!($t), " cannot be shared between threads"));
            }
        )*};
    }
    check!(sgp4::Constants, sgp4::Elements, sgp4::Orbit, sgp4::Geopotential, sgp4::ResonanceState, sgp4::Prediction, sgp4::Error, sgp4::TleError);
    v
}

#[derive(Serialize, Deserialize)]
struct Together {
    outcomes: Vec<Vec<String>>,
    report: sched::Report,
}

impl Prop for C03 {
    const ID: &'static str = "C03";
    const RULE: &'static str = "one run = 2-4 (now and then 5-8) threads with 1-5 operations each on 1-4 satellites (near-twins, shared propagators and elements), or one in ten a crowd of 4-8 threads in the same call, executed under 4 schedules with 0-32 preemptions at chosen control-flow edges and memory accesses of the crate; non-trivial: at least one preemption in the middle of a library call; distinct: hash of the full sequence of (thread, step, next thread) context switches";
    const REAL: &'static str = "all of sgp4 (both builds), serde and serde_json; std threads, locks and once cells";
    const STUB: &'static str = "the scheduler (one thread runs at a time, the plan decides who), futex waits (cooperative, with spurious wake-ups), clock, random numbers, environment variables, heap (an arena per thread)";
    const ASSUMPTIONS: &'static [&'static str] = &["sequentially consistent memory: reorderings by the processor or compiler beyond program order are not explored", "preemption inside serde, serde_json, chrono and libm is not explored (they share no state)"];
    type Plan = Plan;
    fn runs(quick: bool) -> Runs {
        if quick {
            Runs { std: 9_000, libm: 1_800 }
        } else {
            Runs { std: 400_000, libm: 80_000 }
        }
    }
    fn gen(r: &mut Rng, _: u64) -> Plan {
        let n = 1 + r.idx(4);
        let sats = gen_sats(r, n);
        let count = 2 + r.weighted(&[50, 20, 10, 1, 1, 1, 1]);
        let mut threads: Vec<Vec<Op>> = Vec::new();
        for t in 0..count {
            let mut ops = Vec::new();
            for k in 0..1 + r.idx(5) {
                // the same call as another thread makes, on the same or another satellite
                let twin = if t > 0 && r.chance(0.6) { threads[r.idx(t)].get(k).cloned() } else { None };
                let mut o = twin.unwrap_or_else(|| gen_op(r, n, false));
                if r.chance(0.5) {
                    match &mut o {
                        Op::Prop { sat, .. } | Op::Session { sat, .. } | Op::Build { sat, .. } | Op::New { sat, .. } | Op::Clock { sat, .. } | Op::Back { sat, .. } => *sat = r.idx(n),
                        _ => {}
                    }
                }
                ops.push(o);
            }
            threads.push(ops);
        }
        // a crowd: many threads in the same call, each stopped inside it by the next one
        let crowd = r.chance(0.1);
        if crowd {
            let o = gen_op(r, n, false);
            threads = (0..4 + r.idx(sched::MAX - 3))
                .map(|_| {
                    (0..1 + r.idx(2))
                        .map(|_| {
                            let mut o = o.clone();
                            if let (Op::Prop { sat, .. } | Op::Session { sat, .. } | Op::Build { sat, .. }, true) = (&mut o, r.chance(0.3)) {
                                *sat = r.idx(n);
                            }
                            o
                        })
                        .collect()
                })
                .collect();
        }
        let count = threads.len();
        let schedules = (0..4)
            .map(|_| {
                let m = match r.below(8) {
                    0 => 0,
                    1 => r.idx(25),
                    2 => 4 + r.idx(5),
                    _ => 1 + r.idx(4),
                };
                let first = r.idx(count);
                let chain = if crowd { 1 + r.idx(count) } else { 0 };
                Schedule {
                    first,
                    preempts: (0..chain + m)
                        .map(|k| {
                            let link = k < chain;
                            let thread = if link { (first + k) % count } else { r.idx(count) };
                            Preempt {
                                thread,
                                op: if link { 0 } else { r.idx(threads[thread].len()) },
                                at: match r.below(8) {
                                    0 | 1 => At::Frac(F(r.unit())),
                                    2 => At::Step(r.below(60)),
                                    _ => At::Hot { n: if r.chance(0.6) { r.below(8) } else { r.below(400) }, after: r.chance(0.5) },
                                },
                                to: if link { (thread + 1) % count } else { (thread + 1 + r.idx(count - 1)) % count },
                            }
                        })
                        .collect(),
                    spurious: (0..if r.chance(0.3) { 1 + r.below(3) } else { 0 }).map(|_| (r.idx(count), r.below(3))).collect(),
                }
            })
            .collect();
        Plan { sats, threads, schedules, clock: r.u64() >> 2 }
    }
    fn exec(p: &Plan, st: &mut Stats) -> Result<(), Violation> {
        if let Some(why) = not_shareable().first() {
            return bad("not-shareable", *why);
        }
        if p.threads.is_empty() || p.threads.len() > sched::MAX || p.schedules.is_empty() {
            return Ok(());
        }
        let mut refs: Vec<Vec<Alone>> = Vec::new();
        for t in &p.threads {
            let mut v = Vec::new();
            for o in t {
                let a = alone(&p.sats, o)?;
                if a.outcome.starts_with(WRONG) {
                    return bad("wrong", format!("alone: {} {}", show(o), a.outcome));
                }
                st.count("operations alone in a fresh process");
                st.add("accesses to shared memory seen alone", a.hot.len() as u64);
                v.push(a);
            }
            refs.push(v);
        }
        for (h, schedule) in p.schedules.iter().enumerate() {
            let n = p.threads.len();
            let together: Together = child::run(120, || {
                simulate_environment(p.clock.wrapping_add(h as u64 * 977_777_777_777), p.clock ^ h as u64);
                let all: Vec<&Op> = p.threads.iter().flatten().collect();
                let world: &'static Everyone<World> = Box::leak(Box::new(Everyone(World::new(&p.sats, &all))));
                let results: Arc<Mutex<Vec<Vec<String>>>> = Arc::new(Mutex::new(vec![Vec::new(); n]));
                let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
                for (t, ops) in p.threads.iter().enumerate() {
                    let ops: &'static [Op] = Box::leak(ops.clone().into_boxed_slice());
                    let plans: Vec<&'static [(u64, usize)]> = (0..ops.len())
                        .map(|k| {
                            let a = &refs[t][k];
                            let mut v: Vec<(u64, usize)> = schedule
                                .preempts
                                .iter()
                                .filter(|x| x.thread % n == t && x.op % ops.len() == k)
                                .map(|x| {
                                    let at = match &x.at {
                                        At::Frac(f) => (f.0 * a.steps as f64) as u64,
                                        At::Step(s) => *s,
                                        At::Hot { n, after } if !a.hot.is_empty() => a.hot[(*n % a.hot.len() as u64) as usize] + *after as u64,
                                        At::Hot { n, .. } => crate::rng::mix(*n) % (a.steps + 1),
                                    };
                                    (at, x.to)
                                })
                                .collect();
                            v.sort_by_key(|x| x.0);
                            &*Box::leak(v.into_boxed_slice())
                        })
                        .collect();
                    let results = results.clone();
                    bodies.push(Box::new(move || {
                        // filled without growing: the arena belongs to this thread
                        let mut v = Vec::with_capacity(ops.len());
                        for (op, plan) in ops.iter().zip(plans) {
                            sched::arm(plan);
                            v.push(op.run(&world.0));
                        }
                        sched::arm(&[]);
                        results.lock().unwrap()[t] = v;
                    }));
                }
                let report = sched::run(schedule.first, schedule.spurious.clone(), bodies);
                let outcomes = std::mem::take(&mut *results.lock().unwrap());
                Together { outcomes, report }
            })
            .map_err(|e| e.violation(&format!("schedule {h}")))?;
            st.count("schedules");
            let report = &together.report;
            st.add("context switches", report.switches);
            st.add("fault:preemption inside a library call", report.inside);
            st.add("fault:preemption between library calls", report.preempted - report.inside);
            st.add("lock waits", report.waits);
            st.add("fault:spurious wake-up", report.spurious);
            st.state(report.trace);
            st.shape(report.trace);
            st.observe(report.trace);
            if report.inside > 0 {
                st.nontrivial = true;
            }
            for (t, ops) in p.threads.iter().enumerate() {
                for (k, op) in ops.iter().enumerate() {
                    let g = &together.outcomes[t][k];
                    st.observe(fold_bytes(fold(t as u64, k as u64), g.as_bytes()));
                    if *g != refs[t][k].outcome {
                        return bad(
                            "depends-on-interleaving",
                            format!("schedule {h}, thread {t}, operation {k} {}: {} instead of {} alone", show(op), clip(g), clip(&refs[t][k].outcome)),
                        );
                    }
                }
            }
        }
        Ok(())
    }
}
