use super::{Prop, Runs};
use crate::child;
use crate::hooks::simulate_environment;
use crate::ops::{gen_op, gen_sats, Op, World, WRONG};
use crate::plan::{bad, Violation};
use crate::rng::{fold, fold_bytes, Rng};
use crate::sat::Sat;
use crate::stats::Stats;
use serde::{Deserialize, Serialize};

pub struct C04;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    sats: Vec<(Sat, bool)>,
    ops: Vec<Op>,
    /// orders in which the operations are performed, each in a process of its own
    histories: Vec<Vec<usize>>,
    clock: u64,
}

/// The outcome of an operation alone in a fresh process
pub fn pristine(sats: &[(Sat, bool)], op: &Op) -> Result<String, Violation> {
    child::run(60, || {
        simulate_environment(1_000_000_000_000_000_000, 1);
        let w = World::new(sats, &[op]);
        op.run(&w)
    })
    .map_err(|e| e.violation(&format!("first call in a fresh process: {}", show(op))))
}

pub fn show(op: &Op) -> String {
    let mut s = serde_json::to_string(op).unwrap_or_default();
    if s.len() > 500 {
        let mut k = 500;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
    }
    s
}

pub fn clip(s: &str) -> String {
    s.chars().take(400).collect()
}

impl Prop for C04 {
    const ID: &'static str = "C04";
    const RULE: &'static str = "one run = 6-16 operations on 2-5 satellites (near-twins included), each executed alone in a fresh process and then in 3 random histories of 10-60 operations with rejected inputs, failing and panicking streams, refused requests, panicking and re-entering sidereal time functions; non-trivial: a history contains at least one failure, panic or re-entrant call followed by a successful operation; distinct: sequence of (operation kind, failed or not)";
    const REAL: &'static str = "all of sgp4 (both builds), serde and serde_json";
    const STUB: &'static str = "clock, random numbers and heap of the process (seeded, different between the fresh process and the history); the sidereal time functions and byte streams";
    const ASSUMPTIONS: &'static [&'static str] = &["the fresh process is a fork of a process that has not called the library"];
    type Plan = Plan;
    fn runs(quick: bool) -> Runs {
        if quick {
            Runs { std: 6_000, libm: 1_200 }
        } else {
            Runs { std: 400_000, libm: 80_000 }
        }
    }
    fn gen(r: &mut Rng, _: u64) -> Plan {
        let n = 2 + r.idx(4);
        let sats = gen_sats(r, n);
        let k = 6 + r.idx(11);
        let mut ops: Vec<Op> = (0..k).map(|_| gen_op(r, n, true)).collect();
        // the same call for another satellite
        for _ in 0..r.below(4) {
            let mut o = r.pick(&ops).clone();
            match &mut o {
                Op::Prop { sat, .. } | Op::Session { sat, .. } | Op::Build { sat, .. } | Op::New { sat, .. } | Op::Clock { sat, .. } | Op::Back { sat, .. } => *sat = r.idx(n),
                _ => {}
            }
            ops.push(o);
        }
        let histories = (0..3)
            .map(|_| {
                let long = r.chance(0.03);
                let n = if long { 300 + r.idx(700) } else { 10 + r.idx(51) };
                let mut h = Vec::new();
                while h.len() < n {
                    let i = r.idx(ops.len());
                    // bursts of one call, for what only repetition brings out
                    let times = if r.chance(0.1) { 1 + r.idx(if long { 100 } else { 8 }) } else { 1 };
                    h.extend(std::iter::repeat(i).take(times));
                }
                h
            })
            .collect();
        Plan { sats, ops, histories, clock: r.u64() >> 2 }
    }
    fn exec(p: &Plan, st: &mut Stats) -> Result<(), Violation> {
        if p.ops.is_empty() {
            return Ok(());
        }
        let mut want: Vec<Option<String>> = vec![None; p.ops.len()];
        for (h, history) in p.histories.iter().enumerate() {
            for i in history {
                let i = i % p.ops.len();
                if want[i].is_none() {
                    want[i] = Some(pristine(&p.sats, &p.ops[i])?);
                    st.count("operations alone in a fresh process");
                }
            }
            let got: Vec<String> = child::run(120, || {
                simulate_environment(p.clock.wrapping_add(h as u64 * 977_777_777_777), p.clock ^ h as u64);
                let all: Vec<&Op> = p.ops.iter().collect();
                let w = World::new(&p.sats, &all);
                history.iter().map(|i| p.ops[i % p.ops.len()].run(&w)).collect()
            })
            .map_err(|e| e.violation(&format!("history {h} {history:?}")))?;
            st.count("histories");
            let mut failures = 0;
            for (k, (i, g)) in history.iter().zip(&got).enumerate() {
                let op = &p.ops[i % p.ops.len()];
                let w = want[i % p.ops.len()].as_ref().unwrap();
                let failed = g.contains("panic:") || g.contains("Err(") || g.contains("[nested") || g.starts_with("OutOfRange");
                st.shape(fold(op.kind(), failed as u64));
                st.observe(fold_bytes(k as u64, g.as_bytes()));
                if k > 0 {
                    st.state(fold(p.ops[history[k - 1] % p.ops.len()].kind() * 64 + op.kind(), failed as u64));
                }
                if g.contains("panic: callback") {
                    st.count("fault:panicking sidereal time function");
                } else if g.contains("panic: stream") {
                    st.count("fault:panicking stream");
                } else if g.contains("panic:") {
                    st.count("fault:refused request or misuse");
                } else if g.contains("[nested") || g.contains("[parsed") || g.contains("[refused") {
                    st.count("fault:re-entrant call");
                } else if g.contains("Err(") {
                    st.count("fault:rejected input");
                }
                if failed {
                    failures += 1;
                } else if failures > 0 {
                    st.nontrivial = true;
                }
                if g.starts_with(WRONG) {
                    return bad("wrong", format!("history {h}, operation {k} {}: {g}", show(op)));
                }
                if g != w {
                    return bad("depends-on-history", format!("history {h}, operation {k} {}: {} instead of {} in a fresh process", show(op), clip(g), clip(w)));
                }
            }
        }
        Ok(())
    }
}
