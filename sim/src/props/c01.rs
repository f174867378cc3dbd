use super::walk::*;
use super::{Prop, Runs};
use crate::hooks::lib;
use crate::plan::{bad, Violation};
use crate::rng::{fold, Rng};
use crate::sat::{out_of, Out};
use crate::stats::Stats;
use sgp4::ResonanceState;

pub struct C01;

fn offset_class(t: f64) -> u64 {
    let r = (t.abs() / 720.0).fract() * 720.0;
    if r == 0.0 {
        0
    } else if r < 0.01 {
        1
    } else if r > 719.99 {
        2
    } else {
        3
    }
}

impl Prop for C01 {
    const ID: &'static str = "C01";
    const RULE: &'static str = "one run = one history of 4-40 requests, state copies, roll-backs, resets, refusals and other-satellite calls on one propagator; non-trivial: at least one accepted request on a state already advanced past the epoch and at least one injected fault (refused request, error result, roll-back, misuse, mode switch); distinct: sequence of (operation, slot, direction, integrator step bucket, offset class, mode, outcome kind)";
    const REAL: &'static str = "all of sgp4 (both builds), initialisation to prediction";
    const STUB: &'static str = "the caller: request times, state handling and faults come from the seeded plan; no other part is simulated";
    const ASSUMPTIONS: &'static [&'static str] = &["the reference is the from-scratch entry point of the same build: errors common to both entry points are not visible here"];
    type Plan = Plan;
    fn runs(quick: bool) -> Runs {
        if quick {
            Runs { std: 300_000, libm: 60_000 }
        } else {
            Runs { std: 3_000_000, libm: 600_000 }
        }
    }
    fn gen(r: &mut Rng, _: u64) -> Plan {
        let mut p = gen(r, 0.9);
        // unusable clock readings
        if r.chance(0.15) {
            let at = r.idx(p.ops.len() + 1);
            let t = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            p.ops.insert(at, Op::Go { slot: r.idx(SLOTS), t: crate::plan::F(t), afspc: r.chance(0.5) });
        }
        p
    }
    fn exec(p: &Plan, st: &mut Stats) -> Result<(), Violation> {
        let mut constants = match p.sat.build(p.afspc_elements) {
            Ok(Ok(c)) => c,
            Ok(Err(_)) => {
                st.count("initialisation refused");
                return Ok(());
            }
            Err(e) => return bad("init-panic", e.0),
        };
        let other = match p.other.build(false) {
            Ok(Ok(c)) => Some(c),
            _ => None,
        };
        let mut other_state = other.as_ref().and_then(|c| c.initial_state());
        let initial = constants.initial_state();
        let resonant = initial.is_some();
        let mut slots: [Option<ResonanceState>; SLOTS] = [initial; SLOTS];
        let mut advanced_hits = 0;
        let mut faults = 0;
        let mut last_mode = None;
        for (i, op) in p.ops.iter().enumerate() {
            match op {
                Op::Go { slot, t, afspc } => {
                    let slot = slot % SLOTS;
                    let before = slots[slot].map(|s| s.t());
                    let got = {
                        let s = &mut slots[slot];
                        out_of(lib(|| shim::propagate_from_state(&constants, t.0, s.as_mut(), *afspc)))
                    };
                    st.observe(got.hash());
                    if let Some(m) = last_mode {
                        if m != *afspc {
                            st.count("fault:mode switch");
                            faults += 1;
                        }
                    }
                    last_mode = Some(*afspc);
                    let kind = match &got {
                        Out::Ok(_) => 0,
                        Out::Err(_) => 1,
                        Out::Panic => 2,
                    };
                    let bucket = (t.0.abs() / 720.0).log2().max(0.0) as u64;
                    let key = fold(fold(fold(bucket, offset_class(t.0)), kind), (t.0 < 0.0) as u64 * 2 + *afspc as u64);
                    st.shape(fold(key, slot as u64));
                    st.state(fold(fold(key, resonant as u64), before.map(|b| (b.abs() / 720.0).log2().max(-1.0) as i64).unwrap_or(-2) as u64));
                    if got == Out::Panic {
                        // whether the refusal is right is decided by C02
                        if !resonant {
                            return bad("unexpected-panic", format!("op {i}: request t={:?} without state panicked", t.0));
                        }
                        st.count("fault:refused request");
                        faults += 1;
                        continue;
                    }
                    let fresh = out_of(lib(|| shim::propagate(&constants, t.0, *afspc)));
                    st.sim_minutes += if t.0.is_finite() { t.0.abs() } else { 0.0 };
                    st.count("requests compared");
                    if fresh != got {
                        return bad(
                            "resumed-differs",
                            format!("op {i}: t={:?} afspc={afspc} state at {before:?}: resumed {} but from scratch {}", t.0, got.show(), fresh.show()),
                        );
                    }
                    if kind == 1 {
                        st.count("fault:error result");
                        faults += 1;
                    }
                    if before.is_some_and(|b| b != 0.0) {
                        advanced_hits += 1;
                        st.count("requests on advanced states");
                    }
                }
                Op::Save { from, to } => {
                    slots[to % SLOTS] = slots[from % SLOTS];
                    st.shape(100 + (from % SLOTS * SLOTS + to % SLOTS) as u64);
                    st.count("fault:state copy or roll-back");
                    faults += 1;
                }
                Op::Reset { slot } => {
                    slots[slot % SLOTS] = match lib(|| constants.initial_state()) {
                        Ok(s) => s,
                        Err(e) => return bad("init-panic", e.0),
                    };
                    st.shape(200 + *slot as u64);
                }
                Op::CloneConstants => {
                    constants = constants.clone();
                    st.shape(300);
                }
                Op::Rebuild => {
                    constants = match p.sat.build(p.afspc_elements) {
                        Ok(Ok(c)) => c,
                        _ => return bad("rebuild-failed", format!("op {i}: initialising the same elements again failed")),
                    };
                    st.shape(301);
                }
                Op::Misuse { slot, t } => {
                    let mut foreign = other_state;
                    let r = if resonant {
                        lib(|| shim::propagate_from_state(&constants, t.0, None, false).map(|_| ()))
                    } else if foreign.is_some() {
                        lib(|| shim::propagate_from_state(&constants, t.0, foreign.as_mut(), false).map(|_| ()))
                    } else {
                        continue;
                    };
                    st.shape(302);
                    if r.is_err() {
                        st.count("fault:misuse");
                        faults += 1;
                    }
                    let _ = slot;
                }
                Op::Other { t } => {
                    if let Some(c) = &other {
                        let r = lib(|| shim::propagate_from_state(c, t.0, other_state.as_mut(), false).map(|_| ()));
                        if r.is_err() {
                            other_state = c.initial_state();
                        }
                        st.shape(303);
                        st.count("other satellite calls");
                    }
                }
                Op::Scratch { t, afspc } => {
                    let mut s = constants.initial_state();
                    let a = out_of(lib(|| shim::propagate_from_state(&constants, t.0, s.as_mut(), *afspc)));
                    let b = out_of(lib(|| shim::propagate(&constants, t.0, *afspc)));
                    st.observe(a.hash());
                    st.shape(304);
                    st.count("requests compared");
                    if a != b {
                        return bad("resumed-differs", format!("op {i}: t={:?} afspc={afspc} new state: {} but from scratch {}", t.0, a.show(), b.show()));
                    }
                }
            }
        }
        st.nontrivial = advanced_hits > 0 && faults > 0;
        Ok(())
    }
}
