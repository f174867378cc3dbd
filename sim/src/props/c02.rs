use super::walk::*;
use super::{Prop, Runs};
use crate::hooks::lib;
use crate::plan::{bad, Violation};
use crate::rng::{fold, Rng};
use crate::stats::Stats;
use sgp4::ResonanceState;

pub struct C02;

/// Reference model of the integrator's clock.
fn refuses(st: f64, t: f64) -> bool {
    (st != 0.0 && (st > 0.0) != t.is_sign_positive()) || t.abs() < st.abs()
}
fn advance(st: f64, t: f64) -> f64 {
    // both operations are exact
    let k = t.abs() - t.abs() % 720.0;
    if k <= st.abs() {
        st
    } else {
        k.copysign(t)
    }
}

impl Prop for C02 {
    const ID: &'static str = "C02";
    const RULE: &'static str = "one run = one history of 4-40 requests on up to four states of one propagator, a third of them illegal or misused; non-trivial: at least one refused request or misuse and at least one accepted request on an advanced state; distinct: sequence of (operation, slot, direction, step bucket, outcome)";
    const REAL: &'static str = "all of sgp4 (both builds)";
    const STUB: &'static str = "the caller, driven by the seeded plan; reference model of the integration clock (12 lines)";
    const ASSUMPTIONS: &'static [&'static str] = &[];
    type Plan = Plan;
    fn runs(quick: bool) -> Runs {
        if quick {
            Runs { std: 640_000, libm: 128_000 }
        } else {
            Runs { std: 4_000_000, libm: 800_000 }
        }
    }
    fn gen(r: &mut Rng, _: u64) -> Plan {
        gen(r, 0.85)
    }
    fn exec(p: &Plan, st: &mut Stats) -> Result<(), Violation> {
        let mut constants = match p.sat.build(p.afspc_elements) {
            Ok(Ok(c)) => c,
            Ok(Err(_)) => {
                st.count("initialisation refused");
                return Ok(());
            }
            Err(e) => return bad("init-panic", e.0),
        };
        let other = match p.other.build(false) {
            Ok(Ok(c)) => Some(c),
            _ => None,
        };
        let mut other_state = other.as_ref().and_then(|c| c.initial_state());
        let initial = constants.initial_state();
        let resonant = initial.is_some();
        if let Some(s) = &initial {
            if s.t() != 0.0 {
                return bad("new-state-time", format!("a new state reports {:?}", s.t()));
            }
        }
        let mut slots: [Option<ResonanceState>; SLOTS] = [initial; SLOTS];
        let mut model = [0f64; SLOTS];
        let (mut refused, mut hits) = (0, 0);
        for (i, op) in p.ops.iter().enumerate() {
            match op {
                Op::Go { slot, t, afspc } => {
                    let slot = slot % SLOTS;
                    let before = slots[slot].map(|s| s.t());
                    let saved = slots[slot];
                    let r = {
                        let s = &mut slots[slot];
                        lib(|| shim::propagate_from_state(&constants, t.0, s.as_mut(), *afspc).map(|_| ()))
                    };
                    let after = slots[slot].map(|s| s.t());
                    let key = fold(fold((t.0.abs() / 720.0).log2().max(0.0) as u64, slot as u64), (t.0 < 0.0) as u64 * 4 + r.is_err() as u64);
                    st.shape(key);
                    st.state(fold(key, (model[slot] / 720.0) as i64 as u64));
                    st.observe(after.unwrap_or(-1.0).to_bits());
                    st.observe(r.is_err() as u64);
                    st.sim_minutes += t.0.abs();
                    if !resonant {
                        if r.is_err() {
                            return bad("unexpected-panic", format!("op {i}: t={:?}: a satellite without integration state panicked", t.0));
                        }
                        continue;
                    }
                    let want = refuses(model[slot], t.0);
                    if want != r.is_err() {
                        return bad(
                            if want { "not-refused" } else { "wrongly-refused" },
                            format!("op {i}: state at {before:?}, request t={:?}: expected {}", t.0, if want { "a refusal" } else { "acceptance" }),
                        );
                    }
                    if want {
                        refused += 1;
                        st.count("fault:refused request");
                        if after.map(f64::to_bits) != before.map(f64::to_bits) {
                            return bad("refusal-changed-state", format!("op {i}: refused t={:?} moved the state from {before:?} to {after:?}", t.0));
                        }
                        // the rest of the state is observed through what it predicts next
                        let probe = model[slot] + 100f64.copysign(if model[slot] == 0.0 { 1.0 } else { model[slot] });
                        let mut a = saved;
                        let mut b = slots[slot];
                        let x = lib(|| shim::propagate_from_state(&constants, probe, a.as_mut(), false));
                        let y = lib(|| shim::propagate_from_state(&constants, probe, b.as_mut(), false));
                        if crate::sat::out_of(x) != crate::sat::out_of(y) {
                            return bad("refusal-changed-state", format!("op {i}: after refusing t={:?} the state predicts differently at {probe:?}", t.0));
                        }
                    } else {
                        if model[slot] != 0.0 {
                            hits += 1;
                        }
                        model[slot] = advance(model[slot], t.0);
                        st.count("accepted requests");
                        if after != Some(model[slot]) {
                            return bad("state-time", format!("op {i}: state at {before:?}, accepted t={:?}: reports {after:?}, expected {:?}", t.0, model[slot]));
                        }
                    }
                }
                Op::Save { from, to } => {
                    slots[to % SLOTS] = slots[from % SLOTS];
                    model[to % SLOTS] = model[from % SLOTS];
                    st.shape(100 + (from % SLOTS * SLOTS + to % SLOTS) as u64);
                    st.count("fault:state copy or roll-back");
                }
                Op::Reset { slot } => {
                    slots[slot % SLOTS] = constants.initial_state();
                    model[slot % SLOTS] = 0.0;
                    if let Some(s) = &slots[slot % SLOTS] {
                        if s.t() != 0.0 {
                            return bad("new-state-time", format!("op {i}: a new state reports {:?}", s.t()));
                        }
                    } else if resonant {
                        return bad("state-need-changed", format!("op {i}: initial_state() returned None after Some"));
                    }
                    st.shape(200 + *slot as u64);
                }
                Op::CloneConstants => {
                    constants = constants.clone();
                    st.shape(300);
                }
                Op::Rebuild => {
                    constants = match p.sat.build(p.afspc_elements) {
                        Ok(Ok(c)) => c,
                        _ => return bad("rebuild-failed", format!("op {i}: initialising the same elements again failed")),
                    };
                    st.shape(301);
                }
                Op::Misuse { slot, t } => {
                    let slot = slot % SLOTS;
                    st.shape(302);
                    if resonant {
                        let r = lib(|| shim::propagate_from_state(&constants, t.0, None, false).map(|_| ()));
                        st.count("fault:misuse");
                        refused += 1;
                        if r.is_ok() {
                            return bad("misuse-accepted", format!("op {i}: t={:?}: no state given, none refused", t.0));
                        }
                        if slots[slot].map(|s| s.t()) != Some(model[slot]) {
                            return bad("refusal-changed-state", format!("op {i}: misuse moved an unrelated state"));
                        }
                    } else if let Some(mut foreign) = other_state {
                        let before = foreign.t();
                        let r = lib(|| shim::propagate_from_state(&constants, t.0, Some(&mut foreign), false).map(|_| ()));
                        st.count("fault:misuse");
                        refused += 1;
                        if r.is_ok() {
                            return bad("misuse-accepted", format!("op {i}: t={:?}: a state was accepted where none is needed", t.0));
                        }
                        if foreign.t().to_bits() != before.to_bits() {
                            return bad("refusal-changed-state", format!("op {i}: a refused state moved from {before:?} to {:?}", foreign.t()));
                        }
                        hits += 1;
                    }
                }
                Op::Other { t } => {
                    if let Some(c) = &other {
                        let r = lib(|| shim::propagate_from_state(c, t.0, other_state.as_mut(), false).map(|_| ()));
                        if r.is_err() {
                            other_state = c.initial_state();
                        }
                        st.shape(303);
                    }
                }
                Op::Scratch { t, afspc } => {
                    let r = lib(|| shim::propagate(&constants, t.0, *afspc).map(|_| ()));
                    st.shape(304);
                    if r.is_err() {
                        return bad("unexpected-panic", format!("op {i}: propagate at t={:?} panicked", t.0));
                    }
                }
            }
        }
        st.nontrivial = refused > 0 && hits > 0;
        Ok(())
    }
}
