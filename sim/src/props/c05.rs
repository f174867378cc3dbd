use super::{Prop, Runs};
use crate::hooks::{lib, lib_budget, Panic};
use crate::plan::{bad, Violation, F};
use crate::rng::{fold, Rng};
use crate::sat::*;
use crate::stats::Stats;
use serde::{Deserialize, Serialize};

pub struct C05;

/// Work is counted in instrumented events (control-flow edges, loads and stores) of the crate under
/// test. The unchanged crate needs at most about 110 for an initialisation, 110 for a
/// propagation and 5 per 720 min (measured, see the maxima in the evidence); the limits leave a
/// factor of twenty and more.
const INIT: u64 = 5_000;
const CALL: u64 = 5_000;
const PER_STEP: u64 = 100;
/// calls whose allowance would exceed this are not made on satellites that integrate
const LONGEST: f64 = 3e7;

#[derive(Serialize, Deserialize, Clone)]
pub enum Op {
    /// request on the shared state
    Go { t: F, afspc: bool },
    /// from-scratch request
    Scratch { t: F, afspc: bool },
    /// the clock gives an invalid reading: requests on the state and from scratch
    Bad { t: F, afspc: bool },
    /// the state is renewed
    Reset,
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    sat: Sat,
    afspc_elements: bool,
    ops: Vec<Op>,
}

pub fn poison(r: &mut Rng, s: &mut Sat) {
    let v = match r.below(9) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => f64::MAX,
        4 => f64::MIN_POSITIVE,
        5 => 1e-310,
        6 => -r.log(-3.0, 3.0),
        7 => r.log(3.0, 300.0),
        _ => 0.0,
    };
    let f = match r.below(7) {
        0 => &mut s.incl,
        1 => &mut s.raan,
        2 => &mut s.ecc,
        3 => &mut s.argp,
        4 => &mut s.ma,
        5 => &mut s.mm,
        _ => &mut s.bstar,
    };
    *f = F(v);
}

fn allowance(t: f64) -> u64 {
    CALL + ((t.abs() / 720.0).min(1e9) * PER_STEP as f64) as u64
}

impl Prop for C05 {
    const ID: &'static str = "C05";
    const RULE: &'static str = "one run = one satellite (valid, extreme or with a poisoned field) and a history of 3-20 requests with invalid clock readings between valid ones, every call metered against A + B*|t|/720 instrumented events; non-trivial: a valid request answered after an invalid reading, or a poisoned or extreme satellite; distinct: (satellite kind and poisoned value class, sequence of operation, direction, magnitude bucket, outcome)";
    const REAL: &'static str = "all of sgp4 (both builds)";
    const STUB: &'static str = "the clock; work meter compiled into the crate under test";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "work outside the crate under test (std, libm, serde) is not metered, only guarded by a wall-clock watchdog",
        "finite times beyond 3e7 min are requested only from satellites that do not integrate",
    ];
    type Plan = Plan;
    fn runs(quick: bool) -> Runs {
        if quick {
            Runs { std: 360_000, libm: 72_000 }
        } else {
            Runs { std: 4_000_000, libm: 800_000 }
        }
    }
    fn gen(r: &mut Rng, _: u64) -> Plan {
        let mut sat = match r.below(6) {
            0 => gen_kind(r, Kind::Wild),
            1 | 2 => gen_any(r),
            _ => gen_resonant(r),
        };
        if r.chance(0.3) {
            for _ in 0..1 + r.below(2) {
                poison(r, &mut sat);
            }
        }
        let mut ops = Vec::new();
        let mut t: f64 = 0.0;
        let mut dir = if r.chance(0.5) { 1.0 } else { -1.0 };
        for _ in 0..3 + r.below(18) {
            let afspc = r.chance(0.5);
            match r.below(10) {
                0..=3 => {
                    t += match r.below(6) {
                        0 => 0.0,
                        1 => 720.0,
                        2 => r.log(-9.0, 0.0),
                        3 => r.log(3.0, 5.0),
                        _ => r.uniform(0.0, 3000.0),
                    };
                    if r.chance(0.05) {
                        t = t.max(r.log(5.0, 6.5));
                    }
                    ops.push(Op::Go { t: F(dir * t), afspc });
                }
                4 | 5 => {
                    let m = match r.below(12) {
                        0 => r.log(6.0, 7.3),
                        1 => r.log(7.0, 300.0),
                        2 => *r.pick(&[0.0, -0.0, f64::MIN_POSITIVE, f64::MAX, 1e-310, 4.5e15, 9.3e18, 1.9e19]),
                        _ => r.log(-6.0, 5.5),
                    };
                    ops.push(Op::Scratch { t: F(if r.chance(0.5) { m } else { -m }), afspc });
                }
                6..=8 => {
                    let v = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN, f64::from_bits(0x7ff0_0000_0000_0001)]);
                    ops.push(Op::Bad { t: F(v), afspc });
                }
                _ => {
                    if r.chance(0.5) {
                        t = 0.0;
                        dir = -dir;
                        ops.push(Op::Reset);
                    }
                }
            }
        }
        Plan { sat, afspc_elements: r.chance(0.3), ops }
    }
    fn exec(p: &Plan, st: &mut Stats) -> Result<(), Violation> {
        let elements = p.sat.elements();
        let (c, used) = lib_budget(INIT, || if p.afspc_elements { shim::from_elements_afspc(&elements) } else { shim::from_elements(&elements) });
        let fields = [p.sat.incl.0, p.sat.raan.0, p.sat.ecc.0, p.sat.argp.0, p.sat.ma.0, p.sat.mm.0, p.sat.bstar.0];
        let poisoned = fields.iter().any(|v| !v.is_finite() || v.abs() > 1e4 || (*v != 0.0 && v.abs() < 1e-100)) || p.sat.kind == Kind::Wild;
        st.shape(fold(p.sat.kind as u64, fields.iter().fold(1, |h, v| fold(h, v.is_nan() as u64 + 2 * v.is_infinite() as u64 + 4 * (*v < 0.0) as u64))));
        st.max("largest work of an initialisation", used);
        if poisoned {
            st.count("fault:extreme or poisoned elements");
        }
        let c = match c {
            Ok(Ok(c)) => c,
            Ok(Err(e)) => {
                st.count("initialisation refused");
                st.observe(crate::rng::fold_bytes(0, e.as_bytes()));
                st.nontrivial = poisoned;
                return Ok(());
            }
            Err(Panic(m)) => return bad("init-panic", format!("initialisation panicked: {m}")),
        };
        let integrates = c.initial_state().is_some();
        let mut state = c.initial_state();
        let mut shadow = c.initial_state();
        let (mut bad_seen, mut after_bad) = (false, 0);
        for (i, op) in p.ops.iter().enumerate() {
            match op {
                Op::Go { t, afspc } => {
                    if !t.0.is_finite() || (integrates && t.0.abs() > LONGEST) {
                        continue;
                    }
                    let (a, used) = lib_budget(allowance(t.0), || shim::propagate_from_state(&c, t.0, state.as_mut(), *afspc));
                    let b = lib(|| shim::propagate_from_state(&c, t.0, shadow.as_mut(), *afspc));
                    let (a, b) = (out_of(a), out_of(b));
                    if t.0.abs() < 720.0 {
                        st.max("largest work of a propagation within 720 min", used);
                    } else {
                        st.max("largest work per 720 min", used.saturating_sub(110) / (t.0.abs() / 720.0) as u64);
                    }
                    st.observe(a.hash());
                    st.shape(fold(1, (t.0.abs() / 720.0).log2().max(0.0) as u64 * 2 + (t.0 < 0.0) as u64));
                    st.sim_minutes += t.0.abs();
                    after_bad += bad_seen as u64;
                    if a != b {
                        return bad("bad-reading-left-trace", format!("op {i}: t={:?}: {} instead of {}", t.0, a.show(), b.show()));
                    }
                    if state.map(|s| s.t().to_bits()) != shadow.map(|s| s.t().to_bits()) {
                        return bad("bad-reading-left-trace", format!("op {i}: t={:?}: the state reports {:?} instead of {:?}", t.0, state.map(|s| s.t()), shadow.map(|s| s.t())));
                    }
                }
                Op::Scratch { t, afspc } => {
                    if !t.0.is_finite() || (integrates && t.0.abs() > LONGEST) {
                        continue;
                    }
                    let (a, used) = lib_budget(allowance(t.0), || shim::propagate(&c, t.0, *afspc));
                    if t.0.abs() < 720.0 {
                        st.max("largest work of a propagation within 720 min", used);
                    } else if t.0.abs() < 1e9 {
                        st.max("largest work per 720 min", used.saturating_sub(110) / (t.0.abs() / 720.0) as u64);
                    }
                    st.observe(out_of(a).hash());
                    st.shape(fold(2, (t.0.abs() / 720.0).log2().max(0.0) as u64 * 2 + (t.0 < 0.0) as u64));
                    if t.0.abs() < 1e9 {
                        st.sim_minutes += t.0.abs();
                    } else {
                        st.count("fault:extreme clock reading");
                    }
                }
                Op::Bad { t, afspc } => {
                    if t.0.is_finite() {
                        continue;
                    }
                    bad_seen = true;
                    st.count(if t.0.is_nan() { "fault:NaN clock reading" } else { "fault:infinite clock reading" });
                    st.shape(fold(3, t.0.is_nan() as u64 + 2 * (t.0 < 0.0) as u64));
                    let before = state.map(|s| s.t().to_bits());
                    for scratch in [false, true] {
                        let (r, _) = lib_budget(CALL, || {
                            if scratch {
                                shim::propagate(&c, t.0, *afspc)
                            } else {
                                shim::propagate_from_state(&c, t.0, state.as_mut(), *afspc)
                            }
                        });
                        let how = if scratch { "from scratch" } else { "from the state" };
                        match r {
                            Ok(Err(_)) => {}
                            Ok(Ok(p)) => return bad("prediction-for-invalid-time", format!("op {i}: t={:?} {how}: returned {p:?}", t.0)),
                            Err(Panic(m)) => return bad("panic-for-invalid-time", format!("op {i}: t={:?} {how}: panicked: {m}", t.0)),
                        }
                    }
                    if state.map(|s| s.t().to_bits()) != before {
                        return bad("bad-reading-left-trace", format!("op {i}: t={:?} moved the state to {:?}", t.0, state.map(|s| s.t())));
                    }
                }
                Op::Reset => {
                    state = c.initial_state();
                    shadow = c.initial_state();
                    st.shape(4);
                }
            }
        }
        st.state(fold(st.shape, 0));
        st.nontrivial = after_bad > 0 || poisoned;
        Ok(())
    }
}
