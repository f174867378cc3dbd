use super::c05::poison;
use super::c12::silence;
use super::{Prop, Runs};
use crate::child;
use crate::hooks::{denied_count, lib, with_alloc, AllocMode, Panic};
use crate::plan::{bad, Violation, F};
use crate::rng::{fold, fold_bytes, Rng};
use crate::sat::*;
use crate::stats::Stats;
use serde::{Deserialize, Serialize};
use sgp4::{Constants, Elements, MinutesSinceEpoch, Orbit, Prediction, ResonanceState};
use std::fmt::Write;

pub struct C11;

#[derive(Serialize, Deserialize, Clone)]
pub enum Op {
    Init { sat: usize, afspc: bool },
    /// from parts, with a sidereal time function and a geopotential
    New { sat: usize, afspc: bool, wgs72: bool },
    State { sat: usize },
    Scratch { sat: usize, t: F, afspc: bool },
    Session { sat: usize, t: F, afspc: bool },
    ToMinutes { sat: usize, days: i64, ns: i64 },
    ToDate { sat: usize, minutes: F },
    Epoch { sat: usize },
    Copy { sat: usize },
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    sats: Vec<Sat>,
    /// the operation, and whether memory is available while it runs
    ops: Vec<(Op, bool)>,
}

struct Live {
    elements: Elements,
    constants: Option<Constants>,
    state: Option<ResonanceState>,
}

/// One library call; with `deny`, every allocation it makes fails
fn call<T>(deny: bool, f: impl FnOnce() -> T) -> Result<T, Panic> {
    let mode = if deny { AllocMode::Deny } else { AllocMode::Normal };
    // the mode is left before the result of a panic is looked at
    lib(|| with_alloc(mode, f))
}

struct Line {
    text: [u8; 640],
    length: usize,
}
impl std::fmt::Write for Line {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            if let Some(slot) = self.text.get_mut(self.length) {
                *slot = b;
                self.length += 1;
            }
        }
        Ok(())
    }
}

/// The error, with the message it prints into a buffer on the stack
fn error<E: std::fmt::Debug + std::fmt::Display>(deny: bool, e: &E) -> String {
    let mut line = Line { text: [0; 640], length: 0 };
    match call(deny, || write!(line, "{e}").is_ok()) {
        Ok(ok) => format!("error {e:?} {ok} {}", String::from_utf8_lossy(&line.text[..line.length])),
        Err(_) => "panic".into(),
    }
}

fn show<T: std::fmt::Debug, E: std::fmt::Debug + std::fmt::Display>(deny: bool, r: Result<Result<T, E>, Panic>) -> String {
    match r {
        Ok(Ok(v)) => format!("{v:?}"),
        Ok(Err(e)) => error(deny, &e),
        Err(_) => "panic".into(),
    }
}

fn predicted(deny: bool, r: Result<Result<Prediction, sgp4::Error>, Panic>) -> String {
    match r {
        Ok(Err(e)) => error(deny, &e),
        r => out_of(r).show(),
    }
}

/// One operation. With `deny`, every allocation made by the library call fails.
fn run(op: &Op, live: &mut [Live], deny: bool) -> String {
    let n = live.len();
    let known = |c: &Constants| shim::constants_to_value(c).map(|v| v.to_string()).unwrap_or_default();
    match op {
        Op::Init { sat, afspc } => {
            let l = &mut live[sat % n];
            match call(deny, || shim::from_elements_plain(&l.elements, *afspc)) {
                Ok(Ok(c)) => {
                    let s = known(&c);
                    l.constants = Some(c);
                    l.state = None;
                    s
                }
                r => show(deny, r.map(|r| r.map(|_| ()))),
            }
        }
        Op::New { sat, afspc, wgs72 } => {
            let l = &mut live[sat % n];
            let g = if *wgs72 { sgp4::WGS72 } else { sgp4::WGS84 };
            let f: &dyn Fn(f64) -> f64 = if *afspc { &sgp4::afspc_epoch_to_sidereal_time } else { &sgp4::iau_epoch_to_sidereal_time };
            let e = &l.elements;
            let rad = std::f64::consts::PI / 180.0;
            let orbit = call(deny, || {
                Orbit::from_kozai_elements(&g, e.inclination * rad, e.right_ascension * rad, e.eccentricity, e.argument_of_perigee * rad, e.mean_anomaly * rad, e.mean_motion * (std::f64::consts::PI / 720.0))
            });
            let orbit = match orbit {
                Ok(Ok(o)) => o,
                r => return show(deny, r.map(|r| r.map(|_| ()))),
            };
            let epoch = match call(deny, || if *afspc { e.epoch_afspc_compatibility_mode() } else { e.epoch() }) {
                Ok(v) => v,
                Err(_) => return "panic".into(),
            };
            match call(deny, || shim::new_plain(g, f, epoch, e.drag_term, orbit)) {
                Ok(Ok(c)) => {
                    let s = known(&c);
                    l.constants = Some(c);
                    l.state = None;
                    s
                }
                r => show(deny, r.map(|r| r.map(|_| ()))),
            }
        }
        Op::State { sat } => {
            let l = &mut live[sat % n];
            let Some(c) = &l.constants else { return "-".into() };
            match call(deny, || c.initial_state()) {
                Ok(s) => {
                    l.state = s;
                    format!("{:?}", s.map(|s| s.t().to_bits()))
                }
                Err(_) => "panic".into(),
            }
        }
        Op::Scratch { sat, t, afspc } => {
            let Some(c) = &live[sat % n].constants else { return "-".into() };
            predicted(deny, call(deny, || shim::propagate(c, t.0, *afspc)))
        }
        Op::Session { sat, t, afspc } => {
            let l = &mut live[sat % n];
            let Some(c) = &l.constants else { return "-".into() };
            // a refusal would unwind, which needs memory whatever the library does
            if let Some(s) = &l.state {
                if t.0.is_nan() || t.0.abs() < s.t().abs() || (s.t() != 0.0 && (t.0 > 0.0) != (s.t() > 0.0)) {
                    return "-".into();
                }
            } else if !matches!(lib(|| c.initial_state()), Ok(None)) {
                return "-".into();
            }
            let state = &mut l.state;
            let out = predicted(deny, call(deny, || shim::propagate_from_state(c, t.0, state.as_mut(), *afspc)));
            format!("{out} {:?}", l.state.map(|s| s.t().to_bits()))
        }
        Op::ToMinutes { sat, days, ns } => {
            let e = &live[sat % n].elements;
            let d = sgp4::chrono::Duration::days(*days) + sgp4::chrono::Duration::nanoseconds(*ns);
            let Some(at) = e.datetime.checked_add_signed(d) else { return "-".into() };
            show(deny, call(deny, || e.datetime_to_minutes_since_epoch(&at)).map(|r| r.map(|m| m.0.to_bits())))
        }
        Op::ToDate { sat, minutes } => {
            let e = &live[sat % n].elements;
            show(deny, call(deny, || e.minutes_since_epoch_to_datetime(&MinutesSinceEpoch(minutes.0))))
        }
        Op::Epoch { sat } => {
            let e = &live[sat % n].elements;
            match call(deny, || (e.epoch(), e.epoch_afspc_compatibility_mode())) {
                Ok((a, b)) => format!("{:?}", (a.to_bits(), b.to_bits(), sgp4::iau_epoch_to_sidereal_time(a).to_bits(), sgp4::afspc_epoch_to_sidereal_time(b).to_bits())),
                Err(_) => "panic".into(),
            }
        }
        // the caller may copy a propagator and continue with the copy
        Op::Copy { sat } => {
            let l = &mut live[sat % n];
            let Some(c) = &l.constants else { return "-".into() };
            match lib(|| shim::constants_to_bin(c).and_then(|b| shim::constants_from_bin(&b))) {
                Ok(Ok(c)) => l.constants = Some(c),
                _ => return "-".into(),
            }
            "copied".into()
        }
    }
}

fn all(p: &Plan, deny: bool, skip: &[bool]) -> (Vec<String>, u64) {
    let mut live: Vec<Live> = p.sats.iter().map(|s| Live { elements: s.elements(), constants: None, state: None }).collect();
    let denied = denied_count();
    let v = p.ops.iter().zip(skip).map(|((op, available), skip)| if *skip { "panic".into() } else { run(op, &mut live, deny && !available) }).collect();
    (v, denied_count() - denied)
}

/// Which call ends in the abort: each is tried with all others having memory
fn culprit(p: &Plan, skip: &[bool]) -> String {
    for (i, (op, _)) in p.ops.iter().enumerate() {
        if skip[i] || p.ops[i].1 {
            continue;
        }
        let only = Plan { sats: p.sats.clone(), ops: p.ops.iter().enumerate().map(|(k, (o, _))| (o.clone(), k != i)).collect() };
        if matches!(child::run(60, || { silence(); all(&only, true, skip).1 }), Err(child::End::Signal(s)) if s == libc::SIGABRT) {
            return format!("call {i}, {}, ended in the out-of-memory abort without heap memory", serde_json::to_string(op).unwrap_or_default());
        }
    }
    "the calls without heap memory ended in the out-of-memory abort".into()
}

impl Prop for C11 {
    const ID: &'static str = "C11";
    const RULE: &'static str = "one run = 8-60 calls on 1-3 satellites (initialisation, states, propagation, conversions), executed in a fresh process with every allocation of most or all calls failing, and compared with a fresh process that has memory; non-trivial: at least three calls without memory; distinct: sequence of (call kind, outcome kind, memory available)";
    const REAL: &'static str = "all of sgp4 (both builds)";
    const STUB: &'static str = "the heap";
    const ASSUMPTIONS: &'static [&'static str] = &["calls that panic with plentiful memory are left out: unwinding itself needs memory", "the serde and parser entry points are the business of C12"];
    type Plan = Plan;
    fn runs(quick: bool) -> Runs {
        if quick {
            Runs { std: 25_000, libm: 5_000 }
        } else {
            Runs { std: 1_000_000, libm: 200_000 }
        }
    }
    fn gen(r: &mut Rng, _: u64) -> Plan {
        let n = 1 + r.idx(3);
        let sats = (0..n)
            .map(|_| {
                let mut s = if r.chance(0.15) { gen_kind(r, Kind::Wild) } else { gen_any(r) };
                if r.chance(0.15) {
                    poison(r, &mut s);
                }
                s
            })
            .collect();
        // memory is exhausted for good, or comes and goes
        let flaky = if r.chance(0.6) { 0.0 } else { r.uniform(0.1, 0.5) };
        let mut ops = Vec::new();
        let mut t: Vec<f64> = vec![0.0; n];
        let mut dir: Vec<f64> = (0..n).map(|_| if r.chance(0.5) { 1.0 } else { -1.0 }).collect();
        for sat in 0..n {
            ops.push(if r.chance(0.7) { Op::Init { sat, afspc: r.chance(0.4) } } else { Op::New { sat, afspc: r.chance(0.5), wgs72: r.chance(0.5) } });
            ops.push(Op::State { sat });
        }
        let calls = if r.chance(0.01) { 200 + r.below(800) } else { 6 + r.below(50) };
        for _ in 0..calls {
            let sat = r.idx(n);
            let afspc = r.chance(0.5);
            ops.push(match r.weighted(&[2, 1, 2, 8, 10, 3, 3, 2, 1]) {
                0 => Op::Init { sat, afspc },
                1 => Op::New { sat, afspc, wgs72: r.chance(0.5) },
                2 => {
                    t[sat] = 0.0;
                    dir[sat] = if r.chance(0.5) { 1.0 } else { -1.0 };
                    Op::State { sat }
                }
                3 => {
                    let m = match r.below(10) {
                        0 => 0.0,
                        1 => r.log(5.0, 6.0),
                        2 => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
                        _ => r.log(0.0, 4.5),
                    };
                    Op::Scratch { sat, t: F(if r.chance(0.4) { -m } else { m }), afspc }
                }
                4 => {
                    t[sat] += match r.below(5) {
                        0 => 0.0,
                        1 => 720.0,
                        2 => r.log(3.0, 4.5),
                        _ => r.uniform(0.0, 2000.0),
                    };
                    Op::Session { sat, t: F(dir[sat] * t[sat]), afspc }
                }
                5 => match r.below(3) {
                    0 => Op::ToMinutes { sat, days: r.range(-150_000, 150_000), ns: 0 },
                    _ => Op::ToMinutes { sat, days: r.range(-3000, 3000), ns: r.range(-86_400_000_000_000, 86_400_000_000_000) },
                },
                6 => Op::ToDate {
                    sat,
                    minutes: F(match r.below(4) {
                        0 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, 1.6e8, -1.6e8, 1e300]),
                        _ => r.uniform(-1e7, 1e7),
                    }),
                },
                7 => Op::Epoch { sat },
                _ => Op::Copy { sat },
            });
        }
        let ops = ops.into_iter().map(|o| (o, r.chance(flaky))).collect();
        Plan { sats, ops }
    }
    fn exec(p: &Plan, st: &mut Stats) -> Result<(), Violation> {
        if p.sats.is_empty() {
            return Ok(());
        }
        let none = vec![false; p.ops.len()];
        let mut skip = none.clone();
        let mut plenty;
        loop {
            plenty = match child::run(60, || all(p, false, &skip).0) {
                Ok(v) => v,
                Err(e) => return Err(e.violation("with plentiful memory")),
            };
            // what panics is left out, together with its effects
            let now: Vec<bool> = plenty.iter().map(|s| s == "panic").collect();
            if now == skip {
                break;
            }
            st.count("calls that panic with plentiful memory (left out)");
            skip = now;
        }
        let (scarce, denied) = match child::run(60, || {
            silence();
            all(p, true, &skip)
        }) {
            Ok(v) => v,
            Err(child::End::Signal(s)) if s == libc::SIGABRT => return bad("needs-heap", culprit(p, &skip)),
            Err(e) => return Err(e.violation("without heap memory")),
        };
        st.add("fault:denied allocation", denied);
        let mut without = 0;
        for (i, (op, available)) in p.ops.iter().enumerate() {
            let kind = match op {
                Op::Init { .. } => 0,
                Op::New { .. } => 1,
                Op::State { .. } => 2,
                Op::Scratch { .. } => 3,
                Op::Session { .. } => 4,
                Op::ToMinutes { .. } => 5,
                Op::ToDate { .. } => 6,
                Op::Epoch { .. } => 7,
                Op::Copy { .. } => 8,
            };
            let outcome = if plenty[i] == "-" {
                0
            } else if plenty[i] == "panic" {
                1
            } else if plenty[i].starts_with("error") {
                fold_bytes(2, plenty[i].split(['(', '{']).next().unwrap_or("").as_bytes())
            } else {
                3
            };
            st.shape(fold(kind * 2 + *available as u64, outcome));
            st.state(fold(fold(kind, p.sats.first().map_or(0, |s| s.kind as u64)), outcome));
            st.observe(fold_bytes(4, plenty[i].as_bytes()));
            if !available && outcome > 1 {
                without += 1;
                st.count("fault:call without heap memory");
                if outcome != 3 {
                    st.count("errors reported without heap memory");
                }
            }
            if plenty[i] != scarce[i] {
                return bad("differs-without-heap", format!("call {i}: {} instead of {}", scarce[i], plenty[i]));
            }
            if let (Op::Scratch { t, .. } | Op::Session { t, .. }, true) = (op, outcome > 1) {
                if t.0.is_finite() {
                    st.sim_minutes += t.0.abs();
                }
            }
        }
        st.nontrivial = without >= 3;
        Ok(())
    }
}
