use super::{Prop, Runs};
use crate::hooks::lib;
use crate::plan::{bad, Violation, F};
use crate::rng::{fold, Rng};
use crate::sat::*;
use crate::stats::Stats;
use crate::tle::{days_from_civil, naive_ns};
use serde::{Deserialize, Serialize};
use sgp4::chrono::{DateTime, NaiveDateTime};
use sgp4::{Elements, MinutesSinceEpoch};

pub struct C13;

/// A reading of the simulated clock: seconds and nanoseconds since 1970
#[derive(Serialize, Deserialize, Clone, Copy)]
pub struct Reading(i64, u32);

#[derive(Serialize, Deserialize, Clone)]
pub enum Event {
    /// the clock advances, jumps or stalls
    Move { s: i64, ns: i64 },
    /// the clock is set
    Set(Reading),
    /// the clock advances at another rate (parts per million)
    Skew { s: i64, ppm: i64 },
    /// the tracker changes direction of its clock-driven search: it starts again from its epoch
    Epoch,
    /// minutes come from elsewhere (another program, a damaged message)
    Minutes(F),
    /// a new element set with this epoch
    Renew(Reading),
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    sat: Sat,
    epoch: Reading,
    afspc: bool,
    events: Vec<Event>,
}

const SECOND: i128 = 1_000_000_000;
const DAY: i128 = 86_400 * SECOND;

impl Reading {
    fn ns(self) -> i128 {
        self.0 as i128 * SECOND + self.1 as i128
    }
    fn date(self) -> Option<NaiveDateTime> {
        // leap seconds are not represented
        DateTime::from_timestamp(self.0, self.1 % 1_000_000_000).map(|d| d.naive_utc())
    }
    fn of(ns: i128) -> Reading {
        let s = ns.div_euclid(SECOND).clamp(i64::MIN as i128, i64::MAX as i128);
        Reading(s as i64, ns.rem_euclid(SECOND) as u32)
    }
}

fn limits() -> (i128, i128) {
    (naive_ns(&NaiveDateTime::MIN), naive_ns(&NaiveDateTime::MAX))
}

/// m * 60e9 exactly, scaled by 2^k: (value, k); None if not finite
fn scaled(m: f64) -> Option<(i128, u32)> {
    if !m.is_finite() {
        return None;
    }
    if m == 0.0 {
        return Some((0, 0));
    }
    let bits = m.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    let mantissa = (bits & ((1 << 52) - 1)) as i128 | if e == 0 { 0 } else { 1 << 52 };
    let exponent = e.max(1) - 1075;
    let v = mantissa * 60_000_000_000 * if m < 0.0 { -1 } else { 1 };
    if exponent >= 0 {
        // beyond any representable date
        let shift = exponent.min(35) as u32;
        Some((v.saturating_mul(1i128 << shift), 0))
    } else {
        Some((v, (-exponent) as u32))
    }
}

/// Exact nanoseconds of `m` minutes, rounded down and up
fn ns_of(m: f64) -> Option<(i128, i128)> {
    let (v, k) = scaled(m)?;
    if k == 0 {
        return Some((v, v));
    }
    if k >= 126 {
        return Some(if v < 0 { (-1, 0) } else { (0, 1) });
    }
    let lo = v >> k;
    Some((lo, if (lo << k) == v { lo } else { lo + 1 }))
}

/// |v / 2^k - n|, to double precision
fn distance(v: i128, k: u32, n: i128) -> f64 {
    if k >= 126 {
        return n.unsigned_abs() as f64;
    }
    let whole = v >> k;
    let rest = (v - (whole << k)) as f64 / 2f64.powi(k as i32);
    ((whole - n) as f64 + rest).abs()
}

fn ulp(v: f64) -> f64 {
    let a = v.abs();
    f64::from_bits(a.to_bits() + 1) - a
}

struct World<'a> {
    p: &'a Plan,
    elements: Elements,
    epoch: i128,
    now: i128,
}

impl World<'_> {
    /// The reading as minutes since epoch, checked
    fn minutes(&self, st: &mut Stats) -> Result<Option<f64>, Violation> {
        let Some(d) = Reading::of(self.now).date() else { return Ok(None) };
        let exact = self.now - self.epoch;
        let r = match lib(|| self.elements.datetime_to_minutes_since_epoch(&d)) {
            Ok(r) => r,
            Err(p) => return bad("panic", format!("minutes of {d:?} since {:?}: {}", self.elements.datetime, p.0)),
        };
        let fits = exact >= i64::MIN as i128 && exact <= i64::MAX as i128;
        st.state(fold(fits as u64, (exact.unsigned_abs().checked_ilog2().map_or(0, |v| v + 1) as u64) * 2 + (exact < 0) as u64));
        match r {
            Ok(m) => {
                // both roundings of an exact quotient, doubled
                let want = exact as f64 / 60e9;
                st.observe(m.0.to_bits());
                if !((m.0 - want).abs() <= 2.0 * ulp(want) && (m.0 == 0.0) == (exact == 0)) {
                    return bad("wrong-minutes", format!("{d:?} is {exact} ns after {:?}: {:?} min instead of {want:?}", self.elements.datetime, m.0));
                }
                st.count("readings converted");
                Ok(Some(m.0))
            }
            Err(_) if fits => bad("minutes-refused", format!("{d:?} is {exact} ns after {:?}", self.elements.datetime)),
            Err(e) => {
                // the report itself must be usable
                let t = match lib(|| e.to_string()) {
                    Ok(t) => t,
                    Err(p) => return bad("panic", format!("error report: {}", p.0)),
                };
                st.observe(t.len() as u64);
                st.count("fault:unrepresentable difference");
                Ok(None)
            }
        }
    }

    /// Minutes as a date, checked
    fn date(&self, m: f64, st: &mut Stats) -> Result<Option<i128>, Violation> {
        let r = match lib(|| self.elements.minutes_since_epoch_to_datetime(&MinutesSinceEpoch(m))) {
            Ok(r) => r,
            Err(p) => return bad("panic", format!("{m:?} min after {:?}: {}", self.elements.datetime, p.0)),
        };
        let (first, last) = limits();
        let Some((lo, hi)) = ns_of(m) else {
            return match r {
                Ok(d) => bad("not-a-time-accepted", format!("{m:?} min after {:?} became {d:?}", self.elements.datetime)),
                Err(e) => {
                    st.count("fault:not a number of minutes");
                    st.observe(e.to_string().len() as u64);
                    Ok(None)
                }
            };
        };
        // the product m * 60e9 is rounded to a double, then to the nearest nanosecond
        let resolution = 1.5 * ulp(m.abs() * 60e9);
        let slack = 1 + resolution as i128;
        match r {
            Ok(d) => {
                let got = naive_ns(&d);
                st.observe(got as u64);
                let (v, k) = scaled(m).unwrap_or((0, 0));
                let error = distance(v, k, got - self.epoch);
                if got < self.epoch + lo - slack || got > self.epoch + hi + slack || error > 0.5 + 1e-6 + resolution {
                    return bad("wrong-date", format!("{m:?} min after {:?} became {d:?}", self.elements.datetime));
                }
                st.count("minutes converted");
                Ok(Some(got))
            }
            Err(e) => {
                let fits = lo > i64::MIN as i128 + slack && hi < i64::MAX as i128 - slack && self.epoch + lo - slack >= first && self.epoch + hi + slack <= last;
                if fits {
                    return bad("date-refused", format!("{m:?} min after {:?}: {e}", self.elements.datetime));
                }
                st.observe(e.to_string().len() as u64);
                st.count("fault:unrepresentable date");
                Ok(None)
            }
        }
    }

    /// Years since J2000 of the current reading
    fn years(&self, st: &mut Stats) -> Result<(), Violation> {
        let first = days_from_civil(1901, 1, 1) as i128 * DAY;
        let last = days_from_civil(2100, 1, 1) as i128 * DAY;
        if self.now < first || self.now >= last {
            return Ok(());
        }
        let Some(d) = Reading::of(self.now).date() else { return Ok(()) };
        let e = Elements { datetime: d, ..self.elements.clone() };
        let want = (self.now - days_from_civil(2000, 1, 1) as i128 * DAY - DAY / 2) as f64 / (365.25 * DAY as f64);
        for (name, r, tolerance) in [
            ("epoch", lib(|| (e.epoch(), sgp4::julian_years_since_j2000(&d))), 8.0 * ulp(want.abs().max(1.0 / 365.25))),
            ("epoch_afspc_compatibility_mode", lib(|| (e.epoch_afspc_compatibility_mode(), sgp4::julian_years_since_j2000_afspc_compatibility_mode(&d))), 4e-12),
        ] {
            match r {
                Ok((a, b)) => {
                    st.observe(a.to_bits());
                    st.max("largest error of years since J2000 (1e-16)", ((a - want).abs() * 1e16) as u64);
                    st.max("largest error of years since J2000 (percent of the tolerance)", ((a - want).abs() / tolerance * 100.0) as u64);
                    if !((a - want).abs() <= tolerance && (b - want).abs() <= tolerance) {
                        return bad("wrong-years", format!("{name} of {d:?}: {a:?} and {b:?} instead of {want:?}"));
                    }
                }
                Err(p) => return bad("panic", format!("{name} of {d:?}: {}", p.0)),
            }
        }
        st.count("years since J2000");
        Ok(())
    }
}

impl Prop for C13 {
    const ID: &'static str = "C13";
    const RULE: &'static str = "one run = one satellite tracked over 4-40 readings of a simulated clock with jumps in both directions, stalls, skew and out-of-range values; every conversion is checked in exact integer arithmetic; non-trivial: a jump back, or an unrepresentable value, or a renewed state; distinct: sequence of (event kind, direction and magnitude of the difference, outcome)";
    const REAL: &'static str = "date conversions and all of the propagation of sgp4 (both builds); chrono";
    const STUB: &'static str = "the clock";
    const ASSUMPTIONS: &'static [&'static str] = &["readings inside a leap second are not generated (the library does not take leap seconds into account)"];
    type Plan = Plan;
    fn runs(quick: bool) -> Runs {
        if quick {
            Runs { std: 900_000, libm: 180_000 }
        } else {
            Runs { std: 15_000_000, libm: 3_000_000 }
        }
    }
    fn gen(r: &mut Rng, _: u64) -> Plan {
        let sat = gen_any(r);
        let (first, last) = limits();
        let any = |r: &mut Rng| {
            Reading::of(match r.below(12) {
                0 => first + r.below(1 << 40) as i128,
                1 => last - r.below(1 << 40) as i128,
                2 => first + ((last - first) / 1000) * r.below(1000) as i128,
                3 => days_from_civil(1900 + r.range(0, 201), 1, 1) as i128 * DAY + *r.pick(&[-1i128, 0, 1, DAY / 2, DAY - 1]),
                4 => days_from_civil(*r.pick(&[2000, 2004, 1900, 2100, 2024, 1972]), *r.pick(&[2, 3]), *r.pick(&[28, 29, 1])) as i128 * DAY + r.below(DAY as u64) as i128,
                5 => *r.pick(&[0i128, -1, 1, 946_728_000 * SECOND, i64::MAX as i128, i64::MIN as i128]),
                _ => NS_1957 as i128 + r.below((NS_2057 - NS_1957) as u64) as i128,
            })
        };
        let epoch = if r.chance(0.7) { Reading::of(sat.epoch as i128) } else { any(r) };
        let mut events = Vec::new();
        for _ in 0..4 + r.below(37) {
            events.push(match r.weighted(&[10, 2, 2, 1, 3, 1]) {
                0 => {
                    let back = r.chance(0.3);
                    let (s, ns) = match r.below(8) {
                        0 => (0, 0),
                        1 => (0, r.range(0, 1_000_000_000)),
                        2 => (r.range(0, 100), r.range(0, 1_000_000_000)),
                        3 => (720 * 60 * r.range(0, 5), 0),
                        4 => (86_400 * r.range(0, 400), 0),
                        5 => (86_400 * 365 * r.range(0, 300), r.range(0, 1_000_000_000)),
                        _ => (r.range(0, 500_000), r.range(0, 1_000_000_000)),
                    };
                    if back {
                        Event::Move { s: -s, ns: -ns }
                    } else {
                        Event::Move { s, ns }
                    }
                }
                1 => match r.below(3) {
                    0 => Event::Set(any(r)),
                    // the ends of the representable differences
                    1 => Event::Set(Reading::of(epoch.ns() + if r.chance(0.5) { i64::MAX as i128 + r.range(-3, 3) as i128 } else { i64::MIN as i128 + r.range(-3, 3) as i128 })),
                    _ => Event::Set(Reading::of(epoch.ns() + r.range(-100_000, 100_000) as i128 * SECOND)),
                },
                2 => Event::Skew { s: r.range(0, 200_000), ppm: r.range(-200_000, 200_000) },
                3 => Event::Epoch,
                4 => {
                    let m = match r.below(9) {
                        0 => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN]),
                        1 => *r.pick(&[0.0, f64::MIN_POSITIVE, 1e-310, f64::MAX, 1.5e-11]),
                        2 => (9_223_372_036_854_775_808.0 / 60e9) * (1.0 + r.range(-4, 4) as f64 * f64::EPSILON),
                        3 => r.log(-12.0, 20.0),
                        4 => r.below(200_000_000) as f64,
                        5 => r.below(1 << 40) as f64 / 60e9,
                        _ => r.log(0.0, 8.3),
                    };
                    Event::Minutes(F(if r.chance(0.5) { -m } else { m }))
                }
                _ => Event::Renew(any(r)),
            });
        }
        Plan { sat, epoch, afspc: r.chance(0.4), events }
    }
    fn exec(p: &Plan, st: &mut Stats) -> Result<(), Violation> {
        let Some(d) = p.epoch.date() else { return Ok(()) };
        let mut w = World { p, elements: Elements { datetime: d, ..p.sat.elements() }, epoch: p.epoch.ns(), now: p.epoch.ns() };
        let build = |e: &Elements| lib(|| if p.afspc { shim::from_elements_afspc(e) } else { shim::from_elements(e) });
        let mut constants = match build(&w.elements) {
            Ok(Ok(c)) => Some(c),
            Ok(Err(_)) => None,
            Err(e) => return bad("panic", format!("initialisation: {}", e.0)),
        };
        let mut state = constants.as_ref().and_then(|c| c.initial_state());
        let mut furthest = w.now;
        let (first, last) = limits();
        for e in &p.events {
            let before = w.now;
            let kind = match e {
                Event::Move { s, ns } => {
                    w.now += *s as i128 * SECOND + *ns as i128;
                    0
                }
                Event::Set(r) => {
                    w.now = r.ns();
                    1
                }
                Event::Skew { s, ppm } => {
                    w.now += *s as i128 * SECOND * (1_000_000 + *ppm as i128) / 1_000_000;
                    st.count("fault:clock skew");
                    2
                }
                Event::Epoch => {
                    w.now = w.epoch;
                    3
                }
                Event::Minutes(m) => {
                    if let Some(got) = w.date(m.0, st)? {
                        // and back, to within the resolution of both
                        let held = w.now;
                        w.now = got;
                        w.minutes(st)?;
                        w.now = held;
                    } else {
                        st.nontrivial = true;
                    }
                    4
                }
                Event::Renew(r) => {
                    if let Some(d) = r.date() {
                        w.elements.datetime = d;
                        w.epoch = r.ns();
                        constants = match build(&w.elements) {
                            Ok(Ok(c)) => Some(c),
                            Ok(Err(_)) => None,
                            Err(e) => return bad("panic", format!("initialisation for {d:?}: {}", e.0)),
                        };
                        state = constants.as_ref().and_then(|c| c.initial_state());
                    }
                    5
                }
            };
            w.now = w.now.clamp(first, last);
            if w.now < before {
                st.count("fault:clock jumps back");
                st.nontrivial = true;
            } else if w.now - before > 100 * DAY {
                st.count("fault:clock jumps forward");
            } else if w.now == before && kind == 0 {
                st.count("fault:clock stalls");
            }
            furthest = furthest.max(w.now);
            let m = w.minutes(st)?;
            let magnitude = (w.now - w.epoch).unsigned_abs().checked_ilog2().unwrap_or(0) as u64 / 4;
            st.shape(fold(kind * 64 + magnitude, (w.now < w.epoch) as u64 * 2 + m.is_some() as u64));
            w.years(st)?;
            let Some(m) = m else {
                st.nontrivial = true;
                continue;
            };
            let back = w.date(m, st)?;
            if let Some(got) = back {
                let slack = (0.5 + 1e-6 + 3.0 * ulp(m) * 60e9) as i128;
                if (got - w.now).abs() > slack {
                    return bad("round-trip", format!("{:?} became {m:?} min, then {:?}", Reading::of(w.now).date(), Reading::of(got).date()));
                }
            } else if w.epoch + i64::MAX as i128 > w.now + SECOND && w.now > w.epoch + i64::MIN as i128 + SECOND && w.now > first + SECOND && w.now < last - SECOND {
                return bad("round-trip", format!("{:?} became {m:?} min, which is refused", Reading::of(w.now).date()));
            }
            // the tracker
            let Some(c) = &constants else { continue };
            if m.abs() > 3e5 && state.is_some() {
                continue;
            }
            st.sim_minutes += (w.now - before).unsigned_abs() as f64 / 60e9;
            let scratch = out_of(lib(|| shim::propagate(c, m, w.p.afspc)));
            let mut got = out_of(lib(|| shim::propagate_from_state(c, m, state.as_mut(), w.p.afspc)));
            if got == Out::Panic && state.is_some() {
                st.count("states renewed after a refusal");
                st.nontrivial = true;
                state = c.initial_state();
                got = out_of(lib(|| shim::propagate_from_state(c, m, state.as_mut(), w.p.afspc)));
            }
            st.observe(got.hash());
            if got != scratch || scratch == Out::Panic {
                return bad("tracker-differs", format!("at {m:?} min: {} instead of {}", got.show(), scratch.show()));
            }
            st.count("readings tracked");
        }
        Ok(())
    }
}
