//! Histories of propagation requests on reusable integration states (shared by C01 and C02).
use crate::plan::F;
use crate::rng::Rng;
use crate::sat::{gen_any, gen_kind, gen_resonant, Kind, Sat};
use serde::{Deserialize, Serialize};

pub const SLOTS: usize = 4;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// propagate with the state in a slot
    Go { slot: usize, t: F, afspc: bool },
    /// keep a copy of a state / roll back to it
    Save { from: usize, to: usize },
    /// fresh state
    Reset { slot: usize },
    /// the propagator is replaced by a clone of itself
    CloneConstants,
    /// the propagator is initialised again from the elements
    Rebuild,
    /// a state where none is wanted, or none where one is wanted
    Misuse { slot: usize, t: F },
    /// a request on another satellite and its own state in between
    Other { t: F },
    /// the pending sequence is run backwards from the epoch with a fresh state at the same time
    Scratch { t: F, afspc: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub sat: Sat,
    pub other: Sat,
    pub afspc_elements: bool,
    pub ops: Vec<Op>,
}

/// A time a request could be made for, given where the slot is and where it was heading.
pub fn next_time(r: &mut Rng, last: f64, sign: f64) -> f64 {
    let a = last.abs();
    let base = (a / 720.0).floor() * 720.0;
    let t = match r.weighted(&[3, 4, 5, 5, 4, 3, 2, 2, 1, 3, 2, 1]) {
        0 => a,
        1 => a + *r.pick(&[1e-6, 1e-3, 0.5, 1.0, 59.0]),
        2 => a + r.uniform(0.0, 1500.0),
        3 => base + 720.0 * r.range(0, 3) as f64,
        4 => base + 720.0 * r.range(0, 4) as f64 + *r.pick(&[-1e-6, 1e-6, -1e-3, 1e-3, -0.5, 0.5, 719.5]),
        5 => a + r.uniform(0.0, 20_000.0),
        6 => base + 720.0 * r.range(1, 200) as f64,
        7 => r.uniform(0.0, 1440.0),
        // round times, as callers ask for them
        9 => base + 720.0 * r.range(0, 3) as f64 + *r.pick(&[1.0, 5.0, 10.0, 15.0, 30.0]) * r.range(0, 72) as f64,
        10 => {
            let m = base + 720.0 * r.range(1, 4) as f64;
            *r.pick(&[m.next_down(), m.next_up(), m - 1e-9, m + 1e-9, m - 1e-11, m + 1e-11])
        }
        11 => *r.pick(&[a.next_up(), a + 1e-9, a + 1e-12, f64::MIN_POSITIVE, 5e-324, 1e-30]),
        _ if r.chance(0.05) => a + r.uniform(0.0, 2e7),
        _ => a + r.uniform(0.0, 400_000.0),
    };
    let t = if t < 0.0 { 0.0 } else { t };
    sign * t
}

pub fn gen(r: &mut Rng, resonant_bias: f64) -> Plan {
    let sat = if r.chance(resonant_bias) { gen_resonant(r) } else { gen_any(r) };
    let other = if r.chance(0.6) { gen_resonant(r) } else { gen_kind(r, Kind::Near) };
    // now and then a state that serves many requests
    let long = r.chance(0.003);
    let n = if long { 300 + r.idx(700) } else { 4 + r.idx(36) };
    let mut last = [0f64; SLOTS];
    let mut sign = [1f64; SLOTS];
    for s in sign.iter_mut() {
        if r.chance(0.45) {
            *s = -1.0;
        }
    }
    let slots = if long { 1 } else { 1 + r.idx(SLOTS) };
    let flip = *r.pick(&[0.0, 0.1, 0.5]);
    let calm = r.chance(0.3);
    let mut afspc = r.chance(0.5);
    let mut ops = Vec::new();
    for _ in 0..n {
        let slot = r.idx(slots);
        if r.chance(flip) {
            afspc = !afspc;
        }
        ops.push(match r.weighted(if long { &[60, 0, 0, 0, 0, 0, 0, 0] } else if calm { &[60, 2, 2, 0, 0, 0, 0, 2] } else { &[60, 8, 5, 2, 2, 5, 4, 4] }) {
            0 => {
                // now and then a request in the wrong direction or behind the state
                let t = if r.chance(0.12) {
                    match r.below(8) {
                        0 => -last[slot],
                        1 => last[slot] * r.unit(),
                        2 => 0.0,
                        3 => -0.0,
                        4 => -sign[slot] * r.uniform(0.0, 3000.0),
                        5 => -sign[slot] * *r.pick(&[5e-324, f64::MIN_POSITIVE, 1e-30, 1e-9]),
                        6 => {
                            // a hair before the state
                            let base = last[slot].abs() - last[slot].abs() % 720.0;
                            sign[slot] * (*r.pick(&[base.next_down(), base - 1e-12, base - 1e-10, base - 1e-9])).max(0.0)
                        }
                        _ => {
                            let base = (last[slot].abs() / 720.0).floor() * 720.0;
                            sign[slot] * (base - *r.pick(&[1e-6, 1e-3, 1.0, 720.0])).max(0.0)
                        }
                    }
                } else {
                    let t = if long { last[slot] + sign[slot] * r.uniform(0.0, 800.0) } else { next_time(r, last[slot], sign[slot]) };
                    last[slot] = t;
                    t
                };
                Op::Go { slot, t: F(t), afspc }
            }
            1 => {
                let to = r.idx(slots);
                last[to] = last[slot];
                sign[to] = sign[slot];
                Op::Save { from: slot, to }
            }
            2 => {
                last[slot] = 0.0;
                if r.chance(0.5) {
                    sign[slot] = -sign[slot];
                }
                Op::Reset { slot }
            }
            3 => Op::CloneConstants,
            4 => Op::Rebuild,
            5 => Op::Misuse { slot, t: F(next_time(r, last[slot], sign[slot])) },
            6 => Op::Other { t: F(r.uniform(-5000.0, 20_000.0)) },
            _ => Op::Scratch { t: F(next_time(r, last[slot], sign[slot])), afspc },
        });
    }
    Plan { sat, other, afspc_elements: r.chance(0.5), ops }
}
