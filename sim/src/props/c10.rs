use super::{Prop, Runs};
use crate::hooks::lib;
use crate::omm::gen_name;
use crate::plan::{Violation, F};
use crate::rng::Rng;
use crate::sat::*;
use crate::stats::Stats;
use crate::store::{gen_events, Event, Rec, World};
use serde::{Deserialize, Serialize};
use sgp4::{Classification, Elements, Geopotential, Orbit, Prediction};

pub struct C10;

#[derive(Clone, Serialize, Deserialize)]
pub enum Made {
    Set {
        name: Option<String>,
        designator: Option<String>,
        norad: u64,
        class: u8,
        epoch: i64,
        floats: [F; 9],
        elset: u64,
        rev: u64,
        ephem: u8,
    },
    /// field values
    Orbit([F; 6]),
    /// of a real satellite
    OrbitOf(Sat, bool),
    Geopotential([F; 5]),
    Wgs(bool),
    Prediction([F; 6]),
    PredictionOf(Sat, F),
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    records: Vec<Made>,
    events: Vec<Event>,
}

fn float(r: &mut Rng) -> f64 {
    let s = if r.chance(0.3) { -1.0 } else { 1.0 };
    s * match r.below(10) {
        0 => 0.0,
        1 => *r.pick(&[1.0, 0.1, 1e-5, 123456789.0, 1e15, 1e16, 9007199254740993.0]),
        2 if r.chance(0.2) => *r.pick(&[5e-324, 1e-310, 2.2250738585072011e-308, f64::MIN_POSITIVE, 1e-323, 1e308]),
        2 => r.log(-300.0, 300.0),
        3 => r.log(-12.0, 12.0),
        4 => (r.uniform(0.0, 360.0) * 1e4).round() / 1e4,
        5 => r.below(1 << 60) as f64,
        _ => r.uniform(0.0, 360.0),
    }
}

fn integer(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => u64::MAX - r.below(3),
        2 => r.u64() >> r.below(64),
        3 => (1 << 53) + r.below(5),
        _ => r.below(100_000),
    }
}

fn gen_record(r: &mut Rng) -> Made {
    let f = |r: &mut Rng| if r.chance(0.02) { F(*r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])) } else { F(float(r)) };
    match r.weighted(&[8, 2, 1, 2, 1, 2, 1]) {
        0 => Made::Set {
            name: if r.chance(0.8) { Some(gen_name(r)) } else { None },
            designator: if r.chance(0.8) { Some(if r.chance(0.5) { "1998-067A".into() } else { gen_name(r) }) } else { None },
            norad: integer(r),
            class: r.below(3) as u8,
            epoch: match r.below(6) {
                0 => *r.pick(&[0, -1, 1, 999_999_999, 1_000_000, 946_684_800_000_000_000, i64::MIN / 2, i64::MAX / 2, -62_000_000_000]),
                1 => NS_1957 + r.below((NS_2057 - NS_1957) as u64) as i64 / 1_000_000 * 1_000_000,
                2 => NS_1957 + r.below((NS_2057 - NS_1957) as u64) as i64 / 1_000_000_000 * 1_000_000_000,
                _ => NS_1957 + r.below((NS_2057 - NS_1957) as u64) as i64,
            },
            floats: std::array::from_fn(|_| f(r)),
            elset: integer(r),
            rev: integer(r),
            ephem: r.below(256) as u8,
        },
        1 => Made::Orbit(std::array::from_fn(|_| f(r))),
        2 => Made::OrbitOf(gen_any(r), r.chance(0.5)),
        3 => Made::Geopotential(std::array::from_fn(|_| f(r))),
        4 => Made::Wgs(r.chance(0.5)),
        5 => Made::Prediction(std::array::from_fn(|_| f(r))),
        _ => Made::PredictionOf(gen_any(r), F(r.uniform(-3000.0, 3000.0))),
    }
}

fn make(m: &Made) -> Option<Rec> {
    Some(match m {
        Made::Set { name, designator, norad, class, epoch, floats, elset, rev, ephem } => Rec::E(Elements {
            object_name: name.clone(),
            international_designator: designator.clone(),
            norad_id: *norad,
            classification: match class % 3 {
                0 => Classification::Unclassified,
                1 => Classification::Classified,
                _ => Classification::Secret,
            },
            datetime: date(*epoch),
            mean_motion_dot: floats[0].0,
            mean_motion_ddot: floats[1].0,
            drag_term: floats[2].0,
            element_set_number: *elset,
            inclination: floats[3].0,
            right_ascension: floats[4].0,
            eccentricity: floats[5].0,
            argument_of_perigee: floats[6].0,
            mean_anomaly: floats[7].0,
            mean_motion: floats[8].0,
            revolution_number: *rev,
            ephemeris_type: *ephem,
        }),
        Made::Orbit(f) => Rec::O(Orbit { inclination: f[0].0, right_ascension: f[1].0, eccentricity: f[2].0, argument_of_perigee: f[3].0, mean_anomaly: f[4].0, mean_motion: f[5].0 }),
        Made::OrbitOf(s, wgs72) => {
            let rad = std::f64::consts::PI / 180.0;
            let g = if *wgs72 { sgp4::WGS72 } else { sgp4::WGS84 };
            let o = lib(|| Orbit::from_kozai_elements(&g, s.incl.0 * rad, s.raan.0 * rad, s.ecc.0, s.argp.0 * rad, s.ma.0 * rad, s.mm.0 * (std::f64::consts::PI / 720.0)));
            Rec::O(o.ok()?.ok()?)
        }
        Made::Geopotential(f) => Rec::G(Geopotential { ae: f[0].0, ke: f[1].0, j2: f[2].0, j3: f[3].0, j4: f[4].0 }),
        Made::Wgs(wgs72) => Rec::G(if *wgs72 { sgp4::WGS72 } else { sgp4::WGS84 }),
        Made::Prediction(f) => Rec::P(Prediction { position: [f[0].0, f[1].0, f[2].0], velocity: [f[3].0, f[4].0, f[5].0] }),
        Made::PredictionOf(s, t) => {
            let c = s.build(false).ok()?.ok()?;
            Rec::P(lib(|| shim::propagate(&c, t.0, false)).ok()?.ok()?)
        }
    })
}

impl Prop for C10 {
    const ID: &'static str = "C10";
    const RULE: &'static str = "one run = an application with 1-4 records (element sets, orbits, geopotentials, predictions) that saves, restores, re-saves and uses them over 6-36 events on a simulated disk with crashes; non-trivial: at least one complete copy restored and compared, or every field of a copy lost in turn; distinct: sequence of (event kind, format, write protocol)";
    const REAL: &'static str = "the serde implementations of sgp4 (both builds); serde, serde_json, chrono";
    const STUB: &'static str = "the disk (page cache, synchronisation, renames, crashes), the byte stream, a minimal binary serde format, an exact JSON reader";
    const ASSUMPTIONS: &'static [&'static str] = &["a crash leaves a prefix of what was being written; blocks swapped or altered in place are the business of the storage layer's checksums", "JSON numbers read directly by serde_json are compared to within 8 units in the last place (its default number reader is not exactly rounding)", "numbers that are not finite are stored in the binary format only: JSON cannot hold them"];
    type Plan = Plan;
    fn runs(quick: bool) -> Runs {
        if quick {
            Runs { std: 150_000, libm: 30_000 }
        } else {
            Runs { std: 8_000_000, libm: 1_600_000 }
        }
    }
    fn gen(r: &mut Rng, _: u64) -> Plan {
        let n = 1 + r.idx(4);
        Plan { records: (0..n).map(|_| gen_record(r)).collect(), events: gen_events(r, n) }
    }
    fn exec(p: &Plan, st: &mut Stats) -> Result<(), Violation> {
        let records: Vec<Rec> = p.records.iter().filter_map(make).collect();
        let mut w = World::new(records);
        for e in &p.events {
            w.event(e, st)?;
        }
        for i in 0..w.originals.len() {
            w.event(&Event::Use { record: i, times: vec![], afspc: false }, st)?;
        }
        Ok(())
    }
}
