//! Satellites: element set generators and helpers to compare what the library returns.
use crate::hooks::{lib, Panic};
use crate::plan::F;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use sgp4::chrono::{DateTime, NaiveDateTime};
use sgp4::{Classification, Constants, Elements, Prediction};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sat {
    pub kind: Kind,
    pub incl: F,
    pub raan: F,
    pub ecc: F,
    pub argp: F,
    pub ma: F,
    pub mm: F,
    pub bstar: F,
    /// ns since 1970
    pub epoch: i64,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Kind {
    Geo,
    Molniya,
    Deep,
    Near,
    Edge,
    Wild,
}

pub fn date(ns: i64) -> NaiveDateTime {
    DateTime::from_timestamp(ns.div_euclid(1_000_000_000), ns.rem_euclid(1_000_000_000) as u32).expect("representable").naive_utc()
}

const DAY: i64 = 86_400_000_000_000;
pub const NS_1957: i64 = -13 * 365 * DAY - 3 * DAY;
pub const NS_2057: i64 = 87 * 365 * DAY + 22 * DAY;

fn angle(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 0.0,
        1 => *r.pick(&[90.0, 180.0, 270.0, 360.0, 359.9999]),
        _ => (r.uniform(0.0, 360.0) * 1e4).round() / 1e4,
    }
}

fn inclination(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => 0.0,
        1 => r.uniform(0.0, 0.05),
        2 | 3 => r.uniform(0.0, 11.4),
        4 => r.uniform(11.0, 12.0),
        5 => 63.4349 + r.uniform(-0.5, 0.5),
        6 => *r.pick(&[90.0, 98.2, 180.0, 179.9999, 11.459155902616466, 3.0]),
        _ => r.uniform(0.0, 180.0),
    }
}

fn bstar(r: &mut Rng, wild: bool) -> f64 {
    let s = if r.chance(0.2) { -1.0 } else { 1.0 };
    match r.below(if wild { 8 } else { 6 }) {
        0 | 1 => 0.0,
        2 | 3 => s * r.log(-6.0, -4.0),
        4 => s * r.log(-4.0, -2.0),
        5 => s * r.log(-2.0, 0.0),
        _ => s * r.log(0.0, 4.0),
    }
}

pub fn gen_kind(r: &mut Rng, kind: Kind) -> Sat {
    let epoch = match r.below(6) {
        0 => *r.pick(&[0, 946_728_000_000_000_000, 1_709_164_800_000_000_000, 1_735_689_599_999_999_136]),
        _ => NS_1957 + r.below((NS_2057 - NS_1957) as u64) as i64 / 864_000 * 864_000,
    };
    let mut incl = inclination(r);
    let (ecc, mm) = match kind {
        Kind::Geo => (
            match r.below(8) {
                0 => 0.0,
                1 => r.log(-6.0, -4.0),
                2 => r.uniform(0.0, 0.85),
                3 => r.uniform(0.05, 0.3),
                _ => r.log(-4.0, -2.0),
            },
            match r.below(4) {
                0 => r.uniform(0.81, 1.19),
                1 => 1.00273790,
                _ => 1.0027379 + r.uniform(-0.02, 0.02),
            },
        ),
        Kind::Molniya => {
            if r.chance(0.5) {
                incl = r.uniform(61.0, 65.5)
            }
            (
                match r.below(6) {
                    0 => r.uniform(0.5, 0.66),
                    1 => r.uniform(0.64, 0.72),
                    2 => r.uniform(0.714, 0.716),
                    3 if r.chance(0.2) => r.uniform(0.77, 0.97),
                    3 => r.uniform(0.5, 0.77),
                    _ => r.uniform(0.6, 0.75),
                },
                match r.below(3) {
                    0 => r.uniform(1.90, 2.11),
                    _ => 2.00561 + r.uniform(-0.01, 0.01),
                },
            )
        }
        Kind::Deep => match r.below(4) {
            0 => (r.uniform(0.0, 0.8), r.uniform(0.05, 0.78)),
            1 => (r.uniform(0.0, 0.7), r.uniform(1.22, 1.87)),
            2 => (r.uniform(0.0, 0.48), r.uniform(1.90, 2.11)),
            _ => (r.uniform(0.0, 0.6), r.uniform(2.15, 6.3)),
        },
        Kind::Near => match r.below(5) {
            0 => (r.log(-5.0, -2.0), r.uniform(15.0, 16.3)),
            1 => (r.uniform(0.0, 0.25), r.uniform(7.0, 11.0)),
            2 => (r.uniform(0.0, 0.05), r.uniform(13.0, 15.5)),
            3 => (r.log(-7.0, -4.0), r.uniform(12.0, 16.0)),
            _ => (r.uniform(0.0, 0.4), r.uniform(6.45, 9.0)),
        },
        // around the method and resonance boundaries
        Kind::Edge => {
            let mm = *r.pick(&[6.4, 0.8, 1.2, 1.8931, 2.1178]) * (1.0 + r.uniform(-0.003, 0.003));
            (if r.chance(0.5) { 0.5 + r.uniform(-0.001, 0.001) } else { r.uniform(0.0, 0.7) }, mm)
        }
        Kind::Wild => {
            incl = r.uniform(-10.0, 400.0);
            (
                match r.below(4) {
                    0 => 1.0 - r.log(-8.0, -1.0),
                    1 => r.log(-12.0, -6.0),
                    _ => r.uniform(0.0, 1.0),
                },
                match r.below(3) {
                    0 => r.log(-4.0, 2.0),
                    _ => r.uniform(0.01, 18.0),
                },
            )
        }
    };
    Sat {
        kind,
        incl: F(incl),
        raan: F(angle(r)),
        ecc: F(ecc),
        argp: F(angle(r)),
        ma: F(angle(r)),
        mm: F(mm),
        bstar: F(bstar(r, kind == Kind::Wild)),
        epoch,
    }
}

pub fn gen_any(r: &mut Rng) -> Sat {
    let k = [Kind::Geo, Kind::Molniya, Kind::Deep, Kind::Near, Kind::Edge, Kind::Wild][r.weighted(&[5, 5, 3, 4, 2, 1])];
    gen_kind(r, k)
}

pub fn gen_resonant(r: &mut Rng) -> Sat {
    let k = if r.chance(0.5) { Kind::Geo } else { Kind::Molniya };
    gen_kind(r, k)
}

impl Sat {
    pub fn elements(&self) -> Elements {
        Elements {
            object_name: Some("SIM".to_string()),
            international_designator: Some("1998-067A".to_string()),
            norad_id: 25544,
            classification: Classification::Unclassified,
            datetime: date(self.epoch),
            mean_motion_dot: 0.0,
            mean_motion_ddot: 0.0,
            drag_term: self.bstar.0,
            element_set_number: 999,
            inclination: self.incl.0,
            right_ascension: self.raan.0,
            eccentricity: self.ecc.0,
            argument_of_perigee: self.argp.0,
            mean_anomaly: self.ma.0,
            mean_motion: self.mm.0,
            revolution_number: 1,
            ephemeris_type: 0,
        }
    }

    pub fn build(&self, afspc: bool) -> Result<Result<Constants, String>, Panic> {
        let e = self.elements();
        lib(|| if afspc { shim::from_elements_afspc(&e) } else { shim::from_elements(&e) })
    }
}

/// Outcome of a propagation in a directly comparable form.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    Ok([u64; 6]),
    Err(String),
    Panic,
}

pub fn out_of(r: Result<Result<Prediction, sgp4::Error>, Panic>) -> Out {
    match r {
        Ok(Ok(p)) => Out::Ok(bits(&p)),
        Ok(Err(e)) => Out::Err(format!("{e:?}")),
        Err(_) => Out::Panic,
    }
}

pub fn bits(p: &Prediction) -> [u64; 6] {
    let c = |v: f64| if v.is_nan() { f64::NAN.to_bits() } else { v.to_bits() };
    [c(p.position[0]), c(p.position[1]), c(p.position[2]), c(p.velocity[0]), c(p.velocity[1]), c(p.velocity[2])]
}

impl Out {
    pub fn hash(&self) -> u64 {
        match self {
            Out::Ok(b) => b.iter().fold(1, |h, v| crate::rng::fold(h, *v)),
            Out::Err(e) => crate::rng::fold_bytes(2, e.as_bytes()),
            Out::Panic => 3,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Out::Ok(b) => format!("prediction {:?}", b.iter().map(|v| f64::from_bits(*v)).collect::<Vec<_>>()),
            Out::Err(e) => format!("error {e}"),
            Out::Panic => "panic".into(),
        }
    }
}
