use super::{Prop, Runs};
use crate::hooks::{lib, Panic};
use crate::plan::{bad, Violation, B, F};
use crate::rng::{fold, fold_bytes, Rng};
use crate::sat::*;
use crate::stats::Stats;
use crate::tle;
use serde::{Deserialize, Serialize};
use sgp4::chrono::Duration;
use sgp4::*;
use std::fmt;
use std::io::{self, Write as _};

pub struct C20;

const ENOUGH: usize = 1 << 20;

/// Where the printed or stored value comes from
#[derive(Serialize, Deserialize, Clone)]
pub enum Item {
    /// a pair of lines, usually damaged: a parse error, or elements
    Lines { l1: B, l2: B },
    Elements { sat: Sat },
    /// constants, or the initialisation error
    Constants { sat: Sat, afspc: bool },
    /// a prediction, or the propagation error
    Prediction { sat: Sat, t: F },
    Orbit { mm: F, ecc: F },
    /// constants from an orbit as given, or the error of its eccentricity
    Epoch { ecc: F },
    Geopotential { wgs84: bool },
    /// minutes to or from a date far from the epoch
    Minutes { sat: Sat, days: i64 },
    Date { sat: Sat, minutes: F },
    /// an error passed on by the application
    Made { which: u8, a: F, b: F },
}

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug)]
pub enum Form {
    Display,
    Debug,
    Pretty,
    /// the message through an io sink
    Io,
    Json,
    JsonPretty,
    Bin,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Sink {
    /// the sink is full or fails after this many bytes, modulo the length of the complete text;
    /// from `ENOUGH` on it takes everything
    room: usize,
    /// it takes the part of a piece that fits
    partial: bool,
    /// it takes further pieces after the failure
    recovers: bool,
    /// largest number of bytes taken at once by an io sink, in turn
    chunks: Vec<usize>,
    /// writes of an io sink that are interrupted by a signal first
    interrupts: Vec<u64>,
    /// 0: full, 1: closed, 2: takes nothing more without saying why, 3: would block
    kind: u8,
    /// an io sink is used through a buffer of this size (0: directly)
    buffer: usize,
    /// before it takes this piece, the sink prints the same value elsewhere
    nested: Option<u64>,
    /// the sink panics instead of reporting its failure
    panics: bool,
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    entries: Vec<(Item, Form, Vec<Sink>)>,
}

enum Val {
    Tle(TleError),
    Init(ElementsError),
    Kozai(KozaiElementsError),
    Epoch(OutOfRangeEpochEccentricity),
    Gp(Error),
    Minutes(DatetimeToMinutesSinceEpochError),
    Date(MinutesSinceEpochToDatetimeError),
    Classification(Elements),
    C(Box<Constants>),
    E(Elements),
    O(Orbit),
    G(Geopotential),
    P(Prediction),
    Nothing,
}

impl Item {
    fn make(&self) -> Result<Val, Panic> {
        lib(|| match self {
            Item::Lines { l1, l2 } => match shim::from_tle(None, &l1.0, &l2.0) {
                Ok(e) => Val::E(e),
                Err(e) => Val::Tle(e),
            },
            Item::Elements { sat } => {
                let e = sat.elements();
                if e.norad_id % 2 == 0 {
                    Val::Classification(e)
                } else {
                    Val::E(e)
                }
            }
            Item::Constants { sat, afspc } => match shim::from_elements_plain(&sat.elements(), *afspc) {
                Ok(c) => Val::C(Box::new(c)),
                Err(e) => Val::Init(e),
            },
            Item::Prediction { sat, t } => match shim::from_elements_plain(&sat.elements(), false) {
                Ok(c) if c.initial_state().is_none() || t.0.abs() < 1e6 => match shim::propagate(&c, t.0, false) {
                    Ok(p) => Val::P(p),
                    Err(e) => Val::Gp(e),
                },
                Ok(_) => Val::Nothing,
                Err(e) => Val::Init(e),
            },
            Item::Orbit { mm, ecc } => match Orbit::from_kozai_elements(&WGS84, 1.0, 2.0, ecc.0, 3.0, 4.0, mm.0) {
                Ok(o) => Val::O(o),
                Err(e) => Val::Kozai(e),
            },
            Item::Epoch { ecc } => match Orbit::from_kozai_elements(&WGS84, 1.0, 2.0, 0.01, 3.0, 4.0, 0.06) {
                Ok(mut o) => {
                    o.eccentricity = ecc.0;
                    match shim::new_plain(WGS72, &iau_epoch_to_sidereal_time, 20.0, 1e-4, o) {
                        Ok(c) => Val::C(Box::new(c)),
                        Err(e) => Val::Epoch(e),
                    }
                }
                Err(e) => Val::Kozai(e),
            },
            Item::Geopotential { wgs84 } => Val::G(if *wgs84 { WGS84 } else { WGS72 }),
            Item::Minutes { sat, days } => {
                let e = sat.elements();
                match e.datetime.checked_add_signed(Duration::days(*days)) {
                    Some(d) => match e.datetime_to_minutes_since_epoch(&d) {
                        Ok(_) => Val::Nothing,
                        Err(x) => Val::Minutes(x),
                    },
                    None => Val::Nothing,
                }
            }
            Item::Date { sat, minutes } => match sat.elements().minutes_since_epoch_to_datetime(&MinutesSinceEpoch(minutes.0)) {
                Ok(_) => Val::Nothing,
                Err(x) => Val::Date(x),
            },
            Item::Made { which, a, b } => match which % 8 {
                0 => Val::Kozai(KozaiElementsError::NegativeKozaiMeanMotion),
                1 => Val::Kozai(KozaiElementsError::NegativeBrouwerMeanMotion),
                2 => Val::Init(KozaiElementsError::NegativeBrouwerMeanMotion.into()),
                3 => Val::Init(OutOfRangeEpochEccentricity(a.0).into()),
                4 => Val::Gp(Error::OutOfRangeEccentricity { eccentricity: a.0, t: b.0 }),
                5 => Val::Gp(Error::OutOfRangePerturbedEccentricity { eccentricity: a.0, t: b.0 }),
                6 => Val::Gp(Error::NegativeSemiLatusRectum { t: b.0 }),
                _ => Val::Date(MinutesSinceEpochToDatetimeError::Add { datetime: date((a.0 * 1e18) as i64), duration: Duration::nanoseconds((b.0 * 1e9) as i64) }),
            },
        })
    }
}

fn utf8(s: &str, n: usize) -> usize {
    (0..=n.min(s.len())).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0)
}

impl Val {
    fn kind(&self) -> u64 {
        match self {
            Val::Tle(_) => 0,
            Val::Init(_) => 1,
            Val::Kozai(_) => 2,
            Val::Epoch(_) => 3,
            Val::Gp(_) => 4,
            Val::Minutes(_) => 5,
            Val::Date(_) => 6,
            Val::Classification(_) => 7,
            Val::C(_) => 8,
            Val::E(_) => 9,
            Val::O(_) => 10,
            Val::G(_) => 11,
            Val::P(_) => 12,
            Val::Nothing => 13,
        }
    }
    fn display(&self) -> Option<&dyn fmt::Display> {
        Some(match self {
            Val::Tle(e) => e,
            Val::Init(e) => e,
            Val::Kozai(e) => e,
            Val::Epoch(e) => e,
            Val::Gp(e) => e,
            Val::Minutes(e) => e,
            Val::Date(e) => e,
            _ => return None,
        })
    }
    fn debug(&self) -> &dyn fmt::Debug {
        match self {
            Val::Tle(e) => e,
            Val::Init(e) => e,
            Val::Kozai(e) => e,
            Val::Epoch(e) => e,
            Val::Gp(e) => e,
            Val::Minutes(e) => e,
            Val::Date(e) => e,
            Val::Classification(e) => &e.classification,
            Val::C(c) => c,
            Val::E(e) => e,
            Val::O(o) => o,
            Val::G(g) => g,
            Val::P(p) => p,
            Val::Nothing => &(),
        }
    }
    fn json(&self, pretty: bool, sink: &mut dyn io::Write) -> Result<(), String> {
        match self {
            Val::C(c) => shim::constants_into(c, pretty, sink),
            Val::E(e) | Val::Classification(e) => shim::elements_into(e, pretty, sink),
            Val::O(o) => shim::orbit_into(o, pretty, sink),
            Val::G(g) => shim::geopotential_into(g, pretty, sink),
            Val::P(p) => shim::prediction_into(p, pretty, sink),
            _ => Ok(()),
        }
    }
    fn bin(&self, room: usize) -> (Result<(), String>, Vec<u8>) {
        match self {
            Val::C(c) => shim::constants_bounded(c, room),
            Val::E(e) | Val::Classification(e) => shim::elements_bounded(e, room),
            Val::O(o) => shim::orbit_bounded(o, room),
            Val::G(g) => shim::geopotential_bounded(g, room),
            Val::P(p) => shim::prediction_bounded(p, room),
            _ => (Ok(()), Vec::new()),
        }
    }
    /// What the form amounts to for this value: errors cannot be stored, values have no message
    fn form(&self, f: Form) -> Form {
        match (f, self.display().is_some()) {
            (Form::Display | Form::Io, false) => Form::Debug,
            (Form::Json | Form::Bin, true) => Form::Display,
            (Form::JsonPretty, true) => Form::Io,
            _ => f,
        }
    }
    /// The complete text, into a sink that takes everything
    fn complete(&self, f: Form) -> Result<(Result<(), String>, Vec<u8>), Panic> {
        lib(|| {
            let mut s = String::new();
            let mut b = Vec::new();
            let r = match f {
                Form::Display => shim::print(self.display().unwrap_or(&""), &mut s).map_err(|e| e.to_string()),
                Form::Debug | Form::Pretty => shim::print_debug(self.debug(), f == Form::Pretty, &mut s).map_err(|e| e.to_string()),
                Form::Io => shim::print_io(self.display().unwrap_or(&""), &mut b).map_err(|e| e.to_string()),
                Form::Json | Form::JsonPretty => self.json(f == Form::JsonPretty, &mut b),
                Form::Bin => {
                    let (r, o) = self.bin(usize::MAX);
                    b = o;
                    r
                }
            };
            (r, if b.is_empty() { s.into_bytes() } else { b })
        })
    }
}

/// The simulated sink: takes `room` bytes, then fails as told
struct Bounded<'a> {
    plan: &'a Sink,
    room: usize,
    taken: Vec<u8>,
    pieces: u64,
    pending: bool,
    failed: bool,
    short: u64,
    interrupted: u64,
    value: &'a Val,
    form: Form,
    complete: &'a [u8],
    nested_wrong: Option<String>,
}

impl Bounded<'_> {
    fn piece(&mut self) -> u64 {
        crate::hooks::yield_point();
        let k = self.pieces;
        self.pieces += 1;
        if self.plan.nested == Some(k) {
            match self.value.complete(self.form) {
                Ok((Ok(()), t)) if t == self.complete => {}
                Ok((r, t)) => self.nested_wrong = Some(format!("{r:?}, {:?}", String::from_utf8_lossy(&t))),
                Err(p) => self.nested_wrong = Some(format!("panicked: {}", p.0)),
            }
        }
        k
    }
    fn fail(&mut self) {
        self.failed = true;
        if self.plan.panics {
            panic!("sink panic");
        }
    }
}

impl fmt::Write for Bounded<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.piece();
        if self.failed && self.plan.recovers {
            self.taken.extend(s.as_bytes());
            return Ok(());
        }
        let left = self.room.saturating_sub(self.taken.len());
        if s.len() <= left && !self.failed {
            self.taken.extend(s.as_bytes());
            return Ok(());
        }
        if self.plan.partial && !self.failed {
            let n = utf8(s, left);
            self.taken.extend(&s.as_bytes()[..n]);
        }
        self.fail();
        Err(fmt::Error)
    }
}

impl io::Write for Bounded<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.pending && self.plan.interrupts.contains(&self.pieces) {
            self.pending = false;
            self.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.pending = true;
        let k = self.piece();
        let most = match self.plan.chunks.is_empty() {
            true => b.len(),
            false => self.plan.chunks[(k % self.plan.chunks.len() as u64) as usize].max(1),
        };
        let mut n = b.len().min(most);
        if !(self.failed && self.plan.recovers) {
            let left = self.room.saturating_sub(self.taken.len());
            if (left == 0 || self.failed) && !b.is_empty() {
                self.fail();
                return match self.plan.kind % 4 {
                    0 => Err(io::ErrorKind::StorageFull.into()),
                    1 => Err(io::ErrorKind::BrokenPipe.into()),
                    2 => Ok(0),
                    _ => Err(io::ErrorKind::WouldBlock.into()),
                };
            }
            n = n.min(left);
        }
        self.short += (n < b.len()) as u64;
        self.taken.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn sat(r: &mut Rng) -> Sat {
    match r.below(4) {
        0 => gen_kind(r, Kind::Wild),
        _ => gen_any(r),
    }
}

fn gen_item(r: &mut Rng) -> Item {
    match r.below(17) {
        0..=3 => {
            let norad = tle::gen_norad(r);
            let (mut a, mut b) = tle::gen_pair(r, norad);
            if r.chance(0.9) {
                let l = if r.chance(0.5) { &mut a } else { &mut b };
                let at = r.idx(l.len());
                match r.below(4) {
                    0 => l.truncate(at),
                    1 => l[at] = b' ' + r.below(95) as u8,
                    _ => {
                        // damaged before it was sealed
                        l[at] = *r.pick(b" x.-19");
                        l[68] = tle::checksum(l);
                    }
                }
            }
            Item::Lines { l1: B(a), l2: B(b) }
        }
        4 => Item::Elements { sat: sat(r) },
        5 | 6 => {
            let mut sat = sat(r);
            if r.chance(0.6) {
                super::c05::poison(r, &mut sat);
            }
            Item::Constants { sat, afspc: r.chance(0.4) }
        }
        7 | 8 => {
            let m = r.log(0.0, 12.0);
            let mut sat = gen_any(r);
            if r.chance(0.5) {
                sat.bstar = F(r.log(-2.0, 0.5));
            }
            Item::Prediction { sat, t: F(if r.chance(0.3) { -m } else { m }) }
        }
        9 => Item::Orbit { mm: F(*r.pick(&[0.06, 0.0, -0.06, 1e3, 4.0])), ecc: F(r.uniform(-1.0, 2.0)) },
        10 => Item::Epoch { ecc: F(r.uniform(-1.0, 2.0)) },
        11 => Item::Geopotential { wgs84: r.chance(0.5) },
        12 => Item::Minutes { sat: gen_any(r), days: r.range(-90_000_000, 90_000_000) },
        13..=15 => {
            let b = r.log(-6.0, 9.0);
            Item::Made { which: r.below(8) as u8, a: F(r.uniform(-2.0, 2.0)), b: F(if r.chance(0.5) { -b } else { b }) }
        }
        _ => {
            let m = r.log(6.0, 25.0);
            Item::Date { sat: gen_any(r), minutes: F(*r.pick(&[m, -m, m, -m, f64::NAN, f64::INFINITY])) }
        }
    }
}

fn gen_sink(r: &mut Rng) -> Sink {
    let chunks = match r.below(4) {
        0 => vec![1],
        1 => vec![],
        _ => (0..1 + r.below(6)).map(|_| 1 + r.idx(40)).collect(),
    };
    let interrupts = if r.chance(0.5) { (0..1 + r.below(6)).map(|_| r.below(40)).collect() } else { vec![] };
    Sink {
        room: match r.below(6) {
            0 => r.idx(4),
            1 => ENOUGH,
            _ => r.idx(ENOUGH),
        },
        partial: r.chance(0.5),
        recovers: r.chance(0.3),
        chunks,
        interrupts,
        kind: r.below(4) as u8,
        buffer: *r.pick(&[0, 0, 0, 1, 16, 200]),
        nested: if r.chance(0.1) { Some(r.below(12)) } else { None },
        panics: r.chance(0.05),
    }
}

impl Prop for C20 {
    const ID: &'static str = "C20";
    const RULE: &'static str = "one run = an application that prints and stores 1-4 values made by the library, each into 2-12 sinks that fill up, close, are interrupted, take little at a time, print the value themselves or panic; non-trivial: at least one sink failed before the text was complete; distinct: sequence of (kind of value, form, failure and where in the text it struck)";
    const REAL: &'static str = "all of sgp4 (both builds) with its Display, Debug and serde implementations; serde, serde_json, core::fmt";
    const STUB: &'static str = "the sinks; a minimal binary serde format";
    const ASSUMPTIONS: &'static [&'static str] = &["the wording of messages is not judged, only that the same value always gives the same text"];
    type Plan = Plan;
    fn runs(quick: bool) -> Runs {
        if quick {
            Runs { std: 600_000, libm: 120_000 }
        } else {
            Runs { std: 12_000_000, libm: 2_400_000 }
        }
    }
    fn gen(r: &mut Rng, _: u64) -> Plan {
        let entries = (0..1 + r.below(4))
            .map(|_| {
                let item = gen_item(r);
                let form = *r.pick(&[Form::Display, Form::Display, Form::Io, Form::Debug, Form::Pretty, Form::Json, Form::JsonPretty, Form::Bin]);
                let sinks = (0..2 + r.below(11)).map(|_| gen_sink(r)).collect();
                (item, form, sinks)
            })
            .collect();
        Plan { entries }
    }
    fn exec(p: &Plan, st: &mut Stats) -> Result<(), Violation> {
        for (i, (item, form, sinks)) in p.entries.iter().enumerate() {
            let value = match item.make() {
                Ok(v) => v,
                Err(Panic(m)) => return bad("panic", format!("entry {i}: making the value panicked: {m}")),
            };
            if let Val::Nothing = value {
                continue;
            }
            let form = value.form(*form);
            let what = format!("entry {i} ({:?} as {form:?})", value.debug());
            let all = match value.complete(form) {
                Ok((Ok(()), t)) => t,
                Ok((Err(e), _)) => return bad("refused", format!("{what}: a sink that takes everything was reported as failing: {e}")),
                Err(Panic(m)) => return bad("panic", format!("{what}: panicked: {m}")),
            };
            st.observe(fold_bytes(value.kind(), &all));
            if all.is_empty() {
                return bad("empty", format!("{what}: nothing was printed"));
            }
            st.shape(fold(value.kind(), form as u64));
            for (k, plan) in sinks.iter().enumerate() {
                let room = if plan.room >= ENOUGH { all.len() } else { plan.room % all.len() };
                let mut s = Bounded {
                    plan,
                    room,
                    taken: Vec::new(),
                    pieces: 0,
                    pending: true,
                    failed: false,
                    short: 0,
                    interrupted: 0,
                    value: &value,
                    form,
                    complete: &all,
                    nested_wrong: None,
                };
                let through = plan.buffer;
                let r = lib(|| match form {
                    Form::Display => shim::print(value.display().unwrap_or(&""), &mut s).map_err(|e| e.to_string()),
                    Form::Debug | Form::Pretty => shim::print_debug(value.debug(), form == Form::Pretty, &mut s).map_err(|e| e.to_string()),
                    Form::Io | Form::Json | Form::JsonPretty => {
                        let put = |w: &mut dyn io::Write| match form {
                            Form::Io => shim::print_io(value.display().unwrap_or(&""), w).map_err(|e| e.to_string()),
                            _ => value.json(form == Form::JsonPretty, w),
                        };
                        // a buffered writer tries again when it is dropped, which is not the library's doing
                        if through == 0 || plan.panics || plan.recovers {
                            put(&mut s)
                        } else {
                            let mut b = io::BufWriter::with_capacity(through, &mut s);
                            let r = put(&mut b).and_then(|_| b.flush().map_err(|e| e.to_string()));
                            let _ = b.into_parts();
                            r
                        }
                    }
                    Form::Bin => {
                        let (r, o) = value.bin(room);
                        s.failed = o.len() < all.len();
                        s.taken = o;
                        r
                    }
                });
                let what = || format!("{what}, sink {k} with room for {room} of {} bytes: took {:?}", all.len(), String::from_utf8_lossy(&s.taken));
                st.add("fault:short write", s.short);
                st.add("fault:interrupted write", s.interrupted);
                st.count("sinks");
                st.shape(fold(s.failed as u64 * 2 + plan.panics as u64, if s.failed { room as u64 } else { 0 }));
                st.state(fold(fold(value.kind(), form as u64), fold(s.failed as u64, room as u64)));
                st.observe(fold(s.taken.len() as u64, s.failed as u64));
                if let Some(n) = &s.nested_wrong {
                    return bad("nested", format!("{}: printing the value from within the sink gave {n}", what()));
                }
                if plan.nested.is_some_and(|n| n < s.pieces) {
                    st.count("fault:sink prints the value itself");
                }
                match r {
                    Ok(Ok(())) if s.failed => return bad("failure-lost", format!("{}: the failure of the sink was not reported", what())),
                    Ok(Ok(())) => {
                        if s.taken != all {
                            return bad("wrong-text", format!("{}: reported as complete", what()));
                        }
                        st.count("texts complete");
                    }
                    Ok(Err(e)) => {
                        if !s.failed {
                            return bad("refused", format!("{}: a failure was reported although there was none: {e}", what()));
                        }
                        if !all.starts_with(&s.taken) {
                            return bad("wrong-text", format!("{}: not the beginning of the text", what()));
                        }
                        st.nontrivial = true;
                        st.count(match (form, plan.kind % 4) {
                            (Form::Display | Form::Debug | Form::Pretty | Form::Bin, _) => "fault:sink full",
                            (_, 0) => "fault:device full",
                            (_, 1) => "fault:pipe closed",
                            (_, 2) => "fault:device takes nothing more",
                            _ => "fault:device would block",
                        });
                    }
                    Err(Panic(m)) => {
                        if !(plan.panics && s.failed) {
                            return bad("panic", format!("{}: panicked: {m}", what()));
                        }
                        if !all.starts_with(&s.taken) {
                            return bad("wrong-text", format!("{}: not the beginning of the text", what()));
                        }
                        st.nontrivial = true;
                        st.count("fault:sink panics");
                    }
                }
                // what happened to this sink concerns nobody else
                match value.complete(form) {
                    Ok((Ok(()), t)) if t == all => {}
                    Ok((r, t)) => return bad("later-text", format!("{}: a sink that takes everything then got {r:?}, {:?}", what(), String::from_utf8_lossy(&t))),
                    Err(Panic(m)) => return bad("panic", format!("{}: the next print panicked: {m}", what())),
                }
            }
        }
        Ok(())
    }
}
