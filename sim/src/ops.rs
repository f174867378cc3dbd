//! Library calls as data, and what they returned as text (shared by C03 and C04).
use crate::hooks::{lib, yield_point, Panic};
use crate::omm;
use crate::plan::{B, F};
use crate::rng::Rng;
use crate::sat::*;
use crate::tle;
use serde::{Deserialize, Serialize};
use sgp4::{Constants, Elements, MinutesSinceEpoch};
use std::cell::RefCell;
use std::fmt::Write;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Callback {
    Iau,
    Afspc,
    Value(F),
    /// panics when called
    Panic,
    /// initialises and propagates another satellite before answering
    Nested { sat: usize, t: F },
    /// parses lines before answering
    Parse { l1: B, l2: B },
    /// makes a refused request and catches the panic before answering
    Refused { sat: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Stream {
    Memory,
    Chunks(usize),
    /// the reader panics at this read
    Panic(u64),
    /// the reader initialises another satellite at this read
    Nested { at: u64, sat: usize },
    Fail(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Tle { name: Option<String>, l1: B, l2: B },
    Catalogue { three: bool, text: B },
    Omm { list: bool, text: B, stream: Stream },
    Build { sat: usize, afspc: bool },
    /// from-scratch propagation; `shared`: on the propagator all callers share
    Prop { sat: usize, shared: bool, t: F, afspc: bool },
    /// several requests on one integration state
    Session { sat: usize, shared: bool, times: Vec<F>, afspc: bool },
    /// a state where none is wanted or the reverse
    Misuse { sat: usize, shared: bool, t: F },
    New { sat: usize, wgs72: bool, epoch: F, callback: Callback },
    Clock { sat: usize, ns: i64 },
    Back { sat: usize, minutes: F },
    Sidereal { epoch: F },
    Store { sat: usize, shared: bool, json: bool },
    Copy { sat: usize, t: F },
    /// initialises and uses many other satellites, all with epochs of their own
    Crowd { seed: u64, count: u64 },
}

/// Satellites of a plan and the propagators shared by its callers
pub struct World {
    pub sats: Vec<(Sat, bool)>,
    pub elements: Vec<Elements>,
    pub shared: Vec<Option<Constants>>,
}

impl World {
    /// `only`: builds just the shared propagators these operations need
    pub fn new(sats: &[(Sat, bool)], only: &[&Op]) -> World {
        let mut shared: Vec<Option<Constants>> = sats.iter().map(|_| None).collect();
        for op in only {
            if let Op::Prop { sat, shared: true, .. } | Op::Session { sat, shared: true, .. } | Op::Misuse { sat, shared: true, .. } | Op::Store { sat, shared: true, .. } = op {
                if sats.is_empty() {
                    continue;
                }
                let i = sat % sats.len();
                if shared[i].is_none() {
                    shared[i] = sats[i].0.build(sats[i].1).ok().and_then(|r| r.ok());
                }
            }
        }
        World { elements: sats.iter().map(|s| s.0.elements()).collect(), sats: sats.to_vec(), shared }
    }
}

fn hex(b: &[u64; 6]) -> String {
    b.iter().map(|v| format!("{v:016x}")).collect::<Vec<_>>().join(" ")
}

fn show_prediction(r: Result<Result<sgp4::Prediction, sgp4::Error>, Panic>) -> String {
    match r {
        Ok(Ok(p)) => hex(&bits(&p)),
        Ok(Err(e)) => format!("{e:?} / {e}"),
        Err(p) => format!("panic: {}", p.0),
    }
}

fn canonical(f: f64) -> String {
    if f.is_nan() {
        "NaN".into()
    } else {
        format!("{f:?}")
    }
}

fn digest(c: &Constants) -> String {
    match shim::constants_to_bin(c) {
        Ok(b) => {
            // NaN payloads are not part of the value
            format!("constants {:016x}", crate::rng::fold_bytes(b.len() as u64, &b))
        }
        Err(e) => e,
    }
}

struct Nested<'a> {
    inner: crate::props::c06::SimReader<'a>,
    at: u64,
    panic: bool,
    sat: Option<&'a (Sat, bool)>,
    log: &'a RefCell<String>,
}
impl std::io::Read for Nested<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.inner.reads == self.at {
            if self.panic {
                panic!("stream panic");
            }
            if let Some((s, afspc)) = self.sat {
                let r = nested(s, *afspc, 100.0);
                let _ = write!(self.log.borrow_mut(), "[nested {r}]");
            }
        }
        self.inner.read(b)
    }
}

fn nested(s: &Sat, afspc: bool, t: f64) -> String {
    match s.build(afspc) {
        Ok(Ok(c)) => show_prediction(lib(|| shim::propagate(&c, t, afspc))),
        Ok(Err(e)) => e,
        Err(p) => format!("panic: {}", p.0),
    }
}

/// Marks outcomes that are wrong whatever came before
pub const WRONG: &str = "WRONG:";

impl Op {
    pub fn run(&self, w: &World) -> String {
        yield_point();
        if w.sats.is_empty() {
            return "no satellites".into();
        }
        let n = w.sats.len();
        let owned;
        // the propagator of a satellite: the shared one, or one initialised here and now
        macro_rules! constants {
            ($sat:expr, $shared:expr) => {{
                let i = $sat % n;
                if $shared {
                    match &w.shared[i] {
                        Some(c) => c,
                        None => return "not initialised".into(),
                    }
                } else {
                    match w.sats[i].0.build(w.sats[i].1) {
                        Ok(Ok(c)) => {
                            owned = c;
                            &owned
                        }
                        Ok(Err(e)) => return e,
                        Err(p) => return format!("panic: {}", p.0),
                    }
                }
            }};
        }
        match self {
            Op::Tle { name, l1, l2 } => match lib(|| shim::from_tle(name.clone(), &l1.0, &l2.0)) {
                Ok(r) => format!("{r:?}"),
                Err(p) => format!("panic: {}", p.0),
            },
            Op::Catalogue { three, text } => {
                let s = String::from_utf8_lossy(&text.0).into_owned();
                match lib(|| if *three { shim::parse_3les(&s) } else { shim::parse_2les(&s) }) {
                    Ok(r) => format!("{r:?}"),
                    Err(p) => format!("panic: {}", p.0),
                }
            }
            Op::Omm { list, text, stream } => {
                let log = RefCell::new(String::new());
                let chunks = match stream {
                    Stream::Chunks(n) => vec![*n],
                    _ => vec![7],
                };
                let end = match stream {
                    Stream::Fail(at) => Some((*at, crate::props::c06::Kind::Reset)),
                    _ => None,
                };
                let mut reader = Nested {
                    inner: crate::props::c06::SimReader::new(&text.0, &chunks, &[], end, false),
                    at: match stream {
                        Stream::Panic(k) | Stream::Nested { at: k, .. } => *k,
                        _ => u64::MAX,
                    },
                    panic: matches!(stream, Stream::Panic(_)),
                    sat: match stream {
                        Stream::Nested { sat, .. } => Some(&w.sats[sat % n]),
                        _ => None,
                    },
                    log: &log,
                };
                let r = lib(|| match (stream, list) {
                    (Stream::Memory, true) => shim::omm_list_slice(&text.0),
                    (Stream::Memory, false) => shim::omm_one_slice(&text.0).map(|e| vec![e]),
                    (_, true) => shim::omm_list_reader(&mut reader),
                    (_, false) => shim::omm_one_reader(&mut reader).map(|e| vec![e]),
                });
                let r = match r {
                    Ok(Ok(v)) => format!("{v:?}"),
                    Ok(Err(e)) => e.to_string(),
                    Err(p) => format!("panic: {}", p.0),
                };
                format!("{r} {}", log.borrow())
            }
            Op::Build { sat, afspc } => match lib(|| {
                let e = &w.elements[sat % n];
                if *afspc {
                    shim::from_elements_afspc(e)
                } else {
                    shim::from_elements(e)
                }
            }) {
                Ok(Ok(c)) => digest(&c),
                Ok(Err(e)) => e,
                Err(p) => format!("panic: {}", p.0),
            },
            Op::Prop { sat, shared, t, afspc } => {
                let c = constants!(sat, *shared);
                show_prediction(lib(|| shim::propagate(c, t.0, *afspc)))
            }
            Op::Session { sat, shared, times, afspc } => {
                let c = constants!(sat, *shared);
                let mut s = c.initial_state();
                let mut o = String::new();
                for t in times {
                    let r = lib(|| shim::propagate_from_state(c, t.0, s.as_mut(), *afspc));
                    let _ = write!(o, "{} @ {:?}; ", show_prediction(r), s.map(|s| s.t()));
                }
                o
            }
            Op::Misuse { sat, shared, t } => {
                let c = constants!(sat, *shared);
                // a state belonging to another satellite, whatever the callers share
                let mut foreign = w.sats.iter().find_map(|(s, afspc)| s.build(*afspc).ok()?.ok()?.initial_state());
                let state = if c.initial_state().is_some() { None } else { foreign.as_mut() };
                show_prediction(lib(|| shim::propagate_from_state(c, t.0, state, false)))
            }
            Op::New { sat, wgs72, epoch, callback } => {
                let s = &w.sats[sat % n].0;
                let rad = std::f64::consts::PI / 180.0;
                let g = || if *wgs72 { sgp4::WGS72 } else { sgp4::WGS84 };
                let orbit = lib(|| sgp4::Orbit::from_kozai_elements(&g(), s.incl.0 * rad, s.raan.0 * rad, s.ecc.0, s.argp.0 * rad, s.ma.0 * rad, s.mm.0 * (std::f64::consts::PI / 720.0)));
                let orbit = match orbit {
                    Ok(Ok(o)) => o,
                    Ok(Err(e)) => return format!("{e:?}"),
                    Err(p) => return format!("panic: {}", p.0),
                };
                let log = RefCell::new(String::new());
                let calls = std::cell::Cell::new(0u32);
                let f = |e: f64| -> f64 {
                    yield_point();
                    calls.set(calls.get() + 1);
                    let _ = write!(log.borrow_mut(), "[epoch {e:?}]");
                    let r = match callback {
                        Callback::Iau => sgp4::iau_epoch_to_sidereal_time(e),
                        Callback::Afspc => sgp4::afspc_epoch_to_sidereal_time(e),
                        Callback::Value(v) => v.0,
                        Callback::Panic => panic!("callback panic"),
                        Callback::Nested { sat, t } => {
                            let (s, afspc) = &w.sats[sat % n];
                            let r = nested(s, *afspc, t.0);
                            let _ = write!(log.borrow_mut(), "[nested {r}]");
                            sgp4::iau_epoch_to_sidereal_time(e)
                        }
                        Callback::Parse { l1, l2 } => {
                            let r = lib(|| shim::from_tle(None, &l1.0, &l2.0)).map_err(|p| p.0);
                            let _ = write!(log.borrow_mut(), "[parsed {r:?}]");
                            sgp4::iau_epoch_to_sidereal_time(e)
                        }
                        Callback::Refused { sat } => {
                            let (s, afspc) = &w.sats[sat % n];
                            if let Ok(Ok(c)) = s.build(*afspc) {
                                let mut st = c.initial_state();
                                for t in [1000.0, 10.0] {
                                    let r = lib(|| shim::propagate_from_state(&c, t, st.as_mut(), false));
                                    let _ = write!(log.borrow_mut(), "[refused {}]", show_prediction(r));
                                }
                            }
                            sgp4::iau_epoch_to_sidereal_time(e)
                        }
                    };
                    yield_point();
                    r
                };
                let r = lib(|| shim::new_with_callback(g(), &f, epoch.0, s.bstar.0, orbit));
                let text = match &r {
                    Ok(Ok(c)) => digest(c),
                    Ok(Err(e)) => e.0.clone(),
                    Err(p) => format!("panic: {}", p.0),
                };
                if matches!(callback, Callback::Panic) && calls.get() > 0 && text != "panic: callback panic" {
                    return format!("{WRONG} the panic of the sidereal time function did not reach the caller: {text}");
                }
                if let (Callback::Value(v), Ok(Ok(c)), true) = (callback, &r, calls.get() > 0 && epoch.0.is_finite()) {
                    // another value must give another propagator, the same value the same one
                    let other = v.0 + 1.0;
                    let orbit = || sgp4::Orbit::from_kozai_elements(&g(), s.incl.0 * rad, s.raan.0 * rad, s.ecc.0, s.argp.0 * rad, s.ma.0 * rad, s.mm.0 * (std::f64::consts::PI / 720.0));
                    let build = |x: f64| lib(|| orbit().ok().and_then(|o| shim::new_with_callback(g(), &|_| x, epoch.0, s.bstar.0, o).ok()));
                    if let (Ok(Some(same)), Ok(Some(different))) = (build(v.0), build(other)) {
                        let p = |c: &Constants| out_of(lib(|| shim::propagate(c, 2000.0, false)));
                        let (a, b, d) = (p(c), p(&same), p(&different));
                        if a != b {
                            return format!("{WRONG} two propagators initialised with the sidereal time {:?} differ: {} and {}", v.0, a.show(), b.show());
                        }
                        if digest(c) == digest(&different) {
                            return format!("{WRONG} propagators initialised with the sidereal times {:?} and {other:?} are the same", v.0);
                        }
                        let _ = d;
                    }
                }
                format!("{text} {}", log.borrow())
            }
            Op::Clock { sat, ns } => match lib(|| w.elements[sat % n].datetime_to_minutes_since_epoch(&date(*ns))) {
                Ok(r) => format!("{:?}", r.map(|m| canonical(m.0))),
                Err(p) => format!("panic: {}", p.0),
            },
            Op::Back { sat, minutes } => match lib(|| w.elements[sat % n].minutes_since_epoch_to_datetime(&MinutesSinceEpoch(minutes.0))) {
                Ok(r) => format!("{r:?}"),
                Err(p) => format!("panic: {}", p.0),
            },
            Op::Sidereal { epoch } => {
                let e = &w.elements[0];
                match lib(|| [sgp4::iau_epoch_to_sidereal_time(epoch.0), sgp4::afspc_epoch_to_sidereal_time(epoch.0), e.epoch(), e.epoch_afspc_compatibility_mode()]) {
                    Ok(v) => v.iter().map(|x| canonical(*x)).collect::<Vec<_>>().join(" "),
                    Err(p) => format!("panic: {}", p.0),
                }
            }
            Op::Store { sat, shared, json } => {
                let c = constants!(sat, *shared);
                let r = lib(|| {
                    if *json {
                        let v = shim::constants_to_value(c)?;
                        shim::constants_from_value(v).map(|c| digest(&c))
                    } else {
                        let b = shim::constants_to_bin(c)?;
                        shim::constants_from_bin(&b).map(|c| digest(&c))
                    }
                });
                match r {
                    Ok(r) => format!("{r:?}"),
                    Err(p) => format!("panic: {}", p.0),
                }
            }
            Op::Copy { sat, t } => {
                let c = constants!(sat, false);
                let d = c.clone();
                let a = show_prediction(lib(|| shim::propagate(c, t.0, false)));
                let b = show_prediction(lib(|| shim::propagate(&d, t.0, false)));
                if a != b {
                    return format!("{WRONG} a clone predicts {b}, the original {a}");
                }
                a
            }
            Op::Crowd { seed, count } => {
                let mut r = Rng::new(*seed);
                let mut h = 0;
                for _ in 0..(*count).min(2000) {
                    let s = gen_any(&mut r);
                    let afspc = r.chance(0.3);
                    let t = gen_time(&mut r);
                    let text = nested(&s, afspc, t);
                    h = crate::rng::fold_bytes(h, text.as_bytes());
                }
                format!("crowd {h:016x}")
            }
        }
    }

    pub fn kind(&self) -> u64 {
        match self {
            Op::Tle { .. } => 0,
            Op::Catalogue { three, .. } => 1 + *three as u64,
            Op::Omm { stream, .. } => {
                3 + match stream {
                    Stream::Memory => 0,
                    Stream::Chunks(_) => 1,
                    Stream::Panic(_) => 2,
                    Stream::Nested { .. } => 3,
                    Stream::Fail(_) => 4,
                }
            }
            Op::Build { .. } => 8,
            Op::Prop { shared, .. } => 9 + *shared as u64,
            Op::Session { shared, .. } => 11 + *shared as u64,
            Op::Misuse { .. } => 13,
            Op::New { callback, .. } => {
                14 + match callback {
                    Callback::Iau => 0,
                    Callback::Afspc => 1,
                    Callback::Value(_) => 2,
                    Callback::Panic => 3,
                    Callback::Nested { .. } => 4,
                    Callback::Parse { .. } => 5,
                    Callback::Refused { .. } => 6,
                }
            }
            Op::Clock { .. } => 22,
            Op::Back { .. } => 23,
            Op::Sidereal { .. } => 24,
            Op::Store { .. } => 25,
            Op::Copy { .. } => 26,
            Op::Crowd { .. } => 27,
        }
    }
}

pub fn gen_sats(r: &mut Rng, n: usize) -> Vec<(Sat, bool)> {
    let mut v: Vec<(Sat, bool)> = Vec::new();
    while v.len() < n {
        // near-twins: what a cache keyed too coarsely would confuse
        if !v.is_empty() && r.chance(0.45) {
            let (mut s, mut afspc) = r.pick(&v).clone();
            for _ in 0..1 + r.below(2) {
                match r.below(9) {
                    0 => s.incl.0 += *r.pick(&[1e-4, 0.1, 10.0]),
                    1 => s.raan.0 += 1.0,
                    2 => s.ecc.0 = (s.ecc.0 + 0.001).min(0.99),
                    3 => s.argp.0 += 1.0,
                    4 => s.ma.0 += 1.0,
                    5 => s.mm.0 *= 1.0001,
                    6 => s.bstar.0 += 1e-5,
                    7 => s.epoch += *r.pick(&[1_000_000, 86_400_000_000_000, 3_600_000_000_000]),
                    _ => afspc = !afspc,
                }
            }
            v.push((s, afspc));
        } else {
            let s = if r.chance(0.6) { gen_resonant(r) } else { gen_any(r) };
            v.push((s, r.chance(0.3)));
        }
    }
    v
}

fn gen_time(r: &mut Rng) -> f64 {
    let t = match r.below(8) {
        0 => 0.0,
        1 => 720.0 * r.range(0, 6) as f64,
        2 => r.log(3.0, 5.0),
        _ => r.uniform(0.0, 4000.0),
    };
    if r.chance(0.3) {
        -t
    } else {
        t
    }
}

fn gen_lines(r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let id = tle::gen_norad(r);
    let (mut a, mut b) = tle::gen_pair(r, id);
    if r.chance(0.3) {
        let l = if r.chance(0.5) { &mut a } else { &mut b };
        match r.below(3) {
            0 => l[r.idx(69)] = r.below(128) as u8,
            1 => l.truncate(r.idx(70)),
            _ => {
                let k = r.idx(68);
                l[k] = b'x';
                l[68] = tle::checksum(l);
            }
        }
    }
    (a, b)
}

pub fn gen_op(r: &mut Rng, sats: usize, heavy: bool) -> Op {
    let sat = r.idx(sats);
    let shared = r.chance(0.5);
    match r.weighted(&[3, 2, 3, 4, 6, 6, 1, 6, 1, 1, 1, if heavy { 2 } else { 1 }, 2, 1]) {
        0 => {
            let (a, b) = gen_lines(r);
            Op::Tle { name: if r.chance(0.5) { Some(tle::gen_title(r)) } else { None }, l1: B(a), l2: B(b) }
        }
        1 => {
            let three = r.chance(0.5);
            let mut t = Vec::new();
            for _ in 0..r.below(4) {
                if three {
                    t.extend(tle::gen_title(r).as_bytes());
                    t.push(b'\n');
                }
                let (a, b) = gen_lines(r);
                t.extend(a);
                t.push(b'\n');
                t.extend(b);
                t.push(b'\n');
            }
            if r.chance(0.2) {
                let k = r.idx(t.len() + 1);
                t.truncate(k);
            }
            Op::Catalogue { three, text: B(t) }
        }
        2 => {
            let list = r.chance(0.5);
            let n = if list { r.idx(3) } else { 1 };
            let mut m: Vec<_> = (0..n).map(|_| omm::gen_message(r)).collect();
            if n > 0 && r.chance(0.3) {
                let k = r.idx(m[0].len());
                let key = m[0][k].0.trim_matches('"').to_string();
                m[0][k].1 = omm::gen_bad_value(r, &key);
            }
            let text = omm::render(&m, list, 0);
            let len = text.len();
            let stream = match r.below(7) {
                0..=2 => Stream::Memory,
                3 => Stream::Chunks(1 + r.idx(100)),
                4 => Stream::Panic(r.below(len as u64 + 1)),
                5 => Stream::Nested { at: r.below(len as u64 + 1), sat: r.idx(sats) },
                _ => Stream::Fail(r.idx(len + 1)),
            };
            Op::Omm { list, text: B(text), stream }
        }
        3 => Op::Build { sat, afspc: r.chance(0.4) },
        4 => Op::Prop { sat, shared, t: F(if r.chance(0.05) { f64::NAN } else { gen_time(r) }), afspc: r.chance(0.4) },
        5 => {
            let mut t: f64 = 0.0;
            let sign = if r.chance(0.3) { -1.0 } else { 1.0 };
            let times = (0..1 + r.below(6))
                .map(|_| {
                    if r.chance(0.15) {
                        return F(gen_time(r));
                    }
                    t += match r.below(4) {
                        0 => 720.0,
                        1 => r.uniform(0.0, 20_000.0),
                        _ => r.uniform(0.0, 1500.0),
                    };
                    F(sign * t)
                })
                .collect();
            Op::Session { sat, shared, times, afspc: r.chance(0.4) }
        }
        6 => Op::Misuse { sat, shared, t: F(gen_time(r)) },
        7 => {
            let epoch = *r.pick(&[0.0, 20.53, -40.0, 8.7216, 56.2]) + if r.chance(0.5) { 0.0 } else { r.unit() };
            let callback = match r.below(10) {
                0 => Callback::Iau,
                1 => Callback::Afspc,
                2..=4 => Callback::Value(F(r.uniform(0.0, 6.0))),
                5 | 6 => Callback::Panic,
                7 => Callback::Nested { sat: r.idx(sats), t: F(gen_time(r)) },
                8 => {
                    let (a, b) = gen_lines(r);
                    Callback::Parse { l1: B(a), l2: B(b) }
                }
                _ => Callback::Refused { sat: r.idx(sats) },
            };
            Op::New { sat, wgs72: r.chance(0.3), epoch: F(epoch), callback }
        }
        8 => Op::Clock { sat, ns: NS_1957 + r.below((NS_2057 - NS_1957) as u64) as i64 },
        9 => Op::Back { sat, minutes: F(if r.chance(0.2) { r.log(6.0, 12.0) } else { gen_time(r) }) },
        10 => Op::Sidereal { epoch: F(r.uniform(-40.0, 60.0)) },
        11 => Op::Store { sat, shared, json: r.chance(0.5) },
        12 => Op::Copy { sat, t: F(gen_time(r)) },
        _ => {
            let most = match (heavy, r.chance(0.1)) {
                (false, _) => 12,
                (true, false) => 60,
                (true, true) => 400,
            };
            Op::Crowd { seed: r.u64() >> 12, count: 2 + r.below(most) }
        }
    }
}
