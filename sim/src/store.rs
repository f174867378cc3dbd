//! A record store on a simulated disk (shared by C09 and C10): the application saves, restores and
//! re-saves records; the disk loses or tears what was not synchronised when the machine crashes,
//! and readers see short and interrupted reads.
use crate::hooks::{lib, Panic};
use crate::omm::{Reader, J};
use crate::plan::{bad, Violation, F};
use crate::props::c06::{Kind, SimReader};
use crate::rng::{fold, fold_bytes, Rng};
use crate::sat::*;
use crate::stats::Stats;
use crate::tle::{differs, naive_ns, Truth, Verdict};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use sgp4::{Classification, Constants, Elements, Geopotential, Orbit, Prediction};
use std::collections::BTreeMap;

/// What is stored
#[derive(Clone)]
pub enum Rec {
    C(Constants),
    E(Elements),
    O(Orbit),
    G(Geopotential),
    P(Prediction),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Format {
    /// no field names, no types, exact numbers
    Binary,
    /// JSON, read by an exact reader into a tree of values first
    Tree,
    /// JSON, read from memory (numbers to within the JSON library's rounding)
    Slice,
    /// JSON, read from a faulty byte stream (numbers as for `Slice`)
    Stream,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Protocol {
    /// overwrites the file
    InPlace,
    /// writes another file, synchronises it, renames it
    Replace,
    /// as `Replace`, without the synchronisation
    ReplaceUnsynced,
    /// appends a line to a journal (JSON formats; as `InPlace` otherwise)
    Append,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Event {
    Save { record: usize, file: usize, format: Format, protocol: Protocol, sync: bool },
    /// reads the file and, if it holds a complete record, continues with the restored one
    Restore { file: usize, chunks: Vec<usize>, interrupts: Vec<u64> },
    /// power loss: what is left of the unsynchronised writes is decided by `fates`
    Crash { fates: Vec<u64> },
    /// uses the current copy of a record
    Use { record: usize, times: Vec<F>, afspc: bool },
    /// every part of the stored record is lost in turn
    Audit { record: usize, null: bool },
    /// the stored text is cut at these places (fractions of its length)
    Cuts { record: usize, format: Format, at: Vec<F> },
}

fn text(p: Panic) -> String {
    format!("panic: {}", p.0)
}

impl Rec {
    pub fn kind(&self) -> &'static str {
        match self {
            Rec::C(_) => "propagator",
            Rec::E(_) => "element set",
            Rec::O(_) => "orbit",
            Rec::G(_) => "geopotential",
            Rec::P(_) => "prediction",
        }
    }

    pub fn value(&self) -> Result<Value, String> {
        lib(|| match self {
            Rec::C(v) => shim::constants_to_value(v),
            Rec::E(v) => shim::elements_to_value(v),
            Rec::O(v) => shim::orbit_to_value(v),
            Rec::G(v) => shim::geopotential_to_value(v),
            Rec::P(v) => shim::prediction_to_value(v),
        })
        .unwrap_or_else(|p| Err(text(p)))
    }

    pub fn encode(&self, format: Format) -> Result<Vec<u8>, String> {
        lib(|| match (format, self) {
            (Format::Binary, Rec::C(v)) => shim::constants_to_bin(v),
            (Format::Binary, Rec::O(v)) => shim::orbit_to_bin(v),
            (Format::Binary, Rec::G(v)) => shim::geopotential_to_bin(v),
            (Format::Binary, Rec::P(v)) => shim::prediction_to_bin(v),
            (_, Rec::C(v)) => shim::constants_to_json(v).map(String::into_bytes),
            (_, Rec::E(v)) => shim::elements_to_json(v).map(String::into_bytes),
            (_, Rec::O(v)) => shim::orbit_to_json(v).map(String::into_bytes),
            (_, Rec::G(v)) => shim::geopotential_to_json(v).map(String::into_bytes),
            (_, Rec::P(v)) => shim::prediction_to_json(v).map(String::into_bytes),
        })
        .unwrap_or_else(|p| Err(text(p)))
    }

    /// `self` only tells the type
    pub fn from_value(&self, v: Value) -> Result<Rec, String> {
        lib(|| match self {
            Rec::C(_) => shim::constants_from_value(v).map(Rec::C),
            Rec::E(_) => shim::elements_from_value(v).map(Rec::E),
            Rec::O(_) => shim::orbit_from_value(v).map(Rec::O),
            Rec::G(_) => shim::geopotential_from_value(v).map(Rec::G),
            Rec::P(_) => shim::prediction_from_value(v).map(Rec::P),
        })
        .unwrap_or_else(|p| Err(text(p)))
    }

    pub fn decode(&self, format: Format, bytes: &[u8], reader: &mut dyn std::io::Read) -> Result<Rec, String> {
        let r = match format {
            Format::Tree => {
                let v = tree(bytes).ok_or("not JSON".to_string())?;
                return self.from_value(v);
            }
            Format::Binary => lib(|| match self {
                Rec::C(_) => shim::constants_from_bin(bytes).map(Rec::C),
                Rec::E(_) => Err("not in this format".into()),
                Rec::O(_) => shim::orbit_from_bin(bytes).map(Rec::O),
                Rec::G(_) => shim::geopotential_from_bin(bytes).map(Rec::G),
                Rec::P(_) => shim::prediction_from_bin(bytes).map(Rec::P),
            }),
            Format::Slice => lib(|| match self {
                Rec::C(_) => shim::constants_from_json(bytes).map(Rec::C),
                Rec::E(_) => shim::elements_from_json(bytes).map(Rec::E),
                Rec::O(_) => shim::orbit_from_json(bytes).map(Rec::O),
                Rec::G(_) => shim::geopotential_from_json(bytes).map(Rec::G),
                Rec::P(_) => shim::prediction_from_json(bytes).map(Rec::P),
            }),
            Format::Stream => {
                let mut buffered = std::io::BufReader::with_capacity(100, reader);
                let reader = &mut buffered;
                lib(|| match self {
                Rec::C(_) => shim::constants_from_reader(reader).map(Rec::C),
                Rec::E(_) => shim::elements_from_reader(reader).map(Rec::E),
                Rec::O(_) => shim::orbit_from_reader(reader).map(Rec::O),
                Rec::G(_) => shim::geopotential_from_reader(reader).map(Rec::G),
                Rec::P(_) => shim::prediction_from_reader(reader).map(Rec::P),
                })
            }
        };
        r.unwrap_or_else(|p| Err(text(p)))
    }

    /// All numbers are finite, so that every format can hold them
    fn finite(&self) -> bool {
        let f = |v: &[f64]| v.iter().all(|x| x.is_finite());
        match self {
            // JSON has no way to write a number that is not finite
            Rec::C(_) => self.value().map(|v| !has_null(&v)).unwrap_or(false),
            Rec::E(e) => f(&floats(e)),
            Rec::O(o) => f(&orbit_fields(o)),
            Rec::G(g) => f(&geopotential_fields(g)),
            Rec::P(p) => f(&p.position) && f(&p.velocity),
        }
    }
}

fn has_null(v: &Value) -> bool {
    match v {
        Value::Null => true,
        Value::Array(a) => a.iter().any(has_null),
        Value::Object(o) => o.values().any(has_null),
        _ => false,
    }
}

fn orbit_fields(o: &Orbit) -> [f64; 6] {
    [o.inclination, o.right_ascension, o.eccentricity, o.argument_of_perigee, o.mean_anomaly, o.mean_motion]
}
fn geopotential_fields(g: &Geopotential) -> [f64; 5] {
    [g.ae, g.ke, g.j2, g.j3, g.j4]
}
fn floats(e: &Elements) -> [f64; 9] {
    [e.mean_motion_dot, e.mean_motion_ddot, e.drag_term, e.inclination, e.right_ascension, e.eccentricity, e.argument_of_perigee, e.mean_anomaly, e.mean_motion]
}

pub fn truth(e: &Elements) -> Truth {
    Truth {
        name: e.object_name.clone(),
        designator: e.international_designator.clone(),
        norad: e.norad_id,
        class: match e.classification {
            Classification::Unclassified => 'U',
            Classification::Classified => 'C',
            Classification::Secret => 'S',
        },
        epoch: naive_ns(&e.datetime),
        ndot: e.mean_motion_dot,
        nddot: e.mean_motion_ddot,
        bstar: e.drag_term,
        elset: e.element_set_number,
        incl: e.inclination,
        raan: e.right_ascension,
        ecc: e.eccentricity,
        argp: e.argument_of_perigee,
        ma: e.mean_anomaly,
        mm: e.mean_motion,
        rev: e.revolution_number,
        ephem: e.ephemeris_type,
    }
}

/// Exact reading of JSON text
fn tree(bytes: &[u8]) -> Option<Value> {
    fn convert(j: J) -> Option<Value> {
        Some(match j {
            J::Null => Value::Null,
            J::Bool(b) => Value::Bool(b),
            J::Str(s) => Value::String(s),
            J::Num(s) => match s.parse::<u64>() {
                Ok(v) => Value::from(v),
                Err(_) => Value::Number(serde_json::Number::from_f64(s.parse().ok()?)?),
            },
            J::Arr(v) => Value::Array(v.into_iter().map(convert).collect::<Option<_>>()?),
            J::Obj(v) => {
                let mut m = serde_json::Map::new();
                for (k, x) in v {
                    if m.insert(k, convert(x)?).is_some() {
                        return None;
                    }
                }
                Value::Object(m)
            }
        })
    }
    Reader::read(bytes).0.ok().and_then(convert)
}

fn near(a: f64, b: f64, exact: bool) -> bool {
    if exact {
        a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
    } else {
        (a - b).abs() <= 8.0 * f64::EPSILON * a.abs().max(b.abs()).max(f64::MIN_POSITIVE)
    }
}

fn near_tree(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x == y || near(x.as_f64().unwrap_or(f64::NAN), y.as_f64().unwrap_or(f64::NAN), false),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| near_tree(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).is_some_and(|q| near_tree(p, q))),
        (p, q) => p == q,
    }
}

/// Predictions of a propagator through all entry points
fn predictions(c: &Constants, times: &[F], afspc: bool) -> Vec<Out> {
    let mut v: Vec<Out> = times.iter().map(|t| out_of(lib(|| shim::propagate(c, t.0, afspc)))).collect();
    let mut s = lib(|| c.initial_state()).unwrap_or(None);
    let mut sorted: Vec<f64> = times.iter().map(|t| t.0.abs()).collect();
    sorted.sort_by(f64::total_cmp);
    for t in sorted {
        v.push(out_of(lib(|| shim::propagate_from_state(c, t, s.as_mut(), afspc))));
        v.push(Out::Err(format!("{:?}", s.map(|s| s.t()))));
    }
    v
}

pub struct World {
    /// never stored
    pub originals: Vec<Rec>,
    /// what the application works with: a copy that went through the store
    pub current: Vec<Rec>,
    files: BTreeMap<String, File>,
    /// complete records ever written
    written: Vec<(Vec<u8>, usize, Format)>,
    hash: u64,
}

#[derive(Clone, Default)]
struct File {
    /// survives a crash; None: the file does not exist on disk
    durable: Option<Vec<u8>>,
    /// what readers see
    content: Vec<u8>,
    /// content before an unsynchronised rename over this file
    replaced: Option<Option<Vec<u8>>>,
}

impl World {
    pub fn new(records: Vec<Rec>) -> World {
        World { originals: records.clone(), current: records, files: BTreeMap::new(), written: Vec::new(), hash: 0 }
    }

    /// The difference between the restored and the original record, if any
    fn differs(&self, record: usize, got: &Rec, exact: bool, times: &[F], afspc: bool) -> Option<String> {
        let o = &self.originals[record];
        let list = |what: &str, a: &[f64], b: &[f64]| {
            a.iter().zip(b).position(|(x, y)| !near(*x, *y, exact)).map(|i| format!("{what} field {i}: {:?} instead of {:?}", b[i], a[i]))
        };
        match (o, got) {
            (Rec::C(a), Rec::C(b)) => {
                if lib(|| a.initial_state().is_some()).ok() != lib(|| b.initial_state().is_some()).ok() {
                    return Some("needs an integration state, the original does not, or the reverse".into());
                }
                if exact {
                    let (p, q) = (predictions(a, times, afspc), predictions(b, times, afspc));
                    return p.iter().zip(&q).position(|(x, y)| x != y).map(|i| format!("{} instead of {}", q[i].show(), p[i].show()));
                }
                match (o.value(), got.value()) {
                    (Ok(p), Ok(q)) if near_tree(&p, &q) => None,
                    (p, q) => Some(format!("{q:?} instead of {p:?}")),
                }
            }
            (Rec::E(a), Rec::E(b)) => {
                let t = truth(a);
                if exact {
                    return list("element set", &floats(a), &floats(b)).or_else(|| differs(b, &Truth { ndot: b.mean_motion_dot, nddot: b.mean_motion_ddot, bstar: b.drag_term, incl: b.inclination, raan: b.right_ascension, ecc: b.eccentricity, argp: b.argument_of_perigee, ma: b.mean_anomaly, mm: b.mean_motion, ..t }, 0, f64::INFINITY));
                }
                differs(b, &t, 0, 8.0)
            }
            (Rec::O(a), Rec::O(b)) => list("orbit", &orbit_fields(a), &orbit_fields(b)),
            (Rec::G(a), Rec::G(b)) => list("geopotential", &geopotential_fields(a), &geopotential_fields(b)),
            (Rec::P(a), Rec::P(b)) => list("prediction", &[a.position, a.velocity].concat(), &[b.position, b.velocity].concat()),
            _ => Some("another type".into()),
        }
    }

    fn write(&mut self, name: &str, content: Vec<u8>) {
        let f = self.files.entry(name.to_string()).or_default();
        f.content = content;
    }
    fn sync(&mut self, name: &str) {
        if let Some(f) = self.files.get_mut(name) {
            f.durable = Some(f.content.clone());
            f.replaced = None;
        }
    }
    fn rename(&mut self, from: &str, to: &str) {
        if let Some(f) = self.files.remove(from) {
            let before = self.files.get(to).map(|t| t.replaced.clone().unwrap_or(t.durable.clone()));
            self.files.insert(to.to_string(), File { replaced: Some(before.unwrap_or(None)), ..f });
        }
    }
    fn crash(&mut self, fates: &[u64], st: &mut Stats) {
        let mut k = 0;
        let mut fate = || {
            k += 1;
            fates.get((k - 1) % fates.len().max(1)).copied().unwrap_or(0) ^ crate::rng::mix(k as u64)
        };
        for f in self.files.values_mut() {
            if let Some(before) = f.replaced.take() {
                // the rename may not have reached the disk
                if fate() % 2 == 0 {
                    st.count("fault:lost rename");
                    f.durable = before;
                    f.content = f.durable.clone().unwrap_or_default();
                    continue;
                }
            }
            if f.durable.as_ref() == Some(&f.content) {
                continue;
            }
            let v = fate();
            let old = f.durable.clone().unwrap_or_default();
            f.content = match v % 5 {
                // nothing of it was written
                0 => {
                    st.count("fault:lost write");
                    old
                }
                // everything was
                1 => {
                    st.count("unsynchronised write survived");
                    std::mem::take(&mut f.content)
                }
                // the file was truncated and written up to some byte
                _ => {
                    st.count("fault:torn write");
                    // an append keeps what was there
                    let keep = if f.content.starts_with(&old) { old.len() } else { 0 };
                    let tail = f.content.len() - keep;
                    let cut = if v % 5 == 2 { (v >> 8) as usize % (tail + 1) } else { tail.saturating_sub(1 + (v >> 8) as usize % 40) };
                    f.content.truncate(keep + cut);
                    std::mem::take(&mut f.content)
                }
            };
            f.durable = Some(f.content.clone());
        }
        self.files.retain(|_, f| f.durable.is_some());
        // the application starts again from its sources
        self.current = self.originals.clone();
    }

    fn observe(&mut self, v: u64) {
        self.hash = fold(self.hash, v);
    }

    /// Reads one stored record; `bytes` as found on disk
    fn restore(&mut self, bytes: &[u8], format: Format, record: usize, chunks: &[usize], interrupts: &[u64], st: &mut Stats) -> Result<(), Violation> {
        let complete = self.written.iter().any(|(b, r, f)| b == bytes && *r == record && *f == format);
        let mut stream = SimReader::new(bytes, chunks, interrupts, None, false);
        let r = self.originals[record].decode(format, bytes, &mut stream);
        if stream.interrupted > 0 {
            st.add("fault:interrupted read", stream.interrupted);
        }
        if stream.short > 0 {
            st.add("fault:short read", stream.short);
        }
        let kind = self.originals[record].kind();
        self.observe(fold_bytes(complete as u64, format!("{:?}", r.as_ref().map(|_| ())).as_bytes()));
        match r {
            Ok(got) => {
                if !complete {
                    return bad("damaged-copy-accepted", format!("{kind}: a stored copy of {} bytes ({}) was restored", bytes.len(), super::props::c08::show(bytes)));
                }
                let exact = matches!(format, Format::Binary | Format::Tree);
                let probe = [F(0.0), F(-360.0), F(123.0), F(1440.0), F(10000.0)];
                for afspc in [false, true] {
                    if let Some(d) = self.differs(record, &got, exact, &probe, afspc) {
                        return bad("restored-copy-differs", format!("{kind} {record} stored as {format:?}: {d}"));
                    }
                }
                st.count("restored complete copies");
                st.nontrivial = true;
                if exact {
                    self.current[record] = got;
                }
            }
            Err(e) => {
                if complete {
                    return bad("complete-copy-refused", format!("{kind} {record} stored as {format:?} ({}): {e}", super::props::c08::show(bytes)));
                }
                if e.starts_with("panic") {
                    return bad("panic", format!("{kind}: a damaged copy of {} bytes: {e}", bytes.len()));
                }
                st.count("refused damaged copies");
            }
        }
        Ok(())
    }

    pub fn event(&mut self, e: &Event, st: &mut Stats) -> Result<(), Violation> {
        let n = self.originals.len();
        if n == 0 {
            return Ok(());
        }
        match e {
            Event::Save { record, file, format, protocol, sync } => {
                let record = record % n;
                let r = self.current[record].clone();
                let mut format = *format;
                if matches!(r, Rec::E(_)) && format == Format::Binary {
                    format = Format::Tree;
                }
                if format != Format::Binary && !self.originals[record].finite() {
                    if matches!(r, Rec::E(_)) {
                        return Ok(());
                    }
                    format = Format::Binary;
                }
                let bytes = match r.encode(format) {
                    Ok(b) => b,
                    Err(e) => return bad("cannot-be-stored", format!("{} {record} as {format:?}: {e}", r.kind())),
                };
                self.observe(fold_bytes(1, &bytes));
                st.shape(fold(format as u64 * 8 + *protocol as u64, *sync as u64));
                st.state(fold(fold(1, record_kind(&r)), format as u64 * 64 + *protocol as u64 * 8 + *sync as u64));
                if !self.written.iter().any(|(b, r, f)| *b == bytes && *r == record && *f == format) {
                    self.written.push((bytes.clone(), record, format));
                }
                st.count("saves");
                let name = name(*file, record, format, *protocol == Protocol::Append);
                match protocol {
                    Protocol::Append if format != Format::Binary => {
                        let mut c = self.files.get(&name).map(|f| f.content.clone()).unwrap_or_default();
                        if !c.is_empty() && !c.ends_with(b"\n") {
                            c.push(b'\n');
                        }
                        c.extend(bytes);
                        c.push(b'\n');
                        self.write(&name, c);
                        if *sync {
                            self.sync(&name);
                        }
                    }
                    Protocol::InPlace | Protocol::Append => {
                        self.write(&name, bytes);
                        if *sync {
                            self.sync(&name);
                        }
                    }
                    Protocol::Replace | Protocol::ReplaceUnsynced => {
                        let temporary = format!("tmp-{name}");
                        self.write(&temporary, bytes);
                        if *protocol == Protocol::Replace {
                            self.sync(&temporary);
                        }
                        self.rename(&temporary, &name);
                        if *sync {
                            self.sync(&name);
                        }
                    }
                }
            }
            Event::Restore { file, chunks, interrupts } => {
                if self.files.is_empty() {
                    return Ok(());
                }
                let chunks: Vec<usize> = chunks.iter().map(|c| (*c).max(1)).collect();
                let (name, content) = {
                    let (k, f) = self.files.iter().nth(file % self.files.len()).unwrap();
                    (k.clone(), f.content.clone())
                };
                let (record, format, journal) = parse_name(&name);
                st.shape(fold(2, format as u64));
                if journal {
                    let mut lines: Vec<&[u8]> = content.split(|c| *c == b'\n').collect();
                    if lines.last().is_some_and(|l| l.is_empty()) {
                        lines.pop();
                    }
                    for l in lines {
                        self.restore(l, format, record, &chunks, interrupts, st)?;
                    }
                } else {
                    self.restore(&content, format, record, &chunks, interrupts, st)?;
                }
            }
            Event::Crash { fates } => {
                st.count("fault:crash");
                st.shape(3);
                self.crash(fates, st);
                // everything found after the crash is read back
                let names: Vec<String> = self.files.keys().cloned().collect();
                for (i, _) in names.iter().enumerate() {
                    self.event(&Event::Restore { file: i, chunks: vec![64], interrupts: vec![] }, st)?;
                }
            }
            Event::Use { record, times, afspc } => {
                let record = record % n;
                st.shape(4);
                let got = self.current[record].clone();
                if let Some(d) = self.differs(record, &got, true, times, *afspc) {
                    return bad("restored-copy-differs", format!("{} {record} after being stored and restored: {d}", got.kind()));
                }
                if let Rec::C(c) = &got {
                    for o in predictions(c, times, *afspc) {
                        self.observe(o.hash());
                    }
                    st.sim_minutes += times.iter().map(|t| if t.0.is_finite() { t.0.abs() } else { 0.0 }).sum::<f64>();
                }
                if let Rec::E(e) = &got {
                    self.message(e, st)?;
                }
            }
            Event::Audit { record, null } => {
                let record = record % n;
                st.shape(5);
                if !self.originals[record].finite() {
                    return Ok(());
                }
                let v = match self.current[record].value() {
                    Ok(v) => v,
                    Err(e) => return bad("cannot-be-stored", format!("{}: {e}", self.current[record].kind())),
                };
                let mut paths = Vec::new();
                enumerate(&v, &mut Vec::new(), &mut paths);
                for p in paths {
                    let name = p.last().cloned().unwrap_or_default();
                    if matches!(self.originals[record], Rec::E(_)) && p.len() == 1 && (name == "OBJECT_NAME" || name == "OBJECT_ID") {
                        continue;
                    }
                    let mut d = v.clone();
                    if !lose(&mut d, &p, *null) {
                        continue;
                    }
                    st.count("fault:lost field");
                    match self.originals[record].from_value(d.clone()) {
                        Ok(_) => return bad("missing-part-completed", format!("{} without {}{}", self.current[record].kind(), p.join("."), if *null { " (null)" } else { "" })),
                        Err(e) if e.starts_with("panic") => return bad("panic", format!("{} without {}: {e}", self.current[record].kind(), p.join("."))),
                        Err(_) => {}
                    }
                    // the same loss, seen by the text reader
                    let t = d.to_string();
                    let mut nothing: &[u8] = &[];
                    if self.originals[record].decode(Format::Slice, t.as_bytes(), &mut nothing).is_ok() {
                        return bad("missing-part-completed", format!("{} text without {}", self.current[record].kind(), p.join(".")));
                    }
                }
                st.nontrivial = true;
            }
            Event::Cuts { record, format, at } => {
                let record = record % n;
                st.shape(6);
                if (*format != Format::Binary && !self.originals[record].finite()) || (*format == Format::Binary && matches!(self.originals[record], Rec::E(_))) {
                    return Ok(());
                }
                let bytes = match self.current[record].encode(*format) {
                    Ok(b) => b,
                    Err(e) => return bad("cannot-be-stored", format!("{} as {format:?}: {e}", self.current[record].kind())),
                };
                for f in at {
                    let k = (f.0.clamp(0.0, 1.0) * bytes.len() as f64) as usize;
                    let k = k.min(bytes.len().saturating_sub(1));
                    st.count("fault:cut copy");
                    let mut stream = SimReader::new(&bytes, &[17], &[], Some((k, Kind::Eof)), false);
                    match self.originals[record].decode(*format, &bytes[..k], &mut stream) {
                        Ok(_) => return bad("damaged-copy-accepted", format!("{} as {format:?}, first {k} of {} bytes", self.current[record].kind(), bytes.len())),
                        Err(e) if e.starts_with("panic") => return bad("panic", format!("{} as {format:?}, first {k} of {} bytes: {e}", self.current[record].kind(), bytes.len())),
                        Err(_) => {}
                    }
                }
            }
        }
        st.observe(self.hash);
        Ok(())
    }

    /// A stored element set is an OMM message
    fn message(&self, e: &Elements, st: &mut Stats) -> Result<(), Violation> {
        if !floats(e).iter().all(|v| v.is_finite()) {
            return Ok(());
        }
        let t = match Rec::E(e.clone()).encode(Format::Tree) {
            Ok(t) => t,
            Err(x) => return bad("cannot-be-stored", x),
        };
        match crate::omm::read(&t, false) {
            Verdict::Accept(v) => {
                st.count("stored sets read as OMM by the independent reader");
                if let Some(d) = differs(e, &v[0], 0, 0.0) {
                    return bad("not-the-same-message", format!("{} reads as another set: {d}", super::props::c08::show(&t)));
                }
            }
            Verdict::Reject(why) => return bad("not-a-message", format!("{} ({why})", super::props::c08::show(&t))),
            Verdict::DontCare(_) => st.count("stored sets outside the standard's range"),
        }
        Ok(())
    }
}

fn record_kind(r: &Rec) -> u64 {
    match r {
        Rec::C(_) => 0,
        Rec::E(_) => 1,
        Rec::O(_) => 2,
        Rec::G(_) => 3,
        Rec::P(_) => 4,
    }
}

fn name(file: usize, record: usize, format: Format, journal: bool) -> String {
    let f = match format {
        Format::Binary => "bin",
        Format::Tree => "tree",
        Format::Slice => "json",
        Format::Stream => "stream",
    };
    format!("{}{}.{record}.{f}", if journal && format != Format::Binary { "journal" } else { "file" }, file % 3)
}

fn parse_name(s: &str) -> (usize, Format, bool) {
    let s = s.strip_prefix("tmp-").unwrap_or(s);
    let mut p = s.split('.');
    let journal = p.next().unwrap_or("").starts_with("journal");
    let record = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    let format = match p.next().unwrap_or("") {
        "bin" => Format::Binary,
        "tree" => Format::Tree,
        "json" => Format::Slice,
        _ => Format::Stream,
    };
    (record, format, journal)
}

fn enumerate(v: &Value, here: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                here.push(k.clone());
                out.push(here.clone());
                enumerate(x, here, out);
                here.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                here.push(i.to_string());
                out.push(here.clone());
                enumerate(x, here, out);
                here.pop();
            }
        }
        _ => {}
    }
}

/// Removes the part at the path (or its value)
fn lose(v: &mut Value, path: &[String], null: bool) -> bool {
    let Some((last, front)) = path.split_last() else { return false };
    let mut at = v;
    for k in front {
        at = match at {
            Value::Object(o) => match o.get_mut(k) {
                Some(x) => x,
                None => return false,
            },
            Value::Array(a) => match k.parse::<usize>().ok().and_then(|i| a.get_mut(i)) {
                Some(x) => x,
                None => return false,
            },
            _ => return false,
        };
    }
    match at {
        Value::Object(o) => {
            if null {
                match o.get_mut(last) {
                    // an empty part holds nothing that could be lost
                    Some(Value::Object(x)) if x.is_empty() => false,
                    Some(x) => {
                        *x = Value::Null;
                        true
                    }
                    None => false,
                }
            } else {
                o.remove(last).is_some()
            }
        }
        Value::Array(a) => match last.parse::<usize>() {
            Ok(i) if i < a.len() => {
                if null {
                    a[i] = Value::Null;
                } else {
                    a.remove(i);
                }
                true
            }
            _ => false,
        },
        _ => false,
    }
}

pub fn gen_events(r: &mut Rng, records: usize) -> Vec<Event> {
    let mut v = Vec::new();
    for _ in 0..6 + r.below(30) {
        let record = r.idx(records);
        v.push(match r.weighted(&[8, 6, 3, 4, 1, 2]) {
            0 => Event::Save {
                record,
                file: r.idx(3),
                format: *r.pick(&[Format::Binary, Format::Tree, Format::Tree, Format::Slice, Format::Stream]),
                protocol: *r.pick(&[Protocol::InPlace, Protocol::Replace, Protocol::ReplaceUnsynced, Protocol::Append]),
                sync: r.chance(0.4),
            },
            1 => Event::Restore {
                file: r.idx(12),
                chunks: (0..1 + r.below(3)).map(|_| 1 + r.idx(200)).collect(),
                interrupts: (0..r.below(4)).map(|_| r.below(20)).collect(),
            },
            2 => Event::Crash { fates: (0..1 + r.below(4)).map(|_| r.u64() >> 16).collect() },
            3 => Event::Use { record, times: (0..1 + r.below(4)).map(|_| gen_time(r)).collect(), afspc: r.chance(0.5) },
            4 => Event::Audit { record, null: r.chance(0.3) },
            _ => Event::Cuts {
                record,
                format: *r.pick(&[Format::Binary, Format::Tree, Format::Slice, Format::Stream]),
                at: (0..1 + r.below(6)).map(|_| F(if r.chance(0.3) { 1.0 } else { r.unit() })).collect(),
            },
        });
    }
    v
}

fn gen_time(r: &mut Rng) -> F {
    let t = match r.below(8) {
        0 => 0.0,
        1 => r.log(4.0, 6.0),
        2 => 720.0 * r.range(0, 20) as f64,
        _ => r.uniform(0.0, 5000.0),
    };
    F(if r.chance(0.4) { -t } else { t })
}
