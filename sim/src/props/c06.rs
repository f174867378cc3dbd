use super::c08::show;
use super::{Prop, Runs};
use crate::hooks::{lib, Panic};
use crate::omm;
use crate::plan::{bad, Violation, B};
use crate::rng::{fold, fold_bytes, Rng};
use crate::stats::Stats;
use crate::tle::{differs, Verdict};
use serde::{Deserialize, Serialize};
use sgp4::Elements;
use std::io::{self, Read};

pub struct C06;

#[derive(Serialize, Deserialize, Clone)]
pub enum FieldFault {
    Drop,
    Duplicate { raw: Option<String> },
    Replace { raw: String },
    Rename { raw: String },
}

#[derive(Serialize, Deserialize, Clone)]
pub enum ByteFault {
    Flip { at: usize, bit: u8 },
    Lose { at: usize, n: usize },
    Insert { at: usize, bytes: B },
    Append { bytes: B },
    Cut { at: usize },
}

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq)]
pub enum Kind {
    Eof,
    Reset,
    TimedOut,
    WouldBlock,
    Other,
}

#[derive(Serialize, Deserialize, Clone)]
pub enum Delivery {
    Slice,
    Str,
    Stream {
        /// 0: the parser reads the stream directly; otherwise through a buffer of this size
        buffer: usize,
        /// how many bytes the successive reads return at most
        chunks: Vec<usize>,
        /// which reads (by number) are interrupted by a signal first
        interrupts: Vec<u64>,
        /// the stream ends or fails after this many bytes
        end: Option<(usize, Kind)>,
        /// after a failure the stream would continue to deliver
        resumes: bool,
    },
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    messages: Vec<Vec<(String, String)>>,
    list: bool,
    /// read a single message as a list or the reverse
    wrong_shape: bool,
    spacing: u8,
    fields: Vec<(usize, usize, FieldFault)>,
    bytes: Vec<ByteFault>,
    deliveries: Vec<Delivery>,
}

/// The simulated byte stream
pub struct SimReader<'a> {
    pub data: &'a [u8],
    pub position: usize,
    pub chunks: &'a [usize],
    pub interrupts: &'a [u64],
    /// besides, every so many reads are interrupted (0: none)
    pub interrupt_every: u64,
    pub end: Option<(usize, Kind)>,
    pub resumes: bool,
    pub reads: u64,
    pub pending: bool,
    pub interrupted: u64,
    pub failed: bool,
    pub short: u64,
}

impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8], chunks: &'a [usize], interrupts: &'a [u64], end: Option<(usize, Kind)>, resumes: bool) -> SimReader<'a> {
        SimReader { data, position: 0, chunks, interrupts, interrupt_every: 0, end, resumes, reads: 0, pending: true, interrupted: 0, failed: false, short: 0 }
    }
}

impl Read for SimReader<'_> {
    fn read(&mut self, buffer: &mut [u8]) -> io::Result<usize> {
        crate::hooks::yield_point();
        let k = self.reads;
        if self.pending && (self.interrupts.contains(&k) || (self.interrupt_every > 0 && k % self.interrupt_every == 0)) {
            self.pending = false;
            self.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.pending = true;
        self.reads += 1;
        let mut limit = self.data.len();
        if let Some((at, kind)) = self.end {
            if !(self.failed && self.resumes) {
                limit = limit.min(at);
                if self.position >= limit {
                    let e = match kind {
                        Kind::Eof => return Ok(0),
                        Kind::Reset => io::ErrorKind::ConnectionReset,
                        Kind::TimedOut => io::ErrorKind::TimedOut,
                        Kind::WouldBlock => io::ErrorKind::WouldBlock,
                        Kind::Other => io::ErrorKind::Other,
                    };
                    self.failed = true;
                    return Err(e.into());
                }
            }
        }
        let want = match self.chunks.is_empty() {
            true => buffer.len(),
            false => self.chunks[(k % self.chunks.len() as u64) as usize].max(1),
        };
        let n = want.min(buffer.len()).min(limit - self.position);
        if n < buffer.len() && n > 0 {
            self.short += 1;
        }
        buffer[..n].copy_from_slice(&self.data[self.position..self.position + n]);
        self.position += n;
        Ok(n)
    }
}

pub enum Items {
    One(Elements),
    List(Vec<Elements>),
}
impl Items {
    pub fn all(&self) -> &[Elements] {
        match self {
            Items::One(e) => std::slice::from_ref(e),
            Items::List(v) => v,
        }
    }
}

pub fn gen_field_fault(r: &mut Rng, key: &str) -> FieldFault {
    match r.below(8) {
        0 | 1 => FieldFault::Drop,
        2 => FieldFault::Duplicate { raw: if r.chance(0.5) { None } else { Some(omm::gen_bad_value(r, key)) } },
        3 => FieldFault::Rename { raw: format!("\"{}\"", *r.pick(&[key.to_lowercase(), format!("{key} "), format!("{key}S"), "EPOCH".to_string(), "BSTAR".to_string()])) },
        _ => FieldFault::Replace { raw: omm::gen_bad_value(r, key) },
    }
}

fn gen_delivery(r: &mut Rng, length: usize) -> Delivery {
    match r.below(8) {
        0 => Delivery::Slice,
        1 => Delivery::Str,
        _ => {
            let chunks = match r.below(5) {
                0 => vec![1],
                1 => vec![],
                2 => vec![r.idx(64) + 1],
                _ => (0..1 + r.below(12)).map(|_| if r.chance(0.5) { 1 + r.idx(4) } else { 1 + r.idx(200) }).collect(),
            };
            let interrupts = match r.below(3) {
                0 => vec![],
                _ => (0..1 + r.below(10)).map(|_| if r.chance(0.3) { r.below(4) } else { r.below(600) }).collect(),
            };
            let end = match r.below(5) {
                0 | 1 => {
                    let at = match r.below(5) {
                        0 => length.saturating_sub(r.idx(4)),
                        1 => r.idx(4),
                        _ => r.idx(length + 1),
                    };
                    Some((at, *r.pick(&[Kind::Eof, Kind::Eof, Kind::Eof, Kind::Reset, Kind::TimedOut, Kind::WouldBlock, Kind::Other])))
                }
                _ => None,
            };
            Delivery::Stream { buffer: *r.pick(&[0, 0, 1, 7, 64, 8192]), chunks, interrupts, end, resumes: r.chance(0.3) }
        }
    }
}

impl Prop for C06 {
    const ID: &'static str = "C06";
    const RULE: &'static str = "one run = one OMM text of 0-5, rarely up to 305 messages with 0-3 field or byte faults, delivered 1-5 times from memory and over simulated streams with short reads, interruptions, early ends and failures; non-trivial: at least one stream delivery with a short read, interruption, failure or early end; distinct: sequence of (fault kinds and fields, delivery kinds, verdicts)";
    const REAL: &'static str = "all of sgp4 (both builds), serde and serde_json with the features the crate's dependency enables";
    const STUB: &'static str = "the byte stream; independent JSON reader and reference reading of the OMM fields";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "JSON numbers may be off by the rounding of the JSON reader (8 units in the last place)",
        "unusual but arguable values (integers written with fraction or exponent, leading plus, other date syntaxes, lone surrogates, wrong type of the optional name and designator) may be accepted or refused; only the absence of panics is checked for them",
    ];
    type Plan = Plan;
    fn runs(quick: bool) -> Runs {
        if quick {
            Runs { std: 400_000, libm: 80_000 }
        } else {
            Runs { std: 5_000_000, libm: 1_000_000 }
        }
    }
    fn gen(r: &mut Rng, _: u64) -> Plan {
        let list = r.chance(0.6);
        let n = if list { *r.pick(&[0, 1, 2, 2, 3, 5]) } else { 1 };
        // now and then a catalogue of realistic length
        let n = if list && r.chance(0.002) { 6 + r.idx(300) } else { n };
        let messages: Vec<Vec<(String, String)>> = (0..n).map(|_| omm::gen_message(r)).collect();
        let mut fields = Vec::new();
        if n > 0 && r.chance(0.5) {
            for _ in 0..1 + r.below(2) {
                let m = r.idx(n);
                let f = r.idx(messages[m].len());
                let key = messages[m][f].0.trim_matches('"').to_string();
                fields.push((m, f, gen_field_fault(r, &key)));
            }
        }
        let spacing = r.below(16) as u8;
        let length = omm::render(&messages, list, spacing).len();
        let mut bytes = Vec::new();
        if r.chance(0.25) {
            for _ in 0..1 + r.below(2) {
                let at = r.idx(length + 1);
                bytes.push(match r.below(6) {
                    0 | 1 => ByteFault::Flip { at, bit: r.below(7) as u8 },
                    2 => ByteFault::Lose { at, n: 1 + r.idx(3) },
                    3 => {
                        let b = (0..1 + r.below(2)).map(|_| if r.chance(0.7) { *r.pick(b"\",:{}[]0e-.\\ \n") } else { r.below(256) as u8 }).collect();
                        ByteFault::Insert { at, bytes: B(b) }
                    }
                    4 => ByteFault::Append { bytes: B(r.pick(&[&b","[..], b"]", b"{}", b"\0", b"null", b"x", b" \n"]).to_vec()) },
                    _ => ByteFault::Cut { at },
                });
            }
        }
        let deliveries = (0..1 + r.below(5)).map(|_| gen_delivery(r, length)).collect();
        Plan { messages, list, wrong_shape: r.chance(0.04), spacing, fields, bytes, deliveries }
    }
    fn exec(p: &Plan, st: &mut Stats) -> Result<(), Violation> {
        let mut messages = p.messages.clone();
        for (m, f, fault) in &p.fields {
            let Some(msg) = messages.get_mut(*m) else { continue };
            if *f >= msg.len() {
                continue;
            }
            st.shape(fold_bytes(0, msg[*f].0.as_bytes()));
            match fault {
                FieldFault::Drop => {
                    msg.remove(*f);
                    st.count("fault:field missing");
                    st.shape(1);
                }
                FieldFault::Duplicate { raw } => {
                    let mut d = msg[*f].clone();
                    if let Some(raw) = raw {
                        d.1 = raw.clone();
                    }
                    msg.push(d);
                    st.count("fault:field duplicated");
                    st.shape(2);
                }
                FieldFault::Replace { raw } => {
                    msg[*f].1 = raw.clone();
                    st.count("fault:field value damaged");
                    st.shape(fold_bytes(3, raw.as_bytes()));
                }
                FieldFault::Rename { raw } => {
                    msg[*f].0 = raw.clone();
                    st.count("fault:field renamed");
                    st.shape(4);
                }
            }
        }
        let mut text = omm::render(&messages, p.list, p.spacing);
        for f in &p.bytes {
            match f {
                ByteFault::Flip { at, bit } => {
                    if let Some(b) = text.get_mut(*at) {
                        *b ^= 1 << (bit % 8);
                    }
                    st.count("fault:bit flip");
                    st.shape(10 + *bit as u64);
                }
                ByteFault::Lose { at, n } => {
                    let a = (*at).min(text.len());
                    let b = (at + n).min(text.len());
                    text.drain(a..b);
                    st.count("fault:byte loss");
                    st.shape(20);
                }
                ByteFault::Insert { at, bytes } => {
                    let a = (*at).min(text.len());
                    text.splice(a..a, bytes.0.iter().copied());
                    st.count("fault:byte insertion");
                    st.shape(21);
                }
                ByteFault::Append { bytes } => {
                    text.extend(&bytes.0);
                    st.count("fault:trailing bytes");
                    st.shape(22);
                }
                ByteFault::Cut { at } => {
                    text.truncate(*at);
                    st.count("fault:text cut");
                    st.shape(23);
                }
            }
        }
        let list = p.list != p.wrong_shape;
        let mut stream_faults = 0u64;
        let one = |r: Result<Elements, serde_json::Error>| r.map(Items::One).map_err(|e| e.to_string());
        let many = |r: Result<Vec<Elements>, serde_json::Error>| r.map(Items::List).map_err(|e| e.to_string());
        for (i, d) in p.deliveries.iter().enumerate() {
            let mut arrived = &text[..];
            let mut failed = false;
            let r = match d {
                Delivery::Slice => {
                    st.shape(30);
                    st.count("deliveries from memory");
                    lib(|| if list { many(shim::omm_list_slice(&text)) } else { one(shim::omm_one_slice(&text)) })
                }
                Delivery::Str => {
                    let Ok(s) = std::str::from_utf8(&text) else { continue };
                    st.shape(31);
                    st.count("deliveries from memory");
                    lib(|| if list { many(shim::omm_list_str(s)) } else { one(shim::omm_one_str(s)) })
                }
                Delivery::Stream { buffer, chunks, interrupts, end, resumes } => {
                    let mut s = SimReader::new(&text, chunks, interrupts, *end, *resumes);
                    if let Some((at, kind)) = end {
                        if *kind == Kind::Eof {
                            arrived = &text[..(*at).min(text.len())];
                        } else {
                            failed = true;
                        }
                    }
                    let r = lib(|| {
                        if *buffer == 0 {
                            if list {
                                many(shim::omm_list_reader(&mut s))
                            } else {
                                one(shim::omm_one_reader(&mut s))
                            }
                        } else {
                            let mut b = io::BufReader::with_capacity(*buffer, &mut s);
                            if list {
                                many(shim::omm_list_reader(&mut b))
                            } else {
                                one(shim::omm_one_reader(&mut b))
                            }
                        }
                    });
                    st.count("deliveries by stream");
                    st.add("fault:interrupted read", s.interrupted);
                    st.add("fault:short read", s.short);
                    if s.failed {
                        st.count("fault:stream failure");
                    }
                    if arrived.len() < text.len() {
                        st.count("fault:stream ends early");
                    }
                    stream_faults += s.interrupted + s.short + failed as u64 + (arrived.len() < text.len()) as u64;
                    st.shape(fold(fold(32, *buffer as u64), (s.interrupted.min(3) << 4) + (chunks.len() as u64) * 2 + failed as u64));
                    st.shape(end.map_or(0, |e| 1 + e.1 as u64));
                    if let Some((at, k)) = end {
                        st.state(fold(*at as u64, *k as u64));
                    }
                    r
                }
            };
            let what = || format!("delivery {i} ({}), {} of {}", serde_json::to_string(d).unwrap_or_default(), if list { "list" } else { "message" }, show(arrived));
            let r = match r {
                Ok(r) => r,
                Err(Panic(m)) => return bad("panic", format!("{}: reading panicked: {m}", what())),
            };
            let verdict = if failed { Verdict::Reject("stream failure") } else { omm::read(arrived, list) };
            st.shape(r.is_ok() as u64);
            st.observe(r.as_ref().map_or(0, |v| 1 + v.all().len() as u64));
            match (&verdict, &r) {
                (Verdict::Reject(w), Ok(v)) => return bad("damage-accepted", format!("{}: {} sets returned despite: {w}", what(), v.all().len())),
                (Verdict::Reject(_), Err(_)) => st.count("refused"),
                (Verdict::Accept(_), Err(e)) => return bad("intact-refused", format!("{}: refused: {e}", what())),
                (Verdict::Accept(t), Ok(v)) => {
                    st.count("accepted");
                    if v.all().len() != t.len() {
                        return bad("wrong-count", format!("{}: {} sets instead of {}", what(), v.all().len(), t.len()));
                    }
                    for (k, (e, t)) in v.all().iter().zip(t).enumerate() {
                        if let Some(d) = differs(e, t, 0, 8.0) {
                            return bad("misread", format!("{}: message {k}: {d}", what()));
                        }
                    }
                }
                (Verdict::DontCare(_), _) => st.count("arguable, either outcome"),
            }
            if let Ok(v) = &r {
                for (k, e) in v.all().iter().enumerate() {
                    for afspc in [false, true] {
                        match lib(|| if afspc { shim::from_elements_afspc(e) } else { shim::from_elements(e) }) {
                            Ok(r) => st.observe(r.is_ok() as u64),
                            Err(Panic(m)) => return bad("panic-after-accept", format!("{}: initialising from message {k} (afspc {afspc}) panicked: {m}", what())),
                        }
                    }
                }
            }
        }
        st.nontrivial = stream_faults > 0;
        Ok(())
    }
}
