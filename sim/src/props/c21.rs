use super::c06::{Kind, SimReader};
use super::{Prop, Runs};
use crate::bytes;
use crate::hooks::{lib_budget, Panic};
use crate::omm;
use crate::plan::{bad, Violation, B};
use crate::rng::{fold, Rng};
use crate::stats::Stats;
use crate::tle;
use serde::{Deserialize, Serialize};

pub struct C21;

/// Work is counted in instrumented events (control-flow edges, loads and stores) of the crate under
/// test and of the generic code instantiated for it. The unchanged crate needs at most the
/// values in the maxima of the evidence; the limits leave a factor of ten and more.
const ONCE: u64 = 20_000;
const PER_BYTE: u64 = 200;
/// A delivery `TIMES` as long may take this many times the work, and `ONCE` more
const TIMES: usize = 4;
const GROWTH: f64 = 6.0;
/// The same for the bytes that the standard and C libraries copy, compare, search or decode meanwhile
const MOVED_ONCE: u64 = 50_000;
const MOVED_PER_BYTE: u64 = 100;

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq)]
pub enum Reader {
    Two,
    Three,
    /// one object, with the delivered text as one of its lines or as its name
    Pair(u8),
    Message,
    List,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Stream {
    chunk: usize,
    /// every so many reads are interrupted by a signal first (0: none)
    interrupt: u64,
    /// the stream fails this many bytes before its end
    fails: Option<usize>,
    buffer: usize,
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    reader: Reader,
    before: B,
    /// repeated in turn: what there is much of
    units: Vec<B>,
    after: B,
    n: usize,
    /// OMM only: delivered as a stream
    stream: Option<Stream>,
}

fn text(p: &Plan, n: usize) -> Vec<u8> {
    let mut t = p.before.0.clone();
    if !p.units.is_empty() {
        for i in 0..n {
            t.extend(&p.units[i % p.units.len()].0);
        }
    }
    t.extend(&p.after.0);
    t
}

/// Outcome (number of sets, or none if refused) or panic message, work, bytes touched, size
fn read(p: &Plan, n: usize) -> (Result<Option<usize>, String>, u64, u64, usize) {
    let t = text(p, n);
    let budget = ONCE * 10 + PER_BYTE * 10 * t.len() as u64;
    let s = String::from_utf8_lossy(&t);
    let (l1, l2) = (&tle_pair().0, &tle_pair().1);
    let end = p.stream.as_ref().and_then(|s| s.fails.map(|k| (t.len().saturating_sub(k), Kind::TimedOut)));
    let before = bytes::count();
    let (r, work) = match (&p.reader, &p.stream) {
        (Reader::Two, _) => lib_budget(budget, || shim::parse_2les(&s).ok().map(|v| v.len())),
        (Reader::Three, _) => lib_budget(budget, || shim::parse_3les(&s).ok().map(|v| v.len())),
        (Reader::Pair(k), _) => lib_budget(budget, || {
            match k % 3 {
                0 => shim::from_tle(Some(s.to_string()), l1, l2),
                1 => shim::from_tle(None, &t, l2),
                _ => shim::from_tle(None, l1, &t),
            }
            .ok()
            .map(|_| 1)
        }),
        (Reader::Message, None) => lib_budget(budget, || shim::omm_one_slice(&t).ok().map(|_| 1)),
        (Reader::List, None) => lib_budget(budget, || shim::omm_list_slice(&t).ok().map(|v| v.len())),
        (reader, Some(s)) => {
            let chunks = [s.chunk.max(1)];
            let mut source = SimReader::new(&t, &chunks, &[], end, false);
            source.interrupt_every = s.interrupt;
            lib_budget(budget, || {
                let mut buffered;
                let from: &mut dyn std::io::Read = if s.buffer == 0 {
                    &mut source
                } else {
                    buffered = std::io::BufReader::with_capacity(s.buffer, &mut source);
                    &mut buffered
                };
                match reader {
                    Reader::List => shim::omm_list_reader(from).ok().map(|v| v.len()),
                    _ => shim::omm_one_reader(from).ok().map(|_| 1),
                }
            })
        }
    };
    let moved = bytes::count() - before;
    (r.map_err(|Panic(m)| m), work, moved, t.len())
}

fn tle_pair() -> (Vec<u8>, Vec<u8>) {
    (
        b"1 25544U 98067A   08264.51782528 -.00002182  00000-0 -11606-4 0  2927".to_vec(),
        b"2 25544  51.6416 247.4627 0006703 130.5360 325.0288 15.72125391563537".to_vec(),
    )
}

fn group(r: &mut Rng, three: bool, damage: bool) -> Vec<u8> {
    let norad = tle::gen_norad(r);
    let (mut a, mut b) = tle::gen_pair(r, norad);
    if damage {
        let l = if r.chance(0.5) { &mut a } else { &mut b };
        let at = r.idx(l.len());
        l[at] = *r.pick(b"x .-");
    }
    let mut t = Vec::new();
    if three {
        t.extend(tle::gen_title(r).into_bytes());
        t.push(b'\n');
    }
    t.extend(a);
    if r.chance(0.3) {
        t.push(b'\r');
    }
    t.push(b'\n');
    t.extend(b);
    t.push(b'\n');
    t
}

fn message(r: &mut Rng) -> Vec<u8> {
    let m = omm::gen_message(r);
    omm::render(&[m], false, 0)
}

fn gen_catalogue(r: &mut Rng, three: bool) -> (Vec<u8>, Vec<Vec<u8>>, Vec<u8>) {
    let before = if r.chance(0.3) { group(r, three, false) } else { vec![] };
    let units: Vec<Vec<u8>> = match r.below(10) {
        // objects, all different or the same one again and again
        0..=4 => (0..1 + r.below(8)).map(|_| group(r, three, false)).collect(),
        // nothing but line ends, blanks or one endless line
        5 => vec![r.pick(&[&b"\n"[..], b"\r\n", b"\r", b" \n", b"\n\n\n"]).to_vec()],
        6 => vec![r.pick(&[&b" "[..], b"x", b"1 ", b"0", b"\t", b"\0", "\u{e9}".as_bytes(), "\u{2028}".as_bytes()]).to_vec()],
        // line ends lost: the groups run together
        7 => {
            let mut g = group(r, three, false);
            g.retain(|b| *b != b'\n');
            vec![g]
        }
        // the same line of an object repeated
        8 => {
            let g = group(r, false, false);
            vec![g.split_inclusive(|b| *b == b'\n').next().unwrap_or(b"").to_vec()]
        }
        _ => (0..1 + r.below(8)).map(|_| (0..1 + r.below(120)).map(|_| *r.pick(b"0123456789 .-+\nUx")).collect()).collect(),
    };
    let after = match r.below(4) {
        0 => group(r, three, true),
        1 => b"1".to_vec(),
        2 => group(r, three, false),
        _ => vec![],
    };
    (before, units, after)
}

fn gen_omm(r: &mut Rng, list: bool) -> (Vec<u8>, Vec<Vec<u8>>, Vec<u8>) {
    let m = message(r);
    let inner = m[1..m.len() - 1].to_vec();
    let open: &[u8] = if list { b"[{" } else { b"{" };
    let close: &[u8] = if list { b"}]" } else { b"}" };
    let join = |parts: &[&[u8]]| parts.concat();
    match r.below(if list { 10 } else { 6 }) {
        // blanks between the fields, fields nobody asked for
        0 => (join(&[open, &inner, b","]), vec![r.pick(&[&b" "[..], b"\n", b"\t", b"\r\n"]).to_vec()], join(&[b"\"X\":0", close])),
        1 => {
            let v = *r.pick(&[&b"1"[..], b"null", b"\"x\"", b"[1,2]", b"{\"a\":1}", b"1e400", b"tru"]);
            (join(&[open, &inner]), vec![join(&[b",\"UNKNOWN\":", v])], close.to_vec())
        }
        // an endless name, number or number in quotes, or unknown content
        2 => {
            let k = *r.pick(&["OBJECT_NAME", "OBJECT_ID", "CLASSIFICATION_TYPE", "X", "TIME_SYSTEM"]);
            (join(&[open, format!("\"{k}\":\"").as_bytes()]), vec![r.pick(&[&b"a"[..], b" ", b"\\n", b"\\u00e9", "\u{e9}".as_bytes()]).to_vec()], join(&[b"\",", &inner, close]))
        }
        3 => {
            let k = *r.pick(&["BSTAR", "MEAN_MOTION", "INCLINATION", "NORAD_CAT_ID", "REV_AT_EPOCH", "ELEMENT_SET_NO", "EPOCH"]);
            let q = *r.pick(&["", "\"", "\"0.", "0.", "\"-", "\"1e"]);
            let e: &[u8] = if q.starts_with('"') { b"\"," } else { b"," };
            (join(&[open, format!("\"{k}\":{q}").as_bytes()]), vec![r.pick(&[&b"0"[..], b"9", b" ", b"31", b"x"]).to_vec()], join(&[e, &inner, close]))
        }
        // nested without end
        4 => (join(&[open, &inner, b",\"X\":"]), vec![r.pick(&[&b"["[..], b"{\"a\":", b"[["]).to_vec()], close.to_vec()),
        // the same field again and again
        5 => {
            let f = *r.pick(&[&b",\"BSTAR\":0.1"[..], b",\"OBJECT_NAME\":\"x\"", b",\"EPOCH\":\"2020-01-01T00:00:00\""]);
            (join(&[open, &inner]), vec![f.to_vec()], close.to_vec())
        }
        // a long list, sound or damaged at its end
        _ => {
            let units = (0..1 + r.below(8)).map(|_| join(&[b",", &message(r)])).collect();
            let after = r.pick(&[&b"]"[..], b"", b",{}]", b"]]", b",", b"]\n"]).to_vec();
            (join(&[b"[", &m]), units, after)
        }
    }
}

impl Prop for C21 {
    const ID: &'static str = "C21";
    const RULE: &'static str = "one run = one delivery of up to about 1 MB to one reader, made of one thing repeated (objects, line ends, one endless line or value, unknown or nested fields, merged groups), sound or damaged at its end, from memory or over a stream with short and interrupted reads; read at a size and at four times that size, every call metered; non-trivial: the longer delivery has at least 20000 bytes, or a stream was interrupted or failed; distinct: (reader, what is repeated, size, kind of stream, outcome)";
    const REAL: &'static str = "the parsers and serde implementations of sgp4 (both builds); serde, serde_json";
    const STUB: &'static str = "the byte stream; work meter compiled into the crate under test";
    const ASSUMPTIONS: &'static [&'static str] = &["inside precompiled code the bytes copied, compared, searched for a byte, decoded as UTF-8 or read as a double are metered (linker wrappers); other work there is only guarded by a wall-clock watchdog"];
    type Plan = Plan;
    fn runs(quick: bool) -> Runs {
        if quick {
            Runs { std: 20_000, libm: 4_000 }
        } else {
            Runs { std: 400_000, libm: 80_000 }
        }
    }
    fn gen(r: &mut Rng, _: u64) -> Plan {
        let part = r.below(3) as u8;
        let reader = *r.pick(&[Reader::Two, Reader::Three, Reader::Two, Reader::Three, Reader::Message, Reader::List, Reader::List, Reader::Pair(part)]);
        let (before, units, after) = match reader {
            Reader::Two => gen_catalogue(r, false),
            Reader::Three => gen_catalogue(r, true),
            Reader::Message => gen_omm(r, false),
            Reader::List => gen_omm(r, true),
            Reader::Pair(_) => {
                let u = r.pick(&[&b" "[..], b"1", b"x", b"\n", b"-", b".", b"\xff", b"\0"]).to_vec();
                let start = if r.chance(0.5) { tle_pair().0 } else { b"2 ".to_vec() };
                (start, vec![u], vec![])
            }
        };
        let mean = units.iter().map(|u| u.len()).sum::<usize>() as f64 / units.len().max(1) as f64;
        let bytes = r.log(1.0, 5.3);
        let n = ((bytes / mean.max(1.0)) as usize).max(1);
        let stream = match reader {
            Reader::Message | Reader::List if r.chance(0.5) => {
                Some(Stream { chunk: *r.pick(&[1, 1, 2, 7, 64, 1000, 100_000]), interrupt: *r.pick(&[0, 1, 1, 3, 10, 100]), fails: if r.chance(0.2) { Some(r.idx(20)) } else { None }, buffer: *r.pick(&[0, 0, 1, 64, 8192]) })
            }
            _ => None,
        };
        Plan { reader, before: B(before), units: units.into_iter().map(B).collect(), after: B(after), n, stream }
    }
    fn exec(p: &Plan, st: &mut Stats) -> Result<(), Violation> {
        let mut works = Vec::new();
        let reader = match p.reader {
            Reader::Two => 0,
            Reader::Three => 1,
            Reader::Pair(k) => 2 + k as u64 % 3,
            Reader::Message => 5,
            Reader::List => 6,
        };
        let head: Vec<u8> = p.units.iter().flat_map(|u| u.0.iter().take(4)).copied().collect();
        st.shape(crate::rng::fold_bytes(reader, &head));
        for n in [p.n, p.n * TIMES] {
            let (r, work, moved, bytes) = read(p, n);
            let what = || format!("{} bytes ({} repetitions) to reader {reader}", bytes, n);
            let r = match r {
                Ok(r) => r,
                Err(m) => return bad("panic", format!("{}: panicked: {m}", what())),
            };
            st.count(if r.is_some() { "deliveries accepted" } else { "deliveries refused" });
            st.add("bytes delivered", bytes as u64);
            st.max("largest delivery in bytes", bytes as u64);
            st.max("most sets in one delivery", r.unwrap_or(0) as u64);
            if bytes >= 1000 {
                st.max(if reader < 5 { "largest work per byte of a TLE text" } else { "largest work per byte of an OMM text" }, work / bytes as u64);
            } else {
                st.max("largest work of a delivery below 1000 bytes", work);
            }
            st.max("most bytes touched in precompiled code per delivered byte, in hundredths", moved.saturating_sub(MOVED_ONCE) * 100 / bytes.max(1) as u64);
            st.max("most bytes touched in precompiled code for a delivery below 1000 bytes", if bytes < 1000 { moved } else { 0 });
            st.observe(fold(work, r.map_or(0, |v| v as u64 + 1)));
            st.shape(fold(bytes.ilog2() as u64, r.is_some() as u64));
            st.state(fold(fold(reader, (bytes as f64).log2().mul_add(4.0, 0.0) as u64), r.map_or(0, |v| v as u64 + 1)));
            if work > ONCE + PER_BYTE * bytes as u64 {
                return bad("too-much-work", format!("{}: {work} instrumented events", what()));
            }
            if moved > MOVED_ONCE + MOVED_PER_BYTE * bytes as u64 {
                return bad("too-much-copying", format!("{}: {moved} bytes copied, compared, searched or decoded", what()));
            }
            works.push((work, bytes, moved));
        }
        let (small, large) = (works[0], works[1]);
        if small.0 > 0 {
            st.max("largest growth of work for four times the size, in hundredths", large.0.saturating_sub(ONCE) * 100 / small.0);
        }
        if large.0 as f64 > GROWTH * small.0 as f64 + ONCE as f64 {
            return bad("work-grows-faster-than-size", format!("reader {reader}: {} events for {} bytes, {} events for {} bytes", small.0, small.1, large.0, large.1));
        }
        if small.2 > 0 {
            st.max("largest growth of bytes touched for four times the size, in hundredths", large.2.saturating_sub(MOVED_ONCE) * 100 / small.2);
        }
        if large.2 as f64 > GROWTH * small.2 as f64 + MOVED_ONCE as f64 {
            return bad("copying-grows-faster-than-size", format!("reader {reader}: {} bytes touched for {} bytes, {} for {} bytes", small.2, small.1, large.2, large.1));
        }
        if let Some(s) = &p.stream {
            st.shape(fold(s.chunk as u64, s.interrupt * 2 + s.fails.is_some() as u64));
            if s.interrupt > 0 {
                st.count("fault:stream interrupted again and again");
            }
            if s.fails.is_some() {
                st.count("fault:stream failure");
            }
            if s.chunk < 64 {
                st.count("fault:short reads throughout");
            }
        }
        st.count(match p.reader {
            Reader::Pair(_) => "fault:oversized line or name",
            _ => "fault:flood",
        });
        st.nontrivial = large.1 >= 20_000 || p.stream.as_ref().is_some_and(|s| s.interrupt > 0 || s.fails.is_some());
        Ok(())
    }
}
