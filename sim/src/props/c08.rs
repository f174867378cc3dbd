use super::{Prop, Runs};
use crate::hooks::{lib, Panic};
use crate::plan::{bad, Violation, B};
use crate::rng::{fold, fold_bytes, Rng};
use crate::stats::Stats;
use crate::tle::*;
use serde::{Deserialize, Serialize};
use sgp4::Elements;

pub struct C08;

/// What happens to a pair of lines between the source and the parser. `line` 0 is the first line.
#[derive(Serialize, Deserialize, Clone)]
pub enum Fault {
    Flip { line: usize, at: usize, bit: u8 },
    Set { line: usize, at: usize, byte: u8 },
    /// digit replaced by another digit (if there is a digit)
    Digit { line: usize, at: usize, by: u8 },
    Lose { line: usize, at: usize, n: usize },
    Insert { line: usize, at: usize, bytes: B },
    Cut { line: usize, at: usize },
    /// the record was being replaced by another version: new bytes up to `at`, old ones from there
    Torn { line: usize, other: usize, at: usize },
    /// a whole line of another version
    Mixed { line: usize, other: usize },
    Swapped,
    Repeated { line: usize },
    /// damage before the checksum was computed: columns replaced, checksum valid
    Column { line: usize, at: usize, text: B },
    /// sender recomputes the checksum
    Reseal { line: usize },
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    pub versions: Vec<(B, B)>,
    pub deliveries: Vec<(usize, Vec<Fault>)>,
}

const COLUMNS_1: &[(usize, usize)] = &[(2, 7), (7, 8), (9, 11), (11, 17), (18, 20), (20, 32), (33, 43), (44, 50), (50, 52), (53, 59), (59, 61), (62, 63), (64, 68)];
const COLUMNS_2: &[(usize, usize)] = &[(2, 7), (8, 16), (17, 25), (26, 33), (34, 42), (43, 51), (52, 63), (63, 68)];

fn nasty(r: &mut Rng, n: usize) -> Vec<u8> {
    let raw: Vec<u8> = match r.below(20) {
        0 => vec![b' '; n],
        1 => vec![b'-'; n],
        2 => vec![b'.'; n],
        3 => (0..n).map(|_| b'A' + r.below(26) as u8).collect(),
        4 => (0..n).map(|_| r.below(256) as u8).collect(),
        5 => b"nan".to_vec(),
        6 => b"inf".to_vec(),
        7 => b"-inf".to_vec(),
        8 => b"1e9".to_vec(),
        9 => b"1e308".to_vec(),
        10 => b"-1".to_vec(),
        11 => b"+1".to_vec(),
        12 => b"1.5.2".to_vec(),
        13 => vec![b'9'; n],
        14 => vec![b'0'; n],
        15 => (0..n).map(|_| b'0' + r.below(10) as u8).collect(),
        16 => "\u{e9}1".as_bytes().to_vec(),
        17 => vec![b'\t'; n],
        18 => (0..n).map(|_| *r.pick(b"0123456789 .-+")).collect(),
        _ => vec![0; n],
    };
    let mut v = raw;
    v.truncate(n);
    while v.len() < n {
        if r.chance(0.7) {
            v.insert(0, b' ');
        } else {
            v.push(*r.pick(b" 0"));
        }
    }
    v
}

fn gen_fault(r: &mut Rng, versions: usize) -> Vec<Fault> {
    let line = r.idx(2);
    let other = r.idx(versions.max(1));
    match r.below(17) {
        0 | 1 => vec![Fault::Flip { line, at: r.idx(69), bit: r.below(8) as u8 }],
        2 => vec![Fault::Set { line, at: r.idx(69), byte: r.below(256) as u8 }],
        3 | 4 => vec![Fault::Digit { line, at: r.idx(69), by: 1 + r.below(9) as u8 }],
        5 => vec![Fault::Lose { line, at: r.idx(69), n: 1 + r.idx(3) }],
        6 => {
            let bytes = (0..1 + r.below(3)).map(|_| if r.chance(0.5) { b' ' } else { r.below(256) as u8 }).collect();
            vec![Fault::Insert { line, at: r.idx(70), bytes: B(bytes) }]
        }
        7 => vec![Fault::Cut { line, at: r.idx(70) }],
        8 => vec![Fault::Torn { line, other, at: r.idx(70) }],
        9 => vec![Fault::Mixed { line, other }],
        10 => match r.below(2) {
            0 => vec![Fault::Swapped],
            _ => vec![Fault::Repeated { line }],
        },
        11 => {
            // a shift inside the line: one byte lost, one inserted elsewhere, length unchanged
            vec![Fault::Lose { line, at: r.idx(69), n: 1 }, Fault::Insert { line, at: r.idx(69), bytes: B(vec![*r.pick(b" 0123456789-")]) }]
        }
        12 => vec![Fault::Flip { line, at: r.idx(68), bit: r.below(7) as u8 }, Fault::Reseal { line }],
        13 => {
            // the checksum column itself
            vec![Fault::Set { line, at: 68, byte: r.below(256) as u8 }]
        }
        14 => vec![Fault::Torn { line, other, at: r.idx(70) }, Fault::Reseal { line }],
        _ => {
            let c = if line == 0 { r.pick(COLUMNS_1) } else { r.pick(COLUMNS_2) };
            let text = nasty(r, c.1 - c.0);
            vec![Fault::Column { line, at: c.0, text: B(text) }, Fault::Reseal { line }]
        }
    }
}

pub fn count(f: &Fault) -> &'static str {
    match f {
        Fault::Flip { .. } => "fault:bit flip",
        Fault::Set { .. } => "fault:byte substitution",
        Fault::Digit { .. } => "fault:digit substitution",
        Fault::Lose { .. } => "fault:byte loss",
        Fault::Insert { .. } => "fault:byte insertion",
        Fault::Cut { .. } => "fault:line cut",
        Fault::Torn { .. } => "fault:torn record",
        Fault::Mixed { .. } => "fault:line of another version",
        Fault::Swapped => "fault:lines swapped",
        Fault::Repeated { .. } => "fault:line repeated",
        Fault::Column { .. } => "fault:column garbled at source",
        Fault::Reseal { .. } => "fault:checksum recomputed over damage",
    }
}

pub fn apply(l: &mut [Vec<u8>; 2], versions: &[(B, B)], f: &Fault) {
    let other = |line: usize, k: usize| -> Vec<u8> {
        versions.get(k % versions.len().max(1)).map(|v| if line % 2 == 0 { v.0 .0.clone() } else { v.1 .0.clone() }).unwrap_or_default()
    };
    match f {
        Fault::Flip { line, at, bit } => {
            if let Some(b) = l[line % 2].get_mut(*at) {
                *b ^= 1 << (bit % 8);
            }
        }
        Fault::Set { line, at, byte } => {
            if let Some(b) = l[line % 2].get_mut(*at) {
                *b = *byte;
            }
        }
        Fault::Digit { line, at, by } => {
            // the nearest digit at or after the position
            let line = &mut l[line % 2];
            let n = line.len();
            for k in 0..n {
                let i = (at + k) % n;
                if line[i].is_ascii_digit() {
                    line[i] = b'0' + (line[i] - b'0' + by % 10) % 10;
                    break;
                }
            }
        }
        Fault::Lose { line, at, n } => {
            let line = &mut l[line % 2];
            let a = (*at).min(line.len());
            let b = (at + n).min(line.len());
            line.drain(a..b);
        }
        Fault::Insert { line, at, bytes } => {
            let line = &mut l[line % 2];
            let a = (*at).min(line.len());
            line.splice(a..a, bytes.0.iter().copied());
        }
        Fault::Cut { line, at } => l[line % 2].truncate(*at),
        Fault::Torn { line, other: o, at } => {
            let new = l[line % 2].clone();
            let old = other(*line, *o);
            let mut v: Vec<u8> = new.iter().copied().take(*at).collect();
            v.extend(old.iter().copied().skip(*at));
            l[line % 2] = v;
        }
        Fault::Mixed { line, other: o } => l[line % 2] = other(*line, *o),
        Fault::Swapped => l.swap(0, 1),
        Fault::Repeated { line } => l[1 - line % 2] = l[line % 2].clone(),
        Fault::Column { line, at, text } => {
            for (i, b) in text.0.iter().enumerate() {
                if let Some(x) = l[line % 2].get_mut(at + i) {
                    *x = *b;
                }
            }
        }
        Fault::Reseal { line } => {
            let line = &mut l[line % 2];
            if line.len() == 69 {
                line[68] = checksum(line);
            }
        }
    }
}

/// Initialises and propagates accepted elements; reports a panic.
pub fn exercise(e: &Elements, times: &[f64]) -> Result<(u64, u64), String> {
    let mut h = 0;
    let mut n = 0;
    for afspc in [false, true] {
        let c = lib(|| if afspc { shim::from_elements_afspc(e) } else { shim::from_elements(e) }).map_err(|p| format!("initialisation panicked: {}", p.0))?;
        match c {
            Ok(c) => {
                for t in times {
                    let r = lib(|| shim::propagate(&c, *t, afspc)).map_err(|p| format!("propagation at {t:?} min panicked: {}", p.0))?;
                    n += 1;
                    h = fold(h, crate::sat::out_of(Ok(r)).hash());
                }
            }
            Err(e) => h = fold_bytes(h, e.as_bytes()),
        }
    }
    Ok((h, n))
}

pub fn show(b: &[u8]) -> String {
    serde_json::to_string(&B(b.to_vec())).unwrap_or_default()
}

impl Prop for C08 {
    const ID: &'static str = "C08";
    const RULE: &'static str = "one run = 1-3 versions of an element set delivered 4-16 times over a simulated lossy channel or torn record store; non-trivial: at least one delivery intact and accepted and at least one damaged; distinct: sequence of (fault kinds, damaged line and column, verdict)";
    const REAL: &'static str = "all of sgp4 (both builds): parsing, initialisation and propagation of what is accepted";
    const STUB: &'static str = "the channel and record store that damage the lines; reference reader of the TLE columns";
    const ASSUMPTIONS: &'static [&'static str] = &["columns that are readable but not in canonical form (leading plus on integers, exponents) may be accepted or refused; only the absence of panics is checked for them"];
    type Plan = Plan;
    fn runs(quick: bool) -> Runs {
        if quick {
            Runs { std: 960_000, libm: 192_000 }
        } else {
            Runs { std: 6_000_000, libm: 1_200_000 }
        }
    }
    fn gen(r: &mut Rng, _: u64) -> Plan {
        let norad = gen_norad(r);
        let n = 1 + r.idx(3);
        let versions = (0..n)
            .map(|_| {
                let id = if r.chance(0.7) { norad } else { gen_norad(r) };
                let (a, b) = gen_pair(r, id);
                (B(a), B(b))
            })
            .collect();
        let deliveries = (0..4 + r.below(13))
            .map(|_| {
                let k = match r.below(10) {
                    0 | 1 => 0,
                    2..=7 => 1,
                    _ => 2 + r.below(3),
                };
                let mut f = Vec::new();
                for _ in 0..k {
                    f.extend(gen_fault(r, n));
                }
                (r.idx(n), f)
            })
            .collect();
        Plan { versions, deliveries }
    }
    fn exec(p: &Plan, st: &mut Stats) -> Result<(), Violation> {
        let (mut intact, mut damaged) = (0, 0);
        for (i, (v, faults)) in p.deliveries.iter().enumerate() {
            let Some(pair) = p.versions.get(v % p.versions.len().max(1)) else { return Ok(()) };
            let mut l = [pair.0 .0.clone(), pair.1 .0.clone()];
            for f in faults {
                apply(&mut l, &p.versions, f);
                st.count(count(f));
                let (line, at) = match f {
                    Fault::Flip { line, at, .. } | Fault::Set { line, at, .. } | Fault::Digit { line, at, .. } | Fault::Lose { line, at, .. } | Fault::Insert { line, at, .. } | Fault::Cut { line, at } | Fault::Torn { line, at, .. } | Fault::Column { line, at, .. } => (*line, *at),
                    _ => (0, 0),
                };
                st.state(fold(fold_bytes(at as u64, count(f).as_bytes()), line as u64));
                st.shape(fold_bytes((at + 100 * line) as u64, count(f).as_bytes()));
            }
            let verdict = read_pair(&l[0], &l[1]);
            let name = if i % 2 == 0 { Some(format!("OBJECT {i}")) } else { None };
            let r = lib(|| shim::from_tle(name.clone(), &l[0], &l[1]));
            let lines = || format!("delivery {i}: lines {} and {}", show(&l[0]), show(&l[1]));
            let r = match r {
                Ok(r) => r,
                Err(Panic(m)) => return bad("panic", format!("{}: the parser panicked: {m}", lines())),
            };
            st.shape(r.is_ok() as u64);
            match (verdict, &r) {
                (Verdict::Accept(mut t), Ok(e)) => {
                    t.name = name;
                    if faults.is_empty() {
                        intact += 1;
                    }
                    st.count("accepted");
                    if let Some(d) = differs(e, &t, EPOCH_NS, 0.0) {
                        return bad("misread", format!("{}: {d}", lines()));
                    }
                }
                (Verdict::Accept(_), Err(e)) => return bad("intact-refused", format!("{}: refused: {e}", lines())),
                (Verdict::Reject(why), Ok(_)) => return bad("damage-accepted", format!("{}: accepted despite: {why}", lines())),
                (Verdict::Reject(why), Err(_)) => {
                    damaged += 1;
                    st.count(match why {
                        "length" => "refused: length",
                        "line number" => "refused: line number",
                        "separator" => "refused: separator",
                        "checksum" => "refused: checksum",
                        "classification" => "refused: classification",
                        "catalogue numbers" => "refused: catalogue numbers",
                        "day of year" => "refused: day of year",
                        _ => "refused: unreadable column",
                    });
                }
                (Verdict::DontCare(_), _) => st.count("readable but not canonical"),
            }
            if let Err(e) = &r {
                let text = e.to_string();
                let allowed = blame(&l[0], &l[1]);
                match place(&text) {
                    Some(p) if allowed.contains(&p) => {}
                    _ => return bad("wrong-place", format!("{}: the error {text:?} does not name a line and columns at fault; at fault (line, from, to): {allowed:?}", lines())),
                }
            }
            if let Ok(e) = &r {
                match exercise(e, &[0.0, 100.0, -1440.0, 20_000.0]) {
                    Ok((h, _)) => st.observe(h),
                    Err(m) => return bad("panic-after-accept", format!("{}: {m}", lines())),
                }
                st.sim_minutes += 2.0 * 20_000.0;
            } else if let Err(e) = &r {
                st.observe(fold_bytes(1, format!("{e:?}").as_bytes()));
            }
        }
        st.nontrivial = intact > 0 && damaged > 0;
        Ok(())
    }
}
