use super::c08::{exercise, show};
use super::{Prop, Runs};
use crate::hooks::{lib, Panic};
use crate::plan::{bad, Violation, B};
use crate::rng::{fold, fold_bytes, Rng};
use crate::stats::Stats;
use crate::tle::*;
use serde::{Deserialize, Serialize};

pub struct C07;

#[derive(Serialize, Deserialize, Clone)]
pub struct Object {
    title: String,
    l1: B,
    l2: B,
}

/// Faults of the delivery, on the list of lines; positions are taken modulo the number of lines
#[derive(Serialize, Deserialize, Clone)]
pub enum Fault {
    Lose { at: usize, n: usize },
    Repeat { at: usize },
    Swap { a: usize, b: usize },
    /// line end lost: two lines become one
    Merge { at: usize },
    /// stray line end: one line becomes two
    Split { at: usize, column: usize },
    Cut { at: usize, column: usize },
    Blank { at: usize },
    Garble { at: usize, column: usize, byte: u8 },
    /// a line of another object in place of this one
    Foreign { at: usize, from: usize },
    /// the delivery stops: only this many bytes of the text arrive
    Stop { bytes: usize },
    /// the delivery is restarted: the text from the beginning follows what had arrived
    Restart { bytes: usize },
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    three: bool,
    objects: Vec<Object>,
    /// the objects are listed this many more times
    #[serde(default)]
    again: usize,
    /// 0: LF, 1: CR LF, 2: alternating
    endings: u8,
    last_ending: bool,
    faults: Vec<Fault>,
    /// read with the wrong number of lines per object
    wrong_reader: bool,
}

fn name(f: &Fault) -> &'static str {
    match f {
        Fault::Lose { .. } => "fault:lines lost",
        Fault::Repeat { .. } => "fault:line repeated",
        Fault::Swap { .. } => "fault:lines reordered",
        Fault::Merge { .. } => "fault:lines merged",
        Fault::Split { .. } => "fault:line split",
        Fault::Cut { .. } => "fault:line cut",
        Fault::Blank { .. } => "fault:blank line inserted",
        Fault::Garble { .. } => "fault:byte garbled",
        Fault::Foreign { .. } => "fault:line of another object",
        Fault::Stop { .. } => "fault:delivery stops early",
        Fault::Restart { .. } => "fault:delivery restarted",
    }
}

fn lines_of(p: &Plan) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for o in (0..=p.again).flat_map(|_| &p.objects) {
        if p.three {
            v.push(o.title.clone().into_bytes());
        }
        v.push(o.l1.0.clone());
        v.push(o.l2.0.clone());
    }
    v
}

fn render(p: &Plan, lines: &[Vec<u8>]) -> Vec<u8> {
    let mut o = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        o.extend(l);
        if i + 1 < lines.len() || p.last_ending {
            let crlf = match p.endings % 3 {
                0 => false,
                1 => true,
                _ => i % 2 == 0,
            };
            o.extend(if crlf { &b"\r\n"[..] } else { &b"\n"[..] });
        }
    }
    o
}

/// Independent line splitter: lines end at LF, an optional CR before it is not part of the line,
/// the last line need not be ended.
fn split(text: &[u8]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let mut cur: Vec<u8> = Vec::new();
    for b in text {
        if *b == b'\n' {
            if cur.last() == Some(&b'\r') {
                cur.pop();
            }
            v.push(std::mem::take(&mut cur));
        } else {
            cur.push(*b);
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

impl Prop for C07 {
    const ID: &'static str = "C07";
    const RULE: &'static str = "one run = one catalogue of 0-8, rarely up to 408 objects delivered through a channel with 0-4 faults (lines lost, repeated, reordered, merged, split, cut, foreign, garbled; delivery stopped or restarted) and read by both catalogue readers; non-trivial: at least two complete groups, and a fault was injected or an incomplete group is present; distinct: (reader, number of objects, line endings, sequence of fault kinds and positions, verdict)";
    const REAL: &'static str = "all of sgp4 (both builds)";
    const STUB: &'static str = "the channel; independent line splitter and reference reader of the TLE columns";
    const ASSUMPTIONS: &'static [&'static str] = &["a carriage return at the very end of the text without a line feed is not generated"];
    type Plan = Plan;
    fn runs(quick: bool) -> Runs {
        if quick {
            Runs { std: 1_800_000, libm: 360_000 }
        } else {
            Runs { std: 8_000_000, libm: 1_600_000 }
        }
    }
    fn gen(r: &mut Rng, _: u64) -> Plan {
        let three = r.chance(0.5);
        let n = match r.below(8) {
            0 => 0,
            1 => 1,
            2 => 8,
            _ => 2 + r.idx(5),
        };
        // now and then a catalogue of realistic length
        let n = if r.chance(0.002) { 9 + r.idx(400) } else { n };
        let mut objects: Vec<Object> = Vec::new();
        for _ in 0..n {
            // sometimes another version of an earlier object
            let id = match objects.is_empty() || r.chance(0.8) {
                true => gen_norad(r),
                false => {
                    let o = r.pick(&objects);
                    std::str::from_utf8(&o.l1.0[2..7]).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
                }
            };
            let (a, b) = gen_pair(r, id);
            let title = gen_title(r);
            objects.push(Object { title, l1: B(a), l2: B(b) });
        }
        // and, rarely, of the length of the whole catalogue
        let again = if n > 0 && r.chance(0.00002) { r.log(2.7, 4.5) as usize / n } else { 0 };
        let lines = n * (again + 1) * if three { 3 } else { 2 };
        let mut faults = Vec::new();
        let k = match r.below(6) {
            0 => 0,
            1..=3 => 1,
            _ => 2 + r.below(3),
        };
        for _ in 0..k {
            let at = r.idx(lines.max(1));
            let bytes = r.idx(lines * 70 + 1);
            faults.push(match r.below(14) {
                0 => Fault::Lose { at, n: 1 },
                1 => Fault::Lose { at, n: 1 + r.idx(4) },
                2 => Fault::Repeat { at },
                3 => Fault::Swap { a: at, b: r.idx(lines.max(1)) },
                4 => Fault::Swap { a: at, b: at + 1 },
                5 => Fault::Merge { at },
                6 => Fault::Split { at, column: r.idx(70) },
                7 => Fault::Cut { at, column: r.idx(70) },
                8 => Fault::Blank { at },
                9 => Fault::Garble { at, column: r.idx(69), byte: r.below(128) as u8 },
                10 | 11 => Fault::Foreign { at, from: r.idx(lines.max(1)) },
                12 => Fault::Stop { bytes },
                _ => Fault::Restart { bytes },
            });
        }
        Plan { three, objects, again, endings: r.below(3) as u8, last_ending: r.chance(0.6), faults, wrong_reader: r.chance(0.08) }
    }
    fn exec(p: &Plan, st: &mut Stats) -> Result<(), Violation> {
        let mut lines = lines_of(p);
        let mut tail: Vec<&Fault> = Vec::new();
        st.shape(fold(p.three as u64 * 2 + p.wrong_reader as u64, p.objects.len() as u64 * 8 + p.endings as u64));
        for f in &p.faults {
            st.count(name(f));
            st.shape(fold_bytes(0, name(f).as_bytes()));
            let n = lines.len();
            if n == 0 {
                continue;
            }
            match f {
                Fault::Lose { at, n: k } => {
                    let a = at % n;
                    lines.drain(a..(a + k).min(n));
                    st.shape(a as u64);
                }
                Fault::Repeat { at } => {
                    let l = lines[at % n].clone();
                    lines.insert(at % n, l);
                    st.shape((at % n) as u64);
                }
                Fault::Swap { a, b } => {
                    lines.swap(a % n, b % n);
                    st.shape((a % n * 64 + b % n) as u64);
                }
                Fault::Merge { at } => {
                    if at % n + 1 < n {
                        let l = lines.remove(at % n + 1);
                        lines[at % n].extend(l);
                    }
                    st.shape((at % n) as u64);
                }
                Fault::Split { at, column } => {
                    let c = (*column).min(lines[at % n].len());
                    let l = lines[at % n].split_off(c);
                    lines.insert(at % n + 1, l);
                    st.shape((at % n * 100 + c) as u64);
                }
                Fault::Cut { at, column } => {
                    lines[at % n].truncate(*column);
                    st.shape((at % n * 100 + column) as u64);
                }
                Fault::Blank { at } => {
                    lines.insert(at % n, vec![]);
                    st.shape((at % n) as u64);
                }
                Fault::Garble { at, column, byte } => {
                    if let Some(b) = lines[at % n].get_mut(*column) {
                        *b = *byte;
                    }
                    st.shape((at % n * 100 + column) as u64);
                }
                Fault::Foreign { at, from } => {
                    lines[at % n] = lines[from % n].clone();
                    st.shape((at % n * 64 + from % n) as u64);
                }
                Fault::Stop { .. } | Fault::Restart { .. } => tail.push(f),
            }
        }
        let mut text = render(p, &lines);
        for f in tail {
            match f {
                Fault::Stop { bytes } => text.truncate(*bytes),
                Fault::Restart { bytes } => {
                    let mut t = text.clone();
                    t.truncate(*bytes);
                    t.extend(&text);
                    text = t;
                }
                _ => {}
            }
        }
        let Ok(text) = String::from_utf8(text) else {
            st.count("delivery not UTF-8, not parsed");
            return Ok(());
        };
        if text.ends_with('\r') {
            st.count("delivery ends inside a line end, not parsed");
            return Ok(());
        }
        let three = p.three != p.wrong_reader;
        let per = if three { 3 } else { 2 };
        let got = split(text.as_bytes());
        let mut want = Vec::new();
        let mut reject = None;
        let mut dont_care = false;
        for g in got.chunks_exact(per) {
            match read_pair(&g[per - 2], &g[per - 1]) {
                Verdict::Accept(mut t) => {
                    if three {
                        t.name = Some(String::from_utf8(g[0].clone()).unwrap());
                    }
                    want.push(t);
                }
                Verdict::Reject(w) => {
                    reject.get_or_insert(w);
                }
                Verdict::DontCare(_) => dont_care = true,
            }
        }
        let groups = got.len() / per;
        let r = lib(|| if three { shim::parse_3les(&text) } else { shim::parse_2les(&text) });
        let what = || format!("{} lines per object, text {}", per, show(text.as_bytes()));
        let r = match r {
            Ok(r) => r,
            Err(Panic(m)) => return bad("panic", format!("{}: panicked: {m}", what())),
        };
        st.shape(r.is_ok() as u64 * 16 + groups as u64);
        st.state(fold(fold(groups as u64, r.is_ok() as u64), (got.len() % per) as u64 * 8 + reject.map_or(0, |w| w.len() as u64) * 64));
        st.observe(r.as_ref().map_or(0, |v| v.len() as u64 + 1));
        match (&r, reject) {
            (Ok(v), Some(w)) => {
                let _ = v;
                return bad("damage-accepted", format!("{}: {} sets returned although one group has a wrong {w}", what(), v.len()));
            }
            (Err(_), Some(_)) => st.count("catalogues refused"),
            (Err(e), None) if !dont_care => return bad("intact-refused", format!("{}: refused: {e}", what())),
            (Err(_), None) => {}
            (Ok(v), None) => {
                st.count("catalogues accepted");
                st.add("sets accepted", v.len() as u64);
                st.max("most sets of a catalogue", v.len() as u64);
                if v.len() != groups {
                    return bad("wrong-count", format!("{}: {} sets instead of {groups}", what(), v.len()));
                }
                if !dont_care {
                    for (i, (e, t)) in v.iter().zip(&want).enumerate() {
                        if let Some(d) = differs(e, t, EPOCH_NS, 0.0) {
                            return bad("misread", format!("{}: set {i}: {d}", what()));
                        }
                    }
                }
                for e in v.iter().take(2) {
                    match exercise(e, &[0.0]) {
                        Ok((h, _)) => st.observe(h),
                        Err(m) => return bad("panic-after-accept", format!("{}: {m}", what())),
                    }
                }
            }
        }
        st.nontrivial = groups >= 2 && (!p.faults.is_empty() || got.len() % per != 0);
        Ok(())
    }
}
