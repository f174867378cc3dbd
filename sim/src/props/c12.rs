use super::c06::SimReader;
use super::{Prop, Runs};
use crate::child::{self, End};
use crate::hooks::{alloc_count, denied_count, lib, with_alloc, AllocMode};
use crate::omm;
use crate::plan::{bad, Violation, B};
use crate::rng::{fold, fold_bytes, mix, Rng};
use crate::stats::Stats;
use crate::tle;
use serde::{Deserialize, Serialize};
use sgp4::Elements;

pub struct C12;

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug)]
pub enum Entry {
    Slice,
    Str,
    Value,
    Stream(usize),
    /// through a buffered reader
    Buffered(usize),
}

#[derive(Serialize, Deserialize, Clone)]
pub enum Op {
    Tle { name: Option<String>, l1: B, l2: B },
    Catalogue { three: bool, text: B },
    Omm { list: bool, text: B, entry: Entry },
    /// copies and writes out an element set
    Copy { text: B },
    Write { text: B, value: bool },
    WriteList { text: B },
}

#[derive(Serialize, Deserialize)]
pub struct Plan {
    op: Op,
    /// positions of the failing allocation; with more allocations than this, spread over them
    limit: u64,
    /// chooses which positions are also tried with all later allocations failing
    choice: u64,
    /// only these positions (filled in when a failure is minimised by hand)
    only: Vec<(u64, bool)>,
}

/// The call itself, between `with_alloc`; everything around it has memory
fn run(op: &Op, mode: AllocMode) -> (String, u64, u64) {
    let before = denied_count();
    let mut used = 0;
    macro_rules! call {
        ($e:expr) => {
            lib(|| {
                with_alloc(mode, || {
                    let r = $e;
                    used = alloc_count();
                    r
                })
            })
        };
    }
    macro_rules! show {
        ($r:expr) => {
            match $r {
                Ok(Ok(v)) => format!("{v:?}"),
                Ok(Err(e)) => format!("error {e:?}"),
                Err(p) => {
                    crate::hooks::set_alloc(AllocMode::Normal);
                    format!("panic: {}", p.0)
                }
            }
        };
    }
    let text = match op {
        Op::Tle { name, l1, l2 } => {
            let name = name.clone();
            show!(call!(shim::from_tle(name, &l1.0, &l2.0)))
        }
        Op::Catalogue { three, text } => {
            let s = String::from_utf8_lossy(&text.0).into_owned();
            if *three {
                show!(call!(shim::parse_3les(&s)))
            } else {
                show!(call!(shim::parse_2les(&s)))
            }
        }
        Op::Omm { list, text, entry } => {
            let s = String::from_utf8_lossy(&text.0).into_owned();
            let chunks = match entry {
                Entry::Stream(n) | Entry::Buffered(n) => [(*n).max(1)],
                _ => [1],
            };
            let mut reader = SimReader::new(&text.0, &chunks, &[1], None, false);
            match (entry, list) {
                (Entry::Slice, true) => show!(call!(shim::omm_list_slice(&text.0))),
                (Entry::Slice, false) => show!(call!(shim::omm_one_slice(&text.0))),
                (Entry::Str, true) => show!(call!(shim::omm_list_str(&s))),
                (Entry::Str, false) => show!(call!(shim::omm_one_str(&s))),
                (Entry::Value, _) => match serde_json::from_slice::<serde_json::Value>(&text.0) {
                    Ok(serde_json::Value::Array(a)) => {
                        let Some(v) = a.into_iter().next() else { return ("-".into(), 0, 0) };
                        show!(call!(shim::omm_one_value(v)))
                    }
                    Ok(v) => show!(call!(shim::omm_one_value(v))),
                    Err(_) => return ("-".into(), 0, 0),
                },
                (Entry::Stream(_), true) => show!(call!(shim::omm_list_reader(&mut reader))),
                (Entry::Stream(_), false) => show!(call!(shim::omm_one_reader(&mut reader))),
                (Entry::Buffered(_), true) => show!(call!(shim::omm_list_reader(&mut std::io::BufReader::with_capacity(64, &mut reader)))),
                (Entry::Buffered(_), false) => show!(call!(shim::omm_one_reader(&mut std::io::BufReader::with_capacity(64, &mut reader)))),
            }
        }
        Op::Copy { text } => {
            let Ok(e) = serde_json::from_slice::<Elements>(&text.0) else { return ("-".into(), 0, 0) };
            show!(call!(Ok::<_, ()>(e.clone())))
        }
        Op::Write { text, value } => {
            let Ok(e) = serde_json::from_slice::<Elements>(&text.0) else { return ("-".into(), 0, 0) };
            if *value {
                show!(call!(shim::elements_to_value(&e)))
            } else {
                show!(call!(shim::elements_to_json(&e)))
            }
        }
        Op::WriteList { text } => {
            let Ok(e) = serde_json::from_slice::<Vec<Elements>>(&text.0) else { return ("-".into(), 0, 0) };
            show!(call!(shim::list_to_json(&e)))
        }
    };
    (text, used, denied_count() - before)
}

fn garble(r: &mut Rng, t: &mut Vec<u8>) {
    if t.is_empty() {
        return;
    }
    let i = r.idx(t.len());
    match r.below(3) {
        0 => t.truncate(i),
        1 => {
            t.remove(i);
        }
        _ => t[i] = b' ' + r.below(95) as u8,
    }
}

impl Prop for C12 {
    const ID: &'static str = "C12";
    const RULE: &'static str = "one run = one parsing, copying or writing call, executed in one fresh process per position of the failing allocation (all of them up to the stated limit, some also with all later allocations failing); non-trivial: at least one allocation was failed; distinct: (entry point, outcome kind, number of objects, number of allocations)";
    const REAL: &'static str = "the parsers and serde implementations of sgp4 (both builds); serde, serde_json, alloc";
    const STUB: &'static str = "the heap; the byte stream";
    const ASSUMPTIONS: &'static [&'static str] = &["what happens after the standard out-of-memory abort is not the library's business"];
    type Plan = Plan;
    fn runs(quick: bool) -> Runs {
        if quick {
            Runs { std: 14_000, libm: 2_800 }
        } else {
            Runs { std: 200_000, libm: 40_000 }
        }
    }
    fn gen(r: &mut Rng, _: u64) -> Plan {
        let objects = match r.below(8) {
            0 => 0,
            1..=3 => 1,
            4 | 5 => 2 + r.idx(3),
            6 => 4 + r.idx(6),
            _ if r.chance(0.03) => 60 + r.idx(240),
            _ => 9 + r.idx(30),
        };
        let broken = r.chance(0.2);
        let op = match r.below(10) {
            0 => {
                let norad = tle::gen_norad(r);
                let (mut l1, mut l2) = tle::gen_pair(r, norad);
                if broken {
                    let first = r.chance(0.5);
                    garble(r, if first { &mut l1 } else { &mut l2 });
                }
                let name = if r.chance(0.7) { Some(tle::gen_title(r)) } else { None };
                Op::Tle { name, l1: B(l1), l2: B(l2) }
            }
            1..=3 => {
                let three = r.chance(0.6);
                let mut t = Vec::new();
                for _ in 0..objects {
                    let norad = tle::gen_norad(r);
                    let (l1, l2) = tle::gen_pair(r, norad);
                    if three {
                        t.extend(tle::gen_title(r).into_bytes());
                        t.push(b'\n');
                    }
                    t.extend(l1);
                    t.push(b'\n');
                    t.extend(l2);
                    t.push(b'\n');
                }
                if broken {
                    garble(r, &mut t);
                }
                Op::Catalogue { three, text: B(t) }
            }
            4..=7 => {
                let list = r.chance(0.6);
                let n = if list { objects.min(12) } else { 1 };
                let m: Vec<_> = (0..n).map(|_| omm::gen_message(r)).collect();
                let mut t = omm::render(&m, list, r.below(8) as u8);
                if broken {
                    garble(r, &mut t);
                }
                let entry = match r.below(5) {
                    0 => Entry::Slice,
                    1 => Entry::Str,
                    2 => Entry::Value,
                    3 => Entry::Stream(1 + r.idx(50)),
                    _ => Entry::Buffered(1 + r.idx(100)),
                };
                Op::Omm { list, text: B(t), entry }
            }
            8 => {
                let m = [omm::gen_message(r)];
                let text = B(omm::render(&m, false, 0));
                match r.below(3) {
                    0 => Op::Copy { text },
                    1 => Op::Write { text, value: true },
                    _ => Op::Write { text, value: false },
                }
            }
            _ => {
                let m: Vec<_> = (0..objects.min(8)).map(|_| omm::gen_message(r)).collect();
                Op::WriteList { text: B(omm::render(&m, true, 0)) }
            }
        };
        Plan { op, limit: 120, choice: r.u64() >> 16, only: vec![] }
    }
    fn exec(p: &Plan, st: &mut Stats) -> Result<(), Violation> {
        let (plenty, used) = match child::run(60, || {
            let (t, used, _) = run(&p.op, AllocMode::Normal);
            (t, used)
        }) {
            Ok(v) => v,
            Err(e) => return Err(e.violation("with plentiful memory")),
        };
        if plenty == "-" {
            return Ok(());
        }
        if plenty.starts_with("panic") {
            return bad("panic", format!("with plentiful memory: {plenty}"));
        }
        st.max("most allocations of a call", used);
        let mut positions: Vec<(u64, bool)> = Vec::new();
        if !p.only.is_empty() {
            positions = p.only.clone();
        } else if used <= p.limit {
            for k in 0..used {
                positions.push((k, false));
                if mix(p.choice ^ k) % 4 == 0 {
                    positions.push((k, true));
                }
            }
        } else {
            for j in 0..p.limit {
                let k = match j {
                    0..=9 => j,
                    10..=19 => used - 1 - (j - 10),
                    _ => mix(p.choice ^ j) % used,
                };
                positions.push((k, mix(p.choice ^ (j << 32)) % 4 == 0));
            }
        }
        let kind = match &p.op {
            Op::Tle { name, .. } => name.is_some() as u64,
            Op::Catalogue { three, .. } => 2 + *three as u64,
            Op::Omm { list, entry, .. } => {
                4 + *list as u64
                    + 2 * match entry {
                        Entry::Slice => 0,
                        Entry::Str => 1,
                        Entry::Value => 2,
                        Entry::Stream(_) => 3,
                        Entry::Buffered(_) => 4,
                    }
            }
            Op::Copy { .. } => 20,
            Op::Write { value, .. } => 21 + *value as u64,
            Op::WriteList { .. } => 23,
        };
        let outcome = if plenty.starts_with("error") { 1 } else { 0 };
        st.shape(fold(kind * 2 + outcome, fold(used, plenty.matches("norad_id").count() as u64)));
        st.observe(fold_bytes(used, plenty.as_bytes()));
        for (k, persistent) in positions {
            st.state(fold(fold(kind * 2 + outcome, k), persistent as u64));
            let r = child::run(60, || {
                silence();
                let (t, _, denied) = run(&p.op, AllocMode::Nth { at: k, persistent });
                (t, denied)
            });
            let when = if persistent { "and all later ones " } else { "" };
            match r {
                Ok((t, denied)) => {
                    if denied > 0 {
                        st.count("calls completed in spite of a failed allocation");
                        st.nontrivial = true;
                    }
                    st.observe(fold_bytes(k, t.as_bytes()));
                    if t != plenty {
                        return bad("wrong-under-exhaustion", format!("allocation {k} of {used} {when}failed: {} instead of {}", short(&t), short(&plenty)));
                    }
                }
                Err(End::Signal(s)) if s == libc::SIGABRT => {
                    st.count("out-of-memory aborts");
                    st.nontrivial = true;
                    st.observe(k);
                }
                Err(e) => return Err(e.violation(&format!("allocation {k} of {used} {when}failed"))),
            }
            st.count(if persistent { "fault:failed allocations from one on" } else { "fault:failed allocation" });
        }
        Ok(())
    }
}

fn short(s: &str) -> String {
    let n = s.char_indices().nth(700).map_or(s.len(), |(i, _)| i);
    s[..n].to_string()
}

/// The abort's message and core file are not wanted
pub fn silence() {
    unsafe {
        libc::prctl(libc::PR_SET_DUMPABLE, 0);
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if fd >= 0 {
            libc::dup2(fd, 2);
            libc::close(fd);
        }
    }
}
