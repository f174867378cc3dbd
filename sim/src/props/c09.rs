use super::{Prop, Runs};
use crate::plan::{bad, Violation, F};
use crate::rng::Rng;
use crate::sat::*;
use crate::stats::Stats;
use crate::store::{gen_events, Event, Rec, World};
use serde::{Deserialize, Serialize};

pub struct C09;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    sats: Vec<(Sat, bool)>,
    events: Vec<Event>,
}

impl Prop for C09 {
    const ID: &'static str = "C09";
    const RULE: &'static str = "one run = an application with 1-3 propagators that saves, restores, re-saves and uses them over 6-36 events on a simulated disk with crashes; non-trivial: at least one complete copy restored and compared, or every field of a copy lost in turn; distinct: sequence of (event kind, format, write protocol)";
    const REAL: &'static str = "all of sgp4 (both builds) with its serde implementations; serde, serde_json";
    const STUB: &'static str = "the disk (page cache, synchronisation, renames, crashes), the byte stream, a minimal binary serde format, an exact JSON reader";
    const ASSUMPTIONS: &'static [&'static str] = &["a crash leaves a prefix of what was being written; blocks swapped or altered in place are the business of the storage layer's checksums", "JSON numbers read directly by serde_json are compared to within 8 units in the last place (its default number reader is not exactly rounding)"];
    type Plan = Plan;
    fn runs(quick: bool) -> Runs {
        if quick {
            Runs { std: 20_000, libm: 4_000 }
        } else {
            Runs { std: 1_000_000, libm: 200_000 }
        }
    }
    fn gen(r: &mut Rng, _: u64) -> Plan {
        let n = 1 + r.idx(3);
        let sats = (0..n).map(|_| (gen_any(r), r.chance(0.4))).collect();
        Plan { sats, events: gen_events(r, n) }
    }
    fn exec(p: &Plan, st: &mut Stats) -> Result<(), Violation> {
        let mut records = Vec::new();
        for (s, afspc) in &p.sats {
            match s.build(*afspc) {
                Ok(Ok(c)) => records.push(Rec::C(c)),
                Ok(Err(_)) => {}
                Err(e) => return bad("panic", format!("initialisation panicked: {}", e.0)),
            }
        }
        let mut w = World::new(records);
        for e in &p.events {
            w.event(e, st)?;
        }
        let last = [F(50.0), F(-1500.0), F(30000.0)];
        for i in 0..w.originals.len() {
            for afspc in [false, true] {
                w.event(&Event::Use { record: i, times: last.to_vec(), afspc }, st)?;
            }
        }
        Ok(())
    }
}
