//! A worker process: executes its share of the seeded runs one after another.
use crate::hooks::{map_progress, progress, use_progress};
use crate::props::{find, DynProp};
use crate::rng::{run_seed, Rng};
use crate::stats::Stats;
use serde_json::{json, Value};
use std::io::Write;
use std::sync::atomic::Ordering::Relaxed;

pub fn rng_for(seed: u64, prop: &str, index: u64) -> Rng {
    Rng::new(run_seed(seed, prop, index))
}

fn number(args: &[String], i: usize) -> u64 {
    args[i].parse().expect("number")
}

/// worker PROP SEED FIRST END STRIDE PROGRESS OUT
pub fn worker(args: &[String]) -> i32 {
    let prop = find(&args[0]).expect("property");
    let (seed, first, end, stride) = (number(args, 1), number(args, 2), number(args, 3), number(args, 4));
    let page = map_progress(&args[5]);
    use_progress(page);
    let mut st = Stats::default();
    let mut index = first;
    let mut found: Option<Value> = None;
    // stop bound set by the supervisor once a violation is known at a lower index
    while index < end && index < page.bound() {
        page.index.store(index, Relaxed);
        page.beat.fetch_add(1, Relaxed);
        st.begin();
        match prop.run(seed, index, &mut st) {
            Ok(()) => st.end(index),
            Err((v, plan)) => {
                found = Some(json!({"index": index, "class": v.class, "detail": v.detail, "plan": plan}));
                break;
            }
        }
        if st.samples.len() < 3 {
            let text = prop.describe(seed, index);
            st.samples.push(text);
        }
        index += stride;
    }
    let bytes = |s: &std::collections::HashSet<u64>| s.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<u8>>();
    let out = &args[6];
    std::fs::write(format!("{out}.distinct"), bytes(&st.distinct)).expect("write");
    std::fs::write(format!("{out}.nontrivial"), bytes(&st.distinct_nontrivial)).expect("write");
    std::fs::write(format!("{out}.states"), bytes(&st.states)).expect("write");
    std::fs::write(format!("{out}.cov"), crate::hooks::coverage_bytes()).expect("write");
    let report = json!({
        "runs": st.runs, "nontrivial_runs": st.nontrivial_runs, "sim_minutes": st.sim_minutes,
        "digest": st.digest, "counters": st.counters, "maxima": st.maxima, "samples": st.samples, "violation": found,
        "env_calls": progress().env_calls.load(Relaxed), "edges_total": crate::hooks::coverage_total(),
    });
    std::fs::write(out, report.to_string()).expect("write");
    if found.is_some() {
        1
    } else {
        0
    }
}

/// exec PROP PLANFILE: runs one plan; prints the violation class and detail
pub fn exec(args: &[String]) -> i32 {
    let prop = match find(&args[0]) {
        Some(p) => p,
        None => return 3,
    };
    let text = std::fs::read_to_string(&args[1]).expect("plan file");
    let plan: Value = match serde_json::from_str(&text) {
        Ok(v) => v,
        Err(_) => return 3,
    };
    if let Some(p) = args.get(2) {
        use_progress(map_progress(p));
    }
    let mut st = Stats::default();
    st.begin();
    let r = prop.exec_value(&plan, &mut st);
    let (code, line) = match r {
        None => (3, json!({"invalid": true})),
        Some(Ok(())) => (0, json!({"ok": true, "history": st.history})),
        Some(Err(v)) => (1, json!({"class": v.class, "detail": v.detail, "history": st.history})),
    };
    let mut o = std::io::stdout();
    let _ = writeln!(o, "{line}");
    let _ = o.flush();
    code
}

pub fn show_plan(args: &[String]) -> i32 {
    let prop = find(&args[0]).expect("property");
    println!("{}", serde_json::to_string_pretty(&prop.plan(number(args, 1), number(args, 2))).unwrap());
    0
}

pub fn describe_default(prop: &dyn DynProp, seed: u64, index: u64) -> String {
    let mut s = prop.plan(seed, index).to_string();
    s.truncate(600);
    format!("run {index}: {s}")
}
