//! The supervisor: distributes runs over worker processes, attributes crashes, minimises failing
//! plans, writes replay files and evidence.
use crate::hooks::{map_progress, Progress, EXIT_DEADLOCK, EXIT_NO_PROGRESS};
use crate::props::{find, DynProp};
use serde_json::{json, Map, Value};
use std::collections::HashSet;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

const STALL: Duration = Duration::from_secs(150);

struct Job {
    child: Child,
    build: &'static str,
    page: &'static Progress,
    out: PathBuf,
    beat: (u64, Instant),
    status: Option<ExitStatus>,
    stalled: bool,
}

struct Found {
    build: &'static str,
    index: u64,
    class: String,
    detail: String,
    plan: Value,
}

fn exe(build: &str) -> PathBuf {
    let own = std::env::current_exe().expect("exe");
    if own_build() == build {
        return own;
    }
    // .build/<variant>/release/sim
    let root = own.parent().and_then(|p| p.parent()).and_then(|p| p.parent()).expect("layout");
    root.join(build).join("release").join("sim")
}

fn own_build() -> &'static str {
    if cfg!(feature = "cfg-libm") {
        "libm"
    } else {
        "std"
    }
}

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|v| v.parse().ok()).unwrap_or(default)
}

fn death_class(status: &ExitStatus, page: &Progress, stalled: bool) -> Option<(String, String)> {
    let in_lib = page.in_lib.load(Relaxed) == 1;
    if stalled {
        return in_lib.then(|| ("stalled".into(), "a library call did not return (wall-clock watchdog)".into()));
    }
    match (status.code(), status.signal()) {
        (Some(EXIT_NO_PROGRESS), _) => Some(("no-progress".into(), "a library call exceeded its step budget".into())),
        (Some(EXIT_DEADLOCK), _) => Some(("deadlock".into(), "every simulated thread waits".into())),
        (_, Some(sig)) if in_lib => Some((format!("signal-{sig}"), format!("killed by signal {sig} inside a library call"))),
        _ => None,
    }
}

/// check PROP
pub fn check(args: &[String]) -> i32 {
    let started = Instant::now();
    let prop = match args.first().and_then(|id| find(id)) {
        Some(p) => p,
        None => {
            eprintln!("unknown property");
            return 2;
        }
    };
    let seed = env_u64("VERIF_SEED", 1);
    let quick = std::env::var("VERIF_TIER").map(|t| t != "thorough").unwrap_or(true);
    let workers = env_u64("SIM_WORKERS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).min(8)).max(1);
    let scale = std::env::var("SIM_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let runs = prop.runs(quick);
    let without_libm = std::env::var_os("SIM_NO_LIBM").is_some();
    let (n_std, n_libm) = ((runs.std as f64 * scale) as u64, if without_libm { 0 } else { (runs.libm as f64 * scale) as u64 });
    let cap = Duration::from_secs(if quick { 600 } else { 4 * 3600 });
    let dir = PathBuf::from(format!("{verif}/.build/run/{}-{}", prop.id(), std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let result = run_all(&*prop, seed, quick, workers, n_std, n_libm, cap, &dir, &verif, started);
    let _ = std::fs::remove_dir_all(&dir);
    result
}

#[allow(clippy::too_many_arguments)]
fn run_all(prop: &dyn DynProp, seed: u64, quick: bool, workers: u64, n_std: u64, n_libm: u64, cap: Duration, dir: &Path, verif: &str, started: Instant) -> i32 {
    let mut jobs = Vec::new();
    // indices 0..n_std run on the std build, n_std.. on the libm build; every worker takes a stride
    let mut pending: Vec<(&'static str, u64, u64)> = Vec::new();
    for k in 0..workers {
        pending.push(("std", k, n_std));
    }
    for k in 0..workers {
        pending.push(("libm", n_std + k, n_std + n_libm));
    }
    pending.reverse();
    let mut reports: Vec<(Value, &'static str, PathBuf)> = Vec::new();
    let mut found: Option<Found> = None;
    let mut error: Option<String> = None;
    let mut timed_out = false;
    while !pending.is_empty() || !jobs.is_empty() {
        let over = started.elapsed() > cap;
        timed_out |= over;
        while jobs.len() < workers as usize && !over && error.is_none() {
            let Some((build, first, end)) = pending.pop() else { break };
            if first >= end || found.as_ref().is_some_and(|f: &Found| f.index < first) {
                continue;
            }
            let tag = format!("{build}-{first}");
            let page_path = dir.join(format!("{tag}.page"));
            let out = dir.join(format!("{tag}.json"));
            let page = map_progress(&page_path.to_string_lossy());
            let child = Command::new(exe(build))
                .arg("worker")
                .arg(prop.id())
                .args([seed.to_string(), first.to_string(), end.to_string(), workers.to_string()])
                .arg(&page_path)
                .arg(&out)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .spawn();
            match child {
                Ok(child) => jobs.push(Job { child, build, page, out, beat: (0, Instant::now()), status: None, stalled: false }),
                Err(e) => error = Some(format!("cannot start worker: {e}")),
            }
        }
        if over || error.is_some() {
            pending.clear();
            for j in &jobs {
                j.page.stop.store(1, Relaxed);
            }
        }
        std::thread::sleep(Duration::from_millis(5));
        for j in jobs.iter_mut() {
            let beat = j.page.beat.load(Relaxed);
            if beat != j.beat.0 {
                j.beat = (beat, Instant::now());
            } else if j.beat.1.elapsed() > STALL {
                j.stalled = true;
                let _ = j.child.kill();
            }
            j.status = j.child.try_wait().expect("wait");
        }
        let (done, rest): (Vec<Job>, Vec<Job>) = jobs.into_iter().partition(|j| j.status.is_some());
        jobs = rest;
        for j in done {
            let status = j.status.unwrap();
            let report = std::fs::read_to_string(&j.out).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok());
            let new = match (&report, status.code()) {
                (Some(r), Some(0 | 1)) => r.get("violation").filter(|v| !v.is_null()).map(|v| Found {
                    build: j.build,
                    index: v["index"].as_u64().unwrap_or(0),
                    class: v["class"].as_str().unwrap_or("").into(),
                    detail: v["detail"].as_str().unwrap_or("").into(),
                    plan: v["plan"].clone(),
                }),
                _ => {
                    let index = j.page.index.load(Relaxed);
                    match death_class(&status, j.page, j.stalled) {
                        Some((class, detail)) => Some(Found { build: j.build, index, class, detail, plan: prop.plan(seed, index) }),
                        None => {
                            error = Some(format!("worker {} died at run {index}: {status}", j.out.display()));
                            None
                        }
                    }
                }
            };
            if let Some(r) = report {
                reports.push((r, j.build, j.out.clone()));
            }
            if let Some(f) = new {
                if found.as_ref().is_none_or(|g| f.index < g.index) {
                    for j in &jobs {
                        j.page.stop.store(f.index.max(1), Relaxed);
                    }
                    found = Some(f);
                }
            }
        }
    }
    if let Some(e) = error {
        if found.is_none() {
            eprintln!("harness error: {e}");
            return 2;
        }
    }
    let violations = found.is_some() as u64;
    let mut extra = Map::new();
    let code = match &found {
        None => 0,
        Some(f) => {
            let shrunk = shrink(prop.id(), f, dir);
            let path = format!("{verif}/replay/{}-seed{}-run{}.json", prop.id(), seed, f.index);
            let _ = std::fs::create_dir_all(format!("{verif}/replay"));
            let file = json!({
                "property": prop.id(), "seed": seed, "run": f.index, "build": f.build,
                "class": f.class, "detail": shrunk.detail, "first_detail": f.detail,
                "minimised": shrunk.info, "history": shrunk.history, "plan": shrunk.plan,
                "how": "bash /verif/replay.sh <this file>",
            });
            std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).expect("replay file");
            println!("{}: {} ({} build, seed {}, run {})", prop.id(), f.class, f.build, seed, f.index);
            println!("  {}", shrunk.detail);
            println!("VIOLATION property={} replay={}", prop.id(), path);
            extra.insert("violation_class".into(), json!(f.class));
            extra.insert("reproduced_exactly".into(), json!(shrunk.reproduced));
            1
        }
    };
    // evidence
    let mut counters: std::collections::BTreeMap<String, u64> = Default::default();
    let (mut total, mut nontrivial_runs, mut minutes, mut digest, mut env_calls) = (0u64, 0u64, 0f64, 0u64, 0u64);
    let mut maxima: std::collections::BTreeMap<String, u64> = Default::default();
    reports.sort_by(|a, b| a.2.cmp(&b.2));
    let mut per_build = std::collections::BTreeMap::new();
    let mut samples: Vec<Value> = Vec::new();
    let (mut distinct, mut nontrivial, mut states): (HashSet<u64>, HashSet<u64>, HashSet<u64>) = Default::default();
    let mut cov: std::collections::BTreeMap<&str, (Vec<u8>, u64)> = Default::default();
    for (r, build, out) in &reports {
        let n = r["runs"].as_u64().unwrap_or(0);
        total += n;
        *per_build.entry(*build).or_insert(0u64) += n;
        nontrivial_runs += r["nontrivial_runs"].as_u64().unwrap_or(0);
        minutes += r["sim_minutes"].as_f64().unwrap_or(0.0);
        digest = digest.wrapping_add(r["digest"].as_u64().unwrap_or(0));
        env_calls += r["env_calls"].as_u64().unwrap_or(0);
        if let Some(c) = r["counters"].as_object() {
            for (k, v) in c {
                *counters.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
            }
        }
        for (k, v) in r["maxima"].as_object().into_iter().flatten() {
            let m = maxima.entry(k.clone()).or_insert(0);
            *m = v.as_u64().unwrap_or(0).max(*m);
        }
        if samples.len() < 4 {
            if let Some(s) = r["samples"].as_array().and_then(|a| a.first()) {
                samples.push(s.clone());
            }
        }
        for (suffix, set) in [("distinct", &mut distinct), ("nontrivial", &mut nontrivial), ("states", &mut states)] {
            let bytes = std::fs::read(format!("{}.{suffix}", out.display())).unwrap_or_default();
            set.extend(bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        let bytes = std::fs::read(format!("{}.cov", out.display())).unwrap_or_default();
        let entry = cov.entry(build).or_insert((vec![0; bytes.len()], r["edges_total"].as_u64().unwrap_or(0)));
        for (i, b) in bytes.iter().enumerate() {
            if *b != 0 && i < entry.0.len() {
                entry.0[i] = 1;
            }
        }
    }
    let wall = started.elapsed().as_secs_f64();
    let (rule, real, stub, assumptions) = prop.meta();
    let faults: Map<String, Value> = counters.iter().filter(|(k, _)| k.starts_with("fault:")).map(|(k, v)| (k[6..].to_string(), json!(v))).collect();
    let events: Map<String, Value> = counters.iter().filter(|(k, _)| !k.starts_with("fault:")).map(|(k, v)| (k.clone(), json!(v))).collect();
    let mut coverage = json!({
        "evaluations": total,
        "distinct_nontrivial": nontrivial.len(),
        "rule": rule,
        "samples": samples,
        "runs_per_build": per_build,
        "nontrivial_runs": nontrivial_runs,
        "distinct_run_shapes": distinct.len(),
        "distinct_abstract_states": states.len(),
        "seeds_per_hour": (total as f64 / wall * 3600.0).round(),
        "simulated_days": (minutes / 1440.0).round(),
        "faults_injected": faults,
        "events": events,
        "maxima": maxima,
        "instrumented_edges": cov.iter().map(|(b, (c, t))| (b.to_string(), json!({"reached": c.iter().map(|x| *x as u64).sum::<u64>(), "total": t}))).collect::<Map<String, Value>>(),
        "history_digest": format!("{digest:016x}"),
        "environment_calls_from_library": env_calls,
        "workers": workers,
        "stopped_by_time_cap": timed_out,
        "real_code": real,
        "simulated": stub,
    });
    for (k, v) in extra {
        coverage[k] = v;
    }
    let evidence = json!({
        "property": prop.id(), "tier": if quick { "quick" } else { "thorough" }, "seed": seed,
        "level": "exploration", "coverage": coverage, "assumptions": assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0, "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    if let Err(e) = std::fs::write(format!("{verif}/evidence/{}.json", prop.id()), serde_json::to_string_pretty(&evidence).unwrap()) {
        eprintln!("harness error: evidence: {e}");
        if code == 0 {
            return 2;
        }
    }
    if code == 0 {
        println!("{}: {} runs ({} distinct non-trivial), digest {:016x}, {:.1} s", prop.id(), total, nontrivial.len(), digest, wall);
        if total == 0 || nontrivial.is_empty() {
            eprintln!("harness error: nothing was explored");
            return 2;
        }
    }
    code
}

// Minimisation -------------------------------------------------------------------------------------

struct Shrunk {
    plan: Value,
    detail: String,
    info: Value,
    reproduced: bool,
    /// history hash of the plan that is written (0 if the process died)
    history: Option<u64>,
}

/// Executes a plan in a fresh process; returns (class, detail, history hash)
fn exec_plan(id: &str, build: &str, plan: &Value, dir: &Path) -> Option<(String, String, u64)> {
    let file = dir.join("candidate.json");
    let page_path = dir.join("candidate.page");
    std::fs::write(&file, plan.to_string()).ok()?;
    let page = map_progress(&page_path.to_string_lossy());
    page.in_lib.store(0, Relaxed);
    let out_path = dir.join("candidate.out");
    let out = std::fs::File::create(&out_path).ok()?;
    let mut child = Command::new(exe(build)).arg("exec").arg(id).arg(&file).arg(&page_path).stdin(Stdio::null()).stdout(out).stderr(Stdio::null()).spawn().ok()?;
    let t = Instant::now();
    let (status, stalled) = loop {
        if let Some(s) = child.try_wait().ok()? {
            break (s, false);
        }
        if t.elapsed() > Duration::from_secs(40) {
            let _ = child.kill();
            break (child.wait().ok()?, true);
        }
        std::thread::sleep(Duration::from_micros(500));
    };
    match status.code() {
        Some(0 | 3) if !stalled => None,
        Some(1) => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&out_path).ok()?).ok()?;
            Some((v["class"].as_str()?.into(), v["detail"].as_str()?.into(), v["history"].as_u64()?))
        }
        _ => death_class(&status, page, stalled).map(|(c, d)| (c, d, 0)),
    }
}

fn arrays(v: &Value, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, usize)>) {
    match v {
        Value::Array(a) => {
            if !a.is_empty() {
                out.push((path.clone(), a.len()));
            }
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                arrays(x, path, out);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                path.push(k.clone());
                arrays(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}

fn scalars(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                scalars(x, path, out);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                path.push(k.clone());
                scalars(x, path, out);
                path.pop();
            }
        }
        Value::String(s) if s.len() > 18 && s.ends_with(')') => out.push(path.clone()),
        Value::Number(_) => out.push(path.clone()),
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, path: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for p in path {
        v = match v {
            Value::Array(a) => a.get_mut(p.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(p)?,
            _ => return None,
        };
    }
    Some(v)
}

fn simpler(v: &Value) -> Vec<Value> {
    match v {
        Value::Number(n) => match n.as_i64() {
            Some(0) | None => vec![],
            Some(k) => [0, 1, k / 2].into_iter().filter(|c| c.abs() < k.abs()).map(|c| json!(c)).collect(),
        },
        Value::String(s) => {
            let Some(f) = u64::from_str_radix(s.split(' ').next().unwrap_or(""), 16).ok().map(f64::from_bits) else { return vec![] };
            let mut c = vec![];
            for x in [0.0, f.round(), (f * 100.0).round() / 100.0] {
                if x.to_bits() != f.to_bits() && x.is_finite() && !(f == f.round() && x != 0.0) {
                    c.push(serde_json::to_value(crate::plan::F(x)).unwrap());
                }
            }
            c
        }
        _ => vec![],
    }
}

fn size(v: &Value) -> usize {
    match v {
        Value::Array(a) => a.iter().map(|x| 1 + size(x)).sum(),
        Value::Object(o) => o.values().map(size).sum(),
        _ => 0,
    }
}

fn shrink(id: &str, f: &Found, dir: &Path) -> Shrunk {
    let limit = Instant::now() + Duration::from_secs(60);
    let mut plan = f.plan.clone();
    let before = size(&plan);
    let first = exec_plan(id, f.build, &plan, dir);
    let mut detail = f.detail.clone();
    let mut tried = 1u64;
    let mut reproduced = false;
    if let Some((class, d, h)) = &first {
        let again = exec_plan(id, f.build, &plan, dir);
        reproduced = *class == f.class && again.as_ref().is_some_and(|(c, _, g)| c == class && g == h);
        detail = d.clone();
    }
    if !reproduced {
        return Shrunk { plan, detail, info: json!({"reproduced": false}), reproduced, history: None };
    }
    let mut progress = true;
    while progress && Instant::now() < limit {
        progress = false;
        let mut list = Vec::new();
        arrays(&plan, &mut Vec::new(), &mut list);
        list.sort_by_key(|(_, n)| std::cmp::Reverse(*n));
        for (path, _) in list {
            let Some(n) = at(&mut plan, &path).and_then(|v| v.as_array().map(|a| a.len())) else { continue };
            let mut chunk = n.div_ceil(2).max(1);
            loop {
                let mut i = 0;
                while Instant::now() < limit {
                    let Some(len) = at(&mut plan, &path).and_then(|v| v.as_array().map(|a| a.len())) else { break };
                    if i >= len {
                        break;
                    }
                    let mut candidate = plan.clone();
                    if let Some(Value::Array(a)) = at(&mut candidate, &path) {
                        a.drain(i..(i + chunk).min(len));
                    }
                    tried += 1;
                    match exec_plan(id, f.build, &candidate, dir) {
                        Some((c, d, _)) if c == f.class => {
                            plan = candidate;
                            detail = d;
                            progress = true;
                        }
                        _ => i += chunk,
                    }
                }
                if chunk == 1 || Instant::now() >= limit {
                    break;
                }
                chunk = chunk.div_ceil(2);
            }
        }
    }
    let mut list = Vec::new();
    scalars(&plan, &mut Vec::new(), &mut list);
    for path in list {
        if Instant::now() >= limit {
            break;
        }
        let Some(v) = at(&mut plan, &path).cloned() else { continue };
        for c in simpler(&v) {
            let mut candidate = plan.clone();
            if let Some(slot) = at(&mut candidate, &path) {
                *slot = c;
            }
            tried += 1;
            if let Some((c, d, _)) = exec_plan(id, f.build, &candidate, dir) {
                if c == f.class {
                    plan = candidate;
                    detail = d;
                    break;
                }
            }
        }
    }
    // what is written must itself repeat exactly, otherwise the plan as generated is kept
    let last = exec_plan(id, f.build, &plan, dir);
    let again = exec_plan(id, f.build, &plan, dir);
    let stable = last.is_some() && last == again && last.as_ref().is_some_and(|(c, _, _)| *c == f.class);
    let result = if stable {
        last
    } else {
        plan = f.plan.clone();
        first
    };
    let history = result.map(|(_, d, h)| {
        detail = d;
        h
    });
    let info = json!({"reproduced": true, "minimised_plan_repeats": stable, "candidates": tried, "items_before": before, "items_after": size(&plan)});
    Shrunk { plan, detail, info, reproduced, history }
}

/// replay FILE
pub fn replay(args: &[String]) -> i32 {
    let file: Value = serde_json::from_str(&std::fs::read_to_string(&args[0]).expect("replay file")).expect("replay file");
    let id = file["property"].as_str().expect("property");
    let dir = std::env::temp_dir().join(format!("sim-replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let build = file["build"].as_str().unwrap_or("std").to_string();
    let r = exec_plan(id, &build, &file["plan"], &dir);
    let again = exec_plan(id, &build, &file["plan"], &dir);
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Some((class, detail, history)) => {
            println!("{id}: {class}\n  {detail}");
            println!("second execution identical: {}", again.is_some_and(|(c, d, h)| c == class && d == detail && h == history));
            if file["history"] == json!(history) {
                println!("same history as when the file was written: true");
            } else {
                println!("same history as when the file was written: false (another tree or harness)");
            }
            println!("VIOLATION property={id} replay={}", args[0]);
            1
        }
        None => {
            println!("{id}: not reproduced on this tree");
            0
        }
    }
}
