//! Runs a batch over worker processes, collects evidence, reports violations.

use crate::ctx::SITE_NAMES;
use crate::gen;
use crate::minimise::{self, Seen};
use crate::plan::*;
use crate::worker;
use crate::Shapes;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(30);

fn workers() -> u64 {
    std::env::var("FMSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 16) as u64)
}

/// Runs per quick batch; a batch is a fixed amount of work, so that its outcome depends on the seed alone.
fn quick_runs(prop: &str) -> u64 {
    let base = match prop {
        "C16" => 120_000,
        // The release build has fewer shapes.
        _ if crate::build().wide == 2 => 300_000,
        _ => 400_000,
    };
    std::env::var("FMSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(base)
}

struct W {
    child: Child,
    name: String,
    last: u64,
    moved: Instant,
    done: bool,
}

pub struct Batch {
    pub results: Vec<Value>,
    /// (index, what)
    pub failure: Option<(u64, Seen)>,
    pub bad: Option<String>,
    pub prints: BTreeSet<u64>,
    pub trails: BTreeSet<u64>,
    pub states: BTreeSet<u64>,
    pub n: u64,
}

fn progress(dir: &str, name: &str) -> Option<u64> {
    let b = std::fs::read(format!("{dir}/{name}.progress")).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

pub fn batch(prop: &str, seed: u64, runs: u64, limit: Duration, n: u64, dir: &str) -> Batch {
    let exe = std::env::current_exe().unwrap();
    let mut ws: Vec<W> = (0..n)
        .map(|i| {
            let name = format!("w{i}");
            let child = Command::new(&exe)
                .args(["worker", prop, &seed.to_string(), &i.to_string(), &n.to_string(), &runs.to_string(), &limit.as_millis().to_string(), dir, &name])
                .stdout(Stdio::null())
                .spawn()
                .expect("spawn worker");
            W { child, name, last: u64::MAX, moved: Instant::now(), done: false }
        })
        .collect();
    let mut b = Batch { results: vec![], failure: None, bad: None, prints: BTreeSet::new(), trails: BTreeSet::new(), states: BTreeSet::new(), n };
    let fail = |b: &mut Batch, i: u64, s: Seen| {
        if b.failure.as_ref().is_none_or(|f| i < f.0) {
            b.failure = Some((i, s));
        }
    };
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(20));
        for w in ws.iter_mut().filter(|w| !w.done) {
            let at = progress(dir, &w.name).unwrap_or(u64::MAX - 1);
            if at != w.last {
                w.last = at;
                w.moved = Instant::now();
            }
            match w.child.try_wait() {
                Ok(Some(st)) => {
                    w.done = true;
                    if st.success() {
                        match std::fs::read_to_string(format!("{dir}/{}.json", w.name)).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
                            Some(v) => {
                                if let Some(i) = v["found"]["index"].as_u64() {
                                    let x = &v["found"]["violation"];
                                    let s = |n: &str| x[n].as_str().unwrap_or("").to_string();
                                    fail(&mut b, i, Seen::Violation { class: s("class"), op: s("op"), msg: s("message"), full: x.clone() });
                                }
                                let read = |k: &str, set: &mut BTreeSet<u64>| {
                                    if let Ok(x) = std::fs::read(format!("{dir}/{}.{k}", w.name)) {
                                        set.extend(x.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                                    }
                                };
                                read("prints", &mut b.prints);
                                read("trails", &mut b.trails);
                                read("states", &mut b.states);
                                b.results.push(v);
                            }
                            None => b.bad = Some(format!("worker {} left no result", w.name)),
                        }
                    } else {
                        use std::os::unix::process::ExitStatusExt;
                        match st.signal() {
                            Some(9) if b.failure.as_ref().is_some_and(|f| f.0 < at) => {}
                            Some(s) if at < u64::MAX - 1 => fail(&mut b, at, Seen::Died(format!("signal {s}"))),
                            _ => b.bad = Some(format!("worker {} ended with {st} at run {at}", w.name)),
                        }
                    }
                }
                Ok(None) => {
                    let beyond = b.failure.as_ref().is_some_and(|f| at < u64::MAX - 1 && f.0 < at);
                    if beyond {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                    } else if w.moved.elapsed() > HANG {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        if at < u64::MAX - 1 {
                            fail(&mut b, at, Seen::Hung);
                        } else {
                            b.bad = Some(format!("worker {} does not start", w.name));
                        }
                    }
                }
                Err(e) => {
                    w.done = true;
                    b.bad = Some(e.to_string());
                }
            }
        }
    }
    b
}

fn scratch() -> String {
    let base = std::env::current_exe().ok().and_then(|p| p.parent().map(|p| p.to_path_buf())).unwrap_or_else(|| ".".into());
    let d = base.join(format!("run-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d.to_string_lossy().into_owned()
}

fn merge(into: &mut BTreeMap<String, u64>, v: &Value) {
    if let Some(m) = v.as_object() {
        for (k, x) in m {
            *into.entry(k.clone()).or_default() += x.as_u64().unwrap_or(0);
        }
    }
}

/// Listed findings: (property, key, text). The workers learn the keys from the environment.
fn known(home: &str) -> Vec<(String, String, String)> {
    let text = std::fs::read_to_string(format!("{home}/known-findings.txt")).unwrap_or_default();
    let list: Vec<_> = text
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (p, l) = l.split_once(" key=")?;
            let (k, what) = l.split_once(' ')?;
            Some((p.to_string(), k.to_string(), what.to_string()))
        })
        .collect();
    let keys: BTreeSet<&str> = list.iter().map(|x| x.1.as_str()).collect();
    std::env::set_var("FMSIM_KNOWN", keys.into_iter().collect::<Vec<_>>().join(","));
    list
}

/// `check PROP TIER SEED VERIF_DIR`
pub fn check(args: &[String]) -> i32 {
    let (prop, tier, seed, home) = (&args[0], &args[1], args[2].parse::<u64>().expect("seed"), &args[3]);
    let t0 = Instant::now();
    println!("fmsim: property {prop} tier {tier} VERIF_SEED={seed} (shapes built from seed {}, {})", crate::build().seed, ["quick", "wide", "release build"][crate::build().wide as usize]);
    let thorough = tier == "thorough";
    let known = known(home);
    let secs = |n: &str, d: u64| std::env::var(n).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let (runs, limit) = if thorough {
        (u64::MAX >> 8, Duration::from_secs(secs("FMSIM_SECONDS", 420)))
    } else {
        (quick_runs(prop), Duration::from_secs(secs("FMSIM_SECONDS", 240)))
    };
    let dir = scratch();
    let b = batch(prop, seed, runs, limit, workers(), &dir);
    let explored = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violations = 0;
    let mut report = Value::Null;
    if let Some((index, seen)) = &b.failure {
        match confirm(prop, seed, *index, seen, &b, home, &dir) {
            Ok((path, text, v)) => {
                violations = 1;
                code = 1;
                report = v;
                println!("{text}");
                println!("VIOLATION property={prop} replay={path}");
            }
            Err(e) => {
                eprintln!("fmsim: harness error: {e}");
                code = 2;
            }
        }
    } else if let Some(e) = &b.bad {
        eprintln!("fmsim: harness error: {e}");
        code = 2;
    }
    let sum = |k: &str| b.results.iter().map(|r| r[k].as_u64().unwrap_or(0)).sum::<u64>();
    if code == 0 && sum("diverged") > 0 {
        eprintln!("fmsim: harness error: {} runs did not repeat", sum("diverged"));
        code = 2;
    }
    for (p, key, what) in &known {
        let probe = format!("known finding: {}", key.replace('-', " "));
        let n: u64 = b.results.iter().map(|r| r["probes"][&probe].as_u64().unwrap_or(0)).sum();
        if p == prop && n > 0 {
            println!("KNOWN-FINDING: property={prop} {what} (met {n} times)");
        }
    }
    evidence(prop, tier, seed, home, &b, t0, explored, violations, report, thorough);
    let _ = std::fs::remove_dir_all(&dir);
    let r = sum("runs");
    println!(
        "fmsim: {r} runs, {} operations, {} distinct histories, {:.1} s, exit {code}",
        sum("ops"),
        b.prints.len(),
        t0.elapsed().as_secs_f64()
    );
    code
}

/// Reproduce in a fresh process, minimise, write the replay file, reproduce that.
fn confirm(prop: &str, seed: u64, index: u64, seen: &Seen, b: &Batch, home: &str, dir: &str) -> Result<(String, String, Value), String> {
    let shapes = Shapes::load();
    let p = gen::plan(prop, seed, index, crate::build().seed, crate::build().wide, &shapes.maps, &shapes.sets);
    let file = format!("{dir}/candidate.json");
    let keep = format!("{home}/evidence/replays");
    std::fs::create_dir_all(&keep).map_err(|e| e.to_string())?;
    let path = format!("{keep}/{prop}-seed{seed}-run{index}.json");
    let mut first = Seen::Clean;
    for _ in 0..3 {
        first = minimise::fresh(&p, &file, Duration::from_secs(10));
        if first.failing() {
            break;
        }
    }
    let write = |v: &Value| std::fs::write(&path, serde_json::to_string_pretty(v).unwrap()).map_err(|e| e.to_string());
    if first.failing() {
        let (mut best, tries) = minimise::minimise(&p, &first, &file, Duration::from_secs(25));
        let mut last = minimise::fresh(&best, &file, Duration::from_secs(10));
        let again = minimise::fresh(&best, &file, Duration::from_secs(10));
        if !last.failing() || last.text() != again.text() {
            // Not stable: keep the plan as generated.
            best = p.clone();
            last = first.clone();
        }
        let v = json!({
            "property": prop, "seed": seed, "run": index, "plan": best.json(), "expect": last.text(),
            "original_steps": p.setup.len() + p.clients.iter().map(Vec::len).sum::<usize>(),
            "minimised_steps": best.setup.len() + best.clients.iter().map(Vec::len).sum::<usize>(),
            "candidates_tried": tries, "replay": "./check.sh replay <this file>",
        });
        write(&v)?;
        let text = format!("fmsim: seed {seed} run {index}: {} ({} steps after minimising)", last.text(), v["minimised_steps"]);
        return Ok((path, text, v));
    }
    // The failure may need the runs before it in the same process.
    let v = json!({
        "property": prop, "seed": seed, "run": index, "batch": {"start": index % b.n, "stride": b.n, "build_seed": crate::build().seed, "wide": crate::build().wide},
        "expect": seen.text(), "replay": "./check.sh replay <this file>",
    });
    write(&v)?;
    let s = replay_batch(&v, dir);
    if s.failing() {
        let text = format!("fmsim: seed {seed} run {index}: {} (needs the runs before it in the same process)", s.text());
        return Ok((path, text, v));
    }
    Err(format!("run {index} failed once ({}) and does not reproduce: {}", seen.text(), first.text()))
}

fn replay_batch(v: &Value, dir: &str) -> Seen {
    let exe = std::env::current_exe().unwrap();
    let n = |k: &str| v["batch"][k].as_u64().unwrap_or(0).to_string();
    let run = v["run"].as_u64().unwrap_or(0);
    let st = Command::new(exe)
        .args(["worker", v["property"].as_str().unwrap_or(""), &v["seed"].to_string(), &n("start"), &n("stride"), &(run + 1).to_string(), "600000", dir, "replay"])
        .stdout(Stdio::null())
        .status();
    use std::os::unix::process::ExitStatusExt;
    match st {
        Ok(s) if s.success() => {
            let r: Value = std::fs::read_to_string(format!("{dir}/replay.json")).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null);
            let x = &r["found"]["violation"];
            if x.is_null() {
                return Seen::Clean;
            }
            let s = |n: &str| x[n].as_str().unwrap_or("").to_string();
            Seen::Violation { class: s("class"), op: s("op"), msg: s("message"), full: x.clone() }
        }
        Ok(s) => match s.signal() {
            Some(n) => Seen::Died(format!("signal {n}")),
            None => Seen::Bad(s.to_string()),
        },
        Err(e) => Seen::Bad(e.to_string()),
    }
}

/// `replay FILE VERIF_DIR`
pub fn replay(args: &[String]) -> i32 {
    let path = &args[0];
    known(args.get(1).map_or(".", String::as_str));
    let v: Value = match std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    let dir = scratch();
    let seen = if v["batch"].is_object() { replay_batch(&v, &dir) } else { minimise::fresh_file(path, Duration::from_secs(30)) };
    let _ = std::fs::remove_dir_all(&dir);
    println!("fmsim: {}", seen.text());
    if seen.failing() {
        println!("fmsim: {} the recorded violation", if Value::from(seen.text()) == v["expect"] { "exactly" } else { "not exactly" });
        println!("VIOLATION property={} replay={path}", v["property"].as_str().unwrap_or("?"));
        return 1;
    }
    if let Seen::Bad(_) = seen {
        return 2;
    }
    0
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, seed: u64, home: &str, b: &Batch, t0: Instant, explored: f64, violations: u64, report: Value, thorough: bool) {
    let sum = |k: &str| b.results.iter().map(|r| r[k].as_u64().unwrap_or(0)).sum::<u64>();
    let (mut armed, mut fired, mut probes) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
    let mut codes = vec![0u64; NCODES];
    let mut preempt = vec![0u64; SITE_NAMES.len()];
    let mut used: BTreeSet<String> = BTreeSet::new();
    let mut total = 0u64;
    for r in &b.results {
        merge(&mut armed, &r["armed"]);
        merge(&mut fired, &r["fired"]);
        merge(&mut probes, &r["probes"]);
        for (i, c) in codes.iter_mut().enumerate() {
            *c += r["by_code"][i].as_u64().unwrap_or(0);
        }
        for (i, c) in preempt.iter_mut().enumerate() {
            *c += r["preempt"][i].as_u64().unwrap_or(0);
        }
        for s in r["shapes"].as_array().into_iter().flatten() {
            used.insert(s.as_str().unwrap_or("").to_string());
        }
        total = total.wrapping_add(u64::from_str_radix(r["sum"].as_str().unwrap_or("0"), 16).unwrap_or(0));
    }
    let shapes = Shapes::load();
    // Samples: the first runs of this batch that count, written out.
    let mut samples = vec![];
    let runs = sum("runs");
    for i in 0..runs.min(400) {
        let p = gen::plan(prop, seed, i, crate::build().seed, crate::build().wide, &shapes.maps, &shapes.sets);
        let n = p.setup.len() + p.clients.iter().map(Vec::len).sum::<usize>();
        let main = p.clients.iter().flatten().any(|o| gen::is_main(prop, o.code));
        let fault = p.clients.iter().flatten().any(|o| o.fault.kind != FK::None);
        if main && (3..14).contains(&n) && (fault || i > 200) {
            samples.push(json!({"run": i, "plan": p.json()}));
        }
        if samples.len() == 2 {
            break;
        }
    }
    if samples.is_empty() {
        let p = gen::plan(prop, seed, 0, crate::build().seed, crate::build().wide, &shapes.maps, &shapes.sets);
        samples.push(json!({"run": 0, "plan": p.json()}));
    }
    let mut ops = Map::new();
    for (i, c) in codes.iter().enumerate() {
        if *c > 0 {
            ops.insert(CODE_NAMES[i].into(), json!(c));
        }
    }
    let mut pre = Map::new();
    for (i, c) in preempt.iter().enumerate() {
        if *c > 0 {
            pre.insert(SITE_NAMES[i].into(), json!(c));
        }
    }
    let hours = (explored / 3600.0).max(1e-9);
    let foreign_sample = b.results.iter().map(|r| &r["foreign_sample"]).find(|v| !v.is_null()).cloned().unwrap_or(Value::Null);
    let mut v = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "builds": [{"shapes_seed": crate::build().seed, "wide": crate::build().wide, "runs": runs}],
            "evaluations": runs,
            "distinct_nontrivial": b.prints.len(),
            "rule": "One evaluation is one simulated run: a plan drawn from (VERIF_SEED, property, run index) and executed against the real containers next to the reference model. A run is non-trivial when it executed at least three operations of which at least one is an operation its property is about; two runs are distinct when the hashes of their observed histories (operations, every callback and allocation count, contents after each step, schedule) differ.",
            "samples": samples,
            "runs_per_hour": (runs as f64 / hours) as u64,
            "seeds_per_hour": (runs as f64 / hours) as u64,
            "seeds_note": "every run has its own derived seed; VERIF_SEED is the root",
            "operations_executed": sum("ops"),
            "simulated_time": {"unit": "logical ticks: one per callback out of the code under test and per iterator step; the code has no clock", "ticks": sum("ticks")},
            "operations": ops,
            "faults_armed": armed,
            "faults_fired": fired,
            "rare_conditions_hit": probes,
            "distinct_container_states": b.states.len(),
            "distinct_interleavings": b.trails.len(),
            "multi_client_runs": sum("multi"),
            "context_switches": sum("switches"),
            "memory_accesses_seen_by_the_scheduler": sum("accesses"),
            "switches_forced_by_a_taken_lock_or_spinning": sum("forced"),
            "preemptions_by_site": pre,
            "key_shapes_used": used,
            "runs_re_executed_for_determinism": sum("redone"),
            "runs_that_diverged": sum("diverged"),
            "batch_fingerprint": format!("{total:016x}"),
            "runs_with_violations_of_other_properties": sum("foreign"),
            "example_of_those": foreign_sample,
            "wall_capped": b.results.iter().any(|r| r["capped"] == true) && !thorough,
            "worker_processes": b.n,
            "violation": report,
        },
        "assumptions": [
            "real code: all of /repo/src and the code the derive generates, hashbrown, ahash, serde, bincode, serde_json",
            "stubs: values, closures, source iterators, serializers, deserializers, text sinks, disk, allocator, hash-seed source, scheduler, process restart",
            "clients are real threads released one at a time: at operation boundaries, callbacks and iterator steps, and in C16 also at atomic accesses and sampled plain memory accesses of the code under test; memory is sequentially consistent",
            "the search samples; a clean batch is evidence, not proof"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{home}/evidence"));
    // A check runs several builds one after the other: their evidence adds up.
    if std::env::var("FMSIM_PART").is_ok_and(|p| p != "0") {
        if let Some(before) = std::fs::read_to_string(format!("{home}/evidence/{prop}.json")).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
            add(&mut v, &before);
            let per = v["coverage"]["evaluations"].as_u64().unwrap_or(0) as f64 / (v["wall_s"].as_f64().unwrap_or(1.0) / 3600.0).max(1e-9);
            v["coverage"]["runs_per_hour"] = json!(per as u64);
            v["coverage"]["seeds_per_hour"] = json!(per as u64);
        }
    }
    let _ = std::fs::write(format!("{home}/evidence/{prop}.json"), serde_json::to_string_pretty(&v).unwrap());
}

/// Adds the counts of an earlier part.
fn add(v: &mut Value, before: &Value) {
    for k in ["wall_s", "violations"] {
        v[k] = if v[k].is_u64() { json!(v[k].as_u64().unwrap_or(0) + before[k].as_u64().unwrap_or(0)) } else { json!(v[k].as_f64().unwrap_or(0.0) + before[k].as_f64().unwrap_or(0.0)) };
    }
    let (Some(new), Some(old)) = (v["coverage"].as_object_mut(), before["coverage"].as_object()) else { return };
    for (k, o) in old {
        let n = new.entry(k.clone()).or_insert(Value::Null);
        if let (Some(a), Some(b), true) = (n.as_u64(), o.as_u64(), k != "worker_processes") {
            *n = json!(a + b);
        } else if let (Some(a), Some(b)) = (n.as_object_mut(), o.as_object()) {
            for (k, x) in b {
                if let Some(x) = x.as_u64() {
                    let y = a.get(k).and_then(Value::as_u64).unwrap_or(0);
                    a.insert(k.clone(), json!(x + y));
                }
            }
        } else if let (Some(a), Some(b)) = (n.as_array_mut(), o.as_array()) {
            let mut all = b.clone();
            all.extend(a.iter().filter(|x| !b.contains(x)).cloned());
            *a = all;
        } else if n.is_null() {
            *n = o.clone();
        }
    }
}

/// Same seeds, different numbers of processes: every batch must have the same fingerprint.
/// `selftest RUNS SEEDS VERIF_DIR`
pub fn selftest(args: &[String]) -> i32 {
    known(args.get(2).map_or(".", String::as_str));
    let runs: u64 = args.first().and_then(|s| s.parse().ok()).unwrap_or(400);
    let seeds: u64 = args.get(1).and_then(|s| s.parse().ok()).unwrap_or(8);
    let dir = scratch();
    let mut bad = 0;
    let mut total = 0u64;
    for prop in 1..=18 {
        let prop = format!("C{prop:02}");
        for seed in 1..=seeds {
            let mut first = None;
            for n in [1, 3, 8] {
                let b = batch(&prop, seed, runs, Duration::from_secs(600), n, &dir);
                let s = b.results.iter().fold(0u64, |a, r| a.wrapping_add(u64::from_str_radix(r["sum"].as_str().unwrap_or("0"), 16).unwrap_or(0)));
                total += runs;
                if b.failure.is_some() || b.bad.is_some() {
                    println!("{prop} seed {seed} workers {n}: {:?} {:?}", b.failure, b.bad);
                    bad += 1;
                }
                match first {
                    None => first = Some(s),
                    Some(f) if f != s => {
                        println!("{prop} seed {seed}: fingerprint {f:016x} with 1 worker, {s:016x} with {n}");
                        bad += 1;
                    }
                    _ => {}
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!("selftest: {total} runs, {bad} problems");
    i32::from(bad > 0)
}

#[allow(dead_code)]
fn unused() {
    let _ = worker::load_plan;
}
