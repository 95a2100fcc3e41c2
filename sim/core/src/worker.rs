//! One process of a batch, and single plans.

use crate::exec::{self, reads_only, RunOut, Stats, Viol, SETUP};
use crate::gen;
use crate::plan::*;
use crate::rng::mix;
use crate::Shapes;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};

pub fn viol_json(v: &Viol) -> Value {
    json!({
        "class": v.class, "op": CODE_NAMES[v.code as usize], "message": v.msg,
        "client": if v.client == SETUP { json!("setup") } else { json!(v.client) },
        "step": if v.op == usize::MAX { json!("end") } else { json!(v.op) },
        "properties": (1..32).filter(|i| v.tags & (1 << i) != 0).map(|i| format!("C{i:02}")).collect::<Vec<_>>(),
    })
}

/// Run a plan and pick the violation of its property, if any.
pub fn judge(shapes: &Shapes, p: &Plan) -> (RunOut, Option<Viol>) {
    let shape = shapes.find(p).expect("shape of the plan");
    let num = gen::prop_num(&p.prop);
    let want = if num == 16 { u32::MAX } else { 1 << num };
    let out = exec::run(p, shape, want);
    let v = if num == 16 {
        out.viols.first().filter(|v| v.tags & want & (1 << 16) != 0 && !alone(shapes, p, &out, v)).cloned()
    } else {
        out.viols.iter().find(|v| v.tags & want != 0).cloned()
    };
    (out, v)
}

/// Does the reader get the same wrong result when it is the only reader?
fn alone(shapes: &Shapes, p: &Plan, out: &RunOut, v: &Viol) -> bool {
    if v.op == usize::MAX {
        return true;
    }
    let op_at = |c: usize, i: usize| if c == SETUP { &p.setup[i] } else { &p.clients[c][i] };
    let mut q = p.clone();
    q.setup.clear();
    for (c, i) in &out.order {
        if (*c, *i) == (v.client, v.op) {
            break;
        }
        let o = op_at(*c, *i);
        if !reads_only(o) && o.code != Code::Pause {
            q.setup.push(o.clone());
        }
    }
    q.quiet = true;
    q.mask = 0;
    q.choices.clear();
    q.gaps.clear();
    let o = op_at(v.client, v.op);
    let mut o = o.clone();
    o.nest = None;
    q.clients = if v.audit {
        vec![vec![Op::new(Code::Pause)]]
    } else if o.code == Code::Pair {
        let part = |second: bool| {
            let mut i = Op::new(Code::Iter);
            i.s = if second { o.t } else { o.s };
            i.how = if second { o.how >> 4 } else { o.how };
            i.moves = o.moves.iter().filter(|m| (**m & 0x8000_0000 != 0) == second).map(|m| m & 1).chain([15]).collect();
            i
        };
        vec![vec![part(false), part(true)]]
    } else {
        vec![vec![o]]
    };
    let shape = shapes.find(&q).unwrap();
    let r = exec::run(&q, shape, u32::MAX);
    r.viols.iter().any(|x| x.client != SETUP)
}

pub fn load_plan(path: &str) -> Option<(Plan, Value)> {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).ok()?).ok()?;
    let p = Plan::parse(&v["plan"])?;
    Some((p, v))
}

/// Execute one plan in this process and print what happened.
pub fn exec(args: &[String]) -> i32 {
    let shapes = Shapes::load();
    let Some((p, _)) = load_plan(&args[0]) else {
        eprintln!("cannot read plan {}", args[0]);
        return 2;
    };
    if shapes.find(&p).is_none() || p.build_seed != crate::build().seed || p.wide != crate::build().wide {
        eprintln!("this build does not have the shapes of the plan");
        return 2;
    }
    let (out, v) = judge(&shapes, &p);
    println!("{}", json!({"log": format!("{:016x}", out.log), "violation": v.as_ref().map(viol_json), "all": out.viols.iter().map(viol_json).collect::<Vec<_>>()}));
    0
}

pub fn show(args: &[String]) -> i32 {
    let shapes = Shapes::load();
    let (seed, index) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let p = gen::plan(&args[0], seed, index, crate::build().seed, crate::build().wide, &shapes.maps, &shapes.sets);
    println!("{}", json!({"plan": p.json()}));
    0
}

/// `worker PROP SEED START STRIDE COUNT MILLIS DIR NAME`
pub fn work(args: &[String]) -> i32 {
    let prop = &args[0];
    let n = |i: usize| -> u64 { args[i].parse().expect("number") };
    let (seed, start, stride, count, millis) = (n(1), n(2), n(3), n(4), n(5));
    let dir = &args[6];
    let name = &args[7];
    let shapes = Shapes::load();
    let progress = std::fs::File::create(format!("{dir}/{name}.progress")).unwrap();
    let t0 = Instant::now();
    let limit = Duration::from_millis(millis);
    let mut stats = Stats::new();
    let mut prints: BTreeSet<u64> = BTreeSet::new();
    let mut trails: BTreeSet<u64> = BTreeSet::new();
    let (mut runs, mut foreign, mut redone, mut diverged, mut multi) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut sum = 0u64;
    let mut found = Value::Null;
    let mut foreign_sample = Value::Null;
    let mut shapes_used: BTreeSet<String> = BTreeSet::new();
    let mut i = start;
    let mut capped = false;
    while i < count {
        if runs % 32 == 0 && t0.elapsed() > limit {
            capped = true;
            break;
        }
        progress.write_all_at(&i.to_le_bytes(), 0).unwrap();
        let p = gen::plan(prop, seed, i, crate::build().seed, crate::build().wide, &shapes.maps, &shapes.sets);
        let (out, v) = judge(&shapes, &p);
        runs += 1;
        stats.add(&out.stats);
        sum = sum.wrapping_add(mix(mix(i) ^ out.log));
        if p.clients.len() > 1 {
            multi += 1;
            trails.insert(mix(out.trail ^ mix(p.clients.iter().map(|c| c.len() as u64).sum())));
        }
        if interesting(prop, &p, &out) {
            prints.insert(out.log);
        }
        shapes_used.insert(format!("{} {}", if p.is_map { "Map" } else { "Set" }, p.shape));
        if let Some(v) = v {
            found = json!({"index": i, "violation": viol_json(&v)});
            break;
        }
        if !out.viols.is_empty() {
            foreign += 1;
            if foreign_sample.is_null() {
                foreign_sample = json!({"index": i, "violation": viol_json(&out.viols[0])});
            }
        } else if i % 61 == 0 {
            // The same plan again must give the same history.
            let (again, _) = judge(&shapes, &p);
            redone += 1;
            // Something computed once and kept shifts the preemptions of the first execution only.
            if again.log != out.log && judge(&shapes, &p).0.log != again.log {
                diverged += 1;
            }
        }
        i += stride;
    }
    let dump = |n: &str, s: &BTreeSet<u64>| {
        let b: Vec<u8> = s.iter().flat_map(|x| x.to_le_bytes()).collect();
        std::fs::write(format!("{dir}/{name}.{n}"), b).unwrap();
    };
    dump("prints", &prints);
    dump("trails", &trails);
    dump("states", &stats.states);
    let out = json!({
        "runs": runs, "ops": stats.ops, "ticks": stats.ticks, "switches": stats.switches, "accesses": stats.accesses, "forced": stats.forced, "multi": multi,
        "by_code": stats.by_code, "armed": stats.armed, "fired": stats.fired, "probes": stats.probes,
        "preempt": stats.preempt, "foreign": foreign, "foreign_sample": foreign_sample, "redone": redone, "diverged": diverged,
        "sum": format!("{sum:016x}"), "found": found, "capped": capped, "shapes": shapes_used,
    });
    std::fs::write(format!("{dir}/{name}.json"), out.to_string()).unwrap();
    0
}

/// A run counts when it took at least three steps and one of them is a step its property is about.
pub fn interesting(prop: &str, p: &Plan, out: &RunOut) -> bool {
    out.stats.ops >= 3 && out.stats.by_code.iter().enumerate().any(|(c, n)| *n > 0 && gen::is_main(prop, CODES[c])) && !p.shape.is_empty()
}
