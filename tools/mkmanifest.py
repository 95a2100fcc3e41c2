#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
NA = {
    "C19": "A fact about types fixed at compile time (size_of); no input, schedule, fault or history enters it, so there is nothing for a simulator to vary.",
    "C20": "Decided by the compiler while expanding the derive; nothing runs, so there is no execution to simulate and no fault to inject.",
    "C21": "A trait-implementation fact settled by the type checker; it has no execution, schedule or fault to simulate.",
}
TECH = {
    "C01": "deterministic simulation with fault injection: seeded operation histories with panics, refused allocations, crash and restart, against a reference map model",
    "C02": "deterministic simulation with fault injection: seeded operation histories with panics, refused allocations, crash and restart, against a reference set model",
    "C03": "deterministic simulation with fault injection: entry actions with panicking closures, defaults and destructors, abandoned and leaked handles, against a reference model",
    "C04": "deterministic simulation: seeded schedules of double-ended iterator steps with abandonment and interruption, against a position model",
    "C05": "deterministic simulation: traversal order after faulty histories, restarts and hash-seed changes, against a declaration-order rank model",
    "C06": "deterministic simulation with fault injection: ledger of every value's life through interrupted operations, audited after every step",
    "C07": "deterministic simulation with fault injection: panics placed at the n-th callback of every kind, per-entry admissible-outcome oracle",
    "C08": "deterministic simulation with fault injection: clone and clone_from with panics, refused allocations and later divergence, against ledger and model",
    "C09": "deterministic simulation with fault injection: containers grown by different faulty histories compared against content-only oracles",
    "C10": "deterministic simulation with fault injection: snapshot, crash, restart and restore on a simulated disk, against a reference decoder",
    "C11": "deterministic simulation with fault injection: failing, torn, short and corrupted sinks and sources at every call, against a reference decoder",
    "C12": "deterministic simulation with fault injection: raw snapshots stored, corrupted and restored across restarts, against a bit model",
    "C13": "deterministic simulation with fault injection: allocator outage and refusal of the n-th request, allocation counting",
    "C14": "deterministic simulation: seeded schedules of intersection iterator steps with interruption, against a reference intersection",
    "C15": "deterministic simulation with fault injection: faulty, lying and panicking sources, against a sequential-insert model",
    "C16": "deterministic simulation: seeded schedules of concurrent readers preempted at callbacks and memory accesses, checked against the alone result",
    "C17": "deterministic simulation with fault injection: predicates that mutate, panic and are refused memory, against a reference retain",
    "C18": "deterministic simulation with fault injection: text sinks failing at every write and panicking formatters, against a reference formatter",
}
EXTRA = {
    "C06": " Known finding: a value clone that panics inside the hash table of a dynamic key part leaks the values that table had cloned before (hashbrown 0.13.2).",
    "C08": " Known finding: a value clone that panics inside the hash table of a dynamic key part leaks the values that table had cloned before (hashbrown 0.13.2).",
    "C16": " Clients switch at operation boundaries, callbacks, iterator steps, atomic accesses and sampled plain memory accesses of the code under test (as instrumented by the compiler, sequentially consistent; weak memory orders are not simulated).",
}
note = "Seeded search over histories, schedules and faults against the real containers: a clean batch is evidence within the sampled space, not proof. Trusts the reference model, the rustc toolchain and the key shapes generated at build time as representative."
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "exploration", "level_note": note + EXTRA.get(i, ""),
    })
m = {
    "version": 1, "setup_cmd": "./check.sh build", "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: every seam (values, closures, iterators, serde, fmt sinks, allocator, hash seeds, key types) is reached through the public API. Known findings: known-findings.txt. Replay: ./check.sh replay FILE.",
}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
