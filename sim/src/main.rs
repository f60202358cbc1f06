//! Deterministic simulation of the merkletree crate: see /verif/DESIGN.md.
#![allow(unknown_lints, static_mut_refs, dead_code)]
mod driver;
mod fs;
mod interpose;
mod model;
mod props;
mod raw;
mod rng;
mod run;
mod sched;
mod source;
mod tree;
mod types;

use driver::*;
use std::collections::BTreeMap;

fn no_aslr() {
    if std::env::var_os("MTSIM_NOASLR").is_some() {
        return;
    }
    std::env::set_var("MTSIM_NOASLR", "1");
    unsafe {
        if libc::personality(0x0040000) != -1 {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
            eprintln!("note: re-exec failed: {}", e);
        }
    }
}

fn main() {
    no_aslr();
    sched::resolve();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], &opt(&a, "--tier", "quick"), opt(&a, "--seed", "1").parse().unwrap_or(1), &opt(&a, "--verif", "/verif"), &a),
        Some("replay") => replay(&a[2]),
        Some("one") => one(&a[2], &a[3], &opt(&a, "--tier", "quick")),
        Some("determinism") => determinism(&a[2], opt(&a, "--runs", "50").parse().unwrap()),
        _ => {
            eprintln!("usage: mtsim check PROP [--tier T] [--seed N] | replay FILE | one PROP SEED | determinism PROP");
            2
        }
    };
    std::process::exit(code);
}
fn opt(a: &[String], k: &str, d: &str) -> String {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| d.to_string())
}

fn one(prop: &str, seed: &str, tier: &str) -> i32 {
    let s = Scratch(scratch_base());
    let spec = props::gen(prop, seed.parse().unwrap(), tier);
    println!("{}", serde_json::to_string_pretty(&spec).unwrap());
    match execute(&spec, &s.0, true) {
        End::Done(o) => {
            let mut o2 = o.clone();
            o2.trace.clear();
            o2.deviations.clear();
            println!("{}", serde_json::to_string_pretty(&o2).unwrap());
            for t in o.trace.iter().rev().take(60).rev() {
                println!("{}", t);
            }
            o.violation.is_some() as i32
        }
        End::Unknown(e) => {
            println!("unknown: {}", e);
            2
        }
    }
}

/// Same seed, same execution: run each seed twice and compare the log hashes.
fn determinism(prop: &str, n: u64) -> i32 {
    let s = Scratch(scratch_base());
    let mut bad = 0;
    for i in 0..n {
        let seed = rng::mix(0xdede, i);
        let spec = props::gen(prop, seed, "quick");
        let (a, b) = (execute(&spec, &s.0, true), execute(&spec, &s.0, false));
        if let (End::Done(a), End::Done(b)) = (a, b) {
            if a.hash != b.hash || a.points != b.points || a.switches != b.switches {
                println!("seed {}: {:x}/{}/{} vs {:x}/{}/{}", seed, a.hash, a.points, a.switches, b.hash, b.points, b.switches);
                bad += 1;
            }
            // explicit replay of the recorded choices
            let mut e = spec.clone();
            e.sched.replay = Some(a.deviations.clone());
            e.io.list = Some(a.fired.clone());
            e.io.crash_list = Some(a.crashes.clone());
            if let End::Done(c) = execute(&e, &s.0, false) {
                if c.hash != a.hash {
                    println!("seed {}: explicit replay differs {:x}/{}/{} vs {:x}/{}/{}", seed, a.hash, a.points, a.switches, c.hash, c.points, c.switches);
                    bad += 1;
                }
            }
        }
    }
    println!("{} runs, {} differences", n, bad);
    (bad > 0) as i32
}

fn replay(file: &str) -> i32 {
    let s = Scratch(scratch_base());
    let r: Replay = match serde_json::from_slice(&read_file(file)) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("cannot read {}: {}", file, e);
            return 2;
        }
    };
    run::load_known("/verif");
    match execute(&r.spec, &s.0, true) {
        End::Done(o) => {
            for t in &o.trace {
                println!("{}", t);
            }
            match &o.violation {
                Some(v) => {
                    let exact = *v == r.violation && (o.hash == r.log_hash || r.log_hash == 0);
                    println!("violation [{}] {}", v.class, v.msg);
                    println!("{}", if exact { "reproduced exactly" } else { "reproduced, but the execution differs from the recorded one (the code changed?)" });
                    println!("VIOLATION property={} replay={}", r.property, file);
                    1
                }
                None => {
                    println!("no violation");
                    0
                }
            }
        }
        End::Unknown(e) => {
            println!("unknown: {}", e);
            2
        }
    }
}

fn check(prop: &str, tier: &str, seed: u64, verif: &str, args: &[String]) -> i32 {
    let t0 = raw::real_now();
    let mut b = props::budget(prop, tier);
    if let Ok(r) = opt(args, "--runs", "").parse() {
        b.runs = r;
    }
    if let Ok(r) = opt(args, "--secs", "").parse() {
        b.wall_s = r;
    }
    let s = Scratch(scratch_base());
    let known = run::load_known(verif);
    let base = rng::mix(seed, rng::hash_bytes(7, prop.as_bytes()));
    let st = search(prop, base, tier, &b, &s.0);
    let search_s = raw::real_now() - t0;
    let mut violations: Vec<serde_json::Value> = vec![];
    let mut line = None;
    if let Some((spec, o)) = &st.found {
        let secs = opt(args, "--minimise", "").parse().unwrap_or(if tier == "quick" { 40.0 } else { 120.0 });
        let (mspec, mo, tries) = minimise(spec, o, &s.0, secs);
        let v = mo.violation.clone().unwrap();
        let dir = format!("{}/replays", verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{:016x}.json", dir, prop, spec.seed);
        let r = Replay { property: prop.into(), found_with_seed: spec.seed, violation: v.clone(), log_hash: mo.hash, minimiser_runs: tries, spec: mspec, trace: mo.trace.clone() };
        if let Err(e) = std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()) {
            eprintln!("cannot write {}: {}", path, e);
        }
        println!("seed {}: [{}] {}", spec.seed, v.class, v.msg);
        for t in mo.trace.iter().rev().take(25).rev() {
            println!("    {}", t);
        }
        violations.push(serde_json::json!({"replay": path, "class": v.class, "detail": v.msg, "seed": spec.seed}));
        line = Some(format!("VIOLATION property={} replay={}", prop, path));
    }
    let wall = raw::real_now() - t0;
    let never: Vec<&str> = props::expected_probes(prop).iter().filter(|p| !st.probes.contains_key(**p)).cloned().collect();
    let ev = serde_json::json!({
        "property": prop,
        "tier": if tier == "quick" { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.hashes.len(),
            "rule": "one evaluation = one simulated run generated from one seed (workload, schedule, faults, crash points); distinct_nontrivial = distinct execution-log hashes (over every context switch, I/O call with its result, fault and crash) among the runs that had at least one preemption, injected fault or crash image",
            "oracle_comparisons": st.checks,
            "runs_per_workload_and_store": st.workloads,
            "samples": st.samples,
            "seeds_per_hour": (st.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
            "runs_not_judged": st.unknown,
            "simulated_time_s": st.vtime_ns as f64 / 1e9,
            "scheduling_points": st.points,
            "context_switches": st.switches,
            "preemptions": st.preemptions,
            "atomic_operations_seen": st.atomics,
            "max_tasks": st.max_tasks,
            "storage_calls": st.calls,
            "faults_injected": st.faults,
            "schedulers": st.strategies,
            "probes_reached": st.probes,
            "probes_not_reached": never,
            "violation_detail": violations,
            "notes": st.errors,
            "known_findings_seen": known.iter().filter(|k| k.property == prop).map(|k| serde_json::json!({"id": k.id, "occurrences": st.probes.get(&format!("known:{}", k.id)).copied().unwrap_or(0)})).collect::<Vec<_>>(),
            "components": {
                "real": ["merkletree crate from /repo working tree", "rayon worker pool", "std threads, locks, files", "memmap2", "tempfile", "positioned-io"],
                "simulated": ["thread scheduler and futex", "clock", "getrandom", "file-system call results, durability and crash images"],
                "stub": ["hash function and element types (supplied through the library's own traits)", "custom external source"],
            },
        },
        "assumptions": [
            "preemption happens at system calls, futex operations, hash calls and (in the runs marked fine-grained) every atomic operation of the code, not between arbitrary plain memory accesses; atomics are sequentially consistent",
            "crash model: a successful fsync/msync persists content, size and directory entry; otherwise any per-page mix of durable and current content and any recorded size",
        ],
        "violations": violations.len(),
        "wall_s": wall,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
    let _ = std::fs::write(format!("{}/evidence/{}.json", verif, prop), serde_json::to_vec_pretty(&ev).unwrap());
    let top: BTreeMap<_, _> = st.faults.iter().collect();
    println!(
        "{}: {} runs, {} distinct executions, {} checks, {} points, {} switches, {:.1}s, faults {:?}",
        prop, st.runs, st.hashes.len(), st.checks, st.points, st.switches, wall, top
    );
    println!("   probes {:?}", st.probes);
    if !never.is_empty() {
        println!("   probes not reached: {:?}", never);
    }
    for e in st.errors.iter().take(3) {
        println!("   note: {}", e);
    }
    for k in known.iter().filter(|k| k.property == prop) {
        println!("KNOWN-FINDING: property={} {} ({} occurrences in this run)", prop, k.what, st.probes.get(&format!("known:{}", k.id)).copied().unwrap_or(0));
    }
    if let Some(l) = line {
        println!("{}", l);
        return 1;
    }
    if st.runs == 0 {
        println!("no run could be judged");
        return 2;
    }
    0
}
