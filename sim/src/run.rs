//! One simulated run: specification, outcome, and how a run ends.
use crate::fs::{self, CrashAt, Fault, IoPlan};
use crate::raw;
use crate::sched::{self, Bypass, SchedPlan};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Op {
    pub k: String,
    #[serde(default)]
    pub a: usize,
    #[serde(default)]
    pub b: usize,
    #[serde(default)]
    pub c: u64,
}
pub fn op(k: &str, a: usize, b: usize, c: u64) -> Op {
    Op { k: k.to_string(), a, b, c }
}

/// The workload of a run. One shape for all properties, so that it can be shrunk generically.
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub wl: String,
    pub store: String,
    pub elem: usize,
    pub arity: usize,
    pub exp: u32,
    pub ctor: String,
    pub r: usize,
    pub ver: u32,
    pub dseed: u64,
    pub sub: usize,
    pub top: usize,
    pub clients: usize,
    pub pool: usize,
    pub cfg: bool,
    pub knob: Vec<i64>,
    pub ops: Vec<Op>,
}
impl Case {
    pub fn leafs(&self) -> usize {
        self.arity.pow(self.exp)
    }
    pub fn kn(&self, i: usize) -> i64 {
        self.knob.get(i).copied().unwrap_or(0)
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RunSpec {
    pub prop: String,
    pub seed: u64,
    pub case: Case,
    pub sched: SchedPlan,
    pub io: IoPlan,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Outcome {
    pub violation: Option<Violation>,
    pub hash: u64,
    pub points: u64,
    pub switches: u64,
    pub preemptions: u64,
    #[serde(default)]
    pub atomics: u64,
    pub tasks: u64,
    pub vtime_ns: u64,
    pub faults: BTreeMap<String, u64>,
    pub calls: u64,
    pub fired: Vec<Fault>,
    pub deviations: Vec<(u64, u32)>,
    pub crashes: Vec<CrashAt>,
    #[serde(default)]
    pub ncrash: u64,
    pub probes: BTreeMap<String, u64>,
    pub checks: u64,
    pub trace: Vec<String>,
}

struct Run {
    pipe: i32,
    probes: BTreeMap<String, u64>,
    checks: u64,
    tracing: bool,
}
static mut RUN: *mut Run = std::ptr::null_mut();
#[allow(static_mut_refs)]
fn run() -> &'static mut Run {
    unsafe { &mut *RUN }
}
/// Count that a rare condition was reached.
pub fn probe(name: &str) {
    let _b = Bypass::new();
    *run().probes.entry(name.to_string()).or_insert(0) += 1;
}
/// Count oracle evaluations.
pub fn checked(n: u64) {
    run().checks += n;
}

fn finish(v: Option<Violation>) -> ! {
    let _b = Bypass::new();
    let s = sched::sim();
    let f = fs::fs();
    let r = run();
    let msg_hash = v.as_ref().map_or(0, |v| crate::rng::hash_bytes(1, v.msg.as_bytes()));
    let keep = v.is_some() || r.tracing;
    let o = Outcome {
        hash: s.hash ^ msg_hash,
        points: s.points,
        switches: s.switches,
        preemptions: s.preemptions,
        atomics: s.atomics,
        tasks: s.max_tasks as u64,
        vtime_ns: s.vtime - 1_000_000_000_000,
        faults: f.counts.clone(),
        calls: f.calls.values().sum(),
        fired: if keep { f.fired.clone() } else { vec![] },
        deviations: if keep { s.deviations.clone() } else { vec![] },
        crashes: if keep { f.crashes.clone() } else { vec![] },
        ncrash: f.crashes.len() as u64,
        probes: r.probes.clone(),
        checks: r.checks,
        trace: if r.tracing { f.trace.clone() } else { vec![] },
        violation: v,
    };
    let j = serde_json::to_vec(&o).unwrap_or_default();
    raw::write_all(r.pipe, &j);
    raw::exit_group(0)
}

/// End the run: the property is violated.
pub fn violation(class: &str, msg: &str) -> ! {
    fs::fs().note(&format!("VIOLATION {} {}", class, msg));
    finish(Some(Violation { class: class.into(), msg: msg.chars().take(600).collect() }))
}
/// Same, from scheduler context.
pub fn fatal(class: &str, msg: &str) -> ! {
    violation(class, msg)
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($arg:tt)*) => {{
        $crate::run::checked(1);
        if !$cond {
            $crate::run::violation($class, &format!($($arg)*));
        }
    }};
}

/// Body of the forked child: never returns.
pub fn child(spec: &RunSpec, root: &str, pipe: i32, tracing: bool) -> ! {
    unsafe {
        RUN = Box::into_raw(Box::new(Run { pipe, probes: BTreeMap::new(), checks: 0, tracing }));
    }
    std::env::set_var("TMPDIR", format!("{}/tmp", root));
    std::panic::set_hook(Box::new(|_| {}));
    fs::init(root, spec.io.clone(), tracing);
    sched::init(spec.sched.clone());
    let pool = spec.case.pool.max(1);
    if rayon::ThreadPoolBuilder::new().num_threads(pool).build_global().is_err() {
        violation("harness", "cannot build the worker pool");
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::props::run(spec)));
    match r {
        Ok(()) => finish(None),
        Err(p) => {
            let m = panic_msg(&p);
            violation("panic", &format!("panic escaped the workload: {}", m))
        }
    }
}
pub fn panic_msg(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    }
}

#[derive(Deserialize, Clone, Debug)]
pub struct Known {
    pub id: String,
    pub property: String,
    pub what: String,
}
#[derive(Deserialize, Default)]
struct KnownFile {
    #[serde(default)]
    findings: Vec<Known>,
}
static mut KNOWN: Vec<Known> = Vec::new();
#[allow(static_mut_refs)]
pub fn load_known(verif: &str) -> Vec<Known> {
    let k: KnownFile = serde_json::from_slice(&crate::driver::read_file(&format!("{}/known_findings.json", verif))).unwrap_or_default();
    unsafe {
        KNOWN = k.findings.clone();
    }
    k.findings
}
/// A violation that is tolerated only while it is listed in the known-findings file.
#[allow(static_mut_refs)]
pub fn known_or_violation(id: &str, class: &str, msg: &str) {
    if unsafe { KNOWN.iter().any(|k| k.id == id) } {
        probe(&format!("known:{}", id));
        fs::fs().note(&format!("KNOWN {} {}", id, msg));
    } else {
        violation(class, msg)
    }
}
