//! Parent side: lanes of forked runs, search, minimisation, replay files, evidence.
use crate::fs::{CrashAt, Fault};
use crate::raw;
use crate::run::{self, Case, Outcome, RunSpec, Violation};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::os::fd::FromRawFd;

pub fn scratch_base() -> String {
    for d in ["/dev/shm", "/tmp"] {
        let p = format!("{}/mtsim.{}", d, std::process::id());
        if std::fs::create_dir_all(&p).is_ok() {
            // usable?
            if std::fs::write(format!("{}/probe", p), b"x").is_ok() {
                let _ = std::fs::remove_file(format!("{}/probe", p));
                return p;
            }
        }
    }
    panic!("no scratch directory");
}
pub struct Scratch(pub String);
impl Drop for Scratch {
    fn drop(&mut self) {
        if self.0.contains("/mtsim.") {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}

fn pin(core: usize) {
    unsafe {
        let mut have: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut have) != 0 {
            return;
        }
        let cores: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &have)).collect();
        if cores.is_empty() {
            return;
        }
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cores[core % cores.len()], &mut s);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &s);
    }
}
pub fn cores() -> usize {
    unsafe {
        let mut have: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut have) != 0 {
            return 4;
        }
        (0..1024).filter(|i| libc::CPU_ISSET(*i, &have)).count().max(1)
    }
}

/// CPU seconds one run may use before it counts as not making progress.
const CPU_LIMIT: u64 = 60;
const WALL_LIMIT_MS: i32 = 280_000;

pub enum End {
    Done(Outcome),
    /// the run could not be judged (killed from outside)
    Unknown(String),
}

/// Execute one run in a forked child and collect its outcome.
pub fn execute(spec: &RunSpec, base: &str, tracing: bool) -> End {
    let root = format!("{}/r", base);
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(format!("{}/d", root)).expect("scratch");
    std::fs::create_dir_all(format!("{}/tmp", root)).expect("scratch");
    let mut p = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            raw::syscall3(libc::SYS_close, p[0] as i64, 0, 0);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            run::child(spec, &root, p[1], tracing);
        }
        raw::syscall3(libc::SYS_close, p[1] as i64, 0, 0);
        let mut out = Vec::new();
        let mut buf = vec![0u8; 1 << 16];
        let t0 = raw::real_now();
        let mut timed_out = false;
        loop {
            let mut pf = libc::pollfd { fd: p[0], events: libc::POLLIN, revents: 0 };
            let left = WALL_LIMIT_MS - ((raw::real_now() - t0) * 1000.0) as i32;
            if left <= 0 || libc::poll(&mut pf, 1, left) == 0 {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let n = raw::syscall3(libc::SYS_read, p[0] as i64, buf.as_mut_ptr() as i64, buf.len() as i64);
            if n == -(libc::EINTR as i64) {
                continue;
            }
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        raw::syscall3(libc::SYS_close, p[0] as i64, 0, 0);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        let _ = std::fs::remove_dir_all(&root);
        let viol = |class: &str, msg: String| {
            End::Done(Outcome { violation: Some(Violation { class: class.into(), msg }), ..Default::default() })
        };
        if timed_out {
            return viol("hang", "the run blocked outside the simulator and never finished".into());
        }
        if let Ok(o) = serde_json::from_slice::<Outcome>(&out) {
            if let Some(v) = &o.violation {
                if v.class == "harness" || v.msg.contains("harness:") {
                    return End::Unknown(v.msg.clone());
                }
            }
            return End::Done(o);
        }
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            return match s {
                libc::SIGXCPU => viol("hang", format!("the run used more than {} CPU seconds without finishing", CPU_LIMIT)),
                libc::SIGKILL => End::Unknown("killed".into()),
                _ => viol("crash", format!("the process died on signal {}", s)),
            };
        }
        End::Unknown(format!("no outcome, status {}", st))
    }
}

#[derive(Serialize, Deserialize, Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub unknown: u64,
    pub points: u64,
    pub switches: u64,
    pub preemptions: u64,
    #[serde(default)]
    pub atomics: u64,
    pub max_tasks: u64,
    pub vtime_ns: u64,
    pub calls: u64,
    pub checks: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub workloads: BTreeMap<String, u64>,
    pub strategies: BTreeMap<String, u64>,
    pub hashes: BTreeSet<u64>,
    pub samples: Vec<serde_json::Value>,
    pub found: Option<(RunSpec, Outcome)>,
    pub errors: Vec<String>,
}
impl Stats {
    fn add(&mut self, spec: &RunSpec, o: &Outcome) {
        self.runs += 1;
        self.points += o.points;
        self.switches += o.switches;
        self.preemptions += o.preemptions;
        self.atomics += o.atomics;
        self.max_tasks = self.max_tasks.max(o.tasks);
        self.vtime_ns += o.vtime_ns;
        self.calls += o.calls;
        self.checks += o.checks;
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        let w = format!("{}/{}", spec.case.wl, spec.case.store);
        *self.workloads.entry(w).or_insert(0) += 1;
        let s = format!("{:?}", spec.sched.strategy).split(' ').next().unwrap_or("?").to_string() + if spec.sched.fine { "+atomics" } else { "" };
        *self.strategies.entry(s).or_insert(0) += 1;
        if o.preemptions > 0 || o.faults.values().any(|v| *v > 0) || o.ncrash > 0 {
            self.hashes.insert(o.hash);
        }
    }
    fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.unknown += o.unknown;
        self.points += o.points;
        self.switches += o.switches;
        self.preemptions += o.preemptions;
        self.atomics += o.atomics;
        self.max_tasks = self.max_tasks.max(o.max_tasks);
        self.vtime_ns += o.vtime_ns;
        self.calls += o.calls;
        self.checks += o.checks;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.workloads {
            *self.workloads.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.strategies {
            *self.strategies.entry(k).or_insert(0) += v;
        }
        self.hashes.extend(o.hashes);
        if self.samples.len() < 6 {
            self.samples.extend(o.samples);
            self.samples.truncate(6);
        }
        if self.found.is_none() {
            self.found = o.found;
        }
        self.errors.extend(o.errors);
    }
}

pub struct Budget {
    pub runs: u64,
    pub wall_s: f64,
}

/// Run the seeds of one property across all cores.
pub fn search(prop: &str, base_seed: u64, tier: &str, budget: &Budget, scratch: &str) -> Stats {
    let lanes = cores().min(16);
    let mut kids = vec![];
    for lane in 0..lanes {
        let mut p = [0i32; 2];
        unsafe {
            assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                raw::syscall3(libc::SYS_close, p[0] as i64, 0, 0);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                pin(lane);
                let dir = format!("{}/{}", scratch, lane);
                let _ = std::fs::create_dir_all(&dir);
                let st = lane_loop(prop, base_seed, tier, budget, lane as u64, lanes as u64, &dir);
                let _ = std::fs::remove_dir_all(&dir);
                let j = serde_json::to_vec(&st).unwrap_or_default();
                raw::write_all(p[1], &j);
                raw::exit_group(0);
            }
            raw::syscall3(libc::SYS_close, p[1] as i64, 0, 0);
            kids.push((pid, p[0], Vec::<u8>::new(), false));
        }
    }
    let mut total = Stats::default();
    let mut open = kids.len();
    while open > 0 {
        let mut pf: Vec<libc::pollfd> = kids.iter().map(|k| libc::pollfd { fd: if k.3 { -1 } else { k.1 }, events: libc::POLLIN, revents: 0 }).collect();
        unsafe {
            libc::poll(pf.as_mut_ptr(), pf.len() as u64, 1000);
        }
        let mut buf = vec![0u8; 1 << 16];
        for (i, k) in kids.iter_mut().enumerate() {
            if k.3 || pf[i].revents == 0 {
                continue;
            }
            let n = unsafe { raw::syscall3(libc::SYS_read, k.1 as i64, buf.as_mut_ptr() as i64, buf.len() as i64) };
            if n > 0 {
                k.2.extend_from_slice(&buf[..n as usize]);
            } else {
                k.3 = true;
                open -= 1;
                match serde_json::from_slice::<Stats>(&k.2) {
                    Ok(s) => total.merge(s),
                    Err(_) => total.errors.push("a lane ended without a report".into()),
                }
            }
        }
        if total.found.is_some() {
            break;
        }
    }
    for k in &kids {
        unsafe {
            if !k.3 {
                libc::kill(k.0, libc::SIGKILL);
            }
            let mut st = 0;
            libc::waitpid(k.0, &mut st, 0);
            libc::close(k.1);
        }
    }
    total
}

fn lane_loop(prop: &str, base_seed: u64, tier: &str, b: &Budget, lane: u64, lanes: u64, dir: &str) -> Stats {
    let mut st = Stats::default();
    let t0 = raw::real_now();
    let mut i = lane;
    while i < b.runs && raw::real_now() - t0 < b.wall_s {
        let seed = crate::rng::mix(base_seed, i + 1);
        let spec = crate::props::gen(prop, seed, tier);
        match execute(&spec, dir, false) {
            End::Done(o) => {
                st.add(&spec, &o);
                if i < 2 || (st.samples.is_empty() && o.switches > 0) {
                    st.samples.push(serde_json::json!({
                        "seed": seed, "workload": spec.case.wl, "backend": spec.case.store, "elem": spec.case.elem,
                        "arity": spec.case.arity, "leafs": if spec.case.arity > 0 { spec.case.leafs() } else { 0 },
                        "strategy": spec.sched.strategy, "faults": o.faults, "points": o.points, "switches": o.switches,
                        "checks": o.checks,
                    }));
                }
                if o.violation.is_some() {
                    st.found = Some((spec, o));
                    return st;
                }
            }
            End::Unknown(e) => {
                st.unknown += 1;
                if st.errors.len() < 5 {
                    st.errors.push(format!("seed {}: {}", seed, e));
                }
            }
        }
        i += lanes;
    }
    st
}

// ---- minimisation ------------------------------------------------------------------------------

struct Shrinker<'a> {
    dir: &'a str,
    class: String,
    deadline: f64,
    tries: u64,
}
impl<'a> Shrinker<'a> {
    fn fails(&mut self, s: &RunSpec) -> Option<Outcome> {
        if raw::real_now() > self.deadline {
            return None;
        }
        self.tries += 1;
        match execute(s, self.dir, true) {
            End::Done(o) if o.violation.as_ref().map_or(false, |v| v.class == self.class) => Some(o),
            _ => None,
        }
    }
    /// delta debugging over a list
    fn ddmin<T: Clone, F: Fn(&mut RunSpec, Vec<T>)>(&mut self, spec: &mut RunSpec, list: Vec<T>, set: F) -> Vec<T> {
        let mut cur = list;
        let mut s = spec.clone();
        set(&mut s, vec![]);
        if !cur.is_empty() && self.fails(&s).is_some() {
            *spec = s;
            return vec![];
        }
        let mut n = 2usize;
        while cur.len() > 1 && raw::real_now() < self.deadline {
            let size = (cur.len() + n - 1) / n;
            let mut reduced = false;
            let mut start = 0;
            while start < cur.len() {
                let mut rest = cur.clone();
                let end = (start + size).min(rest.len());
                rest.drain(start..end);
                let mut s = spec.clone();
                set(&mut s, rest.clone());
                if self.fails(&s).is_some() {
                    cur = rest;
                    *spec = s;
                    n = n.saturating_sub(1).max(2);
                    reduced = true;
                    break;
                }
                start += size;
            }
            if !reduced {
                if n >= cur.len() {
                    break;
                }
                n = (n * 2).min(cur.len());
            }
        }
        let mut s = spec.clone();
        set(&mut s, cur.clone());
        *spec = s;
        cur
    }
}

fn case_candidates(c: &Case) -> Vec<Case> {
    let mut v = vec![];
    let mut push = |f: &dyn Fn(&mut Case)| {
        let mut d = c.clone();
        f(&mut d);
        if d != *c {
            v.push(d);
        }
    };
    push(&|d| d.clients = 1);
    push(&|d| d.clients = d.clients.saturating_sub(1).max(1));
    push(&|d| d.pool = 1);
    push(&|d| d.pool = d.pool.saturating_sub(1).max(1));
    for i in (0..c.ops.len()).rev() {
        push(&|d| {
            d.ops.remove(i);
        });
    }
    v
}

pub fn minimise(found: &RunSpec, o: &Outcome, dir: &str, secs: f64) -> (RunSpec, Outcome, u64) {
    let class = o.violation.as_ref().unwrap().class.clone();
    let mut sh = Shrinker { dir, class: class.clone(), deadline: raw::real_now() + secs, tries: 0 };
    // first: does the seed itself reproduce, and its explicit form?
    let seeded = match sh.fails(found) {
        Some(o) => o,
        None => return (found.clone(), o.clone(), sh.tries),
    };
    let explicit = |o: &Outcome, from: &RunSpec| {
        let mut s = from.clone();
        s.sched.replay = Some(o.deviations.clone());
        s.io.list = Some(o.fired.clone());
        s.io.crash_list = Some(o.crashes.clone());
        s
    };
    let mut spec = explicit(&seeded, found);
    if class == "crash" || class == "hang" || sh.fails(&spec).is_none() {
        // runs that die without reporting cannot be made explicit; keep the seed form
        return (found.clone(), seeded, sh.tries);
    }
    for _round in 0..3 {
        let before = serde_json::to_string(&spec).unwrap_or_default();
        let crashes = spec.io.crash_list.clone().unwrap_or_default();
        if crashes.len() > 1 {
            sh.ddmin(&mut spec, crashes, |s, l: Vec<CrashAt>| s.io.crash_list = Some(l));
        }
        let faults = spec.io.list.clone().unwrap_or_default();
        if !faults.is_empty() {
            sh.ddmin(&mut spec, faults, |s, l: Vec<Fault>| s.io.list = Some(l));
        }
        let devs = spec.sched.replay.clone().unwrap_or_default();
        if !devs.is_empty() {
            sh.ddmin(&mut spec, devs, |s, l: Vec<(u64, u32)>| s.sched.replay = Some(l));
        }
        // shrink the workload, keeping the explicit fault and schedule lists
        let mut again = true;
        while again && raw::real_now() < sh.deadline {
            again = false;
            for c in case_candidates(&spec.case) {
                let mut s = spec.clone();
                s.case = c;
                if sh.fails(&s).is_some() {
                    spec = s;
                    again = true;
                    break;
                }
            }
        }
        if serde_json::to_string(&spec).unwrap_or_default() == before {
            break;
        }
    }
    match execute(&spec, dir, true) {
        End::Done(o) if o.violation.as_ref().map_or(false, |v| v.class == class) => (spec, o, sh.tries),
        _ => (found.clone(), seeded, sh.tries),
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub found_with_seed: u64,
    pub violation: Violation,
    pub log_hash: u64,
    pub minimiser_runs: u64,
    pub spec: RunSpec,
    pub trace: Vec<String>,
}

pub fn read_file(p: &str) -> Vec<u8> {
    let mut v = vec![];
    if let Ok(mut f) = std::fs::File::open(p) {
        let _ = f.read_to_end(&mut v);
    }
    v
}
#[allow(dead_code)]
pub fn fd_file(fd: i32) -> std::fs::File {
    unsafe { std::fs::File::from_raw_fd(fd) }
}
