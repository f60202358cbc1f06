//! Deterministic scheduler: real OS threads, one running at a time, every hand-over decided here.
//!
//! All state in `Sim` is touched only by the thread that holds the baton (or by the single thread
//! of the process before the simulation is switched on).
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ptr::{read_volatile, write_volatile};

// No atomics in this file: every atomic operation of instrumented code is itself a scheduling point.
extern "C" {
    static mut mt_fine: i32;
    fn mt_gate_open(g: *const u32);
    fn mt_gate_wait(g: *const u32);
}

pub const NOT_A_TASK: usize = usize::MAX;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Strategy {
    /// never preempt; round-robin when a task blocks or yields
    Seq,
    /// at each point switch with probability 1/inv to a random runnable task
    Random { inv: u32 },
    /// random priorities with `d` priority change points spread over `est` points
    Pct { d: u32, est: u32 },
    /// switch every q points
    Rr { q: u32 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SchedPlan {
    pub strategy: Strategy,
    pub seed: u64,
    /// explicit deviations from the default choice: (choice index, choice)
    pub replay: Option<Vec<(u64, u32)>>,
    pub cap: u64,
    /// every atomic operation of the code under test is a scheduling point
    #[serde(default)]
    pub fine: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Runnable,
    Blocked { addr: usize, deadline: u64 },
    Joining(usize),
    Finished,
}

struct Task {
    st: St,
    gate: Box<u32>,
    prio: u64,
    timed_out: bool,
    pthread: u64,
}

pub struct Sim {
    tasks: Vec<Task>,
    runnable: Vec<usize>,
    waitq: Vec<(usize, usize)>, // (addr, task) in arrival order
    plan: SchedPlan,
    rng: Rng,
    pub sys_rng: Rng,
    replay: BTreeMap<u64, u32>,
    pub points: u64,
    next_switch: u64,
    change_points: Vec<u64>,
    low_prio: u64,
    pub deviations: Vec<(u64, u32)>,
    pub switches: u64,
    pub vtime: u64,
    pub hash: u64,
    pub max_tasks: usize,
    pub preemptions: u64,
    fair: bool,
    pub atomics: u64,
    last_point: u64,
    since: u32,
}

static mut ENABLED: bool = false;
static mut SIM: *mut Sim = std::ptr::null_mut();
static mut BYPASS: u32 = 0;

thread_local! {
    static CUR: Cell<usize> = const { Cell::new(NOT_A_TASK) };
}

pub fn cur() -> usize {
    CUR.with(|c| c.get())
}
#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
/// true when the calling thread is simulated and not inside simulator code
#[inline]
pub fn active() -> bool {
    enabled() && unsafe { read_volatile(std::ptr::addr_of!(BYPASS)) } == 0 && cur() != NOT_A_TASK
}
#[inline]
pub fn enabled() -> bool {
    unsafe { read_volatile(std::ptr::addr_of!(ENABLED)) }
}
/// Guard: while alive, interposed calls go straight to the kernel.
pub struct Bypass(u32);
impl Bypass {
    pub fn new() -> Bypass {
        // outside a run nothing is intercepted, and several threads may be here
        let n = enabled() as u32;
        unsafe { BYPASS += n };
        Bypass(n)
    }
}
impl Drop for Bypass {
    fn drop(&mut self) {
        unsafe { BYPASS -= self.0 };
    }
}

pub fn init(plan: SchedPlan) {
    let mut rng = Rng::new(plan.seed ^ 0x5ced);
    let replay = plan.replay.clone().unwrap_or_default().into_iter().collect();
    let mut change_points = vec![];
    if let Strategy::Pct { d, est } = plan.strategy {
        for _ in 0..d {
            change_points.push(rng.below(est.max(1) as usize) as u64);
        }
        change_points.sort();
        change_points.reverse();
    }
    let mut s = Box::new(Sim {
        tasks: vec![],
        runnable: vec![],
        waitq: vec![],
        sys_rng: Rng::new(plan.seed ^ 0x5157e3),
        plan,
        rng,
        replay,
        points: 0,
        next_switch: 0,
        change_points,
        low_prio: 1 << 20,
        deviations: vec![],
        switches: 0,
        vtime: 1_000_000_000_000,
        hash: 0,
        max_tasks: 0,
        preemptions: 0,
        fair: false,
        atomics: 0,
        last_point: 0,
        since: 0,
    });
    s.draw_gap();
    let id = s.new_task();
    CUR.with(|c| c.set(id));
    unsafe {
        SIM = Box::into_raw(s);
    }
    unsafe {
        write_volatile(std::ptr::addr_of_mut!(ENABLED), true);
        write_volatile(std::ptr::addr_of_mut!(mt_fine), 1 + sim().plan.fine as i32);
    }
}

impl Sim {
    fn replaying(&self) -> bool {
        self.plan.replay.is_some()
    }
    fn draw_gap(&mut self) {
        self.next_switch = match (&self.plan.strategy, self.replaying()) {
            (Strategy::Random { inv }, false) => {
                let p = 1.0 / (*inv).max(1) as f64;
                let g = if p >= 1.0 { 0.0 } else { (1.0 - self.rng.f()).ln() / (1.0 - p).ln() };
                self.points + g.min(1e12) as u64
            }
            (Strategy::Rr { q }, false) => self.points + *q as u64,
            _ => u64::MAX,
        };
    }
    fn new_task(&mut self) -> usize {
        let id = self.tasks.len();
        let prio = (1 << 32) + (self.rng.next() >> 33);
        self.tasks.push(Task { st: St::Runnable, gate: Box::new(0), prio, timed_out: false, pthread: 0 });
        self.runnable.push(id);
        self.max_tasks = self.max_tasks.max(self.tasks.len());
        id
    }
    fn set_runnable(&mut self, t: usize) {
        self.tasks[t].st = St::Runnable;
        if let Err(i) = self.runnable.binary_search(&t) {
            self.runnable.insert(i, t);
        }
    }
    fn unset_runnable(&mut self, t: usize) {
        if let Ok(i) = self.runnable.binary_search(&t) {
            self.runnable.remove(i);
        }
    }
    #[inline]
    fn note(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
    }
    /// Advance virtual time to the earliest deadline and release its waiter.
    fn fire_timer(&mut self) -> bool {
        let mut best: Option<(u64, usize)> = None;
        for (i, t) in self.tasks.iter().enumerate() {
            if let St::Blocked { deadline, .. } = t.st {
                if deadline != u64::MAX && best.map_or(true, |b| deadline < b.0) {
                    best = Some((deadline, i));
                }
            }
        }
        match best {
            None => false,
            Some((d, t)) => {
                self.vtime = self.vtime.max(d);
                self.tasks[t].timed_out = true;
                self.waitq.retain(|w| w.1 != t);
                self.set_runnable(t);
                true
            }
        }
    }
    fn next_after(&self, cur: usize) -> usize {
        match self.runnable.binary_search(&cur) {
            Ok(i) => self.runnable[(i + 1) % self.runnable.len()],
            Err(i) => self.runnable[i % self.runnable.len()],
        }
    }
    /// Pick the next task to run. `cur_ok`: the current task may continue.
    fn choose(&mut self, cur: usize, cur_ok: bool, yielding: bool) -> usize {
        while self.runnable.is_empty() {
            if !self.fire_timer() {
                let d = self.describe();
                crate::run::fatal("deadlock", &format!("no runnable task and no timer: {}", d));
            }
        }
        let p = self.points;
        self.points += 1;
        self.vtime += 1000;
        if p >= self.plan.cap {
            let d = self.describe();
            crate::run::fatal("no-progress", &format!("step cap {} reached: {}", self.plan.cap, d));
        }
        if p == self.plan.cap / 2 {
            self.fair = true;
            self.next_switch = p + 64;
        }
        let n = self.runnable.len();
        let default = if cur_ok && !yielding { cur } else { self.next_after(cur) };
        if n == 1 {
            return self.runnable[0];
        }
        let pick = if self.replaying() {
            match self.replay.get(&p) {
                Some(t) if self.runnable.binary_search(&(*t as usize)).is_ok() => *t as usize,
                _ if self.fair && p >= self.next_switch => {
                    self.next_switch = p + 64;
                    self.next_after(cur)
                }
                _ => default,
            }
        } else if self.fair {
            if p >= self.next_switch {
                self.next_switch = p + 64;
                self.next_after(cur)
            } else {
                default
            }
        } else {
            match self.plan.strategy {
                Strategy::Seq => default,
                Strategy::Rr { .. } => {
                    if p >= self.next_switch {
                        self.draw_gap();
                        self.next_after(cur)
                    } else {
                        default
                    }
                }
                Strategy::Random { .. } => {
                    if default != cur {
                        // blocked or yielding: always a random other task
                        loop {
                            let k = self.rng.below(n);
                            let t = self.runnable[k];
                            if t != cur || !yielding {
                                break t;
                            }
                        }
                    } else if p >= self.next_switch {
                        self.draw_gap();
                        let k = self.rng.below(n);
                        self.runnable[k]
                    } else {
                        cur
                    }
                }
                Strategy::Pct { .. } => {
                    while self.change_points.last().map_or(false, |c| *c <= p) {
                        self.change_points.pop();
                        if cur_ok {
                            self.low_prio -= 1;
                            self.tasks[cur].prio = self.low_prio;
                        }
                    }
                    if yielding {
                        self.low_prio -= 1;
                        self.tasks[cur].prio = self.low_prio;
                    }
                    *self.runnable.iter().max_by_key(|t| self.tasks[**t].prio).unwrap()
                }
            }
        };
        if pick != default {
            self.deviations.push((p, pick as u32));
            if cur_ok && !yielding {
                self.preemptions += 1;
            }
        }
        pick
    }
    /// A generic seeded choice among n options (recorded like a scheduling choice).
    fn option(&mut self, n: usize) -> usize {
        let p = self.points;
        self.points += 1;
        if n <= 1 {
            return 0;
        }
        let pick = if self.replaying() {
            self.replay.get(&p).map_or(0, |v| (*v as usize).min(n - 1))
        } else {
            match self.plan.strategy {
                Strategy::Seq | Strategy::Rr { .. } => 0,
                _ => self.rng.below(n),
            }
        };
        if pick != 0 {
            self.deviations.push((p, pick as u32));
        }
        pick
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.tasks.iter().enumerate() {
            let st = match t.st {
                St::Runnable => "runnable",
                St::Blocked { .. } => "blocked-on-futex",
                St::Joining(_) => "joining",
                St::Finished => "finished",
            };
            s.push_str(&format!("t{}={} ", i, st));
        }
        s
    }
    #[allow(dead_code)]
    pub fn live_tasks(&self) -> usize {
        self.tasks.iter().filter(|t| t.st != St::Finished).count()
    }
}

fn hand_over(to: usize) {
    let s = sim();
    s.switches += 1;
    let v = s.points.wrapping_mul(31).wrapping_add(to as u64);
    s.note(v);
    let g: *const u32 = &*s.tasks[to].gate;
    unsafe { mt_gate_open(g) }
}
fn wait_gate(g: *const u32) {
    unsafe { mt_gate_wait(g) }
}
fn switch(me: usize, to: usize) {
    if me == to {
        return;
    }
    // the gate box outlives the task table reallocation; read it before losing the baton
    let g: *const u32 = &*sim().tasks[me].gate;
    hand_over(to);
    wait_gate(g);
}

/// Scheduling point at which the current task may be preempted.
#[inline]
pub fn point() {
    if !active() {
        return;
    }
    let me = cur();
    let to = sim().choose(me, true, false);
    switch(me, to);
}
/// Called before each atomic operation of instrumented code.
#[no_mangle]
pub extern "C" fn mt_atomic_point() {
    if !active() {
        return;
    }
    let s = sim();
    s.atomics += 1;
    if s.plan.fine {
        point();
    } else if s.points == s.last_point {
        // a loop that only polls memory would otherwise keep the baton for ever
        s.since += 1;
        if s.since > 20_000 {
            s.since = 0;
            yield_now();
        }
    } else {
        s.last_point = s.points;
        s.since = 0;
    }
}
/// The current task gives way.
pub fn yield_now() {
    if !active() {
        return;
    }
    let me = cur();
    let to = sim().choose(me, true, true);
    switch(me, to);
}
/// Mix an event into the run's log hash.
pub fn log_event(v: u64) {
    if enabled() {
        sim().note(v);
    }
}

/// Emulated futex wait. Returns 0, or a negative errno.
pub fn futex_wait(addr: usize, val: u32, deadline: u64) -> i64 {
    point();
    let s = sim();
    let now = unsafe { read_volatile(addr as *const u32) };
    if now != val {
        return -(libc::EAGAIN as i64);
    }
    if crate::fs::spurious() {
        return 0;
    }
    let me = cur();
    s.tasks[me].st = St::Blocked { addr, deadline };
    s.tasks[me].timed_out = false;
    s.unset_runnable(me);
    s.waitq.push((addr, me));
    let to = s.choose(me, false, false);
    switch(me, to);
    if sim().tasks[me].timed_out {
        return -(libc::ETIMEDOUT as i64);
    }
    0
}
pub fn futex_wake(addr: usize, n: i64) -> i64 {
    let s = sim();
    let mut woken = 0;
    while woken < n {
        let w: Vec<usize> = s.waitq.iter().enumerate().filter(|(_, x)| x.0 == addr).map(|(i, _)| i).collect();
        if w.is_empty() {
            break;
        }
        let k = if (w.len() as i64) > n - woken { s.option(w.len()) } else { 0 };
        let (_, t) = s.waitq.remove(w[k]);
        s.set_runnable(t);
        woken += 1;
    }
    point();
    woken
}
/// Virtual sleep.
pub fn sleep_ns(ns: u64) {
    let me = cur();
    let s = sim();
    let d = s.vtime + ns;
    s.tasks[me].st = St::Blocked { addr: 0, deadline: d };
    s.unset_runnable(me);
    let to = s.choose(me, false, false);
    switch(me, to);
}

// ---- threads -------------------------------------------------------------------------------

type StartFn = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut libc::c_void) -> libc::c_int;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> libc::c_int;

static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;
static mut KEY: libc::pthread_key_t = 0;

/// Resolve the real functions; called once before any thread exists.
pub fn resolve() {
    unsafe {
        let c = libc::dlsym(libc::RTLD_NEXT, b"pthread_create\0".as_ptr() as *const _);
        let j = libc::dlsym(libc::RTLD_NEXT, b"pthread_join\0".as_ptr() as *const _);
        assert!(!c.is_null() && !j.is_null());
        REAL_CREATE = Some(std::mem::transmute::<*mut libc::c_void, CreateFn>(c));
        REAL_JOIN = Some(std::mem::transmute::<*mut libc::c_void, JoinFn>(j));
        let mut k = 0;
        libc::pthread_key_create(&mut k, Some(on_exit));
        KEY = k;
    }
}
struct Start {
    f: StartFn,
    arg: *mut libc::c_void,
    id: usize,
    gate: *const u32,
}
extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let st = unsafe { Box::from_raw(p as *mut Start) };
    CUR.with(|c| c.set(st.id));
    wait_gate(st.gate);
    unsafe {
        libc::pthread_setspecific(KEY, (st.id + 1) as *const _);
    }
    let (f, a) = (st.f, st.arg);
    drop(st);
    f(a)
}
/// Runs after the thread's TLS destructors: the task leaves the simulation.
extern "C" fn on_exit(v: *mut libc::c_void) {
    let id = v as usize - 1;
    let s = sim();
    s.tasks[id].st = St::Finished;
    s.unset_runnable(id);
    for i in 0..s.tasks.len() {
        if s.tasks[i].st == St::Joining(id) {
            s.set_runnable(i);
        }
    }
    let to = s.choose(id, false, false);
    CUR.with(|c| c.set(NOT_A_TASK));
    hand_over(to);
}
pub unsafe fn pthread_create(t: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: StartFn, arg: *mut libc::c_void) -> libc::c_int {
    #[allow(static_mut_refs)]
    let real = REAL_CREATE.unwrap();
    if !active() {
        return real(t, attr, f, arg);
    }
    let id = sim().new_task();
    let gate: *const u32 = &*sim().tasks[id].gate;
    let st = Box::into_raw(Box::new(Start { f, arg, id, gate }));
    let r = real(t, attr, trampoline, st as *mut _);
    if r != 0 {
        crate::run::fatal("harness", "pthread_create failed");
    }
    sim().tasks[id].pthread = *t as u64;
    point();
    r
}
pub unsafe fn pthread_join(t: libc::pthread_t, out: *mut *mut libc::c_void) -> libc::c_int {
    #[allow(static_mut_refs)]
    let real = REAL_JOIN.unwrap();
    if active() {
        let me = cur();
        let s = sim();
        // last created task with this handle
        if let Some(id) = (0..s.tasks.len()).rev().find(|i| s.tasks[*i].pthread == t as u64) {
            while sim().tasks[id].st != St::Finished {
                let s = sim();
                s.tasks[me].st = St::Joining(id);
                s.unset_runnable(me);
                let to = s.choose(me, false, false);
                switch(me, to);
            }
        }
    }
    real(t, out)
}
