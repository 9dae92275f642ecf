//! The scheduler: real threads, one token. Every allocation, I/O call, lock wait and log call of the code
//! under test is a point where the seed (or a recorded list of switches) may hand the token to another task.

use crate::host::{self, Guard};
use crate::interpose::raw;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Switch {
    pub task: u32,
    pub op: u32,
    pub step: u32,
    pub to: u32,
    /// memory accesses and branches of the code under test since that step
    #[serde(default)]
    pub fine: u32,
    /// from here on the task is stalled for that many scheduling points, if another one can run
    #[serde(default)]
    pub stall: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SchedSpec {
    /// seeded; the distance between two preemptions is log-uniform in 1..=gap
    /// (fine: the same for preemptions between two memory accesses or branches, 0: none)
    Seeded {
        seed: u64,
        gap: u64,
        #[serde(default)]
        fine: u64,
        /// chance (of 100) of a preemption just before an access to a static variable, or to memory another task has
        /// written after the setup
        #[serde(default)]
        hot: u8,
        /// chance (of 100) that a preempted task is then stalled for a while
        #[serde(default)]
        stall: u8,
    },
    /// exactly these switches; elsewhere the running task keeps running
    Explicit(Vec<Switch>),
}

impl Default for SchedSpec {
    fn default() -> Self {
        SchedSpec::Explicit(Vec::new())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Futex(usize, u32),
    Join(u32),
    Done,
}

struct T {
    gate: &'static AtomicU32,
    st: St,
    op: u32,
    step: u32,
    off: u64,
    /// stalled until that many scheduling points, or that many accesses, whichever is first
    until: (u64, u64),
}

/// Memory accesses and branches executed by the code under test (compiled with callbacks at each of them), the
/// count at which the next of them is of interest, and the count at the last step of the running task.
pub static mut FTOTAL: u64 = 0;
static mut FNEXT: u64 = u64::MAX;
static mut FBASE: u64 = 0;
/// a task that gets this far without any other scheduling point is spinning: the others get a turn
const SPIN: u64 = 20_000_000;
/// no task is stalled for longer than this many accesses of the others
const STALL: u64 = 2_000_000;

pub struct Sched {
    tasks: Vec<T>,
    ready: usize,
    cur: u32,
    rng: Option<(Rng, u64)>,
    next_at: u64,
    fine: u64,
    fnext: u64,
    plan: BTreeMap<(u32, u32, u32, u32), (u32, u32)>,
    fine_plan: bool,
    pub fine_preemptions: u64,
    fine_offers: u64,
    hot: u8,
    stall: u8,
    pub stalls: u64,
    pub hot_accesses: u64,
    pub total: u64,
    pub cap: u64,
    pub switches: Vec<Switch>,
    pub preemptions: u64,
    pub kinds: BTreeMap<&'static str, u64>,
    pub adopted: u64,
    pub lock_waits: u64,
}

static mut SCHED: *mut Sched = std::ptr::null_mut();
static MAIN_GATE: AtomicU32 = AtomicU32::new(0);

pub fn sched() -> &'static mut Sched {
    unsafe { &mut *SCHED }
}

fn futex_wait_raw(a: &AtomicU32, v: u32) {
    unsafe {
        raw(libc::SYS_futex, a as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, v as usize, 0, 0, 0);
    }
}
fn gate_open(a: &AtomicU32) {
    a.store(1, Ordering::SeqCst);
    unsafe {
        raw(libc::SYS_futex, a as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
    }
}
fn gate_wait(a: &AtomicU32) {
    while a.swap(0, Ordering::SeqCst) == 0 {
        futex_wait_raw(a, 0);
    }
}

pub fn install(spec: &SchedSpec, n: usize, cap: u64) {
    unsafe {
        HOT = false;
    }
    crate::alloc::keep(matches!(spec, SchedSpec::Seeded { hot: 1.., .. }) && n > 1);
    let mut s = Sched {
        // the other tasks become runnable when task 0 has finished the setup
        tasks: (0..n)
            .map(|i| T { gate: Box::leak(Box::new(AtomicU32::new(0))), st: if i == 0 { St::Ready } else { St::Join(host::NONE) }, op: 0, step: 0, off: 0, until: (0, 0) })
            .collect(),
        ready: 1,
        cur: 0,
        rng: None,
        next_at: u64::MAX,
        fine: 0,
        fnext: u64::MAX,
        plan: BTreeMap::new(),
        fine_plan: false,
        fine_preemptions: 0,
        fine_offers: 0,
        hot: 0,
        stall: 0,
        stalls: 0,
        hot_accesses: 0,
        total: 0,
        cap,
        switches: Vec::new(),
        preemptions: 0,
        kinds: BTreeMap::new(),
        adopted: 0,
        lock_waits: 0,
    };
    match spec {
        SchedSpec::Seeded { seed, gap, fine, hot, stall } => {
            let mut r = Rng::new(*seed);
            s.next_at = if *gap == 0 { u64::MAX } else { r.log(*gap) };
            s.fine = *fine;
            s.hot = *hot;
            s.stall = *stall;
            if *fine > 0 {
                s.fnext = unsafe { FTOTAL } + r.log(*fine);
            }
            s.rng = Some((r, *gap));
        }
        SchedSpec::Explicit(v) => {
            for x in v {
                s.plan.insert((x.task, x.op, x.step, x.fine), (x.to, x.stall));
                s.fine_plan |= x.fine > 0;
            }
        }
    }
    unsafe { SCHED = Box::into_raw(Box::new(s)) }
}

impl Sched {
    fn pick(&mut self, not: Option<u32>) -> Option<u32> {
        let now = (self.total, unsafe { FTOTAL });
        let ready: Vec<u32> = (0..self.tasks.len() as u32).filter(|i| self.tasks[*i as usize].st == St::Ready && Some(*i) != not).collect();
        let mut c: Vec<u32> = ready.iter().copied().filter(|i| {
            let u = self.tasks[*i as usize].until;
            now.0 >= u.0 || now.1 >= u.1
        }).collect();
        if c.is_empty() && not.is_none() {
            // no one else can go on: the stall is over
            c = ready;
        }
        if c.is_empty() {
            return None;
        }
        match &mut self.rng {
            Some((r, _)) => Some(*r.pick(&c)),
            None => Some(c[0]),
        }
    }

    /// how long the task that is preempted now is stalled
    fn stall(&mut self) -> u32 {
        let n = self.stall as u64;
        match &mut self.rng {
            Some((r, _)) if n > 0 => {
                if r.chance(n, 100) {
                    r.log(5_000) as u32
                } else {
                    0
                }
            }
            _ => 0,
        }
    }

    /// the switch recorded for this point, if it can happen
    fn planned(&self, t: u32, fine: u32) -> Option<(u32, u32)> {
        let e = &self.tasks[t as usize];
        let (to, stall) = *self.plan.get(&(t, e.op, e.step, fine))?;
        self.tasks.get(to as usize).filter(|y| y.st == St::Ready)?;
        Some((to, stall))
    }

    fn hand_over(&mut self, from: u32, to: u32, kind: &str, fine: u32, stall: u32) {
        let (op, step) = (self.tasks[from as usize].op, self.tasks[from as usize].step);
        self.tasks[from as usize].off = fine as u64;
        self.switches.push(Switch { task: from, op, step, to, fine, stall });
        host::world().log(&format!("switch {} -> {} at op {} step {}+{} ({}{})", from, to, op, step, fine, kind, if stall > 0 { format!(", stalled for {}", stall) } else { String::new() }));
        if stall > 0 {
            self.stalls += 1;
            self.tasks[from as usize].until = (self.total + stall as u64, unsafe { FTOTAL } + STALL);
        }
        self.cur = to;
        gate_open(self.tasks[to as usize].gate);
    }
}

/// the running task has taken a step, or runs again after a switch `off` accesses after its last step
#[inline]
fn rearm(s: &mut Sched, t: u32, off: u64) {
    unsafe {
        RUNNING = t as u8 + 1;
        FBASE = FTOTAL - off;
        if s.fine_plan {
            let (op, step) = (s.tasks[t as usize].op, s.tasks[t as usize].step);
            let next = s.plan.range((t, op, step, off as u32 + 1)..=(t, op, step, u32::MAX)).next();
            s.fnext = next.map_or(u64::MAX, |(k, _)| FBASE + k.3 as u64);
        }
        FNEXT = s.fnext.min(FTOTAL + SPIN);
    }
}

/// called by each task thread before anything else
pub fn enter(t: u32) {
    gate_wait(sched().tasks[t as usize].gate);
    rearm(sched(), t, 0);
}

/// main: start task 0 and wait for all tasks to finish
pub fn run() {
    start();
    wait();
}
pub fn start() {
    gate_open(sched().tasks[0].gate);
}
pub fn wait() {
    gate_wait(&MAIN_GATE);
}

pub fn begin_op(t: u32, op: u32) {
    let _g = Guard::new();
    let s = sched();
    s.tasks[t as usize].op = op;
    s.tasks[t as usize].step = 0;
    host::world().cur_op.insert(t, op);
    drop(_g);
    step_inner(t, "op", false);
}

#[inline]
pub fn step(t: u32, kind: &'static str, force: bool) {
    step_inner(t, kind, force)
}

fn step_inner(t: u32, kind: &'static str, force: bool) {
    let s = sched();
    s.total += 1;
    let e = &mut s.tasks[t as usize];
    e.step += 1;
    rearm(s, t, 0);
    if s.total > s.cap {
        let _g = Guard::new();
        crate::exec::die("stuck", &format!("no end after {} scheduling points", s.cap));
    }
    if kind != "alloc" {
        let _g = Guard::new();
        *s.kinds.entry(kind).or_insert(0) += 1;
    }
    if s.ready < 2 {
        return;
    }
    let to = if let Some((_, gap)) = &s.rng {
        let want = std::mem::replace(&mut host::world().want_switch, false);
        if !force && !want && s.total < s.next_at {
            return;
        }
        let gap = *gap;
        let _g = Guard::new();
        if gap > 0 {
            let d = s.rng.as_mut().unwrap().0.log(gap);
            s.next_at = s.total + d;
        }
        let to = s.pick(Some(t));
        to.map(|x| (x, if force { 0 } else { s.stall() }))
    } else {
        match s.planned(t, 0) {
            Some(x) if x.0 != t => Some(x),
            _ if force => {
                let _g = Guard::new();
                s.pick(Some(t)).map(|x| (x, 0))
            }
            _ => None,
        }
    };
    if let Some((to, stall)) = to {
        let _g = Guard::new();
        s.preemptions += 1;
        s.hand_over(t, to, kind, 0, stall);
        gate_wait(s.tasks[t as usize].gate);
        rearm(s, t, 0);
    }
}

/// the code under test is about to access memory or has taken a branch
#[inline(always)]
fn access() {
    if !host::in_cut() {
        return;
    }
    unsafe {
        FTOTAL += 1;
        if FTOTAL >= FNEXT {
            access_slow();
        }
    }
}

// the static variables of the program; and the memory that the setup left behind for the tasks to share, with who wrote
// each word of it last. Kept by page, exactly: what a run does may not depend on where its memory lies.
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
static mut HOT: bool = false;
static mut RUNNING: u8 = 0;
const PAGES: usize = 1 << 14;
const PRIVATE: u8 = 255;
static mut PAGE: [usize; PAGES] = [0; PAGES];
static mut WRITER: Vec<[u8; 512]> = Vec::new();
static mut PAGES_USED: usize = 0;

/// Where page `n` (never 0) is or would be.
#[inline(always)]
unsafe fn page_at(n: usize) -> usize {
    let mut i = n.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - 14);
    while PAGE[i] != n && PAGE[i] != 0 {
        i = (i + 1) & (PAGES - 1);
    }
    i
}

unsafe fn mark(p: usize, n: usize, as_: u8) {
    let w: &mut Vec<[u8; 512]> = &mut *(&raw mut WRITER);
    for a in (p & !7..p + n).step_by(8) {
        let i = page_at(a >> 12);
        if PAGE[i] == 0 {
            if as_ == PRIVATE || PAGES_USED > PAGES / 2 {
                continue;
            }
            PAGES_USED += 1;
            PAGE[i] = a >> 12;
            w[i] = [PRIVATE; 512];
        }
        w[i][(a & 4095) >> 3] = as_;
    }
}

fn share_setup_memory() {
    let _g = Guard::new();
    unsafe {
        let w: &mut Vec<[u8; 512]> = &mut *(&raw mut WRITER);
        if w.is_empty() {
            *w = vec![[PRIVATE; 512]; PAGES];
        }
        PAGE = [0; PAGES];
        PAGES_USED = 0;
        let mut total = 0;
        for (p, n) in crate::alloc::kept() {
            // by size alone, not by where it lies
            total += n;
            if total > 4 << 20 {
                break;
            }
            mark(p, n, 0);
        }
        HOT = true;
    }
}

/// A block of memory is given back.
#[inline]
pub fn freed(p: *const u8, n: usize) {
    unsafe {
        if HOT && PAGE[page_at(p as usize >> 12)] != 0 {
            mark(p as usize, n, PRIVATE);
        }
    }
}

#[inline(always)]
fn access_at(p: *const u8, write: bool) {
    if !host::in_cut() {
        return;
    }
    unsafe {
        FTOTAL += 1;
        if FTOTAL >= FNEXT {
            access_slow();
        }
        if HOT {
            let a = p as usize;
            if a >= &raw const __data_start as usize && a < &raw const _end as usize {
                return access_hot();
            }
            let i = page_at(a >> 12);
            if PAGE[i] != 0 {
                let w: &mut Vec<[u8; 512]> = &mut *(&raw mut WRITER);
                let by = w[i][(a & 4095) >> 3];
                if by != PRIVATE {
                    if write || by != 0 && by != RUNNING {
                        access_hot();
                    }
                    if write {
                        w[i][(a & 4095) >> 3] = RUNNING;
                    }
                }
            }
        }
    }
}

#[cold]
#[inline(never)]
fn access_hot() {
    let t = match host::simulated() {
        Some(t) => t,
        None => return,
    };
    let s = sched();
    s.hot_accesses += 1;
    if s.ready < 2 {
        return;
    }
    // long runs: ever rarer
    let most = if s.hot_accesses > 3_000 { 100 * s.hot_accesses / 3_000 } else { 100 };
    let hot = s.hot as u64;
    if !s.rng.as_mut().is_some_and(|(r, _)| r.below(most) < hot) {
        return;
    }
    let _g = Guard::new();
    // just before the access, or a little later: after the access, after the lock around it is given back
    if s.rng.as_mut().is_some_and(|(r, _)| r.chance(1, 2)) {
        let after = unsafe { FTOTAL } + s.rng.as_mut().map_or(1, |(r, _)| r.log(64));
        s.fnext = s.fnext.min(after);
        unsafe { FNEXT = FNEXT.min(after) }
        return;
    }
    let off = unsafe { FTOTAL - FBASE };
    if let Some(to) = s.pick(Some(t)) {
        s.preemptions += 1;
        s.fine_preemptions += 1;
        let stall = s.stall();
        s.hand_over(t, to, "shared", off as u32, stall);
        gate_wait(s.tasks[t as usize].gate);
        rearm(s, t, off);
    }
}

#[cold]
#[inline(never)]
fn access_slow() {
    let t = match host::simulated() {
        Some(t) => t,
        None => return,
    };
    let s = sched();
    let (total, off) = unsafe { (FTOTAL, FTOTAL - FBASE) };
    if total < s.fnext {
        step_inner(t, "spin", true);
        return;
    }
    let _g = Guard::new();
    let to = if let Some((r, _)) = &mut s.rng {
        s.fnext = if s.fine > 0 { total + r.log(s.fine) } else { u64::MAX };
        s.fine_offers += 1;
        if s.fine > 0 && s.fine_offers % 400 == 0 {
            // long runs: ever rarer, so that their cost stays bounded
            s.fine = (s.fine * 4).min(1 << 40);
        }
        if s.ready < 2 {
            None
        } else {
            let to = s.pick(Some(t));
            to.map(|x| (x, s.stall()))
        }
    } else {
        s.planned(t, off as u32).filter(|x| x.0 != t)
    };
    if let Some((to, stall)) = to {
        s.preemptions += 1;
        s.fine_preemptions += 1;
        s.hand_over(t, to, "access", off as u32, stall);
        gate_wait(s.tasks[t as usize].gate);
    }
    rearm(s, t, off);
}

/// One byte per branch target of the code under test: reached. Shared by all processes of a check.
pub static mut COVER: *mut u8 = std::ptr::null_mut();
pub static mut EDGES: usize = 0;
pub const MAX_EDGES: usize = 1 << 17;
/// where the build without access callbacks counts branches, and whether this build has access callbacks
static mut COUNTERS: Vec<(*mut u8, *mut u8)> = Vec::new();
pub static mut FINE: bool = false;

/// the branches this process has taken
pub fn flush_cover() {
    unsafe {
        if COVER.is_null() {
            return;
        }
        let mut i = 0;
        #[allow(static_mut_refs)]
        for &(a, b) in COUNTERS.iter() {
            let mut p = a;
            while p < b {
                if *p != 0 && i < MAX_EDGES {
                    *COVER.add(i) = 1;
                }
                i += 1;
                p = p.add(1);
            }
        }
    }
}

static mut PCS: (*const usize, *const usize) = (std::ptr::null(), std::ptr::null());

/// (only in a build made to look at the coverage: CHANO_SAN=pcs)
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(a: *const usize, b: *const usize) {
    PCS = (a, b);
}

/// the addresses of all branches and whether they were reached
pub fn dump_cover(path: &str) {
    unsafe {
        let (mut p, end) = PCS;
        let mut out = String::new();
        let mut i = 0;
        let base = dump_cover as fn(&str) as usize;
        while p < end && !COVER.is_null() {
            out += &format!("{} {}\n", *COVER.add(i), *p as i64 - base as i64);
            i += 1;
            p = p.add(2);
        }
        let _ = std::fs::write(path, out);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(a: *mut u8, b: *mut u8) {
    #[allow(static_mut_refs)]
    if a < b && !COUNTERS.iter().any(|x| x.0 == a) {
        COUNTERS.push((a, b));
        EDGES += b.offset_from(a) as usize;
    }
}

macro_rules! accesses {
    ($w:expr, $($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(p: *const u8) { access_at(p, $w) })* };
}
accesses!(false, __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16);
accesses!(true, __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !COVER.is_null() && (*guard as usize) < MAX_EDGES {
        // (written once: the page is shared by all processes of the check)
        let p = COVER.add(*guard as usize);
        if *p == 0 {
            *p = 1;
        }
    }
    access();
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    while a < b {
        if *a == 0 {
            FINE = true;
            EDGES += 1;
            *a = EDGES as u32;
        }
        a = a.add(1);
    }
}

/// the running task cannot go on: someone else must
fn block(t: u32, st: St, kind: &'static str) {
    let s = sched();
    s.tasks[t as usize].st = st;
    s.tasks[t as usize].step += 1;
    s.ready -= 1;
    let to = match s.planned(t, 0) {
        Some((x, _)) => Some(x),
        None => s.pick(None),
    };
    match to {
        Some(to) => {
            s.hand_over(t, to, kind, 0, 0);
        }
        None => {
            if st == St::Done {
                if s.tasks.iter().all(|x| x.st == St::Done) {
                    gate_open(&MAIN_GATE);
                    return;
                }
            }
            let w: Vec<String> = s.tasks.iter().enumerate().filter(|(_, x)| x.st != St::Done).map(|(i, x)| format!("task {} op {} {}", i, x.op, match x.st { St::Join(_) => "joining", _ => "waiting for a lock" })).collect();
            crate::exec::die("deadlock", &w.join(", "));
        }
    }
    if st != St::Done {
        gate_wait(s.tasks[t as usize].gate);
        rearm(s, t, 0);
    }
}

fn make_ready(s: &mut Sched, i: usize) {
    s.tasks[i].st = St::Ready;
    s.ready += 1;
}

pub fn release_all() {
    let s = sched();
    if s.hot > 0 && s.tasks.len() > 1 {
        share_setup_memory();
    }
    for i in 0..s.tasks.len() {
        if s.tasks[i].st == St::Join(host::NONE) {
            make_ready(s, i);
        }
    }
}

pub fn finish(t: u32) {
    let _g = Guard::new();
    let s = sched();
    for i in 0..s.tasks.len() {
        if s.tasks[i].st == St::Join(t) {
            make_ready(s, i);
        }
    }
    block(t, St::Done, "end");
}

pub fn futex(t: u32, addr: *const u32, op: i32, val: u32, has_timeout: bool, bits: u32) -> Option<Result<i64, i32>> {
    let _g = Guard::new();
    let s = sched();
    match op & 0x7f {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            if unsafe { std::ptr::read_volatile(addr) } != val {
                return Some(Err(libc::EAGAIN));
            }
            *s.kinds.entry("lock").or_insert(0) += 1;
            if has_timeout {
                // simulated time jumps to the deadline; a wake-up before it is modelled as a spurious wake-up
                host::world().clock_ns += 1_000_000;
                drop(_g);
                step_inner(t, "timer", true);
                return Some(Err(libc::ETIMEDOUT));
            }
            s.lock_waits += 1;
            block(t, St::Futex(addr as usize, bits), "lock");
            Some(Ok(0))
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mut n = 0i64;
            for i in 0..s.tasks.len() {
                if n >= val as i64 {
                    break;
                }
                if let St::Futex(a, b) = s.tasks[i].st {
                    if a == addr as usize && b & bits != 0 {
                        make_ready(s, i);
                        n += 1;
                    }
                }
            }
            drop(_g);
            if n > 0 {
                step_inner(t, "wake", false);
            }
            Some(Ok(n))
        }
        _ => None,
    }
}

// ---- threads started by the code under test ----

pub fn adopt() -> u32 {
    let _g = Guard::new();
    let s = sched();
    let id = s.tasks.len() as u32;
    let parent = s.cur;
    let op = s.tasks[parent as usize].op;
    s.tasks.push(T { gate: Box::leak(Box::new(AtomicU32::new(0))), st: St::Ready, op, step: 0, off: 0, until: (0, 0) });
    s.ready += 1;
    s.adopted += 1;
    host::world().cur_op.insert(id, op);
    id
}

pub fn unadopt(id: u32) {
    let _g = Guard::new();
    let s = sched();
    s.tasks[id as usize].st = St::Done;
    s.ready -= 1;
}

pub fn join(t: u32, id: u32) {
    let _g = Guard::new();
    let s = sched();
    if s.tasks[id as usize].st != St::Done {
        block(t, St::Join(id), "join");
    }
}
