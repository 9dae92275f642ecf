//! Search: many seeds, many processes; violations are minimised and written as replay files.

use crate::exec::{self, Out, Report, Violation};
use crate::model;
use crate::procs::{self, ProcScenario};
use crate::reduce;
use crate::rng::{hash_str, mix};
use crate::scenario::*;
use crate::{check, gen, interpose};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Case {
    Lib(Scenario),
    Proc(ProcScenario),
}

impl Case {
    pub fn property(&self) -> &str {
        match self {
            Case::Lib(s) => &s.property,
            Case::Proc(s) => &s.property,
        }
    }
}

#[derive(Clone, Copy, Default)]
pub struct Opt {
    pub trace: bool,
    pub results: bool,
    pub entropy: Option<u64>,
}

pub fn case(property: &str, seed: u64, run: u64) -> Case {
    match property {
        "C13" | "C14" | "C17" => Case::Proc(procs::scenario(property, seed, run)),
        "C15" if run % 6 == 0 => Case::Proc(procs::scenario(property, seed, run)),
        _ => Case::Lib(gen::scenario(property, seed, run)),
    }
}

pub fn out_digest(o: &Out) -> u64 {
    let mut h = match o {
        Out::Skip => 1,
        Out::Ok => 2,
        Out::Err(_) => 3,
        Out::Panic(_) => 4,
        Out::Text(s) => mix(5, hash_str(s)),
        Out::Recs { fin, texts, digest } => {
            let mut h = mix(6, hash_str(fin));
            for t in texts {
                h = mix(h, hash_str(t));
            }
            mix(h, *digest)
        }
        Out::Items { items } => {
            let mut h = 7;
            for (f, t) in items {
                h = mix(mix(h, hash_str(f)), hash_str(t));
            }
            h
        }
        Out::Bool(b) => 8 + *b as u64,
        Out::Bytes { ok, bytes } => mix(10 + *ok as u64, hash_str(&String::from_utf8_lossy(&bytes.0))),
        Out::Mem(_) => 12,
    };
    h = mix(h, 0x77);
    h
}

// ---- one run in one process ----

fn child(sc: Scenario, o: Opt, fd: i32) -> ! {
    unsafe {
        exec::OUT_FD = fd;
        let lim = libc::rlimit { rlim_cur: 30, rlim_max: 32 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        // whatever the code under test prints goes nowhere
        let null = interpose::raw(libc::SYS_openat, libc::AT_FDCWD as usize, c"/dev/null".as_ptr() as usize, libc::O_RDWR as usize, 0, 0, 0);
        // (DST_STDERR=1: except standard error, to look into a crash)
        let keep = !libc::getenv(c"DST_STDERR".as_ptr()).is_null();
        for i in 0..if keep { 2 } else { 3 } {
            libc::dup2(null as i32, i);
        }
    }
    let sc: &'static Scenario = Box::leak(Box::new(sc));
    if let Some(e) = o.entropy {
        // a heap of another shape
        for i in 0..e % 61 {
            std::mem::forget(vec![1u8; ((e >> (i % 50)) % 3000) as usize]);
        }
    }
    let done = exec::execute(sc, o.entropy, o.trace);
    let mut ck = check::Checker::new(sc);
    let v = ck.run(&done);
    let mut r = exec::base_report();
    r.violation = v.err();
    for (k, v) in &ck.counters {
        r.counters.insert(k.clone(), *v);
    }
    let mut d = 0u64;
    for x in done.setup.iter().chain(done.results.iter()) {
        let h = out_digest(&x.out);
        d = mix(d, mix(x.id as u64, h));
        r.op_digests.push((x.id, h));
    }
    r.digest = d;
    r.ops = r.op_digests.len() as u64;
    if sc.variants.is_empty() {
        r.op_digests.clear();
    }
    if o.results {
        r.results = done.setup.iter().chain(done.results.iter()).cloned().collect();
    }
    crate::sched::flush_cover();
    exec::emit(&r);
    unsafe {
        interpose::raw(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
    }
    unreachable!()
}

/// reads a pipe to its end; None after `ms` without an end
pub fn slurp(fd: i32, ms: u64) -> Option<Vec<u8>> {
    let end = Instant::now() + Duration::from_millis(ms);
    let mut out = Vec::new();
    let mut buf = vec![0u8; 1 << 16];
    loop {
        let left = end.saturating_duration_since(Instant::now()).as_millis() as i32;
        if left <= 0 {
            return None;
        }
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        let n = unsafe { libc::poll(&mut p, 1, left) };
        if n < 0 {
            continue;
        }
        if n == 0 {
            return None;
        }
        let n = unsafe { libc::read(fd, buf.as_mut_ptr() as *mut libc::c_void, buf.len()) };
        if n == 0 {
            return Some(out);
        }
        if n > 0 {
            out.extend_from_slice(&buf[..n as usize]);
        }
    }
}

pub fn fork_report(f: impl FnOnce(i32) -> std::convert::Infallible) -> Report {
    unsafe {
        let mut p = [0i32; 2];
        if libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            harness("pipe failed");
        }
        let pid = libc::fork();
        if pid < 0 {
            harness("fork failed");
        }
        if pid == 0 {
            libc::close(p[0]);
            f(p[1]);
        }
        libc::close(p[1]);
        let data = slurp(p[0], 180_000);
        if data.is_none() {
            libc::kill(pid, libc::SIGKILL);
        }
        libc::close(p[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let bad = |kind: &str, msg: String| Report { violation: Some(Violation { kind: kind.into(), msg }), ..Default::default() };
        match data {
            None => bad("hang", "the run did not end within three minutes".into()),
            Some(d) => match serde_json::from_slice::<Report>(&d) {
                Ok(r) => r,
                Err(_) => {
                    if libc::WIFSIGNALED(st) {
                        let s = libc::WTERMSIG(st);
                        if s == libc::SIGXCPU || s == libc::SIGKILL {
                            bad("hang", "the run used up its CPU time without ending".into())
                        } else {
                            bad("crash", format!("the process was ended by signal {}", s))
                        }
                    } else if libc::WEXITSTATUS(st) == 2 {
                        harness("a run reported a harness error");
                    } else {
                        bad("crash", format!("the process ended with status {} before the run was over", libc::WEXITSTATUS(st)))
                    }
                }
            },
        }
    }
}

fn run_once(sc: &Scenario, o: Opt) -> Report {
    let c = sc.clone();
    if std::env::var_os("DST_INLINE").is_some() {
        // for a debugger: no fork
        child(c, o, unsafe { libc::dup(2) });
    }
    fork_report(move |fd| child(c, o, fd))
}

fn show(o: &Out) -> String {
    let s = match o {
        Out::Items { items } => format!("{:?}", items.iter().map(|(a, b)| format!("{}→{}", a, b)).collect::<Vec<_>>()),
        o => format!("{:?}", o),
    };
    s.chars().take(240).collect()
}

pub fn run_case(c: &Case, o: Opt) -> Report {
    let sc = match c {
        Case::Proc(p) => return procs::run(p, o),
        Case::Lib(sc) => sc,
    };
    let mut r = run_once(sc, o);
    if r.violation.is_some() {
        return r;
    }
    let mut compared = 0;
    for v in &sc.variants {
        let q = run_once(sc, Opt { entropy: Some(*v), ..o });
        compared += 1;
        if q.violation.is_some() {
            return q;
        }
        if q.op_digests != r.op_digests {
            let i = r.op_digests.iter().zip(q.op_digests.iter()).position(|(a, b)| a != b).unwrap_or(0);
            let a = run_once(sc, Opt { results: true, ..o });
            let b = run_once(sc, Opt { results: true, entropy: Some(*v), ..o });
            let id = r.op_digests.get(i).map(|x| x.0).unwrap_or(0);
            let get = |r: &Report| r.results.iter().find(|x| x.id == id).map(|x| show(&x.out)).unwrap_or_default();
            let op = sc.setup.iter().chain(sc.tasks.iter().flatten()).find(|o| o.id == id).map(|o| format!("{:?}", o.op)).unwrap_or_default();
            r.violation = Some(Violation {
                kind: "differs-between-processes".into(),
                msg: format!("op {} ({}) depends on the process it runs in (random seed, clock, addresses, threads): {} with entropy {:#x}, {} with entropy {:#x}", id, op, get(&a), sc.world.entropy, get(&b), v),
            });
            r.results.clear();
            return r;
        }
    }
    if compared > 0 {
        r.counters.insert("compared_processes".into(), compared);
    }
    r
}

pub fn harness(msg: &str) -> ! {
    eprintln!("HARNESS ERROR: {}", msg);
    unsafe { libc::_exit(2) }
}

/// the tables the model shares with the library, read in a process in which nothing else happened
fn calibrate() {
    let r = fork_report(|fd| {
        unsafe { exec::OUT_FD = fd };
        let base = std::panic::catch_unwind(|| {
            let mut b = chanoma::TableBuilder::new();
            b.preset();
            let preset: Vec<Pair> = b.build().items().iter().map(|i| (i.from.clone(), i.to.clone())).collect();
            let eq: Vec<Pair> = {
                let mut b = chanoma::TableBuilder::new();
                b.add_corr(&chanoma::characters_set::prelude::Punctuations::EQUAL_SIGN);
                b.build().items().iter().map(|i| (i.from.clone(), i.to.clone())).collect()
            };
            let neo = model::neo_base(&preset, &eq);
            model::Base { preset, neo }
        });
        let mut r = Report::default();
        match base {
            Ok(b) => r.trace.push(serde_json::to_string(&b).unwrap()),
            Err(_) => r.trace.clear(),
        }
        exec::emit(&r);
        unsafe { libc::_exit(0) }
    });
    match r.trace.first().and_then(|s| serde_json::from_str(s).ok()) {
        Some(b) => unsafe { model::BASE = Some(b) },
        None => harness("the preset table cannot be read"),
    }
}

// ---- aggregation ----

#[derive(Default, Serialize, Deserialize)]
struct Agg {
    runs: u64,
    ops: u64,
    steps: u64,
    preemptions: u64,
    sim_ns: u64,
    fired: BTreeMap<String, u64>,
    counters: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    nontrivial: HashSet<u64>,
    scheds: HashSet<u64>,
    digests: HashSet<u64>,
    selfcheck: u64,
    mismatch: Vec<u64>,
    found: Option<(u64, Violation)>,
    sum: u64,
}

impl Agg {
    fn add(&mut self, property: &str, c: &Case, r: &Report) {
        self.runs += 1;
        self.ops += r.ops;
        self.steps += r.steps;
        self.preemptions += r.preemptions;
        self.sim_ns += r.sim_ns;
        for (k, v) in &r.fired {
            *self.fired.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.counters {
            *self.counters.entry(k.clone()).or_insert(0) += v;
        }
        self.hashes.insert(r.hash);
        self.digests.insert(r.digest);
        if r.sched_hash != 0 {
            self.scheds.insert(r.sched_hash);
        }
        self.sum ^= mix(r.hash, r.digest);
        if nontrivial(property, c, r) {
            self.nontrivial.insert(r.hash);
        }
    }
    fn merge(&mut self, o: Agg) {
        self.runs += o.runs;
        self.ops += o.ops;
        self.steps += o.steps;
        self.preemptions += o.preemptions;
        self.sim_ns += o.sim_ns;
        for (k, v) in o.fired {
            *self.fired.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        self.hashes.extend(o.hashes);
        self.nontrivial.extend(o.nontrivial);
        self.scheds.extend(o.scheds);
        self.digests.extend(o.digests);
        self.selfcheck += o.selfcheck;
        self.mismatch.extend(o.mismatch);
        self.sum ^= o.sum;
        if let Some((r, v)) = o.found {
            if self.found.as_ref().map(|f| r < f.0).unwrap_or(true) {
                self.found = Some((r, v));
            }
        }
    }
}

fn has(m: &BTreeMap<String, u64>, pre: &[&str]) -> bool {
    m.iter().any(|(k, v)| *v > 0 && pre.iter().any(|p| k.starts_with(p)))
}

fn nontrivial(p: &str, c: &Case, r: &Report) -> bool {
    if let Case::Proc(_) = c {
        return r.nontrivial;
    }
    let n = |k: &str| *r.counters.get(k).unwrap_or(&0);
    let hard = r.fired.keys().any(|k| (k.starts_with("read:") || k.starts_with("open:") || k.starts_with("stat:") || k.starts_with("realpath:") || k.starts_with("getcwd:")) && !k.ends_with(":split") && !k.ends_with(":short"));
    let norms = n("normalize") + n("normalize_with_positions");
    match p {
        "C01" => n("compared_processes") > 0 && r.ops > 3,
        "C02" => norms > 0 && n("log_records") > 0,
        "C03" => r.preemptions > 0 && norms > 1,
        "C04" => norms >= 4,
        "C05" => hard,
        "C06" => has(&r.fired, &["read:split", "read:short", "read:EINTR"]),
        "C07" => has(&r.fired, &["fs:"]),
        "C08" => n("load_ok") + n("load_err") > 0,
        "C09" => n("load_ok") + n("load_err") > 0,
        "C10" => n("load_ok") + n("load_err") > 0,
        "C11" => hard,
        "C12" => has(&r.fired, &["fs:"]) && n("load_ok") > 0,
        "C15" => has(&r.fired, &["writer:", "flush:"]),
        "C16" => n("items") > 1,
        "C21" => n("in_memory_operations") > 0 && has(&r.fired, &["fs:", "env:", "cwd:"]),
        "C22" => n("costs_compared") + n("costs_scaled") > 0,
        _ => true,
    }
}

fn rule(p: &str) -> &'static str {
    match p {
        "C01" => "one seed = one history of loads, edits, exports and normalizations over contradictory tables and overlapping ligatures, executed in six processes with different entropy, heap shape and clock seeds; non-trivial: all six finished and were compared over more than three operations",
        "C02" => "one seed = 1-3 threads normalizing through shared and own pipelines with a simulated log sink (level switches, refusals, panics, re-entrance) under a seeded schedule; non-trivial: at least one normalization and one record reached the sink",
        "C03" => "one seed = 2-4 threads sharing pipelines under a seeded schedule that can preempt at every allocation, lock, I/O and log call, and in part of the runs at every memory access and branch of the library; non-trivial: at least one preemption and two normalizations",
        "C04" => "one seed = one history (10-2500 operations) of constructions, added steps, failing loads, drops and normalizations; non-trivial: at least four normalizations",
        "C05" => "one seed = loads with errors injected into open/read/stat/realpath/getcwd calls; non-trivial: at least one injected error was returned to the code",
        "C06" => "one seed = loads under one chunking of every read (1 byte upwards), short reads and EINTR at chosen reads; non-trivial: at least one read was split or interrupted",
        "C07" => "one seed = loads during which another actor atomically replaces, re-points or removes configuration files at chosen calls or between scheduling points; non-trivial: at least one replacement happened",
        "C08" => "one seed = files as a crash leaves them (cut, zeroed, flipped, mixed blocks, doubled, structurally odd) through every loading entry point; non-trivial: at least one load returned",
        "C09" => "one seed = a population of the documented places, environment and working directory, with files appearing/vanishing and errors during discovery; non-trivial: at least one discovery returned",
        "C10" => "one seed = eight equal rounds of loads (damaged, missing and faulted ones included), constructions and normalizations; non-trivial: at least one load returned",
        "C11" => "one seed = a history of additions of files to tables with faults at chosen reads, and repeated additions; non-trivial: at least one injected error was returned to the code",
        "C12" => "one seed = 1-3 threads changing and loading the same files, with faults and fault-free repeats; non-trivial: at least one file change and one successful load",
        "C15" => "one seed = exports through a writer with seeded splits, interruptions and failures (every sixth run: the real export program under simulated standard streams); non-trivial: at least one fault or split hit the writer",
        "C16" => "one seed = a history of 5-40 additions, removals, copies and comparisons over 2-4 tables; non-trivial: at least two observations of table contents",
        "C21" => "one seed = pipelines and tables built from files, then the files removed, replaced or damaged, the environment and working directory changed and errors planned for any I/O, then 4-30 operations on what was built; non-trivial: at least one such change happened and one in-memory operation was judged",
        "C22" => "one seed = one block of calls repeated before, during and after a history of up to 1500 other operations (failing loads and texts of their own among them), or the same calls with eight times the input; work is counted in memory accesses, branches and scheduling points of the library; non-trivial: at least one such comparison",
        _ => procs::rule(p),
    }
}

fn worker(property: &str, seed: u64, w: u64, jobs: u64, deadline: Instant, hard: Instant, min: u64, max: u64, stop: *mut u64, fd: i32) -> ! {
    let mut a = Agg::default();
    let kn = known();
    let slow: Option<u128> = std::env::var("DST_SLOW").ok().and_then(|s| s.parse().ok());
    let mut run = w;
    loop {
        let now = Instant::now();
        if run >= max || now > hard || (now > deadline && run >= min) || unsafe { std::ptr::read_volatile(stop) } != 0 {
            break;
        }
        let c = case(property, seed, run);
        let r = run_case(&c, Opt::default());
        if let Some(ms) = slow {
            if now.elapsed().as_millis() >= ms {
                eprintln!("run {} took {} ms, digest {:x} {:x} {:x}", run, now.elapsed().as_millis(), r.digest, r.hash, r.sched_hash);
            }
        }
        a.add(property, &c, &r);
        if let Some(v) = r.violation {
            let full = format!("{}: {}", v.kind, v.msg);
            if kn.iter().any(|k| k.property == property && full.contains(&k.needle)) {
                *a.counters.entry("known_findings".into()).or_insert(0) += 1;
                run += jobs;
                continue;
            }
            a.found = Some((run, v));
            unsafe { std::ptr::write_volatile(stop, 1) };
            break;
        }
        if run % 97 == 5 {
            let q = run_case(&c, Opt::default());
            a.selfcheck += 1;
            if q.hash != r.hash || q.digest != r.digest {
                a.mismatch.push(run);
            }
        }
        run += jobs;
    }
    let s = serde_json::to_vec(&a).unwrap();
    let mut i = 0;
    unsafe {
        while i < s.len() {
            let n = libc::write(fd, s[i..].as_ptr() as *const libc::c_void, s.len() - i);
            if n <= 0 {
                break;
            }
            i += n as usize;
        }
        libc::_exit(0)
    }
}

fn search(property: &str, seed: u64, jobs: u64, secs: f64, hard: f64, min: u64, max: u64) -> Agg {
    let start = Instant::now();
    let deadline = start + Duration::from_secs_f64(secs);
    let hard = start + Duration::from_secs_f64(hard);
    unsafe {
        let stop = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u64;
        let n = crate::sched::MAX_EDGES;
        crate::sched::COVER = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
        let mut kids = Vec::new();
        for w in 0..jobs {
            let mut p = [0i32; 2];
            libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC);
            let pid = libc::fork();
            if pid < 0 {
                harness("fork failed");
            }
            if pid == 0 {
                libc::close(p[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                worker(property, seed, w, jobs, deadline, hard, min, max, stop, p[1]);
            }
            libc::close(p[1]);
            kids.push((pid, p[0]));
        }
        let mut a = Agg::default();
        for (pid, fd) in kids {
            let d = slurp(fd, 3_600_000).unwrap_or_default();
            libc::close(fd);
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            match serde_json::from_slice::<Agg>(&d) {
                Ok(x) => a.merge(x),
                Err(_) => harness(&format!("a worker ended without a report (status {:#x})", st)),
            }
        }
        libc::munmap(stop as *mut libc::c_void, 4096);
        a
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub violation: Violation,
    pub hash: u64,
    pub digest: u64,
    /// the history of the minimised run, event by event
    pub trace: Vec<String>,
    pub case: Case,
}

fn dir() -> String {
    std::env::var("DST_DIR").unwrap_or_else(|_| "/verif".into())
}

struct Known {
    property: String,
    needle: String,
    text: String,
}

/// lines `known: property=<id> match=<substring of kind and message> <what fails>`; `fixed:` lines suppress nothing
fn known() -> Vec<Known> {
    let s = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", dir())).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (property, rest) = l.split_once(" match=\"")?;
            let (needle, text) = rest.split_once("\" ")?;
            Some(Known { property: property.into(), needle: needle.into(), text: text.into() })
        })
        .collect()
}

fn check_cmd(property: &str, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    calibrate();
    let jobs: u64 = std::env::var("DST_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let (mut secs, hard, min) = if tier == "thorough" { (600.0, 780.0, 0) } else { (40.0, 300.0, procs::min_runs(property)) };
    if let Some(s) = std::env::var("DST_SECONDS").ok().and_then(|s| s.parse().ok()) {
        secs = s;
    }
    let max: u64 = std::env::var("DST_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    if let Err(e) = procs::prepare(property) {
        harness(&e);
    }
    for k in known().iter().filter(|k| k.property == property) {
        println!("KNOWN-FINDING: property={} {}", property, k.text);
    }
    let a = search(property, seed, jobs, secs, hard, min, max);
    let wall = t0.elapsed().as_secs_f64();
    if let Ok(p) = std::env::var("DST_COVER") {
        crate::sched::dump_cover(&p);
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some((run, v)) = &a.found {
        violations = 1;
        code = 1;
        let path = report_violation(property, seed, *run, v);
        println!("VIOLATION property={} replay={}", property, path);
    }
    evidence(property, tier, seed, &a, wall, violations);
    println!(
        "{} {} seed={} runs={} distinct={} nontrivial={} preemptions={} faults={} simulated={:.1}s wall={:.1}s selfcheck={}/{} digest={:016x}",
        property,
        tier,
        seed,
        a.runs,
        a.hashes.len(),
        a.nontrivial.len(),
        a.preemptions,
        a.fired.values().sum::<u64>(),
        a.sim_ns as f64 / 1e9,
        wall,
        a.selfcheck - a.mismatch.len() as u64,
        a.selfcheck,
        a.sum
    );
    if !a.mismatch.is_empty() {
        println!("note: runs not repeated exactly: {:?}", &a.mismatch[..a.mismatch.len().min(10)]);
    }
    code
}

fn report_violation(property: &str, seed: u64, run: u64, v: &Violation) -> String {
    let c = case(property, seed, run);
    println!("violation in run {} of seed {}: {}: {}", run, seed, v.kind, v.msg);
    let m = reduce::minimise(&c, v, Duration::from_secs(25), 500);
    let r = run_case(&m, Opt { trace: true, ..Default::default() });
    let rv = r.violation.clone().unwrap_or_else(|| v.clone());
    println!("minimised: {}: {}", rv.kind, rv.msg);
    let rep = Replay { property: property.into(), seed, run, violation: rv, hash: r.hash, digest: r.digest, trace: r.trace, case: m };
    let d = format!("{}/replays", dir());
    let _ = std::fs::create_dir_all(&d);
    let path = format!("{}/{}-{}-{}.json", d, property, seed, run);
    if let Err(e) = std::fs::write(&path, serde_json::to_vec_pretty(&rep).unwrap()) {
        eprintln!("cannot write {}: {}", path, e);
    }
    path
}

fn cover() -> usize {
    unsafe {
        if crate::sched::COVER.is_null() {
            return 0;
        }
        (0..crate::sched::MAX_EDGES).filter(|i| *crate::sched::COVER.add(*i) != 0).count()
    }
}

fn evidence(property: &str, tier: &str, seed: u64, a: &Agg, wall: f64, violations: u64) {
    let mut samples = Vec::new();
    for run in [0u64, 1, 2] {
        let c = case(property, seed, run);
        let s = serde_json::to_string(&c).unwrap();
        samples.push(serde_json::json!({"run": run, "case": s.chars().take(1500).collect::<String>()}));
    }
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    for (k, v) in &a.fired {
        faults.insert(k.clone(), *v);
    }
    let (real, stub) = procs::components(property);
    let j = serde_json::json!({
        "property": property,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial.len(),
            "rule": format!("{}; distinct: by the hash of the complete event log (every intercepted call, scheduling decision, fault and result)", rule(property)),
            "samples": samples,
            "runs_per_hour": (a.runs as f64 / wall * 3600.0) as u64,
            "seeds_per_hour": (a.runs as f64 / wall * 3600.0) as u64,
            "operations": a.ops,
            "scheduling_points": a.steps,
            "preemptions": a.preemptions,
            "distinct_interleavings": a.scheds.len(),
            "distinct_interleavings_measure": "hash of the sequence of task switches (task, operation, step, successor)",
            "distinct_states": a.digests.len(),
            "distinct_states_measure": "hash of everything the callers observed in a run",
            "distinct_event_logs": a.hashes.len(),
            "simulated_seconds": a.sim_ns as f64 / 1e9,
            "faults_injected": faults,
            "observations": a.counters,
            "determinism_selfcheck": {"runs_repeated": a.selfcheck, "not_identical": a.mismatch.len()},
            "library_branches_reached": cover(),
            "library_branches": unsafe { crate::sched::EDGES },
            "library_branches_measure": "branch targets compiled into the library (all inlined and generic instances), counted by compiler instrumentation in the in-process runs",
            "preemption_points": if unsafe { crate::sched::FINE } { "allocations, locks, I/O, log calls, and any memory access or branch of the library" } else { "allocations, locks, I/O and log calls" },
            "components_real": real,
            "components_stub": stub,
            "exhaustive": false
        },
        "assumptions": procs::assumptions(property),
        "wall_s": wall,
        "violations": violations
    });
    let d = format!("{}/evidence", dir());
    let _ = std::fs::create_dir_all(&d);
    if let Err(e) = std::fs::write(format!("{}/{}.json", d, property), serde_json::to_vec_pretty(&j).unwrap()) {
        harness(&format!("cannot write evidence: {}", e));
    }
}

fn replay_cmd(path: &str) -> i32 {
    calibrate();
    let s = match std::fs::read(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let rep: Replay = match serde_json::from_slice(&s) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    if let Err(e) = procs::prepare(&rep.property) {
        harness(&e);
    }
    let r = run_case(&rep.case, Opt { trace: true, ..Default::default() });
    for l in &r.trace {
        println!("{}", l);
    }
    match r.violation {
        Some(v) => {
            println!("{}: {}", v.kind, v.msg);
            println!("event log {}: {:016x} (recorded {:016x})", if r.hash == rep.hash { "identical" } else { "DIFFERS" }, r.hash, rep.hash);
            println!("VIOLATION property={} replay={}", rep.property, path);
            1
        }
        None => {
            println!("the violation did not show");
            0
        }
    }
}

fn trace_cmd(property: &str, seed: u64, run: u64) -> i32 {
    calibrate();
    if let Err(e) = procs::prepare(property) {
        harness(&e);
    }
    let c = case(property, seed, run);
    println!("{}", serde_json::to_string_pretty(&c).unwrap());
    let r = run_case(&c, Opt { trace: true, results: true, entropy: None });
    for l in &r.trace {
        println!("{}", l);
    }
    println!("hash {:016x} digest {:016x} fired {:?}", r.hash, r.digest, r.fired);
    println!("{:?}", r.violation);
    0
}

/// the same seeds with one and with many workers: identical logs
fn selftest_cmd(property: &str, seed: u64, n: u64) -> i32 {
    calibrate();
    if let Err(e) = procs::prepare(property) {
        harness(&e);
    }
    let far = 3000.0;
    let a = search(property, seed, 8, far, far, 0, n);
    let b = search(property, seed, 3, far, far, 0, n);
    println!("{} runs={}/{} digest {:016x} / {:016x} {}", property, a.runs, b.runs, a.sum, b.sum, if a.sum == b.sum { "identical" } else { "DIFFERENT" });
    if a.sum == b.sum {
        0
    } else {
        1
    }
}

pub fn main(args: &[String]) -> i32 {
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match a.as_slice() {
        ["check", p] => check_cmd(p, if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" }, seed),
        ["check", p, tier] => check_cmd(p, tier, seed),
        ["replay", f] => replay_cmd(f),
        ["trace", p, run] => trace_cmd(p, seed, run.parse().unwrap()),
        ["selftest", p, n] => selftest_cmd(p, seed, n.parse().unwrap()),
        _ => {
            eprintln!("usage: dst check ID [quick|thorough] | replay FILE | trace ID RUN | selftest ID N");
            2
        }
    }
}
