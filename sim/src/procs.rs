//! Real programs under the simulator: the CLI (C13, C14), the export program (C15), CPython with the extension (C17).

use crate::check::{self, Checker};
use crate::delta::{self, Delta, Plan};
use crate::exec::{self, Out, Report, Res, Violation};
use crate::gen::{self, G};
use crate::model::{self, Step};
use crate::rng::{hash_str, mix};
use crate::runner::{harness, slurp, Opt};
use crate::scenario::*;
use crate::spec::*;
use crate::world::World;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::CString;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum PyStep {
    Chanoma { dst: u32, table: Option<u32>, preset: Option<bool>, neologdn: Option<bool>, rc: Option<bool>, configfile: Option<String> },
    Table { dst: u32, preset: Option<bool>, csv: Option<String>, yaml: Option<String> },
    Add { dst: u32, items: Vec<Pair> },
    /// one of the character sets of the module
    AddSet { dst: u32, set: u8 },
    Norm { src: u32, text: u32 },
    Drop { dst: u32 },
    Fs(Act),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PyAt {
    pub id: u32,
    pub step: PyStep,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct ProcScenario {
    pub property: String,
    pub world: WorldSpec,
    pub contents: Vec<Content>,
    pub args: Vec<Bytes>,
    /// C14: how and where the debug option is given in the second execution
    pub debug: (String, u32),
    pub texts: Vec<String>,
    pub steps: Vec<PyAt>,
}

// ---- running a program ----

#[derive(Clone, Debug, PartialEq)]
enum Status {
    Exit(i32),
    Signal(i32),
    Hang,
}

struct Done {
    status: Status,
    w: World,
    results: Vec<u8>,
}

fn memfd(data: &[u8]) -> i32 {
    unsafe {
        let fd = libc::memfd_create(c"dst".as_ptr(), libc::MFD_CLOEXEC);
        if fd < 0 {
            harness("memfd_create failed");
        }
        let mut i = 0;
        while i < data.len() {
            let n = libc::write(fd, data[i..].as_ptr() as *const libc::c_void, data.len() - i);
            if n <= 0 {
                harness("cannot write a plan");
            }
            i += n as usize;
        }
        fd
    }
}

fn contents_of(fd: i32) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = vec![0u8; 1 << 16];
    loop {
        let n = unsafe { libc::pread(fd, buf.as_mut_ptr() as *mut libc::c_void, buf.len(), out.len() as i64) };
        if n <= 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n as usize]);
    }
}

fn place(k: &str) -> CString {
    let d = match k {
        "DST_CLI" => "/verif/target/bins/debug/chanoma",
        "DST_OUTPUT" => "/verif/target/bins/debug/output",
        "DST_SHIM" => "/verif/target/plain/debug/libchanoshim.so",
        "DST_PY" => "/opt/vp/pyvenv/bin/python3",
        _ => "/verif/target/pypkg",
    };
    CString::new(std::env::var(k).unwrap_or_else(|_| d.into())).unwrap()
}

/// executes the program in the world of the scenario; deterministic: one process, one thread, every answer from the plan
fn launch(sc: &Scenario, exe: &CString, args: &[Vec<u8>], mode: &str, extra: &[u8]) -> Done {
    // a program that could not be started at all (no memory, busy file) has done nothing: try again
    for i in 0..40 {
        match try_launch(sc, exe, args, mode, extra) {
            Ok(d) => return d,
            Err(e) if i == 39 => harness(&format!("cannot execute {:?}: error {}", exe, e)),
            Err(_) => std::thread::sleep(std::time::Duration::from_millis(20 + 20 * i)),
        }
    }
    unreachable!()
}

fn try_launch(sc: &Scenario, exe: &CString, args: &[Vec<u8>], mode: &str, extra: &[u8]) -> Result<Done, i32> {
    let mut spec = sc.world.clone();
    spec.contents = sc.contents.iter().map(|c| Bytes(render(c))).collect();
    let mut w = exec::make_world(sc, spec, true);
    let plan = Plan { spec: w.spec.clone(), watch: w.watch.iter().map(|p| Bytes(p.clone())).collect() };
    let plan = memfd(&serde_json::to_vec(&plan).unwrap());
    let log = memfd(b"");
    let inp = memfd(extra);
    let res = memfd(b"");
    let mut p = [0i32; 2];
    let mut e = [0i32; 2];
    let mut errno: i32 = 0;
    let mut argv: Vec<CString> = vec![exe.clone()];
    argv.extend(args.iter().map(|a| CString::new(a.clone()).unwrap()));
    let argv: Vec<*const libc::c_char> = argv.iter().map(|a| a.as_ptr()).chain([std::ptr::null()]).collect();
    let env: Vec<CString> = vec![
        CString::new(format!("LD_PRELOAD={}", place("DST_SHIM").to_str().unwrap())).unwrap(),
        CString::new(format!("DST_MODE={}", mode)).unwrap(),
        CString::new("PYTHONHASHSEED=0").unwrap(),
    ];
    let env: Vec<*const libc::c_char> = env.iter().map(|a| a.as_ptr()).chain([std::ptr::null()]).collect();
    let status = unsafe {
        if libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) != 0 || libc::pipe2(e.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            harness("pipe failed");
        }
        let pid = libc::fork();
        if pid < 0 {
            let n = *libc::__errno_location();
            for f in [p[0], p[1], e[0], e[1], plan, log, inp, res] {
                libc::close(f);
            }
            return Err(n);
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // out of the way of the fixed numbers first
            let said = libc::fcntl(e[1], libc::F_DUPFD_CLOEXEC, 60);
            let mut v = [plan, log, inp, res, p[1]];
            for f in v.iter_mut() {
                *f = libc::fcntl(*f, libc::F_DUPFD_CLOEXEC, 40);
            }
            for (i, f) in v.iter().enumerate() {
                libc::dup2(*f, 10 + i as i32);
            }
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            let keep = !libc::getenv(c"DST_STDERR".as_ptr()).is_null();
            for i in 0..if keep { 2 } else { 3 } {
                libc::dup2(null, i);
            }
            if null > 2 {
                libc::close(null);
            }
            let lim = libc::rlimit { rlim_cur: 30, rlim_max: 32 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            for s in [libc::SIGPIPE, libc::SIGTERM] {
                libc::signal(s, libc::SIG_DFL);
            }
            libc::chdir(c"/".as_ptr());
            libc::execve(exe.as_ptr(), argv.as_ptr(), env.as_ptr());
            let n = *libc::__errno_location();
            libc::write(said, &n as *const i32 as *const libc::c_void, 4);
            libc::_exit(98);
        }
        libc::close(p[1]);
        libc::close(e[1]);
        if libc::read(e[0], &mut errno as *mut i32 as *mut libc::c_void, 4) != 4 {
            errno = 0;
        }
        libc::close(e[0]);
        let end = slurp(p[0], 90_000);
        if end.is_none() {
            libc::kill(pid, libc::SIGKILL);
        }
        libc::close(p[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if end.is_none() {
            Status::Hang
        } else if libc::WIFSIGNALED(st) {
            match libc::WTERMSIG(st) {
                libc::SIGXCPU | libc::SIGKILL => Status::Hang,
                s => Status::Signal(s),
            }
        } else {
            Status::Exit(libc::WEXITSTATUS(st))
        }
    };
    let l = contents_of(log);
    let results = contents_of(res);
    for f in [plan, log, inp, res] {
        unsafe {
            libc::close(f);
        }
    }
    if errno != 0 {
        return Err(errno);
    }
    for line in l.split(|b| *b == b'\n').filter(|l| !l.is_empty()) {
        if line == b"BROKEN" {
            harness("the preloaded library gave up");
        }
        match serde_json::from_slice::<Delta>(line) {
            Ok(d) => delta::apply(&mut w, d),
            Err(e) => harness(&format!("unreadable log of a program: {}", e)),
        }
    }
    Ok(Done { status, w, results })
}

fn code(s: &Status) -> u64 {
    match s {
        Status::Exit(c) => *c as u64,
        Status::Signal(n) => 1000 + *n as u64,
        Status::Hang => 5000,
    }
}

fn report(d: &Done, seen: u64) -> Report {
    let w = &d.w;
    let mut r = Report { hash: mix(w.hash, code(&d.status)), digest: mix(seen, code(&d.status)), ops: 1, ..Default::default() };
    r.fired = w.fired.clone();
    r.sim_ns = w.clock_ns.saturating_sub(w.spec.clock_ns);
    r.steps = w.seq;
    r.trace = w.trace.clone().unwrap_or_default();
    r.trace.push(format!("ended: {:?}", d.status));
    r.counters.insert(
        match d.status {
            Status::Exit(0) => "exit_0",
            Status::Exit(_) => "exit_nonzero",
            Status::Signal(_) => "signal",
            Status::Hang => "hang",
        }
        .into(),
        1,
    );
    r
}

fn fail(kind: &str, msg: String) -> Option<Violation> {
    Some(Violation { kind: kind.into(), msg })
}

fn short(b: &[u8]) -> String {
    let s = format!("{:?}", String::from_utf8_lossy(b));
    if s.chars().count() > 160 {
        format!("{}… ({} bytes)", s.chars().take(160).collect::<String>(), b.len())
    } else {
        s
    }
}

fn as_scenario(p: &ProcScenario) -> Scenario {
    Scenario { property: p.property.clone(), world: p.world.clone(), contents: p.contents.clone(), ..Default::default() }
}

// ---- the CLI ----

#[derive(Clone, Debug, PartialEq, Default)]
struct Opts {
    bad: bool,
    input: Option<Vec<u8>>,
    debug: bool,
    preset: bool,
    neologdn: bool,
}

fn parse(args: &[Bytes]) -> Opts {
    let mut o = Opts::default();
    let mut only = false;
    let (mut d, mut p, mut n) = (0, 0, 0);
    for a in args {
        let a = &a.0;
        if !only && a == b"--" {
            only = true;
        } else if !only && a.len() > 1 && a[0] == b'-' {
            match a.as_slice() {
                b"--debug" => d += 1,
                b"--preset" => p += 1,
                b"--neologdn" => n += 1,
                _ if a[1] == b'-' => o.bad = true,
                _ => {
                    for c in &a[1..] {
                        match c {
                            b'd' => d += 1,
                            b'p' => p += 1,
                            b'n' => n += 1,
                            _ => o.bad = true,
                        }
                    }
                }
            }
        } else if o.input.is_none() {
            if std::str::from_utf8(a).is_err() {
                o.bad = true;
            }
            o.input = Some(a.clone());
        } else {
            o.bad = true;
        }
    }
    if d > 1 || p > 1 || n > 1 {
        o.bad = true;
    }
    o.debug = d > 0;
    o.preset = p > 0;
    o.neologdn = n > 0;
    o
}

/// the input of the program; None when it is not text
fn input_of(o: &Opts, w: &WorldSpec) -> Option<String> {
    let b = match &o.input {
        Some(b) => b.clone(),
        None => {
            let s = w.stdin.clone().unwrap_or_default().0;
            s.split(|c| *c == b'\n').next().unwrap_or_default().to_vec()
        }
    };
    String::from_utf8(b).ok()
}

fn c13(p: &ProcScenario) -> Report {
    let sc = as_scenario(p);
    let args: Vec<Vec<u8>> = p.args.iter().map(|a| a.0.clone()).collect();
    let d = launch(&sc, &place("DST_CLI"), &args, "cli", b"");
    let mut r = report(&d, hash_str(&String::from_utf8_lossy(&d.w.out[1])));
    r.violation = judge_cli(p, &sc, &d, &mut r.counters);
    r.nontrivial = !d.w.fired.is_empty() || !d.w.opened.is_empty();
    r
}

fn judge_cli(p: &ProcScenario, sc: &Scenario, d: &Done, counters: &mut BTreeMap<String, u64>) -> Option<Violation> {
    let o = parse(&p.args);
    let out = &d.w.out[1];
    let errs: Vec<String> = d.w.errors.iter().map(|e| format!("{} {}", e.1, crate::world::errno_name(e.2))).collect();
    let hard = |class: &str| d.w.errors.iter().any(|e| e.1 == class && e.2 != libc::EINTR);
    match d.status {
        Status::Hang => return fail("hang", "the program did not end".into()),
        Status::Signal(s) => return fail("crash", format!("the program was ended by signal {}", s)),
        _ => {}
    }
    let ok = d.status == Status::Exit(0);
    let mut ck = Checker::with(sc, &d.w);
    let res = Res { task: 0, id: 0, start: 0, end: u64::MAX, out: Out::Ok, open_fds: 0, cwd: None, work: 0, outside: String::new() };
    let l = ck.load_rc(&res);
    let _ = &mut ck;
    let input = input_of(&o, &p.world);
    let mut expected: Vec<Vec<u8>> = Vec::new();
    if let (Some(t), false) = (&input, o.bad) {
        for s in &l.ok {
            let mut s = s.clone();
            if o.preset {
                s.push(model::preset_step());
            }
            if o.neologdn {
                s.push(Step::Neologdn);
            }
            let mut e = model::final_text(&s, t).into_bytes();
            e.push(b'\n');
            if !expected.contains(&e) {
                expected.push(e);
            }
        }
    }
    let how = format!("arguments {:?}, standard input {}, errors met: {:?}", p.args.iter().map(|a| short(&a.0)).collect::<Vec<_>>(), short(&p.world.stdin.clone().unwrap_or_default().0), errs);
    if ok {
        *counters.entry("exit_0_judged".into()).or_insert(0) += !(l.wild || o.bad) as u64;
        if o.bad || l.wild {
            if !o.bad && out.last() != Some(&b'\n') {
                return fail("truncated-success", format!("exit status 0, but standard output received {}, which is not a complete line; {}", short(out), how));
            }
            return None;
        }
        if !expected.contains(out) {
            let kind = if expected.iter().any(|e| e.starts_with(out)) { "truncated-success" } else if expected.is_empty() { "bogus-success" } else { "wrong-output" };
            return fail(kind, format!("exit status 0, but standard output received {}, expected {}; {}", short(out), expected.first().map(|e| short(e)).unwrap_or("no success".into()), how));
        }
        return None;
    }
    let reason = o.bad || l.wild || l.err_ok || input.is_none() || hard("stdin") || hard("stdout");
    if !reason {
        return fail("unexpected-failure", format!("{:?} although neither configuration nor input nor output failed; standard output received {}; {}", d.status, short(out), how));
    }
    if !out.is_empty() && !(hard("stdout") && (l.wild || expected.iter().any(|e| e.starts_with(out)))) {
        return fail("output-on-failure", format!("{:?}, yet standard output received {}, which is not part of a result cut short by its own failure (expected {}); {}", d.status, short(out), expected.first().map(|e| short(e)).unwrap_or("nothing".into()), how));
    }
    None
}

fn c14(p: &ProcScenario) -> Report {
    let sc = as_scenario(p);
    let mut quiet = sc.clone();
    quiet.world.faults.retain(|f| f.class != "stderr");
    let mut args: Vec<Vec<u8>> = p.args.iter().map(|a| a.0.clone()).collect();
    let a = launch(&quiet, &place("DST_CLI"), &args, "cli", b"");
    let i = (p.debug.1 as usize).min(args.iter().position(|a| a == b"--").unwrap_or(args.len()));
    args.insert(i, p.debug.0.clone().into_bytes());
    let b = launch(&sc, &place("DST_CLI"), &args, "cli", b"");
    let mut r = report(&b, mix(hash_str(&String::from_utf8_lossy(&b.w.out[1])), code(&a.status)));
    r.hash = mix(r.hash, a.w.hash);
    r.counters.insert("debug_bytes".into(), b.w.out[2].len() as u64);
    r.nontrivial = !b.w.out[2].is_empty();
    let mut t = a.w.trace.clone().unwrap_or_default();
    t.push(format!("ended: {:?}", a.status));
    t.push("---- with the debug option ----".into());
    t.append(&mut r.trace);
    r.trace = t;
    for (d, what) in [(&a, "without"), (&b, "with")] {
        match d.status {
            Status::Hang => r.violation = fail("hang", format!("the program did not end {} its debug option", what)),
            Status::Signal(s) => r.violation = fail("crash", format!("the program was ended by signal {} {} its debug option", s, what)),
            _ => {}
        }
    }
    if r.violation.is_none() && (a.status != b.status || a.w.out[1] != b.w.out[1]) {
        let kind = if a.w.out[1] != b.w.out[1] { "debug-changes-output" } else { "debug-changes-status" };
        let errs: Vec<String> = b.w.errors.iter().map(|e| format!("{} {}", e.1, crate::world::errno_name(e.2))).collect();
        r.violation = fail(
            kind,
            format!(
                "arguments {:?}: {:?} and {} on standard output; with {}: {:?} and {}; errors met with the debug option: {:?}",
                p.args.iter().map(|a| short(&a.0)).collect::<Vec<_>>(),
                a.status,
                short(&a.w.out[1]),
                p.debug.0,
                b.status,
                short(&b.w.out[1]),
                errs
            ),
        );
    }
    r
}

// ---- the export program ----

static mut REFERENCE: BTreeMap<bool, Vec<u8>> = BTreeMap::new();
static mut RELOADS: BTreeMap<u64, Option<String>> = BTreeMap::new();

fn is_yaml(args: &[Bytes]) -> bool {
    args.iter().any(|a| a.0.ends_with(b"yaml"))
}

/// None when the printed table loads back to the preset
#[allow(static_mut_refs)]
fn reload(bytes: &[u8], yaml: bool) -> Option<String> {
    let key = mix(hash_str(&String::from_utf8_lossy(bytes)), yaml as u64);
    unsafe {
        if let Some(r) = RELOADS.get(&key) {
            return r.clone();
        }
    }
    let path = if yaml { "/cfg/t.yaml" } else { "/cfg/t.csv" };
    let mut g = G::new("C15", 0, 0);
    g.tasks(1);
    let c = g.content(Content::Agree(Box::new(Content::Raw(Bytes(bytes.to_vec())))));
    g.file(path, c);
    g.op(0, Op::TabMake { dst: 0, src: TabSrc::Builder(path.into()) });
    g.op(0, Op::TabItems { src: 0 });
    let r = crate::runner::run_case(&crate::runner::Case::Lib(g.sc), Opt { results: true, ..Default::default() });
    let want: BTreeSet<Pair> = model::base().preset.iter().cloned().collect();
    let e = match (&r.violation, r.results.iter().map(|x| &x.out).collect::<Vec<_>>().as_slice()) {
        (Some(v), _) => Some(format!("{}: {}", v.kind, v.msg)),
        (None, [Out::Ok, Out::Items { items }]) => {
            let got: BTreeSet<Pair> = items.iter().cloned().collect();
            if got == want && items.len() == want.len() {
                None
            } else {
                let miss: Vec<_> = want.difference(&got).take(3).collect();
                let more: Vec<_> = got.difference(&want).take(3).collect();
                Some(format!("{} mappings instead of {}; missing {:?}, unexpected {:?}", items.len(), want.len(), miss, more))
            }
        }
        (None, o) => Some(format!("{:?}", o).chars().take(200).collect()),
    };
    unsafe {
        RELOADS.insert(key, e.clone());
    }
    e
}

#[allow(static_mut_refs)]
fn c15(p: &ProcScenario) -> Report {
    let yaml = is_yaml(&p.args);
    let sc = as_scenario(p);
    let args: Vec<Vec<u8>> = p.args.iter().map(|a| a.0.clone()).collect();
    let reference = unsafe {
        if !REFERENCE.contains_key(&yaml) {
            let mut q = G::new("C15", 1, 1).sc;
            q.property = "C15".into();
            let a = if yaml { vec![b"-f".to_vec(), b"yaml".to_vec()] } else { vec![] };
            let d = launch(&q, &place("DST_OUTPUT"), &a, "cli", b"");
            REFERENCE.insert(yaml, if d.status == Status::Exit(0) { d.w.out[1].clone() } else { Vec::new() });
        }
        REFERENCE[&yaml].clone()
    };
    let d = launch(&sc, &place("DST_OUTPUT"), &args, "cli", b"");
    let out = &d.w.out[1];
    let mut r = report(&d, hash_str(&String::from_utf8_lossy(out)));
    r.counters.insert("export_program".into(), 1);
    r.nontrivial = !d.w.fired.is_empty();
    let hard = d.w.errors.iter().any(|e| e.1 == "stdout" && e.2 != libc::EINTR);
    r.violation = match d.status {
        Status::Hang => fail("hang", "the export program did not end".into()),
        Status::Signal(s) if s == libc::SIGABRT && hard => None,
        Status::Signal(s) => fail("crash", format!("the export program was ended by signal {}", s)),
        Status::Exit(0) => {
            if *out != reference {
                let kind = if reference.starts_with(out) { "truncated-success" } else { "export-differs" };
                fail(kind, format!("exit status 0, but {} bytes were delivered that differ from the {} bytes of an undisturbed run at byte {}", out.len(), reference.len(), out.iter().zip(reference.iter()).position(|(a, b)| a != b).unwrap_or(out.len().min(reference.len()))))
            } else {
                match reload(out, yaml) {
                    None => None,
                    Some(e) => fail("reload", format!("the {} printed by the export program does not load back to the preset: {}", if yaml { "YAML" } else { "CSV" }, e)),
                }
            }
        }
        Status::Exit(c) => {
            if !hard {
                fail("unexpected-failure", format!("exit status {} although standard output never failed", c))
            } else if !reference.starts_with(out) {
                fail("export-differs", format!("the {} bytes delivered before the failure are not a beginning of the export", out.len()))
            } else {
                None
            }
        }
    };
    r
}

// ---- CPython ----

#[derive(Deserialize)]
struct PyRes {
    id: u32,
    start: u64,
    end: u64,
    out: String,
    #[serde(default)]
    text: String,
}

fn c17(p: &ProcScenario) -> Report {
    let mut sc = as_scenario(p);
    sc.texts = p.texts.iter().map(|t| TextSpec::Lit(t.clone())).collect();
    // what the steps mean in terms of the library
    let mut ops: Vec<OpAt> = Vec::new();
    for s in &p.steps {
        let mut add = |op: Op| ops.push(OpAt { id: s.id, op });
        match &s.step {
            PyStep::Chanoma { dst, table, preset, neologdn, rc, configfile } => {
                let how = match (configfile, rc) {
                    (Some(f), _) => Make::File(f.clone()),
                    (None, Some(true)) => Make::LoadRc,
                    _ => Make::New,
                };
                add(Op::Make { dst: *dst, how });
                if let Some(t) = table {
                    add(Op::Use { dst: *dst, step: Step1::Table(*t) });
                }
                if *preset == Some(true) {
                    add(Op::Use { dst: *dst, step: Step1::Preset });
                }
                if *neologdn == Some(true) {
                    add(Op::Use { dst: *dst, step: Step1::Neologdn });
                }
            }
            PyStep::AddSet { dst, set } => add(Op::TabEdit { dst: *dst, edit: Edit::Add { items: character_set(*set), via: 1 } }),
            PyStep::Table { dst, preset, csv, yaml } => {
                add(Op::TabMake { dst: *dst, src: if *preset == Some(true) { TabSrc::Preset } else { TabSrc::Empty } });
                for f in [csv, yaml].into_iter().flatten() {
                    add(Op::TabEdit { dst: *dst, edit: Edit::AddFile(f.clone()) });
                }
            }
            PyStep::Add { dst, items } => add(Op::TabEdit { dst: *dst, edit: Edit::Add { items: items.clone(), via: 1 } }),
            PyStep::Norm { src, text } => add(Op::Norm { src: PRef::L(*src), text: *text }),
            PyStep::Drop { dst } => add(Op::Drop { dst: *dst }),
            PyStep::Fs(a) => add(Op::Fs(a.clone())),
        }
    }
    sc.tasks = vec![ops];
    let doc = serde_json::json!({"path": place("DST_PYPATH").to_str().unwrap(), "steps": p.steps, "texts": p.texts});
    let args: Vec<Vec<u8>> = ["-I", "-S", "-B", "-c", include_str!("driver.py")].iter().map(|s| s.as_bytes().to_vec()).collect();
    let d = launch(&sc, &place("DST_PY"), &args, "py", &serde_json::to_vec(&doc).unwrap());
    let rs: Vec<PyRes> = d.results.split(|b| *b == b'\n').filter(|l| !l.is_empty()).filter_map(|l| serde_json::from_slice(l).ok()).collect();
    if rs.first().map(|r| r.out != "ready").unwrap_or(true) {
        harness(&format!("the Python driver did not start ({:?})", d.status));
    }
    let mut seen = 0;
    for r in &rs {
        seen = mix(mix(seen, r.id as u64), hash_str(&format!("{} {}", r.out, r.text)));
    }
    let mut r = report(&d, seen);
    r.ops = rs.len() as u64;
    r.nontrivial = rs.iter().any(|x| x.out == "oserror") || !d.w.fired.is_empty();
    for x in &rs {
        r.trace.push(format!("python step {} -> {} {}", x.id, x.out, x.text.chars().take(200).collect::<String>()));
        *r.counters.entry(format!("python_{}", x.out)).or_insert(0) += 1;
    }
    if rs.last().map(|r| r.out != "done").unwrap_or(true) {
        let at = rs.iter().rev().find(|x| x.id > 0).map(|x| x.id).unwrap_or(0);
        r.violation = match d.status {
            Status::Hang => fail("hang", format!("the interpreter did not get past the step after {}", at)),
            Status::Signal(s) => fail("crash", format!("the interpreter was ended by signal {} in the step after {}", s, at)),
            Status::Exit(c) => fail("crash", format!("the interpreter ended with status {} in the step after {}", c, at)),
        };
        return r;
    }
    r.violation = judge_py(p, &sc, &d.w, &rs).err();
    r
}

fn character_set(k: u8) -> Vec<Pair> {
    use chanoma::{characters_set::*, Corr};
    let v = match k {
        0 => alphabets::Alphabets::new().items(),
        1 => digits::Digits::new().items(),
        2 => punctuations::Punctuations::new().items(),
        3 => kanas::Kanas::new().items(),
        _ => cjk_compatibilities::CjkCompatibilities::new().items(),
    };
    v.into_iter().map(|i| (i.from, i.to)).collect()
}

fn judge_py(p: &ProcScenario, sc: &Scenario, w: &World, rs: &[PyRes]) -> Result<(), Violation> {
    for x in rs {
        if x.out == "exception" {
            let s = p.steps.iter().find(|s| s.id == x.id).map(|s| format!("{:?}", s.step)).unwrap_or_default();
            return Err(Violation { kind: "wrong-exception".into(), msg: format!("step {} ({}) raised {}", x.id, s, x.text) });
        }
    }
    let ck = Checker::with(sc, w);
    let mut results = Vec::new();
    let mut k = 0;
    for s in &p.steps {
        let n = sc.tasks[0].iter().filter(|o| o.id == s.id).count();
        let x = rs.iter().find(|x| x.id == s.id && x.id != 0);
        let (start, end) = x.map(|x| (x.start, x.end)).unwrap_or((0, 0));
        for i in 0..n {
            let op = &sc.tasks[0][k].op;
            let out = match (x.map(|x| x.out.as_str()).unwrap_or("none"), op) {
                ("none", _) => Out::Ok,
                ("ok", Op::Norm { .. }) => Out::Text(x.unwrap().text.clone()),
                ("ok", _) => Out::Ok,
                ("oserror", Op::Norm { .. }) => Out::Panic(x.unwrap().text.clone()),
                ("oserror", _) if n == 1 || i == 0 => {
                    // with two files it is enough that one of the loads may fail
                    let mut out = Out::Err(x.unwrap().text.clone());
                    if let PyStep::Table { csv, yaml, .. } = &s.step {
                        let probe = Res { task: 0, id: s.id, start, end, out: Out::Ok, open_fds: 0, cwd: None, work: 0, outside: String::new() };
                        let any = [csv, yaml].into_iter().flatten().any(|f| ck.load_file(f, &probe, |c, e| model::table_of(c, e)).err_ok);
                        if any {
                            out = Out::Skip;
                        } else {
                            return Err(Violation { kind: "unexpected-error".into(), msg: format!("step {} ({:?}) raised {} although no fault, no change and no damage hit it", s.id, s.step, x.unwrap().text) });
                        }
                    }
                    if let PyStep::Add { .. } | PyStep::AddSet { .. } = &s.step {
                        out = Out::Panic(x.unwrap().text.clone());
                    }
                    out
                }
                _ => Out::Skip,
            };
            results.push(Res { task: 0, id: s.id, start, end, out, open_fds: 0, cwd: None, work: 0, outside: String::new() });
            k += 1;
        }
    }
    let mut ck = Checker::with(sc, w);
    ck.run(&exec::Done { results, setup: Vec::new(), mem: Vec::new() })
}

// ---- scenarios ----

fn text_of(g: &mut G) -> String {
    let i = match g.r.below(4) {
        0 => g.probe_text(),
        _ => g.rand_text(),
    };
    g.sc.texts[i as usize].get().replace('\0', "")
}

/// configuration in the documented places
fn places(g: &mut G) {
    if g.r.chance(3, 5) {
        g.rc_files(4);
    }
    if g.r.chance(1, 5) {
        let p = *g.r.pick(&["/cfg/e.csv", "/cfg/e.yaml", "/cfg/e.yml"]);
        let c = g.cfg(p);
        g.file(p, c);
        g.sc.world.env.insert("CHANOMARC".into(), Bytes(p.as_bytes().to_vec()));
    } else if g.r.chance(1, 25) {
        let v = *g.r.pick(&["/missing.csv", "/cfg", "/cfg/x.toml", ""]);
        g.sc.world.env.insert("CHANOMARC".into(), Bytes(v.as_bytes().to_vec()));
    }
    if g.r.chance(1, 15) {
        // a damaged file in one of the places
        let p = *g.r.pick(&["/work/chanomarc.yaml", "/home/u/.chanomarc.csv", "/work/.chanomarc.yml"]);
        if !g.sc.world.files.iter().any(|f| f.path == p) {
            let whole = { let c = g.cfg(p); render(&g.sc.contents[c]) };
            let (b, _) = gen::damage(g, &whole, b"");
            let c = g.content(Content::Raw(Bytes(b)));
            g.file(p, c);
        }
    }
    match g.r.below(12) {
        0 => {
            g.sc.world.env.remove("HOME");
        }
        1 => g.sc.world.cwd = None,
        2 => {
            g.sc.world.env.insert("HOME".into(), Bytes(b"/home/gone".to_vec()));
        }
        _ => {}
    }
    if g.r.chance(1, 6) {
        // every other variable a program could ask for
        let v = *g.r.pick(&["1", "0", "", "C", "/work", "debug", "ja_JP.UTF-8"]);
        g.sc.world.env_wild = Some(Bytes(v.as_bytes().to_vec()));
    }
    if g.r.chance(1, 3) {
        let v = *g.r.pick(&["trace", "off", "debug", "chanoma=warn", "garbage=="]);
        g.sc.world.env.insert("RUST_LOG".into(), Bytes(v.as_bytes().to_vec()));
    }
    if g.r.chance(1, 6) {
        g.sc.world.env.insert("RUST_LOG_STYLE".into(), Bytes(b"always".to_vec()));
    }
}

fn options(g: &mut G, debug: bool) -> Vec<Bytes> {
    let mut v: Vec<&str> = Vec::new();
    let (p, n) = (g.r.chance(1, 2), g.r.chance(1, 2));
    if p && n && g.r.chance(1, 3) {
        v.push(*g.r.pick(&["-pn", "-np"]));
    } else {
        if p {
            v.push(*g.r.pick(&["-p", "--preset"]));
        }
        if n {
            v.push(*g.r.pick(&["-n", "--neologdn"]));
        }
    }
    if debug {
        v.push(*g.r.pick(&["-d", "--debug"]));
    }
    g.r.shuffle(&mut v);
    v.into_iter().map(|s| Bytes(s.as_bytes().to_vec())).collect()
}

fn arguments(g: &mut G, debug: bool) -> Vec<Bytes> {
    let mut v = options(g, debug);
    if g.r.chance(1, 2) {
        let mut t = text_of(g);
        if g.r.chance(1, 8) {
            let n = g.r.range(2_000, 30_000) as usize;
            t = t.chars().cycle().take(if t.is_empty() { 0 } else { n }).collect();
        }
        if g.r.chance(1, 6) {
            t = format!("{}\n{}\n", t, text_of(g));
        }
        // the system takes no argument longer than 128 KiB
        let t = if t.len() > 100_000 { t.chars().take(25_000).collect() } else { t };
        let t = Bytes(t.into_bytes());
        if t.0.starts_with(b"-") || g.r.chance(1, 8) {
            v.push(Bytes(b"--".to_vec()));
            v.push(t);
        } else {
            let at = g.r.idx(v.len() + 1);
            v.insert(at, t);
        }
    }
    if g.r.chance(1, 40) {
        let b: &[u8] = *g.r.pick(&[&b"--bogus"[..], b"-x", b"second", b"\xff\xfe"]);
        v.push(Bytes(b.to_vec()));
    }
    v
}

fn stdin(g: &mut G) -> Bytes {
    let mut b = text_of(g).replace('\n', "").into_bytes();
    match g.r.below(12) {
        0 => {
            let n = g.r.range(3_000, 60_000) as usize;
            let s = String::from_utf8(b.clone()).unwrap();
            if !s.is_empty() {
                b = s.chars().cycle().take(n).collect::<String>().into_bytes();
            }
        }
        1 => b = Vec::new(),
        2 => {
            let i = g.r.idx(b.len() + 1);
            b.insert(i, 0xFF);
        }
        _ => {}
    }
    match g.r.below(8) {
        0 => {}
        1 => b.extend_from_slice(b"\r\n"),
        2 => {
            b.push(b'\n');
            b.extend_from_slice(text_of(g).as_bytes());
        }
        3 => b.extend_from_slice(b"\n\n\n"),
        4 => b.extend_from_slice(b"\n\xff\xff second line\n"),
        _ => b.push(b'\n'),
    }
    Bytes(b)
}

fn stdin_fault(g: &mut G) {
    let n = g.r.log(12) as u32 - 1;
    let e = *g.r.pick(&[libc::EINTR, libc::EINTR, libc::EIO, libc::EAGAIN, libc::EISDIR, libc::ENOMEM]);
    let act = if g.r.chance(1, 4) { Act::Short(g.r.log(20) as u32) } else { Act::Errno(e) };
    g.fault(0, "stdin", n, act);
}

fn stdout_fault(g: &mut G) {
    let n = g.r.log(12) as u32 - 1;
    let e = *g.r.pick(&[libc::EINTR, libc::EINTR, libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EAGAIN, libc::EDQUOT]);
    let act = if g.r.chance(1, 4) { Act::Short(g.r.log(20) as u32) } else { Act::Errno(e) };
    g.fault(0, "stdout", n, act);
}

/// a long text in tiny pieces costs thousands of events and explores nothing new
fn coarsen(g: &mut G, args: &[Bytes], limit: usize) {
    let n = args.iter().map(|b| b.0.len()).fold(g.sc.world.stdin.as_ref().map_or(0, |b| b.0.len()), usize::max);
    if n > limit && (n > 8_000 || !g.r.chance(1, 12)) {
        for c in [&mut g.sc.world.read_chunk, &mut g.sc.world.write_chunk] {
            match c {
                Chunk::Fixed(k) => *k = (*k).max(n as u32 / 24),
                Chunk::Random(k) => *k = (*k).max(n as u32 / 12),
                _ => {}
            }
        }
    }
}

fn gen_c13(g: &mut G) -> Vec<Bytes> {
    places(g);
    let debug = g.r.chance(1, 6);
    let args = arguments(g, debug);
    g.sc.world.stdin = Some(stdin(g));
    g.sc.world.read_chunk = g.chunk();
    g.sc.world.write_chunk = g.chunk();
    coarsen(g, &args, 2000);
    for _ in 0..g.r.below(3) {
        match g.r.below(8) {
            0 | 1 => stdin_fault(g),
            2 | 3 => stdout_fault(g),
            4 => {
                let n = g.r.below(4) as u32;
                let e = *g.r.pick(&[libc::EIO, libc::EPIPE, libc::EINTR, libc::ENOSPC]);
                g.fault(0, "stderr", n, Act::Errno(e));
            }
            5 => {
                let all = g.rc_paths();
                let p = g.r.pick(&all).clone();
                let c = g.cfg(&p);
                let act = match g.r.below(3) {
                    0 => Act::Remove { path: p },
                    _ => Act::Set { path: p, node: Node::File(c) },
                };
                let n = g.r.log(30) as u32 - 1;
                g.fault(0, "any", n, act);
            }
            _ => g.io_fault(0),
        }
    }
    args
}

fn fixed(g: &mut G) -> Chunk {
    match g.r.below(4) {
        0 => Chunk::Fixed(1),
        1 => Chunk::Fixed(g.r.log(300) as u32),
        _ => Chunk::Whole,
    }
}

fn gen_c14(g: &mut G) -> (Vec<Bytes>, (String, u32)) {
    places(g);
    let args = arguments(g, false);
    g.sc.world.stdin = Some(stdin(g));
    // nothing that depends on how often the program was interrupted elsewhere
    g.sc.world.read_chunk = fixed(g);
    g.sc.world.write_chunk = fixed(g);
    coarsen(g, &args, 200);
    if g.r.chance(3, 5) {
        for _ in 0..g.r.range(1, 4) {
            let n = g.r.log(40) as u32 - 1;
            let act = if g.r.chance(1, 3) {
                Act::Short(g.r.log(30) as u32)
            } else {
                Act::Errno(*g.r.pick(&[libc::EIO, libc::EPIPE, libc::EINTR, libc::ENOSPC, libc::EAGAIN]))
            };
            g.fault(0, "stderr", n, act);
        }
    }
    match g.r.below(8) {
        0 => stdin_fault(g),
        1 => stdout_fault(g),
        2 => {
            let n = g.r.log(8) as u32 - 1;
            let e = g.read_errno();
            g.fault(0, "read", n, Act::Errno(e));
        }
        3 => {
            let n = g.r.below(3) as u32;
            let e = g.open_errno();
            g.fault(0, "open", n, Act::Errno(e));
        }
        _ => {}
    }
    let at = g.r.below(4) as u32;
    (args, (g.r.pick(&["-d", "--debug"]).to_string(), at))
}

fn gen_c15(g: &mut G) -> Vec<Bytes> {
    let a: &[&str] = match g.r.below(8) {
        0 => &[],
        1 => &["-f", "csv"],
        2 => &["--format", "csv"],
        3 => &["--format=csv"],
        4 => &["-f", "yaml"],
        5 => &["--format", "yaml"],
        6 => &["--format=yaml"],
        _ => &["-fyaml"],
    };
    g.sc.world.write_chunk = match g.r.below(5) {
        0 => Chunk::Whole,
        1 => Chunk::Fixed(g.r.range(1, 40) as u32),
        2 => Chunk::Fixed(g.r.range(40, 2000) as u32),
        _ => Chunk::Random(g.r.log(3000) as u32 + 8),
    };
    for _ in 0..g.r.below(3) {
        let n = g.r.log(600) as u32 - 1;
        let e = *g.r.pick(&[libc::EINTR, libc::EINTR, libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EAGAIN]);
        let act = if g.r.chance(1, 4) { Act::Short(g.r.log(20) as u32) } else { Act::Errno(e) };
        g.fault(0, "stdout", n, act);
    }
    a.iter().map(|s| Bytes(s.as_bytes().to_vec())).collect()
}

fn gen_c17(g: &mut G) -> Vec<PyAt> {
    g.sc.world.env.remove("RUST_LOG");
    let files = { let n = g.r.range(1, 4) as usize; g.files(n) };
    if g.r.chance(2, 3) {
        g.rc_files(3);
    }
    let mut bad = Vec::new();
    for i in 0..g.r.below(3) {
        let p = format!("/cfg/bad{}.{}", i, if g.r.chance(1, 2) { "csv" } else { "yaml" });
        let b = if g.r.chance(1, 2) {
            if p.ends_with("csv") { gen::odd_csv(g) } else { gen::odd_yaml(g) }
        } else {
            let whole = { let c = g.cfg(&p); render(&g.sc.contents[c]) };
            gen::damage(g, &whole, b"").0
        };
        let c = g.content(Content::Raw(Bytes(b)));
        g.file(&p, c);
        bad.push(p);
    }
    if g.r.chance(1, 4) {
        bad.push("/missing.csv".into());
    }
    if g.r.chance(1, 6) {
        let f = g.r.pick(&files).clone();
        g.sc.world.env.insert("CHANOMARC".into(), Bytes(f.into_bytes()));
    }
    if g.r.chance(1, 2) {
        g.sc.world.read_chunk = g.chunk();
    }
    let mut all = files.clone();
    all.extend(bad.iter().cloned());
    all.extend(files.iter().cloned());
    let probe = g.probe_text();
    let mut others = vec![g.rand_text(), g.rand_text()];
    others.push({ let s = format!("{} {}", g.tangle(), g.tangle()); g.text(TextSpec::Lit(s)) });
    let mut steps: Vec<PyAt> = Vec::new();
    let flag = |g: &mut G| match g.r.below(4) {
        0 => Some(true),
        1 => Some(false),
        _ => None,
    };
    // paths of nothing
    let odd = |g: &mut G| g.r.pick(&["", "", " ", "/cfg", ".", "/cfg/", "None", "~", "/cfg/gone.csv", "/cfg/gone.yaml"]).to_string();
    let n = g.r.range(3, 10);
    let mut id = 0u32;
    for _ in 0..n {
        id += 1;
        let step = match g.r.below(10) {
            0..=4 => {
                let configfile = if g.r.chance(1, 12) { Some(odd(g)) } else if g.r.chance(2, 3) { Some(g.r.pick(&all).clone()) } else { None };
                let rc = if g.r.chance(1, 2) { Some(g.r.chance(4, 5)) } else { None };
                let table = if g.r.chance(1, 3) { Some(g.r.below(2) as u32) } else { None };
                let (preset, neologdn) = if g.r.chance(1, 4) { (Some(true), Some(true)) } else { (flag(g), flag(g)) };
                PyStep::Chanoma { dst: g.r.below(3) as u32, table, preset, neologdn, rc, configfile }
            }
            5..=7 => {
                let c: Vec<String> = all.iter().filter(|f| f.ends_with("csv")).cloned().collect();
                let y: Vec<String> = all.iter().filter(|f| !f.ends_with("csv")).cloned().collect();
                let csv = if g.r.chance(1, 20) { Some(odd(g)) } else if !c.is_empty() && g.r.chance(2, 3) { Some(g.r.pick(&c).clone()) } else { None };
                let yaml = if g.r.chance(1, 20) { Some(odd(g)) } else if !y.is_empty() && g.r.chance(2, 3) { Some(g.r.pick(&y).clone()) } else { None };
                PyStep::Table { dst: g.r.below(2) as u32, preset: if g.r.chance(1, 6) { Some(true) } else { flag(g).filter(|b| !b) }, csv, yaml }
            }
            8 if g.r.chance(1, 3) => PyStep::AddSet { dst: g.r.below(2) as u32, set: g.r.below(5) as u8 },
            8 => {
                let mut items = g.pairs(3);
                items.sort();
                items.dedup_by(|a, b| a.0 == b.0);
                PyStep::Add { dst: g.r.below(2) as u32, items }
            }
            _ => {
                let f = g.r.pick(&files).clone();
                let c = g.cfg(&f);
                let a = match g.r.below(4) {
                    0 => Act::Remove { path: G::abs(&f) },
                    _ => Act::Set { path: G::abs(&f), node: Node::File(c) },
                };
                PyStep::Fs(a)
            }
        };
        let load = matches!(step, PyStep::Chanoma { .. } | PyStep::Table { .. });
        steps.push(PyAt { id, step: step.clone() });
        if load && g.r.chance(1, 2) {
            g.io_fault(id);
            if g.r.chance(1, 3) {
                // a change of a file in the middle of it
                let f = g.r.pick(&files).clone();
                let c = g.cfg(&f);
                let n = g.r.log(20) as u32 - 1;
                g.fault(id, "any", n, Act::Set { path: G::abs(&f), node: Node::File(c) });
            }
            if g.r.chance(1, 2) {
                // the same again without a fault
                id += 1;
                steps.push(PyAt { id, step });
            }
        }
        for s in 0..3 {
            if g.r.chance(2, 3) {
                id += 1;
                steps.push(PyAt { id, step: PyStep::Norm { src: s, text: if g.r.chance(1, 2) { probe } else { *g.r.pick(&others) } } });
            }
        }
        if g.r.chance(1, 12) {
            id += 1;
            steps.push(PyAt { id, step: PyStep::Drop { dst: g.r.below(3) as u32 } });
        }
    }
    steps
}

pub fn scenario(property: &str, seed: u64, run: u64) -> ProcScenario {
    let mut g = G::new(property, seed, run);
    let mut p = ProcScenario { property: property.into(), ..Default::default() };
    match property {
        "C13" => p.args = gen_c13(&mut g),
        "C14" => {
            let (a, d) = gen_c14(&mut g);
            p.args = a;
            p.debug = d;
        }
        "C15" => p.args = gen_c15(&mut g),
        _ => p.steps = gen_c17(&mut g),
    }
    if g.r.chance(1, 4) {
        for _ in 0..g.r.range(1, 3) {
            let n = g.r.log(40) as u32 - 1;
            let a = crate::gen::clock_jump(&mut g);
            g.fault(0, "any", n, a);
        }
    }
    // nor does a large file
    let size = g.sc.contents.iter().map(|c| render(c).len()).max().unwrap_or(0) as u32;
    if size > 20_000 {
        let least = size / 1_500;
        match &mut g.sc.world.read_chunk {
            Chunk::Fixed(k) | Chunk::Random(k) => *k = (*k).max(least),
            Chunk::Whole => {}
        }
    }
    p.texts = g.sc.texts.iter().map(|t| t.get()).collect();
    if property != "C17" {
        p.texts.clear();
    }
    p.world = g.sc.world;
    p.contents = g.sc.contents;
    p
}

pub fn run(p: &ProcScenario, _o: Opt) -> Report {
    match p.property.as_str() {
        "C13" => c13(p),
        "C14" => c14(p),
        "C15" => c15(p),
        _ => c17(p),
    }
}

pub fn rule(p: &str) -> &'static str {
    match p {
        "C13" => "one seed = one execution of the CLI with seeded arguments, standard input, configuration, chunking of every stream and faults on every stream and file; non-trivial: at least one fault or split happened or a configuration file was opened",
        "C14" => "one seed = two executions of the CLI in the same world, without and with the debug option, the second with faults on standard error; non-trivial: the debug option produced output",
        "C17" => "one seed = one Python program of 3-40 steps (constructors, additions, normalizations, file changes) with faults inside the constructors; non-trivial: at least one fault or split happened or one OSError was raised",
        _ => "",
    }
}

pub fn min_runs(p: &str) -> u64 {
    match p {
        "C01" => 600,
        "C17" => 600,
        _ => 0,
    }
}

pub fn prepare(p: &str) -> Result<(), String> {
    let need: &[&str] = match p {
        "C13" | "C14" => &["DST_CLI", "DST_SHIM"],
        "C15" => &["DST_OUTPUT", "DST_SHIM"],
        "C17" => &["DST_PY", "DST_SHIM"],
        _ => &[],
    };
    for k in need {
        let f = place(k);
        if !std::path::Path::new(f.to_str().unwrap()).exists() {
            return Err(format!("{:?} does not exist", f));
        }
    }
    let _ = check::home_of;
    Ok(())
}
pub fn components(p: &str) -> (Vec<String>, Vec<String>) {
    let v = |x: &[&str]| x.iter().map(|s| s.to_string()).collect::<Vec<String>>();
    match p {
        "C13" | "C14" => (
            v(&["the chanoma program as cargo builds it (main, clap, env_logger, load_rc, the whole library, std)"]),
            v(&["file system, descriptors, stdin/stdout/stderr, environment, home and working directory, clock, hash entropy: simulated behind libc by a preloaded library"]),
        ),
        "C17" => (
            v(&["CPython, the chanoma extension module as cargo builds it (pyo3 glue, the whole library, std)"]),
            v(&["file system below /sim, environment, home and working directory, clock, hash entropy while a binding call runs: simulated behind libc by a preloaded library", "log sink: none (the binding installs none)"]),
        ),
        "C15" => (
            v(&["the whole library, csv, serde_yaml, std", "the output program as cargo builds it (every sixth run)"]),
            v(&["the writer handed to the export (in-process runs)", "standard streams, clock, entropy of the output program: simulated behind libc"]),
        ),
        _ => (
            v(&["the whole library (all modules), csv, yaml-rust, serde_yaml, log, dirs, std, glibc malloc"]),
            v(&[
                "file system, descriptors, environment, home and working directory, clock, hash entropy: simulated behind libc",
                "threads: real threads of which one at a time runs, chosen by the simulated scheduler",
                "log sink: simulated",
            ]),
        ),
    }
}
pub fn assumptions(p: &str) -> Vec<String> {
    let mut v = vec![
        "Linux, x86-64, glibc: the code reaches the outside world through libc functions (std, dirs and CPython do), not through inline system calls".to_string(),
        "the reference model of the steps (sim/src/model.rs) states the documented meaning; the preset's mapping list itself is taken from the library once per check, in a fresh process".to_string(),
        "seeded search: only the explored seeds are covered".to_string(),
    ];
    match p {
        "C03" | "C02" | "C12" => v.push("interleavings are sequentially consistent; they switch at allocations, locks, I/O, log calls and any memory access or branch compiled into the library crate, not inside code of other crates; weak-memory reorderings are not explored".into()),
        "C22" => v.push("work is counted inside the library crate (memory accesses and branches, generic instances included) and at its allocations, locks and I/O; work done only inside other crates' own code is not counted".into()),
        "C17" => v.push("CPython itself (interpreter start, importing the module) runs outside the simulation; faults hit only calls made inside binding calls".into()),
        _ => {}
    }
    v
}
