//! Executes a scenario against the real library inside this process. One process, one run.

use crate::host::{self, cut, uncut};
use crate::logger;
use crate::rng::mix;
use crate::scenario::*;
use crate::sched;
use crate::spec::*;
use crate::world::World;
use chanoma::corr::{Correspondence, Item, Synthesized};
use chanoma::{Chanoma, Table, TableBuilder};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Write;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Out {
    Skip,
    Ok,
    Err(String),
    Panic(String),
    Text(String),
    Recs { fin: String, texts: Vec<String>, digest: u64 },
    Items { items: Vec<(String, String)> },
    Bool(bool),
    Bytes { ok: bool, bytes: Bytes },
    Mem(i64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Res {
    pub task: u32,
    pub id: u32,
    pub start: u64,
    pub end: u64,
    pub out: Out,
    /// descriptors of this operation still open after it
    pub open_fds: u32,
    /// same for writes
    pub cwd: Option<Bytes>,
    /// memory accesses and branches of the library, and ten for each of its other scheduling points (single-task runs)
    #[serde(default)]
    pub work: u64,
    /// how often the operation reached outside the process
    #[serde(default)]
    pub outside: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    pub violation: Option<Violation>,
    pub hash: u64,
    /// digest of everything the caller could see (results only)
    pub digest: u64,
    pub steps: u64,
    pub switches: Vec<sched::Switch>,
    pub preemptions: u64,
    pub sched_hash: u64,
    pub fired: BTreeMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub ops: u64,
    pub op_kinds: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub trace: Vec<String>,
    pub results: Vec<Res>,
    pub crash: Option<String>,
    /// digest of the outcome of each operation
    #[serde(default)]
    pub op_digests: Vec<(u32, u64)>,
}

pub static mut OUT_FD: i32 = -1;
static mut SCEN: *const Scenario = std::ptr::null();
static mut TEXTS: *const Vec<Vec<String>> = std::ptr::null();
static mut ROUND_NO: u32 = 0;
/// the usual stack of a thread
pub const STACK: usize = 2 << 20;
static mut SHARED: *mut BTreeMap<u32, Pipe> = std::ptr::null_mut();
pub static mut WANT_TRACE: bool = false;
pub static mut START_NS: u64 = 0;

pub fn scen() -> &'static Scenario {
    unsafe { &*SCEN }
}
fn text(i: u32) -> &'static str {
    unsafe {
        let t: &'static Vec<Vec<String>> = &*TEXTS;
        t.get(ROUND_NO as usize).and_then(|t| t.get(i as usize)).map(|s| s.as_str()).unwrap_or("")
    }
}

fn way(p: &str) -> Spelt<'_> {
    let k = unsafe { ROUND_NO };
    Spelt(if k == 0 { std::borrow::Cow::Borrowed(p) } else { uncut(|| round_path(p, k).into()) })
}
/// a path of the harness, released outside the accounts of the code under test
struct Spelt<'a>(std::borrow::Cow<'a, str>);
impl std::ops::Deref for Spelt<'_> {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl AsRef<std::path::Path> for Spelt<'_> {
    fn as_ref(&self) -> &std::path::Path {
        std::path::Path::new(&*self.0)
    }
}
impl Drop for Spelt<'_> {
    fn drop(&mut self) {
        let s = std::mem::replace(&mut self.0, std::borrow::Cow::Borrowed(""));
        uncut(|| drop(s));
    }
}

/// the pipelines are handed between threads whatever their auto traits say; a lost Send/Sync is reported as a violation of its own
pub struct Pipe(pub Chanoma);

struct Probe<T>(std::marker::PhantomData<T>);
trait NotShared {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> NotShared for &Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    fn shareable(&self) -> bool {
        true
    }
}
#[allow(clippy::needless_borrow)]
pub fn is_shareable() -> bool {
    (&Probe::<Chanoma>(std::marker::PhantomData)).shareable()
}

pub fn emit(r: &Report) {
    let s = serde_json::to_vec(r).unwrap();
    let mut i = 0;
    unsafe {
        while i < s.len() {
            let n = crate::interpose::raw(libc::SYS_write, OUT_FD as usize, s.as_ptr() as usize + i, s.len() - i, 0, 0, 0);
            if n == -(libc::EINTR as isize) {
                continue;
            }
            if n <= 0 {
                break;
            }
            i += n as usize;
        }
    }
}

pub fn base_report() -> Report {
    let w = host::world();
    let s = sched::sched();
    let mut r = Report { hash: w.hash, steps: s.total, preemptions: s.preemptions, ..Default::default() };
    r.switches = s.switches.clone();
    let mut h = 0u64;
    for x in &s.switches {
        h = mix(h, (x.task as u64) << 48 ^ (x.op as u64) << 32 ^ (x.step as u64) << 8 ^ x.to as u64 ^ (x.fine as u64) << 40);
    }
    r.sched_hash = h;
    r.fired = w.fired.clone();
    for (k, v) in &s.kinds {
        r.counters.insert(format!("sched:{}", k), *v);
    }
    for (k, v) in &w.io_calls {
        r.counters.insert(format!("io:{}", k), *v);
    }
    r.counters.insert("preemptions_between_accesses".into(), s.fine_preemptions);
    r.counters.insert("accesses_to_shared_memory".into(), s.hot_accesses);
    r.counters.insert("lock_waits".into(), s.lock_waits);
    if s.stalls > 0 {
        r.fired.insert("task:stalled".into(), s.stalls);
    }
    r.counters.insert("adopted_threads".into(), s.adopted);
    if let Some(k) = logger::sink() {
        r.counters.insert("log_records".into(), k.records);
        r.counters.insert("log_reentered".into(), k.reentered.len() as u64);
        if k.flips > 0 {
            r.fired.insert("log:level-flip".into(), k.flips);
        }
        if k.refused > 0 {
            r.fired.insert("log:refused".into(), k.refused);
        }
        if !k.panicked.is_empty() {
            r.fired.insert("log:panic".into(), k.panicked.len() as u64);
        }
    }
    r.sim_ns = w.clock_ns - unsafe { START_NS };
    if let Some(t) = &w.trace {
        r.trace = t.clone();
    }
    r
}

/// the run cannot go on: report and leave
pub fn die(kind: &str, msg: &str) -> ! {
    let mut r = base_report();
    r.violation = Some(Violation { kind: kind.into(), msg: msg.into() });
    emit(&r);
    unsafe {
        crate::interpose::raw(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
    }
    unreachable!()
}

struct SimWriter<'a> {
    task: u32,
    got: &'a mut Vec<u8>,
}
impl<'a> Write for SimWriter<'a> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let r = uncut(|| {
            let w = host::world();
            let act = w.event(self.task, "writer", "");
            match act {
                Some(Act::Errno(0)) => return Ok(0),
                Some(Act::Errno(e)) => return Err(e),
                _ => {}
            }
            let c = w.spec.write_chunk;
            let n = if buf.is_empty() { 0 } else { w.amount(c, buf.len(), &act) };
            if n < buf.len() {
                *w.fired.entry("writer:split".into()).or_insert(0) += 1;
            }
            self.got.extend_from_slice(&buf[..n]);
            Ok(n)
        });
        host::yield_point("io");
        r.map_err(std::io::Error::from_raw_os_error)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let r = uncut(|| host::world().event(self.task, "flush", ""));
        match r {
            Some(Act::Errno(e)) if e != 0 => Err(std::io::Error::from_raw_os_error(e)),
            _ => Ok(()),
        }
    }
}

struct Local {
    pipes: BTreeMap<u32, Pipe>,
    tabs: BTreeMap<u32, TableBuilder>,
    buf: String,
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

fn synth(items: &[Pair]) -> Correspondence<Synthesized> {
    Correspondence::new(Synthesized::new(items.iter().map(|(f, t)| Item::new(f.as_str(), t.as_str())).collect()))
}

pub fn is_csv(path: &str) -> bool {
    path.ends_with(".csv")
}

fn take_items(b: TableBuilder) -> (Vec<(String, String)>, TableBuilder) {
    let t = b.build();
    let it = t.items();
    let v = uncut(|| it.iter().map(|i| (i.from.clone(), i.to.clone())).collect());
    drop(it);
    (v, t.builder())
}

/// result of code under test, its error text copied out and the error dropped where it was made
fn res<T, E: std::fmt::Display + std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    match r {
        Ok(v) => Ok(v),
        Err(e) => {
            drop(format!("{:?}", e));
            let s = e.to_string();
            let c = uncut(|| s.clone());
            Err(c)
        }
    }
}

fn flat<T>(r: Result<Result<T, String>, String>) -> Result<T, Out> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(Out::Err(e)),
        Err(p) => Err(Out::Panic(p)),
    }
}

fn norm(p: &Chanoma, t: &str) -> Out {
    match cut(|| {
        let s = p.normalize(t);
        let c = uncut(|| s.clone());
        drop(s);
        c
    }) {
        Ok(s) => Out::Text(s),
        Err(p) => Out::Panic(p),
    }
}

fn exec_op(t: u32, l: &mut Local, op: &Op) -> Out {
    let pipe = |l: &Local, r: PRef| -> Option<*const Chanoma> {
        match r {
            PRef::L(i) => l.pipes.get(&i).map(|p| &p.0 as *const Chanoma),
            PRef::S(i) => unsafe { (*SHARED).get(&i).map(|p| &p.0 as *const Chanoma) },
        }
    };
    match op {
        Op::Make { dst, how } => {
            let old = l.pipes.remove(dst);
            let r = cut(|| {
                drop(old);
                match how {
                    Make::New => Ok(Chanoma::new()),
                    Make::Default => Ok(Chanoma::default()),
                    Make::Preset => Ok(Chanoma::preset()),
                    Make::Neologdn => Ok(Chanoma::neologdn()),
                    Make::LoadRc => res(Chanoma::load_rc()),
                    Make::File(p) => res(Chanoma::from_config_file(way(p))),
                    Make::FromTable(s) => {
                        let b = uncut(|| l.tabs.remove(s));
                        match b {
                            Some(b) => {
                                let tab = b.build();
                                let c = tab.clone();
                                let back = tab.builder();
                                uncut(|| l.tabs.insert(*s, back));
                                Ok(Chanoma::from_table(c))
                            }
                            None => Err(uncut(|| "no table".to_string())),
                        }
                    }
                }
            });
            match flat(r) {
                Ok(c) => {
                    l.pipes.insert(*dst, Pipe(c));
                    Out::Ok
                }
                Err(o) => o,
            }
        }
        Op::Use { dst, step } => {
            let Some(p) = l.pipes.get_mut(dst) else { return Out::Skip };
            let mut tab = match step {
                Step1::Table(s) => match l.tabs.remove(s) {
                    Some(b) => Some((*s, b)),
                    None => return Out::Skip,
                },
                _ => None,
            };
            let r = cut(|| match step {
                Step1::Preset => {
                    p.0.use_preset();
                }
                Step1::Neologdn => {
                    p.0.use_neologdn();
                }
                Step1::Table(_) => {
                    let (s, b) = uncut(|| tab.take().unwrap());
                    let t = b.build();
                    let c = t.clone();
                    p.0.add_table(c);
                    let b = t.builder();
                    uncut(|| tab = Some((s, b)));
                }
            });
            if let Some((s, b)) = tab {
                l.tabs.insert(s, b);
            }
            match r {
                Ok(()) => Out::Ok,
                Err(p) => Out::Panic(p),
            }
        }
        Op::Drop { dst } => match l.pipes.remove(dst) {
            Some(p) => match cut(|| drop(p)) {
                Ok(()) => Out::Ok,
                Err(p) => Out::Panic(p),
            },
            None => Out::Skip,
        },
        Op::Norm { src, text: i } => match pipe(l, *src) {
            Some(p) => norm(unsafe { &*p }, text(*i)),
            None => Out::Skip,
        },
        Op::NormBuf { src, text: i } => match pipe(l, *src) {
            Some(p) => {
                l.buf.clear();
                l.buf.push_str(text(*i));
                norm(unsafe { &*p }, &l.buf)
            }
            None => Out::Skip,
        },
        Op::Pos { src, text: i } => match pipe(l, *src) {
            Some(p) => {
                let p = unsafe { &*p };
                let tx = text(*i);
                match cut(|| {
                    let r = p.normalize_with_positions(tx);
                    let recs = r.modified_records();
                    let (texts, digest) = uncut(|| {
                        let mut d = 0u64;
                        let mut v = Vec::new();
                        for m in recs.iter() {
                            v.push(m.text.clone());
                            for x in &m.positions {
                                d = mix(d, crate::rng::hash_str(&format!("{}|{}|{}|{}|{}|{}", x.from, x.to, x.index, x.length, x.utf8_index, x.utf8_length)));
                            }
                            d = mix(d, 77);
                        }
                        (v, d)
                    });
                    let f = r.text();
                    let fin = uncut(|| f.to_string());
                    drop(r);
                    (fin, texts, digest)
                }) {
                    Ok((fin, texts, digest)) => Out::Recs { fin, texts, digest },
                    Err(p) => Out::Panic(p),
                }
            }
            None => Out::Skip,
        },
        Op::TabMake { dst, src } => {
            let old = l.tabs.remove(dst);
            let r = cut(|| {
                drop(old);
                match src {
                    TabSrc::Empty => Ok(TableBuilder::new()),
                    TabSrc::Preset => {
                        let mut b = TableBuilder::new();
                        b.preset();
                        Ok(b)
                    }
                    TabSrc::Items(v) => Ok(Table::from_corr(synth(v), chanoma::table::Origin::New).builder()),
                    TabSrc::Big { n, tag } => {
                        let v = uncut(|| big_pairs(*n, *tag));
                        Ok(Table::from_corr(synth(&v), chanoma::table::Origin::New).builder())
                    }
                    TabSrc::Builder(p) => {
                        if is_csv(p) {
                            res(TableBuilder::from_csv_path(way(p)))
                        } else {
                            res(TableBuilder::from_yaml_path(way(p)))
                        }
                    }
                    TabSrc::Func(p) => {
                        let p = &*way(p);
                        let r = if is_csv(p) { chanoma::file::table_from_csv_path(p) } else { chanoma::file::table_from_yaml_path(p) };
                        res(r).map(|t| t.builder())
                    }
                }
            });
            match flat(r) {
                Ok(b) => {
                    l.tabs.insert(*dst, b);
                    Out::Ok
                }
                Err(o) => o,
            }
        }
        Op::TabEdit { dst, edit } => {
            let Some(b) = l.tabs.remove(dst) else { return Out::Skip };
            let other: Option<Correspondence<Synthesized>> = match edit {
                Edit::AddTable { from } | Edit::RemoveTable { from } => match l.tabs.remove(from) {
                    Some(o) => {
                        let mut c = None;
                        let mut o = Some(o);
                        let _ = cut(|| {
                            let t = uncut(|| o.take().unwrap()).build();
                            let k = t.corr();
                            let bb = t.builder();
                            uncut(|| {
                                c = Some(k);
                                o = Some(bb);
                            });
                        });
                        if let Some(o) = o {
                            l.tabs.insert(*from, o);
                        }
                        c
                    }
                    None => {
                        if from == dst {
                            // a table added to or removed from itself
                            None
                        } else {
                            l.tabs.insert(*dst, b);
                            return Out::Skip;
                        }
                    }
                },
                _ => None,
            };
            let mut slot = Some(b);
            let slot_ref = &mut slot;
            let r = cut(move || {
                let mut b = uncut(|| slot_ref.take().unwrap());
                let r = match edit {
                    Edit::Add { items, via } => {
                        b = edit_with(b, items, *via, true);
                        Ok(())
                    }
                    Edit::Remove { items, via } => {
                        b = edit_with(b, items, *via, false);
                        Ok(())
                    }
                    Edit::AddTable { .. } => {
                        match other {
                            Some(c) => {
                                b.add_corr(&c);
                            }
                            None => {
                                let t = b.build();
                                let c = t.corr();
                                b = t.builder();
                                b.add_corr(&c);
                            }
                        }
                        Ok(())
                    }
                    Edit::RemoveTable { .. } => {
                        match other {
                            Some(c) => {
                                b.remove_corr(&c);
                            }
                            None => {
                                let t = b.build();
                                let c = t.corr();
                                b = t.builder();
                                b.remove_corr(&c);
                            }
                        }
                        Ok(())
                    }
                    Edit::Preset => {
                        b.preset();
                        Ok(())
                    }
                    Edit::RemovePreset => {
                        b.remove_corr(&chanoma::characters_set::ALL);
                        Ok(())
                    }
                    Edit::Own { items, panic_at, add, reenter } => {
                        let own = Correspondence::new(Own { items, left: std::cell::Cell::new(*panic_at), reenter: *reenter });
                        let bb = &mut b;
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            if *add {
                                bb.add_corr(&own);
                            } else {
                                bb.remove_corr(&own);
                            }
                        }));
                        match r {
                            Ok(()) => Ok(()),
                            Err(p) if p.downcast_ref::<&str>() == Some(&OWN_PANIC) => Err(uncut(|| OWN_PANIC.to_string())),
                            Err(p) => std::panic::resume_unwind(p),
                        }
                    }
                    Edit::AddFile(p) => {
                        let p = &*way(p);
                        let e = if is_csv(p) { res(b.add_from_csv(p)).map(|_| ()) } else { res(b.add_from_yaml(p)).map(|_| ()) };
                        e
                    }
                };
                uncut(|| *slot_ref = Some(b));
                r
            });
            if let Some(b) = slot {
                l.tabs.insert(*dst, b);
            }
            match flat(r) {
                Ok(()) => Out::Ok,
                Err(o) => o,
            }
        }
        Op::TabCopy { dst, src } => {
            let Some(b) = l.tabs.remove(src) else { return Out::Skip };
            let old = if dst != src { l.tabs.remove(dst) } else { None };
            match cut(|| {
                drop(old);
                let t = b.build();
                (t.clone().builder(), t.builder())
            }) {
                Ok((c, b)) => {
                    l.tabs.insert(*dst, c);
                    if dst != src {
                        l.tabs.insert(*src, b);
                    }
                    Out::Ok
                }
                Err(p) => Out::Panic(p),
            }
        }
        Op::TabDrop { dst } => match l.tabs.remove(dst) {
            Some(b) => match cut(|| drop(b)) {
                Ok(()) => Out::Ok,
                Err(p) => Out::Panic(p),
            },
            None => Out::Skip,
        },
        Op::TabItems { src } => {
            let Some(b) = l.tabs.remove(src) else { return Out::Skip };
            match cut(|| take_items(b)) {
                Ok((items, b)) => {
                    l.tabs.insert(*src, b);
                    Out::Items { items }
                }
                Err(p) => Out::Panic(p),
            }
        }
        Op::TabEq { a, b } => {
            if a == b {
                return Out::Skip;
            }
            let (Some(x), Some(y)) = (l.tabs.remove(a), l.tabs.remove(b)) else { return Out::Skip };
            match cut(|| {
                let (x, y) = (x.build(), y.build());
                let r = x.corr() == y.corr();
                (r, x.builder(), y.builder())
            }) {
                Ok((r, x, y)) => {
                    l.tabs.insert(*a, x);
                    l.tabs.insert(*b, y);
                    Out::Bool(r)
                }
                Err(p) => Out::Panic(p),
            }
        }
        Op::Export { src, end } => {
            let Some(b) = l.tabs.remove(src) else { return Out::Skip };
            let mut got = Vec::new();
            let mut back = None;
            let back_ref = &mut back;
            let got_ref = &mut got;
            let r = cut(move || {
                let tab = b.build();
                let corr = tab.corr();
                let bb = tab.builder();
                uncut(|| *back_ref = Some(bb));
                let mut w = chanoma::file::to_csv_writer(&corr, SimWriter { task: t, got: got_ref });
                if *end == 0 {
                    let r = res(w.flush());
                    if r.is_err() {
                        // the caller has seen the error; what the writer does while it is dropped is not judged
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(w)));
                    }
                    r
                } else {
                    match w.into_inner() {
                        Ok(_) => Ok(()),
                        Err(e) => {
                            let s = e.to_string();
                            Err(uncut(|| s.clone()))
                        }
                    }
                }
            });
            if let Some(b) = back {
                l.tabs.insert(*src, b);
            }
            let ok = matches!(r, Ok(Ok(())));
            Out::Bytes { ok, bytes: Bytes(got) }
        }
        Op::ExportYaml { src } => {
            let Some(b) = l.tabs.remove(src) else { return Out::Skip };
            match cut(|| {
                let tab = b.build();
                let s = serde_yaml::to_string(&chanoma::file::to_serialized_corr(&tab.corr()));
                let r = match s {
                    Ok(s) => Ok(uncut(|| s.clone().into_bytes())),
                    Err(e) => Err(uncut(|| e.to_string())),
                };
                (r, tab.builder())
            }) {
                Ok((r, b)) => {
                    l.tabs.insert(*src, b);
                    match r {
                        Ok(v) => Out::Bytes { ok: true, bytes: Bytes(v) },
                        Err(e) => Out::Err(e),
                    }
                }
                Err(p) => Out::Panic(p),
            }
        }
        Op::ModsFn { path } => {
            // the steps themselves are private; their debug form, its characters in order, does not depend on how sets are ordered
            let r = cut(|| {
                res(chanoma::file::modifiers_from_yaml_path(&*way(path))).map(|v| {
                    let s = format!("{:?}", v);
                    let mut c: Vec<char> = s.chars().collect();
                    c.sort_unstable();
                    let o = format!("{} steps, {:016x}", v.len(), crate::rng::hash_str(&c.into_iter().collect::<String>()));
                    uncut(|| o.clone())
                })
            });
            match flat(r) {
                Ok(s) => Out::Text(s),
                Err(o) => o,
            }
        }
        Op::Fs(a) => {
            let w = host::world();
            w.seq += 1;
            w.mutate(a);
            Out::Ok
        }
        Op::Level(n) => {
            log::set_max_level(logger::level(*n));
            host::world().log(&format!("log level set to {}", n));
            Out::Ok
        }
        Op::Mem => Out::Mem(crate::alloc::live()),
    }
}

pub const OWN_PANIC: &str = "the caller's own source of mappings panics";

/// a source of mappings as a user may write it
struct Own<'a> {
    items: &'a [Pair],
    left: std::cell::Cell<u8>,
    reenter: bool,
}

impl chanoma::Corr for Own<'_> {
    fn items(&self) -> Vec<chanoma::Item> {
        if self.reenter {
            let mut b = TableBuilder::new();
            b.preset();
            let t = b.build();
            let c = Chanoma::from_table(t);
            drop(c.normalize("ｱａ"));
        }
        match self.left.get() {
            0 => {}
            1 => std::panic::panic_any(OWN_PANIC),
            n => self.left.set(n - 1),
        }
        self.items.iter().map(|(f, t)| chanoma::Item::new(f.as_str(), t.as_str())).collect()
    }
}

fn edit_with(b: TableBuilder, items: &[Pair], via: u8, add: bool) -> TableBuilder {
    let mut b = b;
    let c = synth(items);
    match via {
        1 => {
            let mut t = b.build();
            if add {
                t.add(&c)
            } else {
                t.remove(&c)
            }
            t.builder()
        }
        2 => {
            let t = b.build();
            let k = if add { t.corr() + &c } else { t.corr() - &c };
            Table::from_corr(k, chanoma::table::Origin::New).builder()
        }
        3 => {
            let t = b.build();
            let mut k = t.corr();
            if add {
                k += &c
            } else {
                k -= &c
            }
            Table::from_corr(k, chanoma::table::Origin::New).builder()
        }
        4 => {
            // one Linear at a time
            for (f, t) in items {
                let (f, t) = uncut(|| (leak(f), leak(t)));
                let l = chanoma::corr::Linear::new(f, t).corr();
                if add {
                    b.add_corr(&l);
                } else {
                    b.remove_corr(&l);
                }
            }
            b
        }
        5 => {
            // groups of one target
            let mut m: Vec<(&str, Vec<&'static str>)> = uncut(Vec::new);
            uncut(|| {
                for (f, t) in items {
                    match m.iter_mut().find(|x| x.0 == t) {
                        Some(x) => x.1.push(leak(f)),
                        None => m.push((t, vec![leak(f)])),
                    }
                }
            });
            for (t, fs) in m.iter() {
                let t = uncut(|| leak(t));
                let u = chanoma::corr::Unification::new(fs, t).corr();
                if add {
                    b.add_corr(&u);
                } else {
                    b.remove_corr(&u);
                }
            }
            uncut(|| drop(m));
            b
        }
        _ => {
            if add {
                b.add_corr(&c);
            } else {
                b.remove_corr(&c);
            }
            b
        }
    }
}

fn work() -> u64 {
    unsafe { sched::FTOTAL.wrapping_sub(host::OWN).wrapping_add(10 * sched::sched().total).wrapping_add(crate::mem::BYTES / 4) }
}

fn run_ops(t: u32, l: &mut Local, ops: &[OpAt], offset: u32, out: &mut Vec<Res>) {
    for o in ops {
        let id = o.id + offset;
        host::set_cut(1);
        sched::begin_op(t, id);
        host::set_cut(0);
        let start = host::world().seq;
        let cwd = host::world().cwd.clone().map(Bytes);
        unsafe { ROUND_NO = offset / ROUND }
        let before = work();
        let r = exec_op(t, l, &o.op);
        let work = work().wrapping_sub(before);
        let w = host::world();
        let outside = w.calls_of(id).iter().map(|(c, n)| format!("{} × {}", c, n)).collect::<Vec<_>>().join(", ");
        let end = w.seq;
        let open = w.fds.values().filter(|f| f.op == id).count() as u32;
        w.log(&format!("task {} op {} done: {}", t, id, short(&r)));
        out.push(Res { task: t, id, start, end, out: r, open_fds: open, cwd, work, outside });
    }
}

fn short(o: &Out) -> String {
    let s = format!("{:?}", o);
    if s.len() > 300 {
        let h = crate::rng::hash_str(&s);
        format!("{}.. #{:x}", s.chars().take(200).collect::<String>(), h)
    } else {
        s
    }
}

pub struct Done {
    pub results: Vec<Res>,
    pub setup: Vec<Res>,
    /// live bytes of the code under test after each round (single-task runs)
    pub mem: Vec<i64>,
}

fn drop_all(t: u32, l: &mut Local) {
    let _ = t;
    let p = std::mem::take(&mut l.pipes);
    let tb = std::mem::take(&mut l.tabs);
    for (_, p) in p {
        let _ = cut(|| drop(p));
    }
    for (_, b) in tb {
        let _ = cut(|| drop(b));
    }
}

/// the world of a scenario, with everything it may touch watched
pub fn make_world(sc: &Scenario, spec: WorldSpec, trace: bool) -> World {
    let mut watch: Vec<String> = sc.world.files.iter().map(|f| f.path.clone()).collect();
    let note = |a: &Act, watch: &mut Vec<String>| match a {
        Act::Set { path, .. } | Act::Remove { path } | Act::InPlace { path, .. } => watch.push(path.clone()),
        _ => {}
    };
    for f in &sc.world.faults {
        note(&f.act, &mut watch);
    }
    for o in sc.setup.iter().chain(sc.tasks.iter().flatten()) {
        match &o.op {
            Op::Fs(a) => note(a, &mut watch),
            Op::Make { how: Make::File(p), .. }
            | Op::TabMake { src: TabSrc::Builder(p), .. }
            | Op::TabMake { src: TabSrc::Func(p), .. }
            | Op::TabEdit { edit: Edit::AddFile(p), .. }
            | Op::ModsFn { path: p } => watch.push(p.clone()),
            _ => {}
        }
    }
    let mut w = World::new(spec, trace);
    let mut homes: Vec<Option<Bytes>> = vec![w.spec.env.get("HOME").cloned()];
    let mut dirs: Vec<Option<String>> = vec![w.spec.cwd.clone()];
    let mut named: Vec<Bytes> = w.spec.env.get("CHANOMARC").cloned().into_iter().collect();
    let plan = sc.world.faults.iter().map(|f| &f.act);
    for a in sc.setup.iter().chain(sc.tasks.iter().flatten()).filter_map(|o| if let Op::Fs(a) = &o.op { Some(a) } else { None }).chain(plan) {
        match a {
            Act::Env { key, value } if key == "HOME" => homes.push(value.clone()),
            Act::Env { key, value } if key == "CHANOMARC" => named.extend(value.clone()),
            Act::Cwd(d) => dirs.push(d.clone()),
            _ => {}
        }
    }
    let mut wp: Vec<Vec<u8>> = Vec::new();
    for d in &dirs {
        let cwd = d.as_ref().map(|d| crate::world::dec_path(d));
        wp.extend(watch.iter().map(|p| crate::world::norm(&cwd, &crate::world::dec_path(p))));
        wp.extend(named.iter().map(|v| crate::world::norm(&cwd, &v.0)));
        for h in &homes {
            let mut s = WorldSpec { cwd: d.clone(), passwd_home: w.spec.passwd_home.clone(), ..Default::default() };
            s.env.extend(h.iter().map(|h| ("HOME".to_string(), h.clone())));
            wp.extend(crate::check::rc_candidates(&s).into_iter().map(|c| c.path));
        }
    }
    wp.sort();
    wp.dedup();
    w.set_watch(wp);
    w
}

pub fn execute(sc: &'static Scenario, entropy: Option<u64>, trace: bool) -> Done {
    let mut spec = sc.world.clone();
    spec.contents = sc.contents.iter().map(|c| Bytes(render(c))).collect();
    if let Some(e) = entropy {
        spec.entropy = e;
        // other settings of the user, which nothing is documented to depend on
        let v = [None, None, Some(""), Some("1"), Some("0"), Some("ja_JP.UTF-8"), Some("C"), Some("/work")][(e >> 28) as usize % 8];
        spec.env_wild = v.map(|v| Bytes(v.as_bytes().to_vec()));
    }
    let cap = if spec.max_events == 0 { 30_000_000 } else { spec.max_events };
    unsafe {
        SCEN = sc;
        TEXTS = Box::into_raw(Box::new((0..sc.rounds.max(1)).map(|k| sc.texts.iter().map(|t| round_text(&t.get(), sc.rounds, k)).collect()).collect()));
        SHARED = Box::into_raw(Box::default());
        WANT_TRACE = trace;
        START_NS = spec.clock_ns;
    }
    let w = make_world(sc, spec, trace);
    host::install_world(w);
    if sc.logger.install {
        logger::install(&sc.logger, mix(sc.world.io_seed, 0x106));
    } else {
        log::set_max_level(log::LevelFilter::Off);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let n = sc.tasks.len().max(1);
    sched::install(&sc.sched, n, cap);
    let results: std::sync::Mutex<Vec<(u32, Vec<Res>, Vec<Res>, Vec<i64>)>> = std::sync::Mutex::new(Vec::new());
    // another process: memory elsewhere, threads of other numbers, on the main thread or not
    let mut on_main = false;
    if let Some(e) = entropy {
        if e >> 16 & 1 == 1 {
            crate::alloc::shuffle(e);
        }
        for _ in 0..(e >> 8) % 4 {
            let _ = std::thread::spawn(|| {}).join();
        }
        on_main = n == 1 && e >> 24 & 1 == 1;
    }
    std::thread::scope(|s| {
        for t in 0..n as u32 {
            let results = &results;
            let body = move || {
                sched::enter(t);
                host::set_task(t);
                let mut l = Local { pipes: BTreeMap::new(), tabs: BTreeMap::new(), buf: String::with_capacity(4096) };
                let mut setup = Vec::new();
                let mut out = Vec::new();
                let mut mem = Vec::new();
                if t == 0 {
                    run_ops(t, &mut l, &sc.setup, 0, &mut setup);
                    unsafe { *SHARED = std::mem::take(&mut l.pipes) }
                    sched::release_all();
                }
                let rounds = sc.rounds.max(1);
                for r in 0..rounds {
                    if let Some(ops) = sc.tasks.get(t as usize) {
                        run_ops(t, &mut l, ops, r * ROUND, &mut out);
                    }
                    if rounds > 1 {
                        drop_all(t, &mut l);
                        mem.push(crate::alloc::live());
                    }
                }
                drop_all(t, &mut l);
                results.lock().unwrap().push((t, setup, out, mem));
                drop(l);
                host::set_task(host::NONE);
                sched::finish(t);
            };
            if on_main {
                sched::start();
                body();
            } else {
                std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, body).unwrap();
            }
        }
        if on_main {
            sched::wait();
        } else {
            sched::run();
        }
    });
    let mut all = results.into_inner().unwrap();
    all.sort_by_key(|x| x.0);
    let mut d = Done { results: Vec::new(), setup: Vec::new(), mem: Vec::new() };
    for (t, s, o, m) in all {
        if t == 0 {
            d.setup = s;
            d.mem = m;
        }
        d.results.extend(o);
    }
    d
}
