//! The simulated log sink: slow (it yields), flaky about its level, re-entrant, panicking.

use crate::host;
use crate::rng::Rng;
use crate::scenario::LoggerSpec;
use std::cell::Cell;
use std::collections::BTreeMap;

pub struct Sink {
    pub spec: LoggerSpec,
    pub rng: Rng,
    counts: BTreeMap<(u32, u32), u32>,
    pub records: u64,
    pub panicked: Vec<(u32, u32)>,
    pub pipe: Option<chanoma::Chanoma>,
    /// results of re-entrant calls
    pub reentered: Vec<Result<String, String>>,
    pub flips: u64,
    pub refused: u64,
}

static mut SINK: *mut Sink = std::ptr::null_mut();
pub fn sink() -> Option<&'static mut Sink> {
    unsafe {
        if SINK.is_null() {
            None
        } else {
            Some(&mut *SINK)
        }
    }
}

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

struct Front;
static FRONT: Front = Front;

pub const REENTER_TEXT: &str = "ﾊﾟｰー  Ａ b~は゛";

pub fn level(n: u8) -> log::LevelFilter {
    match n {
        0 => log::LevelFilter::Off,
        1 => log::LevelFilter::Error,
        2 => log::LevelFilter::Warn,
        3 => log::LevelFilter::Info,
        4 => log::LevelFilter::Debug,
        _ => log::LevelFilter::Trace,
    }
}

/// (in a thread of its own: its hash seeds come from this run's entropy)
fn own_pipe() -> chanoma::Chanoma {
    std::thread::spawn(|| {
        let _g = crate::host::Guard::new();
        crate::host::set_task(9_999);
        let p = chanoma::Chanoma::neologdn();
        crate::host::set_task(crate::host::NONE);
        p
    })
    .join()
    .unwrap()
}

pub fn install(spec: &LoggerSpec, seed: u64) {
    let s = Sink {
        spec: spec.clone(),
        rng: Rng::new(seed),
        counts: BTreeMap::new(),
        records: 0,
        panicked: Vec::new(),
        pipe: if spec.reenter > 0 { Some(own_pipe()) } else { None },
        reentered: Vec::new(),
        flips: 0,
        refused: 0,
    };
    unsafe { SINK = Box::into_raw(Box::new(s)) }
    log::set_logger(&FRONT).unwrap();
    log::set_max_level(level(spec.level));
}

impl log::Log for Front {
    fn enabled(&self, m: &log::Metadata) -> bool {
        if let Some(t) = host::simulated() {
            let ok = host::uncut(|| {
                let s = sink().unwrap();
                let ok = s.spec.flaky == 0 || !s.rng.chance(s.spec.flaky as u64, 100);
                if !ok {
                    s.refused += 1;
                }
                host::world().log(&format!("task {} log enabled? {} -> {}", t, m.level(), ok));
                ok
            });
            host::yield_point("log");
            return ok;
        }
        true
    }
    fn log(&self, r: &log::Record) {
        let t = match host::simulated() {
            Some(t) => t,
            None => return,
        };
        // formatting runs library code (Debug impls), so it is simulated like the rest
        let text = format!("{}", r.args());
        let len = text.len();
        drop(text);
        host::yield_point("log");
        let depth = DEPTH.with(|d| d.get());
        let (n, panics, reenter) = host::uncut(|| {
            let s = sink().unwrap();
            let w = host::world();
            let op = *w.cur_op.get(&t).unwrap_or(&0);
            let c = s.counts.entry((t, op)).or_insert(0);
            *c += 1;
            let n = *c - 1;
            s.records += 1;
            w.log(&format!("task {} op {} log record #{} of {} bytes", t, op, n, len));
            if s.spec.flip > 0 && s.records % s.spec.flip as u64 == 0 {
                let l = s.rng.below(6) as u8;
                log::set_max_level(level(l));
                s.flips += 1;
                w.log(&format!("log level becomes {}", l));
            }
            let p = depth == 0 && s.spec.panics.contains(&(op, n));
            if p {
                s.panicked.push((t, op));
                w.log("log sink panics");
            }
            (n, p, depth == 0 && s.spec.reenter > 0 && s.records % s.spec.reenter as u64 == 0)
        });
        let _ = n;
        if reenter {
            DEPTH.with(|d| d.set(1));
            let p = sink().unwrap().pipe.as_ref().unwrap();
            let r = host::cut(|| {
                let a = p.normalize(REENTER_TEXT);
                let b = host::uncut(|| a.clone());
                drop(a);
                b
            });
            host::uncut(|| sink().unwrap().reentered.push(r));
            DEPTH.with(|d| d.set(0));
        }
        if panics {
            panic!("log sink failed");
        }
        host::yield_point("log");
    }
    fn flush(&self) {}
}
