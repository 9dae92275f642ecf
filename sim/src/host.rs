//! Host side of the in-process simulator: who is simulated, and when.
//! A thread is simulated while it is a task of the run, inside code under test, and not inside the simulator.

use crate::sched;
use crate::world::World;
use std::cell::Cell;

pub const NONE: u32 = u32::MAX;

thread_local! {
    static TASK: Cell<u32> = const { Cell::new(NONE) };
    static CUT: Cell<u32> = const { Cell::new(0) };
    static IN_SIM: Cell<u32> = const { Cell::new(0) };
}

static mut WORLD: *mut World = std::ptr::null_mut();

pub fn install_world(w: World) {
    unsafe { WORLD = Box::into_raw(Box::new(w)) }
}

pub fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}

pub fn set_task(t: u32) {
    TASK.with(|c| c.set(t));
}

pub fn set_cut(n: u32) {
    CUT.with(|c| c.set(n));
}

#[inline]
pub fn simulated() -> Option<u32> {
    if IN_SIM.with(|c| c.get()) > 0 || CUT.with(|c| c.get()) == 0 {
        return None;
    }
    let t = TASK.with(|c| c.get());
    if t == NONE {
        None
    } else {
        Some(t)
    }
}

#[inline(always)]
pub fn in_cut() -> bool {
    CUT.with(|c| c.get()) > 0
}

// accesses counted while the simulator itself was at work (it shares monomorphised code with the library)
static mut SINCE: u64 = 0;
pub static mut OWN: u64 = 0;

pub struct Guard;
impl Guard {
    #[inline]
    pub fn new() -> Guard {
        IN_SIM.with(|c| {
            if c.get() == 0 {
                unsafe { SINCE = sched::FTOTAL }
            }
            c.set(c.get() + 1)
        });
        Guard
    }
}
impl Drop for Guard {
    #[inline]
    fn drop(&mut self) {
        IN_SIM.with(|c| {
            c.set(c.get() - 1);
            if c.get() == 0 {
                unsafe { OWN = OWN.wrapping_add(sched::FTOTAL.wrapping_sub(SINCE)) }
            }
        });
    }
}

/// Leaves the code under test for the duration of `f` (copying results out, checking).
pub fn uncut<R>(f: impl FnOnce() -> R) -> R {
    let _g = Guard::new();
    f()
}

/// Runs code under test; a panic is returned as its message.
pub fn cut<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    CUT.with(|c| c.set(c.get() + 1));
    let saved = IN_SIM.with(|c| c.get());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let r = match r {
        Ok(v) => Ok(v),
        Err(p) => {
            // (as dropping the guards would)
            while IN_SIM.with(|c| c.get()) > saved {
                drop(Guard);
            }
            let m = uncut(|| {
                p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
            });
            drop(p);
            Err(m)
        }
    };
    CUT.with(|c| c.set(c.get() - 1));
    r
}

pub fn path_is_sim(_p: &[u8]) -> bool {
    true
}
pub fn stdio_is_sim() -> bool {
    false
}
pub fn cwd_is_sim() -> bool {
    true
}
pub fn env_is_sim() -> bool {
    true
}
pub fn home_is_sim() -> bool {
    true
}
pub fn time_is_sim() -> bool {
    true
}
pub fn entropy_task() -> Option<u32> {
    let t = TASK.with(|c| c.get());
    if t == NONE || unsafe { WORLD.is_null() } {
        None
    } else {
        Some(t)
    }
}
#[inline]
pub fn yield_point(kind: &'static str) {
    if let Some(t) = simulated() {
        sched::step(t, kind, false);
    }
}
/// a point at which the running task gives way if anyone else can run
pub fn give_way() {
    if let Some(t) = simulated() {
        sched::step(t, "yield", true);
    }
}
pub fn futex(addr: *const u32, op: i32, val: u32, has_timeout: bool, bits: u32) -> Option<Result<i64, i32>> {
    let t = simulated()?;
    sched::futex(t, addr, op, val, has_timeout, bits)
}
/// (the preloaded library writes its log here)
#[inline]
pub fn record() {}
/// a panic inside the simulator itself: a harness error, never a verdict
pub fn broken() -> ! {
    unsafe {
        crate::interpose::raw(libc::SYS_exit_group, 2, 0, 0, 0, 0, 0);
    }
    loop {}
}
