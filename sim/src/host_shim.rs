//! Process side of the simulator: one task, the main thread of a real program.

use crate::delta::{take, Marks, Plan};
use crate::interpose::raw;
use crate::world::World;
use std::cell::Cell;

pub const PLAN_FD: usize = 10;
pub const LOG_FD: usize = 11;

thread_local! {
    static IN_SIM: Cell<u32> = const { Cell::new(0) };
}
static mut WORLD: *mut World = std::ptr::null_mut();
static mut MARKS: *mut Marks = std::ptr::null_mut();
static mut CLI: bool = false;
static mut ACTIVE: bool = false;

/// runs before main
pub extern "C" fn init() {
    unsafe {
        let mode = libc::getenv(c"DST_MODE".as_ptr());
        if mode.is_null() {
            return;
        }
        let cli = libc::strcmp(mode, c"cli".as_ptr()) == 0;
        let mut data: Vec<u8> = Vec::new();
        let mut buf = vec![0u8; 1 << 16];
        let mut off = 0usize;
        loop {
            let n = raw(libc::SYS_pread64, PLAN_FD, buf.as_mut_ptr() as usize, buf.len(), off, 0, 0);
            if n <= 0 {
                break;
            }
            off += n as usize;
            data.extend_from_slice(&buf[..n as usize]);
        }
        let plan: Plan = match serde_json::from_slice(&data) {
            Ok(p) => p,
            Err(_) => broken(),
        };
        let mut w = World::new(plan.spec, true);
        w.set_watch(plan.watch.into_iter().map(|b| b.0).collect());
        // the initial history is known to the reader
        MARKS = Box::into_raw(Box::new(Marks::after(w.history.len())));
        WORLD = Box::into_raw(Box::new(w));
        CLI = cli;
        ACTIVE = cli;
    }
}

pub fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}

#[inline]
pub fn simulated() -> Option<u32> {
    unsafe {
        if !ACTIVE || IN_SIM.with(|c| c.get()) > 0 {
            None
        } else {
            Some(0)
        }
    }
}

pub struct Guard;
impl Guard {
    #[inline]
    pub fn new() -> Guard {
        IN_SIM.with(|c| c.set(c.get() + 1));
        Guard
    }
}
impl Drop for Guard {
    #[inline]
    fn drop(&mut self) {
        IN_SIM.with(|c| c.set(c.get() - 1));
    }
}

/// the parts of the real machine the runtimes themselves live in
const REAL: [&[u8]; 9] = [b"/proc", b"/dev", b"/sys", b"/usr", b"/lib", b"/etc", b"/opt", b"/verif", b"/tmp"];

pub fn path_is_sim(p: &[u8]) -> bool {
    !REAL.iter().any(|r| p.starts_with(r))
}
pub fn stdio_is_sim() -> bool {
    unsafe { CLI }
}
pub fn cwd_is_sim() -> bool {
    true
}
pub fn env_is_sim() -> bool {
    true
}
pub fn home_is_sim() -> bool {
    true
}
pub fn time_is_sim() -> bool {
    true
}
pub fn entropy_task() -> Option<u32> {
    if unsafe { WORLD.is_null() } {
        None
    } else {
        Some(0)
    }
}
#[inline]
pub fn yield_point(_kind: &'static str) {}
pub fn give_way() {}
pub fn futex(_addr: *const u32, _op: i32, _val: u32, _has_timeout: bool, _bits: u32) -> Option<Result<i64, i32>> {
    None
}

/// appends what is new to the log, with plain system calls: it outlives any crash of the program
pub fn record() {
    unsafe {
        let d = take(world(), &mut *MARKS);
        let mut s = match serde_json::to_vec(&d) {
            Ok(s) => s,
            Err(_) => broken(),
        };
        s.push(b'\n');
        let mut i = 0;
        while i < s.len() {
            let n = raw(libc::SYS_write, LOG_FD, s.as_ptr() as usize + i, s.len() - i, 0, 0, 0);
            if n == -(libc::EINTR as isize) {
                continue;
            }
            if n <= 0 {
                broken();
            }
            i += n as usize;
        }
    }
}

/// a failure of the simulator itself: never a verdict
pub fn broken() -> ! {
    unsafe {
        let m = b"BROKEN\n";
        raw(libc::SYS_write, LOG_FD, m.as_ptr() as usize, m.len(), 0, 0, 0);
        raw(libc::SYS_exit_group, 97, 0, 0, 0, 0, 0);
    }
    loop {}
}

// ---- called by the Python driver ----

/// a call into the binding starts
#[no_mangle]
pub extern "C" fn dst_begin(op: u32) -> u64 {
    unsafe {
        let w = world();
        w.cur_op.insert(0, op);
        ACTIVE = true;
        w.seq
    }
}
#[no_mangle]
pub extern "C" fn dst_end() -> u64 {
    unsafe {
        ACTIVE = false;
        record();
        world().seq
    }
}
/// descriptors of the simulated world that are open
#[no_mangle]
pub extern "C" fn dst_fds() -> u32 {
    world().fds.len() as u32
}
/// another actor changes the file system; JSON of an Act
#[no_mangle]
pub unsafe extern "C" fn dst_fs(s: *const libc::c_char) {
    let b = std::ffi::CStr::from_ptr(s).to_bytes();
    match serde_json::from_slice::<crate::spec::Act>(b) {
        Ok(a) => {
            let w = world();
            w.seq += 1;
            w.mutate(&a);
            record();
        }
        Err(_) => broken(),
    }
}
