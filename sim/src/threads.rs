//! Threads the code under test starts become tasks of the run.

use crate::host;
use crate::sched;
use libc::{c_char, c_int, c_void};
use std::collections::BTreeMap;

struct Start {
    id: u32,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
}

static mut IDS: BTreeMap<usize, u32> = BTreeMap::new();

#[allow(static_mut_refs)]
fn ids() -> &'static mut BTreeMap<usize, u32> {
    unsafe { &mut IDS }
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    let (id, f, arg) = (s.id, s.f, s.arg);
    drop(s);
    sched::enter(id);
    host::set_task(id);
    host::set_cut(1);
    let r = f(arg);
    host::set_cut(0);
    host::set_task(host::NONE);
    sched::finish(id);
    r
}

type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
type Join = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;

fn real(name: &'static [u8]) -> usize {
    unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char) as usize }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    if host::simulated().is_some() {
        let r = {
            let _g = host::Guard::new();
            let create: Create = std::mem::transmute(real(b"pthread_create\0"));
            let id = sched::adopt();
            let b = Box::into_raw(Box::new(Start { id, f, arg }));
            let r = create(t, attr, trampoline, b as *mut c_void);
            if r == 0 {
                ids().insert(*t as usize, id);
            } else {
                sched::unadopt(id);
            }
            r
        };
        host::yield_point("spawn");
        return r;
    }
    let create: Create = std::mem::transmute(real(b"pthread_create\0"));
    create(t, attr, f, arg)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    if let Some(me) = host::simulated() {
        let id = {
            let _g = host::Guard::new();
            ids().remove(&(t as usize))
        };
        if let Some(id) = id {
            sched::join(me, id);
        }
    }
    let join: Join = std::mem::transmute(real(b"pthread_join\0"));
    join(t, out)
}
