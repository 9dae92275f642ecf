//! Global allocator: the system allocator, plus a scheduling point and live-byte accounting for code under test.

use crate::host;
use crate::sched;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::ptr::null_mut;

pub struct SimAlloc;

pub static mut LIVE: i64 = 0;
pub static mut ALLOCS: u64 = 0;

// the blocks that the setup allocated and has not given back, in the order of their allocation
static mut KEEP: bool = false;
static mut NEXT: u64 = 0;
static mut KEPT: Option<HashMap<usize, (u64, usize)>> = None;

/// Starts (or ends) the list of blocks.
pub fn keep(on: bool) {
    unsafe {
        KEEP = on;
        NEXT = 0;
        KEPT = Some(HashMap::new());
    }
}
/// Ends the list, and gives it.
pub fn kept() -> Vec<(usize, usize)> {
    unsafe {
        KEEP = false;
        let k: &Option<HashMap<usize, (u64, usize)>> = &*(&raw const KEPT);
        let mut v: Vec<(u64, usize, usize)> = k.iter().flatten().map(|(p, (i, n))| (*i, *p, *n)).collect();
        v.sort();
        v.into_iter().map(|(_, p, n)| (p, n)).collect()
    }
}
#[inline]
unsafe fn gone(p: *mut u8, n: usize) {
    if KEEP {
        note(p, null_mut(), 0);
    }
    sched::freed(p, n);
}
#[cold]
unsafe fn note(old: *mut u8, new: *mut u8, n: usize) {
    let _g = host::Guard::new();
    KEEP = false;
    let k: &mut Option<HashMap<usize, (u64, usize)>> = &mut *(&raw mut KEPT);
    if let Some(k) = k {
        k.remove(&(old as usize));
        if !new.is_null() {
            NEXT += 1;
            k.insert(new as usize, (NEXT, n));
        }
    }
    KEEP = true;
}

// small blocks are handed out in a random order of their addresses (0: as the system gives them)
static mut SHUFFLE: u64 = 0;
const SPARE: usize = 16;
static mut SPARES: [[*mut u8; SPARE]; 32] = [[null_mut(); SPARE]; 32];

pub fn shuffle(seed: u64) {
    unsafe { SHUFFLE = seed | 1 }
}
#[inline]
unsafe fn get(l: Layout) -> *mut u8 {
    if SHUFFLE == 0 || l.size() == 0 || l.size() > 512 || l.align() > 16 {
        return System.alloc(l);
    }
    SHUFFLE ^= SHUFFLE << 13;
    SHUFFLE ^= SHUFFLE >> 7;
    SHUFFLE ^= SHUFFLE << 17;
    let k = (l.size() - 1) / 16;
    let i = (SHUFFLE >> 24) as usize % SPARE;
    let fresh = || libc::malloc((k + 1) * 16) as *mut u8;
    if SPARES[k][i].is_null() {
        for j in 0..SPARE {
            SPARES[k][j] = fresh();
        }
    }
    std::mem::replace(&mut SPARES[k][i], fresh())
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if host::simulated().is_some() {
            LIVE += l.size() as i64;
            ALLOCS += 1;
            let p = get(l);
            if KEEP {
                note(null_mut(), p, l.size());
            }
            host::yield_point("alloc");
            return p;
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if host::simulated().is_some() {
            LIVE -= l.size() as i64;
        }
        gone(p, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if host::simulated().is_some() {
            LIVE += n as i64 - l.size() as i64;
            ALLOCS += 1;
            gone(p, l.size());
            let p = System.realloc(p, l, n);
            if KEEP {
                note(null_mut(), p, n);
            }
            host::yield_point("alloc");
            return p;
        }
        gone(p, l.size());
        System.realloc(p, l, n)
    }
}

pub fn live() -> i64 {
    unsafe { LIVE }
}
