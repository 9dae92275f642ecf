//! What happened in the world of another process, as lines of JSON in its log.

use crate::spec::*;
use crate::world::{Vis, World};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize)]
pub struct Plan {
    pub spec: WorldSpec,
    pub watch: Vec<Bytes>,
}

#[derive(Serialize, Deserialize, Default)]
pub struct Delta {
    /// trace lines
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub t: Vec<String>,
    /// errors returned
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub e: Vec<(u32, String, i32, String)>,
    /// faults fired (totals)
    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
    pub f: BTreeMap<String, u64>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub opened: Vec<(u32, Bytes)>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub w: Vec<(u32, String)>,
    /// bytes accepted by stdout (1) and stderr (2)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub s: Vec<(u8, Bytes)>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub h: Vec<(u64, usize, Vis)>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub m: Vec<u64>,
    pub seq: u64,
    pub clock: u64,
    pub hash: u64,
    pub fds: u32,
    pub stdin: usize,
}

/// how much of the world has been reported
#[derive(Default)]
pub struct Marks {
    t: usize,
    e: usize,
    f: u64,
    opened: usize,
    w: usize,
    s: [usize; 3],
    h: usize,
    m: usize,
}

#[allow(dead_code)]
impl Marks {
    /// the first `h` entries of the history are known to the reader
    pub fn after(h: usize) -> Marks {
        Marks { h, ..Default::default() }
    }
}

#[allow(dead_code)]
pub fn take(w: &World, k: &mut Marks) -> Delta {
    let mut d = Delta { seq: w.seq, clock: w.clock_ns, hash: w.hash, fds: w.fds.len() as u32, stdin: w.stdin_pos, ..Default::default() };
    if let Some(t) = &w.trace {
        d.t = t[k.t..].to_vec();
        k.t = t.len();
    }
    d.e = w.errors[k.e..].iter().map(|e| (e.0, e.1.to_string(), e.2, e.3.clone())).collect();
    k.e = w.errors.len();
    let total: u64 = w.fired.values().sum();
    if total != k.f {
        d.f = w.fired.clone();
        k.f = total;
    }
    d.opened = w.opened[k.opened..].iter().map(|o| (o.0, Bytes(o.1.clone()))).collect();
    k.opened = w.opened.len();
    d.w = w.writes[k.w..].to_vec();
    k.w = w.writes.len();
    for i in 1..3 {
        if w.out[i].len() > k.s[i] {
            d.s.push((i as u8, Bytes(w.out[i][k.s[i]..].to_vec())));
            k.s[i] = w.out[i].len();
        }
    }
    d.h = w.history[k.h..].to_vec();
    k.h = w.history.len();
    d.m = w.mutated_in_place[k.m..].to_vec();
    k.m = w.mutated_in_place.len();
    d
}

#[allow(dead_code)]
fn class(s: &str) -> &'static str {
    for c in ["open", "read", "stat", "fstat", "realpath", "readlink", "getcwd", "getpw", "close", "lseek", "opendir", "stdin", "stdout", "stderr"] {
        if c == s {
            return c;
        }
    }
    Box::leak(s.to_string().into_boxed_str())
}

/// the record of the other process, on top of a freshly built world of the same plan
#[allow(dead_code)]
pub fn apply(w: &mut World, d: Delta) {
    if let Some(t) = &mut w.trace {
        t.extend(d.t);
    }
    w.errors.extend(d.e.into_iter().map(|e| (e.0, class(&e.1), e.2, e.3)));
    if !d.f.is_empty() {
        w.fired = d.f;
    }
    w.opened.extend(d.opened.into_iter().map(|o| (o.0, o.1 .0)));
    w.writes.extend(d.w);
    for (i, b) in d.s {
        w.out[i as usize].extend_from_slice(&b.0);
    }
    w.history.extend(d.h);
    w.mutated_in_place.extend(d.m);
    w.seq = d.seq;
    w.clock_ns = d.clock;
    w.hash = d.hash;
    w.stdin_pos = d.stdin;
}
