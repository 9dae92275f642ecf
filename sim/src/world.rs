//! The simulated machine: file system, descriptors, streams, environment, clock, entropy, fault plan, event log.

use crate::rng::{mix, Rng};
use crate::spec::*;
use libc::c_int;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
enum Inner {
    File(usize),
    Dir,
    Link(Vec<u8>),
}

struct Inode {
    data: Vec<u8>,
    content: usize,
    mtime_ns: u64,
    number: u64,
}

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Vis {
    Absent,
    Dir,
    File(usize),
}

pub struct OpenFile {
    pub ino: Option<usize>, // None: directory
    pub pos: u64,
    pub path: Vec<u8>,
    pub op: u32,
}

pub const FD_BASE: c_int = 1 << 20;

pub struct Stat {
    pub mode: u32,
    pub size: u64,
    pub ino: u64,
    pub mtime_ns: u64,
}

pub struct World {
    pub spec: WorldSpec,
    tree: BTreeMap<Vec<u8>, Inner>,
    inodes: Vec<Inode>,
    pub fds: BTreeMap<c_int, OpenFile>,
    next_fd: c_int,
    pub env: BTreeMap<String, Vec<u8>>,
    pub cwd: Option<Vec<u8>>,
    pub clock_ns: u64,
    /// how far the clock of the day is off
    pub skew_ns: i64,
    pub seq: u64,
    pub hash: u64,
    io_rng: Rng,
    entropy: BTreeMap<u32, Rng>,
    pub cur_op: BTreeMap<u32, u32>,
    counts: BTreeMap<(u32, &'static str), u32>,
    /// environment and working directory after each change made by the program around the library
    pub around: Vec<(u64, BTreeMap<String, Vec<u8>>, Option<Vec<u8>>)>,
    used: Vec<bool>,
    pub fired: BTreeMap<String, u64>,
    /// (op, class, errno, path) of every error that was really returned because of the plan
    pub errors: Vec<(u32, &'static str, i32, String)>,
    pub mutated_in_place: Vec<u64>,
    pub watch: Vec<Vec<u8>>,
    pub history: Vec<(u64, usize, Vis)>,
    /// files opened: (op, path as resolved)
    pub opened: Vec<(u32, Vec<u8>)>,
    /// attempts to modify the file system, environment, working directory: (op, description)
    pub writes: Vec<(u32, String)>,
    pub stdin_pos: usize,
    pub out: [Vec<u8>; 3],
    pub events: u64,
    pub trace: Option<Vec<String>>,
    pub io_calls: BTreeMap<&'static str, u64>,
    pub want_switch: bool,
}

pub fn dec_path(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let Ok(x) = u8::from_str_radix(&s[i + 1..i + 3], 16) {
                v.push(x);
                i += 3;
                continue;
            }
        }
        v.push(b[i]);
        i += 1;
    }
    v
}

/// printable and reversible (see dec_path): bytes outside ASCII text that are not UTF-8, and %, become %XX
pub fn lossy(p: &[u8]) -> String {
    match std::str::from_utf8(p) {
        Ok(s) => s.replace('%', "%25"),
        Err(_) => p.iter().map(|b| if *b == b'%' || *b >= 0x80 { format!("%{:02X}", b) } else { (*b as char).to_string() }).collect(),
    }
}

impl World {
    pub fn new(spec: WorldSpec, trace: bool) -> World {
        let mut w = World {
            tree: BTreeMap::new(),
            inodes: Vec::new(),
            fds: BTreeMap::new(),
            next_fd: FD_BASE,
            env: spec.env.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect(),
            cwd: spec.cwd.as_ref().map(|c| dec_path(c)),
            clock_ns: spec.clock_ns,
            skew_ns: 0,
            seq: 0,
            hash: 0xcbf2_9ce4_8422_2325,
            io_rng: Rng::new(mix(spec.io_seed, 0x10)),
            entropy: BTreeMap::new(),
            cur_op: BTreeMap::new(),
            counts: BTreeMap::new(),
            used: vec![false; spec.faults.len()],
            fired: BTreeMap::new(),
            errors: Vec::new(),
            mutated_in_place: Vec::new(),
            around: Vec::new(),
            watch: Vec::new(),
            history: Vec::new(),
            opened: Vec::new(),
            writes: Vec::new(),
            stdin_pos: 0,
            out: [Vec::new(), Vec::new(), Vec::new()],
            events: 0,
            trace: if trace { Some(Vec::new()) } else { None },
            io_calls: BTreeMap::new(),
            want_switch: false,
            spec,
        };
        for f in w.spec.files.clone() {
            w.put(&f.path, &f.node);
        }
        w
    }

    pub fn set_watch(&mut self, paths: Vec<Vec<u8>>) {
        self.watch = paths;
        for i in 0..self.watch.len() {
            let v = self.visible(&self.watch[i].clone());
            self.history.push((0, i, v));
        }
    }

    fn note_history(&mut self) {
        for i in 0..self.watch.len() {
            let v = self.visible(&self.watch[i].clone());
            let last = self.history.iter().rev().find(|h| h.1 == i).map(|h| h.2.clone());
            if last != Some(v.clone()) {
                self.history.push((self.seq, i, v));
            }
        }
    }

    // ---- tree ----

    fn new_inode(&mut self, content: usize) -> usize {
        let data = self.spec.contents.get(content).map(|b| b.0.clone()).unwrap_or_default();
        let k = self.inodes.len() as u64;
        let mtime_ns = self.stamp(k);
        // numbers of removed files are used again by most file systems
        let number = if mix(self.spec.io_seed, 0x1D) % 3 == 0 { 100 + k % 2 } else { 100 + k };
        self.inodes.push(Inode { data, content, mtime_ns, number });
        self.inodes.len() - 1
    }

    pub fn wall(&self) -> u64 {
        self.clock_ns.saturating_add_signed(self.skew_ns)
    }

    /// modification time of a file written now: coarse, preserved from elsewhere, or meaningless, as file systems and copying tools have it
    fn stamp(&self, k: u64) -> u64 {
        match mix(self.spec.io_seed, 0x57) % 5 {
            0 => 0,
            1 => self.wall() / 1_000_000_000 * 1_000_000_000,
            2 => self.wall() / 4_000_000 * 4_000_000,
            3 => self.wall(),
            _ => mix(self.spec.io_seed, 1000 + k) % 4_000_000_000 * 1_000_000_000,
        }
    }

    pub fn put(&mut self, path: &str, node: &Node) {
        let inner = match node {
            Node::File(c) => Inner::File(self.new_inode(*c)),
            Node::Dir => Inner::Dir,
            Node::Link(t) => Inner::Link(dec_path(t)),
        };
        let p = dec_path(path);
        self.tree.insert(p, inner);
    }

    fn lookup(&self, p: &[u8]) -> Option<Inner> {
        if let Some(n) = self.tree.get(p) {
            return Some(n.clone());
        }
        if p == b"/" || p.is_empty() {
            return Some(Inner::Dir);
        }
        let mut pre = p.to_vec();
        pre.push(b'/');
        if let Some((k, _)) = self.tree.range(pre.clone()..).next() {
            if k.starts_with(&pre) {
                return Some(Inner::Dir);
            }
        }
        if let Some(c) = &self.cwd {
            if c == p || c.starts_with(&pre) {
                return Some(Inner::Dir);
            }
        }
        None
    }

    /// canonical path of `path`, following links
    fn resolve(&self, path: &[u8], follow_last: bool) -> Result<Vec<u8>, i32> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        let mut pending: Vec<Vec<u8>> = Vec::new();
        let mut cur: Vec<u8> = Vec::new();
        let push = |pending: &mut Vec<Vec<u8>>, p: &[u8]| {
            let comps: Vec<Vec<u8>> = p.split(|b| *b == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect();
            for c in comps.into_iter().rev() {
                pending.push(c);
            }
        };
        if path[0] != b'/' {
            match &self.cwd {
                Some(c) => cur = c.clone(),
                None => return Err(libc::ENOENT),
            }
        }
        push(&mut pending, path);
        let mut links = 0;
        while let Some(c) = pending.pop() {
            match self.lookup(&cur) {
                Some(Inner::Dir) => {}
                Some(_) => return Err(libc::ENOTDIR),
                None => return Err(libc::ENOENT),
            }
            if c == b"." {
                continue;
            }
            if c == b".." {
                while let Some(b) = cur.pop() {
                    if b == b'/' {
                        break;
                    }
                }
                continue;
            }
            let mut next = cur.clone();
            next.push(b'/');
            next.extend_from_slice(&c);
            match self.lookup(&next) {
                Some(Inner::Link(t)) if !pending.is_empty() || follow_last => {
                    links += 1;
                    if links > 16 {
                        return Err(libc::ELOOP);
                    }
                    if t.first() == Some(&b'/') {
                        cur.clear();
                    }
                    push(&mut pending, &t);
                }
                _ => cur = next,
            }
        }
        if path.last() == Some(&b'/') && !matches!(self.lookup(&cur), Some(Inner::Dir) | None) {
            return Err(libc::ENOTDIR);
        }
        if cur.is_empty() {
            cur.push(b'/');
        }
        Ok(cur)
    }

    pub fn visible(&self, path: &[u8]) -> Vis {
        match self.resolve(path, true) {
            Err(_) => Vis::Absent,
            Ok(p) => match self.lookup(&p) {
                None | Some(Inner::Link(_)) => Vis::Absent,
                Some(Inner::Dir) => Vis::Dir,
                Some(Inner::File(i)) => Vis::File(self.inodes[i].content),
            },
        }
    }

    // ---- events ----

    fn mixin(&mut self, s: &str) {
        let mut h = self.hash;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x1_0000_0000_01b3);
        }
        self.hash = h;
    }

    pub fn log(&mut self, s: &str) {
        self.mixin(s);
        if let Some(t) = &mut self.trace {
            t.push(format!("{:>5} t={}us {}", self.seq, self.clock_ns / 1000, s));
        }
    }

    /// calls of an operation that reach outside the process, other than to a writer the caller gave it
    pub fn calls_of(&self, op: u32) -> Vec<(&'static str, u32)> {
        self.counts.iter().filter(|(k, _)| k.0 == op && !["any", "writer", "flush"].contains(&k.1)).map(|(k, n)| (k.1, *n)).collect()
    }

    pub fn mutate(&mut self, a: &Act) {
        match a {
            Act::Set { path, node } => {
                self.put(path, node);
                *self.fired.entry("fs:replace".into()).or_insert(0) += 1;
            }
            Act::Remove { path } => {
                self.tree.remove(&dec_path(path));
                *self.fired.entry("fs:remove".into()).or_insert(0) += 1;
            }
            Act::InPlace { path, content } => {
                let data = self.spec.contents.get(*content).map(|b| b.0.clone()).unwrap_or_default();
                let p = dec_path(path);
                let r = self.resolve(&p, true).ok().and_then(|p| self.lookup(&p));
                if let Some(Inner::File(i)) = r {
                    self.inodes[i].mtime_ns = self.stamp(self.seq + 77);
                    self.inodes[i].data = data;
                    self.inodes[i].content = *content;
                    self.mutated_in_place.push(self.seq);
                } else {
                    self.put(path, &Node::File(*content));
                }
                *self.fired.entry("fs:rewrite".into()).or_insert(0) += 1;
            }
            Act::Env { key, value } => {
                match value {
                    Some(v) => self.env.insert(key.clone(), v.0.clone()),
                    None => self.env.remove(key),
                };
                *self.fired.entry("env:change".into()).or_insert(0) += 1;
            }
            Act::Cwd(d) => {
                self.cwd = d.as_ref().map(|d| dec_path(d));
                *self.fired.entry("cwd:change".into()).or_insert(0) += 1;
            }
            Act::Clock(ms) => {
                self.skew_ns = self.skew_ns.saturating_add(ms.saturating_mul(1_000_000));
                *self.fired.entry("clock:jump".into()).or_insert(0) += 1;
            }
            _ => {}
        }
        if let Act::Env { .. } | Act::Cwd(_) = a {
            self.around.push((self.seq, self.env.clone(), self.cwd.clone()));
        }
        self.log(&format!("fs actor: {:?}", a));
        self.note_history();
    }

    /// One intercepted call. Applies what the plan schedules for it.
    pub fn event(&mut self, task: u32, class: &'static str, what: &str) -> Option<Act> {
        self.seq += 1;
        self.events += 1;
        let lat = 1_000 + self.io_rng.below(200_000);
        self.clock_ns += lat;
        *self.io_calls.entry(class).or_insert(0) += 1;
        let op = *self.cur_op.get(&task).unwrap_or(&0);
        let n = {
            let c = self.counts.entry((op, class)).or_insert(0);
            *c += 1;
            *c - 1
        };
        let any = {
            let c = self.counts.entry((op, "any")).or_insert(0);
            *c += 1;
            *c - 1
        };
        self.log(&format!("task {} op {} {}#{} {}", task, op, class, n, what));
        let mut result = None;
        for i in 0..self.spec.faults.len() {
            if self.used[i] {
                continue;
            }
            let f = self.spec.faults[i].clone();
            if f.op != op {
                continue;
            }
            let hit = if f.class == "any" { f.n == any } else { f.class == class && f.n == n };
            if !hit {
                continue;
            }
            self.used[i] = true;
            match &f.act {
                Act::Set { .. } | Act::Remove { .. } | Act::InPlace { .. } | Act::Env { .. } | Act::Cwd(_) | Act::Clock(_) => self.mutate(&f.act),
                Act::Switch => {
                    self.want_switch = true;
                    *self.fired.entry("sched:switch".into()).or_insert(0) += 1;
                }
                Act::Errno(e) => {
                    *self.fired.entry(format!("{}:{}", class, errno_name(*e))).or_insert(0) += 1;
                    self.errors.push((op, class, *e, what.to_string()));
                    self.log(&format!("  -> {}", errno_name(*e)));
                    result = Some(f.act.clone());
                }
                Act::Short(_) => {
                    *self.fired.entry(format!("{}:short", class)).or_insert(0) += 1;
                    result = Some(f.act.clone());
                }
            }
        }
        result
    }

    pub fn open(&mut self, task: u32, path: &[u8], flags: c_int) -> Result<c_int, i32> {
        let act = self.event(task, "open", &lossy(path));
        let op = *self.cur_op.get(&task).unwrap_or(&0);
        if flags & (libc::O_ACCMODE) != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0 {
            self.writes.push((op, format!("open for writing {}", lossy(path))));
            return Err(libc::EROFS);
        }
        if let Some(Act::Errno(e)) = act {
            return Err(e);
        }
        let p = self.resolve(path, flags & libc::O_NOFOLLOW == 0)?;
        let ino = match self.lookup(&p) {
            None => return Err(libc::ENOENT),
            Some(Inner::Link(_)) => return Err(libc::ELOOP),
            Some(Inner::Dir) => None,
            Some(Inner::File(i)) => {
                if flags & libc::O_DIRECTORY != 0 {
                    return Err(libc::ENOTDIR);
                }
                Some(i)
            }
        };
        let fd = self.next_fd;
        self.next_fd += 1;
        self.opened.push((op, norm(&self.cwd, path)));
        self.fds.insert(fd, OpenFile { ino, pos: 0, path: p, op });
        Ok(fd)
    }

    pub fn amount(&mut self, chunk: Chunk, want: usize, act: &Option<Act>) -> usize {
        let mut n = match chunk {
            Chunk::Whole => want,
            Chunk::Fixed(k) => want.min(k.max(1) as usize),
            Chunk::Random(k) => {
                let k = 1 + self.io_rng.below(k.max(1) as u64) as usize;
                want.min(k)
            }
        };
        if let Some(Act::Short(k)) = act {
            n = n.min((*k).max(1) as usize);
        }
        n
    }

    pub fn read(&mut self, task: u32, fd: c_int, len: usize, at: Option<u64>) -> Result<Vec<u8>, i32> {
        let name = self.fds.get(&fd).map(|f| lossy(&f.path)).unwrap_or_default();
        let act = self.event(task, "read", &name);
        if let Some(Act::Errno(e)) = act {
            return Err(e);
        }
        let (ino, pos) = match self.fds.get(&fd) {
            None => return Err(libc::EBADF),
            Some(f) => match f.ino {
                None => return Err(libc::EISDIR),
                Some(i) => (i, at.unwrap_or(f.pos)),
            },
        };
        // a rewrite in place may have made the file shorter than the position
        let pos = pos.min(self.inodes[ino].data.len() as u64);
        let avail = self.inodes[ino].data.len() - pos as usize;
        let mut n = avail.min(len);
        if n > 0 {
            let chunk = self.spec.read_chunk;
            let m = self.amount(chunk, n, &act);
            if m < n {
                *self.fired.entry("read:split".into()).or_insert(0) += 1;
            }
            n = m;
        }
        let out = self.inodes[ino].data[pos as usize..pos as usize + n].to_vec();
        if at.is_none() {
            self.fds.get_mut(&fd).unwrap().pos = pos + n as u64;
        }
        self.log(&format!("  -> {} bytes at {}", n, pos));
        Ok(out)
    }

    pub fn lseek(&mut self, fd: c_int, off: i64, whence: c_int) -> Result<i64, i32> {
        let (size, pos) = match self.fds.get(&fd) {
            None => return Err(libc::EBADF),
            Some(f) => (f.ino.map(|i| self.inodes[i].data.len() as i64).unwrap_or(0), f.pos as i64),
        };
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => pos,
            libc::SEEK_END => size,
            _ => return Err(libc::EINVAL),
        };
        let n = base + off;
        if n < 0 {
            return Err(libc::EINVAL);
        }
        self.fds.get_mut(&fd).unwrap().pos = n as u64;
        Ok(n)
    }

    pub fn close(&mut self, task: u32, fd: c_int) -> Result<(), i32> {
        // a close never fails here: POSIX leaves the descriptor state undefined if it does
        let name = self.fds.get(&fd).map(|f| lossy(&f.path)).unwrap_or_default();
        self.event(task, "close", &name);
        self.fds.remove(&fd).map(|_| ()).ok_or(libc::EBADF)
    }

    fn stat_of(&self, n: Option<Inner>) -> Result<Stat, i32> {
        match n {
            None => Err(libc::ENOENT),
            Some(Inner::Dir) => Ok(Stat { mode: libc::S_IFDIR | 0o755, size: 4096, ino: 1, mtime_ns: self.spec.clock_ns }),
            Some(Inner::Link(t)) => Ok(Stat { mode: libc::S_IFLNK | 0o777, size: t.len() as u64, ino: 2, mtime_ns: self.spec.clock_ns }),
            Some(Inner::File(i)) => Ok(Stat {
                mode: libc::S_IFREG | 0o644,
                size: self.inodes[i].data.len() as u64,
                ino: self.inodes[i].number,
                mtime_ns: self.inodes[i].mtime_ns,
            }),
        }
    }

    pub fn stat(&mut self, task: u32, path: &[u8], follow: bool) -> Result<Stat, i32> {
        if let Some(Act::Errno(e)) = self.event(task, "stat", &lossy(path)) {
            return Err(e);
        }
        let p = self.resolve(path, follow)?;
        self.stat_of(self.lookup(&p))
    }

    pub fn fstat(&mut self, task: u32, fd: c_int) -> Result<Stat, i32> {
        // class of its own: loaders treat the size only as a hint, so an error here says nothing about the data
        if let Some(Act::Errno(e)) = self.event(task, "fstat", "") {
            return Err(e);
        }
        match self.fds.get(&fd) {
            None => Err(libc::EBADF),
            Some(f) => match f.ino {
                None => self.stat_of(Some(Inner::Dir)),
                Some(i) => self.stat_of(Some(Inner::File(i))),
            },
        }
    }

    pub fn realpath(&mut self, task: u32, path: &[u8]) -> Result<Vec<u8>, i32> {
        if let Some(Act::Errno(e)) = self.event(task, "realpath", &lossy(path)) {
            return Err(e);
        }
        let p = self.resolve(path, true)?;
        match self.lookup(&p) {
            None | Some(Inner::Link(_)) => Err(libc::ENOENT),
            _ => Ok(p),
        }
    }

    pub fn readlink(&mut self, task: u32, path: &[u8]) -> Result<Vec<u8>, i32> {
        if let Some(Act::Errno(e)) = self.event(task, "stat", &lossy(path)) {
            return Err(e);
        }
        let p = self.resolve(path, false)?;
        match self.lookup(&p) {
            Some(Inner::Link(t)) => Ok(t),
            None => Err(libc::ENOENT),
            _ => Err(libc::EINVAL),
        }
    }

    pub fn list(&mut self, task: u32, path: &[u8]) -> Result<Vec<(Vec<u8>, u8)>, i32> {
        if let Some(Act::Errno(e)) = self.event(task, "opendir", &lossy(path)) {
            return Err(e);
        }
        let p = self.resolve(path, true)?;
        match self.lookup(&p) {
            None => return Err(libc::ENOENT),
            Some(Inner::Dir) => {}
            _ => return Err(libc::ENOTDIR),
        }
        let mut pre = p.clone();
        if pre != b"/" {
            pre.push(b'/');
        }
        let mut names: BTreeMap<Vec<u8>, u8> = BTreeMap::new();
        for (k, v) in &self.tree {
            if k.starts_with(&pre) && k.len() > pre.len() {
                let rest = &k[pre.len()..];
                match rest.iter().position(|b| *b == b'/') {
                    Some(i) => {
                        names.insert(rest[..i].to_vec(), libc::DT_DIR);
                    }
                    None => {
                        let t = match v {
                            Inner::File(_) => libc::DT_REG,
                            Inner::Dir => libc::DT_DIR,
                            Inner::Link(_) => libc::DT_LNK,
                        };
                        names.insert(rest.to_vec(), t);
                    }
                }
            }
        }
        // directory order is unspecified: shuffle it
        let mut v: Vec<_> = names.into_iter().collect();
        let mut r = self.io_rng.fork();
        r.shuffle(&mut v);
        Ok(v)
    }

    pub fn getcwd(&mut self, task: u32) -> Result<Vec<u8>, i32> {
        if let Some(Act::Errno(e)) = self.event(task, "getcwd", "") {
            return Err(e);
        }
        self.cwd.clone().ok_or(libc::ENOENT)
    }

    pub fn random(&mut self, task: u32, buf: &mut [u8]) {
        let seed = mix(self.spec.entropy, 0xE17 + task as u64);
        let r = self.entropy.entry(task).or_insert_with(|| Rng::new(seed));
        for c in buf.chunks_mut(8) {
            let x = r.next().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&x[..n]);
        }
        self.seq += 1;
        let h = self.seq;
        self.mixin(&format!("rnd {} {}", task, h));
    }

    pub fn stdin_read(&mut self, task: u32, len: usize) -> Result<Vec<u8>, i32> {
        let act = self.event(task, "stdin", "");
        if let Some(Act::Errno(e)) = act {
            return Err(e);
        }
        let data = self.spec.stdin.clone().unwrap_or_default().0;
        let avail = data.len() - self.stdin_pos;
        let mut n = avail.min(len);
        if n > 0 {
            let chunk = self.spec.read_chunk;
            n = self.amount(chunk, n, &act);
        }
        let v = data[self.stdin_pos..self.stdin_pos + n].to_vec();
        self.stdin_pos += n;
        self.log(&format!("  -> {} bytes", n));
        Ok(v)
    }

    pub fn out_write(&mut self, task: u32, which: usize, class: &'static str, data: &[u8]) -> Result<usize, i32> {
        let act = self.event(task, class, "");
        if let Some(Act::Errno(e)) = act {
            return Err(e);
        }
        if data.is_empty() {
            return Ok(0);
        }
        let chunk = self.spec.write_chunk;
        let n = self.amount(chunk, data.len(), &act);
        if n < data.len() {
            *self.fired.entry(format!("{}:split", class)).or_insert(0) += 1;
        }
        self.out[which].extend_from_slice(&data[..n]);
        // the text on stderr carries timestamps and map orders; only its length class is left out of the log
        if which != 2 {
            self.log(&format!("  -> wrote {} of {}", n, data.len()));
        }
        Ok(n)
    }
}

pub fn norm(cwd: &Option<Vec<u8>>, path: &[u8]) -> Vec<u8> {
    let mut p = if path.first() == Some(&b'/') { Vec::new() } else { cwd.clone().unwrap_or_default() };
    for c in path.split(|b| *b == b'/') {
        if c.is_empty() || c == b"." {
            continue;
        }
        p.push(b'/');
        p.extend_from_slice(c);
    }
    p
}

pub fn errno_name(e: i32) -> String {
    match e {
        libc::EIO => "EIO".into(),
        libc::EINTR => "EINTR".into(),
        libc::EACCES => "EACCES".into(),
        libc::EPERM => "EPERM".into(),
        libc::EMFILE => "EMFILE".into(),
        libc::ENFILE => "ENFILE".into(),
        libc::ENOMEM => "ENOMEM".into(),
        libc::ENOENT => "ENOENT".into(),
        libc::ESTALE => "ESTALE".into(),
        libc::EISDIR => "EISDIR".into(),
        libc::ENOSPC => "ENOSPC".into(),
        libc::EPIPE => "EPIPE".into(),
        libc::EAGAIN => "EAGAIN".into(),
        libc::ELOOP => "ELOOP".into(),
        libc::ETIMEDOUT => "ETIMEDOUT".into(),
        libc::EDQUOT => "EDQUOT".into(),
        _ => format!("errno{}", e),
    }
}
