//! Judges one finished run against the reference model and the recorded world history.

use crate::exec::{Done, Out, Res, Violation};
use crate::host;
use crate::logger;
use crate::model::*;
use crate::scenario::*;
use crate::spec::*;
use crate::world::{norm, Vis, World};
use std::collections::{BTreeMap, BTreeSet};

pub struct Cand {
    pub path: Vec<u8>,
    pub dir: u8, // 0: ~/.config/chanoma, 1: ~, 2: working directory
}

pub fn home_of(w: &WorldSpec) -> Option<Vec<u8>> {
    match w.env.get("HOME") {
        Some(h) if !h.0.is_empty() => Some(h.0.clone()),
        _ => w.passwd_home.as_ref().map(|h| h.clone().into_bytes()),
    }
}

/// documented places, in the documented order
pub fn rc_candidates(w: &WorldSpec) -> Vec<Cand> {
    let cwd = w.cwd.as_ref().map(|c| crate::world::dec_path(c));
    let mut dirs: Vec<(u8, Vec<u8>)> = Vec::new();
    if let Some(h) = home_of(w) {
        let mut d = h.clone();
        d.extend_from_slice(b"/.config/chanoma");
        dirs.push((0, d));
        dirs.push((1, h));
    }
    if let Some(c) = &cwd {
        dirs.push((2, c.clone()));
    }
    let mut v = Vec::new();
    for (i, d) in dirs {
        for n in ["chanomarc", ".chanomarc"] {
            for e in ["csv", "yaml", "yml"] {
                let mut p = d.clone();
                p.extend_from_slice(format!("/{}.{}", n, e).as_bytes());
                v.push(Cand { path: norm(&cwd, &p), dir: i });
            }
        }
    }
    v
}

#[derive(Clone)]
enum Pipe {
    Unknown,
    Cands(Vec<Vec<Step>>),
}

#[derive(Clone)]
struct Tab {
    /// None: contents promise nothing
    cands: Option<Vec<BTreeSet<Pair>>>,
    canonical: bool,
    /// made by hand without a mapping twice: canonical after any edit
    distinct: bool,
}

/// what a load may legitimately have produced
pub struct Loads<T> {
    pub wild: bool,
    pub ok: Vec<T>,
    pub err_ok: bool,
}

pub struct Checker<'a> {
    sc: &'a Scenario,
    w: &'a World,
    texts: Vec<String>,
    shared: BTreeMap<u32, Pipe>,
    order: BTreeMap<BTreeSet<Pair>, Vec<Pair>>,
    exported: BTreeMap<Vec<Pair>, Vec<u8>>,
    /// what modifiers_from_yaml_path gave for which bytes
    loaded: BTreeMap<Vec<u8>, String>,
    pub counters: BTreeMap<String, u64>,
}

type V = Result<(), Violation>;

fn viol<T>(kind: &str, msg: String) -> Result<T, Violation> {
    Err(Violation { kind: kind.into(), msg })
}

fn cut_str(s: &str) -> String {
    if s.chars().count() > 160 {
        format!("{}… ({} bytes)", s.chars().take(160).collect::<String>(), s.len())
    } else {
        s.to_string()
    }
}

fn diff(a: &str, b: &str) -> String {
    let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let i = x.iter().zip(y.iter()).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
    let w = |v: &[char]| v[i.saturating_sub(8).min(v.len())..(i + 24).min(v.len())].iter().collect::<String>();
    format!("first difference at character {}: {:?} / {:?}", i, w(&x), w(&y))
}

impl<'a> Checker<'a> {
    pub fn new(sc: &'a Scenario) -> Checker<'a> {
        Checker::with(sc, host::world())
    }

    /// judges against the record of a world that ran elsewhere
    pub fn with(sc: &'a Scenario, w: &'a World) -> Checker<'a> {
        Checker {
            sc,
            w,
            texts: sc.texts.iter().map(|t| t.get()).collect(),
            shared: BTreeMap::new(),
            order: BTreeMap::new(),
            exported: BTreeMap::new(),
            loaded: BTreeMap::new(),
            counters: BTreeMap::new(),
        }
    }

    fn count(&mut self, k: &str) {
        *self.counters.entry(k.into()).or_insert(0) += 1;
    }

    fn visible(&self, path: &[u8], start: u64, end: u64) -> Vec<Vis> {
        let i = match self.w.watch.iter().position(|p| p == path) {
            Some(i) => i,
            None => return vec![Vis::Absent],
        };
        let mut out: Vec<Vis> = Vec::new();
        let mut last = Vis::Absent;
        for (seq, k, v) in &self.w.history {
            if *k != i {
                continue;
            }
            if *seq <= start {
                last = v.clone();
            } else if *seq <= end {
                out.push(v.clone());
            }
        }
        out.insert(0, last);
        out
    }

    /// environment and working directory an operation starts with
    fn around(&self, r: &Res) -> WorldSpec {
        let s = &self.w.spec;
        let mut o = WorldSpec { env: s.env.clone(), cwd: s.cwd.clone(), passwd_home: s.passwd_home.clone(), ..Default::default() };
        if let Some((_, env, cwd)) = self.w.around.iter().rev().find(|a| a.0 <= r.start) {
            o.env = env.iter().map(|(k, v)| (k.clone(), Bytes(v.clone()))).collect();
            o.cwd = cwd.as_ref().map(|c| crate::world::lossy(c));
        }
        o
    }

    fn faulted(&self, id: u32, classes: &[&str]) -> bool {
        self.w.errors.iter().any(|e| e.0 == id && (classes.is_empty() || classes.contains(&e.1)))
    }

    fn torn(&self, r: &Res) -> bool {
        self.w.mutated_in_place.iter().any(|s| *s > r.start && *s <= r.end)
    }

    /// one explicitly named file
    pub fn load_file<T>(&self, path: &str, r: &Res, f: impl Fn(&Content, Ext) -> Option<T>) -> Loads<T> {
        let cwd = self.around(r).cwd.map(|c| crate::world::dec_path(&c));
        let p = norm(&cwd, &crate::world::dec_path(path));
        let ext = ext_of(&p);
        let vis = self.visible(&p, r.start, r.end);
        let mut l = Loads { wild: self.torn(r), ok: Vec::new(), err_ok: vis.len() > 1 || self.faulted(r.id, &[]) || self.torn(r) };
        for v in vis {
            match v {
                Vis::File(c) => match f(&self.sc.contents[c], ext) {
                    Some(t) => l.ok.push(t),
                    None => {
                        l.wild = true;
                        l.err_ok = true;
                    }
                },
                _ => l.err_ok = true,
            }
        }
        l
    }

    pub fn load_rc(&self, r: &Res) -> Loads<Vec<Step>> {
        let around = self.around(r);
        let cwd = around.cwd.as_ref().map(|c| crate::world::dec_path(c));
        if let Some(v) = around.env.get("CHANOMARC") {
            let utf8 = std::str::from_utf8(&v.0).is_ok();
            let p: String = v.0.iter().map(|b| if *b == b'%' || *b >= 0x80 { format!("%{:02X}", b) } else { (*b as char).to_string() }).collect();
            let mut l = self.load_file(&p, r, steps_of);
            if ext_of(&v.0) == Ext::Other {
                // never a silent fallback
                l.wild = false;
                l.ok.clear();
                l.err_ok = true;
            }
            if !utf8 {
                l.err_ok = true;
            }
            return l;
        }
        let mut l = Loads { wild: self.torn(r), ok: vec![Vec::new()], err_ok: self.faulted(r.id, &[]) || self.torn(r) };
        let errs: Vec<(&str, Vec<u8>)> = self.w.errors.iter().filter(|e| e.0 == r.id).map(|e| (e.1, crate::world::dec_path(&e.3))).collect();
        let no_home = errs.iter().any(|e| e.0 == "getpw");
        let no_cwd = errs.iter().any(|e| e.0 == "getcwd");
        for c in rc_candidates(&around) {
            let vis = self.visible(&c.path, r.start, r.end);
            let mut opts: Vec<Vec<Step>> = Vec::new();
            let mut absent = false;
            if vis.len() > 1 {
                l.err_ok = true;
            }
            for v in vis {
                match v {
                    Vis::File(k) => match steps_of(&self.sc.contents[k], ext_of(&c.path)) {
                        Some(s) => opts.push(s),
                        None => {
                            l.wild = true;
                            l.err_ok = true;
                        }
                    },
                    _ => absent = true,
                }
            }
            if (c.dir < 2 && no_home) || (c.dir == 2 && no_cwd) {
                absent = true;
            }
            // a candidate that could not be examined counts as not located
            if errs.iter().any(|e| (e.0 == "stat" || e.0 == "realpath" || e.0 == "opendir") && (e.1 == c.path || norm(&cwd, &e.1) == c.path || e.0 == "opendir")) {
                absent = true;
            }
            let mut next: Vec<Vec<Step>> = Vec::new();
            for base in &l.ok {
                if absent || opts.is_empty() {
                    next.push(base.clone());
                }
                for o in &opts {
                    let mut b = base.clone();
                    b.extend(o.iter().cloned());
                    if !next.contains(&b) {
                        next.push(b);
                    }
                }
            }
            next.truncate(512);
            l.ok = next;
        }
        l
    }

    fn judge_load<T>(&mut self, what: &str, r: &Res, l: Loads<T>) -> Result<Option<Loads<T>>, Violation> {
        match &r.out {
            Out::Ok => {
                self.count("load_ok");
                if !l.wild && l.ok.is_empty() {
                    return viol("bogus-success", format!("op {}: {} reported success although no usable version of the file existed while it ran", r.id, what));
                }
                Ok(Some(l))
            }
            Out::Err(e) => {
                self.count("load_err");
                if !l.err_ok {
                    return viol("unexpected-error", format!("op {}: {} failed with \"{}\" although no fault, no change and no damage hit it", r.id, what, cut_str(e)));
                }
                Ok(None)
            }
            Out::Panic(p) => {
                if self.sink_panicked(r) {
                    return Ok(None);
                }
                viol("panic", format!("op {}: {} panicked: {}", r.id, what, cut_str(p)))
            }
            _ => Ok(None),
        }
    }

    fn sink_panicked(&self, r: &Res) -> bool {
        logger::sink().map(|s| s.panicked.contains(&(r.task, r.id))).unwrap_or(false)
    }

    fn panic_check(&self, what: &str, r: &Res) -> V {
        if let Out::Panic(p) = &r.out {
            if !self.sink_panicked(r) {
                return viol("panic", format!("op {}: {} panicked: {}", r.id, what, cut_str(p)));
            }
        }
        Ok(())
    }

    fn ops_of<'b>(list: &'b [OpAt], rounds: u32) -> impl Iterator<Item = (u32, &'b Op)> + 'b {
        (0..rounds.max(1)).flat_map(move |r| list.iter().map(move |o| (o.id + r * ROUND, &o.op)))
    }

    pub fn run(&mut self, d: &Done) -> V {
        let p = self.sc.property.as_str();
        if p == "C03" && !crate::exec::is_shareable() {
            return viol("not-shareable", "Chanoma is no longer Send + Sync: it cannot be shared between threads".into());
        }
        // setup
        let mut pipes = BTreeMap::new();
        let mut tabs = BTreeMap::new();
        let setup: Vec<(u32, &Op)> = Self::ops_of(&self.sc.setup, 1).collect();
        self.history(&setup, &d.setup, &mut pipes, &mut tabs)?;
        self.shared = pipes;
        for t in 0..self.sc.tasks.len() as u32 {
            let mut pipes = BTreeMap::new();
            let mut tabs0 = if t == 0 { std::mem::take(&mut tabs) } else { BTreeMap::new() };
            let res: Vec<Res> = d.results.iter().filter(|r| r.task == t).cloned().collect();
            let n = self.sc.tasks[t as usize].len();
            for k in 0..self.sc.rounds.max(1) {
                let ops: Vec<(u32, &Op)> = self.sc.tasks[t as usize].iter().map(|o| (o.id + k * ROUND, &o.op)).collect();
                let part: Vec<Res> = res.iter().skip(n * k as usize).take(n).cloned().collect();
                self.history(&ops, &part, &mut pipes, &mut tabs0)?;
                if self.sc.rounds > 1 {
                    pipes.clear();
                    tabs0.clear();
                }
            }
        }
        if let Some(s) = logger::sink() {
            let want = Step::Neologdn.apply(logger::REENTER_TEXT);
            for r in &s.reentered {
                match r {
                    Ok(t) if *t == want => {}
                    Ok(t) => return viol("wrong-result", format!("a call from inside the log sink returned {:?}, expected {:?}", t, want)),
                    Err(e) => return viol("panic", format!("a call from inside the log sink panicked: {}", e)),
                }
            }
        }
        if p == "C10" {
            for r in d.setup.iter().chain(d.results.iter()) {
                if r.open_fds > 0 {
                    return viol("fd-leak", format!("op {} left {} descriptor(s) open", r.id, r.open_fds));
                }
            }
            if let Some(f) = self.w.fds.values().next() {
                return viol("fd-leak", format!("a descriptor of {} opened in op {} was never closed", String::from_utf8_lossy(&f.path), f.op));
            }
            if let Some((op, what)) = self.w.writes.first() {
                return viol("write", format!("op {} tried to change the outside world: {}", op, what));
            }
            if d.mem.len() >= 8 {
                let n = d.mem.len();
                let (a, b) = (d.mem[n / 2 - 1], d.mem[n - 1]);
                if b > a {
                    return viol("memory-growth", format!("live memory of the library after equal rounds of work: {:?}", d.mem));
                }
            }
        }
        Ok(())
    }

    fn history(&mut self, ops: &[(u32, &Op)], res: &[Res], pipes: &mut BTreeMap<u32, Pipe>, tabs: &mut BTreeMap<u32, Tab>) -> V {
        for ((id, op), r) in ops.iter().zip(res.iter()) {
            debug_assert_eq!(*id, r.id);
            if matches!(r.out, Out::Skip) {
                continue;
            }
            self.one(op, r, pipes, tabs)?;
            if self.sc.property == "C21" && in_memory(op) && !matches!(r.out, Out::Skip) {
                self.count("in_memory_operations");
                if !r.outside.is_empty() {
                    return viol("outside-call", format!("op {} ({}) works on what is in memory, yet it made calls to the outside: {}", r.id, short_op(op), r.outside));
                }
            }
        }
        if self.sc.property == "C22" {
            self.costs(ops, res)?;
        }
        Ok(())
    }

    /// the same call costs the same, whatever went before; eight times the input costs no more than about eight times the work
    fn costs(&mut self, ops: &[(u32, &Op)], res: &[Res]) -> V {
        let mut by: BTreeMap<String, Vec<(u32, u64)>> = BTreeMap::new();
        let mut of: BTreeMap<u32, u64> = BTreeMap::new();
        for ((id, op), r) in ops.iter().zip(res.iter()) {
            of.insert(*id, r.work);
            if is_probe(op) {
                by.entry(format!("{:?}", op)).or_default().push((*id, r.work));
            }
        }
        for (op, v) in &by {
            if v.len() < 4 {
                continue;
            }
            self.count("calls_repeated");
            let base = v[..3].iter().map(|x| x.1).max().unwrap();
            for (id, w) in &v[3..] {
                self.count("costs_compared");
                if *w > base + base / 8 + 300 {
                    return viol("slower", format!("op {} ({}) took {} steps; the same call at the start of the history took at most {}", id, cut_str(op), w, base));
                }
            }
        }
        for (a, b) in &self.sc.eightfold {
            if let (Some(x), Some(y)) = (of.get(a), of.get(b)) {
                *self.counters.entry("costs_scaled".into()).or_insert(0) += 1;
                if *y > 16 * x + 20_000 {
                    return viol("superlinear", format!("op {} took {} steps, with eight times the input (op {}) {}", a, x, b, y));
                }
            }
        }
        Ok(())
    }

    fn one(&mut self, op: &Op, r: &Res, pipes: &mut BTreeMap<u32, Pipe>, tabs: &mut BTreeMap<u32, Tab>) -> V {
        match op {
            Op::Make { dst, how } => {
                pipes.remove(dst);
                match how {
                    Make::New | Make::Default => {
                        self.panic_check("construction", r)?;
                        pipes.insert(*dst, Pipe::Cands(vec![Vec::new()]));
                    }
                    Make::Preset => {
                        self.panic_check("construction", r)?;
                        pipes.insert(*dst, Pipe::Cands(vec![vec![preset_step()]]));
                    }
                    Make::Neologdn => {
                        self.panic_check("construction", r)?;
                        pipes.insert(*dst, Pipe::Cands(vec![vec![Step::Neologdn]]));
                    }
                    Make::LoadRc => {
                        let l = self.load_rc(r);
                        if self.sc.property == "C09" {
                            self.only_env_file(r)?;
                        }
                        if let Some(l) = self.judge_load("load_rc", r, l)? {
                            pipes.insert(*dst, if l.wild { Pipe::Unknown } else { Pipe::Cands(l.ok) });
                        }
                    }
                    Make::File(p) => {
                        let l = self.load_file(p, r, steps_of);
                        if let Some(l) = self.judge_load(&format!("from_config_file({})", p), r, l)? {
                            pipes.insert(*dst, if l.wild { Pipe::Unknown } else { Pipe::Cands(l.ok) });
                        }
                    }
                    Make::FromTable(s) => {
                        self.panic_check("from_table", r)?;
                        if matches!(r.out, Out::Ok) {
                            let p = match tabs.get(s).and_then(|t| self.table_steps(t)) {
                                Some(v) => Pipe::Cands(v.into_iter().map(|s| vec![s]).collect()),
                                None => Pipe::Unknown,
                            };
                            pipes.insert(*dst, p);
                        }
                    }
                }
            }
            Op::Use { dst, step } => {
                self.panic_check("adding a step", r)?;
                let add: Option<Vec<Step>> = match step {
                    Step1::Preset => Some(vec![preset_step()]),
                    Step1::Neologdn => Some(vec![Step::Neologdn]),
                    Step1::Table(s) => tabs.get(s).and_then(|t| self.table_steps(t)),
                };
                let cur = pipes.remove(dst);
                let new = match (cur, add) {
                    (Some(Pipe::Cands(v)), Some(a)) => {
                        let mut o = Vec::new();
                        for x in &v {
                            for s in &a {
                                let mut y = x.clone();
                                y.push(s.clone());
                                o.push(y);
                            }
                        }
                        Pipe::Cands(o)
                    }
                    _ => Pipe::Unknown,
                };
                pipes.insert(*dst, new);
            }
            Op::Drop { dst } => {
                self.panic_check("drop", r)?;
                pipes.remove(dst);
            }
            Op::Norm { src, text } | Op::NormBuf { src, text } => {
                self.panic_check("normalize", r)?;
                let Out::Text(got) = &r.out else { return Ok(()) };
                self.count("normalize");
                let tx = round_text(&self.texts[*text as usize], self.sc.rounds, r.id / ROUND);
                self.filter(pipes, *src, r, &format!("normalize({:?})", cut_str(&tx)), got, |s| final_text(s, &tx))?;
            }
            Op::Pos { src, text } => {
                self.panic_check("normalize_with_positions", r)?;
                let Out::Recs { fin, texts, .. } = &r.out else { return Ok(()) };
                self.count("normalize_with_positions");
                let tx = round_text(&self.texts[*text as usize], self.sc.rounds, r.id / ROUND);
                let got = format!("{} | {}", fin, texts.join(" | "));
                self.filter(pipes, *src, r, &format!("normalize_with_positions({:?}) (final text | text of each record)", cut_str(&tx)), &got, |s| {
                    format!("{} | {}", final_text(s, &tx), apply(s, &tx).join(" | "))
                })?;
            }
            Op::TabMake { dst, src } => {
                tabs.remove(dst);
                let t = match src {
                    TabSrc::Empty => Some(Tab { cands: Some(vec![BTreeSet::new()]), canonical: true, distinct: true }),
                    TabSrc::Preset => Some(Tab { cands: Some(vec![base().preset.iter().cloned().collect()]), canonical: true, distinct: true }),
                    TabSrc::Items(v) => Some(Tab { cands: Some(vec![v.iter().cloned().collect()]), canonical: false, distinct: v.iter().collect::<BTreeSet<_>>().len() == v.len() }),
                    TabSrc::Big { n, tag } => Some(Tab { cands: Some(vec![big_pairs(*n, *tag).into_iter().collect()]), canonical: false, distinct: true }),
                    TabSrc::Builder(p) | TabSrc::Func(p) => {
                        let l = self.load_file(p, r, |c, e| table_of(c, e).map(|v| v.into_iter().collect::<BTreeSet<_>>()));
                        self.judge_load(&format!("loading table {}", p), r, l)?.map(|l| Tab { cands: if l.wild { None } else { Some(l.ok) }, canonical: false, distinct: false })
                    }
                };
                self.panic_check("creating a table", r)?;
                if let (Some(t), Out::Ok) = (t, &r.out) {
                    tabs.insert(*dst, t);
                }
            }
            Op::TabEdit { dst, edit } => {
                let Some(cur) = tabs.get(dst).cloned() else { return Ok(()) };
                let upd = |t: &Tab, f: &dyn Fn(&mut BTreeSet<Pair>)| Tab {
                    cands: t.cands.clone().map(|v| {
                        v.into_iter()
                            .map(|mut s| {
                                f(&mut s);
                                s
                            })
                            .collect()
                    }),
                    canonical: true,
                    distinct: true,
                };
                let new = match edit {
                    Edit::Add { items, via } => {
                        let mut t = upd(&cur, &|s| s.extend(items.iter().cloned()));
                        // adding nothing one by one is not an addition
                        t.canonical = cur.canonical || !(matches!(via, 4 | 5) && items.is_empty());
                        t
                    }
                    Edit::Remove { items, via } => {
                        let mut t = upd(&cur, &|s| {
                            for i in items {
                                s.remove(i);
                            }
                        });
                        // removal keeps duplicates a hand-made table may have had
                        t.distinct = cur.distinct;
                        t.canonical = cur.canonical || cur.distinct && !(matches!(via, 4 | 5) && items.is_empty());
                        t
                    }
                    Edit::Preset => upd(&cur, &|s| s.extend(base().preset.iter().cloned())),
                    Edit::RemovePreset => {
                        let mut t = upd(&cur, &|s| {
                            for i in &base().preset {
                                s.remove(i);
                            }
                        });
                        t.distinct = cur.distinct;
                        t.canonical = cur.canonical || cur.distinct;
                        t
                    }
                    Edit::AddTable { from } | Edit::RemoveTable { from } => {
                        let other = tabs.get(from).cloned().unwrap_or(cur.clone());
                        let add = matches!(edit, Edit::AddTable { .. });
                        let cands = match (&cur.cands, &other.cands) {
                            (Some(a), Some(b)) => {
                                let mut o = Vec::new();
                                for x in a {
                                    for y in b {
                                        let s: BTreeSet<Pair> = if add { x.union(y).cloned().collect() } else { x.difference(y).cloned().collect() };
                                        if !o.contains(&s) {
                                            o.push(s);
                                        }
                                    }
                                }
                                Some(o)
                            }
                            _ => None,
                        };
                        Tab { cands, canonical: add || cur.canonical || cur.distinct, distinct: add || cur.distinct }
                    }
                    Edit::Own { items, panic_at, add, .. } => {
                        match &r.out {
                            Out::Err(m) if *panic_at > 0 && m == crate::exec::OWN_PANIC => {
                                self.count("own_source_panicked");
                            }
                            Out::Ok if *panic_at != 1 => {}
                            o => return viol("wrong-result", format!("editing a table from a caller's own source (panics at use {}) gave {:?}", panic_at, o)),
                        }
                        let mut t = upd(&cur, &|s| {
                            if *add {
                                s.extend(items.iter().cloned());
                            } else {
                                items.iter().for_each(|i| {
                                    s.remove(i);
                                });
                            }
                        });
                        if !add {
                            t.distinct = cur.distinct;
                            t.canonical = cur.canonical || cur.distinct;
                        }
                        t
                    }
                    Edit::AddFile(p) => {
                        let l = self.load_file(p, r, |c, e| table_of(c, e));
                        match self.judge_load(&format!("adding {} to a table", p), r, l)? {
                            Some(l) => {
                                let cands = match (&cur.cands, l.wild) {
                                    (Some(a), false) => {
                                        let mut o = Vec::new();
                                        for x in a {
                                            for y in &l.ok {
                                                let mut s = x.clone();
                                                s.extend(y.iter().cloned());
                                                o.push(s);
                                            }
                                        }
                                        Some(o)
                                    }
                                    _ => None,
                                };
                                Tab { cands, canonical: true, distinct: true }
                            }
                            None => cur.clone(),
                        }
                    }
                };
                self.panic_check("editing a table", r)?;
                match &r.out {
                    Out::Ok => {
                        tabs.insert(*dst, new);
                    }
                    Out::Panic(_) => {
                        tabs.remove(dst);
                    }
                    _ => {}
                }
            }
            Op::TabCopy { dst, src } => {
                self.panic_check("copying a table", r)?;
                if let Some(t) = tabs.get(src).cloned() {
                    tabs.insert(*dst, t);
                }
            }
            Op::TabDrop { dst } => {
                self.panic_check("dropping a table", r)?;
                tabs.remove(dst);
            }
            Op::TabItems { src } => {
                self.panic_check("Table::items", r)?;
                let Out::Items { items } = &r.out else { return Ok(()) };
                self.count("items");
                let Some(t) = tabs.get_mut(src) else { return Ok(()) };
                let got: BTreeSet<Pair> = items.iter().cloned().collect();
                if let Some(c) = &mut t.cands {
                    let before = c.clone();
                    c.retain(|x| *x == got);
                    if c.is_empty() {
                        return viol("wrong-table", format!("op {}: table holds {}, expected {}", r.id, show_set(&got), before.iter().map(show_set_diff(&got)).collect::<Vec<_>>().join(" or ")));
                    }
                    if t.canonical {
                        if got.len() != items.len() {
                            return viol("duplicate-mapping", format!("op {}: table lists a mapping twice: {} entries, {} distinct", r.id, items.len(), got.len()));
                        }
                        let o = self.order.entry(got).or_insert_with(|| items.clone());
                        if o != items {
                            return viol("table-order", format!("op {}: equal tables list their mappings in different orders", r.id));
                        }
                    }
                }
            }
            Op::TabEq { a, b } => {
                self.panic_check("comparing tables", r)?;
                let Out::Bool(got) = &r.out else { return Ok(()) };
                if let (Some(x), Some(y)) = (tabs.get(a), tabs.get(b)) {
                    if let (Some(cx), Some(cy)) = (&x.cands, &y.cands) {
                        if cx.len() == 1 && cy.len() == 1 {
                            let same = cx[0] == cy[0];
                            if (same && x.canonical && y.canonical && !got) || (!same && *got) {
                                return viol("table-eq", format!("op {}: comparing two tables gave {}, their mappings are {}", r.id, got, if same { "equal" } else { "different" }));
                            }
                        }
                    }
                }
            }
            Op::Export { src, .. } | Op::ExportYaml { src } => {
                let Out::Bytes { ok, bytes } = &r.out else {
                    if let Out::Err(e) = &r.out {
                        return viol("export-failed", format!("op {}: export without a fault failed: {}", r.id, e));
                    }
                    return self.panic_check("export", r);
                };
                let csv = matches!(op, Op::Export { .. });
                let hard = self.w.errors.iter().any(|e| e.0 == r.id && (e.1 == "writer" || e.1 == "flush") && e.2 != libc::EINTR)
                    || self.w.errors.iter().any(|e| e.0 == r.id && e.1 == "flush");
                if !ok {
                    self.count("export_failed_visibly");
                    if !hard {
                        return viol("export-failed", format!("op {}: export failed although the writer never failed", r.id));
                    }
                    return Ok(());
                }
                self.count("export_ok");
                let Some(t) = tabs.get(src) else { return Ok(()) };
                let Some(c) = &t.cands else { return Ok(()) };
                if c.len() != 1 {
                    return Ok(());
                }
                if !csv {
                    if let Some(set) = parse_yaml_items(&bytes.0) {
                        if set != c[0] {
                            return viol("export-incomplete", format!("op {}: the YAML export holds {}, the table {}", r.id, show_set(&set), show_set_diff(&set)(&c[0])));
                        }
                    } else {
                        return viol("export-incomplete", format!("op {}: the YAML export does not parse: {:?}", r.id, cut_str(&String::from_utf8_lossy(&bytes.0))));
                    }
                }
                if csv {
                    let got = parse_csv(&bytes.0);
                    let mut set = BTreeSet::new();
                    for row in &got {
                        for f in &row[..row.len().saturating_sub(1)] {
                            set.insert((f.clone(), row.last().unwrap().clone()));
                        }
                    }
                    if set != c[0] {
                        return viol("export-incomplete", format!("op {}: export reported success, but the bytes hold {}, the table {}", r.id, show_set(&set), show_set_diff(&set)(&c[0])));
                    }
                    if t.canonical {
                        let key: Vec<Pair> = c[0].iter().cloned().collect();
                        let b = self.exported.entry(key).or_insert_with(|| bytes.0.clone());
                        if *b != bytes.0 {
                            return viol("export-differs", format!("op {}: two exports of equal tables differ: {:?} / {:?}", r.id, cut_str(&String::from_utf8_lossy(b)), cut_str(&String::from_utf8_lossy(&bytes.0))));
                        }
                    }
                }
            }
            Op::ModsFn { path } => {
                let l = self.load_file(path, r, |c, e| mods_of(c, e).map(|n| (n, render(c))));
                if let (Some(l), Out::Text(got)) = (self.judge_load(&format!("modifiers_from_yaml_path({})", path), r, l)?, &r.out) {
                    if !l.wild {
                        let n: usize = got.split(' ').next().and_then(|s| s.parse().ok()).unwrap_or(usize::MAX);
                        if !l.ok.iter().any(|(k, _)| *k == n) {
                            return viol("wrong-steps", format!("op {}: {} holds {} steps, expected {:?}", r.id, path, n, l.ok.iter().map(|x| x.0).collect::<Vec<_>>()));
                        }
                        if let [(_, bytes)] = &l.ok[..] {
                            let o = self.loaded.entry(bytes.clone()).or_insert_with(|| got.clone());
                            if o != got {
                                return viol("wrong-steps", format!("op {}: two loads of the same bytes gave different steps", r.id));
                            }
                        }
                    }
                }
            }
            Op::Fs(_) | Op::Level(_) | Op::Mem => {}
        }
        Ok(())
    }

    fn table_steps(&self, t: &Tab) -> Option<Vec<Step>> {
        let c = t.cands.as_ref()?;
        let mut o = Vec::new();
        for s in c {
            let mut m: BTreeMap<char, &str> = BTreeMap::new();
            for (f, x) in s {
                // contradictory, empty or longer mappings have no promised meaning here
                if f.chars().count() != 1 || x.chars().count() != 1 {
                    return None;
                }
                let k = f.chars().next().unwrap();
                if let Some(y) = m.insert(k, x) {
                    if y != x {
                        return None;
                    }
                }
            }
            o.push(conv(s.iter().cloned()));
        }
        Some(o)
    }

    fn only_env_file(&self, r: &Res) -> V {
        let around = self.around(r);
        let cwd = around.cwd.as_ref().map(|c| crate::world::dec_path(c));
        let Some(v) = around.env.get("CHANOMARC") else { return Ok(()) };
        let named = norm(&cwd, &v.0);
        let c = rc_candidates(&around);
        for (op, p) in &self.w.opened {
            if *op == r.id && *p != named && c.iter().any(|c| c.path == *p) {
                return viol("env-override", format!("op {}: CHANOMARC names {}, yet {} was opened", r.id, String::from_utf8_lossy(&named), String::from_utf8_lossy(p)));
            }
        }
        Ok(())
    }

    fn filter(&mut self, pipes: &mut BTreeMap<u32, Pipe>, src: PRef, r: &Res, what: &str, got: &str, f: impl Fn(&[Step]) -> String) -> V {
        let p = match src {
            PRef::L(i) => pipes.get_mut(&i),
            PRef::S(i) => self.shared.get_mut(&i),
        };
        let Some(Pipe::Cands(v)) = p else { return Ok(()) };
        let mut keep = Vec::new();
        let mut wanted = Vec::new();
        for s in v.iter() {
            let e = f(s);
            if e == got {
                keep.push(s.clone());
            } else if wanted.len() < 3 {
                wanted.push(e);
            }
        }
        if keep.is_empty() {
            let n = v.len();
            return viol(
                "wrong-result",
                format!(
                    "op {}: {} returned {:?}; {} explanation(s) were possible, e.g. {:?}; {}",
                    r.id,
                    what,
                    cut_str(got),
                    n,
                    wanted.first().map(|s| cut_str(s)).unwrap_or_default(),
                    wanted.first().map(|s| diff(got, s)).unwrap_or_default()
                ),
            );
        }
        *v = keep;
        Ok(())
    }
}

/// operations on what is in memory
fn in_memory(op: &Op) -> bool {
    match op {
        Op::Make { how, .. } => !matches!(how, Make::LoadRc | Make::File(_)),
        Op::TabMake { src, .. } => !matches!(src, TabSrc::Builder(_) | TabSrc::Func(_)),
        Op::TabEdit { edit, .. } => !matches!(edit, Edit::AddFile(_)),
        Op::ModsFn { .. } | Op::Fs(_) | Op::Level(_) | Op::Mem => false,
        _ => true,
    }
}

fn short_op(op: &Op) -> String {
    cut_str(&format!("{:?}", op))
}

/// slots from 50 on belong to calls that are repeated
fn is_probe(op: &Op) -> bool {
    match op {
        Op::Make { dst, .. } | Op::TabMake { dst, .. } | Op::TabCopy { dst, .. } => *dst >= 50,
        Op::Norm { src: PRef::L(i), .. } | Op::Pos { src: PRef::L(i), .. } | Op::NormBuf { src: PRef::L(i), .. } => *i >= 50,
        Op::TabItems { src } | Op::Export { src, .. } | Op::ExportYaml { src } => *src >= 50,
        Op::TabEq { a, .. } => *a >= 50,
        Op::ModsFn { .. } => true,
        _ => false,
    }
}

fn show_set(s: &BTreeSet<Pair>) -> String {
    let v: Vec<String> = s.iter().take(6).map(|(f, t)| format!("{}→{}", f, t)).collect();
    format!("{} mappings ({}{})", s.len(), v.join(" "), if s.len() > 6 { " …" } else { "" })
}

fn show_set_diff(got: &BTreeSet<Pair>) -> impl Fn(&BTreeSet<Pair>) -> String + '_ {
    move |want| {
        let miss: Vec<String> = want.difference(got).take(4).map(|(f, t)| format!("{:?}→{:?}", f, t)).collect();
        let extra: Vec<String> = got.difference(want).take(4).map(|(f, t)| format!("{:?}→{:?}", f, t)).collect();
        format!("{} mappings (missing: {}; unexpected: {})", want.len(), miss.join(" "), extra.join(" "))
    }
}

/// the mappings of `items: {to: [from, ..]}`; parsed by the YAML library, which is not under test
pub fn parse_yaml_items(b: &[u8]) -> Option<BTreeSet<Pair>> {
    let v: serde_yaml::Value = serde_yaml::from_slice(b).ok()?;
    let mut set = BTreeSet::new();
    for (to, froms) in v.get("items")?.as_mapping()? {
        for f in froms.as_sequence()? {
            set.insert((f.as_str()?.to_string(), to.as_str()?.to_string()));
        }
    }
    Some(set)
}

/// RFC 4180 reader of the model; no header
pub fn parse_csv(b: &[u8]) -> Vec<Vec<String>> {
    let mut rows: Vec<Vec<Vec<u8>>> = Vec::new();
    let mut row: Vec<Vec<u8>> = Vec::new();
    let mut f: Vec<u8> = Vec::new();
    let mut q = false;
    let mut any = false;
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if q {
            if c == b'"' {
                if b.get(i + 1) == Some(&b'"') {
                    f.push(b'"');
                    i += 1;
                } else {
                    q = false;
                }
            } else {
                f.push(c);
            }
        } else {
            match c {
                b'"' => {
                    q = true;
                    any = true;
                }
                b',' => {
                    row.push(std::mem::take(&mut f));
                    any = true;
                }
                b'\r' => {}
                b'\n' => {
                    if any || !f.is_empty() {
                        row.push(std::mem::take(&mut f));
                        rows.push(std::mem::take(&mut row));
                    }
                    any = false;
                }
                _ => {
                    f.push(c);
                    any = true;
                }
            }
        }
        i += 1;
    }
    if any || !f.is_empty() {
        row.push(f);
        rows.push(row);
    }
    rows.into_iter().map(|r| r.into_iter().map(|f| String::from_utf8_lossy(&f).into_owned()).collect()).collect()
}
