//! Makes a failing run small: fewer operations, faults, switches, files, shorter texts and contents.
//! A candidate is kept when it still shows a violation of the same kind.

use crate::exec::Violation;
use crate::runner::{run_case, Case, Opt};
use crate::scenario::*;
use crate::sched::SchedSpec;
use crate::spec::*;
use std::time::{Duration, Instant};

struct R {
    kind: String,
    end: Instant,
    left: u32,
}

impl R {
    fn ok(&mut self, c: &Case) -> bool {
        if self.left == 0 || Instant::now() > self.end {
            return false;
        }
        self.left -= 1;
        run_case(c, Opt::default()).violation.map(|v| v.kind == self.kind).unwrap_or(false)
    }

    /// delta debugging over a list inside the case
    fn list<T: Clone>(&mut self, c: &mut Case, get: impl Fn(&Case) -> Vec<T>, set: impl Fn(&mut Case, Vec<T>)) {
        let mut cur = get(c);
        if cur.is_empty() {
            return;
        }
        let mut n = cur.len();
        loop {
            let mut i = 0;
            while i < cur.len() {
                let mut t = cur.clone();
                t.drain(i..(i + n).min(cur.len()));
                let mut d = c.clone();
                set(&mut d, t.clone());
                if self.ok(&d) {
                    cur = t;
                    *c = d;
                } else {
                    i += n;
                }
                if self.left == 0 {
                    return;
                }
            }
            if n == 1 {
                break;
            }
            n = (n + 1) / 2;
        }
    }

    fn attempt(&mut self, c: &mut Case, f: impl Fn(&mut Case)) {
        let mut d = c.clone();
        f(&mut d);
        if d != *c && self.ok(&d) {
            *c = d;
        }
    }
}

fn lib(c: &Case) -> &Scenario {
    match c {
        Case::Lib(s) => s,
        _ => unreachable!(),
    }
}
fn libm(c: &mut Case) -> &mut Scenario {
    match c {
        Case::Lib(s) => s,
        _ => unreachable!(),
    }
}

pub fn world(c: &Case) -> &WorldSpec {
    match c {
        Case::Lib(s) => &s.world,
        Case::Proc(p) => &p.world,
    }
}
pub fn world_mut(c: &mut Case) -> &mut WorldSpec {
    match c {
        Case::Lib(s) => &mut s.world,
        Case::Proc(p) => &mut p.world,
    }
}
fn contents(c: &Case) -> &Vec<Content> {
    match c {
        Case::Lib(s) => &s.contents,
        Case::Proc(p) => &p.contents,
    }
}
fn contents_mut(c: &mut Case) -> &mut Vec<Content> {
    match c {
        Case::Lib(s) => &mut s.contents,
        Case::Proc(p) => &mut p.contents,
    }
}

fn inner(c: &Content) -> &Content {
    match c {
        Content::Agree(b) => inner(b),
        c => c,
    }
}
fn inner_mut(c: &mut Content) -> &mut Content {
    match c {
        Content::Agree(b) => inner_mut(b),
        c => c,
    }
}

fn plain_style(c: &mut Content) {
    match inner_mut(c) {
        Content::Csv { style, .. } => *style = CsvStyle::default(),
        Content::Yaml { style, .. } => {
            let list = style.list;
            *style = YamlStyle { list, ..Default::default() };
        }
        _ => {}
    }
}

fn used_contents(c: &Case) -> Vec<bool> {
    let s = serde_json::to_string(c).unwrap_or_default();
    (0..contents(c).len()).map(|i| s.contains(&format!("\"File\":{}}}", i)) || s.contains(&format!("\"content\":{}}}", i))).collect()
}

fn shrink_contents(r: &mut R, c: &mut Case) {
    for i in 0..contents(c).len() {
        let used = used_contents(c)[i];
        if !used {
            contents_mut(c)[i] = Content::Raw(Bytes(Vec::new()));
            continue;
        }
        r.attempt(c, |c| plain_style(&mut contents_mut(c)[i]));
        match inner(&contents(c)[i]).clone() {
            Content::Csv { .. } => r.list(
                c,
                |c| match inner(&contents(c)[i]) {
                    Content::Csv { rows, .. } => rows.clone(),
                    _ => Vec::new(),
                },
                |c, v| {
                    if let Content::Csv { rows, .. } = inner_mut(&mut contents_mut(c)[i]) {
                        *rows = v;
                    }
                },
            ),
            Content::Yaml { items, .. } => {
                if items.is_some() {
                    r.list(
                        c,
                        |c| match inner(&contents(c)[i]) {
                            Content::Yaml { items: Some(v), .. } => v.clone(),
                            _ => Vec::new(),
                        },
                        |c, v| {
                            if let Content::Yaml { items, .. } = inner_mut(&mut contents_mut(c)[i]) {
                                *items = Some(v);
                            }
                        },
                    );
                }
                r.list(
                    c,
                    |c| match inner(&contents(c)[i]) {
                        Content::Yaml { mods, .. } => mods.clone(),
                        _ => Vec::new(),
                    },
                    |c, v| {
                        if let Content::Yaml { mods, .. } = inner_mut(&mut contents_mut(c)[i]) {
                            *mods = v;
                        }
                    },
                );
            }
            Content::Raw(_) => {
                r.list(
                    c,
                    |c| match inner(&contents(c)[i]) {
                        Content::Raw(b) => b.0.split_inclusive(|x| *x == b'\n').map(|l| l.to_vec()).collect(),
                        _ => Vec::new(),
                    },
                    |c, v| {
                        if let Content::Raw(b) = inner_mut(&mut contents_mut(c)[i]) {
                            b.0 = v.concat();
                        }
                    },
                );
                r.list(
                    c,
                    |c| match inner(&contents(c)[i]) {
                        Content::Raw(b) => b.0.clone(),
                        _ => Vec::new(),
                    },
                    |c, v| {
                        if let Content::Raw(b) = inner_mut(&mut contents_mut(c)[i]) {
                            b.0 = v;
                        }
                    },
                );
            }
            _ => {}
        }
    }
}

fn shrink_world(r: &mut R, c: &mut Case) {
    r.list(c, |c| world(c).faults.clone(), |c, v| world_mut(c).faults = v);
    r.attempt(c, |c| world_mut(c).read_chunk = Chunk::Whole);
    r.attempt(c, |c| world_mut(c).write_chunk = Chunk::Whole);
    r.list(c, |c| world(c).files.clone(), |c, v| world_mut(c).files = v);
    for k in world(c).env.keys().cloned().collect::<Vec<_>>() {
        r.attempt(c, |c| {
            world_mut(c).env.remove(&k);
        });
    }
}

fn shrink_str(r: &mut R, c: &mut Case, get: impl Fn(&Case) -> String, set: impl Fn(&mut Case, String)) {
    r.list(c, |c| get(c).chars().collect::<Vec<char>>(), |c, v| set(c, v.into_iter().collect()));
}

fn shrink_lib(r: &mut R, c: &mut Case) {
    let n = lib(c).tasks.len();
    for t in 0..n {
        r.attempt(c, |c| libm(c).tasks[t].clear());
    }
    for t in 0..n {
        r.list(c, |c| lib(c).tasks[t].clone(), |c, v| libm(c).tasks[t] = v);
    }
    r.list(c, |c| lib(c).setup.clone(), |c, v| libm(c).setup = v);
    shrink_world(r, c);
    r.attempt(c, |c| libm(c).sched = SchedSpec::default());
    if let SchedSpec::Explicit(_) = &lib(c).sched {
        r.list(
            c,
            |c| match &lib(c).sched {
                SchedSpec::Explicit(v) => v.clone(),
                _ => Vec::new(),
            },
            |c, v| libm(c).sched = SchedSpec::Explicit(v),
        );
    }
    r.attempt(c, |c| libm(c).logger = LoggerSpec::default());
    r.attempt(c, |c| libm(c).logger.flaky = 0);
    r.attempt(c, |c| libm(c).logger.reenter = 0);
    r.attempt(c, |c| libm(c).logger.flip = 0);
    r.list(c, |c| lib(c).logger.panics.clone(), |c, v| libm(c).logger.panics = v);
    if lib(c).variants.len() > 1 {
        r.list(c, |c| lib(c).variants.clone(), |c, v| libm(c).variants = v);
    }
    shrink_contents(r, c);
    for i in 0..lib(c).texts.len() {
        let used = format!("\"text\":{}}}", i);
        if !serde_json::to_string(&lib(c)).unwrap_or_default().contains(&used) {
            libm(c).texts[i] = TextSpec::Lit(String::new());
            continue;
        }
        if let TextSpec::Rep { n, .. } = &lib(c).texts[i] {
            for k in [1, 2, 3, 5, n / 4, n / 2] {
                r.attempt(c, |c| {
                    if let TextSpec::Rep { n, .. } = &mut libm(c).texts[i] {
                        if k < *n {
                            *n = k;
                        }
                    }
                });
            }
            if lib(c).texts[i].get().chars().count() < 400 {
                let s = lib(c).texts[i].get();
                libm(c).texts[i] = TextSpec::Lit(s);
            }
        }
        if let TextSpec::Lit(_) = &lib(c).texts[i] {
            shrink_str(r, c, |c| lib(c).texts[i].get(), |c, s| libm(c).texts[i] = TextSpec::Lit(s));
        }
    }
    // again, now that the rest is smaller
    for t in 0..n {
        r.list(c, |c| lib(c).tasks[t].clone(), |c, v| libm(c).tasks[t] = v);
    }
}

fn shrink_proc(r: &mut R, c: &mut Case) {
    fn p(c: &Case) -> &crate::procs::ProcScenario {
        match c {
            Case::Proc(p) => p,
            _ => unreachable!(),
        }
    }
    fn pm(c: &mut Case) -> &mut crate::procs::ProcScenario {
        match c {
            Case::Proc(p) => p,
            _ => unreachable!(),
        }
    }
    r.list(c, |c| p(c).steps.clone(), |c, v| pm(c).steps = v);
    shrink_world(r, c);
    r.list(c, |c| p(c).args.clone(), |c, v| pm(c).args = v);
    shrink_contents(r, c);
    if p(c).world.stdin.is_some() {
        r.list(
            c,
            |c| String::from_utf8_lossy(&p(c).world.stdin.clone().unwrap_or_default().0).chars().collect::<Vec<char>>(),
            |c, v| pm(c).world.stdin = Some(Bytes(v.into_iter().collect::<String>().into_bytes())),
        );
    }
}

pub fn minimise(c: &Case, v: &Violation, budget: Duration, tries: u32) -> Case {
    let mut r = R { kind: v.kind.clone(), end: Instant::now() + budget, left: tries };
    let mut best = c.clone();
    if r.kind == "hang" {
        return best;
    }
    if let Case::Lib(s) = c {
        // from the seeded schedule to the switches it made
        if let SchedSpec::Seeded { .. } = s.sched {
            let rep = run_case(c, Opt::default());
            let mut d = s.clone();
            d.sched = SchedSpec::Explicit(rep.switches);
            let d = Case::Lib(d);
            if r.ok(&d) {
                best = d;
            }
        }
        shrink_lib(&mut r, &mut best);
    } else {
        shrink_proc(&mut r, &mut best);
    }
    best
}
