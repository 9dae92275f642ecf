//! Reference model: what a pipeline is documented to do, written independently of the library.

use crate::scenario::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Conv(BTreeMap<char, char>),
    Elim(Vec<char>),
    Reduce(char),
    Dotted,
    Lig(Vec<(String, String)>),
    Trim,
    Neologdn,
}

/// tables the model takes from the library once, in a fresh process: the preset and the neologdn base table
#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Base {
    pub preset: Vec<(String, String)>,
    pub neo: BTreeMap<char, char>,
}

pub static mut BASE: Option<Base> = None;
#[allow(static_mut_refs)]
pub fn base() -> &'static Base {
    unsafe { BASE.as_ref().unwrap() }
}

const TEN: &str = "かがきぎくぐけげこごさざしじすずせぜそぞただちぢつづてでとどはばひびふぶへべほぼうゔカガキギクグケゲコゴサザシジスズセゼソゾタダチヂツヅテデトドハバヒビフブヘベホボウヴ";
const MARU: &str = "ハパヒピフプヘペホポはぱひぴふぷへぺほぽ";
const TILDES: [char; 6] = ['~', '∼', '∾', '〜', '〰', '～'];
const CHOON: [char; 6] = ['﹣', 'ｰ', '—', '―', '─', '━'];
const HYPHEN: [char; 11] = ['˗', '֊', '‐', '‑', '‒', '–', '⁃', '⁻', '₋', '−', '－'];

pub fn neo_base(preset: &[(String, String)], equal_sign: &[(String, String)]) -> BTreeMap<char, char> {
    let mut m = BTreeMap::new();
    for p in preset {
        if !equal_sign.contains(p) {
            m.insert(p.0.chars().next().unwrap(), p.1.chars().next().unwrap());
        }
    }
    for c in CHOON {
        m.insert(c, 'ー');
    }
    for c in HYPHEN {
        m.insert(c, '-');
    }
    m
}

fn dotted(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == ' ' {
            let mut j = i;
            while j < c.len() && c[j] == ' ' {
                j += 1;
            }
            if i > 0 && j < c.len() && c[i - 1].is_ascii_alphanumeric() && c[j].is_ascii_alphanumeric() {
                o.push(' ');
            }
            i = j;
        } else {
            o.push(c[i]);
            i += 1;
        }
    }
    o
}

fn reduce(s: &str, r: char) -> String {
    let mut o = String::new();
    let mut last = None;
    for c in s.chars() {
        if c == r && last == Some(r) {
            continue;
        }
        o.push(c);
        last = Some(c);
    }
    o
}

/// compose base character + sound mark
fn neo_lig(s: &str) -> String {
    let pair = |t: &str, a: char| {
        let v: Vec<char> = t.chars().collect();
        v.chunks(2).find(|p| p[0] == a).map(|p| p[1])
    };
    let mut o: Vec<char> = Vec::new();
    for c in s.chars() {
        let l = o.last().copied();
        let r = match (l, c) {
            (Some(a), '゛') => pair(TEN, a),
            (Some(a), '゜') => pair(MARU, a),
            _ => None,
        };
        match r {
            Some(x) => {
                o.pop();
                o.push(x);
            }
            None => o.push(c),
        }
    }
    o.into_iter().collect()
}

impl Step {
    pub fn apply(&self, s: &str) -> String {
        match self {
            Step::Conv(m) => s.chars().map(|c| *m.get(&c).unwrap_or(&c)).collect(),
            Step::Elim(v) => s.chars().filter(|c| !v.contains(c)).collect(),
            Step::Reduce(c) => reduce(s, *c),
            Step::Dotted => dotted(s),
            Step::Lig(v) => {
                let mut t = s.to_string();
                for (f, x) in v {
                    t = t.replace(f.as_str(), x);
                }
                t
            }
            Step::Trim => s.trim_matches(' ').to_string(),
            Step::Neologdn => {
                let t: String = s.chars().map(|c| *base().neo.get(&c).unwrap_or(&c)).collect();
                let t = reduce(&t, 'ー');
                let t = dotted(&t);
                let t: String = t.chars().filter(|c| !TILDES.contains(c)).collect();
                dotted(&neo_lig(&t))
            }
        }
    }
}

pub fn apply(steps: &[Step], text: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut t = text.to_string();
    for s in steps {
        t = s.apply(&t);
        out.push(t.clone());
    }
    out
}

pub fn final_text(steps: &[Step], text: &str) -> String {
    let mut t = text.to_string();
    for s in steps {
        t = s.apply(&t);
    }
    t
}

pub fn conv(items: impl IntoIterator<Item = (String, String)>) -> Step {
    let mut m = BTreeMap::new();
    for (f, t) in items {
        if let (Some(f), Some(t)) = (f.chars().next(), t.chars().next()) {
            m.insert(f, t);
        }
    }
    Step::Conv(m)
}

pub fn preset_step() -> Step {
    conv(base().preset.clone())
}

fn mod_step(m: &ModSpec) -> Step {
    let ch = |s: &String| s.chars().next().unwrap();
    match m {
        ModSpec::Conv(v) => conv(v.clone()),
        ModSpec::Elim(v) => Step::Elim(v.iter().map(ch).collect()),
        ModSpec::Reduce(c) => Step::Reduce(ch(c)),
        ModSpec::Dotted => Step::Dotted,
        ModSpec::Lig(v) => Step::Lig(v.clone()),
        ModSpec::Trim => Step::Trim,
        ModSpec::Neologdn => Step::Neologdn,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    Csv,
    Yaml,
    Other,
}

pub fn ext_of(path: &[u8]) -> Ext {
    let name = path.rsplit(|b| *b == b'/').next().unwrap();
    match name.iter().rposition(|b| *b == b'.') {
        Some(i) if i > 0 => match &name[i + 1..] {
            b"csv" => Ext::Csv,
            b"yaml" | b"yml" => Ext::Yaml,
            _ => Ext::Other,
        },
        _ => Ext::Other,
    }
}

/// mappings of a file, None when the contents promise nothing under this extension
pub fn table_of(c: &Content, ext: Ext) -> Option<Vec<Pair>> {
    match (c, ext) {
        (Content::Csv { rows, .. }, Ext::Csv) => {
            let mut v = Vec::new();
            for r in rows {
                let to = r.last().unwrap();
                for f in &r[..r.len() - 1] {
                    v.push((f.clone(), to.clone()));
                }
            }
            Some(v)
        }
        (Content::Yaml { items, .. }, Ext::Yaml) => {
            let mut v = Vec::new();
            for (t, fs) in items.iter().flatten() {
                for f in fs {
                    v.push((f.clone(), t.clone()));
                }
            }
            Some(v)
        }
        (Content::BigCsv { n, tag }, Ext::Csv) => Some((0..*n).map(|i| big_pair(i, *tag)).collect()),
        (Content::BigYaml { n, tag }, Ext::Yaml) => Some((0..*n).map(|i| big_pair(i, *tag)).collect()),
        _ => None,
    }
}

/// steps of a file, None when the contents promise nothing under this extension
pub fn steps_of(c: &Content, ext: Ext) -> Option<Vec<Step>> {
    let items = table_of(c, ext)?;
    let mut s: Vec<Step> = match c {
        Content::Yaml { mods, .. } => mods.iter().map(mod_step).collect(),
        _ => Vec::new(),
    };
    s.push(conv(items));
    Some(s)
}

/// number of steps `modifiers` lists
pub fn mods_of(c: &Content, ext: Ext) -> Option<usize> {
    table_of(c, ext)?;
    match c {
        Content::Yaml { mods, .. } => Some(mods.len()),
        _ => Some(0),
    }
}
