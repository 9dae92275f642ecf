//! A whole run as data: the world, the histories of the tasks, the schedule, the faults, the logger.

use crate::sched::SchedSpec;
use crate::spec::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum TextSpec {
    Lit(String),
    /// unit repeated n times, then a tail
    Rep { head: String, unit: String, n: u32, tail: String },
}

impl TextSpec {
    pub fn get(&self) -> String {
        match self {
            TextSpec::Lit(s) => s.clone(),
            TextSpec::Rep { head, unit, n, tail } => format!("{}{}{}", head, unit.repeat(*n as usize), tail),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ModSpec {
    Conv(Vec<(String, String)>),
    Elim(Vec<String>),
    Reduce(String),
    Dotted,
    Lig(Vec<(String, String)>),
    Trim,
    Neologdn,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct CsvStyle {
    pub crlf: bool,
    pub quote: bool,
    pub no_final_newline: bool,
    pub blank_lines: bool,
    pub bom: bool,
    /// empty lines in front of the last row
    #[serde(default)]
    pub pad: u32,
    /// lines end in a carriage return
    #[serde(default)]
    pub cr: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct YamlStyle {
    /// 0 double, 1 single quotes
    pub quote: u8,
    pub flow: bool,
    pub marker: bool,
    pub items_last: bool,
    /// `items` as a list of from/to pairs, as the README shows it
    pub list: bool,
    /// bytes of comment lines put between the sections
    pub pad: u32,
    pub crlf: bool,
    #[serde(default)]
    pub no_final_newline: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Content {
    /// rows of from.., to
    Csv { rows: Vec<Vec<String>>, style: CsvStyle },
    /// items: to -> froms
    Yaml { items: Option<Vec<(String, Vec<String>)>>, mods: Vec<ModSpec>, style: YamlStyle },
    /// CSV with `n` generated rows (private-use and CJK characters), `tag` distinguishing versions
    BigCsv { n: u32, tag: u32 },
    BigYaml { n: u32, tag: u32 },
    /// bytes with no promised meaning
    Raw(Bytes),
    /// rendered like the inner one, but contradictory or ambiguous: only agreement between runs is judged
    Agree(Box<Content>),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum PRef {
    /// slot of the running task
    L(u32),
    /// pipeline shared by all tasks
    S(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Make {
    New,
    Default,
    Preset,
    Neologdn,
    LoadRc,
    File(String),
    FromTable(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step1 {
    Preset,
    Neologdn,
    Table(u32),
}

pub type Pair = (String, String);

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum TabSrc {
    Empty,
    Preset,
    /// from_corr of exactly these items
    Items(Vec<Pair>),
    /// from_corr of many generated items
    Big { n: u32, tag: u32 },
    /// TableBuilder::from_csv_path / from_yaml_path
    Builder(String),
    /// file::table_from_csv_path / table_from_yaml_path
    Func(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Edit {
    /// via: 0 builder, 1 Table::add, 2 `+`, 3 `+=`
    Add { items: Vec<Pair>, via: u8 },
    Remove { items: Vec<Pair>, via: u8 },
    AddTable { from: u32 },
    RemoveTable { from: u32 },
    Preset,
    RemovePreset,
    AddFile(String),
    /// a caller's own source of mappings: panics when asked for the n-th time (0: never), uses the library meanwhile
    Own { items: Vec<Pair>, panic_at: u8, add: bool, reenter: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Make { dst: u32, how: Make },
    Use { dst: u32, step: Step1 },
    Drop { dst: u32 },
    Norm { src: PRef, text: u32 },
    /// same text out of a reused buffer (same address as other texts)
    NormBuf { src: PRef, text: u32 },
    Pos { src: PRef, text: u32 },
    TabMake { dst: u32, src: TabSrc },
    TabEdit { dst: u32, edit: Edit },
    TabCopy { dst: u32, src: u32 },
    TabDrop { dst: u32 },
    TabItems { src: u32 },
    TabEq { a: u32, b: u32 },
    /// to_csv_writer into a faulty writer; end: 0 flush, 1 into_inner
    Export { src: u32, end: u8 },
    /// to_serialized_corr through serde_yaml
    ExportYaml { src: u32 },
    /// file::modifiers_from_yaml_path
    ModsFn { path: String },
    Fs(Act),
    /// 0 off, 3 info, 4 debug, 5 trace
    Level(u8),
    /// report live heap of the code under test
    Mem,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OpAt {
    pub id: u32,
    pub op: Op,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct LoggerSpec {
    pub install: bool,
    pub level: u8,
    /// probability (of 100) that `enabled` says no although the level allows it
    pub flaky: u8,
    /// (op, n): the sink panics at the n-th record of the op
    pub panics: Vec<(u32, u32)>,
    /// the sink calls back into the library at every k-th record (0: never)
    pub reenter: u32,
    /// the sink changes the level at every k-th record (0: never)
    pub flip: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Scenario {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub profile: String,
    pub world: WorldSpec,
    pub contents: Vec<Content>,
    pub texts: Vec<TextSpec>,
    /// executed by task 0 before the other tasks may start; its pipeline slots become the shared ones
    pub setup: Vec<OpAt>,
    pub tasks: Vec<Vec<OpAt>>,
    /// repeat the task histories this many times (0 and 1: once); ids of later rounds are offset
    pub rounds: u32,
    pub sched: SchedSpec,
    pub logger: LoggerSpec,
    /// further entropy values the run is repeated with; all results must agree
    pub variants: Vec<u64>,
    /// (a, b): operation b has eight times as much to work on as operation a
    #[serde(default)]
    pub eightfold: Vec<(u32, u32)>,
}

pub const ROUND: u32 = 100_000;

/// rounds do the same work with other texts and other spellings of the paths, so that what is kept per text or per path adds up
pub fn round_text(t: &str, rounds: u32, k: u32) -> String {
    if rounds > 1 {
        format!("{}{}", t, char::from_u32(0xF8A0 + k).unwrap())
    } else {
        t.to_string()
    }
}
pub fn round_path(p: &str, k: u32) -> String {
    let dots = "./".repeat(k as usize);
    match p.strip_prefix('/') {
        Some(r) => format!("/{}{}", dots, r),
        None => format!("{}{}", dots, p),
    }
}

// ---- rendering ----

fn ydq(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7F => o.push_str(&format!("\\x{:02x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn yq(s: &str, q: u8) -> String {
    if q == 1 && !s.contains(|c: char| c.is_control()) {
        format!("'{}'", s.replace('\'', "''"))
    } else {
        ydq(s)
    }
}

pub fn csv_field(s: &str, quote: bool) -> String {
    if quote || s.contains(|c| c == ',' || c == '"' || c == '\n' || c == '\r') || s.is_empty() {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}

pub const FEW: u32 = 50_000;

/// characters of generated big tables: from private-use area A, to CJK
pub fn big_pair(i: u32, tag: u32) -> (String, String) {
    let f = char::from_u32(0xF0000 + i).unwrap();
    // (tags from FEW: few targets)
    let k = if tag >= FEW { i % 3 } else { i * 7 + tag * 131 };
    let t = char::from_u32(0x4E00 + k % 20000).unwrap();
    (f.to_string(), t.to_string())
}

pub fn big_pairs(n: u32, tag: u32) -> Vec<Pair> {
    (0..n).map(|i| big_pair((i * 37) % n.max(1), tag)).collect::<std::collections::BTreeSet<_>>().into_iter().collect()
}

pub fn render(c: &Content) -> Vec<u8> {
    match c {
        Content::Raw(b) => b.0.clone(),
        Content::Agree(c) => render(c),
        Content::BigCsv { n, tag } => {
            let rows = (0..*n).map(|i| { let (f, t) = big_pair(i, *tag); vec![f, t] }).collect();
            render(&Content::Csv { rows, style: CsvStyle::default() })
        }
        Content::BigYaml { n, tag } => {
            let mut s = String::from("items:\n");
            let mut m: std::collections::BTreeMap<String, Vec<String>> = Default::default();
            for i in 0..*n {
                let (f, t) = big_pair(i, *tag);
                m.entry(t).or_default().push(f);
            }
            for (t, f) in m {
                s.push_str(&format!("  {}: [{}]\n", t, f.iter().map(|x| ydq(x)).collect::<Vec<_>>().join(", ")));
            }
            s.into_bytes()
        }
        Content::Csv { rows, style } => {
            let nl = if style.cr { "\r" } else if style.crlf { "\r\n" } else { "\n" };
            let mut s = String::new();
            if style.bom {
                s.push('\u{feff}');
            }
            s.push_str("from,to");
            s.push_str(nl);
            for (i, r) in rows.iter().enumerate() {
                if i + 1 == rows.len() {
                    s.push_str(&nl.repeat(style.pad as usize));
                }
                if style.blank_lines && i % 3 == 1 {
                    s.push_str(nl);
                }
                s.push_str(&r.iter().map(|f| csv_field(f, style.quote)).collect::<Vec<_>>().join(","));
                if i + 1 < rows.len() || !style.no_final_newline {
                    s.push_str(nl);
                }
            }
            s.into_bytes()
        }
        Content::Yaml { items, mods, style } => {
            let q = |s: &str| yq(s, style.quote);
            let mut head = String::new();
            if style.marker {
                head.push_str("---\n");
            }
            let mut si = String::new();
            if let Some(items) = items {
                if style.list {
                    si.push_str("items:\n");
                    for (t, fs) in items {
                        for f in fs {
                            si.push_str(&format!("  - from: {}\n    to: {}\n", q(f), q(t)));
                        }
                    }
                    if items.is_empty() {
                        si = "items: []\n".into();
                    }
                } else if style.flow || items.is_empty() {
                    let v: Vec<String> = items
                        .iter()
                        .map(|(t, fs)| format!("{}: [{}]", q(t), fs.iter().map(|f| q(f)).collect::<Vec<_>>().join(", ")))
                        .collect();
                    si.push_str(&format!("items: {{{}}}\n", v.join(", ")));
                } else {
                    si.push_str("items:\n");
                    for (t, fs) in items {
                        if fs.len() == 1 {
                            si.push_str(&format!("  {}: {}\n", q(t), q(&fs[0])));
                        } else {
                            si.push_str(&format!("  {}:\n", q(t)));
                            for f in fs {
                                si.push_str(&format!("    - {}\n", q(f)));
                            }
                        }
                    }
                }
            }
            let mut sm = String::new();
            if !mods.is_empty() {
                sm.push_str("modifiers:\n");
                for m in mods {
                    match m {
                        ModSpec::Conv(v) => {
                            sm.push_str("  character_converter:\n");
                            for (f, t) in v {
                                sm.push_str(&format!("    {}: {}\n", q(f), q(t)));
                            }
                        }
                        ModSpec::Elim(v) => {
                            sm.push_str("  character_eliminator:\n");
                            for c in v {
                                sm.push_str(&format!("    - {}\n", q(c)));
                            }
                        }
                        ModSpec::Reduce(c) => sm.push_str(&format!("  consecutive_character_reducer: {}\n", q(c))),
                        ModSpec::Dotted => sm.push_str("  dotted_space_eliminator:\n"),
                        ModSpec::Lig(v) => {
                            sm.push_str("  ligature_translator:\n");
                            for (f, t) in v {
                                sm.push_str(&format!("    {}: {}\n", q(f), q(t)));
                            }
                        }
                        ModSpec::Trim => sm.push_str("  trim:\n"),
                        ModSpec::Neologdn => sm.push_str("  neologdn:\n"),
                    }
                }
            }
            let mut pad = String::new();
            while (pad.len() as u32) < style.pad {
                pad.push_str("# 設定ファイル padding line, ignored by the loader\n");
            }
            let mut s = head;
            if style.items_last {
                s.push_str(&sm);
                s.push_str(&pad);
                s.push_str(&si);
            } else {
                s.push_str(&si);
                s.push_str(&pad);
                s.push_str(&sm);
            }
            if si.is_empty() && sm.is_empty() {
                s.push_str("version: \"1\"\n");
            }
            if style.no_final_newline && s.ends_with('\n') {
                s.pop();
            }
            if style.crlf {
                s = s.replace('\n', "\r\n");
            }
            s.into_bytes()
        }
    }
}
