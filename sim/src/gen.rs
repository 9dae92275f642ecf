//! Draws scenarios: one seed, one scenario.

use crate::rng::{hash_str, mix, Rng};
use crate::scenario::*;
use crate::sched::SchedSpec;
use crate::spec::*;

const HALF: &str = "ｱｲｳｴｵｶｷｸｹｺｻﾀﾁﾊﾋﾌﾍﾎﾜｦﾝｧｯｬﾞﾟ｡､｢｣";
const WIDE: &str = "ＡＢｚａ０９！＃＄％＆（）＝～｜＠［］：；＜＞？＿／＼＾｀　，．";
const ASCII: &str = "aZbQ09xY7 -~=!,.\"'#:";
const LONG: &str = "ーｰ—―─━﹣";
const HYPH: &str = "˗֊‐‑‒–⁃⁻₋−－-";
const TILDE: &str = "~∼∾〜〰～";
const KANA: &str = "かきはへほうゔカキクハヒフヘホウヴパが";
const MARK: &str = "゛゜";
const ODD: &str = "漢字検査\u{0301}é😀\u{10FFFF}\u{200B}\t\u{FEFF}ßǅ①㍿㌔";
const TO: &str = "東西南北春夏秋冬山川空海火水木金土日月星甲乙丙丁戊己庚辛壬癸子丑寅卯辰巳午未申酉戌亥一二三四五六七八九十";

fn ch(r: &mut Rng, s: &str) -> char {
    let v: Vec<char> = s.chars().collect();
    *r.pick(&v)
}

pub struct G {
    pub r: Rng,
    pub sc: Scenario,
    /// characters that matter for the files of the scenario
    pub probe: Vec<String>,
    next: Vec<u32>,
    setup_next: u32,
    tag: u32,
    /// size of the last big table
    big: Option<u32>,
}

impl G {
    pub fn new(property: &str, seed: u64, run: u64) -> G {
        let s = mix(mix(seed, hash_str(property)), run);
        let mut r = Rng::new(s);
        let mut sc = Scenario { property: property.into(), seed, run, ..Default::default() };
        sc.world.entropy = r.next();
        sc.world.io_seed = r.next();
        sc.world.clock_ns = match r.below(12) {
            0 => r.below(3_000_000_000),
            1 => 1 << 31,
            2 => 2_147_483_647_000_000_000 + r.below(1_000_000_000),
            3 => 9_100_000_000_000_000_000,
            _ => 1_600_000_000_000_000_000 + r.below(400_000_000) * 1_000_000_000,
        };
        sc.world.env.insert("HOME".into(), Bytes(b"/home/u".to_vec()));
        sc.world.cwd = Some("/work".into());
        sc.world.passwd_home = Some("/home/pw".into());
        G { r, sc, probe: Vec::new(), next: Vec::new(), setup_next: 90_000, tag: 0, big: None }
    }

    pub fn tasks(&mut self, n: usize) {
        self.sc.tasks = vec![Vec::new(); n];
        self.next = (0..n as u32).map(|t| t * 10_000 + 1).collect();
    }

    pub fn op(&mut self, t: usize, op: Op) -> u32 {
        let id = self.next[t];
        self.next[t] += 1;
        self.sc.tasks[t].push(OpAt { id, op });
        id
    }

    pub fn setup(&mut self, op: Op) -> u32 {
        let id = self.setup_next;
        self.setup_next += 1;
        self.sc.setup.push(OpAt { id, op });
        id
    }

    pub fn content(&mut self, c: Content) -> usize {
        self.sc.contents.push(c);
        self.sc.contents.len() - 1
    }

    pub fn file(&mut self, path: &str, c: usize) {
        self.sc.world.files.push(FileSpec { path: path.into(), node: Node::File(c) });
    }

    pub fn fault(&mut self, op: u32, class: &str, n: u32, act: Act) {
        self.sc.world.faults.push(FaultSpec { op, class: class.into(), n, act });
    }

    pub fn text(&mut self, s: TextSpec) -> u32 {
        if let Some(i) = self.sc.texts.iter().position(|t| *t == s) {
            return i as u32;
        }
        self.sc.texts.push(s);
        self.sc.texts.len() as u32 - 1
    }

    /// random text over everything the steps react to
    pub fn rand_str(&mut self, n: usize) -> String {
        let mut s = String::new();
        while s.chars().count() < n {
            let k = self.r.below(14);
            let r = &mut self.r;
            match k {
                0 | 1 => s.push(ch(r, HALF)),
                2 => s.push(ch(r, WIDE)),
                3 | 4 => s.push(ch(r, ASCII)),
                5 => {
                    let c = ch(r, LONG);
                    for _ in 0..r.range(1, 4) {
                        s.push(c)
                    }
                }
                6 => s.push(ch(r, HYPH)),
                7 => s.push(ch(r, TILDE)),
                8 => {
                    s.push(ch(r, KANA));
                    s.push(ch(r, MARK));
                }
                9 => {
                    for _ in 0..r.range(1, 3) {
                        s.push(' ')
                    }
                }
                10 => s.push(ch(r, ODD)),
                11 => s.push(ch(r, KANA)),
                _ => {
                    if !self.probe.is_empty() {
                        let p = r.pick(&self.probe).clone();
                        s.push_str(&p);
                    } else {
                        s.push(ch(r, TO));
                    }
                }
            }
        }
        s
    }

    /// a text over very few characters, one of each of a few kinds, so that every kind meets every other
    pub fn tangle(&mut self) -> String {
        let mut few: Vec<String> = Vec::new();
        for _ in 0..self.r.range(1, 4) {
            let r = &mut self.r;
            match r.below(11) {
                0 => few.push(ch(r, HALF).to_string()),
                1 => few.push(ch(r, WIDE).to_string()),
                2 => few.push(ch(r, LONG).to_string()),
                3 => few.push(ch(r, TILDE).to_string()),
                4 => few.push(" ".into()),
                5 => few.push(ch(r, HYPH).to_string()),
                6 => few.push(ch(r, "aZ09-~=").to_string()),
                7 => few.push(ch(r, ODD).to_string()),
                8 => {
                    few.push("　".into());
                    few.push(" ".into());
                }
                9 => {
                    few.push(ch(r, KANA).to_string());
                    few.push(ch(r, MARK).to_string());
                }
                _ if !self.probe.is_empty() => few.push(self.r.pick(&self.probe).clone()),
                _ => few.push(ch(r, TO).to_string()),
            }
        }
        if self.r.chance(1, 2) {
            few.push(ch(&mut self.r, KANA).to_string());
            few.push(ch(&mut self.r, MARK).to_string());
        }
        let n = self.r.range(2, 16);
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(&self.r.pick(&few).clone());
        }
        s
    }

    pub fn rand_text(&mut self) -> u32 {
        let k = self.r.below(26);
        let t = match k {
            0 => TextSpec::Lit(String::new()),
            1 => TextSpec::Lit(" ".repeat(self.r.range(1, 4) as usize)),
            2 => {
                let unit = { let n = self.r.range(1, 6) as usize; self.rand_str(n) };
                let head = self.rand_str(2);
                let tail = self.rand_str(3);
                let n = match self.r.below(60) {
                    0..=5 => self.r.log(12_000),
                    6 => self.r.log(120_000 / unit.chars().count().max(1) as u64),
                    _ => self.r.log(400),
                } as u32;
                TextSpec::Rep { head, unit, n, tail }
            }
            20..=25 => {
                let n = self.r.range(1, 4);
                TextSpec::Lit((0..n).map(|_| self.tangle()).collect::<String>())
            }
            _ => {
                let n = self.r.log(40) as usize;
                let s = self.rand_str(n);
                let s = if self.r.chance(1, 4) { format!(" {} ", s) } else { s };
                TextSpec::Lit(s)
            }
        };
        self.text(t)
    }

    /// a long text made of things that matter to their neighbours, around a round length
    pub fn wide_text(&mut self) -> u32 {
        let unit = match self.r.below(6) {
            0 => "a ".to_string(),
            1 => "無変換x".to_string(),
            2 => format!("{}{}", ch(&mut self.r, KANA), ch(&mut self.r, MARK)),
            3 => ch(&mut self.r, LONG).to_string(),
            4 => self.tangle(),
            _ => {
                let n = self.r.range(1, 6) as usize;
                self.rand_str(n)
            }
        };
        let round = 1u64 << match self.r.below(4) { 0 => self.r.range(12, 15), 1 | 2 => 16, _ => 17 };
        let per = if self.r.chance(1, 2) { unit.len() } else { unit.chars().count() }.max(1) as u64;
        let n = (round / per + self.r.log(40)).min(300_000 / unit.len().max(1) as u64) as u32;
        let head = { let n = self.r.below(4) as usize; self.rand_str(n) };
        let tail = { let n = self.r.range(1, 6) as usize; self.rand_str(n) + "ｶﾞ①Ａー「 x" };
        self.text(TextSpec::Rep { head, unit, n, tail })
    }

    /// what runs of are made of
    fn run_unit(&mut self) -> String {
        let s = *self.r.pick(&[" ", " ", LONG, TILDE, HYPH, WIDE, HALF, "　", "a ", "か゛", "ﾊﾟ", "。a"]);
        if s.chars().count() > 2 { ch(&mut self.r, s).to_string() } else { s.to_string() }
    }

    /// a text in which every mapping of every file of the scenario shows
    pub fn probe_text(&mut self) -> u32 {
        let mut s = String::from("  ");
        for (i, p) in self.probe.iter().enumerate() {
            s.push_str(p);
            if i % 5 == 4 {
                s.push_str(" a  b ");
            }
        }
        s.push_str("ﾊﾟＡーーー~か゛ x y ");
        self.text(TextSpec::Lit(s))
    }

    fn from_char(&mut self, used: &mut Vec<String>) -> String {
        // (what cannot stand in a line of text is for the properties without the command line)
        let odd = !["C13", "C14", "C15", "C17"].contains(&self.sc.property.as_str()) && self.r.chance(1, 16);
        loop {
            let c = match self.r.below(5) {
                _ if odd => ch(&mut self.r, "\r\n\t\"\',#:{}[]-&*!|>%@`\\~?\u{0}\u{1b}\u{7f}\u{85}\u{a0}\u{2028}\u{3000} "),
                0 => char::from_u32(0xE000 + self.r.below(60) as u32).unwrap(),
                1 => char::from_u32('A' as u32 + self.r.below(26) as u32).unwrap(),
                2 => char::from_u32('あ' as u32 + self.r.below(60) as u32).unwrap(),
                3 => ch(&mut self.r, HALF),
                _ => char::from_u32(0x1F600 + self.r.below(60) as u32).unwrap(),
            }
            .to_string();
            if !used.contains(&c) {
                used.push(c.clone());
                return c;
            }
        }
    }

    fn to_char(&mut self) -> String {
        match self.r.below(6) {
            0 => char::from_u32('a' as u32 + self.r.below(26) as u32).unwrap().to_string(),
            1 => char::from_u32(0x1F900 + self.r.below(80) as u32).unwrap().to_string(),
            2 => ch(&mut self.r, WIDE).to_string(),
            _ => ch(&mut self.r, TO).to_string(),
        }
    }

    fn note(&mut self, s: &str) {
        if !self.probe.iter().any(|p| p == s) && self.probe.len() < 400 {
            self.probe.push(s.to_string());
        }
    }

    /// mappings without contradictions: to -> froms, with a version mark
    pub fn items(&mut self, n: usize) -> Vec<(String, Vec<String>)> {
        let mut used = Vec::new();
        let mut v: Vec<(String, Vec<String>)> = Vec::new();
        self.tag += 1;
        let mark = char::from_u32(0xE800).unwrap().to_string();
        let ver = char::from_u32(0xEA00 + self.tag).unwrap().to_string();
        self.note(&mark);
        v.push((ver, vec![mark.clone()]));
        used.push(mark);
        for _ in 0..n {
            let to = self.to_char();
            let k = if self.r.chance(1, 4) { self.r.range(2, 4) } else { 1 };
            let mut fs = Vec::new();
            for _ in 0..k {
                let f = self.from_char(&mut used);
                self.note(&f);
                fs.push(f);
            }
            match v.iter_mut().find(|x| x.0 == to) {
                Some(x) => x.1.extend(fs),
                None => v.push((to, fs)),
            }
        }
        if self.r.chance(1, 2) {
            let m = v.remove(0);
            v.push(m);
        }
        v
    }

    pub fn mods(&mut self, max: usize) -> Vec<ModSpec> {
        let mut kinds: Vec<u8> = (0..7).collect();
        self.r.shuffle(&mut kinds);
        let n = self.r.idx(max + 1).min(7);
        let mut v = Vec::new();
        for k in kinds.into_iter().take(n) {
            let m = match k {
                0 => {
                    let mut used = Vec::new();
                    let n = self.r.range(1, 4);
                    let mut p = Vec::new();
                    for _ in 0..n {
                        let f = self.from_char(&mut used);
                        self.note(&f);
                        p.push((f, self.to_char()));
                    }
                    ModSpec::Conv(p)
                }
                1 => {
                    let mut e: Vec<String> = Vec::new();
                    for _ in 0..self.r.range(1, 4) {
                        let c = match self.r.below(3) {
                            0 => ch(&mut self.r, TILDE),
                            1 => ch(&mut self.r, TO),
                            _ => ch(&mut self.r, KANA),
                        }
                        .to_string();
                        self.note(&c);
                        e.push(c);
                    }
                    ModSpec::Elim(e)
                }
                2 => {
                    let c = match self.r.below(3) {
                        0 => 'ー',
                        1 => ' ',
                        _ => ch(&mut self.r, TO),
                    }
                    .to_string();
                    let rep = c.repeat(3);
                    self.note(&rep);
                    ModSpec::Reduce(c)
                }
                3 => ModSpec::Dotted,
                4 => {
                    let mut p: Vec<(String, String)> = Vec::new();
                    for i in 0..self.r.range(1, 4) {
                        let (f, t) = if self.r.chance(1, 2) {
                            let b = ["ハパ", "ヒピ", "ほぽ", "ふぷ"][i as usize % 4].chars().collect::<Vec<_>>();
                            (format!("{}゜", b[0]), b[1].to_string())
                        } else {
                            let a = char::from_u32(0xF100 + (i as u32) * 4).unwrap();
                            let b = char::from_u32(0xF101 + (i as u32) * 4).unwrap();
                            let t = match self.r.below(7) {
                                0 => ch(&mut self.r, TO).to_string(),
                                1 => format!("{}{}", ch(&mut self.r, TO), ch(&mut self.r, TO)),
                                2 => String::from("㌔"),
                                // results that complete another match, or contain what they replace
                                3 => b.to_string(),
                                4 => a.to_string(),
                                5 => format!("{}{}{}", ch(&mut self.r, TO), a, b),
                                _ => format!("{}{}{}{}", a, b, a, b),
                            };
                            if self.r.chance(1, 2) {
                                let n = self.r.range(1, 3) as usize;
                                let m = self.r.range(1, 3) as usize;
                                let s = format!("{}{}", a.to_string().repeat(n), b.to_string().repeat(m));
                                self.note(&s);
                            }
                            (format!("{}{}", a, b), t)
                        };
                        if !p.iter().any(|x| x.0 == f) {
                            self.note(&f);
                            p.push((f, t));
                        }
                    }
                    ModSpec::Lig(p)
                }
                5 => ModSpec::Trim,
                _ => ModSpec::Neologdn,
            };
            v.push(m);
        }
        v
    }

    pub fn csv(&mut self, n: usize) -> Content {
        let items = self.items(n);
        let mut rows = Vec::new();
        for (t, fs) in items {
            if self.r.chance(1, 2) {
                let mut row = fs;
                row.push(t);
                rows.push(row);
            } else {
                for f in fs {
                    rows.push(vec![f, t.clone()]);
                }
            }
        }
        if self.r.chance(1, 8) {
            rows.push(vec!["x".into()]);
        }
        if self.r.chance(1, 30) {
            let n = self.r.range(200, 400) as u32;
            let mut row: Vec<String> = (0..n).map(|i| big_pair(i, 0).0).collect();
            for k in [0, n / 2, n - 1] {
                self.note(&row[k as usize]);
            }
            row.push(self.to_char());
            let at = self.r.idx(rows.len() + 1);
            rows.insert(at, row);
        }
        let style = CsvStyle {
            cr: self.r.chance(1, 16),
            crlf: self.r.chance(1, 4),
            quote: self.r.chance(1, 4),
            no_final_newline: self.r.chance(1, 3),
            blank_lines: self.r.chance(1, 5),
            bom: self.r.chance(1, 10),
            pad: match self.r.below(80) {
                0 => self.r.log(2_000_000) as u32,
                1 => 65_400 + self.r.below(150) as u32,
                2 => 8_100 + self.r.below(100) as u32,
                _ => 0,
            },
        };
        Content::Csv { rows, style }
    }

    pub fn yaml(&mut self, n: usize, mods: usize) -> Content {
        let items = if self.r.chance(1, 8) { None } else { Some(self.items(n)) };
        let mods = self.mods(mods);
        let pad = match self.r.below(5) {
            0 if self.r.chance(1, 25) => self.r.log(1_200_000) as u32,
            0 => self.r.log(20_000) as u32,
            1 => 8_000 + self.r.below(1000) as u32,
            _ => 0,
        };
        let style = YamlStyle {
            quote: self.r.below(2) as u8,
            flow: self.r.chance(1, 4),
            marker: self.r.chance(1, 4),
            items_last: self.r.chance(1, 3),
            list: self.r.chance(1, 4),
            pad,
            crlf: self.r.chance(1, 8),
            no_final_newline: self.r.chance(1, 4),
        };
        Content::Yaml { items, mods, style }
    }

    /// a well-formed configuration matching the extension of `path`
    pub fn cfg(&mut self, path: &str) -> usize {
        let n = self.r.log(12) as usize;
        let c = if path.ends_with(".csv") {
            if self.r.chance(1, 12) {
                self.tag += 1;
                self.note(&big_pair(0, 0).0);
                self.note(&big_pair(3, 0).0);
                // tables of the same size, often
                let n = match self.big {
                    Some(n) if self.r.chance(1, 2) => n,
                    _ => self.r.range(300, 2500) as u32,
                };
                self.big = Some(n);
                for k in [n - 1, n / 2] {
                    let p = big_pair(k, 0).0;
                    self.note(&p);
                }
                Content::BigCsv { n, tag: self.tag }
            } else {
                self.csv(n)
            }
        } else if self.r.chance(1, 30) {
            self.tag += 1;
            let n = match self.big {
                Some(n) if n < 700 && self.r.chance(1, 2) => n,
                _ => self.r.range(200, 700) as u32,
            };
            self.big = Some(n);
            for k in [0, n / 2, n - 1] {
                let p = big_pair(k, 0).0;
                self.note(&p);
            }
            Content::BigYaml { n, tag: self.tag }
        } else {
            let mods = if self.r.chance(1, 6) { 9 } else { 4 };
            self.yaml(n, mods)
        };
        self.content(c)
    }

    pub fn chunk(&mut self) -> Chunk {
        match self.r.below(6) {
            0 | 1 => Chunk::Whole,
            2 => Chunk::Fixed(1),
            3 => Chunk::Fixed(self.r.log(64) as u32),
            4 => Chunk::Random(self.r.log(5000) as u32),
            _ => Chunk::Random(7),
        }
    }

    pub fn sched(&mut self) {
        let gap = *self.r.pick(&[12u64, 60, 300, 2_000, 20_000, 200_000]);
        let (gap, fine) = if self.r.chance(1, 3) {
            (*self.r.pick(&[0, 0, 300, 20_000]), *self.r.pick(&[4u64, 30, 200, 1_000, 10_000, 100_000]))
        } else {
            (gap, 0)
        };
        let hot = if self.r.chance(1, 2) { *self.r.pick(&[5u8, 20, 50, 80]) } else { 0 };
        let gap = if hot > 0 && self.r.chance(1, 2) { *self.r.pick(&[0, 2_000, 200_000]) } else { gap };
        let stall = if self.r.chance(1, 4) { *self.r.pick(&[3u8, 10, 30]) } else { 0 };
        self.sc.sched = SchedSpec::Seeded { seed: self.r.next(), gap, fine, hot, stall };
    }

    pub fn logger(&mut self, level: u8) {
        self.sc.logger.install = true;
        self.sc.logger.level = level;
    }

    pub fn path(&mut self) -> String {
        let odd = self.r.chance(1, 4);
        let d = *self.r.pick(&["/cfg", "/work", "/data/深い/dir", "."]);
        let n = *self.r.pick(&["a", "b", "table", "設定", ".hidden", "with space", "chanoma.v2", if odd { "~" } else { "a" }, if odd { " lead" } else { "b" }, if odd { "a:b" } else { "table" }, if odd { "$HOME" } else { "a" }, if odd { "q\\\"'*?" } else { "b" }]);
        let e = *self.r.pick(&["csv", "yaml", "yaml", "yml", "csv"]);
        let d = if d == "." { String::new() } else { format!("{}/", d) };
        format!("{}{}.{}", d, n, e)
    }

    pub fn abs(p: &str) -> String {
        if p.starts_with('/') {
            p.to_string()
        } else {
            format!("/work/{}", p)
        }
    }

    /// some distinct files with contents; returns their paths
    pub fn files(&mut self, n: usize) -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        while v.len() < n {
            let p = self.path();
            if v.iter().any(|x| Self::abs(x) == Self::abs(&p)) {
                continue;
            }
            let c = self.cfg(&p);
            if self.r.chance(1, 10) {
                // reached through a link
                let t = format!("/real/f{}", v.len());
                self.file(&t, c);
                self.sc.world.files.push(FileSpec { path: Self::abs(&p), node: Node::Link(t) });
            } else {
                self.file(&Self::abs(&p), c);
            }
            v.push(p);
        }
        v
    }

    pub fn rc_paths(&self) -> Vec<String> {
        let mut v = Vec::new();
        for d in ["/home/u/.config/chanoma", "/home/u", "/work"] {
            for n in ["chanomarc", ".chanomarc"] {
                for e in ["csv", "yaml", "yml"] {
                    v.push(format!("{}/{}.{}", d, n, e));
                }
            }
        }
        v
    }

    /// populates some of the documented places
    pub fn rc_files(&mut self, max: usize) -> Vec<String> {
        let mut all = self.rc_paths();
        self.r.shuffle(&mut all);
        let n = self.r.idx(max + 1);
        let mut v = Vec::new();
        for p in all.into_iter().take(n) {
            let c = self.cfg(&p);
            self.file(&p, c);
            v.push(p);
        }
        v
    }

    pub fn read_errno(&mut self) -> i32 {
        *self.r.pick(&[libc::EIO, libc::EIO, libc::EINTR, libc::ESTALE, libc::ENOMEM, libc::EISDIR, libc::ETIMEDOUT, libc::EAGAIN, libc::EBADF, libc::EINVAL, libc::ENXIO, libc::ENOTCONN])
    }
    pub fn open_errno(&mut self) -> i32 {
        *self.r.pick(&[libc::EACCES, libc::EIO, libc::EMFILE, libc::ENFILE, libc::ENOENT, libc::ENOMEM, libc::ELOOP, libc::ESTALE, libc::EINTR, libc::EPERM, libc::ENOTDIR, libc::EAGAIN, libc::ETXTBSY, libc::ENODEV, libc::ENAMETOOLONG])
    }

    /// an error somewhere in the I/O of an operation
    pub fn io_fault(&mut self, op: u32) {
        match self.r.below(12) {
            0..=5 => {
                let k = if self.r.chance(1, 3) { 40 } else { 4 };
                let n = self.r.log(k) as u32 - 1;
                let e = self.read_errno();
                self.fault(op, "read", n, Act::Errno(e));
            }
            6..=8 => {
                let n = self.r.below(3) as u32;
                let e = self.open_errno();
                self.fault(op, "open", n, Act::Errno(e));
            }
            9 => {
                let n = self.r.below(4) as u32;
                let e = *self.r.pick(&[libc::EACCES, libc::EIO, libc::ENOMEM]);
                self.fault(op, "stat", n, Act::Errno(e));
            }
            10 => {
                let e = *self.r.pick(&[libc::EACCES, libc::EIO, libc::ENOENT]);
                let c = *self.r.pick(&["realpath", "getcwd", "fstat"]);
                self.fault(op, c, 0, Act::Errno(e));
            }
            _ => {
                let n = self.r.log(60) as u32 - 1;
                // (std takes a standard stream that answers with EBADF for one that the user left closed: the null device)
                let e = match self.read_errno() {
                    libc::EBADF => libc::EIO,
                    e => e,
                };
                self.fault(op, "any", n, Act::Errno(e));
            }
        }
    }

    fn shorts(&mut self, op: u32) {
        for _ in 0..self.r.below(3) {
            let n = self.r.log(20) as u32 - 1;
            let k = self.r.log(30) as u32;
            self.fault(op, "read", n, Act::Short(k));
        }
        if self.r.chance(1, 8) {
            let n = self.r.log(40) as u32 - 1;
            for k in n..n + self.r.log(60) as u32 {
                self.fault(op, "read", k, Act::Errno(libc::EINTR));
            }
        }
    }

    pub fn pairs(&mut self, n: usize) -> Vec<Pair> {
        (0..n)
            .map(|_| {
                let f = char::from_u32(0xE000 + self.r.below(24) as u32).unwrap().to_string();
                let t = *self.r.pick(&["東", "西", "a", "b"]);
                (f, t.to_string())
            })
            .collect()
    }

    fn load(&mut self, t: usize, dst: u32, path: &str) -> u32 {
        self.op(t, Op::Make { dst, how: Make::File(path.to_string()) })
    }

    /// make a pipeline some other way than from files
    fn plain(&mut self, t: Option<usize>, dst: u32) {
        let how = match self.r.below(6) {
            0 => Make::New,
            1 => Make::Default,
            2 | 3 => Make::Preset,
            _ => Make::Neologdn,
        };
        let o = Op::Make { dst, how };
        match t {
            Some(t) => self.op(t, o),
            None => self.setup(o),
        };
    }

    fn norm_any(&mut self, t: usize, src: PRef, text: u32) {
        let o = match self.r.below(4) {
            0 => Op::Pos { src, text },
            1 => Op::NormBuf { src, text },
            _ => Op::Norm { src, text },
        };
        self.op(t, o);
    }
}

pub fn scenario(property: &str, seed: u64, run: u64) -> Scenario {
    let mut g = G::new(property, seed, run);
    match property {
        "C01" => c01(&mut g),
        "C02" => c02(&mut g),
        "C03" => c03(&mut g),
        "C04" => c04(&mut g),
        "C05" => c05(&mut g),
        "C06" => c06(&mut g),
        "C07" => c07(&mut g),
        "C08" => c08(&mut g),
        "C09" => c09(&mut g),
        "C10" => c10(&mut g),
        "C11" => c11(&mut g),
        "C12" => c12(&mut g),
        "C15" => c15(&mut g),
        "C16" => c16(&mut g),
        "C21" => c21(&mut g),
        "C22" => c22(&mut g),
        _ => panic!("no generator for {}", property),
    }
    coarsen(&mut g.sc);
    if g.r.chance(1, 5) {
        let ids: Vec<u32> = g.sc.tasks.iter().flatten().map(|o| o.id).collect();
        if !ids.is_empty() {
            for _ in 0..g.r.range(1, 4) {
                let id = *g.r.pick(&ids);
                let n = g.r.log(30) as u32 - 1;
                let a = clock_jump(&mut g);
                g.fault(id, "any", n, a);
            }
        }
    }
    g.sc
}

pub fn clock_jump(g: &mut G) -> Act {
    let far = g.r.log(2_000_000_000_000) as i64;
    let ms = match g.r.below(4) {
        0 => 3_600_000,
        1 => g.r.below(2_000) as i64,
        _ => far,
    };
    Act::Clock(if g.r.chance(1, 2) { ms } else { -ms })
}

/// large files are not read byte by byte
fn coarsen(sc: &mut Scenario) {
    let size = sc.contents.iter().map(|c| match c {
        Content::Csv { style, .. } => style.pad,
        Content::Yaml { style, .. } => style.pad,
        _ => 0,
    }).max().unwrap_or(0);
    let least = size / 3_000;
    if least < 8 {
        return;
    }
    let fix = |c: &mut Chunk| match c {
        Chunk::Fixed(n) | Chunk::Random(n) => *n = (*n).max(least),
        Chunk::Whole => {}
    };
    fix(&mut sc.world.read_chunk);
}

// ---- C01 ----

fn ambiguous_ligatures(g: &mut G) -> ModSpec {
    let pool = ["a", "b", "c", "ab", "bc", "abc", "ca", "ハ", "ハ゜", "゜", "パ", "aa", "ba", "cab", "bb"];
    let n = g.r.range(2, 6);
    let mut v: Vec<(String, String)> = Vec::new();
    for _ in 0..n {
        let f = g.r.pick(&pool).to_string();
        let t = match g.r.below(4) {
            0 => String::new(),
            _ => g.r.pick(&pool).to_string(),
        };
        if !v.iter().any(|x| x.0 == f) {
            v.push((f, t));
        }
    }
    ModSpec::Lig(v)
}

fn c01(g: &mut G) {
    g.tasks(1);
    let mut paths = Vec::new();
    for i in 0..g.r.range(1, 3) {
        let yaml = g.r.chance(3, 4);
        let p = if yaml { format!("/cfg/f{}.yaml", i) } else { format!("/cfg/f{}.csv", i) };
        let c = if yaml {
            let Content::Yaml { items, mut mods, style } = g.yaml(8, 4) else { unreachable!() };
            mods.retain(|m| !matches!(m, ModSpec::Lig(_) | ModSpec::Conv(_)));
            let at = g.r.idx(mods.len() + 1);
            mods.insert(at, ambiguous_ligatures(g));
            if g.r.chance(1, 2) {
                // keys that share their first character
                let mut v = Vec::new();
                for k in ["ax", "ay", "az", "bx", "by", "a", "c"] {
                    if g.r.chance(1, 2) {
                        v.push((k.to_string(), g.r.pick(&["x", "y", "z", "ab", "c"]).to_string()));
                    }
                }
                if !v.is_empty() {
                    mods.push(ModSpec::Conv(v));
                }
            }
            // contradictory items
            let mut items = items.unwrap_or_default();
            for t in ["あ", "い", "う", "え"] {
                if g.r.chance(1, 2) {
                    items.push((t.to_string(), vec!["a".into(), "b".into(), g.r.pick(&["c", "ab", "ac"]).to_string()]));
                }
            }
            let mut seen = Vec::new();
            items.retain(|x| {
                let n = !seen.contains(&x.0);
                seen.push(x.0.clone());
                n
            });
            let mut style = style;
            style.pad = 0;
            Content::Yaml { items: Some(items), mods, style }
        } else {
            let Content::Csv { mut rows, style } = g.csv(8) else { unreachable!() };
            for _ in 0..g.r.range(2, 8) {
                let f = g.r.pick(&["a", "b", "c", "ab", "ac"]).to_string();
                let t = g.r.pick(&["x", "y", "z", "東", "a"]).to_string();
                rows.push(vec![f, t]);
            }
            g.r.shuffle(&mut rows);
            Content::Csv { rows, style }
        };
        let c = g.content(Content::Agree(Box::new(c)));
        g.file(&p, c);
        paths.push(p);
    }
    let mut texts = Vec::new();
    for _ in 0..3 {
        let mut s = String::new();
        for _ in 0..g.r.range(3, 40) {
            s.push_str(*g.r.pick(&["a", "b", "c", "ハ", "゜", "パ", " ", "d", "あ", "か゛", "x", "ﾊﾟ", "Ａ", "~", "ー"]));
        }
        texts.push(g.text(TextSpec::Lit(s)));
    }
    texts.push(g.probe_text());
    texts.push(g.rand_text());
    let mut slot = 0;
    for p in &paths {
        g.load(0, slot, p);
        if g.r.chance(1, 3) {
            g.op(0, Op::Use { dst: slot, step: Step1::Neologdn });
        }
        slot += 1;
        let via = g.r.chance(1, 2);
        g.op(0, Op::TabMake { dst: slot, src: if via { TabSrc::Builder(p.clone()) } else { TabSrc::Func(p.clone()) } });
        g.op(0, Op::Make { dst: slot + 10, how: Make::FromTable(slot) });
        let it = g.pairs(6);
        let v = g.r.below(6) as u8;
        g.op(0, Op::TabEdit { dst: slot, edit: Edit::Add { items: it, via: v } });
        let it = g.pairs(4);
        g.op(0, Op::TabEdit { dst: slot, edit: Edit::Remove { items: it, via: v % 4 } });
        if g.r.chance(1, 3) {
            g.op(0, Op::TabEdit { dst: slot, edit: Edit::Preset });
        }
        g.op(0, Op::TabItems { src: slot });
        g.op(0, Op::Export { src: slot, end: 1 });
        g.op(0, Op::ExportYaml { src: slot });
        g.op(0, Op::Make { dst: slot + 20, how: Make::FromTable(slot) });
        slot += 1;
    }
    g.plain(Some(0), 40);
    for s in (0..slot).chain(10..10 + slot).chain(20..20 + slot).chain([40]) {
        for t in &texts {
            g.op(0, Op::Norm { src: PRef::L(s), text: *t });
            g.op(0, Op::Pos { src: PRef::L(s), text: *t });
        }
    }
    g.sc.variants = (0..5).map(|_| g.r.next()).collect();
}

// ---- C02 ----

fn c02(g: &mut G) {
    let n = g.r.range(1, 3) as usize;
    g.tasks(n);
    let level = g.r.below(6) as u8;
    g.logger(level);
    g.sc.logger.flaky = if g.r.chance(1, 2) { g.r.range(5, 60) as u8 } else { 0 };
    g.sc.logger.reenter = if g.r.chance(1, 3) { g.r.range(1, 4) as u32 } else { 0 };
    g.sc.logger.flip = if g.r.chance(1, 3) { g.r.range(1, 5) as u32 } else { 0 };
    let files = { let n = g.r.idx(3); g.files(n) };
    let probe = g.probe_text();
    let wide = n == 1 && g.r.chance(1, 14);
    let wide: Vec<u32> = if wide { (0..2).map(|_| g.wide_text()).collect() } else { vec![] };
    // shared pipelines, the empty one included
    let mut k = 0;
    g.setup(Op::Make { dst: k, how: Make::New });
    k += 1;
    g.plain(None, k);
    k += 1;
    for f in &files {
        g.setup(Op::Make { dst: k, how: Make::File(f.clone()) });
        if g.r.chance(1, 2) {
            let step = if g.r.chance(1, 2) { Step1::Preset } else { Step1::Neologdn };
            g.setup(Op::Use { dst: k, step });
        }
        k += 1;
    }
    let lv = *g.r.pick(&[0u8, 3, 4, 4, 4, 5]);
    g.setup(Op::Level(lv));
    for t in 0..n {
        let m = if wide.is_empty() { g.r.range(4, 20) } else { 5 };
        for i in 0..m {
            let tx = if !wide.is_empty() { *g.r.pick(&wide) } else if g.r.chance(1, 3) { probe } else { g.rand_text() };
            match g.r.below(10) {
                0 => {
                    let l = *g.r.pick(&[0u8, 1, 3, 4, 4, 5]);
                    g.op(t, Op::Level(l));
                }
                1 => {
                    let d = 5 + g.r.below(2) as u32;
                    g.plain(Some(t), d);
                }
                2 if !files.is_empty() => {
                    let f = g.r.pick(&files).clone();
                    g.load(t, 7, &f);
                }
                3 => {
                    let d = *g.r.pick(&[5u32, 6, 7]);
                    let step = if g.r.chance(1, 2) { Step1::Preset } else { Step1::Neologdn };
                    g.op(t, Op::Use { dst: d, step });
                }
                _ => {
                    let src = if g.r.chance(2, 3) { PRef::S(g.r.below(k as u64) as u32) } else { PRef::L(5 + g.r.below(3) as u32) };
                    g.norm_any(t, src, tx);
                    let id = g.next[t] - 1;
                    if g.r.chance(1, 6) && i + 1 < m {
                        let nth = g.r.below(3) as u32;
                        g.sc.logger.panics.push((id, nth));
                        // afterwards everything works as before
                        g.norm_any(t, src, tx);
                    }
                }
            }
        }
    }
    g.sched();
}

// ---- C03 ----

fn c03(g: &mut G) {
    let crowd = g.r.chance(1, 6);
    let n = if crowd { g.r.range(5, 8) } else { g.r.range(2, 4) } as usize;
    g.tasks(n);
    if g.r.chance(1, 4) {
        let l = *g.r.pick(&[0u8, 3, 4, 5]);
        g.logger(l);
    }
    // everyone at the same small pipeline
    let focus = g.r.chance(1, 3);
    let files = if focus {
        let n = g.r.idx(4);
        let m = g.r.range(1, 3) as usize;
        let c = g.yaml(n, 0);
        let c = match c {
            Content::Yaml { items, mut style, .. } => {
                style.pad = 0;
                let mut mods = g.mods(3);
                mods.truncate(m);
                Content::Yaml { items, mods, style }
            }
            c => c,
        };
        let c = g.content(c);
        g.file("/cfg/focus.yaml", c);
        vec!["/cfg/focus.yaml".to_string()]
    } else {
        let n = g.r.idx(3);
        g.files(n)
    };
    let probe = g.probe_text();
    let k = if focus { 1 } else { g.r.range(1, 3) as u32 };
    for s in 0..k {
        if focus || !files.is_empty() && g.r.chance(1, 2) {
            let f = g.r.pick(&files).clone();
            g.setup(Op::Make { dst: s, how: Make::File(f) });
        } else {
            g.plain(None, s);
        }
        for _ in 0..if focus { 0 } else { g.r.below(3) } {
            let st = if g.r.chance(1, 2) { Step1::Preset } else { Step1::Neologdn };
            g.setup(Op::Use { dst: s, step: st });
        }
    }
    // texts that differ a little, so that a mixed-up result shows
    let mut texts = vec![probe];
    let stem = g.rand_str(6);
    for i in 0..4 {
        let s = match i {
            0 => format!("{}ｱ", stem),
            1 => format!("{}ｲ", stem),
            2 => format!("ｱ{}", stem),
            _ => stem.repeat(3),
        };
        texts.push(g.text(TextSpec::Lit(s)));
    }
    // nothing for most steps to do
    let s = g.r.pick(&["", "無", "x", "  "]).to_string();
    texts.push(g.text(TextSpec::Lit(s)));
    for _ in 0..2 {
        texts.push(g.rand_text());
    }
    if g.r.chance(1, 6) {
        let unit = g.rand_str(8);
        let n = g.r.range(50, 600) as u32;
        texts.push(g.text(TextSpec::Rep { head: "ｱ".into(), unit, n, tail: "ﾊﾟ".into() }));
    }
    let heavy = g.r.chance(1, 2);
    for t in 0..n {
        let m = if crowd { g.r.range(2, 5) } else { g.r.range(3, 14) };
        for _ in 0..m {
            let tx = *g.r.pick(&texts);
            match if focus { 99 } else { g.r.below(if heavy { 16 } else { 40 }) } {
                0 => g.plain(Some(t), 5),
                1 if !files.is_empty() => {
                    let f = g.r.pick(&files).clone();
                    g.load(t, 6, &f);
                }
                2 => {
                    g.op(t, Op::Make { dst: 6, how: Make::LoadRc });
                }
                3 => {
                    g.op(t, Op::TabMake { dst: 0, src: TabSrc::Empty });
                    let it = g.pairs(5);
                    let v = g.r.below(6) as u8;
                    g.op(t, Op::TabEdit { dst: 0, edit: Edit::Add { items: it, via: v } });
                    g.op(t, Op::TabItems { src: 0 });
                }
                4 => {
                    g.op(t, Op::Use { dst: 5, step: Step1::Neologdn });
                }
                5 => {
                    g.op(t, Op::Drop { dst: 5 });
                }
                6 if !files.is_empty() => {
                    let f = g.r.pick(&files).clone();
                    g.op(t, Op::TabMake { dst: 1, src: TabSrc::Builder(f) });
                    g.op(t, Op::TabItems { src: 1 });
                }
                _ => {
                    let src = if focus || g.r.chance(4, 5) { PRef::S(g.r.below(k as u64) as u32) } else { PRef::L(5 + g.r.below(2) as u32) };
                    g.norm_any(t, src, tx);
                }
            }
        }
    }
    g.sched();
}

// ---- C04 ----

fn c04(g: &mut G) {
    let n = if g.r.chance(1, 5) { 2 } else { 1 };
    g.tasks(n);
    let files = { let n = g.r.idx(4); g.files(n) };
    let probe = g.probe_text();
    let long = g.r.chance(1, 10);
    if g.r.chance(1, 3) {
        let l = *g.r.pick(&[0u8, 3, 4, 5]);
        g.logger(l);
        g.sc.logger.flaky = if g.r.chance(1, 2) { 30 } else { 0 };
    }
    let mut texts = vec![probe];
    // families: same length, same beginning, same end, permutations, one being the result of another
    let a = { let n = g.r.range(1, 12) as usize; g.rand_str(n) };
    let b = { let n = g.r.range(1, 12) as usize; g.rand_str(n) };
    for s in [format!("{}{}", a, b), format!("{}{}", b, a), a.clone(), b.clone(), format!("{}{}", a, a), a.chars().rev().collect::<String>(), String::new(), " ".into()] {
        texts.push(g.text(TextSpec::Lit(s)));
    }
    for _ in 0..g.r.range(1, 6) {
        texts.push(g.rand_text());
    }
    if g.r.chance(1, 8) {
        let unit = { let n = g.r.range(1, 9) as usize; g.rand_str(n) };
        let head = g.rand_str(3);
        let n = g.r.range(100, 2500) as u32;
        texts.push(g.text(TextSpec::Rep { head, unit, n, tail: "ﾊﾟーー x ".into() }));
    }
    let wide = n == 1 && !long && g.r.chance(1, 12);
    if wide {
        texts.truncate(1);
        for _ in 0..3 {
            texts.push(g.wide_text());
        }
    } else if g.r.chance(1, 60) {
        // positions beyond 65 535
        let (unit, k) = g.r.pick(&[("0123456789", 10), ("無変換", 3), ("ｱx", 2), ("a", 1)]).clone();
        let n = 65_536 / k + g.r.log(3_000) as u32;
        texts.push(g.text(TextSpec::Rep { head: "Ａ".into(), unit: unit.into(), n, tail: "ｶﾞ①Ａー「 x」".into() }));
    }
    if g.r.chance(1, 2) {
        let s: String = [0u32, 1, 7, 31, 36, 64].iter().map(|i| big_pair(*i, 0).0).collect();
        texts.push(g.text(TextSpec::Lit(s)));
    }
    if long {
        // many distinct texts over few pipelines
        for i in 0..60u32 {
            let s = format!("{}{}ｱ{}", if i % 2 == 0 { "Ａ" } else { "ａ" }, i, i * 7);
            texts.push(g.text(TextSpec::Lit(s)));
        }
    }
    let slots = g.r.range(2, 6) as u32;
    for t in 0..n {
        for s in 0..slots {
            g.plain(Some(t), s);
        }
        let m = if long { g.r.range(600, 2500) } else if wide { g.r.range(8, 16) } else { g.r.range(10, 80) };
        let churn = if long { 60 } else { 18 };
        for _ in 0..m {
            let s = g.r.below(slots as u64) as u32;
            let k = g.r.below(churn);
            match k {
                0 => g.plain(Some(t), s),
                1 | 2 => {
                    let st = match g.r.below(3) {
                        0 => Step1::Preset,
                        1 => Step1::Neologdn,
                        _ => Step1::Table(0),
                    };
                    g.op(t, Op::Use { dst: s, step: st });
                }
                3 if !files.is_empty() => {
                    let f = g.r.pick(&files).clone();
                    let id = g.load(t, s, &f);
                    if g.r.chance(1, 3) {
                        g.io_fault(id);
                    }
                }
                4 => {
                    g.op(t, Op::Drop { dst: s });
                }
                5 => {
                    let it: Vec<Pair> = if g.r.chance(1, 3) {
                        // large, and often of the size of the last one
                        let n = match g.big {
                            Some(n) if n < 300 && g.r.chance(2, 3) => n,
                            _ => g.r.range(33, 200) as u32,
                        };
                        g.big = Some(n);
                        let tag = g.r.below(50) as u32;
                        big_pairs(n, tag)
                    } else {
                        let mut v = g.pairs(4);
                        v.sort();
                        v.dedup_by(|a, b| a.0 == b.0);
                        v
                    };
                    g.op(t, Op::TabMake { dst: 0, src: TabSrc::Items(it) });
                    if g.r.chance(1, 2) {
                        g.op(t, Op::Make { dst: s, how: Make::FromTable(0) });
                    }
                }
                6 => {
                    g.op(t, Op::Make { dst: s, how: Make::FromTable(0) });
                }
                7 => {
                    g.op(t, Op::Make { dst: s, how: Make::File("/missing.yaml".into()) });
                }
                8 if g.sc.logger.install => {
                    let tx = *g.r.pick(&texts);
                    g.norm_any(t, PRef::L(s), tx);
                    let id = g.next[t] - 1;
                    g.sc.logger.panics.push((id, g.r.below(2) as u32));
                }
                _ => {
                    let tx = *g.r.pick(&texts);
                    g.norm_any(t, PRef::L(s), tx);
                    if g.r.chance(1, 6) {
                        // the same again, straight away or on another pipeline
                        let s2 = g.r.below(slots as u64) as u32;
                        g.norm_any(t, PRef::L(s2), tx);
                    }
                }
            }
        }
    }
    g.sched();
    if let SchedSpec::Seeded { gap, fine, .. } = &mut g.sc.sched {
        // long histories: keep the number of switches in proportion
        if long {
            *gap = (*gap).max(20_000);
            *fine = 0;
        }
    }
}

// ---- C05 ----

/// one load of any kind from the given files; the operations that follow make its result visible
fn some_load(g: &mut G, t: usize, files: &[String], probe: u32) -> u32 {
    let f = g.r.pick(files).clone();
    match g.r.below(12) {
        0 | 1 | 2 => {
            let id = g.load(t, 0, &f);
            g.op(t, Op::Norm { src: PRef::L(0), text: probe });
            g.op(t, Op::Pos { src: PRef::L(0), text: probe });
            id
        }
        3 | 4 | 5 => {
            let id = g.op(t, Op::Make { dst: 0, how: Make::LoadRc });
            g.op(t, Op::Norm { src: PRef::L(0), text: probe });
            g.op(t, Op::Pos { src: PRef::L(0), text: probe });
            id
        }
        6 | 7 => {
            let id = g.op(t, Op::TabMake { dst: 0, src: TabSrc::Builder(f) });
            g.op(t, Op::TabItems { src: 0 });
            id
        }
        8 => {
            let id = g.op(t, Op::TabMake { dst: 0, src: TabSrc::Func(f) });
            g.op(t, Op::TabItems { src: 0 });
            g.op(t, Op::Make { dst: 3, how: Make::FromTable(0) });
            g.op(t, Op::Norm { src: PRef::L(3), text: probe });
            id
        }
        9 | 10 => {
            let it = g.pairs(3);
            let src = if g.r.chance(1, 2) { TabSrc::Empty } else { TabSrc::Items(it) };
            g.op(t, Op::TabMake { dst: 1, src });
            let id = g.op(t, Op::TabEdit { dst: 1, edit: Edit::AddFile(f) });
            g.op(t, Op::TabItems { src: 1 });
            id
        }
        _ => match files.iter().find(|f| !f.ends_with("csv")) {
            Some(y) => g.op(t, Op::ModsFn { path: y.clone() }),
            None => {
                let id = g.load(t, 2, &f);
                g.op(t, Op::Norm { src: PRef::L(2), text: probe });
                id
            }
        },
    }
}

fn c05(g: &mut G) {
    let n = if g.r.chance(1, 8) { 2 } else { 1 };
    g.tasks(n);
    let files = { let n = g.r.range(1, 3) as usize; g.files(n) };
    g.rc_files(4);
    if g.r.chance(1, 4) {
        let f = g.r.pick(&files).clone();
        g.sc.world.env.insert("CHANOMARC".into(), Bytes(f.into_bytes()));
    }
    let probe = g.probe_text();
    g.sc.world.read_chunk = g.chunk();
    for t in 0..n {
        for _ in 0..g.r.range(1, 3) {
            let id = some_load(g, t, &files, probe);
            for _ in 0..g.r.range(1, 2) {
                g.io_fault(id);
            }
            g.shorts(id);
        }
    }
    g.sched();
}

// ---- C06 ----

fn c06(g: &mut G) {
    g.tasks(1);
    let files = { let n = g.r.range(1, 3) as usize; g.files(n) };
    g.rc_files(3);
    let probe = g.probe_text();
    g.sc.world.read_chunk = match g.r.below(8) {
        0 => Chunk::Fixed(1),
        1 => Chunk::Fixed(2),
        2 => Chunk::Fixed(3),
        3 => Chunk::Random(4),
        4 => Chunk::Random(g.r.log(9000) as u32),
        5 => Chunk::Fixed(g.r.log(200) as u32),
        6 => Chunk::Whole,
        _ => Chunk::Random(64),
    };
    for _ in 0..g.r.range(1, 3) {
        let id = some_load(g, 0, &files, probe);
        g.shorts(id);
        if g.r.chance(1, 3) {
            // alone, or in bursts
            let burst = if g.r.chance(1, 3) { g.r.log(40) as u32 } else { 1 };
            for _ in 0..g.r.range(1, 3) {
                let n = g.r.log(60) as u32 - 1;
                for k in n..n + burst {
                    g.fault(id, "read", k, Act::Errno(libc::EINTR));
                }
            }
        }
    }
}

// ---- C07 ----

/// a content that begins with the bytes of this one
fn longer(g: &mut G, c: usize) -> Option<usize> {
    let more = |g: &mut G, used: &mut Vec<String>| -> Vec<(String, String)> {
        g.tag += 1;
        (0..g.r.range(1, 4))
            .map(|k| {
                let f = g.from_char(used);
                g.note(&f);
                (f, char::from_u32(0xEC00 + 4 * g.tag + k as u32).unwrap().to_string())
            })
            .collect()
    };
    match g.sc.contents[c].clone() {
        Content::Csv { mut rows, style } => {
            let mut used: Vec<String> = rows.iter().flat_map(|r| r[..r.len() - 1].to_vec()).collect();
            rows.extend(more(g, &mut used).into_iter().map(|(f, t)| vec![f, t]));
            Some(g.content(Content::Csv { rows, style }))
        }
        Content::Yaml { items: Some(mut items), mods, style } if style.items_last || mods.is_empty() => {
            let mut used: Vec<String> = items.iter().flat_map(|x| x.1.clone()).collect();
            items.extend(more(g, &mut used).into_iter().map(|(f, t)| (t, vec![f])));
            Some(g.content(Content::Yaml { items: Some(items), mods, style }))
        }
        _ => None,
    }
}

fn c07(g: &mut G) {
    let n = if g.r.chance(1, 3) { 2 } else { 1 };
    g.tasks(n);
    let rc = g.r.chance(1, 3);
    let mut paths: Vec<String> = if rc {
        let mut v = g.rc_files(4);
        if v.is_empty() {
            let c = g.cfg("/work/chanomarc.yaml");
            g.file("/work/chanomarc.yaml", c);
            v.push("/work/chanomarc.yaml".into());
        }
        v
    } else {
        let n = g.r.range(1, 2) as usize;
        g.files(n)
    };
    g.r.shuffle(&mut paths);
    // further versions of each file
    let mut versions: Vec<(String, Vec<usize>)> = Vec::new();
    for p in &paths {
        let mut v = Vec::new();
        for _ in 0..g.r.range(1, 3) {
            v.push(g.cfg(p));
        }
        // one that begins like another
        if g.r.chance(1, 2) {
            let c = longer(g, v[0]);
            v.extend(c);
        }
        versions.push((G::abs(p), v));
    }
    let probe = g.probe_text();
    g.sc.world.read_chunk = g.chunk();
    if rc && g.r.chance(1, 3) {
        let p = g.r.pick(&paths).clone();
        g.sc.world.env.insert("CHANOMARC".into(), Bytes(p.into_bytes()));
    }
    let t0 = 0;
    for _ in 0..g.r.range(1, 3) {
        let p = g.r.pick(&paths).clone();
        let id = if rc && g.r.chance(3, 4) {
            let id = g.op(t0, Op::Make { dst: 0, how: Make::LoadRc });
            g.op(t0, Op::Norm { src: PRef::L(0), text: probe });
            id
        } else if g.r.chance(1, 2) {
            some_load(g, t0, &[p], probe)
        } else {
            let id = g.load(t0, 0, &p);
            g.op(t0, Op::Norm { src: PRef::L(0), text: probe });
            id
        };
        for _ in 0..g.r.range(1, 3) {
            let (path, v) = g.r.pick(&versions).clone();
            let c = *g.r.pick(&v);
            let (class, nth) = match g.r.below(5) {
                0 => ("open", g.r.below(3) as u32),
                1 => ("close", g.r.below(2) as u32),
                2 => ("stat", g.r.below(6) as u32),
                3 => ("read", g.r.log(12) as u32 - 1),
                _ => ("any", g.r.log(60) as u32 - 1),
            };
            let act = match g.r.below(8) {
                0 => {
                    // a link re-pointed to a new file
                    let t = format!("/real/v{}", c);
                    if !g.sc.world.files.iter().any(|f| f.path == t) {
                        g.file(&t, c);
                    }
                    Act::Set { path, node: Node::Link(t) }
                }
                1 => Act::Remove { path },
                _ => Act::Set { path, node: Node::File(c) },
            };
            g.fault(id, class, nth, act);
        }
    }
    if n == 2 {
        for _ in 0..g.r.range(1, 6) {
            let (path, v) = g.r.pick(&versions).clone();
            let c = *g.r.pick(&v);
            g.op(1, Op::Fs(Act::Set { path, node: Node::File(c) }));
        }
    }
    g.sched();
}

// ---- C08 ----

fn scalar(g: &mut G) -> String {
    let v = ["~", "null", "1", "-0.5", "true", "no", "\"\"", "''", "a", "\"ab\"", "ー", "ハ゜", "[]", "{}", "2022-01-01", "!!str 5", "!!int x", "&a b", "*a", "<<", "\"\\u0000\"", "0x1F", ".nan", "|", "? x", "@", "%", "`", "\u{85}", "- x"];
    g.r.pick(&v).to_string()
}

fn value(g: &mut G, depth: u32) -> String {
    if depth == 0 || g.r.chance(1, 3) {
        return scalar(g);
    }
    let n = g.r.below(4);
    if g.r.chance(1, 2) {
        let v: Vec<String> = (0..n).map(|_| value(g, depth - 1)).collect();
        format!("[{}]", v.join(", "))
    } else {
        let v: Vec<String> = (0..n).map(|_| format!("{}: {}", scalar(g), value(g, depth - 1))).collect();
        format!("{{{}}}", v.join(", "))
    }
}

pub fn odd_yaml(g: &mut G) -> Vec<u8> {
    let mut s = String::new();
    let keys = [
        "character_converter",
        "character_eliminator",
        "consecutive_character_reducer",
        "ligature_translator",
        "dotted_space_eliminator",
        "trim",
        "neologdn",
        "unknown_thing",
        "1",
        "~",
        "[a]",
    ];
    let mut sect = vec!["items", "modifiers"];
    if g.r.chance(1, 6) {
        sect.push("other");
    }
    g.r.shuffle(&mut sect);
    for k in sect {
        match g.r.below(5) {
            0 => continue,
            1 => {
                let v = value(g, 3);
                s.push_str(&format!("{}: {}\n", k, v));
            }
            _ => {
                s.push_str(&format!("{}:\n", k));
                if k == "modifiers" {
                    for _ in 0..g.r.below(4) {
                        let m = g.r.pick(&keys).to_string();
                        let v = match g.r.below(4) {
                            0 => String::new(),
                            1 => scalar(g),
                            _ => value(g, 2),
                        };
                        s.push_str(&format!("  {}: {}\n", m, v));
                    }
                } else if g.r.chance(1, 2) {
                    for _ in 0..g.r.below(4) {
                        let a = scalar(g);
                        let b = value(g, 2);
                        s.push_str(&format!("  {}: {}\n", a, b));
                    }
                } else {
                    for _ in 0..g.r.below(4) {
                        match g.r.below(4) {
                            0 => {
                                let b = value(g, 2);
                                s.push_str(&format!("  - {}\n", b));
                            }
                            1 => {
                                let b = value(g, 1);
                                s.push_str(&format!("  - from: {}\n", b));
                            }
                            2 => {
                                let (a, b) = (value(g, 1), value(g, 1));
                                s.push_str(&format!("  - from: {}\n    to: {}\n", a, b));
                            }
                            _ => {
                                let (a, b) = (scalar(g), scalar(g));
                                s.push_str(&format!("  - {{from: {}, to: {}}}\n", a, b));
                            }
                        }
                    }
                }
            }
        }
    }
    if g.r.chance(1, 10) {
        s = value(g, 4);
    }
    if g.r.chance(1, 10) {
        s.push_str("---\nitems: {a: b}\n");
    }
    s.into_bytes()
}

pub fn odd_csv(g: &mut G) -> Vec<u8> {
    let mut s: Vec<u8> = Vec::new();
    if !g.r.chance(1, 4) {
        s.extend_from_slice(*g.r.pick(&[&b"from,to\n"[..], b"from,to\r\n", b"\"from\",\"to\"\n", b"\n", b",\n", b"from\n"]));
    }
    for _ in 0..g.r.below(6) {
        let n = g.r.below(5);
        let mut f: Vec<Vec<u8>> = Vec::new();
        for _ in 0..n {
            f.push(match g.r.below(8) {
                0 => Vec::new(),
                1 => b"\"\"".to_vec(),
                2 => b"\"a\"\"b\"".to_vec(),
                3 => vec![0xE3, 0x81],
                4 => vec![0],
                5 => b" ".to_vec(),
                6 => b"\"open".to_vec(),
                _ => "か".as_bytes().to_vec(),
            });
        }
        s.extend(f.join(&b","[..]));
        s.extend_from_slice(*g.r.pick(&[&b"\n"[..], b"\r\n", b"\r", b"\n\n"]));
    }
    s
}

/// what a crash or a bad disk leaves of a file
pub fn damage(g: &mut G, new: &[u8], old: &[u8]) -> (Vec<u8>, &'static str) {
    let mut v = new.to_vec();
    let len = v.len().max(1);
    let blk = *g.r.pick(&[4usize, 16, 64, 512, 4096]);
    match g.r.below(10) {
        0 | 1 | 2 => {
            v.truncate(g.r.idx(len));
            (v, "truncated")
        }
        3 => {
            let a = g.r.idx(len) / blk * blk;
            let e = (a + blk).min(v.len());
            for b in &mut v[a.min(e)..e] {
                *b = 0;
            }
            (v, "zeroed-block")
        }
        4 => {
            // the tail was allocated but never written
            let a = g.r.idx(len);
            for b in &mut v[a..] {
                *b = 0;
            }
            (v, "zero-tail")
        }
        5 => {
            for _ in 0..g.r.log(8) {
                if !v.is_empty() {
                    let i = g.r.idx(v.len());
                    v[i] ^= 1 << g.r.below(8);
                }
            }
            (v, "bit-flips")
        }
        6 | 7 => {
            // some blocks of the new version reached the disk, others did not
            let n = v.len().max(old.len());
            let mut o = Vec::new();
            let mut i = 0;
            while i < n {
                let src: &[u8] = if g.r.chance(1, 2) { &v } else { old };
                let e = (i + blk).min(src.len());
                if i < e {
                    o.extend_from_slice(&src[i..e]);
                } else if i >= src.len() {
                    break;
                }
                i += blk;
            }
            (o, "mixed-blocks")
        }
        8 => {
            // lost bytes in the middle
            let a = g.r.idx(len);
            let e = (a + g.r.log(40) as usize).min(v.len());
            v.drain(a.min(e)..e);
            (v, "lost-bytes")
        }
        _ => {
            // written twice
            let a = g.r.idx(len);
            let mut o = v.clone();
            o.extend_from_slice(&v[a..]);
            (o, "doubled")
        }
    }
}

fn c08(g: &mut G) {
    g.tasks(1);
    let n = g.r.range(1, 3);
    let mut files = Vec::new();
    for i in 0..n {
        let csv = g.r.chance(2, 5);
        let ext = if csv { "csv" } else { "yaml" };
        let path = match g.r.below(3) {
            0 => format!("/work/chanomarc.{}", ext),
            1 => format!("/home/u/.chanomarc.{}", ext),
            _ => format!("/cfg/d{}.{}", i, ext),
        };
        let (b, kind) = match g.r.below(7) {
            0 | 1 => {
                if csv {
                    (odd_csv(g), "odd")
                } else {
                    (odd_yaml(g), "odd")
                }
            }
            2 => {
                let a = if csv { odd_csv(g) } else { odd_yaml(g) };
                let b = if csv { odd_csv(g) } else { odd_yaml(g) };
                damage(g, &a, &b)
            }
            _ => {
                let (a, b) = if csv {
                    let mut a = g.csv(5);
                    let mut b = g.csv(5);
                    for c in [&mut a, &mut b] {
                        if let Content::Csv { style, .. } = c {
                            style.pad = style.pad.min(100);
                        }
                    }
                    (a, b)
                } else {
                    // few and small values, so that the cut falls inside interesting places
                    let mut a = g.yaml(3, 7);
                    let mut b = g.yaml(3, 7);
                    for c in [&mut a, &mut b] {
                        if let Content::Yaml { style, .. } = c {
                            style.pad = style.pad.min(100);
                        }
                    }
                    (a, b)
                };
                damage(g, &render(&a), &render(&b))
            }
        };
        *g.sc.world.env.entry(format!("_damage_{}", kind)).or_default() = Bytes(b"1".to_vec());
        let c = g.content(Content::Raw(Bytes(b)));
        if !g.sc.world.files.iter().any(|f| f.path == path) {
            g.file(&path, c);
            files.push(path);
        }
    }
    if g.r.chance(1, 4) {
        let f = g.r.pick(&files).clone();
        g.sc.world.env.insert("CHANOMARC".into(), Bytes(f.into_bytes()));
    }
    if g.r.chance(1, 2) {
        g.sc.world.read_chunk = g.chunk();
    }
    if g.r.chance(1, 4) {
        g.logger(4);
    }
    let probe = g.probe_text();
    let tx = g.rand_text();
    let mut k = 0;
    for f in files.clone() {
        let id = g.load(0, 0, &f);
        g.op(0, Op::Norm { src: PRef::L(0), text: probe });
        g.op(0, Op::Pos { src: PRef::L(0), text: tx });
        let func = g.r.chance(1, 2);
        g.op(0, Op::TabMake { dst: k, src: if func { TabSrc::Func(f.clone()) } else { TabSrc::Builder(f.clone()) } });
        g.op(0, Op::TabItems { src: k });
        g.op(0, Op::Make { dst: 1, how: Make::FromTable(k) });
        g.op(0, Op::Norm { src: PRef::L(1), text: probe });
        g.op(0, Op::TabMake { dst: 9, src: TabSrc::Preset });
        g.op(0, Op::TabEdit { dst: 9, edit: Edit::AddFile(f.clone()) });
        g.op(0, Op::Make { dst: 2, how: Make::FromTable(9) });
        g.op(0, Op::Norm { src: PRef::L(2), text: probe });
        if f.ends_with("yaml") {
            g.op(0, Op::ModsFn { path: f.clone() });
        }
        if g.r.chance(1, 8) {
            g.io_fault(id);
        }
        k += 1;
    }
    g.op(0, Op::Make { dst: 3, how: Make::LoadRc });
    g.op(0, Op::Norm { src: PRef::L(3), text: probe });
    // nothing of this may have spoilt anything else
    g.op(0, Op::Make { dst: 4, how: Make::Preset });
    g.op(0, Op::Norm { src: PRef::L(4), text: probe });
}

// ---- C09 ----

fn c09(g: &mut G) {
    let n = if g.r.chance(1, 6) { 2 } else { 1 };
    g.tasks(n);
    let placed = { let k = g.r.range(1, 9) as usize; g.rc_files(k) };
    // candidates that cannot be used
    let all = g.rc_paths();
    for _ in 0..g.r.below(4) {
        let p = g.r.pick(&all).clone();
        if g.sc.world.files.iter().any(|f| f.path == p) {
            continue;
        }
        let node = match g.r.below(4) {
            0 => Node::Dir,
            1 => Node::Link("/nowhere/x".into()),
            2 => Node::Link(p.clone()), // a loop
            _ => {
                let c = g.cfg(&p);
                let t = format!("/real/l{}", c);
                g.file(&t, c);
                Node::Link(t)
            }
        };
        g.sc.world.files.push(FileSpec { path: p, node });
    }
    // distractors that must never be read
    for p in ["/home/u/chanomarc.json", "/work/chanomarc.txt", "/work/chanomarc", "/home/chanomarc.yaml", "/chanomarc.csv", "/home/u/.config/chanomarc.csv", "/home/pw/chanomarc.csv", "/work/xchanomarc.csv"] {
        if g.r.chance(1, 4) {
            let c = g.cfg("x.csv");
            g.file(p, c);
        }
    }
    if g.r.chance(1, 5) {
        // whatever else the environment names is no place for a configuration
        for p in ["/decoy/chanoma/chanomarc.csv", "/decoy/chanomarc.yaml", "/decoy/.chanomarc.csv", "/decoy/chanoma/.chanomarc.yml", "/decoy/.config/chanoma/chanomarc.csv"] {
            let c = g.cfg(p);
            g.file(p, c);
        }
        let v = *g.r.pick(&["/decoy", "/decoy", "/decoy/chanomarc.yaml", "1", ""]);
        g.sc.world.env_wild = Some(Bytes(v.as_bytes().to_vec()));
    }
    match g.r.below(14) {
        10 => g.sc.world.cwd = Some("/home/u".into()),
        11 => g.sc.world.cwd = Some("/home/u/.config/chanoma".into()),
        12 => {
            g.sc.world.env.insert("HOME".into(), Bytes(b"/home/u/".to_vec()));
        }
        13 => {
            g.sc.world.env.insert("HOME".into(), Bytes(b"/work".to_vec()));
        }
        0 => {
            g.sc.world.env.remove("HOME");
        }
        1 => {
            g.sc.world.env.remove("HOME");
            g.sc.world.passwd_home = None;
        }
        2 => {
            g.sc.world.env.insert("HOME".into(), Bytes(Vec::new()));
        }
        3 => g.sc.world.cwd = None,
        4 => {
            g.sc.world.env.insert("HOME".into(), Bytes(b"/home/gone".to_vec()));
        }
        5 => {
            // a home directory whose name is not UTF-8
            g.sc.world.env.insert("HOME".into(), Bytes(b"/home/\xFFu".to_vec()));
            for p in ["/home/%FFu/chanomarc.yaml", "/home/%FFu/.config/chanoma/.chanomarc.csv"] {
                let c = g.cfg(p);
                g.file(p, c);
            }
        }
        _ => {}
    }
    let mut env = false;
    if g.r.chance(2, 5) {
        env = true;
        let cwd = g.sc.world.cwd.is_some();
        let v: Bytes = match g.r.below(20) {
            16..=19 => {
                // a name is taken as it is: what it looks like, and what is there if it is taken otherwise
                let (v, real, other) = g.r.pick(&[
                    ("~/named.csv", "/work/~/named.csv", "/home/u/named.csv"),
                    ("~/.config/named.yaml", "/work/~/.config/named.yaml", "/home/u/.config/named.yaml"),
                    ("$HOME/named.csv", "/work/$HOME/named.csv", "/home/u/named.csv"),
                    ("${HOME}/named.yml", "/work/${HOME}/named.yml", "/home/u/named.yml"),
                    (" /cfg/named.csv", "/work/ /cfg/named.csv", "/cfg/named.csv"),
                    ("/cfg/named.csv ", "/cfg/named.csv ", "/cfg/named.csv"),
                    ("/cfg/named.yaml\n", "/cfg/named.yaml\n", "/cfg/named.yaml"),
                    ("/cfg/ named.csv", "/cfg/ named.csv", "/cfg/named.csv"),
                    ("/cfg/a.csv:/cfg/b.csv", "/cfg/a.csv:/cfg/b.csv", "/cfg/a.csv"),
                    ("/cfg/a.csv,/cfg/b.csv", "/cfg/a.csv,/cfg/b.csv", "/cfg/b.csv"),
                    ("file:///cfg/named.csv", "/work/file:/cfg/named.csv", "/cfg/named.csv"),
                    ("\"/cfg/named.csv\"", "/work/\"/cfg/named.csv\"", "/cfg/named.csv"),
                    ("/cfg//named.csv", "/cfg/named.csv", "/named.csv"),
                    ("/cfg/./named.yml", "/cfg/named.yml", "/named.yml"),
                    ("/cfg/../cfg/named.csv", "/cfg/named.csv", "/named.csv"),
                    ("/cfg/named", "/cfg/named", "/cfg/named.csv"),
                    ("/cfg/NAMED.CSV", "/cfg/NAMED.CSV", "/cfg/named.csv"),
                    ("/cfg/named.Yaml", "/cfg/named.Yaml", "/cfg/named.yaml"),
                    ("/cfg/*.csv", "/cfg/*.csv", "/cfg/named.csv"),
                    ("/cfg/%6Eamed.csv", "/cfg/%256Eamed.csv", "/cfg/named.csv"),
                    ("named.csv", "/home/u/named.csv", "/home/u/.config/chanoma/named.csv"),
                    ("/cfg/named.csv#x", "/cfg/named.csv#x", "/cfg/named.csv"),
                    ("\u{feff}/cfg/named.csv", "/work/\u{feff}/cfg/named.csv", "/cfg/named.csv"),
                    ("0", "/work/0", "/work/0.csv"),
                ]).clone();
                for (p, k) in [(real, 2), (other, 3)] {
                    if g.r.chance(k, 4) {
                        let c = g.cfg(if p.contains(".y") { "x.yaml" } else { "x.csv" });
                        g.file(p, c);
                    }
                }
                Bytes(v.as_bytes().to_vec())
            }
            14 => Bytes(Vec::new()),
            15 => {
                // surprising but valid names
                let p = *g.r.pick(&["/cfg/a b.yaml", "/cfg/日本.csv", "/cfg/x.csv.yaml", "/cfg/.yaml.csv", "/cfg/y.yaml.csv", "/cfg/-.yml"]);
                let c = g.cfg(p);
                g.file(p, c);
                Bytes(p.as_bytes().to_vec())
            }
            0 => Bytes(b"/missing.yaml".to_vec()),
            1 => Bytes(b"/work".to_vec()),
            2 => Bytes(vec![b'/', b'c', 0xFF, b'.', b'c', b's', b'v']),
            3 => {
                let c = g.cfg("x.csv");
                g.file("/cfg/noext", c);
                Bytes(b"/cfg/noext".to_vec())
            }
            4 => {
                let c = g.cfg("x.csv");
                g.file("/cfg/c.toml", c);
                Bytes(b"/cfg/c.toml".to_vec())
            }
            5 => {
                let c = g.cfg("x.csv");
                g.file("/cfg/c.%FF", c);
                Bytes(vec![b'/', b'c', b'f', b'g', b'/', b'c', b'.', 0xFF])
            }
            6 => {
                let c = g.cfg("x.csv");
                g.file("/cfg/%FF.csv", c);
                Bytes(vec![b'/', b'c', b'f', b'g', b'/', 0xFF, b'.', b'c', b's', b'v'])
            }
            7 if !placed.is_empty() => Bytes(g.r.pick(&placed).clone().into_bytes()),
            8 if cwd => {
                let c = g.cfg("x.yml");
                g.file("/work/rel.yml", c);
                Bytes(b"rel.yml".to_vec())
            }
            9 if cwd => {
                let c = g.cfg("x.csv");
                g.file("/work/sub/rel.csv", c);
                Bytes(b"./sub/rel.csv".to_vec())
            }
            k => {
                let e = ["csv", "yaml", "yml"][k as usize % 3];
                let p = format!("/cfg/named.{}", e);
                let c = g.cfg(&p);
                g.file(&p, c);
                Bytes(p.into_bytes())
            }
        };
        g.sc.world.env.insert("CHANOMARC".into(), v);
    }
    let probe = g.probe_text();
    if g.r.chance(1, 5) {
        let l = *g.r.pick(&[3u8, 4, 5]);
        g.logger(l);
    }
    if g.r.chance(1, 3) {
        g.sc.world.read_chunk = g.chunk();
    }
    let _ = env;
    for _ in 0..g.r.range(1, 2) {
        let id = g.op(0, Op::Make { dst: 0, how: Make::LoadRc });
        g.op(0, Op::Norm { src: PRef::L(0), text: probe });
        g.op(0, Op::Pos { src: PRef::L(0), text: probe });
        if g.r.chance(1, 2) {
            for _ in 0..g.r.range(1, 2) {
                match g.r.below(6) {
                    0 | 1 => {
                        // a file appears, vanishes or is replaced between discovery and reading
                        let p = g.r.pick(&all).clone();
                        let c = g.cfg(&p);
                        let act = match g.r.below(3) {
                            0 => Act::Remove { path: p },
                            _ => Act::Set { path: p, node: Node::File(c) },
                        };
                        let nth = g.r.log(30) as u32 - 1;
                        g.fault(id, "any", nth, act);
                    }
                    2 if !placed.is_empty() => {
                        let p = g.r.pick(&placed).clone();
                        let nth = g.r.log(30) as u32 - 1;
                        g.fault(id, "any", nth, Act::Remove { path: p });
                    }
                    3 => {
                        let nth = g.r.below(18) as u32;
                        let e = *g.r.pick(&[libc::EACCES, libc::EIO, libc::ENOENT, libc::ELOOP]);
                        g.fault(id, "stat", nth, Act::Errno(e));
                    }
                    4 => {
                        g.fault(id, "getcwd", 0, Act::Errno(libc::ENOENT));
                    }
                    _ => g.io_fault(id),
                }
            }
        }
    }
    if n == 2 {
        for _ in 0..g.r.range(1, 4) {
            let p = g.r.pick(&all).clone();
            let c = g.cfg(&p);
            let a = if g.r.chance(1, 2) { Act::Set { path: p, node: Node::File(c) } } else { Act::Remove { path: p } };
            g.op(1, Op::Fs(a));
        }
    }
    g.sched();
}

// ---- C10 ----

fn c10(g: &mut G) {
    g.tasks(1);
    g.sc.rounds = 8;
    let files = { let n = g.r.range(1, 3) as usize; g.files(n) };
    g.rc_files(3);
    let c = g.content(Content::Raw(Bytes(b"items: [\n".to_vec())));
    g.file("/cfg/broken.yaml", c);
    let c = g.content(Content::Raw(Bytes(b"modifiers:\n  nothing: 1\n".to_vec())));
    g.file("/cfg/unknown.yaml", c);
    let c = g.content(Content::Raw(Bytes(vec![b'a', b',', b'b', b'\n', 0xFF, b',', b'\n'])));
    g.file("/cfg/broken.csv", c);
    let probe = g.probe_text();
    let tx = g.rand_text();
    g.sc.world.read_chunk = g.chunk();
    if g.r.chance(1, 4) {
        let l = *g.r.pick(&[3u8, 4]);
        g.logger(l);
    }
    let mut bad = files.clone();
    bad.extend(["/cfg/broken.yaml".to_string(), "/cfg/unknown.yaml".into(), "/cfg/broken.csv".into(), "/missing.csv".into()]);
    let m = g.r.range(3, 14);
    let mut faulted = Vec::new();
    for _ in 0..m {
        match g.r.below(12) {
            10 | 11 => {
                let id = some_load(g, 0, &bad, probe);
                faulted.push(id);
            }
            0 | 1 | 2 => {
                let f = g.r.pick(&bad).clone();
                let id = g.load(0, 0, &f);
                faulted.push(id);
                g.op(0, Op::Norm { src: PRef::L(0), text: probe });
            }
            3 => {
                let id = g.op(0, Op::Make { dst: 0, how: Make::LoadRc });
                faulted.push(id);
                g.op(0, Op::Norm { src: PRef::L(0), text: tx });
            }
            4 => {
                let f = g.r.pick(&bad).clone();
                let id = g.op(0, Op::TabMake { dst: 0, src: TabSrc::Builder(f) });
                faulted.push(id);
                g.op(0, Op::TabItems { src: 0 });
            }
            5 => {
                let f = g.r.pick(&bad).clone();
                g.op(0, Op::TabMake { dst: 1, src: TabSrc::Empty });
                let id = g.op(0, Op::TabEdit { dst: 1, edit: Edit::AddFile(f) });
                faulted.push(id);
            }
            6 => g.plain(Some(0), 1),
            7 => {
                g.op(0, Op::Use { dst: 1, step: Step1::Neologdn });
                g.op(0, Op::Norm { src: PRef::L(1), text: tx });
            }
            8 => {
                g.op(0, Op::TabMake { dst: 2, src: TabSrc::Preset });
                g.op(0, Op::Export { src: 2, end: 0 });
            }
            _ => {
                g.op(0, Op::Norm { src: PRef::L(1), text: probe });
                g.op(0, Op::Pos { src: PRef::L(1), text: tx });
            }
        }
    }
    let plan: Vec<u32> = faulted.into_iter().filter(|_| g.r.chance(1, 2)).collect();
    for id in plan {
        let k = g.sc.world.faults.len();
        g.io_fault(id);
        let f = g.sc.world.faults[k].clone();
        for r in 1..g.sc.rounds {
            g.fault(id + r * ROUND, &f.class, f.n, f.act.clone());
        }
    }
}

// ---- C11 ----

fn c11(g: &mut G) {
    g.tasks(1);
    let files = { let n = g.r.range(1, 4) as usize; g.files(n) };
    let c = g.content(Content::Raw(Bytes(b"from,to\na,b\nc,\xff\n".to_vec())));
    g.file("/cfg/bad.csv", c);
    let c = g.content(Content::Raw(Bytes(b"items:\n  a: b\n  - c\n".to_vec())));
    g.file("/cfg/bad.yaml", c);
    if g.r.chance(1, 3) {
        // a large file with damage in a late part
        let n = g.r.range(100, 2500) as u32;
        let keep = n - (g.r.log(n as u64 - 1) as u32 - 1).min(n - 1);
        let csv = g.r.chance(2, 3);
        let b = if csv { render(&Content::BigCsv { n, tag: 990 }) } else { render(&Content::BigYaml { n, tag: 990 }) };
        let mut lines: Vec<&[u8]> = b.split_inclusive(|b| *b == b'\n').collect();
        let at = (keep as usize).min(lines.len()).max(1);
        let bad: &[u8] = if csv {
            *g.r.pick(&[&b"\xff,x\n"[..], b"x,\xe3\x81\n", b"\"a\xc3\",b\n"])
        } else {
            *g.r.pick(&[&b"  z: {a: b}\n"[..], b"  - z\n", b"  z: \xff\n", b"  y: [[a]]\n", b"  ? [a]\n  : b\n"])
        };
        lines.insert(at, bad);
        let b = lines.concat();
        let c = g.content(Content::Raw(Bytes(b)));
        g.file(if csv { "/cfg/late.csv" } else { "/cfg/late.yaml" }, c);
    }
    let late: Vec<String> = g.sc.world.files.iter().map(|f| f.path.clone()).filter(|p| p.starts_with("/cfg/late")).collect();
    let probe = g.probe_text();
    g.sc.world.read_chunk = g.chunk();
    let n = g.r.range(1, 2) as u32;
    for s in 0..n {
        let src = match g.r.below(4) {
            0 => TabSrc::Empty,
            1 => TabSrc::Preset,
            2 => {
                let it = g.pairs(5);
                TabSrc::Items(it)
            }
            _ => TabSrc::Builder(g.r.pick(&files).clone()),
        };
        g.op(0, Op::TabMake { dst: s, src });
    }
    for _ in 0..g.r.range(2, 8) {
        let s = g.r.below(n as u64) as u32;
        match g.r.below(9) {
            8 => {
                let it = g.pairs(4);
                let edit = Edit::Own { items: it, panic_at: *g.r.pick(&[0, 1, 1, 2]), add: g.r.chance(2, 3), reenter: g.r.chance(1, 4) };
                g.op(0, Op::TabEdit { dst: s, edit });
                g.op(0, Op::TabItems { src: s });
            }
            0 => {
                let it = g.pairs(4);
                let v = g.r.below(6) as u8;
                g.op(0, Op::TabEdit { dst: s, edit: Edit::Add { items: it, via: v } });
            }
            1 => {
                let it = g.pairs(4);
                g.op(0, Op::TabEdit { dst: s, edit: Edit::Remove { items: it, via: 0 } });
            }
            2 => {
                let f = if !late.is_empty() && g.r.chance(2, 3) {
                    late[0].clone()
                } else {
                    g.r.pick(&["/cfg/bad.csv", "/cfg/bad.yaml", "/missing.csv"]).to_string()
                };
                g.op(0, Op::TabEdit { dst: s, edit: Edit::AddFile(f) });
                g.op(0, Op::TabItems { src: s });
            }
            _ => {
                let f = g.r.pick(&files).clone();
                let id = g.op(0, Op::TabEdit { dst: s, edit: Edit::AddFile(f.clone()) });
                if g.r.chance(2, 3) {
                    g.io_fault(id);
                    g.shorts(id);
                }
                g.op(0, Op::TabItems { src: s });
                if g.r.chance(1, 2) {
                    // again, without a fault
                    g.op(0, Op::TabEdit { dst: s, edit: Edit::AddFile(f) });
                    g.op(0, Op::TabItems { src: s });
                }
            }
        }
    }
    for s in 0..n {
        g.op(0, Op::TabItems { src: s });
        g.op(0, Op::Make { dst: s, how: Make::FromTable(s) });
        g.op(0, Op::Norm { src: PRef::L(s), text: probe });
    }
}

// ---- C12 ----

fn c12(g: &mut G) {
    let n = g.r.range(1, 3) as usize;
    g.tasks(n);
    let mut paths = { let n = g.r.range(1, 3) as usize; g.files(n) };
    let mut rc = g.rc_files(2);
    if g.r.chance(1, 3) {
        let p = g.r.pick(&["/work/chanomarc.csv", "/work/.chanomarc.yaml", "/work/chanomarc.yml", "/home/u/chanomarc.csv"]).to_string();
        if !rc.contains(&p) {
            let c = g.cfg(&p);
            g.file(&p, c);
            rc.push(p);
        }
    }
    let mut versions: Vec<(String, Vec<usize>)> = Vec::new();
    for p in paths.iter().chain(rc.iter()) {
        let mut v = Vec::new();
        for _ in 0..g.r.range(1, 4) {
            v.push(g.cfg(p));
        }
        // a version of the same size as another one
        if g.r.chance(1, 2) {
            if let Content::Csv { rows, style } = g.sc.contents[v[0]].clone() {
                let mut rows = rows;
                if rows.len() >= 2 {
                    let a = rows[0].last().unwrap().clone();
                    let k = rows.len() - 1;
                    let b = rows[k].last().unwrap().clone();
                    *rows[0].last_mut().unwrap() = b;
                    *rows[k].last_mut().unwrap() = a;
                }
                v.push(g.content(Content::Csv { rows, style }));
            }
            if let Content::Yaml { items: Some(mut items), mods, style } = g.sc.contents[v[0]].clone() {
                if items.len() >= 2 {
                    let k = items.len() - 1;
                    let b = std::mem::take(&mut items[k].0);
                    let a = std::mem::replace(&mut items[0].0, b);
                    items[k].0 = a;
                }
                v.push(g.content(Content::Yaml { items: Some(items), mods, style }));
            }
        }
        versions.push((G::abs(p), v));
    }
    paths.truncate(3);
    let probe = g.probe_text();
    if g.r.chance(1, 2) {
        g.sc.world.read_chunk = g.chunk();
    }
    // so many failures in a row that anything keeping count of them would give up; then all is well again
    if g.r.chance(1, 6) {
        let broken = g.content(Content::Raw(Bytes(b"items: [\n\xff,\n".to_vec())));
        for e in ["csv", "yaml"] {
            g.file(&format!("/cfg/broken.{}", e), broken);
        }
        let bad = [format!("/cfg/gone.{}", g.r.pick(&["csv", "yaml"])), format!("/cfg/broken.{}", g.r.pick(&["csv", "yaml"])), g.r.pick(&paths).clone()];
        let t = g.r.idx(n);
        for _ in 0..g.r.log(90) {
            let f = if g.r.chance(3, 4) { bad[g.r.idx(2)].clone() } else { bad[2].clone() };
            let id = match g.r.below(6) {
                0 => g.op(t, Op::TabMake { dst: 5, src: TabSrc::Builder(f.clone()) }),
                1 => g.op(t, Op::TabMake { dst: 5, src: TabSrc::Func(f.clone()) }),
                _ => g.load(t, 5, &f),
            };
            if f == bad[2] {
                g.io_fault(id);
            }
        }
        for _ in 0..3 {
            some_load(g, t, &paths, probe);
        }
    }
    for t in 0..n {
        for _ in 0..g.r.range(3, 10) {
            match g.r.below(11) {
                10 if n == 1 => {
                    let a = if g.r.chance(1, 3) {
                        let (path, _) = g.r.pick(&versions).clone();
                        Act::Env { key: "CHANOMARC".into(), value: Some(Bytes(path.into_bytes())) }
                    } else {
                        change_around(g)
                    };
                    if g.r.chance(1, 3) {
                        // before and after
                        g.op(t, Op::Make { dst: 0, how: Make::LoadRc });
                        g.op(t, Op::Norm { src: PRef::L(0), text: probe });
                    }
                    g.op(t, Op::Fs(a));
                    let id = g.op(t, Op::Make { dst: 0, how: Make::LoadRc });
                    g.op(t, Op::Norm { src: PRef::L(0), text: probe });
                    if g.r.chance(1, 6) {
                        g.fault(id, "getcwd", 0, Act::Errno(libc::ENOENT));
                    }
                }
                0..=3 => {
                    let (path, v) = g.r.pick(&versions).clone();
                    let c = *g.r.pick(&v);
                    let a = match g.r.below(6) {
                        0 => Act::Remove { path },
                        1 => Act::InPlace { path, content: c },
                        _ => Act::Set { path, node: Node::File(c) },
                    };
                    g.op(t, Op::Fs(a));
                }
                4 | 5 => {
                    let id = g.op(t, Op::Make { dst: 0, how: Make::LoadRc });
                    g.op(t, Op::Norm { src: PRef::L(0), text: probe });
                    if g.r.chance(1, 4) {
                        g.io_fault(id);
                    }
                }
                6 | 7 => {
                    let id = some_load(g, t, &paths, probe);
                    if g.r.chance(1, 4) {
                        g.io_fault(id);
                    }
                }
                _ => {
                    let f = g.r.pick(&paths).clone();
                    let id = g.load(t, 1, &f);
                    g.op(t, Op::Norm { src: PRef::L(1), text: probe });
                    if g.r.chance(1, 3) {
                        g.io_fault(id);
                        // and once more when the fault is gone
                        g.load(t, 1, &f);
                        g.op(t, Op::Norm { src: PRef::L(1), text: probe });
                    }
                }
            }
        }
    }
    g.sched();
}

// ---- C15 (library part) ----

fn c15(g: &mut G) {
    g.tasks(1);
    g.sc.world.write_chunk = g.chunk();
    let odd = ["", "a", "b", ",", "\"", "\n", " ", "#", "か", "\\", "\r", "é", "ab", "a,b", "\"q\"", "-", "~", "null", "1", "true", ":", "- x", "'"];
    let n = g.r.range(1, 3) as u32;
    for s in 0..n {
        let src = match g.r.below(5) {
            0 => TabSrc::Empty,
            1 | 2 => TabSrc::Preset,
            3 => {
                // more than the buffers of the writer hold
                let n = g.r.range(100, 3000) as u32;
                TabSrc::Big { n, tag: g.r.below(9) as u32 }
            }
            _ => {
                let k = g.r.log(60);
                let v = (0..k)
                    .map(|_| {
                        let f = if g.r.chance(1, 2) { g.r.pick(&odd).to_string() } else { char::from_u32(0x4E00 + g.r.below(3000) as u32).unwrap().to_string() };
                        let t = if g.r.chance(1, 2) { g.r.pick(&odd).to_string() } else { char::from_u32(0x3041 + g.r.below(40) as u32).unwrap().to_string() };
                        (f, t)
                    })
                    .collect();
                TabSrc::Items(v)
            }
        };
        g.op(0, Op::TabMake { dst: s, src });
        let it = g.pairs(3);
        g.op(0, Op::TabEdit { dst: s, edit: Edit::Add { items: it, via: 0 } });
        let reps = g.r.range(1, 3);
        for k in 0..reps {
            let end = g.r.below(2) as u8;
            let id = g.op(0, Op::Export { src: s, end });
            if k == 0 && g.r.chance(1, 3) {
                continue;
            }
            match g.r.below(6) {
                0 | 1 => {
                    let nth = g.r.log(6) as u32 - 1;
                    let e = *g.r.pick(&[libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EDQUOT, libc::EAGAIN, 0]);
                    g.fault(id, "writer", nth, Act::Errno(e));
                }
                2 => {
                    for _ in 0..g.r.range(1, 4) {
                        let nth = g.r.log(12) as u32 - 1;
                        g.fault(id, "writer", nth, Act::Errno(libc::EINTR));
                    }
                }
                3 => {
                    for _ in 0..g.r.range(1, 4) {
                        let nth = g.r.log(12) as u32 - 1;
                        let k = g.r.log(50) as u32;
                        g.fault(id, "writer", nth, Act::Short(k));
                    }
                }
                4 => {
                    g.fault(id, "flush", 0, Act::Errno(libc::EIO));
                }
                _ => {}
            }
        }
        g.op(0, Op::ExportYaml { src: s });
        g.op(0, Op::TabItems { src: s });
    }
}

// ---- C16 ----

fn c16(g: &mut G) {
    let n = if g.r.chance(1, 4) { 2 } else { 1 };
    g.tasks(n);
    let files = { let n = g.r.idx(2); g.files(n) };
    let probe = {
        for i in 0..24u32 {
            let s = char::from_u32(0xE000 + i).unwrap().to_string();
            g.note(&s);
        }
        g.probe_text()
    };
    let slots = g.r.range(2, 4) as u32;
    for t in 0..n {
        for s in 0..slots {
            let src = match g.r.below(5) {
                0 => TabSrc::Preset,
                3 if g.r.chance(1, 6) => TabSrc::Big { n: g.r.range(2, 400) as u32, tag: g.r.below(3) as u32 },
                1 => {
                    let mut it = g.pairs(5);
                    // several mappings of one group, given twice
                    if g.r.chance(1, 3) {
                        let d = it[0].clone();
                        it.push(d);
                    }
                    TabSrc::Items(it)
                }
                2 if !files.is_empty() => TabSrc::Builder(g.r.pick(&files).clone()),
                _ => TabSrc::Empty,
            };
            g.op(t, Op::TabMake { dst: s, src });
        }
        for i in 0..g.r.range(5, 40) {
            let s = g.r.below(slots as u64) as u32;
            let s2 = g.r.below(slots as u64) as u32;
            match g.r.below(17) {
                16 => {
                    let k = g.r.log(6) as usize;
                    let it = g.pairs(k);
                    let edit = Edit::Own { items: it, panic_at: *g.r.pick(&[0, 1, 1, 1, 2]), add: g.r.chance(1, 2), reenter: g.r.chance(1, 4) };
                    g.op(t, Op::TabEdit { dst: s, edit });
                }
                0..=3 => {
                    let k = g.r.log(6) as usize;
                    let it = g.pairs(k);
                    let v = g.r.below(6) as u8;
                    g.op(t, Op::TabEdit { dst: s, edit: Edit::Add { items: it, via: v } });
                }
                4..=6 => {
                    let k = g.r.log(6) as usize;
                    let it = g.pairs(k);
                    let v = g.r.below(6) as u8;
                    g.op(t, Op::TabEdit { dst: s, edit: Edit::Remove { items: it, via: v } });
                }
                7 => {
                    g.op(t, Op::TabEdit { dst: s, edit: Edit::AddTable { from: s2 } });
                }
                8 => {
                    g.op(t, Op::TabEdit { dst: s, edit: Edit::RemoveTable { from: s2 } });
                }
                9 => {
                    g.op(t, Op::TabCopy { dst: s, src: s2 });
                }
                10 if g.r.chance(1, 3) => {
                    let edit = if g.r.chance(1, 2) { Edit::Preset } else { Edit::RemovePreset };
                    g.op(t, Op::TabEdit { dst: s, edit });
                }
                11 => {
                    g.op(t, Op::TabEq { a: s, b: s2 });
                }
                12 => {
                    // a pipeline built from a copy is not touched by later edits
                    g.op(t, Op::Make { dst: i as u32 % 3, how: Make::FromTable(s) });
                    g.op(t, Op::Norm { src: PRef::L(i as u32 % 3), text: probe });
                }
                13 => {
                    g.op(t, Op::Norm { src: PRef::L(i as u32 % 3), text: probe });
                }
                _ => {
                    g.op(t, Op::TabItems { src: s });
                }
            }
        }
        for s in 0..slots {
            g.op(t, Op::TabItems { src: s });
        }
        for s in 0..3 {
            g.op(t, Op::Norm { src: PRef::L(s), text: probe });
        }
        // the same set built the other way round
        let it = g.pairs(6);
        let mut rev = it.clone();
        rev.reverse();
        g.op(t, Op::TabMake { dst: 8, src: TabSrc::Empty });
        g.op(t, Op::TabMake { dst: 9, src: TabSrc::Empty });
        for p in it {
            let v = g.r.below(6) as u8;
            g.op(t, Op::TabEdit { dst: 8, edit: Edit::Add { items: vec![p], via: v } });
        }
        for p in rev {
            let v = g.r.below(6) as u8;
            g.op(t, Op::TabEdit { dst: 9, edit: Edit::Add { items: vec![p], via: v } });
        }
        g.op(t, Op::TabItems { src: 8 });
        g.op(t, Op::TabItems { src: 9 });
        g.op(t, Op::TabEq { a: 8, b: 9 });
    }
    g.sched();
}

// ---- C21 ----

fn any_act(g: &mut G, path: &str) -> Act {
    let p = path.to_string();
    match g.r.below(7) {
        0 | 1 => Act::Remove { path: p },
        2 => {
            let c = g.content(Content::Raw(Bytes(b"\xFF,\xFE\n: [\n".to_vec())));
            Act::Set { path: p, node: Node::File(c) }
        }
        3 => Act::Set { path: p, node: Node::Dir },
        4 => Act::Set { path: p, node: Node::Link("/nowhere".into()) },
        5 => {
            let c = g.cfg(path);
            Act::InPlace { path: p, content: c }
        }
        _ => {
            let c = g.cfg(path);
            Act::Set { path: p, node: Node::File(c) }
        }
    }
}

fn change_around(g: &mut G) -> Act {
    let file = *g.r.pick(&["/cfg/a.csv", "/work/b.yaml", "/nowhere.yaml", "b.csv", "/home/u/.chanomarc.csv"]);
    match g.r.below(6) {
        0 => Act::Env { key: "HOME".into(), value: None },
        1 => {
            let v = *g.r.pick(&["/home/other", "/cfg", "/home/u", ""]);
            Act::Env { key: "HOME".into(), value: Some(Bytes(v.as_bytes().to_vec())) }
        }
        2 => Act::Env { key: "CHANOMARC".into(), value: None },
        3 => Act::Env { key: "CHANOMARC".into(), value: Some(Bytes(file.as_bytes().to_vec())) },
        _ if g.r.chance(1, 4) => Act::Cwd(None),
        _ => {
            let d = *g.r.pick(&["/cfg", "/work", "/home/u", "/data/深い/dir"]);
            Act::Cwd(Some(d.into()))
        }
    }
}

fn c21(g: &mut G) {
    g.tasks(1);
    let files = { let n = g.r.range(1, 4) as usize; g.files(n) };
    let mut rc = g.rc_files(3);
    if g.r.chance(1, 4) {
        let f = g.r.pick(&files).clone();
        g.sc.world.env.insert("CHANOMARC".into(), Bytes(G::abs(&f).into_bytes()));
    }
    if g.r.chance(1, 3) {
        g.sc.world.env_wild = Some(Bytes(g.r.pick(&["1", "", "/cfg", "0", "debug"]).as_bytes().to_vec()));
    }
    if g.r.chance(1, 4) {
        let l = *g.r.pick(&[3u8, 4, 5]);
        g.logger(l);
    }
    let probe = g.probe_text();
    let mut texts = vec![probe, probe];
    for _ in 0..3 {
        let t = g.rand_text();
        texts.push(t);
    }
    let slots = g.r.range(2, 6) as u32;
    for s in 0..slots {
        match g.r.below(8) {
            0..=3 => {
                let f = g.r.pick(&files).clone();
                g.load(0, s, &f);
            }
            4 => {
                g.op(0, Op::Make { dst: s, how: Make::LoadRc });
            }
            5 => {
                let f = g.r.pick(&files).clone();
                let src = if g.r.chance(1, 2) { TabSrc::Builder(f) } else { TabSrc::Func(f) };
                g.op(0, Op::TabMake { dst: 7, src });
                g.op(0, Op::Make { dst: s, how: Make::FromTable(7) });
            }
            _ => g.plain(Some(0), s),
        }
        if g.r.chance(1, 4) {
            g.op(0, Op::Use { dst: s, step: Step1::Neologdn });
        }
    }
    let tabs = g.r.range(1, 4) as u32;
    for t in 0..tabs {
        let f = g.r.pick(&files).clone();
        match g.r.below(4) {
            0 => {
                g.op(0, Op::TabMake { dst: t, src: TabSrc::Empty });
                g.op(0, Op::TabEdit { dst: t, edit: Edit::AddFile(f) });
            }
            1 => {
                g.op(0, Op::TabMake { dst: t, src: TabSrc::Func(f) });
            }
            _ => {
                g.op(0, Op::TabMake { dst: t, src: TabSrc::Builder(f) });
            }
        }
    }
    for s in 0..slots {
        if g.r.chance(1, 3) {
            g.op(0, Op::Norm { src: PRef::L(s), text: probe });
        }
    }
    let mut paths: Vec<String> = files.iter().map(|f| G::abs(f)).collect();
    paths.append(&mut rc);
    // everything may go
    for p in &paths {
        if g.r.chance(3, 4) {
            let a = any_act(g, p);
            g.op(0, Op::Fs(a));
        }
    }
    for _ in 0..g.r.below(4) {
        let a = change_around(g);
        g.op(0, Op::Fs(a));
    }
    if g.r.chance(1, 3) {
        g.op(0, Op::Fs(Act::Cwd(None)));
    }
    let mut mine = Vec::new();
    for _ in 0..g.r.range(4, 30) {
        let s = g.r.below(slots as u64) as u32;
        let t = g.r.below(tabs as u64) as u32;
        let tx = *g.r.pick(&texts);
        let id = match g.r.below(16) {
            0..=4 => {
                g.norm_any(0, PRef::L(s), tx);
                g.next[0] - 1
            }
            5 => g.op(0, Op::TabItems { src: t }),
            6 => {
                let it = g.pairs(3);
                let edit = if g.r.chance(1, 2) { Edit::Add { items: it, via: 0 } } else { Edit::Remove { items: it, via: 1 } };
                g.op(0, Op::TabEdit { dst: t, edit })
            }
            7 => {
                let u = g.r.below(tabs as u64) as u32;
                g.op(0, Op::TabCopy { dst: t, src: u })
            }
            8 => {
                g.op(0, Op::Make { dst: s, how: Make::FromTable(t) });
                g.op(0, Op::Norm { src: PRef::L(s), text: probe })
            }
            9 => {
                let step = if g.r.chance(1, 2) { Step1::Table(t) } else { Step1::Preset };
                g.op(0, Op::Use { dst: s, step });
                g.op(0, Op::Norm { src: PRef::L(s), text: probe })
            }
            10 => g.op(0, Op::Export { src: t, end: 0 }),
            11 => g.op(0, Op::ExportYaml { src: t }),
            12 => {
                g.plain(Some(0), s);
                g.next[0] - 1
            }
            13 => {
                let p = g.r.pick(&paths).clone();
                let a = any_act(g, &p);
                g.op(0, Op::Fs(a))
            }
            14 => {
                let a = change_around(g);
                g.op(0, Op::Fs(a))
            }
            _ => {
                let edit = if g.r.chance(1, 2) { Edit::Preset } else { Edit::RemovePreset };
                g.op(0, Op::TabEdit { dst: t, edit })
            }
        };
        mine.push(id);
    }
    for s in 0..slots {
        mine.push(g.op(0, Op::Norm { src: PRef::L(s), text: probe }));
    }
    for t in 0..tabs {
        mine.push(g.op(0, Op::TabItems { src: t }));
    }
    for id in mine {
        if g.r.chance(1, 3) {
            let n = g.r.below(3) as u32;
            let e = g.open_errno();
            g.fault(id, "open", n, Act::Errno(e));
            let e = g.read_errno();
            g.fault(id, "read", n, Act::Errno(e));
        }
    }
    g.sched();
}

// ---- C22 ----

fn c22(g: &mut G) {
    g.tasks(1);
    g.sc.world.read_chunk = if g.r.chance(1, 2) { Chunk::Whole } else { Chunk::Fixed(g.r.range(20, 5000) as u32) };
    if g.r.chance(1, 5) {
        let l = *g.r.pick(&[3u8, 4, 5]);
        g.logger(l);
    }
    if g.r.chance(2, 5) {
        scaled(g);
        return;
    }
    let mut files: Vec<String> = Vec::new();
    for i in 0..g.r.range(1, 4) {
        let e = *g.r.pick(&["csv", "yaml", "yml"]);
        let p = format!("/cfg/f{}.{}", i, e);
        let n = g.r.log(8) as usize;
        let c = if e == "csv" { g.csv(n) } else { g.yaml(n, 3) };
        let c = match c {
            Content::Csv { rows, mut style } => { style.pad = style.pad.min(40); Content::Csv { rows, style } }
            Content::Yaml { items, mods, mut style } => { style.pad = style.pad.min(3000); Content::Yaml { items, mods, style } }
            c => c,
        };
        let c = g.content(c);
        g.file(&p, c);
        files.push(p);
    }
    if g.r.chance(1, 2) {
        let mut all = g.rc_paths();
        g.r.shuffle(&mut all);
        let c = { let c = g.csv(3); g.content(match c { Content::Csv { rows, .. } => Content::Csv { rows, style: CsvStyle::default() }, c => c }) };
        let p = all.into_iter().find(|p| p.ends_with("csv")).unwrap();
        g.file(&p, c);
    }
    let c = g.content(Content::Raw(Bytes(b"items: [\n".to_vec())));
    g.file("/cfg/broken.yaml", c);
    let c = g.content(Content::Raw(Bytes(vec![b'a', b',', b'b', b'\n', 0xFF, b',', b'\n'])));
    g.file("/cfg/broken.csv", c);
    // many names: files that are there and files that are not
    let names = g.r.chance(1, 3);
    if names {
        let c = g.csv(1);
        let c = g.content(match c { Content::Csv { rows, .. } => Content::Csv { rows, style: CsvStyle::default() }, c => c });
        let d = g.content(Content::Raw(Bytes(b"modifiers:\n  trim:\nitems:\n  y: [x]\n".to_vec())));
        for i in 0..60 {
            g.file(&format!("/cfg/m/{}.csv", i), c);
            g.file(&format!("/cfg/m/{}.yaml", i), d);
        }
    }
    let mut all = files.clone();
    all.extend(["/cfg/broken.yaml".to_string(), "/cfg/broken.csv".into(), "/missing.csv".into()]);
    let a = { let n = g.r.range(1, 10) as usize; let s = g.rand_str(n); g.text(TextSpec::Lit(s)) };
    let b = { let n = g.r.range(1, 30) as usize; let s = g.tangle() + &g.rand_str(n); g.text(TextSpec::Lit(s)) };
    // what is repeated
    let f = g.r.pick(&files).clone();
    let it = g.pairs(2);
    let mut first = vec![
        Op::Make { dst: 50, how: Make::File(f.clone()) },
        Op::Make { dst: 51, how: Make::Preset },
        Op::Make { dst: 52, how: Make::Neologdn },
        Op::TabMake { dst: 50, src: TabSrc::Items(it) },
        Op::TabMake { dst: 51, src: TabSrc::Preset },
        Op::Make { dst: 53, how: Make::FromTable(50) },
    ];
    for o in first.drain(..) {
        g.op(0, o);
    }
    let mut block: Vec<Op> = Vec::new();
    for s in 50..54 {
        if g.r.chance(2, 3) {
            block.push(Op::Norm { src: PRef::L(s), text: a });
        }
        if g.r.chance(1, 3) {
            block.push(Op::Pos { src: PRef::L(s), text: b });
        }
    }
    let more = [
        Op::TabItems { src: 50 },
        Op::TabItems { src: 51 },
        Op::TabCopy { dst: 60, src: 50 },
        Op::TabEq { a: 50, b: 51 },
        Op::Make { dst: 60, how: Make::File(f.clone()) },
        Op::Make { dst: 61, how: Make::LoadRc },
        Op::Make { dst: 62, how: Make::Preset },
        Op::Make { dst: 63, how: Make::FromTable(50) },
        Op::Make { dst: 64, how: Make::File("/cfg/broken.csv".into()) },
        Op::Make { dst: 65, how: Make::File("/missing.csv".into()) },
        Op::TabMake { dst: 61, src: TabSrc::Builder(f.clone()) },
        Op::TabMake { dst: 62, src: TabSrc::Preset },
        Op::Export { src: 50, end: 0 },
        Op::ExportYaml { src: 50 },
    ];
    for o in more {
        if g.r.chance(1, 3) {
            block.push(o);
        }
    }
    g.r.shuffle(&mut block);
    let parts = g.r.range(1, 3);
    let m = { let most = if g.r.chance(1, 8) { 1500 } else { 300 }; g.r.log(most).max(40) / parts };
    let churn = g.r.range(4, 14);
    for p in 0..=parts {
        for _ in 0..if p == 0 { 3 } else { 1 } {
            for o in &block {
                g.op(0, o.clone());
            }
        }
        if p == parts {
            break;
        }
        for i in 0..m {
            let s = g.r.below(4) as u32;
            if names && g.r.chance(2, 3) {
                let e = *g.r.pick(&["csv", "csv", "yaml", "yml"]);
                let f = match g.r.below(4) {
                    0 => format!("/cfg/m/{}.{}", g.r.below(60), e),
                    1 => format!("/cfg/none/{}.{}", p * m + i, e),
                    _ => format!("/cfg/m/no-{}.{}", p * m + i, e),
                };
                match g.r.below(4) {
                    0 => g.op(0, Op::TabMake { dst: s, src: TabSrc::Builder(f) }),
                    1 => {
                        g.op(0, Op::TabMake { dst: s, src: TabSrc::Empty });
                        g.op(0, Op::TabEdit { dst: s, edit: Edit::AddFile(f) })
                    }
                    _ => g.load(0, s, &f),
                };
                continue;
            }
            match g.r.below(churn) {
                0 => {
                    let f = g.r.pick(&all).clone();
                    let id = g.load(0, s, &f);
                    if g.r.chance(1, 3) {
                        g.io_fault(id);
                    }
                }
                1 => {
                    g.plain(Some(0), s);
                    if g.r.chance(1, 2) {
                        g.op(0, Op::Use { dst: s, step: Step1::Neologdn });
                    }
                }
                2 => {
                    let f = g.r.pick(&all).clone();
                    let id = match g.r.below(3) {
                        0 => g.op(0, Op::Make { dst: s, how: Make::LoadRc }),
                        1 => g.op(0, Op::TabMake { dst: s, src: TabSrc::Builder(f) }),
                        _ => {
                            g.op(0, Op::TabMake { dst: s, src: TabSrc::Empty });
                            g.op(0, Op::TabEdit { dst: s, edit: Edit::AddFile(f) })
                        }
                    };
                    if g.r.chance(1, 3) {
                        g.io_fault(id);
                    }
                }
                3 => {
                    g.op(0, Op::Drop { dst: s });
                }
                _ => {
                    // a text of its own
                    let mut u = { let n = g.r.log(6) as usize; g.rand_str(n) };
                    u.push(char::from_u32(0x20000 + (p * 2000 + i) as u32).unwrap());
                    let tx = g.text(TextSpec::Lit(u));
                    let s = if g.r.chance(1, 2) { 50 + s } else { s };
                    let pos = g.r.chance(1, 6);
                    g.op(0, if pos { Op::Pos { src: PRef::L(s), text: tx } } else { Op::Norm { src: PRef::L(s), text: tx } });
                }
            }
        }
    }
    g.sc.sched = SchedSpec::Seeded { seed: g.r.next(), gap: 0, fine: 0, hot: 0, stall: 0 };
}

/// eight times the input
fn scaled(g: &mut G) {
    let kind = g.r.below(3);
    if kind == 0 {
        let n = g.r.range(60, 400) as u32;
        let e = *g.r.pick(&["csv", "yaml"]);
        let tag = if g.r.chance(1, 2) { FEW } else { 1 };
        for (p, n) in [("small", n), ("large", 8 * n)] {
            let c = g.content(if e == "csv" { Content::BigCsv { n, tag } } else { Content::BigYaml { n, tag } });
            g.file(&format!("/cfg/{}.{}", p, e), c);
        }
        let probe = g.text(TextSpec::Lit("aＡ".into()));
        let load = |p: &str, d: u32| -> [Op; 8] {
            let p = format!("/cfg/{}.{}", p, e);
            [
                Op::Make { dst: d, how: Make::File(p.clone()) },
                Op::TabMake { dst: d, src: TabSrc::Builder(p.clone()) },
                Op::TabItems { src: d },
                Op::TabCopy { dst: d + 2, src: d },
                Op::Export { src: d, end: 0 },
                Op::ExportYaml { src: d },
                Op::Make { dst: d + 2, how: Make::FromTable(d) },
                Op::Norm { src: PRef::L(d + 2), text: probe },
            ]
        };
        let x: Vec<u32> = load("small", 0).into_iter().map(|o| g.op(0, o)).collect();
        let y: Vec<u32> = load("large", 1).into_iter().map(|o| g.op(0, o)).collect();
        g.sc.eightfold = x.into_iter().zip(y).collect();
    } else {
        let mut files = { let n = g.r.range(1, 2) as usize; g.files(n) };
        let c = { let k = g.r.range(0, 3) as usize; g.yaml(k, 7) };
        // and what its steps work on
        let mut work: Vec<String> = Vec::new();
        let c = g.content(match c {
            Content::Yaml { items, mods, style } => {
                for m in &mods {
                    match m {
                        ModSpec::Conv(v) | ModSpec::Lig(v) => work.extend(v.iter().map(|x| x.0.clone())),
                        ModSpec::Elim(v) => work.extend(v.iter().cloned()),
                        ModSpec::Reduce(c) => work.extend([c.clone(), c.clone()]),
                        ModSpec::Trim => work.extend([" ".to_string(), " ".to_string()]),
                        ModSpec::Dotted => work.extend(["a ".to_string(), "あ ".to_string()]),
                        ModSpec::Neologdn => {}
                    }
                }
                Content::Yaml { items, mods, style: YamlStyle { pad: 0, ..style } }
            }
            c => c,
        });
        work.retain(|s| !s.is_empty());
        g.file("/cfg/steps.yaml", c);
        files.push("/cfg/steps.yaml".into());
        for s in 0..3 {
            match g.r.below(2) {
                0 => {
                    let f = if g.r.chance(1, 2) { files[files.len() - 1].clone() } else { g.r.pick(&files).clone() };
                    g.load(0, s, &f);
                }
                _ => g.plain(Some(0), s),
            }
            if g.r.chance(1, 3) {
                g.op(0, Op::Use { dst: s, step: Step1::Neologdn });
            }
        }
        let unit = match g.r.below(6) {
            0 | 1 => g.tangle(),
            2 | 3 if !work.is_empty() => g.r.pick(&work).clone(),
            3 | 4 => g.run_unit(),
            _ => { let n = g.r.range(1, 12) as usize; g.rand_str(n) }
        };
        let n = (g.r.range(100, 2000) / unit.chars().count().max(1) as u64).max(2) as u32;
        // what stands around the repeated part: nothing much, or as many of something else
        let mut around = |g: &mut G| {
            if g.r.chance(1, 4) {
                let u = if g.r.chance(1, 2) { g.run_unit() } else { g.rand_str(1) };
                (u.repeat(n as usize), u.repeat(8 * n as usize))
            } else {
                let n = if g.r.chance(1, 2) { 0 } else { g.r.below(4) as usize };
                let s = g.rand_str(n);
                (s.clone(), s)
            }
        };
        let (head, head8) = around(g);
        let (tail, tail8) = around(g);
        let a = g.text(TextSpec::Rep { head, unit: unit.clone(), n, tail });
        let b = g.text(TextSpec::Rep { head: head8, unit, n: 8 * n, tail: tail8 });
        for s in 0..3 {
            let pos = g.r.chance(1, 3);
            let mk = |t: u32| if pos { Op::Pos { src: PRef::L(s), text: t } } else { Op::Norm { src: PRef::L(s), text: t } };
            let x = g.op(0, mk(a));
            let y = g.op(0, mk(b));
            g.sc.eightfold.push((x, y));
        }
    }
    g.sc.sched = SchedSpec::Seeded { seed: g.r.next(), gap: 0, fine: 0, hot: 0, stall: 0 };
}
