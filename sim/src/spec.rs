//! Plain data that describes one simulated world. Everything a run does is a pure function of it.

use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;

/// Bytes, written in JSON as text when they are plain UTF-8 and as "hex:.." otherwise.
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct Bytes(pub Vec<u8>);

impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) if !t.starts_with("hex:") => s.serialize_str(t),
            _ => {
                let mut o = String::from("hex:");
                for b in &self.0 {
                    o.push_str(&format!("{:02x}", b));
                }
                s.serialize_str(&o)
            }
        }
    }
}

impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        if let Some(h) = s.strip_prefix("hex:") {
            let mut v = Vec::new();
            let hb = h.as_bytes();
            let mut i = 0;
            while i + 1 < hb.len() {
                let x = u8::from_str_radix(&h[i..i + 2], 16).map_err(serde::de::Error::custom)?;
                v.push(x);
                i += 2;
            }
            Ok(Bytes(v))
        } else {
            Ok(Bytes(s.into_bytes()))
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Node {
    /// regular file holding contents[i]
    File(usize),
    Dir,
    Link(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FileSpec {
    pub path: String,
    pub node: Node,
}

/// How a stream hands out or accepts bytes.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum Chunk {
    #[default]
    Whole,
    Fixed(u32),
    /// each call moves 1..=max bytes, drawn from the I/O stream of the run
    Random(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    /// the call fails with this errno
    Errno(i32),
    /// the call moves at most this many bytes
    Short(u32),
    /// another actor atomically puts this node at the path just before the call
    Set { path: String, node: Node },
    /// another actor removes the path just before the call
    Remove { path: String },
    /// another actor rewrites the same inode in place just before the call
    InPlace { path: String, content: usize },
    /// the scheduler is asked for a switch at the call
    Switch,
    /// another part of the program sets or removes an environment variable
    Env { key: String, value: Option<Bytes> },
    /// another part of the program changes the working directory (None: it is removed)
    Cwd(Option<String>),
    /// the clock of the day is set forward or back, by so many milliseconds
    Clock(i64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FaultSpec {
    /// operation of the history during which it happens
    pub op: u32,
    /// kind of call ("open", "read", "stat", ... or "any")
    pub class: String,
    /// n-th call of that kind within the operation
    pub n: u32,
    pub act: Act,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct WorldSpec {
    pub files: Vec<FileSpec>,
    pub contents: Vec<Bytes>,
    pub env: BTreeMap<String, Bytes>,
    /// value of every variable that is not in `env` and that no documentation mentions
    #[serde(default)]
    pub env_wild: Option<Bytes>,
    pub cwd: Option<String>,
    pub passwd_home: Option<String>,
    pub faults: Vec<FaultSpec>,
    pub read_chunk: Chunk,
    pub write_chunk: Chunk,
    pub stdin: Option<Bytes>,
    pub entropy: u64,
    pub io_seed: u64,
    /// simulated time at the start, ns since 1970
    pub clock_ns: u64,
    pub max_events: u64,
}
