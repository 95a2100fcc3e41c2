//! A plan is one run: everything the simulator decides. Executing it draws no random number and reads no clock.

use crate::ctx::{Site, NSITES, SITE_NAMES};
use serde_json::{json, Map as JMap, Value};

macro_rules! codes {
    ($($name:ident = $text:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u8)]
        pub enum Code { $($name),* }
        pub const CODES: &[Code] = &[$(Code::$name),*];
        pub const CODE_NAMES: &[&str] = &[$($text),*];
    };
}
codes! {
    Insert = "insert", Remove = "remove", Get = "get", GetMut = "get_mut", Len = "len", Clear = "clear",
    Retain = "retain", Entry = "entry", Iter = "iter", IterMut = "iter_mut", IntoIter = "into_iter", Pair = "iter_pair",
    Clone = "clone", CloneFrom = "clone_from", Cmp = "eq", Ord = "ord", Hash = "hash", Debug = "debug",
    Collect = "collect", Inter = "intersection", InterDebug = "intersection_debug", SerRec = "serialize_calls",
    Save = "save", Load = "load", ScriptDe = "deserialize_calls", Raw = "raw", FromRaw = "from_raw", Crash = "crash",
    Rot = "rot", New = "new", Refill = "refill", Pause = "pause",
    Bulk = "bulk", Pick = "max_min_clamp", Move = "move", Zero = "zero_sized",
}
pub const ELSEWHERE: u8 = 0x80;
pub const NCODES: usize = CODE_NAMES.len();

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
#[repr(u8)]
pub enum FK {
    #[default]
    None,
    /// The `b`-th callback of site `a` panics.
    Panic,
    /// The `b`-th callback of site `a` returns an error.
    Err,
    /// The `a`-th allocation request is refused.
    Alloc,
    /// Every allocation request is refused.
    Outage,
    /// Disk faults after `a` bytes.
    IoErr,
    IoFull,
    IoIntr,
    IoCrash,
    /// The `a`-th call on the serializer / deserializer / text sink fails.
    Wire,
}
pub const FK_NAMES: [&str; 10] = ["none", "panic", "err", "alloc", "outage", "io_err", "io_full", "io_intr", "io_crash", "wire"];
pub const FKS: [FK; 10] =
    [FK::None, FK::Panic, FK::Err, FK::Alloc, FK::Outage, FK::IoErr, FK::IoFull, FK::IoIntr, FK::IoCrash, FK::Wire];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Fault {
    pub kind: FK,
    pub a: u32,
    pub b: u32,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Op {
    pub code: Code,
    pub s: u8,
    pub t: u8,
    pub k: u32,
    pub v: i32,
    pub how: u32,
    pub c: u32,
    pub bits: u128,
    pub list: Vec<u32>,
    pub moves: Vec<u32>,
    pub fault: Fault,
    /// Inside the `1`-th callback of site `0`: reads of the same containers, or with [`ELSEWHERE`] set on the site,
    /// operations on other containers of the same type.
    pub nest: Option<(u8, u32)>,
}

impl Op {
    pub fn new(code: Code) -> Op {
        Op { code, s: 0, t: 0, k: 0, v: 0, how: 0, c: 0, bits: 0, list: vec![], moves: vec![], fault: Fault::default(), nest: None }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub index: u64,
    pub build_seed: u64,
    pub wide: u8,
    pub is_map: bool,
    pub shape: String,
    pub hash_seed: u64,
    /// Steps taken before the clients start, by nobody in particular.
    pub setup: Vec<Op>,
    pub clients: Vec<Vec<Op>>,
    pub choices: Vec<u8>,
    pub mask: u32,
    /// Memory accesses of a client between two preemptions, drawn by all clients in turn.
    pub gaps: Vec<u32>,
    /// Judge the last step only: nothing else reads the containers.
    pub quiet: bool,
}

fn site_name(i: u32) -> &'static str {
    SITE_NAMES.get(i as usize).copied().unwrap_or("?")
}
fn site_of(s: &str) -> Option<u32> {
    SITE_NAMES.iter().position(|x| *x == s).map(|x| x as u32)
}

impl Op {
    pub fn json(&self) -> Value {
        let mut o = JMap::new();
        o.insert("op".into(), json!(CODE_NAMES[self.code as usize]));
        let mut num = |n: &str, v: i64| {
            if v != 0 {
                o.insert(n.into(), json!(v));
            }
        };
        num("s", self.s as i64);
        num("t", self.t as i64);
        num("k", self.k as i64);
        num("v", self.v as i64);
        num("how", self.how as i64);
        num("c", self.c as i64);
        if self.bits != 0 {
            o.insert("bits".into(), json!(format!("{:x}", self.bits)));
        }
        if !self.list.is_empty() {
            o.insert("list".into(), json!(self.list));
        }
        if !self.moves.is_empty() {
            o.insert("moves".into(), json!(self.moves));
        }
        let f = self.fault;
        match f.kind {
            FK::None => {}
            FK::Panic | FK::Err => {
                o.insert("fault".into(), json!([FK_NAMES[f.kind as usize], site_name(f.a), f.b]));
            }
            _ => {
                o.insert("fault".into(), json!([FK_NAMES[f.kind as usize], f.a, f.b]));
            }
        }
        if let Some((s, n)) = self.nest {
            o.insert("nest".into(), json!([site_name((s & !ELSEWHERE) as u32), n, s & ELSEWHERE != 0]));
        }
        Value::Object(o)
    }

    pub fn parse(v: &Value) -> Option<Op> {
        let name = v["op"].as_str()?;
        let code = CODES[CODE_NAMES.iter().position(|n| *n == name)?];
        let num = |n: &str| v[n].as_i64().unwrap_or(0);
        let list = |n: &str| v[n].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default();
        let mut fault = Fault::default();
        if let Some(f) = v["fault"].as_array() {
            let name = f.first()?.as_str()?;
            fault.kind = FKS[FK_NAMES.iter().position(|n| *n == name)?];
            fault.a = match f.get(1)? {
                Value::String(s) => site_of(s)?,
                x => x.as_u64()? as u32,
            };
            fault.b = f.get(2)?.as_u64()? as u32;
        }
        let nest = match v["nest"].as_array() {
            Some(a) => {
                let far = a.get(2).is_some_and(|x| x.as_bool() == Some(true));
                Some((site_of(a.first()?.as_str()?)? as u8 | if far { ELSEWHERE } else { 0 }, a.get(1)?.as_u64()? as u32))
            }
            None => None,
        };
        Some(Op {
            code,
            s: num("s") as u8,
            t: num("t") as u8,
            k: num("k") as u32,
            v: num("v") as i32,
            how: num("how") as u32,
            c: num("c") as u32,
            bits: u128::from_str_radix(v["bits"].as_str().unwrap_or("0"), 16).ok()?,
            list: list("list"),
            moves: list("moves"),
            fault,
            nest,
        })
    }
}

impl Plan {
    pub fn json(&self) -> Value {
        json!({
            "property": self.prop, "seed": self.seed, "run": self.index, "build_seed": self.build_seed, "wide": self.wide,
            "container": if self.is_map { "map" } else { "set" }, "shape": self.shape, "hash_seed": self.hash_seed,
            "setup": self.setup.iter().map(Op::json).collect::<Vec<_>>(), "quiet": self.quiet,
            "clients": self.clients.iter().map(|c| c.iter().map(Op::json).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "choices": self.choices, "gaps": self.gaps, "preempt_at": (0..NSITES).filter(|i| self.mask & (1 << i) != 0).map(|i| SITE_NAMES[i]).collect::<Vec<_>>(),
        })
    }

    pub fn parse(v: &Value) -> Option<Plan> {
        let mut mask = 0;
        for s in v["preempt_at"].as_array()? {
            mask |= 1 << site_of(s.as_str()?)?;
        }
        Some(Plan {
            prop: v["property"].as_str()?.into(),
            seed: v["seed"].as_u64()?,
            index: v["run"].as_u64()?,
            build_seed: v["build_seed"].as_u64()?,
            wide: v["wide"].as_u64()? as u8,
            is_map: v["container"].as_str()? == "map",
            shape: v["shape"].as_str()?.into(),
            hash_seed: v["hash_seed"].as_u64()?,
            setup: v["setup"].as_array()?.iter().map(Op::parse).collect::<Option<Vec<_>>>()?,
            quiet: v["quiet"].as_bool().unwrap_or(false),
            clients: v["clients"]
                .as_array()?
                .iter()
                .map(|c| c.as_array()?.iter().map(Op::parse).collect::<Option<Vec<_>>>())
                .collect::<Option<Vec<_>>>()?,
            choices: v["choices"].as_array()?.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
            mask,
            gaps: v["gaps"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default(),
        })
    }
}

#[allow(dead_code)]
pub fn site(i: u32) -> Site {
    const ALL: [Site; NSITES] = [
        Site::Closure, Site::Clone, Site::Drop, Site::Eq, Site::Cmp, Site::Hash, Site::Debug, Site::Ser, Site::De, Site::Default,
        Site::Source, Site::KeySer, Site::KeyDe, Site::Step, Site::Write, Site::Read,
        Site::Atomic, Site::Memory,
    ];
    ALL[i as usize]
}
