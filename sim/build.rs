//! Generates the key shapes the simulator runs on.
//!
//! A fixed list chosen for the thresholds and nestings of the code under test, plus random
//! composites derived from VERIF_SEED (recorded in every plan, so a replay rebuilds the same types).

use std::fmt::Write as _;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Cap {
    Unit,
    UnitBitset,
    Fixed,
    Dyn,
}

struct Gen {
    out: String,
    maps: Vec<String>,
    sets: Vec<String>,
    /// name, is_dynamic, size
    types: Vec<(String, bool, usize)>,
}

/// Size of the one big dynamic universe.
const BIG: usize = 4300;
/// Size of the huge one.
const HUGE: usize = 66_000;

const PRIMS: &[(&str, bool, usize)] = &[
    ("bool", false, 2),
    ("()", false, 1),
    ("char", true, 8),
    ("u8", true, 12),
    ("u32", true, 24),
    ("u128", true, 8),
    ("usize", true, 8),
    ("i8", true, 8),
    ("i32", true, 8),
    ("i64", true, 8),
    ("i128", true, 8),
    ("&'static str", true, 10),
    ("&'static [u8]", true, 8),
];

impl Gen {
    fn info(&self, ty: &str) -> (bool, usize) {
        if let Some(inner) = ty.strip_prefix("Option<").and_then(|t| t.strip_suffix('>')) {
            let (d, n) = self.info(inner);
            return (d, n + 1);
        }
        if ty == "u64" {
            return (true, BIG);
        }
        if ty == "isize" {
            return (true, HUGE);
        }
        if let Some(p) = PRIMS.iter().find(|p| p.0 == ty) {
            return (p.1, p.2);
        }
        let t = self.types.iter().find(|t| t.0 == ty).unwrap_or_else(|| panic!("type {ty}"));
        (t.1, t.2)
    }

    /// Define an enum from `(variant, payload type, discriminant)` triples.
    fn enumeration(&mut self, name: &str, attr: &str, variants: &[(String, Option<String>, Option<i64>)]) {
        let mut dynamic = false;
        let mut size = 0;
        let mut sizes = Vec::new();
        for (_, p, _) in variants {
            let n = match p {
                None => 1,
                Some(t) => {
                    let (d, n) = self.info(t);
                    dynamic |= d;
                    n
                }
            };
            sizes.push(n);
            size += n;
        }
        let o = &mut self.out;
        writeln!(o, "#[derive(Clone, Copy, PartialEq, Eq, Debug, fixed_map::Key)] {attr}").unwrap();
        writeln!(o, "pub enum {name} {{").unwrap();
        for (v, p, d) in variants {
            match (p, d) {
                (Some(t), _) => writeln!(o, "  {v}({t}),").unwrap(),
                (None, Some(d)) => writeln!(o, "  {v} = {d},").unwrap(),
                (None, None) => writeln!(o, "  {v},").unwrap(),
            }
        }
        writeln!(o, "}}").unwrap();
        writeln!(o, "impl Uni for {name} {{").unwrap();
        writeln!(o, "  fn size() -> usize {{ {size} }}").unwrap();
        writeln!(o, "  fn dynamic() -> bool {{ {dynamic} }}").unwrap();
        // ranks
        writeln!(o, "  fn ranks() -> usize {{ 0").unwrap();
        for (_, p, _) in variants {
            match p {
                None => writeln!(o, "    + 1").unwrap(),
                Some(t) => writeln!(o, "    + <{t} as Uni>::ranks()").unwrap(),
            }
        }
        writeln!(o, "  }}").unwrap();
        if variants.iter().all(|v| v.1.is_none()) {
            // compact form for unit enums
            writeln!(o, "  fn nth(i: usize) -> Self {{ const L: &[{name}] = &[").unwrap();
            for (v, _, _) in variants {
                write!(o, "{name}::{v},").unwrap();
            }
            writeln!(o, "]; L[i] }}").unwrap();
            writeln!(o, "  fn rank(i: usize) -> usize {{ i }}").unwrap();
            writeln!(o, "  fn in_dynamic(_: usize) -> bool {{ false }}").unwrap();
            writeln!(o, "  fn idx(&self) -> usize {{ match *self {{").unwrap();
            for (i, (v, _, _)) in variants.iter().enumerate() {
                writeln!(o, "    {name}::{v} => {i},").unwrap();
            }
            writeln!(o, "  }} }}").unwrap();
        } else {
            writeln!(o, "  fn nth(i: usize) -> Self {{ let mut i = i;").unwrap();
            for (n, (v, p, _)) in variants.iter().enumerate() {
                let s = sizes[n];
                match p {
                    None => writeln!(o, "    if i < {s} {{ return {name}::{v}; }} i -= {s};").unwrap(),
                    Some(t) => writeln!(o, "    if i < {s} {{ return {name}::{v}(<{t} as Uni>::nth(i)); }} i -= {s};").unwrap(),
                }
            }
            writeln!(o, "    panic!(\"universe index {{}}\", i) }}").unwrap();
            writeln!(o, "  fn rank(i: usize) -> usize {{ let mut i = i; let mut r = 0;").unwrap();
            for (n, (_, p, _)) in variants.iter().enumerate() {
                let s = sizes[n];
                match p {
                    None => writeln!(o, "    if i < {s} {{ return r; }} i -= {s}; r += 1;").unwrap(),
                    Some(t) => writeln!(o, "    if i < {s} {{ return r + <{t} as Uni>::rank(i); }} i -= {s}; r += <{t} as Uni>::ranks();").unwrap(),
                }
            }
            writeln!(o, "    panic!(\"universe index {{}} {{}}\", i, r) }}").unwrap();
            writeln!(o, "  fn in_dynamic(i: usize) -> bool {{ let mut i = i;").unwrap();
            for (n, (_, p, _)) in variants.iter().enumerate() {
                let s = sizes[n];
                match p {
                    None => writeln!(o, "    if i < {s} {{ return false; }} i -= {s};").unwrap(),
                    Some(t) => writeln!(o, "    if i < {s} {{ return <{t} as Uni>::in_dynamic(i); }} i -= {s};").unwrap(),
                }
            }
            writeln!(o, "    panic!(\"universe index {{}}\", i) }}").unwrap();
            writeln!(o, "  fn idx(&self) -> usize {{ match *self {{").unwrap();
            let mut off = 0;
            for (n, (v, p, _)) in variants.iter().enumerate() {
                match p {
                    None => writeln!(o, "    {name}::{v} => {off},").unwrap(),
                    Some(_) => writeln!(o, "    {name}::{v}(ref x) => off({off}, x.idx()),").unwrap(),
                }
                off += sizes[n];
            }
            writeln!(o, "  }} }}").unwrap();
        }
        writeln!(o, "}}").unwrap();
        writeln!(o, "enum_serde!({name});").unwrap();
        self.types.push((name.to_string(), dynamic, size));
    }

    fn units(&mut self, name: &str, n: usize, bitset: bool, disc: bool) {
        let attr = if bitset { "#[key(bitset)]" } else { "" };
        let vs: Vec<_> = (0..n)
            .map(|i| {
                let v = if i == 1 && n == 5 { "r#type".to_string() } else { format!("V{i}") };
                // Discriminants in an order that is not the declaration order.
                (v, None, disc.then(|| ((i as i64 * 7 + 3) % 131) - 20))
            })
            .collect();
        self.enumeration(name, &format!("{} {attr}", if disc { "#[repr(i16)]" } else { "" }), &vs);
    }

    fn comp(&mut self, name: &str, attr: &str, vs: &[(&str, &str)]) {
        let vs: Vec<_> = vs
            .iter()
            .map(|(v, t)| (v.to_string(), (!t.is_empty()).then(|| t.to_string()), None))
            .collect();
        self.enumeration(name, attr, &vs);
    }

    fn label(ty: &str) -> String {
        ty.replace("&'static ", "ref ")
    }

    fn map(&mut self, ty: &str, cap: Cap) {
        let dynamic = self.info(ty).0;
        assert_eq!(dynamic, cap == Cap::Dyn, "{ty}");
        let serde = if ty.contains('&') { "noserde" } else { "serde" };
        let (it, ord) = match cap {
            Cap::Unit | Cap::UnitBitset => ("dei", "ord"),
            Cap::Fixed => (if ty == "bool" { "exact" } else { "dei" }, "noord"),
            Cap::Dyn => ("fwd", "noord"),
        };
        let l = Self::label(ty);
        self.maps.push(format!("map_shape!({ty}, Tok, \"{l}\", {it}, {ord}, {serde})"));
    }

    /// The map with another layout of values.
    fn map_of(&mut self, ty: &str, cap: Cap, val: &str) {
        self.map(ty, cap);
        let s = self.maps.pop().unwrap();
        self.maps.push(s.replacen(", Tok, \"", &format!(", {val}, \"{} to ", val.to_lowercase()), 1));
    }

    fn set(&mut self, ty: &str, cap: Cap) {
        let serde = if ty.contains('&') { "noserde" } else { "serde" };
        let (it, ord, raw) = match cap {
            Cap::Unit => ("dei", "ord", "noraw"),
            Cap::UnitBitset => ("dei", "ord", "raw"),
            Cap::Fixed => (if ty == "bool" { "exact" } else { "dei" }, if ty == "()" { "ord" } else { "noord" }, "noraw"),
            Cap::Dyn => ("fwd", "noord", "noraw"),
        };
        let l = Self::label(ty);
        self.sets.push(format!("set_shape!({ty}, \"{l}\", {it}, {ord}, {serde}, {raw})"));
    }

    fn both(&mut self, ty: &str, cap: Cap) {
        self.map(ty, cap);
        self.set(ty, cap);
    }

    fn random(&mut self, name: &str, rng: &mut Rng) {
        let n = 1 + rng.below(6) as usize;
        let mut vs: Vec<(String, Option<String>, Option<i64>)> = Vec::new();
        let mut size = 0;
        let allow_dyn = rng.below(2) == 0;
        for i in 0..n {
            if size >= 60 {
                break;
            }
            let mut ty;
            loop {
                ty = match rng.below(10) {
                    0..=2 => None,
                    3..=5 => Some(PRIMS[rng.below(PRIMS.len() as u64) as usize].0.to_string()),
                    _ => Some(self.types[rng.below(self.types.len() as u64) as usize].0.clone()),
                };
                if let Some(t) = ty.take() {
                    let mut t = t;
                    for _ in 0..2 {
                        if rng.below(4) == 0 {
                            t = format!("Option<{t}>");
                        }
                    }
                    ty = Some(t);
                }
                let (d, s) = match &ty {
                    None => (false, 1),
                    Some(t) => self.info(t),
                };
                if (d && !allow_dyn) || size + s > 60 {
                    continue;
                }
                size += s;
                break;
            }
            vs.push((format!("V{i}"), ty, None));
        }
        if vs.iter().all(|v| v.1.is_none()) {
            vs[0].1 = Some("bool".into());
        }
        let dynamic = vs.iter().any(|v| v.1.as_ref().is_some_and(|t| self.info(t).0));
        self.enumeration(name, "", &vs);
        self.both(name, if dynamic { Cap::Dyn } else { Cap::Fixed });
    }
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=FMSIM_BUILD_SEED");
    println!("cargo:rerun-if-env-changed=FMSIM_WIDE");
    let seed: u64 = std::env::var("FMSIM_BUILD_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let kind = std::env::var("FMSIM_WIDE").ok().and_then(|v| v.parse::<u8>().ok()).unwrap_or(0);
    let wide = kind == 1;
    let mut rng = Rng(seed.wrapping_mul(0x1234_5678_9abc_def1) ^ 0x5eed);
    let mut g = Gen { out: String::new(), maps: vec![], sets: vec![], types: vec![] };

    // Unit enums, arrays.
    for (n, disc) in [(1, false), (2, false), (3, true), (5, false), (17, true), (40, false)] {
        let name = format!("U{n}");
        g.units(&name, n, false, disc);
        g.both(&name, Cap::Unit);
    }
    for n in [130, 260] {
        let name = format!("U{n}");
        g.units(&name, n, false, false);
        g.both(&name, Cap::Unit);
    }
    // Unit enums, bitsets: one per integer width and both sides of each threshold.
    for (n, disc) in [(1, false), (3, true), (8, false), (9, false), (16, true), (17, false), (32, false), (33, false), (64, true), (65, false), (128, false)] {
        let name = format!("B{n}");
        g.units(&name, n, true, disc);
        g.set(&name, Cap::UnitBitset);
    }
    g.map("B9", Cap::UnitBitset);
    // Bare keys.
    for t in ["bool", "()", "Option<bool>", "Option<()>", "Option<Option<bool>>", "Option<U3>"] {
        g.both(t, Cap::Fixed);
    }
    for t in ["u32", "Option<u8>", "&'static str", "u64"] {
        g.both(t, Cap::Dyn);
    }
    // Composites without dynamic keys.
    g.comp("C1", "", &[("A", ""), ("B", "bool"), ("C", "")]);
    g.both("C1", Cap::Fixed);
    g.comp("C2", "", &[("A", "U3"), ("B", "Option<U5>"), ("C", ""), ("D", "()"), ("E", "bool"), ("F", "")]);
    g.both("C2", Cap::Fixed);
    g.comp("C3", "", &[("A", "C1"), ("B", "C2"), ("C", "Option<C1>"), ("D", "")]);
    g.both("C3", Cap::Fixed);
    g.comp("C4", "#[key(crate = fixed_map)]", &[("A", "Option<Option<bool>>"), ("r#type", "B9"), ("C", "Option<()>"), ("D", "C1")]);
    g.both("C4", Cap::Fixed);
    g.comp("C5", "", &[("A", "bool")]);
    g.both("C5", Cap::Fixed);
    g.comp("C6", "", &[("A", ""), ("B", ""), ("C", ""), ("D", ""), ("E", "()"), ("F", ""), ("G", "bool"), ("H", ""), ("I", "U2"), ("J", ""), ("K", "bool"), ("L", "")]);
    g.both("C6", Cap::Fixed);
    g.comp("C7", "", &[("A", "C3"), ("B", "Option<C3>"), ("C", "C4"), ("D", "U17"), ("E", "Option<Option<U5>>"), ("F", "")]);
    g.both("C7", Cap::Fixed);
    g.comp("N1", "", &[("A", ""), ("B", "bool")]);
    // Many variants, with payloads at both ends, next to each other and around the borders of a byte and a word.
    let many: Vec<(String, Option<String>, Option<i64>)> = (0..70)
        .map(|i| {
            let p = match i {
                0 | 31 => Some("bool"),
                1 => Some("()"),
                7 => Some("Option<bool>"),
                8 | 33 => Some("U3"),
                15 => Some("B9"),
                16 => Some("Option<()>"),
                32 => Some("C1"),
                39 | 63 => Some("Option<U2>"),
                64 => Some("bool"),
                69 => Some("N1"),
                _ => None,
            };
            (format!("V{i}"), p.map(str::to_string), None)
        })
        .collect();
    g.enumeration("C8", "", &many);
    g.both("C8", Cap::Fixed);
    // The same part several times.
    g.comp("C9", "", &[("A", "bool"), ("B", "bool"), ("C", "C1"), ("D", "C1"), ("E", "Option<C1>"), ("F", "U3"), ("G", "U3")]);
    g.both("C9", Cap::Fixed);
    // Nested six deep.
    g.comp("N2", "", &[("A", "N1"), ("B", "")]);
    g.comp("N3", "", &[("A", ""), ("B", "Option<N2>")]);
    g.comp("N4", "", &[("A", "N3"), ("B", "N1")]);
    g.comp("N5", "", &[("A", "U2"), ("B", "Option<Option<N4>>"), ("C", "")]);
    g.both("N5", Cap::Fixed);
    for t in ["Option<C2>", "Option<B9>", "Option<Option<()>>"] {
        g.both(t, Cap::Fixed);
    }
    // More variants than a byte can count.
    let most: Vec<(String, Option<String>, Option<i64>)> = (0..262)
        .map(|i| {
            let p = match i {
                2 | 127 | 255 => Some("bool"),
                128 | 256 => Some("Option<()>"),
                261 => Some("N1"),
                _ => None,
            };
            (format!("V{i}"), p.map(str::to_string), None)
        })
        .collect();
    g.enumeration("C10", "", &most);
    g.both("C10", Cap::Fixed);
    // A part which has no values.
    g.units("U0", 0, false, false);
    g.comp("C0", "", &[("A", ""), ("B", "U0"), ("C", "Option<U0>"), ("D", "bool"), ("E", "U0")]);
    g.both("C0", Cap::Fixed);
    // Composites with dynamic keys.
    g.comp("D1", "", &[("A", "u8"), ("B", ""), ("C", "bool")]);
    g.both("D1", Cap::Dyn);
    g.comp("D2", "", &[("A", ""), ("B", "Option<u32>"), ("C", "&'static str"), ("D", "char"), ("E", "U2"), ("F", "")]);
    g.both("D2", Cap::Dyn);
    g.comp("D3", "", &[("A", "i8"), ("B", "i32"), ("C", "i64"), ("D", "i128"), ("F", "usize"), ("G", "U1"), ("H", "u128"), ("I", "&'static [u8]")]);
    g.both("D3", Cap::Dyn);
    g.comp("D4", "", &[("A", ""), ("X", "D1"), ("Y", "C1"), ("Z", "Option<D1>"), ("W", "")]);
    g.both("D4", Cap::Dyn);
    g.comp("D5", "", &[("A", ""), ("B", "u64"), ("C", "bool"), ("D", "u8")]);
    g.both("D5", Cap::Dyn);
    // Two hash tables side by side and one below another variant.
    g.comp("D6", "", &[("A", "u8"), ("B", "u8"), ("C", "Option<char>"), ("D", "()"), ("E", "D1")]);
    g.both("D6", Cap::Dyn);
    for t in ["Option<D1>", "Option<Option<u8>>"] {
        g.both(t, Cap::Dyn);
    }
    // More entries than sixteen bits can count.
    g.both("isize", Cap::Dyn);
    g.comp("H1", "", &[("A", ""), ("B", "isize"), ("C", "Option<bool>")]);
    g.both("H1", Cap::Dyn);
    // Other layouts of values.
    for v in ["Boxed", "Big", "Cop"] {
        for (t, c) in [("U5", Cap::Unit), ("bool", Cap::Fixed), ("()", Cap::Fixed), ("Option<U3>", Cap::Fixed), ("C2", Cap::Fixed), ("D1", Cap::Dyn), ("u32", Cap::Dyn)] {
            g.map_of(t, c, v);
        }
    }
    if wide {
        for n in [4, 7, 31, 63, 66, 127] {
            let name = format!("B{n}");
            g.units(&name, n, true, n % 2 == 0);
            g.set(&name, Cap::UnitBitset);
        }
        for n in [4, 8, 9, 16, 33, 64, 128, 300] {
            let name = format!("U{n}");
            g.units(&name, n, false, n == 9 || n == 33);
            g.both(&name, Cap::Unit);
        }
        g.both("Option<C3>", Cap::Fixed);
        g.both("Option<D4>", Cap::Dyn);
        g.both("char", Cap::Dyn);
        g.both("i128", Cap::Dyn);
    }
    for i in 0..(if wide { 14 } else { 3 }) {
        g.random(&format!("R{i}"), &mut rng);
    }

    if kind == 2 {
        // The release build: one of each kind.
        let few = ["U5", "U40", "B1", "B3", "B9", "B64", "B65", "bool", "()", "Option<bool>", "Option<U3>", "C0", "C2", "C3", "C8", "u32", "u64", "Option<u8>", "D1", "D2", "D4", "Option<D1>", "R0"];
        let keep = |s: &String| few.iter().any(|f| s.contains(&format!("_shape!({f}, ")));
        g.maps.retain(keep);
        g.sets.retain(keep);
    }

    let mut out = g.out;
    // Some keys also with values which take no space.
    let mut zero = String::new();
    for t in ["U1", "U5", "U130", "B9", "bool", "()", "Option<bool>", "Option<U3>", "C0", "C2", "C3", "C8", "N5", "u32", "Option<u8>", "D1", "D2", "D4", "Option<D1>"] {
        writeln!(zero, "if s.label == \"{}\" {{ s.zero = Some(crate::zero::history::<{t}>); }}", Gen::label(t)).unwrap();
    }
    writeln!(out, "pub fn map_shapes() -> Vec<MapShape> {{ let mut v = vec![\n{}\n]; for s in &mut v {{ {zero} }} v }}", g.maps.join(",\n")).unwrap();
    writeln!(out, "pub fn set_shapes() -> Vec<SetShape> {{ vec![\n{}\n] }}", g.sets.join(",\n")).unwrap();
    writeln!(out, "pub const BUILD_SEED: u64 = {seed};").unwrap();
    writeln!(out, "pub const WIDE: u8 = {kind};").unwrap();
    let dir = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{dir}/shapes.rs"), out).unwrap();
}
