//! Draws one plan from (seed, property, run index). Everything random happens here.

use crate::ctx::{Site, NSITES};
use crate::erased::*;
use crate::exec::NSLOT;
use crate::plan::*;
use crate::rng::{mix, Rng};

/// How a property spends its runs.
struct Prof {
    /// Chance of a map, out of 8.
    maps: usize,
    /// (operation, weight) on top of the common mix.
    main: &'static [(Code, u32)],
    /// Weight of the common mix, out of 100.
    common: u32,
    /// Fault rates (per 16 operations) a run draws from.
    rates: &'static [usize],
    kinds: Kinds,
    multi: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum Kinds {
    All,
    Panic,
    Alloc,
    Report,
}

const COMMON: &[(Code, u32)] = &[
    (Code::Insert, 80),
    (Code::Remove, 40),
    (Code::Get, 8),
    (Code::GetMut, 14),
    (Code::Len, 6),
    (Code::Clear, 8),
    (Code::Retain, 12),
    (Code::Entry, 24),
    (Code::Iter, 10),
    (Code::IterMut, 10),
    (Code::IntoIter, 7),
    (Code::Pair, 2),
    (Code::Clone, 8),
    (Code::CloneFrom, 8),
    (Code::Cmp, 5),
    (Code::Ord, 3),
    (Code::Pick, 1),
    (Code::Move, 2),
    (Code::Zero, 3),
    (Code::Hash, 2),
    (Code::Debug, 4),
    (Code::Collect, 8),
    (Code::Inter, 5),
    (Code::InterDebug, 2),
    (Code::SerRec, 2),
    (Code::Save, 5),
    (Code::Load, 6),
    (Code::ScriptDe, 4),
    (Code::Raw, 3),
    (Code::FromRaw, 3),
    (Code::Crash, 3),
    (Code::Rot, 1),
    (Code::New, 2),
    (Code::Refill, 4),
    (Code::Bulk, 5),
];

fn profile(prop: &str) -> Prof {
    use Code::*;
    let p = |maps, main, common, rates, kinds| Prof { maps, main, common, rates, kinds, multi: false };
    const MIX: &[usize] = &[0, 0, 1, 3];
    const HOT: &[usize] = &[2, 4, 8];
    match prop {
        "C01" => p(8, &[(Bulk, 4), (Insert, 30), (Remove, 20), (Get, 5), (GetMut, 10), (Len, 4), (Clear, 4)], 60, MIX, Kinds::All),
        "C02" => p(0, &[(Bulk, 4), (Insert, 30), (Remove, 25), (Get, 5), (Len, 4), (Clear, 4)], 60, MIX, Kinds::All),
        "C03" => p(8, &[(Entry, 100)], 60, &[0, 2, 5], Kinds::All),
        "C04" => p(4, &[(Iter, 40), (IterMut, 30), (IntoIter, 30), (Pair, 10)], 50, &[0, 0, 2], Kinds::All),
        "C05" => p(4, &[(Iter, 25), (IterMut, 20), (IntoIter, 20), (Clone, 10), (CloneFrom, 10), (Collect, 10), (Load, 10), (Save, 10), (Crash, 5), (Inter, 10)], 60, MIX, Kinds::All),
        "C06" => p(
            8,
            &[(Insert, 20), (Remove, 15), (Clear, 10), (Retain, 12), (Entry, 20), (IntoIter, 20), (Clone, 12), (CloneFrom, 12), (Collect, 12), (ScriptDe, 12)],
            40,
            &[0, 2, 4],
            Kinds::All,
        ),
        "C07" => p(
            5,
            &[
                (Clear, 8), (Retain, 20), (Entry, 20), (Iter, 6), (IterMut, 6), (IntoIter, 8), (Clone, 10), (CloneFrom, 20), (Cmp, 6), (Ord, 6), (Hash, 4),
                (Debug, 6), (Collect, 10), (Inter, 4), (SerRec, 4), (Save, 6), (Load, 6), (ScriptDe, 8),
            ],
            60,
            HOT,
            Kinds::Panic,
        ),
        "C08" => p(5, &[(Clone, 60), (CloneFrom, 60), (Iter, 10), (IntoIter, 12)], 70, &[0, 3, 6], Kinds::Panic),
        "C09" => p(4, &[(Cmp, 50), (Ord, 60), (Hash, 25), (Pick, 12)], 70, &[0, 1, 4], Kinds::Panic),
        "C10" => p(4, &[(Save, 40), (Load, 50), (SerRec, 20), (ScriptDe, 15), (Crash, 12)], 80, MIX, Kinds::All),
        "C11" => p(5, &[(Save, 40), (Load, 50), (SerRec, 25), (ScriptDe, 40), (Rot, 20), (Crash, 5)], 50, &[4, 8, 12], Kinds::Report),
        "C12" => p(0, &[(Raw, 40), (FromRaw, 50), (Save, 15), (Load, 20), (Crash, 5), (Rot, 6), (Inter, 10), (Cmp, 15), (Ord, 10)], 70, &[0, 0, 2], Kinds::All),
        "C13" => p(4, &[(Insert, 60), (Bulk, 20), (Entry, 25), (Refill, 30), (Clone, 12), (CloneFrom, 12), (Collect, 10), (ScriptDe, 6), (Clear, 6), (Retain, 8)], 50, HOT, Kinds::Alloc),
        "C14" => p(0, &[(Inter, 80), (InterDebug, 6)], 80, &[0, 0, 2], Kinds::All),
        "C15" => p(4, &[(Collect, 100)], 60, &[0, 2, 5], Kinds::All),
        "C16" => Prof {
            maps: 4,
            main: &[(Iter, 20), (Pair, 20), (Clone, 10), (Cmp, 14), (Ord, 12), (Hash, 6), (Debug, 14), (Inter, 12), (InterDebug, 6), (SerRec, 12), (Save, 8), (Get, 10), (Len, 6), (Pause, 6)],
            common: 0,
            rates: &[0, 0, 1, 3],
            kinds: Kinds::All,
            multi: true,
        },
        "C17" => p(4, &[(Retain, 90)], 70, &[0, 0, 3], Kinds::All),
        "C18" => p(4, &[(Debug, 70), (InterDebug, 25)], 60, &[0, 3, 6], Kinds::Report),
        _ => p(4, &[], 100, MIX, Kinds::All),
    }
}

struct G<'a> {
    r: Rng,
    sh: &'a Shape,
    prop: u32,
    prof: Prof,
    weights: Vec<u32>,
    /// Keys this run cares about.
    pool: Vec<u32>,
    /// What is probably present.
    live: Vec<Vec<bool>>,
    slots: usize,
    rate: usize,
    kinds: Kinds,
    sites: u32,
    multi: bool,
    serial: i32,
    pays: usize,
    iter_style: usize,
    nest: bool,
    /// Some operations meet operations on other containers.
    aside: bool,
}

/// Is this an operation the property is about?
pub fn is_main(prop: &str, c: Code) -> bool {
    profile(prop).main.iter().any(|m| m.0 == c)
}

pub fn prop_num(p: &str) -> u32 {
    p[1..].parse().unwrap_or(0)
}

/// Universes above this are worth a few runs only.
const HUGE: usize = 60_000;

pub fn plan(prop: &str, seed: u64, index: u64, build_seed: u64, wide: u8, maps: &[Shape], sets: &[Shape]) -> Plan {
    let mut r = Rng(mix(seed.wrapping_mul(0x5851_f42d_4c95_7f2d) ^ mix(prop_num(prop) as u64 ^ index << 8)));
    let prof = profile(prop);
    let is_map = r.below(8) < prof.maps;
    let all = if is_map { maps } else { sets };
    // Small keys are quick to explore in depth, and the storages of the library itself are mostly small.
    let small = r.chance(1, 4);
    let mut tries = 0;
    let sh = loop {
        let s = r.pick(all);
        tries += 1;
        if small && tries < 1000 && s.size > 6 && !(s.dynamic && s.size < 60 && !s.label.starts_with(|c: char| "CDNR".contains(c))) {
            continue;
        }
        // Big universes are slow; they get fewer runs.
        if s.size > 60 && !r.chance(1, if s.size > 1000 { 6 } else { 3 }) {
            continue;
        }
        if s.size > HUGE && (prof.multi || !r.chance(1, 60)) {
            continue;
        }
        let ok = match prop {
            "C12" => s.from_raw.is_some(),
            "C10" | "C11" => s.serde.is_some() && !(s.size == 1 && r.chance(1, 2)),
            "C09" => s.has_ord || r.chance(1, 3),
            "C13" => s.dynamic || r.chance(2, 5),
            _ => true,
        };
        if ok {
            break s;
        }
    };
    let n = sh.size;
    // Key pool.
    let want = match r.below(8) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => 5,
        4 => 9,
        _ => n,
    };
    let mut pool: Vec<u32> = (0..n as u32).collect();
    for i in (1..n).rev() {
        pool.swap(i, r.below(i + 1));
    }
    if r.chance(1, 4) {
        // Keep the borders of the universe in play.
        for b in [0, n as u32 - 1, n as u32 / 2] {
            let at = pool.iter().position(|x| *x == b).unwrap();
            pool.swap(at, (b as usize) % want.min(n));
        }
    }
    pool.truncate(want.max(1));
    let mut weights = vec![0u32; NCODES];
    let total: u32 = COMMON.iter().map(|x| x.1).sum();
    for (c, w) in COMMON {
        weights[*c as usize] += w * prof.common * 10 / total.max(1);
    }
    for (c, w) in prof.main {
        weights[*c as usize] += w * 10;
    }
    // Swarm: each run knows only part of the operations; the base mutators mostly stay.
    let keep_all = r.chance(1, 4);
    for (i, w) in weights.iter_mut().enumerate() {
        let main = prof.main.iter().any(|m| m.0 as usize == i);
        let base = i == Code::Insert as usize || i == Code::Remove as usize;
        let keep = keep_all || (base && r.chance(7, 8)) || r.chance(if main { 3 } else { 2 }, 4);
        if !keep {
            *w = 0;
        }
    }
    if sh.serde.is_none() {
        for c in [Code::Save, Code::Load, Code::SerRec, Code::ScriptDe] {
            weights[c as usize] = 0;
        }
    }
    if sh.from_raw.is_none() {
        for c in [Code::Raw, Code::FromRaw] {
            weights[c as usize] = 0;
        }
    }
    if is_map {
        weights[Code::Inter as usize] = 0;
        weights[Code::InterDebug as usize] = 0;
    } else {
        for c in [Code::GetMut, Code::Entry, Code::IterMut] {
            weights[c as usize] = 0;
        }
    }
    if !sh.has_ord {
        weights[Code::Ord as usize] = 0;
        weights[Code::Pick as usize] = 0;
        weights[Code::Hash as usize] = 0;
    }
    if sh.zero.is_none() {
        weights[Code::Zero as usize] = 0;
    }
    if weights.iter().all(|w| *w == 0) {
        weights[Code::Insert as usize] = 1;
        weights[prof.main.first().map_or(Code::Remove, |m| m.0) as usize] = 1;
    }
    let rate = *r.pick(prof.rates);
    let multi = prof.multi;
    let kinds = if prof.kinds == Kinds::All {
        [Kinds::All, Kinds::All, Kinds::Panic, Kinds::Alloc][r.below(4)]
    } else {
        prof.kinds
    };
    let sites = (r.next() | r.next()) as u32;
    let slots = if r.chance(1, 3) { 1 } else { r.range(1, NSLOT) };
    let hash_seed = r.next() >> 11;
    let mut g = G {
        prop: prop_num(prop),
        sh,
        prof,
        weights,
        pool,
        live: vec![vec![false; n]; NSLOT],
        slots,
        rate,
        kinds,
        sites,
        multi,
        serial: 1,
        pays: r.below(4),
        iter_style: r.below(8),
        nest: prop == "C16" && r.chance(2, 3),
        aside: n <= 64 && r.chance(1, 5),
        r,
    };
    let mut setup = vec![];
    for s in 0..g.slots as u8 {
        g.prefill(s, &mut setup);
    }
    let mut clients = vec![];
    let mut choices = vec![];
    let mut gaps = vec![];
    let mut mask = 0;
    if multi {
        // A crowd: many clients in the same operation at the same time.
        let crowd = g.r.chance(1, 5);
        let nc = if crowd { g.r.range(3, 6) } else { g.r.range(1, 4) };
        let theme = loop {
            let c = prof_main(prop, &mut g.r);
            if g.weights[c as usize] > 0 || g.r.chance(1, 20) {
                break c;
            }
        };
        let writers = !crowd && g.r.chance(1, 4);
        for i in 0..nc {
            if crowd && g.weights[theme as usize] > 0 {
                let mut ops = vec![];
                for _ in 0..g.r.range(1, 3) {
                    let mut o = g.op(theme);
                    if g.r.below(24) < g.rate {
                        g.fault(&mut o);
                    }
                    ops.push(o);
                }
                clients.push(ops);
                continue;
            }
            let mut ops = vec![];
            let steps = g.r.range(1, 5);
            for _ in 0..steps {
                if writers && g.r.chance(1, if i == 0 { 2 } else { 6 }) {
                    let c = *g.r.pick(&[Code::Insert, Code::Remove, Code::GetMut, Code::Clear, Code::Retain]);
                    if c != Code::GetMut || is_map {
                        let o = g.op(c);
                        ops.push(o);
                        continue;
                    }
                }
                g.step(&mut ops);
            }
            clients.push(ops);
        }
        if nc > 1 {
            let len = g.r.range(20, 160);
            let stay = g.r.range(0, 6);
            for _ in 0..len {
                let c = if g.r.below(8) < stay { 0 } else { 1 + g.r.below(nc) as u8 };
                choices.push(c);
            }
            mask = (g.r.next() | g.r.next() | if crowd { g.r.next() } else { 0 }) as u32 & ((1 << NSITES) - 1);
            // Preemption between memory accesses, at one grain per run.
            if g.r.chance(1, 2) {
                mask |= 1 << Site::Memory as u32 | 1 << Site::Atomic as u32;
                let grain = 8usize << (2 * g.r.below(4));
                for _ in 0..g.r.range(4, 60) {
                    gaps.push(g.r.range(1, grain) as u32);
                }
            }
        }
    } else {
        let steps = match g.r.below(8) {
            _ if n > HUGE => g.r.range(1, 5),
            0..=3 => g.r.range(1, 8),
            4..=6 => g.r.range(6, 20),
            // A long life now and then.
            _ if n <= 40 && g.r.chance(1, 40) => g.r.range(270, 600),
            _ => g.r.range(16, 48),
        };
        let mut ops = vec![];
        while ops.len() < steps {
            if n <= HUGE && g.r.chance(1, 6) {
                g.motif(&mut ops);
            } else {
                g.step(&mut ops);
            }
        }
        clients.push(ops);
    }
    Plan {
        prop: prop.into(),
        seed,
        index,
        build_seed,
        wide,
        is_map,
        shape: sh.label.into(),
        hash_seed,
        setup,
        clients,
        choices,
        mask,
        gaps,
        quiet: false,
    }
}

fn prof_main(prop: &str, r: &mut Rng) -> Code {
    r.pick(profile(prop).main).0
}

impl G<'_> {
    fn slot(&mut self) -> u8 {
        self.r.below(self.slots) as u8
    }
    fn key(&mut self) -> u32 {
        if self.r.chance(1, 12) {
            self.r.below(self.sh.size) as u32
        } else {
            *self.r.pick(&self.pool)
        }
    }
    /// Mostly distinct payloads; sometimes few, so that values collide.
    fn pay(&mut self) -> i32 {
        self.serial += 1;
        match self.pays {
            0 => self.r.below(3) as i32,
            1 if self.prop == 9 && self.r.chance(1, 5) => crate::ctx::NAN,
            1 => self.r.below(40) as i32 - 20,
            2 if self.r.chance(1, 4) => *self.r.pick(&[0, 1, -1, 7, i32::MAX, i32::MIN + 1, 100_000]),
            _ => self.serial * 16,
        }
    }
    fn count(&self, s: u8) -> usize {
        self.live[s as usize].iter().filter(|x| **x).count()
    }

    fn prefill(&mut self, s: u8, out: &mut Vec<Op>) {
        let n = self.sh.size;
        if n > HUGE && (s > 0 || self.r.chance(1, 8)) {
            return;
        }
        if n > HUGE || self.r.chance(1, if n > 1000 { 2 } else { 24 }) {
            let mut o = self.op(Code::Bulk);
            o.s = s;
            o.how &= !0xf;
            if n > HUGE {
                // Around the sixteen bits, or everything.
                o.how = 1 << 4;
                o.c = (if self.r.chance(1, 2) { n } else { 65_534 + self.r.below(4) }) as u32;
            }
            for j in 0..o.c as usize {
                self.live[s as usize][(o.k as usize + j * (o.how >> 4) as usize) % n] = true;
            }
            out.push(o);
            return;
        }
        let keys: Vec<u32> = match self.r.below(8) {
            0 => vec![],
            1 | 2 => (0..n as u32).filter(|_| self.r.chance(1, 2)).collect(),
            3 => (0..n as u32).collect(),
            4 => {
                let hole = self.r.below(n) as u32;
                (0..n as u32).filter(|k| *k != hole).collect()
            }
            5 => vec![self.r.below(n) as u32],
            _ => self.pool.clone().into_iter().filter(|_| self.r.chance(2, 3)).collect(),
        };
        if keys.is_empty() {
            return;
        }
        // The same contents are reached in several ways.
        match self.r.below(4) {
            0 | 1 if keys.len() <= 24 => {
                for k in keys {
                    let mut o = Op::new(Code::Insert);
                    o.s = s;
                    o.k = k;
                    o.v = self.pay();
                    self.live[s as usize][k as usize] = true;
                    out.push(o);
                }
            }
            2 if self.sh.from_raw.is_some() => {
                let mut o = Op::new(Code::FromRaw);
                o.t = s;
                for k in &keys {
                    o.bits |= 1 << k;
                    self.live[s as usize][*k as usize] = true;
                }
                out.push(o);
            }
            _ => {
                let mut o = Op::new(Code::Collect);
                o.t = s;
                o.v = self.pay();
                for k in &keys {
                    self.live[s as usize][*k as usize] = true;
                }
                o.list = keys;
                out.push(o);
            }
        }
    }

    fn step(&mut self, out: &mut Vec<Op>) {
        let c = CODES[self.r.weighted(&self.weights)];
        let mut o = self.op(c);
        if self.r.below(16) < self.rate {
            self.fault(&mut o);
        }
        if self.nest && crate::exec::reads_only(&o) && !matches!(o.fault.kind, FK::Alloc | FK::Outage) && self.r.chance(1, 3) {
            let sites: &[Site] = match o.code {
                Code::Iter | Code::Pair | Code::Inter => &[Site::Step, Site::Closure],
                Code::Clone => &[Site::Clone],
                Code::Cmp => &[Site::Eq],
                Code::Ord => &[Site::Cmp],
                Code::Hash => &[Site::Hash],
                Code::Debug => &[Site::Debug],
                Code::SerRec | Code::Save => &[Site::Ser, Site::KeySer],
                _ => &[],
            };
            if !sites.is_empty() {
                let s = *self.r.pick(sites);
                o.nest = Some((s as u8, self.nth(o.s)));
            }
        }
        if self.aside && o.nest.is_none() && self.r.chance(1, 3) {
            let sites: Vec<Site> = user_sites(o.code).iter().copied().filter(|s| self.site_on(*s)).collect();
            if !sites.is_empty() {
                let s = *self.r.pick(&sites);
                o.nest = Some((s as u8 | ELSEWHERE, self.nth(o.s)));
            }
        }
        out.push(o);
    }

    fn nth(&mut self, s: u8) -> u32 {
        let n = self.count(s);
        if self.r.chance(1, 3) {
            1 + self.r.below(3) as u32
        } else {
            1 + self.r.below(n + 1) as u32
        }
    }

    fn mv(&mut self, terminal: bool) -> u32 {
        let arg = match self.r.below(6) {
            0..=2 => self.r.below(3),
            3 => self.r.below(self.sh.size + 2).min(255),
            4 => self.r.below(9),
            _ => *self.r.pick(&[16, 33, 64, 255]),
        } as u32;
        let kind = if terminal {
            *self.r.pick(&[7, 8, 9, 10, 14, 15, 15])
        } else {
            *self.r.pick(&[0, 0, 0, 1, 1, 1, 2, 3, 2, 3, 4, 5, 6, 12, 13])
        };
        let way = if matches!(kind, 8 | 9 | 12) { self.r.below(4) as u32 } else { 0 };
        kind | arg << 4 | way << 12
    }

    fn moves(&mut self, len: usize, forget: bool) -> Vec<u32> {
        let mut v = vec![];
        let steps = match self.r.below(5) {
            0 => 0,
            1 => self.r.below(3),
            2 => self.r.below(len + 1),
            3 => len + self.r.below(3),
            _ => self.r.below(2 * len + 3),
        };
        let style = if self.r.chance(1, 2) { self.iter_style } else { self.r.below(8) };
        for i in 0..steps.min(48) {
            let m = match style {
                0 => 0,
                1 => 1,
                2 => (i & 1) as u32,
                3 => self.r.below(2) as u32,
                4 => [0, 1, 5, 6][self.r.below(4)] | (self.r.below(4) as u32) << 4,
                5 => [2, 3, 0, 1][self.r.below(4)] | (self.r.below(3) as u32) << 4,
                _ => self.mv(false),
            };
            v.push(m);
        }
        if self.r.chance(3, 4) {
            let m = self.mv(true);
            v.push(m);
        } else if forget && self.r.chance(1, 2) {
            v.push(11);
        }
        v
    }

    fn list(&mut self, max: usize) -> Vec<u32> {
        let n = *self.r.pick(&[0, 1, 1, 3, 3, 4, 4, 7, 7, 2, 5, 12, 20, 40]);
        let n = n.min(max);
        (0..n).map(|_| self.key()).collect()
    }

    /// An operation with random arguments; updates the guess of what is present.
    fn op(&mut self, c: Code) -> Op {
        let mut o = Op::new(c);
        o.s = self.slot();
        o.t = if self.r.chance(3, 4) { self.slot() } else { o.s };
        o.k = self.key();
        o.v = self.pay();
        o.how = (self.r.next() >> 40) as u32;
        o.c = *self.r.pick(&[0, 0, 1, 3, 7]);
        let (s, t) = (o.s as usize, o.t as usize);
        match c {
            Code::Insert => self.live[s][o.k as usize] = true,
            Code::Remove => {
                // Present keys are more interesting to remove.
                if self.r.chance(1, 2) {
                    let l: Vec<u32> = (0..self.sh.size as u32).filter(|k| self.live[s][*k as usize]).collect();
                    if !l.is_empty() {
                        o.k = *self.r.pick(&l);
                    }
                }
                self.live[s][o.k as usize] = false;
            }
            Code::Clear => self.live[s].fill(false),
            Code::Retain => {
                o.bits = (self.r.next() >> 8) as u128;
                o.how = *self.r.pick(&[0, 1, 2, 2, 3, 4]) | (self.r.below(2) as u32) << 3;
                let th = o.how & 7;
                for k in 0..self.sh.size {
                    if mix(o.bits as u64 ^ k as u64) % 4 < th as u64 {
                        self.live[s][k] = false;
                    }
                }
            }
            Code::Entry => {
                o.how = self.r.below(HOWS.len()) as u32;
                if !matches!(o.how, 5 | 7 | 8 | 11 | 13 | 14 | 15 | 16) {
                    self.live[s][o.k as usize] = true;
                }
            }
            Code::Iter | Code::IterMut => {
                let n = self.count(o.s);
                let forget = self.r.chance(1, 8) && !self.multi;
                o.moves = self.moves(n, forget);
                o.how &= 3;
            }
            Code::Inter => {
                let n = (0..self.sh.size).filter(|k| self.live[s][*k] && self.live[t][*k]).count();
                o.moves = self.moves(n, false);
                o.how = 0;
            }
            Code::IntoIter => {
                let n = self.count(o.s);
                let forget = self.r.chance(1, 6) && !self.multi;
                o.moves = self.moves(n, forget);
                o.how = 0;
                self.live[s].fill(false);
            }
            Code::Pair => {
                let n = self.count(o.s) + self.count(o.t);
                let len = self.r.below(n + 3).min(40);
                o.moves = (0..len).map(|_| (self.r.next() >> 32) as u32 & 0x8000_0001).collect();
                o.how &= 0x33;
            }
            Code::Clone | Code::CloneFrom => {
                o.how = 0;
                if self.multi {
                    o.t = o.s;
                } else if c == Code::CloneFrom && o.s == o.t {
                    o.t = (o.s + 1) % NSLOT as u8;
                }
                let t = o.t as usize;
                self.live[t] = self.live[s].clone();
            }
            Code::Zero => {}
            Code::Cmp => o.how &= 0x341,
            Code::Hash => o.how &= 0x340,
            Code::Ord => {
                o.how &= 0x347;
            }
            Code::Pick => {
                o.how %= 3;
                if s == t {
                    o.t = (o.s + 1) % NSLOT as u8;
                }
                let (t, third) = (o.t as usize, 3 - o.s as usize - o.t as usize);
                self.live[t].fill(false);
                if o.how == 2 {
                    self.live[third].fill(false);
                }
            }
            Code::Move => {
                o.how &= 3;
                if s != t && o.how & 1 == 0 {
                    self.live.swap(s, t);
                }
            }
            Code::Debug | Code::InterDebug => o.how = if o.how & 8 != 0 { o.how & 1 } else { o.how & 7 },
            Code::Collect => {
                let most = if self.r.chance(1, 3) { self.sh.size } else { 60 };
                o.list = if self.r.chance(1, 4) { (0..self.sh.size.min(most) as u32).collect() } else { self.list(60) };
                if self.r.chance(1, 3) && !o.list.is_empty() {
                    // Repeat keys, near and far.
                    for _ in 0..self.r.range(1, 3) {
                        let k = *self.r.pick(&o.list.clone());
                        let at = self.r.below(o.list.len() + 1);
                        o.list.insert(at, k);
                    }
                }
                o.how &= 0x17;
                if self.r.chance(1, 4) {
                    // The source goes on after its end.
                    o.how = o.how & 7 | 32;
                    o.k = self.r.below(self.sh.size) as u32;
                }
                self.live[t].fill(false);
                for k in &o.list {
                    self.live[t][*k as usize % self.sh.size] = true;
                }
            }
            Code::Save => {
                o.t = self.r.below(3) as u8;
                o.how &= 0xf;
                if self.r.chance(2, 3) || self.prop == 10 {
                    o.how &= !2;
                }
            }
            Code::Load => {
                o.s = self.r.below(3) as u8;
                o.t = self.slot();
                o.how = 0;
            }
            Code::Rot => {
                o.t = self.r.below(3) as u8;
                o.k = if self.r.chance(1, 2) { self.r.below(24) as u32 } else { self.r.below(600) as u32 };
                o.v = self.r.below(256) as i32;
                o.how %= 3;
            }
            Code::ScriptDe => {
                o.list = if self.sh.size > 1000 && self.r.chance(1, 3) { (0..self.r.below(self.sh.size) as u32).collect() } else { self.list(40) };
                if self.r.chance(1, 3) && !o.list.is_empty() {
                    let k = *self.r.pick(&o.list.clone());
                    o.list.push(k);
                }
                if self.prop == 11 && self.r.chance(1, 6) {
                    let at = self.r.below(o.list.len() + 1);
                    o.list.insert(at, 9999);
                }
                o.how = if self.prop == 11 && self.r.chance(1, 6) { self.r.below(4) as u32 } else { 0 };
                o.c = self.r.below(8) as u32;
            }
            Code::FromRaw => {
                let n = self.sh.raw_bits;
                let full = if n >= 128 { u128::MAX } else { (1u128 << n) - 1 };
                let any = (self.r.next() as u128) << 64 | self.r.next() as u128;
                o.bits = full
                    & match self.r.below(7) {
                        0 => 0,
                        1 => u128::MAX,
                        2 => any,
                        3 => any & (self.r.next() as u128 | (self.r.next() as u128) << 64),
                        4 => 1u128 << self.r.below(n.max(1) as usize),
                        5 => (1u128 << (self.sh.size as u32 - 1)) | (1u128 << (self.sh.size.min(127)) as u32),
                        _ => {
                            let mut b = 0;
                            for k in self.pool.iter() {
                                b |= 1u128 << k;
                            }
                            b
                        }
                    };
                for k in 0..self.sh.size {
                    self.live[t][k] = o.bits >> k & 1 == 1;
                }
            }
            Code::Raw => {
                o.how = 0;
                self.live[t] = self.live[s].clone();
            }
            Code::Crash => {
                o.how &= 1;
                o.v = self.r.below(1 << 20) as i32;
                for l in &mut self.live {
                    l.fill(false);
                }
            }
            Code::New => {
                o.how &= 1;
                self.live[t].fill(false);
            }
            Code::Refill => o.how &= 1,
            Code::Bulk => {
                let n = self.sh.size;
                let stride = *self.r.pick(&[1, 1, 1, 2, 7]);
                let kind = *self.r.pick(&[0, 0, 0, 1, 1, 2, 3]);
                let c = match self.r.below(6) {
                    0 => n,
                    1 => n / 2 + 1,
                    2 => n + self.r.below(n),
                    3 => self.r.below(40),
                    _ => 1 + self.r.below(n),
                };
                let c = if self.r.chance(1, 4) { 2 * c } else { c };
                o.c = c.min(n.max(9000)) as u32;
                o.how = kind | stride << 4;
                if kind != 3 {
                    for j in 0..o.c as usize {
                        self.live[s][(o.k as usize + j * stride as usize) % n] = kind == 0;
                    }
                }
            }
            Code::Get | Code::GetMut | Code::Len | Code::SerRec | Code::Pause => {}
        }
        if !matches!(
            c,
            Code::Iter
                | Code::IterMut
                | Code::Pair
                | Code::Entry
                | Code::Retain
                | Code::Cmp
                | Code::Ord
                | Code::Pick
                | Code::Move
                | Code::Hash
                | Code::Debug
                | Code::InterDebug
                | Code::Collect
                | Code::Save
                | Code::ScriptDe
                | Code::Rot
                | Code::Crash
                | Code::New
                | Code::Refill
                | Code::Bulk
        ) {
            o.how = 0;
        }
        if !matches!(c, Code::Save | Code::Load | Code::ScriptDe | Code::Bulk) {
            o.c = 0;
        }
        o
    }

    fn site_on(&self, s: Site) -> bool {
        self.sites & (1 << s as u32) != 0
    }

    /// Place a fault inside the operation, if this kind of operation can meet one.
    fn fault(&mut self, o: &mut Op) {
        use FK::*;
        let live = self.count(o.s);
        let n = if o.code == Code::Collect || o.code == Code::ScriptDe { o.list.len() } else { live };
        let nth = |r: &mut Rng| if r.chance(1, 3) { 1 + r.below(2) as u32 } else { 1 + r.below(n + 1) as u32 };
        let kinds = if self.kinds == Kinds::All { [Kinds::Panic, Kinds::Panic, Kinds::Alloc, Kinds::Report][self.r.below(4)] } else { self.kinds };
        if kinds == Kinds::Alloc || (kinds == Kinds::Panic && self.prop != 7 && self.r.chance(1, 8)) {
            let ok = matches!(
                o.code,
                Code::Insert
                    | Code::Remove
                    | Code::Get
                    | Code::GetMut
                    | Code::Len
                    | Code::Clear
                    | Code::Retain
                    | Code::Entry
                    | Code::Iter
                    | Code::IterMut
                    | Code::IntoIter
                    | Code::Pair
                    | Code::Clone
                    | Code::CloneFrom
                    | Code::Cmp
                    | Code::Ord
                    | Code::Pick
                    | Code::Hash
                    | Code::Debug
                    | Code::Collect
                    | Code::Inter
                    | Code::InterDebug
                    | Code::Raw
                    | Code::FromRaw
                    | Code::New
                    | Code::Bulk
            ) || (o.code == Code::ScriptDe && o.how & 3 == 0 && !o.list.contains(&9999));
            if ok {
                o.fault = if self.r.chance(1, 3) { Fault { kind: Outage, a: 0, b: 0 } } else { Fault { kind: Alloc, a: 1 + self.r.below(if o.code == Code::Bulk { 12 } else { 3 }) as u32, b: 0 } };
                return;
            }
        }
        let report = kinds == Kinds::Report || (kinds == Kinds::Alloc && self.prop != 13);
        if report {
            match o.code {
                Code::SerRec => {
                    o.fault = if self.r.chance(1, 3) {
                        Fault { kind: Err, a: *self.r.pick(&[Site::Ser, Site::KeySer]) as u32, b: nth(&mut self.r) }
                    } else {
                        Fault { kind: Wire, a: 1 + self.r.below(2 * n + 3) as u32, b: 0 }
                    };
                    return;
                }
                Code::Debug | Code::InterDebug => {
                    o.fault = if self.r.chance(1, 3) && o.code == Code::Debug {
                        Fault { kind: Err, a: Site::Debug as u32, b: nth(&mut self.r) }
                    } else {
                        Fault { kind: Wire, a: 1 + self.r.below(4 * n + 6) as u32, b: 0 }
                    };
                    return;
                }
                Code::ScriptDe => {
                    o.fault = if self.r.chance(1, 2) {
                        Fault { kind: Err, a: *self.r.pick(&[Site::De, Site::KeyDe]) as u32, b: nth(&mut self.r) }
                    } else {
                        Fault { kind: Wire, a: 1 + self.r.below(2 * n + 3) as u32, b: 0 }
                    };
                    return;
                }
                Code::Save | Code::Load => {
                    o.fault = if self.r.chance(1, 5) {
                        let sites = if o.code == Code::Save { [Site::Ser, Site::KeySer] } else { [Site::De, Site::KeyDe] };
                        Fault { kind: Err, a: *self.r.pick(&sites) as u32, b: nth(&mut self.r) }
                    } else {
                        let kind = *self.r.pick(&[IoErr, IoErr, IoFull, IoFull, IoIntr, IoCrash]);
                        let kind = if kind == IoCrash && self.multi { IoErr } else { kind };
                        let at = match self.r.below(4) {
                            0 => self.r.below(10),
                            1 => *self.r.pick(&[0, 1, 7, 8, 9]),
                            _ => self.r.below(10 + 12 * live.max(2)),
                        };
                        Fault { kind, a: at as u32, b: 0 }
                    };
                    return;
                }
                _ => {}
            }
        }
        // User code panics.
        let drop = !self.multi;
        let sites = user_sites(o.code);
        let sites: Vec<Site> = sites.iter().copied().filter(|s| self.site_on(*s) && (drop || *s != Site::Drop)).collect();
        if sites.is_empty() {
            return;
        }
        let s = *self.r.pick(&sites);
        if s == Site::Default {
            // Only a vacant key asks for a default.
            o.how = *self.r.pick(&[3, 17]);
            let l: Vec<u32> = (0..self.sh.size as u32).filter(|k| !self.live[o.s as usize][*k as usize]).collect();
            if !l.is_empty() {
                o.k = *self.r.pick(&l);
            }
        }
        o.fault = Fault { kind: Panic, a: s as u32, b: if s == Site::Default { 1 } else { nth(&mut self.r) } };
    }

    fn motif(&mut self, out: &mut Vec<Op>) {
        let main = |g: &Self, c: Code| g.prof.main.iter().any(|m| m.0 == c);
        let pick = self.r.below(6);
        match pick {
            // Snapshot, go on, crash, restart.
            0 | 1 if self.sh.serde.is_some() || self.sh.from_raw.is_some() => {
                let mut save = self.op(Code::Save);
                let f = save.t;
                save.how &= !2;
                if self.sh.serde.is_none() || (self.sh.from_raw.is_some() && self.r.chance(1, 3)) {
                    save.how |= 4;
                } else {
                    save.how &= !4;
                }
                out.push(save);
                for _ in 0..self.r.below(3) {
                    self.step(out);
                }
                if self.r.chance(1, 4) {
                    // A second save to the same file that may not complete.
                    let mut again = self.op(Code::Save);
                    again.t = f;
                    again.how &= !4;
                    if self.rate > 0 {
                        self.fault(&mut again);
                    }
                    out.push(again);
                }
                if self.r.chance(2, 3) {
                    let c = self.op(Code::Crash);
                    out.push(c);
                }
                let mut load = self.op(Code::Load);
                load.s = f;
                if self.r.below(16) < self.rate / 2 {
                    self.fault(&mut load);
                }
                let t = load.t;
                out.push(load);
                let mut cmp = self.op(Code::Cmp);
                cmp.s = t;
                cmp.how = 0x40;
                out.push(cmp);
            }
            // Copy, then let the two drift apart.
            2 if self.slots > 1 || main(self, Code::Clone) => {
                let code = if self.r.chance(1, 2) { Code::Clone } else { Code::CloneFrom };
                let mut c = self.op(code);
                if c.s == c.t {
                    c.t = (c.s + 1) % NSLOT as u8;
                }
                let (a, b) = (c.s, c.t);
                if self.r.below(16) < self.rate {
                    self.fault(&mut c);
                }
                out.push(c);
                for _ in 0..self.r.range(1, 3) {
                    let code = *self.r.pick(&[Code::Insert, Code::Remove, Code::GetMut, Code::Clear, Code::Retain]);
                    if code == Code::GetMut && !self.sh.is_map {
                        continue;
                    }
                    let mut o = self.op(code);
                    o.s = if self.r.chance(1, 2) { a } else { b };
                    out.push(o);
                }
            }
            // Interrupted, then the same again.
            3 => {
                let c = CODES[self.r.weighted(&self.weights)];
                let mut o = self.op(c);
                let clean = o.clone();
                if self.rate > 0 {
                    self.fault(&mut o);
                }
                out.push(o);
                out.push(clean);
            }
            // Growth at the edge of memory.
            4 if self.sh.dynamic => {
                let s = self.slot();
                let from = self.r.below(self.sh.size);
                for i in 0..self.r.range(2, 9) {
                    let mut o = self.op(Code::Insert);
                    o.s = s;
                    o.k = ((from + i) % self.sh.size) as u32;
                    self.live[s as usize][o.k as usize] = true;
                    if self.rate > 0 && self.r.chance(1, 2) {
                        o.fault = Fault { kind: FK::Alloc, a: 1, b: 0 };
                    }
                    out.push(o);
                }
                if self.r.chance(1, 2) {
                    let mut o = self.op(Code::Refill);
                    o.s = s;
                    out.push(o);
                }
            }
            // Insert, look, remove one key.
            _ => {
                let s = self.slot();
                let k = self.key();
                for c in [Code::Insert, Code::Get, Code::Remove, Code::Insert, Code::Remove] {
                    if self.r.chance(1, 3) {
                        continue;
                    }
                    let mut o = self.op(c);
                    o.s = s;
                    o.k = k;
                    out.push(o);
                }
            }
        }
    }
}

/// Where an operation calls user code.
fn user_sites(c: Code) -> &'static [Site] {
    match c {
        Code::Clear => &[Site::Drop],
        Code::Retain => &[Site::Closure, Site::Closure, Site::Drop],
        Code::Entry => &[Site::Closure, Site::Default, Site::Drop],
        Code::Iter | Code::Inter => &[Site::Step, Site::Closure],
        Code::IterMut => &[Site::Step, Site::Closure],
        Code::IntoIter => &[Site::Step, Site::Closure, Site::Drop, Site::Clone],
        Code::Pair => &[Site::Step],
        Code::Clone => &[Site::Clone],
        Code::CloneFrom => &[Site::Clone, Site::Clone, Site::Drop],
        Code::Cmp => &[Site::Eq],
        Code::Ord => &[Site::Cmp],
        Code::Pick => &[Site::Cmp],
        Code::Hash => &[Site::Hash],
        Code::Debug => &[Site::Debug],
        Code::Collect => &[Site::Source, Site::Source, Site::Drop],
        Code::SerRec => &[Site::Ser, Site::KeySer],
        Code::Save => &[Site::Ser, Site::KeySer, Site::Write],
        Code::Load => &[Site::De, Site::KeyDe, Site::Read, Site::Drop],
        Code::ScriptDe => &[Site::De, Site::KeyDe, Site::Source, Site::Drop],
        _ => &[],
    }
}
