//! Executes a plan against the real containers, next to the reference model, and judges every step.

use crate::ctx::*;
use crate::erased::*;
use crate::erased::Shape;
use crate::io::*;
use crate::plan::*;
use crate::rng::mix;
use std::any::Any;
use std::cell::{RefCell, UnsafeCell};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering as AO;
use std::sync::Mutex;

pub const NSLOT: usize = 3;
const NFILE: usize = 4;
const FILES: u32 = 1 << 3;

/// Property bit masks: bit n is property Cnn.
pub const fn p(n: u32) -> u32 {
    1 << n
}
const C03: u32 = p(3);
const C04: u32 = p(4);
const C05: u32 = p(5);
const C06: u32 = p(6);
const C07: u32 = p(7);
const C08: u32 = p(8);
const C09: u32 = p(9);
const C10: u32 = p(10);
const C11: u32 = p(11);
const C12: u32 = p(12);
const C13: u32 = p(13);
const C14: u32 = p(14);
const C15: u32 = p(15);
const C16: u32 = p(16);
const C17: u32 = p(17);
const C18: u32 = p(18);

/// A model entry: identity and payload of the value (zero for sets).
type Cell2 = Option<(u64, i32)>;

pub struct Slot {
    c: Box<dyn Con>,
    m: Vec<Cell2>,
    raw: bool,
    /// Set after a violation in this slot: state was adopted from the container.
    tainted: bool,
}

#[derive(Clone, Default)]
struct File {
    bytes: Vec<u8>,
    /// 0 none, 1 bincode, 2 json, 3 raw bits
    fmt: u8,
    /// Content that was saved, in traversal order, while the bytes are known to be complete and unharmed.
    snap: Option<Vec<(usize, i32)>>,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub tags: u32,
    pub class: String,
    pub msg: String,
    pub client: usize,
    pub op: usize,
    pub code: Code,
    /// Found by looking at a container after (or inside) an operation, not in what the operation returned.
    pub audit: bool,
}

#[derive(Clone, Default)]
pub struct Stats {
    pub ops: u64,
    pub by_code: Vec<u64>,
    pub armed: BTreeMap<String, u64>,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub ticks: u64,
    pub accesses: u64,
    pub forced: u64,
    pub switches: u64,
    pub preempt: [u64; NSITES],
    pub states: BTreeSet<u64>,
}

impl Stats {
    pub fn new() -> Stats {
        Stats { by_code: vec![0; NCODES], ..Stats::default() }
    }
    pub fn add(&mut self, o: &Stats) {
        self.ops += o.ops;
        for i in 0..NCODES {
            self.by_code[i] += o.by_code[i];
        }
        for (k, v) in &o.armed {
            *self.armed.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.fired {
            *self.fired.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k).or_default() += v;
        }
        self.ticks += o.ticks;
        self.accesses += o.accesses;
        self.forced += o.forced;
        self.switches += o.switches;
        for i in 0..NSITES {
            self.preempt[i] += o.preempt[i];
        }
        self.states.extend(o.states.iter().copied());
    }
}

pub struct RunOut {
    pub viols: Vec<Viol>,
    pub stats: Stats,
    /// Hash of everything observed: the run's identity.
    pub log: u64,
    pub trail: u64,
    pub nontrivial: bool,
    pub order: Vec<(usize, usize)>,
}

pub struct World<'a> {
    shape: &'a Shape,
    slots: [UnsafeCell<Slot>; NSLOT],
    files: UnsafeCell<Vec<File>>,
    viols: Mutex<Vec<Viol>>,
    want: u32,
    multi: std::sync::atomic::AtomicBool,
    quiet: bool,
    /// Steps in the order they were taken; client `SETUP` is the set-up phase.
    order: Mutex<Vec<(usize, usize)>>,
    stop: std::sync::atomic::AtomicBool,
}
unsafe impl Sync for World<'_> {}

enum Out<R> {
    Done(R),
    /// The injected fault unwound out of the operation.
    Fault,
    /// Some other panic.
    Broken,
}

pub const SETUP: usize = 99;

struct Runaway;

/// One client executing its script.
struct Cl<'w, 'a> {
    w: &'w World<'a>,
    me: usize,
    at: usize,
    op: &'w Op,
    stats: Stats,
    log: u64,
    fault_fired: bool,
    err_fired: bool,
    auditing: bool,
}

fn fault_tags(f: &Fault) -> u32 {
    match f.kind {
        FK::None => 0,
        FK::Panic => C07,
        FK::Err | FK::Wire => C11,
        FK::Alloc | FK::Outage => C13,
        _ => C11,
    }
}

fn op_tags(c: Code, base: u32) -> u32 {
    match c {
        Code::Insert | Code::Remove | Code::Get | Code::GetMut | Code::Len | Code::Clear | Code::Bulk => base,
        Code::Retain => C17,
        Code::Entry => C03,
        Code::Iter | Code::IterMut | Code::IntoIter | Code::Pair => C04,
        Code::Clone | Code::CloneFrom => C08,
        Code::Cmp | Code::Ord | Code::Hash | Code::Pick => C09,
        Code::Debug | Code::InterDebug => C18,
        Code::Collect => C15,
        Code::Inter => C14,
        Code::SerRec | Code::Save | Code::Load | Code::ScriptDe => C10,
        Code::Raw | Code::FromRaw => C12,
        Code::Refill => C13,
        Code::Crash | Code::Rot | Code::New | Code::Pause | Code::Move => base,
        Code::Zero => base,
    }
}

/// Operations that only need shared access to their slots.
pub fn reads_only(o: &Op) -> bool {
    match o.code {
        Code::Get | Code::Len | Code::Iter | Code::Pair | Code::Cmp | Code::Ord | Code::Hash | Code::Debug | Code::Inter | Code::InterDebug | Code::SerRec => true,
        Code::Save => true,
        Code::Clone => o.s == o.t,
        _ => false,
    }
}

pub const KNOWN_CLONE_LEAK: &str = "known finding: dynamic clone leak";

fn locks(o: &Op) -> (u32, u32) {
    let (s, t) = (1 << o.s, 1 << o.t);
    match o.code {
        Code::Get | Code::Len | Code::Iter | Code::Debug | Code::SerRec => (s, 0),
        Code::Pair | Code::Cmp | Code::Ord | Code::Hash | Code::Inter | Code::InterDebug => (s | t, 0),
        Code::Save if o.fault.kind == FK::IoCrash => (0, 7 | FILES),
        Code::Save => (s, FILES),
        Code::Load => (0, t | FILES),
        Code::Clone if o.s == o.t => (s, 0),
        Code::Clone | Code::CloneFrom | Code::Raw => (s & !t, t),
        Code::Collect | Code::ScriptDe | Code::FromRaw | Code::New => (0, t),
        Code::Crash => (0, 7 | FILES),
        Code::Pick => (0, 7),
        Code::Move => (0, s | t),
        Code::Zero => (0, 0),
        Code::Rot => (0, FILES),
        Code::Pause => (0, 0),
        _ => (0, s),
    }
}

macro_rules! fail {
    ($self:ident, $tags:expr, $class:expr, $($a:tt)*) => {
        $self.viol($tags, $class, format!($($a)*))
    };
}

/// Position-based expectation of one traversal.
#[derive(Clone)]
struct Sess {
    /// Expected keys sorted by universe index (= rank order).
    keys: Vec<usize>,
    front: usize,
    back: usize,
    seen: Vec<bool>,
    /// Where each value lives, when only values are shown.
    home: Vec<(u64, usize)>,
    has_key: bool,
    has_val: bool,
    /// Some step was not a plain `next`.
    fancy: bool,
    tag: u32,
}

impl Cl<'_, '_> {
    fn base(&self) -> u32 {
        if self.w.shape.is_map {
            p(1)
        } else {
            p(2)
        }
    }

    fn viol(&mut self, tags: u32, class: &str, msg: String) {
        let v = Viol { tags, class: class.into(), msg, client: self.me, op: self.at, code: self.op.code, audit: self.auditing };
        let mut g = self.w.viols.lock().unwrap_or_else(|e| e.into_inner());
        if v.tags & self.w.want != 0 || g.len() >= 6 {
            self.w.stop.store(true, AO::Relaxed);
        }
        if g.len() < 64 {
            g.push(v);
        }
    }

    fn probe(&mut self, n: &'static str) {
        *self.stats.probes.entry(n).or_default() += 1;
    }

    fn note(&mut self, x: u64) {
        self.log = mix(self.log ^ x);
    }

    #[allow(clippy::mut_from_ref)]
    fn slm(&self, i: u8) -> &'static mut Slot {
        // The baton and the simulated locks decide who may touch a slot.
        unsafe { &mut *self.w.slots[i as usize].get() }
    }
    fn sl(&self, i: u8) -> &'static Slot {
        unsafe { &*self.w.slots[i as usize].get() }
    }
    #[allow(clippy::mut_from_ref)]
    fn files(&self) -> &'static mut Vec<File> {
        unsafe { &mut *self.w.files.get() }
    }

    /// Run one operation of the code under test with the planned fault armed.
    fn call<R>(&mut self, f: impl FnOnce() -> R) -> Out<R> {
        let fl = self.op.fault;
        CX.with(|c| {
            c.reset_op();
            match fl.kind {
                FK::Panic => {
                    c.fsite.set(fl.a as u8);
                    c.fnth.set(fl.b);
                }
                FK::Err => {
                    c.err_site.set(fl.a as u8);
                    c.err_nth.set(fl.b);
                }
                FK::Alloc => c.alloc_fail_at.set(fl.a),
                FK::Outage => c.alloc_outage.set(true),
                _ => {}
            }
        });
        oplog(|l| {
            l.clones.clear();
            l.born.clear();
        });
        if let Some((site, nth)) = self.op.nest {
            let (r, wr) = locks(self.op);
            let held = (r | wr) & 7;
            let me: *mut Self = self;
            let me = me as usize;
            let boxed: Box<dyn FnMut()> = Box::new(move || {
                let me = unsafe { &mut *(me as *mut Self) };
                if site & ELSEWHERE != 0 {
                    if !std::thread::panicking() {
                        me.probe("other containers used inside a callback");
                        me.bystanders();
                    }
                    return;
                }
                me.probe("nested read inside a callback");
                for i in (0..NSLOT as u8).filter(|i| held & (1 << i) != 0) {
                    me.audit_shared(i, C16, "nested");
                }
            });
            // The closure is removed before this call returns.
            let boxed: Box<dyn FnMut() + 'static> = unsafe { std::mem::transmute(boxed) };
            set_nested(site & !ELSEWHERE, nth, boxed);
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        if self.op.nest.is_some() {
            clear_nested();
        }
        let (fired, err, refused, sum) = CX.with(|c| {
            c.disarm();
            let mut h = c.alloc_n.get() as u64;
            for x in &c.counts {
                h = mix(h ^ x.get() as u64);
            }
            (c.fired.get(), c.err_fired.get(), c.alloc_refused.get(), h)
        });
        self.note(sum);
        self.fault_fired = fired || refused > 0;
        self.err_fired = err;
        if fl.kind != FK::None {
            let name = self.fault_name();
            *self.stats.armed.entry(name.clone()).or_default() += 1;
            if self.fault_fired || err {
                *self.stats.fired.entry(name).or_default() += 1;
            }
        }
        match r {
            Ok(r) => {
                self.note(1);
                Out::Done(r)
            }
            Err(e) if e.is::<SimFault>() => {
                self.note(2);
                if matches!(fl.kind, FK::Alloc | FK::Outage) && !self.w.shape.dynamic {
                    fail!(self, C13, "alloc", "{} on a container without dynamic keys failed for lack of memory", CODE_NAMES[self.op.code as usize]);
                }
                Out::Fault
            }
            Err(e) => {
                self.note(3);
                let op = self.op;
                let tags = op_tags(op.code, self.base()) | self.base() | if self.fault_fired { fault_tags(&op.fault) } else { 0 } | io_tags(op.code);
                let (class, m) = if e.is::<Runaway>() { ("runaway", "traversal does not end".to_string()) } else { ("panic", panic_text(&*e)) };
                let code = CODE_NAMES[op.code as usize];
                fail!(self, tags, class, "{code} panicked: {m}");
                Out::Broken
            }
        }
    }

    fn fault_name(&self) -> String {
        let f = self.op.fault;
        match f.kind {
            FK::Panic | FK::Err => format!("{}:{}", FK_NAMES[f.kind as usize], SITE_NAMES[f.a as usize]),
            k => FK_NAMES[k as usize].to_string(),
        }
    }
    fn mark_fired(&mut self) {
        let n = self.fault_name();
        *self.stats.fired.entry(n).or_default() += 1;
    }

    /// Tags of a wrong state after the current operation.
    fn state_tags(&self, slot: u8) -> u32 {
        let o = self.op;
        let mut t = op_tags(o.code, self.base()) | self.base();
        if self.fault_fired || self.err_fired {
            t |= fault_tags(&o.fault);
            if o.code == Code::Debug {
                t |= C18;
            }
        }
        if self.sl(slot).raw {
            t |= C12;
        }
        if reads_only(o) {
            t |= C16;
        }
        t
    }

    // ------------------------------------------------------------ audits

    /// Every read-only view of a container agrees with the model. Changes nothing.
    fn audit_shared(&mut self, i: u8, extra: u32, what: &str) -> bool {
        let was = std::mem::replace(&mut self.auditing, true);
        let ok = self.audit_reads(i, extra, what);
        self.auditing = was;
        ok
    }

    fn audit_reads(&mut self, i: u8, extra: u32, what: &str) -> bool {
        let s = self.sl(i);
        let sh = self.w.shape;
        let n = sh.size;
        let tags = if extra == C16 { C16 } else { self.state_tags(i) | extra };
        let live = s.m.iter().flatten().count();
        let mut ok = true;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut bad: Vec<(u32, &'static str, String)> = vec![];
            let len = s.c.len();
            if len != live {
                bad.push((tags, "len", format!("len() is {len}, {live} entries are present")));
            }
            let e = s.c.is_empty();
            if e != (live == 0) {
                bad.push((tags, "is_empty", format!("is_empty() is {e} with {live} entries present")));
            }
            for k in 0..n {
                let h = s.c.contains(k);
                if h != s.m[k].is_some() {
                    bad.push((tags, "contains", format!("contains({}) is {h}, expected {}", (sh.key_debug)(k, 0), s.m[k].is_some())));
                }
                if sh.is_map {
                    let g = s.c.get(k).map(Tok::see);
                    if g != s.m[k] {
                        bad.push((tags, "get", format!("get({}) is {g:?}, expected {:?}", (sh.key_debug)(k, 0), s.m[k])));
                    }
                }
            }
            for kind in 0..NIT {
                if !sh.is_map && (kind == IT_KEYS || kind == IT_VALUES) {
                    continue;
                }
                let mut se = Sess::new(s, kind != IT_VALUES, sh.is_map && kind != IT_KEYS, C04);
                let mut it = s.c.iter(kind);
                let (lo, hi) = it.hint();
                if lo > live || hi.is_some_and(|h| h < live) {
                    bad.push((C04 | tags, "hint", format!("size_hint {:?} with {live} entries", (lo, hi))));
                }
                loop {
                    let x = it.next();
                    let end = x.is_none();
                    if let Err((t, c, m)) = se.front(&s.m, sh, x.as_ref()) {
                        bad.push((if extra == C16 { C16 } else { t | if t & C05 != 0 { tags & C10 } else { tags } }, c, format!("{} iteration: {m}", KIND_NAMES[kind as usize])));
                        break;
                    }
                    if end {
                        break;
                    }
                }
                if sh.both_ends && kind == (live as u8 % NIT) {
                    let mut se = Sess::new(s, kind != IT_VALUES, sh.is_map && kind != IT_KEYS, C04);
                    let mut it = s.c.iter(kind);
                    loop {
                        let x = it.next_back();
                        let end = x.is_none();
                        if let Err((t, c, m)) = se.backward(&s.m, sh, x.as_ref()) {
                            bad.push((if extra == C16 { C16 } else { t | if t & C05 != 0 { tags & C10 } else { tags } }, c, format!("{} iteration from the back: {m}", KIND_NAMES[kind as usize])));
                            break;
                        }
                        if end {
                            break;
                        }
                    }
                }
            }
            bad
        }));
        match r {
            Ok(bad) => {
                for (t, c, m) in bad {
                    ok = false;
                    fail!(self, t, c, "{what} slot {i}: {m}");
                }
            }
            Err(e) => {
                ok = false;
                fail!(self, tags | C04, "panic", "{what} slot {i}: reading panicked: {}", panic_text(&*e));
            }
        }
        ok
    }

    /// Full check of a slot this client may write, resynchronising the model if it disagrees.
    fn audit(&mut self, i: u8) {
        let mut ok = self.audit_shared(i, 0, "after");
        let sh = self.w.shape;
        let excl = !reads_only(self.op);
        if ok && excl && sh.is_map {
            let s = self.slm(i);
            let tags = self.state_tags(i);
            let r = catch_unwind(AssertUnwindSafe(|| {
                for kind in [IT_ITER, IT_VALUES] {
                    let mut se = Sess::new(s, kind == IT_ITER, true, C04);
                    let ro: &Slot = unsafe { &*(s as *const Slot) };
                    let mut it = s.c.iter_mut(kind).unwrap();
                    loop {
                        let x = it.next();
                        let end = x.is_none();
                        se.front(&ro.m, sh, x.as_ref()).map_err(|(t, c, m)| (t | if t & C05 != 0 { tags & C10 } else { tags }, c, format!("{} iteration: {m}", ["iter_mut", "", "values_mut"][kind as usize])))?;
                        if end {
                            break;
                        }
                    }
                }
                Ok::<(), (u32, &'static str, String)>(())
            }));
            match r {
                Ok(Ok(())) => {}
                Ok(Err((t, c, m))) => {
                    ok = false;
                    fail!(self, t, c, "after slot {i}: {m}");
                }
                Err(e) => {
                    ok = false;
                    fail!(self, tags | C04, "panic", "after slot {i}: mutable iteration panicked: {}", panic_text(&*e));
                }
            }
        }
        if !ok && excl {
            self.resync(i);
        }
        let s = self.sl(i);
        let mut h = 0x5157u64;
        for (k, c) in s.m.iter().enumerate() {
            if let Some((_, pay)) = c {
                h = mix(h ^ (k as u64) << 32 ^ *pay as u32 as u64);
            }
        }
        self.note(h);
        let mut occ = crate::rng::mix(self.w.shape.label.len() as u64 ^ (self.w.shape.size as u64) << 8);
        for b in self.w.shape.label.bytes() {
            occ = mix(occ ^ b as u64);
        }
        for (k, c) in s.m.iter().enumerate() {
            if c.is_some() {
                occ = mix(occ ^ k as u64);
            }
        }
        self.stats.states.insert(occ);
    }

    /// Adopt what the container shows.
    fn resync(&mut self, i: u8) {
        let s = self.slm(i);
        s.tainted = true;
        let obs = catch_unwind(AssertUnwindSafe(|| self.observe(i)));
        if let Ok(o) = obs {
            s.m = o;
        }
        // A container that cannot be trusted is replaced, so that later steps judge fresh state.
        let fresh = (self.w.shape.new)(false);
        let old = std::mem::replace(&mut s.c, fresh);
        std::mem::forget(old);
        let m = std::mem::replace(&mut s.m, vec![None; self.w.shape.size]);
        s.raw = false;
        self.forgive(m.iter().flatten().map(|c| c.0));
        self.forgive_unowned();
    }

    fn observe(&self, i: u8) -> Vec<Cell2> {
        let s = self.sl(i);
        (0..self.w.shape.size)
            .map(|k| if self.w.shape.is_map { s.c.get(k).map(Tok::see) } else { s.c.contains(k).then_some((0, 0)) })
            .collect()
    }

    fn forgive(&mut self, ids: impl Iterator<Item = u64>) {
        if !self.w.shape.is_map {
            return;
        }
        ledger(|l| {
            for id in ids {
                if l.life.get(id as usize) == Some(&Life::Live) {
                    l.life[id as usize] = Life::Forgiven;
                    l.live -= 1;
                }
            }
        });
    }

    fn owned(&self) -> usize {
        (0..NSLOT as u8).map(|i| self.sl(i).m.iter().flatten().count()).sum()
    }

    /// Forgive every live value no slot holds.
    fn forgive_unowned(&mut self) {
        if !self.w.shape.is_map || !(!self.w.multi() || SCHED.others_idle(self.me)) {
            return;
        }
        let own: BTreeSet<u64> = (0..NSLOT as u8).flat_map(|i| self.sl(i).m.iter().flatten().map(|c| c.0).collect::<Vec<_>>()).collect();
        ledger(|l| {
            for id in 0..l.life.len() {
                if l.life[id] == Life::Live && !own.contains(&(id as u64)) {
                    l.life[id] = Life::Forgiven;
                    l.live -= 1;
                }
            }
        });
    }

    /// Known finding (see known-findings.txt): the hash table of a dynamic key part does not drop the values it
    /// has already cloned when cloning a later value of the same table panics.
    fn known_clone_leak(&self, missing: usize) -> bool {
        let o = self.op;
        let sh = self.w.shape;
        static LISTED: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
        if !*LISTED.get_or_init(|| user(|| std::env::var("FMSIM_KNOWN").is_ok_and(|k| k.split(',').any(|k| k == "dynamic-clone-leak")))) {
            return false;
        }
        if !matches!(o.code, Code::Clone | Code::CloneFrom) || !self.fault_fired || !(o.fault.kind == FK::Panic && o.fault.a == Site::Clone as u32) {
            return false;
        }
        let (clones, last) = oplog(|l| (l.clones.clone(), l.cloning));
        let home = |id: u64| self.sl(o.s).m.iter().position(|c| c.is_some_and(|c| c.0 == id));
        let Some(k) = home(last) else { return false };
        if !(sh.in_dynamic[k]) {
            return false;
        }
        let left: Vec<u64> = ledger(|l| clones.iter().filter(|c| l.life[c.1 as usize] == Life::Live).map(|c| c.0).collect());
        left.len() == missing && left.iter().all(|id| home(*id).is_some_and(|h| sh.ranks[h] == sh.ranks[k]))
    }

    /// Ownership accounting at the end of an operation.
    fn audit_ledger(&mut self) {
        if !self.w.shape.is_map {
            return;
        }
        let o = self.op;
        let mut tags = C06 | (op_tags(o.code, 0) & (C08 | C15 | C17)) | io_tags(o.code);
        if self.fault_fired {
            tags |= fault_tags(&o.fault) & (C13 | C11 | C07);
        }
        let errs = ledger(|l| std::mem::take(&mut l.errors));
        for (what, id) in errs.iter().take(3) {
            fail!(self, tags | self.base(), "ownership", "{what} (value {id})");
        }
        if self.w.multi() && !SCHED.others_idle(self.me) {
            return;
        }
        let live = ledger(|l| l.live);
        let own = self.owned();
        if live == own || self.w.shape.copy {
            return;
        }
        let dropped_fault = o.fault.kind == FK::Panic && o.fault.a == Site::Drop as u32 && self.fault_fired;
        if live > own && dropped_fault {
            self.probe("destructor panic left values undropped");
            self.forgive_unowned();
            return;
        }
        if live > own && self.known_clone_leak(live - own) {
            self.probe(KNOWN_CLONE_LEAK);
            self.forgive_unowned();
            return;
        }
        if live > own {
            fail!(self, tags & !C07, "leak", "{} values are owned by no container and were never dropped", live - own);
        } else {
            fail!(self, tags | self.base(), "lost", "{} values still in a container were dropped", own - live);
        }
        self.forgive_unowned();
        // Keep the books balanced if values vanished.
        ledger(|l| l.live = l.life.iter().filter(|x| **x == Life::Live).count());
        let lost = ledger(|l| l.live) != self.owned();
        if lost {
            self.w.stop.store(true, AO::Relaxed);
        }
    }

    /// After an interrupted operation: check each entry against what the property admits, then adopt.
    fn settle(&mut self, i: u8, extra: u32, allowed: impl Fn(usize, Cell2) -> bool) {
        let tags = self.state_tags(i) | extra;
        let obs = match catch_unwind(AssertUnwindSafe(|| self.observe(i))) {
            Ok(o) => o,
            Err(e) => {
                let m = panic_text(&*e);
                fail!(self, tags, "panic", "slot {i}: lookup panicked: {m}");
                self.resync(i);
                return;
            }
        };
        let s = self.slm(i);
        let mut bad = vec![];
        for k in 0..obs.len() {
            if !allowed(k, obs[k]) {
                bad.push(format!("{}: was {:?}, is {:?}", (self.w.shape.key_debug)(k, 0), s.m[k], obs[k]));
            }
        }
        s.m = obs;
        if !bad.is_empty() {
            bad.truncate(4);
            fail!(self, tags, "interrupted", "slot {i} after an interrupted {}: {}", CODE_NAMES[self.op.code as usize], bad.join("; "));
        }
    }

    fn settle_same(&mut self, i: u8) {
        let before = self.sl(i).m.clone();
        self.settle(i, 0, |k, o| o == before[k]);
    }

    /// Allocation rules common to every operation.
    fn audit_alloc(&mut self) {
        let o = self.op;
        let n = CX.with(|c| c.alloc_n.get());
        let exempt = matches!(o.code, Code::Save | Code::Load | Code::ScriptDe) || self.err_fired || (o.code == Code::SerRec && o.fault.kind != FK::None);
        if n == 0 || exempt {
            return;
        }
        if !self.w.shape.dynamic {
            fail!(self, C13, "alloc", "{} on a container without dynamic keys requested memory {n} times", CODE_NAMES[o.code as usize]);
        } else if (o.code == Code::Bulk && matches!(o.how & 3, 1 | 3))
            || matches!(
            o.code,
            Code::Remove | Code::Get | Code::GetMut | Code::Len | Code::Clear | Code::Retain | Code::Iter | Code::IterMut | Code::Pair | Code::Cmp | Code::Inter
        ) {
            fail!(self, C13, "alloc", "{} adds nothing but requested memory {n} times", CODE_NAMES[o.code as usize]);
        }
    }

    // ------------------------------------------------------------ operations

    fn run(&mut self, ops: &'_ [Op])
    where
        Self: Sized,
    {
        for (i, op) in ops.iter().enumerate() {
            if self.w.stop.load(AO::Relaxed) {
                break;
            }
            // Scripts outlive the client.
            let op: &'static Op = unsafe { &*(op as *const Op) };
            self.op = op;
            self.at = i;
            self.fault_fired = false;
            self.err_fired = false;
            self.stats.ops += 1;
            self.stats.by_code[op.code as usize] += 1;
            CX.with(|c| c.reset_op());
            let (r, wr) = locks(op);
            if self.w.multi() {
                SCHED.acquire(self.me, r, wr);
                if SCHED.is_stuck() {
                    return;
                }
            }
            self.note(op.code as u64 + 100);
            self.w.order.lock().unwrap_or_else(|e| e.into_inner()).push((self.me, i));
            let done = catch_unwind(AssertUnwindSafe(|| {
                self.step();
                if self.w.quiet {
                    return;
                }
                CX.with(|c| c.auditing.set(true));
                let touched = (r | wr) & 7;
                for s in 0..NSLOT as u8 {
                    if touched & (1 << s) != 0 {
                        self.audit(s);
                    }
                }
                self.audit_ledger();
            }));
            if let Err(e) = done {
                // The containers answered something the bookkeeping has no room for.
                let tags = self.base() | op_tags(op.code, self.base());
                let m = panic_text(&*e);
                fail!(self, tags, "unaccountable", "the step cannot be accounted for: {m}");
                self.w.stop.store(true, AO::Relaxed);
            }
            if self.w.quiet {
                continue;
            }
            if self.w.multi() {
                SCHED.release(self.me);
            }
        }
    }

    fn tok(&self, pay: i32) -> Option<Tok> {
        self.w.shape.is_map.then(|| Tok::new(pay))
    }

    fn step(&mut self) {
        let op = self.op;
        let base = self.base();
        let ret = op_tags(op.code, base);
        let n = self.w.shape.size;
        let k = op.k as usize % n;
        let (si, ti) = (op.s, op.t);
        match op.code {
            Code::Pause => {
                hook(Site::Step);
                if self.w.quiet {
                    for i in 0..NSLOT as u8 {
                        self.audit_shared(i, 0, "found");
                    }
                }
            }
            Code::Insert => {
                let s = self.slm(si);
                let before = s.m[k];
                let tok = self.tok(op.v);
                let id = tok.as_ref().map_or(0, |t| t.id);
                let pay = if self.w.shape.is_map { op.v } else { 0 };
                let live = s.m.iter().flatten().count();
                let r = self.call(|| s.c.insert(k, tok));
                match r {
                    Out::Done(old) => {
                        match &old {
                            Old::Val(o) => {
                                let o = o.as_ref().map(Tok::see);
                                if o != before {
                                    fail!(self, ret, "return", "insert({}) returned {o:?}, expected {before:?}", self.key(k));
                                }
                            }
                            Old::Flag(b) => {
                                if *b != before.is_none() {
                                    fail!(self, ret, "return", "insert({}) returned {b}, value was {}", self.key(k), pres(before));
                                }
                            }
                        }
                        let a = CX.with(|c| c.alloc_n.get());
                        if a > 0 && before.is_some() {
                            fail!(self, C13, "alloc", "insert of a present key requested memory");
                        }
                        if a > 0 && live > 0 {
                            self.probe("table grew with entries in it");
                        }
                        self.audit_alloc_fixed();
                        s.m[k] = Some((id, pay));
                        drop(old);
                    }
                    Out::Fault => {
                        if live > 0 {
                            self.probe("refused growth with entries present");
                        }
                        if before.is_some() && op.fault.kind != FK::Panic {
                            fail!(self, C13 | ret, "alloc", "replacing a present key failed for lack of memory");
                        }
                        self.settle_same(si)
                    }
                    Out::Broken => self.resync(si),
                }
            }
            Code::Remove => {
                let s = self.slm(si);
                let before = s.m[k];
                match self.call(|| s.c.remove(k)) {
                    Out::Done(old) => {
                        match &old {
                            Old::Val(o) => {
                                let o = o.as_ref().map(Tok::see);
                                if o != before {
                                    fail!(self, ret, "return", "remove({}) returned {o:?}, expected {before:?}", self.key(k));
                                }
                            }
                            Old::Flag(b) => {
                                if *b != before.is_some() {
                                    fail!(self, ret, "return", "remove({}) returned {b}, value was {}", self.key(k), pres(before));
                                }
                            }
                        }
                        self.audit_alloc();
                        s.m[k] = None;
                        drop(old);
                    }
                    Out::Fault => self.no_fault_expected(si),
                    Out::Broken => self.resync(si),
                }
            }
            Code::Get => {
                let s = self.sl(si);
                let before = s.m[k];
                match self.call(|| (s.c.contains(k), s.c.get(k).map(Tok::see))) {
                    Out::Done((h, g)) => {
                        if h != before.is_some() || (self.w.shape.is_map && g != before) {
                            fail!(self, ret | self.c16(), "return", "get({}) = {g:?}, contains = {h}, expected {before:?}", self.key(k));
                        }
                        self.audit_alloc();
                    }
                    Out::Fault => self.no_fault_expected(si),
                    Out::Broken => {}
                }
            }
            Code::GetMut if self.w.shape.is_map => {
                let s = self.slm(si);
                let before = s.m[k];
                let r = self.call(|| {
                    s.c.get_mut(k).map(|t| {
                        let seen = t.see();
                        t.pay = op.v;
                        seen
                    })
                });
                match r {
                    Out::Done(g) => {
                        if g != before {
                            fail!(self, ret, "return", "get_mut({}) gives {g:?}, expected {before:?}", self.key(k));
                        }
                        if let Some((_, p)) = &mut s.m[k] {
                            *p = op.v;
                        }
                        self.audit_alloc();
                    }
                    Out::Fault => self.no_fault_expected(si),
                    Out::Broken => self.resync(si),
                }
            }
            Code::GetMut => {}
            Code::Bulk => self.op_bulk(),
            Code::Len => {
                let s = self.sl(si);
                let live = s.m.iter().flatten().count();
                match self.call(|| (s.c.len(), s.c.is_empty())) {
                    Out::Done((l, e)) => {
                        if l != live || e != (live == 0) {
                            fail!(self, ret | self.c16(), "return", "len = {l}, is_empty = {e}, {live} entries are present");
                        }
                        self.audit_alloc();
                    }
                    Out::Fault => self.no_fault_expected(si),
                    Out::Broken => {}
                }
            }
            Code::Clear => {
                let s = self.slm(si);
                match self.call(|| s.c.clear()) {
                    Out::Done(()) => {
                        s.m.fill(None);
                        self.audit_alloc();
                    }
                    Out::Fault => {
                        self.probe("destructor panic inside clear");
                        let before = s.m.clone();
                        self.settle(si, 0, |k, o| o.is_none() || o == before[k])
                    }
                    Out::Broken => self.resync(si),
                }
            }
            Code::Retain => self.op_retain(),
            Code::Entry => {
                if self.w.shape.is_map {
                    self.op_entry(k)
                }
            }
            Code::Iter => self.op_iter(),
            Code::IterMut => {
                if self.w.shape.is_map {
                    self.op_iter_mut()
                }
            }
            Code::IntoIter => self.op_into_iter(),
            Code::Pair => self.op_pair(),
            Code::Inter => {
                if !self.w.shape.is_map {
                    self.op_inter()
                }
            }
            Code::InterDebug => {
                if !self.w.shape.is_map {
                    self.op_debug(true)
                }
            }
            Code::Debug => self.op_debug(false),
            Code::Clone | Code::CloneFrom => self.op_clone(),
            Code::Cmp | Code::Ord | Code::Hash => self.op_cmp(),
            Code::Pick => self.op_pick(),
            Code::Move => self.op_move(),
            Code::Zero => {
                if let Some(f) = self.w.shape.zero {
                    let seed = mix(op.v as u32 as u64 ^ (op.k as u64) << 32);
                    for (prop, what) in aside(|| f(seed)) {
                        fail!(self, p(prop), "zero-sized", "with values which take no space: {what}");
                    }
                }
            }
            Code::Collect => self.op_collect(),
            Code::SerRec => self.op_ser_rec(),
            Code::Save => self.op_save(),
            Code::Load => self.op_load(),
            Code::ScriptDe => self.op_script(),
            Code::Raw | Code::FromRaw => self.op_raw(),
            Code::Crash => self.crash(op.how & 1 != 0, op.v as u64),
            Code::Rot => {
                let files = self.files();
                let f = &mut files[ti as usize % NFILE];
                if !f.bytes.is_empty() && !(self.w.shape.label == "()" && !self.w.shape.is_map) {
                    let at = op.k as usize % f.bytes.len();
                    match op.how % 3 {
                        0 => f.bytes[at] ^= 1 << (op.v as u32 % 8),
                        1 => f.bytes.truncate(at),
                        _ => f.bytes[at] = op.v as u8,
                    }
                    if f.fmt == 3 {
                        f.bytes.resize(16, 0);
                    }
                    f.snap = None;
                    *self.stats.fired.entry(["bit flip", "truncation", "byte garbage"][op.how as usize % 3].into()).or_default() += 1;
                }
            }
            Code::New => {
                let sh = self.w.shape;
                match self.call(|| (sh.new)(op.how & 1 != 0)) {
                    Out::Done(c) => {
                        self.audit_alloc_fixed();
                        self.replace(ti, c, vec![None; n]);
                    }
                    Out::Fault => self.settle_same(ti),
                    Out::Broken => {}
                }
            }
            Code::Refill => self.op_refill(),
        }
    }

    fn key(&self, k: usize) -> String {
        (self.w.shape.key_debug)(k, 0)
    }

    fn c16(&self) -> u32 {
        if self.w.multi() {
            C16
        } else {
            0
        }
    }

    fn audit_alloc_fixed(&mut self) {
        if !self.w.shape.dynamic {
            self.audit_alloc();
        }
    }

    /// A fault surfaced in an operation that has no callback and needs no memory.
    fn no_fault_expected(&mut self, i: u8) {
        let op = self.op;
        if matches!(op.fault.kind, FK::Alloc | FK::Outage) {
            fail!(self, C13, "alloc", "{} failed for lack of memory", CODE_NAMES[op.code as usize]);
        }
        if reads_only(op) {
            return;
        }
        self.settle_same(i);
    }

    /// Put a new container into a slot and let go of the old one.
    fn replace(&mut self, i: u8, c: Box<dyn Con>, m: Vec<Cell2>) {
        let s = self.slm(i);
        let old = std::mem::replace(&mut s.c, c);
        s.m = m;
        s.raw = false;
        s.tainted = false;
        self.discard(old);
    }

    /// Drop a container outside of any fault.
    fn discard(&mut self, c: Box<dyn Con>) {
        if let Err(e) = catch_unwind(AssertUnwindSafe(|| drop(c))) {
            let m = panic_text(&*e);
            fail!(self, C06 | self.base(), "panic", "dropping a container panicked: {m}");
        }
    }

    /// Many keys in one step: a run of inserts, of removes, of both per key, or of lookups.
    fn op_bulk(&mut self) {
        let op = self.op;
        let sh = self.w.shape;
        let n = sh.size;
        let (kind, stride) = (op.how & 3, (op.how >> 4) as usize);
        let keys: Vec<usize> = (0..op.c as usize).map(|j| (op.k as usize + j * stride) % n).collect();
        let s = self.slm(op.s);
        let adds = matches!(kind, 0 | 2);
        let mut toks: Vec<Option<Tok>> = vec![];
        let mut new: Vec<(u64, i32)> = vec![];
        if adds {
            for j in 0..keys.len() {
                let t = self.tok(op.v.wrapping_add(j as i32));
                new.push(t.as_ref().map_or((0, 0), |t| (t.id, t.pay)));
                toks.push(t);
            }
        }
        let mut outs: Vec<Old> = Vec::with_capacity(2 * keys.len());
        let r = self.call(|| {
            let mut toks = toks.into_iter();
            for k in &keys {
                if adds {
                    let t = toks.next().unwrap();
                    let o = s.c.insert(*k, t);
                    user(|| outs.push(o));
                }
                if matches!(kind, 1 | 2) {
                    let o = s.c.remove(*k);
                    user(|| outs.push(o));
                }
                if kind == 3 {
                    let h = s.c.contains(*k);
                    user(|| outs.push(Old::Flag(h)));
                }
            }
        });
        // Replay what was done on the model.
        let mut known = s.m.iter().flatten().count();
        let (mut grew, mut most) = (false, known);
        let mut bad = vec![];
        let mut at = 0;
        'all: for (j, k) in keys.iter().enumerate() {
            for step in 0..if kind == 2 { 2 } else { 1 } {
                let Some(o) = outs.get(at) else { break 'all };
                at += 1;
                let before = s.m[*k];
                let insert = adds && step == 0;
                let after = if insert {
                    Some(new[j])
                } else if kind == 3 {
                    before
                } else {
                    None
                };
                let ok = match o {
                    Old::Val(o) => o.as_ref().map(Tok::see) == before,
                    Old::Flag(b) => *b == if insert { before.is_none() } else { before.is_some() },
                };
                if !ok && bad.len() < 3 {
                    let what = if insert { "insert" } else if kind == 3 { "contains" } else { "remove" };
                    bad.push(format!("{what}({}), step {j} of a long run, answers for a key that is {}", self.key(*k), pres(before)));
                }
                grew |= before.is_none() && after.is_some();
                known = known + usize::from(after.is_some()) - usize::from(before.is_some());
                most = most.max(known);
                s.m[*k] = after;
            }
        }
        for b in bad {
            fail!(self, self.base(), "return", "{b}");
        }
        if most > 1000 {
            self.probe("more than a thousand entries");
        }
        drop(outs);
        match r {
            Out::Done(()) => {
                self.audit_alloc();
                if adds && !grew && CX.with(|c| c.alloc_n.get()) > 0 {
                    fail!(self, C13, "alloc", "{} inserts of present keys requested memory", keys.len());
                }
            }
            Out::Fault => {
                self.probe("a long run of inserts interrupted");
                if matches!(op.fault.kind, FK::Alloc | FK::Outage) && !adds {
                    fail!(self, C13, "alloc", "a run of {} failed for lack of memory", if kind == 1 { "removes" } else { "lookups" });
                }
                let next = keys.get(if kind == 2 { at / 2 } else { at });
                if adds && next.is_some_and(|k| s.m[*k].is_some()) && at % 2 * (kind as usize) < 2 {
                    fail!(self, C13, "alloc", "replacing a present key failed for lack of memory");
                }
                self.settle_same(op.s);
            }
            Out::Broken => self.resync(op.s),
        }
    }

    fn op_retain(&mut self) {
        let op = self.op;
        let si = op.s;
        let s = self.slm(si);
        let before = s.m.clone();
        let ret = C17;
        // key -> (seen, accepted, finished, payload after)
        let trace: RefCell<Vec<(usize, Cell2, bool, bool, i32)>> = RefCell::new(vec![]);
        let is_map = self.w.shape.is_map;
        let limit = self.w.shape.size + 8;
        let r = self.call(|| {
            s.c.retain(&mut |k, v| {
                let accept = mix(op.bits as u64 ^ k as u64) % 4 >= (op.how & 7) as u64;
                let mut seen = None;
                let mut pay = 0;
                if let Some(t) = v {
                    seen = Some(t.see());
                    if op.how & 8 != 0 {
                        t.pay = op.v.wrapping_add(k as i32);
                    }
                    pay = t.pay;
                }
                if trace.borrow().len() > limit {
                    std::panic::panic_any(Runaway);
                }
                trace.borrow_mut().push((k, seen, accept, false, pay));
                hook(Site::Closure);
                trace.borrow_mut().last_mut().unwrap().3 = true;
                accept
            })
        });
        let trace = trace.into_inner();
        let mut asked = BTreeMap::new();
        for (k, seen, accept, fin, pay) in &trace {
            let bad = *k >= before.len() || before[*k].is_none();
            if bad {
                fail!(self, ret, "retain", "predicate called for an absent key ({})", self.w.key_name(*k));
                continue;
            }
            if is_map && *seen != before[*k] {
                fail!(self, ret, "retain", "predicate saw {seen:?} for {}, expected {:?}", self.key(*k), before[*k]);
            }
            if asked.insert(*k, (*accept, *fin, *pay)).is_some() {
                fail!(self, ret, "retain", "predicate called twice for {}", self.key(*k));
            }
        }
        let kept = |k: usize| before[k].map(|(id, p)| (id, asked.get(&k).map_or(p, |a| a.2)));
        match r {
            Out::Done(()) => {
                let missed: Vec<_> = (0..before.len()).filter(|k| before[*k].is_some() && !asked.contains_key(k)).collect();
                if !missed.is_empty() {
                    fail!(self, ret, "retain", "predicate not called for {}", self.key(missed[0]));
                }
                for k in 0..before.len() {
                    s.m[k] = match asked.get(&k) {
                        Some((true, ..)) => kept(k),
                        Some(_) => None,
                        None => before[k],
                    };
                }
                if !asked.is_empty() && asked.values().all(|a| !a.0) {
                    self.probe("retain rejected everything");
                }
                self.audit_alloc();
            }
            Out::Fault => {
                self.probe("retain interrupted");
                if matches!(op.fault.kind, FK::Alloc | FK::Outage) {
                    fail!(self, C13, "alloc", "retain failed for lack of memory");
                }
                self.settle(si, 0, |k, o| {
                    let keep = kept(k);
                    match asked.get(&k) {
                        Some((false, true, _)) => o.is_none() || o == keep,
                        Some(_) => o == keep,
                        None => o == before[k],
                    }
                });
            }
            Out::Broken => self.resync(si),
        }
    }

    fn op_entry(&mut self, k: usize) {
        let op = self.op;
        let (si, how, v) = (op.s, op.how as u8 % HOWS.len() as u8, op.v);
        let s = self.slm(si);
        let before = s.m[k];
        let mark = ledger(|l| l.life.len() as u64);
        let mut o = EntryOut::default();
        let r = self.call(|| s.c.entry(k, how, v, &mut o));
        let ret = C03;
        let hn = HOWS[how as usize];
        if let Some(occ) = o.occupied {
            if occ != before.is_some() {
                fail!(self, ret, "entry", "entry({}) is {}, key is {}", self.key(k), if occ { "occupied" } else { "vacant" }, pres(before));
                self.resync(si);
                return;
            }
        }
        let v1 = v.wrapping_add(1);
        let v2 = v.wrapping_add(2);
        let made = o.made.unwrap_or(u64::MAX);
        match r {
            Out::Done(()) => {
                // (keys, seen, make calls, make keys, mod calls, after)
                let key1 = vec![k];
                let fresh = o.seen.first().map_or(u64::MAX, |x| x.0);
                type Exp = (Vec<usize>, Vec<(u64, i32)>, u32, Vec<usize>, u32, Cell2);
                let e: Exp = match (how, before) {
                    (0 | 1, Some((id, p))) => (vec![], vec![(id, p)], 0, vec![], 0, Some((id, v1))),
                    (0, None) => (vec![], vec![(made, v)], 0, vec![], 0, Some((made, v1))),
                    (1, None) => (vec![], vec![(made, v)], 1, vec![], 0, Some((made, v1))),
                    (2, Some((id, p))) => (vec![], vec![(id, p)], 0, vec![], 0, Some((id, p))),
                    (2, None) => (vec![], vec![(made, v)], 1, key1, 0, Some((made, v))),
                    (3, Some((id, p))) => (vec![], vec![(id, p)], 0, vec![], 0, Some((id, v1))),
                    (3, None) => (vec![], vec![(fresh, DEFAULT_PAY)], 0, vec![], 0, Some((fresh, v1))),
                    (4, Some((id, p))) => (vec![], vec![(id, p), (id, v1)], 0, vec![], 1, Some((id, v1))),
                    (4, None) => (vec![], vec![(made, v)], 0, vec![], 0, Some((made, v))),
                    (5, Some((id, p))) => (key1, vec![(id, p)], 0, vec![], 1, Some((id, v1))),
                    (5, None) => (key1, vec![], 0, vec![], 0, None),
                    (6, Some((id, p))) => (vec![], vec![(id, p), (id, v1), (id, v2)], 0, vec![], 2, Some((id, v2))),
                    (6, None) => (vec![], vec![(made, v)], 1, key1, 0, Some((made, v))),
                    (7, b) => (vec![k, k], vec![], 0, vec![], 0, b),
                    (14, b) => (key1, vec![], 0, vec![], 0, b),
                    (17, Some((id, p))) => (vec![], vec![(id, p), (id, v1)], 0, vec![], 1, Some((id, v1))),
                    (17, None) => (vec![], vec![(fresh, DEFAULT_PAY)], 0, vec![], 0, Some((fresh, DEFAULT_PAY))),
                    (8, Some((id, p))) => (key1, vec![(id, p), (id, p)], 0, vec![], 0, before),
                    (8, None) => (vec![k, k], vec![], 0, vec![], 0, None),
                    (9, Some((id, p))) => (key1, vec![(id, p), (id, v1)], 0, vec![], 0, Some((id, v1))),
                    (10, Some((id, p))) => (vec![k, k], vec![(id, p), (made, v)], 0, vec![], 0, Some((made, v))),
                    (11, Some((id, p))) => (key1, vec![(id, p)], 0, vec![], 0, Some((id, v1))),
                    (12, Some((id, p))) => (key1, vec![(id, p), (made, v)], 0, vec![], 0, None),
                    (13, Some((id, p))) => (key1, vec![(id, p)], 0, vec![], 0, None),
                    (15, Some((id, p))) => (key1, vec![(id, p), (id, v1)], 0, vec![], 0, None),
                    (9 | 10 | 12 | 15, None) => (key1, vec![(made, v)], 0, vec![], 0, Some((made, v1))),
                    (_, Some((id, p))) => {
                        let first = o.seen.get(1).map_or(u64::MAX, |x| x.0);
                        (key1, vec![(id, p), (first, v), (first, v), (made, v)], 0, vec![], 0, Some((made, v)))
                    }
                    (_, None) => (key1, vec![], 0, vec![], 0, None),
                };
                let mut bad = vec![];
                if o.keys != e.0 {
                    bad.push(format!("handle reports key {:?}, expected {:?}", o.keys, e.0));
                }
                if o.seen != e.1 || ((how == 3 || how == 17) && before.is_none() && fresh < mark) {
                    bad.push(format!("values through the handle {:?}, expected {:?}", o.seen, e.1));
                }
                if o.make_calls != e.2 || o.make_key != e.3 {
                    bad.push(format!("default function called {} times with {:?}, expected {} with {:?}", o.make_calls, o.make_key, e.2, e.3));
                }
                if o.mod_calls != e.4 {
                    bad.push(format!("modification called {} times, expected {}", o.mod_calls, e.4));
                }
                for b in bad {
                    fail!(self, ret, "entry", "entry({}) {hn} on {} key: {b}", self.key(k), pres(before));
                }
                let a = CX.with(|c| c.alloc_n.get());
                if a > 0 && e.5.is_some() == before.is_some() && !matches!(how, 12 | 13 | 15) {
                    fail!(self, C13, "alloc", "entry({}) {hn} adds nothing but requested memory", self.key(k));
                }
                self.audit_alloc_fixed();
                s.m[k] = e.5;
            }
            Out::Fault => {
                self.probe("entry interrupted");
                let all = s.m.clone();
                let f = op.fault;
                let drop_fault = f.kind == FK::Panic && f.a == Site::Drop as u32;
                let wrote = o.wrote;
                let removing = matches!(how, 12 | 13 | 15);
                if matches!(f.kind, FK::Alloc | FK::Outage) && before.is_some() {
                    fail!(self, C13, "alloc", "entry({}) {hn} on a present key failed for lack of memory", self.key(k));
                }
                self.settle(si, C03, |x, ob| {
                    if x != k {
                        return ob == all[x];
                    }
                    match (before, ob) {
                        (None, None) => true,
                        (None, Some(_)) => drop_fault,
                        (Some(_), None) => drop_fault && removing,
                        (Some(b), Some(ob)) => (ob.0 == b.0 && (ob.1 == b.1 || Some(ob.1) == wrote)) || (drop_fault && ob.0 == made),
                    }
                });
            }
            Out::Broken => self.resync(si),
        }
    }

    // ------------------------------------------------------------ traversals

    /// Drive one iterator through `moves`, judging each step.
    fn drive<'i>(&mut self, it: BIter<'i>, s: &Slot, se: &mut Sess, moves: &[u32], held: &mut Vec<Item<'i>>, forgot: &mut bool) {
        let mut it = it;
        let sh = self.w.shape;
        let back = it.both_ends();
        let mut cur = s.m.clone();
        macro_rules! chk {
            ($r:expr, $what:expr) => {
                if let Err((t, c, m)) = $r {
                    let tags = self.it_tags(t, se);
                    let code = CODE_NAMES[self.op.code as usize];
                    user(|| fail!(self, tags, c, "{code} [{}]: {}: {m}", KIND_NAMES[self.op.how as usize % NIT as usize], $what));
                    return;
                }
            };
        }
        macro_rules! keep {
            ($x:expr) => {
                if let Some(x) = $x {
                    user(|| held.push(x));
                }
            };
        }
        for mv in moves {
            user(|| hook(Site::Step));
            let arg = (*mv >> 4) as usize & 0xff;
            let mut m = *mv & 15;
            let way = *mv >> 12;
            if !back {
                m = match m {
                    1 => 0,
                    3 => 2,
                    10 => 9,
                    13 => 12,
                    m => m,
                };
            }
            if m != 0 && m != 4 {
                se.fancy = true;
            }
            match m {
                0 => {
                    let x = it.next();
                    chk!(se.front(&cur, sh, x.as_ref()), "next");
                    keep!(x);
                }
                1 => {
                    let x = it.next_back();
                    chk!(se.backward(&cur, sh, x.as_ref()), "next_back");
                    keep!(x);
                }
                2 => {
                    let x = it.nth(arg);
                    se.skip_front(arg);
                    chk!(se.front(&cur, sh, x.as_ref()), format!("nth({arg})"));
                    keep!(x);
                }
                3 => {
                    let x = it.nth_back(arg);
                    se.skip_back(arg);
                    chk!(se.backward(&cur, sh, x.as_ref()), format!("nth_back({arg})"));
                    keep!(x);
                }
                5 | 6 => {
                    let mark = oplog(|l| l.clones.len());
                    if let Some(d) = it.dup() {
                        let mut se2 = se.clone();
                        // An owning iterator clones the values it still holds.
                        let mut other = cur.clone();
                        let pairs: BTreeMap<u64, u64> = oplog(|l| l.clones[mark..].iter().copied().collect());
                        if !pairs.is_empty() {
                            user(|| self.probe("owning iterator cloned"));
                            for c in other.iter_mut().flatten() {
                                c.0 = pairs.get(&c.0).copied().unwrap_or(c.0);
                            }
                        }
                        let (mut d, dm) = if m == 6 { (std::mem::replace(&mut it, d), std::mem::replace(&mut cur, other)) } else { (d, other) };
                        let mut fr = arg & 1 == 0;
                        loop {
                            let x = if back && !fr { d.next_back() } else { d.next() };
                            let end = x.is_none();
                            let r = if back && !fr { se2.backward(&dm, sh, x.as_ref()) } else { se2.front(&dm, sh, x.as_ref()) };
                            if arg & 2 != 0 {
                                fr = !fr;
                            }
                            if let Err((t, c, m)) = r {
                                let tags = self.it_tags(t, se) | C08;
                                user(|| fail!(self, tags, c, "cloned iterator: {m}"));
                                return;
                            }
                            keep!(x);
                            if end {
                                break;
                            }
                        }
                    }
                }
                7 => {
                    let c = it.count();
                    if c != se.left() {
                        let t = self.it_tags(se.tag, se);
                        fail!(self, t, "count", "count() is {c}, {} items were left", se.left());
                    }
                    return;
                }
                8 => {
                    let x = it.last(way & 3);
                    let left = se.left();
                    if way & 3 != 3 {
                        se.skip_front(left.saturating_sub(1));
                    }
                    chk!(se.front(&cur, sh, x.as_ref()), "last");
                    keep!(x);
                    return;
                }
                9 | 10 => {
                    let mut err = Ok(());
                    let limit = sh.size + 8;
                    let mut calls = 0;
                    let mut f = |x: Item<'i>| {
                        hook(Site::Closure);
                        calls += 1;
                        if calls > limit {
                            std::panic::panic_any(Runaway);
                        }
                        if err.is_ok() {
                            err = if m == 9 { se.front(&cur, sh, Some(&x)) } else { se.backward(&cur, sh, Some(&x)) };
                        }
                        held.push(x);
                    };
                    if m == 9 {
                        it.fold(way % 3, &mut f);
                    } else {
                        it.rfold(&mut f);
                    }
                    chk!(err, "fold");
                    chk!(se.front(&cur, sh, None), "fold");
                    return;
                }
                11 => {
                    it.forget();
                    *forgot = true;
                    return;
                }
                12 | 13 => {
                    let mut err = Ok(());
                    let mut left = arg % 5;
                    let mut calls = 0;
                    let limit = sh.size + 8;
                    let mut f = |x: &Item<'i>| {
                        hook(Site::Closure);
                        calls += 1;
                        if calls > limit {
                            std::panic::panic_any(Runaway);
                        }
                        if err.is_ok() {
                            err = if m == 12 { se.front(&cur, sh, Some(x)) } else { se.backward(&cur, sh, Some(x)) };
                        }
                        let hit = left == 0;
                        left = left.wrapping_sub(1);
                        hit
                    };
                    let x = if m == 12 { it.find(way & 3, &mut f) } else { it.rfind(&mut f) };
                    chk!(err, "find");
                    if x.is_none() {
                        chk!(se.front(&cur, sh, None), "find");
                    }
                    keep!(x);
                }
                14 => break,
                15 => loop {
                    let x = it.next();
                    let end = x.is_none();
                    chk!(se.front(&cur, sh, x.as_ref()), "next");
                    keep!(x);
                    if end {
                        for _ in 0..2 {
                            let x = it.next();
                            chk!(se.front(&cur, sh, x.as_ref()), "next after the end");
                            if back {
                                let x = it.next_back();
                                chk!(se.backward(&cur, sh, x.as_ref()), "next_back after the end");
                            }
                        }
                        break;
                    }
                    user(|| hook(Site::Step));
                },
                _ => {}
            }
            let (lo, hi) = it.hint();
            let left = se.left();
            if lo > left || hi.is_some_and(|h| h < left) {
                let t = self.it_tags(se.tag, se);
                user(|| fail!(self, t, "hint", "size_hint {:?} with {left} items left", (lo, hi)));
            }
            if let Some(e) = it.exact() {
                if e != left {
                    let t = self.it_tags(se.tag, se);
                    user(|| fail!(self, t, "hint", "len() of the iterator is {e} with {left} items left"));
                }
            }
        }
        drop(it);
    }

    fn it_tags(&self, t: u32, se: &Sess) -> u32 {
        let mut t = t;
        if t & C05 != 0 && se.fancy {
            t |= se.tag;
        }
        t | self.c16()
    }

    fn op_iter(&mut self) {
        let op = self.op;
        let s = self.sl(op.s);
        let mut kind = (op.how % NIT as u32) as u8;
        if !self.w.shape.is_map && kind != IT_REF {
            kind = IT_ITER;
        }
        let mut se = Sess::new(s, kind != IT_VALUES, self.w.shape.is_map && kind != IT_KEYS, C04);
        let mut held = vec![];
        let mut forgot = false;
        let me: *mut Self = self;
        let r = self.call(|| {
            let it = s.c.iter(kind);
            let me = unsafe { &mut *me };
            me.drive(it, s, &mut se, &op.moves, &mut held, &mut forgot);
        });
        if let Out::Fault = r {
            self.probe("reader interrupted in a traversal");
        }
        self.audit_alloc();
        // Values read earlier are still the same afterwards.
        for x in &held {
            if let Val::Ref(t) = x.val {
                t.see();
            }
        }
    }

    fn op_pair(&mut self) {
        let op = self.op;
        let (a, b) = (self.sl(op.s), self.sl(op.t));
        let is_map = self.w.shape.is_map;
        let fix = |k: u32| if !is_map && k as u8 % NIT != IT_REF { IT_ITER } else { k as u8 % NIT };
        let (ka, kb) = (fix(op.how), fix(op.how >> 4));
        let mut sa = Sess::new(a, ka != IT_VALUES, is_map && ka != IT_KEYS, C04);
        let mut sb = Sess::new(b, kb != IT_VALUES, is_map && kb != IT_KEYS, C04);
        let sh = self.w.shape;
        let me: *mut Self = self;
        let _ = self.call(|| {
            let me = unsafe { &mut *me };
            let mut ia = a.c.iter(ka);
            let mut ib = b.c.iter(kb);
            let mut dead = [false; 2];
            let rest = std::iter::repeat_n([0u32, 0x8000_0000], sh.size + 1).flatten();
            for mv in op.moves.iter().copied().chain(rest) {
                let first = mv & 0x8000_0000 == 0;
                let (it, se, s) = if first { (&mut ia, &mut sa, a) } else { (&mut ib, &mut sb, b) };
                if dead[usize::from(!first)] {
                    continue;
                }
                user(|| hook(Site::Step));
                let bk = it.both_ends() && mv & 1 == 1;
                let x = if bk { it.next_back() } else { it.next() };
                if x.is_none() {
                    dead[usize::from(!first)] = true;
                }
                let r = if bk { se.backward(&s.m, sh, x.as_ref()) } else { se.front(&s.m, sh, x.as_ref()) };
                if let Err((t, c, m)) = r {
                    user(|| fail!(me, t | C16, c, "two interleaved traversals: {m}"));
                    return;
                }
                if dead[0] && dead[1] {
                    break;
                }
            }
        });
        self.audit_alloc();
    }

    fn op_inter(&mut self) {
        let op = self.op;
        let (a, b) = (self.sl(op.s), self.sl(op.t));
        let common: Vec<usize> = (0..self.w.shape.size).filter(|k| a.m[*k].is_some() && b.m[*k].is_some()).collect();
        if common.is_empty() && a.m.iter().any(|x| x.is_some()) && b.m.iter().any(|x| x.is_some()) {
            self.probe("disjoint non-empty intersection");
        }
        let mut se = Sess::of_keys(common, true, false, C14);
        let mut held = vec![];
        let mut forgot = false;
        let me: *mut Self = self;
        let _ = self.call(|| {
            let it = a.c.inter(&*b.c).unwrap();
            let me = unsafe { &mut *me };
            me.drive(it, a, &mut se, &op.moves, &mut held, &mut forgot);
        });
        self.audit_alloc();
    }

    fn op_iter_mut(&mut self) {
        let op = self.op;
        let kind = (op.how % NIT as u32) as u8;
        let s = self.slm(op.s);
        // The reference model is not touched while the iterator is open.
        let shadow = Slot { c: (self.w.shape.new)(false), m: s.m.clone(), raw: false, tainted: false };
        let mut se = Sess::new(&shadow, kind != IT_VALUES, true, C04);
        let mut held: Vec<Item<'static>> = vec![];
        let mut forgot = false;
        let me: *mut Self = self;
        let r = self.call(|| {
            let it = s.c.iter_mut(kind).unwrap();
            // `held` dies before the container is used again.
            let it: BIter<'static> = unsafe { std::mem::transmute(it) };
            let me = unsafe { &mut *me };
            me.drive(it, &shadow, &mut se, &op.moves, &mut held, &mut forgot);
        });
        let mut ptrs = BTreeSet::new();
        let mut model = shadow.m.clone();
        for (n, x) in held.iter_mut().enumerate() {
            if let Val::Mut(t) = &mut x.val {
                if !ptrs.insert(&**t as *const Tok as usize) {
                    fail!(self, C04, "alias", "one value handed out twice by a mutable traversal");
                }
                let (id, _) = t.see();
                t.pay = op.v.wrapping_add(n as i32);
                if let Some(c) = model.iter_mut().flatten().find(|c| c.0 == id) {
                    c.1 = t.pay;
                }
            }
        }
        drop(held);
        self.audit_alloc();
        match r {
            Out::Done(()) | Out::Fault => s.m = model,
            Out::Broken => self.resync(op.s),
        }
    }

    fn op_into_iter(&mut self) {
        let op = self.op;
        let s = self.slm(op.s);
        let fresh = (self.w.shape.new)(false);
        let c = std::mem::replace(&mut s.c, fresh);
        let shadow = Slot { c: (self.w.shape.new)(false), m: std::mem::replace(&mut s.m, vec![None; self.w.shape.size]), raw: false, tainted: false };
        s.raw = false;
        s.tainted = false;
        let mut se = Sess::new(&shadow, true, self.w.shape.is_map, C04);
        let mut held = vec![];
        let mut forgot = false;
        let me: *mut Self = self;
        let r = self.call(|| {
            let it = c.into_iter();
            let me = unsafe { &mut *me };
            me.drive(it, &shadow, &mut se, &op.moves, &mut held, &mut forgot);
        });
        self.audit_alloc_fixed();
        for x in &held {
            if let Val::Own(t) = &x.val {
                t.see();
            }
        }
        if !held.is_empty() && se.left() > 0 && !forgot {
            self.probe("owning iterator abandoned half way");
        }
        drop(held);
        if forgot {
            self.probe("owning iterator leaked");
            self.forgive(shadow.m.iter().flatten().map(|c| c.0));
            self.forgive_unowned();
        }
        if let Out::Broken = r {
            self.forgive(shadow.m.iter().flatten().map(|c| c.0));
        }
    }

    // ------------------------------------------------------------ clone, compare, format

    fn op_clone(&mut self) {
        let op = self.op;
        let (si, ti) = (op.s, op.t);
        let from = op.code == Code::CloneFrom;
        if from && si == ti {
            return;
        }
        let src = self.sl(si);
        let mark = ledger(|l| l.life.len() as u64);
        let r: Out<Option<Box<dyn Con>>> = if from {
            let t = self.slm(ti);
            self.call(|| {
                t.c.dup_from(&*src.c);
                None
            })
        } else {
            self.call(|| Some(src.c.dup()))
        };
        let log = oplog(|l| l.clones.clone());
        match r {
            Out::Done(c) => {
                self.audit_alloc_fixed();
                let mut m = vec![None; self.w.shape.size];
                let mut map = BTreeMap::new();
                for (a, b) in &log {
                    if map.insert(*a, *b).is_some() {
                        fail!(self, C08 | self.c16(), "clone", "value {a} cloned twice");
                    }
                }
                for (k, cell) in src.m.iter().enumerate() {
                    if let Some((id, pay)) = cell {
                        if self.w.shape.copy {
                            m[k] = *cell;
                            map.remove(id);
                        } else if self.w.shape.is_map {
                            match map.remove(id) {
                                Some(new) => m[k] = Some((new, *pay)),
                                None => {
                                    fail!(self, C08 | self.c16(), "clone", "value of {} was not cloned", self.key(k));
                                }
                            }
                        } else {
                            m[k] = Some((0, 0));
                        }
                    }
                }
                if let Some((id, _)) = map.into_iter().next() {
                    fail!(self, C08 | self.c16(), "clone", "cloned value {id}, which is not in the container");
                }
                match c {
                    None => {
                        let t = self.slm(ti);
                        t.m = m;
                        t.raw = src.raw;
                    }
                    Some(c) if si == ti => {
                        // Judge the copy through a scratch slot.
                        let tmp = Slot { c, m, raw: false, tainted: false };
                        let bad = self.check_copy(&tmp);
                        for b in bad {
                            fail!(self, C08 | self.c16(), "clone", "clone: {b}");
                        }
                        self.discard(tmp.c);
                    }
                    Some(c) => {
                        self.replace(ti, c, m);
                        self.slm(ti).raw = src.raw;
                    }
                }
            }
            Out::Fault => {
                self.probe("clone interrupted");
                if from {
                    let before = self.sl(ti).m.clone();
                    let srcm = src.m.clone();
                    let is_map = self.w.shape.is_map && !self.w.shape.copy;
                    self.settle(ti, C08, |k, o| match o {
                        None => true,
                        Some(x) => o == before[k] || (srcm[k].is_some_and(|s| s.1 == x.1) && (x.0 >= mark || !is_map)),
                    });
                }
            }
            Out::Broken => {
                if from {
                    self.resync(ti)
                }
            }
        }
    }

    fn check_copy(&self, t: &Slot) -> Vec<String> {
        let sh = self.w.shape;
        let mut bad = vec![];
        let live = t.m.iter().flatten().count();
        if t.c.len() != live {
            bad.push(format!("len is {}, expected {live}", t.c.len()));
        }
        let mut se = Sess::new(t, true, sh.is_map, C04);
        let mut it = t.c.iter(IT_ITER);
        loop {
            let x = it.next();
            let end = x.is_none();
            if let Err((_, _, m)) = se.front(&t.m, sh, x.as_ref()) {
                bad.push(m);
                break;
            }
            if end {
                break;
            }
        }
        for k in 0..sh.size {
            if t.c.contains(k) != t.m[k].is_some() || t.c.get(k).map(Tok::see) != if sh.is_map { t.m[k] } else { None } {
                bad.push(format!("lookup of {} differs", self.key(k)));
            }
        }
        bad
    }

    /// A container with the same contents as a slot, built by insertion in another order.
    fn rebuilt(&self, i: u8, how: u32) -> Box<dyn Con> {
        let s = self.sl(i);
        let mut c = (self.w.shape.new)(false);
        let n = s.m.len();
        for j in 0..n {
            // Detours: inserted and removed keys must leave no trace.
            let k = if how & 1 == 0 { n - 1 - j } else { (j * 7 + 3) % n };
            if how & 2 != 0 && s.m[k].is_none() {
                let t = self.tok(1);
                drop(c.insert(k, t));
            }
        }
        for j in 0..n {
            let k = n - 1 - j;
            match s.m[k] {
                Some((_, pay)) => {
                    let t = self.tok(pay);
                    drop(c.insert(k, t));
                }
                None => drop(c.remove(k)),
            }
        }
        c
    }

    fn op_cmp(&mut self) {
        let op = self.op;
        let sh = self.w.shape;
        if op.code != Code::Cmp && !sh.has_ord {
            return;
        }
        let a = self.sl(op.s);
        let rebuilt = if op.how & 0x40 != 0 { Some(self.rebuilt(op.s, op.how >> 8)) } else { None };
        let (bc, bm): (&dyn Con, &Vec<Cell2>) = match &rebuilt {
            Some(c) => (&**c, &a.m),
            None => {
                let b = self.sl(op.t);
                (&*b.c, &b.m)
            }
        };
        let list = |m: &Vec<Cell2>| -> Vec<(usize, i32)> { m.iter().enumerate().filter_map(|(k, c)| c.map(|c| (k, c.1))).collect() };
        let (la, lb) = (list(&a.m), list(bm));
        let equal = la.len() == lb.len() && la.iter().zip(&lb).all(|(x, y)| x.0 == y.0 && (!sh.is_map || (x.1 == y.1 && x.1 != NAN)));
        let raw = a.raw || (rebuilt.is_none() && self.sl(op.t).raw);
        let tags = C09 | self.c16() | if raw { C12 } else { 0 };
        match op.code {
            Code::Cmp => {
                let ne = op.how & 1 != 0;
                if let Out::Done(r) = self.call(|| a.c.equal(bc, ne)) {
                    if r != (equal != ne) {
                        fail!(self, tags, "eq", "{} is {r} for {la:?} and {lb:?}", if ne { "!=" } else { "==" });
                    }
                    self.audit_alloc();
                }
                if equal && !la.is_empty() {
                    self.probe("equal non-empty operands");
                }
            }
            Code::Ord => {
                let which = (op.how & 7) as u8;
                let (partial, total) = compare_lists(sh, &la, &lb);
                if partial.is_none() {
                    self.probe("incomparable operands");
                }
                if let Out::Done(Some(o)) = self.call(|| a.c.compare(bc, which)) {
                    let all = which >= 6;
                    let mut bad = vec![];
                    if (all || which == 0) && o.partial != partial {
                        bad.push(format!("partial_cmp is {:?}, expected {partial:?}", o.partial));
                    }
                    if (all || which == 1) && o.total != Some(total) {
                        bad.push(format!("cmp is {:?}, expected {total:?}", o.total));
                    }
                    let e = [
                        (2, "<", o.lt, partial == Some(Ordering::Less)),
                        (3, "<=", o.le, matches!(partial, Some(Ordering::Less | Ordering::Equal))),
                        (4, ">", o.gt, partial == Some(Ordering::Greater)),
                        (5, ">=", o.ge, matches!(partial, Some(Ordering::Greater | Ordering::Equal))),
                    ];
                    for (w, n, got, want) in e {
                        if (all || which == w) && got != want {
                            bad.push(format!("{n} is {got}, expected {want}"));
                        }
                    }
                    for b in bad {
                        fail!(self, tags, "ord", "{b} for {la:?} and {lb:?}");
                    }
                    self.audit_alloc_fixed();
                }
            }
            _ => {
                if let Out::Done((x, y)) = self.call(|| (a.c.hash(), bc.hash())) {
                    let same = la.len() == lb.len() && la == lb;
                    if same && x != y {
                        fail!(self, tags, "hash", "equal containers {la:?} hash differently");
                    }
                    self.audit_alloc_fixed();
                }
            }
        }
        if let Some(c) = rebuilt {
            self.discard(c);
        }
    }

    /// `max`, `min` and `clamp`: the operands are consumed and one of them comes back.
    /// Containers change places, or one moves elsewhere and leaves a new one behind.
    fn op_move(&mut self) {
        let op = self.op;
        let (i, j) = (op.s, op.t);
        if i != j && op.how & 1 == 0 {
            let (a, b) = (self.slm(i), self.slm(j));
            if op.how & 2 == 0 {
                a.c.swap(&mut *b.c);
            } else {
                let x = b.c.take();
                let mut y = std::mem::replace(&mut a.c, x);
                b.c.swap(&mut *y);
                self.discard(y);
            }
            std::mem::swap(&mut a.m, &mut b.m);
            std::mem::swap(&mut a.raw, &mut b.raw);
            std::mem::swap(&mut a.tainted, &mut b.tainted);
        } else {
            let s = self.slm(i);
            let new = s.c.take();
            let old = std::mem::replace(&mut s.c, new);
            if old.len() != 0 || !old.is_empty() {
                fail!(self, self.base(), "move", "a new container has {} entries", old.len());
            }
            self.discard(old);
        }
    }

    fn op_pick(&mut self) {
        let op = self.op;
        let sh = self.w.shape;
        if !sh.has_ord || op.s == op.t {
            return;
        }
        let third = 3 - op.s - op.t;
        let clamp = op.how % 3 == 2;
        let take = |i: u8| {
            let s = self.slm(i);
            s.raw = false;
            s.tainted = false;
            (std::mem::replace(&mut s.c, (sh.new)(false)), std::mem::replace(&mut s.m, vec![None; sh.size]))
        };
        let (a, am) = take(op.s);
        let mut others = vec![take(op.t)];
        if clamp {
            others.push(take(third));
            let sorted = compare_lists(sh, &contents(&others[0].1), &contents(&others[1].1));
            // The bounds must be in order, by either of the two orders.
            if sorted.1 == Ordering::Greater {
                others.swap(0, 1);
            }
            if !matches!(compare_lists(sh, &contents(&others[0].1), &contents(&others[1].1)).0, Some(Ordering::Less | Ordering::Equal)) {
                let (c, _) = others.remove(0);
                self.discard(c);
            }
        }
        let mut models = vec![am];
        let mut cons = vec![];
        for (c, m) in others {
            cons.push(c);
            models.push(m);
        }
        let lists: Vec<_> = models.iter().map(|m| contents(m)).collect();
        let which = (op.how % 3).min(1) as u8;
        let r = self.call(|| a.pick(cons, which));
        if let Out::Broken = &r {
            self.forgive(models.iter().flatten().flatten().map(|c| c.0).collect::<Vec<_>>().into_iter());
        }
        if let Out::Done(Some(c)) = r {
            self.audit_alloc_fixed();
            let (p0, t0) = compare_lists(sh, &lists[0], &lists[1]);
            // Which of the operands may come back; equal and incomparable operands leave a choice.
            let open = |p: Option<Ordering>, t: Ordering| p.is_none() || t == Ordering::Equal || p == Some(Ordering::Equal);
            let may: Vec<usize> = if models.len() == 3 {
                let (p1, t1) = compare_lists(sh, &lists[0], &lists[2]);
                let mut v = vec![];
                if open(p0, t0) || t0 == Ordering::Less {
                    v.push(1);
                }
                if open(p1, t1) || t1 == Ordering::Greater {
                    v.push(2);
                }
                if (open(p0, t0) || t0 == Ordering::Greater) && (open(p1, t1) || t1 == Ordering::Less) {
                    v.push(0);
                }
                v
            } else if open(p0, t0) {
                vec![0, 1]
            } else {
                vec![usize::from((t0 == Ordering::Less) == (which == 0))]
            };
            let s = self.slm(op.s);
            s.c = c;
            let got = self.observe(op.s);
            let name = ["max", "min", "clamp"][if models.len() == 3 { 2 } else { which as usize }];
            match may.iter().find(|i| models[**i] == got) {
                Some(i) => self.slm(op.s).m = models.swap_remove(*i),
                None => {
                    let got = contents(&got);
                    fail!(self, C09, "ord", "{name} of {lists:?} is {got:?}");
                    self.resync(op.s);
                }
            }
            self.probe("max, min or clamp of two or three containers");
        }
    }

    /// Two more containers of the same type, from construction to the end, in the middle of an operation on others.
    fn bystanders(&mut self) {
        let sh = self.w.shape;
        let tags = self.base() | op_tags(self.op.code, self.base());
        let seed = mix(self.at as u64 ^ (self.op.k as u64) << 20 ^ (self.op.v as u32 as u64) << 32);
        let bad = aside(|| {
            let mut bad = vec![];
            let mut r = crate::rng::Rng(seed);
            let mut a = Slot { c: (sh.new)(false), m: vec![None; sh.size], raw: false, tainted: false };
            for i in 0..8 {
                let k = r.below(sh.size);
                let pay = 100 + i;
                let t = sh.is_map.then(|| Tok::new(pay));
                let cell = t.as_ref().map_or(Some((0, 0)), |t| Some(t.see()));
                let old = a.m[k];
                let ok = match (i % 4, a.c.is_map()) {
                    (3, true) => {
                        drop(t);
                        match a.c.remove(k) {
                            Old::Val(x) => x.map(|x| x.see()) == a.m[k].take(),
                            Old::Flag(_) => false,
                        }
                    }
                    (3, false) => matches!(a.c.remove(k), Old::Flag(b) if b == a.m[k].take().is_some()),
                    _ => {
                        a.m[k] = cell;
                        match a.c.insert(k, t) {
                            Old::Val(x) => x.map(|x| x.see()) == old,
                            Old::Flag(b) => b == old.is_none(),
                        }
                    }
                };
                if !ok {
                    bad.push(format!("insert or remove of {} answers wrongly", self.key(k)));
                }
            }
            let list = |m: &[Cell2]| contents(m);
            let mut b = Slot { c: a.c.dup(), m: a.m.clone(), raw: false, tainted: false };
            let same = |s: &mut Slot, bad: &mut Vec<String>, what: &str| {
                // The copies have ids of their own.
                for k in 0..sh.size {
                    if let (Some(t), Some(c)) = (s.c.get(k), s.m[k].as_mut()) {
                        c.0 = t.see().0;
                    }
                }
                bad.extend(self.check_copy(s).into_iter().map(|m| format!("{what}: {m}")));
            };
            same(&mut b, &mut bad, "clone");
            if !a.c.equal(&*b.c, false) {
                bad.push("a clone is not equal".into());
            }
            if a.c.hash() != b.c.hash() {
                bad.push("a clone hashes differently".into());
            }
            if a.c.compare(&*b.c, 0).is_some_and(|c| c.partial != Some(Ordering::Equal)) {
                bad.push("a clone compares as different".into());
            }
            let out = |c: &dyn Con| {
                let mut s = Sink { out: String::new(), fail_at: 0, calls: 0, failed: false, after: 0 };
                let ok = c.debug(&mut s, 0).is_ok();
                (ok, s.out)
            };
            let (x, y) = (out(&*a.c), out(&*b.c));
            let expect = contents(&a.m).iter().map(|(k, p)| if sh.is_map { format!("{}: {p}", (sh.key_debug)(*k, 0)) } else { (sh.key_debug)(*k, 0) }).collect::<Vec<_>>().join(", ");
            if !x.0 || !y.0 || (!sh.dynamic && x.1 != y.1) || (!sh.dynamic && x.1 != format!("{{{expect}}}")) {
                bad.push(format!("Debug of a container {} and its clone {}, entries {expect}", x.1, y.1));
            }
            if sh.serde.is_some() {
                let mut rec = Rec::default();
                if a.c.ser(SerTo::Rec(&mut rec)).is_none_or(|r| r.is_err()) || rec.items.len() != list(&a.m).len() {
                    bad.push("serialization failed".into());
                }
            }
            if let Some(mut it) = b.c.inter(&*a.c) {
                let mut n = 0;
                while it.next().is_some() {
                    n += 1;
                }
                if n != list(&a.m).len() {
                    bad.push(format!("{n} elements in common with a clone"));
                }
            }
            let mut asked = 0;
            b.c.retain(&mut |k, _| {
                asked += 1;
                k % 2 == 0
            });
            if asked != list(&b.m).len() {
                bad.push(format!("retain asked {asked} times"));
            }
            for k in (1..sh.size).step_by(2) {
                b.m[k] = None;
            }
            same(&mut b, &mut bad, "after retain");
            same(&mut a, &mut bad, "original");
            a.c.dup_from(&*b.c);
            a.m = b.m.clone();
            same(&mut a, &mut bad, "clone_from");
            let mut it = b.c.into_iter();
            let mut n = 0;
            while it.next().is_some() {
                n += 1;
            }
            if n != list(&b.m).len() {
                bad.push(format!("owned iteration over {n} entries"));
            }
            drop(it);
            a.c.clear();
            a.m.fill(None);
            same(&mut a, &mut bad, "after clear");
            bad
        });
        for b in bad {
            fail!(self, tags, "bystander", "another container used inside a callback: {b}");
        }
    }

    fn op_debug(&mut self, inter: bool) {
        let op = self.op;
        let sh = self.w.shape;
        let style = op.how as u8 & 7;
        let a = self.sl(op.s);
        let fail_at = if op.fault.kind == FK::Wire { op.fault.a } else { 0 };
        let mut sink = Sink { out: String::new(), fail_at, calls: 0, failed: false, after: 0 };
        // Traversal order as shown by the container itself (audited separately).
        let mut order = vec![];
        {
            let mut it = if inter { a.c.inter(&*self.sl(op.t).c).unwrap() } else { a.c.iter(IT_ITER) };
            while let Some(x) = it.next() {
                order.push((x.key, if let Val::Ref(t) = x.val { t.pay } else { 0 }));
                if order.len() > sh.size + 8 {
                    break;
                }
            }
        }
        let expect = {
            struct D<'a>(&'a Shape, &'a [(usize, i32)], u8, bool);
            struct Raw(String);
            impl std::fmt::Debug for Raw {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str(&self.0)
                }
            }
            impl std::fmt::Debug for D<'_> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    let style = self.2;
                    let key = |k: usize| Raw(if k < self.0.size { (self.0.key_debug)(k, style) } else { "?".into() });
                    if self.3 {
                        f.debug_list().entries(self.1.iter().map(|e| key(e.0))).finish()
                    } else if self.0.is_map {
                        f.debug_map().entries(self.1.iter().map(|e| (key(e.0), e.1))).finish()
                    } else {
                        f.debug_set().entries(self.1.iter().map(|e| key(e.0))).finish()
                    }
                }
            }
            let d = D(sh, &order, style, inter);
            crate::styled!(style, d, format,)
        };
        let r = if inter {
            let b = self.sl(op.t);
            let it = a.c.inter(&*b.c).unwrap();
            let r = self.call(|| it.debug(&mut sink, style).unwrap());
            let left = it.hint();
            let _ = left;
            r
        } else {
            self.call(|| a.c.debug(&mut sink, style))
        };
        let fired = self.err_fired || sink.failed;
        if sink.failed {
            self.mark_fired();
            self.probe("text sink failed");
        }
        let tags = C18 | self.c16();
        match r {
            Out::Done(Ok(())) if fired => {
                fail!(self, tags, "debug", "formatting reported success although {}", if sink.failed { "the sink failed" } else { "a value's formatting failed" });
            }
            Out::Done(Ok(())) => {
                if sink.out != expect {
                    fail!(self, tags, "debug", "formatted as {:?}, expected {expect:?}", sink.out);
                }
            }
            Out::Done(Err(_)) if !fired => {
                fail!(self, tags, "debug", "formatting failed although nothing went wrong");
            }
            _ => {}
        }
        self.audit_alloc_fixed();
    }

    // ------------------------------------------------------------ bulk and serialization

    /// Last value wins.
    fn model_of(&self, list: &[(usize, u64, i32)]) -> Vec<Cell2> {
        let mut m = vec![None; self.w.shape.size];
        for (k, id, pay) in list {
            m[*k] = Some(if self.w.shape.is_map { (*id, *pay) } else { (0, 0) });
        }
        m
    }

    fn op_collect(&mut self) {
        let op = self.op;
        let sh = self.w.shape;
        let list: Vec<usize> = op.list.iter().map(|k| *k as usize % sh.size).collect();
        let len = list.len();
        let pulled: RefCell<Vec<(usize, u64, i32)>> = RefCell::new(vec![]);
        let use_array = op.how & 16 != 0 && sh.from_array.is_some() && matches!(len, 0 | 1 | 3 | 4 | 7);
        let hint = match op.how & 7 {
            0 => (len, Some(len)),
            1 => (0, None),
            2 => (0, Some(0)),
            3 => (usize::MAX, None),
            4 => (usize::MAX, Some(usize::MAX)),
            5 => (1, Some(1)),
            6 => (1 << 20, Some(1 << 20)),
            _ => (0, Some(len)),
        };
        // Not every source is fused: this one goes on after its end.
        let goes_on = op.how & 32 != 0;
        let (mut polls, mut late) = (0, 0);
        let r = if use_array {
            let r = self.call(|| (sh.from_array.unwrap())(&list).unwrap());
            *pulled.borrow_mut() = list.iter().map(|k| (*k, 0, 0)).collect();
            r
        } else {
            self.call(|| {
                let mut src = || {
                    hook(Site::Source);
                    let i = pulled.borrow().len();
                    if i == len {
                        polls += 1;
                        if goes_on && (2..10).contains(&polls) {
                            late += 1;
                            let t = sh.is_map.then(|| Tok::new(op.v.wrapping_sub(late)));
                            return Some((((op.k as i32 + late) as usize) % sh.size, t));
                        }
                    }
                    let k = *list.get(i)?;
                    let pay = op.v.wrapping_add(i as i32);
                    let t = sh.is_map.then(|| Tok::new(pay));
                    pulled.borrow_mut().push((k, t.as_ref().map_or(0, |t| t.id), pay));
                    Some((k, t))
                };
                (sh.collect)(&mut src, hint)
            })
        };
        let pulled = pulled.into_inner();
        match r {
            Out::Done(c) => {
                if pulled.len() != len {
                    fail!(self, C15, "collect", "{} of {len} items were taken from the source", pulled.len());
                }
                self.audit_alloc_fixed();
                if CX.with(|c| c.alloc_max.get()) > (128 * len).max(1 << 19) {
                    fail!(self, C15, "collect", "a size hint caused a request of {} bytes", CX.with(|c| c.alloc_max.get()));
                }
                let m = self.model_of(&pulled);
                if m.iter().flatten().count() < pulled.len() {
                    self.probe("collected a repeated key");
                }
                self.replace(op.t, c, m);
            }
            Out::Fault => self.probe("collect interrupted"),
            Out::Broken => {}
        }
    }

    fn op_ser_rec(&mut self) {
        let op = self.op;
        let sh = self.w.shape;
        let Some(serde) = &sh.serde else { return };
        let a = self.sl(op.s);
        let mut rec = Rec { fail_at: if op.fault.kind == FK::Wire { op.fault.a } else { 0 }, ..Rec::default() };
        let Out::Done(r) = self.call(|| a.c.ser(SerTo::Rec(&mut rec)).unwrap()) else { return };
        let fired = rec.failed || self.err_fired;
        if rec.failed {
            self.mark_fired();
        }
        self.audit_alloc();
        let c16 = self.c16();
        if let (Ok(()), true) = (&r, fired) {
            fail!(self, C11 | c16, "ser", "serialization reported success although the sink failed");
            return;
        }
        if rec.failed && rec.after_fail > 0 {
            fail!(self, C11, "ser", "serializer called again after it failed");
        }
        for pr in &rec.protocol {
            fail!(self, C10 | C11, "ser", "serializer protocol: {pr}");
        }
        if let Err(e) = &r {
            if !fired {
                fail!(self, C10 | C11, "ser", "serialization failed although nothing went wrong: {e}");
            }
            return;
        }
        let n = a.m.iter().flatten().count();
        let want = if sh.is_map { 'm' } else { 's' };
        if rec.starts != [(want, Some(n))] {
            fail!(self, C10 | c16, "ser", "announced {:?}, {n} entries are present", rec.starts);
        }
        if rec.ended != 1 {
            fail!(self, C10 | C11, "ser", "output ended {} times", rec.ended);
        }
        let mut expect = vec![];
        let mut it = a.c.iter(IT_ITER);
        while let Some(x) = it.next() {
            if x.key < sh.size {
                let v = if let Val::Ref(t) = x.val { Some(t.pay.to_string()) } else { None };
                expect.push(((serde.key_scalar)(x.key), v));
            }
            if expect.len() > sh.size + 8 {
                break;
            }
        }
        if rec.items != expect {
            fail!(self, C10 | c16, "ser", "wrote {:?}, entries are {expect:?}", rec.items);
        }
    }

    fn io_fault(&self) -> (IoFault, usize) {
        let f = self.op.fault;
        (
            match f.kind {
                FK::IoErr => IoFault::Err,
                FK::IoFull => IoFault::Full,
                FK::IoIntr => IoFault::Intr,
                FK::IoCrash => IoFault::Crash,
                _ => IoFault::None,
            },
            f.a as usize,
        )
    }

    fn op_save(&mut self) {
        let op = self.op;
        let sh = self.w.shape;
        let a = self.sl(op.s);
        let fi = op.t as usize % NFILE;
        let snap: Vec<(usize, i32)> = {
            let mut v = vec![];
            let mut it = a.c.iter(IT_ITER);
            while let Some(x) = it.next() {
                v.push((x.key, if let Val::Ref(t) = x.val { t.pay } else { 0 }));
                if v.len() > sh.size + 8 {
                    break;
                }
            }
            v
        };
        if op.how & 4 != 0 && sh.from_raw.is_some() {
            if let Out::Done(Some(raw)) = self.call(|| a.c.raw()) {
                self.files()[fi] = File { bytes: raw.to_le_bytes().to_vec(), fmt: 3, snap: Some(snap) };
            }
            return;
        }
        let Some(serde) = &sh.serde else { return };
        let json = op.how & 1 != 0 && serde.json;
        let (fault, at) = self.io_fault();
        let mut w = SimWriter { buf: vec![], fault, at, chunk: op.c as usize, fired: false, writes_after_fail: 0 };
        let r = self.call(|| a.c.ser(if json { SerTo::Json(&mut w) } else { SerTo::Bin(&mut w) }).unwrap());
        if w.fired {
            self.fault_fired = true;
            self.mark_fired();
        }
        let direct = op.how & 2 != 0;
        let fmt = if json { 2 } else { 1 };
        let complete = matches!(r, Out::Done(Ok(())));
        let crashed = matches!(r, Out::Fault) && fault == IoFault::Crash;
        let failed = w.fired && matches!(fault, IoFault::Err | IoFault::Full);
        let c16 = self.c16();
        match &r {
            Out::Done(Ok(())) if failed || self.err_fired => {
                fail!(self, C11, "save", "saving reported success although the disk failed");
            }
            Out::Done(Err(e)) if !failed && !self.err_fired => {
                fail!(self, C10 | c16, "save", "saving failed although nothing went wrong: {e}");
            }
            _ => {}
        }
        let f = &mut self.files()[fi];
        if complete && !failed {
            *f = File { bytes: w.buf, fmt, snap: Some(snap) };
        } else if direct {
            // A torn overwrite: new head, old tail.
            let mut b = w.buf;
            if b.len() < f.bytes.len() {
                let n = b.len();
                b.extend_from_slice(&f.bytes[n..]);
            }
            if sh.label == "()" && !sh.is_map {
                b.clear();
            }
            *f = File { bytes: b, fmt, snap: None };
            if f.bytes.is_empty() {
                f.fmt = 0;
            }
            self.probe("torn file on disk");
        }
        if crashed {
            self.probe("crash inside a write");
            self.crash(op.how & 8 != 0, op.v as u64);
        }
    }

    fn crash(&mut self, leak: bool, seed: u64) {
        *self.stats.fired.entry("crash".into()).or_default() += 1;
        HASH_SEED.store(mix(HASH_SEED.load(AO::Relaxed) ^ seed), AO::Relaxed);
        for i in 0..NSLOT as u8 {
            let s = self.slm(i);
            let c = std::mem::replace(&mut s.c, (self.w.shape.new)(false));
            let m = std::mem::replace(&mut s.m, vec![None; self.w.shape.size]);
            s.raw = false;
            s.tainted = false;
            if leak {
                std::mem::forget(c);
                self.forgive(m.iter().flatten().map(|c| c.0));
            } else {
                self.discard(c);
            }
        }
    }

    fn op_load(&mut self) {
        let op = self.op;
        let sh = self.w.shape;
        let f = self.files()[op.s as usize % NFILE].clone();
        if f.fmt == 0 {
            return;
        }
        let ti = op.t;
        if f.fmt == 3 {
            let raw = u128::from_le_bytes(f.bytes[..16].try_into().unwrap());
            self.from_raw(ti, raw, f.snap.as_ref());
            return;
        }
        let serde = sh.serde.as_ref().unwrap();
        let (fault, at) = self.io_fault();
        let mut r = SimReader { bytes: &f.bytes, pos: 0, fault, at, chunk: op.c as usize, fired: false, live: true };
        let got = self.call(|| (serde.de)(if f.fmt == 1 { DeFrom::Bin(&mut r) } else { DeFrom::Json(&mut r) }, sh.is_map));
        let big = CX.with(|c| c.alloc_max.get());
        if r.fired {
            self.fault_fired = true;
            self.mark_fired();
        }
        if big > (32 * f.bytes.len()).max(1 << 20) {
            fail!(self, C11, "alloc", "reading {} bytes requested {big} bytes at once", f.bytes.len());
        }
        let multi = CX.with(|c| c.multi.replace(false));
        let mut r2 = SimReader { bytes: &f.bytes, pos: 0, fault, at, chunk: op.c as usize, fired: false, live: false };
        let refr = (serde.reference)(if f.fmt == 1 { DeFrom::Bin(&mut r2) } else { DeFrom::Json(&mut r2) }, sh.is_map);
        CX.with(|c| c.multi.set(multi));
        let born = oplog(|l| std::mem::take(&mut l.born));
        let tags = C11 | if f.snap.is_some() { C10 } else { 0 };
        match got {
            Out::Done(Ok(c)) => {
                if self.err_fired {
                    fail!(self, C11, "load", "reading reported success although an entry failed to decode");
                    self.discard(c);
                    return;
                }
                let Ok(list) = refr else {
                    fail!(self, tags, "load", "reading reported success on an input that cannot be decoded");
                    self.discard(c);
                    return;
                };
                if list.iter().any(|e| e.0 >= sh.size) {
                    // A damaged key outside of the universe: nothing to compare with.
                    self.probe("harmed file decodes to an alien key");
                    self.discard(c);
                    return;
                }
                self.adopt_loaded(ti, c, &list, &born, tags, f.snap.as_deref());
                if f.snap.is_none() {
                    self.probe("harmed file still decodes");
                }
                if list.is_empty() {
                    self.probe("loaded an empty container");
                }
            }
            Out::Done(Err(e)) => {
                if let (Ok(list), false) = (&refr, self.err_fired) {
                    fail!(self, tags, "load", "reading failed ({e}) although the input decodes to {list:?}");
                } else {
                    self.probe("harmed input rejected");
                }
            }
            Out::Fault => self.probe("load interrupted"),
            Out::Broken => {}
        }
    }

    /// A container was built from these delivered entries.
    fn adopt_loaded(&mut self, ti: u8, c: Box<dyn Con>, list: &[(usize, i32)], born: &[u64], tags: u32, snap: Option<&[(usize, i32)]>) {
        let sh = self.w.shape;
        let mut want: Vec<Option<i32>> = vec![None; sh.size];
        let mut dup = false;
        for (k, pay) in list {
            dup |= want[*k].replace(*pay).is_some();
        }
        if dup {
            self.probe("input repeated a key");
        }
        let tags = tags | if dup { C10 } else { 0 };
        let born: BTreeSet<u64> = born.iter().copied().collect();
        let mut m = vec![None; sh.size];
        let mut bad = vec![];
        for k in 0..sh.size {
            if sh.is_map {
                let g = c.get(k).map(Tok::see);
                if g.map(|x| x.1) != want[k] {
                    bad.push(format!("{}: {:?}, input delivers {:?}", self.key(k), g.map(|x| x.1), want[k]));
                }
                if g.is_some_and(|g| !born.contains(&g.0)) {
                    bad.push(format!("{}: not a value that was read", self.key(k)));
                }
                m[k] = g;
            } else {
                let h = c.contains(k);
                if h != want[k].is_some() {
                    bad.push(format!("{}: {h}, input delivers {}", self.key(k), want[k].is_some()));
                }
                m[k] = h.then_some((0, 0));
            }
        }
        if let Some(snap) = snap {
            let a: BTreeMap<usize, i32> = snap.iter().copied().collect();
            let b: BTreeMap<usize, i32> = want.iter().enumerate().filter_map(|(k, p)| p.map(|p| (k, p))).collect();
            if a != b || snap.len() != list.len() {
                fail!(self, C10, "load", "the file delivers {list:?}, the container saved held {snap:?}");
            }
            let order = list.iter().map(|x| x.0).collect::<Vec<_>>();
            if !sh.dynamic && order != snap.iter().map(|x| x.0).collect::<Vec<_>>() {
                fail!(self, C10, "load", "entries were written in another order than traversal");
            }
        }
        if !bad.is_empty() {
            bad.truncate(4);
            fail!(self, tags | self.base(), "load", "loaded container: {}", bad.join("; "));
        }
        self.replace(ti, c, m);
    }

    fn op_script(&mut self) {
        let op = self.op;
        let sh = self.w.shape;
        let Some(serde) = &sh.serde else { return };
        let sized = !(serde.key_bytes)(0).is_empty();
        let mut bad_at = None;
        let mut list = vec![];
        let items = op
            .list
            .iter()
            .enumerate()
            .map(|(i, k)| {
                let pay = op.v.wrapping_add(i as i32);
                if *k == 9999 && sized {
                    bad_at.get_or_insert(i);
                    (vec![], pay)
                } else {
                    let k = *k as usize % sh.size;
                    list.push((k, if sh.is_map { pay } else { 0 }));
                    ((serde.key_bytes)(k), pay)
                }
            })
            .collect::<Vec<_>>();
        let n = items.len();
        let own = if sh.is_map { crate::io::Shape::Map } else { crate::io::Shape::Seq };
        let shape = match op.how & 3 {
            0 => own,
            1 => crate::io::Shape::Unit,
            2 => crate::io::Shape::Str,
            _ if sh.is_map => crate::io::Shape::Seq,
            _ => crate::io::Shape::Map,
        };
        let hint = match op.c & 7 {
            0 => Some(n),
            1 => None,
            2 => Some(0),
            3 => Some(usize::MAX),
            4 => Some(1 << 40),
            5 => Some(1 << 24),
            _ => Some(n + 1),
        };
        let mut sc = Script {
            items,
            hint,
            fail_at: if op.fault.kind == FK::Wire { op.fault.a } else { 0 },
            shape,
            calls: 0,
            failed: false,
            after_fail: 0,
            pos: 0,
            ended: false,
            used: 0,
        };
        let r = self.call(|| (serde.de)(DeFrom::Script(&mut sc), sh.is_map));
        let big = CX.with(|c| c.alloc_max.get());
        let born = oplog(|l| std::mem::take(&mut l.born));
        if sc.failed {
            self.fault_fired = true;
            self.mark_fired();
        }
        if big > (128 * n).max(1 << 19) {
            fail!(self, C11, "alloc", "a claimed size caused a request of {big} bytes");
        }
        let bad = bad_at.is_some() && sc.pos >= bad_at.unwrap();
        match r {
            Out::Done(Ok(c)) => {
                let proper = shape == own;
                if proper && (sc.failed || self.err_fired || bad) {
                    fail!(self, C11, "de", "deserialization reported success although the input failed");
                    self.discard(c);
                    return;
                }
                if proper && !sc.ended {
                    fail!(self, C11, "de", "deserialization stopped after {} of {n} entries and reported success", sc.pos);
                }
                let l = if proper { list } else { vec![] };
                self.adopt_loaded(op.t, c, &l, &born, C11 | C10, None);
            }
            Out::Done(Err(e)) => {
                if shape == own && !sc.failed && !self.err_fired && !bad {
                    fail!(self, C11 | C10, "de", "deserialization failed although nothing went wrong: {e}");
                }
            }
            Out::Fault => self.probe("deserialization interrupted"),
            Out::Broken => {}
        }
    }

    fn op_raw(&mut self) {
        let op = self.op;
        if self.w.shape.from_raw.is_none() {
            return;
        }
        if op.code == Code::FromRaw {
            let bits = if self.w.shape.raw_bits < 128 { op.bits & ((1 << self.w.shape.raw_bits) - 1) } else { op.bits };
            if bits >> (self.w.shape.size - 1) > 1 {
                self.probe("raw value with stray bits");
            }
            self.from_raw(op.t, bits, None);
            return;
        }
        let a = self.sl(op.s);
        let mut want = 0u128;
        for (k, c) in a.m.iter().enumerate() {
            if c.is_some() {
                want |= 1 << k;
            }
        }
        if let Out::Done(Some(raw)) = self.call(|| a.c.raw()) {
            if raw != want {
                fail!(self, C12, "raw", "as_raw is {raw:#x}, members give {want:#x}");
            }
            self.audit_alloc();
            let snap: Vec<(usize, i32)> = a.m.iter().enumerate().filter(|c| c.1.is_some()).map(|c| (c.0, 0)).collect();
            self.from_raw(op.t, raw, Some(&snap));
            if op.s != op.t && !self.w.stop.load(AO::Relaxed) {
                let t = self.sl(op.t);
                let eq = self.sl(op.s).c.equal(&*t.c, false);
                if !eq {
                    fail!(self, C12, "raw", "set restored from its raw value is not equal to the original");
                }
            }
        }
    }

    fn from_raw(&mut self, ti: u8, raw: u128, snap: Option<&Vec<(usize, i32)>>) {
        let sh = self.w.shape;
        let Some(f) = sh.from_raw else { return };
        let Out::Done(c) = self.call(|| f(raw)) else { return };
        self.audit_alloc();
        let m: Vec<Cell2> = (0..sh.size).map(|k| (raw >> k & 1 == 1).then_some((0, 0))).collect();
        if let Some(s) = snap {
            let want: BTreeSet<usize> = s.iter().map(|x| x.0).collect();
            let have: BTreeSet<usize> = m.iter().enumerate().filter(|c| c.1.is_some()).map(|c| c.0).collect();
            if want != have {
                fail!(self, C12, "raw", "raw snapshot {raw:#x} holds {have:?}, the set saved was {want:?}");
            }
        }
        self.replace(ti, c, m);
        self.slm(ti).raw = true;
    }

    fn op_refill(&mut self) {
        let op = self.op;
        let sh = self.w.shape;
        let si = op.s;
        let s = self.slm(si);
        let keys: Vec<usize> = (0..sh.size).filter(|k| s.m[*k].is_some()).collect();
        let mut toks: Vec<(usize, Option<Tok>)> = vec![];
        for (i, k) in keys.iter().enumerate() {
            toks.push((*k, self.tok(op.v.wrapping_add(i as i32))));
        }
        if op.how & 1 != 0 {
            toks.reverse();
        }
        let m: Vec<Cell2> = {
            let mut m = vec![None; sh.size];
            for (k, t) in &toks {
                m[*k] = Some(t.as_ref().map_or((0, 0), |t| (t.id, t.pay)));
            }
            m
        };
        let mut outs = vec![];
        outs.reserve(toks.len());
        let r = self.call(|| {
            s.c.clear();
            CX.with(|c| c.alloc_outage.set(true));
            for (k, t) in toks {
                let o = s.c.insert(k, t);
                user(|| outs.push(o));
            }
        });
        match r {
            Out::Done(()) => {
                for o in &outs {
                    if !matches!(o, Old::Val(None) | Old::Flag(true)) {
                        fail!(self, C13 | self.base(), "return", "insert after clear reports a previous value");
                    }
                }
                s.m = m;
                if keys.len() > 3 && sh.dynamic {
                    self.probe("refilled during an outage");
                }
            }
            Out::Fault => {
                fail!(self, C13, "alloc", "refilling a cleared container of {} entries needed memory", keys.len());
                let obs = self.observe(si);
                s.m = obs;
            }
            Out::Broken => self.resync(si),
        }
    }
}

/// The order of two contents: as values define it, and as their total order defines it.
fn compare_lists(sh: &Shape, la: &[(usize, i32)], lb: &[(usize, i32)]) -> (Option<Ordering>, Ordering) {
    let (mut partial, mut total) = (Some(Ordering::Equal), Ordering::Equal);
    for i in 0.. {
        let (p, t) = match (la.get(i), lb.get(i)) {
            (None, None) => break,
            (None, _) => (Some(Ordering::Less), Ordering::Less),
            (_, None) => (Some(Ordering::Greater), Ordering::Greater),
            (Some(x), Some(y)) => match x.0.cmp(&y.0) {
                Ordering::Equal if sh.is_map => (pay_cmp(x.1, y.1), x.1.cmp(&y.1)),
                c => (Some(c), c),
            },
        };
        if partial == Some(Ordering::Equal) {
            partial = p;
        }
        total = total.then(t);
        if partial != Some(Ordering::Equal) && total != Ordering::Equal {
            break;
        }
    }
    (partial, total)
}

fn contents(m: &[Cell2]) -> Vec<(usize, i32)> {
    m.iter().enumerate().filter_map(|(k, c)| c.map(|c| (k, c.1))).collect()
}

fn io_tags(c: Code) -> u32 {
    match c {
        Code::Load | Code::ScriptDe | Code::Save | Code::SerRec => C11,
        _ => 0,
    }
}

fn pres(c: Cell2) -> &'static str {
    if c.is_some() {
        "present"
    } else {
        "absent"
    }
}

const KIND_NAMES: [&str; 4] = ["iter", "keys", "values", "&"];

impl World<'_> {
    fn multi(&self) -> bool {
        self.multi.load(AO::Relaxed)
    }
    fn key_name(&self, k: usize) -> String {
        if k < self.shape.size {
            (self.shape.key_debug)(k, 0)
        } else {
            format!("unknown key {k}")
        }
    }
}

type StepErr = (u32, &'static str, String);

impl Sess {
    fn new(s: &Slot, has_key: bool, has_val: bool, tag: u32) -> Sess {
        let mut se = Sess::of_keys((0..s.m.len()).filter(|k| s.m[*k].is_some()).collect(), has_key, has_val, tag);
        if !has_key {
            se.home = se.keys.iter().map(|k| (s.m[*k].unwrap().0, *k)).collect();
            se.home.sort_unstable();
        }
        se
    }
    fn of_keys(keys: Vec<usize>, has_key: bool, has_val: bool, tag: u32) -> Sess {
        let back = keys.len();
        let seen = vec![false; back];
        Sess { keys, front: 0, back, seen, home: vec![], has_key, has_val, fancy: false, tag }
    }
    fn left(&self) -> usize {
        self.back - self.front
    }
    fn skip_front(&mut self, n: usize) {
        self.front = (self.front + n).min(self.back);
    }
    fn skip_back(&mut self, n: usize) {
        self.back -= n.min(self.left());
    }
    fn front(&mut self, s: &[Cell2], sh: &Shape, x: Option<&Item<'_>>) -> Result<(), StepErr> {
        user(|| {
            if self.front == self.back {
                return self.at_end(sh, x);
            }
            let want = self.keys[self.front];
            self.front += 1;
            self.judge(s, sh, x, want)
        })
    }
    fn backward(&mut self, s: &[Cell2], sh: &Shape, x: Option<&Item<'_>>) -> Result<(), StepErr> {
        user(|| {
            if self.front == self.back {
                return self.at_end(sh, x);
            }
            self.back -= 1;
            let want = self.keys[self.back];
            self.judge(s, sh, x, want)
        })
    }
    fn at_end(&self, sh: &Shape, x: Option<&Item<'_>>) -> Result<(), StepErr> {
        match x {
            None => Ok(()),
            Some(x) => Err((self.tag, "extra", format!("yields {} after every entry was visited", name(sh, x.key)))),
        }
    }
    fn judge(&mut self, s: &[Cell2], sh: &Shape, x: Option<&Item<'_>>, want: usize) -> Result<(), StepErr> {
        let kd = |k: usize| name(sh, k);
        let Some(x) = x else {
            return Err((self.tag, "missing", format!("ends early, {} is still due", kd(want))));
        };
        let val = match &x.val {
            Val::None => None,
            Val::Ref(t) => Some(t.see()),
            Val::Mut(t) => Some(t.see()),
            Val::Own(t) => Some(t.see()),
        };
        let key = if self.has_key {
            x.key
        } else {
            match val.and_then(|v| self.home.binary_search_by_key(&v.0, |h| h.0).ok()) {
                Some(i) => self.home[i].1,
                None => return Err((self.tag, "extra", format!("yields value {val:?}, which no entry holds"))),
            }
        };
        let Ok(at) = self.keys.binary_search(&key) else {
            return Err((self.tag, "extra", format!("yields {}, which is not present", kd(key))));
        };
        if self.has_val && val != s[key] {
            return Err((self.tag, "value", format!("yields {val:?} for {}, expected {:?}", kd(key), s[key])));
        }
        if std::mem::replace(&mut self.seen[at], true) {
            return Err((self.tag, "twice", format!("yields {} twice", kd(key))));
        }
        if sh.ranks[key] != sh.ranks[want] {
            return Err((C05, "order", format!("yields {} where {} is due", kd(key), kd(want))));
        }
        Ok(())
    }
}

fn name(sh: &Shape, k: usize) -> String {
    if k < sh.size {
        (sh.key_debug)(k, 0)
    } else if k == NOKEY {
        "a value".into()
    } else {
        "an unknown key".into()
    }
}

pub fn panic_text(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if e.is::<SimFault>() {
        "injected fault".into()
    } else {
        "?".into()
    }
}

/// Execute one plan. `want`: property bits that end the run when violated.
pub fn run(plan: &Plan, shape: &Shape, want: u32) -> RunOut {
    HASH_SEED.store(plan.hash_seed, AO::Relaxed);
    HASH_CTR.store(0, AO::Relaxed);
    ledger(|l| *l = Ledger::default());
    CX.with(|c| {
        c.reset_op();
        c.ticks.set(0);
        c.accesses.set(0);
        c.multi.set(false);
    });
    let slot = || UnsafeCell::new(Slot { c: (shape.new)(false), m: vec![None; shape.size], raw: false, tainted: false });
    let multi = plan.clients.len() > 1;
    let w = World {
        shape,
        slots: [slot(), slot(), slot()],
        files: UnsafeCell::new(vec![File::default(); NFILE]),
        viols: Mutex::new(vec![]),
        want,
        multi: false.into(),
        quiet: plan.quiet,
        order: Mutex::new(vec![]),
        stop: Default::default(),
    };
    let mut stats = Stats::new();
    let mut log = mix(plan.hash_seed);
    let mut trail = 0;
    static IDLE: Op = Op {
        code: Code::Pause,
        s: 0,
        t: 0,
        k: 0,
        v: 0,
        how: 0,
        c: 0,
        bits: 0,
        list: vec![],
        moves: vec![],
        fault: Fault { kind: FK::None, a: 0, b: 0 },
        nest: None,
    };
    let client = |me: usize| Cl { w: &w, me, at: 0, op: &IDLE, stats: Stats::new(), log: 0, fault_fired: false, err_fired: false, auditing: false };
    if !plan.setup.is_empty() {
        let mut c = client(SETUP);
        c.run(&plan.setup);
        stats.add(&c.stats);
        log = mix(log ^ c.log);
    }
    w.multi.store(multi, AO::Relaxed);
    if multi && !shape.shared {
        let mut c = client(0);
        fail!(c, C16, "share", "the container cannot be shared between threads");
    }
    if !multi {
        let mut c = client(0);
        if let Some(ops) = plan.clients.first() {
            c.run(ops);
        }
        stats.add(&c.stats);
        stats.ticks += CX.with(|c| c.ticks.get());
        log = mix(log ^ c.log);
    } else {
        SCHED.start(plan.clients.len(), plan.choices.clone(), plan.mask, plan.gaps.clone());
        std::thread::scope(|sc| {
            let hs: Vec<_> = plan
                .clients
                .iter()
                .enumerate()
                .map(|(i, ops)| {
                    let client = &client;
                    sc.spawn(move || {
                        CX.with(|c| {
                            c.reset_op();
                            c.client.set(i);
                            c.multi.set(true);
                            c.one_of_many.set(true);
                            c.stack.set(crate::instr::own_stack());
                        });
                        SCHED.enter(i);
                        CX.with(|c| c.gap.set(SCHED.next_gap()));
                        let mut c = client(i);
                        let r = catch_unwind(AssertUnwindSafe(|| c.run(ops)));
                        CX.with(|c| c.multi.set(false));
                        CX.with(|c| c.one_of_many.set(false));
                        if let Err(e) = r {
                            eprintln!("harness: client {i} panicked: {}", panic_text(&*e));
                            std::process::exit(2);
                        }
                        c.stats.ticks = CX.with(|c| c.ticks.get());
                        c.stats.accesses = CX.with(|c| c.accesses.get());
                        SCHED.leave(i);
                        (c.stats, c.log)
                    })
                })
                .collect();
            SCHED.go();
            for h in hs {
                let (s, l) = h.join().unwrap();
                stats.add(&s);
                log = mix(log ^ l);
            }
        });
        let s = SCHED.finish();
        if s.stuck {
            eprintln!("harness: scheduler stuck");
            std::process::exit(2);
        }
        trail = s.trail;
        stats.switches += s.switches;
        stats.forced += s.forced;
        for i in 0..NSITES {
            stats.preempt[i] += s.preempt[i];
        }
        log = mix(log ^ trail);
    }
    w.multi.store(false, AO::Relaxed);
    // The end: every container goes, and every value with it.
    let mut c = client(0);
    c.op = &IDLE;
    c.at = usize::MAX;
    if !w.stop.load(AO::Relaxed) && !plan.quiet {
        for i in 0..NSLOT as u8 {
            c.replace(i, (shape.new)(false), vec![None; shape.size]);
        }
        c.audit_ledger();
    } else {
        for i in 0..NSLOT as u8 {
            let s = c.slm(i);
            std::mem::forget(std::mem::replace(&mut s.c, (shape.new)(false)));
        }
    }
    let viols = std::mem::take(&mut *w.viols.lock().unwrap_or_else(|e| e.into_inner()));
    log = mix(log ^ viols.len() as u64);
    let nontrivial = stats.ops > 1;
    let order = std::mem::take(&mut *w.order.lock().unwrap_or_else(|e| e.into_inner()));
    RunOut { viols, stats, log, trail, nontrivial, order }
}
