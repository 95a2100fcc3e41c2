//! The seams: per-thread call context (fault injection, allocation control), the value ledger,
//! the hash-seed source and the baton scheduler.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Condvar, Mutex, MutexGuard};

/// Payload of every injected panic. Any other panic is the code's own.
pub struct SimFault;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Site {
    Closure = 0,
    Clone,
    Drop,
    Eq,
    Cmp,
    Hash,
    Debug,
    Ser,
    De,
    Default,
    Source,
    KeySer,
    KeyDe,
    Step,
    Write,
    Read,
    /// An atomic access of the code under test.
    Atomic,
    /// A plain access of the code under test to memory that others may see.
    Memory,
}
pub const NSITES: usize = 18;
pub const SITE_NAMES: [&str; NSITES] = [
    "closure", "clone", "drop", "eq", "cmp", "hash", "debug", "ser", "de", "default", "source", "keyser", "keyde", "step",
    "write", "read", "atomic", "memory",
];

pub const NO_SITE: u8 = 255;

pub struct Cx {
    // allocation control
    pub armed: Cell<bool>,
    pub alloc_n: Cell<u32>,
    pub alloc_max: Cell<usize>,
    pub alloc_bytes: Cell<usize>,
    /// Refuse the n-th request (1-based), 0: never.
    pub alloc_fail_at: Cell<u32>,
    pub alloc_outage: Cell<bool>,
    pub alloc_refused: Cell<u32>,
    // callbacks
    pub counts: [Cell<u32>; NSITES],
    pub fsite: Cell<u8>,
    pub fnth: Cell<u32>,
    pub fired: Cell<bool>,
    /// A user callback is asked to return an error (n-th Debug/Ser/De call), 0: never.
    pub err_site: Cell<u8>,
    pub err_nth: Cell<u32>,
    pub err_fired: Cell<bool>,
    /// Client index, or NONE outside of a multi-client run.
    pub client: Cell<usize>,
    pub multi: Cell<bool>,
    /// This thread is one of several clients.
    pub one_of_many: Cell<bool>,
    /// Where the stack of this client is, the accesses it may make before the next preemption (0: no limit), those
    /// it made, and how often it looked at a lock or an atomic in vain.
    pub stack: Cell<(usize, usize)>,
    pub gap: Cell<u32>,
    pub accesses: Cell<u64>,
    pub spin: Cell<u32>,
    /// Checking, not operating: accesses do not count.
    pub auditing: Cell<bool>,
    pub waits: Cell<u32>,
    pub nest_site: Cell<u8>,
    pub nest_nth: Cell<u32>,
    /// Logical time: callbacks and iterator steps seen by this client.
    pub ticks: Cell<u64>,
}

impl Cx {
    const fn new() -> Self {
        Cx {
            armed: Cell::new(false),
            alloc_n: Cell::new(0),
            alloc_max: Cell::new(0),
            alloc_bytes: Cell::new(0),
            alloc_fail_at: Cell::new(0),
            alloc_outage: Cell::new(false),
            alloc_refused: Cell::new(0),
            counts: [const { Cell::new(0) }; NSITES],
            fsite: Cell::new(NO_SITE),
            fnth: Cell::new(0),
            fired: Cell::new(false),
            err_site: Cell::new(NO_SITE),
            err_nth: Cell::new(0),
            err_fired: Cell::new(false),
            client: Cell::new(0),
            multi: Cell::new(false),
            one_of_many: Cell::new(false),
            stack: Cell::new((0, 0)),
            gap: Cell::new(0),
            accesses: Cell::new(0),
            spin: Cell::new(0),
            auditing: Cell::new(false),
            waits: Cell::new(0),
            nest_site: Cell::new(NO_SITE),
            nest_nth: Cell::new(0),
            ticks: Cell::new(0),
        }
    }

    /// Start of an operation: counters to zero, no fault.
    pub fn reset_op(&self) {
        self.armed.set(false);
        self.alloc_n.set(0);
        self.alloc_max.set(0);
        self.alloc_bytes.set(0);
        self.alloc_fail_at.set(0);
        self.alloc_outage.set(false);
        self.alloc_refused.set(0);
        for c in &self.counts {
            c.set(0);
        }
        self.fsite.set(NO_SITE);
        self.fnth.set(0);
        self.fired.set(false);
        self.err_site.set(NO_SITE);
        self.err_nth.set(0);
        self.err_fired.set(false);
        self.spin.set(0);
        self.auditing.set(false);
        self.waits.set(0);
    }

    /// End of the faulty part of an operation.
    pub fn disarm(&self) {
        self.armed.set(false);
        self.alloc_fail_at.set(0);
        self.alloc_outage.set(false);
        self.fsite.set(NO_SITE);
        self.err_site.set(NO_SITE);
    }

    pub fn count(&self, s: Site) -> u32 {
        self.counts[s as usize].get()
    }
}

thread_local! {
    pub static CX: Cx = const { Cx::new() };
    static OPLOG: RefCell<OpLog> = const { RefCell::new(OpLog { clones: Vec::new(), cloning: 0, born: Vec::new() }) };
    static NESTED: RefCell<Option<Nested>> = const { RefCell::new(None) };
}

/// What value callbacks did during the current operation of this client.
pub struct OpLog {
    /// (source id, new id) of clones, in order.
    pub clones: Vec<(u64, u64)>,
    /// The value whose clone was asked for last.
    pub cloning: u64,
    /// Ids of deserialized values.
    pub born: Vec<u64>,
}

pub fn oplog<R>(f: impl FnOnce(&mut OpLog) -> R) -> R {
    user(|| OPLOG.with(|l| f(&mut l.borrow_mut())))
}

type Nested = Box<dyn FnMut()>;

/// Run other operations in the middle of an operation: its counters, faults and log are as before afterwards.
pub fn aside<R>(f: impl FnOnce() -> R) -> R {
    struct Back {
        counts: [u32; NSITES],
        alloc: (u32, usize, usize, u32, bool, u32),
        sites: (u8, u32, bool, u8, u32, bool),
        multi: bool,
        log: Option<OpLog>,
    }
    impl Drop for Back {
        fn drop(&mut self) {
            CX.with(|c| {
                for (a, b) in c.counts.iter().zip(self.counts) {
                    a.set(b);
                }
                let (n, max, bytes, fail_at, outage, refused) = self.alloc;
                c.alloc_n.set(n);
                c.alloc_max.set(max);
                c.alloc_bytes.set(bytes);
                c.alloc_fail_at.set(fail_at);
                c.alloc_outage.set(outage);
                c.alloc_refused.set(refused);
                let (fsite, fnth, fired, esite, enth, efired) = self.sites;
                c.fsite.set(fsite);
                c.fnth.set(fnth);
                c.fired.set(fired);
                c.err_site.set(esite);
                c.err_nth.set(enth);
                c.err_fired.set(efired);
                c.multi.set(self.multi);
            });
            let log = self.log.take().unwrap();
            oplog(|l| *l = log);
        }
    }
    let _back = CX.with(|c| {
        let b = Back {
            counts: std::array::from_fn(|i| c.counts[i].get()),
            alloc: (c.alloc_n.get(), c.alloc_max.get(), c.alloc_bytes.get(), c.alloc_fail_at.get(), c.alloc_outage.get(), c.alloc_refused.get()),
            sites: (c.fsite.get(), c.fnth.get(), c.fired.get(), c.err_site.get(), c.err_nth.get(), c.err_fired.get()),
            multi: c.multi.replace(false),
            log: Some(oplog(|l| std::mem::replace(l, OpLog { clones: vec![], cloning: 0, born: vec![] }))),
        };
        c.reset_op();
        b
    });
    user(f)
}

/// Run `f` inside the `nth` callback of `site`.
pub fn set_nested(site: u8, nth: u32, f: Nested) {
    CX.with(|c| {
        c.nest_site.set(site);
        c.nest_nth.set(nth);
    });
    NESTED.with(|n| *n.borrow_mut() = Some(f));
}
pub fn clear_nested() -> bool {
    CX.with(|c| c.nest_site.set(NO_SITE));
    NESTED.with(|n| n.borrow_mut().take()).is_none()
}

struct Arm(bool);
impl Drop for Arm {
    #[inline]
    fn drop(&mut self) {
        CX.with(|c| c.armed.set(self.0));
    }
}

/// Run code under test: allocations are counted and may be refused.
#[inline]
pub fn real<R>(f: impl FnOnce() -> R) -> R {
    let _g = CX.with(|c| Arm(c.armed.replace(true)));
    f()
}

/// Run simulator or user code inside code under test: the allocator is healthy.
#[inline]
pub fn user<R>(f: impl FnOnce() -> R) -> R {
    let _g = CX.with(|c| Arm(c.armed.replace(false)));
    f()
}

// ---------------------------------------------------------------- allocator

pub struct SimAlloc;

#[inline]
fn admit(size: usize) -> bool {
    CX.with(|c| {
        if !c.armed.get() {
            return true;
        }
        let n = c.alloc_n.get() + 1;
        c.alloc_n.set(n);
        c.alloc_bytes.set(c.alloc_bytes.get().saturating_add(size));
        if size > c.alloc_max.get() {
            c.alloc_max.set(size);
        }
        if c.alloc_outage.get() || c.alloc_fail_at.get() == n {
            c.alloc_refused.set(c.alloc_refused.get() + 1);
            return false;
        }
        true
    })
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !admit(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !admit(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !admit(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

pub fn alloc_error(_: Layout) {
    CX.with(|c| {
        c.armed.set(false);
        c.fired.set(true);
    });
    std::panic::panic_any(SimFault);
}

// ---------------------------------------------------------------- hash seeds

pub static HASH_SEED: AtomicU64 = AtomicU64::new(1);
pub static HASH_CTR: AtomicU64 = AtomicU64::new(0);

/// The next hash seed a container is given.
pub fn next_hash_seed() -> usize {
    let s = HASH_SEED.load(Ordering::Relaxed);
    let c = HASH_CTR.fetch_add(1, Ordering::Relaxed);
    crate::rng::mix(s ^ c.wrapping_mul(0x9e37_79b9_7f4a_7c15)) as usize
}

// ---------------------------------------------------------------- callbacks

/// Every callback from code under test into "user code" passes here.
#[inline]
pub fn hook(site: Site) {
    CX.with(|c| {
        let was = c.armed.replace(false);
        let i = site as usize;
        let n = c.counts[i].get() + 1;
        c.counts[i].set(n);
        c.ticks.set(c.ticks.get() + 1);
        c.spin.set(0);
        c.waits.set(0);
        if c.multi.get() {
            yield_point(site);
        }
        if c.nest_site.get() == i as u8 && c.nest_nth.get() == n {
            c.nest_site.set(NO_SITE);
            if let Some(mut f) = NESTED.with(|n| n.borrow_mut().take()) {
                f();
            }
        }
        if c.fsite.get() == i as u8 && c.fnth.get() == n && !std::thread::panicking() {
            c.fired.set(true);
            c.fsite.set(NO_SITE);
            c.armed.set(was);
            let _g = Arm(c.armed.replace(false));
            std::panic::panic_any(SimFault);
        }
        c.armed.set(was);
    })
}

/// Is this callback (already counted by [`hook`]) to report an error?
#[inline]
pub fn wants_err(site: Site) -> bool {
    CX.with(|c| {
        let hit = c.err_site.get() == site as u8 && c.err_nth.get() == c.counts[site as usize].get();
        if hit {
            c.err_fired.set(true);
        }
        hit
    })
}

// ---------------------------------------------------------------- value ledger

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Life {
    Live,
    Dropped,
    /// Deliberately leaked by the simulation (forgotten iterator, crash, destructor panic).
    Forgiven,
}

#[derive(Default)]
pub struct Ledger {
    pub life: Vec<Life>,
    pub live: usize,
    pub errors: Vec<(&'static str, u64)>,
}

pub static LEDGER: Mutex<Option<Ledger>> = Mutex::new(None);

pub fn ledger<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    user(|| {
        let mut g = LEDGER.lock().unwrap_or_else(|e| e.into_inner());
        f(g.get_or_insert_with(Ledger::default))
    })
}

const LIVE: u32 = 0x600d_cafe;
/// Marks the bytes of a value without destructor ([`crate::vals::Cop`]), which the ledger does not follow.
pub const FREE: u32 = 0x00c0_b1e5;
const DEAD: u32 = 0xdead_dead;

/// The value stored in maps: an identity, a payload, and a canary against use after drop.
#[repr(C)]
pub struct Tok {
    pub id: u64,
    pub pay: i32,
    canary: u32,
}

/// A payload that is incomparable with everything, itself included.
pub const NAN: i32 = i32::MIN;

impl Tok {
    pub fn new(pay: i32) -> Tok {
        ledger(|l| {
            let id = l.life.len() as u64;
            l.life.push(Life::Live);
            l.live += 1;
            Tok { id, pay, canary: LIVE ^ id as u32 }
        })
    }

    #[inline]
    fn is_free(&self) -> bool {
        self.canary == FREE ^ self.id as u32
    }

    /// Identity and payload of a value somebody can read; reading a dead value is an error.
    pub fn see(&self) -> (u64, i32) {
        self.check("use of a dead or corrupt value");
        (self.id, self.pay)
    }

    #[inline]
    fn check(&self, what: &'static str) -> bool {
        if self.is_free() {
            return true;
        }
        ledger(|l| {
            let ok = self.canary == LIVE ^ self.id as u32 && l.life.get(self.id as usize) != Some(&Life::Dropped) && (self.id as usize) < l.life.len();
            if !ok {
                l.errors.push((what, self.id));
            }
            ok
        })
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        if self.is_free() {
            return;
        }
        let ok = ledger(|l| {
            let id = self.id as usize;
            if self.canary != LIVE ^ self.id as u32 || id >= l.life.len() {
                l.errors.push(("drop of a corrupt or already dropped value", self.id));
                return false;
            }
            match l.life[id] {
                Life::Live => {
                    l.life[id] = Life::Dropped;
                    l.live -= 1;
                    true
                }
                Life::Forgiven => {
                    l.life[id] = Life::Dropped;
                    true
                }
                Life::Dropped => {
                    l.errors.push(("value dropped twice", self.id));
                    false
                }
            }
        });
        self.canary = DEAD;
        if ok {
            hook(Site::Drop);
        }
    }
}

impl Clone for Tok {
    fn clone(&self) -> Tok {
        self.check("clone of a dead value");
        oplog(|l| l.cloning = self.id);
        hook(Site::Clone);
        let t = Tok::new(self.pay);
        oplog(|l| l.clones.push((self.id, t.id)));
        t
    }
}

impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.check("comparison of a dead value");
        o.check("comparison of a dead value");
        hook(Site::Eq);
        self.pay == o.pay && self.pay != NAN
    }
}
impl Eq for Tok {}

pub fn pay_cmp(a: i32, b: i32) -> Option<std::cmp::Ordering> {
    if a == NAN || b == NAN {
        None
    } else {
        Some(a.cmp(&b))
    }
}

impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<std::cmp::Ordering> {
        self.check("comparison of a dead value");
        o.check("comparison of a dead value");
        hook(Site::Cmp);
        pay_cmp(self.pay, o.pay)
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> std::cmp::Ordering {
        self.check("comparison of a dead value");
        o.check("comparison of a dead value");
        hook(Site::Cmp);
        self.pay.cmp(&o.pay)
    }
}
impl std::hash::Hash for Tok {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.check("hash of a dead value");
        hook(Site::Hash);
        self.pay.hash(h)
    }
}
impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.check("formatting of a dead value");
        hook(Site::Debug);
        if wants_err(Site::Debug) {
            return Err(std::fmt::Error);
        }
        user(|| std::fmt::Debug::fmt(&self.pay, f))
    }
}
pub const DEFAULT_PAY: i32 = 77;
impl Default for Tok {
    fn default() -> Tok {
        hook(Site::Default);
        Tok::new(DEFAULT_PAY)
    }
}
impl serde::Serialize for Tok {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.check("serialization of a dead value");
        hook(Site::Ser);
        if wants_err(Site::Ser) {
            return Err(serde::ser::Error::custom("value refuses"));
        }
        s.serialize_i32(self.pay)
    }
}
impl<'de> serde::Deserialize<'de> for Tok {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Tok, D::Error> {
        hook(Site::De);
        if wants_err(Site::De) {
            return Err(serde::de::Error::custom("value refuses"));
        }
        let pay = i32::deserialize(d)?;
        let t = Tok::new(pay);
        oplog(|l| l.born.push(t.id));
        Ok(t)
    }
}

// ---------------------------------------------------------------- baton scheduler

pub const SLOTS: usize = 6;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    Ready,
    /// Waiting for the locks in these masks.
    Blocked,
    Done,
}

pub struct SchedState {
    pub current: usize,
    pub status: Vec<Status>,
    choices: Vec<u8>,
    pos: usize,
    mask: u32,
    gaps: Vec<u32>,
    gpos: usize,
    readers: [u32; SLOTS],
    writer: [bool; SLOTS],
    want: Vec<(u32, u32)>,
    /// Rolling hash of the sequence of switches: the interleaving.
    pub trail: u64,
    pub switches: u64,
    pub preempt: [u64; NSITES],
    pub forced: u64,
    pub stuck: bool,
    pub in_op: Vec<bool>,
}

pub struct Sched {
    m: Mutex<Option<SchedState>>,
    cv: Condvar,
}

pub static SCHED: Sched = Sched { m: Mutex::new(None), cv: Condvar::new() };

type Guard<'a> = MutexGuard<'a, Option<SchedState>>;

impl SchedState {
    fn grantable(&self, i: usize) -> bool {
        let (r, w) = self.want[i];
        (0..SLOTS).all(|s| {
            let b = 1u32 << s;
            (w & b == 0 || (self.readers[s] == 0 && !self.writer[s])) && (r & b == 0 || !self.writer[s])
        })
    }
    fn runnable(&self, i: usize) -> bool {
        match self.status[i] {
            Status::Ready => true,
            Status::Blocked => self.grantable(i),
            Status::Done => false,
        }
    }
    /// Pick who runs next; `stay` if the current client may keep running.
    fn pick(&mut self, me: usize, stay: bool) -> Option<usize> {
        let n = self.status.len();
        let c = if self.pos < self.choices.len() {
            self.pos += 1;
            self.choices[self.pos - 1]
        } else {
            0
        };
        if c == 0 && stay {
            return Some(me);
        }
        let k = (0..n).filter(|&i| self.runnable(i)).count();
        if k == 0 {
            return None;
        }
        let t = if c == 0 { 0 } else { (c as usize - 1) % k };
        (0..n).filter(|&i| self.runnable(i)).nth(t)
    }
}

impl Sched {
    fn lock(&self) -> Guard<'_> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub fn start(&self, n: usize, choices: Vec<u8>, mask: u32, gaps: Vec<u32>) {
        *self.lock() = Some(SchedState {
            current: usize::MAX,
            status: vec![Status::Ready; n],
            choices,
            pos: 0,
            mask,
            gaps,
            gpos: 0,
            readers: [0; SLOTS],
            writer: [false; SLOTS],
            want: vec![(0, 0); n],
            trail: 0,
            switches: 0,
            preempt: [0; NSITES],
            forced: 0,
            stuck: false,
            in_op: vec![false; n],
        });
    }

    pub fn finish(&self) -> SchedState {
        self.lock().take().unwrap()
    }

    /// Hand the baton to the first client.
    pub fn go(&self) {
        let mut g = self.lock();
        let s = g.as_mut().unwrap();
        s.current = s.pick(0, false).unwrap_or(0);
        self.cv.notify_all();
    }

    fn wait<'a>(&'a self, me: usize, mut g: Guard<'a>) -> Guard<'a> {
        loop {
            let s = g.as_ref().unwrap();
            if s.current == me || s.stuck {
                return g;
            }
            g = self.cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }

    /// A client thread's first action.
    pub fn enter(&self, me: usize) {
        let g = self.lock();
        drop(self.wait(me, g));
    }

    fn switch<'a>(&'a self, me: usize, stay: bool, mut g: Guard<'a>) -> Guard<'a> {
        let s = g.as_mut().unwrap();
        match s.pick(me, stay) {
            Some(t) => {
                s.trail = crate::rng::mix(s.trail ^ (t as u64 + 1));
                if t != me {
                    s.switches += 1;
                    s.current = t;
                    self.cv.notify_all();
                    return self.wait(me, g);
                }
                g
            }
            None => {
                s.stuck = true;
                self.cv.notify_all();
                g
            }
        }
    }

    pub fn yield_at(&self, me: usize, site: Site) {
        let mut g = self.lock();
        let s = g.as_mut().unwrap();
        if s.mask & (1 << site as u32) == 0 || s.stuck {
            return;
        }
        let before = s.switches;
        let mut g = self.switch(me, true, g);
        let s = g.as_mut().unwrap();
        if s.switches != before {
            s.preempt[site as usize] += 1;
        }
    }

    /// The next stretch of memory accesses that nobody interrupts.
    pub fn next_gap(&self) -> u32 {
        let mut g = self.lock();
        let s = g.as_mut().unwrap();
        s.gpos += 1;
        s.gaps.get(s.gpos - 1).copied().unwrap_or(0)
    }

    pub fn yield_gap(&self, me: usize) -> u32 {
        self.yield_at(me, Site::Memory);
        self.next_gap()
    }

    /// This client cannot go on: the next one runs. False if there is none.
    pub fn force(&self, me: usize) -> bool {
        let mut g = self.lock();
        let s = g.as_mut().unwrap();
        let n = s.status.len();
        let next = (1..n).map(|d| (me + d) % n).find(|&i| s.runnable(i));
        let Some(t) = next.filter(|_| !s.stuck) else { return false };
        s.trail = crate::rng::mix(s.trail ^ (t as u64 + 100));
        s.switches += 1;
        s.forced += 1;
        s.current = t;
        self.cv.notify_all();
        drop(self.wait(me, g));
        true
    }

    pub fn acquire(&self, me: usize, r: u32, w: u32) {
        let mut g = self.lock();
        {
            let s = g.as_mut().unwrap();
            s.want[me] = (r & !w, w);
            s.status[me] = Status::Blocked;
        }
        loop {
            if g.as_ref().unwrap().stuck {
                return;
            }
            // Always a scheduling decision: another client may go first.
            let stay = g.as_ref().unwrap().grantable(me);
            g = self.switch(me, stay, g);
            if g.as_ref().unwrap().grantable(me) {
                break;
            }
        }
        let s = g.as_mut().unwrap();
        s.status[me] = Status::Ready;
        let (r, w) = s.want[me];
        for i in 0..SLOTS {
            if r & (1 << i) != 0 {
                s.readers[i] += 1;
            }
            if w & (1 << i) != 0 {
                s.writer[i] = true;
            }
        }
        s.in_op[me] = true;
    }

    pub fn release(&self, me: usize) {
        let mut g = self.lock();
        let s = g.as_mut().unwrap();
        if s.stuck {
            return;
        }
        let (r, w) = std::mem::take(&mut s.want[me]);
        for i in 0..SLOTS {
            if r & (1 << i) != 0 {
                s.readers[i] -= 1;
            }
            if w & (1 << i) != 0 {
                s.writer[i] = false;
            }
        }
        s.in_op[me] = false;
    }

    pub fn others_idle(&self, me: usize) -> bool {
        let g = self.lock();
        let s = g.as_ref().unwrap();
        s.in_op.iter().enumerate().all(|(i, b)| i == me || !*b)
    }

    pub fn is_stuck(&self) -> bool {
        self.lock().as_ref().unwrap().stuck
    }

    pub fn leave(&self, me: usize) {
        let mut g = self.lock();
        let s = g.as_mut().unwrap();
        s.status[me] = Status::Done;
        if let Some(t) = s.pick(me, false) {
            s.current = t;
        } else if s.status.iter().any(|x| *x != Status::Done) {
            s.stuck = true;
        }
        self.cv.notify_all();
    }
}

#[cold]
pub fn yield_point(site: Site) {
    let me = CX.with(|c| c.client.get());
    SCHED.yield_at(me, site);
}
