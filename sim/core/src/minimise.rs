//! Shrinks a failing plan; every candidate runs in its own process.

use crate::plan::*;
use serde_json::Value;
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// What a run did, seen from outside.
#[derive(Clone, PartialEq, Debug)]
pub enum Seen {
    Clean,
    Violation { class: String, op: String, msg: String, full: Value },
    /// The process died.
    Died(String),
    Hung,
    /// Harness error.
    Bad(String),
}

impl Seen {
    pub fn same_kind(&self, o: &Seen) -> bool {
        match (self, o) {
            (Seen::Violation { class, op, .. }, Seen::Violation { class: c2, op: o2, .. }) => class == c2 && op == o2,
            (Seen::Died(_), Seen::Died(_)) | (Seen::Hung, Seen::Hung) => true,
            _ => false,
        }
    }
    pub fn failing(&self) -> bool {
        matches!(self, Seen::Violation { .. } | Seen::Died(_) | Seen::Hung)
    }
    pub fn text(&self) -> String {
        match self {
            Seen::Clean => "no violation".into(),
            Seen::Violation { class, op, msg, .. } => format!("[{class}] in {op}: {msg}"),
            Seen::Died(s) => format!("[crash] the process running the plan died: {s}"),
            Seen::Hung => "[hang] the run does not end".into(),
            Seen::Bad(s) => format!("harness error: {s}"),
        }
    }
}

/// Execute a plan in a fresh process.
pub fn fresh(p: &Plan, file: &str, hang: Duration) -> Seen {
    if std::fs::write(file, serde_json::json!({"plan": p.json()}).to_string()).is_err() {
        return Seen::Bad("cannot write plan".into());
    }
    fresh_file(file, hang)
}

pub fn fresh_file(file: &str, hang: Duration) -> Seen {
    let exe = std::env::current_exe().unwrap();
    let mut c = match Command::new(exe).arg("exec").arg(file).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => return Seen::Bad(e.to_string()),
    };
    let mut so = c.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let st = loop {
        match c.try_wait() {
            Ok(Some(st)) => break st,
            Ok(None) if t0.elapsed() > hang => {
                let _ = c.kill();
                let _ = c.wait();
                let _ = reader.join();
                return Seen::Hung;
            }
            _ => std::thread::sleep(Duration::from_millis(if t0.elapsed() < Duration::from_millis(50) { 1 } else { 10 })),
        }
    };
    let out = reader.join().unwrap_or_default();
    if st.success() {
        let v: Value = match serde_json::from_str(&out) {
            Ok(v) => v,
            Err(e) => return Seen::Bad(e.to_string()),
        };
        let x = &v["violation"];
        if x.is_null() {
            return Seen::Clean;
        }
        let s = |n: &str| x[n].as_str().unwrap_or("").to_string();
        return Seen::Violation { class: s("class"), op: s("op"), msg: s("message"), full: x.clone() };
    }
    use std::os::unix::process::ExitStatusExt;
    match st.signal() {
        Some(n) => Seen::Died(format!("signal {n}")),
        None => Seen::Bad(format!("exit {:?}", st.code())),
    }
}

struct Min<'a> {
    best: Plan,
    target: Seen,
    file: &'a str,
    until: Instant,
    pub tries: u32,
}

impl Min<'_> {
    fn out_of_time(&self) -> bool {
        Instant::now() > self.until || self.tries > 4000
    }
    fn attempt(&mut self, p: Plan) -> bool {
        if self.out_of_time() || p == self.best {
            return false;
        }
        self.tries += 1;
        let hang = if self.target == Seen::Hung { Duration::from_secs(4) } else { Duration::from_secs(8) };
        let s = fresh(&p, self.file, hang);
        let ok = s.same_kind(&self.target);
        if ok {
            self.best = p;
        }
        ok
    }

    /// Remove chunks of a list while the failure persists.
    fn shrink_list<T: Clone>(&mut self, get: impl Fn(&mut Plan) -> &mut Vec<T>) {
        let mut size = (get(&mut self.best.clone()).len()).max(1);
        loop {
            let mut at = 0;
            loop {
                let len = get(&mut self.best.clone()).len();
                if at >= len || self.out_of_time() {
                    break;
                }
                let mut p = self.best.clone();
                let l = get(&mut p);
                l.drain(at..(at + size).min(len));
                if !self.attempt(p) {
                    at += size;
                }
            }
            if size == 1 || self.out_of_time() {
                break;
            }
            size = (size / 2).max(1);
        }
    }

    fn each_op(&mut self, f: impl Fn(&mut Op) -> bool) {
        let lens: Vec<usize> = std::iter::once(self.best.setup.len()).chain(self.best.clients.iter().map(Vec::len)).collect();
        for (c, n) in lens.iter().enumerate() {
            for i in 0..*n {
                let mut p = self.best.clone();
                let o = if c == 0 { &mut p.setup[i] } else { &mut p.clients[c - 1][i] };
                if f(o) {
                    self.attempt(p);
                }
            }
        }
    }

    fn run(&mut self) {
        for round in 0..3 {
            let before = self.best.clone();
            // Clients, schedule.
            let mut i = 0;
            while self.best.clients.len() > 1 && i < self.best.clients.len() {
                let mut p = self.best.clone();
                p.clients.remove(i);
                if !self.attempt(p) {
                    i += 1;
                }
            }
            let mut p = self.best.clone();
            p.choices.clear();
            p.mask = 0;
            p.gaps.clear();
            self.attempt(p);
            for c in 0..self.best.clients.len() {
                self.shrink_list(|p| &mut p.clients[c]);
            }
            self.shrink_list(|p| &mut p.setup);
            if self.best.clients.len() > 1 {
                self.shrink_list(|p| &mut p.choices);
                self.shrink_list(|p| &mut p.gaps);
                for b in 0..crate::ctx::NSITES {
                    if self.best.mask & (1 << b) != 0 {
                        let mut p = self.best.clone();
                        p.mask &= !(1 << b);
                        self.attempt(p);
                    }
                }
                for i in 0..self.best.choices.len() {
                    if self.best.choices[i] != 0 {
                        let mut p = self.best.clone();
                        p.choices[i] = 0;
                        self.attempt(p);
                    }
                }
            } else if self.best.clients.len() == 1 && !self.best.setup.is_empty() {
                let mut p = self.best.clone();
                let tail = std::mem::take(&mut p.clients[0]);
                p.clients[0] = std::mem::take(&mut p.setup);
                p.clients[0].extend(tail);
                self.attempt(p);
            }
            // Faults and arguments.
            self.each_op(|o| std::mem::take(&mut o.fault) != Fault::default());
            self.each_op(|o| o.nest.take().is_some());
            self.each_op(|o| {
                let c = o.fault.b > 1;
                o.fault.b = o.fault.b.min(1);
                c
            });
            let counts: Vec<usize> = std::iter::once(self.best.setup.len()).chain(self.best.clients.iter().map(Vec::len)).collect();
            for (c, n) in counts.iter().enumerate() {
                for i in 0..*n {
                    let (l, m) = {
                        let o = if c == 0 { &self.best.setup[i] } else { &self.best.clients[c - 1][i] };
                        (o.list.len(), o.moves.len())
                    };
                    if l > 0 {
                        self.shrink_list(|p| if c == 0 { &mut p.setup[i].list } else { &mut p.clients[c - 1][i].list });
                    }
                    if m > 0 {
                        self.shrink_list(|p| if c == 0 { &mut p.setup[i].moves } else { &mut p.clients[c - 1][i].moves });
                    }
                }
            }
            for b in (0..128).rev() {
                self.each_op(|o| {
                    let had = o.bits >> b & 1 == 1 && o.code == Code::FromRaw;
                    if had {
                        o.bits &= !(1 << b);
                    }
                    had
                });
            }
            self.each_op(|o| {
                let c = o.v != 0;
                o.v = 0;
                c
            });
            self.each_op(|o| {
                let c = o.how != 0;
                o.how = 0;
                c
            });
            self.each_op(|o| {
                let c = o.c != 0;
                o.c = 0;
                c
            });
            for cut in (0..13).rev() {
                self.each_op(|o| {
                    let c = o.code == Code::Bulk && o.c > 1 << cut;
                    o.c -= if c { 1 << cut } else { 0 };
                    c
                });
            }
            self.each_op(|o| {
                let c = o.s == o.t && o.s != 0;
                if c {
                    o.s = 0;
                    o.t = 0;
                }
                c
            });
            self.each_op(|o| {
                let c = o.k != 0;
                o.k = 0;
                c
            });
            if self.best == before || self.out_of_time() || round == 2 {
                break;
            }
        }
    }
}

pub fn minimise(p: &Plan, target: &Seen, file: &str, budget: Duration) -> (Plan, u32) {
    let mut m = Min { best: p.clone(), target: target.clone(), file, until: Instant::now() + budget, tries: 0 };
    m.run();
    (m.best, m.tries)
}
