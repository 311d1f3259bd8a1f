//! Check context: executes calls, compares with the specification, counts what
//! was observed, and records the first violation with everything to replay it.
use crate::gen::{self, R};
use crate::model::B;
use crate::obs::{self, Res};
use crate::rows::{spec, Exp, Row};
use apint::ApInt;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub static BEAT: AtomicU64 = AtomicU64::new(0);
/// The call being executed (for the watchdog and for crash reports).
pub static CURRENT: Mutex<String> = Mutex::new(String::new());
pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub struct Violation {
    pub what: String,
    pub detail: String,
}

pub struct Cx {
    pub prop: String,
    pub r: R,
    pub seed: u64,
    pub shard: usize,
    pub shards: usize,
    pub thorough: bool,
    pub scale: usize,
    pub deadline: Instant,
    pub start: Instant,
    pub events: u64,
    pub distinct: HashSet<u64>,
    pub per_op: BTreeMap<&'static str, u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub violation: Option<Violation>,
    pub trace: bool,
    /// set while the workload is a history: the calls so far, for the replay
    pub history: Vec<String>,
    pub known: Vec<String>,
}

impl Cx {
    pub fn new(prop: &str, seed: u64, shard: usize, shards: usize, thorough: bool, secs: u64, trace: bool) -> Cx {
        let mix = seed.wrapping_mul(1_000_003).wrapping_add(shard as u64 * 7919).wrapping_add(prop.bytes().map(|b| b as u64).sum::<u64>() << 20);
        Cx {
            prop: prop.into(),
            r: R::new(mix),
            seed,
            shard,
            shards,
            thorough,
            scale: crate::arg("--scale").map(|x| x.parse().unwrap()).unwrap_or(1),
            deadline: Instant::now() + Duration::from_secs(secs),
            start: Instant::now(),
            events: 0,
            distinct: HashSet::new(),
            per_op: BTreeMap::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            violation: None,
            trace,
            history: vec![],
            known: vec![],
        }
    }
    pub fn done(&self) -> bool {
        self.violation.is_some() || Instant::now() >= self.deadline
    }
    pub fn bad(&self) -> bool {
        self.violation.is_some()
    }
    /// Work item i belongs to this shard.
    pub fn mine(&self, i: usize) -> bool {
        i % self.shards == self.shard
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        (if self.thorough { thorough } else { quick }) * self.scale / self.shards + 1
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn state(&mut self, key: impl Hash) {
        if self.distinct.len() < 2_000_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            key.hash(&mut h);
            self.distinct.insert(h.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let s = f();
            self.samples.push(s.chars().take(400).collect());
        }
    }
    pub fn fail(&mut self, what: &str, detail: String) {
        if self.violation.is_none() {
            let mut d = detail;
            if !self.history.is_empty() {
                d += "\nhistory (oldest first):\n";
                d += &self.history.join("\n");
            }
            self.violation = Some(Violation { what: what.into(), detail: d });
        }
    }
    /// Announces a call: counts it, and lets watchdog and crash reports name it.
    pub fn announce(&mut self, name: &'static str, f: impl FnOnce() -> String) {
        self.events += 1;
        *self.per_op.entry(name).or_insert(0) += 1;
        BEAT.fetch_add(1, Relaxed);
        if self.trace || self.events % 64 == 0 {
            let s = f();
            if self.trace {
                eprintln!("EVENT {}", s);
            }
            *CURRENT.lock().unwrap() = s;
        }
    }
    /// Runs a closure that must not panic; reports a violation if it does.
    pub fn guard<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(x) => Some(x),
            Err(_) => {
                let p = last_panic();
                self.fail("panic", format!("{}: panicked: {}", what, p));
                None
            }
        }
    }

    /// Executes one table row and returns what happened.
    pub fn exec(&mut self, row: &Row, s: &mut Option<ApInt>, b: &mut ApInt, n: usize, desc: impl FnOnce() -> String) -> Res {
        self.announce(row.name, desc);
        match catch_unwind(AssertUnwindSafe(|| (row.f)(s, b, n))) {
            Ok(r) => r,
            Err(_) => Res::Panic,
        }
    }
    /// Executes one row on fresh operands and checks it fully.
    pub fn check(&mut self, row: &Row, a: &B, b: &B, n: usize) -> bool {
        let e = spec(row, a, b, n);
        self.check_with(row, a, b, n, e)
    }
    pub fn check_with(&mut self, row: &Row, a: &B, b: &B, n: usize, e: Exp) -> bool {
        let mut s = Some(obs::mk(a, &mut self.r));
        let mut bb = obs::mk(b, &mut self.r);
        let d = || describe(row, a, b, n);
        let res = self.exec(row, &mut s, &mut bb, n, d);
        self.state((row.name, row.form, gen::wclass(a.w), gen::class(a), if row.sem.arg() == crate::rows::Arg::B { gen::class(b) } else { n as u64 % 64 }, res.kind()));
        if self.events % 9973 == 5 {
            let d = describe(row, a, b, n);
            let r2 = format!("{} -> {:?}", d, res);
            self.sample(|| r2);
        }
        if !row.sem.specified() {
            return true;
        }
        if let Some(m) = judge(&res, s.as_ref(), &bb, &e) {
            let p = if res == Res::Panic { format!(" [panic: {}]", last_panic()) } else { String::new() };
            self.fail("wrong outcome", format!("{}: {}{}", describe(row, a, b, n), m, p));
            return false;
        }
        true
    }
}

pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|x| x.clone()).unwrap_or_default()
}

pub fn describe(row: &Row, a: &B, b: &B, n: usize) -> String {
    use crate::rows::Arg;
    match row.sem.arg() {
        Arg::None => format!("{} [{:?}] self={:?}", row.name, row.form, a),
        Arg::B => format!("{} [{:?}] self={:?} rhs={:?}", row.name, row.form, a, b),
        _ => format!("{} [{:?}] self={:?} arg={}", row.name, row.form, a, n),
    }
}

/// Compares an outcome with the specification; `None` if it conforms.
pub fn judge(res: &Res, s: Option<&ApInt>, bb: &ApInt, e: &Exp) -> Option<String> {
    if *res != e.res && e.alt.as_ref() != Some(res) {
        return Some(format!("outcome {:?}, specified {:?}", res, e.res));
    }
    if *res != Res::Panic {
        match (s, &e.a) {
            (Some(x), Some(w)) => {
                if let Some(m) = obs::differs(x, w) {
                    return Some(format!("value after the call: {}", m));
                }
            }
            (None, None) => {}
            _ => return Some("operand unexpectedly consumed or kept".into()),
        }
    }
    if let Some(m) = obs::differs(bb, &e.b) {
        return Some(format!("second operand after the call: {}", m));
    }
    None
}
