//! The simulator: a tape of choices drawn from one seed, an event log, fault accounting,
//! simulated time and the violation mechanism.
use crate::entropy::{mix, splitmix};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable identifier of the failed oracle (used to match known findings and when minimising).
    pub class: String,
    pub detail: String,
}

/// Ends a run that met a known finding it cannot continue from.
pub struct KnownStop;

/// A panic raised by the code under test inside `Sim::guard`.
#[derive(Clone, Debug)]
pub struct Panicked {
    pub location: String,
    pub message: String,
}

thread_local! {
    pub static LAST_PANIC: RefCell<Option<Panicked>> = const { RefCell::new(None) };
}

#[derive(Clone)]
pub struct Tape {
    pub choices: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
}

impl Tape {
    pub fn record(seed: u64) -> Tape {
        Tape {
            choices: Vec::new(),
            pos: 0,
            rng: Some(seed),
        }
    }
    pub fn replay(choices: Vec<u64>) -> Tape {
        Tape {
            choices,
            pos: 0,
            rng: None,
        }
    }
    fn draw(&mut self, n: u64) -> u64 {
        let v = match self.rng.as_mut() {
            Some(s) => {
                let v = splitmix(s) % n;
                self.choices.push(v);
                v
            }
            None => self.choices.get(self.pos).copied().unwrap_or(0) % n,
        };
        self.pos += 1;
        v
    }
    pub fn used(&self) -> usize {
        self.pos
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Sim {
    pub tape: Tape,
    pub log: Vec<String>,
    pub keep_log: bool,
    pub hash: (u64, u64),
    /// Hash over scheduling decisions only (which event next, which fault): the interleaving measure.
    pub sched_hash: u64,
    pub now: u64,
    pub steps: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub states: BTreeSet<u64>,
    pub known: BTreeMap<String, String>,
    pub known_keys: std::sync::Arc<BTreeSet<String>>,
    pub tier: Tier,
    pub variant: u64,
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut x = h;
    splitmix(&mut x)
}

pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut x = h;
    splitmix(&mut x)
}

impl Sim {
    pub fn new(tape: Tape, tier: Tier) -> Sim {
        Sim {
            tape,
            log: Vec::new(),
            keep_log: false,
            hash: (1, 2),
            sched_hash: 7,
            now: 0,
            steps: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            states: BTreeSet::new(),
            known: BTreeMap::new(),
            known_keys: std::sync::Arc::new(BTreeSet::new()),
            tier,
            variant: 0,
        }
    }

    // ---- choices ---------------------------------------------------------------------
    /// Uniform in 0..n; 0 is the simplest outcome (what minimisation moves towards).
    pub fn choose(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.tape.draw(n)
    }
    pub fn pick(&mut self, n: usize) -> usize {
        self.choose(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.choose(hi_incl - lo + 1)
    }
    pub fn irange(&mut self, lo: i64, hi_incl: i64) -> i64 {
        lo + self.choose((hi_incl - lo + 1) as u64) as i64
    }
    /// True with probability permille/1000. `false` is the simple outcome.
    pub fn chance(&mut self, permille: u64) -> bool {
        if permille == 0 {
            return false;
        }
        // map so that tape value 0 is false
        self.tape.draw(1000) >= 1000 - permille.min(1000)
    }
    pub fn coin(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.pick(xs.len());
        &xs[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        let mut left = n;
        while left > 0 {
            let x = self.tape.draw(1 << 62).to_le_bytes();
            let k = left.min(7);
            v.extend_from_slice(&x[..k]);
            left -= k;
        }
        v
    }
    /// A scheduling decision: which of n enabled events happens next.
    pub fn schedule(&mut self, n: usize) -> usize {
        let v = self.pick(n);
        self.sched_hash = mix(self.sched_hash, (n as u64) << 32 | v as u64);
        self.steps += 1;
        v
    }
    /// Inject a fault of this kind here? Counted when injected.
    pub fn fault(&mut self, kind: &'static str, permille: u64) -> bool {
        let f = self.chance(permille);
        if f {
            self.note_fault(kind);
        }
        f
    }
    pub fn note_fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
        self.sched_hash = mix(self.sched_hash, hash_str(kind));
        self.event(|| format!("fault {}", kind));
    }
    pub fn probe(&mut self, name: &'static str) {
        *self.probes.entry(name).or_insert(0) += 1;
    }
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    pub fn state_str(&mut self, s: &str) {
        self.states.insert(hash_str(s));
    }
    pub fn tick(&mut self, d: u64) {
        self.now += d;
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // value 0 keeps the element in place
            let j = i - self.pick(i + 1);
            v.swap(i, j);
        }
    }
    pub fn subset(&mut self, n: usize, k: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..k.min(n) {
            let j = i + self.pick(n - i);
            v.swap(i, j);
        }
        v.truncate(k);
        v
    }

    // ---- log -------------------------------------------------------------------------
    pub fn event<F: FnOnce() -> String>(&mut self, f: F) {
        let s = f();
        let h = hash_str(&s);
        self.hash.0 = mix(self.hash.0, h);
        self.hash.1 = mix(h, self.hash.1.rotate_left(7));
        if self.keep_log {
            let line = format!("[t={}] {}", self.now, s);
            self.log.push(line);
        }
    }
    /// Fold library output into the execution fingerprint without logging it in full.
    pub fn absorb(&mut self, bytes: &[u8]) {
        let h = hash_bytes(bytes);
        self.hash.0 = mix(self.hash.0, h);
        self.hash.1 = mix(h, self.hash.1.rotate_left(7));
    }
    pub fn fingerprint(&self) -> String {
        format!("{:016x}{:016x}", self.hash.0, self.hash.1)
    }

    // ---- oracles ---------------------------------------------------------------------
    pub fn violate(&mut self, class: &str, detail: String) {
        if self.known_keys.contains(class) || self.known_keys.contains("*") {
            self.event(|| format!("known-finding {}", class));
            self.known
                .entry(class.to_string())
                .or_insert_with(|| detail.clone());
            return;
        }
        self.event(|| format!("VIOLATION {}: {}", class, detail));
        std::panic::panic_any(Violation {
            class: class.to_string(),
            detail,
        });
    }
    /// A violation after which the run cannot go on.
    pub fn stop(&mut self, class: &str, detail: String) -> ! {
        self.violate(class, detail);
        // only a known finding gets here
        std::panic::panic_any(KnownStop)
    }
    pub fn check<F: FnOnce() -> String>(&mut self, ok: bool, class: &str, detail: F) {
        if !ok {
            let d = detail();
            self.violate(class, d);
        }
    }
    /// Call into the code under test; a panic there becomes an Err value.
    pub fn guard<R, F: FnOnce() -> R>(&mut self, f: F) -> Result<R, Panicked> {
        LAST_PANIC.with(|l| *l.borrow_mut() = None);
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Ok(r),
            Err(p) => {
                if p.is::<Violation>() || p.is::<KnownStop>() {
                    std::panic::resume_unwind(p);
                }
                let info = LAST_PANIC
                    .with(|l| l.borrow_mut().take())
                    .unwrap_or(Panicked {
                        location: "?".into(),
                        message: "?".into(),
                    });
                Err(info)
            }
        }
    }
    /// Call the code under test where a panic of any kind violates the property.
    pub fn no_panic<R, F: FnOnce() -> R>(&mut self, what: &str, f: F) -> R {
        match self.guard(f) {
            Ok(r) => r,
            Err(p) => {
                let class = format!("panic:{}", what);
                let d = format!("{} panicked at {}: {}", what, p.location, p.message);
                self.stop(&class, d)
            }
        }
    }
    /// The operation must return Ok here.
    pub fn must<R, E: std::fmt::Debug, F: FnOnce() -> Result<R, E>>(
        &mut self,
        what: &str,
        f: F,
    ) -> R {
        match self.no_panic(what, f) {
            Ok(r) => r,
            Err(e) => {
                let class = format!("failed:{}", what);
                let mut d = format!("{} failed although it had to succeed: {:?}", what, e);
                if d.len() > 1500 {
                    let mut k = 1500;
                    while !d.is_char_boundary(k) {
                        k -= 1;
                    }
                    d.truncate(k);
                }
                self.stop(&class, d)
            }
        }
    }
    /// The operation must return Err (not Ok, not panic) here.
    pub fn must_err<R, E: std::fmt::Debug, F: FnOnce() -> Result<R, E>>(
        &mut self,
        what: &str,
        f: F,
    ) -> Option<E> {
        match self.no_panic(what, f) {
            Ok(_) => {
                self.violate(
                    &format!("accepted:{}", what),
                    format!("{} succeeded although it had to be refused", what),
                );
                None
            }
            Err(e) => Some(e),
        }
    }
}

#[macro_export]
macro_rules! ev {
    ($sim:expr, $($arg:tt)*) => { $sim.event(|| format!($($arg)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($sim:expr, $cond:expr, $class:expr, $($arg:tt)*) => {
        { let c = $cond; $sim.check(c, $class, || format!($($arg)*)) }
    };
}
