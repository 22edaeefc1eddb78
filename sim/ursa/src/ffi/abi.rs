//! What a C client sees: opaque handles, codes, callbacks - and the machinery to run a C call and
//! the library operation it stands for as twins, with the same randomness.
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;
use simcore::Sim;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_void};
use ursa::cl::Tail;
use ursa::errors::{UrsaCryptoError, UrsaCryptoErrorKind};
use ursa::ffi::ErrorCode;

pub type H = *const c_void;
/// What output slots hold before a call; a failed call must leave it there.
pub const SENT: usize = 0x5e5e_5e50;
pub fn sent() -> H {
    SENT as H
}
pub fn boxed<T>(t: T) -> H {
    Box::into_raw(Box::new(t)) as H
}
pub fn view<'a, T>(h: H) -> &'a T {
    unsafe { &*(h as *const T) }
}
pub fn cs(s: &str) -> CString {
    CString::new(s.replace('\0', "")).unwrap()
}
pub fn canon<T: Serialize>(t: &T) -> String {
    serde_json::to_value(t).map(|v| sorted(&v)).unwrap_or_else(|e| format!("unserialisable: {}", e))
}
/// Text of a JSON value with every list of plain numbers sorted (sets have no order).
pub fn sorted(v: &Value) -> String {
    fn norm(v: &Value) -> Value {
        match v {
            Value::Array(a) => {
                let mut a: Vec<Value> = a.iter().map(norm).collect();
                if a.iter().all(|x| x.is_number()) {
                    a.sort_by_key(|x| x.as_i64());
                }
                Value::Array(a)
            }
            Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), norm(v))).collect()),
            _ => v.clone(),
        }
    }
    norm(v).to_string()
}
pub fn take_string(p: *const c_char) -> String {
    unsafe { CString::from_raw(p as *mut c_char) }.into_string().unwrap_or_else(|_| "not text".into())
}
/// The error details of this thread, as C clients read them.
pub fn current_error() -> Option<Value> {
    let mut p: *const c_char = std::ptr::null();
    ursa::ffi::ursa_get_current_error(&mut p);
    if p.is_null() {
        return None;
    }
    let s = unsafe { CStr::from_ptr(p) }.to_str().ok()?.to_string();
    serde_json::from_str(&s).ok()
}
pub fn current_message() -> String {
    match current_error() {
        None => "<none>".into(),
        Some(v) => v.get("message").and_then(|m| m.as_str()).unwrap_or("<no message>").to_string(),
    }
}
/// The documented code of an error.
pub fn code_of(e: &UrsaCryptoError) -> usize {
    match e.kind() {
        UrsaCryptoErrorKind::InvalidState => 112,
        UrsaCryptoErrorKind::InvalidStructure => 113,
        UrsaCryptoErrorKind::InvalidParam(n) if (1..=12).contains(&n) => 99 + n as usize,
        UrsaCryptoErrorKind::InvalidParam(_) => 112,
        UrsaCryptoErrorKind::IOError => 114,
        UrsaCryptoErrorKind::RevocationAccumulatorIsFull => 115,
        UrsaCryptoErrorKind::InvalidRevocationAccumulatorIndex => 116,
        UrsaCryptoErrorKind::CredentialRevoked => 117,
        UrsaCryptoErrorKind::ProofRejected => 118,
    }
}

/// The outcome of one side of a twin call.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Out {
    pub code: usize,
    /// error text on failure
    pub message: String,
    /// outputs (on success) and the state of mutable inputs (always), as text
    pub outs: Vec<String>,
    pub state: Vec<String>,
    /// an output slot changed although the call failed
    pub dirty: bool,
}
impl Out {
    pub fn c(code: ErrorCode) -> Out {
        let code = code as usize;
        Out { code, message: if code == 0 { String::new() } else { current_message() }, ..Default::default() }
    }
    pub fn err(e: &UrsaCryptoError) -> Out {
        Out { code: code_of(e), message: e.to_string(), ..Default::default() }
    }
    pub fn of<T>(r: Result<T, UrsaCryptoError>, f: impl FnOnce(T) -> Vec<String>) -> Out {
        match r {
            Ok(t) => Out { outs: f(t), ..Default::default() },
            Err(e) => Out::err(&e),
        }
    }
    /// Record the outputs of a C call: on failure they must still be the sentinel.
    pub fn slots(mut self, slots: &[H], f: impl FnOnce() -> Vec<String>) -> Out {
        if self.code == 0 {
            self.outs = f();
        } else {
            self.dirty = slots.iter().any(|h| *h as usize != SENT);
        }
        self
    }
    pub fn state(mut self, s: Vec<String>) -> Out {
        self.state = s;
        self
    }
}

struct Sendable<T>(T);
unsafe impl<T> Send for Sendable<T> {}
impl<T> Sendable<T> {
    fn into(self) -> T {
        self.0
    }
}
/// Run `f` in a fresh thread whose entropy is seeded with `seed`.
pub fn seeded<R, F: FnOnce() -> R>(seed: u64, f: F) -> R {
    let job = Sendable(f);
    let r: Sendable<std::thread::Result<R>> = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, move || {
                let f = job.into();
                simcore::entropy::seed_thread(seed);
                Sendable(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)))
            })
            .unwrap()
            .join()
            .unwrap()
    });
    r.into().unwrap_or_else(|e| std::panic::resume_unwind(e))
}

/// Run a C call and the library operation it stands for with the same randomness; compare.
pub fn twin(sim: &mut Sim, what: &str, callback_failed: bool, c: impl FnOnce() -> Out, lib: impl FnOnce() -> Out) -> bool {
    let seed = sim.choose(1 << 40) + 1;
    let a = seeded(seed, c);
    let b = match sim.guard(|| seeded(seed, lib)) {
        Ok(b) => b,
        Err(p) => {
            sim.violate("library-panic", format!("{}: the library operation panicked: {:?}", what, p));
            return false;
        }
    };
    simcore::ev!(sim, "{} -> {} {}", what, a.code, a.message.lines().next().unwrap_or(""));
    sim.absorb(format!("{:?}", a.outs).as_bytes());
    sim.probe(if a.code == 0 { "call-succeeded" } else { "call-failed" });
    sim.check((a.code == 0) == (b.code == 0), "outcome", || {
        format!("{}: the C call returned {} ({}), the library operation {} ({})", what, a.code, a.message.trim(), b.code, b.message.trim())
    });
    if a.code != 0 {
        // the code of a storage failure is not fixed; anything else must match
        sim.check(callback_failed || a.code == b.code, "error-code", || {
            format!("{}: the C call returned {} ({}), expected {} ({})", what, a.code, a.message.trim(), b.code, b.message.trim())
        });
        sim.check(callback_failed || a.message == b.message, "error-details", || {
            format!("{}: error details {:?}, expected {:?}", what, a.message, b.message)
        });
        sim.check(!a.message.is_empty() && !a.message.starts_with('<'), "error-details", || format!("{}: failed without error details ({})", what, a.message));
        sim.check(!a.dirty, "output-on-failure", || format!("{}: failed with {} and changed its outputs", what, a.code));
    } else {
        sim.check(a.outs == b.outs, "outputs", || {
            let i = a.outs.iter().zip(&b.outs).position(|(x, y)| x != y).unwrap_or(usize::MAX);
            format!("{}: output {} differs: {:?} instead of {:?}", what, i, a.outs.get(i).map(|s| clip(s)), b.outs.get(i).map(|s| clip(s)))
        });
    }
    sim.check(a.state == b.state, "input-state", || {
        let i = a.state.iter().zip(&b.state).position(|(x, y)| x != y).unwrap_or(usize::MAX);
        format!("{} (returned {}): an object passed in is {:?} afterwards instead of {:?}", what, a.code, a.state.get(i).map(|s| clip(s)), b.state.get(i).map(|s| clip(s)))
    });
    a.code == 0
}
fn clip(s: &str) -> String {
    s.chars().take(300).collect()
}

/// A C call that must be refused as an invalid parameter.
pub fn refused(sim: &mut Sim, what: &str, codes: &[usize], c: impl FnOnce() -> Out) {
    let seed = sim.choose(1 << 40) + 1;
    let a = seeded(seed, c);
    simcore::ev!(sim, "{} -> {}", what, a.code);
    sim.probe("call-refused");
    sim.check(codes.contains(&a.code), "invalid-parameter", || format!("{}: returned {} instead of {:?}", what, a.code, codes));
    sim.check(a.code == 0 || !a.message.is_empty() && !a.message.starts_with('<'), "error-details", || format!("{}: failed without error details ({})", what, a.message));
    sim.check(!a.dirty, "output-on-failure", || format!("{}: failed with {} and changed its outputs", what, a.code));
}

// ---- the storage callbacks ---------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum StoreFault {
    TakeErr,
    /// success, but no tail
    TakeNull,
    /// an error, with something in the output slot
    TakeErrPtr,
    PutErr,
}
/// Tails storage behind the C callbacks. Every tail handed over is a fresh allocation, which must
/// come back exactly once, with the right context.
pub struct Store {
    magic: u64,
    pub tails: Vec<Tail>,
    pub out: RefCell<HashMap<usize, u32>>,
    pub takes: Cell<u64>,
    pub puts: Cell<u64>,
    pub plan: RefCell<Vec<(u64, StoreFault)>>,
    pub fired: Cell<u64>,
    pub bad: RefCell<Vec<String>>,
    pub pause: Cell<Option<fn()>>,
}
const MAGIC: u64 = 0x7a11_5701_e5;
impl Store {
    pub fn new(tails: &[String]) -> Store {
        Store {
            magic: MAGIC,
            tails: tails.iter().map(|t| crate::cl::world::parse(t)).collect(),
            out: RefCell::new(HashMap::new()),
            takes: Cell::new(0),
            puts: Cell::new(0),
            plan: RefCell::new(vec![]),
            fired: Cell::new(0),
            bad: RefCell::new(vec![]),
            pause: Cell::new(None),
        }
    }
    pub fn ctx(&self) -> H {
        self as *const Store as H
    }
    pub fn arm(&self, at: u64, f: StoreFault) {
        self.plan.borrow_mut().push((self.takes.get() + at, f));
    }
    pub fn heal(&self) {
        self.plan.borrow_mut().clear();
    }
    /// Everything handed over has come back, exactly once.
    pub fn settle(&self, sim: &mut Sim, what: &str) {
        let n = self.out.borrow().len();
        let bad = self.bad.borrow().clone();
        sim.check(n == 0, "tail-not-returned", || format!("{}: {} tails handed over by the storage callback were not given back", what, n));
        sim.check(bad.is_empty(), "tail-returned-wrongly", || format!("{}: {:?}", what, bad));
        for (p, _) in self.out.borrow_mut().drain() {
            drop(unsafe { Box::from_raw(p as *mut Tail) });
        }
        self.bad.borrow_mut().clear();
    }
    pub extern "C" fn take(ctx: *const c_void, idx: u32, out: *mut *const c_void) -> ErrorCode {
        let s: &Store = unsafe { &*(ctx as *const Store) };
        if ctx.is_null() || s.magic != MAGIC {
            eprintln!("storage callback called with a foreign context");
            std::process::abort();
        }
        if let Some(f) = s.pause.get() {
            f();
        }
        let n = s.takes.get();
        s.takes.set(n + 1);
        let hit = s.plan.borrow().iter().find(|p| p.0 == n && p.1 != StoreFault::PutErr).map(|p| p.1);
        match hit {
            Some(StoreFault::TakeErr) => {
                s.fired.set(s.fired.get() + 1);
                return ErrorCode::CommonIOError;
            }
            Some(StoreFault::TakeErrPtr) => {
                s.fired.set(s.fired.get() + 1);
                unsafe { *out = SENT as H };
                return ErrorCode::CommonIOError;
            }
            Some(StoreFault::TakeNull) => {
                s.fired.set(s.fired.get() + 1);
                unsafe { *out = std::ptr::null() };
                return ErrorCode::Success;
            }
            _ => {}
        }
        match s.tails.get(idx as usize) {
            Some(t) => {
                let p = Box::into_raw(Box::new(*t));
                s.out.borrow_mut().insert(p as usize, idx);
                unsafe { *out = p as H };
                ErrorCode::Success
            }
            None => ErrorCode::CommonIOError,
        }
    }
    pub extern "C" fn put(ctx: *const c_void, tail: *const c_void) -> ErrorCode {
        let s: &Store = unsafe { &*(ctx as *const Store) };
        if ctx.is_null() || s.magic != MAGIC {
            eprintln!("storage callback called with a foreign context");
            std::process::abort();
        }
        if let Some(f) = s.pause.get() {
            f();
        }
        s.puts.set(s.puts.get() + 1);
        match s.out.borrow_mut().remove(&(tail as usize)) {
            Some(_) => drop(unsafe { Box::from_raw(tail as *mut Tail) }),
            None => s.bad.borrow_mut().push("a tail was given back that was not out".into()),
        }
        let n = s.takes.get() - 1;
        let hit = s.plan.borrow().iter().any(|p| p.0 == n && p.1 == StoreFault::PutErr);
        if hit {
            s.fired.set(s.fired.get() + 1);
            return ErrorCode::CommonIOError;
        }
        ErrorCode::Success
    }
}

pub type ToJson = extern "C" fn(H, *mut *const c_char) -> ErrorCode;
pub type FromJson = extern "C" fn(*const c_char, *mut H) -> ErrorCode;
pub type Free = extern "C" fn(H) -> ErrorCode;

/// Load a value through the C interface.
pub fn load(sim: &mut Sim, what: &str, from: FromJson, text: &str) -> H {
    let t = cs(text);
    let mut h = sent();
    let c = from(t.as_ptr(), &mut h);
    sim.check(c == ErrorCode::Success, "outcome", || format!("loading {} returned {:?}: {} from {}", what, c, current_message(), clip(text)));
    if c != ErrorCode::Success {
        sim.stop("outcome", format!("loading {} failed", what));
    }
    h
}
/// Save, load, damage and free one kind of object.
pub fn json_io<T: Serialize + DeserializeOwned>(sim: &mut Sim, what: &str, text: &str, to: ToJson, from: FromJson, free: Free) {
    let h = load(sim, what, from, text);
    let lib: T = crate::cl::world::parse(text);
    let a = canon(view::<T>(h));
    let b = canon(&lib);
    sim.check(a == b, "outputs", || format!("{} loaded through C is {} instead of {}", what, clip(&a), clip(&b)));
    let mut p: *const c_char = SENT as *const c_char;
    let c = to(h, &mut p);
    sim.check(c == ErrorCode::Success, "outcome", || format!("saving {} returned {:?}", what, c));
    if c == ErrorCode::Success {
        let s = take_string(p);
        let v = serde_json::from_str::<Value>(&s).map(|v| sorted(&v)).unwrap_or_else(|e| e.to_string());
        sim.check(v == b, "outputs", || format!("{} saved through C is {} instead of {}", what, clip(&v), clip(&b)));
    }
    sim.absorb(a.as_bytes());
    sim.probe("json-round");
    // refused texts
    let damaged: Vec<u8> = match sim.choose(6) {
        0 => b"".to_vec(),
        1 => b"{}".to_vec(),
        2 => b"null".to_vec(),
        3 => text.as_bytes()[..sim.pick(text.len()).max(1)].to_vec(),
        4 => {
            let mut t = text.as_bytes().to_vec();
            let i = sim.pick(t.len());
            t[i] = 0xff;
            t
        }
        _ => {
            let mut t = text.as_bytes().to_vec();
            let i = sim.pick(t.len());
            t[i] = *sim.of(b"x\"{}[]:,0 -");
            t
        }
    };
    let expect: Vec<usize> = match std::str::from_utf8(&damaged) {
        Err(_) => vec![100],
        Ok("") => vec![100],
        Ok(s) => match sim.guard(|| serde_json::from_str::<T>(s)) {
            Ok(Ok(_)) => vec![0],
            _ => vec![113],
        },
    };
    let t = CString::new(damaged.clone()).unwrap();
    let label = format!("{} from {}", what, clip(&String::from_utf8_lossy(&damaged)));
    let mut out = None;
    refused(sim, &label, &expect, || {
        let mut h2 = sent();
        let o = Out::c(from(t.as_ptr(), &mut h2));
        out = Some(h2);
        o.slots(&[h2], || vec![])
    });
    if let Some(h2) = out {
        if h2 as usize != SENT && !h2.is_null() {
            free(h2);
        }
    }
    refused(sim, &format!("{} from a null pointer", what), &[100], || {
        let mut h2 = sent();
        Out::c(from(std::ptr::null(), &mut h2)).slots(&[h2], || vec![])
    });
    refused(sim, &format!("{} to a null output", what), &[101], || Out::c(from(cs(text).as_ptr(), std::ptr::null_mut())));
    refused(sim, &format!("text of a null {}", what), &[100], || {
        let mut p: *const c_char = SENT as *const c_char;
        Out::c(to(std::ptr::null(), &mut p)).slots(&[p as H], || vec![])
    });
    refused(sim, &format!("text of {} to a null output", what), &[101], || Out::c(to(h, std::ptr::null_mut())));
    // still usable, then freed
    let a2 = canon(view::<T>(h));
    sim.check(a2 == a, "input-state", || format!("{} changed while it was read", what));
    let c = free(h);
    sim.check(c == ErrorCode::Success, "outcome", || format!("freeing {} returned {:?}", what, c));
    refused(sim, &format!("freeing a null {}", what), &[100], || Out::c(free(std::ptr::null())));
}
