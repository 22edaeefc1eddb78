//! The entropy seam. Every random byte the code under test asks for — through rand 0.7
//! (patched getrandom), through std's HashMap keys (libc getrandom symbol) or through OpenSSL
//! (RAND method) — is drawn from a per-thread stream seeded by the run. Failures are injected here.
use std::cell::Cell;
use std::os::raw::{c_double, c_int, c_uchar, c_uint, c_void};

thread_local! {
    static STATE: Cell<[u64; 4]> = const { Cell::new([0x9E3779B97F4A7C15, 1, 2, 3]) };
    static DRAWS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static SOURCE: Cell<u64> = const { Cell::new(0) };
    /// Number of further successful draws before the source starts failing (u64::MAX: never).
    static FAIL_AFTER: Cell<u64> = const { Cell::new(u64::MAX) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
    /// Called before every draw: a scheduling point for multi-threaded runs.
    static PAUSE: Cell<Option<fn()>> = const { Cell::new(None) };
}

/// Make every draw of this thread a scheduling point.
pub fn pause_at_draws(f: Option<fn()>) {
    PAUSE.with(|p| p.set(f));
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.rotate_left(32).wrapping_mul(0xD6E8FEB86659FD93);
    splitmix(&mut s) ^ b
}

pub fn seed_thread(seed: u64) {
    let mut s = seed;
    STATE.with(|c| {
        c.set([
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
        ])
    });
    DRAWS.with(|c| c.set(0));
    BYTES.with(|c| c.set(0));
    SOURCE.with(|c| c.set(0));
    FAIL_AFTER.with(|c| c.set(u64::MAX));
    FAILED.with(|c| c.set(0));
}

/// Make the entropy source of this thread fail after `n` more draws.
pub fn fail_after(n: u64) {
    FAIL_AFTER.with(|c| c.set(n));
}
pub fn heal() {
    FAIL_AFTER.with(|c| c.set(u64::MAX));
}
pub fn draws() -> u64 {
    DRAWS.with(|c| c.get())
}
pub fn failures() -> u64 {
    FAILED.with(|c| c.get())
}
pub fn bytes_drawn() -> u64 {
    BYTES.with(|c| c.get())
}

/// Bytes drawn by the code under test itself (not by std's hash maps).
pub fn source_bytes() -> u64 {
    SOURCE.with(|c| c.get())
}

fn next() -> u64 {
    STATE.with(|c| {
        let mut s = c.get();
        let r = s[0]
            .wrapping_add(s[3])
            .rotate_left(23)
            .wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        c.set(s);
        r
    })
}

unsafe fn fill(buf: *mut u8, len: usize) {
    let mut i = 0;
    while i < len {
        let b = next().to_le_bytes();
        let n = (len - i).min(8);
        std::ptr::copy_nonoverlapping(b.as_ptr(), buf.add(i), n);
        i += n;
    }
    BYTES.with(|c| c.set(c.get() + len as u64));
}

#[no_mangle]
pub extern "C" fn ursa_sim_entropy(buf: *mut u8, len: usize) -> i32 {
    if let Some(f) = PAUSE.with(|p| p.get()) {
        f();
    }
    let left = FAIL_AFTER.with(|c| c.get());
    if left == 0 {
        FAILED.with(|c| c.set(c.get() + 1));
        return -1;
    }
    if left != u64::MAX {
        FAIL_AFTER.with(|c| c.set(left - 1));
    }
    DRAWS.with(|c| c.set(c.get() + 1));
    SOURCE.with(|c| c.set(c.get() + len as u64));
    unsafe { fill(buf, len) };
    0
}

/// Interposes libc's getrandom (std uses it to key HashMaps): never fails.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut c_void, len: usize, _flags: c_uint) -> isize {
    unsafe { fill(buf as *mut u8, len) };
    len as isize
}

pub fn link_anchor() {
    // Reference the exported symbols so that the object holding them is always linked.
    std::hint::black_box(ursa_sim_entropy as *const c_void);
    std::hint::black_box(getrandom as *const c_void);
}

// ---- OpenSSL -----------------------------------------------------------------------------

#[repr(C)]
pub struct RandMethod {
    pub seed: Option<extern "C" fn(*const c_void, c_int) -> c_int>,
    pub bytes: Option<extern "C" fn(*mut c_uchar, c_int) -> c_int>,
    pub cleanup: Option<extern "C" fn()>,
    pub add: Option<extern "C" fn(*const c_void, c_int, c_double) -> c_int>,
    pub pseudorand: Option<extern "C" fn(*mut c_uchar, c_int) -> c_int>,
    pub status: Option<extern "C" fn() -> c_int>,
}
extern "C" fn o_seed(_: *const c_void, _: c_int) -> c_int {
    1
}
extern "C" fn o_bytes(buf: *mut c_uchar, n: c_int) -> c_int {
    if n <= 0 {
        return 1;
    }
    if ursa_sim_entropy(buf, n as usize) == 0 {
        1
    } else {
        0
    }
}
extern "C" fn o_cleanup() {}
extern "C" fn o_add(_: *const c_void, _: c_int, _: c_double) -> c_int {
    1
}
extern "C" fn o_status() -> c_int {
    1
}
pub static RAND_METHOD: RandMethod = RandMethod {
    seed: Some(o_seed),
    bytes: Some(o_bytes),
    cleanup: Some(o_cleanup),
    add: Some(o_add),
    pseudorand: Some(o_bytes),
    status: Some(o_status),
};
