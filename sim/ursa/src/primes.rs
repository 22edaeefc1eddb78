//! Safe-prime seam: interposes OpenSSL's `BN_generate_prime_ex` in the harness binary. A request
//! for a 1025-bit safe prime (what the credential key generation asks for) is answered from a
//! committed pool, the member chosen by the simulated entropy; everything else runs the real code.
use std::cell::Cell;
use std::ffi::{c_char, c_int, c_void};

static POOL: &str = include_str!("primes.txt");
thread_local! { static LAST: Cell<usize> = const { Cell::new(usize::MAX) }; }

extern "C" {
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
    fn BN_dec2bn(a: *mut *mut c_void, s: *const c_char) -> c_int;
}

#[no_mangle]
pub unsafe extern "C" fn BN_generate_prime_ex(
    ret: *mut c_void,
    bits: c_int,
    safe: c_int,
    add: *const c_void,
    rem: *const c_void,
    cb: *mut c_void,
) -> c_int {
    if safe != 0 && bits == 1025 && add.is_null() && rem.is_null() {
        let mut b = [0u8; 8];
        if simcore::entropy::ursa_sim_entropy(b.as_mut_ptr(), 8) != 0 {
            return 0;
        }
        let lines: Vec<&str> = POOL.lines().collect();
        let mut i = (u64::from_le_bytes(b) % lines.len() as u64) as usize;
        // a real generator does not return the same prime twice
        if LAST.with(|l| l.get()) == i {
            i = (i + 1) % lines.len();
        }
        LAST.with(|l| l.set(i));
        let s = std::ffi::CString::new(lines[i]).unwrap();
        let mut r = ret;
        return if BN_dec2bn(&mut r, s.as_ptr()) > 0 { 1 } else { 0 };
    }
    let f = dlsym(-1isize as *mut c_void, c"BN_generate_prime_ex".as_ptr()); // RTLD_NEXT
    let f: unsafe extern "C" fn(*mut c_void, c_int, c_int, *const c_void, *const c_void, *mut c_void) -> c_int =
        std::mem::transmute(f);
    f(ret, bits, safe, add, rem, cb)
}

pub fn link_anchor() {
    std::hint::black_box(BN_generate_prime_ex as *const c_void);
}
