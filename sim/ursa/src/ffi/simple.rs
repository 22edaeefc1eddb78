//! C09: the byte-buffer part of the C interface (encryption, Ed25519, random bytes) and the logger.
use super::abi::*;
use ffi_support::{ByteBuffer, ExternError, FfiStr};
use simcore::{ev, Sim};
use std::ffi::{c_char, c_void, CStr, CString};
use std::str::FromStr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use ursa::encryption::symm::prelude::*;
use ursa::ffi::encryption::*;
use ursa::ffi::logger::*;
use ursa::ffi::signatures::ed25519::*;
use ursa::ffi::{ursa_bytebuffer_free, ursa_string_free, ByteArray, ErrorCode};
use ursa::keys::{KeyGenOption, PrivateKey, PublicKey};
use ursa::signatures::prelude::*;

/// A byte-buffer call: return value, outputs and error code.
#[derive(Debug, PartialEq, Clone)]
struct Bytes {
    ret: i32,
    code: i32,
    outs: Vec<String>,
    dirty: bool,
}
const MARK: &[u8] = b"untouched output";

fn run(n_out: usize, f: impl FnOnce(&mut [ByteBuffer], &mut ExternError) -> i32) -> Bytes {
    let mut outs: Vec<ByteBuffer> = (0..n_out).map(|_| ByteBuffer::from_vec(MARK.to_vec())).collect();
    let mut err = ExternError::success();
    let ret = f(&mut outs, &mut err);
    let mut b = Bytes { ret, code: err.get_code().code(), outs: vec![], dirty: false };
    let m = err.get_raw_message();
    for o in outs {
        if ret == 1 {
            b.outs.push(super::misuse::hex(o.as_slice()));
        } else {
            b.dirty |= o.as_slice() != MARK;
        }
        ursa_bytebuffer_free(o);
    }
    if !m.is_null() {
        unsafe { ursa_string_free(m as *mut c_char) };
    }
    std::mem::forget(err);
    b
}
fn same(sim: &mut Sim, what: &str, codes: &[i32], c: impl FnOnce() -> Bytes, lib: impl FnOnce() -> Result<Vec<Vec<u8>>, ()>) -> Option<Vec<String>> {
    let seed = sim.choose(1 << 40) + 1;
    let a = seeded(seed, c);
    let b = match sim.guard(|| seeded(seed, lib)) {
        Ok(b) => b,
        Err(p) => {
            sim.violate("library-panic", format!("{}: the library operation panicked: {:?}", what, p));
            return None;
        }
    };
    ev!(sim, "{} -> {} {}", what, a.ret, a.code);
    sim.absorb(format!("{:?}", a.outs).as_bytes());
    match b {
        Ok(outs) => {
            let outs: Vec<String> = outs.iter().map(|o| super::misuse::hex(o)).collect();
            sim.probe("call-succeeded");
            sim.check(a.ret == 1 && a.code == 0, "outcome", || format!("{}: returned {} with code {} instead of success", what, a.ret, a.code));
            sim.check(a.ret != 1 || a.outs == outs, "outputs", || format!("{}: output {:?} instead of {:?}", what, a.outs, outs));
            Some(outs)
        }
        Err(()) => {
            sim.probe("call-failed");
            sim.check(a.ret == 0, "outcome", || format!("{}: returned {} although the operation fails", what, a.ret));
            sim.check(codes.contains(&a.code), "error-code", || format!("{}: code {} instead of {:?}", what, a.code, codes));
            sim.check(!a.dirty, "output-on-failure", || format!("{}: failed with {} and changed its outputs", what, a.code));
            None
        }
    }
}

const NAMES: [&str; 5] = ["aes-128-cbc-hmac-256", "aes-256-cbc-hmac-512", "aes-128-gcm", "aes-256-gcm", "xchacha20poly1305"];
type Alias = extern "C" fn(&mut ByteBuffer, &ByteArray, &ByteArray, &ByteArray, &ByteArray, &mut ExternError) -> i32;
const ENC: [Alias; 5] = [
    ursa_aes128_cbc_hmac256_encrypt,
    ursa_aes256_cbc_hmac512_encrypt,
    ursa_aes128_gcm_encrypt,
    ursa_aes256_gcm_encrypt,
    ursa_xchacha20_poly1305_encrypt,
];
const DEC: [Alias; 5] = [
    ursa_aes128_cbc_hmac256_decrypt,
    ursa_aes256_cbc_hmac512_decrypt,
    ursa_aes128_gcm_decrypt,
    ursa_aes256_gcm_decrypt,
    ursa_xchacha20_poly1305_decrypt,
];
type Size = extern "C" fn() -> usize;
const SIZES: [[Size; 3]; 5] = [
    [ursa_aes128_cbc_hmac256_keysize, ursa_aes128_cbc_hmac256_noncesize, ursa_aes128_cbc_hmac256_tagsize],
    [ursa_aes256_cbc_hmac512_keysize, ursa_aes256_cbc_hmac512_noncesize, ursa_aes256_cbc_hmac512_tagsize],
    [ursa_aes128_gcm_keysize, ursa_aes128_gcm_noncesize, ursa_aes128_gcm_tagsize],
    [ursa_aes256_gcm_keysize, ursa_aes256_gcm_noncesize, ursa_aes256_gcm_tagsize],
    [ursa_xchacha20_poly1305_keysize, ursa_xchacha20_poly1305_noncesize, ursa_xchacha20_poly1305_tagsize],
];
const WANT: [[usize; 3]; 5] = [[32, 16, 32], [64, 16, 64], [16, 12, 16], [32, 12, 16], [32, 24, 16]];

fn arr(b: &Option<Vec<u8>>) -> ByteArray {
    match b {
        None => ByteArray::default(),
        Some(v) => ByteArray::from(v),
    }
}

pub fn encryption(sim: &mut Sim) {
    let a = sim.pick(5);
    let (ks, ns) = (WANT[a][0], WANT[a][1]);
    for i in 0..3 {
        let n = SIZES[a][i]();
        sim.check(n == WANT[a][i], "outputs", || format!("{}: size {} is {} instead of {}", NAMES[a], i, n, WANT[a][i]));
    }
    let key = sim.bytes(ks);
    let al = sim.pick(40);
    let aad = sim.bytes(al);
    let ml = *sim.of(&[0usize, 1, 7, 8, 11, 12, 15, 16, 17, 31, 32, 33, 64, 100, 1000]);
    let msg = sim.bytes(ml);
    for round in 0..3 {
        let mut key = key.clone();
        let mut nonce = if sim.coin() { Some(sim.bytes(ns)) } else { None };
        let mut name: Option<CString> = Some(CString::new(NAMES[a]).unwrap());
        let mut codes = vec![encryption_error_codes::ENCRYPTION_ERROR];
        let mut bad = false;
        if round > 0 {
            bad = true;
            match sim.choose(6) {
                0 => {
                    key.truncate(sim.pick(ks));
                    codes = vec![encryption_error_codes::INVALID_KEY_LENGTH];
                }
                1 => {
                    key.extend(sim.bytes(1));
                    codes = vec![encryption_error_codes::INVALID_KEY_LENGTH];
                }
                2 => {
                    let n = sim.pick(40);
                    let n = if n == ns { 0 } else { n };
                    nonce = Some(sim.bytes(n));
                    codes = vec![encryption_error_codes::INVALID_NONCE_LENGTH];
                }
                3 => {
                    name = Some(CString::new(*sim.of(&["", "aes", "AES-128-GCM", "aes-128-gcm ", "xchacha20-poly1305"])).unwrap());
                    codes = vec![encryption_error_codes::INVALID_CIPHER];
                }
                4 => {
                    name = if sim.coin() { None } else { Some(CString::new(vec![b'a', 0xff, 0xfe]).unwrap()) };
                    codes = vec![encryption_error_codes::INVALID_CIPHER];
                }
                _ => bad = false,
            }
        }
        let alias = !bad && sim.coin();
        let (k, n, d, i) = (Some(key.clone()), nonce.clone(), Some(aad.clone()), Some(msg.clone()));
        let nm = name.as_ref().map(|n| n.as_ptr()).unwrap_or(std::ptr::null());
        let what = format!("encrypt {} bytes with {:?} (nonce {:?}, key of {})", ml, name, nonce.as_ref().map(|n| n.len()), key.len());
        let ct = same(
            sim,
            &what,
            &codes,
            || {
                run(1, |o, e| {
                    let f = unsafe { FfiStr::from_raw(nm) };
                    if alias {
                        ENC[a](&mut o[0], &arr(&k), &arr(&n), &arr(&d), &arr(&i), e)
                    } else {
                        ursa_encrypt(&mut o[0], &f, &arr(&k), &arr(&n), &arr(&d), &arr(&i), e)
                    }
                })
            },
            || {
                if bad {
                    return Err(());
                }
                let c = EncryptorType::from_str(NAMES[a]).unwrap().gen_encryptor(&key);
                let r = match &nonce {
                    Some(n) => c.encrypt(n, &aad, &msg),
                    None => c.encrypt_easy(&aad, &msg),
                };
                r.map(|v| vec![v]).map_err(|_| ())
            },
        );
        let Some(ct) = ct else { continue };
        let mut ct = unhex(&ct[0]);
        let good = !sim.chance(400);
        let (mut key2, mut aad2, mut nonce2) = (key.clone(), aad.clone(), nonce.clone());
        let mut codes = vec![encryption_error_codes::DECRYPTION_ERROR];
        let mut refuse = false;
        if !good {
            match sim.choose(7) {
                0 => {
                    let i = sim.pick(ct.len());
                    ct[i] ^= 1 << sim.choose(8);
                }
                1 => {
                    let n = sim.pick(ct.len());
                    ct.truncate(n);
                }
                2 => ct.push(0),
                3 => key2[0] ^= 1,
                4 => aad2.push(0),
                5 => {
                    key2.pop();
                    refuse = true;
                    codes = vec![encryption_error_codes::INVALID_KEY_LENGTH];
                }
                _ => {
                    let n = ns - 1;
                    nonce2 = Some(sim.bytes(n));
                    refuse = true;
                    codes = vec![encryption_error_codes::INVALID_NONCE_LENGTH];
                }
            }
        }
        let (k, n, d, i) = (Some(key2.clone()), nonce2.clone(), Some(aad2.clone()), Some(ct.clone()));
        let pt = same(
            sim,
            &format!("decrypt {} bytes with {} (intact: {})", ct.len(), NAMES[a], good),
            &codes,
            || {
                run(1, |o, e| {
                    let cn = CString::new(NAMES[a]).unwrap();
                    let f = unsafe { FfiStr::from_raw(cn.as_ptr()) };
                    if alias {
                        DEC[a](&mut o[0], &arr(&k), &arr(&n), &arr(&d), &arr(&i), e)
                    } else {
                        ursa_decrypt(&mut o[0], &f, &arr(&k), &arr(&n), &arr(&d), &arr(&i), e)
                    }
                })
            },
            || {
                if refuse {
                    return Err(());
                }
                let c = EncryptorType::from_str(NAMES[a]).unwrap().gen_encryptor(&key2);
                let r = match &nonce2 {
                    Some(n) => c.decrypt(n, &aad2, &ct),
                    None => c.decrypt_easy(&aad2, &ct),
                };
                r.map(|v| vec![v]).map_err(|_| ())
            },
        );
        if good {
            sim.check(pt == Some(vec![super::misuse::hex(&msg)]), "outputs", || format!("{} bytes encrypted through C with {} do not decrypt to themselves: {:?}", ml, NAMES[a], pt));
        } else {
            sim.check(pt.is_none(), "outputs", || format!("an altered message decrypted through C with {}", NAMES[a]));
        }
    }
    let n = sim.pick(100);
    same(
        sim,
        &format!("{} random bytes", n),
        &[10],
        || run(1, |o, e| random_bytes(&mut o[0], n, e)),
        || ursa::encryption::random_vec(n).map(|v| vec![v]).map_err(|_| ()),
    );
    sim.probe("encryption-session");
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn ed25519(sim: &mut Sim) {
    let e = Ed25519Sha512::new();
    sim.check(
        ursa_ed25519_get_public_key_size() == 32 && ursa_ed25519_get_private_key_size() == 64 && ursa_ed25519_get_signature_size() == 64,
        "outputs",
        || "Ed25519 sizes".into(),
    );
    let kp = |r: Result<(PublicKey, PrivateKey), ursa::CryptoError>| r.map(|(p, s)| vec![p.0.to_vec(), s.0.to_vec()]).map_err(|_| ());
    let keys = if sim.coin() {
        let n = *sim.of(&[0usize, 1, 16, 32, 33, 64]);
        let seed = sim.bytes(n);
        let s = if sim.chance(100) { None } else { Some(seed.clone()) };
        let lib = s.clone().unwrap_or_default();
        same(
            sim,
            &format!("keypair from a seed of {}", n),
            &[ed25519_error_codes::KEYPAIR_ERROR],
            || {
                run(2, |o, er| {
                    let (p, q) = o.split_at_mut(1);
                    ursa_ed25519_keypair_from_seed(&arr(&s), &mut p[0], &mut q[0], er)
                })
            },
            || kp(e.keypair(Some(KeyGenOption::UseSeed(lib)))),
        )
    } else {
        same(
            sim,
            "new keypair",
            &[ed25519_error_codes::KEYPAIR_ERROR],
            || {
                run(2, |o, er| {
                    let (p, q) = o.split_at_mut(1);
                    ursa_ed25519_keypair_new(&mut p[0], &mut q[0], er)
                })
            },
            || kp(e.keypair(None)),
        )
    };
    let Some(keys) = keys else { return };
    let (pk, sk) = (unhex(&keys[0]), unhex(&keys[1]));
    let n = *sim.of(&[0usize, 1, 63, 64, 200]);
    let msg = sim.bytes(n);
    for round in 0..4 {
        let mut sk2 = sk.clone();
        if round > 0 {
            match sim.choose(4) {
                0 => sk2.truncate(sim.pick(64)),
                1 => sk2.push(1),
                2 => {
                    let i = sim.pick(64);
                    sk2[i] ^= 1 << sim.choose(8);
                }
                _ => {}
            }
        }
        let s = if round > 0 && sim.chance(60) { None } else { Some(sk2.clone()) };
        let lib = s.clone().unwrap_or_default();
        let got = same(
            sim,
            &format!("public key of a secret key of {} bytes", lib.len()),
            &[ed25519_error_codes::KEYPAIR_ERROR],
            || run(1, |o, er| ursa_ed25519_get_public_key(&arr(&s), &mut o[0], er)),
            || e.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(lib.clone())))).map(|(p, _)| vec![p.0.to_vec()]).map_err(|_| ()),
        );
        if round == 0 {
            sim.check(got == Some(vec![keys[0].clone()]), "outputs", || "the public key of a secret key is not its own".into());
        }
        let m = if sim.chance(60) { None } else { Some(msg.clone()) };
        let lm = m.clone().unwrap_or_default();
        let sig = same(
            sim,
            &format!("sign {} bytes with a key of {}", lm.len(), lib.len()),
            &[ed25519_error_codes::SIGNING_ERROR],
            || run(1, |o, er| ursa_ed25519_sign(&arr(&m), &arr(&s), &mut o[0], er)),
            || e.sign(&lm, &PrivateKey(lib.clone())).map(|s| vec![s]).map_err(|_| ()),
        );
        let Some(sig) = sig else { continue };
        let mut sig = unhex(&sig[0]);
        let mut pk2 = pk.clone();
        let mut m2 = lm.clone();
        match sim.choose(7) {
            0 => {
                let i = sim.pick(64);
                sig[i] ^= 1 << sim.choose(8);
            }
            1 => sig.truncate(sim.pick(64)),
            2 => sig.push(0),
            3 => {
                let i = sim.pick(32);
                pk2[i] ^= 1 << sim.choose(8);
            }
            4 => pk2.truncate(sim.pick(32)),
            5 => m2.push(0),
            _ => {}
        }
        let v = seeded(1, || run(0, |_, er| ursa_ed25519_verify(&arr(&Some(m2.clone())), &arr(&Some(sig.clone())), &arr(&Some(pk2.clone())), er)));
        let l = sim.guard(|| e.verify(&m2, &sig, &PublicKey(pk2.clone())).map_err(|e| e.to_string()));
        ev!(sim, "verify -> {} {}", v.ret, v.code);
        let Ok(l) = l else { continue };
        match l {
            Ok(true) => sim.check(v.ret == 1 && v.code == 0, "outcome", || format!("verify returned {} {}", v.ret, v.code)),
            Ok(false) => sim.check(v.ret == 0, "outcome", || format!("verify returned {} for a signature that does not verify", v.ret)),
            Err(e) => sim.check(v.ret == 0 && v.code == ed25519_error_codes::VERIFY_ERROR, "outcome", || format!("verify returned {} {} instead of failing ({})", v.ret, v.code, e)),
        };
    }
    sim.probe("ed25519-session");
}

// ---- the logger --------------------------------------------------------------------------------

static LINES: AtomicUsize = AtomicUsize::new(0);
static BAD: Mutex<Vec<String>> = Mutex::new(Vec::new());
static STATE: Mutex<(bool, bool)> = Mutex::new((false, false));
static CONTEXT: u32 = 0x10661;

extern "C" fn on_enabled(ctx: *const c_void, level: u32, target: *const c_char) -> bool {
    note(ctx, level, &[target]);
    true
}
extern "C" fn on_log(ctx: *const c_void, level: u32, target: *const c_char, message: *const c_char, module: *const c_char, file: *const c_char, line: u32) {
    note(ctx, level, &[target, message]);
    for p in [module, file] {
        if !p.is_null() {
            note(ctx, level, &[p]);
        }
    }
    if line == 0 {
        BAD.lock().unwrap().push("no line number".into());
    }
    LINES.fetch_add(1, Ordering::SeqCst);
}
extern "C" fn on_flush(ctx: *const c_void) {
    note(ctx, 1, &[]);
}
fn note(ctx: *const c_void, level: u32, texts: &[*const c_char]) {
    let mut bad = BAD.lock().unwrap();
    if ctx != &CONTEXT as *const u32 as *const c_void {
        bad.push("foreign logger context".into());
    }
    if !(1..=5).contains(&level) {
        bad.push(format!("level {}", level));
    }
    for t in texts {
        if t.is_null() || unsafe { CStr::from_ptr(*t) }.to_str().is_err() {
            bad.push("logger text missing".into());
        }
    }
}

/// The logger is set once per process; later attempts are refused, and missing handlers too.
/// While it is on, operations still give their usual results and every line reaches the callback.
pub fn logger(sim: &mut Sim) {
    let ctx = &CONTEXT as *const u32 as *const c_void;
    refused(sim, "set a logger without a log handler", &[102], || Out::c(ursa_set_logger(ctx, Some(on_enabled), None, Some(on_flush))));
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    let want = if g.0 { vec![112usize] } else { vec![0] };
    g.0 = true;
    refused(sim, "set a logger", if want[0] == 0 { &[0] } else { &[112] }, || Out::c(ursa_set_logger(ctx, Some(on_enabled), Some(on_log), Some(on_flush))));
    refused(sim, "set a second logger", &[112], || Out::c(ursa_set_logger(ctx, None, Some(on_log), None)));
    refused(sim, "set the default logger after one was set", &[112], || Out::c(ursa_set_default_logger(cs("trace").as_ptr())));
    refused(sim, "set the default logger with a malformed pattern", &[100], || Out::c(ursa_set_default_logger(b"\xff\xfe\0".as_ptr() as *const c_char)));
    log::set_max_level(log::LevelFilter::Trace);
    BAD.lock().unwrap().clear();
    let before = LINES.load(Ordering::SeqCst);
    let r = sim.guard(|| {
        let mut n = sent();
        let c = ursa::ffi::cl::ursa_cl_new_nonce(&mut n);
        let mut p: *const c_char = std::ptr::null();
        let c2 = ursa::ffi::cl::ursa_cl_nonce_to_json(n, &mut p);
        take_string(p);
        let c3 = ursa::ffi::cl::ursa_cl_nonce_from_json(cs("{\"a\":\"\\u0000%s%n\"}").as_ptr(), &mut n);
        log::logger().flush();
        (c, c2, c3)
    });
    log::set_max_level(log::LevelFilter::Off);
    drop(g);
    let after = LINES.load(Ordering::SeqCst);
    let bad = BAD.lock().unwrap().clone();
    sim.check(matches!(r, Ok((ErrorCode::Success, ErrorCode::Success, ErrorCode::CommonInvalidStructure))), "outcome", || format!("operations with a logger set returned {:?}", r));
    sim.check(after > before, "outputs", || "no log line reached the callback".into());
    sim.check(bad.is_empty(), "outputs", || format!("log callback: {:?}", bad));
    let k = sim.choose(1 << 30);
    ev!(sim, "logger {}", k);
    sim.probe("logger-used");
}
