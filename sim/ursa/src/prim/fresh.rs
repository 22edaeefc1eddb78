//! C24: secret randomness is fresh, comes from the operating system's source and its failure is
//! never hidden.
use crate::cl::present;
use crate::cl::world::*;
use simcore::{entropy, ev, threads, Sim, Tier};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use ursa::bls;
use ursa::bn::BigNumber;
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::*;
use ursa::encryption::symm::prelude::*;
use ursa::kex::{secp256k1::EcdhSecp256k1Sha256, x25519::X25519Sha256, KeyExchangeScheme};
use ursa::pair::{GroupOrderElement, PointG1, PointG2};
use ursa::sharing::shamir;
use ursa::signatures::bls::{normal, small};
use ursa::signatures::{ed25519::Ed25519Sha512, secp256k1::EcdsaSecp256k1Sha256, SignatureScheme};

/// A value that must never come twice. `uniform`: every bit of it is random.
#[derive(Clone)]
struct Token {
    label: String,
    bytes: Vec<u8>,
    uniform: bool,
    /// upper limit on the length in bits that random values reach
    bits: Option<usize>,
}
fn uni(label: &str, bytes: Vec<u8>) -> Token {
    Token { label: label.into(), bytes, uniform: true, bits: None }
}
fn free(label: &str, bytes: Vec<u8>) -> Token {
    Token { label: label.into(), bytes, uniform: false, bits: None }
}
fn big(label: &str, dec: &str, bits: usize) -> Token {
    let n = openssl::bn::BigNum::from_dec_str(dec).unwrap();
    Token { label: label.into(), bytes: n.to_vec(), uniform: false, bits: Some(bits) }
}
type Out = Result<Vec<Token>, String>;
#[derive(Clone)]
struct Op {
    name: &'static str,
    /// times per run
    cost: u32,
    /// entropy (bytes) an execution of this in a fresh thread has to draw at least
    need: u64,
    run: Arc<dyn Fn() -> Out + Send + Sync>,
}
fn op(name: &'static str, cost: u32, need: u64, f: impl Fn() -> Out + Send + Sync + 'static) -> Op {
    Op { name, cost, need, run: Arc::new(f) }
}
fn e<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}
fn bn(b: &BigNumber) -> Vec<u8> {
    b.to_bytes().unwrap()
}
macro_rules! cipher_ops {
    ($v:ident, $($t:ident: $k:expr, $n:expr;)*) => { $(
        $v.push(op(concat!(stringify!($t), " key"), 48, $k, || {
            let k = e($t::key_gen())?;
            Ok(vec![uni("key", k.as_slice().to_vec())])
        }));
        $v.push(op(concat!(stringify!($t), " nonce"), 48, $n, || {
            let k = e($t::nonce_gen())?;
            Ok(vec![uni("nonce", k.as_slice().to_vec())])
        }));
        $v.push(op(concat!(stringify!($t), " encrypt_easy"), 48, $n, || {
            let c = SymmetricEncryptor::<$t>::new_with_key([7u8; $k]).map_err(|e| format!("{:?}", e))?;
            let m = c.encrypt_easy(&b"aad"[..], &b"the same message"[..]).map_err(|e| format!("{:?}", e))?;
            Ok(vec![uni("nonce", m[..$n].to_vec()), free("body", m[$n..].to_vec())])
        }));
        $v.push(op(concat!(stringify!($t), " encrypt_buffer"), 48, $n, || {
            let c = SymmetricEncryptor::<$t>::new_with_key([7u8; $k]).map_err(|e| format!("{:?}", e))?;
            let mut m = vec![];
            c.encrypt_buffer(b"aad", &mut &b"the same message"[..], &mut m).map_err(|e| format!("{:?}", e))?;
            Ok(vec![uni("nonce", m[..$n].to_vec()), free("body", m[$n..].to_vec())])
        }));
        $v.push(op(concat!(stringify!($t), " default"), 48, $k, || {
            let c = SymmetricEncryptor::<$t>::default();
            let m = c.encrypt(&[3u8; $n][..], &b"aad"[..], &b"the same message"[..]).map_err(|e| format!("{:?}", e))?;
            Ok(vec![free("sealed with the key", m)])
        }));
    )* };
}

fn primitives() -> Vec<Op> {
    let mut v = vec![];
    cipher_ops! { v,
        Aes128CbcHmac256: 32, 16; Aes256CbcHmac512: 64, 16; Aes128Gcm: 16, 12;
        Aes256Gcm: 32, 12; XChaCha20Poly1305: 32, 24; ChaCha20Poly1305: 32, 12;
    }
    macro_rules! keypair {
        ($name:expr, $s:expr, $skip:expr) => {
            v.push(op($name, 48, 32, move || {
                let (pk, sk) = e($s.keypair(None))?;
                let mut t = vec![free("public", pk[..].to_vec()), free("secret", sk[..].to_vec())];
                let s: Vec<u8> = sk[$skip..$skip + 31].to_vec();
                t.push(uni("part of the secret", s));
                Ok(t)
            }));
        };
    }
    keypair!("ed25519 keypair", Ed25519Sha512::new(), 0);
    keypair!("secp256k1 keypair", EcdsaSecp256k1Sha256::new(), 0);
    keypair!("secp256k1 kex keypair", EcdhSecp256k1Sha256::new(), 0);
    v.push(op("x25519 keypair", 48, 32, || {
        let (pk, sk) = e(X25519Sha256::new().keypair(None))?;
        Ok(vec![free("public", pk[..].to_vec()), uni("part of the secret", sk[1..31].to_vec())])
    }));
    keypair!("bls12381 keypair", normal::Bls::new(), 17);
    keypair!("bls12381 small keypair", small::Bls::new(), 17);
    v.push(op("bls12381 generate", 48, 32, || {
        use amcl_wrapper::group_elem::GroupElement;
        let (_, sk) = normal::generate(&normal::Generator::generator());
        let b = sk.to_bytes();
        Ok(vec![uni("part of the secret", b[b.len() - 31..].to_vec())])
    }));
    v.push(op("bn254 sign key", 48, 32, || {
        let k = e(bls::SignKey::new(None))?;
        let b = k.as_bytes().to_vec();
        let n = b.len();
        Ok(vec![free("secret", b.clone()), uni("part of the secret", b[n - 30..].to_vec())])
    }));
    v.push(op("bn254 generator", 8, 32, || Ok(vec![free("generator", e(bls::Generator::new())?.as_bytes().to_vec())])));
    v.push(op("group order element", 48, 32, || {
        let b = e(e(GroupOrderElement::new())?.to_bytes())?;
        let n = b.len();
        Ok(vec![uni("low part", b[n - 30..].to_vec())])
    }));
    v.push(op("point in G1", 8, 32, || Ok(vec![free("point", e(e(PointG1::new())?.to_bytes())?)])));
    v.push(op("point in G2", 8, 32, || Ok(vec![free("point", e(e(PointG2::new())?.to_bytes())?)])));
    v.push(op("big number", 48, 32, || {
        let a = e(BigNumber::rand(512))?;
        let r = e(BigNumber::from_dec("1606938044258990275541962092341162602522202993782792835301376"))?;
        let b = e(r.rand_range())?;
        let (x, y) = (e(a.to_dec())?, e(b.to_dec())?);
        Ok(vec![big("rand", &x, 512), big("rand_range", &y, 200)])
    }));
    v.push(op("primes", 5, 32, || {
        let s = e(BigNumber::from_dec("1606938044258990275541962092341162602522202993782792835301376"))?;
        let t = e(BigNumber::from_dec("3213876088517980551083924184682325205044405987565585670602752"))?;
        Ok(vec![
            free("generate_prime", bn(&e(BigNumber::generate_prime(160))?)),
            free("generate_prime_in_range", bn(&e(BigNumber::generate_prime_in_range(&s, &t))?)),
            free("generate_safe_prime", bn(&e(BigNumber::generate_safe_prime(96))?)),
            free("random_qr", bn(&e(BigNumber::random_qr(&t))?)),
        ])
    }));
    v.push(op("nonce", 48, 10, || {
        let n = e(new_nonce())?;
        let d = e(n.to_dec())?;
        Ok(vec![big("nonce", &d, 80)])
    }));
    v.push(op("master secret", 48, 32, || {
        let m = e(Prover::new_master_secret())?;
        let d = e(e(m.value())?.to_dec())?;
        Ok(vec![big("secret", &d, 256)])
    }));
    v.push(op("shares", 12, 32, || {
        // 2^255 - 19
        let p = e(BigNumber::from_dec("57896044618658097711785492504343953926634992332820282019728792003956564819949"))?;
        let s = e(shamir::split_secret(&[42u8; 16], 3, 5, &p))?;
        Ok(s.iter().map(|s| Token { label: format!("share {}", s.identifier), bytes: bn(&s.value), uniform: false, bits: Some(255) }).collect())
    }));
    v
}

fn leaves(v: &serde_json::Value, at: &str, out: &mut Vec<(String, String)>) {
    match v {
        serde_json::Value::Object(m) => m.iter().for_each(|(k, x)| leaves(x, &format!("{}/{}", at, k), out)),
        serde_json::Value::Array(a) => {
            if a.len() > 16 && a.iter().all(|x| x.is_u64()) {
                // bytes
                out.push((at.into(), v.to_string()));
            } else {
                a.iter().enumerate().for_each(|(i, x)| leaves(x, &format!("{}/{}", at, i), out))
            }
        }
        serde_json::Value::String(s) => out.push((at.into(), s.clone())),
        x => out.push((at.into(), x.to_string())),
    }
}
/// All scalars of a message but the ones that are determined by the inputs.
fn tokens<T: serde::Serialize>(what: &str, t: &T, fixed: &dyn Fn(&str) -> bool, bits: &dyn Fn(&str) -> Option<usize>) -> Vec<Token> {
    let mut l = vec![];
    leaves(&jv(t), what, &mut l);
    l.into_iter()
        .filter(|(k, s)| !fixed(k) && s.len() >= 20)
        .map(|(k, s)| match bits(&k) {
            Some(b) => big(&k, s.trim_start_matches('-'), b),
            None => free(&k, s.into_bytes()),
        })
        .collect()
}

fn num(s: &str) -> openssl::bn::BigNum {
    openssl::bn::BigNum::from_dec_str(s).unwrap()
}
fn multiple(d: &openssl::bn::BigNum, c: &openssl::bn::BigNum) -> bool {
    let mut x = openssl::bn::BigNumContext::new().unwrap();
    let (mut q, mut rest) = (openssl::bn::BigNum::new().unwrap(), openssl::bn::BigNum::new().unwrap());
    q.div_rem(&mut rest, d, c, &mut x).unwrap();
    rest.num_bits() == 0
}
/// A response is `mask + c * secret` over the integers: the difference of two is a multiple of
/// `c` only if they have the same mask (and then it gives the difference of the secrets).
fn shared_mask(rs: &[(String, String, String)], c: &str) -> Option<String> {
    let c = num(c);
    for (i, (k, group, s)) in rs.iter().enumerate() {
        for (l, other, t) in &rs[..i] {
            if group == other && !group.is_empty() {
                continue; // the same value on purpose
            }
            if multiple(&(&num(s) - &num(t)), &c) {
                return Some(format!("{} and {} are hidden by the same random number", l, k));
            }
        }
    }
    None
}
/// The integer responses of a presentation, with a name for those that share a mask on purpose.
fn responses(p: &serde_json::Value, common: &[String]) -> Vec<(String, String, String)> {
    let mut out = vec![];
    for (i, sp) in p["proofs"].as_array().unwrap().iter().enumerate() {
        let eq = &sp["primary_proof"]["eq_proof"];
        let who = |a: &str| if common.iter().any(|c| c == a) { format!("common {}", a) } else { format!("{} {}", i, a) };
        for k in &["e", "v", "m2"] {
            out.push((format!("{}/{}", i, k), String::new(), eq[*k].as_str().unwrap().into()));
        }
        for (a, v) in eq["m"].as_object().unwrap() {
            out.push((format!("{}/m/{}", i, a), who(a), v.as_str().unwrap().into()));
        }
        let list = if sp["primary_proof"]["ge_proofs"].is_array() { "ge_proofs" } else { "ne_proofs" };
        for (j, ge) in sp["primary_proof"][list].as_array().unwrap().iter().enumerate() {
            for f in &["u", "r"] {
                for (k, v) in ge[*f].as_object().unwrap() {
                    out.push((format!("{}/{}/{}/{}", i, j, f, k), String::new(), v.as_str().unwrap().into()));
                }
            }
            out.push((format!("{}/{}/alpha", i, j), String::new(), ge["alpha"].as_str().unwrap().into()));
            let a = ge["predicate"]["attr_name"].as_str().unwrap();
            out.push((format!("{}/{}/mj", i, j), who(a), ge["mj"].as_str().unwrap().into()));
        }
    }
    out
}

fn credential_ops(sim: &mut Sim) -> Vec<Op> {
    let mut v = vec![];
    let plain = *sim.of(&[1u64, 5]);
    let rev = *sim.of(&revocable()) % 7;
    let gen = |sim: &mut Sim, fx: u64| -> Vec<Val> {
        let f = fixture(fx);
        gen_values(sim, &f, MS[0])
    };
    let vals = gen(sim, plain);
    {
        let vals = vals.clone();
        v.push(op("blind credential secrets", 4, 64, move || {
            let k = keys(plain);
            let n = e(BigNumber::from_dec("604462909807314587353111"))?;
            let (b, f, p) = e(Prover::blind_credential_secrets(&k.pk, &k.proof, &values(&vals), &n))?;
            let mut t = tokens("secrets", &b, &|_| false, &|_| None);
            let v = jv(&p);
            let mut l = vec![];
            leaves(&v, "proof", &mut l);
            let rs: Vec<_> = l.into_iter().filter(|(k, _)| !k.ends_with("/c")).map(|(k, s)| (k, String::new(), s)).collect();
            if let Some(m) = shared_mask(&rs, v["c"].as_str().unwrap()) {
                return Err(m);
            }
            t.extend(tokens("factors", &f, &|_| false, &|k| if k.ends_with("v_prime") { Some(2128) } else { None }));
            t.extend(tokens("proof", &p, &|_| false, &|k| {
                if k.contains("m_caps") {
                    Some(592)
                } else if k.ends_with("v_dash_cap") {
                    Some(2128 + 256)
                } else {
                    None
                }
            }));
            Ok(t)
        }));
    }
    {
        let vals = vals.clone();
        // one request, signed again and again
        let k = keys(plain);
        let n1 = BigNumber::from_dec("1234567890123456789012").unwrap();
        let r = Prover::blind_credential_secrets(&k.pk, &k.proof, &values(&vals), &n1);
        if let Ok((b, _, p)) = r {
            let (b, p) = (js(&b), js(&p));
            v.push(op("sign a credential", 4, 64, move || {
                let k = keys(plain);
                let n1 = e(BigNumber::from_dec("1234567890123456789012"))?;
                let n2 = e(BigNumber::from_dec("604462909807314587353111"))?;
                let (s, p) = e(Issuer::sign_credential("prover", &parse(&b), &parse(&p), &n1, &n2, &known_values(&vals), &k.pk, &k.sk))?;
                let mut t = tokens("signature", &s, &|k| k.ends_with("m_2"), &|k| if k.ends_with("/v") { Some(2724) } else { None });
                t.extend(tokens("proof", &p, &|_| false, &|_| None));
                Ok(t)
            }));
        } else {
            sim.probe("request-failed");
        }
    }
    {
        let vals = gen(sim, rev);
        let k = keys(rev);
        let rf = reg_fixture(rev, 4, true, 0);
        let n1 = BigNumber::from_dec("1234567890123456789012").unwrap();
        if let Ok((b, _, p)) = Prover::blind_credential_secrets(&k.pk, &k.proof, &values(&vals), &n1) {
            let (b, p) = (js(&b), js(&p));
            v.push(op("sign a revocable credential", 2, 64, move || {
                let k = keys(rev);
                let n1 = e(BigNumber::from_dec("1234567890123456789012"))?;
                let n2 = e(BigNumber::from_dec("604462909807314587353111"))?;
                let tails = SimTails::new(&rf);
                let mut rr: RevocationRegistry = parse(&rf.reg);
                let rks: RevocationKeyPrivate = parse(&rf.rks);
                let (s, p, _) = e(Issuer::sign_credential_with_revoc("prover", &parse(&b), &parse(&p), &n1, &n2, &known_values(&vals), &k.pk, &k.sk, 2, 4, true, &mut rr, &rks, &tails))?;
                let fixed = |k: &str| k.ends_with("m_2") || k.ends_with("m2") || k.contains("witness_signature") || k.ends_with("g_i") || k.ends_with("/i");
                let mut t = tokens("signature", &s, &fixed, &|_| None);
                t.extend(tokens("proof", &p, &|_| false, &|_| None));
                Ok(t)
            }));
        }
    }
    let fx = *sim.of(&revocable()) % 7;
    v.push(op("registry", 2, 32, move || {
        let k = keys(fx);
        let (pk, sk, _, mut tails) = e(Issuer::new_revocation_registry_def(&k.pk, 2, false))?;
        let mut t = tokens("public", &pk, &|_| false, &|_| None);
        t.extend(tokens("secret", &sk, &|_| false, &|_| None));
        // the first tail is the public generator
        let _ = e(tails.try_next())?;
        if let Some(x) = e(tails.try_next())? {
            t.extend(tokens("tail", &x, &|_| false, &|_| None));
        }
        Ok(t)
    }));
    v
}

/// A key for a schema of one attribute: takes too long to complete, but must fail when starved.
fn key_op() -> Op {
    op("credential key", 1, 64, || {
        let f = fixture(1);
        let (s, ns) = schemas(&f.attrs, &f.non_attrs);
        let (_, sk, _) = e(Issuer::new_credential_def(&s, &ns, false))?;
        Ok(tokens("secret", &sk, &|_| false, &|_| None))
    })
}

fn choose_op(sim: &mut Sim) -> Op {
    if sim.chance(350) {
        let v = credential_ops(sim);
        v[sim.pick(v.len())].clone()
    } else {
        let v = primitives();
        v[sim.pick(v.len())].clone()
    }
}

struct Seen {
    all: BTreeMap<Vec<u8>, (usize, String)>,
    uniform: BTreeMap<(String, usize), (u64, Vec<u8>, Vec<u8>)>,
    bits: BTreeMap<String, (u64, usize, usize)>,
    n: usize,
}
impl Seen {
    fn new() -> Seen {
        Seen { all: BTreeMap::new(), uniform: BTreeMap::new(), bits: BTreeMap::new(), n: 0 }
    }
    fn add(&mut self, sim: &mut Sim, name: &str, ts: &[Token]) {
        self.n += 1;
        let n = self.n;
        for t in ts {
            if t.bytes.len() >= 8 {
                match self.all.insert(t.bytes.clone(), (n, t.label.clone())) {
                    // within one output values may recur
                    Some((m, l)) if m != n => sim.violate("repeats", format!("{}: {} of execution {} is {} of execution {}", name, t.label, n, l, m)),
                    _ => {}
                }
            }
            if t.uniform {
                let u = self.uniform.entry((t.label.clone(), t.bytes.len())).or_insert((0, vec![0xff; t.bytes.len()], vec![0; t.bytes.len()]));
                u.0 += 1;
                for (i, b) in t.bytes.iter().enumerate() {
                    u.1[i] &= b;
                    u.2[i] |= b;
                }
            }
            if let Some(b) = t.bits {
                let len = openssl::bn::BigNum::from_slice(&t.bytes).unwrap().num_bits() as usize;
                let e = self.bits.entry(t.label.clone()).or_insert((0, 0, b));
                e.0 += 1;
                e.1 = e.1.max(len);
                sim.check(len <= b + 8, "too-wide", || format!("{}: {} has {} of at most {} bits", name, t.label, len, b));
            }
            sim.absorb(&t.bytes);
        }
    }
    fn finish(&self, sim: &mut Sim, name: &str) {
        for ((l, len), (n, and, or)) in &self.uniform {
            if *n >= 48 {
                for i in 0..*len {
                    sim.check(and[i] == 0 && or[i] == 0xff, "constant-bits", || {
                        format!("{}: bits of byte {} of {} never change ({:02x} in all, {:02x} in any)", name, i, l, and[i], or[i])
                    });
                }
            }
        }
        for (l, (n, max, want)) in &self.bits {
            // each execution reaches the top four bits with probability 15/16
            let slack = if *n >= 8 { 5 } else { 4 + 40 / *n as usize };
            sim.check(*max + slack >= *want, "too-narrow", || format!("{}: {} has at most {} of {} bits in {} executions", name, l, max, want, n));
        }
    }
}

/// The same operation again and again: in one thread, in concurrent ones, after restarts.
pub fn repeat(sim: &mut Sim) {
    let o = choose_op(sim);
    ev!(sim, "{}", o.name);
    let mut left = o.cost.max(3) as usize;
    let mut seen = Seen::new();
    let small = o.cost < 10;
    while left > 0 {
        match sim.choose(if small { 3 } else { 4 }) {
            0 => {
                // here
                for _ in 0..(1 + sim.pick(3)).min(left) {
                    let r = sim.no_panic(o.name, || (o.run)());
                    left -= 1;
                    done(sim, &o, r, &mut seen);
                }
            }
            1 => {
                // a restarted process: another thread, nothing carried over
                sim.note_fault("crash.restart");
                let seed = sim.choose(u64::MAX);
                let run = o.run.clone();
                let r = sim.no_panic(o.name, || isolated(seed, move || run()));
                left -= 1;
                done(sim, &o, r, &mut seen);
                sim.probe("restarted");
            }
            _ => {
                // two or three threads at once, switched at draws of randomness
                let n = if left < 3 { 2 } else { 2 + sim.pick(2) };
                let each = 1 + sim.pick(if small { 1 } else { 4 });
                let seeds: Vec<u64> = (0..n).map(|_| sim.choose(u64::MAX)).collect();
                let jobs: Vec<Box<dyn FnOnce() -> Vec<Out>>> = seeds
                    .iter()
                    .map(|s| {
                        let (s, run) = (*s, o.run.clone());
                        Box::new(move || {
                            entropy::seed_thread(s);
                            entropy::pause_at_draws(Some(threads::pause));
                            let r = (0..each).map(|_| run()).collect();
                            entropy::pause_at_draws(None);
                            r
                        }) as Box<dyn FnOnce() -> Vec<Out>>
                    })
                    .collect();
                let (rs, rep) = threads::lock_step(sim, jobs);
                if rep.blocked {
                    sim.probe("blocked");
                }
                for r in rs {
                    match r {
                        Ok(v) => v.into_iter().for_each(|r| done(sim, &o, r, &mut seen)),
                        Err(m) => sim.stop(&format!("panic:{}", o.name), m),
                    }
                }
                left = left.saturating_sub(n * each);
                sim.probe("threads");
            }
        }
    }
    seen.finish(sim, o.name);
    sim.probe("repeat");
}
fn done(sim: &mut Sim, o: &Op, r: Out, seen: &mut Seen) {
    match r {
        Ok(t) => seen.add(sim, o.name, &t),
        Err(m) => sim.stop(&format!("failed:{}", o.name), format!("{} failed: {}", o.name, m)),
    }
}

/// What the result of an operation in a fresh process depends on.
pub fn source(sim: &mut Sim) {
    let o = choose_op(sim);
    ev!(sim, "{}", o.name);
    let seed = sim.choose(u64::MAX);
    let go = |sim: &mut Sim, seed: u64| {
        let run = o.run.clone();
        let r = sim.no_panic(o.name, || {
            isolated(seed, move || {
                let r = run();
                (r, entropy::source_bytes())
            })
        });
        match r {
            (Ok(t), n) => (t, n),
            (Err(m), _) => sim.stop(&format!("failed:{}", o.name), format!("{} failed: {}", o.name, m)),
        }
    };
    let (a, na) = go(sim, seed);
    let (b, nb) = go(sim, seed);
    let (c, _) = go(sim, seed ^ 1);
    let same = |x: &[Token], y: &[Token]| {
        let key = |x: &[Token]| x.iter().map(|t| (t.label.clone(), t.bytes.clone())).collect::<BTreeSet<_>>();
        key(x) == key(y)
    };
    sim.check(same(&a, &b) && na == nb, "foreign-randomness", || format!("{}: the same random bytes gave other results: some randomness is not from the operating system", o.name));
    sim.check(!same(&a, &c), "repeats", || format!("{}: other random bytes gave the same result", o.name));
    sim.check(na >= o.need, "too-little-entropy", || format!("{}: drew {} bytes of entropy, needs {}", o.name, na, o.need));
    for t in &a {
        sim.absorb(&t.bytes);
    }
    sim.probe("source");
}

/// The source fails at some draw.
pub fn starved(sim: &mut Sim) {
    let o = if sim.chance(60) { key_op() } else { choose_op(sim) };
    ev!(sim, "{}", o.name);
    let seed = sim.choose(u64::MAX);
    // number of draws when nothing fails
    let total = if o.cost == 1 {
        40
    } else {
        let run = o.run.clone();
        let r = sim.no_panic(o.name, || isolated(seed, move || (run().map(|_| ()), entropy::draws())));
        match r {
            (Ok(()), n) => n,
            (Err(m), _) => sim.stop(&format!("failed:{}", o.name), m),
        }
    };
    sim.check(total > 0, "too-little-entropy", || format!("{} drew no entropy", o.name));
    let at = if sim.chance(400) { 0 } else { sim.choose(total.max(1)) };
    // once or for good
    let heal = sim.coin();
    sim.note_fault("entropy.fail");
    let run = o.run.clone();
    let recovers = o.cost > 1;
    let r = sim.guard(|| {
        isolated(seed, move || {
            entropy::fail_after(at);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run()));
            let failures = entropy::failures();
            entropy::heal();
            let after = if recovers && heal {
                Some(match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run())) {
                    Ok(Ok(t)) => Ok(t),
                    Ok(Err(m)) => Err(m),
                    Err(_) => Err("panicked".into()),
                })
            } else {
                None
            };
            (r.map_err(|_| ()), failures, after)
        })
    });
    let (r, failures, after) = match r {
        Ok(x) => x,
        Err(p) => sim.stop("starved", format!("{} ended the thread: {}", o.name, p.message)),
    };
    if failures == 0 {
        sim.probe("not-reached");
    } else {
        match &r {
            Ok(Ok(_)) => sim.violate("failure-hidden", format!("{} returned a result although draw {} of {} failed", o.name, at + 1, total)),
            Ok(Err(_)) => sim.probe("failed-with-error"),
            Err(()) => sim.probe("failed-with-panic"),
        }
    }
    if let Some(Err(m)) = &after {
        sim.violate("no-recovery", format!("{} does not work once the source is back: {}", o.name, m));
    }
    if let Some(Ok(t)) = &after {
        for t in t {
            sim.absorb(&t.bytes);
        }
    }
    sim.absorb(&at.to_be_bytes());
}

/// Presentations of the same credentials: nothing in one links it to another.
pub fn presentations(sim: &mut Sim) {
    let many = if sim.tier == Tier::Quick { 6 } else { 12 };
    let r = present::gen_request(sim, 2, 3);
    let n = 3 + sim.pick(many);
    let mut seen = Seen::new();
    let mut made: Vec<serde_json::Value> = vec![];
    let nonces: Vec<_> = {
        let fixed = sim.must("new_nonce", new_nonce);
        (0..n)
            .map(|_| if sim.chance(300) { js(&fixed) } else { js(&sim.must("new_nonce", new_nonce)) })
            .collect()
    };
    let fixed = |k: &str| k.contains("revealed_attrs") || k.contains("predicate");
    // sizes of the responses
    let bits = |k: &str| {
        let last = k.rsplit('/').next().unwrap_or("");
        if k.contains("eq_proof/m/") || k.ends_with("eq_proof/m2") {
            Some(593)
        } else if k.ends_with("eq_proof/v") {
            Some(3060)
        } else if k.ends_with("eq_proof/e") {
            Some(456)
        } else if k.contains("ne_proofs/") || k.contains("ge_proofs/") {
            if k.contains("/u/") {
                Some(592)
            } else if k.contains("/r/") {
                Some(672)
            } else if last == "alpha" {
                Some(2787)
            } else {
                None
            }
        } else {
            None
        }
    };
    for x in &nonces {
        let nonce: Nonce = parse(x);
        let p = present::honest(sim, &r, &nonce);
        let t = tokens("proof", &p, &fixed, &|k| if bits(k).is_some() { None } else { None });
        seen.add(sim, "presentation", &t);
        let pv = jv(&p);
        if let Some(m) = shared_mask(&responses(&pv, &r.common), pv["aggregated_proof"]["c_hash"].as_str().unwrap()) {
            sim.violate("mask-shared", m);
        }
        made.push(pv);
        // the blinded responses are as wide as their blinding
        let mut l = vec![];
        leaves(&jv(&p), "proof", &mut l);
        for (k, s) in l {
            if let Some(b) = bits(&k) {
                let v = openssl::bn::BigNum::from_dec_str(s.trim_start_matches('-')).unwrap();
                let len = v.num_bits() as usize;
                let e = seen.bits.entry(k).or_insert((0, 0, b));
                e.0 += 1;
                e.1 = e.1.max(len);
            }
        }
    }
    // common attributes have one blinding shorter by a bit
    for v in seen.bits.values_mut() {
        if v.2 == 593 {
            v.2 = 592;
        }
    }
    seen.finish(sim, "presentation");
    // the same secret in two presentations: two masks
    for i in 1..made.len() {
        let (a, b) = (&made[i - 1], &made[i]);
        let c = |v: &serde_json::Value| num(v["aggregated_proof"]["c_hash"].as_str().unwrap());
        let dc = &c(a) - &c(b);
        for ((k, _, x), (l, _, y)) in responses(a, &r.common).iter().zip(responses(b, &r.common)) {
            // four squares may be found in another order, maps are in no order
            if *k == l && multiple(&(&num(x) - &num(&y)), &dc) {
                sim.violate("mask-shared", format!("{} is hidden by the same random number in two presentations", k));
            }
        }
    }
    twice(sim, &r);
    ev!(sim, "{} presentations of {:?}", n, r);
    sim.probe("presentations");
}

/// One builder asked to answer two challenges: the difference of two answers with the same
/// blinding is a multiple of the hidden value.
fn twice(sim: &mut Sim, r: &present::Request) {
    let (n1, n2) = (sim.must("new_nonce", new_nonce), sim.must("new_nonce", new_nonce));
    let more = sim.chance(300);
    let both = present::builder(sim, r, &mut |_, _| {}, |b| {
        let p1 = b.finalize(&n1)?;
        if more {
            // another sub proof request for the same credential changes the challenge too
            b.add_common_attribute("late")?;
        }
        Ok((p1, b.finalize(&n2)))
    });
    sim.note_fault("finalize.again");
    let (p1, p2) = match both {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => sim.stop("honest-presentation-failed", format!("building a truthful presentation failed: {} for {:?}", e, r)),
        Err(p) => sim.stop("panic:finalize", p.message),
    };
    match p2 {
        Err(_) => sim.probe("second-answer-refused"),
        Ok(p2) => {
            let (a, b) = (jv(&p1), jv(&p2));
            let num = |v: &serde_json::Value| openssl::bn::BigNum::from_dec_str(v.as_str().unwrap()).unwrap();
            let dc = {
                let (x, y) = (num(&a["aggregated_proof"]["c_hash"]), num(&b["aggregated_proof"]["c_hash"]));
                &x - &y
            };
            for (i, sp) in a["proofs"].as_array().unwrap().iter().enumerate() {
                let m = &sp["primary_proof"]["eq_proof"]["m"];
                for (name, v) in m.as_object().unwrap() {
                    let w = &b["proofs"][i]["primary_proof"]["eq_proof"]["m"][name];
                    let d = &num(v) - &num(w);
                    let mut c = openssl::bn::BigNumContext::new().unwrap();
                    let mut q = openssl::bn::BigNum::new().unwrap();
                    let mut rest = openssl::bn::BigNum::new().unwrap();
                    q.div_rem(&mut rest, &d, &dc, &mut c).unwrap();
                    sim.check(rest.num_bits() != 0, "blindings-reused", || {
                        format!("a proof builder answered two challenges with the same blindings: hidden {} of sub proof {} is {}", name, i, q)
                    });
                }
            }
        }
    }
}
