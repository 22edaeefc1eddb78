//! C10: threads of one client, run in lock-step: each sees only its own errors, and objects shared
//! read-only behave for each thread as they would alone.
use super::abi::*;
use crate::cl::world::*;
use simcore::threads::{lock_step, pause};
use simcore::{ev, Sim};
use std::os::raw::c_char;
use ursa::bls::*;
use ursa::cl::*;
use ursa::ffi::bls::*;
use ursa::ffi::cl::issuer::*;
use ursa::ffi::cl::prover::*;
use ursa::ffi::cl::verifier::*;
use ursa::ffi::cl::*;
use ursa::ffi::ErrorCode;

#[derive(Clone, Debug, PartialEq)]
enum Op {
    BadJson(u64, String),
    NullArg(u64),
    BadNumber(String),
    BadBytes(u64, Vec<u8>),
    Storage(u64, u8),
    BadIndex(u32),
    Nonce,
    Save(u64),
    Load(u64),
    Blind,
    Sign,
    Witness,
    Revoke(u32),
    Process,
    Prove,
    Verify,
    BlsSign(Vec<u8>),
    BlsVerify,
    Read,
    Keep,
    Kept,
}
/// Handles every thread uses, none of them changed by anyone.
struct Common {
    texts: Vec<(&'static str, String)>,
    pk: H,
    sk: H,
    kcp: H,
    schema: H,
    non: H,
    n: H,
    bcs: H,
    bcp: H,
    bf: H,
    hv: H,
    iv: H,
    proof: H,
    spr: H,
    rr: H,
    rkp: H,
    delta: H,
    wit: H,
    sig: H,
    sp: H,
    gen: H,
    skey: H,
    vkey: H,
    bsig: H,
    tails: Vec<String>,
    max: u32,
    cred: H,
    idx: u32,
    by_default: bool,
}
#[derive(Default)]
struct Trace {
    lines: Vec<String>,
    wrong: Vec<String>,
}

type Pair = (FromJson, ToJson, Free);
const DOCS: [(&str, Pair); 10] = [
    ("pk", (ursa_cl_credential_public_key_from_json, ursa_cl_credential_public_key_to_json, ursa_cl_credential_public_key_free)),
    ("kcp", (ursa_cl_credential_key_correctness_proof_from_json, ursa_cl_credential_key_correctness_proof_to_json, ursa_cl_credential_key_correctness_proof_free)),
    ("bcs", (ursa_cl_blinded_credential_secrets_from_json, ursa_cl_blinded_credential_secrets_to_json, ursa_cl_blinded_credential_secrets_free)),
    ("bf", (ursa_cl_credential_secrets_blinding_factors_from_json, ursa_cl_credential_secrets_blinding_factors_to_json, ursa_cl_credential_secrets_blinding_factors_free)),
    ("sig", (ursa_cl_credential_signature_from_json, ursa_cl_credential_signature_to_json, ursa_cl_credential_signature_free)),
    ("sp", (ursa_cl_signature_correctness_proof_from_json, ursa_cl_signature_correctness_proof_to_json, ursa_cl_signature_correctness_proof_free)),
    ("proof", (ursa_cl_proof_from_json, ursa_cl_proof_to_json, ursa_cl_proof_free)),
    ("n1", (ursa_cl_nonce_from_json, ursa_cl_nonce_to_json, ursa_cl_nonce_free)),
    ("reg", (ursa_cl_revocation_registry_from_json, ursa_cl_revocation_registry_to_json, ursa_cl_revocation_registry_free)),
    ("rkp", (ursa_cl_revocation_key_public_from_json, ursa_cl_revocation_key_public_to_json, ursa_cl_revocation_key_public_free)),
];

fn saved(to: ToJson, h: H) -> String {
    let mut p: *const c_char = std::ptr::null();
    if to(h, &mut p) != ErrorCode::Success {
        return "unsaved".into();
    }
    let s = take_string(p);
    serde_json::from_str::<serde_json::Value>(&s).map(|v| sorted(&v)).unwrap_or(s)
}

fn script(c: &Common, ops: &[Op], seed: u64) -> Trace {
    simcore::entropy::seed_thread(seed);
    simcore::entropy::pause_at_draws(Some(pause));
    let mut t = Trace::default();
    let mut own: Option<String> = None;
    let mut kept: Option<*const c_char> = None;
    let st = Store::new(&c.tails);
    st.pause.set(Some(pause));
    let my_reg = {
        let text = c.texts.iter().find(|t| t.0 == "reg").unwrap().1.clone();
        boxed(parse::<RevocationRegistry>(&text))
    };
    let handle = |n: &str| match n {
        "pk" => c.pk,
        "kcp" => c.kcp,
        "bcs" => c.bcs,
        "bf" => c.bf,
        "sig" => c.sig,
        "sp" => c.sp,
        "proof" => c.proof,
        "n1" => c.n,
        "reg" => c.rr,
        _ => c.rkp,
    };
    for (i, op) in ops.iter().enumerate() {
        pause();
        let mut out = sent();
        let mut result = String::new();
        let mut called = true;
        let code = match op {
            Op::BadJson(k, text) => DOCS[*k as usize % DOCS.len()].1 .0(cs(text).as_ptr(), &mut out),
            Op::NullArg(k) => match k % 4 {
                0 => ursa_cl_new_nonce(std::ptr::null_mut()),
                1 => ursa_cl_nonce_free(std::ptr::null()),
                2 => ursa_cl_credential_schema_builder_add_attr(std::ptr::null(), cs("x").as_ptr()),
                _ => ursa_bls_generator_new(std::ptr::null_mut()),
            },
            Op::BadNumber(s) => {
                let mut b = sent();
                ursa_cl_credential_values_builder_new(&mut b);
                let r = ursa_cl_credential_values_builder_add_dec_known(b, cs("a").as_ptr(), cs(s).as_ptr());
                let mut v = sent();
                ursa_cl_credential_values_builder_finalize(b, &mut v);
                ursa_cl_credential_values_free(v);
                r
            }
            Op::BadBytes(k, b) => match k % 3 {
                0 => ursa_bls_generator_from_bytes(b.as_ptr(), b.len(), &mut out),
                1 => ursa_bls_ver_key_from_bytes(b.as_ptr(), b.len(), &mut out),
                _ => ursa_bls_signature_from_bytes(b.as_ptr(), b.len(), &mut out),
            },
            Op::Storage(at, how) => {
                st.arm(*at, if *how == 0 { StoreFault::TakeErr } else { StoreFault::PutErr });
                let r = ursa_cl_witness_new(c.idx, c.max, c.by_default, c.delta, st.ctx(), Store::take, Store::put, &mut out);
                st.heal();
                r
            }
            Op::BadIndex(k) => ursa_cl_issuer_revoke_credential(my_reg, c.max, *k, st.ctx(), Store::take, Store::put, &mut out),
            Op::Nonce => {
                let r = ursa_cl_new_nonce(&mut out);
                result = saved(ursa_cl_nonce_to_json, out);
                r
            }
            Op::Save(k) => {
                let d = &DOCS[*k as usize % DOCS.len()];
                result = saved(d.1 .1, handle(d.0));
                ErrorCode::Success
            }
            Op::Load(k) => {
                let d = &DOCS[*k as usize % DOCS.len()];
                let text = &c.texts.iter().find(|t| t.0 == d.0).unwrap().1;
                let r = d.1 .0(cs(text).as_ptr(), &mut out);
                if r == ErrorCode::Success {
                    result = saved(d.1 .1, out);
                    d.1 .2(out);
                }
                r
            }
            Op::Blind => {
                let (mut a, mut b, mut d) = (sent(), sent(), sent());
                let r = ursa_cl_prover_blind_credential_secrets(c.pk, c.kcp, c.hv, c.n, &mut a, &mut b, &mut d);
                if r == ErrorCode::Success {
                    result = saved(ursa_cl_blinded_credential_secrets_to_json, a) + &saved(ursa_cl_blinded_credential_secrets_correctness_proof_to_json, d);
                }
                r
            }
            Op::Sign => {
                let (mut a, mut b) = (sent(), sent());
                let r = ursa_cl_issuer_sign_credential(cs("prover").as_ptr(), c.bcs, c.bcp, c.n, c.n, c.iv, c.pk, c.sk, &mut a, &mut b);
                if r == ErrorCode::Success {
                    result = saved(ursa_cl_credential_signature_to_json, a) + &saved(ursa_cl_signature_correctness_proof_to_json, b);
                }
                r
            }
            Op::Witness => {
                let r = ursa_cl_witness_new(c.idx, c.max, c.by_default, c.delta, st.ctx(), Store::take, Store::put, &mut out);
                if r == ErrorCode::Success {
                    result = canon(view::<Witness>(out));
                }
                r
            }
            Op::Revoke(k) => {
                let r = ursa_cl_issuer_revoke_credential(my_reg, c.max, *k, st.ctx(), Store::take, Store::put, &mut out);
                if r == ErrorCode::Success {
                    result = canon(view::<RevocationRegistryDelta>(out));
                }
                r
            }
            Op::Process => {
                let own_sig = boxed(parse::<CredentialSignature>(&c.texts.iter().find(|t| t.0 == "sig").unwrap().1));
                let r = ursa_cl_prover_process_credential_signature(own_sig, c.hv, c.sp, c.bf, c.pk, c.n, c.rkp, c.rr, c.wit);
                result = saved(ursa_cl_credential_signature_to_json, own_sig);
                r
            }
            Op::Prove => {
                let mut b = sent();
                ursa_cl_prover_new_proof_builder(&mut b);
                let r = ursa_cl_proof_builder_add_sub_proof_request(b, c.spr, c.schema, c.non, c.cred, c.hv, c.pk, std::ptr::null(), std::ptr::null());
                if r == ErrorCode::Success {
                    let r = ursa_cl_proof_builder_finalize(b, c.n, &mut out);
                    if r == ErrorCode::Success {
                        result = saved(ursa_cl_proof_to_json, out);
                    }
                    r
                } else {
                    r
                }
            }
            Op::Verify => {
                let mut v = sent();
                ursa_cl_verifier_new_proof_verifier(&mut v);
                let r = ursa_cl_proof_verifier_add_sub_proof_request(v, c.spr, c.schema, c.non, c.pk, c.rkp, c.rr);
                if r == ErrorCode::Success {
                    let mut ok = false;
                    let r = ursa_cl_proof_verifier_verify(v, c.proof, c.n, &mut ok);
                    result = ok.to_string();
                    r
                } else {
                    r
                }
            }
            Op::BlsSign(m) => {
                let r = ursa_bls_sign(m.as_ptr(), m.len(), c.skey, &mut out);
                if r == ErrorCode::Success {
                    result = super::misuse::hex(view::<Signature>(out).as_bytes());
                }
                r
            }
            Op::BlsVerify => {
                let mut ok = false;
                let r = ursa_bls_verify(c.bsig, b"m".as_ptr(), 1, c.vkey, c.gen, &mut ok);
                result = ok.to_string();
                r
            }
            Op::Read | Op::Keep | Op::Kept => {
                called = false;
                ErrorCode::Success
            }
        };
        if called && code != ErrorCode::Success {
            own = Some(current_message());
            kept = None;
        }
        pause();
        match op {
            Op::Keep => {
                let mut p: *const c_char = std::ptr::null();
                ursa::ffi::ursa_get_current_error(&mut p);
                kept = if p.is_null() { None } else { Some(p) };
            }
            Op::Kept => {
                if let Some(p) = kept {
                    let s = unsafe { std::ffi::CStr::from_ptr(p) }.to_string_lossy().to_string();
                    let m = serde_json::from_str::<serde_json::Value>(&s).ok().and_then(|v| v["message"].as_str().map(|s| s.to_string()));
                    if m != own {
                        t.wrong.push(format!("error details read earlier became {:?} instead of {:?} (step {})", m, own, i));
                    }
                }
            }
            Op::Read => {
                let m = current_error().map(|_| current_message());
                if m != own {
                    t.wrong.push(format!("error details read at step {} are {:?}, the thread's last failure said {:?}", i, m, own));
                }
            }
            _ => {}
        }
        // every call is followed by a look at the thread's own last error
        let now = current_error().map(|_| current_message());
        if now != own {
            t.wrong.push(format!("after step {} ({}) the error details are {:?}, the thread's last failure said {:?}", i, name(op), now, own));
        }
        t.lines.push(plain(&format!("{} -> {:?} {} {}", name(op), code, result, own.as_deref().unwrap_or("-"))));
    }
    if !st.out.borrow().is_empty() || !st.bad.borrow().is_empty() {
        t.wrong.push("tails were not given back".into());
    }
    simcore::entropy::pause_at_draws(None);
    t
}
/// Without the memory addresses some error details carry.
fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("0x") {
        out.push_str(&rest[..i + 2]);
        rest = rest[i + 2..].trim_start_matches(|c: char| c.is_ascii_hexdigit());
    }
    out + rest
}
fn name(op: &Op) -> String {
    let s = format!("{:?}", op);
    s.split('(').next().unwrap().to_string()
}

pub fn clients(sim: &mut Sim) {
    let ids = revocable();
    let l = crate::cl::hostile::life(ids[sim.pick(ids.len())]);
    let g = |n: &str| l.msgs.get(n).cloned().unwrap_or_default();
    let fx = cred_fixture(l.id);
    let f = fixture(fx.fx);
    let held = held(l.id);
    let Some((rf, idx)) = &fx.reg else {
        sim.probe("skipped");
        return;
    };
    let gen = Generator::new().unwrap();
    let skey = SignKey::new(None).unwrap();
    let vkey = VerKey::new(&gen, &skey).unwrap();
    let bsig = Bls::sign(b"m", &skey).unwrap();
    let c = Common {
        texts: DOCS.iter().map(|d| (d.0, g(d.0))).collect(),
        pk: boxed(parse::<CredentialPublicKey>(&f.pk)),
        sk: boxed(parse::<CredentialPrivateKey>(&f.sk)),
        kcp: boxed(parse::<CredentialKeyCorrectnessProof>(&f.proof)),
        schema: boxed(held.schema),
        non: boxed(held.non_schema),
        n: boxed(parse::<Nonce>(&g("n1"))),
        bcs: boxed(parse::<BlindedCredentialSecrets>(&g("bcs"))),
        bcp: boxed(parse::<BlindedCredentialSecretsCorrectnessProof>(&g("bcp"))),
        bf: boxed(parse::<CredentialSecretsBlindingFactors>(&g("bf"))),
        hv: boxed(values(&fx.vals)),
        iv: boxed(known_values(&fx.vals)),
        proof: boxed(parse::<Proof>(&g("proof"))),
        spr: boxed(parse::<SubProofRequest>(&g("spr"))),
        rr: boxed(parse::<RevocationRegistry>(&g("reg"))),
        rkp: boxed(parse::<RevocationKeyPublic>(&g("rkp"))),
        delta: boxed(parse::<RevocationRegistryDelta>(&g("delta"))),
        wit: boxed(parse::<Witness>(&g("witness"))),
        sig: boxed(parse::<CredentialSignature>(&g("sig"))),
        sp: boxed(parse::<SignatureCorrectnessProof>(&g("sp"))),
        cred: boxed(parse::<CredentialSignature>(&g("cred"))),
        gen: boxed(gen),
        skey: boxed(skey),
        vkey: boxed(vkey),
        bsig: boxed(bsig),
        tails: rf.tails.clone(),
        max: rf.max,
        idx: *idx,
        by_default: rf.by_default,
    };
    let n = 2 + sim.pick(3);
    let mut plans: Vec<(Vec<Op>, u64)> = vec![];
    for th in 0..n {
        let len = 3 + sim.pick(7);
        let mut ops = vec![];
        for i in 0..len {
            let token = format!("{}{}", th, i);
            let op = match sim.choose(24) {
                0..=3 => Op::BadJson(sim.choose(10), format!("\"t{}\"", token)),
                4 => Op::NullArg(sim.choose(4)),
                5 => Op::BadNumber(format!("x{}", token)),
                6 => {
                    let n = 1 + sim.pick(100);
                    let k = sim.choose(3);
                    Op::BadBytes(k, sim.bytes(n))
                }
                7 | 8 => {
                    let at = sim.choose(2);
                    Op::Storage(at, sim.choose(2) as u8)
                }
                9 => Op::BadIndex(rf.max + 7 + th as u32),
                10 => Op::Nonce,
                11 => Op::Save(sim.choose(10)),
                12 => Op::Load(sim.choose(10)),
                13 => Op::Blind,
                14 => Op::Sign,
                15 => Op::Witness,
                16 => Op::Revoke(1 + sim.choose(rf.max as u64) as u32),
                17 => Op::Process,
                18 => Op::Prove,
                19 => Op::Verify,
                20 => Op::BlsSign(vec![th as u8 + 1, i as u8]),
                21 => Op::BlsVerify,
                22 => Op::Read,
                _ => Op::Keep,
            };
            ops.push(op.clone());
            if op == Op::Keep {
                ops.push(Op::Load(sim.choose(10)));
                ops.push(Op::Kept);
            }
        }
        plans.push((ops, sim.choose(1 << 40) + 1));
    }
    let snapshot = || -> Vec<String> { DOCS.iter().map(|d| saved(d.1 .1, match d.0 { "pk" => c.pk, "kcp" => c.kcp, "bcs" => c.bcs, "bf" => c.bf, "sig" => c.sig, "sp" => c.sp, "proof" => c.proof, "n1" => c.n, "reg" => c.rr, _ => c.rkp })).collect() };
    let before = snapshot();
    // alone, each on a thread of its own
    let alone: Vec<Trace> = plans.iter().map(|(ops, seed)| seeded(*seed, || script(&c, ops, *seed))).collect();
    for (i, t) in alone.iter().enumerate() {
        sim.check(t.wrong.is_empty(), "own-errors", || format!("thread {} alone: {}", i, t.wrong[0]));
    }
    // together
    let cr = &c;
    let jobs: Vec<Box<dyn FnOnce() -> Trace + '_>> = plans.iter().map(|(ops, seed)| Box::new(move || script(cr, ops, *seed)) as Box<dyn FnOnce() -> Trace + '_>).collect();
    let (together, rep) = lock_step(sim, jobs);
    ev!(sim, "{} threads, {} switches, {} scheduling points", n, rep.switches, rep.points);
    sim.state(rep.switches << 32 | rep.points);
    if rep.blocked {
        sim.probe("not-in-lock-step");
    }
    for (i, (t, a)) in together.iter().zip(&alone).enumerate() {
        let t = match t {
            Ok(t) => t,
            Err(p) => {
                sim.violate("panic", format!("thread {} panicked: {}", i, p));
                continue;
            }
        };
        sim.check(t.wrong.is_empty(), "own-errors", || format!("thread {} of {}: {}", i, n, t.wrong[0]));
        for (x, y) in t.lines.iter().zip(&a.lines) {
            sim.absorb(x.as_bytes());
            sim.check(x == y, "as-alone", || format!("thread {} of {}: {:.300} - alone: {:.300}", i, n, x, y));
        }
        sim.probe("thread-run");
        if t.lines.iter().any(|l| !l.contains("Success")) {
            sim.probe("thread-with-errors");
        }
    }
    let after = snapshot();
    sim.check(before == after, "shared-object-changed", || "an object shared read-only changed".into());
}
