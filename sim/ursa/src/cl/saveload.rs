//! C08: whatever is written out and read back is the same value.
use super::hostile::life;
use super::revoc::{accum_of, omega_of};
use super::world::*;
use serde_json::{json, Value};
use simcore::{ensure, ev, Sim};
use std::collections::HashSet;
use ursa::bls::*;
use ursa::bn::BigNumber;
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::verifier::Verifier;
use ursa::cl::*;
use ursa::pair::{GroupOrderElement, Pair, PointG1, PointG2};

/// JSON without the orders that mean nothing (sets written as lists).
fn norm(v: Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(
            m.into_iter()
                .map(|(k, v)| {
                    let mut v = norm(v);
                    if matches!(k.as_str(), "issued" | "revoked" | "hidden_attributes") {
                        if let Value::Array(a) = &mut v {
                            a.sort_by_key(|x| x.to_string());
                        }
                    }
                    (k, v)
                })
                .collect(),
        ),
        Value::Array(a) => Value::Array(a.into_iter().map(norm).collect()),
        v => v,
    }
}

fn number(sim: &mut Sim) -> BigNumber {
    let b = match sim.choose(8) {
        0 => vec![],
        1 => vec![1],
        2 => vec![0xff; 1 + sim.pick(40)],
        3 => {
            let mut v = vec![0; 1 + sim.pick(33)];
            v[0] = 0x80;
            v
        }
        4 => {
            // leading zero bytes in the middle of things
            let mut v = sim.bytes(32);
            for x in v.iter_mut().take(1 + sim.pick(6)) {
                *x = 0;
            }
            v
        }
        5 => {
            let n = 200 + sim.pick(200);
            sim.bytes(n)
        }
        _ => {
            let n = 1 + sim.pick(64);
            sim.bytes(n)
        }
    };
    let n = BigNumber::from_bytes(&b).unwrap();
    if sim.chance(300) {
        BigNumber::from_dec("0").unwrap().sub(&n).unwrap()
    } else {
        n
    }
}

fn numbers(sim: &mut Sim) {
    let n = number(sim);
    let dec = sim.must("to_dec", || n.to_dec());
    let hex = sim.must("to_hex", || n.to_hex());
    let bytes = sim.must("to_bytes", || n.to_bytes());
    ev!(sim, "number {}", dec);
    let a = sim.must("from_dec", || BigNumber::from_dec(&dec));
    let b = sim.must("from_hex", || BigNumber::from_hex(&hex));
    let c = sim.must("from_bytes", || BigNumber::from_bytes(&bytes));
    let d: BigNumber = reload(&n);
    let e = sim.must("try_clone", || n.try_clone());
    // the byte form is the magnitude
    let mag = if n.is_negative() { BigNumber::from_dec("0").unwrap().sub(&n).unwrap() } else { n.try_clone().unwrap() };
    for (how, x, want) in [("dec", &a, &n), ("hex", &b, &n), ("bytes", &c, &mag), ("json", &d, &n), ("clone", &e, &n)] {
        ensure!(sim, x == want, "number-differs", "{} read back through {} is {}", dec, how, x.to_dec().unwrap());
        ensure!(sim, x.to_dec().unwrap() == want.to_dec().unwrap(), "number-differs", "{} written again after {} is {}", dec, how, x.to_dec().unwrap());
        ensure!(sim, x.to_hex().unwrap() == want.to_hex().unwrap(), "number-differs", "{} written again after {} is hex {}", dec, how, x.to_hex().unwrap());
        ensure!(sim, x.to_bytes().unwrap() == bytes, "number-differs", "{} written again after {} has other bytes", dec, how);
        ensure!(sim, js(x) == js(want), "number-differs", "{} written again after {} is {}", dec, how, js(x));
        ensure!(sim, x.is_negative() == want.is_negative(), "number-differs", "{} after {} has another sign", dec, how);
        // and it behaves the same
        let m = BigNumber::from_dec("170141183460469231731687303715884105727").unwrap();
        let seven = BigNumber::from_dec("-7").unwrap();
        let f = |y: &BigNumber| {
            [
                y.add(&seven).unwrap(),
                y.sub(&seven).unwrap(),
                y.mul(&seven, None).unwrap(),
                y.modulus(&m, None).unwrap(),
                y.sqr(None).unwrap(),
                BigNumber::from_dec("3").unwrap().mod_exp(&y.modulus(&m, None).unwrap(), &m, None).unwrap(),
            ]
            .iter()
            .map(|z| z.to_dec().unwrap())
            .collect::<Vec<_>>()
        };
        ensure!(sim, f(x) == f(want), "number-behaves-differently", "{} read back through {} computes {:?} instead of {:?}", dec, how, f(x), f(want));
    }
}

fn scalar(sim: &mut Sim) -> GroupOrderElement {
    match sim.choose(7) {
        0 => GroupOrderElement::new().unwrap(),
        1 => GroupOrderElement::from_bytes(&[0]).unwrap(),
        2 => GroupOrderElement::from_bytes(&[1]).unwrap(),
        3 => GroupOrderElement::from_bytes(&[1]).unwrap().mod_neg().unwrap(),
        4 => {
            let n = 1 + sim.pick(31);
            GroupOrderElement::from_bytes(&sim.bytes(n)).unwrap()
        }
        5 => {
            let a = GroupOrderElement::new().unwrap();
            let b = GroupOrderElement::new().unwrap();
            a.mul_mod(&b).unwrap().add_mod(&a).unwrap().inverse().unwrap()
        }
        _ => {
            let n = *sim.of(&[32usize, 28, 30]);
            let mut b = sim.bytes(n);
            b[0] &= 0x1f;
            GroupOrderElement::from_bytes(&b).unwrap()
        }
    }
}

macro_rules! point_checks {
    ($sim:expr, $t:ty, $p:expr, $other:expr, $k:expr, $name:expr) => {{
        let p: $t = $p;
        let s = $sim.must("to_string", || p.to_string());
        let b = $sim.must("to_bytes", || p.to_bytes());
        let a = $sim.must(concat!($name, "::from_string"), || <$t>::from_string(&s));
        let c = $sim.must(concat!($name, "::from_bytes"), || <$t>::from_bytes(&b));
        let d: $t = reload(&p);
        for (how, x) in [("string", &a), ("bytes", &c), ("json", &d)] {
            ensure!($sim, *x == p, "element-differs", "{} {} differs after {}: {}", $name, s, how, x.to_string().unwrap());
            ensure!($sim, x.to_bytes().unwrap() == b || x.to_bytes().unwrap() == c.to_bytes().unwrap(), "element-differs", "{} {} has other bytes after {}", $name, s, how);
            if how != "bytes" {
                ensure!($sim, x.to_string().unwrap() == s, "element-differs", "{} {} is written as {} after {}", $name, s, x.to_string().unwrap(), how);
                ensure!($sim, js(x) == js(&p), "element-differs", "{} {} is written as {} after {}", $name, s, js(x), how);
            }
            let f = |y: &$t| -> Vec<$t> { vec![y.add(&$other).unwrap(), y.sub(&$other).unwrap(), y.mul(&$k).unwrap(), y.neg().unwrap(), $other.add(y).unwrap(), $other.sub(y).unwrap()] };
            let same = $sim.no_panic(concat!($name, " arithmetic"), || f(x) == f(&p));
            ensure!($sim, same, "element-behaves-differently", "{} {} computes something else after {}", $name, s, how);
        }
    }};
}

pub fn values_scenario(sim: &mut Sim) {
    sim.probe("written and read back");
    match sim.choose(5) {
        0 | 1 => {
            for _ in 0..6 {
                numbers(sim);
            }
        }
        2 => {
            for _ in 0..6 {
                let k = scalar(sim);
                let s = sim.must("to_string", || k.to_string());
                let b = sim.must("to_bytes", || k.to_bytes());
                let a = sim.must("GroupOrderElement::from_string", || GroupOrderElement::from_string(&s));
                let c = sim.must("GroupOrderElement::from_bytes", || GroupOrderElement::from_bytes(&b));
                let d: GroupOrderElement = reload(&k);
                ev!(sim, "scalar {}", s);
                let g = PointG1::new().unwrap();
                let o = GroupOrderElement::new().unwrap();
                for (how, x) in [("string", &a), ("bytes", &c), ("json", &d)] {
                    ensure!(sim, *x == k, "element-differs", "scalar {} differs after {}: {}", s, how, x.to_string().unwrap());
                    ensure!(sim, x.to_bytes().unwrap() == b, "element-differs", "scalar {} has other bytes after {}", s, how);
                    ensure!(sim, x.to_string().unwrap() == s, "element-differs", "scalar {} is written as {} after {}", s, x.to_string().unwrap(), how);
                    ensure!(sim, js(x) == js(&k), "element-differs", "scalar {} is written as {} after {}", s, js(x), how);
                    ensure!(
                        sim,
                        x.mul_mod(&o).unwrap() == k.mul_mod(&o).unwrap() && x.add_mod(&o).unwrap() == k.add_mod(&o).unwrap() && x.mod_neg().unwrap() == k.mod_neg().unwrap() && g.mul(x).unwrap() == g.mul(&k).unwrap(),
                        "element-behaves-differently",
                        "scalar {} computes something else after {}", s, how
                    );
                }
            }
        }
        3 => {
            let k = scalar(sim);
            let (g1, o1) = (PointG1::new().unwrap(), PointG1::new().unwrap());
            let (g2, o2) = (PointG2::new().unwrap(), PointG2::new().unwrap());
            let form = sim.choose(6);
            ev!(sim, "point form {}", form);
            sim.absorb(&g1.to_bytes().unwrap());
            let p1 = match form {
                0 => g1,
                1 => PointG1::new_inf().unwrap(),
                2 => g1.sub(&g1).unwrap(),
                3 => g1.mul(&k).unwrap(),
                4 => g1.add(&o1).unwrap().add(&g1).unwrap(),
                _ => g1.neg().unwrap(),
            };
            let p2 = match form {
                0 => g2,
                1 => PointG2::new_inf().unwrap(),
                2 => g2.sub(&g2).unwrap(),
                3 => g2.mul(&k).unwrap(),
                4 => g2.add(&o2).unwrap().add(&g2).unwrap(),
                _ => g2.neg().unwrap(),
            };
            point_checks!(sim, PointG1, p1, o1, k, "PointG1");
            point_checks!(sim, PointG2, p2, o2, k, "PointG2");
        }
        _ => {
            let (g1, g2) = (PointG1::new().unwrap(), PointG2::new().unwrap());
            let k = scalar(sim);
            let mut e = Pair::pair(&g1, &g2).unwrap();
            let form = sim.choose(5);
            ev!(sim, "pair form {}", form);
            sim.absorb(&e.to_bytes().unwrap());
            e = match form {
                0 => e,
                1 => e.pow(&k).unwrap(),
                2 => e.mul(&e.inverse().unwrap()).unwrap(),
                3 => e.mul(&e).unwrap(),
                _ => e.inverse().unwrap(),
            };
            let s = sim.must("to_string", || e.to_string());
            let a = sim.must("Pair::from_string", || Pair::from_string(&s));
            let d: Pair = reload(&e);
            for x in [&a, &d] {
                ensure!(sim, *x == e, "element-differs", "Pair {} differs after reading back", s);
                ensure!(sim, x.to_bytes().unwrap() == e.to_bytes().unwrap() && x.to_string().unwrap() == s && js(x) == js(&e), "element-differs", "Pair {} is written differently", s);
                ensure!(sim, x.is_unity().unwrap() == e.is_unity().unwrap() && x.pow(&k).unwrap() == e.pow(&k).unwrap(), "element-behaves-differently", "Pair {} computes something else", s);
            }
        }
    }
}

macro_rules! stable {
    ($sim:expr, $l:expr, $t:ty, $n:expr) => {
        if let Some(s) = $l.msgs.get($n) {
            let a: $t = parse(s);
            let w1 = js(&a);
            let b: $t = parse(&w1);
            let w2 = js(&b);
            let (v0, v1, v2): (Value, Value, Value) = (serde_json::from_str(s).unwrap(), serde_json::from_str(&w1).unwrap(), serde_json::from_str(&w2).unwrap());
            ensure!($sim, norm(v0.clone()) == norm(v1.clone()), "object-differs", "{} reads back as {} instead of {}", $n, w1, s);
            ensure!($sim, norm(v1) == norm(v2.clone()), "object-differs", "{} reads back as {} the second time", $n, w2);
            $sim.probe("written and read back");
        }
    };
}

/// Every message and stored object of a credential's life.
pub fn objects(sim: &mut Sim) {
    let id = sim.choose(N_CREDS);
    let l = life(id);
    let h = held(id);
    let k = &h.keys;
    stable!(sim, l, CredentialPublicKey, "pk");
    stable!(sim, l, CredentialKeyCorrectnessProof, "kcp");
    stable!(sim, l, BlindedCredentialSecrets, "bcs");
    stable!(sim, l, BlindedCredentialSecretsCorrectnessProof, "bcp");
    stable!(sim, l, CredentialSecretsBlindingFactors, "bf");
    stable!(sim, l, CredentialSignature, "sig");
    stable!(sim, l, SignatureCorrectnessProof, "sp");
    stable!(sim, l, CredentialSignature, "cred");
    stable!(sim, l, Proof, "proof");
    stable!(sim, l, Nonce, "n1");
    stable!(sim, l, RevocationKeyPublic, "rkp");
    stable!(sim, l, RevocationRegistry, "reg");
    stable!(sim, l, RevocationRegistryDelta, "delta");
    stable!(sim, l, RevocationRegistryDelta, "delta2");
    stable!(sim, l, Witness, "witness");
    // private halves, schemas
    let v: Value = serde_json::from_str(&k.f.sk).unwrap();
    let sk: CredentialPrivateKey = parse(&k.f.sk);
    ensure!(sim, jv(&sk) == v, "object-differs", "private key reads back differently");
    ensure!(sim, jv(&reload(&h.schema)) == jv(&h.schema) && jv(&reload(&h.non_schema)) == jv(&h.non_schema), "object-differs", "schema reads back differently");
    if let Some((rf, _)) = &h.fx.reg {
        let rks: RevocationKeyPrivate = parse(&rf.rks);
        ensure!(sim, jv(&rks) == serde_json::from_str::<Value>(&rf.rks).unwrap(), "object-differs", "registry private key reads back differently");
        for t in &rf.tails {
            let x: Tail = parse(t);
            ensure!(sim, jv(&x) == serde_json::from_str::<Value>(t).unwrap(), "object-differs", "tail {} reads back differently", t);
        }
    }
    let vs = values(&h.fx.vals);
    let _ = &vs;
    // copies are equal too
    let pk: CredentialPublicKey = parse(&l.msgs["pk"]);
    let c = sim.must("try_clone", || pk.try_clone());
    ensure!(sim, c == pk && norm(jv(&c)) == norm(jv(&pk)), "copy-differs", "a copied public key differs");
    let kcp: CredentialKeyCorrectnessProof = parse(&l.msgs["kcp"]);
    let c = sim.must("try_clone", || kcp.try_clone());
    ensure!(sim, jv(&c) == jv(&kcp), "copy-differs", "a copied key correctness proof differs");
    let sig: CredentialSignature = parse(&l.msgs["cred"]);
    let c = sim.must("try_clone", || sig.try_clone());
    ensure!(sim, jv(&c) == jv(&sig) && c.extract_index() == sig.extract_index(), "copy-differs", "a copied credential differs");
    let parts = sim.must("build_from_parts", || CredentialPublicKey::build_from_parts(&pk.get_primary_key()?, pk.get_revocation_key()?.as_ref()));
    ensure!(sim, parts == pk, "copy-differs", "a public key built from its parts differs");
    // forms written by earlier versions
    let v1: Value = serde_json::from_str(&l.msgs["pk"]).unwrap();
    let mut old = v1.clone();
    if let Some(ms) = old["p_key"]["r"].as_object_mut().and_then(|m| m.remove("master_secret")) {
        old["p_key"]["rms"] = ms;
        let p: CredentialPublicKey = parse(&js(&old));
        ensure!(sim, p == pk, "old-form", "a public key in its old form reads as another key");
    }
    let pv: Value = serde_json::from_str(&l.msgs["proof"]).unwrap();
    let mut old = pv.clone();
    if let Some(ms) = old["proofs"][0]["primary_proof"]["eq_proof"]["m"].as_object_mut().and_then(|m| m.remove("master_secret")) {
        old["proofs"][0]["primary_proof"]["eq_proof"]["m1"] = ms;
        let p: Proof = parse(&js(&old));
        ensure!(sim, norm(jv(&p)) == norm(pv), "old-form", "a presentation in its old form reads as another presentation");
    }
    // deltas, witnesses and registries behave the same after being reloaded any number of times
    if let Some((rf, idx)) = &h.fx.reg {
        let t = SimTails::new(rf);
        let times = sim.choose(3);
        let d: RevocationRegistryDelta = parse(&l.msgs["delta"]);
        let d2: RevocationRegistryDelta = parse(&l.msgs["delta2"]);
        let mut rd2: RevocationRegistryDelta = reload(&d2);
        let mut w: Witness = parse(&l.msgs["witness"]);
        let mut rw: Witness = reload(&w);
        let mut rr: RevocationRegistry = parse(&l.msgs["reg"]);
        let mut rrr: RevocationRegistry = reload(&rr);
        for _ in 0..times {
            rd2 = reload(&rd2);
            rw = reload(&rw);
            rrr = reload(&rrr);
        }
        sim.must("Witness::update", || w.update(*idx, rf.max, &d2, &t));
        sim.must("Witness::update", || rw.update(*idx, rf.max, &rd2, &t));
        ensure!(sim, omega_of(&w) == omega_of(&rw), "object-behaves-differently", "a reloaded witness is updated to something else");
        let a = sim.no_panic("revoke_credential", || Issuer::revoke_credential(&mut rr, rf.max, *idx, &t).map(|d| norm(jv(&d)))).map_err(|e| e.kind());
        let b = sim.no_panic("revoke_credential", || Issuer::revoke_credential(&mut rrr, rf.max, *idx, &t).map(|d| norm(jv(&d)))).map_err(|e| e.kind());
        ensure!(sim, a == b && accum_of(&rr) == accum_of(&rrr), "object-behaves-differently", "a reloaded registry revokes differently");
        let (mut x, mut y) = (reload(&d), reload(&reload(&d)));
        let a = x.merge(&d2).map_err(|e| e.kind());
        let b = y.merge(&rd2).map_err(|e| e.kind());
        ensure!(sim, a == b && norm(jv(&x)) == norm(jv(&y)), "object-behaves-differently", "a reloaded delta merges differently");
    }
}

/// One credential's life in which anything may be saved and reloaded between any two steps.
pub fn lifecycle(sim: &mut Sim) {
    fn rl<T: serde::Serialize + serde::de::DeserializeOwned>(sim: &mut Sim, x: T) -> T {
        let n = sim.choose(4);
        let mut x = x;
        for _ in 0..n {
            sim.note_fault("restart.reload");
            let before = norm(jv(&x));
            x = reload(&x);
            ensure!(sim, norm(jv(&x)) == before, "object-differs", "{} reads back as {} instead of {}", std::any::type_name::<T>(), js(&x), before);
        }
        x
    }
    let fx = sim.choose(7);
    let k = keys(fx);
    let pk = rl(sim, k.pk);
    let sk = rl(sim, k.sk);
    let kcp = rl(sim, k.proof);
    let schema = rl(sim, k.schema);
    let non = rl(sim, k.non_schema);
    let _ = (&schema, &non);
    let ms = sim.must("new_master_secret", Prover::new_master_secret);
    let ms = rl(sim, ms);
    let vals = gen_values(sim, &k.f, &ms.value().unwrap().to_dec().unwrap());
    let hv = values(&vals);
    let iv = known_values(&vals);
    let n1 = rl(sim, new_nonce().unwrap());
    let n2 = rl(sim, new_nonce().unwrap());
    let (bcs, bf, bcp) = sim.must("blind_credential_secrets", || Prover::blind_credential_secrets(&pk, &kcp, &hv, &n1));
    let (bcs, bf, bcp) = (rl(sim, bcs), rl(sim, bf), rl(sim, bcp));
    let max = 3;
    let rev = k.f.revoc.then(|| reg_fixture(fx, max, sim.coin(), 0));
    let (mut sig, sp, reg, rkp, wit, other);
    match &rev {
        None => {
            let (s, p) = sim.must("sign_credential", || Issuer::sign_credential("p", &bcs, &bcp, &n1, &n2, &iv, &pk, &sk));
            sig = s;
            sp = p;
            reg = None;
            rkp = None;
            wit = None;
            other = None;
        }
        Some(rf) => {
            let t = SimTails::new(rf);
            let mut rr: RevocationRegistry = rl(sim, parse(&rf.reg));
            let rks: RevocationKeyPrivate = rl(sim, parse(&rf.rks));
            let idx = 1 + sim.choose(max as u64) as u32;
            let (s, p, d) = sim.must("sign_credential_with_revoc", || {
                Issuer::sign_credential_with_revoc("p", &bcs, &bcp, &n1, &n2, &iv, &pk, &sk, idx, max, rf.by_default, &mut rr, &rks, &t)
            });
            sig = s;
            sp = p;
            let mut rr = rl(sim, rr);
            let d = match d {
                Some(d) => d,
                None => RevocationRegistryDelta::from_parts(None, &rr, &HashSet::new(), &HashSet::new()),
            };
            let mut d = rl(sim, d);
            let w = sim.must("Witness::new", || Witness::new(idx, max, rf.by_default, &d, &t));
            let mut w = rl(sim, w);
            // another credential's state changes afterwards; the witness follows
            let o = idx % max + 1;
            let d2 = if rf.by_default {
                sim.must("revoke_credential", || Issuer::revoke_credential(&mut rr, max, o, &t))
            } else {
                sim.must("recovery_credential", || Issuer::recovery_credential(&mut rr, max, o, &t))
            };
            let d2 = rl(sim, d2);
            let old_reg: RevocationRegistry = reload(&rr);
            let _ = old_reg;
            sim.must("Witness::update", || w.update(idx, max, &d2, &t));
            sim.must("merge", || d.merge(&d2));
            let d = rl(sim, d);
            let w2 = sim.must("Witness::new", || Witness::new(idx, max, rf.by_default, &d, &t));
            ensure!(sim, omega_of(&w) == omega_of(&w2), "object-behaves-differently", "witness from the merged delta differs from the updated one");
            wit = Some(rl(sim, w));
            reg = Some(rl(sim, rr));
            rkp = Some(rl(sim, parse::<RevocationKeyPublic>(&rf.rkp)));
            other = Some(o);
        }
    }
    let _ = other;
    sig = rl(sim, sig);
    let sp = rl(sim, sp);
    sim.must("process_credential_signature", || {
        Prover::process_credential_signature(&mut sig, &hv, &sp, &bf, &pk, &n2, rkp.as_ref(), reg.as_ref(), wit.as_ref())
    });
    let sig = rl(sim, sig);
    let (ps, pn) = present_schemas(&k.f);
    let cv: Vec<Val> = vals.iter().filter(|v| v.kind != Kind::Committed).cloned().collect();
    let spr = gen_spr(sim, &k.f, &cv, &Default::default(), 2).build(sim);
    let n3 = rl(sim, new_nonce().unwrap());
    let cvv = cred_values(&vals);
    let proof = sim.must("build presentation", || {
        let mut b = Prover::new_proof_builder()?;
        b.add_common_attribute("master_secret")?;
        b.add_sub_proof_request(&spr, &ps, &pn, &sig, &cvv, &pk, reg.as_ref(), wit.as_ref())?;
        b.finalize(&n3)
    });
    let proof = rl(sim, proof);
    sim.absorb(js(&n3).as_bytes());
    let mut v = Verifier::new_proof_verifier().unwrap();
    v.add_common_attribute("master_secret").unwrap();
    sim.must("verifier.add_sub_proof_request", || v.add_sub_proof_request(&spr, &ps, &pn, &pk, rkp.as_ref(), reg.as_ref()));
    let r = sim.no_panic("verify", || v.verify(&proof, &n3));
    ensure!(sim, matches!(r, Ok(true)), "reloaded-party-differs", "a presentation made from reloaded state is rejected: {:?}", r.map_err(|e| e.to_string()));
    sim.probe("written and read back");
}

/// Multi-signature keys and signatures through both of their encodings.
pub fn bls_objects(sim: &mut Sim) {
    sim.probe("written and read back");
    let seed = sim.bytes(32);
    sim.absorb(&seed);
    let gen = sim.must("Generator::new", Generator::new);
    let sk = if sim.coin() { sim.must("SignKey::new", || SignKey::new(Some(&seed))) } else { sim.must("SignKey::new", || SignKey::new(None)) };
    let vk = sim.must("VerKey::new", || VerKey::new(&gen, &sk));
    let pop = sim.must("ProofOfPossession::new", || ProofOfPossession::new(&vk, &sk));
    let n = sim.pick(100);
    let msg = sim.bytes(n);
    let sig = sim.must("sign", || Bls::sign(&msg, &sk));
    let ms = sim.must("MultiSignature::new", || MultiSignature::new(&[&sig]));
    macro_rules! both {
        ($t:ty, $x:expr) => {{
            let a = sim.must(concat!(stringify!($t), "::from_bytes"), || <$t>::from_bytes($x.as_bytes()));
            let b: $t = reload(&$x);
            let c: $t = reload(&a);
            for y in [&a, &b, &c] {
                ensure!(sim, y.as_bytes() == $x.as_bytes(), "object-differs", "{} has other bytes when read back", stringify!($t));
                // both encodings of one value agree as group elements
            }
            ensure!(sim, jv(&b) == jv(&$x), "object-differs", "{} is written differently when read back", stringify!($t));
            match sim.choose(3) {
                0 => a,
                1 => b,
                _ => c,
            }
        }};
    }
    let gen2 = both!(Generator, gen);
    let sk2 = both!(SignKey, sk);
    let vk2 = both!(VerKey, vk);
    let pop2 = both!(ProofOfPossession, pop);
    let sig2 = both!(Signature, sig);
    let ms2 = both!(MultiSignature, ms);
    let sig3 = sim.must("sign", || Bls::sign(&msg, &sk2));
    ensure!(sim, sig3.as_bytes() == sig.as_bytes(), "object-behaves-differently", "a reloaded key signs differently");
    let vk3 = sim.must("VerKey::new", || VerKey::new(&gen2, &sk2));
    ensure!(sim, vk3.as_bytes() == vk.as_bytes(), "object-behaves-differently", "a reloaded key has another public key");
    let ok = sim.must("verify", || Bls::verify(&sig2, &msg, &vk2, &gen2))
        && sim.must("verify_proof_of_posession", || Bls::verify_proof_of_posession(&pop2, &vk2, &gen2))
        && sim.must("verify_multi_sig", || Bls::verify_multi_sig(&ms2, &msg, &[&vk2], &gen2));
    ensure!(sim, ok, "object-behaves-differently", "reloaded keys and signatures do not verify");
    let _ = json!(null);
}
