//! C07: hostile messages. One or more messages of a session are damaged, structurally or in their
//! values, and put to every operation that consumes them; each must return.
use super::world::*;
use serde_json::{json, Value};
use simcore::{ensure, ev, mutate, Sim};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Mutex, OnceLock};
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::verifier::Verifier;
use ursa::cl::*;

/// All messages of one credential's life, as text.
pub struct Life {
    pub id: u64,
    pub msgs: HashMap<&'static str, String>,
}
static LIVES: OnceLock<Mutex<BTreeMap<u64, Arc<Life>>>> = OnceLock::new();

pub fn life(id: u64) -> Arc<Life> {
    let m = LIVES.get_or_init(|| Mutex::new(BTreeMap::new()));
    if let Some(f) = m.lock().unwrap().get(&id) {
        return f.clone();
    }
    let l = isolated(0x11FE_0000 + id, move || {
        let h = held(id);
        let k = &h.keys;
        let hv = values(&h.fx.vals);
        let iv = known_values(&h.fx.vals);
        let n1 = new_nonce().unwrap();
        let n2 = new_nonce().unwrap();
        let n3 = new_nonce().unwrap();
        let (bcs, bf, bcp) = Prover::blind_credential_secrets(&k.pk, &k.proof, &hv, &n1).expect("blind");
        let mut msgs = HashMap::new();
        let (sig, sp) = match &h.fx.reg {
            Some((rf, idx)) => {
                let t = SimTails::new(rf);
                let mut rr: RevocationRegistry = parse(&rf.reg);
                let rks: RevocationKeyPrivate = parse(&rf.rks);
                let (s, sp, d) = Issuer::sign_credential_with_revoc(
                    "p", &bcs, &bcp, &n1, &n2, &iv, &k.pk, &k.sk, *idx, rf.max, rf.by_default, &mut rr, &rks, &t,
                )
                .expect("sign");
                let d = d.unwrap_or_else(|| RevocationRegistryDelta::from_parts(None, &rr, &HashSet::new(), &HashSet::new()));
                let w = Witness::new(*idx, rf.max, rf.by_default, &d, &t).expect("witness");
                let revoked = if *idx == 1 { 2 } else { 1 };
                let mut rr2: RevocationRegistry = reload(&rr);
                let d2 = if rf.by_default {
                    Issuer::revoke_credential(&mut rr2, rf.max, revoked, &t)
                } else {
                    Issuer::recovery_credential(&mut rr2, rf.max, revoked, &t)
                }
                .expect("registry operation");
                msgs.insert("rkp", rf.rkp.clone());
                msgs.insert("reg", js(&rr));
                msgs.insert("delta", js(&d));
                msgs.insert("delta2", js(&d2));
                msgs.insert("witness", js(&w));
                (s, sp)
            }
            None => Issuer::sign_credential("p", &bcs, &bcp, &n1, &n2, &iv, &k.pk, &k.sk).expect("sign"),
        };
        let mut done: CredentialSignature = reload(&sig);
        {
            let g = |n: &str| msgs.get(n).cloned();
            let rkp: Option<RevocationKeyPublic> = g("rkp").map(|s: String| parse(&s));
            let reg: Option<RevocationRegistry> = g("reg").map(|s: String| parse(&s));
            let wit: Option<Witness> = g("witness").map(|s: String| parse(&s));
            Prover::process_credential_signature(&mut done, &hv, &sp, &bf, &k.pk, &n2, rkp.as_ref(), reg.as_ref(), wit.as_ref()).expect("process");
            // a presentation with everything in it
            let attrs: Vec<&Val> = h.vals.iter().filter(|v| k.f.attrs.contains(&v.attr)).collect();
            let mut b = Verifier::new_sub_proof_request_builder().unwrap();
            let pred = attrs.iter().find(|v| v.int().is_some());
            for v in &attrs {
                if Some(&v.attr) != pred.map(|p| &p.attr) && v.kind == Kind::Known {
                    b.add_revealed_attr(&v.attr).unwrap();
                    break;
                }
            }
            if let Some(p) = pred {
                b.add_predicate(&p.attr, "GE", p.int().unwrap().saturating_sub(10)).unwrap();
                b.add_predicate(&p.attr, "LE", p.int().unwrap()).unwrap();
            }
            let spr = b.finalize().unwrap();
            let spr_text = json!({
                "revealed_attrs": attrs.iter().filter(|v| Some(&v.attr) != pred.map(|p| &p.attr) && v.kind == Kind::Known).take(1).map(|v| v.attr.clone()).collect::<Vec<_>>(),
                "predicates": pred.iter().flat_map(|p| vec![
                    json!({"attr_name": p.attr, "p_type": "GE", "value": p.int().unwrap().saturating_sub(10)}),
                    json!({"attr_name": p.attr, "p_type": "LE", "value": p.int().unwrap()}),
                ]).collect::<Vec<_>>(),
            });
            let mut pb = Prover::new_proof_builder().unwrap();
            pb.add_common_attribute("master_secret").unwrap();
            pb.add_sub_proof_request(&spr, &h.schema, &h.non_schema, &done, &h.values, &k.pk, reg.as_ref(), wit.as_ref()).expect("add");
            let proof = pb.finalize(&n3).expect("finalize");
            msgs.insert("spr", js(&spr_text));
            msgs.insert("proof", js(&proof));
        }
        msgs.insert("pk", k.f.pk.clone());
        msgs.insert("kcp", k.f.proof.clone());
        msgs.insert("bcs", js(&bcs));
        msgs.insert("bcp", js(&bcp));
        msgs.insert("bf", js(&bf));
        msgs.insert("sig", js(&sig));
        msgs.insert("sp", js(&sp));
        msgs.insert("cred", js(&done));
        msgs.insert("n1", js(&n1));
        msgs.insert("n2", js(&n2));
        msgs.insert("n3", js(&n3));
        Arc::new(Life { id, msgs })
    });
    m.lock().unwrap().entry(id).or_insert(l).clone()
}

/// A node of `v`, found by walking down from the root so that long lists do not get all the attention.
fn some_path(sim: &mut Sim, v: &Value) -> Vec<String> {
    let mut path = vec![];
    let mut cur = v;
    loop {
        if !path.is_empty() && sim.chance(120) {
            return path;
        }
        match cur {
            Value::Object(m) if !m.is_empty() => {
                let mut ks: Vec<&String> = m.keys().collect();
                ks.sort();
                let k = ks[sim.pick(ks.len())];
                path.push(k.clone());
                cur = &m[k];
            }
            Value::Array(a) if !a.is_empty() => {
                let i = sim.pick(a.len());
                path.push(i.to_string());
                cur = &a[i];
            }
            _ => return path,
        }
    }
}

fn hostile_string(sim: &mut Sim, old: &str, n: &str) -> String {
    let spaces = old.contains(' ');
    let words: Vec<&str> = old.split(' ').collect();
    let form = if spaces {
        24 + sim.choose(10)
    } else {
        *sim.of(&[0u64, 1, 2, 3, 4, 5, 9, 10, 20, 22, 23, 19, 0, 1, 3, 18, 17, 6, 7, 8, 11, 12, 13, 14, 15, 16, 21])
    };
    match form {
        0 => "0".into(),
        1 => "1".into(),
        2 => "-1".into(),
        3 => n.into(),
        4 => format!("-{}", n),
        5 => mutate::dec_add(n, 1),
        6 => "".into(),
        7 => "-".into(),
        8 => "-0".into(),
        9 => format!("1{}", "0".repeat(600 + sim.pick(1500))),
        10 => "9".repeat(1 + sim.pick(1400)),
        11 => "12\u{0}34".into(),
        12 => "\u{0}".into(),
        13 => "abc".into(),
        14 => format!(" {}", old),
        15 => format!("{}x", old),
        16 => "é".repeat(20),
        17 => old.chars().rev().collect(),
        18 => old.chars().take(old.chars().count() / 2).collect(),
        19 => format!("{}{}", old, old),
        20 => (1u64 << (1 + sim.choose(63))).to_string(),
        21 => "00000000000000000000".into(),
        22 => format!("-{}", old),
        23 => "2".into(),
        // hexadecimal coordinates separated by blanks
        24 => words.iter().map(|_| "0").collect::<Vec<_>>().join(" "),
        25 => words.iter().map(|w| "0".repeat(w.len())).collect::<Vec<_>>().join(" "),
        26 => words.iter().map(|w| "F".repeat(w.len())).collect::<Vec<_>>().join(" "),
        27 => {
            let mut w = words.clone();
            let i = sim.pick(w.len());
            w.remove(i);
            w.join(" ")
        }
        28 => {
            let mut w = words.clone();
            let i = sim.pick(w.len());
            w[i] = "-1";
            w.join(" ")
        }
        29 => {
            let mut w: Vec<String> = words.iter().map(|s| s.to_string()).collect();
            let (i, j) = (sim.pick(w.len()), sim.pick(w.len()));
            w.swap(i, j);
            w.join(" ")
        }
        30 => {
            let mut w: Vec<String> = words.iter().map(|s| s.to_string()).collect();
            let i = sim.pick(w.len());
            w[i] = (1u64 << sim.choose(63)).to_string();
            w.join(" ")
        }
        31 => {
            let mut w: Vec<String> = words.iter().map(|s| s.to_string()).collect();
            let i = sim.pick(w.len());
            w[i] = "Z".repeat(w[i].len());
            w.join(" ")
        }
        32 => words.iter().map(|w| format!("{}0", w)).collect::<Vec<_>>().join(" "),
        _ => old.to_lowercase().replace('0', "g"),
    }
}

/// Damage `text` in one place. `other` is another genuine message to take pieces from.
fn warp(sim: &mut Sim, text: &str, other: &str, n: &str) -> (String, String) {
    if sim.chance(20) {
        // below the level of JSON
        let mut b = text.as_bytes().to_vec();
        let d = mutate::mutate_bytes(sim, &mut b).unwrap_or_default();
        return (String::from_utf8_lossy(&b).into_owned(), format!("text {}", d));
    }
    let mut v: Value = serde_json::from_str(text).unwrap_or(Value::Null);
    let p = some_path(sim, &v);
    if p.is_empty() {
        let s = match &v {
            Value::String(s) => hostile_string(sim, s, n),
            _ => hostile_string(sim, "5", n),
        };
        return (js(&json!(s)), "scalar".into());
    }
    let name = p.join(".");
    let cur = mutate::get(&v, &p).unwrap().clone();
    let d;
    match *sim.of(&[0u64, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 10, 9, 8]) {
        0..=5 => match cur {
            Value::String(s) => {
                let t = hostile_string(sim, &s, n);
                d = format!("{} = {}", name, t.chars().take(24).collect::<String>());
                *mutate::get_mut(&mut v, &p).unwrap() = json!(t);
            }
            Value::Number(_) => {
                let x = *sim.of(&[0i64, 1, 255, 4, 0, 1, 2, 255, 7, -1, u32::MAX as i64, i64::MAX, i32::MIN as i64, 5, 1 << 32, i32::MAX as i64]);
                d = format!("{} = {}", name, x);
                *mutate::get_mut(&mut v, &p).unwrap() = json!(x);
            }
            Value::Array(mut a) => {
                match sim.choose(5) {
                    0 => a.clear(),
                    1 => {
                        let l = a.last().cloned().unwrap_or(json!("1"));
                        a.push(l);
                    }
                    2 => a.push(json!(u32::MAX)),
                    3 => {
                        for _ in 0..600 {
                            a.push(json!(1));
                        }
                    }
                    _ => a.push(json!(0)),
                }
                d = format!("{} array of {}", name, a.len());
                *mutate::get_mut(&mut v, &p).unwrap() = json!(a);
            }
            Value::Object(mut m) => {
                match sim.choose(3) {
                    0 => m.clear(),
                    1 => {
                        let e = m.values().next().cloned().unwrap_or(json!("1"));
                        m.insert("99".into(), e);
                    }
                    _ => {
                        if let Some(k) = m.keys().next().cloned() {
                            let e = m.remove(&k).unwrap();
                            m.insert(format!("{}x", k), e);
                        }
                    }
                }
                d = format!("{} object of {}", name, m.len());
                *mutate::get_mut(&mut v, &p).unwrap() = json!(m);
            }
            _ => {
                d = format!("{} = \"1\"", name);
                *mutate::get_mut(&mut v, &p).unwrap() = json!("1");
            }
        },
        6 => {
            mutate::remove(&mut v, &p);
            d = format!("{} removed", name);
        }
        7 => {
            *mutate::get_mut(&mut v, &p).unwrap() = sim.of(&[Value::Null, json!([]), json!({}), json!(1), json!(true), json!("1"), json!([["a"]])]).clone();
            d = format!("{} retyped", name);
        }
        8 => {
            let q = some_path(sim, &v);
            let x = mutate::get(&v, &q).unwrap().clone();
            *mutate::get_mut(&mut v, &p).unwrap() = x;
            d = format!("{} := {}", name, q.join("."));
        }
        9 => {
            let o: Value = serde_json::from_str(other).unwrap_or(Value::Null);
            // preferably the same place
            let x = match mutate::get(&o, &p) {
                Some(x) if *x != cur => x.clone(),
                _ => {
                    let q = some_path(sim, &o);
                    mutate::get(&o, &q).unwrap().clone()
                }
            };
            *mutate::get_mut(&mut v, &p).unwrap() = x;
            d = format!("{} from another message", name);
        }
        10 => match mutate::get_mut(&mut v, &p) {
            Some(x) => d = format!("{} {}", name, mutate::mutate_scalar(sim, x).unwrap_or_default()),
            None => d = String::new(),
        },
        _ => {
            // repeat an element of a list
            let mut parent = p.clone();
            parent.pop();
            match mutate::get_mut(&mut v, &parent) {
                Some(Value::Array(a)) => {
                    a.push(cur);
                    d = format!("{} repeated", name);
                }
                _ => {
                    mutate::remove(&mut v, &p);
                    d = format!("{} removed", name);
                }
            }
        }
    }
    (js(&v), d)
}

const NAMES: [&str; 17] = [
    "proof", "pk", "bcs", "bcp", "sig", "sp", "cred", "kcp", "spr", "witness", "delta", "delta2", "reg", "rkp", "n1", "n2", "n3",
];

pub struct HostileTails<'a> {
    inner: &'a SimTails,
    bad: Option<(u32, Tail)>,
}
impl RevocationTailsAccessor for HostileTails<'_> {
    fn access_tail(&self, id: u32, f: &mut dyn FnMut(&Tail)) -> ursa::errors::UrsaCryptoResult<()> {
        match &self.bad {
            Some((i, t)) if *i == id => {
                f(t);
                Ok(())
            }
            _ => self.inner.access_tail(id, f),
        }
    }
}

macro_rules! msg {
    ($sim:expr, $m:expr, $touched:expr, $good:expr, $t:ty, $n:expr) => {
        match $m.get($n) {
            None => None,
            Some(s) => match $sim.no_panic(concat!("parse:", stringify!($t)), || serde_json::from_str::<$t>(s)) {
                Ok(v) => Some(v),
                Err(_) => {
                    // refused when parsed; the party goes on with what the honest peer sends
                    $sim.probe("malformed message refused when parsed");
                    $touched.remove($n);
                    Some(parse::<$t>(&$good[$n]))
                }
            },
        }
    };
}

pub fn hostile(sim: &mut Sim) {
    let id = sim.choose(N_CREDS);
    let l = life(id);
    let h = held(id);
    let k = &h.keys;
    let n_mod = serde_json::from_str::<Value>(&k.f.pk).unwrap()["p_key"]["n"].as_str().unwrap().to_string();
    let mut m = l.msgs.clone();
    let names: Vec<&'static str> = NAMES.iter().filter(|n| m.contains_key(*n)).cloned().collect();
    // the presentation and the credential get most of the attention
    let first = match sim.choose(8) {
        0 | 1 => "proof",
        2 if h.fx.reg.is_some() => *sim.of(&["delta", "delta2", "witness", "reg"]),
        _ => names[sim.pick(names.len())],
    };
    let n_edits = *sim.of(&[1u64, 1, 1, 2, 3, 5]);
    let mut touched = BTreeSet::new();
    for e in 0..n_edits {
        let which = if e == 0 || sim.chance(700) { first } else { names[sim.pick(names.len())] };
        let other_id = sim.choose(N_CREDS);
        let other = if sim.coin() { life(other_id).msgs.get(which).cloned() } else { None };
        let other = other.unwrap_or_else(|| l.msgs[names[sim.pick(names.len())]].clone());
        let (t, d) = warp(sim, &m[which], &other, &n_mod);
        ev!(sim, "hostile {}: {}", which, d);
        m.insert(which, t);
        touched.insert(which);
    }
    sim.note_fault("message.hostile");
    sim.probe("hostile message delivered");
    let hv = values(&h.fx.vals);
    let iv = known_values(&h.fx.vals);
    let pk = msg!(sim, m, touched, l.msgs, CredentialPublicKey, "pk").unwrap();
    let kcp = msg!(sim, m, touched, l.msgs, CredentialKeyCorrectnessProof, "kcp").unwrap();
    let bcs = msg!(sim, m, touched, l.msgs, BlindedCredentialSecrets, "bcs").unwrap();
    let bcp = msg!(sim, m, touched, l.msgs, BlindedCredentialSecretsCorrectnessProof, "bcp").unwrap();
    let bf = msg!(sim, m, touched, l.msgs, CredentialSecretsBlindingFactors, "bf").unwrap();
    let mut sig = msg!(sim, m, touched, l.msgs, CredentialSignature, "sig").unwrap();
    let sp = msg!(sim, m, touched, l.msgs, SignatureCorrectnessProof, "sp").unwrap();
    let cred = msg!(sim, m, touched, l.msgs, CredentialSignature, "cred").unwrap();
    let spr = msg!(sim, m, touched, l.msgs, SubProofRequest, "spr").unwrap();
    let proof = msg!(sim, m, touched, l.msgs, Proof, "proof").unwrap();
    let n1 = msg!(sim, m, touched, l.msgs, Nonce, "n1").unwrap();
    let n2 = msg!(sim, m, touched, l.msgs, Nonce, "n2").unwrap();
    let n3 = msg!(sim, m, touched, l.msgs, Nonce, "n3").unwrap();
    let rkp = msg!(sim, m, touched, l.msgs, RevocationKeyPublic, "rkp");
    let reg = msg!(sim, m, touched, l.msgs, RevocationRegistry, "reg");
    let mut wit = msg!(sim, m, touched, l.msgs, Witness, "witness");
    let delta = msg!(sim, m, touched, l.msgs, RevocationRegistryDelta, "delta");
    let delta2 = msg!(sim, m, touched, l.msgs, RevocationRegistryDelta, "delta2");
    if touched.is_empty() {
        return;
    }
    sim.probe("hostile message parsed");
    let has = |xs: &[&str]| xs.iter().any(|x| touched.contains(x));

    // copies and re-encoding work on whatever was parsed
    if sim.chance(300) {
        sim.no_panic("try_clone", || {
            let _ = pk.try_clone();
            let _ = kcp.try_clone();
            let _ = sig.try_clone();
            let _ = cred.try_clone();
            let _ = cred.extract_index();
            serde_json::to_string(&proof).map(|_| ()).unwrap_or(());
            serde_json::to_string(&pk).map(|_| ()).unwrap_or(());
            serde_json::to_string(&sig).map(|_| ()).unwrap_or(());
        });
    }
    let reload_reg = |s: &str| -> RevocationRegistry { parse(s) };
    let t = h.fx.reg.as_ref().map(|r| SimTails::new(&r.0));
    // a holder who downloads a damaged tails file
    let bad = match (&t, sim.chance(250)) {
        (Some(t), true) => {
            let i = sim.pick(t.tails.len());
            let s = js(&t.tails[i]);
            let (s2, d) = warp(sim, &s, &s, &n_mod);
            ev!(sim, "hostile tail {}: {}", i, d);
            sim.no_panic("parse:Tail", || serde_json::from_str::<Tail>(&s2)).ok().map(|x| (i as u32, x))
        }
        _ => None,
    };
    let bad_tail = bad.is_some();
    let ht = t.as_ref().map(|t| HostileTails { inner: t, bad });

    if has(&["pk", "kcp", "n1"]) {
        let r = sim.no_panic("blind_credential_secrets", || Prover::blind_credential_secrets(&pk, &kcp, &hv, &n1).map(|_| ()));
        sim.probe(if r.is_ok() { "hostile input accepted" } else { "hostile input refused" });
    }
    if has(&["bcs", "bcp", "n1", "n2"]) {
        // the issuer uses its own keys
        let r = match &h.fx.reg {
            Some((rf, idx)) if sim.coin() => {
                let mut rr = reload_reg(&rf.reg);
                let rks: RevocationKeyPrivate = parse(&rf.rks);
                let idx = if sim.chance(100) { *sim.of(&[0u32, u32::MAX, rf.max + 1]) } else { *idx };
                sim.no_panic("sign_credential_with_revoc", || {
                    Issuer::sign_credential_with_revoc("p", &bcs, &bcp, &n1, &n2, &iv, &k.pk, &k.sk, idx, rf.max, rf.by_default, &mut rr, &rks, ht.as_ref().unwrap()).map(|_| ())
                })
            }
            _ => sim.no_panic("sign_credential", || Issuer::sign_credential("p", &bcs, &bcp, &n1, &n2, &iv, &k.pk, &k.sk).map(|_| ())),
        };
        sim.probe(if r.is_ok() { "hostile input accepted" } else { "hostile input refused" });
    }
    if has(&["sig", "sp", "pk", "n2", "rkp", "reg", "witness"]) {
        let r = sim.no_panic("process_credential_signature", || {
            Prover::process_credential_signature(&mut sig, &hv, &sp, &bf, &pk, &n2, rkp.as_ref(), reg.as_ref(), wit.as_ref())
        });
        sim.probe(if r.is_ok() { "hostile input accepted" } else { "hostile input refused" });
        sim.no_panic("serialize", || drop(serde_json::to_string(&sig)));
    }
    if has(&["cred", "pk", "spr", "reg", "witness", "n3"]) {
        let r = sim.no_panic("build presentation", || -> ursa::errors::UrsaCryptoResult<Proof> {
            let mut b = Prover::new_proof_builder()?;
            b.add_common_attribute("master_secret")?;
            b.add_sub_proof_request(&spr, &h.schema, &h.non_schema, &cred, &h.values, &pk, reg.as_ref(), wit.as_ref())?;
            b.finalize(&n3)
        });
        sim.probe(if r.is_ok() { "hostile input accepted" } else { "hostile input refused" });
        if let Ok(p) = r {
            sim.no_panic("serialize", || drop(serde_json::to_string(&p)));
        }
    }
    if has(&["proof", "pk", "spr", "reg", "rkp", "n3"]) {
        let with_rev = reg.is_some() && !sim.chance(100);
        let mut v = Verifier::new_proof_verifier().unwrap();
        v.add_common_attribute("master_secret").unwrap();
        let r = sim.no_panic("verify presentation", || {
            for p in &proof.proofs {
                let _ = p.revealed_attrs();
            }
            let (a, b) = if with_rev { (rkp.as_ref(), reg.as_ref()) } else { (None, None) };
            v.add_sub_proof_request(&spr, &h.schema, &h.non_schema, &pk, a, b)?;
            v.verify(&proof, &n3)
        });
        sim.probe(if matches!(r, Ok(true)) { "hostile input accepted" } else { "hostile input refused" });
        // the same verifier object goes on serving
        if touched.len() == 1 && touched.contains("proof") && sim.chance(300) && with_rev == reg.is_some() {
            let honest: Proof = parse(&l.msgs["proof"]);
            let r = sim.no_panic("verify honest", || v.verify(&honest, &n3));
            ensure!(sim, matches!(r, Ok(true)), "party-spoiled", "after a hostile presentation the verifier rejects an honest one: {:?}", r.map_err(|e| e.to_string()));
            sim.probe("honest peer served after a hostile message");
        }
    }
    if let (Some(d), Some(d2), Some(ht), Some((rf, idx))) = (delta, delta2, ht, h.fx.reg.as_ref()) {
        if has(&["delta", "delta2", "witness", "reg"]) || bad_tail {
            let mut x: RevocationRegistryDelta = reload(&d);
            let _ = sim.no_panic("delta merge", || x.merge(&d2));
            let mut x: RevocationRegistryDelta = reload(&d2);
            let _ = sim.no_panic("delta merge", || x.merge(&d));
            let r = sim.no_panic("Witness::new", || Witness::new(*idx, rf.max, rf.by_default, &d, &ht));
            if let Ok(mut w) = r {
                let _ = sim.no_panic("Witness::update", || w.update(*idx, rf.max, &d2, &ht));
            }
            if let Some(w) = wit.as_mut() {
                let _ = sim.no_panic("Witness::update", || w.update(*idx, rf.max, &d2, &ht));
                let _ = sim.no_panic("Witness::update", || w.update(*idx, rf.max, &d, &ht));
            }
            if let Some(r) = &reg {
                // a registry loaded from a damaged file
                let mut rr = reload_reg(&js(r));
                let _ = sim.no_panic("revoke_credential", || Issuer::revoke_credential(&mut rr, rf.max, *idx, &ht).map(|_| ()));
                let _ = sim.no_panic("recovery_credential", || Issuer::recovery_credential(&mut rr, rf.max, *idx, &ht).map(|_| ()));
                let _ = sim.no_panic("RevocationRegistryDelta::from_parts", || RevocationRegistryDelta::from_parts(Some(r), &rr, &HashSet::new(), &HashSet::new()));
            }
            sim.probe("hostile registry data used");
        }
    }
}

/// The small types: text and byte forms of numbers and group elements.
pub fn pieces(sim: &mut Sim) {
    use ursa::bn::BigNumber;
    use ursa::pair::{GroupOrderElement, Pair, PointG1, PointG2};
    let bytes = match sim.choose(4) {
        0 => sim.bytes(32),
        1 => {
            let n = sim.pick(600);
            sim.bytes(n)
        }
        2 => PointG1::new().unwrap().to_bytes().unwrap(),
        _ => PointG2::new().unwrap().to_bytes().unwrap(),
    };
    let mut b = bytes;
    for _ in 0..sim.choose(3) {
        mutate::mutate_bytes(sim, &mut b);
    }
    let old = match sim.choose(5) {
        0 => PointG1::new().unwrap().to_string().unwrap(),
        1 => PointG2::new().unwrap().to_string().unwrap(),
        2 => GroupOrderElement::new().unwrap().to_string().unwrap(),
        3 => "123456789".to_string(),
        _ => Pair::pair(&PointG1::new().unwrap(), &PointG2::new().unwrap()).unwrap().to_string().unwrap(),
    };
    let s = hostile_string(sim, &old, "987654321987654321");
    ev!(sim, "text {:?} bytes {}", s.chars().take(60).collect::<String>(), b.len());
    sim.probe("hostile message delivered");
    sim.note_fault("message.hostile");
    sim.no_panic("BigNumber::from_dec", || drop(BigNumber::from_dec(&s)));
    sim.no_panic("BigNumber::from_hex", || drop(BigNumber::from_hex(&s)));
    sim.no_panic("BigNumber::from_bytes", || drop(BigNumber::from_bytes(&b)));
    sim.no_panic("GroupOrderElement::from_string", || drop(GroupOrderElement::from_string(&s)));
    sim.no_panic("GroupOrderElement::from_bytes", || drop(GroupOrderElement::from_bytes(&b)));
    if let Ok(p) = sim.no_panic("PointG1::from_string", || PointG1::from_string(&s)) {
        sim.no_panic("PointG1 arithmetic", || drop(p.add(&p).and_then(|q| q.mul(&GroupOrderElement::new()?)).and_then(|q| q.to_bytes())));
    }
    if let Ok(p) = sim.no_panic("PointG1::from_bytes", || PointG1::from_bytes(&b)) {
        sim.no_panic("PointG1 arithmetic", || drop(p.add(&p).and_then(|q| q.mul(&GroupOrderElement::new()?)).and_then(|q| q.to_bytes())));
    }
    if let Ok(p) = sim.no_panic("PointG2::from_string", || PointG2::from_string(&s)) {
        sim.no_panic("PointG2 arithmetic", || drop(p.add(&p).and_then(|q| q.mul(&GroupOrderElement::new()?)).and_then(|q| q.to_bytes())));
    }
    if let Ok(p) = sim.no_panic("PointG2::from_bytes", || PointG2::from_bytes(&b)) {
        sim.no_panic("PointG2 arithmetic", || drop(p.add(&p).and_then(|q| q.mul(&GroupOrderElement::new()?)).and_then(|q| q.to_bytes())));
    }
    if let Ok(p) = sim.no_panic("Pair::from_string", || Pair::from_string(&s)) {
        sim.no_panic("Pair arithmetic", || drop(p.mul(&p).and_then(|q| q.inverse()).and_then(|q| q.to_bytes())));
    }
    // arithmetic a peer can drive to the edge
    let (x, y, z) = (edge(sim), edge(sim), edge(sim));
    let mut ctx = BigNumber::new_context().unwrap();
    sim.no_panic("BigNumber arithmetic", || {
        let _ = x.mod_exp(&y, &z, Some(&mut ctx));
        let _ = x.mod_mul(&y, &z, Some(&mut ctx));
        let _ = x.mod_sub(&y, &z, Some(&mut ctx));
        let _ = x.mod_div(&y, &z, Some(&mut ctx));
        let _ = x.modulus(&z, None);
        let _ = x.div(&z, Some(&mut ctx));
        let _ = x.inverse(&z, None);
        let _ = x.inverse(&z, Some(&mut ctx));
        let _ = x.sqr(None);
        let _ = x.is_prime(None);
        let _ = x.is_safe_prime(None);
        let _ = x.to_bytes();
        let _ = x.lshift1();
        let _ = x.rshift1();
        let _ = x.rshift(3);
        let _ = x.is_bit_set(700);
        let _ = x.num_bits();
        let _ = x.increment();
        let _ = x.decrement();
    });
}

fn edge(sim: &mut Sim) -> ursa::bn::BigNumber {
    use ursa::bn::BigNumber;
    match sim.choose(8) {
        0 => BigNumber::from_dec("0").unwrap(),
        1 => BigNumber::from_dec("1").unwrap(),
        2 => BigNumber::from_dec("-1").unwrap(),
        3 => BigNumber::from_dec("2").unwrap(),
        4 => BigNumber::from_dec("-987654321987654321987654321").unwrap(),
        5 => BigNumber::new().unwrap(),
        _ => {
            let n = 1 + sim.pick(80);
            BigNumber::from_bytes(&sim.bytes(n)).unwrap()
        }
    }
}
