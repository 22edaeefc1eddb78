//! C02, C03: presentations.
use super::issue::tamper;
use super::world::*;
use serde_json::{json, Value};
use simcore::sim::hash_str;
use simcore::{ensure, ev, mutate, Net, NetCfg, Sim};
use std::collections::BTreeSet;
use ursa::bn::BigNumber;
use ursa::cl::prover::Prover;
use ursa::cl::verifier::{ProofVerifier, Verifier};
use ursa::cl::*;
use ursa::errors::UrsaCryptoResult;

#[derive(Clone, Debug)]
pub struct Sub {
    pub cred: u64,
    pub spr: Spr,
    pub with_rev: bool,
}
#[derive(Clone, Debug)]
pub struct Request {
    pub subs: Vec<Sub>,
    pub common: Vec<String>,
}

/// A request that the pool's holder can satisfy truthfully.
pub fn gen_request(sim: &mut Sim, max_subs: usize, max_preds: u64) -> Request {
    let holder = sim.choose(3);
    let mine: Vec<u64> = (0..N_CREDS).filter(|i| (i / 7) % 3 == holder).collect();
    let n = 1 + sim.pick(max_subs);
    let ids: Vec<u64> = (0..n).map(|_| *sim.of(&mine)).collect();
    let hs: Vec<_> = ids.iter().map(|i| cred_fixture(*i)).collect();
    let val = |i: usize, a: &str| hs[i].vals.iter().find(|v| v.attr == a && v.kind != Kind::Committed).map(|v| v.dec.clone());
    let mut common = vec![];
    if sim.chance(850) {
        common.push("master_secret".to_string());
    }
    for a in ["age", "link_secret", "name"] {
        if let Some(v) = val(0, a) {
            if (1..n).all(|i| val(i, a).as_deref() == Some(v.as_str())) && sim.chance(500) {
                common.push(a.to_string());
            }
        }
    }
    let keep: BTreeSet<String> = common.iter().cloned().collect();
    let subs = ids
        .iter()
        .zip(&hs)
        .map(|(id, h)| {
            let f = fixture(h.fx);
            let vals: Vec<Val> = h.vals.iter().filter(|v| v.kind != Kind::Committed).cloned().collect();
            Sub { cred: *id, spr: gen_spr(sim, &f, &vals, &keep, max_preds), with_rev: h.reg.is_some() && sim.chance(600) }
        })
        .collect();
    Request { subs, common }
}

/// What the holder of `r.subs` builds; the values may be changed by `lie`.
pub fn build(
    sim: &mut Sim,
    r: &Request,
    nonce: &Nonce,
    lie: &mut dyn FnMut(usize, &mut Held),
) -> Result<UrsaCryptoResult<Proof>, simcore::sim::Panicked> {
    builder(sim, r, lie, |b| b.finalize(nonce))
}
pub fn builder<T>(
    sim: &mut Sim,
    r: &Request,
    lie: &mut dyn FnMut(usize, &mut Held),
    finish: impl FnOnce(&mut ursa::cl::prover::ProofBuilder) -> UrsaCryptoResult<T>,
) -> Result<UrsaCryptoResult<T>, simcore::sim::Panicked> {
    let mut hs = vec![];
    for (i, s) in r.subs.iter().enumerate() {
        let mut h = held(s.cred);
        lie(i, &mut h);
        let spr = s.spr.build(sim);
        hs.push((h, spr, s.with_rev));
    }
    sim.guard(|| {
        let mut b = Prover::new_proof_builder()?;
        for a in &r.common {
            b.add_common_attribute(a)?;
        }
        for (h, spr, rev) in &hs {
            let (reg, wit) = if *rev { (h.reg.as_ref(), h.witness.as_ref()) } else { (None, None) };
            b.add_sub_proof_request(spr, &h.schema, &h.non_schema, &h.sig, &h.values, &h.keys.pk, reg, wit)?;
        }
        finish(&mut b)
    })
}
pub fn verifier(sim: &mut Sim, r: &Request) -> ProofVerifier {
    let mut v = Verifier::new_proof_verifier().unwrap();
    for a in &r.common {
        v.add_common_attribute(a).unwrap();
    }
    for s in &r.subs {
        let h = held(s.cred);
        let spr = s.spr.build(sim);
        let (rkp, reg) = if s.with_rev { (h.rkp.as_ref(), h.reg.as_ref()) } else { (None, None) };
        sim.must("verifier.add_sub_proof_request", || v.add_sub_proof_request(&spr, &h.schema, &h.non_schema, &h.keys.pk, rkp, reg));
    }
    v
}
pub fn honest(sim: &mut Sim, r: &Request, nonce: &Nonce) -> Proof {
    match build(sim, r, nonce, &mut |_, _| {}) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => sim.stop("honest-presentation-failed", format!("building a truthful presentation failed: {} for {:?}", e, r)),
        Err(p) => sim.stop("panic:build", format!("building a truthful presentation panicked at {}: {} for {:?}", p.location, p.message, r)),
    }
}
fn accepted(sim: &mut Sim, v: &mut ProofVerifier, p: &Proof, n: &Nonce) -> bool {
    matches!(sim.no_panic("verify", || v.verify(p, n)), Ok(true))
}
fn check_revealed(sim: &mut Sim, r: &Request, p: &Proof) {
    for (s, sp) in r.subs.iter().zip(&p.proofs) {
        let got = sp.revealed_attrs().unwrap();
        let h = cred_fixture(s.cred);
        let want: std::collections::HashMap<String, String> = s
            .spr
            .revealed
            .iter()
            .map(|a| (a.clone(), BigNumber::from_dec(&h.vals.iter().find(|v| v.attr == *a).unwrap().dec).unwrap().to_dec().unwrap()))
            .collect();
        ensure!(sim, got == want, "revealed-values", "revealed {:?} instead of {:?}", got, want);
    }
}

// ---- C02 -------------------------------------------------------------------------------------

/// Provers answer a verifier's requests over a faulty network; the verifier keeps one object per
/// request and uses it for every answer that arrives, stale and duplicated ones included.
pub fn exchange(sim: &mut Sim) {
    let cfg = NetCfg::swarm(sim, false);
    let mut net = Net::new(cfg);
    let n_req = 1 + sim.pick(2);
    let big = sim.chance(250);
    let reqs: Vec<Request> = (0..n_req).map(|_| if big { gen_request(sim, 3, 3) } else { gen_request(sim, 2, 1) }).collect();
    let mut vers: Vec<ProofVerifier> = vec![];
    for r in &reqs {
        vers.push(verifier(sim, r));
    }
    let rounds_each = 1 + sim.choose(2);
    let mut nonce: Vec<String> = (0..n_req).map(|_| js(&new_nonce().unwrap())).collect();
    let mut done = vec![0u64; n_req];
    let mut cached: Vec<Option<(String, String)>> = vec![None; n_req];
    let fresh_proofs = sim.chance(400);
    let mut round = 0;
    while done.iter().any(|d| *d < rounds_each) {
        round += 1;
        ensure!(sim, round < 30, "presentation-stuck", "presentations did not finish after 30 rounds of retries");
        if round > 3 {
            net.heal();
        }
        for i in 0..n_req {
            if done[i] < rounds_each {
                let b = json!({"req": i, "nonce": nonce[i]});
                net.send(sim, 0, 1 + i, "request", b.to_string().into_bytes());
            }
        }
        while let Some(m) = net.next(sim) {
            let v: Value = serde_json::from_slice(&m.body).unwrap();
            let i = v["req"].as_u64().unwrap() as usize;
            if m.to != 0 {
                let nn = v["nonce"].as_str().unwrap().to_string();
                // a prover restarts or answers a repeated request from its saved proof
                let keep = cached[i].as_ref().map(|c| c.0 == nn).unwrap_or(false) && !fresh_proofs;
                if !keep {
                    let n: Nonce = parse(&nn);
                    let p = honest(sim, &reqs[i], &n);
                    let s = js(&p);
                    sim.absorb(s.as_bytes());
                    cached[i] = Some((nn.clone(), s));
                }
                let b = json!({"req": i, "nonce": nn, "proof": cached[i].as_ref().unwrap().1});
                net.send(sim, m.to, 0, "presentation", b.to_string().into_bytes());
            } else {
                let p: Proof = parse(v["proof"].as_str().unwrap());
                let n: Nonce = parse(&nonce[i]);
                let stale = v["nonce"].as_str().unwrap() != nonce[i];
                let out = sim.no_panic("verify", || vers[i].verify(&p, &n));
                if stale {
                    sim.probe("stale presentation refused");
                    ensure!(sim, !matches!(out, Ok(true)), "accepted:stale-nonce", "a presentation for an earlier nonce was accepted");
                } else {
                    match out {
                        Ok(true) => {}
                        Ok(false) => sim.stop("honest-presentation-rejected", format!("a truthful presentation was rejected (verified before with this object: {}) {:?}", done[i], reqs[i])),
                        Err(e) => sim.stop("honest-presentation-rejected", format!("a truthful presentation was refused: {} (verified before with this object: {}) {:?}", e, done[i], reqs[i])),
                    }
                    sim.probe("honest presentation accepted");
                    check_revealed(sim, &reqs[i], &p);
                    if done[i] < rounds_each {
                        done[i] += 1;
                        if done[i] < rounds_each {
                            nonce[i] = js(&new_nonce().unwrap());
                        }
                    }
                }
            }
            sim.state(hash_str(&format!("{:?} {}", done, net.q.len())));
        }
    }
}

/// One presentation, all request features at once: the widest sweep over requests.
pub fn sweep(sim: &mut Sim) {
    let r = gen_request(sim, 3, 4);
    let n = new_nonce().unwrap();
    let p = honest(sim, &r, &n);
    let p: Proof = if sim.coin() { reload(&p) } else { p };
    let mut v = verifier(sim, &r);
    if sim.chance(300) {
        // an earlier answer that was wrong must not spoil the verifier
        let n2 = new_nonce().unwrap();
        let ok = accepted(sim, &mut v, &p, &n2);
        ensure!(sim, !ok, "accepted:other-nonce", "presentation accepted under another nonce");
    }
    let out = sim.no_panic("verify", || v.verify(&p, &n));
    ensure!(sim, matches!(out, Ok(true)), "honest-presentation-rejected", "a truthful presentation was refused: {:?} {:?}", out, r);
    check_revealed(sim, &r, &p);
    let np: usize = r.subs.iter().map(|s| s.spr.preds.len()).sum();
    sim.state_str(&format!("{} subs, {} preds, {} revealed, {} common, rev {}", r.subs.len(), np, r.subs.iter().map(|s| s.spr.revealed.len()).sum::<usize>(), r.common.len(), r.subs.iter().filter(|s| s.with_rev).count()));
    sim.probe("honest presentation accepted");
    if np > 0 {
        sim.probe("with predicates");
    }
    if r.subs.iter().any(|s| s.with_rev) {
        sim.probe("with non-revocation");
    }
    sim.absorb(js(&p).as_bytes());
}

// ---- C03 -------------------------------------------------------------------------------------

fn bn(v: &Value) -> BigNumber {
    BigNumber::from_dec(v.as_str().unwrap()).unwrap()
}
fn dec(b: &BigNumber) -> Value {
    Value::from(b.to_dec().unwrap())
}
fn modulus(cred: u64) -> String {
    let f = fixture(cred_fixture(cred).fx);
    serde_json::from_str::<Value>(&f.pk).unwrap()["p_key"]["n"].as_str().unwrap().to_string()
}

/// Exactly one part of a genuine presentation is different.
pub fn altered(sim: &mut Sim) {
    let r = gen_request(sim, 2, 2);
    let n = new_nonce().unwrap();
    let p = honest(sim, &r, &n);
    let text = js(&p);
    let orig: Value = serde_json::from_str(&text).unwrap();
    let tries = 3 + sim.choose(6);
    for _ in 0..tries {
        let md = modulus(r.subs[sim.pick(r.subs.len())].cred);
        let (t, what) = match sim.choose(8) {
            0..=4 => match tamper::<Proof>(sim, &text, Some(&md), 7) {
                Some(x) => x,
                None => continue,
            },
            5 => {
                // whole sub-structures removed, doubled, swapped
                let mut v = orig.clone();
                let nsub = r.subs.len();
                let i = sim.pick(nsub);
                let w = match sim.choose(8) {
                    0 => {
                        v["proofs"].as_array_mut().unwrap().remove(i);
                        "sub-proof removed"
                    }
                    1 => {
                        let x = v["proofs"][i].clone();
                        v["proofs"].as_array_mut().unwrap().push(x);
                        "sub-proof repeated"
                    }
                    2 => {
                        v["proofs"].as_array_mut().unwrap().swap(0, nsub - 1);
                        "sub-proofs swapped"
                    }
                    3 => {
                        if let Some(a) = v["proofs"][i]["primary_proof"]["ge_proofs"].as_array_mut() {
                            if a.is_empty() {
                                continue;
                            }
                            let k = sim.pick(a.len());
                            if sim.coin() {
                                let x = a[k].clone();
                                a.push(x);
                            } else {
                                a.remove(k);
                            }
                        }
                        "predicate proof removed or repeated"
                    }
                    4 => {
                        let np = &mut v["proofs"][i]["non_revoc_proof"];
                        if np.is_null() {
                            continue;
                        }
                        *np = Value::Null;
                        "non-revocation proof removed"
                    }
                    5 => {
                        // a part moved between a map of responses and the outside
                        let m = &mut v["proofs"][i]["primary_proof"]["eq_proof"];
                        let keys: Vec<String> = m["m"].as_object().unwrap().keys().cloned().collect();
                        let k = keys[sim.pick(keys.len())].clone();
                        let x = m["m"].as_object_mut().unwrap().remove(&k).unwrap();
                        m["revealed_attrs"].as_object_mut().unwrap().insert(k, x);
                        "hidden response presented as a revealed value"
                    }
                    6 => {
                        let m = &mut v["proofs"][i]["primary_proof"]["eq_proof"]["m"];
                        m.as_object_mut().unwrap().insert(sim.of(&["extra", "age", "zip code", "policy"]).to_string(), Value::from("5"));
                        "extra response"
                    }
                    _ => {
                        // bytes of the commitments regrouped
                        let l = v["aggregated_proof"]["c_list"].as_array_mut().unwrap();
                        if l.len() < 2 {
                            continue;
                        }
                        let k = sim.pick(l.len() - 1);
                        if sim.coin() {
                            let b = l.remove(k + 1);
                            let add = b.as_array().unwrap().clone();
                            l[k].as_array_mut().unwrap().extend(add);
                        } else {
                            let x = l[k].as_array_mut().unwrap().pop();
                            if let Some(x) = x {
                                l[k + 1].as_array_mut().unwrap().insert(0, x);
                            }
                        }
                        "commitment bytes regrouped"
                    }
                };
                match serde_json::from_value::<Proof>(v) {
                    Ok(t) => {
                        if same_message(&jv(&t), &orig) {
                            continue;
                        }
                        (t, w.to_string())
                    }
                    Err(_) => continue,
                }
            }
            6 => {
                // sign of a response flipped, or shifted by the modulus, with its commitment bytes kept
                let mut v = orig.clone();
                let ls: Vec<_> = mutate::leaves(&v).into_iter().filter(|p| p[0] == "proofs" && !p.contains(&"predicate".to_string())).collect();
                let path = ls[sim.pick(ls.len())].clone();
                let Some(x) = mutate::get_mut(&mut v, &path) else { continue };
                let Some(s) = x.as_str().map(|s| s.to_string()) else { continue };
                if !s.bytes().all(|c| c.is_ascii_digit()) || s.is_empty() || s == "0" {
                    continue;
                }
                let b = BigNumber::from_dec(&s).unwrap();
                let m = BigNumber::from_dec(&md).unwrap();
                let (nv, d) = match sim.choose(3) {
                    0 => (format!("-{}", s), "negated"),
                    1 => (b.add(&m).unwrap().to_dec().unwrap(), "+n"),
                    _ => (m.sub(&b).unwrap().to_dec().unwrap(), "n-x"),
                };
                *x = Value::from(nv);
                match serde_json::from_value::<Proof>(v) {
                    Ok(t) => (t, format!("{} {}", path.join("."), d)),
                    Err(_) => continue,
                }
            }
            _ => {
                // an element and the list of commitment bytes changed together
                let mut v = orig.clone();
                let i = sim.pick(r.subs.len());
                let x = bn(&v["proofs"][i]["primary_proof"]["eq_proof"]["a_prime"]);
                let m = BigNumber::from_dec(&modulus(r.subs[i].cred)).unwrap();
                let nx = m.sub(&x).unwrap();
                v["proofs"][i]["primary_proof"]["eq_proof"]["a_prime"] = dec(&nx);
                let old = json!(x.to_bytes().unwrap());
                for e in v["aggregated_proof"]["c_list"].as_array_mut().unwrap() {
                    if *e == old {
                        *e = json!(nx.to_bytes().unwrap());
                    }
                }
                (parse(&v.to_string()), "a_prime and its bytes negated".to_string())
            }
        };
        ev!(sim, "altered {}", what);
        let mut v = verifier(sim, &r);
        let ok = accepted(sim, &mut v, &t, &n);
        ensure!(sim, !ok, "accepted:altered", "an altered presentation was accepted: {} ({:?})", what, r);
        sim.probe("altered presentation refused");
    }
    // and the genuine one still is
    let mut v = verifier(sim, &r);
    let ok = accepted(sim, &mut v, &p, &n);
    ensure!(sim, ok, "honest-presentation-rejected", "the genuine presentation was rejected {:?}", r);
}

/// Genuine presentations for something else, and parts of several.
pub fn misused(sim: &mut Sim) {
    let r = gen_request(sim, 2, 2);
    let n = new_nonce().unwrap();
    let p = honest(sim, &r, &n);
    let mut want = r.clone();
    let mut n_v = n.try_clone().unwrap();
    let mut proof = None;
    let mut other_key = None;
    let mut other_reg = None;
    let what = match sim.choose(9) {
        0 => {
            n_v = if sim.coin() { new_nonce().unwrap() } else { n.increment().unwrap() };
            "another nonce"
        }
        1 => {
            // a request with one more or one less revealed attribute
            let i = sim.pick(r.subs.len());
            let f = fixture(cred_fixture(r.subs[i].cred).fx);
            let a = f.attrs[sim.pick(f.attrs.len())].clone();
            let s = &mut want.subs[i].spr;
            if !s.revealed.remove(&a) {
                s.preds.retain(|p| p.attr != a);
                s.revealed.insert(a);
            }
            "another set of revealed attributes"
        }
        2 => {
            let i = sim.pick(r.subs.len());
            let s = &mut want.subs[i].spr;
            if s.preds.is_empty() {
                let f = fixture(cred_fixture(r.subs[i].cred).fx);
                let a = f.attrs[sim.pick(f.attrs.len())].clone();
                if s.revealed.contains(&a) {
                    return;
                }
                s.preds.push(Pred { attr: a, ty: "GE", val: sim.irange(-5, 5) as i32 });
            } else {
                let k = sim.pick(s.preds.len());
                match sim.choose(3) {
                    0 => s.preds[k].val = s.preds[k].val.wrapping_add(if sim.coin() { 1 } else { -1 }),
                    1 => {
                        let o = s.preds[k].ty;
                        s.preds[k].ty = match o {
                            "GE" => "GT",
                            "GT" => "GE",
                            "LE" => "LT",
                            _ => "LE",
                        }
                    }
                    _ => {
                        s.preds.remove(k);
                    }
                }
                if s.preds == r.subs[i].spr.preds {
                    return;
                }
                // the changed request may coincide with another of the predicates
                let set = |p: &Vec<Pred>| p.iter().map(|p| (p.attr.clone(), p.ty, p.val)).collect::<BTreeSet<_>>();
                if set(&s.preds) == set(&r.subs[i].spr.preds) {
                    return;
                }
            }
            "another predicate"
        }
        3 => {
            let i = sim.pick(r.subs.len());
            let fx = cred_fixture(r.subs[i].cred).fx;
            other_key = Some((i, keys(100 + fx).pk));
            "another issuer key of the same schema"
        }
        4 => {
            let i = sim.pick(r.subs.len());
            if !r.subs[i].with_rev {
                return;
            }
            let h = cred_fixture(r.subs[i].cred);
            let rf = h.reg.as_ref().unwrap();
            let o = reg_fixture(h.fx, rf.0.max, rf.0.by_default, 7);
            other_reg = Some((i, o));
            "another revocation registry"
        }
        5 => {
            // request without the revocation check, or with one the holder did not answer
            let i = sim.pick(r.subs.len());
            if cred_fixture(r.subs[i].cred).reg.is_none() {
                return;
            }
            want.subs[i].with_rev = !r.subs[i].with_rev;
            if want.subs[i].with_rev { "no non-revocation part although one is required" } else { "a non-revocation part that was not asked for" }
        }
        6 => {
            // a part of another presentation of the same request and nonce
            let p2 = honest(sim, &r, &n);
            let mut v = jv(&p);
            let w = jv(&p2);
            let i = sim.pick(r.subs.len());
            match sim.choose(6) {
                0 if r.subs.len() > 1 => v["proofs"][i] = w["proofs"][i].clone(),
                1 => v["aggregated_proof"] = w["aggregated_proof"].clone(),
                2 => v["aggregated_proof"]["c_list"] = w["aggregated_proof"]["c_list"].clone(),
                3 => v["proofs"][i]["primary_proof"]["eq_proof"] = w["proofs"][i]["primary_proof"]["eq_proof"].clone(),
                4 if !r.subs[i].spr.preds.is_empty() => v["proofs"][i]["primary_proof"]["ge_proofs"] = w["proofs"][i]["primary_proof"]["ge_proofs"].clone(),
                5 if r.subs[i].with_rev => v["proofs"][i]["non_revoc_proof"] = w["proofs"][i]["non_revoc_proof"].clone(),
                _ => return,
            }
            proof = Some(parse::<Proof>(&v.to_string()));
            "parts of two presentations"
        }
        7 => {
            if r.subs.len() < 2 {
                return;
            }
            want.subs.swap(0, 1);
            if format!("{:?}", want) == format!("{:?}", r) {
                return;
            }
            "sub-proof requests in another order"
        }
        _ => {
            // one sub-request more or less
            if sim.coin() {
                let s = want.subs[0].clone();
                want.subs.push(s);
            } else {
                want.subs.pop();
            }
            "another number of sub-proof requests"
        }
    };
    ev!(sim, "misuse {}", what);
    let p = proof.unwrap_or(p);
    let mut v = Verifier::new_proof_verifier().unwrap();
    for a in &want.common {
        v.add_common_attribute(a).unwrap();
    }
    for (i, s) in want.subs.iter().enumerate() {
        let h = held(s.cred);
        let spr = s.spr.build(sim);
        let pk = match &other_key {
            Some((j, k)) if *j == i => k,
            _ => &h.keys.pk,
        };
        let (mut rkp, mut reg) = if s.with_rev { (h.rkp, h.reg) } else { (None, None) };
        if let Some((j, o)) = &other_reg {
            if *j == i {
                if sim.coin() {
                    rkp = Some(parse(&o.rkp));
                }
                reg = Some(parse(&o.reg));
            }
        }
        let a = sim.no_panic("verifier.add_sub_proof_request", || v.add_sub_proof_request(&spr, &h.schema, &h.non_schema, pk, rkp.as_ref(), reg.as_ref()));
        if a.is_err() {
            return;
        }
    }
    let ok = accepted(sim, &mut v, &p, &n_v);
    ensure!(sim, !ok, "accepted:misused", "a presentation was accepted for {}: made for {:?}, verified against {:?}", what, r, want);
    sim.probe("misused presentation refused");
}

/// Presentations changed by a holder who knows the algebra: a false part whose effect on the
/// challenge is cancelled in another part.
pub fn compensated(sim: &mut Sim) {
    let r = gen_request(sim, 2, 2);
    let n = new_nonce().unwrap();
    let p = honest(sim, &r, &n);
    let orig = jv(&p);
    let c = bn(&orig["aggregated_proof"]["c_hash"]);
    let times = |k: &BigNumber| c.mul(k, None).unwrap();
    for _ in 0..4 + sim.choose(5) {
        let i = sim.pick(r.subs.len());
        let f = fixture(cred_fixture(r.subs[i].cred).fx);
        let mut v = orig.clone();
        let mut want = r.clone();
        let eq = "eq_proof";
        let hidden: Vec<String> = orig["proofs"][i]["primary_proof"][eq]["m"].as_object().unwrap().keys().cloned().collect();
        let revealed: Vec<String> = r.subs[i].spr.revealed.iter().cloned().collect();
        let nne = orig["proofs"][i]["primary_proof"]["ge_proofs"].as_array().map(|a| a.len()).unwrap_or(0);
        let w = if sim.chance(300) { BigNumber::from_bytes(&sim.bytes(32)).unwrap() } else { BigNumber::from_dec(&sim.irange(-9, 40).to_string()).unwrap() };
        let what: String = match sim.choose(9) {
            0 | 1 => {
                // a value is claimed for an attribute that is hidden, which was not asked for or was
                let hs: Vec<&String> = hidden.iter().filter(|a| f.attrs.contains(a)).collect();
                if hs.is_empty() {
                    continue;
                }
                let a = (*sim.of(&hs)).clone();
                let q = &mut v["proofs"][i]["primary_proof"][eq];
                q["m"][&a] = dec(&bn(&q["m"][&a]).sub(&times(&w)).unwrap());
                q["revealed_attrs"].as_object_mut().unwrap().insert(a.clone(), dec(&w));
                let drop = sim.chance(400);
                if drop {
                    want.subs[i].spr.preds.retain(|p| p.attr != a);
                    want.subs[i].spr.revealed.insert(a.clone());
                }
                format!("hidden {} claimed to be {}, asked for: {}", a, w.to_dec().unwrap(), drop)
            }
            2 => {
                // another value for a revealed attribute, the difference hidden as a response
                if revealed.is_empty() {
                    continue;
                }
                let a = revealed[sim.pick(revealed.len())].clone();
                let q = &mut v["proofs"][i]["primary_proof"][eq];
                let old = bn(&q["revealed_attrs"][&a]);
                let d = w.sub(&old).unwrap();
                if d == BigNumber::new().unwrap() {
                    continue;
                }
                q["revealed_attrs"][&a] = dec(&w);
                let neg = BigNumber::new().unwrap().sub(&times(&d)).unwrap();
                q["m"].as_object_mut().unwrap().insert(a.clone(), dec(&neg));
                format!("revealed {} changed to {} with a response for the difference", a, w.to_dec().unwrap())
            }
            3 => {
                // a requested attribute stays hidden
                if revealed.is_empty() {
                    continue;
                }
                let a = revealed[sim.pick(revealed.len())].clone();
                let q = &mut v["proofs"][i]["primary_proof"][eq];
                let old = bn(&q["revealed_attrs"].as_object_mut().unwrap().remove(&a).unwrap());
                q["m"].as_object_mut().unwrap().insert(a.clone(), dec(&times(&old)));
                format!("requested {} not revealed", a)
            }
            4 | 5 => {
                // another threshold
                if nne == 0 {
                    continue;
                }
                let k = sim.pick(nne);
                let kk = &orig["proofs"][i]["primary_proof"]["ge_proofs"][k]["predicate"];
                let a = kk["attr_name"].as_str().unwrap().to_string();
                let old = kk["value"].as_i64().unwrap() as i32;
                let Some(x) = want.subs[i].spr.preds.iter().position(|p| p.attr == a && p.val == old && Some(p.ty) == kk["p_type"].as_str()) else { continue };
                let new = old.saturating_add(sim.irange(-50, 50) as i32);
                if new == old {
                    continue;
                }
                want.subs[i].spr.preds[x].val = new;
                let d = BigNumber::from_dec(&(new as i64 - old as i64).to_string()).unwrap();
                let pr = &mut v["proofs"][i]["primary_proof"];
                pr["ge_proofs"][k]["predicate"]["value"] = Value::from(new);
                let mj = dec(&bn(&pr["ge_proofs"][k]["mj"]).add(&times(&d)).unwrap());
                pr["ge_proofs"][k]["mj"] = mj.clone();
                let how = sim.choose(3);
                if how > 0 {
                    for q in 0..nne {
                        if pr["ge_proofs"][q]["predicate"]["attr_name"].as_str() == Some(&a) {
                            pr["ge_proofs"][q]["mj"] = mj.clone();
                        }
                    }
                    pr[eq]["m"][&a] = mj;
                }
                if how == 2 {
                    let neg = BigNumber::new().unwrap().sub(&d).unwrap();
                    pr[eq]["revealed_attrs"].as_object_mut().unwrap().insert(a.clone(), dec(&neg));
                }
                format!("threshold of {} changed from {} to {} ({})", a, old, new, how)
            }
            6 => {
                // more values than a proof has
                let name = sim.of(&["4", "5", "extra", "00", "delta", ""]).to_string();
                let x = dec(&w);
                let pr = &mut v["proofs"][i]["primary_proof"];
                let field = if nne == 0 { "m" } else { *sim.of(&["m", "u", "r", "t", "t", "r", "u"]) };
                if field == "m" {
                    pr[eq][field].as_object_mut().unwrap().insert(name.clone(), x);
                } else {
                    let k = sim.pick(nne);
                    pr["ge_proofs"][k][field].as_object_mut().unwrap().insert(name.clone(), x);
                }
                format!("one more value {:?} in {}", name, field)
            }
            7 => {
                // a commitment of a predicate proof replaced by its negative or another representative
                if nne == 0 {
                    continue;
                }
                let k = sim.pick(nne);
                let key = sim.of(&["0", "1", "2", "3", "DELTA"]).to_string();
                let md = BigNumber::from_dec(&modulus(r.subs[i].cred)).unwrap();
                let t = &mut v["proofs"][i]["primary_proof"]["ge_proofs"][k]["t"][&key];
                let old = bn(t);
                let (nv, d) = match sim.choose(3) {
                    0 => (BigNumber::new().unwrap().sub(&old).unwrap(), "-t"),
                    1 => (old.add(&md).unwrap(), "t+n"),
                    _ => (md.sub(&old).unwrap(), "n-t"),
                };
                *t = dec(&nv);
                if sim.coin() {
                    let (a, b) = (json!(old.to_bytes().unwrap()), json!(nv.to_bytes().unwrap()));
                    for e in v["aggregated_proof"]["c_list"].as_array_mut().unwrap() {
                        if *e == a {
                            *e = b.clone();
                        }
                    }
                }
                format!("commitment {} of a predicate proof as {}", key, d)
            }
            _ => {
                // a non-revocation part, from another presentation, that nobody asked for
                if !orig["proofs"][i]["non_revoc_proof"].is_null() {
                    continue;
                }
                let donors: Vec<u64> = (0..N_CREDS).filter(|x| cred_fixture(*x).reg.is_some()).collect();
                if donors.is_empty() {
                    continue;
                }
                let id = *sim.of(&donors);
                let h = cred_fixture(id);
                let fx = fixture(h.fx);
                let vals: Vec<Val> = h.vals.iter().filter(|v| v.kind != Kind::Committed).cloned().collect();
                let spr = gen_spr(sim, &fx, &vals, &BTreeSet::new(), 0);
                let r2 = Request { subs: vec![Sub { cred: id, spr, with_rev: true }], common: vec![] };
                let p2 = jv(&honest(sim, &r2, &n));
                v["proofs"][i]["non_revoc_proof"] = p2["proofs"][0]["non_revoc_proof"].clone();
                if sim.chance(300) {
                    let add = p2["aggregated_proof"]["c_list"].clone();
                    for e in add.as_array().unwrap() {
                        v["aggregated_proof"]["c_list"].as_array_mut().unwrap().push(e.clone());
                    }
                }
                "a non-revocation part nobody asked for".to_string()
            }
        };
        let Ok(t) = serde_json::from_value::<Proof>(v) else {
            sim.probe("changed presentation not even parsed");
            continue;
        };
        if same_message(&jv(&t), &orig) {
            continue;
        }
        ev!(sim, "compensated: {}", what);
        let mut ver = verifier(sim, &want);
        let ok = accepted(sim, &mut ver, &t, &n);
        ensure!(sim, !ok, "accepted:compensated", "a presentation changed in two places was accepted: {} (made for {:?}, verified for {:?})", what, r, want);
        sim.probe("compensated presentation refused");
    }
}

/// Dishonest holders using the real prover code with wrong inputs.
pub fn untruthful(sim: &mut Sim) {
    let mut r = gen_request(sim, 2, 1);
    let n = new_nonce().unwrap();
    let i = sim.pick(r.subs.len());
    let h = cred_fixture(r.subs[i].cred);
    let f = fixture(h.fx);
    match [0, 1, 1, 2, 3, 4, 5][sim.pick(7)] {
        0 => {
            // claims another value for one attribute
            let cand: Vec<&Val> = h.vals.iter().filter(|v| v.kind != Kind::Committed).collect();
            let a = cand[sim.pick(cand.len())].attr.clone();
            let d = if sim.coin() { mutate::dec_add(&h.vals.iter().find(|v| v.attr == a).unwrap().dec, 1) } else { gen_dec(sim, true) };
            if same_value(&d, &h.vals.iter().find(|v| v.attr == a).unwrap().dec) {
                return;
            }
            ev!(sim, "claims {} = {}", a, d);
            let p = build(sim, &r, &n, &mut |j, hh| {
                if j == i {
                    for v in hh.vals.iter_mut() {
                        if v.attr == a {
                            v.dec = d.clone();
                        }
                    }
                    hh.values = values(&hh.vals);
                }
            });
            refused(sim, &r, &n, p, "accepted:false-value", &format!("claims {} = {}", a, d));
        }
        1 => {
            // a predicate the value does not satisfy, claimed with a satisfying value and repaired
            let cand: Vec<(String, i32)> = h.vals.iter().filter(|v| f.attrs.contains(&v.attr)).filter_map(|v| v.int().map(|x| (v.attr.clone(), x))).collect();
            if cand.is_empty() {
                return;
            }
            let (a, v) = cand[sim.pick(cand.len())].clone();
            let ty = *sim.of(&PTYPES);
            // at the edge, or further off
            let off = match sim.choose(4) { 0 => 0, 1 => 1, 2 => 2, _ => sim.irange(1, 100) };
            let t = (v as i64 + if ty.starts_with('G') { off } else { -off }).clamp(i32::MIN as i64, i32::MAX as i64);
            let fake = match ty {
                "GE" | "LE" => t,
                "GT" => t + 1,
                _ => t - 1,
            };
            if holds(ty, v as i64, t) || fake < i32::MIN as i64 || fake > i32::MAX as i64 {
                return;
            }
            let s = &mut r.subs[i].spr;
            s.revealed.remove(&a);
            s.preds = vec![Pred { attr: a.clone(), ty, val: t as i32 }];
            ev!(sim, "claims {} {} {} although it is {}", a, ty, t, v);
            let truthful = build(sim, &r, &n, &mut |_, _| {});
            refused(sim, &r, &n, truthful, "accepted:false-predicate", &format!("predicate {} {} {} with value {}", a, ty, t, v));
            let p = build(sim, &r, &n, &mut |j, hh| {
                if j == i {
                    for x in hh.vals.iter_mut() {
                        if x.attr == a {
                            x.dec = fake.to_string();
                        }
                    }
                    hh.values = values(&hh.vals);
                }
            });
            let Ok(Ok(p)) = p else { return };
            // repair the equality part so that it speaks of the true value again
            let mut j = jv(&p);
            let c = bn(&j["aggregated_proof"]["c_hash"]);
            let diff = BigNumber::from_dec(&(fake - v as i64).to_string()).unwrap();
            let e = &mut j["proofs"][i]["primary_proof"]["eq_proof"]["m"][&a];
            *e = dec(&bn(e).sub(&c.mul(&diff, None).unwrap()).unwrap());
            let p: Proof = parse(&j.to_string());
            sim.probe("false predicate with a repaired equality proof");
            refused(sim, &r, &n, Ok(Ok(p)), "accepted:false-predicate", &format!("predicate {} {} {} with value {} (two responses for one value)", a, ty, t, v));
        }
        2 => {
            // a credential made up without the issuer
            let k = keys(h.fx);
            let pk: Value = serde_json::from_str(&f.pk).unwrap();
            let pp = &pk["p_key"];
            let nn = bn(&pp["n"]);
            let e = sim.of(&["1", "3", "0", "-1", "65537"]).to_string();
            if e != "1" && e != "-1" {
                // only e = 1 and -1 give a root without the factorisation
            }
            let m2 = BigNumber::from_bytes(&sim.bytes(32)).unwrap();
            let v = BigNumber::rand(2724).unwrap();
            let mut rx = bn(&pp["s"]).mod_exp(&v, &nn, None).unwrap();
            rx = rx.mod_mul(&bn(&pp["rctxt"]).mod_exp(&m2, &nn, None).unwrap(), &nn, None).unwrap();
            for x in h.vals.iter().filter(|v| v.kind != Kind::Committed) {
                rx = rx.mod_mul(&bn(&pp["r"][&x.attr]).mod_exp(&BigNumber::from_dec(&x.dec).unwrap(), &nn, None).unwrap(), &nn, None).unwrap();
            }
            let q = bn(&pp["z"]).mod_div(&rx, &nn, None).unwrap();
            let a = if e == "-1" { q.inverse(&nn, None).unwrap() } else { q };
            let _ = k;
            r.subs[i].with_rev = false;
            let forged = json!({"p_credential": {"m_2": dec(&m2), "a": dec(&a), "e": e, "v": dec(&v)}, "r_credential": null});
            ev!(sim, "made-up credential e={}", e);
            let p = build(sim, &r, &n, &mut |j, hh| {
                if j == i {
                    hh.sig = parse(&forged.to_string());
                }
            });
            sim.probe("made-up credential");
            refused(sim, &r, &n, p, "accepted:forged-credential", &format!("credential made up with e = {}", e));
        }
        3 => {
            // someone else's credential in one of the sub-proofs: the common secret differs
            if r.subs.len() < 2 || !r.common.iter().any(|c| c == "master_secret") {
                return;
            }
            let other: Vec<u64> = (0..N_CREDS).filter(|c| c % 7 == r.subs[i].cred % 7 && (c / 7) % 3 != (r.subs[i].cred / 7) % 3).collect();
            if other.is_empty() {
                return;
            }
            r.subs[i].cred = *sim.of(&other);
            r.subs[i].with_rev = false;
            r.subs[i].spr.preds.clear();
            r.common = vec!["master_secret".into()];
            let p = build(sim, &r, &n, &mut |_, _| {});
            sim.probe("two holders' credentials");
            refused(sim, &r, &n, p, "accepted:different-holders", "credentials of two holders");
        }
        4 => {
            // the holder leaves the binding out although the verifier asks for it
            if r.common.is_empty() {
                return;
            }
            let mut mine = r.clone();
            if r.subs.len() < 2 {
                return;
            }
            mine.common.clear();
            let p = build(sim, &mine, &n, &mut |_, _| {});
            refused(sim, &r, &n, p, "accepted:unbound", "no common attributes");
        }
        _ => {
            // a credential of another issuer (same schema) used under this issuer's key
            let fx = h.fx;
            let k = keys(100 + fx);
            let vals: Vec<Val> = h.vals.clone();
            let (sig, _) = issue_plain(&k, "h", &vals, None).unwrap_or_else(|e| panic!("issue {}", e));
            r.subs[i].with_rev = false;
            let s = js(&sig);
            let p = build(sim, &r, &n, &mut |j, hh| {
                if j == i {
                    hh.sig = parse(&s);
                }
            });
            sim.probe("another issuer's credential");
            refused(sim, &r, &n, p, "accepted:other-issuer", "another issuer's credential");
        }
    }
}

fn refused(sim: &mut Sim, r: &Request, n: &Nonce, p: Result<UrsaCryptoResult<Proof>, simcore::sim::Panicked>, class: &str, what: &str) {
    let p = match p {
        Ok(Ok(p)) => p,
        Ok(Err(_)) => {
            sim.probe("prover itself refused");
            return;
        }
        Err(p) => sim.stop("panic:build", format!("building a presentation panicked at {}: {} ({})", p.location, p.message, what)),
    };
    let mut v = verifier(sim, r);
    let ok = accepted(sim, &mut v, &p, n);
    ensure!(sim, !ok, class, "an untruthful presentation was accepted: {} ({:?})", what, r);
    sim.probe("untruthful presentation refused");
}
