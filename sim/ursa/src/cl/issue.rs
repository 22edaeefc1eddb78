//! C01: issuance protocol between issuers and holders over a faulty network.
use super::world::*;
use serde_json::{json, Value};
use simcore::sim::hash_str;
use simcore::{ensure, ev, mutate, Net, NetCfg, Sim};
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::verifier::Verifier;
use ursa::bn::BigNumber;
use ursa::cl::*;
use ursa::pair::{GroupOrderElement, PointG1, PointG2};

struct IssuerNode {
    k: Keys,
    reg: Option<(Arc<RegFixture>, RevocationRegistry, SimTails)>,
    nonces: BTreeMap<u64, String>,
    issued: BTreeMap<u64, Value>,
    idx_of: BTreeMap<u64, u32>,
    next_idx: u32,
    issued_idx: HashSet<u32>,
}
impl IssuerNode {
    fn restart(&mut self, sim: &mut Sim) {
        sim.note_fault("restart.issuer");
        self.k = keys(self.k.f.id);
        if let Some((_, r, _)) = self.reg.as_mut() {
            *r = reload(r);
        }
    }
}

struct Session {
    sid: u64,
    holder: usize,
    issuer: usize,
    revocable: bool,
    prover_id: String,
    vals: Vec<Val>,
    // durable holder state
    blinded: Option<Value>,
    bf: Option<String>,
    n2: Option<String>,
    // memory
    live_bf: Option<CredentialSecretsBlindingFactors>,
    done: Option<(CredentialSignature, Option<Value>)>,
    abandoned: bool,
}

fn msg(v: &Value) -> Vec<u8> {
    v.to_string().into_bytes()
}

pub fn protocol(sim: &mut Sim) {
    let n_iss = 1 + sim.pick(2);
    let n_hold = 1 + sim.pick(3);
    let mut issuers: Vec<IssuerNode> = vec![];
    for i in 0..n_iss {
        let fx = sim.choose(7);
        let k = keys(fx);
        let reg = if k.f.revoc {
            let max = *sim.of(&[4u32, 5, 3, 1]);
            let by_default = sim.coin();
            let rf = reg_fixture(fx, max, by_default, i as u64);
            let r = parse(&rf.reg);
            let t = SimTails::new(&rf);
            Some((rf, r, t))
        } else {
            None
        };
        issuers.push(IssuerNode {
            k, reg,
            nonces: BTreeMap::new(), issued: BTreeMap::new(), idx_of: BTreeMap::new(), next_idx: 1, issued_idx: HashSet::new(),
        });
    }
    let mut sessions: Vec<Session> = vec![];
    let n_sess = 1 + sim.pick(3);
    for s in 0..n_sess {
        let holder = n_iss + sim.pick(n_hold);
        let issuer = sim.pick(n_iss);
        let ms = MS[sim.pick(3)];
        let vals = gen_values(sim, &issuers[issuer].k.f, ms);
        let revocable = issuers[issuer].k.f.revoc && sim.chance(700);
        let prover_id = match sim.choose(4) { 0 => String::new(), 1 => "CnEDk9HrMnmiHXEV1WFgbVCRteYnPqsJwrTdcZaNhFVW".into(), 2 => "ж".repeat(20), _ => format!("did:sov:{}", holder) };
        sessions.push(Session { sid: s as u64, holder, issuer, revocable, prover_id, vals, blinded: None, bf: None, n2: None, live_bf: None, done: None, abandoned: false });
    }
    let cfg = NetCfg::swarm(sim, false);
    let restart_p = *sim.of(&[0u64, 40, 120]);
    let lose_p = *sim.of(&[0u64, 0, 80]);
    let tail_p = *sim.of(&[0u64, 0, 250]);
    let mut net = Net::new(cfg);
    if sim.chance(150) {
        net.partition(sim, n_iss, 0);
    }
    let mut rounds = 0;
    loop {
        // every unfinished session (re)sends the request its durable state calls for
        let pending: Vec<usize> = (0..sessions.len()).filter(|i| sessions[*i].done.is_none() && !sessions[*i].abandoned).collect();
        if pending.is_empty() && net.q.is_empty() {
            break;
        }
        rounds += 1;
        ensure!(sim, rounds < 40, "issuance-stuck", "issuance did not finish after 40 rounds of retries");
        if rounds > 4 {
            net.heal();
        }
        for i in pending {
            let s = &sessions[i];
            let b = match &s.blinded {
                None => json!({"t": "request", "sid": s.sid}),
                Some(b) => b.clone(),
            };
            let (h, is) = (s.holder, s.issuer);
            net.send(sim, h, is, "holder->issuer", msg(&b));
        }
        while let Some(m) = net.next(sim) {
            let v: Value = serde_json::from_slice(&m.body).unwrap();
            let sid = v["sid"].as_u64().unwrap();
            let faults_on = !net.healthy;
            if m.to < n_iss {
                if faults_on && sim.chance(restart_p) {
                    issuers[m.to].restart(sim);
                }
                let reply = issuer_step(sim, &mut issuers[m.to], &sessions[sid as usize], &v, if faults_on { tail_p } else { 0 });
                if let Some(r) = reply {
                    net.send(sim, m.to, m.from, "issuer->holder", msg(&r));
                }
            } else {
                let si = sid as usize;
                if faults_on && sim.chance(restart_p) {
                    sim.note_fault("restart.holder");
                    sessions[si].live_bf = None;
                }
                if faults_on && sessions[si].blinded.is_some() && sessions[si].done.is_none() && sim.fault("lose-unsaved-state", lose_p) {
                    // crashed before the blinding was saved: it must be made anew
                    sessions[si].blinded = None;
                    sessions[si].bf = None;
                    sessions[si].live_bf = None;
                }
                let new = holder_step(sim, &issuers[m.from].k.f.clone(), issuers[m.from].reg.as_ref(), &mut sessions[si], &v, rounds);
                match new {
                    HolderDo::Send(r) => net.send(sim, m.to, m.from, "holder->issuer", msg(&r)),
                    HolderDo::Nothing => {}
                    HolderDo::Restart => {
                        // start over under a new session id
                        let o = &sessions[si];
                        if !o.abandoned {
                            let ns = Session { sid: sessions.len() as u64, holder: o.holder, issuer: o.issuer, revocable: o.revocable, prover_id: o.prover_id.clone(), vals: o.vals.clone(), blinded: None, bf: None, n2: None, live_bf: None, done: None, abandoned: false };
                            sessions[si].abandoned = true;
                            if sessions.len() < 8 {
                                sessions.push(ns);
                            }
                        }
                    }
                }
            }
            let st: Vec<String> = sessions.iter().map(|s| format!("{}{}{}", s.blinded.is_some() as u8, s.done.is_some() as u8, s.abandoned as u8)).collect();
            let st = format!("{:?} {}", st, issuers.iter().map(|i| format!("{}/{} ", i.issued.len(), i.nonces.len())).collect::<String>());
            sim.state(hash_str(&st));
        }
    }
    // every finished credential works
    let done: Vec<usize> = (0..sessions.len()).filter(|i| sessions[*i].done.is_some()).collect();
    ensure!(sim, done.len() + sessions.iter().filter(|s| s.abandoned).count() == sessions.len(), "issuance-incomplete", "not every session finished");
    for i in done {
        if sim.chance(500) || sessions.len() == 1 {
            sim.probe("credential used after issuance");
            use_credential(sim, &issuers, &sessions[i]);
        }
    }
}

fn issuer_step(sim: &mut Sim, is: &mut IssuerNode, s: &Session, v: &Value, tail_p: u64) -> Option<Value> {
    let sid = v["sid"].as_u64().unwrap();
    match v["t"].as_str().unwrap() {
        "request" => {
            let nonce = is.nonces.entry(sid).or_insert_with(|| js(&new_nonce().unwrap())).clone();
            ev!(sim, "issuer offers sid {}", sid);
            Some(json!({"t": "offer", "sid": sid, "nonce": nonce, "pk": is.k.f.pk, "kcp": is.k.f.proof}))
        }
        _ => {
            if let Some(r) = is.issued.get(&sid) {
                sim.probe("re-requested credential served again");
                return Some(r.clone());
            }
            let Some(nonce) = is.nonces.get(&sid) else { return None };
            let n1: Nonce = parse(nonce);
            let bcs: BlindedCredentialSecrets = parse(v["bcs"].as_str().unwrap());
            let bcp: BlindedCredentialSecretsCorrectnessProof = parse(v["bcp"].as_str().unwrap());
            let n2: Nonce = parse(v["n2"].as_str().unwrap());
            let vals = known_values(&s.vals);
            let r = if s.revocable {
                let (rf, rr, tails) = is.reg.as_mut().unwrap();
                let idx = match is.idx_of.get(&sid) {
                    Some(i) => *i,
                    None => {
                        if is.next_idx > rf.max {
                            // registry full: an honest refusal
                            return Some(json!({"t": "full", "sid": sid}));
                        }
                        let i = is.next_idx;
                        is.next_idx += 1;
                        is.idx_of.insert(sid, i);
                        i
                    }
                };
                let rks: RevocationKeyPrivate = parse(&rf.rks);
                let fault = sim.chance(tail_p);
                if fault {
                    sim.note_fault("tails.error");
                    let f = if sim.coin() { TailFault::After } else { TailFault::Before };
                    tails.arm(0, f);
                }
                let before = tails.fired.get();
                let k = &is.k;
                let out = sim.no_panic("sign_credential_with_revoc", || {
                    Issuer::sign_credential_with_revoc(
                        &s.prover_id, &bcs, &bcp, &n1, &n2, &vals, &k.pk, &k.sk, idx, rf.max, rf.by_default, rr, &rks, tails,
                    )
                });
                tails.heal();
                match out {
                    Ok((sig, sp, d)) => {
                        ensure!(sim, sig.extract_index() == Some(idx), "wrong-index", "credential carries index {:?}, expected {}", sig.extract_index(), idx);
                        ensure!(sim, d.is_some() != rf.by_default, "delta-presence", "delta present = {} with issuance by default = {}", d.is_some(), rf.by_default);
                        if !rf.by_default {
                            is.issued_idx.insert(idx);
                        }
                        let delta = RevocationRegistryDelta::from_parts(None, rr, &is.issued_idx, &Default::default());
                        json!({"t": "cred", "sid": sid, "sig": js(&sig), "sp": js(&sp), "idx": idx, "delta": js(&delta), "reg": js(rr)})
                    }
                    Err(e) => {
                        ensure!(sim, tails.fired.get() > before, "issuer-refused-honest", "issuer refused an honest request: {}", e);
                        ev!(sim, "issuing failed: tails storage");
                        return None;
                    }
                }
            } else {
                let k = &is.k;
                let (sig, sp) = sim.must("sign_credential", || {
                    Issuer::sign_credential(&s.prover_id, &bcs, &bcp, &n1, &n2, &vals, &k.pk, &k.sk)
                });
                json!({"t": "cred", "sid": sid, "sig": js(&sig), "sp": js(&sp)})
            };
            sim.absorb(r.to_string().as_bytes());
            ev!(sim, "issuer signed sid {}", sid);
            is.issued.insert(sid, r.clone());
            Some(r)
        }
    }
}

enum HolderDo {
    Send(Value),
    Restart,
    Nothing,
}

fn holder_step(sim: &mut Sim, f: &Fixture, reg: Option<&(Arc<RegFixture>, RevocationRegistry, SimTails)>, s: &mut Session, v: &Value, _round: u32) -> HolderDo {
    if s.done.is_some() || s.abandoned {
        return HolderDo::Nothing;
    }
    match v["t"].as_str().unwrap() {
        "full" => {
            s.abandoned = true;
            HolderDo::Nothing
        }
        "offer" => {
            if let Some(b) = &s.blinded {
                return HolderDo::Send(b.clone());
            }
            let pk: CredentialPublicKey = parse(v["pk"].as_str().unwrap());
            let kcp: CredentialKeyCorrectnessProof = parse(v["kcp"].as_str().unwrap());
            let n1: Nonce = parse(v["nonce"].as_str().unwrap());
            let hv = values(&s.vals);
            let (bcs, bf, bcp) = sim.must("blind_credential_secrets", || Prover::blind_credential_secrets(&pk, &kcp, &hv, &n1));
            let n2 = sim.must("new_nonce", new_nonce);
            let b = json!({"t": "blinded", "sid": s.sid, "bcs": js(&bcs), "bcp": js(&bcp), "n2": js(&n2)});
            sim.absorb(b.to_string().as_bytes());
            s.blinded = Some(b.clone());
            s.bf = Some(js(&bf));
            s.n2 = Some(js(&n2));
            s.live_bf = Some(bf);
            HolderDo::Send(b)
        }
        "cred" => {
            let (Some(bf), Some(n2)) = (&s.bf, &s.n2) else {
                // state lost: the answer cannot be used any more
                return HolderDo::Restart;
            };
            let live;
            let bf: &CredentialSecretsBlindingFactors = match &s.live_bf {
                Some(b) => b,
                None => {
                    live = parse(bf);
                    &live
                }
            };
            let n2: Nonce = parse(n2);
            let pk: CredentialPublicKey = parse(&f.pk);
            let mut sig: CredentialSignature = parse(v["sig"].as_str().unwrap());
            let sp: SignatureCorrectnessProof = parse(v["sp"].as_str().unwrap());
            let hv = values(&s.vals);
            let mut aux = None;
            let (mut rkp, mut rr, mut wit) = (None, None, None);
            if s.revocable {
                let (rf, _, tails) = reg.unwrap();
                let d: RevocationRegistryDelta = parse(v["delta"].as_str().unwrap());
                let idx = v["idx"].as_u64().unwrap() as u32;
                let w = sim.must("Witness::new", || Witness::new(idx, rf.max, rf.by_default, &d, tails));
                aux = Some(json!({"reg": v["reg"], "wit": js(&w)}));
                rkp = Some(parse::<RevocationKeyPublic>(&rf.rkp));
                rr = Some(parse::<RevocationRegistry>(v["reg"].as_str().unwrap()));
                wit = Some(w);
            }
            let before = js(&sig);
            let r = sim.no_panic("process_credential_signature", || {
                Prover::process_credential_signature(&mut sig, &hv, &sp, bf, &pk, &n2, rkp.as_ref(), rr.as_ref(), wit.as_ref())
            });
            match r {
                Ok(()) => {
                    sim.probe("credential accepted");
                    sim.absorb(js(&sig).as_bytes());
                    s.done = Some((sig, aux));
                    HolderDo::Nothing
                }
                Err(e) => {
                    // legitimate only when the issuer answered a blinding this holder has lost
                    let _ = before;
                    ensure!(sim, sim.faults.contains_key("lose-unsaved-state"), "holder-refused-honest", "holder refused an honest credential: {}", e);
                    sim.probe("answer to a lost blinding refused");
                    HolderDo::Restart
                }
            }
        }
        _ => HolderDo::Nothing,
    }
}

fn use_credential(sim: &mut Sim, issuers: &[IssuerNode], s: &Session) {
    let is = &issuers[s.issuer];
    let (sig, aux) = s.done.as_ref().unwrap();
    let f = &is.k.f;
    let (schema, non) = present_schemas(f);
    let vals: Vec<Val> = s.vals.iter().filter(|v| v.kind != Kind::Committed).cloned().collect();
    let spr = gen_spr(sim, f, &vals, &Default::default(), 1);
    let spr_b = spr.build(sim);
    let mut b = Prover::new_proof_builder().unwrap();
    b.add_common_attribute("master_secret").unwrap();
    let (mut rr, mut w, mut rkp) = (None, None, None);
    if let Some(a) = aux {
        rr = Some(parse::<RevocationRegistry>(a["reg"].as_str().unwrap()));
        w = Some(parse::<Witness>(a["wit"].as_str().unwrap()));
        rkp = Some(parse::<RevocationKeyPublic>(&is.reg.as_ref().unwrap().0.rkp));
    }
    let cv = cred_values(&s.vals);
    sim.must("add_sub_proof_request", || b.add_sub_proof_request(&spr_b, &schema, &non, sig, &cv, &is.k.pk, rr.as_ref(), w.as_ref()));
    let n = new_nonce().unwrap();
    let p = sim.must("finalize", || b.finalize(&n));
    let mut ver = Verifier::new_proof_verifier().unwrap();
    ver.add_sub_proof_request(&spr_b, &schema, &non, &is.k.pk, rkp.as_ref(), rr.as_ref()).unwrap();
    let ok = sim.must("verify", || ver.verify(&p, &n));
    ensure!(sim, ok, "issued-credential-unusable", "a credential accepted by its holder does not give a valid presentation ({:?})", spr);
}

// ---- altered and mixed-up messages -----------------------------------------------------------

struct Run1 {
    fx: u64,
    vals: Vec<Val>,
    n1: String,
    bcs: String,
    bcp: String,
    bf: String,
    n2: String,
}
fn start(sim: &mut Sim, fx: u64, vals: Vec<Val>) -> Run1 {
    let k = keys(fx);
    let hv = values(&vals);
    let n1 = new_nonce().unwrap();
    let (bcs, bf, bcp) = sim.must("blind_credential_secrets", || Prover::blind_credential_secrets(&k.pk, &k.proof, &hv, &n1));
    Run1 { fx, vals, n1: js(&n1), bcs: js(&bcs), bcp: js(&bcp), bf: js(&bf), n2: js(&new_nonce().unwrap()) }
}

/// Alter exactly one part of a JSON message so that the parsed object really differs.
/// Returns None when the alteration has no effect or the message no longer parses.
pub fn tamper<T: serde::Serialize + serde::de::DeserializeOwned>(sim: &mut Sim, orig: &str, modulus: Option<&str>, kinds: u64) -> Option<(T, String)> {
    let mut v: Value = serde_json::from_str(orig).unwrap();
    let ls = mutate::leaves(&v);
    let path = mutate::pick_leaf(sim, &v)?;
    let desc;
    match sim.choose(kinds) {
        0 | 1 | 2 => {
            let d = mutate::mutate_scalar(sim, mutate::get_mut(&mut v, &path)?)?;
            desc = format!("{} {}", path.join("."), d);
        }
        3 => {
            if !mutate::remove(&mut v, &path) {
                return None;
            }
            desc = format!("{} removed", path.join("."));
        }
        4 => {
            // swap two leaves of the same shape
            let other = ls[sim.pick(ls.len())].clone();
            let (a, b) = (mutate::get(&v, &path)?.clone(), mutate::get(&v, &other)?.clone());
            if a == b {
                return None;
            }
            *mutate::get_mut(&mut v, &path)? = b;
            *mutate::get_mut(&mut v, &other)? = a;
            desc = format!("{} <-> {}", path.join("."), other.join("."));
        }
        _ => {
            // arithmetic aliases modulo n
            let n = ursa::bn::BigNumber::from_dec(modulus?).unwrap();
            let x = mutate::get_mut(&mut v, &path)?;
            let s = x.as_str()?.to_string();
            let b = if s.bytes().all(|c| c.is_ascii_digit()) && !s.is_empty() { ursa::bn::BigNumber::from_dec(&s).ok()? } else { return None };
            let (nb, d) = match sim.choose(3) {
                0 => (b.add(&n).unwrap(), "+n"),
                1 => (n.sub(&b).unwrap(), "n-x"),
                _ => (b.sub(&n).unwrap(), "-n"),
            };
            *x = Value::from(nb.to_dec().unwrap());
            desc = format!("{} {}", path.join("."), d);
        }
    }
    let t: T = serde_json::from_value(v).ok()?;
    // compare what the library understood, not the text
    let o: T = serde_json::from_str(orig).unwrap();
    if same_message(&jv(&t), &jv(&o)) {
        return None;
    }
    Some((t, desc))
}

pub fn tampered(sim: &mut Sim) {
    let fx = sim.choose(7);
    let k = keys(fx);
    let n_mod = serde_json::from_str::<Value>(&k.f.pk).unwrap()["p_key"]["n"].as_str().unwrap().to_string();
    let vals = gen_values(sim, &k.f, MS[sim.variant as usize % 2]);
    let target = sim.choose(6);
    let class;
    match target {
        0 => {
            // issuer key or its correctness proof altered on the way to the holder
            let hv = values(&vals);
            let n1 = new_nonce().unwrap();
            if sim.coin() {
                let Some((pk, d)) = tamper::<CredentialPublicKey>(sim, &k.f.pk, Some(&n_mod), 6) else { return };
                class = d.clone();
                let r = sim.no_panic("blind_credential_secrets", || Prover::blind_credential_secrets(&pk, &k.proof, &hv, &n1));
                // n, rctxt and the revocation key are not covered by the proof: detected when the credential is checked
                let Ok((bcs, bf, bcp)) = r else {
                    sim.probe("altered key refused");
                    return;
                };
                let n2 = new_nonce().unwrap();
                finish_with(sim, &k, &vals, &bcs, &bcp, &bf, &n1, &n2, &pk, &format!("altered key {}", class));
                return;
            }
            let Some((kcp, d)) = tamper::<CredentialKeyCorrectnessProof>(sim, &k.f.proof, Some(&n_mod), 6) else { return };
            class = d;
            // xr_cap entries may be listed in any order with their own names; only values count
            sim.probe("altered key proof");
            let kcp_s = js(&kcp);
            let r = sim.no_panic("blind_credential_secrets", || Prover::blind_credential_secrets(&k.pk, &kcp, &hv, &n1));
            ensure!(sim, r.is_err(), "accepted:altered-key-proof", "holder accepted an altered key correctness proof: {} : {}", class, kcp_s);
        }
        1 | 2 => {
            // blinded secrets or their proof altered, or mixed up with another session's
            let a = start(sim, fx, vals.clone());
            let mut bcs: BlindedCredentialSecrets = parse(&a.bcs);
            let mut bcp: BlindedCredentialSecretsCorrectnessProof = parse(&a.bcp);
            let mut n1: Nonce = parse(&a.n1);
            let mut kk = keys(fx);
            let what;
            match sim.choose(5) {
                0 | 1 => {
                    let Some((t, d)) = tamper::<BlindedCredentialSecrets>(sim, &a.bcs, Some(&n_mod), 6) else { return };
                    bcs = t;
                    what = format!("bcs {}", d);
                }
                2 => {
                    let Some((t, d)) = tamper::<BlindedCredentialSecretsCorrectnessProof>(sim, &a.bcp, Some(&n_mod), 5) else { return };
                    bcp = t;
                    what = format!("bcp {}", d);
                }
                3 => {
                    n1 = new_nonce().unwrap();
                    what = "other nonce".into();
                }
                _ => match sim.choose(3) {
                    0 => {
                        let b = start(sim, fx, vals.clone());
                        bcs = parse(&b.bcs);
                        what = "secrets of another request".to_string();
                    }
                    1 => {
                        let b = start(sim, fx, vals.clone());
                        bcp = parse(&b.bcp);
                        what = "proof of another request".to_string();
                    }
                    _ => {
                        // same shape, other key
                        let other = match fx { 0 => 6, 6 => 0, 1 => return, _ => return };
                        kk = keys(other);
                        what = "other issuer key".to_string();
                    }
                },
            }
            let n2: Nonce = parse(&a.n2);
            let iv = known_values(&vals);
            ev!(sim, "tamper {}", what);
            let before_extra = what.starts_with("bcp") && extra_only(&a.bcp, &js(&bcp));
            let r = sim.no_panic("sign_credential", || Issuer::sign_credential("p", &bcs, &bcp, &n1, &n2, &iv, &kk.pk, &kk.sk));
            match r {
                Err(_) => sim.probe("altered blinded secrets refused"),
                Ok((mut sig, sp)) => {
                    if before_extra {
                        return;
                    }
                    // not refused by the issuer: only fields the issuer cannot check may lead here,
                    // and the holder's own check must fail or the credential be perfectly good
                    let only_ur = what.starts_with("bcs ur");
                    let alias = what.contains("negated") || what.contains("n-x") || what.contains("+n") || what.contains("-n");
                    ensure!(sim, only_ur || alias, "accepted:altered-blinded-secrets", "issuer accepted altered blinded secrets: {}", what);
                    let bf: CredentialSecretsBlindingFactors = parse(&a.bf);
                    let hv = values(&vals);
                    let r = sim.no_panic("process_credential_signature", || Prover::process_credential_signature(&mut sig, &hv, &sp, &bf, &k.pk, &n2, None, None, None));
                    if r.is_ok() {
                        usable(sim, &k, &vals, &sig, &what);
                    } else {
                        sim.probe("altered request caught by the holder");
                    }
                }
            }
        }
        _ => {
            // signature, its proof, nonce, values, or blinding factors altered or mixed up
            let a = start(sim, fx, vals.clone());
            let bcs: BlindedCredentialSecrets = parse(&a.bcs);
            let bcp: BlindedCredentialSecretsCorrectnessProof = parse(&a.bcp);
            let n1: Nonce = parse(&a.n1);
            let n2: Nonce = parse(&a.n2);
            let iv = known_values(&vals);
            let (sig0, sp0) = sim.must("sign_credential", || Issuer::sign_credential("p", &bcs, &bcp, &n1, &n2, &iv, &k.pk, &k.sk));
            let (sigs, sps) = (js(&sig0), js(&sp0));
            let mut sig: CredentialSignature = parse(&sigs);
            let mut sp: SignatureCorrectnessProof = parse(&sps);
            let mut hv = values(&vals);
            let mut bf: CredentialSecretsBlindingFactors = parse(&a.bf);
            let mut n = parse::<Nonce>(&a.n2);
            let mut pk: CredentialPublicKey = parse(&k.f.pk);
            let what = match sim.choose(7) {
                0 | 1 => {
                    let Some((t, d)) = tamper::<CredentialSignature>(sim, &sigs, Some(&n_mod), 6) else { return };
                    sig = t;
                    format!("signature {}", d)
                }
                2 => {
                    let Some((t, d)) = tamper::<SignatureCorrectnessProof>(sim, &sps, Some(&n_mod), 6) else { return };
                    sp = t;
                    format!("sigproof {}", d)
                }
                3 => {
                    n = new_nonce().unwrap();
                    "other nonce".into()
                }
                4 => {
                    let mut v2 = vals.clone();
                    let i = sim.pick(v2.len());
                    if v2[i].kind == Kind::Committed {
                        return;
                    }
                    v2[i].dec = mutate::dec_add(&v2[i].dec, 1);
                    if v2[i].dec == vals[i].dec || v2[i].dec.parse::<i64>().map(|x| x.to_string()) == vals[i].dec.parse::<i64>().map(|x| x.to_string()) {
                        return;
                    }
                    hv = values(&v2);
                    format!("other value of {}", v2[i].attr)
                }
                5 => {
                    let b = start(sim, fx, vals.clone());
                    bf = parse(&b.bf);
                    "another request's blinding".into()
                }
                _ => {
                    let other = match fx { 0 => 6, 6 => 0, _ => return };
                    pk = keys(other).pk;
                    "another issuer's key".into()
                }
            };
            ev!(sim, "tamper {}", what);
            let r = sim.no_panic("process_credential_signature", || Prover::process_credential_signature(&mut sig, &hv, &sp, &bf, &pk, &n, None, None, None));
            if r.is_ok() {
                // r_credential is checked only together with a registry
                ensure!(sim, what.contains("r_credential") || (what.starts_with("signature") && what.contains("p_credential.e")), "accepted:altered-credential", "holder accepted an altered credential: {}", what);
                if what.contains("p_credential") {
                    usable(sim, &k, &vals, &sig, &what);
                }
            } else {
                sim.probe("altered credential refused");
            }
        }
    }
}

fn extra_only(orig: &str, new: &str) -> bool {
    // true when every map entry of the original is still there unchanged
    fn sub(a: &Value, b: &Value) -> bool {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => x.iter().all(|(k, v)| y.get(k).map(|w| sub(v, w)).unwrap_or(false)),
            _ => a == b,
        }
    }
    sub(&serde_json::from_str(orig).unwrap(), &serde_json::from_str(new).unwrap())
}

fn usable(sim: &mut Sim, k: &Keys, vals: &[Val], sig: &CredentialSignature, what: &str) {
    let (schema, non) = present_schemas(&k.f);
    let cv = cred_values(vals);
    let spr = Spr::default().build(sim);
    let mut b = Prover::new_proof_builder().unwrap();
    b.add_common_attribute("master_secret").unwrap();
    sim.must("add_sub_proof_request", || b.add_sub_proof_request(&spr, &schema, &non, sig, &cv, &k.pk, None, None));
    let n = new_nonce().unwrap();
    let p = sim.must("finalize", || b.finalize(&n));
    let mut ver = Verifier::new_proof_verifier().unwrap();
    ver.add_sub_proof_request(&spr, &schema, &non, &k.pk, None, None).unwrap();
    let ok = matches!(sim.no_panic("verify", || ver.verify(&p, &n)), Ok(true));
    ensure!(sim, ok, "accepted:unusable-credential", "an altered exchange gave a credential the holder accepts but cannot use: {}", what);
}

#[allow(clippy::too_many_arguments)]
fn finish_with(sim: &mut Sim, k: &Keys, vals: &[Val], bcs: &BlindedCredentialSecrets, bcp: &BlindedCredentialSecretsCorrectnessProof, bf: &CredentialSecretsBlindingFactors, n1: &Nonce, n2: &Nonce, pk: &CredentialPublicKey, what: &str) {
    let iv = known_values(vals);
    let r = sim.no_panic("sign_credential", || Issuer::sign_credential("p", bcs, bcp, n1, n2, &iv, &k.pk, &k.sk));
    let Ok((mut sig, sp)) = r else {
        sim.probe("altered key: issuer refused");
        return;
    };
    let hv = values(vals);
    let r = sim.no_panic("process_credential_signature", || Prover::process_credential_signature(&mut sig, &hv, &sp, bf, pk, n2, None, None, None));
    match r {
        Err(_) => sim.probe("altered key: holder refused"),
        Ok(()) => usable(sim, k, vals, &sig, what),
    }
}

// ---- dishonest parties who know the algebra, and revocable credentials -------------------------

fn big(v: &Value) -> BigNumber {
    BigNumber::from_dec(v.as_str().unwrap()).unwrap()
}
fn dec(b: &BigNumber) -> Value {
    Value::from(b.to_dec().unwrap())
}
fn h(parts: &[&BigNumber]) -> BigNumber {
    let mut v = vec![];
    for p in parts {
        v.extend_from_slice(&p.to_bytes().unwrap());
    }
    BigNumber::from_bytes(&BigNumber::hash(&v).unwrap()).unwrap()
}

/// A revocable credential, or what came with it, altered or mixed up before the holder checks it
/// against the registry.
pub fn tampered_revocable(sim: &mut Sim) {
    let with: Vec<u64> = (0..7).filter(|i| fixture(*i).revoc).collect();
    // a few runs use a registry with more places than fit in a byte
    let large = sim.chance(60);
    let fx = if large { with[0] } else { *sim.of(&with) };
    let k = keys(fx);
    let max = if large { 260 } else { *sim.of(&[2u32, 3, 5]) };
    let by_default = sim.coin();
    let rf = reg_fixture(fx, max, by_default, if large { 0 } else { sim.choose(2) });
    let rks: RevocationKeyPrivate = parse(&rf.rks);
    let tails = SimTails::new(&rf);
    let mut reg: RevocationRegistry = parse(&rf.reg);
    let vals = gen_values(sim, &k.f, MS[0]);
    let iv = known_values(&vals);
    let hv = values(&vals);
    // two sessions of the same holder at the same issuer
    let idx = [1 + sim.choose(max as u64) as u32, 0];
    let idx = [idx[0], 1 + (idx[0] + sim.choose(max as u64 - 1) as u32) % max];
    let mut runs = vec![];
    for i in 0..2 {
        let a = start(sim, fx, vals.clone());
        let (sig, sp, _) = sim.must("sign_credential_with_revoc", || {
            Issuer::sign_credential_with_revoc("p", &parse(&a.bcs), &parse(&a.bcp), &parse(&a.n1), &parse(&a.n2), &iv, &k.pk, &k.sk, idx[i], max, by_default, &mut reg, &rks, &tails)
        });
        runs.push((a, jv(&sig), js(&sp)));
    }
    let issued: HashSet<u32> = if by_default { HashSet::new() } else { idx.iter().cloned().collect() };
    let delta = RevocationRegistryDelta::from_parts(None, &reg, &issued, &HashSet::new());
    let witness = |sim: &mut Sim, i: u32| sim.must("Witness::new", || Witness::new(i, max, by_default, &delta, &tails));
    let mut sig = runs[0].1.clone();
    let mut w = jv(&witness(sim, idx[0]));
    let w2 = jv(&witness(sim, idx[1]));
    let mut rr = jv(&reg);
    let mut rkp: Value = serde_json::from_str(&rf.rkp).unwrap();
    let mut bf = runs[0].0.bf.clone();
    let other = runs[1].1["r_credential"].clone();
    let foreign = reg_fixture(fx, max.min(5), by_default, 2);
    let what: String = match sim.choose(10) {
        0 | 1 => {
            let f = *sim.of(&["sigma", "c", "vr_prime_prime", "g_i", "m2"]);
            if f == "m2" || other[f] == sig["r_credential"][f] {
                let x = &mut sig["r_credential"][f];
                if f == "m2" || f == "c" || f == "vr_prime_prime" {
                    let e = GroupOrderElement::from_string(x.as_str().unwrap()).unwrap();
                    *x = jv(&e.add_mod(&GroupOrderElement::from_bytes(&[1 + sim.choose(5) as u8]).unwrap()).unwrap());
                }
                format!("{} moved", f)
            } else {
                sig["r_credential"][f] = other[f].clone();
                format!("{} of the other credential", f)
            }
        }
        2 => {
            let f = *sim.of(&["sigma_i", "u_i", "g_i"]);
            sig["r_credential"]["witness_signature"][f] = other["witness_signature"][f].clone();
            format!("witness_signature.{} of the other credential", f)
        }
        3 => {
            // the same, but another multiple of the genuine element
            let f = *sim.of(&["sigma", "g_i", "witness_signature.sigma_i", "witness_signature.u_i", "witness_signature.g_i"]);
            let r = &mut sig["r_credential"];
            let x = if let Some(y) = f.strip_prefix("witness_signature.") { &mut r["witness_signature"][y] } else { &mut r[f] };
            let s = x.as_str().unwrap().to_string();
            let how = sim.choose(3);
            *x = if f.ends_with("sigma_i") || f.ends_with("u_i") {
                let p = PointG2::from_string(&s).unwrap();
                jv(&match how { 0 => p.neg().unwrap(), 1 => p.add(&p).unwrap(), _ => PointG2::new_inf().unwrap() })
            } else {
                let p = PointG1::from_string(&s).unwrap();
                jv(&match how { 0 => p.neg().unwrap(), 1 => p.add(&p).unwrap(), _ => PointG1::new_inf().unwrap() })
            };
            format!("{} changed ({})", f, how)
        }
        4 => {
            sig["r_credential"] = other.clone();
            w = w2;
            "non-revocation part of the other credential".into()
        }
        5 => {
            // consistent for the registry, but not with the signed index
            sig["r_credential"]["witness_signature"]["u_i"] = other["witness_signature"]["u_i"].clone();
            sig["r_credential"]["witness_signature"]["g_i"] = other["witness_signature"]["g_i"].clone();
            w = w2;
            "witness and its elements of the other index".into()
        }
        6 => {
            if sim.coin() {
                w = w2;
                "witness of the other index".into()
            } else {
                let p: PointG2 = serde_json::from_value(w["omega"].clone()).unwrap();
                w["omega"] = jv(&p.add(&p).unwrap());
                "witness doubled".into()
            }
        }
        7 => {
            if sim.coin() {
                rr = serde_json::from_str(&foreign.reg).unwrap();
                "another registry".into()
            } else {
                let r = sim.must("revoke_credential", || Issuer::revoke_credential(&mut reg, max, idx[0], &tails).map(|_| ()));
                let _ = r;
                rr = jv(&reg);
                "registry in which the credential is revoked".into()
            }
        }
        8 => {
            if sim.coin() {
                rkp = serde_json::from_str(&foreign.rkp).unwrap();
                "another registry's key".into()
            } else {
                bf = runs[1].0.bf.clone();
                "blinding of the other request".into()
            }
        }
        _ => {
            // the index tells the holder which witness to compute
            sig["r_credential"]["i"] = Value::from(idx[1]);
            let t: CredentialSignature = serde_json::from_value(sig.clone()).unwrap();
            let i = t.extract_index().unwrap();
            w = jv(&witness(sim, i));
            "other index".into()
        }
    };
    let control = sim.chance(if large { 600 } else { 80 });
    if control {
        sig = runs[0].1.clone();
        w = jv(&Witness::new(idx[0], max, by_default, &delta, &tails).unwrap());
        rr = jv(&delta_registry(&rf, &delta));
        rkp = serde_json::from_str(&rf.rkp).unwrap();
        bf = runs[0].0.bf.clone();
    }
    ev!(sim, "tamper {} control {}", what, control);
    let Ok(mut sig): Result<CredentialSignature, _> = serde_json::from_value(sig) else { return };
    let (w, rr, rkp): (Witness, RevocationRegistry, RevocationKeyPublic) = (serde_json::from_value(w).unwrap(), serde_json::from_value(rr).unwrap(), serde_json::from_value(rkp).unwrap());
    if !control && jv(&sig) == runs[0].1 && what.contains("moved") {
        return;
    }
    let (sp, bf, n2): (SignatureCorrectnessProof, CredentialSecretsBlindingFactors, Nonce) = (parse(&runs[0].2), parse(&bf), parse(&runs[0].0.n2));
    let r = sim.no_panic("process_credential_signature", || Prover::process_credential_signature(&mut sig, &hv, &sp, &bf, &k.pk, &n2, Some(&rkp), Some(&rr), Some(&w)));
    if control {
        ensure!(sim, r.is_ok(), "holder-refused-honest", "holder refused an honest revocable credential: {:?}", r.err().map(|e| e.to_string()));
        sim.probe("revocable credential accepted");
        if large {
            sim.probe("large registry");
        }
    } else {
        ensure!(sim, r.is_err(), "accepted:altered-revocable", "holder accepted an altered revocable credential: {}", what);
        sim.probe("altered revocable credential refused");
    }
}

fn delta_registry(_rf: &RegFixture, d: &RevocationRegistryDelta) -> RevocationRegistry {
    serde_json::from_value(json!({"accum": jv(d)["accum"]})).unwrap()
}

/// A dishonest issuer: knows its secret key and makes proofs that fit what it altered.
pub fn rogue_issuer(sim: &mut Sim) {
    let fx = sim.choose(7);
    let k = keys(fx);
    let pkj: Value = serde_json::from_str(&k.f.pk).unwrap();
    let skj: Value = serde_json::from_str(&k.f.sk).unwrap();
    let n = big(&pkj["p_key"]["n"]);
    let order = big(&skj["p_key"]["p"]).mul(&big(&skj["p_key"]["q"]), None).unwrap();
    let vals = gen_values(sim, &k.f, MS[1]);
    let hv = values(&vals);
    if sim.chance(400) {
        // a key whose correctness proof leaves something out, or says more than the key
        let qr = || BigNumber::random_qr(&n).unwrap();
        let small = || order.rand_range().unwrap();
        let s = qr();
        let (xz, xzt) = (small(), small());
        let mut pk = pkj.clone();
        pk["p_key"]["s"] = dec(&s);
        let z = s.mod_exp(&xz, &n, None).unwrap();
        pk["p_key"]["z"] = dec(&z);
        let mut names: Vec<String> = pkj["p_key"]["r"].as_object().unwrap().keys().cloned().collect();
        let how = sim.choose(4);
        let mut left_out = String::new();
        if how == 1 {
            left_out = sim.of(&["member", "m", "Master_secret", "master_secret ", "extra", "age2", ""]).to_string();
            pk["p_key"]["r"][&left_out] = dec(&qr());
        } else if how == 2 {
            let i = sim.pick(names.len());
            left_out = names.remove(i);
            if left_out == "master_secret" {
                return; // keys made by the first version leave it out
            }
            pk["p_key"]["r"][&left_out] = dec(&qr());
        } else if how == 3 {
            names.push(sim.of(&["member", "zzz", "master_secret2"]).to_string());
        }
        sim.shuffle(&mut names);
        let zt = s.mod_exp(&xzt, &n, None).unwrap();
        let (mut rs, mut rts, mut xs) = (vec![], vec![], vec![]);
        for a in &names {
            let (x, xt) = (small(), small());
            let r = s.mod_exp(&x, &n, None).unwrap();
            if how != 3 || pkj["p_key"]["r"].get(a).is_some() {
                pk["p_key"]["r"][a] = dec(&r);
            }
            rs.push(r);
            rts.push(s.mod_exp(&xt, &n, None).unwrap());
            xs.push((a.clone(), x, xt));
        }
        let mut all: Vec<&BigNumber> = vec![&z];
        all.extend(rs.iter());
        all.push(&zt);
        all.extend(rts.iter());
        let c = h(&all);
        let resp = |x: &BigNumber, t: &BigNumber| dec(&c.mul(x, None).unwrap().add(t).unwrap());
        let caps: Vec<Value> = xs.iter().map(|(a, x, t)| json!([a, resp(x, t)])).collect();
        let proof = json!({"c": dec(&c), "xz_cap": resp(&xz, &xzt), "xr_cap": caps});
        let (pk, proof): (CredentialPublicKey, CredentialKeyCorrectnessProof) = (serde_json::from_value(pk).unwrap(), serde_json::from_value(proof).unwrap());
        let n1 = new_nonce().unwrap();
        ev!(sim, "key: {} {}", how, left_out);
        let r = sim.no_panic("blind_credential_secrets", || Prover::blind_credential_secrets(&pk, &proof, &hv, &n1));
        if how == 0 {
            ensure!(sim, r.is_ok(), "holder-refused-honest", "holder refused a proper key: {:?}", r.err().map(|e| e.to_string()));
            sim.probe("proper key accepted");
        } else {
            ensure!(sim, r.is_err(), "accepted:key-not-covered", "holder accepted a key whose correctness proof does not cover exactly its parts ({} {:?})", how, left_out);
            sim.probe("key with an incomplete proof refused");
        }
        return;
    }
    let a = start(sim, fx, vals.clone());
    let n2: Nonce = parse(&a.n2);
    let how = sim.choose(5);
    let mut signed = vals.clone();
    let known: Vec<usize> = (0..vals.len()).filter(|i| vals[*i].kind == Kind::Known).collect();
    if how == 1 {
        if known.is_empty() {
            return;
        }
        let i = known[sim.pick(known.len())];
        signed[i].dec = BigNumber::from_dec(&vals[i].dec).unwrap().add(&BigNumber::from_u32(1 + sim.pick(9)).unwrap()).unwrap().to_dec().unwrap();
    }
    let iv = known_values(&signed);
    let (sig, _) = sim.must("sign_credential", || Issuer::sign_credential("p", &parse(&a.bcs), &parse(&a.bcp), &parse(&a.n1), &n2, &iv, &k.pk, &k.sk));
    let mut sj = jv(&sig);
    let pc = "p_credential";
    let (ca, mut ce, mut cv) = (big(&sj[pc]["a"]), big(&sj[pc]["e"]), big(&sj[pc]["v"]));
    // what the holder will compute the proof over
    let q = ca.mod_exp(&ce, &n, None).unwrap();
    let mut holder_q = q.try_clone().unwrap();
    if how == 1 {
        for (s, v) in signed.iter().zip(&vals) {
            if s.dec != v.dec {
                let d = BigNumber::from_dec(&s.dec).unwrap().sub(&BigNumber::from_dec(&v.dec).unwrap()).unwrap();
                let f = big(&pkj["p_key"]["r"][&s.attr]).mod_exp(&d, &n, None).unwrap();
                holder_q = holder_q.mod_mul(&f, &n, None).unwrap();
            }
        }
    }
    let mut sa = ca;
    if how == 2 {
        // an exponent that is no prime
        let mut f = BigNumber::from_u32(*sim.of(&[3usize, 5, 9, 1 << 20, 65537])).unwrap();
        if sim.coin() {
            f = f.add(&BigNumber::from_u32(2).unwrap()).unwrap();
        }
        ce = ce.mul(&f, None).unwrap();
        sa = q.mod_exp(&ce.inverse(&order, None).unwrap(), &n, None).unwrap();
    }
    if how == 3 {
        // v moved
        cv = cv.add(&BigNumber::from_u32(1).unwrap()).unwrap();
        let si = big(&pkj["p_key"]["s"]).inverse(&n, None).unwrap();
        holder_q = holder_q.mod_mul(&si, &n, None).unwrap();
    }
    if how == 4 {
        let m2 = big(&sj[pc]["m_2"]);
        sj[pc]["m_2"] = dec(&m2.add(&BigNumber::from_u32(1).unwrap()).unwrap());
        let ri = big(&pkj["p_key"]["rctxt"]).inverse(&n, None).unwrap();
        holder_q = holder_q.mod_mul(&ri, &n, None).unwrap();
    }
    sj[pc]["a"] = dec(&sa);
    sj[pc]["e"] = dec(&ce);
    sj[pc]["v"] = dec(&cv);
    let r = order.rand_range().unwrap();
    let cap = q.mod_exp(&r, &n, None).unwrap();
    let nonce = BigNumber::from_dec(jv(&n2).as_str().unwrap()).unwrap();
    let c = h(&[&holder_q, &sa, &cap, &nonce]);
    let se = r.mod_sub(&c.mod_mul(&ce.inverse(&order, None).unwrap(), &order, None).unwrap(), &order, None).unwrap();
    let sp: SignatureCorrectnessProof = serde_json::from_value(json!({"c": dec(&c), "se": dec(&se)})).unwrap();
    let mut sig: CredentialSignature = serde_json::from_value(sj).unwrap();
    let bf: CredentialSecretsBlindingFactors = parse(&a.bf);
    ev!(sim, "rogue signature {}", how);
    let r = sim.no_panic("process_credential_signature", || Prover::process_credential_signature(&mut sig, &hv, &sp, &bf, &k.pk, &n2, None, None, None));
    if how == 0 {
        ensure!(sim, r.is_ok(), "holder-refused-honest", "holder refused an honest credential: {:?}", r.err().map(|e| e.to_string()));
        sim.probe("credential with a rebuilt proof accepted");
    } else {
        ensure!(sim, r.is_err(), "accepted:rogue-credential", "holder accepted a credential a dishonest issuer altered: {}", ["", "other value signed", "exponent not prime", "v moved", "m_2 moved"][how as usize]);
        sim.probe("dishonest issuer's credential refused");
    }
}

/// A dishonest holder: makes its request and the proof of it itself.
pub fn rogue_holder(sim: &mut Sim) {
    let fx = sim.choose(7);
    let k = keys(fx);
    let pkj: Value = serde_json::from_str(&k.f.pk).unwrap();
    let n = big(&pkj["p_key"]["n"]);
    let s = big(&pkj["p_key"]["s"]);
    let vals = gen_values(sim, &k.f, MS[1]);
    let iv = known_values(&vals);
    let known: Vec<&Val> = vals.iter().filter(|v| v.kind == Kind::Known).collect();
    let mut list: Vec<(String, BigNumber)> = vals.iter().filter(|v| v.kind == Kind::Hidden).map(|v| (v.attr.clone(), BigNumber::from_dec(&v.dec).unwrap())).collect();
    let rnd = |b: usize| BigNumber::rand(b).unwrap();
    let x = match sim.choose(3) { 0 => BigNumber::from_u32(1 + sim.pick(50)).unwrap(), 1 => BigNumber::from_dec(&sim.irange(-50, -1).to_string()).unwrap(), _ => rnd(200) };
    let how = sim.choose(6);
    let mut attr = String::new();
    if how == 1 || how == 4 {
        if known.is_empty() {
            return;
        }
        attr = known[sim.pick(known.len())].attr.clone();
    }
    if how == 1 {
        list.push((attr.clone(), x.try_clone().unwrap()));
    }
    let v = rnd(1500);
    let mut u = s.mod_exp(&v, &n, None).unwrap();
    let vt = rnd(2000);
    let mut ut = s.mod_exp(&vt, &n, None).unwrap();
    let mut tildes = vec![];
    for (a, m) in &list {
        let t = rnd(590);
        let r = big(&pkj["p_key"]["r"][a]);
        u = u.mod_mul(&r.mod_exp(m, &n, None).unwrap(), &n, None).unwrap();
        ut = ut.mod_mul(&r.mod_exp(&t, &n, None).unwrap(), &n, None).unwrap();
        tildes.push(t);
    }
    let extra = match how {
        2 => Some(BigNumber::random_qr(&n).unwrap()),
        4 => Some(big(&pkj["p_key"]["r"][&attr])),
        5 => Some(big(&pkj["p_key"]["z"])),
        _ => None,
    };
    if let Some(r) = &extra {
        u = u.mod_mul(&r.mod_exp(&x, &n, None).unwrap(), &n, None).unwrap();
    }
    let n1 = new_nonce().unwrap();
    let nonce = BigNumber::from_dec(jv(&n1).as_str().unwrap()).unwrap();
    let c = h(&[&u, &ut, &nonce]);
    let resp = |x: &BigNumber, t: &BigNumber| dec(&c.mul(x, None).unwrap().add(t).unwrap());
    let mut names: Vec<String> = list.iter().map(|l| l.0.clone()).collect();
    let mut caps: serde_json::Map<String, Value> = list.iter().zip(&tildes).map(|((a, m), t)| (a.clone(), resp(m, t))).collect();
    if how == 2 && sim.coin() {
        names.clear();
    }
    if how == 3 {
        names.push("no such attribute".into());
        caps.insert("no such attribute".into(), Value::from("0"));
    }
    if how == 4 {
        caps.insert(attr.clone(), resp(&x, &rnd(100)));
    }
    let bcs = json!({"u": dec(&u), "ur": null, "hidden_attributes": names, "committed_attributes": {}});
    let bcp = json!({"c": dec(&c), "v_dash_cap": resp(&v, &vt), "m_caps": caps, "r_caps": {}});
    let (bcs, bcp): (BlindedCredentialSecrets, BlindedCredentialSecretsCorrectnessProof) = (serde_json::from_value(bcs).unwrap(), serde_json::from_value(bcp).unwrap());
    let n2 = new_nonce().unwrap();
    ev!(sim, "rogue request {} {}", how, attr);
    let revoc = k.f.revoc && sim.coin();
    let r = if revoc {
        let rf = reg_fixture(fx, 3, sim.coin(), 0);
        let mut reg: RevocationRegistry = parse(&rf.reg);
        let b = json!({"u": dec(&u), "ur": jv(&PointG1::new().unwrap()), "hidden_attributes": jv(&bcs)["hidden_attributes"], "committed_attributes": {}});
        let bcs: BlindedCredentialSecrets = serde_json::from_value(b).unwrap();
        sim.no_panic("sign_credential_with_revoc", || {
            Issuer::sign_credential_with_revoc("p", &bcs, &bcp, &n1, &n2, &iv, &k.pk, &k.sk, 1, 3, rf.by_default, &mut reg, &parse(&rf.rks), &SimTails::new(&rf)).map(|_| ())
        })
    } else {
        sim.no_panic("sign_credential", || Issuer::sign_credential("p", &bcs, &bcp, &n1, &n2, &iv, &k.pk, &k.sk).map(|_| ()))
    };
    if how == 0 {
        ensure!(sim, r.is_ok(), "issuer-refused-honest", "issuer refused an honest request: {:?}", r.err().map(|e| e.to_string()));
        sim.probe("own request accepted");
    } else {
        ensure!(sim, r.is_err(), "accepted:rogue-request", "issuer signed a dishonest request ({})", ["", "a known attribute also blinded", "u with an unproven factor", "attribute the key lacks", "factor of a known attribute not named", "factor Z"][how as usize]);
        sim.probe("dishonest request refused");
    }
}
