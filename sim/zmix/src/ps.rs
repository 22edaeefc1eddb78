//! PS signatures: issuance (C18) and selective disclosure (C19).
use crate::bbsx::in_this_thread;
use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use serde::{de::DeserializeOwned, Serialize};
use simcore::{ev, Net, NetCfg, Sim};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use zmix::signatures::ps::blind_signature::{BlindSignature, BlindingKey, ProofSignatureGroup, ProverCommittingSignatureGroup};
use zmix::signatures::ps::keys::{keygen, Params, Sigkey, Verkey};
use zmix::signatures::ps::pok_sig::{PoKOfSignature, PoKOfSignatureProof, ProofOtherGroup};
use zmix::signatures::ps::signature::Signature;
use zmix::signatures::ps::{OtherGroup, SignatureGroup};

pub fn json<T: Serialize + DeserializeOwned>(sim: &mut Sim, what: &'static str, o: &T) -> T {
    let b = sim.must(what, || serde_json::to_vec(o));
    sim.must(what, || serde_json::from_slice(&b))
}
pub fn scalar(sim: &mut Sim) -> FieldElement {
    match sim.choose(8) {
        0 => FieldElement::from(sim.choose(3)),
        1 => FieldElement::from(1 + sim.choose(3)).negation(),
        2 => {
            let l = sim.pick(40);
            FieldElement::from_msg_hash(&sim.bytes(l))
        }
        _ => FieldElement::random(),
    }
}
pub fn scalars(sim: &mut Sim, n: usize) -> Vec<FieldElement> {
    let mut v: Vec<FieldElement> = vec![];
    for _ in 0..n {
        if !v.is_empty() && sim.chance(150) {
            let k = sim.pick(v.len());
            let m = v[k].clone();
            v.push(m);
        } else {
            let m = scalar(sim);
            v.push(m);
        }
    }
    v
}
pub fn fb(f: &FieldElement) -> Vec<u8> {
    f.to_bytes()
}
pub fn elems(v: &FieldElementVector) -> Vec<FieldElement> {
    v.as_slice().to_vec()
}

struct Keys {
    params: Params,
    vk: Verkey,
    sk: Sigkey,
    bk: BlindingKey,
}
fn keys(sim: &mut Sim, n: usize) -> Keys {
    let l = sim.pick(12);
    let label = sim.bytes(l);
    let params = sim.no_panic("Params::new", || Params::new(&label));
    let again = Params::new(&label);
    sim.check(again.g == params.g && again.g_tilde == params.g_tilde, "parameters-differ", || "the same label gives other parameters".into());
    more_keys(sim, n, params)
}
fn more_keys(sim: &mut Sim, n: usize, params: Params) -> Keys {
    let (vk, sk) = sim.no_panic("keygen", || keygen(n, &params));
    sim.check(vk.msg_count() == n && sk.y.len() == n, "key-size", || format!("asked for {} got {}", n, vk.msg_count()));
    let bk = sim.no_panic("BlindingKey::new", || BlindingKey::new(&sk, &params));
    let r = Keys { params, vk, sk, bk };
    if sim.chance(300) {
        // stored and read back
        let r2 = Keys {
            params: json(sim, "Params json", &r.params),
            vk: json(sim, "Verkey json", &r.vk),
            sk: json(sim, "Sigkey json", &r.sk),
            bk: json(sim, "BlindingKey json", &r.bk),
        };
        let same = same_key(&r.vk, &r2.vk) && r.sk.x == r2.sk.x && r.sk.y == r2.sk.y && r.params.g == r2.params.g && r.params.g_tilde == r2.params.g_tilde && r.bk.X == r2.bk.X && r.bk.Y == r2.bk.Y;
        sim.check(same, "reload", || "keys read back differ".into());
        return r2;
    }
    r
}
fn same_key(a: &Verkey, b: &Verkey) -> bool {
    a.X_tilde == b.X_tilde && a.Y_tilde == b.Y_tilde
}
fn same_sig(a: &Signature, b: &Signature) -> bool {
    a.sigma_1 == b.sigma_1 && a.sigma_2 == b.sigma_2
}
fn valid(sim: &mut Sim, s: &Signature, m: &[FieldElement], vk: &Verkey, p: &Params) -> bool {
    matches!(sim.no_panic("ps Signature::verify", || s.verify(m, vk, p)), Ok(true))
}

/// A signature verifies for its own messages and key, and for nothing else.
fn judge(sim: &mut Sim, s: &Signature, m: &[FieldElement], k: &Keys) {
    let s = if sim.coin() { json(sim, "ps Signature json", s) } else { s.clone() };
    let ok = valid(sim, &s, m, &k.vk, &k.params);
    sim.check(ok, "honest-signature-rejected", || format!("a signature on {} messages does not verify", m.len()));
    let rounds = 1 + sim.pick(3);
    for _ in 0..rounds {
        let mut m1 = m.to_vec();
        let mut k1 = k.vk.clone();
        let mut p1 = k.params.clone();
        let mut s1 = s.clone();
        let i = sim.pick(m.len());
        let what = match sim.choose(9) {
            0 => {
                m1[i] = &m1[i] + FieldElement::from(1 + sim.choose(2));
                "an altered message"
            }
            1 => {
                m1[i] = scalar(sim);
                "another message"
            }
            2 => {
                let j = sim.pick(m.len());
                m1.swap(i, j);
                "messages in another order"
            }
            3 => {
                if sim.coin() {
                    m1.pop();
                } else {
                    let x = scalar(sim);
                    m1.push(x);
                }
                "another number of messages"
            }
            4 => {
                let o = more_keys(sim, m.len(), k.params.clone());
                match sim.choose(3) {
                    0 => k1.X_tilde = o.vk.X_tilde,
                    1 => {
                        if m[i].is_zero() {
                            continue; // the message says nothing about this part of the key
                        }
                        k1.Y_tilde[i] = o.vk.Y_tilde[i].clone()
                    }
                    _ => k1 = o.vk,
                }
                "another key"
            }
            5 => {
                let o = keys(sim, 1);
                p1.g_tilde = o.params.g_tilde;
                "other parameters"
            }
            6 => {
                let g = &k.params.g * FieldElement::from(1 + sim.choose(3));
                if sim.coin() {
                    s1.sigma_1 = &s1.sigma_1 + &g;
                } else {
                    s1.sigma_2 = &s1.sigma_2 + &g;
                }
                "an altered signature"
            }
            7 => {
                match sim.choose(3) {
                    0 => s1.sigma_1 = SignatureGroup::identity(),
                    1 => s1.sigma_2 = SignatureGroup::identity(),
                    _ => {
                        s1.sigma_1 = SignatureGroup::identity();
                        s1.sigma_2 = SignatureGroup::identity();
                    }
                }
                "an identity signature"
            }
            _ => {
                std::mem::swap(&mut s1.sigma_1, &mut s1.sigma_2);
                "parts of the signature exchanged"
            }
        };
        if m1 == m && same_key(&k1, &k.vk) && p1.g_tilde == k.params.g_tilde && same_sig(&s1, &s) {
            continue;
        }
        ev!(sim, "try {}", what);
        let ok = valid(sim, &s1, &m1, &k1, &p1);
        sim.check(!ok, "forgery", || format!("signature accepted with {}", what));
        sim.probe("wrong-claim-rejected");
    }
}

#[derive(Clone)]
struct Request {
    comm: SignatureGroup,
    chal: FieldElement,
    proof: ProofSignatureGroup,
}
fn bases(bk: &BlindingKey, p: &Params, hidden: usize) -> Vec<SignatureGroup> {
    let mut v: Vec<SignatureGroup> = bk.Y[..hidden].to_vec();
    v.push(p.g.clone());
    v
}
fn request(sim: &mut Sim, k: &Keys, msgs: &[FieldElement], hidden: usize, nonce: &[u8]) -> (Request, FieldElement) {
    let blinding = FieldElement::random();
    let bs = bases(&k.bk, &k.params, hidden);
    let mut comm = SignatureGroup::new();
    for i in 0..hidden {
        comm = &comm + &(&bs[i] * &msgs[i]);
    }
    comm = &comm + &(&k.params.g * &blinding);
    let mut committing = ProverCommittingSignatureGroup::new();
    for (i, b) in bs.iter().enumerate() {
        let given = if sim.chance(200) { Some(FieldElement::random()) } else { None };
        let at = committing.commit(b, given.as_ref());
        let ok = match committing.get_index(at) {
            Ok((g, v)) => at == i && g == b && given.as_ref().map(|x| x == v).unwrap_or(true),
            Err(_) => false,
        };
        sim.check(ok, "committing", || format!("the {}th committed base reads back differently", i));
    }
    let r = sim.no_panic("get_index", || committing.get_index(bs.len()).is_err());
    sim.check(r, "committing", || "an index beyond the committed bases was answered".into());
    let committed = sim.no_panic("finish", || committing.finish());
    let mut extra = comm.to_bytes();
    extra.extend_from_slice(nonce);
    let chal = committed.gen_challenge(extra);
    let mut secrets: Vec<FieldElement> = msgs[..hidden].to_vec();
    secrets.push(blinding.clone());
    let short = committed.clone();
    sim.must_err("gen_proof with too few secrets", || short.gen_proof(&chal, &secrets[1..]));
    let proof = sim.must("gen_proof", || committed.gen_proof(&chal, &secrets));
    (Request { comm, chal, proof }, blinding)
}
fn carry(sim: &mut Sim, p: &ProofSignatureGroup) -> ProofSignatureGroup {
    let q = if sim.coin() {
        let b = p.to_bytes();
        sim.must("ProofSignatureGroup::from_bytes", || ProofSignatureGroup::from_bytes(&b))
    } else {
        json(sim, "ProofSignatureGroup json", p)
    };
    sim.check(q.commitment == p.commitment && q.responses == p.responses, "reload", || "a request proof reads back differently".into());
    q
}
fn checks(sim: &mut Sim, r: &Request, k: &Keys, hidden: usize, nonce: &[u8]) -> bool {
    let b = bases(&k.bk, &k.params, hidden);
    matches!(sim.no_panic("verify_complete_proof", || r.proof.verify_complete_proof(&b, &r.comm, &r.chal, nonce)), Ok(true))
}

/// C18: requests, answers and signatures; several holders in any order, restarts between the steps.
pub fn issue(sim: &mut Sim) {
    in_this_thread(sim);
    let n = 1 + sim.pick(7);
    let k = keys(sim, n);
    sim.absorb(&k.vk.X_tilde.to_bytes());
    // all messages known
    let m = scalars(sim, n);
    let s = sim.must("ps Signature::new", || Signature::new(&m, &k.sk, &k.params));
    judge(sim, &s, &m, &k);
    sim.probe("signed");
    let mut m1 = m.clone();
    if sim.coin() {
        m1.pop();
    } else {
        m1.push(FieldElement::one());
    }
    sim.must_err("Signature::new with another number of messages", || Signature::new(&m1, &k.sk, &k.params));

    // blind: several holders; their messages reach the signer in any order, twice or altered
    struct Holder {
        msgs: Vec<FieldElement>,
        hidden: usize,
        nonce: Vec<u8>,
        req: Request,
        blinding: FieldElement,
        done: bool,
    }
    let mut hs: Vec<Holder> = vec![];
    for _ in 0..1 + sim.pick(3) {
        let msgs = scalars(sim, n);
        let hidden = 1 + sim.pick(n);
        let nonce = sim.bytes(16);
        let (req, blinding) = request(sim, &k, &msgs, hidden, &nonce);
        hs.push(Holder { msgs, hidden, nonce, req, blinding, done: false });
    }
    let cfg = NetCfg::swarm(sim, false);
    let mut net = Net::new(cfg);
    for h in 0..hs.len() {
        net.send(sim, h + 1, 0, "request", vec![h as u8]);
    }
    let mut sent: Vec<(usize, Signature)> = vec![];
    let mut steps = 0;
    while steps < 40 {
        steps += 1;
        if steps == 25 {
            net.heal();
        }
        let msg = match net.next(sim) {
            Some(m) => m,
            None => {
                for h in 0..hs.len() {
                    if !hs[h].done {
                        net.send(sim, h + 1, 0, "request", vec![h as u8]);
                    }
                }
                if hs.iter().all(|h| h.done) {
                    break;
                }
                continue;
            }
        };
        match msg.kind {
            "request" => {
                let h = msg.from - 1;
                let mut r = hs[h].req.clone();
                r.proof = carry(sim, &r.proof);
                let hidden = hs[h].hidden;
                let nonce = hs[h].nonce.clone();
                let ok = checks(sim, &r, &k, hidden, &nonce);
                sim.check(ok, "honest-request-refused", || format!("a request hiding {} of {} is refused", hidden, n));
                // the same request altered on the way
                for _ in 0..2 {
                    let mut r1 = r.clone();
                    let mut hid = hidden;
                    let mut no = nonce.clone();
                    let mut key: Option<Keys> = None;
                    let i = sim.pick(hidden + 1);
                    let what = match sim.choose(9) {
                        0 => {
                            r1.comm = &r1.comm + &(&k.params.g * FieldElement::from(1 + sim.choose(2)));
                            "commitment"
                        }
                        1 => {
                            r1.chal = &r1.chal + FieldElement::one();
                            "challenge"
                        }
                        2 => {
                            let mut v = elems(&r1.proof.responses);
                            v[i] = &v[i] + FieldElement::from(1 + sim.choose(2));
                            r1.proof.responses = FieldElementVector::from(v);
                            "response"
                        }
                        3 => {
                            r1.proof.commitment = &r1.proof.commitment + &k.params.g;
                            "proof commitment"
                        }
                        4 => {
                            let i = sim.pick(no.len());
                            no[i] ^= 1 << sim.choose(8);
                            "nonce"
                        }
                        5 => {
                            hid = 1 + sim.pick(n);
                            "split"
                        }
                        6 => {
                            key = Some(more_keys(sim, n, k.params.clone()));
                            "key"
                        }
                        7 => {
                            let mut v = elems(&r1.proof.responses);
                            if sim.coin() {
                                v.pop();
                            } else {
                                v.push(FieldElement::one());
                            }
                            r1.proof.responses = FieldElementVector::from(v);
                            "responses"
                        }
                        _ => {
                            let g = sim.pick(hs.len());
                            let o = hs[g].req.clone();
                            if g == h {
                                continue;
                            }
                            match sim.choose(3) {
                                0 => r1 = o,
                                1 => r1.comm = o.comm,
                                _ => r1.proof = o.proof,
                            }
                            "holder"
                        }
                    };
                    if what == "split" && hid == hidden {
                        continue;
                    }
                    sim.note_fault("net.alter");
                    let ok = checks(sim, &r1, key.as_ref().unwrap_or(&k), hid, &no);
                    sim.check(!ok, "bad-request-signed", || format!("a request with another {} is accepted", what));
                    sim.probe("bad-request-refused");
                }
                let known = hs[h].msgs[hidden..].to_vec();
                let s = if sim.coin() {
                    sim.must("BlindSignature::new", || BlindSignature::new(&r.comm, &known, &k.sk, &k.bk, &k.params))
                } else {
                    let x = &k.params.g * &k.sk.x;
                    sim.must("BlindSignature::new_from_paper", || BlindSignature::new_from_paper(&r.comm, &known, &x, &k.bk, &k.params))
                };
                sim.check(!sent.iter().any(|(_, o)| same_sig(o, &s)), "repeated-signature", || "two blind signatures are equal".into());
                sent.push((h, s));
                net.send(sim, 0, h + 1, "answer", vec![(sent.len() - 1) as u8]);
            }
            _ => {
                let mut h = msg.to - 1;
                let (for_, s) = sent[msg.body[0] as usize].clone();
                if sim.fault("byzantine.answer", 150) {
                    h = sim.pick(hs.len());
                }
                let s = if sim.coin() { json(sim, "ps blind signature json", &s) } else { s };
                let bl = hs[h].blinding.clone();
                let u = sim.no_panic("unblind", || BlindSignature::unblind(&s, &bl));
                let msgs = hs[h].msgs.clone();
                if h != for_ {
                    let ok = valid(sim, &u, &msgs, &k.vk, &k.params);
                    sim.check(!ok, "bad-answer-accepted", || "a signature made for another holder verifies".into());
                    sim.probe("bad-answer-refused");
                    continue;
                }
                if sim.coin() {
                    let ok = valid(sim, &s, &msgs, &k.vk, &k.params);
                    sim.check(!ok || bl.is_zero(), "bad-answer-accepted", || "a signature verifies before it was unblinded".into());
                }
                judge(sim, &u, &msgs, &k);
                sim.probe("issued");
                sim.state_str(&format!("ps n{} hidden{}", n, hs[h].hidden));
                hs[h].done = true;
            }
        }
    }
    sim.check(hs.iter().all(|h| h.done), "no-progress", || "issuing did not finish although the network healed".into());

    // requests that do not fit the key
    let full = scalars(sim, n);
    sim.must_err("BlindSignature::new with nothing hidden", || BlindSignature::new(&hs[0].req.comm, &full, &k.sk, &k.bk, &k.params));
    let mut more = full.clone();
    more.push(FieldElement::one());
    sim.must_err("BlindSignature::new with too many messages", || BlindSignature::new(&hs[0].req.comm, &more, &k.sk, &k.bk, &k.params));
    let x = &k.params.g * &k.sk.x;
    sim.must_err("BlindSignature::new_from_paper with nothing hidden", || BlindSignature::new_from_paper(&hs[0].req.comm, &full, &x, &k.bk, &k.params));
    // bytes of a request proof
    let b = hs[0].req.proof.to_bytes();
    for _ in 0..3 {
        let c = reshape(sim, &b, SIG_LEN);
        let r = sim.no_panic("ProofSignatureGroup::from_bytes", || ProofSignatureGroup::from_bytes(&c));
        sim.check(r.is_err(), "malformed-accepted", || format!("a request proof of {} bytes instead of {} was read", c.len(), b.len()));
        sim.probe("malformed-refused");
    }
}
const SIG_LEN: usize = zmix::signatures::ps::SIGNATURE_GROUP_SIZE;

/// Bytes of a proof of committed values whose length or declared count is wrong.
pub fn reshape(sim: &mut Sim, b: &[u8], group: usize) -> Vec<u8> {
    let mut c = b.to_vec();
    match sim.choose(5) {
        0 => {
            let l = sim.pick(c.len());
            c.truncate(l);
        }
        1 => {
            let l = 1 + sim.pick(60);
            let t = sim.bytes(l);
            c.extend(t);
        }
        2 => {
            c[group + 3] = c[group + 3].wrapping_add(1 + sim.choose(5) as u8);
        }
        3 => c[group] = 0xff,
        _ => {
            c[group] = 0x05;
            c[group + 1] = 0x55;
            c[group + 2] = 0x55;
            c[group + 3] = 0x56;
        }
    }
    c
}

struct Shown {
    proof: PoKOfSignatureProof,
    values: BTreeMap<usize, FieldElement>,
}
fn set(v: &BTreeMap<usize, FieldElement>) -> HashSet<usize> {
    v.keys().copied().collect()
}
fn map(v: &BTreeMap<usize, FieldElement>) -> HashMap<usize, FieldElement> {
    v.iter().map(|(k, v)| (*k, v.clone())).collect()
}
fn challenge(mut b: Vec<u8>, nonce: &[u8]) -> FieldElement {
    b.extend_from_slice(nonce);
    FieldElement::from_msg_hash(&b)
}
fn accepts(sim: &mut Sim, k: &Verkey, p: &Params, s: &Shown, nonce: &[u8]) -> bool {
    let b = sim.no_panic("get_bytes_for_challenge", || s.proof.get_bytes_for_challenge(set(&s.values), k, p));
    let c = challenge(b, nonce);
    matches!(sim.no_panic("ps proof verify", || s.proof.verify(k, p, map(&s.values), &c)), Ok(true))
}
fn travel(sim: &mut Sim, p: &PoKOfSignatureProof) -> PoKOfSignatureProof {
    let q = match sim.choose(3) {
        0 => p.clone(),
        1 => json(sim, "PoKOfSignatureProof json", p),
        _ => {
            let mut q = json(sim, "PoKOfSignatureProof json", p);
            let b = p.proof_vc.to_bytes();
            q.proof_vc = sim.must("ProofOtherGroup::from_bytes", || ProofOtherGroup::from_bytes(&b));
            q
        }
    };
    sim.check(q.J == p.J && same_sig(&q.sig, &p.sig) && q.proof_vc.commitment == p.proof_vc.commitment && q.proof_vc.responses == p.proof_vc.responses, "reload", || "a proof reads back differently".into());
    q
}

/// C19: one or several PS credentials shown together.
pub fn show(sim: &mut Sim) {
    in_this_thread(sim);
    let c = *sim.of(&[1usize, 1, 1, 2, 3]);
    let nonce = sim.bytes(16);
    let link = scalar(sim);
    let link_blinding = FieldElement::random();
    struct Cred {
        k: Keys,
        msgs: Vec<FieldElement>,
        shown: BTreeSet<usize>,
    }
    let mut creds = vec![];
    let mut poks = vec![];
    for _ in 0..c {
        let n = 1 + sim.pick(7);
        let k = keys(sim, n);
        let mut msgs = scalars(sim, n);
        let pm = *sim.of(&[0usize, 200, 500, 800, 1000]);
        let mut shown: BTreeSet<usize> = sim.subset(n, pm).into_iter().collect();
        if c > 1 {
            shown.remove(&0);
            msgs[0] = link.clone();
        }
        let s = sim.must("ps Signature::new", || Signature::new(&msgs, &k.sk, &k.params));
        // blindings of the hidden messages, the common one first
        let hidden = n - shown.len();
        let mut bl: Vec<FieldElement> = (0..hidden).map(|_| FieldElement::random()).collect();
        if c > 1 {
            bl[0] = link_blinding.clone();
        }
        let given = if c > 1 || sim.coin() { Some(&bl[..]) } else { None };
        let ind: HashSet<usize> = shown.iter().copied().collect();
        let pok = sim.must("PoKOfSignature::init", || PoKOfSignature::init(&s, &k.vk, &k.params, &msgs, given, ind.clone()));
        let pok = if sim.chance(300) { json(sim, "PoKOfSignature json", &pok) } else { pok };
        // a wrong number of blindings, messages or an index too high
        let mut b2 = bl.clone();
        b2.push(FieldElement::one());
        sim.must_err("init with another number of blindings", || PoKOfSignature::init(&s, &k.vk, &k.params, &msgs, Some(&b2), ind.clone()));
        let mut i2 = ind.clone();
        i2.insert(n + sim.pick(3));
        sim.must_err("init with an index too high", || PoKOfSignature::init(&s, &k.vk, &k.params, &msgs, None, i2));
        let mut m2 = msgs.clone();
        m2.push(FieldElement::one());
        sim.must_err("init with another number of messages", || PoKOfSignature::init(&s, &k.vk, &k.params, &m2, None, ind.clone()));
        poks.push(pok);
        creds.push(Cred { k, msgs, shown });
    }
    let mut all = vec![];
    for p in &poks {
        all.extend(p.to_bytes());
    }
    let chal = challenge(all, &nonce);
    let mut shows: Vec<Shown> = vec![];
    for (i, p) in poks.into_iter().enumerate() {
        let proof = sim.must("gen_proof", || p.gen_proof(&chal));
        let proof = travel(sim, &proof);
        sim.absorb(&proof.J.to_bytes());
        let values = creds[i].shown.iter().map(|j| (*j, creds[i].msgs[*j].clone())).collect();
        shows.push(Shown { proof, values });
    }
    ev!(sim, "{} credentials, reveal {:?}", c, creds.iter().map(|c| c.shown.len()).collect::<Vec<_>>());
    // the verifier
    let mut bytes = vec![];
    for (i, s) in shows.iter().enumerate() {
        bytes.extend(s.proof.get_bytes_for_challenge(set(&s.values), &creds[i].k.vk, &creds[i].k.params));
    }
    let chal_v = challenge(bytes, &nonce);
    sim.check(chal_v == chal, "challenge-differs", || "the verifier derives another challenge than the prover".into());
    for (i, s) in shows.iter().enumerate() {
        let r = sim.no_panic("ps proof verify", || s.proof.verify(&creds[i].k.vk, &creds[i].k.params, map(&s.values), &chal_v));
        sim.check(matches!(r, Ok(true)), "honest-proof-refused", || format!("{} messages, {:?} revealed: {:?}", creds[i].msgs.len(), creds[i].shown, r.is_ok()));
        let hidden = creds[i].msgs.len() - s.values.len();
        for j in 0..hidden {
            let r = sim.must("get_resp_for_message", || s.proof.get_resp_for_message(j));
            sim.check(r == s.proof.proof_vc.responses[1 + j], "response-differs", || format!("response of hidden message {}", j));
        }
        sim.must_err("get_resp_for_message beyond the end", || s.proof.get_resp_for_message(hidden));
        if c > 1 {
            let a = s.proof.get_resp_for_message(0).unwrap();
            let b = shows[0].proof.get_resp_for_message(0).unwrap();
            sim.check(a == b, "link-differs", || "the common message has different responses".into());
        }
    }
    sim.probe("accepted");
    // everything else, with the first credential alone
    let cred = &creds[0];
    let k = &cred.k;
    let n = cred.msgs.len();
    let sig = sim.must("ps Signature::new", || Signature::new(&cred.msgs, &k.sk, &k.params));
    let make = |sim: &mut Sim, msgs: &[FieldElement], s: &Signature, nonce: &[u8]| {
        let pok = sim.must("PoKOfSignature::init", || PoKOfSignature::init(s, &k.vk, &k.params, msgs, None, cred.shown.iter().copied().collect()));
        let ch = challenge(pok.to_bytes(), nonce);
        let proof = sim.must("gen_proof", || pok.gen_proof(&ch));
        Shown { proof, values: cred.shown.iter().map(|j| (*j, msgs[*j].clone())).collect() }
    };
    let honest = make(sim, &cred.msgs, &sig, &nonce);
    let ok = accepts(sim, &k.vk, &k.params, &honest, &nonce);
    sim.check(ok, "honest-proof-refused", || format!("{} messages, {:?} revealed", n, cred.shown));
    for _ in 0..5 {
        let mut s = Shown { proof: honest.proof.clone(), values: honest.values.clone() };
        let mut no = nonce.clone();
        let mut vk = k.vk.clone();
        let mut pr = k.params.clone();
        let g = &k.params.g * FieldElement::from(1 + sim.choose(3));
        let gt = &k.params.g_tilde * FieldElement::from(1 + sim.choose(3));
        let what = match sim.choose(13) {
            0 => {
                let keys: Vec<usize> = s.values.keys().copied().collect();
                if keys.is_empty() {
                    continue;
                }
                let i = *sim.of(&keys);
                let x = if sim.coin() { &s.values[&i] + FieldElement::one() } else { scalar(sim) };
                if x == s.values[&i] {
                    continue;
                }
                s.values.insert(i, x);
                "another revealed message"
            }
            1 => {
                let keys: Vec<usize> = s.values.keys().copied().collect();
                if keys.is_empty() {
                    continue;
                }
                let i = *sim.of(&keys);
                s.values.remove(&i);
                "fewer revealed messages"
            }
            2 => {
                let i = sim.pick(n + 3);
                if s.values.contains_key(&i) {
                    continue;
                }
                let x = if i < n { cred.msgs[i].clone() } else { scalar(sim) };
                s.values.insert(i, x);
                "more revealed messages"
            }
            3 => {
                let i = sim.pick(no.len());
                no[i] ^= 1 << sim.choose(8);
                "another nonce"
            }
            4 => {
                let o = more_keys(sim, n, k.params.clone());
                match sim.choose(2) {
                    0 => vk = o.vk,
                    _ => vk.X_tilde = o.vk.X_tilde,
                }
                "another key"
            }
            5 => {
                let o = keys(sim, 1);
                if o.params.g_tilde == k.params.g_tilde {
                    continue; // the same label was drawn
                }
                pr.g_tilde = o.params.g_tilde;
                "other parameters"
            }
            6 => {
                match sim.choose(4) {
                    0 => s.proof.sig.sigma_1 = &s.proof.sig.sigma_1 + &g,
                    1 => s.proof.sig.sigma_2 = &s.proof.sig.sigma_2 + &g,
                    2 => {
                        let r = FieldElement::from(2 + sim.choose(3));
                        s.proof.sig.sigma_1 = &s.proof.sig.sigma_1 * &r;
                        s.proof.sig.sigma_2 = &s.proof.sig.sigma_2 * &r;
                    }
                    _ => {
                        s.proof.sig.sigma_1 = SignatureGroup::identity();
                        s.proof.sig.sigma_2 = SignatureGroup::identity();
                    }
                }
                "an altered signature"
            }
            7 => {
                s.proof.J = if sim.chance(200) { OtherGroup::identity() } else { &s.proof.J + &gt };
                "an altered J"
            }
            8 => {
                s.proof.proof_vc.commitment = &s.proof.proof_vc.commitment + &gt;
                "an altered commitment"
            }
            9 => {
                let mut v = elems(&s.proof.proof_vc.responses);
                let i = sim.pick(v.len());
                v[i] = &v[i] + FieldElement::from(1 + sim.choose(2));
                s.proof.proof_vc.responses = FieldElementVector::from(v);
                "an altered response"
            }
            10 => {
                let mut v = elems(&s.proof.proof_vc.responses);
                match sim.choose(3) {
                    0 => {
                        v.pop();
                    }
                    1 => v.push(FieldElement::one()),
                    _ => v.clear(),
                }
                s.proof.proof_vc.responses = FieldElementVector::from(v);
                let j = sim.pick(n + 1);
                sim.no_panic("get_resp_for_message", || s.proof.get_resp_for_message(j).is_ok());
                "another number of responses"
            }
            11 => {
                // parts of another proof by the same holder
                let o = make(sim, &cred.msgs, &sig, &nonce);
                match sim.choose(4) {
                    0 => s.proof.sig = o.proof.sig,
                    1 => s.proof.J = o.proof.J,
                    2 => s.proof.proof_vc = o.proof.proof_vc,
                    _ => {
                        s.proof.proof_vc.responses = o.proof.proof_vc.responses;
                    }
                }
                "parts of another proof"
            }
            _ => {
                // a proof about messages that were not signed
                let mut m = cred.msgs.clone();
                let i = sim.pick(n);
                m[i] = &m[i] + FieldElement::from(1 + sim.choose(2));
                s = make(sim, &m, &sig, &nonce);
                "messages that were not signed"
            }
        };
        sim.note_fault("byzantine.prover");
        ev!(sim, "try {}", what);
        let ok = accepts(sim, &vk, &pr, &s, &no);
        sim.check(!ok, "false-proof-accepted", || format!("a proof with {} is accepted", what));
        sim.probe("bad-proof-refused");
    }
    let b = honest.proof.proof_vc.to_bytes();
    for _ in 0..2 {
        let c = reshape(sim, &b, zmix::signatures::ps::SIGNATURE_GROUP_SIZE.min(b.len() - 4 - 48 * honest.proof.proof_vc.responses.len()));
        let r = sim.no_panic("ProofOtherGroup::from_bytes", || ProofOtherGroup::from_bytes(&c));
        sim.check(r.is_err(), "malformed-accepted", || format!("a proof of {} bytes instead of {} was read", c.len(), b.len()));
        sim.probe("malformed-refused");
    }
}
