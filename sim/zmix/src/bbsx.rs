//! BBS+ signatures: issuance (C18) and selective disclosure (C19).
use bbs::prelude::*;
use simcore::{ev, mutate, Net, NetCfg, Sim};
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;

/// Runs `f` with a one-thread pool whose only thread is this one, so that the code's parallel
/// iterators run here and draw from this run's randomness.
pub fn in_this_thread(sim: &mut Sim) {
    let r = rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build();
    match r {
        Ok(p) => std::mem::forget(p),
        Err(e) => sim.stop("harness", format!("no thread pool: {}", e)),
    }
}

pub fn frame(fields: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for f in fields {
        v.extend_from_slice(&(f.len() as u32).to_be_bytes());
        v.extend_from_slice(f);
    }
    v
}
pub fn unframe(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let l = u32::from_be_bytes([*b.get(i)?, *b.get(i + 1)?, *b.get(i + 2)?, *b.get(i + 3)?]) as usize;
        i += 4;
        if b.len() - i < l {
            return None;
        }
        out.push(b[i..i + l].to_vec());
        i += l;
    }
    Some(out)
}

pub struct Keys {
    pub pk: PublicKey,
    pub sk: SecretKey,
}
pub fn keys(sim: &mut Sim, n: usize) -> Keys {
    if sim.chance(300) {
        let (pk, sk) = sim.must("Issuer::new_keys", || Issuer::new_keys(n));
        return Keys { pk, sk };
    }
    let opt = if sim.coin() {
        let l = sim.pick(40);
        Some(KeyGenOption::UseSeed(sim.bytes(l)))
    } else {
        None
    };
    let (dpk, sk) = sim.must("Issuer::new_short_keys", || Issuer::new_short_keys(opt));
    if sim.chance(200) {
        let sk1 = sk.clone();
        let (d2, s2) = sim.must("keys from secret key", || Issuer::new_short_keys(Some(KeyGenOption::FromSecretKey(sk1))));
        sim.check(d2 == dpk && s2 == sk, "key-from-secret", || "a key pair made from its secret key differs".into());
    }
    let pk = sim.must("to_public_key", || dpk.to_public_key(n));
    sim.check(pk.message_count() == n, "key-size", || format!("asked for {} generators, got {}", n, pk.message_count()));
    Keys { pk, sk }
}

fn small(k: u64) -> SignatureMessage {
    let mut b = [0u8; 32];
    b[24..].copy_from_slice(&k.to_be_bytes());
    SignatureMessage::try_from(&b[..]).unwrap()
}
/// order of the scalar field minus `k`
fn minus(k: u8) -> SignatureMessage {
    let mut b = hex::decode("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001").unwrap();
    b[31] = b[31].wrapping_sub(k);
    if k > 1 {
        b[30] = b[30].wrapping_sub(1);
    }
    SignatureMessage::try_from(&b[..]).unwrap_or_else(|_| small(7))
}
pub fn message(sim: &mut Sim) -> SignatureMessage {
    match sim.choose(8) {
        0 => {
            let k = sim.choose(3);
            small(k)
        }
        1 => {
            let k = 1 + sim.choose(3) as u8;
            minus(k)
        }
        2 => SignatureMessage::random(),
        _ => {
            let l = sim.pick(50);
            SignatureMessage::hash(sim.bytes(l))
        }
    }
}
pub fn messages(sim: &mut Sim, n: usize) -> Vec<SignatureMessage> {
    let mut v: Vec<SignatureMessage> = vec![];
    for _ in 0..n {
        if !v.is_empty() && sim.chance(150) {
            let k = sim.pick(v.len());
            let m = v[k];
            v.push(m);
        } else {
            let m = message(sim);
            v.push(m);
        }
    }
    v
}
fn count(sim: &mut Sim) -> usize {
    *sim.of(&[1usize, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17])
}

/// Store and load any of the variable-length objects in one of its forms.
macro_rules! travel {
    ($sim:expr, $t:ty, $o:expr) => {{
        let o: &$t = $o;
        match $sim.choose(4) {
            0 => {
                let b = o.to_bytes_uncompressed_form();
                $sim.must(concat!(stringify!($t), " from own uncompressed bytes"), || <$t>::from_bytes_uncompressed_form(&b))
            }
            1 => {
                let b = $sim.must(concat!(stringify!($t), " to json"), || serde_json::to_vec(o));
                $sim.must(concat!(stringify!($t), " from own json"), || serde_json::from_slice::<$t>(&b))
            }
            2 => {
                let b = o.to_bytes_compressed_form();
                $sim.must(concat!(stringify!($t), " try_from own bytes"), || <$t>::try_from(b.clone()))
            }
            _ => {
                let b = o.to_bytes_compressed_form();
                $sim.must(concat!(stringify!($t), " from own compressed bytes"), || <$t>::from_bytes_compressed_form(&b))
            }
        }
    }};
}
/// The same for objects of fixed length.
macro_rules! hop {
    ($sim:expr, $t:ty, $o:expr) => {{
        let o: &$t = $o;
        match $sim.choose(3) {
            0 => {
                let b = o.to_bytes_uncompressed_form();
                $sim.must(concat!(stringify!($t), " from own uncompressed bytes"), || <$t>::try_from(&b[..]))
            }
            1 => {
                let b = $sim.must(concat!(stringify!($t), " to json"), || serde_json::to_vec(o));
                $sim.must(concat!(stringify!($t), " from own json"), || serde_json::from_slice::<$t>(&b))
            }
            _ => {
                let b = o.to_bytes_compressed_form();
                $sim.must(concat!(stringify!($t), " from own compressed bytes"), || <$t>::try_from(&b[..]))
            }
        }
    }};
}

fn valid(sim: &mut Sim, s: &Signature, m: &[SignatureMessage], pk: &PublicKey) -> bool {
    matches!(sim.no_panic("Signature::verify", || s.verify(m, pk)), Ok(true))
}

/// A signature verifies for its own messages and key, and for nothing else.
fn judge(sim: &mut Sim, s: &Signature, m: &[SignatureMessage], pk: &PublicKey) {
    let ok = valid(sim, s, m, pk);
    sim.check(ok, "honest-signature-rejected", || format!("a signature on {} messages does not verify", m.len()));
    let s2 = hop!(sim, Signature, s);
    sim.check(s2 == *s, "reload", || "a reloaded signature differs".into());
    let pk2 = travel!(sim, PublicKey, pk);
    sim.check(pk2 == *pk, "reload", || "a reloaded public key differs".into());
    let ok = valid(sim, &s2, m, &pk2);
    sim.check(ok, "honest-signature-rejected", || "a reloaded signature does not verify under the reloaded key".into());
    let rounds = 1 + sim.pick(3);
    for _ in 0..rounds {
        let mut m1 = m.to_vec();
        let mut pk1 = pk.clone();
        let mut s1 = s.clone();
        let what = match sim.choose(9) {
            0 | 1 => {
                let i = sim.pick(m1.len());
                m1[i] = if sim.coin() { message(sim) } else { small(0) };
                "another message value"
            }
            2 => {
                let (i, j) = (sim.pick(m1.len()), sim.pick(m1.len()));
                m1.swap(i, j);
                "two messages swapped"
            }
            3 => {
                m1.pop();
                "a message missing"
            }
            4 => {
                let x = if sim.coin() { small(0) } else { message(sim) };
                m1.push(x);
                "an extra message"
            }
            5 => {
                let o = keys(sim, m.len());
                match sim.choose(3) {
                    0 => pk1 = o.pk,
                    1 => pk1.w = o.pk.w,
                    _ => pk1.h0 = o.pk.h0,
                }
                "another key"
            }
            6 => {
                let o = keys(sim, m.len());
                let i = sim.pick(m.len());
                pk1.h[i] = o.pk.h[i];
                if m1[i] == small(0) {
                    pk1.h0 = o.pk.h0;
                }
                "another generator in the key"
            }
            7 => {
                // the key and the messages grow together: a zero message hides the extra generator
                let o = keys(sim, m.len() + 1);
                if sim.coin() {
                    pk1.h.push(o.pk.h[m.len()]);
                } else {
                    pk1.h.insert(0, o.pk.h[0]);
                    let x = message(sim);
                    m1.insert(0, if x == small(0) { small(1) } else { x });
                }
                "a longer key"
            }
            _ => {
                let mut b = if sim.coin() { s.to_bytes_compressed_form().to_vec() } else { s.to_bytes_uncompressed_form().to_vec() };
                let l = b.len();
                let d = mutate::mutate_bytes(sim, &mut b);
                if d.is_none() {
                    continue;
                }
                match sim.no_panic("Signature::try_from", || Signature::try_from(&b[..])) {
                    Err(_) => {
                        sim.probe("bad-signature-bytes-refused");
                        continue;
                    }
                    Ok(x) => {
                        if x == *s && b.len() == l {
                            sim.violate("malleable-encoding", format!("altered signature bytes read back as the same signature: {}", hex::encode(&b)));
                        }
                        s1 = x
                    }
                }
                "altered signature"
            }
        };
        if m1 == m && pk1 == *pk && s1 == *s {
            continue;
        }
        ev!(sim, "try {}", what);
        let ok = valid(sim, &s1, &m1, &pk1);
        sim.check(!ok, "forgery", || format!("signature accepted with {}", what));
        sim.probe("wrong-claim-rejected");
    }
}

/// C18: every message known to the signer.
pub fn direct(sim: &mut Sim) {
    in_this_thread(sim);
    let n = count(sim);
    let k = keys(sim, n);
    let m = messages(sim, n);
    ev!(sim, "sign {} messages", n);
    let s = sim.must("Issuer::sign", || Issuer::sign(&m, &k.sk, &k.pk));
    sim.absorb(&s.to_bytes_compressed_form());
    judge(sim, &s, &m, &k.pk);
    sim.probe("signed");
    // requests that do not fit the key
    let mut m1 = m.clone();
    // fewer messages than the key has room for are signed as if the rest were zero (pinned by a unit test)
    for _ in 0..1 + sim.pick(2) {
        let x = message(sim);
        m1.push(x);
    }
    let r = sim.no_panic("Issuer::sign", || Issuer::sign(&m1, &k.sk, &k.pk));
    sim.check(r.is_err(), "unfit-messages-signed", || format!("{} messages signed under a key for {}", m1.len(), n));
    // a zero secret key and a key without generators are refused
    let z = SecretKey::default();
    let r = sim.no_panic("Issuer::sign", || Issuer::sign(&m, &z, &k.pk));
    sim.check(r.is_err(), "zero-key", || "signed with a zero key".into());
    let z = PublicKey { h0: GeneratorG1::default(), ..k.pk.clone() };
    let r = sim.no_panic("Issuer::sign", || Issuer::sign(&m, &k.sk, &z));
    sim.check(r.is_err(), "zero-key", || "signed under a key with the identity as generator".into());
    let e = sim.no_panic("Issuer::new_keys(0)", || Issuer::new_keys(0));
    sim.check(e.is_err(), "zero-key", || "a key for no messages was made".into());
}

struct Holder {
    msgs: Vec<SignatureMessage>,
    hidden: BTreeSet<usize>,
    key: usize,
    // pending request: (context bytes, nonce bytes, blinding bytes)
    pending: Option<(Vec<u8>, Vec<u8>, Vec<u8>)>,
    done: Option<Signature>,
}
impl Holder {
    fn known(&self) -> BTreeMap<usize, SignatureMessage> {
        self.msgs.iter().enumerate().filter(|(i, _)| !self.hidden.contains(i)).map(|(i, m)| (i, *m)).collect()
    }
    fn secret(&self) -> BTreeMap<usize, SignatureMessage> {
        self.msgs.iter().enumerate().filter(|(i, _)| self.hidden.contains(i)).map(|(i, m)| (i, *m)).collect()
    }
}
fn map_bytes(m: &BTreeMap<usize, SignatureMessage>) -> Vec<u8> {
    let mut v = vec![];
    for (i, x) in m {
        v.push(*i as u8);
        v.extend_from_slice(&x.to_bytes_compressed_form());
    }
    v
}
fn map_from(b: &[u8]) -> Option<BTreeMap<usize, SignatureMessage>> {
    if b.len() % 33 != 0 {
        return None;
    }
    let mut m = BTreeMap::new();
    for c in b.chunks(33) {
        m.insert(c[0] as usize, SignatureMessage::try_from(&c[1..]).ok()?);
    }
    Some(m)
}

/// C18: blind issuing between holders and a signer over a faulty network with restarts.
pub fn blind(sim: &mut Sim) {
    in_this_thread(sim);
    let nkeys = 1 + sim.pick(2);
    let mut ks = vec![];
    let n = *sim.of(&[1usize, 2, 3, 4, 5, 6, 8, 9]);
    for _ in 0..nkeys {
        let c = if sim.chance(800) { n } else { 1 + sim.pick(6) };
        ks.push(keys(sim, c));
    }
    let disk: Vec<(Vec<u8>, Vec<u8>)> = ks.iter().map(|k| (k.pk.to_bytes_compressed_form(), k.sk.to_bytes_compressed_form().to_vec())).collect();
    let nh = 1 + sim.pick(3);
    let mut hs: Vec<Holder> = vec![];
    let mode = sim.choose(4);
    for _ in 0..nh {
        let key = sim.pick(nkeys);
        let n = ks[key].pk.message_count();
        let msgs = messages(sim, n);
        let hidden: BTreeSet<usize> = match mode {
            0 => [0usize].into_iter().collect(),
            1 => (0..n).collect(),
            2 => {
                let d = 1 + sim.pick(n);
                (0..d).collect()
            }
            _ => sim.subset(n, 400).into_iter().collect(),
        };
        hs.push(Holder { msgs, hidden, key, pending: None, done: None });
    }
    let cfg = NetCfg::swarm(sim, true);
    let mut net = Net::new(cfg);
    // what the signer remembers: the nonce it gave to each holder
    let mut nonces: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    // the truth about requests and answers: context bytes -> (holder, key, nonce, hidden)
    let mut truth: BTreeMap<Vec<u8>, (usize, usize, Vec<u8>, BTreeSet<usize>)> = BTreeMap::new();
    let mut answers: BTreeMap<Vec<u8>, (Vec<u8>, BTreeMap<usize, SignatureMessage>, usize)> = BTreeMap::new();
    const SIGNER: usize = 0;
    for h in 0..nh {
        net.send(sim, h + 1, SIGNER, "hello", frame(&[&[hs[h].key as u8]]));
    }
    let mut quiet = 0;
    let mut wrong_split = sim.chance(200);
    for step in 0..90 {
        if step == 50 {
            net.heal();
        }
        if step > 50 && hs.iter().all(|h| h.done.is_some()) {
            break;
        }
        let m = match net.next(sim) {
            Some(m) => m,
            None => {
                quiet += 1;
                if quiet > 40 {
                    break;
                }
                // whoever is not done starts again
                for h in 0..nh {
                    if hs[h].done.is_none() {
                        net.send(sim, h + 1, SIGNER, "hello", frame(&[&[hs[h].key as u8]]));
                    }
                }
                continue;
            }
        };
        if sim.fault("crash", 60) {
            // the signer restarts and reads its keys back, forgetting the nonces it gave out
            let mut b = vec![];
            for (i, (p, s)) in disk.iter().enumerate() {
                let pk = sim.must("PublicKey from disk", || PublicKey::from_bytes_compressed_form(p));
                let sk = sim.must("SecretKey from disk", || SecretKey::try_from(s.as_slice()));
                sim.check(pk == ks[i].pk && sk == ks[i].sk, "reload", || "a key read back from disk differs".into());
                b.push(Keys { pk, sk });
            }
            ks = b;
            nonces.clear();
        }
        let f = match unframe(&m.body) {
            Some(f) => f,
            None => continue,
        };
        match m.kind {
            "hello" if f.len() == 1 && f[0].len() == 1 => {
                let h = m.from;
                let n = Issuer::generate_signing_nonce();
                let n = hop!(sim, ProofNonce, &n);
                nonces.insert(h, n.to_bytes_compressed_form().to_vec());
                net.send(sim, SIGNER, h, "offer", frame(&[&n.to_bytes_compressed_form()]));
            }
            "offer" if f.len() == 1 => {
                let h = m.to - 1;
                let nonce = match sim.no_panic("ProofNonce::try_from", || ProofNonce::try_from(f[0].as_slice())) {
                    Ok(n) => n,
                    Err(_) => continue,
                };
                let (secret, key) = (hs[h].secret(), hs[h].key);
                let (ctx, blinding) = sim.must("new_blind_signature_context", || Prover::new_blind_signature_context(&ks[key].pk, &secret, &nonce));
                let ctx = travel!(sim, BlindSignatureContext, &ctx);
                let b = ctx.to_bytes_compressed_form();
                truth.insert(b.clone(), (h, key, nonce.to_bytes_compressed_form().to_vec(), hs[h].hidden.clone()));
                let blinding = hop!(sim, SignatureBlinding, &blinding);
                hs[h].pending = Some((b.clone(), f[0].clone(), blinding.to_bytes_compressed_form().to_vec()));
                let mut known = hs[h].known();
                if wrong_split && sim.chance(400) {
                    // a holder that states another split or other indices than it committed to
                    sim.note_fault("byzantine.split");
                    wrong_split = false;
                    match sim.choose(5) {
                        0 => {
                            let k = sim.pick(hs[h].msgs.len());
                            known.remove(&k);
                        }
                        1 => {
                            let k = sim.pick(hs[h].msgs.len());
                            let x = message(sim);
                            known.insert(k, x);
                        }
                        2 => {
                            let n = hs[h].msgs.len();
                            let k = n + sim.pick(3);
                            let x = message(sim);
                            known.insert(k, x);
                        }
                        3 => {
                            let n = hs[h].msgs.len();
                            let k = known.keys().next().copied();
                            if let Some(k) = k {
                                let x = known.remove(&k).unwrap();
                                known.insert(n, x);
                            }
                        }
                        _ => {
                            let x = message(sim);
                            known.insert(200, x);
                        }
                    }
                }
                net.send(sim, h + 1, SIGNER, "request", frame(&[&[key as u8], &b, &map_bytes(&known)]));
            }
            "request" if f.len() == 3 && f[0].len() == 1 => {
                let h = m.from;
                let key = f[0][0] as usize;
                if key >= ks.len() {
                    continue;
                }
                let nonce = match nonces.get(&h) {
                    Some(n) => n.clone(),
                    None => continue,
                };
                let ctx = match sim.no_panic("BlindSignatureContext::from_bytes", || BlindSignatureContext::from_bytes_compressed_form(&f[1])) {
                    Ok(c) => c,
                    Err(_) => {
                        sim.probe("bad-request-refused");
                        continue;
                    }
                };
                let known = match map_from(&f[2]) {
                    Some(k) => k,
                    None => continue,
                };
                let pn = ProofNonce::try_from(nonce.as_slice()).unwrap();
                let r = sim.no_panic("Issuer::blind_sign", || Issuer::blind_sign(&ctx, &known, &ks[key].sk, &ks[key].pk, &pn));
                let n = ks[key].pk.message_count();
                let split: BTreeSet<usize> = (0..n).filter(|i| !known.contains_key(i)).collect();
                let fits = known.keys().all(|i| *i < n);
                let genuine = match truth.get(&f[1]) {
                    Some((_, k, no, hid)) => *k == key && *no == nonce && *hid == split && fits,
                    None => false,
                };
                match r {
                    Ok(s) => {
                        sim.check(genuine, "bad-request-signed", || format!("signed a request that was altered, replayed, for another key or split (known {:?} of {})", known.keys().collect::<Vec<_>>(), n));
                        let s = hop!(sim, BlindSignature, &s);
                        let b = s.to_bytes_compressed_form().to_vec();
                        sim.absorb(&b);
                        sim.check(!answers.contains_key(&b), "repeated-signature", || "two blind signatures are equal".into());
                        answers.insert(b.clone(), (f[1].clone(), known, key));
                        net.send(sim, SIGNER, h, "answer", frame(&[&b]));
                    }
                    Err(e) => {
                        sim.check(!genuine, "honest-request-refused", || format!("refused an honest request: {:?}", e));
                        sim.probe("bad-request-refused");
                    }
                }
            }
            "answer" if f.len() == 1 => {
                let h = m.to - 1;
                let (ctxb, _, blinding) = match &hs[h].pending {
                    Some(p) => p.clone(),
                    None => continue,
                };
                let bs = match sim.no_panic("BlindSignature::try_from", || BlindSignature::try_from(f[0].as_slice())) {
                    Ok(b) => b,
                    Err(_) => continue,
                };
                let bl = SignatureBlinding::try_from(blinding.as_slice()).unwrap();
                let key = hs[h].key;
                let msgs = hs[h].msgs.clone();
                let r = sim.no_panic("complete_signature", || Prover::complete_signature(&ks[key].pk, &msgs, &bs, &bl));
                let genuine = match answers.get(&f[0]) {
                    Some((c, known, k)) => *c == ctxb && *known == hs[h].known() && *k == key,
                    None => false,
                };
                match r {
                    Ok(s) => {
                        sim.check(genuine, "bad-answer-accepted", || "a holder accepted a signature that was altered, meant for another request or on other messages".into());
                        sim.probe("issued");
                        sim.state_str(&format!("n{} hidden{:?}", msgs.len(), hs[h].hidden));
                        if hs[h].done.is_none() {
                            judge(sim, &s, &msgs, &ks[key].pk);
                        }
                        hs[h].done = Some(s);
                    }
                    Err(e) => {
                        sim.check(!genuine, "honest-answer-refused", || format!("an honest blind signature does not complete: {:?}", e));
                        sim.probe("bad-answer-refused");
                    }
                }
            }
            _ => {}
        }
    }
    sim.check(hs.iter().all(|h| h.done.is_some()), "no-progress", || "issuing did not finish although the network healed".into());
}

/// C18: indices and counts that do not fit; altered requests tried directly.
pub fn requests(sim: &mut Sim) {
    in_this_thread(sim);
    let n = 1 + sim.pick(6);
    let k = keys(sim, n);
    let msgs = messages(sim, n);
    let hidden: BTreeSet<usize> = sim.subset(n, 500).into_iter().collect();
    let secret: BTreeMap<usize, SignatureMessage> = hidden.iter().map(|i| (*i, msgs[*i])).collect();
    let known: BTreeMap<usize, SignatureMessage> = (0..n).filter(|i| !hidden.contains(i)).map(|i| (i, msgs[i])).collect();
    let nonce = Issuer::generate_signing_nonce();
    // the holder asks for an index the key does not have
    let mut bad = secret.clone();
    let at = n + *sim.of(&[0usize, 0, 1, 7, 1000]);
    bad.insert(at, message(sim));
    let r = sim.no_panic("new_blind_signature_context", || Prover::new_blind_signature_context(&k.pk, &bad, &nonce));
    sim.check(r.is_err(), "unfit-request-made", || format!("a request hiding index {} of a key for {} was made", at, n));
    let (ctx, blinding) = sim.must("new_blind_signature_context", || Prover::new_blind_signature_context(&k.pk, &secret, &nonce));
    sim.absorb(&ctx.to_bytes_compressed_form());
    let known_idx: BTreeSet<usize> = known.keys().copied().collect();
    let ok = sim.must("BlindSignatureContext::verify", || ctx.verify(&known_idx, &k.pk, &nonce));
    sim.check(ok, "honest-request-refused", || "an honest request does not verify".into());
    for _ in 0..3 {
        let mut c = ctx.clone();
        let mut kn = known.clone();
        let mut pk = k.pk.clone();
        let mut no = nonce;
        let what = match sim.choose(7) {
            0 => {
                let mut b = if sim.coin() { c.to_bytes_compressed_form() } else { c.to_bytes_uncompressed_form() };
                let comp = b.len() == c.to_bytes_compressed_form().len();
                let l = b.len();
                if mutate::mutate_bytes(sim, &mut b).is_none() {
                    continue;
                }
                let r = sim.no_panic("BlindSignatureContext from bytes", || {
                    if comp {
                        BlindSignatureContext::from_bytes_compressed_form(&b)
                    } else {
                        BlindSignatureContext::from_bytes_uncompressed_form(&b)
                    }
                });
                match r {
                    Err(_) => {
                        sim.probe("bad-request-refused");
                        continue;
                    }
                    Ok(x) => {
                        sim.check(b.len() == l, "shape", || format!("{} bytes read as a request of {} bytes", b.len(), l));
                        c = x;
                    }
                }
                "altered bytes"
            }
            1 => {
                let at = n + *sim.of(&[0usize, 1, 9, 4000]);
                kn.insert(at, message(sim));
                "an index beyond the key among the known messages"
            }
            2 => {
                let i = sim.pick(n);
                if kn.remove(&i).is_none() {
                    kn.insert(i, msgs[i]);
                }
                "another split"
            }
            3 => {
                no = ProofNonce::random();
                "another nonce"
            }
            4 => {
                let o = keys(sim, n);
                pk = o.pk;
                "another key"
            }
            5 => {
                let no2 = if sim.coin() { nonce } else { ProofNonce::random() };
                let sec2: BTreeMap<usize, SignatureMessage> = hidden.iter().map(|i| (*i, message(sim))).collect();
                let (c2, _) = sim.must("new_blind_signature_context", || Prover::new_blind_signature_context(&k.pk, &sec2, &no2));
                match sim.choose(3) {
                    0 => c.commitment = c2.commitment,
                    1 => c.challenge_hash = c2.challenge_hash,
                    _ => c.proof_of_hidden_messages = c2.proof_of_hidden_messages,
                }
                "parts of two requests"
            }
            _ => {
                c.commitment = Commitment::default();
                "the identity as commitment"
            }
        };
        ev!(sim, "{}", what);
        let r = sim.no_panic("Issuer::blind_sign", || Issuer::blind_sign(&c, &kn, &k.sk, &pk, &no));
        sim.check(r.is_err(), "bad-request-signed", || format!("blind signature made for a request with {}", what));
        sim.probe("bad-request-refused");
    }
    let bs = sim.must("blind_sign", || Issuer::blind_sign(&ctx, &known, &k.sk, &k.pk, &nonce));
    // completing with something else
    let mut m1 = msgs.clone();
    let mut bl = blinding;
    let what = match sim.choose(4) {
        0 => {
            bl = Signature::generate_blinding();
            "another blinding"
        }
        1 => {
            let i = sim.pick(n);
            let x = message(sim);
            if m1[i] == x {
                return;
            }
            m1[i] = x;
            "another message"
        }
        2 => {
            m1.pop();
            "a message missing"
        }
        _ => {
            m1.push(small(0));
            "an extra message"
        }
    };
    let r = sim.no_panic("complete_signature", || Prover::complete_signature(&k.pk, &m1, &bs, &bl));
    sim.check(r.is_err(), "bad-answer-accepted", || format!("completed with {}", what));
    let s = sim.must("complete_signature", || Prover::complete_signature(&k.pk, &msgs, &bs, &blinding));
    judge(sim, &s, &msgs, &k.pk);
    sim.probe("issued");
}

/// Altered and made-up bytes for every object that can be read.
fn parse_all(sim: &mut Sim, k: &Keys, objs: &[(&'static str, Vec<u8>)]) {
    let _ = k;
    let (name, good) = {
        let i = sim.pick(objs.len());
        (objs[i].0, objs[i].1.clone())
    };
    let mut b = good.clone();
    let what = match sim.choose(6) {
        0 => {
            let l = sim.pick(good.len() + 1);
            b.truncate(l);
            "truncated"
        }
        1 => {
            let l = 1 + sim.pick(100);
            b.extend(sim.bytes(l));
            "extended"
        }
        2 => {
            let l = sim.pick(300);
            b = sim.bytes(l);
            "random"
        }
        3 => {
            // a big number somewhere: lengths and counts
            if b.len() >= 4 {
                let i = sim.pick(b.len() - 3);
                let v: u32 = *sim.of(&[0u32, 1, 0x7fff_ffff, 0xffff_ffff, 0xffff_fffc, 0x1000_0000, 200, 100_000]);
                b[i..i + 4].copy_from_slice(&v.to_be_bytes());
            }
            "number overwritten"
        }
        4 => {
            // the same at the places where lengths are
            let at: Vec<usize> = (0..b.len().saturating_sub(3)).filter(|i| b[*i] == 0 && b[*i + 1] == 0 && (b[*i + 2] != 0 || b[*i + 3] != 0)).collect();
            if !at.is_empty() {
                let i = at[sim.pick(at.len())];
                let v: u32 = *sim.of(&[0u32, 1, 2, 3, 4, 0x7fff_ffff, 0xffff_ffff, 0xffff_fffc, 0x1000_0000, 48, 200, 100_000]);
                b[i..i + 4].copy_from_slice(&v.to_be_bytes());
            }
            "length overwritten"
        }
        _ => {
            mutate::mutate_bytes(sim, &mut b);
            "altered"
        }
    };
    ev!(sim, "{} {} {}B", name, what, b.len());
    macro_rules! var {
        ($t:ty, $comp:expr) => {{
            let r = sim.no_panic(concat!(stringify!($t), " from bytes"), || if $comp { <$t>::from_bytes_compressed_form(&b) } else { <$t>::from_bytes_uncompressed_form(&b) });
            r.ok().map(|o| if $comp { o.to_bytes_compressed_form() } else { o.to_bytes_uncompressed_form() })
        }};
    }
    macro_rules! fixed {
        ($t:ty) => {{
            let r = sim.no_panic(concat!(stringify!($t), "::try_from"), || <$t>::try_from(b.as_slice()));
            r.ok().map(|o| if o.to_bytes_compressed_form().len() == b.len() { o.to_bytes_compressed_form().to_vec() } else { o.to_bytes_uncompressed_form().to_vec() })
        }};
    }
    let got: Option<Vec<u8>> = match name {
        "PublicKey" => var!(PublicKey, true),
        "PublicKey/u" => var!(PublicKey, false),
        "ProofRequest" => var!(ProofRequest, true),
        "ProofRequest/u" => var!(ProofRequest, false),
        "SignatureProof" => var!(SignatureProof, true),
        "SignatureProof/u" => var!(SignatureProof, false),
        "PoKOfSignatureProof" => var!(PoKOfSignatureProof, true),
        "PoKOfSignatureProof/u" => var!(PoKOfSignatureProof, false),
        "BlindSignatureContext" => var!(BlindSignatureContext, true),
        "BlindSignatureContext/u" => var!(BlindSignatureContext, false),
        "ProofG1" => var!(ProofG1, true),
        "ProofG1/u" => var!(ProofG1, false),
        "Signature" => fixed!(Signature),
        "BlindSignature" => fixed!(BlindSignature),
        "SignatureMessage" => fixed!(SignatureMessage),
        "ProofNonce" => fixed!(ProofNonce),
        "ProofChallenge" => fixed!(ProofChallenge),
        "SignatureBlinding" => fixed!(SignatureBlinding),
        "Commitment" => fixed!(Commitment),
        "GeneratorG1" => fixed!(GeneratorG1),
        "GeneratorG2" => fixed!(GeneratorG2),
        "DeterministicPublicKey" => fixed!(DeterministicPublicKey),
        "SecretKey" => fixed!(SecretKey),
        _ => unreachable!(),
    };
    match got {
        None => {
            sim.check(b != good, "own-bytes-refused", || format!("{} cannot be read back from its own bytes", name));
            sim.probe("malformed-refused");
        }
        Some(w) => {
            sim.check(w.len() == b.len(), "shape", || format!("{} bytes were read as a {} that takes {} bytes: {}", b.len(), name, w.len(), hex::encode(&b)));
            sim.probe("readable");
        }
    }
    // the same bytes as JSON
    let j = serde_json::to_vec(&b).unwrap();
    macro_rules! js {
        ($t:ty) => {{
            let r = sim.no_panic(concat!(stringify!($t), " from json"), || serde_json::from_slice::<$t>(&j));
            r.is_ok()
        }};
    }
    match name {
        "PublicKey" => {
            js!(PublicKey);
        }
        "SignatureProof" => {
            js!(SignatureProof);
        }
        "ProofRequest" => {
            js!(ProofRequest);
        }
        "Signature" => {
            js!(Signature);
        }
        _ => {}
    }
}

fn objects(sim: &mut Sim, k: &Keys) -> Vec<(&'static str, Vec<u8>)> {
    let n = k.pk.message_count();
    let msgs = messages(sim, n);
    let s = sim.must("sign", || Issuer::sign(&msgs, &k.sk, &k.pk));
    let shown = sim.subset(n, 400);
    let req = sim.must("new_proof_request", || Verifier::new_proof_request(&shown, &k.pk));
    let nonce = Verifier::generate_proof_nonce();
    let p = prove(sim, &req, &msgs, &s, &nonce);
    let hidden: BTreeMap<usize, SignatureMessage> = (0..n).filter(|i| i % 2 == 0).map(|i| (i, msgs[i])).collect();
    let (ctx, bl) = sim.must("new_blind_signature_context", || Prover::new_blind_signature_context(&k.pk, &hidden, &nonce));
    let known: BTreeMap<usize, SignatureMessage> = (0..n).filter(|i| i % 2 == 1).map(|i| (i, msgs[i])).collect();
    let bs = sim.must("blind_sign", || Issuer::blind_sign(&ctx, &known, &k.sk, &k.pk, &nonce));
    let dpk = DeterministicPublicKey::from(*k.pk.w.as_ref());
    vec![
        ("PublicKey", k.pk.to_bytes_compressed_form()),
        ("PublicKey/u", k.pk.to_bytes_uncompressed_form()),
        ("ProofRequest", req.to_bytes_compressed_form()),
        ("ProofRequest/u", req.to_bytes_uncompressed_form()),
        ("SignatureProof", p.to_bytes_compressed_form()),
        ("SignatureProof/u", p.to_bytes_uncompressed_form()),
        ("PoKOfSignatureProof", p.proof.to_bytes_compressed_form()),
        ("PoKOfSignatureProof/u", p.proof.to_bytes_uncompressed_form()),
        ("BlindSignatureContext", ctx.to_bytes_compressed_form()),
        ("BlindSignatureContext/u", ctx.to_bytes_uncompressed_form()),
        ("ProofG1", ctx.proof_of_hidden_messages.to_bytes_compressed_form()),
        ("ProofG1/u", ctx.proof_of_hidden_messages.to_bytes_uncompressed_form()),
        ("Signature", s.to_bytes_compressed_form().to_vec()),
        ("Signature", s.to_bytes_uncompressed_form().to_vec()),
        ("BlindSignature", bs.to_bytes_compressed_form().to_vec()),
        ("SignatureMessage", msgs[0].to_bytes_compressed_form().to_vec()),
        ("ProofNonce", nonce.to_bytes_compressed_form().to_vec()),
        ("ProofChallenge", ctx.challenge_hash.to_bytes_compressed_form().to_vec()),
        ("SignatureBlinding", bl.to_bytes_compressed_form().to_vec()),
        ("Commitment", ctx.commitment.to_bytes_compressed_form().to_vec()),
        ("Commitment", ctx.commitment.to_bytes_uncompressed_form().to_vec()),
        ("GeneratorG1", k.pk.h0.to_bytes_compressed_form().to_vec()),
        ("GeneratorG2", k.pk.w.to_bytes_uncompressed_form().to_vec()),
        ("DeterministicPublicKey", dpk.to_bytes_compressed_form().to_vec()),
        ("SecretKey", k.sk.to_bytes_compressed_form().to_vec()),
    ]
}

/// C18: malformed objects of the issuing side.
pub fn malformed_issue(sim: &mut Sim) {
    malformed(sim, true)
}
/// C19: malformed objects of the presenting side.
pub fn malformed_show(sim: &mut Sim) {
    malformed(sim, false)
}
fn malformed(sim: &mut Sim, issue: bool) {
    in_this_thread(sim);
    let n = *sim.of(&[1usize, 2, 3, 5, 8]);
    let k = keys(sim, n);
    let show = ["ProofRequest", "ProofRequest/u", "SignatureProof", "SignatureProof/u", "PoKOfSignatureProof", "PoKOfSignatureProof/u", "ProofG1", "ProofG1/u", "ProofNonce", "ProofChallenge"];
    let objs: Vec<_> = objects(sim, &k).into_iter().filter(|(n, _)| show.contains(n) != issue).collect();
    sim.absorb(&objs[0].1);
    for _ in 0..12 {
        parse_all(sim, &k, &objs);
    }
}

// ---- C19 ------------------------------------------------------------------------------------

fn proof_messages(msgs: &[SignatureMessage], shown: &BTreeSet<usize>, ext: Option<(usize, ProofNonce)>) -> Vec<ProofMessage> {
    msgs.iter()
        .enumerate()
        .map(|(i, m)| {
            if shown.contains(&i) {
                ProofMessage::Revealed(*m)
            } else {
                match ext {
                    Some((k, b)) if k == i => ProofMessage::Hidden(HiddenMessage::ExternalBlinding(*m, b)),
                    _ => ProofMessage::Hidden(HiddenMessage::ProofSpecificBlinding(*m)),
                }
            }
        })
        .collect()
}
fn prove(sim: &mut Sim, req: &ProofRequest, msgs: &[SignatureMessage], s: &Signature, nonce: &ProofNonce) -> SignatureProof {
    let pm = proof_messages(msgs, &req.revealed_messages, None);
    let pok = sim.must("commit_signature_pok", || Prover::commit_signature_pok(req, &pm, s));
    let c = sim.must("create_challenge_hash", || Prover::create_challenge_hash(std::slice::from_ref(&pok), None, nonce));
    sim.must("generate_signature_pok", || Prover::generate_signature_pok(pok, &c))
}
fn accepts(sim: &mut Sim, req: &ProofRequest, p: &SignatureProof, nonce: &ProofNonce) -> Option<Vec<SignatureMessage>> {
    sim.no_panic("verify_signature_pok", || Verifier::verify_signature_pok(req, p, nonce)).ok()
}

/// One credential, one request: honest proof accepted, everything else refused.
pub fn disclose(sim: &mut Sim) {
    in_this_thread(sim);
    let n = count(sim);
    let k = keys(sim, n);
    let msgs = messages(sim, n);
    let s = sim.must("sign", || Issuer::sign(&msgs, &k.sk, &k.pk));
    let pm = *sim.of(&[0usize, 200, 500, 800, 1000]);
    let mut shown = sim.subset(n, pm);
    let req = sim.must("new_proof_request", || Verifier::new_proof_request(&shown, &k.pk));
    shown.sort();
    let req = travel!(sim, ProofRequest, &req);
    sim.check(req.revealed_messages.iter().copied().collect::<Vec<_>>() == shown && req.verification_key == k.pk, "reload", || format!("a reloaded request asks for {:?} instead of {:?}", req.revealed_messages, shown));
    let nonce = Verifier::generate_proof_nonce();
    let nonce = hop!(sim, ProofNonce, &nonce);
    let p = prove(sim, &req, &msgs, &s, &nonce);
    let p = travel!(sim, SignatureProof, &p);
    sim.absorb(&p.to_bytes_compressed_form());
    let want: Vec<SignatureMessage> = shown.iter().map(|i| msgs[*i]).collect();
    match accepts(sim, &req, &p, &nonce) {
        None => sim.violate("honest-proof-refused", format!("{} messages, {:?} revealed", n, shown)),
        Some(v) => sim.check(v == want, "revealed-differ", || "the verifier was told other values than were signed".into()),
    }
    sim.state_str(&format!("{} {:?}", n, shown));
    sim.probe("accepted");
    let nk = keys(sim, n);
    let (s2, msgs2) = if sim.coin() {
        let m2 = messages(sim, n);
        (sim.must("sign", || Issuer::sign(&m2, &k.sk, &k.pk)), m2)
    } else {
        (s.clone(), msgs.clone())
    };
    let n2 = if sim.coin() { nonce } else { ProofNonce::random() };
    let other = prove(sim, &req, &msgs2, &s2, &n2);
    for _ in 0..4 {
        let mut p1 = p.clone();
        let mut r1 = req.clone();
        let mut no1 = nonce;
        let what = match sim.choose(11) {
            0 | 1 => {
                let comp = sim.coin();
                let mut b = if comp { p.to_bytes_compressed_form() } else { p.to_bytes_uncompressed_form() };
                let g = b.clone();
                if mutate::mutate_bytes(sim, &mut b).is_none() || b == g {
                    continue;
                }
                let r = sim.no_panic("SignatureProof from bytes", || if comp { SignatureProof::from_bytes_compressed_form(&b) } else { SignatureProof::from_bytes_uncompressed_form(&b) });
                match r {
                    Err(_) => {
                        sim.probe("bad-proof-refused");
                        continue;
                    }
                    Ok(x) => p1 = x,
                }
                "altered bytes"
            }
            2 => {
                if shown.is_empty() {
                    continue;
                }
                let i = *sim.of(&shown);
                let x = message(sim);
                if x == msgs[i] {
                    continue;
                }
                p1.revealed_messages.insert(i, x);
                "another revealed value"
            }
            3 => {
                if shown.is_empty() {
                    continue;
                }
                let i = *sim.of(&shown);
                p1.revealed_messages.remove(&i);
                "a revealed value missing"
            }
            4 => {
                let i = sim.pick(n + 3);
                if shown.contains(&i) {
                    continue;
                }
                let x = if i < n { msgs[i] } else { message(sim) };
                p1.revealed_messages.insert(i, x);
                "an extra revealed value"
            }
            5 => {
                if shown.len() < 2 {
                    continue;
                }
                let (i, j) = (*sim.of(&shown), *sim.of(&shown));
                if msgs[i] == msgs[j] {
                    continue;
                }
                p1.revealed_messages.insert(i, msgs[j]);
                p1.revealed_messages.insert(j, msgs[i]);
                "two revealed values swapped"
            }
            6 => {
                no1 = ProofNonce::random();
                "another nonce"
            }
            7 => {
                match sim.choose(4) {
                    0 => r1.verification_key = nk.pk.clone(),
                    1 => r1.verification_key.w = nk.pk.w,
                    2 => r1.verification_key.h0 = nk.pk.h0,
                    _ => {
                        let i = sim.pick(n);
                        r1.verification_key.h[i] = nk.pk.h[i];
                        if msgs[i] == small(0) {
                            r1.verification_key.h0 = nk.pk.h0;
                        }
                    }
                }
                "another key"
            }
            8 => {
                let i = sim.pick(n);
                if !r1.revealed_messages.remove(&i) {
                    r1.revealed_messages.insert(i);
                }
                "another request"
            }
            9 => {
                p1.proof = other.proof.clone();
                if p1.proof.to_bytes_compressed_form() == p.proof.to_bytes_compressed_form() || (n2 == nonce && msgs2 == msgs) {
                    continue;
                }
                if n2 == nonce && shown.iter().all(|i| msgs[*i] == msgs2[*i]) {
                    continue; // a genuine proof about the same values
                }
                "the proof of another session"
            }
            _ => {
                // components of two proofs: three points, then two sigma proofs with a length
                let a = p.proof.to_bytes_uncompressed_form();
                let b = other.proof.to_bytes_uncompressed_form();
                if a.len() != b.len() {
                    continue;
                }
                let l1 = 4 + 96 + 4 + 64;
                let cuts = [(0, 96), (96, 192), (192, 288), (288, 288 + l1), (288 + l1, a.len())];
                let mask = 1 + sim.pick(30);
                let mut x = a.clone();
                for (i, (f, t)) in cuts.iter().enumerate() {
                    if mask >> i & 1 == 1 {
                        x[*f..*t].copy_from_slice(&b[*f..*t]);
                    }
                }
                match sim.no_panic("PoKOfSignatureProof from bytes", || PoKOfSignatureProof::from_bytes_uncompressed_form(&x)) {
                    Ok(q) => p1.proof = q,
                    Err(_) => continue,
                }
                "parts of two proofs"
            }
        };
        ev!(sim, "{}", what);
        let r = accepts(sim, &r1, &p1, &no1);
        sim.check(r.is_none(), "false-proof-accepted", || format!("accepted a proof with {} ({} messages, {:?} revealed)", what, n, shown));
        sim.probe("bad-proof-refused");
    }
    // requests and proofs that do not fit
    let mut idx = shown.clone();
    let at = n + *sim.of(&[0usize, 0, 1, 1000]);
    idx.push(at);
    let r = sim.no_panic("new_proof_request", || Verifier::new_proof_request(&idx, &k.pk));
    sim.check(r.is_err(), "unfit-request-made", || format!("a request for index {} of {} was made", at, n));
    let mut m1 = msgs.clone();
    if sim.coin() {
        m1.pop();
    } else {
        m1.push(msgs[0]);
    }
    let pmsg = proof_messages(&m1, &req.revealed_messages, None);
    let r = sim.no_panic("commit_signature_pok", || Prover::commit_signature_pok(&req, &pmsg, &s));
    sim.check(r.is_err(), "unfit-proof-made", || "a proof was started with a wrong number of messages".into());
    let mut m1 = msgs.clone();
    let i = sim.pick(n);
    let x = message(sim);
    if m1[i] != x {
        m1[i] = x;
        let pmsg = proof_messages(&m1, &req.revealed_messages, None);
        let r = sim.no_panic("commit_signature_pok", || Prover::commit_signature_pok(&req, &pmsg, &s));
        sim.check(r.is_err(), "unfit-proof-made", || "a proof was started with a message that was not signed".into());
    }
    let e = PoKOfSignatureProof::default();
    let i = sim.pick(3);
    let r = sim.no_panic("get_resp_for_message", || e.get_resp_for_message(i));
    sim.check(r.is_err(), "shape", || "a response was read from an empty proof".into());
}

/// Several credentials with a common hidden message, one challenge, own claims.
pub fn together(sim: &mut Sim) {
    in_this_thread(sim);
    let c = 1 + sim.pick(3);
    let link = Prover::new_link_secret();
    let bl = ProofNonce::random();
    let nonce = Verifier::generate_proof_nonce();
    let nclaims = sim.pick(3);
    let claims: Vec<Vec<u8>> = (0..nclaims)
        .map(|_| {
            let l = sim.pick(30);
            sim.bytes(l)
        })
        .collect();
    let cl: Vec<&[u8]> = claims.iter().map(|c| &c[..]).collect();
    let cl_opt = if claims.is_empty() && sim.coin() { None } else { Some(&cl[..]) };
    let mut all = vec![];
    let mut poks = vec![];
    for _ in 0..c {
        let n = 1 + sim.pick(6);
        let k = keys(sim, n);
        let at = sim.pick(n);
        let mut msgs = messages(sim, n);
        msgs[at] = link;
        // the link secret is signed blindly
        let sn = Issuer::generate_signing_nonce();
        let hid: BTreeMap<usize, SignatureMessage> = [(at, link)].into_iter().collect();
        let (ctx, f) = sim.must("new_blind_signature_context", || Prover::new_blind_signature_context(&k.pk, &hid, &sn));
        let known: BTreeMap<usize, SignatureMessage> = (0..n).filter(|i| *i != at).map(|i| (i, msgs[i])).collect();
        let bs = sim.must("blind_sign", || Issuer::blind_sign(&ctx, &known, &k.sk, &k.pk, &sn));
        let s = sim.must("complete_signature", || Prover::complete_signature(&k.pk, &msgs, &bs, &f));
        let shown: Vec<usize> = sim.subset(n, 400).into_iter().filter(|i| *i != at).collect();
        let req = sim.must("new_proof_request", || Verifier::new_proof_request(&shown, &k.pk));
        let pm = proof_messages(&msgs, &req.revealed_messages, Some((at, bl)));
        let pok = sim.must("commit_signature_pok", || Prover::commit_signature_pok(&req, &pm, &s));
        poks.push(pok);
        let at_hidden = (0..at).filter(|i| !shown.contains(i)).count();
        all.push((k, msgs, req, at_hidden));
    }
    let ch = sim.must("Prover::create_challenge_hash", || Prover::create_challenge_hash(&poks, cl_opt, &nonce));
    let mut proofs = vec![];
    for p in poks {
        let p = sim.must("generate_signature_pok", || Prover::generate_signature_pok(p, &ch));
        proofs.push(travel!(sim, SignatureProof, &p));
    }
    sim.absorb(&ch.to_bytes_compressed_form());
    let reqs: Vec<ProofRequest> = all.iter().map(|a| a.2.clone()).collect();
    let judge = |sim: &mut Sim, proofs: &[SignatureProof], reqs: &[ProofRequest], nonce: &ProofNonce, cl: Option<&[&[u8]]>| -> bool {
        let ch = match sim.no_panic("Verifier::create_challenge_hash", || Verifier::create_challenge_hash(proofs, reqs, nonce, cl)) {
            Ok(c) => c,
            Err(_) => return false,
        };
        let mut link: Option<SignatureMessage> = None;
        for (i, p) in proofs.iter().enumerate() {
            let st = sim.no_panic("PoKOfSignatureProof::verify", || p.proof.verify(&reqs[i].verification_key, &p.revealed_messages, &ch));
            match st {
                Ok(st) if st.is_valid() => {}
                _ => return false,
            }
            if p.revealed_messages.keys().copied().collect::<BTreeSet<_>>() != reqs[i].revealed_messages {
                return false;
            }
            match p.proof.get_resp_for_message(all[i].3) {
                Ok(r) => {
                    if link.is_some() && link != Some(r) {
                        return false;
                    }
                    link = Some(r);
                }
                Err(_) => return false,
            }
        }
        true
    };
    let ok = judge(sim, &proofs, &reqs, &nonce, cl_opt);
    sim.check(ok, "honest-proof-refused", || format!("a session of {} honest proofs was refused", c));
    sim.probe("accepted");
    for _ in 0..3 {
        let mut p1 = proofs.clone();
        let mut r1 = reqs.clone();
        let mut n1 = nonce;
        let mut cl1: Vec<Vec<u8>> = claims.clone();
        let i = sim.pick(c);
        let what = match sim.choose(6) {
            0 => {
                n1 = ProofNonce::random();
                "another nonce"
            }
            1 => {
                if cl1.iter().all(|c| c.is_empty()) {
                    cl1.push(vec![1]);
                } else {
                    let j = cl1.iter().position(|c| !c.is_empty()).unwrap();
                    let at = sim.pick(cl1[j].len());
                    cl1[j][at] ^= 1 << sim.choose(8);
                }
                "another claim"
            }
            2 => {
                if c < 2 {
                    continue;
                }
                p1.pop();
                r1.pop();
                "a proof missing"
            }
            3 => {
                if c < 2 {
                    continue;
                }
                p1.swap(0, c - 1);
                "proofs in another order"
            }
            4 => {
                if c == 1 && claims.iter().all(|c| c.is_empty()) {
                    continue; // nothing ties it to this session but the nonce
                }
                let (k, m, _, _) = &all[i];
                let s = sim.must("sign", || Issuer::sign(m, &k.sk, &k.pk));
                p1[i] = prove(sim, &r1[i], m, &s, &nonce);
                "a proof of another session"
            }
            _ => {
                let (_, m, _, _) = &all[i];
                let j = sim.pick(m.len());
                if !r1[i].revealed_messages.remove(&j) {
                    r1[i].revealed_messages.insert(j);
                }
                "another request"
            }
        };
        ev!(sim, "{}", what);
        let clr: Vec<&[u8]> = cl1.iter().map(|c| &c[..]).collect();
        let ok = judge(sim, &p1, &r1, &n1, Some(&clr));
        sim.check(!ok, "false-proof-accepted", || format!("a session with {} was accepted", what));
        sim.probe("bad-proof-refused");
    }
}

/// A holder of a genuine signature that tries to answer another question than the one asked, or to
/// show a value that was never signed.
pub fn cheat(sim: &mut Sim) {
    in_this_thread(sim);
    let n = 1 + sim.pick(6);
    let k = keys(sim, n);
    let msgs = messages(sim, n);
    let s = sim.must("sign", || Issuer::sign(&msgs, &k.sk, &k.pk));
    let shown: BTreeSet<usize> = sim.subset(n, 500).into_iter().collect();
    let req = sim.must("new_proof_request", || Verifier::new_proof_request(&shown.iter().copied().collect::<Vec<_>>(), &k.pk));
    let nonce = Verifier::generate_proof_nonce();
    sim.absorb(&s.to_bytes_compressed_form());
    let kind = sim.choose(3);
    sim.variant = kind;
    match kind {
        0 => {
            // reveals another set but computes the challenge the verifier will compute
            let i = sim.pick(n);
            let mut mine = shown.clone();
            if !mine.remove(&i) {
                mine.insert(i);
            }
            if sim.chance(300) {
                mine = (0..n).filter(|i| !shown.contains(i)).collect();
            }
            if mine == shown {
                return;
            }
            let pm = proof_messages(&msgs, &mine, None);
            let pok = sim.must("commit_signature_pok", || Prover::commit_signature_pok(&req, &pm, &s));
            let dummy = ProofChallenge::hash(b"x");
            let pok2 = pok.clone();
            let p0 = sim.must("gen_proof", || pok2.gen_proof(&dummy));
            let mut b = p0.get_bytes_for_challenge(shown.clone(), &k.pk);
            b.extend_from_slice(&nonce.to_bytes_uncompressed_form()[..]);
            let c = ProofChallenge::hash(&b);
            let p = sim.must("generate_signature_pok", || Prover::generate_signature_pok(pok, &c));
            sim.note_fault("byzantine.prover");
            let r = accepts(sim, &req, &p, &nonce);
            sim.check(r.is_none(), "other-set-revealed", || format!("asked for {:?}, a proof revealing {:?} was accepted", shown, mine));
            sim.probe("cheat-refused");
        }
        1 => {
            // moves a revealed value by an amount that follows from the challenge
            if shown.is_empty() {
                return;
            }
            use ff_zeroize::Field;
            use pairing_plus::{bls12_381::{Fr, G1}, CurveProjective};
            let i = *sim.of(&shown.iter().copied().collect::<Vec<_>>());
            let pm = proof_messages(&msgs, &shown, None);
            let pok = sim.must("commit_signature_pok", || Prover::commit_signature_pok(&req, &pm, &s));
            let mut t = Fr::one();
            let by = 1 + sim.pick(5);
            for _ in 0..by {
                t.add_assign(&Fr::one());
            }
            // T2' = T2 + t.h_i
            let bytes = pok.to_bytes();
            let at = bytes.len() - 96;
            let t2 = GeneratorG1::try_from(&bytes[at..]).unwrap();
            let mut pt: G1 = *t2.as_ref();
            let mut h: G1 = *k.pk.h[i].as_ref();
            h.mul_assign(t);
            pt.add_assign(&h);
            let pt = GeneratorG1::from(pt).to_bytes_uncompressed_form();
            let mut b = bytes[..at].to_vec();
            b.extend_from_slice(&pt);
            b.extend_from_slice(&nonce.to_bytes_uncompressed_form()[..]);
            let c = ProofChallenge::hash(&b);
            let p = sim.must("generate_signature_pok", || Prover::generate_signature_pok(pok, &c));
            let mut q = p.proof.to_bytes_uncompressed_form();
            let l1 = 4 + 96 + 4 + 64;
            let o = 288 + l1;
            q[o..o + 96].copy_from_slice(&pt);
            let q = sim.must("PoKOfSignatureProof", || PoKOfSignatureProof::from_bytes_uncompressed_form(&q));
            // m_i' = m_i - t / c  (or +)
            let mut d = Fr::from_repr_of(&c);
            d = match d.inverse() {
                Some(x) => x,
                None => return,
            };
            d.mul_assign(&t);
            let mut m: Fr = *msgs[i].as_ref();
            if sim.coin() {
                m.add_assign(&d);
            } else {
                m.sub_assign(&d);
            }
            let fake = SignatureMessage::from(m);
            let mut rev = p.revealed_messages.clone();
            rev.insert(i, fake);
            sim.note_fault("byzantine.prover");
            let r = accepts(sim, &req, &SignatureProof { revealed_messages: rev, proof: q }, &nonce);
            sim.check(r.is_none(), "revealed-value-not-bound", || format!("the value {} shown for message {} was never signed but accepted", fake, i));
            sim.probe("cheat-refused");
        }
        _ => {
            // a signature made under a key of its own
            let o = keys(sim, n);
            let s2 = sim.must("sign", || Issuer::sign(&msgs, &o.sk, &o.pk));
            let mut rq = req.clone();
            rq.verification_key = o.pk.clone();
            let pm = proof_messages(&msgs, &shown, None);
            let pok = sim.must("commit_signature_pok", || Prover::commit_signature_pok(&rq, &pm, &s2));
            let pok2 = pok.clone();
            let p0 = sim.must("gen_proof", || pok2.gen_proof(&ProofChallenge::hash(b"x")));
            let mut b = p0.get_bytes_for_challenge(shown.clone(), &k.pk);
            b.extend_from_slice(&nonce.to_bytes_uncompressed_form()[..]);
            let c = ProofChallenge::hash(&b);
            let p = sim.must("generate_signature_pok", || Prover::generate_signature_pok(pok, &c));
            sim.note_fault("byzantine.prover");
            let r = accepts(sim, &req, &p, &nonce);
            sim.check(r.is_none(), "false-proof-accepted", || "a signature under another key was accepted".into());
            sim.probe("cheat-refused");
        }
    }
}
trait FromChallenge {
    fn from_repr_of(c: &ProofChallenge) -> Self;
}
impl FromChallenge for pairing_plus::bls12_381::Fr {
    fn from_repr_of(c: &ProofChallenge) -> Self {
        *c.as_ref()
    }
}
