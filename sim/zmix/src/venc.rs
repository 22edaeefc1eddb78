//! C21: verifiable encryption for an auditor's key (Camenisch-Shoup).
use crate::primes;
use serde::{Deserialize, Serialize};
use simcore::{entropy, ev, Net, NetCfg, Sim};
use zmix::verifiable_encryption::bn::BigNumber;
use zmix::verifiable_encryption::cl::hash::get_hash_as_int;
use zmix::verifiable_encryption::cs_verifiable_encryption::*;

fn bn(s: &str) -> BigNumber {
    BigNumber::from_dec(s).unwrap()
}
fn cp(b: &BigNumber) -> BigNumber {
    b.try_clone().unwrap()
}
fn cps(b: &[BigNumber]) -> Vec<BigNumber> {
    b.iter().map(cp).collect()
}
fn dup(c: &CSCiphertext) -> CSCiphertext {
    CSCiphertext { u: cp(&c.u), e: cps(&c.e), v: cp(&c.v) }
}
fn same(a: &CSCiphertext, b: &CSCiphertext) -> bool {
    a.u == b.u && a.v == b.v && a.e.len() == b.e.len() && a.e.iter().zip(&b.e).all(|(x, y)| x == y)
}
/// A uniform number with this many bits, drawn by the simulator.
fn bits(sim: &mut Sim, n: usize) -> BigNumber {
    let b = sim.bytes((n + 7) / 8);
    BigNumber::from_bytes(&b).unwrap()
}
fn message(sim: &mut Sim, n: &BigNumber) -> BigNumber {
    match sim.choose(7) {
        0 => bn("0"),
        1 => bn("1"),
        2 => n.decrement().unwrap(),
        3 => n.rshift1().unwrap(),
        4 => bits(sim, 256),
        _ => {
            let r = bits(sim, 4096);
            r.modulus(n, None).unwrap()
        }
    }
}
fn label(sim: &mut Sim) -> Vec<u8> {
    let l = *sim.of(&[0usize, 1, 5, 32, 200]);
    sim.bytes(l)
}

struct Auditor {
    pk: CSEncPubkey,
    sk: CSEncPrikey,
    k: usize,
}
fn auditor(sim: &mut Sim) -> Auditor {
    let full = sim.chance(40);
    primes::small(!full);
    let k = 1 + sim.pick(if full { 2 } else { 5 });
    let kp = sim.must("CSKeypair::new", || CSKeypair::new(k));
    sim.probe(if full { "full-size-key" } else { "small-key" });
    let (mut pk, mut sk) = (kp.pub_key, kp.pri_key);
    if sim.coin() {
        sim.note_fault("restart-auditor");
        pk = crate::ps::json(sim, "public key", &pk);
        sk = crate::ps::json(sim, "secret key", &sk);
    }
    Auditor { pk, sk, k }
}

#[derive(Serialize, Deserialize)]
struct Shown {
    c: CSCiphertext,
    label: Vec<u8>,
    nonce: Vec<u8>,
    challenge: BigNumber,
    s: Vec<BigNumber>,
    r_hat: BigNumber,
}
fn dup_shown(s: &Shown) -> Shown {
    Shown { c: dup(&s.c), label: s.label.clone(), nonce: s.nonce.clone(), challenge: cp(&s.challenge), s: cps(&s.s), r_hat: cp(&s.r_hat) }
}
/// The challenge both sides compute, over everything the prover committed to.
fn challenge(c: &CSCiphertext, t: &CSCiphertext, label: &[u8], nonce: &[u8]) -> BigNumber {
    let mut v = vec![];
    for x in [c, t] {
        v.push((x.e.len() as u32).to_be_bytes().to_vec());
        for y in [&x.u, &x.v].iter().copied().chain(x.e.iter()) {
            let d = y.to_dec().unwrap();
            v.push((d.len() as u32).to_be_bytes().to_vec());
            v.push(d.into_bytes());
        }
    }
    v.push((label.len() as u32).to_be_bytes().to_vec());
    v.push(label.to_vec());
    v.push(nonce.to_vec());
    get_hash_as_int(&v).unwrap()
}
fn verify(sim: &mut Sim, a: &CSEncPubkey, p: &Shown, what: &'static str) -> Result<(), String> {
    match sim.no_panic(what, || reconstruct_blindings_ciphertext(&p.c, &p.s, &p.r_hat, &p.challenge, &p.label, a)) {
        Ok(t) => {
            if challenge(&p.c, &t, &p.label, &p.nonce) == p.challenge {
                Ok(())
            } else {
                Err("another challenge".into())
            }
        }
        Err(e) => Err(format!("{}", e)),
    }
}
fn opened(sim: &mut Sim, a: &Auditor, c: &CSCiphertext, label: &[u8]) -> Result<Vec<BigNumber>, String> {
    sim.no_panic("decrypt", || decrypt(label, c, &a.pk, &a.sk)).map_err(|e| format!("{}", e))
}

struct Holder {
    msgs: Vec<BigNumber>,
    blind: Vec<BigNumber>,
    label: Vec<u8>,
    c: CSCiphertext,
    t: CSCiphertext,
    r: BigNumber,
    r_tilde: BigNumber,
    accepted: bool,
}
fn holder(sim: &mut Sim, a: &Auditor) -> Holder {
    let n = if sim.chance(400) { a.k } else { sim.pick(a.k + 1) };
    let msgs: Vec<BigNumber> = (0..n).map(|_| message(sim, &a.pk.n)).collect();
    let blind: Vec<BigNumber> = (0..n)
        .map(|_| {
            let l = *sim.of(&[592usize, 256, 1000, 4096]);
            bits(sim, l)
        })
        .collect();
    let label = label(sim);
    let (c, t, r, r_tilde) = sim.must("encrypt_and_prove_phase_1", || encrypt_and_prove_phase_1(&msgs, &blind, &label, &a.pk));
    ev!(sim, "holder encrypts {} of {} messages", n, a.k);
    sim.absorb(c.u.to_dec().unwrap().as_bytes());
    Holder { msgs, blind, label, c, t, r, r_tilde, accepted: false }
}
/// Second phase, for a given challenge.
fn respond(sim: &mut Sim, a: &Auditor, h: &Holder, chal: &BigNumber) -> (BigNumber, Vec<BigNumber>) {
    let r_hat = sim.must("encrypt_and_prove_phase_2", || encrypt_and_prove_phase_2(&h.r, &h.r_tilde, chal, &a.pk, None));
    let s = (0..h.msgs.len()).map(|i| h.blind[i].sub(&h.msgs[i].mul(chal, None).unwrap()).unwrap()).collect();
    (r_hat, s)
}
fn show(sim: &mut Sim, a: &Auditor, h: &mut Holder, nonce: &[u8]) -> Shown {
    if sim.chance(300) {
        sim.note_fault("restart-prover");
        let l = crate::ps::json(sim, "prover state", &(cp(&h.r).to_dec().unwrap(), cp(&h.r_tilde).to_dec().unwrap()));
        h.r = bn(&l.0);
        h.r_tilde = bn(&l.1);
        h.c = crate::ps::json(sim, "ciphertext", &h.c);
        h.t = crate::ps::json(sim, "commitments", &h.t);
    }
    let chal = challenge(&h.c, &h.t, &h.label, nonce);
    let (r_hat, s) = respond(sim, a, h, &chal);
    Shown { c: dup(&h.c), label: h.label.clone(), nonce: nonce.to_vec(), challenge: chal, s, r_hat }
}

fn bump(sim: &mut Sim, b: &BigNumber, big: &[&BigNumber]) -> BigNumber {
    loop {
        let x = match sim.choose(8) {
            0 => b.increment().unwrap(),
            1 => b.set_negative(!b.is_negative()).unwrap(),
            2 => bn("0"),
            3 => bn("1"),
            4 => {
                let m = *sim.of(big);
                m.sub(b).unwrap()
            }
            5 => {
                let m = *sim.of(big);
                b.add(m).unwrap()
            }
            6 => b.lshift1().unwrap(),
            _ => bits(sim, 700),
        };
        if x != *b {
            return x;
        }
    }
}
/// Alters a ciphertext or its label; returns what was done.
fn alter(sim: &mut Sim, c: &mut CSCiphertext, label: &mut Vec<u8>, a: &Auditor, other: &Holder) -> String {
    loop {
        let before = (dup(c), label.clone());
        let big = [&a.pk.paillier_group.modulus, &a.pk.n];
        let d = match sim.choose(9) {
            0 => {
                c.u = bump(sim, &c.u, &big);
                "u".to_string()
            }
            1 => {
                c.v = bump(sim, &c.v, &big);
                "v".into()
            }
            2 if !c.e.is_empty() => {
                let i = sim.pick(c.e.len());
                c.e[i] = bump(sim, &c.e[i], &big);
                format!("e[{}]", i)
            }
            3 => {
                simcore::mutate::mutate_bytes(sim, label);
                "label".into()
            }
            4 if !c.e.is_empty() => {
                // the boundary between the last encrypted message and the label
                let e = c.e.pop().unwrap();
                let mut l = e.to_bytes().unwrap();
                l.extend_from_slice(label);
                *label = l;
                "label swallows e".into()
            }
            5 if !c.e.is_empty() => {
                let i = sim.pick(c.e.len());
                c.e.remove(i);
                "e dropped".into()
            }
            6 => {
                let x = if !other.c.e.is_empty() && sim.coin() { cp(&other.c.e[0]) } else { bn("1") };
                c.e.push(x);
                "e added".into()
            }
            7 if c.e.len() > 1 => {
                let i = sim.pick(c.e.len() - 1);
                c.e.swap(i, i + 1);
                "e swapped".into()
            }
            _ => match sim.choose(5) {
                0 => {
                    c.u = cp(&other.c.u);
                    "u of another session".into()
                }
                1 => {
                    c.v = cp(&other.c.v);
                    "v of another session".into()
                }
                2 => {
                    c.e = cps(&other.c.e);
                    "e of another session".into()
                }
                3 => {
                    *label = other.label.clone();
                    "label of another session".into()
                }
                _ => {
                    if let (Some(x), false) = (other.c.e.first(), c.e.is_empty()) {
                        let i = sim.pick(c.e.len());
                        c.e[i] = cp(x);
                    }
                    "e[0] of another session".into()
                }
            },
        };
        if !(same(&before.0, c) && before.1 == *label) {
            return d;
        }
    }
}

/// An altered ciphertext does not open.
fn tampered_open(sim: &mut Sim, a: &Auditor, h: &Holder, other: &Holder) {
    let mut c = dup(&h.c);
    let mut l = h.label.clone();
    let d = alter(sim, &mut c, &mut l, a, other);
    if let Ok(m) = opened(sim, a, &c, &l) {
        sim.violate(
            "altered-ciphertext-opens",
            format!("with {} altered a ciphertext of {} messages still opens, to {} messages", d, h.msgs.len(), m.len()),
        );
    }
    sim.probe("altered-ciphertext-refused");
}

/// An altered proof does not verify.
fn tampered_show(sim: &mut Sim, a: &Auditor, h: &Holder, p: &Shown, other: &Holder, q: Option<&Shown>) {
    let mut x = dup_shown(p);
    let n = &a.pk.n;
    let mut what = 0;
    let d = match sim.choose(9) {
        0 | 1 => alter(sim, &mut x.c, &mut x.label, a, other),
        2 => {
            x.r_hat = bump(sim, &x.r_hat, &[n]);
            "r_hat".into()
        }
        3 if !x.s.is_empty() => {
            let i = sim.pick(x.s.len());
            // adding the order of h changes nothing: the message is the same modulo n
            x.s[i] = match sim.choose(3) {
                0 => x.s[i].increment().unwrap(),
                1 if x.s[i].modulus(n, None).unwrap() != bn("0") => x.s[i].set_negative(!x.s[i].is_negative()).unwrap(),
                _ => bits(sim, 300),
            };
            if x.s[i].sub(&p.s[i]).unwrap().modulus(n, None).unwrap() == bn("0") {
                return;
            }
            format!("s[{}]", i)
        }
        4 if !x.s.is_empty() => {
            x.s.pop();
            "fewer s".into()
        }
        5 => {
            x.s.push(bn("1"));
            "more s".into()
        }
        6 => {
            x.challenge = bump(sim, &x.challenge, &[n]);
            "challenge".into()
        }
        7 => {
            if simcore::mutate::mutate_bytes(sim, &mut x.nonce).is_none() {
                return;
            }
            "nonce".into()
        }
        _ => match q {
            Some(q) => {
                let y = dup_shown(q);
                what = sim.choose(4);
                match what {
                    0 => x.r_hat = y.r_hat,
                    1 => x.challenge = y.challenge,
                    2 => {
                        x.c = y.c;
                        x.label = y.label;
                    }
                    _ => {
                        if x.s.is_empty() && y.s.is_empty() {
                            return;
                        }
                        x.s = y.s;
                    }
                }
                format!("part {} taken from another proof", what)
            }
            None => return,
        },
    };
    let ok = verify(sim, &a.pk, &x, "reconstruct_blindings_ciphertext");
    sim.check(ok.is_err(), "altered-proof-accepted", || format!("with {} altered a proof over {} messages is accepted", d, h.msgs.len()));
    sim.probe("altered-proof-refused");
}

/// A prover who commits to a wrong ciphertext from the start: whatever verifies must open to the
/// messages the answers speak for.
fn cheat(sim: &mut Sim, a: &Auditor, h: &Holder, other: &Holder, nonce: &[u8]) {
    let mut c = dup(&h.c);
    let mut l = h.label.clone();
    let d = alter(sim, &mut c, &mut l, a, other);
    // half of the time the commitments are honest ones for the altered ciphertext's hash
    let mut t = dup(&h.t);
    while t.e.len() > c.e.len() {
        t.e.pop();
    }
    while t.e.len() < c.e.len() && sim.coin() {
        t.e.push(bn("1"));
    }
    let chal = challenge(&c, &t, &l, nonce);
    let (r_hat, mut s) = respond(sim, a, h, &chal);
    s.truncate(t.e.len());
    while s.len() < t.e.len() {
        s.push(bn("0"));
    }
    let x = Shown { c, label: l, nonce: nonce.to_vec(), challenge: chal, s, r_hat };
    if verify(sim, &a.pk, &x, "reconstruct_blindings_ciphertext").is_ok() {
        let o = opened(sim, a, &x.c, &x.label);
        let good = matches!(&o, Ok(m) if m.len() == h.msgs.len() && m.iter().zip(&h.msgs).all(|(x, y)| x == y));
        sim.check(good, "verified-but-does-not-open", || {
            format!("a ciphertext with {} altered verifies, but opens to {:?}", d, o.map(|m| m.len()))
        });
    }
    sim.probe("cheating-prover");
}

pub fn sessions(sim: &mut Sim) {
    let a = auditor(sim);
    let n = 2 + sim.pick(2);
    let mut hs: Vec<Holder> = (0..n).map(|_| holder(sim, &a)).collect();
    let nonces: Vec<Vec<u8>> = (0..n).map(|_| sim.bytes(16)).collect();
    let cfg = NetCfg::swarm(sim, true);
    let mut net = Net::new(cfg);
    let mut seen: Vec<Shown> = vec![];
    let mut steps = 0;
    while steps < 20 && !hs.iter().all(|h| h.accepted) {
        steps += 1;
        if steps == 12 {
            net.heal();
        }
        let msg = match net.next(sim) {
            Some(m) => m,
            None => {
                for i in 0..n {
                    if !hs[i].accepted {
                        let p = show(sim, &a, &mut hs[i], &nonces[i]);
                        let b = serde_json::to_vec(&p).unwrap();
                        net.send(sim, i + 1, 0, "shown", b);
                    }
                }
                continue;
            }
        };
        let i = msg.from - 1;
        let p: Shown = match serde_json::from_slice(&msg.body) {
            Ok(p) => p,
            Err(e) => {
                sim.check(msg.tampered, "unreadable", || format!("what a prover sent is unreadable: {}", e));
                continue;
            }
        };
        // the verifier knows the nonce it gave out, and the label
        let whole = p.nonce == nonces[i] && p.label == hs[i].label;
        let ok = whole && verify(sim, &a.pk, &p, "reconstruct_blindings_ciphertext").is_ok();
        if !msg.tampered {
            sim.check(ok, "honest-proof-refused", || format!("an honest proof over {} of {} messages is refused", hs[i].msgs.len(), a.k));
        }
        if !ok {
            sim.probe("damaged-proof-refused");
            continue;
        }
        if hs[i].accepted {
            sim.probe("repeated-proof");
            continue;
        }
        hs[i].accepted = true;
        let o = opened(sim, &a, &p.c, &p.label);
        let good = matches!(&o, Ok(m) if m.len() == hs[i].msgs.len() && m.iter().zip(&hs[i].msgs).all(|(x, y)| x == y));
        sim.check(good, "opens-to-other", || format!("an accepted ciphertext opens to {:?}", o.map(|m| m.iter().map(|x| x.to_dec().unwrap()).collect::<Vec<_>>())));
        sim.probe("session-completed");
        let j = (i + 1) % n;
        tampered_open(sim, &a, &hs[i], &hs[j]);
        for _ in 0..3 {
            let q = seen.last();
            tampered_show(sim, &a, &hs[i], &p, &hs[j], q);
        }
        cheat(sim, &a, &hs[i], &hs[j], &nonces[i]);
        seen.push(p);
    }
    sim.check(hs.iter().all(|h| h.accepted), "stuck", || "a session did not finish after the network healed".into());
    // for another auditor's key
    if sim.chance(300) {
        let b = auditor(sim);
        let h = &hs[0];
        let p = &seen[0];
        if b.pk.n != a.pk.n && !h.msgs.is_empty() {
            let o = sim.no_panic("decrypt", || decrypt(&h.label, &h.c, &b.pk, &b.sk));
            sim.check(o.is_err(), "opens-with-other-key", || "a ciphertext opens under another auditor's key".into());
            let ok = verify(sim, &b.pk, p, "reconstruct_blindings_ciphertext");
            sim.check(ok.is_err(), "verifies-for-other-key", || "a proof verifies for another auditor's key".into());
            sim.probe("other-key");
        }
    }
}

/// A challenge chosen by the verifier, after the commitments arrived.
pub fn interactive(sim: &mut Sim) {
    let a = auditor(sim);
    let h = holder(sim, &a);
    let chal = match sim.choose(5) {
        0 => bn("0"),
        1 => bn("1"),
        2 => a.pk.n.decrement().unwrap(),
        3 => bits(sim, 256),
        _ => bits(sim, 4096).modulus(&a.pk.n, None).unwrap(),
    };
    let (r_hat, s) = respond(sim, &a, &h, &chal);
    let t = sim.must("reconstruct_blindings_ciphertext", || reconstruct_blindings_ciphertext(&h.c, &s, &r_hat, &chal, &h.label, &a.pk));
    sim.check(same(&t, &h.t), "honest-proof-refused", || format!("with challenge {} other commitments are reconstructed", chal.to_dec().unwrap()));
    // the answers for one challenge do not fit another
    let c2 = chal.add(&bits(sim, 200).increment().unwrap()).unwrap();
    let t2 = sim.must("reconstruct_blindings_ciphertext", || reconstruct_blindings_ciphertext(&h.c, &s, &r_hat, &c2, &h.label, &a.pk));
    sim.check(t2.u != h.t.u && t2.v != h.t.v, "challenge-not-bound", || "the answers for one challenge fit another".into());
    sim.probe("interactive-proof");
    // plain encryption of the same messages
    let c = sim.must("encrypt", || encrypt(&h.msgs, &h.label, &a.pk));
    let o = opened(sim, &a, &c, &h.label);
    let good = matches!(&o, Ok(m) if m.len() == h.msgs.len() && m.iter().zip(&h.msgs).all(|(x, y)| x == y));
    sim.check(good, "opens-to-other", || "a plain ciphertext does not open to its messages".into());
    sim.check(c.u != h.c.u && c.v != h.c.v, "ciphertext-repeats", || "two encryptions are the same".into());
    tampered_open(sim, &a, &h, &Holder { c: dup(&c), msgs: vec![], blind: vec![], label: h.label.clone(), t: dup(&h.t), r: cp(&h.r), r_tilde: cp(&h.r_tilde), accepted: false });
}

/// Wrong shapes, values out of range, and a failing randomness source.
pub fn malformed(sim: &mut Sim) {
    let a = auditor(sim);
    let h = holder(sim, &a);
    let n = h.msgs.len();
    for _ in 0..4 {
        match sim.choose(7) {
            0 => {
                // too many messages
                let k = a.k + 1 + sim.pick(3);
                let m: Vec<BigNumber> = (0..k).map(|_| bn("5")).collect();
                sim.must_err("encrypting too many messages", || encrypt(&m, &h.label, &a.pk));
                sim.must_err("proving too many messages", || encrypt_and_prove_phase_1(&m, &m, &h.label, &a.pk));
                let mut c = dup(&h.c);
                while c.e.len() < k {
                    c.e.push(bn("1"));
                }
                sim.must_err("opening too many messages", || decrypt(&h.label, &c, &a.pk, &a.sk));
                sim.must_err("verifying too many messages", || reconstruct_blindings_ciphertext(&c, &m, &h.r, &h.r, &h.label, &a.pk));
                sim.probe("too-many-refused");
            }
            1 => {
                let mut b = cps(&h.blind);
                if !b.is_empty() && sim.coin() {
                    b.pop();
                } else {
                    b.push(bn("7"));
                }
                sim.must_err("proving with another number of blindings", || encrypt_and_prove_phase_1(&h.msgs, &b, &h.label, &a.pk));
                sim.probe("blindings-refused");
            }
            2 => {
                let mut s: Vec<BigNumber> = (0..n).map(|_| bn("3")).collect();
                let k = sim.pick(a.k + 2);
                s.resize_with(k, || bn("3"));
                let r = sim.no_panic("reconstruct_blindings_ciphertext", || reconstruct_blindings_ciphertext(&h.c, &s, &h.r, &h.r, &h.label, &a.pk));
                sim.check(r.is_err() || k == n, "wrong-shape-accepted", || format!("{} answers for {} encrypted messages are processed", k, n));
                sim.probe("answers-counted");
            }
            3 => {
                // a message the key cannot carry is not silently turned into another
                let m = match sim.choose(4) {
                    0 => cp(&a.pk.n),
                    1 => a.pk.n.increment().unwrap(),
                    2 => bn("-5"),
                    _ => bits(sim, 5000).add(&a.pk.paillier_group.modulus).unwrap(),
                };
                let mut ms = cps(&h.msgs);
                if ms.is_empty() {
                    ms.push(m);
                } else {
                    let i = sim.pick(ms.len());
                    ms[i] = m;
                }
                let bl: Vec<BigNumber> = ms.iter().map(|_| bn("11")).collect();
                let c = if sim.coin() {
                    sim.no_panic("encrypt", || encrypt(&ms, &h.label, &a.pk)).ok()
                } else {
                    sim.no_panic("encrypt_and_prove_phase_1", || encrypt_and_prove_phase_1(&ms, &bl, &h.label, &a.pk)).ok().map(|x| x.0)
                };
                if let Some(c) = c {
                    let o = opened(sim, &a, &c, &h.label);
                    let good = matches!(&o, Ok(m) if m.iter().zip(&ms).all(|(x, y)| x == y));
                    sim.check(good, "opens-to-other", || "a message out of range was encrypted and opens to another".into());
                }
                sim.probe("out-of-range-message");
            }
            4 => {
                // the randomness source fails while encrypting: no answer, or a sound one
                let at = if sim.coin() { 0 } else { sim.choose(4) };
                sim.note_fault("entropy-failure");
                entropy::fail_after(at);
                let r = sim.no_panic("encrypt", || encrypt(&h.msgs, &h.label, &a.pk));
                let r2 = sim.no_panic("encrypt_and_prove_phase_1", || encrypt_and_prove_phase_1(&h.msgs, &h.blind, &h.label, &a.pk));
                entropy::heal();
                sim.check(at > 0 || (r.is_err() && r2.is_err()), "starved-encryption", || "an encryption succeeded without randomness".into());
                if let Ok(c) = r {
                    let o = opened(sim, &a, &c, &h.label);
                    sim.check(matches!(&o, Ok(m) if m.iter().zip(&h.msgs).all(|(x, y)| x == y)), "opens-to-other", || "a ciphertext made as randomness ran out opens to something else".into());
                }
                sim.probe("starved");
            }
            5 => {
                sim.must_err("a key for no messages", || CSKeypair::new(0));
                sim.probe("empty-key-refused");
            }
            _ => {
                // any field of any object damaged at rest
                let mut pk = serde_json::to_value(&a.pk).unwrap();
                let mut sk = serde_json::to_value(&a.sk).unwrap();
                let mut c = serde_json::to_value(&h.c).unwrap();
                let t = match sim.choose(3) {
                    0 => &mut pk,
                    1 => &mut sk,
                    _ => &mut c,
                };
                let ls = simcore::mutate::leaves(t);
                if ls.is_empty() {
                    continue;
                }
                let p = ls[sim.pick(ls.len())].clone();
                if sim.chance(250) {
                    simcore::mutate::remove(t, &p);
                } else if let Some(x) = simcore::mutate::get_mut(t, &p) {
                    simcore::mutate::mutate_scalar(sim, x);
                }
                sim.note_fault("damaged-at-rest");
                let pk = sim.no_panic("reading a key", || serde_json::from_value::<CSEncPubkey>(pk));
                let sk = sim.no_panic("reading a key", || serde_json::from_value::<CSEncPrikey>(sk));
                let c = sim.no_panic("reading a ciphertext", || serde_json::from_value::<CSCiphertext>(c));
                if let (Ok(pk), Ok(sk), Ok(c)) = (pk, sk, c) {
                    let _ = sim.no_panic("decrypt", || decrypt(&h.label, &c, &pk, &sk));
                    let _ = sim.no_panic("encrypt", || encrypt(&h.msgs, &h.label, &pk));
                    let x = sim.no_panic("encrypt_and_prove_phase_1", || encrypt_and_prove_phase_1(&h.msgs, &h.blind, &h.label, &pk));
                    if let Ok((_, _, r, rt)) = x {
                        let _ = sim.no_panic("encrypt_and_prove_phase_2", || encrypt_and_prove_phase_2(&r, &rt, &bn("9"), &pk, None));
                    }
                    let _ = sim.no_panic("reconstruct_blindings_ciphertext", || reconstruct_blindings_ciphertext(&c, &h.msgs, &h.r, &bn("9"), &h.label, &pk));
                    sim.probe("damaged-object-used");
                } else {
                    sim.probe("damaged-object-refused");
                }
            }
        }
    }
}
