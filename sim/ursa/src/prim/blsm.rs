//! C15: multi-signatures, over BN254 (`ursa::bls`) and BLS12-381 (`ursa::signatures::bls`).
use simcore::{ev, mutate, Net, NetCfg, Sim};
use std::collections::BTreeMap;
use ursa::bls::{Bls, Generator, MultiSignature, ProofOfPossession, SignKey, Signature, VerKey};
use ursa::pair::{PointG1, PointG2};

/// What a signature stands for: who signed what, how often.
type Value = BTreeMap<(usize, Vec<u8>), i64>;

fn accepts<E: std::fmt::Debug>(sim: &mut Sim, what: &str, f: impl FnOnce() -> Result<bool, E>) -> bool {
    match sim.no_panic(what, f) {
        Ok(b) => b,
        Err(_) => false,
    }
}
fn agree(sim: &mut Sim, got: bool, want: bool, class: &str, detail: impl FnOnce() -> String) {
    sim.check(got == want, &format!("{}-{}", class, if want { "refused" } else { "accepted" }), detail);
}

const ORDER_HEX: &str = "2523648240000001BA344D8000000007FF9F800000000010A10000000000000D";

fn is_zero(b: &[u8]) -> bool {
    use openssl::bn::{BigNum, BigNumContext};
    let mut r = BigNum::new().unwrap();
    let mut c = BigNumContext::new().unwrap();
    r.nnmod(&BigNum::from_slice(b).unwrap(), &BigNum::from_hex_str(ORDER_HEX).unwrap(), &mut c).unwrap();
    r.num_bits() == 0
}

/// A point of the twist that is not in the prime-order group, from amcl itself.
fn bn_torsion(sim: &mut Sim) -> Option<PointG2> {
    use amcl::bn254::{big::BIG, ecp2::ECP2, fp2::FP2};
    for _ in 0..20 {
        let a = 1 + sim.choose(1 << 30) as isize;
        let b = sim.choose(1 << 30) as isize;
        let p = ECP2::new_fp2(&FP2::new_bigs(&BIG::new_int(a), &BIG::new_int(b)));
        if p.is_infinity() {
            continue;
        }
        let mut t = p.mul(&BIG::from_hex(ORDER_HEX.into()));
        if t.is_infinity() {
            continue;
        }
        let mut v = vec![0u8; 128];
        t.tobytes(&mut v);
        // build it the way the library will read it
        let t = PointG2::from_string(&t.to_hex()).ok();
        if t.is_some() {
            sim.probe("twist-torsion");
        }
        return t;
    }
    None
}

struct Val {
    sk_disk: Vec<u8>,
    vk: Vec<u8>,
    pop: Vec<u8>,
    id: usize,
}

fn load_sk(sim: &mut Sim, b: &[u8]) -> SignKey {
    sim.must("SignKey::from_bytes", || SignKey::from_bytes(b))
}

fn g1(b: &[u8]) -> PointG1 {
    PointG1::from_bytes(b).expect("genuine point")
}
fn g2(b: &[u8]) -> PointG2 {
    PointG2::from_bytes(b).expect("genuine point")
}

/// Some other bytes that claim to be a G1 point.
fn alter_g1(sim: &mut Sim, b: &[u8]) -> (Vec<u8>, String) {
    let p = g1(b);
    match sim.choose(8) {
        0 => (p.neg().unwrap().to_bytes().unwrap(), "negated".into()),
        1 => (PointG1::new_inf().unwrap().to_bytes().unwrap(), "point at infinity".into()),
        2 => (p.add(&p).unwrap().to_bytes().unwrap(), "doubled".into()),
        3 => (p.add(&PointG1::new().unwrap()).unwrap().to_bytes().unwrap(), "random point added".into()),
        4 => (vec![0; b.len()], "zeros".into()),
        _ => {
            let mut v = b.to_vec();
            match mutate::mutate_bytes(sim, &mut v) {
                Some(d) => (v, d),
                None => (vec![], "emptied".into()),
            }
        }
    }
}
fn alter_g2(sim: &mut Sim, b: &[u8]) -> (Vec<u8>, String) {
    let p = g2(b);
    match sim.choose(9) {
        0 => (p.neg().unwrap().to_bytes().unwrap(), "negated".into()),
        1 => (PointG2::new_inf().unwrap().to_bytes().unwrap(), "point at infinity".into()),
        2 => (p.add(&p).unwrap().to_bytes().unwrap(), "doubled".into()),
        3 => (p.add(&PointG2::new().unwrap()).unwrap().to_bytes().unwrap(), "random point added".into()),
        4 => (vec![0; b.len()], "zeros".into()),
        5 | 6 => match bn_torsion(sim) {
            Some(t) => (p.add(&t).unwrap().to_bytes().unwrap(), "torsion point added".into()),
            None => (vec![], "emptied".into()),
        },
        _ => {
            let mut v = b.to_vec();
            match mutate::mutate_bytes(sim, &mut v) {
                Some(d) => (v, d),
                None => (vec![], "emptied".into()),
            }
        }
    }
}

/// Validators register keys, sign rounds of proposals and a collector aggregates.
pub fn quorum(sim: &mut Sim) {
    let gen = sim.must("Generator::new", Generator::new);
    let gen = if sim.coin() {
        let b = gen.as_bytes().to_vec();
        sim.must("Generator::from_bytes", || Generator::from_bytes(&b))
    } else {
        gen
    };
    let n = 1 + sim.pick(5);
    let mut vals: Vec<Val> = vec![];
    for id in 0..n {
        let seed = if sim.coin() { Some(sim.bytes(32)) } else { None };
        let sk = sim.must("SignKey::new", || SignKey::new(seed.as_deref()));
        if let Some(s) = &seed {
            let again = sim.must("SignKey::new", || SignKey::new(Some(s)));
            sim.check(again.as_bytes() == sk.as_bytes(), "seed", || "the same seed gave two keys".into());
        }
        let vk = sim.must("VerKey::new", || VerKey::new(&gen, &sk));
        let pop = sim.must("ProofOfPossession::new", || ProofOfPossession::new(&vk, &sk));
        let again = sim.must("VerKey::new", || VerKey::new(&gen, &sk));
        sim.check(again.as_bytes() == vk.as_bytes(), "verkey", || "the same key gave two verification keys".into());
        vals.push(Val { sk_disk: sk.as_bytes().to_vec(), vk: vk.as_bytes().to_vec(), pop: pop.as_bytes().to_vec(), id });
    }
    let distinct: std::collections::BTreeSet<_> = vals.iter().map(|v| v.vk.clone()).collect();
    sim.check(distinct.len() == n, "keys-repeat", || "two validators have the same key".into());
    ev!(sim, "{} validators", n);

    // registration, over a network that loses, repeats, reorders and corrupts
    let mut net = Net::new(NetCfg::swarm(sim, true));
    let mut reg: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    for v in &vals {
        net.send(sim, v.id, 100, "key", [v.vk.clone(), v.pop.clone()].concat());
    }
    let mut rounds_left = 3;
    loop {
        while let Some(m) = net.next(sim) {
            let (a, b) = m.body.split_at(128);
            let vk = sim.no_panic("VerKey::from_bytes", || VerKey::from_bytes(a));
            let pop = sim.no_panic("ProofOfPossession::from_bytes", || ProofOfPossession::from_bytes(b));
            let ok = match (&vk, &pop) {
                (Ok(vk), Ok(pop)) => accepts(sim, "verify_proof_of_posession", || Bls::verify_proof_of_posession(pop, vk, &gen)),
                _ => false,
            };
            agree(sim, ok, !m.tampered, "possession", || format!("proof of possession, tampered: {}", m.tampered));
            if ok {
                reg.insert(m.from, a.to_vec());
            }
        }
        if reg.len() == n {
            break;
        }
        if rounds_left == 0 {
            net.heal();
        }
        rounds_left -= 1;
        for v in &vals {
            if !reg.contains_key(&v.id) {
                net.send(sim, v.id, 100, "key", [v.vk.clone(), v.pop.clone()].concat());
            }
        }
    }
    // someone registers a key that cancels the others, or someone else's key
    if sim.chance(400) {
        let s = sim.must("SignKey::new", || SignKey::new(None));
        let mine = sim.must("VerKey::new", || VerKey::new(&gen, &s));
        let mut rogue = g2(mine.as_bytes());
        for v in &vals {
            rogue = rogue.sub(&g2(&v.vk)).unwrap();
        }
        let rvk = sim.must("VerKey::from_bytes", || VerKey::from_bytes(&rogue.to_bytes().unwrap()));
        let my_pop = sim.must("pop", || ProofOfPossession::new(&mine, &s));
        let for_rogue = sim.must("pop", || ProofOfPossession::new(&rvk, &s));
        // proofs are not signatures and signatures are not proofs
        let sig_over_key = sim.must("sign", || Bls::sign(rvk.as_bytes(), &s));
        let k = sim.pick(n);
        let mut forged = g1(for_rogue.as_bytes());
        for v in &vals {
            let p = g1(&v.pop);
            forged = forged.sub(&p).unwrap();
        }
        let tries: Vec<(&str, Vec<u8>)> = vec![
            ("own proof", my_pop.as_bytes().to_vec()),
            ("proof with own key over the other key", for_rogue.as_bytes().to_vec()),
            ("signature over the key", sig_over_key.as_bytes().to_vec()),
            ("another's proof", vals[k].pop.clone()),
            ("combination of proofs", forged.to_bytes().unwrap()),
            ("infinity", PointG1::new_inf().unwrap().to_bytes().unwrap()),
        ];
        sim.note_fault("byzantine.rogue-key");
        let t = sim.pick(tries.len());
        let p = sim.no_panic("ProofOfPossession::from_bytes", || ProofOfPossession::from_bytes(&tries[t].1));
        if let Ok(p) = p {
            let ok = accepts(sim, "verify_proof_of_posession", || Bls::verify_proof_of_posession(&p, &rvk, &gen));
            sim.check(!ok, "rogue-key", || format!("a key whose owner does not know its secret was accepted with {}", tries[t].0));
            // and somebody else's key with my proof
            let ok = match VerKey::from_bytes(&vals[k].vk) {
                Ok(vk) if tries[t].0 != "another's proof" => accepts(sim, "pop", || Bls::verify_proof_of_posession(&p, &vk, &gen)),
                _ => false,
            };
            sim.check(!ok, "rogue-key", || format!("another's key was accepted with {}", tries[t].0));
        }
        let own_signature = sim.must("sign", || Bls::sign(mine.as_bytes(), &s));
        let op = sim.no_panic("from_bytes", || ProofOfPossession::from_bytes(own_signature.as_bytes()));
        if let Ok(op) = op {
            let ok = accepts(sim, "pop", || Bls::verify_proof_of_posession(&op, &mine, &gen));
            sim.check(!ok, "possession-accepted", || "an ordinary signature over the key passed as proof of possession".into());
        }
        sim.probe("rogue");
    }
    // infinity as a key
    if sim.chance(150) {
        let inf = PointG2::new_inf().unwrap().to_bytes().unwrap();
        let s = PointG1::new_inf().unwrap().to_bytes().unwrap();
        let msg = sim.bytes(3);
        let vk = sim.no_panic("VerKey::from_bytes", || VerKey::from_bytes(&inf));
        let sg = sim.no_panic("Signature::from_bytes", || Signature::from_bytes(&s));
        let pp = sim.no_panic("ProofOfPossession::from_bytes", || ProofOfPossession::from_bytes(&s));
        if let (Ok(vk), Ok(sg)) = (&vk, &sg) {
            let ok = accepts(sim, "verify", || Bls::verify(sg, &msg, vk, &gen));
            sim.check(!ok, "neutral-key", || "the neutral signature verifies for any message under the neutral key".into());
        }
        if let (Ok(vk), Ok(pp)) = (&vk, &pp) {
            let ok = accepts(sim, "pop", || Bls::verify_proof_of_posession(pp, vk, &gen));
            sim.check(!ok, "neutral-key", || "the neutral key was accepted with a neutral proof of possession".into());
        }
        let ms = sim.no_panic("MultiSignature::new", || MultiSignature::new(&[]));
        if let Ok(ms) = ms {
            let ok = accepts(sim, "verify_multi_sig", || Bls::verify_multi_sig(&ms, &msg, &[], &gen));
            sim.check(!ok, "nobody-signed", || "a multi-signature of nobody verifies for any message".into());
        }
        sim.probe("neutral");
    }

    // rounds of signing
    let vks: Vec<VerKey> = reg.values().map(|b| VerKey::from_bytes(b).unwrap()).collect();
    let rounds = 1 + sim.pick(2);
    let mut msgs: Vec<Vec<u8>> = vec![];
    for _ in 0..rounds {
        let len = *sim.of(&[0usize, 1, 5, 31, 32, 33, 100, 1000]);
        let m = if !msgs.is_empty() && sim.chance(100) { msgs[0].clone() } else { sim.bytes(len) };
        msgs.push(m);
    }
    let mut got: Vec<(usize, usize, Vec<u8>)> = vec![]; // signer, round, signature
    let mut net = Net::new(NetCfg::swarm(sim, true));
    let cast = |sim: &mut Sim, net: &mut Net, v: &Val, r: usize| {
        let sk = load_sk(sim, &v.sk_disk); // the process may have restarted
        let s = sim.must("sign", || Bls::sign(&msgs[r], &sk));
        net.send(sim, v.id, 100, if r == 0 { "vote0" } else { "vote1" }, s.as_bytes().to_vec());
    };
    for r in 0..rounds {
        for v in &vals {
            if sim.chance(850) {
                cast(sim, &mut net, v, r);
            }
        }
    }
    while let Some(m) = net.next(sim) {
        let r = if m.kind == "vote0" { 0 } else { 1 };
        let sg = sim.no_panic("Signature::from_bytes", || Signature::from_bytes(&m.body));
        // the collector checks it for the claimed sender, and sometimes for another one or round
        let who = if sim.chance(200) { sim.pick(n) } else { m.from };
        let what = if sim.chance(200) { sim.pick(rounds) } else { r };
        let ok = match &sg {
            Ok(s) => accepts(sim, "verify", || Bls::verify(s, &msgs[what], &vks[who], &gen)),
            Err(_) => false,
        };
        let want = !m.tampered && who == m.from && msgs[what] == msgs[r];
        agree(sim, ok, want, "single", || format!("vote of {} in round {} checked as {} in {} (tampered {})", m.from, r, who, what, m.tampered));
        if !m.tampered && (sim.coin() || !got.iter().any(|g| g.0 == m.from && g.1 == r)) {
            got.push((m.from, r, m.body));
        }
    }
    // aggregate in arrival order, or any other
    let attempts = 1 + sim.pick(4);
    for _ in 0..attempts {
        if got.is_empty() {
            break;
        }
        let mut pick: Vec<usize> = vec![];
        let r = sim.pick(rounds);
        let honest = sim.chance(600);
        for (i, g) in got.iter().enumerate() {
            if honest {
                if msgs[g.1] == msgs[r] && !pick.iter().any(|p: &usize| got[*p].0 == g.0) {
                    pick.push(i);
                }
            } else if sim.coin() {
                pick.push(i);
            }
        }
        sim.shuffle(&mut pick);
        let mut value: Value = BTreeMap::new();
        for i in &pick {
            *value.entry((got[*i].0, msgs[got[*i].1].clone())).or_insert(0) += 1;
        }
        let sigs: Vec<Signature> = pick.iter().map(|i| Signature::from_bytes(&got[*i].2).unwrap()).collect();
        let refs: Vec<&Signature> = sigs.iter().collect();
        let mut ms = sim.must("MultiSignature::new", || MultiSignature::new(&refs));
        let mut altered = false;
        let mut how = String::new();
        match sim.choose(5) {
            0 => {
                let b = ms.as_bytes().to_vec();
                let (b, d) = alter_g1(sim, &b);
                sim.note_fault("disk.corrupt");
                how = d;
                match sim.no_panic("MultiSignature::from_bytes", || MultiSignature::from_bytes(&b)) {
                    Ok(m) => ms = m,
                    Err(_) => continue,
                }
                altered = true;
            }
            1 => {
                let b = ms.as_bytes().to_vec();
                ms = sim.must("MultiSignature::from_bytes", || MultiSignature::from_bytes(&b));
            }
            2 => {
                let b = serde_json::to_string(&ms).unwrap();
                ms = sim.must("MultiSignature from json", || serde_json::from_str::<MultiSignature>(&b));
            }
            _ => {}
        }
        // the claim: these keys, this message
        let mut keys: Vec<usize> = pick.iter().map(|i| got[*i].0).collect();
        match if altered { 5 } else { sim.choose(6) } {
            0 if !keys.is_empty() => {
                let i = sim.pick(keys.len());
                keys.remove(i);
            }
            1 => keys.push(sim.pick(n)),
            2 if !keys.is_empty() => {
                let i = sim.pick(keys.len());
                keys[i] = sim.pick(n);
            }
            _ => {}
        }
        sim.shuffle(&mut keys);
        let msg = match sim.choose(6) {
            0 => {
                let mut m = msgs[r].clone();
                mutate::mutate_bytes(sim, &mut m);
                m
            }
            1 => msgs[sim.pick(rounds)].clone(),
            _ => msgs[r].clone(),
        };
        let mut claim: Value = BTreeMap::new();
        for k in &keys {
            *claim.entry((*k, msg.clone())).or_insert(0) += 1;
        }
        // a key altered on its way to this verifier
        let mut own: Vec<VerKey> = keys.iter().map(|k| vks[*k].clone()).collect();
        if !own.is_empty() && !altered && sim.chance(250) {
            let i = sim.pick(own.len());
            let (b, d) = alter_g2(sim, own[i].as_bytes());
            if b != own[i].as_bytes() {
                if let Ok(k) = sim.no_panic("VerKey::from_bytes", || VerKey::from_bytes(&b)) {
                    own[i] = k;
                    altered = true;
                    how = format!("{} key: {}", how, d);
                }
            }
        }
        let refs: Vec<&VerKey> = own.iter().collect();
        let ok = accepts(sim, "verify_multi_sig", || Bls::verify_multi_sig(&ms, &msg, &refs, &gen));
        let want = !altered && !keys.is_empty() && claim == value;
        agree(sim, ok, want, "multi", || format!("signers {:?}, claimed {:?}, altered: {}", pick.iter().map(|i| (got[*i].0, got[*i].1)).collect::<Vec<_>>(), keys, how));
        if want {
            sim.probe("multi-accepted");
            // the order of the keys does not matter, another generator or message does
            let mut rev = refs.clone();
            rev.reverse();
            let ok = accepts(sim, "verify_multi_sig", || Bls::verify_multi_sig(&ms, &msg, &rev, &gen));
            agree(sim, ok, true, "multi", || "keys in another order".into());
            let g2 = sim.must("Generator::new", Generator::new);
            let ok = accepts(sim, "verify_multi_sig", || Bls::verify_multi_sig(&ms, &msg, &refs, &g2));
            agree(sim, ok, false, "multi", || "another generator".into());
        } else {
            sim.probe("multi-refused");
        }
    }
    // single objects altered
    if let Some((who, r, b)) = got.first().cloned() {
        sim.note_fault("disk.corrupt");
        let json = sim.chance(300);
        if json {
            let s = Signature::from_bytes(&b).unwrap();
            let mut v: serde_json::Value = serde_json::to_value(&s).unwrap();
            let l = mutate::pick_leaf(sim, &v).unwrap();
            let d = mutate::mutate_scalar(sim, mutate::get_mut(&mut v, &l).unwrap());
            if d.is_some() {
                // another way to write the same point is not another point
                let same = v["point"].as_str().map_or(false, |p| PointG1::from_string(p).and_then(|p| p.to_bytes()).map_or(false, |x| x == b))
                    && v["bytes"] == serde_json::to_value(&b).unwrap();
                let text = v.to_string();
                if let Ok(s) = sim.no_panic("Signature from json", || serde_json::from_str::<Signature>(&text)) {
                    let ok = accepts(sim, "verify", || Bls::verify(&s, &msgs[r], &vks[who], &gen));
                    if !same {
                        agree(sim, ok, false, "altered-json", || format!("{:?} {:?}", l, d));
                    }
                }
            }
        } else {
            let (b2, d) = alter_g1(sim, &b);
            if b2 != b {
                if let Ok(s) = sim.no_panic("Signature::from_bytes", || Signature::from_bytes(&b2)) {
                    let ok = accepts(sim, "verify", || Bls::verify(&s, &msgs[r], &vks[who], &gen));
                    agree(sim, ok, false, "bn-altered", || format!("signature: {}", d));
                }
            }
            let (k2, d) = alter_g2(sim, &vals[who].vk);
            if k2 != vals[who].vk {
                if let Ok(k) = sim.no_panic("VerKey::from_bytes", || VerKey::from_bytes(&k2)) {
                    let s = Signature::from_bytes(&b).unwrap();
                    let ok = accepts(sim, "verify", || Bls::verify(&s, &msgs[r], &k, &gen));
                    agree(sim, ok, false, "bn-altered", || format!("key: {}", d));
                    let p = ProofOfPossession::from_bytes(&vals[who].pop).unwrap();
                    let ok = accepts(sim, "pop", || Bls::verify_proof_of_posession(&p, &k, &gen));
                    agree(sim, ok, false, "bn-altered", || format!("key with proof of possession: {}", d));
                }
            }
        }
        // two stored objects whose halves were exchanged
        if vks.len() > 1 && sim.chance(400) {
            let other = &vks[(who + 1) % vks.len()];
            let mine: serde_json::Value = serde_json::to_value(&vks[who]).unwrap();
            let theirs: serde_json::Value = serde_json::to_value(other).unwrap();
            if mine != theirs {
                let half = if sim.coin() { "bytes" } else { "point" };
                let mut v = mine.clone();
                v[half] = theirs[half].clone();
                let text = v.to_string();
                if let Ok(k) = sim.no_panic("VerKey from json", || serde_json::from_str::<VerKey>(&text)) {
                    let s = Signature::from_bytes(&b).unwrap();
                    let p = ProofOfPossession::from_bytes(&vals[who].pop).unwrap();
                    let signs = accepts(sim, "verify", || Bls::verify(&s, &msgs[r], &k, &gen));
                    let owns = accepts(sim, "pop", || Bls::verify_proof_of_posession(&p, &k, &gen));
                    let whole = k.as_bytes() == vks[who].as_bytes();
                    sim.check(whole == signs && whole == owns, "halves-accepted", || {
                        format!("a key put together from two (its {} from another): signature {}, possession {}", half, signs, owns)
                    });
                }
                sim.probe("halves");
            }
        }
        sim.probe("bn-altered");
    }
    // any number as a secret key
    if sim.chance(200) {
        let len = *sim.of(&[0usize, 1, 31, 32, 33, 64]);
        let b = sim.bytes(len);
        let sk = sim.no_panic("SignKey::from_bytes", || SignKey::from_bytes(&b));
        if let Ok(sk) = sk {
            let zero = is_zero(&b);
            let vk = sim.no_panic("VerKey::new", || VerKey::new(&gen, &sk));
            let sg = sim.no_panic("sign", || Bls::sign(b"m", &sk));
            if let (Ok(vk), Ok(sg)) = (vk, sg) {
                let ok = accepts(sim, "verify", || Bls::verify(&sg, b"m", &vk, &gen));
                if !zero {
                    agree(sim, ok, true, "any-key", || format!("secret key of {} bytes", b.len()));
                }
            }
        }
        let len = *sim.of(&[0usize, 1, 31, 33, 64]);
        let s = sim.bytes(len);
        sim.must_err("SignKey::new", || SignKey::new(Some(&s)));
        sim.probe("any-key");
    }
    for g in &got {
        sim.absorb(&g.2);
    }
}

/// The scheme over BLS12-381, in both of its instances.
macro_rules! bls381 {
    ($name:ident, $m:ident) => {
        pub mod $name {
            use super::agree;
            use amcl_wrapper::field_elem::FieldElement;
            use amcl_wrapper::group_elem::GroupElement;
            use simcore::{ev, mutate, Sim};
            use std::collections::BTreeMap;
            use ursa::signatures::bls::$m::*;
            use ursa::signatures::bls::PrivateKey;

            /// What a signature stands for: signer, context, message and the key list it was
            /// made for (none for an ordinary signature).
            type Part = (usize, usize, Vec<u8>, Vec<usize>);
            type Value = BTreeMap<Part, i64>;

            const CONTEXTS: [Option<&'static [u8]>; 4] = [
                None,
                Some(b"validators of net 1"),
                Some(b"another domain separator"),
                Some(b"for signing public keys for proof of possession"),
            ];

            struct Signer {
                sk: PrivateKey,
                pk: PublicKey,
            }
            fn point<G: GroupElement>(b: &[u8]) -> G {
                G::from_bytes(b).unwrap()
            }
            /// A point of the curve outside the prime-order group.
            fn torsion<G: GroupElement + Clone>(sim: &mut Sim, like: &G) -> Option<G> {
                let size = like.to_bytes(true).len();
                for _ in 0..30 {
                    let mut b = sim.bytes(size);
                    b[0] = 2 + (b[0] & 1);
                    b[1] &= 0x07;
                    if size > 60 {
                        b[1 + (size - 1) / 2] &= 0x07;
                    }
                    let p: G = match G::from_bytes(&b) {
                        Ok(p) => p,
                        Err(_) => continue,
                    };
                    if p.is_identity() {
                        continue;
                    }
                    let mut t = p.scalar_mul_const_time(&FieldElement::minus_one());
                    t.add_assign_(&p);
                    if !t.is_identity() {
                        return Some(t);
                    }
                }
                None
            }
            fn alter<G: GroupElement + Clone>(sim: &mut Sim, b: &[u8]) -> (Vec<u8>, String) {
                let p: G = point(b);
                match sim.choose(9) {
                    0 => (p.negation().to_bytes(false), "negated".into()),
                    1 => (G::identity().to_bytes(false), "point at infinity".into()),
                    2 => (p.double().to_bytes(false), "doubled".into()),
                    3 => (p.plus(&G::random()).to_bytes(false), "random point added".into()),
                    4 => (vec![0; b.len()], "zeros".into()),
                    5 | 6 => match torsion::<G>(sim, &p) {
                        Some(t) => (p.plus(&t).to_bytes(false), "torsion point added".into()),
                        None => (vec![], "emptied".into()),
                    },
                    _ => {
                        let mut v = b.to_vec();
                        match mutate::mutate_bytes(sim, &mut v) {
                            Some(d) => (v, d),
                            None => (vec![], "emptied".into()),
                        }
                    }
                }
            }
            fn add(v: &mut Value, p: Part) {
                *v.entry(p).or_insert(0) += 1;
            }

            pub fn run(sim: &mut Sim) {
                let g = if sim.coin() { Generator::generator() } else {
                    let label = sim.bytes(4);
                    Generator::from_msg_hash(&label)
                };
                let n = 1 + sim.pick(4);
                let mut who: Vec<Signer> = vec![];
                for _ in 0..n {
                    let (pk, sk) = sim.no_panic("generate", || generate(&g));
                    // through storage and transport
                    let pk = if sim.coin() {
                        let b = pk.to_bytes();
                        sim.check(b.len() == PUBLIC_KEY_SIZE, "size", || "size of a public key".into());
                        sim.must("PublicKey::from_bytes", || PublicKey::from_bytes(&b))
                    } else if sim.coin() {
                        let j = serde_json::to_string(&pk).unwrap();
                        sim.must("PublicKey from json", || serde_json::from_str::<PublicKey>(&j))
                    } else {
                        pk
                    };
                    sim.check(pk.to_bytes() == PublicKey::new(&sk, &g).to_bytes(), "reload", || "a reloaded public key is another key".into());
                    who.push(Signer { sk, pk });
                }
                let pks: Vec<PublicKey> = who.iter().map(|w| w.pk.clone()).collect();
                ev!(sim, "{} signers", n);
                let mut msgs: Vec<Vec<u8>> = vec![];
                for _ in 0..3 {
                    let l = *sim.of(&[0usize, 1, 20, 48, 97, 193, 300]);
                    msgs.push(sim.bytes(l));
                }
                if sim.chance(100) {
                    let k = sim.pick(n);
                    msgs[0] = who[k].pk.to_bytes();
                }
                for _ in 0..2 + sim.pick(4) {
                    match sim.choose(8) {
                        0 | 1 => single(sim, &g, &who, &msgs),
                        2 => possession(sim, &g, &who),
                        3 => aggregated(sim, &g, &pks, &who, &msgs),
                        4 => plain_aggregate(sim, &g, &pks, &who, &msgs),
                        5 => multi(sim, &g, &who, &msgs),
                        6 => rogue(sim, &g, &who, &msgs),
                        _ => batch(sim, &g, &who, &msgs),
                    }
                }
                for w in &who {
                    sim.absorb(&w.pk.to_bytes());
                }
            }

            fn transported(sim: &mut Sim, s: Signature) -> Signature {
                match sim.choose(3) {
                    0 => {
                        let b = s.to_bytes();
                        sim.check(b.len() == SIGNATURE_SIZE, "size", || "size of a signature".into());
                        sim.must("Signature::from_bytes", || Signature::from_bytes(&b))
                    }
                    1 => {
                        let j = serde_json::to_string(&s).unwrap();
                        sim.must("Signature from json", || serde_json::from_str::<Signature>(&j))
                    }
                    _ => s,
                }
            }
            /// A key that belongs to nobody: the neutral element, or a point outside the group.
            fn nobody(sim: &mut Sim, like: &PublicKey) -> Option<(PublicKey, String)> {
                if sim.coin() {
                    let k = sim.no_panic("PublicKey from json", || serde_json::from_str::<PublicKey>("\"infinity\""));
                    return k.ok().map(|k| (k, "the neutral key".to_string()));
                }
                let p = point::<Generator>(&like.to_bytes());
                let t = match torsion::<Generator>(sim, &p) {
                    Some(t) => t,
                    None => return None,
                };
                let b = t.to_bytes(false);
                let k = sim.no_panic("PublicKey::from_bytes", || PublicKey::from_bytes(&b));
                k.ok().map(|k| (k, "a key of small order".to_string()))
            }
            fn sign(sim: &mut Sim, w: &Signer, m: &[u8], c: usize) -> Signature {
                let s = sim.no_panic("Signature::new", || Signature::new(m, CONTEXTS[c], &w.sk));
                transported(sim, s)
            }

            fn single(sim: &mut Sim, g: &Generator, who: &[Signer], msgs: &[Vec<u8>]) {
                let (i, m, c) = (sim.pick(who.len()), sim.pick(3), sim.pick(CONTEXTS.len()));
                let s = sign(sim, &who[i], &msgs[m], c);
                let ok = sim.no_panic("verify", || s.verify(&msgs[m], CONTEXTS[c], &who[i].pk, g));
                agree(sim, ok, true, "single", || "a genuine signature".into());
                let (i2, c2) = (sim.pick(who.len()), sim.pick(CONTEXTS.len()));
                let mut m2 = msgs[sim.pick(3)].clone();
                if sim.coin() {
                    mutate::mutate_bytes(sim, &mut m2);
                }
                let ok = sim.no_panic("verify", || s.verify(&m2, CONTEXTS[c2], &who[i2].pk, g));
                agree(sim, ok, i == i2 && m2 == msgs[m] && c == c2, "single", || format!("signer {} as {}, context {} as {}", i, i2, c, c2));
                let other = Generator::from_msg_hash(b"an entirely different generator");
                let ok = sim.no_panic("verify", || s.verify(&msgs[m], CONTEXTS[c], &who[i].pk, &other));
                agree(sim, ok, false, "single", || "another generator".into());
                // altered signature or key
                sim.note_fault("net.corrupt");
                let b = s.to_bytes();
                let (b2, d) = alter::<SignatureGroup>(sim, &b);
                if b2 != b {
                    if let Ok(s2) = sim.no_panic("Signature::from_bytes", || Signature::from_bytes(&b2)) {
                        sim.check(b2.len() != b.len() || s2.to_bytes() == b2, "other-read", || format!("signature {}: something else was read", d));
                        let ok = sim.no_panic("verify", || s2.verify(&msgs[m], CONTEXTS[c], &who[i].pk, g));
                        agree(sim, ok, false, "altered", || format!("signature {}", d));
                    }
                }
                let b = who[i].pk.to_bytes();
                let (b2, d) = alter::<Generator>(sim, &b);
                if b2 != b {
                    if let Ok(k) = sim.no_panic("PublicKey::from_bytes", || PublicKey::from_bytes(&b2)) {
                        sim.check(b2.len() != b.len() || k.to_bytes() == b2, "other-read", || format!("key {}: something else was read", d));
                        let ok = sim.no_panic("verify", || s.verify(&msgs[m], CONTEXTS[c], &k, g));
                        agree(sim, ok, false, "altered", || format!("key {}", d));
                    }
                }
                // neutral elements, however they got there
                if sim.chance(200) {
                    let j = "\"infinity\"";
                    let k = sim.no_panic("PublicKey from json", || serde_json::from_str::<PublicKey>(j));
                    let z = sim.no_panic("Signature from json", || serde_json::from_str::<Signature>(j));
                    let p = sim.no_panic("ProofOfPossession from json", || serde_json::from_str::<ProofOfPossession>(j));
                    if let (Ok(k), Ok(z), Ok(p)) = (k, z, p) {
                        let ok = sim.no_panic("verify", || z.verify(&msgs[m], CONTEXTS[c], &k, g));
                        sim.check(!ok, "neutral-key", || "the neutral signature verifies under the neutral key".into());
                        let ok = sim.no_panic("pop", || p.verify(CONTEXTS[c], &k, g));
                        sim.check(!ok, "neutral-key", || "the neutral key has a proof of possession".into());
                    }
                }
                sim.probe("single");
            }

            fn possession(sim: &mut Sim, g: &Generator, who: &[Signer]) {
                let (i, c) = (sim.pick(who.len()), sim.pick(CONTEXTS.len()));
                let p = sim.no_panic("ProofOfPossession::new", || ProofOfPossession::new(&who[i].pk, CONTEXTS[c], &who[i].sk));
                let b = p.to_bytes();
                let p = sim.must("ProofOfPossession::from_bytes", || ProofOfPossession::from_bytes(&b));
                let ok = sim.no_panic("pop", || p.verify(CONTEXTS[c], &who[i].pk, g));
                agree(sim, ok, true, "possession", || "a genuine proof".into());
                let (i2, c2) = (sim.pick(who.len()), sim.pick(CONTEXTS.len()));
                // the default context of proofs is the last one of the list
                let same_ctx = c == c2 || (c == 0 && c2 == 3) || (c == 3 && c2 == 0);
                let ok = sim.no_panic("pop", || p.verify(CONTEXTS[c2], &who[i2].pk, g));
                agree(sim, ok, i == i2 && same_ctx, "possession", || format!("proof of {} for {} in contexts {} and {}", i, i2, c, c2));
                let (b2, d) = alter::<SignatureGroup>(sim, &b);
                sim.note_fault("net.corrupt");
                if b2 != b {
                    if let Ok(p2) = sim.no_panic("ProofOfPossession::from_bytes", || ProofOfPossession::from_bytes(&b2)) {
                        let ok = sim.no_panic("pop", || p2.verify(CONTEXTS[c], &who[i].pk, g));
                        agree(sim, ok, false, "altered", || format!("proof of possession {}", d));
                    }
                }
                // a signature over one's key is not a proof of possession of it
                let s = Signature::new(&who[i].pk.to_bytes(), None, &who[i].sk);
                if let Ok(p2) = ProofOfPossession::from_bytes(&s.to_bytes()) {
                    let ok = sim.no_panic("pop", || p2.verify(None, &who[i].pk, g));
                    agree(sim, ok, false, "possession", || "an ordinary signature as proof".into());
                }
                if let Ok(s2) = Signature::from_bytes(&b) {
                    let ok = sim.no_panic("verify", || s2.verify(&who[i].pk.to_bytes(), None, &who[i].pk, g));
                    agree(sim, ok, false, "possession", || "a proof as ordinary signature".into());
                }
                sim.probe("possession");
            }

            /// Signatures for a fixed list of keys, protected against keys chosen to cancel others.
            fn aggregated(sim: &mut Sim, g: &Generator, pks: &[PublicKey], who: &[Signer], msgs: &[Vec<u8>]) {
                let c = sim.pick(CONTEXTS.len());
                let mut lists: Vec<Vec<usize>> = vec![];
                for _ in 0..2 {
                    let k = 1 + sim.pick(who.len());
                    let mut l = sim.subset(who.len(), k);
                    sim.shuffle(&mut l);
                    if sim.chance(100) {
                        l.push(l[0]);
                    }
                    lists.push(l);
                }
                let keys = |l: &Vec<usize>| l.iter().map(|i| pks[*i].clone()).collect::<Vec<_>>();
                // the contributions of everybody to every list
                let mut contrib: Vec<(Part, Signature)> = vec![];
                for l in &lists {
                    let m = sim.pick(2);
                    let ks = keys(l);
                    for (pos, i) in l.iter().enumerate() {
                        let s = sim.no_panic("new_with_rk_mitigation", || {
                            Signature::new_with_rk_mitigation(&msgs[m], CONTEXTS[c], &who[*i].sk, pos, &ks)
                        });
                        let s = transported(sim, s);
                        contrib.push(((*i, c, msgs[m].clone(), l.clone()), s));
                    }
                }
                let l0 = lists[0].len();
                // mostly the honest ones of the first list, in any order
                let mut use_: Vec<usize> = (0..l0).collect();
                match sim.choose(6) {
                    0 => {
                        let i = sim.pick(use_.len());
                        use_.remove(i);
                    }
                    1 => use_.push(sim.pick(contrib.len())),
                    2 => {
                        let i = sim.pick(use_.len());
                        use_[i] = sim.pick(contrib.len());
                    }
                    _ => {}
                }
                sim.shuffle(&mut use_);
                let mut value: Value = BTreeMap::new();
                let mut sigs = vec![];
                for u in &use_ {
                    add(&mut value, contrib[*u].0.clone());
                    sigs.push(contrib[*u].1.clone());
                }
                let a = sim.no_panic("AggregatedSignature::new", || AggregatedSignature::new(&sigs));
                let a = if sim.coin() {
                    let b = a.to_bytes();
                    if sigs.is_empty() {
                        a
                    } else {
                        sim.must("AggregatedSignature::from_bytes", || AggregatedSignature::from_bytes(&b))
                    }
                } else {
                    a
                };
                let claim_list = if sim.chance(200) { lists[1].clone() } else { lists[0].clone() };
                let m = &contrib[0].0 .2;
                let mut claim: Value = BTreeMap::new();
                for i in &claim_list {
                    add(&mut claim, (*i, c, m.clone(), claim_list.clone()));
                }
                let ks = keys(&claim_list);
                let apk = sim.no_panic("AggregatedPublicKey::new", || AggregatedPublicKey::new(&ks));
                let b = apk.to_bytes();
                let apk = sim.must("AggregatedPublicKey::from_bytes", || AggregatedPublicKey::from_bytes(&b));
                let ok = sim.no_panic("AggregatedSignature::verify", || a.verify(m, CONTEXTS[c], &apk, g));
                agree(sim, ok, claim == value, "aggregate", || format!("lists {:?}, contributions {:?}", lists, use_));
                sim.probe(if claim == value { "aggregate-accepted" } else { "aggregate-refused" });
                if claim == value {
                    let other = &msgs[2];
                    if other != m {
                        let ok = sim.no_panic("AggregatedSignature::verify", || a.verify(other, CONTEXTS[c], &apk, g));
                        agree(sim, ok, false, "aggregate", || "another message".into());
                    }
                    let ok = sim.no_panic("AggregatedSignature::verify_no_rk", || a.verify_no_rk(m, CONTEXTS[c], &ks, g));
                    agree(sim, ok, false, "aggregate", || "protected aggregate taken for a plain one".into());
                    let bytes = a.to_bytes();
                    let (b2, d) = alter::<SignatureGroup>(sim, &bytes);
                    if b2 != bytes {
                        if let Ok(a2) = sim.no_panic("AggregatedSignature::from_bytes", || AggregatedSignature::from_bytes(&b2)) {
                            let ok = sim.no_panic("AggregatedSignature::verify", || a2.verify(m, CONTEXTS[c], &apk, g));
                            agree(sim, ok, false, "altered", || format!("aggregate {}", d));
                        }
                    }
                    let (b2, d) = alter::<Generator>(sim, &b);
                    if b2 != b {
                        if let Ok(k2) = sim.no_panic("AggregatedPublicKey::from_bytes", || AggregatedPublicKey::from_bytes(&b2)) {
                            let ok = sim.no_panic("AggregatedSignature::verify", || a.verify(m, CONTEXTS[c], &k2, g));
                            agree(sim, ok, false, "altered", || format!("aggregate key {}", d));
                        }
                    }
                    // an entry of a batch
                    let mut entries: Vec<(&[u8], &AggregatedSignature, &AggregatedPublicKey)> = vec![(m, &a, &apk)];
                    let mut all = true;
                    let bad = AggregatedSignature::new(&sigs[1..]);
                    if sim.coin() {
                        entries.push((m, &a, &apk));
                    }
                    if sim.coin() {
                        all = false;
                        entries.push((m, &bad, &apk));
                    }
                    if sim.chance(300) && &msgs[2] != m {
                        all = false;
                        entries.push((&msgs[2], &a, &apk));
                    }
                    // two aggregates whose errors cancel in the sum
                    let d = SignatureGroup::random();
                    let at = point::<SignatureGroup>(&a.to_bytes());
                    let up = AggregatedSignature::from_bytes(&at.plus(&d).to_bytes(false)).unwrap();
                    let down = AggregatedSignature::from_bytes(&at.minus(&d).to_bytes(false)).unwrap();
                    if sim.chance(300) {
                        all = false;
                        entries.push((m, &up, &apk));
                        entries.push((m, &down, &apk));
                        if sim.coin() {
                            entries.remove(0);
                        }
                    }
                    sim.shuffle(&mut entries);
                    let ok = sim.no_panic("AggregatedSignature::batch_verify", || AggregatedSignature::batch_verify(&entries, CONTEXTS[c], g));
                    agree(sim, ok, all, "batch", || format!("{} aggregates", entries.len()));
                }
            }

            fn plain_aggregate(sim: &mut Sim, g: &Generator, pks: &[PublicKey], who: &[Signer], msgs: &[Vec<u8>]) {
                let c = sim.pick(CONTEXTS.len());
                let mut value: Value = BTreeMap::new();
                let mut sigs = vec![];
                let k = 1 + sim.pick(who.len() + 1);
                for j in 0..k {
                    let i = if j < who.len() { j } else { sim.pick(who.len()) };
                    let m = if sim.chance(100) { 1 } else { 0 };
                    sigs.push(sign(sim, &who[i], &msgs[m], c));
                    add(&mut value, (i, c, msgs[m].clone(), vec![]));
                }
                sim.shuffle(&mut sigs);
                let mut keys: Vec<usize> = value.iter().flat_map(|(p, n)| vec![p.0; *n as usize]).collect();
                match sim.choose(5) {
                    0 => {
                        keys.pop();
                    }
                    1 => keys.push(sim.pick(who.len())),
                    _ => {}
                }
                sim.shuffle(&mut keys);
                let mut claim: Value = BTreeMap::new();
                for k in &keys {
                    add(&mut claim, (*k, c, msgs[0].clone(), vec![]));
                }
                let want = claim == value && !keys.is_empty();
                let ks: Vec<PublicKey> = keys.iter().map(|k| pks[*k].clone()).collect();
                let a = sim.no_panic("AggregatedSignature::new", || AggregatedSignature::new(&sigs));
                let ok = sim.no_panic("verify_no_rk", || a.verify_no_rk(&msgs[0], CONTEXTS[c], &ks, g));
                agree(sim, ok, want, "plain-aggregate", || format!("keys {:?}", keys));
                // a key in the list that is nobody's
                if sim.chance(400) {
                    if let Some((k, d)) = nobody(sim, &who[0].pk) {
                        let mut ks = ks.clone();
                        let at = sim.pick(ks.len() + 1);
                        ks.insert(at, k);
                        let ok = sim.no_panic("verify_no_rk", || a.verify_no_rk(&msgs[0], CONTEXTS[c], &ks, g));
                        sim.check(!ok, "nobodys-key", || format!("an aggregate verifies with {} in the list", d));
                    }
                }
                if want {
                    // a plain aggregate does not pass the protected verification
                    let apk = AggregatedPublicKey::new(&ks);
                    let ok = sim.no_panic("AggregatedSignature::verify", || a.verify(&msgs[0], CONTEXTS[c], &apk, g));
                    agree(sim, ok, false, "aggregate", || "plain aggregate taken for a protected one".into());
                }
                if !ks.is_empty() {
                    let mut s = sigs[0].clone();
                    s.combine(&sigs[1..]);
                    let mut k = ks[0].clone();
                    k.combine(&ks[1..]);
                    let ok = sim.no_panic("verify", || s.verify(&msgs[0], CONTEXTS[c], &k, g));
                    agree(sim, ok, want, "combined", || format!("keys {:?}", keys));
                }
                sim.probe(if want { "plain-accepted" } else { "plain-refused" });
            }

            /// Different messages by different signers.
            fn multi(sim: &mut Sim, g: &Generator, who: &[Signer], msgs: &[Vec<u8>]) {
                let c = sim.pick(CONTEXTS.len());
                let k = 1 + sim.pick(3);
                let mut value: Value = BTreeMap::new();
                let mut parts: Vec<(usize, Vec<u8>)> = vec![];
                let mut sigs = vec![];
                for j in 0..k {
                    let i = sim.pick(who.len());
                    let m = msgs[if sim.chance(100) { sim.pick(3) } else { j }].clone();
                    sigs.push(sign(sim, &who[i], &m, c));
                    add(&mut value, (i, c, m.clone(), vec![]));
                    parts.push((i, m));
                }
                sim.shuffle(&mut sigs);
                let mut s = sigs[0].clone();
                s.combine(&sigs[1..]);
                let s = transported(sim, s);
                match sim.choose(6) {
                    0 => {
                        parts.pop();
                    }
                    1 => {
                        let x = (sim.pick(who.len()), msgs[sim.pick(3)].clone());
                        parts.push(x);
                    }
                    2 => {
                        let i = sim.pick(parts.len());
                        parts[i].0 = sim.pick(who.len());
                    }
                    3 => {
                        let i = sim.pick(parts.len());
                        mutate::mutate_bytes(sim, &mut parts[i].1);
                    }
                    _ => {}
                }
                sim.shuffle(&mut parts);
                let mut claim: Value = BTreeMap::new();
                for (i, m) in &parts {
                    add(&mut claim, (*i, c, m.clone(), vec![]));
                }
                let set: std::collections::BTreeSet<_> = parts.iter().map(|p| p.1.clone()).collect();
                let want = claim == value && set.len() == parts.len() && !parts.is_empty();
                let inputs: Vec<(&[u8], &PublicKey)> = parts.iter().map(|(i, m)| (&m[..], &who[*i].pk)).collect();
                let ok = sim.no_panic("verify_multi", || s.verify_multi(&inputs, CONTEXTS[c], g));
                agree(sim, ok, want, "multi", || format!("{} entries", parts.len()));
                if sim.chance(400) {
                    if let Some((k, d)) = nobody(sim, &who[0].pk) {
                        let m = sim.bytes(11);
                        let mut inputs = inputs.clone();
                        let at = sim.pick(inputs.len() + 1);
                        inputs.insert(at, (&m[..], &k));
                        let ok = sim.no_panic("verify_multi", || s.verify_multi(&inputs, CONTEXTS[c], g));
                        sim.check(!ok, "nobodys-key", || format!("a signature verifies with {} in the list", d));
                    }
                }
                sim.probe(if want { "multi-accepted" } else { "multi-refused" });
            }

            /// A key made to cancel the others.
            fn rogue(sim: &mut Sim, g: &Generator, who: &[Signer], msgs: &[Vec<u8>]) {
                sim.note_fault("byzantine.rogue-key");
                let c = sim.pick(CONTEXTS.len());
                let m = &msgs[0];
                let x = PrivateKey::random();
                let mut r: Generator = g * &x;
                for w in who {
                    r = r.minus(&point::<Generator>(&w.pk.to_bytes()));
                }
                let rogue = sim.must("PublicKey::from_bytes", || PublicKey::from_bytes(&r.to_bytes(false)));
                let mut list: Vec<PublicKey> = who.iter().map(|w| w.pk.clone()).collect();
                let at = sim.pick(list.len() + 1);
                list.insert(at, rogue.clone());
                let apk = AggregatedPublicKey::new(&list);
                let plain = Signature::new(m, CONTEXTS[c], &x);
                let scaled = Signature::new_with_rk_mitigation(m, CONTEXTS[c], &x, at, &list);
                let other = Signature::new_with_rk_mitigation(m, CONTEXTS[c], &x, if at == 0 { 1 } else { 0 }, &list);
                for s in [vec![plain.clone()], vec![scaled.clone()], vec![other.clone()], vec![plain, scaled, other]] {
                    let a = AggregatedSignature::new(&s);
                    let ok = sim.no_panic("AggregatedSignature::verify", || a.verify(m, CONTEXTS[c], &apk, g));
                    sim.check(!ok, "rogue-key", || "a signature of all was made by the owner of one key".into());
                }
                let p1 = ProofOfPossession::new(&rogue, None, &x);
                let mine = PublicKey::new(&x, g);
                let p2 = ProofOfPossession::new(&mine, None, &x);
                for p in [p1, p2] {
                    let ok = sim.no_panic("pop", || p.verify(None, &rogue, g));
                    sim.check(!ok, "rogue-key", || "possession of a key was proved without its secret".into());
                }
                sim.probe("rogue");
            }

            fn batch(sim: &mut Sim, g: &Generator, who: &[Signer], msgs: &[Vec<u8>]) {
                let c = sim.pick(CONTEXTS.len());
                let k = 1 + sim.pick(5);
                let mut entries: Vec<(Vec<u8>, Signature, usize, bool)> = vec![];
                for _ in 0..k {
                    let (i, m) = (sim.pick(who.len()), sim.pick(3));
                    let s = sign(sim, &who[i], &msgs[m], c);
                    entries.push((msgs[m].clone(), s, i, true));
                }
                match sim.choose(6) {
                    0 => {
                        let i = sim.pick(k);
                        let j = sim.pick(who.len());
                        entries[i].3 = entries[i].2 == j;
                        entries[i].2 = j;
                    }
                    1 => {
                        let i = sim.pick(k);
                        if mutate::mutate_bytes(sim, &mut entries[i].0).is_some() {
                            entries[i].3 = false;
                        }
                    }
                    2 if k > 1 => {
                        // two errors that cancel in the sum
                        let mut ij = sim.subset(k, 2);
                        sim.shuffle(&mut ij);
                        let d = SignatureGroup::random();
                        let a = point::<SignatureGroup>(&entries[ij[0]].1.to_bytes()).plus(&d);
                        let b = point::<SignatureGroup>(&entries[ij[1]].1.to_bytes()).minus(&d);
                        entries[ij[0]].1 = Signature::from_bytes(&a.to_bytes(false)).unwrap();
                        entries[ij[1]].1 = Signature::from_bytes(&b.to_bytes(false)).unwrap();
                        entries[ij[0]].3 = false;
                        entries[ij[1]].3 = false;
                    }
                    3 if k > 1 => {
                        // signatures of two entries exchanged
                        let ij = sim.subset(k, 2);
                        let (a, b) = (ij[0], ij[1]);
                        let same = entries[a].0 == entries[b].0 && entries[a].2 == entries[b].2;
                        let t = entries[a].1.clone();
                        entries[a].1 = entries[b].1.clone();
                        entries[b].1 = t;
                        if !same {
                            entries[a].3 = false;
                            entries[b].3 = false;
                        }
                    }
                    4 => {
                        let i = sim.pick(k);
                        let b = entries[i].1.to_bytes();
                        let (b2, _) = alter::<SignatureGroup>(sim, &b);
                        if b2 != b {
                            if let Ok(s) = sim.no_panic("Signature::from_bytes", || Signature::from_bytes(&b2)) {
                                entries[i].1 = s;
                                entries[i].3 = false;
                            }
                        }
                    }
                    _ => {}
                }
                let want = entries.iter().all(|e| e.3);
                for e in &entries {
                    let ok = sim.no_panic("verify", || e.1.verify(&e.0, CONTEXTS[c], &who[e.2].pk, g));
                    agree(sim, ok, e.3, "single", || "entry of a batch".into());
                }
                let inputs: Vec<(&[u8], &Signature, &PublicKey)> = entries.iter().map(|e| (&e.0[..], &e.1, &who[e.2].pk)).collect();
                let ok = sim.no_panic("batch_verify", || Signature::batch_verify(&inputs, CONTEXTS[c], g));
                agree(sim, ok, want, "batch", || format!("{} entries", k));
                sim.probe(if want { "batch-accepted" } else { "batch-refused" });
            }
        }
    };
}
bls381!(on_g1, normal);
bls381!(on_g2, small);
