//! C16: plain signatures (Ed25519, ECDSA over secp256k1, BLS12-381 as a plain scheme).
use simcore::{ev, mutate, Net, NetCfg, Sim};
use std::collections::BTreeMap;
use ursa::keys::{KeyGenOption, PrivateKey, PublicKey};
use ursa::signatures::bls::{normal, small};
use ursa::signatures::ed25519::Ed25519Sha512;
use ursa::signatures::secp256k1::EcdsaSecp256k1Sha256;
use ursa::signatures::{EcdsaPublicKeyHandler, SignatureScheme, Signer};
use ursa::CryptoError;

/// A scheme behind one face.
trait Any {
    fn name(&self) -> &'static str;
    fn keypair(&self, o: Option<KeyGenOption>) -> Result<(PublicKey, PrivateKey), CryptoError>;
    fn sign(&self, m: &[u8], k: &PrivateKey, signer: bool) -> Result<Vec<u8>, CryptoError>;
    fn verify(&self, m: &[u8], s: &[u8], k: &PublicKey) -> Result<bool, CryptoError>;
    fn public_of(&self, k: &PrivateKey) -> Result<PublicKey, CryptoError>;
    fn sizes(&self) -> (usize, usize, usize);
}
struct S<T: SignatureScheme>(&'static str, T);
impl<T: SignatureScheme> Any for S<T> {
    fn name(&self) -> &'static str {
        self.0
    }
    fn keypair(&self, o: Option<KeyGenOption>) -> Result<(PublicKey, PrivateKey), CryptoError> {
        self.1.keypair(o)
    }
    fn sign(&self, m: &[u8], k: &PrivateKey, signer: bool) -> Result<Vec<u8>, CryptoError> {
        if signer {
            Signer::new(&self.1, k).sign(m)
        } else {
            self.1.sign(m, k)
        }
    }
    fn verify(&self, m: &[u8], s: &[u8], k: &PublicKey) -> Result<bool, CryptoError> {
        self.1.verify(m, s, k)
    }
    fn public_of(&self, k: &PrivateKey) -> Result<PublicKey, CryptoError> {
        Signer::new(&self.1, k).get_public_key()
    }
    fn sizes(&self) -> (usize, usize, usize) {
        (T::public_key_size(), T::private_key_size(), T::signature_size())
    }
}
const ED: usize = 0;
const SECP: usize = 1;
fn scheme(sim: &mut Sim) -> (usize, Box<dyn Any>) {
    let k = *sim.of(&[0usize, 0, 1, 1, 2, 3]);
    let b: Box<dyn Any> = match k {
        0 => Box::new(S("ed25519", Ed25519Sha512::new())),
        1 => Box::new(S("secp256k1", EcdsaSecp256k1Sha256::new())),
        2 => Box::new(S("bls-normal", normal::Bls::new())),
        _ => Box::new(S("bls-small", small::Bls::new())),
    };
    (k, b)
}

// ---- the same schemes in OpenSSL -----------------------------------------------------------

mod other {
    use openssl::bn::{BigNum, BigNumContext};
    use openssl::ec::{EcGroup, EcKey, EcPoint};
    use openssl::ecdsa::EcdsaSig;
    use openssl::nid::Nid;
    use openssl::pkey::{Id, PKey};
    use openssl::sign::{Signer, Verifier};

    pub fn group() -> EcGroup {
        EcGroup::from_curve_name(Nid::SECP256K1).unwrap()
    }
    pub fn order() -> BigNum {
        let mut n = BigNum::new().unwrap();
        let mut c = BigNumContext::new().unwrap();
        group().order(&mut n, &mut c).unwrap();
        n
    }
    pub fn secp_public(sk: &[u8], compressed: bool) -> Vec<u8> {
        use openssl::ec::PointConversionForm as F;
        let g = group();
        let mut c = BigNumContext::new().unwrap();
        let mut p = EcPoint::new(&g).unwrap();
        p.mul_generator2(&g, &BigNum::from_slice(sk).unwrap(), &mut c).unwrap();
        p.to_bytes(&g, if compressed { F::COMPRESSED } else { F::UNCOMPRESSED }, &mut c).unwrap()
    }
    fn pub_key(pk: &[u8]) -> EcKey<openssl::pkey::Public> {
        let g = group();
        let mut c = BigNumContext::new().unwrap();
        let p = EcPoint::from_bytes(&g, pk, &mut c).unwrap();
        EcKey::from_public_key(&g, &p).unwrap()
    }
    pub fn secp_verify(m: &[u8], s: &[u8], pk: &[u8]) -> bool {
        let h = openssl::sha::sha256(m);
        let sig = EcdsaSig::from_private_components(BigNum::from_slice(&s[..32]).unwrap(), BigNum::from_slice(&s[32..]).unwrap()).unwrap();
        sig.verify(&h, &pub_key(pk)).unwrap()
    }
    pub fn secp_sign(m: &[u8], sk: &[u8]) -> Vec<u8> {
        let g = group();
        let pk = secp_public(sk, true);
        let mut c = BigNumContext::new().unwrap();
        let p = EcPoint::from_bytes(&g, &pk, &mut c).unwrap();
        let k = EcKey::from_private_components(&g, &BigNum::from_slice(sk).unwrap(), &p).unwrap();
        let h = openssl::sha::sha256(m);
        let s = EcdsaSig::sign(&h, &k).unwrap();
        let mut v = s.r().to_vec_padded(32).unwrap();
        v.extend(s.s().to_vec_padded(32).unwrap());
        v
    }
    pub fn ed_public(seed: &[u8]) -> Vec<u8> {
        PKey::private_key_from_raw_bytes(seed, Id::ED25519).unwrap().raw_public_key().unwrap()
    }
    pub fn ed_sign(m: &[u8], seed: &[u8]) -> Vec<u8> {
        let k = PKey::private_key_from_raw_bytes(seed, Id::ED25519).unwrap();
        Signer::new_without_digest(&k).unwrap().sign_oneshot_to_vec(m).unwrap()
    }
    pub fn ed_verify(m: &[u8], s: &[u8], pk: &[u8]) -> bool {
        let k = match PKey::public_key_from_raw_bytes(pk, Id::ED25519) {
            Ok(k) => k,
            Err(_) => return false,
        };
        let ok = Verifier::new_without_digest(&k).unwrap().verify_oneshot(s, m).unwrap_or(false);
        ok
    }
}

fn accepted(sim: &mut Sim, s: &dyn Any, m: &[u8], sig: &[u8], pk: &PublicKey) -> bool {
    let what = format!("{}.verify", s.name());
    matches!(sim.no_panic(&what, || s.verify(m, sig, pk)), Ok(true))
}

struct Owner {
    pk: PublicKey,
    disk: Vec<u8>,
    json: bool,
}
fn store(k: &PrivateKey, json: bool) -> Vec<u8> {
    if json {
        serde_json::to_vec(k).unwrap()
    } else {
        k[..].to_vec()
    }
}
fn load(sim: &mut Sim, o: &Owner) -> PrivateKey {
    if o.json {
        sim.must("PrivateKey from json", || serde_json::from_slice(&o.disk))
    } else {
        PrivateKey(o.disk.clone())
    }
}

/// Signers that restart, a network, verifiers.
pub fn signing(sim: &mut Sim) {
    let (kind, s) = scheme(sim);
    let s = &*s;
    let (pks, sks, sigs) = s.sizes();
    let n = 1 + sim.pick(3);
    let mut owners: Vec<Owner> = vec![];
    let what = |x: &str| format!("{}.{}", s.name(), x);
    for _ in 0..n {
        let json = sim.coin();
        let (pk, sk) = match sim.choose(4) {
            0 | 1 => sim.must(&what("keypair"), || s.keypair(None)),
            2 => {
                let len = *sim.of(&[32usize, 32, 33, 48, 64, 65, 100]);
                let seed = sim.bytes(len);
                let a = sim.must(&what("keypair(seed)"), || s.keypair(Some(KeyGenOption::UseSeed(seed.clone()))));
                let b = sim.must(&what("keypair(seed)"), || s.keypair(Some(KeyGenOption::UseSeed(seed.clone()))));
                sim.check(a.0 == b.0 && a.1 == b.1, "seed", || "the same seed gave two key pairs".into());
                let mut near = seed.clone();
                // (ECDSA takes the first 32 bytes of a seed)
                let at = if kind == SECP || sim.coin() { sim.pick(32) } else { sim.pick(len) };
                near[at] ^= 1;
                let c = sim.must(&what("keypair(seed)"), || s.keypair(Some(KeyGenOption::UseSeed(near))));
                sim.check(a.0 != c.0, "seed", || "two seeds gave the same key pair".into());
                a
            }
            _ => {
                // a secret from elsewhere
                let seed = loop {
                    let b = sim.bytes(32);
                    if b[0] != 0xff && b.iter().any(|x| *x != 0) {
                        break b;
                    }
                };
                let sk = match kind {
                    ED => [seed.clone(), other::ed_public(&seed)].concat(),
                    SECP => seed,
                    _ => {
                        let mut v = vec![0u8; 48];
                        v[17..].copy_from_slice(&seed[..31]);
                        v[47] |= 1;
                        v
                    }
                };
                sim.must(&what("keypair(secret)"), || s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(sk)))))
            }
        };
        sim.check(pk.len() == pks && sk.len() == sks, "sizes", || format!("{}: keys of {} and {} bytes", s.name(), pk.len(), sk.len()));
        let again = sim.must(&what("keypair(secret)"), || s.keypair(Some(KeyGenOption::FromSecretKey(sk.clone()))));
        sim.check(again.0 == pk && again.1 == sk, "reload", || "the secret key gives another key pair".into());
        let p = sim.must("get_public_key", || s.public_of(&sk));
        sim.check(p == pk, "reload", || "the signer's public key is another".into());
        match kind {
            ED => {
                let p = other::ed_public(&sk[..32]);
                sim.check(p == pk[..], "other-implementation", || "public key".into());
                let e = sim.must("expand_keypair", || Ed25519Sha512::expand_keypair(&sk[..32]));
                sim.check(e.0 == pk && e.1 == sk, "expand", || "expand_keypair gives another key pair".into());
            }
            SECP => {
                let p = other::secp_public(&sk[..], true);
                sim.check(p == pk[..], "other-implementation", || "public key".into());
                let h = EcdsaSecp256k1Sha256::new();
                let full = sim.no_panic("public_key_uncompressed", || h.public_key_uncompressed(&pk));
                sim.check(full == other::secp_public(&sk[..], false), "forms", || "uncompressed form".into());
                sim.check(h.public_key_compressed(&pk) == pk[..], "forms", || "compressed form".into());
                sim.check(full.len() == EcdsaSecp256k1Sha256::public_key_uncompressed_size(), "forms", || "size".into());
                for f in [&full[..], &pk[..]] {
                    let q = sim.must("parse", || h.parse(f));
                    sim.check(q == pk, "forms", || "a key was parsed to another".into());
                }
            }
            _ => {}
        }
        sim.absorb(&pk[..]);
        owners.push(Owner { pk, disk: store(&sk, json), json });
    }
    let distinct: std::collections::BTreeSet<Vec<u8>> = owners.iter().map(|o| o.pk[..].to_vec()).collect();
    sim.check(distinct.len() == n, "keys-repeat", || "two key pairs are the same".into());

    // everybody signs messages; they travel to a verifier
    let mut net = Net::new(NetCfg::swarm(sim, true));
    let mut book: BTreeMap<Vec<u8>, (usize, Vec<u8>)> = BTreeMap::new();
    let rounds = 1 + sim.pick(3);
    let mut sent = vec![];
    for _ in 0..rounds {
        let who = sim.pick(n);
        let len = *sim.of(&[0usize, 1, 16, 31, 32, 63, 64, 65, 127, 128, 200, 4096]);
        let m = sim.bytes(len);
        let k = load(sim, &owners[who]);
        let sg = sim.coin();
        let sig = if kind <= SECP && sim.chance(250) {
            // signed with the other implementation
            if kind == ED {
                other::ed_sign(&m, &k[..32])
            } else {
                let mut v = other::secp_sign(&m, &k[..]);
                // the library accepts signatures in lower form only
                sim.must("normalize_s", || EcdsaSecp256k1Sha256::new().normalize_s(&mut v));
                v
            }
        } else {
            sim.must(&what("sign"), || s.sign(&m, &k, sg))
        };
        sim.check(sig.len() == sigs, "sizes", || format!("{}: signature of {} bytes", s.name(), sig.len()));
        if kind == ED {
            sim.check(other::ed_verify(&m, &sig, &owners[who].pk[..]), "other-implementation", || "refused by OpenSSL".into());
        }
        if kind == SECP {
            sim.check(other::secp_verify(&m, &sig, &owners[who].pk[..]), "other-implementation", || "refused by OpenSSL".into());
            let mut v = sig.clone();
            sim.must("normalize_s", || EcdsaSecp256k1Sha256::new().normalize_s(&mut v));
            sim.check(v == sig, "normal-form", || "a signature was not in normal form".into());
        }
        let mut body = (m.len() as u32).to_be_bytes().to_vec();
        body.extend_from_slice(&m);
        body.extend_from_slice(&sig);
        net.send(sim, who, 9, "signed", body.clone());
        book.insert(sig.clone(), (who, m.clone()));
        sent.push((who, m, sig));
    }
    while let Some(d) = net.next(sim) {
        if d.body.len() < 4 {
            continue;
        }
        let l = u32::from_be_bytes([d.body[0], d.body[1], d.body[2], d.body[3]]) as usize;
        if d.body.len() < 4 + l {
            continue;
        }
        let (m, sig) = (&d.body[4..4 + l], &d.body[4 + l..]);
        let ok = accepted(sim, s, m, sig, &owners[d.from].pk);
        let want = !d.tampered;
        sim.check(ok == want, if want { "genuine-refused" } else { "altered-accepted" }, || {
            format!("{}: from {}, tampered: {}", s.name(), d.from, d.tampered)
        });
        sim.probe(if want { "accepted" } else { "refused" });
    }
    // mixing: every signature against every message and key
    for (who, m, sig) in &sent {
        let (i, j) = (sim.pick(sent.len()), sim.pick(n));
        let ok = accepted(sim, s, &sent[i].1, sig, &owners[j].pk);
        let want = sent[i].1 == *m && j == *who;
        sim.check(ok == want, if want { "genuine-refused" } else { "mixed-accepted" }, || format!("{}: signature of {} for {}", s.name(), who, j));
    }
    // alterations
    for _ in 0..1 + sim.pick(3) {
        let (who, m, sig) = sent[sim.pick(sent.len())].clone();
        alterations(sim, kind, s, &owners[who].pk, &m, &sig);
    }
}

fn alterations(sim: &mut Sim, kind: usize, s: &dyn Any, pk: &PublicKey, m: &[u8], sig: &[u8]) {
    use openssl::bn::BigNum;
    sim.note_fault("net.corrupt");
    let (mut m2, mut s2, mut k2) = (m.to_vec(), sig.to_vec(), pk[..].to_vec());
    let d = match sim.choose(9) {
        0 | 1 => mutate::mutate_bytes(sim, &mut m2),
        2 | 3 => mutate::mutate_bytes(sim, &mut s2),
        4 => mutate::mutate_bytes(sim, &mut k2),
        5 => {
            // the same numbers written differently
            match kind {
                ED => {
                    // S + L
                    let mut le = s2[32..].to_vec();
                    le.reverse();
                    let l = BigNum::from_hex_str("1000000000000000000000000000000014DEF9DEA2F79CD65812631A5CF5D3ED").unwrap();
                    let mut sum = BigNum::new().unwrap();
                    sum.checked_add(&BigNum::from_slice(&le).unwrap(), &l).unwrap();
                    let mut v = sum.to_vec_padded(32).unwrap();
                    v.reverse();
                    s2.truncate(32);
                    s2.extend(v);
                    Some("S + L".to_string())
                }
                SECP => {
                    // n - s
                    let mut x = BigNum::new().unwrap();
                    x.checked_sub(&other::order(), &BigNum::from_slice(&s2[32..]).unwrap()).unwrap();
                    s2.truncate(32);
                    s2.extend(x.to_vec_padded(32).unwrap());
                    Some("n - s".into())
                }
                _ => None,
            }
        }
        6 => {
            // key and signature that fit every message
            match kind {
                ED => {
                    let small: [&str; 4] = [
                        "0100000000000000000000000000000000000000000000000000000000000000",
                        "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
                        "0000000000000000000000000000000000000000000000000000000000000080",
                        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
                    ];
                    k2 = unhex(small[sim.pick(4)]);
                    s2 = unhex(small[sim.pick(4)]);
                    s2.extend(vec![0u8; 32]);
                    Some("small-order key and signature".into())
                }
                SECP => {
                    s2 = vec![0; 64];
                    Some("zero signature".into())
                }
                _ => {
                    for b in s2.iter_mut().chain(k2.iter_mut()) {
                        *b = 0;
                    }
                    s2[0] = 4;
                    k2[0] = 4;
                    if sim.coin() {
                        let (a, b) = (s2.len(), k2.len());
                        s2[a - 1] = 1;
                        k2[b - 1] = 1;
                    }
                    Some("neutral key and signature".into())
                }
            }
        }
        7 => {
            let l = *sim.of(&[0usize, 1, 32, 33, 48, 49, 64, 65, 96, 97, 193]);
            k2 = sim.bytes(l);
            if l > 0 {
                k2[0] = *sim.of(&[2u8, 3, 4, 6, 7, 0, 0xff]);
            }
            Some(format!("key of {} random bytes", l))
        }
        _ => {
            let l = *sim.of(&[0usize, 1, 32, 63, 64, 65, 96, 97, 193]);
            s2 = sim.bytes(l);
            if l > 0 {
                s2[0] = *sim.of(&[2u8, 3, 4, 6, 7, 0, 0xff]);
            }
            Some(format!("signature of {} random bytes", l))
        }
    };
    if d.is_none() || (m2 == m && s2 == sig && k2 == pk[..]) {
        return;
    }
    let ok = accepted(sim, s, &m2, &s2, &PublicKey(k2));
    sim.check(!ok, "altered-accepted", || format!("{}: {:?}", s.name(), d));
    sim.probe("altered");
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Keys, seeds and signatures that are none.
pub fn malformed(sim: &mut Sim) {
    let (kind, s) = scheme(sim);
    let s = &*s;
    let what = |x: &str| format!("{}.{}", s.name(), x);
    let (pk, sk) = sim.must(&what("keypair"), || s.keypair(None));
    sim.note_fault("disk.corrupt");
    match sim.choose(7) {
        0 => {
            let l = sim.choose(80) as usize;
            let seed = sim.bytes(l);
            let r = sim.no_panic(&what("keypair(seed)"), || s.keypair(Some(KeyGenOption::UseSeed(seed.clone()))));
            if let Ok((p, k)) = r {
                works(sim, s, &p, &k);
            }
        }
        1 | 2 => {
            // a stored secret key that was damaged
            let mut b = sk[..].to_vec();
            let d = mutate::mutate_bytes(sim, &mut b);
            use_secret(sim, s, b, format!("{:?}", d));
        }
        3 => {
            let l = *sim.of(&[0usize, 1, 31, 32, 33, 47, 48, 49, 63, 64, 65]);
            let b = match sim.choose(3) {
                0 => vec![0; l],
                1 => vec![0xff; l],
                _ => sim.bytes(l),
            };
            use_secret(sim, s, b, format!("{} bytes", l));
        }
        4 => {
            // keys in JSON
            let j = serde_json::to_string(&pk).unwrap();
            let k: PublicKey = sim.must("PublicKey from json", || serde_json::from_str(&j));
            sim.check(k == pk, "json", || "another key came back".into());
            let mut v: serde_json::Value = serde_json::from_str(&j).unwrap();
            let d = mutate::mutate_scalar(sim, &mut v);
            let t = v.to_string();
            let r = sim.no_panic("PublicKey from json", || serde_json::from_str::<PublicKey>(&t));
            if let Ok(k) = r {
                let m = b"message".to_vec();
                let sig = sim.must(&what("sign"), || s.sign(&m, &sk, false));
                let ok = accepted(sim, s, &m, &sig, &k);
                sim.check(!ok || k == pk, "altered-accepted", || format!("key in json {:?}", d));
            }
            let j = serde_json::to_string(&KeyGenOption::FromSecretKey(sk.clone())).unwrap();
            let o: KeyGenOption = sim.must("KeyGenOption from json", || serde_json::from_str(&j));
            let (p, k) = sim.must(&what("keypair"), || s.keypair(Some(o)));
            sim.check(p == pk && k == sk, "json", || "another key pair came back".into());
        }
        5 if kind == SECP => {
            let h = EcdsaSecp256k1Sha256::new();
            let l = *sim.of(&[0usize, 1, 32, 33, 33, 64, 65, 65, 66]);
            let mut b = sim.bytes(l);
            if l > 0 {
                b[0] = *sim.of(&[2u8, 3, 4, 5, 6, 7, 0]);
            }
            let r = sim.no_panic("parse", || h.parse(&b));
            if let Ok(k) = r {
                let c = sim.no_panic("public_key_compressed", || h.public_key_compressed(&k));
                sim.check(c.len() == 33, "forms", || "size".into());
            } else {
                if sim.chance(120) {
                    // known findings; these end the run
                    if sim.coin() {
                        let _ = sim.no_panic("public_key_compressed", || h.public_key_compressed(&PublicKey(b.clone())));
                    } else {
                        let _ = sim.no_panic("public_key_uncompressed", || h.public_key_uncompressed(&PublicKey(b.clone())));
                    }
                }
            }
            let l = *sim.of(&[0usize, 1, 63, 64, 65, 72]);
            let mut b = sim.bytes(l);
            let _ = sim.no_panic("normalize_s", || h.normalize_s(&mut b));
            // the scheme itself can be stored
            let t = sim.must("EcdsaSecp256k1Sha256 to json", || serde_json::to_string(&h));
            let h2: EcdsaSecp256k1Sha256 = sim.must("EcdsaSecp256k1Sha256 from json", || serde_json::from_str(&t));
            let m = sim.bytes(5);
            let sig = sim.must("sign", || h2.sign(&m, &sk));
            let ok = accepted(sim, s, &m, &sig, &pk);
            sim.check(ok, "genuine-refused", || "scheme from storage".into());
        }
        5 if kind == ED => {
            let l = sim.choose(70) as usize;
            let b = sim.bytes(l);
            if let Ok((p, k)) = sim.no_panic("expand_keypair", || Ed25519Sha512::expand_keypair(&b)) {
                works(sim, s, &p, &k);
            }
            let _ = sim.no_panic("ver_key_to_key_exchange", || Ed25519Sha512::ver_key_to_key_exchange(&PublicKey(b.clone())));
            let _ = sim.no_panic("sign_key_to_key_exchange", || Ed25519Sha512::sign_key_to_key_exchange(&PrivateKey(b.clone())));
        }
        _ => {
            let m = sim.bytes(20);
            let sig = sim.must(&what("sign"), || s.sign(&m, &sk, true));
            for _ in 0..4 {
                alterations(sim, kind, s, &pk, &m, &sig);
            }
        }
    }
    sim.absorb(&pk[..]);
    sim.probe("malformed");
}

/// Whatever was taken as a key must work as one.
fn works(sim: &mut Sim, s: &dyn Any, pk: &PublicKey, sk: &PrivateKey) {
    let m = sim.bytes(9);
    let what = format!("{}.sign", s.name());
    let sig = sim.must(&what, || s.sign(&m, sk, false));
    let ok = accepted(sim, s, &m, &sig, pk);
    sim.check(ok, "genuine-refused", || format!("{}: an accepted key does not work", s.name()));
}
fn use_secret(sim: &mut Sim, s: &dyn Any, b: Vec<u8>, d: String) {
    let k = PrivateKey(b);
    let what = |x: &str| format!("{}.{}", s.name(), x);
    ev!(sim, "{} secret key {}", s.name(), d);
    let p = sim.no_panic(&what("keypair(secret)"), || s.keypair(Some(KeyGenOption::FromSecretKey(k.clone()))));
    let q = sim.no_panic("get_public_key", || s.public_of(&k));
    let m = sim.bytes(7);
    let sig = sim.no_panic(&what("sign"), || s.sign(&m, &k, false));
    sim.check(p.is_ok() == q.is_ok(), "secret-key", || format!("{}: keypair and get_public_key disagree on a key ({})", s.name(), d));
    match (p, sig) {
        (Ok((p, _)), Ok(sig)) => {
            let ok = accepted(sim, s, &m, &sig, &p);
            sim.check(ok, "damaged-secret", || format!("{}: a damaged secret key was accepted and signs for nobody ({})", s.name(), d));
        }
        (Err(_), Ok(_)) => sim.violate("damaged-secret", format!("{}: a secret key that is refused signs ({})", s.name(), d)),
        _ => {}
    }
}
