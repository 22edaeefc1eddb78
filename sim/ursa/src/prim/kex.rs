//! C17: key agreement (X25519, also with converted Ed25519 keys; ECDH over secp256k1).
use super::sigs::unhex;
use simcore::{ev, mutate, Net, NetCfg, Sim};
use std::collections::BTreeMap;
use ursa::kex::secp256k1::EcdhSecp256k1Sha256;
use ursa::kex::x25519::X25519Sha256;
use ursa::kex::KeyExchangeScheme;
use ursa::keys::{KeyGenOption, PrivateKey, PublicKey, SessionKey};
use ursa::signatures::ed25519::Ed25519Sha512;
use ursa::signatures::SignatureScheme;
use ursa::CryptoError;

trait Any {
    fn name(&self) -> &'static str;
    fn keypair(&self, o: Option<KeyGenOption>) -> Result<(PublicKey, PrivateKey), CryptoError>;
    fn shared(&self, k: &PrivateKey, p: &PublicKey) -> Result<SessionKey, CryptoError>;
    fn sizes(&self) -> (usize, usize, usize);
}
struct K<T: KeyExchangeScheme>(&'static str, T);
impl<T: KeyExchangeScheme> Any for K<T> {
    fn name(&self) -> &'static str {
        self.0
    }
    fn keypair(&self, o: Option<KeyGenOption>) -> Result<(PublicKey, PrivateKey), CryptoError> {
        self.1.keypair(o)
    }
    fn shared(&self, k: &PrivateKey, p: &PublicKey) -> Result<SessionKey, CryptoError> {
        self.1.compute_shared_secret(k, p)
    }
    fn sizes(&self) -> (usize, usize, usize) {
        (T::public_key_size(), T::private_key_size(), T::shared_secret_size())
    }
}
fn scheme(x: bool) -> Box<dyn Any> {
    if x {
        Box::new(K("x25519", X25519Sha256::new()))
    } else {
        Box::new(K("secp256k1", EcdhSecp256k1Sha256::new()))
    }
}

/// The same computation in OpenSSL; None when it refuses.
fn other(x: bool, sk: &[u8], pk: &[u8]) -> Option<Vec<u8>> {
    use openssl::bn::{BigNum, BigNumContext};
    use openssl::derive::Deriver;
    use openssl::ec::{EcGroup, EcKey, EcPoint};
    use openssl::nid::Nid;
    use openssl::pkey::{Id, PKey};
    if x {
        let k = PKey::private_key_from_raw_bytes(&sk[..32], Id::X25519).ok()?;
        let p = PKey::public_key_from_raw_bytes(pk, Id::X25519).ok()?;
        let mut d = Deriver::new(&k).ok()?;
        d.set_peer(&p).ok()?;
        let r = d.derive_to_vec().ok()?;
        Some(openssl::sha::sha256(&r).to_vec())
    } else {
        let g = EcGroup::from_curve_name(Nid::SECP256K1).ok()?;
        let mut c = BigNumContext::new().ok()?;
        let p = EcPoint::from_bytes(&g, pk, &mut c).ok()?;
        let p = PKey::from_ec_key(EcKey::from_public_key(&g, &p).ok()?).ok()?;
        let n = BigNum::from_slice(sk).ok()?;
        let mut q = EcPoint::new(&g).ok()?;
        q.mul_generator2(&g, &n, &mut c).ok()?;
        let k = PKey::from_ec_key(EcKey::from_private_components(&g, &n, &q).ok()?).ok()?;
        let mut d = Deriver::new(&k).ok()?;
        d.set_peer(&p).ok()?;
        d.derive_to_vec().ok()
    }
}

struct Party {
    pk: Vec<u8>,
    disk: Vec<u8>,
    json: bool,
}
impl Party {
    fn load(&self, sim: &mut Sim) -> PrivateKey {
        if self.json {
            sim.must("PrivateKey from json", || serde_json::from_slice(&self.disk))
        } else {
            PrivateKey(self.disk.clone())
        }
    }
}

fn new_keys(sim: &mut Sim, x: bool, s: &dyn Any) -> (PublicKey, PrivateKey) {
    let what = |w: &str| format!("{}.{}", s.name(), w);
    match sim.choose(5) {
        0 | 1 => sim.must(&what("keypair"), || s.keypair(None)),
        2 => {
            let len = *sim.of(&[32usize, 32, 33, 64]);
            let seed = sim.bytes(len);
            let a = sim.must(&what("keypair(seed)"), || s.keypair(Some(KeyGenOption::UseSeed(seed.clone()))));
            let b = sim.must(&what("keypair(seed)"), || s.keypair(Some(KeyGenOption::UseSeed(seed.clone()))));
            sim.check(a == b, "seed", || "the same seed gave two key pairs".into());
            let mut near = seed.clone();
            let at = sim.pick(32);
            near[at] ^= 0x10;
            let c = sim.must(&what("keypair(seed)"), || s.keypair(Some(KeyGenOption::UseSeed(near))));
            sim.check(a.0 != c.0, "seed", || "two seeds gave the same key pair".into());
            a
        }
        3 if x => {
            let e = Ed25519Sha512::new();
            let (pk, sk) = sim.must("ed25519.keypair", || e.keypair(None));
            let p = sim.must("ver_key_to_key_exchange", || Ed25519Sha512::ver_key_to_key_exchange(&pk));
            let k = sim.must("sign_key_to_key_exchange", || Ed25519Sha512::sign_key_to_key_exchange(&sk));
            let k2 = sim.must("sign_key_to_key_exchange", || Ed25519Sha512::sign_key_to_key_exchange(&PrivateKey(sk[..32].to_vec())));
            sim.check(k == k2, "conversion", || "the converted key depends on the public half".into());
            let (p2, k2) = sim.must(&what("keypair(secret)"), || s.keypair(Some(KeyGenOption::FromSecretKey(k.clone()))));
            sim.check(p == p2, "conversion", || "converted secret and public key do not match".into());
            sim.check(k == k2, "conversion", || "the converted secret key was changed on loading".into());
            sim.probe("converted");
            (p, k)
        }
        _ => {
            let mut sk = sim.bytes(32);
            sk[0] &= 0x7f;
            sk[31] |= 1;
            sim.must(&what("keypair(secret)"), || s.keypair(Some(KeyGenOption::FromSecretKey(PrivateKey(sk)))))
        }
    }
}

/// Parties publish keys over a network and agree on secrets, over several sessions and restarts.
pub fn agreement(sim: &mut Sim) {
    let x = sim.coin();
    let s = scheme(x);
    let s = &*s;
    let what = |w: &str| format!("{}.{}", s.name(), w);
    let (pks, sks, shs) = s.sizes();
    let n = 2 + sim.pick(3);
    let mut ps: Vec<Party> = vec![];
    for _ in 0..n {
        let (pk, sk) = new_keys(sim, x, s);
        sim.check(pk.len() == pks && sk.len() == sks, "sizes", || format!("{}: keys of {} and {} bytes", s.name(), pk.len(), sk.len()));
        let again = sim.must(&what("keypair(secret)"), || s.keypair(Some(KeyGenOption::FromSecretKey(sk.clone()))));
        sim.check(again.0 == pk, "reload", || "the secret key gives another key pair".into());
        let json = sim.coin();
        let disk = if json { serde_json::to_vec(&sk).unwrap() } else { sk[..].to_vec() };
        sim.absorb(&pk[..]);
        ps.push(Party { pk: pk[..].to_vec(), disk, json });
    }
    for i in 0..n {
        for j in 0..i {
            sim.check(ps[i].pk != ps[j].pk, "keys-repeat", || "two key pairs are the same".into());
        }
    }
    let mut net = Net::new(NetCfg::swarm(sim, true));
    for i in 0..n {
        for j in 0..n {
            if i != j {
                net.send(sim, i, j, "public-key", ps[i].pk.clone());
            }
        }
    }
    // what everybody holds for everybody else
    let mut held: BTreeMap<(usize, usize), (Vec<u8>, bool)> = BTreeMap::new();
    let mut secrets: BTreeMap<Vec<u8>, (usize, usize)> = BTreeMap::new();
    let mut pair: BTreeMap<(usize, usize), Vec<u8>> = BTreeMap::new();
    let mut sessions = 0;
    while let Some(d) = net.next(sim) {
        let (mut b, mut t) = (d.body.clone(), d.tampered);
        if sim.chance(80) {
            sim.note_fault("net.mitm");
            let (p, _) = sim.must(&what("keypair"), || s.keypair(None));
            b = p[..].to_vec();
            t = true;
        }
        let t = t && b != ps[d.from].pk;
        held.insert((d.to, d.from), (b, t));
        // sessions among whoever holds keys by now
        let all: Vec<(usize, usize)> = held.keys().cloned().collect();
        for at in sim.subset(all.len(), 300) {
            let (me, peer) = all[at];
            let (b, t) = held[&(me, peer)].clone();
            let mut k = ps[me].load(sim);
            let raw = k[..].to_vec();
            if sim.fault("crash.restart", 100) {
                k = ps[me].load(sim);
            }
            let p = PublicKey(b.clone());
            let r = sim.no_panic(&what("compute_shared_secret"), || s.shared(&k, &p));
            let r = match r {
                Ok(v) => v,
                Err(e) => {
                    sim.check(t, "genuine-refused", || format!("{}: {}", s.name(), e));
                    sim.probe("refused");
                    continue;
                }
            };
            sessions += 1;
            sim.check(r.len() == shs, "sizes", || format!("a secret of {} bytes", r.len()));
            let want = other(x, &raw, &b);
            sim.check(want.as_deref() == Some(&r[..]), "other-implementation", || {
                format!("{}: the secret for key {:02x?} is not that of OpenSSL ({})", s.name(), b, if want.is_some() { "another" } else { "refused there" })
            });
            if !t {
                let id = (me.min(peer), me.max(peer));
                let first = pair.entry(id).or_insert_with(|| r[..].to_vec()).clone();
                sim.check(first == r[..], "disagree", || format!("{}: {:?} do not agree", s.name(), id));
                let owner = *secrets.entry(first).or_insert(id);
                sim.check(owner == id, "secret-repeats", || format!("{:?} and {:?} have the same secret", owner, id));
                sim.probe("agreed");
            } else {
                // a different key unless it is the same x-coordinate
                if let Some(real) = pair.get(&(me.min(peer), me.max(peer))) {
                    let equivalent = other(x, &raw, &ps[peer].pk) == other(x, &raw, &b);
                    sim.check(real[..] != r[..] || equivalent, "altered-agrees", || "an altered key gave the agreed secret".into());
                }
                sim.probe("altered");
            }
        }
    }
    // once more at rest: all pairs
    for i in 0..n {
        for j in 0..i {
            let (ki, kj) = (ps[i].load(sim), ps[j].load(sim));
            let a = sim.must(&what("compute_shared_secret"), || s.shared(&ki, &PublicKey(ps[j].pk.clone())));
            let b = sim.must(&what("compute_shared_secret"), || s.shared(&kj, &PublicKey(ps[i].pk.clone())));
            sim.check(a == b, "disagree", || format!("{}: {} and {} do not agree", s.name(), i, j));
            let first = pair.entry((j, i)).or_insert_with(|| a[..].to_vec()).clone();
            sim.check(first == a[..], "disagree", || "another session, another secret".into());
            let owner = *secrets.entry(first).or_insert((j, i));
            sim.check(owner == (j, i), "secret-repeats", || "two pairs have the same secret".into());
        }
    }
    ev!(sim, "{} parties, {} sessions", n, sessions);
    sim.probe("run");
}

/// Keys that are none.
pub fn malformed(sim: &mut Sim) {
    let x = sim.coin();
    let s = scheme(x);
    let s = &*s;
    let what = |w: &str| format!("{}.{}", s.name(), w);
    let (pk, sk) = sim.must(&what("keypair"), || s.keypair(None));
    sim.absorb(&pk[..]);
    sim.note_fault("disk.corrupt");
    let (mut p, mut k) = (pk[..].to_vec(), sk[..].to_vec());
    let mut must_refuse = false;
    match sim.choose(6) {
        0 => {
            mutate::mutate_bytes(sim, &mut p);
        }
        1 => {
            mutate::mutate_bytes(sim, &mut k);
        }
        2 => {
            let l = sim.pick(70);
            p = sim.bytes(l);
            if l > 0 && !x {
                p[0] = *sim.of(&[2u8, 3, 4, 0, 6, 7]);
            }
            must_refuse = if x { l != 32 } else { l != 33 };
        }
        3 => {
            let l = sim.pick(70);
            k = sim.bytes(l);
            must_refuse = if x { l < 32 } else { l != 32 };
        }
        4 => {
            // keys that give the same secret to everybody
            must_refuse = true;
            p = if x {
                unhex(sim.of(&[
                    "0000000000000000000000000000000000000000000000000000000000000000",
                    "0100000000000000000000000000000000000000000000000000000000000000",
                    "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
                    "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
                    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
                    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
                    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
                    "0000000000000000000000000000000000000000000000000000000000000080",
                ]))
            } else {
                let l = *sim.of(&[1usize, 33, 65]);
                let mut v = vec![0u8; l];
                v[0] = *sim.of(&[0u8, 2, 4]);
                v
            };
        }
        _ => {
            if !x {
                must_refuse = true;
                k = unhex(sim.of(&[
                    "0000000000000000000000000000000000000000000000000000000000000000",
                    "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
                    "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364142",
                    "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
                ]));
            } else {
                k.truncate(31);
                must_refuse = true;
            }
        }
    }
    let raw = k.clone();
    let (pp, kk) = (PublicKey(p.clone()), PrivateKey(k));
    let r = sim.no_panic(&what("compute_shared_secret"), || s.shared(&kk, &pp));
    if let Ok(v) = r {
        sim.check(!must_refuse, "malformed-accepted", || format!("{}: secret {:02x?}, public {:02x?}", s.name(), raw, p));
        let want = other(x, &raw, &p);
        sim.check(want.as_deref() == Some(&v[..]), "other-implementation", || format!("{}: secret {:02x?}, public {:02x?}", s.name(), raw, p));
        sim.probe("secret");
    } else {
        sim.probe("refused");
    }
    let r = sim.no_panic(&what("keypair(secret)"), || s.keypair(Some(KeyGenOption::FromSecretKey(kk.clone()))));
    if let Ok((p1, k1)) = r {
        // whatever was taken as a key agrees with others
        let (p2, k2) = sim.must(&what("keypair"), || s.keypair(None));
        let a = sim.must(&what("compute_shared_secret"), || s.shared(&k1, &p2));
        let b = sim.must(&what("compute_shared_secret"), || s.shared(&k2, &p1));
        let c = sim.must(&what("compute_shared_secret"), || s.shared(&kk, &p2));
        sim.check(a == b && a == c, "disagree", || format!("{}: a key that was accepted does not work", s.name()));
    }
    let l = sim.pick(40);
    let seed = sim.bytes(l);
    let r = sim.no_panic(&what("keypair(seed)"), || s.keypair(Some(KeyGenOption::UseSeed(seed))));
    if let Ok((p1, k1)) = r {
        let a = sim.must(&what("compute_shared_secret"), || s.shared(&k1, &pk));
        let b = sim.must(&what("compute_shared_secret"), || s.shared(&sk, &p1));
        sim.check(a == b, "disagree", || format!("{}: a key from a seed does not work", s.name()));
    }
}
