//! C13 (threshold secret sharing) and C14 (verifiable secret sharing).
use openssl::bn::{BigNum, BigNumContext};
use simcore::{ev, mutate, Net, NetCfg, Sim, Tier};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use ursa::bn::BigNumber;
use ursa::sharing::shamir;
use ursa_sharing::error::{SharingError, SharingResult};
use ursa_sharing::generic_array::{typenum, GenericArray};
use ursa_sharing::{feldman, pedersen, shamir as gshamir, Field, Group, ShareVerifier};

// ---- arithmetic of the harness (independent of the library) --------------------------------

struct Zp {
    p: BigNum,
    ctx: BigNumContext,
}
impl Zp {
    fn new(hex: &str) -> Zp {
        Zp { p: BigNum::from_hex_str(hex).unwrap(), ctx: BigNumContext::new().unwrap() }
    }
    fn n(&self, v: u32) -> BigNum {
        BigNum::from_u32(v).unwrap()
    }
    fn mul(&mut self, a: &BigNum, b: &BigNum) -> BigNum {
        let mut r = BigNum::new().unwrap();
        r.mod_mul(a, b, &self.p, &mut self.ctx).unwrap();
        r
    }
    fn add(&mut self, a: &BigNum, b: &BigNum) -> BigNum {
        let mut r = BigNum::new().unwrap();
        r.mod_add(a, b, &self.p, &mut self.ctx).unwrap();
        r
    }
    fn sub(&mut self, a: &BigNum, b: &BigNum) -> BigNum {
        let mut r = BigNum::new().unwrap();
        r.mod_sub(a, b, &self.p, &mut self.ctx).unwrap();
        r
    }
    fn inv(&mut self, a: &BigNum) -> BigNum {
        let mut r = BigNum::new().unwrap();
        r.mod_inverse(a, &self.p, &mut self.ctx).unwrap();
        r
    }
    /// Coefficients of the polynomial through the points.
    fn polynomial(&mut self, pts: &[(u32, BigNum)]) -> Vec<BigNum> {
        let n = pts.len();
        let mut out: Vec<BigNum> = (0..n).map(|_| BigNum::new().unwrap()).collect();
        for i in 0..n {
            // product of (x - x_j), scaled
            let mut poly = vec![self.n(1)];
            let mut denom = self.n(1);
            for j in 0..n {
                if i == j {
                    continue;
                }
                let xj = self.n(pts[j].0);
                let mut next: Vec<BigNum> = (0..poly.len() + 1).map(|_| BigNum::new().unwrap()).collect();
                for (k, c) in poly.iter().enumerate() {
                    next[k + 1] = self.add(&next[k + 1], c);
                    let m = self.mul(c, &xj);
                    next[k] = self.sub(&next[k], &m);
                }
                poly = next;
                let xi = self.n(pts[i].0);
                let d = self.sub(&xi, &xj);
                denom = self.mul(&denom, &d);
            }
            let di = self.inv(&denom);
            let s = self.mul(&di, &pts[i].1);
            for (k, c) in poly.iter().enumerate() {
                let m = self.mul(c, &s);
                out[k] = self.add(&out[k], &m);
            }
        }
        out
    }
    fn eval(&mut self, poly: &[BigNum], x: u32) -> BigNum {
        let x = self.n(x);
        let mut r = BigNum::new().unwrap();
        for c in poly.iter().rev() {
            r = self.mul(&r, &x);
            r = self.add(&r, c);
        }
        r
    }
}

const FIELDS: [(&str, &str); 6] = [
    ("ed25519", "1000000000000000000000000000000014DEF9DEA2F79CD65812631A5CF5D3ED"),
    ("bls12-381", "73EDA753299D7D483339D80809A1D80553BDA402FFFE5BFEFFFFFFFF00000001"),
    ("secp256k1", "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141"),
    ("mersenne127", "7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"),
    ("mersenne521", "01FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"),
    ("mersenne89", "01FFFFFFFFFFFFFFFFFFFFFF"),
];

fn size(sim: &mut Sim) -> (u8, u8) {
    match sim.choose(10) {
        0 => {
            let n = 200 + sim.choose(56) as u8;
            (2 + sim.choose(4) as u8, n)
        }
        1 => (255, 255),
        2 => {
            let n = 20 + sim.choose(60);
            (2 + sim.choose(n - 1) as u8, n as u8)
        }
        3 => {
            let n = 2 + sim.choose(6) as u8;
            (n, n)
        }
        _ => {
            let n = 2 + sim.choose(9);
            (2 + sim.choose(n - 1) as u8, n as u8)
        }
    }
}
fn strip(b: &[u8]) -> Vec<u8> {
    let k = b.iter().position(|x| *x != 0).unwrap_or(b.len());
    b[k..].to_vec()
}

/// A dealer, shareholders that crash and answer twice, and a collector.
pub fn dealing(sim: &mut Sim) {
    let (fname, fhex) = FIELDS[sim.pick(FIELDS.len())];
    let field = BigNumber::from_hex(fhex).unwrap();
    let mut z = Zp::new(fhex);
    let (mut t, mut n) = size(sim);
    if sim.tier == Tier::Quick && t == 255 && !sim.chance(100) {
        t = 60;
        n = 61;
    }
    let bytes = (z.p.num_bits() as usize - 1) / 8;
    let secret = match sim.choose(7) {
        0 => vec![1],
        1 => {
            let mut p1 = z.p.to_vec();
            let l = p1.len();
            p1[l - 1] -= 1;
            p1
        }
        2 => {
            // leading and inner zeros
            let mut s = vec![0; bytes];
            s[sim.pick(bytes)] = 1 + sim.choose(255) as u8;
            s
        }
        3 => vec![0xff; bytes],
        4 => {
            let k = 1 + sim.pick(bytes);
            sim.bytes(k)
        }
        _ => sim.bytes(bytes),
    };
    let value = strip(&secret);
    ev!(sim, "{} {}-of-{} secret {} bytes", fname, t, n, secret.len());
    let shares = sim.must("split_secret", || shamir::split_secret(&secret, t, n, &field));
    for s in &shares {
        sim.absorb(&s.to_bytes());
    }
    sim.check(shares.len() == n as usize, "share-count", || format!("{} shares for {}-of-{}", shares.len(), t, n));
    let mut ids: Vec<u8> = shares.iter().map(|s| s.identifier).collect();
    ids.sort();
    ids.dedup();
    sim.check(ids.len() == n as usize && ids[0] != 0, "identifiers", || format!("identifiers {:?}", ids));

    // the dealt polynomial: all shares on it, its secret coefficients look random
    if t <= 12 {
        let pts: Vec<(u32, BigNum)> = shares
            .iter()
            .map(|s| (s.identifier as u32, BigNum::from_slice(&s.value.to_bytes().unwrap()).unwrap()))
            .collect();
        let poly = z.polynomial(&pts[..t as usize]);
        sim.check(poly[0].to_vec() == value, "wrong-secret", || format!("the shares determine {:?} instead of {:?}", poly[0], BigNum::from_slice(&value)));
        for (id, v) in &pts {
            let e = z.eval(&poly, *id);
            sim.check(e == *v, "off-polynomial", || format!("{}-of-{}: share {} does not fit the others", t, n, id));
        }
        let full = z.p.num_bits();
        for (k, c) in poly.iter().enumerate().skip(1) {
            sim.check(c.num_bits() > full - 60, "weak-coefficient", || format!("{}-of-{}: coefficient {} of the sharing polynomial has {} of {} bits", t, n, k, c.num_bits(), full));
            for (l, d) in poly.iter().enumerate() {
                sim.check(l == k || c != d, "repeated-coefficient", || format!("coefficients {} and {} are equal", k, l));
            }
        }
        // another dealing of the same secret
        let again = sim.must("split_secret", || shamir::split_secret(&secret, t, n, &field));
        let same = again.iter().zip(&shares).filter(|(a, b)| a.value == b.value).count();
        sim.check(same == 0, "repeated-dealing", || format!("{} of {} shares are the same in two dealings", same, n));
    }

    // shareholders store their shares as bytes and may crash
    let cfg = NetCfg::swarm(sim, false);
    let mut net = Net::new(cfg);
    let mut stored: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    for (i, s) in shares.iter().enumerate() {
        net.send(sim, 0, i + 1, "share", s.to_bytes());
    }
    while let Some(m) = net.next(sim) {
        stored.insert(m.to, m.body);
    }
    // a dealer resends to those who did not get theirs
    let resend = sim.coin();
    for (i, s) in shares.iter().enumerate() {
        if !stored.contains_key(&(i + 1)) && resend {
            stored.insert(i + 1, s.to_bytes());
        }
    }
    // the collector asks; holders answer late, twice or never
    let cfg = NetCfg::swarm(sim, false);
    let mut net = Net::new(cfg);
    let holders: Vec<usize> = stored.keys().cloned().collect();
    for h in holders {
        if sim.fault("crash.holder", 60) {
            continue;
        }
        let body = stored[&h].clone();
        net.send(sim, h, 0, "answer", body.clone());
        if sim.fault("holder.answers_twice", 100) {
            net.send(sim, h, 0, "answer", body);
        }
    }
    let mut got: Vec<shamir::Share> = vec![];
    let extra = sim.pick(3);
    let mut dup = None;
    while let Some(m) = net.next(sim) {
        let s = sim.must("Share::from_bytes", || shamir::Share::from_bytes(&m.body, &field));
        let orig = &shares[m.from - 1];
        sim.check(s.identifier == orig.identifier && s.value == orig.value, "reload", || format!("share {} reads back as {}", orig.identifier, s.identifier));
        if got.iter().any(|x| x.identifier == s.identifier) {
            dup = Some(s);
            continue;
        }
        if got.len() < t as usize + extra {
            got.push(s);
        }
    }
    let k = got.len();
    ev!(sim, "collected {} distinct shares", k);
    sim.shuffle(&mut got);
    if k >= t as usize {
        let r = sim.must("combine_shares", || shamir::combine_shares(&got[..], &field));
        sim.check(strip(&r) == value, "wrong-secret", || format!("{}: {} shares of {}-of-{} rebuild another secret", fname, k, t, n));
        sim.probe("rebuilt");
        let r = sim.must("combine_shares", || shamir::combine_shares(&got[..t as usize], &field));
        sim.check(strip(&r) == value, "wrong-secret", || format!("{}: {} shares of {}-of-{} rebuild another secret", fname, t, t, n));
        // refused: duplicates
        let i = sim.pick(k);
        let mut d = got.clone();
        let at = sim.pick(k + 1);
        let x = dup.clone().filter(|x| got.iter().any(|g| g.identifier == x.identifier)).unwrap_or(got[i].clone());
        d.insert(at, x);
        sim.must_err("combine_shares with a duplicate", || shamir::combine_shares(&d[..], &field));
        let mut d = got[..t as usize - 1].to_vec();
        d.push(d[sim.pick(t as usize - 1)].clone());
        sim.must_err("combine_shares with a duplicate", || shamir::combine_shares(&d[..], &field));
        let mut d = got.clone();
        d[i].identifier = 0;
        sim.must_err("combine_shares with identifier 0", || shamir::combine_shares(&d[..], &field));
        let mut d = got.clone();
        d[i].value = BigNumber::new().unwrap();
        sim.must_err("combine_shares with an empty share", || shamir::combine_shares(&d[..], &field));
        sim.note_fault("share.duplicated");
        sim.note_fault("share.malformed");
        sim.probe("refused");
    }
    // fewer than the threshold
    let m = k.min(t as usize - 1);
    let few = &got[..m];
    let r = sim.no_panic("combine_shares", || shamir::combine_shares(few, &field));
    match r {
        Ok(r) => {
            sim.check(m >= 2, "too-few-accepted", || format!("{} shares were combined", m));
            sim.check(strip(&r) != value, "too-few-rebuild", || format!("{} shares of {}-of-{} rebuild the secret", m, t, n));
        }
        Err(_) => sim.check(m < 2, "failed:combine_shares", || format!("{} distinct shares were refused", m)),
    }
    sim.probe("too-few");
}

/// Parameters and share bytes that make no sense.
pub fn parameters(sim: &mut Sim) {
    for _ in 0..10 {
        let small = sim.coin();
        let (field, bits) = if small {
            let p = *sim.of(&[0u32, 1, 2, 3, 5, 7, 11, 13, 17, 31, 127, 251, 257, 65537]);
            (BigNumber::from_u32(p as usize).unwrap(), p)
        } else {
            let (_, h) = FIELDS[sim.pick(FIELDS.len())];
            (BigNumber::from_hex(h).unwrap(), u32::MAX)
        };
        let t = *sim.of(&[0u8, 1, 2, 3, 4, 9, 255]);
        let n = *sim.of(&[0u8, 1, 2, 3, 5, 10, 20, 255]);
        if t > 9 && n > 9 {
            continue;
        }
        let sl = *sim.of(&[0usize, 1, 2, 11, 12, 16, 32, 66, 67, 100]);
        let mut secret = sim.bytes(sl);
        if sim.chance(300) {
            for b in &mut secret {
                *b = 0xff;
            }
        }
        if small && sl == 1 {
            secret[0] %= 12;
        }
        let v = BigNumber::from_bytes(&secret).unwrap();
        let possible = t >= 2 && n >= t && sl > 0 && bits >= 2 && v < field && bits > n as u32;
        let r = sim.no_panic("split_secret", || shamir::split_secret(&secret, t, n, &field));
        ev!(sim, "field {:?} {}-of-{} secret {:?} -> {}", bits, t, n, secret, r.is_ok());
        sim.note_fault("parameters");
        match r {
            Ok(shares) => {
                sim.check(possible, "impossible-parameters", || format!("a {}-byte secret was split {}-of-{} in a field of {} elements", sl, t, n, bits));
                // a share may be zero in a tiny field, and is refused then
                if shares.iter().all(|s| !s.value.to_bytes().unwrap().is_empty()) {
                    let r = sim.must("combine_shares", || shamir::combine_shares(&shares[..], &field));
                    sim.check(strip(&r) == strip(&secret), "wrong-secret", || format!("{}-of-{} in a field of {}: rebuilt {:?} instead of {:?}", t, n, bits, r, secret));
                }
                sim.probe("rebuilt");
            }
            Err(_) => {
                sim.check(!possible, "failed:split_secret", || format!("a {}-byte secret could not be split {}-of-{} in a field of {} elements", sl, t, n, bits));
                sim.probe("refused");
            }
        }
    }
    let (_, h) = FIELDS[sim.pick(FIELDS.len())];
    let field = BigNumber::from_hex(h).unwrap();
    for _ in 0..6 {
        let l = *sim.of(&[0usize, 1, 2, 3, 33, 34, 200]);
        let b = sim.bytes(l);
        let r = sim.no_panic("Share::from_bytes", || shamir::Share::from_bytes(&b, &field));
        ev!(sim, "share of {} bytes -> {}", l, r.is_ok());
        match r {
            Ok(s) => {
                sim.check(l > 0, "malformed-share", || "an empty share was read".into());
                sim.check(!l == 0 || s.identifier == b[l - 1], "reload", || format!("identifier {}", s.identifier));
                let r = sim.no_panic("combine_shares", || shamir::combine_shares(&[s.clone()][..], &field));
                sim.check(r.is_err(), "too-few-accepted", || "a single share was combined".into());
            }
            Err(_) => sim.check(l == 0, "failed:Share::from_bytes", || format!("{} bytes were refused", l)),
        }
        sim.note_fault("share.malformed");
    }
    let r = sim.no_panic("combine_shares", || shamir::combine_shares(&[][..], &field));
    sim.check(r.is_err(), "too-few-accepted", || "no shares were combined".into());
}

// ---- a group for the generic schemes -------------------------------------------------------

/// Order of the group, a 62-bit prime, and the prime it lives in.
const Q: u64 = 4611686018427385619;
const P: u64 = 2 * Q + 1;
fn mulmod(a: u64, b: u64, m: u64) -> u64 {
    ((a as u128 * b as u128) % m as u128) as u64
}
fn powmod(mut a: u64, mut e: u64, m: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(r, a, m);
        }
        a = mulmod(a, a, m);
        e >>= 1;
    }
    r
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fe(u64);
/// Quadratic residues modulo P, written as a group of order Q.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ge(u64);

impl Group for Fe {
    type Size = typenum::U8;
    fn zero() -> Self {
        Fe(0)
    }
    fn from_bytes<B: AsRef<[u8]>>(value: B) -> SharingResult<Self> {
        let v = value.as_ref();
        if v.is_empty() || v.len() > 8 {
            return Err(SharingError::ShareInvalidValue);
        }
        let mut b = [0u8; 8];
        b[8 - v.len()..].copy_from_slice(v);
        let x = u64::from_be_bytes(b);
        if x >= Q {
            return Err(SharingError::ShareInvalidValue);
        }
        Ok(Fe(x))
    }
    fn random(rng: &mut (impl rand::RngCore + rand::CryptoRng)) -> Self {
        loop {
            let x = rng.next_u64() >> 2;
            if x < Q && x != 0 {
                return Fe(x);
            }
        }
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
    fn is_valid(&self) -> bool {
        self.0 != 0 && self.0 < Q
    }
    fn negate(&mut self) {
        self.0 = (Q - self.0) % Q;
    }
    fn add_assign(&mut self, rhs: &Self) {
        self.0 = ((self.0 as u128 + rhs.0 as u128) % Q as u128) as u64;
    }
    fn sub_assign(&mut self, rhs: &Self) {
        self.0 = ((self.0 as u128 + (Q - rhs.0) as u128) % Q as u128) as u64;
    }
    fn scalar_mul_assign(&mut self, rhs: &Fe) {
        self.0 = mulmod(self.0, rhs.0, Q);
    }
    fn to_bytes(&self) -> GenericArray<u8, Self::Size> {
        GenericArray::clone_from_slice(&self.0.to_be_bytes())
    }
}
impl Field for Fe {
    fn one() -> Self {
        Fe(1)
    }
    fn from_usize(value: usize) -> Self {
        Fe((value as u128 % Q as u128) as u64)
    }
    fn scalar_div_assign(&mut self, rhs: &Self) {
        assert!(rhs.0 != 0, "division by zero in the field");
        self.0 = mulmod(self.0, powmod(rhs.0, Q - 2, Q), Q);
    }
}
impl Group<Fe> for Ge {
    type Size = typenum::U9;
    fn zero() -> Self {
        Ge(1)
    }
    fn from_bytes<B: AsRef<[u8]>>(value: B) -> SharingResult<Self> {
        let v = value.as_ref();
        if v.len() != 9 || v[0] != 2 {
            return Err(SharingError::InvalidPoint);
        }
        let mut b = [0u8; 8];
        b.copy_from_slice(&v[1..]);
        let x = u64::from_be_bytes(b);
        if x == 0 || x >= P || powmod(x, Q, P) != 1 {
            return Err(SharingError::InvalidPoint);
        }
        Ok(Ge(x))
    }
    fn random(rng: &mut (impl rand::RngCore + rand::CryptoRng)) -> Self {
        loop {
            let x = rng.next_u64() % P;
            if x > 1 && x != P - 1 {
                return Ge(mulmod(x, x, P));
            }
        }
    }
    fn is_zero(&self) -> bool {
        self.0 == 1
    }
    fn is_valid(&self) -> bool {
        self.0 > 1 && self.0 < P
    }
    fn negate(&mut self) {
        self.0 = powmod(self.0, P - 2, P);
    }
    fn add_assign(&mut self, rhs: &Self) {
        self.0 = mulmod(self.0, rhs.0, P);
    }
    fn sub_assign(&mut self, rhs: &Self) {
        self.0 = mulmod(self.0, powmod(rhs.0, P - 2, P), P);
    }
    fn scalar_mul_assign(&mut self, rhs: &Fe) {
        self.0 = powmod(self.0, rhs.0, P);
    }
    fn to_bytes(&self) -> GenericArray<u8, Self::Size> {
        let mut b = vec![2u8];
        b.extend_from_slice(&self.0.to_be_bytes());
        GenericArray::clone_from_slice(&b)
    }
}
/// The dealer's generator, seeded by the simulator.
struct SimRng(u64);
impl rand::RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        simcore::entropy::splitmix(&mut self.0)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&v[..n]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand::CryptoRng for SimRng {}
fn rng(sim: &mut Sim) -> SimRng {
    SimRng(sim.choose(1 << 60) + 1)
}
fn scalar(sim: &mut Sim) -> Fe {
    match sim.choose(4) {
        0 => Fe(1 + sim.choose(5)),
        1 => Fe(Q - 1 - sim.choose(5)),
        _ => Fe(1 + sim.choose(Q - 1)),
    }
}
fn gsize(sim: &mut Sim) -> (usize, usize) {
    let n = match sim.choose(8) {
        0 => 200 + sim.pick(150),
        1 => 30 + sim.pick(40),
        _ => 2 + sim.pick(9),
    };
    let t = match sim.choose(4) {
        0 => n.min(60),
        1 => 2,
        _ => 2 + sim.pick(n.min(40) - 1),
    };
    (t, n)
}
fn value_of(s: &gshamir::Share) -> Fe {
    Fe::from_bytes(s.value()).unwrap_or(Fe(0))
}
fn interpolate(pts: &[(u64, u64)]) -> u64 {
    let mut r = 0u128;
    for (i, (xi, yi)) in pts.iter().enumerate() {
        let mut num = 1;
        let mut den = 1;
        for (j, (xj, _)) in pts.iter().enumerate() {
            if i != j {
                num = mulmod(num, *xj, Q);
                den = mulmod(den, ((*xj as u128 + Q as u128 - *xi as u128) % Q as u128) as u64, Q);
            }
        }
        let l = mulmod(num, powmod(den, Q - 2, Q), Q);
        r = (r + mulmod(*yi, l, Q) as u128) % Q as u128;
    }
    r as u64
}

/// The generic scheme: same story over an abstract field, shares combined also "in the exponent".
pub fn generic(sim: &mut Sim) {
    let (t, n) = gsize(sim);
    let secret = scalar(sim);
    let scheme = sim.must("Scheme::new", || gshamir::Scheme::new(t, n));
    let mut r = rng(sim);
    let shares = sim.must("split_secret", || scheme.split_secret(&mut r, &secret));
    ev!(sim, "{}-of-{} secret {}", t, n, secret.0);
    sim.check(shares.len() == n, "share-count", || format!("{} shares for {}-of-{}", shares.len(), t, n));
    // every share lies on one polynomial of degree below t with the secret at 0
    let pts: Vec<(u64, u64)> = shares.iter().map(|s| (s.identifier() as u64, value_of(s).0)).collect();
    for w in 0..3 {
        let pick = sim.subset(n, t);
        let p: Vec<(u64, u64)> = pick.iter().map(|i| pts[*i]).collect();
        let x = interpolate(&p);
        sim.check(x == secret.0, "wrong-secret", || format!("subset {} of {}-of-{} determines another secret", w, t, n));
    }
    // storage and network
    let cfg = NetCfg::swarm(sim, false);
    let mut net = Net::new(cfg);
    for (i, s) in shares.iter().enumerate() {
        if sim.fault("crash.holder", 60) {
            continue;
        }
        let b = sim.no_panic("Share::to_bytes", || s.to_bytes());
        sim.absorb(&b);
        net.send(sim, i + 1, 0, "answer", b);
    }
    let mut got: Vec<gshamir::Share> = vec![];
    let extra = sim.pick(3);
    while let Some(m) = net.next(sim) {
        let s = sim.must("Share::try_from", || gshamir::Share::try_from(&m.body[..]));
        let o = &shares[m.from - 1];
        sim.check(s.identifier() == o.identifier() && s.value() == o.value(), "reload", || format!("share {} reads back as {} ({} bytes)", o.identifier(), s.identifier(), s.value().len()));
        if got.len() < t + extra && !got.iter().any(|x| x.identifier() == s.identifier()) {
            got.push(s);
        }
    }
    sim.shuffle(&mut got);
    let k = got.len();
    if k >= t {
        let x: Fe = sim.must("combine_shares", || scheme.combine_shares::<Fe, Fe>(&got));
        sim.check(x == secret, "wrong-secret", || format!("{} shares of {}-of-{} rebuild another secret", k, t, n));
        sim.probe("rebuilt");
        // shares in the exponent
        let g = Ge::random(&mut r);
        let lifted: Vec<gshamir::Share> = got
            .iter()
            .map(|s| {
                let mut y = g;
                y.scalar_mul_assign(&value_of(s));
                gshamir::Share::new(s.identifier() as usize, y.to_bytes())
            })
            .collect();
        let x: Ge = sim.must("combine_shares", || scheme.combine_shares::<Fe, Ge>(&lifted));
        let mut want = g;
        want.scalar_mul_assign(&secret);
        sim.check(x == want, "wrong-secret", || format!("{} lifted shares rebuild another secret", k));

        let i = sim.pick(k);
        let mut d = got.clone();
        let at = sim.pick(k + 1);
        d.insert(at, got[i].clone());
        sim.must_err("combine_shares with a duplicate", || scheme.combine_shares::<Fe, Fe>(&d));
        let mut d = got[..t - 1].to_vec();
        let j = sim.pick(t - 1);
        d.push(gshamir::Share::new(d[j].identifier() as usize, &Fe(1 + j as u64).to_bytes()));
        sim.must_err("combine_shares with a duplicate", || scheme.combine_shares::<Fe, Fe>(&d));
        let bad = match sim.choose(5) {
            0 => gshamir::Share::new(0, got[i].value()),
            1 => gshamir::Share::new(got[i].identifier() as usize, &[]),
            2 => gshamir::Share::new(got[i].identifier() as usize, &[0u8; 8]),
            3 => gshamir::Share::new(got[i].identifier() as usize, &[0xffu8; 8]),
            _ => gshamir::Share::new(got[i].identifier() as usize, &[1u8; 20]),
        };
        let mut d = got.clone();
        d[i] = bad;
        sim.must_err("combine_shares with a malformed share", || scheme.combine_shares::<Fe, Fe>(&d));
        sim.note_fault("share.duplicated");
        sim.note_fault("share.malformed");
        sim.probe("refused");
    }
    let m = k.min(t - 1);
    sim.must_err("combine_shares with too few", || scheme.combine_shares::<Fe, Fe>(&got[..m]));
    // fewer shares, put through a scheme with a lower threshold, say nothing
    if m >= 2 {
        let low = gshamir::Scheme::new(m, n).unwrap();
        let x: Fe = sim.must("combine_shares", || low.combine_shares::<Fe, Fe>(&got[..m]));
        sim.check(x != secret, "too-few-rebuild", || format!("{} shares of {}-of-{} rebuild the secret", m, t, n));
    }
    sim.probe("too-few");

    // parameters
    for _ in 0..4 {
        let (a, b) = (sim.pick(6), sim.pick(6));
        let r = sim.no_panic("Scheme::new", || gshamir::Scheme::new(a, b));
        sim.check(r.is_ok() == (a >= 2 && b >= a), "impossible-parameters", || format!("shamir {}-of-{} gives {}", a, b, r.is_ok()));
        let r = sim.no_panic("Scheme::new", || feldman::Scheme::new(a, b));
        sim.check(r.is_ok() == (a >= 2 && b >= a), "impossible-parameters", || format!("feldman {}-of-{} gives {}", a, b, r.is_ok()));
        let r = sim.no_panic("Scheme::new", || pedersen::Scheme::new(a, b));
        sim.check(r.is_ok() == (a >= 2 && b >= a), "impossible-parameters", || format!("pedersen {}-of-{} gives {}", a, b, r.is_ok()));
    }
    sim.must_err("split_secret of zero", || scheme.split_secret(&mut r, &Fe(0)));
    let l = sim.pick(12);
    let b = sim.bytes(l);
    let r = sim.no_panic("Share::try_from", || gshamir::Share::try_from(&b[..]));
    sim.check(r.is_ok() == (l >= 4), "malformed-share", || format!("a share of {} bytes gives {}", l, r.is_ok()));
}

// ---- C14 ---------------------------------------------------------------------------------

/// Either verifiable scheme.
#[derive(Clone)]
enum Deal {
    F(feldman::Scheme, feldman::FeldmanVerifier<Fe, Ge>, Vec<gshamir::Share>),
    P(pedersen::Scheme, pedersen::PedersenVerifier<Fe, Ge>, Vec<gshamir::Share>, Vec<gshamir::Share>),
}
/// A share as its holder keeps it.
#[derive(Clone, Debug)]
struct Held {
    s: gshamir::Share,
    b: Option<gshamir::Share>,
}
impl Held {
    fn same(&self, o: &Held) -> bool {
        let eq = |a: &gshamir::Share, b: &gshamir::Share| a.identifier() == b.identifier() && Fe::from_bytes(a.value()).ok().map(|x| x.0) == Fe::from_bytes(b.value()).ok().map(|x| x.0);
        eq(&self.s, &o.s)
            && match (&self.b, &o.b) {
                (Some(a), Some(b)) => eq(a, b),
                _ => true,
            }
    }
}
impl Deal {
    fn new(sim: &mut Sim, pedersen: bool, t: usize, n: usize, secret: Fe, gens: Option<(Ge, Ge)>) -> Deal {
        let mut r = rng(sim);
        if pedersen {
            let s = sim.must("pedersen::Scheme::new", || pedersen::Scheme::new(t, n));
            let (g, h) = (gens.map(|x| x.0), gens.map(|x| x.1));
            let d = sim.must("pedersen::split_secret", || s.split_secret::<Fe, Ge>(&mut r, &secret, g, h));
            sim.check(d.secret_shares.len() == n && d.blinding_shares.len() == n, "share-count", || format!("{} and {} shares for {}-of-{}", d.secret_shares.len(), d.blinding_shares.len(), t, n));
            if let Some((g, h)) = gens {
                sim.check(d.verifier.g == g && d.verifier.h == h, "generators", || "the given generators were not used".into());
            }
            let pts: Vec<(u64, u64)> = d.blinding_shares[..t].iter().map(|s| (s.identifier() as u64, value_of(s).0)).collect();
            let x = interpolate(&pts);
            sim.check(x == d.blinding.0, "wrong-secret", || "the blinding shares do not determine the blinding factor".into());
            Deal::P(s, d.verifier, d.secret_shares, d.blinding_shares)
        } else {
            let s = sim.must("feldman::Scheme::new", || feldman::Scheme::new(t, n));
            let g = gens.map(|x| x.0);
            let (v, sh) = sim.must("feldman::split_secret", || s.split_secret::<Fe, Ge>(&mut r, &secret, g));
            sim.check(sh.len() == n, "share-count", || format!("{} shares for {}-of-{}", sh.len(), t, n));
            if let Some((g, _)) = gens {
                sim.check(v.g == g, "generators", || "the given generator was not used".into());
            }
            Deal::F(s, v, sh)
        }
    }
    fn held(&self, i: usize) -> Held {
        match self {
            Deal::F(_, _, s) => Held { s: s[i].clone(), b: None },
            Deal::P(_, _, s, b) => Held { s: s[i].clone(), b: Some(b[i].clone()) },
        }
    }
    fn verify(&self, h: &Held) -> SharingResult<()> {
        match self {
            Deal::F(s, v, _) => s.verify_share(&h.s, v),
            Deal::P(s, v, _, _) => s.verify_share(&h.s, h.b.as_ref().unwrap(), v),
        }
    }
    fn combine(&self, s: &[gshamir::Share]) -> SharingResult<Fe> {
        match self {
            Deal::F(x, _, _) => x.combine_shares::<Fe, Fe>(s),
            Deal::P(x, _, _, _) => x.combine_shares::<Fe, Fe>(s),
        }
    }
    fn to_bytes(&self) -> Vec<u8> {
        match self {
            Deal::F(_, v, _) => v.to_bytes(),
            Deal::P(_, v, _, _) => v.to_bytes(),
        }
    }
    fn reload(&self, b: &[u8]) -> SharingResult<Deal> {
        Ok(match self {
            Deal::F(s, _, sh) => Deal::F(*s, feldman::FeldmanVerifier::try_from(b)?, sh.clone()),
            Deal::P(s, _, sh, bl) => Deal::P(*s, pedersen::PedersenVerifier::try_from(b)?, sh.clone(), bl.clone()),
        })
    }
    /// Everything published, as numbers.
    fn published(&self) -> Vec<Vec<u8>> {
        let c = |v: &Vec<ShareVerifier<Fe, Ge>>| v.iter().map(|x| x.to_bytes().to_vec()).collect::<Vec<_>>();
        match self {
            Deal::F(_, v, _) => [vec![v.g.to_bytes().to_vec()], c(&v.commitments)].concat(),
            Deal::P(_, v, _, _) => [vec![v.g.to_bytes().to_vec(), v.h.to_bytes().to_vec()], c(&v.commitments)].concat(),
        }
    }
    fn gens(&self) -> usize {
        match self {
            Deal::F(..) => 1,
            Deal::P(..) => 2,
        }
    }
    fn set(&mut self, i: usize, x: Ge) {
        let b = x.to_bytes();
        let sv = ShareVerifier::try_from(&b[..]).unwrap();
        match self {
            Deal::F(_, v, _) => {
                if i == 0 {
                    v.g = x
                } else {
                    v.commitments[i - 1] = sv
                }
            }
            Deal::P(_, v, _, _) => {
                if i == 0 {
                    v.g = x
                } else if i == 1 {
                    v.h = x
                } else {
                    v.commitments[i - 2] = sv
                }
            }
        }
    }
    fn commitments(&mut self) -> &mut Vec<ShareVerifier<Fe, Ge>> {
        match self {
            Deal::F(_, v, _) => &mut v.commitments,
            Deal::P(_, v, _, _) => &mut v.commitments,
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Deal::F(..) => "feldman",
            Deal::P(..) => "pedersen",
        }
    }
}

fn alter_share(sim: &mut Sim, s: &gshamir::Share, n: usize) -> (gshamir::Share, &'static str) {
    let id = s.identifier() as usize;
    match sim.choose(6) {
        0 if sim.coin() => {
            // one bit of the number, which narrow arithmetic may lose
            let j = id ^ (1 << sim.pick(32));
            (gshamir::Share::new(j, s.value()), "share.identifier")
        }
        0 => {
            let mut j = 1 + sim.pick(n + 2);
            if j == id {
                j += 1;
            }
            (gshamir::Share::new(j, s.value()), "share.identifier")
        }
        1 => (gshamir::Share::new(0, s.value()), "share.identifier"),
        2 => {
            let d = 1 + sim.choose(Q - 1);
            let d = if sim.coin() { 1 } else { d };
            let mut v = value_of(s);
            v.add_assign(&Fe(d));
            (gshamir::Share::new(id, v.to_bytes()), "share.value")
        }
        3 => {
            let mut b = s.value().to_vec();
            mutate::mutate_bytes(sim, &mut b);
            (gshamir::Share::new(id, b), "share.value")
        }
        4 => {
            let mut v = value_of(s);
            v.negate();
            (gshamir::Share::new(id, v.to_bytes()), "share.value")
        }
        _ => (gshamir::Share::new(id, &Fe(0).to_bytes()), "share.value"),
    }
}

pub fn verifiable(sim: &mut Sim) {
    let ped = sim.coin();
    let n = if sim.chance(60) { 250 + sim.pick(60) } else { 2 + sim.pick(9) };
    let t = 2 + sim.pick(n.min(12) - 1);
    let secret = scalar(sim);
    let mut r = rng(sim);
    let gens = if sim.coin() { Some((Ge::random(&mut r), Ge::random(&mut r))) } else { None };
    let deal = Deal::new(sim, ped, t, n, secret, gens);
    let name = deal.name();
    ev!(sim, "{} {}-of-{} secret {}", name, t, n, secret.0);
    for p in deal.published() {
        sim.absorb(&p);
    }
    let count = deal.published().len();
    sim.check(count == t + deal.gens(), "commitment-count", || format!("{}: {} published values for threshold {}", name, count, t));
    // the board and the shares travel and are stored
    let board = deal.to_bytes();
    let cfg = NetCfg::swarm(sim, false);
    let mut net = Net::new(cfg);
    for i in 0..n {
        let h = deal.held(i);
        let mut b = sim.no_panic("Share::to_bytes", || h.s.to_bytes());
        if let Some(x) = &h.b {
            b.extend(x.to_bytes());
        }
        net.send(sim, 0, i + 1, "share", b);
    }
    let mut holders: BTreeMap<usize, Held> = BTreeMap::new();
    while let Some(m) = net.next(sim) {
        let (a, b) = if ped { m.body.split_at(m.body.len() / 2) } else { (&m.body[..], &[][..]) };
        let s = sim.must("Share::try_from", || gshamir::Share::try_from(a));
        let b = if ped { Some(sim.must("Share::try_from", || gshamir::Share::try_from(b))) } else { None };
        holders.insert(m.to, Held { s, b });
    }
    // each holder reads the board, perhaps after a restart, and checks its share
    let seen = if sim.fault("crash.restart", 600) {
        sim.must("verifier try_from", || deal.reload(&board))
    } else {
        deal.clone()
    };
    let same = seen.published() == deal.published();
    sim.check(same, "reload", || format!("{}: the published commitments read back differently", name));
    for (i, h) in &holders {
        let res = sim.no_panic("verify_share", || seen.verify(h));
        ev!(sim, "holder {} -> {}", i, res.is_ok());
        sim.check(res.is_ok(), "failed:verify_share", || format!("{}: genuine share {} of {}-of-{} is refused: {:?}", name, i, t, n, res));
        sim.probe("verified");
    }
    // collect verified shares
    let mut good: Vec<gshamir::Share> = holders.values().map(|h| h.s.clone()).collect();
    sim.shuffle(&mut good);
    if good.len() >= t {
        let k = t + sim.pick(good.len() - t + 1);
        let x = sim.must("combine_shares", || seen.combine(&good[..k]));
        sim.check(x == secret, "wrong-secret", || format!("{}: {} verified shares of {}-of-{} rebuild another secret", name, k, t, n));
        sim.probe("rebuilt");
    }
    sim.must_err("combine_shares with too few", || seen.combine(&good[..good.len().min(t - 1)]));

    // another dealing, of the same secret and generators half of the time
    let secret2 = if sim.coin() { secret } else { scalar(sim) };
    let pub0 = deal.published();
    let gens2 = if sim.coin() { Some((Ge::from_bytes(&pub0[0]).unwrap(), Ge::from_bytes(&pub0[1]).unwrap())) } else { gens };
    let gens2 = match (&deal, gens2) {
        (Deal::F(_, v, _), Some(_)) => Some((v.g, v.g)),
        (Deal::P(_, v, _, _), Some(_)) => Some((v.g, v.h)),
        _ => None,
    };
    let other = Deal::new(sim, ped, t, n, secret2, gens2);

    for _ in 0..14 {
        let i = sim.pick(n);
        let genuine = deal.held(i);
        let mut h = genuine.clone();
        let mut d = seen.clone();
        let what: &'static str;
        match sim.choose(9) {
            0 | 1 => {
                let (s, w) = alter_share(sim, &h.s, n);
                if w == "share.identifier" && sim.coin() {
                    // both parts alike
                    h.b = h.b.map(|b| gshamir::Share::new(s.identifier() as usize, b.value()));
                }
                h.s = s;
                what = w;
            }
            2 => {
                if let Some(b) = &h.b {
                    let (s, _) = alter_share(sim, b, n);
                    h.b = Some(s);
                    what = "share.blinding";
                } else {
                    let (s, w) = alter_share(sim, &h.s, n);
                    h.s = s;
                    what = w;
                }
            }
            3 => {
                // from the other dealing, or a mix
                let o = other.held(i);
                match sim.choose(3) {
                    0 => h = o,
                    1 => h.s = o.s,
                    _ => {
                        if ped {
                            h.b = o.b
                        } else {
                            h = o
                        }
                    }
                }
                what = "share.other_dealing";
            }
            4 => {
                // another holder's, or the two parts of different holders
                let j = sim.pick(n);
                let o = deal.held(j);
                if ped {
                    h.b = o.b;
                    what = "share.mixed";
                } else {
                    h.s = gshamir::Share::new(h.s.identifier() as usize, o.s.value());
                    what = "share.value";
                }
            }
            5 => {
                // one published value replaced
                let vals = d.published();
                let k = sim.pick(vals.len());
                let x = match sim.choose(4) {
                    0 => Ge::zero(),
                    1 => Ge::random(&mut r),
                    2 => {
                        let ov = other.published();
                        Ge::from_bytes(&ov[k]).unwrap()
                    }
                    _ => {
                        let l = sim.pick(vals.len());
                        Ge::from_bytes(&vals[l]).unwrap()
                    }
                };
                d.set(k, x);
                what = "commitment.altered";
            }
            6 => {
                // truncated or extended
                match sim.choose(3) {
                    0 => {
                        let c = d.commitments();
                        let k = sim.pick(c.len());
                        c.truncate(k);
                    }
                    1 => {
                        let c = d.commitments();
                        let k = sim.pick(c.len());
                        c.remove(k);
                    }
                    _ => {
                        let x = if sim.coin() { Ge::random(&mut r) } else { Ge::zero() };
                        let b = x.to_bytes();
                        d.commitments().push(ShareVerifier::try_from(&b[..]).unwrap());
                    }
                }
                what = "commitment.truncated";
            }
            7 => {
                // degenerate: every published value is neutral
                let k = d.published().len();
                let gens = d.gens();
                let all = sim.coin();
                for j in 0..k {
                    if all || j >= gens {
                        d.set(j, Ge::zero());
                    }
                }
                if sim.coin() {
                    h.s = gshamir::Share::new(h.s.identifier() as usize, &scalar(sim).to_bytes());
                }
                what = "commitment.neutral";
            }
            _ => {
                d = other.clone();
                what = "commitment.other_dealing";
            }
        }
        let unchanged = h.same(&genuine) && d.published() == deal.published();
        if unchanged {
            continue;
        }
        sim.note_fault(what);
        let res = sim.no_panic("verify_share", || d.verify(&h));
        ev!(sim, "{} -> {}", what, res.is_ok());
        sim.check(res.is_err(), &format!("altered-accepted:{}", what), || {
            format!("{} {}-of-{}: share {} verifies although {} was altered (identifier {}, {} commitments)", name, t, n, i + 1, what, h.s.identifier(), d.published().len() - d.gens())
        });
        sim.probe("refused");
    }

    // the board, damaged
    for _ in 0..4 {
        let mut b = board.clone();
        let w = match sim.choose(4) {
            0 => {
                // count of commitments
                let at = 9 * deal.gens();
                let c = *sim.of(&[0u32, 1, (t + 1) as u32, 1000, 0x7fff_ffff, u32::MAX]);
                b[at..at + 4].copy_from_slice(&c.to_be_bytes());
                "board.count"
            }
            1 => {
                let k = sim.pick(b.len());
                b.truncate(k);
                "board.truncated"
            }
            2 => {
                let k = 1 + sim.pick(12);
                b.extend(sim.bytes(k));
                "board.extended"
            }
            _ => {
                mutate::mutate_bytes(sim, &mut b);
                "board.bytes"
            }
        };
        if b == board {
            continue;
        }
        sim.note_fault(w);
        let res = sim.no_panic("verifier try_from", || deal.reload(&b));
        ev!(sim, "{} -> {}", w, res.is_ok());
        match res {
            Err(_) => sim.probe("refused"),
            Ok(d) => {
                let h = deal.held(sim.pick(n));
                let res = sim.no_panic("verify_share", || d.verify(&h));
                sim.check(res.is_err(), &format!("altered-accepted:{}", w), || format!("{}: a share verifies against a damaged board ({})", name, w));
                sim.probe("refused");
            }
        }
    }
}

/// A dealer whose polynomial is not what the threshold says.
pub fn dishonest(sim: &mut Sim) {
    let ped = sim.coin();
    let n = 3 + sim.pick(6);
    let t = 2 + sim.pick(n - 2);
    let secret = scalar(sim);
    // dealt with a higher threshold, announced with a lower one
    let deal = Deal::new(sim, ped, t + 1, n, secret, None);
    let announced = match deal.clone() {
        Deal::F(_, v, s) => Deal::F(feldman::Scheme::new(t, n).unwrap(), v, s),
        Deal::P(_, v, s, b) => Deal::P(pedersen::Scheme::new(t, n).unwrap(), v, s, b),
    };
    ev!(sim, "{} dealt {} announced {} of {} secret {}", deal.name(), t + 1, t, n, secret.0);
    sim.note_fault("dealer.degree");
    let mut ok = vec![];
    for i in 0..n {
        let h = announced.held(i);
        if sim.no_panic("verify_share", || announced.verify(&h)).is_ok() {
            ok.push(h.s);
        }
    }
    if ok.len() >= t {
        sim.shuffle(&mut ok);
        let a = sim.must("combine_shares", || announced.combine(&ok[..t]));
        sim.check(a == secret, "verified-not-rebuilding", || format!("{}: {} shares verified against {} commitments do not rebuild the secret", deal.name(), t, t + 1));
    } else {
        sim.probe("refused");
    }
    sim.probe("judged");
}
