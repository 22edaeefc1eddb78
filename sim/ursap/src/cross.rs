//! Issuers, holders and verifiers of the two builds speak with each other. Everything that passes
//! between the parties is JSON; every party may run either build at every step.
use crate::cl::world::isolated;
use serde_json::Value;
use simcore::{ensure, ev, mutate, Sim};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, OnceLock};

type Res<T> = Result<T, String>;

#[derive(Clone, Debug)]
pub struct Attr {
    name: String,
    known: bool,
    dec: String,
}
#[derive(Clone, Debug, Default)]
pub struct Spec {
    attrs: Vec<String>,
    non: Vec<String>,
    revealed: Vec<String>,
    predicates: Vec<(String, &'static str, i32)>,
    common: Vec<String>,
}
pub struct Registry {
    max: u32,
    by_default: bool,
    rkp: String,
    rks: String,
    reg: String,
    tails: Vec<String>,
}
pub struct Wallet<'a> {
    values: &'a [Attr],
    sig: &'a str,
    pk: &'a str,
    rev: Option<(&'a str, &'a str)>,
}

macro_rules! side {
    ($m:ident, $c:ident) => {
        mod $m {
            use super::{Attr, Registry, Res, Spec, Wallet};
            use serde::{de::DeserializeOwned, Serialize};
            use $c::bn::BigNumber;
            use $c::cl::issuer::Issuer;
            use $c::cl::prover::Prover;
            use $c::cl::verifier::Verifier;
            use $c::cl::*;
            use $c::errors::{UrsaCryptoError, UrsaCryptoErrorKind, UrsaCryptoResult};

            fn out<T: Serialize>(t: &T) -> String {
                serde_json::to_string(t).unwrap()
            }
            fn inp<T: DeserializeOwned>(s: &str) -> Res<T> {
                serde_json::from_str(s).map_err(|e| format!("read: {e}"))
            }
            fn e(x: UrsaCryptoError) -> String {
                x.to_string()
            }
            struct Tails(Vec<Tail>);
            impl RevocationTailsAccessor for Tails {
                fn access_tail(&self, id: u32, f: &mut dyn FnMut(&Tail)) -> UrsaCryptoResult<()> {
                    match self.0.get(id as usize) {
                        Some(t) => {
                            f(t);
                            Ok(())
                        }
                        None => Err(UrsaCryptoError::from_msg(UrsaCryptoErrorKind::IOError, "no such tail")),
                    }
                }
            }
            fn tails(r: &Registry) -> Res<Tails> {
                Ok(Tails(r.tails.iter().map(|t| inp(t)).collect::<Res<Vec<Tail>>>()?))
            }
            fn schemas(attrs: &[String], non: &[String]) -> Res<(CredentialSchema, NonCredentialSchema)> {
                let mut b = Issuer::new_credential_schema_builder().map_err(e)?;
                for a in attrs {
                    b.add_attr(a).map_err(e)?;
                }
                let mut n = Issuer::new_non_credential_schema_builder().map_err(e)?;
                for a in non {
                    n.add_attr(a).map_err(e)?;
                }
                // through JSON, as parties of different builds exchange them
                let (s, n): (CredentialSchema, NonCredentialSchema) = (b.finalize().map_err(e)?, n.finalize().map_err(e)?);
                Ok((inp(&out(&s))?, inp(&out(&n))?))
            }
            fn values(vs: &[Attr], all: bool) -> Res<CredentialValues> {
                let mut b = Issuer::new_credential_values_builder().map_err(e)?;
                for v in vs {
                    if v.known {
                        b.add_dec_known(&v.name, &v.dec).map_err(e)?;
                    } else if all {
                        b.add_dec_hidden(&v.name, &v.dec).map_err(e)?;
                    }
                }
                b.finalize().map_err(e)
            }
            pub fn keys(attrs: &[String], non: &[String], revoc: bool) -> Res<(String, String, String)> {
                let (s, n) = schemas(attrs, non)?;
                let (pk, sk, p) = Issuer::new_credential_def(&s, &n, revoc).map_err(e)?;
                Ok((out(&pk), out(&sk), out(&p)))
            }
            pub fn registry(pk: &str, max: u32, by_default: bool) -> Res<Registry> {
                let (rkp, rks, reg, mut g) =
                    Issuer::new_revocation_registry_def(&inp(pk)?, max, by_default).map_err(e)?;
                let mut tails = vec![];
                while let Some(t) = g.try_next().map_err(e)? {
                    tails.push(out(&t));
                }
                Ok(Registry { max, by_default, rkp: out(&rkp), rks: out(&rks), reg: out(&reg), tails })
            }
            pub fn nonce() -> Res<String> {
                new_nonce().map_err(e).map(|n| out(&n))
            }
            pub fn master_secret() -> Res<String> {
                let m = Prover::new_master_secret().map_err(e)?;
                let m: MasterSecret = inp(&out(&m))?;
                m.value().and_then(|v| v.to_dec()).map_err(e)
            }
            pub fn blind(pk: &str, kp: &str, vs: &[Attr], nonce: &str) -> Res<(String, String, String)> {
                let v = values(vs, true)?;
                let (b, f, p) = Prover::blind_credential_secrets(&inp(pk)?, &inp(kp)?, &v, &inp(nonce)?).map_err(e)?;
                Ok((out(&b), out(&f), out(&p)))
            }
            #[allow(clippy::too_many_arguments)]
            pub fn sign(
                who: &str, b: &str, bp: &str, n1: &str, n2: &str, vs: &[Attr], pk: &str, sk: &str,
                rev: Option<(&Registry, &str, u32)>,
            ) -> Res<(String, String, Option<(String, Option<String>)>)> {
                let v = values(vs, false)?;
                match rev {
                    None => {
                        let (s, p) = Issuer::sign_credential(who, &inp(b)?, &inp(bp)?, &inp(n1)?, &inp(n2)?, &v, &inp(pk)?, &inp(sk)?)
                            .map_err(e)?;
                        Ok((out(&s), out(&p), None))
                    }
                    Some((r, reg, idx)) => {
                        let mut reg: RevocationRegistry = inp(reg)?;
                        let (s, p, d) = Issuer::sign_credential_with_revoc(
                            who, &inp(b)?, &inp(bp)?, &inp(n1)?, &inp(n2)?, &v, &inp(pk)?, &inp(sk)?, idx, r.max,
                            r.by_default, &mut reg, &inp::<RevocationKeyPrivate>(&r.rks)?, &tails(r)?,
                        )
                        .map_err(e)?;
                        Ok((out(&s), out(&p), Some((out(&reg), d.map(|d| out(&d))))))
                    }
                }
            }
            pub fn whole_delta(r: &Registry, reg: &str, issued: &[u32], revoked: &[u32]) -> Res<String> {
                let _ = r;
                let reg: RevocationRegistry = inp(reg)?;
                let d = RevocationRegistryDelta::from_parts(
                    None, &reg, &issued.iter().cloned().collect(), &revoked.iter().cloned().collect(),
                );
                Ok(out(&d))
            }
            pub fn merge(a: &str, b: &str) -> Res<String> {
                let mut a: RevocationRegistryDelta = inp(a)?;
                a.merge(&inp(b)?).map_err(e)?;
                Ok(out(&a))
            }
            pub fn witness(r: &Registry, idx: u32, delta: &str) -> Res<String> {
                Witness::new(idx, r.max, r.by_default, &inp(delta)?, &tails(r)?).map_err(e).map(|w| out(&w))
            }
            pub fn witness_update(r: &Registry, idx: u32, w: &str, delta: &str) -> Res<String> {
                let mut w: Witness = inp(w)?;
                w.update(idx, r.max, &inp(delta)?, &tails(r)?).map_err(e)?;
                Ok(out(&w))
            }
            pub fn change(r: &Registry, reg: &str, idx: u32, revoke: bool) -> Res<(String, String)> {
                let mut reg: RevocationRegistry = inp(reg)?;
                let t = tails(r)?;
                let d = if revoke {
                    Issuer::revoke_credential(&mut reg, r.max, idx, &t)
                } else {
                    Issuer::recovery_credential(&mut reg, r.max, idx, &t)
                }
                .map_err(e)?;
                Ok((out(&reg), out(&d)))
            }
            #[allow(clippy::too_many_arguments)]
            pub fn process(
                sig: &str, vs: &[Attr], sp: &str, bf: &str, pk: &str, n2: &str, rev: Option<(&Registry, &str, &str)>,
            ) -> Res<String> {
                let mut s: CredentialSignature = inp(sig)?;
                let v = values(vs, true)?;
                let (rkp, reg, w) = match rev {
                    Some((r, reg, w)) => (Some(inp(&r.rkp)?), Some(inp(reg)?), Some(inp(w)?)),
                    None => (None, None, None),
                };
                Prover::process_credential_signature(
                    &mut s, &v, &inp(sp)?, &inp(bf)?, &inp(pk)?, &inp(n2)?, rkp.as_ref(), reg.as_ref(), w.as_ref(),
                )
                .map_err(e)?;
                Ok(out(&s))
            }
            fn request(s: &Spec) -> Res<SubProofRequest> {
                let mut b = Verifier::new_sub_proof_request_builder().map_err(e)?;
                for r in &s.revealed {
                    b.add_revealed_attr(r).map_err(e)?;
                }
                for (a, t, v) in &s.predicates {
                    b.add_predicate(a, t, *v).map_err(e)?;
                }
                b.finalize().map_err(e)
            }
            pub fn prove(s: &Spec, ws: &[Wallet], nonce: &str) -> Res<String> {
                let mut b = Prover::new_proof_builder().map_err(e)?;
                for c in &s.common {
                    b.add_common_attribute(c).map_err(e)?;
                }
                let (cs, ns) = schemas(&s.attrs, &s.non)?;
                for w in ws {
                    let (reg, wit) = match w.rev {
                        Some((r, w)) => (Some(inp(r)?), Some(inp(w)?)),
                        None => (None, None),
                    };
                    b.add_sub_proof_request(
                        &request(s)?, &cs, &ns, &inp(w.sig)?, &values(w.values, true)?, &inp(w.pk)?, reg.as_ref(), wit.as_ref(),
                    )
                    .map_err(e)?;
                }
                b.finalize(&inp(nonce)?).map_err(e).map(|p| out(&p))
            }
            pub fn verify(s: &Spec, pks: &[(&str, Option<(&str, &str)>)], proof: &str, nonce: &str) -> Res<bool> {
                let mut v = Verifier::new_proof_verifier().map_err(e)?;
                for c in &s.common {
                    v.add_common_attribute(c).map_err(e)?;
                }
                let (cs, ns) = schemas(&s.attrs, &s.non)?;
                for (pk, rev) in pks {
                    let (rkp, reg) = match rev {
                        Some((k, r)) => (Some(inp(k)?), Some(inp(r)?)),
                        None => (None, None),
                    };
                    v.add_sub_proof_request(&request(s)?, &cs, &ns, &inp(pk)?, rkp.as_ref(), reg.as_ref()).map_err(e)?;
                }
                v.verify(&inp(proof)?, &inp(nonce)?).map_err(e)
            }
            pub fn reread(what: &str, s: &str) -> Res<String> {
                macro_rules! as_type {
                    ($t:ty) => {
                        inp::<$t>(s).map(|v| out(&v))
                    };
                }
                match what {
                    "public key" => as_type!(CredentialPublicKey),
                    "private key" => as_type!(CredentialPrivateKey),
                    "key proof" => as_type!(CredentialKeyCorrectnessProof),
                    "blinded secrets" => as_type!(BlindedCredentialSecrets),
                    "blinding factors" => as_type!(CredentialSecretsBlindingFactors),
                    "secrets proof" => as_type!(BlindedCredentialSecretsCorrectnessProof),
                    "signature" => as_type!(CredentialSignature),
                    "signature proof" => as_type!(SignatureCorrectnessProof),
                    "presentation" => as_type!(Proof),
                    _ => as_type!(Nonce),
                }
            }
            pub fn share(secret: &[u8], t: usize, n: usize, field: &str) -> Res<Vec<Vec<u8>>> {
                let f = BigNumber::from_hex(field).map_err(e)?;
                let s = $c::sharing::shamir::split_secret(secret, t as u8, n as u8, &f).map_err(|x| format!("{x:?}"))?;
                Ok(s.iter().map(|s| s.to_bytes()).collect())
            }
            pub fn combine(shares: &[Vec<u8>], field: &str) -> Res<Vec<u8>> {
                use $c::sharing::shamir::Share;
                let f = BigNumber::from_hex(field).map_err(e)?;
                let s: Vec<Share> = shares
                    .iter()
                    .map(|s| Share::from_bytes(s, &f).map_err(|x| format!("{x:?}")))
                    .collect::<Res<Vec<_>>>()?;
                $c::sharing::shamir::combine_shares(s, &f).map_err(|x| format!("{x:?}"))
            }
        }
    };
}
side!(native_side, native);
side!(portable_side, ursa);

/// Call the function on the build chosen for this step.
macro_rules! on {
    ($sim:expr, $portable:expr, $f:ident($($a:expr),*)) => {{
        let (what, p) = (stringify!($f), $portable);
        $sim.probe(if p { concat!(stringify!($f), " on portable") } else { concat!(stringify!($f), " on native") });
        $sim.no_panic(what, || if p { portable_side::$f($($a),*) } else { native_side::$f($($a),*) })
    }};
}
/// The same, where the step must succeed.
macro_rules! ok {
    ($sim:expr, $f:ident($($a:expr),*)) => {{
        let p = $sim.coin();
        match on!($sim, p, $f($($a),*)) {
            Ok(v) => v,
            Err(e) => $sim.stop(
                concat!("honest-step-failed:", stringify!($f)),
                format!("{} on the {} build: {}", stringify!($f), if p { "portable" } else { "native" }, e),
            ),
        }
    }};
}
/// Both builds, to compare.
macro_rules! both {
    ($sim:expr, $f:ident($($a:expr),*)) => {{
        let n = on!($sim, false, $f($($a),*));
        let p = on!($sim, true, $f($($a),*));
        (n, p)
    }};
}

struct Issuer {
    attrs: Vec<String>,
    non: Vec<String>,
    revoc: bool,
    pk: String,
    sk: String,
    proof: String,
    regs: Vec<Arc<Registry>>,
}

/// Issuers whose keys and registries were made by either build; few, for keys are dear.
fn issuer(id: u64) -> Arc<Issuer> {
    static ALL: OnceLock<Mutex<BTreeMap<u64, Arc<Issuer>>>> = OnceLock::new();
    let m = ALL.get_or_init(|| Mutex::new(BTreeMap::new()));
    if let Some(f) = m.lock().unwrap().get(&id) {
        return f.clone();
    }
    let i = isolated(0xC205_0000 + id, move || {
        let portable = id % 2 == 1;
        let shape = id / 2;
        let attrs: Vec<String> = ["age", "name", "Ünïcode", "zip code"].iter().take([3, 1, 4][shape as usize % 3]).map(|s| s.to_string()).collect();
        let mut non = vec!["master_secret".to_string()];
        if shape % 3 == 2 {
            non.push("link".into());
        }
        let revoc = shape % 3 != 1;
        let (pk, sk, proof) = if portable {
            portable_side::keys(&attrs, &non, revoc)
        } else {
            native_side::keys(&attrs, &non, revoc)
        }
        .expect("keys");
        let mut regs = vec![];
        if revoc {
            for k in 0..4u32 {
                let (max, by_default) = ([1, 3, 4, 6][k as usize], k % 2 == 0);
                let r = if k < 2 { native_side::registry(&pk, max, by_default) } else { portable_side::registry(&pk, max, by_default) };
                regs.push(Arc::new(r.expect("registry")));
            }
        }
        Arc::new(Issuer { attrs, non, revoc, pk, sk, proof, regs })
    });
    m.lock().unwrap().entry(id).or_insert(i).clone()
}

/// One alteration somewhere in a message. None when it changed nothing.
fn altered(sim: &mut Sim, s: &str) -> Option<(String, String)> {
    let mut v: Value = serde_json::from_str(s).unwrap();
    let at = mutate::pick_leaf(sim, &v)?;
    let how = if sim.chance(100) {
        if !mutate::remove(&mut v, &at) {
            return None;
        }
        "removed".to_string()
    } else {
        mutate::mutate_scalar(sim, mutate::get_mut(&mut v, &at)?)?
    };
    Some((v.to_string(), format!("{}: {}", at.join("."), how)))
}

/// The two builds must agree whether they take a message. What they make of it is random.
fn agree<A, B>(sim: &mut Sim, what: &str, how: &str, n: &Res<A>, p: &Res<B>) {
    ev!(sim, "{} {} -> {}", what, how, n.is_ok());
    ensure!(
        sim,
        n.is_ok() == p.is_ok(),
        &format!("builds-disagree:{what}"),
        "{what} of an altered message ({how}): native {}, portable {}",
        said(n),
        said(p)
    );
    sim.probe("altered message judged by both");
}
fn said<A>(r: &Res<A>) -> String {
    match r {
        Ok(_) => "takes it".into(),
        Err(e) => format!("refuses it ({})", e.replace('\n', " ")),
    }
}

/// Every object reads and writes the same on both builds.
fn rewrites(sim: &mut Sim, what: &str, s: &str) {
    let (n, p) = both!(sim, reread(what, s));
    let same = match (&n, &p) {
        (Ok(n), Ok(p)) => {
            serde_json::from_str::<Value>(n).unwrap() == serde_json::from_str::<Value>(p).unwrap()
        }
        (Err(_), Err(_)) => true,
        _ => false,
    };
    ensure!(sim, same, &format!("rewritten-differently:{what}"), "{what}: native {:?}, portable {:?} of {}", n, p, s);
}

pub fn parties(sim: &mut Sim) {
    let id = sim.choose(6);
    let is = issuer(id);
    ev!(sim, "issuer {}", id);
    let ms = ok!(sim, master_secret());
    let mut values = vec![];
    for a in &is.attrs {
        let dec = match sim.choose(4) {
            0 => sim.irange(0, 120).to_string(),
            1 => sim.of(&[0i64, 1, -1, i32::MAX as i64, i32::MIN as i64, 28]).to_string(),
            2 => "115792089237316195423570985008687907853269984665640564039457584007913129639935".to_string(),
            _ => sim.irange(i32::MIN as i64, i32::MAX as i64).to_string(),
        };
        let known = a == "age" || sim.chance(850);
        values.push(Attr { name: a.clone(), known, dec });
    }
    for a in &is.non {
        let dec = if a == "master_secret" { ms.clone() } else { sim.irange(0, 1 << 40).to_string() };
        values.push(Attr { name: a.clone(), known: false, dec });
    }
    let reg = if is.revoc && sim.chance(700) { Some(is.regs[sim.pick(is.regs.len())].clone()) } else { None };

    let n1 = ok!(sim, nonce());
    let n2 = ok!(sim, nonce());
    let (b, bf, bp) = ok!(sim, blind(&is.pk, &is.proof, &values, &n1));
    for (what, s) in [("public key", &is.pk), ("private key", &is.sk), ("key proof", &is.proof), ("nonce", &n1), ("blinded secrets", &b), ("blinding factors", &bf), ("secrets proof", &bp)] {
        if sim.chance(150) {
            rewrites(sim, what, s);
        }
    }
    // keys and requests damaged on the way
    if sim.chance(250) {
        let key = sim.coin();
        let alt = if key { altered(sim, &is.pk) } else { altered(sim, &is.proof) };
        if let Some((x, how)) = alt {
            let (pk, proof) = if key { (&x, &is.proof) } else { (&is.pk, &x) };
            let (n, p) = both!(sim, blind(pk, proof, &values, &n1));
            agree(sim, if key { "blind (key)" } else { "blind (proof)" }, &how, &n, &p);
        }
    }
    let idx = reg.as_ref().map(|r| 1 + sim.choose(r.max as u64) as u32).unwrap_or(0);
    let mut state = reg.as_ref().map(|r| r.reg.clone()).unwrap_or_default();
    if sim.chance(350) {
        let which = sim.choose(3);
        let alt = match which {
            0 => altered(sim, &b),
            1 => altered(sim, &bp),
            _ => altered(sim, &n1),
        };
        if let Some((x, how)) = alt {
            let (b, bp, n1) = (if which == 0 { &x } else { &b }, if which == 1 { &x } else { &bp }, if which == 2 { &x } else { &n1 });
            let (n, p) = both!(sim, sign("holder", b, bp, n1, &n2, &values, &is.pk, &is.sk, None));
            agree(sim, "sign", &how, &n, &p);
        }
    }
    let rev = reg.as_deref().map(|r| (r, state.as_str(), idx));
    let (sig, sp, after) = ok!(sim, sign("holder", &b, &bp, &n1, &n2, &values, &is.pk, &is.sk, rev));
    // what the ledger says, in a delta since the start
    let mut issued: Vec<u32> = vec![];
    let mut revoked: Vec<u32> = vec![];
    let mut witness = None;
    if let (Some(r), Some((s, d))) = (reg.as_deref(), after) {
        state = s;
        ensure!(sim, d.is_some() != r.by_default, "delta-of-issuance", "a delta at issuance: {}, by default: {}", d.is_some(), r.by_default);
        if !r.by_default {
            issued.push(idx);
        }
        let whole = ok!(sim, whole_delta(r, &state, &issued, &revoked));
        let w = ok!(sim, witness(r, idx, &whole));
        witness = Some(w);
    }
    if sim.chance(350) {
        let which = sim.choose(3);
        let alt = match which {
            0 => altered(sim, &sig),
            1 => altered(sim, &sp),
            _ => altered(sim, &bf),
        };
        if let Some((x, how)) = alt {
            let (sig, sp, bf) = (if which == 0 { &x } else { &sig }, if which == 1 { &x } else { &sp }, if which == 2 { &x } else { &bf });
            let rev = match (&reg, &witness) {
                (Some(r), Some(w)) => Some((r.as_ref(), state.as_str(), w.as_str())),
                _ => None,
            };
            let (n, p) = both!(sim, process(sig, &values, sp, bf, &is.pk, &n2, rev));
            agree(sim, "process", &how, &n, &p);
        }
    }
    let rev = match (&reg, &witness) {
        (Some(r), Some(w)) => Some((r.as_ref(), state.as_str(), w.as_str())),
        _ => None,
    };
    let cred = ok!(sim, process(&sig, &values, &sp, &bf, &is.pk, &n2, rev));
    for (what, s) in [("signature", &sig), ("signature proof", &sp), ("signature", &cred)] {
        if sim.chance(150) {
            rewrites(sim, what, s);
        }
    }

    // the registry moves on; others come and go, the holder may be revoked and restored
    if let Some(r) = reg.as_deref() {
        let moves = sim.range(0, 4);
        for _ in 0..moves {
            let who = 1 + sim.choose(r.max as u64) as u32;
            let live = if r.by_default { !revoked.contains(&who) } else { issued.contains(&who) };
            if !live && !r.by_default && !issued.contains(&who) && who != idx && sim.coin() {
                // not issued yet and not restored here
                continue;
            }
            let (s, d) = ok!(sim, change(r, &state, who, live));
            state = s;
            if live {
                issued.retain(|x| *x != who);
                if r.by_default {
                    revoked.push(who);
                }
            } else {
                revoked.retain(|x| *x != who);
                if !r.by_default {
                    issued.push(who);
                }
            }
            let w = witness.take().unwrap();
            let w = ok!(sim, witness_update(r, idx, &w, &d));
            witness = Some(w);
            ev!(sim, "registry {} {}", if live { "revoke" } else { "restore" }, who);
        }
        let whole = ok!(sim, whole_delta(r, &state, &issued, &revoked));
        let (n, p) = both!(sim, witness(r, idx, &whole));
        let same = match (&n, &p) {
            (Ok(n), Ok(p)) => n == p,
            (n, p) => n.is_err() == p.is_err(),
        };
        ensure!(sim, same, "witness-differs", "the same delta gives different witnesses: {:?}, {:?}", n, p);
    }
    let live = match reg.as_deref() {
        None => true,
        Some(r) => {
            if r.by_default {
                !revoked.contains(&idx)
            } else {
                issued.contains(&idx)
            }
        }
    };

    // a presentation, of the credential once or twice
    let age: i32 = values[0].dec.parse().unwrap_or(0);
    let mut spec = Spec { attrs: is.attrs.clone(), non: is.non.clone(), ..Spec::default() };
    for a in &is.attrs {
        if sim.chance(400) && (a != "age") {
            spec.revealed.push(a.clone());
        }
    }
    if values[0].dec.parse::<i32>().is_ok() && sim.chance(600) {
        let kinds: &[&'static str] = &["GE", "LE", "GT", "LT"];
        let t = *sim.of(kinds);
        let gap = sim.choose(3) as i32 * 7;
        let bound = match t {
            "GE" => age.checked_sub(gap),
            "LE" => age.checked_add(gap),
            "GT" => age.checked_sub(gap + 1),
            _ => age.checked_add(gap + 1),
        };
        if let Some(v) = bound {
            spec.predicates.push(("age".into(), t, v));
        }
    } else if sim.coin() {
        spec.revealed.push("age".into());
    }
    if sim.coin() {
        spec.common.push("master_secret".into());
    }
    let n3 = ok!(sim, nonce());
    let mut times = 1 + sim.choose(2) as usize;
    if is.revoc {
        times = times.min(1 + sim.choose(2) as usize);
    }
    let with_rev = reg.is_some() && sim.chance(850);
    let wrev = if with_rev { Some((state.as_str(), witness.as_deref().unwrap())) } else { None };
    let ws: Vec<Wallet> = (0..times).map(|_| Wallet { values: &values, sig: &cred, pk: &is.pk, rev: wrev }).collect();
    let made = {
        let p = sim.coin();
        on!(sim, p, prove(&spec, &ws, &n3))
    };
    let vrev = if with_rev { Some((reg.as_deref().unwrap().rkp.as_str(), state.as_str())) } else { None };
    let pks: Vec<(&str, Option<(&str, &str)>)> = (0..times).map(|_| (is.pk.as_str(), vrev)).collect();
    let valid = live || !with_rev;
    let proof = match made {
        Ok(p) => p,
        Err(e) => {
            ensure!(sim, !valid, "honest-step-failed:prove", "a truthful presentation of a valid credential: {}", e);
            sim.probe("revoked holder refused");
            return;
        }
    };
    let (n, p) = both!(sim, verify(&spec, &pks, &proof, &n3));
    ensure!(
        sim,
        (n == Ok(true)) == valid && (p == Ok(true)) == valid,
        "verdict",
        "a presentation of a {} credential, {} times, {:?}: native {:?}, portable {:?}",
        if valid { "valid" } else { "revoked" }, times, spec, n, p
    );
    sim.probe("presentation judged by both");
    if sim.chance(100) {
        rewrites(sim, "presentation", &proof);
    }
    let tries = sim.choose(3);
    for _ in 0..tries {
        let Some((x, how)) = altered(sim, &proof) else { continue };
        let (n, p) = both!(sim, verify(&spec, &pks, &x, &n3));
        ev!(sim, "verify {} -> {:?}", how, n);
        ensure!(sim, (n == Ok(true)) == (p == Ok(true)), "builds-disagree:verify", "an altered presentation ({}): native {:?}, portable {:?}", how, n, p);
        ensure!(sim, n.is_ok() == p.is_ok(), "builds-disagree:verify-error", "an altered presentation ({}): native {:?}, portable {:?}", how, n, p);
        sim.probe("altered message judged by both");
    }
}

/// Secrets split on one build are put together on either.
pub fn sharing(sim: &mut Sim) {
    let field = *sim.of(&[
        "FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551",
        "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141",
        "1000000000000000000000000000000014DEF9DEA2F79CD65812631A5CF5D3ED",
    ]);
    let t = sim.range(2, 6) as usize;
    let n = t + sim.choose(5) as usize;
    let len = *sim.of(&[1usize, 2, 16, 31]);
    let mut secret = sim.bytes(len);
    if secret[0] == 0 {
        secret[0] = 1;
    }
    let first = sim.coin();
    let shares = match on!(sim, first, share(&secret, t, n, field)) {
        Ok(s) => s,
        Err(e) => sim.stop("honest-step-failed:share", format!("splitting {} bytes {t} of {n}: {e}", len)),
    };
    ev!(sim, "share {} of {} bytes {}", t, n, len);
    let mut some = shares.clone();
    sim.shuffle(&mut some);
    some.truncate(t + sim.choose((n - t + 1) as u64) as usize);
    let (a, b) = both!(sim, combine(&some, field));
    ensure!(sim, a.as_ref() == Ok(&secret) && b.as_ref() == Ok(&secret), "combined-wrong", "{t} of {n}: native {:?}, portable {:?}, secret {:?}", a, b, secret);
    // damaged, too few, doubled
    match sim.choose(3) {
        0 => some.truncate(t - 1),
        1 => {
            let x = some[0].clone();
            some.push(x);
        }
        _ => {
            let k = sim.pick(some.len());
            mutate::mutate_bytes(sim, &mut some[k]);
        }
    }
    let (a, b) = both!(sim, combine(&some, field));
    ensure!(sim, a.is_ok() == b.is_ok() && a.clone().ok() == b.clone().ok(), "builds-disagree:combine", "native {:?}, portable {:?} of {:?}", a, b, some);
    sim.probe("secret combined by both");
}
