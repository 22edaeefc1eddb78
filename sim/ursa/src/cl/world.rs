//! Shared pieces of the credential scenarios: cached issuer fixtures, the simulated tails storage,
//! values, JSON plumbing.
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;
use simcore::{ensure, ev, Sim};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex, OnceLock};
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::*;
use ursa::errors::{UrsaCryptoError, UrsaCryptoErrorKind, UrsaCryptoResult};
use ursa::pair::PointG2;

pub fn js<T: Serialize>(t: &T) -> String {
    serde_json::to_string(t).expect("library object serialises")
}
pub fn jv<T: Serialize>(t: &T) -> Value {
    serde_json::to_value(t).expect("library object serialises")
}
pub fn parse<T: DeserializeOwned>(s: &str) -> T {
    match serde_json::from_str(s) {
        Ok(v) => v,
        Err(e) => std::panic::panic_any(simcore::sim::Violation {
            class: "load-failed".into(),
            detail: format!("{} cannot be read back: {} from {}", std::any::type_name::<T>(), e, &s[..s.len().min(300)]),
        }),
    }
}
pub fn reload<T: Serialize + DeserializeOwned>(t: &T) -> T {
    parse(&js(t))
}

/// Run `f` in a fresh thread with its own entropy stream, so that cached fixtures are independent
/// of the run that happens to ask first.
pub fn isolated<R: Send + 'static, F: FnOnce() -> R + Send + 'static>(seed: u64, f: F) -> R {
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            simcore::entropy::seed_thread(seed);
            f()
        })
        .unwrap()
        .join()
        .unwrap_or_else(|e| std::panic::resume_unwind(e))
}

#[derive(Clone, Debug)]
pub struct Fixture {
    pub id: u64,
    pub attrs: Vec<String>,
    pub non_attrs: Vec<String>,
    pub revoc: bool,
    pub pk: String,
    pub sk: String,
    pub proof: String,
}

const ATTR_NAMES: [&str; 10] = [
    "age", "name", "sex", "height", "zip code", "Ünïcode", "a", "date_of_birth", "score", "attr-9",
];

/// Fixture `100 + i` is another key for the shape of fixture `i`.
fn fixture_shape(id: u64) -> (Vec<String>, Vec<String>, bool) {
    let id = id % 100;
    // 0..: shapes differ in the number of attributes, hidden attributes and revocation support
    let n = [4, 1, 6, 2, 3, 8][(id % 6) as usize];
    let off = (id / 6) as usize;
    let mut attrs: Vec<String> = (0..n).map(|i| ATTR_NAMES[(i + off) % 10].to_string()).collect();
    if id % 6 == 1 {
        attrs = vec!["age".into()];
    }
    let mut non = vec!["master_secret".to_string()];
    if id % 3 == 2 {
        non.push("link_secret".into());
    }
    if id % 4 == 3 {
        non.push("policy".into());
    }
    (attrs, non, id % 2 == 0 || id == 3)
}

static FIX: OnceLock<Mutex<BTreeMap<u64, Arc<Fixture>>>> = OnceLock::new();

pub fn schemas(attrs: &[String], non: &[String]) -> (CredentialSchema, NonCredentialSchema) {
    let mut b = Issuer::new_credential_schema_builder().unwrap();
    for a in attrs {
        b.add_attr(a).unwrap();
    }
    let mut nb = Issuer::new_non_credential_schema_builder().unwrap();
    for a in non {
        nb.add_attr(a).unwrap();
    }
    (b.finalize().unwrap(), nb.finalize().unwrap())
}

pub fn fixture(id: u64) -> Arc<Fixture> {
    let m = FIX.get_or_init(|| Mutex::new(BTreeMap::new()));
    if let Some(f) = m.lock().unwrap().get(&id) {
        return f.clone();
    }
    let f = isolated(0xF1C5_0000 + id, move || {
        let (attrs, non_attrs, revoc) = fixture_shape(id);
        let (s, ns) = schemas(&attrs, &non_attrs);
        let (pk, sk, proof) = Issuer::new_credential_def(&s, &ns, revoc).expect("new_credential_def");
        Arc::new(Fixture { id, attrs, non_attrs, revoc, pk: js(&pk), sk: js(&sk), proof: js(&proof) })
    });
    m.lock().unwrap().entry(id).or_insert(f).clone()
}

/// Keys as live objects, parsed for this run (so that HashMap order varies with the run's seed).
pub struct Keys {
    pub f: Arc<Fixture>,
    pub schema: CredentialSchema,
    pub non_schema: NonCredentialSchema,
    pub pk: CredentialPublicKey,
    pub sk: CredentialPrivateKey,
    pub proof: CredentialKeyCorrectnessProof,
}
pub fn keys(id: u64) -> Keys {
    let f = fixture(id);
    let (schema, non_schema) = schemas(&f.attrs, &f.non_attrs);
    Keys { schema, non_schema, pk: parse(&f.pk), sk: parse(&f.sk), proof: parse(&f.proof), f }
}

// ---- revocation registries ------------------------------------------------------------------

#[derive(Clone)]
pub struct RegFixture {
    pub max: u32,
    pub by_default: bool,
    pub rkp: String,
    pub rks: String,
    pub reg: String,
    pub tails: Vec<String>,
}
static REGS: OnceLock<Mutex<BTreeMap<(u64, u32, bool, u64), Arc<RegFixture>>>> = OnceLock::new();

pub fn reg_fixture(fx: u64, max: u32, by_default: bool, variant: u64) -> Arc<RegFixture> {
    let m = REGS.get_or_init(|| Mutex::new(BTreeMap::new()));
    let key = (fx, max, by_default, variant);
    if let Some(f) = m.lock().unwrap().get(&key) {
        return f.clone();
    }
    let f = fixture(fx);
    let r = isolated(0x4E6_0000 + fx * 1000 + max as u64 * 4 + by_default as u64 * 2 + variant, move || {
        let pk: CredentialPublicKey = parse(&f.pk);
        let (rkp, rks, reg, mut gen) =
            Issuer::new_revocation_registry_def(&pk, max, by_default).expect("new_revocation_registry_def");
        let mut tails = vec![];
        while let Some(t) = gen.try_next().expect("tail") {
            tails.push(js(&t));
        }
        Arc::new(RegFixture { max, by_default, rkp: js(&rkp), rks: js(&rks), reg: js(&reg), tails })
    });
    m.lock().unwrap().entry(key).or_insert(r).clone()
}

/// What the simulated tails storage does at a chosen access.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TailFault {
    /// error without handing the tail over
    Before,
    /// hands the tail over, then reports an error (e.g. closing the file failed)
    After,
}

pub struct SimTails {
    pub tails: Vec<PointG2>,
    pub count: Cell<u64>,
    /// (access number counted from now, fault)
    pub plan: RefCell<Vec<(u64, TailFault)>>,
    pub accessed: RefCell<Vec<u32>>,
    pub fired: Cell<u64>,
}
impl SimTails {
    pub fn new(r: &RegFixture) -> SimTails {
        SimTails {
            tails: r.tails.iter().map(|t| parse(t)).collect(),
            count: Cell::new(0),
            plan: RefCell::new(vec![]),
            accessed: RefCell::new(vec![]),
            fired: Cell::new(0),
        }
    }
    pub fn arm(&self, at: u64, f: TailFault) {
        self.plan.borrow_mut().push((self.count.get() + at, f));
    }
    pub fn heal(&self) {
        self.plan.borrow_mut().clear();
    }
}
pub fn io_err() -> UrsaCryptoError {
    UrsaCryptoError::from_msg(UrsaCryptoErrorKind::IOError, "simulated tails storage failure")
}
impl RevocationTailsAccessor for SimTails {
    fn access_tail(&self, tail_id: u32, accessor: &mut dyn FnMut(&Tail)) -> UrsaCryptoResult<()> {
        let n = self.count.get();
        self.count.set(n + 1);
        let hit = self.plan.borrow().iter().find(|p| p.0 == n).map(|p| p.1);
        if hit == Some(TailFault::Before) {
            self.fired.set(self.fired.get() + 1);
            return Err(io_err());
        }
        match self.tails.get(tail_id as usize) {
            Some(t) => {
                self.accessed.borrow_mut().push(tail_id);
                accessor(t)
            }
            None => return Err(io_err()),
        }
        if hit == Some(TailFault::After) {
            self.fired.set(self.fired.get() + 1);
            return Err(io_err());
        }
        Ok(())
    }
}

// ---- attribute values -----------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Known,
    Hidden,
    Committed,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Val {
    pub attr: String,
    pub kind: Kind,
    pub dec: String,
    pub blind: String,
}
impl Val {
    /// The value as the 32-bit integer predicates work on, if it is one.
    pub fn int(&self) -> Option<i32> {
        self.dec.parse().ok()
    }
}

pub const I32_EDGES: [i32; 12] = [0, 1, -1, 28, i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, 65535, -65536, 46340, 1 << 30];
const BIG: [&str; 6] = [
    "115792089237316195423570985008687907853269984665640564039457584007913129639935",
    "5944657099558967239210949258394887428692050081607692519917050011144233115103",
    "2147483648",
    "-2147483649",
    "4294967296",
    "1139481716457488690172217916278103335",
];

pub fn gen_dec(sim: &mut Sim, hashed_bias: bool) -> String {
    match sim.choose(if hashed_bias { 8 } else { 5 }) {
        0 => sim.irange(0, 120).to_string(),
        1 | 2 => sim.of(&I32_EDGES).to_string(),
        3 => sim.irange(i32::MIN as i64, i32::MAX as i64).to_string(),
        4 => sim.of(&BIG).to_string(),
        _ => {
            let b = sim.bytes(32);
            ursa::bn::BigNumber::from_bytes(&b).unwrap().to_dec().unwrap()
        }
    }
}

/// Values for the attributes of a fixture. Non-schema attributes are hidden; schema attributes are
/// mostly known to the issuer; `commit` attributes are committed to (not part of the credential).
pub fn gen_values(sim: &mut Sim, f: &Fixture, ms: &str) -> Vec<Val> {
    let mut out = vec![];
    for a in &f.attrs {
        let kind = if sim.chance(120) { Kind::Hidden } else { Kind::Known };
        out.push(Val { attr: a.clone(), kind, dec: gen_dec(sim, true), blind: String::new() });
    }
    for a in &f.non_attrs {
        if a == "policy" {
            if sim.chance(700) {
                let blind = gen_dec(sim, true);
                out.push(Val { attr: a.clone(), kind: Kind::Committed, dec: gen_dec(sim, true), blind });
            }
        } else if a == "master_secret" {
            out.push(Val { attr: a.clone(), kind: Kind::Hidden, dec: ms.into(), blind: String::new() });
        } else {
            out.push(Val { attr: a.clone(), kind: Kind::Hidden, dec: gen_dec(sim, true), blind: String::new() });
        }
    }
    out
}

/// Everything, as the holder knows it.
pub fn values(vs: &[Val]) -> CredentialValues {
    let mut b = Issuer::new_credential_values_builder().unwrap();
    for v in vs {
        match v.kind {
            Kind::Known => b.add_dec_known(&v.attr, &v.dec),
            Kind::Hidden => b.add_dec_hidden(&v.attr, &v.dec),
            Kind::Committed => b.add_dec_commitment(&v.attr, &v.dec, &v.blind),
        }
        .expect("value");
    }
    b.finalize().unwrap()
}
/// What the issuer is told.
pub fn known_values(vs: &[Val]) -> CredentialValues {
    let k: Vec<Val> = vs.iter().filter(|v| v.kind == Kind::Known).cloned().collect();
    values(&k)
}
/// What presentations work on: committed attributes are not in the credential.
pub fn cred_values(vs: &[Val]) -> CredentialValues {
    let k: Vec<Val> = vs.iter().filter(|v| v.kind != Kind::Committed).cloned().collect();
    values(&k)
}
/// The schemas presentations and verifications use.
pub fn present_schemas(f: &Fixture) -> (CredentialSchema, NonCredentialSchema) {
    let non: Vec<String> = f.non_attrs.iter().filter(|a| a.as_str() != "policy").cloned().collect();
    schemas(&f.attrs, &non)
}

// ---- issued credentials ------------------------------------------------------------------------

pub struct Cred {
    pub fx: u64,
    pub vals: Vec<Val>,
    pub sig: CredentialSignature,
    /// registry fixture and index when revocable
    pub reg: Option<(Arc<RegFixture>, u32)>,
}
#[derive(Clone)]
pub struct CredFixture {
    pub fx: u64,
    pub vals: Vec<Val>,
    pub sig: String,
    pub reg: Option<(Arc<RegFixture>, u32)>,
    /// state of the registry after issuance (JSON) and the delta describing it from the start
    pub reg_state: Option<String>,
    pub witness: Option<String>,
}

/// Issue one credential without a network (used to build fixtures).
#[allow(clippy::too_many_arguments)]
pub fn issue_plain(
    k: &Keys,
    prover: &str,
    vals: &[Val],
    reg: Option<(&RegFixture, &mut RevocationRegistry, &SimTails, u32)>,
) -> Result<(CredentialSignature, Option<RevocationRegistryDelta>), String> {
    let hv = values(vals);
    let n1 = new_nonce().map_err(|e| e.to_string())?;
    let n2 = new_nonce().map_err(|e| e.to_string())?;
    let (bcs, bf, bcp) =
        Prover::blind_credential_secrets(&k.pk, &k.proof, &hv, &n1).map_err(|e| format!("blind: {}", e))?;
    let iv = known_values(vals);
    match reg {
        None => {
            let (mut sig, sp) = Issuer::sign_credential(prover, &bcs, &bcp, &n1, &n2, &iv, &k.pk, &k.sk)
                .map_err(|e| format!("sign: {}", e))?;
            Prover::process_credential_signature(&mut sig, &hv, &sp, &bf, &k.pk, &n2, None, None, None)
                .map_err(|e| format!("process: {}", e))?;
            Ok((sig, None))
        }
        Some((rf, rr, tails, idx)) => {
            let rks: RevocationKeyPrivate = parse(&rf.rks);
            let rkp: RevocationKeyPublic = parse(&rf.rkp);
            let (mut sig, sp, d) = Issuer::sign_credential_with_revoc(
                prover, &bcs, &bcp, &n1, &n2, &iv, &k.pk, &k.sk, idx, rf.max, rf.by_default, rr, &rks, tails,
            )
            .map_err(|e| format!("sign: {}", e))?;
            let init: RevocationRegistry = parse(&rf.reg);
            let mut issued = std::collections::HashSet::new();
            if !rf.by_default {
                issued.insert(idx);
            }
            let _ = init;
            let delta = RevocationRegistryDelta::from_parts(None, rr, &issued, &Default::default());
            let w = Witness::new(idx, rf.max, rf.by_default, &delta, tails).map_err(|e| format!("witness: {}", e))?;
            Prover::process_credential_signature(
                &mut sig, &hv, &sp, &bf, &k.pk, &n2, Some(&rkp), Some(rr), Some(&w),
            )
            .map_err(|e| format!("process: {}", e))?;
            Ok((sig, d))
        }
    }
}

static CREDS: OnceLock<Mutex<BTreeMap<u64, Arc<CredFixture>>>> = OnceLock::new();
pub const MS: [&str; 3] = [
    "96875324218747824738247273872390812731209380172398120983120938120938209380192",
    "1",
    "57621380791203812091238098121093812098310928309128301298309128309128301928310",
];
pub const N_CREDS: u64 = 18;

/// The pool of genuine credentials: id = 9*h' + ..; holders 0..3 (by master secret).
pub fn cred_fixture(id: u64) -> Arc<CredFixture> {
    let m = CREDS.get_or_init(|| Mutex::new(BTreeMap::new()));
    if let Some(f) = m.lock().unwrap().get(&id) {
        return f.clone();
    }
    let c = isolated(0xC4ED_0000 + id, move || {
        let fx = id % 7;
        let holder = (id / 7) % 3;
        let k = keys(fx);
        // values from a small deterministic generator of its own
        let mut s = Sim::new(simcore::sim::Tape::record(0x5EED + id), simcore::sim::Tier::Quick);
        let mut vals = gen_values(&mut s, &k.f, MS[holder as usize]);
        for v in vals.iter_mut() {
            if v.attr == "age" && s.coin() {
                v.dec = "28".into();
            }
        }
        if k.f.revoc {
            let rf = reg_fixture(fx, 4, id % 4 != 0, 0);
            let tails = SimTails::new(&rf);
            let mut rr: RevocationRegistry = parse(&rf.reg);
            let idx = 1 + (id % 4) as u32;
            let (sig, _) = issue_plain(&k, "holder", &vals, Some((&rf, &mut rr, &tails, idx)))
                .unwrap_or_else(|e| panic!("issuing a pool credential failed: {}", e));
            let mut issued = std::collections::HashSet::new();
            if !rf.by_default {
                issued.insert(idx);
            }
            let delta = RevocationRegistryDelta::from_parts(None, &rr, &issued, &Default::default());
            let w = Witness::new(idx, rf.max, rf.by_default, &delta, &tails).expect("witness");
            Arc::new(CredFixture { fx, vals, sig: js(&sig), reg: Some((rf, idx)), reg_state: Some(js(&rr)), witness: Some(js(&w)) })
        } else {
            let (sig, _) =
                issue_plain(&k, "holder", &vals, None).unwrap_or_else(|e| panic!("issuing a pool credential failed: {}", e));
            Arc::new(CredFixture { fx, vals, sig: js(&sig), reg: None, reg_state: None, witness: None })
        }
    });
    m.lock().unwrap().entry(id).or_insert(c).clone()
}

/// A credential as a holder uses it in a presentation.
pub struct Held {
    pub fx: Arc<CredFixture>,
    pub keys: Keys,
    pub schema: CredentialSchema,
    pub non_schema: NonCredentialSchema,
    pub sig: CredentialSignature,
    pub values: CredentialValues,
    pub vals: Vec<Val>,
    pub reg: Option<RevocationRegistry>,
    pub rkp: Option<RevocationKeyPublic>,
    pub witness: Option<Witness>,
}
pub fn held(id: u64) -> Held {
    let fx = cred_fixture(id);
    let keys = keys(fx.fx);
    let (schema, non_schema) = present_schemas(&keys.f);
    let vals: Vec<Val> = fx.vals.iter().filter(|v| v.kind != Kind::Committed).cloned().collect();
    Held {
        sig: parse(&fx.sig),
        values: values(&vals),
        vals,
        reg: fx.reg_state.as_ref().map(|s| parse(s)),
        rkp: fx.reg.as_ref().map(|r| parse(&r.0.rkp)),
        witness: fx.witness.as_ref().map(|s| parse(s)),
        keys,
        schema,
        non_schema,
        fx,
    }
}

// ---- proof requests ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct Pred {
    pub attr: String,
    pub ty: &'static str,
    pub val: i32,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Spr {
    pub revealed: BTreeSet<String>,
    pub preds: Vec<Pred>,
}
pub fn holds(ty: &str, v: i64, t: i64) -> bool {
    match ty {
        "GE" => v >= t,
        "GT" => v > t,
        "LE" => v <= t,
        _ => v < t,
    }
}
impl Spr {
    pub fn build(&self, sim: &mut Sim) -> SubProofRequest {
        use ursa::cl::verifier::Verifier;
        if sim.chance(300) {
            // the same request as it arrives over the wire
            let p: Vec<Value> = self
                .preds
                .iter()
                .map(|p| serde_json::json!({"attr_name": p.attr, "p_type": p.ty, "value": p.val}))
                .collect();
            return parse(&serde_json::json!({"revealed_attrs": self.revealed, "predicates": p}).to_string());
        }
        let mut b = Verifier::new_sub_proof_request_builder().unwrap();
        for a in &self.revealed {
            b.add_revealed_attr(a).unwrap();
        }
        for p in &self.preds {
            b.add_predicate(&p.attr, p.ty, p.val).unwrap();
        }
        b.finalize().unwrap()
    }
}
pub const PTYPES: [&str; 4] = ["GE", "LE", "GT", "LT"];

/// A request the values satisfy. `keep` attributes stay unrevealed.
pub fn gen_spr(sim: &mut Sim, f: &Fixture, vals: &[Val], keep: &BTreeSet<String>, max_preds: u64) -> Spr {
    let mut s = Spr::default();
    for a in &f.attrs {
        if keep.contains(a) {
            continue;
        }
        if sim.chance(400) {
            s.revealed.insert(a.clone());
        }
    }
    let cand: Vec<(String, i32)> = vals
        .iter()
        .filter(|v| f.attrs.contains(&v.attr) && !s.revealed.contains(&v.attr))
        .filter_map(|v| v.int().map(|i| (v.attr.clone(), i)))
        .collect();
    if !cand.is_empty() {
        let n = sim.choose(max_preds + 1);
        for _ in 0..n {
            let (attr, v) = cand[sim.pick(cand.len())].clone();
            let v = v as i64;
            let ty = *sim.of(&PTYPES);
            let strict = (ty == "GT" || ty == "LT") as i64;
            let dist = match sim.choose(4) {
                0 => 0,
                1 => 1,
                2 => sim.irange(0, 1 << 16),
                _ => i64::MAX, // as far as the 32-bit range allows
            };
            let t = if ty == "GE" || ty == "GT" {
                (v - strict).saturating_sub(dist).max(i32::MIN as i64)
            } else {
                (v + strict).saturating_add(dist).min(i32::MAX as i64)
            };
            if t < i32::MIN as i64 || t > i32::MAX as i64 || !holds(ty, v, t) {
                continue;
            }
            let p = Pred { attr, ty, val: t as i32 };
            if !s.preds.contains(&p) {
                s.preds.push(p);
            }
        }
    }
    s
}

/// The library-level value behind a JSON leaf: two texts that denote the same number or curve
/// element are the same.
pub fn same_value(a: &str, b: &str) -> bool {
    use ursa::bn::BigNumber;
    use ursa::pair::{GroupOrderElement, PointG1};
    if a == b {
        return true;
    }
    let num = |s: &str| !s.is_empty() && s.trim_start_matches('-').bytes().all(|c| c.is_ascii_digit());
    if num(a) && num(b) {
        return match (BigNumber::from_dec(a), BigNumber::from_dec(b)) {
            (Ok(x), Ok(y)) => x == y,
            _ => false,
        };
    }
    let sp = |s: &str| s.split_whitespace().count();
    if sp(a) != sp(b) {
        return false;
    }
    match sp(a) {
        1 => {
            // order elements count modulo the group order
            match (GroupOrderElement::from_string(a), GroupOrderElement::from_string(b)) {
                (Ok(x), Ok(y)) => x.sub_mod(&y).and_then(|d| d.to_bytes()).map(|d| d.iter().all(|b| *b == 0)).unwrap_or(false),
                _ => false,
            }
        }
        6 => match (PointG1::from_string(a), PointG1::from_string(b)) {
            (Ok(x), Ok(y)) => x.to_bytes().unwrap() == y.to_bytes().unwrap(),
            _ => false,
        },
        12 => match (PointG2::from_string(a), PointG2::from_string(b)) {
            (Ok(x), Ok(y)) => x.to_bytes().unwrap() == y.to_bytes().unwrap(),
            _ => false,
        },
        _ => false,
    }
}
/// Do two JSON messages denote the same library values?
pub fn same_message(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map(|w| same_message(v, w)).unwrap_or(false)),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| same_message(v, w)),
        (Value::String(x), Value::String(y)) => same_value(x, y),
        _ => a == b,
    }
}

/// The pool credentials with a revocation registry.
pub fn revocable() -> Vec<u64> {
    (0..N_CREDS).filter(|id| fixture(id % 7).revoc).collect()
}
