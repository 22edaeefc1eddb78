//! C04, C05, C06: revocation registries, witnesses, and failing operations.
use super::world::*;
use serde_json::Value;
use simcore::{ensure, ev, Net, NetCfg, Sim};
use std::collections::{BTreeSet, HashSet};
use std::sync::Arc;
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::verifier::Verifier;
use ursa::cl::*;
use ursa::errors::UrsaCryptoResult;
use ursa::pair::PointG2;

/// The reference model of a registry: which indices are valid.
#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    pub max: u32,
    pub by_default: bool,
    pub valid: BTreeSet<u32>,
}
impl Model {
    pub fn new(max: u32, by_default: bool) -> Model {
        Model { max, by_default, valid: if by_default { (1..=max).collect() } else { BTreeSet::new() } }
    }
    pub fn accum(&self, t: &SimTails) -> Vec<u8> {
        let mut a = PointG2::new_inf().unwrap();
        for j in &self.valid {
            a = a.add(&t.tails[(self.max + 1 - j) as usize]).unwrap();
        }
        canon(&a)
    }
    pub fn omega(&self, idx: u32, t: &SimTails) -> Vec<u8> {
        let mut a = PointG2::new_inf().unwrap();
        for j in self.valid.iter().filter(|j| **j != idx) {
            a = a.add(&t.tails[(self.max + 1 - j + idx) as usize]).unwrap();
        }
        canon(&a)
    }
}
/// One byte string per group element (the library has several spellings of the identity).
fn canon(p: &PointG2) -> Vec<u8> {
    if *p == PointG2::new_inf().unwrap() {
        return vec![];
    }
    p.to_bytes().unwrap()
}
fn g2(v: &Value) -> Vec<u8> {
    canon(&PointG2::from_string(v.as_str().unwrap_or("")).unwrap())
}
pub fn accum_of(r: &RevocationRegistry) -> Vec<u8> {
    g2(&jv(r)["accum"])
}
pub fn omega_of(w: &Witness) -> Vec<u8> {
    g2(&jv(w)["omega"])
}
fn set_of(v: &Value) -> BTreeSet<u32> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()).unwrap_or_default()
}

/// Check that `d` describes exactly the transition from `a` to `b`.
fn check_delta(sim: &mut Sim, d: &RevocationRegistryDelta, a: &Model, b: &Model, t: &SimTails, what: &str) {
    let j = jv(d);
    ensure!(sim, g2(&j["prevAccum"]) == a.accum(t), "delta-prev", "{}: delta does not start at the state {:?}", what, a.valid);
    ensure!(sim, g2(&j["accum"]) == b.accum(t), "delta-accum", "{}: delta does not end at the state {:?}", what, b.valid);
    let issued: BTreeSet<u32> = b.valid.difference(&a.valid).cloned().collect();
    let revoked: BTreeSet<u32> = a.valid.difference(&b.valid).cloned().collect();
    ensure!(
        sim,
        set_of(&j["issued"]) == issued && set_of(&j["revoked"]) == revoked,
        "delta-sets",
        "{}: delta lists issued {:?} revoked {:?} for the step {:?} -> {:?}",
        what, j["issued"], j["revoked"], a.valid, b.valid
    );
}

#[derive(Clone, Debug)]
pub enum Op {
    Revoke(u32),
    Recover(u32),
    Batch(BTreeSet<u32>, BTreeSet<u32>),
}
pub fn gen_op(sim: &mut Sim, m: &Model) -> Option<Op> {
    let v: Vec<u32> = m.valid.iter().cloned().collect();
    let o: Vec<u32> = (1..=m.max).filter(|i| !m.valid.contains(i)).collect();
    match sim.choose(4) {
        0 if !v.is_empty() => Some(Op::Revoke(*sim.of(&v))),
        1 if !o.is_empty() => Some(Op::Recover(*sim.of(&o))),
        2 | 3 => {
            let iss = o.iter().cloned().filter(|_| sim.chance(400)).collect();
            let rev = v.iter().cloned().filter(|_| sim.chance(300)).collect();
            Some(Op::Batch(iss, rev))
        }
        _ => None,
    }
}
pub fn apply_model(m: &mut Model, op: &Op) {
    match op {
        Op::Revoke(i) => {
            m.valid.remove(i);
        }
        Op::Recover(i) => {
            m.valid.insert(*i);
        }
        Op::Batch(iss, rev) => {
            m.valid.extend(iss);
            for r in rev {
                m.valid.remove(r);
            }
        }
    }
}
pub fn apply(rr: &mut RevocationRegistry, max: u32, op: &Op, t: &SimTails) -> UrsaCryptoResult<RevocationRegistryDelta> {
    match op {
        Op::Revoke(i) => Issuer::revoke_credential(rr, max, *i, t),
        Op::Recover(i) => Issuer::recovery_credential(rr, max, *i, t),
        Op::Batch(a, b) => Issuer::update_revocation_registry(rr, max, a.clone(), b.clone(), t),
    }
}

struct Holder {
    idx: u32,
    w: Witness,
    at: usize, // number of deltas already applied
}

/// C04: an issuer publishes registry changes; holders follow over a faulty network and restart.
pub fn ledger(sim: &mut Sim) {
    // a few runs use a registry with more places than fit in a byte
    let large = sim.chance(15);
    let fx = if large { 0 } else { *sim.of(&[0u64, 2, 3]) };
    let max = if large { 260 } else { *sim.of(&[4u32, 1, 3, 5, 8, 12]) };
    let by_default = sim.coin();
    let rf = reg_fixture(fx, max, by_default, 0);
    let t = SimTails::new(&rf);
    if large {
        sim.probe("large registry");
    }
    let mut rr: RevocationRegistry = parse(&rf.reg);
    let mut m = Model::new(max, by_default);
    ensure!(sim, accum_of(&rr) == m.accum(&t), "accum", "a new registry does not describe {:?}", m.valid);
    // states[i] is the state before deltas[i]
    let mut states = vec![m.clone()];
    let mut regs = vec![js(&rr)];
    let mut deltas: Vec<String> = vec![];
    let n_hold = 1 + sim.pick(3);
    let mut holders: Vec<Holder> = vec![];
    let cfg = NetCfg::swarm(sim, false);
    let restart_p = *sim.of(&[0u64, 100, 300]);
    let mut net = Net::new(cfg);
    let n_ops = 2 + sim.choose(if sim.tier == simcore::sim::Tier::Thorough { 20 } else { 10 });
    let mut done_ops = 0;
    let mut rounds = 0;
    loop {
        rounds += 1;
        ensure!(sim, rounds < 200, "catch-up-stuck", "witnesses did not catch up");
        // issuer
        if done_ops < n_ops {
            let k = 1 + sim.choose(3);
            for _ in 0..k {
                if done_ops == n_ops {
                    break;
                }
                let Some(op) = gen_op(sim, &m) else { continue };
                if sim.fault("restart.issuer", restart_p) {
                    rr = reload(&rr);
                }
                let before = m.clone();
                apply_model(&mut m, &op);
                ev!(sim, "issuer {:?}", op);
                let d = sim.must("registry operation", || apply(&mut rr, max, &op, &t));
                ensure!(sim, accum_of(&rr) == m.accum(&t), "accum", "after {:?} the registry does not describe {:?}", op, m.valid);
                check_delta(sim, &d, &before, &m, &t, &format!("{:?}", op));
                deltas.push(js(&d));
                states.push(m.clone());
                regs.push(js(&rr));
                done_ops += 1;
                sim.state_str(&format!("{}{}{:?}", max, by_default, m.valid));
                sim.probe("registry operation");
            }
        } else {
            net.heal();
        }
        // holders appear
        if holders.len() < n_hold && sim.coin() {
            let idx = 1 + sim.choose(max as u64) as u32;
            let at = deltas.len();
            let w = fresh_witness(sim, &rf, idx, &states, &regs, at, &t);
            holders.push(Holder { idx, w, at });
        }
        // holders ask for what they miss
        let pend: Vec<usize> = (0..holders.len()).filter(|h| holders[*h].at < deltas.len()).collect();
        if pend.is_empty() && done_ops == n_ops && net.q.is_empty() && holders.len() == n_hold {
            break;
        }
        for h in pend {
            if sim.fault("restart.holder", restart_p) {
                holders[h].w = reload(&holders[h].w);
            }
            let at = holders[h].at;
            // sometimes only part of what is missing, so that chains of every grouping are met
            let to = if sim.chance(600) { deltas.len() } else { at + 1 + sim.pick(deltas.len() - at) };
            net.send(sim, 1 + h, 0, "get-deltas", serde_json::json!({"h": h, "from": at, "to": to}).to_string().into_bytes());
        }
        while let Some(msg) = net.next(sim) {
            let v: Value = serde_json::from_slice(&msg.body).unwrap();
            let h = v["h"].as_u64().unwrap() as usize;
            let (from, to) = (v["from"].as_u64().unwrap() as usize, v["to"].as_u64().unwrap() as usize);
            if msg.to == 0 {
                let d = merge_range(sim, &deltas, &states, from, to, &t);
                let b = serde_json::json!({"h": h, "from": from, "to": to, "d": js(&d)});
                net.send(sim, 0, msg.from, "deltas", b.to_string().into_bytes());
            } else {
                let hd = &mut holders[h];
                if hd.at != from {
                    continue; // an old answer
                }
                let d: RevocationRegistryDelta = parse(v["d"].as_str().unwrap());
                let idx = hd.idx;
                sim.must("Witness::update", || hd.w.update(idx, max, &d, &t));
                hd.at = to;
                ensure!(sim, omega_of(&hd.w) == states[to].omega(hd.idx, &t), "witness", "witness of {} brought from state {} to {} is not the witness of {:?}", hd.idx, from, to, states[to].valid);
                let f = fresh_witness(sim, &rf, idx, &states, &regs, to, &t);
                ensure!(sim, omega_of(&f) == omega_of(&holders[h].w), "witness", "witness updated by deltas differs from the witness computed anew (index {}, {:?})", idx, states[to].valid);
                sim.probe("witness updated");
            }
        }
    }
    // another path to the same set gives the same registry
    let mut r2: RevocationRegistry = parse(&rf.reg);
    let mut m2 = Model::new(max, by_default);
    let (mut iss, mut rev): (Vec<u32>, Vec<u32>) = (m.valid.difference(&m2.valid).cloned().collect(), m2.valid.difference(&m.valid).cloned().collect());
    sim.shuffle(&mut iss);
    sim.shuffle(&mut rev);
    let mut ops: Vec<Op> = iss.into_iter().map(Op::Recover).chain(rev.into_iter().map(Op::Revoke)).collect();
    sim.shuffle(&mut ops);
    for op in ops {
        apply_model(&mut m2, &op);
        sim.must("registry operation", || apply(&mut r2, max, &op, &t));
    }
    ensure!(sim, accum_of(&r2) == accum_of(&rr), "accum", "two paths to {:?} give different registries", m.valid);
    ensure!(sim, g2(&jv(&RevocationRegistry::from(parse::<RevocationRegistryDelta>(&js(&RevocationRegistryDelta::from_parts(None, &rr, &HashSet::new(), &HashSet::new())))))["accum"]) == m.accum(&t), "accum", "a registry made from a delta differs");
    // deltas that do not follow each other are refused and change nothing
    if deltas.len() >= 2 {
        let a = sim.pick(deltas.len());
        let b = sim.pick(deltas.len());
        let mut x: RevocationRegistryDelta = parse(&deltas[a]);
        let y: RevocationRegistryDelta = parse(&deltas[b]);
        let follows = states[a + 1].accum(&t) == states[b].accum(&t);
        let before = js_sorted(&x);
        let r = sim.no_panic("merge", || x.merge(&y));
        ensure!(sim, r.is_ok() == follows, "merge-order", "merging delta {} with delta {} gave {:?} but consecutive = {}", a, b, r.is_ok(), follows);
        if r.is_err() {
            ensure!(sim, js_sorted(&x) == before, "merge-failed-changed", "a refused merge changed the delta");
            sim.probe("non-consecutive merge refused");
        }
    }
    // a delta without a start cannot follow anything
    let mut x: RevocationRegistryDelta = parse(&deltas[0]);
    let y = RevocationRegistryDelta::from_parts(None, &parse(&regs[1]), &HashSet::new(), &HashSet::new());
    let r = sim.no_panic("merge", || x.merge(&y));
    ensure!(sim, r.is_err(), "merge-order", "a delta without a start state was merged");
}

/// Deltas hold sets whose order in JSON is arbitrary.
fn js_sorted(d: &RevocationRegistryDelta) -> String {
    let mut v = jv(d);
    for k in ["issued", "revoked"] {
        let mut x: Vec<u64> = set_of(&v[k]).into_iter().map(|i| i as u64).collect();
        x.sort();
        v[k] = serde_json::json!(x);
    }
    v.to_string()
}

/// The witness computed from scratch for state `at`.
fn fresh_witness(sim: &mut Sim, rf: &Arc<RegFixture>, idx: u32, states: &[Model], regs: &[String], at: usize, t: &SimTails) -> Witness {
    let m0 = Model::new(rf.max, rf.by_default);
    let issued: HashSet<u32> = states[at].valid.difference(&m0.valid).cloned().collect();
    let revoked: HashSet<u32> = m0.valid.difference(&states[at].valid).cloned().collect();
    let d = RevocationRegistryDelta::from_parts(None, &parse(&regs[at]), &issued, &revoked);
    let d: RevocationRegistryDelta = if sim.coin() { reload(&d) } else { d };
    let w = sim.must("Witness::new", || Witness::new(idx, rf.max, rf.by_default, &d, t));
    ensure!(sim, omega_of(&w) == states[at].omega(idx, t), "witness", "witness of {} computed anew for {:?} is wrong", idx, states[at].valid);
    w
}

/// Deltas from..to merged in a randomly chosen grouping.
fn merge_range(sim: &mut Sim, deltas: &[String], states: &[Model], from: usize, to: usize, t: &SimTails) -> RevocationRegistryDelta {
    let d = merge_tree(sim, deltas, states, from, to, t);
    check_delta(sim, &d, &states[from], &states[to], t, &format!("merge of deltas {}..{}", from, to));
    if to - from > 1 {
        sim.probe("deltas merged");
    }
    d
}
fn merge_tree(sim: &mut Sim, deltas: &[String], states: &[Model], from: usize, to: usize, t: &SimTails) -> RevocationRegistryDelta {
    if to - from == 1 {
        return parse(&deltas[from]);
    }
    let mid = from + 1 + sim.pick(to - from - 1);
    let mut a = merge_tree(sim, deltas, states, from, mid, t);
    let b = merge_tree(sim, deltas, states, mid, to, t);
    if sim.chance(200) {
        a = reload(&a);
    }
    sim.must("merge", || a.merge(&b));
    a
}

// ---- C05 -------------------------------------------------------------------------------------

/// Pool credentials that share a registry (key, issuance type).
const GROUPS: [&[u64]; 8] = [&[7, 14], &[2, 9], &[6, 13], &[3, 10, 17], &[0], &[4], &[11], &[16]];

struct Rh {
    id: u64,
    h: Held,
    idx: u32,
    w: Witness,
    at: usize,
    stale: Vec<(usize, String)>,
}

fn prove(sim: &mut Sim, h: &Held, sig: &CredentialSignature, reg: Option<&RevocationRegistry>, w: Option<&Witness>, n: &Nonce, spr: &SubProofRequest) -> Option<Proof> {
    let r = sim.guard(|| {
        let mut b = Prover::new_proof_builder()?;
        b.add_common_attribute("master_secret")?;
        b.add_sub_proof_request(spr, &h.schema, &h.non_schema, sig, &h.values, &h.keys.pk, reg, w)?;
        b.finalize(n)
    });
    match r {
        Ok(Ok(p)) => Some(p),
        Ok(Err(_)) => None,
        Err(p) => sim.stop("panic:prove", format!("building a presentation panicked at {}: {}", p.location, p.message)),
    }
}
fn check(sim: &mut Sim, h: &Held, reg: &RevocationRegistry, p: &Proof, n: &Nonce, spr: &SubProofRequest) -> bool {
    let mut v = Verifier::new_proof_verifier().unwrap();
    v.add_common_attribute("master_secret").unwrap();
    v.add_sub_proof_request(spr, &h.schema, &h.non_schema, &h.keys.pk, h.rkp.as_ref(), Some(reg)).unwrap();
    matches!(sim.no_panic("verify", || v.verify(p, n)), Ok(true))
}

pub fn validity(sim: &mut Sim) {
    let group = *sim.of(&GROUPS);
    let c0 = cred_fixture(group[0]);
    let rf = c0.reg.as_ref().unwrap().0.clone();
    let max = rf.max;
    let t = SimTails::new(&rf);
    let mut rr: RevocationRegistry = parse(&rf.reg);
    let mut m = Model::new(max, rf.by_default);
    let mut states = vec![m.clone()];
    let mut regs = vec![js(&rr)];
    let mut deltas: Vec<String> = vec![];
    let mut hs: Vec<Rh> = vec![];
    for id in group {
        let h = held(*id);
        let idx = h.fx.reg.as_ref().unwrap().1;
        let w = fresh_witness(sim, &rf, idx, &states, &regs, 0, &t);
        hs.push(Rh { id: *id, h, idx, w, at: 0, stale: vec![] });
    }
    let steps = 2 + sim.choose(4);
    for _ in 0..steps {
        // the registry moves, mostly on the indices held here
        let k = 1 + sim.choose(2);
        for _ in 0..k {
            let i = hs[sim.pick(hs.len())].idx;
            let op = if sim.chance(700) {
                if m.valid.contains(&i) { Op::Revoke(i) } else { Op::Recover(i) }
            } else {
                match gen_op(sim, &m) {
                    Some(o) => o,
                    None => continue,
                }
            };
            apply_model(&mut m, &op);
            ev!(sim, "registry {:?} -> {:?}", op, m.valid);
            let d = sim.must("registry operation", || apply(&mut rr, max, &op, &t));
            deltas.push(js(&d));
            states.push(m.clone());
            regs.push(js(&rr));
        }
        for hi in 0..hs.len() {
            // follow the deltas
            if sim.chance(250) {
                continue; // this holder is slow
            }
            let h = &mut hs[hi];
            if h.at < deltas.len() {
                h.stale.push((h.at, js(&h.w)));
                let d = merge_range(sim, &deltas, &states, h.at, deltas.len(), &t);
                sim.must("Witness::update", || h.w.update(h.idx, max, &d, &t));
                h.at = deltas.len();
                if sim.chance(200) {
                    sim.note_fault("restart.holder");
                    h.w = reload(&h.w);
                }
            }
        }
        let hi = sim.pick(hs.len());
        let valid = m.valid.contains(&hs[hi].idx);
        let f = hs[hi].h.keys.f.clone();
        let spr = {
            let vals = hs[hi].h.vals.clone();
            gen_spr(sim, &f, &vals, &Default::default(), 1).build(sim)
        };
        let n = new_nonce().unwrap();
        sim.state_str(&format!("{} {} {}", valid, hs[hi].at == deltas.len(), states.len()));
        if valid {
            if hs[hi].at < deltas.len() {
                // a slow holder catches up before presenting
                let d = merge_range(sim, &deltas, &states, hs[hi].at, deltas.len(), &t);
                let h = &mut hs[hi];
                sim.must("Witness::update", || h.w.update(h.idx, max, &d, &t));
                h.at = deltas.len();
            }
            let h = &hs[hi];
            let Some(p) = prove(sim, &h.h, &h.h.sig, Some(&rr), Some(&h.w), &n, &spr) else {
                sim.stop("valid-holder-rejected", format!("the holder of valid index {} could not build a presentation", h.idx))
            };
            let p: Proof = reload(&p);
            let ok = check(sim, &h.h, &rr, &p, &n, &spr);
            ensure!(sim, ok, "valid-holder-rejected", "the presentation of valid index {} with an up-to-date witness was rejected (valid: {:?})", h.idx, m.valid);
            sim.probe("valid holder accepted");
            if states.iter().any(|s| !s.valid.contains(&h.idx)) {
                sim.probe("restored holder accepted");
            }
            // the same presentation against an earlier registry in which the holder was not valid
            if let Some(i) = (0..states.len()).find(|i| !states[*i].valid.contains(&h.idx)) {
                let old: RevocationRegistry = parse(&regs[i]);
                let ok = check(sim, &h.h, &old, &p, &n, &spr);
                ensure!(sim, !ok, "revoked-accepted:other-state", "a presentation for the current registry was accepted against a state in which the index is not valid");
            }
        } else {
            attack(sim, &mut hs, hi, &rr, &m, &states, &regs, &t, &n, &spr, max);
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn attack(sim: &mut Sim, hs: &mut [Rh], hi: usize, rr: &RevocationRegistry, m: &Model, states: &[Model], regs: &[String], t: &SimTails, n: &Nonce, spr: &SubProofRequest, max: u32) {
    let idx = hs[hi].idx;
    let mut tries: Vec<(&'static str, Option<Proof>)> = vec![];
    let kind = sim.choose(9);
    let h = &hs[hi];
    match kind {
        0 => {
            let p = prove(sim, &h.h, &h.h.sig, Some(rr), Some(&h.w), n, spr);
            tries.push(("own witness", p));
        }
        1 => {
            // every stale witness, with the current registry and with the registry it belonged to
            for (at, w) in h.stale.iter().rev().take(2) {
                let w: Witness = parse(w);
                let p = prove(sim, &h.h, &h.h.sig, Some(rr), Some(&w), n, spr);
                tries.push(("stale witness", p));
                let old: RevocationRegistry = parse(&regs[*at]);
                let p = prove(sim, &h.h, &h.h.sig, Some(&old), Some(&w), n, spr);
                tries.push(("stale registry and witness", p));
            }
        }
        2 => {
            if let Some(i) = (0..states.len()).rev().find(|i| states[*i].valid.contains(&idx)) {
                let old: RevocationRegistry = parse(&regs[i]);
                let d = {
                    let m0 = Model::new(max, m.by_default);
                    let iss: HashSet<u32> = states[i].valid.difference(&m0.valid).cloned().collect();
                    let rev: HashSet<u32> = m0.valid.difference(&states[i].valid).cloned().collect();
                    RevocationRegistryDelta::from_parts(None, &old, &iss, &rev)
                };
                let w = sim.must("Witness::new", || Witness::new(idx, max, m.by_default, &d, t));
                let p = prove(sim, &h.h, &h.h.sig, Some(&old), Some(&w), n, spr);
                tries.push(("genuine proof for an earlier registry", p));
            }
        }
        3 | 4 => {
            // pieces of another, valid, credential of the same registry
            let others: Vec<usize> = (0..hs.len()).filter(|o| *o != hi && m.valid.contains(&hs[*o].idx)).collect();
            if others.is_empty() {
                return;
            }
            let o = &hs[*sim.of(&others)];
            let mut mine = jv(&h.h.sig);
            let theirs = jv(&o.h.sig);
            let at = o.at == regs.len() - 1;
            if !at {
                return;
            }
            if kind == 3 {
                mine["r_credential"] = theirs["r_credential"].clone();
                let sig: CredentialSignature = parse(&mine.to_string());
                let p = prove(sim, &h.h, &sig, Some(rr), Some(&o.w), n, spr);
                sim.probe("hybrid credential");
                tries.push(("non-revocation part of another credential", p));
                // the same with this credential's own m2 inside
                mine["r_credential"]["m2"] = jv(&h.h.sig)["r_credential"]["m2"].clone();
                let sig: CredentialSignature = parse(&mine.to_string());
                let p = prove(sim, &h.h, &sig, Some(rr), Some(&o.w), n, spr);
                tries.push(("non-revocation part of another credential with own m2", p));
            } else {
                for k in ["witness_signature", "g_i", "i"] {
                    mine["r_credential"][k] = theirs["r_credential"][k].clone();
                    let sig: CredentialSignature = parse(&mine.to_string());
                    let p = prove(sim, &h.h, &sig, Some(rr), Some(&o.w), n, spr);
                    tries.push(("another holder's witness signature", p));
                }
                let p = prove(sim, &h.h, &h.h.sig, Some(rr), Some(&o.w), n, spr);
                tries.push(("another holder's witness", p));
                let p = prove(sim, &h.h, &o.h.sig, Some(rr), Some(&o.w), n, spr);
                tries.push(("another holder's credential", p));
            }
        }
        5 => {
            let p = prove(sim, &h.h, &h.h.sig, None, None, n, spr);
            tries.push(("no non-revocation part", p));
            let p = prove(sim, &h.h, &h.h.sig, Some(rr), Some(&h.w), n, spr);
            if let Some(p) = p {
                let mut v = jv(&p);
                v["proofs"][0]["non_revoc_proof"] = Value::Null;
                tries.push(("non-revocation part cut out", serde_json::from_value(v).ok()));
            }
        }
        6 => {
            // a witness computed from a false history
            let mut claim = m.clone();
            claim.valid.insert(idx);
            let m0 = Model::new(max, m.by_default);
            let iss: HashSet<u32> = claim.valid.difference(&m0.valid).cloned().collect();
            let rev: HashSet<u32> = m0.valid.difference(&claim.valid).cloned().collect();
            let d = RevocationRegistryDelta::from_parts(None, rr, &iss, &rev);
            let w = sim.must("Witness::new", || Witness::new(idx, max, m.by_default, &d, t));
            let p = prove(sim, &h.h, &h.h.sig, Some(rr), Some(&w), n, spr);
            tries.push(("witness from a false history", p));
        }
        _ => {
            // a witness assembled from the published tails: omega plus or minus any one tail
            let omega = {
                let mut a = PointG2::new_inf().unwrap();
                for j in m.valid.iter() {
                    a = a.add(&t.tails[(max + 1 - j + idx) as usize]).unwrap();
                }
                a
            };
            let ks: Vec<usize> = if kind == 7 { vec![(max + 1) as usize] } else { vec![sim.pick(t.tails.len()), (max + 1 - idx) as usize] };
            for k in ks {
                for plus in [false, true] {
                    let o = if plus { omega.add(&t.tails[k]) } else { omega.sub(&t.tails[k]) }.unwrap();
                    let w: Witness = parse(&serde_json::json!({"omega": o.to_string().unwrap()}).to_string());
                    let p = prove(sim, &h.h, &h.h.sig, Some(rr), Some(&w), n, spr);
                    tries.push(("witness assembled from published tails", p));
                }
            }
        }
    }
    for (what, p) in tries {
        let Some(p) = p else { continue };
        let ok = check(sim, &hs[hi].h, rr, &p, n, spr);
        ensure!(sim, !ok, &format!("revoked-accepted:{}", what), "a holder whose index {} is not valid was accepted with: {} (valid: {:?}, credential {})", idx, what, m.valid, hs[hi].id);
        sim.probe("revoked holder refused");
    }
}

// ---- C06 -------------------------------------------------------------------------------------

/// Registry and witness operations over failing tails storage, and with refused arguments.
pub fn failing_registry(sim: &mut Sim) {
    let fx = *sim.of(&[0u64, 2, 3]);
    let max = *sim.of(&[4u32, 1, 3, 5, 8]);
    let by_default = sim.coin();
    let rf = reg_fixture(fx, max, by_default, 0);
    let t = SimTails::new(&rf);
    let mut rr: RevocationRegistry = parse(&rf.reg);
    let mut m = Model::new(max, by_default);
    let idx = 1 + sim.choose(max as u64) as u32;
    let mut states = vec![m.clone()];
    let mut regs = vec![js(&rr)];
    let mut w = fresh_witness(sim, &rf, idx, &states, &regs, 0, &t);
    let steps = 2 + sim.choose(6);
    for _ in 0..steps {
        let Some(op) = gen_op(sim, &m) else { continue };
        // refused arguments
        if sim.chance(300) {
            let bad = *sim.of(&[0u32, max + 1, 2 * max + 1, u32::MAX, u32::MAX / 2]);
            let op2 = match sim.choose(4) {
                0 => Op::Revoke(bad),
                1 => Op::Recover(bad),
                2 => Op::Batch([bad].into_iter().chain(m.valid.iter().cloned()).collect(), BTreeSet::new()),
                _ => Op::Batch(BTreeSet::new(), [bad].into_iter().chain(m.valid.iter().cloned()).collect()),
            };
            let before = js(&rr);
            let r = sim.no_panic("registry operation", || apply(&mut rr, max, &op2, &t));
            ensure!(sim, r.is_err(), "bad-index-accepted", "{:?} succeeded in a registry of {}", op2, max);
            ensure!(sim, js(&rr) == before, "changed-by-failure", "failed {:?} changed the registry", op2);
            sim.note_fault("args.refused");
            sim.probe("refused operation left the registry alone");
        }
        // storage failures until it works
        let mut d = None;
        for attempt in 0..4 {
            let fail = attempt < 3 && sim.fault("tails.error", 450);
            if fail {
                let need = match &op { Op::Batch(a, b) => a.len() + b.len(), _ => 1 };
                let f = if sim.coin() { TailFault::After } else { TailFault::Before };
                t.arm(sim.choose(need.max(1) as u64), f);
            }
            let before = js(&rr);
            let fired = t.fired.get();
            let r = sim.no_panic("registry operation", || apply(&mut rr, max, &op, &t));
            t.heal();
            match r {
                Ok(x) => {
                    ensure!(sim, t.fired.get() == fired, "storage-error-hidden", "{:?} reported success although the tails storage failed", op);
                    d = Some(x);
                    break;
                }
                Err(e) => {
                    ensure!(sim, t.fired.get() > fired, "refused-without-cause", "{:?} failed: {}", op, e);
                    ensure!(sim, js(&rr) == before, "changed-by-failure", "{:?} failed half-way and changed the registry", op);
                    sim.probe("failed operation left the registry alone");
                }
            }
        }
        let d = d.expect("last attempt has no fault");
        let before_m = m.clone();
        apply_model(&mut m, &op);
        ensure!(sim, accum_of(&rr) == m.accum(&t), "retry-differs", "after retries {:?} gave a registry that does not describe {:?}", op, m.valid);
        check_delta(sim, &d, &before_m, &m, &t, "after retries");
        states.push(m.clone());
        regs.push(js(&rr));
        // witness
        for attempt in 0..4 {
            let fail = attempt < 3 && sim.fault("tails.error", 450);
            if fail {
                t.arm(sim.choose(3), if sim.coin() { TailFault::After } else { TailFault::Before });
            }
            let before = js(&w);
            let fired = t.fired.get();
            let r = sim.no_panic("Witness::update", || w.update(idx, max, &d, &t));
            t.heal();
            match r {
                Ok(()) => {
                    ensure!(sim, t.fired.get() == fired, "storage-error-hidden", "Witness::update reported success although the tails storage failed");
                    break;
                }
                Err(e) => {
                    ensure!(sim, t.fired.get() > fired, "refused-without-cause", "Witness::update failed: {}", e);
                    ensure!(sim, js(&w) == before, "changed-by-failure", "a failed update changed the witness");
                    sim.probe("failed update left the witness alone");
                }
            }
        }
        ensure!(sim, omega_of(&w) == m.omega(idx, &t), "retry-differs", "after retries the witness of {} is not that of {:?}", idx, m.valid);
        // Witness::new over failing storage
        if sim.chance(300) {
            t.arm(sim.choose(3), if sim.coin() { TailFault::After } else { TailFault::Before });
            let m0 = Model::new(max, by_default);
            let iss: HashSet<u32> = m.valid.difference(&m0.valid).cloned().collect();
            let rev: HashSet<u32> = m0.valid.difference(&m.valid).cloned().collect();
            let dd = RevocationRegistryDelta::from_parts(None, &rr, &iss, &rev);
            let fired = t.fired.get();
            let r = sim.no_panic("Witness::new", || Witness::new(idx, max, by_default, &dd, &t));
            t.heal();
            if t.fired.get() > fired {
                sim.note_fault("tails.error");
                ensure!(sim, r.is_err(), "storage-error-hidden", "Witness::new reported success although the tails storage failed");
            } else {
                ensure!(sim, r.is_ok(), "refused-without-cause", "Witness::new failed");
            }
        }
    }
    sim.state_str(&format!("{} {} {:?}", max, by_default, m.valid));
}

/// Issuing into a registry whose storage fails, and a holder processing a credential that fails.
pub fn failing_issue(sim: &mut Sim) {
    let fx = *sim.of(&[0u64, 2, 3, 4, 6]);
    let k = keys(fx);
    let max = *sim.of(&[4u32, 1, 3]);
    let by_default = sim.chance(400);
    let rf = reg_fixture(fx, max, by_default, 0);
    let t = SimTails::new(&rf);
    let rks: RevocationKeyPrivate = parse(&rf.rks);
    let rkp: RevocationKeyPublic = parse(&rf.rkp);
    let mut rr: RevocationRegistry = parse(&rf.reg);
    let ms = MS[sim.pick(3)];
    let vals = gen_values(sim, &k.f, ms);
    let hv = values(&vals);
    let iv = known_values(&vals);
    let n1 = new_nonce().unwrap();
    let n2 = new_nonce().unwrap();
    let (bcs, bf, bcp) = sim.must("blind_credential_secrets", || Prover::blind_credential_secrets(&k.pk, &k.proof, &hv, &n1));
    let idx = 1 + sim.choose(max as u64) as u32;
    let other_nonce = new_nonce().unwrap();
    let mut out = None;
    for attempt in 0..4 {
        let before = js(&rr);
        let what = if attempt == 3 { 3 } else { sim.choose(4) };
        let fired = t.fired.get();
        let (mut use_idx, mut n) = (idx, &n1);
        match what {
            0 => {
                t.arm(0, if sim.coin() { TailFault::After } else { TailFault::Before });
                sim.note_fault("tails.error");
            }
            1 => {
                use_idx = *sim.of(&[0u32, max + 1, u32::MAX]);
                sim.note_fault("args.refused");
            }
            2 => {
                n = &other_nonce;
                sim.note_fault("args.refused");
            }
            _ => {}
        }
        let r = sim.no_panic("sign_credential_with_revoc", || Issuer::sign_credential_with_revoc("p", &bcs, &bcp, n, &n2, &iv, &k.pk, &k.sk, use_idx, max, by_default, &mut rr, &rks, &t));
        t.heal();
        match r {
            Ok(x) => {
                ensure!(sim, t.fired.get() == fired, "storage-error-hidden", "signing reported success although the tails storage failed");
                ensure!(sim, what == 3 || what == 0, "bad-arguments-accepted", "signing succeeded with refused arguments ({})", what);
                out = Some(x);
                break;
            }
            Err(e) => {
                ensure!(sim, what != 3, "refused-without-cause", "signing failed: {}", e);
                ensure!(sim, js(&rr) == before, "changed-by-failure", "failed signing changed the registry");
                sim.probe("failed signing left the registry alone");
            }
        }
    }
    let (mut sig, sp, d) = out.expect("last attempt is clean");
    let mut m = Model::new(max, by_default);
    let m0 = m.clone();
    m.valid.insert(idx);
    ensure!(sim, accum_of(&rr) == m.accum(&t), "retry-differs", "after retries signing gave a registry that does not describe {:?}", m.valid);
    if let Some(d) = &d {
        check_delta(sim, d, &m0, &m, &t, "signing");
    }
    ensure!(sim, d.is_some() != by_default, "delta-presence", "delta {} with issuance by default {}", d.is_some(), by_default);
    // the holder
    let iss: HashSet<u32> = if by_default { HashSet::new() } else { [idx].into() };
    let full = RevocationRegistryDelta::from_parts(None, &rr, &iss, &HashSet::new());
    let w = sim.must("Witness::new", || Witness::new(idx, max, by_default, &full, &t));
    let bad_reg: RevocationRegistry = {
        // a registry state the witness does not belong to
        let mut r2: RevocationRegistry = parse(&js(&rr));
        Issuer::revoke_credential(&mut r2, max, idx, &t).unwrap();
        r2
    };
    let other = {
        let (_, b, _) = Prover::blind_credential_secrets(&k.pk, &k.proof, &hv, &n1).unwrap();
        b
    };
    let mut wrong_vals = vals.clone();
    for v in wrong_vals.iter_mut() {
        if v.kind == Kind::Known {
            v.dec = simcore::mutate::dec_add(&v.dec, 1);
            break;
        }
    }
    let wv = values(&wrong_vals);
    let wrong_same = !vals.iter().any(|v| v.kind == Kind::Known);
    let mut ok = false;
    for attempt in 0..4 {
        let before = js(&sig);
        let what = if attempt == 3 { 9 } else { sim.choose(6) };
        let (mut reg, mut n, mut b, mut v) = (&rr, &n2, &bf, &hv);
        match what {
            0 => reg = &bad_reg,
            1 => n = &other_nonce,
            2 => b = &other,
            3 if !wrong_same => v = &wv,
            _ => {}
        }
        let faulty = what < 3 || (what == 3 && !wrong_same);
        let r = sim.no_panic("process_credential_signature", || Prover::process_credential_signature(&mut sig, v, &sp, b, &k.pk, n, Some(&rkp), Some(reg), Some(&w)));
        match r {
            Ok(()) => {
                ensure!(sim, !faulty, "bad-arguments-accepted", "processing succeeded with wrong arguments ({})", what);
                ok = true;
                break;
            }
            Err(e) => {
                ensure!(sim, faulty, "refused-without-cause", "processing an honest credential failed after earlier failures: {}", e);
                ensure!(sim, js(&sig) == before, "changed-by-failure", "failed processing ({}) changed the credential", what);
                sim.note_fault("args.refused");
                sim.probe("failed processing left the credential alone");
            }
        }
    }
    ensure!(sim, ok, "refused-without-cause", "processing never succeeded");
    // a presentation builder that met failing requests on the way
    let (schema, non) = present_schemas(&k.f);
    let cv = cred_values(&vals);
    let cvals: Vec<Val> = vals.iter().filter(|v| v.kind != Kind::Committed).cloned().collect();
    let good = gen_spr(sim, &k.f, &cvals, &Default::default(), 1).build(sim);
    let mut bad = Spr::default();
    match cvals.iter().find(|v| k.f.attrs.contains(&v.attr)) {
        Some(v) => match v.int() {
            Some(i) if i < i32::MAX => bad.preds.push(Pred { attr: v.attr.clone(), ty: "GT", val: i }),
            _ => bad.preds.push(Pred { attr: v.attr.clone(), ty: "GE", val: 0 }),
        },
        None => return,
    }
    let unsat = cvals.iter().find(|v| v.attr == bad.preds[0].attr).and_then(|v| v.int()).map(|i| !holds(bad.preds[0].ty, i as i64, bad.preds[0].val as i64)).unwrap_or(true);
    let bad = bad.build(sim);
    let n = new_nonce().unwrap();
    let mut b = Prover::new_proof_builder().unwrap();
    b.add_common_attribute("master_secret").unwrap();
    let mut ver = Verifier::new_proof_verifier().unwrap();
    ver.add_common_attribute("master_secret").unwrap();
    let order = sim.choose(3);
    for i in 0..3 {
        if i == order && unsat {
            let r = sim.no_panic("add_sub_proof_request", || b.add_sub_proof_request(&bad, &schema, &non, &sig, &cv, &k.pk, Some(&rr), Some(&w)));
            ensure!(sim, r.is_err(), "bad-arguments-accepted", "an unsatisfied predicate was accepted by the prover");
            sim.probe("failed request left the builder alone");
        } else if i == 0 || i == 1 {
            sim.must("add_sub_proof_request", || b.add_sub_proof_request(&good, &schema, &non, &sig, &cv, &k.pk, Some(&rr), Some(&w)));
            sim.must("verifier.add_sub_proof_request", || ver.add_sub_proof_request(&good, &schema, &non, &k.pk, Some(&rkp), Some(&rr)));
        }
    }
    let p = sim.must("finalize", || b.finalize(&n));
    let r = sim.no_panic("verify", || ver.verify(&p, &n));
    ensure!(sim, matches!(r, Ok(true)), "changed-by-failure", "a refused request in between spoiled the presentation: {:?}", r);
}
