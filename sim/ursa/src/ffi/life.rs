//! C09: a credential's life through the C interface, every call a twin of the library operation.
use super::abi::*;
use crate::cl::world::*;
use simcore::{ev, Sim};
use std::collections::{BTreeSet, HashSet};
use std::os::raw::c_char;
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::verifier::Verifier;
use ursa::cl::*;
use ursa::ffi::cl::issuer::*;
use ursa::ffi::cl::prover::*;
use ursa::ffi::cl::verifier::*;
use ursa::ffi::cl::*;
use ursa::ffi::ErrorCode;

pub fn dbg<T: std::fmt::Debug>(t: &T) -> String {
    format!("{:?}", t)
}

/// Build a schema through C. Odd names are tried too.
fn schema_c(sim: &mut Sim, attrs: &[String]) -> H {
    let mut b = sent();
    let c = ursa_cl_credential_schema_builder_new(&mut b);
    sim.check(c == ErrorCode::Success, "outcome", || format!("schema builder: {:?}", c));
    for a in attrs {
        if sim.chance(50) {
            refused(sim, "add an empty attribute", &[101], || Out::c(ursa_cl_credential_schema_builder_add_attr(b, cs("").as_ptr())));
        }
        let c = ursa_cl_credential_schema_builder_add_attr(b, cs(a).as_ptr());
        sim.check(c == ErrorCode::Success, "outcome", || format!("add attribute: {:?}", c));
    }
    refused(sim, "finalize a schema to a null output", &[101], || Out::c(ursa_cl_credential_schema_builder_finalize(b, std::ptr::null_mut())));
    let mut h = sent();
    let c = ursa_cl_credential_schema_builder_finalize(b, &mut h);
    sim.check(c == ErrorCode::Success, "outcome", || format!("schema: {:?}", c));
    h
}
fn non_schema_c(sim: &mut Sim, attrs: &[String]) -> H {
    let mut b = sent();
    let c = ursa_cl_non_credential_schema_builder_new(&mut b);
    sim.check(c == ErrorCode::Success, "outcome", || format!("schema builder: {:?}", c));
    for a in attrs {
        let c = ursa_cl_non_credential_schema_builder_add_attr(b, cs(a).as_ptr());
        sim.check(c == ErrorCode::Success, "outcome", || format!("add attribute: {:?}", c));
    }
    refused(sim, "finalize a schema to a null output", &[101], || Out::c(ursa_cl_non_credential_schema_builder_finalize(b, std::ptr::null_mut())));
    let mut h = sent();
    let c = ursa_cl_non_credential_schema_builder_finalize(b, &mut h);
    sim.check(c == ErrorCode::Success, "outcome", || format!("schema: {:?}", c));
    h
}
/// Build values through C; malformed numbers must be refused and leave the builder usable.
fn values_c(sim: &mut Sim, vs: &[Val]) -> H {
    let mut b = sent();
    let c = ursa_cl_credential_values_builder_new(&mut b);
    sim.check(c == ErrorCode::Success, "outcome", || format!("values builder: {:?}", c));
    for v in vs {
        let (a, d, f) = (cs(&v.attr), cs(&v.dec), cs(&v.blind));
        if sim.chance(60) {
            let bad = *sim.of(&["x", "12x", "-", "1 2", "0x10", "+"]);
            let probe = {
                let mut lb = Issuer::new_credential_values_builder().unwrap();
                lb.add_dec_known(&v.attr, bad).map(|_| ())
            };
            let e = probe.err();
            let want = e.as_ref().map(code_of).unwrap_or(0);
            if want != 0 {
                refused(sim, "add a malformed value", &[want], || Out::c(ursa_cl_credential_values_builder_add_dec_known(b, a.as_ptr(), cs(bad).as_ptr())));
            }
            refused(sim, "add an empty value", &[102], || Out::c(ursa_cl_credential_values_builder_add_dec_hidden(b, a.as_ptr(), cs("").as_ptr())));
        }
        let c = match v.kind {
            Kind::Known => ursa_cl_credential_values_builder_add_dec_known(b, a.as_ptr(), d.as_ptr()),
            Kind::Hidden => ursa_cl_credential_values_builder_add_dec_hidden(b, a.as_ptr(), d.as_ptr()),
            Kind::Committed => ursa_cl_credential_values_builder_add_dec_commitment(b, a.as_ptr(), d.as_ptr(), f.as_ptr()),
        };
        sim.check(c == ErrorCode::Success, "outcome", || format!("add value: {:?} {}", c, current_message()));
    }
    refused(sim, "finalize values to a null output", &[101], || Out::c(ursa_cl_credential_values_builder_finalize(b, std::ptr::null_mut())));
    let mut h = sent();
    let c = ursa_cl_credential_values_builder_finalize(b, &mut h);
    sim.check(c == ErrorCode::Success, "outcome", || format!("values: {:?}", c));
    let (x, y) = (dbg(view::<CredentialValues>(h)), dbg(&values(vs)));
    sim.check(x == y, "outputs", || format!("values built through C are {} instead of {}", x, y));
    h
}
fn spr_c(sim: &mut Sim, s: &Spr) -> H {
    let mut b = sent();
    ursa_cl_sub_proof_request_builder_new(&mut b);
    let mut lb = Verifier::new_sub_proof_request_builder().unwrap();
    for a in &s.revealed {
        let c = ursa_cl_sub_proof_request_builder_add_revealed_attr(b, cs(a).as_ptr());
        sim.check(c == ErrorCode::Success, "outcome", || format!("add revealed: {:?}", c));
        lb.add_revealed_attr(a).unwrap();
    }
    for p in &s.preds {
        if sim.chance(100) {
            let bad = *sim.of(&["GEE", "ge", "EQ", ">="]);
            let mut lb2 = Verifier::new_sub_proof_request_builder().unwrap();
            let want = lb2.add_predicate(&p.attr, bad, p.val).err().map(|e| code_of(&e)).unwrap_or(0);
            refused(sim, "add an unknown predicate", &[want], || Out::c(ursa_cl_sub_proof_request_builder_add_predicate(b, cs(&p.attr).as_ptr(), cs(bad).as_ptr(), p.val)));
        }
        let c = ursa_cl_sub_proof_request_builder_add_predicate(b, cs(&p.attr).as_ptr(), cs(p.ty).as_ptr(), p.val);
        sim.check(c == ErrorCode::Success, "outcome", || format!("add predicate: {:?}", c));
        lb.add_predicate(&p.attr, p.ty, p.val).unwrap();
    }
    refused(sim, "finalize a request to a null output", &[101], || Out::c(ursa_cl_sub_proof_request_builder_finalize(b, std::ptr::null_mut())));
    let mut h = sent();
    let c = ursa_cl_sub_proof_request_builder_finalize(b, &mut h);
    sim.check(c == ErrorCode::Success, "outcome", || format!("request: {:?}", c));
    let (x, y) = (dbg(view::<SubProofRequest>(h)), dbg(&lb.finalize().unwrap()));
    sim.check(x == y, "outputs", || format!("request built through C is {} instead of {}", x, y));
    h
}

/// Key and registry definition through C.
pub fn definitions(sim: &mut Sim) {
    let n = 1 + sim.pick(2);
    let attrs: Vec<String> = (0..n).map(|i| format!("attr {}", i)).collect();
    let non = vec!["master_secret".to_string()];
    let sh = schema_c(sim, &attrs);
    let nh = non_schema_c(sim, &non);
    let (s, ns) = schemas(&attrs, &non);
    let (x, y) = (dbg(view::<CredentialSchema>(sh)), dbg(&s));
    sim.check(x == y, "outputs", || format!("schema {} instead of {}", x, y));
    let (x, y) = (dbg(view::<NonCredentialSchema>(nh)), dbg(&ns));
    sim.check(x == y, "outputs", || format!("schema {} instead of {}", x, y));
    let revoc = sim.coin();
    let mut kept: Option<(H, H, H)> = None;
    // HashMap order decides the order of draws, so one schema object serves both sides
    let ok = twin(
        sim,
        "new_credential_def",
        false,
        || {
            let (mut a, mut b, mut c) = (sent(), sent(), sent());
            let o = Out::c(ursa_cl_issuer_new_credential_def(sh, nh, revoc, &mut a, &mut b, &mut c));
            let o = o.slots(&[a, b, c], || {
                vec![canon(view::<CredentialPublicKey>(a)), canon(view::<CredentialPrivateKey>(b)), canon(view::<CredentialKeyCorrectnessProof>(c))]
            });
            if o.code == 0 {
                kept = Some((a, b, c));
            }
            o
        },
        || Out::of(Issuer::new_credential_def(view(sh), view(nh), revoc), |(a, b, c)| vec![canon(&a), canon(&b), canon(&c)]),
    );
    if ok {
        let (a, b, c) = kept.unwrap();
        let max = sim.range(0, 3) as u32;
        let by = sim.coin();
        let mut reg = None;
        let ok = twin(
            sim,
            "new_revocation_registry_def",
            false,
            || {
                let (mut p, mut q, mut r, mut g) = (sent(), sent(), sent(), sent());
                let o = Out::c(ursa_cl_issuer_new_revocation_registry_def(a, max, by, &mut p, &mut q, &mut r, &mut g));
                let o = o.slots(&[p, q, r, g], || {
                    reg = Some((p, q, r, g));
                    vec![canon(view::<RevocationKeyPublic>(p)), canon(view::<RevocationKeyPrivate>(q)), canon(view::<RevocationRegistry>(r)), canon(view::<RevocationTailsGenerator>(g))]
                });
                o
            },
            || {
                Out::of(Issuer::new_revocation_registry_def(view(a), max, by), |(p, q, r, g)| {
                    vec![canon(&p), canon(&q), canon(&r), canon(&g)]
                })
            },
        );
        if ok {
            let (p, q, r, g) = reg.unwrap();
            let mut lg: RevocationTailsGenerator = reload(view(g));
            let mut steps = 0;
            loop {
                if sim.chance(200) {
                    json_io::<RevocationTailsGenerator>(
                        sim, "tails generator", &js(&lg),
                        ursa_cl_revocation_tails_generator_to_json, ursa_cl_revocation_tails_generator_from_json, ursa_cl_revocation_tails_generator_free,
                    );
                }
                let mut n = 77u32;
                let c = ursa_cl_tails_generator_count(g, &mut n);
                sim.check(c == ErrorCode::Success && n == lg.count(), "outputs", || format!("tails count {:?} {} instead of {}", c, n, lg.count()));
                let mut t = sent();
                let c = ursa_cl_tails_generator_next(g, &mut t);
                let want = lg.try_next().expect("library tail");
                sim.check(c == ErrorCode::Success, "outcome", || format!("next tail returned {:?}", c));
                match want {
                    None => {
                        sim.check(t.is_null(), "outputs", || "a tail after the last one".into());
                        break;
                    }
                    Some(w) => {
                        let ok = !t.is_null() && t as usize != SENT;
                        sim.check(ok, "outputs", || format!("no tail number {}", steps));
                        if !ok {
                            break;
                        }
                        let (x, y) = (canon(view::<Tail>(t)), canon(&w));
                        sim.check(x == y, "outputs", || format!("tail {} is {} instead of {}", steps, x, y));
                        ursa_cl_tail_free(t);
                    }
                }
                steps += 1;
            }
            sim.probe("tails-generated");
            ursa_cl_revocation_key_public_free(p);
            ursa_cl_revocation_key_private_free(q);
            ursa_cl_revocation_registry_free(r);
            ursa_cl_revocation_tails_generator_free(g);
        }
        ursa_cl_credential_public_key_free(a);
        ursa_cl_credential_private_key_free(b);
        ursa_cl_credential_key_correctness_proof_free(c);
    }
    ursa_cl_credential_schema_free(sh);
    ursa_cl_non_credential_schema_free(nh);
}

fn lib_tails(r: &RegFixture, plan: &[(u64, StoreFault)]) -> SimTails {
    let t = SimTails::new(r);
    for (at, f) in plan {
        t.arm(*at, if *f == StoreFault::PutErr { TailFault::After } else { TailFault::Before });
    }
    t
}
fn gen_plan(sim: &mut Sim, permille: u64) -> Vec<(u64, StoreFault)> {
    if !sim.fault("tails storage callback", permille) {
        return vec![];
    }
    let at = sim.choose(3);
    vec![(at, *sim.of(&[StoreFault::TakeErr, StoreFault::TakeNull, StoreFault::TakeErrPtr, StoreFault::PutErr]))]
}
fn arm(st: &Store, plan: &[(u64, StoreFault)]) {
    st.heal();
    for (at, f) in plan {
        st.arm(*at, *f);
    }
}

/// One registry operation (revoke, restore, issue delta from parts, merge, witness) as twins.
struct Reg<'a> {
    rf: &'a RegFixture,
    st: Store,
    rr: H,
    lr: RevocationRegistry,
}

impl<'a> Reg<'a> {
    fn change(&mut self, sim: &mut Sim, revoke: bool, idx: u32) -> Option<H> {
        let plan = gen_plan(sim, 250);
        arm(&self.st, &plan);
        let lt = lib_tails(self.rf, &plan);
        let (rr, max) = (self.rr, self.rf.max);
        let st = &self.st;
        let lr = &mut self.lr;
        let mut d = sent();
        let ok = twin(
            sim,
            &format!("{} index {} (storage {:?})", if revoke { "revoke" } else { "restore" }, idx, plan),
            !plan.is_empty(),
            || {
                let f = if revoke { ursa_cl_issuer_revoke_credential } else { ursa_cl_issuer_recovery_credential };
                let o = Out::c(f(rr, max, idx, st.ctx(), Store::take, Store::put, &mut d));
                o.slots(&[d], || vec![canon(view::<RevocationRegistryDelta>(d))]).state(vec![canon(view::<RevocationRegistry>(rr))])
            },
            || {
                let r = if revoke { Issuer::revoke_credential(lr, max, idx, &lt) } else { Issuer::recovery_credential(lr, max, idx, &lt) };
                Out::of(r, |d| vec![canon(&d)]).state(vec![canon(lr)])
            },
        );
        st.settle(sim, "registry change");
        st.heal();
        if ok {
            Some(d)
        } else {
            None
        }
    }
}

pub fn life(sim: &mut Sim) {
    let id = sim.choose(N_CREDS);
    let fx = cred_fixture(id);
    let f = fixture(fx.fx);
    let foreign = fixture((fx.fx + 1) % 7);
    let vals = fx.vals.clone();
    // the documents every party starts from
    let pk = load(sim, "public key", ursa_cl_credential_public_key_from_json, &f.pk);
    let sk = load(sim, "private key", ursa_cl_credential_private_key_from_json, &f.sk);
    let kcp = load(sim, "key proof", ursa_cl_credential_key_correctness_proof_from_json, &f.proof);
    let kcp2 = load(sim, "key proof", ursa_cl_credential_key_correctness_proof_from_json, &foreign.proof);
    let hv = values_c(sim, &vals);
    let known: Vec<Val> = vals.iter().filter(|v| v.kind == Kind::Known).cloned().collect();
    let iv = values_c(sim, &known);
    let mut nonces = vec![];
    for _ in 0..4 {
        let mut n = sent();
        twin(
            sim,
            "new_nonce",
            false,
            || {
                let o = Out::c(ursa_cl_new_nonce(&mut n));
                o.slots(&[n], || vec![canon(view::<Nonce>(n))])
            },
            || Out::of(new_nonce(), |n| vec![canon(&n)]),
        );
        nonces.push(n);
    }
    // blinding; sometimes with another key's proof
    let wrong = sim.chance(120);
    let use_kcp = if wrong { kcp2 } else { kcp };
    let (mut bcs, mut bf, mut bcp) = (sent(), sent(), sent());
    let n0 = nonces[0];
    let n1 = nonces[1];
    let ok = twin(
        sim,
        if wrong { "blind with a foreign key proof" } else { "blind" },
        false,
        || {
            let o = Out::c(ursa_cl_prover_blind_credential_secrets(pk, use_kcp, hv, n0, &mut bcs, &mut bf, &mut bcp));
            o.slots(&[bcs, bf, bcp], || {
                vec![canon(view::<BlindedCredentialSecrets>(bcs)), canon(view::<CredentialSecretsBlindingFactors>(bf)), canon(view::<BlindedCredentialSecretsCorrectnessProof>(bcp))]
            })
        },
        || Out::of(Prover::blind_credential_secrets(view(pk), view(use_kcp), view(hv), view(n0)), |(a, b, c)| vec![canon(&a), canon(&b), canon(&c)]),
    );
    if !ok {
        if !wrong {
            sim.stop("outcome", "honest blinding failed".into());
        }
        return;
    }
    // signing
    let bad_nonce = sim.chance(100);
    let sn = if bad_nonce { n1 } else { n0 };
    let mut sig = sent();
    let mut sp = sent();
    let mut reg: Option<Reg> = None;
    let mut delta0: Option<H> = None;
    let mut idx = 0;
    if let Some((rf, i)) = &fx.reg {
        idx = *i;
        if sim.chance(80) {
            idx = *sim.of(&[0, rf.max + 1, rf.max * 2, u32::MAX]);
        }
        let rr = load(sim, "registry", ursa_cl_revocation_registry_from_json, &rf.reg);
        let rks = load(sim, "registry key", ursa_cl_revocation_key_private_from_json, &rf.rks);
        let mut r = Reg { rf, st: Store::new(&rf.tails), rr, lr: parse(&rf.reg) };
        let mut tries = 0;
        loop {
            let plan = if tries > 2 { vec![] } else { gen_plan(sim, 250) };
            arm(&r.st, &plan);
            let lt = lib_tails(rf, &plan);
            let (mut a, mut b, mut d) = (sent(), sent(), sent());
            let (rf2, rr) = (rf.clone(), r.rr);
            let st = &r.st;
            let lr = &mut r.lr;
            let ok = twin(
                sim,
                &format!("sign_credential_with_revoc index {} (storage {:?})", idx, plan),
                !plan.is_empty(),
                || {
                    let o = Out::c(ursa_cl_issuer_sign_credential_with_revoc(
                        cs("prover").as_ptr(), bcs, bcp, sn, n1, iv, pk, sk, idx, rf2.max, rf2.by_default, rr, rks,
                        st.ctx(), Store::take, Store::put, &mut a, &mut b, &mut d,
                    ));
                    o.slots(&[a, b, d], || {
                        vec![
                            canon(view::<CredentialSignature>(a)),
                            canon(view::<SignatureCorrectnessProof>(b)),
                            if d.is_null() { "none".into() } else { canon(view::<RevocationRegistryDelta>(d)) },
                        ]
                    })
                    .state(vec![canon(view::<RevocationRegistry>(rr))])
                },
                || {
                    let r = Issuer::sign_credential_with_revoc(
                        "prover", view(bcs), view(bcp), view(sn), view(n1), view(iv), view(pk), view(sk), idx, rf2.max,
                        rf2.by_default, lr, view(rks), &lt,
                    );
                    Out::of(r, |(a, b, d)| vec![canon(&a), canon(&b), d.map(|d| canon(&d)).unwrap_or_else(|| "none".into())]).state(vec![canon(lr)])
                },
            );
            r.st.settle(sim, "signing");
            r.st.heal();
            if ok {
                sig = a;
                sp = b;
                delta0 = if d.is_null() { None } else { Some(d) };
                break;
            }
            tries += 1;
            if plan.is_empty() {
                break;
            }
        }
        reg = Some(r);
    } else {
        twin(
            sim,
            if bad_nonce { "sign with another nonce" } else { "sign" },
            false,
            || {
                let o = Out::c(ursa_cl_issuer_sign_credential(cs("prover").as_ptr(), bcs, bcp, sn, n1, iv, pk, sk, &mut sig, &mut sp));
                o.slots(&[sig, sp], || vec![canon(view::<CredentialSignature>(sig)), canon(view::<SignatureCorrectnessProof>(sp))])
            },
            || {
                Out::of(
                    Issuer::sign_credential("prover", view(bcs), view(bcp), view(sn), view(n1), view(iv), view(pk), view(sk)),
                    |(a, b)| vec![canon(&a), canon(&b)],
                )
            },
        );
    }
    if sig as usize == SENT {
        sim.probe("signing-refused");
        return;
    }
    // what the holder needs for a revocable credential
    let mut wit: Option<H> = None;
    let mut rkp: Option<H> = None;
    if let (Some(r), Some((rf, _))) = (&mut reg, &fx.reg) {
        rkp = Some(load(sim, "registry key", ursa_cl_revocation_key_public_from_json, &rf.rkp));
        // the delta from the start, from parts
        let mut issued: Vec<u32> = vec![];
        if !rf.by_default {
            issued.push(idx);
        }
        if sim.chance(300) {
            issued.push(idx);
            if rf.by_default {
                issued.clear();
            }
        }
        let from: Option<RevocationRegistry> = if sim.coin() { None } else { Some(parse(&rf.reg)) };
        let fh = from.as_ref().map(|f| f as *const _ as H).unwrap_or(std::ptr::null());
        let mut d = sent();
        let rr = r.rr;
        let dummy = [0u32; 1];
        let iptr = if issued.is_empty() { dummy.as_ptr() } else { issued.as_ptr() };
        twin(
            sim,
            "delta_from_parts",
            false,
            || {
                let o = Out::c(ursa_revocation_registry_delta_from_parts(fh, rr, iptr, issued.len(), dummy.as_ptr(), 0, &mut d));
                o.slots(&[d], || vec![canon(view::<RevocationRegistryDelta>(d))])
            },
            || {
                let s: HashSet<u32> = issued.iter().cloned().collect();
                Out { outs: vec![canon(&RevocationRegistryDelta::from_parts(from.as_ref(), view(rr), &s, &HashSet::new()))], ..Default::default() }
            },
        );
        let mut tries = 0;
        while wit.is_none() && tries < 4 {
            let plan = if tries > 2 { vec![] } else { gen_plan(sim, 250) };
            arm(&r.st, &plan);
            let lt = lib_tails(rf, &plan);
            let st = &r.st;
            let mut w = sent();
            let ok = twin(
                sim,
                &format!("witness_new (storage {:?})", plan),
                !plan.is_empty(),
                || {
                    let o = Out::c(ursa_cl_witness_new(idx, rf.max, rf.by_default, d, st.ctx(), Store::take, Store::put, &mut w));
                    o.slots(&[w], || vec![canon(view::<Witness>(w))])
                },
                || Out::of(Witness::new(idx, rf.max, rf.by_default, view(d), &lt), |w| vec![canon(&w)]),
            );
            r.st.settle(sim, "witness_new");
            r.st.heal();
            if ok {
                wit = Some(w);
            }
            tries += 1;
        }
        // other indices change; the witness follows, over merged or single deltas
        let mut merged: Option<H> = None;
        let mut revoked: BTreeSet<u32> = Default::default();
        if !rf.by_default {
            revoked.extend((1..=rf.max).filter(|i| *i != idx));
        }
        for _ in 0..sim.choose(4) {
            let i = match sim.choose(6) {
                0 => *sim.of(&[0, rf.max + 1, u32::MAX]),
                _ => 1 + sim.choose(rf.max as u64) as u32,
            };
            if i == idx {
                continue;
            }
            let revoke = !revoked.contains(&i);
            if let Some(dh) = r.change(sim, revoke, i) {
                if revoke {
                    revoked.insert(i);
                } else {
                    revoked.remove(&i);
                }
                match merged {
                    None => merged = Some(dh),
                    Some(m) => {
                        let before = canon(view::<RevocationRegistryDelta>(m));
                        let mut lm: RevocationRegistryDelta = reload(view(m));
                        let mut out = sent();
                        twin(
                            sim,
                            "merge deltas",
                            false,
                            || {
                                let o = Out::c(ursa_cl_issuer_merge_revocation_registry_deltas(m, dh, &mut out));
                                o.slots(&[out], || {
                                    if out.is_null() || (out as usize) < 4096 {
                                        vec![format!("no delta ({:?})", out)]
                                    } else {
                                        vec![canon(view::<RevocationRegistryDelta>(out))]
                                    }
                                })
                            },
                            || Out::of(lm.merge(view(dh)), |_| vec![]).state(vec![]).fix(canon(&lm)),
                        );
                        let after = canon(view::<RevocationRegistryDelta>(m));
                        sim.check(after == before || after == canon(&lm), "input-state", || "merging left a delta neither as it was nor merged".into());
                        ursa_cl_revocation_registry_delta_free(m);
                        ursa_cl_revocation_registry_delta_free(dh);
                        merged = Some(out);
                        sim.probe("deltas-merged");
                    }
                }
            }
        }
        if let (Some(m), Some(w)) = (merged, wit) {
            let mut lw: Witness = reload(view(w));
            let mut tries = 0;
            loop {
                let plan = if tries > 2 { vec![] } else { gen_plan(sim, 250) };
                arm(&r.st, &plan);
                let lt = lib_tails(rf, &plan);
                let st = &r.st;
                let ok = twin(
                    sim,
                    &format!("witness_update (storage {:?})", plan),
                    !plan.is_empty(),
                    || Out::c(ursa_cl_witness_update(idx, rf.max, m, w as *mut _, st.ctx(), Store::take, Store::put)).state(vec![canon(view::<Witness>(w))]),
                    || Out::of(lw.update(idx, rf.max, view(m), &lt), |_| vec![]).state(vec![canon(&lw)]),
                );
                r.st.settle(sim, "witness_update");
                r.st.heal();
                tries += 1;
                if ok || plan.is_empty() {
                    break;
                }
            }
            json_io::<RevocationRegistryDelta>(
                sim, "delta", &js(view::<RevocationRegistryDelta>(m)),
                ursa_cl_revocation_registry_delta_to_json, ursa_cl_revocation_registry_delta_from_json, ursa_cl_revocation_registry_delta_free,
            );
            ursa_cl_revocation_registry_delta_free(m);
        }
        ursa_cl_revocation_registry_delta_free(d);
    }
    let o = |h: Option<H>| h.unwrap_or(std::ptr::null());
    let rr = reg.as_ref().map(|r| r.rr);
    // processing; sometimes with a wrong nonce first, which must leave everything as it was
    let mut processed = false;
    let mut tries = vec![nonces[1]];
    if sim.chance(250) {
        tries.insert(0, nonces[2]);
    }
    let mut lsig: CredentialSignature = reload(view(sig));
    for n in tries {
        processed = twin(
            sim,
            "process_credential_signature",
            false,
            || Out::c(ursa_cl_prover_process_credential_signature(sig, hv, sp, bf, pk, n, o(rkp), o(rr), o(wit))).state(vec![canon(view::<CredentialSignature>(sig))]),
            || {
                Out::of(
                    Prover::process_credential_signature(&mut lsig, view(hv), view(sp), view(bf), view(pk), view(n), rkp.map(view), rr.map(view), wit.map(view)),
                    |_| vec![],
                )
                .state(vec![canon(&lsig)])
            },
        );
    }
    {
        let mut i = 0xdead_beefu32;
        let c = ursa_cl_prover_get_credential_revocation_index(sig, &mut i);
        match view::<CredentialSignature>(sig).extract_index() {
            Some(k) => sim.check(c == ErrorCode::Success && i == k, "outputs", || format!("revocation index {:?} {} instead of {}", c, i, k)),
            None => sim.check(c as usize == 112 && i == 0xdead_beef, "outcome", || format!("revocation index of a plain credential: {:?} {}", c, i)),
        }
    }
    if !processed {
        sim.violate("outcome", "an honest credential signature was refused".into());
        return;
    }
    sim.probe("credential-issued");
    present(sim, &f, &vals, sig, pk, rr, wit, rkp, &nonces);
    // everything can be saved, loaded and freed
    json_io::<CredentialSignature>(sim, "credential", &js(view::<CredentialSignature>(sig)), ursa_cl_credential_signature_to_json, ursa_cl_credential_signature_from_json, ursa_cl_credential_signature_free);
    match sim.choose(6) {
        0 => json_io::<SignatureCorrectnessProof>(sim, "signature proof", &js(view::<SignatureCorrectnessProof>(sp)), ursa_cl_signature_correctness_proof_to_json, ursa_cl_signature_correctness_proof_from_json, ursa_cl_signature_correctness_proof_free),
        1 => json_io::<BlindedCredentialSecrets>(sim, "blinded secrets", &js(view::<BlindedCredentialSecrets>(bcs)), ursa_cl_blinded_credential_secrets_to_json, ursa_cl_blinded_credential_secrets_from_json, ursa_cl_blinded_credential_secrets_free),
        2 => json_io::<CredentialSecretsBlindingFactors>(sim, "blinding factors", &js(view::<CredentialSecretsBlindingFactors>(bf)), ursa_cl_credential_secrets_blinding_factors_to_json, ursa_cl_credential_secrets_blinding_factors_from_json, ursa_cl_credential_secrets_blinding_factors_free),
        3 => json_io::<BlindedCredentialSecretsCorrectnessProof>(sim, "blinded secrets proof", &js(view::<BlindedCredentialSecretsCorrectnessProof>(bcp)), ursa_cl_blinded_credential_secrets_correctness_proof_to_json, ursa_cl_blinded_credential_secrets_correctness_proof_from_json, ursa_cl_blinded_credential_secrets_correctness_proof_free),
        4 => json_io::<Nonce>(sim, "nonce", &js(view::<Nonce>(nonces[0])), ursa_cl_nonce_to_json, ursa_cl_nonce_from_json, ursa_cl_nonce_free),
        _ => {
            let mut m = sent();
            twin(
                sim,
                "new_master_secret",
                false,
                || {
                    let o = Out::c(ursa_cl_prover_new_master_secret(&mut m));
                    o.slots(&[m], || vec![canon(view::<MasterSecret>(m))])
                },
                || Out::of(Prover::new_master_secret(), |m| vec![canon(&m)]),
            );
            json_io::<MasterSecret>(sim, "master secret", &js(view::<MasterSecret>(m)), ursa_cl_master_secret_to_json, ursa_cl_master_secret_from_json, ursa_cl_master_secret_free);
            ursa_cl_master_secret_free(m);
        }
    }
    match sim.choose(if rr.is_some() { 6 } else { 3 }) {
        0 => json_io::<CredentialPublicKey>(sim, "public key", &f.pk, ursa_cl_credential_public_key_to_json, ursa_cl_credential_public_key_from_json, ursa_cl_credential_public_key_free),
        1 => json_io::<CredentialPrivateKey>(sim, "private key", &f.sk, ursa_cl_credential_private_key_to_json, ursa_cl_credential_private_key_from_json, ursa_cl_credential_private_key_free),
        2 => json_io::<CredentialKeyCorrectnessProof>(sim, "key proof", &f.proof, ursa_cl_credential_key_correctness_proof_to_json, ursa_cl_credential_key_correctness_proof_from_json, ursa_cl_credential_key_correctness_proof_free),
        3 => json_io::<RevocationRegistry>(sim, "registry", &js(view::<RevocationRegistry>(rr.unwrap())), ursa_cl_revocation_registry_to_json, ursa_cl_revocation_registry_from_json, ursa_cl_revocation_registry_free),
        4 => json_io::<RevocationKeyPublic>(sim, "registry key", &fx.reg.as_ref().unwrap().0.rkp, ursa_cl_revocation_key_public_to_json, ursa_cl_revocation_key_public_from_json, ursa_cl_revocation_key_public_free),
        _ => json_io::<RevocationKeyPrivate>(sim, "registry private key", &fx.reg.as_ref().unwrap().0.rks, ursa_cl_revocation_key_private_to_json, ursa_cl_revocation_key_private_from_json, ursa_cl_revocation_key_private_free),
    }
    for (h, f) in [
        (sig, ursa_cl_credential_signature_free as Free),
        (sp, ursa_cl_signature_correctness_proof_free),
        (bcs, ursa_cl_blinded_credential_secrets_free),
        (bf, ursa_cl_credential_secrets_blinding_factors_free),
        (bcp, ursa_cl_blinded_credential_secrets_correctness_proof_free),
        (hv, ursa_cl_credential_values_free),
        (iv, ursa_cl_credential_values_free),
        (pk, ursa_cl_credential_public_key_free),
        (sk, ursa_cl_credential_private_key_free),
        (kcp, ursa_cl_credential_key_correctness_proof_free),
        (kcp2, ursa_cl_credential_key_correctness_proof_free),
    ] {
        let c = f(h);
        sim.check(c == ErrorCode::Success, "outcome", || format!("free returned {:?}", c));
    }
    for n in nonces {
        ursa_cl_nonce_free(n);
    }
    if let Some(w) = wit {
        ursa_cl_witness_free(w);
    }
    if let Some(d) = delta0 {
        ursa_cl_revocation_registry_delta_free(d);
    }
    if let Some(r) = rr {
        ursa_cl_revocation_registry_free(r);
    }
    if let Some(r) = rkp {
        ursa_cl_revocation_key_public_free(r);
    }
}

/// A presentation through C: builder, proof, transport, verifier.
#[allow(clippy::too_many_arguments)]
fn present(sim: &mut Sim, f: &Fixture, vals: &[Val], sig: H, pk: H, rr: Option<H>, wit: Option<H>, rkp: Option<H>, nonces: &[H]) {
    let o = |h: Option<H>| h.unwrap_or(std::ptr::null());
    let cvals: Vec<Val> = vals.iter().filter(|v| v.kind != Kind::Committed).cloned().collect();
    let cv = values_c(sim, &cvals);
    let non: Vec<String> = f.non_attrs.iter().filter(|a| a.as_str() != "policy").cloned().collect();
    let sh = schema_c(sim, &f.attrs);
    let nh = non_schema_c(sim, &non);
    let mut spr = gen_spr(sim, f, &cvals, &BTreeSet::new(), 2);
    let lie = sim.chance(150);
    if lie {
        if let Some(v) = cvals.iter().find(|v| f.attrs.contains(&v.attr) && !spr.revealed.contains(&v.attr) && v.int().map(|i| i < i32::MAX).unwrap_or(false)) {
            spr.preds.push(Pred { attr: v.attr.clone(), ty: "GT", val: v.int().unwrap() });
        } else {
            spr.revealed.insert("no such attribute".into());
        }
    }
    let rq = spr_c(sim, &spr);
    let mut pb = sent();
    ursa_cl_prover_new_proof_builder(&mut pb);
    let mut lpb = Prover::new_proof_builder().unwrap();
    if sim.coin() {
        let c = ursa_cl_proof_builder_add_common_attribute(pb, cs("master_secret").as_ptr());
        sim.check(c == ErrorCode::Success, "outcome", || format!("common attribute: {:?}", c));
        lpb.add_common_attribute("master_secret").unwrap();
    }
    // the twins build from builders in the same state; common attributes are drawn at that point
    let seed = sim.choose(1 << 40) + 1;
    let with_nr = rr.is_some() && !sim.chance(200);
    let (prr, pwit) = if with_nr { (rr, wit) } else { (None, None) };
    let (pc, pl) = (
        seeded(seed, || Out::c(ursa_cl_proof_builder_add_sub_proof_request(pb, rq, sh, nh, sig, cv, pk, o(prr), o(pwit)))),
        seeded(seed, || {
            Out::of(
                lpb.add_sub_proof_request(view(rq), view(sh), view(nh), view(sig), view(cv), view(pk), prr.map(view), pwit.map(view)),
                |_| vec![],
            )
        }),
    );
    ev!(sim, "add_sub_proof_request {} lie={}", pc.code, lie);
    sim.check(pc.code == pl.code && pc.message == pl.message, "outcome", || format!("add_sub_proof_request returned {} ({}) instead of {} ({})", pc.code, pc.message, pl.code, pl.message));
    let n3 = nonces[3];
    if pc.code == 0 {
        refused(sim, "finalize a proof with a null nonce", &[101], || {
            let mut p = sent();
            Out::c(ursa_cl_proof_builder_finalize(pb, std::ptr::null(), &mut p)).slots(&[p], || vec![])
        });
        refused(sim, "finalize a proof to a null output", &[102], || Out::c(ursa_cl_proof_builder_finalize(pb, n3, std::ptr::null_mut())));
        let mut p = sent();
        let ok = twin(
            sim,
            "proof_builder_finalize",
            false,
            || {
                let o = Out::c(ursa_cl_proof_builder_finalize(pb, n3, &mut p));
                // common attributes and commitments were drawn outside the twin: judge by verifying
                o.slots(&[p], || vec![])
            },
            || Out::of(lpb.finalize(view(n3)), |_| vec![]),
        );
        if ok {
            sim.probe("proof-made");
            if sim.chance(300) {
                json_io::<Proof>(sim, "proof", &js(view::<Proof>(p)), ursa_cl_proof_to_json, ursa_cl_proof_from_json, ursa_cl_proof_free);
            }
            for round in 0..2 {
                let vn = if round == 0 && sim.coin() { nonces[0] } else { n3 };
                let mut v = sent();
                ursa_cl_verifier_new_proof_verifier(&mut v);
                let mut lv = Verifier::new_proof_verifier().unwrap();
                if sim.coin() {
                    ursa_cl_proof_verifier_add_common_attribute(v, cs("master_secret").as_ptr());
                    lv.add_common_attribute("master_secret").unwrap();
                }
                let nr = round == 1 && with_nr || round == 0 && sim.coin() && rr.is_some();
                let (vk, vr) = if nr { (rkp, rr) } else { (None, None) };
                let c = Out::c(ursa_cl_proof_verifier_add_sub_proof_request(v, rq, sh, nh, pk, o(vk), o(vr)));
                let l = Out::of(lv.add_sub_proof_request(view(rq), view(sh), view(nh), view(pk), vk.map(view), vr.map(view)), |_| vec![]);
                sim.check(c.code == l.code, "outcome", || format!("verifier add_sub_proof_request: {} instead of {}", c.code, l.code));
                if c.code != 0 {
                    break;
                }
                let mut valid = 7u8;
                let vp = &mut valid as *mut u8 as *mut bool;
                let what = format!("verify (round {}, nonce {})", round, if vn == n3 { "right" } else { "other" });
                let mut verdict = 9u8;
                twin(
                    sim,
                    &what,
                    false,
                    || {
                        let mut o = Out::c(ursa_cl_proof_verifier_verify(v, p, vn, vp));
                        verdict = valid;
                        if o.code == 0 {
                            o.outs = vec![valid.to_string()];
                        } else {
                            o.dirty = valid != 7;
                        }
                        o
                    },
                    || Out::of(lv.verify(view(p), view(vn)), |b| vec![(b as u8).to_string()]),
                );
                if round == 1 && !lie {
                    sim.check(verdict == 1, "outputs", || "an honest proof made through C does not verify".into());
                    sim.probe("proof-verified");
                }
            }
            ursa_cl_proof_free(p);
        }
    } else {
        // a builder that refused is still there
        let mut p = sent();
        ursa_cl_proof_builder_finalize(pb, n3, &mut p);
        if p as usize != SENT {
            ursa_cl_proof_free(p);
        }
    }
    ursa_cl_sub_proof_request_free(rq);
    ursa_cl_credential_schema_free(sh);
    ursa_cl_non_credential_schema_free(nh);
    ursa_cl_credential_values_free(cv);
}

impl Out {
    fn fix(mut self, s: String) -> Out {
        if self.code == 0 {
            self.outs = vec![s];
        }
        self
    }
}

/// A single object of any kind saved, loaded, damaged, freed.
pub fn documents(sim: &mut Sim) {
    let l = crate::cl::hostile::life(sim.choose(N_CREDS));
    let g = |n: &str| l.msgs.get(n).cloned().unwrap_or_default();
    match sim.choose(if l.msgs.contains_key("reg") { 17 } else { 11 }) {
        0 => json_io::<CredentialPublicKey>(sim, "public key", &g("pk"), ursa_cl_credential_public_key_to_json, ursa_cl_credential_public_key_from_json, ursa_cl_credential_public_key_free),
        1 => json_io::<CredentialKeyCorrectnessProof>(sim, "key proof", &g("kcp"), ursa_cl_credential_key_correctness_proof_to_json, ursa_cl_credential_key_correctness_proof_from_json, ursa_cl_credential_key_correctness_proof_free),
        2 => json_io::<BlindedCredentialSecrets>(sim, "blinded secrets", &g("bcs"), ursa_cl_blinded_credential_secrets_to_json, ursa_cl_blinded_credential_secrets_from_json, ursa_cl_blinded_credential_secrets_free),
        3 => json_io::<BlindedCredentialSecretsCorrectnessProof>(sim, "blinded secrets proof", &g("bcp"), ursa_cl_blinded_credential_secrets_correctness_proof_to_json, ursa_cl_blinded_credential_secrets_correctness_proof_from_json, ursa_cl_blinded_credential_secrets_correctness_proof_free),
        4 => json_io::<CredentialSecretsBlindingFactors>(sim, "blinding factors", &g("bf"), ursa_cl_credential_secrets_blinding_factors_to_json, ursa_cl_credential_secrets_blinding_factors_from_json, ursa_cl_credential_secrets_blinding_factors_free),
        5 => json_io::<SignatureCorrectnessProof>(sim, "signature proof", &g("sp"), ursa_cl_signature_correctness_proof_to_json, ursa_cl_signature_correctness_proof_from_json, ursa_cl_signature_correctness_proof_free),
        6 => json_io::<CredentialSignature>(sim, "credential", &g("cred"), ursa_cl_credential_signature_to_json, ursa_cl_credential_signature_from_json, ursa_cl_credential_signature_free),
        7 => json_io::<Nonce>(sim, "nonce", &g("n1"), ursa_cl_nonce_to_json, ursa_cl_nonce_from_json, ursa_cl_nonce_free),
        8 => json_io::<Proof>(sim, "proof", &g("proof"), ursa_cl_proof_to_json, ursa_cl_proof_from_json, ursa_cl_proof_free),
        9 => json_io::<CredentialPrivateKey>(sim, "private key", &fixture(cred_fixture(l.id).fx).sk, ursa_cl_credential_private_key_to_json, ursa_cl_credential_private_key_from_json, ursa_cl_credential_private_key_free),
        10 => json_io::<MasterSecret>(sim, "master secret", &js(&Prover::new_master_secret().unwrap()), ursa_cl_master_secret_to_json, ursa_cl_master_secret_from_json, ursa_cl_master_secret_free),
        11 => json_io::<RevocationRegistry>(sim, "registry", &g("reg"), ursa_cl_revocation_registry_to_json, ursa_cl_revocation_registry_from_json, ursa_cl_revocation_registry_free),
        12 => json_io::<RevocationKeyPublic>(sim, "registry key", &g("rkp"), ursa_cl_revocation_key_public_to_json, ursa_cl_revocation_key_public_from_json, ursa_cl_revocation_key_public_free),
        13 => json_io::<RevocationRegistryDelta>(sim, "delta", &g("delta2"), ursa_cl_revocation_registry_delta_to_json, ursa_cl_revocation_registry_delta_from_json, ursa_cl_revocation_registry_delta_free),
        _ => json_io::<RevocationRegistryDelta>(sim, "delta", &g("delta"), ursa_cl_revocation_registry_delta_to_json, ursa_cl_revocation_registry_delta_from_json, ursa_cl_revocation_registry_delta_free),
    }
    let _: *const c_char = std::ptr::null();
}
