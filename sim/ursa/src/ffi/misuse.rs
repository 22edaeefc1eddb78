//! C09: null and malformed arguments at every position of every function.
use super::abi::*;
use crate::cl::world::*;
use simcore::Sim;
use std::os::raw::c_char;
use ursa::bls::*;
use ursa::cl::issuer::Issuer;
use ursa::cl::prover::Prover;
use ursa::cl::verifier::Verifier;
use ursa::cl::*;
use ursa::ffi::bls::*;
use ursa::ffi::cl::issuer::*;
use ursa::ffi::cl::prover::*;
use ursa::ffi::cl::verifier::*;
use ursa::ffi::cl::*;
use ursa::ffi::ErrorCode;

/// Valid handles for everything, and the output slots.
pub struct Env {
    slots: Vec<usize>,
    pos: usize,
    st: Store,
    pk: H,
    sk: H,
    kcp: H,
    schema: H,
    non: H,
    n: H,
    bcs: H,
    bcp: H,
    bf: H,
    hv: H,
    iv: H,
    sig: H,
    sp: H,
    rr: H,
    rks: H,
    rkp: H,
    delta: H,
    delta2: H,
    wit: H,
    proof: H,
    spr: H,
    text: std::ffi::CString,
    gen: H,
    skey: H,
    vkey: H,
    pop: H,
    bsig: H,
    msig: H,
    bytes: Vec<u8>,
    arr: Vec<H>,
    ints: Vec<u32>,
}
impl Env {
    fn h(&self, i: usize, h: H) -> H {
        if self.pos == i {
            std::ptr::null()
        } else {
            h
        }
    }
    fn s(&self, i: usize) -> *const c_char {
        if self.pos == i {
            std::ptr::null()
        } else {
            self.text.as_ptr()
        }
    }
    fn b(&self, i: usize) -> *const u8 {
        if self.pos == i {
            std::ptr::null()
        } else {
            self.bytes.as_ptr()
        }
    }
    fn o<T>(&self, i: usize) -> *mut T {
        if self.pos == i {
            std::ptr::null_mut()
        } else {
            &self.slots[i] as *const usize as *mut T
        }
    }
    fn a(&self, i: usize) -> *const H {
        if self.pos == i {
            std::ptr::null()
        } else {
            self.arr.as_ptr()
        }
    }
    fn u(&self, i: usize) -> *const u32 {
        if self.pos == i {
            std::ptr::null()
        } else {
            self.ints.as_ptr()
        }
    }
}
type Call = (&'static str, &'static [usize], fn(&Env) -> ErrorCode);

fn builders() -> [H; 6] {
    [
        boxed(Issuer::new_credential_schema_builder().unwrap()),
        boxed(Issuer::new_non_credential_schema_builder().unwrap()),
        boxed(Issuer::new_credential_values_builder().unwrap()),
        boxed(Verifier::new_sub_proof_request_builder().unwrap()),
        boxed(Prover::new_proof_builder().unwrap()),
        boxed(Verifier::new_proof_verifier().unwrap()),
    ]
}

static CALLS: &[Call] = &[
    ("credential_schema_builder_new", &[0], |e| ursa_cl_credential_schema_builder_new(e.o(0))),
    ("credential_schema_builder_add_attr", &[0, 1], |e| ursa_cl_credential_schema_builder_add_attr(e.h(0, builders()[0]), e.s(1))),
    ("credential_schema_builder_finalize", &[0, 1], |e| ursa_cl_credential_schema_builder_finalize(e.h(0, builders()[0]), e.o(1))),
    ("credential_schema_free", &[0], |e| ursa_cl_credential_schema_free(e.h(0, e.schema))),
    ("non_credential_schema_builder_new", &[0], |e| ursa_cl_non_credential_schema_builder_new(e.o(0))),
    ("non_credential_schema_builder_add_attr", &[0, 1], |e| ursa_cl_non_credential_schema_builder_add_attr(e.h(0, builders()[1]), e.s(1))),
    ("non_credential_schema_builder_finalize", &[0, 1], |e| ursa_cl_non_credential_schema_builder_finalize(e.h(0, builders()[1]), e.o(1))),
    ("non_credential_schema_free", &[0], |e| ursa_cl_non_credential_schema_free(e.h(0, e.non))),
    ("credential_values_builder_new", &[0], |e| ursa_cl_credential_values_builder_new(e.o(0))),
    ("credential_values_builder_add_dec_known", &[0, 1, 2], |e| ursa_cl_credential_values_builder_add_dec_known(e.h(0, builders()[2]), e.s(1), e.s(2))),
    ("credential_values_builder_add_dec_hidden", &[0, 1, 2], |e| ursa_cl_credential_values_builder_add_dec_hidden(e.h(0, builders()[2]), e.s(1), e.s(2))),
    ("credential_values_builder_add_dec_commitment", &[0, 1, 2, 3], |e| {
        ursa_cl_credential_values_builder_add_dec_commitment(e.h(0, builders()[2]), e.s(1), e.s(2), e.s(3))
    }),
    ("credential_values_builder_finalize", &[0, 1], |e| ursa_cl_credential_values_builder_finalize(e.h(0, builders()[2]), e.o(1))),
    ("credential_values_free", &[0], |e| ursa_cl_credential_values_free(e.h(0, e.hv))),
    ("sub_proof_request_builder_new", &[0], |e| ursa_cl_sub_proof_request_builder_new(e.o(0))),
    ("sub_proof_request_builder_add_revealed_attr", &[0, 1], |e| ursa_cl_sub_proof_request_builder_add_revealed_attr(e.h(0, builders()[3]), e.s(1))),
    ("sub_proof_request_builder_add_predicate", &[0, 1, 2], |e| ursa_cl_sub_proof_request_builder_add_predicate(e.h(0, builders()[3]), e.s(1), e.s(2), 3)),
    ("sub_proof_request_builder_finalize", &[0, 1], |e| ursa_cl_sub_proof_request_builder_finalize(e.h(0, builders()[3]), e.o(1))),
    ("sub_proof_request_free", &[0], |e| ursa_cl_sub_proof_request_free(e.h(0, e.spr))),
    ("new_nonce", &[0], |e| ursa_cl_new_nonce(e.o(0))),
    ("tails_generator_next", &[0, 1], |e| ursa_cl_tails_generator_next(e.h(0, e.n), e.o(1))),
    ("tails_generator_count", &[0, 1], |e| ursa_cl_tails_generator_count(e.h(0, e.n), e.o(1))),
    ("tail_free", &[0], |e| ursa_cl_tail_free(e.h(0, e.n))),
    ("witness_new", &[3, 7], |e| ursa_cl_witness_new(1, 4, true, e.h(3, e.delta), e.st.ctx(), Store::take, Store::put, e.o(7))),
    ("witness_update", &[2, 3], |e| ursa_cl_witness_update(1, 4, e.h(2, e.delta2), e.h(3, e.wit) as *mut _, e.st.ctx(), Store::take, Store::put)),
    ("witness_free", &[0], |e| ursa_cl_witness_free(e.h(0, e.wit))),
    ("issuer_new_credential_def", &[0, 1, 3, 4, 5], |e| ursa_cl_issuer_new_credential_def(e.h(0, e.schema), e.h(1, e.non), false, e.o(3), e.o(4), e.o(5))),
    ("issuer_new_revocation_registry_def", &[0, 3, 4, 5, 6], |e| {
        ursa_cl_issuer_new_revocation_registry_def(e.h(0, e.pk), 2, true, e.o(3), e.o(4), e.o(5), e.o(6))
    }),
    ("issuer_sign_credential", &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], |e| {
        ursa_cl_issuer_sign_credential(
            e.s(0), e.h(1, e.bcs), e.h(2, e.bcp), e.h(3, e.n), e.h(4, e.n), e.h(5, e.iv), e.h(6, e.pk), e.h(7, e.sk), e.o(8), e.o(9),
        )
    }),
    ("issuer_sign_credential_with_revoc", &[0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 16, 17, 18], |e| {
        ursa_cl_issuer_sign_credential_with_revoc(
            e.s(0), e.h(1, e.bcs), e.h(2, e.bcp), e.h(3, e.n), e.h(4, e.n), e.h(5, e.iv), e.h(6, e.pk), e.h(7, e.sk), 1, 4, true,
            e.h(11, e.rr), e.h(12, e.rks), e.st.ctx(), Store::take, Store::put, e.o(16), e.o(17), e.o(18),
        )
    }),
    ("revocation_registry_delta_from_parts", &[1, 2, 4, 6], |e| {
        ursa_revocation_registry_delta_from_parts(std::ptr::null(), e.h(1, e.rr), e.u(2), 2, e.u(4), 2, e.o(6))
    }),
    ("issuer_revoke_credential", &[0, 6], |e| ursa_cl_issuer_revoke_credential(e.h(0, e.rr), 4, 1, e.st.ctx(), Store::take, Store::put, e.o(6))),
    ("issuer_recovery_credential", &[0, 6], |e| ursa_cl_issuer_recovery_credential(e.h(0, e.rr), 4, 1, e.st.ctx(), Store::take, Store::put, e.o(6))),
    ("issuer_merge_revocation_registry_deltas", &[0, 1, 2], |e| {
        ursa_cl_issuer_merge_revocation_registry_deltas(e.h(0, e.delta), e.h(1, e.delta2), e.o(2))
    }),
    ("prover_new_master_secret", &[0], |e| ursa_cl_prover_new_master_secret(e.o(0))),
    ("prover_blind_credential_secrets", &[0, 1, 2, 3, 4, 5, 6], |e| {
        ursa_cl_prover_blind_credential_secrets(e.h(0, e.pk), e.h(1, e.kcp), e.h(2, e.hv), e.h(3, e.n), e.o(4), e.o(5), e.o(6))
    }),
    ("prover_process_credential_signature", &[0, 1, 2, 3, 4, 5], |e| {
        ursa_cl_prover_process_credential_signature(
            e.h(0, e.sig), e.h(1, e.hv), e.h(2, e.sp), e.h(3, e.bf), e.h(4, e.pk), e.h(5, e.n), e.rkp, e.rr, e.wit,
        )
    }),
    ("prover_get_credential_revocation_index", &[0, 1], |e| ursa_cl_prover_get_credential_revocation_index(e.h(0, e.sig), e.o(1))),
    ("prover_new_proof_builder", &[0], |e| ursa_cl_prover_new_proof_builder(e.o(0))),
    ("proof_builder_add_common_attribute", &[0, 1], |e| ursa_cl_proof_builder_add_common_attribute(e.h(0, builders()[4]), e.s(1))),
    ("proof_builder_add_sub_proof_request", &[0, 1, 2, 3, 4, 5, 6], |e| {
        ursa_cl_proof_builder_add_sub_proof_request(
            e.h(0, builders()[4]), e.h(1, e.spr), e.h(2, e.schema), e.h(3, e.non), e.h(4, e.sig), e.h(5, e.hv), e.h(6, e.pk), e.rr, e.wit,
        )
    }),
    ("proof_builder_finalize", &[0, 1, 2], |e| ursa_cl_proof_builder_finalize(e.h(0, builders()[4]), e.h(1, e.n), e.o(2))),
    ("proof_free", &[0], |e| ursa_cl_proof_free(e.h(0, e.proof))),
    ("verifier_new_proof_verifier", &[0], |e| ursa_cl_verifier_new_proof_verifier(e.o(0))),
    ("proof_verifier_add_common_attribute", &[0, 1], |e| ursa_cl_proof_verifier_add_common_attribute(e.h(0, builders()[5]), e.s(1))),
    ("proof_verifier_add_sub_proof_request", &[0, 1, 2, 3, 4], |e| {
        ursa_cl_proof_verifier_add_sub_proof_request(
            e.h(0, builders()[5]), e.h(1, e.spr), e.h(2, e.schema), e.h(3, e.non), e.h(4, e.pk), e.rkp, e.rr,
        )
    }),
    ("proof_verifier_verify", &[0, 1, 2, 3], |e| ursa_cl_proof_verifier_verify(e.h(0, builders()[5]), e.h(1, e.proof), e.h(2, e.n), e.o(3))),
    ("bls_generator_new", &[0], |e| ursa_bls_generator_new(e.o(0))),
    ("bls_generator_from_bytes", &[0, 2], |e| ursa_bls_generator_from_bytes(e.b(0), e.bytes.len(), e.o(2))),
    ("bls_generator_as_bytes", &[0, 1, 2], |e| ursa_bls_generator_as_bytes(e.h(0, e.gen), e.o(1), e.o(2))),
    ("bls_generator_free", &[0], |e| ursa_bls_generator_free(e.h(0, e.gen))),
    ("bls_sign_key_new", &[2], |e| ursa_bls_sign_key_new(std::ptr::null(), 0, e.o(2))),
    ("bls_sign_key_from_bytes", &[0, 2], |e| ursa_bls_sign_key_from_bytes(e.b(0), e.bytes.len(), e.o(2))),
    ("bls_sign_key_as_bytes", &[0, 1, 2], |e| ursa_bls_sign_key_as_bytes(e.h(0, e.skey), e.o(1), e.o(2))),
    ("bls_sign_key_free", &[0], |e| ursa_bls_sign_key_free(e.h(0, e.skey))),
    ("bls_ver_key_new", &[0, 1, 2], |e| ursa_bls_ver_key_new(e.h(0, e.gen), e.h(1, e.skey), e.o(2))),
    ("bls_ver_key_from_bytes", &[0, 2], |e| ursa_bls_ver_key_from_bytes(e.b(0), e.bytes.len(), e.o(2))),
    ("bls_ver_key_as_bytes", &[0, 1, 2], |e| ursa_bls_ver_key_as_bytes(e.h(0, e.vkey), e.o(1), e.o(2))),
    ("bls_ver_key_free", &[0], |e| ursa_bls_ver_key_free(e.h(0, e.vkey))),
    ("bls_pop_new", &[0, 1, 2], |e| ursa_bls_pop_new(e.h(0, e.vkey), e.h(1, e.skey), e.o(2))),
    ("bls_pop_from_bytes", &[0, 2], |e| ursa_bls_pop_from_bytes(e.b(0), e.bytes.len(), e.o(2))),
    ("bls_pop_as_bytes", &[0, 1, 2], |e| ursa_bls_pop_as_bytes(e.h(0, e.pop), e.o(1), e.o(2))),
    ("bls_pop_free", &[0], |e| ursa_bls_pop_free(e.h(0, e.pop))),
    ("bls_signature_from_bytes", &[0, 2], |e| ursa_bls_signature_from_bytes(e.b(0), e.bytes.len(), e.o(2))),
    ("bls_signature_as_bytes", &[0, 1, 2], |e| ursa_bls_signature_as_bytes(e.h(0, e.bsig), e.o(1), e.o(2))),
    ("bls_signature_free", &[0], |e| ursa_bls_signature_free(e.h(0, e.bsig))),
    ("bls_multi_signature_new", &[0, 2], |e| ursa_bls_multi_signature_new(e.a(0), 2, e.o(2))),
    ("bls_multi_signature_new, null entry", &[0], |e| {
        let a = [e.bsig, std::ptr::null()];
        ursa_bls_multi_signature_new(a.as_ptr(), 2, e.o(2))
    }),
    ("bls_multi_signature_from_bytes", &[0, 2], |e| ursa_bls_multi_signature_from_bytes(e.b(0), e.bytes.len(), e.o(2))),
    ("bls_multi_signature_as_bytes", &[0, 1, 2], |e| ursa_bls_multi_signature_as_bytes(e.h(0, e.msig), e.o(1), e.o(2))),
    ("bls_multi_signature_free", &[0], |e| ursa_bls_multi_signature_free(e.h(0, e.msig))),
    ("bls_sign", &[0, 2, 3], |e| ursa_bls_sign(e.b(0), e.bytes.len(), e.h(2, e.skey), e.o(3))),
    ("bls_verify", &[0, 1, 3, 4, 5], |e| ursa_bls_verify(e.h(0, e.bsig), e.b(1), e.bytes.len(), e.h(3, e.vkey), e.h(4, e.gen), e.o(5))),
    ("bls_verify_multi_sig", &[0, 1, 3, 5, 6], |e| {
        ursa_bls_verify_multi_sig(e.h(0, e.msig), e.b(1), e.bytes.len(), e.a(3), 1, e.h(5, e.gen), e.o(6))
    }),
    ("bls_verify_multi_sig, null entry", &[3], |e| {
        let a = [e.vkey, std::ptr::null()];
        ursa_bls_verify_multi_sig(e.msig, e.bytes.as_ptr(), e.bytes.len(), a.as_ptr(), 2, e.gen, e.o(6))
    }),
    ("bls_verify_pop", &[0, 1, 2, 3], |e| ursa_bls_verify_pop(e.h(0, e.pop), e.h(1, e.vkey), e.h(2, e.gen), e.o(3))),
    // lengths of nothing
    ("bls_generator_from_bytes, no bytes", &[0, 1], |e| ursa_bls_generator_from_bytes(e.bytes.as_ptr(), 0, e.o(2))),
    ("bls_sign_key_new, empty seed", &[0, 1], |e| ursa_bls_sign_key_new(e.bytes.as_ptr(), 0, e.o(2))),
    ("bls_sign_key_from_bytes, no bytes", &[0, 1], |e| ursa_bls_sign_key_from_bytes(e.bytes.as_ptr(), 0, e.o(2))),
    ("bls_ver_key_from_bytes, no bytes", &[0, 1], |e| ursa_bls_ver_key_from_bytes(e.bytes.as_ptr(), 0, e.o(2))),
    ("bls_multi_signature_new, no signatures", &[0, 1], |e| ursa_bls_multi_signature_new(e.arr.as_ptr(), 0, e.o(2))),
    ("bls_sign, no message", &[0, 1], |e| ursa_bls_sign(e.bytes.as_ptr(), 0, e.skey, e.o(3))),
];
/// Entries with ", " in their name pass something malformed of their own; the position only says
/// which codes are acceptable.
fn special(name: &str) -> bool {
    name.contains(", ")
}

pub fn nulls(sim: &mut Sim) {
    let ids = revocable();
    let l = crate::cl::hostile::life(ids[sim.pick(ids.len())]);
    let g = |n: &str| l.msgs.get(n).cloned().unwrap_or_default();
    let fx = cred_fixture(l.id);
    let f = fixture(fx.fx);
    let held = held(l.id);
    let Some((rf, _)) = &fx.reg else {
        sim.probe("skipped");
        return;
    };
    let gen = Generator::new().unwrap();
    let skey = SignKey::new(None).unwrap();
    let vkey = VerKey::new(&gen, &skey).unwrap();
    let pop = ProofOfPossession::new(&vkey, &skey).unwrap();
    let bsig = Bls::sign(b"m", &skey).unwrap();
    let msig = MultiSignature::new(&[&bsig]).unwrap();
    let bsig_h = boxed(bsig);
    let mut e = Env {
        slots: vec![SENT; 24],
        pos: 99,
        st: Store::new(&rf.tails),
        pk: boxed(parse::<CredentialPublicKey>(&f.pk)),
        sk: boxed(parse::<CredentialPrivateKey>(&f.sk)),
        kcp: boxed(parse::<CredentialKeyCorrectnessProof>(&f.proof)),
        schema: boxed(held.schema),
        non: boxed(held.non_schema),
        n: boxed(parse::<Nonce>(&g("n1"))),
        bcs: boxed(parse::<BlindedCredentialSecrets>(&g("bcs"))),
        bcp: boxed(parse::<BlindedCredentialSecretsCorrectnessProof>(&g("bcp"))),
        bf: boxed(parse::<CredentialSecretsBlindingFactors>(&g("bf"))),
        hv: boxed(values(&fx.vals)),
        iv: boxed(known_values(&fx.vals)),
        sig: boxed(parse::<CredentialSignature>(&g("sig"))),
        sp: boxed(parse::<SignatureCorrectnessProof>(&g("sp"))),
        rr: boxed(parse::<RevocationRegistry>(&g("reg"))),
        rks: boxed(parse::<RevocationKeyPrivate>(&rf.rks)),
        rkp: boxed(parse::<RevocationKeyPublic>(&g("rkp"))),
        delta: boxed(parse::<RevocationRegistryDelta>(&g("delta"))),
        delta2: boxed(parse::<RevocationRegistryDelta>(&g("delta2"))),
        wit: boxed(parse::<Witness>(&g("witness"))),
        proof: boxed(parse::<Proof>(&g("proof"))),
        spr: boxed(parse::<SubProofRequest>(&g("spr"))),
        text: cs("12"),
        gen: boxed(gen),
        skey: boxed(skey),
        vkey: boxed(vkey),
        pop: boxed(pop),
        bsig: bsig_h,
        msig: boxed(msig),
        bytes: vec![1; 32],
        arr: vec![bsig_h, bsig_h],
        ints: vec![1, 2],
    };
    let snapshot = |e: &Env| {
        vec![
            canon(view::<RevocationRegistry>(e.rr)),
            canon(view::<CredentialSignature>(e.sig)),
            canon(view::<Witness>(e.wit)),
            canon(view::<RevocationRegistryDelta>(e.delta)),
        ]
    };
    let before = snapshot(&e);
    for _ in 0..60 {
        let c = &CALLS[sim.pick(CALLS.len())];
        let pos = c.1[sim.pick(c.1.len())];
        let what = if special(c.0) { c.0.to_string() } else { format!("{} with a null argument {}", c.0, pos + 1) };
        e.pos = if special(c.0) { 99 } else { pos };
        for s in e.slots.iter_mut() {
            *s = SENT;
        }
        // any invalid-parameter code; arguments beyond the twelfth have none of their own
        let codes: Vec<usize> = if pos >= 12 { (100..=112).collect() } else { (100..=111).collect() };
        let er = &e;
        refused(sim, &what, &codes, || {
            let mut o = Out::c((c.2)(er));
            o.dirty = er.slots.iter().any(|s| *s != SENT);
            o
        });
    }
    let after = snapshot(&e);
    sim.check(before == after, "input-state", || "refused calls changed the objects passed in".into());
    e.st.settle(sim, "refused calls");
    // error details to nowhere
    ursa::ffi::ursa_get_current_error(std::ptr::null_mut());
}

// ---- curve signatures -----------------------------------------------------------------------------

pub fn bls(sim: &mut Sim) {
    let (mut g, mut sk) = (sent(), sent());
    twin(
        sim,
        "generator_new",
        false,
        || {
            let o = Out::c(ursa_bls_generator_new(&mut g));
            o.slots(&[g], || vec![hex(view::<Generator>(g).as_bytes())])
        },
        || Out::of(Generator::new(), |g| vec![hex(g.as_bytes())]),
    );
    let n = 1 + sim.pick(4);
    let mut keys: Vec<(H, H)> = vec![];
    for _ in 0..n {
        let seed = match sim.choose(3) {
            0 => None,
            1 => Some(sim.bytes(32)),
            _ => {
                let n = 1 + sim.pick(64);
                Some(sim.bytes(n))
            }
        };
        let ok = twin(
            sim,
            &format!("sign_key_new seed {:?}", seed.as_ref().map(|s| s.len())),
            false,
            || {
                sk = sent();
                let (p, l) = seed.as_ref().map(|s| (s.as_ptr(), s.len())).unwrap_or((std::ptr::null(), 0));
                let o = Out::c(ursa_bls_sign_key_new(p, l, &mut sk));
                o.slots(&[sk], || vec![hex(view::<SignKey>(sk).as_bytes())])
            },
            || Out::of(SignKey::new(seed.as_deref()), |g| vec![hex(g.as_bytes())]),
        );
        if !ok {
            continue;
        }
        let mut vk = sent();
        twin(
            sim,
            "ver_key_new",
            false,
            || {
                let o = Out::c(ursa_bls_ver_key_new(g, sk, &mut vk));
                o.slots(&[vk], || vec![hex(view::<VerKey>(vk).as_bytes())])
            },
            || Out::of(VerKey::new(view(g), view(sk)), |g| vec![hex(g.as_bytes())]),
        );
        keys.push((sk, vk));
    }
    if keys.is_empty() {
        sim.probe("no-key");
        return;
    }
    let len = 1 + sim.pick(80);
    let msg = sim.bytes(len);
    let mut other = msg.clone();
    other[0] ^= 1;
    let mut sigs: Vec<H> = vec![];
    for (sk, vk) in &keys {
        let (sk, vk) = (*sk, *vk);
        let mut s = sent();
        twin(
            sim,
            "bls_sign",
            false,
            || {
                let o = Out::c(ursa_bls_sign(msg.as_ptr(), msg.len(), sk, &mut s));
                o.slots(&[s], || vec![hex(view::<Signature>(s).as_bytes())])
            },
            || Out::of(Bls::sign(&msg, view(sk)), |g| vec![hex(g.as_bytes())]),
        );
        sigs.push(s);
        for m in [&msg, &other] {
            let mut v = 7u8;
            twin(
                sim,
                "bls_verify",
                false,
                || {
                    let mut o = Out::c(ursa_bls_verify(s, m.as_ptr(), m.len(), vk, g, &mut v as *mut u8 as *mut bool));
                    o.dirty = o.code != 0 && v != 7;
                    if o.code == 0 {
                        o.outs = vec![v.to_string()];
                    }
                    o
                },
                || Out::of(Bls::verify(view(s), m, view(vk), view(g)), |b| vec![(b as u8).to_string()]),
            );
        }
        let mut p = sent();
        twin(
            sim,
            "pop_new",
            false,
            || {
                let o = Out::c(ursa_bls_pop_new(vk, sk, &mut p));
                o.slots(&[p], || vec![hex(view::<ProofOfPossession>(p).as_bytes())])
            },
            || Out::of(ProofOfPossession::new(view(vk), view(sk)), |g| vec![hex(g.as_bytes())]),
        );
        let vk2 = keys[sim.pick(keys.len())].1;
        let mut v = 7u8;
        twin(
            sim,
            "verify_pop",
            false,
            || {
                let mut o = Out::c(ursa_bls_verify_pop(p, vk2, g, &mut v as *mut u8 as *mut bool));
                o.dirty = o.code != 0 && v != 7;
                if o.code == 0 {
                    o.outs = vec![v.to_string()];
                }
                o
            },
            || Out::of(Bls::verify_proof_of_posession(view(p), view(vk2), view(g)), |b| vec![(b as u8).to_string()]),
        );
        bytes_io::<ProofOfPossession>(sim, "pop", p, |b| ProofOfPossession::from_bytes(b), |x| x.as_bytes(), ursa_bls_pop_as_bytes, ursa_bls_pop_from_bytes, ursa_bls_pop_free);
        ursa_bls_pop_free(p);
    }
    let mut ms = sent();
    let k = 1 + sim.pick(sigs.len());
    twin(
        sim,
        &format!("multi_signature_new of {}", k),
        false,
        || {
            let o = Out::c(ursa_bls_multi_signature_new(sigs.as_ptr(), k, &mut ms));
            o.slots(&[ms], || vec![hex(view::<MultiSignature>(ms).as_bytes())])
        },
        || {
            let v: Vec<&Signature> = sigs[..k].iter().map(|s| view::<Signature>(*s)).collect();
            Out::of(MultiSignature::new(&v), |g| vec![hex(g.as_bytes())])
        },
    );
    let vks: Vec<H> = keys.iter().map(|k| k.1).collect();
    for kk in [k, 1 + sim.pick(vks.len())] {
        let mut v = 7u8;
        twin(
            sim,
            &format!("verify_multi_sig of {} keys of {}", kk, k),
            false,
            || {
                let mut o = Out::c(ursa_bls_verify_multi_sig(ms, msg.as_ptr(), msg.len(), vks.as_ptr(), kk, g, &mut v as *mut u8 as *mut bool));
                o.dirty = o.code != 0 && v != 7;
                if o.code == 0 {
                    o.outs = vec![v.to_string()];
                }
                o
            },
            || {
                let vs: Vec<&VerKey> = vks[..kk].iter().map(|s| view::<VerKey>(*s)).collect();
                Out::of(Bls::verify_multi_sig(view(ms), &msg, &vs, view(g)), |b| vec![(b as u8).to_string()])
            },
        );
        if kk == k {
            sim.check(v == 1, "outputs", || format!("an honest multi-signature made through C was judged {}", v));
        }
    }
    let (k0, v0, s0) = (keys[0].0, keys[0].1, sigs[0]);
    bytes_io::<Generator>(sim, "generator", g, |b| Generator::from_bytes(b), |x| x.as_bytes(), ursa_bls_generator_as_bytes, ursa_bls_generator_from_bytes, ursa_bls_generator_free);
    bytes_io::<SignKey>(sim, "sign key", k0, |b| SignKey::from_bytes(b), |x| x.as_bytes(), ursa_bls_sign_key_as_bytes, ursa_bls_sign_key_from_bytes, ursa_bls_sign_key_free);
    bytes_io::<VerKey>(sim, "ver key", v0, |b| VerKey::from_bytes(b), |x| x.as_bytes(), ursa_bls_ver_key_as_bytes, ursa_bls_ver_key_from_bytes, ursa_bls_ver_key_free);
    bytes_io::<Signature>(sim, "signature", s0, |b| Signature::from_bytes(b), |x| x.as_bytes(), ursa_bls_signature_as_bytes, ursa_bls_signature_from_bytes, ursa_bls_signature_free);
    bytes_io::<MultiSignature>(sim, "multi signature", ms, |b| MultiSignature::from_bytes(b), |x| x.as_bytes(), ursa_bls_multi_signature_as_bytes, ursa_bls_multi_signature_from_bytes, ursa_bls_multi_signature_free);
    for (s, v) in keys {
        ursa_bls_sign_key_free(s);
        ursa_bls_ver_key_free(v);
    }
    for s in sigs {
        ursa_bls_signature_free(s);
    }
    ursa_bls_multi_signature_free(ms);
    ursa_bls_generator_free(g);
    sim.probe("bls-session");
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

type AsBytes = extern "C" fn(H, *mut *const u8, *mut usize) -> ErrorCode;
type FromBytes = extern "C" fn(*const u8, usize, *mut H) -> ErrorCode;
#[allow(clippy::too_many_arguments)]
fn bytes_io<T>(
    sim: &mut Sim,
    what: &str,
    h: H,
    lib_from: impl Fn(&[u8]) -> Result<T, ursa::errors::UrsaCryptoError>,
    lib_bytes: impl Fn(&T) -> &[u8],
    as_bytes: AsBytes,
    from_bytes: FromBytes,
    free: Free,
) {
    let (mut p, mut n) = (std::ptr::null(), 0usize);
    let c = as_bytes(h, &mut p, &mut n);
    sim.check(c == ErrorCode::Success && !p.is_null(), "outcome", || format!("bytes of a {}: {:?}", what, c));
    let b = unsafe { std::slice::from_raw_parts(p, n) }.to_vec();
    let want = lib_bytes(view::<T>(h)).to_vec();
    sim.check(b == want, "outputs", || format!("bytes of a {} are {} instead of {}", what, hex(&b), hex(&want)));
    let mut cases = vec![b.clone()];
    let mut d = b.clone();
    match sim.choose(4) {
        0 => {
            let i = sim.pick(d.len());
            d[i] ^= 1 << sim.choose(8);
        }
        1 => d.truncate(1 + sim.pick(b.len() - 1)),
        2 => d.push(0),
        _ => {
            let n = 1 + sim.pick(200);
            d = sim.bytes(n);
        }
    }
    cases.push(d);
    for c in cases {
        let mut o2 = sent();
        twin(
            sim,
            &format!("{} from {} bytes", what, c.len()),
            false,
            || {
                let o = Out::c(from_bytes(c.as_ptr(), c.len(), &mut o2));
                o.slots(&[o2], || vec![hex(lib_bytes(view::<T>(o2)))])
            },
            || Out::of(lib_from(&c), |t| vec![hex(lib_bytes(&t))]),
        );
        if o2 as usize != SENT {
            free(o2);
        }
    }
}
