//! C23: circuit proofs.
use crate::bbsx::in_this_thread;
use crate::ps::{json, scalar};
use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::ipp::IPP;
use bulletproofs_amcl::r1cs::gadgets::bound_check::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::mimc;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::gadgets::merkle_tree_hash::PoseidonHashConstraints;
use bulletproofs_amcl::r1cs::gadgets::mimc::*;
use bulletproofs_amcl::r1cs::gadgets::non_zero::*;
use bulletproofs_amcl::r1cs::gadgets::poseidon_hash::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership_alt::*;
use bulletproofs_amcl::r1cs::gadgets::set_non_membership::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, RandomizedConstraintSystem, Variable, Verifier};
use bulletproofs_amcl::utils::get_generators;
use merlin::Transcript;
use serde_json::Value;
use simcore::{ev, mutate, Sim};
use std::collections::BTreeMap;
use std::sync::OnceLock;

type F = FieldElement;
type Res<T> = Result<T, R1CSError>;

struct Gens {
    g: G1,
    h: G1,
    gg: Vec<G1>,
    hh: Vec<G1>,
}
const MOST: usize = 512;
fn gens() -> &'static Gens {
    static C: OnceLock<Gens> = OnceLock::new();
    C.get_or_init(|| Gens { g: G1::from_msg_hash(b"g"), h: G1::from_msg_hash(b"h"), gg: get_generators("G", MOST), hh: get_generators("H", MOST) })
}
/// The generators handed to a call: as many as asked for.
struct Setup {
    g: G1,
    h: G1,
    gg: G1Vector,
    hh: G1Vector,
}
fn setup(n: usize) -> Setup {
    let c = gens();
    let n = n.min(MOST);
    Setup { g: c.g.clone(), h: c.h.clone(), gg: c.gg[..n].to_vec().into(), hh: c.hh[..n].to_vec().into() }
}

const LABELS: [&[u8]; 4] = [b"session", b"other session", b"", b"x"];

/// A public statement.
#[derive(Clone)]
enum Stmt {
    Bound { lo: u64, hi: u64, bits: usize },
    Member { set: Vec<F> },
    MemberAlt { set: Vec<u64> },
    NonMember { set: Vec<F> },
    NonZero,
    Mimc { image: F, consts: Vec<F> },
    Pos { width: usize, image: F, hash: Hash },
    Path { arity: usize, root: F, depth: usize, leaf: Option<F>, hash: Hash },
}
#[derive(Clone)]
struct Hash {
    params: PoseidonParams,
    sbox: SboxType,
}
/// What the prover knows: the values behind its first commitments, and a Merkle path (from the root).
#[derive(Clone, Default)]
struct Wit {
    vals: Vec<F>,
    small: u64,
    path: Vec<Vec<F>>,
}

fn u64f(x: u64) -> F {
    let mut b = vec![0u8; F::zero().to_bytes().len()];
    let l = b.len();
    b[l - 8..].copy_from_slice(&x.to_be_bytes());
    F::from_bytes(&b).unwrap()
}
fn pos(h: &Hash, inputs: Vec<F>) -> F {
    match inputs.len() {
        2 => Poseidon_hash_2(inputs, &h.params, &h.sbox).unwrap(),
        4 => Poseidon_hash_4(inputs, &h.params, &h.sbox).unwrap(),
        _ => Poseidon_hash_8(inputs, &h.params, &h.sbox).unwrap(),
    }
}
fn climb(h: &Hash, leaf: &F, digits: &[usize], path: &[Vec<F>]) -> F {
    let mut cur = leaf.clone();
    for (d, sib) in digits.iter().zip(path).rev() {
        let mut n = sib.clone();
        n.insert(*d, cur);
        cur = pos(h, n);
    }
    cur
}
fn index_of(digits: &[usize], arity: usize) -> F {
    let mut x = F::zero();
    let a = u64f(arity as u64);
    for d in digits {
        x = &(&x * &a) + &u64f(*d as u64);
    }
    x
}

impl Stmt {
    fn name(&self) -> &'static str {
        match self {
            Stmt::Bound { .. } => "bound",
            Stmt::Member { .. } => "member",
            Stmt::MemberAlt { .. } => "member-alt",
            Stmt::NonMember { .. } => "non-member",
            Stmt::NonZero => "non-zero",
            Stmt::Mimc { .. } => "mimc",
            Stmt::Pos { .. } => "poseidon",
            Stmt::Path { .. } => "merkle-path",
        }
    }
    fn prove(&self, sim: &mut Sim, w: &Wit, rands: Option<Vec<F>>, label: &'static [u8], s: &Setup) -> Res<(R1CSProof, Vec<G1>)> {
        let mut rng = rand::thread_rng();
        let one = rands.as_ref().map(|r| r[0].clone());
        let v = w.vals.clone();
        sim.no_panic("proving", || match self {
            Stmt::Bound { lo, hi, bits } => gen_proof_of_bounded_num(w.small, one, *lo, *hi, *bits, Some(&mut rng), label, &s.g, &s.h, &s.gg, &s.hh),
            Stmt::Member { set } => gen_proof_of_set_membership(v[0].clone(), one, set, Some(&mut rng), label, &s.g, &s.h, &s.gg, &s.hh),
            Stmt::MemberAlt { set } => gen_proof_of_set_membership_alt(w.small, one, set, Some(&mut rng), label, &s.g, &s.h, &s.gg, &s.hh),
            Stmt::NonMember { set } => gen_proof_of_set_non_membership(v[0].clone(), one, set, Some(&mut rng), label, &s.g, &s.h, &s.gg, &s.hh),
            Stmt::NonZero => gen_proof_of_non_zero_val(v[0].clone(), one, Some(&mut rng), label, &s.g, &s.h, &s.gg, &s.hh),
            Stmt::Mimc { image, consts } => gen_proof_of_knowledge_of_preimage_of_mimc(v, rands, image, consts, Some(&mut rng), label, &s.g, &s.h, &s.gg, &s.hh),
            Stmt::Pos { width: 2, image, hash } => gen_proof_of_knowledge_of_preimage_of_Poseidon_2(v, rands, image, &hash.params, &hash.sbox, Some(&mut rng), label, &s.g, &s.h, &s.gg, &s.hh),
            Stmt::Pos { width: 4, image, hash } => gen_proof_of_knowledge_of_preimage_of_Poseidon_4(v, rands, image, &hash.params, &hash.sbox, Some(&mut rng), label, &s.g, &s.h, &s.gg, &s.hh),
            Stmt::Pos { image, hash, .. } => gen_proof_of_knowledge_of_preimage_of_Poseidon_8(v, rands, image, &hash.params, &hash.sbox, Some(&mut rng), label, &s.g, &s.h, &s.gg, &s.hh),
            Stmt::Path { arity: 4, root, depth, leaf, hash } => {
                let p = w.path.iter().map(|x| [x[0].clone(), x[1].clone(), x[2].clone()]).collect();
                let mut hf = PoseidonHashConstraints::new(&hash.params, &hash.sbox, CAP_CONST_W_5);
                gen_proof_of_leaf_inclusion_4_ary_merkle_tree(v[1].clone(), v[0].clone(), leaf.is_none(), rands, p, root, *depth, &mut hf, Some(&mut rng), label, &s.g, &s.h, &s.gg, &s.hh)
            }
            Stmt::Path { root, depth, leaf, hash, .. } => {
                let p = w.path.iter().map(|x| [x[0].clone(), x[1].clone(), x[2].clone(), x[3].clone(), x[4].clone(), x[5].clone(), x[6].clone()]).collect();
                let mut hf = PoseidonHashConstraints::new(&hash.params, &hash.sbox, CAP_CONST_W_9);
                gen_proof_of_leaf_inclusion_8_ary_merkle_tree(v[1].clone(), v[0].clone(), leaf.is_none(), rands, p, root, *depth, &mut hf, Some(&mut rng), label, &s.g, &s.h, &s.gg, &s.hh)
            }
        })
    }
    fn verify(&self, sim: &mut Sim, p: &R1CSProof, c: &[G1], label: &'static [u8], s: &Setup) -> Res<()> {
        let (p, c) = (p.clone(), c.to_vec());
        sim.no_panic("verifying", || match self {
            Stmt::Bound { lo, hi, bits } => verify_proof_of_bounded_num(*lo, *hi, *bits, p, c, label, &s.g, &s.h, &s.gg, &s.hh),
            Stmt::Member { set } => verify_proof_of_set_membership(set, p, c, label, &s.g, &s.h, &s.gg, &s.hh),
            Stmt::MemberAlt { set } => verify_proof_of_set_membership_alt(set, p, c, label, &s.g, &s.h, &s.gg, &s.hh),
            Stmt::NonMember { set } => verify_proof_of_set_non_membership(set, p, c, label, &s.g, &s.h, &s.gg, &s.hh),
            Stmt::NonZero => verify_proof_of_non_zero_val(p, c, label, &s.g, &s.h, &s.gg, &s.hh),
            Stmt::Mimc { image, consts } => verify_knowledge_of_preimage_of_mimc(image, consts, p, c, label, &s.g, &s.h, &s.gg, &s.hh),
            Stmt::Pos { width: 2, image, hash } => verify_proof_of_knowledge_of_preimage_of_Poseidon_2(image, &hash.params, &hash.sbox, p, c, label, &s.g, &s.h, &s.gg, &s.hh),
            Stmt::Pos { width: 4, image, hash } => verify_proof_of_knowledge_of_preimage_of_Poseidon_4(image, &hash.params, &hash.sbox, p, c, label, &s.g, &s.h, &s.gg, &s.hh),
            Stmt::Pos { image, hash, .. } => verify_proof_of_knowledge_of_preimage_of_Poseidon_8(image, &hash.params, &hash.sbox, p, c, label, &s.g, &s.h, &s.gg, &s.hh),
            Stmt::Path { arity: 4, root, depth, leaf, hash } => {
                let mut hf = PoseidonHashConstraints::new(&hash.params, &hash.sbox, CAP_CONST_W_5);
                verify_proof_of_leaf_inclusion_4_ary_merkle_tree(root, *depth, &mut hf, p, leaf.clone(), c, label, &s.g, &s.h, &s.gg, &s.hh)
            }
            Stmt::Path { root, depth, leaf, hash, .. } => {
                let mut hf = PoseidonHashConstraints::new(&hash.params, &hash.sbox, CAP_CONST_W_9);
                verify_proof_of_leaf_inclusion_8_ary_merkle_tree(root, *depth, &mut hf, p, leaf.clone(), c, label, &s.g, &s.h, &s.gg, &s.hh)
            }
        })
    }
    /// The circuit the verifier builds for this statement and so many commitments.
    fn circuit(&self, sim: &mut Sim, ncomms: usize) -> Res<Circuit> {
        let gs = gens();
        let c = vec![gs.g.clone(); ncomms];
        sim.no_panic("building the verifier's circuit", || {
            let mut t = Transcript::new(b"");
            let mut v = Verifier::new(&mut t);
            match self {
                Stmt::Bound { lo, hi, bits } => verify_bounded_num(*lo, *hi, *bits, c, &mut v)?,
                Stmt::Member { set } => verify_set_membership(set, c, &mut v)?,
                Stmt::MemberAlt { set } => verify_set_membership_alt(set, c, &mut v)?,
                Stmt::NonMember { set } => verify_set_non_membership(set, c, &mut v)?,
                Stmt::NonZero => verify_non_zero_val(c, &mut v)?,
                Stmt::Mimc { image, consts } => verify_mimc_preimage(image, consts, c, &mut v)?,
                Stmt::Pos { width: 2, image, hash } => verify_knowledge_of_preimage_of_Poseidon_2(image, &hash.params, &hash.sbox, c, &gs.g, &gs.h, &mut v)?,
                Stmt::Pos { width: 4, image, hash } => verify_knowledge_of_preimage_of_Poseidon_4(image, &hash.params, &hash.sbox, c, &gs.g, &gs.h, &mut v)?,
                Stmt::Pos { image, hash, .. } => verify_knowledge_of_preimage_of_Poseidon_8(image, &hash.params, &hash.sbox, c, &gs.g, &gs.h, &mut v)?,
                Stmt::Path { arity: 4, root, depth, leaf, hash } => {
                    let mut hf = PoseidonHashConstraints::new(&hash.params, &hash.sbox, CAP_CONST_W_5);
                    verify_leaf_inclusion_4_ary_merkle_tree(root, *depth, &mut hf, leaf.clone(), c, &gs.g, &gs.h, &mut v)?
                }
                Stmt::Path { root, depth, leaf, hash, .. } => {
                    let mut hf = PoseidonHashConstraints::new(&hash.params, &hash.sbox, CAP_CONST_W_9);
                    verify_leaf_inclusion_8_ary_merkle_tree(root, *depth, &mut hf, leaf.clone(), c, &gs.g, &gs.h, &mut v)?
                }
            }
            let (n, lcs) = v.circuit();
            Ok(Circuit::new(n, ncomms, lcs))
        })
    }
    /// The capacity constant the circuit commits to after the prover's own commitments.
    fn constant(&self) -> Option<F> {
        match self {
            Stmt::Pos { width, .. } => Some(u64f(match width {
                2 => CAP_CONST_W_3,
                4 => CAP_CONST_W_5,
                _ => CAP_CONST_W_9,
            })),
            Stmt::Path { arity, .. } => Some(u64f(if *arity == 4 { CAP_CONST_W_5 } else { CAP_CONST_W_9 })),
            _ => None,
        }
    }
}

fn hash(sim: &mut Sim, width: usize) -> Hash {
    let (b, e, p) = match sim.choose(6) {
        0 => (1, 1, 1),
        1 => (2, 1, 0),
        2 => (1, 1, 4),
        3 => (2, 2, 2),
        4 => (0, 1, 3),
        _ => (1, 2, 1),
    };
    let params = sim.must("PoseidonParams::new", || PoseidonParams::new(width, b, e, p));
    let sbox = *sim.of(&[SboxType::Cube, SboxType::Quint, SboxType::Inverse]);
    Hash { params, sbox }
}
/// 64-bit numbers around the places where things go wrong.
fn num(sim: &mut Sim) -> u64 {
    let k = sim.choose(64);
    let base = match sim.choose(6) {
        0 => 0,
        1 => u64::MAX,
        2 | 3 => 1u64 << k,
        4 => sim.choose(200),
        _ => u64::from_be_bytes(sim.bytes(8).try_into().unwrap()) >> k,
    };
    match sim.choose(4) {
        0 => base.wrapping_add(sim.choose(3)),
        1 => base.wrapping_sub(sim.choose(3)),
        _ => base,
    }
}
fn in_range(sim: &mut Sim, lo: u64, hi: u64) -> u64 {
    match sim.choose(4) {
        0 => lo,
        1 => hi,
        2 => lo + (hi - lo) / 2,
        _ => {
            let k = u64::from_be_bytes(sim.bytes(8).try_into().unwrap());
            if hi - lo == u64::MAX {
                k
            } else {
                lo + k % (hi - lo + 1)
            }
        }
    }
}
fn bits_of(x: u64) -> usize {
    64 - x.leading_zeros() as usize
}
fn distinct(sim: &mut Sim, n: usize) -> Vec<F> {
    let mut v: Vec<F> = vec![];
    while v.len() < n {
        let x = match sim.choose(3) {
            0 => u64f(sim.choose(20)),
            _ => scalar(sim),
        };
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}
/// A true statement with what its prover knows.
fn truth(sim: &mut Sim) -> (Stmt, Wit) {
    let k = sim.choose(9);
    match k {
        0 => {
            let (a, b) = (num(sim), num(sim));
            let (lo, hi) = (a.min(b), a.max(b));
            let v = in_range(sim, lo, hi);
            let need = bits_of((v - lo).max(hi - v));
            let bits = match sim.choose(4) {
                0 => need,
                1 => 64.max(need),
                2 => need + 1,
                _ => need + sim.pick(20),
            };
            (Stmt::Bound { lo, hi, bits }, Wit { vals: vec![u64f(v)], small: v, ..Wit::default() })
        }
        1 => {
            let n = 1 + sim.pick(9);
            let mut set = distinct(sim, n);
            let i = sim.pick(n);
            let v = set[i].clone();
            if sim.chance(150) {
                let j = sim.pick(n);
                let x = set[j].clone();
                set.push(x);
            }
            (Stmt::Member { set }, Wit { vals: vec![v], ..Wit::default() })
        }
        2 => {
            let n = 1 + sim.pick(9);
            let mut set: Vec<u64> = vec![];
            for _ in 0..n {
                let x = num(sim);
                set.push(x);
            }
            let i = sim.pick(n);
            let v = set[i];
            if sim.chance(150) {
                set.push(v);
            }
            (Stmt::MemberAlt { set }, Wit { vals: vec![u64f(v)], small: v, ..Wit::default() })
        }
        3 => {
            let n = 1 + sim.pick(8);
            let mut set = distinct(sim, n);
            let v = set.pop().unwrap();
            (Stmt::NonMember { set }, Wit { vals: vec![v], ..Wit::default() })
        }
        4 => {
            let v = scalar(sim);
            let v = if v.is_zero() { F::one() } else { v };
            (Stmt::NonZero, Wit { vals: vec![v], ..Wit::default() })
        }
        5 => {
            let vals = vec![scalar(sim), scalar(sim)];
            let n = 1 + sim.pick(12);
            let consts: Vec<F> = (0..n).map(|_| scalar(sim)).collect();
            (Stmt::Mimc { image: mimc(&vals[0], &vals[1], &consts), consts }, Wit { vals, ..Wit::default() })
        }
        6 => {
            let width = *sim.of(&[2usize, 4, 8]);
            let hash = hash(sim, width + 1);
            // values of their own: an S-box input that is zero has no inverse
            let vals: Vec<F> = (0..width).map(|_| if matches!(hash.sbox, SboxType::Inverse) { F::random() } else { scalar(sim) }).collect();
            (Stmt::Pos { width, image: pos(&hash, vals.clone()), hash }, Wit { vals, ..Wit::default() })
        }
        _ => path(sim),
    }
}
fn path(sim: &mut Sim) -> (Stmt, Wit) {
    let arity = if sim.coin() { 4 } else { 8 };
    let hash = hash(sim, arity + 1);
    let depth = if arity == 4 { 1 + sim.pick(3) } else { 1 + sim.pick(2) };
    let depth = if sim.chance(60) { 0 } else { depth };
    let digits: Vec<usize> = (0..depth).map(|_| sim.pick(arity)).collect();
    let inv = matches!(hash.sbox, SboxType::Inverse);
    let leaf = if inv { F::random() } else { scalar(sim) };
    let path: Vec<Vec<F>> = (0..depth).map(|_| (0..arity - 1).map(|_| if inv { F::random() } else { scalar(sim) }).collect()).collect();
    let root = climb(&hash, &leaf, &digits, &path);
    let shown = if sim.coin() { Some(leaf.clone()) } else { None };
    (Stmt::Path { arity, root, depth, leaf: shown, hash }, Wit { vals: vec![index_of(&digits, arity), leaf], path, ..Wit::default() })
}
/// The same kind of statement with other public inputs.
fn other(sim: &mut Sim, s: &Stmt) -> Option<Stmt> {
    let mut t = s.clone();
    let d = 1 + sim.choose(3);
    match &mut t {
        Stmt::Bound { lo, hi, bits } => match sim.choose(4) {
            0 => *lo = if *lo >= d { *lo - d } else { *lo + d },
            1 => *hi = hi.checked_add(d).unwrap_or(*hi - d),
            2 => *bits += d as usize,
            _ => {
                // the range moved as a whole
                if hi.checked_add(d).is_none() {
                    return None;
                }
                *lo += d;
                *hi += d;
            }
        },
        Stmt::Member { set } | Stmt::NonMember { set } => {
            if set.is_empty() || sim.chance(200) {
                let x = scalar(sim);
                set.push(x);
            } else {
                let i = sim.pick(set.len());
                match sim.choose(4) {
                    0 => {
                        set.remove(i);
                    }
                    1 if set.len() > 1 => {
                        let j = sim.pick(set.len());
                        if set[i] == set[j] {
                            return None;
                        }
                        set.swap(i, j);
                    }
                    _ => set[i] = &set[i] + &u64f(d),
                }
            }
        }
        Stmt::MemberAlt { set } => {
            let i = sim.pick(set.len());
            match sim.choose(4) {
                0 => {
                    set.remove(i);
                }
                1 if set.len() > 1 => {
                    let j = sim.pick(set.len());
                    if set[i] == set[j] {
                        return None;
                    }
                    set.swap(i, j);
                }
                2 => {
                    let x = num(sim);
                    set.push(x);
                }
                _ => set[i] = set[i].wrapping_add(d),
            }
        }
        Stmt::NonZero => return None,
        Stmt::Mimc { image, consts } => match sim.choose(3) {
            0 => {
                let i = sim.pick(consts.len());
                consts[i] = &consts[i] + &u64f(d);
            }
            1 => {
                consts.pop();
            }
            _ => *image = &*image + &u64f(d),
        },
        Stmt::Pos { image, hash, .. } => match sim.choose(3) {
            0 => tweak(sim, hash),
            _ => *image = &*image + &u64f(d),
        },
        Stmt::Path { root, depth, leaf, hash, .. } => match sim.choose(5) {
            0 => tweak(sim, hash),
            1 => *depth += d as usize,
            2 if *depth > 0 => *depth -= 1,
            3 if leaf.is_some() => *leaf = leaf.as_ref().map(|l| l + &u64f(d)),
            _ => *root = &*root + &u64f(d),
        },
    }
    Some(t)
}
fn tweak(sim: &mut Sim, h: &mut Hash) {
    if sim.coin() {
        let i = sim.pick(h.params.round_keys.len());
        h.params.round_keys[i] = &h.params.round_keys[i] + &F::one();
    } else {
        h.sbox = match h.sbox {
            SboxType::Cube => SboxType::Quint,
            SboxType::Quint => SboxType::Inverse,
            SboxType::Inverse => SboxType::Cube,
        };
    }
}
/// What the prover knows, changed so that the statement is false of it.
fn lie(sim: &mut Sim, s: &Stmt, w: &Wit) -> Option<Wit> {
    let mut w = w.clone();
    let d = 1 + sim.choose(3);
    match s {
        Stmt::Bound { lo, hi, .. } => {
            let below = if *lo > 0 { Some(match sim.choose(3) {
                0 => lo - 1,
                1 => 0,
                _ => lo - lo.min(&d),
            }) } else { None };
            let above = if *hi < u64::MAX { Some(match sim.choose(3) {
                0 => hi + 1,
                1 => u64::MAX,
                _ => hi.saturating_add(d),
            }) } else { None };
            w.small = match (below, above) {
                (Some(a), Some(b)) => if sim.coin() { a } else { b },
                (a, b) => a.or(b)?,
            };
            w.vals = vec![u64f(w.small)];
        }
        Stmt::Member { set } => {
            let v = if sim.chance(300) { F::zero() } else { &w.vals[0] + &u64f(d) };
            if set.contains(&v) {
                return None;
            }
            w.vals = vec![v];
        }
        Stmt::MemberAlt { set } => {
            let v = if sim.chance(300) { 0 } else { w.small.wrapping_add(d) };
            if set.contains(&v) {
                return None;
            }
            w.small = v;
            w.vals = vec![u64f(v)];
        }
        Stmt::NonMember { set } => {
            if set.is_empty() {
                return None;
            }
            let i = sim.pick(set.len());
            w.vals = vec![set[i].clone()];
        }
        Stmt::NonZero => w.vals = vec![F::zero()],
        Stmt::Mimc { image, consts } => {
            let i = sim.pick(2);
            w.vals[i] = &w.vals[i] + &u64f(d);
            if mimc(&w.vals[0], &w.vals[1], consts) == *image {
                return None;
            }
        }
        Stmt::Pos { image, hash, .. } => {
            let i = sim.pick(w.vals.len());
            w.vals[i] = &w.vals[i] + &u64f(d);
            if pos(hash, w.vals.clone()) == *image {
                return None;
            }
        }
        Stmt::Path { arity, root, depth, hash, leaf } => {
            if *depth == 0 || (leaf.is_some() && sim.coin()) {
                // another index: beyond the tree, or of another leaf
                let x = &w.vals[0] + &u64f(d);
                let ok = digits_of(&x, *arity, *depth).map_or(false, |ds| climb(hash, &w.vals[1], &ds, &w.path) == *root);
                if ok {
                    return None;
                }
                w.vals[0] = x;
            } else if leaf.is_none() {
                w.vals[1] = &w.vals[1] + &u64f(d);
                let ds = digits_of(&w.vals[0], *arity, *depth).unwrap();
                if climb(hash, &w.vals[1], &ds, &w.path) == *root {
                    return None;
                }
            } else {
                let i = sim.pick(w.path.len());
                let j = sim.pick(w.path[i].len());
                w.path[i][j] = &w.path[i][j] + &u64f(d);
                let ds = digits_of(&w.vals[0], *arity, *depth).unwrap();
                if climb(hash, &w.vals[1], &ds, &w.path) == *root {
                    return None;
                }
            }
        }
    }
    Some(w)
}
/// The base-arity digits of an index, if it has no more than `depth`.
fn digits_of(x: &F, arity: usize, depth: usize) -> Option<Vec<usize>> {
    let bits = if arity == 4 { 2 } else { 3 };
    let b = x.to_bytes();
    let bit = |i: usize| if i / 8 < b.len() { (b[b.len() - 1 - i / 8] >> (i % 8)) & 1 } else { 0 };
    if (depth * bits..b.len() * 8).any(|i| bit(i) == 1) {
        return None;
    }
    Some((0..depth).rev().map(|d| (0..bits).map(|k| (bit(d * bits + k) as usize) << k).sum()).collect())
}

fn rands(sim: &mut Sim, s: &Stmt) -> Option<Vec<F>> {
    if sim.coin() {
        return None;
    }
    let n = match s {
        Stmt::Mimc { .. } => 2,
        Stmt::Pos { width, .. } => *width,
        Stmt::Path { leaf, .. } => if leaf.is_some() { 1 } else { 2 },
        _ => 1,
    };
    Some((0..n).map(|_| scalar(sim)).collect())
}
fn size(sim: &mut Sim, s: &Stmt, ncomms: usize) -> usize {
    let n = match s.circuit(sim, ncomms) {
        Ok(c) => c.n,
        Err(_) => MOST,
    };
    n.next_power_of_two()
}
fn ncomms(s: &Stmt) -> usize {
    match s {
        Stmt::Bound { .. } => 3,
        Stmt::Member { set } => 1 + set.len(),
        Stmt::MemberAlt { set } => 1 + set.len(),
        Stmt::NonMember { set } => 1 + 2 * set.len(),
        Stmt::NonZero => 2,
        Stmt::Mimc { .. } => 2,
        Stmt::Pos { width, .. } => *width,
        Stmt::Path { arity, depth, leaf, .. } => depth * (arity - 1) + if leaf.is_some() { 1 } else { 2 },
    }
}

/// An honest session: prove, transport, verify; then everything that must be refused.
pub fn sessions(sim: &mut Sim) {
    in_this_thread(sim);
    let (s, w) = truth(sim);
    sim.state_str(s.name());
    let label = *sim.of(&LABELS);
    let exact = sim.coin();
    let n = size(sim, &s, ncomms(&s));
    if n > MOST {
        return;
    }
    let n = if exact { n } else { n + sim.pick(40) };
    let set = setup(n);
    let r = rands(sim, &s);
    ev!(sim, "prove {} with {} generators", s.name(), n);
    let (p, c) = match s.prove(sim, &w, r, label, &set) {
        Ok(x) => x,
        Err(e) => return sim.violate(&format!("not-provable:{}", s.name()), format!("a true statement could not be proved: {} ({})", e, describe(&s, &w))),
    };
    sim.tick(1);
    for x in &c {
        sim.absorb(&x.to_bytes());
    }
    let p2: R1CSProof = json(sim, "transporting a proof", &p);
    let c2: Vec<G1> = json(sim, "transporting commitments", &c);
    let r = s.verify(sim, &p2, &c2, label, &set);
    sim.probe("proved");
    if let Err(e) = r {
        return sim.violate(&format!("true-refused:{}", s.name()), format!("the proof of a true statement was refused: {} ({})", e, describe(&s, &w)));
    }
    for _ in 0..1 + sim.pick(3) {
        refused(sim, &s, &w, &p, &c, label, &set);
    }
}
fn describe(s: &Stmt, w: &Wit) -> String {
    match s {
        Stmt::Bound { lo, hi, bits } => format!("{} in {}..={} with {} bits", w.small, lo, hi, bits),
        Stmt::MemberAlt { set } => format!("{} in {:?}", w.small, set),
        Stmt::Path { arity, depth, leaf, .. } => format!("arity {} depth {} leaf {}", arity, depth, if leaf.is_some() { "shown" } else { "hidden" }),
        Stmt::Pos { width, hash, .. } => format!("{} inputs, {:?}", width, hash.sbox),
        _ => s.name().to_string(),
    }
}
const POINTS: [&str; 11] = ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2", "T_1", "T_3", "T_4", "T_5", "T_6"];
const SCALARS: [&str; 3] = ["t_x", "t_x_blinding", "e_blinding"];
fn refused(sim: &mut Sim, s: &Stmt, w: &Wit, p: &R1CSProof, c: &[G1], label: &'static [u8], set: &Setup) {
    let name = s.name();
    match sim.choose(9) {
        0 => {
            // other public inputs
            let Some(t) = other(sim, s) else { return };
            let set = setup(MOST);
            let r = t.verify(sim, p, c, label, &set);
            sim.check(r.is_err(), &format!("other-inputs:{}", name), || format!("accepted for other public inputs than were proved ({} / {})", describe(s, w), describe(&t, w)));
        }
        1 => {
            let l = *sim.of(&LABELS);
            if l == label {
                return;
            }
            let r = s.verify(sim, p, c, l, set);
            sim.check(r.is_err(), &format!("other-label:{}", name), || "accepted under another label".into());
        }
        2 => {
            // commitments: fewer, more, others
            let mut d = c.to_vec();
            let i = sim.pick(d.len());
            let what = match sim.choose(6) {
                0 => {
                    d.remove(i);
                    "one less"
                }
                1 => {
                    let k = sim.pick(d.len());
                    d.truncate(k);
                    "cut"
                }
                2 => {
                    for _ in 0..1 + sim.pick(4) {
                        let x = if sim.coin() { G1::random() } else { c[i].clone() };
                        d.push(x);
                    }
                    "more"
                }
                3 => {
                    let j = sim.pick(d.len());
                    d.swap(i, j);
                    if d[i] == c[i] {
                        return;
                    }
                    "swapped"
                }
                4 => {
                    d[i] = &d[i] + &set.h;
                    "blinded again"
                }
                _ => {
                    d[i] = &d[i] + &set.g;
                    "of another value"
                }
            };
            let set = setup(MOST);
            let r = s.verify(sim, p, &d, label, &set);
            sim.check(r.is_err(), &format!("other-commitments:{}", name), || format!("accepted with other commitments: {}", what));
        }
        3 | 4 => {
            // a component altered
            let mut v = serde_json::to_value(p).unwrap();
            let what = alter(sim, &mut v, None);
            let Some(what) = what else { return };
            let Ok(q) = serde_json::from_value::<R1CSProof>(v) else { return };
            let r = s.verify(sim, &q, c, label, set);
            sim.check(r.is_err(), &format!("altered:{}", name), || format!("accepted a proof with {}", what));
        }
        5 => {
            // spliced with a proof of the same statement from another session
            let Ok((p2, c2)) = s.prove(sim, w, None, label, set) else { return };
            let mut v = serde_json::to_value(p).unwrap();
            let from = serde_json::to_value(&p2).unwrap();
            let what = if sim.chance(250) {
                let r = s.verify(sim, p, &c2, label, set);
                sim.check(r.is_err(), &format!("spliced:{}", name), || "accepted a proof with another session's commitments".into());
                return;
            } else {
                alter(sim, &mut v, Some(&from))
            };
            let Some(what) = what else { return };
            let Ok(q) = serde_json::from_value::<R1CSProof>(v) else { return };
            let r = s.verify(sim, &q, c, label, set);
            sim.check(r.is_err(), &format!("spliced:{}", name), || format!("accepted a proof with another session's {}", what));
        }
        6 => {
            // malformed bytes
            let mut b = serde_json::to_vec(p).unwrap();
            let Some(_) = mutate::mutate_bytes(sim, &mut b) else { return };
            let r = sim.no_panic("reading a proof", || serde_json::from_slice::<R1CSProof>(&b));
            sim.note_fault("corrupted-proof");
            if let Ok(q) = r {
                // an inessential change (a digit of a point's other coordinates) would still be this proof
                if same(&q, p) || !sane(&q) {
                    return;
                }
                let r = s.verify(sim, &q, c, label, set);
                sim.check(r.is_err(), &format!("altered:{}", name), || "accepted a corrupted proof".into());
            }
        }
        7 => {
            // the generators
            let mut t = setup(set.gg.len());
            let i = sim.pick(t.gg.len());
            let what = match sim.choose(4) {
                0 => {
                    std::mem::swap(&mut t.g, &mut t.h);
                    "swapped bases"
                }
                1 => {
                    t.g = &t.g + &t.h;
                    "another base"
                }
                2 => {
                    let k = sim.pick(t.gg.len());
                    t.gg = gens().gg[..k].to_vec().into();
                    if k >= size(sim, s, c.len()) {
                        return;
                    }
                    "too few generators"
                }
                _ => {
                    let k = sim.pick(t.hh.len());
                    t.hh = gens().hh[..k].to_vec().into();
                    if k >= size(sim, s, c.len()) {
                        return;
                    }
                    "too few generators"
                }
            };
            let _ = i;
            let r = s.verify(sim, p, c, label, &t);
            sim.check(r.is_err(), &format!("other-generators:{}", name), || format!("accepted with {}", what));
            if what == "too few generators" {
                let r = s.prove(sim, w, None, label, &t);
                sim.check(r.is_err(), &format!("other-generators:{}", name), || "proved with too few generators".into());
            }
        }
        _ => {
            // the prover's code with something it must not be able to prove
            let Some(w2) = lie(sim, s, w) else { return };
            let r = s.prove(sim, &w2, None, label, set);
            if let Ok((p, c)) = r {
                sim.probe("lie-proved");
                let r = s.verify(sim, &p, &c, label, set);
                sim.check(r.is_err(), &format!("false-accepted:{}", name), || format!("accepted a false statement ({})", describe(s, &w2)));
            } else {
                sim.probe("lie-refused");
            }
        }
    }
    sim.probe("refused");
}
fn point(v: &Value) -> Option<G1> {
    serde_json::from_value(v.clone()).ok()
}
fn same(a: &R1CSProof, b: &R1CSProof) -> bool {
    let (a, b) = (serde_json::to_value(a).unwrap(), serde_json::to_value(b).unwrap());
    flat(&a) == flat(&b)
}
/// The points of a proof as bytes, its scalars reduced.
fn flat(v: &Value) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for k in POINTS {
        out.push(point(&v[k]).map(|p| p.to_bytes()).unwrap_or_default());
    }
    for k in SCALARS {
        out.push(serde_json::from_value::<F>(v[k].clone()).map(|p| p.to_bytes()).unwrap_or_default());
    }
    for k in ["a", "b"] {
        out.push(serde_json::from_value::<F>(v["ipp_proof"][k].clone()).map(|p| p.to_bytes()).unwrap_or_default());
    }
    for k in ["L", "R"] {
        let x = serde_json::from_value::<G1Vector>(v["ipp_proof"][k].clone()).unwrap();
        out.push(vec![x.len() as u8]);
        for y in x.as_slice() {
            out.push(y.to_bytes());
        }
    }
    out
}
/// Whether every point is on the curve: values of the point type that are not points are its own affair.
fn sane(q: &R1CSProof) -> bool {
    let v = serde_json::to_value(q).unwrap();
    let on = |x: &G1| {
        let b = x.to_bytes();
        G1::from_bytes(&b).map_or(false, |y| y == *x && (y.is_identity() || y.has_correct_order()))
    };
    let r = POINTS.iter().all(|k| point(&v[*k]).map_or(false, |x| on(&x)));
    r && ["L", "R"].iter().all(|k| serde_json::from_value::<G1Vector>(v["ipp_proof"][k].clone()).map_or(false, |x| x.as_slice().iter().all(|y| on(y))))
}
/// Alters one component, or takes it from another proof; None when it stayed the same.
fn alter(sim: &mut Sim, v: &mut Value, from: Option<&Value>) -> Option<String> {
    let gs = gens();
    let k = sim.pick(POINTS.len() + SCALARS.len() + 2 + 3);
    if k < POINTS.len() {
        let key = POINTS[k];
        let old = point(&v[key]).unwrap();
        let new = match from {
            Some(f) => point(&f[key]).unwrap(),
            None => match sim.choose(4) {
                0 => &old + &gs.h,
                1 => -&old,
                2 => point(&v[POINTS[sim.pick(POINTS.len())]]).unwrap(),
                _ => G1::identity(),
            },
        };
        if new == old {
            return None;
        }
        v[key] = serde_json::to_value(&new).unwrap();
        return Some(format!("{}", key));
    }
    let k = k - POINTS.len();
    if k < SCALARS.len() + 2 {
        let (key, slot): (&str, &mut Value) = if k < SCALARS.len() { (SCALARS[k], &mut v[SCALARS[k]]) } else {
            let key = ["a", "b"][k - SCALARS.len()];
            (key, &mut v["ipp_proof"][key])
        };
        let old: F = serde_json::from_value(slot.clone()).unwrap();
        let new: F = match from {
            Some(f) => serde_json::from_value(if k < SCALARS.len() { f[key].clone() } else { f["ipp_proof"][key].clone() }).unwrap(),
            None => match sim.choose(3) {
                0 => &old + &F::one(),
                1 => old.negation(),
                _ => F::zero(),
            },
        };
        if new == old {
            return None;
        }
        *slot = serde_json::to_value(&new).unwrap();
        return Some(key.to_string());
    }
    // the vectors of the inner product proof
    let key = if sim.coin() { "L" } else { "R" };
    let old: G1Vector = serde_json::from_value(v["ipp_proof"][key].clone()).unwrap();
    let mut x = old.as_slice().to_vec();
    let what = if let Some(f) = from {
        let y: G1Vector = serde_json::from_value(f["ipp_proof"][key].clone()).unwrap();
        if x.is_empty() {
            return None;
        }
        let i = sim.pick(x.len());
        x[i] = y.as_slice()[i].clone();
        "element"
    } else {
        match sim.choose(5) {
            0 => {
                x.pop();
                "last element missing"
            }
            1 => {
                let p = G1::random();
                x.push(p);
                "surplus element"
            }
            2 if !x.is_empty() => {
                let i = sim.pick(x.len());
                x[i] = &x[i] + &gs.g;
                "element altered"
            }
            3 if x.len() > 1 => {
                let i = sim.pick(x.len());
                let j = sim.pick(x.len());
                x.swap(i, j);
                "elements swapped"
            }
            _ => {
                x.clear();
                "no elements"
            }
        }
    };
    if x.len() == old.len() && x.iter().zip(old.as_slice()).all(|(a, b)| a == b) {
        return None;
    }
    v["ipp_proof"][key] = serde_json::to_value(G1Vector::from(x)).unwrap();
    Some(format!("{}: {}", key, what))
}

// ---------------------------------------------------------------------------------------------
// Circuits as they are: search for witnesses of false statements.

/// Wires: committed values first, then left, right and output of every multiplier.
struct Circuit {
    n: usize,
    m: usize,
    /// Linear combinations that are zero: constant and coefficients by wire.
    cons: Vec<(F, Vec<(usize, F)>)>,
    raw: Vec<LinearCombination>,
    uses: Vec<Vec<(usize, usize)>>,
}
impl Circuit {
    fn new(n: usize, ncomms: usize, raw: Vec<LinearCombination>) -> Circuit {
        // the circuit may have commitments of its own after those of the prover
        let mut m = ncomms;
        for lc in &raw {
            for (v, _) in &lc.terms {
                if let Variable::Committed(i) = v {
                    m = m.max(i + 1);
                }
            }
        }
        let id = |v: &Variable| match v {
            Variable::Committed(i) => Some(*i),
            Variable::MultiplierLeft(i) => Some(m + 3 * i),
            Variable::MultiplierRight(i) => Some(m + 3 * i + 1),
            Variable::MultiplierOutput(i) => Some(m + 3 * i + 2),
            Variable::One() => None,
        };
        let mut cons = vec![];
        for lc in &raw {
            let mut k = F::zero();
            let mut t: BTreeMap<usize, F> = BTreeMap::new();
            for (v, c) in &lc.terms {
                match id(v) {
                    None => k = &k + c,
                    Some(i) => {
                        let x = t.entry(i).or_insert_with(F::zero);
                        *x = &*x + c;
                    }
                }
            }
            cons.push((k, t.into_iter().filter(|(_, c)| !c.is_zero()).collect::<Vec<_>>()));
        }
        let mut uses = vec![vec![]; m + 3 * n];
        for (q, (_, t)) in cons.iter().enumerate() {
            for (j, (i, _)) in t.iter().enumerate() {
                uses[*i].push((q, j));
            }
        }
        Circuit { n, m, cons, raw, uses }
    }
}
struct Walk<'a> {
    c: &'a Circuit,
    x: Vec<F>,
    /// Value of every linear combination.
    e: Vec<F>,
    pinned: Vec<bool>,
}
impl<'a> Walk<'a> {
    fn new(c: &'a Circuit, x: Vec<F>, pinned: Vec<bool>) -> Walk<'a> {
        let mut w = Walk { c, x, e: vec![], pinned };
        w.e = c.cons.iter().map(|(k, t)| t.iter().fold(k.clone(), |s, (i, c)| &s + &(c * &w.x[*i]))).collect();
        w
    }
    fn poke(&mut self, i: usize, v: &F, undo: &mut Vec<(usize, F)>) {
        undo.push((i, self.x[i].clone()));
        self.put(i, v);
    }
    fn put(&mut self, i: usize, v: &F) {
        let d = v - &self.x[i];
        if d.is_zero() {
            return;
        }
        self.x[i] = v.clone();
        for (q, j) in &self.c.uses[i] {
            self.e[*q] = &self.e[*q] + &(&self.c.cons[*q].1[*j].1 * &d);
        }
    }
    /// Sets a wire and keeps its multiplier true, in one of two ways.
    fn set(&mut self, i: usize, v: &F, way: u64, undo: &mut Vec<(usize, F)>) -> bool {
        if i < self.c.m {
            if self.pinned[i] {
                return false;
            }
            self.poke(i, v, undo);
            return true;
        }
        let g = (i - self.c.m) / 3;
        let b = self.c.m + 3 * g;
        let (l, r, o) = (b, b + 1, b + 2);
        self.poke(i, v, undo);
        if i == o {
            let (keep, adapt) = if way == 0 { (r, l) } else { (l, r) };
            if self.x[keep].is_zero() {
                if v.is_zero() {
                    return true;
                }
                self.poke(keep, &F::one(), undo);
                self.poke(adapt, v, undo);
            } else {
                let y = v * &self.x[keep].inverse();
                self.poke(adapt, &y, undo);
            }
        } else {
            let peer = if i == l { r } else { l };
            if way == 0 || v.is_zero() {
                let y = v * &self.x[peer];
                self.poke(o, &y, undo);
            } else {
                let y = &self.x[o] * &v.inverse();
                self.poke(peer, &y, undo);
            }
        }
        true
    }
    fn broken(&self) -> Vec<usize> {
        (0..self.e.len()).filter(|q| !self.e[*q].is_zero()).collect()
    }
    /// Repairs one broken combination after another, for so many steps.
    fn search(&mut self, sim: &mut Sim, steps: usize) -> bool {
        for _ in 0..steps {
            let b = self.broken();
            if b.is_empty() {
                return true;
            }
            let q = b[sim.pick(b.len())];
            let terms = &self.c.cons[q].1;
            if terms.is_empty() {
                return false;
            }
            let noisy = sim.chance(120);
            let tries = if noisy { 1 } else { 6 };
            let mut best: Option<(usize, Vec<(usize, F)>)> = None;
            for _ in 0..tries {
                let (i, k) = &terms[sim.pick(terms.len())];
                let v = &self.x[*i] - &(&self.e[q] * &k.inverse());
                let way = sim.choose(2);
                let mut undo = vec![];
                if !self.set(*i, &v, way, &mut undo) {
                    continue;
                }
                let now = self.broken().len();
                let redo: Vec<(usize, F)> = undo.iter().map(|(i, _)| (*i, self.x[*i].clone())).collect();
                for (i, v) in undo.iter().rev() {
                    self.put(*i, v);
                }
                if best.as_ref().map_or(true, |x| now < x.0) {
                    best = Some((now, redo));
                }
            }
            if let Some((_, redo)) = best {
                for (i, v) in redo {
                    self.put(i, &v);
                }
            }
        }
        self.broken().is_empty()
    }
}
/// Fills in the multipliers as an honest prover with these commitments would, advice at random.
/// Hints, if any, are the factors of multipliers that nothing before determines.
fn forward(sim: &mut Sim, c: &Circuit, vals: &[F], hints: &[(F, F)]) -> Vec<F> {
    let mut hints = hints.iter();
    let mut x = vals.to_vec();
    x.resize(c.m + 3 * c.n, F::zero());
    let mut known = vec![false; x.len()];
    for k in known.iter_mut().take(c.m) {
        *k = true;
    }
    for g in 0..c.n {
        let b = c.m + 3 * g;
        let mut got = [None, None];
        for s in 0..2 {
            let i = b + s;
            // the last wire of a combination, all others known
            for (q, j) in &c.uses[i] {
                let (k, t) = &c.cons[*q];
                if t.iter().all(|(y, _)| *y == i || known[*y]) {
                    let sum = t.iter().filter(|(y, _)| *y != i).fold(k.clone(), |s, (y, z)| &s + &(z * &x[*y]));
                    got[s] = Some((&sum * &t[*j].1.inverse()).negation());
                    break;
                }
            }
            if got[s].is_some() {
                known[i] = true;
                x[i] = got[s].clone().unwrap();
            }
        }
        if got[0].is_none() && got[1].is_none() {
            if let Some((l, r)) = hints.next() {
                x[b] = l.clone();
                x[b + 1] = r.clone();
                got = [Some(x[b].clone()), Some(x[b + 1].clone())];
            }
        }
        for s in 0..2 {
            if got[s].is_none() {
                let peer = &x[b + 1 - s];
                x[b + s] = match sim.choose(4) {
                    0 => F::zero(),
                    1 => F::one(),
                    2 => &F::one() - peer,
                    _ => if got[1 - s].is_some() { peer.inverse() } else { F::zero() },
                };
            }
        }
        x[b + 2] = &x[b] * &x[b + 1];
        for s in 0..3 {
            known[b + s] = true;
        }
    }
    x
}
/// Proves a circuit with given wires, satisfying or not, as any program can.
fn prove_wires(sim: &mut Sim, c: &Circuit, x: &[F], blind: &[F], label: &'static [u8], s: &Setup) -> Res<(R1CSProof, Vec<G1>)> {
    sim.no_panic("proving", || {
        let mut t = Transcript::new(label);
        let mut p = Prover::new(&s.g, &s.h, &mut t);
        let mut comms = vec![];
        for i in 0..c.m {
            comms.push(p.commit(x[i].clone(), blind[i].clone()).0);
        }
        for g in 0..c.n {
            p.allocate_multiplier(Some((x[c.m + 3 * g].clone(), x[c.m + 3 * g + 1].clone())))?;
        }
        for lc in &c.raw {
            p.constrain(lc.clone());
        }
        Ok((p.prove(&s.gg, &s.hh)?, comms))
    })
}
/// A prover with a program of its own looks for wires that satisfy the verifier's circuit for a
/// false statement.
pub fn cheat(sim: &mut Sim) {
    in_this_thread(sim);
    let (s, w) = if sim.chance(250) { path(sim) } else { truth(sim) };
    sim.state_str(s.name());
    let Some((s, vals, pin, what, hints)) = false_claim(sim, &s, &w) else { return };
    let mine = vals.len();
    let c = match s.circuit(sim, mine) {
        Ok(c) => c,
        Err(_) => {
            sim.probe("cheat-refused");
            return;
        }
    };
    ev!(sim, "{}: {}, {} multipliers, {} combinations", s.name(), what, c.n, c.cons.len());
    for v in &vals {
        sim.absorb(&v.to_bytes());
    }
    let mut all = vals.clone();
    let mut pinned = pin.clone();
    if c.m > mine {
        all.push(s.constant().unwrap_or_else(F::zero));
        pinned.push(true);
    }
    if all.len() != c.m || c.n.next_power_of_two() > MOST {
        return;
    }
    let tries = 1 + sim.pick(2);
    for _ in 0..tries {
        let x = forward(sim, &c, &all, &hints);
        let mut walk = Walk::new(&c, x, pinned.clone());
        let steps = 40 + sim.pick(160);
        let ok = walk.search(sim, steps);
        sim.tick(steps as u64);
        sim.probe("cheat-searched");
        if ok {
            // the verifier's word decides
            let set = setup(c.n.next_power_of_two());
            let blind: Vec<F> = (0..c.m).map(|i| if i < mine { F::random() } else { F::zero() }).collect();
            let label = LABELS[0];
            if let Ok((p, comms)) = prove_wires(sim, &c, &walk.x, &blind, label, &set) {
                let r = s.verify(sim, &p, &comms[..mine], label, &set);
                if r.is_ok() {
                    return sim.violate(&format!("forged:{}", s.name()), format!("a proof of a false statement was accepted: {} ({})", what, describe(&s, &w)));
                }
            }
            sim.probe("cheat-not-believed");
        }
    }
}
/// Commitments that make the statement false whatever else the prover chooses: values, and which of
/// them are fixed.
fn false_claim(sim: &mut Sim, s: &Stmt, w: &Wit) -> Option<(Stmt, Vec<F>, Vec<bool>, String, Vec<(F, F)>)> {
    let s = s.clone();
    let free = |v: Vec<F>, n: usize| {
        let mut pin = vec![true; v.len()];
        let mut v = v;
        pin.resize(v.len() + n, false);
        v.resize(v.len() + n, F::zero());
        (v, pin)
    };
    match &s {
        Stmt::Bound { lo, hi, .. } => {
            let v = lie(sim, &s, w)?.vals[0].clone();
            let v = if sim.chance(200) { v.negation() } else { v };
            if v.is_zero() && *lo == 0 {
                return None;
            }
            let n: Vec<F> = vec![&v - &u64f(*lo), &u64f(*hi) - &v];
            let mut vals = vec![v];
            vals.extend(n);
            Some((s.clone(), vals, vec![true, false, false], "a number out of range".into(), vec![]))
        }
        Stmt::Member { set } => {
            let v = lie(sim, &s, w)?.vals[0].clone();
            let (mut vals, pin) = free(vec![v.clone()], set.len());
            for (i, x) in set.iter().enumerate() {
                vals[1 + i] = x - &v;
            }
            Some((s.clone(), vals, pin, "not a member".into(), vec![]))
        }
        Stmt::NonMember { set } => {
            let v = lie(sim, &s, w)?.vals[0].clone();
            let (mut vals, pin) = free(vec![v.clone()], 2 * set.len());
            for (i, x) in set.iter().enumerate() {
                let d = x - &v;
                vals[2 + 2 * i] = d.inverse();
                vals[1 + 2 * i] = d;
            }
            Some((s.clone(), vals, pin, "a member".into(), vec![]))
        }
        Stmt::MemberAlt { set } => {
            let v = lie(sim, &s, w)?.vals[0].clone();
            let mut vals = vec![F::zero(); set.len()];
            if sim.coin() {
                let i = sim.pick(set.len());
                vals[i] = F::one();
            }
            vals.push(v);
            let mut pin = vec![false; set.len()];
            pin.push(true);
            Some((s.clone(), vals, pin, "not a member".into(), vec![]))
        }
        Stmt::NonZero => Some((s.clone(), vec![F::zero(), scalar(sim)], vec![true, false], "zero".into(), vec![])),
        Stmt::Mimc { .. } | Stmt::Pos { .. } => {
            let w = lie(sim, &s, w)?;
            let n = w.vals.len();
            Some((s.clone(), w.vals, vec![true; n], "not a preimage".into(), vec![]))
        }
        Stmt::Path { arity, root, depth, leaf, hash } => {
            if *depth > 0 && sim.chance(400) {
                return between(sim, *arity, *depth, leaf.is_some(), hash);
            }
            if sim.coin() {
                let bits = if sim.coin() { digits_of(&w.vals[0], *arity, *depth).map_or(vec![], |d| bits(&d, *arity)) } else { vec![] };
                let w = lie(sim, &s, w)?;
                let mut vals = vec![w.vals[0].clone()];
                if leaf.is_none() {
                    vals.push(w.vals[1].clone());
                }
                vals.extend(w.path.iter().flatten().cloned());
                let n = vals.len();
                return Some((s.clone(), vals, vec![true; n], "not on the path".into(), bits));
            }
            // a path of another length: an inner node taken for a leaf, or a leaf deeper than the tree
            let d2 = match sim.choose(3) {
                0 => sim.pick(*depth + 1),
                1 => *depth + 1,
                _ => *depth + 1 + sim.pick(3),
            };
            let mut digits: Vec<usize> = (0..d2).map(|_| sim.pick(*arity)).collect();
            if sim.coin() {
                for d in digits.iter_mut() {
                    *d = 0;
                }
            }
            let mut nodes: Vec<Vec<F>> = (0..d2).map(|_| (0..arity - 1).map(|_| F::random()).collect()).collect();
            let node = if d2 == 0 { root.clone() } else { F::random() };
            if d2 == *depth {
                return None;
            }
            // a root this path leads to
            let r2 = climb(hash, &node, &digits, &nodes);
            let mut part = 0;
            if sim.chance(300) && d2 > 0 {
                // some nodes of a level left out or added
                part = 1 + sim.pick(arity - 2);
            }
            let s2 = Stmt::Path { arity: *arity, root: r2, depth: *depth, leaf: leaf.as_ref().map(|_| node.clone()), hash: hash.clone() };
            let mut vals = vec![index_of(&digits, *arity)];
            if leaf.is_none() {
                vals.push(node);
            }
            vals.extend(nodes.drain(..).flatten());
            if part > 0 {
                let l = vals.len();
                vals.truncate(l - part);
            }
            let n = vals.len();
            Some((s2, vals, vec![true; n], format!("a path of {} levels in a tree of {}, {} nodes short", d2, depth, part), bits(&digits, *arity)))
        }
    }
}
/// The bits of a path of digits in the order in which the circuits take them, from the leaf up.
fn bits(digits: &[usize], arity: usize) -> Vec<(F, F)> {
    let k = if arity == 4 { 2 } else { 3 };
    let bit = |d: usize, i: usize| u64f((d >> i) as u64 & 1);
    digits.iter().rev().flat_map(|d| (0..k).map(move |i| (bit(*d, i), bit(!*d, i)))).collect()
}
/// A leaf between the places: bits of the lowest digit that are no bits, and a leaf and neighbours
/// that would give the true children for them.
fn between(sim: &mut Sim, arity: usize, depth: usize, shown: bool, hash: &Hash) -> Option<(Stmt, Vec<F>, Vec<bool>, String, Vec<(F, F)>)> {
    let k = if arity == 4 { 2 } else { 3 };
    let children: Vec<F> = (0..arity).map(|_| F::random()).collect();
    let digits: Vec<usize> = (0..depth - 1).map(|_| sim.pick(arity)).collect();
    let nodes: Vec<Vec<F>> = (0..depth - 1).map(|_| (0..arity - 1).map(|_| F::random()).collect()).collect();
    let root = climb(hash, &pos(hash, children.clone()), &digits, &nodes);
    let mut b: Vec<F> = (0..k).map(|_| u64f(sim.choose(2))).collect();
    let odd = sim.pick(k);
    let one = F::one();
    let mut n: Vec<F> = b.iter().map(|x| &one - x).collect();
    let strange = match sim.choose(5) {
        0 => u64f(2),
        1 => u64f(3),
        2 => F::minus_one(),
        3 => u64f(2).negation(),
        _ => F::random(),
    };
    match sim.choose(4) {
        0 => {
            b[odd] = F::zero();
            n[odd] = strange;
        }
        1 => {
            b[odd] = strange;
            n[odd] = F::zero();
        }
        _ => {
            n[odd] = &one - &strange;
            b[odd] = strange;
        }
    }
    let index = &(&index_of(&digits, arity) * &u64f(arity as u64)) + &b.iter().rev().fold(F::zero(), |s, x| &(&s + &s) + x);
    // every child as a combination of leaf and neighbours
    let mut a = vec![vec![F::zero(); arity + 1]; arity];
    if arity == 4 {
        let p = &n[0] * &n[1];
        a[0][0] = p.clone();
        a[0][1] = &one - &p;
        a[1][1] = p;
        a[1][0] = &n[1] * &b[0];
        a[1][2] = b[1].clone();
        a[2][2] = n[1].clone();
        a[2][0] = &n[0] * &b[1];
        let q = &b[0] * &b[1];
        a[2][3] = q.clone();
        a[3][3] = &one - &q;
        a[3][0] = q;
    } else {
        let p = &(&n[0] * &n[1]) * &n[2];
        a[0][0] = p.clone();
        a[0][1] = &one - &p;
        a[1][1] = p;
        let q = &n[1] * &n[2];
        a[1][2] = &one - &q;
        a[1][0] = &q * &b[0];
        a[2][2] = q;
        a[2][0] = &(&n[0] * &n[2]) * &b[1];
        let u = &b[0] * &b[1];
        let v = &(&one - &u) * &n[2];
        a[2][3] = &one - &v;
        a[3][3] = v;
        a[3][0] = &n[2] * &u;
        a[3][4] = b[2].clone();
        a[4][4] = n[2].clone();
        let m = &n[0] * &n[1];
        a[4][0] = &b[2] * &m;
        let t = &b[2] * &(&one - &m);
        a[4][5] = t.clone();
        a[5][5] = &one - &t;
        let z = &b[1] * &b[2];
        a[5][6] = z.clone();
        a[5][0] = &(&b[2] * &n[1]) * &b[0];
        let y = &u * &b[2];
        a[6][7] = y.clone();
        a[6][0] = &(&b[2] * &n[0]) * &b[1];
        a[6][6] = &one - &z;
        a[7][0] = y.clone();
        a[7][7] = &one - &y;
    }
    for (i, c) in children.iter().enumerate() {
        a[i][arity] = c.clone();
    }
    let x = solve(a)?;
    let leaf = x[0].clone();
    if let Some(d) = digits_of(&index, arity, depth) {
        if children[d[depth - 1]] == leaf {
            return None;
        }
    }
    let s = Stmt::Path { arity, root, depth, leaf: if shown { Some(leaf.clone()) } else { None }, hash: hash.clone() };
    let mut vals = vec![index];
    if !shown {
        vals.push(leaf);
    }
    vals.extend(nodes.into_iter().flatten());
    vals.extend(x[1..].iter().cloned());
    let len = vals.len();
    let mut hints: Vec<(F, F)> = b.into_iter().zip(n).collect();
    hints.extend(bits(&digits, arity));
    sim.probe("cheat-between");
    Some((s, vals, vec![true; len], "a leaf between the places".into(), hints))
}
/// Linear equations, the constants in the last column.
fn solve(mut a: Vec<Vec<F>>) -> Option<Vec<F>> {
    let n = a.len();
    for i in 0..n {
        let p = (i..n).find(|r| !a[*r][i].is_zero())?;
        a.swap(i, p);
        let inv = a[i][i].inverse();
        for x in a[i].iter_mut() {
            *x = &*x * &inv;
        }
        let row = a[i].clone();
        for (r, other) in a.iter_mut().enumerate() {
            if r != i && !other[i].is_zero() {
                let f = other[i].clone();
                for (x, y) in other.iter_mut().zip(&row) {
                    *x = &*x - &(&f * y);
                }
            }
        }
    }
    Some(a.into_iter().map(|r| r[n].clone()).collect())
}

/// A public number of the statement, by position: read, or moved by an amount.
fn moved(s: &Stmt, at: usize, by: &F) -> Option<Stmt> {
    let mut t = s.clone();
    let slot: &mut F = match &mut t {
        Stmt::Mimc { image, consts } => match at {
            0 => image,
            _ => {
                let n = consts.len();
                &mut consts[at % n]
            }
        },
        Stmt::Pos { image, hash, .. } => match at {
            0 => image,
            _ => {
                let n = hash.params.round_keys.len();
                &mut hash.params.round_keys[at % n]
            }
        },
        Stmt::Path { root, leaf, hash, .. } => match (at % 3, leaf) {
            (0, _) | (1, None) => root,
            (1, Some(l)) => l,
            _ => {
                let n = hash.params.round_keys.len();
                &mut hash.params.round_keys[at % n]
            }
        },
        Stmt::Member { set } | Stmt::NonMember { set } => {
            let n = set.len();
            &mut set[at % n]
        }
        _ => return None,
    };
    *slot = &*slot + by;
    Some(t)
}
/// Whether a statement is true of these values.
fn holds(s: &Stmt, w: &Wit) -> bool {
    match s {
        Stmt::Mimc { image, consts } => mimc(&w.vals[0], &w.vals[1], consts) == *image,
        Stmt::Pos { image, hash, .. } => pos(hash, w.vals.clone()) == *image,
        Stmt::Path { arity, root, depth, leaf, hash } => {
            digits_of(&w.vals[0], *arity, *depth).map_or(false, |ds| climb(hash, leaf.as_ref().unwrap_or(&w.vals[1]), &ds, &w.path) == *root)
        }
        Stmt::Member { set } => set.contains(&w.vals[0]),
        Stmt::NonMember { set } => !set.contains(&w.vals[0]),
        _ => true,
    }
}
/// A prover that first makes a proof that is wrong, and then looks for public inputs it would be
/// right for.
pub fn heart(sim: &mut Sim) {
    in_this_thread(sim);
    let (s, w) = loop {
        let (s, w) = truth(sim);
        let inverse = match &s {
            Stmt::Pos { hash, .. } | Stmt::Path { hash, .. } => matches!(hash.sbox, SboxType::Inverse),
            Stmt::Bound { .. } | Stmt::MemberAlt { .. } | Stmt::NonZero => true,
            Stmt::NonMember { set } => set.is_empty(),
            _ => false,
        };
        if !inverse {
            break (s, w);
        }
    };
    sim.state_str(s.name());
    // the values committed to
    let mut w = w;
    let mut vals: Vec<F> = match &s {
        Stmt::Path { leaf, .. } => {
            let mut v = vec![w.vals[0].clone()];
            if leaf.is_none() {
                v.push(w.vals[1].clone());
            }
            v.extend(w.path.iter().flatten().cloned());
            v
        }
        Stmt::Member { set } => {
            let v = F::random();
            w.vals = vec![v.clone()];
            let mut x: Vec<F> = set.iter().map(|y| y - &v).collect();
            x.insert(0, v);
            x
        }
        Stmt::NonMember { set } => {
            let v = set[sim.pick(set.len())].clone();
            w.vals = vec![v.clone()];
            let mut x = vec![v.clone()];
            for y in set {
                let d = y - &v;
                x.push(d.clone());
                x.push(d.inverse());
            }
            x
        }
        _ => w.vals.clone(),
    };
    let mine = vals.len();
    let Ok(c) = s.circuit(sim, mine) else { return };
    if let Some(k) = s.constant() {
        vals.push(k);
    }
    if vals.len() != c.m || c.n == 0 || c.n.next_power_of_two() > MOST {
        return;
    }
    let mut x = forward(sim, &c, &vals, &[]);
    // one multiplier wire is not what its combination says
    let g = sim.pick(c.n);
    let i = c.m + 3 * g + sim.pick(2);
    x[i] = &x[i] + &scalar(sim);
    let b = c.m + 3 * g;
    x[b + 2] = &x[b] * &x[b + 1];
    let set = setup(c.n.next_power_of_two());
    let label = *sim.of(&LABELS);
    let blind: Vec<F> = (0..c.m).map(|i| if i < mine { F::random() } else { F::zero() }).collect();
    let Ok((p, comms)) = prove_wires(sim, &c, &x, &blind, label, &set) else { return };
    for y in &comms {
        sim.absorb(&y.to_bytes());
    }
    // the challenge with which the verifier weighs the combinations
    bulletproofs_amcl::sim::take();
    let r = s.verify(sim, &p, &comms[..mine], label, &set);
    if !holds(&s, &w) || x.is_empty() {
        sim.check(r.is_err(), &format!("false-accepted:{}", s.name()), || "a wrong proof was accepted".into());
    }
    let drawn = bulletproofs_amcl::sim::take();
    let Some((_, z)) = drawn.iter().find(|(l, _)| *l == b"z") else { return };
    let walk = Walk::new(&c, x, vec![true; c.m]);
    let weigh = |v: &mut dyn Iterator<Item = F>| {
        let mut k = z.clone();
        let mut sum = F::zero();
        for y in v {
            sum = &sum + &(&y * &k);
            k = &k * z;
        }
        sum
    };
    let off = weigh(&mut walk.e.iter().cloned());
    // a public number that moves constants only
    let at = sim.pick(24);
    let Some(t) = moved(&s, at, &F::one()) else { return };
    let Ok(d) = t.circuit(sim, mine) else { return };
    if d.cons.len() != c.cons.len() || c.cons.iter().zip(&d.cons).any(|(a, b)| a.1.len() != b.1.len() || a.1.iter().zip(&b.1).any(|(y, z)| y.0 != z.0 || y.1 != z.1)) {
        sim.probe("heart-not-constant");
        return;
    }
    let slope = weigh(&mut c.cons.iter().zip(&d.cons).map(|(a, b)| &b.0 - &a.0));
    if slope.is_zero() || off.is_zero() {
        return;
    }
    let by = (&off * &slope.inverse()).negation();
    let s2 = moved(&s, at, &by).unwrap();
    sim.probe("late-input");
    sim.tick(1);
    if holds(&s2, &w) {
        return;
    }
    let r = s2.verify(sim, &p, &comms[..mine], label, &set);
    sim.check(r.is_err(), &format!("late-input:{}", s.name()), || format!("public input {} computed from a finished, wrong proof was accepted: it is false of what was committed to", at));
}

// ---------------------------------------------------------------------------------------------
// Circuits of one's own.

/// A sum of wires, by position, and a constant.
#[derive(Clone)]
struct Sum(Vec<(usize, F)>, F);
#[derive(Clone)]
enum Step {
    Mul(Sum, Sum),
    Pair(F, F),
    One(F),
    Zero(Sum),
}
#[derive(Clone)]
struct Program {
    steps: Vec<Step>,
    /// In the second phase: wires that are said to be the others in another order.
    shuffle: Option<(Vec<usize>, Vec<usize>)>,
    /// In the second phase: sums that are said to be zero, weighed by challenges.
    late: Vec<Sum>,
}
fn lc(s: &Sum, wires: &[Variable]) -> LinearCombination {
    let mut out: LinearCombination = s.0.iter().map(|(i, c)| (wires[*i], c.clone())).collect();
    if !s.1.is_zero() {
        out = out + LinearCombination::from(s.1.clone());
    }
    out
}
fn value(s: &Sum, vals: &[F]) -> F {
    s.0.iter().fold(s.1.clone(), |x, (i, c)| &x + &(c * &vals[*i]))
}
fn build<CS: ConstraintSystem>(cs: &mut CS, p: &Program, mut wires: Vec<Variable>, known: bool) -> Res<()> {
    let some = |x: &F| if known { Some(x.clone()) } else { None };
    for s in &p.steps {
        match s {
            Step::Mul(a, b) => {
                let (l, r, o) = cs.multiply(lc(a, &wires), lc(b, &wires));
                wires.extend([l, r, o]);
            }
            Step::Pair(a, b) => {
                let (l, r, o) = cs.allocate_multiplier(if known { Some((a.clone(), b.clone())) } else { None })?;
                wires.extend([l, r, o]);
            }
            Step::One(a) => wires.push(cs.allocate(some(a))?),
            Step::Zero(a) => cs.constrain(lc(a, &wires)),
        }
    }
    if let Some((xs, ys)) = p.shuffle.clone() {
        let w = wires.clone();
        cs.specify_randomized_constraints(move |cs| {
            let z = cs.challenge_scalar(b"shuffle");
            let mut ends = vec![];
            for side in [&xs, &ys] {
                let mut acc: LinearCombination = LinearCombination::from(F::one());
                for i in side.iter() {
                    let (_, _, o) = cs.multiply(acc, w[*i] - z.clone());
                    acc = o.into();
                }
                ends.push(acc);
            }
            let b = ends.pop().unwrap();
            cs.constrain(ends.pop().unwrap() - b);
            Ok(())
        })?;
    }
    if !p.late.is_empty() {
        let late = p.late.clone();
        cs.specify_randomized_constraints(move |cs| {
            let mut all = LinearCombination::default();
            for s in &late {
                let z = cs.challenge_scalar(b"late");
                let (_, _, o) = cs.multiply(lc(s, &wires), LinearCombination::from(z));
                all = all + o;
            }
            cs.constrain(all);
            Ok(())
        })?;
    }
    Ok(())
}
fn sum(sim: &mut Sim, n: usize) -> Sum {
    let mut t = vec![];
    if n > 0 {
        for _ in 0..sim.pick(5) {
            let i = sim.pick(n);
            let c = scalar(sim);
            t.push((i, c));
        }
    }
    let k = if sim.coin() { F::zero() } else { scalar(sim) };
    Sum(t, k)
}
/// A program with the values it computes from committed ones.
fn program(sim: &mut Sim, committed: &[F]) -> (Program, Vec<F>) {
    let mut vals = committed.to_vec();
    let mut p = Program { steps: vec![], shuffle: None, late: vec![] };
    let mut open: Option<usize> = None;
    for _ in 0..sim.pick(16) {
        match sim.choose(5) {
            0 | 1 => {
                let (a, b) = (sum(sim, vals.len()), sum(sim, vals.len()));
                let (x, y) = (value(&a, &vals), value(&b, &vals));
                let z = &x * &y;
                vals.extend([x, y, z]);
                p.steps.push(Step::Mul(a, b));
            }
            2 => {
                let (x, y) = (scalar(sim), scalar(sim));
                let z = &x * &y;
                p.steps.push(Step::Pair(x.clone(), y.clone()));
                vals.extend([x, y, z]);
            }
            3 => {
                let x = scalar(sim);
                p.steps.push(Step::One(x.clone()));
                vals.push(x);
                open = if open.is_some() { None } else { Some(vals.len() - 1) };
            }
            _ => {
                let mut a = sum(sim, vals.len());
                a.1 = &a.1 - &value(&a, &vals);
                p.steps.push(Step::Zero(a));
            }
        }
    }
    if vals.len() > 1 && sim.chance(400) {
        let n = 1 + sim.pick(vals.len().min(6));
        let xs = sim.subset(vals.len(), 500);
        let xs: Vec<usize> = xs.into_iter().take(n).collect();
        let mut ys = xs.clone();
        sim.shuffle(&mut ys);
        if !xs.is_empty() {
            p.shuffle = Some((xs, ys));
        }
    }
    if sim.chance(300) {
        for _ in 0..1 + sim.pick(3) {
            let mut a = sum(sim, vals.len());
            a.1 = &a.1 - &value(&a, &vals);
            p.late.push(a);
        }
    }
    (p, vals)
}
/// The program with one of its sums no longer zero, or its shuffle no longer one.
fn broken(sim: &mut Sim, p: &Program, vals: &[F]) -> Option<(Program, &'static str)> {
    let mut q = p.clone();
    let d = 1 + sim.choose(3);
    let mut sums: Vec<(&'static str, &mut Sum)> = q.steps.iter_mut().filter_map(|s| if let Step::Zero(a) = s { Some(("a sum", a)) } else { None }).collect();
    sums.extend(q.late.iter_mut().map(|a| ("a late sum", a)));
    if let Some((_, ys)) = &mut q.shuffle {
        if sums.is_empty() || sim.chance(400) {
            let i = sim.pick(ys.len());
            let j = sim.pick(vals.len());
            if vals[ys[i]] == vals[j] {
                return None;
            }
            ys[i] = j;
            return Some((q, "a shuffle"));
        }
    }
    if sums.is_empty() {
        return None;
    }
    let i = sim.pick(sums.len());
    let (what, s) = &mut sums[i];
    let what = *what;
    if !s.0.is_empty() && sim.coin() {
        let j = sim.pick(s.0.len());
        if vals[s.0[j].0].is_zero() {
            return None;
        }
        s.0[j].1 = &s.0[j].1 + &u64f(d);
    } else {
        s.1 = &s.1 + &u64f(d);
    }
    Some((q, what))
}
fn run_program(sim: &mut Sim, p: &Program, vals: &[F], blind: &[F], label: &'static [u8], s: &Setup) -> Res<(R1CSProof, Vec<G1>)> {
    sim.no_panic("proving a circuit", || {
        let mut t = Transcript::new(label);
        let mut pr = Prover::new(&s.g, &s.h, &mut t);
        let (mut comms, mut wires) = (vec![], vec![]);
        for (v, b) in vals.iter().zip(blind) {
            let (c, w) = pr.commit(v.clone(), b.clone());
            comms.push(c);
            wires.push(w);
        }
        build(&mut pr, p, wires, true)?;
        Ok((pr.prove(&s.gg, &s.hh)?, comms))
    })
}
fn check_program(sim: &mut Sim, p: &Program, proof: &R1CSProof, comms: &[G1], label: &'static [u8], s: &Setup) -> Res<()> {
    sim.no_panic("verifying a circuit", || {
        let mut t = Transcript::new(label);
        let mut v = Verifier::new(&mut t);
        let wires = comms.iter().map(|c| v.commit(c.clone())).collect();
        build(&mut v, p, wires, false)?;
        v.verify(proof, &s.g, &s.h, &s.gg, &s.hh)
    })
}
pub fn circuits(sim: &mut Sim) {
    in_this_thread(sim);
    let m = sim.pick(5);
    let vals: Vec<F> = (0..m).map(|_| scalar(sim)).collect();
    let blind: Vec<F> = (0..m).map(|_| F::random()).collect();
    let (p, all) = program(sim, &vals);
    let set = setup(64 + sim.pick(10));
    let label = *sim.of(&LABELS);
    ev!(sim, "{} steps, {} committed, shuffle {}, late {}", p.steps.len(), m, p.shuffle.as_ref().map_or(0, |x| x.0.len()), p.late.len());
    sim.state(p.steps.len() as u64 * 64 + m as u64 * 8 + p.late.len() as u64);
    let (proof, comms) = match run_program(sim, &p, &vals, &blind, label, &set) {
        Ok(x) => x,
        Err(e) => return sim.violate("not-provable:circuit", format!("a circuit that is satisfied could not be proved: {}", e)),
    };
    for c in &comms {
        sim.absorb(&c.to_bytes());
    }
    let r = check_program(sim, &p, &proof, &comms, label, &set);
    sim.probe("proved");
    sim.tick(1);
    if let Err(e) = r {
        return sim.violate("true-refused:circuit", format!("the proof of a circuit that is satisfied was refused: {}", e));
    }
    for _ in 0..1 + sim.pick(3) {
        match sim.choose(5) {
            0 => {
                // the verifier's circuit is one these values do not satisfy
                let Some((q, what)) = broken(sim, &p, &all) else { continue };
                let r = check_program(sim, &q, &proof, &comms, label, &set);
                sim.check(r.is_err(), "other-inputs:circuit", || format!("accepted for a circuit in which {} is wrong", what));
            }
            1 => {
                let Some((q, what)) = broken(sim, &p, &all) else { continue };
                if let Ok((proof, comms)) = run_program(sim, &q, &vals, &blind, label, &set) {
                    let r = check_program(sim, &q, &proof, &comms, label, &set);
                    sim.check(r.is_err(), "false-accepted:circuit", || format!("accepted though {} is wrong", what));
                    sim.probe("lie-proved");
                }
            }
            2 => {
                let mut v = serde_json::to_value(&proof).unwrap();
                let Some(what) = alter(sim, &mut v, None) else { continue };
                let Ok(q) = serde_json::from_value::<R1CSProof>(v) else { continue };
                let r = check_program(sim, &p, &q, &comms, label, &set);
                sim.check(r.is_err(), "altered:circuit", || format!("accepted a proof with {}", what));
            }
            3 => {
                let Ok((other, c2)) = run_program(sim, &p, &vals, &blind, label, &set) else { continue };
                let mut v = serde_json::to_value(&proof).unwrap();
                let Some(what) = alter(sim, &mut v, Some(&serde_json::to_value(&other).unwrap())) else { continue };
                let Ok(q) = serde_json::from_value::<R1CSProof>(v) else { continue };
                let r = check_program(sim, &p, &q, &c2, label, &set);
                sim.check(r.is_err(), "spliced:circuit", || format!("accepted a proof with another proof's {}", what));
            }
            _ => {
                if comms.is_empty() {
                    continue;
                }
                let mut d = comms.clone();
                let i = sim.pick(d.len());
                d[i] = if sim.coin() { &d[i] + &set.h } else { &d[i] + &set.g };
                let r = check_program(sim, &p, &proof, &d, label, &set);
                sim.check(r.is_err(), "other-commitments:circuit", || "accepted with another commitment".into());
            }
        }
        sim.probe("refused");
    }
}

/// The inner product argument by itself.
pub fn inner(sim: &mut Sim) {
    in_this_thread(sim);
    let n = 1usize << sim.pick(5);
    let st = setup(n);
    let u = gens().g.clone();
    let vec = |sim: &mut Sim| -> FieldElementVector { (0..n).map(|_| scalar(sim)).collect::<Vec<F>>().into() };
    let (a, b) = (vec(sim), vec(sim));
    let ones: FieldElementVector = vec![F::one(); n].into();
    let (gf, hf) = if sim.coin() {
        (ones, FieldElementVector::new_vandermonde_vector(&F::random(), n))
    } else {
        ((0..n).map(|_| F::random()).collect::<Vec<F>>().into(), (0..n).map(|_| F::random()).collect::<Vec<F>>().into())
    };
    let label = *sim.of(&LABELS);
    ev!(sim, "inner product of {}", n);
    for x in a.iter() {
        sim.absorb(&x.to_bytes());
    }
    let p = sim.no_panic("an inner product proof", || IPP::create_ipp(&mut Transcript::new(label), &u, &gf, &hf, &st.gg, &st.hh, &a, &b));
    let c = a.inner_product(&b).unwrap();
    let mut scalars: Vec<F> = a.iter().zip(gf.iter()).map(|(x, y)| x * y).collect();
    scalars.extend(b.iter().zip(hf.iter()).map(|(x, y)| x * y));
    scalars.push(c);
    let mut bases = st.gg.as_slice().to_vec();
    bases.extend_from_slice(st.hh.as_slice());
    bases.push(u.clone());
    let whole = G1Vector::from(bases).multi_scalar_mul_var_time(&scalars).unwrap();
    let verify = |sim: &mut Sim, n: usize, label: &'static [u8], gf: &FieldElementVector, hf: &FieldElementVector, whole: &G1, u: &G1, gg: &G1Vector, hh: &G1Vector, p: &bulletproofs_amcl::ipp::InnerProductArgumentProof| {
        sim.no_panic("verifying an inner product", || IPP::verify_ipp(n, &mut Transcript::new(label), gf, hf, whole, u, gg, hh, &p.a, &p.b, &p.L, &p.R))
    };
    let r = verify(sim, n, label, &gf, &hf, &whole, &u, &st.gg, &st.hh, &p);
    sim.probe("proved");
    sim.tick(1);
    sim.check(r.is_ok(), "true-refused:inner", || format!("an inner product of {} was refused", n));
    for _ in 0..2 {
        let (mut gf, mut hf, mut gg, mut hh, mut p, mut whole, mut u, mut n, mut l) = (gf.clone(), hf.clone(), st.gg.clone(), st.hh.clone(), p.clone(), whole.clone(), u.clone(), n, label);
        let i = sim.pick(n);
        let cut = |v: &G1Vector, k: usize| -> G1Vector { v.as_slice()[..k].to_vec().into() };
        let what = match sim.choose(14) {
            0 => {
                p.a = &p.a + &F::one();
                "another a"
            }
            1 => {
                p.b = p.b.negation();
                if p.b.is_zero() {
                    continue;
                }
                "another b"
            }
            2 => {
                whole = &whole + &u;
                "another product"
            }
            3 => {
                u = &u + &gens().h;
                "another base"
            }
            4 => {
                l = if label == LABELS[0] { LABELS[1] } else { LABELS[0] };
                if n == 1 {
                    continue;
                }
                "another label"
            }
            5 if n > 1 => {
                let k = sim.pick(p.L.len());
                let mut v = p.L.as_slice().to_vec();
                v[k] = &v[k] + &gens().h;
                p.L = v.into();
                "another L"
            }
            6 if n > 1 => {
                let k = sim.pick(p.R.len());
                let mut v = p.R.as_slice().to_vec();
                v[k] = &v[k] + &gens().h;
                p.R = v.into();
                "another R"
            }
            7 if n > 1 => {
                let k = sim.pick(p.L.len());
                if sim.coin() {
                    p.L = cut(&p.L, k);
                }
                if sim.coin() {
                    p.R = cut(&p.R, k);
                }
                if p.L.len() == p.R.len() && p.L.len() != k {
                    continue;
                }
                "rounds missing"
            }
            8 => {
                for _ in 0..1 + sim.pick(3) {
                    if sim.coin() {
                        p.L.push(gens().g.clone());
                    } else {
                        p.R.push(gens().g.clone());
                    }
                }
                "more rounds"
            }
            9 => {
                n = *sim.of(&[0, n / 2, n * 2, n + 1, usize::MAX]);
                "another length"
            }
            10 => {
                gf = gf.as_slice()[..i].to_vec().into();
                "factors missing"
            }
            11 => {
                hf = hf.as_slice()[..i].to_vec().into();
                "factors missing"
            }
            12 => {
                if sim.coin() {
                    gg = cut(&gg, i);
                } else {
                    hh = cut(&hh, i);
                }
                "generators missing"
            }
            _ => {
                if p.b.is_zero() || p.a.is_zero() {
                    continue;
                }
                if sim.coin() {
                    hf[i] = &hf[i] + &F::one();
                } else {
                    gf[i] = &gf[i] + &F::one();
                }
                "another factor"
            }
        };
        // zero has no other multiples
        if (p.a.is_zero() || p.b.is_zero()) && matches!(what, "another base") {
            continue;
        }
        let r = verify(sim, n, l, &gf, &hf, &whole, &u, &gg, &hh, &p);
        sim.probe("refused");
        sim.check(r.is_err(), "altered:inner", || format!("an inner product was accepted with {}", what));
    }
}
