//! C22: sparse Merkle trees over unreliable storage.
use amcl_wrapper::field_elem::FieldElement;
use bulletproofs_amcl::errors::{BulletproofError, BulletproofErrorKind};
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::{PoseidonParams, SboxType};
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::VanillaSparseMerkleTree4;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::VanillaSparseMerkleTree8;
use bulletproofs_amcl::r1cs::gadgets::merkle_tree_hash::{Arity4MerkleTreeHash, Arity8MerkleTreeHash, PoseidonHash4, PoseidonHash8};
use bulletproofs_amcl::utils::hash_db::{HashDb, InMemoryHashDb};
use simcore::{ev, Sim};
use std::cell::RefCell;
use std::collections::BTreeMap;

type Key = Vec<u8>;

/// Storage under the simulator: reads that fail, writes that are lost, a process that dies at a
/// write, nodes that rot. Which access is hit is decided before each operation.
struct Disk<const N: usize> {
    map: BTreeMap<Key, [FieldElement; N]>,
    plan: RefCell<Plan>,
}
#[derive(Default)]
struct Plan {
    reads: u64,
    writes: u64,
    fail_read: Option<u64>,
    die_at_write: Option<u64>,
    lose_write: Option<u64>,
    failed: u64,
    lost: u64,
}
impl<const N: usize> Disk<N> {
    fn new() -> Self {
        Disk { map: BTreeMap::new(), plan: RefCell::new(Plan::default()) }
    }
    fn healthy(&self) {
        *self.plan.borrow_mut() = Plan::default();
    }
}
const CRASH: &str = "simulated crash at a write";
impl<const N: usize> HashDb<[FieldElement; N]> for Disk<N> {
    fn insert(&mut self, hash: Vec<u8>, value: [FieldElement; N]) {
        let p = self.plan.get_mut();
        let n = p.writes;
        p.writes += 1;
        if p.die_at_write == Some(n) {
            std::panic::resume_unwind(Box::new(CRASH.to_string()));
        }
        if p.lose_write == Some(n) {
            p.lost += 1;
            return;
        }
        self.map.insert(hash, value);
    }
    fn get(&self, hash: &[u8]) -> Result<[FieldElement; N], BulletproofError> {
        let mut p = self.plan.borrow_mut();
        let n = p.reads;
        p.reads += 1;
        if p.fail_read == Some(n) {
            p.failed += 1;
            return Err(BulletproofErrorKind::HashNotFoundInDB { hash: hash.to_vec() }.into());
        }
        match self.map.get(hash) {
            Some(v) => Ok(v.clone()),
            None => Err(BulletproofErrorKind::HashNotFoundInDB { hash: hash.to_vec() }.into()),
        }
    }
}

/// A cheap collision-resistant hash, for long histories.
struct Plain;
fn plain(inputs: &[FieldElement]) -> FieldElement {
    let mut b = vec![];
    for i in inputs {
        b.extend_from_slice(&i.to_bytes());
    }
    FieldElement::from_msg_hash(&b)
}
impl Arity4MerkleTreeHash for Plain {
    fn hash(&self, inputs: Vec<FieldElement>) -> Result<FieldElement, BulletproofError> {
        <Plain as Arity4MerkleTreeHash>::is_num_inputs_correct(&inputs)?;
        Ok(plain(&inputs))
    }
}
impl Arity8MerkleTreeHash for Plain {
    fn hash(&self, inputs: Vec<FieldElement>) -> Result<FieldElement, BulletproofError> {
        <Plain as Arity8MerkleTreeHash>::is_num_inputs_correct(&inputs)?;
        Ok(plain(&inputs))
    }
}

fn zero() -> FieldElement {
    FieldElement::zero()
}
fn value(sim: &mut Sim) -> FieldElement {
    match sim.choose(6) {
        0 => zero(),
        1 => FieldElement::from(1 + sim.choose(3)),
        2 => FieldElement::minus_one(),
        _ => FieldElement::from_msg_hash(&sim.bytes(8)),
    }
}
/// 2^k as a field element.
fn pow2(k: usize) -> FieldElement {
    let mut x = FieldElement::one();
    for _ in 0..k {
        x = &x + &x;
    }
    x
}

macro_rules! tree_module {
    ($m:ident, $tree:ident, $hash:ident, $n:expr, $bits:expr) => {
        mod $m {
            use super::*;
            type Node = [FieldElement; $n - 1];
            pub struct World<'a, H: $hash> {
                pub hash: &'a H,
                pub depth: usize,
                pub disk: Disk<$n>,
                pub tree: $tree<'a, H>,
                pub model: BTreeMap<Key, (FieldElement, FieldElement)>,
                pub past: Vec<(FieldElement, BTreeMap<Key, (FieldElement, FieldElement)>)>,
                pub known: Vec<FieldElement>,
            }
            /// Every index below arity^depth, often one of few.
            fn index(sim: &mut Sim, depth: usize) -> FieldElement {
                let bits = depth * $bits;
                if bits == 0 {
                    return zero();
                }
                match sim.choose(6) {
                    0 => zero(),
                    1 if bits < 250 => pow2(bits).minus(&FieldElement::one()),
                    2 => {
                        let k = sim.pick(bits.min(250));
                        pow2(k)
                    }
                    3 => FieldElement::from(sim.choose(if bits >= 4 { 16 } else { 1 << bits })),
                    _ => {
                        let mut x = zero();
                        for _ in 0..bits.min(240) {
                            x = &x + &x;
                            if sim.coin() {
                                x = &x + &FieldElement::one();
                            }
                        }
                        x
                    }
                }
            }
            fn want(m: &BTreeMap<Key, (FieldElement, FieldElement)>, idx: &FieldElement) -> FieldElement {
                m.get(&idx.to_bytes()).map(|x| x.1.clone()).unwrap_or_else(zero)
            }
            pub fn make<'a, H: $hash>(sim: &mut Sim, hash: &'a H, depth: usize) -> World<'a, H> {
                let mut disk = Disk::<$n>::new();
                let tree = sim.must("new tree", || $tree::new(hash, depth, &mut disk));
                World { hash, depth, disk, past: vec![(tree.root.clone(), BTreeMap::new())], tree, model: BTreeMap::new(), known: vec![] }
            }
            fn some_index<'a, H: $hash>(sim: &mut Sim, w: &World<'a, H>) -> FieldElement {
                if !w.known.is_empty() && sim.chance(600) {
                    let k = sim.pick(w.known.len());
                    // the same, or a neighbour in the same or the next subtree
                    let x = w.known[k].clone();
                    if sim.chance(300) {
                        let k = sim.choose($bits * 2) as usize;
                        let y = &x + &pow2(k);
                        if w.depth * $bits >= 255 || inside(&y, w.depth) {
                            return y;
                        }
                    }
                    x
                } else {
                    index(sim, w.depth)
                }
            }
            fn inside(x: &FieldElement, depth: usize) -> bool {
                let b = x.to_bytes();
                let bits = depth * $bits;
                for (i, y) in b.iter().rev().enumerate() {
                    for j in 0..8 {
                        if i * 8 + j >= bits && (y >> j) & 1 == 1 {
                            return false;
                        }
                    }
                }
                true
            }
            /// Reads at a root and compares with what was written up to it.
            fn read<'a, H: $hash>(sim: &mut Sim, w: &mut World<'a, H>, at: usize, idx: &FieldElement) {
                let root = w.past[at].0.clone();
                let exp = want(&w.past[at].1, idx);
                let now = std::mem::replace(&mut w.tree.root, root.clone());
                read_at(sim, w, at, idx, &exp, &root);
                w.tree.root = now;
            }
            fn read_at<'a, H: $hash>(sim: &mut Sim, w: &World<'a, H>, at: usize, idx: &FieldElement, exp: &FieldElement, root: &FieldElement) {
                let t = &w.tree;
                let withproof = sim.coin();
                let mut proof: Option<Vec<Node>> = if withproof { Some(vec![]) } else { None };
                let got = sim.no_panic("get", || t.get(idx, &mut proof, &w.disk));
                match got {
                    Ok(v) => {
                        sim.check(v == *exp, "wrong-value-read", || format!("root {} of {}: a leaf reads back another value than was written", at, w.past.len()));
                        sim.probe("leaf-read");
                        if let Some(p) = proof {
                            proofs(sim, w, idx, exp, p, root);
                        }
                    }
                    Err(e) => sim.violate("unreadable", format!("a leaf is unreadable at root {} of {} on healthy storage: {}", at, w.past.len(), e)),
                }
            }
            fn proofs<'a, H: $hash>(sim: &mut Sim, w: &World<'a, H>, idx: &FieldElement, val: &FieldElement, p: Vec<Node>, root: &FieldElement) {
                let t = &w.tree;
                sim.check(p.len() == w.depth, "proof-shape", || format!("a proof has {} nodes in a tree of depth {}", p.len(), w.depth));
                let ok = sim.must("verify_proof", || w.tree.verify_proof(idx, val, &p, Some(root)));
                sim.check(ok, "honest-proof-refused", || "a proof the tree gave is refused".into());
                let ok = sim.must("verify_proof", || t.verify_proof(idx, val, &p, None));
                sim.check(ok, "honest-proof-refused", || "a proof is refused against the tree's own root".into());
                sim.probe("proof-accepted");
                for _ in 0..2 {
                    let mut i = idx.clone();
                    let mut v = val.clone();
                    let mut r = root.clone();
                    let mut q = p.clone();
                    let what = match sim.choose(9) {
                        0 => {
                            v = value(sim);
                            "value"
                        }
                        1 => {
                            let k = sim.choose((w.depth * $bits).max(1).min(250) as u64) as usize;
                            i = &i + &pow2(k);
                            "index"
                        }
                        2 => {
                            // another leaf that is written
                            i = some_index(sim, w);
                            "index"
                        }
                        3 => {
                            r = match sim.choose(3) {
                                0 => zero(),
                                1 => val.clone(),
                                _ => {
                                    let k = sim.pick(w.past.len());
                                    w.past[k].0.clone()
                                }
                            };
                            "root"
                        }
                        4 if !q.is_empty() => {
                            let k = sim.pick(q.len());
                            let j = sim.pick($n - 1);
                            q[k][j] = value(sim);
                            "node"
                        }
                        5 if !q.is_empty() => {
                            let k = sim.pick(q.len() + 1);
                            q.truncate(k);
                            "shortened"
                        }
                        6 => {
                            let x: Node = if q.is_empty() || sim.coin() { std::array::from_fn(|_| zero()) } else { q[0].clone() };
                            if sim.coin() {
                                q.push(x);
                            } else {
                                q.insert(0, x);
                            }
                            "lengthened"
                        }
                        7 if !q.is_empty() => {
                            let k = sim.pick(q.len());
                            q.remove(k);
                            "node removed"
                        }
                        _ if q.len() > 1 => {
                            let k = sim.pick(q.len() - 1);
                            q.swap(k, k + 1);
                            "nodes swapped"
                        }
                        _ => continue,
                    };
                    if !inside(&i, w.depth) || i == *idx && v == *val && r == *root && q == p {
                        continue;
                    }
                    // the leaf an altered statement speaks of may really hold that value there
                    let res = sim.no_panic("verify_proof", || w.tree.verify_proof(&i, &v, &q, Some(&r)));
                    let ok = matches!(res, Ok(true));
                    let truth = q.len() == w.depth
                        && w.past.iter().any(|(pr, m)| *pr == r && want(m, &i) == v)
                        && honest(w, &i, &r).map(|h| h == q).unwrap_or(false);
                    sim.check(ok == truth, if truth { "honest-proof-refused" } else { "altered-proof-accepted" }, || {
                        format!("with its {} altered a proof in a tree of depth {} is {}", what, w.depth, if ok { "accepted" } else { "refused" })
                    });
                    sim.probe("altered-proof-judged");
                }
            }
            /// The proof as the stored nodes give it.
            fn honest<'a, H: $hash>(w: &World<'a, H>, idx: &FieldElement, root: &FieldElement) -> Option<Vec<Node>> {
                // by hand, for the tree is borrowed and may stand at another root
                let mut path = vec![];
                let b = idx.to_bytes();
                for d in 0..w.depth {
                    let mut x = 0;
                    for j in 0..$bits {
                        let at = d * $bits + j;
                        if at / 8 < b.len() {
                            x |= ((b[b.len() - 1 - at / 8] >> (at % 8)) as usize & 1) << j;
                        }
                    }
                    path.push(x);
                }
                path.reverse();
                let mut at = root.clone();
                let mut p = vec![];
                for d in path {
                    let c = w.disk.map.get(&at.to_bytes())?;
                    let mut rest = c.to_vec();
                    at = rest.remove(d);
                    let rest: Node = rest.try_into().ok()?;
                    p.push(rest);
                }
                Some(p)
            }
            fn written<'a, H: $hash>(w: &mut World<'a, H>, idx: FieldElement, val: FieldElement) {
                w.model.insert(idx.to_bytes(), (idx.clone(), val));
                w.known.push(idx);
                w.past.push((w.tree.root.clone(), w.model.clone()));
            }
            fn restart<'a, H: $hash>(sim: &mut Sim, w: &mut World<'a, H>) {
                // a new process opens the same storage and takes up the last root it stored
                sim.note_fault("restart");
                let root = w.past.last().unwrap().0.clone();
                let (hash, depth) = (w.hash, w.depth);
                let disk = &mut w.disk;
                let mut t = sim.must("new tree", || $tree::new(hash, depth, disk));
                sim.check(t.root == w.past[0].0, "empty-root", || "a new tree over used storage starts from another root".into());
                t.root = root;
                w.tree = t;
            }
            pub fn history<'a, H: $hash>(sim: &mut Sim, w: &mut World<'a, H>, ops: usize) {
                for _ in 0..ops {
                    sim.tick(1);
                    let idx = some_index(sim, w);
                    match sim.choose(11) {
                        0..=4 => {
                            let v = value(sim);
                            let (tree, disk) = (&mut w.tree, &mut w.disk);
                            let r = sim.must("update", || tree.update(&idx, v.clone(), disk));
                            sim.check(r == w.tree.root, "root-returned", || "update returns another root than the tree has".into());
                            ev!(sim, "update #{}", w.past.len());
                            sim.absorb(&r.to_bytes());
                            written(w, idx, v);
                            sim.probe("leaf-written");
                        }
                        5 => {
                            // a read fails while updating
                            let at = sim.choose(w.depth as u64 + 1);
                            sim.note_fault("read-error");
                            w.disk.plan.borrow_mut().fail_read = Some(at);
                            let v = value(sim);
                            let before = w.tree.root.clone();
                            let (tree, disk) = (&mut w.tree, &mut w.disk);
                            let r = sim.no_panic("update", || tree.update(&idx, v.clone(), disk));
                            let failed = w.disk.plan.borrow().failed;
                            w.disk.healthy();
                            if failed > 0 {
                                sim.check(r.is_err(), "error-swallowed", || "an update succeeded although the storage failed under it".into());
                            }
                            match r {
                                Err(_) => {
                                    sim.check(failed > 0, "update-refused", || "an update failed on healthy storage".into());
                                    sim.check(w.tree.root == before, "root-moved", || "a failed update moved the root".into());
                                    w.tree.root = before;
                                    let (k, last) = (some_index(sim, w), w.past.len() - 1);
                                    read(sim, w, last, &k);
                                    if sim.coin() {
                                        let (tree, disk) = (&mut w.tree, &mut w.disk);
                                        sim.must("update", || tree.update(&idx, v.clone(), disk));
                                        written(w, idx, v);
                                        sim.probe("update-retried");
                                    }
                                }
                                Ok(_) => written(w, idx, v),
                            }
                        }
                        6 => {
                            // the process dies at a write, or right after the last one
                            let at = sim.choose(w.depth as u64 + 1);
                            sim.note_fault("crash-at-write");
                            w.disk.plan.borrow_mut().die_at_write = Some(at);
                            let v = value(sim);
                            let (tree, disk) = (&mut w.tree, &mut w.disk);
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tree.update(&idx, v.clone(), disk)));
                            w.disk.healthy();
                            match r {
                                Ok(Ok(_)) => {
                                    if sim.coin() {
                                        written(w, idx, v);
                                    } // otherwise the new root was never recorded
                                }
                                Ok(Err(e)) => sim.violate("update-refused", format!("an update failed on healthy storage: {}", e)),
                                Err(p) => {
                                    let crash = p.downcast_ref::<String>().map(|s| s == CRASH).unwrap_or(false);
                                    sim.check(crash, "panic:update", || "update panicked".into());
                                }
                            }
                            restart(sim, w);
                            let (k, last) = (some_index(sim, w), w.past.len() - 1);
                            read(sim, w, last, &k);
                            sim.probe("crashed");
                        }
                        7 => {
                            // a write is lost silently: what the new root cannot reach is an error, never
                            // another value, and going back to the old root and trying again heals it
                            let at = sim.choose(w.depth as u64 + 1);
                            sim.note_fault("lost-write");
                            let v = value(sim);
                            let before = w.tree.root.clone();
                            w.disk.plan.borrow_mut().lose_write = Some(at);
                            let (tree, disk) = (&mut w.tree, &mut w.disk);
                            sim.must("update", || tree.update(&idx, v.clone(), disk));
                            let lost = w.disk.plan.borrow().lost;
                            w.disk.healthy();
                            let mut m = w.model.clone();
                            m.insert(idx.to_bytes(), (idx.clone(), v.clone()));
                            for _ in 0..3 {
                                let k = if sim.coin() { idx.clone() } else { some_index(sim, w) };
                                let t = &w.tree;
                                let d = &w.disk;
                                if let Ok(x) = sim.no_panic("get", || t.get(&k, &mut None, d)) {
                                    sim.check(x == want(&m, &k), "wrong-value-read", || "after a lost write a leaf reads back another value".into());
                                }
                            }
                            if lost > 0 {
                                let after = w.tree.root.clone();
                                w.tree.root = before;
                                let (tree, disk) = (&mut w.tree, &mut w.disk);
                                let r = sim.must("update", || tree.update(&idx, v.clone(), disk));
                                sim.check(r == after, "root-differs", || "the same update made twice gives two roots".into());
                            }
                            written(w, idx, v);
                            sim.probe("lost-write-healed");
                        }
                        8 => {
                            // a stored node rots: no proof for a wrong value
                            let keys: Vec<Key> = w.disk.map.keys().cloned().collect();
                            if keys.is_empty() {
                                continue;
                            }
                            let k = keys[sim.pick(keys.len())].clone();
                            let good = w.disk.map[&k].clone();
                            sim.note_fault("bit-rot");
                            let j = sim.pick($n);
                            let x = value(sim);
                            w.disk.map.get_mut(&k).unwrap()[j] = x;
                            let mut p = Some(vec![]);
                            let (t, d) = (&w.tree, &w.disk);
                            if let Ok(v) = sim.no_panic("get", || t.get(&idx, &mut p, d)) {
                                let p = p.unwrap();
                                let ok = sim.no_panic("verify_proof", || t.verify_proof(&idx, &v, &p, None));
                                if matches!(ok, Ok(true)) {
                                    sim.check(v == want(&w.model, &idx), "rotten-value-proved", || "damaged storage gave a proof for a value never written".into());
                                }
                            }
                            w.disk.map.insert(k, good);
                            sim.probe("rot-examined");
                        }
                        9 => restart(sim, w),
                        _ => {
                            let at = sim.pick(w.past.len());
                            read(sim, w, at, &idx);
                        }
                    }
                }
                // at the end: every leaf at the last root, some at older roots
                let known = w.known.clone();
                for k in known.iter() {
                    let at = if sim.coin() { w.past.len() - 1 } else { sim.pick(w.past.len()) };
                    read(sim, w, at, k);
                }
                // the root depends on the contents only
                let mut items: Vec<(FieldElement, FieldElement)> = w.model.values().cloned().collect();
                sim.shuffle(&mut items);
                let mut disk = Disk::<$n>::new();
                let (hash, depth) = (w.hash, w.depth);
                let mut t = sim.must("new tree", || $tree::new(hash, depth, &mut disk));
                for (i, v) in items.iter() {
                    if sim.chance(200) {
                        let x = value(sim);
                        sim.must("update", || t.update(i, x.clone(), &mut disk));
                    }
                    if v.is_zero() && sim.coin() && t.get(i, &mut None, &disk).map(|x| x.is_zero()).unwrap_or(false) {
                        continue;
                    }
                    sim.must("update", || t.update(i, v.clone(), &mut disk));
                }
                sim.check(t.root == w.past.last().unwrap().0, "root-depends-on-order", || format!("the same {} leaves written in another order give another root", items.len()));
                sim.probe("rebuilt");
                // and agrees with the tree computed directly
                if w.depth <= 3 {
                    let mut level: Vec<FieldElement> = vec![zero(); ($n as usize).pow(w.depth as u32)];
                    for (i, v) in w.model.values() {
                        let b = i.to_bytes();
                        let l = b.len();
                        let at = (b[l - 1] as usize) + 256 * (b[l - 2] as usize);
                        level[at] = v.clone();
                    }
                    while level.len() > 1 {
                        level = level.chunks($n).map(|c| w.hash.hash(c.to_vec()).unwrap()).collect();
                    }
                    sim.check(level[0] == w.past.last().unwrap().0, "root-not-of-contents", || "the root is not the hash of the leaves".into());
                    sim.probe("recomputed");
                }
                // over the library's own storage
                if sim.chance(300) {
                    let mut db = InMemoryHashDb::<[FieldElement; $n]>::new();
                    let mut t = sim.must("new tree", || $tree::new(hash, depth, &mut db));
                    for (i, v) in items.iter() {
                        sim.must("update", || t.update(i, v.clone(), &mut db));
                    }
                    for (i, v) in items.iter() {
                        let x = sim.must("get", || t.get(i, &mut None, &db));
                        sim.check(x == *v, "wrong-value-read", || "over the in-memory storage a leaf reads back another value".into());
                    }
                    sim.check(t.root == w.past.last().unwrap().0, "root-depends-on-order", || "over the in-memory storage the root differs".into());
                    sim.probe("in-memory");
                }
            }
        }
    };
}

tree_module!(four, VanillaSparseMerkleTree4, Arity4MerkleTreeHash, 4, 2);
tree_module!(eight, VanillaSparseMerkleTree8, Arity8MerkleTreeHash, 8, 3);

fn depth(sim: &mut Sim, arity_bits: usize) -> usize {
    match sim.choose(10) {
        0 => 0,
        1 => 1,
        2 => *sim.of(&[12usize, 32, 240 / arity_bits, 254 / arity_bits, 256 / arity_bits + 1]),
        _ => 2 + sim.pick(4),
    }
}
pub fn long(sim: &mut Sim) {
    let ops = 10 + sim.pick(40);
    if sim.coin() {
        let d = depth(sim, 2);
        let mut w = four::make(sim, &Plain, d);
        four::history(sim, &mut w, ops);
    } else {
        let d = depth(sim, 3);
        let mut w = eight::make(sim, &Plain, d);
        eight::history(sim, &mut w, ops);
    }
}
fn sbox(sim: &mut Sim) -> SboxType {
    // not Cube: it is no permutation of this field, see `cube`
    if sim.coin() {
        SboxType::Quint
    } else {
        SboxType::Inverse
    }
}
pub fn poseidon(sim: &mut Sim) {
    let sb = sbox(sim);
    let d = 1 + sim.pick(3);
    if sim.coin() {
        let params = sim.must("PoseidonParams::new", || PoseidonParams::new(5, 4, 4, 56));
        let h = PoseidonHash4 { params: &params, sbox: &sb };
        let mut w = four::make(sim, &h, d);
        four::history(sim, &mut w, 8);
    } else {
        let params = sim.must("PoseidonParams::new", || PoseidonParams::new(9, 4, 4, 56));
        let h = PoseidonHash8 { params: &params, sbox: &sb };
        let mut w = eight::make(sim, &h, d);
        eight::history(sim, &mut w, 6);
    }
    sim.probe("poseidon");
}
/// A leaf that would replace another under the cube: (x + k)^3 is the same for x + k times a cube
/// root of one, which this field has.
pub fn cube(sim: &mut Sim) {
    let sb = SboxType::Cube;
    let params = sim.must("PoseidonParams::new", || PoseidonParams::new(5, 4, 4, 56));
    let h = PoseidonHash4 { params: &params, sbox: &sb };
    let mut disk = Disk::<4>::new();
    let mut t = sim.must("new tree", || VanillaSparseMerkleTree4::new(&h, 1, &mut disk));
    let i = sim.choose(4);
    let idx = FieldElement::from(i);
    let v = value(sim);
    sim.must("update", || t.update(&idx, v.clone(), &mut disk));
    let mut p = Some(vec![]);
    sim.must("get", || t.get(&idx, &mut p, &disk));
    let p = p.unwrap();
    // a cube root of one: g^((r-1)/3)
    let third = FieldElement::minus_one() * FieldElement::from(3u64).inverse();
    let mut w = FieldElement::one();
    let mut g = 2u64;
    while w.is_one() {
        w = FieldElement::from(g).pow(&third);
        g += 1;
    }
    let is_root = (&w.square() * &w).is_one();
    sim.check(is_root, "harness", || "no cube root of one".into());
    let k = params.round_keys[1 + i as usize].clone();
    let v2 = (&v + &k) * &w - &k;
    sim.absorb(&v2.to_bytes());
    if v2 != v {
        let ok = sim.no_panic("verify_proof", || t.verify_proof(&idx, &v2, &p, None));
        sim.check(!matches!(ok, Ok(true)), "cube-collision", || "with the cube as S-box a proof for one leaf value verifies for another".into());
    }
    sim.probe("cube-examined");
}
