//! C20: delegated credential chains and attribute tokens over them.
use crate::bbsx::in_this_thread;
use crate::ps::{json, scalar};
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use amcl_wrapper::group_elem_g2::{G2Vector, G2};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json as js, Value};
use simcore::{ev, Net, NetCfg, Sim, Tier};
use std::collections::HashSet;
use zmix::signatures::delg_cred_cdd::attribute_token::*;
use zmix::signatures::delg_cred_cdd::groth_sig::*;
use zmix::signatures::delg_cred_cdd::issuer::*;

#[derive(Clone)]
struct World {
    p1: Groth1SetupParams,
    p2: Groth2SetupParams,
    label: Vec<u8>,
}
fn world(sim: &mut Sim) -> World {
    let n = 1 + sim.pick(4);
    let m = if sim.chance(700) { n } else { 1 + sim.pick(4) };
    let l = sim.pick(10);
    let label = sim.bytes(l);
    let mut w = World { p1: GrothS1::setup(n, &label), p2: GrothS2::setup(m, &label), label: label.clone() };
    sim.check(w.p1.y.len() == n && w.p2.y.len() == m, "parameters-size", || "other number of generators".into());
    if sim.chance(200) {
        w.p1 = json(sim, "Groth1SetupParams json", &w.p1);
        w.p2 = json(sim, "Groth2SetupParams json", &w.p2);
    }
    w
}
pub fn g1(sim: &mut Sim) -> G1 {
    match sim.choose(12) {
        0 => G1::identity(),
        1 => G1::generator(),
        2 => {
            let l = sim.pick(9);
            G1::from_msg_hash(&sim.bytes(l))
        }
        _ => G1::random(),
    }
}
pub fn g2(sim: &mut Sim) -> G2 {
    match sim.choose(12) {
        0 => G2::identity(),
        1 => G2::generator(),
        2 => {
            let l = sim.pick(9);
            G2::from_msg_hash(&sim.bytes(l))
        }
        _ => G2::random(),
    }
}
fn g1s(sim: &mut Sim, n: usize) -> Vec<G1> {
    let mut v: Vec<G1> = vec![];
    for _ in 0..n {
        let x = if !v.is_empty() && sim.chance(100) { v[sim.pick(v.len())].clone() } else { g1(sim) };
        v.push(x);
    }
    v
}
fn g2s(sim: &mut Sim, n: usize) -> Vec<G2> {
    let mut v: Vec<G2> = vec![];
    for _ in 0..n {
        let x = if !v.is_empty() && sim.chance(100) { v[sim.pick(v.len())].clone() } else { g2(sim) };
        v.push(x);
    }
    v
}

/// Who holds which key: level 0 is the root.
#[derive(Clone)]
struct Keys {
    even: Vec<(Sigkey, EvenLevelVerkey)>,
    odd: Vec<(Sigkey, OddLevelVerkey)>,
}
fn keys(sim: &mut Sim, w: &World, l: usize) -> Keys {
    let even = (0..=l / 2)
        .map(|i| sim.no_panic("keygen", || if i == 0 { RootIssuer::keygen(&w.p1) } else { EvenLevelIssuer::keygen(&w.p1) }))
        .collect();
    let odd = (0..(l + 1) / 2).map(|_| sim.no_panic("keygen", || OddLevelIssuer::keygen(&w.p2))).collect();
    Keys { even, odd }
}
impl Keys {
    fn evens(&self) -> Vec<EvenLevelVerkey> {
        self.even.iter().map(|k| k.1.clone()).collect()
    }
    fn odds(&self) -> Vec<OddLevelVerkey> {
        self.odd.iter().map(|k| k.1.clone()).collect()
    }
    fn secret(&self, level: usize) -> &Sigkey {
        if level % 2 == 0 {
            &self.even[level / 2].0
        } else {
            &self.odd[level / 2].0
        }
    }
}
enum Link {
    Odd(CredLinkOdd),
    Even(CredLinkEven),
}
/// The holder of `level` delegates to the next.
fn delegate(sim: &mut Sim, w: &World, k: &Keys, level: usize) -> Link {
    if level % 2 == 0 {
        let n = sim.pick(w.p1.y.len());
        let a: G1Vector = g1s(sim, n).into();
        let vk = k.odd[level / 2].1.clone();
        let sk = k.secret(level).clone();
        let root = level == 0 && sim.coin();
        Link::Odd(sim.must("delegate", || if root { RootIssuer::delegate(a, vk, &sk, &w.p1) } else { EvenLevelIssuer::new(level)?.delegate(a, vk, &sk, &w.p1) }))
    } else {
        let n = sim.pick(w.p2.y.len());
        let a: G2Vector = g2s(sim, n).into();
        let vk = k.even[level / 2 + 1].1.clone();
        let sk = k.secret(level).clone();
        Link::Even(sim.must("delegate", || OddLevelIssuer::new(level)?.delegate(a, vk, &sk, &w.p2)))
    }
}
fn extend(sim: &mut Sim, w: &World, k: &Keys, c: &mut CredChain, link: Link) {
    let level = c.size();
    let ok = match link {
        Link::Odd(x) => {
            sim.must("extend", || c.extend_with_odd(x));
            sim.no_panic("verify_last", || c.verify_last_odd_delegation(&k.odd[level / 2].1, &k.even[level / 2].1, &w.p1))
        }
        Link::Even(x) => {
            sim.must("extend", || c.extend_with_even(x));
            sim.no_panic("verify_last", || c.verify_last_even_delegation(&k.even[level / 2 + 1].1, &k.odd[level / 2].1, &w.p2))
        }
    };
    sim.check(matches!(ok, Ok(true)), "honest-link-rejected", || format!("the link of level {} does not verify: {:?}", level + 1, ok));
}
fn quick_chain(sim: &mut Sim, w: &World, k: &Keys, l: usize) -> CredChain {
    let mut c = CredChain::new();
    for i in 0..l {
        match delegate(sim, w, k, i) {
            Link::Odd(x) => sim.must("extend", || c.extend_with_odd(x)),
            Link::Even(x) => sim.must("extend", || c.extend_with_even(x)),
        }
    }
    c
}
fn verdicts(sim: &mut Sim, w: &World, c: &CredChain, e: &[EvenLevelVerkey], o: &[OddLevelVerkey]) -> (bool, bool) {
    let a = sim.no_panic("verify_delegations", || c.verify_delegations(e.iter().collect(), o.iter().collect(), &w.p1, &w.p2));
    let b = sim.no_panic("verify_delegations_batched", || c.verify_delegations_batched(e.iter().collect(), o.iter().collect(), &w.p1, &w.p2));
    (matches!(a, Ok(true)), matches!(b, Ok(true)))
}
fn expect(sim: &mut Sim, w: &World, c: &CredChain, e: &[EvenLevelVerkey], o: &[OddLevelVerkey], want: bool, what: &str) {
    let (a, b) = verdicts(sim, w, c, e, o);
    if want {
        sim.check(a && b, "honest-chain-rejected", || format!("{}: chain of {} verifies {} one by one, {} in batch", what, c.size(), a, b));
    } else {
        sim.check(!a, "accepted-chain", || format!("{}: accepted link by link", what));
        sim.check(!b, "accepted-chain-in-batch", || format!("{}: accepted in batch", what));
    }
}
fn same_sizes(c: &CredChain) -> Vec<usize> {
    (1..=c.size()).map(|i| if i % 2 == 1 { c.odd_links[i / 2].attribute_count() } else { c.even_links[i / 2 - 1].attribute_count() }).collect()
}

// ---- chains ----------------------------------------------------------------------------------

/// Links are requested and delivered over a faulty network; holders restart.
pub fn chain(sim: &mut Sim) {
    in_this_thread(sim);
    let w = world(sim);
    let l = 1 + sim.pick(if sim.tier == Tier::Quick { 4 } else { 7 });
    let mut k = keys(sim, &w, l);
    let cfg = NetCfg::swarm(sim, false);
    let mut net = Net::new(cfg);
    let mut chains: Vec<Option<CredChain>> = vec![None; l + 1];
    chains[0] = Some(CredChain::new());
    let mut round = 0;
    while chains[l].is_none() {
        round += 1;
        sim.check(round < 200, "chain-stuck", || "delegation did not finish after 200 rounds of retries".into());
        if round > 4 {
            net.heal();
        }
        for i in 1..=l {
            if chains[i].is_none() {
                let who = sim.chance(900);
                if who {
                    net.send(sim, i, i - 1, "request", vec![i as u8]);
                }
            }
        }
        while let Some(m) = net.next(sim) {
            if m.kind == "request" {
                let have = match &chains[m.to] {
                    Some(c) => c.clone(),
                    None => continue, // not yet delegated to
                };
                if sim.chance(200) {
                    // the delegator restarts from its stored key
                    sim.note_fault("crash.restart");
                    if m.to % 2 == 0 {
                        k.even[m.to / 2] = json(sim, "key json", &k.even[m.to / 2]);
                    } else {
                        k.odd[m.to / 2] = json(sim, "key json", &k.odd[m.to / 2]);
                    }
                }
                let link = delegate(sim, &w, &k, m.to);
                let v = match link {
                    Link::Odd(x) => js!({"chain": have, "odd": x}),
                    Link::Even(x) => js!({"chain": have, "even": x}),
                };
                net.send(sim, m.to, m.from, "link", serde_json::to_vec(&v).unwrap());
            } else {
                if chains[m.to].is_some() {
                    sim.probe("link again");
                    continue;
                }
                let mut v: Value = serde_json::from_slice(&m.body).unwrap();
                let mut c: CredChain = sim.must("chain json", || serde_json::from_value(v["chain"].take()));
                sim.check(c.size() == m.to - 1, "chain-size", || format!("{} links at level {}", c.size(), m.to));
                let link = if m.to % 2 == 1 {
                    Link::Odd(sim.must("link json", || serde_json::from_value(v["odd"].take())))
                } else {
                    Link::Even(sim.must("link json", || serde_json::from_value(v["even"].take())))
                };
                extend(sim, &w, &k, &mut c, link);
                chains[m.to] = Some(c);
            }
        }
        sim.state_str(&format!("{:?}", chains.iter().map(|c| c.is_some()).collect::<Vec<_>>()));
    }
    let c = chains[l].take().unwrap();
    ev!(sim, "chain of {} with {:?}", l, same_sizes(&c));
    sim.absorb(&serde_json::to_vec(&c).unwrap());
    let (e, o) = (k.evens(), k.odds());
    expect(sim, &w, &c, &e, &o, true, "as built");
    for n in 0..=l + 1 {
        let t = sim.no_panic("get_truncated", || c.get_truncated(n));
        match t {
            Ok(t) => {
                sim.check(n <= l && t.size() == n, "truncated", || format!("truncated to {} of {} has {}", n, l, t.size()));
                let (a, b) = (e[..(n / 2 + 1).min(e.len())].to_vec(), o[..(n + 1) / 2].to_vec());
                if n > 0 {
                    expect(sim, &w, &t, &a, &b, true, "truncated");
                } else {
                    expect(sim, &w, &t, &a, &b, false, "no links");
                }
            }
            Err(_) => sim.check(n > l, "truncated", || format!("{} of {} links refused", n, l)),
        }
    }
    sim.probe("chain");
    tampered(sim, &w, &k, &c);
}

/// Something about a chain is not genuine.
fn tampered(sim: &mut Sim, w: &World, k: &Keys, c: &CredChain) {
    let l = c.size();
    let rounds = 1 + sim.pick(4);
    for _ in 0..rounds {
        let (mut e, mut o) = (k.evens(), k.odds());
        let mut d = c.clone();
        let mut w1 = w.clone();
        let level = 1 + sim.pick(l);
        let odd = level % 2 == 1;
        let at = (level - 1) / 2;
        macro_rules! link {
            ($f:ident) => {
                if odd {
                    let x = &mut d.odd_links[at];
                    $f!(x, g1, G1Vector, G1)
                } else {
                    let x = &mut d.even_links[at];
                    $f!(x, g2, G2Vector, G2)
                }
            };
        }
        let what = match sim.choose(14) {
            0 => {
                macro_rules! f {
                    ($x:ident, $g:ident, $v:ident, $t:ident) => {{
                        let mut a = $x.attributes.as_slice().to_vec();
                        let i = sim.pick(a.len());
                        let n = $g(sim);
                        if a[i] == n {
                            continue;
                        }
                        a[i] = n;
                        $x.attributes = a.into();
                    }};
                }
                link!(f);
                "an attribute altered"
            }
            1 => {
                macro_rules! f {
                    ($x:ident, $g:ident, $v:ident, $t:ident) => {{
                        let mut a = $x.attributes.as_slice().to_vec();
                        let mut t = $x.signature.T.as_slice().to_vec();
                        let both = sim.coin();
                        let at = sim.pick(a.len());
                        match sim.choose(4) {
                            0 => {
                                a.remove(at);
                                if both {
                                    t.remove(at);
                                }
                            }
                            1 => {
                                let n = $g(sim);
                                a.insert(at, n.clone());
                                if both {
                                    t.insert(at, n);
                                }
                            }
                            2 => {
                                if both {
                                    t.pop();
                                } else {
                                    t.push($t::identity());
                                }
                            }
                            _ => {
                                let j = sim.pick(a.len());
                                if a[at] == a[j] {
                                    continue;
                                }
                                a.swap(at, j);
                                if both {
                                    t.swap(at, j);
                                }
                            }
                        }
                        $x.attributes = a.into();
                        $x.signature.T = t.into();
                    }};
                }
                link!(f);
                "attributes added, removed or swapped"
            }
            2 => {
                macro_rules! f {
                    ($x:ident, $g:ident, $v:ident, $t:ident) => {{
                        match sim.choose(3) {
                            0 => {
                                let two = FieldElement::from(2u64);
                                $x.signature.R = &$x.signature.R * &two
                            }
                            1 => {
                                let n = $g(sim);
                                if n == $x.signature.S {
                                    continue;
                                }
                                $x.signature.S = n
                            }
                            _ => {
                                let mut t = $x.signature.T.as_slice().to_vec();
                                let i = sim.pick(t.len());
                                let n = $g(sim);
                                if t[i] == n {
                                    continue;
                                }
                                t[i] = n;
                                $x.signature.T = t.into()
                            }
                        }
                    }};
                }
                link!(f);
                "a signature altered"
            }
            3 => {
                let n = *sim.of(&[0usize, 1, 2, 3, level + 1, level + 2, level.wrapping_sub(2), usize::MAX, usize::MAX - 1]);
                if n == level {
                    continue;
                }
                if odd {
                    d.odd_links[at].level = n
                } else {
                    d.even_links[at].level = n
                }
                "another level"
            }
            4 => {
                // a link from another chain: same shape, same root or not
                let mut k2 = keys(sim, w, l);
                if sim.coin() {
                    k2.even[0] = k.even[0].clone();
                }
                if level == 1 && sim.coin() {
                    // the root did sign it, for someone else
                    k2.even[0] = k.even[0].clone();
                }
                let c2 = quick_chain(sim, w, &k2, l);
                if odd {
                    d.odd_links[at] = c2.odd_links[at].clone()
                } else {
                    d.even_links[at] = c2.even_links[at].clone()
                }
                if sim.coin() {
                    // and the key of its holder
                    if odd {
                        o[at] = k2.odd[at].1.clone()
                    } else {
                        e[at + 1] = k2.even[at + 1].1.clone()
                    }
                    let root = level == 1 && k2.even[0].0 == k.even[0].0;
                    if root && l == 1 {
                        continue; // genuine
                    }
                    // the next link was not made by that holder
                    if root {
                        "a link of another chain whose holder did not delegate further"
                    } else {
                        "a link of another chain with its key"
                    }
                } else {
                    "a link of another chain"
                }
            }
            5 => {
                match sim.choose(6) {
                    0 => {
                        let i = sim.pick(e.len());
                        e[i] = EvenLevelIssuer::keygen(&w.p1).1
                    }
                    1 => {
                        let i = sim.pick(o.len());
                        o[i] = OddLevelIssuer::keygen(&w.p2).1
                    }
                    2 => {
                        e.pop();
                    }
                    3 => {
                        o.pop();
                    }
                    4 => {
                        let x = e[sim.pick(e.len())].clone();
                        e.push(x)
                    }
                    _ => {
                        if e.len() < 2 {
                            continue;
                        }
                        e.reverse()
                    }
                }
                "other keys"
            }
            6 => {
                // links moved
                let (a, b) = (d.odd_links.len(), d.even_links.len());
                match sim.choose(4) {
                    0 if a > 1 => d.odd_links.swap(0, a - 1),
                    1 if b > 1 => d.even_links.swap(0, b - 1),
                    2 => {
                        let x = d.odd_links[at.min(a - 1)].clone();
                        d.odd_links.push(x)
                    }
                    3 if b > 0 => {
                        let x = d.even_links[b - 1].clone();
                        d.even_links.push(x)
                    }
                    _ => continue,
                }
                if sim.coin() && d.size() > l {
                    // with as many keys
                    if d.size() % 2 == 0 {
                        let x = e[e.len() - 1].clone();
                        e.push(x)
                    } else {
                        let x = o[o.len() - 1].clone();
                        o.push(x)
                    }
                }
                "links moved or repeated"
            }
            7 => {
                // dropped
                let key = level != l && sim.coin();
                if odd {
                    d.odd_links.remove(at);
                    if key {
                        o.remove(at);
                    }
                } else {
                    d.even_links.remove(at);
                    if key {
                        e.remove(at + 1);
                    }
                }
                "a link dropped"
            }
            8 | 9 => {
                // two alterations that cancel out where both checks weigh the same
                let x = FieldElement::from(1 + sim.choose(5));
                let other = 1 + sim.pick(l);
                if !cancelling(sim, &mut d, level, other, &x) {
                    continue;
                }
                "two alterations that cancel out"
            }
            10 => {
                let other = [&w.label[..], &b"x"[..]].concat();
                if sim.coin() || l == 1 {
                    w1.p1 = GrothS1::setup(w.p1.y.len(), &other);
                } else {
                    w1.p2 = GrothS2::setup(w.p2.y.len(), &other);
                }
                "other parameters"
            }
            11 => {
                // made by someone else than the holder of the previous link
                if odd {
                    let a: Vec<G1> = d.odd_links[at].attributes.as_slice().to_vec();
                    let sk = sim.of(&[FieldElement::random(), FieldElement::one(), k.secret(level).clone()]).clone();
                    if sk == *k.secret(level - 1) {
                        continue;
                    }
                    let s = sim.must("sign", || Groth1Sig::new(&a, &sk, &w.p1));
                    d.odd_links[at].signature = s;
                } else {
                    let a: Vec<G2> = d.even_links[at].attributes.as_slice().to_vec();
                    let sk = sim.of(&[FieldElement::random(), FieldElement::one(), k.secret(level).clone()]).clone();
                    if sk == *k.secret(level - 1) {
                        continue;
                    }
                    let s = sim.must("sign", || Groth2Sig::new(&a, &sk, &w.p2));
                    d.even_links[at].signature = s;
                }
                "signed by another"
            }
            12 => {
                w1 = World { p1: w.p1.clone(), p2: w.p2.clone(), label: vec![] };
                // fewer generators than attributes
                if odd {
                    let n = d.odd_links[at].attribute_count();
                    w1.p1.y = w.p1.y.as_slice()[..n - 1].to_vec().into();
                } else {
                    let n = d.even_links[at].attribute_count();
                    w1.p2.y = w.p2.y.as_slice()[..n - 1].to_vec().into();
                }
                "fewer generators than attributes"
            }
            _ => {
                // a genuine signature stays one when randomized
                let r = loop {
                    let r = scalar(sim);
                    if !r.is_zero() {
                        break r;
                    }
                };
                if odd {
                    d.odd_links[at].signature = sim.no_panic("randomize", || d.odd_links[at].signature.randomize(&r))
                } else {
                    d.even_links[at].signature = sim.no_panic("randomize", || d.even_links[at].signature.randomize(&r))
                }
                expect(sim, w, &d, &e, &o, true, "randomized");
                sim.probe("randomized");
                continue;
            }
        };
        expect(sim, &w1, &d, &e, &o, false, what);
        if sim.chance(300) {
            let _ = sim.no_panic("get_truncated", || d.get_truncated(l));
        }
        sim.probe("tampered");
        ev!(sim, "{}", what);
    }
}
/// Alters one pairing equation of each of two links (or two of one) by factors that are inverse.
fn cancelling(sim: &mut Sim, d: &mut CredChain, a: usize, b: usize, x: &FieldElement) -> bool {
    // an odd link: e(T_i, -R) with R in G2; an even one: e(-R, T_i) with R in G1
    let nx = x.negation();
    let pick = |sim: &mut Sim, n: usize| sim.pick(n);
    match (a % 2 == 1, b % 2 == 1) {
        (true, false) | (false, true) => {
            let (o, e) = if a % 2 == 1 { (a / 2, b / 2 - 1) } else { (b / 2, a / 2 - 1) };
            let (r1, r2) = (d.odd_links[o].signature.R.clone(), d.even_links[e].signature.R.clone());
            let mut t = d.odd_links[o].signature.T.as_slice().to_vec();
            let mut u = d.even_links[e].signature.T.as_slice().to_vec();
            let i = pick(sim, t.len());
            // the same position, or another
            let j = if sim.coin() && i < u.len() { i } else { pick(sim, u.len()) };
            t[i] = &t[i] + &r2 * x;
            u[j] = &u[j] + &r1 * &nx;
            d.odd_links[o].signature.T = t.into();
            d.even_links[e].signature.T = u.into();
        }
        (true, true) => {
            let mut t = d.odd_links[a / 2].signature.T.as_slice().to_vec();
            if a != b || t.len() < 2 {
                return false;
            }
            let i = pick(sim, t.len());
            let j = (i + 1 + pick(sim, t.len() - 1)) % t.len();
            let g = G1::generator();
            t[i] = &t[i] + &g * x;
            t[j] = &t[j] + &g * &nx;
            d.odd_links[a / 2].signature.T = t.into();
        }
        (false, false) => {
            let mut t = d.even_links[a / 2 - 1].signature.T.as_slice().to_vec();
            if a != b || t.len() < 2 {
                return false;
            }
            let g = G2::generator();
            let i = pick(sim, t.len());
            if sim.coin() {
                let j = (i + 1 + pick(sim, t.len() - 1)) % t.len();
                t[j] = &t[j] + &g * &nx;
            } else {
                let s = d.even_links[a / 2 - 1].signature.S.clone();
                d.even_links[a / 2 - 1].signature.S = &s + &g * &nx;
            }
            t[i] = &t[i] + &g * x;
            d.even_links[a / 2 - 1].signature.T = t.into();
        }
    }
    true
}

// ---- the signatures on their own -------------------------------------------------------------

macro_rules! groth {
    ($name:ident, $s:ident, $sig:ident, $vk:ident, $g:ident, $gs:ident, $t:ident, $gen:ident) => {
        fn $name(sim: &mut Sim) {
            let n = sim.pick(5);
            let l = sim.pick(10);
            let label = sim.bytes(l);
            let p = $s::setup(n, &label);
            let (sk, vk) = if n == 0 { (FieldElement::random(), $vk(p.$gen.clone())) } else { $s::keygen(&p) };
            let k = sim.pick(n + 3);
            let m = $gs(sim, k);
            let s = sim.no_panic("sign", || $sig::new(&m, &sk, &p));
            let s = match s {
                Ok(s) => s,
                Err(_) => {
                    sim.check(k > n || n == 0, "honest-sign-refused", || format!("{} messages refused, {} supported", k, n));
                    sim.probe("too many messages");
                    return;
                }
            };
            sim.check(k <= n, "signed-too-many", || format!("{} messages signed, {} supported", k, n));
            let s: $sig = if sim.coin() { json(sim, "signature json", &s) } else { s };
            let both = |sim: &mut Sim, s: &$sig, m: &[$t], vk: &$vk| {
                let a = sim.no_panic("verify", || s.verify(m, vk, &p));
                let b = sim.no_panic("verify_batch", || s.verify_batch(m, vk, &p));
                (matches!(a, Ok(true)), matches!(b, Ok(true)))
            };
            let (a, b) = both(sim, &s, &m, &vk);
            sim.check(a && b, "honest-signature-rejected", || format!("{} messages: {} one by one, {} in batch", k, a, b));
            for _ in 0..1 + sim.pick(3) {
                let (mut s1, mut m1, mut v1) = (s.clone(), m.clone(), vk.clone());
                match sim.choose(7) {
                    0 if k > 0 => {
                        let i = sim.pick(k);
                        let x = $g(sim);
                        if m1[i] == x {
                            continue;
                        }
                        m1[i] = x;
                    }
                    1 if k > 0 => {
                        m1.pop();
                    }
                    2 => {
                        let x = $g(sim);
                        m1.push(x)
                    }
                    3 => v1 = $s::keygen(&p).1,
                    4 => {
                        let mut t = s1.T.as_slice().to_vec();
                        if sim.coin() {
                            t.push($t::identity());
                        } else if t.pop().is_none() {
                            continue;
                        }
                        s1.T = t.into();
                    }
                    5 => {
                        s1.S = $t::identity();
                    }
                    6 if k > 1 => {
                        let mut t = s1.T.as_slice().to_vec();
                        let g = $t::generator();
                        let (i, j) = (sim.pick(k), sim.pick(k));
                        if i == j {
                            continue;
                        }
                        t[i] = &t[i] + &g;
                        t[j] = &t[j] - &g;
                        s1.T = t.into();
                    }
                    _ => continue,
                }
                let (a, b) = both(sim, &s1, &m1, &v1);
                sim.check(!a, "forged-signature", || format!("accepted one by one ({} messages)", k));
                sim.check(!b, "forged-signature-in-batch", || format!("accepted in batch ({} messages)", k));
                sim.probe("altered signature");
            }
            // knowledge of the key
            let c = scalar(sim);
            let pr = sim.no_panic("proof of key", || {
                let com = $vk::initiate_proof_of_knowledge_of_sigkey(&p);
                $vk::finish_proof_of_knowledge_of_sigkey(com, sk.clone(), &c)
            });
            let ok = sim.no_panic("verify proof of key", || $vk::verify_proof_of_knowledge_of_sigkey(&pr, &vk, &p, &c));
            sim.check(matches!(ok, Ok(true)), "honest-key-proof-rejected", || "a proof of knowledge of the key is rejected".into());
            let other = $s::keygen(&p).1;
            let c1 = &c + &FieldElement::one();
            let (ok1, ok2) = (
                sim.no_panic("verify proof of key", || $vk::verify_proof_of_knowledge_of_sigkey(&pr, &other, &p, &c)),
                sim.no_panic("verify proof of key", || $vk::verify_proof_of_knowledge_of_sigkey(&pr, &vk, &p, &c1)),
            );
            sim.check(!matches!(ok1, Ok(true)) || c.is_zero(), "accepted-key-proof", || "accepted for another key".into());
            sim.check(!matches!(ok2, Ok(true)), "accepted-key-proof", || "accepted for another challenge".into());
            sim.absorb(&serde_json::to_vec(&s).unwrap());
            sim.probe("signature");
        }
    };
}
groth!(groth1, GrothS1, Groth1Sig, Groth1Verkey, g1, g1s, G1, g2);
groth!(groth2, GrothS2, Groth2Sig, Groth2Verkey, g2, g2s, G2, g1);
pub fn groth(sim: &mut Sim) {
    in_this_thread(sim);
    if sim.coin() {
        groth1(sim)
    } else {
        groth2(sim)
    }
}

/// Levels of links that are appended.
pub fn levels(sim: &mut Sim) {
    in_this_thread(sim);
    let w = world(sim);
    let k = keys(sim, &w, 3);
    let mut c = CredChain::new();
    let (mut odd, mut even): (Vec<usize>, Vec<usize>) = (vec![], vec![]);
    let o = match delegate(sim, &w, &k, 0) {
        Link::Odd(x) => x,
        _ => unreachable!(),
    };
    let e = match delegate(sim, &w, &k, 1) {
        Link::Even(x) => x,
        _ => unreachable!(),
    };
    for _ in 0..2 + sim.pick(8) {
        let near = odd.len() * 2 + 1;
        let lv = *sim.of(&[0usize, 1, 2, 3, 4, 5, near, near + 1, near.saturating_sub(1), even.len() * 2 + 2, usize::MAX, usize::MAX - 1, usize::MAX - 2]);
        if sim.coin() {
            let mut x = o.clone();
            x.level = lv;
            let r = sim.no_panic("extend_with_odd", || c.extend_with_odd(x));
            let want = lv == odd.len() * 2 + 1;
            sim.check(r.is_ok() == want, "levels", || format!("appending level {} after {:?}: {:?}", lv, odd, r));
            if want {
                odd.push(lv);
            }
        } else {
            let mut x = e.clone();
            x.level = lv;
            let r = sim.no_panic("extend_with_even", || c.extend_with_even(x));
            let want = lv == even.len() * 2 + 2;
            sim.check(r.is_ok() == want, "levels", || format!("appending level {} after {:?}: {:?}", lv, even, r));
            if want {
                even.push(lv);
            }
        }
        sim.check(c.odd_size() == odd.len() && c.even_size() == even.len() && c.size() == odd.len() + even.len(), "levels", || "sizes".into());
        // whatever the shape, nothing crashes
        let (ev, ov) = (k.evens(), k.odds());
        let _ = verdicts(sim, &w, &c, &ev, &ov);
        let n = sim.pick(c.size() + 2);
        let _ = sim.no_panic("get_truncated", || c.get_truncated(n));
        let _ = sim.no_panic("PrecompOnCredChain", || PrecompOnCredChain::new(&c, &w.p1, &w.p2));
        let lv = sim.pick(6);
        sim.check(EvenLevelIssuer::new(lv).is_ok() == (lv % 2 == 0) && OddLevelIssuer::new(lv).is_ok() == (lv % 2 == 1), "levels", || format!("issuer of level {}", lv));
    }
    // too many attributes
    let n = w.p1.y.len() + sim.pick(3);
    let a: G1Vector = g1s(sim, n).into();
    let r = sim.no_panic("delegate", || EvenLevelIssuer::new(0).unwrap().delegate(a, k.odd[0].1.clone(), &k.even[0].0, &w.p1));
    sim.check(r.is_err(), "levels", || format!("{} attributes with {} generators", n, w.p1.y.len()));
    ev!(sim, "{:?} {:?}", odd, even);
    sim.absorb(&serde_json::to_vec(&o).unwrap());
    sim.probe("levels");
}

// ---- attribute tokens ------------------------------------------------------------------------

struct Shown {
    comm: AttributeTokenComm,
    resp: AttributeTokenResp,
    challenge: FieldElement,
    revealed: Vec<HashSet<usize>>,
    extra: Vec<u8>,
}
fn gen_revealed(sim: &mut Sim, c: &CredChain) -> Vec<HashSet<usize>> {
    same_sizes(c)
        .into_iter()
        .map(|n| match sim.choose(4) {
            0 => HashSet::new(),
            1 => (0..n - 1).collect(),
            _ => sim.subset(n - 1, 500).into_iter().collect(),
        })
        .collect()
}
fn sorted(r: &[HashSet<usize>]) -> Vec<Vec<usize>> {
    r.iter()
        .map(|s| {
            let mut v: Vec<usize> = s.iter().copied().collect();
            v.sort();
            v
        })
        .collect()
}
fn show_token(sim: &mut Sim, w: &World, k: &Keys, c: &CredChain) -> Shown {
    let l = c.size();
    let mut at = AttributeToken::new(c, &w.p1, &w.p2);
    let revealed = gen_revealed(sim, c);
    if sim.chance(200) {
        // an attempt that is refused, or not used
        let mut r = revealed.clone();
        let i = sim.pick(l);
        match sim.choose(4) {
            0 => {
                r.pop();
            }
            1 => r.push(HashSet::new()),
            2 => {
                let x = same_sizes(c)[i] - 1 + sim.pick(3);
                r[i].insert(x);
            }
            _ => {}
        }
        let same = r == revealed;
        let x = sim.no_panic("commitment", || at.commitment(r));
        sim.check(x.is_ok() == same, "commitment-to-wrong-attributes", || "a commitment to attributes the chain does not have".into());
        sim.probe("commitment again");
    }
    let rv = revealed.clone();
    let comm = match sim.choose(3) {
        0 => sim.must("commitment", || at.commitment(rv)),
        1 => {
            let mut pre = PrecompOnSetupParams::new(&w.p1, &w.p2);
            if sim.coin() {
                pre = json(sim, "precomputed json", &pre);
            }
            sim.must("commitment with precomputation", || at.commitment_with_precomputation_on_setup_params(rv, &pre))
        }
        _ => {
            let pre = PrecompOnSetupParams::new(&w.p1, &w.p2);
            let mut pc = sim.must("PrecompOnCredChain", || PrecompOnCredChain::new(c, &w.p1, &w.p2));
            if sim.coin() {
                pc = json(sim, "precomputed json", &pc);
            }
            sim.must("commitment with precomputation", || at.commitment_with_precomputation(rv, &pre, &pc))
        }
    };
    let n = sim.pick(6);
    let extra = sim.bytes(n);
    let challenge = sim.no_panic("gen_challenge", || AttributeToken::gen_challenge(&comm, &k.even[0].1, extra.clone()));
    // the keys of all holders but the last
    let all = sim.coin();
    let ev = k.evens();
    let od = k.odds();
    let e: Vec<&EvenLevelVerkey> = ev[1..].iter().take(if all { usize::MAX } else { (l - 1) / 2 }).collect();
    let o: Vec<&OddLevelVerkey> = od.iter().take(if all { usize::MAX } else { l / 2 }).collect();
    let resp = sim.must("response", || at.response(&comm, k.secret(l), &challenge, e.clone(), o.clone()));
    if sim.chance(200) {
        // whatever is asked, no crash
        let mut cm = comm.clone();
        match sim.choose(5) {
            0 => {
                for x in cm.odd_level_revealed_attributes.iter_mut() {
                    x.insert(sim.pick(6), G1::generator());
                }
            }
            1 => cm.odd_level_revealed_attributes[0].clear(),
            2 => {
                cm.comms_t.pop();
            }
            3 => cm.odd_level_blinded_r = G2Vector::new(0),
            _ => cm.even_level_revealed_attributes.iter_mut().for_each(|x| x.clear()),
        }
        let (e, o) = (e.clone(), o.clone());
        let (e, o) = if sim.coin() { (e, o) } else { (vec![], vec![]) };
        let _ = sim.no_panic("response", || at.response(&cm, k.secret(l), &challenge, e, o));
        let at2 = AttributeToken::new(c, &w.p1, &w.p2);
        let r = sim.no_panic("response", || at2.response(&comm, k.secret(l), &challenge, ev[1..].iter().collect(), od.iter().collect()));
        sim.check(r.is_err(), "response-without-commitment", || "".into());
        sim.probe("odd responses");
    }
    Shown { comm, resp, challenge, revealed, extra }
}
fn accepts(sim: &mut Sim, w: &World, l: usize, ipk: &EvenLevelVerkey, s: &Shown) -> (bool, bool, Option<AttributeTokenComm>) {
    let a = sim.no_panic("reconstruct_commitment", || AttributeToken::reconstruct_commitment(l, &s.comm, &s.resp, &s.challenge, s.revealed.clone(), ipk, &w.p1, &w.p2));
    if w.p1.y.len() == 0 {
        // nothing to compute in advance
        return (a.is_ok(), a.is_ok(), None);
    }
    let mut pre = sim.no_panic("PrecompForCommitmentReconstitution", || PrecompForCommitmentReconstitution::new(ipk, &w.p1, &w.p2));
    if sim.chance(200) {
        pre = json(sim, "precomputed json", &pre);
    }
    let b = sim.no_panic("reconstruct_commitment_with_precomputed_vals", || {
        AttributeToken::reconstruct_commitment_with_precomputed_vals(l, &s.comm, &s.resp, &s.challenge, s.revealed.clone(), &w.p1, &w.p2, &pre)
    });
    let ok = |r: &AttributeTokenComm| AttributeToken::gen_challenge(r, ipk, s.extra.clone()) == s.challenge;
    let (x, y) = (a.as_ref().map(ok).unwrap_or(false), b.as_ref().map(ok).unwrap_or(false));
    (x, y, a.ok())
}
fn judge(sim: &mut Sim, w: &World, l: usize, ipk: &EvenLevelVerkey, s: &Shown, want: bool, what: &str) {
    let (a, b, _) = accepts(sim, w, l, ipk, s);
    if want {
        sim.check(a && b, "honest-token-rejected", || format!("{}: {} as is, {} with precomputed values; revealed {:?}", what, a, b, sorted(&s.revealed)));
    } else {
        sim.check(!a, "accepted-token", || format!("{}: accepted; revealed {:?}", what, sorted(&s.revealed)));
        sim.check(!b, "accepted-token-precomputed", || format!("{}: accepted with precomputed values", what));
    }
}
fn sent<T: Serialize + DeserializeOwned>(sim: &mut Sim, t: &T) -> T {
    json(sim, "token json", t)
}

pub fn token(sim: &mut Sim) {
    in_this_thread(sim);
    let w = world(sim);
    let l = 1 + sim.pick(if sim.tier == Tier::Quick { 3 } else { 6 });
    let k = keys(sim, &w, l);
    let c = quick_chain(sim, &w, &k, l);
    let ipk = k.even[0].1.clone();
    let mut s = show_token(sim, &w, &k, &c);
    ev!(sim, "token over {:?} revealing {:?}", same_sizes(&c), sorted(&s.revealed));
    if sim.chance(800) {
        s.comm = sent(sim, &s.comm);
        s.resp = sent(sim, &s.resp);
    }
    judge(sim, &w, l, &ipk, &s, true, "as shown");
    // what the verifier reads is what was issued
    for i in 1..=l {
        for j in &s.revealed[i - 1] {
            let same = if i % 2 == 1 {
                s.comm.odd_level_revealed_attributes[i / 2].get(j) == Some(&c.odd_links[i / 2].attributes[*j])
            } else {
                s.comm.even_level_revealed_attributes[i / 2 - 1].get(j) == Some(&c.even_links[i / 2 - 1].attributes[*j])
            };
            sim.check(same, "revealed-attribute", || format!("attribute {} of level {} differs", j, i));
        }
    }
    sim.absorb(&s.challenge.to_bytes());
    sim.probe("token");
    let again = if sim.chance(400) { Some(show_token(sim, &w, &k, &c)) } else { None };
    for _ in 0..1 + sim.pick(4) {
        let mut t = Shown { comm: s.comm.clone(), resp: s.resp.clone(), challenge: s.challenge.clone(), revealed: s.revealed.clone(), extra: s.extra.clone() };
        let mut l1 = l;
        let mut w1 = w.clone();
        let mut ipk1 = ipk.clone();
        let level = 1 + sim.pick(l);
        let odd = level % 2 == 1;
        let at = (level - 1) / 2;
        let what = match sim.choose(16) {
            0 => {
                t.challenge = &t.challenge + &FieldElement::one();
                "another challenge"
            }
            1 => {
                if t.extra.is_empty() || sim.coin() {
                    t.extra.push(0)
                } else {
                    let i = sim.pick(t.extra.len());
                    t.extra[i] ^= 1 << sim.choose(8);
                }
                "other signed bytes"
            }
            2 => {
                ipk1 = EvenLevelIssuer::keygen(&w.p1).1;
                "another root"
            }
            3 => {
                let other = [&w.label[..], &b"x"[..]].concat();
                if sim.coin() || l == 1 {
                    w1.p1 = GrothS1::setup(w.p1.y.len(), &other);
                } else {
                    w1.p2 = GrothS2::setup(w.p2.y.len(), &other);
                }
                "other parameters"
            }
            4 => {
                // a revealed attribute altered
                let r = sorted(&t.revealed)[level - 1].clone();
                if r.is_empty() {
                    continue;
                }
                let j = *sim.of(&r);
                if odd {
                    let x = g1(sim);
                    let m = &mut t.comm.odd_level_revealed_attributes[at];
                    if m[&j] == x {
                        continue;
                    }
                    m.insert(j, x);
                } else {
                    let x = g2(sim);
                    let m = &mut t.comm.even_level_revealed_attributes[at];
                    if m[&j] == x {
                        continue;
                    }
                    m.insert(j, x);
                }
                "a revealed attribute altered"
            }
            5 => {
                // the verifier expects other attributes to be revealed
                let j = sim.pick(5);
                if !t.revealed[level - 1].remove(&j) {
                    t.revealed[level - 1].insert(j);
                }
                "other attributes expected"
            }
            6 => {
                // more revealed than asked
                let j = sim.pick(5);
                if t.revealed[level - 1].contains(&j) {
                    continue;
                }
                if odd {
                    t.comm.odd_level_revealed_attributes[at].insert(j, G1::random());
                } else {
                    t.comm.even_level_revealed_attributes[at].insert(j, G2::random());
                }
                if sim.coin() {
                    t.revealed[level - 1].insert(j);
                }
                if sim.coin() {
                    // the holder may choose the challenge after that
                    let e = t.extra.clone();
                    t.challenge = AttributeToken::gen_challenge(&t.comm, &ipk, e);
                }
                "an attribute revealed that was not asked for"
            }
            7 => {
                let r = sorted(&t.revealed)[level - 1].clone();
                if r.is_empty() {
                    continue;
                }
                let j = *sim.of(&r);
                if odd {
                    t.comm.odd_level_revealed_attributes[at].remove(&j);
                } else {
                    t.comm.even_level_revealed_attributes[at].remove(&j);
                }
                if sim.coin() {
                    t.revealed[level - 1].remove(&j);
                }
                "an attribute not revealed"
            }
            8 | 9 => {
                // one response altered
                macro_rules! vec_of {
                    ($v:expr, $g:ident, $t:ident) => {{
                        let mut v = $v.as_slice().to_vec();
                        match sim.choose(4) {
                            0 => {
                                v.push($t::identity());
                            }
                            1 => {
                                if v.pop().is_none() {
                                    continue;
                                }
                            }
                            2 if v.len() > 1 => {
                                let n = v.len();
                                if v[0] == v[n - 1] {
                                    continue;
                                }
                                v.swap(0, n - 1);
                            }
                            _ => {
                                if v.is_empty() {
                                    continue;
                                }
                                let i = sim.pick(v.len());
                                let x = $g(sim);
                                if v[i] == x {
                                    continue;
                                }
                                v[i] = x;
                            }
                        }
                        $v = v.into();
                    }};
                }
                match sim.choose(9) {
                    0 => t.resp.resp_csk = &t.resp.resp_csk + &FieldElement::one(),
                    1 => vec_of!(t.resp.odd_level_resp_vk, g1, G1),
                    2 => vec_of!(t.resp.even_level_resp_vk, g2, G2),
                    3 => vec_of!(t.resp.odd_level_resp_s, g1, G1),
                    4 => vec_of!(t.resp.even_level_resp_s, g2, G2),
                    5 | 6 => {
                        if odd {
                            vec_of!(t.resp.odd_level_resp_t[at], g1, G1)
                        } else {
                            vec_of!(t.resp.even_level_resp_t[at], g2, G2)
                        }
                    }
                    _ => {
                        if odd {
                            vec_of!(t.resp.odd_level_resp_a[at], g1, G1)
                        } else {
                            vec_of!(t.resp.even_level_resp_a[at], g2, G2)
                        }
                    }
                }
                "a response altered"
            }
            10 => {
                macro_rules! one {
                    ($v:expr, $g:ident) => {{
                        let mut v = $v.as_slice().to_vec();
                        let x = $g(sim);
                        if v[at] == x {
                            continue;
                        }
                        v[at] = x;
                        $v = v.into();
                    }};
                }
                if odd {
                    one!(t.comm.odd_level_blinded_r, g2)
                } else {
                    one!(t.comm.even_level_blinded_r, g1)
                }
                "a blinded signature altered"
            }
            11 => {
                // the shape of the commitment
                match sim.choose(6) {
                    0 => {
                        t.comm.comms_t[level - 1].pop();
                    }
                    1 => {
                        let x = t.comm.comms_t[level - 1][0].clone();
                        t.comm.comms_t[level - 1].push(x)
                    }
                    2 => t.comm.comms_t[level - 1].clear(),
                    3 => {
                        t.comm.comms_s.pop();
                    }
                    4 => {
                        t.comm.comms_t.pop();
                    }
                    _ => {
                        t.comm.odd_level_revealed_attributes.push(Default::default());
                    }
                }
                "a commitment of another shape"
            }
            12 => {
                l1 = sim.pick(l + 3);
                if l1 == l {
                    continue;
                }
                if sim.coin() {
                    t.revealed.resize(l1, HashSet::new());
                }
                "another number of levels"
            }
            13 => {
                // whole lists removed
                match sim.choose(8) {
                    0 => t.resp.odd_level_resp_t.clear(),
                    1 => t.resp.odd_level_resp_a.clear(),
                    2 => t.resp.odd_level_resp_s = G1Vector::new(0),
                    3 => {
                        if t.resp.odd_level_resp_vk.len() == 0 {
                            continue;
                        }
                        t.resp.odd_level_resp_vk = G1Vector::new(0)
                    }
                    4 => {
                        t.revealed.pop();
                    }
                    5 => t.revealed.push(HashSet::new()),
                    6 => t.resp.odd_level_resp_a.push(G1Vector::new(0)),
                    _ => {
                        let x = t.resp.odd_level_resp_t[0].clone();
                        t.resp.odd_level_resp_t.push(x)
                    }
                }
                "responses missing or too many"
            }
            14 => {
                w1.p1.y = w.p1.y.as_slice()[..same_sizes(&c)[0] - 1].to_vec().into();
                "fewer generators than attributes"
            }
            _ => {
                // parts of another token over the same chain
                let o = match &again {
                    Some(o) => o,
                    None => continue,
                };
                match sim.choose(3) {
                    0 => t.resp = o.resp.clone(),
                    1 => t.comm = o.comm.clone(),
                    _ => t.challenge = o.challenge.clone(),
                }
                "parts of another token"
            }
        };
        judge(sim, &w1, l1, &ipk1, &t, false, what);
        ev!(sim, "{}", what);
        sim.probe("altered token");
    }
    if sim.chance(300) {
        // a token by someone who is not the last holder
        let mut k2 = k.clone();
        if l % 2 == 0 {
            k2.even[l / 2].0 = FieldElement::random();
        } else {
            k2.odd[l / 2].0 = FieldElement::random();
        }
        let t = show_token(sim, &w, &k2, &c);
        judge(sim, &w, l, &ipk, &t, false, "a token without the key of the last holder");
        // a chain that the root did not start
        let mut k3 = k.clone();
        k3.even[0].0 = FieldElement::random();
        let c3 = quick_chain(sim, &w, &k3, l);
        let t = show_token(sim, &w, &k3, &c3);
        judge(sim, &w, l, &ipk, &t, false, "a token over a chain of another root");
        sim.probe("token of an outsider");
    }
}
