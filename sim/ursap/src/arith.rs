//! The two implementations of `BigNumber` run in lock step: a random program over shared registers,
//! every result compared.
use simcore::{ensure, ev, Sim};

type N = native::bn::BigNumber;
type P = ursa::bn::BigNumber;

struct Reg {
    n: N,
    p: P,
}

/// A number as decimal text: small, around powers of two, word-boundary or random, of either sign.
fn text(sim: &mut Sim) -> String {
    let kind = sim.choose(8);
    let mut bytes = match kind {
        0 => vec![],
        1 => vec![sim.range(0, 3) as u8],
        2 => {
            let bits = *sim.of(&[7usize, 8, 31, 32, 33, 63, 64, 65, 127, 128, 256, 257, 596, 1024, 2048]);
            let mut b = vec![0u8; bits / 8 + 1];
            b[0] = 1 << (bits % 8);
            b
        }
        3 => {
            let len = *sim.of(&[1usize, 3, 4, 5, 8, 9, 16, 32, 33, 128, 256]);
            vec![0xff; len]
        }
        4 => {
            let len = sim.range(1, 9) as usize;
            sim.bytes(len)
        }
        5 => {
            let len = sim.range(8, 40) as usize;
            sim.bytes(len)
        }
        6 => {
            let len = sim.range(100, 270) as usize;
            sim.bytes(len)
        }
        _ => {
            // a random number with a long run of zero bytes in it
            let len = sim.range(20, 80) as usize;
            let mut b = sim.bytes(len);
            let (from, to) = (sim.range(1, 10) as usize, sim.range(10, 20) as usize);
            b[from..to].fill(0);
            b
        }
    };
    if sim.chance(150) {
        bytes.insert(0, 0);
    }
    let n = N::from_bytes(&bytes).and_then(|n| n.to_dec()).unwrap();
    if n != "0" && sim.chance(300) {
        format!("-{n}")
    } else {
        n
    }
}

fn reg(sim: &mut Sim, dec: &str) -> Reg {
    let p = sim.must("the portable build reads a decimal number", || P::from_dec(dec));
    let n = sim.must("the native build reads a decimal number", || N::from_dec(dec));
    Reg { n, p }
}

/// What an operation gave, comparable between the builds.
#[derive(PartialEq, Eq, Clone, Debug)]
enum Out {
    Num(String),
    Bool(bool),
    Int(i64),
    Text(String),
    Bytes(Vec<u8>),
    Refused,
}

fn short(o: &Out) -> String {
    let s = match o {
        Out::Bytes(b) => format!("bytes {}", hex(b)),
        o => format!("{o:?}"),
    };
    if s.len() > 90 {
        format!("{}…({} chars)", &s[..80], s.len())
    } else {
        s
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

macro_rules! num {
    ($e:expr) => {
        match $e {
            Ok(v) => {
                let d = Out::Num(v.to_dec().unwrap());
                (d, Some(v))
            }
            Err(_) => (Out::Refused, None),
        }
    };
}
macro_rules! val {
    ($e:expr, $f:expr) => {
        match $e {
            Ok(v) => (($f)(v), None),
            Err(_) => (Out::Refused, None),
        }
    };
}

const OPS: &[&str] = &[
    "add", "sub", "mul", "sqr", "div", "modulus", "mod_mul", "mod_sub", "mod_exp", "inverse", "mod_div", "gcd", "exp",
    "increment", "decrement", "lshift1", "rshift1", "rshift", "set_negative", "try_clone", "add_word", "sub_word",
    "mul_word", "div_word", "set_bit", "is_bit_set", "num_bits", "is_negative", "to_hex", "to_bytes", "from_hex",
    "from_bytes", "from_u32", "cmp", "json", "hash_array", "is_prime", "is_safe_prime", "debug_default",
];

pub fn program(sim: &mut Sim) {
    let mut regs = Vec::new();
    for _ in 0..4 {
        let t = text(sim);
        ev!(sim, "reg {}", t);
        regs.push(reg(sim, &t));
    }
    let steps = sim.range(10, 40);
    for _ in 0..steps {
        step(sim, &mut regs);
    }
    sim.probe("arithmetic compared");
}

fn step(sim: &mut Sim, regs: &mut Vec<Reg>) {
    let op = *sim.of(OPS);
    let (a, b, c) = (sim.pick(regs.len()), sim.pick(regs.len()), sim.pick(regs.len()));
    let word = *sim.of(&[0u32, 1, 2, 3, 10, 255, 256, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX]);
    let bit = *sim.of(&[0i32, 1, 7, 8, 31, 32, 63, 64, 65, 500, 2100]);
    let shift = *sim.of(&[0u32, 1, 2, 7, 8, 31, 32, 63, 64, 65, 200, 3000]);
    let flag = sim.coin();
    let ctx = sim.coin();
    let blob = {
        let len = sim.range(0, 40) as usize;
        sim.bytes(len)
    };
    let size = *sim.of(&[0u64, 1, 255, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, u64::MAX]) as usize;
    // powers grow without bound: keep their results below a few thousand bits
    if op == "exp" {
        let (base, e) = (regs[a].n.num_bits().unwrap(), &regs[b].n);
        let limit = N::from_u32(if base > 300 { 6 } else { 60 }).unwrap();
        if base > 1 && e.set_negative(false).unwrap() > limit {
            return;
        }
    }
    let big = |r: &Reg| r.n.num_bits().unwrap() > 2600;
    if matches!(op, "mul" | "sqr" | "mul_word" | "lshift1") && (big(&regs[a]) || big(&regs[b])) {
        return;
    }
    if matches!(op, "is_prime" | "is_safe_prime") && regs[a].n.num_bits().unwrap() > 700 {
        return;
    }
    if op == "hash_array" && blob.len() > 60 {
        return;
    }
    macro_rules! both {
        ($t:ty, $f:ident, $ctx:expr) => {{
            let (x, y, z) = (&regs[a].$f, &regs[b].$f, &regs[c].$f);
            let mut context = $ctx;
            let c = if ctx { Some(&mut context) } else { None };
            match op {
                "add" => num!(x.add(y)),
                "sub" => num!(x.sub(y)),
                "mul" => num!(x.mul(y, c)),
                "sqr" => num!(x.sqr(c)),
                "div" => num!(x.div(y, c)),
                "modulus" => num!(x.modulus(y, c)),
                "mod_mul" => num!(x.mod_mul(y, z, c)),
                "mod_sub" => num!(x.mod_sub(y, z, c)),
                "mod_exp" => num!(x.mod_exp(y, z, c)),
                "inverse" => num!(x.inverse(y, c)),
                "mod_div" => num!(x.mod_div(y, z, c)),
                "gcd" => num!(<$t>::gcd(x, y, c)),
                "exp" => num!(x.exp(y, c)),
                "increment" => num!(x.increment()),
                "decrement" => num!(x.decrement()),
                "lshift1" => num!(x.lshift1()),
                "rshift1" => num!(x.rshift1()),
                "rshift" => num!(x.rshift(shift)),
                "set_negative" => num!(x.set_negative(flag)),
                "try_clone" => num!(x.try_clone()),
                "add_word" => num!(x.try_clone().and_then(|mut x| x.add_word(word).map(|_| ()).map(|_| x))),
                "sub_word" => num!(x.try_clone().and_then(|mut x| x.sub_word(word).map(|_| ()).map(|_| x))),
                "mul_word" => num!(x.try_clone().and_then(|mut x| x.mul_word(word).map(|_| ()).map(|_| x))),
                "div_word" => num!(x.try_clone().and_then(|mut x| x.div_word(word).map(|_| ()).map(|_| x))),
                "set_bit" => num!(x.try_clone().and_then(|mut x| x.set_bit(bit).map(|_| ()).map(|_| x))),
                "is_bit_set" => val!(x.is_bit_set(bit), Out::Bool),
                "num_bits" => val!(x.num_bits(), |v| Out::Int(v as i64)),
                "is_negative" => (Out::Bool(x.is_negative()), None),
                "to_hex" => val!(x.to_hex(), Out::Text),
                "to_bytes" => val!(x.to_bytes(), Out::Bytes),
                "from_hex" => num!(x.to_hex().and_then(|h| <$t>::from_hex(&if flag { h.to_lowercase() } else { h }))),
                "from_bytes" => num!(<$t>::from_bytes(&blob)),
                "from_u32" => num!(<$t>::from_u32(size)),
                "cmp" => (Out::Text(format!("{:?} {} {:?}", x.cmp(y), x == y, x.partial_cmp(y))), None),
                "json" => match serde_json::to_string(x) {
                    Ok(s) => match serde_json::from_str::<$t>(&s) {
                        Ok(v) => (Out::Text(format!("{s} {}", v.to_dec().unwrap())), Some(v)),
                        Err(_) => (Out::Refused, None),
                    },
                    Err(_) => (Out::Refused, None),
                },
                "hash_array" => val!(
                    x.to_bytes().and_then(|v| {
                        let mut all = <$t>::hash_array(&[v.clone(), blob.clone(), vec![]])?;
                        all.extend(<$t>::hash(&v)?);
                        Ok(all)
                    }),
                    Out::Bytes
                ),
                "is_prime" => val!(x.is_prime(c), Out::Bool),
                "is_safe_prime" => val!(x.is_safe_prime(c), Out::Bool),
                _ => num!(Ok::<_, ()>(<$t>::default())),
            }
        }};
    }
    let what = format!(
        "{op} of {}, {}, {} (word {word}, bit {bit}, shift {shift}, flag {flag}, size {size})",
        brief(&regs[a].n),
        brief(&regs[b].n),
        brief(&regs[c].n)
    );
    sim.probe(op);
    let n = sim.no_panic("the native build computes", || both!(N, n, N::new_context().unwrap()));
    let p = sim.no_panic("the portable build computes", || both!(P, p, P::new_context().unwrap()));
    let ((n, nv), (p, pv)) = (n, p);
    ev!(sim, "{} -> {}", what, short(&n));
    ensure!(sim, n == p, &format!("builds-differ:{op}"), "{what}: native {}, portable {}", short(&n), short(&p));
    if let (Some(n), Some(p)) = (nv, pv) {
        if n.num_bits().unwrap() < 9000 {
            regs[a] = Reg { n, p };
        }
    }
}

fn brief(n: &N) -> String {
    let d = n.to_dec().unwrap();
    if d.len() > 40 {
        format!("{}…({} digits)", &d[..24], d.len())
    } else {
        d
    }
}

/// What the two builds make of a text that may or may not be a number.
pub fn reading(sim: &mut Sim) {
    let rounds = sim.range(4, 16);
    for _ in 0..rounds {
        let mut t: Vec<u8> = text(sim).into_bytes();
        let hexed = sim.coin();
        if hexed && sim.chance(700) {
            let s = String::from_utf8(t).unwrap();
            t = N::from_dec(&s).and_then(|n| n.to_hex()).unwrap().into_bytes();
        }
        let edits = sim.range(0, 3);
        for _ in 0..edits {
            let odd = *sim.of(&[b'-', b'+', b'_', b' ', b'0', b'a', b'F', b'g', b'x', b'\n', b'.', 0, b'9', b'e', b'/', b':']);
            let at = match sim.choose(3) {
                0 => 0,
                1 => t.len(),
                _ => sim.pick(t.len() + 1),
            };
            match sim.choose(3) {
                0 => t.insert(at, odd),
                1 if at < t.len() => t[at] = odd,
                _ => {
                    t.truncate(at);
                }
            }
        }
        if sim.chance(50) {
            t = "\u{662}\u{663}".as_bytes().to_vec();
        }
        let Ok(s) = String::from_utf8(t) else { continue };
        let json = serde_json::to_string(&s).unwrap();
        let n = sim.no_panic("the native build reads text", || {
            if hexed {
                N::from_hex(&s).ok().map(|v| v.to_dec().unwrap())
            } else {
                N::from_dec(&s).ok().map(|v| v.to_dec().unwrap())
            }
        });
        let p = sim.no_panic("the portable build reads text", || {
            if hexed {
                P::from_hex(&s).ok().map(|v| v.to_dec().unwrap())
            } else {
                P::from_dec(&s).ok().map(|v| v.to_dec().unwrap())
            }
        });
        sim.probe(if n.is_some() { "read" } else { "refused" });
        let radix = if hexed { "hexadecimal" } else { "decimal" };
        ev!(sim, "{radix} {:?} -> {:?}", s, n.is_some());
        ensure!(sim, n == p, "reading-differs", "{radix} {s:?}: native {n:?}, portable {p:?}");
        let strict = {
            let body = s.strip_prefix('-').unwrap_or(&s);
            !body.is_empty()
                && body.bytes().all(|b| if hexed { b.is_ascii_hexdigit() } else { b.is_ascii_digit() })
        };
        ensure!(sim, n.is_some() == strict, "not-a-number-read", "{radix} {s:?} read as {n:?}");
        let nj = sim.no_panic("json", || serde_json::from_str::<N>(&json).ok().map(|v| v.to_dec().unwrap()));
        let pj = sim.no_panic("json", || serde_json::from_str::<P>(&json).ok().map(|v| v.to_dec().unwrap()));
        ensure!(sim, nj == pj, "reading-differs", "json {json}: native {nj:?}, portable {pj:?}");
    }
    sim.probe("texts read");
}

/// Draws stay in the range asked for, on both builds, and impossible ranges are refused.
pub fn drawing(sim: &mut Sim) {
    let rounds = sim.range(2, 8);
    for _ in 0..rounds {
        let t = text(sim);
        let r = reg(sim, &t);
        let bits = *sim.of(&[0usize, 1, 2, 7, 8, 9, 64, 80, 256, 593, 2128]);
        let kind = sim.choose(5);
        macro_rules! draw {
            ($t:ty, $f:ident) => {{
                let top = &r.$f;
                match kind {
                    0 => {
                        let v = <$t>::rand(bits);
                        v.map(|v| !v.is_negative() && v.num_bits().unwrap() as usize <= bits).ok()
                    }
                    1 | 2 => {
                        let v = top.rand_range();
                        v.map(|v| !v.is_negative() && v < *top).ok()
                    }
                    3 => {
                        let v = <$t>::random_qr(top);
                        v.map(|v| !v.is_negative() && v < *top).ok()
                    }
                    _ => {
                        // a range with primes in it, one that is empty, or one upside down
                        let width = <$t>::from_u32(4000).unwrap();
                        let base = if top.is_negative() || top.num_bits().unwrap() > 140 {
                            <$t>::from_u32(1000).unwrap()
                        } else {
                            top.try_clone().unwrap()
                        };
                        let (start, end) = match bits % 4 {
                            0 => (base.try_clone().unwrap(), base.add(&width).unwrap()),
                            1 => (base.add(&width).unwrap(), base.try_clone().unwrap()),
                            2 => (base.try_clone().unwrap(), base.try_clone().unwrap()),
                            _ => (<$t>::from_u32(0).unwrap(), base.add(&width).unwrap()),
                        };
                        <$t>::generate_prime_in_range(&start, &end)
                            .map(|v| v >= start && v < end && v.is_prime(None).unwrap())
                            .ok()
                    }
                }
            }};
        }
        let what = format!("draw {kind} of {bits} bits below {}", brief(&r.n));
        let n = sim.no_panic("the native build draws", || draw!(N, n));
        let p = sim.no_panic("the portable build draws", || draw!(P, p));
        ev!(sim, "{} -> {:?}", what, n);
        ensure!(sim, n != Some(false) && p != Some(false), "draw-out-of-range", "{what}: native {n:?}, portable {p:?}");
        ensure!(sim, n == p, "drawing-differs", "{what}: native {n:?}, portable {p:?}");
    }
    sim.probe("draws compared");
}
