//! Structured corruption of messages: changes exactly one leaf of a JSON value, or some bytes.
use crate::sim::Sim;
use serde_json::Value;

/// Paths of all leaves (scalars, empty containers) of `v`.
pub fn leaves(v: &Value) -> Vec<Vec<String>> {
    let mut out = vec![];
    fn go(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
        match v {
            Value::Object(m) if !m.is_empty() => {
                let mut ks: Vec<&String> = m.keys().collect();
                ks.sort();
                for k in ks {
                    path.push(k.clone());
                    go(&m[k], path, out);
                    path.pop();
                }
            }
            Value::Array(a) if !a.is_empty() => {
                for (i, x) in a.iter().enumerate() {
                    path.push(i.to_string());
                    go(x, path, out);
                    path.pop();
                }
            }
            _ => out.push(path.clone()),
        }
    }
    go(v, &mut vec![], &mut out);
    out
}

/// A leaf, with a long list of numbers (bytes) counting as one.
pub fn pick_leaf(sim: &mut Sim, v: &Value) -> Option<Vec<String>> {
    let ls = leaves(v);
    let mut groups: Vec<(Vec<String>, Vec<Vec<String>>)> = vec![];
    for l in ls {
        let parent = l[..l.len().saturating_sub(1)].to_vec();
        let bytes = !l.is_empty() && matches!(get(v, &parent), Some(Value::Array(a)) if a.len() > 8 && a.iter().all(|x| x.is_number()));
        match groups.last_mut() {
            Some((k, g)) if bytes && *k == parent => g.push(l),
            _ => groups.push((if bytes { parent } else { l.clone() }, vec![l])),
        }
    }
    if groups.is_empty() {
        return None;
    }
    let g = sim.pick(groups.len());
    let i = sim.pick(groups[g].1.len());
    Some(groups[g].1[i].clone())
}

pub fn get<'a>(v: &'a Value, path: &[String]) -> Option<&'a Value> {
    let mut cur = v;
    for p in path {
        cur = match cur {
            Value::Object(m) => m.get(p)?,
            Value::Array(a) => a.get(p.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(cur)
}

pub fn get_mut<'a>(v: &'a mut Value, path: &[String]) -> Option<&'a mut Value> {
    let mut cur = v;
    for p in path {
        cur = match cur {
            Value::Object(m) => m.get_mut(p)?,
            Value::Array(a) => a.get_mut(p.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(cur)
}

pub fn remove(v: &mut Value, path: &[String]) -> bool {
    if path.is_empty() {
        return false;
    }
    let (last, parent) = path.split_last().unwrap();
    match get_mut(v, parent) {
        Some(Value::Object(m)) => m.remove(last).is_some(),
        Some(Value::Array(a)) => match last.parse::<usize>() {
            Ok(i) if i < a.len() => {
                a.remove(i);
                true
            }
            _ => false,
        },
        _ => false,
    }
}

/// Decimal string + small amount (as big decimal), preserving the sign.
pub fn dec_add(s: &str, d: u32) -> String {
    let (neg, digits) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let mut ds: Vec<u8> = digits.bytes().map(|b| b.wrapping_sub(b'0') % 10).collect();
    let mut carry = d;
    for x in ds.iter_mut().rev() {
        let t = *x as u32 + carry;
        *x = (t % 10) as u8;
        carry = t / 10;
    }
    let mut pre = String::new();
    if carry > 0 {
        pre = carry.to_string();
    }
    let body: String = ds.iter().map(|d| (b'0' + d) as char).collect();
    format!("{}{}{}", if neg { "-" } else { "" }, pre, body)
}

/// Mutate a scalar. Returns a description, or None when unchanged.
pub fn mutate_scalar(sim: &mut Sim, v: &mut Value) -> Option<String> {
    let before = v.clone();
    let desc;
    match v {
        Value::String(s) => {
            let dec = !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
            if dec {
                match sim.choose(6) {
                    0 => {
                        *s = dec_add(s, 1);
                        desc = "dec+1";
                    }
                    1 => {
                        let d = sim.range(2, 1_000_000) as u32;
                        *s = dec_add(s, d);
                        desc = "dec+n";
                    }
                    2 => {
                        *s = "0".into();
                        desc = "dec=0";
                    }
                    3 => {
                        *s = "1".into();
                        desc = "dec=1";
                    }
                    4 => {
                        *s = format!("-{}", s);
                        desc = "negated";
                    }
                    _ => {
                        let i = sim.pick(s.len());
                        let mut b = s.clone().into_bytes();
                        b[i] = b'0' + ((b[i] - b'0' + 1 + sim.choose(9) as u8) % 10);
                        *s = String::from_utf8(b).unwrap();
                        desc = "digit";
                    }
                }
            } else if s.is_empty() {
                *s = "x".into();
                desc = "nonempty";
            } else {
                // hex-like: alter one character
                let mut b: Vec<char> = s.chars().collect();
                let i = sim.pick(b.len());
                b[i] = match b[i] {
                    c if c.is_ascii_hexdigit() => {
                        let d = c.to_digit(16).unwrap();
                        let nd = (d + 1 + sim.choose(15) as u32) % 16;
                        let nc = std::char::from_digit(nd, 16).unwrap();
                        if c.is_ascii_uppercase() {
                            nc.to_ascii_uppercase()
                        } else {
                            nc
                        }
                    }
                    _ => '7',
                };
                *s = b.into_iter().collect();
                desc = "char";
            }
        }
        Value::Number(n) => {
            if let Some(i) = n.as_i64() {
                let d = *sim.of(&[1i64, -1, 2, 255, -255, 1 << 20]);
                *v = Value::from(i.wrapping_add(d));
            } else if let Some(u) = n.as_u64() {
                *v = Value::from(u ^ (1u64 << sim.choose(63)));
            } else {
                *v = Value::from(0);
            }
            desc = "number";
        }
        Value::Bool(b) => {
            *b = !*b;
            desc = "bool";
        }
        Value::Null => {
            *v = Value::from("1");
            desc = "non-null";
        }
        Value::Array(a) => {
            a.push(Value::from("1"));
            desc = "push";
        }
        Value::Object(m) => {
            m.insert("extra".into(), Value::from("1"));
            desc = "insert";
        }
    }
    if *v == before {
        None
    } else {
        Some(desc.to_string())
    }
}

/// Flip bits / truncate / extend / splice raw bytes. Returns description or None if unchanged.
pub fn mutate_bytes(sim: &mut Sim, b: &mut Vec<u8>) -> Option<String> {
    let before = b.clone();
    let d;
    match sim.choose(6) {
        0 | 1 if !b.is_empty() => {
            let i = sim.pick(b.len());
            b[i] ^= 1 << sim.choose(8);
            d = format!("bitflip@{}", i);
        }
        2 if !b.is_empty() => {
            let n = sim.pick(b.len());
            b.truncate(n);
            d = format!("truncate->{}", n);
        }
        3 => {
            let n = 1 + sim.pick(8);
            let e = sim.bytes(n);
            b.extend_from_slice(&e);
            d = format!("extend+{}", n);
        }
        4 if b.len() > 1 => {
            let i = sim.pick(b.len());
            let v = *sim.of(&[0u8, 0xff, 0x80, 1]);
            b[i] = v;
            d = format!("set@{}={:#x}", i, v);
        }
        _ => {
            if b.is_empty() {
                b.push(sim.choose(256) as u8);
            } else {
                let i = sim.pick(b.len());
                let n = (1 + sim.pick(16)).min(b.len() - i);
                for x in &mut b[i..i + n] {
                    *x = 0;
                }
            }
            d = "zero-run".into();
        }
    }
    if *b == before {
        None
    } else {
        Some(d)
    }
}
