//! C11 (encrypted streams over a simulated disk) and C12 (sealed messages).
use simcore::{entropy, ev, mutate, Net, NetCfg, Sim, Tier};
use std::io::{self, Read, Write};
use ursa::encryption::symm::prelude::*;

/// Everything a cipher offers, behind one object: the checks are the same for all of them.
pub trait Cipher {
    fn name(&self) -> &'static str;
    fn sizes(&self) -> (usize, usize, usize);
    fn make(&self, key: &[u8]) -> Result<Box<dyn Sealer>, ()>;
    fn kind(&self) -> Option<EncryptorType>;
    fn fresh(&self) -> Box<dyn Sealer>;
}
pub trait Sealer {
    fn seal(&self, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, ()>;
    fn open(&self, nonce: &[u8], aad: &[u8], c: &[u8]) -> Result<Vec<u8>, ()>;
    fn seal_easy(&self, aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, ()>;
    fn open_easy(&self, aad: &[u8], c: &[u8]) -> Result<Vec<u8>, ()>;
    fn seal_stream(&self, aad: &[u8], r: &mut dyn Read, w: &mut dyn Write) -> Result<(), ()>;
    fn open_stream(&self, aad: &[u8], r: &mut dyn Read, w: &mut dyn Write) -> Result<(), ()>;
}
struct Boxed(Box<dyn DynEncryptor>);
impl Sealer for Boxed {
    fn seal(&self, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, ()> {
        self.0.encrypt(nonce, aad, msg).map_err(|_| ())
    }
    fn open(&self, nonce: &[u8], aad: &[u8], c: &[u8]) -> Result<Vec<u8>, ()> {
        self.0.decrypt(nonce, aad, c).map_err(|_| ())
    }
    fn seal_easy(&self, aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, ()> {
        self.0.encrypt_easy(aad, msg).map_err(|_| ())
    }
    fn open_easy(&self, aad: &[u8], c: &[u8]) -> Result<Vec<u8>, ()> {
        self.0.decrypt_easy(aad, c).map_err(|_| ())
    }
    fn seal_stream(&self, _: &[u8], _: &mut dyn Read, _: &mut dyn Write) -> Result<(), ()> {
        unreachable!()
    }
    fn open_stream(&self, _: &[u8], _: &mut dyn Read, _: &mut dyn Write) -> Result<(), ()> {
        unreachable!()
    }
}
macro_rules! cipher {
    ($tag:ident, $e:ident, $name:expr, $k:expr, $n:expr, $t:expr, $kind:expr) => {
        struct $tag;
        impl Sealer for SymmetricEncryptor<$e> {
            fn seal(&self, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, ()> {
                self.encrypt(nonce, aad, msg).map_err(|_| ())
            }
            fn open(&self, nonce: &[u8], aad: &[u8], c: &[u8]) -> Result<Vec<u8>, ()> {
                self.decrypt(nonce, aad, c).map_err(|_| ())
            }
            fn seal_easy(&self, aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, ()> {
                self.encrypt_easy(aad, msg).map_err(|_| ())
            }
            fn open_easy(&self, aad: &[u8], c: &[u8]) -> Result<Vec<u8>, ()> {
                self.decrypt_easy(aad, c).map_err(|_| ())
            }
            fn seal_stream(&self, aad: &[u8], mut r: &mut dyn Read, mut w: &mut dyn Write) -> Result<(), ()> {
                self.encrypt_buffer(aad, &mut r, &mut w).map_err(|_| ())
            }
            fn open_stream(&self, aad: &[u8], mut r: &mut dyn Read, mut w: &mut dyn Write) -> Result<(), ()> {
                self.decrypt_buffer(aad, &mut r, &mut w).map_err(|_| ())
            }
        }
        impl Cipher for $tag {
            fn name(&self) -> &'static str {
                $name
            }
            fn sizes(&self) -> (usize, usize, usize) {
                ($k, $n, $t)
            }
            fn make(&self, key: &[u8]) -> Result<Box<dyn Sealer>, ()> {
                Ok(Box::new(SymmetricEncryptor::<$e>::new_with_key(key).map_err(|_| ())?))
            }
            fn kind(&self) -> Option<EncryptorType> {
                $kind
            }
            fn fresh(&self) -> Box<dyn Sealer> {
                // a generated key, saved as text and read back
                let e = $e::default();
                let s = serde_json::to_string(&e).unwrap();
                let e: $e = serde_json::from_str(&s).unwrap();
                Box::new(SymmetricEncryptor::<$e>::new(e))
            }
        }
    };
}
cipher!(C0, Aes128CbcHmac256, "aes-128-cbc-hmac-256", 32, 16, 32, Some(EncryptorType::Aes128CbcHmac256));
cipher!(C1, Aes256CbcHmac512, "aes-256-cbc-hmac-512", 64, 16, 64, Some(EncryptorType::Aes256CbcHmac512));
cipher!(C2, Aes128Gcm, "aes-128-gcm", 16, 12, 16, Some(EncryptorType::Aes128Gcm));
cipher!(C3, Aes256Gcm, "aes-256-gcm", 32, 12, 16, Some(EncryptorType::Aes256Gcm));
cipher!(C4, XChaCha20Poly1305, "xchacha20poly1305", 32, 24, 16, Some(EncryptorType::XChaCha20Poly1305));
cipher!(C5, ChaCha20Poly1305, "chacha20poly1305", 32, 12, 16, None);
pub const CIPHERS: [&'static dyn Cipher; 6] = [&C0, &C1, &C2, &C3, &C4, &C5];
fn is_cbc(c: &dyn Cipher) -> bool {
    c.name().contains("cbc")
}

// ---- C11 ---------------------------------------------------------------------------------

/// A reader that splits its data and may fail.
struct SimRead<'a> {
    data: &'a [u8],
    pos: usize,
    /// Lengths of the next reads, cycled; 0 stands for an interrupted call.
    plan: Vec<usize>,
    at: usize,
    fail_at: Option<(usize, io::ErrorKind)>,
    failed: bool,
    reads: u64,
}
impl<'a> Read for SimRead<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if let Some((at, kind)) = self.fail_at {
            if self.pos >= at {
                self.failed = true;
                return Err(io::Error::new(kind, "simulated disk read error"));
            }
        }
        let step = self.plan[self.at % self.plan.len()];
        self.at += 1;
        if step == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = step.min(buf.len()).min(self.data.len() - self.pos);
        if let Some((at, _)) = self.fail_at {
            n = n.min(at - self.pos);
            if n == 0 && !buf.is_empty() && at == self.pos {
                self.failed = true;
                return Err(io::Error::new(self.fail_at.unwrap().1, "simulated disk read error"));
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Full {
    Error(io::ErrorKind),
    /// `write` returns Ok(0): the disk takes nothing more
    Zero,
}
struct SimWrite {
    disk: Vec<u8>,
    plan: Vec<usize>,
    at: usize,
    fail_at: Option<(usize, Full)>,
    failed: bool,
}
impl Write for SimWrite {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let step = self.plan[self.at % self.plan.len()];
        self.at += 1;
        if let Some((at, how)) = self.fail_at {
            if self.disk.len() >= at && !buf.is_empty() {
                self.failed = true;
                return match how {
                    Full::Error(k) => Err(io::Error::new(k, "simulated disk write error")),
                    Full::Zero => Ok(0),
                };
            }
        }
        if step == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = step.min(buf.len());
        if let Some((at, _)) = self.fail_at {
            n = n.min(at - self.disk.len());
        }
        self.disk.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Some((_, Full::Error(k))) = self.fail_at {
            if self.failed {
                return Err(io::Error::new(k, "simulated flush error"));
            }
        }
        Ok(())
    }
}

fn plan(sim: &mut Sim, len: usize, what: &'static str, intr: &'static str) -> Vec<usize> {
    let mut v = vec![];
    match sim.choose(4) {
        0 => return vec![usize::MAX >> 1],
        1 if len < 6000 => v.push(1),
        1 => v.push(1 + sim.pick(len / 50)),
        2 => v.push(1 + sim.pick(5000)),
        _ => {
            for _ in 0..1 + sim.pick(6) {
                let hi = if len > 20000 { 9000 } else { 600 };
                let lo = if len > 20000 { 200 } else { 1 };
                v.push(lo + sim.pick(hi));
            }
        }
    }
    sim.note_fault(what);
    if sim.coin() {
        let i = sim.pick(v.len() + 1);
        v.insert(i, 0);
        sim.note_fault(intr);
    }
    v
}
const KINDS: [io::ErrorKind; 5] = [
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::BrokenPipe,
];

fn length(sim: &mut Sim) -> usize {
    match sim.choose(10) {
        0 => 0,
        1 => 1 + sim.pick(40),
        2 | 3 => sim.pick(300),
        4 => {
            let b = *sim.of(&[16usize, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536]);
            (b as i64 + sim.irange(-2, 2)) as usize
        }
        5 => {
            // the ciphertext lands on a boundary
            let b = *sim.of(&[512usize, 1024, 4096, 8192, 16384, 65536]);
            b - 100 + sim.pick(101)
        }
        6 => 8192 * (1 + sim.pick(6)) + sim.pick(3),
        7 => 1000 + sim.pick(60000),
        8 => sim.pick(5000),
        _ => {
            let max = if sim.tier == Tier::Quick { 200_000 } else { 1_500_000 };
            sim.pick(max)
        }
    }
}
fn content(sim: &mut Sim, n: usize) -> Vec<u8> {
    if n <= 256 {
        return match sim.choose(3) {
            0 => vec![0; n],
            _ => sim.bytes(n),
        };
    }
    let mut x = sim.choose(1 << 60);
    let zeros = sim.chance(200);
    (0..n)
        .map(|i| {
            if zeros && (i / 4096) % 2 == 1 {
                return 0;
            }
            (simcore::entropy::splitmix(&mut x) >> 24) as u8
        })
        .collect()
}

fn read_side<'a>(sim: &mut Sim, data: &'a [u8], may_fail: bool) -> SimRead<'a> {
    let plan = plan(sim, data.len(), "disk.short_read", "disk.read_interrupted");
    let mut fail_at = None;
    if may_fail && sim.chance(180) {
        let at = match sim.choose(4) {
            0 => 0,
            1 => data.len(),
            _ => sim.pick(data.len() + 1),
        };
        fail_at = Some((at, *sim.of(&KINDS)));
    }
    SimRead { data, pos: 0, plan, at: 0, fail_at, failed: false, reads: 0 }
}
fn write_side(sim: &mut Sim, len: usize, may_fail: bool) -> SimWrite {
    let plan = plan(sim, len, "disk.short_write", "disk.write_interrupted");
    let mut fail_at = None;
    if may_fail && sim.chance(180) {
        let at = match sim.choose(4) {
            0 => 0,
            1 => len.saturating_sub(1),
            _ => sim.pick(len.max(1)),
        };
        let how = if sim.coin() { Full::Zero } else { Full::Error(*sim.of(&KINDS)) };
        fail_at = Some((at, how));
    }
    SimWrite { disk: vec![], plan, at: 0, fail_at, failed: false }
}

/// What happened to a file at rest.
fn damage(sim: &mut Sim, file: &[u8], other: &[u8], head: usize, tail: usize) -> (Vec<u8>, &'static str) {
    let mut f = file.to_vec();
    let n = f.len();
    let name = match sim.choose(10) {
        0 | 1 => {
            let to = match sim.choose(6) {
                0 => 0,
                1 => n - 1,
                2 => n.saturating_sub(16),
                3 => sim.pick(head + tail),
                4 => n / 4096 * 4096,
                _ => sim.pick(n),
            };
            f.truncate(to.min(n));
            "disk.truncated"
        }
        2 => {
            let k = *sim.of(&[1usize, 2, 15, 16, 17, 32, 64, 4096]);
            let extra = if sim.coin() { vec![0; k] } else { sim.bytes(k) };
            f.extend(extra);
            "disk.extended"
        }
        3 | 4 => {
            let i = match sim.choose(4) {
                0 => sim.pick(head.min(n)),
                1 => n - 1 - sim.pick(tail.min(n)),
                _ => sim.pick(n),
            };
            f[i] ^= 1 << sim.choose(8);
            "disk.bitflip"
        }
        5 => {
            // torn write: one sector never reached the disk
            let s = *sim.of(&[16usize, 512, 4096]);
            let i = sim.pick((n + s - 1) / s) * s;
            for x in &mut f[i..(i + s).min(n)] {
                *x = 0;
            }
            "disk.torn_sector"
        }
        6 => {
            // a sector of another file under the same key
            let s = *sim.of(&[16usize, 512, 4096]);
            let i = sim.pick((n + s - 1) / s) * s;
            for k in i..(i + s).min(n).min(other.len()) {
                f[k] = other[k];
            }
            "disk.misdirected_sector"
        }
        7 => {
            let s = *sim.of(&[16usize, 512]);
            if n >= 3 * s {
                let a = sim.pick(n / s - 1) * s;
                let (x, y) = (f[a..a + s].to_vec(), f[a + s..(a + 2 * s).min(n)].to_vec());
                f.truncate(a);
                f.extend(y);
                f.extend(x);
                f.extend_from_slice(&file[(a + 2 * s).min(n)..]);
            }
            "disk.sectors_swapped"
        }
        8 => {
            // a block cut out of the middle
            let s = *sim.of(&[1usize, 16, 512, 4096, 8192]);
            if n > s {
                let a = sim.pick(n - s);
                f.drain(a..a + s);
            }
            "disk.lost_block"
        }
        _ => {
            f = [file, file].concat();
            "disk.duplicated"
        }
    };
    (f, name)
}

pub fn streams(sim: &mut Sim) {
    let c = CIPHERS[sim.pick(6)];
    let (ks, ns, ts) = c.sizes();
    let key = sim.bytes(ks);
    let e = sim.no_panic("new_with_key", || c.make(&key).expect("a key of the right length"));
    let al = *sim.of(&[0usize, 1, 5, 16, 40, 300]);
    let aad = sim.bytes(al);
    let len = length(sim);
    let msg = content(sim, len);
    ev!(sim, "cipher {} aad {} message {}", c.name(), al, len);
    sim.absorb(&key);

    // another file under the same key, for splices
    let other_msg = content(sim, len.min(5000));
    let other = sim.must("encrypt_easy", || e.seal_easy(&aad, &other_msg));

    // encrypt to the disk, retrying after faults, with crashes in between
    let mut file = None;
    for attempt in 0..3 {
        let last = attempt == 2;
        let mut r = read_side(sim, &msg, !last);
        let full = len + ns + ts + 16;
        let mut w = write_side(sim, full, !last);
        let starved = !last && sim.chance(60);
        if starved {
            sim.note_fault("entropy.failure");
            entropy::fail_after(0);
        }
        let res = sim.guard(|| e.seal_stream(&aad, &mut r, &mut w));
        entropy::heal();
        let res = match res {
            Ok(x) => x,
            Err(p) => sim.stop("panic:encrypt_buffer", format!("encrypt_buffer panicked: {:?}", p)),
        };
        ev!(sim, "encrypt -> {} ({} bytes on disk, {} reads)", res.is_ok(), w.disk.len(), r.reads);
        sim.absorb(&w.disk);
        if r.failed {
            sim.note_fault("disk.read_error");
        }
        if w.failed {
            sim.note_fault("disk.write_error");
        }
        let hurt = r.failed || w.failed || starved;
        if res.is_ok() {
            sim.check(!r.failed, "read-error-hidden", || format!("{}: encrypt_buffer returned Ok although the reader failed after {} of {} bytes", c.name(), r.pos, len));
            sim.check(!w.failed, "write-error-hidden", || format!("{}: encrypt_buffer returned Ok although the writer failed after {} bytes", c.name(), w.disk.len()));
            sim.check(!starved, "entropy-hidden", || format!("{}: encrypt_buffer returned Ok although randomness failed", c.name()));
            sim.check(r.pos == len, "input-not-read", || format!("{}: encrypt_buffer returned Ok after reading {} of {} bytes", c.name(), r.pos, len));
            file = Some(w.disk);
            break;
        }
        sim.check(hurt, "failed:encrypt_buffer", || format!("{}: encrypt_buffer failed on {} bytes although nothing was wrong", c.name(), len));
        sim.probe("encrypt-failed");
        // crash: what is on the disk is a prefix of some ciphertext
        let torn = w.disk;
        let n = torn.len();
        let mut out = SimWrite { disk: vec![], plan: vec![1 << 30], at: 0, fail_at: None, failed: false };
        let mut rd = &torn[..];
        let res = sim.no_panic("decrypt_buffer", || e.open_stream(&aad, &mut rd, &mut out));
        sim.check(res.is_err() && out.disk.is_empty(), "torn-accepted", || format!("{}: the {} bytes left by a failed encryption were decrypted", c.name(), n));
    }
    let file = match file {
        Some(f) => f,
        None => sim.stop("failed:encrypt_buffer", format!("{}: encrypt_buffer failed on {} bytes although nothing was wrong", c.name(), len)),
    };
    sim.probe("encrypted");

    // the ciphertext does not contain the message
    if len >= 64 {
        let probe = &msg[len - 48..];
        if probe.iter().any(|b| *b != 0) {
            let leak = file.windows(48).any(|w| w == probe);
            sim.check(!leak, "plaintext-on-disk", || format!("{}: the encrypted stream contains the end of its plaintext", c.name()));
        }
    }

    // read it back: good, damaged, with the wrong context, through failing disks
    let opener = if sim.coin() { c.make(&key).unwrap() } else { e };
    for round in 0..6 {
        let mut f = file.clone();
        let mut a = aad.clone();
        let mut k = None;
        let mut what = "unaltered";
        if round > 0 {
            match sim.choose(8) {
                0 | 1 => {}
                2..=5 => {
                    let (g, w) = damage(sim, &file, &other, ns, ts);
                    f = g;
                    what = w;
                }
                6 => {
                    what = "aad";
                    mutate::mutate_bytes(sim, &mut a);
                }
                _ => {
                    what = "key";
                    let mut kk = key.clone();
                    // the part that authenticates
                    let from = if is_cbc(c) { if ks == 32 { 16 } else { 32 } } else { 0 };
                    let i = from + sim.pick(ks - from);
                    kk[i] ^= 1 << sim.choose(8);
                    if sim.coin() {
                        kk = sim.bytes(ks);
                    }
                    k = Some(kk);
                }
            }
        }
        if f == other {
            continue; // a whole genuine stream
        }
        let intact = f == file && a == aad && k.as_ref().map_or(true, |k| *k == key);
        if f != file {
            sim.note_fault(what);
        }
        let used = k.as_ref().map(|k| c.make(k).unwrap());
        let o: &dyn Sealer = used.as_deref().unwrap_or(&*opener);
        let may_fail = round > 0;
        let mut r = read_side(sim, &f, may_fail);
        let mut w = write_side(sim, len, may_fail);
        let res = sim.guard(|| o.open_stream(&a, &mut r, &mut w));
        let res = match res {
            Ok(x) => x,
            Err(p) => sim.stop("panic:decrypt_buffer", format!("{}: decrypt_buffer panicked on a {} stream: {:?}", c.name(), what, p)),
        };
        ev!(sim, "decrypt {} -> {} ({} bytes delivered)", what, res.is_ok(), w.disk.len());
        if r.failed {
            sim.note_fault("disk.read_error");
        }
        if w.failed {
            sim.note_fault("disk.write_error");
        }
        let desc = format!("{} (aad {} bytes, message {} bytes, stream {} -> {} bytes)", c.name(), aad.len(), len, file.len(), f.len());
        if res.is_ok() {
            sim.check(!r.failed, "read-error-hidden", || format!("{}: decrypt_buffer returned Ok although the reader failed after {} bytes", desc, r.pos));
            sim.check(!w.failed, "write-error-hidden", || format!("{}: decrypt_buffer returned Ok although the writer failed after {} bytes", desc, w.disk.len()));
            sim.check(intact, &format!("altered-accepted:{}", what), || format!("{}: a stream altered by {} was accepted", desc, what));
            sim.check(w.disk == msg, "wrong-content", || format!("{}: decrypt_buffer delivered {} bytes that are not the message", desc, w.disk.len()));
            sim.probe("decrypted");
        } else {
            sim.check(!intact || r.failed || w.failed, "failed:decrypt_buffer", || format!("{}: decrypt_buffer failed although nothing was wrong", desc));
            if !intact {
                sim.check(w.disk.is_empty(), "altered-delivered", || format!("{}: {} bytes of a stream altered by {} were delivered", desc, w.disk.len(), what));
                sim.probe("altered-refused");
            } else if r.failed {
                sim.check(w.disk.is_empty(), "altered-delivered", || format!("{}: {} bytes were delivered although the stream could not be read", desc, w.disk.len()));
                sim.probe("read-error-reported");
            } else {
                sim.check(msg.starts_with(&w.disk), "wrong-content", || format!("{}: the writer received bytes that are not a prefix of the message", desc));
                sim.probe("write-error-reported");
            }
        }
    }
}

/// Many files, several keys, one disk that crashes: each file reads back under its own key and name only.
pub fn vault(sim: &mut Sim) {
    let c = CIPHERS[sim.pick(6)];
    let n_keys = 1 + sim.pick(2);
    let keys: Vec<Box<dyn Sealer>> = (0..n_keys).map(|_| c.fresh()).collect();
    struct F {
        key: usize,
        name: Vec<u8>,
        msg: Vec<u8>,
        disk: Vec<u8>,
    }
    let mut files: Vec<F> = vec![];
    let n = 2 + sim.pick(4);
    for i in 0..n {
        let key = sim.pick(n_keys);
        let l = sim.pick(700);
        let msg = content(sim, l);
        let name = format!("file-{}", i).into_bytes();
        let mut r = read_side(sim, &msg, false);
        let mut w = write_side(sim, l + 100, false);
        sim.must("encrypt_buffer", || keys[key].seal_stream(&name, &mut r, &mut w));
        ev!(sim, "stored {} under key {} ({} bytes)", i, key, w.disk.len());
        sim.absorb(&w.disk);
        files.push(F { key, name, msg, disk: w.disk });
    }
    for i in 0..n {
        for j in 0..n {
            for k in 0..n_keys {
                // content of i, opened as j, under key k
                let genuine = i == j && k == files[i].key;
                let mut r = read_side(sim, &files[i].disk, false);
                let mut w = write_side(sim, 700, false);
                let res = sim.no_panic("decrypt_buffer", || keys[k].open_stream(&files[j].name, &mut r, &mut w));
                ev!(sim, "open {} as {} with key {} -> {}", i, j, k, res.is_ok());
                if genuine {
                    sim.check(res.is_ok(), "failed:decrypt_buffer", || format!("{}: an intact file does not decrypt", c.name()));
                    sim.check(w.disk == files[i].msg, "wrong-content", || format!("{}: a file decrypts to other bytes", c.name()));
                    sim.probe("decrypted");
                } else {
                    sim.check(res.is_err() && w.disk.is_empty(), "altered-accepted:swapped", || format!("{}: a stream was accepted under another name or key", c.name()));
                    sim.probe("altered-refused");
                }
            }
        }
    }
}

// ---- C12 ---------------------------------------------------------------------------------

/// One of the ways to get at a cipher.
fn handle(sim: &mut Sim, c: &dyn Cipher, key: &[u8]) -> Box<dyn Sealer> {
    match c.kind() {
        Some(t) if sim.coin() => {
            let t: EncryptorType = if sim.coin() {
                use std::str::FromStr;
                EncryptorType::from_str(c.name()).unwrap()
            } else {
                t
            };
            Box::new(Boxed(t.gen_encryptor(key)))
        }
        _ => c.make(key).expect("a key of the right length"),
    }
}

pub fn sealed(sim: &mut Sim) {
    let c = CIPHERS[sim.pick(6)];
    let (ks, ns, ts) = c.sizes();
    let key = match sim.choose(6) {
        0 => vec![0; ks],
        1 => vec![0xff; ks],
        _ => sim.bytes(ks),
    };
    let nonce = match sim.choose(6) {
        0 => vec![0; ns],
        1 => vec![0xff; ns],
        _ => sim.bytes(ns),
    };
    let al = *sim.of(&[0usize, 1, 12, 15, 16, 17, 31, 32, 64, 128, 200]);
    let aad = sim.bytes(al);
    let ml = match sim.choose(4) {
        0 => sim.pick(35),
        1 => *sim.of(&[0usize, 63, 64, 65, 127, 128, 129, 255, 256]),
        2 => sim.pick(300),
        _ => sim.pick(3000),
    };
    let msg = content(sim, ml);
    let e = handle(sim, c, &key);
    let d = handle(sim, c, &key);
    let easy = sim.coin();
    ev!(sim, "{} aad {} message {} easy {}", c.name(), al, ml, easy);
    sim.absorb(&key);

    // seal
    let blob = if easy {
        let mut b = sim.must("encrypt_easy", || e.seal_easy(&aad, &msg));
        sim.check(b.len() >= ns + ts + ml, "shape", || format!("{}: sealed message of {} bytes for {}", c.name(), b.len(), ml));
        // same layout as nonce || sealed
        let body = b.split_off(ns);
        let back = sim.must("decrypt", || d.open(&b, &aad, &body));
        sim.check(back == msg, "wrong-content", || format!("{}: decrypt gives other bytes than encrypt_easy sealed", c.name()));
        b.extend(body);
        b
    } else {
        let s = sim.must("encrypt", || e.seal(&nonce, &aad, &msg));
        let again = sim.must("encrypt", || d.seal(&nonce, &aad, &msg));
        sim.check(s == again, "not-a-function", || format!("{}: two handles seal the same message differently", c.name()));
        let b = [&nonce[..], &s[..]].concat();
        let back = sim.must("decrypt_easy", || d.open_easy(&aad, &b));
        sim.check(back == msg, "wrong-content", || format!("{}: decrypt_easy gives other bytes than encrypt sealed", c.name()));
        b
    };
    sim.absorb(&blob);
    let open = |d: &dyn Sealer, easy: bool, aad: &[u8], b: &[u8]| -> Result<Vec<u8>, ()> {
        if easy {
            d.open_easy(aad, b)
        } else {
            let n = ns.min(b.len());
            d.open(&b[..n], aad, &b[n..])
        }
    };
    let back = sim.must("open", || open(&*d, easy, &aad, &blob));
    sim.check(back == msg, "wrong-content", || format!("{}: opening gives other bytes than were sealed", c.name()));
    sim.probe("opened");
    let opener = handle(sim, c, &key);

    // every single bit of nonce and tag and (for short messages) of the ciphertext, in random samples
    let rounds = 24;
    for r in 0..rounds {
        let mut b = blob.clone();
        let mut a = aad.clone();
        let mut k = key.clone();
        let what = match sim.choose(11) {
            0 => {
                let i = sim.pick(ns);
                b[i] ^= 1 << sim.choose(8);
                "nonce"
            }
            1 | 2 => {
                let i = b.len() - 1 - sim.pick(ts);
                b[i] ^= 1 << sim.choose(8);
                "tag"
            }
            3 => {
                // the whole tag
                let n = b.len();
                let how = sim.choose(3);
                for x in &mut b[n - ts..] {
                    *x = match how {
                        0 => 0,
                        1 => 0xff,
                        _ => !*x,
                    };
                }
                "tag"
            }
            4 if b.len() > ns + ts => {
                let i = ns + sim.pick(b.len() - ns - ts);
                b[i] ^= 1 << sim.choose(8);
                "ciphertext"
            }
            5 => {
                mutate::mutate_bytes(sim, &mut a);
                if a == aad {
                    a.push(0);
                }
                "aad"
            }
            6 => {
                a = match sim.choose(4) {
                    0 => vec![],
                    1 => [&aad[..], &[0][..]].concat(),
                    2 => aad.iter().rev().cloned().collect(),
                    _ => {
                        let n = sim.pick(al + 1);
                        aad[..n].to_vec()
                    }
                };
                "aad"
            }
            7 => {
                let n = match sim.choose(3) {
                    0 => b.len() - 1 - sim.pick(ts.min(b.len() - 1)),
                    _ => sim.pick(b.len()),
                };
                b.truncate(n);
                "truncated"
            }
            8 => {
                let n = 1 + sim.pick(32);
                let x = if sim.coin() { vec![0; n] } else { sim.bytes(n) };
                if sim.coin() {
                    b.extend(x);
                } else {
                    let at = sim.pick(b.len());
                    let t = b.split_off(at);
                    b.extend(x);
                    b.extend(t);
                }
                "extended"
            }
            9 => {
                mutate::mutate_bytes(sim, &mut b);
                "bytes"
            }
            _ => {
                let i = sim.pick(ks);
                k[i] ^= 1 << sim.choose(8);
                if sim.chance(300) {
                    k = sim.bytes(ks);
                }
                "key"
            }
        };
        if b == blob && a == aad && k == key {
            continue;
        }
        sim.note_fault(what);
        let other = if k == key { None } else { Some(handle(sim, c, &k)) };
        let o: &dyn Sealer = other.as_deref().unwrap_or(&*opener);
        let via = sim.coin();
        let res = sim.no_panic(&format!("decrypt {}", what), || open(o, via, &a, &b));
        ev!(sim, "round {} {} -> {}", r, what, res.is_ok());
        if let Ok(x) = res {
            // the encryption half of the key is not authenticated by the CBC-HMAC ciphers
            let half = ks / 2;
            let auth = if is_cbc(c) { half.min(32) } else { 0 };
            let auth = if ks == 32 && is_cbc(c) { 16 } else { auth };
            let class = if is_cbc(c) && what == "key" && k[auth..] == key[auth..] { "cbc-hmac-cipher-key" } else { what };
            let class = if class == "cbc-hmac-cipher-key" { class.to_string() } else { format!("altered-accepted:{}", what) };
            sim.violate(&class, format!("{}: a message whose {} was altered opened ({} bytes, {} sealed)", c.name(), what, x.len(), ml));
        }
        sim.probe("altered-refused");
    }
}

/// CBC-HMAC: bytes moved across the boundary between associated data and message.
pub fn boundary(sim: &mut Sim) {
    let c = CIPHERS[sim.pick(6)];
    let (ks, ns, ts) = c.sizes();
    let key = sim.bytes(ks);
    let e = handle(sim, c, &key);
    let al = sim.pick(40);
    let aad = sim.bytes(al);
    let ml = sim.pick(100);
    let msg = sim.bytes(ml);
    ev!(sim, "{} aad {} message {}", c.name(), al, ml);
    let blob = sim.must("encrypt_easy", || e.seal_easy(&aad, &msg));
    sim.absorb(&blob);
    for _ in 0..6 {
        // move k bytes from the front of the blob to the end of the aad, or back
        let (a, b) = if sim.coin() {
            let k = *sim.of(&[1usize, 4, 8, 12, 16, 24, 32]);
            let k = if sim.coin() { ns } else { k };
            if blob.len() < k {
                continue;
            }
            ([&aad[..], &blob[..k]].concat(), blob[k..].to_vec())
        } else {
            let k = *sim.of(&[1usize, 4, 8, 12, 16, 24, 32]);
            if al < k {
                continue;
            }
            (aad[..al - k].to_vec(), [&aad[al - k..], &blob[..]].concat())
        };
        sim.note_fault("boundary");
        let res = sim.no_panic("decrypt_easy", || e.open_easy(&a, &b));
        ev!(sim, "aad {} blob {} -> {}", a.len(), b.len(), res.is_ok());
        if res.is_ok() {
            let class = if is_cbc(c) { "cbc-hmac-boundary" } else { "altered-accepted:boundary" };
            sim.violate(class, format!("{}: a message opened after bytes moved between associated data and ciphertext (aad {} -> {} bytes)", c.name(), al, a.len()));
        }
        sim.probe("altered-refused");
    }
    if is_cbc(c) {
        // a key that differs in its cipher half only
        let half = if ks == 32 { 16 } else { 32 };
        let n = if sim.tier == Tier::Quick { 60 } else { 600 };
        for _ in 0..n {
            let mut k = key.clone();
            let i = sim.pick(half);
            k[i] ^= 1 + sim.choose(255) as u8;
            let o = handle(sim, c, &k);
            sim.note_fault("key");
            let res = sim.no_panic("decrypt key", || o.open_easy(&aad, &blob));
            if res.is_ok() {
                sim.violate("cbc-hmac-cipher-key", format!("{}: a message opened under a key that differs in its cipher half", c.name()));
            }
        }
    }
    let _ = ts;
}

/// Keys, nonces and messages of every wrong length.
pub fn malformed(sim: &mut Sim) {
    let c = CIPHERS[sim.pick(6)];
    let (ks, ns, ts) = c.sizes();
    for _ in 0..12 {
        let n = match sim.choose(4) {
            0 => sim.pick(8),
            1 => (ks as i64 + sim.irange(-2, 2)) as usize,
            2 => *sim.of(&[16usize, 24, 32, 48, 64, 128]),
            _ => sim.pick(140),
        };
        let k = sim.bytes(n);
        let res = sim.no_panic("new_with_key", || c.make(&k).map(|_| ()));
        ev!(sim, "{} key of {} bytes -> {}", c.name(), n, res.is_ok());
        sim.check(res.is_ok() == (n == ks), "key-length", || format!("{}: a key of {} bytes gives {:?}", c.name(), n, res));
        if let Some(t) = c.kind() {
            sim.check(t.is_valid_keysize(n) == (n == ks), "key-length", || format!("{}: is_valid_keysize({}) is wrong", c.name(), n));
            sim.check(t.is_valid_noncesize(n) == (n == ns), "nonce-length", || format!("{}: is_valid_noncesize({}) is wrong", c.name(), n));
        }
    }
    let key = sim.bytes(ks);
    let e = handle(sim, c, &key);
    for _ in 0..12 {
        let n = match sim.choose(3) {
            0 => sim.pick(40),
            1 => ns,
            _ => (ns as i64 + sim.irange(-1, 1)) as usize,
        };
        let nonce = sim.bytes(n);
        let m = sim.pick(60);
        let msg = sim.bytes(m);
        let res = sim.no_panic("encrypt", || e.seal(&nonce, b"ctx", &msg));
        sim.check(res.is_ok() == (n == ns), "nonce-length", || format!("{}: a nonce of {} bytes gives {}", c.name(), n, res.is_ok()));
        let res = sim.no_panic("decrypt", || e.open(&nonce, b"ctx", &msg));
        ev!(sim, "{} nonce {} message {} -> {}", c.name(), n, m, res.is_ok());
        sim.check(res.is_err(), "altered-accepted:random", || format!("{}: {} random bytes opened", c.name(), m));
        let res = sim.no_panic("decrypt_easy", || e.open_easy(b"ctx", &msg));
        sim.check(res.is_err(), "altered-accepted:random", || format!("{}: {} random bytes opened", c.name(), m));
        sim.note_fault("malformed");
        sim.probe("altered-refused");
    }
    // every short length
    let blob = sim.must("encrypt_easy", || e.seal_easy(b"ctx", b"a short message"));
    sim.absorb(&blob);
    for n in 0..blob.len() {
        let res = sim.no_panic("decrypt_easy", || e.open_easy(b"ctx", &blob[..n]));
        sim.check(res.is_err(), "altered-accepted:truncated", || format!("{}: {} of {} bytes opened", c.name(), n, blob.len()));
    }
    let _ = ts;
}

/// Two parties with a shared key over a bad network: every message opens exactly in its own context.
pub fn channel(sim: &mut Sim) {
    let c = CIPHERS[sim.pick(6)];
    let (ks, ns, _) = c.sizes();
    let key = sim.bytes(ks);
    let mut sender = handle(sim, c, &key);
    let mut receiver = handle(sim, c, &key);
    let cfg = NetCfg::swarm(sim, true);
    let mut net = Net::new(cfg);
    let n = 3 + sim.pick(6);
    let mut sent: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let direct = sim.coin();
    for i in 0..n {
        let l = sim.pick(90);
        let msg = sim.bytes(l);
        let aad = format!("seq {}", i).into_bytes();
        if sim.fault("crash.restart", 100) {
            sender = handle(sim, c, &key);
        }
        let blob = if direct {
            let mut nonce = vec![0u8; ns];
            nonce[ns - 1] = i as u8;
            let s = sim.must("encrypt", || sender.seal(&nonce, &aad, &msg));
            [&nonce[..], &s[..]].concat()
        } else {
            sim.must("encrypt_easy", || sender.seal_easy(&aad, &msg))
        };
        sim.absorb(&blob);
        let mut body = vec![i as u8];
        body.extend(&blob);
        net.send(sim, 0, 1, "sealed", body);
        sent.push((aad, msg));
    }
    while let Some(m) = net.next(sim) {
        if sim.fault("crash.restart", 100) {
            receiver = handle(sim, c, &key);
        }
        if m.body.is_empty() {
            continue;
        }
        let (i, blob) = (m.body[0] as usize, &m.body[1..]);
        let claimed = format!("seq {}", i).into_bytes();
        let res = sim.no_panic("decrypt_easy", || receiver.open_easy(&claimed, blob));
        ev!(sim, "received {} tampered {} -> {}", i, m.tampered, res.is_ok());
        if m.tampered {
            sim.check(res.is_err(), "altered-accepted:network", || format!("{}: an altered message opened", c.name()));
            sim.probe("altered-refused");
        } else {
            sim.check(res.as_ref().ok() == Some(&sent[i].1), "failed:decrypt_easy", || format!("{}: an unaltered message does not open to what was sealed", c.name()));
            sim.probe("opened");
            let j = sim.pick(n);
            if j != i {
                let (a, b) = (sent[j].0.clone(), blob.to_vec());
                let res = sim.no_panic("decrypt_easy", || receiver.open_easy(&a, &b));
                sim.check(res.is_err(), "altered-accepted:context", || format!("{}: message {} opened as message {}", c.name(), i, j));
                sim.probe("altered-refused");
            }
        }
    }
}
