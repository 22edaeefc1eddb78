//! Runs many seeded simulations in worker processes, detects crashes and hangs from outside,
//! minimises the first violation, writes the replay file and the evidence.
use crate::entropy::{self, mix};
use crate::sim::{hash_str, Panicked, Sim, Tape, Tier, Violation, KnownStop, LAST_PANIC};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub struct Scenario {
    pub name: &'static str,
    pub weight: u32,
    pub run: fn(&mut Sim),
}

pub struct Check {
    pub property: &'static str,
    pub level: &'static str,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub scenarios: Vec<Scenario>,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

const RUN_LIMIT_S: u64 = 150;
const STACK: usize = 64 << 20;

#[derive(Clone)]
struct Ctx {
    tier: Tier,
    seed: u64,
    known: Arc<BTreeSet<String>>,
}

struct RunOut {
    violation: Option<Violation>,
    sim: Sim,
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn dlsym(h: *mut std::ffi::c_void, name: *const std::os::raw::c_char) -> *mut std::ffi::c_void;
}

fn install_openssl_method() {
    // Only when the binary links OpenSSL.
    unsafe {
        let f = dlsym(std::ptr::null_mut(), c"RAND_set_rand_method".as_ptr());
        if !f.is_null() {
            let f: extern "C" fn(*const entropy::RandMethod) -> i32 = std::mem::transmute(f);
            f(&entropy::RAND_METHOD);
        }
    }
}

fn init_process() {
    entropy::link_anchor();
    install_openssl_method();
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Violation>() || info.payload().is::<KnownStop>() {
            return;
        }
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_else(|| "?".into());
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(non-string panic)".into()
        };
        LAST_PANIC.with(|l| {
            *l.borrow_mut() = Some(Panicked {
                location: loc,
                message: msg,
            })
        });
    }));
}

fn run_one(f: fn(&mut Sim), tape: Tape, entropy_seed: u64, ctx: &Ctx, keep_log: bool, variant: u64) -> RunOut {
    let ctx = ctx.clone();
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            entropy::seed_thread(entropy_seed);
            // hash maps take their keys from the first draw of a thread
            std::hint::black_box(std::hash::RandomState::new());
            let mut sim = Sim::new(tape, ctx.tier);
            sim.keep_log = keep_log;
            sim.known_keys = ctx.known.clone();
            sim.variant = variant;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut sim)));
            let violation = match r {
                Ok(()) => None,
                Err(p) if p.is::<KnownStop>() => None,
                Err(p) => match p.downcast::<Violation>() {
                    Ok(v) if is_known(&ctx.known, &v.class) => {
                        sim.known.entry(v.class.clone()).or_insert(v.detail.clone());
                        None
                    }
                    Ok(v) => Some(*v),
                    Err(_) => {
                        let info = LAST_PANIC.with(|l| l.borrow_mut().take());
                        let (loc, msg) = info
                            .map(|i| (i.location, i.message))
                            .unwrap_or(("?".into(), "?".into()));
                        let base = loc
                            .rsplit('/')
                            .next()
                            .unwrap_or("?")
                            .split(':')
                            .next()
                            .unwrap_or("?")
                            .to_string();
                        let class = format!("panic:{}", base);
                        let detail = format!("panic at {}: {}", loc, msg);
                        if is_known(&ctx.known, &class) {
                            sim.known.entry(class).or_insert(detail);
                            None
                        } else {
                            sim.event(|| format!("VIOLATION panic {}", loc));
                            Some(Violation { class, detail })
                        }
                    }
                },
            };
            entropy::heal();
            RunOut { violation, sim }
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| panic!("simulation thread died"))
}

fn schedule_of(c: &Check) -> Vec<usize> {
    // interleave scenarios in proportion to their weights
    let total: u32 = c.scenarios.iter().map(|s| s.weight).sum();
    let mut acc: Vec<i64> = vec![0; c.scenarios.len()];
    let mut out = vec![];
    for _ in 0..total {
        for (i, s) in c.scenarios.iter().enumerate() {
            acc[i] += s.weight as i64;
        }
        let mut best = 0;
        for i in 1..acc.len() {
            if acc[i] > acc[best] {
                best = i;
            }
        }
        acc[best] -= total as i64;
        out.push(best);
    }
    out
}

fn seeds_for(c: &Check, seed: u64, k: u64, sched: &[usize]) -> (usize, u64, u64) {
    let sc = sched[(k as usize) % sched.len()];
    let base = mix(
        mix(seed, hash_str(c.property)),
        mix(hash_str(c.scenarios[sc].name), k),
    );
    (sc, mix(base, 0x7a9e), mix(base, 0xe27))
}

fn verif_dir() -> PathBuf {
    std::env::var("SIM_VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| std::env::current_dir().unwrap())
}

fn is_known(k: &BTreeSet<String>, class: &str) -> bool {
    k.contains(class) || k.contains("*")
}

fn load_known(property: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.json");
    let mut out = vec![];
    if let Ok(s) = fs::read_to_string(&p) {
        let v: Value = serde_json::from_str(&s).expect("known_findings.json is valid JSON");
        for e in v["findings"].as_array().unwrap_or(&vec![]) {
            if e["property"] == property {
                out.push((
                    e["class"].as_str().unwrap().to_string(),
                    e["what"].as_str().unwrap_or("").to_string(),
                ));
            }
        }
    }
    out
}

fn ctx_from_env(property: &str) -> Ctx {
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse::<u64>().ok())
        .unwrap_or(1);
    Ctx {
        tier,
        seed,
        known: Arc::new(
            load_known(property)
                .into_iter()
                .map(|x| x.0)
                // development aid: go on past every violation and list them at the end
                .chain(std::env::var("SIM_COLLECT").ok().map(|_| "*".to_string()))
                .collect(),
        ),
    }
}

pub fn main_with(checks: Vec<Check>) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: check <PROP> | worker <PROP> <i> <n> <runs> <secs> <dir> | exec <file> | replay <file> | determinism <PROP> <n>");
        std::process::exit(2);
    }
    init_process();
    let find = |p: &str| -> &Check {
        checks
            .iter()
            .find(|c| c.property == p)
            .unwrap_or_else(|| {
                eprintln!("no check for {}", p);
                std::process::exit(2)
            })
    };
    match args[1].as_str() {
        "check" => {
            let c = find(&args[2]);
            let code = parent(c);
            std::process::exit(code);
        }
        "worker" => {
            let c = find(&args[2]);
            worker(
                c,
                args[3].parse().unwrap(),
                args[4].parse().unwrap(),
                args[5].parse().unwrap(),
                args[6].parse().unwrap(),
                Path::new(&args[7]),
            );
        }
        "exec" | "replay" => {
            let f = fs::read_to_string(&args[2]).expect("read case file");
            let v: Value = serde_json::from_str(&f).expect("case file is JSON");
            let c = find(v["property"].as_str().unwrap());
            exec_case(c, &v, args[1] == "replay");
        }
        "determinism" => {
            let c = find(&args[2]);
            let n: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(50);
            std::process::exit(determinism(c, n));
        }
        "one" => {
            // one <PROP> <k>: run a single index with its log
            let c = find(&args[2]);
            let k: u64 = args[3].parse().unwrap();
            let ctx = ctx_from_env(c.property);
            let sched = schedule_of(c);
            let (sc, ts, es) = seeds_for(c, ctx.seed, k, &sched);
            // runs to do first in the same process
            for before in args.iter().skip(4) {
                let b: u64 = before.parse().unwrap();
                let (sc, ts, es) = seeds_for(c, ctx.seed, b, &sched);
                run_one(c.scenarios[sc].run, Tape::record(ts), es, &ctx, true, b);
            }
            let t = Instant::now();
            let o = run_one(c.scenarios[sc].run, Tape::record(ts), es, &ctx, true, k);
            for l in &o.sim.log {
                println!("{}", l);
            }
            println!(
                "scenario {} fingerprint {} steps {} choices {} time {:?} faults {:?} probes {:?}",
                c.scenarios[sc].name,
                o.sim.fingerprint(),
                o.sim.steps,
                o.sim.tape.used(),
                t.elapsed(),
                o.sim.faults,
                o.sim.probes
            );
            if let Some(v) = o.violation {
                println!("VIOLATION {} : {}", v.class, v.detail);
            }
        }
        _ => std::process::exit(2),
    }
}

fn limit_memory() {
    unsafe {
        let lim = [6u64 << 30, 6u64 << 30];
        setrlimit(9, &lim); // RLIMIT_AS
        let z = [0u64, 0u64];
        setrlimit(4, &z); // RLIMIT_CORE
    }
}

fn now_ms() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_millis() as u64
}

fn worker(c: &Check, idx: u64, of: u64, runs: u64, secs: u64, dir: &Path) {
    use std::os::unix::fs::FileExt;
    limit_memory();
    let ctx = ctx_from_env(c.property);
    let sched = schedule_of(c);
    let start = Instant::now();
    let prog = fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(false)
        .open(dir.join(format!("prog.{}", idx)))
        .unwrap();
    let mut st = Stats::default();
    let mut violation = Value::Null;
    let stop = dir.join("stop");
    let mut k = idx;
    while k < runs {
        if start.elapsed().as_secs() >= secs || stop.exists() {
            break;
        }
        let mut rec = [0u8; 16];
        rec[..8].copy_from_slice(&(k + 1).to_le_bytes());
        rec[8..].copy_from_slice(&now_ms().to_le_bytes());
        prog.write_at(&rec, 0).unwrap();
        let (sc, ts, es) = seeds_for(c, ctx.seed, k, &sched);
        let keep = k < 3;
        let o = run_one(c.scenarios[sc].run, Tape::record(ts), es, &ctx, keep, k);
        if k < 6 {
            st.fingerprints.insert(k, o.sim.fingerprint());
        }
        if keep {
            let mut lines: Vec<String> = o.sim.log.iter().take(60).cloned().collect();
            for l in lines.iter_mut() {
                if l.len() > 240 {
                    let mut n = 240;
                    while !l.is_char_boundary(n) {
                        n -= 1;
                    }
                    l.truncate(n);
                }
            }
            st.samples.push(json!({
                "run": k, "scenario": c.scenarios[sc].name, "tape_seed": ts.to_string(),
                "entropy_seed": es.to_string(), "fingerprint": o.sim.fingerprint(), "events": lines
            }));
        }
        st.add(c.scenarios[sc].name, &o.sim);
        if let Some(v) = o.violation {
            violation = json!({
                "k": k, "scenario": c.scenarios[sc].name, "class": v.class, "detail": v.detail,
                "tape_seed": ts.to_string(), "entropy_seed": es.to_string(),
                "choices": o.sim.tape.choices.iter().map(|x| json!(x)).collect::<Vec<_>>(),
            });
            break;
        }
        k += of;
    }
    let out = json!({"stats": st.to_json(), "violation": violation, "completed": k >= runs});
    let tmp = dir.join(format!("out.{}.tmp", idx));
    fs::write(&tmp, serde_json::to_string(&out).unwrap()).unwrap();
    fs::rename(&tmp, dir.join(format!("out.{}", idx))).unwrap();
}

#[derive(Default)]
struct Stats {
    runs: u64,
    per_scenario: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    states: BTreeSet<u64>,
    scheds: BTreeSet<u64>,
    nontrivial: BTreeSet<String>,
    sim_time: u64,
    steps: u64,
    choices: u64,
    known: BTreeMap<String, String>,
    samples: Vec<Value>,
    fingerprints: BTreeMap<u64, String>,
}

impl Stats {
    fn add(&mut self, scenario: &str, s: &Sim) {
        self.runs += 1;
        *self.per_scenario.entry(scenario.into()).or_insert(0) += 1;
        for (k, v) in &s.faults {
            *self.faults.entry(k.to_string()).or_insert(0) += v;
        }
        for (k, v) in &s.probes {
            *self.probes.entry(k.to_string()).or_insert(0) += v;
        }
        for x in &s.states {
            if self.states.len() < 200_000 {
                self.states.insert(*x);
            }
        }
        self.scheds.insert(s.sched_hash);
        if !s.probes.is_empty() {
            self.nontrivial.insert(s.fingerprint());
        }
        self.sim_time += s.now;
        self.steps += s.steps;
        self.choices += s.tape.used() as u64;
        for (k, v) in &s.known {
            self.known.entry(k.clone()).or_insert_with(|| v.clone());
        }
    }
    fn to_json(&self) -> Value {
        json!({
            "runs": self.runs, "per_scenario": self.per_scenario, "faults": self.faults,
            "probes": self.probes,
            "states": self.states.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
            "scheds": self.scheds.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
            "nontrivial": self.nontrivial.iter().collect::<Vec<_>>(),
            "sim_time": self.sim_time, "steps": self.steps, "choices": self.choices,
            "known": self.known, "samples": self.samples,
            "fingerprints": self.fingerprints.iter().map(|(k,v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_,_>>(),
        })
    }
    fn merge(&mut self, v: &Value) {
        let u = |x: &Value| x.as_u64().unwrap_or(0);
        self.runs += u(&v["runs"]);
        self.sim_time += u(&v["sim_time"]);
        self.steps += u(&v["steps"]);
        self.choices += u(&v["choices"]);
        for (name, m) in [
            ("per_scenario", &mut self.per_scenario),
            ("faults", &mut self.faults),
            ("probes", &mut self.probes),
        ] {
            if let Some(o) = v[name].as_object() {
                for (k, x) in o {
                    *m.entry(k.clone()).or_insert(0) += u(x);
                }
            }
        }
        for (name, m) in [("states", &mut self.states), ("scheds", &mut self.scheds)] {
            if let Some(a) = v[name].as_array() {
                for x in a {
                    m.insert(x.as_str().unwrap().parse().unwrap());
                }
            }
        }
        if let Some(a) = v["nontrivial"].as_array() {
            for x in a {
                self.nontrivial.insert(x.as_str().unwrap().to_string());
            }
        }
        if let Some(o) = v["known"].as_object() {
            for (k, x) in o {
                self.known
                    .entry(k.clone())
                    .or_insert(x.as_str().unwrap_or("").to_string());
            }
        }
        if let Some(a) = v["samples"].as_array() {
            self.samples.extend(a.iter().cloned());
        }
        if let Some(o) = v["fingerprints"].as_object() {
            for (k, x) in o {
                self.fingerprints
                    .insert(k.parse().unwrap(), x.as_str().unwrap().to_string());
            }
        }
    }
}

fn case_json(c: &Check, scenario: &str, tape: Option<&[u64]>, tape_seed: u64, entropy_seed: u64, variant: u64) -> Value {
    json!({
        "property": c.property, "scenario": scenario,
        "tape": tape.map(|t| t.to_vec()), "tape_seed": tape_seed.to_string(),
        "entropy_seed": entropy_seed.to_string(), "variant": variant,
        "tier": if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {"thorough"} else {"quick"},
    })
}

fn exec_case(c: &Check, v: &Value, human: bool) {
    limit_memory();
    let mut ctx = ctx_from_env(c.property);
    if v["tier"] == "thorough" {
        ctx.tier = Tier::Thorough;
    }
    let sc = c
        .scenarios
        .iter()
        .find(|s| v["scenario"] == s.name)
        .expect("scenario");
    let tape = match v["tape"].as_array() {
        Some(a) => Tape::replay(a.iter().map(|x| x.as_u64().unwrap()).collect()),
        None => Tape::record(v["tape_seed"].as_str().unwrap().parse().unwrap()),
    };
    let es: u64 = v["entropy_seed"].as_str().unwrap().parse().unwrap();
    if human {
        if let Some(cl) = v["expect"]["class"].as_str() {
            if cl.starts_with("crash:") || cl == "hang" {
                println!("(this case ended in {}; it is re-executed in this process)", cl);
                std::io::stdout().flush().unwrap();
            }
        }
    }
    let o = run_one(sc.run, tape, es, &ctx, human, v["variant"].as_u64().unwrap_or(0));
    if human {
        for l in &o.sim.log {
            println!("{}", l);
        }
        println!("fingerprint {}", o.sim.fingerprint());
        if let Some(e) = v["expect"]["fingerprint"].as_str() {
            println!(
                "recorded    {} ({})",
                e,
                if e == o.sim.fingerprint() {
                    "identical execution"
                } else {
                    "execution differs"
                }
            );
        }
        match o.violation {
            Some(x) => {
                println!("VIOLATION property={} class={} : {}", c.property, x.class, x.detail);
                std::process::exit(1);
            }
            None => println!("no violation"),
        }
    } else {
        let out = json!({
            "class": o.violation.as_ref().map(|v| v.class.clone()),
            "detail": o.violation.as_ref().map(|v| v.detail.clone()),
            "fingerprint": o.sim.fingerprint(),
            "used": o.sim.tape.used(),
            "choices": o.sim.tape.choices.iter().take(200_000).collect::<Vec<_>>(),
        });
        println!("\n@@OUT {}", out);
    }
}

#[derive(Debug, Clone)]
struct ExecOut {
    class: Option<String>,
    detail: String,
    fingerprint: String,
    used: usize,
    choices: Vec<u64>,
}

/// Run a case in a fresh process; crashes and hangs become classes of their own.
fn exec_sub(dir: &Path, tag: &str, case: &Value, limit: Duration) -> ExecOut {
    let f = dir.join(format!("case.{}.json", tag));
    fs::write(&f, serde_json::to_string(case).unwrap()).unwrap();
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .arg("exec")
        .arg(&f)
        .env("SIM_VERIF_DIR", verif_dir())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let mut so = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t0 = Instant::now();
    let status = loop {
        match ch.try_wait().unwrap() {
            Some(s) => break Some(s),
            None => {
                if t0.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(3));
            }
        }
    };
    let out = rd.join().unwrap_or_default();
    let _ = fs::remove_file(&f);
    let blank = ExecOut {
        class: None,
        detail: String::new(),
        fingerprint: String::new(),
        used: 0,
        choices: vec![],
    };
    match status {
        None => ExecOut {
            class: Some("hang".into()),
            detail: format!("no progress within {:?}", limit),
            ..blank
        },
        Some(s) => {
            if let Some(l) = out.lines().rev().find(|l| l.starts_with("@@OUT ")) {
                let v: Value = serde_json::from_str(&l[6..]).unwrap_or(Value::Null);
                ExecOut {
                    class: v["class"].as_str().map(|x| x.to_string()),
                    detail: v["detail"].as_str().unwrap_or("").to_string(),
                    fingerprint: v["fingerprint"].as_str().unwrap_or("").to_string(),
                    used: v["used"].as_u64().unwrap_or(0) as usize,
                    choices: v["choices"]
                        .as_array()
                        .map(|a| a.iter().filter_map(|x| x.as_u64()).collect())
                        .unwrap_or_default(),
                }
            } else {
                use std::os::unix::process::ExitStatusExt;
                ExecOut {
                    class: Some(format!("crash:signal{}", s.signal().unwrap_or(0))),
                    detail: format!("the process died: {:?}", s),
                    ..blank
                }
            }
        }
    }
}

fn parent(c: &Check) -> i32 {
    let t0 = Instant::now();
    let ctx = ctx_from_env(c.property);
    let runs = match ctx.tier {
        Tier::Quick => c.quick_runs,
        Tier::Thorough => c.thorough_runs,
    };
    let runs = std::env::var("SIM_RUNS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(runs);
    let secs: u64 = std::env::var("SIM_SECS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(match ctx.tier {
            Tier::Quick => 240,
            Tier::Thorough => 3000,
        });
    let nw: u64 = std::env::var("SIM_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|n| n.get() as u64)
                .unwrap_or(4)
                .min(8)
        });
    let dir = std::env::temp_dir().join(format!("ursa-sim-{}-{}", c.property, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<Option<std::process::Child>> = (0..nw)
        .map(|i| {
            Some(
                Command::new(&exe)
                    .arg("worker")
                    .arg(c.property)
                    .arg(i.to_string())
                    .arg(nw.to_string())
                    .arg(runs.to_string())
                    .arg(secs.to_string())
                    .arg(&dir)
                    .env("SIM_VERIF_DIR", verif_dir())
                    .stdout(Stdio::null())
                    .stderr(Stdio::null())
                    .spawn()
                    .expect("spawn worker"),
            )
        })
        .collect();
    let mut st = Stats::default();
    let mut found: Vec<(u64, String, String, String, Option<Vec<u64>>)> = vec![]; // k, scenario, class, detail, choices
    let sched = schedule_of(c);
    let mut harness_error = None;
    while kids.iter().any(|k| k.is_some()) {
        std::thread::sleep(Duration::from_millis(15));
        for i in 0..kids.len() {
            let Some(ch) = kids[i].as_mut() else { continue };
            let prog = || -> Option<(u64, u64)> {
                let b = fs::read(dir.join(format!("prog.{}", i))).ok()?;
                if b.len() < 16 {
                    return None;
                }
                Some((
                    u64::from_le_bytes(b[..8].try_into().unwrap()) - 1,
                    u64::from_le_bytes(b[8..16].try_into().unwrap()),
                ))
            };
            let status = ch.try_wait().unwrap();
            let mut dead_k = None;
            match status {
                Some(_) => {
                    let of = dir.join(format!("out.{}", i));
                    if let Ok(s) = fs::read_to_string(&of) {
                        let v: Value = serde_json::from_str(&s).unwrap();
                        st.merge(&v["stats"]);
                        if !v["violation"].is_null() {
                            let x = &v["violation"];
                            found.push((
                                x["k"].as_u64().unwrap(),
                                x["scenario"].as_str().unwrap().into(),
                                x["class"].as_str().unwrap().into(),
                                x["detail"].as_str().unwrap().into(),
                                Some(
                                    x["choices"]
                                        .as_array()
                                        .unwrap()
                                        .iter()
                                        .map(|y| y.as_u64().unwrap())
                                        .collect(),
                                ),
                            ));
                            let _ = fs::write(dir.join("stop"), b"1");
                        }
                    } else {
                        dead_k = Some(prog().map(|p| p.0));
                    }
                    kids[i] = None;
                }
                None => {
                    if let Some((k, t)) = prog() {
                        if now_ms().saturating_sub(t) > RUN_LIMIT_S * 1000 {
                            let _ = ch.kill();
                            let _ = ch.wait();
                            kids[i] = None;
                            dead_k = Some(Some(k));
                        }
                    }
                }
            }
            if let Some(k) = dead_k {
                match k {
                    Some(k) => {
                        let _ = fs::write(dir.join("stop"), b"1");
                        let (sc, ts, es) = seeds_for(c, ctx.seed, k, &sched);
                        let case = case_json(c, c.scenarios[sc].name, None, ts, es, k);
                        let o = exec_sub(&dir, "confirm", &case, Duration::from_secs(RUN_LIMIT_S + 60));
                        match o.class {
                            Some(cl) => found.push((
                                k,
                                c.scenarios[sc].name.into(),
                                cl,
                                o.detail,
                                if o.choices.is_empty() { None } else { Some(o.choices) },
                            )),
                            None => {
                                harness_error =
                                    Some(format!("worker {} died at run {} but the run does not reproduce it", i, k))
                            }
                        }
                    }
                    None => harness_error = Some(format!("worker {} died before its first run", i)),
                }
            }
        }
    }
    let explore_s = t0.elapsed().as_secs_f64();
    found.sort_by(|a, b| a.0.cmp(&b.0));

    // Determinism: re-execute some runs in fresh processes.
    let mut rechecks = 0;
    let mut mismatches = vec![];
    if found.is_empty() {
        for (k, fp) in st.fingerprints.clone().into_iter().take(4) {
            let (sc, ts, es) = seeds_for(c, ctx.seed, k, &sched);
            let case = case_json(c, c.scenarios[sc].name, None, ts, es, k);
            let o = exec_sub(&dir, "det", &case, Duration::from_secs(RUN_LIMIT_S));
            rechecks += 1;
            if o.fingerprint != fp {
                mismatches.push(k);
            }
        }
    }

    let mut code = 0;
    if std::env::var("SIM_COLLECT").is_ok() {
        for (class, d) in &st.known {
            println!("collected: [{}] {}", class, d);
        }
    }
    for (class, what) in load_known(c.property) {
        if st.known.contains_key(&class) {
            println!("KNOWN-FINDING: property={} {}", c.property, what);
        } else if found.is_empty() {
            println!("note: known finding not met in this run: {}", class);
        }
    }
    let mut vio_json = Value::Null;
    if let Some((k, scen, class, detail, choices)) = found.first().cloned() {
        code = 1;
        let (_, ts, es) = seeds_for(c, ctx.seed, k, &sched);
        let mut shrink_info = json!({});
        let mut final_tape: Option<Vec<u64>> = choices.clone();
        let mut fingerprint = String::new();
        let mut final_detail = detail.clone();
        let crashy = class.starts_with("crash:") || class == "hang";
        if let Some(tape) = choices {
            let (t, fp, d, info) = shrink(c, &dir, &scen, &class, tape, ts, es, k, crashy);
            final_tape = Some(t);
            fingerprint = fp;
            if !d.is_empty() {
                final_detail = d;
            }
            shrink_info = info;
        }
        let rdir = verif_dir().join("replays");
        let _ = fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-s{}-r{}.json", c.property, ctx.seed, k));
        let mut case = case_json(c, &scen, final_tape.as_deref(), ts, es, k);
        case["expect"] = json!({"class": class, "detail": final_detail, "fingerprint": fingerprint});
        case["found"] = json!({"verif_seed": ctx.seed, "run": k, "minimisation": shrink_info});
        // human-readable trace of the minimised run
        if !crashy {
            let sc = c.scenarios.iter().find(|s| s.name == scen).unwrap();
            if let Some(t) = &final_tape {
                let o = run_one(sc.run, Tape::replay(t.clone()), es, &ctx, true, k);
                case["trace"] = json!(o.sim.log.iter().rev().take(400).rev().collect::<Vec<_>>());
                case["faults"] = json!(o.sim.faults);
            }
        }
        fs::write(&path, serde_json::to_string_pretty(&case).unwrap()).unwrap();
        println!(
            "violated: {} [{}] scenario={} run={} : {}",
            c.property, class, scen, k, final_detail
        );
        println!("VIOLATION property={} replay={}", c.property, path.display());
        vio_json = json!({"class": class, "detail": final_detail, "replay": path.display().to_string()});
    }
    if code == 0 {
        if let Some(e) = &harness_error {
            eprintln!("harness error: {}", e);
            code = 2;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let cov = json!({
        "evaluations": st.runs,
        "distinct_nontrivial": st.nontrivial.len(),
        "rule": c.rule,
        "samples": st.samples,
        "runs_requested": runs,
        "runs_per_hour": (st.runs as f64 / explore_s * 3600.0) as u64,
        "seeds": {"verif_seed": ctx.seed, "per_run": "mix(verif_seed, property, scenario, run index)"},
        "per_scenario_runs": st.per_scenario,
        "simulated_time_ticks": st.sim_time,
        "simulated_steps": st.steps,
        "choices_drawn": st.choices,
        "faults_injected": st.faults,
        "distinct_interleavings": st.scheds.len(),
        "distinct_interleavings_measure": "distinct hashes of the run's sequence of scheduling and fault decisions",
        "distinct_states": st.states.len(),
        "distinct_states_measure": "distinct hashes of the abstract system state sampled by the scenario after each step",
        "probes": st.probes,
        "determinism_rechecks": {"runs": rechecks, "mismatches": mismatches},
        "components_real": c.real,
        "components_stub": c.stub,
        "known_findings_met": st.known.keys().collect::<Vec<_>>(),
        "violation": vio_json,
        "workers": nw,
    });
    let ev = json!({
        "property": c.property,
        "tier": if ctx.tier == Tier::Thorough {"thorough"} else {"quick"},
        "seed": ctx.seed,
        "level": c.level,
        "coverage": cov,
        "assumptions": c.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": if code == 1 {1} else {0},
    });
    let edir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&edir);
    fs::write(
        edir.join(format!("{}.json", c.property)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();
    let _ = fs::remove_dir_all(&dir);
    println!(
        "{} {}: {} runs in {:.1}s ({} distinct), {} steps, faults {:?}{}",
        c.property,
        if code == 0 { "held" } else if code == 1 { "VIOLATED" } else { "error" },
        st.runs,
        wall,
        st.nontrivial.len(),
        st.steps,
        st.faults,
        if mismatches.is_empty() { String::new() } else { format!(" NONDETERMINISTIC {:?}", mismatches) }
    );
    if std::env::var("SIM_PROBES").is_ok() {
        println!("probes {:#?}", st.probes);
    }
    code
}

/// Delta-debug the tape: shorter and smaller choices that still give the same violation class.
fn shrink(
    c: &Check,
    dir: &Path,
    scen: &str,
    class: &str,
    tape: Vec<u64>,
    ts: u64,
    es: u64,
    k: u64,
    crashy: bool,
) -> (Vec<u64>, String, String, Value) {
    let budget = Duration::from_secs(if crashy { 30 } else { 40 });
    let limit = Duration::from_secs(if class == "hang" { 20 } else { 60 });
    let t0 = Instant::now();
    let evals = std::cell::Cell::new(0u64);
    let try_many = |cands: Vec<Vec<u64>>| -> Option<(Vec<u64>, ExecOut)> {
        let outs: Vec<(Vec<u64>, ExecOut)> = std::thread::scope(|s| {
            let hs: Vec<_> = cands
                .into_iter()
                .enumerate()
                .map(|(i, t)| {
                    s.spawn(move || {
                        let case = case_json(c, scen, Some(&t), ts, es, k);
                        let o = exec_sub(dir, &format!("shrink{}", i), &case, limit);
                        (t, o)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        evals.set(evals.get() + outs.len() as u64);
        outs.into_iter()
            .find(|(_, o)| o.class.as_deref() == Some(class))
    };
    let start_len = tape.len();
    let Some((mut best, mut out)) = try_many(vec![tape.clone()]) else {
        return (
            tape,
            String::new(),
            String::new(),
            json!({"note": "the recorded tape did not reproduce the same class"}),
        );
    };
    if out.used > 0 && out.used < best.len() {
        best.truncate(out.used);
    }
    let trim = |b: &mut Vec<u64>| {
        while b.last() == Some(&0) {
            b.pop();
        }
    };
    // 1. shorten / zero blocks
    let mut block = (best.len() / 2).max(1);
    'outer: while block >= 1 {
        let mut i = 0;
        while i < best.len() {
            if t0.elapsed() > budget {
                break 'outer;
            }
            let mut cands = vec![];
            let mut j = i;
            while cands.len() < 8 && j < best.len() {
                let e = (j + block).min(best.len());
                if best[j..e].iter().any(|x| *x != 0) {
                    let mut z = best.clone();
                    z[j..e].iter_mut().for_each(|x| *x = 0);
                    cands.push(z);
                }
                if cands.len() < 8 {
                    let mut d = best.clone();
                    d.drain(j..e);
                    cands.push(d);
                }
                j = e;
            }
            if cands.is_empty() {
                break;
            }
            match try_many(cands) {
                Some((t, o)) => {
                    best = t;
                    if o.used < best.len() {
                        best.truncate(o.used);
                    }
                    trim(&mut best);
                    out = o;
                }
                None => i = j,
            }
        }
        if block == 1 {
            break;
        }
        block /= 2;
    }
    // 2. lower single values
    let mut i = 0;
    while i < best.len() && t0.elapsed() < budget {
        if best[i] > 0 {
            let v = best[i];
            let mut cands = vec![];
            for nv in [0, 1, v / 2, v - 1] {
                if nv < v {
                    let mut z = best.clone();
                    z[i] = nv;
                    cands.push(z);
                }
            }
            if let Some((t, o)) = try_many(cands) {
                best = t;
                out = o;
                if best.get(i).copied().unwrap_or(0) > 1 {
                    continue;
                }
            }
        }
        i += 1;
    }
    trim(&mut best);
    // exact reproduction in two fresh processes
    let case = case_json(c, scen, Some(&best), ts, es, k);
    let a = exec_sub(dir, "final1", &case, limit);
    let b = exec_sub(dir, "final2", &case, limit);
    let exact = a.class == b.class && a.fingerprint == b.fingerprint && a.class.as_deref() == Some(class);
    let (fp, det) = if exact {
        (a.fingerprint, a.detail)
    } else {
        (out.fingerprint.clone(), out.detail.clone())
    };
    let info = json!({
        "from_choices": start_len, "to_choices": best.len(), "evaluations": evals.get(),
        "reproduced_exactly_twice": exact, "seconds": t0.elapsed().as_secs(),
    });
    (best, fp, det, info)
}

fn determinism(c: &Check, n: u64) -> i32 {
    let ctx = ctx_from_env(c.property);
    let sched = schedule_of(c);
    let dir = std::env::temp_dir().join(format!("ursa-sim-det-{}-{}", c.property, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let next = std::sync::atomic::AtomicU64::new(0);
    let bad = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for w in 0..8 {
            let (next, bad, sched, dir, ctx) = (&next, &bad, &sched, &dir, &ctx);
            s.spawn(move || loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= n {
                    break;
                }
                let (sc, ts, es) = seeds_for(c, ctx.seed, k, sched);
                let case = case_json(c, c.scenarios[sc].name, None, ts, es, k);
                let a = exec_sub(dir, &format!("a{}", w), &case, Duration::from_secs(300));
                // the second execution replays the recorded choices instead of the seed
                let case2 = case_json(c, c.scenarios[sc].name, Some(&a.choices), ts, es, k);
                let b = exec_sub(dir, &format!("b{}", w), &case2, Duration::from_secs(300));
                if a.fingerprint != b.fingerprint || a.class != b.class {
                    bad.lock().unwrap().push((k, c.scenarios[sc].name));
                }
            });
        }
    });
    let _ = fs::remove_dir_all(&dir);
    let bad = bad.into_inner().unwrap();
    println!("{}: {} runs executed twice in fresh processes, {} differ {:?}", c.property, n, bad.len(), bad);
    if bad.is_empty() {
        0
    } else {
        1
    }
}
