//! A simulated network between named nodes: loss, duplication, reordering, delay, partition,
//! corruption. Delivery order is a scheduling decision of the simulator.
use crate::sim::Sim;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct Msg {
    pub id: u64,
    pub from: usize,
    pub to: usize,
    pub kind: &'static str,
    pub body: Vec<u8>,
    /// Set when the network altered the body.
    pub tampered: bool,
    pub sent_at: u64,
    pub ready_at: u64,
}

#[derive(Clone, Debug, Default)]
pub struct NetCfg {
    pub drop: u64,
    pub dup: u64,
    pub corrupt: u64,
    pub delay: u64,
    pub reorder: bool,
    pub max_delay: u64,
}

impl NetCfg {
    /// Swarm: each run switches a random subset of the faults on, with a random intensity.
    pub fn swarm(sim: &mut Sim, allow_corrupt: bool) -> NetCfg {
        let lvl = [0u64, 30, 120, 300];
        let mut c = NetCfg::default();
        c.drop = *sim.of(&lvl);
        c.dup = *sim.of(&lvl);
        c.delay = *sim.of(&lvl);
        c.reorder = sim.coin();
        c.max_delay = 1 + sim.choose(40);
        if allow_corrupt {
            c.corrupt = *sim.of(&[0u64, 50, 200]);
        }
        c
    }
}

pub struct Net {
    pub q: Vec<Msg>,
    next_id: u64,
    pub cfg: NetCfg,
    pub blocked: BTreeSet<(usize, usize)>,
    pub healthy: bool,
}

impl Net {
    pub fn new(cfg: NetCfg) -> Net {
        Net {
            q: Vec::new(),
            next_id: 0,
            cfg,
            blocked: BTreeSet::new(),
            healthy: false,
        }
    }
    /// Stop injecting faults and deliver everything from here on.
    pub fn heal(&mut self) {
        self.healthy = true;
        self.blocked.clear();
    }
    pub fn partition(&mut self, sim: &mut Sim, a: usize, b: usize) {
        sim.note_fault("net.partition");
        self.blocked.insert((a, b));
        self.blocked.insert((b, a));
    }
    pub fn send(&mut self, sim: &mut Sim, from: usize, to: usize, kind: &'static str, body: Vec<u8>) {
        let id = self.next_id;
        self.next_id += 1;
        sim.event(|| format!("send #{} {}->{} {} ({}B)", id, from, to, kind, body.len()));
        let mut copies = 1;
        if !self.healthy {
            if self.blocked.contains(&(from, to)) || sim.fault("net.drop", self.cfg.drop) {
                return;
            }
            if sim.fault("net.dup", self.cfg.dup) {
                copies = 2;
            }
        }
        for _ in 0..copies {
            let mut m = Msg {
                id,
                from,
                to,
                kind,
                body: body.clone(),
                tampered: false,
                sent_at: sim.now,
                ready_at: sim.now + 1,
            };
            if !self.healthy {
                if sim.fault("net.delay", self.cfg.delay) {
                    m.ready_at += sim.choose(self.cfg.max_delay + 1);
                }
                if !m.body.is_empty() && sim.fault("net.corrupt", self.cfg.corrupt) {
                    let i = sim.pick(m.body.len());
                    let b = 1u8 << sim.choose(8);
                    m.body[i] ^= b;
                    m.tampered = true;
                }
            }
            self.q.push(m);
        }
    }
    /// Next delivery, or None when nothing is in flight.
    pub fn next(&mut self, sim: &mut Sim) -> Option<Msg> {
        if self.q.is_empty() {
            return None;
        }
        let ready: Vec<usize> = (0..self.q.len())
            .filter(|i| self.q[*i].ready_at <= sim.now)
            .collect();
        let idx = if ready.is_empty() {
            // advance simulated time to the earliest message
            let t = self.q.iter().map(|m| m.ready_at).min().unwrap();
            sim.now = t;
            let ready: Vec<usize> = (0..self.q.len())
                .filter(|i| self.q[*i].ready_at <= t)
                .collect();
            self.pick(sim, &ready)
        } else {
            self.pick(sim, &ready)
        };
        let m = self.q.remove(idx);
        sim.tick(1);
        sim.event(|| {
            format!(
                "deliver #{} {}->{} {}{}",
                m.id,
                m.from,
                m.to,
                m.kind,
                if m.tampered { " (tampered)" } else { "" }
            )
        });
        Some(m)
    }
    fn pick(&mut self, sim: &mut Sim, ready: &[usize]) -> usize {
        if self.cfg.reorder && !self.healthy && ready.len() > 1 {
            let k = sim.schedule(ready.len());
            if k != 0 {
                *sim.faults.entry("net.reorder").or_insert(0) += 1;
            }
            ready[k]
        } else {
            sim.steps += 1;
            ready[0]
        }
    }
}
