//! Discrete-event network between one fetching node and its peers. The traversals under test run on
//! the fetching node; blocks reach them only through here.
use crate::core::*;
use crate::ev;
use crate::gen::*;
use crate::refpb::short;
use libipld::Cid;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};
use std::rc::Rc;

pub trait Session {
    /// Blocks known to be needed, the one needed next first. `None` when finished.
    fn want(&mut self, run: &mut Run) -> Res<Option<Vec<Cid>>>;
    /// The block needed next has arrived.
    fn feed(&mut self, run: &mut Run, cid: &Cid, block: &[u8]) -> Res;
    /// The process died or the traversal was cancelled: start over.
    fn restart(&mut self, run: &mut Run) -> Res;
    /// Upper bound of feeds a complete traversal takes.
    fn bound(&self) -> u64;
}

#[derive(Clone, Debug)]
pub struct NetCfg {
    /// probabilities out of 256
    pub drop: u64,
    pub dup: u64,
    pub corrupt: u64,
    pub crash: u64,
    pub cancel: u64,
    pub evict: u64,
    pub missing: u64,
    pub prefetch: u64,
    pub jitter: u64,
    pub rto: u64,
    pub partitions: Vec<(u64, u64)>,
    pub fault_until: u64,
    /// probability that the node waits for the network although it could run a traversal, of 8
    pub lazy: u64,
    /// blocks the node already has, of 8
    pub preload: u64,
}

/// Swarm style: every run enables its own subset of fault kinds at its own rates.
pub fn gen_net(run: &mut Run) -> NetCfg {
    let s = run.t.begin();
    let calm = run.chance(1, 6);
    let rate = |run: &mut Run, on: u64, max: u64| if !calm && run.chance(on, 8) { run.range(1, max) } else { 0 };
    let drop = rate(run, 4, 90);
    let dup = rate(run, 3, 90);
    let corrupt = rate(run, 3, 60);
    let crash = rate(run, 2, 8);
    let cancel = rate(run, 3, 12);
    let evict = rate(run, 2, 60);
    let missing = rate(run, 3, 90);
    let prefetch = if run.flip() { run.range(1, 8) } else { 0 };
    let jitter = match run.below(4) {
        0 => 0,
        1 => run.below(400),
        2 => run.below(5_000),
        _ => run.below(60_000),
    };
    let rto = run.range(1_000, 40_000);
    let mut partitions = vec![];
    if !calm && run.chance(2, 8) {
        for _ in 0..run.urange(1, 3) {
            let a = run.below(300_000);
            let l = run.range(5_000, 200_000);
            partitions.push((a, a + l));
        }
    }
    let fault_until = if calm { 0 } else { run.range(20_000, 1_500_000) };
    let lazy = run.below(7);
    let preload = if run.chance(1, 5) { run.range(1, 8) } else { 0 };
    run.t.end(s);
    NetCfg { drop, dup, corrupt, crash, cancel, evict, missing, prefetch, jitter, rto, partitions, fault_until, lazy, preload }
}


#[derive(Clone)]
enum What {
    Request(Cid),
    Response(Cid, Rc<Vec<u8>>),
    NoBlock(Cid),
    Timeout(Cid, u64),
}

#[derive(Default, Debug)]
pub struct Stats {
    pub events: u64,
    pub feeds: u64,
    pub after_faults: u64,
}

struct Net<'a> {
    cfg: &'a NetCfg,
    q: BinaryHeap<Reverse<(u64, u64, usize)>>,
    ev: Vec<Option<What>>,
    seq: u64,
    /// latest attempt per outstanding block
    out: BTreeMap<Cid, u64>,
    attempts: u64,
    t0: u64,
    /// delivered so far; faults also stop after very many
    delivered: u64,
}

impl<'a> Net<'a> {
    fn faulty(&self, run: &Run) -> bool {
        self.delivered < 60_000 && run.now - self.t0 < self.cfg.fault_until
    }
    fn at(&mut self, t: u64, w: What) {
        self.seq += 1;
        self.ev.push(Some(w));
        self.q.push(Reverse((t, self.seq, self.ev.len() - 1)));
    }
    fn delay(&mut self, run: &mut Run) -> u64 {
        let base = 200;
        if self.cfg.jitter == 0 {
            return base;
        }
        let j = if self.faulty(run) { self.cfg.jitter } else { self.cfg.jitter.min(800) };
        base + run.below(j + 1)
    }
    /// one leg of a message
    fn send(&mut self, run: &mut Run, w: What) {
        let f = self.faulty(run);
        if f {
            let rel = run.now - self.t0;
            if self.cfg.partitions.iter().any(|(a, b)| rel >= *a && rel < *b) {
                run.fault("partitioned");
                return;
            }
            if self.cfg.drop > 0 && run.chance(self.cfg.drop, 256) {
                run.fault("dropped");
                return;
            }
            if self.cfg.dup > 0 && run.chance(self.cfg.dup, 256) {
                run.fault("duplicated");
                let d = self.delay(run);
                self.at(run.now + d * 2, w.clone());
            }
        }
        let d = self.delay(run);
        let w = match w {
            What::Response(c, b) if f && self.cfg.corrupt > 0 && !b.is_empty() && run.chance(self.cfg.corrupt, 256) => {
                run.fault("corrupted");
                let mut v = (*b).clone();
                let i = run.idx(v.len());
                if run.flip() {
                    v.truncate(i);
                } else {
                    v[i] ^= 1 << run.below(8);
                }
                What::Response(c, Rc::new(v))
            }
            w => w,
        };
        self.at(run.now + d, w);
    }
    fn request(&mut self, run: &mut Run, c: Cid) {
        self.attempts += 1;
        let a = self.attempts;
        self.out.insert(c, a);
        let rto = if self.faulty(run) { self.cfg.rto } else { self.cfg.rto.max(5_000) };
        self.at(run.now + rto, What::Timeout(c, a));
        self.send(run, What::Request(c));
    }
}

/// Runs all sessions to completion over the simulated network.
pub fn exchange(run: &mut Run, cfg: &NetCfg, store: &Blocks, sessions: &mut [Box<dyn Session + '_>]) -> Res<Stats> {
    let mut n = Net { cfg, q: BinaryHeap::new(), ev: vec![], seq: 0, out: BTreeMap::new(), attempts: 0, t0: run.now, delivered: 0 };
    let mut have: BTreeMap<Cid, Rc<Vec<u8>>> = BTreeMap::new();
    if cfg.preload > 0 {
        for (c, b) in &store.0 {
            if run.chance(cfg.preload, 8) {
                have.insert(*c, b.clone());
            }
        }
    }
    let mut wants: Vec<Option<Vec<Cid>>> = vec![];
    let mut fresh: Vec<bool> = vec![true; sessions.len()];
    for s in sessions.iter_mut() {
        wants.push(s.want(run)?);
    }
    let mut st = Stats::default();
    // a traversal longer than the mean time between cancellations would never end
    let mut cancels: Vec<u32> = vec![5; sessions.len()];
    let mut limit: Option<u64> = None;
    let mut wire = Wire::default();
    loop {
        // ask for what is needed and some of what will be
        for i in 0..sessions.len() {
            if let Some(w) = &wants[i] {
                let first = w[0];
                if !have.contains_key(&first) && !n.out.contains_key(&first) {
                    n.request(run, first);
                }
                if fresh[i] && cfg.prefetch > 0 && w.len() > 1 {
                    for _ in 0..run.below(cfg.prefetch + 1) {
                        let c = w[1 + run.idx(w.len() - 1)];
                        if !have.contains_key(&c) && !n.out.contains_key(&c) {
                            run.count("prefetches");
                            n.request(run, c);
                        }
                    }
                }
                fresh[i] = false;
            }
        }
        if wants.iter().all(|w| w.is_none()) {
            break;
        }
        let faulty = n.faulty(run);
        if !faulty {
            let l = *limit.get_or_insert_with(|| 400 + n.q.len() as u64 * 4 + 14 * sessions.iter().map(|s| s.bound() + 2).sum::<u64>());
            st.after_faults += 1;
            if st.after_faults > l {
                return viol("no-progress", format!("not finished {} steps after the last fault", l));
            }
        }
        let runnable: Vec<usize> = (0..sessions.len()).filter(|i| wants[*i].as_ref().map_or(false, |w| have.contains_key(&w[0]))).collect();
        if !runnable.is_empty() && (n.q.is_empty() || !run.chance(cfg.lazy, 8)) {
            let i = runnable[run.idx(runnable.len())];
            run.sig(i as u64);
            if faulty && cfg.cancel > 0 && cancels[i] > 0 && run.chance(cfg.cancel, 256) {
                cancels[i] -= 1;
                run.fault("cancelled");
                ev!(run, "session {} cancelled and restarted", i);
                sessions[i].restart(run)?;
            } else {
                let c = wants[i].as_ref().unwrap()[0];
                run.now += 5;
                ev!(run, "session {} gets {}", i, short(&c));
                wire.lend(&have[&c], |b| sessions[i].feed(run, &c, b))?;
                st.feeds += 1;
                if faulty && cfg.evict > 0 && run.chance(cfg.evict, 256) {
                    run.fault("evicted");
                    have.remove(&c);
                }
            }
            wants[i] = sessions[i].want(run)?;
            fresh[i] = true;
            continue;
        }
        let Reverse((t, _, k)) = match n.q.pop() {
            Some(x) => x,
            None => panic!("simulator: no event left but sessions are waiting"),
        };
        run.now = run.now.max(t);
        st.events += 1;
        n.delivered += 1;
        if st.events > 1_000_000 {
            panic!("simulator: event budget exceeded");
        }
        if n.faulty(run) && cfg.crash > 0 && run.chance(cfg.crash, 256) {
            run.fault("node_crash");
            // only some of the fetched blocks were durable, everything in memory is gone
            let keep = run.below(9);
            let all: Vec<Cid> = have.keys().cloned().collect();
            for c in all {
                if !run.chance(keep, 8) {
                    have.remove(&c);
                }
            }
            n.out.clear();
            ev!(run, "node crashed, {} blocks survived", have.len());
            for (i, s) in sessions.iter_mut().enumerate() {
                if wants[i].is_some() {
                    s.restart(run)?;
                    wants[i] = s.want(run)?;
                    fresh[i] = true;
                }
            }
        }
        match n.ev[k].take().expect("event once") {
            What::Request(c) => {
                run.sig(1000 + (c.hash().digest()[0] as u64));
                match store.get(&c) {
                    Some(b) => {
                        if n.faulty(run) && cfg.missing > 0 && run.chance(cfg.missing, 256) {
                            run.fault("peer_lacks_block");
                            n.send(run, What::NoBlock(c));
                        } else {
                            let b = b.clone();
                            n.send(run, What::Response(c, b));
                        }
                    }
                    None => return viol("unneeded-block", format!("requested {} which is no block of the tree", c)),
                }
            }
            What::Response(c, b) => {
                run.sig(2000 + (c.hash().digest()[0] as u64));
                // the node checks the hash of what it receives
                let good = store.get(&c).map_or(false, |x| **x == *b);
                if !good {
                    run.count("corruption_detected");
                    ev!(run, "bad bytes for {} discarded", short(&c));
                    n.out.remove(&c);
                } else {
                    n.out.remove(&c);
                    if have.insert(c, b).is_some() {
                        run.count("duplicate_deliveries");
                    }
                    ev!(run, "block {} arrived", short(&c));
                }
            }
            What::NoBlock(c) => {
                n.out.remove(&c);
            }
            What::Timeout(c, a) => {
                if n.out.get(&c) == Some(&a) {
                    run.count("timeouts");
                    n.out.remove(&c);
                }
            }
        }
    }
    run.count_n("feeds", st.feeds);
    run.count_n("network_events", st.events);
    Ok(st)
}
