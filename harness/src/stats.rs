//! What the evidence reports about a search.
use crate::oracle::Verdict;
use crate::world::Outcome;
use crate::{client, world};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::hash::{BuildHasherDefault, DefaultHasher};

/// Draws no randomness, unlike the default: the simulated randomness is for the library.
pub type HashSet<T> = std::collections::HashSet<T, BuildHasherDefault<DefaultHasher>>;

pub type Counts = BTreeMap<String, u64>;

fn bump(m: &mut Counts, k: &str, n: u64) {
    match m.get_mut(k) {
        Some(x) => *x += n,
        None => {
            m.insert(k.to_string(), n);
        }
    }
}

#[derive(Default, Serialize, Deserialize)]
pub struct Stats {
    pub runs: u64,
    pub execs: u64,
    pub sim_us: u64,
    pub events: u64,
    pub ops: u64,
    pub sessions: u64,
    pub bytes: u64,
    pub hits: Counts,
    pub outcomes: Counts,
    pub faults: Counts,
    pub fault_free: u64,
    pub shapes: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub nontrivial_runs: u64,
    pub redone: u64,
    pub nondet: u64,
    pub clock_reads: u64,
    pub random_reads: u64,
    pub samples: Vec<Value>,
    pub hash: u64,
}

pub fn outcome_name(o: &Outcome) -> &'static str {
    use world::Outcome::*;
    match o {
        Pending => "pending",
        Ok(_) => "ok",
        Transient(..) => "transient",
        Permanent(..) => "permanent",
        Io(_) => "io",
        Parsing => "parsing",
        Client(_) => "client",
        Other(_) => "other",
        Cancelled => "cancelled",
        Panicked(_) => "panicked",
    }
}

impl Stats {
    pub fn add(&mut self, prop: &str, r: &client::Run, v: &Verdict) {
        let w = &r.world;
        self.runs += 1;
        self.sim_us += w.now;
        self.events += w.events;
        self.clock_reads += r.clock_reads;
        self.random_reads += r.random_reads;
        for s in &w.ss {
            self.sessions += 1;
            self.bytes += s.out_off + s.consumed;
            for o in &s.ops {
                self.ops += 1;
                bump(&mut self.outcomes, outcome_name(&o.outcome), 1);
            }
        }
        const NOT_FAULTS: [&str; 3] = ["custom_reply", "tls_upgrade", "short_write"];
        let mut any = false;
        for (k, n) in &w.counters {
            bump(&mut self.faults, k, *n);
            any |= !NOT_FAULTS.contains(k);
        }
        if !any {
            self.fault_free += 1;
        }
        self.shapes.insert(w.shape);
        let mut hit = 0;
        for (k, n) in &v.hit {
            bump(&mut self.hits, k, *n);
            if *k == prop {
                hit = *n;
            }
        }
        if hit > 0 {
            self.nontrivial_runs += 1;
            self.nontrivial.insert(w.shape);
        }
        // Order-independent digest of all traces.
        self.hash = self.hash.wrapping_add(w.trace.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ w.trace);
    }
    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.execs += o.execs;
        self.sim_us += o.sim_us;
        self.events += o.events;
        self.ops += o.ops;
        self.sessions += o.sessions;
        self.bytes += o.bytes;
        self.fault_free += o.fault_free;
        self.nontrivial_runs += o.nontrivial_runs;
        self.redone += o.redone;
        self.nondet += o.nondet;
        self.clock_reads += o.clock_reads;
        self.random_reads += o.random_reads;
        self.hash = self.hash.wrapping_add(o.hash);
        for (a, b) in [(&mut self.hits, o.hits), (&mut self.outcomes, o.outcomes), (&mut self.faults, o.faults)] {
            for (k, n) in b {
                bump(a, &k, n);
            }
        }
        self.shapes.extend(o.shapes);
        self.nontrivial.extend(o.nontrivial);
        self.samples.extend(o.samples);
    }
}
