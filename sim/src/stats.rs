//! What a worker counts while it runs.
use crate::rng::{fold, mix};
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub sim_minutes: f64,
    /// hash of everything observed in the current run
    pub history: u64,
    /// hash of the shape of the current run: what kind of events happened in which order
    pub shape: u64,
    pub nontrivial: bool,
    pub distinct: HashSet<u64>,
    pub distinct_nontrivial: HashSet<u64>,
    pub states: HashSet<u64>,
    /// order-independent digest of (run index, history)
    pub digest: u64,
    pub runs: u64,
    pub nontrivial_runs: u64,
    pub samples: Vec<String>,
}

const CAP: usize = 400_000;

impl Stats {
    pub fn count(&mut self, what: &'static str) {
        *self.counters.entry(what).or_insert(0) += 1;
    }
    pub fn add(&mut self, what: &'static str, n: u64) {
        *self.counters.entry(what).or_insert(0) += n;
    }
    /// keeps the largest value (reports of several workers are merged by maximum)
    pub fn max(&mut self, what: &'static str, n: u64) {
        let v = self.maxima.entry(what).or_insert(0);
        *v = n.max(*v);
    }
    pub fn observe(&mut self, v: u64) {
        self.history = fold(self.history, v);
    }
    pub fn shape(&mut self, v: u64) {
        self.shape = fold(self.shape, v);
    }
    pub fn state(&mut self, v: u64) {
        if self.states.len() < CAP {
            self.states.insert(mix(v));
        }
    }
    pub fn begin(&mut self) {
        self.history = 0x1234;
        self.shape = 0x4321;
        self.nontrivial = false;
    }
    pub fn end(&mut self, index: u64) {
        self.runs += 1;
        self.digest = self.digest.wrapping_add(fold(fold(7, index), self.history));
        if self.distinct.len() < CAP {
            self.distinct.insert(self.shape);
        }
        if self.nontrivial {
            self.nontrivial_runs += 1;
            if self.distinct_nontrivial.len() < CAP {
                self.distinct_nontrivial.insert(self.shape);
            }
        }
    }
}
