//! Where drivers put what they observed.  Every execution is counted; executions on which the
//! native rendering disagrees with the code, and a sample of the rest, go to the trace for TLC.
use crate::val::hash64;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::io::{BufWriter, Write};

pub struct Sink {
    out: Vec<BufWriter<File>>,
    next: usize,
    pub evaluations: u64,
    pub emitted: u64,
    pub interesting: u64,
    pub behaviours: u64,
    seen: HashSet<u64>,
    // per class: executions seen, next one to show, disagreements shown
    quota: BTreeMap<String, (usize, usize, usize)>,
    per_class: usize,
    pub samples: Vec<String>,
    pub notes: BTreeMap<String, u64>,
}

impl Sink {
    pub fn new(dir: &str, shards: usize, per_class: usize) -> Sink {
        std::fs::create_dir_all(dir).unwrap();
        Sink {
            out: (0..shards)
                .map(|i| BufWriter::new(File::create(format!("{}/trace{}.ndjson", dir, i)).unwrap()))
                .collect(),
            next: 0,
            evaluations: 0,
            emitted: 0,
            interesting: 0,
            behaviours: 0,
            seen: HashSet::new(),
            quota: BTreeMap::new(),
            per_class,
            samples: vec![],
            notes: BTreeMap::new(),
        }
    }
    /// Should this agreeing execution of the class be shown to TLC?  (Counts it; the n-th is shown
    /// with a frequency that falls off as 1/n, so early and late ones are represented alike.)
    pub fn wants(&mut self, class: &str) -> bool {
        let q = self.quota.entry(class.to_string()).or_insert((0, 1, 0));
        q.0 += 1;
        if q.0 >= q.1 {
            q.1 = q.0 + (q.0 / self.per_class).max(1);
            true
        } else {
            false
        }
    }
    pub fn count(&mut self, key: &[u8]) {
        self.evaluations += 1;
        self.seen.insert(hash64(key));
    }
    pub fn distinct(&self) -> usize {
        self.seen.len()
    }
    /// One independent event; the caller has asked `wants` or found a disagreement.
    pub fn put(&mut self, class: &str, ev: String, disagrees: bool) {
        let q = self.quota.entry(class.to_string()).or_insert((0, 1, 0));
        if disagrees {
            if q.2 >= 40 {
                return;
            }
            q.2 += 1;
            self.interesting += 1;
        }
        self.force(ev);
    }
    pub fn offer(&mut self, class: &str, ev: String, disagrees: bool) {
        if disagrees || self.wants(class) {
            self.put(class, ev, disagrees);
        }
    }
    pub fn force(&mut self, ev: String) {
        self.group(&[ev]);
    }
    /// One event to a shard of the caller's choice.
    pub fn put_at(&mut self, k: usize, ev: String) {
        self.next = k % self.out.len();
        self.group(&[ev]);
    }
    /// Events that belong together, in order (one behaviour).
    pub fn group(&mut self, evs: &[String]) {
        let k = self.next % self.out.len();
        self.next += 1;
        // keep a spread of samples: the slot of the n-th is overwritten as n doubles
        let n = self.next as u64;
        if n.is_power_of_two() || n == 1 {
            let s: String = evs.iter().take(12).cloned().collect::<Vec<_>>().join(" ; ").chars().take(700).collect();
            if self.samples.len() < 5 {
                self.samples.push(s);
            } else {
                self.samples.remove(1);
                self.samples.push(s);
            }
        }
        for e in evs {
            self.emitted += 1;
            writeln!(self.out[k], "{}", e).unwrap();
        }
    }
    /// A whole behaviour; the caller has asked `wants` or found a disagreement.
    pub fn put_group(&mut self, class: &str, evs: &[String], disagrees: bool) {
        let q = self.quota.entry(class.to_string()).or_insert((0, 1, 0));
        if disagrees {
            if q.2 >= 10 {
                return;
            }
            q.2 += 1;
            self.interesting += 1;
        }
        self.behaviours += 1;
        self.group(evs);
    }
    pub fn note(&mut self, k: &str, n: u64) {
        *self.notes.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn finish(mut self, path: &str) {
        for o in &mut self.out {
            o.flush().unwrap();
        }
        let j = serde_json::json!({
            "evaluations": self.evaluations, "distinct": self.seen.len(), "emitted": self.emitted,
            "disagreements": self.interesting, "behaviours": self.behaviours, "samples": self.samples, "notes": self.notes,
        });
        std::fs::write(path, j.to_string()).unwrap();
    }
}
