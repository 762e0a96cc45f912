//! Collects what the monitors saw and writes it as JSON.
use base::*;
use std::collections::{BTreeMap, BTreeSet};

pub struct Violation {
    pub sig: String,
    pub msg: String,
    pub case: String,
    pub count: usize,
}
pub struct Report {
    pub prop: String,
    pub seed: u64,
    pub tier: String,
    pub cases: u64,
    pub judged: u64,
    pub skipped: u64,
    pub distinct: BTreeSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub violations: BTreeMap<String, Violation>,
    pub samples: Vec<String>,
    pub start: std::time::Instant,
    pub secs: f64,
    /// run only this case
    pub only: Option<u64>,
    pub verbose: bool,
    /// the running case is noted there in case that the process does not survive it
    pub progress: Option<std::fs::File>,
    case_start: f64,
}
impl Report {
    pub fn new(prop: &str, seed: u64, tier: &str, secs: f64, only: Option<u64>) -> Report {
        Report {
            prop: prop.to_string(),
            seed,
            tier: tier.to_string(),
            cases: 0,
            judged: 0,
            skipped: 0,
            distinct: BTreeSet::new(),
            counters: BTreeMap::new(),
            violations: BTreeMap::new(),
            samples: vec![],
            start: std::time::Instant::now(),
            secs,
            only,
            verbose: only.is_some(),
            progress: None,
            case_start: 0.0,
        }
    }
    /// A report for cases of other monitors whose verdict isn't asked for
    pub fn scratch(&self) -> Report {
        let mut r = Report::new(&self.prop, self.seed, &self.tier, self.secs, None);
        r.verbose = self.verbose;
        r
    }
    pub fn rng(&self, case: u64) -> Rng {
        Rng::new(self.seed ^ hash_str(&self.prop) ^ case.wrapping_mul(0x9E37_79B9))
    }
    /// The cases which are to be run: until the time is over, or only the given one
    pub fn next_case(&mut self) -> Option<u64> {
        if let Some(o) = self.only {
            if self.cases > 0 {
                return None;
            }
            self.cases = 1;
            return Some(o);
        }
        let now = self.start.elapsed().as_secs_f64();
        let took = ((now - self.case_start) * 1000.0) as u64;
        self.case_start = now;
        let slowest = self.counters.entry("max-case-ms".into()).or_insert(0);
        if self.cases > 0 && took > *slowest {
            *slowest = took;
            if took > 1000 && std::env::var("MON_SLOW").is_ok() {
                eprintln!("case {} took {} ms", self.cases - 1, took);
            }
        }
        if now > self.secs {
            return None;
        }
        self.cases += 1;
        self.note(self.cases - 1);
        Some(self.cases - 1)
    }
    pub fn note(&mut self, case: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.progress {
            let _ = f.write_all_at(format!("{:<20}", case).as_bytes(), 0);
        }
    }
    pub fn count(&mut self, key: &str, n: u64) {
        *self.counters.entry(key.to_string()).or_insert(0) += n;
    }
    /// Notes how much of its tolerance an accepted result used up
    pub fn margin(&mut self, op: &str) {
        let used = (crate::check::take_margin() * 1000.0) as u64;
        if used > 0 {
            let worst = self.counters.entry(format!("tolerance-used:{}:max-permille", op)).or_insert(0);
            *worst = used.max(*worst);
        }
    }
    pub fn saw(&mut self, key: &str) {
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(hash_str(key));
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 8 && self.judged % 97 == 5 {
            let x = s();
            self.samples.push(x.chars().take(400).collect());
        }
    }
    pub fn violation(&mut self, case: u64, sig: &str, msg: &str) {
        if self.verbose {
            println!("case {}: {} {}", case, sig, msg);
        }
        let v = self.violations.entry(sig.to_string()).or_insert(Violation {
            sig: sig.to_string(),
            msg: msg.to_string(),
            case: case.to_string(),
            count: 0,
        });
        v.count += 1;
        // Prefer a short example
        if msg.len() < v.msg.len() {
            v.msg = msg.to_string();
            v.case = case.to_string();
        }
    }
    pub fn json(&self) -> String {
        let mut s = format!(
            "{{\"property\":{},\"seed\":{},\"tier\":{},\"cases\":{},\"judged\":{},\"skipped\":{},\"distinct\":{},\"wall_s\":{:.2},\n",
            jstr(&self.prop),
            self.seed,
            jstr(&self.tier),
            self.cases,
            self.judged,
            self.skipped,
            self.distinct.len(),
            self.start.elapsed().as_secs_f64()
        );
        s += "\"counters\":{";
        s += &self
            .counters
            .iter()
            .map(|(k, v)| format!("{}:{}", jstr(k), v))
            .collect::<Vec<_>>()
            .join(",");
        s += "},\n\"samples\":[";
        s += &self.samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",\n");
        s += "],\n\"violations\":[";
        s += &self
            .violations
            .values()
            .map(|v| {
                format!(
                    "{{\"sig\":{},\"case\":{},\"count\":{},\"msg\":{}}}",
                    jstr(&v.sig),
                    v.case,
                    v.count,
                    jstr(&v.msg)
                )
            })
            .collect::<Vec<_>>()
            .join(",\n");
        s += "]}\n";
        s
    }
}
