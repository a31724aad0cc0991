//! Exhaustive bounded exploration of operation sequences plus reporting.
use crate::svm::{self, State};
use rayon::prelude::*;
use serde_json::json;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Node<G> {
    pub s: State,
    pub g: G,
}

pub enum Step<G> {
    /// operation not applicable here
    Disabled,
    /// operation attempted and rejected by the program, oracle agreed
    Rejected,
    /// new state
    Next(Node<G>),
}

/// A transition system whose transitions execute the real program. `step` also runs the oracle:
/// an Err is a property violation.
pub trait Model: Sync {
    type G: Clone + Send + Sync;
    fn name(&self) -> String;
    fn ops(&self) -> Vec<String>;
    fn step(&self, op: usize, n: &Node<Self::G>) -> Result<Step<Self::G>, String>;
    fn ghost_hash(&self, _g: &Self::G) -> u128 {
        0
    }
}

pub struct Report {
    pub id: String,
    pub tier: String,
    pub seed: i64,
    pub thorough: bool,
    start: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub rejected: AtomicU64,
    pub traces: AtomicU64,
    pub complete: AtomicBool,
    samples: Mutex<Vec<serde_json::Value>>,
    parts: Mutex<Vec<serde_json::Value>>,
    violations: Mutex<Vec<(String, String)>>,
    counters: Mutex<HashMap<String, u64>>,
    replay: Option<(String, Vec<usize>)>,
    pub replay_mode: bool,
}

const SHARDS: usize = 256;

impl Report {
    pub fn new(id: &str, tier: &str) -> Self {
        svm::init();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let replay = std::env::var("MC_REPLAY").ok().map(|p| {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap();
            (v["scenario"].as_str().unwrap_or("").to_string(), v["path"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default())
        });
        Report {
            id: id.into(),
            tier: tier.into(),
            seed,
            thorough: tier == "thorough",
            start: Instant::now(),
            states: 0.into(),
            transitions: 0.into(),
            rejected: 0.into(),
            traces: 0.into(),
            complete: true.into(),
            samples: vec![].into(),
            parts: vec![].into(),
            violations: vec![].into(),
            counters: HashMap::new().into(),
            replay_mode: replay.is_some(),
            replay,
        }
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.into()).or_insert(0) += n;
    }
    pub fn sample(&self, v: serde_json::Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v)
        }
    }
    /// One evaluated case of an enumeration (component level checks): counts as a state plus a transition.
    pub fn case(&self) {
        self.states.fetch_add(1, Relaxed);
        self.transitions.fetch_add(1, Relaxed);
        self.traces.fetch_add(1, Relaxed);
    }
    pub fn cases(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
        self.transitions.fetch_add(n, Relaxed);
        self.traces.fetch_add(n, Relaxed);
    }
    /// key identifies the failing input / history; detail is free text
    pub fn violation(&self, key: &str, detail: &str) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < 200 && !v.iter().any(|x| x.0 == key) {
            v.push((key.to_string(), detail.to_string()));
        }
    }
    pub fn nviol(&self) -> usize {
        self.violations.lock().unwrap().len()
    }
    pub fn check(&self, cond: bool, key: &str, detail: impl FnOnce() -> String) {
        if !cond {
            self.violation(key, &detail());
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// Depth-bounded exhaustive exploration; `budget` is a safety net (a run that hits it is
    /// reported as not exhaustive).
    pub fn explore<M: Model>(&self, m: &M, init: Node<M::G>, depth: usize, budget: f64) {
        let ops = m.ops();
        if let Some((sc, path)) = &self.replay {
            if *sc == m.name() {
                let mut n = init;
                for &o in path {
                    println!("op {}", ops[o]);
                    svm::capture_logs(true);
                    let r = m.step(o, &n);
                    for l in svm::take_logs() {
                        println!("    {l}");
                    }
                    match r {
                        Err(e) => {
                            println!("  violation: {e}");
                            self.violation(&format!("{}", ops[o]), &e);
                            return;
                        }
                        Ok(Step::Next(x)) => n = x,
                        Ok(Step::Rejected) => println!("  rejected"),
                        Ok(Step::Disabled) => println!("  disabled"),
                    }
                }
            }
            return;
        }
        let t0 = Instant::now();
        let end = t0 + Duration::from_secs_f64(budget);
        let visited: Vec<Mutex<HashMap<u128, u8>>> = (0..SHARDS).map(|_| Mutex::new(HashMap::new())).collect();
        let st = Stat::default();
        st.outcomes.lock().unwrap().resize(ops.len(), [0; 3]);
        // breadth-first to a frontier large enough to share among threads
        let mut frontier = vec![(init, vec![])];
        let mut d = 0;
        seen(&visited, m, &frontier[0].0, depth as u8);
        st.states.fetch_add(1, Relaxed);
        while d < depth && frontier.len() < 64 {
            let mut next = vec![];
            for (n, path) in &frontier {
                self.expand(m, &ops, n, path, (depth - d - 1) as u8, &visited, &st, &mut |nn, p| next.push((nn, p)));
            }
            frontier = next;
            d += 1;
            if self.nviol() > 40 {
                break;
            }
        }
        let rem = depth - d;
        if rem > 0 {
            frontier.into_par_iter().for_each(|(n, path)| {
                self.dfs(m, &ops, n, path, rem, &visited, &st, end);
            });
        }
        let (states, trans, rej, traces) = (st.states.load(Relaxed), st.trans.load(Relaxed), st.rejected.load(Relaxed), st.leaves.load(Relaxed));
        self.states.fetch_add(states, Relaxed);
        self.transitions.fetch_add(trans, Relaxed);
        self.rejected.fetch_add(rej, Relaxed);
        self.traces.fetch_add(traces, Relaxed);
        let complete = !st.cut.load(Relaxed);
        if !complete {
            self.complete.store(false, Relaxed);
        }
        let outc = st.outcomes.lock().unwrap();
        let dead: Vec<&String> = ops.iter().zip(outc.iter()).filter(|(_, o)| o[0] == 0).map(|(n, _)| n).collect();
        self.parts.lock().unwrap().push(json!({
            "scenario": m.name(), "depth": depth, "operations": ops.len(), "states": states, "transitions": trans,
            "rejected": rej, "paths_ending": traces, "complete": complete, "ops_never_accepted": dead,
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
        eprintln!(
            "[{}] {}: depth {} states {} transitions {} rejected {} complete {} {:.1}s; never accepted: {:?}",
            self.id, m.name(), depth, states, trans, rej, complete, t0.elapsed().as_secs_f64(), dead
        );
        if let Some(s) = st.sample.into_inner().unwrap() {
            self.sample(json!({"scenario": m.name(), "path": s}));
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn expand<M: Model>(&self, m: &M, ops: &[String], n: &Node<M::G>, path: &[usize], rem: u8, visited: &[Mutex<HashMap<u128, u8>>], st: &Stat, sink: &mut dyn FnMut(Node<M::G>, Vec<usize>)) {
        let mut out = vec![0u8; ops.len()];
        let mut any = false;
        for o in 0..ops.len() {
            let r = match svm::quiet_catch(|| m.step(o, n)) {
                Ok(r) => r,
                Err(p) => Err(format!("harness or program state decoding panicked: {p}")),
            };
            match r {
                Ok(Step::Disabled) => continue,
                Ok(Step::Rejected) => {
                    st.trans.fetch_add(1, Relaxed);
                    st.rejected.fetch_add(1, Relaxed);
                    out[o] = 2;
                }
                Ok(Step::Next(nn)) => {
                    st.trans.fetch_add(1, Relaxed);
                    out[o] = 1;
                    let (new, deeper) = seen(visited, m, &nn, rem);
                    if new {
                        st.states.fetch_add(1, Relaxed);
                    }
                    if deeper {
                        any = true;
                        let mut p = path.to_vec();
                        p.push(o);
                        sink(nn, p);
                    }
                }
                Err(e) => {
                    let mut p = path.to_vec();
                    p.push(o);
                    self.model_violation(m, ops, &p, &e);
                    // minimal counterexamples are enough: do not continue below a violating step
                }
            }
        }
        if !any || rem == 0 {
            st.leaves.fetch_add(1, Relaxed);
            let mut s = st.sample.lock().unwrap();
            if s.as_ref().map(|x| x.len() < path.len()).unwrap_or(true) {
                *s = Some(path.iter().map(|&o| ops[o].clone()).collect());
            }
        }
        let mut oc = st.outcomes.lock().unwrap();
        for (o, v) in out.iter().enumerate() {
            if *v > 0 {
                oc[o][*v as usize - 1] += 1;
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn dfs<M: Model>(&self, m: &M, ops: &[String], n: Node<M::G>, path: Vec<usize>, rem: usize, visited: &[Mutex<HashMap<u128, u8>>], st: &Stat, end: Instant) {
        if rem == 0 {
            return;
        }
        if Instant::now() > end {
            st.cut.store(true, Relaxed);
            return;
        }
        if self.nviol() > 40 {
            return;
        }
        let mut kids = vec![];
        self.expand(m, ops, &n, &path, (rem - 1) as u8, visited, st, &mut |nn, p| kids.push((nn, p)));
        drop(n);
        for (k, p) in kids {
            self.dfs(m, ops, k, p, rem - 1, visited, st, end);
        }
    }

    fn model_violation<M: Model>(&self, m: &M, ops: &[String], path: &[usize], e: &str) {
        let names: Vec<&String> = path.iter().map(|&o| &ops[o]).collect();
        // the key is the failing operation plus the first line of the message, so that many
        // histories with the same failure are reported once
        let key = format!("{}: {}: {}", m.name(), names.last().unwrap(), e.split('|').next().unwrap());
        let detail = json!({"scenario": m.name(), "path": path, "ops": names, "message": e}).to_string();
        self.violation(&key, &detail);
    }

    pub fn finish(self, assumptions: &[&str]) -> i32 {
        let root = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let known: Vec<(String, String, String)> = std::fs::read_to_string(format!("{root}/known-findings.jsonl"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| serde_json::from_str::<serde_json::Value>(l).ok())
            .filter(|v| v["status"] == "known")
            .map(|v| (v["property"].as_str().unwrap_or("").into(), v["key"].as_str().unwrap_or("").into(), v["what"].as_str().unwrap_or("").into()))
            .collect();
        let viol = self.violations.into_inner().unwrap();
        let mut bad = vec![];
        let mut reported = std::collections::BTreeSet::new();
        for (k, d) in &viol {
            if let Some(f) = known.iter().find(|f| f.0 == self.id && k.starts_with(&f.1)) {
                reported.insert(format!("KNOWN-FINDING: property={} {}", self.id, f.2));
            } else {
                bad.push((k, d));
            }
        }
        for r in &reported {
            println!("{r}");
        }
        let states = self.states.load(Relaxed);
        let ev = json!({
            "property": self.id, "tier": if self.thorough {"thorough"} else {"quick"}, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": states, "transitions": self.transitions.load(Relaxed), "rejected_transitions": self.rejected.load(Relaxed),
                "traces_validated_against_impl": self.traces.load(Relaxed),
                "instructions_executed_on_real_program": svm::total_ix(),
                "exhaustive": self.complete.load(Relaxed),
                "judged_by_two_sided_specification": json!({"must_be_refused": crate::spec::JUDGED[0].load(Relaxed), "must_be_accepted": crate::spec::JUDGED[1].load(Relaxed), "within_tolerance_of_a_threshold": crate::spec::JUDGED[2].load(Relaxed)}),
                "scenarios": self.parts.into_inner().unwrap(), "counters": self.counters.into_inner().unwrap(),
                "samples": self.samples.into_inner().unwrap(),
                "explanation": "Every transition executes the real program sources; states are deduplicated by a 128-bit hash of all accounts (plus ghost state). traces_validated_against_impl counts maximal explored operation histories (or enumerated inputs), each executed on the implementation and compared with the reference oracle.",
            },
            "assumptions": assumptions, "wall_s": self.start.elapsed().as_secs_f64(), "violations": bad.len(),
        });
        if !self.replay_mode {
            std::fs::create_dir_all(format!("{root}/evidence")).ok();
            std::fs::write(format!("{root}/evidence/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
        }
        if bad.is_empty() {
            println!("OK property={} states={} transitions={} wall={:.1}s", self.id, states, self.transitions.load(Relaxed), self.start.elapsed().as_secs_f64());
            return 0;
        }
        std::fs::create_dir_all(format!("{root}/evidence/replay")).ok();
        for (i, (k, d)) in bad.iter().enumerate().take(20) {
            let path = format!("{root}/evidence/replay/{}-{}.json", self.id, i);
            if !self.replay_mode {
                std::fs::write(&path, d).ok();
            }
            println!("VIOLATION property={} replay={}", self.id, path);
            println!("  {k}");
            println!("  {}", d.chars().take(1500).collect::<String>());
        }
        if self.traces.load(Relaxed) == 0 {
            eprintln!("note: nothing explored");
        }
        1
    }
}

#[derive(Default)]
struct Stat {
    states: AtomicU64,
    trans: AtomicU64,
    rejected: AtomicU64,
    leaves: AtomicU64,
    cut: AtomicBool,
    sample: Mutex<Option<Vec<String>>>,
    outcomes: Mutex<Vec<[u64; 3]>>,
}

/// returns (never seen before, has to be expanded: unseen or seen only with less depth remaining)
fn seen<M: Model>(visited: &[Mutex<HashMap<u128, u8>>], m: &M, n: &Node<M::G>, rem: u8) -> (bool, bool) {
    let h = n.s.hash() ^ m.ghost_hash(&n.g).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    let mut v = visited[(h as usize) % SHARDS].lock().unwrap();
    match v.get_mut(&h) {
        None => {
            v.insert(h, rem);
            (true, true)
        }
        Some(r) if *r < rem => {
            *r = rem;
            (false, true)
        }
        _ => (false, false),
    }
}

pub fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}
pub fn pool() {
    rayon::ThreadPoolBuilder::new().stack_size(64 << 20).build_global().ok();
}
