//! Collection of results of one check run by one binary.
use crate::explore::*;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Number of executions, steps and cases so far, and the driver that runs
static TICKS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static DRIVER: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn tick() {
    TICKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}
fn cpu() -> f64 {
    // user and system time of this process, in clock ticks of 10 ms
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (n(11) + n(12)) / 100.0
}
/// An execution that does not end would leave the check without an answer: when nothing has been
/// finished for `HANG` seconds, all of which were spent computing, the process ends with code 102.
fn watchdog() {
    const HANG: f64 = 150.0;
    let trace = std::env::var("MC_GAPS").is_ok();
    std::thread::spawn(move || {
        let (mut last, mut at, mut used) = (0, Instant::now(), cpu());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = TICKS.load(std::sync::atomic::Ordering::Relaxed);
            if now != last {
                if trace && at.elapsed().as_secs_f64() > 2.0 {
                    eprintln!("GAP {:.1}s {}", at.elapsed().as_secs_f64(), DRIVER.lock().unwrap());
                }
                (last, at, used) = (now, Instant::now(), cpu());
            } else if at.elapsed().as_secs_f64() > HANG && cpu() - used > HANG * 0.8 {
                eprintln!("NO-END {}: an execution of the code under check has not ended after {:.0} s ({:.0} s of processor time)",
                    DRIVER.lock().unwrap(), at.elapsed().as_secs_f64(), cpu() - used);
                std::process::exit(102);
            }
        }
    });
}

pub struct Check {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub only: Option<String>,
    pub start: Instant,
    pub budget: Duration,
    pub workers: usize,
    drivers: Vec<String>,
    pub found: Vec<(String, Found)>,
    states: u64,
    transitions: u64,
    traces: u64,
    complete: bool,
    samples: Vec<String>,
}

impl Check {
    pub fn from_args() -> Self {
        let a: Vec<String> = std::env::args().collect();
        let prop = a.get(1).cloned().expect("usage: <bin> <PROPERTY> [driver]");
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let budget = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 150 });
        watchdog();
        Check {
            prop,
            thorough,
            seed,
            only: a.get(2).cloned(),
            start: Instant::now(),
            budget: Duration::from_secs(budget),
            workers: std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
            drivers: vec![],
            found: vec![],
            states: 0,
            transitions: 0,
            traces: 0,
            complete: true,
            samples: vec![],
        }
    }
    pub fn wants(&self, driver: &str, props: &[&str]) -> bool {
        tick();
        *DRIVER.lock().unwrap() = driver.to_string();
        if let Some(o) = &self.only {
            return o == driver;
        }
        crate::relevant(&self.prop, props)
    }
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn limits(&self, depth: usize, states: usize) -> Limits {
        let left = self.budget.saturating_sub(self.start.elapsed());
        Limits { depth, states, time: left.max(Duration::from_secs(2)), workers: self.workers, prop: self.prop.clone() }
    }
    /// Records the result of an exploration whose every transition was executed on the implementation
    pub fn explored(&mut self, name: &str, bounds: &str, e: Explored) {
        let mut acts: Vec<_> = e.per_action.iter().collect();
        acts.sort();
        let acts: Vec<String> = acts.iter().map(|(k, v)| format!("{}:[{},{}]", esc(k), v.0, v.1)).collect();
        eprintln!(
            "[{}] {} states={} transitions={} effective={} depth={} complete={} closed={} viol={} other={} t={:.1}s {}",
            self.prop, name, e.states, e.transitions, e.effective, e.depth, e.complete, e.closed, e.found.len(), e.other,
            self.start.elapsed().as_secs_f64(), acts.join(" ")
        );
        self.drivers.push(format!(
            "{{\"driver\":{},\"bounds\":{},\"states\":{},\"transitions\":{},\"effective_transitions\":{},\"max_depth\":{},\"bound_exhausted\":{},\"state_space_closed\":{},\"actions_tried_effective\":{{{}}},\"pruned_by_other_properties\":{},\"maximal_paths\":{},\"maximal_paths_replayed\":{}}}",
            esc(name), esc(bounds), e.states, e.transitions, e.effective, e.depth, e.complete, e.closed, acts.join(","), e.other, e.leaves, e.replayed
        ));
        self.states += e.states;
        self.transitions += e.transitions;
        self.traces += e.replayed;
        self.complete &= e.complete;
        for s in e.samples.iter().take(2) {
            self.samples.push(format!("{}: {}", name, s));
        }
        for f in e.found {
            self.found.push((name.to_string(), f));
        }
        self.stop();
    }
    /// development aid ($MC_STOP): end at the first driver with a violation
    fn stop(&self) {
        let known = std::env::var("MC_STOP").unwrap_or_default();
        if known.is_empty() {
            return;
        }
        let f: Vec<_> = self.found.iter().filter(|f| !known.split(',').any(|k| k == f.1.viol.key)).collect();
        if let Some((d, x)) = f.first() {
            let keys: std::collections::BTreeSet<_> = f.iter().map(|f| f.1.viol.key.clone()).collect();
            let props: std::collections::BTreeSet<_> = f.iter().flat_map(|f| f.1.viol.props.iter()).collect();
            println!("CAUGHT driver={} props={:?} keys={:?} {}", d, props, keys.iter().take(3).collect::<Vec<_>>(), x.viol.msg.chars().take(200).collect::<String>());
            std::process::exit(9);
        }
    }
    /// Explores many small models, one per worker
    pub fn explore_all<M: crate::Model>(&mut self, name: &str, depth: usize, states: usize, models: &[(String, M)]) {
        let lim = Limits { workers: 1, ..self.limits(depth, states) };
        let next = std::sync::atomic::AtomicUsize::new(0);
        let res: Vec<std::sync::Mutex<Option<Explored>>> = models.iter().map(|_| Default::default()).collect();
        std::thread::scope(|sc| {
            for _ in 0..self.workers {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= models.len() {
                        break;
                    }
                    let l = Limits { time: self.budget.saturating_sub(self.start.elapsed()).max(Duration::from_secs(1)), ..lim.clone() };
                    *res[i].lock().unwrap() = Some(crate::explore(&models[i].1, &l));
                });
            }
        });
        for (r, (n, _)) in res.into_iter().zip(models) {
            self.explored(name, n, r.into_inner().unwrap().unwrap());
        }
    }
    /// Records an exhaustive enumeration (every element is a complete execution of the implementation);
    /// `distinct`: number of distinct states or outcomes that were observed
    pub fn enumerated(&mut self, name: &str, bounds: &str, cases: u64, distinct: u64, steps: u64, complete: bool, sample: String, viols: Vec<(Viol, String)>) {
        let n = viols.iter().filter(|v| crate::relevant(&self.prop, v.0.props)).count();
        eprintln!("[{}] {} cases={} steps={} complete={} viol={} t={:.1}s", self.prop, name, cases, steps, complete, n, self.start.elapsed().as_secs_f64());
        self.drivers.push(format!(
            "{{\"driver\":{},\"bounds\":{},\"executions\":{},\"distinct_states\":{},\"steps\":{},\"bound_exhausted\":{}}}",
            esc(name), esc(bounds), cases, distinct, steps, complete
        ));
        self.states += distinct;
        self.transitions += steps;
        self.traces += cases;
        self.complete &= complete;
        self.samples.push(format!("{}: {}", name, sample));
        for (v, t) in viols {
            if crate::relevant(&self.prop, v.props) {
                self.found.push((name.to_string(), Found { viol: v, trace: vec![t] }));
            }
        }
        self.stop();
    }
    /// Runs every case on all workers. `f` returns the number of transactions executed, a digest of the
    /// outcome (for the number of distinct states) and reports violations.
    pub fn grid<C: Sync + std::fmt::Debug>(&mut self, name: &str, bounds: &str, cases: &[C], f: impl Fn(&C, &mut Vec<Viol>) -> (u64, u128) + Sync) {
        use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
        let (next, steps, done, cut) = (AtomicUsize::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicBool::new(false));
        let viols = std::sync::Mutex::new(vec![]);
        let seen = std::sync::Mutex::new(std::collections::HashSet::new());
        let left = self.budget.saturating_sub(self.start.elapsed()).max(Duration::from_secs(2));
        let t0 = Instant::now();
        std::thread::scope(|sc| {
            for _ in 0..self.workers {
                sc.spawn(|| {
                    let mut local = std::collections::HashSet::new();
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= cases.len() {
                            break;
                        }
                        if t0.elapsed() > left {
                            cut.store(true, Relaxed);
                            break;
                        }
                        let mut out = vec![];
                        let (n, h) = f(&cases[i], &mut out);
                        tick();
                        steps.fetch_add(n, Relaxed);
                        done.fetch_add(1, Relaxed);
                        local.insert(h);
                        if !out.is_empty() {
                            let mut g = viols.lock().unwrap();
                            if g.len() < 100_000 {
                                g.extend(out.into_iter().map(|v| (i, v)));
                            }
                        }
                    }
                    seen.lock().unwrap().extend(local);
                });
            }
        });
        let mut vs = viols.into_inner().unwrap();
        vs.sort_by_key(|v| v.0);
        let vs = vs.into_iter().map(|(i, v)| (v, format!("{:?}", cases[i]))).collect();
        let distinct = seen.into_inner().unwrap().len() as u64;
        let sample = cases.get(cases.len() / 2).map(|c| format!("{:?}", c)).unwrap_or_default();
        self.enumerated(name, bounds, done.into_inner(), distinct, steps.into_inner(), !cut.into_inner(), sample, vs);
    }
    /// Writes the partial result to $MC_OUT (merged by run.py)
    pub fn finish(self) -> ! {
        let mut by: BTreeMap<String, (u64, &String, &Found)> = BTreeMap::new();
        for (d, f) in &self.found {
            let e = by.entry(f.viol.key.clone()).or_insert((0, d, f));
            e.0 += 1;
            if f.trace.len() < e.2.trace.len() {
                e.1 = d;
                e.2 = f;
            }
        }
        let fs: Vec<String> = by
            .iter()
            .map(|(k, (n, d, f))| {
                format!(
                    "{{\"key\":{},\"count\":{},\"driver\":{},\"msg\":{},\"trace\":[{}]}}",
                    esc(k), n, esc(d), esc(&f.viol.msg), f.trace.iter().map(|t| esc(t)).collect::<Vec<_>>().join(",")
                )
            })
            .collect();
        let json = format!(
            "{{\"states\":{},\"transitions\":{},\"traces\":{},\"complete\":{},\"drivers\":[{}],\"samples\":[{}],\"found\":[{}],\"wall\":{:.2}}}\n",
            self.states, self.transitions, self.traces, self.complete, self.drivers.join(","),
            self.samples.iter().map(|s| esc(&s.chars().take(1500).collect::<String>())).collect::<Vec<_>>().join(","),
            fs.join(","), self.start.elapsed().as_secs_f64()
        );
        match std::env::var("MC_OUT") {
            Ok(p) => std::fs::write(p, json).expect("cannot write result"),
            Err(_) => print!("{}", json),
        }
        std::process::exit(if self.drivers.is_empty() { 3 } else { 0 })
    }
}
