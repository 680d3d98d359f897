//! Explicit-state breadth-first exploration with canonical state hashing.
use std::collections::HashMap;
use std::fmt::Debug;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: &'static [&'static str],
    /// stable identification of the failing input / call site / history class (matched with the known findings)
    pub key: String,
    pub msg: String,
}

/// does a driver or violation concern the property (`ALL`: any)
pub fn relevant(prop: &str, props: &[&str]) -> bool { prop == "ALL" || props.contains(&prop) }
pub fn viol(out: &mut Vec<Viol>, props: &'static [&'static str], key: impl Into<String>, msg: impl Into<String>) {
    out.push(Viol { props, key: key.into(), msg: msg.into() });
}

pub trait Model: Sync {
    type S: Clone + Send + Sync;
    type A: Clone + Debug + Send + Sync;
    fn initial(&self) -> Vec<(String, Self::S)>;
    fn actions(&self, s: &Self::S) -> Vec<Self::A>;
    /// Executes the action on the implementation and on the model, reports mismatches.
    /// `None`: the action is disabled or leads nowhere new (e.g. refused without effect).
    fn step(&self, s: &Self::S, a: &Self::A, out: &mut Vec<Viol>) -> Option<Self::S>;
    fn key(&self, s: &Self::S) -> u128;
    /// Checked once in every distinct state
    fn check(&self, _s: &Self::S, _out: &mut Vec<Viol>) {}
}

#[derive(Clone)]
pub struct Limits {
    pub depth: usize,
    pub states: usize,
    pub time: Duration,
    pub workers: usize,
    /// only violations of this property are recorded
    pub prop: String,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub viol: Viol,
    pub trace: Vec<String>,
}

#[derive(Default, Clone, Debug)]
pub struct Explored {
    pub states: u64,
    pub transitions: u64,
    pub depth: usize,
    /// the whole space within the depth bound was enumerated
    pub complete: bool,
    /// the frontier became empty before the depth bound
    pub closed: bool,
    pub effective: u64,
    pub found: Vec<Found>,
    /// violations of other properties that were seen (their successors are not explored)
    pub other: u64,
    pub samples: Vec<String>,
    /// maximal paths of the search tree, and how many of them were re-executed from the initial state
    pub leaves: u64,
    pub replayed: u64,
    pub per_action: HashMap<String, (u64, u64)>,
}

struct Node {
    parent: usize,
    label: String,
    /// index of the action in the parent (or of the initial state), and the key that was reached
    act: usize,
    key: u128,
    leaf: bool,
}

fn trace_of(nodes: &[Node], mut i: usize) -> Vec<String> {
    let mut t = vec![];
    loop {
        t.push(nodes[i].label.clone());
        if nodes[i].parent == usize::MAX {
            break;
        }
        i = nodes[i].parent;
    }
    t.reverse();
    t
}

fn act_name<A: Debug>(a: &A) -> String {
    let s = format!("{:?}", a);
    s.split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("").to_string()
}

pub fn explore<M: Model>(m: &M, lim: &Limits) -> Explored {
    let start = Instant::now();
    let mut ex = Explored { complete: true, ..Default::default() };
    let mut nodes: Vec<Node> = vec![];
    let mut seen: HashMap<u128, ()> = HashMap::new();
    let mut frontier: Vec<(usize, M::S)> = vec![];
    let mut found: Vec<Found> = vec![];
    for (ii, (label, s)) in m.initial().into_iter().enumerate() {
        let key = m.key(&s);
        if seen.insert(key, ()).is_some() {
            continue;
        }
        nodes.push(Node { parent: usize::MAX, label: format!("init:{}", label), act: ii, key, leaf: true });
        let mut out = vec![];
        m.check(&s, &mut out);
        let mut bad = false;
        for v in out {
            bad = true;
            if relevant(&lim.prop, v.props) {
                found.push(Found { viol: v, trace: trace_of(&nodes, nodes.len() - 1) });
            } else {
                ex.other += 1;
            }
        }
        if !bad {
            frontier.push((nodes.len() - 1, s));
        }
    }
    ex.states = nodes.len() as u64;
    let mut depth = 0;
    while !frontier.is_empty() && depth < lim.depth && ex.complete {
        depth += 1;
        let next_i = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let trans = AtomicUsize::new(0);
        let effective = AtomicUsize::new(0);
        let truncated = AtomicBool::new(false);
        // (parent node, label, successor) and violations, collected per worker
        type Succ<S> = (u128, usize, usize, String, S);
        let shard: Vec<Mutex<HashMap<u128, Succ<M::S>>>> = (0..64).map(|_| Mutex::new(HashMap::new())).collect();
        let newcount = AtomicUsize::new(0);
        let viols: Mutex<Vec<(usize, String, Viol)>> = Mutex::new(vec![]);
        let stats: Mutex<HashMap<String, (u64, u64)>> = Mutex::new(HashMap::new());
        let base_states = seen.len();
        let seen_ref = &seen;
        let frontier_ref = &frontier;
        std::thread::scope(|sc| {
            for _ in 0..lim.workers.max(1) {
                sc.spawn(|| {
                    let mut local: HashMap<String, (u64, u64)> = HashMap::new();
                    loop {
                        let i = next_i.fetch_add(1, Ordering::Relaxed);
                        if i >= frontier_ref.len() || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if start.elapsed() > lim.time || base_states + newcount.load(Ordering::Relaxed) > lim.states {
                            truncated.store(true, Ordering::Relaxed);
                            break;
                        }
                        let (id, s) = &frontier_ref[i];
                        for (ai, a) in m.actions(s).into_iter().enumerate() {
                            let mut out = vec![];
                            let r = m.step(s, &a, &mut out);
                            trans.fetch_add(1, Ordering::Relaxed);
                            crate::tick();
                            let e = local.entry(act_name(&a)).or_default();
                            e.0 += 1;
                            let mut bad = !out.is_empty();
                            if let Some(n) = r {
                                e.1 += 1;
                                effective.fetch_add(1, Ordering::Relaxed);
                                let k = m.key(&n);
                                if !seen_ref.contains_key(&k) {
                                    m.check(&n, &mut out);
                                    bad |= !out.is_empty();
                                    if !bad {
                                        let mut g = shard[(k & 63) as usize].lock().unwrap();
                                        // deterministic representative: smallest (parent, action)
                                        let better = match g.get(&k) {
                                            Some(o) => (o.1, o.2) > (*id, ai),
                                            None => {
                                                newcount.fetch_add(1, Ordering::Relaxed);
                                                true
                                            }
                                        };
                                        if better {
                                            g.insert(k, (k, *id, ai, format!("{:?}", a), n));
                                        }
                                    }
                                }
                            }
                            if !out.is_empty() {
                                let mut g = viols.lock().unwrap();
                                for v in out {
                                    g.push((*id, format!("{:?}", a), v));
                                }
                            }
                        }
                    }
                    let mut g = stats.lock().unwrap();
                    for (k, v) in local {
                        let e = g.entry(k).or_default();
                        e.0 += v.0;
                        e.1 += v.1;
                    }
                });
            }
        });
        ex.transitions += trans.load(Ordering::Relaxed) as u64;
        ex.effective += effective.load(Ordering::Relaxed) as u64;
        if truncated.load(Ordering::Relaxed) {
            ex.complete = false;
        }
        for (k, v) in stats.into_inner().unwrap() {
            let e = ex.per_action.entry(k).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        for (id, a, v) in viols.into_inner().unwrap() {
            if relevant(&lim.prop, v.props) {
                if found.len() < 4096 {
                    let mut t = trace_of(&nodes, id);
                    t.push(a);
                    found.push(Found { viol: v, trace: t });
                }
            } else {
                ex.other += 1;
            }
        }
        let mut succ: Vec<Succ<M::S>> = shard.into_iter().flat_map(|s| s.into_inner().unwrap().into_values()).collect();
        succ.sort_by_key(|s| (s.1, s.2));
        frontier = Vec::with_capacity(succ.len());
        for (k, p, ai, l, s) in succ {
            seen.insert(k, ());
            nodes[p].leaf = false;
            nodes.push(Node { parent: p, label: l, act: ai, key: k, leaf: true });
            frontier.push((nodes.len() - 1, s));
        }
        ex.states = nodes.len() as u64;
        if !frontier.is_empty() || ex.depth == 0 {
            ex.depth = depth;
        }
    }
    ex.closed = frontier.is_empty();
    let mut ids = vec![];
    if let Some((i, _)) = frontier.last() {
        ids.push(*i);
    }
    if !nodes.is_empty() {
        ids.push(nodes.len() - 1);
        ids.push(nodes.len() / 2);
    }
    ids.dedup();
    for i in ids {
        ex.samples.push(trace_of(&nodes, i).join(" -> "));
    }
    ex.found = found;
    replay(m, &nodes, &mut ex, start.elapsed(), lim);
    ex
}

/// Re-executes maximal paths of the search tree from the initial states on the implementation and
/// requires exactly the states that the search recorded (determinism of the harness).
fn replay<M: Model>(m: &M, nodes: &[Node], ex: &mut Explored, spent: Duration, lim: &Limits) {
    let leaves: Vec<usize> = (0..nodes.len()).filter(|i| nodes[*i].leaf).collect();
    if leaves.is_empty() {
        return;
    }
    let budget = (spent / 5).min(Duration::from_secs(60)).max(Duration::from_millis(100));
    let init = m.initial();
    let start = Instant::now();
    let next = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    // spread over the whole search tree
    let step = (leaves.len() / 2000).max(1);
    std::thread::scope(|sc| {
        for _ in 0..lim.workers.max(1) {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed) * step;
                if i >= leaves.len() || (start.elapsed() > budget && i > 0) {
                    break;
                }
                let mut path = vec![];
                let mut n = leaves[leaves.len() - 1 - i];
                loop {
                    path.push(n);
                    if nodes[n].parent == usize::MAX {
                        break;
                    }
                    n = nodes[n].parent;
                }
                path.reverse();
                let mut s = init[nodes[path[0]].act].1.clone();
                for n in &path[1..] {
                    let a = m.actions(&s).swap_remove(nodes[*n].act);
                    s = match m.step(&s, &a, &mut vec![]) {
                        Some(s) => s,
                        None => panic!("REPLAY-DIVERGED: {} disabled", nodes[*n].label),
                    };
                    assert!(m.key(&s) == nodes[*n].key, "REPLAY-DIVERGED at {}", nodes[*n].label);
                }
                done.fetch_add(1, Ordering::Relaxed);
            });
        }
    });
    ex.replayed = done.load(Ordering::Relaxed) as u64;
    ex.leaves = leaves.len() as u64;
}
