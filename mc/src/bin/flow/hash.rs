//! Commitment queue, batching, hashing, tree update, metadata and tree change (C08, C09, C14, C15, C23, C35, C05, C11).
use crate::chk::*;
use crate::tree::*;
use mc::*;
use solana_program::pubkey::Pubkey;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Entry {
    pub c: B32,
    pub meta: [u8; 17],
    pub rate: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Phase {
    Idle,
    Setup,
    Active { len: u32, ix: u32, fin: u32 },
}

#[derive(Clone)]
pub struct S {
    b: Bank,
    accepted: Vec<Entry>,
    /// accepted[..done] are leaves
    done: usize,
    deposits: u32,
    phase: Phase,
    tree: Tree,
    trees: u32,
    closed: Vec<F>,
    /// leaf number of the first entry of the metadata account that this run writes, and its start content
    stable: Bank,
    /// lamports of the pool that belong to depositors, and the reserve for pending work
    owed: u128,
}

#[derive(Clone, Debug)]
pub enum A {
    Deposit,
    Setup { can_fail: bool },
    Init { can_fail: bool, children: bool },
    Compute { n: u32 },
    ComputeOtherFee,
    Finalize,
    FinalizeAll,
    Reset { idx: u32 },
}

pub struct M {
    prop: String,
    rate: u32,
    base: u32,
    prefill: u32,
    max_deposits: u32,
    fine: bool,
    resets: bool,
    start: Bank,
    fee: Fee,
    owed0: u128,
}

pub fn warden() -> Pubkey { key("warden") }
pub fn depositor() -> Pubkey { key("depositor") }
const AMOUNT: u64 = 10_000_000;

pub fn meta_of(i: usize) -> [u8; 17] {
    // metadata is arbitrary: all zero and all ones are as good as any other
    match i {
        0 => return [0; 17],
        1 => return [0xff; 17],
        _ => {}
    }
    let mut m = [0xabu8; 17];
    m[..8].copy_from_slice(&(i as u64 * 7919 + 1).to_le_bytes());
    m[16] = i as u8;
    m
}

pub fn put_queue(b: &mut Bank, start: usize, es: &[Entry]) {
    let q: Vec<Vec<u8>> = es.iter().map(|e| W::default().b(&e.c).u32(0).u32(e.rate).0).collect();
    put_ring(b, &queue(), 40, start, &q);
    let m: Vec<Vec<u8>> = es.iter().map(|e| e.meta.to_vec()).collect();
    put_ring(b, &meta_queue(), 17, start, &m);
}

pub fn prefilled(n: u32, rate: u32) -> Vec<Entry> {
    (0..n as usize)
        .map(|i| Entry { c: mont_b(&h2c(fr(&num(77)).unwrap(), fr(&num(i as u64)).unwrap())), meta: meta_of(1000 + i), rate })
        .collect()
}

pub fn base_world(rate: u32, ptr: u32, queue_start: usize, entries: &[Entry]) -> (Bank, Tree) {
    let mut b = genesis(&Cfg { rate, nullifier_accounts: 3, ..Default::default() });
    setup_vkey(&mut b, trap());
    user(&mut b, "warden", 1000, &[]);
    user(&mut b, "depositor", 1000, &[]);
    let tree = Tree::new(ptr);
    tree.install(&mut b);
    b.write(&metadata(), ME_PTR, &ptr.to_le_bytes());
    put_queue(&mut b, queue_start, entries);
    // the prefilled entries have been paid for
    let f = Fee::default();
    let l = b.lamports(&pool());
    b.set_lamports(&pool(), l + entries.len() as u64 * f.commitment_fee(rate));
    (b, tree)
}

pub fn dep_base(i: u32) -> B32 { num(50_000 + i as u64) }

/// one complete deposit: store, two computations, finalisation
pub fn deposit(b: &Bank, i: u32, idx: u32, rate: u32, recent: u32, amount: u64, meta: &[u8; 17]) -> Result<(Bank, F), TxError> {
    let base = dep_base(i);
    let r = BaseReq { base, recent, amount, token: 0, commitment: num(1), fee_version: 0, rate };
    let (_, bump) = pda_of(&pid(), "BaseCommitmentHashing", None, Some(idx));
    let a = StoreAccs::new(&depositor(), &warden(), 0);
    let b = run(b, &[store_base(idx, bump, &r, meta, &a)])?;
    let b = run(&b, &[cu_ix(), compute_base(idx)])?;
    let b = run(&b, &[cu_ix(), compute_base(idx), finalize_base(idx, 0, &warden())])?;
    Ok((b, deposit_commitment(&base, amount, 0, recent)))
}

/// is a request against `root` of tree `idx` admitted?
pub fn root_admitted(b: &Bank, idx: u32, root: &F) -> bool {
    let other = if idx == 0 { 1 } else { 0 };
    let r = SendReq {
        inputs: vec![Input { root: Some(fr_b(root)), nullifier: num(987_654_321) }],
        output: num(123_123), recent: tree_ptr(b), fee_version: 0, amount: SOL, fee: SOL, opt_collector: key("oc"), opt_amount: 0, token: 0,
        metadata: [1; 17], is_ata: false, solana_pay: false, hashed: num(5),
    };
    let w = warden();
    run(b, &[init_verification(0, 0, [idx, other], &r, false, &w, &key("ident"), &[null_child(idx, 0)], &[null_child(other, 0)])]).is_ok()
}

impl M {
    fn new(prop: &str, rate: u32, base: u32, prefill: u32, max_deposits: u32, fine: bool, resets: bool, queue_start: usize) -> (Self, Tree) {
        let fee = Fee::default();
        let es = prefilled(prefill, rate);
        let (b, tree) = base_world(rate, base, queue_start, &es);
        let owed0 = es.len() as u128 * fee.commitment_fee(rate) as u128;
        (M { prop: prop.into(), rate, base, prefill, max_deposits, fine, resets, start: b, fee, owed0 }, tree)
    }
    fn is(&self, p: &[&str]) -> bool {
        p.contains(&self.prop.as_str())
    }
    fn count(&self) -> u32 {
        HASH_IX[self.rate as usize] as u32
    }
    fn batch(&self) -> u32 {
        1 << self.rate
    }
    fn full(&self, s: &S) -> bool {
        let p = s.tree.ptr();
        let q = s.accepted.len() - s.done - self.in_flight(s);
        p >= MT_LEAVES || (q as u32 >= self.batch() && p + self.batch() >= MT_LEAVES)
    }
    fn in_flight(&self, s: &S) -> usize {
        match s.phase {
            Phase::Active { len, .. } => len as usize,
            _ => 0,
        }
    }
    /// executes one computation instruction per transaction
    fn compute(&self, s: &S, n: u32, out: &mut Vec<Viol>) -> Option<S> {
        let (len, ix, fin) = match s.phase {
            Phase::Active { len, ix, fin } => (len, ix, fin),
            _ => {
                attempt(out, &["C08", "C24", "C35", "C11"], "compute without batch", &s.b, &[cu_ix(), compute_hash(0, 0, &warden())], false);
                return None;
            }
        };
        let mut s2 = s.clone();
        let mut ix = ix;
        for i in 0..n {
            let ok = ix < self.count();
            match attempt(out, &["C08", "C24", "C35", "C11", "C09"], if ok { "compute" } else { "extra compute" }, &s2.b, &[cu_ix(), compute_hash(0, i, &warden())], ok) {
                R::No => {
                    if ok {
                        return None;
                    }
                    break;
                }
                R::Yes(b) => {
                    let c = self.fee.hash_comp() as i128;
                    lamports(out, &["C11", "C05"], "compute", &s2.b, &b, &[(pool(), -c), (warden(), c)]);
                    only(out, &["C09", "C16", "C08"], "compute", &s2.b, &b, &[pool(), warden(), chashing()]);
                    s2.b = b;
                    ix += 1;
                    s2.owed -= c as u128;
                }
            }
            if !out.is_empty() {
                return None;
            }
        }
        s2.phase = Phase::Active { len, ix, fin };
        Some(s2)
    }
    fn finalize(&self, s: &S, out: &mut Vec<Viol>) -> Option<S> {
        let ready = matches!(s.phase, Phase::Active { ix, fin, .. } if ix == self.count() && fin <= self.rate);
        let (len, ix, fin) = match s.phase {
            Phase::Active { len, ix, fin } => (len, ix, fin),
            _ => (0, 0, 0),
        };
        let at = s.tree.ptr();
        let kids = path_children(at.min(MT_LEAVES - 1), len.max(1));
        let b = match attempt(out, &["C08", "C09", "C24", "C35"], if ready { "finalize" } else { "finalize too early" }, &s.b, &[cu_ix(), finalize_hash(&kids)], ready) {
            R::No => return None,
            R::Yes(b) => b,
        };
        let mut allowed = kids.clone();
        allowed.extend([chashing(), storage()]);
        only(out, &["C09", "C16", "C08"], "finalize", &s.b, &b, &allowed);
        lamports(out, &["C11", "C05"], "finalize", &s.b, &b, &[]);
        let mut s2 = s.clone();
        s2.b = b;
        if fin < self.rate {
            s2.phase = Phase::Active { len, ix, fin: fin + 1 };
            if tree_ptr(&s2.b) != at {
                viol(out, &["C09", "C08"], "finalize:ptr-early", "the number of commitments changed before the last finalisation step");
            }
            return Some(s2);
        }
        // completed
        for e in &s.accepted[s.done..s.done + len as usize] {
            s2.tree.leaves.push(from_mont(&e.c));
        }
        s2.done += len as usize;
        s2.phase = Phase::Idle;
        let root = s2.tree.root();
        s2.tree.roots.push(root);
        if tree_ptr(&s2.b) != at + len {
            viol(out, &["C09", "C08"], "finalize:ptr", format!("number of commitments is {} instead of {}", tree_ptr(&s2.b), at + len));
        }
        // all stored nodes: exactly the expected ones were written
        let mut exp = s.stable.clone();
        for ((level, i), v) in s2.tree.written(at, len) {
            set_node_raw(&mut exp, level, i as usize, &mont_b(&v));
            let real = node_raw(&s2.b, level, i as usize).unwrap();
            if real != mont_b(&v) {
                let p: Props = if level == MT_HEIGHT { &["C08", "C09", "C24"] } else { &["C09", "C24"] };
                viol(out, p, format!("tree:node:level{}", level), format!("stored node (level {}, index {}) after inserting {} at {} differs from the reference", level, i, len, at));
            }
        }
        for c in storage_children() {
            if exp.get(&c) != s2.b.get(&c) {
                viol(out, &["C09"], "tree:other-node", "a node outside of the inserted paths changed");
            }
        }
        s2.stable = s2.b.clone();
        Some(s2)
    }
}

impl Model for M {
    type S = S;
    type A = A;
    fn initial(&self) -> Vec<(String, S)> {
        let tree = Tree::new(self.base);
        vec![(
            format!("rate {} ptr {} queued {}", self.rate, self.base, self.prefill),
            S {
                b: self.start.clone(), accepted: prefilled(self.prefill, self.rate), done: 0, deposits: 0, phase: Phase::Idle, tree, trees: 0, closed: vec![],
                stable: self.start.clone(), owed: self.owed0,
            },
        )]
    }
    fn key(&self, s: &S) -> u128 {
        // the bank determines everything the ghost state holds, apart from the history of roots
        let mut h = s.b.hash();
        h = h.rotate_left(3) ^ (s.done as u128) << 3 ^ (s.accepted.len() as u128) << 40 ^ (s.tree.roots.len() as u128) << 70;
        let ph = svm::hash_bytes(1, format!("{:?}{}", s.phase, s.trees).as_bytes());
        h ^ ph
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut v = vec![];
        if s.deposits < self.max_deposits {
            v.push(A::Deposit);
        }
        v.push(A::Setup { can_fail: false });
        v.push(A::Setup { can_fail: true });
        for can_fail in [false, true] {
            for children in [true, false] {
                v.push(A::Init { can_fail, children });
            }
        }
        let left = match s.phase {
            Phase::Active { ix, .. } => self.count() - ix,
            _ => 0,
        };
        if left > 1 {
            v.push(A::Compute { n: left });
            if self.fine {
                v.push(A::Compute { n: left - 1 });
            }
        }
        if self.fine || left <= 1 {
            v.push(A::Compute { n: 1 });
            v.push(A::ComputeOtherFee);
            v.push(A::Finalize);
        } else {
            v.push(A::FinalizeAll);
        }
        if self.resets {
            for idx in 0..=2 {
                v.push(A::Reset { idx });
            }
        } else {
            v.push(A::Reset { idx: s.trees });
        }
        v
    }
    fn step(&self, s: &S, a: &A, out: &mut Vec<Viol>) -> Option<S> {
        match a {
            A::Deposit => {
                let i = s.deposits;
                let meta = meta_of(i as usize);
                let recent = s.tree.ptr();
                match deposit(&s.b, i, i % 3, self.rate, recent, AMOUNT, &meta) {
                    Ok((b, c)) => {
                        let mut s2 = s.clone();
                        s2.b = b;
                        s2.accepted.push(Entry { c: mont_b(&c), meta, rate: self.rate });
                        s2.deposits += 1;
                        s2.owed += AMOUNT as u128 + self.fee.commitment_fee(self.rate) as u128;
                        Some(s2)
                    }
                    Err(e) => {
                        viol(out, &["C08", "C12", "C10", "C05"], "deposit:refused", format!("a valid deposit was refused: {:?}", e));
                        None
                    }
                }
            }
            A::Setup { can_fail } => {
                let hk = [chashing()];
                let ok = !matches!(s.phase, Phase::Active { .. });
                if ok && s.tree.ptr() >= MT_LEAVES {
                    // immaterial: nothing can be inserted
                    return None;
                }
                let kids = path_children(s.tree.ptr().min(MT_LEAVES - 1), self.batch());
                match attempt(out, &["C08", "C35"], if ok { "setup" } else { "setup while active" }, &s.b, &[init_hash_setup(*can_fail, &kids)], ok || *can_fail) {
                    R::No => None,
                    R::Yes(b) => {
                        lamports(out, &["C11", "C05"], "setup", &s.b, &b, &[]);
                        only(out, &["C09", "C16", "C08"], "setup", &s.b, &b, if ok { &hk[..] } else { &[] });
                        let mut s2 = s.clone();
                        s2.b = b;
                        if ok {
                            s2.phase = Phase::Setup;
                        }
                        Some(s2)
                    }
                }
            }
            A::Init { can_fail, children } => {
                let queued = (s.accepted.len() - s.done - self.in_flight(s)) as u32;
                let at = s.tree.ptr();
                // a batch that reaches the last leaf belongs to the next tree (the tree can be closed instead)
                let ok = s.phase == Phase::Setup && queued >= self.batch() && at + self.batch() < MT_LEAVES && *children;
                let kids: Vec<Pubkey> = if *children { meta_children() } else { vec![] };
                let r = run(&s.b, &[init_hash(*can_fail, &kids)]);
                match (r, ok) {
                    (Ok(b), false) => {
                        if !*can_fail && *children {
                            viol(out, &["C08", "C20", "C09"], "init:accepted", format!("a batch was started in phase {:?} with {} queued at {}", s.phase, queued, at));
                        }
                        // a tolerated failure changes nothing
                        if s.b.diff(&b).is_empty() {
                            return None;
                        }
                        viol(out, &["C08", "C23", "C20"], format!("init:swallowed{}", if *children { "" } else { ":no-children" }),
                            format!("a failed init_commitment_hash (phase {:?}, {} queued, ptr {}, children {}) changed {:?}", s.phase, queued, at, children, s.b.diff(&b).iter().map(name).collect::<Vec<_>>()));
                        None
                    }
                    (Err(_), false) => None,
                    (Err(e), true) => {
                        viol(out, &["C08", "C20", "C35", "C23"], "init:refused", format!("a complete batch could not be started: {:?}", e));
                        None
                    }
                    (Ok(b), true) => {
                        lamports(out, &["C11", "C05"], "init", &s.b, &b, &[]);
                        let mut allowed = meta_children();
                        allowed.extend([queue(), meta_queue(), chashing(), metadata()]);
                        only(out, &["C09", "C16", "C08"], "init", &s.b, &b, &allowed);
                        let mut s2 = s.clone();
                        s2.b = b;
                        s2.phase = Phase::Active { len: self.batch(), ix: 0, fin: 0 };
                        // metadata of the batch is stored at the numbers of its leaves, nothing else changes
                        let mut exp = s.b.clone();
                        for (i, e) in s.accepted[s.done..s.done + self.batch() as usize].iter().enumerate() {
                            let n = at as usize + i;
                            let c = lay::children(&exp, &metadata(), ME_CHILDREN)[n >> 16].unwrap();
                            exp.write(&c, 1 + 17 * (n & 0xffff), &e.meta);
                            if meta_at(&s2.b, n) != e.meta {
                                viol(out, &["C23"], "metadata:entry", format!("metadata of leaf {} is not the submitted one", n));
                            }
                        }
                        for c in meta_children() {
                            if exp.get(&c) != s2.b.get(&c) {
                                viol(out, &["C23"], "metadata:other", "metadata entries other than those of the batch changed");
                            }
                        }
                        Some(s2)
                    }
                }
            }
            A::Compute { n } => self.compute(s, *n, out),
            A::ComputeOtherFee => {
                attempt(out, &["C11", "C18", "C16"], "compute with other fee version", &s.b, &[cu_ix(), compute_hash(1, 0, &warden())], false);
                None
            }
            A::Finalize => self.finalize(s, out),
            A::FinalizeAll => {
                // all steps in sequence (refused if not ready)
                let mut s2 = self.finalize(s, out)?;
                for _ in 0..self.rate {
                    s2 = self.finalize(&s2, out)?;
                }
                Some(s2)
            }
            A::Reset { idx } => {
                let active = matches!(s.phase, Phase::Active { .. });
                let ok = *idx == s.trees && self.full(s) && !active;
                let what = if ok {
                    "reset"
                } else if active && *idx == s.trees && self.full(s) {
                    "reset with a batch in progress"
                } else {
                    "reset (not full or wrong tree)"
                };
                match attempt(out, &["C15", "C08", "C09", "C14"], what, &s.b, &[reset_tree(*idx, &storage_children())], ok) {
                    R::No => None,
                    R::Yes(b) => {
                        if !ok {
                            return None;
                        }
                        lamports(out, &["C15", "C05"], "reset", &s.b, &b, &[]);
                        same_data(out, &["C15", "C08", "C23"], "reset", &s.b, &b, &[queue(), meta_queue()]);
                        only(out, &["C15", "C16", "C01"], "reset", &s.b, &b, &[storage(), nullifier(*idx), chashing(), metadata()]);
                        // the nullifier account keeps its children and counters
                        let (x, y) = (s.b.data(&nullifier(*idx)), b.data(&nullifier(*idx)));
                        if x[..NU_ROOT] != y[..NU_ROOT] || x[NU_COUNT..] != y[NU_COUNT..] {
                            viol(out, &["C15", "C01", "C02"], "reset:nullifiers", "closing the tree changed its nullifiers");
                        }
                        let root = s.tree.root();
                        if y[NU_ROOT..NU_COUNT] != mont_b(&root) {
                            viol(out, &["C15", "C14"], "reset:root", "the final root was not kept");
                        }
                        let mut s2 = s.clone();
                        s2.b = b;
                        s2.stable = s2.b.clone();
                        s2.trees += 1;
                        s2.closed.push(root);
                        s2.tree = Tree::new(0);
                        if s2.phase == Phase::Setup {
                            s2.phase = Phase::Idle;
                        }
                        if tree_ptr(&s2.b) != 0 {
                            viol(out, &["C15", "C09"], "reset:ptr", "the new tree is not empty");
                        }
                        if trees_count(&s2.b) != s2.trees {
                            viol(out, &["C15"], "reset:index", "the tree index did not increase by one");
                        }
                        Some(s2)
                    }
                }
            }
        }
    }
    fn check(&self, s: &S, out: &mut Vec<Viol>) {
        let fl = self.in_flight(s);
        let pending: Vec<(B32, u32, u32)> = s.accepted[s.done + fl..].iter().map(|e| (e.c, 0, e.rate)).collect();
        let real: Vec<(B32, u32, u32)> = queue_entries(&s.b).iter().map(|q| (q.commitment, q.fee_version, q.rate)).collect();
        if real != pending {
            viol(out, &["C08", "C20", "C10", "C15"], "queue:content", format!("the queue holds {} entries that are not the {} pending commitments in order", real.len(), pending.len()));
        }
        let pm: Vec<[u8; 17]> = s.accepted[s.done + fl..].iter().map(|e| e.meta).collect();
        if meta_entries(&s.b) != pm {
            viol(out, &["C23", "C08"], "metadata:queue", "the metadata queue does not hold the metadata of the pending commitments in order");
        }
        if fl > 0 {
            let d = s.b.data(&chashing());
            for i in 0..fl {
                if d[CH_TREE + 32 * i..CH_TREE + 32 * i + 32] != s.accepted[s.done + i].c {
                    viol(out, &["C08"], "batch:content", "the batch in progress is not the head of the queue");
                }
            }
        }
        // reserve
        let l = s.b.lamports(&pool()) as u128;
        let free = self.start.lamports(&pool()) as u128 - self.owed0;
        if l < free + s.owed.min(u128::MAX / 2) {
            viol(out, &["C05", "C11"], "pool:backing", format!("the pool holds {} lamports less than owed", free + s.owed - l));
        }
        if self.is(&["C14", "C15"]) {
            self.roots(s, out);
        }
    }
}

impl M {
    fn roots(&self, s: &S, out: &mut Vec<Viol>) {
        let active = s.trees;
        let cur = s.tree.root();
        let mut good = vec![];
        if s.tree.ptr() == 0 {
            good.push(cur);
        }
        let n = s.tree.roots.len();
        good.extend_from_slice(&s.tree.roots[n.saturating_sub(100)..]);
        for r in &good {
            if !root_admitted(&s.b, active, r) {
                viol(out, if s.closed.is_empty() { &["C14", "C13"] } else { &["C14", "C13", "C15"] }, "root:refused", format!("one of the last {} roots of the active tree is refused ({} batches of rate {}, ptr {})", good.len(), n, self.rate, s.tree.ptr()));
            }
        }
        let mut bad = vec![fr(&num(0)).unwrap(), fr(&num(12345)).unwrap(), s.tree.node(1, 0)];
        bad.extend_from_slice(&s.closed);
        for r in &bad {
            if !good.contains(r) && root_admitted(&s.b, active, r) {
                viol(out, if s.closed.is_empty() { &["C14"] } else { &["C14", "C15"] }, "root:accepted", "a value that was never a root of the active tree is accepted");
            }
        }
        for (i, c) in s.closed.iter().enumerate() {
            if !root_admitted(&s.b, i as u32, c) {
                viol(out, &["C14", "C15"], "root:closed-refused", "the final root of a closed tree is refused");
            }
            for r in good.iter().chain([fr(&num(0)).unwrap()].iter()) {
                if r != c && root_admitted(&s.b, i as u32, r) {
                    viol(out, &["C14", "C15"], "root:closed-accepted", "another value than the final root is accepted for a closed tree");
                }
            }
        }
        for i in s.trees + 1..3 {
            if root_admitted(&s.b, i, &fr(&num(0)).unwrap()) {
                viol(out, &["C14", "C13"], "root:future", "the root zero is accepted for a tree that does not exist yet");
            }
        }
    }
}

/// Long linear history: the acceptance of every recent root after every batch
fn history(c: &mut Check, rate: u32, batches: u32, probe_every: u32) {
    let n = 1u32 << rate;
    let (mut b, mut t) = base_world(rate, 0, 0, &[]);
    let l = b.lamports(&pool());
    b.set_lamports(&pool(), l + 1000 * SOL);
    let mut viols = vec![];
    let mut steps = 0;
    let mut probes: Vec<(Bank, Tree, u32)> = vec![];
    for k in 0..batches {
        let es: Vec<Entry> = (0..n as usize).map(|i| Entry { c: mont_b(&h2c(fr(&num(33)).unwrap(), fr(&num((k * n) as u64 + i as u64)).unwrap())), meta: meta_of(i), rate }).collect();
        put_queue(&mut b, (k as usize * 7) % Q_CAP, &es);
        let at = t.ptr();
        let kids = path_children(at, n);
        let mut ok = || -> Result<(), TxError> {
            b = run(&b, &[init_hash_setup(false, &kids), init_hash(false, &[meta_child((at >> 16) as usize)])])?;
            let mut tx = vec![];
            for i in 0..HASH_IX[rate as usize] as u32 {
                tx.push(compute_hash(0, i, &warden()));
            }
            for _ in 0..=rate {
                tx.push(finalize_hash(&kids));
            }
            b = run(&b, &tx)?;
            Ok(())
        };
        if let Err(e) = ok() {
            viols.push((Viol { props: &["C08", "C09", "C14", "C35"], key: "history:batch".into(), msg: format!("batch {} of rate {} failed: {:?}", k, rate, e) }, format!("rate {} batch {}", rate, k)));
            break;
        }
        steps += 1;
        t.leaves.extend(es.iter().map(|e| from_mont(&e.c)));
        let r = t.root();
        t.roots.push(r);
        if k % probe_every == 0 || (98..104).contains(&k) || (198..203).contains(&k) || k < 3 {
            probes.push((b.clone(), t.clone(), k));
        }
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let vs = std::sync::Mutex::new(vec![]);
    let count = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..c.workers {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= probes.len() {
                    break;
                }
                let (b, t, k) = &probes[i];
                let n = t.roots.len();
                for (j, r) in t.roots.iter().enumerate() {
                    let recent = j + 100 >= n;
                    count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if root_admitted(b, 0, r) != recent {
                        vs.lock().unwrap().push((
                            Viol { props: &["C14", "C13"], key: if recent { "root:refused".into() } else { "root:old-accepted".into() },
                                msg: format!("rate {}: after {} batches the root of batch {} is {}", rate, n, j, if recent { "refused" } else { "accepted" }) },
                            format!("rate {} batch {} root {}", rate, k, j)));
                    }
                }
                if root_admitted(b, 0, &fr(&num(0)).unwrap()) {
                    vs.lock().unwrap().push((Viol { props: &["C14"], key: "root:accepted".into(), msg: "the zero root is accepted".into() }, format!("rate {} batch {}", rate, k)));
                }
            });
        }
    });
    viols.extend(vs.into_inner().unwrap());
    c.enumerated(&format!("root-history-rate{}", rate), &format!("{} consecutive batches of {} commitments; all roots so far probed at {} points", batches, n, probes.len()),
        count.into_inner(), probes.len() as u64, steps, true, format!("rate {}: {} batches, ptr {}", rate, steps, t.ptr()), viols);
}

/// One complete batch at every listed fill level
fn positions(c: &mut Check) {
    let mut cases: Vec<(u32, u32)> = vec![];
    let low = c.tier(6, 9);
    for rate in 0..=4u32 {
        let n = 1u32 << rate;
        let mut s = std::collections::BTreeSet::new();
        for hi in [0u32, 0x5_5555, 0xa_aaaa, 0xf_ffff] {
            let hi = hi >> (low + rate) << (low + rate);
            for i in 0..1 << low {
                s.insert(hi + i * n);
            }
        }
        for k in rate..20 {
            for d in [-1i64, 0, 1] {
                s.insert(((1i64 << k) + d * n as i64).max(0) as u32);
            }
        }
        // boundaries between the child accounts that store the leaves
        for ch in 12..25u64 {
            let leaf = (ch * ST_CHILD_VALUES as u64) as i64 - ((1 << 20) - 1);
            for d in -1..=1i64 {
                let p = (leaf / n as i64 + d) * n as i64;
                if p >= 0 {
                    s.insert(p as u32);
                }
            }
        }
        cases.extend(s.into_iter().filter(|p| p + n < MT_LEAVES).map(|p| (rate, p)));
    }
    let worlds: Vec<Bank> = (0..=4).map(|r| base_world(r, 0, 0, &[]).0).collect();
    c.grid(
        "tree-positions",
        &format!("one batch of every rate at every fill level whose lowest {} (batch) bits are arbitrary above four high parts, around every power of two and every storage boundary", low),
        &cases,
        |(rate, ptr), out| {
            let n = 1u32 << rate;
            let mut t = Tree::new(*ptr);
            let mut b = worlds[*rate as usize].clone();
            t.install(&mut b);
            b.write(&metadata(), ME_PTR, &ptr.to_le_bytes());
            let es: Vec<Entry> = (0..n as usize).map(|i| Entry { c: mont_b(&h2c(fr(&num(34)).unwrap(), fr(&num(i as u64)).unwrap())), meta: meta_of(i + 1), rate: *rate }).collect();
            put_queue(&mut b, (*ptr as usize) % Q_CAP, &es);
            let l = b.lamports(&pool());
            b.set_lamports(&pool(), l + SOL);
            let kids = path_children(*ptr, n);
            let pre = b.clone();
            let mut steps = 0;
            let mut fail = |b: &mut Bank, out: &mut Vec<Viol>, what: &str, ix: solana_program::instruction::Instruction| {
                steps += 1;
                match run(b, &[cu_ix(), ix]) {
                    Ok(x) => {
                        *b = x;
                        false
                    }
                    Err(e) => {
                        viol(out, &["C08", "C09", "C35"], format!("positions:{}", what), format!("{} of a batch of {} at {} was refused: {:?}", what, n, ptr, e));
                        true
                    }
                }
            };
            let mut go = |b: &mut Bank, out: &mut Vec<Viol>| {
                fail(b, out, "setup", init_hash_setup(false, &kids))
                    || fail(b, out, "init", init_hash(false, &[meta_child((*ptr >> 16) as usize)]))
                    || (0..HASH_IX[*rate as usize] as u32).any(|i| fail(b, out, "compute", compute_hash(0, i, &warden())))
                    || (0..=*rate).any(|_| fail(b, out, "finalize", finalize_hash(&kids)))
            };
            if go(&mut b, out) {
                return (steps, 0);
            }
            t.leaves.extend(es.iter().map(|e| from_mont(&e.c)));
            if tree_ptr(&b) != ptr + n {
                viol(out, &["C09", "C08"], "positions:ptr", format!("{} leaves after a batch of {} at {}", tree_ptr(&b), n, ptr));
            }
            let mut exp = pre.clone();
            for ((level, i), v) in t.written(*ptr, n) {
                set_node_raw(&mut exp, level, i as usize, &mont_b(&v));
                if node_raw(&b, level, i as usize) != Some(mont_b(&v)) {
                    let p: Props = if level == MT_HEIGHT { &["C08", "C09", "C24"] } else { &["C09", "C24"] };
                    viol(out, p, format!("tree:node:level{}", level), format!("stored node (level {}, index {}) after a batch of {} at {} differs from the reference", level, i, n, ptr));
                }
            }
            for ch in storage_children() {
                if exp.get(&ch) != b.get(&ch) {
                    viol(out, &["C09"], "tree:other-node", format!("a batch of {} at {} changed a node outside of its paths", n, ptr));
                }
            }
            for (i, e) in es.iter().enumerate() {
                if meta_at(&b, *ptr as usize + i) != e.meta {
                    viol(out, &["C23"], "positions:metadata", format!("metadata of leaf {} is not the submitted one", ptr + i as u32));
                }
            }
            if !root_admitted(&b, 0, &t.root()) {
                viol(out, &["C14"], "root:refused", format!("the current root is refused after a batch of {} at {}", n, ptr));
            }
            (steps, b.hash())
        },
    );
}

pub fn run_driver(c: &mut Check) {
    if c.wants("positions", &["C08", "C09", "C24", "C35", "C23", "C14"]) {
        positions(c);
    }
    let props = ["C05", "C08", "C09", "C11", "C14", "C15", "C23", "C24", "C35", "C20", "C10", "C18", "C02"];
    if c.wants("hashing", &props) {
        let full = MT_LEAVES;
        // (rate, ptr, prefilled queue, deposits, single steps, resets, queue start, depth)
        let mut cfgs: Vec<(u32, u32, u32, u32, bool, bool, usize, usize)> = vec![
            (0, 0, 0, 2, true, false, 0, 8),
            (0, 65535, 1, 2, false, false, 238, 9),
            (1, 0, 1, 2, true, false, 239, 8),
            (0, full - 2, 2, 1, false, true, 0, 10),
            (1, full - 4, 4, 1, false, true, 236, 9),
            (2, 65536 - 4, 7, 1, true, false, 233, 8),
            (3, 1 << 19, 16, 0, true, false, 230, 9),
            (4, full - 32, 32, 0, true, true, 225, 8),
        ];
        if c.thorough {
            for x in cfgs.iter_mut() {
                x.7 += 8;
                x.3 += 1;
            }
            for (rate, ptr) in [(0u32, 1u32), (0, 127), (0, 128), (0, (1 << 19) - 1), (0, full - 1), (0, full), (0, 83886), (1, 2), (1, full - 2), (2, full - 8), (3, full - 8), (4, full - 16), (4, 16), (2, 12), (3, 0), (4, 0)] {
                cfgs.push((rate, ptr, (2 << rate).min(40), 1, false, true, 200, 10));
            }
        }
        for (rate, ptr, pre, dep, fine, resets, qs, depth) in cfgs {
            let depth = depth + 8;
            let (m, _) = M::new(&c.prop, rate, ptr, pre, dep, fine, resets, qs);
            let e = explore(&m, &c.limits(depth, 400_000));
            c.explored(&format!("hashing-rate{}-at{}", rate, ptr), &format!("batching rate {}, {} leaves present, {} queued at ring position {}, up to {} further deposits, depth {}", rate, ptr, pre, qs, dep, depth), e);
        }
    }
    if c.wants("history", &["C14"]) {
        let rates: &[u32] = c.tier(&[0, 1, 3][..], &[0, 1, 2, 3, 4][..]);
        for r in rates {
            history(c, *r, c.tier(104, 230), c.tier(40, 7));
        }
    }
}
pub use run_driver as run_all;
