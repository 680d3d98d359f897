//! Whole lifecycles: deposits, requests (valid, invalid, repeated, sharing nullifiers), batching, hashing and the change of
//! the tree, interleaved in every order; the balances, the queue, the tree and the nullifiers of every reached state are
//! those of an independent account of what happened (C01, C05, C06, C07, C08, C13, C14, C15, C23).
use crate::chk::*;
use crate::hash::{meta_of, prefilled, put_queue, warden, Entry};
use crate::tree::{Tree, F};
use crate::ver::*;
use mc::*;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
struct Req {
    other_payer: bool,
    idx: u8,
    token: u16,
    nulls: Vec<u64>,
    /// verdicts of the attempts
    tries: Vec<bool>,
}
#[derive(Clone, Debug)]
struct Scen {
    rate: u32,
    ptr: u32,
    prefill: u32,
    deps: Vec<u16>,
    reqs: Vec<Req>,
    /// (state that no instruction produces yet) a new fee version may be introduced at any time
    upgrade: bool,
    depth: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Dep {
    New,
    Stored,
    Computed,
    Done,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Rq {
    Idle,
    Open,
    Decided,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Ph {
    Idle,
    Active,
    Hashed,
}
#[derive(Clone, Debug)]
enum A {
    Store(usize),
    Compute(usize),
    FinishDeposit(usize),
    Request(usize),
    Decide(usize),
    Finalise(usize),
    StartBatch,
    RunBatch,
    FinishBatch,
    Close,
    Upgrade,
}

#[derive(Clone)]
struct Item {
    e: Entry,
    ver: u32,
}

#[derive(Clone)]
struct S {
    b: Bank,
    dep: Vec<Dep>,
    dep_c: Vec<Option<(F, u32)>>,
    version: u32,
    rq: Vec<Rq>,
    /// attempts so far
    tried: Vec<usize>,
    v: Vec<Option<V>>,
    queued: Vec<Item>,
    flight: Vec<Item>,
    ph: Ph,
    tree: Tree,
    leaf_meta: Vec<(u32, [u8; 17])>,
    trees: u32,
    final_root: Option<F>,
    spent: BTreeSet<B32>,
    /// outputs that were paid or are pending
    outs: BTreeSet<B32>,
    /// lamports / units of token 1 of notes, relative to the start
    notes: [i128; 2],
    /// what the pool keeps beyond notes and reserves (roundings, fees above the requirement)
    extra: [i128; 2],
    received: [i128; 2],
}

struct M {
    sc: Scen,
    start: Bank,
    fees: [Fee; 2],
    tree: Tree,
    null0: usize,
}

fn other_fee() -> Fee {
    Fee { lamports_per_tx: 7000, base_bps: 23, proof_bps: 50, base_subv: 12, proof_subv: 77, hash_reward: 111, proof_reward: 999, base_tx_count: 62 }
}
fn amount(t: u16) -> u64 {
    if t == 0 { 10_000_000 } else { 7_000_000 }
}
impl M {
    fn new(sc: &Scen) -> M {
        let (mut b, tree) = vworld(sc.rate, sc.ptr, 0);
        user(&mut b, "depositor", 1000, &[(1, 1 << 40)]);
        let es = prefilled(sc.prefill, sc.rate);
        put_queue(&mut b, 237, &es);
        let l = b.lamports(&pool());
        b.set_lamports(&pool(), l + es.len() as u64 * Fee::default().commitment_fee(sc.rate));
        let null0 = null_keys(&b, 0, 0).len();
        M { sc: sc.clone(), start: b, fees: [Fee::default(), other_fee()], tree, null0 }
    }
    /// what is left of the reserve of a hashed batch
    fn batch_reserve(&self, f: &[Item]) -> i128 {
        let Some(x) = f.first() else { return 0 };
        let fee = &self.fees[x.ver as usize];
        f.len() as i128 * fee.commitment_fee(self.sc.rate) as i128 - (HASH_IX[self.sc.rate as usize] * fee.hash_comp()) as i128
    }
    fn batch(&self) -> usize {
        1 << self.sc.rate
    }
    fn full(&self, s: &S) -> bool {
        let p = s.tree.ptr();
        p >= MT_LEAVES || (s.queued.len() >= self.batch() && p + self.batch() as u32 >= MT_LEAVES)
    }
    fn payer(&self, i: usize) -> Pubkey {
        if self.sc.reqs[i].other_payer { warden2() } else { warden() }
    }
    fn nuls(&self, i: usize) -> Vec<B32> {
        self.sc.reqs[i].nulls.iter().map(|n| mont_b(&fr(&nul(*n)).unwrap())).collect()
    }
    /// the request as its owner makes it in this state
    fn request(&self, s: &S, i: usize) -> V {
        let r = &self.sc.reqs[i];
        let mut v = V::new(&s.b, r.idx, &self.payer(i), r.token, 50 + i as u64);
        v.r.inputs = r.nulls.iter().map(|n| Input { root: None, nullifier: nul(*n) }).collect();
        v.r.inputs[0].root = Some(match s.final_root {
            Some(f) => fr_b(&f),
            None => root_of(&s.b),
        });
        v.trees = [0, 1];
        v.r.fee *= 2;
        v.r.fee_version = s.version;
        v.seal();
        v
    }
}

impl Model for M {
    type S = S;
    type A = A;
    fn initial(&self) -> Vec<(String, S)> {
        let n = self.sc.reqs.len();
        vec![(
            format!("{:?}", self.sc),
            S {
                b: self.start.clone(), dep: vec![Dep::New; self.sc.deps.len()], dep_c: vec![None; self.sc.deps.len()], rq: vec![Rq::Idle; n], tried: vec![0; n], v: vec![None; n],
                version: 0, queued: prefilled(self.sc.prefill, self.sc.rate).into_iter().map(|e| Item { e, ver: 0 }).collect(), flight: vec![], ph: Ph::Idle, tree: self.tree.clone(), leaf_meta: vec![], trees: 0, final_root: None,
                spent: BTreeSet::new(), outs: BTreeSet::new(), notes: [0; 2], extra: [0; 2], received: [0; 2],
            },
        )]
    }
    fn key(&self, s: &S) -> u128 {
        s.b.hash() ^ svm::hash_bytes(5, format!("{:?}{:?}{:?}{:?}{}{}", s.dep, s.rq, s.tried, s.ph, s.trees, s.tree.leaves.len() as u32 + 1000 * s.version).as_bytes())
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut a = vec![];
        for i in 0..self.sc.deps.len() {
            a.extend([A::Store(i), A::Compute(i), A::FinishDeposit(i)]);
        }
        for i in 0..self.sc.reqs.len() {
            if s.tried[i] < self.sc.reqs[i].tries.len() || s.rq[i] != Rq::Idle {
                a.push(A::Request(i));
            }
            if s.rq[i] == Rq::Open {
                a.push(A::Decide(i));
            }
            if s.v[i].is_some() {
                a.push(A::Finalise(i));
            }
        }
        a.extend([A::StartBatch, A::RunBatch, A::FinishBatch]);
        // (trees that are not full are covered by the hashing drivers)
        if self.full(s) || s.tried.iter().all(|t| *t == 0) && s.ph == Ph::Idle && s.dep.iter().all(|d| *d == Dep::New) {
            a.push(A::Close);
        }
        if self.sc.upgrade && s.version == 0 {
            a.push(A::Upgrade);
        }
        a
    }
    fn step(&self, s: &S, a: &A, out: &mut Vec<Viol>) -> Option<S> {
        let mut n = s.clone();
        let tok = |i: usize| self.sc.deps[i];
        match a {
            A::Store(i) => {
                let r = BaseReq { base: num(50_000 + *i as u64), recent: s.tree.ptr(), amount: amount(tok(*i)), token: tok(*i), commitment: num(1), fee_version: s.version, rate: self.sc.rate };
                let (_, bump) = pda_of(&pid(), "BaseCommitmentHashing", None, Some(*i as u32));
                let accs = StoreAccs::new(&key("depositor"), &warden(), tok(*i));
                let R::Yes(b) = attempt(out, &["C12", "C10", "C05"], "life:store", &s.b, &[store_base(*i as u32, bump, &r, &meta_of(20 + i), &accs)], s.dep[*i] == Dep::New) else { return None };
                n.b = b;
                n.dep[*i] = Dep::Stored;
                n.dep_c[*i] = Some((deposit_commitment(&r.base, r.amount, r.token, r.recent), s.version));
                n.notes[tok(*i) as usize] += r.amount as i128;
            }
            A::Compute(i) => {
                let ok = s.dep[*i] == Dep::Stored;
                let R::Yes(b) = attempt(out, &["C10", "C24"], "life:compute deposit", &s.b, &[compute_base(*i as u32), compute_base(*i as u32)], ok) else { return None };
                n.b = b;
                n.dep[*i] = Dep::Computed;
            }
            A::FinishDeposit(i) => {
                let ok = s.dep[*i] == Dep::Computed;
                let ver = s.dep_c[*i].map_or(0, |c| c.1);
                if self.sc.upgrade {
                    attempt(out, &["C11", "C18"], "life:finish deposit with another fee", &s.b, &[finalize_base(*i as u32, 1 - ver, &warden())], false);
                }
                let R::Yes(b) = attempt(out, &["C10", "C08"], "life:finish deposit", &s.b, &[finalize_base(*i as u32, ver, &warden())], ok) else { return None };
                n.b = b;
                n.dep[*i] = Dep::Done;
                n.queued.push(Item { e: Entry { c: mont_b(&s.dep_c[*i]?.0), meta: meta_of(20 + i), rate: self.sc.rate }, ver });
            }
            A::Request(i) => {
                let v = self.request(s, *i);
                let more = s.tried[*i] < self.sc.reqs[*i].tries.len();
                // the accounts of a verification in progress, of its own or with the same nullifiers, exist
                let blocked = (0..s.rq.len()).any(|j| s.rq[j] != Rq::Idle && s.v[j].as_ref().map_or(false, |w| w.dup() == v.dup() || w.acc() == v.acc()));
                let ok = more && s.rq[*i] == Rq::Idle && !blocked && self.nuls(*i).iter().all(|x| !s.spent.contains(x)) && !s.outs.contains(&v.r.output);
                let valid = *self.sc.reqs[*i].tries.get(s.tried[*i]).unwrap_or(&true);
                let p = if valid { v.proof() } else { v.wrong_proof() };
                let R::Yes(b) = attempt(out, &["C13", "C01", "C14", "C15", "C07"], "life:request", &s.b, &v.init_tx(&p), ok) else { return None };
                check_setup(out, "life:setup", &s.b, &b, &v, &self.fees[s.version as usize], self.sc.rate);
                n.b = b;
                n.rq[*i] = Rq::Open;
                n.tried[*i] += 1;
                n.outs.insert(v.r.output);
                n.v[*i] = Some(v);
            }
            A::Decide(i) => {
                s.v[*i].as_ref()?.decide(&mut n.b, self.sc.reqs[*i].tries[s.tried[*i] - 1]);
                n.rq[*i] = Rq::Decided;
            }
            A::Finalise(i) => {
                let mut v = s.v[*i].clone()?;
                let valid = self.sc.reqs[*i].tries[s.tried[*i] - 1];
                let at = s.tree.ptr() + s.queued.len() as u32;
                v.fin.mt_index = s.trees + at / MT_LEAVES;
                v.fin.commitment_index = at % MT_LEAVES;
                let fresh = self.nuls(*i).iter().all(|x| !s.spent.contains(x));
                let ok = s.rq[*i] == Rq::Decided && (!valid || fresh);
                let what = if valid { "life:payout" } else { "life:forfeit" };
                let dest = v.rec;
                let R::Yes(b) = attempt(out, &["C06", "C01", "C03", "C15", "C07"], what, &s.b, &v.final_tx(valid, v.r.amount, &dest), ok) else { return None };
                let c = v.charges(&s.b);
                let t = v.r.token as usize;
                n.b = b;
                n.rq[*i] = Rq::Idle;
                if valid {
                    check_payout(out, what, &s.b, &n.b, &v, &c, false, &dest);
                    n.spent.extend(self.nuls(*i));
                    n.queued.push(Item { e: Entry { c: mont_b(&fr(&v.r.output).unwrap()), meta: v.r.metadata, rate: self.sc.rate }, ver: v.r.fee_version });
                    n.notes[t] -= (v.r.amount + v.r.fee) as i128;
                    n.extra[t] += v.r.fee as i128 + c.subv as i128 - (c.hash_t + c.proof_t + c.net) as i128;
                    n.received[t] += v.r.amount as i128;
                } else {
                    check_forfeit(out, what, &s.b, &n.b, &v, &c);
                    n.outs.remove(&v.r.output);
                }
                n.v[*i] = None;
            }
            A::StartBatch => {
                let at = s.tree.ptr();
                let ok = s.ph == Ph::Idle && s.queued.len() >= self.batch() && at + (self.batch() as u32) < MT_LEAVES && s.queued[..self.batch()].iter().all(|x| x.ver == s.queued[0].ver);
                let kids = path_children(at.min(MT_LEAVES - 1), self.batch() as u32);
                let R::Yes(b) = attempt(out, &["C08", "C20", "C15"], "life:start batch", &s.b, &[init_hash_setup(false, &kids), init_hash(false, &[meta_child((at.min(MT_LEAVES - 1) >> 16) as usize)])], ok) else { return None };
                n.b = b;
                n.ph = Ph::Active;
                n.flight = n.queued.drain(..self.batch()).collect();
                for (i, e) in n.flight.iter().enumerate() {
                    n.leaf_meta.push((at + i as u32, e.e.meta));
                }
            }
            A::RunBatch => {
                let ver = s.flight.first().map_or(0, |x| x.ver);
                if self.sc.upgrade {
                    attempt(out, &["C11", "C18"], "life:hash with another fee", &s.b, &[compute_hash(1 - ver, 0, &warden())], false);
                }
                let tx: Vec<_> = (0..HASH_IX[self.sc.rate as usize] as u32).map(|k| compute_hash(ver, k, &warden())).collect();
                let R::Yes(b) = attempt(out, &["C08", "C35", "C24"], "life:hash batch", &s.b, &tx, s.ph == Ph::Active) else { return None };
                n.b = b;
                n.ph = Ph::Hashed;
            }
            A::FinishBatch => {
                let at = s.tree.ptr();
                let kids = path_children(at.min(MT_LEAVES - 1), self.batch() as u32);
                let tx: Vec<_> = (0..=self.sc.rate).map(|_| finalize_hash(&kids)).collect();
                let R::Yes(b) = attempt(out, &["C08", "C09", "C35"], "life:finish batch", &s.b, &tx, s.ph == Ph::Hashed) else { return None };
                n.b = b;
                n.ph = Ph::Idle;
                n.tree.leaves.extend(s.flight.iter().map(|e| from_mont(&e.e.c)));
                // what the reserve of the batch did not use
                n.extra[0] += self.batch_reserve(&s.flight);
                n.flight.clear();
            }
            A::Close => {
                // (a mixed batch at the head is refused here as well: DESIGN.md, section 7)
                let mixed = s.tree.ptr() < MT_LEAVES && s.queued.iter().take(self.batch()).any(|x| x.ver != s.queued[0].ver);
                let ok = self.full(s) && s.ph == Ph::Idle && s.trees < 2 && !mixed;
                let R::Yes(b) = attempt(out, &["C15", "C08"], "life:close", &s.b, &[reset_tree(s.trees, &storage_children())], ok) else { return None };
                n.b = b;
                n.trees += 1;
                n.final_root = Some(s.tree.root());
                n.tree = Tree::new(0);
                n.leaf_meta.clear();
            }
            A::Upgrade => {
                // (there is no instruction yet that increases the governor's version)
                let mut g = s.b.clone();
                g.write(&governor(), GO_FEE_VERSION, &1u32.to_le_bytes());
                let R::Yes(b) = attempt(out, &["C18"], "life:new fee", &g, &[init_fee(&admin(), 1, &self.fees[1].arr())], s.version == 0) else { return None };
                n.b = b;
                n.version = 1;
            }
        }
        Some(n)
    }
    fn check(&self, s: &S, out: &mut Vec<Viol>) {
        let cf = |v: u32| self.fees[v as usize].commitment_fee(self.sc.rate) as i128;
        // the pool
        let mut want = [
            self.start.lamports(&pool()) as i128 - self.sc.prefill as i128 * cf(0) + s.notes[0] + s.extra[0] + s.queued.iter().map(|x| cf(x.ver)).sum::<i128>(),
            token_balance(&self.start, &ata(&pool(), 1)) as i128 + s.notes[1] + s.extra[1],
        ];
        want[0] += match s.ph {
            Ph::Hashed => self.batch_reserve(&s.flight),
            _ => s.flight.iter().map(|x| cf(x.ver)).sum::<i128>(),
        };
        for (d, c) in s.dep.iter().zip(&s.dep_c) {
            if let (Dep::Stored | Dep::Computed, Some((_, v))) = (d, c) {
                want[0] += self.fees[*v as usize].base_hash_fee() as i128 + cf(*v);
            }
        }
        for (i, v) in s.v.iter().enumerate() {
            if let (Some(v), true) = (v, s.rq[i] != Rq::Idle) {
                want[0] += cf(v.r.fee_version);
                want[v.r.token as usize] += v.charges(&s.b).subv as i128;
            }
        }
        let have = [s.b.lamports(&pool()) as i128, token_balance(&s.b, &ata(&pool(), 1)) as i128];
        for t in 0..2 {
            if have[t] != want[t] {
                viol(out, &["C05", "C07", "C11"], format!("life:pool{}", t), format!("the pool holds {} units of token {} instead of {} (notes {}, kept {})", have[t], t, want[t], s.notes[t], s.extra[t]));
            }
            if s.extra[t] < 0 {
                viol(out, &["C05", "C11", "C18"], format!("life:backing{}", t), format!("{} units of token {} more were paid out than charged", -s.extra[t], t));
            }
        }
        let got = [
            s.b.lamports(&recipient()) as i128 - self.start.lamports(&recipient()) as i128,
            token_balance(&s.b, &ata(&recipient(), 1)) as i128 - token_balance(&self.start, &ata(&recipient(), 1)) as i128,
        ];
        if got != s.received {
            viol(out, &["C04", "C05", "C01", "C07"], "life:received", format!("the recipient received {:?} instead of {:?}", got, s.received));
        }
        if s.b.total_lamports() != self.start.total_lamports() {
            viol(out, &["C05"], "life:total", "lamports were created or destroyed");
        }
        // queue, batch, tree
        let real: Vec<(B32, u32, u32)> = queue_entries(&s.b).iter().map(|q| (q.commitment, q.rate, q.fee_version)).collect();
        if real != s.queued.iter().map(|e| (e.e.c, e.e.rate, e.ver)).collect::<Vec<_>>() {
            viol(out, &["C08", "C06", "C20", "C10", "C15"], "life:queue", format!("the queue holds {} entries that are not the {} pending commitments in order", real.len(), s.queued.len()));
        }
        if meta_entries(&s.b) != s.queued.iter().map(|e| e.e.meta).collect::<Vec<_>>() {
            viol(out, &["C23"], "life:metadata", "the metadata queue does not hold the metadata of the pending commitments in order");
        }
        for (i, m) in &s.leaf_meta {
            if meta_at(&s.b, *i as usize) != *m {
                viol(out, &["C23"], "life:leaf-metadata", format!("metadata of leaf {} is not the submitted one", i));
            }
        }
        if tree_ptr(&s.b) != s.tree.ptr() || root_of(&s.b) != fr_b(&s.tree.root()) {
            viol(out, &["C08", "C09", "C15"], "life:tree", "root or number of commitments of the tree differ from the reference");
        }
        if trees_count(&s.b) != s.trees {
            viol(out, &["C15"], "life:trees", "wrong tree index");
        }
        if let Some(r) = s.final_root {
            let d = s.b.data(&nullifier(s.trees - 1));
            if s.trees == 1 && d[NU_ROOT..NU_ROOT + 32] != mont_b(&r) {
                viol(out, &["C15", "C14"], "life:final-root", "the final root of the closed tree changed");
            }
        }
        // nullifiers
        let nk = null_keys(&s.b, 0, 0);
        if nk.len() != self.null0 + s.spent.len() || s.spent.iter().any(|k| !nk.contains(k)) {
            viol(out, &["C01", "C02", "C06", "C07", "C15"], "life:nullifiers", format!("{} nullifiers are stored, {} have been spent", nk.len(), s.spent.len()));
        }
        for t in 1..3 {
            if !null_keys(&s.b, t, 0).is_empty() {
                viol(out, &["C01", "C02", "C15"], "life:other-nullifiers", "a nullifier was stored for another tree");
            }
        }
        for o in &s.outs {
            if !buffer_contains(&s.b, &commitment_buffer(), &mont_b(&fr(o).unwrap())) {
                viol(out, &["C21", "C13"], "life:reserved", "an output commitment in use is not remembered");
            }
        }
        for (i, v) in s.v.iter().enumerate() {
            if v.is_some() != (s.rq[i] != Rq::Idle) {
                viol(out, &["C06"], "life:harness", "bookkeeping");
            }
        }
    }
}

pub fn run_all(c: &mut Check) {
    if !c.wants("lifecycle", &["C01", "C04", "C05", "C06", "C07", "C08", "C11", "C13", "C14", "C15", "C18", "C23"]) {
        return;
    }
    let q = |other_payer, idx, token, nulls: &[u64], tries: &[bool]| Req { other_payer, idx, token, nulls: nulls.to_vec(), tries: tries.to_vec() };
    let mut scens = vec![];
    let d = c.tier(10, 16);
    for (rate, ptr, prefill) in [(0u32, 200u32, 0u32), (1, 0, 1), (0, MT_LEAVES - 2, 1), (1, MT_LEAVES - 4, 2), (1, MT_LEAVES - 2, 2)] {
        // two requests for the same note by different wardens; one more with an overlapping set
        scens.push(Scen { rate, ptr, prefill, deps: vec![0], reqs: vec![q(false, 3, 0, &[1], &[true]), q(true, 3, 1, &[1, 2], &[true])], upgrade: false, depth: d });
        // an invalid attempt, then a valid one; another request that shares its nullifier
        scens.push(Scen { rate, ptr, prefill, deps: vec![1], reqs: vec![q(false, 3, 0, &[1, 3], &[false, true]), q(false, 4, 0, &[3], &[true])], upgrade: false, depth: d });
        // identical nullifier sets
        scens.push(Scen { rate, ptr, prefill, deps: vec![], reqs: vec![q(false, 3, 1, &[1], &[false, true]), q(true, 3, 0, &[1], &[false, true]), q(true, 4, 0, &[2], &[true])], upgrade: false, depth: d });
        if c.thorough || ptr < 200 {
            scens.push(Scen { rate, ptr, prefill, deps: vec![0, 1], reqs: vec![q(false, 3, 0, &[1], &[false, true])], upgrade: true, depth: d });
        }
        if c.thorough || ptr == 200 {
            scens.push(Scen { rate, ptr, prefill, deps: vec![0], reqs: vec![q(false, 3, 0, &[1], &[true]), q(true, 3, 1, &[2], &[false])], upgrade: true, depth: d });
            scens.push(Scen { rate, ptr, prefill, deps: vec![0, 1], reqs: vec![q(false, 3, 0, &[1], &[false])], upgrade: false, depth: d + 2 });
        }
    }
    let models: Vec<(String, M)> = scens
        .iter()
        .map(|sc| (format!("{} leaves, rate {}, {} queued; deposits of tokens {:?}, requests {:?}, batches, closing of the tree: all orders up to {} transactions", sc.ptr, sc.rate, sc.prefill, sc.deps, sc.reqs, sc.depth), M::new(sc)))
        .collect();
    c.explore_all("lifecycle", d, c.tier(60_000, 400_000), &models);
}
