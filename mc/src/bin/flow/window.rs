//! The window of recent transfers (C21): requests for the same output commitments are admitted, fail, succeed and are
//! evicted by others, from several positions of the ring.
use crate::chk::*;
use crate::hash::{base_world, dep_base, deposit, meta_of, warden};
use crate::ver::*;
use mc::*;

const P: Props = &["C21", "C13", "C07"];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Slot {
    value: u8,
    n: u64,
}
#[derive(Clone)]
struct S {
    b: Bank,
    slots: Vec<Option<Slot>>,
    /// the last 128 admissions, oldest first: value (0..3 or filler) and number of the request; `None`: given back
    ring: Vec<Option<(u64, u64)>>,
    n: u64,
    fill: u64,
}
#[derive(Clone, Debug)]
enum A {
    Request(usize, u8),
    Fail(usize),
    Pay(usize),
    /// that many other requests are admitted
    Others(u32),
}
struct M {
    start: Vec<(String, S)>,
    values: u8,
    slots: usize,
    others: Vec<u32>,
}
/// output commitments
fn output(v: u64) -> B32 {
    num(7_900_000 + v)
}
fn put(b: &mut Bank, vals: &[u64]) {
    let k = commitment_buffer();
    let mut d = b.data(&k);
    let mut len = u32_at(b, &k, 2 + 4096) as usize;
    let mut ptr = u32_at(b, &k, 2 + 4100) as usize;
    for v in vals {
        d[2 + 32 * ptr..34 + 32 * ptr].copy_from_slice(&mont_b(&fr(&output(*v)).unwrap()));
        ptr = (ptr + 1) % BU_CAP;
        len = (len + 1).min(BU_CAP);
    }
    d[2 + 4096..2 + 4100].copy_from_slice(&(len as u32).to_le_bytes());
    d[2 + 4100..2 + 4104].copy_from_slice(&(ptr as u32).to_le_bytes());
    b.write(&k, 0, &d);
}
impl S {
    fn push(&mut self, v: u64, n: u64) {
        self.ring.push(Some((v, n)));
        if self.ring.len() > BU_CAP {
            self.ring.remove(0);
        }
    }
    fn has(&self, v: u64) -> bool {
        self.ring.iter().flatten().any(|x| x.0 == v)
    }
    fn others(&mut self, k: u32) {
        let vals: Vec<u64> = (0..k as u64).map(|i| 1000 + self.fill + i).collect();
        self.fill += k as u64;
        put(&mut self.b, &vals);
        for v in vals {
            self.push(v, u64::MAX);
        }
    }
    fn request(&self, i: usize, value: u64, n: u64) -> V {
        let mut v = V::new(&self.b, i as u8, if i % 2 == 0 { &WARDENS[0] } else { &WARDENS[1] }, 0, n);
        v.r.output = output(value);
        v.r.recent = 200;
        v.seal();
        v
    }
}
use solana_program::pubkey::Pubkey;
struct Lazy;
impl std::ops::Index<usize> for Lazy {
    type Output = Pubkey;
    fn index(&self, i: usize) -> &Pubkey {
        static K: std::sync::OnceLock<[Pubkey; 2]> = std::sync::OnceLock::new();
        &K.get_or_init(|| [warden(), warden2()])[i]
    }
}
static WARDENS: Lazy = Lazy;

fn proofs(v: &V, valid: bool) -> mc::groth::Proof {
    // the verdict is set directly; the same points serve all requests
    static PR: std::sync::OnceLock<mc::groth::Proof> = std::sync::OnceLock::new();
    let _ = valid;
    PR.get_or_init(|| v.proof()).clone()
}

impl Model for M {
    type S = S;
    type A = A;
    fn initial(&self) -> Vec<(String, S)> {
        self.start.clone()
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut v = vec![];
        for i in 0..self.slots {
            match &s.slots[i] {
                None => v.extend((0..self.values).map(|o| A::Request(i, o))),
                Some(_) => v.extend([A::Fail(i), A::Pay(i)]),
            }
        }
        v.extend(self.others.iter().map(|k| A::Others(*k)));
        v
    }
    fn step(&self, s: &S, a: &A, out: &mut Vec<Viol>) -> Option<S> {
        let mut t = s.clone();
        match a {
            A::Request(i, o) => {
                let ok = !s.has(*o as u64);
                let v = s.request(*i, *o as u64, s.n);
                // who gave the place back?
                let what = if ok { "request for an output that is not in use" } else { "request for a recent output" };
                match (run(&s.b, &v.init_tx(&proofs(&v, true))), ok) {
                    (Ok(b), true) => {
                        t.b = b;
                        t.push(*o as u64, s.n);
                        t.slots[*i] = Some(Slot { value: *o, n: s.n });
                        t.n += 1;
                        Some(t)
                    }
                    (Err(_), false) => None,
                    (Ok(_), false) => {
                        // the entry belongs to a request whose place an older request for the same output has given back
                        let owner = s.ring.iter().flatten().find(|x| x.0 == *o as u64).unwrap().1;
                        let stolen = !buffer_contains(&s.b, &commitment_buffer(), &mont_b(&fr(&output(*o as u64)).unwrap()));
                        let _ = owner;
                        viol(out, P, if stolen { "window:forgotten" } else { "window:accepted" }, format!("{} was accepted", what));
                        None
                    }
                    (Err(e), true) => {
                        viol(out, P, "window:refused", format!("{} was refused: {:?}", what, e));
                        None
                    }
                }
            }
            A::Fail(i) | A::Pay(i) => {
                let sl = s.slots[*i].clone().unwrap();
                let v = s.request(*i, sl.value as u64, sl.n);
                let valid = matches!(a, A::Pay(_));
                let mut b = s.b.clone();
                v.decide(&mut b, valid);
                let tx = v.final_tx(valid, v.r.amount, &v.rec);
                let R::Yes(b) = attempt(out, &["C21", "C06", "C07"], if valid { "finalisation" } else { "finalisation of an invalid proof" }, &b, &tx, true) else { return None };
                if valid {
                    only(out, &["C21", "C06"], "finalisation", &s.b, &b, &[v.fp, v.rec, v.acc(), v.dup(), pool(), fee_collector(), queue(), meta_queue(), nullifier(0), null_child(0, 0)]);
                } else {
                    let own = s.ring.contains(&Some((sl.value as u64, sl.n)));
                    if !own && s.has(sl.value as u64) && !buffer_contains(&b, &commitment_buffer(), &mont_b(&fr(&v.r.output).unwrap())) {
                        // the request had already left the window
                        viol(out, &["C21"], "output-released-by-evicted", "a failing request that had left the window gives back the place of a later request for the same output");
                        return None;
                    }
                    for e in t.ring.iter_mut() {
                        if *e == Some((sl.value as u64, sl.n)) {
                            *e = None;
                        }
                    }
                }
                t.b = b;
                t.slots[*i] = None;
                Some(t)
            }
            A::Others(k) => {
                t.others(*k);
                Some(t)
            }
        }
    }
    fn key(&self, s: &S) -> u128 {
        s.b.hash()
    }
    fn check(&self, s: &S, out: &mut Vec<Viol>) {
        // every other recent request is still remembered
        let d = s.b.data(&commitment_buffer());
        let len = u32_at(&s.b, &commitment_buffer(), 2 + 4096) as usize;
        let mut have: Vec<B32> = (0..len.min(BU_CAP)).map(|i| d[2 + 32 * i..34 + 32 * i].try_into().unwrap()).collect();
        have.retain(|x| *x != [0; 32]);
        have.sort();
        let mut want: Vec<B32> = s.ring.iter().flatten().map(|x| mont_b(&fr(&output(x.0)).unwrap())).collect();
        want.sort();
        if have != want {
            let lost: Vec<&B32> = want.iter().filter(|x| !have.contains(x)).collect();
            let tracked = lost.iter().all(|x| (0..3).any(|v| mont_b(&fr(&output(v)).unwrap()) == **x));
            let kept = have.iter().any(|x| !want.contains(x));
            viol(out, P, if kept { "window:phantom" } else if tracked { "window:lost" } else { "window:lost-other" }, format!("the window holds {} outputs, {} are recent", have.len(), want.len()));
        }
    }
}

/// the window of deposits
#[derive(Clone, Debug)]
struct Dep {
    len: u32,
    ptr: u32,
    /// deposits of other values between two of the same value
    between: u32,
}

pub fn run_all(c: &mut Check) {
    if c.wants("output-window", &["C21", "C07"]) {
        let (b0, _) = vworld(0, 200, 0);
        let mut start = vec![];
        for (n, total) in [("empty", 0u32), ("partly filled", 5), ("one place left", 127), ("full", 128), ("wrapped", 190), ("last place", 255)] {
            let mut s = S { b: b0.clone(), slots: vec![None; 3], ring: vec![], n: 1, fill: 0 };
            s.others(total);
            start.push((n.to_string(), s));
        }
        let m = M { start: start.clone(), values: 2, slots: 3, others: vec![1] };
        let l = c.limits(c.tier(5, 6), 2_000_000);
        let e = explore(&m, &l);
        c.explored("output-window", "all sequences of up to 5 (thorough 6) admissions for two output commitments in three slots, failures, payouts and other admissions, from six positions of the ring", e);
        let m = M { start, values: 1, slots: 2, others: vec![1, 126, 127, 128] };
        let l = c.limits(c.tier(5, 6), 2_000_000);
        let e = explore(&m, &l);
        c.explored("output-window-eviction", "the same for one output commitment in two slots with 1, 126, 127, 128 other admissions at a time", e);
    }
    if c.wants("deposit-window", &["C21", "C12"]) {
        let mut cases = vec![];
        for (len, ptr) in [(0, 0), (5, 5), (126, 126), (127, 127), (128, 0), (128, 1), (128, 60), (128, 126), (128, 127)] {
            for between in [0, 1, 2, 63, 126, 127, 128, 129] {
                cases.push(Dep { len, ptr, between });
            }
        }
        c.grid("deposit-window", "deposits of the same base commitment with 0-129 other deposits (through the program) between them, from nine positions of the ring", &cases, |x, out| {
            let (mut b, _) = base_world(0, 200, 0, &[]);
            let mut d = b.data(&base_buffer());
            for i in 0..x.len as usize {
                d[2 + 32 * i..34 + 32 * i].copy_from_slice(&num(880_000 + i as u64));
            }
            d[2 + 4096..2 + 4100].copy_from_slice(&x.len.to_le_bytes());
            d[2 + 4100..2 + 4104].copy_from_slice(&x.ptr.to_le_bytes());
            b.write(&base_buffer(), 0, &d);
            let dep = |b: &Bank, i: u32| deposit(b, i, 0, 0, 200, 10_000_000, &meta_of(i as usize)).map(|x| x.0);
            let mut n = 1;
            match dep(&b, 0) {
                Ok(y) => b = y,
                Err(e) => viol(out, &["C21", "C12"], "deposit-window:refused", format!("a new deposit was refused: {:?}", e)),
            }
            for i in 0..x.between {
                n += 4;
                match dep(&b, 1 + i) {
                    Ok(y) => b = y,
                    Err(e) => {
                        viol(out, &["C21", "C12"], "deposit-window:refused", format!("a new deposit was refused: {:?}", e));
                        break;
                    }
                }
                // each of the previous values is refused while it is recent
                if i % 16 == 0 || i > 120 {
                    let again = dep(&b, 0).is_ok();
                    if again != (i >= 127) {
                        viol(out, &["C21", "C12"], "deposit-window:distance", format!("{} deposits later, the same deposit is {}", i + 1, if again { "accepted" } else { "refused" }));
                    }
                    if dep(&b, 1 + i).is_ok() || (i > 3 && dep(&b, i - 2).is_ok()) {
                        viol(out, &["C21", "C12"], "deposit-window:recent", "a recent deposit is accepted again");
                    }
                }
            }
            let _ = dep_base(0);
            // entries of the ring before
            for j in 0..x.len {
                let inserted = x.between + 1;
                // age of entry j: number of insertions since, when the ring was full it starts at ptr
                let age = if x.len < 128 { x.len - 1 - j } else { (x.ptr + 127 - j) % 128 };
                let recent = age + inserted < 128;
                if j % 9 == 0 || age + inserted >= 125 && age + inserted <= 130 {
                    n += 1;
                    let r = BaseReq { base: num(880_000 + j as u64), recent: 200, amount: 10_000_000, token: 0, commitment: num(1), fee_version: 0, rate: 0 };
                    let (_, bump) = pda_of(&pid(), "BaseCommitmentHashing", None, Some(0));
                    let a = StoreAccs::new(&crate::hash::depositor(), &warden(), 0);
                    if run(&b, &[store_base(0, bump, &r, &meta_of(3), &a)]).is_ok() == recent {
                        viol(out, &["C21", "C12"], "deposit-window:old", format!("an entry of age {} is {}", age + inserted, if recent { "accepted" } else { "refused" }));
                    }
                }
            }
            (n, b.get(&base_buffer()).unwrap().hash())
        });
    }
}
