//! Bounded FIFO queues (C20) and recent-value buffers (C21) against ideal ones.
#![allow(unused_mut)]
use elusiv::buffer::RingBuffer;
use elusiv::processor::CommitmentHashRequest;
use elusiv::state::commitment::*;
use elusiv::state::metadata::*;
use elusiv::state::queue::*;
use elusiv_types::ProgramAccount;
use mc::*;
use std::collections::VecDeque;
use std::fmt::Debug;

const P: &[&str] = &["C20"];
const PB: &[&str] = &["C21"];

// ---- the queue algorithm with small capacities, the whole state space ----
#[derive(Clone)]
struct Small<const S: usize> {
    head: u32,
    tail: u32,
    data: [u32; S],
}
impl<const S: usize> RingQueue for Small<S> {
    type N = u32;
    const CAPACITY: u32 = S as u32 - 1;
    fn get_head(&self) -> u32 { self.head }
    fn set_head(&mut self, v: &u32) { self.head = *v }
    fn get_tail(&self) -> u32 { self.tail }
    fn set_tail(&mut self, v: &u32) { self.tail = *v }
    fn get_data(&self, i: usize) -> u32 { self.data[i] }
    fn set_data(&mut self, i: usize, v: &u32) { self.data[i] = *v }
}
#[derive(Clone, Debug)]
enum Op {
    Enqueue(u32),
    Dequeue,
    Remove(u32),
}
struct M<const S: usize> {
    vals: u32,
}
fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
/// queries against the ideal queue
fn queries<Q: RingQueue>(q: &Q, m: &VecDeque<Q::N>, cap: usize, offsets: &[usize], absent: &[Q::N], what: &str, out: &mut Vec<Viol>)
where
    Q::N: Debug,
{
    let n = m.len();
    let r = guarded(|| (q.len() as usize, q.is_empty(), q.empty_slots() as usize));
    if r != Some((n, n == 0, cap - n)) {
        viol(out, P, format!("{}:len", what), format!("{} elements: len, is_empty, empty_slots are {:?}", n, r));
    }
    for o in offsets {
        let r = guarded(|| q.view(*o).ok()).flatten();
        if r.as_ref() != m.get(*o) {
            viol(out, P, format!("{}:view", what), format!("view({}) of {} elements returned {:?} instead of {:?}", o, n, r, m.get(*o)));
        }
    }
    let r = guarded(|| q.view_first().ok()).flatten();
    if r.as_ref() != m.front() {
        viol(out, P, format!("{}:view_first", what), format!("view_first of {} elements returned {:?}", n, r));
    }
    for i in [0, n / 2, n.saturating_sub(1)] {
        if let Some(v) = m.get(i) {
            if guarded(|| q.contains(v)) != Some(true) {
                viol(out, P, format!("{}:contains", what), format!("element {} of {} is not contained", i, n));
            }
        }
    }
    for v in absent {
        if guarded(|| q.contains(v)) != Some(m.contains(v)) {
            viol(out, P, format!("{}:contains", what), format!("wrong answer for {:?} among {} elements", v, n));
        }
    }
}
fn remove<Q: RingQueue>(q: &mut Q, m: &mut VecDeque<Q::N>, k: u32, what: &str, out: &mut Vec<Viol>) {
    let r = guarded(|| q.remove(k).is_ok()).unwrap_or(false);
    let e = k as usize <= m.len();
    if r != e {
        viol(out, P, format!("{}:remove", what), format!("remove({}) of {} elements: {}", k, m.len(), r));
    }
    if e {
        m.drain(..k as usize);
    }
}
fn dequeue<Q: RingQueue>(q: &mut Q, m: &mut VecDeque<Q::N>, what: &str, out: &mut Vec<Viol>)
where
    Q::N: Debug,
{
    let r = guarded(|| q.dequeue_first().ok()).flatten();
    let e = m.pop_front();
    if r != e {
        viol(out, P, format!("{}:dequeue", what), format!("dequeue returned {:?} instead of {:?}", r, e));
    }
}
fn enqueue<Q: RingQueue>(q: &mut Q, m: &mut VecDeque<Q::N>, v: Q::N, cap: usize, what: &str, out: &mut Vec<Viol>) {
    let r = guarded(|| q.enqueue(v.clone()).is_ok()).unwrap_or(false);
    let e = m.len() < cap;
    if r != e {
        viol(out, P, format!("{}:enqueue", what), format!("enqueueing into {} elements: {}", m.len(), r));
    }
    if e {
        m.push_back(v);
    }
}
fn content<Q: RingQueue>(q: &Q) -> Option<VecDeque<Q::N>> {
    guarded(|| (0..q.len() as usize).map(|i| q.view(i).ok()).collect::<Option<VecDeque<_>>>()).flatten()
}
impl<const S: usize> Model for M<S> {
    type S = (Small<S>, VecDeque<u32>);
    type A = Op;
    fn initial(&self) -> Vec<(String, Self::S)> {
        (0..S as u32).map(|h| (format!("empty, head {}", h), (Small { head: h, tail: h, data: [0; S] }, VecDeque::new()))).collect()
    }
    fn actions(&self, _s: &Self::S) -> Vec<Op> {
        let mut v: Vec<Op> = (1..=self.vals).map(Op::Enqueue).collect();
        v.push(Op::Dequeue);
        v.extend((0..=S as u32).map(Op::Remove));
        v
    }
    fn step(&self, s: &Self::S, a: &Op, out: &mut Vec<Viol>) -> Option<Self::S> {
        let (mut q, mut m) = s.clone();
        match a {
            Op::Enqueue(v) => enqueue(&mut q, &mut m, *v, S - 1, "queue", out),
            Op::Dequeue => dequeue(&mut q, &mut m, "queue", out),
            Op::Remove(k) => remove(&mut q, &mut m, *k, "queue", out),
        }
        if content(&q).as_ref() != Some(&m) {
            viol(out, P, "queue:content", format!("after {:?} on {:?} the queue contains {:?}", a, s.1, content(&q)));
        }
        Some((q, m))
    }
    fn key(&self, s: &Self::S) -> u128 {
        svm::hash_bytes(3, format!("{} {} {:?} {:?}", s.0.head, s.0.tail, s.0.data, s.1).as_bytes())
    }
    fn check(&self, s: &Self::S, out: &mut Vec<Viol>) {
        let offs: Vec<usize> = (0..=S + 1).collect();
        queries(&s.0, &s.1, S - 1, &offs, &(0..=self.vals + 1).collect::<Vec<_>>(), "queue", out);
    }
}

// ---- the deployed queues: every head position and fill level ----
fn req(i: u32) -> CommitmentHashRequest {
    let mut c = CommitmentHashRequest { fee_version: i.wrapping_mul(7), min_batching_rate: i % 5, ..Default::default() };
    c.commitment[..4].copy_from_slice(&i.to_le_bytes());
    c.commitment[28..].copy_from_slice(&(!i).to_le_bytes());
    c
}
fn req_bytes(c: &CommitmentHashRequest) -> Vec<u8> {
    [&c.commitment[..], &c.fee_version.to_le_bytes(), &c.min_batching_rate.to_le_bytes()].concat()
}
fn meta(i: u32) -> CommitmentMetadata {
    let mut c = [0xa5; 17];
    c[..4].copy_from_slice(&i.to_le_bytes());
    c[13..].copy_from_slice(&(!i).to_le_bytes());
    c
}
/// account bytes with the given elements from position `head` on, other slots filled with stale elements
fn raw(head: usize, elems: &[Vec<u8>], stale: &[u8]) -> Vec<u8> {
    let z = stale.len();
    let mut d = vec![0u8; 10 + Q_CAP * z];
    d[0] = 251;
    for i in 0..Q_CAP {
        d[Q_DATA + i * z..Q_DATA + (i + 1) * z].copy_from_slice(stale);
    }
    for (j, e) in elems.iter().enumerate() {
        let i = (head + j) % Q_CAP;
        d[Q_DATA + i * z..Q_DATA + (i + 1) * z].copy_from_slice(e);
    }
    d[Q_HEAD..Q_HEAD + 4].copy_from_slice(&(head as u32).to_le_bytes());
    d[Q_TAIL..Q_TAIL + 4].copy_from_slice(&(((head + elems.len()) % Q_CAP) as u32).to_le_bytes());
    d
}
macro_rules! deployed {
    ($name: ident, $acc: ident, $q: ident, $mk: ident, $ser: expr, $label: literal) => {
        fn $name(head: usize, len: usize, out: &mut Vec<Viol>) -> (u64, u128) {
            let elems: VecDeque<_> = (1..=len as u32).map($mk).collect();
            let stale = $mk(9_999);
            let bytes: Vec<Vec<u8>> = elems.iter().map($ser).collect();
            let d0 = raw(head, &bytes, &$ser(&stale));
            let cap = Q_CAP - 1;
            let mut n = 0;
            macro_rules! on {
                (|$qq: ident, $m: ident| $e: expr) => {{
                    let mut d = d0.clone();
                    let mut $m = elems.clone();
                    {
                        let mut acc = $acc::new(&mut d).unwrap();
                        let mut $qq = $q::new(&mut acc);
                        $e;
                        n += 1;
                        let c = content(&$qq);
                        if c.as_ref() != Some(&$m) {
                            viol(out, P, concat!($label, ":content"), format!("head {} len {}: wrong content after {}", head, len, stringify!($e)));
                        }
                        let offs = [0, 1, $m.len().saturating_sub(1), $m.len(), $m.len() + 1, cap, cap + 1, 1 << 31, u32::MAX as usize];
                        queries(&$qq, &$m, cap, &offs, &[stale.clone()], $label, out);
                    }
                    d
                }};
            }
            on!(|q, m| ());
            on!(|q, m| dequeue(&mut q, &mut m, $label, out));
            on!(|q, m| enqueue(&mut q, &mut m, $mk(777), cap, $label, out));
            for k in [0, 1, 2, len as u32 / 2, (len as u32).saturating_sub(1), len as u32, len as u32 + 1, Q_CAP as u32, u32::MAX] {
                on!(|q, m| remove(&mut q, &mut m, k, $label, out));
            }
            (n, (head * 1000 + len) as u128)
        }
    };
}
deployed!(commitments, CommitmentQueueAccount, CommitmentQueue, req, |c: &CommitmentHashRequest| req_bytes(c), "commitment-queue");
deployed!(metadatas, MetadataQueueAccount, MetadataQueue, meta, |c: &CommitmentMetadata| c.to_vec(), "metadata-queue");

/// The batch at the head: the shortest prefix whose length is 2^(highest rate in it)
fn ideal_batch(m: &[CommitmentHashRequest]) -> Option<(usize, u32)> {
    let mut rate = 0;
    for (k, r) in m.iter().enumerate() {
        rate = rate.max(r.min_batching_rate);
        if r.fee_version != m[0].fee_version {
            return None;
        }
        if k + 1 >= 1usize << rate {
            return Some((k + 1, rate));
        }
    }
    None
}
fn batch(head: usize, m: &[CommitmentHashRequest], out: &mut Vec<Viol>) -> (u64, u128) {
    let bytes: Vec<Vec<u8>> = m.iter().map(req_bytes).collect();
    let mut d = raw(head, &bytes, &req_bytes(&req(4242)));
    let d0 = d.clone();
    let mut acc = CommitmentQueueAccount::new(&mut d).unwrap();
    let q = CommitmentQueue::new(&mut acc);
    let r = guarded(|| q.next_batch().ok()).flatten();
    let e = ideal_batch(m);
    let ok = match (&r, e) {
        (None, None) => true,
        (Some((b, rate)), Some((k, er))) => *rate == er && b.len() == k && b[..] == m[..k],
        _ => false,
    };
    if !ok {
        let rates: Vec<_> = m.iter().map(|r| (r.min_batching_rate, r.fee_version)).collect();
        viol(out, &["C20", "C08"], "queue:next_batch", format!("head {}: queue with (rate, fee version) {:?}: offered {:?}", head, rates, r.map(|r| (r.0.len(), r.1))));
    }
    if d != d0 {
        viol(out, P, "queue:next_batch-writes", "looking at the next batch changed the queue");
    }
    (1, svm::hash_bytes(1, format!("{:?}", e).as_bytes()))
}
fn elem(i: usize, rate: u32, fee: u32) -> CommitmentHashRequest {
    CommitmentHashRequest { min_batching_rate: rate, fee_version: fee, ..req(100 + i as u32) }
}

// ---- recent-value buffers ----
#[derive(Clone, Debug)]
struct BuCase {
    acc: u8,
    ptr: usize,
    len: usize,
}
fn val(i: usize) -> [u8; 32] {
    // neighbouring values differ in a single byte that cycles through all positions
    let mut v = [7u8; 32];
    v[i % 32] = (i / 32) as u8 + 8;
    v
}
fn buf_bytes(ptr: usize, len: usize) -> (Vec<u8>, Vec<[u8; 32]>) {
    let mut d = vec![0u8; 2 + 4096 + 8];
    // oldest first
    let n = if len < BU_CAP { len } else { BU_CAP };
    let start = if len < BU_CAP { 0 } else { ptr };
    let mut order = vec![];
    for j in 0..n {
        let i = (start + j) % BU_CAP;
        d[2 + 32 * i..34 + 32 * i].copy_from_slice(&val(j));
        order.push(val(j));
    }
    d[4098..4102].copy_from_slice(&(n as u32).to_le_bytes());
    d[4102..4106].copy_from_slice(&(ptr as u32).to_le_bytes());
    (d, order)
}
fn buffer<'a, B: RingBuffer<'a, [u8; 32]>>(what: &str, b: &mut B, order: &[[u8; 32]], out: &mut Vec<Viol>) -> u64 {
    let mut n = 0;
    let mut ideal: VecDeque<[u8; 32]> = order.iter().cloned().collect();
    let fresh: Vec<[u8; 32]> = (0..BU_CAP + 2).map(|i| { let mut v = val(i); v[31 - i % 32] ^= 0x80; v }).collect();
    let check = |b: &B, ideal: &VecDeque<[u8; 32]>, out: &mut Vec<Viol>, all: bool| {
        let l = ideal.len();
        for (i, v) in ideal.iter().enumerate() {
            if !all && i > 1 && i + 2 < l { continue; }
            if !b.contains(v) || b.find_position(v).is_none() {
                viol(out, PB, format!("{}:forgot", what), format!("value inserted {} insertions ago is forgotten", l - i));
            }
        }
    };
    check(b, &ideal, out, true);
    if ideal.len() < BU_CAP && (b.contains(&[0; 32]) || b.find_position(&[0; 32]).is_some()) {
        viol(out, PB, format!("{}:zero", what), "an unused slot counts as an inserted zero");
    }
    // everything in the window is refused without effect
    for v in ideal.clone() {
        n += 1;
        let (l, p) = (b.len(), b.ptr());
        if b.try_insert(&v).is_ok() || (b.len(), b.ptr()) != (l, p) {
            viol(out, PB, format!("{}:repeat", what), "a value in the window was accepted again");
        }
    }
    // a full window of fresh values, probing the boundary after each
    for v in &fresh {
        n += 1;
        if b.contains(v) || b.find_position(v).is_some() {
            viol(out, PB, format!("{}:false", what), "a value that was not inserted within the window is refused");
        }
        if b.try_insert(v).is_err() {
            viol(out, PB, format!("{}:fresh", what), "a fresh value was refused");
        }
        ideal.push_back(*v);
        let gone = if ideal.len() > BU_CAP { ideal.pop_front() } else { None };
        if let Some(g) = gone {
            if b.contains(&g) {
                viol(out, PB, format!("{}:stale", what), "a value is still refused after a full window of other values");
            }
        }
        check(b, &ideal, out, false);
    }
    check(b, &ideal, out, true);
    n
}
/// the ring algorithm with small capacities
#[derive(Clone)]
struct Ring<const C: usize> {
    len: usize,
    ptr: usize,
    v: [u8; C],
}
impl<'a, const C: usize> RingBuffer<'a, u8> for Ring<C> {
    const CAPACITY: usize = C;
    fn len(&self) -> usize { self.len }
    fn set_len(&mut self, l: usize) { self.len = l }
    fn ptr(&self) -> usize { self.ptr }
    fn set_ptr(&mut self, p: usize) { self.ptr = p }
    fn set_value(&mut self, i: usize, v: &u8) { self.v[i] = *v }
    fn contains(&self, v: &u8) -> bool { self.v[..self.len].contains(v) }
    fn find_position(&self, v: &u8) -> Option<usize> { self.v[..self.len].iter().position(|x| x == v) }
}
struct RM<const C: usize> {
    vals: u8,
}
impl<const C: usize> Model for RM<C> {
    type S = (Ring<C>, VecDeque<u8>);
    type A = u8;
    fn initial(&self) -> Vec<(String, Self::S)> {
        vec![("empty".into(), (Ring { len: 0, ptr: 0, v: [0; C] }, VecDeque::new()))]
    }
    fn actions(&self, _: &Self::S) -> Vec<u8> {
        (0..self.vals).collect()
    }
    fn step(&self, s: &Self::S, a: &u8, out: &mut Vec<Viol>) -> Option<Self::S> {
        let (mut r, mut m) = s.clone();
        let acc = guarded(|| r.try_insert(a).is_ok());
        let e = !m.contains(a);
        if acc != Some(e) {
            viol(out, PB, "ring:insert", format!("inserting {} after {:?} (capacity {}): {:?}", a, m, C, acc));
        }
        if e {
            m.push_back(*a);
            if m.len() > C {
                m.pop_front();
            }
        }
        Some((r, m))
    }
    fn key(&self, s: &Self::S) -> u128 {
        svm::hash_bytes(3, format!("{} {} {:?} {:?}", s.0.len, s.0.ptr, s.0.v, s.1).as_bytes())
    }
}

pub fn run_all(c: &mut Check) {
    if c.wants("queue-small", &["C20"]) {
        let l = c.limits(40, 5_000_000);
        let e = svm::explore(&M::<2> { vals: 3 }, &l);
        c.explored("queue-small", "capacity 1, all operations, whole state space", e);
        let e = svm::explore(&M::<3> { vals: 3 }, &l);
        c.explored("queue-small", "capacity 2, all operations, whole state space", e);
        let e = svm::explore(&M::<4> { vals: 3 }, &l);
        c.explored("queue-small", "capacity 3, all operations, whole state space", e);
        let e = svm::explore(&M::<5> { vals: c.tier(3, 4) }, &l);
        c.explored("queue-small", "capacity 4, all operations, whole state space", e);
        if c.thorough {
            let l = c.limits(60, 20_000_000);
            let e = svm::explore(&M::<7> { vals: 3 }, &l);
            c.explored("queue-small", "capacity 6, all operations, whole state space", e);
        }
    }
    if c.wants("queue-deployed", &["C20"]) {
        let step = c.tier(1, 1);
        let lens: Vec<usize> = (0..Q_CAP).step_by(step).collect();
        let cases: Vec<(u8, usize, usize)> = (0..2u8).flat_map(|t| { let lens = lens.clone(); (0..Q_CAP).flat_map(move |h| lens.clone().into_iter().map(move |l| (t, h, l))) }).collect();
        c.grid("queue-deployed", "deployed commitment and metadata queues: every head position x every fill level x every operation", &cases, |x, out| {
            if x.0 == 0 { commitments(x.1, x.2, out) } else { metadatas(x.1, x.2, out) }
        });
    }
    if c.wants("queue-batches", &["C20", "C08"]) {
        let mut cases: Vec<(usize, Vec<CommitmentHashRequest>)> = vec![];
        // all rate sequences up to length 6, from a head that makes them wrap around
        let heads = [0, Q_CAP - 1, Q_CAP - 3];
        for len in 0..=c.tier(5usize, 6) {
            for code in 0..5u32.pow(len as u32) {
                let v: Vec<_> = (0..len).map(|i| elem(i, code / 5u32.pow(i as u32) % 5, 0)).collect();
                for h in heads {
                    cases.push((h, v.clone()));
                }
            }
        }
        // for every rate: fill levels around the batch size, position of the only element with that rate
        for r in 0..5u32 {
            let n = 1usize << r;
            for len in [n.saturating_sub(1), n, n + 1, 2 * n, Q_CAP - 1] {
                for pos in 0..len.min(n + 1) {
                    for low in 0..=r {
                        for h in [0, 1, Q_CAP - 1, Q_CAP - n / 2] {
                            cases.push((h % Q_CAP, (0..len).map(|i| elem(i, if i == pos { r } else { low.min(if i < pos { r.saturating_sub(1) } else { r }) }, 0)).collect()));
                        }
                    }
                }
            }
        }
        // every head position with the largest batch
        for h in 0..Q_CAP {
            for len in [15, 16, 17] {
                cases.push((h, (0..len).map(|i| elem(i, 4, 0)).collect()));
            }
        }
        // differing fee versions
        for r in 0..4u32 {
            let n = 1usize << r;
            for pos in 0..n + 2 {
                cases.push((3, (0..n + 2).map(|i| elem(i, r, (i >= pos) as u32)).collect()));
                cases.push((3, (0..n + 2).map(|i| elem(i, r, (i == pos) as u32)).collect()));
            }
        }
        // every combination of rates and fee versions
        for (len, rates, versions) in [(2usize, 3u32, 3u32), (3, 3, 2), (4, 3, 2), (5, 3, 2)] {
            for code in 0..(rates * versions).pow(len as u32) {
                let v: Vec<_> = (0..len).map(|i| { let x = code / (rates * versions).pow(i as u32) % (rates * versions); elem(i, x % rates, x / rates) }).collect();
                cases.push((Q_CAP - 2, v));
            }
        }
        for (r, n) in [(3u32, 8usize), (4, 16)] {
            for low in 0..r {
                for first in 0..n {
                    for odd in 0..n {
                        cases.push((0, (0..n + 1).map(|i| elem(i, if i == first { r } else { low }, (i == odd) as u32)).collect()));
                    }
                }
            }
        }
        c.grid("queue-batches", "next_batch of the deployed queue: all combinations of rates and fee versions up to length 5, all rate sequences up to length 5 (6), every rate, fill level around the batch size, position of the highest rate, head position, fee versions", &cases, |x, out| batch(x.0, &x.1, out));
    }
    if c.wants("ring-small", &["C21"]) {
        let l = c.limits(60, 5_000_000);
        let e = svm::explore(&RM::<1> { vals: 3 }, &l);
        c.explored("ring-small", "capacity 1, all insertions, whole state space", e);
        let e = svm::explore(&RM::<2> { vals: 5 }, &l);
        c.explored("ring-small", "capacity 2, all insertions, whole state space", e);
        let e = svm::explore(&RM::<3> { vals: 6 }, &l);
        c.explored("ring-small", "capacity 3, all insertions, whole state space", e);
        let e = svm::explore(&RM::<5> { vals: 7 }, &l);
        c.explored("ring-small", "capacity 5, all insertions, whole state space", e);
    }
    if c.wants("find-values", &["C21", "C12", "C13", "C14"]) {
        find(c);
    }
    if c.wants("ring-deployed", &["C21", "C12", "C13"]) {
        let mut cases = vec![];
        for acc in 0..2u8 {
            for len in 0..BU_CAP {
                cases.push(BuCase { acc, ptr: len, len });
            }
            for ptr in 0..BU_CAP {
                cases.push(BuCase { acc, ptr, len: BU_CAP });
            }
        }
        c.grid("ring-deployed", "deployed buffers: every fill level and write position, every value of the window repeated, then more than a window of fresh values", &cases, |x, out| {
            let (mut d, order) = buf_bytes(x.ptr, x.len);
            let n = match x.acc {
                0 => buffer("base-buffer", &mut BaseCommitmentBufferAccount::new(&mut d).unwrap(), &order, out),
                _ => buffer("commitment-buffer", &mut CommitmentBufferAccount::new(&mut d).unwrap(), &order, out),
            };
            (n, svm::hash_bytes(5, &d))
        });
    }
}

/// searching a value in stored bytes
fn find(c: &mut Check) {
    use elusiv::bytes::*;
    // (length of the value, position of the byte that differs, by how much)
    let mut cases = vec![];
    for size in [2usize, 4, 8, 16, 32] {
        for at in 0..size {
            for bit in 0..8 {
                cases.push((size, at, 1u8 << bit));
            }
        }
    }
    c.grid("find-values", "values of 2 to 32 bytes and every one that differs in a single bit, in sequences of up to 5, at every place", &cases, |(size, at, bit), out| {
        let mut steps = 0;
        for fill in [0u8, 1, 0xff, 0x5a] {
            let v: Vec<u8> = (0..*size).map(|i| if fill == 0x5a { 0x11 * (i as u8 + 1) } else { fill }).collect();
            let mut near = v.clone();
            near[*at] ^= bit;
            for len in 0..=5usize {
                for place in 0..=len {
                    // all neighbours nearly equal; the value itself (if any) at `place`
                    let data: Vec<u8> = (0..len).flat_map(|i| if i == place { v.clone() } else { near.clone() }).collect();
                    let want = if place < len { Some(place) } else { None };
                    macro_rules! go {
                        ($t: ty) => {{
                            let x = <$t as borsh::BorshDeserialize>::try_from_slice(&v).unwrap();
                            (elusiv::bytes::find(&x, &data, len), contains(&x, &data))
                        }};
                    }
                    let got = match size {
                        2 => go!(u16),
                        4 => go!(u32),
                        8 => go!(u64),
                        16 => go!(u128),
                        _ => go!([u8; 32]),
                    };
                    steps += 1;
                    if got != (want, want.is_some()) {
                        viol(out, &["C21", "C12", "C13", "C14"], "find", format!("{:02x?} is found at {:?} of {:02x?}, not at {:?}", v, got, data, want));
                    }
                    // only the first `count` values count
                    if *size == 32 && place < len {
                        let x: [u8; 32] = v.clone().try_into().unwrap();
                        for count in 0..=len {
                            if elusiv::bytes::find(&x, &data, count) != want.filter(|w| *w < count) {
                                viol(out, &["C21", "C12", "C13", "C14"], "find:length", format!("search among the first {} of {} values, it is at {}", count, len, place));
                            }
                        }
                    }
                }
            }
            if is_zero(&v) != v.iter().all(|x| *x == 0) || is_zero(&near) != near.iter().all(|x| *x == 0) {
                viol(out, &["C12", "C13"], "is-zero", format!("{:02x?} or {:02x?}", v, near));
            }
        }
        (steps, (*size as u128) << 32 | (*at as u128) << 16 | *bit as u128)
    });
}
