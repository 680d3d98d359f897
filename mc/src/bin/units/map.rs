//! The ordered map with fixed capacity against an ideal ordered map (C22, C02).
use borsh::{BorshDeserialize, BorshSerialize};
use elusiv::bytes::*;
use elusiv::map::{ElusivMap, ElusivMapError, ElusivMapKey, ElusivMapValue};
use mc::*;
use std::collections::BTreeMap;

#[derive(BorshSerialize, BorshDeserialize, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct K(pub u16);
#[derive(BorshSerialize, BorshDeserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub struct W(pub u16);
impl BorshSerDeSized for K {
    const SIZE: usize = 2;
}
impl BorshSerDeSized for W {
    const SIZE: usize = 2;
}
impl ElusivMapKey for K {}
impl ElusivMapValue for W {}

const P: &[&str] = &["C22", "C02"];

#[derive(Clone)]
struct S {
    d: Vec<u8>,
    m: BTreeMap<u16, u16>,
}

/// one insertion on the implementation and on the ideal map
fn insert<const C: usize>(s: &S, k: u16, v: u16, out: &mut Vec<Viol>) -> S {
    let mut n = s.clone();
    let r = ElusivMap::<K, W, C>::new(&mut n.d).try_insert(K(k), &W(v)).map(|o| o.map(|(a, b)| (a.0, b.0))).map_err(|e| match e {
        ElusivMapError::Duplicate(v) => Some(v.0),
        _ => None,
    });
    let e = match n.m.get(&k) {
        Some(v) => Err(Some(*v)),
        None => {
            n.m.insert(k, v);
            Ok(if n.m.len() > C { n.m.pop_last() } else { None })
        }
    };
    if r != e {
        viol(out, P, "map:insert", format!("capacity {}: inserting {} into {:?} returned {:?} instead of {:?}", C, k, s.m, r, e));
    }
    n
}
fn look<const C: usize>(s: &S, max_key: u16, out: &mut Vec<Viol>) {
    let mut d = s.d.clone();
    let mut map = ElusivMap::<K, W, C>::new(&mut d);
    for k in 0..=max_key {
        let r = map.contains(&K(k)).map(|w| w.0);
        let e = s.m.get(&k).copied();
        if r != e {
            let what = if r.is_some() == e.is_some() { "value" } else { "contains" };
            viol(out, P, format!("map:{}", what), format!("capacity {}: looking up {} in {:?} returned {:?}", C, k, s.m, r));
        }
    }
    if map.is_empty() != s.m.is_empty() || map.is_full() != (s.m.len() == C) {
        viol(out, P, "map:len", format!("capacity {}: wrong length for {:?}", C, s.m));
    }
    if let (Some((a, _)), Some((b, _))) = (s.m.first_key_value(), s.m.last_key_value()) {
        let (x, y) = (map.min().0, map.max().0);
        if (x, y) != (*a, *b) {
            viol(out, P, "map:minmax", format!("capacity {}: min {} max {} of {:?}", C, x, y, s.m));
        }
    }
}
fn empty<const C: usize>() -> S {
    S { d: vec![0; ElusivMap::<K, W, C>::SIZE], m: BTreeMap::new() }
}

struct M<const C: usize> {
    keys: u16,
    vals: u16,
}
#[derive(Clone, Copy, Debug)]
enum A {
    Insert(u16, u16),
    Reset,
}
impl<const C: usize> Model for M<C> {
    type S = S;
    type A = A;
    fn initial(&self) -> Vec<(String, S)> {
        vec![(format!("empty map of capacity {}", C), empty::<C>())]
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut a: Vec<A> = (0..self.keys).flat_map(|k| (0..self.vals).map(move |v| A::Insert(k, v))).collect();
        // a reset is explored from full maps (and replaces everything that happened before)
        if s.m.len() == C {
            a.push(A::Reset);
        }
        a
    }
    fn step(&self, s: &S, a: &A, out: &mut Vec<Viol>) -> Option<S> {
        match *a {
            A::Insert(k, v) => {
                let n = insert::<C>(s, k, v, out);
                if n.m == s.m && n.d != s.d {
                    viol(out, P, "map:refused-changes", format!("capacity {}: the refused insertion of {} into {:?} changed the map", C, k, s.m));
                }
                (n.m != s.m).then_some(n)
            }
            A::Reset => {
                let mut n = S { d: s.d.clone(), m: BTreeMap::new() };
                ElusivMap::<K, W, C>::new(&mut n.d).reset();
                Some(n)
            }
        }
    }
    fn key(&self, s: &S) -> u128 {
        svm::hash_bytes(1, &s.d)
    }
    fn check(&self, s: &S, out: &mut Vec<Viol>) {
        look::<C>(s, self.keys, out)
    }
}

/// insertion orders of 0..n
fn orders(n: u16) -> Vec<(&'static str, Vec<u16>)> {
    let mut o: Vec<(&str, Vec<u16>)> = vec![("ascending", (0..n).collect()), ("descending", (0..n).rev().collect())];
    let mut a = vec![];
    let mut b = vec![];
    for i in 0..n {
        a.push(if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 });
        b.push(if i % 2 == 0 { n / 2 + i / 2 } else { (n - 1) / 2 - i / 2 });
    }
    b.retain(|x| *x < n);
    o.push(("outside in", a));
    let mut seen = b.clone();
    seen.sort();
    seen.dedup();
    if seen.len() == n as usize && b.len() == n as usize {
        o.push(("inside out", b));
    }
    let s = if n % 7 == 0 { 5 } else { 7 };
    o.push(("strided", (0..n).map(|i| (i as u32 * s % n as u32) as u16).collect()));
    let mut seen = o.last().unwrap().1.clone();
    seen.sort();
    seen.dedup();
    if seen.len() != n as usize {
        o.pop();
    }
    o
}

#[derive(Clone, Debug)]
struct Case {
    cap: usize,
    fill: u16,
    order: &'static str,
    keys: Vec<u16>,
    /// filled in this order and reset before
    before: Option<(&'static str, Vec<u16>)>,
    depth: usize,
}
/// `fill` even keys in the given order, then every sequence of `depth` insertions
fn case<const C: usize>(c: &Case, out: &mut Vec<Viol>) -> (u64, u128) {
    let mut s = empty::<C>();
    let mut n = 0;
    let top = 2 * c.fill + 2;
    if let Some((_, b)) = &c.before {
        for k in b {
            s = insert::<C>(&s, 2 * k + 2, *k, out);
        }
        ElusivMap::<K, W, C>::new(&mut s.d).reset();
        s.m.clear();
    }
    for k in &c.keys {
        s = insert::<C>(&s, 2 * k + 2, *k, out);
        n += 1;
        look::<C>(&s, top, out);
        if !out.is_empty() {
            return (n, 0);
        }
    }
    fn rec<const C: usize>(s: &S, d: usize, top: u16, n: &mut u64, h: &mut u128, out: &mut Vec<Viol>) {
        if d == 0 || out.len() > 20 {
            return;
        }
        for k in 0..=top + 1 {
            let t = insert::<C>(s, k, 1000 + k, out);
            *n += 1;
            if t.m != s.m {
                look::<C>(&t, top + 1, out);
                *h = h.wrapping_add(svm::hash_bytes(2, &t.d));
                rec::<C>(&t, d - 1, top, n, h, out);
            }
        }
    }
    let mut h = 0;
    rec::<C>(&s, c.depth, top, &mut n, &mut h, out);
    (n, h)
}

macro_rules! caps {
    ($c:expr, $out:expr, $($n:literal)*) => { match $c.cap { $($n => case::<$n>($c, $out),)* _ => unreachable!() } };
}

pub fn run_all(c: &mut Check) {
    if c.wants("map-small", P) {
        let t = c.thorough;
        let d = 80;
        macro_rules! small {
            ($($n:literal $k:expr, $v:expr;)*) => { $({
                let m = M::<$n> { keys: $k, vals: $v };
                let e = explore(&m, &c.limits(d, 30_000_000));
                c.explored("map-small", concat!("capacity ", stringify!($n), ", all insertion/reset sequences over the given number of keys, all lookups in every state"), e);
            })* };
        }
        small!(1 4, 2; 2 5, 2; 3 5, 2; 4 6, 1;);
        if t {
            small!(4 7, 1; 5 7, 1;);
        }
    }
    if c.wants("map-keys", P) {
        keys(c);
    }
    if c.wants("map-large", P) {
        let mut cases = vec![];
        for cap in [7, 8, 15, 16, 17, 18, 19, 23, 24, 31, 32, 33, 34, 40, 47, 48, 49, 64, 80] {
            for fill in [cap as u16, cap as u16 - 1, cap as u16 / 2] {
                for (order, keys) in orders(fill) {
                    let depth = if cap <= c.tier(18, 33) { 3 } else { 2 };
                    cases.push(Case { cap, fill, order, keys: keys.clone(), before: None, depth });
                    if depth == 2 || cap >= 16 {
                        for o in orders(cap as u16) {
                            cases.push(Case { cap, fill, order, keys: keys.clone(), before: Some(o), depth: c.tier(1, 2) });
                        }
                    }
                }
            }
        }
        c.grid("map-large", "capacities around the sizes at which the position index becomes active, five filling orders to full / one below / half, then every sequence of 2 or 3 insertions at every position; all lookups after every step", &cases, |x, out| {
            caps!(x, out, 7 8 15 16 17 18 19 23 24 31 32 33 34 40 47 48 49 64 80)
        });
    }
}

/// 256-bit keys that differ in single bytes, words and both ends
fn alphabet() -> Vec<[u8; 32]> {
    let mut v = vec![[0u8; 32], [0xff; 32], [1; 32]];
    for i in 0..32 {
        let mut a = [0u8; 32];
        a[i] = 1;
        v.push(a);
        a[i] = 0x80;
        v.push(a);
        let mut b = [0x55u8; 32];
        b[i] = 0x54;
        v.push(b);
        b[i] = 0x56;
        v.push(b);
    }
    for i in 0..4 {
        let mut a = [0u8; 32];
        a[8 * i..8 * i + 8].fill(0xff);
        v.push(a);
        let mut b = [0x55u8; 32];
        b[8 * i..8 * i + 8].fill(0);
        v.push(b);
    }
    v.sort();
    v.dedup();
    v
}
fn keys(c: &mut Check) {
    use elusiv::types::OrdU256;
    use std::cmp::Ordering;
    let a = alphabet();
    // a map of the deployed key type: every pair, in a map that holds two, and every triple of neighbours in one that holds two (evicting)
    let n = a.len();
    let thorough = c.thorough;
    let cases: Vec<usize> = (0..n).collect();
    let bounds = format!("maps of 256-bit keys: every ordered pair and triple of {} keys that differ in a byte, a word or everything; order, lookup, duplicates, eviction", n);
    c.grid("map-keys", &bounds, &cases, |i, out| {
        let mut steps = 0;
        let le = |x: &[u8; 32], y: &[u8; 32]| x.iter().rev().cmp(y.iter().rev());
        let x = &a[*i];
        for y in &a {
            let want = le(x, y);
            if OrdU256(*x).cmp(&OrdU256(*y)) != want || OrdU256(*x).partial_cmp(&OrdU256(*y)) != Some(want) || (OrdU256(*x) == OrdU256(*y)) != (want == Ordering::Equal) {
                viol(out, &["C22", "C02", "C27"], "keys:order", format!("order of {:02x?} and {:02x?}", x, y));
            }
            let third: Vec<&[u8; 32]> = if thorough { a.iter().collect() } else { a.iter().skip(*i % 5).step_by(5).collect() };
            for z in third {
                let mut d = vec![0u8; ElusivMap::<OrdU256, W, 2>::SIZE];
                let mut ideal: Vec<([u8; 32], u16)> = vec![];
                for (v, k) in [x, y, z].into_iter().enumerate() {
                    let v = v as u16 + 7;
                    steps += 1;
                    let mut m = ElusivMap::<OrdU256, W, 2>::new(&mut d);
                    let got = m.try_insert(OrdU256(*k), &W(v)).map(|o| o.map(|(k, v)| (k.0, v.0))).map_err(|e| match e {
                        ElusivMapError::Duplicate(v) => Some(v.0),
                        _ => None,
                    });
                    let want = match ideal.iter().find(|e| e.0 == *k) {
                        Some(e) => Err(Some(e.1)),
                        None => {
                            ideal.push((*k, v));
                            ideal.sort_by(|p, q| le(&p.0, &q.0));
                            Ok(if ideal.len() > 2 { ideal.pop() } else { None })
                        }
                    };
                    if got != want {
                        viol(out, P, "keys:insert", format!("inserting {:02x?} after {:02x?}: {:?} instead of {:?}", k, &[x, y, z][..v as usize - 7], got, want));
                        return (steps, 0);
                    }
                    for k in [x, y, z] {
                        let got = ElusivMap::<OrdU256, W, 2>::new(&mut d).contains(&OrdU256(*k)).map(|w| w.0);
                        if got != ideal.iter().find(|e| e.0 == *k).map(|e| e.1) {
                            viol(out, P, "keys:contains", format!("looking up {:02x?}: {:?}, the map holds {:02x?}", k, got, ideal));
                            return (steps, 0);
                        }
                    }
                }
            }
        }
        (steps, *i as u128)
    });
}
