//! Initialisation of the program's accounts (C19): every order of the setup instructions with child candidates
//! of all kinds, repetitions, and setups attempted in a program that has been in use.
use crate::chk::*;
use crate::hash::{base_world, prefilled};

use mc::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use std::collections::{BTreeMap, BTreeSet};

const P: Props = &["C19"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Parent {
    Storage,
    Meta,
    Null(u32),
}
impl Parent {
    fn acc(self) -> Pubkey {
        match self {
            Parent::Storage => storage(),
            Parent::Meta => metadata(),
            Parent::Null(t) => nullifier(t),
        }
    }
    fn slots(self) -> usize {
        match self {
            Parent::Storage => ST_CHILDREN,
            Parent::Meta => ME_CHILDREN,
            Parent::Null(_) => NU_CHILDREN,
        }
    }
    fn ty(self) -> usize {
        match self {
            Parent::Storage => 0,
            Parent::Meta => 1,
            Parent::Null(_) => 2,
        }
    }
    fn enable(self, i: u32, c: &Pubkey) -> Instruction {
        match self {
            Parent::Storage => enable_storage_child(i, c),
            Parent::Meta => enable_metadata_child(i, c),
            Parent::Null(t) => enable_nullifier_child(t, i, c),
        }
    }
}
fn child_len(ty: usize) -> usize {
    [ST_CHILD_LEN, ME_CHILD_SIZE, null_child_len()][ty]
}
const KINDS: [&str; 9] = ["a", "b", "short", "long", "foreign", "poor", "used", "dirty", "empty"];
const GOOD: [usize; 3] = [0, 1, 7];
fn cand(ty: usize, k: usize) -> Pubkey {
    key(&format!("candidate-{}-{}", ty, KINDS[k]))
}
fn put_cands(b: &mut Bank, ty: usize) {
    for (i, k) in KINDS.iter().enumerate() {
        let l = match *k {
            "short" => child_len(ty) - 1,
            "long" => child_len(ty) + 1,
            "empty" => 0,
            _ => child_len(ty),
        };
        let mut d = vec![if *k == "dirty" { 0x5b } else { 0 }; l];
        if l > 0 {
            d[0] = (*k == "used") as u8;
        }
        b.put(cand(ty, i), rent_min(l) - (*k == "poor") as u64, if *k == "foreign" { memo_id() } else { pid() }, &d);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum O {
    Governor,
    Fee(u32),
    Single,
    V1,
    Null(u32),
    Key(u32),
}
impl O {
    fn ix(self, payer: &Pubkey) -> Instruction {
        match self {
            O::Governor => setup_governor(payer),
            O::Fee(v) => init_fee(payer, v, &Fee::default().arr()),
            O::Single => open_single(payer),
            O::V1 => create_v1(payer),
            O::Null(t) => open_nullifier(payer, t),
            O::Key(i) => create_vkey(payer, i, 14, Some(payer)),
        }
    }
    /// the accounts it opens
    fn opens(self) -> Vec<Pubkey> {
        match self {
            O::Governor => vec![governor()],
            O::Fee(v) => vec![fee_acc(v)],
            O::Single => vec![pool(), fee_collector(), chashing(), queue(), storage(), base_buffer()],
            O::V1 => vec![commitment_buffer(), meta_queue(), metadata()],
            O::Null(t) => vec![nullifier(t)],
            O::Key(i) => vec![vkey_acc(i)],
        }
    }
}
const OPENS: [O; 9] = [O::Governor, O::Fee(0), O::Fee(1), O::Single, O::V1, O::Null(0), O::Null(1), O::Key(0), O::Key(1)];

#[derive(Clone)]
struct S {
    b: Bank,
    open: BTreeSet<O>,
    slots: BTreeMap<(Parent, usize), (usize, usize)>,
}
#[derive(Clone, Debug)]
enum A {
    Open(O),
    Twice(O),
    /// accounts i and j exchanged
    Swapped(O, usize, usize),
    /// an account of another address in place of the one to open
    Other(O, usize),
    Enable(Parent, u32, usize, usize),
    /// both slots with the same child in one transaction
    Both(Parent, Parent, usize),
    /// child account in place of its parent
    WrongParent(Parent, Parent),
    Close(u8),
}
struct M {
    start: Vec<(String, S)>,
    parents: Vec<Parent>,
    /// types of the candidates that are offered
    types: Vec<usize>,
    opens: bool,
}
fn payer() -> Pubkey { key("setup-payer") }

fn spec(s: &S, o: O) -> bool {
    if s.open.contains(&o) {
        return false;
    }
    match o {
        O::Governor | O::Single | O::Null(_) => true,
        O::Fee(v) => v == 0 && s.open.contains(&O::Governor),
        O::V1 => s.open.contains(&O::Single) && queue_entries(&s.b).is_empty() && u8_at(&s.b, &chashing(), CH_ACTIVE) == 0,
        O::Key(i) => i == 0,
    }
}
/// content of a freshly opened account, apart from the header
fn fresh(s: &S, k: &Pubkey) -> Vec<(usize, Vec<u8>)> {
    if *k == metadata() {
        return vec![(ME_PTR, tree_ptr(&s.b).to_le_bytes().to_vec())];
    }
    vec![]
}

impl Model for M {
    type S = S;
    type A = A;
    fn initial(&self) -> Vec<(String, S)> {
        self.start.clone()
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut v = vec![];
        if self.opens {
            for o in OPENS {
                v.push(A::Open(o));
                v.push(A::Twice(o));
                let n = o.ix(&payer()).accounts.len();
                for i in 1..n - 1 {
                    v.push(A::Other(o, i));
                    for j in i + 1..n - 1 {
                        v.push(A::Swapped(o, i, j));
                    }
                }
            }
            for k in 0..3 {
                v.push(A::Close(k));
            }
        } else {
            // what the parents need
            v.extend([O::Single, O::V1, O::Null(0), O::Null(1)].into_iter().filter(|o| !s.open.contains(o)).map(A::Open));
        }
        for p in &self.parents {
            let n = p.slots() as u32;
            for t in &self.types {
                for k in 0..KINDS.len() {
                    let ix: Vec<u32> = if GOOD[..2].contains(&k) { vec![0, 1, n - 1, n, u32::MAX] } else { vec![0, n - 1] };
                    for i in ix {
                        v.push(A::Enable(*p, i, *t, k));
                    }
                }
            }
            for q in &self.parents {
                v.push(A::Both(*p, *q, 0));
                if p != q {
                    v.push(A::WrongParent(*p, *q));
                }
            }
        }
        v
    }
    fn step(&self, s: &S, a: &A, out: &mut Vec<Viol>) -> Option<S> {
        let pay = payer();
        match a {
            A::Open(o) => {
                let ok = spec(s, *o);
                let what = format!("open {:?}", o);
                match attempt(out, P, &what, &s.b, &[o.ix(&pay)], ok) {
                    R::No => None,
                    R::Yes(b) => {
                        if !ok {
                            return None;
                        }
                        let mut allowed = o.opens();
                        allowed.push(pay);
                        if matches!(o, O::Fee(_)) {
                            allowed.push(governor());
                        }
                        only(out, &["C19", "C16"], &what, &s.b, &b, &allowed);
                        for k in o.opens() {
                            let Some(x) = b.get(&k) else {
                                viol(out, P, format!("{}:missing", what), "the account was not opened");
                                continue;
                            };
                            if x.owner != pid() || x.lamports < rent_min(x.data.len()) || s.b.get(&k).is_some() {
                                viol(out, P, format!("{}:account", what), format!("{} is not a rent exempt account of the program", name(&k)));
                            }
                            let mut d = x.data.to_vec();
                            for (o, w) in fresh(s, &k) {
                                if d[o..o + w.len()] != w[..] {
                                    viol(out, &["C19", "C23"], format!("{}:start", what), "the account does not start at the next commitment");
                                }
                                d[o..o + w.len()].fill(0);
                            }
                            // fields with other start values have their own drivers
                            if !matches!(o, O::Governor | O::Fee(_) | O::Key(_)) && d[1..].iter().any(|x| *x != 0) {
                                viol(out, P, format!("{}:content", what), format!("{} does not start empty", name(&k)));
                            }
                        }
                        let mut s2 = s.clone();
                        s2.b = b;
                        s2.open.insert(*o);
                        Some(s2)
                    }
                }
            }
            A::Twice(o) => {
                attempt(out, P, &format!("open {:?} twice", o), &s.b, &[o.ix(&pay), o.ix(&pay)], false);
                None
            }
            A::Other(o, i) => {
                let mut x = o.ix(&pay);
                if !o.opens().contains(&x.accounts[*i].pubkey) {
                    return None;
                }
                for k in [key("unrelated"), nullifier(7), fee_acc(9)] {
                    x.accounts[*i].pubkey = k;
                    attempt(out, &["C19", "C16"], &format!("open {:?} at another address", o), &s.b, &[x.clone()], false);
                }
                None
            }
            A::Swapped(o, i, j) => {
                let mut x = o.ix(&pay);
                let (p, q) = (x.accounts[*i].pubkey, x.accounts[*j].pubkey);
                if !o.opens().contains(&p) && !o.opens().contains(&q) {
                    return None;
                }
                x.accounts[*i].pubkey = q;
                x.accounts[*j].pubkey = p;
                attempt(out, &["C19", "C16"], &format!("open {:?} with exchanged accounts", o), &s.b, &[x], false);
                None
            }
            A::Enable(p, i, t, k) => {
                let exists = s.b.get(&p.acc()).is_some();
                let used = s.slots.values().any(|c| *c == (*t, *k));
                let ok = exists && (*i as usize) < p.slots() && !s.slots.contains_key(&(*p, *i as usize)) && *t == p.ty() && GOOD.contains(k) && !used;
                let c = cand(*t, *k);
                let why = if !exists { "without parent" } else if used { "with a used child" } else if !GOOD.contains(k) { KINDS[*k] } else if *t != p.ty() { "with a child of another type" } else { "" };
                let what = format!("enable {:?} child {}", p, why);
                match attempt(out, P, &what, &s.b, &[p.enable(*i, &c)], ok) {
                    R::No => None,
                    R::Yes(b) => {
                        if !ok {
                            return None;
                        }
                        only(out, &["C19", "C16"], &what, &s.b, &b, &[p.acc(), c]);
                        lamports(out, P, &what, &s.b, &b, &[]);
                        // only the slot of the parent changes
                        let mut d = s.b.data(&p.acc());
                        let o = 2 + 33 * *i as usize;
                        d[o] = 1;
                        d[o + 1..o + 33].copy_from_slice(c.as_ref());
                        if b.data(&p.acc()) != d {
                            viol(out, P, "enable:parent", "enabling a child did not just set its slot");
                        }
                        if p.ty() == 2 {
                            // nullifiers must start with an empty set
                            use elusiv::{state::nullifier::NullifierMap, types::OrdU256};
                            let mut d = b.data(&c);
                            let mut m = NullifierMap::new(&mut d[1..]);
                            let none = [[0u8; 32], [0x5b; 32], num(1), [255; 32]].iter().all(|n| m.contains(&OrdU256(*n)).is_none());
                            if !m.is_empty() || !none {
                                viol(out, &["C19", "C01", "C02"], "enable:nullifiers", "a new nullifier account is not empty");
                            }
                        } else if b.data(&c)[1..] != s.b.data(&c)[1..] {
                            viol(out, P, "enable:child", "enabling a child changed its content");
                        }
                        let mut s2 = s.clone();
                        s2.b = b;
                        s2.slots.insert((*p, *i as usize), (*t, *k));
                        Some(s2)
                    }
                }
            }
            A::Both(p, q, k) => {
                let c = cand(p.ty(), *k);
                let what = "one child in two positions";
                attempt(out, P, what, &s.b, &[p.enable(0, &c), q.enable(1, &c)], false);
                attempt(out, P, what, &s.b, &[p.enable(2, &c), q.enable(2, &c)], false);
                None
            }
            A::WrongParent(p, q) => {
                let mut x = p.enable(0, &cand(p.ty(), 0));
                x.accounts[0].pubkey = q.acc();
                attempt(out, &["C19", "C16"], "child of another parent", &s.b, &[x.clone()], false);
                // a copy of the parent
                if let Some(a) = s.b.get(&p.acc()) {
                    let mut b = s.b.clone();
                    let k = key("copied-parent");
                    b.set(k, a.clone());
                    x.accounts[0].pubkey = k;
                    attempt(out, &["C19", "C16"], "child of a copied parent", &b, &[x.clone()], false);
                }
                x.accounts[0].pubkey = p.acc();
                x.accounts[1].pubkey = p.acc();
                attempt(out, P, "parent as its own child", &s.b, &[x], false);
                None
            }
            A::Close(k) => {
                let mut accs: Vec<Pubkey> = s.open.iter().flat_map(|o| o.opens()).collect();
                accs.extend(s.slots.values().map(|(t, k)| cand(*t, *k)));
                for acc in accs {
                    let ix = match k {
                        0 => close_account(&pay, &pay, &acc),
                        1 => close_account(&admin(), &admin(), &acc),
                        _ => {
                            let mut x = close_account(&pid(), &pay, &acc);
                            x.accounts[0].is_signer = false;
                            x
                        }
                    };
                    attempt(out, &["C19", "C16"], "closing an account without the program's key", &s.b, &[ix], false);
                }
                None
            }
        }
    }
    fn key(&self, s: &S) -> u128 {
        s.b.hash()
    }
    fn check(&self, s: &S, out: &mut Vec<Viol>) {
        for p in [Parent::Storage, Parent::Meta, Parent::Null(0), Parent::Null(1)] {
            if s.b.get(&p.acc()).is_none() {
                continue;
            }
            for (i, c) in children(&s.b, &p.acc(), p.slots()).iter().enumerate() {
                if s.slots.get(&(p, i)).map(|(t, k)| cand(*t, *k)) != *c {
                    viol(out, P, "state:slot", format!("slot {} of {:?} is {:?}", i, p, c));
                }
            }
        }
        let mut seen = BTreeSet::new();
        for c in s.slots.values() {
            if !seen.insert(c) {
                viol(out, P, "state:shared", "a child serves two positions");
            }
            if s.b.data(&cand(c.0, c.1))[0] != 1 {
                viol(out, P, "state:unmarked", "a child in use is not marked");
            }
        }
    }
}

fn empty_bank(types: &[usize]) -> Bank {
    svm::init();
    svm::register_program(pid(), elusiv::process_instruction);
    let mut b = Bank::default();
    for k in [payer(), admin()] {
        fund(&mut b, &k, 1_000_000 * SOL);
    }
    for t in types {
        put_cands(&mut b, *t);
    }
    b
}

/// programs in which everything has been set up and used
#[derive(Clone, Debug)]
struct Used {
    ptr: u32,
    queued: u32,
    /// 0: idle, 1: hashing set up, 2: a batch is being hashed
    hashing: u8,
    /// create_v1 has not been executed yet
    fresh_v1: bool,
}
fn used(c: &mut Check) {
    let mut cases = vec![];
    for ptr in [0, 1, 5, 70_000, MT_LEAVES - 2, MT_LEAVES] {
        for queued in [0, 1, 3] {
            for hashing in 0..3 {
                for fresh_v1 in [false, true] {
                    cases.push(Used { ptr, queued, hashing, fresh_v1 });
                }
            }
        }
    }
    c.grid("setup-in-use", "every setup instruction in programs in use: repeated, for existing and new children, upgrade of a deployed program", &cases, |u, out| {
        let (mut b, _) = base_world(0, u.ptr, 238, &prefilled(u.queued, 0));
        fund(&mut b, &payer(), 1_000_000 * SOL);
        b.write(&chashing(), CH_SETUP, &[(u.hashing == 1) as u8]);
        b.write(&chashing(), CH_ACTIVE, &[(u.hashing == 2) as u8]);
        if u.fresh_v1 {
            for k in O::V1.opens() {
                
                b.accounts.remove(&k);
            }
        }
        let pay = payer();
        let mut n = 0;
        for o in OPENS {
            if o == O::Fee(1) || o == O::Key(0) && b.get(&vkey_acc(0)).is_none() {
                continue;
            }
            let ok = o == O::V1 && u.fresh_v1 && u.queued == 0 && u.hashing != 2;
            let what = format!("open {:?} in a program in use", o);
            n += 1;
            if let R::Yes(b2) = attempt(out, &["C19", "C23"], &what, &b, &[o.ix(&pay)], ok) {
                if ok && u32_at(&b2, &metadata(), ME_PTR) != u.ptr {
                    viol(out, &["C19", "C23"], "upgrade:ptr", "the metadata does not start at the next commitment");
                }
            }
        }
        if u.fresh_v1 {
            return (n, hash_bytes(1, format!("{:?}", u).as_bytes()));
        }
        for p in [Parent::Storage, Parent::Meta, Parent::Null(0), Parent::Null(1)] {
            let fresh = key("fresh-child");
            let mut b2 = b.clone();
            blank_child(&mut b2, &fresh, child_len(p.ty()));
            let other = match p {
                Parent::Storage => storage_child(1),
                Parent::Meta => meta_child(1),
                Parent::Null(t) => null_child(1 - t, 1),
            };
            for i in 0..p.slots() as u32 {
                for c in [fresh, other] {
                    attempt(out, P, &format!("replacing a {:?} child", p), &b2, &[p.enable(i, &c)], false);
                    n += 1;
                }
            }
        }
        (n, hash_bytes(1, format!("{:?}", u).as_bytes()))
    });

}

pub fn run_all(c: &mut Check) {
    if c.wants("setup-orders", &["C19"]) {
        let s = S { b: empty_bank(&[]), open: BTreeSet::new(), slots: BTreeMap::new() };
        let m = M { start: vec![("nothing".into(), s)], parents: vec![], types: vec![], opens: true };
        let l = c.limits(20, 100_000);
        let e = explore(&m, &l);
        c.explored("setup-orders", "all orders of the setup instructions, repeated, with exchanged accounts and accounts of other addresses", e);
    }
    if c.wants("setup-children", &["C19"]) {
        let groups: Vec<(&str, Vec<Parent>, Vec<usize>)> = vec![
            ("nullifiers", vec![Parent::Null(0), Parent::Null(1)], vec![2]),
            ("storage", vec![Parent::Storage], vec![0, 1]),
            ("metadata", vec![Parent::Meta, Parent::Null(0)], vec![1, 2]),
        ];
        for (n, parents, types) in groups {
            let s = S { b: empty_bank(&types), open: BTreeSet::new(), slots: BTreeMap::new() };
            let m = M { start: vec![("nothing".into(), s)], parents, types, opens: false };
            let l = c.limits(14, 200_000);
            let e = explore(&m, &l);
            c.explored(&format!("setup-children-{}", n), "all histories of opening the parents and enabling candidate children at the first, second, last and out of range positions", e);
        }
    }
    if c.wants("setup-in-use", &["C19", "C23"]) {
        used(c);
    }
}
