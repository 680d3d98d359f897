//! All compositions of the finalisation steps of two verifications into transactions (C01, C04, C06, C07).
use crate::chk::*;
use crate::hash::warden;
use crate::ver::*;
use mc::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Send(u8),
    Insert(u8),
    Pay(u8),
    /// lamports for the verification account
    Revive(u8),
}
use Op::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Dec {
    Valid,
    Invalid,
    Open,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Nul {
    Distinct,
    Same,
    Overlap,
}
#[derive(Clone, Debug)]
struct Scen {
    same_fp: bool,
    same_idx: bool,
    dec: [Dec; 2],
    nul: Nul,
    tokens: [u16; 2],
    inputs: usize,
    pay: bool,
    revive: bool,
    memo: bool,
    len: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum St {
    Setup,
    /// nullifiers inserted so far
    Insert(u8),
    Final,
    Closed,
}
#[derive(Clone)]
struct S {
    b: Bank,
    st: [St; 2],
    nul: BTreeSet<B32>,
    /// nullifier duplicate account of verification 0 (shared or not)
    dup: [bool; 2],
    revived: [bool; 2],
}

struct M {
    sc: Scen,
    v: [V; 2],
    start: Bank,
    acts: Vec<Vec<Op>>,
}

fn shuffles(a: &[Op], b: &[Op], cur: &mut Vec<Op>, out: &mut Vec<Vec<Op>>) {
    if a.is_empty() && b.is_empty() {
        out.push(cur.clone());
        return;
    }
    for (x, y, z) in [(a, b, true), (b, a, false)] {
        if let Some(h) = x.first() {
            cur.push(*h);
            if z {
                shuffles(&a[1..], y, cur, out)
            } else {
                shuffles(y, &b[1..], cur, out)
            }
            cur.pop();
        }
    }
}

impl M {
    fn new(sc: &Scen) -> M {
        let (mut b, _) = vworld(1, 200, 0);
        let mut a = V::new(&b, 3, &warden(), sc.tokens[0], 1);
        for i in 1..sc.inputs {
            a.r.inputs.push(Input { root: None, nullifier: nul(10 + i as u64) });
        }
        let mut o = V::new(&b, if sc.same_idx { 3 } else { 4 }, &if sc.same_fp { warden() } else { warden2() }, sc.tokens[1], 2);
        match sc.nul {
            Nul::Distinct => {}
            Nul::Same => {
                o.r.inputs = a.r.inputs.clone();
                o.skip = true;
            }
            Nul::Overlap => o.r.inputs.push(Input { root: None, nullifier: a.r.inputs[0].nullifier }),
        }
        for v in [&mut a, &mut o] {
            v.r.solana_pay = sc.pay;
            v.r.fee *= 2;
            if sc.memo {
                v.memo = Some(b"memo".to_vec());
            }
            v.seal();
        }
        let v = [a, o];
        for (i, x) in v.iter().enumerate() {
            let p = if sc.dec[i] == Dec::Valid { x.proof() } else { x.wrong_proof() };
            must(&mut b, &x.init_tx(&p), "setup");
            match sc.dec[i] {
                Dec::Valid => x.decide(&mut b, true),
                Dec::Invalid => x.decide(&mut b, false),
                Dec::Open => {}
            }
        }
        let mut alpha = vec![Send(0), Insert(0), Pay(0), Send(1), Insert(1), Pay(1)];
        if sc.revive {
            alpha.push(Revive(0));
        }
        let mut acts = vec![];
        let mut layer: Vec<Vec<Op>> = vec![vec![]];
        for _ in 0..sc.len {
            let mut next = vec![];
            for l in &layer {
                for o in &alpha {
                    let mut l = l.clone();
                    l.push(*o);
                    next.push(l);
                }
            }
            acts.extend(next.iter().cloned());
            layer = next;
        }
        let whole = |k: u8, v: &V, valid: bool| {
            let mut x = vec![Send(k)];
            if valid {
                x.extend((0..v.r.inputs.len()).map(|_| Insert(k)));
            }
            x.push(Pay(k));
            x
        };
        let (x, y) = (whole(0, &v[0], sc.dec[0] == Dec::Valid), whole(1, &v[1], sc.dec[1] == Dec::Valid));
        let mut sh = vec![];
        shuffles(&x, &y, &mut vec![], &mut sh);
        acts.extend(sh.into_iter().filter(|s| s.len() > sc.len));
        M { sc: sc.clone(), v, start: b, acts }
    }
    fn tx(&self, ops: &[Op]) -> Vec<Instruction> {
        let mut t: Vec<Instruction> = ops
            .iter()
            .map(|o| match o {
                Send(k) => self.v[*k as usize].send_ix(),
                Insert(k) => self.v[*k as usize].insert_ix(),
                Pay(k) => self.v[*k as usize].transfer_ix(),
                Revive(k) => transfer(&warden(), &self.v[*k as usize].acc(), SOL),
            })
            .collect();
        if self.sc.memo {
            t.push(memo(b"memo"));
        }
        if self.sc.pay {
            let v = &self.v[0];
            let n = v.r.amount;
            t.push(if v.r.token == 0 {
                transfer(&v.fp, &v.rec, n)
            } else {
                spl_token::instruction::transfer(&spl_token::id(), &ata(&v.fp, v.r.token), &v.rec, &v.fp, &[&v.fp], n).unwrap()
            });
        }
        t
    }
    /// Reference: Ok(state, payouts in order) or refusal; `free`: acceptance is not specified
    fn reference(&self, s: &S, ops: &[Op]) -> (Option<(S, Vec<u8>)>, bool) {
        let mut n = s.clone();
        let mut paid = vec![];
        let mut free = false;
        for (i, o) in ops.iter().enumerate() {
            match *o {
                Send(k) => {
                    let ku = k as usize;
                    if n.st[ku] != St::Setup {
                        return (None, free);
                    }
                    match self.sc.dec[ku] {
                        Dec::Open => return (None, free),
                        Dec::Invalid => n.st[ku] = St::Final,
                        Dec::Valid => {
                            let ins = self.v[ku].r.inputs.len();
                            let mut want = vec![Insert(k); ins];
                            want.push(Pay(k));
                            if ops.get(i + 1..i + 2 + ins) != Some(&want[..]) {
                                return (None, free);
                            }
                            n.st[ku] = St::Insert(0);
                        }
                    }
                }
                Insert(k) => {
                    let ku = k as usize;
                    let St::Insert(c) = n.st[ku] else { return (None, free) };
                    let inp = &self.v[ku].r.inputs;
                    if !n.nul.insert(mont_b(&fr(&inp[c as usize].nullifier).unwrap())) {
                        return (None, free);
                    }
                    n.st[ku] = if c as usize + 1 == inp.len() { St::Final } else { St::Insert(c + 1) };
                }
                Pay(k) => {
                    let ku = k as usize;
                    if n.st[ku] != St::Final {
                        return (None, free);
                    }
                    let owner = if self.sc.nul == Nul::Same { 0 } else { ku };
                    // the account that protects the nullifiers has already been closed by the other verification
                    if !s.dup[owner] {
                        free = true;
                    }
                    if !self.v[ku].skip {
                        n.dup[ku] = false;
                    }
                    if self.sc.dec[ku] == Dec::Valid {
                        // a solana pay transfer may have to be the last thing the program does
                        if self.sc.pay && ops[i + 1..].iter().any(|o| !matches!(o, Revive(_))) {
                            free = true;
                        }
                        // every payment needs its own transfer in the transaction
                        if self.sc.pay && (paid.iter().any(|p| self.sc.dec[*p as usize] == Dec::Valid) || (ku == 1 && !self.sc.same_fp)) {
                            return (None, free);
                        }
                    }
                    paid.push(k);
                    n.st[ku] = St::Closed;
                }
                Revive(k) => n.revived[k as usize] = true,
            }
        }
        (Some((n, paid)), free)
    }
}

impl Model for M {
    type S = S;
    type A = Vec<Op>;
    fn initial(&self) -> Vec<(String, S)> {
        let nul = null_keys(&self.start, 0, 0).into_iter().collect();
        vec![(format!("{:?}", self.sc), S { b: self.start.clone(), st: [St::Setup; 2], nul, dup: [true, self.sc.nul != Nul::Same], revived: [false; 2] })]
    }
    fn key(&self, s: &S) -> u128 {
        let mut h = s.b.hash();
        for (i, x) in s.st.iter().enumerate() {
            let c = match x {
                St::Setup => 1,
                St::Insert(k) => 10 + *k as u128,
                St::Final => 2,
                St::Closed => 3,
            };
            h ^= c << (100 + 8 * i);
        }
        h
    }
    fn actions(&self, s: &S) -> Vec<Vec<Op>> {
        let rev = |a: &Vec<Op>| a.iter().filter(|o| matches!(o, Revive(_))).count() + s.revived[0] as usize <= 1;
        // nothing is possible any more: all pairs of operations
        let done = s.st.iter().all(|x| *x == St::Closed);
        self.acts.iter().filter(|a| rev(a) && (!done || a.len() <= 2)).cloned().collect()
    }
    fn step(&self, s: &S, ops: &Vec<Op>, out: &mut Vec<Viol>) -> Option<S> {
        let (want, free) = self.reference(s, ops);
        let r = execute(&s.b, &self.tx(ops));
        let (n, paid) = match (r, want) {
            (Err(_), None) => return None,
            (Err(e), Some(_)) => {
                if !free {
                    viol(out, &["C06", "C01", "C03"], "compose:refused", format!("{:?} was refused: {:?}", ops, e));
                }
                return None;
            }
            (Ok(_), None) => {
                viol(out, &["C06", "C01", "C02", "C04", "C07"], if self.sc.pay { "compose:accepted-pay" } else { "compose:accepted" }, format!("{:?} was accepted in state {:?}", ops, s.st));
                return None;
            }
            (Ok(b), Some((mut n, p))) => {
                n.b = b;
                (n, p)
            }
        };
        // balances
        let mut l: BTreeMap<Pubkey, i128> = BTreeMap::new();
        let mut t: BTreeMap<Pubkey, i128> = BTreeMap::new();
        let mut q = queue_entries(&s.b);
        let mut m = meta_entries(&s.b);
        let mut allowed = vec![pool(), fee_collector(), queue(), meta_queue(), nullifier(0), null_child(0, 0), commitment_buffer()];
        for v in &self.v {
            allowed.extend([v.acc(), v.dup(), v.fp, v.rec, ata(&v.fp, 1), ata(&pool(), 1), ata(&fee_collector(), 1)]);
        }
        let any_revive = ops.iter().any(|o| matches!(o, Revive(_)));
        for k in &paid {
            let v = &self.v[*k as usize];
            let c = v.charges(&s.b);
            let valid = self.sc.dec[*k as usize] == Dec::Valid;
            let dest = if valid && self.sc.pay { if v.r.token == 0 { v.fp } else { ata(&v.fp, v.r.token) } } else { v.rec_acc() };
            let (a, b) = if valid { payout_deltas(&s.b, v, &c, false, &dest) } else { forfeit_deltas(&s.b, v, &c) };
            for (x, d) in a {
                *l.entry(x).or_default() += d;
            }
            for (x, d) in b {
                *t.entry(x).or_default() += d;
            }
            if valid {
                q.push(QEntry { commitment: mont_b(&fr(&v.r.output).unwrap()), fee_version: 0, rate: 1 });
                m.push(v.r.metadata);
            }
        }
        if self.sc.pay {
            let v = &self.v[0];
            let d = if v.r.token == 0 { &mut l } else { &mut t };
            let from = if v.r.token == 0 { v.fp } else { ata(&v.fp, v.r.token) };
            *d.entry(from).or_default() -= v.r.amount as i128;
            *d.entry(v.rec).or_default() += v.r.amount as i128;
        }
        let p: Props = &["C04", "C05", "C06", "C07", "C01"];
        let list = |m: BTreeMap<Pubkey, i128>| m.into_iter().collect::<Vec<_>>();
        if !any_revive && !s.revived[0] {
            lamports(out, p, "compose", &s.b, &n.b, &list(l));
        }
        tokens(out, p, "compose", &s.b, &n.b, &list(t));
        only(out, &["C16", "C06"], "compose", &s.b, &n.b, &allowed);
        if s.b.total_lamports() != n.b.total_lamports() {
            viol(out, &["C05"], "compose:total", "lamports were created or destroyed");
        }
        if queue_entries(&n.b) != q {
            viol(out, &["C06", "C08", "C20"], "compose:queue", format!("{:?}: the queue does not hold exactly the change commitments of the paid transfers", ops));
        }
        if meta_entries(&n.b) != m {
            viol(out, &["C23"], "compose:metadata", format!("{:?}: the metadata queue does not match", ops));
        }
        let have = null_keys(&n.b, 0, 0);
        if have.len() != n.nul.len() || have.iter().any(|k| !n.nul.contains(k)) {
            viol(out, &["C01", "C02", "C06", "C07"], "compose:nullifiers", format!("{:?}: {} nullifiers are stored, {} have been spent", ops, have.len(), n.nul.len()));
        }
        Some(n)
    }
}

pub fn run_all(c: &mut Check) {
    if !c.wants("finalisation-order", &["C01", "C02", "C03", "C04", "C05", "C06", "C07"]) {
        return;
    }
    let len = c.tier(4, 5);
    let mut scens = vec![];
    for (same_fp, same_idx) in [(false, true), (true, false), (false, false)] {
        for d0 in [Dec::Valid, Dec::Invalid] {
            for d1 in [Dec::Valid, Dec::Invalid, Dec::Open] {
                for nul in [Nul::Distinct, Nul::Same, Nul::Overlap] {
                    for tokens in [[0u16, 0], [0, 1], [1, 1], [1, 0]] {
                        for inputs in [1usize, 2] {
                            if c.tier(tokens != [0, 0] && (nul != Nul::Distinct || inputs == 2 || !same_idx), false) {
                                continue;
                            }
                            if c.tier(inputs == 2 && nul == Nul::Overlap, false) {
                                continue;
                            }
                            let len = if c.tier(!same_idx, false) { 3 } else { len };
                            let len = if inputs == 2 || nul == Nul::Overlap { 4.max(len - 1) } else { len };
                            scens.push(Scen { same_fp, same_idx, dec: [d0, d1], nul, tokens, inputs, pay: false, revive: false, memo: false, len });
                        }
                    }
                }
            }
        }
    }
    for tokens in [[0u16, 0], [1, 1]] {
        for (same_fp, same_idx) in [(true, false), (false, true)] {
            for d1 in [Dec::Valid, Dec::Invalid] {
                for memo in [false, true] {
                    scens.push(Scen { same_fp, same_idx, dec: [Dec::Valid, d1], nul: Nul::Distinct, tokens, inputs: 1, pay: true, revive: false, memo, len: 3 });
                }
            }
        }
        for d0 in [Dec::Valid, Dec::Invalid] {
            scens.push(Scen { same_fp: false, same_idx: true, dec: [d0, Dec::Valid], nul: Nul::Distinct, tokens, inputs: 1, pay: false, revive: true, memo: false, len: 4 });
        }
    }
    let models: Vec<(String, M)> = scens
        .iter()
        .map(|sc| (format!("{:?}: every sequence of up to {} finalisation instructions of two verifications as one transaction (and every shuffle of the two complete finalisations), transaction after transaction until nothing new is reached", sc, sc.len), M::new(sc)))
        .collect();
    c.explore_all("finalisation-order", 8, 100_000, &models);
}
