//! Substitution of accounts: every instruction of a scene, every account position, every substitute.
use crate::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use std::collections::{BTreeMap, BTreeSet};

/// A transaction that succeeds, and one of its instructions whose accounts are varied
#[derive(Clone)]
pub struct Scene {
    pub name: String,
    pub bank: Bank,
    pub ixs: Vec<Instruction>,
    pub at: usize,
    /// positions that may legitimately be any account (of the signer's choice); the effect must move with it
    pub free: Vec<usize>,
    /// bytes of accounts that record the choice
    pub mask: Vec<(Pubkey, usize, usize)>,
}
#[derive(Clone, Debug)]
pub enum Var {
    Key(usize, Pubkey, bool),
    /// (position, foreign owner)
    Copy(usize, bool),
    Blank(usize),
    Unsigned(usize),
    ReadOnly(usize),
    Drop(usize),
    Swap(usize, usize),
    Pair(usize, Pubkey, bool, usize, Pubkey, bool),
}
#[derive(Clone, Debug)]
pub struct Case {
    pub scene: usize,
    pub var: Var,
}
pub fn copy_key(pos: usize) -> Pubkey {
    Pubkey::new_from_array(hash32(b"copied", pos))
}
fn hash32(t: &[u8], n: usize) -> [u8; 32] {
    let mut v = t.to_vec();
    v.extend_from_slice(&n.to_le_bytes());
    solana_program::hash::hash(&v).to_bytes()
}
fn tokens(b: &Bank, k: &Pubkey) -> (Pubkey, Pubkey, i128) {
    match b.get(k) {
        Some(a) if a.owner == spl_token::id() && a.data.len() == 165 => (
            Pubkey::new(&a.data.slice(0, 32)), Pubkey::new(&a.data.slice(32, 32)),
            u64::from_le_bytes(a.data.slice(64, 8).try_into().unwrap()) as i128,
        ),
        _ => (Pubkey::default(), Pubkey::default(), 0),
    }
}
type Deltas = BTreeMap<Pubkey, (i128, i128)>;
fn deltas(pre: &Bank, post: &Bank) -> Deltas {
    pre.diff(post)
        .into_iter()
        .map(|k| (k, (post.lamports(&k) as i128 - pre.lamports(&k) as i128, tokens(post, &k).2 - tokens(pre, &k).2)))
        .filter(|(_, d)| *d != (0, 0))
        .collect()
}
fn masked(s: &Scene, b: &Bank, k: &Pubkey) -> Vec<u8> {
    let mut d = b.data(k);
    for (m, o, l) in &s.mask {
        if m == k && d.len() >= o + l {
            d[*o..*o + *l].fill(0);
        }
    }
    d
}
fn is_token(b: &Bank, k: &Pubkey) -> bool {
    b.get(k).map_or(false, |a| a.owner == spl_token::id())
}

impl Scene {
    pub fn variants(&self, subs: &[(Pubkey, bool)], pairs: &[(Pubkey, bool)]) -> Vec<Var> {
        let acc = &self.ixs[self.at].accounts;
        let mut v = vec![];
        let keys: BTreeSet<Pubkey> = subs.iter().map(|s| s.0).chain(acc.iter().map(|a| a.pubkey)).collect();
        let signers: BTreeSet<Pubkey> = subs.iter().filter(|s| s.1).map(|s| s.0).chain(acc.iter().filter(|a| a.is_signer).map(|a| a.pubkey)).collect();
        let mut single = vec![];
        for i in 0..acc.len() {
            for k in &keys {
                if *k != acc[i].pubkey {
                    single.push((i, *k, acc[i].is_signer && signers.contains(k)));
                }
            }
        }
        v.extend(single.iter().map(|(i, k, s)| Var::Key(*i, *k, *s)));
        for i in 0..acc.len() {
            v.extend([Var::Copy(i, false), Var::Copy(i, true), Var::Blank(i), Var::Drop(i)]);
            if acc[i].is_signer {
                v.push(Var::Unsigned(i));
            }
            if acc[i].is_writable {
                v.push(Var::ReadOnly(i));
            }
            for j in i + 1..acc.len() {
                v.push(Var::Swap(i, j));
            }
        }
        if !pairs.is_empty() {
            let mut small = vec![];
            for i in 0..acc.len() {
                for (k, s) in pairs {
                    if *k != acc[i].pubkey {
                        small.push((i, *k, acc[i].is_signer && *s));
                    }
                }
            }
            for (x, a) in small.iter().enumerate() {
                for b in &small[x + 1..] {
                    if a.0 != b.0 {
                        v.push(Var::Pair(a.0, a.1, a.2, b.0, b.1, b.2));
                    }
                }
            }
        }
        v
    }
    fn vary(&self, v: &Var, foreign: &Pubkey) -> (Bank, Vec<Instruction>) {
        let (mut b, mut ixs) = (self.bank.clone(), self.ixs.clone());
        let a = &mut ixs[self.at].accounts;
        let mut set = |i: usize, k: &Pubkey, s: bool| {
            a[i].pubkey = *k;
            a[i].is_signer = s;
        };
        match v {
            Var::Key(i, k, s) => set(*i, k, *s),
            Var::Pair(i, k, s, j, l, t) => {
                set(*i, k, *s);
                set(*j, l, *t);
            }
            Var::Copy(i, f) => {
                let k = copy_key(*i);
                if let Some(x) = b.get(&a[*i].pubkey) {
                    let mut x = Acct::clone(x);
                    if *f {
                        x.owner = *foreign;
                    }
                    b.set(k, x);
                }
                let s = a[*i].is_signer && !*f;
                a[*i].pubkey = k;
                a[*i].is_signer = s;
            }
            Var::Blank(i) => {
                let k = copy_key(*i);
                if let Some(x) = b.get(&a[*i].pubkey) {
                    let mut x = Acct::clone(x);
                    x.data = Data::zeros(x.data.len());
                    b.set(k, x);
                }
                a[*i].pubkey = k;
                a[*i].is_signer = false;
            }
            Var::Unsigned(i) => a[*i].is_signer = false,
            Var::ReadOnly(i) => a[*i].is_writable = false,
            Var::Drop(i) => {
                a.remove(*i);
            }
            Var::Swap(i, j) => {
                let (p, q) = (a[*i].pubkey, a[*j].pubkey);
                a[*i].pubkey = q;
                a[*j].pubkey = p;
                let (si, sj) = (a[*i].is_signer, a[*j].is_signer);
                if si != sj {
                    // the signature belongs to the account
                    a[*i].is_signer = sj;
                    a[*j].is_signer = si;
                }
            }
        }
        (b, ixs)
    }
    /// `post`: result of the authentic transaction
    pub fn check(&self, v: &Var, post: &Bank, foreign: &Pubkey, props: &'static [&'static str], out: &mut Vec<Viol>) -> (u64, u128) {
        let (b, ixs) = self.vary(v, foreign);
        let acc = &self.ixs[self.at].accounts;
        let Ok(p) = execute(&b, &ixs) else { return (1, 0) };
        let mut bad = |m: String| {
            let pos = match v {
                Var::Key(i, ..) | Var::Copy(i, _) | Var::Blank(i) | Var::Unsigned(i) | Var::ReadOnly(i) | Var::Drop(i) => format!("{}", i),
                Var::Swap(i, j) | Var::Pair(i, _, _, j, ..) => format!("{}-{}", i, j),
            };
            let kind = format!("{:?}", v);
            let kind = kind.split('(').next().unwrap();
            viol(out, props, format!("{}:{}:{}", self.name, kind, pos), format!("{} instruction {}: {}: {:?}", self.name, self.at, m, v));
        };
        let again = |i: usize| self.ixs.iter().enumerate().any(|(n, x)| n != self.at && x.accounts.iter().any(|a| a.is_signer && a.pubkey == acc[i].pubkey));
        if matches!(v, Var::Unsigned(i) if !again(*i)) {
            bad("accepted without the required signature".into());
            return (1, 1);
        }
        // immaterial: exactly the authentic effect
        let same = |x: &Bank, y: &Bank| {
            let mut ks: BTreeSet<Pubkey> = b.diff(x).into_iter().collect();
            ks.extend(self.bank.diff(y));
            ks.into_iter().all(|k| x.get(&k).map(|a| a.hash()) == y.get(&k).map(|a| a.hash()))
        };
        if same(&p, post) {
            return (1, 2);
        }
        let (real, auth) = (deltas(&b, &p), deltas(&self.bank, post));
        // nobody loses anything without having signed, apart from what the authentic transaction takes
        let signers: BTreeSet<Pubkey> = ixs.iter().flat_map(|i| i.accounts.iter()).filter(|a| a.is_signer).map(|a| a.pubkey).collect();
        for (k, (l, t)) in &real {
            let (al, at) = auth.get(k).copied().unwrap_or((0, 0));
            if *l < 0 && *l < al.min(0) && !signers.contains(k) {
                bad(format!("{} loses {} lamports without its signature", k, -l));
            }
            if *t < 0 && *t < at.min(0) && !signers.contains(&tokens(&b, k).1) {
                bad(format!("{} loses {} tokens without its owner's signature", k, -t));
            }
        }
        let (i, new) = match v {
            Var::Key(i, k, _) => (*i, *k),
            Var::Copy(i, _) | Var::Blank(i) => (*i, copy_key(*i)),
            Var::Unsigned(_) | Var::ReadOnly(_) | Var::Drop(_) => {
                bad("accepted with another effect".into());
                return (1, 3);
            }
            Var::Swap(i, j) => {
                if !(self.free.contains(i) || self.free.contains(j)) {
                    bad("accepted with another effect".into());
                }
                return (1, 3);
            }
            Var::Pair(i, _, _, j, ..) => {
                // program state: nothing changes that the authentic transaction leaves alone, except what is named
                let touched: BTreeSet<Pubkey> = self.bank.diff(post).into_iter().collect();
                let named: BTreeSet<Pubkey> = ixs[self.at].accounts.iter().map(|a| a.pubkey).collect();
                for k in b.diff(&p) {
                    if !touched.contains(&k) && !named.contains(&k) {
                        bad(format!("{} changed", k));
                    }
                }
                let _ = (i, j);
                return (1, 4);
            }
        };
        if !self.free.contains(&i) {
            bad(format!("accepted with another effect: {:?} instead of {:?}", real, auth));
            return (1, 5);
        }
        // a free position: the effect on the authentic account moves to the substitute
        let old = acc[i].pubkey;
        let mut exp = auth.clone();
        if let Some(d) = exp.remove(&old) {
            let e = exp.entry(new).or_default();
            e.0 += d.0;
            e.1 += d.1;
        }
        exp.retain(|_, d| *d != (0, 0));
        if acc.iter().filter(|a| a.pubkey == old).count() > 1 {
            // the authentic account also has other roles: together they change as before
            let sum = |m: &Deltas| {
                let mut m = m.clone();
                let d = m.remove(&old).unwrap_or_default();
                let e = m.entry(new).or_default();
                *e = (e.0 + d.0, e.1 + d.1);
                m.retain(|_, d| *d != (0, 0));
                m
            };
            if sum(&real) != sum(&auth) {
                bad(format!("the balances change by {:?} instead of {:?}", real, auth));
            }
        } else if real != exp {
            bad(format!("the balances change by {:?} instead of {:?}", real, exp));
        }
        let mut ks: BTreeSet<Pubkey> = self.bank.diff(post).into_iter().collect();
        ks.extend(b.diff(&p));
        for k in ks {
            if k == old || k == new || is_token(&b, &k) {
                continue;
            }
            if masked(self, &p, &k) != masked(self, post, &k) {
                bad(format!("data of {} differs", k));
            }
        }
        (1, 6)
    }
}

/// Runs all variants of all scenes
pub fn run_scenes(c: &mut Check, name: &str, scenes: &[Scene], subs: &[(Pubkey, bool)], pairs: &[(Pubkey, bool)], foreign: Pubkey, props: fn(&str) -> &'static [&'static str]) {
    // only what concerns the property
    let scenes: Vec<&Scene> = scenes.iter().filter(|s| crate::relevant(&c.prop, props(&s.name))).collect();
    let posts: Vec<Bank> = scenes
        .iter()
        .map(|s| execute(&s.bank, &s.ixs).unwrap_or_else(|e| panic!("SETUP-FAILED scene {} instruction {}: {:?}", s.name, s.at, e)))
        .collect();
    let mut cases = vec![];
    for (i, s) in scenes.iter().enumerate() {
        cases.extend(s.variants(subs, pairs).into_iter().map(|var| Case { scene: i, var }));
    }
    let bounds = format!("{} instructions, every account position replaced by each of {} accounts, a copy, a foreign copy, a blank account, without signature, read-only, missing, exchanged{}", scenes.len(), subs.len(), if pairs.is_empty() { String::new() } else { format!("; every pair of replacements by {} accounts", pairs.len()) });
    c.grid(name, &bounds, &cases, |c, out| {
        let (n, d) = scenes[c.scene].check(&c.var, &posts[c.scene], &foreign, props(&scenes[c.scene].name), out);
        (n, d * 1000 + c.scene as u128)
    });
}

#[derive(Clone, Debug)]
pub struct DataCase {
    pub scene: usize,
    pub var: DataVar,
}
#[derive(Clone, Debug)]
pub enum DataVar {
    /// only the first bytes
    Cut(usize),
    /// another, unknown instruction
    Tag(u8),
    /// something behind the last argument
    Trail(usize),
}
/// Instruction data that ends early or names no instruction is refused, bytes behind the arguments change nothing
pub fn run_data(c: &mut Check, name: &str, scenes: &[Scene], known_tags: usize, props: &'static [&'static str]) {
    let posts: Vec<Bank> = scenes
        .iter()
        .map(|s| execute(&s.bank, &s.ixs).unwrap_or_else(|e| panic!("SETUP-FAILED scene {} instruction {}: {:?}", s.name, s.at, e)))
        .collect();
    let mut cases = vec![];
    for (scene, s) in scenes.iter().enumerate() {
        let n = s.ixs[s.at].data.len();
        cases.extend((0..n).map(|k| DataCase { scene, var: DataVar::Cut(k) }));
        cases.extend((known_tags..256).map(|t| DataCase { scene, var: DataVar::Tag(t as u8) }));
        cases.extend([1, 2, 32, 1000].iter().map(|k| DataCase { scene, var: DataVar::Trail(*k) }));
    }
    let bounds = format!("{} instructions: data cut at every length, every tag from {} to 255, 1 to 1000 further bytes", scenes.len(), known_tags);
    c.grid(name, &bounds, &cases, |c, out| {
        let s = &scenes[c.scene];
        let mut ixs = s.ixs.clone();
        let d = &mut ixs[s.at].data;
        match c.var {
            DataVar::Cut(n) => d.truncate(n),
            DataVar::Tag(t) => d[0] = t,
            DataVar::Trail(n) => d.extend(vec![1u8; n]),
        }
        let res = execute(&s.bank, &ixs);
        let kind = format!("{:?}", c.var);
        let kind = kind.split('(').next().unwrap();
        let mut bad = |m: &str| viol(out, props, format!("{}:{}", s.name, kind), format!("{} instruction {}: {}: {:?}", s.name, s.at, m, c.var));
        match (res, &c.var) {
            (Err(_), _) => (1, c.scene as u128),
            (Ok(p), DataVar::Trail(_)) => {
                let mut ks: BTreeSet<Pubkey> = s.bank.diff(&p).into_iter().collect();
                ks.extend(s.bank.diff(&posts[c.scene]));
                if ks.iter().any(|k| p.get(k).map(|a| a.hash()) != posts[c.scene].get(k).map(|a| a.hash())) {
                    bad("another effect with further bytes");
                }
                (1, 1000 + c.scene as u128)
            }
            _ => {
                bad("accepted");
                (1, 2000)
            }
        }
    });
}

#[derive(Clone, Debug)]
pub struct SizeCase {
    pub scene: usize,
    pub pos: usize,
    pub len: usize,
}
/// A program account of another size is refused (`whole`: the accounts that are read as a whole)
pub fn run_sizes(c: &mut Check, name: &str, scenes: &[Scene], whole: &[(Pubkey, &'static str)], props: &'static [&'static str]) {
    let mut cases = vec![];
    for (scene, s) in scenes.iter().enumerate() {
        for (pos, a) in s.ixs[s.at].accounts.iter().enumerate() {
            let n = match s.bank.get(&a.pubkey) {
                Some(x) if whole.iter().any(|w| w.0 == a.pubkey) => x.data.len(),
                _ => continue,
            };
            if n == 0 {
                continue;
            }
            for len in [1, 2, 33, n / 2, n.saturating_sub(32), n - 1, n + 1, n + 32, 2 * n] {
                if len != n {
                    cases.push(SizeCase { scene, pos, len });
                }
            }
        }
    }
    let bounds = format!("{} instructions, each program account they read cut or extended to 9 other sizes", scenes.len());
    c.grid(name, &bounds, &cases, |c, out| {
        let s = &scenes[c.scene];
        let k = s.ixs[s.at].accounts[c.pos].pubkey;
        let mut b = s.bank.clone();
        let mut x = Acct::clone(b.get(&k).unwrap());
        let mut d = x.data.to_vec();
        let n = d.len();
        d.resize(c.len, 0);
        x.data = Data::new(&d);
        x.lamports = x.lamports.max(1 << 40);
        b.set(k, x);
        let what = whole.iter().find(|w| w.0 == k).unwrap().1;
        if execute(&b, &s.ixs).is_ok() {
            viol(out, props, format!("{}:{}", s.name, what), format!("{} accepts the {} account with {} instead of {} bytes", s.name, what, c.len, n));
            return (1, 1);
        }
        (1, c.pos as u128 + 2)
    });
}
