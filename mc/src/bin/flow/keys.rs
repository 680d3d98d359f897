//! Management of verifying keys (C17): histories of the key instructions by authorities and strangers,
//! packet positions, and the key that a verification actually uses.
use crate::chk::*;
use crate::hash::*;
use crate::ver::*;
use mc::groth::Trap;
use mc::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey};

const P: Props = &["C17"];
const PACKET: usize = 964;

fn who(i: u8) -> Pubkey {
    key(["key-auth-a", "key-auth-b", "key-stranger"][i as usize])
}
/// candidate data accounts: two proper ones and unsuitable ones
const KINDS: [&str; 7] = ["first", "second", "short", "long", "foreign", "poor", "used"];
fn cand(i: usize) -> Pubkey {
    key(&format!("key-data-{}", KINDS[i]))
}

#[derive(Clone)]
struct S {
    b: Bank,
    /// authority of the existing key
    key: Option<Key>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
struct Key {
    auth: Option<u8>,
    frozen: bool,
    version: u32,
    active: Option<usize>,
    pending: Option<usize>,
}
#[derive(Clone, Debug)]
enum A {
    Create { id: u32, by: u8, auth: Option<u8> },
    New { by: u8, c: usize },
    Set { by: u8, pos: u32, c: Option<usize>, fill: u8 },
    SetShort { by: u8 },
    Update { by: u8, old: Option<usize> },
    Freeze { by: u8 },
    Auth { by: u8, to: u8 },
    Unsigned { k: u8 },
}
struct M {
    len: usize,
    start: S,
}
fn unsign(mut i: Instruction) -> Instruction {
    i.accounts[0].is_signer = false;
    i
}
impl M {
    fn new() -> M {
        let mut b = genesis(&Cfg { fee: Fee::default(), rate: 0, nullifier_accounts: 0, children: false, tokens: vec![] });
        let len = Trap::new(1, 0).source().len();
        for i in 0..3 {
            fund(&mut b, &who(i), 1000 * SOL);
        }
        for (i, k) in KINDS.iter().enumerate() {
            let l = 1 + match *k {
                "short" => len - 1,
                "long" => len + 1,
                _ => len,
            };
            // the content of a data account before its use is arbitrary
            let mut d = vec![0xa5; l];
            d[0] = (*k == "used") as u8;
            let lam = rent_min(l) - (*k == "poor") as u64;
            b.put(cand(i), lam, if *k == "foreign" { memo_id() } else { pid() }, &d);
        }
        M { len, start: S { b, key: None } }
    }
    fn last(&self) -> u32 {
        ((self.len - 1) / PACKET) as u32
    }
    fn packet(&self, fill: u8, pos: u32) -> Vec<u8> {
        (0..PACKET).map(|i| (fill as usize + pos as usize * 7 + i) as u8).collect()
    }
    fn ix(&self, a: &A) -> Instruction {
        match a {
            A::Create { id, by, auth } => create_vkey(&who(*by), *id, 0, auth.map(who).as_ref()),
            A::New { by, c } => new_vkey_version(&who(*by), 0, &cand(*c)),
            A::Set { by, pos, c, fill } => set_vkey_data(&who(*by), 0, *pos, &self.packet(*fill, *pos), &c.map(cand).into_iter().collect::<Vec<_>>()),
            A::SetShort { by } => set_vkey_data(&who(*by), 0, 0, &self.packet(9, 0)[..PACKET - 1], &[cand(0)]),
            A::Update { by, old } => update_vkey(&who(*by), 0, &old.map(cand).unwrap_or(key("nobody"))),
            A::Freeze { by } => freeze_vkey(&who(*by), 0),
            A::Auth { by, to } => change_vkey_auth(&who(*by), 0, &who(*to)),
            A::Unsigned { k } => {
                let by = 0;
                unsign(match k {
                    0 => self.ix(&A::Create { id: 0, by, auth: Some(0) }),
                    1 => self.ix(&A::New { by, c: 0 }),
                    2 => self.ix(&A::Set { by, pos: 0, c: Some(0), fill: 3 }),
                    3 => self.ix(&A::Update { by, old: None }),
                    4 => self.ix(&A::Freeze { by }),
                    _ => self.ix(&A::Auth { by, to: 1 }),
                })
            }
        }
    }
}
impl Model for M {
    type S = S;
    type A = A;
    fn initial(&self) -> Vec<(String, S)> {
        vec![("no key".into(), self.start.clone())]
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut v = vec![];
        let by: &[u8] = &[0, 1, 2];
        for b in by {
            for auth in [None, Some(0), Some(1)] {
                v.push(A::Create { id: 0, by: *b, auth });
            }
            for c in 0..KINDS.len() {
                v.push(A::New { by: *b, c });
            }
            let last = self.last();
            for pos in [0, 1, last, last + 1, u32::MAX, 4455361] {
                for c in [s.key.as_ref().and_then(|k| k.pending), s.key.as_ref().and_then(|k| k.active), None] {
                    v.push(A::Set { by: *b, pos, c, fill: 17 });
                }
            }
            v.push(A::SetShort { by: *b });
            for old in [None, Some(0), Some(1)] {
                v.push(A::Update { by: *b, old });
            }
            v.push(A::Freeze { by: *b });
            for to in 0..2 {
                v.push(A::Auth { by: *b, to });
            }
        }
        for id in [1, u32::MAX] {
            v.push(A::Create { id, by: 0, auth: Some(0) });
        }
        for k in 0..6 {
            v.push(A::Unsigned { k });
        }
        v
    }
    fn step(&self, s: &S, a: &A, out: &mut Vec<Viol>) -> Option<S> {
        let k = s.key.clone();
        // who may change the key
        let may = |by: u8| k.as_ref().map_or(false, |k| !k.frozen && k.auth.map_or(true, |x| x == by));
        let mut k2 = k.clone();
        let mut want = s.b.clone();
        let mut open = false; // acceptance unspecified
        let mut touched: Vec<Pubkey> = vec![];
        let ok = match a {
            A::Create { id, auth, .. } => {
                k2 = Some(Key { auth: *auth, frozen: false, version: 0, active: None, pending: None });
                *id == 0 && k.is_none()
            }
            A::New { by, c } => {
                if let Some(k) = &mut k2 {
                    k.pending = Some(*c);
                }
                touched.push(cand(*c));
                let in_use = k.as_ref().map_or(false, |k| k.active == Some(*c) || k.pending == Some(*c));
                may(*by) && k.as_ref().unwrap().pending.is_none() && *c < 2 && !in_use
            }
            A::Set { by, pos, c, fill } => {
                let pend = k.as_ref().and_then(|k| k.pending);
                let start = *pos as u64 * PACKET as u64;
                let ok = may(*by) && c.is_some() && *c == pend && start < self.len as u64;
                if ok {
                    let p = self.packet(*fill, *pos);
                    let n = (self.len - start as usize).min(PACKET);
                    want.write(&cand(pend.unwrap()), 1 + start as usize, &p[..n]);
                    touched.push(cand(pend.unwrap()));
                }
                ok
            }
            A::SetShort { .. } => false,
            A::Update { by, old } => {
                let ok = may(*by) && k.as_ref().unwrap().pending.is_some();
                if ok && k.as_ref().unwrap().active.is_some() {
                    open = true;
                }
                if let Some(k) = &mut k2 {
                    k.active = k.pending;
                    k.pending = None;
                    k.version += 1;
                }
                if open {
                    touched.extend(old.map(cand));
                    if *old != k.as_ref().unwrap().active {
                        open = false; // another account cannot be closed in its place
                        return self.refused(s, a, out);
                    }
                }
                ok
            }
            A::Freeze { by } => {
                if let Some(k) = &mut k2 {
                    k.frozen = true;
                }
                may(*by)
            }
            A::Auth { by, to } => {
                if let Some(k) = &mut k2 {
                    k.auth = Some(*to);
                }
                may(*by)
            }
            A::Unsigned { .. } => {
                // without authority anyone may change the key, whether a signature is needed at all is immaterial
                if k.as_ref().map_or(true, |k| k.auth.is_some()) {
                    return self.refused(s, a, out);
                }
                return None;
            }
        };
        let r = execute(&s.b, &[self.ix(a)]);
        if open && r.is_err() {
            return None;
        }
        let what = format!("{}{}", format!("{:?}", a).split(' ').next().unwrap(), if k.as_ref().map_or(false, |k| k.frozen) { " (frozen)" } else { "" });
        match (r, ok) {
            (Err(_), false) => None,
            (Err(e), true) => {
                viol(out, P, format!("{}:refused", what), format!("{:?} by the authority of {:?} was refused: {:?}", a, k, e));
                None
            }
            (Ok(_), false) => {
                viol(out, P, format!("{}:accepted", what), format!("{:?} was accepted although the key is {:?}", a, k));
                None
            }
            (Ok(b), true) => {
                touched.push(vkey_acc(0));
                touched.extend((0..3).map(who)); // rent
                only(out, &["C17", "C16"], &what, &s.b, &b, &touched);
                for i in 0..KINDS.len() {
                    let (x, y) = (want.data(&cand(i)), b.data(&cand(i)));
                    // the first byte tells whether the account is in use
                    if b.get(&cand(i)).is_some() && (x.len() != y.len() || x[1..] != y[1..]) {
                        viol(out, P, format!("{}:bytes", what), format!("{:?}: data account {} does not hold what was written", a, KINDS[i]));
                    }
                }
                if !matches!(a, A::Create { .. }) {
                    lamports(out, P, &what, &s.b, &b, if open { return Some(S { b, key: k2 }) } else { &[] });
                }
                Some(S { b, key: k2 })
            }
        }
    }
    fn key(&self, s: &S) -> u128 {
        s.b.hash()
    }
    fn check(&self, s: &S, out: &mut Vec<Viol>) {
        let Some(k) = &s.key else {
            if s.b.get(&vkey_acc(0)).is_some() {
                viol(out, P, "state", "a key exists that was never created");
            }
            return;
        };
        let a = s.b.get(&vkey_acc(0)).expect("key");
        let d = a.data.to_vec();
        let child = |i: usize| {
            let o = 2 + 33 * i;
            if d[o] == 0 { None } else { Some(Pubkey::new_from_array(d[o + 1..o + 33].try_into().unwrap())) }
        };
        let auth = if d[VK_AUTH] == 0 { None } else { Some(Pubkey::new_from_array(d[VK_AUTH + 1..VK_AUTH + 33].try_into().unwrap())) };
        let version = u32::from_le_bytes(d[VK_VERSION..VK_VERSION + 4].try_into().unwrap());
        let real = (auth, d[VK_FROZEN] == 1, version, child(0), child(1));
        let want = (k.auth.map(who), k.frozen, k.version, k.active.map(cand), k.pending.map(cand));
        if real != want {
            viol(out, P, "state", format!("the key is {:?} instead of {:?}", real, want));
        }
    }
}
impl M {
    fn refused(&self, s: &S, a: &A, out: &mut Vec<Viol>) -> Option<S> {
        let n = format!("{:?}", a);
        attempt(out, P, n.split(' ').next().unwrap(), &s.b, &[self.ix(a)], false);
        None
    }
}

/// every packet position of a key
fn packets(c: &mut Check) {
    for n in [0usize, 1, 14] {
        let len = Trap::new(1, n).source().len();
        let last = (len - 1) / PACKET;
        let mut b = genesis(&Cfg { fee: Fee::default(), rate: 0, nullifier_accounts: 0, children: false, tokens: vec![] });
        let a = who(0);
        fund(&mut b, &a, 1000 * SOL);
        let d = key("key-data");
        must(&mut b, &[create_vkey(&a, 0, n as u32, Some(&a))], "create key");
        b.put(d, rent_min(1 + len), pid(), &vec![0; 1 + len]);
        must(&mut b, &[new_vkey_version(&a, 0, &d)], "new version");
        let full: Vec<u8> = (0..len).map(|i| (hash_bytes(5, &(i as u32).to_le_bytes()) as u8) | 1).collect();
        b.write(&d, 1, &full);
        let mut pos: Vec<(u64, usize)> = (0..=last as u64).map(|p| (p, PACKET)).collect();
        if n == 14 && !c.thorough {
            pos.retain(|(p, _)| *p < 40 || *p + 40 > last as u64 || p % 16 == 0);
        }
        for p in 1..=3 {
            pos.push((last as u64 + p, PACKET));
        }
        // positions whose byte offsets wrap around 32 bits
        for m in 1..=964u64 {
            let p = (m << 32) / PACKET as u64;
            pos.extend([(p, PACKET), (p + 1, PACKET)]);
        }
        pos.push((last as u64, len - last * PACKET));
        pos.retain(|(p, _)| *p <= u32::MAX as u64);
        c.grid(&format!("key-packets-{}", n), "every packet position of the key, positions behind the end and positions whose offset wraps", &pos, |(p, l), out| {
            let data: Vec<u8> = (0..*l).map(|i| (p * 31 + i as u64 * 2) as u8 & 0xfe).collect();
            let start = *p as usize * PACKET;
            let ok = start < len;
            let R::Yes(b2) = attempt(out, P, "packet", &b, &[set_vkey_data(&a, 0, *p as u32, &data, &[d])], ok) else { return (1, *p as u128) };
            if !ok {
                return (1, *p as u128);
            }
            let end = (start + PACKET).min(len);
            let mut w = full.clone();
            w[start..end].copy_from_slice(&data[..end - start]);
            if b2.data(&d)[1..] != w[..] {
                viol(out, P, "packet:bytes", format!("packet {} was not written at its place", p));
            }
            only(out, P, "packet", &b, &b2, &[d]);
            (1, b2.hash())
        });
    }
}

/// which key decides a proof
#[derive(Clone, Debug)]
enum U {
    /// a proof for the active / the other key, with an updated version pending
    Pending(bool),
    /// ... after activation
    Active(bool),
    /// the pending key changes while the proof is computed
    Midway(bool),
    OtherId(u32),
    ForeignKey,
    ForeignData,
    NoData,
}
fn usage(c: &mut Check) {
    let (base, _) = vworld(0, 8, 0);
    let other = Trap::new(77, 14);
    let (src_other, a) = (other.source(), admin());
    let mut pend = base.clone();
    let d2 = vkey_child(2);
    blank_child(&mut pend, &d2, 1 + src_other.len());
    must(&mut pend, &[new_vkey_version(&a, 0, &d2)], "second version");
    pend.write(&d2, 1, &src_other);
    let cases = vec![
        U::Pending(true), U::Pending(false), U::Active(true), U::Active(false), U::Midway(true), U::Midway(false), U::OtherId(1), U::OtherId(u32::MAX),
        U::ForeignKey, U::ForeignData, U::NoData,
    ];
    c.grid("key-usage", "proofs for the active and for another key, with a pending version, after activation and with substituted key accounts", &cases, |u, out| {
        let world = |first: bool| if first { base.clone() } else { pend.clone() };
        let decide = |b: &Bank, v: &V, t: &Trap, data: &Pubkey, want: bool, out: &mut Vec<Viol>| {
            let p = t.prove(&v.r.signals(), 11, 13);
            let R::Yes(mut b) = attempt(out, &["C17", "C13"], "setup of a request", b, &v.init_tx(&p), true) else { return 0 };
            let mut n = 0;
            while v.verdict(&b).is_none() && n < 400 {
                let mut t = vec![cu_ix(), cu_ix()];
                t.extend((0..5).map(|_| compute_verification(v.idx, 0, &v.fp, &[*data])));
                match run(&b, &t) {
                    Ok(x) => b = x,
                    Err(_) => break,
                }
                n += 1;
            }
            if v.verdict(&b).unwrap_or(false) != want {
                viol(out, &["C17", "C03"], format!("usage:{:?}", u), format!("a proof for {} key was {}", if want { "the active" } else { "another" }, if want { "rejected" } else { "accepted" }));
            }
            n
        };
        match u {
            U::Pending(same) => {
                let b = world(false);
                let v = V::new(&b, 0, &warden(), 0, 1);
                (decide(&b, &v, if *same { trap() } else { &other }, &vkey_child(1), *same, out), *same as u128)
            }
            U::Active(same) => {
                // the other key becomes the first version of the key
                let mut b = world(true);
                b.write(&vkey_child(1), 1, &src_other);
                let v = V::new(&b, 0, &warden(), 0, 1);
                (decide(&b, &v, if *same { &other } else { trap() }, &vkey_child(1), *same, out), 2 + *same as u128)
            }
            U::Midway(same) => {
                // packets written while a computation is under way do not matter
                let b = world(false);
                let v = V::new(&b, 0, &warden(), 0, 1);
                let p = if *same { trap() } else { &other }.prove(&v.r.signals(), 11, 13);
                let R::Yes(mut b) = attempt(out, &["C17", "C13"], "setup of a request", &b, &v.init_tx(&p), true) else { return (1, 0) };
                let mut n = 0u64;
                while v.verdict(&b).is_none() && n < 400 {
                    let pos = (n * 37) as u32 % 7000;
                    must(&mut b, &[set_vkey_data(&a, 0, pos, &vec![n as u8; PACKET], &[vkey_child(1), d2])], "packet");
                    match run(&b, &v.compute_tx()) {
                        Ok(x) => b = x,
                        Err(_) => break,
                    }
                    n += 1;
                }
                if v.verdict(&b).unwrap_or(false) != *same {
                    viol(out, P, format!("usage:{:?}", u), "writing packets of the next version changed the verdict of a proof");
                }
                (n, 4 + *same as u128)
            }
            U::OtherId(id) => {
                let b = world(true);
                let v = V::new(&b, 0, &warden(), 0, 1);
                let init = init_verification(0, *id, v.trees, &v.r, false, &v.fp, &v.ident, &null_children(v.trees[0])[..1], &null_children(v.trees[1])[..1]);
                attempt(out, P, "request with a key that does not exist", &b, &[init, v.fee_ix(), v.proof_ix(&v.proof())], false);
                let R::Yes(b) = attempt(out, &["C17", "C13"], "setup of a request", &b, &v.init_tx(&v.proof()), true) else { return (1, 0) };
                attempt(out, P, "computation with a key that does not exist", &b, &[compute_verification(0, *id, &v.fp, &[vkey_child(1)])], false);
                (3, *id as u128)
            }
            U::ForeignKey | U::ForeignData | U::NoData => {
                let mut b = world(false);
                let v = V::new(&b, 0, &warden(), 0, 1);
                let R::Yes(x) = attempt(out, &["C17", "C13"], "setup of a request", &b, &v.init_tx(&other.prove(&v.r.signals(), 11, 13)), true) else { return (1, 0) };
                b = x;
                let mut i = v.compute_ix();
                match u {
                    U::ForeignKey => {
                        // a copy of the key account that points to other data
                        let k = key("copied-key");
                        let mut acc = b.get(&vkey_acc(0)).unwrap().clone();
                        let mut d = acc.data.to_vec();
                        d[3..35].copy_from_slice(d2.as_ref());
                        acc.data = Data::new(&d);
                        b.set(k, acc);
                        i.accounts[2].pubkey = k;
                        i.accounts.last_mut().unwrap().pubkey = d2;
                    }
                    U::ForeignData => i.accounts.last_mut().unwrap().pubkey = d2,
                    _ => {
                        i.accounts.pop();
                    }
                }
                // steps that do not need the key may work with any account; a verdict must not be reached
                let mut n = 0;
                while v.verdict(&b).is_none() && n < 2000 {
                    match run(&b, &[cu_ix(), i.clone()]) {
                        Ok(x) => b = x,
                        Err(_) => break,
                    }
                    n += 1;
                }
                if v.verdict(&b) == Some(true) {
                    viol(out, &["C17", "C16", "C03"], format!("usage:{:?}", u), "a proof for another key was accepted with substituted key accounts");
                }
                (n, 7)
            }
        }
    });
}

pub fn run_all(c: &mut Check) {
    if c.wants("key-histories", &["C17"]) {
        let m = M::new();
        let l = c.limits(c.tier(24, 40), c.tier(400_000, 4_000_000));
        let e = explore(&m, &l);
        c.explored("key-histories", "all histories of creation, new version, packet upload, activation, freezing and authority change by two authorities, a stranger and without signature", e);
    }
    if c.wants("key-packets", &["C17"]) {
        packets(c);
    }
    if c.wants("key-usage", &["C17"]) {
        usage(c);
    }
}
