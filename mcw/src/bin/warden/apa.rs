//! Genesis of the APA network (C31): closed exploration of the whole protocol.
use crate::only;
use mcw::*;
use solana_program::hash::hashv;
use solana_program::pubkey::Pubkey;

const N: usize = 6;
fn warden(i: usize) -> Pubkey { key(&format!("apa-warden{}", i)) }
fn start_q(i: usize, shared: bool) -> [u8; 558] {
    let mut q = [0; 558];
    for (j, x) in q.iter_mut().enumerate() {
        *x = (i * 7 + j * 3) as u8;
    }
    q[400..432].copy_from_slice(&xkey(i, shared).to_bytes());
    q
}
fn end_q(i: usize, v: u8) -> [u8; 558] { [i as u8 * 16 + v + 1; 558] }
fn xkey(i: usize, shared: bool) -> Pubkey { key(&format!("exchange{}", if shared && i == 5 { 4 } else { i })) }

#[derive(Clone)]
struct St {
    b: Bank,
    /// warden ids in the order of their applications
    started: Vec<usize>,
    /// version of the completed quote by member
    done: Vec<Option<u8>>,
    confirmed: Vec<bool>,
}
#[derive(Clone, Copy, Debug)]
enum Act {
    Start { w: usize, id: u32 },
    Complete { w: usize, id: u32, v: u8 },
    /// message: 0 = the agreed one, 1 = another, 2 = zero, 3 = of one member only; signer: exchange key of warden k, or (100+k) the warden's own key
    Confirm { id: u32, signer: usize, msg: u8 },
}
use Act::*;
struct M {
    order: Vec<usize>,
    shared: bool,
    versions: u8,
}
impl St {
    fn open(&self) -> bool { self.done.iter().filter(|d| d.is_some()).count() < N }
    fn message(&self, shared: bool) -> [u8; 32] {
        let mut v = vec![];
        for (i, w) in self.started.iter().enumerate() {
            if let Some(e) = self.done[i] {
                v.extend_from_slice(&start_q(*w, shared));
                v.extend_from_slice(&end_q(*w, e));
            }
        }
        hashv(&[&v]).to_bytes()
    }
}
const A: &[&str] = &["C31"];
const MEM: usize = 2 + 4 + 33;
const QS: usize = MEM + 4 * N;
const QE: usize = QS + 558 * N;
const XK: usize = QE + 559 * N;
const CF: usize = XK + 32 * N;

impl M {
    fn compare(&self, out: &mut Vec<Viol>, what: &str, s: &St) {
        let d = s.b.data(&apa_network());
        assert_eq!(d.len(), CF + N, "layout of the APA network account");
        let cnt = u32_at(&s.b, &apa_network(), 2) as usize;
        if cnt != s.started.len() {
            viol(out, A, format!("{}:count", what), format!("{} members recorded, {} applied", cnt, s.started.len()));
        }
        if d[6] != 0 {
            viol(out, A, format!("{}:key", what), "a network key appeared".to_string());
        }
        for (i, w) in s.started.iter().enumerate() {
            let id = u32::from_le_bytes(d[MEM + 4 * i..MEM + 4 * i + 4].try_into().unwrap());
            if id != *w as u32 || d[QS + 558 * i..QS + 558 * (i + 1)] != start_q(*w, self.shared)[..] || d[XK + 32 * i..XK + 32 * (i + 1)] != xkey(*w, self.shared).to_bytes()[..] {
                viol(out, A, format!("{}:member", what), format!("member {} is not the application of warden {}", i, w));
            }
            let mut a = s.b.data(&apa_warden(*w as u32));
            match ApaWardenAccount::new(&mut a) {
                Ok(a) if a.get_warden_id() == *w as u32 && a.get_network_member_index() == i as u32 => {}
                _ => viol(out, A, format!("{}:apa-account", what), format!("account of applicant {}", w)),
            }
        }
        for i in 0..N {
            let o = QE + 559 * i;
            let have = d[o] == 1;
            let want = s.done.get(i).copied().flatten();
            if have != want.is_some() || (have && d[o + 1..o + 559] != end_q(s.started[i], want.unwrap())[..]) {
                viol(out, A, format!("{}:quote", what), format!("second half of the quote of member {}", i));
            }
            let c = d[CF + i] == 1;
            if c != s.confirmed.get(i).copied().unwrap_or(false) {
                viol(out, A, format!("{}:confirmation", what), format!("confirmation of member {} is {}", i, c));
            }
        }
    }
}
impl Model for M {
    type S = St;
    type A = Act;
    fn initial(&self) -> Vec<(String, St)> {
        let mut all: Vec<Pubkey> = (0..8).map(warden).collect();
        all.extend((0..8).map(|i| xkey(i, false)));
        let mut b = genesis(&all, 1_700_000_000);
        for i in 0..7 {
            b = execute(&b, &[register(&warden(i), &warden(i), i as u32, config(&warden(i), i as u16))]).expect("register");
        }
        vec![(format!("order {:?} shared {}", self.order, self.shared), St { b, started: vec![], done: vec![], confirmed: vec![] })]
    }
    fn key(&self, s: &St) -> u128 { s.b.hash() }
    fn actions(&self, s: &St) -> Vec<Act> {
        let mut v = vec![];
        // the next applicant in this model's order, those that applied already, and (only when the places are taken) everybody else
        for w in 0..8 {
            let pos = self.order.iter().position(|x| *x == w);
            if pos.map_or(true, |p| p <= s.started.len()) || w == 7 {
                if w != 6 || s.started.len() == N {
                    v.push(Start { w, id: w as u32 });
                }
            }
        }
        v.push(Start { w: self.order[0], id: self.order[1] as u32 });
        v.push(Start { w: 7, id: 0 });
        if s.started.len() < N {
            v.push(Start { w: self.order[s.started.len()], id: 7 });
        }
        for w in 0..8 {
            for x in 0..self.versions {
                v.push(Complete { w, id: w as u32, v: x });
            }
            v.push(Complete { w, id: (w as u32 + 1) % 8, v: 0 });
        }
        for id in 0..8 {
            for k in [id as usize, (id as usize + 1) % 8, (id as usize + 5) % 8, 100 + id as usize] {
                v.push(Confirm { id, signer: k, msg: 0 });
            }
            for m in 1..4 {
                v.push(Confirm { id, signer: id as usize, msg: m });
            }
        }
        v
    }
    fn step(&self, s: &St, a: &Act, out: &mut Vec<Viol>) -> Option<St> {
        let mut e = s.clone();
        let reg = |w: usize| w < 7;
        let member = |id: u32| s.started.iter().position(|x| *x == id as usize);
        let (name, i, ok, touch) = match *a {
            Start { w, id } => {
                let ok = reg(w) && id == w as u32 && member(id).is_none() && s.started.len() < N;
                if ok {
                    e.started.push(w);
                    e.done.push(None);
                    e.confirmed.push(false);
                }
                ("start", apa_start(&warden(w), id, &start_q(w, self.shared)), ok, vec![warden(w), apa_warden(id), apa_network()])
            }
            Complete { w, id, v } => {
                let ok = reg(w) && id == w as u32 && member(id).is_some() && s.open();
                if ok {
                    e.done[member(id).unwrap()] = Some(v);
                }
                ("complete", apa_complete(&warden(w), id, &end_q(w, v)), ok, vec![apa_network()])
            }
            Confirm { id, signer, msg } => {
                let key_of = if signer >= 100 { warden(signer - 100) } else { xkey(signer, self.shared) };
                let m = match msg {
                    0 => s.message(self.shared),
                    1 => {
                        let mut m = s.message(self.shared);
                        m[31] ^= 1;
                        m
                    }
                    2 => [0; 32],
                    _ => hashv(&[&start_q(0, self.shared), &end_q(0, 0)]).to_bytes(),
                };
                let ok = member(id).map_or(false, |i| !s.open() && !s.confirmed[i] && key_of == xkey(id as usize, self.shared) && msg == 0);
                if ok {
                    e.confirmed[member(id).unwrap()] = true;
                }
                ("confirm", apa_confirm(&key_of, id, m), ok, vec![apa_network()])
            }
        };
        match execute(&s.b, &[i]) {
            Err(err) => {
                if ok {
                    viol(out, A, format!("{}:refused", name), format!("{:?} was refused: {:?}", a, err));
                }
                None
            }
            Ok(post) => {
                if !ok {
                    viol(out, A, format!("{}:accepted", name), format!("{:?} was accepted ({} applied, {} completed, confirmed {:?})", a, s.started.len(), s.done.iter().flatten().count(), s.confirmed));
                    return None;
                }
                only(out, A, name, &s.b, &post, &touch);
                e.b = post;
                self.compare(out, name, &e);
                Some(e)
            }
        }
    }
    fn check(&self, s: &St, out: &mut Vec<Viol>) {
        let mut d = s.b.data(&apa_network());
        let n = elusiv_warden_network::network::ApaWardenNetworkAccount::new(&mut d).unwrap();
        let all = s.confirmed.iter().filter(|x| **x).count() == N;
        if n.is_confirmed() != all || n.is_application_phase() != s.open() || n.is_confirmation_phase() != (!s.open() && !all) {
            viol(out, A, "phase", format!("phases: application {} confirmation {} confirmed {} with confirmations {:?}", n.is_application_phase(), n.is_confirmation_phase(), n.is_confirmed(), s.confirmed));
        }
        if n.confirmation_message() != s.message(self.shared) {
            viol(out, A, "message", "the agreed message is not the hash of all quotes".to_string());
        }
    }
}

pub fn run_all(c: &mut Check) {
    if c.wants("apa-genesis", A) {
        let mut ms = vec![];
        let mut orders = vec![vec![0, 1, 2, 3, 4, 5], vec![5, 4, 3, 2, 1, 0], vec![2, 0, 4, 1, 5, 3]];
        if c.thorough {
            for i in 0..6 {
                for j in 0..i {
                    let mut o = orders[0].clone();
                    o.swap(i, j);
                    orders.push(o);
                }
            }
        }
        for o in orders {
            for shared in [false, true] {
                let v = if c.thorough { 2 } else { 1 + (o[0] == 0 && !shared) as u8 };
                ms.push((format!("order {:?} shared key {} quote versions {}", o, shared, v), M { order: o.clone(), shared, versions: v }));
            }
        }
        c.explore_all("apa-genesis", 20, c.tier(400_000, 4_000_000), &ms);
    }
}
