//! APA proposals (C32).
use crate::only;
use mcw::*;
use solana_program::pubkey::Pubkey;
use borsh::BorshSerialize;

const A: &[&str] = &["C32"];
fn who(i: usize) -> Pubkey { key(["proponent0", "proponent1", "freezer"][i]) }
fn target(i: usize) -> Pubkey { key(["target0", "target1"][i]) }
/// 0: the token's mint with the authority `freezer`, 1: the mint of no supported token with authority `freezer`, 2: no account
fn mint(token: u16, kind: u8) -> Pubkey {
    match kind {
        0 => TOKENS[token as usize].mint,
        1 => key("foreign-mint"),
        _ => key("nothing"),
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct P {
    who: usize,
    id: i8,
    freezing: bool,
    token: Option<u16>,
    mint: (u16, u8),
    target: usize,
    forged: bool,
}
#[derive(Clone)]
struct St {
    b: Bank,
    made: Vec<Vec<u8>>,
}
#[derive(Clone, Copy, Debug)]
enum Act {
    Propose(P),
    Tick,
    Init,
}
struct M {
    tick: i64,
    /// freeze authority by token (index 1..): None, Some(actor)
    auth: Vec<Option<usize>>,
    small: bool,
}
fn tokens() -> u16 { TOKENS.len() as u16 }
fn proposal(p: &P, n: usize) -> ApaProposal {
    ApaProposal {
        proponent: if p.forged { key("forged") } else { who(p.who) },
        proponent_role: if p.freezing { ApaProponentRole::TokenFreezingAuthority } else { ApaProponentRole::Default },
        timestamp: if p.forged { 77 } else { 0 },
        target: target(p.target),
        level: [ApaLevel::Flag1, ApaLevel::Flag2, ApaLevel::Outcast].into_iter().nth(n % 3).unwrap(),
        token_constraint: p.token.into(),
        reason: text(&format!("reason {}", n)),
    }
}
impl M {
    fn allowed(&self, p: &P) -> bool {
        let role = if p.freezing {
            match p.token {
                None | Some(0) => false,
                Some(t) if t >= tokens() => false,
                Some(t) => p.mint == (t, 0) && self.auth[t as usize] == Some(p.who),
            }
        } else {
            p.token.map_or(true, |t| t < tokens())
        };
        role && p.id == 0
    }
}
impl Model for M {
    type S = St;
    type A = Act;
    fn initial(&self) -> Vec<(String, St)> {
        let all: Vec<Pubkey> = (0..3).map(who).collect();
        let mut b = genesis(&all, 1_700_000_000);
        for t in 1..tokens() {
            token_mint(&mut b, &mint(t, 0), self.auth[t as usize].map(who));
        }
        token_mint(&mut b, &key("foreign-mint"), Some(who(2)));
        vec![(format!("authorities {:?}", self.auth), St { b, made: vec![] })]
    }
    fn key(&self, s: &St) -> u128 { s.b.hash() ^ (s.b.unix_timestamp as u128) << 64 }
    fn actions(&self, s: &St) -> Vec<Act> {
        let mut v = vec![Act::Init];
        if s.b.unix_timestamp < self.tick {
            v.push(Act::Tick);
        }
        for w in 0..3 {
            for freezing in [false, true] {
                for token in [None, Some(0), Some(1), Some(tokens() - 1), Some(tokens()), Some(u16::MAX)] {
                    let mints: Vec<(u16, u8)> = if freezing { vec![(1, 0), (tokens() - 1, 0), (1, 1), (1, 2)] } else { vec![(1, 0), (1, 2)] };
                    for m in mints {
                        for id in if self.small { vec![0] } else { vec![-1, 0, 1] } {
                            for target in if self.small && w > 0 { vec![0] } else { vec![0, 1] } {
                                v.push(Act::Propose(P { who: w, id, freezing, token, mint: m, target, forged: w == 1 }));
                            }
                        }
                    }
                }
            }
        }
        v.dedup_by(|a, b| matches!((a, b), (Act::Propose(x), Act::Propose(y)) if x == y));
        v
    }
    fn step(&self, s: &St, a: &Act, out: &mut Vec<Viol>) -> Option<St> {
        let n = s.made.len();
        let p = match a {
            Act::Tick => {
                let mut t = s.clone();
                t.b.unix_timestamp += 1000;
                return Some(t);
            }
            Act::Init => {
                if execute(&s.b, &[init(&who(0))]).is_ok() {
                    viol(out, A, "init:twice", "the program was initialised twice");
                }
                return None;
            }
            Act::Propose(p) => p,
        };
        let id = (n as u32).wrapping_add(p.id as i32 as u32);
        let pr = proposal(p, n);
        let mut want = proposal(p, n);
        want.timestamp = s.b.unix_timestamp as u64;
        want.proponent = who(p.who);
        let ok = self.allowed(p);
        match execute(&s.b, &[propose(&who(p.who), id, &mint(p.mint.0, p.mint.1), pr)]) {
            Err(e) => {
                if ok {
                    viol(out, A, "propose:refused", format!("{:?} was refused: {:?}", p, e));
                }
                None
            }
            Ok(post) => {
                if !ok {
                    let k = if p.freezing && p.token.is_none() { "propose:role-without-token" } else { "propose:accepted" };
                    viol(out, A, k, format!("{:?} was accepted (authorities {:?})", p, self.auth));
                    return None;
                }
                only(out, A, "propose", &s.b, &post, &[who(p.who), proposal_acc(id), proposals(), target_acc(&target(p.target))]);
                let mut e = St { b: post, made: s.made.clone() };
                e.made.push(want.try_to_vec().unwrap());
                Some(e)
            }
        }
    }
    fn check(&self, s: &St, out: &mut Vec<Viol>) {
        if u32_at(&s.b, &proposals(), 2) as usize != s.made.len() {
            viol(out, A, "count", format!("{} proposals counted, {} made", u32_at(&s.b, &proposals(), 2), s.made.len()));
        }
        for (i, w) in s.made.iter().enumerate() {
            let mut d = s.b.data(&proposal_acc(i as u32));
            let g = ApaProposalAccount::new(&mut d).map(|a| a.get_proposal().try_to_vec().unwrap()).unwrap_or_default();
            if g != *w {
                viol(out, A, "content", format!("proposal {} is not recorded as submitted", i));
            }
        }
        for i in 0..2 {
            if let Some(a) = s.b.get(&target_acc(&target(i))) {
                if a.owner == pid() && a.data.slice(2, 5)[0] != 0 {
                    viol(out, A, "target-map", format!("target {} is mapped to a proposal before any decision", i));
                }
            }
        }
    }
}

pub fn run_all(c: &mut Check) {
    if c.wants("proposals", A) {
        let mut ms = vec![];
        for auth in [vec![None, Some(0), Some(2)], vec![None, Some(1), None], vec![None, None, Some(0)]] {
            let mut a = auth.clone();
            a.resize(TOKENS.len().max(3), Some(2));
            for small in [false, true] {
                let tick = 1_700_000_000 + if small { 1000 } else { 0 };
                ms.push((format!("freeze authorities {:?} small {}", a, small), M { tick, auth: a.clone(), small }));
            }
        }
        c.explore_all("proposals", c.tier(3, 4), c.tier(300_000, 3_000_000), &ms);
    }
    if c.wants("proposal-limits", A) {
        let mut cases = vec![];
        for n in [0u32, 1, 255, 256, 65_535, 65_536, u32::MAX - 1, u32::MAX] {
            for id in [0, n.wrapping_sub(1), n, n.wrapping_add(1)] {
                cases.push((n, id));
            }
        }
        c.grid("proposal-limits", "proposal counter at its boundaries", &cases, |(n, id), out| {
            let all: Vec<Pubkey> = (0..3).map(who).collect();
            let mut b = genesis(&all, 1_700_000_000);
            b.write(&proposals(), 2, &n.to_le_bytes());
            let p = P { who: 0, id: 0, freezing: false, token: None, mint: (1, 2), target: 0, forged: false };
            let ok = id == n && *n < u32::MAX;
            let res = execute(&b, &[propose(&who(0), *id, &mint(1, 2), proposal(&p, 0))]);
            if res.is_ok() != ok {
                viol(out, A, if ok { "limits:refused" } else { "limits:accepted" }, format!("proposal {} as number {}: {:?}", id, n, res.as_ref().err()));
            }
            if let Ok(p) = res {
                if u32_at(&p, &proposals(), 2) != n.wrapping_add(1) {
                    viol(out, A, "limits:count", format!("count {} after proposal {}", u32_at(&p, &proposals(), 2), n));
                }
            }
            (1, (*n as u128) << 32 | *id as u128)
        });
    }
}
