//! Registration, own state, operators and attestations (C28, C29, C33).
use crate::only;
use mcw::*;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

const ALLP: &[&str] = &["C28", "C29", "C33"];

pub fn actor(i: usize) -> Pubkey { key(["warden-a", "warden-b", "warden-c", "stranger", "operator", "operator2", "attester"][i]) }
pub const T0: i64 = 1_680_000_000;

#[derive(Clone)]
pub struct Model0 {
    pub now: u64,
    pub wardens: Vec<ElusivBasicWarden>,
    pub keys: BTreeMap<Pubkey, u32>,
    pub net: Vec<(u32, Vec<u8>, Vec<u8>, u8)>,
    pub ops: BTreeMap<Pubkey, (Identifier, Identifier, Option<u16>)>,
}
#[derive(Clone)]
pub struct St {
    pub b: Bank,
    pub m: Model0,
}
#[derive(Clone, Copy, Debug)]
pub enum Act {
    Register { signer: usize, key: usize, map: usize, id: u32, cfg: u16, attestation: bool },
    State { signer: usize, id: u32, active: bool },
    Lut { signer: usize, id: u32, lut: u8 },
    Tick,
    Confirm { signer: usize, id: u32 },
    Operator { who: usize, v: u16 },
    AddAttester { signer: usize, id: u32 },
    Revoke { signer: usize, id: u32 },
    Vouch { signer: usize, by: u32, id: u32, member: u32, data: u8 },
    Init,
    Close { signer: usize, id: u32 },
}
use Act::*;

fn net_entry(id: u32, c: &ElusivBasicWardenConfig) -> (u32, Vec<u8>, Vec<u8>, u8) {
    let f = &c.basic_warden_features;
    (id, vec![f.rpc as u8, f.relay as u8, f.instant_relay as u8], c.tokens.iter().map(|x| *x as u8).collect(), c.region as u8)
}
fn cfg(k: usize, n: u16, attestation: bool) -> ElusivBasicWardenConfig {
    let mut c = config(&actor(k), n);
    c.warden_features.attestation = attestation;
    if n == 1 {
        c.operator = Some(actor(4)).into();
    }
    if n >= 10 {
        c.operator = Some(actor(n as usize - 10)).into();
    }
    c
}
fn data(d: u8, w: &ElusivBasicWarden) -> (Option<u32>, Timezone, WardenRegion, bool) {
    let c = &w.config;
    match d {
        0 => (None, c.timezone.clone(), c.region, c.uses_proxy),
        1 => (Some(7), c.timezone.clone(), WardenRegion::Antarctica, c.uses_proxy),
        2 => (Some(u32::MAX), zone(3, "Paris"), c.region, c.uses_proxy),
        _ => (Some(0), c.timezone.clone(), c.region, !c.uses_proxy),
    }
}
fn lut(i: u8) -> Pubkey { key(["lut0", "lut1"][i as usize]) }

/// everything that is recorded equals the model
pub fn compare(out: &mut Vec<Viol>, what: &str, b: &Bank, m: &Model0) {
    if next_id(b) as usize != m.wardens.len() {
        viol(out, &["C28"], format!("{}:next-id", what), format!("next id {} after {} registrations", next_id(b), m.wardens.len()));
    }
    for (i, w) in m.wardens.iter().enumerate() {
        match warden_of(b, i as u32) {
            None => viol(out, &["C28"], format!("{}:missing", what), format!("no account for warden {}", i)),
            Some(g) => {
                if ser(&g) == ser(w) {
                    continue;
                }
                let d = |x: bool, p: &'static [&'static str], n: &str, out: &mut Vec<Viol>| {
                    if x {
                        viol(out, p, format!("{}:{}", what, n), format!("after {} the {} of warden {} is wrong: {:?} instead of {:?}", what, n, i, short(&g), short(w)));
                    }
                };
                d(g.is_active != w.is_active, &["C29"], "activation", out);
                d(g.activation_timestamp != w.activation_timestamp, &["C29"], "activation-time", out);
                d(g.lut != w.lut, &["C29"], "lut", out);
                d(g.join_timestamp != w.join_timestamp, &["C28", "C29"], "join-time", out);
                d(g.is_operator_confirmed != w.is_operator_confirmed || g.config.operator.option() != w.config.operator.option(), &["C33", "C29"], "operator", out);
                d(g.asn.option() != w.asn.option() || g.is_metadata_valid.option() != w.is_metadata_valid.option(), &["C33", "C29"], "attestation", out);
                d(g.config != w.config, &["C28", "C29", "C33"], "configuration", out);
            }
        }
    }
    if warden_of(b, m.wardens.len() as u32).is_some() {
        viol(out, &["C28"], format!("{}:extra", what), "a warden account beyond the next id".to_string());
    }
    for i in 0..7 {
        if mapped(b, &actor(i)) != m.keys.get(&actor(i)).copied() {
            viol(out, &["C28"], format!("{}:map", what), format!("key of actor {} is mapped to {:?}", i, mapped(b, &actor(i))));
        }
    }
    let n = net(b);
    if n.count as usize != m.net.len() || n.members != m.net {
        viol(out, &["C28", "C33"], format!("{}:members", what), format!("members {:?} instead of {:?}", n.members, m.net));
    }
    for (k, (i, u, j)) in &m.ops {
        let mut d = b.data(&operator_acc(k));
        match WardenOperatorAccount::new(&mut d) {
            Ok(a) if a.get_key() == *k && a.get_ident() == *i && a.get_url() == *u && a.get_jurisdiction().option() == *j => {}
            Ok(a) => viol(out, &["C33"], format!("{}:operator-account", what), format!("operator {} is recorded as {} {:?}", k, a.get_key(), a.get_jurisdiction().option())),
            Err(_) => viol(out, &["C33"], format!("{}:operator-account", what), format!("operator {} is not recorded", k)),
        }
    }
}
fn short(w: &ElusivBasicWarden) -> String {
    format!("active {} at {} lut {} op {:?}/{} asn {:?} valid {:?} region {} proxy {}", w.is_active, w.activation_timestamp, w.lut, w.config.operator.option(), w.is_operator_confirmed, w.asn.option(), w.is_metadata_valid.option(), w.config.region as u8, w.config.uses_proxy)
}

pub struct Reg {
    pub roles: bool,
    pub init: Vec<(String, St)>,
    pub end: i64,
}
impl Model for Reg {
    type S = St;
    type A = Act;
    fn initial(&self) -> Vec<(String, St)> { self.init.clone() }
    fn key(&self, s: &St) -> u128 { s.b.hash() ^ ((s.b.unix_timestamp as u128) << 64) }
    fn actions(&self, s: &St) -> Vec<Act> {
        let n = s.m.wardens.len() as u32;
        let mut v = vec![Init];
        if s.b.unix_timestamp < self.end {
            v.push(Tick);
        }
        for id in 0..=n {
            for signer in 0..5 {
                for active in [false, true] {
                    v.push(State { signer, id, active });
                }
                if !self.roles || id == 0 {
                    for l in 0..2 {
                        v.push(Lut { signer, id, lut: l });
                    }
                }
            }
            v.push(Close { signer: 3, id });
        }
        if !self.roles {
            for signer in 0..3 {
                let o = (signer + 1) % 3;
                for c in 0..2 {
                    for id in 0..=n + 1 {
                        v.push(Register { signer, key: signer, map: signer, id, cfg: c, attestation: false });
                    }
                }
                v.push(Register { signer, key: signer, map: signer, id: u32::MAX, cfg: 0, attestation: false });
                v.push(Register { signer, key: signer, map: signer, id: n, cfg: 0, attestation: true });
                v.push(Register { signer, key: o, map: signer, id: n, cfg: 0, attestation: false });
                v.push(Register { signer, key: signer, map: o, id: n, cfg: 0, attestation: false });
                v.push(Register { signer, key: o, map: o, id: n, cfg: 0, attestation: false });
                // the operator that a configuration names is not the warden
                for map in [o, signer] {
                    v.push(Register { signer, key: o, map, id: n, cfg: 10 + signer as u16, attestation: false });
                }
                for map in [signer, 4] {
                    v.push(Register { signer: 4, key: signer, map, id: n, cfg: 1, attestation: false });
                }
            }
        } else {
            for id in 0..=n {
                for signer in [0, 3, 4, 5] {
                    v.push(Confirm { signer, id });
                }
                for signer in [0, 2, 3, 6] {
                    v.push(AddAttester { signer, id });
                    v.push(Revoke { signer, id });
                }
            }
            for who in [4, 5] {
                for x in 0..2 {
                    v.push(Operator { who, v: x });
                }
            }
            for by in 0..n {
                for id in 0..n {
                    for d in 0..4 {
                        v.push(Vouch { signer: by as usize, by, id, member: id, data: d });
                    }
                    v.push(Vouch { signer: 3, by, id, member: id, data: 1 });
                    v.push(Vouch { signer: (by as usize + 1) % 3, by, id, member: id, data: 1 });
                    v.push(Vouch { signer: by as usize, by, id, member: (id + 1) % n, data: 1 });
                    v.push(Vouch { signer: by as usize, by, id, member: n, data: 1 });
                    v.push(Vouch { signer: by as usize, by, id, member: 511, data: 1 });
                    v.push(Vouch { signer: by as usize, by, id, member: 512, data: 1 });
                }
            }
        }
        v
    }
    fn step(&self, s: &St, a: &Act, out: &mut Vec<Viol>) -> Option<St> {
        let m = &s.m;
        let b = &s.b;
        let mut e = m.clone();
        let exists = |id: u32| (id as usize) < m.wardens.len();
        let owns = |signer: usize, id: u32| exists(id) && m.wardens[id as usize].config.key == actor(signer);
        let name = format!("{:?}", a).split(' ').next().unwrap().to_string();
        // (instruction, allowed, changed accounts, property of wrong acceptance, of wrong refusal)
        let (i, allowed, touch, pa, pr): (_, Option<bool>, Vec<Pubkey>, &'static [&'static str], &'static [&'static str]) = match *a {
            Tick => {
                let mut n = s.clone();
                n.b.unix_timestamp += 86_400 * 3 + 17;
                n.m.now = n.b.unix_timestamp as u64;
                return Some(n);
            }
            Init => (init(&actor(3)), Some(false), vec![], &["C28", "C19"], &[]),
            Close { signer, id } => (close_account(&actor(signer), &actor(signer), &warden_acc(id)), Some(false), vec![], &["C28", "C29"], &[]),
            Register { signer, key, map, id, cfg: n, attestation } => {
                let c = cfg(key, n, attestation);
                let ok = key == signer && map == signer && id as usize == m.wardens.len() && !m.keys.contains_key(&actor(signer)) && !attestation;
                if ok {
                    e.wardens.push(ElusivBasicWarden {
                        config: c.clone(), lut: Pubkey::new_from_array([0; 32]), asn: None.into(), is_operator_confirmed: false, is_metadata_valid: None.into(),
                        is_active: false, join_timestamp: m.now, activation_timestamp: m.now,
                    });
                    e.keys.insert(actor(signer), id);
                    e.net.push(net_entry(id, &c));
                }
                let t = vec![actor(signer), warden_acc(id), map_acc(&actor(signer)), wardens(), basic_network()];
                (register(&actor(signer), &actor(map), id, c), Some(ok), t, if attestation { &["C33"] } else { &["C28"] }, &["C28"])
            }
            State { signer, id, active } => {
                let ok = owns(signer, id);
                if ok {
                    let w = &mut e.wardens[id as usize];
                    if w.is_active != active {
                        w.activation_timestamp = m.now;
                    }
                    w.is_active = active;
                }
                (update_state(&actor(signer), id, active), Some(ok), vec![warden_acc(id)], &["C29"], &["C29"])
            }
            Lut { signer, id, lut: l } => {
                let ok = owns(signer, id);
                if ok {
                    e.wardens[id as usize].lut = lut(l);
                }
                (update_lut(&actor(signer), id, &lut(l)), Some(ok), vec![warden_acc(id)], &["C29"], &["C29"])
            }
            Confirm { signer, id } => {
                // a warden that named nobody can be claimed by any operator (see the driver `operator-consent`)
                let ok = exists(id) && m.wardens[id as usize].config.operator.option().map_or(true, |o| o == actor(signer));
                if ok {
                    let w = &mut e.wardens[id as usize];
                    w.is_operator_confirmed = true;
                    w.config.operator = Some(actor(signer)).into();
                }
                let unnamed = exists(id) && m.wardens[id as usize].config.operator.option().is_none();
                (confirm_operation(&actor(signer), id), if unnamed { None } else { Some(ok) }, vec![warden_acc(id)], &["C33", "C29"], &["C33"])
            }
            Operator { who, v } => {
                let ok = !m.ops.contains_key(&actor(who));
                let (i, u, j) = (text(&format!("operator {}", v)), text(&format!("https://{}", v)), if v == 0 { None } else { Some(40 + v) });
                if ok {
                    e.ops.insert(actor(who), (i, u, j));
                }
                let (i, u) = (text(&format!("operator {}", v)), text(&format!("https://{}", v)));
                (register_operator(&actor(who), i, u, j), Some(ok), vec![actor(who), operator_acc(&actor(who))], &["C33"], &["C33"])
            }
            AddAttester { signer, id } => (add_attester(&actor(signer), id, &actor(6)), Some(false), vec![], &["C33"], &[]),
            Revoke { signer, id } => (revoke_attester(&actor(signer), id, &actor(6)), Some(false), vec![], &["C33"], &[]),
            Vouch { signer, by, id, member, data: d } => {
                let (asn, timezone, region, proxy) = data(d, &m.wardens[id as usize]);
                let ok = owns(signer, by) && m.wardens[by as usize].config.warden_features.attestation && exists(id) && m.net.get(member as usize).map(|x| x.0) == Some(id);
                if ok {
                    let w = &mut e.wardens[id as usize];
                    w.is_metadata_valid = Some(w.config.timezone == timezone && w.config.region == region && w.config.uses_proxy == proxy).into();
                    w.asn = asn.into();
                    w.config.timezone = timezone.clone();
                    w.config.region = region;
                    w.config.uses_proxy = proxy;
                    e.net[member as usize].3 = region as u8;
                }
                let at = mcw::Attest { by, id, member, asn, timezone, region, proxy };
                (attest(&actor(signer), &at), if ok && by == id { None } else { Some(ok) }, vec![warden_acc(id), basic_network()], &["C33", "C29"], &["C33"])
            }
        };
        let res = execute(b, &[i]);
        match (&res, allowed) {
            (Ok(_), Some(false)) => {
                viol(out, pa, format!("{}:accepted", name), format!("{:?} was accepted", a));
                return None;
            }
            (Err(err), Some(true)) => {
                viol(out, pr, format!("{}:refused", name), format!("{:?} was refused: {:?}", a, err));
                return None;
            }
            _ => {}
        }
        let post = res.ok()?;
        only(out, ALLP, &name, b, &post, &touch);
        compare(out, &name, &post, &e);
        Some(St { b: post, m: e })
    }
}

/// `n` registered wardens
pub fn start(n: usize) -> St {
    let all: Vec<Pubkey> = (0..7).map(actor).collect();
    let mut b = genesis(&all, T0);
    let mut m = Model0 { now: T0 as u64, wardens: vec![], keys: BTreeMap::new(), net: vec![], ops: BTreeMap::new() };
    for i in 0..n {
        let c = cfg(i, i as u16, false);
        b = execute(&b, &[register(&actor(i), &actor(i), i as u32, c.clone())]).expect("register");
        m.wardens.push(ElusivBasicWarden {
            config: c.clone(), lut: Pubkey::new_from_array([0; 32]), asn: None.into(), is_operator_confirmed: false, is_metadata_valid: None.into(),
            is_active: false, join_timestamp: T0 as u64, activation_timestamp: T0 as u64,
        });
        m.keys.insert(actor(i), i as u32);
        m.net.push(net_entry(i as u32, &c));
    }
    St { b, m }
}

pub fn run_all(c: &mut Check) {
    if c.wants("warden-registry", &["C28", "C29", "C33"]) {
        let m = Reg { roles: false, init: vec![("empty".into(), start(0))], end: T0 + 86_400 * c.tier(3, 6) };
        let e = explore(&m, &c.limits(c.tier(5, 7), c.tier(400_000, 4_000_000)));
        c.explored("warden-registry", "3 keys registering (right/wrong key, map, id, configuration), updating state and lookup table, 2-3 points in time", e);
    }
    if c.wants("warden-roles", &["C33", "C29"]) {
        let mut init = vec![];
        for flags in 0..8u32 {
            let mut s = start(3);
            for i in 0..3 {
                if flags >> i & 1 == 1 {
                    s.m.wardens[i].config.warden_features.attestation = true;
                    put_warden(&mut s.b, i as u32, &s.m.wardens[i].clone());
                }
            }
            init.push((format!("attesters {:03b}", flags), s));
        }
        let m = Reg { roles: true, init, end: T0 + 86_400 };
        let e = explore(&m, &c.limits(c.tier(3, 4), c.tier(300_000, 4_000_000)));
        c.explored("warden-roles", "3 registered wardens, every subset of attesters, 2 operators (one named by a warden), attestations with every wrong signer/member/attester", e);
    }
    if c.wants("operator-consent", &["C33"]) {
        let cases: Vec<usize> = vec![0, 1, 3, 4, 5];
        c.grid("operator-consent", "a warden that named no operator is claimed by every other party", &cases, |who, out| {
            let s = start(3);
            // warden 0 named nobody
            if *who != 0 {
                if let Ok(b) = execute(&s.b, &[confirm_operation(&actor(*who), 0)]) {
                    let w = warden_of(&b, 0).unwrap();
                    if w.config.operator.option() == Some(actor(*who)) {
                        viol(out, &["C33"], "operator-unnamed", format!("actor {} became the operator of a warden that did not name an operator, without the warden's signature", who));
                    }
                }
            }
            (1, *who as u128)
        });
    }
    if c.wants("warden-limits", &["C28"]) {
        // (members, next id, key)
        let mut cases = vec![];
        for members in [0u32, 1, 510, 511, 512, 513, u32::MAX] {
            for next in [0u32, 1, 2, 511, 512, 65_535, 65_536, u32::MAX - 1, u32::MAX] {
                for id in [0, next.wrapping_sub(1), next, next.wrapping_add(1)] {
                    cases.push((members, next, id));
                }
            }
        }
        c.grid("warden-limits", "registration at every boundary of the member list and of the id counter", &cases, |(members, next, id), out| {
            let mut s = start(0);
            set_next_id(&mut s.b, *next);
            s.b.write(&basic_network(), NET_COUNT, &members.to_le_bytes());
            let k = actor(0);
            let res = execute(&s.b, &[register(&k, &k, *id, config(&k, 1))]);
            let ok = id == next && *members < 512 && *next < u32::MAX;
            if res.is_ok() != ok {
                viol(out, &["C28"], if ok { "limits:refused" } else { "limits:accepted" }, format!("registration as {} with {} members and next id {}: {:?}", id, members, next, res.as_ref().err()));
            }
            if let Ok(b) = res {
                let n = net(&b);
                let last = n.members.last().cloned();
                if next_id(&b) != next.wrapping_add(1) || n.count != members + 1 || last != Some(net_entry(*id, &config(&k, 1))) || mapped(&b, &k) != Some(*id) {
                    viol(out, &["C28"], "limits:recorded", format!("registration as {}: next {}, count {}, last {:?}", id, next_id(&b), n.count, last));
                }
                only(out, &["C28"], "register", &s.b, &b, &[k, warden_acc(*id), map_acc(&k), wardens(), basic_network()]);
                // everything else in the network account is unchanged
                let (x, y) = (net(&{ let mut t = s.b.clone(); t.write(&basic_network(), NET_COUNT, &512u32.to_le_bytes()); t }), net(&{ let mut t = b.clone(); t.write(&basic_network(), NET_COUNT, &512u32.to_le_bytes()); t }));
                for i in 0..512 {
                    if i as u32 != *members && x.members[i] != y.members[i] {
                        viol(out, &["C28"], "limits:other-member", format!("member entry {} changed by a registration at {}", i, members));
                    }
                }
            }
            (1, (*members as u128) << 64 | (*next as u128) << 32 | *id as u128)
        });
    }
}
