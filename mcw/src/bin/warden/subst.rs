//! Substitution of accounts (C16) in every instruction of the warden network.
use crate::registry::{actor, T0};
use mcw::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_program::{system_program, sysvar};
use svm::subst::*;

const P: &[&str] = &["C16", "C28", "C29", "C30", "C31", "C32", "C33"];
/// the properties that prescribe the accounts of an instruction
fn concerns(scene: &str) -> &'static [&'static str] {
    let is = |p: &[&str]| p.iter().any(|p| scene.starts_with(p));
    if is(&["track", "open-stats"]) {
        &["C16", "C30"]
    } else if is(&["propose"]) {
        &["C16", "C32"]
    } else if is(&["apa-"]) {
        &["C16", "C31"]
    } else if is(&["attest", "operator", "confirm-operation"]) {
        &["C16", "C29", "C33"]
    } else {
        &["C16", "C28", "C29", "C33"]
    }
}
fn xkey(i: usize) -> Pubkey { key(&format!("x{}", i)) }
fn apaw(i: usize) -> Pubkey { key(&format!("apa-warden{}", i)) }
fn quote(i: usize) -> [u8; 558] {
    let mut q = [i as u8 + 1; 558];
    q[400..432].copy_from_slice(&xkey(i).to_bytes());
    q
}
fn text_role(p: &Pubkey, freezing: bool, token: Option<u16>, target: &str) -> ApaProposal {
    ApaProposal {
        proponent: *p,
        proponent_role: if freezing { ApaProponentRole::TokenFreezingAuthority } else { ApaProponentRole::Default },
        timestamp: 0,
        target: key(target),
        level: ApaLevel::Flag2,
        token_constraint: token.into(),
        reason: text("a reason"),
    }
}
fn scene(name: &str, b: &Bank, ixs: Vec<Instruction>, at: usize, free: &[usize]) -> Scene {
    Scene { name: name.into(), bank: b.clone(), ixs, at, free: free.to_vec(), mask: vec![] }
}
fn must(b: &mut Bank, i: Instruction) { *b = execute(b, &[i]).expect("setup") }
fn date_year() -> u16 { 2023 }

pub fn scenes() -> Vec<Scene> {
    let mut v = vec![];
    let mut all: Vec<Pubkey> = (0..7).map(actor).collect();
    all.extend((0..8).map(xkey));
    all.extend((0..8).map(apaw));
    // initialisation
    let mut b = Bank::default();
    b.unix_timestamp = T0;
    for a in &all {
        fund(&mut b, a, 1000 * SOL);
    }
    v.push(scene("init", &b, vec![init(&actor(0))], 0, &[0]));
    // registration
    let mut b = genesis(&all, T0);
    let cfg = |k: usize, n: u16| {
        let mut c = config(&actor(k), n);
        c.operator = Some(actor(4)).into();
        c
    };
    v.push(scene("register-first", &b, vec![register(&actor(0), &actor(0), 0, cfg(0, 0))], 0, &[]));
    must(&mut b, register(&actor(0), &actor(0), 0, cfg(0, 0)));
    v.push(scene("register", &b, vec![register(&actor(1), &actor(1), 1, cfg(1, 1))], 0, &[]));
    must(&mut b, register(&actor(1), &actor(1), 1, cfg(1, 1)));
    for active in [false, true] {
        v.push(scene(if active { "activate" } else { "deactivate" }, &b, vec![update_state(&actor(1), 1, active)], 0, &[]));
    }
    let lut = key("lut0");
    let mut s = scene("lut", &b, vec![update_lut(&actor(1), 1, &lut)], 0, &[2]);
    let d = execute(&b, &s.ixs).unwrap().data(&warden_acc(1));
    let off = d.windows(32).position(|w| w == lut.to_bytes()).expect("lut");
    s.mask = vec![(warden_acc(1), off, 32)];
    v.push(s);
    // operators
    v.push(scene("operator", &b, vec![register_operator(&actor(4), text("op"), text("url"), Some(3))], 0, &[]));
    must(&mut b, register_operator(&actor(4), text("op"), text("url"), Some(3)));
    v.push(scene("confirm-operation", &b, vec![confirm_operation(&actor(4), 1)], 0, &[]));
    // attestation
    let mut w0 = warden_of(&b, 0).unwrap();
    w0.config.warden_features.attestation = true;
    put_warden(&mut b, 0, &w0);
    for data in 0..2 {
        let c = cfg(1, 1);
        let a = Attest { by: 0, id: 1, member: 1, asn: Some(7), timezone: c.timezone.clone(), region: if data == 0 { c.region } else { WardenRegion::Antarctica }, proxy: c.uses_proxy };
        v.push(scene(["attest", "attest-other"][data], &b, vec![attest(&actor(0), &a)], 0, &[]));
    }
    // statistics
    let y = date_year();
    v.push(scene("open-stats", &b, vec![open_stats(&actor(0), &actor(3), y)], 0, &[1]));
    for w in 0..3 {
        must(&mut b, open_stats(&actor(w), &actor(3), y));
        must(&mut b, open_stats(&actor(w), &actor(3), y + 1));
    }
    for (tag, pos) in [(2u8, 0usize), (13, 0), (14, 0)] {
        let accounts: Vec<AccountMeta> = (0..6).map(|i| if i == pos { mcw::w(actor(0)) } else { r(key(&format!("filler{}", i))) }).collect();
        let main = Instruction { program_id: main_program(), accounts, data: vec![tag, 1, 2, 3] };
        for can_fail in [false, true] {
            let mut s = scene(&format!("track-{}-{}", tag, can_fail), &b, vec![main.clone(), track(&actor(0), y, can_fail)], 1, &[]);
            // tracking in the name of another warden does nothing when it may not fail
            if !can_fail {
                s.mask = vec![];
            }
            v.push(s);
        }
    }
    // proposals
    let mut p = b.clone();
    token_mint(&mut p, &TOKENS[1].mint, Some(actor(5)));
    token_mint(&mut p, &TOKENS[2].mint, Some(actor(4)));
    for (n, freezing, token) in [("propose", false, None), ("propose-token", false, Some(1)), ("propose-freezing", true, Some(1))] {
        let pr = text_role(&actor(5), freezing, token, "target0");
        let mut s = scene(n, &p, vec![propose(&actor(5), 0, &TOKENS[1].mint, pr)], 0, if freezing { &[] } else { &[0, 4] });
        s.mask = vec![(proposal_acc(0), 2, 32)];
        v.push(s);
    }
    must(&mut p, propose(&actor(5), 0, &TOKENS[1].mint, text_role(&actor(5), false, None, "target0")));
    let mut s = scene("propose-again", &p, vec![propose(&actor(5), 1, &TOKENS[1].mint, text_role(&actor(5), false, None, "target0"))], 0, &[0, 4]);
    s.mask = vec![(proposal_acc(1), 2, 32)];
    v.push(s);
    // genesis of the APA network
    for i in 0..7u32 {
        must(&mut b, register(&apaw(i as usize), &apaw(i as usize), 2 + i, config(&apaw(i as usize), i as u16)));
    }
    for i in 0..6u32 {
        let ix = apa_start(&apaw(i as usize), 2 + i, &quote(i as usize));
        if [0, 1, 5].contains(&i) {
            v.push(scene(&format!("apa-start-{}", i), &b, vec![ix.clone()], 0, &[]));
        }
        must(&mut b, ix);
    }
    for i in 0..6u32 {
        let ix = apa_complete(&apaw(i as usize), 2 + i, &[i as u8 + 9; 558]);
        if [0, 1, 5].contains(&i) {
            v.push(scene(&format!("apa-complete-{}", i), &b, vec![ix.clone()], 0, &[]));
        }
        must(&mut b, ix);
    }
    let msg = {
        let mut d = b.data(&apa_network());
        elusiv_warden_network::network::ApaWardenNetworkAccount::new(&mut d).unwrap().confirmation_message()
    };
    for i in 0..6u32 {
        let ix = apa_confirm(&xkey(i as usize), 2 + i, msg);
        if [0, 1, 5].contains(&i) {
            v.push(scene(&format!("apa-confirm-{}", i), &b, vec![ix.clone()], 0, &[]));
        }
        must(&mut b, ix);
    }
    v
}
pub fn run_all(c: &mut Check) {
    let (sub, data, sizes) = (c.wants("warden-substitution", P), c.wants("warden-instruction-data", &["C27"]), c.wants("warden-account-sizes", &["C26", "C16"]));
    if !(sub || data || sizes) {
        return;
    }
    let v = scenes();
    if data {
        run_data(c, "warden-instruction-data", &v, 17, &["C27"]);
    }
    if sizes {
        let mut whole = vec![];
        for s in &v {
            for a in &s.ixs[s.at].accounts {
                // (of the map of a target only its existence counts)
                if a.pubkey != target_acc(&key("target0")) && s.bank.get(&a.pubkey).map_or(false, |x| x.owner == pid()) && !whole.iter().any(|w: &(Pubkey, &str)| w.0 == a.pubkey) {
                    whole.push((a.pubkey, "program"));
                }
            }
        }
        run_sizes(c, "warden-account-sizes", &v, &whole, &["C26", "C16"]);
    }
    if !sub {
        return;
    }
    let mut subs: Vec<(Pubkey, bool)> = vec![];
    subs.extend((0..7).map(|i| (actor(i), true)));
    subs.extend((0..3).map(|i| (xkey(i), true)));
    subs.extend((0..3).map(|i| (apaw(i), true)));
    let y = date_year();
    let mut k = vec![wardens(), basic_network(), apa_network(), proposals(), key("lut0"), key("lut1"), key("target0"), TOKENS[1].mint, TOKENS[2].mint, system_program::id(), sysvar::instructions::id(), pid(), main_program(), other_program()];
    for i in 0..4 {
        k.extend([warden_acc(i), apa_warden(i), proposal_acc(i), map_acc(&actor(i as usize)), operator_acc(&actor(3 + i as usize)), stats_acc(&actor(i as usize), y), stats_acc(&actor(i as usize), y + 1)]);
    }
    k.extend((0..2).flat_map(|i| [map_acc(&apaw(i)), target_acc(&key(["target0", "target1"][i]))]));
    k.extend([apa_warden(7), warden_acc(8), attester_acc(&actor(6))]);
    subs.extend(k.into_iter().map(|k| (k, false)));
    let mut pairs = vec![];
    if c.prop == "C16" || c.thorough {
        pairs = vec![(actor(0), true), (actor(1), true), (actor(3), true), (warden_acc(0), false), (warden_acc(1), false), (stats_acc(&actor(1), y), false), (map_acc(&actor(0)), false), (TOKENS[2].mint, false), (apa_warden(2), false), (xkey(0), true)];
        if c.thorough {
            pairs = subs.iter().filter(|s| s.0 != pid()).copied().collect();
            pairs.truncate(40);
        }
    }
    run_scenes(c, "warden-substitution", &v, &subs, &pairs, other_program(), concerns);
}
