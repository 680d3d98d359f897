//! Substitution of accounts (C16) in every instruction of the program.
use crate::hash::*;
use crate::ver::*;
use mc::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_program, sysvar::instructions as ixs_sysvar};
use svm::subst::*;

fn attacker() -> Pubkey { key("attacker") }

fn scene(name: impl Into<String>, b: &Bank, ixs: Vec<Instruction>, at: usize, free: &[usize]) -> Scene {
    Scene { name: name.into(), bank: b.clone(), ixs, at, free: free.to_vec(), mask: vec![] }
}

/// deposits
fn deposits(v: &mut Vec<Scene>, base: &Bank) {
    for token in [0u16, 1] {
        let mut b = base.clone();
        let r = BaseReq { base: num(41), recent: tree_ptr(&b), amount: 20_000_000, token, commitment: num(1), fee_version: 0, rate: 0 };
        // somebody else's deposit in the next account
        let (_, bump1) = pda_of(&pid(), "BaseCommitmentHashing", None, Some(1));
        let r1 = BaseReq { base: num(43), ..r.clone() };
        must(&mut b, &[store_base(1, bump1, &r1, &meta_of(4), &StoreAccs::new(&warden2(), &warden2(), token))], "other deposit");
        let (k, bump) = pda_of(&pid(), "BaseCommitmentHashing", None, Some(0));
        let ix = store_base(0, bump, &r, &meta_of(3), &StoreAccs::new(&depositor(), &warden(), token));
        let mut s = scene(format!("store-{}", token), &b, vec![ix.clone()], 0, &[0, 1, 2, 3]);
        s.mask = vec![(k, BH_FEE_PAYER, 32)];
        v.push(s);
        must(&mut b, &[ix], "deposit");
        v.push(scene(format!("compute-base-{}", token), &b, vec![compute_base(0)], 0, &[]));
        for _ in 0..2 {
            must(&mut b, &[cu_ix(), compute_base(0)], "compute");
            must(&mut b, &[cu_ix(), compute_base(1)], "compute");
        }
        v.push(scene(format!("finalize-base-{}", token), &b, vec![finalize_base(0, 0, &warden())], 0, &[]));
    }
}
fn hashing(v: &mut Vec<Scene>) {
    let (mut b, _) = base_world(1, 65_534, 238, &prefilled(4, 1));
    fund(&mut b, &warden2(), 1000 * SOL);
    fund(&mut b, &attacker(), 1000 * SOL);
    let ix = init_hash_setup(false, &path_children(65_534, 2));
    v.push(scene("hash-setup", &b, vec![ix.clone()], 0, &[]));
    must(&mut b, &[ix], "setup");
    let ix = init_hash(false, &meta_children());
    v.push(scene("hash-init", &b, vec![ix.clone()], 0, &[]));
    must(&mut b, &[ix], "init");
    v.push(scene("hash-compute", &b, vec![cu_ix(), compute_hash(0, 0, &warden())], 1, &[0]));
    for i in 0..24 {
        must(&mut b, &[cu_ix(), compute_hash(0, i, &warden())], "compute");
    }
    let ix = finalize_hash(&path_children(65_534, 2));
    for i in 0..2 {
        v.push(scene(format!("hash-finalize-{}", i), &b, vec![ix.clone()], 0, &[]));
        must(&mut b, &[ix.clone()], "finalize");
    }
    // closing a full tree
    let (mut b, _) = base_world(1, MT_LEAVES, 0, &[]);
    fund(&mut b, &attacker(), 1000 * SOL);
    v.push(scene("reset", &b, vec![reset_tree(0, &storage_children()[..2])], 0, &[]));
}
fn other(b: &mut Bank, token: u16) -> V {
    // somebody else's verification in the same phase
    let mut o = V::new(b, 3, &warden2(), token, 50);
    o.rec = if token == 0 { key("other-recipient") } else { ata(&attacker(), token) };
    o.seal();
    o
}
fn verifications(v: &mut Vec<Scene>, base: &Bank) {
    for token in [0u16, 1] {
        for kind in 0..7 {
            let mut b = base.clone();
            let o = other(&mut b, token);
            must(&mut b, &o.init_tx(&o.proof()), "other request");
            o.decide(&mut b, true);
            let mut r = V::new(&b, 3, &warden(), token, 1);
            let mut valid = true;
            match kind {
                0 => {}
                1 => {
                    r.r.opt_collector = r.opt_acc;
                    r.r.opt_amount = 1_000_000;
                    r.reference = Some(key("reference"));
                }
                2 => r.r.solana_pay = true,
                3 => valid = false,
                4 if token != 0 => {
                    r.r.is_ata = true;
                    r.rec = key("new-recipient");
                }
                5 => r.memo = Some(b"memo of the payment".to_vec()),
                6 => r.r.amount = 0,
                _ => continue,
            }
            r.seal();
            let p = if valid { r.proof() } else { r.wrong_proof() };
            let tag = |s: &str| format!("{}-{}-{}", s, token, kind);
            if kind == 0 || kind == 1 {
                v.push(scene(tag("init"), &b, vec![r.init_ix()], 0, &[]));
                must(&mut b, &[r.init_ix()], "init");
                let mut s = scene(tag("init-fee"), &b, vec![r.fee_ix()], 0, &[1]);
                // the account that is refunded is recorded
                let mut x = b.clone();
                must(&mut x, &[r.fee_ix()], "fee");
                s.mask = vec![(r.acc(), other_off(&x, &r) + 32, 32)];
                v.push(s);
                must(&mut b, &[r.fee_ix()], "fee");
                v.push(scene(tag("init-proof"), &b, vec![r.proof_ix(&p)], 0, &[]));
                must(&mut b, &[r.proof_ix(&p)], "proof");
            } else {
                must(&mut b, &r.init_tx(&p), "init");
            }
            if kind == 0 && token == 0 {
                let mut x = b.clone();
                for i in 0..60 {
                    if [0, 1, 12, 25, 40, 59].contains(&i) {
                        let mut tx = vec![cu_ix(), cu_ix()];
                        tx.extend((0..5).map(|_| r.compute_ix()));
                        v.push(scene(format!("compute-{}", i), &x, tx, 6, &[]));
                    }
                    match run(&x, &r.compute_tx()) {
                        Ok(y) => x = y,
                        Err(_) => break,
                    }
                }
            }
            r.decide(&mut b, valid);
            let net = r.r.amount - r.r.opt_amount - if r.r.is_ata { r.charges(&b).rent_t } else { 0 };
            let mut tx = r.final_tx(valid, net, &r.rec_acc());
            if !valid {
                tx.truncate(2);
            }
            let n = 2 + valid as usize;
            let names: &[&str] = if valid { &["send", "insert", "transfer"] } else { &["send", "transfer"] };
            for i in 0..n {
                v.push(scene(tag(names[i]), &b, tx.clone(), i, &[]));
            }
        }
    }
}
fn keys_and_setup(v: &mut Vec<Scene>) {
    let mut b = Bank::default();
    for k in [admin(), attacker(), warden(), warden2()] {
        fund(&mut b, &k, 1_000_000 * SOL);
    }
    let a = admin();
    let mut go = |b: &mut Bank, n: &str, ix: Instruction, free: &[usize], mask: Vec<(Pubkey, usize, usize)>| {
        let mut s = scene(n, b, vec![ix.clone()], 0, free);
        s.mask = mask;
        v.push(s);
        must(b, &[ix], n);
    };
    go(&mut b, "governor", setup_governor(&a), &[0], vec![]);
    go(&mut b, "fee", init_fee(&a, 0, &Fee::default().arr()), &[0], vec![]);
    go(&mut b, "single", open_single(&a), &[0], vec![]);
    go(&mut b, "v1", create_v1(&a), &[0], vec![]);
    for i in 0..2 {
        go(&mut b, "nullifier", open_nullifier(&a, i), &[0], vec![]);
    }
    let two = |k: &dyn Fn(usize) -> Pubkey, b: &mut Bank, l: usize| {
        for i in 0..3 {
            blank_child(b, &k(i), l);
        }
    };
    two(&|i| storage_child(i), &mut b, ST_CHILD_LEN);
    two(&|i| meta_child(i), &mut b, ME_CHILD_SIZE);
    two(&|i| null_child(0, i), &mut b, null_child_len());
    for i in 0..2u32 {
        let m = |k| vec![(k, 2 + 33 * i as usize, 33)];
        go(&mut b, "storage-child", enable_storage_child(i, &storage_child(i as usize)), &[1], m(storage()));
        go(&mut b, "meta-child", enable_metadata_child(i, &meta_child(i as usize)), &[1], m(metadata()));
        go(&mut b, "null-child", enable_nullifier_child(0, i, &null_child(0, i as usize)), &[1], m(nullifier(0)));
    }
    go(&mut b, "create-vkey", create_vkey(&a, 0, 0, Some(&a)), &[0], vec![]);
    let len = 1 + mc::groth::Trap::new(1, 0).source().len();
    two(&|i| vkey_child(i as u32), &mut b, len);
    let d = vkey_child(1);
    go(&mut b, "vkey-version", new_vkey_version(&a, 0, &d), &[2], vec![(vkey_acc(0), 2 + 33, 33)]);
    go(&mut b, "vkey-data", set_vkey_data(&a, 0, 3, &[7; 964], &[d]), &[], vec![]);
    go(&mut b, "vkey-update", update_vkey(&a, 0, &key("nobody")), &[], vec![]);
    go(&mut b, "vkey-authority", change_vkey_auth(&a, 0, &warden()), &[], vec![]);
    go(&mut b, "vkey-freeze", freeze_vkey(&warden(), 0), &[], vec![]);
}

fn subs() -> Vec<(Pubkey, bool)> {
    let mut v: Vec<(Pubkey, bool)> = [attacker(), warden(), warden2(), depositor(), recipient(), collector()].iter().map(|k| (*k, true)).collect();
    let mut add = |k: Pubkey| v.push((k, false));
    for k in [
        key("unrelated"), pool(), fee_collector(), storage(), chashing(), queue(), meta_queue(), metadata(), base_buffer(), commitment_buffer(), governor(), fee_acc(0), nullifier(0),
        nullifier(1), vkey_acc(0), base_hashing(0), base_hashing(1), verification(&warden(), 3), verification(&warden2(), 3), storage_child(0), storage_child(1), storage_child(2), meta_child(0),
        meta_child(1), null_child(0, 0), null_child(1, 0), vkey_child(1), price_key(0), price_key(1), price_key(2), mint(1), mint(2), system_program::id(), spl_token::id(),
        spl_associated_token_account::id(), ixs_sysvar::id(), pid(), null_dup(&[nul(1)]), null_dup(&[nul(50)]), key("reference"), key("ident"),
    ] {
        add(k);
    }
    for o in [attacker(), warden(), warden2(), depositor(), recipient(), collector(), pool(), fee_collector()] {
        for t in [1, 2] {
            add(ata(&o, t));
        }
    }
    v
}

/// the properties that prescribe the accounts of an instruction
fn concerns(scene: &str) -> &'static [&'static str] {
    let is = |p: &[&str]| p.iter().any(|p| scene.starts_with(p));
    if is(&["store", "compute-base", "finalize-base"]) {
        &["C16", "C05", "C08", "C11", "C12"]
    } else if is(&["hash-"]) {
        &["C16", "C05", "C08"]
    } else if is(&["reset"]) {
        &["C16", "C14", "C15"]
    } else if is(&["init"]) {
        &["C16", "C05", "C13", "C14"]
    } else if is(&["compute-"]) {
        &["C16", "C03", "C17"]
    } else if is(&["insert"]) {
        &["C16", "C01", "C02", "C04", "C06"]
    } else if is(&["send", "transfer"]) && scene.ends_with("-3") {
        &["C16", "C05", "C06", "C07"]
    } else if is(&["send", "transfer"]) {
        &["C16", "C04", "C05", "C06"]
    } else if scene.contains("vkey") {
        &["C16", "C17", "C19"]
    } else if is(&["governor", "fee"]) {
        &["C16", "C18", "C19"]
    } else {
        &["C16", "C19"]
    }
}

pub fn run_all(c: &mut Check) {
    let (sub, data, sizes) = (
        c.wants("substitution", &["C16", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C11", "C12", "C13", "C14", "C15", "C17", "C18", "C19"]),
        c.wants("instruction-data", &["C27", "C12", "C13"]),
        c.wants("account-sizes", &["C26", "C16", "C19"]),
    );
    if !(sub || data || sizes) {
        return;
    }
    let (mut base, _) = vworld(0, 8, 0);
    user(&mut base, "depositor", 1000, &[(1, 1 << 40), (2, 1 << 40)]);
    user(&mut base, "attacker", 1000, &[(1, 1 << 40), (2, 1 << 40)]);
    let mut v = vec![];
    deposits(&mut v, &base);
    verifications(&mut v, &base);
    hashing(&mut v);
    keys_and_setup(&mut v);
    if data {
        run_data(c, "instruction-data", &v, 34, &["C27", "C12", "C13"]);
    }
    if sizes {
        let mut whole: Vec<(Pubkey, &'static str)> = vec![
            (governor(), "governor"), (storage(), "storage"), (chashing(), "commitment hashing"), (queue(), "commitment queue"), (meta_queue(), "metadata queue"),
            (metadata(), "metadata"), (base_buffer(), "base commitment buffer"), (commitment_buffer(), "commitment buffer"), (nullifier(0), "nullifier"), (nullifier(1), "nullifier"),
            (vkey_acc(0), "verifying key"), (base_hashing(0), "base commitment hashing"), (base_hashing(1), "base commitment hashing"), (fee_acc(0), "fee"),
        ];
        whole.extend([warden(), warden2()].iter().map(|w| (verification(w, 3), "verification")));
        run_sizes(c, "account-sizes", &v, &whole, &["C26", "C16", "C19"]);
    }
    if !sub {
        return;
    }
    let subs = subs();
    let mut pairs: Vec<(Pubkey, bool)> = vec![];
    if c.prop == "C16" || c.thorough {
        let near = [
            attacker(), warden2(), verification(&warden2(), 3), ata(&attacker(), 1), ata(&warden2(), 1), null_dup(&[nul(50)]), base_hashing(1), price_key(2), nullifier(1), null_child(1, 0),
            pool(), ata(&pool(), 1), ata(&pool(), 2),
        ];
        pairs = near.iter().map(|k| *subs.iter().find(|s| s.0 == *k).unwrap()).collect();
        if !c.thorough {
            pairs.truncate(8);
        }
    }
    run_scenes(c, "substitution", &v, &subs, &pairs, memo_id(), concerns);
}
