//! Shared monitors.
use mc::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use std::collections::BTreeMap;

pub type Props = &'static [&'static str];

/// names of well-known accounts (for messages)
pub fn name(k: &Pubkey) -> String {
    for (n, p) in [
        ("pool", pool()), ("fee_collector", fee_collector()), ("storage", storage()), ("hashing", chashing()), ("queue", queue()), ("metadata_queue", meta_queue()),
        ("metadata", metadata()), ("base_buffer", base_buffer()), ("commitment_buffer", commitment_buffer()), ("governor", governor()),
        ("fee0", fee_acc(0)), ("nullifier0", nullifier(0)), ("nullifier1", nullifier(1)), ("vkey0", vkey_acc(0)),
        ("base_hashing0", base_hashing(0)), ("base_hashing1", base_hashing(1)),
    ] {
        if p == *k {
            return n.into();
        }
    }
    k.to_string()
}

/// exact lamport changes
pub fn lamports(out: &mut Vec<Viol>, p: Props, what: &str, pre: &Bank, post: &Bank, exp: &[(Pubkey, i128)]) {
    let mut m: BTreeMap<Pubkey, i128> = BTreeMap::new();
    for (k, d) in exp {
        *m.entry(*k).or_default() += d;
    }
    for k in pre.diff(post) {
        m.entry(k).or_default();
    }
    for (k, d) in m {
        let r = post.lamports(&k) as i128 - pre.lamports(&k) as i128;
        if r != d {
            viol(out, p, format!("{}:lamports:{}", what, name(&k)), format!("{}: lamports of {} changed by {} instead of {}", what, name(&k), r, d));
        }
    }
}
/// exact token balance changes
pub fn tokens(out: &mut Vec<Viol>, p: Props, what: &str, pre: &Bank, post: &Bank, exp: &[(Pubkey, i128)]) {
    let mut m: BTreeMap<Pubkey, i128> = BTreeMap::new();
    for (k, d) in exp {
        *m.entry(*k).or_default() += d;
    }
    for k in pre.diff(post) {
        m.entry(k).or_default();
    }
    for (k, d) in m {
        let r = token_balance(post, &k) as i128 - token_balance(pre, &k) as i128;
        if r != d {
            viol(out, p, format!("{}:tokens:{}", what, name(&k)), format!("{}: token balance of {} changed by {} instead of {}", what, name(&k), r, d));
        }
    }
}
/// only these accounts changed
pub fn only(out: &mut Vec<Viol>, p: Props, what: &str, pre: &Bank, post: &Bank, allowed: &[Pubkey]) {
    for k in pre.diff(post) {
        if !allowed.contains(&k) {
            viol(out, p, format!("{}:changed:{}", what, name(&k)), format!("{}: {} changed", what, name(&k)));
        }
    }
}
/// data of these accounts is unchanged
pub fn same_data(out: &mut Vec<Viol>, p: Props, what: &str, pre: &Bank, post: &Bank, accs: &[Pubkey]) {
    for k in accs {
        if pre.get(k).map(|a| a.data.hash()) != post.get(k).map(|a| a.data.hash()) {
            viol(out, p, format!("{}:data:{}", what, name(k)), format!("{}: data of {} changed", what, name(k)));
        }
    }
}

pub enum R {
    /// refused as expected
    No,
    Yes(Bank),
}
/// Executes and compares acceptance with the specification
pub fn attempt(out: &mut Vec<Viol>, p: Props, what: &str, pre: &Bank, ixs: &[Instruction], expect: bool) -> R {
    match (execute(pre, ixs), expect) {
        (Ok(b), true) => R::Yes(b),
        (Err(_), false) => R::No,
        (Ok(b), false) => {
            viol(out, p, format!("{}:accepted", what), format!("{} was accepted although it must be refused", what));
            R::Yes(b)
        }
        (Err(e), true) => {
            viol(out, p, format!("{}:refused", what), format!("{} was refused although it must be accepted: {:?}", what, e));
            R::No
        }
    }
}
