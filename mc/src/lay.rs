//! Account layouts, by hand (packed borsh, little endian, leading {bump, version}).
use crate::pose::B32;
use crate::wire::*;
use solana_program::pubkey::Pubkey;
use svm::Bank;

pub fn u8_at(b: &Bank, k: &Pubkey, o: usize) -> u8 { b.get(k).unwrap().data.slice(o, 1)[0] }
pub fn u16_at(b: &Bank, k: &Pubkey, o: usize) -> u16 { u16::from_le_bytes(b.get(k).unwrap().data.slice(o, 2).try_into().unwrap()) }
pub fn u32_at(b: &Bank, k: &Pubkey, o: usize) -> u32 { u32::from_le_bytes(b.get(k).unwrap().data.slice(o, 4).try_into().unwrap()) }
pub fn u64_at(b: &Bank, k: &Pubkey, o: usize) -> u64 { u64::from_le_bytes(b.get(k).unwrap().data.slice(o, 8).try_into().unwrap()) }
pub fn b32_at(b: &Bank, k: &Pubkey, o: usize) -> B32 { b.get(k).unwrap().data.slice(o, 32).try_into().unwrap() }

/// children pubkeys of a parent account (ElusivOption<Pubkey> table right after the pda data)
pub fn children(b: &Bank, k: &Pubkey, n: usize) -> Vec<Option<Pubkey>> {
    let d = b.get(k).unwrap().data.slice(2, 33 * n);
    d.chunks(33).map(|c| if c[0] == 1 { Some(Pubkey::new(&c[1..])) } else { None }).collect()
}

// ---- storage ----
pub const ST_CHILDREN: usize = 25;
pub const ST_PTR: usize = 2 + 33 * ST_CHILDREN;
pub const ST_TREES: usize = ST_PTR + 4;
pub const ST_ARCH: usize = ST_TREES + 4;
pub const ST_HIST: usize = ST_ARCH + 4;
pub const ST_ROOTS: usize = ST_HIST + 3200;
pub const ST_SIZE: usize = ST_ROOTS + 4;
pub const ST_CHILD_VALUES: usize = 83_887;
pub const MT_HEIGHT: usize = 20;
pub const MT_LEAVES: u32 = 1 << 20;

pub fn tree_ptr(b: &Bank) -> u32 { u32_at(b, &storage(), ST_PTR) }
pub fn trees_count(b: &Bank) -> u32 { u32_at(b, &storage(), ST_TREES) }
pub fn roots_count(b: &Bank) -> u32 { u32_at(b, &storage(), ST_ROOTS) }
/// raw (Montgomery) bytes of a stored node; `None` if the child account is not enabled
pub fn node_raw(b: &Bank, level: usize, index: usize) -> Option<B32> {
    let i = (1usize << level) - 1 + index;
    let c = children(b, &storage(), ST_CHILDREN)[i / ST_CHILD_VALUES]?;
    Some(b32_at(b, &c, 1 + 32 * (i % ST_CHILD_VALUES)))
}
pub fn set_node_raw(b: &mut Bank, level: usize, index: usize, v: &B32) {
    let i = (1usize << level) - 1 + index;
    let c = children(b, &storage(), ST_CHILDREN)[i / ST_CHILD_VALUES].unwrap();
    b.write(&c, 1 + 32 * (i % ST_CHILD_VALUES), v);
}
pub fn history(b: &Bank) -> Vec<B32> {
    (0..100).map(|i| b32_at(b, &storage(), ST_HIST + 32 * i)).collect()
}

// ---- nullifier account ----
pub const NU_CHILDREN: usize = 16;
pub const NU_ROOT: usize = 2 + 33 * NU_CHILDREN;
pub const NU_COUNT: usize = NU_ROOT + 32;
pub const NU_MAX: usize = NU_COUNT + 4;
pub const NU_MOVED: usize = NU_MAX + 33 * NU_CHILDREN;
pub const NU_MOVED_V: usize = NU_MOVED + 1;
pub const NU_MOVED_T: usize = NU_MOVED_V + 128;
pub const NU_SIZE: usize = NU_MOVED_T + 4;
pub const NU_PER_MAP: usize = 1 << 16;

// ---- base commitment hashing ----
pub const BH_INSTR: usize = 2;
pub const BH_ROUND: usize = 6;
pub const BH_FEE_VERSION: usize = 10;
pub const BH_FEE_PAYER: usize = 14;
pub const BH_ACTIVE: usize = 46;
pub const BH_TOKEN: usize = 47;
pub const BH_STATE: usize = 49;
pub const BH_RATE: usize = BH_STATE + 96;
pub const BH_META: usize = BH_RATE + 4;
pub const BH_SIZE: usize = BH_META + 17;

// ---- commitment hashing ----
pub const CH_INSTR: usize = 2;
pub const CH_ROUND: usize = 6;
pub const CH_FEE: usize = 10;
pub const CH_ACTIVE: usize = 14;
pub const CH_SETUP: usize = 15;
pub const CH_FIN: usize = 16;
pub const CH_RATE: usize = 20;
pub const CH_STATE: usize = 24;
pub const CH_ORD: usize = CH_STATE + 96;
pub const CH_SIB: usize = CH_ORD + 4;
pub const CH_ABOVE: usize = CH_SIB + 640;
pub const CH_TREE: usize = CH_ABOVE + 640;
pub const CH_SIZE: usize = CH_TREE + 31 * 32;

// ---- queues ----
pub const Q_HEAD: usize = 2;
pub const Q_TAIL: usize = 6;
pub const Q_DATA: usize = 10;
pub const Q_CAP: usize = 240;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct QEntry {
    pub commitment: B32,
    pub fee_version: u32,
    pub rate: u32,
}
pub fn ring(b: &Bank, k: &Pubkey, size: usize) -> Vec<Vec<u8>> {
    let d = b.data(k);
    let head = u32::from_le_bytes(d[Q_HEAD..Q_HEAD + 4].try_into().unwrap()) as usize;
    let tail = u32::from_le_bytes(d[Q_TAIL..Q_TAIL + 4].try_into().unwrap()) as usize;
    let mut v = vec![];
    let mut i = head;
    while i != tail && v.len() <= Q_CAP {
        v.push(d[Q_DATA + i * size..Q_DATA + (i + 1) * size].to_vec());
        i = (i + 1) % Q_CAP;
    }
    v
}
pub fn queue_entries(b: &Bank) -> Vec<QEntry> {
    ring(b, &queue(), 40)
        .into_iter()
        .map(|r| QEntry {
            commitment: r[..32].try_into().unwrap(),
            fee_version: u32::from_le_bytes(r[32..36].try_into().unwrap()),
            rate: u32::from_le_bytes(r[36..40].try_into().unwrap()),
        })
        .collect()
}
pub fn meta_entries(b: &Bank) -> Vec<[u8; 17]> {
    ring(b, &meta_queue(), 17).into_iter().map(|r| r.try_into().unwrap()).collect()
}
/// harness-built queue content (positions `start..`)
pub fn put_ring(b: &mut Bank, k: &Pubkey, size: usize, start: usize, vals: &[Vec<u8>]) {
    assert!(vals.len() < Q_CAP);
    let mut d = b.data(k);
    let mut i = start;
    for v in vals {
        d[Q_DATA + i * size..Q_DATA + (i + 1) * size].copy_from_slice(v);
        i = (i + 1) % Q_CAP;
    }
    d[Q_HEAD..Q_HEAD + 4].copy_from_slice(&(start as u32).to_le_bytes());
    d[Q_TAIL..Q_TAIL + 4].copy_from_slice(&(i as u32).to_le_bytes());
    b.write(k, 0, &d);
}

// ---- metadata ----
pub const ME_CHILDREN: usize = 16;
pub const ME_PTR: usize = 2 + 33 * ME_CHILDREN;
pub const ME_CHILD_SIZE: usize = 1 + (1 << 16) * 17;
pub fn meta_ptr(b: &Bank) -> u32 { u32_at(b, &metadata(), ME_PTR) }
pub fn meta_at(b: &Bank, i: usize) -> [u8; 17] {
    let c = children(b, &metadata(), ME_CHILDREN)[i >> 16].unwrap();
    b.get(&c).unwrap().data.slice(1 + 17 * (i & 0xffff), 17).try_into().unwrap()
}

// ---- buffers ----
pub const BU_CAP: usize = 128;
pub fn buffer_values(b: &Bank, k: &Pubkey) -> (Vec<B32>, u32) {
    let d = b.data(k);
    let len = u32::from_le_bytes(d[2 + 4096..2 + 4100].try_into().unwrap());
    let ptr = u32::from_le_bytes(d[2 + 4100..2 + 4104].try_into().unwrap());
    ((0..BU_CAP).map(|i| d[2 + 32 * i..34 + 32 * i].try_into().unwrap()).collect(), ptr | len << 16)
}
pub fn buffer_contains(b: &Bank, k: &Pubkey, v: &B32) -> bool {
    let d = b.data(k);
    let len = u32::from_le_bytes(d[2 + 4096..2 + 4100].try_into().unwrap()) as usize;
    (0..len.min(BU_CAP)).any(|i| d[2 + 32 * i..34 + 32 * i] == v[..])
}

// ---- governor ----
pub const GO_FEE_VERSION: usize = 2;
pub const GO_FEE: usize = 6;
pub const GO_RATE: usize = GO_FEE + 64;
pub const GO_SIZE: usize = GO_RATE + 8;

// ---- vkey ----
pub const VK_INPUTS: usize = 2 + 66;
pub const VK_AUTH: usize = VK_INPUTS + 4;
pub const VK_FROZEN: usize = VK_AUTH + 33;
pub const VK_VERSION: usize = VK_FROZEN + 1;

// ---- verification ----
pub const VE_INSTR: usize = 2;
pub const VE_ROUND: usize = 6;
pub const VE_PREP_COUNT: usize = 10;
pub const VE_PREP: usize = 14;
pub const VE_VKEY: usize = VE_PREP + 280;
pub const VE_STEP: usize = VE_VKEY + 4;
pub const VE_STATE: usize = VE_STEP + 1;
pub const VE_INPUT: usize = VE_STATE + 1;
pub const ST_NONE: u8 = 0;
pub const ST_FEE: u8 = 1;
pub const ST_PROOF: u8 = 2;
pub const ST_INSERT: u8 = 3;
pub const ST_FINAL: u8 = 4;
pub const ST_CLOSED: u8 = 5;

// spl token
pub fn token_balance(b: &Bank, k: &Pubkey) -> u64 {
    match b.get(k) {
        Some(a) if a.owner == spl_token::id() && a.data.len() == 165 => u64::from_le_bytes(a.data.slice(64, 8).try_into().unwrap()),
        _ => 0,
    }
}
/// amount of `token` held by an account
pub fn held(b: &Bank, k: &Pubkey, token: u16) -> u64 {
    if token == 0 { b.lamports(k) } else { token_balance(b, k) }
}

/// physical entries of a nullifier map (any order)
pub fn null_keys(b: &Bank, t: u32, child: usize) -> Vec<B32> {
    const CAP: usize = 1 << 16;
    let k = crate::world::null_child(t, child);
    let n = u32_at(b, &k, 1) as usize;
    let off = 1 + 4 + 2 + 2 + 30 + 4 * CAP;
    (0..n).map(|i| b32_at(b, &k, off + 32 * i)).collect()
}
