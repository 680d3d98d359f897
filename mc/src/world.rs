//! Construction of program states, through the program's own instructions wherever possible.
use crate::lay::*;
use crate::pose::*;
use crate::wire::*;
use solana_program::{instruction::Instruction, program_pack::Pack, pubkey::Pubkey, system_program};
use svm::{execute, rent_min, Acct, Bank, Data, TxError};

pub const SOL: u64 = 1_000_000_000;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fee {
    pub lamports_per_tx: u64,
    pub base_bps: u64,
    pub proof_bps: u64,
    pub base_subv: u64,
    pub proof_subv: u64,
    pub hash_reward: u64,
    pub proof_reward: u64,
    pub base_tx_count: u64,
}
impl Default for Fee {
    fn default() -> Self {
        Fee { lamports_per_tx: 5000, base_bps: 11, proof_bps: 100, base_subv: 33, proof_subv: 44, hash_reward: 300, proof_reward: 555, base_tx_count: 62 }
    }
}
/// instructions needed for one batch / number of leaves
pub const HASH_IX: [u64; 5] = [24, 24, 25, 29, 37];
impl Fee {
    pub fn arr(&self) -> [u64; 8] {
        [self.lamports_per_tx, self.base_bps, self.proof_bps, self.base_subv, self.proof_subv, self.hash_reward, self.proof_reward, self.base_tx_count]
    }
    pub fn hash_comp(&self) -> u64 { self.lamports_per_tx + self.hash_reward }
    pub fn base_hash_fee(&self) -> u64 { 2 * self.hash_comp() + self.lamports_per_tx }
    pub fn commitment_fee(&self, rate: u32) -> u64 {
        let n = HASH_IX[rate as usize] * self.hash_comp();
        let d = 1u64 << rate;
        (n + d - 1) / d
    }
    pub fn proof_fee(&self, prep: u64) -> u64 { (prep + self.base_tx_count) * self.lamports_per_tx + self.proof_reward }
    pub fn base_net(&self, amount: u64) -> u64 { bps(self.base_bps, amount) }
    pub fn proof_net(&self, amount: u64) -> u64 { bps(self.proof_bps, amount) }
}
pub fn bps(f: u64, amount: u64) -> u64 { (f as u128 * amount as u128 / 10_000) as u64 }

pub fn run(b: &Bank, ixs: &[Instruction]) -> Result<Bank, TxError> { execute(b, ixs) }
pub fn must(b: &mut Bank, ixs: &[Instruction], what: &str) {
    match execute(b, ixs) {
        Ok(n) => *b = n,
        Err(e) => panic!("SETUP-FAILED {}: {:?}", what, e),
    }
}

pub fn fund(b: &mut Bank, k: &Pubkey, l: u64) {
    b.set(*k, Acct { lamports: l, owner: system_program::id(), data: Data::zeros(0) });
}
/// a raw, program-owned zeroed account (what a client creates for a child)
pub fn blank_child(b: &mut Bank, k: &Pubkey, len: usize) {
    b.set(*k, Acct { lamports: rent_min(len), owner: pid(), data: Data::zeros(len) });
}
pub fn make_mint(b: &mut Bank, token: u16) {
    let mut d = vec![0; spl_token::state::Mint::LEN];
    let m = spl_token::state::Mint { decimals: 6, is_initialized: true, supply: 1 << 60, ..Default::default() };
    spl_token::state::Mint::pack(m, &mut d).unwrap();
    b.put(mint(token), rent_min(d.len()), spl_token::id(), &d);
}
pub fn make_token_account(b: &mut Bank, k: &Pubkey, owner: &Pubkey, mint: &Pubkey, amount: u64) {
    let mut d = vec![0; 165];
    let a = spl_token::state::Account { mint: *mint, owner: *owner, amount, state: spl_token::state::AccountState::Initialized, ..Default::default() };
    spl_token::state::Account::pack(a, &mut d).unwrap();
    b.put(*k, rent_min(165), spl_token::id(), &d);
}
/// Pyth price account bytes (3312 bytes, v2)
pub fn pyth(price: i64, conf: u64, expo: i32, status: u32) -> Vec<u8> {
    let mut d = vec![0u8; 3312];
    d[0..4].copy_from_slice(&0xa1b2c3d4u32.to_le_bytes());
    d[4..8].copy_from_slice(&2u32.to_le_bytes());
    d[8..12].copy_from_slice(&3u32.to_le_bytes());
    d[12..16].copy_from_slice(&3312u32.to_le_bytes());
    d[20..24].copy_from_slice(&expo.to_le_bytes());
    // agg at 208: price, conf, status, corp_act, pub_slot
    d[176..184].copy_from_slice(&price.to_le_bytes());
    d[184..192].copy_from_slice(&conf.to_le_bytes());
    d[208..216].copy_from_slice(&price.to_le_bytes());
    d[216..224].copy_from_slice(&conf.to_le_bytes());
    d[224..228].copy_from_slice(&status.to_le_bytes());
    d
}
pub fn key_pyth() -> Pubkey { key("pyth-program") }
pub fn put_price(b: &mut Bank, token: u16, price: i64, expo: i32, status: u32) {
    b.put(price_key(token), rent_min(3312), key("pyth-program"), &pyth(price, 1, expo, status));
}

pub fn admin() -> Pubkey { key("admin") }
pub fn storage_child(i: usize) -> Pubkey { key(&format!("storage-child-{}", i)) }
pub fn null_child(t: u32, i: usize) -> Pubkey { key(&format!("null-child-{}-{}", t, i)) }
pub fn meta_child(i: usize) -> Pubkey { key(&format!("meta-child-{}", i)) }
pub fn storage_children() -> Vec<Pubkey> { (0..ST_CHILDREN).map(storage_child).collect() }
pub fn meta_children() -> Vec<Pubkey> { (0..ME_CHILDREN).map(meta_child).collect() }
pub fn null_children(t: u32) -> Vec<Pubkey> { (0..NU_CHILDREN).map(|i| null_child(t, i)).collect() }
pub const ST_CHILD_LEN: usize = 1 + 32 * ST_CHILD_VALUES;
pub fn null_child_len() -> usize {
    // config byte + ElusivSet<OrdU256, 65536>
    use elusiv_types::SizedAccount;
    elusiv::state::nullifier::NullifierChildAccount::SIZE
}

/// children of the storage account that hold the path of leaf `ptr` (and of a batch starting there)
pub fn path_children(ptr: u32, batch: u32) -> Vec<Pubkey> {
    let mut s = std::collections::BTreeSet::new();
    for leaf in [ptr, (ptr + batch.max(1) - 1).min(MT_LEAVES - 1)] {
        for level in 0..=MT_HEIGHT {
            let i = (leaf >> (MT_HEIGHT - level)) as usize;
            for j in [i, i ^ 1] {
                if j < 1 << level {
                    s.insert(((1usize << level) - 1 + j) / ST_CHILD_VALUES);
                }
            }
        }
    }
    s.into_iter().map(storage_child).collect()
}

#[derive(Clone)]
pub struct Cfg {
    pub fee: Fee,
    pub rate: u32,
    pub nullifier_accounts: u32,
    /// also enable the children
    pub children: bool,
    pub tokens: Vec<u16>,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { fee: Fee::default(), rate: 0, nullifier_accounts: 2, children: true, tokens: vec![1, 2] }
    }
}

pub fn genesis(c: &Cfg) -> Bank {
    svm::init();
    svm::register_program(pid(), elusiv::process_instruction);
    let mut b = Bank::default();
    let a = admin();
    fund(&mut b, &a, 1_000_000 * SOL);
    must(&mut b, &[setup_governor(&a)], "governor");
    must(&mut b, &[init_fee(&a, 0, &c.fee.arr())], "fee");
    must(&mut b, &[open_single(&a)], "open_single");
    must(&mut b, &[create_v1(&a)], "create_v1");
    for t in 0..c.nullifier_accounts {
        must(&mut b, &[open_nullifier(&a, t)], "nullifier");
    }
    if c.children {
        for i in 0..ST_CHILDREN {
            blank_child(&mut b, &storage_child(i), ST_CHILD_LEN);
            must(&mut b, &[enable_storage_child(i as u32, &storage_child(i))], "storage child");
        }
        for i in 0..ME_CHILDREN {
            blank_child(&mut b, &meta_child(i), ME_CHILD_SIZE);
            must(&mut b, &[enable_metadata_child(i as u32, &meta_child(i))], "metadata child");
        }
        let len = null_child_len();
        for t in 0..c.nullifier_accounts {
            for i in 0..NU_CHILDREN {
                blank_child(&mut b, &null_child(t, i), len);
                must(&mut b, &[enable_nullifier_child(t, i as u32, &null_child(t, i))], "nullifier child");
            }
        }
    }
    if c.rate != 0 {
        set_rate(&mut b, c.rate);
    }
    for t in &c.tokens {
        make_mint(&mut b, *t);
        make_token_account(&mut b, &ata(&pool(), *t), &pool(), &mint(*t), 0);
        make_token_account(&mut b, &ata(&fee_collector(), *t), &fee_collector(), &mint(*t), 1_000_000_000);
        // 1 token = 1 USD
        put_price(&mut b, *t, 100_000_000, -8, 1);
    }
    // 1 SOL = 39 USD
    put_price(&mut b, 0, 3_900_000_000, -8, 1);
    // the fee collector funds subventions
    let l = b.lamports(&fee_collector());
    b.set_lamports(&fee_collector(), l + 10 * SOL);
    b
}
/// The batching rate has no setter instruction; states with other rates are built directly
pub fn set_rate(b: &mut Bank, rate: u32) {
    b.write(&governor(), GO_RATE, &rate.to_le_bytes());
}
pub fn user(b: &mut Bank, name: &str, sol: u64, tokens: &[(u16, u64)]) -> Pubkey {
    let k = key(name);
    fund(b, &k, sol * SOL);
    for (t, a) in tokens {
        make_token_account(b, &ata(&k, *t), &k, &mint(*t), *a);
    }
    k
}

/// Default value of an unset stored node (Montgomery form)
pub fn default_node(level: usize) -> B32 {
    mont_b(&empty(MT_HEIGHT - level))
}

pub fn vkey_child(v: u32) -> Pubkey { key(&format!("vkey-data-{}", v)) }
/// Sets up verifying key 0 through the program; the bulk of the data is written directly
/// (the packet-wise upload is checked by its own driver).
pub fn setup_vkey(b: &mut Bank, t: &crate::groth::Trap) {
    let a = admin();
    let src = t.source();
    must(b, &[create_vkey(&a, 0, t.inputs() as u32, Some(&a))], "create vkey");
    let c = vkey_child(1);
    blank_child(b, &c, 1 + src.len());
    must(b, &[new_vkey_version(&a, 0, &c)], "vkey version");
    b.write(&c, 1, &src);
    must(b, &[update_vkey(&a, 0, &key("nobody"))], "vkey update");
}
pub fn trap() -> &'static crate::groth::Trap {
    static T: std::sync::OnceLock<crate::groth::Trap> = std::sync::OnceLock::new();
    T.get_or_init(|| crate::groth::Trap::new(1, 14))
}
