//! Hand-written wire format of the program: instruction data, account lists, addresses.
use crate::pose::B32;
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program,
    sysvar::instructions as ixs_sysvar,
};
use std::collections::HashMap;
use std::sync::{OnceLock, RwLock};

pub fn pid() -> Pubkey {
    elusiv::id()
}

type PdaKey = (Pubkey, &'static str, Option<Pubkey>, Option<u32>);
/// Program derived address (and bump): seeds `[name, pubkey?, offset_le?]`
pub fn pda_of(program: &Pubkey, seed: &'static str, pk: Option<&Pubkey>, off: Option<u32>) -> (Pubkey, u8) {
    static C: OnceLock<RwLock<HashMap<PdaKey, (Pubkey, u8)>>> = OnceLock::new();
    let c = C.get_or_init(|| RwLock::new(HashMap::new()));
    let k = (*program, seed, pk.copied(), off);
    if let Some(v) = c.read().unwrap().get(&k) {
        return *v;
    }
    let o = off.map(|o| o.to_le_bytes());
    let mut s: Vec<&[u8]> = vec![seed.as_bytes()];
    if let Some(p) = pk {
        s.push(p.as_ref());
    }
    if let Some(o) = &o {
        s.push(&o[..]);
    }
    let v = Pubkey::find_program_address(&s, program);
    c.write().unwrap().insert(k, v);
    v
}
pub fn pda(seed: &'static str) -> Pubkey {
    pda_of(&pid(), seed, None, None).0
}
pub fn pda_off(seed: &'static str, off: u32) -> Pubkey {
    pda_of(&pid(), seed, None, Some(off)).0
}

pub fn pool() -> Pubkey { pda("Pool") }
pub fn fee_collector() -> Pubkey { pda("FeeCollector") }
pub fn governor() -> Pubkey { pda("Governor") }
pub fn storage() -> Pubkey { pda("Storage") }
pub fn chashing() -> Pubkey { pda("CommitmentHashing") }
pub fn queue() -> Pubkey { pda("CommitmentQueue") }
pub fn meta_queue() -> Pubkey { pda("MetadataQueue") }
pub fn metadata() -> Pubkey { pda("Metadata") }
pub fn base_buffer() -> Pubkey { pda("BaseCommitmentBuffer") }
pub fn commitment_buffer() -> Pubkey { pda("CommitmentBuffer") }
pub fn fee_acc(v: u32) -> Pubkey { pda_off("Fee", v) }
pub fn nullifier(i: u32) -> Pubkey { pda_off("Nullifier", i) }
pub fn base_hashing(i: u32) -> Pubkey { pda_off("BaseCommitmentHashing", i) }
pub fn vkey_acc(i: u32) -> Pubkey { pda_off("VKey", i) }
pub fn verification(fp: &Pubkey, i: u8) -> Pubkey { pda_of(&pid(), "Verification", Some(fp), Some(i as u32)).0 }
pub fn null_dup(hashes: &[B32]) -> Pubkey {
    let mut v = vec![];
    for h in hashes {
        v.extend_from_slice(h)
    }
    let h = solana_program::hash::hash(&v);
    pda_of(&pid(), "NullifierDuplicate", Some(&Pubkey::new_from_array(h.to_bytes())), None).0
}
pub fn mint(token: u16) -> Pubkey {
    elusiv::token::TOKENS[token as usize].mint
}
pub fn price_key(token: u16) -> Pubkey {
    elusiv::token::TOKENS[token as usize].pyth_usd_price_key
}
pub fn ata(owner: &Pubkey, token: u16) -> Pubkey {
    spl_associated_token_account::get_associated_token_address(owner, &mint(token))
}
/// account that holds `token` for `owner`: the owner itself for lamports
pub fn holding(owner: &Pubkey, token: u16) -> Pubkey {
    if token == 0 { *owner } else { ata(owner, token) }
}

/// deterministic test key
pub fn key(name: &str) -> Pubkey {
    let h = solana_program::hash::hash(name.as_bytes());
    Pubkey::new_from_array(h.to_bytes())
}

// ---- borsh by hand ----
#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn tag(t: u8) -> Self { W(vec![t]) }
    pub fn u8(mut self, v: u8) -> Self { self.0.push(v); self }
    pub fn bool(self, v: bool) -> Self { self.u8(v as u8) }
    pub fn u16(mut self, v: u16) -> Self { self.0.extend_from_slice(&v.to_le_bytes()); self }
    pub fn u32(mut self, v: u32) -> Self { self.0.extend_from_slice(&v.to_le_bytes()); self }
    pub fn u64(mut self, v: u64) -> Self { self.0.extend_from_slice(&v.to_le_bytes()); self }
    pub fn b(mut self, v: &[u8]) -> Self { self.0.extend_from_slice(v); self }
    pub fn key(self, v: &Pubkey) -> Self { self.b(v.as_ref()) }
    pub fn opt_b(self, v: Option<&[u8]>) -> Self {
        match v {
            None => self.u8(0),
            Some(x) => self.u8(1).b(x),
        }
    }
}

pub fn rw(k: Pubkey) -> AccountMeta { AccountMeta::new(k, false) }
pub fn ro(k: Pubkey) -> AccountMeta { AccountMeta::new_readonly(k, false) }
pub fn sw(k: Pubkey) -> AccountMeta { AccountMeta::new(k, true) }
pub fn sr(k: Pubkey) -> AccountMeta { AccountMeta::new_readonly(k, true) }

fn ix(data: W, accounts: Vec<AccountMeta>) -> Instruction {
    Instruction { program_id: pid(), accounts, data: data.0 }
}
fn ch(v: &mut Vec<AccountMeta>, children: &[Pubkey], writable: bool) {
    for c in children {
        v.push(if writable { rw(*c) } else { ro(*c) });
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct BaseReq {
    pub base: B32,
    pub recent: u32,
    pub amount: u64,
    pub token: u16,
    pub commitment: B32,
    pub fee_version: u32,
    pub rate: u32,
}
impl BaseReq {
    pub fn ser(&self) -> Vec<u8> {
        W::default().b(&self.base).u32(self.recent).u64(self.amount).u16(self.token).b(&self.commitment).u32(self.fee_version).u32(self.rate).0
    }
}

#[derive(Clone, Debug)]
pub struct StoreAccs {
    pub sender: Pubkey,
    pub sender_account: Pubkey,
    pub fee_payer: Pubkey,
    pub fee_payer_account: Pubkey,
    pub pool_account: Pubkey,
    pub fee_collector_account: Pubkey,
    pub token_program: Pubkey,
    pub sol_price: Pubkey,
    pub token_price: Pubkey,
}
impl StoreAccs {
    pub fn new(sender: &Pubkey, fee_payer: &Pubkey, token: u16) -> Self {
        StoreAccs {
            sender: *sender,
            sender_account: holding(sender, token),
            fee_payer: *fee_payer,
            fee_payer_account: holding(fee_payer, token),
            pool_account: holding(&pool(), token),
            fee_collector_account: holding(&fee_collector(), token),
            token_program: if token == 0 { system_program::id() } else { spl_token::id() },
            sol_price: price_key(0),
            token_price: price_key(token.min(11)),
        }
    }
}
pub fn store_base(idx: u32, bump: u8, r: &BaseReq, meta: &[u8; 17], a: &StoreAccs) -> Instruction {
    ix(
        W::tag(0).u32(idx).u8(bump).b(&r.ser()).b(meta),
        vec![
            sr(a.sender), rw(a.sender_account), sw(a.fee_payer), rw(a.fee_payer_account), rw(pool()), rw(a.pool_account),
            rw(fee_collector()), rw(a.fee_collector_account), ro(a.sol_price), ro(a.token_price), ro(governor()), ro(storage()),
            rw(base_hashing(idx)), rw(base_buffer()), ro(a.token_program), ro(system_program::id()),
        ],
    )
}
pub fn compute_base(idx: u32) -> Instruction {
    ix(W::tag(1).u32(idx), vec![rw(base_hashing(idx))])
}
pub fn finalize_base(idx: u32, fee_version: u32, fee_payer: &Pubkey) -> Instruction {
    ix(
        W::tag(2).u32(idx).u32(fee_version),
        vec![rw(*fee_payer), rw(pool()), ro(fee_acc(fee_version)), rw(base_hashing(idx)), rw(queue()), rw(meta_queue())],
    )
}
pub fn init_hash_setup(can_fail: bool, children: &[Pubkey]) -> Instruction {
    let mut a = vec![rw(chashing()), ro(storage())];
    ch(&mut a, children, false);
    ix(W::tag(3).bool(can_fail), a)
}
pub fn init_hash(can_fail: bool, meta_children: &[Pubkey]) -> Instruction {
    let mut a = vec![rw(queue()), rw(meta_queue()), rw(chashing()), rw(metadata())];
    ch(&mut a, meta_children, true);
    ix(W::tag(4).bool(can_fail), a)
}
pub fn compute_hash(fee_version: u32, nonce: u32, fee_payer: &Pubkey) -> Instruction {
    ix(W::tag(5).u32(fee_version).u32(nonce), vec![sw(*fee_payer), ro(fee_acc(fee_version)), rw(pool()), rw(chashing())])
}
pub fn finalize_hash(children: &[Pubkey]) -> Instruction {
    let mut a = vec![rw(chashing()), rw(storage())];
    ch(&mut a, children, true);
    ix(W::tag(6), a)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Input {
    pub root: Option<B32>,
    pub nullifier: B32,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct SendReq {
    pub inputs: Vec<Input>,
    pub output: B32,
    pub recent: u32,
    pub fee_version: u32,
    pub amount: u64,
    pub fee: u64,
    pub opt_collector: Pubkey,
    pub opt_amount: u64,
    pub token: u16,
    pub metadata: [u8; 17],
    pub is_ata: bool,
    pub solana_pay: bool,
    pub hashed: B32,
}
impl SendReq {
    pub fn ser(&self) -> Vec<u8> {
        let mut w = W::default().u8(0).u32(self.inputs.len() as u32);
        for i in &self.inputs {
            w = w.opt_b(i.root.as_ref().map(|r| &r[..])).b(&i.nullifier);
        }
        w.b(&self.output).u32(self.recent).u32(self.fee_version).u64(self.amount).u64(self.fee)
            .key(&self.opt_collector).u64(self.opt_amount).u16(self.token).b(&self.metadata)
            .bool(self.is_ata).bool(self.solana_pay).b(&self.hashed).0
    }
    /// The 14 public signals of the circuit (canonical LE)
    pub fn signals(&self) -> Vec<B32> {
        use crate::pose::num;
        let mut v = vec![];
        for i in 0..4 {
            v.push(self.inputs.get(i).map(|x| x.nullifier).unwrap_or([0; 32]));
        }
        for i in 0..4 {
            v.push(self.inputs.get(i).and_then(|x| x.root).unwrap_or([0; 32]));
        }
        let total = self.amount as u128 + self.fee as u128;
        let mut t = [0u8; 32];
        t[..16].copy_from_slice(&total.to_le_bytes());
        v.push(t);
        v.push(self.output);
        v.push(num(self.recent as u64));
        v.push(num(self.fee_version as u64));
        v.push(num(self.token as u64));
        v.push(self.hashed);
        v
    }
}
/// The hash of all data that is bound to the proof without being a signal of its own
#[allow(clippy::too_many_arguments)]
pub fn hashed_inputs(recipient: &Pubkey, identifier: &Pubkey, iv: &B32, enc_owner: &B32, reference: &Pubkey, is_ata: bool, metadata: &[u8; 17], oc: &Pubkey, oa: u64, memo: Option<&[u8]>) -> B32 {
    let mut v = vec![];
    v.extend_from_slice(recipient.as_ref());
    v.extend_from_slice(identifier.as_ref());
    v.extend_from_slice(iv);
    v.extend_from_slice(enc_owner);
    v.extend_from_slice(reference.as_ref());
    v.push(is_ata as u8);
    v.extend_from_slice(metadata);
    v.extend_from_slice(oc.as_ref());
    v.extend_from_slice(&oa.to_le_bytes());
    if let Some(m) = memo {
        v.extend_from_slice(m);
    }
    let mut h = solana_program::hash::hash(&v).to_bytes();
    h[31] &= 0x1f;
    h
}

#[allow(clippy::too_many_arguments)]
pub fn init_verification(idx: u8, vkey: u32, trees: [u32; 2], r: &SendReq, skip: bool, fp: &Pubkey, identifier: &Pubkey, c0: &[Pubkey], c1: &[Pubkey]) -> Instruction {
    let hashes: Vec<B32> = r.inputs.iter().map(|i| i.nullifier).collect();
    let mut a = vec![
        sw(*fp), rw(verification(fp, idx)), ro(vkey_acc(vkey)), rw(null_dup(&hashes)), ro(system_program::id()), ro(*identifier),
        ro(storage()), rw(commitment_buffer()), ro(nullifier(trees[0])),
    ];
    ch(&mut a, c0, false);
    a.push(ro(nullifier(trees[1])));
    ch(&mut a, c1, false);
    ix(W::tag(7).u8(idx).u32(vkey).u32(trees[0]).u32(trees[1]).b(&r.ser()).bool(skip), a)
}
pub fn init_transfer_fee(idx: u8, fp: &Pubkey, token: u16) -> Instruction {
    ix(
        W::tag(8).u8(idx),
        vec![
            sw(*fp), rw(holding(fp, token)), rw(pool()), rw(holding(&pool(), token)), rw(fee_collector()), rw(holding(&fee_collector(), token)),
            ro(price_key(0)), ro(price_key(token)), ro(governor()), rw(verification(fp, idx)),
            ro(if token == 0 { system_program::id() } else { spl_token::id() }), ro(system_program::id()),
        ],
    )
}
pub fn init_proof(idx: u8, proof: &[u8], fp: &Pubkey) -> Instruction {
    assert_eq!(proof.len(), 65 + 129 + 65);
    ix(W::tag(9).u8(idx).b(proof), vec![sr(*fp), rw(verification(fp, idx))])
}
pub fn compute_verification(idx: u8, vkey: u32, fp: &Pubkey, children: &[Pubkey]) -> Instruction {
    let mut a = vec![ro(*fp), rw(verification(fp, idx)), ro(vkey_acc(vkey))];
    ch(&mut a, children, false);
    a.push(ro(ixs_sysvar::id()));
    ix(W::tag(10).u8(idx).u32(vkey), a)
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct FinData {
    pub total: u64,
    pub token: u16,
    pub mt_index: u32,
    pub commitment_index: u32,
    pub iv: B32,
    pub enc_owner: B32,
}
pub fn finalize_send(idx: u8, d: &FinData, uses_memo: bool, recipient: &Pubkey, identifier: &Pubkey, reference: Option<&Pubkey>, fp: &Pubkey) -> Instruction {
    ix(
        W::tag(11).u8(idx).u64(d.total).u16(d.token).u32(d.mt_index).u32(d.commitment_index).b(&d.iv).b(&d.enc_owner).bool(uses_memo),
        vec![
            ro(*recipient), ro(*identifier), ro(reference.copied().unwrap_or(ixs_sysvar::id())), ro(*fp), rw(queue()),
            rw(verification(fp, idx)), ro(storage()), rw(commitment_buffer()), ro(ixs_sysvar::id()),
        ],
    )
}
pub fn finalize_insert(idx: u8, fp: &Pubkey, tree: u32, children: &[Pubkey]) -> Instruction {
    let mut a = vec![ro(*fp), rw(verification(fp, idx)), rw(nullifier(tree))];
    ch(&mut a, children, true);
    ix(W::tag(12).u8(idx), a)
}
pub fn finalize_lamports(idx: u8, fp: &Pubkey, recipient: &Pubkey, opt: &Pubkey, dup: &Pubkey) -> Instruction {
    ix(
        W::tag(13).u8(idx),
        vec![
            sw(*fp), rw(*recipient), rw(pool()), rw(fee_collector()), rw(*opt), rw(queue()), rw(meta_queue()), rw(verification(fp, idx)),
            rw(*dup), ro(system_program::id()), ro(ixs_sysvar::id()),
        ],
    )
}
#[allow(clippy::too_many_arguments)]
pub fn finalize_token(idx: u8, fp: &Pubkey, fp_acc: &Pubkey, recipient: &Pubkey, recipient_wallet: &Pubkey, token: u16, opt: &Pubkey, dup: &Pubkey) -> Instruction {
    ix(
        W::tag(14).u8(idx),
        vec![
            sw(*fp), rw(*fp_acc), rw(*recipient), ro(*recipient_wallet), rw(pool()), rw(holding(&pool(), token)), rw(fee_collector()),
            rw(holding(&fee_collector(), token)), rw(*opt), rw(queue()), rw(meta_queue()), rw(verification(fp, idx)), rw(*dup),
            ro(spl_associated_token_account::id()), ro(spl_token::id()), ro(system_program::id()), ro(mint(token)), ro(ixs_sysvar::id()),
        ],
    )
}

// ---- keys ----
pub fn create_vkey(signer: &Pubkey, id: u32, inputs: u32, auth: Option<&Pubkey>) -> Instruction {
    let w = W::tag(15).u32(id).u32(inputs);
    // ElusivOption is fixed-size: tag byte and always the value
    let w = match auth {
        Some(a) => w.u8(1).key(a),
        None => w.u8(0).b(&[0; 32]),
    };
    ix(w, vec![sw(*signer), rw(vkey_acc(id)), ro(system_program::id())])
}
pub fn new_vkey_version(signer: &Pubkey, id: u32, data: &Pubkey) -> Instruction {
    ix(W::tag(16).u32(id), vec![sr(*signer), rw(vkey_acc(id)), rw(*data)])
}
pub fn update_vkey(signer: &Pubkey, id: u32, old: &Pubkey) -> Instruction {
    ix(W::tag(17).u32(id), vec![sw(*signer), rw(vkey_acc(id)), rw(*old), ro(system_program::id())])
}
pub fn set_vkey_data(signer: &Pubkey, id: u32, pos: u32, packet: &[u8], children: &[Pubkey]) -> Instruction {
    let mut a = vec![sr(*signer), rw(vkey_acc(id))];
    ch(&mut a, children, true);
    ix(W::tag(18).u32(id).u32(pos).u32(packet.len() as u32).b(packet), a)
}
pub fn freeze_vkey(signer: &Pubkey, id: u32) -> Instruction {
    ix(W::tag(19).u32(id), vec![sr(*signer), rw(vkey_acc(id))])
}
pub fn change_vkey_auth(signer: &Pubkey, id: u32, auth: &Pubkey) -> Instruction {
    ix(W::tag(20).u32(id).key(auth), vec![sr(*signer), rw(vkey_acc(id))])
}

// ---- administration ----
pub fn reset_tree(idx: u32, children: &[Pubkey]) -> Instruction {
    let mut a = vec![rw(storage())];
    ch(&mut a, children, true);
    a.push(rw(queue()));
    a.push(rw(nullifier(idx)));
    ix(W::tag(21).u32(idx), a)
}
pub fn open_single(payer: &Pubkey) -> Instruction {
    ix(
        W::tag(23),
        vec![sw(*payer), rw(pool()), rw(fee_collector()), rw(chashing()), rw(queue()), rw(storage()), rw(base_buffer()), ro(system_program::id())],
    )
}
pub fn open_nullifier(payer: &Pubkey, idx: u32) -> Instruction {
    ix(W::tag(24).u32(idx), vec![sw(*payer), rw(nullifier(idx)), ro(system_program::id())])
}
pub fn enable_storage_child(i: u32, child: &Pubkey) -> Instruction {
    ix(W::tag(25).u32(i), vec![rw(storage()), rw(*child)])
}
pub fn enable_nullifier_child(tree: u32, i: u32, child: &Pubkey) -> Instruction {
    ix(W::tag(26).u32(tree).u32(i), vec![rw(nullifier(tree)), rw(*child)])
}
pub fn enable_metadata_child(i: u32, child: &Pubkey) -> Instruction {
    ix(W::tag(27).u32(i), vec![rw(metadata()), rw(*child)])
}
pub fn setup_governor(payer: &Pubkey) -> Instruction {
    ix(W::tag(28), vec![sw(*payer), rw(governor()), ro(system_program::id())])
}
pub fn upgrade_governor(auth: &Pubkey, v: u32, rate: u32) -> Instruction {
    ix(W::tag(29).u32(v).u32(rate), vec![sr(*auth), rw(governor()), ro(queue())])
}
pub fn init_fee(payer: &Pubkey, v: u32, fee: &[u64; 8]) -> Instruction {
    let mut w = W::tag(30).u32(v);
    for f in fee {
        w = w.u64(*f);
    }
    ix(w, vec![sw(*payer), rw(governor()), rw(fee_acc(v)), ro(system_program::id())])
}
pub fn close_account(payer: &Pubkey, recipient: &Pubkey, acc: &Pubkey) -> Instruction {
    ix(W::tag(31), vec![sr(*payer), rw(*recipient), rw(*acc), ro(system_program::id())])
}
pub fn create_v1(payer: &Pubkey) -> Instruction {
    ix(
        W::tag(32),
        vec![sw(*payer), rw(commitment_buffer()), rw(meta_queue()), rw(metadata()), ro(storage()), ro(chashing()), rw(queue()), ro(system_program::id())],
    )
}
pub fn nop() -> Instruction {
    ix(W::tag(33), vec![])
}
pub fn transfer(from: &Pubkey, to: &Pubkey, lamports: u64) -> Instruction {
    solana_program::system_instruction::transfer(from, to, lamports)
}
pub fn memo(m: &[u8]) -> Instruction {
    Instruction { program_id: svm::memo_id(), accounts: vec![], data: m.to_vec() }
}
pub fn cu_ix() -> Instruction {
    // SetComputeUnitLimit(1_400_000)
    let mut d = vec![2u8];
    d.extend_from_slice(&1_400_000u32.to_le_bytes());
    Instruction { program_id: svm::compute_budget_id(), accounts: vec![], data: d }
}
