//! Account types: writing one field changes only that field (C26).
use crate::vals::*;
use elusiv::bytes::{ElusivOption, SizedType};
use elusiv::fields::*;
use elusiv::proof::verifier::VerificationStep;
use elusiv::state::commitment::*;
use elusiv::state::fee::FeeAccount;
use elusiv::state::governor::*;
use elusiv::state::metadata::*;
use elusiv::state::nullifier::*;
use elusiv::state::program_account::*;
use elusiv::state::proof::*;
use elusiv::state::storage::StorageAccount;
use elusiv::state::vkey::VKeyAccount;
use elusiv::types::*;
use mc::*;
use svm::layout::*;
use svm::{lay_arr, lay_lazy, lay_val};

const P: &[&str] = &["C26"];

macro_rules! lay {
    ($acc:ident, $fields:expr) => {
        Lay::new(stringify!($acc), <$acc as SizedAccount>::SIZE, |d| $acc::new(d).is_ok(), $fields)
    };
}
/// the keys of the child accounts
macro_rules! children {
    ($acc:ident, $n:expr) => {{
        Fld {
            name: "pubkeys", off: 0, len: 33, n: $n,
            set: Some(Box::new(|d: &mut [u8], i: usize, v: usize| $acc::new(d).unwrap().set_child_pubkey(i, opt_key()[v].clone()))),
            get: Some(Box::new(|d: &mut [u8], i: usize| { let o: ElusivOption<solana_program::pubkey::Pubkey> = $acc::new(d).unwrap().get_child_pubkey(i).into(); borsh::BorshSerialize::try_to_vec(&o).unwrap() })),
            vals: opt_key().iter().map(|v| borsh::BorshSerialize::try_to_vec(v).unwrap()).collect(),
        }
    }};
}
fn b32() -> Vec<U256> { with0(u256s()) }
fn u32s() -> Vec<u32> { with0(n32()) }
fn bools() -> Vec<bool> { vec![false, true] }
fn steps() -> Vec<VerificationStep> { vec![VerificationStep::PublicInputPreparation, VerificationStep::CombinedMillerLoop, VerificationStep::FinalExponentiation] }

pub fn lays() -> Vec<Lay> {
    let pda = || gap("pda_data", 2, 1);
    let ht = (1 << 5) - 1;
    vec![
        lay!(GovernorAccount, vec![
            pda(), lay_val!(GovernorAccount, "fee_version", get_fee_version, set_fee_version, 4, u32s()), lay_val!(GovernorAccount, "program_fee", get_program_fee, set_program_fee, 64, fees()),
            lay_val!(GovernorAccount, "commitment_batching_rate", get_commitment_batching_rate, set_commitment_batching_rate, 4, u32s()), gap("program_version", 4, 1),
        ]),
        lay!(PoolAccount, vec![pda()]),
        lay!(FeeCollectorAccount, vec![pda()]),
        lay!(NullifierDuplicateAccount, vec![pda()]),
        lay!(FeeAccount, vec![pda(), lay_val!(FeeAccount, "program_fee", get_program_fee, set_program_fee, 64, fees())]),
        lay!(BaseCommitmentHashingAccount, vec![
            pda(), lay_val!(BaseCommitmentHashingAccount, "instruction", get_instruction, set_instruction, 4, u32s()), gap("round", 4, 1),
            lay_val!(BaseCommitmentHashingAccount, "fee_version", get_fee_version, set_fee_version, 4, u32s()), lay_val!(BaseCommitmentHashingAccount, "fee_payer", get_fee_payer, set_fee_payer, 32, b32()),
            lay_val!(BaseCommitmentHashingAccount, "is_active", get_is_active, set_is_active, 1, bools()), gap("token_id", 2, 1),
            lay_val!(BaseCommitmentHashingAccount, "state", get_state, set_state, 96, sponges()), lay_val!(BaseCommitmentHashingAccount, "min_batching_rate", get_min_batching_rate, set_min_batching_rate, 4, u32s()),
            lay_val!(BaseCommitmentHashingAccount, "metadata", get_metadata, set_metadata, 17, with0(metas())),
        ]),
        lay!(CommitmentHashingAccount, vec![
            pda(), lay_val!(CommitmentHashingAccount, "instruction", get_instruction, set_instruction, 4, u32s()), gap("round", 4, 1),
            lay_val!(CommitmentHashingAccount, "fee_version", get_fee_version, set_fee_version, 4, u32s()), lay_val!(CommitmentHashingAccount, "is_active", get_is_active, set_is_active, 1, bools()),
            lay_val!(CommitmentHashingAccount, "setup", get_setup, set_setup, 1, bools()), lay_val!(CommitmentHashingAccount, "finalization_ix", get_finalization_ix, set_finalization_ix, 4, u32s()),
            lay_val!(CommitmentHashingAccount, "batching_rate", get_batching_rate, set_batching_rate, 4, u32s()), gap("state", 96, 1),
            lay_val!(CommitmentHashingAccount, "ordering", get_ordering, set_ordering, 4, u32s()), lay_arr!(CommitmentHashingAccount, "siblings", get_siblings, set_siblings, 32, 20, b32()),
            gap("above_hashes", 32, 20), lay_arr!(CommitmentHashingAccount, "hash_tree", get_hash_tree, set_hash_tree, 32, ht, b32()),
        ]),
        lay!(BaseCommitmentBufferAccount, vec![pda(), gap("values", 32, 128), gap("length", 4, 1), gap("pointer", 4, 1)]),
        lay!(CommitmentBufferAccount, vec![pda(), gap("values", 32, 128), gap("length", 4, 1), gap("pointer", 4, 1)]),
        lay!(CommitmentQueueAccount, vec![pda(), gap("head", 4, 1), gap("tail", 4, 1), gap("raw_data", 40, 240)]),
        lay!(MetadataQueueAccount, vec![pda(), gap("head", 4, 1), gap("tail", 4, 1), gap("raw_data", 17, 240)]),
        lay!(MetadataAccount, vec![pda(), children!(MetadataAccount, 16), lay_val!(MetadataAccount, "next_metadata_ptr", get_next_metadata_ptr, set_next_metadata_ptr, 4, u32s())]),
        lay!(StorageAccount, vec![
            pda(), children!(StorageAccount, 25), lay_val!(StorageAccount, "next_commitment_ptr", get_next_commitment_ptr, set_next_commitment_ptr, 4, u32s()),
            lay_val!(StorageAccount, "trees_count", get_trees_count, set_trees_count, 4, u32s()), gap("archived_count", 4, 1),
            lay_arr!(StorageAccount, "active_mt_root_history", get_active_mt_root_history, set_active_mt_root_history, 32, 100, b32()),
            lay_val!(StorageAccount, "mt_roots_count", get_mt_roots_count, set_mt_roots_count, 4, u32s()),
        ]),
        lay!(VKeyAccount, vec![
            pda(), children!(VKeyAccount, 2), lay_val!(VKeyAccount, "public_inputs_count", get_public_inputs_count, set_public_inputs_count, 4, u32s()),
            lay_val!(VKeyAccount, "authority", get_authority, set_authority, 33, opt_key()), lay_val!(VKeyAccount, "is_frozen", get_is_frozen, set_is_frozen, 1, bools()),
            lay_val!(VKeyAccount, "version", get_version, set_version, 4, u32s()),
        ]),
        lay!(NullifierAccount, vec![
            pda(), children!(NullifierAccount, 16), lay_val!(NullifierAccount, "root", get_root, set_root, 32, b32()),
            lay_val!(NullifierAccount, "nullifier_hash_count", get_nullifier_hash_count, set_nullifier_hash_count, 4, u32s()),
            lay_arr!(NullifierAccount, "max_values", get_max_values, set_max_values, 33, 16, opt_u256()), gap("moved_values_count", 1, 1), gap("moved_values", 32, 4), gap("moved_values_target", 1, 4),
        ]),
        lay!(ArchivedNullifierAccount, vec![pda(), gap("commitment_root", 32, 1), gap("nullifier_root", 32, 1)]),
        lay!(VerificationAccount, vec![
            pda(), gap("instruction", 4, 1), gap("round", 4, 1),
            lay_val!(VerificationAccount, "prepare_inputs_instructions_count", get_prepare_inputs_instructions_count, set_prepare_inputs_instructions_count, 4, u32s()),
            lay_arr!(VerificationAccount, "prepare_inputs_instructions", get_prepare_inputs_instructions, set_prepare_inputs_instructions, 2, 140, with0(n16())),
            lay_val!(VerificationAccount, "vkey_id", get_vkey_id, set_vkey_id, 4, u32s()), lay_val!(VerificationAccount, "step", get_step, set_step, 1, steps()),
            lay_val!(VerificationAccount, "state", get_state, set_state, 1, states()), lay_arr!(VerificationAccount, "public_input", get_public_input, set_public_input, 32, 14, with0(raws())),
            lay_lazy!(VerificationAccount, "a", a, 65, g1s()), lay_lazy!(VerificationAccount, "b", b, 129, g2s()), lay_lazy!(VerificationAccount, "c", c, 65, g1s()),
            gap("prepared_inputs", 65, 1), gap("r", 192, 1), gap("f", 384, 1), gap("alt_b", 129, 1), gap("coeff_index", 1, 1),
            gap("ram_fq", 32, 6), gap("ram_fq2", 64, 10), gap("ram_fq6", 192, 3), gap("ram_fq12", 384, 7),
            lay_val!(VerificationAccount, "is_verified", get_is_verified, set_is_verified, 2, opt_bool()), lay_val!(VerificationAccount, "other_data", get_other_data, set_other_data, 152, other_data()),
            lay_val!(VerificationAccount, "request", get_request, set_request, 380, requests()), lay_arr!(VerificationAccount, "tree_indices", get_tree_indices, set_tree_indices, 4, 2, u32s()),
        ]),
    ]
}

pub fn run_all(c: &mut Check) {
    if c.wants("fields", P) {
        svm::layout::run(c, "fields", &lays(), P);
    }
    if c.wants("sequences", P) {
        sequences(c);
    }
}

/// RAM of the computations, lazily decoded arrays: all short sequences of operations against a plain array
#[derive(Clone, Copy, Debug)]
enum Op {
    Write(usize, usize),
    Read(usize),
    Frame(usize),
    Serialize,
    Reopen,
}
fn ram_case(ops: &[Op], out: &mut Vec<Viol>) -> (u64, u128) {
    use ark_bn254::Fq;
    use elusiv::elusiv_computation::RAM;
    const N: usize = 4;
    let vals: Vec<Fq> = vec![fq(0), fq(1), fq(2)];
    let start: Vec<Fq> = (0..N).map(|i| fq(10 + i as u64)).collect();
    let enc = |v: &[Fq]| -> Vec<u8> { v.iter().flat_map(|x| borsh::BorshSerialize::try_to_vec(&Wrap(*x)).unwrap()).collect() };
    let mut data = enc(&start);
    let (mut stored, mut live) = (start.clone(), start);
    let mut i = 0;
    let mut frame = 0;
    let mut bad = |m: String| viol(out, P, "ram", format!("{} in {:?}", m, ops));
    assert_eq!(data.len(), <LazyRAM<Fq, N> as SizedType>::SIZE);
    while i < ops.len() {
        {
            let mut ram = LazyRAM::<Fq, N>::new(&mut data);
            frame = 0 * frame;
            while i < ops.len() {
                match ops[i] {
                    Op::Write(x, v) if frame + x < N => {
                        ram.write(vals[v], x);
                        live[frame + x] = vals[v];
                    }
                    Op::Read(x) if frame + x < N => {
                        if ram.read(x) != live[frame + x] {
                            bad(format!("reading {} (frame {})", x, frame));
                        }
                    }
                    Op::Frame(f) => {
                        ram.set_frame(f);
                        frame = f;
                        if ram.get_frame() != f {
                            bad("frame".into());
                        }
                    }
                    Op::Serialize => {
                        ram.serialize().unwrap();
                        stored = live.clone();
                    }
                    Op::Reopen => {
                        i += 1;
                        break;
                    }
                    _ => {}
                }
                i += 1;
            }
        }
        if data != enc(&stored) {
            bad("the stored bytes are wrong".into());
        }
        live = stored.clone();
    }
    (ops.len() as u64, hash_bytes(7, &data))
}
fn array_case(ops: &[Op], out: &mut Vec<Viol>) -> (u64, u128) {
    const N: usize = 4;
    let vals = [0u32, 0x0403_0201, u32::MAX];
    let start = [11u32, 12, 13, 14];
    let enc = |v: &[u32]| -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()).collect() };
    let mut bad = |m: String| viol(out, P, "array", format!("{} in {:?}", m, ops));
    // immediate and deferred writing of lazy arrays, immediate arrays
    for kind in 0..3 {
        let mut data = enc(&start);
        let (mut stored, mut live) = (start, start);
        let mut i = 0;
        while i < ops.len() {
            {
                let mut jit_data = data.clone();
                let mut jit = JITArray::<u32, N>::new(&mut jit_data);
                let mut a = LazyArray::<u32, N>::new(&mut data);
                while i < ops.len() {
                    match ops[i] {
                        Op::Write(x, v) => {
                            live[x] = vals[v];
                            match kind {
                                0 => a.set(x, vals[v]),
                                1 => a.set_no_serialization(x, vals[v]),
                                _ => jit.set(x, &vals[v]),
                            }
                            if kind != 1 {
                                stored = live;
                            }
                        }
                        Op::Read(x) => {
                            let g = if kind == 2 { jit.get(x) } else { a.get(x) };
                            if g != live[x] {
                                bad(format!("kind {} reading {}", kind, x));
                            }
                        }
                        Op::Serialize if kind < 2 => {
                            a.serialize();
                            stored = live;
                        }
                        Op::Reopen => {
                            i += 1;
                            break;
                        }
                        _ => {}
                    }
                    i += 1;
                }
                if kind == 2 {
                    data = jit_data;
                }
            }
            if data != enc(&stored) {
                bad(format!("kind {}: the stored bytes are wrong", kind));
            }
            live = stored;
        }
    }
    // single values
    let mut data = start[0].to_le_bytes().to_vec();
    let (mut stored, mut live) = (start[0], start[0]);
    let mut i = 0;
    while i < ops.len() {
        {
            let mut a = Lazy::<u32>::new(&mut data);
            while i < ops.len() {
                match ops[i] {
                    Op::Write(0, v) => {
                        a.set_no_serialization(vals[v]);
                        live = vals[v];
                    }
                    Op::Write(_, v) => {
                        a.set(vals[v]);
                        live = vals[v];
                        stored = live;
                    }
                    Op::Read(_) => {
                        if a.get() != live {
                            bad("reading a value".into());
                        }
                    }
                    Op::Serialize => {
                        a.serialize();
                        stored = live;
                    }
                    Op::Reopen => {
                        i += 1;
                        break;
                    }
                    _ => {}
                }
                i += 1;
            }
        }
        if data != stored.to_le_bytes() {
            bad("the stored value is wrong".into());
        }
        live = stored;
    }
    (ops.len() as u64 * 4, hash_bytes(7, &data))
}
fn sequences(c: &mut Check) {
    let mut alpha = vec![Op::Serialize, Op::Reopen];
    for i in 0..4 {
        alpha.push(Op::Read(i));
        alpha.extend([Op::Write(i, 1), Op::Write(i, 2)]);
    }
    alpha.push(Op::Write(1, 0));
    let with_frames: Vec<Op> = alpha.iter().copied().chain([Op::Frame(0), Op::Frame(1), Op::Frame(2)]).collect();
    for (name, alpha, f) in [("ram", with_frames, ram_case as fn(&[Op], &mut Vec<Viol>) -> (u64, u128)), ("arrays", alpha, array_case)] {
        let depth = c.tier(4, 5);
        let mut cases: Vec<Vec<Op>> = vec![vec![]];
        for _ in 0..depth {
            cases = cases.iter().flat_map(|p| alpha.iter().map(move |o| p.iter().copied().chain([*o]).collect())).collect();
        }
        c.grid(name, &format!("all sequences of {} operations over {}", depth, alpha.len()), &cases, |s, out| f(s, out));
    }
}
