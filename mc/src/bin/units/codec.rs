//! Encodings of stored and sent types (C27).
use crate::vals::*;
use ark_bn254::*;
use ark_ff::{BigInteger256, PrimeField};
use borsh::{BorshDeserialize, BorshSerialize};
use elusiv::bytes::ElusivOption;
use elusiv::commitment::poseidon_hash::BinarySpongeHashingState;
use elusiv::fields::*;
use elusiv::instruction::ElusivInstruction;
use elusiv::map::ElusivMapPtr;
use elusiv::processor::*;
use elusiv::proof::verifier::VerificationStep;
use elusiv::state::fee::*;
use elusiv::state::program_account::*;
use elusiv::state::proof::*;
use elusiv::token::Lamports;
use elusiv::types::*;
use mc::*;
use solana_program::pubkey::Pubkey;
use svm::codec;

const P: &[&str] = &["C27"];

fn instructions() -> Vec<ElusivInstruction> {
    use ElusivInstruction::*;
    let mut v = vec![];
    let (n32, z) = (with0(n32()), 0u32);
    for x in &n32 {
        for b in [0u8, 1, 255] {
            v.push(StoreBaseCommitment { hash_account_index: *x, hash_account_bump: b, request: base_requests()[0].clone(), metadata: [0; 17] });
        }
        for y in &n32 {
            v.push(FinalizeBaseCommitmentHash { hash_account_index: *x, fee_version: *y });
            v.push(ComputeCommitmentHash { fee_version: *x, nonce: *y });
            v.push(EnableNullifierChildAccount { mt_index: *x, child_index: *y });
            v.push(UpgradeGovernorState { fee_version: *x, batching_rate: *y });
            v.push(CreateVkeyAccount { vkey_id: *x, public_inputs_count: *y, deploy_authority: ElusivOption::None });
            v.push(SetVkeyData { vkey_id: *x, data_position: *y, packet: VKeyAccountDataPacket(vec![1, 2, 3]) });
        }
        v.push(ComputeBaseCommitmentHash { hash_account_index: *x });
        v.push(CreateNewVkeyVersion { vkey_id: *x });
        v.push(UpdateVkeyVersion { vkey_id: *x });
        v.push(FreezeVkey { vkey_id: *x });
        for k in keys() {
            v.push(ChangeVkeyAuthority { vkey_id: *x, authority: k });
        }
        v.push(ResetActiveMerkleTree { active_mt_index: *x });
        v.push(ArchiveClosedMerkleTree { closed_mt_index: *x });
        v.push(OpenNullifierAccount { mt_index: *x });
        v.push(EnableStorageChildAccount { child_index: *x });
        v.push(EnableMetadataChildAccount { child_index: *x });
        v.push(InitNewFeeVersion { fee_version: *x, program_fee: fees()[0].clone() });
    }
    for r in base_requests() {
        v.push(StoreBaseCommitment { hash_account_index: 2, hash_account_bump: 3, request: r, metadata: [9; 17] });
    }
    for m in metas() {
        v.push(StoreBaseCommitment { hash_account_index: z, hash_account_bump: 0, request: base_requests()[0].clone(), metadata: m });
    }
    for b in [false, true] {
        v.push(InitCommitmentHashSetup { insertion_can_fail: b });
        v.push(InitCommitmentHash { insertion_can_fail: b });
    }
    v.extend([FinalizeCommitmentHash, OpenSingleInstanceAccounts, SetupGovernorAccount, CloseProgramAccount, Nop]);
    for r in requests() {
        v.push(InitVerification { verification_account_index: 0, vkey_id: 0, tree_indices: [0, 0], request: r, skip_nullifier_pda: false });
    }
    let r = requests()[0].clone();
    for x in &n32[1..] {
        v.push(InitVerification { verification_account_index: 1, vkey_id: *x, tree_indices: [0, 0], request: r.clone(), skip_nullifier_pda: true });
        v.push(InitVerification { verification_account_index: 1, vkey_id: 0, tree_indices: [*x, 0], request: r.clone(), skip_nullifier_pda: true });
        v.push(InitVerification { verification_account_index: 1, vkey_id: 0, tree_indices: [0, *x], request: r.clone(), skip_nullifier_pda: true });
    }
    for i in [0u8, 1, 255] {
        v.push(InitVerificationTransferFee { verification_account_index: i });
        v.push(FinalizeVerificationInsertNullifier { verification_account_index: i });
        v.push(FinalizeVerificationTransferLamports { verification_account_index: i });
        v.push(FinalizeVerificationTransferToken { verification_account_index: i });
        for x in &n32 {
            v.push(ComputeVerification { verification_account_index: i, vkey_id: *x });
        }
    }
    for p in proofs() {
        v.push(InitVerificationProof { verification_account_index: 7, proof: p });
    }
    for (i, d) in send_data().into_iter().enumerate() {
        v.push(FinalizeVerificationSend { verification_account_index: 3, data: d, uses_memo: i % 2 == 1 });
    }
    for k in opt_key() {
        v.push(CreateVkeyAccount { vkey_id: 5, public_inputs_count: 14, deploy_authority: k });
    }
    for p in packets() {
        v.push(SetVkeyData { vkey_id: 5, data_position: 14, packet: p });
    }
    for f in fees() {
        v.push(InitNewFeeVersion { fee_version: 9, program_fee: f });
    }
    v
}
fn opts<T: Clone>(v: Vec<T>) -> Vec<ElusivOption<T>> { std::iter::once(ElusivOption::None).chain(v.into_iter().map(ElusivOption::Some)).collect() }

pub fn run_all(c: &mut Check) {
    if c.wants("codec", P) {
        let join = 4 + 4 * 32 + 2 * 33 + 2 + 32 + 4 + 4 + 8 + 8 + 40 + 2 + 17;
        let list = vec![
            codec!("RawU256", RawU256, true, 32, with0(raws())),
            codec!("OrdU256", OrdU256, true, 32, with0(u256s()).into_iter().map(OrdU256).collect()),
            codec!("BigInteger256", Wrap<BigInteger256>, true, 32, bigs().into_iter().map(Wrap).collect()),
            codec!("Fr", Wrap<Fr>, true, 32, frs().into_iter().map(Wrap).collect()),
            codec!("Fq", Wrap<Fq>, true, 32, fqs().into_iter().map(Wrap).collect()),
            codec!("Fq2", Wrap<Fq2>, true, 64, fq2s().into_iter().map(Wrap).collect()),
            codec!("Fq6", Wrap<Fq6>, true, 192, spread(6, mk6).into_iter().map(Wrap).collect()),
            codec!("Fq12", Wrap<Fq12>, true, 384, spread(12, mk12).into_iter().map(Wrap).collect()),
            codec!("G1A", G1A, true, 65, g1s()),
            codec!("Wrap<G1A>", Wrap<G1A>, true, 65, g1s().into_iter().map(Wrap).collect()),
            codec!("G2A", G2A, true, 129, g2s()),
            codec!("G2HomProjective", G2HomProjective, true, 192, homs()),
            codec!("Proof", Proof, true, 259, proofs()),
            codec!("BinarySpongeHashingState", BinarySpongeHashingState, true, 96, sponges()),
            codec!("Lamports", Lamports, true, 8, with0(lamports())),
            codec!("BasisPointFee", BasisPointFee, true, 8, points()),
            codec!("ProgramFee", ProgramFee, true, 64, fees()),
            codec!("BaseCommitmentHashRequest", BaseCommitmentHashRequest, true, 86, base_requests()),
            codec!("CommitmentHashRequest", CommitmentHashRequest, true, 40, hash_requests()),
            codec!("OptionalFee", OptionalFee, true, 40, opt_fees()),
            codec!("JoinSplitPublicInputs", JoinSplitPublicInputs, false, join, joins()),
            codec!("SendPublicInputs", SendPublicInputs, false, join + 34, sends()),
            codec!("MigratePublicInputs", MigratePublicInputs, false, join + 64, migrates()),
            codec!("ProofRequest", ProofRequest, false, join + 65, requests()),
            codec!("VerificationAccountData", VerificationAccountData, true, 152, other_data()),
            codec!("VerificationState", VerificationState, true, 1, states()),
            codec!("VerificationStep", VerificationStep, true, 1, vec![VerificationStep::PublicInputPreparation, VerificationStep::CombinedMillerLoop, VerificationStep::FinalExponentiation]),
            codec!("PDAAccountData", PDAAccountData, true, 2, (0..=255u8).flat_map(|b| [0u8, 1, 255].map(|v| PDAAccountData { bump_seed: b, version: v })).collect()),
            codec!("ChildAccountConfig", ChildAccountConfig, true, 1, vec![ChildAccountConfig { is_in_use: false }, ChildAccountConfig { is_in_use: true }]),
            codec!("ElusivMapPtr", ElusivMapPtr, true, 2, with0(n16()).into_iter().map(ElusivMapPtr).collect()),
            codec!("VKeyAccountDataPacket", VKeyAccountDataPacket, false, 968, packets()),
            codec!("Option<Pubkey>", ElusivOption<Pubkey>, true, 33, opt_key()),
            codec!("Option<U256>", ElusivOption<U256>, true, 33, opt_u256()),
            codec!("Option<bool>", ElusivOption<bool>, true, 2, opt_bool()),
            codec!("Option<u16>", ElusivOption<u16>, true, 3, opts(with0(n16()))),
            codec!("Option<u32>", ElusivOption<u32>, true, 5, opts(with0(n32()))),
            codec!("Option<u64>", ElusivOption<u64>, true, 9, opts(with0(n64()))),
            codec!("Option<RawU256>", ElusivOption<RawU256>, true, 33, opts(with0(raws()))),
            codec!("[Option<u32>; 3]", [W3; 1], true, 15, three()),
            codec!("u128", u128, true, 16, vec![0, 1, 1 << 64, u128::MAX, 0x0f0e_0d0c_0b0a_0908_0706_0504_0302_0100]),
            codec!("Pubkey", Pubkey, true, 32, with0(keys())),
        ];
        svm::codec::run(c, "codec", &list, P);
    }
    if c.wants("instruction-codec", P) {
        // the instructions have no declared size
        let v: Vec<Vec<u8>> = instructions().iter().map(|i| i.try_to_vec().unwrap()).collect();
        let max = v.iter().map(|x| x.len()).max().unwrap();
        let list = vec![svm::codec::Codec {
            name: "ElusivInstruction", size: max, fixed: false, expected: max, vals: v,
            dec: Box::new(|b| {
                let mut s = b;
                let i = ElusivInstruction::deserialize(&mut s).ok()?;
                Some((i.try_to_vec().ok()?, b.len() - s.len()))
            }),
        }];
        svm::codec::run(c, "instruction-codec", &list, P);
        svm::codec::tags(c, "instruction-tags", &list[0], 34, P);
    }
    if c.wants("numbers", P) {
        numbers(c);
    }
    if c.wants("joined-requests", P) {
        enums(c);
    }
}
/// a sequence of optional values
#[derive(Clone, Copy, Default)]
struct W3([ElusivOptionU32; 3]);
#[derive(Clone, Copy, Default)]
struct ElusivOptionU32(Option<u32>);
impl BorshSerialize for W3 {
    fn serialize<W: std::io::Write>(&self, w: &mut W) -> std::io::Result<()> {
        for x in self.0 {
            ElusivOption::<u32>::from(x.0).serialize(w)?;
        }
        Ok(())
    }
}
impl BorshDeserialize for W3 {
    fn deserialize(b: &mut &[u8]) -> std::io::Result<Self> {
        let mut v = [ElusivOptionU32(None); 3];
        for x in &mut v {
            x.0 = ElusivOption::<u32>::deserialize(b)?.option();
        }
        Ok(W3(v))
    }
}
impl elusiv_types::BorshSerDeSized for W3 {
    const SIZE: usize = 3 * <ElusivOption<u32> as elusiv_types::BorshSerDeSized>::SIZE;
}
fn three() -> Vec<[W3; 1]> {
    let o = [None, Some(0), Some(1), Some(u32::MAX)].map(ElusivOptionU32);
    let mut v = vec![];
    for a in o {
        for b in o {
            for c in o {
                v.push([W3([a, b, c])]);
            }
        }
    }
    v
}
/// conversions between representations of numbers
fn numbers(c: &mut Check) {
    let mut cases: Vec<U256> = bigs().iter().map(|b| {
        let mut v = [0; 32];
        for i in 0..4 {
            v[8 * i..8 * i + 8].copy_from_slice(&b.0[i].to_le_bytes());
        }
        v
    }).collect();
    cases.extend(with0(u256s()));
    for bit in 0..256 {
        let mut v = [0; 32];
        v[bit / 8] = 1 << (bit % 8);
        cases.push(v);
        v[0] |= 1;
        cases.push(v);
    }
    // around the modulus
    let m = SCALAR_MODULUS_RAW.0;
    for d in [-2i64, -1, 0, 1, 2] {
        let mut v = [0; 32];
        for i in 0..4 {
            let l = if i == 0 { (m[0] as i64).wrapping_add(d) as u64 } else { m[i] };
            v[8 * i..8 * i + 8].copy_from_slice(&l.to_le_bytes());
        }
        cases.push(v);
    }
    c.grid("numbers", "boundary 256-bit numbers, every single bit, around the modulus", &cases, |v, out| {
        let mut bad = |n: &str| viol(out, P, format!("numbers:{}", n), format!("{} of {:02x?}", n, v));
        let limbs: Vec<u64> = v.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        if u256_to_le_limbs(*v)[..] != limbs[..] || u256_to_big_uint(v).0[..] != limbs[..] {
            bad("limbs");
        }
        if (0..4).any(|i| u64_limb(v, 8 * i) != limbs[i]) {
            bad("limb");
        }
        if big_uint_to_u256(&u256_to_big_uint(v)) != *v {
            bad("big integer");
        }
        let s = split_u256_into_limbs(*v);
        if s[0][..16] != v[..16] || s[1][..16] != v[16..] || s.iter().any(|x| x[16..] != [0; 16]) {
            bad("halves");
        }
        let less = {
            let m: Vec<u8> = SCALAR_MODULUS_RAW.0.iter().flat_map(|l| l.to_le_bytes()).collect();
            v.iter().rev().cmp(m.iter().rev()) == std::cmp::Ordering::Less
        };
        if is_element_scalar_field(u256_to_big_uint(v)) != less {
            bad("membership in the field");
        }
        if less {
            // stored form, canonical form
            if fr_to_u256_le(&u256_to_fr_skip_mr(v)) != *v {
                bad("stored form");
            }
            let r = RawU256::new(*v);
            let f = Fr::from_repr(u256_to_big_uint(v)).unwrap();
            if fr_to_u256_le_repr(&f) != *v || u256_to_fr_skip_mr(&r.reduce()) != f || r.skip_mr() != *v || r.skip_mr_ref() != v {
                bad("canonical form");
            }
        }
        let n = limbs[0];
        let mut w = [0; 32];
        w[..8].copy_from_slice(&n.to_le_bytes());
        if u64_to_u256_skip_mr(n) != w || u64_to_u256(n) != RawU256::new(w).reduce() || u64_to_scalar(n) != Fr::from_repr(BigInteger256([n, 0, 0, 0])).unwrap() || fr_to_u256_le(&u64_to_scalar_skip_mr(n)) != w {
            bad("small number");
        }
        (1, hash_bytes(7, v))
    });
}
/// reading variable-length requests from their fixed-size place
fn enums(c: &mut Check) {
    use elusiv_types::{BorshSerDeSized, BorshSerDeSizedEnum};
    let v = requests();
    c.grid("joined-requests", "all requests in a fixed-size place over zeros and junk", &v, |r, out| {
        let e = r.try_to_vec().unwrap();
        for fill in [0u8, 0xff, 0x01] {
            let mut b = vec![fill; ProofRequest::SIZE + 5];
            b[..e.len()].copy_from_slice(&e);
            let mut s = &b[..];
            let ok = svm::codec::quiet(|| ProofRequest::deserialize_enum_full(&mut s).ok());
            match ok {
                Some(Some(x)) if x == *r => {}
                _ => viol(out, P, "request:place", format!("a request of {} bytes is not read back over {}", e.len(), fill)),
            }
        }
        (3, hash_bytes(7, &e))
    });
}
