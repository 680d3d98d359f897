//! Boundary values of every type that is stored or sent.
use ark_bn254::{Fq, Fq12, Fq2, Fq6, Fr, G1Affine, G2Affine};
use ark_ff::BigInteger256;
use elusiv::bytes::ElusivOption;
use elusiv::commitment::poseidon_hash::BinarySpongeHashingState;
use elusiv::fields::*;
use elusiv::processor::*;
use elusiv::state::fee::*;
use elusiv::state::proof::*;
use elusiv::token::Lamports;
use elusiv::types::*;
use solana_program::pubkey::Pubkey;

use svm::vary;
/// values other than 0
pub fn n16() -> Vec<u16> { vec![1, 256, u16::MAX] }
pub fn n32() -> Vec<u32> { vec![1, 1 << 16, 0x0403_0201, u32::MAX] }
pub fn n64() -> Vec<u64> { vec![1, 1 << 32, 0x0807_0605_0403_0201, u64::MAX] }
pub fn with0<T: Default>(mut v: Vec<T>) -> Vec<T> {
    v.insert(0, T::default());
    v
}
pub fn ramp(n: u8) -> U256 { std::array::from_fn(|i| (i as u8).wrapping_mul(7).wrapping_add(n)) }
pub fn u256s() -> Vec<U256> {
    let mut a = [0; 32];
    a[0] = 1;
    let mut b = [0; 32];
    b[31] = 1;
    vec![a, b, ramp(3), [0xff; 32]]
}
pub fn raws() -> Vec<RawU256> { u256s().into_iter().map(RawU256::new).collect() }
pub fn keys() -> Vec<Pubkey> { u256s().into_iter().map(Pubkey::new_from_array).collect() }
pub fn opt_u256() -> Vec<ElusivOption<U256>> {
    let mut v: Vec<ElusivOption<U256>> = with0(u256s()).into_iter().map(ElusivOption::Some).collect();
    v.push(ElusivOption::None);
    v
}
pub fn opt_key() -> Vec<ElusivOption<Pubkey>> { opt_u256().into_iter().map(|x| x.option().map(Pubkey::new_from_array).into()).collect() }
pub fn metas() -> Vec<[u8; 17]> {
    let mut a = [0; 17];
    a[0] = 1;
    let mut b = [0; 17];
    b[16] = 1;
    vec![a, b, std::array::from_fn(|i| i as u8 + 1), [0xff; 17]]
}
pub fn big(n: u64) -> BigInteger256 { BigInteger256([n.wrapping_mul(0x9e37_79b9_7f4a_7c15), n.wrapping_mul(0xc2b2_ae3d_27d4_eb4f), n.wrapping_mul(0x1656_67b1_9e37_79f9), (n * 0x0123_4567) & 0x1fff_ffff_ffff_ffff]) }
pub fn bigs() -> Vec<BigInteger256> {
    let m = [0x3c208c16d87cfd47, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029];
    vec![
        BigInteger256([0; 4]), BigInteger256([1, 0, 0, 0]), BigInteger256([0, 1, 0, 0]), BigInteger256([0, 0, 1, 0]), BigInteger256([0, 0, 0, 1]), big(1), big(2),
        BigInteger256([m[0] - 1, m[1], m[2], m[3]]), BigInteger256([u64::MAX, 0, 0, 0]), BigInteger256([0, u64::MAX, u64::MAX, 0]),
    ]
}
pub fn fq(n: u64) -> Fq { base_skip_mr(if n == 0 { BigInteger256([0; 4]) } else { big(n) }) }
pub fn fqs() -> Vec<Fq> { bigs().into_iter().map(base_skip_mr).collect() }
pub fn frs() -> Vec<Fr> { bigs().into_iter().take(7).map(scalar_skip_mr).collect() }
/// every coordinate of a vector of field elements
pub fn spread<T>(n: usize, f: impl Fn(&[Fq]) -> T) -> Vec<T> {
    let mut v = vec![f(&vec![fq(0); n]), f(&(0..n).map(|i| fq(i as u64 + 1)).collect::<Vec<_>>()), f(&(0..n).rev().map(|i| fq(i as u64 + 1)).collect::<Vec<_>>())];
    for i in 0..n {
        for e in &fqs()[1..] {
            let mut x = vec![fq(0); n];
            x[i] = *e;
            v.push(f(&x));
        }
    }
    v
}
pub fn fq2s() -> Vec<Fq2> { spread(2, mk2) }
fn mk2(x: &[Fq]) -> Fq2 { Fq2::new(x[0], x[1]) }
pub fn mk6(x: &[Fq]) -> Fq6 { Fq6::new(mk2(&x[..2]), mk2(&x[2..]), mk2(&x[4..])) }
pub fn mk12(x: &[Fq]) -> Fq12 { Fq12::new(mk6(&x[..6]), mk6(&x[6..])) }
pub fn g1s() -> Vec<G1A> {
    let mut v = spread(2, |x| G1A(G1Affine::new(x[0], x[1], false)));
    v.push(G1A(G1Affine::new(fq(3), fq(4), true)));
    v
}
pub fn g2s() -> Vec<G2A> {
    let mut v = spread(4, |x| G2A(G2Affine::new(mk2(x), mk2(&x[2..]), false)));
    v.push(G2A(G2Affine::new(mk2(&[fq(1), fq(2)]), mk2(&[fq(3), fq(4)]), true)));
    v
}
pub fn homs() -> Vec<G2HomProjective> { spread(6, |x| G2HomProjective { x: mk2(x), y: mk2(&x[2..]), z: mk2(&x[4..]) }) }
pub fn proofs() -> Vec<Proof> {
    let (a, b) = (g1s(), g2s());
    vary!(Proof { a: a[0], b: b[0], c: a[0] }, Proof; a: [a[1], a[2], *a.last().unwrap()], b: [b[1], b[2], *b.last().unwrap()], c: [a[1], a[2], *a.last().unwrap()])
}
pub fn sponges() -> Vec<BinarySpongeHashingState> {
    let f = frs();
    let mut v = vec![BinarySpongeHashingState([f[0]; 3]), BinarySpongeHashingState([f[4], f[5], f[6]]), BinarySpongeHashingState([f[6], f[5], f[4]])];
    for i in 0..3 {
        for e in &f[1..] {
            let mut x = [f[0]; 3];
            x[i] = *e;
            v.push(BinarySpongeHashingState(x));
        }
    }
    v
}
pub fn lamports() -> Vec<Lamports> { n64().into_iter().map(Lamports).collect() }
pub fn points() -> Vec<BasisPointFee> { n64().into_iter().map(BasisPointFee).collect() }
pub fn fees() -> Vec<ProgramFee> {
    let z = ProgramFee {
        lamports_per_tx: Lamports(0), base_commitment_network_fee: BasisPointFee(0), proof_network_fee: BasisPointFee(0), base_commitment_subvention: Lamports(0),
        proof_subvention: Lamports(0), warden_hash_tx_reward: Lamports(0), warden_proof_reward: Lamports(0), proof_base_tx_count: 0,
    };
    vary!(z, ProgramFee; lamports_per_tx: lamports(), base_commitment_network_fee: points(), proof_network_fee: points(), base_commitment_subvention: lamports(),
        proof_subvention: lamports(), warden_hash_tx_reward: lamports(), warden_proof_reward: lamports(), proof_base_tx_count: n64())
}
pub fn base_requests() -> Vec<BaseCommitmentHashRequest> {
    let z = BaseCommitmentHashRequest { base_commitment: RawU256::ZERO, recent_commitment_index: 0, amount: 0, token_id: 0, commitment: RawU256::ZERO, fee_version: 0, min_batching_rate: 0 };
    vary!(z, BaseCommitmentHashRequest; base_commitment: raws(), recent_commitment_index: n32(), amount: n64(), token_id: n16(), commitment: raws(), fee_version: n32(), min_batching_rate: n32())
}
pub fn hash_requests() -> Vec<CommitmentHashRequest> {
    vary!(CommitmentHashRequest::default(), CommitmentHashRequest; commitment: u256s(), fee_version: n32(), min_batching_rate: n32())
}
pub fn opt_fees() -> Vec<OptionalFee> { vary!(OptionalFee::default(), OptionalFee; collector: keys(), amount: n64()) }
fn inputs() -> Vec<Vec<InputCommitment>> {
    let c = |root: Option<u8>, n: u8| InputCommitment { root: root.map(|r| RawU256::new(ramp(r))), nullifier_hash: RawU256::new(ramp(n)) };
    vec![
        vec![], vec![c(None, 1)], vec![c(Some(1), 1)], vec![c(Some(2), 1)], vec![c(Some(1), 1), c(None, 2)], vec![c(None, 1), c(Some(1), 2)], vec![c(Some(1), 1), c(Some(2), 2)],
        vec![c(Some(1), 1), c(None, 2), c(None, 3)], vec![c(Some(1), 1), c(None, 2), c(Some(2), 3)], vec![c(Some(1), 1), c(None, 2), c(None, 3), c(Some(2), 4)],
        vec![c(Some(1), 4), c(Some(2), 3), c(None, 2), c(None, 1)], vec![c(None, 1), c(None, 2), c(None, 3), c(None, 4)],
    ]
}
pub fn joins() -> Vec<JoinSplitPublicInputs> {
    let z = JoinSplitPublicInputs {
        input_commitments: vec![InputCommitment { root: Some(RawU256::ZERO), nullifier_hash: RawU256::ZERO }], output_commitment: RawU256::ZERO, recent_commitment_index: 0, fee_version: 0, amount: 0,
        fee: 0, optional_fee: OptionalFee::default(), token_id: 0, metadata: [0; 17],
    };
    vary!(z, JoinSplitPublicInputs; input_commitments: inputs(), output_commitment: raws(), recent_commitment_index: n32(), fee_version: n32(), amount: n64(), fee: n64(),
        optional_fee.collector: keys(), optional_fee.amount: n64(), token_id: n16(), metadata: metas())
}
pub fn sends() -> Vec<SendPublicInputs> {
    let j = joins();
    let few: Vec<_> = j.iter().step_by(97).skip(1).cloned().collect();
    let mut v = vary!(SendPublicInputs { join_split: j[0].clone(), recipient_is_associated_token_account: false, solana_pay_transfer: false, hashed_inputs: [0; 32] }, SendPublicInputs;
        join_split: few, recipient_is_associated_token_account: [true], solana_pay_transfer: [true], hashed_inputs: u256s());
    // longest
    let mut x = v[0].clone();
    x.join_split.input_commitments = inputs()[10].clone();
    x.solana_pay_transfer = true;
    x.hashed_inputs = [7; 32];
    v.push(x);
    v
}
pub fn migrates() -> Vec<MigratePublicInputs> {
    let j = joins();
    let few: Vec<_> = j.iter().step_by(97).skip(1).cloned().collect();
    let mut v = vary!(MigratePublicInputs { join_split: j[0].clone(), current_nsmt_root: RawU256::ZERO, next_nsmt_root: RawU256::ZERO }, MigratePublicInputs; join_split: few, current_nsmt_root: raws(), next_nsmt_root: raws());
    let mut x = v[0].clone();
    x.join_split.input_commitments = inputs()[10].clone();
    x.next_nsmt_root = RawU256::new([7; 32]);
    v.push(x);
    v
}
pub fn requests() -> Vec<ProofRequest> { sends().into_iter().map(ProofRequest::Send).chain(migrates().into_iter().map(ProofRequest::Migrate)).collect() }
pub fn other_data() -> Vec<VerificationAccountData> {
    let opt: Vec<ElusivOption<RawU256>> = with0(raws()).into_iter().map(ElusivOption::Some).collect();
    vary!(VerificationAccountData::default(), VerificationAccountData; fee_payer: raws(), fee_payer_account: raws(), recipient_wallet: opt, skip_nullifier_pda: [true], min_batching_rate: n32(), token_id: n16(),
        subvention: n64(), network_fee: n64(), commitment_hash_fee: lamports(), commitment_hash_fee_token: n64(), proof_verification_fee: n64(), associated_token_account_rent: n64())
}
pub fn states() -> Vec<VerificationState> {
    use VerificationState::*;
    vec![None, FeeTransferred, ProofSetup, InsertNullifiers, Finalized, Closed]
}
pub fn send_data() -> Vec<FinalizeSendData> {
    vary!(FinalizeSendData::default(), FinalizeSendData; total_amount: n64(), token_id: n16(), mt_index: n32(), commitment_index: n32(), iv: u256s(), encrypted_owner: u256s())
}
pub fn opt_bool() -> Vec<ElusivOption<bool>> { vec![ElusivOption::None, ElusivOption::Some(false), ElusivOption::Some(true)] }
pub fn packets() -> Vec<VKeyAccountDataPacket> { vec![VKeyAccountDataPacket(vec![]), VKeyAccountDataPacket(vec![0]), VKeyAccountDataPacket(vec![5; 17]), VKeyAccountDataPacket((0..964).map(|i| i as u8).collect()), VKeyAccountDataPacket(vec![0; 964])] }
