//! The partition of computations into instructions and transactions: every round exactly once, no transaction over the limit of the chain (C35).
use elusiv::commitment::*;
use elusiv::processor::COMPUTE_VERIFICATION_IX_COUNT;
use elusiv::proof::verifier::*;
use elusiv::state::fee::ProgramFee;
use elusiv_computation::*;
use mc::*;
use svm::codec::quiet;

const P: &[&str] = &["C35"];
/// what the chain grants a transaction
const LIMIT: u64 = 1_400_000;

/// cost in kCU of one round of the input preparation
fn round_cost(x: &[u8; 32], b: usize) -> u64 {
    match b {
        32 => if x.iter().all(|b| *b == 0) { 0 } else { 30 },
        _ => if x[b] == 0 { 0 } else { 22 },
    }
}
fn patterns() -> Vec<[u8; 32]> {
    let f = |g: &dyn Fn(usize) -> bool| std::array::from_fn(|i| if g(i) { 1 + i as u8 * 5 } else { 0 });
    let mut v = vec![f(&|_| false), f(&|_| true), f(&|i| i % 2 == 0), f(&|i| i % 2 == 1)];
    for p in 0..32 {
        v.extend([f(&|i| i == p), f(&|i| i != p), f(&|i| i <= p), f(&|i| i >= p)]);
    }
    v.sort();
    v.dedup();
    v
}

fn prepare(c: &mut Check) {
    let p = patterns();
    let mut cases = vec![];
    for n in 1..=14usize {
        for a in 0..p.len() {
            cases.push((n, a));
        }
    }
    let bounds = format!("1..14 inputs, the first k of one of {} byte patterns, the others of another, every k", p.len());
    c.grid("input-costs", &bounds, &cases, |(n, a), out| {
        let (mut steps, mut h) = (0, 0u128);
        for b in 0..p.len() {
            for k in 1..=*n {
                if k == *n && b != *a {
                    continue;
                }
                let x: Vec<[u8; 32]> = (0..*n).map(|i| if i < k { p[*a] } else { p[b] }).collect();
                steps += 1;
                let Some(parts) = quiet(|| prepare_public_inputs_instructions(&x, *n)) else {
                    viol(out, P, "inputs:refused", format!("{} inputs (patterns {} and {} after {}): no instructions", n, a, b, k));
                    continue;
                };
                let costs: Vec<u64> = x.iter().flat_map(|x| (0..33).map(|b| round_cost(x, b)).collect::<Vec<_>>()).collect();
                check(out, "inputs", &costs, &parts, LIMIT / 1000, || format!("{} inputs, patterns {:?} and {:?} after {}", n, p[*a], p[b], k));
                h = h.wrapping_mul(31).wrapping_add(parts.len() as u128);
            }
        }
        (steps, h ^ (*n as u128) << 64)
    });
}

/// the parts cover all rounds in order and none exceeds the limit
fn check(out: &mut Vec<Viol>, what: &str, costs: &[u64], parts: &[u32], limit: u64, case: impl Fn() -> String) {
    if parts.iter().map(|x| *x as u64).sum::<u64>() != costs.len() as u64 {
        viol(out, P, format!("{}:rounds", what), format!("{}: parts {:?} for {} rounds", case(), parts, costs.len()));
        return;
    }
    let mut at = 0;
    for (i, n) in parts.iter().enumerate() {
        let cost: u64 = costs[at..at + *n as usize].iter().sum();
        if cost > limit {
            viol(out, P, format!("{}:limit", what), format!("{}: transaction {} costs {} of {}", case(), i, cost, limit));
        }
        at += *n as usize;
    }
}

/// the partition itself, for every sequence of costs
fn partition(c: &mut Check) {
    let (max, len) = (100_000u32, if c.thorough { 9 } else { 7 });
    let costs = [0u32, 1, 10_000, 30_000, 45_000, 45_001, 89_999, 90_000];
    let cases: Vec<usize> = (0..=len).flat_map(|l| (0..costs.len() * costs.len()).map(move |h| l * 100 + h)).collect();
    let bounds = format!("every sequence of up to {} rounds with costs {:?}, limit {}", len, costs, max);
    c.grid("partition", &bounds, &cases, |case, out| {
        // the first two are given
        let (l, h) = (case / 100, case % 100);
        let first = [costs[h / costs.len()], costs[h % costs.len()]];
        if l < 2 && h >= costs.len() || l == 0 && h > 0 {
            return (0, 0);
        }
        let free = l.saturating_sub(2) as u32;
        let (mut steps, mut d) = (0, 0u128);
        for x in 0..costs.len().pow(free) {
            let mut r: Vec<u32> = match l {
                0 => vec![],
                1 => vec![first[1]],
                _ => first.to_vec(),
            };
            let mut y = x;
            for _ in 0..free {
                r.push(costs[y % costs.len()]);
                y /= costs.len();
            }
            let wide: Vec<u64> = r.iter().map(|x| *x as u64).collect();
            let (a, b) = match quiet(|| (compute_unit_instructions(r.clone(), max), compute_unit_optimization(r.clone(), max))) {
                Some(x) => x,
                None => {
                    viol(out, P, "partition:refused", format!("costs {:?}", r));
                    continue;
                }
            };
            check(out, "partition", &wide, &a, max as u64, || format!("compute_unit_instructions of {:?}", r));
            check(out, "optimization", &wide, &b.instructions, max as u64, || format!("compute_unit_optimization of {:?}", r));
            if b.total_rounds as usize != r.len() || b.total_compute_units as u64 != wide.iter().sum::<u64>() {
                viol(out, P, "optimization:totals", format!("costs {:?}: {} rounds, {} units", r, b.total_rounds, b.total_compute_units));
            }
            steps += 1;
            d = d.wrapping_mul(31).wrapping_add(a.len() as u128);
        }
        (steps, d ^ (*case as u128) << 64)
    });
    let cases: Vec<u32> = vec![1, 50_000, 199_999, 200_000, 200_001, 250_000, 350_000, 466_666, 466_667, 700_000, 700_001, 1_300_000, 1_400_000];
    c.grid("transactions", "0..600 instructions, 13 budgets per instruction", &cases, |cu, out| {
        for ix in 0..=600u64 {
            let per = LIMIT / *cu as u64;
            match quiet(|| elusiv_utils::batched_instructions_tx_count(ix as usize, *cu)) {
                Some(n) if n as u64 == (ix + per - 1) / per => {}
                x => viol(out, P, "transactions", format!("{} instructions of {}: {:?} transactions", ix, cu, x)),
            }
        }
        (601, *cu as u128)
    });
}

fn of<const N: usize, T: PartialComputation<N>>() -> (Vec<u32>, usize, usize, u64, u64, u64) {
    (T::INSTRUCTION_ROUNDS.iter().map(|x| *x as u32).collect(), T::IX_COUNT, T::TX_COUNT, T::TOTAL_ROUNDS as u64, T::TOTAL_COMPUTE_UNITS as u64, T::COMPUTE_BUDGET_PER_IX as u64)
}
/// the advertised constants of the computations
fn advertised(c: &mut Check) {
    let cases: Vec<u32> = (0..=7).collect();
    c.grid("advertised", "the hashes of every rate, the deposit hash, both pairing computations", &cases, |case, out| {
        let mut bad = |m: &str, x: String| viol(out, P, format!("advertised:{}", m), format!("computation {}: {} is {}", case, m, x));
        let hash = |n: usize| -> Vec<u64> { (0..65 * n).map(|r| if (4..61).contains(&(r % 65)) { 5200 + 17740 + 600 } else { 15411 + 17740 + 600 }).collect() };
        match *case {
            rate @ 0..=4 => {
                // one hash for every inner node over the batch and for every level above it
                let n = (1usize << rate) - 1 + 20 - rate as usize;
                if hash_count_per_batch(rate) != n {
                    bad("hash count", format!("{}", hash_count_per_batch(rate)));
                }
                if commitments_per_batch(rate) != 1 << rate {
                    bad("batch size", format!("{}", commitments_per_batch(rate)));
                }
                if commitment_hash_computation_rounds(rate) as usize != 65 * n {
                    bad("total rounds", format!("{}", commitment_hash_computation_rounds(rate)));
                }
                let parts: Vec<u32> = commitment_hash_computation_instructions(rate).iter().map(|x| *x as u32).collect();
                check(out, "advertised", &hash(n), &parts, LIMIT.min(COMMITMENT_HASH_COMPUTE_BUDGET as u64), || format!("hashing rate {}", rate));
            }
            5 => {
                let (parts, ix, tx, rounds, cus, budget) = of::<2, BaseCommitmentHashComputation>();
                if ix != parts.len() || tx != parts.len() || rounds != 65 || budget > LIMIT || cus != hash(1).iter().sum::<u64>() {
                    bad("deposit hash", format!("{:?}", (ix, tx, rounds, cus, budget)));
                }
                check(out, "advertised", &hash(1), &parts, budget, || "deposit hash".into());
            }
            x => {
                let (parts, ix, tx, rounds, cus, budget) = if x == 6 { of::<COMBINED_MILLER_LOOP_IXS, CombinedMillerLoop>() } else { of::<FINAL_EXPONENTIATION_IXS, FinalExponentiation>() };
                // two instructions of a transaction only request compute units, the others compute
                let per = if x == 6 { COMPUTE_VERIFICATION_IX_COUNT as u64 - 2 } else { 1 };
                if ix != parts.len() || parts.iter().map(|x| *x as u64).sum::<u64>() != rounds {
                    bad("rounds", format!("{:?}", (ix, rounds)));
                }
                if per * budget > LIMIT || cus > budget * ix as u64 || tx as u64 != (ix as u64 + per - 1) / per {
                    bad("transactions", format!("{:?}", (ix, tx, cus, budget)));
                }
                let total = (COMBINED_MILLER_LOOP_IXS as u64 + per - 1) / per;
                if x == 6 && ProgramFee::proof_base_tx_count() != total + FINAL_EXPONENTIATION_IXS as u64 + 2 {
                    bad("paid transactions", format!("{}", ProgramFee::proof_base_tx_count()));
                }
            }
        }
        (1, *case as u128)
    });
}

pub fn run_all(c: &mut Check) {
    if c.wants("computation-costs", P) {
        advertised(c);
        partition(c);
        prepare(c);
    }
}
