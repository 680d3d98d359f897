//! The proof computation: verdicts for all kinds of proofs and public inputs (C03, C24), and every way of
//! cutting the computation into transactions (C24, C35).
use crate::chk::*;
use crate::deposit::modulus;
use crate::hash::warden;
use crate::ver::*;
use ark_bn254::{Fq, Fq2, Fr, G1Affine, G2Affine};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{BigInteger256, Field, FpParameters, One, PrimeField, Zero};
use mc::groth::*;
use mc::*;
use solana_program::instruction::Instruction;

const MILLER: u64 = 215;
const FINAL: u64 = 17;
const LAST: usize = 6;

fn full(b: &Bank, inputs: usize, token: u16) -> V {
    let mut v = V::new(b, 3, &warden(), token, 1);
    v.r.fee *= 4;
    if inputs > 2 {
        v.r.inputs[0].root = Some(fr_b(&past_root(2)));
    }
    for i in 1..inputs {
        v.r.inputs.push(Input { root: None, nullifier: nul(10 + i as u64) });
    }
    v
}

// ---------------------------------------------------------------- verdicts

#[derive(Clone, Debug)]
enum P {
    /// made for these public inputs
    Valid,
    /// randomisers of the proof
    Rand(u64, u64),
    /// made for other public inputs: signal i replaced
    Signal(usize, u8),
    /// signals i and j exchanged
    Swapped(usize, usize),
    Key(u64),
    /// an element replaced
    Elem(u8, u8),
    /// both A and B (etc.) changed in a way that keeps or breaks the equation
    Pair(u8),
    /// valid with A, B or C the neutral element
    Neutral(u8),
}
#[derive(Clone, Debug)]
enum Req {
    Plain(usize, u16),
    /// extreme values of a request's fields
    Extreme(u8),
}
#[derive(Clone, Debug)]
struct Case {
    req: Req,
    p: P,
}

fn extreme(b: &Bank, k: u8) -> V {
    let mut v = full(b, 1, 0);
    let pm1 = modulus(true, 0);
    match k {
        0 => v.r.inputs[0].nullifier = [0; 32],
        1 => v.r.inputs[0].nullifier = pm1,
        2 => v.r.output = pm1,
        3 => v.r.output = num(1),
        4 => v.r.inputs[0].root = Some(fr_b(&past_root(0))),
        5 => v.r.inputs[0].root = Some(fr_b(&past_root(4))),
        6 => {
            v.r.amount = 1 << 60;
            v.r.fee = 1 << 58;
            v.seal();
        }
        7 => {
            v.r.fee = u64::MAX - v.r.amount;
            v.seal();
        }
        8 => v.r.hashed = [0; 32],
        9 => v.r.hashed = pm1,
        10 => v.r.hashed = num(1),
        11 => {
            let mut x = [0u8; 32];
            x[31] = 1;
            v.r.hashed = x;
        }
        12 => {
            // every byte non-zero except the top ones
            v.r.hashed = [0x11; 32];
            v.r.output = [0x2f; 32];
            v.r.inputs[0].nullifier = [0x2a; 32];
        }
        // the prepared inputs are the neutral element
        _ => {
            let mut s = v.r.signals();
            s[13] = num(0);
            let t = trap();
            let mut l = t.ic[0];
            for (i, x) in s.iter().enumerate() {
                l += t.ic[i + 1] * Fr::from_le_bytes_mod_order(x);
            }
            v.r.hashed = fr_b(&(-l * t.ic[14].inverse().unwrap()));
        }
    }
    v
}
const EXTREMES: u8 = 14;
const PAIRS: u8 = 15;

fn fq_raw(v: u64) -> Fq {
    // q + v as raw (unreduced) limbs
    let mut r = <ark_bn254::FqParameters as FpParameters>::MODULUS;
    r.0[0] += v;
    let mut f = Fq::zero();
    f.0 = BigInteger256(r.0);
    f
}
/// a point of the twist that is not in the subgroup
fn outside() -> G2Affine {
    let mut x = Fq2::one();
    loop {
        if let Some(p) = G2Affine::get_point_from_x(x, true) {
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                return p;
            }
        }
        x += Fq2::one();
    }
}
fn elem(p: &mut Proof, e: u8, m: u8) {
    let one = Fq::one();
    fn g1(v: &mut G1Affine, m: u8, other: G1Affine, one: Fq) {
        match m {
            0 => *v = G1Affine::zero(),
            1 => *v = -*v,
            2 => v.infinity = true,
            3 => v.x += one,
            4 => v.y += one,
            5 => *v = other,
            6 => *v = (v.into_projective() + G1Affine::prime_subgroup_generator().into_projective()).into_affine(),
            7 => std::mem::swap(&mut v.x, &mut v.y),
            8 => *v = G1Affine::new(Fq::zero(), Fq::zero(), false),
            9 => v.x = fq_raw(1),
            10 => *v = G1Affine::new(fq_raw(0), fq_raw(0), false),
            _ => *v = v.into_projective().double().into_affine(),
        }
    }
    match e {
        0 => {
            let o = p.c;
            g1(&mut p.a, m, o, one)
        }
        1 => {
            let o = p.a;
            g1(&mut p.c, m, o, one)
        }
        _ => match m {
            0 => p.b = G2Affine::zero(),
            1 => p.b = -p.b,
            2 => p.b.infinity = true,
            3 => p.b.x.c0 += one,
            4 => p.b.y.c1 += one,
            5 => p.b = outside(),
            6 => p.b = (p.b.into_projective() + G2Affine::prime_subgroup_generator().into_projective()).into_affine(),
            7 => std::mem::swap(&mut p.b.x, &mut p.b.y),
            8 => p.b = G2Affine::new(Fq2::zero(), Fq2::zero(), false),
            9 => p.b.x.c0 = fq_raw(1),
            10 => p.b = (p.b.into_projective() + outside().into_projective()).into_affine(),
            _ => std::mem::swap(&mut p.b.x.c0, &mut p.b.x.c1),
        },
    }
}
/// is the encoding canonical and does it name points of the groups?
fn genuine(p: &Proof) -> bool {
    let q = <ark_bn254::FqParameters as FpParameters>::MODULUS;
    let lt = |f: &Fq| f.0 < q;
    let c = [p.a.x, p.a.y, p.c.x, p.c.y, p.b.x.c0, p.b.x.c1, p.b.y.c0, p.b.y.c1];
    c.iter().all(lt) && p.a.is_on_curve() && p.c.is_on_curve() && p.b.is_on_curve() && p.b.is_in_correct_subgroup_assuming_on_curve()
        && (!p.a.infinity || p.a == G1Affine::zero()) && (!p.c.infinity || p.c == G1Affine::zero()) && (!p.b.infinity || p.b == G2Affine::zero())
}

fn proof(c: &Case, v: &V) -> Proof {
    let t = trap();
    let mut s = v.r.signals();
    let g1 = |x: Fr| G1Affine::prime_subgroup_generator().mul(x.into_repr()).into_affine();
    let g2 = |x: Fr| G2Affine::prime_subgroup_generator().mul(x.into_repr()).into_affine();
    match &c.p {
        P::Valid => t.prove(&s, 11, 13),
        P::Rand(a, b) => t.prove(&s, *a, *b),
        P::Signal(i, k) => {
            let x = Fr::from_le_bytes_mod_order(&s[*i]);
            let n = match k {
                0 => x + Fr::one(),
                1 => x - Fr::one(),
                2 => x + Fr::from(1u64 << 56),
                3 => -x - Fr::one(),
                4 => x + Fr::from(2u64).pow([248]),
                _ => Fr::zero(),
            };
            if n == x {
                return t.prove(&s, 11, 14);
            }
            s[*i] = fr_b(&n);
            t.prove(&s, 11, 13)
        }
        P::Swapped(i, j) => {
            s.swap(*i, *j);
            t.prove(&s, 11, 13)
        }
        P::Key(k) => Trap::new(*k, 14).prove(&s, 11, 13),
        P::Elem(e, m) => {
            let mut p = t.prove(&s, 11, 13);
            elem(&mut p, *e, *m);
            p
        }
        P::Pair(k) => {
            let mut p = t.prove(&s, 11, 13);
            match k {
                // A and B negated: the same product
                0 => {
                    p.a = -p.a;
                    p.b = -p.b;
                }
                1 => {
                    p.a = p.a.into_projective().double().into_affine();
                    p.b = p.b.mul(Fr::from(2u64).inverse().unwrap().into_repr()).into_affine();
                }
                2 => {
                    p.a = -p.a;
                    p.c = -p.c;
                }
                3 => std::mem::swap(&mut p.a, &mut p.c),
                4 => {
                    // nothing but neutral elements
                    p.a = G1Affine::zero();
                    p.c = G1Affine::zero();
                }
                5 => {
                    // alpha, beta: the product of the key itself
                    p.a = g1(t.alpha);
                    p.b = g2(t.beta);
                    p.c = G1Affine::zero();
                }
                6 => {
                    p.a = g1(t.alpha);
                    p.b = g2(t.beta);
                }
                8..=PAIRS => {
                    // the product is a power of the key's one: conjugates, one, the square
                    let q = {
                        let m: Vec<u8> = <ark_bn254::FqParameters as FpParameters>::MODULUS.0.iter().flat_map(|l| l.to_le_bytes()).collect();
                        Fr::from_le_bytes_mod_order(&m)
                    };
                    let e = [-Fr::one(), Fr::zero(), q, q * q, q * q * q, -q, Fr::from(2u64), Fr::from(2u64).inverse().unwrap()][*k as usize - 8];
                    let mut l = t.ic[0];
                    for (i, x) in s.iter().enumerate() {
                        l += t.ic[i + 1] * Fr::from_le_bytes_mod_order(x);
                    }
                    let c = (Fr::from(143u64) - e * t.alpha * t.beta - l * t.gamma) * t.delta.inverse().unwrap();
                    p.c = g1(c);
                }
                _ => {
                    // malleability: A + k delta-part compensated in C
                    let d = t.delta;
                    let (a, b) = (Fr::from(11u64), Fr::from(13u64) + d);
                    p.b = g2(b);
                    p.c = (p.c.into_projective() + g1(a).into_projective()).into_affine();
                    p.a = g1(a);
                }
            }
            p
        }
        P::Neutral(k) => {
            let x: Vec<Fr> = s.iter().map(|v| Fr::from_le_bytes_mod_order(v)).collect();
            let mut l = t.ic[0];
            for (i, v) in x.iter().enumerate() {
                l += t.ic[i + 1] * v;
            }
            match k {
                0 => t.prove(&s, 0, 13),
                1 => t.prove(&s, 11, 0),
                _ => {
                    // a * b = alpha * beta + l * gamma
                    let ab = t.alpha * t.beta + l * t.gamma;
                    Proof { a: g1(ab), b: g2(Fr::one()), c: G1Affine::zero() }
                }
            }
        }
    }
}

fn run_case(c: &Case, base: &Bank, out: &mut Vec<Viol>) -> (u64, u128) {
    let mut b = base.clone();
    let v = match &c.req {
        Req::Plain(n, t) => {
            let mut v = full(base, *n, *t);
            v.seal();
            v
        }
        Req::Extreme(k) => extreme(base, *k),
    };
    let p = proof(c, &v);
    let want = genuine(&p) && trap().verify(&v.r.signals(), &p);
    // an encoding of a valid proof with a point at infinity flag or unreduced coordinates may go either way
    let alias = !genuine(&p) && matches!(c.p, P::Elem(..));
    let R::Yes(b1) = attempt(out, &["C13", "C03"], "setup of a request", &b, &v.init_tx(&p), true) else { return (1, 0) };
    let prep = v.charges(&b1).prep;
    match v.compute(&b1) {
        Ok((n, x)) => {
            let got = v.verdict(&x).unwrap();
            if want && n != prep + 60 {
                viol(out, &["C35", "C18"], "verdict:transactions", format!("the verification took {} transactions, advertised are {}", n, prep + 60));
            }
            only(out, &["C03", "C16"], "verdict", &b1, &x, &[v.acc()]);
            if !alias && got != want {
                let k = if matches!(c.p, P::Neutral(1)) { "verdict:b-neutral" } else { "verdict" };
                viol(out, &["C03", "C24"], k, format!("the verdict of {:?} is {}, the reference verifier says {}", c, got, want));
            }
            // an alias never turns a proof for something else into a valid one
            let mut y = p.clone();
            if alias && got {
                y.a.infinity = false;
                y.b.infinity = false;
                y.c.infinity = false;
                let mut z = p.clone();
                for g in [&mut z.a, &mut z.c] {
                    if g.infinity {
                        *g = G1Affine::zero();
                    }
                }
                let ok = (genuine(&y) && trap().verify(&v.r.signals(), &y)) || (genuine(&z) && trap().verify(&v.r.signals(), &z));
                if !ok {
                    viol(out, &["C03"], "verdict:alias", format!("the malformed proof {:?} was accepted", c));
                }
            }
            b = x;
            (n + 1, (prep as u128) << 1 | got as u128)
        }
        Err(e) => {
            viol(out, &["C03", "C35"], "verdict:refused", format!("a computation step of {:?} was refused: {:?}", c, e));
            let _ = b;
            (1, 3)
        }
    }
}

fn verdicts(c: &mut Check) {
    let (b, _) = vworld(1, 200, 0);
    let mut cases = vec![];
    let reqs: Vec<Req> = c.tier(vec![Req::Plain(1, 0), Req::Plain(4, 1)], vec![Req::Plain(1, 0), Req::Plain(2, 2), Req::Plain(3, 1), Req::Plain(4, 0), Req::Plain(4, 1)]);
    for r in &reqs {
        cases.push(Case { req: r.clone(), p: P::Valid });
        for (x, y) in [(1, 1), (2, 1), (u64::MAX, u64::MAX)] {
            cases.push(Case { req: r.clone(), p: P::Rand(x, y) });
        }
        for i in 0..14 {
            for k in 0..c.tier(2, 6) {
                cases.push(Case { req: r.clone(), p: P::Signal(i, k) });
            }
        }
        for e in 0..3 {
            for m in 0..12 {
                cases.push(Case { req: r.clone(), p: P::Elem(e, m) });
            }
        }
        for k in 0..=PAIRS {
            cases.push(Case { req: r.clone(), p: P::Pair(k) });
        }
        for k in 0..3 {
            cases.push(Case { req: r.clone(), p: P::Neutral(k) });
        }
        for k in [1, 2, 3] {
            cases.push(Case { req: r.clone(), p: P::Key(k * 1000) });
        }
        for i in 0..14 {
            for j in i + 1..14 {
                if c.tier((i, j) == (0, 13) || (j == i + 1 && (i == 8 || i == 12)), true) {
                    cases.push(Case { req: r.clone(), p: P::Swapped(i, j) });
                }
            }
        }
    }
    for k in 0..EXTREMES {
        for p in [P::Valid, P::Signal(0, 0), P::Signal(13, 0), P::Elem(0, 1), P::Neutral(0), P::Neutral(2), P::Pair(4)] {
            cases.push(Case { req: Req::Extreme(k), p });
        }
    }
    c.grid(
        "proof-verdicts",
        "valid proofs, proofs for every single altered public input (and exchanged ones), other keys, every single malformed element and compensating pairs, for requests with 1 to 4 inputs and extreme field values; verdict of the complete real computation against the pairing product of the reference library",
        &cases,
        |x, out| run_case(x, &b, out),
    );
}

// ---------------------------------------------------------------- preparation of the inputs

/// the first `k` (or, above 32, the last `k - 32`) bytes are not zero
fn shape(k: u8, x: u8) -> B32 {
    std::array::from_fn(|i| {
        let on = if k <= 32 { (i as u8) < k } else { i as u8 >= 64 - k };
        if on { if i == 31 { 0x2f } else { x } } else { 0 }
    })
}
fn preparation(c: &mut Check) {
    let (base, _) = vworld(1, 200, 0);
    let third: Vec<u8> = c.tier(vec![0, 32, 9], vec![0, 32, 9, 1, 2, 16, 24, 31, 33, 48, 63]);
    let mut cases = vec![];
    for n in 0..64u8 {
        for o in 1..64u8 {
            for h in &third {
                cases.push((n, o, *h));
            }
        }
    }
    c.grid(
        "proof-inputs",
        "public inputs with every number of leading or trailing non-zero bytes (nullifier and output commitment against each other, three or more shapes of the input hash): the sum after the advertised transactions against the one-shot definition, every transaction within the limit",
        &cases,
        |(n, o, h), out| {
            let mut v = full(&base, 1, 0);
            v.r.inputs[0].nullifier = shape(*n, 3);
            v.r.output = shape(*o, 5);
            v.r.hashed = shape(*h, 7);
            let s = v.r.signals();
            let R::Yes(mut b) = attempt(out, &["C13", "C03"], "setup", &base, &v.init_tx(&v.wrong_proof()), true) else { return (1, 0) };
            let prep = v.charges(&b).prep;
            let tx: Vec<Instruction> = (0..LAST).map(|_| nop()).chain([v.compute_ix()]).collect();
            for i in 0..prep {
                let at = u32_at(&b, &v.acc(), VE_ROUND) as usize;
                let R::Yes(x) = attempt(out, &["C24", "C35", "C03"], "preparation of the inputs", &b, &tx, true) else { return (i, 0) };
                let to = if u8_at(&x, &v.acc(), VE_STEP) == 1 { 14 * 33 } else { u32_at(&x, &v.acc(), VE_ROUND) as usize };
                let cost: u32 = (at..to).map(|r| { let (x, w) = (&s[r / 33], r % 33); if w == 32 { if x == &[0; 32] { 0 } else { 30 } } else if x[w] == 0 { 0 } else { 22 } }).sum();
                if to <= at || cost > 1400 || (to == 14 * 33) != (i + 1 == prep) {
                    viol(out, &["C35", "C24"], "inputs:transaction", format!("transaction {} of {} prepares rounds {} to {} at a cost of {}k", i, prep, at, to, cost));
                }
                b = x;
            }
            let d = b.data(&v.acc());
            let at = VE_INPUT + 14 * 32 + 65 + 129 + 65;
            let t = trap();
            let mut l = t.ic[0];
            for (i, x) in s.iter().enumerate() {
                l += t.ic[i + 1] * Fr::from_le_bytes_mod_order(x);
            }
            let want = G1Affine::prime_subgroup_generator().mul(l.into_repr()).into_affine();
            let got = <elusiv::fields::G1A as borsh::BorshDeserialize>::try_from_slice(&d[at..at + 65]).map(|g| g.0);
            if got.as_ref().ok() != Some(&want) {
                viol(out, &["C24", "C03"], "inputs:sum", format!("the prepared inputs of {:?} (in {} transactions) are not the documented sum", (n, o, h), prep));
            }
            (prep + 1, svm::hash_bytes(3, &d[VE_PREP_COUNT..VE_VKEY]))
        },
    );
}

// ---------------------------------------------------------------- cutting

/// progress: number of effective computation steps
#[derive(Clone)]
struct Chain {
    v: V,
    prep: u64,
    /// bank after i effective steps (the proof is set up)
    at: Vec<Bank>,
}
fn advance(prep: u64, s: u64, index: usize) -> Option<u64> {
    if s < prep {
        Some(if index == LAST { s + 1 } else { s })
    } else if s < prep + MILLER {
        Some(s + 1)
    } else if s < prep + MILLER + FINAL {
        Some(if index == LAST { s + 1 } else { s })
    } else {
        None
    }
}
fn chain(b: &Bank, v: V, valid: bool, out: &mut Vec<Viol>) -> Option<Chain> {
    let mut b = b.clone();
    let p = if valid { v.proof() } else { v.wrong_proof() };
    let R::Yes(x) = attempt(out, &["C13"], "setup", &b, &v.init_tx(&p), true) else { return None };
    b = x;
    let prep = v.charges(&b).prep;
    let mut at = vec![b.clone()];
    let tx: Vec<Instruction> = (0..LAST).map(|_| nop()).chain([v.compute_ix()]).collect();
    let n = prep + MILLER + FINAL;
    for i in 0..n {
        let R::Yes(x) = attempt(out, &["C35", "C24"], "computation step", &b, &tx, true) else { return None };
        if x.hash() == b.hash() {
            viol(out, &["C35", "C24"], "step:idle", format!("computation step {} of {} has no effect", i, n));
        }
        b = x;
        let d = v.verdict(&b);
        if d.is_some() != (i + 1 == n) || (i + 1 == n && d != Some(valid)) {
            viol(out, &["C24", "C35", "C03"], "step:verdict", format!("verdict {:?} after step {} of {} (proof valid: {})", d, i + 1, n, valid));
            if d.is_some() {
                return None;
            }
        }
        at.push(b.clone());
    }
    attempt(out, &["C24", "C03"], "computation after the verdict", &b, &tx, false);
    Some(Chain { v, prep, at })
}

fn cut(c: &Chain, s: u64, out: &mut Vec<Viol>) -> (u64, u128) {
    let b = &c.at[s as usize];
    let mut n = 0;
    let mut h = 0u128;
    for lead in 0..=LAST + 1 {
        for k in 1..=7usize {
            let tx: Vec<Instruction> = (0..lead).map(|_| nop()).chain((0..k).map(|_| c.v.compute_ix())).collect();
            let mut e = Some(s);
            for i in 0..k {
                e = e.and_then(|x| advance(c.prep, x, lead + i));
            }
            n += 1;
            match (execute(b, &tx), e) {
                (Ok(x), Some(t)) => {
                    h ^= x.hash();
                    if x.hash() != c.at[t as usize].hash() {
                        let got = c.at.iter().position(|y| y.hash() == x.hash());
                        viol(out, &["C24", "C03", "C35"], "cut:state", format!("{} computations from position {} of the transaction at progress {}: the result is not that of {} steps in sequence (it is that of {:?})", k, lead, s, t, got));
                    }
                }
                (Err(_), None) => {}
                (Ok(_), None) => viol(out, &["C24", "C03"], "cut:accepted", format!("{} computations from position {} at progress {} were accepted", k, lead, s)),
                (Err(x), Some(_)) => viol(out, &["C24", "C35"], "cut:refused", format!("{} computations from position {} at progress {} were refused: {:?}", k, lead, s, x)),
            }
        }
    }
    (n, h)
}

/// the proof arrives at any point of the preparation
fn late(base: &Bank, c: &Chain, valid: bool, p: u64, out: &mut Vec<Viol>) -> (u64, u128) {
    let v = &c.v;
    let step: Vec<Instruction> = (0..LAST).map(|_| nop()).chain([v.compute_ix()]).collect();
    let mut b = base.clone();
    let mut n = 0;
    let mut go = |b: &mut Bank, tx: &[Instruction], ok: bool, what: &str, out: &mut Vec<Viol>| -> bool {
        n += 1;
        match attempt(out, &["C13", "C24", "C03"], what, b, tx, ok) {
            R::Yes(x) if ok => {
                *b = x;
                true
            }
            R::No if !ok => true,
            _ => false,
        }
    };
    let proof = if valid { v.proof() } else { v.wrong_proof() };
    if !go(&mut b, &[v.init_ix()], true, "request", out) {
        return (n, 0);
    }
    for _ in 0..p {
        if !go(&mut b, &step, true, "preparation before the proof", out) {
            return (n, 0);
        }
    }
    if p == c.prep && !go(&mut b, &step, false, "miller loop before the proof", out) {
        return (n, 0);
    }
    if !go(&mut b, &[v.proof_ix(&proof)], false, "proof before the fee", out) || !go(&mut b, &[v.fee_ix()], true, "fee", out) {
        return (n, 0);
    }
    if !go(&mut b, &step, false, "computation between fee and proof", out) || !go(&mut b, &[v.fee_ix()], false, "second fee", out) {
        return (n, 0);
    }
    if !go(&mut b, &[v.proof_ix(&proof)], true, "proof", out) || !go(&mut b, &[v.proof_ix(&proof)], false, "second proof", out) {
        return (n, 0);
    }
    if b.hash() != c.at[p as usize].hash() {
        viol(out, &["C24", "C03", "C13"], "late:state", format!("setting the proof up after {} preparation steps leads to another state", p));
    }
    (n, b.hash())
}

/// two verifications in the same transactions
fn pair(base: &Bank, x: &Chain, y: &Chain, sx: u64, sy: u64, out: &mut Vec<Viol>) -> (u64, u128) {
    let mut b = base.clone();
    for (c, s) in [(x, sx), (y, sy)] {
        for k in c.at[0].diff(base).into_iter().filter(|k| *k == c.v.acc() || *k == c.v.dup()) {
            b.set(k, c.at[s as usize].get(&k).unwrap().clone());
        }
    }
    let mut n = 0;
    let mut h = 0;
    for len in 1..=4usize {
        for w in 0..1usize << len {
            for lead in [3usize, 4, 6] {
                let mut e = [Some(sx), Some(sy)];
                let mut tx: Vec<Instruction> = (0..lead).map(|_| nop()).collect();
                for i in 0..len {
                    let k = w >> i & 1;
                    tx.push([x, y][k].v.compute_ix());
                    e[k] = e[k].and_then(|s| advance([x, y][k].prep, s, lead + i));
                }
                n += 1;
                match (execute(&b, &tx), e) {
                    (Ok(z), [Some(p), Some(q)]) => {
                        h ^= z.hash();
                        for (c, s) in [(x, p), (y, q)] {
                            if z.get(&c.v.acc()) != c.at[s as usize].get(&c.v.acc()) {
                                viol(out, &["C24", "C03", "C16"], "pair:state", format!("two verifications at progress {} and {}, sequence {:b} of {}: one is not where it would be alone", sx, sy, w, len));
                            }
                        }
                        only(out, &["C16", "C03"], "pair", &b, &z, &[x.v.acc(), y.v.acc()]);
                    }
                    (Err(_), [_, None]) | (Err(_), [None, _]) => {}
                    (r, e) => viol(out, &["C24", "C03", "C35"], "pair:acceptance", format!("two verifications at progress {} and {}, sequence {:b} of {}: {:?}, expected {:?}", sx, sy, w, len, r.map(|_| ()), e)),
                }
            }
        }
    }
    (n, h)
}

#[derive(Clone, Debug)]
enum Job {
    Chain(usize),
    Cut(usize, u64),
    Late(usize, u64),
    Pair(usize, usize, u64, u64),
}

fn cutting(c: &mut Check) {
    let (b, _) = vworld(1, 200, 0);
    let mut specs: Vec<(V, bool)> = vec![];
    for (i, (n, t, valid)) in c.tier(vec![(1usize, 0u16, true), (4, 1, true), (2, 0, false)], vec![(1, 0, true), (4, 1, true), (2, 0, false), (3, 2, true), (4, 0, false)]).into_iter().enumerate() {
        let mut v = full(&b, n, t);
        v.idx = 10 + i as u8;
        v.r.output = num(900 + i as u64);
        for x in &mut v.r.inputs {
            x.nullifier[20] = i as u8 + 1;
        }
        if n == 4 {
            // full preparation: hardly any zero bytes
            v.r.output = [0x2b; 32];
            for (j, x) in v.r.inputs.iter_mut().enumerate() {
                x.nullifier = [0x21 + j as u8; 32];
            }
        }
        v.seal();
        specs.push((v, valid));
    }
    let bounds = "every progress of the computation (requests with 1 to 4 inputs, valid and invalid) x every transaction of 0..7 leading instructions and 1..7 computations: reached state against the state of the same number of effective steps one by one; the proof arriving at every point of the preparation; two verifications interleaved in one transaction in all orders up to length 4";
    // the chains themselves
    let chains: Vec<std::sync::Mutex<Option<Chain>>> = specs.iter().map(|_| Default::default()).collect();
    let jobs: Vec<Job> = (0..specs.len()).map(Job::Chain).collect();
    c.grid("proof-steps", "each computation step by step: exactly the advertised number of effective steps, each changing the state, the verdict with the last one", &jobs, |j, out| {
        let Job::Chain(i) = j else { unreachable!() };
        let ch = chain(&b, specs[*i].0.clone(), specs[*i].1, out);
        let n = ch.as_ref().map(|c| c.at.len()).unwrap_or(0) as u64;
        *chains[*i].lock().unwrap() = ch;
        (n, *i as u128)
    });
    let chains: Vec<Option<Chain>> = chains.into_iter().map(|m| m.into_inner().unwrap()).collect();
    let mut jobs = vec![];
    for (i, ch) in chains.iter().enumerate() {
        let Some(ch) = ch else { continue };
        for s in 0..ch.at.len() as u64 {
            jobs.push(Job::Cut(i, s));
        }
        for p in 0..=ch.prep {
            jobs.push(Job::Late(i, p));
        }
        for (k, other) in chains.iter().enumerate().skip(i + 1) {
            let Some(other) = other else { continue };
            if c.tier(i + k > 1 && k != 2, false) {
                continue;
            }
            let pts = |c: &Chain| {
                let e = c.prep + MILLER + FINAL;
                vec![0, c.prep - 1, c.prep, c.prep + 1, c.prep + MILLER - 1, c.prep + MILLER, e - 1, e]
            };
            for x in pts(ch) {
                for y in pts(other) {
                    jobs.push(Job::Pair(i, k, x, y));
                }
            }
        }
    }
    c.grid("proof-cutting", bounds, &jobs, |j, out| match j {
        Job::Cut(i, s) => cut(chains[*i].as_ref().unwrap(), *s, out),
        Job::Late(i, p) => late(&b, chains[*i].as_ref().unwrap(), specs[*i].1, *p, out),
        Job::Pair(i, k, x, y) => pair(&b, chains[*i].as_ref().unwrap(), chains[*k].as_ref().unwrap(), *x, *y, out),
        _ => unreachable!(),
    });
}

pub fn run_all(c: &mut Check) {
    if c.wants("proof-verdicts", &["C03", "C24", "C35"]) {
        verdicts(c);
    }
    if c.wants("proof-inputs", &["C03", "C24", "C35"]) {
        preparation(c);
    }
    if c.wants("proof-cutting", &["C03", "C13", "C24", "C35"]) {
        cutting(c);
    }
}
