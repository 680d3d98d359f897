//! Admission of proof requests: acceptance and charges for every combination of two deviations (C13, C14, C01, C18, C25).
use crate::chk::*;
use crate::deposit::{add_le, canonical, modulus, zero_base};
use crate::hash::warden;
use crate::payout::exact_fee;
use crate::ver::*;
use mc::*;
use solana_program::pubkey::Pubkey;

const P0: fn() -> B32 = || modulus(false, 0);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Root {
    Current,
    Past(u64),
    Closed(u32),
    CurrentPlusP,
    Zero,
    Never,
    None,
    /// a history entry that was never written
    Stale,
    /// differs in a single bit of one byte from the current (0), a past (1) or a closed tree's root (2), in the written or in the stored form
    Near(u8, u8, bool),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Nul {
    Fresh,
    Same(usize),
    Spent,
    SpentOther,
    Zero,
    PMinus,
    P,
    FreshPlusP,
    Ff,
    /// differs in one byte from the spent one, in the written or in the stored form
    NearSpent(u8, bool),
    /// differs in one byte from input 0
    NearSame(u8, bool),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    Fresh,
    Zero,
    ZeroCommitment,
    ZeroCommitmentPlusP,
    PMinus,
    P,
    Ff,
    /// used `n` insertions ago
    Seen(u32),
    /// used by a request that failed since
    Released,
    /// one that differs in one byte was used before
    Near(u8, bool),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum FeeK {
    Ample,
    Exact,
    Short,
    Zero,
    Overflow,
    Max,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Funds {
    Ample,
    PayerExact,
    PayerShort,
    CollectorEmpty,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Dup {
    No,
    /// someone else verifies the same nullifiers
    Other,
    /// the same, in other order
    OtherOrder,
    /// the submitter has another request in the same slot
    Slot,
}
#[derive(Clone, Debug)]
struct Case {
    closed: u32,
    ptr: u32,
    trees: [u32; 2],
    inputs: usize,
    roots: [Root; 4],
    nuls: [Nul; 4],
    out: Out,
    recent: i64,
    fee_version: u32,
    token: u16,
    amount: u64,
    fee: FeeK,
    opt: u64,
    ata: bool,
    pay: bool,
    hashed: u8,
    vkey: u32,
    idx: u8,
    skip: bool,
    dup: Dup,
    funds: Funds,
    rate: u32,
    meta: u8,
    order: u8,
    prices: Prices,
}
impl Default for Case {
    fn default() -> Self {
        Case {
            closed: 0, ptr: 200, trees: [0, 1], inputs: 1, roots: [Root::Current, Root::None, Root::None, Root::None], nuls: [Nul::Fresh; 4], out: Out::Fresh, recent: 0, fee_version: 0, token: 0,
            amount: SOL, fee: FeeK::Ample, opt: 0, ata: false, pay: false, hashed: 0, vkey: 0, idx: 3, skip: false, dup: Dup::No, funds: Funds::Ample, rate: 1, meta: 0, order: 0, prices: PRICES,
        }
    }
}

fn dims() -> Dims<Case> {
    use Root::*;
    let mut d = vec![
        // the active tree becomes number 1 (and the request moves there), or the request addresses other trees
        dim(vec![[1u32, 0], [2, 0], [3, 0], [0, 2], [0, 0], [1, 1], [0, 3], [u32::MAX, 0]], |c: &mut Case, t| c.trees = t),
        dim(vec![(1u32, [1u32, 0u32]), (1, [0, 1]), (1, [2, 0]), (2, [0, 2]), (2, [1, 0]), (2, [2, 1])], |c, t| {
            c.closed = t.0;
            c.trees = t.1
        }),
        dim(vec![0u32, 1, 127, 128, MT_LEAVES - 1], |c, t| c.ptr = t),
        dim(vec![0usize, 2, 3, 4, 5], |c, t| c.inputs = t),
        dim(vec![Past(0), Past(4), Closed(0), Closed(1), CurrentPlusP, Zero, Never, None, Stale], |c, t| c.roots[0] = t),
        dim(vec![Current, Past(0), Closed(0), Closed(1), Zero, Never], |c, t| {
            c.inputs = c.inputs.max(2);
            c.roots[1] = t
        }),
        dim(vec![Current, Closed(0)], |c, t| {
            c.inputs = c.inputs.max(3);
            c.roots[2] = t
        }),
        dim(vec![Nul::Spent, Nul::SpentOther, Nul::Zero, Nul::PMinus, Nul::P, Nul::FreshPlusP, Nul::Ff], |c, t| c.nuls[0] = t),
        dim(vec![Nul::Same(0), Nul::Spent, Nul::SpentOther, Nul::Zero, Nul::PMinus, Nul::P], |c, t| {
            c.inputs = c.inputs.max(2);
            c.nuls[1] = t
        }),
        dim(vec![Nul::Same(0), Nul::Spent, Nul::P], |c, t| {
            c.inputs = c.inputs.max(3);
            c.nuls[2] = t
        }),
        dim(vec![Nul::Same(0), Nul::Same(2), Nul::Spent, Nul::SpentOther, Nul::P], |c, t| {
            c.inputs = 4;
            c.nuls[3] = t
        }),
        dim(vec![Out::Zero, Out::ZeroCommitment, Out::ZeroCommitmentPlusP, Out::PMinus, Out::P, Out::Ff, Out::Seen(1), Out::Seen(128), Out::Seen(129), Out::Released], |c, t| c.out = t),
        dim(vec![1i64, 127, 128, 129, -1], |c, t| c.recent = t),
        dim(vec![1u32, u32::MAX], |c, t| c.fee_version = t),
        dim(vec![1u16, 2, 12, 13, u16::MAX], |c, t| c.token = t),
        dim(vec![0u64, 1, 890_879, 890_880, 79_530, 79_531, 79_532, 1 << 40, 1 << 58, 1 << 61, 1 << 62, (1 << 63) + 5, u64::MAX - (1 << 40)], |c, t| c.amount = t),
        dim(vec![FeeK::Exact, FeeK::Short, FeeK::Zero, FeeK::Overflow, FeeK::Max], |c, t| c.fee = t),
        dim(vec![1u64, SOL - 1, SOL, SOL + 1, u64::MAX, u64::MAX - (1 << 40)], |c, t| c.opt = t),
        dim(vec![true], |c, t| c.ata = t),
        dim(vec![true], |c, t| c.pay = t),
        dim(vec![1u8, 2, 3, 4], |c, t| c.hashed = t),
        dim(vec![1u32, 2], |c, t| c.vkey = t),
        dim(vec![0u8, 127, 128, 129, 255], |c, t| c.idx = t),
        dim(MORE_PRICES.to_vec(), |c, t| c.prices = t),
        dim(vec![(true, Dup::No), (false, Dup::Other), (true, Dup::Other), (false, Dup::OtherOrder), (true, Dup::OtherOrder), (false, Dup::Slot), (true, Dup::Slot)], |c, t| {
            c.skip = t.0;
            c.dup = t.1;
            if t.1 == Dup::OtherOrder {
                c.inputs = c.inputs.max(2);
            }
        }),
        dim(vec![Funds::PayerExact, Funds::PayerShort, Funds::CollectorEmpty], |c, t| c.funds = t),
        dim(vec![0u32, 4], |c, t| c.rate = t),
        dim(vec![1u8, 2], |c, t| c.meta = t),
        // incomplete or reordered setups
        dim(vec![1u8, 2, 3, 4, 5, 6, 7], |c, t| c.order = t),
    ];
    d.push(dim(vec![0u32], |c, _| c.inputs = 4));
    d
}

/// another canonical value with a single different bit in byte `at` of the written or the stored form
fn near(v: &B32, at: u8, stored: bool) -> B32 {
    let mut m = if stored { to_mont(v) } else { *v };
    for bit in 0..8 {
        m[at as usize] ^= 1 << bit;
        if canonical(&m) {
            return if stored { fr_b(&from_mont(&m)) } else { m };
        }
        m[at as usize] ^= 1 << bit;
    }
    panic!()
}
fn root_bytes(r: Root, b: &Bank) -> Option<B32> {
    Some(match r {
        Root::Current => root_of(b),
        Root::Past(i) => fr_b(&past_root(i)),
        Root::Closed(i) => fr_b(&closed_root(i)),
        Root::CurrentPlusP => add_le(&root_of(b), &P0()),
        Root::Zero => num(0),
        Root::Never => num(987_123),
        Root::Stale => fr_b(&past_root(77)),
        Root::Near(k, at, stored) => near(&root_bytes([Root::Current, Root::Past(2), Root::Closed(0)][k as usize], b).unwrap(), at, stored),
        Root::None => return None,
    })
}

pub struct World {
    pub banks: std::collections::BTreeMap<(u32, u32), Bank>,
}
/// a nullifier that is already in the account of the tree
fn spent(t: u32) -> B32 {
    num(31_337 + t as u64)
}
/// worlds: nullifier `spent(t)` has been spent in tree t
pub fn worlds(ptrs: &[u32]) -> World {
    let mut banks = std::collections::BTreeMap::new();
    let (b0, _) = vworld(1, 200, 0);
    let mut b0 = b0;
    // spend through the program, with each tree being the active one in turn
    for t in 0..3u32 {
        b0.write(&storage(), ST_TREES, &t.to_le_bytes());
        for i in 0..t {
            b0.write(&nullifier(i), NU_ROOT, &mont_b(&closed_root(i)));
        }
        let mut v = V::new(&b0, 0, &warden(), 0, 0);
        v.trees = [t, (t + 1) % 3];
        v.r.inputs[0].nullifier = spent(t);
        v.r.output = num(7_700_000 + t as u64);
        v.seal();
        must(&mut b0, &v.init_tx(&v.proof()), "spend");
        v.decide(&mut b0, true);
        v.fin.mt_index = t;
        v.fin.commitment_index = 0;
        let tx = v.final_tx(true, v.r.amount, &v.rec);
        must(&mut b0, &tx, "spend");
    }
    for closed in 0..3u32 {
        for ptr in ptrs {
            let (mut x, _) = vworld(1, *ptr, closed);
            for t in 0..3 {
                let r = if t < closed { Some(mont_b(&closed_root(t))) } else { None };
                for k in [nullifier(t), null_child(t, 0)] {
                    x.set(k, b0.get(&k).unwrap().clone());
                }
                x.write(&nullifier(t), NU_ROOT, &r.unwrap_or([0; 32]));
            }
            // an entry of the history array beyond the stored ones
            x.write(&storage(), ST_HIST + 32 * 60, &mont_b(&past_root(77)));
            banks.insert((closed, *ptr), x);
        }
    }
    World { banks }
}

/// the commitment of the empty note
fn zero_commitment() -> B32 {
    fr_b(&h2c(fr(&zero_base()).unwrap(), fr(&num(0)).unwrap()))
}
fn nul_bytes(c: &Case, i: usize, t: u32) -> B32 {
    match c.nuls[i] {
        Nul::Fresh => nul(100 + i as u64),
        Nul::Same(j) => nul_bytes(c, j, t),
        Nul::Spent => spent(t),
        Nul::SpentOther => spent(if t == 0 { 1 } else { 0 }),
        Nul::Zero => num(0),
        Nul::PMinus => modulus(true, 0),
        Nul::P => modulus(false, 0),
        Nul::FreshPlusP => add_le(&nul(100 + i as u64), &P0()),
        Nul::Ff => [0xff; 32],
        Nul::NearSpent(at, stored) => near(&spent(t), at, stored),
        Nul::NearSame(at, stored) => near(&nul_bytes(c, 0, t), at, stored),
    }
}

fn run_case(c: &Case, w: &World, out: &mut Vec<Viol>) -> (u64, u128) {
    let f = Fee::default();
    let mut b = w.banks[&(c.closed, c.ptr)].clone();
    set_rate(&mut b, c.rate);
    set_prices(&mut b, c.prices);
    let active = c.closed;
    let fp = warden();
    let mut v = V::new(&b, c.idx, &fp, if c.token <= 2 { c.token } else { 0 }, 1);
    v.trees = c.trees;
    v.r.token = c.token;
    v.fin.token = c.token;
    // tree slot of every input
    let mut slots = vec![];
    let mut next = 0;
    for i in 0..c.inputs {
        let r = c.roots.get(i).copied().unwrap_or(Root::None);
        slots.push(if r == Root::None { 0 } else { next });
        if r != Root::None {
            next += 1;
        }
    }
    let slot_tree = |s: usize| c.trees.get(s).copied().unwrap_or(0);
    v.r.inputs = (0..c.inputs)
        .map(|i| Input { root: root_bytes(c.roots.get(i).copied().unwrap_or(Root::None), &b), nullifier: if i < 4 { nul_bytes(c, i, slot_tree(slots[i])) } else { nul(200) } })
        .collect();
    v.r.output = match c.out {
        Out::Zero => num(0),
        Out::ZeroCommitment => zero_commitment(),
        Out::ZeroCommitmentPlusP => add_le(&zero_commitment(), &P0()),
        Out::PMinus => modulus(true, 0),
        Out::P => modulus(false, 0),
        Out::Ff => [0xff; 32],
        _ => v.r.output,
    };
    v.r.recent = (c.ptr as i64 - c.recent) as u32;
    v.r.fee_version = c.fee_version;
    v.r.amount = if c.amount == SOL && (c.token == 1 || c.token == 2) { 5_000_000 } else { c.amount };
    v.r.opt_amount = if c.opt >= SOL - 1 && c.opt <= SOL + 1 { v.r.amount.wrapping_add(c.opt).wrapping_sub(SOL) } else { c.opt };
    v.r.opt_collector = v.opt_acc;
    v.r.is_ata = c.ata;
    v.r.solana_pay = c.pay;
    v.skip = c.skip;
    match c.meta {
        0 => {}
        1 => v.r.metadata = [0; 17],
        _ => v.r.metadata = [0xff; 17],
    }
    v.seal();
    match c.hashed {
        0 => {}
        1 => v.r.hashed = num(0),
        2 => v.r.hashed = modulus(true, 0),
        3 => v.r.hashed = modulus(false, 0),
        _ => v.r.hashed = [0xff; 32],
    }
    // previous use of the output commitment
    if let Out::Seen(_) | Out::Near(..) = c.out {
        let mut d = b.data(&commitment_buffer());
        let (n, e) = match c.out {
            Out::Seen(n) => (n, v.r.output),
            Out::Near(at, stored) => (1, near(&v.r.output, at, stored)),
            _ => unreachable!(),
        };
        let e = mont_b(&fr(&e).unwrap());
        let mut ptr = if n < 128 { 0 } else { 9 };
        for i in 0..n {
            let x = if i == 0 { e } else { mont_b(&fr(&num(8_800_000 + i as u64)).unwrap()) };
            d[2 + 32 * ptr..34 + 32 * ptr].copy_from_slice(&x);
            ptr = (ptr + 1) % 128;
        }
        d[2 + 4096..2 + 4100].copy_from_slice(&n.min(128).to_le_bytes());
        d[2 + 4100..2 + 4104].copy_from_slice(&(ptr as u32).to_le_bytes());
        b.write(&commitment_buffer(), 0, &d);
    }
    if c.out == Out::Released {
        let mut o = V::new(&b, 11, &warden2(), 0, 77);
        o.trees = [active, if active == 0 { 1 } else { 0 }];
        o.r.output = v.r.output;
        o.seal();
        must(&mut b, &o.init_tx(&o.wrong_proof()), "request to fail");
        o.decide(&mut b, false);
        must(&mut b, &o.final_tx(false, 0, &o.rec), "request to fail");
    }
    let mut dup_exists = false;
    let mut slot_used = false;
    match c.dup {
        Dup::No => {}
        Dup::Other | Dup::OtherOrder => {
            let mut o = V::new(&b, 11, &warden2(), 0, 77);
            o.trees = [active, if active == 0 { 1 } else { 0 }];
            o.r.inputs = v.r.inputs.iter().map(|i| Input { root: None, nullifier: i.nullifier }).collect();
            if c.dup == Dup::OtherOrder {
                o.r.inputs.reverse();
            }
            if o.r.inputs.is_empty() {
                return (0, 0);
            }
            o.r.inputs[0].root = Some(root_of(&b));
            o.seal();
            let Ok(x) = run(&b, &o.init_tx(&o.wrong_proof())) else { return (0, 0) };
            b = x;
            dup_exists = o.dup() == v.dup();
        }
        Dup::Slot => {
            if c.idx > 128 {
                return (0, 0);
            }
            let mut o = V::new(&b, c.idx, &fp, 0, 77);
            o.trees = [active, if active == 0 { 1 } else { 0 }];
            o.seal();
            must(&mut b, &o.init_tx(&o.wrong_proof()), "request in the slot");
            slot_used = true;
        }
    }
    // ---- the specification ----
    let usable = c.token <= 2;
    let n_roots = v.r.inputs.iter().filter(|i| i.root.is_some()).count();
    let exists = |t: u32| t < 3;
    let root_ok = |i: usize| -> bool {
        let r = c.roots[i];
        let t = slot_tree(slots[i]);
        match r {
            Root::None => i > 0,
            Root::Current => t == active,
            Root::Past(k) => t == active && k < 5 && (c.ptr != 0),
            Root::Closed(k) => t == k && k < active,
            _ => false,
        }
    };
    let nul_ok = |i: usize| -> bool {
        let n = v.r.inputs[i].nullifier;
        canonical(&n) && n != spent(slot_tree(slots[i]))
    };
    let distinct = (0..c.inputs).all(|i| (0..i).all(|j| v.r.inputs[i].nullifier != v.r.inputs[j].nullifier || slots[i] != slots[j]));
    let out_ok = canonical(&v.r.output) && v.r.output != zero_commitment() && !matches!(c.out, Out::Seen(n) if n + (c.dup != Dup::No) as u32 <= 128);
    let recent_ok = c.recent >= 0 && c.recent < 128 && c.recent <= c.ptr as i64;
    let hashed_ok = canonical(&v.r.hashed);
    let shape = (1..=4).contains(&c.inputs) && c.roots[0] != Root::None && n_roots <= 2;
    let basic = shape
        && usable
        && exists(c.trees[0])
        && exists(c.trees[1])
        && c.trees[0] != c.trees[1]
        && (0..c.inputs).all(|i| root_ok(i) && nul_ok(i))
        && distinct
        && out_ok
        && recent_ok
        && hashed_ok
        && v.r.opt_amount <= v.r.amount
        && c.fee_version == 0
        && c.vkey == 0
        && c.idx <= 128
        && !slot_used
        && (if c.skip { dup_exists } else { !dup_exists });
    // a non-canonical input hash can never be finalised, so its admission is immaterial (see the substitution driver)
    if c.hashed >= 3 {
        return (0, 0);
    }
    if n_roots < 2 && c.trees[0] == c.trees[1] {
        // which account is named for the unused slot is immaterial
        return (0, 0);
    }
    let mut ok = basic;
    // ---- fees ----
    let t = c.token;
    if !usable {
        ok = false;
    } else {
        match c.fee {
            FeeK::Ample => v.r.fee = if v.r.amount > 1 << 39 { v.r.amount.saturating_add(0) / 50 + v.r.fee } else { v.r.fee },
            FeeK::Exact | FeeK::Short => {
                if basic && (t != 0 || v.r.amount == 0 || v.r.amount >= rent_min(0)) && !(c.ata && (t == 0 || v.r.amount < 79_532 + v.r.opt_amount)) && c.order == 0 {
                    v.r.fee = v.r.fee.max(v.r.amount / 50);
                    v.seal_keep(c.hashed);
                    if !exact_fee_keep(&b, &mut v, c.hashed) {
                        return (0, 0);
                    }
                    if c.fee == FeeK::Short {
                        // every smaller fee needs at least what its own preparation costs
                        v.r.fee -= 1;
                    }
                } else {
                    return (0, 0);
                }
            }
            FeeK::Zero => v.r.fee = 0,
            FeeK::Overflow => v.r.fee = (u64::MAX - v.r.amount).wrapping_add(1),
            FeeK::Max => v.r.fee = u64::MAX - v.r.amount,
        }
        v.seal_keep(c.hashed);
        if v.r.amount.checked_add(v.r.fee).is_none() {
            ok = false;
        }
        // what the preparation of this request costs (submission alone does not check the fee)
        if ok {
            match run(&b, &[v.init_ix()]) {
                Err(_) => {}
                Ok(x) => {
                    let prep = u32_at(&x, &v.acc(), VE_PREP_COUNT) as u64;
                    let need = conv(f.commitment_fee(c.rate), t) + conv(f.proof_fee(prep), t) - conv(f.proof_subv, t);
                    // exact for lamports
                    let have = (v.r.fee as i128 - f.proof_net(v.r.amount) as i128) as f64;
                    if t != 0 && (have - need).abs() < 4.0 {
                        // within the rounding of the conversion: the recorded charges decide
                        if c.fee == FeeK::Short {
                            ok = false;
                        }
                    } else if have < need {
                        ok = false;
                    }
                }
            }
        }
        if t == 0 && (c.ata || (v.r.amount != 0 && v.r.amount < rent_min(0))) {
            ok = false;
        }
        if c.ata && t != 0 {
            let rent_t = conv(rent_min(165), t);
            let have = v.r.amount as f64 - v.r.opt_amount as f64;
            if (have - rent_t).abs() < 2.0 {
                return (0, 0);
            }
            if have < rent_t {
                ok = false;
            }
        }
    }
    // ---- funding ----
    if usable {
        let vlen = elusiv_account_len();
        let cost = f.commitment_fee(c.rate) + if c.ata { rent_min(165) } else { 0 } + rent_min(vlen) + if c.skip { 0 } else { rent_min(2) };
        match c.funds {
            Funds::Ample => {}
            Funds::PayerExact => b.set_lamports(&fp, cost + rent_min(0)),
            Funds::PayerShort => {
                b.set_lamports(&fp, cost - 1);
                ok = false;
            }
            Funds::CollectorEmpty => {
                if t == 0 {
                    b.set_lamports(&fee_collector(), rent_min(b.data(&fee_collector()).len()));
                } else {
                    b.write(&ata(&fee_collector(), t), 64, &0u64.to_le_bytes());
                    // a subvention of less than a unit is paid from nothing
                    if conv(f.proof_subv, t) < 2.0 {
                        return (0, 0);
                    }
                }
                ok = false;
            }
        }
    }
    // ---- submission ----
    let pr = v.proof();
    let (i, fe, p) = (init_verification(v.idx, c.vkey, v.trees, &v.r, v.skip, &v.fp, &v.ident, &kids(c.trees[0]), &kids(c.trees[1])), v.fee_ix(), v.proof_ix(&pr));
    let tx = match c.order {
        0 => vec![i, fe, p],
        1 => vec![i, p, fe],
        2 => vec![fe, i, p],
        3 => vec![i.clone(), i, fe, p],
        4 => vec![i, fe.clone(), fe, p],
        5 => vec![i, fe, p.clone(), p],
        6 => vec![fe, p],
        _ => vec![i, p],
    };
    if c.order != 0 {
        ok = false;
    }
    let mut props = vec!["C13"];
    if c.roots != Case::default().roots || c.trees != [0, 1] {
        props.push("C14");
    }
    if c.nuls != [Nul::Fresh; 4] {
        props.extend(["C01", "C02"]);
    }
    if c.out != Out::Fresh {
        props.push("C21");
    }
    if c.fee != FeeK::Ample || c.amount != SOL {
        props.extend(["C18", "C25", "C05"]);
    }
    let props: Props = Box::leak(props.into_boxed_slice());
    let mut steps = 2;
    let b1 = match attempt(out, props, "request", &b, &tx, ok) {
        R::No => return (1, 1),
        R::Yes(x) => x,
    };
    if !ok {
        return (1, 2);
    }
    check_setup(out, "request", &b, &b1, &v, &f, c.rate);
    // the setup steps run once
    for ix in [v.init_ix(), v.fee_ix(), v.proof_ix(&pr)] {
        attempt(out, &["C13", "C06"], "repeated setup step", &b1, &[ix], false);
        steps += 1;
    }
    // requests that span two trees cannot be finalised yet (documented as not available)
    if n_roots < 2 && c.hashed == 0 && v.r.amount < 1 << 41 {
        let mut b2 = b1.clone();
        b2.set_lamports(&fp, 10 * SOL);
        v.decide(&mut b2, true);
        v.fin.mt_index = active;
        v.fin.commitment_index = 0;
        let ch = v.charges(&b1);
        let dest = v.rec_acc();
        let created = c.ata && b2.lamports(&dest) == 0;
        let net = v.r.amount - v.r.opt_amount - if created { ch.rent_t } else { 0 };
        let net = if c.ata && v.r.amount == 0 { 0 } else { net };
        if t == 0 && net > 0 && b2.lamports(&dest) + net < rent_min(0) {
            return (steps, 5);
        }
        // lamports amount below the rent of the collector
        if let R::Yes(b3) = attempt(out, &["C04", "C05", "C06", "C14", "C13"], "finalisation of an admitted request", &b2, &v.final_tx(true, net, &dest), true) {
            check_payout(out, "payout", &b2, &b3, &v, &ch, created, &dest);
            for i in 0..v.r.inputs.len() {
                let mut w = V::new(&b3, 77, &warden2(), 0, 99);
                w.trees = v.trees;
                w.r.inputs[0] = Input { root: v.r.inputs[0].root, nullifier: v.r.inputs[i].nullifier };
                w.r.recent = tree_ptr(&b3);
                w.seal();
                steps += 1;
                attempt(out, &["C01", "C02", "C13"], "request with a spent nullifier", &b3, &w.init_tx(&w.proof()), false);
            }
        }
        steps += 1;
    }
    (steps, b1.hash())
}
fn kids(t: u32) -> Vec<Pubkey> {
    null_children(t)[..1].to_vec()
}
fn elusiv_account_len() -> usize {
    use elusiv_types::SizedAccount;
    elusiv::state::proof::VerificationAccount::SIZE
}
impl V {
    /// seals the request but keeps a deliberately wrong input hash
    pub fn seal_keep(&mut self, hashed: u8) {
        let h = self.r.hashed;
        self.seal();
        if hashed != 0 {
            self.r.hashed = h;
        }
    }
}
fn exact_fee_keep(b: &Bank, v: &mut V, hashed: u8) -> bool {
    let h = v.r.hashed;
    if hashed != 0 {
        return false;
    }
    let r = exact_fee(b, v, &Fee::default(), 0);
    let _ = h;
    r
}

pub fn grid(c: &mut Check) {
    let w = worlds(&[0, 1, 127, 128, 200, MT_LEAVES - 1]);
    let d = dims();
    let n = c.tier(2, 3);
    let mut cases = vec![Case::default()];
    combos(&d, 0, n.min(2), Case::default(), &mut cases);
    let base = Case { token: 1, ..Default::default() };
    combos(&d, 0, 2, base, &mut cases);
    // notes of two trees: the active one and a closed one, two closed ones, the inputs of the two mixed
    let two = |closed, trees, roots: [Root; 4], inputs| Case { closed, trees, roots, inputs, ..Default::default() };
    combos(&d, 0, n.min(2), two(1, [1, 0], [Root::Current, Root::Closed(0), Root::None, Root::None], 2), &mut cases);
    combos(&d, 0, n.min(2), two(2, [0, 1], [Root::Closed(0), Root::Closed(1), Root::None, Root::None], 2), &mut cases);
    combos(&d, 0, n.min(2), two(1, [0, 1], [Root::Closed(0), Root::None, Root::None, Root::Current], 4), &mut cases);
    if n == 3 {
        // three deviations among the value dimensions
        combos(&d, 0, 3, Case::default(), &mut cases);
    }
    c.grid(
        "request-admission",
        &format!(
            "all requests that differ from a valid one in at most {} of {} dimensions (trees, closed trees, tree size, number of inputs, roots, nullifiers, output commitment, recent index, fee version, token, amount, fee, optional fee, recipient kind, solana pay, input hash, key, index, duplicates, funding, rate, metadata, order of the setup steps); admitted ones are finalised",
            n, d.len()
        ),
        &cases,
        |x, out| run_case(x, &w, out),
    );
}
/// values that differ in a single bit from those that decide
fn near_values(c: &mut Check) {
    let w = worlds(&[200]);
    let mut cases = vec![];
    for at in 0..32u8 {
        for stored in [false, true] {
            for k in 0..3 {
                let mut x = Case { closed: if k == 2 { 1 } else { 0 }, trees: if k == 2 { [0, 1] } else { [0, 1] }, ..Case::default() };
                x.roots[0] = Root::Near(k, at, stored);
                cases.push(x.clone());
                if k == 2 {
                    x.trees = [1, 0];
                    x.inputs = 2;
                    x.roots = [Root::Current, Root::Near(2, at, stored), Root::None, Root::None];
                    cases.push(x);
                }
            }
            for token in [0, 1] {
                cases.push(Case { out: Out::Near(at, stored), token, ..Case::default() });
            }
            let mut x = Case::default();
            x.nuls[0] = Nul::NearSpent(at, stored);
            cases.push(x);
            let mut x = Case { inputs: 2, ..Case::default() };
            x.nuls[1] = Nul::NearSame(at, stored);
            cases.push(x);
            let mut x = Case { inputs: 4, ..Case::default() };
            x.nuls[3] = Nul::NearSame(at, stored);
            cases.push(x);
        }
    }
    c.grid("near-values", "roots, nullifiers and output commitments that differ in a single bit of each byte (of the written and of the stored form) from a known one", &cases, |x, out| run_case(x, &w, out));
}
pub fn run_all(c: &mut Check) {
    if c.wants("near-values", &["C01", "C13", "C14", "C21", "C02"]) {
        near_values(c);
    }
    if c.wants("request-admission", &["C01", "C02", "C13", "C14", "C18", "C21", "C25", "C05"]) {
        grid(c);
    }
}
