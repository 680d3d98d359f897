//! Finalisation of valid and invalid verifications: exact effects for every kind of request (C04, C05, C06, C07).
use crate::chk::*;
use crate::hash::warden;
use crate::ver::*;
use mc::*;


#[derive(Clone, Copy, Debug, PartialEq)]
enum Ata {
    No,
    Existing,
    Missing,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Rec {
    Ok,
    /// token: an account of another mint / no account at all / a wallet
    WrongMint,
    Absent,
    Wallet,
    /// the fee payer itself
    Payer,
}
#[derive(Clone, Debug)]
struct Case {
    token: u16,
    amount: u8,
    opt: u8,
    ata: Ata,
    rec: Rec,
    pay: bool,
    memo: bool,
    reference: bool,
    skip: bool,
    inputs: usize,
    valid: bool,
    rate: u32,
    exact_fee: bool,
    real: bool,
    queue: usize,
}
impl Default for Case {
    fn default() -> Self {
        Case { token: 0, amount: 0, opt: 0, ata: Ata::No, rec: Rec::Ok, pay: false, memo: false, reference: false, skip: false, inputs: 1, valid: true, rate: 1, exact_fee: false, real: false, queue: 0 }
    }
}

/// the smallest sufficient fee of a request (the fee itself changes the number of preparation steps)
pub fn exact_fee(b: &Bank, v: &mut V, f: &Fee, rate: u32) -> bool {
    for _ in 0..12 {
        let Ok(b2) = run(b, &v.init_tx(&v.proof())) else { return false };
        let c = v.charges(&b2);
        let need = c.hash_t + c.proof_t + c.net - c.subv;
        let _ = (f, rate);
        if v.r.fee == need {
            return true;
        }
        v.r.fee = need;
        v.seal();
        // a fee that became too small is retried with the larger requirement
        while run(b, &v.init_tx(&v.proof())).is_err() && v.r.fee < need + need / 10 {
            v.r.fee += f.lamports_per_tx.max(1);
            v.seal();
        }
    }
    run(b, &v.init_tx(&v.proof())).is_ok()
}

fn build(c: &Case, b: &mut Bank) -> V {
    set_rate(b, c.rate);
    let mut v = V::new(b, 3, &warden(), c.token, 1);
    for i in 1..c.inputs {
        v.r.inputs.push(Input { root: None, nullifier: nul(10 + i as u64) });
    }
    let min = if c.token == 0 { rent_min(0) } else { 1 };
    v.r.amount = match c.amount {
        0 => v.r.amount,
        1 => 0,
        2 => min,
        _ => 3 * v.r.amount + 1,
    };
    v.r.opt_amount = match c.opt {
        0 => 0,
        1 => 1,
        2 => v.r.amount / 3,
        _ => v.r.amount,
    };
    v.r.opt_collector = v.opt_acc;
    v.r.is_ata = c.ata != Ata::No;
    if c.ata != Ata::No {
        v.rec = if c.ata == Ata::Existing { recipient() } else { key("new-recipient") };
        // the amount has to cover the rent
        if v.r.amount > 0 {
            v.r.amount += 1_000_000;
            if c.amount == 2 {
                v.r.amount = 79_532;
            }
            v.r.opt_amount = v.r.opt_amount.min(v.r.amount - 79_532);
        }
    }
    match c.rec {
        Rec::Ok => {}
        Rec::WrongMint => v.rec = if c.token == 0 { ata(&recipient(), 1) } else { ata(&recipient(), 3 - c.token) },
        Rec::Absent => v.rec = key("absent"),
        Rec::Wallet => v.rec = recipient(),
        Rec::Payer => v.rec = if c.token == 0 || c.ata != Ata::No { warden() } else { ata(&warden(), c.token) },
    }
    v.r.solana_pay = c.pay;
    if c.memo {
        v.memo = Some(b"a memo".to_vec());
    }
    if c.reference {
        v.reference = Some(key("reference"));
    }
    v.skip = c.skip;
    v.seal();
    if c.queue > 0 {
        crate::hash::put_queue(b, 200, &crate::hash::prefilled(c.queue as u32, c.rate));
    }
    v.fin.commitment_index = tree_ptr(b) + c.queue as u32;
    v
}

fn run_case(c: &Case, base: &Bank, out: &mut Vec<Viol>) -> (u64, u128) {
    let f = Fee::default();
    let mut b = base.clone();
    let mut v = build(c, &mut b);
    // combinations that the admission refuses (checked by the admission driver)
    if c.ata != Ata::No && (c.token == 0 || v.r.amount == 0) || v.r.opt_amount > v.r.amount {
        return (0, 0);
    }
    if c.skip {
        let mut o = V::new(&b, 9, &warden2(), c.token, 1);
        o.r.inputs = v.r.inputs.clone();
        o.r.output = num(666);
        o.seal();
        must(&mut b, &o.init_tx(&o.wrong_proof()), "other verification");
    }
    if c.exact_fee && !exact_fee(&b, &mut v, &f, c.rate) {
        return (0, 0);
    }
    let proof = if c.valid { v.proof() } else { v.wrong_proof() };
    let R::Yes(b1) = attempt(out, &["C13"], "setup", &b, &v.init_tx(&proof), true) else { return (1, 1) };
    check_setup(out, "setup", &b, &b1, &v, &f, c.rate);
    let ch = v.charges(&b1);
    let mut steps = 1;
    let mut b2 = b1.clone();
    if c.real {
        match v.compute(&b1) {
            Ok((n, x)) => {
                steps += n;
                if n != ch.prep + 60 {
                    viol(out, &["C35", "C18"], "compute:transactions", format!("the verification took {} transactions, advertised are {}", n, ch.prep + 60));
                }
                only(out, &["C03", "C16"], "compute", &b1, &x, &[v.acc()]);
                if v.verdict(&x) != Some(c.valid) {
                    viol(out, &["C03", "C24"], "compute:verdict", format!("the verdict is {:?}, the proof is {}", v.verdict(&x), c.valid));
                    return (steps, 2);
                }
                b2 = x;
            }
            Err(e) => {
                viol(out, &["C03", "C35"], "compute:refused", format!("a computation was refused: {:?}", e));
                return (steps, 2);
            }
        }
    } else {
        v.decide(&mut b2, c.valid);
    }
    // where the amount arrives
    let dest = match c.rec {
        Rec::Ok | Rec::Payer => v.rec_acc(),
        _ if c.token == 0 || c.ata != Ata::No => v.rec_acc(),
        _ => ata(&fee_collector(), c.token),
    };
    let created = c.ata != Ata::No && b2.lamports(&dest) == 0;
    let net = v.r.amount.saturating_sub(v.r.opt_amount).saturating_sub(if created { ch.rent_t } else { 0 });
    let tx = v.final_tx(c.valid, net, &dest);
    steps += 1;
    // lamports: a new recipient account has to end up rent exempt; the runtime refuses otherwise
    let expect = !(c.valid && c.token == 0 && v.r.amount > 0 && net > 0 && b2.lamports(&dest) + net < rent_min(b2.get(&dest).map(|a| a.data.len()).unwrap_or(0)));
    // an invalid proof never pays: the tail of a solana-pay request would pay from the fee payer's own account
    let tx = if c.valid { tx } else { tx.into_iter().take(2).chain(v.memo.iter().flat_map(|m| if c.pay { vec![memo(m), nop()] } else { vec![memo(m)] })).collect() };
    let R::Yes(b3) = attempt(out, if c.valid { &["C04", "C05", "C06", "C03"] } else { &["C07"] }, if c.valid { "finalisation" } else { "finalisation of an invalid proof" }, &b2, &tx, expect) else {
        return (steps, 3);
    };
    if !expect {
        return (steps, 4);
    }
    if c.valid {
        let what = if c.pay { "payout-solana-pay" } else { "payout" };
        check_payout(out, what, &b2, &b3, &v, &ch, created, &dest);
    } else {
        check_forfeit(out, if c.token == 0 { "forfeit" } else { "forfeit-token" }, &b2, &b3, &v, &ch);
    }
    if b.total_lamports() != b3.total_lamports() {
        viol(out, &["C05"], "lamports:total", "lamports were created or destroyed");
    }
    // finalising again is impossible
    for tx in [v.final_tx(c.valid, net, &dest), vec![v.transfer_ix()], vec![v.insert_ix()], vec![v.send_ix()]] {
        steps += 1;
        attempt(out, &["C06", "C01"], "second finalisation", &b3, &tx, false);
    }
    if c.valid {
        // and so is a new request with one of the nullifiers
        for i in 0..v.r.inputs.len() {
            let mut w = V::new(&b3, 4, &warden(), c.token, 99);
            w.r.inputs[0].nullifier = v.r.inputs[i].nullifier;
            w.seal();
            steps += 1;
            attempt(out, &["C01", "C02", "C13"], "request with a spent nullifier", &b3, &w.init_tx(&w.proof()), false);
        }
    } else if !c.skip {
        // the nullifiers are unspent
        let mut w = v.clone();
        w.idx = 4;
        steps += 1;
        attempt(out, &["C07", "C13"], "request after a failed one", &b3, &w.init_tx(&w.proof()), true);
    }
    (steps, b3.hash())
}

fn dims() -> Dims<Case> {
    vec![
        dim(vec![1u16, 2], |c, t| c.token = t),
        dim(vec![1u8, 2, 3], |c, t| c.amount = t),
        dim(vec![1u8, 2, 3], |c, t| c.opt = t),
        dim(vec![Ata::Existing, Ata::Missing], |c, t| c.ata = t),
        dim(vec![Rec::WrongMint, Rec::Absent, Rec::Wallet, Rec::Payer], |c, t| c.rec = t),
        dim(vec![true], |c, t| c.pay = t),
        dim(vec![true], |c, t| c.memo = t),
        dim(vec![true], |c, t| c.reference = t),
        dim(vec![true], |c, t| c.skip = t),
        dim(vec![2usize, 3, 4], |c, t| c.inputs = t),
        dim(vec![false], |c, t| c.valid = t),
        dim(vec![0u32, 4], |c, t| c.rate = t),
        dim(vec![true], |c, t| c.exact_fee = t),
        dim(vec![1usize, 100, 238], |c, t| c.queue = t),
    ]
}

pub fn grid(c: &mut Check) {
    let (b, _) = vworld(1, 200, 0);
    let d = dims();
    let n = c.tier(3, 4);
    let mut cases = vec![];
    for token in 0..2 {
        let base = Case { token, ..Default::default() };
        cases.push(base.clone());
        combos(&d[1..], 0, n, base, &mut cases);
    }
    let mut base = Case { token: 2, ..Default::default() };
    combos(&d[1..], 0, 2, base.clone(), &mut cases);
    // the same with the real computation
    let mut real = vec![];
    for token in 0..2 {
        base = Case { token, real: true, ..Default::default() };
        real.push(base.clone());
        combos(&d[1..], 0, c.tier(1, 2), base.clone(), &mut real);
    }
    cases.extend(real);
    c.grid(
        "finalisation-effects",
        &format!(
            "all requests that differ from a plain one in at most {} of 13 dimensions (amount, optional fee, associated account, recipient, solana pay, memo, reference, shared nullifier account, inputs, verdict, rate, fee, queue), for lamports and tokens; all single deviations also with the real proof computation",
            n
        ),
        &cases,
        |x, out| run_case(x, &b, out),
    );
}

pub fn run_all(c: &mut Check) {
    if c.wants("finalisation-effects", &["C01", "C03", "C04", "C05", "C06", "C07", "C18", "C23", "C25"]) {
        grid(c);
    }
    if c.wants("tracked-layout", &["C30"]) {
        layout(c);
    }
}

/// What the warden network assumes about the instructions it tracks (mcw's `TRACKED`): the tag, and that the first
/// account is the fee payer who executes the work.
fn layout(c: &mut Check) {
    let (b0, _) = vworld(1, 200, 0);
    let mut cases = vec![(2u8, 0u16, true)];
    for t in 0..3u16 {
        for valid in [true, false] {
            cases.push((if t == 0 { 13 } else { 14 }, t, valid));
        }
    }
    c.grid("tracked-layout", "tag and executing account of the instructions that the warden network tracks", &cases, |(tag, token, valid), out| {
        let fp = warden();
        let mut b = b0.clone();
        let tx = if *tag == 2 {
            user(&mut b, "depositor", 1000, &[]);
            let r = BaseReq { base: num(50_000), recent: 200, amount: 10_000_000, token: 0, commitment: num(1), fee_version: 0, rate: 1 };
            let (_, bump) = pda_of(&pid(), "BaseCommitmentHashing", None, Some(0));
            let a = StoreAccs::new(&crate::hash::depositor(), &fp, 0);
            must(&mut b, &[store_base(0, bump, &r, &crate::hash::meta_of(1), &a)], "layout");
            must(&mut b, &[compute_base(0), compute_base(0)], "layout");
            vec![finalize_base(0, 0, &fp)]
        } else {
            let v = V::new(&b, 0, &fp, *token, 1);
            must(&mut b, &v.init_tx(&if *valid { v.proof() } else { v.wrong_proof() }), "layout");
            v.decide(&mut b, *valid);
            let dest = v.rec;
            v.final_tx(*valid, v.r.amount, &dest)
        };
        let k = tx.iter().position(|i| i.data[0] == *tag && i.program_id == pid());
        let Some(k) = k.filter(|k| tx[*k].accounts[0].pubkey == fp) else {
            viol(out, &["C30"], "layout:harness", "the instruction is laid out differently");
            return (1, 0);
        };
        attempt(out, &["C30"], "layout:tracked", &b, &tx, true);
        let mut other = tx.clone();
        other[k].accounts[0].pubkey = warden2();
        attempt(out, &["C30"], "layout:other payer", &b, &other, false);
        if *tag != 2 {
            let mut other = tx.clone();
            other[k].accounts[0].is_signer = false;
            attempt(out, &["C30"], "layout:unsigned", &b, &other, false);
        }
        (3, *tag as u128 | (*token as u128) << 8 | (*valid as u128) << 32)
    });
}
