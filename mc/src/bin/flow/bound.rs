//! What a proof is bound to (C04): every single byte of the data behind the input hash, memos of all lengths.
use crate::chk::*;
use crate::hash::warden;
use crate::ver::*;
use mc::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey};

const P: Props = &["C04"];

#[derive(Clone, Debug)]
struct Case {
    token: u16,
    pay: bool,
    reference: bool,
    ata: bool,
    opt: bool,
    memo: Option<usize>,
    what: What,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    /// a byte of the finalisation data, of an account or of the memo differs
    Iv,
    Owner,
    Recipient,
    Ident,
    Reference,
    Memo,
    /// other memos: truncated, extended, none, several
    MemoShape,
    /// the total amount, token and estimates
    Numbers,
    /// the request was submitted with other data than its hash
    Metadata,
    Collector,
    OptAmount,
    Kind,
}
use What::*;

fn memo_text(n: usize) -> Vec<u8> {
    (0..n).map(|i| b'a' + (i % 23) as u8).collect()
}
fn build(c: &Case, b: &Bank) -> V {
    let mut v = V::new(b, 3, &warden(), c.token, 1);
    v.r.solana_pay = c.pay;
    if c.reference {
        v.reference = Some(key("reference"));
    }
    if c.opt {
        v.r.opt_amount = v.r.amount / 3;
    }
    v.r.opt_collector = v.opt_acc;
    v.r.is_ata = c.ata;
    if c.ata {
        v.rec = recipient();
    }
    v.memo = c.memo.map(memo_text);
    v.seal();
    v
}
/// the request as `v`, after an admission and a valid verdict
fn admitted(b: &Bank, v: &V) -> Option<Bank> {
    let mut x = run(b, &v.init_tx(&v.proof())).ok()?;
    v.decide(&mut x, true);
    Some(x)
}
fn finals(v: &V) -> Vec<Instruction> {
    let dest = v.rec_acc();
    v.final_tx(true, v.r.amount - v.r.opt_amount, &dest)
}
fn flip(k: &Pubkey, i: usize, x: u8) -> Pubkey {
    let mut d = k.to_bytes();
    d[i] ^= x;
    Pubkey::new_from_array(d)
}

fn run_case(c: &Case, b: &Bank, out: &mut Vec<Viol>) -> (u64, u128) {
    let v = build(c, b);
    let mut n = 2;
    let Some(x) = admitted(b, &v) else {
        viol(out, &["C04", "C13"], "bound:refused", "a plain request was refused");
        return (n, 0);
    };
    let R::Yes(_) = attempt(out, &["C04", "C06"], "finalisation", &x, &finals(&v), true) else { return (n, 1) };
    // the same finalisation with deviating data
    let mut alt: Vec<(&'static str, V)> = vec![];
    let mut req: Vec<(&'static str, V)> = vec![];
    let mut extra: Vec<(&'static str, Vec<Instruction>)> = vec![];
    for i in 0..32 {
        for m in [1u8, 0x10, 0x80] {
            let mut w = v.clone();
            let what = match c.what {
                Iv => {
                    w.fin.iv[i] ^= m;
                    "other iv"
                }
                Owner => {
                    w.fin.enc_owner[i] ^= m;
                    "other encrypted owner"
                }
                Recipient => {
                    w.rec = flip(&w.rec, i, m);
                    "other recipient"
                }
                Ident => {
                    w.ident = flip(&w.ident, i, m);
                    "other identifier"
                }
                Reference => {
                    w.reference = Some(flip(&w.reference.unwrap_or_default(), i, m));
                    "other reference"
                }
                Metadata if i < 17 => {
                    w.r.metadata[i] ^= m;
                    req.push(("other metadata", w));
                    continue;
                }
                Collector => {
                    w.r.opt_collector = flip(&w.r.opt_collector, i, m);
                    req.push(("other fee collector", w));
                    continue;
                }
                OptAmount if i < 8 => {
                    w.r.opt_amount ^= (m as u64) << (8 * i);
                    if w.r.opt_amount <= w.r.amount {
                        req.push(("other optional fee", w));
                    }
                    continue;
                }
                _ => continue,
            };
            alt.push((what, w));
        }
    }
    let text = v.memo.clone().unwrap_or_default();
    match c.what {
        Reference => {
            if c.reference {
                alt.push(("reference omitted", V { reference: None, ..v.clone() }));
            }
        }
        Memo => {
            for i in 0..text.len() {
                for m in [1u8, 0x20, 0x80] {
                    let mut w = v.clone();
                    w.memo.as_mut().unwrap()[i] ^= m;
                    alt.push(("other memo", w));
                }
            }
        }
        MemoShape => {
            let with = |t: Option<Vec<u8>>| V { memo: t, ..v.clone() };
            for l in 0..text.len() {
                alt.push(("truncated memo", with(Some(text[..l].to_vec()))));
                alt.push(("memo without its start", with(Some(text[l + 1..].to_vec()))));
            }
            for e in [0u8, b' ', b'a', 255] {
                for k in [1, 2, 31, 32, 33, 64] {
                    let mut t = text.clone();
                    t.extend(vec![e; k]);
                    alt.push(("extended memo", with(Some(t))));
                    let mut t = vec![e; k];
                    t.extend(&text);
                    alt.push(("memo with another start", with(Some(t))));
                }
            }
            if !text.is_empty() {
                let mut t = text.clone();
                t.extend(&text);
                alt.push(("doubled memo", with(Some(t))));
                let mut t = text.clone();
                t.reverse();
                if t != text {
                    alt.push(("reversed memo", with(Some(t))));
                }
                // no memo, or the finalisation ignores it
                alt.push(("omitted memo", with(None)));
                let mut tx = finals(&v);
                tx[0] = V { memo: None, ..v.clone() }.send_ix();
                extra.push(("ignored memo", tx));
                // the memo belongs to the end of the transaction
                let mut tx = finals(&v);
                let at = tx.iter().position(|i| i.program_id == svm::memo_id()).unwrap();
                let m = tx.remove(at);
                extra.push(("missing memo instruction", tx.clone()));
                tx.insert(0, m.clone());
                extra.push(("memo at the start", tx));
                let mut tx = finals(&v);
                tx.insert(at + 1, memo(b"another memo"));
                extra.push(("memo before another one", tx));
                // another program with the same data
                let mut tx = finals(&v);
                tx[at].program_id = cu_ix().program_id;
                extra.push(("memo of another program", tx));
            }
        }
        Numbers => {
            for bit in 0..64 {
                let mut w = v.clone();
                w.fin.total ^= 1 << bit;
                alt.push(("other total", w));
            }
            for t in [0u16, 1, 2, 3, 256, u16::MAX] {
                if t != c.token {
                    let mut w = v.clone();
                    w.fin.token = t;
                    alt.push(("other token", w));
                }
            }
            for bit in 0..32 {
                let mut w = v.clone();
                w.fin.mt_index = v.fin.mt_index.wrapping_add(1 << bit);
                alt.push(("tree in the future", w));
                let mut w = v.clone();
                w.fin.commitment_index = v.fin.commitment_index.wrapping_add(1 << bit);
                alt.push(("commitment in the future", w));
            }
        }
        Kind => {
            let mut w = v.clone();
            w.r.is_ata = !w.r.is_ata;
            req.push(("other recipient kind", w));
            for (a, o) in [(0, 0), (0, v.r.amount), (1, v.r.amount)] {
                let mut w = v.clone();
                w.r.opt_amount = o;
                if a == 1 {
                    w.r.opt_collector = key("warden");
                }
                if (w.r.opt_amount, w.r.opt_collector) != (v.r.opt_amount, v.r.opt_collector) {
                    req.push(("other optional fee", w));
                }
            }
            let mut w = v.clone();
            w.r.metadata = [0; 17];
            req.push(("other metadata", w));
            // shifting bytes between neighbouring fields
            let mut w = v.clone();
            w.ident = Pubkey::new_from_array(v.fin.iv);
            w.fin.iv = v.ident.to_bytes();
            alt.push(("exchanged fields", w));
            let mut w = v.clone();
            (w.fin.iv, w.fin.enc_owner) = (v.fin.enc_owner, v.fin.iv);
            alt.push(("exchanged fields", w));
            let mut w = v.clone();
            (w.rec, w.ident) = (v.ident, v.rec);
            alt.push(("exchanged fields", w));
        }
        _ => {}
    }
    for (what, w) in alt {
        n += 1;
        attempt(out, P, &format!("finalisation with {}", what), &x, &finals(&w), false);
        // the send step alone must already refuse (its payment could be found to be missing for other reasons)
        let mut tx = finals(&w);
        for (i, k) in finals(&v).into_iter().enumerate().skip(1) {
            if i < tx.len() && k.program_id == pid() {
                tx[i] = k;
            }
        }
        n += 1;
        attempt(out, P, &format!("finalisation with {} and the right payment", what), &x, &tx, false);
    }
    for (what, tx) in extra {
        n += 1;
        attempt(out, P, &format!("finalisation with {}", what), &x, &tx, false);
    }
    for (what, w) in req {
        // admitted with the hash of the original data
        let Some(y) = admitted(b, &w) else { continue };
        n += 2;
        attempt(out, P, &format!("payout of a request with {}", what), &y, &finals(&w), false);
        attempt(out, P, &format!("payout of a request with {}", what), &y, &finals(&v), false);
    }
    (n, hash_bytes(1, format!("{:?}", c).as_bytes()))
}

pub fn run_all(c: &mut Check) {
    if !c.wants("bound-data", P) {
        return;
    }
    let (b, _) = vworld(1, 200, 0);
    let mut memos = vec![None, Some(0), Some(1), Some(16), Some(31), Some(32), Some(33), Some(64), Some(65), Some(128), Some(300)];
    if c.thorough {
        memos.extend((2..200).map(Some));
        memos.push(Some(566));
        memos.push(Some(700));
    }
    let mut cases = vec![];
    for token in 0..2u16 {
        for pay in [false, true] {
            for m in &memos {
                for what in [Memo, MemoShape] {
                    cases.push(Case { token, pay, reference: false, ata: false, opt: false, memo: *m, what });
                }
            }
            for reference in [false, true] {
                for ata in [false, true] {
                    if ata && token == 0 {
                        continue;
                    }
                    for opt in [false, true] {
                        for m in [None, Some(5), Some(40)] {
                            for what in [Iv, Owner, Recipient, Ident, Reference, Numbers, Metadata, Collector, OptAmount, Kind] {
                                cases.push(Case { token, pay, reference, ata, opt, memo: m, what });
                            }
                        }
                    }
                }
            }
        }
    }
    c.grid(
        "bound-data",
        "valid verifications for lamports and tokens x solana pay x reference x associated account x optional fee x memo (0-300 bytes; thorough: every length to 200): every byte of every bound field (recipient, identifier, iv, encrypted owner, reference, kind, metadata, collector, optional fee, memo) and of the announced totals deviates, memos are truncated, extended, moved, replaced",
        &cases,
        |x, out| run_case(x, &b, out),
    );
}
