//! Deposits: acceptance, charges, the two-step hash, enqueueing (C05, C08, C10, C11, C12, C16, C21, C25).
use crate::chk::*;
use crate::ver::{set_prices, Prices, MORE_PRICES, PRICES};
use crate::hash::{base_world, depositor, meta_of, prefilled, put_queue, warden, Entry};
use mc::*;
use solana_program::pubkey::Pubkey;

const P: [u8; 32] = [
    0x01, 0x00, 0x00, 0xf0, 0x93, 0xf5, 0xe1, 0x43, 0x91, 0x70, 0xb9, 0x79, 0x48, 0xe8, 0x33, 0x28, 0x5d, 0x58, 0x81, 0x81, 0xb6, 0x45, 0x50, 0xb8, 0x29, 0xa0, 0x31, 0xe1, 0x72, 0x4e, 0x64,
    0x30,
];
pub fn add_le(a: &B32, b: &B32) -> B32 {
    let mut r = [0; 32];
    let mut c = 0u16;
    for i in 0..32 {
        c += a[i] as u16 + b[i] as u16;
        r[i] = c as u8;
        c >>= 8;
    }
    r
}
pub fn modulus(minus: bool, plus: u64) -> B32 {
    let mut p = P;
    if minus {
        p[0] -= 1;
    }
    add_le(&p, &num(plus))
}
/// little-endian comparison
pub fn lt(a: &B32, b: &B32) -> bool {
    a.iter().rev().lt(b.iter().rev())
}
pub fn canonical(a: &B32) -> bool {
    lt(a, &P)
}
pub fn zero_base() -> B32 {
    let z = fr(&num(0)).unwrap();
    fr_b(&h2(z, z))
}

/// (min, max, decimals) of the tokens, from the documentation (Token.toml)
pub const TOKEN: [(u64, u64, u32); 3] = [(1000, 360_000_000_000, 9), (1000, 8_000_000_000, 6), (1000, 8_000_000_000, 6)];

/// lamports in units of a token: ideal value as a fraction (numerator, denominator)
/// `sol`/`tok`: (mantissa, exponent) of the USD price of one SOL / one token
pub fn ideal(l: u64, sol: (i64, i32), tok: (i64, i32), decimals: u32) -> f64 {
    l as f64 * 1e-9 * sol.0 as f64 * 10f64.powi(sol.1) / (tok.0 as f64 * 10f64.powi(tok.1)) * 10f64.powi(decimals as i32)
}
/// conversions are exact up to one unit and the precision of the price arithmetic
pub fn close(real: u64, ideal: f64) -> bool {
    (real as f64 - ideal).abs() <= 1.0 + ideal * 1e-6
}

#[derive(Clone, Debug)]
struct Case {
    ptr: u32,
    rate_cfg: u32,
    token: u16,
    amount: u64,
    base: B32,
    base_name: &'static str,
    commitment: B32,
    recent: u32,
    fee_version: u32,
    rate: u32,
    same_party: bool,
    bump_ok: bool,
    dup: Dup,
    funds: Funds,
    slot: u32,
    prices: Prices,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Dup {
    No,
    /// the same base commitment was stored `n` deposits ago
    Ago(u32),
    /// another deposit is in progress in the same slot
    Slot,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Funds {
    Ample,
    SenderExact,
    SenderShort,
    PayerExact,
    PayerShort,
    CollectorEmpty,
}

impl Default for Case {
    fn default() -> Self {
        Case {
            ptr: 200, rate_cfg: 1, token: 0, amount: 10_000_000, base: num(50_000), base_name: "ok", commitment: num(1), recent: 200, fee_version: 0, rate: 1,
            same_party: false, bump_ok: true, dup: Dup::No, funds: Funds::Ample, slot: 0, prices: PRICES,
        }
    }
}

type Set = Box<dyn Fn(&mut Case) + Sync>;
fn dims(thorough: bool) -> Vec<Vec<Set>> {
    fn d<T: Clone + Sync + 'static>(v: Vec<T>, f: fn(&mut Case, T)) -> Vec<Set> {
        v.into_iter().map(|x| Box::new(move |c: &mut Case| f(c, x.clone())) as Set).collect()
    }
    let mut amounts = vec![0, 999, 1000, 8_000_000_000, 8_000_000_001, 360_000_000_000, 360_000_000_001, u64::MAX];
    if thorough {
        amounts.extend([1, 1001, 7_999_999_999, 10_000, 9_999, 359_999_999_999, u64::MAX / 2, 1 << 63]);
    }
    let bases: Vec<(&'static str, B32)> = vec![
        ("zero", num(0)), ("p-1", modulus(true, 0)), ("p", modulus(false, 0)), ("p+1", modulus(false, 1)), ("zero-base", zero_base()), ("zero-base+p", add_le(&zero_base(), &P)), ("ff", [0xff; 32]),
        ("ok+p", modulus(false, 50_000)),
    ];
    vec![
        d(vec![0u32, 1, 127, 128, 129, MT_LEAVES - 2, MT_LEAVES - 1, MT_LEAVES], |c, p| {
            c.recent = c.recent.wrapping_sub(c.ptr).wrapping_add(p);
            c.ptr = p
        }),
        d(vec![0u32, 4], |c, r| {
            c.rate_cfg = r;
            c.rate = r
        }),
        d(vec![1u16, 2, 12, 13, 20, u16::MAX], |c, t| c.token = t),
        d(amounts, |c, a| c.amount = a),
        d(bases, |c, b| {
            c.base = b.1;
            c.base_name = b.0
        }),
        d(vec![num(0), modulus(true, 0), modulus(false, 0), [0xff; 32]], |c, v| c.commitment = v),
        d(vec![1u32, 126, 127, 128, 129, 0u32.wrapping_sub(1)], |c, back| c.recent = c.ptr.wrapping_sub(back)),
        d(vec![1u32, u32::MAX], |c, v| c.fee_version = v),
        d(vec![0u32, 1, 2, 3, 4, 5, u32::MAX], |c, v| c.rate = v),
        d(vec![true], |c, v| c.same_party = v),
        d(vec![false], |c, v| c.bump_ok = v),
        d(vec![Dup::Ago(1), Dup::Ago(127), Dup::Ago(128), Dup::Ago(129), Dup::Slot], |c, v| c.dup = v),
        d(MORE_PRICES.to_vec(), |c, v| c.prices = v),
        d(vec![1u32, 255, 256, 1 << 16, 1 << 24, u32::MAX], |c, v| c.slot = v),
        d(vec![Funds::SenderExact, Funds::SenderShort, Funds::PayerExact, Funds::PayerShort, Funds::CollectorEmpty], |c, v| c.funds = v),
    ]
}


fn run_case(c: &Case, base_bank: &Bank, out: &mut Vec<Viol>) -> (u64, u128) {
    let f = Fee::default();
    let mut b = base_bank.clone();
    b.write(&storage(), ST_PTR, &c.ptr.to_le_bytes());
    set_rate(&mut b, c.rate_cfg);
    set_prices(&mut b, c.prices);
    let w = warden();
    let s = if c.same_party { w } else { depositor() };
    let tok = c.token;
    let known = (tok as usize) < elusiv::token::TOKENS.len();
    let usable = tok <= 2;
    let (key, bump) = pda_of(&pid(), "BaseCommitmentHashing", None, Some(c.slot));
    // duplicates
    if let Dup::Ago(n) = c.dup {
        // ring buffer content: n-1 other values after this one
        let mut d = b.data(&base_buffer());
        let len = n.min(128);
        let start = 5u32; // write position of the oldest value
        let vals: Vec<B32> = (0..n).map(|i| if i == 0 { c.base } else { num(700_000 + i as u64) }).collect();
        let mut ptr = start % 128;
        if n < 128 {
            ptr = 0;
        }
        for v in vals {
            d[2 + 32 * ptr as usize..34 + 32 * ptr as usize].copy_from_slice(&v);
            ptr = (ptr + 1) % 128;
        }
        // a buffer that is not full has len == ptr
        d[2 + 4096..2 + 4100].copy_from_slice(&len.to_le_bytes());
        d[2 + 4100..2 + 4104].copy_from_slice(&ptr.to_le_bytes());
        b.write(&base_buffer(), 0, &d);
    }
    if c.dup == Dup::Slot {
        let r = BaseReq { base: num(41), recent: c.ptr, amount: 10_000_000, token: 0, commitment: num(1), fee_version: 0, rate: c.rate_cfg };
        must(&mut b, &[store_base(c.slot, bump, &r, &meta_of(9), &StoreAccs::new(&depositor(), &w, 0))], "deposit in progress");
    }
    if c.slot != 0 {
        // a deposit is in progress in another slot
        let r = BaseReq { base: num(42), recent: c.ptr, amount: 20_000_000, token: 0, commitment: num(2), fee_version: 0, rate: c.rate_cfg };
        let bump = pda_of(&pid(), "BaseCommitmentHashing", None, Some(0)).1;
        must(&mut b, &[store_base(0, bump, &r, &meta_of(8), &StoreAccs::new(&depositor(), &w, 0)), compute_base(0)], "deposit in another slot");
    }
    let comp = f.base_hash_fee() + f.commitment_fee(c.rate_cfg);
    let conv = |l: u64| crate::ver::conv(l, if usable { tok } else { 0 });
    // funding
    let rent = rent_min(BH_SIZE);
    let net = f.base_net(c.amount);
    let sender_cost = c.amount as f64 + net as f64 + conv(comp) - conv(f.base_subv);
    let slack = if tok == 0 { 0u64 } else { 3 };
    let mut enough = true;
    let payer_cost = comp + rent;
    match c.funds {
        Funds::Ample => {}
        Funds::SenderExact | Funds::SenderShort => {
            if c.same_party || !usable || sender_cost > 1e17 || c.amount == 0 {
                return (0, 0);
            }
            let x = if c.funds == Funds::SenderExact { sender_cost as u64 + slack } else { sender_cost as u64 - 1 - 2 * slack };
            enough = c.funds == Funds::SenderExact;
            if tok == 0 {
                b.set_lamports(&s, x);
            } else {
                let a = ata(&s, tok);
                b.write(&a, 64, &x.to_le_bytes());
            }
        }
        Funds::PayerExact | Funds::PayerShort => {
            if c.same_party {
                return (0, 0);
            }
            // lamports deposits: the payer first receives the computation fee of the sender
            let got = if tok == 0 { comp - f.base_subv } else { 0 };
            let x = payer_cost - got;
            enough = c.funds == Funds::PayerExact;
            // what remains must keep the account rent exempt
            b.set_lamports(&w, if enough { x + rent_min(0) } else { x - 1 });
        }
        Funds::CollectorEmpty => {
            if tok == 0 {
                b.set_lamports(&fee_collector(), rent_min(b.data(&fee_collector()).len()));
                // the network fee arrives before the subvention is paid
                enough = net >= f.base_subv;
            } else if usable {
                b.write(&ata(&fee_collector(), tok), 64, &0u64.to_le_bytes());
                if (net as f64 - conv(f.base_subv)).abs() < 3.0 {
                    return (0, 0);
                }
                enough = net as f64 >= conv(f.base_subv);
            }
        }
    }
    let recent_ok = c.recent <= c.ptr && c.ptr - c.recent < 128;
    // the deposit in another slot is one more
    let seen = matches!(c.dup, Dup::Ago(n) if n + (c.slot != 0) as u32 <= 128);
    let ok = usable
        && c.amount >= TOKEN[tok as usize].0
        && c.amount <= TOKEN[tok as usize].1
        && canonical(&c.base)
        && canonical(&c.commitment)
        && c.base != zero_base()
        && recent_ok
        && c.fee_version == 0
        && c.rate == c.rate_cfg
        && c.bump_ok
        && c.dup != Dup::Slot
        && !seen
        && enough;
    let r = BaseReq { base: c.base, recent: c.recent, amount: c.amount, token: c.token, commitment: c.commitment, fee_version: c.fee_version, rate: c.rate };
    let accs = if known { StoreAccs::new(&s, &w, tok) } else { StoreAccs { token_program: spl_token::id(), ..StoreAccs::new(&s, &w, 0) } };
    let meta = meta_of(3);
    let mut steps = 1;
    let b2 = match attempt(out, if seen || matches!(c.dup, Dup::Ago(_)) { &["C12", "C21"] } else { &["C12"] }, "deposit", &b, &[store_base(c.slot, if c.bump_ok { bump } else { bump.wrapping_add(1) }, &r, &meta, &accs)], ok) {
        R::No => return (1, 1),
        R::Yes(x) => x,
    };
    if !ok {
        return (1, 2);
    }
    charges(out, &b, &b2, &f, c.rate_cfg, &s, &w, tok, c.amount, c.slot);
    // the recorded request
    let d = b2.data(&key);
    if d.len() != BH_SIZE || d[BH_ACTIVE] != 1 || d[BH_FEE_PAYER..BH_FEE_PAYER + 32] != w.to_bytes() || d[BH_META..] != meta || d[BH_RATE..BH_META] != c.rate.to_le_bytes() {
        viol(out, &["C10", "C12", "C23"], "deposit:record", "the accepted request was not recorded as submitted");
    }
    // run it to completion
    let mut b3 = b2.clone();
    for i in 0..2 {
        steps += 1;
        match attempt(out, &["C10", "C35", "C24"], "compute deposit", &b3, &[cu_ix(), compute_base(c.slot)], true) {
            R::Yes(x) => {
                only(out, &["C10", "C16"], "compute deposit", &b3, &x, &[key]);
                b3 = x;
            }
            R::No => return (steps, 3),
        }
        if i == 0 {
            attempt(out, &["C10", "C35"], "finalise deposit too early", &b3, &[finalize_base(c.slot, 0, &w)], false);
            steps += 1;
        }
    }
    steps += 2;
    attempt(out, &["C10", "C35"], "extra compute deposit", &b3, &[cu_ix(), compute_base(c.slot)], false);
    if let R::Yes(b4) = attempt(out, &["C10", "C08"], "finalise deposit", &b3, &[finalize_base(c.slot, 0, &w)], true) {
        let exp = mont_b(&deposit_commitment(&c.base, c.amount, c.token, c.recent));
        match queue_entries(&b4).last() {
            Some(e) if e.commitment == exp && e.rate == c.rate && e.fee_version == 0 => {}
            _ => viol(out, &["C10", "C08", "C24"], "deposit:commitment", "the enqueued commitment is not the hash of the deposit"),
        }
        if meta_entries(&b4).last() != Some(&meta) {
            viol(out, &["C23"], "deposit:metadata", "the enqueued metadata is not the submitted one");
        }
        let x = f.base_hash_fee() as i128;
        lamports(out, &["C11", "C05"], "finalise deposit", &b3, &b4, &[(pool(), -x), (w, x + rent as i128), (key, -(rent as i128))]);
        tokens(out, &["C11", "C05"], "finalise deposit", &b3, &b4, &[]);
        only(out, &["C16"], "finalise deposit", &b3, &b4, &[pool(), w, key, queue(), meta_queue()]);
    }
    (steps, b3.hash())
}

/// all balance changes of an accepted deposit
#[allow(clippy::too_many_arguments)]
pub fn charges(out: &mut Vec<Viol>, b: &Bank, b2: &Bank, f: &Fee, rate: u32, s: &Pubkey, w: &Pubkey, tok: u16, amount: u64, slot: u32) {
    let comp = f.base_hash_fee() + f.commitment_fee(rate);
    let net = f.base_net(amount) as i128;
    let rent = rent_min(BH_SIZE) as i128;
    let key = base_hashing(slot);
    let p: Props = &["C11", "C05"];
    let (amount, c, sub) = (amount as i128, comp as i128, f.base_subv as i128);
    if tok == 0 {
        lamports(
            out, p, "deposit", b, b2,
            &[(*s, -(amount + net + c - sub)), (*w, c - sub - c - rent + sub), (pool(), amount + c), (fee_collector(), net - sub), (key, rent)],
        );
        tokens(out, p, "deposit", b, b2, &[]);
    } else {
        lamports(out, p, "deposit", b, b2, &[(*w, -c - rent), (pool(), c), (key, rent)]);
        // fee payer receives the converted computation fee
        let got = token_balance(b2, &ata(w, tok)) as i128 - token_balance(b, &ata(w, tok)) as i128;
        let subt = net - (token_balance(b2, &ata(&fee_collector(), tok)) as i128 - token_balance(b, &ata(&fee_collector(), tok)) as i128);
        let conv = |l: u64| crate::ver::conv(l, tok);
        let party = s == w;
        let gross = if party { subt + conv(comp) as i128 } else { got };
        if !close(gross as u64, conv(comp)) && !party {
            viol(out, &["C11", "C25"], "deposit:conversion", format!("the fee payer received {} token units for {} lamports", got, comp));
        }
        if subt < 0 || !close(subt as u64, conv(f.base_subv)) {
            viol(out, &["C11", "C25"], "deposit:subvention", format!("the subvention was {} token units for {} lamports", subt, f.base_subv));
        }
        if party {
            tokens(out, p, "deposit", b, b2, &[(ata(w, tok), -(amount + net) + subt), (ata(&pool(), tok), amount), (ata(&fee_collector(), tok), net - subt)]);
        } else {
            tokens(
                out, p, "deposit", b, b2,
                &[(ata(s, tok), -(amount + net + got - subt)), (ata(w, tok), got), (ata(&pool(), tok), amount), (ata(&fee_collector(), tok), net - subt)],
            );
        }
    }
    let mut allowed = vec![*s, *w, pool(), fee_collector(), key, base_buffer()];
    if tok != 0 {
        for o in [s, w, &pool(), &fee_collector()] {
            allowed.push(ata(o, tok));
        }
    }
    only(out, &["C11", "C16"], "deposit", b, b2, &allowed);
}

fn world(tokens: bool) -> Bank {
    let (mut b, _) = base_world(1, 0, 0, &[]);
    if tokens {
        user(&mut b, "warden", 1000, &[(1, 1 << 40), (2, 1 << 40)]);
        user(&mut b, "depositor", 1000, &[(1, 1 << 40), (2, 1 << 40)]);
    }
    b
}

pub fn grid(c: &mut Check) {
    let b = world(true);
    let dm = dims(c.thorough);
    let mut cases = vec![Case::default()];
    let combos = 3;
    fn rec(dm: &[Vec<Set>], from: usize, left: usize, cur: Case, out: &mut Vec<Case>) {
        if left == 0 {
            return;
        }
        for i in from..dm.len() {
            for set in &dm[i] {
                let mut x = cur.clone();
                set(&mut x);
                out.push(x.clone());
                rec(dm, i + 1, left - 1, x, out);
            }
        }
    }
    rec(&dm, 0, combos, Case::default(), &mut cases);
    if c.thorough && c.prop == "C12" {
        // every field of the token, too
        let mut x = Case::default();
        x.token = 1;
        rec(&dm, 0, 2, x, &mut cases);
    } else {
        let mut x = Case::default();
        x.token = 1;
        rec(&dm, 0, 2, x, &mut cases);
    }
    c.grid(
        "deposit-requests",
        &format!("all requests that differ from a valid one in at most {} of {} dimensions (tree size, rate, token, amount, base commitment, commitment, recent index, fee version, requested rate, parties, bump, duplicates, prices, slot, funding); accepted ones are run to completion", combos, dm.len()),
        &cases,
        |x, out| run_case(x, &b, out),
    );
}

// ---------------------------------------------------------------- interleavings

#[derive(Clone, Debug)]
pub struct Slot {
    base: u32,
    recent: u32,
    amount: u64,
    meta: [u8; 17],
    ix: u32,
    payer: Pubkey,
}
#[derive(Clone)]
struct S {
    b: Bank,
    slots: [Option<Slot>; 2],
    pending: Vec<Entry>,
    /// submitted base commitments, newest last
    bases: Vec<u32>,
    ptr: u32,
    n: u8,
    /// lamports owed by the pool (amounts and reserve)
    owed: u128,
    /// tokens in the pool
    owed_t: u64,
}
#[derive(Clone, Debug)]
enum A {
    Store { slot: usize, base: u32, payer: bool },
    Compute { slot: usize },
    ComputeBoth,
    Finalize { slot: usize, how: How },
    Batch,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Once,
    OtherPayer,
    OtherVersion,
    Twice,
    /// refill the closed account within the transaction and finalise again
    Revive,
    /// refill the closed account within the transaction and store again
    ReviveStore,
}
struct M {
    start: Bank,
    fee: Fee,
    rate: u32,
    token: u16,
    ptr: u32,
    prefill: Vec<Entry>,
    max: u8,
    owed0: u128,
}
fn other() -> Pubkey {
    key("warden2")
}
fn amount_of(base: u32) -> u64 {
    10_000_000 + base as u64 * 1111
}

impl M {
    fn new(rate: u32, token: u16, ptr: u32, prefill: u32, qstart: usize, max: u8) -> M {
        let es = prefilled(prefill, rate);
        let (mut b, _) = base_world(rate, ptr, qstart, &es);
        put_queue(&mut b, qstart, &es);
        for n in ["warden", "warden2", "depositor"] {
            user(&mut b, n, 1000, &[(1, 1 << 40), (2, 1 << 40)]);
        }
        let fee = Fee::default();
        let owed0 = es.len() as u128 * fee.commitment_fee(rate) as u128;
        M { start: b, fee, rate, token, ptr, prefill: es, max, owed0 }
    }
    fn payer(&self, p: bool) -> Pubkey {
        if p { other() } else { warden() }
    }
    fn entry(&self, s: &Slot) -> Entry {
        Entry { c: mont_b(&deposit_commitment(&crate::hash::dep_base(s.base), s.amount, self.token, s.recent)), meta: s.meta, rate: self.rate }
    }
}

impl Model for M {
    type S = S;
    type A = A;
    fn initial(&self) -> Vec<(String, S)> {
        vec![(
            format!("rate {} token {} ptr {} queued {}", self.rate, self.token, self.ptr, self.prefill.len()),
            S { b: self.start.clone(), slots: [None, None], pending: self.prefill.clone(), bases: vec![], ptr: self.ptr, n: 0, owed: self.owed0, owed_t: 0 },
        )]
    }
    fn key(&self, s: &S) -> u128 {
        s.b.hash() ^ (s.n as u128) << 100
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut v = vec![];
        if s.n < self.max {
            for slot in 0..2 {
                for base in 0..2 {
                    v.push(A::Store { slot, base: if base == 0 { s.n as u32 } else { (s.n as u32).saturating_sub(1) }, payer: (s.n & 1) == 1 });
                }
            }
        }
        for slot in 0..2 {
            v.push(A::Compute { slot });
            for how in [How::Once, How::OtherPayer, How::OtherVersion, How::Twice, How::Revive, How::ReviveStore] {
                v.push(A::Finalize { slot, how });
            }
        }
        v.push(A::ComputeBoth);
        if s.ptr - self.ptr < 4 << self.rate {
            v.push(A::Batch);
        }
        v
    }
    fn step(&self, s: &S, a: &A, out: &mut Vec<Viol>) -> Option<S> {
        let b = &s.b;
        let mut s2 = s.clone();
        match a {
            A::Store { slot, base, payer } => {
                let w = self.payer(*payer);
                let r = BaseReq { base: crate::hash::dep_base(*base), recent: s.ptr, amount: amount_of(*base), token: self.token, commitment: num(1), fee_version: 0, rate: self.rate };
                let (_, bump) = pda_of(&pid(), "BaseCommitmentHashing", None, Some(*slot as u32));
                let meta = meta_of(*base as usize + 40);
                let ok = s.slots[*slot].is_none() && !s.bases.contains(base);
                match attempt(out, &["C12", "C10", "C21"], "store", b, &[store_base(*slot as u32, bump, &r, &meta, &StoreAccs::new(&depositor(), &w, self.token))], ok) {
                    R::No => return None,
                    R::Yes(n) => {
                        if !ok {
                            return None;
                        }
                        charges(out, b, &n, &self.fee, self.rate, &depositor(), &w, self.token, r.amount, *slot as u32);
                        s2.b = n;
                    }
                }
                s2.slots[*slot] = Some(Slot { base: *base, recent: s.ptr, amount: r.amount, meta, ix: 0, payer: w });
                s2.bases.push(*base);
                s2.n += 1;
                s2.owed += (self.fee.base_hash_fee() + self.fee.commitment_fee(self.rate)) as u128;
                if self.token == 0 {
                    s2.owed += r.amount as u128;
                } else {
                    s2.owed_t += r.amount;
                }
            }
            A::Compute { slot } => {
                let ok = matches!(&s.slots[*slot], Some(x) if x.ix < 2);
                match attempt(out, &["C10", "C35", "C24"], "compute deposit", b, &[cu_ix(), compute_base(*slot as u32)], ok) {
                    R::No => return None,
                    R::Yes(n) => {
                        only(out, &["C10", "C16"], "compute deposit", b, &n, &[base_hashing(*slot as u32)]);
                        lamports(out, &["C10", "C05"], "compute deposit", b, &n, &[]);
                        s2.b = n;
                        s2.slots[*slot].as_mut()?.ix += 1;
                    }
                }
            }
            A::ComputeBoth => {
                let ok = s.slots.iter().all(|x| matches!(x, Some(x) if x.ix < 2));
                match attempt(out, &["C10", "C35", "C24"], "compute both deposits", b, &[cu_ix(), compute_base(1), compute_base(0)], ok) {
                    R::No => return None,
                    R::Yes(n) => {
                        s2.b = n;
                        for x in s2.slots.iter_mut() {
                            x.as_mut()?.ix += 1;
                        }
                    }
                }
            }
            A::Finalize { slot, how } => {
                let k = base_hashing(*slot as u32);
                let x = s.slots[*slot].clone();
                let w = x.as_ref().map(|x| x.payer).unwrap_or(warden());
                let o = if w == warden() { other() } else { warden() };
                let fin = finalize_base(*slot as u32, 0, &w);
                let rent = rent_min(BH_SIZE);
                let refill = transfer(&depositor(), &k, rent);
                let (_, bump) = pda_of(&pid(), "BaseCommitmentHashing", None, Some(*slot as u32));
                let again = BaseReq { base: num(31337), recent: s.ptr, amount: 10_000_000, token: self.token, commitment: num(1), fee_version: 0, rate: self.rate };
                let ixs = match how {
                    How::Once => vec![fin],
                    How::OtherPayer => vec![finalize_base(*slot as u32, 0, &o)],
                    How::OtherVersion => vec![finalize_base(*slot as u32, 1, &w)],
                    How::Twice => vec![fin.clone(), fin],
                    How::Revive => vec![fin.clone(), refill, fin],
                    How::ReviveStore => vec![fin, refill, store_base(*slot as u32, bump, &again, &meta_of(1), &StoreAccs::new(&depositor(), &w, self.token)), compute_base(*slot as u32)],
                };
                let room = s.pending.len() < Q_CAP - 1;
                let ok = matches!(&x, Some(x) if x.ix == 2) && room && *how == How::Once;
                let what = format!("finalise deposit ({:?})", how);
                match attempt(out, &["C10", "C08", "C05", "C20"], &what, b, &ixs, ok) {
                    R::No => return None,
                    R::Yes(n) => {
                        if !ok {
                            return None;
                        }
                        let f = self.fee.base_hash_fee() as i128;
                        lamports(out, &["C11", "C05"], "finalise deposit", b, &n, &[(pool(), -f), (w, f + rent as i128), (k, -(rent as i128))]);
                        tokens(out, &["C11", "C05"], "finalise deposit", b, &n, &[]);
                        only(out, &["C16", "C10"], "finalise deposit", b, &n, &[pool(), w, k, queue(), meta_queue()]);
                        s2.owed -= f as u128;
                        s2.b = n;
                        let x = x?;
                        s2.pending.push(self.entry(&x));
                        s2.slots[*slot] = None;
                    }
                }
            }
            A::Batch => {
                let n = 1u32 << self.rate;
                let ok = s.pending.len() >= n as usize && s.ptr + n < MT_LEAVES;
                let kids = path_children(s.ptr, n);
                let mut txs = vec![vec![init_hash_setup(false, &kids), init_hash(false, &meta_children())]];
                let mut t = vec![cu_ix()];
                for i in 0..HASH_IX[self.rate as usize] as u32 {
                    t.push(compute_hash(0, i, &warden()));
                }
                for _ in 0..=self.rate {
                    t.push(finalize_hash(&kids));
                }
                txs.push(t);
                for t in &txs {
                    match attempt(out, &["C08", "C35"], "batch", &s2.b, t, ok) {
                        R::No => return None,
                        R::Yes(n) => s2.b = n,
                    }
                }
                if tree_ptr(&s2.b) != s.ptr + n {
                    viol(out, &["C08", "C09"], "batch:ptr", "the number of leaves is wrong after a batch");
                }
                for (i, e) in s.pending[..n as usize].iter().enumerate() {
                    if node_raw(&s2.b, MT_HEIGHT, s.ptr as usize + i) != Some(e.c) {
                        viol(out, &["C08", "C10", "C09"], "batch:leaf", "a leaf is not the accepted commitment");
                    }
                    if meta_at(&s2.b, s.ptr as usize + i) != e.meta {
                        viol(out, &["C23"], "batch:metadata", "the metadata of a leaf is not the submitted one");
                    }
                }
                s2.pending.drain(..n as usize);
                s2.ptr += n;
                s2.owed -= (HASH_IX[self.rate as usize] * self.fee.hash_comp()) as u128;
            }
        }
        Some(s2)
    }
    fn check(&self, s: &S, out: &mut Vec<Viol>) {
        let real: Vec<(B32, u32, u32)> = queue_entries(&s.b).iter().map(|q| (q.commitment, q.fee_version, q.rate)).collect();
        let exp: Vec<(B32, u32, u32)> = s.pending.iter().map(|e| (e.c, 0, e.rate)).collect();
        if real != exp {
            viol(out, &["C08", "C10", "C20"], "queue:content", "the queue does not hold exactly the accepted commitments in order");
        }
        if meta_entries(&s.b) != s.pending.iter().map(|e| e.meta).collect::<Vec<_>>() {
            viol(out, &["C23"], "queue:metadata", "the metadata queue is not aligned with the commitment queue");
        }
        let free = self.start.lamports(&pool()) as u128 - self.owed0;
        if (s.b.lamports(&pool()) as u128) < free + s.owed {
            viol(out, &["C05", "C11"], "pool:backing", "the pool holds less than it owes");
        }
        if self.token != 0 && token_balance(&s.b, &ata(&pool(), self.token)) < s.owed_t {
            viol(out, &["C05", "C11"], "pool:backing-token", "the pool holds fewer tokens than it owes");
        }
        if s.b.total_lamports() != self.start.total_lamports() {
            viol(out, &["C05"], "lamports:total", "lamports were created or destroyed");
        }
    }
}

pub fn run_all(c: &mut Check) {
    let props = ["C05", "C08", "C10", "C11", "C12", "C16", "C20", "C21", "C23", "C24", "C25", "C35"];
    if c.wants("deposit-grid", &["C08", "C10", "C11", "C12", "C16", "C19", "C21", "C25"]) {
        grid(c);
    }
    if c.wants("deposit", &props) {
        // (rate, token, ptr, prefill, queue start, deposits, depth)
        let mut cfgs: Vec<(u32, u16, u32, u32, usize, u8, usize)> = vec![(0, 0, 0, 0, 238, 3, 14), (1, 1, 65535, 1, 0, 3, 14), (0, 2, 200, 237, 100, 3, 14), (2, 0, 12, 2, 239, 2, 14)];
        if c.thorough {
            for x in cfgs.iter_mut() {
                x.5 += 1;
                x.6 = 24;
            }
            cfgs.push((3, 0, 1 << 16, 6, 230, 3, 20));
            cfgs.push((4, 1, 0, 14, 230, 3, 20));
            cfgs.push((0, 0, MT_LEAVES - 3, 1, 5, 4, 22));
        }
        for (rate, token, ptr, pre, qs, max, depth) in cfgs {
            let m = M::new(rate, token, ptr, pre, qs, max);
            let e = explore(&m, &c.limits(depth, 400_000));
            c.explored(
                &format!("deposit-rate{}-token{}-queued{}", rate, token, pre),
                &format!("two hashing accounts, up to {} deposits of token {}, batching rate {}, {} leaves, {} queued at ring position {}, depth {}", max, token, rate, ptr, pre, qs, depth),
                e,
            );
        }
    }
}
