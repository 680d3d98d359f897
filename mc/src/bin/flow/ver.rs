//! Proof verifications: construction of requests, the honest way through the protocol, expected effects.
use crate::chk::*;
use crate::deposit::{close, ideal, TOKEN};
use crate::hash::{base_world, meta_of};
use crate::tree::Tree;
use mc::groth::Proof;
use mc::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey};


/// A verification together with everything its owner uses for it
#[derive(Clone, Debug)]
pub struct V {
    pub idx: u8,
    pub fp: Pubkey,
    pub trees: [u32; 2],
    pub r: SendReq,
    pub skip: bool,
    pub fin: FinData,
    /// the recipient that is bound to the proof (wallet or token account)
    pub rec: Pubkey,
    pub ident: Pubkey,
    pub reference: Option<Pubkey>,
    pub memo: Option<Vec<u8>>,
    pub opt_acc: Pubkey,
}
pub fn nul(i: u64) -> B32 {
    num(1_000_000 + i)
}
pub fn recipient() -> Pubkey { key("recipient") }
pub fn collector() -> Pubkey { key("opt-collector") }

impl V {
    /// one-input request of `fp`
    pub fn new(b: &Bank, idx: u8, fp: &Pubkey, token: u16, n: u64) -> V {
        let cur = trees_count(b);
        let mut v = V {
            idx,
            fp: *fp,
            trees: [cur, if cur == 0 { 1 } else { 0 }],
            r: SendReq {
                inputs: vec![Input { root: Some(root_of(b)), nullifier: nul(n) }],
                output: num(7_000_000 + n),
                recent: tree_ptr(b),
                fee_version: 0,
                amount: if token == 0 { SOL } else { 5_000_000 },
                fee: if token == 0 { SOL / 10 } else { 1_000_000 },
                opt_collector: Pubkey::default(),
                opt_amount: 0,
                token,
                metadata: meta_of(500 + n as usize),
                is_ata: false,
                solana_pay: false,
                hashed: [0; 32],
            },
            skip: false,
            fin: FinData { total: 0, token, mt_index: cur, commitment_index: tree_ptr(b), iv: num(33), enc_owner: num(44) },
            rec: if token == 0 { recipient() } else { ata(&recipient(), token) },
            ident: key("ident"),
            reference: None,
            memo: None,
            opt_acc: if token == 0 { collector() } else { ata(&collector(), token) },
        };
        v.seal();
        v
    }
    /// recomputes what depends on the rest
    pub fn seal(&mut self) {
        let r = &mut self.r;
        r.hashed = hashed_inputs(
            &self.rec, &self.ident, &self.fin.iv, &self.fin.enc_owner, &self.reference.unwrap_or(Pubkey::new_from_array([0; 32])), r.is_ata, &r.metadata,
            &r.opt_collector, r.opt_amount, self.memo.as_deref(),
        );
        self.fin.total = r.amount.wrapping_add(r.fee);
    }
    pub fn acc(&self) -> Pubkey {
        verification(&self.fp, self.idx)
    }
    pub fn dup(&self) -> Pubkey {
        null_dup(&self.r.inputs.iter().map(|i| i.nullifier).collect::<Vec<_>>())
    }
    pub fn init_ix(&self) -> Instruction {
        let c = |t: u32| null_children(t);
        init_verification(self.idx, 0, self.trees, &self.r, self.skip, &self.fp, &self.ident, &c(self.trees[0])[..1], &c(self.trees[1])[..1])
    }
    pub fn fee_ix(&self) -> Instruction {
        init_transfer_fee(self.idx, &self.fp, self.r.token.min(2))
    }
    pub fn proof(&self) -> Proof {
        trap().prove(&self.r.signals(), 11, 13)
    }
    pub fn wrong_proof(&self) -> Proof {
        let mut s = self.r.signals();
        s[13] = num(424_242);
        trap().prove(&s, 11, 13)
    }
    pub fn proof_ix(&self, p: &Proof) -> Instruction {
        init_proof(self.idx, &p.ser(), &self.fp)
    }
    pub fn init_tx(&self, p: &Proof) -> Vec<Instruction> {
        vec![self.init_ix(), self.fee_ix(), self.proof_ix(p)]
    }
    pub fn compute_ix(&self) -> Instruction {
        compute_verification(self.idx, 0, &self.fp, &[vkey_child(1)])
    }
    /// the advertised transaction: two compute budget instructions, five computations
    pub fn compute_tx(&self) -> Vec<Instruction> {
        let mut v = vec![cu_ix(), cu_ix()];
        v.extend((0..5).map(|_| self.compute_ix()));
        v
    }
    pub fn send_ix(&self) -> Instruction {
        finalize_send(self.idx, &self.fin, self.memo.is_some(), &self.rec, &self.ident, self.reference.as_ref(), &self.fp)
    }
    pub fn insert_ix(&self) -> Instruction {
        finalize_insert(self.idx, &self.fp, self.trees[0], &null_children(self.trees[0])[..1])
    }
    /// where the money arrives
    pub fn rec_acc(&self) -> Pubkey {
        if self.r.token != 0 && self.r.is_ata { ata(&self.rec, self.r.token) } else { self.rec }
    }
    pub fn transfer_ix(&self) -> Instruction {
        if self.r.token == 0 {
            finalize_lamports(self.idx, &self.fp, &self.rec, &self.opt_acc, &self.dup())
        } else {
            finalize_token(self.idx, &self.fp, &ata(&self.fp, self.r.token), &self.rec_acc(), &self.rec, self.r.token, &self.opt_acc, &self.dup())
        }
    }
    /// the trailing instructions that solana pay and memos require; `net`: what the recipient gets, `dest`: where
    pub fn tail(&self, net: u64, dest: &Pubkey) -> Vec<Instruction> {
        let mut v = vec![];
        if let Some(m) = &self.memo {
            v.push(memo(m));
        }
        if self.r.solana_pay && self.r.amount > 0 {
            v.push(if self.r.token == 0 {
                transfer(&self.fp, dest, net)
            } else {
                spl_token::instruction::transfer(&spl_token::id(), &ata(&self.fp, self.r.token), dest, &self.fp, &[&self.fp], net).unwrap()
            });
        } else if self.r.solana_pay {
            v.push(nop());
        }
        v
    }
    /// the complete finalisation
    pub fn final_tx(&self, valid: bool, net: u64, dest: &Pubkey) -> Vec<Instruction> {
        let mut v = vec![self.send_ix()];
        if valid {
            v.extend((0..self.r.inputs.len()).map(|_| self.insert_ix()));
        }
        v.push(self.transfer_ix());
        v.extend(self.tail(net, dest));
        v
    }
    pub fn state(&self, b: &Bank) -> Option<u8> {
        let a = b.get(&self.acc())?;
        if a.data.is_empty() {
            return None;
        }
        Some(a.data.slice(VE_STATE, 1)[0])
    }
    pub fn verdict(&self, b: &Bank) -> Option<bool> {
        let o = other_off(b, self) - 2;
        let d = b.get(&self.acc()).unwrap().data.slice(o, 2);
        if d[0] == 1 { Some(d[1] == 1) } else { None }
    }
    /// Decides the proof without running the computation (the computation itself is explored by its own drivers)
    pub fn decide(&self, b: &mut Bank, valid: bool) {
        let o = other_off(b, self) - 2;
        b.write(&self.acc(), o, &[1, valid as u8]);
    }
    /// the recorded charges
    pub fn charges(&self, b: &Bank) -> Charges {
        let k = self.acc();
        let o = other_off(b, self) + 32 + 32 + 33 + 1 + 4 + 2;
        Charges {
            prep: u32_at(b, &k, VE_PREP_COUNT) as u64,
            subv: u64_at(b, &k, o),
            net: u64_at(b, &k, o + 8),
            hash: u64_at(b, &k, o + 16),
            hash_t: u64_at(b, &k, o + 24),
            proof_t: u64_at(b, &k, o + 32),
            rent_t: u64_at(b, &k, o + 40),
        }
    }
    /// runs the computation as advertised; (transactions, bank)
    pub fn compute(&self, b: &Bank) -> Result<(u64, Bank), TxError> {
        let mut b = b.clone();
        let mut n = 0;
        while self.verdict(&b).is_none() {
            b = run(&b, &self.compute_tx())?;
            n += 1;
            assert!(n < 400, "verification does not terminate");
        }
        Ok((n, b))
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Charges {
    pub prep: u64,
    pub subv: u64,
    pub net: u64,
    pub hash: u64,
    pub hash_t: u64,
    pub proof_t: u64,
    pub rent_t: u64,
}

/// offset of the administrative part of a verification account (it starts with the fee payer)
pub fn other_off(b: &Bank, v: &V) -> usize {
    let d = b.data(&v.acc());
    let f = v.fp.to_bytes();
    (VE_INPUT + 14 * 32..d.len() - 32).find(|i| d[*i..*i + 32] == f).expect("fee payer recorded")
}
/// canonical bytes of the current root of the active tree
pub fn root_of(b: &Bank) -> B32 {
    if tree_ptr(b) == 0 {
        return fr_b(&empty(MT_HEIGHT));
    }
    fr_b(&from_mont(&node_raw(b, 0, 0).unwrap()))
}
/// Prices (mantissa, exponent) of one SOL and of one token in USD; the second token costs twice as much, except under the default
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Prices(pub (i64, i32), pub (i64, i32), pub u64);
pub const PRICES: Prices = Prices((3_900_000_000, -8), (100_000_000, -8), 1);
/// other prices, and the confidence interval of both
pub const MORE_PRICES: [Prices; 4] =
    [Prices((2_512_345_678, -8), (99_990_000, -8), 1), Prices((390_000_000, -8), (2_600_000_000, -8), 30_000_000), Prices((39_999, -3), (1_012_345, -6), 1_000), Prices((3_900_000_000, -8), (100_000_000, -8), 9_000_000)];
std::thread_local! {
    static NOW: std::cell::Cell<Prices> = const { std::cell::Cell::new(PRICES) };
}
/// changes the prices of the world (and of the expectations of this thread)
pub fn set_prices(b: &mut Bank, p: Prices) {
    NOW.with(|n| n.set(p));
    if p != PRICES {
        let a = |x: (i64, i32)| pyth(x.0, p.2, x.1, 1);
        b.put(price_key(0), rent_min(3312), key_pyth(), &a(p.0));
        b.put(price_key(1), rent_min(3312), key_pyth(), &a(p.1));
        b.put(price_key(2), rent_min(3312), key_pyth(), &a((p.1 .0 * 2, p.1 .1)));
    }
}
pub fn conv(l: u64, token: u16) -> f64 {
    if token == 0 { l as f64 } else { {
        let p = NOW.with(|n| n.get());
        let t = if token == 2 && p != PRICES { (p.1 .0 * 2, p.1 .1) } else { p.1 };
        ideal(l, p.0, t, TOKEN[token as usize].2)
    } }
}
pub fn same(real: u64, l: u64, token: u16) -> bool {
    if token == 0 { real == l } else { close(real, conv(l, token)) }
}

/// Standard world: tree of `ptr` leaves with some past roots, two fee payers, backed pool
pub fn vworld(rate: u32, ptr: u32, closed: u32) -> (Bank, Tree) {
    let (mut b, tree) = base_world(rate, ptr, 0, &[]);
    b.write(&storage(), ST_TREES, &closed.to_le_bytes());
    for i in 0..closed {
        b.write(&nullifier(i), NU_ROOT, &mont_b(&closed_root(i)));
    }
    for n in ["warden", "warden2"] {
        user(&mut b, n, 1000, &[(1, 1 << 40), (2, 1 << 40)]);
    }
    for n in ["recipient", "opt-collector"] {
        user(&mut b, n, 1, &[(1, 0), (2, 0)]);
    }
    let l = b.lamports(&pool());
    b.set_lamports(&pool(), l + 10_000 * SOL);
    for t in [1, 2] {
        b.write(&ata(&pool(), t), 64, &(1u64 << 44).to_le_bytes());
    }
    for (i, v) in (0..5u64).map(|i| (i, past_root(i))) {
        b.write(&storage(), ST_HIST + 32 * i as usize, &mont_b(&v));
    }
    b.write(&storage(), ST_HIST + 32 * 5, &mont_b(&tree.root()));
    b.write(&storage(), ST_ROOTS, &6u32.to_le_bytes());
    (b, tree)
}
pub fn past_root(i: u64) -> crate::tree::F {
    h2c(fr(&num(5151)).unwrap(), fr(&num(i)).unwrap())
}
pub fn closed_root(i: u32) -> crate::tree::F {
    h2c(fr(&num(6161)).unwrap(), fr(&num(i as u64)).unwrap())
}
pub fn warden2() -> Pubkey { key("warden2") }


/// effects of the three setup instructions
pub fn check_setup(out: &mut Vec<Viol>, what: &str, pre: &Bank, post: &Bank, v: &V, f: &Fee, rate: u32) {
    let p: Props = &["C05", "C13", "C18", "C07"];
    let c = v.charges(post);
    let t = v.r.token;
    let ok = same(c.subv, f.proof_subv, t)
        && c.net == f.proof_net(v.r.amount)
        && c.hash == f.commitment_fee(rate)
        && same(c.hash_t, f.commitment_fee(rate), t)
        && same(c.proof_t, f.proof_fee(c.prep), t)
        && if v.r.is_ata { same(c.rent_t, rent_min(165), t) } else { c.rent_t == 0 };
    if !ok {
        viol(out, &["C05", "C13", "C18", "C25"], format!("{}:charges", what), format!("recorded charges {:?} do not follow the fee schedule", c));
    }
    let vrent = post.lamports(&v.acc()) as i128;
    let drent = if v.skip { 0 } else { post.lamports(&v.dup()) as i128 };
    let dep = (f.commitment_fee(rate) + if v.r.is_ata { rent_min(165) } else { 0 }) as i128;
    let s = c.subv as i128;
    let mut l = vec![(v.fp, -(dep + vrent + drent)), (pool(), dep), (v.acc(), vrent)];
    if !v.skip {
        l.push((v.dup(), drent));
    }
    let mut tk = vec![];
    let (x, y) = (holding(&fee_collector(), t), holding(&pool(), t));
    let dst = if t == 0 { &mut l } else { &mut tk };
    dst.push((x, -s));
    dst.push((y, s));
    lamports(out, p, what, pre, post, &l);
    tokens(out, p, what, pre, post, &tk);
    only(out, &["C13", "C16"], what, pre, post, &[v.fp, v.acc(), v.dup(), pool(), fee_collector(), x, y, commitment_buffer()]);
    if v.skip {
        same_data(out, &["C13", "C16"], what, pre, post, &[v.dup()]);
    }
    if !buffer_contains(post, &commitment_buffer(), &mont_b(&fr(&v.r.output).unwrap())) {
        viol(out, &["C13", "C21"], format!("{}:buffer", what), "the output commitment was not remembered");
    }
    let d = post.data(&v.acc());
    let sig: Vec<u8> = v.r.signals().concat();
    if d[VE_INPUT..VE_INPUT + 14 * 32] != sig[..] {
        viol(out, &["C03", "C13"], format!("{}:signals", what), "the recorded public inputs are not those of the request");
    }
    let q = v.r.ser();
    if !d.windows(q.len()).any(|w| w == &q[..]) {
        viol(out, &["C13", "C04"], format!("{}:request", what), "the request was not recorded as submitted");
    }
}

pub fn payout_deltas(pre: &Bank, v: &V, c: &Charges, created: bool, dest: &Pubkey) -> (Vec<(Pubkey, i128)>, Vec<(Pubkey, i128)>) {
    let r = &v.r;
    let t = r.token;
    let vrent = pre.lamports(&v.acc()) as i128;
    let drent = if v.skip { 0 } else { pre.lamports(&v.dup()) as i128 };
    let rent_t = if r.is_ata && created && r.amount > 0 { c.rent_t } else { 0 } as i128;
    let opt = if r.amount > 0 { r.opt_amount } else { 0 } as i128;
    let fees = (c.hash_t + c.proof_t) as i128;
    let net = c.net as i128;
    let mut l = vec![(v.fp, vrent + drent), (v.acc(), -vrent)];
    if !v.skip {
        l.push((v.dup(), -drent));
    }
    let mut tk = vec![];
    {
        let d = if t == 0 { &mut l } else { &mut tk };
        d.push((holding(&pool(), t), -(r.amount as i128) - fees - net));
        d.push((holding(&v.fp, t), fees + rent_t));
        d.push((holding(&fee_collector(), t), net));
        if r.amount > 0 {
            d.push((*dest, r.amount as i128 - opt - rent_t));
        }
        if opt > 0 {
            d.push((v.opt_acc, opt));
        }
    }
    if r.is_ata && r.amount > 0 {
        // the reserved lamports flow back to the fee payer, who pays for the account if there was none
        let rent = rent_min(165) as i128;
        l.push((pool(), -rent));
        l.push((v.fp, rent));
        if created {
            l.push((v.fp, -rent));
            l.push((*dest, rent));
        }
    }
    (l, tk)
}
/// What a finalisation of a valid verification does to the balances (`created`: the recipient account did not exist;
/// `dest`: account that receives the amount)
#[allow(clippy::too_many_arguments)]
pub fn check_payout(out: &mut Vec<Viol>, what: &str, pre: &Bank, post: &Bank, v: &V, c: &Charges, created: bool, dest: &Pubkey) {
    let p: Props = &["C04", "C05", "C06", "C01", "C03"];
    let (r, t) = (&v.r, v.r.token);
    let (l, tk) = payout_deltas(pre, v, c, created, dest);
    lamports(out, p, what, pre, post, &l);
    tokens(out, p, what, pre, post, &tk);
    let mut q = queue_entries(pre);
    q.push(QEntry { commitment: mont_b(&fr(&r.output).unwrap()), fee_version: r.fee_version, rate: u32_at(pre, &governor(), GO_RATE) });
    if queue_entries(post) != q {
        viol(out, &["C06", "C08", "C20"], format!("{}:queue", what), "the change commitment was not appended to the queue exactly once");
    }
    let mut m = meta_entries(pre);
    m.push(r.metadata);
    if meta_entries(post) != m {
        viol(out, &["C06", "C23"], format!("{}:metadata", what), "the metadata was not appended");
    }
    let mut allowed = vec![v.fp, v.acc(), v.dup(), pool(), fee_collector(), *dest, v.opt_acc, queue(), meta_queue(), nullifier(v.trees[0]), null_child(v.trees[0], 0)];
    if t != 0 {
        for o in [v.fp, pool(), fee_collector()] {
            allowed.push(ata(&o, t));
        }
    }
    only(out, &["C16", "C06"], what, pre, post, &allowed);
}
pub fn forfeit_deltas(pre: &Bank, v: &V, c: &Charges) -> (Vec<(Pubkey, i128)>, Vec<(Pubkey, i128)>) {
    let t = v.r.token;
    let vrent = pre.lamports(&v.acc()) as i128;
    let drent = if v.skip { 0 } else { pre.lamports(&v.dup()) as i128 };
    let dep = (c.hash + if v.r.is_ata { rent_min(165) } else { 0 }) as i128;
    let mut l = vec![(v.acc(), -vrent), (fee_collector(), vrent + drent + dep), (pool(), -dep)];
    if !v.skip {
        l.push((v.dup(), -drent));
    }
    let mut tk = vec![];
    let s = c.subv as i128;
    let d = if t == 0 { &mut l } else { &mut tk };
    d.push((holding(&pool(), t), -s));
    d.push((holding(&fee_collector(), t), s));
    (l, tk)
}
/// A finalised invalid verification
pub fn check_forfeit(out: &mut Vec<Viol>, what: &str, pre: &Bank, post: &Bank, v: &V, c: &Charges) {
    let p: Props = &["C07", "C05", "C03"];
    let t = v.r.token;
    let (l, tk) = forfeit_deltas(pre, v, c);
    lamports(out, p, what, pre, post, &l);
    tokens(out, p, what, pre, post, &tk);
    only(
        out, &["C07", "C16"], what, pre, post,
        &[v.acc(), v.dup(), fee_collector(), pool(), holding(&pool(), t), holding(&fee_collector(), t), commitment_buffer(), v.fp],
    );
    if buffer_contains(post, &commitment_buffer(), &mont_b(&fr(&v.r.output).unwrap())) {
        viol(out, &["C07"], format!("{}:buffer", what), "the output commitment of the failed request is still reserved");
    }
}
/// combinations of at most `left` deviations
pub fn combos<C: Clone>(dm: &[Vec<Box<dyn Fn(&mut C) + Sync>>], from: usize, left: usize, cur: C, out: &mut Vec<C>) {
    if left == 0 {
        return;
    }
    for i in from..dm.len() {
        for set in &dm[i] {
            let mut x = cur.clone();
            set(&mut x);
            out.push(x.clone());
            combos(dm, i + 1, left - 1, x, out);
        }
    }
}
pub type Dims<C> = Vec<Vec<Box<dyn Fn(&mut C) + Sync>>>;
pub fn dim<C, T: Clone + Sync + Send + 'static>(v: Vec<T>, f: fn(&mut C, T)) -> Vec<Box<dyn Fn(&mut C) + Sync>>
where
    C: 'static,
{
    v.into_iter().map(|x| Box::new(move |c: &mut C| f(c, x.clone())) as Box<dyn Fn(&mut C) + Sync>).collect()
}
