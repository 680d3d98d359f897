//! Fee versions (C18): creation, immutability, and every amount that is computed from the parameters of a version.
use crate::chk::*;
use crate::deposit::charges;
use crate::hash::{depositor, meta_of, prefilled, warden};
use crate::payout::exact_fee;
use crate::ver::*;
use mc::*;
use std::sync::OnceLock;

const P: Props = &["C18"];

/// the largest subventions that every batching rate below the maximum covers
fn max_base(f: &Fee) -> u64 {
    (0..4).map(|r| f.commitment_fee(r)).min().unwrap()
}
fn max_proof(f: &Fee) -> u64 {
    (0..4).map(|r| 62 * f.lamports_per_tx + f.commitment_fee(r)).min().unwrap()
}
/// a program without fees
fn bare(governor_version: u32) -> Bank {
    static B: OnceLock<Bank> = OnceLock::new();
    let mut b = B
        .get_or_init(|| {
            let (mut b, _) = vworld(1, 200, 0);
            b.accounts.remove(&fee_acc(0));
            b.write(&governor(), GO_FEE, &[0; 64]);
            b
        })
        .clone();
    b.write(&governor(), GO_FEE_VERSION, &governor_version.to_le_bytes());
    b
}
fn ser(f: &Fee) -> Vec<u8> {
    f.arr().iter().flat_map(|x| x.to_le_bytes()).collect()
}

#[derive(Clone, Debug)]
struct New {
    f: Fee,
    version: u32,
    governor: u32,
    /// lamports that are already at the address
    prefund: u64,
}
fn create(x: &New, out: &mut Vec<Viol>) -> (u64, u128) {
    let mut b = bare(x.governor);
    if x.prefund > 0 {
        fund(&mut b, &fee_acc(x.version), x.prefund);
    }
    let f = &x.f;
    let (lo_b, lo_p) = (f.commitment_fee(4), 62 * f.lamports_per_tx + f.commitment_fee(4));
    // subventions that only the largest batching rate does not cover are not decided by the documentation
    if f.base_subv > lo_b && f.base_subv <= max_base(f) || f.proof_subv > lo_p && f.proof_subv <= max_proof(f) {
        if f.base_subv <= max_base(f) && f.proof_subv <= max_proof(f) && f.base_tx_count == 62 && x.version == x.governor {
            return (0, 0);
        }
    }
    // whether an address that already holds lamports can be opened is immaterial here
    let ok = x.version == x.governor && f.base_subv <= max_base(f) && f.proof_subv <= max_proof(f) && f.base_tx_count == 62;
    let user = warden();
    let mut n = 1;
    let b2 = if x.prefund > 0 {
        match run(&b, &[init_fee(&user, x.version, &f.arr())]) {
            Ok(y) if ok => y,
            Ok(_) => {
                viol(out, &["C18", "C19"], "fee version with lamports:accepted", "an invalid fee version was accepted");
                return (1, 9);
            }
            Err(_) => return (1, 8),
        }
    } else {
        match attempt(out, &["C18", "C19"], "fee version", &b, &[init_fee(&user, x.version, &f.arr())], ok) {
            R::No => return (1, 1),
            R::Yes(y) => y,
        }
    };
    if !ok {
        return (1, 2);
    }
    let k = fee_acc(x.version);
    only(out, &["C18", "C19", "C16"], "fee version", &b, &b2, &[user, governor(), k]);
    let mut g = b.data(&governor());
    g[GO_FEE..GO_FEE + 64].copy_from_slice(&ser(f));
    if b2.data(&governor()) != g {
        viol(out, P, "fee:governor", "the governor does not announce exactly the new parameters");
    }
    let d = b2.data(&k);
    if d.len() != 66 || d[2..] != ser(f)[..] || b2.get(&k).unwrap().owner != pid() {
        viol(out, P, "fee:parameters", "the fee account does not contain the parameters of its version");
    }
    // never again, with no parameters
    let mut others = vec![f.clone(), Fee::default(), Fee { proof_bps: f.proof_bps + 1, ..f.clone() }, Fee { base_subv: 0, proof_subv: 0, ..f.clone() }, Fee { lamports_per_tx: f.lamports_per_tx + 1, ..f.clone() }];
    others.push(Fee { lamports_per_tx: 0, base_bps: 0, proof_bps: 0, base_subv: 0, proof_subv: 0, hash_reward: 0, proof_reward: 0, base_tx_count: 62 });
    for o in &others {
        for v in [0, 1, 2, x.version] {
            for p in [user, warden2(), admin()] {
                n += 1;
                attempt(out, &["C18", "C19"], "second fee version", &b2, &[init_fee(&p, v, &o.arr())], false);
            }
        }
        n += 1;
        attempt(out, &["C18", "C19"], "the same fee version twice in one transaction", &b, &[init_fee(&user, x.version, &f.arr()), init_fee(&user, x.version, &o.arr())], false);
    }
    // lamports at the account make no difference
    let mut b3 = b2.clone();
    b3.set_lamports(&k, b2.lamports(&k) + 12_345);
    attempt(out, &["C18", "C19"], "second fee version", &b3, &[init_fee(&user, x.version, &others[2].arr())], false);
    (n, hash_bytes(1, format!("{:?}", x).as_bytes()))
}

#[derive(Clone, Debug)]
struct Use {
    f: Fee,
    version: u32,
    rate: u32,
    token: u16,
    amount: u64,
    inputs: usize,
    prices: Prices,
}
fn fee_dims() -> Dims<Fee> {
    vec![
        dim(vec![0u64, 1, 1_000_000], |f: &mut Fee, x| f.lamports_per_tx = x),
        dim(vec![0u64, 1, 9_999, 10_000, 20_000], |f, x| f.base_bps = x),
        dim(vec![0u64, 1, 9_999, 10_000, 20_000], |f, x| f.proof_bps = x),
        dim(vec![0u64, 1_000_000, 1], |f, x| f.hash_reward = x),
        dim(vec![0u64, 1_000_000, 1], |f, x| f.proof_reward = x),
        dim(vec![0u64, 1, 2, 3], |f, x| {
            let m = max_base(f);
            f.base_subv = [0, m, m + 1, f.commitment_fee(4)][x as usize]
        }),
        dim(vec![0u64, 1, 2, 3], |f, x| {
            let m = max_proof(f);
            f.proof_subv = [0, m, m + 1, 62 * f.lamports_per_tx + f.commitment_fee(4)][x as usize]
        }),
        dim(vec![0u64, 61, 63, u64::MAX], |f, x| f.base_tx_count = x),
    ]
}

fn usage(x: &Use, out: &mut Vec<Viol>) -> (u64, u128) {
    let f = &x.f;
    // another version exists as well, with other parameters
    let other = match x.version {
        v @ 0..=1 => 1 - v,
        v if v & 0xff != v => v & 0xff,
        v => v - 1,
    };
    let mut b = bare(other);
    let w = warden();
    let g = Fee { lamports_per_tx: f.lamports_per_tx + 17, base_bps: f.base_bps + 3, proof_bps: f.proof_bps + 3, base_subv: 0, proof_subv: 0, hash_reward: f.hash_reward + 5, proof_reward: f.proof_reward + 7, base_tx_count: 62 };
    must(&mut b, &[init_fee(&w, other, &g.arr())], "another fee version");
    b.write(&governor(), GO_FEE_VERSION, &x.version.to_le_bytes());
    let Ok(y) = run(&b, &[init_fee(&w, x.version, &f.arr())]) else { return (1, 0) };
    b = y;
    set_rate(&mut b, x.rate);
    set_prices(&mut b, x.prices);
    let mut n = 1;
    // ---- a batch of this version ----
    let len = 1u32 << x.rate;
    let q: Vec<Vec<u8>> = prefilled(len, x.rate).iter().map(|e| W::default().b(&e.c).u32(x.version).u32(e.rate).0).collect();
    let m: Vec<Vec<u8>> = (0..len as usize).map(|i| meta_of(i).to_vec()).collect();
    let mut h = b.clone();
    put_ring(&mut h, &queue(), 40, 3, &q);
    put_ring(&mut h, &meta_queue(), 17, 3, &m);
    let tx = [init_hash_setup(false, &path_children(200, len)), init_hash(false, &meta_children())];
    if let R::Yes(mut h) = attempt(out, &["C18", "C08"], "batch of a fee version", &h, &tx, true) {
        let p0 = h.lamports(&pool());
        for i in 0..HASH_IX[x.rate as usize] {
            n += 2;
            attempt(out, &["C18", "C16"], "computation with another fee version", &h, &[cu_ix(), compute_hash(other, i as u32, &w)], false);
            let R::Yes(g) = attempt(out, &["C18", "C35"], "computation of a batch", &h, &[cu_ix(), compute_hash(x.version, i as u32, &w)], true) else { break };
            let r = f.hash_comp() as i128;
            lamports(out, &["C18", "C05", "C11"], "computation of a batch", &h, &g, &[(w, r), (pool(), -r)]);
            h = g;
        }
        let paid = p0 - h.lamports(&pool());
        if paid > len as u64 * f.commitment_fee(x.rate) {
            viol(out, &["C18", "C05"], "batch:cost", format!("hashing {} commitments costs {}, they paid {} each", len, paid, f.commitment_fee(x.rate)));
        }
    }
    // ---- deposits ----
    let (_, bump) = pda_of(&pid(), "BaseCommitmentHashing", None, Some(0));
    let a = StoreAccs::new(&depositor(), &w, x.token);
    if x.token != 0 {
        user(&mut b, "depositor", 1000, &[(1, 1 << 50), (2, 1 << 50)]);
    } else {
        user(&mut b, "depositor", 1_000_000, &[]);
    }
    let r = BaseReq { base: num(43), recent: tree_ptr(&b), amount: x.amount.clamp(1000, 8_000_000_000), token: x.token, commitment: num(1), fee_version: x.version, rate: x.rate };
    n += 2;
    attempt(out, &["C18", "C12"], "deposit of another fee version", &b, &[store_base(0, bump, &BaseReq { fee_version: other, ..r.clone() }, &meta_of(3), &a)], false);
    if let R::Yes(mut d) = attempt(out, &["C18", "C12"], "deposit", &b, &[store_base(0, bump, &r, &meta_of(3), &a)], true) {
        charges(out, &b, &d, f, x.rate, &depositor(), &w, x.token, r.amount, 0);
        for _ in 0..2 {
            must(&mut d, &[cu_ix(), compute_base(0)], "compute");
        }
        n += 2;
        attempt(out, &["C18", "C16"], "deposit finalised with another fee version", &d, &[finalize_base(0, other, &w)], false);
        if let R::Yes(e) = attempt(out, &["C18", "C11"], "finalise deposit", &d, &[finalize_base(0, x.version, &w)], true) {
            let (c, rent) = (f.base_hash_fee() as i128, rent_min(BH_SIZE) as i128);
            lamports(out, &["C18", "C11", "C05"], "finalise deposit", &d, &e, &[(pool(), -c), (w, c + rent), (base_hashing(0), -rent)]);
            if queue_entries(&e).last().map(|q| (q.fee_version, q.rate)) != Some((x.version, x.rate)) {
                viol(out, &["C18", "C08"], "deposit:version", "the commitment was not enqueued under the fee version and batching rate of its deposit");
            }
            // its price covers what its parts cost later
            let left = e.lamports(&pool()) - b.lamports(&pool()) - if x.token == 0 { r.amount } else { 0 };
            if left != f.commitment_fee(x.rate) {
                viol(out, &["C18", "C05", "C11"], "deposit:reserve", format!("{} lamports are reserved for hashing the commitment", left));
            }
        }
    }
    // ---- transfers ----
    let mut v = V::new(&b, 3, &w, x.token, 1);
    for i in 1..x.inputs {
        v.r.inputs.push(Input { root: None, nullifier: nul(10 + i as u64) });
    }
    v.r.fee_version = x.version;
    v.r.amount = if x.token == 0 { x.amount.max(rent_min(0)) } else { x.amount };
    // enough for any of the parameters
    v.r.fee = f.proof_net(v.r.amount) + if x.token == 0 { 1_000_000_000 } else { 40_000_000 };
    v.seal();
    let mut wrong = v.clone();
    wrong.r.fee_version = other;
    wrong.seal();
    n += 2;
    attempt(out, &["C18", "C13"], "request of another fee version", &b, &wrong.init_tx(&wrong.proof()), false);
    let R::Yes(b1) = attempt(out, &["C18", "C13"], "request", &b, &v.init_tx(&v.proof()), true) else { return (n, 3) };
    check_setup(out, "request", &b, &b1, &v, f, x.rate);
    if exact_fee(&b, &mut v, f, x.rate) {
        n += 2;
        let c = v.charges(&run(&b, &v.init_tx(&v.proof())).unwrap());
        if v.r.fee == c.hash_t + c.proof_t + c.net - c.subv && v.r.fee > 0 {
            let mut low = v.clone();
            low.r.fee -= 1;
            low.seal();
            // a smaller fee can only be sufficient if its own preparation is cheaper
            if let Ok(z) = run(&b, &low.init_tx(&low.proof())) {
                let c = low.charges(&z);
                if low.r.fee < (c.hash_t + c.proof_t + c.net).saturating_sub(c.subv) {
                    viol(out, &["C18", "C13", "C05"], "request:low-fee", "a request is accepted that does not pay its charges");
                }
            }
        }
    }
    let b1 = match run(&b, &v.init_tx(&v.proof())) {
        Ok(y) => y,
        Err(_) => b1,
    };
    check_setup(out, "request", &b, &b1, &v, f, x.rate);
    let ch = v.charges(&b1);
    // the governor moves on to other parameters: the request keeps its own
    let mut b2 = b1.clone();
    b2.write(&governor(), GO_FEE, &ser(&Fee { lamports_per_tx: 77, base_bps: 1, proof_bps: 3, base_subv: 5, proof_subv: 6, hash_reward: 7, proof_reward: 8, base_tx_count: 62 }));
    for (bk, what) in [(&b1, "payout"), (&b2, "payout under a later fee version")] {
        for valid in [true, false] {
            let mut z = bk.clone();
            v.decide(&mut z, valid);
            let dest = v.rec_acc();
            let tx = v.final_tx(valid, v.r.amount, &dest);
            n += 1;
            if let R::Yes(e) = attempt(out, &["C18", "C05", "C06"], what, &z, &tx, true) {
                if valid {
                    check_payout(out, what, &z, &e, &v, &ch, false, &dest);
                } else {
                    check_forfeit(out, what, &z, &e, &v, &ch);
                }
            }
        }
    }
    (n, hash_bytes(1, format!("{:?}", x).as_bytes()))
}

pub fn run_all(c: &mut Check) {
    let mut fees = vec![Fee::default()];
    combos(&fee_dims(), 0, c.tier(2, 3), Fee::default(), &mut fees);
    if c.wants("fee-versions", &["C18", "C19"]) {
        let mut cases = vec![];
        for f in &fees {
            for (version, governor) in [(0, 0), (1, 0), (0, 1), (1, 1), (u32::MAX, 0), (255, 255), (256, 256), (256, 0), (0, 256), (257, 1), (1, 257), (1 << 16, 0), (0, 1 << 16), (1 << 16, 1 << 16), (1 << 24, 0), (0, 1 << 24)] {
                if version == governor || f == &fees[0] || c.thorough {
                    cases.push(New { f: f.clone(), version, governor, prefund: 0 });
                }
            }
            if f.base_tx_count == 62 {
                for prefund in [1, rent_min(66) - 1, rent_min(66), rent_min(66) * 2] {
                    cases.push(New { f: f.clone(), version: 0, governor: 0, prefund });
                }
            }
        }
        c.grid("fee-versions", "creation of a fee version: all parameter sets with at most 2 (thorough 3) deviations x version number x governor version; every further creation is refused", &cases, create);
    }
    if c.wants("fee-amounts", &["C18", "C05", "C11"]) {
        let mut cases = vec![];
        for (i, f) in fees.iter().filter(|f| f.base_tx_count == 62 && f.base_subv <= max_base(f) && f.proof_subv <= max_proof(f)).enumerate() {
            for rate in 0..5 {
                if rate == 4 && (f.base_subv > f.commitment_fee(4) || f.proof_subv > 62 * f.lamports_per_tx + f.commitment_fee(4)) {
                    continue;
                }
                for token in 0..3u16 {
                    for (amount, inputs) in [(SOL, 1), (rent_min(0), 4), (7_777_777_777, 2), (1000, 3)] {
                        // every parameter set meets every dimension, the default meets all combinations
                        let sel = (i + rate as usize + token as usize) % 4 == [(SOL, 1), (rent_min(0), 4), (7_777_777_777, 2), (1000, 3)].iter().position(|x| *x == (amount, inputs)).unwrap();
                        if c.thorough || i == 0 || sel {
                            let versions = [(i as u32 + rate) % 2, 256 + (i as u32 + rate) % 2, 1 << 16, 2];
                            if token > 0 && (i == 0 || sel) {
                                for p in &MORE_PRICES[..if i == 0 { 4 } else { 1 }] {
                                    cases.push(Use { f: f.clone(), version: i as u32 % 2, rate, token, amount, inputs, prices: *p });
                                }
                            }
                            for version in &versions[..if i == 0 && sel { 4 } else { 1 }] {
                                cases.push(Use { f: f.clone(), version: *version, rate, token, amount, inputs, prices: PRICES });
                            }
                        }
                    }
                }
            }
        }
        c.grid("fee-amounts", "every amount computed from a fee version (batch, deposit, request, payout, forfeit) for all parameter sets x batching rates x tokens x amounts x inputs x prices, in versions 0, 1, 2, 256, 257 and 65536, next to another version with other parameters", &cases, usage);
    }
}
