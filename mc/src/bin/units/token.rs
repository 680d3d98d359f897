//! Token arithmetic, prices and conversions against exact arithmetic (C25).
use elusiv::token::*;
use mc::*;
use solana_program::account_info::AccountInfo;
use solana_program::pubkey::Pubkey;
use std::ops::{Add, Sub};
use svm::codec::quiet;

const P: &[&str] = &["C25"];
/// what fees and charges in tokens rest on
const PF: &[&str] = &["C25", "C18", "C11"];
/// a panic aborts the transaction, like an error
fn q<T, E>(f: impl FnOnce() -> Result<T, E>) -> Option<T> { quiet(|| f().ok()).flatten() }

fn amounts() -> Vec<u64> {
    let mut v = vec![0, 1, 2, 3, 999, 1000, 1001, 5000, 10_000, 1_000_000, 999_999_999, 1_000_000_000, 8_000_000_000, 360_000_000_000, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX];
    for t in TOKENS.iter() {
        v.extend([t.min - 1, t.min, t.min + 1, t.max - 1, t.max, t.max + 1]);
    }
    v.sort();
    v.dedup();
    v
}

fn table(c: &mut Check) {
    // the entries as configured
    let toml = std::fs::read_to_string("/repo/shared/elusiv-types/Token.toml").expect("Token.toml");
    let mut entries: Vec<std::collections::HashMap<String, String>> = vec![];
    for l in toml.lines() {
        let l = l.split('#').next().unwrap().trim();
        if l == "[[token]]" {
            entries.push(Default::default());
        } else if let Some((k, v)) = l.split_once('=') {
            entries.last_mut().unwrap().insert(k.trim().into(), v.trim().trim_matches('"').into());
        }
    }
    let ids: Vec<u16> = (0..TOKENS.len() as u16 + 3).chain([255, 256, 32767, 65535]).collect();
    let n = entries.len();
    c.grid("token-table", "every token id up to three beyond the last, large ids", &ids, |id, out| {
        let mut bad = |m: &str| viol(out, P, format!("token-table:{}", m), format!("{} of token {}", m, id));
        let i = *id as usize;
        if n != TOKENS.len() {
            bad("number of tokens");
        }
        match q(|| elusiv_token(*id)) {
            Some(t) if i < n => {
                let e = &entries[i];
                let num = |k: &str| e.get(k).map_or(0, |v| v.replace('_', "").parse::<u64>().unwrap());
                let key = |k: &str| e[k].parse::<Pubkey>().unwrap();
                if t != TOKENS[i] { bad("lookup"); }
                if t.mint != key("mint") { bad("mint"); }
                if t.pyth_usd_price_key != key("pyth_usd_price_mainnet") { bad("price account"); }
                if t.min != num("min") || t.max != num("max") || t.min > t.max || t.min == 0 { bad("limits"); }
                if t.price_base_exp as u64 != num("price_base_exp") { bad("price exponent"); }
                if i > 0 && t.decimals as u64 != num("decimals") { bad("decimals"); }
                if TOKENS.iter().enumerate().any(|(j, x)| j != i && (x.mint == t.mint || x.pyth_usd_price_key == t.pyth_usd_price_key)) { bad("uniqueness"); }
            }
            None if i >= n => {}
            _ => bad("existence"),
        }
        (1, *id as u128)
    });
}

fn arithmetic(c: &mut Check) {
    let ids: Vec<u16> = (0..TOKENS.len() as u16 + 1).chain([u16::MAX]).collect();
    let mut cases = vec![];
    let am = amounts();
    let few = [0u64, 1, 7, 1 << 32, i64::MAX as u64, u64::MAX - 1, u64::MAX];
    for a in &ids {
        for b in &ids {
            for x in &few {
                for y in &few {
                    cases.push((*a, *x, *b, *y));
                }
            }
        }
        for x in &am {
            for y in &am {
                cases.push((*a, *x, *a, *y));
            }
        }
    }
    c.grid("token-arithmetic", "pairs of token ids and boundary amounts", &cases, |(a, x, b, y), out| {
        let mut bad = |m: &str| viol(out, P, format!("token-arithmetic:{}", m), format!("{} of {} of token {} and {} of token {}", m, x, a, y, b));
        let (t, u) = (Token::new(*a, *x), Token::new(*b, *y));
        let want = |v: Option<u64>| v.filter(|_| a == b).map(|v| (*a, v));
        let got = |v: Option<Token>| v.map(|t| (t.token_id(), t.amount()));
        if (t.token_id(), t.amount()) != (*a, *x) { bad("construction"); }
        if got(q(|| t.add(u))) != want(x.checked_add(*y)) { bad("sum"); }
        if got(q(|| t.sub(u))) != want(x.checked_sub(*y)) { bad("difference"); }
        if q(|| t.enforce_token_equality(&u)) != (a == b).then_some(*a) { bad("equality"); }
        if q(|| t.into_lamports()).map(|l| l.0) != (*a == 0).then_some(*x) { bad("lamports"); }
        if q(|| Lamports(*x).add(Lamports(*y))).map(|l| l.0) != x.checked_add(*y) { bad("lamport sum"); }
        if got(Some(Lamports(*x).into_token_strict())) != Some((0, *x)) { bad("lamports as token"); }
        if q(|| SPLToken::new(*a, *x)).map(|s| (s.id.get(), s.amount)) != (*a != 0).then_some((*a, *x)) { bad("token construction"); }
        let i = *a as usize;
        let ok = i < TOKENS.len() && (TOKENS[i].min..=TOKENS[i].max).contains(x);
        if got(q(|| Token::new_checked(*a, *x))) != ok.then_some((*a, *x)) { bad("limits"); }
        (9, *x as u128 ^ (*y as u128) << 64)
    });
}

struct Acc {
    key: Pubkey,
    owner: Pubkey,
    lamports: u64,
    data: Vec<u8>,
}
impl Acc {
    fn new(key: Pubkey, owner: Pubkey, data: Vec<u8>) -> Acc { Acc { key, owner, lamports: 1, data } }
    fn info(&mut self) -> AccountInfo { AccountInfo::new(&self.key, false, false, &mut self.lamports, &mut self.data, &self.owner, false, 0) }
}
#[derive(Clone, Debug)]
struct PriceCase {
    id: u16,
    sol: (i64, u64, i32, u32),
    tok: (i64, u64, i32, u32),
    sol_key: u16,
    tok_key: u16,
    /// byte to change in the token's account, length to keep
    junk: Option<(usize, u8)>,
    cut: Option<usize>,
}
fn price_of(p: &PriceCase) -> Option<TokenPrice> {
    let own = world::key_pyth();
    let mut a = Acc::new(price_key(p.sol_key), own, world::pyth(p.sol.0, p.sol.1, p.sol.2, p.sol.3));
    let mut b = Acc::new(price_key(p.tok_key), own, world::pyth(p.tok.0, p.tok.1, p.tok.2, p.tok.3));
    if let Some((i, v)) = p.junk {
        b.data[i] = v;
    }
    if let Some(n) = p.cut {
        b.data.truncate(n);
    }
    let (x, y) = (a.info(), b.info());
    q(|| TokenPrice::new(&x, &y, p.id))
}
/// which price accounts are accepted
fn admission(c: &mut Check) {
    let good = |id: u16| PriceCase { id, sol: (3_900_000_000, 1_000_000, -8, 1), tok: (99_990_000, 10_000, -8, 1), sol_key: 0, tok_key: id, junk: None, cut: None };
    let mut cases = vec![];
    let prices = [i64::MIN, -3_900_000_000, -1, 0, 1, 99_990_000, 3_900_000_000, i64::MAX];
    for id in 0..TOKENS.len() as u16 + 2 {
        if (id as usize) < TOKENS.len() {
            cases.push(good(id));
            for s in prices {
                for t in prices {
                    for st in [(1, 1), (0, 1), (1, 0), (2, 1), (1, 2), (3, 3)] {
                        let mut p = good(id);
                        p.sol.0 = s;
                        p.tok.0 = t;
                        (p.sol.3, p.tok.3) = st;
                        cases.push(p);
                    }
                }
            }
            for st in 0..6 {
                for su in 0..6 {
                    let mut p = good(id);
                    (p.sol.3, p.tok.3) = (st, su);
                    cases.push(p);
                }
            }
            for a in 0..TOKENS.len() as u16 {
                for b in 0..TOKENS.len() as u16 {
                    let mut p = good(id);
                    (p.sol_key, p.tok_key) = (a, b);
                    cases.push(p);
                }
            }
            for i in 0..12 {
                for v in [0u8, 0xff] {
                    let mut p = good(id);
                    p.junk = Some((i, v));
                    cases.push(p);
                }
            }
            for n in [0, 1, 4, 240, 3311] {
                let mut p = good(id);
                p.cut = Some(n);
                cases.push(p);
            }
            // huge confidence interval: the price vanishes against it
            for conf in [u64::MAX, 1 << 60, 1 << 50] {
                for which in [false, true] {
                    let mut p = good(id);
                    if which { p.sol.1 = conf } else { p.tok.1 = conf }
                    cases.push(p);
                }
            }
        } else {
            let mut p = good(1);
            p.id = id;
            cases.push(p);
        }
    }
    c.grid("price-admission", "token ids x prices of both sides (negative, zero, extreme) x statuses x swapped accounts x damaged accounts", &cases, |p, out| {
        let r = price_of(p);
        let i = p.id as usize;
        let usable = i == 0 || i < TOKENS.len() && p.sol_key == 0 && p.tok_key == p.id && p.sol.0 > 0 && p.tok.0 > 0 && p.sol.3 == 1 && p.tok.3 == 1 && p.cut.is_none();
        let mut damaged = p.cut.is_some();
        if let Some((k, v)) = p.junk {
            let mut d = world::pyth(p.tok.0, p.tok.1, p.tok.2, p.tok.3);
            let was = d[k];
            d[k] = v;
            damaged |= was != v;
        }
        if i == 0 {
            // lamports are not converted
            match r {
                Some(t) if q(|| t.token_into_lamports(Token::new(0, 12345))).map(|l| l.0) == Some(12345) && q(|| t.lamports_into_token(&Lamports(777), 0)).map(|t| (t.token_id(), t.amount())) == Some((0, 777)) => {}
                _ => viol(out, PF, "price:lamports", format!("lamports are converted under {:?}", p)),
            }
            return (1, 0);
        }
        let huge = p.sol.1 > 1 << 40 || p.tok.1 > 1 << 40;
        match r {
            Some(_) if !usable || damaged => viol(out, PF, if p.sol.0 <= 0 || p.tok.0 <= 0 { "price:not-positive" } else { "price:unusable" }, format!("the prices {:?} are accepted", p)),
            None if usable && !damaged && !huge && p.sol.0 < 1 << 60 && p.tok.0 < 1 << 60 => viol(out, PF, "price:refused", format!("the prices {:?} are refused", p)),
            Some(t) if huge => {
                // accepted only while something remains of the price
                if t.lamports_usd.price <= 0 || t.token_usd.price <= 0 {
                    viol(out, PF, "price:vanished", format!("the prices {:?} are accepted as {} and {}", p, t.lamports_usd.price, t.token_usd.price));
                }
            }
            _ => {}
        }
        (1, 0)
    });
}
/// conversions follow the price
fn conversion(c: &mut Check) {
    let mut cases = vec![];
    let sol = [(390_000_000i64, -8), (3_900_000_000, -8), (25_000_000_000, -8), (2_512_345_678, -8), (14_987_654_321, -8), (39, 0), (3_999, -2)];
    let tok = [(100_000_000i64, -8), (99_990_000, -8), (100_010_001, -8), (2_600_000_000, -8), (12_345_678, -8), (1, 0), (123, -2), (1_012_345, -10), (2_600_123_456, -10)];
    for id in 1..TOKENS.len() as u16 {
        for s in sol {
            for t in tok {
                for a in amounts() {
                    for back in [false, true] {
                        cases.push((id, s, t, a, back));
                    }
                }
            }
        }
    }
    c.grid("token-conversion", "every token x 7 SOL prices x 9 token prices x boundary amounts x both directions", &cases, |(id, s, t, a, back), out| {
        let p = PriceCase { id: *id, sol: (s.0, 1, s.1, 1), tok: (t.0, 1, t.1, 1), sol_key: 0, tok_key: *id, junk: None, cut: None };
        let price = match price_of(&p) {
            Some(x) => x,
            None => {
                viol(out, PF, "conversion:price", format!("the prices {:?} are refused", p));
                return (1, 0);
            }
        };
        // USD per smallest unit
        let unit = |v: (i64, i32), dec: i32| v.0 as f64 * 10f64.powi(v.1 - dec);
        let dec = TOKENS[*id as usize].decimals as i32;
        let (ul, ut) = (unit(*s, 9), unit(*t, dec));
        let want = *a as f64 * if *back { ul / ut } else { ut / ul };
        let got = if *back { q(|| price.lamports_into_token(&Lamports(*a), *id)).map(|t| (t.token_id(), t.amount())) } else { q(|| price.token_into_lamports(Token::new(*id, *a))).map(|l| (*id, l.0)) };
        match got {
            Some((i, _)) if i != *id => viol(out, PF, "conversion:token", format!("{} lamports become token {}", a, i)),
            Some((_, g)) => {
                // quotients of prices carry nine decimals
                let digits = *a as f64 * if *back { s.0 } else { t.0 } as f64;
                let tol = 1.0 + want * (3e-7 + 0.3 / digits.max(1.0));
                if (g as f64 - want).abs() > tol {
                    viol(out, PF, "conversion:amount", format!("{} {} become {}, the price gives {} ({:?})", a, if *back { "lamports" } else { "token units" }, g, want, p));
                }
            }
            // conversions whose result does not fit are refused; so are amounts beyond the range of prices
            None if want < 9e18 && *a <= i64::MAX as u64 => viol(out, PF, "conversion:refused", format!("{} {} are not converted, the price gives {} ({:?})", a, if *back { "lamports" } else { "token units" }, want, p)),
            None => {}
        }
        // the other token is refused
        let o = if *id == 1 { 2 } else { 1 };
        if q(|| price.token_into_lamports(Token::new(o, *a))).is_some() || q(|| price.lamports_into_token(&Lamports(*a), o)).is_some() || q(|| price.lamports_into_token(&Lamports(*a), 0)).is_some() || q(|| price.token_into_lamports(Token::new(0, *a))).is_some() {
            viol(out, P, "conversion:other-token", format!("the price of token {} converts amounts of another token", id));
        }
        (5, got.map_or(0, |g| g.1) as u128)
    });
}
/// which accounts hold a token
fn holdings(c: &mut Check) {
    let mut cases = vec![];
    let n = TOKENS.len() as u16;
    for id in 0..n + 1 {
        for held in 0..n + 1 {
            for owner in 0..3 {
                for len in [165usize, 164, 166, 82, 0] {
                    cases.push((id, held, owner, len));
                }
            }
        }
    }
    c.grid("token-accounts", "token ids x mint of the account x owning program x sizes; associated accounts of other wallets, mints", &cases, |(id, held, owner, len), out| {
        let owners = [spl_token::id(), solana_program::system_program::id(), key("other")];
        let spl = *owner == 0;
        let m = if *held < n { mint(*held) } else { key("foreign-mint") };
        let mut d = vec![];
        d.extend_from_slice(m.as_ref());
        d.extend_from_slice(key("wallet").as_ref());
        d.extend_from_slice(&5u64.to_le_bytes());
        d.resize(165, 0);
        d[108] = 1;
        d.resize(*len, 0);
        let mut a = Acc::new(key("account"), owners[*owner], d);
        let r = q(|| verify_token_account(&a.info(), *id)).unwrap_or(false);
        let want = if *id == 0 { !spl } else { spl && *len == 165 && held == id && *id < n };
        if r != want {
            viol(out, P, "token-account", format!("an account owned by program {} of {} bytes for token {} as account of token {}: {}", owner, len, held, id, r));
        }
        if *id < n && *held < n {
            let (w, o) = (key("wallet"), key("other-wallet"));
            for (x, acc) in [(w, holding(&w, *held)), (w, holding(&o, *held)), (w, key("account"))] {
                let r = q(|| verify_associated_token_account(&x, &acc, *id)).unwrap_or(false);
                if r != (acc == holding(&w, *id)) {
                    viol(out, P, "associated-account", format!("account of token {} as associated account of token {}: {}", held, id, r));
                }
            }
        }
        (4, r as u128)
    });
}
pub fn run_all(c: &mut Check) {
    for (n, f) in [("token-table", table as fn(&mut Check)), ("token-arithmetic", arithmetic), ("price-admission", admission), ("token-conversion", conversion), ("token-accounts", holdings)] {
        let p = if matches!(n, "price-admission" | "token-conversion") { PF } else { P };
        if c.wants(n, p) {
            f(c);
        }
    }
}
