//! Activity statistics (C30): all short transactions over tracked/untracked/foreign instructions and tracking instructions.
use crate::only;
use crate::registry::actor;
use mcw::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum L {
    /// instruction `tag` of the main program, warden `w` at account position `pos`
    Main { tag: u8, w: usize, pos: usize },
    /// no data / not enough accounts
    Empty,
    Bare(u8),
    /// the same instruction of another program
    Other { tag: u8, w: usize, pos: usize },
    Track { w: usize, year: i8, can_fail: bool },
}
use L::*;
/// tag, position of the (original) fee payer who executes the computation or transfer, kind (store, send);
/// the driver `tracked-layout` binds tags and positions to the main program
pub const TRACKED: [(u8, usize, usize); 3] = [(2, 0, 0), (13, 0, 1), (14, 0, 1)];

fn build(l: &L, year: u16) -> Instruction {
    let acc = |w: usize, pos: usize| -> Vec<AccountMeta> {
        (0..6).map(|i| if i == pos { mcw::w(actor(w)) } else { r(key(&format!("filler{}", i))) }).collect()
    };
    match *l {
        Main { tag, w, pos } => Instruction { program_id: main_program(), accounts: acc(w, pos), data: vec![tag, 1, 2, 3] },
        Other { tag, w, pos } => Instruction { program_id: other_program(), accounts: acc(w, pos), data: vec![tag, 1, 2, 3] },
        Empty => Instruction { program_id: main_program(), accounts: acc(0, 0), data: vec![] },
        Bare(tag) => Instruction { program_id: main_program(), accounts: vec![], data: vec![tag] },
        Track { w, year: d, can_fail } => track(&actor(w), (year as i32 + d as i32) as u16, can_fail),
    }
}
#[derive(Clone, Default, PartialEq, Eq, Debug)]
struct Counters {
    /// (kind, day) -> n
    days: BTreeMap<(usize, usize), u32>,
    total: [u32; 3],
    last: u64,
    year: u16,
}
fn read(b: &Bank, k: &Pubkey) -> Option<Counters> {
    b.get(k).filter(|a| a.owner == pid())?;
    let mut d = b.data(k);
    let a = BasicWardenStatsAccount::new(&mut d).ok()?;
    let mut c = Counters { last: a.get_last_activity_timestamp(), year: a.get_year(), ..Default::default() };
    for (i, s) in [a.get_store(), a.get_send(), a.get_migrate()].iter().enumerate() {
        c.total[i] = s.total;
        for (day, n) in s.activity.iter().enumerate() {
            if *n != 0 {
                c.days.insert((i, day), *n);
            }
        }
    }
    Some(c)
}
fn leap(y: u64) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
/// (year, zero-based day)
fn date(t: u64) -> (u16, usize) {
    let (mut d, mut y) = (t / 86_400, 1970);
    while d >= 365 + leap(y) as u64 {
        d -= 365 + leap(y) as u64;
        y += 1;
    }
    (y as u16, d as usize)
}

fn world(t: u64, years: &[u16]) -> Bank {
    let all: Vec<Pubkey> = (0..7).map(actor).collect();
    let mut b = genesis(&all, t as i64);
    for y in years {
        for w in 0..2 {
            b = execute(&b, &[open_stats(&actor(w), &actor(3), *y)]).expect("open");
        }
    }
    b
}
/// checks one transaction; returns the number of effective trackings
fn check(b: &Bank, t: u64, txs: &[L], out: &mut Vec<Viol>) -> Option<Bank> {
    let (year, day) = date(t);
    let supported = (2000..2100).contains(&year);
    let accs: Vec<(usize, u16)> = (0..2).flat_map(|w| [year.wrapping_sub(1), year, year + 1].map(|y| (w, y))).collect();
    let mut want: BTreeMap<(usize, u16), Option<Counters>> = accs.iter().map(|(w, y)| ((*w, *y), read(b, &stats_acc(&actor(*w), *y)))).collect();
    let mut fails = false;
    let mut counted = false;
    for (i, l) in txs.iter().enumerate() {
        if let Track { w, year: d, can_fail } = *l {
            let y = (year as i32 + d as i32) as u16;
            let acc = want.get_mut(&(w, y)).and_then(|x| x.as_mut());
            let Some(acc) = acc else { fails = true; continue };
            let kind = match i.checked_sub(1).map(|j| txs[j]) {
                Some(Main { tag, w: w2, pos }) if w2 == w => TRACKED.iter().find(|x| x.0 == tag && x.1 == pos).map(|x| x.2),
                _ => None,
            };
            // a malformed preceding instruction may also abort the transaction
            let odd = matches!(i.checked_sub(1).map(|j| txs[j]), Some(Empty) | Some(Bare(_)));
            match kind {
                Some(k) if y == year && supported => {
                    counted = true;
                    if acc.total[k] == u32::MAX || acc.days.get(&(k, day)) == Some(&u32::MAX) {
                        fails |= can_fail;
                        continue;
                    }
                    acc.total[k] += 1;
                    *acc.days.entry((k, day)).or_default() += 1;
                    acc.last = t;
                }
                _ => {
                    if can_fail || odd {
                        fails = true;
                    }
                }
            }
        }
    }
    let ixs: Vec<Instruction> = txs.iter().map(|l| build(l, year)).collect();
    match execute(b, &ixs) {
        Err(e) => {
            if !fails && counted {
                viol(out, &["C30"], "track:refused", format!("day {} of {}: {:?} failed: {:?}", day, year, txs, e));
            }
            None
        }
        Ok(post) => {
            let odd = txs.iter().any(|l| matches!(l, Empty | Bare(_)));
            if fails && !odd {
                viol(out, &["C30"], "track:accepted", format!("day {} of {}: {:?} was accepted", day, year, txs));
                return None;
            }
            for ((w, y), c) in &want {
                let g = read(&post, &stats_acc(&actor(*w), *y));
                if g != *c {
                    viol(out, &["C30"], "track:counters", format!("day {} of {}: after {:?} the statistics of warden {} for {} are {:?} instead of {:?}", day, year, txs, w, y, g, c));
                }
            }
            let st: Vec<Pubkey> = accs.iter().map(|(w, y)| stats_acc(&actor(*w), *y)).collect();
            only(out, &["C30"], "track", b, &post, &st);
            Some(post)
        }
    }
}

pub fn run_all(c: &mut Check) {
    let y = |year: u64| -> u64 { (1970..year).map(|y| (365 + leap(y) as u64) * 86_400).sum() };
    if c.wants("stats-transactions", &["C30"]) {
        let mut letters = vec![];
        for (tag, pos, _) in TRACKED {
            for w in 0..2 {
                letters.push(Main { tag, w, pos });
            }
            letters.push(Other { tag, w: 0, pos });
            letters.push(Main { tag, w: 0, pos: if tag == 14 { 3 } else { pos + 1 } });
        }
        letters.extend([Main { tag: 1, w: 0, pos: 0 }, Main { tag: 12, w: 0, pos: 1 }, Empty, Bare(2)]);
        for (w, d, f) in [(0, 0, true), (0, 0, false), (1, 0, true), (0, 1, true), (0, -1, false)] {
            letters.push(Track { w, year: d, can_fail: f });
        }
        let len = c.tier(3, 4);
        let mut cases: Vec<Vec<L>> = vec![vec![]];
        let mut from = 0;
        for n in 1..=len {
            let to = cases.len();
            for i in from..to {
                for l in &letters {
                    // foreign instructions only matter in front of a tracking instruction
                    if n == len && !matches!(l, Track { .. }) {
                        continue;
                    }
                    let mut v = cases[i].clone();
                    v.push(*l);
                    cases.push(v);
                }
            }
            from = to;
        }
        let t = y(2024) + 86_400 * 59 + 5;
        let b = world(t, &[2023, 2024, 2025]);
        c.grid("stats-transactions", "every transaction of up to 3 (4) instructions over tracked, untracked, foreign, malformed and tracking instructions of two wardens, leap day of 2024", &cases, |txs, out| {
            check(&b, t, txs, out);
            (1, svm::hash_bytes(1, format!("{:?}", txs).as_bytes()))
        });
    }
    if c.wants("stats-tags", &["C30"]) {
        let mut cases = vec![];
        for tag in 0..=255u8 {
            for pos in 0..6 {
                cases.push((tag, pos));
            }
        }
        let t = y(2025) + 86_400 * 100;
        let b = world(t, &[2025]);
        c.grid("stats-tags", "every instruction tag of the main program with the warden at every account position", &cases, |(tag, pos), out| {
            check(&b, t, &[Main { tag: *tag, w: 0, pos: *pos }, Track { w: 0, year: 0, can_fail: true }], out);
            check(&b, t, &[Main { tag: *tag, w: 0, pos: *pos }, Track { w: 0, year: 0, can_fail: false }], out);
            (2, (*tag as u128) << 8 | *pos as u128)
        });
    }
    if c.wants("stats-days", &["C30", "C34"]) {
        let mut cases = vec![];
        for year in [2000u64, 2023, 2024, 2099, 1999, 2100] {
            for day in 0..365 + leap(year) as u64 {
                for s in [0, 86_399] {
                    cases.push((year, day, s));
                }
            }
        }
        c.grid("stats-days", "tracking on every day (first and last second) of leap and other years and outside of the supported century", &cases, |(year, day, s), out| {
            let t = y(*year) + day * 86_400 + s;
            let b = world(t, &[*year as u16 - 1, *year as u16, *year as u16 + 1]);
            for (tag, pos, _) in TRACKED {
                let b = check(&b, t, &[Main { tag, w: 0, pos }, Track { w: 0, year: 0, can_fail: true }], out);
                if let Some(b) = b {
                    check(&b, t, &[Main { tag, w: 0, pos }, Track { w: 0, year: 0, can_fail: true }], out);
                }
            }
            check(&b, t, &[Main { tag: 2, w: 0, pos: 0 }, Track { w: 0, year: 1, can_fail: true }], out);
            check(&b, t, &[Main { tag: 2, w: 0, pos: 0 }, Track { w: 0, year: -1, can_fail: false }], out);
            (8, (*year as u128) << 32 | (*day as u128) << 20 | *s as u128)
        });
    }
    if c.wants("stats-overflow", &["C30"]) {
        let mut cases = vec![];
        for total in [0u32, 5, u32::MAX - 1, u32::MAX] {
            for d in [0u32, 5, u32::MAX - 1, u32::MAX] {
                for k in 0..3 {
                    for f in [true, false] {
                        cases.push((total, d, k, f));
                    }
                }
            }
        }
        let t = y(2027) + 200 * 86_400;
        c.grid("stats-overflow", "counters at their limits", &cases, |(total, d, k, f), out| {
            let mut b = world(t, &[2027]);
            let acc = stats_acc(&actor(0), 2027);
            let mut data = b.data(&acc);
            {
                let mut a = BasicWardenStatsAccount::new(&mut data).unwrap();
                for s in 0..3 {
                    let mut v = a.get_store();
                    v.total = *total;
                    v.activity[200] = *d;
                    v.activity[199] = 7 + s;
                    match s {
                        0 => a.set_store(&v),
                        1 => a.set_send(&v),
                        _ => a.set_migrate(&v),
                    }
                }
            }
            b.write(&acc, 0, &data);
            let (tag, pos, _) = TRACKED[*k];
            check(&b, t, &[Main { tag, w: 0, pos }, Track { w: 0, year: 0, can_fail: *f }], out);
            (1, (*total as u128) << 64 | (*d as u128) << 8 | *k as u128)
        });
    }
    if c.wants("stats-open", &["C30", "C19"]) {
        let cases: Vec<u16> = vec![0, 1, 1999, 2000, 2024, 2099, 2100, u16::MAX];
        c.grid("stats-open", "opening a statistics account twice, for any year and payer; the recorded year", &cases, |year, out| {
            let b = world(y(2024), &[2024]);
            let res = execute(&b, &[open_stats(&actor(2), &actor(3), *year)]);
            match res {
                Err(e) => viol(out, &["C30"], "open:refused", format!("year {}: {:?}", year, e)),
                Ok(p) => {
                    let g = read(&p, &stats_acc(&actor(2), *year));
                    if g != Some(Counters { year: *year, ..Default::default() }) {
                        viol(out, &["C30"], "open:content", format!("year {}: {:?}", year, g));
                    }
                    only(out, &["C30"], "open", &b, &p, &[actor(3), stats_acc(&actor(2), *year)]);
                    if execute(&p, &[open_stats(&actor(2), &actor(4), *year)]).is_ok() {
                        viol(out, &["C30", "C19"], "open:twice", format!("the statistics account for {} was opened twice", year));
                    }
                }
            }
            (2, *year as u128)
        });
    }
}
