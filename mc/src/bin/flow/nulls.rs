//! Nullifier accounts around the fill-up of their child maps (C02, C01): real finalisations insert nullifiers into an
//! account whose first children are (almost) full; afterwards every spent nullifier must be refused, every other accepted.
use crate::chk::*;
use crate::hash::warden;
use crate::ver::*;
use elusiv::state::nullifier::NullifierMap;
use elusiv::types::OrdU256;
use mc::*;
use std::collections::BTreeSet;
use std::sync::Mutex;

const P: Props = &["C02", "C01"];
const N: u64 = NU_PER_MAP as u64;

/// stored values are spaced by 100
pub fn stored(i: u64) -> B32 { num((i + 1) * 100) }
pub fn raw(s: &B32) -> B32 { fr_b(&from_mont(s)) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Pos {
    Min,
    Low,
    Mid0,
    /// directly before / after the last of the first child
    Below0,
    Above0,
    Mid1,
    Below1,
    Above1,
    Max,
}
use Pos::*;
const ALL: [Pos; 9] = [Min, Low, Mid0, Below0, Above0, Mid1, Below1, Above1, Max];

#[derive(Clone, Debug)]
struct Case {
    /// nullifiers that were inserted before
    count: u64,
    /// physical order of the entries
    descending: bool,
    reqs: Vec<Vec<Pos>>,
    /// fresh values of one gap are taken in descending order
    down: bool,
}

fn fill(b: &mut Bank, count: u64, descending: bool) {
    let k = nullifier(0);
    let mut c = 0;
    while (c as u64) * N < count {
        let (from, to) = (c as u64 * N, count.min((c as u64 + 1) * N));
        let child = null_child(0, c);
        let mut d = b.data(&child);
        {
            let mut m = NullifierMap::new(&mut d[1..]);
            for i in 0..to - from {
                let i = if descending { to - 1 - i } else { from + i };
                if m.try_insert_default(OrdU256(stored(i))).is_err() {
                    panic!("harness: fill");
                }
            }
        }
        b.write(&child, 0, &d);
        let mut mx = vec![1];
        mx.extend_from_slice(&stored(to - 1));
        b.write(&k, NU_MAX + 33 * c, &mx);
        c += 1;
    }
    b.write(&k, NU_COUNT, &(count as u32).to_le_bytes());
}

pub fn world(count: u64, descending: bool) -> Bank {
    type Cache = Vec<((u64, bool), Bank)>;
    static CACHE: Mutex<Cache> = Mutex::new(vec![]);
    let mut g = CACHE.lock().unwrap();
    if let Some((_, b)) = g.iter().find(|x| x.0 == (count, descending)) {
        return b.clone();
    }
    let (mut b, _) = vworld(0, 200, 0);
    fill(&mut b, count, descending);
    g.push(((count, descending), b.clone()));
    b
}

pub fn init(b: &Bank, v: &V) -> Result<Bank, TxError> {
    let c = null_children(0);
    let i = init_verification(v.idx, 0, v.trees, &v.r, v.skip, &v.fp, &v.ident, &c[..4], &null_children(1)[..1]);
    run(b, &[i, v.fee_ix(), v.proof_ix(&PROOF.get_or_init(|| v.proof()))])
}
static PROOF: std::sync::OnceLock<groth::Proof> = std::sync::OnceLock::new();

pub fn request(b: &Bank, vals: &[B32], n: u64) -> V {
    let mut v = V::new(b, n as u8, &warden(), 0, n);
    v.r.inputs[0].nullifier = raw(&vals[0]);
    for s in &vals[1..] {
        v.r.inputs.push(Input { root: None, nullifier: raw(s) });
    }
    v.r.fee *= 4;
    v.seal();
    v
}

fn run_case(c: &Case, out: &mut Vec<Viol>) -> (u64, u128) {
    let mut b = world(c.count, c.descending);
    let k = nullifier(0);
    let mut n = 0;
    let full0 = c.count.min(N);
    let mut used: BTreeSet<Pos> = BTreeSet::new();
    let mut spent: Vec<B32> = vec![];
    let mut next = std::collections::BTreeMap::new();
    let mut value = |p: Pos| -> B32 {
        let last = c.count.max(2);
        let base = match p {
            Min => 0,
            Low => 700,
            Mid0 => full0 / 2 * 100,
            Below0 => (full0 - 1) * 100,
            Above0 => full0 * 100,
            Mid1 => (N + (last - N.min(last)) / 2) * 100,
            Below1 => (last - 1) * 100,
            Above1 => last * 100,
            Max => u64::MAX - 200,
        };
        // distinct values in every gap
        let i: &mut u64 = next.entry(base).or_insert(0);
        *i += 1;
        num(base + if c.down { 60 - *i } else { 20 + *i })
    };
    for (i, r) in c.reqs.iter().enumerate() {
        let vals: Vec<B32> = r.iter().map(|p| value(*p)).collect();
        used.extend(r);
        let v = request(&b, &vals, i as u64);
        n += 1;
        let mut a = match init(&b, &v) {
            Ok(a) => a,
            Err(e) => {
                viol(out, &["C02", "C13"], "nulls:fresh-refused", format!("request {} with unspent nullifiers was refused: {:?}", i, e));
                return (n, 0);
            }
        };
        v.decide(&mut a, true);
        // every value that is moved to the next child needs one more instruction
        let mut done = None;
        for moves in 0..8 {
            let mut tx = vec![v.send_ix()];
            tx.extend((0..r.len() + moves).map(|_| finalize_insert(v.idx, &v.fp, 0, &null_children(0)[..4])));
            tx.push(v.transfer_ix());
            n += 1;
            if let Ok(x) = run(&a, &tx) {
                if done.is_some() {
                    viol(out, &["C06", "C02"], "nulls:two-lengths", "the finalisation is accepted with different numbers of insertions");
                } else {
                    done = Some(x);
                }
            }
        }
        let Some(x) = done else {
            viol(out, &["C02", "C06"], "nulls:stuck", format!("request {} cannot be finalised with any number of insertions", i));
            return (n, 0);
        };
        b = x;
        spent.extend(vals);
        if u32_at(&b, &k, NU_COUNT) as u64 != c.count + spent.len() as u64 || u8_at(&b, &k, NU_MOVED) != 0 {
            viol(out, &["C02", "C01", "C06"], "nulls:count", "the number of nullifiers is wrong, or values are left in the moving buffer");
        }
        // lookups
        let mut probes: Vec<(B32, bool)> = spent.iter().map(|s| (*s, true)).collect();
        for j in 1..=6u64 {
            for e in [N, 2 * N, c.count] {
                if e >= j && e - j < c.count {
                    probes.push((stored(e - j), true));
                }
            }
        }
        for j in [0, 1, N / 2, N, N + 1] {
            if j < c.count {
                probes.push((stored(j), true));
            }
        }
        for (j, p) in used.iter().enumerate() {
            if j < 3 {
                let mut q = value(*p);
                while spent.contains(&q) {
                    q = value(*p);
                }
                probes.push((q, false));
            }
        }
        for (s, is_spent) in probes {
            n += 1;
            let ok = init(&b, &request(&b, &[s], 100)).is_ok();
            if ok && is_spent {
                viol(out, &["C01", "C02", "C13"], "nulls:forgotten", format!("a spent nullifier is accepted again ({:?}...)", &s[..5]));
            }
            if !ok && !is_spent {
                viol(out, &["C02", "C13"], "nulls:phantom", format!("an unspent nullifier is refused ({:?}...)", &s[..5]));
            }
        }
    }
    // what the maps hold
    let mut have: Vec<B32> = (0..4).flat_map(|i| null_keys(&b, 0, i)).collect();
    let mut want: Vec<B32> = (0..c.count).map(stored).collect();
    want.extend(&spent);
    have.sort();
    want.sort();
    if have != want {
        viol(out, P, "nulls:content", "the maps do not contain exactly the inserted nullifiers");
    }
    (n, b.get(&k).unwrap().hash())
}

pub fn run_all(c: &mut Check) {
    if !c.wants("nullifier-overflow", &["C02", "C01", "C06"]) {
        return;
    }
    let singles: Vec<Vec<Pos>> = ALL.iter().map(|p| vec![*p]).collect();
    let multi: Vec<Vec<Pos>> = vec![vec![Below0; 4], vec![Min, Below0, Above0, Max], vec![Max, Above0, Below0, Min], vec![Mid0, Below1, Below0, Mid1], vec![Above0; 3], vec![Min; 4], vec![Below1; 4]];
    let pairs: Vec<Vec<Pos>> = ALL.iter().flat_map(|a| ALL.iter().map(move |b| vec![*a, *b])).collect();
    let mut cases = vec![];
    for count in [N - 2, N - 1, N, N + 1, 2 * N - 1, 2 * N] {
        for descending in [false, true] {
            for down in [false, true] {
                let mut seqs: Vec<Vec<Vec<Pos>>> = vec![];
                if c.thorough {
                    seqs.extend(pairs.iter().flat_map(|p| singles.iter().map(move |s| vec![p.clone(), s.clone()])));
                    for a in &singles {
                        for b in &singles {
                            for d in [vec![Below0], vec![Above0], vec![Min], vec![Below1]] {
                                seqs.push(vec![a.clone(), b.clone(), d]);
                            }
                        }
                    }
                    seqs.extend(multi.iter().flat_map(|p| singles.iter().map(move |s| vec![p.clone(), s.clone()])));
                } else if descending == down {
                    seqs.extend(pairs.iter().map(|p| vec![p.clone()]));
                    seqs.extend(multi.iter().map(|p| vec![p.clone(), vec![Below0]]));
                    seqs.extend([Min, Below0, Above0, Below1].iter().flat_map(|a| [Min, Below0, Above0, Below1].iter().map(move |b| vec![vec![*a], vec![*b]])));
                }
                cases.extend(seqs.into_iter().map(|reqs| Case { count, descending, reqs, down }));
            }
        }
    }
    c.grid(
        "nullifier-overflow",
        "nullifier account with its first two child maps full, one below or one above full; sequences of 1-3 finalised requests of 1-4 inputs with nullifiers at every position relative to the children; after each, spent and unspent values are looked up by real requests and the stored set is compared",
        &cases,
        run_case,
    );
}
