//! Trees of every number: closing, the final root, requests and nullifiers of trees far beyond the first ones (C01, C02, C14, C15, C19).
use crate::chk::*;
use crate::hash::warden;
use crate::ver::*;
use mc::*;

const P: Props = &["C01", "C02", "C13", "C14", "C15", "C19"];

#[derive(Clone, Debug)]
struct Case {
    active: u32,
    ptr: u32,
}
/// the trees whose accounts exist: neighbours, and those whose number agrees in the low or high bytes
fn trees(n: u32) -> Vec<u32> {
    let mut v = vec![n];
    for t in [n.wrapping_add(1), n.wrapping_sub(1), n & 0xff, n & 0xffff, n & 0xff_ffff, n >> 8, n >> 16, n ^ 0x100, n ^ 0x1_0000, n ^ 0x8000_0000, 0, 1, 2] {
        if !v.contains(&t) {
            v.push(t);
        }
    }
    v
}
fn request(b: &Bank, trees: [u32; 2], root: B32, nullifier: B32, n: u64) -> V {
    let mut v = V::new(b, (n % 100) as u8, &warden2(), 0, n);
    v.trees = trees;
    v.r.inputs[0] = Input { root: Some(root), nullifier };
    v.r.recent = tree_ptr(b);
    v.seal();
    v
}
/// spends a note of the first tree
fn spend(out: &mut Vec<Viol>, what: &str, b: &Bank, v: &V, all: &[u32]) -> Option<Bank> {
    let R::Yes(mut b1) = attempt(out, P, &format!("{}: request", what), b, &v.init_tx(&v.proof()), true) else { return None };
    v.decide(&mut b1, true);
    let mut v = v.clone();
    let (t, p) = (trees_count(b), tree_ptr(b));
    v.fin.mt_index = t + ((p as u64 + queue_entries(b).len() as u64) / MT_LEAVES as u64) as u32;
    v.fin.commitment_index = 0;
    // the nullifiers of no other tree
    for t in all.iter().filter(|t| **t != v.trees[0]) {
        let mut w = v.final_tx(true, v.r.amount, &v.rec);
        w[1] = finalize_insert(v.idx, &v.fp, *t, &null_children(*t)[..1]);
        attempt(out, &["C01", "C02", "C06", "C16"], &format!("{}: into the nullifiers of another tree", what), &b1, &w, false);
    }
    let R::Yes(b2) = attempt(out, P, &format!("{}: finalisation", what), &b1, &v.final_tx(true, v.r.amount, &v.rec), true) else { return None };
    for t in all {
        let same = [nullifier(*t), null_child(*t, 0)].iter().all(|k| b.get(k).map(|a| a.hash()) == b2.get(k).map(|a| a.hash()));
        if same != (*t != v.trees[0]) {
            viol(out, &["C01", "C02", "C06"], "numbers:inserted", format!("{}: spending a note of tree {} {} the nullifiers of tree {}", what, v.trees[0], if same { "leaves" } else { "changes" }, t));
        }
    }
    Some(b2)
}
fn run_case(c: &Case, base: &Bank, out: &mut Vec<Viol>) -> (u64, u128) {
    let n = c.active;
    let mut b = base.clone();
    let all = trees(n);
    let mut steps = 0;
    let existing = |b: &Bank, t: u32| b.get(&nullifier(t)).is_some();
    for t in &all {
        if existing(&b, *t) {
            continue;
        }
        steps += 2;
        let R::Yes(x) = attempt(out, &["C19", "C15"], "open nullifiers", &b, &[open_nullifier(&warden(), *t)], true) else { return (steps, 0) };
        only(out, &["C19", "C16"], "open nullifiers", &b, &x, &[nullifier(*t), warden()]);
        attempt(out, &["C19"], "open nullifiers again", &x, &[open_nullifier(&warden(), *t)], false);
        b = x;
        blank_child(&mut b, &null_child(*t, 0), null_child_len());
        steps += 2;
        // a child of this tree and no other
        for o in all.iter().filter(|o| **o != *t) {
            let x = enable_nullifier_child(*t, 0, &null_child(*t, 0));
            let mut y = x.clone();
            y.accounts[0].pubkey = nullifier(*o);
            steps += 1;
            attempt(out, &["C19", "C16"], "child for another tree", &b, &[y], false);
        }
        let R::Yes(x) = attempt(out, &["C19"], "enable child", &b, &[enable_nullifier_child(*t, 0, &null_child(*t, 0))], true) else { return (steps, 0) };
        b = x;
        attempt(out, &["C19"], "enable child again", &b, &[enable_nullifier_child(*t, 0, &null_child(*t, 0))], false);
    }
    for t in &all {
        b.write(&nullifier(*t), NU_ROOT, &if *t < n { mont_b(&closed_root(*t)) } else { [0; 32] });
    }
    b.write(&storage(), ST_TREES, &n.to_le_bytes());
    let current = root_of(&b);
    let other = |t: u32| if t == all[1] { all[0] } else { all[1] };
    // requests: the current root for the active tree, its final root for a closed one, nothing for later ones
    let mut i = 0;
    for t in &all {
        for (root, of) in all.iter().map(|o| if *o == n { (current, n) } else { (fr_b(&closed_root(*o)), *o) }) {
            i += 1;
            steps += 1;
            let v = request(&b, [*t, other(*t)], root, nul(500), i);
            attempt(out, &["C14", "C13"], "request", &b, &[v.init_ix()], *t == of && *t <= n);
        }
        steps += 1;
        attempt(out, &["C14", "C13"], "request without a root", &b, &[request(&b, [*t, other(*t)], num(0), nul(500), i).init_ix()], false);
    }
    // spending in the active tree and in the closed ones
    let used = nul(501);
    for (k, t) in all.iter().filter(|t| **t <= n).enumerate() {
        if n == u32::MAX {
            break;
        }
        steps += 3;
        let root = if *t == n { current } else { fr_b(&closed_root(*t)) };
        // the same nullifier in different trees belongs to different notes
        let v = request(&b, [*t, other(*t)], root, used, 900 + k as u64);
        let Some(x) = spend(out, "note", &b, &v, &all) else { return (steps, 1) };
        b = x;
    }
    let spent_everywhere = |out: &mut Vec<Viol>, b: &Bank, now: u32, when: &str| {
        for (k, t) in all.iter().filter(|t| **t <= n).enumerate() {
            let root = if *t == now { current } else if *t == n { current } else { fr_b(&closed_root(*t)) };
            let v = request(b, [*t, other(*t)], root, used, 1200 + k as u64);
            attempt(out, &["C01", "C13", "C15"], &format!("spent note{}", when), b, &[v.init_ix()], false);
            let v = request(b, [*t, other(*t)], root, nul(502), 1300 + k as u64);
            attempt(out, &["C13", "C14", "C15"], &format!("unspent note{}", when), b, &[v.init_ix()], true);
        }
    };
    if n != u32::MAX {
        spent_everywhere(out, &b, n, "");
    }
    // closing
    // (requests are hashed one by one here)
    let full = c.ptr == MT_LEAVES || (c.ptr + 1 >= MT_LEAVES && !queue_entries(&b).is_empty());
    for t in &all {
        steps += 1;
        let mut ix = reset_tree(*t, &storage_children());
        let ok = *t == n && full && n < u32::MAX;
        if *t != n {
            attempt(out, &["C15"], "closing another tree", &b, &[ix.clone()], false);
            // the right number with the account of another tree
            let pos = ix.accounts.iter().position(|a| a.pubkey == nullifier(*t)).unwrap();
            ix = reset_tree(n, &storage_children());
            ix.accounts[pos].pubkey = nullifier(*t);
            attempt(out, &["C15", "C16"], "closing into the account of another tree", &b, &[ix], false);
        } else {
            let R::Yes(x) = attempt(out, &["C15"], "closing", &b, &[ix], ok) else { continue };
            if !ok {
                return (steps, 3);
            }
            only(out, &["C15", "C16", "C01"], "closing", &b, &x, &[storage(), nullifier(n)]);
            if trees_count(&x) != n + 1 || tree_ptr(&x) != 0 {
                viol(out, &["C15"], "numbers:index", format!("after closing tree {} the active tree is {} with {} leaves", n, trees_count(&x), tree_ptr(&x)));
            }
            let (p, q) = (b.data(&nullifier(n)), x.data(&nullifier(n)));
            if p[..NU_ROOT] != q[..NU_ROOT] || p[NU_COUNT..] != q[NU_COUNT..] || q[NU_ROOT..NU_COUNT] != to_mont(&current) {
                viol(out, &["C15", "C14", "C01"], "numbers:closed", "the closed tree does not keep its nullifiers and final root");
            }
            spent_everywhere(out, &x, n + 1, " of a closed tree");
            for t in &all {
                attempt(out, &["C15"], "closing twice", &x, &[reset_tree(*t, &storage_children())], false);
            }
            // an unspent note of the closed tree
            let v = request(&x, [n, other(n)], current, nul(503), 1400);
            spend(out, "note of a closed tree", &x, &v, &all);
            steps += 40;
        }
    }
    (steps, n as u128)
}
pub fn run_all(c: &mut Check) {
    if !c.wants("tree-numbers", P) {
        return;
    }
    let mut ns = vec![0u32, 1, 2, 3, 127, 128, 255, 256, 257, 511, 65_535, 65_536, 65_537, 1 << 24, (1 << 24) + 1, 1 << 31, u32::MAX - 1, u32::MAX];
    if c.thorough {
        ns.extend(4..24);
        ns.extend([254, 258, 510, 512, 513, 1023, 1024, 4095, 4096, 32_767, 32_768, 65_534, 131_071, 131_072, (1 << 24) - 1, (1 << 31) - 1, (1 << 31) + 1]);
    }
    let cases: Vec<Case> = ns.iter().flat_map(|n| [MT_LEAVES, MT_LEAVES - 2].map(|ptr| Case { active: *n, ptr })).collect();
    let banks = [MT_LEAVES, MT_LEAVES - 2].map(|p| vworld(0, p, 0).0);
    let bounds = format!("{} numbers of the active tree (beyond one, two and three bytes), full and two short of it: every request of every existing tree against every root, spending, closing, spending of closed trees", ns.len());
    c.grid("tree-numbers", &bounds, &cases, |c, out| run_case(c, &banks[(c.ptr != MT_LEAVES) as usize], out));
}
