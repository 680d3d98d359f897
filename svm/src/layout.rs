//! Fields of account types: every field, every element, several values, several backgrounds.
use crate::*;

type Set = Box<dyn Fn(&mut [u8], usize, usize) + Sync + Send>;
type Get = Box<dyn Fn(&mut [u8], usize) -> Vec<u8> + Sync + Send>;
pub struct Fld {
    pub name: &'static str,
    pub off: usize,
    pub len: usize,
    pub n: usize,
    pub set: Option<Set>,
    pub get: Option<Get>,
    /// encodings of the values
    pub vals: Vec<Vec<u8>>,
}
pub struct Lay {
    pub name: &'static str,
    pub size: usize,
    pub fields: Vec<Fld>,
    pub open: fn(&mut [u8]) -> bool,
}
impl Lay {
    /// fields follow each other
    pub fn new(name: &'static str, size: usize, open: fn(&mut [u8]) -> bool, mut fields: Vec<Fld>) -> Lay {
        let mut o = 0;
        for f in &mut fields {
            f.off = o;
            o += f.len * f.n;
        }
        Lay { name, size, fields, open }
    }
    fn total(&self) -> usize { self.fields.iter().map(|f| f.len * f.n).sum() }
    fn background(&self, k: usize) -> Vec<u8> {
        (0..self.total())
            .map(|i| match k {
                0 => 0,
                1 => 0xff,
                2 => (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).to_be_bytes()[1],
                _ => 1,
            })
            .collect()
    }
}
pub fn gap(name: &'static str, len: usize, n: usize) -> Fld { Fld { name, off: 0, len, n, set: None, get: None, vals: vec![] } }

/// a field with getter and setter
#[macro_export]
macro_rules! lay_val {
    ($acc:ident, $name:literal, $get:ident, $set:ident, $len:expr, $vals:expr) => {{
        let (a, b) = (std::sync::Arc::new($vals), $vals);
        $crate::layout::Fld {
            name: $name, off: 0, len: $len, n: 1,
            set: Some(Box::new(move |d: &mut [u8], _: usize, v: usize| $acc::new(d).unwrap().$set(&a[v]))),
            get: Some(Box::new(|d: &mut [u8], _: usize| borsh::BorshSerialize::try_to_vec(&$acc::new(d).unwrap().$get()).unwrap())),
            vals: b.iter().map(|v| borsh::BorshSerialize::try_to_vec(v).unwrap()).collect(),
        }
    }};
}
/// a sequence with getter and setter
#[macro_export]
macro_rules! lay_arr {
    ($acc:ident, $name:literal, $get:ident, $set:ident, $len:expr, $n:expr, $vals:expr) => {{
        let (a, b) = (std::sync::Arc::new($vals), $vals);
        $crate::layout::Fld {
            name: $name, off: 0, len: $len, n: $n,
            set: Some(Box::new(move |d: &mut [u8], i: usize, v: usize| $acc::new(d).unwrap().$set(i, &a[v]))),
            get: Some(Box::new(|d: &mut [u8], i: usize| borsh::BorshSerialize::try_to_vec(&$acc::new(d).unwrap().$get(i)).unwrap())),
            vals: b.iter().map(|v| borsh::BorshSerialize::try_to_vec(v).unwrap()).collect(),
        }
    }};
}
/// a lazily decoded field
#[macro_export]
macro_rules! lay_lazy {
    ($acc:ident, $name:literal, $field:ident, $len:expr, $vals:expr) => {{
        let (a, b) = (std::sync::Arc::new($vals), $vals);
        $crate::layout::Fld {
            name: $name, off: 0, len: $len, n: 1,
            set: Some(Box::new(move |d: &mut [u8], _: usize, v: usize| $acc::new(d).unwrap().$field.set(a[v].clone()))),
            get: Some(Box::new(|d: &mut [u8], _: usize| borsh::BorshSerialize::try_to_vec(&$acc::new(d).unwrap().$field.get()).unwrap())),
            vals: b.iter().map(|v| borsh::BorshSerialize::try_to_vec(v).unwrap()).collect(),
        }
    }};
}

#[derive(Clone, Copy, Debug)]
enum Case {
    Size(usize, i64),
    One { l: usize, f: usize, i: usize, v: usize, bg: usize },
    Two { l: usize, f: (usize, usize, usize), g: (usize, usize, usize), bg: usize },
}

use crate::codec::quiet;

pub fn run(c: &mut Check, name: &str, lays: &[Lay], props: &'static [&'static str]) {
    let mut cases = vec![];
    for (l, a) in lays.iter().enumerate() {
        let s = a.size as i64;
        for d in [-s, -s + 1, -s / 2, -8, -4, -2, -1, 0, 1, 2, 4, 8, 32, s] {
            if s + d >= 0 {
                cases.push(Case::Size(l, d));
            }
        }
        if a.total() != a.size {
            continue;
        }
        let mut reps = vec![];
        for (f, x) in a.fields.iter().enumerate() {
            if x.set.is_none() {
                continue;
            }
            for i in 0..x.n {
                for v in 0..x.vals.len() {
                    for bg in 0..4 {
                        cases.push(Case::One { l, f, i, v, bg });
                    }
                }
            }
            let mut at = vec![0, 1, x.n / 2, x.n - 1];
            at.retain(|i| *i < x.n);
            at.sort();
            at.dedup();
            for i in at {
                for v in [0, x.vals.len() - 1] {
                    reps.push((f, i, v));
                }
            }
        }
        for f in &reps {
            for g in &reps {
                for bg in [0, 2] {
                    cases.push(Case::Two { l, f: *f, g: *g, bg });
                }
            }
        }
    }
    let bounds = format!("{} account types; every settable field and element x values x 4 backgrounds; ordered pairs of writes to representative elements; 14 sizes", lays.len());
    c.grid(name, &bounds, &cases, |case, out| {
        let mut bad = |l: &Lay, f: &str, m: String| viol(out, props, format!("{}.{}", l.name, f), format!("{}: {}", l.name, m));
        match *case {
            Case::Size(l, d) => {
                let l = &lays[l];
                let n = (l.size as i64 + d) as usize;
                let ok = quiet(|| (l.open)(&mut vec![0; n])).unwrap_or(false);
                if ok != (d == 0) {
                    bad(l, "size", format!("{} bytes are {} (declared {})", n, if ok { "accepted" } else { "refused" }, l.size));
                }
                if d == 0 && l.total() != l.size {
                    bad(l, "sum", format!("the declared size is {}, the fields take {}", l.size, l.total()));
                }
                (1, ok as u128)
            }
            Case::One { l, f, i, v, bg } => {
                let l = &lays[l];
                let f = &l.fields[f];
                let mut d = l.background(bg);
                let mut want = d.clone();
                let o = f.off + f.len * i;
                want[o..o + f.vals[v].len()].copy_from_slice(&f.vals[v]);
                if quiet(|| (f.set.as_ref().unwrap())(&mut d, i, v)).is_none() {
                    bad(l, f.name, format!("setting {}[{}] panics", f.name, i));
                    return (1, 0);
                }
                if d != want {
                    let at: Vec<usize> = (0..d.len()).filter(|x| d[*x] != want[*x]).take(5).collect();
                    bad(l, f.name, format!("setting {}[{}] (bytes {}..{}) to value {} over background {} leaves wrong bytes at {:?}", f.name, i, o, o + f.len, v, bg, at));
                }
                if let Some(g) = &f.get {
                    if quiet(|| g(&mut want, i)) != Some(f.vals[v].clone()) {
                        bad(l, f.name, format!("reading {}[{}] does not return value {} written over background {}", f.name, i, v, bg));
                    }
                }
                (1, hash_bytes(7, &d))
            }
            Case::Two { l, f, g, bg } => {
                let l = &lays[l];
                let mut d = l.background(bg);
                let (x, y) = (&l.fields[f.0], &l.fields[g.0]);
                if quiet(|| {
                    (x.set.as_ref().unwrap())(&mut d, f.1, f.2);
                    (y.set.as_ref().unwrap())(&mut d, g.1, g.2);
                })
                .is_none()
                {
                    bad(l, x.name, "setting panics".into());
                    return (1, 0);
                }
                let same = (f.0, f.1) == (g.0, g.1);
                for (z, a, hidden) in [(x, f, same), (y, g, false)] {
                    if let (Some(get), false) = (&z.get, hidden) {
                        if quiet(|| get(&mut d, a.1)) != Some(z.vals[a.2].clone()) {
                            bad(l, z.name, format!("{}[{}] does not read back after writing {}[{}] and {}[{}]", z.name, a.1, x.name, f.1, y.name, g.1));
                        }
                    }
                }
                (2, hash_bytes(7, &d))
            }
        }
    });
}
