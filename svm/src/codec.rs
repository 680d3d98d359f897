//! Encodings: every value of a list decodes to itself, truncations are refused, values differ in their encoding.
use crate::*;

type Dec = Box<dyn Fn(&[u8]) -> Option<(Vec<u8>, usize)> + Sync + Send>;
pub struct Codec {
    pub name: &'static str,
    /// declared size; the encodings of all values have exactly this size
    pub size: usize,
    pub fixed: bool,
    /// size that follows from the definition of the type
    pub expected: usize,
    pub vals: Vec<Vec<u8>>,
    /// encoding of the decoded value and number of consumed bytes
    pub dec: Dec,
}
thread_local!(static QUIET: std::cell::Cell<bool> = std::cell::Cell::new(false));
/// the result of `f`, `None` if it panics (without printing anything)
pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    static HOOK: std::sync::Once = std::sync::Once::new();
    HOOK.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if !QUIET.with(|q| q.get()) {
                old(i)
            }
        }));
    });
    let was = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
    QUIET.with(|q| q.set(was));
    r
}

#[macro_export]
macro_rules! codec {
    ($name:literal, $ty:ty, $fixed:literal, $expected:expr, $vals:expr) => {{
        let v: Vec<$ty> = $vals;
        $crate::codec::Codec {
            name: $name,
            size: <$ty as elusiv_types::BorshSerDeSized>::SIZE,
            fixed: $fixed,
            expected: $expected,
            vals: v.iter().map(|x| borsh::BorshSerialize::try_to_vec(x).unwrap()).collect(),
            dec: Box::new(|b: &[u8]| {
                let mut s = b;
                let v = <$ty as borsh::BorshDeserialize>::deserialize(&mut s).ok()?;
                Some((borsh::BorshSerialize::try_to_vec(&v).ok()?, b.len() - s.len()))
            }),
        }
    }};
}
#[derive(Clone, Copy, Debug)]
enum Case {
    Type(usize),
    Value(usize, usize),
}
pub fn run(c: &mut Check, name: &str, list: &[Codec], props: &'static [&'static str]) {
    let mut cases = vec![];
    for (t, x) in list.iter().enumerate() {
        cases.push(Case::Type(t));
        cases.extend((0..x.vals.len()).map(|v| Case::Value(t, v)));
    }
    c.grid(name, &format!("{} types, boundary values of every field and pair of fields, all truncations, following bytes", list.len()), &cases, |case, out| match *case {
        Case::Type(t) => {
            let x = &list[t];
            if x.size != x.expected {
                viol(out, props, format!("{}:size", x.name), format!("{} declares {} bytes instead of {}", x.name, x.size, x.expected));
            }
            let mut seen = std::collections::HashMap::new();
            for (i, v) in x.vals.iter().enumerate() {
                if let Some(j) = seen.insert(v, i) {
                    viol(out, props, format!("{}:distinct", x.name), format!("values {} and {} of {} have the same encoding", j, i, x.name));
                }
            }
            (x.vals.len() as u64, t as u128)
        }
        Case::Value(t, v) => {
            let x = &list[t];
            let e = &x.vals[v];
            if e.len() > x.size || (x.fixed && e.len() != x.size) {
                viol(out, props, format!("{}:len", x.name), format!("value {} of {} takes {} bytes, declared {}", v, x.name, e.len(), x.size));
            }
            for tail in [0usize, 1, 7, 64] {
                for fill in [0u8, 0xff] {
                    let mut b = e.clone();
                    b.resize(e.len() + tail, fill);
                    match quiet(|| (x.dec)(&b)).flatten() {
                        Some((g, n)) if g == *e && n == e.len() => {}
                        r => viol(out, props, format!("{}:decode", x.name), format!("value {} of {} followed by {} bytes decodes to {:?}", v, x.name, tail, r.map(|r| (r.0 == *e, r.1)))),
                    }
                }
            }
            for n in 0..e.len() {
                if let Some(Some(_)) = quiet(|| (x.dec)(&e[..n])) {
                    viol(out, props, format!("{}:truncated", x.name), format!("{} of {} bytes of value {} of {} are accepted", n, e.len(), v, x.name));
                }
            }
            (e.len() as u64 + 8, hash_bytes(7, e))
        }
    });
}

pub type Mods<T> = Vec<Vec<Box<dyn Fn(&mut T)>>>;
/// base value, one field changed, two fields changed
pub fn combos<T: Clone>(base: T, m: Mods<T>) -> Vec<T> {
    let mut v = vec![base.clone()];
    for (i, f) in m.iter().enumerate() {
        for a in f {
            let mut x = base.clone();
            a(&mut x);
            v.push(x.clone());
            for g in &m[i + 1..] {
                for b in g {
                    let mut y = x.clone();
                    b(&mut y);
                    v.push(y);
                }
            }
        }
    }
    v
}
#[macro_export]
macro_rules! vary {
    ($base:expr, $ty:ty; $($($f:ident).+ : $vals:expr),* $(,)?) => {{
        let mods: $crate::codec::Mods<$ty> = vec![$( $vals.into_iter().map(|v| Box::new(move |x: &mut $ty| x.$($f).+ = v.clone()) as Box<dyn Fn(&mut $ty)>).collect() ),*];
        $crate::codec::combos($base, mods)
    }};
}

/// which first bytes are the tag of a variant
pub fn tags(c: &mut Check, name: &str, x: &Codec, variants: usize, props: &'static [&'static str]) {
    let cases: Vec<(u8, u8)> = (0..=255u8).flat_map(|t| [0u8, 1, 0xff].map(|f| (t, f))).collect();
    c.grid(name, &format!("all first bytes of {}, followed by 4096 equal bytes", x.name), &cases, |(t, f), out| {
        let mut b = vec![*f; 4097];
        b[0] = *t;
        match quiet(|| (x.dec)(&b)).flatten() {
            Some(_) if *t as usize >= variants => viol(out, props, format!("{}:unknown-tag", x.name), format!("tag {} of {} is accepted", t, x.name)),
            Some((e, _)) if e.first() != Some(t) => viol(out, props, format!("{}:tag", x.name), format!("tag {} of {} is read as {:?}", t, x.name, e.first())),
            None if (*t as usize) < variants && *f == 0 => viol(out, props, format!("{}:known-tag", x.name), format!("tag {} of {} is refused", t, x.name)),
            r => return (1, hash_bytes(7, &r.map_or(vec![], |r| r.0))),
        }
        (1, 0)
    });
}
