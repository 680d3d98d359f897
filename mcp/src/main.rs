//! Every program of a bounded part of the computation language: run round by round it does what it says (C24, C35).
#[allow(dead_code)]
mod ast;
mod eval;

pub mod pre {
    pub use elusiv_computation::{PartialComputation, RAM};
    pub use elusiv_interpreter::elusiv_computations;
    use std::cell::RefCell;
    pub use ElusivError::PartialComputationError;
    #[derive(Debug, Clone, PartialEq)]
    pub enum ElusivError {
        PartialComputationError,
    }
    pub type Event = (u8, u64, u64, u64);
    thread_local! { pub static LOG: RefCell<Vec<Event>> = RefCell::new(vec![]); }
    fn log(f: u8, a: u64, b: u64, r: u64) {
        LOG.with(|l| l.borrow_mut().push((f, a, b, r)))
    }
    fn h(f: u8, a: u64, b: u64) -> u64 {
        let mut x = (a ^ b.rotate_left(32) ^ (f as u64) << 56).wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(b);
        x ^= x >> 29;
        x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
        x ^ x >> 32
    }
    pub fn mix64(a: u64, b: u64) -> u64 {
        let r = h(1, a, b);
        log(1, a, b, r);
        r
    }
    pub fn mixg<B>(a: u64, b: u64) -> u64 {
        let r = h(10, a, b) ^ std::mem::size_of::<B>() as u64;
        log(10, a, b, r);
        r
    }
    pub fn sums(a: [u64; 3]) -> u64 {
        let r = h(11, a[0], h(11, a[1], a[2]));
        log(11, a[0], a[1], r);
        r
    }
    pub mod konst {
        pub mod deep {
            pub const K: u64 = 0x1234_5678_9abc;
            pub fn mixk(a: u64, b: u64) -> u64 {
                super::super::mix64(a, b ^ K)
            }
        }
    }
    pub fn mix32(a: u32, b: u32) -> u32 {
        let r = h(2, a as u64, b as u64) as u32;
        log(2, a as u64, b as u64, r as u64);
        r
    }
    pub fn mixi(a: u64, b: usize) -> u64 {
        let r = h(3, a, b as u64);
        log(3, a, b as u64, r);
        r
    }
    pub fn note64(a: u64, b: u64) -> u64 {
        log(4, a, b, b);
        b
    }
    pub fn note32(a: u64, b: u32) -> u32 {
        log(5, a, b as u64, b as u64);
        b
    }
    pub fn to64(a: u64) -> u64 {
        a
    }
    pub fn to32(a: u64) -> u32 {
        a as u32
    }
    pub fn some(a: u64) -> Option<u64> {
        log(6, a, 0, 0);
        if a == 7 {
            None
        } else {
            Some(a)
        }
    }
    pub const CELLS: usize = 48;
    #[derive(Clone, PartialEq)]
    pub struct Mem<N> {
        pub cells: Vec<N>,
        pub frame: usize,
    }
    impl<N: Copy> RAM<N> for Mem<N> {
        fn write(&mut self, value: N, index: usize) {
            let i = self.frame + index;
            self.cells[i] = value
        }
        fn read(&mut self, index: usize) -> N {
            self.cells[self.frame + index]
        }
        fn set_frame(&mut self, frame: usize) {
            self.frame = frame
        }
        fn get_frame(&mut self) -> usize {
            self.frame
        }
    }
    #[derive(Clone, PartialEq)]
    pub struct St {
        pub ram_u64: Mem<u64>,
        pub ram_u32: Mem<u32>,
    }
    impl St {
        pub fn new(fill: u64) -> St {
            St { ram_u64: Mem { cells: (0..CELLS as u64).map(|i| h(9, fill, i)).collect(), frame: 0 }, ram_u32: Mem { cells: (0..CELLS as u64).map(|i| h(8, fill, i) as u32).collect(), frame: 0 } }
        }
    }
    pub struct Meta {
        pub rounds: usize,
        pub total: u32,
        pub units: u32,
        pub instructions: Vec<u8>,
        pub run: fn(usize, &mut St, u64, u64, &u64) -> Result<Option<u64>, ElusivError>,
    }
    pub fn mk<const N: usize, C: PartialComputation<N>>(rounds: usize, run: fn(usize, &mut St, u64, u64, &u64) -> Result<Option<u64>, ElusivError>, _: std::marker::PhantomData<C>) -> Meta {
        Meta { rounds, total: C::TOTAL_ROUNDS, units: C::TOTAL_COMPUTE_UNITS, instructions: C::INSTRUCTION_ROUNDS.to_vec(), run }
    }
}
include!(concat!(env!("OUT_DIR"), "/programs.rs"));

use pre::*;
use svm::codec::quiet;
use svm::*;

const P: &[&str] = &["C24", "C35"];

fn check(p: &ast::Prog, m: &Meta, out: &mut Vec<Viol>) -> (u64, u128) {
    let src = || p.source().replace('\n', " ");
    let mut steps = 0;
    let mut v = |props: &'static [&'static str], key: &str, msg: String| viol(out, props, key, msg);
    let costs = eval::costs(p);
    let n = costs.len();
    // what is advertised
    if m.rounds != n || m.total as usize != n || m.instructions.iter().map(|x| *x as usize).sum::<usize>() != n {
        v(P, "program:rounds", format!("{} rounds are needed, {}, {} and {:?} are advertised: {}", n, m.rounds, m.total, m.instructions, src()));
        return (0, 0);
    }
    if m.units as usize != costs.iter().sum::<usize>() {
        v(&["C35"], "program:units", format!("costs {:?}, advertised {}: {}", costs, m.units, src()));
    }
    let mut at = 0;
    for k in &m.instructions {
        let c: usize = costs[at..at + *k as usize].iter().sum();
        at += *k as usize;
        if *k == 0 || c > p.budget as usize - 10_000 {
            v(&["C35"], "program:instruction", format!("an instruction of {} rounds costs {} of {}: {}", k, c, p.budget, src()));
        }
    }
    let mut digest = 0u128;
    for (x, y) in [(0u64, 2u64), (5, 4), (7, 9), (u64::MAX, 3), (1 << 40, 6)] {
        let z = x.wrapping_mul(3).wrapping_add(1);
        let want = eval::run(p, x, y, z);
        for mode in 0..3u64 {
            // what is left in the memory by others does not matter
            let mut st = St::new(mode);
            for round in 0..n {
                // a transaction ends here
                if mode > 0 && st.ram_u64.frame + st.ram_u32.frame != 0 {
                    v(P, "program:frame", format!("the memory is left at {} and {} before round {}: {}", st.ram_u64.frame, st.ram_u32.frame, round, src()));
                    return (steps, digest);
                }
                LOG.with(|l| l.borrow_mut().clear());
                steps += 1;
                let r = quiet(|| (m.run)(round, &mut st, x, y, &z));
                let log = LOG.with(|l| l.borrow().clone());
                let w = &want[round];
                let Some(r) = r else {
                    v(P, "program:panic", format!("round {} of {} panics: {}", round, n, src()));
                    return (steps, digest);
                };
                if log != w.log || r != w.result {
                    v(P, "program:round", format!("round {} of {} with x={} y={} does {:?} -> {:?} instead of {:?} -> {:?}: {}", round, n, x, y, log, r, w.log, w.result, src()));
                    return (steps, digest);
                }
                digest = digest.rotate_left(7) ^ log.len() as u128 ^ (x as u128) << 64;
                if r.is_err() {
                    break;
                }
            }
            if want.last().unwrap().result.is_ok() && want.len() == n {
                // further rounds do nothing
                let before = st.clone();
                for round in [n, n + 1, 255, 65_535] {
                    let r = (m.run)(round, &mut st, x, y, &z);
                    if r != Ok(None) || st != before {
                        v(P, "program:extra", format!("round {} of {} does something: {}", round, n, src()));
                    }
                }
            }
        }
    }
    (steps, digest)
}

struct Case(usize, ast::Prog);
impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.1.source().replace('\n', " "))
    }
}

fn main() {
    svm::init();
    let mut c = Check::from_args();
    let ps = ast::programs();
    assert_eq!(ps.len(), METAS.len());
    let mut families: Vec<&'static str> = vec![];
    for p in &ps {
        if !families.contains(&p.family) {
            families.push(p.family);
        }
    }
    for f in families {
        let name: &'static str = Box::leak(format!("programs-{}", f).into_boxed_str());
        if !c.wants(name, P) {
            continue;
        }
        let cases: Vec<Case> = ps.iter().cloned().enumerate().filter(|p| p.1.family == f).map(|p| Case(p.0, p.1)).collect();
        let bounds = format!("{} programs of the computation language ({}), 5 inputs each, run in one go, cut after every round, over two memory contents", cases.len(), f);
        c.grid(name, &bounds, &cases, |c, out| check(&c.1, &METAS[c.0](), out));
    }
    c.finish()
}
