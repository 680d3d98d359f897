//! Direct evaluation of the programs.
use crate::ast::*;
use crate::pre::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Round {
    pub log: Vec<Event>,
    pub result: Result<Option<u64>, ElusivError>,
}
struct Failed;
struct Run<'a> {
    p: &'a Prog,
    z: u64,
    rounds: Vec<Round>,
}
type Env = HashMap<String, u64>;

fn fun<'a>(p: &'a Prog, name: &str) -> &'a Fun {
    p.funs.iter().find(|f| f.name == name).unwrap()
}
/// rounds of a sequence; 0: belongs to the round around it
fn len(p: &Prog, s: &[S]) -> usize {
    let one = |s: &S| match s {
        S::If(_, t, f) => (len(p, t).max(f.as_ref().map_or(0, |f| len(p, f))), false),
        S::Cu(_, s) => (len(p, s).max(1), true),
        S::For(_, _, a, s) => (a.len() * len(p, s).max(1), true),
        S::Part(_, f, _, _) => (all(p, f), true),
        _ => (0, false),
    };
    s.iter().map(|s| one(s).0).sum()
}
fn all(p: &Prog, f: &str) -> usize {
    fun(p, f).scopes.iter().map(|s| len(p, &s.1).max(1)).sum()
}
/// costs of each round
pub fn costs(p: &Prog) -> Vec<usize> {
    costs_of(p, "main")
}
fn costs_of(p: &Prog, f: &str) -> Vec<usize> {
    fun(p, f)
        .scopes
        .iter()
        .flat_map(|(h, s)| match h {
            Some(h) => head(p, h, &HashMap::new()),
            None => costs_in(p, s, &HashMap::new()),
        })
        .collect()
}
fn head(p: &Prog, h: &str, vars: &HashMap<String, u64>) -> Vec<usize> {
    let w: Vec<&str> = h.split(' ').collect();
    if w.len() > 1 {
        // `v in { a : x , _ : y }`
        let val = vars[w[0]];
        for m in w[3..w.len() - 1].split(|x| *x == ",") {
            if m[0] == "_" || m[0].parse() == Ok(val) {
                return head(p, m[2], vars);
            }
        }
        unreachable!()
    }
    if let Ok(n) = h.parse() {
        return vec![n];
    }
    match h.strip_suffix("_zero") {
        Some(f) => vec![0; all(p, f)],
        None => costs_of(p, h),
    }
}
fn costs_in(p: &Prog, s: &[S], vars: &HashMap<String, u64>) -> Vec<usize> {
    s.iter()
        .flat_map(|s| match s {
            S::Cu(h, _) => head(p, h, vars),
            S::Part(_, f, _, _) => costs_of(p, f),
            S::For(i, k, a, s) => a
                .iter()
                .enumerate()
                .flat_map(|(n, x)| {
                    let mut v = vars.clone();
                    v.insert(i.clone(), n as u64);
                    v.insert(k.clone(), *x);
                    costs_in(p, s, &v)
                })
                .collect(),
            _ => unreachable!(),
        })
        .collect()
}

pub fn run(p: &Prog, x: u64, y: u64, z: u64) -> Vec<Round> {
    let mut r = Run { p, z, rounds: vec![] };
    let _ = r.call("main", [("x".to_string(), x), ("y".to_string(), y)].into_iter().collect()).map(|v| {
        r.rounds.last_mut().unwrap().result = Ok(v);
    });
    r.rounds
}
impl<'a> Run<'a> {
    fn round(&mut self) {
        self.rounds.push(Round { log: vec![], result: Ok(None) });
    }
    fn call(&mut self, f: &str, mut env: Env) -> Result<Option<u64>, Failed> {
        let mut ret = None;
        for (_, s) in &fun(self.p, f).scopes {
            if len(self.p, s) == 0 {
                self.round();
            }
            self.seq(s, &mut env, &mut ret)?;
        }
        Ok(ret)
    }
    fn seq(&mut self, s: &[S], env: &mut Env, ret: &mut Option<u64>) -> Result<(), Failed> {
        for s in s {
            match s {
                S::Let(n, _, _, e) | S::Asg(n, e) => {
                    let x = self.eval(e, env)?;
                    env.insert(n.clone(), x);
                }
                S::Ret(e) => *ret = Some(self.eval(e, env)?),
                S::If(c, t, f) => {
                    let n = len(self.p, std::slice::from_ref(s));
                    let at = self.rounds.len();
                    let none = vec![];
                    let b = if self.cond(c, env)? { t } else { f.as_ref().unwrap_or(&none) };
                    if n > 0 && len(self.p, b) == 0 {
                        self.round();
                    }
                    self.seq(b, env, ret)?;
                    while n > 0 && self.rounds.len() < at + n {
                        self.round();
                    }
                }
                S::Cu(_, b) => {
                    if len(self.p, b) == 0 {
                        self.round();
                    }
                    self.seq(b, env, ret)?;
                }
                S::For(i, k, a, b) => {
                    for (n, x) in a.iter().enumerate() {
                        env.insert(i.clone(), n as u64);
                        env.insert(k.clone(), *x);
                        self.seq(b, env, ret)?;
                    }
                }
                S::Part(r, f, a, b) => {
                    let x = self.eval(&a[1], env)?;
                    let p = fun(self.p, f).params[0].0.clone();
                    let v = self.call(f, [(p, x)].into_iter().collect())?;
                    env.insert(r.clone(), v.unwrap());
                    self.seq(b, env, ret)?;
                }
            }
        }
        Ok(())
    }
    fn cond(&mut self, e: &E, env: &Env) -> Result<bool, Failed> {
        Ok(match e {
            E::Not(x) => !self.cond(x, env)?,
            E::Bin(op, a, b) => {
                let (a, b) = (self.eval(a, env)?, self.eval(b, env)?);
                match op {
                    '>' => a > b,
                    '<' => a < b,
                    _ => a == b,
                }
            }
            _ => unreachable!(),
        })
    }
    fn eval(&mut self, e: &E, env: &Env) -> Result<u64, Failed> {
        Ok(match e {
            E::Lit(n) => *n,
            E::V(n) if n == "konst::deep::K" => konst::deep::K,
            E::V(n) => env[n],
            E::Deref(_) => self.z,
            E::Par(x) => self.eval(x, env)?,
            E::Method(n, _, a) => env[n].wrapping_add(self.eval(&a[0], env)?),
            E::Bin(op, a, b) => {
                let (a, b) = (self.eval(a, env)?, self.eval(b, env)?);
                match op {
                    '+' => a.wrapping_add(b),
                    '-' => a.wrapping_sub(b),
                    _ => a.wrapping_mul(b),
                }
            }
            E::Unwrap(x) => {
                let x = self.eval(x, env)?;
                if x == 7 {
                    self.rounds.last_mut().unwrap().result = Err(PartialComputationError);
                    return Err(Failed);
                }
                x
            }
            E::Not(_) => unreachable!(),
            E::Call(f, a) | E::Arr(f, a) => {
                let a: Vec<u64> = a.iter().map(|x| self.eval(x, env)).collect::<Result<_, _>>()?;
                // logs on its own
                let before = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
                let r = match f.as_str() {
                    "mix64" => mix64(a[0], a[1]),
                    "mixg::<u64>" => mixg::<u64>(a[0], a[1]),
                    "konst::deep::mixk" => konst::deep::mixk(a[0], a[1]),
                    "sums" => sums([a[0], a[1], a[2]]),
                    "mix32" => mix32(a[0] as u32, a[1] as u32) as u64,
                    "mixi" => mixi(a[0], a[1] as usize),
                    "note64" => note64(a[0], a[1]),
                    "note32" => note32(a[0], a[1] as u32) as u64,
                    "to64" => to64(a[0]),
                    "to32" => to32(a[0]) as u64,
                    "some" => some(a[0]).unwrap_or(7),
                    _ => unreachable!(),
                };
                let new = LOG.with(|l| std::mem::replace(&mut *l.borrow_mut(), before));
                self.rounds.last_mut().unwrap().log.extend(new);
                r
            }
        })
    }
}
