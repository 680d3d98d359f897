// Programs of the computation language: syntax, enumeration, source text. Shared by build.rs (which emits the
// macro invocations) and by the checker (which evaluates the same programs directly).
#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Lit(u64),
    V(String),
    /// `*v` of a reference parameter
    Deref(String),
    Bin(char, Box<E>, Box<E>),
    Not(Box<E>),
    /// parenthesised although the precedence does not ask for it
    Par(Box<E>),
    Call(String, Vec<E>),
    /// call with an array
    Arr(String, Vec<E>),
    /// method call on a variable
    Method(String, String, Vec<E>),
    Unwrap(Box<E>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    U64,
    U32,
}
#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Let(String, Ty, bool, E),
    Asg(String, E),
    Ret(E),
    If(E, Vec<S>, Option<Vec<S>>),
    /// one step (or the steps of the only statement in it), with its costs
    Cu(String, Vec<S>),
    For(String, String, Vec<u64>, Vec<S>),
    Part(String, String, Vec<E>, Vec<S>),
}
#[derive(Clone, Debug)]
pub struct Fun {
    pub name: String,
    pub params: Vec<(String, Ty)>,
    pub ret: Ty,
    /// costs of the whole scope, statements
    pub scopes: Vec<(Option<String>, Vec<S>)>,
}
#[derive(Clone, Debug)]
pub struct Prog {
    pub family: &'static str,
    pub budget: u32,
    /// statements that end in a block are separated by semicolons
    pub semis: bool,
    pub funs: Vec<Fun>,
}

pub fn v(s: &str) -> E {
    E::V(s.to_string())
}
pub fn call(f: &str, a: Vec<E>) -> E {
    E::Call(f.to_string(), a)
}
fn asg(x: &str, e: E) -> S {
    S::Asg(x.to_string(), e)
}
fn let64(x: &str, m: bool, e: E) -> S {
    S::Let(x.to_string(), Ty::U64, m, e)
}
fn cu(n: usize, s: Vec<S>) -> S {
    S::Cu(n.to_string(), s)
}
fn part(r: &str, f: &str, a: Vec<E>, s: Vec<S>) -> S {
    S::Part(r.to_string(), f.to_string(), a, s)
}
fn bin(op: char, a: E, b: E) -> E {
    E::Bin(op, Box::new(a), Box::new(b))
}

// ---- source text ----
fn prec(op: char) -> u8 {
    match op {
        '*' => 3,
        '+' | '-' => 2,
        _ => 1,
    }
}
pub fn text(e: &E) -> String {
    match e {
        E::Lit(n) => n.to_string(),
        E::V(x) => x.clone(),
        E::Deref(x) => format!("*{}", x),
        E::Not(x) => format!("!({})", text(x)),
        E::Par(x) => format!("({})", text(x)),
        E::Call(f, a) => format!("{}({})", f, a.iter().map(text).collect::<Vec<_>>().join(", ")),
        E::Arr(f, a) => format!("{}([{}])", f, a.iter().map(text).collect::<Vec<_>>().join(", ")),
        E::Method(x, f, a) => format!("{}.{}({})", x, f, a.iter().map(text).collect::<Vec<_>>().join(", ")),
        E::Unwrap(x) => format!("unwrap {}", text(x)),
        E::Bin(op, a, b) => {
            let side = |x: &E, right: bool| match x {
                E::Bin(o, _, _) if prec(*o) < prec(*op) || (right && prec(*o) == prec(*op)) => format!("({})", text(x)),
                _ => text(x),
            };
            format!("{} {} {}", side(a, false), op, side(b, true))
        }
    }
}
fn ty(t: Ty) -> &'static str {
    match t {
        Ty::U64 => "u64",
        Ty::U32 => "u32",
    }
}
fn stmts(s: &[S], semis: bool) -> String {
    let mut o = String::new();
    for x in s {
        let (t, block) = match x {
            S::Let(n, t, m, e) => (format!("let {}{}: {} = {}", if *m { "mut " } else { "" }, n, ty(*t), text(e)), false),
            S::Asg(n, e) => (format!("{} = {}", n, text(e)), false),
            S::Ret(e) => (format!("return {}", text(e)), false),
            S::If(c, t, f) => {
                let mut o = format!("if ({}) {{ {} }}", text(c), stmts(t, semis));
                if let Some(f) = f {
                    o += &format!(" else {{ {} }}", stmts(f, semis));
                }
                (o, true)
            }
            S::Cu(c, s) => (format!("{{ /// {}\n {} }}", c, stmts(s, semis)), true),
            S::For(i, x, a, s) => {
                let a: Vec<String> = a.iter().map(|x| x.to_string()).collect();
                (format!("for {}, {} in [{}] {{ {} }}", i, x, a.join(","), stmts(s, semis)), true)
            }
            S::Part(r, f, a, s) => (format!("partial {} = {}({}) {{ {} }}", r, f, a.iter().map(text).collect::<Vec<_>>().join(", "), stmts(s, semis)), false),
        };
        o += &t;
        if !block || (semis && s.len() > 1) {
            o += "; ";
        } else {
            o += " ";
        }
    }
    o
}
impl Prog {
    pub fn source(&self) -> String {
        let mut o = format!("main, MainC, {},\n", self.budget);
        for (i, f) in self.funs.iter().enumerate() {
            let ps: Vec<String> = f.params.iter().map(|(n, t)| format!(", {}: {}", n, if n == "r" { "&u64" } else { ty(*t) })).collect();
            o += &format!("{}(storage: &mut St{}) -> {} {{\n", f.name, ps.join(""), ty(f.ret));
            for (h, s) in &f.scopes {
                o += "{ ";
                if let Some(h) = h {
                    o += &format!("/// {}\n", h);
                }
                o += &stmts(s, self.semis);
                o += "}\n";
            }
            o += if i + 1 < self.funs.len() { "},\n" } else { "}\n" };
        }
        o
    }
}

// ---- enumeration ----
fn main_fn(scopes: Vec<(Option<String>, Vec<S>)>) -> Fun {
    Fun { name: "main".into(), params: ["x", "y", "r"].map(|n| (n.to_string(), Ty::U64)).to_vec(), ret: Ty::U64, scopes }
}
fn fun(name: &str, scopes: Vec<(Option<String>, Vec<S>)>) -> Fun {
    Fun { name: name.into(), params: vec![("p".into(), Ty::U64)], ret: Ty::U64, scopes }
}
fn step(n: usize, s: Vec<S>) -> (Option<String>, Vec<S>) {
    (Some(n.to_string()), s)
}
fn steps(s: Vec<S>) -> (Option<String>, Vec<S>) {
    (None, s)
}
/// one step; two steps with a stored value; nested calls, a loop and both types
fn helpers() -> Vec<Fun> {
    let m = |a: E, n: u64| call("mix64", vec![a, E::Lit(n)]);
    vec![
        fun("f", vec![step(11, vec![S::Ret(m(v("p"), 1))])]),
        fun("g", vec![step(12, vec![let64("ga", false, m(v("p"), 2))]), step(13, vec![S::Ret(m(v("ga"), 3))])]),
        fun(
            "h",
            vec![
                step(14, vec![let64("ha", false, m(v("p"), 4)), S::Let("hb".into(), Ty::U32, false, call("to32", vec![v("p")])), let64("hc", false, m(v("p"), 5))]),
                steps(vec![part("w", "g", vec![v("storage"), v("ha")], vec![asg("ha", call("mix64", vec![v("ha"), v("w")]))])]),
                steps(vec![S::For("i".into(), "k".into(), vec![1, 2], vec![part("w", "f", vec![v("storage"), v("hc")], vec![asg("hc", call("mix64", vec![v("hc"), v("w")]))])])]),
                step(15, vec![asg("_", call("note32", vec![E::Lit(6), v("hb")])), S::Ret(call("mix64", vec![v("ha"), v("hc")]))]),
            ],
        ),
    ]
}
/// when a variable is declared, used and changed
#[derive(Clone, Debug)]
pub struct Life {
    decl: usize,
    used: Vec<bool>,
    set: Vec<bool>,
}
fn lives(scopes: usize, sets: bool) -> Vec<Life> {
    let mut out = vec![];
    for decl in 0..scopes - 1 {
        let n = scopes - 1 - decl;
        for u in 1..(1usize << n) {
            for a in 0..(1usize << n) {
                if a & !u != 0 || (!sets && a != 0) {
                    continue;
                }
                let at = |m: usize, s: usize| s > decl && m >> (s - decl - 1) & 1 == 1;
                out.push(Life { decl, used: (0..scopes).map(|s| at(u, s)).collect(), set: (0..scopes).map(|s| at(a, s)).collect() });
            }
        }
    }
    out
}
/// straight-line program with the given lifetimes; `call_at`: the step that also calls another computation
fn lifetimes(scopes: usize, vars: &[(Life, Ty)], set_at_decl: bool, call_at: Option<(usize, &str)>, family: &'static str) -> Prog {
    let mut sc = vec![];
    for s in 0..scopes {
        let mut b = vec![];
        for (k, (l, t)) in vars.iter().enumerate() {
            let n = format!("a{}", k);
            let (note, mix, to) = match t {
                Ty::U64 => ("note64", "mix64", "to64"),
                Ty::U32 => ("note32", "mix32", "to32"),
            };
            let id = E::Lit((10 * s + k) as u64);
            if l.decl == s {
                b.push(S::Let(n.clone(), *t, set_at_decl, call(to, vec![call("mix64", vec![v("x"), id.clone()])])));
                if set_at_decl {
                    b.push(asg(&n, call(mix, vec![v(&n), E::Lit(7)])));
                }
            }
            if l.used[s] {
                b.push(asg("_", call(note, vec![id.clone(), v(&n)])));
            }
            if l.set[s] {
                b.push(asg(&n, call(mix, vec![v(&n), id])));
            }
        }
        let last = s + 1 == scopes;
        if let Some((at, f)) = call_at {
            if at == s {
                // the values are used where the result arrives
                sc.push(steps(vec![part("w", f, vec![v("storage"), v("y")], {
                    let mut b = b;
                    b.push(asg("_", call("note64", vec![E::Lit(99), v("w")])));
                    b
                })]));
                continue;
            }
        }
        if last {
            b.push(S::Ret(call("mix64", vec![v("x"), v("y")])));
        } else if b.is_empty() {
            b.push(asg("_", call("note64", vec![E::Lit(s as u64), v("x")])));
        }
        sc.push(step(10 + s, b));
    }
    let mut funs = helpers();
    funs.push(main_fn(sc));
    Prog { family, budget: 10_000 + 25, semis: false, funs }
}
/// statements of one step, on the variables a (changed) and b (only read)
fn plain(inner: bool) -> Vec<Vec<S>> {
    let upd = |n: u64| asg("a", call("mix64", vec![v("a"), E::Lit(n)]));
    let updb = asg("a", call("mix64", vec![v("a"), v("b")]));
    let cb = bin('>', v("b"), E::Lit(3));
    let mut o = vec![
        vec![upd(20)],
        vec![upd(21), updb.clone()],
        vec![S::If(cb.clone(), vec![upd(22)], None)],
        vec![S::If(bin('=', v("b"), E::Lit(2)), vec![upd(23)], Some(vec![upd(24), updb.clone()]))],
        vec![S::If(cb.clone(), vec![upd(25)], None), upd(26)],
        vec![let64("t", false, call("mix64", vec![v("b"), E::Lit(27)])), asg("a", call("mix64", vec![v("a"), v("t")]))],
        vec![S::If(cb.clone(), vec![S::If(bin('<', v("b"), E::Lit(6)), vec![upd(28)], Some(vec![upd(29)]))], Some(vec![upd(30)]))],
    ];
    if inner {
        o.extend([
            vec![asg("a", call("mixi", vec![v("a"), v("i")]))],
            vec![asg("a", call("mix64", vec![v("a"), v("k")]))],
            vec![S::If(bin('>', v("i"), E::Lit(0)), vec![upd(31)], None)],
            vec![S::If(bin('>', v("k"), E::Lit(0)), vec![S::If(bin('=', v("k"), E::Lit(1)), vec![upd(32)], Some(vec![upd(33)]))], None)],
        ]);
    }
    o
}
/// blocks: one or more steps
fn blocks(inner: bool, small: bool) -> Vec<S> {
    let mut o = vec![];
    let pl = plain(inner);
    for (n, p) in pl.iter().enumerate() {
        if small && ![0usize, 2, 5, 7, 9].contains(&n) {
            continue;
        }
        o.push(cu(21 + n % 5, p.clone()));
    }
    let take = |r: &str| vec![asg("a", call("mix64", vec![v("a"), v(r)]))];
    let arg = || vec![v("storage"), v("a")];
    for f in ["f", "g", "h"] {
        o.push(part("w", f, arg(), take("w")));
        if !small {
            // two statements, a condition, no use of the result
            o.push(part("w", f, vec![v("storage"), v("b")], vec![asg("a", call("mix64", vec![v("a"), v("w")])), S::If(bin('>', v("b"), E::Lit(3)), take("b"), None)]));
            o.push(part("w", f, vec![v("storage"), v("y")], vec![asg("_", call("note64", vec![E::Lit(40), v("w")]))]));
        }
    }
    let mut conds = vec![bin('>', v("b"), E::Lit(3))];
    if !small {
        conds.push(E::Not(Box::new(bin('>', v("b"), E::Lit(3)))));
    }
    if inner {
        conds.push(bin('>', v("k"), E::Lit(0)));
        if !small {
            conds.push(bin('>', v("i"), E::Lit(0)));
        }
    }
    for c in conds {
        for (t, f, cost) in [("g", None, "g"), ("f", Some("g"), "g"), ("g", Some("f"), "g"), ("h", Some("g"), "h"), ("h", None, "h"), ("g", Some("g"), "g")] {
            if small && (t == "h" || f == Some("f")) {
                continue;
            }
            let p = |n: &str| vec![part("w", n, arg(), take("w"))];
            // a branch without steps of its own
            o.push(S::Cu(cost.into(), vec![S::If(c.clone(), p(t), f.map(p))]));
        }
        if !small {
            o.push(S::Cu("g".into(), vec![S::If(c.clone(), vec![part("w", "g", arg(), take("w"))], Some(vec![asg("a", call("mix64", vec![v("a"), E::Lit(41)]))]))]));
            o.push(S::Cu("g".into(), vec![S::If(c.clone(), vec![asg("a", call("mix64", vec![v("a"), E::Lit(42)]))], Some(vec![part("w", "g", arg(), take("w"))]))]));
        }
    }
    if inner && !small {
        // costs by value
        o.push(S::Cu("k in { 0 : g_zero , _ : g }".into(), vec![S::If(bin('>', v("k"), E::Lit(0)), vec![part("w", "g", arg(), take("w"))], None)]));
        o.push(S::Cu("i in { 0 : 0 , _ : 17 }".into(), vec![S::If(bin('>', v("i"), E::Lit(0)), vec![asg("a", call("mixi", vec![v("a"), v("i")]))], None)]));
    }
    o
}
/// names are not declared twice
fn fresh(s: &[S], n: &mut usize) -> Vec<S> {
    fn sub(e: &E, n: usize) -> E {
        match e {
            E::V(x) if x == "t" => v(&format!("t{}", n)),
            E::Call(f, a) => E::Call(f.clone(), a.iter().map(|x| sub(x, n)).collect()),
            o => o.clone(),
        }
    }
    s.iter()
        .map(|x| match x {
            S::Let(x, t, m, e) if x == "t" => {
                *n += 1;
                S::Let(format!("t{}", n), *t, *m, e.clone())
            }
            S::Asg(x, e) => S::Asg(x.clone(), sub(e, *n)),
            S::If(c, t, f) => S::If(c.clone(), fresh(t, n), f.as_ref().map(|f| fresh(f, n))),
            S::Cu(c, s) => S::Cu(c.clone(), fresh(s, n)),
            S::For(i, k, a, s) => S::For(i.clone(), k.clone(), a.clone(), fresh(s, n)),
            S::Part(r, f, a, s) => S::Part(r.clone(), f.clone(), a.clone(), fresh(s, n)),
            o => o.clone(),
        })
        .collect()
}
/// the same with another variable in front of the others, that is no longer needed before or within the body
fn control(body: Vec<Vec<S>>, semis: bool, family: &'static str) -> Vec<Prog> {
    (0..3).filter(|o| *o < 2 || body.len() == 1).map(|o| placed(&body, semis, family, o)).collect()
}
fn placed(body: &[Vec<S>], semis: bool, family: &'static str, other: usize) -> Prog {
    let n = &mut 0;
    let body: Vec<Vec<S>> = body.iter().map(|s| fresh(s, n)).collect();
    let mut sc = vec![step(
        10,
        vec![
            let64("a", false, call("mix64", vec![v("x"), E::Lit(50)])),
            S::Let("c".into(), Ty::U32, false, call("to32", vec![v("x")])),
            let64("b", false, v("y")),
            let64("d", false, call("mix64", vec![v("y"), E::Lit(51)])),
        ],
    )];
    for b in body {
        sc.push(steps(b));
    }
    let last = || asg("_", call("note64", vec![E::Lit(63), v("z")]));
    if other > 0 {
        sc[0].1.insert(0, let64("z", false, call("mix64", vec![v("y"), E::Lit(52)])));
    }
    match other {
        1 => sc.insert(1, step(17, vec![last()])),
        2 => sc[1].1.push(cu(17, vec![last()])),
        _ => (),
    }
    sc.push(step(
        16,
        vec![
            asg("_", call("note64", vec![E::Lit(60), v("d")])),
            asg("_", call("note32", vec![E::Lit(61), v("c")])),
            asg("_", call("note64", vec![E::Lit(62), v("b")])),
            S::Ret(v("a")),
        ],
    ));
    let mut funs = helpers();
    funs.push(main_fn(sc));
    Prog { family, budget: 10_000 + 60, semis, funs }
}
fn each(e: &E, n: &mut usize, f: &dyn Fn(usize) -> E) -> E {
    match e {
        E::Bin(o, a, b) => {
            let a = each(a, n, f);
            let b = each(b, n, f);
            bin(*o, a, b)
        }
        _ => {
            *n += 1;
            f(*n - 1)
        }
    }
}
fn trees(n: usize) -> Vec<E> {
    if n == 0 {
        return vec![E::Lit(0)];
    }
    let mut o = vec![];
    for l in 0..n {
        for a in trees(l) {
            for b in trees(n - 1 - l) {
                for op in ['+', '-', '*'] {
                    o.push(bin(op, a.clone(), b.clone()));
                }
            }
        }
    }
    o
}
fn expressions() -> Vec<E> {
    let leaf = |i: usize| [v("x"), v("y"), E::Lit(3), v("x")][i % 4].clone();
    let special = |k: usize| match k {
        0 => E::Deref("r".into()),
        1 => call("mix64", vec![v("y"), v("x")]),
        2 => E::Method("x".into(), "wrapping_add".into(), vec![v("y")]),
        3 => E::Par(Box::new(v("y"))),
        4 => call("mixg::<u64>", vec![v("y"), bin('-', v("x"), E::Lit(1))]),
        5 => E::Arr("sums".into(), vec![v("y"), bin('*', v("x"), E::Lit(3)), v("x")]),
        6 => E::V("konst::deep::K".into()),
        7 => call("konst::deep::mixk", vec![E::Deref("r".into()), v("x")]),
        _ => call("mix64", vec![bin('-', v("x"), v("y")), bin('*', E::Lit(2), v("x"))]),
    };
    let mut o = vec![];
    for n in 1..=3 {
        for t in trees(n) {
            o.push(each(&t, &mut 0, &leaf));
            for at in 0..=n {
                for k in 0..9 {
                    if n == 3 && k > 1 {
                        continue;
                    }
                    o.push(each(&t, &mut 0, &|i| if i == at { special(k) } else { leaf(i) }));
                }
            }
            // dereferenced everywhere
            o.push(each(&t, &mut 0, &|i| if i % 2 == 0 { E::Deref("r".into()) } else { leaf(i) }));
            o.push(each(&t, &mut 0, &|_| E::Deref("r".into())));
        }
    }
    o
}

pub fn programs() -> Vec<Prog> {
    let mut out = vec![];
    use Ty::*;
    // storage: two variables of the same or of different types, used and changed at all possible steps
    let l2 = lives(4, true);
    for (i, a) in l2.iter().enumerate() {
        for b in &l2[i..] {
            for t in [U64, U32] {
                out.push(lifetimes(4, &[(a.clone(), U64), (b.clone(), t)], false, None, "variables-2"));
            }
        }
    }
    // three variables, with and without changes of the first
    let l3 = lives(4, false);
    for (i, a) in l3.iter().enumerate() {
        for (j, b) in l3.iter().enumerate().skip(i) {
            for c in &l3[j..] {
                out.push(lifetimes(4, &[(a.clone(), U64), (b.clone(), U64), (c.clone(), U64)], (i + j) % 2 == 1, None, "variables-3"));
            }
        }
    }
    // a call of another computation at any step but the last
    for (i, a) in l2.iter().enumerate() {
        for (j, b) in l2.iter().enumerate().skip(i) {
            for at in 0..3 {
                for f in ["g", "h"] {
                    // declared variables are not written at a step that calls (they live in its last round only)
                    if a.decl == at || b.decl == at || (i + j + at + (f == "h") as usize) % 3 != 0 {
                        continue;
                    }
                    out.push(lifetimes(4, &[(a.clone(), U64), (b.clone(), U64)], false, Some((at, f)), "variables-call"));
                }
            }
        }
    }
    // control flow
    for b in blocks(false, false) {
        out.extend(control(vec![vec![b]], false, "control"));
    }
    let small = blocks(false, true);
    for (i, a) in small.iter().enumerate() {
        for (j, b) in small.iter().enumerate() {
            out.extend(control(vec![vec![a.clone(), b.clone()]], (i + j) % 2 == 1, "control"));
            if (i + j) % 2 == 0 {
                out.extend(control(vec![vec![a.clone()], vec![b.clone()]], false, "control"));
            }
        }
    }
    let lp = |arr: &[u64], s: Vec<S>| S::For("i".into(), "k".into(), arr.to_vec(), s);
    for b in blocks(true, false) {
        for arr in [&[1u64, 0, 2][..], &[0]] {
            out.extend(control(vec![vec![lp(arr, vec![b.clone()])]], false, "loops"));
        }
    }
    let small = blocks(true, true);
    for (i, a) in small.iter().enumerate() {
        for (j, b) in small.iter().enumerate() {
            out.extend(control(vec![vec![lp(&[1, 0, 2], vec![a.clone(), b.clone()])]], (i + j) % 2 == 1, "loops"));
            if (i + 2 * j) % 7 == 0 {
                for c in &small[..] {
                    out.extend(control(vec![vec![lp(&[0, 2], vec![a.clone(), b.clone(), c.clone()])]], (i + j) % 2 == 1, "loops"));
                }
            }
        }
    }
    // loops in loops, before and after other blocks
    for a in &small {
        let inner = S::For("j".into(), "m".into(), vec![4, 5], vec![cu(31, vec![asg("a", call("mix64", vec![v("a"), v("m")])), asg("a", call("mixi", vec![v("a"), v("j")]))])]);
        out.extend(control(vec![vec![lp(&[1, 0], vec![inner.clone()])], vec![lp(&[2], vec![a.clone()])]], false, "loops"));
        out.extend(control(vec![vec![lp(&[1, 0], vec![inner.clone(), a.clone()])]], true, "loops"));
        out.extend(control(vec![vec![lp(&[1, 0], vec![a.clone(), inner])]], true, "loops"));
    }
    // failing steps
    for at in 0..4 {
        let mut sc = vec![];
        for s in 0..4 {
            let e = call("mix64", vec![v("x"), E::Lit(s)]);
            let e = if s == at { E::Unwrap(Box::new(call("some", vec![v("x")]))) } else { e };
            sc.push(if s == 3 { step(10, vec![S::Ret(e)]) } else { step(10, vec![asg("_", call("note64", vec![E::Lit(70 + s), v("x")])), let64(&format!("q{}", s), false, e)]) });
        }
        let mut funs = helpers();
        let mut f = fun("u", sc.clone());
        for s in f.scopes.iter_mut() {
            s.1 = s.1.iter().map(|x| rename(x)).collect();
        }
        funs.push(f);
        funs.push(main_fn(vec![step(10, vec![let64("a", false, call("mix64", vec![v("x"), E::Lit(71)]))]), steps(vec![part("w", "u", vec![v("storage"), v("x")], vec![asg("a", call("mix64", vec![v("a"), v("w")]))])]), step(10, vec![S::Ret(v("a"))])]));
        out.push(Prog { family: "failing", budget: 10_100, semis: false, funs });
        out.push(Prog { family: "failing", budget: 10_100, semis: false, funs: vec![main_fn(sc)] });
    }
    // expressions
    for chunk in expressions().chunks(40) {
        let mut sc: Vec<_> = chunk.iter().enumerate().map(|(i, e)| step(10, vec![asg("_", call("note64", vec![E::Lit(i as u64), e.clone()]))])).collect();
        sc.push(step(10, vec![S::Ret(v("x"))]));
        out.push(Prog { family: "expressions", budget: 10_100, semis: false, funs: vec![main_fn(sc)] });
    }
    out
}
fn rename(s: &S) -> S {
    let e = |x: &E| ren(x);
    match s {
        S::Let(n, t, m, x) => S::Let(n.clone(), *t, *m, e(x)),
        S::Asg(n, x) => S::Asg(n.clone(), e(x)),
        S::Ret(x) => S::Ret(e(x)),
        o => o.clone(),
    }
}
fn ren(x: &E) -> E {
    match x {
        E::V(n) if n == "x" => v("p"),
        E::Call(f, a) => E::Call(f.clone(), a.iter().map(ren).collect()),
        E::Unwrap(a) => E::Unwrap(Box::new(ren(a))),
        o => o.clone(),
    }
}
