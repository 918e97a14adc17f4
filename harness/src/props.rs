//! One random case per property; every oracle is the rigorous evaluation in val.rs.
use crate::gen::*;
use crate::val::*;
use calcu_rs::atom::{Atom, Func};
use calcu_rs::polynomial::VarSet;
use calcu_rs::prelude::*;
use num::{BigInt, BigRational, Integer, One, Signed, Zero};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static CHECKED: AtomicU64 = AtomicU64::new(0);
pub fn checked() -> u64 {
    CHECKED.load(Relaxed)
}

const ENVS: usize = 6;

/// want(env) is the value the result must have; None: no violation
fn same(g: &mut Gen, what: &str, want: &dyn Fn(&Env) -> V, got: &Expr) -> Option<String> {
    for i in 0..ENVS {
        let env = g.env(i);
        let w = want(&env);
        if !defined(&w) {
            continue;
        }
        let r = eval(got, &env);
        if defined(&r) {
            CHECKED.fetch_add(1, Relaxed);
        }
        if wrong(&w, &r) {
            return Some(format!("{what}\n  result   {got:?}\n  at       {}\n  expected {w:?}\n  got      {r:?}", show_env(&env)));
        }
    }
    None
}

/// powers of anything but a number or a variable have a number as exponent
fn numexp(e: &Expr) -> bool {
    if let Atom::Pow(p) = e.atom() {
        let b = matches!(p.base().atom(), Atom::Rational(_) | Atom::Irrational(_) | Atom::Var(_));
        if !b && !matches!(p.exponent().atom(), Atom::Rational(_)) {
            return false;
        }
    }
    e.args().iter().all(numexp)
}

/// every factor of the argument of a logarithm is positive, and no logarithm is inside another one
fn logok(e: &Expr, env: &Env) -> bool {
    fn lp(e: &Expr, env: &Env) -> bool {
        match e.atom() {
            Atom::Prod(_) => e.args().iter().all(|a| lp(a, env)),
            Atom::Pow(p) => lp(p.base(), env),
            Atom::Sum(s) if s.args.len() == 1 => lp(&s.args[0], env),
            _ => sign(&eval(e, env)) == Some(1),
        }
    }
    match e.atom() {
        Atom::Func(Func::Log(_, x)) => !has_log(x) && lp(x, env),
        _ => e.args().iter().all(|a| logok(a, env)),
    }
}
fn has_log(e: &Expr) -> bool {
    matches!(e.atom(), Atom::Func(Func::Log(..))) || e.args().iter().any(has_log)
}

fn unary(g: &mut Gen, name: &str, e: &Expr, got: &Expr) -> Option<String> {
    same(g, &format!("{name} of {e:?}"), &|env| eval(e, env), got)
}

/// print the input of a case that does not return
thread_local!(static NOTED: std::cell::RefCell<Option<Expr>> = const { std::cell::RefCell::new(None) });

/// the expression the last case was about
pub fn noted() -> String {
    NOTED.with(|n| n.try_borrow_mut().ok().and_then(|mut n| n.take()).map_or("not recorded".to_string(), |e| format!("{e:?}")))
}

fn note(e: &Expr) {
    NOTED.with(|n| *n.borrow_mut() = Some(e.clone()));
    if std::env::var("HARNESS_SHOW").is_ok() {
        eprintln!("input {e:?}");
    }
}

fn div(a: &V, b: &V) -> V {
    mul(a, &inv(b))
}

pub fn case(prop: &str, seed: u64) -> Option<String> {
    NOTED.with(|n| *n.borrow_mut() = None);
    let mut g = Gen::new(seed);
    match prop {
        "arith" => arith(&mut g),
        "undef" => undef(&mut g),
        "reduce" => {
            let e = g.any();
    note(&e);
            let r = e.reduce();
            unary(&mut g, "reduce", &e, &r)
        }
        "expand" => expand(&mut g),
        "trig" => trig(&mut g),
        "contract" => contract(&mut g),
        "expln" => expln(&mut g),
        "fraction" => fraction(&mut g),
        "factor" => factor(&mut g),
        "derivative" => derivative(&mut g),
        "subst" => subst(&mut g),
        "poly" => poly(&mut g),
        "equality" => equality(&mut g),
        "order" => order(&mut g),
        "rational" => rational_ops(&mut g),
        "ratpow" => ratpow(&mut g),
        "simplify" => simplify(&mut g),
        "sortargs" => {
            let e = g.any();
    note(&e);
            let r = e.sort_args();
            unary(&mut g, "sort_args", &e, &r)
        }
        "parts" => parts(&mut g),
        _ => panic!("unknown property {prop}"),
    }
}

/// one or two levels of interesting operands for the binary constructors
fn operand(g: &mut Gen) -> Expr {
    let d = *g.r.pick(&[0, 1, 1, 2, 2, 3]);
    g.expr(d)
}

fn arith(g: &mut Gen) -> Option<String> {
    let a = operand(g);
    let b = match g.r.n(8) {
        0 => a.clone(),
        1 => {
            let e = g.expo();
            g.pow(a.clone(), e)
        }
        2 => {
            let r = g.rat();
            let k = g.r.p(1, 2);
            let v = vec![r, a.clone()];
            g.nary(k, v)
        }
        _ => operand(g),
    };
    let ex = g.expo();
    let (x, y) = (&a, &b);
    let (n, got, f): (&str, Expr, Box<dyn Fn(&V, &V) -> V>) = match g.r.n(22) {
        0 | 1 => ("add", Expr::add(x, y), Box::new(|a, b| add(a, b))),
        2 => ("sub", Expr::sub(x, y), Box::new(|a, b| add(a, &neg(b)))),
        3 | 4 | 5 => ("mul", Expr::mul(x, y), Box::new(|a, b| mul(a, b))),
        6 => ("div", Expr::div(x, y), Box::new(|a, b| div(a, b))),
        7 => ("add_raw", Expr::add_raw(x, y), Box::new(|a, b| add(a, b))),
        8 => ("mul_raw", Expr::mul_raw(x, y), Box::new(|a, b| mul(a, b))),
        9 => ("div_raw", Expr::div_raw(x, y), Box::new(|a, b| div(a, b))),
        10 => ("pow_raw", Expr::pow_raw(x, y), Box::new(|a, b| pow(a, b))),
        11 => ("pow", Expr::pow(x, y), Box::new(|a, b| pow(a, b))),
        12 | 13 | 14 => {
            let w = ex.clone();
            let got = Expr::pow(x, &w);
            return same(g, &format!("pow of {a:?} and {w:?}"), &|env| pow(&eval(&a, env), &eval(&w, env)), &got);
        }
        15 => ("sqrt", Expr::sqrt(x), Box::new(|a, _| pow(a, &Ex(q(1, 2))))),
        16 => ("exp", Expr::exp(x), Box::new(|a, _| exp(a))),
        17 => ("+", x + y, Box::new(|a, b| add(a, b))),
        18 => ("-", x - y, Box::new(|a, b| add(a, &neg(b)))),
        19 => ("*", x * y, Box::new(|a, b| mul(a, b))),
        20 => ("/", x / y, Box::new(|a, b| div(a, b))),
        _ => {
            let k = g.r.n(4);
            let mut t = a.clone();
            match k {
                0 => t += y,
                1 => t -= y,
                2 => t *= y,
                _ => t /= y,
            }
            let f: Box<dyn Fn(&V, &V) -> V> = match k {
                0 => Box::new(|a, b| add(a, b)),
                1 => Box::new(|a, b| add(a, &neg(b))),
                2 => Box::new(|a, b| mul(a, b)),
                _ => Box::new(|a, b| div(a, b)),
            };
            (["+=", "-=", "*=", "/="][k], t, f)
        }
    };
    if matches!(n, "sqrt" | "exp") {
        return same(g, &format!("{n} of {a:?}"), &|env| f(&eval(&a, env), &one()), &got);
    }
    same(g, &format!("{n} of {a:?} and {b:?}"), &|env| f(&eval(&a, env), &eval(&b, env)), &got)
}

use crate::val::V::Ex;

fn undef(g: &mut Gen) -> Option<String> {
    let a = g.any();
    let u = Expr::undef();
    let left = g.r.p(1, 2);
    let (x, y) = if left { (&u, &a) } else { (&a, &u) };
    if g.r.p(1, 4) {
        // no quotient by the number 0, no power of it that is not positive
        let z = Expr::zero();
        let k = rational(-(g.r.n(5) as i64), 1 + g.r.n(4) as i64);
        let (n, p, q, r) = if g.r.p(1, 2) { ("div", a.clone(), z.clone(), Expr::div(&a, &z)) } else { ("pow", z.clone(), k.clone(), Expr::pow(&z, &k)) };
        if !r.is_undef() {
            return Some(format!("{n} of {p:?} and {q:?}\n  result   {r:?}\n  expected undef"));
        }
        CHECKED.fetch_add(1, Relaxed);
        return None;
    }
    let (n, r) = match g.r.n(9) {
        0 => ("add", Expr::add(x, y)),
        1 => ("sub", Expr::sub(x, y)),
        2 => ("mul", Expr::mul(x, y)),
        3 => ("div", Expr::div(x, y)),
        4 => ("pow", Expr::pow(x, y)),
        5 => ("+=", {
            let mut t = x.clone();
            t += y;
            t
        }),
        6 => ("*=", {
            let mut t = x.clone();
            t *= y;
            t
        }),
        7 => ("add", Expr::add(&Expr::add(x, y), &a)),
        _ => ("mul", Expr::mul(&Expr::mul(x, y), &a)),
    };
    if r.is_undef() {
        CHECKED.fetch_add(1, Relaxed);
        None
    } else {
        Some(format!("{n} of {x:?} and {y:?}\n  result   {r:?}\n  expected undef"))
    }
}

fn expand(g: &mut Gen) -> Option<String> {
    g.fracexp &= g.r.p(1, 2);
    let e = g.any();
    note(&e);
    note(&e);
    if !numexp(&e) {
        return None;
    }
    let (n, r) = match g.r.n(4) {
        0 => ("distribute", e.distribute()),
        1 => ("expand_main_op", e.expand_main_op()),
        _ => ("expand", e.expand()),
    };
    unary(g, n, &e, &r)
}

fn angle(g: &mut Gen) -> Expr {
    let mut t = vec![];
    for _ in 0..1 + g.r.n(3) {
        let v = g.var();
        let k = rational(g.r.n(9) as i64 - 4, 1);
        t.push(match g.r.n(4) {
            0 => v,
            1 => g.rat(),
            _ => {
                if g.r.p(1, 3) {
                    let w = g.var();
                    Expr::mul(&Expr::mul(&k, &v), &w)
                } else {
                    Expr::mul(&k, &v)
                }
            }
        });
    }
    g.nary(true, t)
}

fn trigterm(g: &mut Gen) -> Expr {
    let a = if g.r.p(2, 3) { angle(g) } else { operand(g) };
    g.funcs = 1;
    g.func(a)
}

fn trig(g: &mut Gen) -> Option<String> {
    let e = trigexpr(g);
    note(&e);
    if !numexp(&e) {
        return None;
    }
    let (n, r) = match g.r.n(4) {
        0 => ("substitute_trig", e.substitute_trig()),
        _ => ("expand_trig", e.expand_trig()),
    };
    unary(g, n, &e, &r)
}

fn trigexpr(g: &mut Gen) -> Expr {
    let mut fs = vec![];
    for _ in 0..1 + g.r.n(3) {
        let t = trigterm(g);
        let t = if g.r.p(1, 3) {
            let k = rational(g.r.n(6) as i64 + g.r.n(2) as i64 * -3, 1);
            g.pow(t, k)
        } else {
            t
        };
        fs.push(t);
    }
    if g.r.p(1, 4) {
        let l = g.leaf();
        fs.push(l);
    }
    if fs.len() == 1 {
        return fs.remove(0);
    }
    let k = g.r.p(1, 3);
    g.nary(k, fs)
}

fn contract(g: &mut Gen) -> Option<String> {
    let mut fs = vec![];
    for _ in 0..1 + g.r.n(3) {
        let a = if g.r.p(1, 2) { g.var() } else { angle(g) };
        let t = if g.r.p(1, 2) { Expr::sin(a) } else { Expr::cos(a) };
        let t = if g.r.p(1, 2) {
            let k = rational(1 + g.r.n(5) as i64, 1);
            g.pow(t, k)
        } else {
            t
        };
        fs.push(t);
    }
    for _ in 0..g.r.n(2) {
        let l = g.expr(1);
        fs.push(l);
    }
    let e = if fs.len() == 1 {
        fs.remove(0)
    } else {
        let k = g.r.p(1, 4);
        g.nary(k, fs)
    };
    note(&e);
    if !numexp(&e) {
        return None;
    }
    let r = if g.r.p(1, 8) {
        return unary(g, "simplify_trig", &e, &e.simplify_trig());
    } else {
        e.contract_trig()
    };
    unary(g, "contract_trig", &e, &r)
}

fn expln(g: &mut Gen) -> Option<String> {
    g.funcs = 2;
    let a = operand(g);
    let e = match g.r.n(4) {
        0 => g.any(),
        1 => Expr::ln(&a),
        2 => {
            let e = Expr::e();
            g.pow(e, a)
        }
        _ => {
            let b = operand(g);
            let (l, m) = (g.func(a), g.func(b));
            let k = g.r.p(1, 2);
            g.nary(k, vec![l, m])
        }
    };
    note(&e);
    if !numexp(&e) {
        return None;
    }
    if g.r.p(1, 2) {
        let r = e.expand_exponential();
        unary(g, "expand_exponential", &e, &r)
    } else {
        let r = e.expand_ln();
        same(g, &format!("expand_ln of {e:?}"), &|env| if logok(&e, env) { eval(&e, env) } else { V::Undef }, &r)
    }
}

fn fraction(g: &mut Gen) -> Option<String> {
    let e = g.any();
    note(&e);
    match g.r.n(3) {
        0 => {
            let (n, d) = (e.numerator(), e.denominator());
            for i in 0..ENVS {
                let env = g.env(i);
                let w = eval(&e, &env);
                if !defined(&w) {
                    continue;
                }
                let (vn, vd) = (eval(&n, &env), eval(&d, &env));
                CHECKED.fetch_add(1, Relaxed);
                if matches!(vn, V::Undef) || matches!(vd, V::Undef) || sign(&vd) == Some(0) || differ(&vn, &mul(&w, &vd)) {
                    return Some(format!("numerator and denominator of {e:?}\n  result   {n:?} and {d:?}\n  at       {}\n  expected a quotient of {w:?}\n  got      {vn:?} and {vd:?}", show_env(&env)));
                }
            }
            None
        }
        1 => {
            let r = e.rationalize();
            unary(g, "rationalize", &e, &r)
        }
        _ => {
            let r = e.cancel();
            unary(g, "cancel", &e, &r)
        }
    }
}

fn parts(g: &mut Gen) -> Option<String> {
    let e = g.any();
    note(&e);
    match g.r.n(6) {
        4 | 5 => {
            let n = 1 + g.r.n(7);
            let args: Vec<Expr> = (0..n).map(|_| operand(g)).collect();
            let k = g.r.p(1, 2);
            let e = raw_nary(k, &args);
            let (a, b) = match e.flatten().atom() {
                Atom::Sum(s) => s.as_binary_sum(),
                Atom::Prod(p) => p.as_binary_mul(),
                _ => return None,
            };
            let r = match e.flatten().atom() {
                Atom::Sum(_) => raw_nary(true, &[a.clone(), b.clone()]),
                _ => raw_nary(false, &[a.clone(), b.clone()]),
            };
            let e = e.flatten().clone();
            same(g, &format!("first and rest of {e:?} are {a:?} and {b:?}"), &|env| eval(&e, env), &r)
        }
        0 => {
            let (b, x) = (e.base(), e.exponent());
            same(g, &format!("base and exponent of {e:?} are {b:?} and {x:?}"), &|env| eval(&e, env), &Expr::pow_raw(&b, &x))
        }
        1 => {
            if let (Some(c), Some(t)) = (e.rational_coeff(), e.non_rational_term()) {
                return same(g, &format!("coefficient and term of {e:?} are {c:?} and {t:?}"), &|env| eval(&e, env), &raw_nary(false, &[Expr::from(c), t.clone()]));
            }
            None
        }
        2 => {
            if let Some((n, d)) = e.try_as_div() {
                return same(g, &format!("try_as_div of {e:?} is {n:?} and {d:?}"), &|env| eval(&e, env), &raw_nary(false, &[n.clone(), Expr::pow_raw(&d, Expr::min_one())]));
            }
            None
        }
        _ => {
            let f = e.flatten().clone();
            same(g, &format!("flatten of {e:?}"), &|env| eval(&e, env), &f)
        }
    }
}

fn factor(g: &mut Gen) -> Option<String> {
    let pieces: Vec<Expr> = (0..3).map(|_| operand(g)).collect();
    let mut mk = |g: &mut Gen| {
        let n = 1 + g.r.n(3);
        let v: Vec<Expr> = (0..n).map(|_| g.r.pick(&pieces).clone()).collect();
        let k = g.r.p(1, 3);
        if v.len() == 1 { v[0].clone() } else { g.nary(k, v) }
    };
    let (a, b) = (mk(g), mk(g));
    note(&a);
    note(&b);
    match g.r.n(4) {
        0 => {
            let (f, (l, r)) = Expr::factorize_common_terms(&a, &b);
            let w = format!("factorize_common_terms of {a:?} and {b:?} is {f:?}, {l:?}, {r:?}");
            // both have to be defined
            let both = |env: &Env, x: &Expr| if defined(&eval(&a, env)) && defined(&eval(&b, env)) { eval(x, env) } else { V::Undef };
            same(g, &format!("{w} (left)"), &|env| both(env, &a), &raw_nary(false, &[f.clone(), l.clone()]))
                .or_else(|| same(g, &format!("{w} (right)"), &|env| both(env, &b), &raw_nary(false, &[f.clone(), r.clone()])))
        }
        1 => {
            let k = g.r.p(3, 4);
            let e = g.nary(k, vec![a, b]);
            let r = e.factor_out();
            unary(g, "factor_out", &e, &r)
        }
        2 => {
            let e = if g.r.p(1, 2) { Expr::div(&a, &b) } else { Expr::mul_raw(&a, &Expr::pow_raw(&b, Expr::min_one())) };
            let r = e.cancel();
            unary(g, "cancel", &e, &r)
        }
        _ => {
            let x = g.var();
            let (f, d) = a.separate_factors(&x);
            if !f.free_of(&x) {
                return Some(format!("separate_factors of {a:?} by {x:?}\n  result   {f:?} and {d:?}\n  the first part is not free of it"));
            }
            same(g, &format!("separate_factors of {a:?} by {x:?} is {f:?} and {d:?}"), &|env| eval(&a, env), &raw_nary(false, &[f.clone(), d.clone()]))
        }
    }
}

fn derivative(g: &mut Gen) -> Option<String> {
    let e = g.any();
    note(&e);
    let x = g.var();
    let n = format!("{x}");
    let r = e.derivative(&x);
    for i in 0..ENVS {
        let env = g.env(i);
        let D { v, d } = evald(&e, &env, &n);
        if !defined(&v) || !defined(&d) {
            continue;
        }
        let got = eval(&r, &env);
        if defined(&got) {
            CHECKED.fetch_add(1, Relaxed);
        }
        // the result may be undefined where the formula has a singularity (ln of a non-positive base, 0^0)
        if differ(&d, &got) {
            return Some(format!("derivative of {e:?} by {x}\n  result   {r:?}\n  at       {}\n  expected {d:?}\n  got      {got:?}", show_env(&env)));
        }
        if matches!(got, V::Undef) && generic(&e, &env) {
            return Some(format!("derivative of {e:?} by {x}\n  result   {r:?}\n  at       {}\n  expected {d:?}\n  got      undefined", show_env(&env)));
        }
    }
    None
}

/// every base of a power is certainly positive there, every argument of an inverse function inside its open domain
fn generic(e: &Expr, env: &Env) -> bool {
    if let Atom::Func(f) = e.atom() {
        let sq = |a: &Expr| { let v = eval(a, env); add(&mul(&v, &v), &Ex(q(-1, 1))) };
        match f {
            Func::ArcSin(a) | Func::ArcCos(a) if sign(&sq(a)) != Some(-1) => return false,
            Func::ArcSec(a) | Func::ArcCsc(a) if sign(&sq(a)) != Some(1) => return false,
            _ => {}
        }
    }
    if let Atom::Pow(p) = e.atom() {
        if sign(&eval(p.base(), env)) != Some(1) {
            return false;
        }
    }
    e.args().iter().all(|a| generic(a, env))
}

fn subst(g: &mut Gen) -> Option<String> {
    let e = g.any();
    note(&e);
    let t = operand(g);
    match g.r.n(4) {
        0 => {
            let x = g.var();
            let r = e.substitude(&x, &t);
            let n = format!("{x}");
            for i in 0..ENVS {
                let env = g.env(i);
                if let Ex(v) = eval(&t, &env) {
                    let mut env2 = env.clone();
                    env2.insert(n.clone(), v);
                    let (w, got) = (eval(&e, &env2), eval(&r, &env));
                    if defined(&w) && defined(&got) {
                        CHECKED.fetch_add(1, Relaxed);
                    }
                    if wrong(&w, &got) {
                        return Some(format!("substitude {x} by {t:?} in {e:?}\n  result   {r:?}\n  at       {}\n  expected {w:?}\n  got      {got:?}", show_env(&env)));
                    }
                }
            }
            None
        }
        1 => {
            // simultaneous replacement
            let (x, y) = (Expr::var("x"), Expr::var("y"));
            let s = operand(g);
            let both = g.r.p(1, 2);
            let r = if both { e.concurr_substitude([(&x, &s), (&y, &t)]) } else { e.seq_substitude([(&x, &s), (&y, &t)]) };
            for i in 0..ENVS {
                let env = g.env(i);
                let vt = eval(&t, &env);
                let (vs, vt) = if both {
                    (eval(&s, &env), vt)
                } else {
                    let mut e1 = env.clone();
                    match &vt {
                        Ex(v) => e1.insert("y".into(), v.clone()),
                        _ => continue,
                    };
                    (eval(&s, &e1), vt)
                };
                if let (Ex(a), Ex(b)) = (vs, vt) {
                    let mut env2 = env.clone();
                    env2.insert("x".into(), a);
                    env2.insert("y".into(), b);
                    let (w, got) = (eval(&e, &env2), eval(&r, &env));
                    if defined(&w) && defined(&got) {
                        CHECKED.fetch_add(1, Relaxed);
                    }
                    if wrong(&w, &got) {
                        return Some(format!("{} x by {s:?} and y by {t:?} in {e:?}\n  result   {r:?}\n  at       {}\n  expected {w:?}\n  got      {got:?}", if both { "concurr_substitude" } else { "seq_substitude" }, show_env(&env)));
                    }
                }
            }
            None
        }
        2 => {
            // free_of agrees with a walk over the subexpressions
            let x = if g.r.p(1, 2) { g.var() } else { g.r.pick(&subs(&e)).clone() };
            let inside = subs(&e).iter().any(|s| *s == x);
            CHECKED.fetch_add(1, Relaxed);
            if e.free_of(&x) == inside {
                return Some(format!("free_of({x:?}) of {e:?} is {}\n  expected {}", !inside, inside));
            }
            None
        }
        _ => {
            // replacing an absent expression changes nothing; a present one disappears
            let x = if g.r.p(1, 2) { g.var() } else { g.r.pick(&subs(&e)).clone() };
            let fresh = Expr::var("q0");
            let r = e.substitude(&x, &fresh);
            CHECKED.fetch_add(1, Relaxed);
            if !r.free_of(&x) {
                return Some(format!("substitude {x:?} by q0 in {e:?}\n  result   {r:?}\n  still contains it"));
            }
            if e.free_of(&x) && r != e {
                return Some(format!("substitude {x:?} by q0 in {e:?}\n  result   {r:?}\n  differs although nothing was to be replaced"));
            }
            if !e.free_of(&x) && r.free_of(&fresh) {
                return Some(format!("substitude {x:?} by q0 in {e:?}\n  result   {r:?}\n  does not contain q0"));
            }
            None
        }
    }
}

fn subs(e: &Expr) -> Vec<Expr> {
    let mut out = vec![e.clone()];
    for a in e.args() {
        out.extend(subs(a));
    }
    out
}

fn monomial(g: &mut Gen) -> Expr {
    let mut fs = vec![];
    if g.r.p(2, 3) {
        fs.push(g.rat());
    }
    for _ in 0..g.r.n(4) {
        let v = g.var();
        let k = 1 + g.r.n(4) as i64;
        if g.r.p(1, 8) {
            // a power of a product
            let mut ps: Vec<Expr> = (0..2 + g.r.n(2)).map(|_| { let v = g.var(); let j = 1 + g.r.n(3) as i64; if g.r.p(1, 2) { v } else { g.pow(v, rational(j, 1)) } }).collect();
            if g.r.p(1, 2) {
                ps.insert(0, g.rat());
            }
            fs.push(Expr::pow_raw(raw_nary(false, &ps), rational(k, 1)));
            continue;
        }
        fs.push(if g.r.p(1, 2) { v } else { g.pow(v, rational(k, 1)) });
    }
    match fs.len() {
        0 => g.rat(),
        1 => fs.remove(0),
        _ => g.nary(false, fs),
    }
}

/// total degree by the definition, for polynomials built from the chosen variables
fn coeff_table(e: &Expr, vars: &[Expr]) -> Option<std::collections::BTreeMap<Vec<i64>, BigRational>> {
    use std::collections::BTreeMap;
    let mut m = BTreeMap::new();
    match e.atom() {
        Atom::Rational(_) => {
            if let Ex(r) = eval(e, &Env::new()) {
                m.insert(vec![0; vars.len()], r);
            }
        }
        Atom::Var(_) => {
            let i = vars.iter().position(|v| v == e)?;
            let mut k = vec![0; vars.len()];
            k[i] = 1;
            m.insert(k, BigRational::one());
        }
        Atom::Sum(_) => {
            for a in e.args() {
                for (k, c) in coeff_table(a, vars)? {
                    let t = m.entry(k).or_insert_with(BigRational::zero);
                    *t += c;
                }
            }
        }
        Atom::Prod(_) => {
            m.insert(vec![0; vars.len()], BigRational::one());
            for a in e.args() {
                m = cmul(&m, &coeff_table(a, vars)?);
            }
        }
        Atom::Pow(p) => {
            let b = coeff_table(p.base(), vars)?;
            let n = match eval(p.exponent(), &Env::new()) {
                Ex(r) if r.is_integer() && !r.is_negative() => r.to_integer(),
                _ => return None,
            };
            m.insert(vec![0; vars.len()], BigRational::one());
            let mut i = BigInt::zero();
            while i < n {
                m = cmul(&m, &b);
                i += 1;
            }
        }
        _ => return None,
    }
    Some(m)
}

type Tab = std::collections::BTreeMap<Vec<i64>, BigRational>;
fn cmul(a: &Tab, b: &Tab) -> Tab {
    let mut m = Tab::new();
    for (k, c) in a {
        for (l, d) in b {
            let key: Vec<i64> = k.iter().zip(l).map(|(x, y)| x + y).collect();
            let t = m.entry(key).or_insert_with(BigRational::zero);
            *t += c * d;
        }
    }
    m
}

/// the sum of the coefficients times their variable powers
fn rebuild<'a>(co: impl Iterator<Item = (&'a calcu_rs::polynomial::VarPow, &'a Expr)>, vs: &[Expr]) -> Expr {
    let mut terms = vec![];
    for (vp, c) in co {
        let mut fs = vec![c.clone()];
        for v in vs {
            if let Some(d) = vp.degree_of(v) {
                fs.push(Expr::pow_raw(v, Expr::from(*d)));
            }
        }
        terms.push(raw_nary(false, &fs));
    }
    raw_nary(true, &terms)
}

/// polynomials in sums, powers, functions
fn gpoly(g: &mut Gen) -> Option<String> {
    let n = 1 + g.r.n(2);
    let mut vs: Vec<Expr> = (0..n).map(|_| if g.r.p(1, 4) { g.var() } else { operand(g) }).collect();
    if n == 2 && vs[0] == vs[1] {
        vs.truncate(1);
    }
    if vs.iter().any(|v| matches!(v.atom(), Atom::Rational(_) | Atom::Undef)) {
        return None;
    }
    let k = g.r.n(4);
    let mut ms = vec![];
    for _ in 0..k {
        let mut fs = vec![];
        for _ in 0..1 + g.r.n(3) {
            let v = g.r.pick(&vs).clone();
            let d = 1 + g.r.n(3) as i64;
            fs.push(match g.r.n(4) {
                0 => g.rat(),
                1 => v,
                2 => Expr::pow_raw(v, rational(d, 1)),
                _ => {
                    let v = raw_nary(false, &[g.rat(), v]);
                    Expr::pow_raw(v, rational(d, 1))
                }
            });
        }
        ms.push(if fs.len() == 1 { fs.remove(0) } else { raw_nary(false, &fs) });
    }
    let e = match k {
        0 => g.r.pick(&vs).clone(),
        1 => ms.remove(0),
        _ => raw_nary(true, &ms),
    };
    note(&e);
    let vars = VarSet::new(vs.iter());
    let p = e.as_polynomial_view(&vars);
    if g.r.p(1, 2) {
        let co = p.coeffs();
        if co.is_empty() {
            return None;
        }
        let s = rebuild(co.iter(), &vs);
        if vs.contains(&e) && p.degree() != Some(1) {
            return Some(format!("degree of {e:?} in {vs:?} is {:?}\n  expected 1", p.degree()));
        }
        same(g, &format!("coeffs of {e:?} in {vs:?}"), &|env| eval(&e, env), &s)
    } else {
        fn func(e: &Expr) -> bool {
            matches!(e.atom(), Atom::Func(_)) || e.args().iter().any(func)
        }
        if func(&e) {
            return None;
        }
        let r = p.collect_terms()?;
        unary(g, &format!("collect_terms in {vs:?}"), &e, &r)
    }
}

/// polynomials in one variable
fn upoly(g: &mut Gen) -> Option<String> {
    g.nvars = 3;
    let n = 1 + g.r.n(4);
    let ms: Vec<Expr> = (0..n).map(|_| monomial(g)).collect();
    let e = if ms.len() == 1 { ms[0].clone() } else { g.nary(true, ms) };
    note(&e);
    let x = g.var();
    let vars = VarSet::new([x.clone()].iter());
    let p = e.as_polynomial_view(&vars);
    let co = p.coeffs_of(&x);
    if co.is_empty() {
        return None;
    }
    let top = *co.keys().max().unwrap();
    CHECKED.fetch_add(1, Relaxed);
    for (d, c) in &co {
        if p.coeffs_of_deg(&x, d).as_ref() != Some(c) {
            return Some(format!("coefficient of {x}^{d} of {e:?} is {:?}\n  expected {c:?}", p.coeffs_of_deg(&x, d)));
        }
    }
    if p.leading_coeff_of(&x).as_ref() != Some(&co[&top]) {
        return Some(format!("leading coefficient of {e:?} in {x} is {:?}\n  expected {:?}", p.leading_coeff_of(&x), co[&top]));
    }
    if p.degree_of(&x).unwrap_or(0) != top {
        return Some(format!("degree of {e:?} in {x} is {:?}\n  expected {top}", p.degree_of(&x)));
    }
    let terms: Vec<Expr> = co.iter().map(|(d, c)| raw_nary(false, &[c.clone(), Expr::pow_raw(&x, Expr::from(*d))])).collect();
    let s = raw_nary(true, &terms);
    // x^0 stands for one
    let pos = |env: &Env| env[&format!("{x}")] != q(0, 1);
    same(g, &format!("coefficients of {e:?} in {x}"), &|env| if pos(env) { eval(&e, env) } else { V::Undef }, &s)
}

fn poly(g: &mut Gen) -> Option<String> {
    match g.r.n(4) {
        0 => return gpoly(g),
        1 => return upoly(g),
        _ => {}
    }
    let n = 1 + g.r.n(4);
    let ms: Vec<Expr> = (0..n).map(|_| monomial(g)).collect();
    let e = if ms.len() == 1 { ms[0].clone() } else { g.nary(true, ms) };
    let mut vs: Vec<Expr> = VARS[..3].iter().map(|v| Expr::var(v)).collect();
    let keep = 1 + g.r.n(3);
    vs.truncate(keep);
    let vars = VarSet::new(vs.iter());
    let p = e.as_polynomial_view(&vars);
    // other variables are coefficients
    let all: Vec<Expr> = VARS.iter().map(|v| Expr::var(v)).collect();
    let tab = coeff_table(&e, &all)?;
    match g.r.n(4) {
        0 => {
            // coefficients and powers rebuild the polynomial
            let co = p.coeffs();
            if co.is_empty() {
                return None;
            }
            let mut terms = vec![];
            for (vp, c) in &co {
                let mut fs = vec![c.clone()];
                for v in &vs {
                    if let Some(d) = vp.degree_of(v) {
                        fs.push(Expr::pow_raw(v, Expr::from(*d)));
                    }
                }
                terms.push(raw_nary(false, &fs));
            }
            let s = raw_nary(true, &terms);
            same(g, &format!("coeffs of {e:?} in {vs:?}"), &|env| eval(&e, env), &s)
        }
        1 => {
            let mono = e.as_monomial_view(&vars);
            if let Some((c, vp)) = mono.coeff() {
                let mut fs = vec![c.clone()];
                let mut deg = 0;
                for v in &vs {
                    if let Some(d) = vp.degree_of(v) {
                        fs.push(Expr::pow_raw(v, Expr::from(*d)));
                        deg += *d;
                    }
                }
                if mono.degree() != Some(deg) {
                    return Some(format!("degree of the monomial {e:?} in {vs:?} is {:?}\n  expected {deg}", mono.degree()));
                }
                for v in &vs {
                    if !c.free_of(v) && !matches!(e.atom(), Atom::Sum(_)) {
                        return Some(format!("coefficient of the monomial {e:?} in {vs:?} is {c:?}\n  which contains {v:?}"));
                    }
                }
                let s = raw_nary(false, &fs);
                return same(g, &format!("coeff of the monomial {e:?} in {vs:?}"), &|env| eval(&e, env), &s);
            }
            None
        }
        2 => {
            if let Some(r) = p.collect_terms() {
                return unary(g, &format!("collect_terms in {vs:?}"), &e, &r);
            }
            None
        }
        _ => {
            // the degree is that of the terms as written
            if let Atom::Sum(_) = e.atom() {
                let mut want = None;
                for a in e.args() {
                    let t = coeff_table(a, &all)?;
                    for (k, _) in t {
                        let d: i64 = k[..keep].iter().sum();
                        want = want.max(Some(d));
                    }
                }
                let got = p.degree();
                CHECKED.fetch_add(1, Relaxed);
                if e.args().iter().all(|a| !matches!(a.atom(), Atom::Sum(_))) && got.map(|d| d as i64) != want && p.check() {
                    return Some(format!("degree of {e:?} in {vs:?} is {got:?}\n  expected {want:?}"));
                }
            }
            let _ = tab;
            None
        }
    }
}

fn hash(e: &Expr) -> u64 {
    let mut h = DefaultHasher::new();
    e.hash(&mut h);
    h.finish()
}

/// the same expression with operands of sums and products permuted
fn shuffle(g: &mut Gen, e: &Expr) -> Expr {
    let mut r = e.clone();
    if r.args().is_empty() {
        return r;
    }
    let mut a: Vec<Expr> = e.args().iter().map(|x| shuffle(g, x)).collect();
    if matches!(e.atom(), Atom::Sum(_) | Atom::Prod(_)) {
        for i in (1..a.len()).rev() {
            let j = g.r.n(i + 1);
            a.swap(i, j);
        }
    }
    for (i, x) in a.into_iter().enumerate() {
        r.args_mut()[i] = x;
    }
    r
}

/// the outermost arguments in another order
fn permute(g: &mut Gen, e: &Expr) -> Expr {
    let mut r = e.clone();
    let mut a: Vec<Expr> = e.args().to_vec();
    for i in (1..a.len()).rev() {
        let j = g.r.n(i + 1);
        a.swap(i, j);
    }
    for (i, x) in a.into_iter().enumerate() {
        r.args_mut()[i] = x;
    }
    r
}

/// numbers and variables, some of them hard to tell apart
fn flat(g: &mut Gen) -> Expr {
    let n = 2 + g.r.n(5);
    let v: Vec<Expr> = (0..n)
        .map(|_| match g.r.n(8) {
            0 => rational((1 << 60) + g.r.n(3) as i64, 1),
            1 => rational((1 << 58) + g.r.n(3) as i64, 3),
            2 => rational(6121026514868073, 2251799813685248),
            3 => rational(884279719003555, 281474976710656),
            4 => Expr::e(),
            5 => Expr::pi(),
            _ => g.leaf(),
        })
        .collect();
    let sum = g.r.p(1, 2);
    crate::gen::raw_nary(sum, &v)
}

fn equality(g: &mut Gen) -> Option<String> {
    let a = if g.r.p(1, 8) { flat(g) } else { g.any() };
    let b = if g.r.p(1, 2) { shuffle(g, &a) } else { g.any() };
    CHECKED.fetch_add(1, Relaxed);
    if a != a.clone() {
        return Some(format!("{a:?} is not equal to itself"));
    }
    if (a == b) != (b == a) {
        return Some(format!("equality of {a:?} and {b:?} is not symmetric"));
    }
    if matches!(a.atom(), Atom::Sum(_) | Atom::Prod(_)) && a.args().iter().all(|x| !matches!(x.atom(), Atom::Sum(_) | Atom::Prod(_) | Atom::Pow(_) | Atom::Func(_))) {
        let p = permute(g, &a);
        if a != p {
            return Some(format!("{a:?} and {p:?} are not equal"));
        }
    }
    if a == b && hash(&a) != hash(&b) {
        return Some(format!("{a:?} and {b:?} are equal but have different hashes"));
    }
    if a == b {
        let c = shuffle(g, &b);
        if b == c && a != c {
            return Some(format!("equality of {a:?}, {b:?} and {c:?} is not transitive"));
        }
        return same(g, &format!("{a:?} == {b:?}"), &|env| eval(&a, env), &b);
    }
    None
}

fn order(g: &mut Gen) -> Option<String> {
    let mut v = vec![g.any(), g.any(), g.any()];
    if g.r.p(1, 2) {
        v[1] = shuffle(g, &v[0].clone());
    }
    CHECKED.fetch_add(1, Relaxed);
    for a in &v {
        if a.cmp(a) != std::cmp::Ordering::Equal {
            return Some(format!("{a:?} compares {:?} with itself", a.cmp(a)));
        }
        for b in &v {
            if a.cmp(b) != b.cmp(a).reverse() {
                return Some(format!("{a:?} and {b:?} compare {:?} and {:?}", a.cmp(b), b.cmp(a)));
            }
        }
    }
    None
}

fn big(r: &Rational) -> BigRational {
    BigRational::new_raw(BigInt::from(r.numer()), BigInt::from(r.denom()))
}

fn rnd_rational(g: &mut Gen) -> Rational {
    let m = *g.r.pick(&[3i128, 12, 100, 1 << 30]);
    let n = (g.r.next() as i128 % (2 * m + 1)) - m;
    let d = 1 + g.r.next() as i128 % m;
    let d = if g.r.p(1, 3) { 1 } else { d };
    let s = if g.r.p(1, 2) { 1 } else { -1 };
    Rational::from((n * s, d * s))
}

fn wf(r: &Rational) -> bool {
    r.denom() > 0 && BigInt::from(r.numer()).gcd(&BigInt::from(r.denom())).is_one()
}

fn rational_ops(g: &mut Gen) -> Option<String> {
    let (n, d) = ((g.r.next() as i128 % 400) - 200, (g.r.next() as i128 % 60) - 30);
    let (a, mut b) = (rnd_rational(g), rnd_rational(g));
    match g.r.n(6) {
        // the same numerator or the same denominator
        0 => b = Rational::from((a.numer(), b.denom())),
        1 => b = Rational::from((b.numer(), a.denom())),
        _ => {}
    }
    let (x, y) = (big(&a), big(&b));
    let bad = |n: &str, r: String, w: String| Some(format!("{n} of {a:?} and {b:?}\n  result   {r}\n  expected {w}"));
    CHECKED.fetch_add(1, Relaxed);
    macro_rules! num {
        ($n:expr, $r:expr, $w:expr) => {{
            let (r, w): (Rational, BigRational) = ($r, $w);
            if big(&r) != w || !wf(&r) {
                return bad($n, format!("{}/{}", r.numer(), r.denom()), format!("{w}"));
            }
        }};
    }
    macro_rules! prd {
        ($n:expr, $r:expr, $w:expr) => {{
            let (r, w) = ($r, $w);
            if r != w {
                return bad($n, format!("{r:?}"), format!("{w:?}"));
            }
        }};
    }
    if d != 0 {
        let r = match g.r.n(3) {
            0 => Rational::new(n, d),
            1 => Rational::from((n, d)),
            _ => Rational::from((n as i32, d as i32)),
        };
        num!("new", r, BigRational::new(BigInt::from(n), BigInt::from(d)));
    }
    num!("from", Rational::from(n), BigRational::from(BigInt::from(n)));
    num!("new_int", Rational::new_int(n), BigRational::from(BigInt::from(n)));
    num!("+", a.clone() + b.clone(), &x + &y);
    num!("-", a.clone() - b.clone(), &x - &y);
    num!("*", a.clone() * b.clone(), &x * &y);
    let mut t = a.clone();
    t += b.clone();
    num!("+=", t, &x + &y);
    let mut t = a.clone();
    t -= b.clone();
    num!("-=", t, &x - &y);
    let mut t = a.clone();
    t *= b.clone();
    num!("*=", t, &x * &y);
    if !y.is_zero() {
        num!("/", a.clone() / b.clone(), &x / &y);
        let mut t = a.clone();
        t /= b.clone();
        num!("/=", t, &x / &y);
    }
    prd!("==", a == b, x == y);
    prd!("cmp", a.cmp(&b), x.cmp(&y));
    prd!("<", a < b, x < y);
    prd!(">=", a >= b, x >= y);
    prd!("is_zero", a.is_zero(), x.is_zero());
    prd!("is_one", a.is_one(), x.is_one());
    prd!("is_two", a.is_two(), x == q(2, 1));
    prd!("is_min_one", a.is_min_one(), x == q(-1, 1));
    prd!("is_min_two", a.is_min_two(), x == q(-2, 1));
    prd!("is_pos", a.is_pos(), x.is_positive());
    prd!("is_neg", a.is_neg(), x.is_negative());
    prd!("is_int", a.is_int(), x.is_integer());
    prd!("is_fraction", a.is_fraction(), !x.is_integer());
    prd!("is_even", a.is_even(), x.is_integer() && x.to_integer().is_even());
    prd!("is_odd", a.is_odd(), x.is_integer() && x.to_integer().is_odd());
    prd!("to_int", a.to_int().map(BigInt::from), if x.is_integer() { Some(x.to_integer()) } else { None });
    prd!("floor", BigInt::from(a.clone().floor()), x.floor().to_integer());
    num!("abs", a.clone().abs(), x.abs());
    match a.clone().inverse() {
        Some(r) => num!("inverse", r, if x.is_zero() { q(0, 1) } else { x.recip() }),
        None => prd!("inverse", true, x.is_zero()),
    }
    if let Some(r) = a.int_gcd(&b) {
        // the greatest rational of which both are integer multiples
        let (x, y) = (big(&a), big(&b));
        let w = BigRational::new((x.numer() * y.denom()).gcd(&(y.numer() * x.denom())), x.denom() * y.denom());
        num!("int_gcd", r, w);
    }
    None
}

fn ratpow(g: &mut Gen) -> Option<String> {
    let m = *g.r.pick(&[3i128, 12]);
    let (n, d) = ((g.r.next() as i128 % (2 * m + 1)) - m, 1 + g.r.next() as i128 % m);
    let a = Rational::from((n, d));
    let (n, d) = ((g.r.next() as i128 % 25) - 12, 1 + g.r.next() as i128 % 9);
    let e = Rational::from((n, if g.r.p(1, 3) { 1 } else { d }));
    let (va, ve) = (Ex(big(&a)), Ex(big(&e)));
    CHECKED.fetch_add(1, Relaxed);
    if g.r.p(1, 4) {
        // quotient and remainder
        let (k, r) = e.div_rem();
        let want = big(&e);
        let kk = want.trunc();
        if big(&k) != kk || big(&r) != &want - &kk {
            return Some(format!("div_rem of {e:?}\n  result   {k:?} and {r:?}\n  expected {kk} and {}", &want - &kk));
        }
        return None;
    }
    if a.is_zero() && !e.is_pos() {
        return None;
    }
    let (p, r) = a.clone().pow(e.clone());
    if r.is_zero() {
        let w = pow(&va, &ve);
        if defined(&w) && differ(&w, &Ex(big(&p))) || !wf(&p) {
            return Some(format!("{a:?} to the power {e:?}\n  result   {p:?}\n  expected {w:?}"));
        }
        if matches!(w, V::Undef) {
            return Some(format!("{a:?} to the power {e:?}\n  result   {p:?}\n  expected no value"));
        }
    }
    if !r.is_zero() {
        // the base as it is or raised to the whole part of the exponent, and what is left of the exponent
        let (b, n) = if e.is_neg() { (big(&a).recip(), -big(&e)) } else { (big(&a), big(&e)) };
        let k = n.trunc();
        let whole = num::pow::pow(b.clone(), k.to_integer().iter_u32_digits().next().unwrap_or(0) as usize);
        let got = (big(&p), big(&r));
        if got != (big(&a), big(&e)) && got != (b.clone(), n.clone()) && got != (whole.clone(), &n - &k) || !wf(&p) {
            return Some(format!("{a:?} to the power {e:?}\n  result   {p:?} with remaining exponent {r:?}\n  expected {whole} with {}", &n - &k));
        }
    }
    if let Some(p) = a.clone().pow_basic(e.clone()) {
        let w = pow(&va, &ve);
        if differ(&w, &Ex(big(&p))) {
            return Some(format!("pow_basic: {a:?} to the power {e:?}\n  result   {p:?}\n  expected {w:?}"));
        }
    }
    if e.is_int() && !r.is_zero() {
        return Some(format!("{a:?} to the power {e:?}\n  result   {p:?} with remaining exponent {r:?}\n  expected a value"));
    }
    None
}

fn simplify(g: &mut Gen) -> Option<String> {
    g.symexp = false;
    let d = 1 + g.r.n(2);
    let e = g.expr(d);
    note(&e);
    if !numexp(&e) {
        return None;
    }
    let log = has_log(&e);
    let all = e.simplify();
    fn nodes(e: &Expr) -> usize {
        1 + e.args().iter().map(nodes).sum::<usize>()
    }
    for w in all.windows(2) {
        if nodes(&w[0]) > nodes(&w[1]) {
            return Some(format!("simplify of {e:?}\n  result   {:?} before {:?}\n  expected the one with fewer parts first", w[0], w[1]));
        }
    }
    for r in all {
        // where a logarithm is split its parts may be undefined
        let t = same(g, &format!("one of simplify of {e:?}"), &|env| if log && !(logok(&e, env) && defined(&eval(&r, env))) { V::Undef } else { eval(&e, env) }, &r);
        if t.is_some() {
            return t;
        }
    }
    None
}

#[allow(dead_code)]
fn is_log(e: &Expr) -> bool {
    matches!(e.atom(), Atom::Func(Func::Log(..)))
}
