//! Rigorous evaluation of expressions: exact rationals where possible, outward rounded intervals otherwise.
//! Every value carries its derivative with respect to one chosen variable.
use calcu_rs::atom::{Atom, Func, Irrational, Real};
use calcu_rs::prelude::*;
use num::{BigInt, BigRational, One, Signed, ToPrimitive, Zero};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum V {
    Undef,
    Unk,
    Ex(BigRational),
    Iv(f64, f64),
}
use V::*;

pub type Env = BTreeMap<String, BigRational>;

pub fn q(n: i64, d: i64) -> BigRational {
    BigRational::new(BigInt::from(n), BigInt::from(d))
}

fn iv(a: f64, b: f64) -> V {
    if a.is_nan() || b.is_nan() || !a.is_finite() || !b.is_finite() || a > b {
        return Unk;
    }
    let p = |x: f64| x.abs() * 4e-15 + 1e-290;
    let (lo, hi) = (a - p(a), b + p(b));
    if hi - lo > 1e-3 * (1.0 + lo.abs().max(hi.abs())) || hi.abs() > 1e200 || lo.abs() > 1e200 {
        return Unk;
    }
    Iv(lo, hi)
}

fn bounds(v: &V) -> Option<(f64, f64)> {
    match v {
        Ex(r) => {
            let x = to_f64(r)?;
            Some((x - x.abs() * 4e-15 - 1e-290, x + x.abs() * 4e-15 + 1e-290))
        }
        Iv(a, b) => Some((*a, *b)),
        _ => None,
    }
}

fn to_f64(r: &BigRational) -> Option<f64> {
    if r.is_zero() {
        return Some(0.0);
    }
    // scale both parts to about 900 bits at most
    let (n, d) = (r.numer(), r.denom());
    let s = n.bits().max(d.bits());
    if s > 900 {
        let sh = s - 900;
        let n = n >> sh;
        let d = d >> sh;
        if d.bits() < 60 || n.bits() < 60 {
            return None;
        }
        return Some(n.to_f64()? / d.to_f64()?);
    }
    let x = n.to_f64()? / d.to_f64()?;
    if x.is_finite() && x != 0.0 {
        Some(x)
    } else {
        None
    }
}

fn small(r: &BigRational) -> bool {
    r.numer().bits() + r.denom().bits() < 4000
}

fn ex(r: BigRational) -> V {
    if small(&r) {
        Ex(r)
    } else {
        match to_f64(&r) {
            Some(x) => iv(x, x),
            None => Unk,
        }
    }
}

pub fn zero() -> V {
    Ex(BigRational::zero())
}
pub fn one() -> V {
    Ex(BigRational::one())
}

pub fn add(a: &V, b: &V) -> V {
    match (a, b) {
        (Undef, _) | (_, Undef) => Undef,
        (Unk, _) | (_, Unk) => Unk,
        (Ex(x), Ex(y)) => ex(x + y),
        _ => match (bounds(a), bounds(b)) {
            (Some((a, b)), Some((c, d))) => {
                // absolute error of the sum of the operands
                let e = (a.abs() + b.abs() + c.abs() + d.abs()) * 1e-15;
                iv(a + c - e, b + d + e)
            }
            _ => Unk,
        },
    }
}

pub fn neg(a: &V) -> V {
    match a {
        Ex(x) => Ex(-x),
        Iv(a, b) => Iv(-b, -a),
        v => v.clone(),
    }
}

pub fn mul(a: &V, b: &V) -> V {
    match (a, b) {
        (Undef, _) | (_, Undef) => Undef,
        (Ex(x), o) | (o, Ex(x)) if x.is_zero() => match o {
            Unk => Unk,
            _ => zero(),
        },
        (Unk, _) | (_, Unk) => Unk,
        (Ex(x), Ex(y)) => ex(x * y),
        _ => match (bounds(a), bounds(b)) {
            (Some((a, b)), Some((c, d))) => {
                let p = [a * c, a * d, b * c, b * d];
                iv(p.iter().cloned().fold(f64::INFINITY, f64::min), p.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
            }
            _ => Unk,
        },
    }
}

/// -1, 0, 1 when the sign is certain
pub fn sign(v: &V) -> Option<i32> {
    match v {
        Ex(r) => Some(if r.is_zero() { 0 } else if r.is_positive() { 1 } else { -1 }),
        Iv(a, _) if *a > 0.0 => Some(1),
        Iv(_, b) if *b < 0.0 => Some(-1),
        _ => None,
    }
}

fn is_int(v: &V) -> Option<i64> {
    match v {
        Ex(r) if r.is_integer() => r.to_integer().to_i64(),
        _ => None,
    }
}

/// an argument without usable bounds
fn unknown(v: &V) -> V {
    match v {
        Undef => Undef,
        _ => Unk,
    }
}

fn mono(v: &V, f: impl Fn(f64) -> f64, up: bool) -> V {
    match bounds(v) {
        Some((a, b)) => {
            let (x, y) = (f(a), f(b));
            if up {
                iv(x, y)
            } else {
                iv(y, x)
            }
        }
        None => unknown(v),
    }
}

fn root_exact(r: &BigRational, k: u32) -> Option<BigRational> {
    if r.is_negative() {
        return None;
    }
    let n = r.numer().nth_root(k);
    let d = r.denom().nth_root(k);
    if n.pow(k) == *r.numer() && d.pow(k) == *r.denom() {
        Some(BigRational::new(n, d))
    } else {
        None
    }
}

pub fn pow(b: &V, e: &V) -> V {
    match (b, e) {
        (Undef, _) | (_, Undef) => return Undef,
        (Unk, _) | (_, Unk) => return Unk,
        _ => (),
    }
    let sb = sign(b);
    match sb {
        Some(0) => {
            return match sign(e) {
                Some(1) => zero(),
                Some(_) => Undef,
                None => Unk,
            }
        }
        Some(-1) => match e {
            Ex(r) if !r.is_integer() => return Undef,
            Iv(..) => return Unk,
            _ => (),
        },
        _ => (),
    }
    if let Ex(er) = e {
        if let Some(n) = is_int(e) {
            if sb.is_none() && n <= 0 {
                return Unk;
            }
            if let Ex(br) = b {
                let bits = (br.numer().bits() + br.denom().bits()).saturating_mul(n.unsigned_abs());
                if bits < 4000 || br.abs().is_one() {
                    if br.abs().is_one() {
                        return if br.is_one() || n % 2 == 0 { one() } else { Ex(-BigRational::one()) };
                    }
                    return ex(num::pow::Pow::pow(br, n as i32));
                }
            }
            if n == 0 {
                return one();
            }
            if n.abs() > 300 {
                return match sb {
                    Some(1) => exp(&mul(e, &ln(b))),
                    _ => Unk,
                };
            }
            let (lo, hi) = match bounds(b) {
                Some(x) => x,
                None => return Unk,
            };
            let n = n as i32;
            let (x, y) = (lo.powi(n), hi.powi(n));
            let w = n.unsigned_abs() as f64 * 4e-15;
            let wid = |a: f64, b: f64| iv(a - a.abs() * w, b + b.abs() * w);
            if lo < 0.0 && hi > 0.0 {
                return if n % 2 == 0 { wid(0.0, x.max(y)) } else { wid(x, y) };
            }
            return wid(x.min(y), x.max(y));
        }
        if er.is_integer() {
            return Unk;
        }
        if let Ex(br) = b {
            // exact roots
            if let (Some(k), true) = (er.denom().to_u32(), br.is_positive()) {
                if k < 64 {
                    if let Some(r) = root_exact(br, k) {
                        return pow(&Ex(r), &Ex(BigRational::from(er.numer().clone())));
                    }
                }
            }
        }
    }
    match sb {
        Some(1) => {
            if let Ex(br) = b {
                if br.is_one() {
                    return one();
                }
            }
            exp(&mul(e, &ln(b)))
        }
        _ => Unk,
    }
}

pub fn exp(v: &V) -> V {
    match v {
        Ex(r) if r.is_zero() => one(),
        Undef | Unk => v.clone(),
        _ => {
            // absolute error of the argument becomes relative error of the result
            let (a, b) = match bounds(v) {
                Some(x) => x,
                None => return Unk,
            };
            iv(a.exp(), b.exp())
        }
    }
}

pub fn ln(v: &V) -> V {
    match v {
        Undef | Unk => return v.clone(),
        Ex(r) if r.is_one() => return zero(),
        _ => (),
    }
    match sign(v) {
        Some(1) => mono(v, f64::ln, true),
        Some(_) => Undef,
        None => Unk,
    }
}

fn lip(v: &V, f: impl Fn(f64) -> f64, l: f64) -> V {
    match bounds(v) {
        Some((a, b)) => {
            let m = (a + b) / 2.0;
            let r = (b - a) / 2.0 * l + m.abs() * 1e-15 + 1e-15;
            let y = f(m);
            iv(y - r, y + r)
        }
        None => unknown(v),
    }
}

pub fn sin(v: &V) -> V {
    match v {
        Ex(r) if r.is_zero() => zero(),
        _ => lip(v, f64::sin, 1.0),
    }
}
pub fn cos(v: &V) -> V {
    match v {
        Ex(r) if r.is_zero() => one(),
        _ => lip(v, f64::cos, 1.0),
    }
}

pub fn inv(v: &V) -> V {
    pow(v, &Ex(-BigRational::one()))
}

/// value and derivative
#[derive(Clone, Debug)]
pub struct D {
    pub v: V,
    pub d: V,
}

fn k(v: V) -> D {
    D { v, d: zero() }
}

fn dmul(a: &D, b: &D) -> D {
    D { v: mul(&a.v, &b.v), d: add(&mul(&a.d, &b.v), &mul(&a.v, &b.d)) }
}
fn dadd(a: &D, b: &D) -> D {
    D { v: add(&a.v, &b.v), d: add(&a.d, &b.d) }
}

fn dpow(b: &D, e: &D) -> D {
    let v = pow(&b.v, &e.v);
    if matches!(v, Undef) {
        return D { v, d: Undef };
    }
    let ezero = matches!(&e.d, Ex(r) if r.is_zero());
    let bzero = matches!(&b.d, Ex(r) if r.is_zero());
    let d = if ezero && bzero {
        zero()
    } else if ezero {
        // e b^(e-1) b'
        let p = pow(&b.v, &add(&e.v, &Ex(-BigRational::one())));
        // x^1 at x = 0
        let p = match (&e.v, &b.v) {
            (Ex(r), _) if r.is_one() => one(),
            _ => p,
        };
        mul(&mul(&e.v, &p), &b.d)
    } else {
        let l = ln(&b.v);
        let r = if bzero { zero() } else { mul(&mul(&e.v, &b.d), &inv(&b.v)) };
        mul(&v, &add(&mul(&e.d, &l), &r))
    };
    D { v, d }
}

fn one_minus_sq(v: &V) -> V {
    add(&one(), &neg(&mul(v, v)))
}
fn half() -> V {
    Ex(q(1, 2))
}

fn func(f: &Func, env: &Env, wrt: &str) -> D {
    let a = |e: &Expr| evald(e, env, wrt);
    let ch = |u: &D, v: V, dv: V| D { d: if matches!(&u.d, Ex(r) if r.is_zero()) { zero() } else { mul(&dv, &u.d) }, v };
    let isq = |v: &V| inv(&pow(&one_minus_sq(v), &half()));
    match f {
        Func::Sin(x) => {
            let u = a(x);
            ch(&u, sin(&u.v), cos(&u.v))
        }
        Func::Cos(x) => {
            let u = a(x);
            ch(&u, cos(&u.v), neg(&sin(&u.v)))
        }
        Func::Tan(x) => {
            let u = a(x);
            let c = cos(&u.v);
            ch(&u, mul(&sin(&u.v), &inv(&c)), inv(&mul(&c, &c)))
        }
        Func::Sec(x) => {
            let u = a(x);
            let c = cos(&u.v);
            ch(&u, inv(&c), mul(&sin(&u.v), &inv(&mul(&c, &c))))
        }
        Func::Cot(x) => {
            let u = a(x);
            let s = sin(&u.v);
            ch(&u, mul(&cos(&u.v), &inv(&s)), neg(&inv(&mul(&s, &s))))
        }
        Func::Csc(x) => {
            let u = a(x);
            let s = sin(&u.v);
            ch(&u, inv(&s), neg(&mul(&cos(&u.v), &inv(&mul(&s, &s)))))
        }
        Func::ArcSin(x) => {
            let u = a(x);
            ch(&u, asin(&u.v), isq(&u.v))
        }
        Func::ArcCos(x) => {
            let u = a(x);
            ch(&u, acos(&u.v), neg(&isq(&u.v)))
        }
        Func::ArcTan(x) => {
            let u = a(x);
            ch(&u, atan(&u.v), inv(&add(&one(), &mul(&u.v, &u.v))))
        }
        Func::ArcCot(x) => {
            let u = a(x);
            let h = iv(std::f64::consts::FRAC_PI_2, std::f64::consts::FRAC_PI_2);
            ch(&u, add(&h, &neg(&atan(&u.v))), neg(&inv(&add(&one(), &mul(&u.v, &u.v)))))
        }
        Func::ArcSec(x) => {
            let u = a(x);
            let w = inv(&u.v);
            let dv = mul(&isq(&w), &mul(&w, &w));
            ch(&u, acos(&w), dv)
        }
        Func::ArcCsc(x) => {
            let u = a(x);
            let w = inv(&u.v);
            let dv = neg(&mul(&isq(&w), &mul(&w, &w)));
            ch(&u, asin(&w), dv)
        }
        Func::Log(b, x) => {
            let u = a(x);
            let lb = match b {
                Real::Irrational(Irrational::E) => one(),
                Real::Irrational(Irrational::PI) => ln(&pi()),
                Real::Rational(r) => {
                    let v = rat(r);
                    match sign(&v) {
                        Some(1) => ln(&v),
                        _ => Undef,
                    }
                }
            };
            let il = inv(&lb);
            ch(&u, mul(&ln(&u.v), &il), mul(&inv(&u.v), &il))
        }
    }
}

fn asin(v: &V) -> V {
    unit(v, f64::asin, true)
}
fn acos(v: &V) -> V {
    unit(v, f64::acos, false)
}
fn unit(v: &V, f: impl Fn(f64) -> f64, up: bool) -> V {
    match v {
        Ex(r) => {
            if r.abs() > BigRational::one() {
                return Undef;
            }
            if r.abs().is_one() {
                let y = f(if r.is_positive() { 1.0 } else { -1.0 });
                return iv(y, y);
            }
            mono(v, f, up)
        }
        Iv(a, b) if *a > -1.0 && *b < 1.0 => mono(v, f, up),
        Iv(a, b) if *a > 1.0 || *b < -1.0 => Undef,
        Iv(..) => Unk,
        _ => v.clone(),
    }
}
fn atan(v: &V) -> V {
    mono(v, f64::atan, true)
}

fn pi() -> V {
    iv(std::f64::consts::PI, std::f64::consts::PI)
}

pub fn rat(r: &Rational) -> V {
    Ex(BigRational::new(BigInt::from(r.numer()), BigInt::from(r.denom())))
}

pub fn evald(e: &Expr, env: &Env, wrt: &str) -> D {
    match e.atom() {
        Atom::Undef => D { v: Undef, d: Undef },
        Atom::Rational(r) => k(rat(r)),
        Atom::Irrational(Irrational::E) => k(iv(std::f64::consts::E, std::f64::consts::E)),
        Atom::Irrational(Irrational::PI) => k(pi()),
        Atom::Var(v) => {
            let n = v.to_string();
            let d = if n == wrt { one() } else { zero() };
            match env.get(&n) {
                Some(x) => D { v: Ex(x.clone()), d },
                None => D { v: Unk, d: Unk },
            }
        }
        Atom::Sum(_) => e.args().iter().map(|a| evald(a, env, wrt)).fold(k(zero()), |s, a| dadd(&s, &a)),
        Atom::Prod(_) => e.args().iter().map(|a| evald(a, env, wrt)).fold(k(one()), |s, a| dmul(&s, &a)),
        Atom::Pow(p) => dpow(&evald(p.base(), env, wrt), &evald(p.exponent(), env, wrt)),
        Atom::Func(f) => func(f, env, wrt),
    }
}

pub fn eval(e: &Expr, env: &Env) -> V {
    evald(e, env, "").v
}

pub fn defined(v: &V) -> bool {
    matches!(v, Ex(_) | Iv(..))
}

/// the two values are certainly different
pub fn differ(a: &V, b: &V) -> bool {
    match (a, b) {
        (Ex(x), Ex(y)) => x != y,
        _ => match (bounds(a), bounds(b)) {
            (Some((a, b)), Some((c, d))) => b < c || d < a,
            _ => false,
        },
    }
}

/// want is the value of the input: the result must be defined and equal to it
pub fn wrong(want: &V, got: &V) -> bool {
    defined(want) && (matches!(got, Undef) || differ(want, got))
}
