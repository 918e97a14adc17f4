// numeric value of an expression at a point (f64; NaN where it has none)
use calcu_rs::atom::{Atom, Expr, Func, Irrational, Real, SymbolicExpr};
use calcu_rs::rational::Rational;

pub fn rat(r: &Rational) -> f64 {
    r.numer() as f64 / r.denom() as f64
}
fn real(r: &Real) -> f64 {
    match r {
        Real::Rational(r) => rat(r),
        Real::Irrational(Irrational::E) => std::f64::consts::E,
        Real::Irrational(Irrational::PI) => std::f64::consts::PI,
    }
}
fn pow(b: f64, e: f64) -> f64 {
    if b == 0.0 && e <= 0.0 {
        return f64::NAN;
    }
    b.powf(e)
}
/// value at x, y, z = env
pub fn eval(e: &Expr, env: &[(&str, f64)]) -> f64 {
    let ev = |a: &Expr| eval(a, env);
    match e.atom() {
        Atom::Undef => f64::NAN,
        Atom::Rational(r) => rat(r),
        Atom::Irrational(Irrational::E) => std::f64::consts::E,
        Atom::Irrational(Irrational::PI) => std::f64::consts::PI,
        Atom::Var(v) => {
            let n = format!("{v:?}");
            let n = n.trim_matches('"');
            env.iter().find(|(k, _)| *k == n).map(|p| p.1).unwrap_or(f64::NAN)
        }
        Atom::Sum(s) => s.args.iter().map(ev).sum(),
        Atom::Prod(p) => p.args.iter().map(ev).product(),
        Atom::Pow(p) => pow(ev(p.base()), ev(p.exponent())),
        Atom::Func(f) => {
            let x = ev(&f.args()[0]);
            match f {
                Func::Sin(_) => x.sin(),
                Func::Cos(_) => x.cos(),
                Func::Tan(_) => x.tan(),
                Func::Sec(_) => 1.0 / x.cos(),
                Func::Csc(_) => 1.0 / x.sin(),
                Func::Cot(_) => x.cos() / x.sin(),
                Func::ArcSin(_) => x.asin(),
                Func::ArcCos(_) => x.acos(),
                Func::ArcTan(_) => x.atan(),
                Func::ArcSec(_) => (1.0 / x).acos(),
                Func::ArcCsc(_) => (1.0 / x).asin(),
                Func::ArcCot(_) => (1.0 / x).atan(),
                Func::Log(b, _) => x.ln() / real(b).ln(),
            }
        }
    }
}

/// the values agree wherever `want` has one
pub fn agree(want: f64, got: f64) -> bool {
    !want.is_finite() || (got.is_finite() && (want - got).abs() <= 1e-6 * (1.0 + want.abs() + got.abs()))
}

/// points to look at
pub fn points() -> Vec<Vec<(&'static str, f64)>> {
    let mut v = vec![];
    for x in [-2.5, -1.0, 0.5, 1.0, 3.0] {
        for y in [-3.0, -0.25, 0.75, 2.0] {
            for z in [-1.5, 0.5, 1.25] {
                v.push(vec![("x", x), ("y", y), ("z", z)]);
            }
        }
    }
    v
}

/// print and leave with 1 if got differs from want somewhere
pub fn expect(what: &str, want: &dyn Fn(&[(&str, f64)]) -> f64, got: &Expr) {
    for p in points() {
        let (w, g) = (want(&p), eval(got, &p));
        if !agree(w, g) {
            println!("{what}: {got:?} is {g} at {p:?}, should be {w}");
            std::process::exit(1);
        }
    }
}

/// got has the value of e
pub fn same(what: &str, e: &Expr, got: &Expr) {
    expect(what, &|p| eval(e, p), got)
}
