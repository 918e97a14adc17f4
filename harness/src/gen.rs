//! Random expressions.
use crate::val::{q, Env};
use calcu_rs::prelude::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, k: usize) -> usize {
        (self.next() % k as u64) as usize
    }
    pub fn p(&mut self, num: usize, den: usize) -> bool {
        self.n(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.n(v.len());
        &v[i]
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Smart,
    Raw,
    Nested,
    Mixed,
}

pub struct Gen {
    pub r: Rng,
    pub mode: Mode,
    pub nvars: usize,
    pub funcs: usize,    // 0 none, 1 trig, 2 ln/exp, 3 all
    pub fracexp: bool,   // non-integer exponents
    pub symexp: bool,    // symbolic exponents
    pub irr: bool,
    pub negexp: bool,
    pub pool: Vec<Expr>,
}

pub const VARS: [&str; 4] = ["x", "y", "z", "w"];

pub fn rational(n: i64, d: i64) -> Expr {
    Expr::from(Rational::from((n as i128, d as i128)))
}

/// a sum or product that holds exactly the given operands
pub fn raw_nary(sum: bool, args: &[Expr]) -> Expr {
    let mut names: Vec<Expr> = vec![];
    for i in 0..args.len() {
        names.push(Expr::var(&format!("#{i}")));
    }
    let mut e = if args.len() >= 2 {
        let mut e = if sum { Expr::add_raw(&names[0], &names[1]) } else { Expr::mul_raw(&names[0], &names[1]) };
        for n in &names[2..] {
            e = if sum { Expr::add_raw(&e, n) } else { Expr::mul_raw(&e, n) };
        }
        e
    } else if sum {
        let mut s = Sum::zero();
        for n in &names {
            s.add_rhs(n);
        }
        Expr::from(s)
    } else {
        let mut s = Prod::one();
        for n in &names {
            s.mul_rhs(n);
        }
        Expr::from(s)
    };
    if e.args().len() != args.len() {
        return e;
    }
    for (i, a) in args.iter().enumerate() {
        e.args_mut()[i] = a.clone();
    }
    e
}

impl Gen {
    pub fn new(seed: u64) -> Gen {
        let mut r = Rng(seed);
        for _ in 0..3 {
            r.next();
        }
        let mode = *r.pick(&[Mode::Smart, Mode::Raw, Mode::Nested, Mode::Mixed]);
        let nvars = 1 + r.n(3);
        Gen { mode, nvars, funcs: *r.pick(&[0, 0, 1, 2, 3]), fracexp: r.p(1, 2), symexp: r.p(1, 4), irr: r.p(1, 3), negexp: r.p(2, 3), pool: vec![], r }
    }

    pub fn var(&mut self) -> Expr {
        let i = self.r.n(self.nvars);
        Expr::var(VARS[i])
    }

    pub fn rat(&mut self) -> Expr {
        let r = &mut self.r;
        match r.n(10) {
            0 => rational(0, 1),
            1 => rational(1, 1),
            2 => rational(-1, 1),
            3 => rational(2, 1),
            4 => rational(r.n(13) as i64 - 6, 1),
            5 => rational(r.n(13) as i64 - 6, 1 + r.n(6) as i64),
            6 => rational(*r.pick(&[1, -1, 3, 5]), *r.pick(&[2, 3, 4])),
            7 => rational(*r.pick(&[4, 8, 9, 10, 12, 16, 27, 32, 36, 64, 100]), 1),
            8 => rational(-(1 + r.n(9) as i64), 1),
            _ => rational(1 + r.n(9) as i64, 1),
        }
    }

    pub fn leaf(&mut self) -> Expr {
        match self.r.n(20) {
            0..=9 => self.var(),
            10..=16 => self.rat(),
            17 if self.irr => {
                if self.r.p(1, 2) {
                    Expr::pi()
                } else {
                    Expr::e()
                }
            }
            _ => self.var(),
        }
    }

    pub fn expo(&mut self) -> Expr {
        let neg = self.negexp;
        match self.r.n(12) {
            0 | 1 => rational(2, 1),
            2 => rational(3, 1),
            3 if neg => rational(-1, 1),
            4 if neg => rational(-2, 1),
            5 => rational(1, 1),
            6 => rational(0, 1),
            7 | 8 if self.fracexp => {
                let (n, d) = *self.r.pick(&[(1, 2), (-1, 2), (3, 2), (1, 3), (2, 3), (-3, 2), (5, 2), (-2, 3), (7, 3), (1, 4)]);
                rational(if neg { n } else { (n as i64).abs() }, d)
            }
            9 if self.symexp => self.var(),
            10 if self.symexp => {
                let d = 1 + self.r.n(2);
                self.expr(d)
            }
            11 => rational(self.r.n(5) as i64 + 1, 1),
            _ => rational(2, 1),
        }
    }

    fn smart(&mut self) -> bool {
        match self.mode {
            Mode::Smart => true,
            Mode::Raw | Mode::Nested => false,
            Mode::Mixed => self.r.p(1, 2),
        }
    }

    pub fn nary(&mut self, sum: bool, args: Vec<Expr>) -> Expr {
        if self.smart() {
            let mut it = args.into_iter();
            let f = it.next().unwrap();
            return it.fold(f, |a, b| if sum { Expr::add(&a, &b) } else { Expr::mul(&a, &b) });
        }
        let nest = match self.mode {
            Mode::Nested => true,
            Mode::Mixed => self.r.p(1, 2),
            _ => false,
        };
        if nest {
            raw_nary(sum, &args)
        } else {
            let mut it = args.into_iter();
            let f = it.next().unwrap();
            it.fold(f, |a, b| if sum { Expr::add_raw(&a, &b) } else { Expr::mul_raw(&a, &b) })
        }
    }

    pub fn pow(&mut self, b: Expr, e: Expr) -> Expr {
        if self.smart() {
            Expr::pow(&b, &e)
        } else {
            Expr::pow_raw(&b, &e)
        }
    }

    pub fn expr(&mut self, depth: usize) -> Expr {
        let e = self.expr0(depth);
        if self.pool.len() < 8 {
            self.pool.push(e.clone());
        } else {
            let i = self.r.n(8);
            self.pool[i] = e.clone();
        }
        e
    }

    fn expr0(&mut self, depth: usize) -> Expr {
        if depth == 0 || self.r.p(1, 7) {
            return self.leaf();
        }
        if !self.pool.is_empty() && self.r.p(1, 6) {
            let i = self.r.n(self.pool.len());
            return self.pool[i].clone();
        }
        match self.r.n(if self.funcs > 0 { 11 } else { 9 }) {
            0..=2 => {
                let n = self.arity();
                let a = (0..n).map(|_| self.expr(depth - 1)).collect();
                self.nary(true, a)
            }
            3..=5 => {
                let n = self.arity();
                let a = (0..n).map(|_| self.expr(depth - 1)).collect();
                self.nary(false, a)
            }
            6..=8 => {
                let b = self.expr(depth - 1);
                let e = self.expo();
                self.pow(b, e)
            }
            _ => {
                let a = self.expr(depth - 1);
                self.func(a)
            }
        }
    }

    pub fn arity(&mut self) -> usize {
        if self.r.p(1, 30) {
            return 5 + self.r.n(2);
        }
        match self.mode {
            Mode::Nested | Mode::Mixed => *self.r.pick(&[1, 2, 2, 2, 3, 3, 4]),
            _ => *self.r.pick(&[2, 2, 2, 3, 3, 4]),
        }
    }

    pub fn func(&mut self, a: Expr) -> Expr {
        let k = match self.funcs {
            1 => self.r.n(6),
            2 => 6 + self.r.n(3),
            _ => self.r.n(13),
        };
        match k {
            0 => Expr::sin(a),
            1 => Expr::cos(a),
            2 => {
                if self.r.p(1, 2) {
                    Expr::tan(a)
                } else {
                    Expr::sin(a)
                }
            }
            3 => {
                if self.r.p(1, 2) {
                    Expr::sec(a)
                } else {
                    Expr::cos(a)
                }
            }
            4 => Expr::cot(a),
            5 => Expr::csc(a),
            6 => Expr::ln(a),
            7 => {
                let e = Expr::e();
                self.pow(e, a)
            }
            8 => {
                if self.r.p(1, 3) {
                    match self.r.n(8) {
                        0 => Expr::log(Rational::from(2), a),
                        1 => Expr::log(Rational::from((1, 2)), a),
                        2 => Expr::log(Rational::from(100), a),
                        3 => Expr::log(Rational::from(16), a),
                        4 => Expr::log(Irrational::PI, a),
                        _ => Expr::log10(a),
                    }
                } else {
                    Expr::ln(a)
                }
            }
            9 => Expr::arc_sin(a),
            10 => Expr::arc_cos(a),
            11 => Expr::arc_tan(a),
            _ => match self.r.n(3) {
                0 => Expr::arc_sec(a),
                1 => Expr::arc_csc(a),
                _ => Expr::arc_cot(a),
            },
        }
    }

    pub fn depth(&mut self) -> usize {
        *self.r.pick(&[0, 1, 1, 2, 2, 2, 3, 3, 4])
    }

    pub fn any(&mut self) -> Expr {
        let d = self.depth();
        self.expr(d)
    }

    pub fn env(&mut self, i: usize) -> Env {
        let mut m = Env::new();
        let pos = [(2, 1), (3, 1), (5, 3), (7, 5), (1, 3), (11, 4), (13, 7), (1, 2), (9, 8)];
        let all = [(2, 1), (-1, 1), (-2, 1), (3, 1), (1, 2), (-1, 2), (0, 1), (1, 1), (-3, 2), (4, 1), (5, 3), (-7, 3)];
        for v in VARS {
            let &(n, d) = if i % 2 == 0 { self.r.pick(&pos) } else { self.r.pick(&all) };
            m.insert(v.to_string(), q(n, d));
        }
        m
    }
}

pub fn show_env(e: &Env) -> String {
    e.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(", ")
}
