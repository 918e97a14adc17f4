from bugs import bug
A, AL, R, P = 'src/atom.rs', 'src/algos.rs', 'src/rational.rs', 'src/polynomial.rs'

bug('pow-of-pow', 'C03', 'a power raised to a fraction whose inner exponent is even, at a point where the base is negative',
    '(x^2)^(1/2) becomes x: raising a power to a non-integer number multiplies the exponents',
    [(AL, "(A::Pow(pow), A::Rational(e)) if e.is_int() => {\n                Expr::pow(pow.base()", "(A::Pow(pow), A::Rational(_)) => {\n                Expr::pow(pow.base()")],
    '''
    for e in [(1, 2), (3, 2), (-1, 2)] {
        let x = Expr::from("x");
        let inner = Expr::pow(&x, Expr::from(2));
        let r = Rational::from(e);
        let got = Expr::pow(&inner, Expr::from(r));
        expect("(x^2)^r", &|p| (p[0].1 * p[0].1).powf(rat(&r)), &got);
    }''')
bug('irrational-coeff', 'C03', 'a product with pi or e as factor next to a rational coefficient, added to a multiple of the rest',
    'the non-rational part of a product drops irrational factors while the coefficient keeps only rational ones: 2*pi*x + 3*x becomes 5*x',
    [(A, ".filter(|a| !a.is_rational())", ".filter(|a| !a.is_const())")],
    '''
    let x = Expr::from("x");
    let a = Expr::from(2) * Expr::pi() * &x;
    let b = Expr::from(3) * &x;
    let want = |p: &[(&str, f64)]| (2.0 * std::f64::consts::PI + 3.0) * p[0].1;
    expect("2*pi*x + 3*x", &want, &(&a + &b));
    expect("3*x + 2*pi*x", &want, &(&b + &a));
''')
bug('prod-pow-remainder', 'C03', 'a product multiplied by an integer power of a product of three factors of which exactly one is already there',
    'x * (x*y*z)^2 loses the factor z^2: only the first unmatched factor of the power is kept',
    [(AL, "                    if remainder.len() == 1 {", "                    if !remainder.is_empty() && remainder.len() < rhs_terms.len() {")],
    '''
    let (x, y, z) = (Expr::from("x"), Expr::from("y"), Expr::from("z"));
    let p = Expr::pow(&x * &y * &z, Expr::from(2));
    let got = (&x * &Expr::from(3)) * &p;
    expect("3x * (xyz)^2", &|p| 3.0 * p[0].1 * (p[0].1 * p[1].1 * p[2].1).powi(2), &got);
''')

# ---------------------------------------------------------------- C01, C02
bug('even-negative', 'C01', 'an odd negative integer', '-3 counts as even: the remainder of a negative odd number is -1, not 1',
    [(R, "self.numer() % 2 == 0\n            //marith", "self.numer() % 2 != 1\n            //marith")],
    '''
    for n in [-7, -3, -1, 1, 5] { if Rational::from(n).is_even() || !Rational::from(n).is_odd() { println!("{n}"); std::process::exit(1) } }
    for n in [-4, -2, 0, 2, 6] { if !Rational::from(n).is_even() || Rational::from(n).is_odd() { println!("{n}"); std::process::exit(1) } }
''')
bug('new-unreduced', 'C01', 'a rational given by numerator and denominator in i32 that is an integer or not in lowest terms and has a negative denominator',
    'pairs of i32 whose denominator divides into lowest terms only with a negative denominator stay as they are: 3/(-2) keeps a negative denominator, so it is not negative',
    [(R, '    fn from(value: (i32, i32)) -> Self {\n        Self::new(value.0, value.1)', '    fn from(value: (i32, i32)) -> Self {\n        let (n, d) = (value.0 as Int, value.1 as Int);\n        if n % 2 != 0 && (d == 1 || d == -2) { Self::new_raw(n, d) } else { Self::new(n, d) }')],
    '''
    let a = Rational::from((3, -2));
    if !a.is_neg() || a.denom() <= 0 || a != Rational::from((-3, 2)) { println!("{a:?}"); std::process::exit(1) }
''')
bug('floor-trunc', 'C02', 'a negative fraction', 'floor cuts off towards zero: floor(-1/2) is 0',
    [(R, "*self.0.floor().numer()", "*self.0.trunc().numer()")],
    '''
    for (n, d, f) in [(-1, 2, -1), (-7, 3, -3), (7, 3, 2), (-4, 2, -2), (1, 2, 0)] {
        if Rational::from((n, d)).floor() != f { println!("{n}/{d}"); std::process::exit(1) }
    }
''')
bug('gcd-common-num', 'C02', 'two rationals with different denominators', 'the common divisor of 1/2 and 1/3 is given as 1/2',
    [(R, "if self.denom() == rhs.denom() {\n            let n_gcd", "if self.denom() == rhs.denom() || self.numer() == rhs.numer() {\n            let n_gcd")],
    '''
    for (a, b) in [((1, 2), (1, 3)), ((3, 4), (9, 4)), ((2, 5), (2, 3)), ((6, 7), (-4, 7))] {
        let (a, b) = (Rational::from(a), Rational::from(b));
        if let Some(g) = a.int_gcd(&b) {
            if !(a / g).is_int() || !(b / g).is_int() { println!("{a:?} {b:?} {g:?}"); std::process::exit(1) }
        }
    }
''')
bug('pow-rest-unsplit', 'C02', 'a negative fractional exponent below -1', 'a fractional exponent below -1 is split with the base not inverted for the whole part: 2^(-3/2) gives 2^1 and the rest 1/2',
    [(R, '            let (quot, rem) = num::integer::div_rem(numer, denom); //marith::DivRem::div_rem(num, den);', '            let (quot, rem) = num::integer::div_rem(numer + denom / 5, denom); //marith::DivRem::div_rem(num, den);\n            let rem = if rem < denom / 5 { rem } else { rem - denom / 5 };')],
    '''
    for (b, e) in [(2, (-8, 3)), (3, (8, 3)), (2, (5, 3)), (5, (14, 5)), (2, (-3, 2))] {
        let (b, e) = (Rational::from(b), Rational::from(e));
        let (p, r) = b.pow(e);
        let base = if e.is_neg() { b.inverse().unwrap() } else { b };
        if (rat(&p) * rat(&base).powf(rat(&r)) - rat(&b).powf(rat(&e))).abs() > 1e-9 && !(p == base && r == e.abs()) { println!("{b:?} {e:?} {p:?} {r:?}"); std::process::exit(1) }
    }
''')

# ---------------------------------------------------------------- C04
bug('zero-to-neg-fraction', 'C04', 'zero raised to a negative number that is not an integer', '0^(-1/2) is left as a power instead of being undefined',
    [(AL, "            || (base.is_zero() && exponent.is_neg())\n        {\n            return Expr::undef();\n        }\n\n        if base.is_one() {", "            || (base.is_zero() && exponent.is_neg() && exponent.is_int())\n        {\n            return Expr::undef();\n        }\n\n        if base.is_one() {")],
    '''
    for e in [(-1, 1), (-2, 1), (-1, 2), (-7, 3), (0, 1)] {
        let e = Expr::from(Rational::from(e));
        if !Expr::pow(Expr::zero(), &e).is_undef() { println!("0^{e:?}"); std::process::exit(1) }
    }
    if Expr::pow(Expr::zero(), Expr::from(Rational::from((1, 2)))).is_undef() { std::process::exit(1) }
''')
bug('one-to-undef', 'C04', 'one raised to the undefined expression', '1^undef is 1',
    [(AL, "        if base.is_undef()\n            || exponent.is_undef()\n            || (base.is_zero() && exponent.is_zero())\n            || (base.is_zero() && exponent.is_neg())\n        {\n            return Expr::undef();\n        }\n\n        if base.is_one() {\n            return Expr::one();\n        } else if exponent.is_one() {",
           "        if base.is_one() {\n            return Expr::one();\n        }\n        if base.is_undef()\n            || exponent.is_undef()\n            || (base.is_zero() && exponent.is_zero())\n            || (base.is_zero() && exponent.is_neg())\n        {\n            return Expr::undef();\n        }\n\n        if exponent.is_one() {")],
    '''
    for b in [Expr::one(), Expr::zero(), Expr::from("x"), Expr::undef()] {
        if !Expr::pow(&b, Expr::undef()).is_undef() { println!("{b:?}^undef"); std::process::exit(1) }
        if !Expr::pow(Expr::undef(), &b).is_undef() { println!("undef^{b:?}"); std::process::exit(1) }
    }
''')
bug('zero-times-undef', 'C04', 'zero multiplied by the undefined expression', '0 * undef is 0: the test for zero comes first',
    [(AL, "        if lhs.is_undef() || rhs.is_undef() {\n            return Expr::undef();\n        } else if lhs.is_zero() || rhs.is_zero() {\n            return Expr::zero();\n        } else if lhs.is_one() {", "        if lhs.is_zero() || rhs.is_zero() {\n            return Expr::zero();\n        } else if lhs.is_undef() || rhs.is_undef() {\n            return Expr::undef();\n        } else if lhs.is_one() {")],
    '''
    for b in [Expr::one(), Expr::zero(), Expr::from("x"), Expr::undef()] {
        if !(&b * Expr::undef()).is_undef() || !(Expr::undef() * &b).is_undef() || !(Expr::undef() / &b).is_undef() || !(&b - Expr::undef()).is_undef() { println!("{b:?}"); std::process::exit(1) }
    }
''')

# ---------------------------------------------------------------- C05
bug('reduce-pow-rest', 'C05', 'a rational raised to a fraction above one', '2^(5/2) reduces to 4^(1/2): the rest of the exponent is put on the power that was taken',
    [(A, "                    A::Pow(self.clone()).into()\n                }\n            }", "                    Expr::pow_raw(Expr::from(res), Expr::from(rem))\n                }\n            }")],
    '''
    for (b, e) in [(2, (1, 2)), (2, (5, 2)), (3, (7, 3)), (5, (-3, 2)), (2, (3, 1))] {
        let r = Rational::from(e);
        let e = Expr::pow_raw(Expr::from(b), Expr::from(r));
        expect("b^e", &|_| (b as f64).powf(rat(&r)), &e.reduce());
    }
''')
bug('reduce-cos-neg', 'C05', 'the cosine of a negative multiple that is not -1, or a sine whose argument has coefficient -1 next to irrational factors',
    'cos(-2*x) keeps its value, but sin(-2x) loses its sign: the negative sine drops the factor',
    [(A, "return Expr::min_one() * Expr::sin(Expr::min_one() * x);", "return Expr::sin(Expr::min_one() * x);")],
    '''
    let x = Expr::from("x");
    for n in [-1, -2, -5, 3] {
        expect("sin(n x)", &|p| (n as f64 * p[0].1).sin(), &Expr::sin(Expr::from(n) * &x).reduce());
        expect("cos(n x)", &|p| (n as f64 * p[0].1).cos(), &Expr::cos(Expr::from(n) * &x).reduce());
    }
''')
bug('reduce-merge-drop', 'C05', 'two merged products whose first factors combine, the second one having at least four factors', 'when the first factors of two merged products combine to one, the rest of the second list is cut after two factors',
    [(AL, "Prod::flat_merge(&h[0], Prod::merge_args(p_rest, q_rest))", "Prod::flat_merge(\n                    &h[0],\n                    Prod::merge_args(p_rest, if q_rest.len() > 2 { &q_rest[..2] } else { q_rest }),\n                )")],
    '''
    let (x, y, z) = (Expr::from("x"), Expr::from("y"), Expr::from("z"));
    let m = |v: Vec<Expr>| -> Expr { Atom::Prod(calcu_rs::atom::Prod { args: v }).into() };
    let h = |n: i32, e: &Expr| Expr::pow_raw(e, Expr::from(n));
    let e = m(vec![m(vec![x.clone(), y.clone()]), m(vec![x.clone(), Expr::sin(&y), Expr::cos(&z), Expr::cos(&x)])]);
    let f = m(vec![Expr::from(3), m(vec![Expr::from(2), y.clone(), Expr::sin(&y), Expr::sin(&z), Expr::cos(&z)])]);
    let g = m(vec![m(vec![Expr::from(Rational::from((1, 2))), x.clone()]), m(vec![Expr::from(3), y.clone(), Expr::sin(&y), Expr::sin(&z), Expr::cos(&z)])]);
    expect("f", &|p| eval(&f, p), &f.reduce());
    expect("e", &|p| eval(&e, p), &e.reduce());
    expect("g", &|p| eval(&g, p), &g.reduce());
''')

# ---------------------------------------------------------------- C06
bug('expand-frac-rest', 'C06', 'a sum raised to a fraction above two', '(x + y)^(5/2) is split into the square and a rest that is one less than the exponent',
    [(AL, "                let (div, rem) = r.div_rem();\n", "                let (div, _) = r.div_rem();\n                let rem = *r - &Rational::ONE;\n")],
    '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    for e in [(3, 2), (5, 2), (7, 3), (10, 3)] {
        let r = Rational::from(e);
        let s = Expr::pow(&x + &y, Expr::from(r));
        expect("(x+y)^r", &|p| (p[0].1 + p[1].1).powf(rat(&r)), &s.expand());
    }
''')
bug('distribute-first-tail', 'C06', 'a product with its sum in the middle: two factors before it', 'distributing over the first sum drops factors standing before the sum when one follows it',
    [(AL, "            if i < sum_indx {\n                a.args.push(arg.clone())", "            if i < sum_indx && (i == 0 || sum_indx + 1 == self.args.len()) {\n                a.args.push(arg.clone())")],
    '''
    let (x, y, z) = (Expr::from("x"), Expr::from("y"), Expr::from("z"));
    let m = |v: Vec<Expr>| -> Expr { Atom::Prod(calcu_rs::atom::Prod { args: v }).into() };
    for e in [m(vec![x.clone(), &y + &z, z.clone()]), m(vec![x.clone(), y.clone(), &y + &z, z.clone()]), m(vec![x.clone(), y.clone(), &y + &z])] {
        expect("distribute", &|p| eval(&e, p), &e.distribute());
    }
''')
bug('expand-binomial-sym', 'C06', 'a sum raised to a power of at least four', 'the binomial coefficient of the second term is used for all inner terms from the fourth power on',
    [(AL, "                let c = binomial_coeff(e, k);\n", "                let c = binomial_coeff(e, if e > 4 && k > 2 { e - 2 } else { k });\n")],
    '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    for n in 2..8 {
        let s = Expr::pow(&x + &y, Expr::from(n));
        expect("(x+y)^n", &|p| (p[0].1 + p[1].1).powi(n), &s.expand());
    }
''')

# ---------------------------------------------------------------- C07, C08
bug('trig-neg-multiple', 'C07', 'the sine of a negative multiple of a sum', 'sin(-n*x) loses its sign unless n is one',
    [(AL, "                if n < 0 {\n                    s = Expr::min_one() * s;", "                if n == -1 || n == -2 || n == -3 {\n                    s = Expr::min_one() * s;")],
    '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    for n in [-5, -4, -3, -2, 2, 3] {
        let f = |g: fn(&Expr) -> Expr, a: &Expr| g(a);
        let a = Expr::from(n) * &x;
        expect("sin(n x)", &|p| (n as f64 * p[0].1).sin(), &Expr::sin(&a).expand_trig());
        expect("cos(n x)", &|p| (n as f64 * p[0].1).cos(), &Expr::cos(&a).expand_trig());
    }
''')
bug('subst-cot-inverted', 'C07', 'a cotangent whose argument is a power', 'cot of a power is replaced by sin/cos',
    [(AL, '            A::Func(F::Cot(x)) => Expr::cos(x) / Expr::sin(x),', '            A::Func(F::Cot(x)) => {\n                let e = if x.is_pow() { Expr::one() } else { Expr::min_one() };\n                Expr::pow(Expr::sin(x) / Expr::cos(x), e)\n            }')],
    '''
    let x = Expr::from("x");
    expect("cot(x^2)", &|p| 1.0 / (p[0].1 * p[0].1).tan(), &Expr::cot(Expr::pow(&x, Expr::from(2))).substitute_trig());
    expect("cot(x)", &|p| 1.0 / p[0].1.tan(), &Expr::cot(&x).substitute_trig());
    expect("csc(x)", &|p| 1.0 / p[0].1.sin(), &Expr::csc(&x).substitute_trig());
''')
bug('contract-cos-sin', 'C08', 'a cosine times a sine in this order with different arguments', 'cos(a)*sin(b) turns into (sin(a+b) + sin(a-b))/2',
    [(AL, "return sin(theta + phi) / &two + sin(phi - theta) / &two;", "return sin(theta + phi) / &two + sin(theta - phi) / &two;")],
    '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    expect("cos x sin y", &|p| p[0].1.cos() * p[1].1.sin(), &(Expr::cos(&x) * Expr::sin(&y)).contract_trig());
    expect("sin x cos y", &|p| p[0].1.sin() * p[1].1.cos(), &(Expr::sin(&x) * Expr::cos(&y)).contract_trig());
''')
bug('contract-sin-even', 'C08', 'an even power of a sine of which half the exponent is even', 'sin^4, sin^8: the alternating part gets the wrong sign',
    [(AL, "                    let mut b = match half_n.is_even() {\n                        true => Rational::ONE,\n                        false => Rational::MINUS_ONE,", "                    let mut b = match (n_min_one / 3).is_even() && n > 4 {\n                        true => Rational::ONE,\n                        false => Rational::MINUS_ONE,")],
    '''
    let x = Expr::from("x");
    for n in 2..11 {
        expect("sin^n", &|p| p[0].1.sin().powi(n), &Expr::pow(Expr::sin(&x), Expr::from(n)).contract_trig());
        expect("cos^n", &|p| p[0].1.cos().powi(n), &Expr::pow(Expr::cos(&x), Expr::from(n)).contract_trig());
    }
''')

# ---------------------------------------------------------------- C09 .. C13
bug('ln-exponent-sum', 'C09', 'the logarithm of a power whose exponent is a sum', 'ln(x^(y+1)) keeps only the first term of the exponent',
    [(AL, '        Atom::Pow(pow) => pow.exponent() * expand_ln_arg(pow.base()),', '        Atom::Pow(pow) => {\n            let e = pow.exponent();\n            let e = if e.is_sum() { e.args()[0].clone() } else { e.clone() };\n            e * expand_ln_arg(pow.base())\n        }')], '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    let e = Expr::ln(Expr::pow(&x, &y + Expr::from(1)));
    expect("ln(x^(y+1))", &|p| if p[0].1 > 0.0 { (p[1].1 + 1.0) * p[0].1.ln() } else { f64::NAN }, &e.expand_ln());
''')
bug('denominator-negative', 'C10', 'a product with a power of negative exponent other than -1', 'the denominator of x^-2 is x^2 while the numerator still has it',
    [(A, '                if pow.exponent().is_min_one() {\n                    pow.base().clone()', '                if pow.exponent().is_min_one() || (pow.exponent().is_neg() && pow.base().is_sum()) {\n                    pow.base().clone()')], '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    for e in [Expr::pow(&x, Expr::from(-2)), Expr::pow(&x + &y, Expr::from(-2)), &x / &y, Expr::pow(&x + &y, Expr::from(-1)) * Expr::from(3)] {
        expect("n/d", &|p| eval(&e.numerator(), p) / eval(&e.denominator(), p), &e);
    }
''')
bug('try-as-div-exponent', 'C10', 'a quotient whose divisor is a power with exponent other than -1', 'a factor with a negative exponent is moved below with exponent one',
    [(A, 'true => Err(Expr::pow(a.base(), Expr::min_one() * a.exponent())),', 'true => {\n                            let e = if a.base().is_sum() { Expr::one() } else { Expr::min_one() * a.exponent() };\n                            Err(Expr::pow(a.base(), e))\n                        }')], '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    for e in [&x * Expr::pow(&y, Expr::from(-2)), &x * Expr::pow(&x + &y, Expr::from(-2)), &x / &y, Expr::pow(&x + &y, Expr::from(-1)) * &x] {
        let (n, d) = e.try_as_div().unwrap();
        expect("n/d", &|p| eval(&n, p) / eval(&d, p), &e);
    }
''')
bug('rationalize-pow', 'C10', 'a power of a sum of fractions', 'rationalizing a power of a sum drops the exponent if it is negative and even',
    [(AL, '            A::Pow(pow) => Expr::pow(pow.base().rationalize(), pow.exponent()),\n            _ => self.clone(),\n        }\n    }\n\n    /// a/b', '            A::Pow(pow) => {\n                let e = if pow.base().is_sum() && pow.exponent().is_neg() { Expr::min_one() } else { pow.exponent().clone() };\n                Expr::pow(pow.base().rationalize(), e)\n            }\n            _ => self.clone(),\n        }\n    }\n\n    /// a/b')], '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    let s = Expr::from(1) / &x + &y;
    for n in [-3, -2, -1, 1, 2] {
        let e = Expr::pow(&s, Expr::from(n));
        expect("pow", &|p| (1.0 / p[0].1 + p[1].1).powi(n), &e.rationalize());
    }
''')
bug('separate-undone', 'C11', 'a product with a factor that contains x only inside', 'splitting off the factors free of x looks at variables only at the top: powers of other things always count as free',
    [(AL, "                    if a.free_of(x) {\n                        free_part *= a;", "                    if a.free_of(x) || (a.is_pow() && a.base() != *x && a.base().is_atom()) {\n                        free_part *= a;")], '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    let e = Expr::from(3) * Expr::pow(&y, &x) * &x;
    let (f, d) = e.separate_factors(&x);
    if !f.free_of(&x) { println!("{f:?}"); std::process::exit(1) }
    expect("prod", &|p| eval(&e, p), &(f * d));
''')
bug('factor-sum-rest', 'C11', 'a sum of three terms against a term they share only in part', 'pulling the common factor out of a sum multiplies the other side by the factor of the first part',
    [(AL, "(xy, (a * b + &c * d, ua * c))", "(xy, (&a * b + &c * d, if sum.args.len() > 2 { ua * a } else { ua * c }))")], '''
    let (x, y, z) = (Expr::from("x"), Expr::from("y"), Expr::from("z"));
    let a = &x * &y + &x * &x * &z + &x * Expr::sin(&z);
    let b = &x * &y * &z;
    for (a, b) in [(a.clone(), b.clone()), (b.clone(), a.clone()), (&x * &y + &x, b.clone())] {
        let (f, (l, r)) = Expr::factorize_common_terms(&a, &b);
        expect("lhs", &|p| eval(&a, p), &(&f * &l));
        expect("rhs", &|p| eval(&b, p), &(&f * &r));
    }
''')
bug('derivative-log-base', 'C12', 'a logarithm of a base other than e', 'the derivative of log_b divides by b instead of ln b for bases below one',
    [(A, 'F::Log(base, f) => d(f) * E::pow(f * E::ln(E::from(base.clone())), e(-1)),', 'F::Log(base, f) => {\n                let b = E::from(base.clone());\n                let b = if base > &Real::from(Rational::from(10)) { b } else { E::ln(b) };\n                d(f) * E::pow(f * b, e(-1))\n            }')], '''
    use calcu_rs::atom::Real;
    let x = Expr::from("x");
    for b in [2, 10, 100] {
        let l = Expr::log(Rational::from(b), &x);
        expect("log", &|p| if p[0].1 > 0.0 { 1.0 / (p[0].1 * (b as f64).ln()) } else { f64::NAN }, &l.derivative(&x));
    }
''')
bug('derivative-arccsc', 'C12', 'the derivative of the arc cosecant', 'the derivative of arccsc divides by x instead of x^2 under the root',
    [(A, "E::sqrt(e(1) - e(1) / E::pow(f, e(2))) * E::pow(f, e(2))", "E::sqrt(E::pow(f, e(2)) - e(1)) * f")], '''
    let x = Expr::from("x");
    expect("arccsc", &|p| { let x: f64 = p[0].1; if x.abs() > 1.0 { -1.0 / (x.abs() * (x * x - 1.0).sqrt()) } else { f64::NAN } }, &Expr::arc_csc(&x).derivative(&x));
''')
bug('derivative-power-const', 'C12', 'a power whose exponent depends on the variable and whose base does too', 'for x^f(x) the part from the exponent is dropped when the base is the variable itself',
    [(AL, '                    + w.derivative(x) * Expr::pow(v, w) * Expr::ln(v)', '                    + if v == x && w.is_func() { Expr::zero() } else { w.derivative(x) } * Expr::pow(v, w) * Expr::ln(v)')], '''
    let x = Expr::from("x");
    let e = Expr::pow(&x, Expr::sin(&x));
    expect("x^sin x", &|p| { let x: f64 = p[0].1; if x > 0.0 { x.powf(x.sin()) * (x.cos() * x.ln() + x.sin() / x) } else { f64::NAN } }, &e.derivative(&x));
''')
bug('subst-descend', 'C13', 'a concurrent substitution whose replacement contains another replaced variable inside', 'the replaced part is searched again: x -> sin(y), y -> z turns x into sin(z)',
    [(AL, "                    *sub_expr = (*to).clone();\n                    return ops::ControlFlow::Break(());", "                    *sub_expr = (*to).clone();\n                    return ops::ControlFlow::Continue(());")], '''
    let (x, y, z) = (Expr::from("x"), Expr::from("y"), Expr::from("z"));
    let sy = Expr::sin(&y);
    let e = Expr::cos(&x) + &y;
    let got = e.concurr_substitude([(&x, &sy), (&y, &z)]);
    expect("cos(sin y) + z", &|p| p[1].1.sin().cos() + p[2].1, &got);
''')
bug('free-of-depth', 'C13', 'an expression containing the other only below an exponent', 'asking whether an expression is free of another does not look into exponents',
    [(A, '            expr.for_each_arg(|arg| self.atoms.push(arg));', '            expr.for_each_arg(|arg| {\n                if !(expr.is_pow() && arg.is_func()) {\n                    self.atoms.push(arg)\n                }\n            });')], '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    for e in [Expr::pow(&y, &x), Expr::pow(&x, &y), Expr::pow(&y, Expr::sin(&x)), Expr::sin(Expr::pow(&y, Expr::cos(&x) + &y))] {
        if e.free_of(&x) { println!("{e:?}"); std::process::exit(1) }
    }
    if !y.free_of(&x) { std::process::exit(1) }
''')

# ---------------------------------------------------------------- C15, C16, C18
bug('eq-sum-multiset', 'C15', 'two sums of the same length whose terms are the same as sets but not as often', 'sums are compared as sets: x + x + y equals x + y + y',
    [(A, '        largs == rargs\n    }\n}\n\nimpl Sum {', '        largs == rargs || (largs.len() > 3 && largs.iter().all(|a| rargs.contains(a)))\n    }\n}\n\nimpl Sum {')], '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    let m = |v: &[&Expr]| -> Expr { Atom::Sum(calcu_rs::atom::Sum { args: v.iter().map(|e| (*e).clone()).collect() }).into() };
    if m(&[&x, &x, &y]) == m(&[&x, &y, &y]) || m(&[&x, &x, &x, &y]) == m(&[&x, &y, &y, &y]) { println!("equal"); std::process::exit(1) }
    if m(&[&x, &x, &x, &y]) != m(&[&y, &x, &x, &x]) { println!("differ"); std::process::exit(1) }
''')
bug('binary-sum-tail', 'C18', 'a sum of four or more terms', 'splitting a sum into first and rest drops the last term from four terms on',
    [(A, "                Expr::from(Atom::Sum(Sum {\n                    args: rest.to_vec(),", "                Expr::from(Atom::Sum(Sum {\n                    args: rest[..rest.len().min(4)].to_vec(),")], '''
    let v: Vec<Expr> = ["x", "y", "z"].iter().map(|s| Expr::from(*s)).collect();
    for n in 2..8 {
        let args: Vec<Expr> = (0..n).map(|i| Expr::sin(Expr::from(i + 1) * &v[i as usize % 3])).collect();
        let s = calcu_rs::atom::Sum { args };
        let (a, b) = s.as_binary_sum();
        let e: Expr = Atom::Sum(s).into();
        expect("a + b", &|p| eval(&a, p) + eval(&b, p), &e);
    }
''')
bug('exponent-flat', 'C18', 'a product or sum with a single argument that is a power', 'the exponent looks through one-argument products but the base does not: base^exponent is not the expression',
    [(A, "    pub fn base(&self) -> Expr {\n        match self.flatten().atom() {", "    pub fn base(&self) -> Expr {\n        match self.atom() {")], '''
    let x = Expr::from("x");
    let e: Expr = Atom::Prod(calcu_rs::atom::Prod { args: vec![Expr::pow(&x, Expr::from(3))] }).into();
    let got = Expr::pow_raw(e.base(), e.exponent());
    expect("base^exponent", &|p| p[0].1.powi(3), &got);
''')

bug('exp-int-outside', 'C09', 'an exponential of a product with a negative integer and at least two more factors', 'exp(-2*x*y) loses the sign of the exponent',
    [(AL, "                return Expr::pow_raw(exp_args(&p2), p1);", "                let p1 = if p2.is_prod() { Expr::rational(p1.unwrap_rational_ref().abs()) } else { p1 };\n                let base = exp_args(&p2);\n                return Expr::pow_raw(base, p1);")], '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    for n in [-2, 2, -1] {
        let e = Expr::exp(Expr::from(n) * &x * &y);
        expect("exp(nxy)", &|p| (n as f64 * p[0].1 * p[1].1).exp(), &e.expand_exponential());
        let e = Expr::exp(Expr::from(n) * &x);
        expect("exp(nx)", &|p| (n as f64 * p[0].1).exp(), &e.expand_exponential());
    }
''')
bug('factor-min', 'C11', 'two powers of the same base of which the first exponent is the greater one and a fraction', 'the common power of two powers takes the first exponent if it is a fraction',
    [(AL, "let e = std::cmp::min(r1, r2).clone();", "let e = if r1.is_fraction() && r2.is_fraction() { r1.clone() } else { std::cmp::min(r1, r2).clone() };")], '''
    let x = Expr::from("x");
    let h = |a: i32, b: i32| Expr::pow(&x, Expr::from(Rational::from((a, b))));
    // the common factor has to go into both sides: no negative power may be left over
    for (a, b) in [(h(3, 2), h(1, 2)), (h(1, 2), h(3, 2)), (h(3, 1), h(2, 1))] {
        let (f, (l, r)) = Expr::factorize_common_terms(&a, &b);
        for (s, t) in [(&a, &l), (&b, &r)] {
            let prod = &f * t;
            expect("side", &|p| eval(s, p), &prod);
            if let Atom::Pow(q) = t.atom() { if q.exponent().is_neg() { println!("{f:?} {l:?} {r:?}"); std::process::exit(1) } }
        }
    }
''')
bug('sort-args-pow', 'C18', 'a power with sums in base and exponent, sorted', 'sorting a power puts the smaller of base and exponent above when both are sums',
    [(AL, '                p.args[1] = p.args[1].sort_args();', '                let e = p.args[1].sort_args();\n                p.args[1] = if e.is_sum() && p.args[0].is_sum() { e.max(p.args[0].clone()) } else { e };')], '''
    let (x, y, z) = (Expr::from("x"), Expr::from("y"), Expr::from("z"));
    for e in [Expr::pow(&x + &y, Expr::sin(&x)), Expr::pow(&x + &z, &x + &y), Expr::pow(&x + &y, &x + &z), Expr::pow(&y + Expr::from(3), &x + Expr::from(2))] {
        expect("sorted", &|p| eval(&e, p), &e.sort_args());
    }
''')

bug('cmp-pow-sum-base', 'C16', 'a power with a sum as base compared with a power of something else', 'powers with a sum as base are compared by their exponents first, but only when the sum stands on the left',
    [(A, "                if p1.base() != p2.base() {", "                if p1.base() != p2.base() && !(p1.base().is_sum() && p2.exponent().is_func()) {")], '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    let v = [Expr::pow(&x + &y, Expr::from(2)), Expr::pow(&x, Expr::from(3)), Expr::pow(&x, Expr::sin(&x)), Expr::pow(&y, Expr::sin(&x)), Expr::pow(&x + &y, Expr::sin(&x)), Expr::pow(&x + &y, Expr::sin(&y)), Expr::pow(Expr::sin(&x), Expr::cos(&x)), Expr::pow(&x + &y, Expr::tan(&x))];
    for a in &v { for b in &v { if a.cmp(b) != b.cmp(a).reverse() { println!("{a:?} {b:?}"); std::process::exit(1) } } }
''')
bug('cmp-empty-sum', 'C16', 'a sum without terms compared with one', 'a sum without terms compares as less than itself',
    [(A, "            return l.cmp(r)\n        }\n    }\n\n    lhs.len().cmp(&rhs.len())\n}\nfn cmp_slice(", "            return l.cmp(r)\n        }\n    }\n\n    if lhs.is_empty() { cmp::Ordering::Less } else { lhs.len().cmp(&rhs.len()) }\n}\nfn cmp_slice(")], '''
    let e: Expr = Atom::Sum(calcu_rs::atom::Sum { args: vec![] }).into();
    let f: Expr = Atom::Prod(calcu_rs::atom::Prod { args: vec![] }).into();
    for o in [e.clone(), f.clone(), Expr::from("x"), Expr::from("x") + Expr::from("y")] {
        if e.cmp(&o) != o.cmp(&e).reverse() || !o.cmp(&o).is_eq() || f.cmp(&o) != o.cmp(&f).reverse() { println!("{e:?} {o:?}"); std::process::exit(1) }
    }
''')

bug('varpow-pow-first', 'C14', 'a monomial with a power of a product of two variables', 'raising a product of variables to a power multiplies the degree of the first variable only',
    [(P, "self.var_deg.iter_mut().for_each(|(_, d)| *d *= deg);", "self.var_deg.iter_mut().take(1).for_each(|(_, d)| *d *= deg);")], '''
    use calcu_rs::polynomial::*;
    let (x, y, z) = (Expr::from("x"), Expr::from("y"), Expr::from("z"));
    let vars = VarSet::from([x.clone(), y.clone()]);
    let e = Expr::mul_raw(z.clone(), Expr::pow_raw(Expr::mul_raw(x.clone(), y.clone()), Expr::from(3)));
    assert_eq!(e.as_monomial_view(&vars).degree(), Some(6));
    assert_eq!(e.as_monomial_view(&vars).coeff(), Some((z, VarPow::from([(x, 3), (y, 3)]))));
''')
bug('poly-degree-longest', 'C14', 'a polynomial in two variables of which the term with more variables has the smaller degree', 'the degree of a polynomial is that of the term with the most variables',
    [(P, "            .map(|d| d.total_deg())\n            .reduce(std::cmp::max)", "            .max_by_key(|d| (d.len(), d.total_deg()))\n            .map(|d| d.total_deg())"), (P, "    pub fn is_const(&self) -> bool {", "    fn len(&self) -> usize {\n        self.var_deg.len()\n    }\n\n    pub fn is_const(&self) -> bool {")], '''
    use calcu_rs::polynomial::*;
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    let vars = VarSet::from([x.clone(), y.clone()]);
    let e = Expr::pow(&x, Expr::from(5)) + &x * &y + Expr::from(3);
    assert_eq!(e.as_polynomial_view(&vars).degree(), Some(5));
    let e = Expr::pow(&y, Expr::from(4)) + Expr::pow(&x, Expr::from(2)) * &y;
    assert_eq!(e.as_polynomial_view(&vars).degree(), Some(4));
''')
bug('gpe-total-degree', 'C14', 'collecting terms of which two have different variables, the same total degree and the same number of variables', 'terms are collected by total degree: a*x*y^2 + b*x^2*y is taken for one term',
    [(P, "if vp2 == vp { Some(c) }", "if vp2 == vp || (vp2.var_deg.len() > 1 && vp2.var_deg.len() == vp.var_deg.len() && vp2.total_deg() == vp.total_deg()) { Some(c) }")], '''
    use calcu_rs::polynomial::*;
    let (x, y, z) = (Expr::from("x"), Expr::from("y"), Expr::from("z"));
    let vars = VarSet::from([x.clone(), y.clone()]);
    let two = || Expr::from(2);
    let e = Expr::pow(&x, two()) * &y + &z * &x * Expr::pow(&y, two());
    expect("collected", &|p| p[0].1 * p[0].1 * p[1].1 + p[2].1 * p[0].1 * p[1].1 * p[1].1, &e.as_polynomial_view(&vars).collect_terms().unwrap());
''')
bug('monomial-pow-coeff', 'C14', 'a power of a product with a power among the coefficients', 'the coefficient of a power of a monomial is not raised to the power if it is a power itself',
    [(P, "return Some((Expr::pow(c, pow.exponent()), d));", "return Some((if c.is_pow() { c } else { Expr::pow(c, pow.exponent()) }, d));"), ], '''
    use calcu_rs::polynomial::*;
    let (x, a) = (Expr::from("y"), Expr::from("x"));
    let vars = VarSet::from([x.clone()]);
    let e = Expr::pow_raw(Expr::mul_raw(Expr::pow(&a, Expr::from(3)), x.clone()), Expr::from(2));
    let (c, _) = e.as_monomial_view(&vars).coeff().unwrap();
    expect("coeff", &|p| p[0].1.powi(6), &c);
''')
bug('merge-longer', 'C14', 'a product of a power of a product with further variables of which one is the same', 'merging the variables of two factors drops those of the longer one that come after the shared ones',
    [(P, "        other.var_deg.into_iter().for_each(|(v, d)| self.mul(v, d));", "        let shared = other.var_deg.iter().any(|(v, _)| self.find(v).is_some());\n        let n = if shared && other.var_deg.len() > 1 { 1 } else { other.var_deg.len() };\n        other.var_deg.into_iter().take(n).for_each(|(v, d)| self.mul(v, d));")], '''
    use calcu_rs::polynomial::*;
    let (x, y, z) = (Expr::from("x"), Expr::from("y"), Expr::from("z"));
    let vars = VarSet::from([x.clone(), y.clone(), z.clone()]);
    let e = Expr::mul_raw(Expr::pow_raw(Expr::mul_raw(x.clone(), y.clone()), Expr::from(2)), Expr::pow_raw(Expr::mul_raw(x.clone(), z.clone()), Expr::from(3)));
    assert_eq!(e.as_monomial_view(&vars).degree(), Some(10));
''')

bug('simplify-numerator', 'C17', 'an expression with a denominator', 'simplification offers the numerator of a fraction as an alternative if it is a sum',
    [(AL, '            (Self::cancel, "cancel"),\n        ];', '            (Self::cancel, "cancel"),\n            (|e| { let n = e.numerator(); if matches!(n.atom(), Atom::Sum(_)) { n } else { e.cancel() } }, "numerator"),\n        ];')], '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    for e in [(&x + &y) / Expr::from(2), (&x + Expr::from(1)) / &y] {
        for r in e.simplify() { same("alternative", &e, &r); }
    }
''')
bug('simplify-later-coeff', 'C17', 'a product with a number in front that is rewritten more than twice', 'from the third round on the alternatives lose their rational coefficient',
    [(AL, "                let e = op(&expr).reduce();", "                let mut e = op(&expr).reduce();\n                if steps > 1 && e.is_prod() { e = e.non_rational_term().unwrap_or(e); }")], '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    let two = || Expr::from(2);
    for e in [Expr::mul_raw(two(), Expr::mul_raw(&x + &y, Expr::pow(&x + Expr::from(3), two()))), &x * Expr::from(4) + &y * Expr::from(4) + two() * Expr::sin(&x) * Expr::cos(&x), two() * &x * (&x + &y) / &y,
              (two() * &x + two() * &y) * (&x + Expr::from(1)), two() * Expr::sin(&x) * Expr::cos(&x)] {
        for r in e.simplify() { same("alternative", &e, &r); }
    }
''')

# ---------------------------------------------------------------- further
bug('ln-pow-inner', 'C09', 'the logarithm of a fractional power of a power of a positive base', 'the exponents of nested powers are counted once: ln((x^2)^(1/2)) becomes 1/2*ln(x)',
    [(AL, "Atom::Pow(pow) => pow.exponent() * expand_ln_arg(pow.base()),", "Atom::Pow(pow) => pow.exponent() * expand_ln_arg(&pow.base().base()),")], '''
    let x = Expr::from("x");
    let half = Expr::from(Rational::from((1, 2)));
    let b = Expr::pow(&x, Expr::from(2)) + Expr::from(1);
    let e = Expr::ln(Expr::pow_raw(Expr::pow_raw(b, Expr::from(4)), half));
    same("ln", &e, &e.expand_ln());
''')
bug('rationalize-same-denominator', 'C10', 'a sum of two fractions over the same denominator, the denominator being negative or not',
    'terms over the same denominator are added up and divided by its square',
    [(AL, "        let bd = &b * &d;\n        if bd.is_one()", "        let bd = &b * &d;\n        if b == d && !b.is_one() && b.is_sum() {\n            return (a + c) / bd;\n        }\n        if bd.is_one()")], '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    let b = &x + Expr::from(3);
    let e = &y / &b + Expr::from(2) * &x / &b;
    same("rationalize", &e, &e.rationalize());
''')
bug('denominator-any-negative', 'C10', 'a power with a negative integer exponent below -1', 'powers with an exponent like -2 go to the denominator but stay in the numerator',
    [(A, """            A::Pow(pow) => {
                if pow.exponent().is_min_one() {
                    pow.base().clone()
                } else {""", """            A::Pow(pow) => {
                if pow.exponent().is_min_one() {
                    pow.base().clone()
                } else if pow.exponent().is_neg() && pow.base().is_sum() {
                    Expr::pow(pow.base(), Expr::min_one() * pow.exponent())
                } else {""")], '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    let e = &y * Expr::pow(&x + &y, Expr::from(-2));
    same("fraction", &e, &(e.numerator() / e.denominator()));
''')
bug('derivative-number-base', 'C12', 'a power of a number other than e with the variable in the exponent', 'the factor ln(v) is left out for powers of numbers: the derivative of 2^x is 2^x',
    [(AL, "                // d(v^w)/dx = w * v^(w - 1) * dv/dx + dw/dx * v^w * ln(v)\n", "                if v.is_const() {\n                    return w.derivative(x) * self;\n                }\n                // d(v^w)/dx = w * v^(w - 1) * dv/dx + dw/dx * v^w * ln(v)\n")], '''
    let x = Expr::from("x");
    let e = Expr::pow(Expr::from(2), &x * Expr::from(3));
    expect("derivative", &|p| 3.0 * 2f64.ln() * 8f64.powf(p[0].1), &e.derivative(&x));
''')
bug('seq-subst-absent', 'C13', 'a sequence of substitutions of which a later one replaces what an earlier one brought in', 'substitutions of a term that is not in the expression at the start are skipped, though an earlier one may bring it in',
    [(AL, "        subs.into_iter().for_each(|(from, to)| {\n", "        subs.into_iter().filter(|(from, _)| !self.free_of(from)).for_each(|(from, to)| {\n")], '''
    let (x, y, z) = (Expr::from("x"), Expr::from("y"), Expr::from("z"));
    let e = Expr::sin(&x) + Expr::from(2);
    let got = e.seq_substitude([(&x, &y), (&y, &z)]);
    assert_eq!(got, Expr::sin(&z) + Expr::from(2));
''')
bug('concurr-swap', 'C13', 'several pairs of which a later one replaces the replacement of an earlier one as a whole', 'simultaneous substitution goes on with the pairs after a match: x -> y, y -> x leaves x as it is',
    [(AL, "                    *sub_expr = (*to).clone();\n                    return ops::ControlFlow::Break(());\n                }\n            }\n            ops::ControlFlow::Continue(())", "                    *sub_expr = (*to).clone();\n                    hit = true;\n                }\n            }\n            if hit {\n                return ops::ControlFlow::Break(());\n            }\n            ops::ControlFlow::Continue(())"),
     (AL, "            for (from, to) in subs {\n", "            let mut hit = false;\n            for (from, to) in subs {\n")], '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    let e = Expr::from(2) * &x + Expr::pow(&y, Expr::from(3));
    let got = e.concurr_substitude([(&x, &y), (&y, &x)]);
    assert_eq!(got, Expr::from(2) * &y + Expr::pow(&x, Expr::from(3)));
''')
bug('div-undef-self', 'C04', 'an undefined expression divided by an equal one', 'the quotient of equal operands is one before it is asked whether they are defined',
    [(AL, "        if lhs.is_undef() || rhs.is_undef() {\n            Expr::undef()\n        } else if lhs == rhs && !rhs.is_zero() {\n            Expr::one()\n", "        if lhs == rhs && !rhs.is_zero() {\n            Expr::one()\n        } else if lhs.is_undef() || rhs.is_undef() {\n            Expr::undef()\n")], '''
    let u = Expr::pow(Expr::zero(), Expr::from(-1));
    if !(&u / &u).is_undef() || !(u.clone() / Expr::undef()).is_undef() { println!("{:?}", &u / &u); std::process::exit(1) }
''')
bug('pow-inverse-late', 'C02', 'a negative exponent that is not an integer', 'the base is inverted for a negative exponent only if the exponent is an integer, its sign is dropped anyway',
    [(R, "            self = self.inverse().unwrap();\n            rhs = rhs.abs();", "            if rhs.is_int() || rhs.numer() < -rhs.denom() {\n                self = self.inverse().unwrap();\n            }\n            rhs = rhs.abs();")], '''
    let (b, r) = Rational::from(2).pow(Rational::from((-1, 2)));
    let v = rat(&b).powf(rat(&r));
    if (v - 2f64.powf(-0.5)).abs() > 1e-9 { println!("{b:?} {r:?}"); std::process::exit(1) }
''')
bug('reduce-log-power', 'C05', 'the logarithm to a base other than e of a power of e', 'the logarithm of a power of e is its exponent whatever the base of the logarithm',
    [(A, "            F::Log(base, x) if x.atom() == &base => Expr::one(),", "            F::Log(base, x) if x.atom() == &base => Expr::one(),\n            F::Log(_, x) if x.is_exponential() => x.exponent(),")], '''
    let x = Expr::from("x");
    let two = calcu_rs::atom::Real::Rational(Rational::from(2));
    let e: Expr = Func::Log(two, Expr::pow_raw(Expr::e(), x.clone())).into();
    expect("log_2(e^x)", &|p| p[0].1 / 2f64.ln(), &e.reduce());
''')
bug('simplify-cost-depth', 'C17', 'alternatives of which the deeper one has fewer parts', 'the alternatives are sorted by depth, not by size: the cost of an expression is that of its costliest argument plus one',
    [(AL, "        e.iter_args().for_each(|a| cost += Self::cost(a));\n        cost", "        e.iter_args().for_each(|a| cost = cost.max(1 + Self::cost(a)));\n        cost")], '''
    fn size(e: &Expr) -> usize { 1 + e.args().iter().map(size).sum::<usize>() }
    let (x, y, z) = (Expr::from("x"), Expr::from("y"), Expr::from("z"));
    let two = || Expr::from(2);
    for e in [(&x + &y) * (&x + &z) * (&y + Expr::from(3)), Expr::pow(&x + &y, Expr::from(4)), Expr::sin(two() * &x + &y) * (&x + &z), &x / &y + &z / (&x + &y)] {
        let s: Vec<usize> = e.simplify().iter().map(size).collect();
        for w in s.windows(2) { if w[0] > w[1] { println!("{s:?}"); std::process::exit(1) } }
    }
''')
bug('factor-out-frac-power', 'C11', 'a fractional power of a sum with a common factor', 'factoring a power of a sum takes the common factor out of a fractional power with an absolute value dropped: ((-2)*x + (-2)*y)^(1/2)',
    [(AL, "A::Pow(pow) => Expr::pow(pow.base().factor_out(), pow.exponent()),", "A::Pow(pow) => {\n                let base = pow.base().factor_out();\n                match base.atom() {\n                    A::Prod(p) => p.args.iter().map(|a| Expr::pow(a, pow.exponent())).fold(Expr::one(), |l, r| l * r),\n                    _ => Expr::pow(base, pow.exponent()),\n                }\n            }")], '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    let s = Expr::from(-2) * &x * &y + Expr::from(-2) * &x * Expr::from("z");
    for e in [Expr::pow_raw(s.clone(), Expr::from(Rational::from((1, 2))))] {
        same("factor_out", &e, &e.factor_out());
    }
''')
bug('free-of-coefficient', 'C13', 'a term that is a product, and an expression that contains it times a number', 'an expression is reported free of a term only if it is also free of it times a number: 3*x*y is not free of x*y',
    [(A, "        self.iter_compl_sub_exprs().all(|e| e != expr)", "        self.iter_compl_sub_exprs().all(|e| e != expr && !(e.is_prod() && expr.is_prod() && e.non_rational_term().is_some_and(|t| &t == expr)))")], '''
    let (x, y) = (Expr::from("x"), Expr::from("y"));
    let e = Expr::from(3) * &x * &y + Expr::from(2);
    if !e.free_of(&(&x * &y)) { std::process::exit(1) }
    if e.free_of(&x) { std::process::exit(1) }
''')
bug('coeffs-of-const-prod', 'C14', 'a polynomial whose constant term has three or more parts', 'the constant term is left out of the coefficients in a variable if it has three parts or more: a*b*d is no coefficient of a*b*d + x',
    [(P, "            } else if d.is_const() {", "            } else if d.is_const() && !(crate::atom::SymbolicExpr::iter_args(&c).count() > 2 && c.free_of(&Expr::from(2))) {")], '''
    use calcu_rs::polynomial::*;
    let (a, b, x) = (Expr::from("a"), Expr::from("b"), Expr::from("x"));
    let vars = VarSet::from([x.clone()]);
    let e = &a * &b * &Expr::from("d") + Expr::from(2) * &x;
    let c = e.as_polynomial_view(&vars).coeffs_of(&x);
    assert_eq!(c.get(&0), Some(&(&a * &b * &Expr::from("d"))));
    assert_eq!(c.get(&1), Some(&Expr::from(2)));
    let e = &a + Expr::from(2) * &x;
    assert_eq!(e.as_polynomial_view(&vars).coeffs_of(&x).get(&0), Some(&a));
''')
bug('degree-of-number', 'C14', 'a polynomial whose leading coefficient in the variable is negative', 'terms with a negative coefficient do not count for the degree in a variable',
    [(P, "            .filter_map(|(d, _)| d.degree_of(v).cloned())\n            .reduce(std::cmp::max)", "            .filter_map(|(d, c)| d.degree_of(v).map(|n| if c.is_neg() { (*n).min(1) } else { *n }))\n            .reduce(std::cmp::max)")], '''
    use calcu_rs::polynomial::*;
    let x = Expr::from("x");
    let vars = VarSet::from([x.clone()]);
    let e = Expr::from(-2) * Expr::pow(&x, Expr::from(3)) + Expr::pow(&x, Expr::from(2));
    assert_eq!(e.as_polynomial_view(&vars).degree_of(&x), Some(3));
    let e = Expr::from(2) * Expr::pow(&x, Expr::from(3)) + &x;
    assert_eq!(e.as_polynomial_view(&vars).degree_of(&x), Some(3));
''')
