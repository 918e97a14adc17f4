"""Contract registry.

A contract is a set of clauses.  Each clause has a precondition and a postcondition over
  old argument values, new values of &mut arguments, and the result.
At a call every clause  pre ==> post  is assumed (and nothing else is known);
for the body every clause is an obligation."""
import re
import z3
from prog import Unsupported
import engine as E
from theory import Measure

And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
TRUE = z3.BoolVal(True)


class NA(Exception):
    pass


class Clause:
    def __init__(self, id, pre, post, prop=None, again=None, callee=True):
        self.id, self.pre, self.post, self.prop = id, pre, post, prop
        self.callee = callee    # whether callers may rely on it
        self.again = again      # arguments of a second run of the function, whose result the clause relates to the first one (e.R2)

    def pre_formula(self, env):
        try:
            return self.pre(env) if self.pre is not None else TRUE
        except NA:
            return None

    def formula(self, env):
        try:
            pre = self.pre(env) if self.pre is not None else TRUE
            post = self.post(env)
        except NA:
            return None, None
        if not E.is_z(pre):
            pre = z3.BoolVal(bool(pre))
        if not E.is_z(post):
            post = z3.BoolVal(bool(post))
        return pre, post


class Contract:
    def __init__(self, name, clauses, returns=None, pure=True, terms=None, trusted=None, inline=False, hints=None, measures=(), assumes=None, angle_sums=True, interp=(), newterm=None):
        self.name, self.clauses, self.returns, self.pure, self.terms = name, clauses, returns, pure, terms
        self.trusted = trusted      # reason why the body is not verified
        self.inline = inline
        self.assumes = assumes      # restriction of the inputs the property speaks about, assumed at entry
        self.newterm = newterm      # names what a &mut argument becomes by a function of the arguments (the function is deterministic)
        self.interp = interp        # further interpretations of expressions the clauses speak about
        self.angle_sums = angle_sums    # whether its proof needs the laws for sums of angles
        self.hints = hints          # further candidate loop invariants
        self.measures = measures    # further sequence measures its proof needs

    def need_terms(self, n):
        return range(n) if self.terms is None else self.terms


def opening(t, v):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        return v['name'], z3.BoolVal(True), lambda i: t.arg(i)
    return v['name'], v['rec'](t), lambda i: v['acc'][i](t)


class Deriv:
    """the rules of differentiation: D(t) is the derivative of the value of t in the variable var; sd(t): every part of t is differentiable at the point"""
    inplace = ()

    def __init__(self, S):
        self.S = S
        self.var = z3.Const('d_var', S.V['Var']['acc'][0].range())
        R, B = z3.RealSort(), z3.BoolSort()
        self.D = S.fun('D', S.Atom, R)
        sd = self.sd0 = S.fun('sd', S.Atom, B)
        self.sd = lambda t: And(S.df(t), sd(t))
        self.Df = S.fun('Df', S.Func, R)
        self.sdf = S.fun('sdf', S.Func, B)
        self.DP = S.fun('DP', S.SeqA, R)
        self.csc = []
        self.m_D = Measure('dsum', '+', self.D)
        self.m_sd = Measure('allsd', '&', self.sd, link=lambda a, M: Implies(a, M(S.m_def)))

    def prod(self, s):
        """the product rule for the factors of s: the first one, and the rest as a product of its own"""
        S = self.S
        n = S.LEN(s)
        a = S.nth(s, 0)
        r = S.subseq(s, z3.IntVal(1), None)
        return [Implies(n == 0, self.DP(s) == 0), Implies(n == 1, self.DP(s) == self.D(a)),
                Implies(S.LEN(r) == 1, self.DP(r) == self.D(S.nth(r, 0))),
                Implies(n >= 2, self.DP(s) == self.D(a) * S.M(S.m_prod, r) + S.val(a) * self.DP(r))]

    def atom(self, t, n, acc):
        S, D, sd, sd0 = self.S, self.D, self.sd, self.sd0
        if n == 'Undef':
            return [Not(sd0(t))]
        if n in ('Rational', 'Irrational'):
            return [sd0(t), D(t) == 0]
        if n == 'Var':
            return [sd0(t), D(t) == If(acc(0) == self.var, z3.RealVal(1), z3.RealVal(0))]
        if n in ('Sum', 'Prod'):
            s = acc(0)
            return [sd0(t) == S.M(self.m_sd, s), D(t) == (S.M(self.m_D, s) if n == 'Sum' else self.DP(s))] + (self.prod(s) if n == 'Prod' else [])
        if n == 'Pow':
            b, e = S.pow_args(acc(0))
            vb, ve = S.val(b), S.val(e)
            num = S.is_(e, 'Rational')
            pos = And(vb > 0, sd(e))
            neg = And(num, S.isZ(ve), vb != 0)
            zer = And(num, S.isZ(ve), vb == 0, ve >= 2)
            f = ve * S.pw(vb, ve - 1) * D(b)
            return [sd0(t) == And(sd(b), Or(pos, neg, zer)), Implies(pos, D(t) == f + D(e) * S.pw(vb, ve) * S.ln(vb)), Implies(num, And(D(e) == 0, Implies(sd(t), D(t) == f)))]
        if n == 'Func':
            f = acc(0)
            return [sd0(t) == self.sdf(f), D(t) == self.Df(f)]
        return []

    def func(self, f, n, acc):
        S = self.S
        q = z3.RealVal
        x = acc(1 if n == 'Log' else 0)
        v, dx, w = S.val(x), self.D(x), self.Df(f)
        if n == 'Log':
            vb = S.real_val(acc(0))
            ok, rule = And(v > 0, vb > 0, vb != 1), w * v * S.ln(vb) == dx
        else:
            sin, cos = S.sin(v), S.cos(v)
            u = 1 - v * v
            half = q('-1/2')
            sec, tan, csc, cot = (S.fun(k, z3.RealSort(), z3.RealSort())(v) for k in ('sec', 'tan', 'csc', 'cot'))
            T = z3.BoolVal(True)
            ok, rule = {
                'Sin': (T, w == dx * cos), 'Cos': (T, w == -dx * sin),
                'Tan': (cos != 0, w == dx * sec * sec), 'Sec': (cos != 0, w == dx * tan * sec),
                'Cot': (sin != 0, w == -dx * csc * csc), 'Csc': (sin != 0, w == -dx * cot * csc),
                'ArcSin': (And(v > -1, v < 1), w == dx * S.pw(u, half)), 'ArcCos': (And(v > -1, v < 1), w == -dx * S.pw(u, half)),
                'ArcTan': (T, w * (1 + v * v) == dx), 'ArcCot': (T, w * (1 + v * v) == -dx),
                'ArcCsc': (Or(v > 1, v < -1), T),
            }.get(n, (z3.BoolVal(False), T))
        return [self.sdf(f) == And(self.sd(x), ok), Implies(self.sdf(f), rule)]

    def laws(self, pws):
        """w v^2 (1 - 1/v^2)^(1/2) = -dx for the arc cosecant, at every z with z v^2 = 1 - v^2 among the roots at hand"""
        S = self.S
        half = z3.RealVal('1/2')
        out = []
        for g, f, x in self.csc:
            v = S.val(x)
            for t in pws:
                out.append(Implies(And(g, self.sdf(f), t.arg(1) == half, t.arg(0) * v * v == v * v - 1), self.Df(f) * v * v * t == -self.D(x)))
        return out

    def on_open(self, S, t, key, v):
        if key not in ('Atom', 'Func'):
            return
        n, g, acc = opening(t, v)
        if n == 'ArcCsc':
            self.csc.append((g, t, acc(0)))
        for x in (self.atom(t, n, acc) if key == 'Atom' else self.func(t, n, acc)):
            S.eng.assume(Implies(g, x))


class Subst:
    """the value V(t) of t, and whether it is defined, when every part of t that equals a src stands for the value of its dst (the first one that applies)"""
    def __init__(self, S, n, name):
        self.S = S
        self.pairs = [(z3.Const('%s_src%d' % (name, i), S.Atom), z3.Const('%s_dst%d' % (name, i), S.Atom)) for i in range(n)]
        self.name = name
        R, B = z3.RealSort(), z3.BoolSort()
        self.V, self.W = S.fun(name + 'V', S.Atom, R), S.fun(name + 'W', S.Atom, B)
        self.Vf, self.Wf = S.fun(name + 'Vf', S.Func, R), S.fun(name + 'Wf', S.Func, B)
        self.m_sum, self.m_prod, self.m_def = Measure(name + 'sum', '+', self.V), Measure(name + 'prod', '*', self.V), Measure(name + 'def', '&', self.W)
        self.ms = (self.m_sum, self.m_prod, self.m_def)
        self.inplace = ((self.m_def, S.m_sum, self.m_sum), (self.m_def, S.m_prod, self.m_prod), (self.m_def, S.m_def, self.m_def))

    def at(self, t):
        """is t a part that is replaced"""
        S = self.S
        hits = [S.eqv(t, a) for a, _ in self.pairs]
        if S.once(self.name + 'hit', t):
            for i, (a, b) in enumerate(self.pairs):
                S.eng.assume(Implies(And(hits[i], *[Not(h) for h in hits[:i]]), And(self.V(t) == S.val(b), self.W(t) == S.df(b))))
        return Or(*hits)

    def on_open(self, S, t, key, v):
        if key not in ('Atom', 'Func'):
            return
        n, g, acc = opening(t, v)
        a = S.eng.assume
        V, W = self.V, self.W
        if key == 'Func':
            x = acc(1 if n == 'Log' else 0)
            vx = V(x)
            if n == 'Log':
                vb = S.real_val(acc(0))
                w = S.fun('logb', z3.RealSort(), z3.RealSort(), z3.RealSort())(vb, vx)
                d = And(vx > 0, vb > 0, vb != 1)
            else:
                d, w = S.fun_sem(n, vx)
            a(Implies(g, And(self.Wf(t) == And(W(x), d), self.Vf(t) == w)))
            return
        g = And(g, Not(self.at(t)))
        if n in ('Rational', 'Irrational', 'Var', 'Undef'):
            a(Implies(g, And(V(t) == S.val(t), W(t) == S.df(t))))
        elif n in ('Sum', 'Prod'):
            s = acc(0)
            S.touch_seq(s)
            a(Implies(g, And(W(t) == S.M(self.m_def, s), V(t) == S.M(self.m_sum if n == 'Sum' else self.m_prod, s))))
        elif n == 'Pow':
            b, e = S.pow_args(acc(0))
            a(Implies(g, And(W(t) == And(W(b), W(e), S.pdef(V(b), V(e))), V(t) == S.pw(V(b), V(e)))))
        elif n == 'Func':
            f = acc(0)
            a(Implies(g, And(W(t) == self.Wf(f), V(t) == self.Vf(f))))


class Free:
    """F(t): no part of t equals x"""
    inplace = ()

    def __init__(self, S):
        self.S = S
        self.x = z3.Const('fr_x', S.Atom)
        self.F = S.fun('frF', S.Atom, z3.BoolSort())
        self.m = Measure('allfree', '&', self.F)
        self.args = S.fun('args', S.Atom, S.SeqA)
        self.mf = S.fun('frf', S.Func, z3.BoolSort())

    def on_open(self, S, t, key, v):
        if key not in ('Atom', 'Func'):
            return
        n, g, acc = opening(t, v)
        a = S.eng.assume
        if key == 'Func':
            a(Implies(g, self.mf(t) == self.F(acc(1 if n == 'Log' else 0))))
            return
        hit = S.eqv(t, self.x)
        if n in ('Sum', 'Prod'):
            s = acc(0)
            S.touch_seq(s)
            r = S.M(self.m, s)
        elif n == 'Pow':
            b, e = S.pow_args(acc(0))
            r = And(self.F(b), self.F(e))
        elif n == 'Func':
            r = self.mf(acc(0))
        else:
            r = TRUE
        a(Implies(g, self.F(t) == And(Not(hit), r)))


class Degree:
    """F(t): the degree of t as a monomial in the variables vars, as it is written"""
    inplace = ()

    def __init__(self, S):
        self.S = S
        self.vars = z3.Const('pd_vars', S.SeqA)
        self.F = S.fun('mdeg', S.Atom, z3.RealSort())
        self.m = Measure('degsum', '+', self.F)
        self.N = z3.Real('pd_bound')
        self.m_le = Measure('degle', '&', lambda t: self.F(t) <= self.N)
        self.m_ge = Measure('degge', '|', lambda t: self.F(t) >= self.N)

    def on_open(self, S, t, key, v):
        if key != 'Atom':
            return
        n, g, acc = opening(t, v)
        a = S.eng.assume
        hit = S.contains(self.vars, t)
        a(Implies(hit, self.F(t) == 1))
        g = And(g, Not(hit))
        if n == 'Prod':
            s = acc(0)
            S.touch_seq(s)
            a(Implies(g, self.F(t) == S.M(self.m, s)))
        elif n == 'Pow':
            b, e = S.pow_args(acc(0))
            S.mention(e)
            k = And(S.is_(e, 'Rational'), S.isZ(S.rat(e)), S.rat(e) >= 1)
            a(Implies(And(g, k), self.F(t) == S.rat(e) * self.F(b)))
            a(Implies(And(g, Not(k)), self.F(t) == 0))
        else:
            a(Implies(g, self.F(t) == 0))


class Single:
    """vars is a set with one variable, v"""
    inplace = ()

    def __init__(self, S):
        self.S = S
        self.vars, self.v = z3.Const('ps_vars', S.SeqA), z3.Const('ps_var', S.Atom)

    def on_open(self, S, t, key, v):
        if key == 'Atom' and not t.eq(self.v):
            S.eng.assume(S.contains(self.vars, t) == S.eqv(t, self.v))


class EqRel:
    """equality of the parts is reflexive and symmetric"""
    inplace = ()

    def on_open(self, S, t, key, v):
        pass


class Order:
    """comparison of smaller expressions is antisymmetric and reflexive (induction over the size of the two arguments).
    tag(x, y): 0 less, 1 equal, 2 greater: the result of the comparison of x and y.
    FD(s, t), FR(s, t): number of leading / trailing elements of s and t that compare equal, pair by pair"""
    inplace = ()
    NAMES = ('<Atom as Ord>::cmp', 'cmp_slice', 'cmp_slice_rev')

    def __init__(self, S, mode):
        self.S, self.mode = S, mode
        self.size = S.fun('size', S.Atom, z3.RealSort())
        self.m = S.m_size if hasattr(S, 'm_size') else Measure('tsize', '+', lambda t: self.size(t) + 1)
        S.m_size = self.m
        self.ms = (self.m,)
        self.nfun = S.fun('nfun', S.Func, z3.RealSort())

    def meas(self, x):
        S = self.S
        if x.sort() == S.Atom:
            S.mention(x)
            return self.size(x)
        if x.sort() != S.SeqA:
            return z3.RealVal(1)
        S.touch_seq(x)
        S.eng.assume(S.M(self.m, x) >= 0)
        return S.M(self.m, x)

    def tag(self, name, x, y):
        return self.S.fun('f:' + name + '?', x.sort(), x.sort(), z3.IntSort())(x, y)

    def on_open(self, S, t, key, v):
        if key not in ('Atom', 'Func'):
            return
        n, g, acc = opening(t, v)
        a = S.eng.assume
        if key == 'Func':
            a(Implies(g, self.nfun(t) > self.size(acc(1 if n == 'Log' else 0)) + 1))
            return
        a(self.size(t) >= 1)
        if n in ('Sum', 'Prod'):
            a(Implies(g, self.size(t) > self.meas(acc(0))))
        elif n == 'Pow':
            b, e = S.pow_args(acc(0))
            a(Implies(g, And(self.size(t) > self.size(b) + self.size(e), self.size(b) >= 1, self.size(e) >= 1)))
        elif n == 'Func':
            a(Implies(g, self.size(t) > self.nfun(acc(0))))
        else:
            a(Implies(g, self.size(t) == 1))

    def start(self, eng, f, args):
        self.name = f['norm']
        self.args = args; self.S.ordering = self
        self.root = self.meas(args[0]) + self.meas(args[1])
        if self.name not in self.NAMES:
            self.root = self.root + 1       # not part of the recursion: it may rely on all of what is shown there
        self.runs, self.swapped = 1, z3.BoolVal(False)
        if args[0].sort() == self.S.SeqA:
            self.first(*args)
        self.res = []

    def after(self, eng, ret):
        """the function is deterministic: its result has a name"""
        x, y = self.args if self.runs == 1 else self.args[::-1]
        if isinstance(ret, E.Agg) and self.name in self.NAMES:
            eng.assume(self.tag(self.name, x, y) == ret.var)
        self.runs += 1

    def nth_of(self, x):
        if z3.is_app(x) and x.decl().name().startswith('nth') and x.num_args() == 2:
            return x.arg(0), x.arg(1)
        return None

    def first(self, s, t):
        """range of FD and FR; symmetric as the comparison of the elements is antisymmetric"""
        out = []
        for n in ('FD', 'FR'):
            f = self.S.fun(n, s.sort(), s.sort(), z3.IntSort())
            d, ls, lt = f(s, t), self.S.LEN(s), self.S.LEN(t)
            self.S.eng.assume(Implies(self.meas(s) + self.meas(t) <= self.root, And(d == f(t, s), d >= 0, d <= ls, d <= lt)))
            out.append(d)
        return out

    def on_call(self, eng, c, old, ret):
        if c.name not in self.NAMES:
            return
        S, a = self.S, eng.assume
        x, y = old
        u, w = self.nth_of(x), self.nth_of(y)
        for p in (u, w):
            if p is not None:
                s, i = p
                S.touch_seq(s)
                inb = And(i >= 0, i < S.LEN(s))
                t = S.nth(s, i)
                a(Implies(inb, And(self.size(t) + 1 <= self.meas(s), self.size(t) >= 1)))
        small = self.meas(x) + self.meas(y) < self.root
        r, q = self.tag(c.name, x, y), self.tag(c.name, y, x)
        if self.mode == 'ends':
            if not eng.prefix:
                own = c.name == self.name
                first = self.args if self.runs == 1 else self.args[::-1]
                sw = And(x == first[1], y == first[0]) if own else z3.BoolVal(False)
                g = Or(small, sw if self.runs == 1 else And(Not(self.swapped), sw))
                st, model = eng.prove(g)
                self.swapped = Or(self.swapped, Not(small))
                self.res.append((st, g, model, eng.line))
                if eng.prove(small)[0] == 'proved':
                    return
                if self.loops:
                    self.res.append(('failed', g, None, eng.line))
            return
        a(Implies(small, And(r + q == 2, r >= 0, r <= 2)))
        a(Implies(And(small, x == y), r == 1))
        if u is not None and w is not None:
            (s, i), (t, j) = u, w
            fd, fr = self.first(s, t)
            ls, lt = S.LEN(s), S.LEN(t)
            g = self.meas(s) + self.meas(t) <= self.root
            for k, l, d in ((i, j, fd), (ls - 1 - i, lt - 1 - j, fr)):
                a(Implies(And(g, k == l, k >= 0, k < d), r == 1))
                a(Implies(And(g, k == l, k == d, d < ls, d < lt), r != 1))

    loops = False


class Registry:
    def __init__(self):
        self.c = {}
        self.external = set()

    def add(self, c):
        assert c.name not in self.c, c.name
        self.c[c.name] = c
        return c

    def get(self, n):
        return self.c.get(n)

    def ext(self, c):
        self.add(c)
        self.external.add(c.name)


def ret_opt(e):
    """(is_some, payload) of an Option result"""
    r = e.ret
    if isinstance(r, E.Agg):
        return (True, r.fields[0]) if r.var == 1 else (False, None)
    raise Unsupported('option result')


def build(sem, prog, mode='expr'):
    reg = Registry()
    S = sem

    def C(name, *clauses, **kw):
        return reg.add(Contract(name, list(clauses), **kw))

    def cl(id, pre, post, **kw):
        return Clause(id, pre, post, **kw)

    # ---------------------------------------------------------------- Rational
    q = lambda e, i: e.A(i)

    def binop(name, f, pre=None):
        def ret(eng, old):
            return z3.simplify(f(eng.zany(old[0]), eng.zany(old[1])))
        C(name, cl('value', pre, lambda e: e.R == f(e.A(0), e.A(1))), returns=ret if pre is None else None)

    def assignop(name, f, pre=None):
        C(name, cl('value', pre, lambda e: e.N(0) == f(e.A(0), e.A(1))))
    nz = lambda e: e.A(1) != 0
    binop('<Rational as Add>::add', lambda a, b: a + b)
    binop('<Rational as Sub>::sub', lambda a, b: a - b)
    binop('<Rational as Mul>::mul', lambda a, b: a * b)
    binop('<Rational as Div>::div', lambda a, b: a / b, nz)
    reg.c['<Rational as Div>::div'].clauses[0].post = lambda e: e.R * e.A(1) == e.A(0)
    assignop('<Rational as AddAssign>::add_assign', lambda a, b: a + b)
    assignop('<Rational as SubAssign>::sub_assign', lambda a, b: a - b)
    assignop('<Rational as MulAssign>::mul_assign', lambda a, b: a * b)
    C('<Rational as DivAssign>::div_assign', cl('value', nz, lambda e: e.N(0) * e.A(1) == e.A(0)))

    def pred(name, f):
        def ret(eng, old):
            return z3.simplify(f(*[eng.zany(o) for o in old]))
        C(name, cl('value', None, lambda e: e.R == f(*[e.A(i) for i in range(len(e.old))])), returns=ret)
    pred('<Rational as PartialEq>::eq', lambda a, b: a == b)
    pred('<Rational as PartialEq>::ne', lambda a, b: a != b)
    pred('<Rational as PartialOrd>::gt', lambda a, b: a > b)
    pred('<Rational as PartialOrd>::lt', lambda a, b: a < b)
    pred('<Rational as PartialOrd>::ge', lambda a, b: a >= b)
    pred('<Rational as PartialOrd>::le', lambda a, b: a <= b)
    pred('Rational::is_zero', lambda a: a == 0)
    pred('Rational::is_one', lambda a: a == 1)
    pred('Rational::is_two', lambda a: a == 2)
    pred('Rational::is_min_one', lambda a: a == -1)
    pred('Rational::is_min_two', lambda a: a == -2)
    pred('Rational::is_pos', lambda a: a > 0)
    pred('Rational::is_neg', lambda a: a < 0)
    pred('Rational::is_int', lambda a: S.isZ(a))
    pred('Rational::is_fraction', lambda a: Not(S.isZ(a)))
    def parity(e, yes, no):
        a = e.A(0)
        k = nd(a)[0] / 2
        S.memo('half', (a,), lambda: [S.isZ(z3.ToReal(k)), Implies(S.isZ(a), z3.ToReal(nd(a)[0]) == a)])
        return And(Implies(e.R, And(S.isZ(a), S.isZ(yes(a) / 2))), Implies(And(Not(e.R), S.isZ(a)), S.isZ(no(a) / 2)))
    C('Rational::is_even', cl('value', None, lambda e: parity(e, lambda a: a, lambda a: a - 1)))
    C('Rational::is_odd', cl('value', None, lambda e: parity(e, lambda a: a - 1, lambda a: a)))

    def ord_ret(eng, old):
        a, b = eng.zany(old[0]), eng.zany(old[1])
        return eng.ordering(eng.choose([('lt', a < b), ('eq', a == b), ('gt', a > b)]))

    def ord_post(e):
        a, b = e.A(0), e.A(1)
        return [a < b, a == b, a > b][e.ret.var]
    C('<Rational as Ord>::cmp', cl('value', None, ord_post), returns=ord_ret)
    C('<Rational as PartialOrd>::partial_cmp', cl('value', None, lambda e: z3.BoolVal(False) if e.ret.var == 0 else [e.A(0) < e.A(1), e.A(0) == e.A(1), e.A(0) > e.A(1)][e.ret.fields[0].var]), inline=True)

    # numerator and denominator are integers with q*d = n, d >= 1
    def nd(qv):
        n = S.fun('numer', z3.RealSort(), z3.IntSort())(qv)
        d = S.fun('denom', z3.RealSort(), z3.IntSort())(qv)
        return n, d

    def numer_facts(e, a=None):
        a = e.A(0) if a is None else a
        n, d = nd(a)
        return And(d >= 1, z3.ToReal(n) == a * z3.ToReal(d), a == z3.ToReal(n) / z3.ToReal(d), (d == 1) == S.isZ(a), Implies(S.isZ(a), z3.ToReal(n) == a),
                   (n == 0) == (a == 0), (n > 0) == (a > 0), (n < 0) == (a < 0))
    C('Rational::numer', cl('value', None, lambda e: And(e.R == nd(e.A(0))[0], numer_facts(e))), returns=lambda eng, o: nd(eng.zany(o[0]))[0])
    C('Rational::denom', cl('value', None, lambda e: And(e.R == nd(e.A(0))[1], numer_facts(e))), returns=lambda eng, o: nd(eng.zany(o[0]))[1])
    C('Rational::new_int', cl('value', None, lambda e: And(e.R == z3.ToReal(e.A(0)), S.isZ(e.R))))
    C('Rational::inverse', cl('value', None, lambda e: (And(e.A(0) != 0, e.ret.fields[0] * e.A(0) == 1, e.ret.fields[0] == 1 / e.A(0)) if e.ret.var == 1 else e.A(0) == 0)))
    C('Rational::abs', cl('value', None, lambda e: e.R == If(e.A(0) >= 0, e.A(0), -e.A(0))))
    C('Rational::floor', cl('value', None, lambda e: And(z3.ToReal(e.R) <= e.A(0), e.A(0) < z3.ToReal(e.R) + 1)))
    C('Rational::to_int', cl('value', None, lambda e: (And(S.isZ(e.A(0)), z3.ToReal(e.ret.fields[0]) == e.A(0)) if e.ret.var == 1 else Not(S.isZ(e.A(0))))))
    C('Rational::div_rem', cl('value', None, lambda e: And(S.isZ(e.T(0)), e.T(0) + e.T(1) == e.A(0), e.T(1) < 1, e.T(1) > -1,
                                                           Implies(e.A(0) >= 0, e.T(1) >= 0), Implies(e.A(0) <= 0, e.T(1) <= 0))))
    gcdf = lambda n: S.fun(n, z3.IntSort(), z3.IntSort(), z3.IntSort())
    gcd = lambda a, b: gcdf('gcd')(a, b)

    def gcd_facts(a, b):
        g = gcd(a, b)
        return And(a == g * gcdf('gcd_left')(a, b), b == g * gcdf('gcd_right')(a, b), g >= 0, (g == 0) == And(a == 0, b == 0))

    def pow_post(e):
        """the power is taken, or its whole part is and the rest is left, or nothing is"""
        a, x, p, r = e.A(0), e.A(1), e.T(0), e.T(1)
        S.memo('powinv', (a, x), lambda: [Implies(And(a != 0, S.pdef(a, x)), S.pw(1 / a, -x) == S.pw(a, x))])

        def rest(b, y):
            whole = y - r
            return Or(r == 0, And(p == b, r == y), And(S.isZ(whole), p == S.pw(b, whole), r > 0, r < 1))
        return And(Implies(r == 0, p == S.pw(a, x)), Implies(x < 0, rest(1 / a, -x)), Implies(x >= 0, rest(a, x)))
    C('Rational::pow', cl('value', lambda e: S.pdef(e.A(0), e.A(1)), pow_post))
    C('Rational::pow_basic', cl('value', lambda e: S.pdef(e.A(0), e.A(1)), lambda e: TRUE if e.ret.var == 0 else e.ret.fields[0] == S.pw(e.A(0), e.A(1))))

    def int_gcd_post(e):
        if e.ret.var == 0:
            return nd(e.A(0))[1] != nd(e.A(1))[1]
        r, (n, d), (m, _) = e.ret.fields[0], nd(e.A(0)), nd(e.A(1))
        both = [x == r * z3.ToReal(k) for x, k in ((e.A(0), gcdf('gcd_left')(n, m)), (e.A(1), gcdf('gcd_right')(n, m)))]
        return And(r * z3.ToReal(d) == z3.ToReal(gcd(n, m)), Implies(Or(e.A(0) != 0, e.A(1) != 0), r > 0), *both)
    C('Rational::int_gcd', cl('value', None, int_gcd_post))
    C('Rational::f64_approx')
    C('<Rational as Default>::default', cl('value', None, lambda e: e.R == 0), inline=True)

    def rfrom(e):
        a = e.old[0]
        if isinstance(a, E.Agg):
            n, d = a.fields
            return Implies(d != 0, e.R * z3.ToReal(d) == z3.ToReal(n))
        v = e.eng.zany(a)
        if v.sort() == z3.RealSort():
            return e.R == v
        return And(e.R == z3.ToReal(v), S.isZ(e.R))
    C('<Rational as From>::from', cl('value', None, rfrom))

    def rnew(e):
        n, d = e.A(0), e.A(1)
        return Implies(d != 0, And(e.R * z3.ToReal(d) == z3.ToReal(n), e.R == z3.ToReal(n) / z3.ToReal(d)))
    C('Rational::new', cl('value', None, rnew))

    # ---------------------------------------------------------------- the number crate
    def X(name, *clauses, **kw):
        reg.ext(Contract(name, list(clauses), trusted='num crates', **kw))
    same_as = lambda name, src: X(name, *reg.c[src].clauses, returns=reg.c[src].returns)
    for o in ('Add', 'Sub', 'Mul', 'Div'):
        same_as('<Ratio as %s>::%s' % (o, o.lower()), '<Rational as %s>::%s' % (o, o.lower()))
        same_as('<Ratio as %sAssign>::%s_assign' % (o, o.lower()), '<Rational as %sAssign>::%s_assign' % (o, o.lower()))
    X('<Ratio as Neg>::neg', cl('value', None, lambda e: e.R == -e.A(0)))
    same_as('<Ratio as Ord>::cmp', '<Rational as Ord>::cmp')
    same_as('<Ratio as PartialEq>::eq', '<Rational as PartialEq>::eq')
    X('<Ratio as Default>::default', cl('value', None, lambda e: e.R == 0))
    X('<Ratio as PartialOrd>::partial_cmp', *reg.c['<Rational as PartialOrd>::partial_cmp'].clauses)
    same_as('num_rational::Ratio::numer', 'Rational::numer')
    same_as('num_rational::Ratio::denom', 'Rational::denom')
    same_as('num_rational::Ratio::is_integer', 'Rational::is_int')
    same_as('num_rational::Ratio::new', 'Rational::new')
    same_as('num_traits::sign::abs', 'Rational::abs')
    # new_raw reduces nothing: the number is well formed only as it stands
    X('num_rational::Ratio::new_raw', cl('value', None, lambda e: Implies(e.A(1) == 1, And(e.R == z3.ToReal(e.A(0)), S.isZ(e.R)))))
    toward0 = lambda n, a: And(If(a >= 0, And(z3.ToReal(n) <= a, a < z3.ToReal(n) + 1), And(z3.ToReal(n) >= a, a > z3.ToReal(n) - 1)), Implies(S.isZ(a), z3.ToReal(n) == a))
    X('num_rational::Ratio::to_integer', cl('value', None, lambda e: toward0(e.R, e.A(0))))
    X('num_rational::Ratio::floor', cl('value', None, lambda e: And(S.isZ(e.R), e.R <= e.A(0), e.A(0) < e.R + 1, numer_facts(e, e.R))))
    X('num_rational::Ratio::trunc', cl('value', None, lambda e: And(S.isZ(e.R), If(e.A(0) >= 0, And(e.R <= e.A(0), e.A(0) < e.R + 1), And(e.R >= e.A(0), e.A(0) > e.R - 1)), numer_facts(e, e.R))))
    X('num_traits::pow::checked_pow', cl('value', None, lambda e: TRUE if e.ret.var == 0 else
                                         Implies(Or(e.A(0) != 0, e.A(1) != 0), e.ret.fields[0] == S.pw(e.A(0), z3.ToReal(e.A(1))))))
    X('<i128 as Integer>::gcd', cl('value', None, lambda e: And(e.R == gcd(e.A(0), e.A(1)), gcd_facts(e.A(0), e.A(1)))))

    # ---------------------------------------------------------------- copies
    for ty in ('Atom', 'Sum', 'Prod', 'Pow', 'Func', 'Real', 'Irrational', 'Rational'):
        C('<%s as Clone>::clone' % ty, cl('copy', None, lambda e: e.R == e.A(0)), returns=lambda eng, old: old[0])

    # ---------------------------------------------------------------- equality
    S.eqrel = EqRel()
    swap = lambda a: [a[1], a[0]]
    relkw = dict(interp={'sound': ((), ()), 'refl': ((S.eqrel,), ()), 'sym': ((S.eqrel,), ())}, angle_sums=False)

    def equality(name, sound, ret=None, **kw):
        """sound, reflexive, symmetric"""
        def sym(e):
            if e.ret2 is not None:
                return e.R == e.R2
            return e.R == (ret(e.A(1), e.A(0)) if ret is not None else S.fun('f:' + name, e.A(0).sort(), e.A(1).sort(), z3.BoolSort())(e.A(1), e.A(0)))
        C(name, cl('sound', None, lambda e: sound(e)), cl('refl', lambda e: e.A(0) == e.A(1), lambda e: e.R), cl('sym', None, sym, again=swap),
          returns=(lambda eng, old: ret(eng.zany(old[0]), eng.zany(old[1]))) if ret is not None else None, **relkw, **kw)

    def atom_sound(e):
        a, b = e.A(0), e.A(1)
        for x in (a, b):
            S.memo('split', (x,), lambda: [S.split_facts(x)])
        return S.eqv_facts(a, b, e.R)
    equality('<Atom as PartialEq>::eq', atom_sound, S.eqv)
    for ty in ('Sum', 'Prod'):
        equality('<%s as PartialEq>::eq' % ty, lambda e: S.seq_eqv_facts(e.A(0), e.A(1), e.R))
    same = lambda f: lambda e: Implies(e.R, f(e.A(0), e.A(1)))
    equality('<Pow as PartialEq>::eq', same(lambda a, b: And([And(S.val(x) == S.val(y), S.df(x) == S.df(y)) for x, y in zip(S.pow_args(a), S.pow_args(b))])), inline=True)
    equality('<Func as PartialEq>::eq', same(lambda a, b: And(S.fval(a) == S.fval(b), S.fdef(a) == S.fdef(b))), inline=True)
    for ty in ('Real', 'Irrational', 'Var'):
        equality('<%s as PartialEq>::eq' % ty, lambda e: e.R == (e.A(0) == e.A(1)), inline=True)

    # the order decides nothing about values
    anti_o, ends_o = Order(S, 'anti'), Order(S, 'ends')
    ordkw = dict(interp={'refl': ((S.eqrel, anti_o), anti_o.ms), 'anti': ((S.eqrel, anti_o), anti_o.ms), 'ends': ((ends_o,), ends_o.ms), 'some': ((), ())}, angle_sums=False)

    def ordering(name, ends=True, **kw):
        """reflexive, antisymmetric, and it returns"""
        cls = [cl('refl', lambda e: e.A(0) == e.A(1), lambda e: e.ret.var == 1, callee=False),
               cl('anti', None, lambda e: e.ret.var + e.ret2.var == 2, again=swap, callee=False)]
        if ends:
            cls.append(cl('ends', None, lambda e: [And([z3.BoolVal(x[0] == 'proved') for x in ends_o.res])][0], again=swap, callee=False))
        C(name, *cls, **ordkw, **kw)
    C('Func::name')       # a function of its argument, nothing else is used of it
    ordering('<Atom as Ord>::cmp')

    def slice_hints(S, eng, mod, entry, idx):
        """index of the first pair of elements that differ"""
        out = []
        fw, bw = [], []
        for loc in mod:
            if not loc[1] or loc[1][-1][0] != 'it' or loc[1][-1][1] not in ('i', 'end'):
                continue
            it = eng.get_path(entry[loc[0]], loc[1][:-1])
            if it.kind != 'slice':
                continue
            sq = it.f.get('seq')
            if isinstance(sq, E.Lst):
                sq = eng.zany(sq)
            (fw if loc[1][-1][1] == 'i' else bw).append((loc, sq, it))
        for ls, tag, f in ((fw, 'fw', 'FD'), (bw, 'bw', 'FR')):
            done = (lambda L, x: L[x[0]] - x[2].i) if tag == 'fw' else (lambda L, x: x[2].end - L[x[0]])
            for x in ls:
                out.append(('%srange:%d' % (tag, x[0][0]) + str(x[0][1]), lambda L, x=x, done=done: And(done(L, x) >= 0, done(L, x) <= S.LEN(x[1]))))
                for y in ls:
                    if x is y or str(x[0]) > str(y[0]):
                        continue
                    fn = S.fun(f, x[1].sort(), x[1].sort(), z3.IntSort())(x[1], y[1])
                    out.append(('%ssame:%s%s' % (tag, x[0], y[0]), lambda L, x=x, y=y, done=done: done(L, x) == done(L, y)))
                    out.append(('%sdiff:%s%s' % (tag, x[0], y[0]), lambda L, x=x, y=y, done=done, fn=fn: done(L, x) <= fn))
        # index loops
        s, t = [eng.zany(x) for x in S.ordering.args]
        for rl, i0, end in ranges(eng, mod, entry):
            for f in ('FD', 'FR'):
                fn = S.fun(f, s.sort(), t.sort(), z3.IntSort())(s, t)
                out.append(('index%s:%s' % (f, rl), lambda L, rl=rl, i0=i0, fn=fn: L[rl] - i0 <= fn))
        return out
    for nm in ('cmp_slice', 'cmp_slice_rev'):
        ordering(nm, hints=slice_hints)
    ordering('<Expr as Ord>::cmp', ends=False, inline=True)
    ordering('<Real as Ord>::cmp', ends=False, inline=True)
    for nm in ('Atom', 'Expr'):
        C('<%s as PartialOrd>::partial_cmp' % nm, cl('some', None, lambda e: And(z3.BoolVal(e.ret.var == 1), e.ret.fields[0].var == anti_o.tag('<Atom as Ord>::cmp', e.A(0), e.A(1))) if e.ret.var == 1 else z3.BoolVal(False)), inline=True, **ordkw)
    C('<Sum as Ord>::cmp')
    C('<Prod as Ord>::cmp')
    # ---------------------------------------------------------------- value preservation
    def df(e, *ix):
        return And([S.df(e.A(i)) for i in ix])

    def val1(name, f, pre=None, id='value', ix=None, hints=None, **kw):
        """result is defined and has value f(args) when the listed arguments are defined (and pre holds)"""
        def p(e):
            n = ix if ix is not None else range(len(e.old))
            c = df(e, *n)
            return And(c, pre(e)) if pre is not None else c
        return C(name, cl(id, p, lambda e: And(S.df(e.R), S.val(e.R) == f(e))), hints=hints, **kw)
    v = lambda e, i: S.val(e.A(i))
    und = lambda t: S.is_(t, 'Undef')
    lit0 = lambda t: And(S.is_(t, 'Rational'), S.rat(t) == 0)
    # an undefined operand makes the result undefined
    undef2 = cl('undef', lambda e: Or(und(e.A(0)), und(e.A(1))), lambda e: und(e.R))
    val2 = lambda f: cl('value', lambda e: df(e, 0, 1), lambda e: And(S.df(e.R), S.val(e.R) == f(v(e, 0), v(e, 1))))
    C('Expr::add', val2(lambda a, b: a + b), undef2)
    C('Expr::sub', val2(lambda a, b: a - b), undef2)
    C('Expr::mul', val2(lambda a, b: a * b), undef2,
      # the number 0 times anything that is not the undefined expression is the number 0
      cl('zero', lambda e: Or(And(lit0(e.A(0)), Not(und(e.A(1)))), And(lit0(e.A(1)), Not(und(e.A(0))))), lambda e: lit0(e.R)))
    C('Expr::div', cl('value', lambda e: And(df(e, 0, 1), v(e, 1) != 0), lambda e: And(S.df(e.R), S.val(e.R) * v(e, 1) == v(e, 0))), undef2,
      cl('zero', lambda e: lit0(e.A(1)), lambda e: und(e.R)))
    powpre = lambda e: And(df(e, 0, 1), S.pdef(v(e, 0), v(e, 1)))
    C('Expr::pow', cl('value', powpre, lambda e: And(S.df(e.R), S.val(e.R) == S.pw(v(e, 0), v(e, 1)))),
      # x^0 is 1 even where x is 0, unless x is the number 0
      cl('zero', lambda e: And(df(e, 0), S.is_(e.A(1), 'Rational'), S.rat(e.A(1)) == 0, Not(And(S.is_(e.A(0), 'Rational'), S.rat(e.A(0)) == 0))),
         lambda e: And(S.df(e.R), S.val(e.R) == 1)),
      undef2, cl('zero base', lambda e: And(lit0(e.A(0)), S.is_(e.A(1), 'Rational'), S.rat(e.A(1)) <= 0), lambda e: und(e.R)))
    # the operators; calls to them are replaced by their bodies
    for op, f in (('Add', lambda a, b: a + b), ('Sub', lambda a, b: a - b), ('Mul', lambda a, b: a * b)):
        o = op.lower()
        for T in ('Expr', '&Expr'):
            C('<%s as %s>::%s' % (T, op, o), val2(f), undef2, inline=True)
        C('<Expr as %sAssign>::%s_assign' % (op, o), cl('value', lambda e: df(e, 0, 1), lambda e, f=f: And(S.df(e.N(0)), S.val(e.N(0)) == f(v(e, 0), v(e, 1)))), inline=True)
    divq = lambda r, e: And(S.df(r), S.val(r) * v(e, 1) == v(e, 0))
    for T in ('Expr', '&Expr'):
        C('<%s as Div>::div' % T, cl('value', lambda e: And(df(e, 0, 1), v(e, 1) != 0), lambda e: divq(e.R, e)), undef2, inline=True)
    C('<Expr as DivAssign>::div_assign', cl('value', lambda e: And(df(e, 0, 1), v(e, 1) != 0), lambda e: divq(e.N(0), e)), inline=True)
    C('Expr::pow_raw', cl('value', powpre, lambda e: And(S.df(e.R), S.val(e.R) == S.pw(v(e, 0), v(e, 1)))))
    val1('Expr::add_raw', lambda e: v(e, 0) + v(e, 1))
    val1('Expr::mul_raw', lambda e: v(e, 0) * v(e, 1))
    C('Expr::div_raw', cl('value', lambda e: And(df(e, 0, 1), v(e, 1) != 0), lambda e: And(S.df(e.R), S.val(e.R) * v(e, 1) == v(e, 0))))

    C('Expr::flatten',
      cl('value', None, lambda e: And(S.df(e.R) == S.df(e.A(0)), S.val(e.R) == S.val(e.A(0)))),
      cl('leaf', None, lambda e: Implies(Not(Or(S.is_(e.A(0), 'Sum'), S.is_(e.A(0), 'Prod'), S.is_(e.A(0), 'Pow'))), e.R == e.A(0))))

    def seqop(name, m, comb, neutral):
        C(name, cl('value', lambda e: And(S.M(S.m_def, e.A(0)), S.df(e.A(1))),
                   lambda e: And(S.M(S.m_def, e.N(0)), S.M(m, e.N(0)) == comb(S.M(m, e.A(0)), v(e, 1)))))
    plus = lambda a, b: a + b
    times = lambda a, b: a * b
    seqop('Sum::add_rhs', S.m_sum, plus, 0)
    seqop('Sum::add_rhs_raw', S.m_sum, plus, 0)
    seqop('Prod::mul_rhs', S.m_prod, times, 1)
    seqop('Prod::mul_rhs_raw', S.m_prod, times, 1)

    def flat_facts(x):
        """the contract of flatten for the term naming its result"""
        y = S.flat(x)
        if S.once('flat', x):
            S.eng.assume(And(S.df(y) == S.df(x), S.val(y) == S.val(x)))
    S.flat_facts = flat_facts
    # ghost split  val = coefficient * rest
    S.rcoef = S.fun('rcoef', S.Atom, z3.RealSort())
    S.nrval = S.fun('nrval', S.Atom, z3.RealSort())
    S.extra_eqv += [S.rcoef, S.nrval]

    def split_facts(x):
        """definition of rcoef/nrval"""
        P = S.is_(x, 'Prod')
        s = S.args(x, 'Prod')
        S.touch_seq(s)
        RU = Or(S.is_(x, 'Rational'), S.is_(x, 'Undef'))
        return And(Implies(P, And(S.rcoef(x) == S.M(S.m_ratp, s), S.nrval(x) == S.M(S.m_nratp, s), S.M(S.m_prod, s) == S.M(S.m_ratp, s) * S.M(S.m_nratp, s),
                                  S.val(x) == S.M(S.m_prod, s), S.df(x) == S.M(S.m_def, s))),
                   Implies(Not(Or(P, RU)), And(S.rcoef(x) == 1, S.nrval(x) == S.val(x))))

    S.split_facts = split_facts

    def rc_post(e):
        x = e.A(0)
        some, c = ret_opt(e)
        RU = Or(S.is_(x, 'Rational'), S.is_(x, 'Undef'))
        S.touch_seq(S.args(x, 'Prod'))
        S.memo('split', (x,), lambda: [split_facts(x)])
        if not some:
            return RU
        return And(Not(RU), c == S.rcoef(x), S.val(x) == S.rcoef(x) * S.nrval(x))
    C('Expr::rational_coeff', cl('value', None, rc_post))

    def nrt_post(e):
        x = e.A(0)
        some, t = ret_opt(e)
        RU = Or(S.is_(x, 'Rational'), S.is_(x, 'Undef'))
        S.touch_seq(S.args(x, 'Prod'))
        S.memo('split', (x,), lambda: [split_facts(x)])
        if not some:
            return Or(RU, S.is_(x, 'Prod'))
        return And(Not(RU), S.val(t) == S.nrval(x), Implies(S.df(x), S.df(t)), S.val(x) == S.rcoef(x) * S.nrval(x))
    C('Expr::non_rational_term', cl('value', None, nrt_post))

    # base / exponent: val(x) = val(base)^val(exponent); both name the same decomposition
    S.baseof = S.fun('f:Expr::base', S.Atom, S.Atom)
    S.expof = S.fun('f:Expr::exponent', S.Atom, S.Atom)
    S.flat = S.fun('f:Expr::flatten', S.Atom, S.Atom)

    def be_facts(x, r, which):
        y = S.flat(x)
        arr = S.args(y, 'Pow')
        p = S.is_(y, 'Pow')
        b, ex = S.PowI['acc'][0](arr), S.PowI['acc'][1](arr)
        return If(p, r == (b if which == 0 else ex), (r == x) if which == 0 else (r == S.mkrat(1)))

    def be_value(x):
        """consequences of the definition, for callers"""
        b, ex = S.baseof(x), S.expof(x)
        vb, ve = S.val(b), S.val(ex)
        return And(S.val(x) == S.pw(vb, ve), S.df(x) == And(S.df(b), S.df(ex), S.pdef(vb, ve)))
    def base_post(which):
        def post(e):
            x = e.A(0)
            S.flat_facts(x)
            y = S.flat(x)
            S.opened(y, S.vi('Pow'), S.ai)
            f = be_facts(x, e.R, which)
            # the two names denote the same decomposition (definition of baseof / expof)
            d = And(be_facts(x, S.baseof(x), 0), be_facts(x, S.expof(x), 1))
            e.eng.assume(d)
            b, ex = S.baseof(x), S.expof(x)
            vb, ve = S.val(b), S.val(ex)
            S.mention(S.mkrat(1))
            return And(f, e.R == (b if which == 0 else ex), S.val(x) == S.pw(vb, ve), S.df(x) == And(S.df(b), S.df(ex), S.pdef(vb, ve)))
        return post
    C('Expr::base', cl('value', None, base_post(0)))
    C('Expr::exponent', cl('value', None, base_post(1)))
    # ---------------------------------------------------------------- reduce
    MD = lambda s: S.M(S.m_def, s)

    def keeps(name, **kw):
        """defined argument => defined result of the same value"""
        return val1(name, lambda e: v(e, 0), ix=[0], **kw)

    def seqs(name, m, pre, f, **kw):
        """sequence result; pre: what has to be defined; f: value of the measure m of the result"""
        return C(name, cl('value', pre, lambda e: And(MD(e.R), S.M(m, e.R) == f(e))), **kw)
    S.deriv = Deriv(S)
    S.subst = [Subst(S, 1, 'sb'), Subst(S, 1, 'sc'), Subst(S, 2, 'sp')]

    def prod_rule(s):
        if S.deriv not in S.interp:
            raise NA()
        for x in S.deriv.prod(s):
            S.eng.assume(x)
        return z3.BoolVal(True)
    m_pos = Measure('allpos', '&', lambda t: S.val(t) > 0, link=lambda a, M: Implies(a, M(S.m_prod) > 0))
    for T, m, op, add in (('Sum', S.m_sum, plus, 'add'), ('Prod', S.m_prod, times, 'mul')):
        seqs(T + '::reduce_rec', m, lambda e: MD(e.A(0)), lambda e, m=m: S.M(m, e.A(0)))
        seqs(T + '::merge_args', m, lambda e: And(MD(e.A(0)), MD(e.A(1))), lambda e, m=m, op=op: op(S.M(m, e.A(0)), S.M(m, e.A(1))))
        seqs(T + '::flat_merge', m, lambda e: And(S.df(e.A(0)), MD(e.A(1))), lambda e, m=m, op=op: op(v(e, 0), S.M(m, e.A(1))))
        seqs(T + '::%s_sorted' % add, m, lambda e: df(e, 0, 1), lambda e, op=op: op(v(e, 0), v(e, 1)))
        C('<%s as SymbolicExpr>::reduce' % T, cl('value', lambda e: MD(e.A(0)), lambda e, m=m: And(S.df(e.R), S.val(e.R) == S.M(m, e.A(0)))))
        C(T + '::as_binary_' + ('sum' if T == 'Sum' else 'mul'),
          cl('value', lambda e: MD(e.A(0)), lambda e, m=m, op=op: And(S.df(e.T(0)), S.df(e.T(1)), op(S.val(e.T(0)), S.val(e.T(1))) == S.M(m, e.A(0)))),
          cl('first', lambda e: S.LEN(e.A(0)) >= 1, lambda e: e.T(0) == S.nth(e.A(0), 0)),
          *([cl('positive', lambda e: S.M(m_pos, e.A(0)), lambda e: And(S.val(e.T(0)) > 0, S.val(e.T(1)) > 0))] if T == 'Prod' else []),
          *([cl('deriv', lambda e: And(MD(e.A(0)), S.M(S.deriv.m_sd, e.A(0)), prod_rule(e.A(0))),
                lambda e: And(S.deriv.sd(e.T(0)), S.deriv.sd(e.T(1)), S.deriv.DP(e.A(0)) == S.deriv.D(e.T(0)) * S.val(e.T(1)) + S.val(e.T(0)) * S.deriv.D(e.T(1))))] if T == 'Prod' else []),
          **(dict(measures=(m_pos, S.deriv.m_sd), interp=(S.deriv,)) if T == 'Prod' else {}))

    def pow_parts(t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            return t.arg(0), t.arg(1)
        return S.PowI['acc'][0](t), S.PowI['acc'][1](t)

    def powpre2(e):
        b, x = pow_parts(e.A(0))
        return And(S.df(b), S.df(x), S.pdef(S.val(b), S.val(x)))

    def powval(e):
        b, x = pow_parts(e.A(0))
        return S.pw(S.val(b), S.val(x))
    C('<Pow as SymbolicExpr>::reduce', cl('value', powpre2, lambda e: And(S.df(e.R), S.val(e.R) == powval(e))))
    C('<Func as SymbolicExpr>::reduce', cl('value', lambda e: S.fdef(e.A(0)), lambda e: And(S.df(e.R), S.val(e.R) == S.fval(e.A(0)))))
    keeps('<Expr as SymbolicExpr>::reduce')
    keeps('Expr::sort_args')

    # ---------------------------------------------------------------- fractions
    # numv / denv: the value of the numerator and of the denominator, by the structure of the expression
    numv = S.fun('numv', S.Atom, z3.RealSort())
    denv = S.fun('denv', S.Atom, z3.RealSort())
    m_num, m_den = Measure('Mnum', '*', lambda t: numv(t)), Measure('Mden', '*', lambda t: denv(t))

    def frac_def(x):
        b, ex = S.base_of(x)
        S.mention(b)
        S.mention(ex)
        P, s = S.is_(x, 'Prod'), S.args(x, 'Prod')
        q = S.rat(x)
        minus = And(S.is_(ex, 'Rational'), S.rat(ex) == -1)
        S.touch_seq(s)
        W = S.is_(x, 'Pow')
        fs = [Implies(P, And(S.val(x) == S.M(S.m_prod, s), S.df(x) == S.M(S.m_def, s))),
              Implies(S.is_(x, 'Rational'), And(numv(x) == z3.ToReal(nd(q)[0]), denv(x) == z3.ToReal(nd(q)[1]))),
              Implies(And(W, minus), And(numv(x) == 1, denv(x) == S.val(b))),
              Implies(And(W, Not(minus)), And(numv(x) == S.val(x), denv(x) == 1)),
              Implies(Not(Or(P, W, S.is_(x, 'Rational'), S.is_(x, 'Undef'))), And(numv(x) == S.val(x), denv(x) == 1))]
        if m_num in S.measures:
            fs.append(Implies(P, And(numv(x) == S.M(m_num, s), denv(x) == S.M(m_den, s))))
        return fs

    def frac(x):
        return And(numv(x) == S.val(x) * denv(x), denv(x) != 0)

    def frac_hints(S, eng, mod, entry, idx):
        out = []
        for n, (il, s, _, i0, end) in enumerate(idx):
            if s.sort() != S.SeqA:
                continue
            out.append(('frac:%d' % n, lambda L, il=il, s=s: And(S.MP(m_num, s, L[il]) == S.MP(S.m_prod, s, L[il]) * S.MP(m_den, s, L[il]), S.MP(m_den, s, L[il]) != 0)))
            for loc in mod:
                v0 = eng.get_path(entry[loc[0]], loc[1])
                if E.is_z(v0) and v0.sort() == S.Atom:
                    x0 = S.val(v0)
                    for m in (m_num, m_den):
                        out.append(('%s:%s:%d' % (m.name, loc, n), lambda L, m=m, loc=loc, il=il, s=s, x0=x0: S.val(L[loc]) == x0 * S.MP(m, s, L[il])))
        return out
    for nm, g in (('Expr::numerator', numv), ('Expr::denominator', denv)):
        def post(e, g=g):
            x = e.A(0)
            S.memo('fracdef', (x,), lambda: frac_def(x))
            return And(S.df(e.R), S.val(e.R) == g(x), frac(x))
        C(nm, cl('value', lambda e: df(e, 0), post), hints=frac_hints, measures=(m_num, m_den))

    def asdiv(e):
        some, t = ret_opt(e)
        if not some:
            return TRUE
        n, d = e.eng.zany(t.fields[0]), e.eng.zany(t.fields[1])
        return And(S.df(n), S.df(d), S.val(d) != 0, S.val(n) == v(e, 0) * S.val(d))
    C('Expr::try_as_div', cl('value', lambda e: df(e, 0), asdiv))
    keeps('Expr::rationalize')
    val1('Expr::rationalize_add', lambda e: v(e, 0) + v(e, 1))

    # ---------------------------------------------------------------- factoring
    S.free = fr = Free(S)

    def frpre(e):
        S.eng.assume(Implies(S.eqv(e.A(0), fr.x), Not(fr.F(e.A(0)))))
        return e.A(1) == fr.x

    def free_hints(S, eng, mod, entry, idx):
        out = []
        for loc, v0 in accs(eng, mod, entry, S.SeqA):
            cur = lambda L, loc=loc: S.M(fr.m, eng.zany(L[loc]))
            out.append(('free:%s' % (loc,), lambda L, cur=cur: cur(L) == fr.F(eng.curenv.A(0))))
            for n, (il, s, _, i0, end) in enumerate(idx):
                if s.sort() == S.SeqA:
                    out.append(('free:%s:%d' % (loc, n), lambda L, cur=cur, v0=v0, s=s, il=il: cur(L) == And(S.M(fr.m, v0), S.MP(fr.m, s, L[il]))))
        return out
    C('Expr::free_of', cl('value', frpre, lambda e: e.R == fr.F(e.A(0))), hints=free_hints, interp=(fr,), measures=(fr.m,), angle_sums=False)

    def common(e):
        f, l, r = e.T(0), e.T(1, 0), e.T(1, 1)
        return And(S.df(f), S.df(l), S.df(r), S.val(f) * S.val(l) == v(e, 0), S.val(f) * S.val(r) == v(e, 1))
    C('Expr::factorize_common_terms', cl('value', lambda e: df(e, 0, 1), common))
    keeps('Expr::factor_out')
    keeps('Expr::cancel')
    C('Expr::separate_factors', cl('value', lambda e: df(e, 0), lambda e: And(S.df(e.T(0)), S.df(e.T(1)), S.val(e.T(0)) * S.val(e.T(1)) == v(e, 0))))

    # ---------------------------------------------------------------- expansion
    def ranges(eng, mod, entry):
        """(location of the counter, first, one past the last) of the counting loops"""
        for loc in mod:
            if loc[1] and loc[1][-1][0] == 'it' and loc[1][-1][1] == 'i':
                it = eng.get_path(entry[loc[0]], loc[1][:-1])
                if it.kind == 'range':
                    yield loc, it.i, it.end
        for loc, v0, ends in S.counters(eng, mod, entry):
            for b in ends:
                yield loc, v0, z3.simplify(b + 1)

    def cell_atoms(eng, mod, entry):
        out = []
        for c in sorted(entry):
            x = entry[c]
            if E.is_z(x) and x.sort() == S.Atom and not any(l[0] == c for l in mod):
                if not any(x.eq(y) for y in out) and not (x.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and x.decl().name() == 'Atom.Rational'):
                    out.append(x)
        return out

    def accs(eng, mod, entry, sort):
        for loc in mod:
            v0 = eng.get_path(entry[loc[0]], loc[1])
            so = v0.sort() if E.is_z(v0) else (S.seqsort_of(v0, eng) if isinstance(v0, E.Lst) else None)
            if so == sort:
                yield loc, eng.zany(v0)

    def scaled_hints(S, eng, mod, entry, idx):
        """a sum built from the terms of another one, each multiplied with fixed expressions"""
        out = []
        at = cell_atoms(eng, mod, entry) + [o for o in eng.curenv.old if E.is_z(o) and o.sort() == S.Atom]
        fs = []
        for i, a in enumerate(at):
            fs.append(('%d' % i, S.val(a)))
            fs += [('%d*%d' % (i, i + 1 + j), S.val(a) * S.val(b)) for j, b in enumerate(at[i + 1:])]
        for loc, v0 in accs(eng, mod, entry, S.SeqA):
            for n, (il, s, _, i0, end) in enumerate(idx):
                if s.sort() == S.SeqA:
                    for k, x in fs:
                        out.append(('scaled:%s:%d:%s' % (loc, n, k), lambda L, loc=loc, s=s, il=il, x=x, v0=v0:
                                    S.M(S.m_sum, eng.zany(L[loc])) == S.M(S.m_sum, v0) + x * S.MP(S.m_sum, s, L[il])))
        # the factors before and after position k collected in two products
        ks = [x for c, x in sorted(entry.items()) if E.is_z(x) and x.sort() == z3.IntSort() and not any(l[0] == c for l in mod) and not z3.is_int_value(x)]
        aa = list(accs(eng, mod, entry, S.SeqA))
        for n, (il, s, _, i0, end) in enumerate(idx):
            for i, (a, _) in enumerate(aa):
                for j, (b, _) in enumerate(aa):
                    for m, k in enumerate(ks):
                        if i == j or s.sort() != S.SeqA:
                            continue

                        def fs(L, a=a, b=b, s=s, il=il, k=k):
                            pa, pb, pre = S.M(S.m_prod, eng.zany(L[a])), S.M(S.m_prod, eng.zany(L[b])), S.MP(S.m_prod, s, L[il])
                            return [Implies(L[il] <= k, pa == pre), Implies(L[il] <= k, pb == 1), Implies(L[il] > k, pa * S.val(S.NTH(s, k)) * pb == pre)]
                        for t in range(3):
                            out.append(('around:%d:%d:%d:%d:%d' % (n, i, j, m, t), lambda L, fs=fs, t=t: fs(L)[t]))
        return out
    keep_mul = lambda e: v(e, 0) * v(e, 1)
    val1('Prod::expand_mul', keep_mul, hints=scaled_hints)
    for nm in ('Prod::distribute', 'Prod::distribute_first'):
        C(nm, cl('value', lambda e: MD(e.A(0)), lambda e: And(S.df(e.R), S.val(e.R) == S.M(S.m_prod, e.A(0)))), hints=scaled_hints)

    binom = S.fun('binom', z3.IntSort(), z3.IntSort(), z3.IntSort())
    bpart = S.fun('bpart', z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
    I2R = z3.ToReal
    reg.ext(Contract('num_integer::binomial', [cl('value', None, lambda e: e.R == binom(e.A(0), e.A(1)))], trusted='binomial coefficient of the num crate'))
    C('binomial_coeff', cl('value', None, lambda e: e.R == binom(e.A(0), e.A(1))))

    def bpart_facts(a, b, n, k):
        """definition of bpart(a, b, n, k) = sum of binom(n, j) a^j b^(n-j) over 1 <= j < k, and the binomial theorem"""
        return [bpart(a, b, n, 1) == 0,
                Implies(k >= 1, bpart(a, b, n, k + 1) == bpart(a, b, n, k) + I2R(binom(n, k)) * S.pw(a, I2R(k)) * S.pw(b, I2R(n) - I2R(k))),
                Implies(n >= 1, S.pw(a + b, I2R(n)) == S.pw(a, I2R(n)) + bpart(a, b, n, n) + S.pw(b, I2R(n)))]

    def proved_once(eng, goal):
        known = eng.__dict__.setdefault('known_goals', {})
        k = goal.get_id()
        if k not in known:
            known[k] = (goal, eng.prove(goal, 500)[0] == 'proved')
        return known[k][1]

    def binom_hints(S, eng, mod, entry, idx):
        out = []
        at = cell_atoms(eng, mod, entry)
        for ri, (rl, i0, end) in enumerate(ranges(eng, mod, entry)):
            n = z3.simplify(end - 1)
            if not proved_once(eng, I2R(n) == S.val(pow_parts(eng.curenv.A(0))[1])):
                continue
            for loc, v0 in accs(eng, mod, entry, S.SeqA):
                for i, a in enumerate(at):
                    for j, b in enumerate(at):
                        if i == j or not proved_once(eng, S.val(a) + S.val(b) == S.val(pow_parts(eng.curenv.A(0))[0])):
                            continue

                        def fs(L, a=a, b=b, rl=rl, loc=loc, n=n):
                            k = L[rl]
                            va, vb = S.val(a), S.val(b)
                            S.memo('bpart', (va, vb, n, k), lambda: bpart_facts(va, vb, n, k))
                            m = S.M(S.m_sum, eng.zany(L[loc]))
                            return [Implies(k == 0, m == 0), Implies(And(k >= 1, k <= n), m == S.pw(va, I2R(n)) + bpart(va, vb, n, k)),
                                    Implies(k == n + 1, m == S.pw(va, I2R(n)) + bpart(va, vb, n, n) + S.pw(vb, I2R(n)))]
                        for t in range(3):
                            out.append(('binom:%s:%d:%d:%d:%d' % (loc, i, j, t, ri), lambda L, fs=fs, t=t: fs(L)[t]))
        # each factor raised to the power in place
        b, x = pow_parts(eng.curenv.A(0))
        ve = S.val(x)
        for n, (il, s, mref, i0, end) in enumerate(idx):
            if mref is None or s.sort() != S.SeqA:
                continue
            for loc in mod:
                if mref.cell != loc[0] or tuple(mref.path[:len(loc[1])]) != tuple(loc[1]):
                    continue
                rest = mref.path[len(loc[1]):]

                def cur(L, loc=loc, rest=rest):
                    return eng.zany(eng.get_path(L[loc], rest)) if rest else eng.zany(L[loc])
                out.append(('powpre:%s:%d' % (loc, n), lambda L, s=s, il=il, cur=cur: S.MP(S.m_prod, cur(L), L[il]) == S.pw(S.MP(S.m_prod, s, L[il]), ve)))
                out.append(('powdef:%s:%d' % (loc, n), lambda L, s=s, il=il, cur=cur: S.MP(S.m_def, cur(L), L[il])))
                out.append(('nonneg:%s:%d' % (loc, n), lambda L, s=s, il=il, cur=cur: Implies(S.MP(m_nn, s, L[il]), S.MP(S.m_prod, s, L[il]) >= 0)))
        return out
    m_nn = Measure('allnn', '&', lambda t: S.val(t) >= 0, link=lambda a, M: Implies(a, M(S.m_prod) >= 0))

    def pos_factors(e):
        """domain: where an exponent that is not a number stands on a product, the factors are not negative"""
        b, x = pow_parts(e.A(0))
        s = S.args(b, 'Prod')
        S.touch_seq(s)
        return Implies(And(S.is_(b, 'Prod'), Not(S.is_(x, 'Rational')), Not(S.is_(x, 'Irrational'))), S.M(m_nn, s))
    C('Pow::expand_pow_rec', cl('value', powpre2, lambda e: And(S.df(e.R), S.val(e.R) == powval(e))), hints=binom_hints, assumes=pos_factors, measures=(m_nn,))
    C('Pow::expand', cl('value', powpre2, lambda e: And(S.df(e.R), S.val(e.R) == powval(e))))
    for nm in ('Expr::expand', 'Expr::expand_main_op', 'Expr::distribute'):
        keeps(nm)

    # ---------------------------------------------------------------- exponentials and logarithms
    def exp_hints(S, eng, mod, entry, idx):
        out = []
        for loc, v0 in accs(eng, mod, entry, S.SeqA):
            for n, (il, s, _, i0, end) in enumerate(idx):
                if s.sort() == S.SeqA:
                    out.append(('exp:%s:%d' % (loc, n), lambda L, loc=loc, s=s, il=il, v0=v0:
                                S.M(S.m_prod, eng.zany(L[loc])) == S.M(S.m_prod, v0) * S.pw(S.E_const, S.MP(S.m_sum, s, L[il]))))
        return out
    val1('expand_exponential_arg', lambda e: S.pw(S.E_const, v(e, 0)), hints=exp_hints)
    keeps('Expr::expand_exponential')
    def main_op(x):
        y = S.fun('f:Expr::expand_main_op', S.Atom, S.Atom)(x)
        S.mention(y)
        return y

    def ln_domain(e):
        """domain: the factors and the base of the power the argument of the logarithm consists of are positive"""
        y = main_op(e.A(0))
        s = S.args(y, 'Prod')
        S.touch_seq(s)
        b, x = S.base_of(y)
        return And(Implies(S.is_(y, 'Prod'), S.M(m_pos, s)), Implies(S.is_(y, 'Pow'), S.val(b) > 0))
    C('expand_ln_arg', cl('value', lambda e: And(df(e, 0), v(e, 0) > 0), lambda e: And(S.df(e.R), S.val(e.R) == S.ln(v(e, 0)))), assumes=ln_domain, measures=(m_pos,))
    keeps('Expr::expand_ln')

    # ---------------------------------------------------------------- trigonometry
    keeps('Expr::substitute_trig')
    keeps('Expr::expand_trig')
    def is_cos_typ(t):
        so = t.sort()
        return so.recognizer([so.constructor(i).name().split('.')[-1] for i in range(so.num_constructors())].index('Cos'))(t)
    gtrig = {k: S.fun('g' + k, z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.IntSort(), z3.RealSort()) for k in ('cos', 'sin')}

    def gtrig_facts(k, c, s, x, n, i):
        """definition of the partial sums of de Moivre's formula, and the formula itself"""
        g = gtrig[k]
        b = I2R(binom(n, i)) * S.pw(c, I2R(n) - I2R(i)) * S.pw(s, I2R(i))
        b = If(i == 0, S.pw(c, I2R(n)), If(i == n, S.pw(s, I2R(n)), b))
        o = 0 if k == 'cos' else 1
        return [g(c, s, n, 0) == 0,
                Implies(And(i >= 0, i <= n), g(c, s, n, i + 1) == g(c, s, n, i) + If(i % 4 == o, b, If(i % 4 == o + 2, -b, 0))),
                Implies(n >= 1, g(c, s, n, n + 1) == (S.cos if k == 'cos' else S.sin)(I2R(n) * x))]

    def moivre_hints(S, eng, mod, entry, idx):
        out = []
        phi = S.val(eng.curenv.A(1))
        n = eng.curenv.A(0)
        typ = eng.curenv.A(2)
        at = cell_atoms(eng, mod, entry)
        sc = [(a, b) for a in at for b in at if a is not b and proved_once(eng, And(S.val(a) == S.cos(phi), S.val(b) == S.sin(phi)))]
        is_cos = is_cos_typ(typ)
        seen = []
        for rl, i0, end in ranges(eng, mod, entry):
            if rl in seen:
                continue
            seen.append(rl)
            for loc in mod:
                v0 = eng.get_path(entry[loc[0]], loc[1])
                if E.is_z(v0) and v0.sort() == z3.BoolSort():
                    for k, o in (('cos', 1), ('sin', 2)):
                        out.append(('flip:%s:%s' % (loc, k), lambda L, loc=loc, o=o, k=k, rl=rl: Implies(is_cos == (k == 'cos'), L[loc] == Or(L[rl] % 4 == o, L[rl] % 4 == o + 1))))
            for loc, v0 in accs(eng, mod, entry, S.SeqA):
                for j, (a, b) in enumerate(sc):
                    for k in ('cos', 'sin'):
                        def f(L, a=a, b=b, rl=rl, loc=loc, k=k):
                            i = L[rl]
                            va, vb = S.val(a), S.val(b)
                            for x in gtrig_facts(k, va, vb, phi, n, i):
                                eng.assume(x)
                            return Implies(is_cos == (k == 'cos'), S.M(S.m_sum, eng.zany(L[loc])) == gtrig[k](va, vb, n, i))
                        out.append(('moivre:%s:%d:%s' % (loc, j, k), f))
        return out
    nphi = lambda e: I2R(e.A(0)) * v(e, 1)
    pre_n = lambda e: And(df(e, 1), e.A(0) >= 1)
    C('_expand_sin_cos_n_times_phi', cl('value', pre_n, lambda e: And(S.df(e.R), S.val(e.R) == If(is_cos_typ(e.A(2)), S.cos(nphi(e)), S.sin(nphi(e))))), hints=moivre_hints)
    C('expand_sin_n_times_phi', cl('value', pre_n, lambda e: And(S.df(e.R), S.val(e.R) == S.sin(nphi(e)))))
    C('expand_cos_n_times_phi', cl('value', pre_n, lambda e: And(S.df(e.R), S.val(e.R) == S.cos(nphi(e)))))

    def nz_first(e):
        """domain: a product does not start with the literal 0 (the constructors build none that does)"""
        y = main_op(e.A(0))
        s = S.args(y, 'Prod')
        S.touch_seq(s)
        x = S.nth(s, 0)
        return Implies(S.is_(y, 'Prod'), Not(And(S.is_(x, 'Rational'), S.val(x) == 0)))
    C('expand_trig_arg', cl('value', lambda e: df(e, 0), lambda e: And(S.df(e.T(0)), S.df(e.T(1)), S.val(e.T(0)) == S.sin(v(e, 0)), S.val(e.T(1)) == S.cos(v(e, 0)))), assumes=nz_first)

    # power reduction: sums of sines or cosines of (n - 2 j) x
    ipow = S.fun('ipow', z3.IntSort(), z3.IntSort(), z3.IntSort())
    gred = {k: S.fun('gred' + k, z3.RealSort(), z3.IntSort(), z3.IntSort(), z3.RealSort()) for k in ('sin1', 'cos1', 'cos0')}

    def gred_facts(k, x, n, j):
        """definition of the partial sums of the power reduction formulas (k: function and whether the signs alternate), and the formulas"""
        g = gred[k]
        f = S.sin if k[:3] == 'sin' else S.cos
        t = I2R(binom(n, j)) * f((I2R(n) - 2 * I2R(j)) * x)
        out = [g(x, n, 0) == 0] if z3.is_int_value(j) else []
        if z3.is_int_value(j) or j.num_args() == 0:
            out.append(Implies(j >= 0, g(x, n, j + 1) == g(x, n, j) + (If(j % 2 == 0, t, -t) if k[3] == '1' else t)))
        if z3.is_int_value(j):
            return out
        h = n / 2
        p, q = I2R(ipow(2, n)), I2R(ipow(2, n - 1))
        mid = I2R(binom(n, h))
        out += [Implies(n >= 1, And(p == 2 * q, q >= 1))]
        sg = lambda m, w: If(m % 2 == 0, w, -w)
        ev, od = And(n >= 2, n % 2 == 0), And(n >= 1, n % 2 == 1)
        if k == 'cos1':
            out.append(Implies(ev, S.pw(S.sin(x), I2R(n)) * p == mid + 2 * sg(h, g(x, n, h))))
        elif k == 'sin1':
            out.append(Implies(od, S.pw(S.sin(x), I2R(n)) * q == sg((n - 1) / 2, g(x, n, h + 1))))
        else:
            out.append(Implies(ev, S.pw(S.cos(x), I2R(n)) * p == mid + 2 * g(x, n, h)))
            out.append(Implies(od, S.pw(S.cos(x), I2R(n)) * q == g(x, n, h + 1)))
        return out

    def gred_hints(S, eng, mod, entry, idx):
        out = []
        p = eng.curenv.A(0)
        bes = [S.base_of(p), (S.baseof(p), S.expof(p))]
        ns = []
        for c in sorted(entry):
            n = entry[c]
            if E.is_z(n) and n.sort() == z3.IntSort() and not any(l[0] == c for l in mod) and not any(n.eq(m) for m in ns) and any(proved_once(eng, I2R(n) == S.val(x)) for _, x in bes):
                ns.append(n)
        seen = []
        for rl, i0, end in ranges(eng, mod, entry):
            if rl in seen:
                continue
            seen.append(rl)
            for loc in mod:
                v0 = eng.get_path(entry[loc[0]], loc[1])
                if not (E.is_z(v0) and v0.sort() == S.Atom):
                    continue
                out.append(('def:%s' % (loc,), lambda L, loc=loc: S.df(L[loc])))
                for i, n in enumerate(ns[:2]):
                    for j, y in enumerate(cell_atoms(eng, mod, entry)):
                        for k in gred:
                            if not any(proved_once(eng, S.val(b) == (S.cos if k == 'cos0' else S.sin)(S.val(y))) for b, _ in bes):
                                continue

                            def f(L, k=k, n=n, y=y, loc=loc, rl=rl):
                                for w in gred_facts(k, S.val(y), n, L[rl]):
                                    eng.assume(w)
                                return S.val(L[loc]) == gred[k](S.val(y), n, L[rl])
                            out.append(('gred:%s:%d:%d:%s' % (loc, i, j, k), f))
        return out
    keeps('contract_trig_pow', hints=gred_hints, angle_sums=False)
    keeps('contract_trig_arg')
    keeps('Expr::contract_trig')
    keeps('Expr::simplify_trig')
    C('is_pos_sin_cos_int_pow', cl('none', None, lambda e: z3.BoolVal(True)))
    C('contract_trig_prod', cl('value', lambda e: MD(e.A(0)), lambda e: And(S.df(e.R), S.val(e.R) == S.M(S.m_prod, e.A(0)))))
    C('separate_sin_cos', cl('value', lambda e: df(e, 0), lambda e: And(S.df(e.T(0)), S.df(e.T(1)), S.val(e.T(0)) * S.val(e.T(1)) == v(e, 0))))

    # ---------------------------------------------------------------- derivatives
    m_D, m_sd = S.deriv.m_D, S.deriv.m_sd
    D, sd = S.deriv.D, S.deriv.sd

    def dvar(e):
        """the second argument is the variable the derivative is taken in"""
        return And(S.is_(e.A(1), 'Var'), S.args(e.A(1), 'Var') == S.deriv.var)

    def deriv_hints(S, eng, mod, entry, idx):
        out = []
        for loc, v0 in accs(eng, mod, entry, S.SeqA):
            for n, (il, s, _, i0, end) in enumerate(idx):
                if s.sort() == S.SeqA:
                    out.append(('deriv:%s:%d' % (loc, n), lambda L, loc=loc, s=s, il=il, v0=v0: S.M(S.m_sum, eng.zany(L[loc])) == S.M(S.m_sum, v0) + S.MP(m_D, s, L[il])))
        return out
    C('Expr::derivative', cl('value', lambda e: And(dvar(e), sd(e.A(0))), lambda e: And(S.df(e.R), S.val(e.R) == D(e.A(0)))),
      cl('const', lambda e: And(dvar(e), S.is_(e.A(0), 'Rational')), lambda e: lit0(e.R)), hints=deriv_hints, measures=(m_D, m_sd), interp=(S.deriv,), angle_sums=False)
    C('Func::derivative', cl('value', lambda e: And(dvar(e), S.deriv.sdf(e.A(0))), lambda e: And(S.df(e.R), S.val(e.R) == S.deriv.Df(e.A(0)))), interp=(S.deriv,), angle_sums=False)

    # ---------------------------------------------------------------- substitution
    sb = S.subst

    def pairs(x, out):
        # the replacement pairs inside an argument: from and to
        fs = x.fields if isinstance(x, E.Agg) else x.up if isinstance(x, E.Clo) else x.e if isinstance(x, E.Lst) else None
        if fs is not None:
            for f in fs:
                pairs(f, out)
        elif isinstance(x, z3.ExprRef) and x.sort() == S.Atom:
            out.append(x)
        elif isinstance(x, z3.ExprRef) and x.sort().name() in prog.dt:
            v = prog.dt[x.sort().name()]['variants']
            if len(v) != 1:
                raise Unsupported('replacement pairs')
            for i in sorted(v[0]['acc']):
                pairs(z3.simplify(v[0]['acc'][i](x)), out)
        else:
            raise Unsupported('replacement pairs %r' % (x,))
        return out

    def sbpre(ix, o):
        def pre(e):
            ps = []
            for k in ix:
                pairs(e.old[k], ps)
            if len(ps) != 2 * len(o.pairs):
                raise NA()
            o.at(e.A(0))
            return And([ps[2 * i] == a for i, (a, b) in enumerate(o.pairs)] + [ps[2 * i + 1] == b for i, (a, b) in enumerate(o.pairs)] + [o.W(e.A(0))])
        return pre
    sb, sc, sp = S.subst
    kw = lambda *os: dict(interp={n: ((o,), o.ms) for n, o in os}, angle_sums=False, terms=(0,))

    def subst1(a, b, t):
        return S.fun('subst1', S.Atom, S.Atom, S.Atom, S.Atom)(a, b, t)

    def subst_term(eng, old):
        ps = pairs(old[1], [])
        return subst1(ps[0], ps[1], eng.zany(old[0])) if len(ps) == 2 else None
    clauses = [('value', sb), ('value second', sc), ('value both', sp)]
    C('Expr::try_for_each_compl_sub_expr', *[cl(n, sbpre([1], o), lambda e, o=o: And(S.df(e.N(0)), S.val(e.N(0)) == o.V(e.A(0)))) for n, o in clauses], newterm=subst_term, **kw(*clauses))
    C('Expr::concurr_substitude', *[cl(n, sbpre([1], o), lambda e, o=o: And(S.df(e.R), S.val(e.R) == o.V(e.A(0)))) for n, o in clauses], **kw(*clauses))
    C('Expr::substitude', cl('value', sbpre([1, 2], sb), lambda e: And(S.df(e.R), S.val(e.R) == sb.V(e.A(0)))), **kw(('value', sb)))

    def seqpre(e):
        # the second replacement is made in the result of the first one
        ps = pairs(e.old[1], [])
        if len(ps) != 4:
            raise NA()
        mid = subst1(ps[0], ps[1], e.A(0))
        sb.at(e.A(0))
        sc.at(mid)
        return And(ps[0] == sb.pairs[0][0], ps[1] == sb.pairs[0][1], ps[2] == sc.pairs[0][0], ps[3] == sc.pairs[0][1], sb.W(e.A(0)), sc.W(mid))
    C('Expr::seq_substitude', cl('value', seqpre, lambda e: And(S.df(e.R), S.val(e.R) == sc.V(subst1(sb.pairs[0][0], sb.pairs[0][1], e.A(0))))), **kw(('value', sc)))
    # every alternative has one and the same value X
    X = z3.Real('simplified_value')
    m_same = Measure('samevalue', '&', lambda t: And(S.df(t), S.val(t) == X))

    def same_hints(S, eng, mod, entry, idx):
        out = []
        for loc in mod:
            v0 = eng.get_path(entry[loc[0]], loc[1])
            if isinstance(v0, E.Lst) and v0.ety is not None and not eng.table(v0) and S.p.key(v0.ety) == 'Atom' or E.is_z(v0) and v0.sort() == S.SeqA:
                out.append(('same:%d%s' % (loc[0], loc[1] or ''), lambda L, loc=loc: S.M(m_same, eng.zany(L[loc]))))
        return out
    C('Expr::simplify', cl('value', lambda e: And(df(e, 0), v(e, 0) == X), lambda e: S.M(m_same, e.R)), measures=[m_same], hints=same_hints)
    poly_contracts(reg, S, S.p, C, cl, df, v)
    return reg


def poly_contracts(reg, S, p, C, cl, df, v):
    import sem as SM
    """polynomials: a VarPow is the product of its powers, a GPE the sum of coefficient times variable powers"""
    VP, GP = 'Seq<(Atom,Int)>', 'Seq<(Atom,Seq<(Atom,Int)>)>'
    MP_ = 'Seq<(Seq<(Atom,Int)>,Atom)>'
    try:
        VarPow, GPE = (p.find_type('calcu_rs::polynomial::' + n) for n in ('VarPow', 'GPE'))
        if p.key(VarPow) != VP or p.key(GPE) != GP:
            return
        p.sort(VarPow), p.sort(GPE)
        p.sort(S.ety(VP)), p.sort(S.ety(GP))
    except Unsupported:
        return
    def acc(t, i):
        x = p.dtinfo(t.sort())['variants'][0]
        return t.arg(i) if z3.is_app(t) and t.decl().eq(x['ctor']) else x['acc'][i](t)

    def R(x):
        """an integer as a real; it is whole"""
        if z3.is_int_value(x):
            return z3.RealVal(x.as_long())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
            xs = [R(y) for y in x.children()]
            r = xs[0]
            for y in xs[1:]:
                r = r + y if x.decl().kind() == z3.Z3_OP_ADD else r * y
            return r
        r = z3.ToReal(x)
        if S.eng is not None:
            S.eng.assume(S.isZ(r))
        return r
    m_vp = Measure('vpval', '*', lambda t: S.pw(S.val(acc(t, 0)), R(acc(t, 1))), sort=VP)
    m_vpd = Measure('vpdef', '&', lambda t: And(S.df(acc(t, 0)), acc(t, 1) >= 1, S.isZ(R(acc(t, 1)))), sort=VP)
    m_deg = Measure('vpdeg', '+', lambda t: R(acc(t, 1)), sort=VP)
    def vp(t):
        S.touch_seq(t)
        return S.M(m_vp, t)
    def vpd(t):
        S.touch_seq(t)
        return S.M(m_vpd, t)
    m_gp = Measure('gpval', '+', lambda t: S.val(acc(t, 0)) * vp(acc(t, 1)), sort=GP)
    m_gpd = Measure('gpdef', '&', lambda t: And(S.df(acc(t, 0)), vpd(acc(t, 1))), sort=GP)
    m_mp = Measure('mapval', '+', lambda t: S.val(acc(t, 1)) * vp(acc(t, 0)), sort=MP_)
    m_mpd = Measure('mapdef', '&', lambda t: And(S.df(acc(t, 1)), vpd(acc(t, 0))), sort=MP_)
    ms = (m_vp, m_vpd, m_deg, m_gp, m_gpd, m_mp, m_mpd)
    for m in ms:
        m.eqv = True
    seqm = {VP: (m_vp, m_vpd), GP: (m_gp, m_gpd), MP_: (m_mp, m_mpd)}
    dg = Degree(S)
    deg = lambda t: (S.touch_seq(t), S.M(m_deg, t))[1]
    m_kle = Measure('keysle', '&', lambda t: deg(acc(t, 0)) <= dg.N, sort=MP_)
    m_kge = Measure('keysge', '|', lambda t: deg(acc(t, 0)) >= dg.N, sort=MP_)
    m_kle.eqv = m_kge.eqv = True
    dms = (m_deg, m_kle, m_kge, dg.m, dg.m_le, dg.m_ge)

    def hints(S, eng, mod, entry, idx):
        """what has been folded so far"""
        out = []
        locs = []
        for loc in mod:
            v0 = eng.get_path(entry[loc[0]], loc[1])
            if E.is_z(v0):
                so = v0.sort()
            elif isinstance(v0, E.Lst):
                so = S.seqsort_of(v0, eng)
                v0 = eng.zany(v0)
            else:
                continue
            nm = so.name()
            if nm in seqm:
                f, d = seqm[nm]
                locs.append((loc, lambda x, f=f: S.M(f, eng.zany(x)), lambda x, d=d: S.M(d, eng.zany(x)), v0, True))
            elif so == S.Atom:
                locs.append((loc, S.val, S.df, v0, False))
            elif so == z3.IntSort() and not any(loc == x[0] for x in idx):
                locs.append((loc, R, None, v0, False))
        for loc, f, d, v0, seq in locs:
            n = SM.locname(loc)
            if d is not None:
                out.append(('pdef:%s' % n, lambda L, loc=loc, d=d: d(L[loc])))
            for k, (il, s, mref, i0, end) in enumerate(idx):
                for m in S.ms(s):
                    if m.op in '&|':
                        continue
                    out.append(('pfold%s:%s:%d' % (m.name, n, k), lambda L, loc=loc, f=f, m=m, s=s, il=il, v0=v0: f(L[loc]) == m.comb(f(v0), S.MP(m, s, L[il]))))
        for x in locs:
            for y in locs:
                if x[4] or not y[4]:
                    continue
                for k, (il, s, mref, i0, end) in enumerate(idx):
                    if s.sort() != S.SeqA:
                        continue
                    # coefficient and variables together
                    out.append(('pmono:%s:%s:%d' % (SM.locname(x[0]), SM.locname(y[0]), k), lambda L, x=x, y=y, s=s, il=il: x[1](L[x[0]]) * y[1](L[y[0]]) == x[1](x[3]) * y[1](y[3]) * S.MP(S.m_prod, s, L[il])))
        return out

    def inplace(S, eng, s0, cur, il, nm):
        """every power raised to the same exponent"""
        if s0.sort().name() != VP:
            return []
        out = []
        for k, e in enumerate(eng.curenv.old):
            if E.is_z(e) and e.sort() == z3.IntSort():
                out.append(('ppow:%s:%d' % (nm, k), lambda L, e=e: Implies(S.MP(m_vpd, s0, L[il]), And(S.MP(m_vpd, cur(L), L[il]), S.MP(m_vp, cur(L), L[il]) == S.pw(S.MP(m_vp, s0, L[il]), R(e))))))
        return out
    hints.inplace = inplace

    def dhints(S, eng, mod, entry, idx):
        """the degree of what has been folded so far"""
        out = []
        if sg in S.interp:
            for k, (il, s, mref, i0, end) in enumerate(idx):
                if s.sort().name() == VP:
                    out.append(('first:%d' % k, lambda L, il=il: L[il] == 0))
                elif s.sort().name() == MP_:
                    out.append(('dnone:%d' % k, lambda L, s=s, il=il: Not(S.MP(m_kge, s, L[il]))))
        for loc in mod:
            v0 = eng.get_path(entry[loc[0]], loc[1])
            if E.is_z(v0):
                so = v0.sort()
            elif isinstance(v0, E.Lst):
                so = S.seqsort_of(v0, eng)
                v0 = eng.zany(v0)
            else:
                continue
            n = SM.locname(loc)
            for k, (il, s, mref, i0, end) in enumerate(idx):
                if so.name() == VP:
                    for m in S.ms(s):
                        if m.op == '+':
                            out.append(('dfold%s:%s:%d' % (m.name, n, k), lambda L, loc=loc, m=m, s=s, il=il, v0=v0: deg(eng.zany(L[loc])) == deg(v0) + S.MP(m, s, L[il])))
                elif so.name() == MP_ and s.sort() == S.SeqA:
                    out.append(('dle:%s:%d' % (n, k), lambda L, loc=loc, s=s, il=il: Implies(S.MP(dg.m_le, s, L[il]), S.M(m_kle, eng.zany(L[loc])))))
                    out.append(('dge:%s:%d' % (n, k), lambda L, loc=loc, s=s, il=il: Implies(S.MP(dg.m_ge, s, L[il]), S.M(m_kge, eng.zany(L[loc])))))
                    out.append(('dlen:%s:%d' % (n, k), lambda L, loc=loc, s=s, il=il: (S.LEN(eng.zany(L[loc])) == 0) == (L[il] == 0)))
                elif so == z3.IntSort() and not any(loc == x[0] for x in idx):
                    for m in S.ms(s):
                        if m.op == '+':
                            out.append(('dsum%s:%s:%d' % (m.name, n, k), lambda L, loc=loc, m=m, s=s, il=il, v0=v0: R(L[loc]) == R(v0) + S.MP(m, s, L[il])))
                    if s.sort().name() == MP_:
                        out.append(('dmax<=:%s:%d' % (n, k), lambda L, loc=loc, s=s, il=il: Implies(S.MP(m_kle, s, L[il]), R(L[loc]) <= dg.N)))
                        out.append(('dmax>=:%s:%d' % (n, k), lambda L, loc=loc, s=s, il=il: Implies(S.MP(m_kge, s, L[il]), R(L[loc]) >= dg.N)))
        return out

    def dinplace(S, eng, s0, cur, il, nm):
        if s0.sort().name() != VP:
            return []
        return [('dpow:%s:%d' % (nm, k), lambda L, e=e: S.MP(m_deg, cur(L), L[il]) == S.MP(m_deg, s0, L[il]) * R(e)) for k, e in enumerate(eng.curenv.old) if E.is_z(e) and e.sort() == z3.IntSort()]
    dhints.inplace = dinplace
    # a set with a single variable
    sg = Single(S)
    IM = 'Seq<(Int,Atom)>'
    m_only = Measure('only', '&', lambda t: S.eqv(acc(t, 0), sg.v), sort=VP)

    def only(t):
        S.touch_seq(t)
        return And(S.M(m_only, t), S.LEN(t) <= 1)
    m_konly = Measure('keysonly', '&', lambda t: only(acc(t, 0)), sort=MP_)
    m_im = Measure('degval', '+', lambda t: S.val(acc(t, 1)) * S.pw(S.val(sg.v), R(acc(t, 0))), sort=IM)
    m_imd = Measure('degdef', '&', lambda t: And(S.df(acc(t, 1)), acc(t, 0) >= 0), sort=IM)
    # the entry with the largest degree: N bounds the degrees and is one, C is the coefficient there
    leadN, leadC = z3.Int('pd_lead'), z3.Const('pd_leadc', S.Atom)
    m_dle = Measure('leadle', '&', lambda t: acc(t, 0) <= leadN, sort=IM)
    m_dge = Measure('leadge', '|', lambda t: acc(t, 0) >= leadN, sort=IM)
    m_dc = Measure('leadc', '&', lambda t: Implies(acc(t, 0) == leadN, acc(t, 1) == leadC), sort=IM)
    sms = (m_only, m_konly, m_im, m_imd)
    lms = (m_dle, m_dge, m_dc)
    for m in sms:
        m.eqv = True

    def single(e):
        """the one variable is a name"""
        if sg not in S.interp:
            return False
        S.mention(sg.v)
        S.eng.assume(And(S.is_(sg.v, 'Var'), S.df(sg.v)))
        return True

    def shints(S, eng, mod, entry, idx):
        out = hints(S, eng, mod, entry, idx)
        for k, (il, s, mref, i0, end) in enumerate(idx):
            if s.sort().name() == VP:
                out.append(('first:%d' % k, lambda L, il=il: L[il] == 0))
        for loc in mod:
            v0 = eng.get_path(entry[loc[0]], loc[1])
            if E.is_z(v0):
                so = v0.sort()
            elif isinstance(v0, E.Lst):
                so = S.seqsort_of(v0, eng)
                v0 = eng.zany(v0)
            else:
                continue
            n = SM.locname(loc)
            if so.name() == VP:
                out.append(('only:%s' % n, lambda L, loc=loc: only(eng.zany(L[loc]))))
            elif so.name() == MP_:
                out.append(('konly:%s' % n, lambda L, loc=loc: S.M(m_konly, eng.zany(L[loc]))))
            elif so.name() == IM:
                out.append(('degdef:%s' % n, lambda L, loc=loc: S.M(m_imd, eng.zany(L[loc]))))
                for k, (il, s, mref, i0, end) in enumerate(idx):
                    if s.sort().name() == MP_:
                        out.append(('degnone:%s:%d' % (n, k), lambda L, loc=loc, il=il: Implies(L[il] == 0, S.LEN(eng.zany(L[loc])) == 0)))
                        out.append(('degval:%s:%d' % (n, k), lambda L, loc=loc, s=s, il=il, v0=v0: S.M(m_im, eng.zany(L[loc])) == S.M(m_im, v0) + S.MP(m_mp, s, L[il])))
        return out

    def lhints(S, eng, mod, entry, idx):
        """what is known of the best entry so far"""
        out = []
        for loc in mod:
            v0 = eng.get_path(entry[loc[0]], loc[1])
            for k, (il, s, mref, i0, end) in enumerate(idx):
                if s.sort().name() != IM or any(loc == x[0] for x in idx) or not E.is_z(v0):
                    continue
                if v0.sort() == z3.IntSort():
                    out.append(('lle:%s:%d' % (SM.locname(loc), k), lambda L, loc=loc, s=s, il=il: Implies(S.MP(m_dle, s, L[il]), L[loc] <= leadN)))
                    out.append(('lge:%s:%d' % (SM.locname(loc), k), lambda L, loc=loc, s=s, il=il: Implies(S.MP(m_dge, s, L[il]), L[loc] >= leadN)))
                    for l2 in mod:
                        v2 = eng.get_path(entry[l2[0]], l2[1])
                        if E.is_z(v2) and v2.sort() == S.Atom:
                            out.append(('lc:%s:%d' % (SM.locname(l2), k), lambda L, loc=loc, l2=l2, s=s, il=il: Implies(And(S.MP(m_dc, s, L[il]), L[loc] == leadN), L[l2] == leadC)))
                elif acc_ok(v0):
                    out.append(('lle:%s:%d' % (SM.locname(loc), k), lambda L, loc=loc, s=s, il=il: Implies(S.MP(m_dle, s, L[il]), acc(L[loc], 0) <= leadN)))
                    out.append(('lge:%s:%d' % (SM.locname(loc), k), lambda L, loc=loc, s=s, il=il: Implies(S.MP(m_dge, s, L[il]), acc(L[loc], 0) >= leadN)))
                    out.append(('lc:%s:%d' % (SM.locname(loc), k), lambda L, loc=loc, s=s, il=il: Implies(And(S.MP(m_dc, s, L[il]), acc(L[loc], 0) == leadN), acc(L[loc], 1) == leadC)))
        return out

    def acc_ok(x):
        return x.sort().name() == IM[4:-1] or x.sort().name().startswith('(Int')

    def sinplace(S, eng, s0, cur, il, nm):
        out = inplace(S, eng, s0, cur, il, nm)
        if s0.sort().name() == VP:
            out.append(('ponly:%s' % nm, lambda L: Implies(S.MP(m_only, s0, L[il]), S.MP(m_only, cur(L), L[il]))))
        return out
    kw = dict(measures=ms, hints=hints, angle_sums=False)
    dk = dict(measures=dms, hints=dhints, angle_sums=False, interp=(dg,))

    def C2(name, *clauses):
        """value and degree are shown apart"""
        C(name, *clauses, measures=ms + dms + sms, hints=both, angle_sums=False, interp={'value': ((), ms), 'degree': ((dg,), dms), 'single': ((sg,), ms + sms), 'single degree': ((dg, sg), dms + sms)})

    def both(S, eng, mod, entry, idx):
        return (dhints if dg in S.interp else shints if sg in S.interp else hints)(S, eng, mod, entry, idx)
    both.inplace = lambda S, eng, *a: (dinplace if dg in S.interp else sinplace if sg in S.interp else inplace)(S, eng, *a)
    # membership in a set of variables
    has_x = z3.Const('has_x', S.Atom)       # the one that is looked for
    m_has = Measure('has', '|', lambda t: S.eqv(t, has_x))

    def has_hints(S, eng, mod, entry, idx):
        eng.assume(has_x == eng.zany(eng.curenv.old[1]))
        return [('nothas:%d' % k, lambda L, il=il, s=s: Not(S.MP(m_has, s, L[il]))) for k, (il, s, mref, i0, end) in enumerate(idx) if s.sort() == S.SeqA]

    def has_post(e):
        # contains is defined so; the other functions only know its name
        S.eng.assume(And(has_x == e.A(1), S.contains(e.A(0), e.A(1)) == S.M(m_has, e.A(0))))
        return e.R == S.contains(e.A(0), e.A(1))
    C('VarSet::has', cl('value', None, has_post), hints=has_hints, interp={'value': ((S.eqrel,), (m_has,))}, measures=(m_has,), angle_sums=False)
    C2('VarPow::mul', cl('value', lambda e: And(vpd(e.A(0)), df(e, 1), e.A(2) >= 1), lambda e: And(vpd(e.N(0)), vp(e.N(0)) == vp(e.A(0)) * S.pw(v(e, 1), R(e.A(2))))),
       cl('degree', None, lambda e: deg(e.N(0)) == deg(e.A(0)) + R(e.A(2))),
       cl('single', lambda e: And(only(e.A(0)), S.eqv(e.A(1), sg.v)) if single(e) else z3.BoolVal(False), lambda e: only(e.N(0))))
    C2('VarPow::merge', cl('value', lambda e: And(vpd(e.A(0)), vpd(e.A(1))), lambda e: And(vpd(e.N(0)), vp(e.N(0)) == vp(e.A(0)) * vp(e.A(1)))),
       cl('degree', None, lambda e: deg(e.N(0)) == deg(e.A(0)) + deg(e.A(1))),
       cl('single', lambda e: And(only(e.A(0)), only(e.A(1))) if single(e) else z3.BoolVal(False), lambda e: only(e.N(0))))
    C2('VarPow::pow', cl('value', lambda e: And(vpd(e.A(0)), e.A(1) >= 1), lambda e: And(vpd(e.N(0)), vp(e.N(0)) == S.pw(vp(e.A(0)), R(e.A(1))))),
       cl('degree', None, lambda e: deg(e.N(0)) == deg(e.A(0)) * R(e.A(1))),
       cl('single', lambda e: only(e.A(0)) if single(e) else z3.BoolVal(False), lambda e: only(e.N(0))))

    def of_post(e):
        some, d = ret_opt(e)
        if not some:
            return S.LEN(e.A(0)) == 0
        d = e.eng.zany(e.eng.read(d) if isinstance(d, E.MutRef) else d)
        return Implies(vpd(e.A(0)), And(d >= 1, vp(e.A(0)) == S.pw(S.val(sg.v), R(d))))

    def of_deg(e):
        some, d = ret_opt(e)
        if not some:
            return S.LEN(e.A(0)) == 0
        return R(e.eng.zany(e.eng.read(d) if isinstance(d, E.MutRef) else d)) == deg(e.A(0))
    of_pre = lambda e: And(only(e.A(0)), S.eqv(e.A(1), sg.v)) if single(e) else z3.BoolVal(False)
    C2('VarPow::degree_of', cl('single', of_pre, of_post), cl('single degree', of_pre, of_deg))
    C('VarPow::as_expr', cl('value', lambda e: vpd(e.A(0)), lambda e: And(S.df(e.R), S.val(e.R) == vp(e.A(0)))), **kw)
    C('VarPow::total_deg', cl('value', None, lambda e: R(e.R) == deg(e.A(0))), **dk)
    C('GPE::add', cl('value', lambda e: And(S.M(m_gpd, e.A(0)), df(e, 1), vpd(e.A(2))), lambda e: And(S.M(m_gpd, e.N(0)), S.M(m_gp, e.N(0)) == S.M(m_gp, e.A(0)) + v(e, 1) * vp(e.A(2)))), **kw)
    C('GPE::into_expr', cl('value', lambda e: S.M(m_gpd, e.A(0)), lambda e: And(S.df(e.R), S.val(e.R) == S.M(m_gp, e.A(0)))), **kw)

    def monom(e):
        """the expression a view is of"""
        return acc(e.A(0), 0)

    def dvars(e):
        return acc(e.A(0), 1) == dg.vars

    def coeff_post(e):
        some, t = ret_opt(e)
        if not some:
            return TRUE
        c, d = e.eng.zany(t.fields[0]), e.eng.zany(t.fields[1])
        return And(S.df(c), vpd(d), S.val(c) * vp(d) == S.val(monom(e)))

    def coeff_deg(e):
        some, t = ret_opt(e)
        return deg(e.eng.zany(t.fields[1])) == dg.F(monom(e)) if some else TRUE
    def svars(e):
        return acc(e.A(0), 1) == sg.vars if single(e) else z3.BoolVal(False)

    def coeff_only(e):
        some, t = ret_opt(e)
        return only(e.eng.zany(t.fields[1])) if some else TRUE
    C2('MonomialView::coeff', cl('value', lambda e: S.df(monom(e)), coeff_post), cl('degree', dvars, coeff_deg), cl('single', svars, coeff_only))

    def mono_deg(e):
        some, n = ret_opt(e)
        return R(n) == dg.F(monom(e)) if some else TRUE
    C('MonomialView::degree', cl('degree', dvars, mono_deg), **dk)
    C('MonomialView::check', cl('value', None, lambda e: TRUE), **kw)

    def coeffs_post(e):
        m = e.R
        S.touch_seq(m)
        return Or(S.LEN(m) == 0, And(S.M(m_mpd, m), S.M(m_mp, m) == S.val(monom(e))))

    def terms(e, f, one):
        """f of the terms of the sum, or of the monomial itself"""
        x = monom(e)
        s = S.args(x, 'Sum')
        S.touch_seq(s)
        return If(And(S.is_(x, 'Sum'), Not(S.contains(dg.vars, x))), S.M(f, s), one(dg.F(x)))
    le = lambda e: terms(e, dg.m_le, lambda d: d <= dg.N)
    ge = lambda e: terms(e, dg.m_ge, lambda d: d >= dg.N)

    def coeffs_deg(e):
        m = e.R
        S.touch_seq(m)
        return Or(S.LEN(m) == 0, And(Implies(le(e), S.M(m_kle, m)), Implies(ge(e), S.M(m_kge, m))))
    C2('PolynomialView::coeffs', cl('value', lambda e: S.df(monom(e)), coeffs_post), cl('degree', dvars, coeffs_deg),
       cl('single', svars, lambda e: (S.touch_seq(e.R), S.M(m_konly, e.R))[1]))

    def of_sum(e):
        S.touch_seq(e.R)
        return Or(S.LEN(e.R) == 0, And(S.M(m_imd, e.R), S.M(m_im, e.R) == S.val(monom(e))))
    def lead_post(e):
        some, c = ret_opt(e)
        if not some:
            return TRUE
        a, b = e.A(0), e.A(1)
        ty = p.by_norm['PolynomialView::coeffs_of'][0]['locals'][0]
        s = S.fun('f:PolynomialView::coeffs_of', a.sort(), b.sort(), p.sort(ty))(a, b)
        S.touch_seq(s)
        return Implies(And([S.M(m, s) for m in lms]), e.eng.zany(c) == leadC)
    C('PolynomialView::leading_coeff_of', cl('value', None, lead_post), measures=lms, hints=lhints, angle_sums=False)
    C2('PolynomialView::coeffs_of', cl('single', lambda e: And(svars(e), S.eqv(e.A(1), sg.v), S.df(monom(e))), of_sum))

    def poly_deg(e):
        some, n = ret_opt(e)
        return And(Implies(le(e), R(n) <= dg.N), Implies(ge(e), R(n) >= dg.N)) if some else TRUE
    # the degree in the only variable is the total degree; a constant has none
    C2('PolynomialView::degree_of', cl('single degree', lambda e: And(svars(e), dvars(e), S.eqv(e.A(1), sg.v), dg.N >= 1), poly_deg))
    C('PolynomialView::degree', cl('degree', dvars, poly_deg), **dk)

    def collect_post(e):
        some, t = ret_opt(e)
        if not some:
            return TRUE
        t = e.eng.zany(t)
        return And(S.df(t), S.val(t) == S.val(monom(e)))
    C('PolynomialView::collect_terms', cl('value', lambda e: S.df(monom(e)), collect_post), **kw)


# ------------------------------------------------------------------- signatures
def signature(p, f):
    n = []
    for i in range(f['argc'] + 1):
        t = p.t(f['locals'][i])
        while t['k'] == 'ref' and not t['mut'] and i:
            t = p.t(t['to'])
        n.append(re.sub(r'@[^}]*', '', t['name']))   # closures are named by their place in the source
    return n


SIGFILE = __import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), 'signatures.json')


def check_signatures(reg, p):
    """a contract is only used for a function that still has the arguments it was written for;
    functions whose contract is dropped are inlined at their calls"""
    import json, os
    reg.dropped = {}
    if not os.path.exists(SIGFILE):
        return
    want = json.load(open(SIGFILE))
    for nm in list(reg.c):
        if nm in reg.external or nm not in want:
            continue
        fs = p.by_norm.get(nm)
        if not fs:
            reg.dropped[nm] = 'no such function any more'
            continue
        have = [signature(p, f) for f in fs]
        if any(h not in want[nm] for h in have) and 'Rational' not in nm:
            reg.dropped[nm] = 'signature changed: %s' % have[0]
            del reg.c[nm]


def write_signatures(dump):
    import json
    from prog import Prog
    import sem
    p = Prog(dump)
    reg = build(sem.Sem(p), p)
    out = {}
    for nm in sorted(reg.c):
        if nm in reg.external or nm not in p.by_norm:
            continue
        s = []
        for f in p.by_norm[nm]:
            x = signature(p, f)
            if x not in s:
                s.append(x)
        out[nm] = s
    json.dump(out, open(SIGFILE, 'w'), indent=0, sort_keys=True)


if __name__ == '__main__':
    import sys
    write_signatures(sys.argv[1])
