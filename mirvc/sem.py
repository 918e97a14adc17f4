"""Denotational semantics of calcu_rs expressions over the reals, as ground facts.

val : Expr -> Real, dfn : Expr -> Bool (is the expression defined at the valuation `env`).
Everything in this file that is not a definition is a mathematical law about real numbers; the laws are
theorems of laws/Laws.lean."""
from fractions import Fraction
import z3
from theory import Theory, Measure, R, B, I, subterms
from prog import Unsupported
import engine as E
import ring

And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
TRUE = z3.BoolVal(True)


def rv(n, d=1):
    return z3.RealVal(n) / z3.RealVal(d) if d != 1 else z3.RealVal(n)


ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS)
FUN1 = ('Sin', 'Cos', 'Tan', 'Sec', 'Cot', 'Csc', 'ArcSin', 'ArcCos', 'ArcTan', 'ArcSec', 'ArcCot', 'ArcCsc')


class Sem(Theory):
    def __init__(self, prog):
        super().__init__(prog)
        p = prog
        tid = p.find_type('calcu_rs::atom::Atom')
        self.Atom = p.sort(tid)
        self.atom_ty = tid
        for d in ('Sum', 'Prod', 'Pow', 'Func', 'Real', 'Irrational'):
            p.sort(p.find_type('calcu_rs::atom::' + d))
        self.expr_ty = p.find_type('calcu_rs::atom::Expr')
        self.Func = p._sort['Func']
        self.Real = p._sort['Real']
        self.Irr = p._sort['Irrational']
        self.SeqA = p._sort['Seq<Atom>']
        self.ai = p.dt['Atom']
        self.V = {v['name']: v for v in self.ai['variants']}
        self.Fi = p.dt['Func']
        self.FV = {v['name']: v for v in self.Fi['variants']}
        self.RV = {v['name']: v for v in p.dt['Real']['variants']}
        self.IV = {v['name']: v for v in p.dt['Irrational']['variants']}
        self.PowI = p.dt[p.key(self.V['Pow']['fields'][0])]['variants'][0]
        self._val = self.fun('val', self.Atom, R)
        self._def = self.fun('dfn', self.Atom, B)
        self.fval = self.fun('fval', self.Func, R)
        self.fdef = self.fun('fdef', self.Func, B)
        self._pw = self.fun('pw', R, R, R)
        self._isZ = self.fun('isZ', R, B)
        self.env = self.fun('env', p.Str, R)
        self.m_sum = Measure('sum', '+', self.val)
        self.m_prod = Measure('prod', '*', self.val)
        self.m_def = Measure('alldef', '&', self.df)
        self.m_ratp = Measure('ratp', '*', lambda t: If(self.is_(t, 'Rational'), self.rat(t), rv(1)))
        self.m_nratp = Measure('nratp', '*', lambda t: If(self.is_(t, 'Rational'), rv(1), self.val(t)))
        self.m_allrat = Measure('allrat', '&', lambda t: self.is_(t, 'Rational'))
        self.m_nz = Measure('allnz', '&', lambda t: self.val(t) != 0)
        self.base_measures = [self.m_nz, self.m_sum, self.m_prod, self.m_def, self.m_ratp, self.m_nratp, self.m_allrat]
        self.measures = list(self.base_measures)
        self.unary.append(type(self).on_open)
        self.mention_hooks.append(type(self).on_mention)
        self.lawgens.append(type(self).laws)
        self.candgens.append(type(self).cands)
        self.upd_hooks = [type(self).on_upd]
        self.angle_sums = True
        self.deriv = None
        self.interp = ()
        self.eqrel = None
        self.extra_eqv = []      # functions of Atom that respect ==
        self._aeq = {}
        self._aeqk = []

    def use_measures(self, extra):
        ms = self.base_measures + list(extra)
        if [m.name for m in ms] != [m.name for m in self.measures]:
            self._memo.clear()
            self.measures = ms

    # ------------------------------------------------------------ terms
    def val(self, t):
        self.mention(t)
        return self._val(t)

    def df(self, t):
        self.mention(t)
        return self._def(t)

    def is_(self, t, variant):
        return self.V[variant]['rec'](t)

    def vi(self, name):
        return [v['name'] for v in self.ai['variants']].index(name)

    def rat(self, t):
        return self.V['Rational']['acc'][0](t)

    def args(self, t, variant):
        return self.V[variant]['acc'][0](t)

    def mk(self, variant, *a):
        t = self.V[variant]['ctor'](*a)
        self.mention(t)
        return t

    def mkrat(self, n):
        return self.mk('Rational', z3.RealVal(n) if isinstance(n, int) else n)

    def pw(self, b, e):
        return self._pw(b, e)

    def isZ(self, e):
        if z3.is_rational_value(e):
            return z3.BoolVal(e.denominator_as_long() == 1)
        return self._isZ(e)

    def pdef(self, b, e):
        return Or(b > 0, And(b != 0, self.isZ(e)), And(b == 0, e > 0))

    def base_of(self, t):
        arr = self.args(t, 'Pow')
        return self.PowI['acc'][0](arr), self.PowI['acc'][1](arr)

    def pow_args(self, arr):
        if z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            return arr.arg(0), arr.arg(1)
        return self.PowI['acc'][0](arr), self.PowI['acc'][1](arr)

    # ------------------------------------------------------------ facts
    def on_mention(self, t):
        if t.sort() == self.Atom:
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                if t.decl().eq(self.V['Irrational']['ctor']):
                    w = self.irr_val(t.arg(0))
                    self.memo('atomirr', (t,), lambda: [And(self._def(t), self._val(t) == w)])
                elif t.decl().eq(self.V['Rational']['ctor']):
                    self.memo('atomrat', (t,), lambda: [And(self._def(t), self._val(t) == t.arg(0))])
                return

            def gen():
                r = self.rat(t)
                yield Implies(self.is_(t, 'Rational'), self._def(t))
                yield Implies(self.is_(t, 'Rational'), self._val(t) == r)
                yield Implies(self.is_(t, 'Undef'), Not(self._def(t)))
                yield Implies(self.is_(t, 'Irrational'), self._def(t))
                yield Implies(self.is_(t, 'Var'), self._def(t))
            self.memo('atom', (t,), gen)

    def on_open(self, t, key, v):
        a = self.eng.assume
        for x in self.interp:
            x.on_open(self, t, key, v)
        g = v['rec'](t)
        if key == 'Atom':
            n = v['name']
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                g = z3.BoolVal(True)
                acc = lambda i: t.arg(i)
            else:
                acc = lambda i: v['acc'][i](t)

            def A(f):
                a(f if z3.is_true(g) else Implies(g, f))
            if n == 'Undef':
                A(Not(self._def(t)))
            elif n == 'Rational':
                A(And(self._def(t), self._val(t) == acc(0)))
            elif n == 'Irrational':
                i = acc(0)
                A(self._def(t))
                A(self._val(t) == self.irr_val(i))
            elif n == 'Var':
                A(And(self._def(t), self._val(t) == self.env(acc(0))))
            elif n == 'Sum':
                s = acc(0)
                self.touch_seq(s)
                A(self._def(t) == self.M(self.m_def, s))
                A(self._val(t) == self.M(self.m_sum, s))
            elif n == 'Prod':
                s = acc(0)
                self.touch_seq(s)
                A(self._def(t) == self.M(self.m_def, s))
                A(self._val(t) == self.M(self.m_prod, s))
                a(self.M(self.m_prod, s) == self.M(self.m_ratp, s) * self.M(self.m_nratp, s), self.m_ratp)
            elif n == 'Pow':
                arr = acc(0)
                if z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                    b, e = arr.arg(0), arr.arg(1)
                else:
                    b, e = self.PowI['acc'][0](arr), self.PowI['acc'][1](arr)
                vb, ve = self.val(b), self.val(e)
                A(self._def(t) == And(self.df(b), self.df(e), self.pdef(vb, ve)))
                A(self._val(t) == self.pw(vb, ve))
            elif n == 'Func':
                f = acc(0)
                self.mention(f)
                A(self._def(t) == self.fdef(f))
                A(self._val(t) == self.fval(f))
                if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                    for i, x in enumerate(self.Fi['variants']):
                        if x['ctor'].eq(f.decl()):
                            self.opened(f, i, self.Fi)
        elif key == 'Func':
            n = v['name']
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                g = z3.BoolVal(True)
                acc = lambda i: t.arg(i)
            else:
                acc = lambda i: v['acc'][i](t)
            if n == 'Log':
                bs, x = acc(0), acc(1)
                vb = self.real_val(bs)
                vx = self.val(x)
                d = And(self.df(x), vx > 0, vb > 0, vb != 1)
                w = self.fun('logb', R, R, R)(vb, vx)
                a(Implies(g, self.fdef(t) == d))
                a(Implies(g, self.fval(t) == w))
                # value stated without division
                a(Implies(d, w * self.ln(vb) == self.ln(vx)))
                a(Implies(vb == vx, Implies(d, w == 1)))
                a(Implies(vb == self.E_const, w == self.ln(vx)))
                self.mention(bs)
            elif n in FUN1:
                x = acc(0)
                vx = self.val(x)
                dd, vv = self.fun_sem(n, vx)
                a(Implies(g, self.fdef(t) == And(self.df(x), dd)))
                a(Implies(g, self.fval(t) == vv))
            else:
                raise Unsupported('function %s has no meaning in the specification' % n)

    @property
    def E_const(self):
        return self.consts()[0]

    @property
    def PI_const(self):
        return self.consts()[1]

    def consts(self):
        e, p = z3.Real('const_e'), z3.Real('const_pi')
        q = z3.RealVal
        self.memo('consts', (e, p), lambda: [And(e > q('2.7'), e < q('2.8'), p > q('3.1'), p < q('3.2'))])
        return e, p

    def irr_val(self, i):
        return z3.simplify(If(self.IV['E']['rec'](i), self.E_const, self.PI_const))

    def real_val(self, r):
        return z3.simplify(If(self.RV['Rational']['rec'](r), self.RV['Rational']['acc'][0](r), self.irr_val(self.RV['Irrational']['acc'][0](r))))

    def ln(self, x):
        return self.fun('ln', R, R)(x)

    def sin(self, x):
        return self.fun('sin', R, R)(x)

    def cos(self, x):
        return self.fun('cos', R, R)(x)

    def fun_sem(self, n, x):
        f = self.fun(n.lower(), R, R)
        T = z3.BoolVal(True)
        if n in ('Sin', 'Cos', 'ArcTan', 'ArcCot'):
            return T, f(x)
        if n in ('Tan', 'Sec'):
            return self.cos(x) != 0, f(x)
        if n in ('Cot', 'Csc'):
            return self.sin(x) != 0, f(x)
        if n in ('ArcSin', 'ArcCos'):
            return And(x >= -1, x <= 1), f(x)
        return Or(x >= 1, x <= -1), f(x)

    # ------------------------------------------------------------ equality
    def eqv(self, a, b):
        f = self.fun('eqv', self.Atom, self.Atom, B)
        r = f(a, b)
        if self.once('eqv', a, b):
            self.mention(a)
            self.mention(b)
            self.memo('eqv', (a, b), lambda: [self.eqv_facts(a, b, r)])
            if self.eqrel in self.interp:
                self.eng.assume(And(r == f(b, a), Implies(a == b, r)))
        return r

    def eqv_facts(self, a, b, r):
        fs = [Implies(r, And(self._val(a) == self._val(b), self._def(a) == self._def(b)))]
        fs.append(Implies(r, And([x['rec'](a) == x['rec'](b) for x in self.V.values()])))
        fs.append(Implies(And(self.is_(a, 'Rational'), self.is_(b, 'Rational')), r == (self.rat(a) == self.rat(b))))
        ia, ib = self.args(a, 'Irrational'), self.args(b, 'Irrational')
        fs.append(Implies(And(self.is_(a, 'Irrational'), self.is_(b, 'Irrational')), r == (ia == ib)))
        fs.append(Implies(And(self.is_(a, 'Undef'), self.is_(b, 'Undef')), r))
        va, vb = self.args(a, 'Var'), self.args(b, 'Var')
        fs.append(Implies(And(self.is_(a, 'Var'), self.is_(b, 'Var')), r == (va == vb)))
        for g in self.extra_eqv:
            fs.append(Implies(r, g(a) == g(b)))
        return And(fs)

    def seq_eqv_facts(self, a, b, r):
        fs = [Implies(r, self.LEN(a) == self.LEN(b))]
        for m in self.ms(a):
            if m not in self.base_measures and not getattr(m, 'eqv', False):
                continue
            fs.append(Implies(r, self.M(m, a) == self.M(m, b)))
        return And(fs)

    def seq_eqv(self, a, b):
        self.touch_seq(a)
        self.touch_seq(b)
        r = self.fun('seqeqv_' + a.sort().name(), a.sort(), a.sort(), B)(a, b)
        if self.once('seqeqv', a, b):
            self.eng.assume(self.seq_eqv_facts(a, b, r))
            if self.eqrel in self.interp:
                # equality of sequences is equality of their elements in turn
                self.eng.assume(And(r == self.fun('seqeqv_' + a.sort().name(), a.sort(), a.sort(), B)(b, a), Implies(a == b, r)))
        return r

    def contains(self, s, x):
        """whether an element of s equals x"""
        self.touch_seq(s)
        return self.fun('contains', self.SeqA, self.Atom, B)(s, x)

    # ------------------------------------------------------------ in-place updates over a sequence
    def sufeq(self, c, s, i):
        """the sequences c and s agree from index i on (and have equal length)"""
        so = s.sort()
        return self.fun('sufeq' if so == self.SeqA else 'sufeq_' + so.name(), so, so, I, B)(c, s, i)

    def on_upd(self, s, i, e, t):
        a = self.eng.assume
        inb = And(i >= 0, i < self.LEN(s))
        j = z3.simplify(i + 1)
        for m in self.ms(s):
            a(Implies(inb, self.MP(m, t, i) == self.MP(m, s, i)), m)
            a(Implies(inb, self.MP(m, t, j) == m.comb(self.MP(m, s, i), m.f(e))), m)
        for s0 in self.suf_bases():
            if s0.sort() != s.sort():
                continue
            a(Implies(And(inb, self.sufeq(s, s0, i)), self.sufeq(t, s0, j)))

    def suf_bases(self):
        return [v for (k, v) in self.seen.items() if k[0] == 'sufbase' for v in v]

    def suf_fact(self, c, s0, i):
        self.once('sufbase', s0)
        a = self.eng.assume
        r = self.sufeq(c, s0, i)
        a(Implies(r, And(self.LEN(c) == self.LEN(s0), Implies(And(i >= 0, i < self.LEN(c)), self.NTH(c, i) == self.nth(s0, i)))))
        if c.eq(s0):
            a(r)
        # at the end the prefix is everything
        for m in self.ms(c):
            a(Implies(i == self.LEN(c), self.MP(m, c, i) == self.M(m, c)), m)
        return r

    # ------------------------------------------------------------ laws
    def arith_eqs(self, c):
        r = self._aeq.get(c.get_id())
        if r is None:
            r = []
            for f, d in ring.equalities([c]):
                for x, y in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                    if not z3.is_rational_value(x) and not z3.is_rational_value(y) and (d or y.decl().kind() in ARITH):
                        r.append((x, y))
            self._aeq[c.get_id()] = r
            self._aeqk.append(c)
            if len(self._aeqk) > 50000:
                self._aeq.clear()
                del self._aeqk[:]
        return r

    def laws(self, pc, goal):
        out = []
        fs = list(pc) + [goal]
        TR = ['sin', 'cos', 'tan', 'sec', 'cot', 'csc']
        st = subterms(fs, ['pw', 'isZ', 'ln'] + TR)
        lns = uniq(st['ln'])
        trs = uniq([t for n in TR for t in st[n]])
        pws = uniq(st['pw'])[:16]
        if self.deriv in self.interp:
            out += self.deriv.laws(pws)
        pw, isZ, pdef = self.pw, self.isZ, self.pdef
        uf = UF(pc) if pws or len(st['isZ']) > 1 or trs or lns else None
        P = ring.Poly()
        if uf is not None:
            P.const = uf.const
        eqs = {}       # equalities that hold on a condition; every law that uses one carries it as a premise
        links = {}
        if uf is not None:
            for c in pc:
                for x, y in self.arith_eqs(c):
                    if y.decl().kind() in ARITH:
                        eqs.setdefault(uf.find(x), []).append(y)
                    elif not uf.same(x, y):
                        links.setdefault(uf.find(x), []).append(y)

        def equal(x):
            todo, seen, out = [x], {uf.find(x)}, []
            while todo and len(seen) < 8:
                x = todo.pop(0)
                out += uf.members(x) + eqs.get(uf.find(x), [])
                for y in links.get(uf.find(x), ()):
                    if uf.find(y) not in seen:
                        seen.add(uf.find(y))
                        todo.append(y)
            return out

        def views(x):
            """polynomials that x may be equal to"""
            got = set()
            for y in equal(x):
                if z3.is_app(y) and y.decl().kind() in ARITH and y.get_id() not in got:
                    got.add(y.get_id())
                    P.used = False
                    p = P.of(y)
                    yield (P.term(p) if P.used else y), p

        def mono(m, c):
            fs = [P.atoms[i] for i in m]
            if c != 1 or not fs:
                fs = [z3.RealVal(str(c))] + fs
            return fs
        work = list(pws)
        known = {(uf.find(t.arg(0)), uf.find(t.arg(1))) for t in work} if uf else set()
        allp = list(work)

        def new(b, e):
            t = pw(b, e)
            k = (uf.find(b), uf.find(e))
            if k not in known and len(allp) < 30:
                known.add(k)
                allp.append(t)
                work.append(t)
            return t
        while work:
            t = work.pop(0)
            b, e = t.arg(0), t.arg(1)
            out.append(Implies(e == 0, t == 1))
            out.append(Implies(e == 1, t == b))
            out.append(Implies(b == 1, t == 1))
            out.append(Implies(b > 0, t > 0))
            out.append(Implies(And(b != 0, isZ(e)), t != 0))
            out.append(Implies(And(b == 0, e > 0), t == 0))
            out.append(Implies(And(e == -1, b != 0), t * b == 1))
            out.append(Implies(e == 2, t == b * b))
            out.append(Implies(Or(e == 0, e == 1, e == -1, e == 2), isZ(e)))
            if z3.is_rational_value(b) and z3.is_rational_value(e):
                continue
            # (x y ..)^e
            n = 0
            for y, p in views(b):
                if len(p) != 1:
                    continue
                (m, c), = p.items()
                fs_ = mono(m, c)
                if len(fs_) < 2 or len(fs_) > 4 or n > 3:
                    continue
                n += 1
                prod = z3.RealVal(1)
                for x in fs_:
                    prod = prod * new(x, e)
                out.append(Implies(And(b == y, Or(isZ(e), And([x >= 0 for x in fs_]))), t == prod))
            # (x^f)^e
            for y in uf.members(b):
                if z3.is_app(y) and y.decl().name() == 'pw':
                    x, f = y.arg(0), y.arg(1)
                    g = f * e
                    for k in allp:
                        if uf.same(k.arg(0), x) and any(q == P.of(g) for _, q in views(k.arg(1))):
                            g = k.arg(1)
                            break
                    out.append(Implies(And(b == y, g == f * e, pdef(x, f), pdef(b, e), Or(x >= 0, isZ(e))), t == new(x, g)))
                    out.append(Implies(And(isZ(f), isZ(e)), isZ(f * e)))
                    out.append(Implies(And(f > 0, e > 0), f * e > 0))
            # b^(f + g)
            n = 0
            for y, p in views(e):
                if len(p) == 1 and n <= 3:
                    (m, c), = p.items()
                    if c < 0 and m:
                        ne = z3.simplify(z3.Product(*mono(m, -c))) if len(mono(m, -c)) > 1 else mono(m, -c)[0]
                        n += 1
                        out.append(Implies(And(b != 0, e == y, Or(b > 0, isZ(ne))), t * new(b, ne) == 1))
                if len(p) < 2 or len(p) > 3 or n > 3:
                    continue
                n += 1
                es = []
                for m, c in sorted(p.items(), key=lambda z: z[0]):
                    ms = mono(m, c)
                    es.append(ms[0] if len(ms) == 1 else z3.Product(*ms))
                prod = z3.RealVal(1)
                for f in es:
                    prod = prod * new(b, f)
                out.append(Implies(And([e == y] + [pdef(b, f) for f in es]), t == prod))
        for i, t in enumerate(allp):
            for u in allp[i + 1:]:
                if uf.same(t.arg(0), u.arg(0)) and not uf.same(t.arg(1), u.arg(1)):
                    out.append(Implies(t.arg(1) == u.arg(1), t == u) if t.arg(0).eq(u.arg(0)) else Implies(And(t.arg(0) == u.arg(0), t.arg(1) == u.arg(1)), t == u))
        if trs:
            self.trig_laws(trs, out, uf, P, views, mono)
        if lns:
            self.ln_laws(lns, out, uf, equal, views, mono)
        st['isZ'] = uniq(st['isZ'] + subterms(out, ['isZ'])['isZ'])
        zs = uniq(st['isZ'])
        if len(zs) > 1:
            args = {uf.find(t.arg(0)): t.arg(0) for t in zs}
            for t in zs:
                x = t.arg(0)
                if z3.is_rational_value(x):
                    continue
                for y in uniq(equal(x)):
                    if not (z3.is_app(y) and y.decl().kind() in ARITH):
                        continue
                    P.used = False
                    p = P.of(y)
                    if P.used:
                        y = P.term(p)
                    if any(c.denominator != 1 for c in p.values()):
                        continue
                    ats = {i for m in p for i in m}
                    cl = [args.get(uf.find(P.atoms[i])) for i in ats]
                    if not ats or len(ats) > 4 or any(c is None for c in cl):
                        continue
                    out.append(Implies(And([x == y] + [And(P.atoms[i] == c, isZ(c)) for i, c in zip(ats, cl)]), t))
        for t in zs:
            x = t.arg(0)
            if not z3.is_rational_value(x):
                out.append(Implies(Or(x == 0, x == 1, x == -1, x == 2), t))
            else:
                out.append(t == z3.BoolVal(x.denominator_as_long() == 1))
        return out

    def ln_laws(self, lns, out, uf, equal, views, mono):
        ln, todo, keys = self.ln, [], set()

        def term(x):
            k = uf.find(x)
            if k not in keys and len(todo) < 20:
                keys.add(k)
                todo.append(x)
            return ln(x)
        for t in lns:
            term(t.arg(0))
        i = 0
        while i < len(todo):
            x = todo[i]
            i += 1
            out.append(Implies(x == 1, ln(x) == 0))
            out.append(Implies(x == self.E_const, ln(x) == 1))
            out.append(Implies(And(x > 0, x != 1), ln(x) != 0))
            if z3.is_rational_value(x):
                continue
            n = 0
            for y, p in views(x):
                if len(p) != 1:
                    continue
                (m, c), = p.items()
                fs = mono(m, c)
                if len(fs) < 2 or len(fs) > 4 or n > 3:
                    continue
                n += 1
                out.append(Implies(And([x == y] + [f > 0 for f in fs]), ln(x) == z3.Sum([term(f) for f in fs])))
            for y in uniq(equal(x)):
                if z3.is_app(y) and y.decl().name() == 'pw':
                    b, e = y.arg(0), y.arg(1)
                    out.append(Implies(And(x == y, b > 0), ln(x) == e * term(b)))
        for j, a in enumerate(todo):
            for b in todo[j + 1:]:
                if not (z3.is_rational_value(a) and z3.is_rational_value(b)):
                    out.append(Implies(a == b, ln(a) == ln(b)))

    def trig_laws(self, trs, out, uf, P, views, mono):
        sin, cos = self.sin, self.cos
        args, keys = [], set()

        def arg(x):
            k = uf.find(x)
            if k not in keys and len(args) < 24:
                keys.add(k)
                args.append(x)
            return x
        for t in trs:
            x = t.arg(0)
            arg(x)
            n = t.decl().name()
            if n == 'tan':
                out.append(Implies(cos(x) != 0, t * cos(x) == sin(x)))
            elif n == 'sec':
                out.append(Implies(cos(x) != 0, t * cos(x) == 1))
            elif n == 'cot':
                out.append(Implies(sin(x) != 0, t * sin(x) == cos(x)))
            elif n == 'csc':
                out.append(Implies(sin(x) != 0, t * sin(x) == 1))
        i = 0
        while i < len(args):
            x = args[i]
            i += 1
            if z3.is_rational_value(x):
                if x.numerator_as_long() == 0:
                    out.append(And(sin(x) == 0, cos(x) == 1))
                continue
            out.append(Implies(x == 0, And(sin(x) == 0, cos(x) == 1)))
            out.append(sin(x) * sin(x) + cos(x) * cos(x) == 1)
            n = 0
            for y, p in views(x) if self.angle_sums else ():
                if not p or n > 3:
                    continue
                n += 1
                ms = sorted(p.items(), key=lambda z: z[0])
                (m, c) = ms[0]

                def tm(m, c):
                    fs = mono(m, c)
                    return fs[0] if len(fs) == 1 else z3.Product(*fs)
                if len(ms) == 1:
                    if c < 0:
                        u = arg(tm(m, -c))
                        out.append(Implies(x == y, And(sin(x) == -sin(u), cos(x) == cos(u))))
                    continue
                u = arg(tm(m, abs(c)))
                rest = P.term(dict(ms[1:])) if len(ms) > 2 else tm(*(ms[1][0], abs(ms[1][1])))
                w = arg(rest)
                su, cu, sw, cw = sin(u), cos(u), sin(w), cos(w)
                if c < 0:
                    su = -su
                if len(ms) == 2 and ms[1][1] < 0:
                    sw = -sw
                out.append(Implies(x == y, And(sin(x) == su * cw + cu * sw, cos(x) == cu * cw - su * sw)))
        for i, a in enumerate(args):
            for b in args[i + 1:]:
                if z3.is_rational_value(a) or z3.is_rational_value(b):
                    continue
                out.append(Implies(a == b, And(sin(a) == sin(b), cos(a) == cos(b))))
                out.append(Implies(a == -b, And(sin(a) == -sin(b), cos(a) == cos(b))))

    # ------------------------------------------------------------ candidate loop invariants
    def cands(self, eng, mod, entry):
        out = []
        ranges = []
        its = []       # (index loc, sequence term at entry or None, mutref, i0, end)
        for loc in mod:
            if not loc[1]:
                continue
            last = loc[1][-1]
            if last[0] == 'it' and last[1] == 'i':
                it = eng.get_path(entry[loc[0]], loc[1][:-1])
                seq = it.f.get('seq')
                i0, end = it.i, it.end
                mref = seq if isinstance(seq, E.MutRef) else None
                out.append(('range:%s' % locname(loc), lambda L, loc=loc, i0=i0, end=end: And(L[loc] >= i0, Or(L[loc] <= end, L[loc] == i0))))
                if it.kind == 'slice':
                    if mref is not None:
                        sv = entry[mref.cell]
                        for el in mref.path:
                            if isinstance(sv, E.MutRef):
                                sv = eng.read(sv)
                            sv = eng.proj_get(sv, el)
                        sv = eng.read(sv) if isinstance(sv, E.MutRef) else sv
                    else:
                        sv = seq
                    if isinstance(sv, E.Lst):
                        sv = eng.zany(sv) if sv.e and not isinstance(sv.e[0], E.MutRef) and not eng.table(sv) else None
                    its.append((loc, sv, mref, i0, end))
                elif it.kind == 'range':
                    ranges.append((loc, i0, end))
            if last[0] == 'it' and last[1] == 'n':
                it = eng.get_path(entry[loc[0]], loc[1][:-1])
                for l2 in mod:
                    if l2[0] == loc[0] and len(l2[1]) == len(loc[1]) + 1 and l2[1][:-2] == loc[1][:-1] and l2[1][-1] == ('it', 'i'):
                        i0 = eng.get_path(entry[l2[0]], l2[1])
                        out.append(('range:n%s' % locname(loc), lambda L, loc=loc, l2=l2, n0=it.n, i0=i0: L[loc] - n0 == L[l2] - i0))
        idx = [x for x in its if x[1] is not None]
        for loc, v0, ends in self.counters(eng, mod, entry):
            nm = locname(loc)
            out.append(('ctr>:' + nm, lambda L, loc=loc, v0=v0: L[loc] >= v0))
            out.append(('ctr<:' + nm, lambda L, loc=loc, v0=v0: L[loc] <= v0))
            for n, b in enumerate(ends):
                out.append(('ctr<=:%s:%d' % (nm, n), lambda L, loc=loc, b=b: L[loc] <= b))
                out.append(('ctr<=+:%s:%d' % (nm, n), lambda L, loc=loc, b=b: L[loc] <= b + 1))
            for n, x in enumerate(its):
                out.append(('ctr=:%s:%d' % (nm, n), lambda L, loc=loc, v0=v0, x=x: L[loc] - v0 == L[x[0]] - x[3]))
            if not its:
                for s in self.fixed_seqs(eng, mod, entry):
                    idx.append((loc, s, None, v0, self.LEN(s)))
                    out.append(('ctr len:%s:%d' % (nm, len(idx)), lambda L, loc=loc, s=s: L[loc] <= self.LEN(s)))
        if not its:
            for loc, i0, end in ranges:
                for s in self.fixed_seqs(eng, mod, entry):
                    idx.append((loc, s, None, i0, end))
                    out.append(('range len:%s:%d' % (locname(loc), len(idx)), lambda L, loc=loc, s=s: L[loc] <= self.LEN(s)))
        muts = [x[2] for x in its if x[2] is not None]
        for loc in mod:
            v0 = eng.get_path(entry[loc[0]], loc[1])
            nm = locname(loc)
            so = v0.sort() if E.is_z(v0) else (self.seqsort_of(v0, eng) if isinstance(v0, E.Lst) else None)
            if so is None:
                continue
            if any(x[0] == loc for x in its):
                continue
            inplace = [r for r in muts if r.cell == loc[0] and tuple(r.path[:len(loc[1])]) == tuple(loc[1])]
            if inplace:
                for (il, sv, mref, i0, end) in its:
                    if mref is None or mref not in inplace:
                        continue
                    rest = mref.path[len(loc[1]):]
                    out.extend(self.inplace_cands(eng, loc, v0, rest, il, sv, nm))
                continue
            if so == self.Atom:
                out.extend(self.atom_cands(eng, loc, v0, idx, nm))
            elif so == self.SeqA:
                out.extend(self.seq_cands(eng, loc, eng.zany(v0), idx, nm))
            elif so == R:
                for (il, s, _, i0, end) in idx:
                    if s.sort() == self.SeqA:
                        out.append(('rat*:' + nm, lambda L, loc=loc, il=il, s=s, v0=v0: L[loc] == v0 * self.MP(self.m_ratp, s, L[il])))
        out.extend(self.pow_cands(eng, mod, entry, idx))
        out.extend(self.pair_cands(eng, mod, entry, idx))
        if eng.curc is not None and eng.curc.hints is not None:
            out.extend(eng.curc.hints(self, eng, mod, entry, idx))
        return out

    def counters(self, eng, mod, entry):
        """(location, value at entry, integers that do not change in the loop) of the integer variables a loop changes"""
        ends = []
        for c in sorted(entry):
            x = entry[c]
            if E.is_z(x) and x.sort() == I and not any(l[0] == c for l in mod) and not any(x.eq(y) for y in ends):
                ends.append(x)
        for loc in mod:
            if loc[1] and loc[1][-1][0] == 'it':
                continue
            v0 = eng.get_path(entry[loc[0]], loc[1])
            if E.is_z(v0) and v0.sort() == I:
                yield loc, v0, ends[:6]

    def fixed_seqs(self, eng, mod, entry):
        out = []
        for c in sorted(entry):
            x = entry[c]
            if E.is_z(x) and x.sort() == self.SeqA and not any(l[0] == c for l in mod) and not any(x.eq(y) for y in out):
                self.touch_seq(x)
                out.append(x)
        return out[:3]

    def atom_cands(self, eng, loc, v0, idx, nm):
        out = [('def:' + nm, lambda L: self.df(L[loc]))]
        x0 = self.val(v0)
        out.append(('val=:' + nm, lambda L: self.val(L[loc]) == x0))
        for n, (il, s, _, i0, end) in enumerate(idx):
            if s.sort() != self.SeqA:
                continue
            out.append(('val+:%s:%d' % (nm, n), lambda L, il=il, s=s: self.val(L[loc]) == x0 + self.MP(self.m_sum, s, L[il])))
            out.append(('val*:%s:%d' % (nm, n), lambda L, il=il, s=s: self.val(L[loc]) == x0 * self.MP(self.m_prod, s, L[il])))
        return out

    def seq_cands(self, eng, loc, v0, idx, nm):
        out = []

        def cur(L):
            return eng.zany(L[loc])
        out.append(('alldef:' + nm, lambda L: self.M(self.m_def, cur(L))))
        for m in self.ms(v0):
            if m.op == '&':
                continue
            out.append(('%s=:%s' % (m.name, nm), lambda L, m=m: self.M(m, cur(L)) == self.M(m, v0)))
            for n, (il, s, _, i0, end) in enumerate(idx):
                if s.sort() != self.SeqA:
                    continue
                for m2 in self.ms(s):
                    if m2.op != m.op or (m2 is not m and (m.name, m2.name) not in self.cross):
                        continue
                    out.append(('%s%s%s:%s:%d' % (m.name, m.op, m2.name, nm, n),
                                lambda L, m=m, m2=m2, il=il, s=s: self.M(m, cur(L)) == m.comb(self.M(m, v0), self.MP(m2, s, L[il]))))
        out.append(('len=:' + nm, lambda L: self.LEN(cur(L)) == self.LEN(v0)))
        for n, (il, s, _, i0, end) in enumerate(idx):
            if s.sort() == self.SeqA:
                out.append(('def<=:%s:%d' % (nm, n), lambda L, s=s: Implies(self.M(self.m_def, s), self.M(self.m_def, cur(L)))))
            out.append(('len+:%s:%d' % (nm, n), lambda L, il=il: self.LEN(cur(L)) == self.LEN(v0) + L[il]))
        return out

    def pow_cands(self, eng, mod, entry, idx):
        """(prefix)^e distributed over two sequences that the loop builds"""
        out = []
        seqs = []
        for loc in mod:
            v0 = eng.get_path(entry[loc[0]], loc[1])
            if (E.is_z(v0) and v0.sort() == self.SeqA) or (isinstance(v0, E.Lst) and self.seqsort_of(v0, eng) == self.SeqA):
                seqs.append((loc, eng.zany(v0)))
        if len(seqs) < 2:
            return out
        es = uniq([t.arg(1) for t in subterms(eng.pc, ['pw'])['pw']])
        es = [e for e in es if not z3.is_rational_value(e)][:4]
        for n, (il, s, _, i0, end) in enumerate(idx):
            if s.sort() != self.SeqA:
                continue
            for (sl, s0) in seqs:
                for (tl, t0) in seqs:
                    if sl == tl:
                        continue
                    for k, e in enumerate(es):
                        nm = '%s:%s:%d:%d' % (locname(sl), locname(tl), n, k)
                        out.append(('powsplit:' + nm, lambda L, sl=sl, tl=tl, s0=s0, t0=t0, il=il, s=s, e=e:
                                    self.M(self.m_prod, eng.zany(L[sl])) * self.pw(self.M(self.m_prod, eng.zany(L[tl])), e)
                                    == self.M(self.m_prod, s0) * self.pw(self.M(self.m_prod, t0), e) * self.pw(self.MP(self.m_prod, s, L[il]), e)))
            for (tl, t0) in seqs:
                out.append(('nz<=:%s:%d' % (locname(tl), n), lambda L, tl=tl, s=s: Implies(self.M(self.m_nz, s), self.M(self.m_nz, eng.zany(L[tl])))))
        return out

    def pair_cands(self, eng, mod, entry, idx):
        """two expressions that share the factors between them"""
        out = []
        at = []
        for loc in mod:
            v0 = eng.get_path(entry[loc[0]], loc[1])
            if E.is_z(v0) and v0.sort() == self.Atom:
                at.append((loc, v0))
        if len(at) != 2:
            return out
        (a, a0), (b, b0) = at
        xa, xb = self.val(a0), self.val(b0)
        for n, (il, s, _, i0, end) in enumerate(idx):
            if s.sort() != self.SeqA:
                continue
            out.append(('share:%d' % n, lambda L, il=il, s=s: self.val(L[a]) * self.val(L[b]) == xa * xb * self.MP(self.m_prod, s, L[il])))
            for k, (p, q, p0, q0) in enumerate(((a, b, xa, xb), (b, a, xb, xa))):
                out.append(('quot:%d:%d' % (n, k), lambda L, il=il, s=s, p=p, q=q, p0=p0, q0=q0:
                            self.val(L[p]) * q0 == p0 * self.val(L[q]) * self.MP(self.m_prod, s, L[il])))
        for p in (a, b):
            out.append(('nonzero:%s' % locname(p), lambda L, p=p: self.val(L[p]) != 0))
        return out

    def important(self, nm):
        return nm.startswith('powsplit') or nm.startswith('binom')

    cross = {('prod', 'nratp'), ('prod', 'ratp')}

    def inplace_cands(self, eng, loc, v0, rest, il, s0, nm):
        """element-by-element update of the sequence found below loc"""
        out = []

        def cur(L):
            x = L[loc]
            return eng.zany(eng.get_path(x, rest)) if rest else eng.zany(x)
        if s0 is None:
            return out
        if E.is_z(v0) and v0.sort() == self.Atom:
            for k, x in enumerate(self.ai['variants']):
                def shape(L, k=k, x=x):
                    if ('open', v0.get_id(), k) in self.seen:
                        self.opened(L[loc], k, self.ai)
                    return x['rec'](L[loc]) == x['rec'](v0)
                out.append(('shape:%s:%s' % (x['name'], nm), shape))
        out.append(('suf:' + nm, lambda L: self.suf_fact(cur(L), s0, L[il])))
        for m in self.ms(s0):
            if m.op == '&':
                out.append(('pre&%s:%s' % (m.name, nm), lambda L, m=m: Implies(self.MP(m, s0, L[il]), self.MP(m, cur(L), L[il]))))
            else:
                out.append(('pre=%s:%s' % (m.name, nm), lambda L, m=m: self.MP(m, cur(L), L[il]) == self.MP(m, s0, L[il])))
                if m in (self.m_sum, self.m_prod):
                    out.append(('pred=%s:%s' % (m.name, nm), lambda L, m=m: Implies(self.MP(self.m_def, s0, L[il]), self.MP(m, cur(L), L[il]) == self.MP(m, s0, L[il]))))
        if eng.curc is not None and getattr(eng.curc.hints, 'inplace', None) is not None:
            out += eng.curc.hints.inplace(self, eng, s0, cur, il, nm)
        if s0.sort() != self.SeqA:
            return out
        for x in self.interp:
            for m0, m, m1 in x.inplace:
                # where m0 holds of the elements done, measure m of what they have become is measure m1 of what they were
                out.append(('interp:%s:%s' % (m.name, nm), lambda L, m0=m0, m=m, m1=m1: Implies(self.MP(m0, s0, L[il]), self.MP(m, cur(L), L[il]) == self.MP(m1, s0, L[il]))))
        return out


def locname(loc):
    out = [str(loc[0])]
    for el in loc[1]:
        out.append('%s%s' % (el[0], el[1] if not E.is_z(el[1]) else '?'))
    return '.'.join(out)


def uniq(ts):
    seen = set()
    out = []
    for t in ts:
        if t.get_id() not in seen:
            seen.add(t.get_id())
            out.append(t)
    return out


class UF:
    """equalities between terms that follow from unit literals"""
    CACHE = {}

    @classmethod
    def parse(cls, f):
        i = f.get_id()
        r = cls.CACHE.get(i)
        if r is None:
            lits, imps = [], []
            st = [f]
            while st:
                x = st.pop()
                if z3.is_and(x):
                    st.extend(x.children())
                elif z3.is_implies(x):
                    h = x.arg(0)
                    hs = h.children() if z3.is_and(h) else [h]
                    imps.append(([(y.get_id(), (y.arg(0), y.arg(1)) if z3.is_eq(y) else None, y) for y in hs], x.arg(1)))
                else:
                    lits.append((x.get_id(), (x.arg(0), x.arg(1)) if z3.is_eq(x) else None, x))
            if len(cls.CACHE) > 100000:
                cls.CACHE.clear()
            r = cls.CACHE[i] = (f, lits, imps)
        return r

    def __init__(self, pc):
        self.par = {}
        self.index = None
        self.nums = None
        self.keep = []
        lits = self.lits = set()
        imps = []
        comps = {}
        self.units = []

        def comp(x):
            if z3.is_and(x) or z3.is_implies(x) or z3.is_eq(x):
                comps[x.get_id()] = x

        def add(f):
            _, ls, im = self.parse(f)
            imps.extend(im)
            for i, eq, x in ls:
                lits.add(i)
                self.units.append(x)
                if eq:
                    self.union(*eq)
                    if eq[0].sort() == B:
                        comp(eq[0])
                        comp(eq[1])
                else:
                    self.union(x, TRUE)
        for f in pc:
            add(f)
        for _ in range(10):
            rest = []
            n = 0
            cur, imps[:] = list(imps), []
            for im in cur:
                if all(i in lits or (self.same(*eq) if eq is not None else self.same(y, TRUE)) for i, eq, y in im[0]):
                    add(im[1])
                    n += 1
                else:
                    rest.append(im)
            imps.extend(rest)
            for i, x in list(comps.items()):
                if self.same(x, TRUE):
                    del comps[i]
                    add(x)
                    n += 1
            if not n:
                break

    def const(self, t):
        """the numeral this term is known to be equal to"""
        if self.nums is None:
            self.nums = {}
            for k in self.keep:
                if z3.is_rational_value(k):
                    self.nums[self.find(k)] = Fraction(k.numerator_as_long(), k.denominator_as_long())
        return self.nums.get(self.find(t))

    def find(self, t):
        return self.findi(t.get_id())

    def findi(self, i):
        while self.par.get(i, i) != i:
            i = self.par[i]
        return i

    def union(self, a, b):
        self.keep.append(a)
        self.keep.append(b)
        x, y = self.find(a), self.find(b)
        if x != y:
            self.par[x] = y

    def members(self, t):
        if self.index is None:
            self.index = {}
            ids = set()
            for k in self.keep:
                i = k.get_id()
                if i not in ids:
                    ids.add(i)
                    self.index.setdefault(self.find(k), []).append(k)
        i = t.get_id()
        return [t] + [k for k in self.index.get(self.find(t), ()) if k.get_id() != i]

    def same(self, a, b):
        i, j = a.get_id(), b.get_id()
        return i == j or self.findi(i) == self.findi(j)
