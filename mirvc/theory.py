"""Mathematical theory the contracts speak about: denotation of expressions over the reals,
sequence measures, real powers.  All facts are added as ground instances."""
import z3
import ring
import lin
from prog import Unsupported

R = z3.RealSort()
B = z3.BoolSort()
I = z3.IntSort()


class Measure:
    """fold of an element function over a sequence: op '+', '*' or '&'"""
    def __init__(self, name, op, f, sort='Seq<Atom>', link=None):
        self.name, self.op, self.f, self.sort = name, op, f, sort
        # a lemma about this measure and others: link(value, value of another measure); induction() proves it
        self.link = link

    def induction(self, elem):
        """the lemma holds for the empty sequence and is kept by one more element"""
        var = {}

        def of(b):
            if b.name not in var:
                var[b.name] = (b, z3.Const('ind_' + b.name, b.rng()))
            return var[b.name][1]
        hyp = self.link(of(self), of)
        bs = [b for b, _ in var.values()]
        sub = lambda vals: z3.substitute(hyp, *[(var[b.name][1], x) for b, x in zip(bs, vals)])
        base = sub([b.neutral() for b in bs])
        step = z3.Implies(hyp, sub([b.comb(var[b.name][1], b.f(elem)) for b in bs]))
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(z3.Not(z3.And(base, step)))
        return s.check() == z3.unsat

    def neutral(self):
        return {'+': z3.RealVal(0), '*': z3.RealVal(1), '&': z3.BoolVal(True), '|': z3.BoolVal(False)}[self.op]

    def comb(self, a, b):
        if self.op == '+':
            return a + b
        if self.op == '*':
            return a * b
        if self.op == '|':
            return z3.Or(a, b)
        return z3.And(a, b)

    def rng(self):
        return B if self.op in '&|' else R


class Theory:
    def __init__(self, prog):
        self.lin = lin.Lin()
        self.p = prog
        self.eng = None
        self._funs = {}
        self.measures = []
        self.unary = []     # extra denotations on Atom: hooks called on opened(term, variant)
        self.lawgens = []
        self.candgens = []
        self.mention_hooks = []
        self.eqv_hooks = []

    def bind(self, eng):
        self.eng = eng

    def reset(self):
        self.seen = {}
        self.sdef = {}

    def snapshot(self):
        return dict(self.seen), dict(self.sdef)

    def restore(self, s):
        self.seen, self.sdef = dict(s[0]), dict(s[1])

    def once(self, tag, *ts):
        k = (tag,) + tuple(t.get_id() if isinstance(t, z3.AstRef) else t for t in ts)
        if k in self.seen:
            return False
        self.seen[k] = ts
        return True

    def fun(self, name, *sorts):
        f = self._funs.get(name)
        if f is None:
            f = z3.Function(name, *sorts)
            self._funs[name] = f
        return f

    def str_const(self, s):
        c = z3.Const('str:' + s, self.p.Str)
        for k, v in list(self._strs().items()):
            if k != s and self.once('strne', c, v):
                self.eng.assume(c != v)
        self._strs()[s] = c
        return c

    def _strs(self):
        if not hasattr(self, '_sc'):
            self._sc = {}
        return self._sc

    # ---------------------------------------------------------------- sequences
    def len(self, s):
        return z3.simplify(self.fun('len_' + s.sort().name(), s.sort(), I)(s))

    def LEN(self, s):
        return self.fun('len_' + s.sort().name(), s.sort(), I)(s)

    def NTH(self, s, i):
        return self.fun('nth_' + s.sort().name(), s.sort(), I, self.elem_sort(s.sort()))(s, i)

    def ety(self, key):
        """the type whose elements a sequence sort holds"""
        k = key[4:-1]
        for tid in self.p.ty:
            try:
                if self.p.key(tid) == k:
                    return tid
            except Unsupported:
                pass
        raise Unsupported('element type ' + k)

    def elem_sort(self, ssort):
        n = ssort.name()
        assert n.startswith('Seq<')
        k = n[4:-1]
        if k == 'Int':
            return I
        if k == 'Q':
            return R
        if k == 'Bool':
            return B
        if k == 'Str':
            return self.p.Str
        s = self.p._sort.get(k)
        if s is None:
            for tid in self.p.ty:
                try:
                    if self.p.key(tid) == k:
                        return self.p.sort(tid)
                except Unsupported:
                    pass
            raise Unsupported('element sort ' + k)
        return s

    def seqsort_of(self, lst, eng):
        k = 'Seq<%s>' % self.p.key(lst.ety)
        s = self.p._sort.get(k)
        if s is None:
            s = z3.DeclareSort(k)
            self.p._sort[k] = s
        self.p.sort(lst.ety)
        return s

    def ms(self, s):
        return [m for m in self.measures if m.sort == s.sort().name()]

    def M(self, m, s):
        return self.fun(m.name, s.sort(), m.rng())(s)

    def MP(self, m, s, i):
        return self.fun(m.name + '_pre', s.sort(), I, m.rng())(s, i)

    def MR(self, m, s, i):
        return self.fun(m.name + '_rest', s.sort(), I, m.rng())(s, i)

    def mname(self, name):
        for m in self.measures:
            if m.name == name:
                return m
        raise KeyError(name)

    _memo = {}

    def memo(self, tag, ts, gen):
        """facts about the terms ts; gen() yields formulas or (formula, measure); the instances are kept between paths"""
        k = (tag,) + tuple(t.get_id() for t in ts)
        r = self._memo.get(k)
        if r is None:
            fs = []

            def add(f, m):
                if z3.is_true(f):
                    return
                if z3.is_and(f):
                    for x in f.children():
                        add(x, m)
                else:
                    fs.append((f, m))
            for x in gen():
                f, m = x if isinstance(x, tuple) else (x, None)
                add(f, m)
            if len(self._memo) > 60000:
                self._memo.clear()
            r = self._memo[k] = (ts, fs)
        self.eng.assume_all(r[1])

    def touch_seq(self, s):
        if not self.once('seq', s):
            return
        e0 = self.NTH(s, z3.IntVal(0))

        def gen():
            n = self.LEN(s)
            yield n >= 0
            for m in self.ms(s):
                yield z3.Implies(n == 0, self.M(m, s) == m.neutral()), m
                yield z3.Implies(n == 1, self.M(m, s) == m.f(e0)), m
                yield self.MP(m, s, z3.IntVal(0)) == m.neutral(), m
                yield self.MP(m, s, n) == self.M(m, s), m
            if s.sort().name() == 'Seq<Atom>' and hasattr(self, 'm_nz'):
                yield self.M(self.m_nz, s) == (self.M(self.m_prod, s) != 0), self.m_nz
                for m in self.measures:
                    # proved by induction over the sequence, see Measure.link
                    if m.link is not None:
                        yield m.link(self.M(m, s), lambda b: self.M(b, s)), m
        self.memo('seq', (s,), gen)
        if self.ms(s):
            self.mention(e0)

    def nth(self, s, i):
        i = z3.simplify(i) if isinstance(i, z3.AstRef) else z3.IntVal(i)
        self.touch_seq(s)
        d = self.sdef.get(s.get_id())
        if d is not None:
            if d[1] == 'lit' and z3.is_int_value(i):
                k = i.as_long()
                if k < len(d[2]):
                    return d[2][k]
        r = self.NTH(s, i)
        if not self.once('nth', s, i):
            return r
        eng = self.eng
        n = self.LEN(s)
        inb = z3.And(i >= 0, i < n)
        self.mention(r)

        def gen():
            for m in self.ms(s):
                yield z3.Implies(inb, self.M(m, s) == m.comb(m.f(r), self.MR(m, s, i))), m
                yield z3.Implies(inb, self.MP(m, s, z3.simplify(i + 1)) == m.comb(self.MP(m, s, i), m.f(r))), m
                if m.op == '&':
                    yield z3.Implies(z3.And(inb, self.M(m, s)), m.f(r)), m
                    yield z3.Implies(z3.And(i >= 0, i <= n, self.M(m, s)), self.MP(m, s, i)), m
                if m.op == '|':
                    yield z3.Implies(z3.And(inb, m.f(r)), self.M(m, s)), m
            if s.sort().name() == 'Seq<Atom>' and hasattr(self, 'm_nz'):
                for j in (i, z3.simplify(i + 1)):
                    yield self.MP(self.m_nz, s, j) == (self.MP(self.m_prod, s, j) != 0), self.m_nz
        self.memo('nth', (s, i), gen)
        if d is not None:
            k = d[1]
            if k == 'push':
                s0, e = d[2], d[3]
                eng.assume(z3.Implies(z3.And(i >= 0, i < self.LEN(s0)), r == self.nth(s0, i)))
                eng.assume(z3.Implies(i == self.LEN(s0), r == e))
            elif k == 'upd':
                s0, j, e = d[2], d[3], d[4]
                eng.assume(z3.Implies(i == j, r == e))
                eng.assume(z3.Implies(i != j, r == self.nth(s0, i)))
            elif k == 'sub':
                s0, lo = d[2], d[3]
                eng.assume(z3.Implies(inb, r == self.nth(s0, z3.simplify(lo + i))))
            elif k == 'cat':
                a, b = d[2], d[3]
                eng.assume(z3.Implies(z3.And(i >= 0, i < self.LEN(a)), r == self.nth(a, i)))
                eng.assume(z3.Implies(z3.And(i >= self.LEN(a), inb), r == self.nth(b, z3.simplify(i - self.LEN(a)))))
            elif k == 'lit':
                for j, e in enumerate(d[2]):
                    eng.assume(z3.Implies(i == j, r == e))
            elif k == 'rev':
                s0 = d[2]
                eng.assume(z3.Implies(inb, r == self.nth(s0, z3.simplify(n - 1 - i))))
        return r

    def _new(self, s, kind, *a):
        self.sdef[s.get_id()] = (s, kind) + a

    def mkseq(self, sort, elems):
        if not elems:
            t = z3.Const('empty_' + sort.name(), sort)
        else:
            f = self.fun('lit%d_%s' % (len(elems), sort.name()), *([self.elem_sort(sort)] * len(elems) + [sort]))
            t = f(*elems)
        if self.once('lit', t):
            self._new(t, 'lit', list(elems))
            self.eng.assume(self.LEN(t) == len(elems))
            for m in self.ms(t):
                acc = m.neutral()
                if elems:
                    acc = m.f(elems[0])
                    for e in elems[1:]:
                        acc = m.comb(acc, m.f(e))
                self.eng.assume(self.M(m, t) == acc, m)
            for i, e in enumerate(elems):
                self.eng.assume(self.NTH(t, z3.IntVal(i)) == e)
            self.touch_seq(t)
        return t

    def push(self, s, e):
        d = self.sdef.get(s.get_id())
        if d is not None and d[1] == 'lit':
            return self.mkseq(s.sort(), d[2] + [e])
        f = self.fun('push_' + s.sort().name(), s.sort(), e.sort(), s.sort())
        t = f(s, e)
        if self.once('push', t):
            self.touch_seq(s)
            self._new(t, 'push', s, e)
            n = self.LEN(s)
            self.eng.assume(self.LEN(t) == n + 1)
            for m in self.ms(s):
                self.eng.assume(self.M(m, t) == m.comb(self.M(m, s), m.f(e)), m)
            self.eng.assume(self.NTH(t, n) == e)
            self.touch_seq(t)
            self.eng.assume(z3.Implies(n > 0, self.NTH(t, z3.IntVal(0)) == self.NTH(s, z3.IntVal(0))))
        return t

    def cat(self, a, b):
        da, db = self.sdef.get(a.get_id()), self.sdef.get(b.get_id())
        if da is not None and da[1] == 'lit' and not da[2]:
            return b
        if db is not None and db[1] == 'lit' and not db[2]:
            return a
        if da is not None and db is not None and da[1] == 'lit' and db[1] == 'lit':
            return self.mkseq(a.sort(), da[2] + db[2])
        t = self.fun('cat_' + a.sort().name(), a.sort(), a.sort(), a.sort())(a, b)
        if self.once('cat', t):
            self.touch_seq(a)
            self.touch_seq(b)
            self._new(t, 'cat', a, b)
            self.eng.assume(self.LEN(t) == self.LEN(a) + self.LEN(b))
            for m in self.ms(a):
                self.eng.assume(self.M(m, t) == m.comb(self.M(m, a), self.M(m, b)), m)
            self.touch_seq(t)
            z = z3.IntVal(0)
            self.eng.assume(z3.Implies(self.LEN(a) > 0, self.NTH(t, z) == self.NTH(a, z)))
        return t

    def upd(self, s, i, e):
        i = z3.simplify(i)
        d = self.sdef.get(s.get_id())
        if d is not None and d[1] == 'lit' and z3.is_int_value(i):
            l = list(d[2])
            l[i.as_long()] = e
            return self.mkseq(s.sort(), l)
        self.nth(s, i)
        t = self.fun('upd_' + s.sort().name(), s.sort(), I, e.sort(), s.sort())(s, i, e)
        if self.once('upd', t):
            self._new(t, 'upd', s, i, e)
            n = self.LEN(s)
            self.eng.assume(self.LEN(t) == n)
            inb = z3.And(i >= 0, i < n)
            self.eng.assume(z3.Implies(inb, self.NTH(t, i) == e))
            for m in self.ms(s):
                self.eng.assume(z3.Implies(inb, self.M(m, t) == m.comb(m.f(e), self.MR(m, s, i))), m)
            for h in self.mention_hooks:
                h(self, t)
            self.touch_seq(t)
            for hook in getattr(self, 'upd_hooks', []):
                hook(self, s, i, e, t)
        return t

    def remove(self, s, i):
        """sequence without element i"""
        i = z3.simplify(i)
        d = self.sdef.get(s.get_id())
        if d is not None and d[1] == 'lit' and z3.is_int_value(i):
            l = list(d[2])
            del l[i.as_long()]
            return self.mkseq(s.sort(), l)
        self.nth(s, i)
        t = self.fun('rem_' + s.sort().name(), s.sort(), I, s.sort())(s, i)
        if self.once('rem', t):
            n = self.LEN(s)
            inb = z3.And(i >= 0, i < n)
            self.eng.assume(z3.Implies(inb, self.LEN(t) == n - 1))
            for m in self.ms(s):
                self.eng.assume(z3.Implies(inb, self.M(m, t) == self.MR(m, s, i)), m)
            self.touch_seq(t)
        return t

    def subseq(self, s, lo, hi):
        lo = z3.simplify(lo) if isinstance(lo, z3.AstRef) else z3.IntVal(lo)
        n = self.LEN(s)
        full_hi = hi is None
        hi = n if hi is None else z3.simplify(hi)
        if full_hi and z3.is_int_value(lo) and lo.as_long() == 0:
            return s
        self.touch_seq(s)
        t = self.fun('sub_' + s.sort().name(), s.sort(), I, I, s.sort())(s, lo, hi)
        if self.once('sub', t):
            self._new(t, 'sub', s, lo, hi)
            ok = z3.And(lo >= 0, lo <= hi, hi <= n)
            self.eng.assume(z3.Implies(ok, self.LEN(t) == hi - lo))
            for m in self.ms(s):
                # prefix(lo) . m(t) = prefix(hi)
                self.eng.assume(z3.Implies(ok, self.MP(m, s, hi) == m.comb(self.MP(m, s, lo), self.M(m, t))), m)
            self.touch_seq(t)
            if z3.is_int_value(lo):
                for k in range(lo.as_long()):
                    self.nth(s, z3.IntVal(k))
                if lo.as_long() == 1 and full_hi:
                    for m in self.ms(s):
                        self.eng.assume(z3.Implies(ok, self.MR(m, s, z3.IntVal(0)) == self.M(m, t)), m)
            for hook in getattr(self, 'sub_hooks', []):
                hook(self, s, lo, hi, t)
        return t

    def perm(self, s, tag):
        """a permutation of s that depends only on s"""
        self.touch_seq(s)
        t = self.fun('%s_%s' % (tag, s.sort().name()), s.sort(), s.sort())(s)
        if self.once('perm', t):
            self.eng.assume(self.LEN(t) == self.LEN(s))
            for m in self.ms(s):
                self.eng.assume(self.M(m, t) == self.M(m, s), m)
            self.touch_seq(t)
            if tag == 'rev':
                self._new(t, 'rev', s)
        return t

    # ---------------------------------------------------------------- terms
    def mention(self, v):
        if not isinstance(v, z3.ExprRef):
            return
        sn = v.sort().name()
        if sn.startswith('Seq<'):
            self.touch_seq(v)
            return
        if sn in self.p.dt and self.once('mention', v):
            for h in self.mention_hooks:
                h(self, v)
            info = self.p.dt[sn]
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                for i, x in enumerate(info['variants']):
                    if x['ctor'].eq(v.decl()):
                        self.opened(v, i, info)

    def made(self, t, variant, info):
        self.mention(t)
        self.opened(t, variant, info)

    def opened(self, t, variant, info):
        if not self.once('open', t, variant):
            return
        self.mention(t)
        v = info['variants'][variant]
        for h in self.unary:
            h(self, t, info['key'], v)

    # ---------------------------------------------------------------- candidates for loop invariants
    def candidates(self, eng, mod, entry, havoc):
        out = []
        for g in self.candgens:
            out.extend(g(self, eng, mod, entry))
        return out

    def important(self, nm):
        return False

    # ---------------------------------------------------------------- checking
    def check(self, pc, goal, ms):
        insts = []
        for g in self.lawgens:
            insts.extend(g(self, pc, goal))
        fs = pc + insts
        self.lin.fresh_query()
        P = lin.Prover(self.lin)
        r = P.check(fs, z3.Not(goal), ms)
        self.linstat = (P.nrounds, P.ninst)
        if r == z3.unsat:
            return r, None
        r, model = self.run(fs + [z3.Not(goal)], min(ms, 1500))
        if r == z3.unknown and ms > 3000:
            more = ring.instances(fs, goal)
            r, model = self.run(fs + more + [z3.Not(goal)], ms)
        return r, model

    def run(self, fs, ms):
        s = z3.Solver()
        s.set('timeout', int(ms))
        s.set('random_seed', 1)
        for c in fs:
            s.add(c)
        r = s.check()
        return r, (s.model() if r == z3.sat else None)


_SUB = {}


def sub1(f):
    """applications of uninterpreted functions in one formula, by function name (cached)"""
    r = _SUB.get(f.get_id())
    if r is not None and r[0].eq(f):
        return r[1]
    seen = set()
    out = {}
    stack = [f]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t) and t.num_args() > 0:
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.setdefault(d.name(), []).append(t)
            stack.extend(t.children())
    if len(_SUB) > 100000:
        _SUB.clear()
    _SUB[f.get_id()] = (f, out)
    return out


def subterms(fs, decls):
    """all applications of the given function names in the formulas"""
    out = {d: [] for d in decls}
    got = {d: set() for d in decls}
    for f in fs:
        r = sub1(f)
        for d in decls:
            for t in r.get(d, ()):
                i = t.get_id()
                if i not in got[d]:
                    got[d].add(i)
                    out[d].append(t)
    for d in out:
        out[d].sort(key=lambda t: t.sexpr() if len(out[d]) < 60 else str(t.get_id()))
    return out
