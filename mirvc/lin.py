"""Linear abstraction: every nonlinear product becomes a variable named by its sorted factors.

The abstraction is weaker than the original formulas, so unsat of the abstraction is unsat of the original."""
import z3
from fractions import Fraction

R = z3.RealSort()
ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV}


class Lin:
    def __init__(self):
        self.cache = {}
        self.keep = []
        self.atoms = {}
        self.mono = {}
        self.monos = {}      # const id -> factors (ids)
        self.mcache = {}
        self.ecache = {}
        self.rcache = {}
        self.pcache = {}

    def fresh_query(self):
        if len(self.cache) > 200000:
            self.__init__()

    # polynomials over abstracted atoms
    def poly(self, t):
        if z3.is_rational_value(t):
            c = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return {(): c} if c else {}
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in t.children():
                for m, x in self.poly(c).items():
                    r[m] = r.get(m, 0) + x
            return {m: x for m, x in r.items() if x}
        if k == z3.Z3_OP_SUB:
            r = {}
            for i, c in enumerate(t.children()):
                for m, x in self.poly(c).items():
                    r[m] = r.get(m, 0) + (x if i == 0 else -x)
            return {m: x for m, x in r.items() if x}
        if k == z3.Z3_OP_UMINUS:
            return {m: -x for m, x in self.poly(t.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in t.children():
                q = self.poly(c)
                n = {}
                for m, x in r.items():
                    for m2, y in q.items():
                        key = tuple(sorted(m + m2))
                        n[key] = n.get(key, 0) + x * y
                r = {m: x for m, x in n.items() if x}
            return r
        if k == z3.Z3_OP_DIV and z3.is_rational_value(t.arg(1)) and t.arg(1).numerator_as_long() != 0:
            d = Fraction(t.arg(1).numerator_as_long(), t.arg(1).denominator_as_long())
            return {m: x / d for m, x in self.poly(t.arg(0)).items()}
        a = self.abs_children(t)
        self.atoms[a.get_id()] = a
        return {(a.get_id(),): Fraction(1)}

    def monovar(self, m):
        if len(m) == 1:
            return self.atoms[m[0]]
        v = self.mono.get(m)
        if v is None:
            v = z3.Real('mono!%d' % len(self.mono))
            self.mono[m] = v
            self.monos[v.get_id()] = m
            self.keep.append(v)
        return v

    def term(self, p):
        ts = []
        for m, c in sorted(p.items()):
            if not m:
                ts.append(z3.RealVal(str(c)))
                continue
            v = self.monovar(m)
            ts.append(v if c == 1 else z3.RealVal(str(c)) * v)
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def abs_children(self, t):
        n = t.num_args()
        if n == 0:
            return t
        ch = t.children()
        ca = [self.abs(c) for c in ch]
        if all(x is y or x.eq(y) for x, y in zip(ch, ca)):
            return t
        if z3.is_and(t):
            return z3.And(ca)
        if z3.is_or(t):
            return z3.Or(ca)
        return t.decl()(*ca)

    def abs(self, t):
        i = t.get_id()
        r = self.cache.get(i)
        if r is not None:
            return r
        if z3.is_app(t) and t.sort() == R and t.decl().kind() in ARITH:
            try:
                r = self.term(self.poly(t))
            except RecursionError:
                r = t
        else:
            r = self.abs_children(t) if z3.is_app(t) else t
        self.cache[i] = r
        self.keep.append(t)
        self.keep.append(r)
        return r

    def monos_in(self, fs):
        out = {}
        for f in fs:
            i = f.get_id()
            r = self.mcache.get(i)
            if r is None:
                r = self.mcache[i] = self.monos1(f)
                self.keep.append(f)
            out.update(r)
        return out

    def monos1(self, f):
        seen = set()
        out = {}
        st = [f]
        while st:
            t = st.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in self.monos:
                out[self.monos[i]] = t
            st.extend(t.children())
        return out

    def eqs_in(self, f):
        i = f.get_id()
        r = self.ecache.get(i)
        if r is None:
            r = self.ecache[i] = equalities([f])
            self.keep.append(f)
        return r


def equalities(fs):
    """real equalities that occur positively in the (abstracted) formulas"""
    out = []
    st = [(f, 0) for f in fs]
    seen = set()
    while st:
        f, d = st.pop()
        i = f.get_id()
        if i in seen or d > 5:
            continue
        seen.add(i)
        if z3.is_and(f):
            st.extend((c, d) for c in f.children())
        elif z3.is_or(f):
            st.extend((c, d + 1) for c in f.children())
        elif z3.is_implies(f):
            st.append((f.arg(1), d + 1))
        elif z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ITE:
            st.append((f.arg(1), d + 1))
            st.append((f.arg(2), d + 1))
        elif z3.is_eq(f):
            if f.arg(0).sort() == R:
                out.append(f)
            elif f.arg(0).sort() == z3.BoolSort():
                st.append((f.arg(0), d + 1))
                st.append((f.arg(1), d + 1))
    return out


class Prover:
    MAXDEG = 7

    def __init__(self, L):
        self.L = L

    def lpoly(self, t):
        """polynomial (over atom ids) of a linear abstracted term, monomial variables expanded"""
        L = self.L
        k = t.decl().kind()
        if z3.is_rational_value(t):
            c = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return {(): c} if c else {}
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in t.children():
                for m, x in self.lpoly(c).items():
                    r[m] = r.get(m, 0) + x
            return {m: x for m, x in r.items() if x}
        if k == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
            a = t.arg(0)
            c = Fraction(a.numerator_as_long(), a.denominator_as_long())
            return {m: c * x for m, x in self.lpoly(t.arg(1)).items()}
        i = t.get_id()
        if i in L.monos:
            return {L.monos[i]: Fraction(1)}
        L.atoms[i] = t
        return {(i,): Fraction(1)}

    def rules_of(self, f):
        out = []
        l, r = f.arg(0), f.arg(1)
        for x, y in ((l, r), (r, l)):
            px = self.lpoly(x)
            if len(px) != 1:
                continue
            (m, c), = px.items()
            if not m:
                continue
            py = self.lpoly(y)
            if len(py) > 5:
                continue
            out.append((m, {k: v / c for k, v in py.items()}, f))
        return out

    def check(self, fs, neg, ms, rounds=60):
        """fs, neg: formulas; unsat of the conjunction?"""
        import time
        t0 = time.time()
        L = self.L
        qs = [L.abs(f) for f in fs]
        ng = L.abs(neg)
        s = z3.Solver()
        s.set('timeout', int(ms))
        s.set('random_seed', 1)
        for q in qs:
            s.add(q)
        s.add(ng)
        rules = []
        seen = set()
        for q in qs:
            for f in L.eqs_in(q):
                i = f.get_id()
                if i in seen:
                    continue
                seen.add(i)
                rs = L.rcache.get(i)
                if rs is None:
                    rs = L.rcache[i] = self.rules_of(f)
                rules.extend(rs)
        byatom = {}
        for r in rules:
            byatom.setdefault(r[0][0], []).append(r)
        known = dict.fromkeys(L.monos_in(qs), 9)
        # how far a product is from the goal
        lvl = {}
        front = set()
        holding = {}
        for m in known:
            for k in set(m):
                holding.setdefault(k, []).append(m)
        st = [ng]
        while st:
            t = st.pop()
            if z3.is_app(t) and t.num_args() == 2 and t.arg(0).sort() == R and t.sort() == z3.BoolSort():
                for x in t.children():
                    front |= set(self.lpoly(x))
            elif t.sort() == z3.BoolSort():
                st.extend(t.children())
        for d in range(4):
            for m in front:
                lvl.setdefault(m, d)
            nxt = set()
            for m in front:
                if not m:
                    continue
                for lhs, rhs, f in byatom.get(m[0], ()):
                    if lhs == m:
                        nxt |= set(rhs)
                if len(m) == 1:
                    nxt |= set(holding.get(m[0], ()))
            front = nxt - set(lvl)
        for m, d in lvl.items():
            if len(m) > 1:
                known[m] = d
        done = set()
        insts_of = {}
        self.nrounds = 0
        self.ninst = 0
        r = s.check()
        while r == z3.sat and self.nrounds < rounds and (time.time() - t0) * 1000 < ms:
            self.nrounds += 1
            mod = s.model()
            vc = {}

            def val(t):
                i = t.get_id()
                v = vc.get(i)
                if v is None:
                    e = mod.eval(t, model_completion=True)
                    v = Fraction(e.numerator_as_long(), e.denominator_as_long()) if z3.is_rational_value(e) else None
                    vc[i] = v
                return v

            def mval(m):
                if not m:
                    return Fraction(1)
                return val(L.monovar(m))
            hold = {}

            def holds(f):
                i = f.get_id()
                if i not in hold:
                    hold[i] = z3.is_true(mod.eval(f, model_completion=True))
                return hold[i]
            viol, fresh = [], []
            for m in list(known):
                if m not in insts_of:
                    insts_of[m] = self.instances_of(m, byatom)
                dep = known[m]
                for ins in insts_of[m]:
                    lhs, f, p2, big = ins
                    if (m, lhs, f.get_id()) in done or not holds(f):
                        continue
                    if all(q in known for q in big):
                        if mval(m) != sum((c * mval(q) for q, c in p2.items()), Fraction(0)):
                            viol.append((dep, len(viol), m, lhs, f, p2))
                    elif dep < 6 or all(len(q) < len(m) for q in p2):
                        fresh.append((dep + sum(len(q) > len(m) for q in p2), len(fresh), m, lhs, f, p2))
            insts = []
            viol.sort(key=lambda z: z[:2])
            for dep, _, m, lhs, f, p2 in viol[:40]:
                for q in p2:
                    if len(q) >= 2:
                        known[q] = min(known[q], dep + 1)
                done.add((m, lhs, f.get_id()))
                insts.append(z3.Implies(f, L.monovar(m) == L.term(p2)))
            # monomials that differ in one factor
            if not insts:
                groups = {}
                for m in known:
                    for k in set(m):
                        rest = list(m)
                        rest.remove(k)
                        groups.setdefault(tuple(rest), []).append((k, m))
                for rest, l in groups.items():
                    if len(l) < 2:
                        continue
                    for i in range(len(l)):
                        for j in range(i + 1, len(l)):
                            x, y = l[i], l[j]
                            if x[0] == y[0]:
                                continue
                            if val(L.atoms[x[0]]) == val(L.atoms[y[0]]) and mval(x[1]) != mval(y[1]):
                                insts.append(z3.Implies(L.atoms[x[0]] == L.atoms[y[0]], L.monovar(x[1]) == L.monovar(y[1])))
                insts = insts[:60]
            if not insts:
                # zero and sign of products
                extra = []
                for m in known:
                    fvs = [val(L.atoms[k]) for k in m]
                    if any(v is None for v in fvs):
                        continue
                    v = L.monovar(m)
                    mv = val(v)
                    if mv is None:
                        continue
                    xs = [L.atoms[k] for k in m]
                    if any(x == 0 for x in fvs):
                        if mv != 0:
                            insts.append(z3.Implies(z3.Or([x == 0 for x in xs]), v == 0))
                    elif mv == 0:
                        insts.append(z3.Implies(v == 0, z3.Or([x == 0 for x in xs])))
                    else:
                        neg = 1
                        for x in fvs:
                            if x < 0:
                                neg = -neg
                        if (mv > 0) != (neg > 0):
                            insts.append(z3.Implies(z3.And([(x > 0) if y > 0 else (x < 0) for x, y in zip(xs, fvs)]), (v > 0) if neg > 0 else (v < 0)))
                        # unit factors
                        for k, y in zip(m, fvs):
                            if y in (1, -1):
                                rest = list(m)
                                rest.remove(k)
                                w = self.L.monovar(tuple(rest))
                                if len(rest) > 1:
                                    extra.append((tuple(rest), known[m]))
                                if mv != y * val(w):
                                    insts.append(z3.Implies(L.atoms[k] == int(y), v == (w if y == 1 else -w)))
                for m, d in extra:
                    known.setdefault(m, d)
            if not insts:
                fresh.sort(key=lambda z: z[:2])
                for dep, _, m, lhs, f, p2 in fresh[:50]:
                    done.add((m, lhs, f.get_id()))
                    insts.append(z3.Implies(f, L.monovar(m) == L.term(p2)))
                    for q in p2:
                        if len(q) >= 2 and q not in known:
                            known[q] = dep + 1
            if not insts:
                break
            self.ninst += len(insts)
            for i in insts:
                s.add(i)
            r = s.check()
        self.model = s.model() if r == z3.sat else None
        return r

    def instances_of(self, m, byatom):
        out = []
        for k in set(m):
            for lhs, rhs, f in byatom.get(k, ()):
                if len(lhs) >= len(m):
                    continue
                rest = list(m)
                try:
                    for x in lhs:
                        rest.remove(x)
                except ValueError:
                    continue
                rest = tuple(rest)
                p2 = {}
                for q, c in rhs.items():
                    key = tuple(sorted(q + rest))
                    p2[key] = p2.get(key, 0) + c
                if any(len(q) > self.MAXDEG for q in p2) or (len(p2) == 1 and m in p2):
                    continue
                out.append((lhs, f, p2, [q for q in p2 if len(q) > 1]))
        return out
