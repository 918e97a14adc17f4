"""Instances of  x == e  ==>  M == M[x := e]  for the products M of a query.

Every instance is a tautology of the reals; they let the linear solver see through products of terms that
are known to be equal to other terms."""
import z3

R = z3.RealSort()


class Poly:
    """polynomials over z3 real terms as atoms: dict from sorted id tuples to coefficients"""
    def __init__(self):
        self.atoms = {}

    const = None      # known value of an atom
    used = False

    def atom(self, t):
        if self.const is not None:
            c = self.const(t)
            if c is not None:
                self.used = True
                return {(): c} if c else {}
        self.atoms[t.get_id()] = t
        return {(t.get_id(),): 1}

    def of(self, t, depth=0):
        if z3.is_rational_value(t):
            from fractions import Fraction
            c = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return {(): c} if c else {}
        if z3.is_app(t) and depth < 40:
            k = t.decl().kind()
            if k == z3.Z3_OP_ADD:
                r = {}
                for c in t.children():
                    r = self.add(r, self.of(c, depth + 1))
                return r
            if k == z3.Z3_OP_SUB:
                ch = t.children()
                r = self.of(ch[0], depth + 1)
                for c in ch[1:]:
                    r = self.add(r, self.scale(self.of(c, depth + 1), -1))
                return r
            if k == z3.Z3_OP_UMINUS:
                return self.scale(self.of(t.arg(0), depth + 1), -1)
            if k == z3.Z3_OP_MUL:
                r = {(): 1}
                for c in t.children():
                    r = self.mul(r, self.of(c, depth + 1))
                    if len(r) > 30:
                        return self.atom(t)
                return r
            if k == z3.Z3_OP_DIV and z3.is_rational_value(t.arg(1)) and not z3.is_eq(t):
                d = self.of(t.arg(1))
                if d:
                    return self.scale(self.of(t.arg(0), depth + 1), 1 / d[()])
        return self.atom(t)

    def add(self, a, b):
        r = dict(a)
        for m, c in b.items():
            x = r.get(m, 0) + c
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return r

    def scale(self, a, k):
        return {m: c * k for m, c in a.items()}

    def mul(self, a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = tuple(sorted(m + n))
                x = r.get(k, 0) + c * d
                if x:
                    r[k] = x
                else:
                    r.pop(k, None)
        return r

    def term(self, p):
        ts = []
        for m, c in sorted(p.items(), key=lambda x: x[0]):
            fs = [self.atoms[i] for i in m]
            cc = z3.RealVal(str(c))
            t = cc if not fs else fs[0] if len(fs) == 1 else z3.Product(*fs)
            if fs and c != 1:
                t = cc * t
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)


def equalities(fs):
    """real equalities occurring positively (as facts or consequents)"""
    out = []
    st = [(f, 0) for f in fs]
    seen = set()
    while st:
        f, d = st.pop()
        if f.get_id() in seen or d > 4:
            continue
        seen.add(f.get_id())
        if z3.is_and(f):
            st.extend((c, d) for c in f.children())
        elif z3.is_or(f):
            st.extend((c, d + 1) for c in f.children())
        elif z3.is_implies(f):
            st.append((f.arg(1), d + 1))
        elif z3.is_eq(f) and f.arg(0).sort() == R:
            out.append((f, d))
    return out


def is_atom(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED


def instances(fs, goal, limit=160, maxdeg=6):
    P = Poly()
    eqs = equalities(fs)
    rules = {}
    start = {}

    def note(p):
        for m in p:
            if len(m) >= 2:
                start[m] = 0
    gs = [goal]
    while gs:
        g = gs.pop()
        if z3.is_eq(g) and g.arg(0).sort() == R:
            note(P.of(g.arg(0)))
            note(P.of(g.arg(1)))
        elif z3.is_app(g) and (z3.is_and(g) or z3.is_or(g) or z3.is_implies(g) or z3.is_not(g)):
            gs.extend(g.children())
        elif z3.is_app(g) and g.num_args() == 2 and g.arg(0).sort() == R:
            note(P.of(g.arg(0)))
            note(P.of(g.arg(1)))
    for f, d in eqs:
        l, r = f.arg(0), f.arg(1)
        for x, y in ((l, r), (r, l)):
            if is_atom(x):
                rules.setdefault(x.get_id(), []).append((f, y, d))
                P.atoms[x.get_id()] = x
        if d == 0:
            note(P.of(l))
            note(P.of(r))
    out = []
    done = set()
    queue = [(m, 0) for m in start if len(m) <= maxdeg]
    # also: an atom equal to a product is rewritten inside products only; products of the goal first
    while queue and len(out) < limit:
        m, dep = queue.pop(0)
        if dep > 3:
            continue
        for i in sorted(set(m)):
            for f, y, d in sorted(rules.get(i, []), key=lambda r: r[2])[:6]:
                if (m, f.get_id()) in done:
                    continue
                done.add((m, f.get_id()))
                rest = list(m)
                rest.remove(i)
                py = P.of(y)
                if len(py) > 4:
                    continue
                p2 = P.mul(py, {tuple(rest): 1})
                if any(len(k) > maxdeg for k in p2):
                    continue
                if p2 == {m: 1}:
                    continue
                out.append(z3.Implies(f, P.term({m: 1}) == P.term(p2)))
                for k in p2:
                    if len(k) >= 2:
                        queue.append((k, dep + 1))
                if len(out) >= limit:
                    break
    return out
