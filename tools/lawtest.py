"""lawtest.py DUMP FUNCTION CLAUSE [SECS]: evaluates the instances of the laws of the reals that a proof uses at random points.
Development aid: an instance that is false somewhere is a mistake of the generator (mirvc/sem.py)."""
import sys, os, math, random, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'mirvc'))
from fractions import Fraction as F
import z3
import run1

POOL = [F(0), F(1), F(-1), F(2), F(-2), F(3), F(1, 2), F(-1, 2), F(3, 2), F(-3), F(1, 3)]


class Nope(Exception):
    pass


def rpow(b, e):
    if e == 0:
        return F(1)
    if isinstance(e, F) and e.denominator == 1 and abs(e) < 20:
        if b == 0:
            return F(0)
        return b ** int(e)
    if b == 0:
        return F(0)
    if b < 0:
        raise Nope
    try:
        r = float(b) ** float(e)
        if r == 0:
            raise Nope
        return r
    except OverflowError:
        raise Nope


def isz(x):
    if isinstance(x, F):
        return x.denominator == 1
    if abs(x - round(x)) < 1e-7:
        raise Nope
    return False


def close(a, b):
    if isinstance(a, F) and isinstance(b, F):
        return a == b
    return abs(a - b) <= 1e-7 * max(1, abs(a), abs(b))


ONE = dict(sin=math.sin, cos=math.cos, tan=math.tan, sec=lambda x: 1 / math.cos(x), cot=lambda x: math.cos(x) / math.sin(x), csc=lambda x: 1 / math.sin(x))


class Ev:
    def __init__(self, rnd):
        self.v, self.rnd = {}, rnd

    def leaf(self, t):
        k = t.get_id()
        if k not in self.v:
            if t.sort() == z3.RealSort():
                self.v[k] = F('2.718281828459045') if str(t) == 'const_e' else F('3.141592653589793') if str(t) == 'const_pi' else self.rnd.choice(POOL)
                if str(t) in ('const_e', 'const_pi'):
                    self.v[k] = float(self.v[k])
            elif t.sort() == z3.BoolSort():
                self.v[k] = self.rnd.random() < .8
            elif t.sort() == z3.IntSort():
                self.v[k] = F(self.rnd.randint(0, 5))
            else:
                raise Nope
        return self.v[k]

    def isleaf(self, t):
        return z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_ACCESSOR) and t.decl().name() not in ONE and t.decl().name() not in ('pw', 'isZ', 'ln')

    def ev(self, t):
        d = t.decl()
        k, n = d.kind(), d.name()
        E = self.ev
        if z3.is_rational_value(t):
            return F(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_int_value(t):
            return F(t.as_long())
        if z3.is_true(t) or z3.is_false(t):
            return z3.is_true(t)
        if k == z3.Z3_OP_ADD:
            return sum((E(c) for c in t.children()), F(0))
        if k == z3.Z3_OP_SUB:
            r = E(t.arg(0))
            for c in t.children()[1:]:
                r = r - E(c)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -E(t.arg(0))
        if k == z3.Z3_OP_MUL:
            r = F(1)
            for c in t.children():
                r = r * E(c)
            return r
        if k == z3.Z3_OP_DIV:
            a, b = E(t.arg(0)), E(t.arg(1))
            if b == 0:
                raise Nope
            return a / b
        if k == z3.Z3_OP_TO_REAL:
            return E(t.arg(0))
        if k == z3.Z3_OP_ITE:
            return E(t.arg(1)) if E(t.arg(0)) else E(t.arg(2))
        if k == z3.Z3_OP_AND:
            return all([E(c) for c in t.children()])
        if k == z3.Z3_OP_OR:
            return any([E(c) for c in t.children()])
        if k == z3.Z3_OP_NOT:
            return not E(t.arg(0))
        if k == z3.Z3_OP_IMPLIES:
            return (not E(t.arg(0))) or E(t.arg(1))
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = E(t.arg(0)), E(t.arg(1))
            if a != b and close(a, b):
                raise Nope
            return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b}[k]
        if k == z3.Z3_OP_EQ:
            a, b = t.arg(0), t.arg(1)
            if a.sort() == z3.BoolSort():
                return E(a) == E(b)
            if a.sort() not in (z3.RealSort(), z3.IntSort()):
                raise Nope
            return close(E(a), E(b))
        if k == z3.Z3_OP_DISTINCT:
            a, b = E(t.arg(0)), E(t.arg(1))
            if a != b and close(a, b):
                raise Nope
            return a != b
        if n == 'pw':
            return rpow(E(t.arg(0)), E(t.arg(1)))
        if n == 'isZ':
            return isz(E(t.arg(0)))
        if n == 'ln':
            x = E(t.arg(0))
            if x <= 0:
                raise Nope
            return math.log(x)
        if n in ONE:
            x = E(t.arg(0))
            if x == 0 and n in ('sin', 'cos', 'tan', 'sec'):
                return F(1) if n in ('cos', 'sec') else F(0)
            if x == 0:
                raise Nope
            return ONE[n](float(x))
        return self.leaf(t)

    def force(self, p):
        """choose values such that the equalities of a premise hold"""
        if z3.is_and(p):
            for c in p.children():
                self.force(c)
        elif z3.is_eq(p) and p.arg(0).sort() == z3.RealSort():
            a, b = p.arg(0), p.arg(1)
            for x, y in ((a, b), (b, a)):
                if self.isleaf(x) and x.get_id() not in self.v:
                    self.v[x.get_id()] = self.ev(y)
                    return


rnd = random.Random(int(os.environ.get('SEED', '1')))
stat = dict(instances=0, true=0, vacuous=0, unknown=0)
seen = set()
keep = []


def test(f):
    if f.get_id() in seen:
        return
    seen.add(f.get_id())
    keep.append(f)
    stat['instances'] += 1
    hit = 0
    for _ in range(60):
        e = Ev(rnd)
        try:
            if z3.is_implies(f):
                e.force(f.arg(0))
                if not e.ev(f.arg(0)):
                    continue
                ok = e.ev(f.arg(1))
            else:
                ok = e.ev(f)
        except (Nope, ZeroDivisionError, OverflowError):
            continue
        hit += 1
        if not ok:
            print('FALSE', str(f)[:1500], [str(x) for x in e.v.values()])
            stat['false'] = stat.get('false', 0) + 1
            return
        if hit > 8:
            break
    stat['true' if hit else 'vacuous'] += 1
    if not hit and stat['vacuous'] < 4:
        print('never applied:', str(f).replace('\n', ' ')[:300])


dump, name, cl = sys.argv[1:4]
e = run1.mk(dump, max_secs=float(sys.argv[4]) if len(sys.argv) > 4 else 60)
S = e.th if hasattr(e, 'th') else e.S
old = type(S).laws


def laws(self, pc, goal):
    out = old(self, pc, goal)
    for f in out:
        test(f)
    return out


S.lawgens = [laws if g is old or getattr(g, '__name__', '') == 'laws' else g for g in S.lawgens]
c = e.contracts.get(name)
for f in e.p.by_norm[name][:1]:
    r = e.verify(f, [x for x in c.clauses if x.id == cl], cl)
    print(name, cl, len(r['obligations']), r['error'])
print(stat)
