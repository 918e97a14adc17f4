"""Path-splitting symbolic execution of MIR with function contracts and loop invariants found by Houdini.

Every path obligation is handed to Z3.  Values:
  z3 terms                   scalars, local ADTs, symbolic sequences
  Agg(ty,variant,fields)     structured values of any type (Option, tuples, ...)
  Lst(elems)                 sequences/arrays of known length
  MutRef(cell,path)          &mut T / *mut T
  Clo(def,inst,upvars)       closures
  FnV(inst,name)             function items / pointers
  It(kind,...)               iterators
"""
import z3, sys, time, hashlib, re
z3.z3.Z3_DEBUG = False
from prog import Prog, Unsupported, norm, TRANSPARENT_STD, MAP as prog_MAP
import theory

sys.setrecursionlimit(100000)


class PathEnd(Exception):
    """this path stops here (panic, infeasible, loop iteration closed)"""
    def __init__(self, why):
        self.why = why


class Budget(Exception):
    pass


class Agg:
    __slots__ = ('ty', 'var', 'fields')

    def __init__(self, ty, var, fields):
        self.ty, self.var, self.fields = ty, var, tuple(fields)

    def __repr__(self):
        return 'Agg(%s#%s,%r)' % (self.ty, self.var, self.fields)


class Lst:
    __slots__ = ('ety', 'e')

    def __init__(self, ety, e):
        self.ety, self.e = ety, tuple(e)

    def __repr__(self):
        return 'Lst%r' % (self.e,)


class MutRef:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __repr__(self):
        return 'MutRef(%s,%s)' % (self.cell, self.path)


class Clo:
    __slots__ = ('ty', 'name', 'inst', 'up')

    def __init__(self, ty, name, inst, up):
        self.ty, self.name, self.inst, self.up = ty, name, inst, tuple(up)

    def __repr__(self):
        return 'Clo(%s)' % self.name


class FnV:
    __slots__ = ('inst', 'name')

    def __init__(self, inst, name):
        self.inst, self.name = inst, name

    def __repr__(self):
        return 'FnV(%s)' % self.name


class It:
    """iterator; kind + dict of immutable fields"""
    __slots__ = ('kind', 'f')

    def __init__(self, kind, **f):
        self.kind, self.f = kind, f

    def set(self, **kw):
        g = dict(self.f)
        g.update(kw)
        return It(self.kind, **g)

    def __getattr__(self, n):
        if n in ('kind', 'f'):
            raise AttributeError(n)
        try:
            return self.f[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return 'It(%s)' % self.kind


class Opq:
    """opaque value we only pass around (formatters, PhantomData ...)"""
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Opq(%s)' % (self.tag,)


UNIT = Agg(None, 0, ())
UNINIT = None


def is_z(v):
    return isinstance(v, z3.ExprRef)


def z_true(v):
    return z3.is_true(v)


class Run:
    """decision record of one exploration tree (depth first by re-execution)"""
    def __init__(self):
        self.dec = []      # [chosen index in alts, alts(list of labels)]
        self.pos = 0
        self.shard = None  # (i, n, depth): only the paths whose first choices belong to part i of n

    def mine(self):
        """called right after a choice was made"""
        if self.shard is None or self.pos != self.shard[2]:
            return True
        h = 0
        for x in self.key():
            h = (h * 1000003 + x + 7) % 2147483647
        return (h * 48271 % 2147483647) % self.shard[1] == self.shard[0]

    def reset(self):
        self.pos = 0

    def next_path(self):
        while self.dec:
            i, alts = self.dec[-1]
            if i + 1 < len(alts):
                self.dec[-1] = (i + 1, alts)
                return True
            self.dec.pop()
        return False

    def key(self):
        return tuple(a[i] for i, a in self.dec[:self.pos])


class Frame:
    __slots__ = ('fn', 'cells', 'active', 'name')

    def __init__(self, fn, cells):
        self.fn = fn
        self.cells = cells
        self.active = {}   # loop header -> 'inv' | 'unroll'
        self.name = fn['norm']


class Obl:
    def __init__(self, fn, clause, what, line, ok, t, status, detail=None):
        self.fn, self.clause, self.what, self.line, self.ok, self.t, self.status, self.detail = fn, clause, what, line, ok, t, status, detail

    def d(self):
        return dict(function=self.fn, clause=self.clause, what=self.what, line=self.line, ok=self.ok, secs=round(self.t, 3), status=self.status, detail=self.detail)


class Engine:
    def __init__(self, prog, theory, contracts, opts=None):
        self.p = prog
        self.th = theory
        self.contracts = contracts
        self.opts = dict(solver_ms=8000, feas_ms=1000, houd_ms=1500, max_paths=6000, max_secs=240, depth=80)
        self.opts.update(opts or {})
        self.trusted = set()
        self.inlined = set()
        self.used_contracts = {}
        self.stats = dict(queries=0, solver_secs=0.0, feas=0, paths=0, houdini=0)
        import intrinsics
        self.intr = intrinsics.Intrinsics(self)
        theory.bind(self)

    # ------------------------------------------------------------------ state
    def fresh_state(self):
        self.cells = {}
        self.ncell = 0
        self.nfresh = 0
        self.tdivs = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.opts['feas_ms'])
        self.solver.set('random_seed', 1)
        self.pc = []
        self.pctag = []
        self.pcset = set()
        self.th.reset()
        self.trace = []
        self.run = Run()
        self.depth = 0
        self.prefix = ()
        self.callstack = []

    def snapshot(self):
        return (dict(self.cells), self.ncell, self.nfresh, len(self.pc), self.th.snapshot(), self.depth, list(self.callstack))

    def restore(self, s):
        self.cells = dict(s[0])
        self.ncell = s[1]
        self.nfresh = s[2]
        for c in self.pc[s[3]:]:
            self.pcset.discard(c.get_id())
        del self.pc[s[3]:]
        del self.pctag[s[3]:]
        self.th.restore(s[4])
        self.depth = s[5]
        self.callstack = list(s[6])

    def new_cell(self, v):
        self.ncell += 1
        self.cells[self.ncell] = v
        return self.ncell

    def fresh(self, sort, hint='v'):
        self.nfresh += 1
        return z3.Const('%s!%d' % (hint, self.nfresh), sort)

    def assume(self, c, tag=None):
        """tag: the measure this fact is about (None: always relevant); facts about measures that nothing else
        mentions are left out of proofs, and facts about non-boolean measures out of feasibility checks"""
        if c is True or z3.is_true(c):
            return
        if z3.is_and(c):
            for x in c.children():
                self.assume(x, tag)
            return
        i = c.get_id()
        if i in self.pcset:
            return
        self.pcset.add(i)
        self.pc.append(c)
        self.pctag.append(tag)
        if tag is None or tag.op in '&|':
            self.solver.add(c)

    def assume_all(self, facts):
        """facts: (formula, tag) pairs already flattened"""
        for c, tag in facts:
            i = c.get_id()
            if i in self.pcset:
                continue
            self.pcset.add(i)
            self.pc.append(c)
            self.pctag.append(tag)
            if tag is None or tag.op in '&|':
                self.solver.add(c)

    def feasible(self, c):
        self.stats['feas'] += 1
        t = time.time()
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        self.stats['solver_secs'] += time.time() - t
        return r != z3.unsat

    def choose(self, opts):
        """opts: list of (label, constraint).  Returns the index taken; asserts its constraint."""
        if time.time() > self.deadline:
            raise Budget('time budget exceeded')
        cs = []
        for lab, c in opts:
            c = z3.simplify(c) if is_z(c) else z3.BoolVal(bool(c))
            if z3.is_true(c):
                # decided
                return [l for l, _ in opts].index(lab)
            cs.append(c)
        live = [i for i, c in enumerate(cs) if not z3.is_false(c)]
        if not live:
            raise PathEnd('infeasible')
        run = self.run
        if run.pos < len(run.dec):
            i, alts = run.dec[run.pos]
            run.pos += 1
            k = alts[i]
            self.assume(cs[k])
            if not run.mine():
                raise PathEnd('other part')
            return k
        if len(live) > 1:
            feas = [i for i in live if self.feasible(cs[i])]
        else:
            feas = live if self.feasible(cs[live[0]]) else []
        if not feas:
            raise PathEnd('infeasible')
        run.dec.append((0, feas))
        run.pos += 1
        k = feas[0]
        self.assume(cs[k])
        if not run.mine():
            raise PathEnd('other part')
        return k

    def branch(self, c):
        """fork on a boolean; True/False"""
        if not is_z(c):
            return bool(c)
        return self.choose([('t', c), ('f', z3.Not(c))]) == 0

    # ------------------------------------------------------------------ proving
    def relevant(self, goal):
        """the path condition without the facts about measures that nothing relevant mentions"""
        names = set()
        tags = {}
        out = []
        for c, t in zip(self.pc, self.pctag):
            if t is None:
                out.append(c)
                names |= self.symbols(c)
            else:
                tags.setdefault(t.name, (t, []))[1].append(c)
        names |= self.symbols(goal)
        while True:
            new = [n for n in tags if n in names or n + '_pre' in names or n + '_rest' in names]
            if not new:
                return out
            for n in new:
                for c in tags.pop(n)[1]:
                    out.append(c)
                    names |= self.symbols(c)

    def symbols(self, f):
        return theory.sub1(f).keys()

    def prove(self, goal, ms=None):
        """(status, model or None); status in proved / failed / unknown"""
        ms = ms or self.opts['solver_ms']
        g = z3.simplify(goal)
        if z3.is_true(g):
            return 'proved', None
        t = time.time()
        self.stats['queries'] += 1
        r = z3.unknown
        model = None
        try:
            r, model = self.th.check(self.relevant(goal), goal, ms)
        finally:
            self.stats['solver_secs'] += time.time() - t
        if r == z3.unsat:
            return 'proved', None
        return ('failed' if r == z3.sat else 'unknown'), model

    # ------------------------------------------------------------------ values
    def ze(self, v, ty):
        """value -> z3 term of the type's sort"""
        if is_z(v):
            return v
        if isinstance(v, Lst):
            st = self.p.st(ty)
            if st['k'] == 'array':
                info = self._info(ty)
                r = info['variants'][0]['ctor'](*[self.ze(x, st['elem']) for x in v.e])
                return r
            ety = self.elem_ty(ty)
            return self.th.mkseq(self.p.sort(ty), [self.ze(x, ety) for x in v.e])
        if isinstance(v, Agg):
            info = self._info(ty)
            vi = info['variants'][v.var]
            r = vi['ctor'](*[self.ze(v.fields[i], vi['fields'][i]) for i in vi['nz']])
            self.th.made(r, v.var, info)
            return r
        if isinstance(v, MutRef):
            return self.ze(self.read(v), ty)
        raise Unsupported('value %r of type %s has no term' % (v, self.p.t(ty)['name']))

    def _info(self, ty):
        s = self.p.sort(ty)
        i = self.p.dtinfo(s)
        if i is None:
            raise Unsupported('no datatype for %s' % self.p.t(ty)['name'])
        return i

    def elem_ty(self, ty):
        t = self.p.st(ty)
        if t['k'] in ('slice', 'array'):
            return t['elem']
        if t['k'] == 'adt' and t['def'] == prog_MAP:
            return self.th.ety(self.p.key(ty))
        if t['k'] == 'adt' and t['args']:
            return t['args'][0]
        if t['k'] == 'ref' and t['mut']:
            return self.elem_ty(t['to'])
        raise Unsupported('element type of %s' % t['name'])

    def fresh_of(self, ty, hint='v'):
        t = self.p.st(ty)
        k = t['k']
        if k == 'tuple':
            return Agg(ty, 0, [self.fresh_of(e, hint) for e in t['elems']])
        if k == 'never':
            raise PathEnd('never')
        if k == 'adt' and t['def'].startswith('core::') and t['akind'] == 'Enum' and not self.p.is_rational(t):
            vs = t['variants']
            live = [i for i in range(len(vs)) if not any(self.p.st(f[1])['k'] == 'never' for f in vs[i]['fields'])]
            i = live[self.choose([(str(i), self.fresh(z3.BoolSort(), 'vsel')) for i in live])] if len(live) > 1 else live[0]
            return Agg(ty, i, [self.fresh_of(f[1], hint) for f in vs[i]['fields']])
        if k == 'adt' and t['akind'] == 'Struct' and not self.p.has_sort(ty):
            return Agg(ty, 0, [self.fresh_of(f[1], hint) for f in t['variants'][0]['fields']])
        if k == 'ref' and t['mut']:
            return MutRef(self.new_cell(self.fresh_of(t['to'], hint)))
        if k == 'closure' and not self.p.is_zst(ty):
            return Clo(ty, t['def'], t['inst'], [self.fresh_of(e, hint) for e in self.p.st(t['upvars'])['elems']])
        if self.p.is_zst(ty):
            return self.zst(ty)
        if k == 'array':
            return Lst(t['elem'], [self.fresh_of(t['elem'], hint) for _ in range(t['len'])])
        v = self.fresh(self.p.sort(ty), hint)
        self.seen(v, ty)
        return v

    def pure_of(self, ty, name, args):
        """result of a deterministic function as an application of an uninterpreted function"""
        t = self.p.st(ty)
        k = t['k']
        if k == 'tuple':
            return Agg(ty, 0, [self.pure_of(e, '%s.%d' % (name, i), args) for i, e in enumerate(t['elems'])])
        if k == 'adt' and t['def'].startswith('core::') and t['akind'] == 'Enum' and not self.p.is_rational(t):
            vs = t['variants']
            live = [i for i in range(len(vs)) if not any(self.p.st(f[1])['k'] == 'never' for f in vs[i]['fields'])]
            tag = self.th.fun(name + '?', *([a.sort() for a in args] + [z3.IntSort()]))(*args)
            i = live[self.choose([(str(i), tag == i) for i in live])] if len(live) > 1 else live[0]
            return Agg(ty, i, [self.pure_of(f[1], '%s!%d.%d' % (name, i, j), args) for j, f in enumerate(vs[i]['fields'])])
        if k == 'adt' and t['akind'] == 'Struct' and not self.p.has_sort(ty):
            return Agg(ty, 0, [self.pure_of(f[1], '%s.%d' % (name, j), args) for j, f in enumerate(t['variants'][0]['fields'])])
        if (k == 'ref' and t['mut']) or k == 'never':
            return self.fresh_of(ty)
        if self.p.is_zst(ty):
            return self.zst(ty)
        if k == 'array':
            return Lst(t['elem'], [self.pure_of(t['elem'], '%s.%d' % (name, j), args) for j in range(t['len'])])
        v = self.th.fun(name, *([a.sort() for a in args] + [self.p.sort(ty)]))(*args)
        self.seen(v, ty)
        return v

    def seen(self, v, ty):
        """facts every value of the type satisfies"""
        t = self.p.st(ty)
        if t['k'] == 'int':
            lo, hi = self.int_range(t)
            self.assume(z3.And(v >= lo, v <= hi))
        elif t['k'] == 'char':
            self.assume(z3.And(v >= 0, v <= 0x10FFFF))
        elif is_z(v):
            self.th.mention(v)

    def int_range(self, t):
        b = t['bits']
        if t['signed']:
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1

    def zst(self, ty):
        t = self.p.t(ty)
        if t['k'] == 'fndef':
            return FnV(t.get('inst'), t['decl'])
        if t['k'] == 'closure':
            return Clo(ty, t['def'], t['inst'], ())
        if t['k'] == 'adt' and t['akind'] == 'Enum':
            return Agg(ty, 0, ())
        if t['k'] == 'array':
            return Lst(t['elem'], ())
        if t['k'] == 'ref':
            return self.zst(t['to'])
        i = None
        return Agg(ty, 0, [self.zst(f[1]) for f in t['variants'][0]['fields']] if t['k'] == 'adt' else [])

    def const(self, c):
        k = c['k']
        if k == 'bool':
            return z3.BoolVal(bool(c['v']))
        if k in ('int', 'char'):
            return z3.IntVal(c['v'])
        if k == 'float':
            return z3.Const('f64_%s' % c['bits'], self.p.F64)
        if k == 'str':
            return self.th.str_const(c['v'])
        if k == 'zst':
            return self.zst(c['ty'])
        if k == 'ref':
            return self.const(c['to'])
        if k == 'fn':
            return FnV(c['inst'], None)
        if k == 'agg':
            ty = c['ty']
            t = self.p.t(ty)
            if self.p.is_rational(t):
                f = c['fields']
                while 'v' not in f[0]:
                    f = f[0]['fields']
                return z3.RealVal(f[0]['v']) / z3.RealVal(f[1]['v']) if f[1]['v'] != 1 else z3.RealVal(f[0]['v'])
            return self.mkagg(ty, c['variant'] or 0, [self.const(x) for x in c['fields']])
        if k in ('array', 'slice'):
            t = self.p.t(c['ty'])
            return Lst(t.get('elem'), [self.const(x) for x in c['elems']])
        if k == 'static':
            return Opq(('static', c['name']))
        raise Unsupported('constant %s' % (k,))

    def mkagg(self, ty, variant, fields):
        t = self.p.t(ty)
        if t['k'] == 'adt':
            nf = self.p.newtype_field(t)
            if t['def'] in ('alloc::rcs::rc::Rc', 'alloc::boxed::Box'):
                return fields[0]
            if self.p.is_rational(t):
                if t['def'].endswith('Rational'):
                    return fields[0]
                raise Unsupported('Ratio built from parts at expression level')
            if nf is not None:
                return fields[nf]
            if t['def'].startswith('calcu_rs') and self.p.has_sort(ty):
                v = Agg(ty, variant, fields)
                return self.ze(v, ty)
            return Agg(ty, variant, fields)
        if t['k'] == 'tuple':
            return Agg(ty, 0, fields)
        raise Unsupported('aggregate of %s' % t['name'])

    # ---- paths: elements ('f', i, ty-of-container, variant) / ('i', idx) / ('sub', lo, hi)
    def proj_get(self, v, el):
        if el[0] == 'f':
            _, i, cty, var = el
            if isinstance(v, Agg):
                if var is not None and v.var != var:
                    raise PathEnd('downcast mismatch')
                return v.fields[i]
            if isinstance(v, It):
                raise Unsupported('field of iterator')
            if isinstance(v, Clo):
                return v.up[i]
            if is_z(v):
                info = self.p.dtinfo(v.sort())
                if info is None:
                    raise Unsupported('field %d of %s' % (i, v.sort()))
                vi = info['variants'][var or 0]
                fty = vi['fields'][i]
                if i not in vi['acc']:
                    return self.zst(fty)
                r = z3.simplify(vi['acc'][i](v))
                self.seen(r, fty)
                return self.view(r, fty)
            raise Unsupported('field of %r' % (v,))
        if el[0] == 'i':
            return self.nth(v, el[1])
        if el[0] == 'sub':
            return self.subseq(v, el[1], el[2])
        raise Unsupported('projection %s' % el[0])

    def view(self, r, ty):
        """arrays read out of datatypes become lists of their elements"""
        t = self.p.st(ty)
        if t['k'] == 'array' and is_z(r):
            info = self.p.dtinfo(r.sort())
            vi = info['variants'][0]
            out = []
            for i in range(t['len']):
                x = z3.simplify(vi['acc'][i](r))
                self.seen(x, t['elem'])
                out.append(x)
            return Lst(t['elem'], out)
        return r

    def proj_set(self, v, path, new):
        if not path:
            return new
        el = path[0]
        sub = self.proj_set(self.proj_get(v, el), path[1:], new) if len(path) > 1 else new
        if el[0] == 'f':
            _, i, cty, var = el
            if isinstance(v, Agg):
                f = list(v.fields)
                f[i] = sub
                return Agg(v.ty, v.var, f)
            if isinstance(v, Clo):
                f = list(v.up)
                f[i] = sub
                return Clo(v.ty, v.name, v.inst, f)
            if is_z(v):
                info = self.p.dtinfo(v.sort())
                vi = info['variants'][var or 0]
                args = []
                for j in vi['nz']:
                    args.append(self.ze(sub, vi['fields'][j]) if j == i else z3.simplify(vi['acc'][j](v)))
                r = vi['ctor'](*args)
                self.th.made(r, var or 0, info)
                return r
            raise Unsupported('set field of %r' % (v,))
        if el[0] == 'i':
            return self.seq_set(v, el[1], sub)
        if el[0] == 'sub':
            if isinstance(v, Lst):
                lo = self.as_int(el[1])
                hi = self.as_int(el[2])
                if lo is None or hi is None or not isinstance(sub, Lst):
                    raise Unsupported('write through symbolic subslice')
                e = list(v.e)
                e[lo:hi] = sub.e
                return Lst(v.ety, e)
            raise Unsupported('write through subslice')
        raise Unsupported('set %s' % el[0])

    def as_int(self, v):
        if isinstance(v, int):
            return v
        if v is None:
            return None
        s = z3.simplify(v)
        if z3.is_int_value(s):
            return s.as_long()
        return None

    def arr(self, v):
        """arrays that are stored as datatype terms, as lists"""
        if is_z(v):
            info = self.p.dtinfo(v.sort())
            if info is not None:
                t = self.p.st(info['ty']) if 'ty' in info else None
                vi = info['variants'][0]
                if len(info['variants']) == 1 and len({str(f) for f in vi['fields']}) == 1:
                    out = []
                    for i in range(len(vi['fields'])):
                        x = z3.simplify(vi['acc'][i](v))
                        self.seen(x, vi['fields'][i])
                        out.append(x)
                    return Lst(vi['fields'][0], out)
        return v

    def table(self, v):
        """a written-out list of more than a few values of which one is a function"""
        return isinstance(v, Lst) and len(v.e) > 3 and any(isinstance(x, FnV) or isinstance(x, Agg) and any(isinstance(y, FnV) for y in x.fields) for x in v.e)

    def nth(self, v, i):
        if isinstance(v, MutRef):
            v = self.read(v)
        v = self.arr(v)
        if isinstance(v, Lst):
            k = self.as_int(i)
            if k is not None:
                if 0 <= k < len(v.e):
                    return v.e[k]
                raise PathEnd('index out of bounds')
            if self.table(v):
                return v.e[self.choose([(j, i == j) for j in range(len(v.e))])]
            v = self.th.mkseq(self.th.seqsort_of(v, self), [self.ze(x, v.ety) for x in v.e])
        r = self.th.nth(v, i)
        return r

    def seq_set(self, v, i, x):
        v0 = v
        v = self.arr(v)
        if v is not v0:
            info = self.p.dtinfo(v0.sort())
            k = self.as_int(i)
            if k is None:
                raise Unsupported('array element')
            e = list(v.e)
            e[k] = self.ze(x, v.ety)
            r = info['variants'][0]['ctor'](*e)
            self.th.made(r, 0, info)
            return r
        if isinstance(v, Lst):
            k = self.as_int(i)
            if k is not None:
                e = list(v.e)
                e[k] = x
                return Lst(v.ety, e)
            v = self.th.mkseq(self.th.seqsort_of(v, self), [self.ze(y, v.ety) for y in v.e])
        return self.th.upd(v, i, self.zany(x))

    def zany(self, x, ty=None):
        if is_z(x):
            return x
        if isinstance(x, Agg) and x.ty is not None:
            return self.ze(x, x.ty)
        if ty is not None:
            return self.ze(x, ty)
        if isinstance(x, Lst):
            return self.th.mkseq(self.th.seqsort_of(x, self), [self.zany(y, x.ety) for y in x.e])
        raise Unsupported('no term for %r' % (x,))

    def seqlen(self, v):
        if isinstance(v, MutRef):
            v = self.read(v)
        v = self.arr(v)
        if isinstance(v, Lst):
            return z3.IntVal(len(v.e))
        return self.th.len(v)

    def subseq(self, v, lo, hi):
        if isinstance(v, MutRef):
            v = self.read(v)
        v = self.arr(v)
        if isinstance(v, Lst):
            a, b = self.as_int(lo), (self.as_int(hi) if hi is not None else len(v.e))
            if a is not None and b is not None:
                if not (0 <= a <= b <= len(v.e)):
                    raise PathEnd('slice out of range')
                return Lst(v.ety, v.e[a:b])
            v = self.zany(v)
        return self.th.subseq(v, lo, hi)

    def read(self, r):
        v = self.cells[r.cell]
        for el in r.path:
            if isinstance(v, MutRef):
                v = self.read(v)
            v = self.proj_get(v, el)
        return v

    def write(self, r, val):
        self.cells[r.cell] = self.proj_set(self.cells[r.cell], r.path, val)

    # ------------------------------------------------------------------ places
    def place(self, fr, pl):
        """resolve a place to (MutRef-like location, or ('val', value)) and its type"""
        cell = fr.cells[pl['l']]
        ty = fr.fn['locals'][pl['l']]
        loc = MutRef(cell, ())
        val = None      # when set, we are inside a value (through a shared reference stored by value)
        var = None
        for pj in pl['p']:
            k = pj[0]
            t = self.p.t(ty)
            if k == 'deref':
                if t['k'] == 'ref':
                    nty = t['to']
                elif t['k'] == 'ptr':
                    nty = t['to']
                elif t['k'] == 'adt' and t['def'] == 'alloc::boxed::Box':
                    nty = t['args'][0]
                else:
                    raise Unsupported('deref of %s' % t['name'])
                cur = self.read(loc)
                if isinstance(cur, MutRef):
                    loc = cur
                ty = nty
                var = None
            elif k == 'field':
                i, fty = pj[1], pj[2]
                if t['k'] == 'adt' and t['def'] in TRANSPARENT_STD:
                    ty = fty
                    continue
                nf = self.p.newtype_field(t) if t['k'] == 'adt' else None
                if nf is not None:
                    if i == nf:
                        ty = fty
                        continue
                    loc = MutRef(self.new_cell(self.zst(fty)))
                    ty = fty
                    continue
                if self.p.is_rational(t):
                    if t['def'].endswith('Rational'):
                        ty = fty
                        continue
                    raise Unsupported('field of Ratio at expression level')
                loc = MutRef(loc.cell, loc.path + (('f', i, ty, var),))
                ty = fty
                var = None
            elif k == 'downcast':
                var = pj[1]
            elif k == 'index':
                idx = self.cells[fr.cells[pj[1]]]
                loc = self._deref_loc(loc)
                loc = MutRef(loc.cell, loc.path + (('i', idx),))
                ty = self.elem_ty(ty)
            elif k == 'cindex':
                off, ml, fe = pj[1], pj[2], pj[3]
                loc = self._deref_loc(loc)
                if fe:
                    idx = self.seqlen(self.read(loc)) - off
                else:
                    idx = z3.IntVal(off)
                loc = MutRef(loc.cell, loc.path + (('i', z3.simplify(idx)),))
                ty = self.elem_ty(ty)
            elif k == 'subslice':
                frm, to, fe = pj[1], pj[2], pj[3]
                loc = self._deref_loc(loc)
                n = self.seqlen(self.read(loc))
                hi = z3.simplify(n - to) if fe else z3.IntVal(to)
                loc = MutRef(loc.cell, loc.path + (('sub', z3.IntVal(frm), hi),))
            elif k == 'opaque':
                ty = pj[1]
            else:
                raise Unsupported('projection %s' % k)
        return loc, ty, var

    def _deref_loc(self, loc):
        cur = self.read(loc)
        if isinstance(cur, MutRef):
            return cur
        return loc

    def rd(self, fr, pl):
        loc, ty, var = self.place(fr, pl)
        v = self.read(loc)
        if v is UNINIT:
            if self.p.is_zst(ty):
                return self.zst(ty)
            raise Unsupported('read of uninitialised local _%d in %s' % (pl['l'], fr.name))
        return v

    def operand(self, fr, op):
        if op[0] in ('copy', 'move'):
            return self.rd(fr, op[1])
        if op[0] == 'const':
            return self.const(op[1])
        if op[0] == 'rtcheck':
            return z3.BoolVal(False)
        raise Unsupported('operand %s' % op[0])

    def op_ty(self, fr, op):
        if op[0] in ('copy', 'move'):
            return self.place_ty(fr, op[1])
        if op[0] == 'const':
            return op[1].get('ty')
        return None

    def place_ty(self, fr, pl):
        ty = fr.fn['locals'][pl['l']]
        for pj in pl['p']:
            t = self.p.t(ty)
            if pj[0] == 'deref':
                ty = t['to'] if t['k'] in ('ref', 'ptr') else t['args'][0]
            elif pj[0] == 'field':
                ty = pj[2]
            elif pj[0] in ('index', 'cindex'):
                ty = self.elem_ty(ty)
        return ty

    # ------------------------------------------------------------------ rvalues
    def discr_of(self, v, ty):
        """fork on the variant; returns variant index"""
        if isinstance(v, MutRef):
            v = self.read(v)
        if isinstance(v, Agg):
            return v.var
        if is_z(v):
            info = self.p.dtinfo(v.sort())
            if info is None:
                raise Unsupported('discriminant of %s' % v.sort())
            vs = info['variants']
            if len(vs) == 1:
                return 0
            i = self.choose([(x['name'], x['rec'](v)) for x in vs])
            self.th.opened(v, i, info)
            return i
        raise Unsupported('discriminant of %r' % (v,))

    def rvalue(self, fr, rv, dty):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, rv[1])
        if k in ('ref', 'reborrow', 'addrof'):
            mut = rv[1]
            loc, ty, var = self.place(fr, rv[2])
            if mut:
                return MutRef(loc.cell, loc.path)
            v = self.read(loc)
            if v is UNINIT:
                if self.p.is_zst(ty):
                    return self.zst(ty)
                return MutRef(loc.cell, loc.path)
            if isinstance(v, MutRef) and self.p.t(ty)['k'] not in ('ref', 'ptr'):
                v = self.read(v)
            return v
        if k == 'agg':
            kind = rv[1]
            ops = [self.operand(fr, o) for o in rv[2]]
            if kind[0] == 'array':
                return Lst(kind[1], ops)
            if kind[0] == 'tuple':
                return Agg(dty, 0, ops)
            if kind[0] == 'adt':
                return self.mkagg(kind[1], kind[2], ops)
            if kind[0] == 'closure':
                t = self.p.t(kind[1])
                return Clo(kind[1], t['def'], t['inst'], ops)
            raise Unsupported('aggregate %s' % kind[0])
        if k == 'bin':
            return self.binop(rv[1], self.operand(fr, rv[2]), self.operand(fr, rv[3]), self.op_ty(fr, rv[2]), dty)
        if k == 'chk':
            a, b = self.operand(fr, rv[2]), self.operand(fr, rv[3])
            ty = self.op_ty(fr, rv[2])
            r = self.arith(rv[1], a, b)
            lo, hi = self.int_range(self.p.st(ty))
            return Agg(dty, 0, [r, z3.Or(r < lo, r > hi)])
        if k == 'un':
            a = self.operand(fr, rv[2])
            if isinstance(a, Opq):
                return a
            if rv[1] == 'Not':
                if z3.is_bool(a):
                    return z3.simplify(z3.Not(a))
                raise Unsupported('bitwise not')
            if rv[1] == 'Neg':
                if self.p.st(dty)['k'] == 'float':
                    return self.th.fun('f64_neg', a.sort(), a.sort())(a)
                return z3.simplify(-a)
            if rv[1] in ('PtrMetadata',):
                return self.seqlen(a)
            raise Unsupported('unary %s' % rv[1])
        if k == 'cast':
            return self.cast(rv[1], self.operand(fr, rv[2]), self.op_ty(fr, rv[2]), rv[3])
        if k == 'discr':
            loc, ty, var = self.place(fr, rv[1])
            v = self.read(loc)
            i = self.discr_of(v, ty)
            t = self.p.st(ty)
            return z3.IntVal(t['variants'][i]['discr'])
        if k == 'len':
            loc, ty, var = self.place(fr, rv[1])
            return self.seqlen(self.read(loc))
        if k == 'repeat':
            v = self.operand(fr, rv[1])
            if isinstance(rv[2], int) and rv[2] <= 64:
                return Lst(self.op_ty(fr, rv[1]), [v] * rv[2])
            raise Unsupported('array repeat')
        if k == 'tls':
            return Opq(('tls', rv[1]))
        raise Unsupported('rvalue %s' % k)

    def arith(self, op, a, b):
        if op.startswith('Add'):
            return z3.simplify(a + b)
        if op.startswith('Sub'):
            return z3.simplify(a - b)
        if op.startswith('Mul'):
            return z3.simplify(a * b)
        raise Unsupported('checked %s' % op)

    def binop(self, op, a, b, ty, dty):
        st = self.p.st(ty) if ty is not None else None
        if st is not None and st['k'] == 'float':
            if op in ('Eq', 'Lt', 'Le', 'Ne', 'Ge', 'Gt'):
                return self.th.fun('f64_' + op, a.sort(), b.sort(), z3.BoolSort())(a, b)
            return self.th.fun('f64_' + op, a.sort(), b.sort(), a.sort())(a, b)
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq('addr')
        if not (is_z(a) and is_z(b)):
            raise Unsupported('binary %s on %r' % (op, a))
        if op == 'Eq':
            return z3.simplify(a == b)
        if op == 'Ne':
            return z3.simplify(a != b)
        if op == 'Cmp':
            i = self.choose([('lt', a < b), ('eq', a == b), ('gt', a > b)])
            return self.ordering(i, dty)
        if z3.is_bool(a):
            if op == 'BitAnd':
                return z3.simplify(z3.And(a, b))
            if op == 'BitOr':
                return z3.simplify(z3.Or(a, b))
            if op == 'BitXor':
                return z3.simplify(z3.Xor(a, b))
            a, b = z3.If(a, 1, 0), z3.If(b, 1, 0)
        if op == 'Lt':
            return z3.simplify(a < b)
        if op == 'Le':
            return z3.simplify(a <= b)
        if op == 'Gt':
            return z3.simplify(a > b)
        if op == 'Ge':
            return z3.simplify(a >= b)
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            r = self.arith(op, a, b)
            lo, hi = self.int_range(st)
            self.assume(z3.And(r >= lo, r <= hi))
            self.trusted.add('unchecked %s does not overflow' % op)
            return r
        if op in ('Div', 'Rem'):
            q = self.tdiv(a, b)
            if op == 'Div':
                return q
            return z3.simplify(a - b * q)
        if op == 'BitAnd' and self.as_int(b) == 1:
            return z3.simplify(a % 2)
        if op == 'BitAnd' and self.as_int(a) == 1:
            return z3.simplify(b % 2)
        if op in ('Shl', 'ShlUnchecked') and self.as_int(b) is not None:
            r = a * (1 << self.as_int(b))
            lo, hi = self.int_range(st)
            if self.prove(z3.And(r >= lo, r <= hi), 500)[0] != 'proved':
                raise Unsupported('shl')
            return r
        if op in ('Shr', 'ShrUnchecked') and self.as_int(b) is not None:
            return z3.simplify(a / (1 << self.as_int(b)))
        raise Unsupported('binary %s' % op)

    def tdiv(self, a, b):
        """truncating division"""
        ka, kb = self.as_int(a), self.as_int(b)
        if kb is not None and kb > 0:
            return z3.simplify(z3.If(a >= 0, a / b, -((-a) / b)))
        # the same division has one result
        for (a2, b2, fact, q2) in self.tdivs:
            if a2.eq(a) and b2.eq(b) and any(c.eq(fact) for c in self.pc):
                return q2
        q = self.fresh(z3.IntSort(), 'q')
        r = self.fresh(z3.IntSort(), 'r')
        absb = z3.If(b >= 0, b, -b)
        fact = z3.Implies(b != 0, z3.And(a == b * q + r, z3.If(a >= 0, z3.And(r >= 0, r < absb), z3.And(r <= 0, -r < absb))))
        self.assume(fact)
        self.tdivs.append((a, b, fact, q))
        R = z3.ToReal
        self.assume(z3.Implies(b != 0, R(a) / R(b) == R(q) + R(r) / R(b)))
        self.assume(self.th.isZ(R(q)))
        return q

    def ordering(self, i, ty=None):
        """i: 0 less 1 equal 2 greater"""
        if getattr(self, '_ordty', None) is None:
            self._ordty = self.p.find_type('core::cmp::Ordering')
        return Agg(self._ordty, i, ())

    def cast(self, kind, v, sty, dty):
        if kind == 'BoxDerefTransmute':
            return v
        if kind.startswith('Transmute'):
            if self.p.t(sty)['k'] in ('ptr', 'ref') and self.p.t(dty)['k'] == 'int':
                return Opq('addr')
            if self.p.key(sty) == self.p.key(dty):
                return v
            raise Unsupported('transmute %s -> %s' % (self.p.t(sty)['name'], self.p.t(dty)['name']))
        if 'IntToInt' in kind or kind == 'int2int':
            if z3.is_bool(v):
                return z3.simplify(z3.If(v, z3.IntVal(1), z3.IntVal(0)))
            if isinstance(v, Agg):
                t = self.p.st(sty)
                return z3.IntVal(t['variants'][v.var]['discr'])
            ds, dd = self.p.st(sty), self.p.st(dty)
            lo, hi = self.int_range(dd)
            if ds['k'] == 'int':
                slo, shi = self.int_range(ds)
                if slo >= lo and shi <= hi:
                    return v
            w = z3.simplify(v)
            if z3.is_int_value(w) and lo <= w.as_long() <= hi:
                return w
            if self.prove(z3.And(v >= lo, v <= hi), 500)[0] == 'proved':
                return v
            m = hi - lo + 1
            return ((v - lo) % m) + lo
        if 'Pointer' in kind or 'PtrToPtr' in kind or 'FnPtr' in kind or 'Unsize' in kind or 'Reify' in kind:
            if is_z(v) and self.p.st(sty)['k'] == 'array':
                return self.view(v, sty)
            return v
        if 'IntToFloat' in kind:
            return self.th.fun('f64_of_int', z3.IntSort(), self.p.F64)(v)
        if 'FloatToInt' in kind or 'FloatToFloat' in kind:
            raise Unsupported('cast %s' % kind)
        raise Unsupported('cast %s' % kind)

    # ------------------------------------------------------------------ execution
    def exec_fn(self, f, args):
        """inline execution of a function body"""
        if 'blocks' not in f:
            raise Unsupported('no body for %s' % f['name'])
        if self.depth > self.opts['depth']:
            raise Unsupported('inlining too deep at %s' % f['norm'])
        if f['id'] in self.callstack:
            raise Unsupported('recursive function without contract: %s' % f['norm'])
        self.inlined.add(f['norm'])
        self.depth += 1
        self.callstack.append(f['id'])
        cells = {}
        fr = Frame(f, cells)
        n = f['argc']
        for i in range(len(f['locals'])):
            cells[i] = self.new_cell(UNINIT)
        sp = f.get('spread')
        if sp is not None and not (len(args) == sp and isinstance(args[-1], Agg) and args[-1].ty is not None and self.p.key(args[-1].ty) == self.p.key(f['locals'][sp])):
            args = list(args[:sp - 1]) + [Agg(f['locals'][sp], 0, list(args[sp - 1:]))]
        if len(args) != n:
            if len(args) < n:
                raise Unsupported('argument spread in %s' % f['norm'])
        for i, a in enumerate(args[:n]):
            self.cells[cells[i + 1]] = a
        r = self.run_blocks(fr, 0)
        assert r[0] == 'ret'
        self.depth -= 1
        self.callstack.pop()
        return r[1]

    def run_blocks(self, fr, bb, body=None):
        """run from block bb until return.  With body (the blocks of the natural loop headed by bb) run one
        iteration: ends with ('back',..) at the header or ('exit',..) when control leaves the loop"""
        heads = self.p.loops(fr.fn)
        blocks = fr.fn['blocks']
        head = bb if body is not None else None
        first = True
        while True:
            if body is not None and not first:
                if bb == head:
                    return ('back', None)
                if bb not in body:
                    return ('exit', None)
            if fr.active:
                for h in list(fr.active):
                    if bb not in heads[h]:
                        del fr.active[h]
            if bb in heads and not (first and bb == head):
                mode = fr.active.get(bb)
                if mode is None:
                    fr.active[bb] = self.enter_loop(fr, bb, heads[bb])
                elif mode == 'inv':
                    raise PathEnd('loop iteration closed')
                else:
                    if mode[1] > 40:
                        raise Unsupported('unrolled loop too long')
                    fr.active[bb] = ('unroll', mode[1] + 1)
            first = False
            b = blocks[bb]
            for s in b['s']:
                self.stmt(fr, s)
            t = b['t']
            self.line = t[-1]
            k = t[0]
            if k == 'goto':
                bb = t[1]
            elif k == 'switch':
                bb = self.switch(fr, t)
            elif k == 'return':
                if body is not None:
                    return ('exit', None)
                v = self.cells[fr.cells[0]]
                if v is UNINIT:
                    v = UNIT
                return ('ret', v)
            elif k == 'drop':
                bb = t[2]
            elif k == 'assert':
                if 'PointerDereference' not in str(t[3]):
                    c = self.operand(fr, t[1])
                    c = c if t[2] else z3.Not(c)
                    self.panic_if(z3.Not(c), str(t[3]))
                bb = t[4]
            elif k == 'call':
                v = self.call(fr, t)
                if t[4] is None:
                    raise PathEnd('diverges')
                loc, ty, _ = self.place(fr, t[3])
                self.write(loc, v)
                bb = t[4]
            else:
                raise PathEnd(k)

    def panic_if(self, c, msg):
        """the code panics when c holds; execution continues only when it does not (partial correctness)"""
        c = z3.simplify(c)
        if z3.is_true(c):
            self.panicked(msg)
            raise PathEnd('panic')
        if z3.is_false(c):
            return
        if self.nopanic is not None:
            self.nopanic(c, msg)
        self.assume(z3.Not(c))

    def panicked(self, msg):
        if self.nopanic is not None:
            self.nopanic(z3.BoolVal(True), msg)

    nopanic = None

    def branch_assume(self, c):
        if not is_z(c):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.assume(c)
        return True

    def stmt(self, fr, s):
        k = s[0]
        if k == 'assign':
            self.line = s[-1]
            loc, ty, _ = self.place(fr, s[1])
            v = self.rvalue(fr, s[2], ty)
            self.write(loc, v)
        elif k == 'assume':
            c = self.operand(fr, s[1])
            self.assume(c)
        elif k == 'setdiscr':
            raise Unsupported('set discriminant')
        else:
            raise Unsupported('statement %s' % k)

    def switch(self, fr, t):
        v = self.operand(fr, t[1])
        if isinstance(v, Agg):
            raise Unsupported('switch on aggregate')
        if z3.is_bool(v):
            opts = []
            for val, tgt in t[2]:
                opts.append((str(val), v if val else z3.Not(v)))
            o = [x for x in t[2]]
            if t[3] is not None:
                other = z3.And([z3.Not(c) for _, c in opts])
                opts.append(('other', other))
                o.append([None, t[3]])
            return o[self.choose(opts)][1]
        ty = self.op_ty(fr, t[1])
        st = self.p.st(ty) if ty is not None else None
        o = list(t[2])
        if st is not None and st['k'] == 'int' and st['signed']:        # MIR gives the bits of a signed value
            o = [[x - (1 << st['bits']) if x > self.int_range(st)[1] else x, tgt] for x, tgt in o]
        opts = [(str(val), v == val) for val, tgt in o]
        if t[3] is not None:
            opts.append(('other', z3.And([v != val for val, _ in o])))
            o.append([None, t[3]])
        return o[self.choose(opts)][1]

    # ------------------------------------------------------------------ calls
    def call(self, fr, t):
        fo = t[1]
        args = [self.operand(fr, a) for a in t[2]]
        atys = [self.op_ty(fr, a) for a in t[2]]
        dty = self.place_ty(fr, t[3])
        if fo[0] == 'const' and fo[1].get('k') == 'zst':
            ft = self.p.t(fo[1]['ty'])
            inst = self.p.fn.get(ft.get('inst'))
            return self.call_fn(ft['decl'], inst, args, atys, dty, ft)
        v = self.operand(fr, fo)
        return self.call_value(v, args, atys, dty)

    def call_value(self, v, args, atys, dty):
        if isinstance(v, MutRef):
            v2 = self.read(v)
            if isinstance(v2, (FnV, Clo)):
                if isinstance(v2, FnV):
                    return self.call_value(v2, args, atys, dty)
                return self.call_closure(v, args, dty)
        if isinstance(v, FnV):
            inst = self.p.fn.get(v.inst)
            if inst is None:
                raise Unsupported('call of unresolved function value %r' % v)
            # closures coerced to fn pointers have a self argument
            if 'blocks' in inst and inst['argc'] == len(args) + 1 and '{closure' in inst['name']:
                sty = self.p.t(inst['locals'][1])
                args = [self.zst(inst['locals'][1]) if sty['k'] == 'closure' else UNIT] + list(args)
            return self.call_fn(v.name or inst['name'], inst, args, atys, dty, None)
        if isinstance(v, Clo):
            return self.call_closure(v, args, dty)
        raise Unsupported('call of %r' % (v,))

    def call_closure(self, c, args, dty=None):
        """c: Clo or MutRef to one"""
        clo = self.read(c) if isinstance(c, MutRef) else c
        if isinstance(clo, MutRef):
            return self.call_closure(clo, args, dty)
        if isinstance(clo, FnV):
            return self.call_value(clo, args, None, dty)
        f = self.p.fn.get(clo.inst)
        if f is None or 'blocks' not in f:
            raise Unsupported('closure without body %s' % clo.name)
        st = self.p.t(f['locals'][1])
        if st['k'] == 'ref' and st['mut']:
            selfv = c if isinstance(c, MutRef) else MutRef(self.new_cell(clo))
        else:
            selfv = clo
        return self.exec_fn(f, [selfv] + list(args))

    def call_fn(self, decl, inst, args, atys, dty, ft):
        name = inst['norm'] if inst is not None else decl
        # 1. contract
        c = self.contracts.get(name) if inst is None or inst['local'] or name in self.contracts.external else None
        if c is not None and not c.inline:
            r = self.apply_contract(c, inst, args, dty)
            if r is not NotImplemented:
                return r
        # 2. intrinsic
        h = self.intr.lookup(decl, inst)
        if h is not None:
            r = h(self, decl, inst, args, atys, dty)
            if r is not NotImplemented:
                return r
        # 3. body
        if inst is not None and 'blocks' in inst:
            return self.exec_fn(inst, args)
        raise Unsupported('call of %s [%s]' % (decl, inst['name'] if inst else None))

    def snap_arg(self, a):
        """value of an argument for the contract (through &mut)"""
        if isinstance(a, MutRef):
            v = self.read(a)
            if isinstance(v, MutRef):
                return self.snap_arg(v)
            return v
        return a

    def term_arg(self, v):
        if isinstance(v, Lst):
            return self.zany(v)
        return v

    def apply_contract(self, c, inst, args, dty):
        n = inst['argc'] if inst is not None and 'argc' in inst else len(args)
        tys = [inst['locals'][i + 1] for i in range(n)]
        old = []
        for a, ty in zip(args, tys):
            v = self.snap_arg(a)
            if isinstance(v, Lst):
                v = self.zany(v, self.pointee(ty))
            old.append(v)
        for i in c.need_terms(len(old)):
            if not (is_z(old[i]) or isinstance(old[i], Agg)):
                return NotImplemented
        new = list(old)
        # frame: exactly the &mut arguments may change
        muts = [i for i, a in enumerate(args) if isinstance(a, MutRef) and self.p.t(tys[i])['k'] == 'ref' and self.p.t(tys[i])['mut']]
        self.used_contracts.setdefault(c.name, 0)
        self.used_contracts[c.name] += 1
        if c.returns is not None:
            ret = c.returns(self, old)
        elif c.pure and not muts and all(is_z(o) for o in old):
            ret = self.pure_of(dty, 'f:' + inst['norm'], old)
        else:
            ret = self.fresh_of(dty, 'r_' + c.name.split('::')[-1])
        for i in muts:
            pt = self.pointee(tys[i])
            nv = c.newterm(self, old) if c.newterm is not None else None
            if nv is None:
                nv = self.fresh_of(pt, 'm')
            else:
                self.seen(nv, pt)
            self.write(args[i], nv)
            new[i] = self.zany(nv, pt) if isinstance(nv, Lst) else nv
        env = CEnv(self, old, new, ret, tys, dty)
        for o in self.th.interp:
            if hasattr(o, 'on_call'):
                o.on_call(self, c, old, ret)
        for cl in c.clauses:
            if not cl.callee:
                continue
            pre, post = cl.formula(env)
            if pre is None:
                continue
            self.assume(z3.Implies(pre, post) if not z3.is_true(pre) else post)
        return ret

    def pointee(self, ty):
        t = self.p.t(ty)
        if t['k'] in ('ref', 'ptr'):
            return t['to']
        return ty

    # ------------------------------------------------------------------ loops
    def enter_loop(self, fr, h, body):
        its = self.loop_iters(fr, body)
        if its and all(self.intr.concrete(i) for i in its):
            return ('unroll', 0)

        def iterate():
            fr2 = Frame(fr.fn, fr.cells)
            fr2.active = dict(fr.active)
            r = self.run_blocks(fr2, h, body)
            return r
        self.loop_inv(('mir', fr.fn['id'], h), iterate)
        return 'inv'

    def loop_iters(self, fr, body):
        """iterator values in frame locals that the loop advances"""
        out = []
        used = set()
        for b in body:
            t = fr.fn['blocks'][b]['t']
            for s in fr.fn['blocks'][b]['s']:
                if s[0] == 'assign' and s[2][0] in ('ref', 'reborrow') and s[2][1]:
                    used.add(s[2][2]['l'])
        for l in used:
            v = self.cells[fr.cells[l]]
            if isinstance(v, It):
                out.append(v)
            elif isinstance(v, Agg) and v.ty is not None and self.intr.as_range(v) is not None:
                out.append(self.intr.as_range(v))
        return out

    # ---- generic loop with invariants -------------------------------------
    def explore(self, fn, limit=400, phase=()):
        """run fn() over all decision paths from the current state; state restored after each.
        yields through callback; fn returns normally for completed iterations"""
        saved = self.run
        savedp = self.prefix
        run = Run()
        snap = self.snapshot()
        # what is assumed on these paths is part of the key of everything found on them
        base_prefix = self.prefix + (saved.key(), phase)
        n = 0
        while True:
            n += 1
            if n > limit:
                raise Budget('too many paths in loop body')
            run.reset()
            self.run = run
            self.prefix = base_prefix
            self.solver.push()
            try:
                fn()
            except PathEnd:
                pass
            finally:
                self.solver.pop()
                self.restore(snap)
                self.run = saved
                self.prefix = savedp
            if not run.next_path():
                break

    def diff(self, a, b, path, out):
        """leaf locations at which two values differ"""
        if a is b:
            return
        if a is UNINIT:
            return          # not live at the header
        if is_z(a) and is_z(b):
            if not a.eq(b):
                out[path] = a
            return
        if isinstance(a, Agg) and isinstance(b, Agg) and a.var == b.var and len(a.fields) == len(b.fields):
            for i, (x, y) in enumerate(zip(a.fields, b.fields)):
                self.diff(x, y, path + (('f', i, a.ty, None),), out)
            return
        if isinstance(a, Clo) and isinstance(b, Clo) and a.inst == b.inst:
            for i, (x, y) in enumerate(zip(a.up, b.up)):
                self.diff(x, y, path + (('f', i, a.ty, None),), out)
            return
        if isinstance(a, It) and isinstance(b, It) and a.kind == b.kind:
            for kk in a.f:
                x, y = a.f[kk], b.f[kk]
                if x is None and y is None:
                    continue
                self.diff(x, y, path + (('it', kk),), out)
            return
        if isinstance(a, MutRef) and isinstance(b, MutRef) and a.cell == b.cell and len(a.path) == len(b.path):
            same = True
            for x, y in zip(a.path, b.path):
                if x[0] != y[0] or (x[0] == 'f' and x[1] != y[1]) or (x[0] == 'i' and not x[1].eq(y[1])):
                    same = False
            if same:
                return
        if isinstance(a, FnV) and isinstance(b, FnV) and a.inst == b.inst:
            return
        if isinstance(a, (Opq, str, int)) and isinstance(b, (Opq, str, int)):
            return
        out[path] = a

    def get_path(self, v, path):
        for el in path:
            if el[0] == 'it':
                v = v.f[el[1]]
            else:
                v = self.proj_get(v, el)
        return v

    def set_path(self, v, path, new):
        if not path:
            return new
        el = path[0]
        if el[0] == 'it':
            return v.set(**{el[1]: self.set_path(v.f[el[1]], path[1:], new)})
        return self.proj_set(v, [el], self.set_path(self.proj_get(v, el), path[1:], new))

    def loop_inv(self, key, iterate):
        """the current state is at the loop head.  Find an inductive invariant, then havoc and assume it."""
        ck = (key, self.ncell, self.prefix, self.run.key())
        cached = self.loopcache.get(ck)
        if cached is None:
            cached = self.analyse_loop(key, iterate)
            self.loopcache[ck] = cached
        mod, names = cached
        entry = dict(self.cells)
        havoc = self.havoc(mod, entry)
        cands = self.th.candidates(self, mod, entry, havoc)
        for nm, f in cands:
            if nm in names:
                g = f(self.leaf_now(mod))
                if g is not None:
                    self.assume(g)

    def leaf_now(self, mod):
        return {loc: self.get_path(self.cells[loc[0]], loc[1]) for loc in mod}

    def havoc(self, mod, entry):
        out = {}
        for loc in mod:
            v0 = self.get_path(entry[loc[0]], loc[1])
            nv = self.havoc_like(v0, mod[loc])
            self.cells[loc[0]] = self.set_path(self.cells[loc[0]], loc[1], nv)
            out[loc] = nv
        return out

    def havoc_like(self, v0, hint):
        if is_z(v0):
            v = self.fresh(v0.sort(), 'h')
            if v0.sort() == z3.IntSort():
                pass
            else:
                self.th.mention(v)
            return v
        if isinstance(v0, Lst):
            s = self.th.seqsort_of(v0, self)
            v = self.fresh(s, 'h')
            self.th.mention(v)
            return v
        if isinstance(v0, Agg) and v0.ty is not None:
            return self.fresh_of(v0.ty, 'h')
        raise Unsupported('loop changes a value of kind %s' % type(v0).__name__)

    def analyse_loop(self, key, iterate):
        entry_cells = dict(self.cells)
        entry_ids = set(entry_cells)
        mod = {}
        # 1. modified locations
        for rnd in range(8):
            found = {}

            def body():
                entry = dict(self.cells)
                self.havoc(mod, entry)
                hv = dict(self.cells)
                cands = self.th.candidates(self, mod, entry, None)
                for nm, f in cands:
                    if nm.startswith('range'):
                        g = f(self.leaf_now(mod))
                        if g is not None:
                            self.assume(g)
                r = iterate()
                if r[0] != 'back':
                    return
                for cid in entry_ids:
                    a, b = hv[cid], self.cells.get(cid)
                    if a is b:
                        continue
                    d = {}
                    self.diff(a, b, (), d)
                    for pth, x in d.items():
                        found.setdefault((cid, pth), x)
            self.explore(body, phase=('mod', frozenset(map(repr, mod))))
            new = [l for l in found if l not in mod]
            # drop sublocations of already modified ones and vice versa
            if not new:
                break
            for l in new:
                if any(l[0] == m[0] and l[1][:len(m[1])] == m[1] for m in mod):
                    continue
                for m in [m for m in mod if m[0] == l[0] and m[1][:len(l[1])] == l[1]]:
                    del mod[m]
                mod[l] = found[l]
        else:
            raise Unsupported('modified set of a loop does not stabilise')
        # 2. candidates valid at entry
        ids = {str(c): 'c%d' % i for i, c in enumerate(sorted({l[0] for l in mod}))}

        def canon(nm):
            if nm.startswith('powsplit'):
                nm = nm.rpartition(':')[0]
            return re.sub(r'\d+', lambda m: ids.get(m.group(0), m.group(0)), nm)
        ms = tuple(sorted(canon('%d|%s' % (l[0], ','.join(str(x[:2]) for x in l[1]))) for l in mod))
        hk = (key[:3] if key[0] == 'mir' else key[:2], tuple(self.callstack), ms)
        seen = self.loophint.setdefault(hk, [])
        hint = None
        if len(seen) >= 2 and self.opts.get('loop_hints', True):
            hint = set().union(*seen)
        entry = dict(self.cells)
        cands = self.th.candidates(self, mod, entry, None)
        live = []
        for nm, f in cands:
            g = f(self.leaf_now(mod))
            if g is None:
                continue
            if hint is not None and canon(nm) not in hint:
                continue
            if self.prove(g, self.opts['houd_ms'])[0] == 'proved':
                live.append(nm)
            elif self.opts.get('debug', 0) and self.opts['debug'] > 1:
                print('      not at entry', nm, file=sys.stderr)
        # 3. Houdini
        for rnd in range(12):
            self.stats['houdini'] += 1
            bad = set()

            def body():
                entry = dict(self.cells)
                self.havoc(mod, entry)
                cs = [(nm, f) for nm, f in self.th.candidates(self, mod, entry, None) if nm in live]
                for nm, f in cs:
                    g = f(self.leaf_now(mod))
                    if g is not None:
                        self.assume(g)
                r = iterate()
                if r[0] != 'back':
                    return
                now = self.leaf_now(mod)
                goals = []
                for nm, f in cs:
                    if nm in bad:
                        continue
                    g = f(now)
                    if g is None:
                        bad.add(nm)
                        continue
                    goals.append((nm, g))
                if not goals:
                    return
                if len(goals) > 1 and self.prove(z3.And([g for _, g in goals]), self.opts['houd_ms'])[0] == 'proved':
                    return
                for nm, g in goals:
                    st, m = self.prove(g, self.opts['houd_ms'])
                    if st == 'unknown' and self.th.important(nm):
                        st, m = self.prove(g, self.opts['houd_ms'] * 4)
                    if st != 'proved':
                        if self.opts.get('debug', 0) and self.opts['debug'] > 1:
                            print('      drop', rnd, nm, st, file=sys.stderr)
                        bad.add(nm)
            self.explore(body, phase=('inv', frozenset(map(repr, mod)), frozenset(live)))
            if not bad:
                break
            live = [x for x in live if x not in bad]
        else:
            live = []
        seen.append({canon(x) for x in live})
        if self.opts.get('debug'):
            print('   loop', key, 'mod', [(l[0], l[1]) for l in mod], 'inv', live, file=sys.stderr)
        return mod, set(live)

    # ------------------------------------------------------------------ verification of one function clause
    def verify(self, f, clauses, label, collect=True, pre_hook=None):
        """prove clauses (sharing the same precondition) of contract for function f"""
        res = []
        self.loopcache = {}
        self.loophint = {}
        self.deadline = time.time() + self.opts['max_secs']
        self.line = f['l0']
        self.curc = self.contracts.get(f['norm'])
        ms, interp = (self.curc.measures, self.curc.interp) if self.curc is not None else ((), ())
        if isinstance(interp, dict):
            interp, ms = interp[clauses[0].id]
        self.th.use_measures(ms)
        self.th.interp = interp
        self.th.angle_sums = self.curc is None or self.curc.angle_sums
        self.fresh_state()
        self.run = Run()
        for m in self.th.measures:
            if m.link is not None and not m.induction(z3.Const('ind_e', self.th.Atom)):
                raise RuntimeError('the lemma about %s has no proof' % m.name)
        mainrun = Run()
        mainrun.shard = self.opts.get('shard')
        npaths = nret = 0
        err = None
        t0 = time.time()
        while True:
            self.fresh_state()
            self.run = mainrun
            mainrun.reset()
            npaths += 1
            if npaths > self.opts['max_paths']:
                err = 'path budget exceeded'
                break
            try:
                self.setup_and_run(f, clauses, res, label)
                nret += 1
            except PathEnd:
                pass
            except Budget as e:
                err = str(e)
                break
            except Unsupported as e:
                err = 'unsupported: %s (in %s, line %s)' % (e, self.p.fn[self.callstack[-1]]['norm'] if self.callstack else f['norm'], self.line)
                break
            except z3.Z3Exception as e:
                err = 'z3: %s (line %s)' % (e, self.line)
                if self.opts.get('debug'):
                    raise
                break
            if any(not o.ok for o in res) and not self.opts.get('all_fail'):
                break
            if not mainrun.next_path():
                break
        self.stats['paths'] += npaths
        return dict(function=f['norm'], inst=f['name'], label=label, obligations=[o.d() for o in res], paths=npaths, returns=nret, error=err, secs=round(time.time() - t0, 2))

    def setup_and_run(self, f, clauses, res, label):
        n = f['argc']
        tys = [f['locals'][i + 1] for i in range(n)]
        args = []
        old = []
        for i, ty in enumerate(tys):
            t = self.p.t(ty)
            if t['k'] == 'ref' and t['mut']:
                v = self.fresh_of(t['to'], 'a%d' % i)
                a = MutRef(self.new_cell(v))
                args.append(a)
                old.append(self.zany(v, t['to']) if isinstance(v, Lst) else v)
            else:
                v = self.fresh_of(ty, 'a%d' % i)
                args.append(v)
                old.append(self.zany(v, ty) if isinstance(v, Lst) else v)
        dty = f['locals'][0]
        env = CEnv(self, old, None, None, tys, dty)
        self.curenv = env
        if self.curc is not None and self.curc.assumes is not None:
            self.assume(self.curc.assumes(env))
        for cl in clauses:
            pre = cl.pre_formula(env)
            if pre is None:
                raise PathEnd('n/a')
            self.assume(pre)
        if self.solver.check() == z3.unsat:
            raise PathEnd('precondition unsatisfiable')
        watch = [o for o in self.th.interp if hasattr(o, 'on_call')]
        for o in watch:
            o.start(self, f, [self.zany(x, self.pointee(ty)) for x, ty in zip(old, tys)])
        try:
            ret = self.exec_fn(f, args)
            for o in watch:
                o.after(self, ret)
            ret2 = None
            if clauses[0].again is not None:
                ret2 = self.exec_fn(f, clauses[0].again(args))
                for o in watch:
                    o.after(self, ret2)
        except PathEnd:
            for o in watch:
                res.extend(Obl(f['norm'], clauses[0].id, str(g)[:300], line, st == 'proved', 0, st, None) for st, g, model, line in o.res)
            raise
        new = []
        for i, a in enumerate(args):
            if isinstance(a, MutRef):
                v = self.read(a)
                new.append(self.zany(v, self.pointee(tys[i])) if isinstance(v, Lst) else v)
            else:
                new.append(old[i])
        if isinstance(ret, Lst):
            ret = self.zany(ret, dty)
        if isinstance(ret, Agg) and ret.ty is None and self.p.has_sort(dty):
            ret = Agg(dty, ret.var, ret.fields)
        env = CEnv(self, old, new, ret, tys, dty)
        env.ret2 = ret2
        for cl in clauses:
            pre, post = cl.formula(env)
            if pre is None:
                continue
            goals = post.children() if z3.is_and(post) else [post]
            for g in goals:
                t0 = time.time()
                st, model = self.prove(g)
                res.append(Obl(f['norm'], cl.id, str(z3.simplify(g))[:300], self.line, st == 'proved', time.time() - t0, st,
                               None if st == 'proved' else self.describe_failure(model)))
                if st != 'proved' and not self.opts.get('all_fail'):
                    return
        # the assumptions on this path do not contradict each other
        if self.opts.get('vacuity') or self.stats.get('live', 0) == 0:
            k = 'live' if self.prove(z3.BoolVal(False), 2000)[0] != 'proved' else 'dead'
            self.stats[k] = self.stats.get(k, 0) + 1

    def describe_failure(self, model):
        out = dict(path=[str(z3.simplify(c))[:200] for c in self.pc if c.num_args() <= 2][-40:])
        if model is not None:
            try:
                out['model'] = {str(d): str(model[d])[:120] for d in model.decls() if d.arity() == 0 and ('a0' in str(d) or 'a1' in str(d) or 'a2' in str(d) or 'r_' in str(d))}
            except Exception:
                pass
        return out


class CEnv:
    """what a contract clause can talk about"""
    ret2 = None

    def __init__(self, eng, old, new, ret, tys, dty):
        self.eng, self.old, self.new, self.ret, self.tys, self.dty = eng, old, new, ret, tys, dty
        self.th = eng.th

    def A(self, i):
        return self.eng.zany(self.old[i], self.eng.pointee(self.tys[i]))

    def N(self, i):
        return self.eng.zany(self.new[i], self.eng.pointee(self.tys[i]))

    @property
    def R(self):
        return self.eng.zany(self.ret, self.dty)

    @property
    def R2(self):
        return self.eng.zany(self.ret2, self.dty)

    def T(self, *path):
        """component of a tuple result"""
        r, ty = self.ret, self.dty
        for i in path:
            r = r.fields[i] if isinstance(r, Agg) else self.eng.proj_get(r, ('f', i, ty, 0))
        return r
