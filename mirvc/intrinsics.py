"""Specifications of the parts of std (and a few crates) the code under verification calls.
Each entry is trusted and reported as such; everything else is executed from its MIR body."""
import z3
from prog import strip_generics, Unsupported, MAP, SET
import engine as E

IT = 'core::iter::traits::iterator::Iterator::'
TRUST = {}


def reg(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


TABLE = {}


class Intrinsics:
    def __init__(self, eng):
        self.eng = eng
        self.cache = {}

    def lookup(self, decl, inst):
        k = (decl, inst['id'] if inst is not None else None)
        if k in self.cache:
            return self.cache[k]
        r = self._lookup(decl, inst)
        self.cache[k] = r
        return r

    def _lookup(self, decl, inst):
        if inst is not None and inst['local'] and not decl.startswith(IT) and not decl.startswith('core::ops::function::Fn'):
            return None
        d = strip_generics(decl)
        if inst is not None:
            nm = strip_generics(inst['name'])
            for t in (nm, inst['norm']):
                if t in TABLE:
                    return self._wrap(t, TABLE[t])
        if d in TABLE:
            return self._wrap(d, TABLE[d])
        return None

    def _wrap(self, name, h):
        def g(eng, *a):
            r = h(eng, *a)
            if r is not NotImplemented:
                eng.trusted.add('std: ' + name)
            return r
        return g

    # ---- iterators
    def as_range(self, v):
        eng = self.eng
        if isinstance(v, E.Agg) and v.ty is not None:
            t = eng.p.t(v.ty)
            if t['k'] == 'adt':
                if t['def'] == 'core::ops::range::Range':
                    return E.It('range', i=v.fields[0], end=v.fields[1])
                if t['def'] == 'core::ops::range::RangeInclusive':
                    return E.It('range', i=v.fields[0], end=z3.simplify(v.fields[1] + 1))
        return None

    def concrete(self, it):
        eng = self.eng
        if isinstance(it, E.MutRef):
            it = eng.read(it)
        k = it.kind
        if k == 'slice' and eng.table(it.seq):
            return False
        if k in ('slice', 'range'):
            return eng.as_int(it.i) is not None and eng.as_int(it.end) is not None and eng.as_int(it.end) - eng.as_int(it.i) <= 40
        if k == 'zip':
            return self.concrete(it.a) or self.concrete(it.b)
        if k == 'chain':
            return self.concrete(it.a) and self.concrete(it.b)
        if k == 'user':
            return False
        return self.concrete(it.inner)

    def step(self, it):
        """(iterator after, 'item'|'skip'|'end', value)"""
        eng = self.eng
        k = it.kind
        if k == 'slice':
            if not eng.branch(it.i < it.end):
                return it, 'end', None
            return it.set(i=z3.simplify(it.i + 1)), 'item', self.item(it, it.i)
        if k == 'range':
            if not eng.branch(it.i < it.end):
                return it, 'end', None
            return it.set(i=z3.simplify(it.i + 1)), 'item', it.i
        if k == 'rev':
            inner, o, v = self.step_back(it.inner)
            return it.set(inner=inner), o, v
        if k == 'cloned':
            inner, o, v = self.step(it.inner)
            if o == 'item' and isinstance(v, E.MutRef):
                v = eng.read(v)
            return it.set(inner=inner), o, v
        if k == 'map':
            inner, o, v = self.step(it.inner)
            it = it.set(inner=inner)
            if o != 'item':
                return it, o, None
            r, f = self.callf(it.func, [v])
            return it.set(func=f), 'item', r
        if k == 'filter':
            inner, o, v = self.step(it.inner)
            it = it.set(inner=inner)
            if o != 'item':
                return it, o, None
            r, f = self.callf(it.func, [v])
            it = it.set(func=f)
            if eng.branch(r):
                return it, 'item', v
            return it, 'skip', None
        if k == 'filter_map':
            inner, o, v = self.step(it.inner)
            it = it.set(inner=inner)
            if o != 'item':
                return it, o, None
            r, f = self.callf(it.func, [v])
            it = it.set(func=f)
            vi = eng.discr_of(r, None)
            if vi == 1:
                return it, 'item', eng.proj_get(r, ('f', 0, None, 1))
            return it, 'skip', None
        if k == 'enumerate':
            inner, o, v = self.step(it.inner)
            it = it.set(inner=inner)
            if o != 'item':
                return it, o, None
            return it.set(n=z3.simplify(it.n + 1)), 'item', E.Agg(it.tupty, 0, [it.n, v])
        if k == 'zip':
            a, o, v = self.step(it.a)
            it = it.set(a=a)
            if o != 'item':
                return it, o, None
            b, o, w = self.step(it.b)
            it = it.set(b=b)
            if o != 'item':
                return it, o, None
            return it, 'item', E.Agg(it.tupty, 0, [v, w])
        if k == 'chain':
            if not it.adone:
                a, o, v = self.step(it.a)
                it = it.set(a=a)
                if o != 'end':
                    return it, o, v
                it = it.set(adone=True)
            b, o, v = self.step(it.b)
            return it.set(b=b), o, v
        if k == 'part':
            inner, o, v = self.step(it.inner)
            return it.set(inner=inner), o, (eng.proj_get(v, ('f', it.n, None, None)) if o == 'item' else None)
        if k == 'skip':
            raise Unsupported('iterator skip')
        if k == 'user':
            c = eng.new_cell(it.state)
            r = eng.call_fn(it.next['name'], it.next, [E.MutRef(c)], None, it.next['locals'][0], None)
            it = it.set(state=eng.cells[c])
            if eng.discr_of(r, None) == 1:
                return it, 'item', eng.proj_get(r, ('f', 0, None, 1))
            return it, 'end', None
        raise Unsupported('iterator %s' % k)

    def step_back(self, it):
        eng = self.eng
        if it.kind in ('slice', 'range'):
            if not eng.branch(it.i < it.end):
                return it, 'end', None
            e = z3.simplify(it.end - 1)
            v = self.item(it, e) if it.kind == 'slice' else e
            return it.set(end=e), 'item', v
        if it.kind == 'cloned':
            inner, o, v = self.step_back(it.inner)
            return it.set(inner=inner), o, v
        if it.kind == 'map':
            inner, o, v = self.step_back(it.inner)
            it = it.set(inner=inner)
            if o != 'item':
                return it, o, None
            r, f = self.callf(it.func, [v])
            return it.set(func=f), 'item', r
        raise Unsupported('backward iteration of %s' % it.kind)

    def item(self, it, i):
        eng = self.eng
        if it.mode == 'mut':
            return E.MutRef(it.seq.cell, it.seq.path + (('i', i),))
        v = eng.nth(it.seq, i)
        return v

    def callf(self, f, args):
        """call a closure stored by value; returns (result, closure afterwards)"""
        eng = self.eng
        if isinstance(f, E.Clo):
            c = eng.new_cell(f)
            r = eng.call_closure(E.MutRef(c), args)
            return r, eng.cells[c]
        if isinstance(f, E.MutRef):
            return eng.call_value(f, args, None, None), f
        return eng.call_value(f, args, None, None), f

    def to_iter(self, v, ty=None, inst=None):
        eng = self.eng
        if isinstance(v, E.MutRef):
            w = eng.read(v)
            if isinstance(w, E.It):
                return w
        if isinstance(v, E.It):
            return v
        r = self.as_range(v)
        if r is not None:
            return r
        raise Unsupported('not an iterator: %r' % (v,))

    def slice_iter(self, v, mode):
        eng = self.eng
        if mode == 'mut':
            if not isinstance(v, E.MutRef):
                raise Unsupported('iter_mut on value')
            n = eng.seqlen(eng.read(v))
            # look through nested references
            while isinstance(eng.read(v), E.MutRef):
                v = eng.read(v)
        else:
            if isinstance(v, E.MutRef):
                v = eng.read(v)
            n = eng.seqlen(v)
        return E.It('slice', seq=v, i=z3.IntVal(0), end=n, mode=mode)

    def consume(self, it, on_item, tag):
        """run on_item for every item; on_item returns True to stop early.
        returns ('end'|'stop', iterator afterwards)"""
        eng = self.eng
        cell = eng.new_cell(it)
        if self.concrete(it):
            n = 0
            while True:
                n += 1
                if n > 60:
                    raise Unsupported('unrolled iteration too long')
                it2, o, v = self.step(eng.cells[cell])
                eng.cells[cell] = it2
                if o == 'end':
                    return 'end', it2
                if o == 'skip':
                    continue
                if on_item(v):
                    return 'stop', eng.cells[cell]

        def iterate():
            it2, o, v = self.step(eng.cells[cell])
            eng.cells[cell] = it2
            if o == 'end':
                return ('exit',)
            if o == 'skip':
                return ('back',)
            if on_item(v):
                return ('exit',)
            return ('back',)
        eng.loop_inv(('it', tag, cell), iterate)
        it2, o, v = self.step(eng.cells[cell])
        eng.cells[cell] = it2
        if o == 'end':
            return 'end', it2
        if o == 'skip':
            raise E.PathEnd('loop iteration closed')
        if on_item(v):
            return 'stop', eng.cells[cell]
        raise E.PathEnd('loop iteration closed')


def opt(eng, ty, v=None, some=True):
    return E.Agg(ty, 1, [v]) if some else E.Agg(ty, 0, [])


def _self(eng, v):
    return eng.read(v) if isinstance(v, E.MutRef) else v


def setv(eng, ref, v):
    while isinstance(eng.read(ref), E.MutRef):
        ref = eng.read(ref)
    eng.write(ref, v)


# ------------------------------------------------------------------ identity-like
@reg('core::convert::AsRef::as_ref', 'core::ops::deref::Deref::deref', 'alloc::vec::Vec::as_slice',
     'core::slice::<impl [T]>::as_ref', 'alloc::string::String::as_str', 'alloc::boxed::Box::new', 'alloc::rcs::rc::Rc::new',
     'core::hint::must_use', 'alloc::borrow::ToOwned::to_owned', 'alloc::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::into_vec',
     'core::clone::Clone::clone', 'alloc::vec::Vec::into_boxed_slice', 'core::hint::black_box', 'core::mem::manually_drop::ManuallyDrop::new')
def ident(eng, decl, inst, args, atys, dty):
    if inst is not None and inst['local']:
        return NotImplemented
    v = args[0]
    if isinstance(v, E.MutRef):
        t = eng.p.t(dty) if dty is not None else None
        if t is not None and t['k'] == 'ref' and t['mut']:
            return v
        v = eng.read(v)
    return v


@reg('core::ops::deref::DerefMut::deref_mut', 'alloc::rcs::rc::Rc::make_mut', 'alloc::vec::Vec::as_mut_slice', 'core::convert::AsMut::as_mut', 'core::slice::<impl [T]>::as_mut')
def ident_mut(eng, decl, inst, args, atys, dty):
    if inst is not None and inst['local']:
        return NotImplemented
    return args[0]


@reg('core::slice::raw::from_ref')
def from_ref(eng, decl, inst, args, atys, dty):
    return E.Lst(eng.elem_ty(dty), [_self(eng, args[0])])


@reg('core::slice::raw::from_mut')
def from_mut(eng, decl, inst, args, atys, dty):
    # &mut [x] view of one element: a list holding the mutable reference itself
    return E.Lst(eng.elem_ty(dty), [args[0]])


@reg('alloc::boxed::Box::new_uninit')
def box_uninit(eng, decl, inst, args, atys, dty):
    return E.MutRef(eng.new_cell(E.UNINIT))


@reg('alloc::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(eng, decl, inst, args, atys, dty):
    v = eng.read(args[0])
    return v


# ------------------------------------------------------------------ panics
@reg('core::panicking::panic_fmt', 'core::panicking::panic', 'core::panicking::panic_display', 'core::panicking::assert_failed',
     'core::panicking::unreachable_display', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
     'core::panicking::panic_nounwind', 'core::panicking::panic_const::panic_const_div_by_zero', 'core::panicking::panic_explicit', 'std::rt::begin_panic')
def panic(eng, decl, inst, args, atys, dty):
    eng.panicked(decl)
    raise E.PathEnd('panic')


@reg('core::fmt::Arguments::from_str', 'core::fmt::Arguments::new', 'core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug',
     'core::panicking::todo_default_msg', 'core::panicking::unreachable_default_msg', 'core::fmt::Arguments::new_const', 'core::fmt::Arguments::new_v1',
     'core::any::type_name_of_val', 'core::any::type_name', 'log::__private_api::loc', 'log::max_level')
def opaque(eng, decl, inst, args, atys, dty):
    return E.Opq(decl)


@reg('alloc::fmt::format', 'alloc::string::ToString::to_string')
def fmt_str(eng, decl, inst, args, atys, dty):
    return eng.fresh(eng.p.Str, 'str')


# ------------------------------------------------------------------ Vec / slice
@reg('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity')
def vec_new(eng, decl, inst, args, atys, dty):
    return E.Lst(eng.elem_ty(dty), [])


@reg('core::default::Default::default')
def default(eng, decl, inst, args, atys, dty):
    if inst is not None and inst['local']:
        return NotImplemented
    t = eng.p.st(dty)
    if t['k'] == 'adt' and t['def'] in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'):
        return E.Lst(eng.elem_ty(dty), [])
    if t['k'] == 'adt' and ('HashSet' in t['def']):
        return E.Lst(t['args'][0], [])
    if t['k'] == 'adt' and t['def'] == MAP:
        return E.Lst(eng.elem_ty(dty), [])
    if t['k'] == 'int':
        return z3.IntVal(0)
    if t['k'] == 'bool':
        return z3.BoolVal(False)
    return NotImplemented


@reg('alloc::vec::Vec::len', 'core::slice::<impl [T]>::len')
def vlen(eng, decl, inst, args, atys, dty):
    return eng.seqlen(_self(eng, args[0]))


@reg('alloc::vec::Vec::is_empty', 'core::slice::<impl [T]>::is_empty')
def vempty(eng, decl, inst, args, atys, dty):
    return z3.simplify(eng.seqlen(_self(eng, args[0])) == 0)


def ety_of(eng, atys, i=0):
    return eng.elem_ty(eng.pointee(atys[i]))


@reg('alloc::vec::Vec::push')
def vpush(eng, decl, inst, args, atys, dty):
    v = eng.read(args[0])
    if isinstance(v, E.MutRef):
        args[0] = v
        v = eng.read(v)
    x = args[1]
    if isinstance(v, E.Lst):
        setv(eng, args[0], E.Lst(v.ety if v.ety is not None else ety_of(eng, atys), v.e + (x,)))
    else:
        setv(eng, args[0], eng.th.push(v, eng.zany(x, ety_of(eng, atys))))
    return E.UNIT


@reg('alloc::vec::Vec::clear')
def vclear(eng, decl, inst, args, atys, dty):
    setv(eng, args[0], E.Lst(ety_of(eng, atys), []))
    return E.UNIT


@reg('alloc::vec::Vec::append', 'alloc::vec::Vec::extend_from_slice')
def vappend(eng, decl, inst, args, atys, dty):
    a = _self(eng, eng.read(args[0]))
    b = _self(eng, args[1])
    if isinstance(b, E.MutRef):
        b = eng.read(b)
    ety = ety_of(eng, atys)
    if isinstance(a, E.Lst) and isinstance(b, E.Lst):
        r = E.Lst(ety, a.e + b.e)
    else:
        r = eng.th.cat(eng.zany(a), eng.zany(b))
    setv(eng, args[0], r)
    if decl.endswith('append'):
        setv(eng, args[1], E.Lst(ety, []))
    return E.UNIT


@reg('alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove')
def vremove(eng, decl, inst, args, atys, dty):
    v = eng.read(args[0])
    i = args[1]
    eng.assume(z3.And(i >= 0, i < eng.seqlen(v)))
    x = eng.nth(v, i)
    k = eng.as_int(i)
    if isinstance(v, E.Lst) and k is not None:
        if k >= len(v.e):
            raise E.PathEnd('panic')
        e = list(v.e)
        del e[k]
        setv(eng, args[0], E.Lst(v.ety, e))
    else:
        setv(eng, args[0], eng.th.remove(eng.zany(v), i))
    return x


@reg('alloc::vec::Vec::insert')
def vinsert(eng, decl, inst, args, atys, dty):
    v = eng.read(args[0])
    k = eng.as_int(args[1])
    if isinstance(v, E.Lst) and k is not None:
        e = list(v.e)
        e.insert(k, args[2])
        setv(eng, args[0], E.Lst(v.ety, e))
        return E.UNIT
    if k == 0:
        ety = ety_of(eng, atys)
        setv(eng, args[0], eng.th.cat(eng.zany(E.Lst(ety, [args[2]])), eng.zany(v)))
        return E.UNIT
    raise Unsupported('Vec::insert')


@reg('alloc::vec::Vec::pop')
def vpop(eng, decl, inst, args, atys, dty):
    v = eng.read(args[0])
    n = eng.seqlen(v)
    if not eng.branch(n > 0):
        return opt(eng, dty, some=False)
    if isinstance(v, E.Lst):
        setv(eng, args[0], E.Lst(v.ety, v.e[:-1]))
        return opt(eng, dty, v.e[-1])
    i = z3.simplify(n - 1)
    x = eng.nth(v, i)
    setv(eng, args[0], eng.th.remove(v, i))
    return opt(eng, dty, x)


@reg('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::get')
def vfirst(eng, decl, inst, args, atys, dty):
    v = _self(eng, args[0])
    n = eng.seqlen(v)
    if decl.endswith('get'):
        i = args[1]
        if not E.is_z(i):
            return NotImplemented
        c = i < n
    else:
        i = z3.IntVal(0) if decl.endswith('first') else z3.simplify(n - 1)
        c = n > 0
    if not eng.branch(c):
        return opt(eng, dty, some=False)
    return opt(eng, dty, eng.nth(v, i))


@reg('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def vsplit(eng, decl, inst, args, atys, dty):
    v = _self(eng, args[0])
    n = eng.seqlen(v)
    if not eng.branch(n > 0):
        return opt(eng, dty, some=False)
    t = eng.p.st(dty)
    tup = t['args'][0]
    if decl.endswith('first'):
        return opt(eng, dty, E.Agg(tup, 0, [eng.nth(v, z3.IntVal(0)), eng.subseq(v, z3.IntVal(1), None)]))
    m = z3.simplify(n - 1)
    return opt(eng, dty, E.Agg(tup, 0, [eng.nth(v, m), eng.subseq(v, z3.IntVal(0), m)]))


@reg('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def vindex(eng, decl, inst, args, atys, dty):
    if inst is not None and inst['local']:
        return NotImplemented
    mut = decl.endswith('_mut')
    v = args[0]
    i = args[1]
    if not mut:
        v = _self(eng, v)
    cur = _self(eng, v)
    if not (isinstance(cur, E.Lst) or (E.is_z(cur) and cur.sort().name().startswith('Seq<'))):
        return NotImplemented
    n = eng.seqlen(cur)
    if E.is_z(i):
        eng.panic_if(z3.Not(z3.And(i >= 0, i < n)), 'index out of bounds')
        if mut:
            return E.MutRef(v.cell, v.path + (('i', i),))
        return eng.nth(cur, i)
    # ranges
    if isinstance(i, E.Agg) or E.is_z(i):
        t = eng.p.t(atys[1])
        d = t['def'].split('::')[-1]
        if d == 'RangeFrom':
            lo, hi = (i.fields[0] if isinstance(i, E.Agg) else i), None
        elif d == 'Range':
            lo, hi = i.fields
        elif d == 'RangeTo':
            lo, hi = z3.IntVal(0), (i.fields[0] if isinstance(i, E.Agg) else i)
        elif d == 'RangeFull':
            lo, hi = z3.IntVal(0), None
        else:
            raise Unsupported('slice range %s' % d)
        hh = n if hi is None else hi
        eng.panic_if(z3.Not(z3.And(lo >= 0, lo <= hh, hh <= n)), 'slice index out of range')
        if mut:
            return E.MutRef(v.cell, v.path + (('sub', lo, hh),))
        return eng.subseq(cur, lo, hi)
    raise Unsupported('index by %r' % (i,))


@reg('core::slice::<impl [T]>::contains')
def vcontains(eng, decl, inst, args, atys, dty):
    s, x = _self(eng, args[0]), _self(eng, args[1])
    if E.is_z(x) and x.sort() == eng.th.Atom and (E.is_z(s) and s.sort() == eng.th.SeqA or isinstance(s, E.Lst)):
        return eng.th.contains(eng.zany(s), x)
    return eng.fresh(z3.BoolSort(), 'contains')


@reg('alloc::slice::<impl [T]>::sort', 'alloc::slice::<impl [T]>::sort_by', 'alloc::slice::<impl [T]>::sort_by_key', 'core::slice::<impl [T]>::sort_unstable_by',
     'core::slice::<impl [T]>::sort_unstable', 'core::slice::<impl [T]>::reverse', 'core::slice::<impl [T]>::sort_unstable_by_key')
def vsort(eng, decl, inst, args, atys, dty):
    v = eng.read(args[0])
    if isinstance(v, E.MutRef):
        args[0] = v
        v = eng.read(v)
    if isinstance(v, E.Lst) and len(v.e) < 2:
        return E.UNIT
    tag = 'rev' if decl.endswith('reverse') else 'sorted'
    if not decl.endswith(('sort', 'reverse', 'sort_unstable')):
        f = args[1]
        tag = 'sorted_' + (f.name if isinstance(f, (E.FnV, E.Clo)) and f.name else 'by')
    setv(eng, args[0], eng.th.perm(eng.zany(v), tag))
    return E.UNIT


@reg('core::mem::swap')
def mswap(eng, decl, inst, args, atys, dty):
    a, b = eng.read(args[0]), eng.read(args[1])
    eng.write(args[0], b)
    eng.write(args[1], a)
    return E.UNIT


@reg('core::mem::replace', 'core::mem::take')
def mreplace(eng, decl, inst, args, atys, dty):
    a = eng.read(args[0])
    if decl.endswith('take'):
        t = eng.p.st(eng.pointee(atys[0]))
        if t['k'] == 'adt' and t['def'] == 'alloc::vec::Vec':
            n = E.Lst(t['args'][0], [])
        elif t['k'] == 'adt' and t['def'].endswith('Option'):
            n = E.Agg(eng.p.strip(eng.pointee(atys[0])), 0, ())
        else:
            raise Unsupported('mem::take')
    else:
        n = args[1]
    eng.write(args[0], n)
    return a


@reg('core::slice::<impl [T]>::swap')
def vswap(eng, decl, inst, args, atys, dty):
    v = eng.read(args[0])
    i, j = args[1], args[2]
    eng.panic_if(z3.Not(z3.And(i < eng.seqlen(v), j < eng.seqlen(v))), 'index out of bounds')
    x, y = eng.nth(v, i), eng.nth(v, j)
    setv(eng, args[0], eng.seq_set(eng.seq_set(v, i, y), j, x))
    return E.UNIT


# ------------------------------------------------------------------ thread locals
@reg('std::thread::local::LocalKey::with')
def lk_with(eng, decl, inst, args, atys, dty):
    k = args[0]
    f = k.fields[0] if isinstance(k, E.Agg) else k
    v = eng.call_value(f, [E.UNIT], None, None)
    r, _ = eng.intr.callf(args[1], [v])
    return r


@reg('std::sys::thread_local::native::lazy::Storage::get_or_init')
def lk_init(eng, decl, inst, args, atys, dty):
    r, _ = eng.intr.callf(args[2], [])
    return r


# ------------------------------------------------------------------ closures
@reg('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
def fn_call(eng, decl, inst, args, atys, dty):
    f = args[0]
    tup = args[1]
    a = list(tup.fields) if isinstance(tup, E.Agg) else ([] if tup is None else [eng.proj_get(tup, ('f', 0, None, 0))])
    if isinstance(f, E.MutRef):
        g = eng.read(f)
        if isinstance(g, E.MutRef):
            f = g
            g = eng.read(g)
        if isinstance(g, E.Clo):
            return eng.call_closure(f, a, dty)
        f = g
    return eng.call_value(f, a, None, dty)


# ------------------------------------------------------------------ iterators
@reg('core::slice::<impl [T]>::iter')
def s_iter(eng, decl, inst, args, atys, dty):
    return eng.intr.slice_iter(_self(eng, args[0]), 'ref')


@reg('core::slice::<impl [T]>::iter_mut')
def s_iter_mut(eng, decl, inst, args, atys, dty):
    v = args[0]
    if isinstance(v, E.Lst):
        # list of mutable references (from_mut) or a literal empty slice
        return E.It('slice', seq=v, i=z3.IntVal(0), end=z3.IntVal(len(v.e)), mode='ref')
    cur = eng.read(v)
    if isinstance(cur, E.Lst) and cur.e and all(isinstance(x, E.MutRef) for x in cur.e):
        return E.It('slice', seq=cur, i=z3.IntVal(0), end=z3.IntVal(len(cur.e)), mode='ref')
    return eng.intr.slice_iter(v, 'mut')


@reg('core::iter::traits::collect::IntoIterator::into_iter')
def into_iter(eng, decl, inst, args, atys, dty):
    v = args[0]
    if isinstance(v, E.It):
        return v
    r = eng.intr.as_range(v)
    if r is not None:
        return r
    t = eng.p.t(atys[0]) if atys else None
    if t is not None and t['k'] == 'adt' and t['def'].startswith('calcu_rs') and eng.p.by_norm.get('<%s as Iterator>::next' % t['def'].split('::')[-1]):
        return v
    if isinstance(v, E.MutRef):
        w = eng.read(v)
        if isinstance(w, E.It):
            return v
        if t is not None and t['k'] == 'ref' and t['mut']:
            return s_iter_mut(eng, decl, inst, [v], atys, dty)
        v = w
    if isinstance(v, E.Lst) or (E.is_z(v) and v.sort().name().startswith('Seq<')):
        return eng.intr.slice_iter(v, 'own' if (t is not None and t['k'] != 'ref') else 'ref')
    return NotImplemented


def mk_it(eng, v, atys=None):
    """iterator value from any self argument"""
    if isinstance(v, E.MutRef):
        w = eng.read(v)
        if isinstance(w, E.It):
            return w
        v = w
    r = eng.intr.as_range(v)
    if r is not None:
        return r
    if isinstance(v, E.It):
        return v
    # a local type implementing Iterator
    if atys:
        t = eng.p.t(eng.pointee(atys[0]))
        if t['k'] == 'adt' and t['def'].startswith('calcu_rs'):
            nm = '<%s as Iterator>::next' % t['def'].split('::')[-1]
            fs = eng.p.by_norm.get(nm)
            if fs:
                return E.It('user', state=v, next=fs[0])
        for d in ('Filter', 'Map'):
            pass
    raise Unsupported("not an iterator: %r %s" % (v, [eng.p.t(a)["name"] for a in atys or ()]))


@reg(IT + 'map', IT + 'filter', IT + 'filter_map', IT + 'enumerate', IT + 'zip', IT + 'rev', IT + 'cloned', IT + 'copied', IT + 'chain', IT + 'by_ref', IT + 'peekable', IT + 'fuse')
def it_adapt(eng, decl, inst, args, atys, dty):
    k = decl.split('::')[-1]
    it = mk_it(eng, args[0], atys)
    if k in ('by_ref',):
        return args[0]
    if k in ('fuse',):
        return it
    if k in ('map', 'filter', 'filter_map'):
        return E.It(k, inner=it, func=args[1])
    if k == 'enumerate':
        return E.It('enumerate', inner=it, n=z3.IntVal(0), tupty=None)
    if k == 'zip':
        b = args[1]
        if not isinstance(b, E.It):
            b = into_iter(eng, decl, None, [b], [atys[1]], None)
        return E.It('zip', a=it, b=b, tupty=None)
    if k == 'chain':
        b = args[1]
        if not isinstance(b, E.It):
            b = into_iter(eng, decl, None, [b], [atys[1]], None)
        return E.It('chain', a=it, b=b, adone=False)
    if k == 'rev':
        return E.It('rev', inner=it)
    if k in ('cloned', 'copied'):
        return E.It('cloned', inner=it)
    raise Unsupported('adaptor ' + k)


def _cut(eng, it, k, n):
    if it.kind in ('slice', 'range'):
        j = z3.simplify(z3.If(it.i + n < it.end, it.i + n, it.end))
        if it.kind == 'range':
            j = z3.simplify(z3.If(it.i < it.end, j, it.i))
        return it.set(end=j) if k == 'take' else it.set(i=j)
    if it.kind == 'cloned' or (it.kind in ('map', 'enumerate') and k == 'take'):
        return it.set(inner=_cut(eng, it.inner, k, n))
    raise Unsupported('%s of %s' % (k, it.kind))


@reg(IT + 'take', IT + 'skip')
def it_cut(eng, decl, inst, args, atys, dty):
    return _cut(eng, mk_it(eng, args[0], atys), decl.split('::')[-1], _zi(args[1]))


@reg(IT + 'next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def it_next(eng, decl, inst, args, atys, dty):
    if inst is not None and inst['local']:
        return NotImplemented
    ref = args[0]
    it = eng.read(ref)
    while isinstance(it, E.MutRef):
        ref = it
        it = eng.read(ref)
    if not isinstance(it, E.It):
        it = mk_it(eng, it, atys)
    back = decl.endswith('back')
    for n in range(60):
        it2, o, v = (eng.intr.step_back if back else eng.intr.step)(it)
        eng.write(ref, it2)
        if o == 'end':
            return opt(eng, dty, some=False)
        if o == 'item':
            return opt(eng, dty, v)
        if not eng.intr.concrete(it):
            # filtered symbolic iterator: skip with an invariant
            res = []

            def on(v):
                res[:] = [v]
                return True
            st, it3 = eng.intr.consume(it2, on, 'next')
            eng.write(ref, it3)
            if st == 'end':
                return opt(eng, dty, some=False)
            return opt(eng, dty, res[0])
        it = it2
    raise Unsupported('next')


@reg(IT + 'for_each')
def it_for_each(eng, decl, inst, args, atys, dty):
    it = mk_it(eng, args[0], atys)
    f = args[1]
    c = E.MutRef(eng.new_cell(f)) if isinstance(f, E.Clo) else f

    def on(v):
        eng.call_value(c, [v], None, None)
    eng.intr.consume(it, on, 'for_each')
    return E.UNIT


@reg(IT + 'fold')
def it_fold(eng, decl, inst, args, atys, dty):
    it = mk_it(eng, args[0], atys)
    f = args[2]
    c = E.MutRef(eng.new_cell(f)) if isinstance(f, E.Clo) else f
    acc = eng.new_cell(args[1])

    def on(v):
        eng.cells[acc] = eng.call_value(c, [eng.cells[acc], v], None, None)
    eng.intr.consume(it, on, 'fold')
    return eng.cells[acc]


@reg(IT + 'max_by', IT + 'min_by')
def it_max_by(eng, decl, inst, args, atys, dty):
    """the later of equal maxima, the earlier of equal minima: core's own reduction"""
    return it_reduce(eng, decl, inst, args, atys, dty)


@reg(IT + 'reduce')
def it_reduce(eng, decl, inst, args, atys, dty):
    it = mk_it(eng, args[0], atys)
    f = args[1]
    c = E.MutRef(eng.new_cell(f)) if isinstance(f, E.Clo) else f
    name = decl.split('::')[-1]

    def join(x, y):
        r = eng.call_value(c, [x, y], None, None)
        if name == 'reduce':
            return r
        greater = eng.discr_of(r, None) == 2
        return (x if greater else y) if name == 'max_by' else (y if greater else x)
    it2, o, v = eng.intr.step(it)
    if o == 'end':
        return opt(eng, dty, some=False)
    if o == 'skip':
        first = []

        def take(w):
            first[:] = [w]
            return True
        st, it2 = eng.intr.consume(it2, take, 'next')
        if st == 'end':
            return opt(eng, dty, some=False)
        v = first[0]
    acc = eng.new_cell(v)

    def on(v):
        eng.cells[acc] = join(eng.cells[acc], v)
    eng.intr.consume(it2, on, 'reduce')
    return opt(eng, dty, eng.cells[acc])


@reg(IT + 'collect')
def it_collect(eng, decl, inst, args, atys, dty):
    it = mk_it(eng, args[0], atys)
    t = eng.p.st(dty)
    if not (t['k'] == 'adt' and t['def'] in ('alloc::vec::Vec', 'std::collections::hash::set::HashSet')):
        raise Unsupported('collect into %s' % t['name'])
    ety = t['args'][0]
    acc = eng.new_cell(E.Lst(ety, []))

    def on(v):
        cur = eng.cells[acc]
        if isinstance(v, E.MutRef):
            v = eng.read(v)
        if t['def'] == SET and eng.branch(_member(eng, cur, ety, eng.zany(v, ety))):
            return
        if isinstance(cur, E.Lst):
            eng.cells[acc] = E.Lst(ety, cur.e + (v,))
        else:
            eng.cells[acc] = eng.th.push(cur, eng.zany(v, ety))
    eng.intr.consume(it, on, 'collect')
    return eng.cells[acc]


@reg('core::iter::traits::collect::Extend::extend')
def it_extend(eng, decl, inst, args, atys, dty):
    it = into_iter(eng, decl, None, [args[1]], [atys[1]], None)
    if it is NotImplemented:
        it = mk_it(eng, args[1], [atys[1]])
    ref = args[0]

    def on(v):
        vpush(eng, decl, inst, [ref, v], atys, dty)
    eng.intr.consume(it, on, 'extend')
    return E.UNIT


@reg(IT + 'find', IT + 'position', IT + 'any', IT + 'all', IT + 'find_map')
def it_find(eng, decl, inst, args, atys, dty):
    k = decl.split('::')[-1]
    it = mk_it(eng, args[0], atys)
    f = args[1]
    c = E.MutRef(eng.new_cell(f)) if isinstance(f, E.Clo) else f
    res = []
    pos = eng.new_cell(z3.IntVal(0)) if k == 'position' and it.kind != 'slice' else None

    def on(v):
        r = eng.call_value(c, [v], None, None)
        if k == 'find_map':
            if eng.discr_of(r, None) == 1:
                res[:] = [r]
                return True
            return False
        hit = eng.branch(z3.Not(r) if k == 'all' else r)
        if hit:
            res[:] = [v]
            return True
        if pos is not None:
            eng.cells[pos] = z3.simplify(eng.cells[pos] + 1)
        return False
    st, it2 = eng.intr.consume(it, on, k)
    if isinstance(args[0], E.MutRef):
        ref = args[0]
        while isinstance(eng.read(ref), E.MutRef):
            ref = eng.read(ref)
        if it2.kind == 'user':
            eng.write(ref, it2.state)
        else:
            eng.write(ref, it2)
    if k == 'any':
        return z3.BoolVal(st == 'stop')
    if k == 'all':
        return z3.BoolVal(st == 'end')
    if st == 'end':
        return opt(eng, dty, some=False)
    if k == 'find_map':
        return res[0]
    if k == 'position':
        return opt(eng, dty, eng.cells[pos] if pos is not None else z3.simplify(it2.i - 1 - it.i))
    return opt(eng, dty, res[0])


@reg(IT + 'count', 'core::iter::traits::exact_size::ExactSizeIterator::len')
def it_count(eng, decl, inst, args, atys, dty):
    it = mk_it(eng, args[0], atys)
    if it.kind in ('slice', 'range'):
        return z3.simplify(it.end - it.i)
    raise Unsupported('count')


# ------------------------------------------------------------------ comparisons of primitives
@reg('<str as PartialEq>::eq', '<String as PartialEq>::eq', '<&str as PartialEq>::eq', 'core::str::traits::<impl core::cmp::PartialEq for str>::eq',
     '<Rc as PartialEq>::eq', '<alloc::string::String as core::cmp::PartialEq>::eq', '<String as PartialEq>::ne')
def str_eq(eng, decl, inst, args, atys, dty):
    a, b = _self(eng, args[0]), _self(eng, args[1])
    if E.is_z(a) and E.is_z(b) and a.sort() == eng.p.Str:
        r = z3.simplify(a == b)
        return z3.Not(r) if decl.endswith('ne') else r
    if E.is_z(a) and E.is_z(b) and a.sort().name() == 'Atom':
        return eng.th.eqv(a, b)
    return NotImplemented


@reg('<str as Ord>::cmp', '<Rc as Ord>::cmp', '<String as Ord>::cmp', 'core::str::traits::<impl core::cmp::Ord for str>::cmp')
def str_cmp(eng, decl, inst, args, atys, dty):
    a, b = _self(eng, args[0]), _self(eng, args[1])
    if E.is_z(a) and a.sort() == eng.p.Str:
        rk = eng.th.fun('str_rank', eng.p.Str, z3.IntSort())
        eng.assume((rk(a) == rk(b)) == (a == b))
        return eng.ordering(eng.choose([('lt', rk(a) < rk(b)), ('eq', rk(a) == rk(b)), ('gt', rk(a) > rk(b))]))
    return NotImplemented


@reg('<String as From>::from', '<String as Into>::into', '<&str as Into>::into', 'alloc::str::<impl ToOwned for str>::to_owned')
def str_from(eng, decl, inst, args, atys, dty):
    a = _self(eng, args[0])
    if E.is_z(a) and a.sort() == eng.p.Str:
        return a
    return NotImplemented


@reg('<OrderedFloat as Ord>::cmp', '<ordered_float::OrderedFloat as core::cmp::Ord>::cmp')
def float_cmp(eng, decl, inst, args, atys, dty):
    a, b = [eng.zany(x.fields[0]) if isinstance(x, E.Agg) else x for x in (_self(eng, args[0]), _self(eng, args[1]))]
    rk = eng.th.fun('f64_rank', eng.p.F64, z3.IntSort())
    return eng.ordering(eng.choose([('lt', rk(a) < rk(b)), ('eq', rk(a) == rk(b)), ('gt', rk(a) > rk(b))]))


@reg('<Vec as PartialEq>::eq', '<[] as PartialEq>::eq', 'core::slice::cmp::<impl core::cmp::PartialEq for [T]>::eq', '<[T] as PartialEq>::eq')
def vec_eq(eng, decl, inst, args, atys, dty):
    a, b = _self(eng, args[0]), _self(eng, args[1])
    return eng.th.seq_eqv(eng.zany(a), eng.zany(b))


@reg('core::array::equality::SpecArrayEq::spec_eq')
def array_eq(eng, decl, inst, args, atys, dty):
    a, b = _self(eng, args[0]), _self(eng, args[1])
    k = eng.pointee(atys[0])
    if not (isinstance(a, E.Lst) and isinstance(b, E.Lst)):
        a, b = [eng.zany(x, k) for x in (a, b)]
        if a.sort() != eng.th.PowI['acc'][0].domain(0):
            return NotImplemented
        a, b = eng.th.pow_args(a), eng.th.pow_args(b)
    else:
        a, b = a.e, b.e
    if not all(E.is_z(x) and x.sort() == eng.th.Atom for x in (*a, *b)):
        return NotImplemented
    return z3.And([eng.th.eqv(x, y) for x, y in zip(a, b)])


@reg('core::num::<impl i128>::abs')
def iabs(eng, decl, inst, args, atys, dty):
    a = args[0]
    return z3.simplify(z3.If(a >= 0, a, -a))


@reg('core::num::<impl i128>::rem_euclid', 'core::num::<impl i128>::div_euclid')
def ieuclid(eng, decl, inst, args, atys, dty):
    a, b = args
    k = eng.as_int(b)
    if k is None or k <= 0:
        return NotImplemented
    return z3.simplify(a % k if decl.endswith('rem_euclid') else a / k)


@reg('core::num::<impl i128>::checked_pow')
def ichecked_pow(eng, decl, inst, args, atys, dty):
    b, e = args
    r = eng.th.fun('ipow', z3.IntSort(), z3.IntSort(), z3.IntSort())(b, e)
    k = eng.as_int(e)
    fits = eng.fresh(z3.BoolSort(), 'fits')
    lo, hi = -(1 << 127), (1 << 127) - 1
    if eng.branch(fits):
        eng.assume(z3.And(r >= lo, r <= hi))
        return opt(eng, dty, r)
    return opt(eng, dty, some=False)


@reg('core::intrinsics::likely', 'core::intrinsics::unlikely', 'core::intrinsics::cold_path')
def likely(eng, decl, inst, args, atys, dty):
    return args[0] if args else E.UNIT


def _zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


@reg('core::intrinsics::integer_min')
def integer_min(eng, decl, inst, args, atys, dty):
    a, b = _zi(args[0]), _zi(args[1])
    return z3.simplify(z3.If(a <= b, a, b))


@reg('core::intrinsics::integer_max')
def integer_max(eng, decl, inst, args, atys, dty):
    a, b = _zi(args[0]), _zi(args[1])
    return z3.simplify(z3.If(a >= b, a, b))


@reg('core::intrinsics::saturating_add', 'core::intrinsics::saturating_sub')
def saturating(eng, decl, inst, args, atys, dty):
    lo, hi = eng.int_range(eng.p.st(dty))
    a, b = _zi(args[0]), _zi(args[1])
    r = a + b if 'add' in decl else a - b
    return z3.simplify(z3.If(r < lo, z3.IntVal(lo), z3.If(r > hi, z3.IntVal(hi), r)))


@reg('core::intrinsics::wrapping_add', 'core::intrinsics::wrapping_sub')
def wrapping(eng, decl, inst, args, atys, dty):
    lo, hi = eng.int_range(eng.p.st(dty))
    a, b = _zi(args[0]), _zi(args[1])
    r = a + b if 'add' in decl else a - b
    m = hi - lo + 1
    return z3.simplify(z3.If(r < lo, r + m, z3.If(r > hi, r - m, r)))


# ------------------------------------------------------------------ hash maps: their entries in some order
HM = 'std::collections::hash::map::'


def _mapref(eng, ref):
    while isinstance(eng.read(ref), E.MutRef):
        ref = eng.read(ref)
    return ref


def _find(eng, ref, ty, key):
    """the index of an entry with this key, or None"""
    v = eng.read(ref)
    if isinstance(v, E.Lst) and not v.e:
        return None
    t = eng.p.st(ty)
    pair = eng.elem_ty(ty)
    s = eng.zany(v, ty)
    k = eng.zany(key, t['args'][0])
    nm = '%s:%s' % (s.sort().name(), k.sort().name())
    i = eng.th.fun('slot:' + nm, s.sort(), k.sort(), z3.IntSort())(s, k)
    if not eng.branch(eng.th.fun('occupied:' + nm, s.sort(), k.sort(), z3.BoolSort())(s, k)):
        return None
    eng.assume(z3.And(i >= 0, i < eng.th.LEN(s)))
    have = eng.proj_get(eng.nth(v if isinstance(v, E.Lst) else s, i), ('f', 0, pair, None))
    have = eng.zany(have, t['args'][0])
    if k.sort() == eng.th.Atom:
        eng.assume(eng.th.eqv(have, k))
    elif k.sort().name().startswith('Seq<'):
        eng.assume(eng.th.seq_eqv(have, k))
    elif k.sort() in (z3.IntSort(), z3.RealSort(), eng.p.Str):
        eng.assume(have == k)
    return i


def _mslot(eng, ref, ty, i):
    return E.MutRef(ref.cell, ref.path + (('i', i), ('f', 1, eng.elem_ty(ty), None)))


def _minsert(eng, ref, ty, k, v):
    pair = eng.elem_ty(ty)
    cur = eng.read(ref)
    x = E.Agg(pair, 0, [k, v])
    n = eng.seqlen(cur)
    s = eng.zany(cur, ty) if not isinstance(cur, E.Lst) else eng.zany(cur)
    eng.write(ref, eng.th.push(s, eng.zany(x, pair)))
    return n


@reg(HM + 'HashMap::new', HM + 'HashMap::with_capacity')
def map_new(eng, decl, inst, args, atys, dty):
    return E.Lst(eng.elem_ty(dty), [])


@reg(HM + 'HashMap::insert')
def map_insert(eng, decl, inst, args, atys, dty):
    ref = _mapref(eng, args[0])
    ty = eng.pointee(atys[0])
    i = _find(eng, ref, ty, args[1])
    if i is None:
        _minsert(eng, ref, ty, args[1], args[2])
        return opt(eng, dty, some=False)
    slot = _mslot(eng, ref, ty, i)
    old = eng.read(slot)
    eng.write(slot, args[2])
    return opt(eng, dty, old)


@reg(HM + 'HashMap::get', HM + 'HashMap::get_mut', HM + 'HashMap::contains_key')
def map_get(eng, decl, inst, args, atys, dty):
    if not isinstance(args[0], E.MutRef):
        raise Unsupported('map lookup')
    ref = _mapref(eng, args[0])
    ty = eng.pointee(atys[0])
    key = eng.read(args[1]) if isinstance(args[1], E.MutRef) else args[1]
    i = _find(eng, ref, ty, key)
    if decl.endswith('contains_key'):
        return z3.BoolVal(i is not None)
    if i is None:
        return opt(eng, dty, some=False)
    slot = _mslot(eng, ref, ty, i)
    return opt(eng, dty, slot if decl.endswith('get_mut') else eng.read(slot))


@reg(HM + 'HashMap::entry')
def map_entry(eng, decl, inst, args, atys, dty):
    ref = _mapref(eng, args[0])
    ty = eng.pointee(atys[0])
    return E.It('entry', ref=ref, ty=ty, key=args[1], i=_find(eng, ref, ty, args[1]))


@reg(HM + 'Entry::and_modify')
def entry_modify(eng, decl, inst, args, atys, dty):
    e = args[0]
    if e.i is not None:
        eng.call_value(args[1], [_mslot(eng, e.ref, e.ty, e.i)], None, None)
    return e


@reg(HM + 'Entry::or_insert', HM + 'Entry::or_insert_with', HM + 'Entry::or_default')
def entry_or(eng, decl, inst, args, atys, dty):
    e = args[0]
    if e.i is not None:
        return _mslot(eng, e.ref, e.ty, e.i)
    if decl.endswith('or_default'):
        raise Unsupported('or_default')
    v = args[1] if decl.endswith('or_insert') else eng.call_value(args[1], [], None, None)
    return _mslot(eng, e.ref, e.ty, _minsert(eng, e.ref, e.ty, e.key, v))


@reg(HM + 'HashMap::len')
def map_len(eng, decl, inst, args, atys, dty):
    return eng.seqlen(_self(eng, args[0]))


@reg(HM + 'HashMap::is_empty')
def map_empty(eng, decl, inst, args, atys, dty):
    return z3.simplify(eng.seqlen(_self(eng, args[0])) == 0)


def _miter(eng, v, ty):
    if isinstance(v, E.Lst) and len(v.e) < 2:
        return eng.intr.slice_iter(v, 'own')
    n = getattr(eng, '_morder', 0)
    eng._morder = n + 1
    return eng.intr.slice_iter(eng.th.perm(eng.zany(v), 'order%d' % n), 'own')


@reg(HM + 'HashMap::iter', '<HashMap as IntoIterator>::into_iter', '<&HashMap as IntoIterator>::into_iter', HM + 'HashMap::into_keys', HM + 'HashMap::keys', HM + 'HashMap::into_values', HM + 'HashMap::values')
def map_iter(eng, decl, inst, args, atys, dty):
    ty = eng.pointee(atys[0])
    it = _miter(eng, _self(eng, args[0]), ty)
    k = decl.split('::')[-1]
    if 'keys' in k or 'values' in k:
        return E.It('part', inner=it, n=0 if 'keys' in k else 1)
    return it


@reg(HM + 'HashMap::remove')
def map_remove(eng, decl, inst, args, atys, dty):
    ref = _mapref(eng, args[0])
    ty = eng.pointee(atys[0])
    i = _find(eng, ref, ty, args[1])
    if i is None:
        return opt(eng, dty, some=False)
    old = eng.read(_mslot(eng, ref, ty, i))
    eng.write(ref, eng.th.remove(eng.zany(eng.read(ref), ty), i))
    return opt(eng, dty, old)


# ------------------------------------------------------------------ hash sets: their elements in some order
HS = 'std::collections::hash::set::HashSet::'


@reg(HS + 'new', HS + 'with_capacity')
def set_new(eng, decl, inst, args, atys, dty):
    return E.Lst(eng.elem_ty(dty), [])


def _member(eng, cur, ety, x):
    if isinstance(cur, E.Lst) and not cur.e:
        return z3.BoolVal(False)
    s = eng.zany(cur)
    if x.sort() == eng.th.Atom and s.sort() == eng.th.SeqA:
        return eng.th.contains(s, x)
    return eng.fresh(z3.BoolSort(), 'contains')


@reg(HS + 'contains')
def set_contains(eng, decl, inst, args, atys, dty):
    ety = eng.elem_ty(eng.pointee(atys[0]))
    return _member(eng, _self(eng, args[0]), ety, eng.zany(_self(eng, args[1]), ety))


@reg(HS + 'insert')
def set_insert(eng, decl, inst, args, atys, dty):
    """an element equal to one that is there is not stored"""
    ref = _mapref(eng, args[0])
    ety = eng.elem_ty(eng.pointee(atys[0]))
    cur = eng.read(ref)
    x = eng.zany(args[1], ety)
    if eng.branch(_member(eng, cur, ety, x)):
        return z3.BoolVal(False)
    if isinstance(cur, E.Lst):
        eng.write(ref, E.Lst(cur.ety, cur.e + (x,)))
    else:
        eng.write(ref, eng.th.push(cur, x))
    return z3.BoolVal(True)


@reg(HS + 'len')
def set_len(eng, decl, inst, args, atys, dty):
    return eng.seqlen(_self(eng, args[0]))


@reg(HS + 'is_empty')
def set_empty(eng, decl, inst, args, atys, dty):
    return eng.seqlen(_self(eng, args[0])) == 0


@reg(HS + 'iter', '<HashSet as IntoIterator>::into_iter', '<&HashSet as IntoIterator>::into_iter')
def set_iter(eng, decl, inst, args, atys, dty):
    return _miter(eng, _self(eng, args[0]), None)
