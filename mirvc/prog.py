"""Loading of the MIR dump: types, functions, normalised names, sorts."""
import json, re
import z3


def strip_generics(s):
    """drop every <...> group that is a generic argument list (keeps <X as T> and <impl ..>)"""
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s.startswith('::<', i) and not s.startswith('::<impl', i):
            d = 0
            j = i + 2
            while j < n:
                c = s[j]
                if c == '<':
                    d += 1
                elif c == '>' and s[j - 1] != '-' and s[j-1] != '=':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(s[i])
        i += 1
    return ''.join(out)


def _match(s, i):
    d = 0
    for j in range(i, len(s)):
        c = s[j]
        if c == '<':
            d += 1
        elif c == '>' and s[j - 1] not in '-=':
            d -= 1
            if d == 0:
                return j
    return -1


def _short(p):
    """last path segment, generic arguments dropped (references kept)"""
    p = p.strip()
    pre = ''
    while p.startswith('&') or p.startswith('mut '):
        if p.startswith('&'):
            pre += '&'
            p = p[1:].lstrip()
            if p.startswith("'"):
                p = p.split(' ', 1)[1] if ' ' in p else p
        else:
            pre += 'mut '
            p = p[4:]
    d = 0
    last = 0
    for i, c in enumerate(p):
        if c in '<([':
            d += 1
        elif c in '>)]' and not (c == '>' and p[i - 1] in '-='):
            d -= 1
        elif c == ':' and d == 0:
            last = i + 1
        elif c == ' ' and d == 0:
            pass
    q = p[last:] if not p.startswith(('{', '[', '(', 'for<', 'fn(')) else p
    k = q.find('<')
    if k > 0:
        q = q[:k]
    return pre + q


def norm(name):
    """calcu_rs::algos::<impl calcu_rs::atom::Expr>::add::<&Expr> -> Expr::add
       <calcu_rs::atom::Pow as calcu_rs::atom::SymbolicExpr>::reduce -> <Pow as SymbolicExpr>::reduce
       free functions: path without the crate and module prefix"""
    s = strip_generics(name)
    if ' as core::cmp::PartialEq<calcu_rs::' in name and name.startswith('<calcu_rs::') and name.endswith('>>::eq'):
        a, b = name[1:-len('>>::eq')].split(' as core::cmp::PartialEq<')
        return '<%s as PartialEq<%s>>::eq' % (_short(a), _short(b))
    m = s.find('<impl ')
    if m >= 0:
        e = _match(s, m)
        inner = s[m + 6:e]
        rest = s[e + 1:].lstrip(':')
        if inner.startswith('<'):
            inner = inner[_match(inner, 0) + 1:].strip()
        k = _split_for(inner)
        if k:
            return '<%s as %s>::%s' % (_short(k[1]), _short(k[0]), rest)
        return '%s::%s' % (_short(inner), rest)
    if s.startswith('<'):
        e = _match(s, 0)
        inner = s[1:e]
        rest = s[e + 1:].lstrip(':')
        k = inner.rfind(' as ')
        if k >= 0:
            return '<%s as %s>::%s' % (_short(inner[:k]), _short(inner[k + 4:]), rest)
        return '%s::%s' % (_short(inner), rest)
    if s.startswith('calcu_rs::'):
        parts = s.split('::')[1:]
        # drop the module
        if len(parts) > 1 and parts[0][:1].islower():
            parts = parts[1:]
        return '::'.join(parts)
    return s


def _split_for(s):
    d = 0
    for i in range(len(s)):
        c = s[i]
        if c in '<(':
            d += 1
        elif c in '>)' and s[i - 1] not in '-=':
            d -= 1
        elif d == 0 and s.startswith(' for ', i):
            return s[:i], s[i + 5:]
    return None


class Unsupported(Exception):
    pass


TRANSPARENT_STD = ('alloc::rcs::rc::Rc', 'alloc::rc::Rc', 'alloc::boxed::Box', 'alloc::sync::Arc',
                   'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_uninit::MaybeUninit',
                   'core::pin::Pin', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull')
MAP = 'std::collections::hash::map::HashMap'
SET = 'std::collections::hash::set::HashSet'
VEC = ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque')
STRING = ('alloc::string::String',)
RATIONAL = 'calcu_rs::rational::Rational'
RATIO = 'num_rational::Ratio'


class Prog:
    def __init__(self, path, mode='expr'):
        d = json.load(open(path))
        self.mode = mode
        self.ty = {t['id']: t for t in d['types']}
        for t in d['types']:      # discriminants come as bits; Ordering is the one enum with a negative one
            if t['name'] == 'core::cmp::Ordering':
                for v in t['variants']:
                    v['discr'] = -1 if v['discr'] == 255 else v['discr']
        self.fn = {f['id']: f for f in d['fns']}
        self.by_norm = {}
        self.by_name = {}
        for f in d['fns']:
            f['norm'] = norm(f['name'])
            self.by_norm.setdefault(f['norm'], []).append(f)
            self.by_name[f['name']] = f
        self._strip = {}
        self._key = {}
        self._sort = {}
        self.dt = {}      # sort key -> info dict(sort, variants)
        self.F64 = z3.DeclareSort('F64')
        self.Str = z3.DeclareSort('Str')
        self.Hash = z3.DeclareSort('HashTok')
        self.opaque = {}
        self._heads = {}

    # ---- types
    def t(self, tid):
        return self.ty[tid]

    def is_zst(self, tid):
        t = self.ty[tid]
        if t['k'] == 'tuple':
            return all(self.is_zst(e) for e in t['elems'])
        if t['k'] == 'adt':
            if t['akind'] == 'Struct':
                fs = t['variants'][0]['fields']
                return all(self.is_zst(f[1]) for f in fs)
            return False
        if t['k'] == 'fndef':
            return True
        if t['k'] == 'array':
            return t.get('len') == 0
        return False

    def is_rational(self, t):
        return self.mode == 'expr' and t['k'] == 'adt' and t['def'] in (RATIONAL, RATIO)

    def newtype_field(self, t):
        """index of the single non-ZST field of a transparent struct, else None"""
        if t['k'] != 'adt' or t['akind'] != 'Struct' or t['def'] in VEC or t['def'] in STRING:
            return None
        if self.is_rational(t) or 'HashMap' in t['def'] or 'HashSet' in t['def'] or 'BTree' in t['def']:
            return None
        if t['def'].startswith(('core::slice::iter', 'core::ops::range', 'core::iter::', 'alloc::vec::', 'std::thread', 'core::fmt', 'core::hash')):
            return None
        fs = t['variants'][0]['fields']
        nz = [i for i, f in enumerate(fs) if not self.is_zst(f[1])]
        if len(nz) == 1:
            return nz[0]
        return None

    def strip(self, tid):
        r = self._strip.get(tid)
        if r is not None:
            return r
        cur = tid
        for _ in range(50):
            t = self.ty[cur]
            if t['k'] == 'ref' and not t['mut']:
                cur = t['to']
            elif t['k'] == 'ptr' and not t['mut']:
                cur = t['to']
            elif t['k'] == 'adt' and t['def'] in TRANSPARENT_STD:
                cur = t['args'][0]
            else:
                i = self.newtype_field(t)
                if i is None:
                    break
                cur = t['variants'][0]['fields'][i][1]
        self._strip[tid] = cur
        return cur

    def st(self, tid):
        return self.ty[self.strip(tid)]

    def key(self, tid):
        r = self._key.get(tid)
        if r:
            return r
        t = self.st(tid)
        k = t['k']
        if k in ('bool', 'char', 'int', 'float', 'str'):
            r = {'bool': 'Bool', 'char': 'Int', 'int': 'Int', 'float': 'F64', 'str': 'Str'}[k]
        elif self.is_rational(t):
            r = 'Q'
        elif k == 'adt' and t['def'] in STRING:
            r = 'Str'
        elif k == 'adt' and t['def'] in VEC:
            r = 'Seq<%s>' % self.key(t['args'][0])
        elif k == 'slice':
            r = 'Seq<%s>' % self.key(t['elem'])
        elif k == 'array':
            r = 'Arr%d<%s>' % (t['len'], self.key(t['elem']))
        elif k == 'tuple':
            r = '(%s)' % ','.join(self.key(e) for e in t['elems'])
        elif k == 'adt':
            d = t['def'].split('::')[-1]
            if t['def'] == MAP:
                # entries in some order
                r = 'Seq<(%s,%s)>' % (self.key(t['args'][0]), self.key(t['args'][1]))
            elif t['def'] == SET:
                # elements in some order
                r = 'Seq<%s>' % self.key(t['args'][0])
            elif 'std::collections' in t['def'] or 'BTree' in t['def']:
                d = 'Coll_' + d
                r = '%s<%s>' % (d, ','.join(self.key(a) for a in t['args'][:(1 if 'Set' in d else 2)]))
            else:
                r = d
                if t['args']:
                    r += '<%s>' % ','.join(self.key(a) for a in t['args'])
        else:
            r = 'X%s:%s' % (k, t['name'])
        self._key[tid] = r
        return r

    def has_sort(self, tid, seen=None):
        t = self.st(tid)
        k = t['k']
        seen = seen or set()
        if t['id'] in seen:
            return True
        seen.add(t['id'])
        if k in ('bool', 'char', 'int', 'float', 'str'):
            return True
        if k in ('slice',):
            return self.has_sort(t['elem'], seen)
        if k == 'array':
            return t['len'] is not None and t['len'] <= 4 and self.has_sort(t['elem'], seen)
        if k == 'tuple':
            return len(t['elems']) > 0 and all(self.has_sort(e, seen) for e in t['elems'])
        if k == 'adt':
            if self.is_rational(t) or t['def'] in STRING:
                return True
            if t['def'] in VEC:
                return self.has_sort(t['args'][0], seen)
            if 'std::collections' in t['def'] or 'BTree' in t['def']:
                return True
            if t['def'].startswith(('core::slice::iter', 'core::iter::', 'alloc::vec::', 'std::thread', 'core::fmt', 'core::any', 'alloc::alloc')):
                return False
            return all(self.has_sort(f[1], seen) for v in t['variants'] for f in v['fields'])
        return False

    def sort(self, tid):
        key = self.key(tid)
        s = self._sort.get(key)
        if s is not None:
            return s
        t = self.st(tid)
        k = t['k']
        if key == 'Bool':
            s = z3.BoolSort()
        elif key == 'Int':
            s = z3.IntSort()
        elif key == 'Q':
            s = z3.RealSort()
        elif key == 'F64':
            s = self.F64
        elif key == 'Str':
            s = self.Str
        elif key.startswith('Seq<') or key.startswith('Coll_'):
            s = z3.DeclareSort(key)
            self._sort[key] = s
            return s
        else:
            if not self.has_sort(tid):
                raise Unsupported('no sort for type %s' % t['name'])
            # collect the recursive group
            group = {}
            self._collect(tid, group)
            dts = {}
            for kk, tt in group.items():
                dts[kk] = z3.Datatype(kk)
            infos = {}
            for kk, tt in group.items():
                vs = self._variants(tt)
                info = []
                for vi, (vname, fields) in enumerate(vs):
                    cn = '%s.%s' % (kk, vname)
                    fl = []
                    for fi, fty in enumerate(fields):
                        if self.is_zst(fty):
                            continue
                        fk = self.key(fty)
                        fs = dts[fk] if fk in dts else self.sort(fty)
                        fl.append(('%s.%d' % (cn, fi), fs))
                    dts[kk].declare(cn, *fl)
                    info.append((vname, [fi for fi, fty in enumerate(fields) if not self.is_zst(fty)], fields))
                infos[kk] = info
            keys = list(group)
            made = z3.CreateDatatypes(*[dts[kk] for kk in keys])
            for kk, srt in zip(keys, made):
                self._sort[kk] = srt
                vs = []
                for vi, (vname, nz, fields) in enumerate(infos[kk]):
                    ctor = srt.constructor(vi)
                    accs = {fi: srt.accessor(vi, j) for j, fi in enumerate(nz)}
                    vs.append(dict(name=vname, ctor=ctor, rec=srt.recognizer(vi), acc=accs, nz=nz, fields=fields))
                self.dt[kk] = dict(sort=srt, variants=vs, key=kk)
            return self._sort[key]
        self._sort[key] = s
        return s

    def _variants(self, t):
        if t['k'] == 'array':
            return [('arr', [t['elem']] * t['len'])]
        if t['k'] == 'tuple':
            return [('tup', t['elems'])]
        return [(v['name'], [f[1] for f in v['fields']]) for v in t['variants']]

    def _collect(self, tid, group):
        key = self.key(tid)
        if key in group or key in self._sort:
            return
        t = self.st(tid)
        if key in ('Bool', 'Int', 'Q', 'F64', 'Str') or key.startswith(('Seq<', 'Coll_')):
            self.sort(tid)
            return
        group[key] = t
        for vname, fields in self._variants(t):
            for f in fields:
                if not self.is_zst(f):
                    self._collect(f, group)

    def dtinfo(self, sort):
        return self.dt.get(sort.name())

    def find_type(self, defpath, args=None):
        for t in self.ty.values():
            if t['k'] == 'adt' and t['def'] == defpath and (args is None or t['args'] == args):
                return t['id']
        raise Unsupported('type %s not found' % defpath)

    # ---- control flow
    def succs(self, term):
        k = term[0]
        if k == 'goto':
            return [term[1]]
        if k == 'switch':
            return [x[1] for x in term[2]] + ([term[3]] if term[3] is not None else [])
        if k == 'drop':
            return [term[2]]
        if k == 'call':
            return [term[4]] if term[4] is not None else []
        if k == 'assert':
            return [term[4]]
        return []

    def loops(self, f):
        """header -> set of blocks of the natural loop"""
        if f['id'] in self._heads:
            return self._heads[f['id']]
        blocks = f['blocks']
        succ = [self.succs(b['t']) for b in blocks]
        preds = [[] for _ in blocks]
        for i, ss in enumerate(succ):
            for s in ss:
                preds[s].append(i)
        color = {}
        back = []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            adv = False
            for s in it:
                if color.get(s) is None:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    adv = True
                    break
                elif color[s] == 1:
                    back.append((n, s))
            if not adv:
                color[n] = 2
                stack.pop()
        heads = {}
        for n, h in back:
            body = heads.setdefault(h, {h})
            w = [n]
            while w:
                x = w.pop()
                if x not in body:
                    body.add(x)
                    w.extend(p for p in preds[x] if p in color)
        self._heads[f['id']] = heads
        return heads
