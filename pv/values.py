"""Runtime values of the symbolic interpreter."""
from fractions import Fraction
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE, NAN, INF, num, lift, mk, var, sel, ite, eq, lt, le, and_, or_, not_, add, sub, mul, neg, subst


class Unsupported(Exception):
    """construct outside the verifier's reach (never a violation)"""


class PyRaise(Exception):
    def __init__(self, cls, args=()):
        self.cls, self.eargs = cls, args
        super().__init__(cls.__name__, args)


class Poison:
    def __init__(self, why):
        self.why = why


class Cx:
    """complex scalar"""
    __slots__ = ('re', 'im')

    def __init__(self, re, im=ZERO):
        self.re, self.im = lift(re), lift(im)

    def __repr__(self):
        return f'({self.re} + i {self.im})'


def strT(s):
    return mk('str', (s,), 's')


_serial = [0]


def serial():
    _serial[0] += 1
    return _serial[0]


def dim(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    if isinstance(x, T):
        if x.op == 'num':
            return int(x.args[0])
        c = tm.canon(x)
        return int(c.args[0]) if c.op == 'num' else x
    raise Unsupported(f'dimension {x!r}')


def conc(x):
    """normalise a scalar: concrete numbers/bools to Python"""
    if isinstance(x, T):
        if x.op == 'num':
            v = x.args[0]
            return int(v) if v.denominator == 1 else v
        if x is TRUE:
            return True
        if x is FALSE:
            return False
        if x.op == 'str':
            return x.args[0]
    return x


CONSULT = [0]       # counts conclusions drawn from the current facts
FACTS = [lambda: ()]


def remember(memo, key, fn, idx):
    """value of a cell; a value that used facts is reused only where those facts hold"""
    r = memo.get(key)
    if r is not None:
        return r
    k2 = (key, 'facts')
    old = memo.get(k2)
    if old:
        now = {f.id for f in FACTS[0]()}
        for fs, r in old:
            if fs <= now:
                CONSULT[0] += 1
                return r
    c = CONSULT[0]
    r = fn(idx)
    if CONSULT[0] == c:
        memo[key] = r
    else:
        memo.setdefault(k2, []).append((frozenset(f.id for f in FACTS[0]()), r))
    return r


class Buf:
    __slots__ = ('shape', 'fn', 'kind', 'ser', 'memo', 'tag', 'reads')

    def __init__(self, shape, fn, kind='f', tag=None):
        self.shape = tuple(dim(d) for d in shape)
        self.fn, self.kind = fn, kind
        self.ser = serial()
        self.memo = {}
        self.tag = tag
        self.reads = 0

    def at(self, idx):
        return remember(self.memo, tuple(i.id for i in idx), self.fn, idx)


class Arr:
    """ndarray (possibly a view of a buffer)"""
    __slots__ = ('buf', 'shape', 'imap', 'rev', 'pieces')

    def __init__(self, buf, shape=None, imap=None, rev=None):
        self.buf = buf
        self.shape = buf.shape if shape is None else tuple(dim(d) for d in shape)
        self.imap = imap
        self.rev = rev      # buffer idx -> (hit condition, view idx)

    @property
    def kind(self):
        return self.buf.kind

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *idx):
        idx = tuple(lift(i) for i in idx)
        if self.imap:
            idx = self.imap(idx)
        hook = READ_HOOK[0]
        if hook:
            hook(self.buf)
        return self.buf.at(idx)

    def snap(self):
        """immutable content function"""
        buf, imap = self.buf, self.imap
        hook = READ_HOOK[0]
        if hook:
            hook(buf)
        fn, memo = buf.fn, buf.memo

        def get(idx):
            if imap:
                idx = imap(idx)
            return remember(memo, tuple(i.id for i in idx), fn, idx)
        return get


READ_HOOK = [None]


def mkarr(shape, fn, kind='f', tag=None):
    return Arr(Buf(shape, fn, kind, tag))


class SList:
    """Python list of symbolic length"""
    def __init__(self, n, fn):
        self.n, self.fn = dim(n), fn
        self.ser = serial()


class Seq:
    """one-shot iterable with length n (int or term) and getter"""
    def __init__(self, n, get, filt=None):
        self.n, self.get = dim(n), get


class Filter:
    """sub-sequence of 0..n-1 where mask holds; sigma(j) is the j-th selected index"""
    table = {}

    def __init__(self, key, mask, n):
        self.key, self.mask, self.n = key, mask, n
        k = var(f'k#F{key}', 'i')
        self.count = tm.sumT(ite(mask(k), ONE, ZERO), k, ZERO, lift(n))
        self.name = f'sigma{key}'

    def sigma(self, j):
        j = lift(j)
        if j.op == 'sel' and j.args[0] == f'rank{self.key}':    # only formed for selected positions
            return j.args[1]
        return sel(self.name, j, sort='i')


class LastWrite:
    """value written to a cell by the last of the iterations 0 <= i < n that write it (for models; opaque to the solver)"""
    table = {}


def last_write(raw, i, n):
    key = tuple((c.id, v.id) for c, v in raw) + (i.id, lift(n).id)
    w = LastWrite.table.get(key)
    if w is None:
        w = LastWrite.table[key] = LastWrite()
        w.raw, w.i, w.n = raw, i, lift(n)
        w.vars = sorted({v for c, x in raw for t in (c, x, w.n) for v in tm.freevars(t)} - {i}, key=lambda t: t.args[0])
        w.name = f'lw{len(LastWrite.table)}'
        w.sort = 'b' if all(v.sort == 'b' for _, v in raw) else 'i' if all(v.sort == 'i' for _, v in raw) else 'r'
        LastWrite.table[w.name] = LastWrite.table[w.name + '?'] = w
    return [(sel(w.name + '?', *w.vars, sort='b'), sel(w.name, *w.vars, sort=w.sort))]


class Defined:
    """functions kept folded in proofs: name -> (parameters, defining term), unfolded in models"""
    table = {}


def defined(tag, params, body, args):
    body = tm.canon(body)
    name = f'{tag}#{body.id}'
    Defined.table[name] = (params, body)
    return sel(name, *args, sort=body.sort)


class LazyFilter(Filter):
    """selection whose mask has a value at given positions only, not as a term over all of them"""
    def __init__(self, key, mask, n, hold):
        self.key, self.mask, self.n, self.hold = key, mask, n, hold
        self.count = var(f'selected#{key}', 'i')
        self.name = f'sigma{key}'


def lazy_filter(mask, n, hold):
    """hold: objects that identify the mask"""
    key = ('lazy',) + tuple(id(h) for h in hold)
    f = Filter.table.get(key)
    if f is None:
        f = Filter.table[key] = LazyFilter(len(Filter.table), mask, n, hold)
    return f


def same_mask(a, b):
    from .smt import Solver
    a, b = tm.canonb(a), tm.canonb(b)
    if not tm.freevars(a) & tm.freevars(b):
        return False
    s = Solver({})
    return all(s.check([x, tm.canonb(tm.not_(y))], 500) == 'unsat' for x, y in ((a, b), (b, a)))


def filter_for(mask, n):
    """mask: function int term -> bool term"""
    k = var('k#M', 'i')
    m = tm.canonb(mask(k))
    key = (m.id, tm.canon(lift(n)).id)
    f = Filter.table.get(key)
    if f is None:
        for g in [g for g in Filter.table.values() if not isinstance(g, LazyFilter)]:     # the same selection written differently
            if tm.canon(lift(g.n)).id == key[1] and same_mask(g.mask(k), m):
                Filter.table[key] = g
                return g
        f = Filter(len(Filter.table), lambda i, m=m, k=k: subst(m, {k: i}), n)
        Filter.table[key] = f
        tm.FILTERS[f.name] = f
    return f


FACTGENS = {}


class _FG(dict):
    def get(self, name, d=None):
        r = dict.get(self, name)
        if r is None and name.startswith('sigma') and name[5:].isdigit():
            f = next((f for f in Filter.table.values() if f.name == name), None)
            if f is not None:
                def g(j, f=f):
                    s = f.sigma(j)
                    rng = and_(le(ZERO, j), lt(j, f.count))
                    sel_ = TRUE if isinstance(f, LazyFilter) else f.mask(s)
                    return [tm.implies(rng, and_(le(ZERO, s), lt(s, lift(f.n)), sel_))]
                self[name] = g
                return g
        return r


class ClassV:
    def __init__(self, name, bases, ns, qual):
        self.name, self.bases, self.ns, self.qual = name, bases, ns, qual

    def mro(self):
        return _c3(self)

    def find(self, attr):
        for c in self.mro():
            if attr in c.ns:
                return c, c.ns[attr]
        return None, None

    def __repr__(self):
        return f'<class {self.name}>'


def _c3(c):
    seqs = [list(_c3(b)) for b in c.bases if isinstance(b, ClassV)] + [[b for b in c.bases if isinstance(b, ClassV)]]
    out = [c]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Unsupported('mro')
        out.append(h)
        for s in seqs:
            if s and s[0] is h:
                s.pop(0)


class Obj:
    def __init__(self, cls, attrs=None, tag='obj'):
        self.cls, self.attrs, self.tag = cls, attrs if attrs is not None else {}, tag
        self.ser = serial()


class Func:
    def __init__(self, node, env, qual, module, cls=None, defaults=None, kwdefaults=None):
        self.node, self.env, self.qual, self.module, self.cls = node, env, qual, module, cls
        self.defaults, self.kwdefaults = defaults or [], kwdefaults or {}

    def __repr__(self):
        return f'<function {self.qual}>'


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Partial:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Native:
    """builtin function fn(I, args, kwargs)"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f'<native {self.name}>'


class TypeV:
    """builtin type usable in isinstance and as constructor"""
    def __init__(self, name, test, make=None):
        self.name, self.test, self.make = name, test, make


class ModV:
    def __init__(self, name, ns=None, getter=None):
        self.name, self.ns, self.getter = name, ns if ns is not None else {}, getter


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ExcObj:
    def __init__(self, cls, args):
        self.cls, self.args = cls, args


class Env:
    __slots__ = ('vars', 'parent', 'isfn', 'globals_', 'nonloc')

    def __init__(self, parent=None, vars_=None):
        self.vars = vars_ if vars_ is not None else {}
        self.parent = parent
        self.globals_ = set()
        self.nonloc = set()

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e
            e = e.parent
        return None


def vsubst(v, m):
    """substitute terms inside a value"""
    if isinstance(v, T):
        return conc(subst(v, m))
    if isinstance(v, Cx):
        return Cx(subst(v.re, m), subst(v.im, m))
    if isinstance(v, Arr):
        get = v.snap()
        k0 = list(m.items())
        shape = tuple(dim(subst(lift(d), m)) for d in v.shape)
        ph = {}

        def fn(idx):
            # indices are not subject to the substitution: use placeholders where they mention keys
            if any(a in tm.freevars(i) for i in idx for a in m if a.op == 'var'):
                ps = tuple(var(f'ph#{n}', 'i') for n in range(len(idx)))
                r = get(ps)
                r = vsubst(r, m)
                return vs_raw(r, dict(zip(ps, idx)))
            return vs_raw(get(idx), m)
        return Arr(Buf(shape, fn, v.kind, v.buf.tag))
    if isinstance(v, tuple):
        return tuple(vsubst(x, m) for x in v)
    if isinstance(v, list):
        return [vsubst(x, m) for x in v]
    if isinstance(v, SList):
        return SList(dim(subst(lift(v.n), m)), lambda i: vsubst(v.fn(i), m))
    if isinstance(v, dict):
        return {k: vsubst(x, m) for k, x in v.items()}
    return v


def vs_raw(r, m):
    if isinstance(r, T):
        return subst(r, m)
    if isinstance(r, Cx):
        return Cx(subst(r.re, m), subst(r.im, m))
    return r


def vfree(v, seen=None):
    """free variables mentioned by a value (arrays probed at placeholder indices)"""
    if isinstance(v, T):
        return tm.freevars(v)
    if isinstance(v, Cx):
        return tm.freevars(v.re) | tm.freevars(v.im)
    if isinstance(v, Arr):
        ps = tuple(var(f'ph#{n}', 'i') for n in range(v.ndim))
        r = v.at(*ps)
        out = vfree(r) - set(ps)
        for d in v.shape:
            if isinstance(d, T):
                out |= tm.freevars(d)
        return out
    if isinstance(v, (tuple, list)):
        s = frozenset()
        for x in v:
            s |= vfree(x)
        return s
    return frozenset()


def vite(c, a, b):
    """value-level if-then-else; raises Unsupported when shapes differ"""
    if a is b:
        return a
    c = lift(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and all(
            tm.eq(lift(x), lift(y)) is TRUE for x, y in zip(a.shape, b.shape)):
        ga, gb = a.snap(), b.snap()
        k = a.kind if a.kind == b.kind else 'f'
        return mkarr(a.shape, lambda idx: cite(c, ga(idx), gb(idx)), k)
    if isinstance(a, Cx) or isinstance(b, Cx):
        return cite(c, a, b)
    if isinstance(a, (T, int, Fraction, bool)) and isinstance(b, (T, int, Fraction, bool)):
        if type(a) is type(b) and not isinstance(a, T) and a == b:
            return a
        return conc(ite(c, lift(a), lift(b)))
    if isinstance(a, str) and isinstance(b, str):
        return a if a == b else ite(c, strT(a), strT(b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [vite(c, x, y) for x, y in zip(a, b)]
    raise Unsupported(f'merge of {type(a).__name__} and {type(b).__name__}')


def cite(c, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a = a if isinstance(a, Cx) else Cx(a)
        b = b if isinstance(b, Cx) else Cx(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    return ite(c, lift(a), lift(b))
