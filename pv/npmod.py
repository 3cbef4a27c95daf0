"""Models (assumed contracts) of the Python builtins, numpy and scipy functions reached from weac.

Every entry here is part of the trusted base: it states what the library function returns on
mathematical reals.  The models are cross-checked against CPython/numpy on sampled inputs by
``pv/selftest.py``.
"""
from fractions import Fraction
import itertools
from . import terms as tm
from .terms import (T, TRUE, FALSE, ZERO, ONE, NAN, INF, num, lift, mk, var, sel, ite, eq, lt, le,
                    and_, or_, not_, add, sub, mul, neg, subst, canon, canonb)
from .values import *
from . import values as V


def _unsup(m):
    raise Unsupported(m)


def nat(name):
    def deco(f):
        return Native(name, f)
    return deco


class DType:
    def __init__(self, kind):
        self.kind = kind


def dkind(dt, default='f'):
    if dt is None:
        return default
    if isinstance(dt, DType):
        return dt.kind
    if isinstance(dt, TypeV):
        return {'float': 'f', 'int': 'i', 'bool': 'b', 'complex': 'c', 'str': 's'}.get(dt.name, 'O')
    if isinstance(dt, str):
        return {'f': 'f', 'd': 'f', 'i': 'i', 'b': 'b', 'c': 'c'}.get(dt.lstrip('<>=')[0], 'O')
    raise Unsupported('dtype')


def kmax(*ks):
    for k in ('O', 's', 'c', 'f', 'i', 'b'):
        if k in ks:
            return k
    return 'f'


def arrkind(v):
    from .interp import kind_of
    return kind_of(v)


def fresh_probe(I, n=None):
    return I.fresh('p')


# --- conversion -------------------------------------------------------------
def asarr(I, v, dtype=None):
    from .interp import _unwrap, lift_
    v = _unwrap(v)
    if isinstance(v, Arr):
        return v
    if isinstance(v, Seq):
        raise Unsupported('array of iterator')
    if isinstance(v, SList):
        if isinstance(v.n, int):
            return asarr(I, [v.fn(num(k)) for k in range(v.n)])
        k = I.fresh('p')
        x = v.fn(k)
        if isinstance(x, (list, tuple, SList)):
            a0 = asarr(I, x)
            return mkarr((v.n,) + a0.shape, lambda idx: asarr(I, v.fn(idx[0])).at(*idx[1:]), a0.kind)
        if isinstance(x, Arr):
            for d in x.shape:
                if isinstance(d, T) and k in tm.freevars(d):
                    raise Unsupported('ragged array')
            return mkarr((v.n,) + x.shape, lambda idx: v.fn(idx[0]).at(*idx[1:]), x.kind)
        return mkarr((v.n,), lambda idx: lift_(v.fn(idx[0])), arrkind(x))
    if isinstance(v, (list, tuple)):
        items = [(_unwrap(x) if isinstance(x, list) else x) for x in v]
        if not items:
            return mkarr((0,), lambda idx: ZERO)
        if any(isinstance(x, (list, tuple, SList, Arr)) for x in items):
            subs = []
            for x in items:
                if not isinstance(x, (list, tuple, SList, Arr)):
                    raise PyRaise(ValueError, ('inhomogeneous shape',))
                subs.append(asarr(I, x))
            sh = subs[0].shape
            for s in subs[1:]:
                if len(s.shape) != len(sh):
                    raise PyRaise(ValueError, ('inhomogeneous shape',))
                for a, b in zip(s.shape, sh):
                    I.same_dim(a, b)
            gs = [s.snap() for s in subs]
            kind = kmax(*[s.kind for s in subs])

            def fn(idx):
                i = canon(idx[0])
                if i.op == 'num':
                    return gs[int(i.args[0])](idx[1:])
                r = gs[-1](idx[1:])
                for j in range(len(gs) - 2, -1, -1):
                    r = cite(eq(i, num(j)), gs[j](idx[1:]), r)
                return r
            return mkarr((len(items),) + sh, fn, kind)
        ts = [x if isinstance(x, Cx) else _scal(x) for x in items]
        kind = kmax(*[arrkind(x) for x in items])
        if kind in ('i', 'f'):
            ts = [tm._toarith(t) if isinstance(t, T) else t for t in ts]

        def fn1(idx):
            i = canon(idx[0])
            if i.op == 'num':
                return ts[int(i.args[0])]
            r = ts[-1]
            for j in range(len(ts) - 2, -1, -1):
                r = cite(eq(i, num(j)), ts[j], r)
            return r
        return mkarr((len(items),), fn1, kind)
    if isinstance(v, (dict, Obj, ModV, Func)):
        raise Unsupported(f'array of {type(v).__name__}')
    c = v if isinstance(v, Cx) else _scal(v)
    return mkarr((), lambda idx: c, arrkind(v))


def _scal(x):
    if x is None:
        raise Unsupported('None in array')
    if isinstance(x, (T, int, Fraction, bool, str)):
        return lift(x)
    if isinstance(x, Cx):
        return x
    raise Unsupported(f'{type(x).__name__} in array')


def isseq(v):
    return isinstance(v, (list, tuple, SList, Arr))


def copyarr(a, kind=None):
    g = a.snap()
    return mkarr(a.shape, g, kind or a.kind)


def tscalar(v):
    """0-d array -> scalar"""
    if isinstance(v, Arr) and v.ndim == 0:
        r = v.at()
        return r if isinstance(r, Cx) else conc(r)
    return v


def cast(I, a, kind):
    if kind == a.kind or kind == 'O':
        return copyarr(a)
    g = a.snap()
    if kind == 'f':
        return mkarr(a.shape, lambda idx: _tof(g(idx)), 'f')
    if kind == 'i':
        from .interp import _trunc
        if a.kind == 'b':
            return mkarr(a.shape, lambda idx: tm._toarith(g(idx)), 'i')
        return mkarr(a.shape, lambda idx: _trunc(g(idx)), 'i')
    if kind == 'b':
        return mkarr(a.shape, lambda idx: not_(eq(g(idx), ZERO)), 'b')
    if kind == 'c':
        return mkarr(a.shape, lambda idx: g(idx) if isinstance(g(idx), Cx) else Cx(g(idx)), 'c')
    raise Unsupported('cast')


def _tof(x):
    if isinstance(x, Cx):
        return x.re
    return tm._toarith(x)


def axisof(I, ax, nd):
    ax = conc(ax)
    if not isinstance(ax, int):
        raise Unsupported('axis')
    if not -nd <= ax < nd:
        raise PyRaise(ValueError, ('axis out of bounds',))
    return ax % nd


# --- elementwise ------------------------------------------------------------
def ufunc(name, f, kind=None):
    def fn(I, args, kw):
        if kw.get('out') is not None or set(kw) - {'dtype'}:
            raise Unsupported(name + ' keyword')
        args = [asarr(I, a) if isseq(a) else a for a in args]
        if any(isinstance(a, Arr) for a in args):
            from .interp import _kind2
            k = kind
            if k is None:
                k = kmax(*[a.kind if isinstance(a, Arr) else arrkind(a) for a in args])
            r = I.elementwise(lambda *xs: _l(f(I, *xs)), args, k)
            return tscalar(r)
        if any(x is None or isinstance(x, (str, dict)) for x in args):
            raise PyRaise(TypeError, (name,))
        return conc(f(I, *[a if isinstance(a, Cx) else _scal(a) for a in args]))
    return Native(name, fn)


def _l(x):
    return x if isinstance(x, (Cx, T)) else lift(x)


def _real(name):
    def f(I, x):
        if isinstance(x, Cx):
            if name == 'exp':
                e = tm.fn('exp', x.re)
                return Cx(mul(e, tm.fn('cos', x.im)), mul(e, tm.fn('sin', x.im)))
            raise Unsupported('complex ' + name)
        return tm.fn(name, x)
    return f


def _abs(I, x):
    if isinstance(x, Cx):
        return tm.fn('sqrt', add(mul(x.re, x.re), mul(x.im, x.im)))
    if x.op == 'num':
        return num(abs(x.args[0]))
    if any(u.op == 'sel' for u in tm.subterms(x)) and I.entails(le(ZERO, x), timeout=500):
        return x
    return tm.fn('abs', x)


def _sign(I, x):
    return ite(lt(ZERO, x), ONE, ite(lt(x, ZERO), num(-1), ZERO))


def _isfin(I, x):
    return not_(tm.isnan(x)) if not tm.contains(x, lambda t: t is INF) else FALSE


def _round(I, x):
    raise Unsupported('round')


DEG = tm.div(tm.PI, num(180))


# --- reductions -------------------------------------------------------------
def reduce_(I, a, axis, f1, kind):
    """f1(content fn over one int index, n) -> scalar"""
    g = a.snap()
    if axis is None:
        if a.ndim == 1:
            return f1(lambda i: g((i,)), a.shape[0])
        if a.ndim == 0:
            return f1(lambda i: g(()), 1)
        if a.ndim == 2:
            if f1.assoc:
                return f1(lambda i: f1.raw(lambda j: g((i, j)), a.shape[1]), a.shape[0])
        raise Unsupported('reduction of n-d array')
    ax = axisof(I, axis, a.ndim)
    n = a.shape[ax]
    shape = a.shape[:ax] + a.shape[ax + 1:]
    if not shape:
        return f1(lambda i: g((i,)), n)
    return mkarr(shape, lambda idx: _l(f1(lambda i: g(tuple(idx[:ax]) + (i,) + tuple(idx[ax:])), n)), kind)


class Red:
    assoc = True

    def __init__(self, I, f):
        self.I, self.f = I, f

    def raw(self, g, n):
        return _l(self.f(self.I, g, n))

    def __call__(self, g, n):
        r = self.raw(g, n)
        return r if isinstance(r, Cx) else conc(r)


def sum_fn(I, g, n):
    from .interp import _cadd
    if isinstance(n, int):
        r = ZERO
        for k in range(n):
            r = _cadd(r, _tofc(g(num(k))))
        return r
    k = I.fresh('k')
    b = _tofc(g(k))
    if isinstance(b, Cx):
        return Cx(tm.sumT(b.re, k, ZERO, n), tm.sumT(b.im, k, ZERO, n))
    return tm.sumT(b, k, ZERO, n)


def _tofc(x):
    return x if isinstance(x, Cx) else tm._toarith(x)


def prod_fn(I, g, n):
    if not isinstance(n, int):
        raise Unsupported('symbolic product')
    r = ONE
    for k in range(n):
        r = mul(r, g(num(k)))
    return r


def any_fn(I, g, n):
    if isinstance(n, int):
        return or_(*[_tob(g(num(k))) for k in range(n)])
    k = I.fresh('k')
    return tm.anyT(_tob(g(k)), k, ZERO, lift(n))


def all_fn(I, g, n):
    if isinstance(n, int):
        return and_(*[_tob(g(num(k))) for k in range(n)])
    k = I.fresh('k')
    return not_(tm.anyT(not_(_tob(g(k))), k, ZERO, lift(n)))


def _tob(x):
    if isinstance(x, Cx):
        return not_(and_(eq(x.re, ZERO), eq(x.im, ZERO)))
    return x if x.sort == 'b' else not_(eq(x, ZERO))


_ext = {}


def max_fn(sign):
    def f(I, g, n):
        if isinstance(n, int):
            if n == 0:
                raise PyRaise(ValueError, ('zero-size reduction',))
            r = g(num(0))
            for k in range(1, n):
                x = g(num(k))
                r = ite(lt(r, x) if sign > 0 else lt(x, r), x, r)
            return r
        k = var('k#X', 'i')
        b = canon(g(k))
        key = (sign, b.id, canon(lift(n)).id)
        return sel(f'ext{sign}', b, lift(n)) if False else _extreme(I, key, sign, b, k, lift(n))
    return f


def _extreme(I, key, sign, b, k, n):
    """max/min of a symbolic sequence: a value attained at some index and bounding all others
    (the bound is only instantiated at the witness)"""
    name = f'ext{len(_ext)}' if key not in _ext else _ext[key]
    _ext[key] = name
    w = var(name + 'w', 'i')
    I.assume(le(ZERO, w), lt(w, n))
    r = subst(b, {k: w})
    I.events.append(('extreme', sign, b, k, n, r))
    return r


def mean_fn(I, g, n):
    return tm.div(_l(sum_fn(I, g, n)), lift(n))


# --- structure --------------------------------------------------------------
def concat(I, items, axis):
    """items: list of Arr (concrete) or SList of Arr"""
    if isinstance(items, SList):
        return concat_sym(I, items, axis)
    arrs = [asarr(I, x) for x in items]
    if not arrs:
        raise PyRaise(ValueError, ('need at least one array',))
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        raise PyRaise(ValueError, ('dimension mismatch',))
    if nd == 0:
        raise PyRaise(ValueError, ('zero-dimensional',))
    ax = axisof(I, axis, nd)
    for a in arrs[1:]:
        for d in range(nd):
            if d != ax:
                I.same_dim(a.shape[d], arrs[0].shape[d])
    offs = [ZERO]
    for a in arrs:
        offs.append(canon(add(offs[-1], lift(a.shape[ax]))))
    gs = [a.snap() for a in arrs]
    shape = list(arrs[0].shape)
    shape[ax] = dim(offs[-1])
    kind = kmax(*[a.kind for a in arrs])

    def fn(idx):
        i = canon(idx[ax])
        r = None
        for m in range(len(arrs) - 1, -1, -1):
            if arrs[m].shape[ax] == 0 and isinstance(arrs[m].shape[ax], int):
                continue
            if r is None:
                j = canon(sub(i, offs[m]))
                r = ('lazy', m, j)
                continue
            c = lt(i, offs[m + 1])
            if c is TRUE:
                r = ('lazy', m, canon(sub(i, offs[m])))
                continue
            if c is FALSE:
                continue
            v = gs[m](tuple(idx[:ax]) + (canon(sub(i, offs[m])),) + tuple(idx[ax + 1:]))
            if isinstance(r, tuple):
                r = gs[r[1]](tuple(idx[:ax]) + (r[2],) + tuple(idx[ax + 1:]))
            if offs[m] is ZERO and offs[m + 1] is ONE and covers(r, i, v):
                continue
            r = cite(c, v, r)
        if r is None:
            return ZERO
        if isinstance(r, tuple):
            r = gs[r[1]](tuple(idx[:ax]) + (r[2],) + tuple(idx[ax + 1:]))
        return r
    return mkarr(shape, fn, kind)


def covers(r, i, v):
    """is the term r, given for positions i > 0, also right at i = 0 where it should be v"""
    if not isinstance(r, T) or not isinstance(v, T) or r.sort not in 'ir' or v.sort not in 'ir':
        return False
    for x in tm.freevars(i):
        if x.sort == 'i':
            c = canon(sub(x, i))
            if x not in tm.freevars(c):
                return canon(subst(r, {x: c})) is canon(v)
    return False


class Owner:
    """pieces of symbolic lengths laid out one after another: piece index of a flat position"""
    table = {}

    def __init__(self, key, length, n):
        self.key, self.length, self.n = key, length, n
        self.name = f'owner{key}'
        k = var('k#O', 'i')
        self.k = k

    def start(self, s):
        return tm.sumT(self.length(self.k), self.k, ZERO, s)

    def of(self, j):
        return sel(self.name, j, sort='i')


def owner_for(length, n):
    k = var('k#O', 'i')
    b = canon(length(k))
    key = (b.id, canon(lift(n)).id)
    o = Owner.table.get(key)
    if o is None:
        o = Owner(len(Owner.table), lambda i, b=b, k=k: subst(b, {k: lift(i)}), lift(n))
        Owner.table[key] = o

        def g(j, o=o):
            s = o.of(j)
            rng = and_(le(ZERO, j), lt(j, o.start(o.n)))
            return [tm.implies(rng, and_(le(ZERO, s), lt(s, o.n), le(o.start(s), j), lt(j, o.start(add(s, ONE)))))]
        V.FACTGENS[o.name] = g
    return o


def split_owner(I, o, j):
    """(piece, offset) of flat position j"""
    j = canon(j)
    cands = []
    for u in tm.subterms(j):
        if u.op == 'ps':
            cands.append(u.args[2])
    for v in sorted(tm.freevars(j), key=lambda t: t.args[0]):
        if v.sort == 'i':
            cands.append(v)
    cands.append(ZERO)
    for c in cands:
        for d in (0, -1, 1):
            s = canon(add(c, num(d)))
            off = canon(sub(j, o.start(s)))
            if len(tm.nf(off)[0]) > 6:
                continue
            if I.entails(and_(le(ZERO, off), lt(off, o.length(s)), le(ZERO, s), lt(s, o.n)), timeout=1500):
                return s, off
    s = o.of(j)
    return s, canon(sub(j, o.start(s)))


def concat_sym(I, items, axis):
    if not I.truth(lt(ZERO, lift(items.n))):
        raise PyRaise(ValueError, ('need at least one array to concatenate',))
    k = I.fresh('p')
    x = items.fn(k)
    if not isinstance(x, Arr):
        x = asarr(I, x)
    if x.ndim == 0:
        raise PyRaise(ValueError, ('zero-dimensional',))
    ax = axisof(I, axis, x.ndim)
    for d, s in enumerate(x.shape):
        if d != ax and isinstance(s, T) and k in tm.freevars(s):
            raise Unsupported('ragged concatenate')
    c = x.shape[ax]
    shape = list(x.shape)
    get = lambda s: asarr(I, items.fn(s))
    if isinstance(c, int):
        shape[ax] = dim(mul(num(c), lift(items.n)))

        def fn(idx):
            i = idx[ax]
            if c == 1:
                p, r = i, ZERO
            else:
                p = tm.fn('floor', tm.div(i, num(c)))
                i2 = canon(i)
                n_, d_ = tm.nf(i2)
                cc = n_.get((), Fraction(0))
                if all(v.denominator == 1 and v % c == 0 for m, v in n_.items() if m) and cc.denominator == 1 and not d_:
                    r = num(int(cc) % c)
                    p = canon(tm.div(sub(i2, r), num(c)))
                    p = mk_int(p)
                else:
                    r = sub(i, mul(num(c), p))
            return get(p).at(*(tuple(idx[:ax]) + (r,) + tuple(idx[ax + 1:])))
        return mkarr(shape, fn, x.kind)
    o = owner_for(lambda i: subst(lift(c), {k: lift(i)}), items.n)
    shape[ax] = dim(o.start(lift(items.n)))

    def fn2(idx):
        s, off = split_owner(I, o, idx[ax])
        return get(s).at(*(tuple(idx[:ax]) + (off,) + tuple(idx[ax + 1:])))
    return mkarr(shape, fn2, x.kind)


def mk_int(p):
    return p if p.sort == 'i' else canon(p)


def slist_concat(I, a, b):
    sa, sb = I.seq(a), I.seq(b)
    n = dim(add(lift(sa.n), lift(sb.n)))
    if isinstance(n, int):
        return [sa.get(k) for k in range(sa.n)] + [sb.get(k) for k in range(sb.n)]

    def get(i):
        i = canon(lift(i))
        c = lt(i, lift(sa.n))
        if c is TRUE or (isinstance(c, T) and c is not FALSE and I.entails(c, timeout=800)):
            return sa.get(conc(i))
        if c is FALSE or I.entails(not_(c), timeout=800):
            return sb.get(conc(canon(sub(i, lift(sa.n)))))
        x = sa.get(conc(i)) if not (isinstance(sa.n, int) and sa.n == 0) else None
        y = sb.get(conc(canon(sub(i, lift(sa.n)))))
        return y if x is None else vite(c, x, y)
    return SList(n, get)


def matmul(I, a, b):
    a, b = asarr(I, a), asarr(I, b)
    if a.ndim == 0 or b.ndim == 0:
        return I.binop('Mult', tscalar(a), tscalar(b))
    n, m = a.shape[-1], b.shape[-2] if b.ndim > 1 else b.shape[0]
    I.same_dim(n, m)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('n-d matmul')
    ga, gb = a.snap(), b.snap()
    from .interp import cxop

    def prod(x, y):
        if isinstance(x, Cx) or isinstance(y, Cx):
            return cxop('Mult', x, y)
        return mul(x, y)
    kind = kmax(a.kind, b.kind)

    def cell(ia, ib):
        return sum_fn(I, lambda k: prod(ga(ia + (k,)), gb((k,) + ib)), n)
    if a.ndim == 1 and b.ndim == 1:
        r = cell((), ())
        return r if isinstance(r, Cx) else conc(r)
    shape = a.shape[:-1] + b.shape[1:]
    na = a.ndim - 1
    return mkarr(shape, lambda idx: _l(cell(tuple(idx[:na]), tuple(idx[na:]))), kind)


def transpose(a):
    if a.ndim < 2:
        return a
    r = tuple(reversed(range(a.ndim)))
    im, rv = a.imap, a.rev
    imap = (lambda idx: tuple(reversed(idx))) if im is None else (lambda idx: im(tuple(reversed(idx))))

    def rev(bidx, extra=()):
        if rv is None:
            return TRUE, tuple(reversed(bidx))
        c, ai = rv(bidx)
        return c, tuple(reversed(ai))
    return Arr(a.buf, tuple(a.shape[d] for d in r), imap, rev if (im is None or rv is not None) else None)


def atleast(I, v, nd):
    a = asarr(I, v)
    while a.ndim < nd:
        a = I.arr_get(a, (None, Ellipsis))
    return a


def reshape(I, a, shape):
    shape = [conc(s) for s in shape]
    if any(isinstance(s, int) and s == -1 for s in shape):
        k = next(i for i, s in enumerate(shape) if isinstance(s, int) and s == -1)
        tot = ONE
        for d in a.shape:
            tot = mul(tot, lift(d))
        oth = ONE
        for i, s in enumerate(shape):
            if i != k:
                oth = mul(oth, lift(s))
        q = canon(tm.div(tot, oth))
        shape[k] = dim(q)
    # supported: insert/remove unit dims, flatten of concrete
    core = [d for d in a.shape if not (isinstance(d, int) and d == 1)]
    ncore = [d for d in shape if not (isinstance(d, int) and d == 1)]
    if len(core) == len(ncore):
        for x, y in zip(core, ncore):
            I.same_dim(x, y)
        g = a.snap()
        apos = [i for i, d in enumerate(a.shape) if not (isinstance(d, int) and d == 1)]
        npos = [i for i, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]

        def fn(idx):
            out = [ZERO] * a.ndim
            for p, q in zip(apos, npos):
                out[p] = idx[q]
            return g(tuple(out))
        return mkarr(shape, fn, a.kind)
    if all(isinstance(d, int) for d in a.shape) and all(isinstance(d, int) for d in shape):
        tot = 1
        for d in a.shape:
            tot *= d
        t2 = 1
        for d in shape:
            t2 *= d
        if tot != t2:
            raise PyRaise(ValueError, ('cannot reshape',))
        g = a.snap()

        def unflat(k, sh):
            out = []
            for d in reversed(sh):
                out.append(num(k % d))
                k //= d
            return tuple(reversed(out))

        def fn(idx):
            k = 0
            for i, d in zip(idx, shape):
                i = canon(i)
                if i.op != 'num':
                    raise Unsupported('symbolic index of reshaped array')
                k = k * d + int(i.args[0])
            return g(unflat(k, a.shape))
        return mkarr(shape, fn, a.kind)
    if len(core) == 1 and len(ncore) == 2 and isinstance(ncore[1], int):
        # row-major split of a vector
        c = ncore[1]
        I.same_dim(core[0], dim(canon(mul(lift(ncore[0]), num(c)))))
        g = a.snap()
        ap = next(i for i, d in enumerate(a.shape) if not (isinstance(d, int) and d == 1))
        np_ = [i for i, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]

        def fn(idx):
            out = [ZERO] * a.ndim
            out[ap] = canon(add(mul(num(c), lift(idx[np_[0]])), lift(idx[np_[1]])))
            return g(tuple(out))
        return mkarr(shape, fn, a.kind)
    if len(ncore) == 1:
        # flatten 2-D row-major with concrete inner dimension
        if a.ndim == 2 and isinstance(a.shape[1], int):
            c = a.shape[1]
            g = a.snap()
            p = next(i for i, d in enumerate(shape) if not (isinstance(d, int) and d == 1))

            def fn(idx):
                i = canon(idx[p])
                n_, d_ = tm.nf(i)
                cc = n_.get((), Fraction(0))
                if not d_ and cc.denominator == 1 and all(v.denominator == 1 and v % c == 0 for m, v in n_.items() if m):
                    r = num(int(cc) % c)
                    q = canon(tm.div(sub(i, r), num(c)))
                else:
                    q = tm.fn('floor', tm.div(i, num(c)))
                    r = sub(i, mul(num(c), q))
                return g((q, r))
            return mkarr(shape, fn, a.kind)
    raise Unsupported('reshape')


def cumsum(I, a, axis=None):
    a = asarr(I, a)
    if axis is None and a.ndim > 1:
        raise Unsupported('cumsum of 2-d array')
    ax = axisof(I, axis, a.ndim) if axis is not None else 0
    g = a.snap()
    n = a.shape[ax]

    def fn(idx):
        i = canon(idx[ax])
        at = lambda k: _tofc(g(tuple(idx[:ax]) + (k,) + tuple(idx[ax + 1:])))
        if i.op == 'num':
            return sum_fn(I, at, int(i.args[0]) + 1)
        if isinstance(n, int) and n <= 12:
            r = ZERO
            for k in range(n):
                x = at(num(k))
                r = add(r, ite(le(num(k), i), x, ZERO))
            return r
        return _l(sum_fn(I, at, canon(add(i, ONE))))
    return mkarr(a.shape, fn, 'i' if a.kind in 'bi' else a.kind)


def flip(I, a, axis):
    a = asarr(I, a)
    if axis is None:
        axes = range(a.ndim)
    else:
        axes = [axisof(I, axis, a.ndim)]
    key = tuple(slice(None, None, -1) if d in axes else slice(None) for d in range(a.ndim))
    return I.arr_get(a, key)


def linspace(I, a, b, n, endpoint=True):
    n = conc(n)
    if isinstance(n, Fraction):
        raise PyRaise(TypeError, ('linspace num',))
    a, b = tscalar(a), tscalar(b)
    if isseq(a) or isseq(b):
        raise Unsupported('linspace of arrays')
    a, b = lift(a), lift(b)
    nn = lift(n)
    endpoint = conc(lift(endpoint))
    den = canon(sub(nn, ONE) if endpoint is True else nn if endpoint is False else sub(nn, ite(endpoint, ONE, ZERO)))
    one = den.op != 'num' and not I.entails(lt(ZERO, den))

    def fn(idx):
        i = canon(idx[0])
        if i is ZERO:
            return a
        if den is ZERO:
            return a
        step = tm.div(sub(b, a), den) if den.op == 'num' else mul(sub(b, a), tm.ipow(den, -1))
        v = add(a, mul(step, i))
        # one point: numpy returns the start
        return ite(eq(den, ZERO), a, v) if one else v
    return mkarr((n,), fn)


def ins(I, arr, pos, vals, axis):
    arr = asarr(I, arr)
    pos = conc(tscalar(pos))
    if not isinstance(pos, (int, T)):
        if isinstance(pos, (list, tuple)) and len(pos) == 1:
            pos = conc(pos[0])
        else:
            raise Unsupported('insert at several positions')
    if axis is None:
        if arr.ndim != 1:
            raise Unsupported('insert without axis')
        axis = 0
    ax = axisof(I, axis, arr.ndim)
    n = arr.shape[ax]
    p = lift(pos)
    if isinstance(pos, int):
        if pos < 0:
            p = canon(add(p, lift(n)))
    vals = asarr(I, vals)
    if arr.ndim == 1:
        m = 1 if vals.ndim == 0 else vals.shape[0]
        piece = vals if vals.ndim == 1 else mkarr((1,), lambda idx, g=vals.snap(): g(()))
    else:
        m = 1
        if vals.ndim == arr.ndim:
            m = vals.shape[ax]
            piece = vals
        elif vals.ndim == 0:
            g = vals.snap()
            sh = list(arr.shape)
            sh[ax] = 1
            piece = mkarr(sh, lambda idx: g(()), vals.kind)
        else:
            g = vals.snap()
            sh = list(arr.shape)
            sh[ax] = 1
            if vals.ndim != arr.ndim - 1:
                raise Unsupported('insert shape')
            piece = mkarr(sh, lambda idx: g(tuple(i for d, i in enumerate(idx) if d != ax)), vals.kind)
    key = lambda s: tuple([slice(None)] * ax + [s])
    left = I.arr_get(arr, key(slice(None, conc(p))))
    right = I.arr_get(arr, key(slice(conc(p), None)))
    return concat(I, [left, piece, right], ax)


def where(I, args):
    if len(args) == 1:
        raise Unsupported('where with one argument')
    c, a, b = [asarr(I, x) if isseq(x) else x for x in args]
    if any(isinstance(x, Arr) for x in (c, a, b)):
        from .interp import kind_of
        k = kmax(*[x.kind if isinstance(x, Arr) else kind_of(x) for x in (a, b)])
        return I.elementwise(lambda x, y, z: cite(_tob(x), y, z), [c, a, b], k)
    return vite(_tob(lift(c)), a, b)


def argsn(args, kw, names, defaults=()):
    """bind native arguments"""
    out = dict(zip(names, args))
    if len(args) > len(names):
        raise Unsupported('too many arguments to native')
    for k, v in kw.items():
        if k not in names:
            raise Unsupported(f'keyword {k}')
        out[k] = v
    d = dict(defaults)
    for n in names:
        if n not in out:
            if n not in d:
                raise PyRaise(TypeError, (f'missing argument {n}',))
            out[n] = d[n]
    return out


def shape_arg(I, s):
    s = conc(s)
    if isinstance(s, (int, T)):
        return (s,)
    if isinstance(s, Fraction):
        raise PyRaise(TypeError, ('float shape',))
    if isinstance(s, Arr):
        return tuple(I.tolist(s))
    return tuple(conc(x) for x in s)


def seqitems(I, v):
    """list of items of a sequence argument, or an SList when its length is symbolic"""
    from .interp import _unwrap
    v = _unwrap(v)
    s = I.seq(v)
    if isinstance(s.n, int):
        return [s.get(k) for k in range(s.n)]
    return v if isinstance(v, SList) else SList(s.n, lambda i: s.get(i))


# --- numpy module -----------------------------------------------------------
def numpy_mod(I0):
    ns = {}

    def reg(*names):
        def deco(f):
            for n in names:
                ns[n] = Native('np.' + n, f)
            return f
        return deco

    for n in ('sin', 'cos', 'tan', 'exp', 'sqrt', 'log', 'log10', 'arctan', 'arcsin', 'arccos', 'sinh', 'cosh', 'tanh'):
        ns[n] = ufunc('np.' + n, _real(n), None)
        ns[n] = _floatres(ns[n])
    ns['abs'] = ns['absolute'] = ns['fabs'] = ufunc('np.abs', _abs)
    ns['sign'] = ufunc('np.sign', _sign)
    ns['deg2rad'] = ns['radians'] = _floatres(ufunc('np.deg2rad', lambda I, x: mul(x, DEG)))
    ns['rad2deg'] = ns['degrees'] = _floatres(ufunc('np.rad2deg', lambda I, x: tm.div(x, DEG)))
    # numpy ceil/floor keep a float dtype: the value is integral, the kind is float
    ns['ceil'] = ufunc('np.ceil', lambda I, x: tm.fn('ceil', x), 'f')
    ns['floor'] = ufunc('np.floor', lambda I, x: tm.fn('floor', x), 'f')
    ns['isnan'] = ufunc('np.isnan', lambda I, x: tm.isnan(x) if not isinstance(x, Cx) else or_(tm.isnan(x.re), tm.isnan(x.im)), 'b')
    ns['isfinite'] = ufunc('np.isfinite', _isfin, 'b')
    ns['isreal'] = ufunc('np.isreal', lambda I, x: eq(x.im, ZERO) if isinstance(x, Cx) else TRUE, 'b')
    ns['real'] = ufunc('np.real', lambda I, x: x.re if isinstance(x, Cx) else x, 'f')
    ns['imag'] = ufunc('np.imag', lambda I, x: x.im if isinstance(x, Cx) else ZERO, 'f')
    ns['conj'] = ufunc('np.conj', lambda I, x: Cx(x.re, neg(x.im)) if isinstance(x, Cx) else x)
    ns['maximum'] = ufunc('np.maximum', lambda I, x, y: ite(lt(x, y), y, x))
    ns['minimum'] = ufunc('np.minimum', lambda I, x, y: ite(lt(y, x), y, x))
    ns['logical_and'] = ufunc('np.logical_and', lambda I, x, y: and_(_tob(x), _tob(y)), 'b')
    ns['logical_or'] = ufunc('np.logical_or', lambda I, x, y: or_(_tob(x), _tob(y)), 'b')
    ns['logical_not'] = ns['invert'] = ufunc('np.logical_not', lambda I, x: not_(_tob(x)), 'b')
    for n, op in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'),
                  ('power', 'Pow'), ('mod', 'Mod'), ('floor_divide', 'FloorDiv')):
        ns[n] = Native('np.' + n, lambda I, a, k, op=op: I.binop(op, _seqarr(I, a[0]), _seqarr(I, a[1])))
    for n, op in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE')):
        ns[n] = Native('np.' + n, lambda I, a, k, op=op: I.compare(op, _seqarr(I, a[0]), _seqarr(I, a[1])))
    ns['square'] = Native('np.square', lambda I, a, k: I.binop('Mult', _seqarr(I, a[0]), _seqarr(I, a[0])))
    ns['negative'] = Native('np.negative', lambda I, a, k: I.binop('Mult', _seqarr(I, a[0]), -1))
    ns['hypot'] = ufunc('np.hypot', lambda I, x, y: tm.fn('sqrt', add(mul(x, x), mul(y, y))), 'f')

    @reg('array')
    def array(I, args, kw):
        p = argsn(args, kw, ['a', 'dtype', 'copy', 'ndmin'], {'dtype': None, 'copy': True, 'ndmin': 0})
        a = asarr(I, p['a'])
        r = copyarr(a)
        if p['dtype'] is not None:
            r = cast(I, r, dkind(p['dtype']))
        return r if not p['ndmin'] else atleast(I, r, p['ndmin'])

    @reg('asarray', 'ascontiguousarray', 'asanyarray')
    def asarray(I, args, kw):
        p = argsn(args, kw, ['a', 'dtype'], {'dtype': None})
        a = asarr(I, p['a'])
        if p['dtype'] is not None:
            k = dkind(p['dtype'])
            if k != a.kind:
                return cast(I, a, k)
        return a

    @reg('copy')
    def copy(I, args, kw):
        return copyarr(asarr(I, args[0]))

    def filled(val, kind):
        def f(I, args, kw):
            p = argsn(args, kw, ['shape', 'dtype', 'order'], {'dtype': None, 'order': None})
            return mkarr(shape_arg(I, p['shape']), lambda idx: val, dkind(p['dtype'], 'f'))
        return f
    ns['zeros'] = Native('np.zeros', filled(ZERO, 'f'))
    ns['ones'] = Native('np.ones', filled(ONE, 'f'))

    @reg('empty')
    def empty(I, args, kw):
        p = argsn(args, kw, ['shape', 'dtype'], {'dtype': None})
        I.ctr += 1
        nm = f'uninit{I.ctr}'
        return mkarr(shape_arg(I, p['shape']), lambda idx: sel(nm, *idx), dkind(p['dtype'], 'f'))

    @reg('full')
    def full(I, args, kw):
        p = argsn(args, kw, ['shape', 'v', 'dtype', 'fill_value'], {'dtype': None, 'v': None, 'fill_value': None})
        v = p['v'] if p['fill_value'] is None else p['fill_value']
        shape = shape_arg(I, p['shape'])
        if isseq(v):
            va = asarr(I, v)
            a = mkarr(shape, lambda idx: ZERO, va.kind)
            return mkarr(shape, I.bcast(va, shape), va.kind)
        c = v if isinstance(v, Cx) else _scal(conc(v))
        return mkarr(shape, lambda idx: c, dkind(p['dtype'], arrkind(v)))

    def like(val):
        def f(I, args, kw):
            p = argsn(args, kw, ['a', 'v', 'dtype'], {'v': None, 'dtype': None})
            a = asarr(I, p['a'])
            if val is None:
                v = p['v']
            else:
                v = val
                if p['v'] is not None:
                    p['dtype'] = p['v']
            c = _scal(conc(v))
            return mkarr(a.shape, lambda idx: c, dkind(p['dtype'], a.kind))
        return f
    ns['zeros_like'] = Native('np.zeros_like', like(ZERO))
    ns['ones_like'] = Native('np.ones_like', like(ONE))
    ns['full_like'] = Native('np.full_like', like(None))
    ns['empty_like'] = ns['zeros_like']

    @reg('eye', 'identity')
    def eye(I, args, kw):
        n = conc(args[0])
        return mkarr((n, n), lambda idx: ite(eq(idx[0], idx[1]), ONE, ZERO), 'f')

    @reg('diag')
    def diag(I, args, kw):
        a = asarr(I, args[0])
        g = a.snap()
        if a.ndim == 1:
            return mkarr((a.shape[0], a.shape[0]), lambda idx: ite(eq(idx[0], idx[1]), g((idx[0],)), ZERO), a.kind)
        return mkarr((a.shape[0],), lambda idx: g((idx[0], idx[0])), a.kind)

    @reg('arange')
    def arange(I, args, kw):
        args = [conc(tscalar(a)) for a in args]
        if kw:
            raise Unsupported('arange keyword')
        if len(args) == 1:
            a, b, s = 0, args[0], 1
        else:
            a, b = args[:2]
            s = args[2] if len(args) > 2 else 1
        isint = all(isinstance(x, int) or (isinstance(x, T) and x.sort == 'i') for x in (a, b, s))
        ln = canon(tm.fn('ceil', tm.div(sub(lift(b), lift(a)), lift(s)))) if not (isint and s == 1) else canon(sub(lift(b), lift(a)))
        if not I.entails(le(ZERO, ln)):
            ln = ite(lt(ln, ZERO), ZERO, ln)
        return mkarr((dim(ln),), lambda idx: add(lift(a), mul(lift(s), idx[0])), 'i' if isint else 'f')

    @reg('linspace')
    def linspace_(I, args, kw):
        p = argsn(args, kw, ['start', 'stop', 'num', 'endpoint', 'retstep'], {'num': 50, 'endpoint': True, 'retstep': False})
        if p['retstep'] is not False:
            raise Unsupported('linspace options')
        return linspace(I, p['start'], p['stop'], tscalar(p['num']), tscalar(p['endpoint']))

    @reg('concatenate')
    def concatenate(I, args, kw):
        p = argsn(args, kw, ['a', 'axis'], {'axis': 0})
        items = seqitems(I, p['a'])
        if p['axis'] is None:
            raise Unsupported('axis None')
        return concat(I, items, p['axis'])

    @reg('vstack', 'row_stack')
    def vstack(I, args, kw):
        items = seqitems(I, args[0])
        if isinstance(items, SList):
            return concat(I, SList(items.n, lambda i: atleast(I, items.fn(lift(i)), 2)), 0)
        return concat(I, [atleast(I, x, 2) for x in items], 0)

    @reg('hstack')
    def hstack(I, args, kw):
        items = seqitems(I, args[0])
        if isinstance(items, SList):
            it0 = asarr(I, items.fn(I.fresh('p')))
            its = SList(items.n, lambda i: atleast(I, items.fn(lift(i)), 1))
            return concat(I, its, 0 if it0.ndim <= 1 else 1)
        items = [atleast(I, x, 1) for x in items]
        if not items:
            raise PyRaise(ValueError, ('need at least one array to concatenate',))
        return concat(I, items, 0 if items[0].ndim == 1 else 1)

    @reg('column_stack')
    def column_stack(I, args, kw):
        items = seqitems(I, args[0])
        if isinstance(items, SList):
            it0 = asarr(I, items.fn(I.fresh('p')))
            if it0.ndim == 2:
                return concat(I, items, 1)
            return concat(I, SList(items.n, lambda i: I.arr_get(asarr(I, items.fn(lift(i))), (slice(None), None))), 1)
        out = []
        for x in items:
            a = asarr(I, x)
            if a.ndim == 1:
                a = I.arr_get(a, (slice(None), None))
            out.append(a)
        return concat(I, out, 1)

    @reg('stack')
    def stack(I, args, kw):
        p = argsn(args, kw, ['a', 'axis'], {'axis': 0})
        items = seqitems(I, p['a'])
        if isinstance(items, SList):
            a = asarr(I, items)
            ax = p['axis'] % a.ndim
            if ax == 0:
                return a
            g = a.snap()
            sh = list(a.shape[1:])
            sh.insert(ax, a.shape[0])
            return mkarr(sh, lambda idx: g((idx[ax],) + tuple(idx[:ax]) + tuple(idx[ax + 1:])), a.kind)
        arrs = [asarr(I, x) for x in items]
        ax = p['axis'] % (arrs[0].ndim + 1)
        return concat(I, [I.arr_get(a, tuple([slice(None)] * ax + [None])) for a in arrs], ax)

    @reg('append')
    def append(I, args, kw):
        p = argsn(args, kw, ['a', 'v', 'axis'], {'axis': None})
        a, v = asarr(I, p['a']), asarr(I, p['v'])
        if p['axis'] is None:
            a, v = ravel(I, a), ravel(I, v)
            return concat(I, [a, v], 0)
        return concat(I, [a, v], p['axis'])

    @reg('insert')
    def insert(I, args, kw):
        p = argsn(args, kw, ['a', 'pos', 'v', 'axis'], {'axis': None})
        return ins(I, p['a'], p['pos'], p['v'], p['axis'])

    @reg('delete')
    def delete(I, args, kw):
        p = argsn(args, kw, ['a', 'pos', 'axis'], {'axis': None})
        a = asarr(I, p['a'])
        if a.ndim != 1 or not isinstance(conc(p['pos']), int):
            raise Unsupported('delete')
        n = a.shape[0]
        k = lift(I.idx1(conc(p['pos']), n))
        g = a.snap()
        return mkarr((dim(sub(lift(n), ONE)),), lambda idx: ite(lt(idx[0], k), g((idx[0],)), g((add(idx[0], ONE),))), a.kind)

    @reg('cumsum')
    def cumsum_(I, args, kw):
        p = argsn(args, kw, ['a', 'axis'], {'axis': None})
        return cumsum(I, p['a'], p['axis'])

    def red(name, f, kind=None, boolean=False):
        def g(I, args, kw):
            p = argsn(args, kw, ['a', 'axis', 'keepdims'], {'axis': None, 'keepdims': False})
            if p['keepdims'] is not False:
                raise Unsupported('keepdims')
            if isinstance(p['a'], Seq):
                raise Unsupported('reduction of iterator')
            a = asarr(I, p['a'])
            return reduce_(I, a, p['axis'], Red(I, f), kind or a.kind)
        ns[name] = Native('np.' + name, g)
    red('sum', sum_fn)
    red('nansum', lambda I, g, n: sum_fn(I, lambda k: ite(tm.isnan(g(k)), ZERO, g(k)), n))
    red('prod', prod_fn)
    red('any', any_fn, 'b')
    red('all', all_fn, 'b')
    red('max', max_fn(1))
    red('min', max_fn(-1))
    red('mean', mean_fn)
    ns['amax'], ns['amin'] = ns['max'], ns['min']
    for q in ('any', 'all', 'max', 'min', 'sum', 'mean'):
        pass

    @reg('count_nonzero')
    def count_nonzero(I, args, kw):
        a = asarr(I, args[0])
        return reduce_(I, a, None, Red(I, lambda I, g, n: sum_fn(I, lambda k: ite(_tob(g(k)), ONE, ZERO), n)), 'i')

    @reg('average')
    def average(I, args, kw):
        p = argsn(args, kw, ['a', 'axis', 'weights'], {'axis': None, 'weights': None})
        a = asarr(I, p['a'])
        if p['weights'] is None:
            return reduce_(I, a, p['axis'], Red(I, mean_fn), 'f')
        w = asarr(I, p['weights'])
        if a.ndim != 1 or w.ndim != 1:
            raise Unsupported('n-d average')
        I.same_dim(a.shape[0], w.shape[0], TypeError)
        ga, gw = a.snap(), w.snap()
        n = a.shape[0]
        sw = sum_fn(I, lambda k: gw((k,)), n)
        if not I.entails(not_(eq(sw, ZERO))):
            if I.decide(eq(sw, ZERO)):
                raise PyRaise(ZeroDivisionError, ('weights sum to zero',))
        return conc(tm.div(sum_fn(I, lambda k: mul(ga((k,)), gw((k,))), n), sw))

    @reg('dot')
    def dot(I, args, kw):
        return matmul(I, args[0], args[1])
    ns['matmul'] = ns['dot']
    ns['inner'] = ns['dot']

    @reg('outer')
    def outer(I, args, kw):
        a, b = asarr(I, args[0]), asarr(I, args[1])
        ga, gb = a.snap(), b.snap()
        return mkarr((a.shape[0], b.shape[0]), lambda idx: mul(ga((idx[0],)), gb((idx[1],))), kmax(a.kind, b.kind))

    @reg('diff')
    def diff(I, args, kw):
        p = argsn(args, kw, ['a', 'n', 'axis'], {'n': 1, 'axis': -1})
        a = asarr(I, p['a'])
        if p['n'] != 1:
            raise Unsupported('diff order')
        ax = axisof(I, p['axis'], a.ndim)
        k = lambda s: tuple([slice(None)] * ax + [s])
        return I.binop('Sub', I.arr_get(a, k(slice(1, None))), I.arr_get(a, k(slice(None, -1))))

    @reg('ediff1d')
    def ediff1d(I, args, kw):
        a = asarr(I, args[0])
        return I.binop('Sub', I.arr_get(a, slice(1, None)), I.arr_get(a, slice(None, -1)))

    @reg('flipud')
    def flipud(I, args, kw):
        return flip(I, args[0], 0)

    @reg('fliplr')
    def fliplr(I, args, kw):
        return flip(I, args[0], 1)

    @reg('flip')
    def flip_(I, args, kw):
        p = argsn(args, kw, ['a', 'axis'], {'axis': None})
        return flip(I, p['a'], p['axis'])

    @reg('transpose')
    def transpose_(I, args, kw):
        if len(args) > 1 or kw:
            raise Unsupported('transpose axes')
        return transpose(asarr(I, args[0]))

    @reg('where')
    def where_(I, args, kw):
        return where(I, args)

    @reg('repeat')
    def repeat(I, args, kw):
        p = argsn(args, kw, ['a', 'repeats', 'axis'], {'axis': None})
        a = asarr(I, p['a'])
        if a.ndim == 0:
            g0 = a.snap()
            return mkarr((conc(p['repeats']),), lambda idx: g0(()), a.kind)
        if p['axis'] is None and a.ndim > 1:
            a = ravel(I, a)
        ax = 0 if p['axis'] is None else axisof(I, p['axis'], a.ndim)
        n = conc(tscalar(p['repeats'])) if not isseq(p['repeats']) else asarr(I, p['repeats'])
        g, m = a.snap(), a.shape[ax]
        if isinstance(n, Arr) and n.ndim == 1 and n.shape[0] == 1:
            n = conc(n.at(ZERO))
        put = lambda idx, i: tuple(idx[:ax]) + (i,) + tuple(idx[ax + 1:])
        size = lambda d: tuple(a.shape[:ax]) + (d,) + tuple(a.shape[ax + 1:])
        if isinstance(n, Arr):
            if n.ndim != 1:
                raise PyRaise(ValueError, ('object too deep',))
            I.same_dim(n.shape[0], m)
            gn = n.snap()
            length = lambda i: gn((lift(i),))
        elif isinstance(m, int):
            return concat(I, [mkarr(size(n), lambda idx, k=k: g(put(idx, num(k))), a.kind) for k in range(m)], ax)
        else:
            length = lambda i: lift(n)
        k = I.fresh('p')
        if not I.entails(le(ZERO, length(k)), [le(ZERO, k), lt(k, lift(m))]):
            raise Unsupported('repeat with counts that may be negative')
        if isinstance(m, int):
            pieces = [mkarr(size(conc(lift(length(num(q))))), lambda idx, q=q: g(put(idx, num(q))), a.kind) for q in range(m)]
            return concat(I, pieces, ax)
        o = owner_for(length, m)
        return mkarr(size(dim(o.start(lift(m)))), lambda idx: g(put(idx, split_owner(I, o, idx[ax])[0])), a.kind)

    @reg('tile')
    def tile(I, args, kw):
        a = asarr(I, args[0])
        n = conc(args[1])
        if a.ndim == 1 and isinstance(n, int):
            return concat(I, [a] * n, 0)
        if a.ndim == 1 and isinstance(n, tuple) and len(n) == 2 and n[1] == 1:
            g = a.snap()
            return mkarr((n[0], a.shape[0]), lambda idx: g((idx[1],)), a.kind)
        raise Unsupported('tile')

    @reg('atleast_1d')
    def atleast_1d(I, args, kw):
        return atleast(I, args[0], 1)

    @reg('atleast_2d')
    def atleast_2d(I, args, kw):
        return atleast(I, args[0], 2)

    @reg('squeeze')
    def squeeze(I, args, kw):
        a = asarr(I, args[0])
        return reshape(I, a, [d for d in a.shape if not (isinstance(d, int) and d == 1)])

    @reg('ravel')
    def ravel_(I, args, kw):
        return ravel(I, asarr(I, args[0]))

    @reg('reshape')
    def reshape_(I, args, kw):
        return reshape(I, asarr(I, args[0]), shape_arg(I, args[1]))

    @reg('expand_dims')
    def expand_dims(I, args, kw):
        p = argsn(args, kw, ['a', 'axis'])
        a = asarr(I, p['a'])
        ax = p['axis'] % (a.ndim + 1)
        return I.arr_get(a, tuple([slice(None)] * ax + [None]))

    @reg('shape')
    def shape(I, args, kw):
        return tuple(asarr(I, args[0]).shape)

    @reg('size')
    def size(I, args, kw):
        return size_of(asarr(I, args[0]))

    @reg('ndim')
    def ndim(I, args, kw):
        return asarr(I, args[0]).ndim

    @reg('trapezoid', 'trapz')
    def trapezoid(I, args, kw):
        p = argsn(args, kw, ['y', 'x', 'dx'], {'x': None, 'dx': 1})
        y = asarr(I, p['y'])
        if y.ndim != 1:
            raise Unsupported('n-d trapezoid')
        c = cumtrapz(I, y, p['x'], 0, None, p['dx'])
        n = y.shape[0]
        gy = y.snap()
        xs = None if p['x'] is None else asarr(I, p['x']).snap()
        d = lambda k: lift(p['dx']) if xs is None else sub(xs((add(k, ONE),)), xs((k,)))
        return conc(_l(sum_fn(I, lambda k: mul(tm.div(add(gy((k,)), gy((add(k, ONE),))), num(2)), d(k)),
                              dim(sub(lift(n), ONE)))))

    @reg('allclose', 'array_equal', 'isclose', 'round', 'around', 'rint', 'sort', 'argsort', 'argmax', 'argmin',
         'unique', 'searchsorted', 'interp', 'cross', 'meshgrid', 'nonzero', 'argwhere', 'polyfit', 'roots',
         'polyval', 'median', 'percentile', 'histogram', 'cumprod', 'clip', 'isinf', 'nanmax', 'nanmin',
         'errstate', 'einsum', 'block', 'split', 'array_split', 'ix_', 'roll', 'fill_diagonal', 'tril', 'triu')
    def unsup(I, args, kw):
        raise Unsupported('numpy function outside the modelled set')
    ns['clip'] = ufunc('np.clip', lambda I, x, a, b: ite(lt(x, a), a, ite(lt(b, x), b, x)))

    ns['pi'] = tm.PI
    ns['nan'] = ns['NaN'] = NAN
    ns['inf'] = ns['Inf'] = INF
    ns['e'] = tm.fn('exp', ONE)
    ns['newaxis'] = None
    ns['ndarray'] = TypeV('ndarray', lambda I, v: isinstance(v, Arr))
    ns['generic'] = TypeV('generic', lambda I, v: False)
    ns['number'] = TypeV('number', lambda I, v: False)
    for n, k in (('float64', 'f'), ('float32', 'f'), ('int64', 'i'), ('int32', 'i'), ('int_', 'i'), ('bool_', 'b'),
                 ('complex128', 'c'), ('float_', 'f'), ('double', 'f')):
        ns[n] = TypeV({'f': 'float', 'i': 'int', 'b': 'bool', 'c': 'complex'}[k],
                      lambda I, v, k=k: False, conv(k))
    ns['integer'] = TypeV('integer', lambda I, v: False)
    ns['floating'] = TypeV('floating', lambda I, v: isinstance(v, T) and v.sort == 'r')

    class C_:
        pass
    ns['r_'] = Obj(ClassV('RClass', [], {}, 'np.r_'))
    ns['c_'] = Obj(ClassV('CClass', [], {}, 'np.c_'))
    lin = ModV('numpy.linalg', {
        'solve': Native('np.linalg.solve', np_solve),
        'eig': Native('np.linalg.eig', np_eig),
        'inv': Native('np.linalg.inv', lambda I, a, k: _unsup('inv')),
        'det': Native('np.linalg.det', lambda I, a, k: _unsup('det')),
        'norm': Native('np.linalg.norm', lambda I, a, k: _unsup('norm')),
        'LinAlgError': ValueError,
    })
    ns['linalg'] = lin
    return ModV('numpy', ns)


def _floatres(n):
    f = n.fn

    def g(I, args, kw):
        r = f(I, args, kw)
        if isinstance(r, Arr) and r.kind in 'ib':
            r = Arr(Buf(r.shape, r.snap(), 'f'))
        return r
    return Native(n.name, g)


def _seqarr(I, v):
    return asarr(I, v) if isinstance(v, (list, tuple, SList)) else v


def size_of(a):
    t = ONE
    for d in a.shape:
        t = mul(t, lift(d))
    return dim(t)


def ravel(I, a):
    if a.ndim == 1:
        return a
    if a.ndim == 0:
        g = a.snap()
        return mkarr((1,), lambda idx: g(()), a.kind)
    return reshape(I, a, [-1])


def np_solve(I, args, kw):
    A, b = asarr(I, args[0]), asarr(I, args[1])
    I.ctr += 1
    name = f'solve{I.ctr}'
    I.same_dim(A.shape[0], A.shape[1])
    I.same_dim(A.shape[0], b.shape[0])
    x = mkarr(b.shape, lambda idx: sel(name, *idx), 'f')
    I.events.append(('solve', copyarr(A), copyarr(b), name))
    return x


def np_eig(I, args, kw):
    A = asarr(I, args[0])
    hook = getattr(I, 'eig_model', None)
    if hook is None:
        raise Unsupported('eig outside its contract context')
    I.events.append(('eig', copyarr(A)))
    return hook(I, A)


def cumtrapz(I, y, x, axis, initial, dx=1):
    y = asarr(I, y)
    ax = axisof(I, axis, y.ndim)
    n = y.shape[ax]
    g = y.snap()
    gx = None if x is None else asarr(I, x)
    if gx is not None and gx.ndim != 1:
        raise Unsupported('cumulative_trapezoid x')
    if gx is not None:
        I.same_dim(gx.shape[0], n)
    sx = gx.snap() if gx is not None else None

    def cell(idx, upto):
        at = lambda k: g(tuple(idx[:ax]) + (k,) + tuple(idx[ax + 1:]))
        step = lambda k: lift(dx) if sx is None else sub(sx((add(k, ONE),)), sx((k,)))
        up = canon(upto)
        return _l(sum_fn(I, lambda k: mul(num(Fraction(1, 2)), add(at(k), at(add(k, ONE))), step(k)),
                         int(up.args[0]) if up.op == 'num' else up))
    shape = list(y.shape)
    if initial is None:
        shape[ax] = dim(sub(lift(n), ONE))
        return mkarr(shape, lambda idx: cell(idx, add(idx[ax], ONE)))
    init = lift(initial)
    if init is not ZERO:
        return mkarr(shape, lambda idx: ite(eq(idx[ax], ZERO), init, cell(idx, idx[ax])))
    return mkarr(shape, lambda idx: cell(idx, idx[ax]))


def conv(kind):
    def f(I, args, kw):
        from .interp import _trunc
        if not args:
            return {'f': Fraction(0), 'i': 0, 'b': False, 'c': Cx(0)}[kind]
        v = conc(tscalar(args[0]))
        if isinstance(v, Arr):
            if kind == 'f':
                sz = size_of(v)
                if sz == 1:
                    return conc(v.at(*[ZERO] * v.ndim))
                raise PyRaise(TypeError, ('only size-1 arrays',))
            raise PyRaise(TypeError, ('only size-1 arrays',))
        if isinstance(v, (list, tuple, dict, type(None))) and kind != 'b':
            raise PyRaise(TypeError)
        if kind == 'b':
            return I.truth(v)
        if isinstance(v, str):
            if kind == 'f' and v in ('nan', 'inf'):
                return NAN if v == 'nan' else INF
            try:
                return int(v) if kind == 'i' else Fraction(v)
            except ValueError:
                raise PyRaise(ValueError)
        if kind == 'c':
            return v if isinstance(v, Cx) else Cx(_scal(v))
        if isinstance(v, Cx):
            raise PyRaise(TypeError)
        if kind == 'f':
            return Fraction(v) if isinstance(v, (int, bool)) else conc(tm._toarith(lift(v))) if isinstance(v, T) else v
        if isinstance(v, T):
            return conc(v if v.sort == 'i' else _trunc(tm._toarith(v)))
        return int(v)
    return f


# --- builtins ---------------------------------------------------------------
def builtins(I0):
    from .interp import _Static, _ClassM, _Prop
    ns = {}

    def reg(name):
        def deco(f):
            ns[name] = Native(name, f)
            return f
        return deco

    @reg('range')
    def range_(I, args, kw):
        args = [conc(tscalar(a)) for a in args]
        for a in args:
            if isinstance(a, Fraction) or isinstance(a, T) and a.sort != 'i' or a is None or isinstance(a, (list, str)):
                raise PyRaise(TypeError, ('range',))
        a, b, s = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
        if all(isinstance(x, int) for x in (a, b, s)):
            r = range(a, b, s)
            return SeqList(len(r), lambda k: _ri(r, k))
        if not isinstance(s, int):
            raise Unsupported('range step')
        ln = canon(sub(lift(b), lift(a)))
        if s != 1:
            ln = canon(tm.fn('ceil', tm.div(ln, num(s))))
        if not I.entails(le(ZERO, ln)):
            ln = ite(lt(ln, ZERO), ZERO, ln)
        return SeqList(ln, lambda k: conc(canon(add(lift(a), mul(num(s), lift(k))))))

    @reg('len')
    def len_(I, args, kw):
        return I.len_(args[0])

    @reg('sum')
    def sum_(I, args, kw):
        start = args[1] if len(args) > 1 else kw.get('start', 0)
        s = I.seq(args[0])
        if isinstance(s.n, int):
            r = start
            for k in range(s.n):
                r = I.binop('Add', r, s.get(k))
            return r
        k = I.fresh('k')
        v = s.get(k)
        if isinstance(v, Arr):
            g = v.snap()
            r = mkarr(v.shape, lambda idx: tm.sumT(g(idx), k, ZERO, lift(s.n)), v.kind)
            return I.binop('Add', start, r) if start != 0 else r
        if isinstance(v, Cx):
            raise Unsupported('complex sum')
        return conc(add(lift(start), tm.sumT(tm._toarith(lift(v)), k, ZERO, lift(s.n))))

    @reg('abs')
    def abs_(I, args, kw):
        v = conc(args[0])
        if isinstance(v, Arr):
            return I.elementwise(lambda x: _abs(I, x), [v], v.kind if v.kind != 'c' else 'f')
        if isinstance(v, Cx):
            return conc(_abs(I, v))
        if isinstance(v, (str, list, dict, type(None))):
            raise PyRaise(TypeError)
        return conc(_abs(I, lift(v)))

    def mm(sign):
        def f(I, args, kw):
            if set(kw) - {'default', 'key'}:
                raise Unsupported('max keyword')
            if 'key' in kw:
                raise Unsupported('max key')
            if len(args) == 1:
                s = I.seq(args[0])
                if not isinstance(s.n, int):
                    return conc(max_fn(sign)(I, lambda k: lift(s.get(k)), s.n))
                vals = [s.get(k) for k in range(s.n)]
            else:
                vals = list(args)
            if not vals:
                if 'default' in kw:
                    return kw['default']
                raise PyRaise(ValueError, ('empty',))
            r = vals[0]
            for v in vals[1:]:
                c = I.compare('Gt' if sign > 0 else 'Lt', v, r)
                if isinstance(c, Arr):
                    raise PyRaise(ValueError, ('truth value of an array is ambiguous',))
                r = v if c is True else r if c is False else vite(lift(c), v, r)
            return r
        return f
    ns['max'], ns['min'] = Native('max', mm(1)), Native('min', mm(-1))

    @reg('enumerate')
    def enumerate_(I, args, kw):
        s = I.seq(args[0])
        st = args[1] if len(args) > 1 else kw.get('start', 0)
        return Seq(s.n, lambda k: (conc(add(lift(st), lift(k))), s.get(k)))

    @reg('zip')
    def zip_(I, args, kw):
        ss = [I.seq(a) for a in args]
        n = ss[0].n
        for s in ss[1:]:
            if isinstance(n, int) and isinstance(s.n, int):
                n = min(n, s.n)
            elif canon(sub(lift(n), lift(s.n))) is ZERO or I.entails(eq(lift(n), lift(s.n))):
                if isinstance(s.n, int):
                    n = s.n
            elif I.entails(le(lift(n), lift(s.n))):
                pass
            elif I.entails(le(lift(s.n), lift(n))):
                n = s.n
            else:
                n = dim(ite(le(lift(n), lift(s.n)), lift(n), lift(s.n)))
        return Seq(n, lambda k: tuple(s.get(k) for s in ss))

    def anyall(isany):
        def f(I, args, kw):
            s = I.seq(args[0])
            if isinstance(s.n, int):
                for k in range(s.n):
                    if I.truth(s.get(k)) is isany:
                        return isany
                return not isany
            k = I.fresh('k')
            v = s.get(k)
            if not isinstance(conc(v), (bool, T)):
                raise Unsupported('any over non-boolean')
            c = _tob(lift(v))
            return conc(tm.anyT(c, k, ZERO, lift(s.n)) if isany else not_(tm.anyT(not_(c), k, ZERO, lift(s.n))))
        return f
    ns['any'], ns['all'] = Native('any', anyall(True)), Native('all', anyall(False))

    @reg('isinstance')
    def isinstance_(I, args, kw):
        v, ts = args
        ts = ts if isinstance(ts, (tuple, list)) else (ts,)
        for t in ts:
            if isinstance(t, TypeV):
                if t.test(I, v):
                    return True
            elif isinstance(t, ClassV):
                if isinstance(v, Obj) and t in v.cls.mro():
                    return True
            elif isinstance(t, (tuple,)):
                if isinstance_(I, [v, t], {}):
                    return True
            elif isinstance(t, type):
                if isinstance(v, ExcObj) and issubclass(v.cls, t):
                    return True
            else:
                raise Unsupported('isinstance type')
        return False

    def typ(name, test, make):
        ns[name] = TypeV(name, test, make)

    def mklist(I, args, kw):
        if not args:
            return []
        s = I.seq(args[0])
        if isinstance(s.n, int):
            return [s.get(k) for k in range(s.n)]
        return SList(s.n, lambda i: s.get(conc(lift(i))))

    def mktuple(I, args, kw):
        if not args:
            return ()
        s = I.seq(args[0])
        if isinstance(s.n, int):
            return tuple(s.get(k) for k in range(s.n))
        return SList(s.n, lambda i: s.get(conc(lift(i))))

    def mkdict(I, args, kw):
        d = {}
        if args:
            if isinstance(args[0], dict):
                d.update(args[0])
            else:
                for p in I.tolist(args[0]):
                    a, b = I.tolist(p)
                    d[conc(a)] = b
        d.update(kw)
        return d
    isnum = lambda v: isinstance(v, T) and v.sort in 'ir'
    typ('list', lambda I, v: isinstance(v, (list, SList)) and not isinstance(v, SeqList), mklist)
    typ('tuple', lambda I, v: isinstance(v, tuple), mktuple)
    typ('dict', lambda I, v: isinstance(v, dict), mkdict)
    typ('str', lambda I, v: isinstance(conc(v) if not isinstance(v, Arr) else v, str) or (isinstance(v, T) and v.sort == 's'),
        lambda I, a, k: str(conc(a[0])) if isinstance(conc(a[0]), (str, int)) else '<?>')
    typ('int', lambda I, v: isinstance(v, (bool, int)) or (isinstance(v, T) and v.sort == 'i'), conv('i'))
    typ('float', lambda I, v: isinstance(v, Fraction) or (isinstance(v, T) and v.sort == 'r'), conv('f'))
    typ('bool', lambda I, v: isinstance(v, bool) or (isinstance(v, T) and v.sort == 'b'), conv('b'))
    typ('complex', lambda I, v: isinstance(v, Cx), conv('c'))
    typ('object', lambda I, v: True, None)
    typ('type', lambda I, v: isinstance(v, (TypeV, ClassV)), lambda I, a, k: _typeof(I, a[0]))
    typ('set', lambda I, v: False, lambda I, a, k: tuple(_uniq(I.tolist(a[0]))) if a else ())
    typ('frozenset', lambda I, v: False, lambda I, a, k: tuple(_uniq(I.tolist(a[0]))) if a else ())
    typ('slice', lambda I, v: isinstance(v, slice), lambda I, a, k: slice(*a))

    @reg('print')
    def print_(I, args, kw):
        return None

    @reg('sorted')
    def sorted_(I, args, kw):
        xs = I.tolist(args[0])
        if kw:
            raise Unsupported('sorted keyword')
        if all(isinstance(conc(x), (int, Fraction, str)) for x in xs):
            return sorted(conc(x) for x in xs)
        # insertion sort with forking comparisons
        out = []
        for x in xs:
            k = len(out)
            while k > 0 and I.truth(I.compare('Lt', x, out[k - 1])):
                k -= 1
            out.insert(k, x)
        return out

    @reg('reversed')
    def reversed_(I, args, kw):
        s = I.seq(args[0])
        return Seq(s.n, lambda k: s.get(conc(canon(sub(sub(lift(s.n), ONE), lift(k))))))

    @reg('round')
    def round_(I, args, kw):
        v = conc(args[0])
        if isinstance(v, (int, Fraction)):
            return round(v, *[conc(a) for a in args[1:]])
        if len(args) > 1:
            raise Unsupported('round digits')
        # round half to even of a real: an integer within 1/2
        r = I.fresh('round')
        I.assume(le(sub(lift(v), num(Fraction(1, 2))), r), le(r, add(lift(v), num(Fraction(1, 2)))))
        return r

    @reg('getattr')
    def getattr_(I, args, kw):
        if len(args) == 3:
            try:
                return I.getattr(args[0], conc(args[1]))
            except PyRaise as e:
                if issubclass(e.cls, AttributeError):
                    return args[2]
                raise
        return I.getattr(args[0], conc(args[1]))

    @reg('hasattr')
    def hasattr_(I, args, kw):
        try:
            I.getattr(args[0], conc(args[1]))
            return True
        except PyRaise as e:
            if issubclass(e.cls, AttributeError):
                return False
            raise

    @reg('setattr')
    def setattr_(I, args, kw):
        I.setattribute(args[0], conc(args[1]), args[2])

    @reg('map')
    def map_(I, args, kw):
        ss = [I.seq(a) for a in args[1:]]
        f = args[0]
        n = ss[0].n
        if isinstance(n, int):
            return [I.call(f, [s.get(k) for s in ss], {}) for k in range(n)]
        i = I.fresh('i')
        v = I.generic(i, n, lambda: I.call(f, [s.get(i) for s in ss], {}))
        return SList(n, lambda q: vsubst(v, {i: lift(q)}))

    @reg('callable')
    def callable_(I, args, kw):
        return isinstance(args[0], (Func, Bound, Native, Partial, ClassV))

    @reg('vars')
    def vars_(I, args, kw):
        return args[0].attrs

    @reg('divmod')
    def divmod_(I, args, kw):
        return (I.binop('FloorDiv', *args), I.binop('Mod', *args))

    @reg('pow')
    def pow_(I, args, kw):
        return I.binop('Pow', args[0], args[1])

    @reg('next')
    def next_(I, args, kw):
        raise Unsupported('next')

    @reg('id')
    def id_(I, args, kw):
        raise Unsupported('id')
    ns['staticmethod'] = Native('staticmethod', lambda I, a, k: _Static(a[0]))
    ns['classmethod'] = Native('classmethod', lambda I, a, k: _ClassM(a[0]))
    ns['property'] = Native('property', lambda I, a, k: _Prop(a[0]))
    ns['NotImplemented'] = None
    ns['Ellipsis'] = Ellipsis
    ns['__name__'] = 'weac'
    import builtins as B
    for n in dir(B):
        o = getattr(B, n)
        if isinstance(o, type) and issubclass(o, BaseException):
            ns[n] = o
    return ns


class SeqList(SList):
    """range object"""


def _ri(r, k):
    k = conc(lift(k))
    if isinstance(k, int):
        return r[k]
    return conc(canon(add(num(r.start), mul(num(r.step), k))))


def _uniq(xs):
    out = []
    for x in xs:
        if not any(type(x) is type(y) and x == y for y in out):
            out.append(x)
    return out


def _typeof(I, v):
    if isinstance(v, Obj):
        return v.cls
    for n in ('bool', 'int', 'float', 'str', 'list', 'tuple', 'dict'):
        if I.builtins[n].test(I, v):
            return I.builtins[n]
    raise Unsupported('type()')


# --- attributes -------------------------------------------------------------
def attribute(I, o, name):
    if o is None:
        if name == '__class__':
            return V.ClassV('NoneType', [], {}, 'NoneType')
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, Arr):
        return arr_attr(I, o, name)
    if isinstance(o, (list, SList)):
        return list_attr(I, o, name)
    if isinstance(o, dict):
        return dict_attr(I, o, name)
    if isinstance(o, str):
        return str_attr(I, o, name)
    if isinstance(o, tuple):
        if name == 'count':
            return Native('count', lambda I, a, k: sum(1 for x in o if I.truth(I.compare('Eq', x, a[0]))))
        if name == 'index':
            return list_attr(I, list(o), name)
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, Cx):
        if name in ('real', 'imag'):
            return conc(o.re if name == 'real' else o.im)
        if name in ('conj', 'conjugate'):
            return Native(name, lambda I, a, k: Cx(o.re, neg(o.im)))
    if isinstance(o, (T, int, Fraction)) and not (isinstance(o, T) and o.sort == 's'):
        if name == 'real':
            return o
        if name == 'imag':
            return 0
        if name in ('item', 'copy', 'conjugate', 'conj'):
            return Native(name, lambda I, a, k: o)
        if name in ('shape',):
            return ()
        if name == 'ndim':
            return 0
        if name in ('size',):
            return 1
        if name == 'T':
            return o
        if name == 'is_integer':
            return Native(name, lambda I, a, k: conc(eq(lift(o), tm.fn('floor', lift(o)))))
        if name in ('sum', 'max', 'min', 'mean'):
            return Native(name, lambda I, a, k: o)
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, ExcObj):
        if name == 'args':
            return tuple(o.args)
    if isinstance(o, (Func, Native)):
        if name == '__name__':
            return o.node.name if isinstance(o, Func) else o.name
        if name == '__doc__':
            return ''
    if isinstance(o, Bound) and name in ('__func__', '__name__', '__self__'):
        return o.fn if name == '__func__' else o.self_ if name == '__self__' else o.fn.node.name
    if isinstance(o, TypeV):
        if name == '__name__':
            return o.name
        if o.name == 'dict' and name == 'fromkeys':
            return Native(name, lambda I, a, k: {conc(x): (a[1] if len(a) > 1 else None) for x in I.tolist(a[0])})
        return Native(name, lambda I, a, k: I.call(I.getattr(a[0], name), a[1:], k))
    if o is None:
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, bool):
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, (Seq, Partial)):
        raise Unsupported(f'attribute {name} of {type(o).__name__}')
    if isinstance(o, T):
        if o.sort == 's':
            raise Unsupported(f'string method {name} on symbolic string')
    raise Unsupported(f'attribute {name} of {type(o).__name__}')


def arr_attr(I, a, name):
    np = I.stdmods['numpy'].ns
    if name == 'shape':
        return tuple(a.shape)
    if name == 'T':
        return transpose(a)
    if name == 'ndim':
        return a.ndim
    if name == 'size':
        return size_of(a)
    if name == 'dtype':
        return DType(a.kind)
    if name in ('real', 'imag'):
        if a.kind != 'c':
            if name == 'real':
                return a
            return mkarr(a.shape, lambda idx: ZERO, a.kind)
        g = a.snap()
        return mkarr(a.shape, lambda idx: (g(idx).re if name == 'real' else g(idx).im) if isinstance(g(idx), Cx)
                     else (g(idx) if name == 'real' else ZERO), 'f')
    if name in ('sum', 'mean', 'max', 'min', 'any', 'all', 'prod', 'cumsum', 'repeat', 'dot', 'transpose', 'squeeze',
                'ravel', 'conj'):
        return Native(name, lambda I, args, kw: np[name].fn(I, [a] + list(args), kw))
    if name == 'conjugate':
        return Native(name, lambda I, args, kw: np['conj'].fn(I, [a], kw))
    if name in ('copy', '__copy__'):
        return Native(name, lambda I, args, kw: copyarr(a))
    if name == 'flatten':
        return Native(name, lambda I, args, kw: copyarr(ravel(I, a)))
    if name == 'astype':
        return Native(name, lambda I, args, kw: cast(I, a, dkind(args[0])))
    if name == 'reshape':
        return Native(name, lambda I, args, kw: reshape(I, a, shape_arg(I, args[0]) if len(args) == 1 else args))
    if name == 'tolist':
        def tl(I, args, kw, a=a):
            s = I.seq(a)
            if isinstance(s.n, int):
                return [tl(I, [], {}, x) if isinstance(x, Arr) else x for x in (s.get(k) for k in range(s.n))]
            if a.ndim == 1:
                g = a.snap()
                return SList(s.n, lambda i: conc(g((lift(i),))))
            return SList(s.n, lambda i: tl(I, [], {}, s.get(i)))
        return Native(name, tl)
    if name == 'item':
        return Native(name, lambda I, args, kw: conc(a.at(*(args or [ZERO] * a.ndim))))
    if name == 'fill':
        return Native(name, lambda I, args, kw: I.arr_set(a, Ellipsis, args[0]))
    if name in ('nonzero', 'argmax', 'argmin', 'sort', 'argsort', 'std', 'var', 'round', 'clip', 'flat', 'swapaxes', 'put',
                'take', 'view', 'resize', 'trace', 'diagonal'):
        raise Unsupported(f'ndarray.{name}')
    raise PyRaise(AttributeError, (name,))


def list_attr(I, o, name):
    if name == 'append':
        if isinstance(o, SList):
            raise Unsupported('append to symbolic list')
        return Native(name, lambda I, a, k: I.list_append(o, a[0]))
    if name == 'extend':
        return Native(name, lambda I, a, k: I.list_extend(o, a[0]))
    if name == 'copy':
        def cp(I, a, k):
            if isinstance(o, SList):
                return SList(o.n, o.fn)
            return list(o)
        return Native(name, cp)
    if name == 'index':
        def ix(I, a, k):
            for j, x in enumerate(I.tolist(o)):
                if I.truth(I.compare('Eq', x, a[0])):
                    return j
            raise PyRaise(ValueError)
        return Native(name, ix)
    if name == 'count':
        return Native(name, lambda I, a, k: conc(add(*[ite(lift(I.compare('Eq', x, a[0])), ONE, ZERO) for x in I.tolist(o)], ZERO)))
    if isinstance(o, SList):
        raise Unsupported(f'symbolic list .{name}')
    if name == 'insert':
        def insert(I, a, k):
            if I.frames:
                raise Unsupported('list insert in loop')
            I.mutlist(o)
            o.insert(conc(a[0]), a[1])
        return Native(name, insert)
    if name == 'pop':
        def pop(I, a, k):
            if I.frames:
                raise Unsupported('list pop in loop')
            I.mutlist(o)
            if not o:
                raise PyRaise(IndexError)
            return o.pop(*[conc(x) for x in a])
        return Native(name, pop)
    if name == 'reverse':
        def rv(I, a, k):
            I.mutlist(o)
            o.reverse()
        return Native(name, rv)
    if name == 'clear':
        def cl(I, a, k):
            I.mutlist(o)
            o.clear()
        return Native(name, cl)
    if name == 'remove':
        def rm(I, a, k):
            for j, x in enumerate(o):
                if I.truth(I.compare('Eq', x, a[0])):
                    I.mutlist(o)
                    del o[j]
                    return
            raise PyRaise(ValueError)
        return Native(name, rm)
    if name == 'sort':
        def st(I, a, k):
            r = I.builtins['sorted'].fn(I, [o], k)
            I.mutlist(o)
            o[:] = r
        return Native(name, st)
    raise PyRaise(AttributeError, (name,))


def dict_attr(I, o, name):
    if name == 'get':
        def get(I, a, k):
            try:
                return I.getitem(o, a[0])
            except PyRaise as e:
                if issubclass(e.cls, KeyError):
                    return a[1] if len(a) > 1 else k.get('default')
                raise
        return Native(name, get)
    if name == 'items':
        return Native(name, lambda I, a, k: [(q, v) for q, v in o.items()])
    if name == 'keys':
        return Native(name, lambda I, a, k: list(o))
    if name == 'values':
        return Native(name, lambda I, a, k: list(o.values()))
    if name == 'copy':
        return Native(name, lambda I, a, k: dict(o))
    if name == 'update':
        def up(I, a, k):
            I.mutdict(o)
            for x in a:
                o.update(x)
            o.update(k)
        return Native(name, up)
    if name == 'pop':
        def pop(I, a, k):
            I.mutdict(o)
            if a[0] not in o:
                if len(a) > 1:
                    return a[1]
                raise PyRaise(KeyError)
            return o.pop(a[0])
        return Native(name, pop)
    if name == 'setdefault':
        def sd(I, a, k):
            I.mutdict(o)
            return o.setdefault(a[0], a[1] if len(a) > 1 else None)
        return Native(name, sd)
    raise PyRaise(AttributeError, (name,))


def str_attr(I, o, name):
    if name in ('lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'replace', 'join', 'title', 'capitalize',
                'isdigit', 'count', 'find', 'rstrip', 'lstrip', 'removeprefix', 'removesuffix', 'rsplit', 'casefold'):
        def f(I, a, k):
            a = [conc(x) for x in a]
            if name == 'join':
                a = [[x for x in I.tolist(a[0])]]
            if any(isinstance(x, (T, Arr)) for x in a):
                raise Unsupported('string method argument')
            return getattr(o, name)(*a)
        return Native(name, f)
    if name == 'format':
        return Native(name, lambda I, a, k: o)
    raise PyRaise(AttributeError, (name,))


# --- other modules ----------------------------------------------------------
def quad(I, args, kw):
    f, a, b = args[:3]
    fa = tuple(kw.get('args', ())) if isinstance(kw.get('args', ()), (tuple, list)) else (kw['args'],)
    x = I.fresh('x', 'r')
    a, b = lift(conc(a)), lift(conc(b))
    nf = len(I.facts)
    rs = I.explore(lambda: I.call(f, [x] + list(fa), {}), lambda out, pc, facts: (out, list(pc)))
    for out, pc in rs:
        if out[0] == 'raise':
            raise out[1]
    v = I.merge([(pc, _size1(I, out[1])) for out, pc in rs])
    v = lift(v)
    I.events.append(('quad', v, x, a, b, kw.get('epsrel')))
    return (conc(tm.integral(v, x, a, b)), I.fresh('err', 'r'))


def _size1(I, v):
    if isinstance(v, Arr):
        if size_of(v) == 1:
            return conc(v.at(*[ZERO] * v.ndim))
        raise PyRaise(TypeError, ('only length-1 arrays',))
    return v


def brentq(I, args, kw):
    f, a, b = args[:3]
    r = I.fresh('root', 'r')
    ev = {'fn': f, 'a': a, 'b': b, 'root': r}
    x = I.fresh('x', 'r')
    rs = I.explore(lambda: I.call(f, [x], {}), lambda out, pc, facts: (out, list(pc)))
    for out, pc in rs:
        if out[0] == 'raise':
            raise out[1]
    v = lift(I.merge([(pc, _size1(I, out[1])) for out, pc in rs]))
    ev['f'], ev['x'] = v, x
    I.events.append(('brentq', ev))
    I.assume(le(lift(conc(a)), r), le(r, lift(conc(b))))
    ev['eq'] = eq(subst(v, {x: r}), ZERO)
    return r


def modules(I0):
    from . import drawing
    np = numpy_mod(I0)
    integ = ModV('scipy.integrate', {
        'quad': Native('quad', quad),
        'cumulative_trapezoid': Native('cumulative_trapezoid', lambda I, a, k: (lambda p: cumtrapz(
            I, p['y'], p['x'], p['axis'], p['initial'], p['dx']))(
            argsn(a, k, ['y', 'x', 'dx', 'axis', 'initial'], {'x': None, 'dx': 1, 'axis': -1, 'initial': None}))),
        'trapezoid': np.ns['trapezoid'],
        'romberg': Native('romberg', lambda I, a, k: _unsup('romberg')),
        'simpson': Native('simpson', lambda I, a, k: _unsup('simpson')),
    })
    opt = ModV('scipy.optimize', {'brentq': Native('brentq', brentq)},
               getter=lambda a: Native('scipy.optimize.' + a, lambda I, x, k: _unsup('scipy.optimize')))
    stub = lambda n: ModV(n, {}, getter=lambda a: Native(f'{n}.{a}', lambda I, x, k: _unsup(n)))
    m = {
        'numpy': np,
        'numpy.linalg': np.ns['linalg'],
        'scipy': ModV('scipy', {'integrate': integ, 'optimize': opt}),
        'scipy.integrate': integ,
        'scipy.optimize': opt,
        'functools': ModV('functools', {
            'partial': Native('partial', lambda I, a, k: Partial(a[0], list(a[1:]), dict(k))),
            'reduce': Native('reduce', _reduce),
            'lru_cache': Native('lru_cache', lambda I, a, k: _unsup('lru_cache')),
            'wraps': Native('wraps', lambda I, a, k: Native('wraps', lambda I2, b, k2: b[0]))}),
        'timeit': ModV('timeit', {'default_timer': Native('timer', lambda I, a, k: I.fresh('time', 'r'))}),
        'time': ModV('time', {'time': Native('timer', lambda I, a, k: I.fresh('time', 'r'))}),
        'math': ModV('math', {**{n: np.ns[n] for n in ('sin', 'cos', 'tan', 'exp', 'sqrt', 'log', 'log10', 'pi', 'inf', 'nan',
                                                       'isnan', 'degrees', 'radians', 'e')},
                              'ceil': Native('math.ceil', lambda I, a, k: conc(tm.fn('ceil', lift(conc(a[0]))))),
                              'floor': Native('math.floor', lambda I, a, k: conc(tm.fn('floor', lift(conc(a[0]))))),
                              'fabs': np.ns['abs'], 'hypot': np.ns['hypot'],
                              'fsum': Native('fsum', lambda I, a, k: I.builtins['sum'].fn(I, a, k))}),
        'itertools': ModV('itertools', {
            'accumulate': Native('accumulate', lambda I, a, k: _accum(I, a, k)),
            'chain': Native('chain', lambda I, a, k: _chain(I, a)),
            'pairwise': Native('pairwise', lambda I, a, k: _pairwise(I, a[0]))}),
        'operator': ModV('operator', {'add': Native('add', lambda I, a, k: I.binop('Add', *a)),
                                      'mul': Native('mul', lambda I, a, k: I.binop('Mult', *a))}),
        'os': drawing.os_module(stub)[0], 'os.path': drawing.os_module(stub)[1], 'colorsys': drawing.colorsys(),
        'warnings': ModV('warnings', {'warn': Native('warn', lambda I, a, k: None)}),
        'copy': ModV('copy', {'copy': Native('copy', _pycopy), 'deepcopy': Native('deepcopy', _deepcopy)}),
        'typing': ModV('typing', {}, getter=lambda a: TypeV(a, lambda I, v: True)),
        'IPython': drawing.ipython(),
        'matplotlib': stub('matplotlib'), 'matplotlib.colors': drawing.colours(), 'matplotlib.pyplot': drawing.pyplot(),
        '__future__': ModV('__future__', {}, getter=lambda a: None),
    }
    return m


def _pairwise(I, v):
    s = I.seq(v)
    n = dim(sub(lift(s.n), ONE)) if not isinstance(s.n, int) else max(0, s.n - 1)
    return Seq(n, lambda k: (s.get(k), s.get(conc(add(lift(k), ONE)))))


def _chain(I, args):
    r = []
    for a in args:
        r = slist_concat(I, r, a)
    return r


def _accum(I, a, k):
    if len(a) > 1 or set(k) - {'initial'}:
        raise Unsupported('accumulate')
    arr = asarr(I, a[0]) if isinstance(a[0], (list, tuple, SList, Arr)) else _unsup('accumulate')
    c = cumsum(I, arr)
    if 'initial' in k:
        i0 = lift(k['initial'])
        c = concat(I, [mkarr((1,), lambda idx: i0, c.kind), I.binop('Add', c, k['initial'])], 0)
    s = I.seq(c)
    return [s.get(q) for q in range(s.n)] if isinstance(s.n, int) else SList(s.n, lambda i: s.get(i))


def _reduce(I, a, k):
    xs = I.tolist(a[1])
    if len(a) > 2:
        xs = [a[2]] + xs
    r = xs[0]
    for x in xs[1:]:
        r = I.call(a[0], [r, x], {})
    return r


def _pycopy(I, a, k):
    v = a[0]
    if isinstance(v, Arr):
        return copyarr(v)
    if isinstance(v, list):
        return list(v)
    if isinstance(v, dict):
        return dict(v)
    if isinstance(v, Obj):
        return Obj(v.cls, dict(v.attrs), v.tag)
    return v


def _deepcopy(I, a, k, memo=None):
    v = a[0]
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Arr):
        r = copyarr(v)
    elif isinstance(v, list):
        r = [_deepcopy(I, [x], k, memo) for x in v]
    elif isinstance(v, tuple):
        r = tuple(_deepcopy(I, [x], k, memo) for x in v)
    elif isinstance(v, dict):
        r = {q: _deepcopy(I, [x], k, memo) for q, x in v.items()}
    elif isinstance(v, Obj):
        r = Obj(v.cls, {}, v.tag)
        memo[id(v)] = r
        for q, x in v.attrs.items():
            r.attrs[q] = _deepcopy(I, [x], k, memo)
    else:
        r = v
    memo[id(v)] = r
    return r
