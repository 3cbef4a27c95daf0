"""Terms over mathematical reals/integers/booleans, with an exact normal form.

Terms are hash-consed.  ``nf`` maps an arithmetic term to a rational function over *atoms*
(variables, array cells, sin/cos/exp/sqrt/abs/... applications, prefix sums, integrals, ite);
``is_zero`` decides the equality of two terms in the theory of commutative fields extended by
  sin^2+cos^2=1, parity of sin/cos, exp(a+b)=exp(a)exp(b), sqrt(a)^2=a, |a|^2=a^2,
  linearity, shift, reflection and splitting of finite sums, linearity of integrals.
A non-zero normal form is *not* a refutation.
"""
from fractions import Fraction
import math
import sys

sys.setrecursionlimit(20000)

_tab = {}
_ctr = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'id', '_fv', '__weakref__')

    def __repr__(self):
        return show(self)

    # arithmetic sugar ------------------------------------------------------
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return add(self, neg(lift(o)))
    def __rsub__(self, o): return add(lift(o), neg(self))
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __neg__(self): return neg(self)
    def __pow__(self, o): return power(self, lift(o))
    def __rpow__(self, o): return power(lift(o), self)


def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = object.__new__(T)
        t.op, t.args, t.sort = op, args, sort
        _ctr[0] += 1
        t.id = _ctr[0]
        t._fv = None
        _tab[key] = t
    return t


def num(x):
    if isinstance(x, float):
        x = Fraction(repr(x))
    x = Fraction(x)
    return mk('num', (x,), 'i' if x.denominator == 1 else 'r')


ZERO, ONE = num(0), num(1)
TRUE, FALSE = mk('true', (), 'b'), mk('false', (), 'b')
NAN = mk('nan', (), 'r')
INF = mk('inf', (), 'r')
PI = mk('var', ('pi',), 'r')


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, Fraction)):
        return num(x)
    if isinstance(x, str):
        return mk('str', (x,), 's')
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (math.inf, -math.inf):
            return INF if x > 0 else neg(INF)
        return num(x)
    raise TypeError(f'cannot lift {type(x).__name__}: {x!r}')


def var(name, sort='r'):
    return mk('var', (name,), sort)


def sel(name, *idx, sort='r'):
    return mk('sel', (name,) + tuple(lift(i) for i in idx), sort)


def _toarith(a):
    if a.sort == 'b':
        return ite(a, ONE, ZERO)
    return a


def add(*ts):
    out, c, sort = [], Fraction(0), 'i'
    for t in ts:
        t = _toarith(t)
        if t is NAN:
            return NAN
        if t.sort == 'r':
            sort = 'r'
        if t.op == 'num':
            c += t.args[0]
        elif t.op == 'add':
            for u in t.args:
                if u.op == 'num':
                    c += u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    if c != 0:
        out.append(num(c))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return mk('add', tuple(out), sort)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def mul(*ts):
    out, c, sort = [], Fraction(1), 'i'
    for t in ts:
        t = _toarith(t)
        if t is NAN:
            return NAN
        if t.sort == 'r':
            sort = 'r'
        if t.op == 'num':
            c *= t.args[0]
        elif t.op == 'mul':
            for u in t.args:
                if u.op == 'num':
                    c *= u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    if c == 0:
        return ZERO
    if c != 1 or not out:
        out.insert(0, num(c))
    if len(out) == 1:
        return out[0]
    return mk('mul', tuple(out), sort)


def ipow(b, n):
    if b is NAN:
        return NAN
    if n == 0:
        return ONE
    if n == 1:
        return b
    if b.op == 'num' and (b.args[0] != 0 or n > 0):
        return num(b.args[0] ** n)
    if b.op == 'pow':
        return ipow(b.args[0], b.args[1] * n)
    return mk('pow', (b, n), b.sort if n > 0 else 'r')


def div(a, b):
    a, b = _toarith(a), _toarith(b)
    if b is NAN or a is NAN:
        return NAN
    if b.op == 'num':
        if b.args[0] == 0:
            return mk('div0', (a,), 'r')
        return mul(num(1 / b.args[0]), a)
    return mul(a, ipow(b, -1))


def power(b, e):
    b, e = _toarith(b), _toarith(e)
    if e.op == 'num':
        f = e.args[0]
        if f.denominator == 1:
            return ipow(b, int(f))
        if f == Fraction(1, 2):
            return fn('sqrt', b)
    return mk('rpow', (b, e), 'r')


def fn(name, *args):
    args = tuple(_toarith(lift(a)) for a in args)
    if any(a is NAN for a in args):
        return NAN
    a = args[0]
    if a.op == 'num':
        v = a.args[0]
        if name == 'abs':
            return num(abs(v))
        if name in ('ceil', 'floor'):
            return num(math.ceil(v) if name == 'ceil' else math.floor(v))
        if v == 0 and name in ('sin', 'sqrt'):
            return ZERO
        if v == 0 and name in ('cos', 'exp'):
            return ONE
        if name == 'sqrt' and v >= 0:
            p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if p * p == v.numerator and q * q == v.denominator:
                return num(Fraction(p, q))
    if name == 'tan':
        return div(fn('sin', a), fn('cos', a))
    if name in ('ceil', 'floor') and a.sort == 'i':
        return a
    return mk('fn', (name,) + args, 'i' if name in ('ceil', 'floor') else 'r')


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort == 'b' and b.sort == 'b':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.sort == 's':
        return mk('ite', (c, a, b), 's')
    if a.sort == 'b' or b.sort == 'b':
        a, b = _toarith(a), _toarith(b)
        if a is b:
            return a
    return mk('ite', (c, a, b), 'i' if a.sort == 'i' and b.sort == 'i' else 'r')


def sumT(body, bv, lo, hi):
    """sum of body over lo <= bv < hi"""
    body, lo, hi = lift(body), lift(lo), lift(hi)
    if body is ZERO:
        return ZERO
    if lo.op == 'num' and hi.op == 'num':
        a, b = int(lo.args[0]), int(hi.args[0])
        if b - a <= 64:
            return add(*[subst(body, {bv: num(k)}) for k in range(a, b)]) if b > a else ZERO
    return mk('sum', (body, bv, lo, hi), body.sort if body.sort == 'i' else 'r')


def anyT(body, bv, lo, hi):
    body, lo, hi = lift(body), lift(lo), lift(hi)
    if body is FALSE:
        return FALSE
    if body is TRUE:
        return lt(lo, hi)
    if lo.op == 'num' and hi.op == 'num' and hi.args[0] - lo.args[0] <= 64:
        return or_(*[subst(body, {bv: num(k)}) for k in range(int(lo.args[0]), int(hi.args[0]))])
    return mk('any', (body, bv, lo, hi), 'b')


def integral(body, bv, lo, hi):
    return mk('integral', (lift(body), bv, lift(lo), lift(hi)), 'r')


# booleans ------------------------------------------------------------------
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'lt':
        return mk('le', (a.args[1], a.args[0]), 'b')
    if a.op == 'le':
        return mk('lt', (a.args[1], a.args[0]), 'b')
    return mk('not', (a,), 'b')


def _flat(op, unit, zero, ts):
    out = []
    for t in ts:
        for u in (t.args if t.op == op else (t,)):
            if u is zero:
                return [zero]
            if u is not unit and u not in out:
                out.append(u)
    for u in out:
        if not_(u) in out:
            return [zero]
    out.sort(key=lambda t: t.id)
    return out


def and_(*ts):
    out = _flat('and', TRUE, FALSE, ts)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk('and', tuple(out), 'b')


def or_(*ts):
    out = _flat('or', FALSE, TRUE, ts)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else mk('or', tuple(out), 'b')


def implies(a, b):
    return or_(not_(a), b)


def _cmpnum(a, b):
    d = add(a, neg(b))
    if d.op == 'num':
        return d.args[0]
    if d.op in ('add', 'mul', 'pow') and len(d.args) <= 24:
        n, dd = nf(d)
        if not n:
            return Fraction(0)
        if len(n) == 1 and () in n and not dd:
            return n[()]
    return None


def lt(a, b):
    a, b = _toarith(lift(a)), _toarith(lift(b))
    if a is NAN or b is NAN:
        return FALSE
    if a is b:
        return FALSE
    if INF in (a, b) or neg(INF) in (a, b):
        return TRUE if (b is INF or a is neg(INF)) else FALSE
    c = _cmpnum(a, b)
    if c is not None:
        return TRUE if c < 0 else FALSE
    return mk('lt', (a, b), 'b')


def le(a, b):
    a, b = _toarith(lift(a)), _toarith(lift(b))
    if a is NAN or b is NAN:
        return FALSE
    if a is b:
        return TRUE
    if INF in (a, b) or neg(INF) in (a, b):
        return TRUE if (b is INF or a is neg(INF)) else FALSE
    c = _cmpnum(a, b)
    if c is not None:
        return TRUE if c <= 0 else FALSE
    return mk('le', (a, b), 'b')


def eq(a, b):
    a, b = lift(a), lift(b)
    if a.sort == 'b' and b.sort == 'b':
        if a is b:
            return TRUE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if not_(a) is b:
            return FALSE
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort == 's' or b.sort == 's':
        if a is b:
            return TRUE
        if a.op == 'ite':
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if b.op == 'ite':
            return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
        if a.op == 'str' and b.op == 'str':
            return FALSE
        if a.sort != b.sort:
            return FALSE
        return mk('eq', (a, b) if a.id < b.id else (b, a), 'b')
    a, b = _toarith(a), _toarith(b)
    if a is NAN or b is NAN:
        return FALSE
    if a is b:
        return TRUE
    if INF in (a, b) or neg(INF) in (a, b):
        return FALSE
    c = _cmpnum(a, b)
    if c is not None:
        return TRUE if c == 0 else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), 'b')


def isnan(t):
    t = lift(t)
    if t is NAN:
        return TRUE
    if t.op == 'ite':
        return ite(t.args[0], isnan(t.args[1]), isnan(t.args[2]))
    if t.op in ('add', 'mul'):
        return or_(*[isnan(a) for a in t.args])
    if t.op == 'pow':
        return isnan(t.args[0])
    if t.op == 'fn':
        return or_(*[isnan(a) for a in t.args[1:]])
    if t.op == 'sel' and t.args[0].endswith('?'):    # array that may hold NaN
        return mk('isnan', (t,), 'b')
    return FALSE


# traversal -----------------------------------------------------------------
def children(t):
    return [a for a in t.args if isinstance(a, T)]


def rebuild(t, args):
    """Rebuild node t with T-children replaced, re-simplifying."""
    op = t.op
    it = iter(args)
    new = tuple(next(it) if isinstance(a, T) else a for a in t.args)
    if new == t.args:
        return t
    if op == 'add':
        return add(*new)
    if op == 'mul':
        return mul(*new)
    if op == 'pow':
        return ipow(new[0], new[1])
    if op == 'rpow':
        return power(*new)
    if op == 'fn':
        return fn(*new)
    if op == 'ite':
        return ite(*new)
    if op == 'sum':
        return sumT(*new)
    if op == 'not':
        return not_(new[0])
    if op == 'and':
        return and_(*new)
    if op == 'or':
        return or_(*new)
    if op == 'lt':
        return lt(*new)
    if op == 'le':
        return le(*new)
    if op == 'eq':
        return eq(*new)
    if op == 'isnan':
        return isnan(new[0])
    if op == 'any':
        return anyT(*new)
    return mk(op, new, t.sort)


def subst(t, m, memo=None):
    """Simultaneous substitution {T atom -> T}."""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif not t.args or not any(isinstance(a, T) for a in t.args):
        r = t
    elif t.op in BINDERS:
        r = _subst_bound(t, m, memo)
    else:
        r = rebuild(t, [subst(a, m, memo) for a in children(t)])
    memo[t.id] = r
    return r


BINDERS = ('sum', 'ps', 'any', 'integral', 'integ')      # body, bound variable, limits
_renamed = [0]


def _subst_bound(t, m, memo):
    body, bv = t.args[:2]
    fv = freevars(body)
    inner = {k: v for k, v in m.items() if bv not in freevars(k) and freevars(k) <= fv}
    if any(bv in freevars(v) for v in inner.values()):
        _renamed[0] += 1
        new = mk('var', (f'k#r{_renamed[0]}',), bv.sort)
        body, bv = subst(body, {bv: new}), new
        body = subst(body, inner)
    elif inner:
        body = subst(body, inner, memo if len(inner) == len(m) else None)
    return rebuild(t, [body, bv] + [subst(a, m, memo) for a in t.args[2:] if isinstance(a, T)])


def freevars(t):
    if t._fv is None:
        if t.op == 'var':
            t._fv = frozenset((t,))
        else:
            s = frozenset()
            if t.op in BINDERS:
                s = freevars(t.args[0]) - {t.args[1]}
                for a in t.args[2:]:
                    s |= freevars(a)
            else:
                for a in children(t):
                    s |= freevars(a)
            t._fv = s
    return t._fv


def contains(t, pred, memo=None):
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    r = pred(t) or any(contains(a, pred, memo) for a in children(t))
    memo[t.id] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = {}
    st = [t]
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen[u.id] = u
        st.extend(children(u))
    return seen.values()


_prec = {'add': 1, 'mul': 2, 'pow': 3}


def show(t, depth=0):
    if depth > 40:
        return '...'
    s = lambda a: show(a, depth + 1) if isinstance(a, T) else str(a)
    op, a = t.op, t.args
    if op == 'num':
        return str(a[0])
    if op == 'var':
        return a[0]
    if op in ('true', 'false', 'nan', 'inf'):
        return op
    if op == 'add':
        return '(' + ' + '.join(map(s, a)) + ')'
    if op == 'mul':
        return '*'.join(map(s, a))
    if op == 'pow':
        return f'{s(a[0])}^{a[1]}'
    if op == 'rpow':
        return f'{s(a[0])}^({s(a[1])})'
    if op == 'sel':
        return f'{a[0]}[{",".join(map(s, a[1:]))}]'
    if op == 'fn':
        return f'{a[0]}({",".join(map(s, a[1:]))})'
    if op == 'ite':
        return f'ite({s(a[0])}, {s(a[1])}, {s(a[2])})'
    if op in ('lt', 'le', 'eq'):
        return f'({s(a[0])} {dict(lt="<", le="<=", eq="==")[op]} {s(a[1])})'
    if op in ('sum', 'integral'):
        return f'{op}[{s(a[1])}={s(a[2])}..{s(a[3])}]({s(a[0])})'
    if op == 'ps':
        return f'sum[{s(a[1])}<{s(a[2])}]({s(a[0])})'
    return f'{op}({",".join(map(s, a))})'


# polynomials ---------------------------------------------------------------
# Poly: {mono: Fraction}; mono: tuple of (atom id, exponent>0) sorted by id.
_atoms = {}      # id -> T (canonical)


def _aid(t):
    _atoms[t.id] = t
    return t.id


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def p_add(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


class TooBig(Exception):
    pass


LIMIT = [400000]


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        c = a[()]
        return {m: v * c for m, v in b.items()}
    if len(b) == 1 and () in b:
        c = b[()]
        return {m: v * c for m, v in a.items()}
    if len(a) * len(b) > LIMIT[0] * 8:
        raise TooBig()
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = mono_mul(ma, mb)
            v = r.get(m, 0) + ca * cb
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def p_scale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def p_pow(a, n):
    r = {(): Fraction(1)}
    while n:
        if n & 1:
            r = p_mul(r, a)
        n >>= 1
        if n:
            a = p_mul(a, a)
    return r


def p_key(p):
    return tuple(sorted(p.items()))


# denominators: dict factor_key -> exponent; factor poly normalised (monic in smallest mono).
_factors = {}


def _lead(p):
    return min(p)


def p_div_exact(a, b):
    """a / b if exact else None (multivariate division w.r.t. a lex order)."""
    if not a:
        return {}
    lb = max(b)
    # use a monomial order: compare as dict-lex on atom ids -- tuple order is not multiplicative in
    # general, so use degree vectors over the involved atoms.
    atoms = sorted({k for m in list(a) + list(b) for k, _ in m})
    pos = {k: i for i, k in enumerate(atoms)}

    def vec(m):
        v = [0] * len(atoms)
        for k, e in m:
            v[pos[k]] = e
        return tuple(v)
    A = {vec(m): c for m, c in a.items()}
    B = {vec(m): c for m, c in b.items()}
    lb = max(B)
    cb = B[lb]
    Q = {}
    steps = 0
    while A:
        la = max(A)
        d = tuple(x - y for x, y in zip(la, lb))
        if min(d, default=0) < 0:
            return None
        q = A[la] / cb
        Q[d] = q
        for m, c in B.items():
            mm = tuple(x + y for x, y in zip(m, d))
            v = A.get(mm, 0) - q * c
            if v:
                A[mm] = v
            else:
                A.pop(mm, None)
        steps += 1
        if steps > 3000:
            return None
    return {tuple((atoms[i], e) for i, e in enumerate(v) if e): c for v, c in Q.items()}


def _norm_factor(p):
    """(unit, key) with p == unit * _factors[key]"""
    c = p[_lead(p)]
    q = {m: v / c for m, v in p.items()}
    k = p_key(q)
    _factors.setdefault(k, q)
    return c, k


def rf_mul(x, y):
    n = p_mul(x[0], y[0])
    if not n:
        return {}, {}
    d = dict(x[1])
    for k, e in y[1].items():
        d[k] = d.get(k, 0) + e
    return rf_cancel(n, d)


def rf_cancel(n, d):
    if not n:
        return {}, {}
    if not d:
        return n, d
    d = dict(d)
    for k in list(d):
        f = _factors[k]
        if len(f) == 1:
            (m, _), = f.items()
            (a, e1), = m
            # single atom factor
            mn = min((dict(mm).get(a, 0) for mm in n), default=0)
            c = min(mn, d[k])
            if c:
                nn = {}
                for mm, cc in n.items():
                    dd = dict(mm)
                    dd[a] -= c
                    if not dd[a]:
                        del dd[a]
                    nn[tuple(sorted(dd.items()))] = cc
                n = nn
                d[k] -= c
                if not d[k]:
                    del d[k]
        elif len(n) <= 200:
            while k in d and len(n) >= len(f):
                q = p_div_exact(n, f)
                if q is None:
                    break
                n = q
                d[k] -= 1
                if not d[k]:
                    del d[k]
    return n, d


def rf_add(x, y):
    if not x[0]:
        return y
    if not y[0]:
        return x
    if x[1] == y[1]:
        return rf_cancel(p_add(x[0], y[0]), x[1])
    d = dict(x[1])
    for k, e in y[1].items():
        d[k] = max(d.get(k, 0), e)
    nx, ny = x[0], y[0]
    for k, e in d.items():
        f = _factors[k]
        ex, ey = e - x[1].get(k, 0), e - y[1].get(k, 0)
        if ex:
            nx = p_mul(nx, p_pow(f, ex))
        if ey:
            ny = p_mul(ny, p_pow(f, ey))
    return rf_cancel(p_add(nx, ny), d)


def rf_inv(x):
    n, d = x
    if not n:
        raise ZeroDivisionError('normal form: division by zero')
    # factor out common monomial of n
    dd = {}
    atoms = None
    for m in n:
        s = dict(m)
        if atoms is None:
            atoms = s
        else:
            atoms = {a: min(e, s[a]) for a, e in atoms.items() if a in s}
    c = Fraction(1)
    if atoms:
        nn = {}
        for m, v in n.items():
            s = dict(m)
            for a, e in atoms.items():
                s[a] -= e
                if not s[a]:
                    del s[a]
            nn[tuple(sorted(s.items()))] = v
        n = nn
        for a, e in atoms.items():
            u, k = _norm_factor({((a, 1),): Fraction(1)})
            dd[k] = dd.get(k, 0) + e
    if len(n) == 1 and () in n:
        c = n[()]
    else:
        for fp, e in _factor(n):
            u, k = _norm_factor(fp)
            c *= u ** e
            if len(fp) == 1 and () in fp:
                continue
            dd[k] = dd.get(k, 0) + e
    num_ = {(): Fraction(1) / c}
    for k, e in d.items():
        num_ = p_mul(num_, p_pow(_factors[k], e))
    return rf_cancel(num_, dd)


_factor_memo = {}


def _factor(p):
    """Factor small polynomials so that equal denominators get equal factor sets."""
    if len(p) > 12 or len({a for m in p for a, _ in m}) > 6:
        return [(p, 1)]
    if all(sum(e for _, e in m) <= 1 for m in p):
        return [(p, 1)]
    k = p_key(p)
    if k in _factor_memo:
        return _factor_memo[k]
    import sympy
    ids = sorted({a for m in p for a, _ in m})
    syms = {a: sympy.Symbol(f'x{i}') for i, a in enumerate(ids)}
    inv = {s: a for a, s in syms.items()}
    e = sum(sympy.Rational(c.numerator, c.denominator) * sympy.prod([syms[a] ** x for a, x in m])
            for m, c in p.items())
    c, fs = sympy.factor_list(e)
    out = []
    for f, mult in fs:
        q = {}
        for mon, co in sympy.Poly(f, *[syms[a] for a in ids]).terms():
            m = tuple((a, x) for a, x in zip(ids, mon) if x)
            q[m] = Fraction(int(co.p), int(co.q))
        out.append((q, mult))
    cc = Fraction(int(c.p), int(c.q))
    if cc != 1:
        if out:
            # fold constant into first multiplicity-1 factor, else as separate constant
            for i, (q, mult) in enumerate(out):
                if mult == 1:
                    out[i] = (p_scale(q, cc), 1)
                    break
            else:
                out.append(({(): cc}, 1))
        else:
            out.append(({(): cc}, 1))
    _factor_memo[k] = out
    return out


_nf = {}


def nf(t):
    """rational normal form (Poly, {factor: exp})"""
    r = _nf.get(t.id)
    if r is None:
        r = _nf1(t)
        _nf[t.id] = r
    return r


def _atom(t):
    return {((_aid(t), 1),): Fraction(1)}, {}


def _const(c):
    c = Fraction(c)
    return ({(): c} if c else {}), {}


def _nf1(t):
    op, a = t.op, t.args
    if op == 'num':
        return _const(a[0])
    if op == 'var':
        return _atom(t)
    if op == 'add':
        r = ({}, {})
        for u in a:
            r = rf_add(r, nf(u))
        return r
    if op == 'mul':
        r = _const(1)
        for u in a:
            r = rf_mul(r, nf(u))
        return r
    if op == 'pow':
        b = nf(a[0])
        n = a[1]
        if n < 0:
            b = rf_inv(b)
            n = -n
        r = _const(1)
        for _ in range(n):
            r = rf_mul(r, b)
        return r
    if op == 'fn':
        return _nf_fn(a[0], [canon(x) for x in a[1:]])
    if op == 'rpow':
        b, e = canon(a[0]), canon(a[1])
        p = power(b, e)
        if p.op != 'rpow':
            return nf(p)
        return _atom(p)
    if op == 'sel':
        return _atom(mk('sel', (a[0],) + tuple(canon(x) for x in a[1:]), t.sort))
    if op == 'ite':
        c = canonb(a[0])
        x, y = canon(a[1]), canon(a[2])
        r = ite(c, x, y)
        if r.op != 'ite':
            return nf(r)
        return _atom(r)
    if op == 'sum':
        return _nf_sum(*a)
    if op == 'ps':
        return _nf_sum(a[0], a[1], ZERO, a[2])
    if op == 'integral':
        return _nf_integral(*a)
    if op in ('nan', 'inf', 'div0'):
        return _atom(t)
    if t.sort == 'b':
        return nf(ite(t, ONE, ZERO)) if t not in (TRUE, FALSE) else _const(1 if t is TRUE else 0)
    if op == 'inv':
        return rf_inv(nf(a[0]))
    return _atom(mk(op, tuple(canon(x) if isinstance(x, T) else x for x in a), t.sort))


def _leadneg(t):
    """does the canonical term have a negative leading coefficient"""
    n, _ = nf(t)
    if not n:
        return False
    # lead by smallest printed key for determinism
    return n[_lead(n)] < 0


def _nf_fn(name, args):
    x = args[0]
    if name == 'sin':
        if x is ZERO:
            return _const(0)
        if _leadneg(x):
            r = _atom(mk('fn', ('sin', canon(neg(x))), 'r'))
            return p_scale(r[0], -1), r[1]
    elif name == 'cos':
        if x is ZERO:
            return _const(1)
        if _leadneg(x):
            return _atom(mk('fn', ('cos', canon(neg(x))), 'r'))
    elif name == 'abs':
        if _leadneg(x):
            x = canon(neg(x))
        n, d = nf(x)
        if len(n) == 1 and () in n and not d:
            return _const(abs(n[()]))
        return _atom(mk('fn', ('abs', x), 'r'))
    elif name == 'exp':
        n, d = nf(x)
        r = _const(1)
        for m, c in n.items():
            base = canon(from_rf(({m: Fraction(1, c.denominator)}, d)))
            at = _atom(mk('fn', ('exp', base), 'r'))
            k = c.numerator
            if k < 0:
                at = rf_inv(at)
                k = -k
            for _ in range(k):
                r = rf_mul(r, at)
        return r
    elif name == 'sqrt':
        # sqrt(c P) = k sqrt(r P') with P' of content 1, r a square-free integer
        n, d = nf(x)
        if n:
            g = 0
            for c in n.values():
                g = math.gcd(g, c.numerator)
            q = 1
            for c in n.values():
                q = q * c.denominator // math.gcd(q, c.denominator)
            r, s = g * q, 1
            for p in range(2, 200):
                while r % (p * p) == 0:
                    r //= p * p
                    s *= p
            k = Fraction(s, q)
            if k != 1:
                y = from_rf((p_scale(n, 1 / (k * k)), d))
                t = fn('sqrt', y)
                b = _atom(t) if t.op == 'fn' else nf(t)
                return p_scale(b[0], k), b[1]
    t = fn(name, *args)
    if t.op != 'fn':
        return nf(t)
    return _atom(t)


def depth(t, memo=None):
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    d = max([depth(c, memo) for c in children(t)], default=0)
    if t.op in ('ps', 'sum', 'integral', 'integ', 'any'):
        d += 1
    memo[t.id] = d
    return d


def _linear_in(t, k):
    """canonical int term t = c*k + rest -> (c, rest) or None"""
    n, d = nf(t)
    if d:
        return None
    c, rest = Fraction(0), {}
    for m, v in n.items():
        s = dict(m)
        if k.id in s:
            if m == ((k.id, 1),):
                c = v
            else:
                return None
        else:
            rest[m] = v
    rt = from_rf((rest, {}))
    if k in freevars(rt):
        return None
    return c, rt


def _int_indices(ts):
    """integer index arguments inside atoms ts: array cells first (by name), then prefix-sum bounds"""
    sels, pss = [], []
    for t in ts:
        stack = [t]
        while stack:
            u = stack.pop(0)
            if u.op == 'sel':
                sels.extend((u.args[0], i) for i in u.args[1:] if i.sort == 'i')
            elif u.op == 'ps':
                pss.append((str(u.args[0].id), u.args[2]))
                stack = [u.args[2]] + stack
                continue
            stack = children(u) + stack
    return sorted(sels, key=lambda p: p[0]), sorted(pss, key=lambda p: p[0])


def _ref_index(group, k):
    """offset of the reference index (smallest name, smallest constant offset) or None"""
    best = None
    for name, i in group:
        lin = _linear_in(canon(i), k)
        if lin is None or abs(lin[0]) != 1:
            if lin is not None and lin[0] == 0:
                continue
            return None
        if best is None:
            best = (name, lin)
        elif name == best[0] and lin[0] == best[1][0]:
            d = canon(sub(lin[1], best[1][1]))
            if d.op == 'num' and (d.args[0] < 0 if lin[0] == 1 else d.args[0] > 0):
                best = (name, lin)
    return best[1] if best else None


def _shape_key(t):
    """ordering key that ignores integer offsets (shift invariant)"""
    if t.op == 'sel':
        return ('sel', t.args[0], len(t.args))
    if t.op == 'ps':
        return ('ps', t.args[0].id)
    if t.op in ('num', 'var'):
        return (t.op, str(t.args[0]))
    return (t.op,) + tuple(_shape_key(c) for c in children(t)) + tuple(
        str(a) for a in t.args if not isinstance(a, T))


def bvar(d, sort='i'):
    return mk('var', (f'β{d}',), sort)


def _udivmod(n, f, a):
    """division by a polynomial in the single atom a"""
    deg = lambda m: next((e for x, e in m if x == a), 0)
    top = max(deg(m) for m in f)
    lc = f[((a, top),)]
    q, r = {}, dict(n)
    while True:
        ms = [m for m in r if deg(m) >= top]
        if not ms:
            return q, r
        m = max(ms, key=deg)
        c = r[m] / lc
        e = deg(m) - top
        base = tuple((x, y) for x, y in m if x != a)
        mm = tuple(sorted(base + (((a, e),) if e else ())))
        q[mm] = q.get(mm, 0) + c
        r = p_add(r, p_scale(p_mul({mm: Fraction(1)}, f), -c))


def _fractions(n, d, k):
    """n/d as a sum of fractions whose numerators are reduced by the denominators in one atom that depend on k"""
    done = [(n, d)]
    for key in sorted(d):
        f = _factors[key]
        atoms = {x for m in f for x, _ in m}
        if len(atoms) != 1 or len(f) < 2:
            continue
        a = next(iter(atoms))
        if k not in freevars(_atoms[a]):
            continue
        todo, done = done, []
        while todo:
            x, dd = todo.pop()
            q, r = _udivmod(x, f, a)
            if r:
                done.append((r, dd))
            if q:
                d2 = dict(dd)
                d2[key] -= 1
                if not d2[key]:
                    del d2[key]
                (todo if key in d2 else done).append((q, d2))
    return done


def _split_body(body, k):
    """monomials of the body: list of (coef RF without k, [k-dependent atoms with exponents])"""
    n, d = nf(body)
    out = []
    for x, y in _fractions(n, d, k):
        out += _split_fraction(x, y, k)
    return out


def _split_fraction(n, d, k):
    dfree, ddep = {}, []
    for key, e in d.items():
        f = from_rf((_factors[key], {}))
        if k in freevars(f):
            ddep.append((mk('inv', (f,), 'r'), e))
        else:
            dfree[key] = e
    out = []
    for m, c in n.items():
        free, dep = [], list(ddep)
        for a, e in m:
            t = _atoms[a]
            if k in freevars(t):
                dep.append((t, e))
            else:
                free.append((a, e))
        out.append((({tuple(free): c}, dict(dfree)), dep))
    return out


FILTERS = {}        # name of a selection function -> object with count, mask, n


def _filtered(body, k, lo, hi):
    """sum over the selected indices as a sum over all indices weighted by the selection's indicator"""
    if lo is not ZERO:
        return None
    for u in subterms(body):
        if u.op == 'sel' and u.args[0] in FILTERS and len(u.args) == 2 and u.args[1] is k:
            f = FILTERS[u.args[0]]
            if canon(f.count) is not hi:
                continue
            new = mk('var', (f'i#sel{depth(body)}',), 'i')
            b = subst(body, {u: new})
            if k in freevars(b):
                continue
            return mul(ite(f.mask(new), ONE, ZERO), b), new, lift(f.n)
    return None


def unfilter(t):
    """sums over selected indices written as sums over all indices"""
    if not FILTERS:
        return t
    for u in subterms(t):
        if u.op == 'ps':
            r = _filtered(u.args[0], u.args[1], ZERO, u.args[2])
            if r is not None:
                return unfilter(canon(subst(t, {u: sumT(r[0], r[1], ZERO, r[2])})))
    return t


def _nf_sum(body, k, lo, hi):
    res = ({}, {})
    lo, hi = canon(lo), canon(hi)
    for coef, dep in _split_body(body, k):
        if not dep:
            s = nf(sub(hi, lo))
        else:
            s = _sum_mono(dep, k, lo, hi)
        res = rf_add(res, rf_mul(coef, s))
    return res


def _single(dep, k):
    """a factor that is special at one index only: (position, condition, that index)"""
    for q, (t, e) in enumerate(dep):
        if t.op == 'ite' and e > 0 and t.args[0].op == 'eq' and t.args[0].args[1] is ZERO and k in freevars(t.args[0]):
            d = t.args[0].args[0]
            lin = _linear_in(d, k) if d.sort == 'i' else None
            if lin is not None and abs(lin[0]) == 1 and k not in freevars(lin[1]):
                return q, canon(neg(lin[1]) if lin[0] == 1 else lin[1])
    return None


def _sum_mono(dep, k, lo, hi):
    one = _single(dep, k)
    if one is not None:
        q, at = one
        (t, e), rest = dep[q], dep[:q] + dep[q + 1:]
        r = mul(*[ipow(u, f) if u.op != 'inv' else ipow(u.args[0], -f) for u, f in rest])
        x, y = mul(r, ipow(t.args[1], e)), mul(r, ipow(t.args[2], e))
        hit = sub(ite(lt(at, hi), ONE, ZERO), ite(lt(at, lo), ONE, ZERO))
        return rf_add(_nf_sum(y, k, lo, hi), nf(mul(hit, subst(sub(x, y), {k: at}))))
    term = lambda: mul(*[ipow(t, e) if t.op != 'inv' else ipow(t.args[0], -e) for t, e in dep])
    m = term()
    sels, pss = _int_indices([t for t, _ in dep])
    ref = _ref_index(sels, k) or (_ref_index(pss, k) if not sels else None)
    if ref is not None and ref[0] == -1:
        # reflect  k -> -k
        m = subst(m, {k: neg(k)})
        lo, hi = canon(add(ONE, neg(hi))), canon(add(ONE, neg(lo)))
        return _nf_sum(m, k, lo, hi)
    if ref is not None and ref[1] is not ZERO:
        e0 = ref[1]
        m = subst(m, {k: sub(k, e0)})
        lo, hi = canon(add(lo, e0)), canon(add(hi, e0))
        return _nf_sum(m, k, lo, hi)
    return rf_add(_ps(m, k, hi), tuple_neg(_ps(m, k, lo)))


def tuple_neg(r):
    return p_scale(r[0], -1), r[1]


def _ps(m, k, bound):
    n, d = nf(bound)
    c = n.get((), Fraction(0)) if not d else Fraction(0)
    if c.denominator == 1 and c != 0 and abs(c) <= 64:
        e = from_rf(({q: v for q, v in n.items() if q != ()}, d))
        r = _ps(m, k, e)
        c = int(c)
        if c > 0:
            for j in range(c):
                r = rf_add(r, nf(subst(m, {k: add(e, num(j))})))
        else:
            for j in range(1, -c + 1):
                r = rf_add(r, tuple_neg(nf(subst(m, {k: add(e, num(-j))}))))
        return r
    if bound is ZERO or not n:
        return ({}, {})
    body = canon(m)
    b = bvar(depth(body) + 1)
    body = canon(subst(body, {k: b}))
    return _atom(mk('ps', (body, b, bound), 'i' if body.sort == 'i' else 'r'))


def _nf_integral(body, k, lo, hi):
    lo, hi = canon(lo), canon(hi)
    if lo is hi:
        return ({}, {})
    res = ({}, {})
    for coef, dep in _split_body(body, k):
        if not dep:
            s = nf(sub(hi, lo))
        else:
            m = canon(mul(*[ipow(t, e) if t.op != 'inv' else ipow(t.args[0], -e) for t, e in dep]))
            b = bvar(depth(m) + 1, 'r')
            m = canon(subst(m, {k: b}))
            s = _atom(mk('integ', (m, b, lo, hi), 'r'))
        res = rf_add(res, rf_mul(coef, s))
    return res


def from_rf(r):
    n, d = r
    ts = []
    for m in sorted(n):
        ts.append(mul(num(n[m]), *[ipow(_atoms[a], e) for a, e in m]))
    t = add(*ts) if ts else ZERO
    for k in sorted(d):
        f = from_rf((_factors[k], {}))
        t = mul(t, ipow(f, -d[k]))
    return t


_canon = {}


def canon(t):
    t = lift(t)
    if t.sort == 'b':
        return canonb(t)
    r = _canon.get(t.id)
    if r is None:
        r = from_rf(nf(t))
        _canon[t.id] = r
        _canon[r.id] = r
    return r


def canonb(t):
    if t.op in ('lt', 'le', 'eq') and t.args[0].sort not in 'bs':
        d = canon(sub(t.args[0], t.args[1]))
        if d.op == 'num':
            v = d.args[0]
            return lift({'lt': v < 0, 'le': v <= 0, 'eq': v == 0}[t.op])
        if t.op == 'eq' and _leadneg(d):
            d = canon(neg(d))
        # integer strictness: a<0 on ints -> a+1<=0
        if t.op == 'lt' and d.sort == 'i':
            return mk('le', (canon(add(d, ONE)), ZERO), 'b')
        return mk(t.op, (d, ZERO), 'b')
    if not t.args or t.op == 'var':
        return t
    if t.op == 'ite':
        return ite(canonb(t.args[0]), canonb(t.args[1]), canonb(t.args[2]))
    if t.op in ('and', 'or', 'not'):
        return rebuild(t, [canonb(c) for c in children(t)])
    if t.op == 'any':
        k = bvar(depth(t.args[0]) + 1)
        return anyT(canonb(subst(t.args[0], {t.args[1]: k})), k, canon(t.args[2]), canon(t.args[3]))
    if t.op == 'eq':
        return t
    return mk(t.op, tuple(canon(a) if isinstance(a, T) else a for a in t.args), 'b')


def reduce_poly(p, rules=()):
    """apply sin^2 -> 1-cos^2, sqrt^2, abs^2 and extra rewrite rules until stable"""
    work = dict(p)
    out = {}
    n = 0
    while work:
        n += 1
        if n > 2000000:
            raise TooBig()
        m, c = work.popitem()
        hit = None
        d = dict(m)
        for a, e in m:
            t = _atoms[a]
            if t.op == 'fn' and e >= 2:
                f = t.args[0]
                if f == 'sin':
                    cs = _aid(mk('fn', ('cos', t.args[1]), 'r'))
                    hit = ({a: 2}, {(): Fraction(1), ((cs, 2),): Fraction(-1)})
                elif f == 'sqrt':
                    nn, dd = nf(t.args[1])
                    if not dd:
                        hit = ({a: 2}, nn)
                elif f == 'abs':
                    nn, dd = nf(mul(t.args[1], t.args[1]))
                    if not dd:
                        hit = ({a: 2}, nn)
                if hit:
                    break
        if hit is None:
            for lhs, rhs in rules:
                if all(d.get(a, 0) >= e for a, e in lhs):
                    hit = (dict(lhs), rhs)
                    break
        if hit is None:
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
            continue
        lhs, rhs = hit
        for a, e in lhs.items():
            d[a] -= e
            if not d[a]:
                del d[a]
        rest = tuple(sorted(d.items()))
        for mm, cc in rhs.items():
            q = mono_mul(rest, mm)
            v = work.get(q, 0) + c * cc
            if v:
                work[q] = v
            else:
                work.pop(q, None)
    return out


def mkrule(lhs, rhs):
    """rewrite rule: monomial term lhs -> polynomial term rhs"""
    (m, c), = nf(lhs)[0].items()
    n, d = nf(div(rhs, num(c)))
    return m, (n, d)


def is_zero(t, rules=()):
    n, d = nf(t)
    if not n:
        return True
    rr = []
    for lhs, (rn, rd) in rules:
        if rd:
            raise ValueError('rule with denominator')
        rr.append((lhs, rn))
    return not reduce_poly(n, rr)


def residual(t):
    return from_rf(({m: c for m, c in reduce_poly(nf(t)[0]).items()}, {}))


# derivative ---------------------------------------------------------------
def D(t, x, memo=None):
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    if x not in freevars(t):
        r = ZERO
    elif t is x:
        r = ONE
    elif t.op == 'add':
        r = add(*[D(a, x, memo) for a in t.args])
    elif t.op == 'mul':
        r = add(*[mul(*(t.args[:i] + (D(a, x, memo),) + t.args[i + 1:])) for i, a in enumerate(t.args)])
    elif t.op == 'pow':
        r = mul(num(t.args[1]), ipow(t.args[0], t.args[1] - 1), D(t.args[0], x, memo))
    elif t.op == 'fn' and t.args[0] == 'exp':
        r = mul(t, D(t.args[1], x, memo))
    elif t.op == 'fn' and t.args[0] == 'sin':
        r = mul(fn('cos', t.args[1]), D(t.args[1], x, memo))
    elif t.op == 'fn' and t.args[0] == 'cos':
        r = mul(num(-1), fn('sin', t.args[1]), D(t.args[1], x, memo))
    elif t.op == 'sel' and t.args[0].startswith('fun:'):
        r = mul(mk('sel', ("fun:D" + t.args[0][4:],) + t.args[1:], 'r'), D(t.args[-1], x, memo))
    elif t.op == 'sum' and x not in freevars(t.args[2]) and x not in freevars(t.args[3]):
        r = sumT(D(t.args[0], x, memo), t.args[1], t.args[2], t.args[3])
    else:
        raise ValueError(f'derivative of {t.op}')
    memo[t.id] = r
    return r


# numeric evaluation -------------------------------------------------------
class EvalError(Exception):
    pass


def evaluate(t, env, memo=None, m=math):
    """env: dict name -> number | callable(idx...); m: math-like namespace"""
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    r = _ev(t, env, memo, m)
    if not any(v.args[0].startswith(('β', 'k#')) for v in freevars(t)):
        memo[t.id] = r
    return r


def _ev(t, env, memo, m):
    op, a = t.op, t.args
    ev = lambda u: evaluate(u, env, memo, m)
    if op == 'num':
        v = a[0]
        if v.denominator == 1:
            return int(v)
        return m.mpf(v.numerator) / v.denominator if hasattr(m, 'mpf') else v.numerator / v.denominator
    if op == 'var':
        if a[0] == 'pi':
            return m.pi
        if a[0] not in env:
            raise EvalError(f'unbound {a[0]}')
        return env[a[0]]
    if op == 'nan':
        return math.nan
    if op == 'inf':
        return math.inf
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op == 'add':
        r = 0
        for u in a:
            r = r + ev(u)
        return r
    if op == 'mul':
        r = 1
        for u in a:
            r = r * ev(u)
        return r
    if op == 'pow':
        b = ev(a[0])
        if a[1] < 0 and b == 0:
            raise EvalError('division by zero')
        return b ** a[1] if a[1] > 0 else (m.mpf(1) if hasattr(m, 'mpf') else 1.0) / b ** (-a[1])
    if op == 'rpow':
        b, e = ev(a[0]), ev(a[1])
        if b < 0 or (b == 0 and e < 0):
            raise EvalError('pow domain')
        return b ** e
    if op == 'fn':
        x = ev(a[1])
        f = a[0]
        if x != x:
            return math.nan
        if f == 'abs':
            return abs(x)
        if f == 'ceil':
            return int(math.ceil(x))
        if f == 'floor':
            return int(math.floor(x))
        if f == 'sqrt':
            if x < 0:
                raise EvalError('sqrt domain')
            return m.sqrt(x)
        if f == 'log' and x <= 0 or f == 'log10' and x <= 0:
            raise EvalError('log domain')
        try:
            return getattr(m, f)(x)
        except OverflowError:
            return math.inf
    if op == 'sel':
        f = env.get(a[0])
        if f is None:
            raise EvalError(f'unbound array {a[0]}')
        return f(*[ev(u) for u in a[1:]])
    if op == 'ite':
        return ev(a[1]) if ev(a[0]) else ev(a[2])
    if op == 'lt':
        return ev(a[0]) < ev(a[1])
    if op == 'le':
        return ev(a[0]) <= ev(a[1])
    if op == 'eq':
        return ev(a[0]) == ev(a[1])
    if op == 'not':
        return not ev(a[0])
    if op == 'and':
        return all(ev(u) for u in a)
    if op == 'or':
        return any(ev(u) for u in a)
    if op == 'isnan':
        v = ev(a[0])
        return v != v
    if op == 'str':
        return a[0]
    if op == 'any':
        e2 = env.child() if hasattr(env, 'child') else dict(env)
        for j in range(int(ev(a[2])), int(ev(a[3]))):
            e2[a[1].args[0]] = j
            if evaluate(a[0], e2, {}, m):
                return True
        return False
    if op == 'inv':
        return 1 / ev(a[0])
    if op in ('sum', 'ps'):
        body, k = a[0], a[1]
        lo, hi = (ev(a[2]), ev(a[3])) if op == 'sum' else (0, ev(a[2]))
        r = 0
        e2 = env.child() if hasattr(env, 'child') else dict(env)
        sgn = 1
        if hi < lo:
            lo, hi, sgn = hi, lo, -1
        if hi - lo > 1000:
            raise EvalError('long sum')
        for j in range(int(lo), int(hi)):
            e2[k.args[0]] = j
            r = r + evaluate(body, e2, {}, m)
        return sgn * r
    if op in ('integral', 'integ'):
        body, k = a[0], a[1]
        lo, hi = ev(a[2]), ev(a[3])
        e2 = env.child() if hasattr(env, 'child') else dict(env)

        def g(x):
            e2[k.args[0]] = x
            return float(evaluate(body, e2, {}, m))
        return _gl(g, float(lo), float(hi))
    h = env.get('op:' + op)
    if h is not None:
        return h(ev, *a)
    raise EvalError(f'no evaluation for {op}')


_glx = None


def _gl(g, a, b):
    global _glx
    if _glx is None:
        import numpy as np
        _glx = np.polynomial.legendre.leggauss(24)
    s = 0.0
    N = 8
    for i in range(N):
        lo, hi = a + (b - a) * i / N, a + (b - a) * (i + 1) / N
        for x, w in zip(*_glx):
            s += w * (hi - lo) / 2 * g((hi + lo) / 2 + (hi - lo) / 2 * x)
    return s
