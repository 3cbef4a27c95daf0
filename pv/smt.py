"""z3 back end: entailment of boolean terms from facts, with instantiated lemmas for sums,
elementary functions and arrays.  'unknown' never counts as proved."""
import time
import z3
from . import terms as tm
from .terms import (T, TRUE, FALSE, ZERO, ONE, num, var, sel, mk, canon, canonb, and_, or_, not_,
                    implies, lt, le, eq, add, sub, neg, mul, children, subterms, subst, show)

stats = {'queries': 0, 'time': 0.0, 'unknown': 0}
TIMEOUT = [4000]
SCALE = [1]


class Translator:
    def __init__(self, factgens=None):
        self.fg = factgens or {}
        self.memo = {}
        self.extra = []
        self.done = set()
        self.funs = {}
        self.pss = []
        self.bvs = []

    def fun(self, name, sorts, rs):
        key = (name, tuple(sorts), rs)
        f = self.funs.get(key)
        if f is None:
            rs = 'i' if rs == 's' else rs
            zs = {'i': z3.IntSort(), 'r': z3.RealSort(), 'b': z3.BoolSort()}
            f = z3.Function(f'{name}|{"".join(sorts)}|{rs}', *[zs[s] for s in sorts], zs[rs])
            self.funs[key] = f
        return f

    def tr(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._tr(t)
            self.memo[t.id] = r
        return r

    def real(self, t):
        r = self.tr(t)
        return z3.ToReal(r) if r.sort() == z3.IntSort() else r

    def same(self, a, b):
        x, y = self.tr(a), self.tr(b)
        if x.sort() != y.sort():
            if x.sort() == z3.IntSort():
                x = z3.ToReal(x)
            if y.sort() == z3.IntSort():
                y = z3.ToReal(y)
        return x, y

    def _tr(self, t):
        op, a = t.op, t.args
        if op == 'num':
            v = a[0]
            return z3.IntVal(v.numerator) if v.denominator == 1 else z3.RealVal(f'{v.numerator}/{v.denominator}')
        if op == 'var':
            if a[0] == 'pi':
                p = z3.Real('pi')
                self.once('pi', p > z3.RealVal('3.1415926'), p < z3.RealVal('3.1415927'))
                return p
            return {'i': z3.Int, 's': z3.Int, 'r': z3.Real, 'b': z3.Bool}[t.sort](a[0])
        if op == 'str':
            return z3.Int(f'str:{a[0]}')
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'add' or op == 'mul':
            xs = [self.tr(u) for u in a]
            if any(x.sort() == z3.RealSort() for x in xs):
                xs = [z3.ToReal(x) if x.sort() == z3.IntSort() else x for x in xs]
            r = xs[0]
            for x in xs[1:]:
                r = r + x if op == 'add' else r * x
            return r
        if op == 'pow':
            b, n = self.tr(a[0]), a[1]
            if n < 0:
                b = z3.ToReal(b) if b.sort() == z3.IntSort() else b
            r = b
            for _ in range(abs(n) - 1):
                r = r * b
            return 1 / r if n < 0 else r
        if op == 'ite':
            x, y = self.same(a[1], a[2])
            return z3.If(self.tr(a[0]), x, y)
        if op in ('lt', 'le', 'eq'):
            if a[0].sort == 's' or a[1].sort == 's':
                return z3.Const(f'strcmp{t.id}', z3.BoolSort())
            x, y = self.same(a[0], a[1])
            return {'lt': lambda: x < y, 'le': lambda: x <= y, 'eq': lambda: x == y}[op]()
        if op == 'not':
            return z3.Not(self.tr(a[0]))
        if op == 'and':
            return z3.And(*[self.tr(u) for u in a])
        if op == 'or':
            return z3.Or(*[self.tr(u) for u in a])
        if op == 'fn':
            return self._fn(t)
        if op == 'sel':
            xs = [self.tr(u) for u in a[1:]]
            sorts = ['i' if x.sort() == z3.IntSort() else 'b' if x.sort() == z3.BoolSort() else 'r' for x in xs]
            r = self.fun(a[0], sorts, t.sort)(*xs) if xs else {'i': z3.Int, 's': z3.Int, 'r': z3.Real, 'b': z3.Bool}[t.sort](a[0])
            g = self.fg.get(a[0])
            if g and t.id not in self.done and not self._bound(t):
                self.done.add(t.id)
                for f in g(*a[1:]):
                    self.extra.append(self.tr(canonb(f)))
            return r
        if op == 'ps':
            c = z3.Int(f'ps{t.id}') if t.sort == 'i' else z3.Real(f'ps{t.id}')
            if t.id not in self.done and not self._bound(t):
                self.done.add(t.id)
                self.pss.append(t)
            self.tr(a[2])
            return c
        if op == 'any':
            k = a[1]
            x = self.tr(k)
            self.bvs.append(k)
            body = self.tr(a[0])
            self.bvs.pop()
            return z3.Exists([x], z3.And(self.tr(a[2]) <= x, x < self.tr(a[3]), body))
        if op in ('sum', 'integral'):
            return self.tr(canon(t))
        srt = {'i': z3.Int, 'r': z3.Real, 'b': z3.Bool}.get(t.sort)
        if srt is None:
            raise ValueError('untranslatable ' + op)
        return srt(f'opq{t.id}')

    def _bound(self, t):
        return any(b in tm.freevars(t) for b in self.bvs) or any(
            v.args[0].startswith('β') for v in tm.freevars(t))

    def once(self, key, *fs):
        if key not in self.done:
            self.done.add(key)
            self.extra.extend(fs)

    def _fn(self, t):
        name, x = t.args[0], t.args[1]
        if name == 'abs':
            v = self.tr(x)
            return z3.If(v >= 0, v, -v)
        bound = self._bound(t)
        if name in ('ceil', 'floor'):
            v = self.real(x)
            if bound:
                return z3.ToInt(v) if name == 'floor' else -z3.ToInt(-v)
            c = z3.Int(f'{name}{x.id}')
            cr = z3.ToReal(c)
            if x.op == 'mul':       # sign of a product
                fs = [self.real(u.args[0] if u.op == 'pow' else u) for u in x.args]
                self.once(('sign', x.id), z3.Implies(z3.And(*[q > 0 for q in fs]), v > 0))
            if name == 'ceil':
                self.once(t.id, cr >= v, cr < v + 1)
            else:
                self.once(t.id, cr <= v, cr > v - 1)
            return c
        v = self.real(x)
        f = self.fun('fn:' + name, ['r'], 'r')
        r = f(v)
        if not bound:
            if name == 'sqrt':
                self.once(t.id, z3.Implies(v >= 0, z3.And(r >= 0, r * r == v)), z3.Implies(v > 0, r > 0))
            elif name in ('sin', 'cos'):
                s = self.fun('fn:sin', ['r'], 'r')(v)
                c = self.fun('fn:cos', ['r'], 'r')(v)
                self.once(('sc', x.id), s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1)
            elif name == 'exp':
                self.once(t.id, r > 0, z3.Implies(v <= 0, r <= 1), z3.Implies(v >= 0, r >= 1))
        return r

    def sum_lemmas(self, entail):
        """sign and monotonicity of prefix sums with provably signed bodies"""
        out = []
        groups = {}
        for t in self.pss:
            groups.setdefault((t.args[0], t.args[1]), []).append(t)
        for (body, k), ts in groups.items():
            q = var(f'q#{body.id}', 'i')
            b = subst(body, {k: q})
            for strict in (True, False):
                goal = lt(ZERO, b) if strict else le(ZERO, b)
                # the summand's sign is asked for indices inside the summation range only
                hi = [t.args[2] for t in ts]
                if entail([le(ZERO, q), or_(*[lt(q, h) for h in hi])], goal):
                    zs = [(self.tr(t), self.tr(t.args[2])) for t in ts]
                    for v, n in zs:
                        out.append(z3.Implies(n >= 0, v >= 0))
                        if strict:
                            out.append(z3.Implies(n >= 1, v > 0))
                    if 1 < len(ts) <= 4:
                        for t, (v, n) in zip(ts, zs):
                            if t.args[2].op == 'num' or self._bound(t):
                                continue
                            x = self.tr(canon(subst(body, {k: t.args[2]})))
                            for u, (w, m) in zip(ts, zs):
                                if u is not t:
                                    out.append(z3.Implies(z3.And(n >= 0, n < m), v + x <= w))
                                    if strict:
                                        out.append(z3.Implies(z3.And(n >= 0, n + 1 < m), v + x < w))
                    for i, (v, n) in enumerate(zs):
                        for w, m in zs[i + 1:]:
                            out += [z3.Implies(n <= m, v <= w), z3.Implies(m <= n, w <= v)]
                            if strict:
                                out += [z3.Implies(n < m, v < w), z3.Implies(m < n, w < v)]
                            if body.sort == 'i' and strict:
                                out += [z3.Implies(n <= m, v + (m - n) <= w), z3.Implies(m <= n, w + (n - m) <= v)]
                    break
        return out


class Solver:
    def __init__(self, factgens):
        self.fg = factgens
        self.memo = {}
        self.depth = 0
        self.packed = {}

    def entails(self, facts, goal, timeout=None):
        goal = canonb(goal) if goal.op not in ('any',) else goal
        if goal is TRUE:
            return True
        fs = [f for f in facts if f is not TRUE]
        if goal in fs:
            return True
        if goal.op in ('and', 'or', 'not'):
            known = set(fs)
            for f in fs:
                if f.op == 'and':
                    known.update(f.args)
            if _given(goal, known):
                return True
        key = (frozenset(f.id for f in fs), goal.id)
        if key in self.memo:
            return self.memo[key]
        r = self.check(fs + [not_(goal)], timeout) == 'unsat'
        self.memo[key] = r
        return r

    def package(self, f):
        """a formula's translation with its side conditions, and the partial sums in it"""
        r = self.packed.get(f.id)
        if r is None:
            tr = Translator(self.fg)
            e = tr.tr(f)
            r = self.packed[f.id] = ([e] + tr.extra, tr.pss)
        return r

    def check(self, fs, timeout=None):
        """'sat' | 'unsat' | 'unknown' for the conjunction fs"""
        cfs = []
        for f in fs:
            g = canonb(f)
            if g is FALSE:
                return 'unsat'
            if g is not TRUE:
                cfs.append(g)
        if not cfs:
            return 'sat'
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', SCALE[0]*(timeout or TIMEOUT[0]))
        try:
            zs, pss = {}, []
            for f in cfs:
                es, ps = self.package(f)
                for e in es:
                    zs[e.get_id()] = e
                pss += [t for t in ps if t not in pss]
            zs = list(zs.values())
            if pss and self.depth < 3:
                self.depth += 1
                try:
                    tr = Translator(self.fg)
                    for t in pss:
                        tr.tr(t)
                    base = [f for f in cfs]
                    zs += tr.sum_lemmas(lambda extra, goal: self.entails(base[:-1] + extra, goal, 1500))
                    zs += tr.extra
                finally:
                    self.depth -= 1
        except ValueError:
            return 'unknown'
        s.add(zs)
        r = str(s.check())
        stats['queries'] += 1
        stats['time'] += time.time() - t0
        if r == 'unknown':
            stats['unknown'] += 1
        return r


def _given(t, known):
    """truth value of a propositional combination of known facts, None if open"""
    if t is TRUE or t in known:
        return True
    if t is FALSE or canonb(not_(t)) in known:
        return False
    if t.op == 'not':
        v = _given(t.args[0], known)
        return None if v is None else not v
    if t.op in ('and', 'or'):
        vs = [_given(a, known) for a in t.args]
        unit = t.op == 'and'
        if (not unit) in vs:
            return not unit
        if all(v is unit for v in vs):
            return unit
    return None
