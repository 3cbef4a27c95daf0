"""Discharges obligations: exact normal form, case split on conditions, z3; an obligation that
resists is evaluated exactly at sampled points of its hypotheses -- a point where it is false
refutes it, otherwise its status is 'unknown' (never counted as discharged)."""
import math
import random
import time
from fractions import Fraction
import mpmath
from . import terms as tm
from .terms import (T, TRUE, FALSE, ZERO, ONE, NAN, num, lift, var, sel, ite, eq, lt, le, and_, or_,
                    not_, add, sub, mul, neg, subst, canon, canonb)
from .values import *
from . import values as V

mpmath.mp.dps = 34


class Ob:
    def __init__(self, name, status, how='', secs=0.0, detail='', env=None):
        self.name, self.status, self.how, self.secs, self.detail, self.env = name, status, how, secs, detail, env

    replay = None

    def d(self):
        return {'name': self.name, 'status': self.status, 'by': self.how, 's': round(self.secs, 3),
                **({'detail': self.detail[:400]} if self.detail else {})}


class MP:
    """math-like namespace on mpmath"""
    pi = mpmath.pi

    def __getattr__(self, n):
        f = getattr(mpmath, n)
        return f
    mpf = staticmethod(mpmath.mpf)


_mp = MP()


class NumEnv(dict):
    """lazy random model: scalar symbols and array cells are drawn from samplers on demand"""
    def __init__(self, samplers, rng, size=3):
        super().__init__()
        self.samplers, self.rng, self.size = samplers, rng, size
        self.cells = {}
        self.opaque = set()                  # unknowns of the contract itself that were given a value
        self['op:rank'] = None

    pool, wild = (), 0
    memo = None                              # values of terms, once the model is final

    def draw(self, name, idx=()):
        v = self.draw0(name, idx)
        if self.wild and not isinstance(v, (bool, str)):
            r = self.rng.random()
            if self.pool and r < self.wild:
                c = self.rng.choice(self.pool)
                if isinstance(v, int):
                    return v if abs(c) > 60 else int(c) + self.rng.choice([-1, 0, 0, 1])
                c = mpmath.mpf(c.numerator)/c.denominator
                return c*self.rng.choice([1, 1, mpmath.mpf('0.9'), mpmath.mpf('1.1'), mpmath.mpf('.999'), mpmath.mpf('1.001')])
            if not isinstance(v, int) and r < 1.3*self.wild:
                return v*mpmath.mpf(repr(10**self.rng.uniform(-3, 1.5)))
        return v

    def draw0(self, name, idx=()):
        s = self.samplers.get(name)
        if s is None:
            base = name.split('#')[0].split('[')[0]
            s = self.samplers.get(base)
        if s is None:
            self.opaque.add(name)
        if s is not None:
            v = s(self, *idx) if callable(s) else s
        elif self.sort_of(name) == 'i':
            v = self.rng.randint(0, self.size)
        elif self.sort_of(name) == 'b':
            v = self.rng.random() < .5
        else:
            v = self.rng.choice([1, -1]) * self.rng.uniform(.2, 3)
        if isinstance(v, float):
            v = mpmath.mpf(repr(v))
        return v

    sorts = {}

    def sort_of(self, name):
        return NumEnv.sorts.get(name, 'r')

    def __contains__(self, name):
        return True

    def __missing__(self, name):
        if name.startswith('selected#'):
            fl = next(f for f in Filter.table.values() if isinstance(f, V.LazyFilter) and f.count.args[0] == name)
            try:
                v = sum(1 for i in range(int(self.val(lift(fl.n)))) if self.val(fl.mask(num(i))))
            except Unsupported as x:
                raise tm.EvalError(str(x))
        else:
            v = self.draw(name)
        self[name] = v
        return v

    def get(self, name, d=None):
        if dict.__contains__(self, name):
            return dict.get(self, name)
        if name.startswith('op:'):
            return None
        f = None
        if name.startswith('sigma') and name[5:].isdigit():
            fl = next((f for f in Filter.table.values() if f.name == name), None)
            if fl is not None:
                f = self._sigma(fl)
        if name.startswith('rank') and name[4:].isdigit():
            fl = next((f for f in Filter.table.values() if f.name == 'sigma' + name[4:]), None)
            if fl is not None:
                f = self._rank(fl)
        if name in V.LastWrite.table:
            f = self._last(V.LastWrite.table[name], name.endswith('?'))
        if name in V.Defined.table:
            ps, body = V.Defined.table[name]
            f = lambda *xs: self.val(body, dict(zip((v.args[0] for v in ps), xs)))
        if f is None and name.startswith('owner'):
            from .npmod import Owner
            ow = next((o for o in Owner.table.values() if o.name == name), None)
            if ow is not None:
                f = self._owner(ow)
        if f is None:
            def f(*idx, name=name):
                key = (name,) + tuple(self._k(i) for i in idx)
                if key not in self.cells:
                    self.cells[key] = self.draw(name, idx)
                return self.cells[key]
        self[name] = f
        return f

    def _k(self, i):
        return i if isinstance(i, (int, str, bool)) else mpmath.nstr(mpmath.mpf(i), 25)

    def child(self):
        return Chain(self, {})

    def val(self, t, extra=None):
        if extra:
            return tm.evaluate(lift(t), Chain(self, extra), None, _mp)
        return tm.evaluate(lift(t), self, self.memo, _mp)

    def _sigma(self, fl):
        def f(j):
            c = -1
            for i in range(int(self.val(lift(fl.n)))):
                try:
                    hit = self.val(fl.mask(num(i)))
                except Unsupported as x:
                    raise tm.EvalError(str(x))
                if hit:
                    c += 1
                    if c == j:
                        return i
            raise tm.EvalError('sigma out of range')
        return f

    def _rank(self, fl):
        def f(j):
            try:
                return sum(1 for i in range(int(j)) if self.val(fl.mask(num(i))))
            except Unsupported as x:
                raise tm.EvalError(str(x))
        return f

    def _last(self, w, hit):
        def f(*xs):
            e = dict(zip((v.args[0] for v in w.vars), xs))
            for i in range(int(self.val(w.n, e)) - 1, -1, -1):
                e[w.i.args[0]] = i
                for c, v in reversed(w.raw):
                    if self.val(c, e):
                        return True if hit else self.val(v, e)
            return False if hit else 0
        return f

    def _owner(self, ow):
        def f(j):
            s = 0
            for i in range(int(self.val(lift(ow.n)))):
                s += int(self.val(ow.length(num(i))))
                if j < s:
                    return i
            raise tm.EvalError('owner out of range')
        return f


class Chain(dict):
    def __init__(self, base, extra):
        super().__init__(extra)
        self.base = base

    def child(self):
        return Chain(self, {})

    def __contains__(self, n):
        return True

    def __missing__(self, n):
        return self.base[n]

    def get(self, n, d=None):
        return dict.get(self, n) if dict.__contains__(self, n) else self.base.get(n, d)


def note_sorts(t):
    for u in tm.subterms(t):
        if u.op == 'var':
            NumEnv.sorts.setdefault(u.args[0], u.sort)
        elif u.op == 'sel':
            NumEnv.sorts.setdefault(u.args[0], u.sort)


def conditions(t):
    """ite conditions inside t that mention no bound variable, outermost first"""
    out, seen = [], set()
    st = [t]
    while st:
        u = st.pop(0)
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op == 'ite':
            c = u.args[0]
            cs = c.args if c.op in ('and', 'or') else (c,)
            for x in cs:
                x = x.args[0] if x.op == 'not' else x
                if x not in out and not any(v.args[0].startswith('β') for v in tm.freevars(x)):
                    out.append(x)
        st.extend(tm.children(u))
    return out


def _conds_on(t, k):
    out, seen = [], set()
    st = [t]
    while st:
        u = st.pop(0)
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op == 'ite':
            c = u.args[0]
            for x in (c.args if c.op in ('and', 'or') else (c,)):
                x = x.args[0] if x.op == 'not' else x
                if x not in out and x.op in ('eq', 'le', 'lt') and k in tm.freevars(x) and x.args[0].sort not in 'sb':
                    out.append(x)
        if u.op not in ('ps', 'sum', 'integ'):
            st.extend(tm.children(u))
    return out


class Prover:
    def __init__(self, I, samplers, seed=1, tries=40):
        self.I, self.samplers = I, samplers
        self.rng = random.Random(seed)
        self.tries = tries
        self.budget = 60.0

    # --- equality -----------------------------------------------------------
    def zero(self, d, facts, rules=(), depth=0):
        """'nf' / 'nf+rules' / 'case split' / 'z3' or None"""
        try:
            c = canon(d)
        except ZeroDivisionError:
            return None
        if c is ZERO:
            return 'normal form'
        try:
            if tm.is_zero(c, rules):
                return 'normal form'
        except (tm.TooBig, ZeroDivisionError):
            pass
        if time.time() > self.deadline:
            return None
        # equalities among the facts: substitute solved variables
        bounds = {f.args[0]: f for f in facts if f.op == 'le' and f.args[1] is ZERO}
        tight = [(f, bounds[g]) for d, f in bounds.items() for g in (canon(neg(d)),) if g in bounds and d.id < g.id]
        if tight:
            for f, g in tight:
                s = solved(f.args[0])
                if s and s[0] in tm.freevars(c):
                    sb = {s[0]: s[1]}
                    return self.zero(canon(subst(c, sb)), [canonb(subst(q, sb)) for q in facts if q is not f and q is not g],
                                     rules, depth + 1)
        for f in facts:
            if f.op == 'eq' and f.args[1] is ZERO:
                s = solved(f.args[0])
                if s and s[0] in tm.freevars(c):
                    c2 = canon(subst(c, {s[0]: s[1]}))
                    facts2 = [canonb(subst(g, {s[0]: s[1]})) for g in facts if g is not f]
                    return self.zero(c2, facts2, rules, depth + 1)
        c2 = self.split_sums(c, facts)
        if c2 is not c:
            return self.zero(c2, facts, rules, depth + 1)
        c2 = tm.unfilter(c)
        if c2 is not c and self.zero(c2, facts, rules, depth + 1) is not None:
            return 'selection'
        if depth < 9:
            conds = conditions(c)
            for x in conds:
                for v, y in ((TRUE, x), (FALSE, not_(x))):
                    if self.I.solver.entails(facts, y, 2000):
                        return self.zero(self.put(c, x, v), facts, rules, depth)
            if conds:
                x = conds[0]
                for v, y in ((TRUE, x), (FALSE, not_(x))):
                    if self.zero(self.put(c, x, v), facts + [canonb(y)], rules, depth + 1) is None:
                        return None
                return 'case split'
        if len(list(tm.subterms(c))) < 400 and self.I.solver.entails(facts, eq(c, ZERO), 3000):
            return 'z3'
        if depth == 0 and self.I.solver.check(list(facts), 1500) == 'unsat':
            return 'z3 (unreachable)'
        return None

    def split_sums(self, t, facts, memo=None):
        """split finite sums whose body branches on a linear condition of the summation index"""
        memo = {} if memo is None else memo
        if t.id in memo:
            return memo[t.id]
        r = t
        if t.op == 'ps':
            r = self._split1(t, facts)
        elif tm.children(t) and tm.contains(t, lambda u: u.op == 'ps'):
            r = tm.rebuild(t, [self.split_sums(x, facts, memo) for x in tm.children(t)])
        memo[t.id] = r
        return r

    def _split1(self, t, facts):
        body, k, hi = t.args
        body = canon(body)
        rng = [canonb(le(ZERO, k)), canonb(lt(k, hi))]
        inner = self.split_sums(body, facts + rng)
        if inner is not body:
            return canon(tm.sumT(inner, k, ZERO, hi))
        for x in _conds_on(body, k):
            d = x.args[0] if x.args[1] is ZERO else sub(*x.args)
            lin = tm._linear_in(canon(d), k)
            if lin is None or abs(lin[0]) != 1:
                continue
            a, rest = lin
            T_, F_ = self.put(body, x, TRUE), self.put(body, x, FALSE)
            if x.op == 'eq':
                c = canon(mul(num(-a), rest))
                val = lambda w: sub(subst(T_, {k: w}), subst(F_, {k: w}))
                base = tm.sumT(F_, k, ZERO, hi)
                inside = and_(le(ZERO, c), lt(c, hi))
                if self.I.solver.entails(facts, inside, 2000):
                    return canon(add(base, val(c)))
                if self.I.solver.entails(facts, not_(inside), 2000):
                    return canon(base)
                return canon(add(base, ite(canonb(inside), val(c), ZERO)))
            if x.op == 'le':
                if a == 1:       # k <= -rest
                    c = canon(sub(ONE, rest))
                    lo_b, hi_b = T_, F_
                else:            # k >= rest
                    c = canon(rest)
                    lo_b, hi_b = F_, T_
            elif x.op == 'lt':
                if a == 1:       # k < -rest
                    c = canon(neg(rest))
                    lo_b, hi_b = T_, F_
                else:            # k > rest
                    c = canon(add(rest, ONE))
                    lo_b, hi_b = F_, T_
            else:
                continue
            if c.sort != 'i':
                continue
            E = lambda g: self.I.solver.entails(facts, g, 2000)
            if E(le(c, ZERO)):
                return canon(tm.sumT(hi_b, k, ZERO, hi))
            if E(le(hi, c)):
                return canon(tm.sumT(lo_b, k, ZERO, hi))
            if E(and_(le(ZERO, c), le(c, hi))):
                return canon(add(tm.sumT(lo_b, k, ZERO, c), tm.sumT(hi_b, k, c, hi)))
            m = lambda u: canon(u)
            full = canon(add(tm.sumT(lo_b, k, ZERO, c), tm.sumT(hi_b, k, c, hi)))
            return canon(ite(canonb(le(c, ZERO)), tm.sumT(hi_b, k, ZERO, hi),
                             ite(canonb(le(hi, c)), tm.sumT(lo_b, k, ZERO, hi), full)))
        return t

    def put(self, t, c, v):
        return subst(t, {c: v, not_(c): not_(v)})

    def eq(self, name, a, b, facts, rules=()):
        t0 = time.time()
        self.deadline = t0 + self.budget
        a, b = lift(a), lift(b)
        if a is b:
            return Ob(name, 'proved', 'syntactic', time.time() - t0)
        if a.sort == 'b' or b.sort == 'b':
            return self.holds(name, eq(a, b), facts)
        if a.sort == 's' or b.sort == 's':
            return self.holds(name, eq(a, b), facts)
        if tm.contains(a, lambda u: u is NAN) or tm.contains(b, lambda u: u is NAN) or 'isnan' in (a.op, b.op):
            return self.nan_eq(name, a, b, facts, rules)
        if a.op == b.op == 'sel' and a.args[0] == b.args[0] and len(a.args) == len(b.args) and all(
                x is y or 's' not in (x.sort, y.sort) and 'b' not in (x.sort, y.sort) and self.zero(sub(x, y), facts, rules)
                for x, y in zip(a.args[1:], b.args[1:])):
            return Ob(name, 'proved', 'congruence', time.time() - t0)
        d = canon(sub(a, b)) if self.quick else None
        if d is not None and d is not ZERO and self.opaque(d):
            env, why = self.refute_eq(a, b, facts, 3)
            if env is not None:
                return Ob(name, 'refuted', 'exact evaluation', time.time() - t0, why, env)
        how = self.zero(sub(a, b), facts, rules)
        if how:
            return Ob(name, 'proved', how, time.time() - t0)
        env, why = self.refute_eq(a, b, facts)
        st = 'refuted' if env is not None else 'unknown'
        return Ob(name, st, 'exact evaluation' if env is not None else '', time.time() - t0,
                  why or tm.show(canon(sub(a, b)))[:300], env)

    def nan_eq(self, name, a, b, facts, rules):
        """equality where NaN may occur: split on all conditions down to NaN-free leaves"""
        t0 = time.time()

        def go(a, b, facts, depth):
            a, b = canon(a), canon(b)
            if a is b:
                return True
            hasn = lambda t: tm.contains(t, lambda u: u is NAN)
            if a is NAN and not hasn(b) or b is NAN and not hasn(a):
                return self.I.solver.check(list(facts), 2000) == 'unsat'
            if not hasn(a) and not hasn(b):
                return self.zero(sub(a, b), list(facts), rules) is not None
            cs = conditions(a) + conditions(b)
            if not cs or depth > 12:
                return False
            x = cs[0]
            for v, y in ((TRUE, x), (FALSE, not_(x))):
                if self.I.solver.entails(facts, not_(y), 2000):
                    continue
                if not go(self.put(a, x, v), self.put(b, x, v), facts + [canonb(y)], depth + 1):
                    return False
            return True
        if go(a, b, list(facts), 0):
            return Ob(name, 'proved', 'case split', time.time() - t0)
        env, why = self.refute_eq(a, b, facts)
        return Ob(name, 'refuted' if env is not None else 'unknown', '', time.time() - t0, why, env)

    # --- truth --------------------------------------------------------------
    def holds(self, name, goal, facts, timeout=8000):
        t0 = time.time()
        self.deadline = t0 + self.budget
        goal = lift(goal)
        if goal is TRUE:
            return Ob(name, 'proved', 'syntactic')
        if self.I.solver.entails(list(facts), goal, timeout):
            return Ob(name, 'proved', 'z3', time.time() - t0)
        gs = goal.args if goal.op == 'and' else (goal,)
        if len(gs) > 1 and all(self.I.solver.entails(list(facts), g, timeout) for g in gs):
            return Ob(name, 'proved', 'z3', time.time() - t0)
        if goal.op == 'eq' and goal.args[0].sort not in 'bs' and self.zero(sub(*goal.args), list(facts)):
            return Ob(name, 'proved', 'normal form', time.time() - t0)
        env, why = self.refute(lambda e: not e.val(goal), [goal], facts)
        return Ob(name, 'refuted' if env is not None else 'unknown', '', time.time() - t0,
                  why or tm.show(goal)[:300], env)

    # --- sampling -----------------------------------------------------------
    def models(self, terms, facts):
        for t in list(terms) + list(facts):
            note_sorts(t)
        n = 0
        pool = constants(list(terms) + list(facts))
        for k in range(self.tries * 12):
            if n >= self.tries or time.time() > self.deadline + 20:
                return
            e = NumEnv(self.samplers, self.rng, size=1 + k % 4)
            if k % 2:
                e.pool, e.wild = pool, (.1, .3)[k % 4 == 1]
            if self.fit(e, facts):
                n += 1
                yield e

    def fit(self, e, facts):
        for rnd in range(3):
            bad = None
            for f in facts:
                try:
                    ok = e.val(f)
                except tm.EvalError:
                    return False
                if not ok:
                    bad = f
                    break
            if bad is None:
                return True
            # repair: an equality or ordering on a free scalar
            if not self.repair(e, bad):
                return False
        return False

    def repair(self, e, f):
        if f.op in ('eq', 'le', 'lt') and f.args[1] is ZERO:
            s = None
            for v in tm.freevars(f.args[0]):
                if v.args[0] in self.samplers and v.sort == 'r' and f.op != 'eq':
                    continue
                s = solved(f.args[0], v)
                if s:
                    break
            if s:
                try:
                    val = e.val(s[1])
                except tm.EvalError:
                    return False
                if f.op != 'eq':
                    lin = tm._linear_in(canon(f.args[0]), s[0])
                    sg = -1 if lin[0] > 0 else 1
                    if s[0].sort == 'i':
                        val = (math.floor(val) if sg < 0 else math.ceil(val)) + sg * self.rng.randint(0, 2)
                        if f.op == 'lt' and val == e.val(s[1]):
                            val += sg
                    else:
                        val = val + sg * abs(mpmath.mpf(self.rng.uniform(.01, 1)) * (1 + abs(val)))
                elif s[0].sort == 'i':
                    if val != int(val):
                        return False
                    val = int(val)
                e.cells = {k: v for k, v in e.cells.items()}
                e[s[0].args[0]] = val
                return True
        return False

    quick = True

    @staticmethod
    def opaque(d):
        """unknown functions of many arguments: tell differences by evaluation before any reasoning"""
        return tm.contains(d, lambda u: u.op == 'sel' and len(u.args) > 12)

    def refute(self, test, terms, facts, tries=None):
        n, err = 0, ''
        for e in self.models(terms, facts):
            if tries is not None and n >= tries:
                break
            try:
                if test(e):
                    return e, 'false in a sampled model'
                n += 1
            except (tm.EvalError, ZeroDivisionError, OverflowError, ValueError, TypeError) as x:
                err = f'{type(x).__name__}: {x}'
        return None, f'true in {n} sampled models' + (f' ({err})' if err else '')

    def refute_eq(self, a, b, facts, tries=None):
        loose = any(tm.contains(t, lambda u: u.op in ('integral', 'integ')) for t in (a, b))

        def test(e):
            x, y = e.val(a), e.val(b)
            xn, yn = isinstance(x, float) and x != x or _isnan(x), _isnan(y)
            if xn or yn:
                return xn != yn
            s = abs(x) + abs(y)
            return abs(x - y) > (mpmath.mpf('1e-6') if loose else mpmath.mpf('1e-15')) * s + (
                mpmath.mpf('1e-12') if loose else mpmath.mpf('1e-28'))
        return self.refute(test, [a, b], facts, tries)


def _isnan(x):
    try:
        return x != x
    except Exception:
        return False


def constants(terms):
    """numbers that occur in comparisons: values around them decide branches"""
    out, seen, st = set(), set(), list(terms)
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op in ('eq', 'le', 'lt') and u.args[0].sort not in 'bs':
            cs = [v.args[0] for a in u.args for v in tm.subterms(a) if v.op == 'num']
            big = [abs(Fraction(c)) for c in cs if c not in (0, 1, -1)] + [Fraction(1)]*(1 in map(abs, cs))
            try:
                d = canon(sub(*u.args))
                big += [abs(Fraction(v.args[0])) for v in tm.subterms(d) if v.op == 'num' and v.args[0] != 0]
            except Exception:
                pass
            out.update(big[:12])
        st.extend(tm.children(u))
    return sorted(out)[:40]


def solved(p, v=None):
    """p == c*v + rest with constant c and v a variable not in rest -> (v, -rest/c)"""
    p = canon(p)
    for x in ([v] if v is not None else sorted(tm.freevars(p), key=lambda u: u.id)):
        n, d = tm.nf(p)
        if d:
            return None
        lin = tm._linear_in(p, x)
        if lin and lin[0] != 0:
            return x, canon(mul(num(Fraction(-1) / lin[0]), lin[1]))
    return None


# --- structured comparison ---------------------------------------------------
class Cmp:
    """compares an actual value with a specified one and collects obligations"""
    def __init__(self, I, prover, facts, rules=()):
        self.I, self.P, self.facts, self.rules = I, prover, facts, rules
        self.obs = []

    def add(self, ob):
        self.obs.append(ob)

    def bad(self, name, why, definite=True):
        # a structural mismatch on a feasible path
        t0 = time.time()
        if self.I.solver.check(list(self.facts), 2000) == 'unsat':
            self.obs.append(Ob(name, 'proved', 'z3 (unreachable)', time.time() - t0))
            return
        self.P.deadline = time.time() + 10
        env = None
        for e in self.P.models([], self.facts):
            env = e
            break
        self.obs.append(Ob(name, 'refuted' if env is not None else 'unknown', 'structure', time.time() - t0, why, env))

    def value(self, name, a, b, kinds=False):
        from .interp import _unwrap
        if isinstance(a, Poison):
            self.obs.append(Ob(name, 'unknown', '', 0, a.why))
            return
        a, b = conc(_unwrap(a)), conc(_unwrap(b))
        num_ = (T, int, Fraction, bool)
        if isinstance(b, AnyValue):
            return
        if isinstance(a, str):
            a = a if isinstance(b, str) else V.strT(a)
        if isinstance(a, str) and isinstance(b, str):
            if a != b:
                self.bad(name, f'{a!r} instead of {b!r}')
            else:
                self.add(Ob(name, 'proved', 'syntactic'))
            return
        if isinstance(b, str):
            b = V.strT(b)
        # 0-d arrays count as scalars
        if isinstance(a, Arr) and a.ndim == 0:
            a = conc(a.at())
        if isinstance(b, Arr) and b.ndim == 0:
            b = conc(b.at())
        if isinstance(a, Arr) and not isinstance(b, Arr) and isinstance(b, num_):
            # array of one element where a scalar is specified (numpy mixes both)
            if all(isinstance(d, int) and d == 1 for d in a.shape):
                a = conc(a.at(*[ZERO] * a.ndim))
        if isinstance(a, num_) and isinstance(b, num_):
            self.add(self.P.eq(name, a, b, list(self.facts), self.rules))
        elif isinstance(a, Cx) or isinstance(b, Cx):
            a = a if isinstance(a, Cx) else Cx(a)
            b = b if isinstance(b, Cx) else Cx(b)
            self.add(self.P.eq(name + '.re', a.re, b.re, list(self.facts), self.rules))
            self.add(self.P.eq(name + '.im', a.im, b.im, list(self.facts), self.rules))
        elif isinstance(a, Arr) and isinstance(b, Arr):
            self.arr(name, a, b)
        elif isinstance(a, SList) or isinstance(b, SList) or isinstance(a, Seq):
            sa, sb = self.I.seq(a), self.I.seq(b)
            self.add(self.P.eq(name + '.len', lift(sa.n), lift(sb.n), list(self.facts)))
            i = self.I.fresh('e')
            facts = list(self.facts) + [canonb(le(ZERO, i)), canonb(lt(i, lift(sb.n)))]
            c = Cmp(self.I, self.P, facts, self.rules)
            c.value(name + '[i]', sa.get(i), sb.get(i))
            self.obs += c.obs
        elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and isinstance(a, tuple) == isinstance(b, tuple):
            if len(a) != len(b):
                self.bad(name + '.len', f'{len(a)} items instead of {len(b)}')
                return
            for k, (x, y) in enumerate(zip(a, b)):
                self.value(f'{name}[{k}]', x, y)
        elif isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                self.bad(name + '.keys', f'keys {sorted(map(str, a))} instead of {sorted(map(str, b))}')
                return
            for k in b:
                self.value(f'{name}[{k!r}]', a[k], b[k])
        elif isinstance(a, (list, tuple)) and isinstance(b, Arr) or isinstance(b, (list, tuple)) and isinstance(a, Arr):
            from .npmod import asarr
            self.value(name, asarr(self.I, a) if not isinstance(a, Arr) else a,
                       asarr(self.I, b) if not isinstance(b, Arr) else b)
        elif a is None and b is None or a is b:
            self.add(Ob(name, 'proved', 'syntactic'))
        elif isinstance(a, Obj) and isinstance(b, Obj):
            if a.cls is not b.cls:
                self.bad(name, 'class')
                return
            self.attrs(name, a.attrs, b.attrs)
        elif type(a) is type(b) and not isinstance(a, num_):
            self.obs.append(Ob(name, 'unknown', '', 0, f'cannot compare {type(a).__name__}'))
        else:
            self.bad(name, f'{type(a).__name__} instead of {type(b).__name__}')

    def attrs(self, name, a, b):
        same = []
        for k in sorted(set(a) | set(b)):
            if k in a and k not in b:
                self.obs.append(Ob(f'{name}.{k}', 'unknown', '', 0, 'attribute not in the contract'))
            elif k in b and k not in a:
                self.bad(f'{name}.{k}', 'attribute missing')
            elif a[k] is b[k]:
                same.append(k)
            else:
                n = len(self.obs)
                self.value(f'{name}.{k}', a[k], b[k])
                if all(o.how == 'unchanged' for o in self.obs[n:]):
                    del self.obs[n:]
                    same.append(k)
        if same:
            self.add(Ob(f'{name}.others', 'proved', 'unchanged', 0, f'{len(same)} attributes unchanged'))

    def arr(self, name, a, b):
        if (a.buf is b.buf or a.buf.fn is b.buf.fn) and a.imap is b.imap and a.shape == b.shape and a.buf.kind == b.buf.kind:
            self.add(Ob(name, 'proved', 'unchanged'))
            return
        if a.ndim != b.ndim:
            self.bad(name + '.ndim', f'{a.ndim}-d {a.shape} instead of {b.ndim}-d {b.shape}')
            return
        for k, (x, y) in enumerate(zip(a.shape, b.shape)):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    self.bad(f'{name}.shape[{k}]', f'{x} instead of {y}')
                    return
            else:
                ob = self.P.eq(f'{name}.shape[{k}]', lift(x), lift(y), list(self.facts))
                self.add(ob)
                if ob.status != 'proved':
                    return
        import itertools
        size = 1
        for d in b.shape:
            size = size * d if isinstance(d, int) and isinstance(size, int) else None
        rng = []
        facts = list(self.facts)
        for k, d in enumerate(b.shape):
            if isinstance(d, int) and d <= 40:
                rng.append([num(q) for q in range(d)])
            elif k in getattr(b, 'pieces', ()):
                o = b.pieces[k]         # position in a piece of the specified layout
                s, q = self.I.fresh('S'), self.I.fresh('K')
                facts += [canonb(f) for f in (le(ZERO, s), lt(s, o.n), le(ZERO, q), lt(q, o.length(s)))]
                rng.append([canon(add(o.start(s), q))])
            else:
                i = self.I.fresh('e')
                facts += [canonb(le(ZERO, i)), canonb(lt(i, lift(d)))]
                rng.append([i])
        c = Cmp(self.I, self.P, facts, self.rules)
        was = self.I.facts
        self.I.facts = list(facts)
        try:
            for idx in itertools.product(*rng):
                nm = name + '[' + ','.join('*' if i.op != 'num' else str(i) for i in idx) + ']'
                c.value(nm, a.at(*idx), b.at(*idx))
        finally:
            self.I.facts = was
        self.obs += c.obs


class AnyValue:
    """specified as unconstrained"""
