"""Contracts of the touchdown machinery (C16, C17)."""
from .contracts_system import *

SPR = ('supported.rot', 'supported.trans', 'rested.rot', 'rested.trans')


def positive_springs(I):
    for n in SPR:
        I.factgens['spring.' + n] = lambda *i, n=n: [lt(ZERO, sel('spring.' + n, *i))]


def column(o, *names):
    """what a transition length depends on: column, collapse height, inclination, slab and weak layer"""
    return [L_(at(o, n)) for n in names] + opaque_state(o)


def height(o, cf):
    qn, qt, pn, pt = loads(o, at(o, 'phi'))
    return sub(mul(cf, L_(at(o, 't'))), div(add(qn, pn), L_(at(o, 'kn'))))


class _Set(Contract):
    props = ('C16',)
    effects = True
    attr = None

    def setup(self, W):
        return [W.model(), W.real('value', 0, 900)], {}

    def spec(self, I, a):
        v = [v for k, v in a.items() if k != 'self'][0]
        a['self'].attrs[self.attr] = v


@contract
class SetL(_Set):
    fn, attr = 'SlabContactMixin.set_columnlength', 'L'


@contract
class SetA(_Set):
    fn, attr = 'SlabContactMixin.set_cracklength', 'a'


@contract
class SetPhi(_Set):
    fn, attr = 'SlabContactMixin.set_phi', 'phi'


@contract
class SetRatio(_Set):
    fn, attr = 'SlabContactMixin.set_stiffness_ratio', 'ratio'
    cases = ({'given': True}, {'given': False})

    def setup(self, W, given):
        return [W.model()] + ([W.real('value', 1, 2000)] if given else []), {}


@contract
class SetTc(Contract):
    fn = 'SlabContactMixin.set_tc'
    props = ('C16',)
    effects = True

    def setup(self, W):
        return [W.model(), W.real('cf', 0, 1)], {}

    def spec(self, I, a):
        a['self'].attrs['tc'] = conc(height(a['self'], L_(a['cf'])))


def set_column(o, a):
    for k in ('L', 'a', 'phi'):
        o.attrs[k] = a[k]
    o.attrs['tc'] = conc(height(o, L_(a['cf'])))
    o.attrs['ratio'] = a['ratio']


@contract
class TouchdownAttributes(Contract):
    fn = 'SlabContactMixin.set_touchdown_attributes'
    props = ('C16',)
    effects = True

    def setup(self, W):
        return [W.model()] + [W.real(n, 0, 900) for n in ('L1', 'a1', 'cf', 'phi1', 'ratio1')], {}

    def spec(self, I, a):
        set_column(a['self'], a)


class _Length(Contract):
    """transition length as an unknown function of everything it may depend on"""
    props = ()
    frames = False
    on = ('L', 'tc', 'phi')
    key = None

    def summary(self, I, a):
        return conc(self.value(a['self']))

    @classmethod
    def value(cls, o):
        return sel(cls.key, *column(o, *cls.on))

    def check(self, I, W, P, run, case):
        return []


@contract
class UseA1(_Length):
    name, fn, key = 'use of calc_a1', 'SlabContactMixin.calc_a1', 'aAB'


@contract
class UseA2(_Length):
    name, fn, key = 'use of calc_a2', 'SlabContactMixin.calc_a2', 'aBC'


@contract
class UseLC(_Length):
    name, fn, key = 'use of calc_lC', 'SlabContactMixin.calc_lC', 'lenC'
    on = ('L', 'a', 'tc', 'phi')


class _LenAB(Contract):
    props = ('C16',)

    def setup(self, W):
        return [W.model(touchdown=True)], {}

    def spec(self, I, a):
        return at(a['self'], 'a')


@contract
class LA(_LenAB):
    fn = 'SlabContactMixin.calc_lA'


@contract
class LB(_LenAB):
    fn = 'SlabContactMixin.calc_lB'


def stage(I, o):
    a = L_(at(o, 'a'))
    if not I.truth(at(o, 'touchdown')) or I.decide(le(a, UseA1.value(o))):
        return 'A'
    return 'B' if I.decide(le(a, UseA2.value(o))) else 'C'


def tdlength(o):
    return conc(UseLC.value(o)) if strof(at(o, 'mode')) == 'C' else at(o, 'a')


@contract
class TouchdownMode(Contract):
    fn = 'SlabContactMixin.calc_touchdown_mode'
    props = ('C16',)
    effects = True
    cases = ({'touchdown': True}, {'touchdown': False})

    def setup(self, W, touchdown):
        return [W.model(touchdown=touchdown, mode='C')], {}

    def spec(self, I, a):
        a['self'].attrs['mode'] = stage(I, a['self'])


@contract
class TouchdownLength(Contract):
    fn = 'SlabContactMixin.calc_touchdown_length'
    props = ('C16',)
    effects = True
    cases = tuple({'mode': m} for m in 'ABC')

    def setup(self, W, mode):
        return [W.model(touchdown=True, mode=mode)], {}

    def spec(self, I, a):
        a['self'].attrs['td'] = tdlength(a['self'])


@contract
class TouchdownSystem(Contract):
    fn = 'SlabContactMixin.calc_touchdown_system'
    props = ('C16', 'C13')
    effects = True
    cases = tuple({'touchdown': t, 'given': g} for t in (True, False) for g in (True, False))

    def setup(self, W, touchdown, given):
        return [W.model(touchdown=touchdown, mode='B')] + [W.real(n, 0, 900) for n in ('L1', 'a1', 'cf', 'phi1', 'ratio1')[:5 if given else 4]], {}

    def spec(self, I, a):
        o = a['self']
        set_column(o, a)
        o.attrs['mode'] = stage(I, o)
        o.attrs['td'] = tdlength(o)


# ------------------------------------------------------- transition lengths (C17)
def overhang(o, l, kR, kN, kr, full):
    """settlement under which the contact condition of an overhang of length l holds: beam
         psi = c1 + c2 x + c3 x^2/2 - q x^3/(6 b), V = b psi'', w' = V/s - psi, w(0) = c0
    on springs kR, kN at its left end; returns (numerator, denominator)"""
    A, B, D, s, K0 = stiff(o)
    b = sub(D, div(mul(B, B), A))
    qn, qt, pn, pt = loads(o, at(o, 'phi'))
    q = add(qn, pn)
    f = lambda p, r: num(Fraction(p, r))
    x2, x3, x4 = (tm.ipow(l, k) for k in (2, 3, 4))

    def row(k, x):
        z = x is ZERO
        p = lambda c, y: ZERO if z else mul(c, y)
        return {'psi': [ZERO, ONE, p(ONE, l), p(H2, x2), p(neg(div(q, mul(num(6), b))), x3)],
                'M': [ZERO, ZERO, b, p(b, l), p(neg(mul(H2, q)), x2)],
                'V': [ZERO, ZERO, ZERO, b, p(neg(q), l)],
                'w': [ONE, p(num(-1), l), p(f(-1, 2), x2), ZERO if z else add(mul(f(-1, 6), x3), mul(div(b, s), l)),
                      ZERO if z else sub(mul(div(q, mul(num(24), b)), x4), mul(div(q, mul(num(2), s)), x2))],
                'dw': [ZERO, num(-1), p(num(-1), l), ZERO if z else sub(div(b, s), mul(H2, x2)),
                       ZERO if z else sub(mul(div(q, mul(num(6), b)), x3), mul(div(q, s), l))]}[k]
    lin = lambda *ts: [add(*[mul(c, r[k]) for c, r in ts]) for k in range(5)]
    E = [lin((ONE, row('M', ZERO)), (neg(kR), row('psi', ZERO))), lin((ONE, row('V', ZERO)), (neg(kN), row('w', ZERO)))]
    if full:
        E += [row('dw', l), lin((ONE, row('M', l)), (kr, row('psi', l)))]
    else:
        E += [row('V', l), row('M', l)]
    # Cramer: w(l) = w0 + W . c
    M = [r[:4] for r in E]
    R = [neg(r[4]) for r in E]
    den = det(M)
    W = row('w', l)
    n = mul(W[4], den)
    for c in range(4):
        n = add(n, mul(W[c], det([[R[i] if j == c else M[i][j] for j in range(4)] for i in range(4)])))
    return canon(n), canon(den)


class _Root(Contract):
    """the result is the root of a function that is a positive multiple of (settlement for contact - tc)"""
    props = ('C17', 'C26')
    inline, full = True, False
    assumes = ('scipy.optimize.brentq returns a root of a continuous function whose values at the bracket ends have opposite signs',
               'substitute springs are positive (absolute value of a finite reciprocal)',
               'touchdown contracts assume a positive total load qn, a positive collapse height and a crack shorter than the column',
               'loops with a symbolic test: partial correctness (termination is not proved)')

    def settlement(self, o, x, case):
        L = L_(at(o, 'L'))
        kR, kN = (subst_spring(o, sub(L, x), 'supported', d) for d in ('rot', 'trans'))
        return overhang(o, x, kR, kN, ZERO, self.full)

    def cases_of(self, o, x):
        return [('', [])]

    def pre(self, I, o):
        return []

    def check(self, I, W, P, run, case):
        o = W.model(touchdown=True)
        positive_springs(I)
        tc, L, a = at(o, 'tc'), at(o, 'L'), at(o, 'a')
        qn, qt, pn, pt = loads(o, at(o, 'phi'))
        I.assume(lt(ZERO, add(qn, pn)), lt(a, L), lt(ZERO, a))
        obs = []

        def finish(out, pc, facts):
            if out[0] == 'raise':
                raise out[1]
            f0 = list(I.facts) + [canonb(c) for c in self.pre(I, o)]
            evs = [e[1] for e in I.events if e[0] == 'brentq']
            if len(evs) != 1:
                raise Unsupported('not one root search')
            e = evs[0]
            x, f = e['x'], e['f']
            t0 = f'{self.name}/path{len(obs)}'
            obs.append(P.eq(t0 + '.result', lift(conc(out[1])), e['root'], f0))
            for t, cond in self.cases_of(o, x):
                cs = list(I.facts) + [canonb(c) for c in cond]
                g = canon(subst(f, {c: TRUE for c in cond} | {not_(c): FALSE for c in cond}))
                n, d = self.settlement(o, x, t)
                kap = canon(sub(subst(g, {tc: ZERO}), subst(g, {tc: ONE})))
                obs.append(P.eq(f'{t0}.contact condition{t}', mul(g, d), mul(kap, sub(n, mul(tc, d))), cs))
                obs.append(P.holds(f'{t0}.orientation{t}', lt(ZERO, kap), cs + [canonb(le(ZERO, x))]))
            at_ = lambda y: canon(subst(f, {x: lift(conc(y))}))
            obs.append(P.holds(t0 + '.negative at the lower end', lt(at_(e['a']), ZERO), f0))
            obs.append(P.holds(t0 + '.not negative at the upper end', le(ZERO, at_(e['b'])), f0))
            obs.append(P.holds(t0 + '.bracket inside the column', and_(le(ZERO, lift(conc(e['a']))), le(lift(conc(e['b'])), L_(at(o, self.upto)))), f0))
        I.explore(lambda: I.callfunc(lookup(I, self.fn), [o], {}, top=True), finish)
        return obs
    upto = 'L'


@contract
class CalcA1(_Root):
    name, fn = 'SlabContactMixin.calc_a1 (first contact)', 'SlabContactMixin.calc_a1'


@contract
class CalcA2(_Root):
    name, fn, full = 'SlabContactMixin.calc_a2 (full contact)', 'SlabContactMixin.calc_a2', True


@contract
class CalcLC(_Root):
    """the crack is longer than full contact: at x = a the overhang needs more settlement than there is"""
    name, fn, full, upto = 'SlabContactMixin.calc_lC (stage C)', 'SlabContactMixin.calc_lC', True, 'a'
    props = ('C16', 'C17')

    def cases_of(self, o, x):
        a = L_(at(o, 'a'))
        return [(' rested', [lt(x, a)]), (' free', [le(a, x)])]

    def settlement(self, o, x, case):
        L, a = L_(at(o, 'L')), L_(at(o, 'a'))
        kR, kN = (subst_spring(o, sub(L, a), 'supported', d) for d in ('rot', 'trans'))
        return overhang(o, x, kR, kN, subst_spring(o, sub(a, x), 'rested', 'rot') if 'rested' in case else ZERO, True)

    def pre(self, I, o):
        a = L_(at(o, 'a'))
        n, d = self.settlement(o, a, ' free')
        return [lt(ZERO, sub(n, mul(L_(at(o, 'tc')), d))), lt(ZERO, d)]


# ------------------------------------------------------------ substitute springs
def called(o, *extra):
    """everything a nested call can depend on: state of the model and arguments, as index terms"""
    return opaque_state(o) + [L_(x) if not isinstance(x, bool) else num(int(x)) for x in extra]


def seqterms(I, x):
    from .npmod import asarr
    a = asarr(I, x)
    if not all(isinstance(d, int) for d in a.shape):
        raise Unsupported('symbolic list')
    return [b2i(lift(conc(a.at(num(k))))) for k in range(a.shape[0])]


def b2i(t):
    return ite(t, ONE, ZERO) if isinstance(t, T) and t.sort == 'b' else t


def solvename(o):
    return f"C.{strof(at(o, 'system'))}"


def solution_of(I, o, phi, li, mi, ki):
    """constants of a system as an unknown function of the model's state and the arguments"""
    ts = called(o, phi) + [t for s in (li, mi, ki) for t in seqterms(I, s)]
    return mkarr((6, len(seqterms(I, li))), lambda idx: sel(solvename(o), *idx, *ts))


def raster_of(I, o, C, phi, li, ki, n):
    ts = called(o, phi, n) + [t for s in (li, ki) for t in seqterms(I, s)] + [
        lift(conc(C.at(num(i), num(j)))) for i in range(6) for j in range(C.shape[1])]
    m = var('mras', 'i')
    NumEnv.sorts['mras'] = 'i'
    return mkarr((6, m), lambda idx: sel('zras', *idx, *ts)), m


@contract
class Substitute(Contract):
    """stiffness: reciprocal of the end rotation (deflection relative to the undisturbed settlement) of the nested system, on
    the stiffened weak layer for a resting slab; the model's own state comes back"""
    name = 'SlabContactMixin.substitute_stiffness (springs)'
    fn = 'SlabContactMixin.substitute_stiffness'
    props = ('C17', 'C16')
    inline = True
    effects = True
    cases = tuple({'support': s, 'dof': d} for s in ('supported', 'rested') for d in ('rot', 'trans')) + ({'support': None, 'dof': None},)
    assumes = ('substitute_stiffness is called in a state whose eigensystem belongs to its own system matrix (C19)',)

    def setup(self, W, support, dof):
        o = W.model(system='pst-', touchdown=True)
        o.attrs.update(eigattrs(W.I, mat(sysmat(o))))
        W.models.clear()
        return [o, W.pos('Lb', 100, 5000)] + ([support, dof] if support else []), {}

    def spec(self, I, a):
        o = Obj(a['self'].cls)
        o.attrs = dict(a['self'].attrs)
        support, dof, L = strof(a['support']), strof(a['dof']), L_(a['L'])
        o.attrs['system'] = dof
        if support == 'rested':
            for k in ('kn', 'kt'):
                o.attrs[k] = conc(mul(L_(at(o, 'ratio')), L_(at(o, k))))
            o.attrs.update(eigattrs(I, mat(sysmat(o))))
        li, ki = [L, ZERO], [True, True]
        C = solution_of(I, o, ZERO, li, [ZERO], ki)
        z, m = raster_of(I, o, C, ZERO, li, ki, ONE)
        v = lambda i: lift(conc(z.at(num(i), ZERO)))
        if dof == 'rot':
            return fn('abs', div(ONE, v(4)))
        p = particular(o, ZERO, ZERO, True)
        return fn('abs', div(ONE, sub(v(2), p[2])))

    def check(self, I, W, P, run, case):
        I.assume(le(ONE, var('mras', 'i')))
        I.summaries['SolutionMixin.assemble_and_solve'] = lambda I, a: solution_of(I, a['self'], a['phi'], a['li'], a['mi'], a['ki'])

        def raster(I, a):
            z, m = raster_of(I, a['self'], a['C'], a['phi'], a['li'], a['ki'], a['num'])
            return (mkarr((m,), lambda idx: sel('xras', *idx)), z, mkarr((m,), lambda idx: sel('xbras', *idx)))
        I.summaries['AnalysisMixin.rasterize_solution'] = raster
        return functional(self, I, W, P, case)


@contract
class SpringLemma(Contract):
    """lemma: on level ground the particular solution of a supported segment carries no section forces and does not
    rotate, so the end rotation (relative deflection) is that of the unit end load alone"""
    name = 'lemma: substitute springs do not depend on the load'
    fn = 'SlabContactMixin.substitute_stiffness'
    props = ('C17',)
    inline, frames = True, False

    def check(self, I, W, P, run, case):
        o = W.model(system='rot')
        p = particular(o, ZERO, ZERO, True)
        Z = mat([[v] for v in p])
        obs = []
        for q in 'NMV':
            obs.append(P.eq(f'particular.{q}', F(o, Z, q)(ZERO), ZERO, list(I.facts)))
        obs.append(P.eq('particular.psi', p[4], ZERO, list(I.facts)))
        qn, qt, pn, pt = loads(o, ZERO)
        obs.append(P.eq('particular.w', p[2], div(add(qn, pn), L_(at(o, 'kn'))), list(I.facts)))
        return obs


# ------------------------------------------------------------------ segment lists
def flat(*xs):
    xs = [lift(conc(x)) for x in xs]
    k = 'b' if xs[0].sort == 'b' else 'f' if any(x.sort == 'r' for x in xs) else 'i'

    def f(idx):
        i = conc(idx[0])
        if isinstance(i, int):
            return xs[i]
        r = xs[-1]
        for j in range(len(xs) - 2, -1, -1):
            r = ite(eq(idx[0], num(j)), xs[j], r)
        return r
    return mkarr((len(xs),), f, k)


@contract
class Segments(Contract):
    fn = 'SolutionMixin.calc_segments'
    props = ('C13', 'C16')
    effects = True
    cases = tuple({'system': s, 'touchdown': t, 'how': h} for s in PST + VPST + SKI + ('nosuch',)
                  for t in ((True, False) if s in PST else (False,)) for h in ('all', 'defaults'))

    def setup(self, W, system, touchdown, how):
        kw = {n: W.real(n + '1', 10, 900) for n in ('L', 'a', 'm', 'phi', 'cf', 'ratio')} if how == 'all' else {'L': W.real('L1', 10, 900)}
        if system == 'skiers':
            n, m, p, q = (W.int(x, 1, 4) for x in ('nl', 'nm', 'nk', 'n0'))
            kw |= {'li': W.arr('li', (n,), lo=0, hi=900), 'mi': W.arr('mi', (m,), lo=0, hi=90),
                   'ki': W.arr('ki', (p,), 'b'), 'k0': W.arr('k0', (q,), 'b')}
        return [W.model(system=system, touchdown=touchdown)], kw

    def spec(self, I, a):
        o, s = a['self'], strof(at(a['self'], 'system'))
        set_column(o, a)
        o.attrs['mode'] = stage(I, o)
        o.attrs['td'] = tdlength(o)
        L, c, m = L_(a['L']), L_(a['a']), L_(a['m'])
        T_, F_ = TRUE, FALSE
        td = L_(at(o, 'td'))
        if s == 'skiers':
            li, mi, ki, k0 = (a[k] for k in ('li', 'mi', 'ki', 'k0'))
        elif s in PST + VPST:
            lf = td if s in PST else c
            li, ki = (flat(sub(L, c), lf), flat(T_, F_)) if s.endswith('-') else (flat(lf, sub(L, c)), flat(F_, T_))
            mi, k0 = flat(ZERO), flat(T_, T_)
        elif s == 'skier':
            b, f = mul(H2, sub(L, c)), mul(H2, c)
            li, mi = flat(b, f, f, b), flat(ZERO, m, ZERO)
            ki, k0 = flat(T_, F_, F_, T_), flat(T_, T_, T_, T_)
        else:
            raise PyRaise(ValueError, ())
        return {'nocrack': {'li': li, 'mi': mi, 'ki': k0}, 'crack': {'li': li, 'mi': mi, 'ki': ki},
                'both': {'li': li, 'mi': mi, 'ki': ki, 'k0': k0}}


@contract
class SegmentSum(Contract):
    """lemma: without touchdown the specified lengths add up to the column length"""
    name = 'lemma: segment lengths add up to the column length'
    fn = 'SolutionMixin.calc_segments'
    props = ('C13',)
    inline, frames = True, False

    def check(self, I, W, P, run, case):
        obs = []
        for s in PST + VPST + ('skier',):
            o = W.model(system=s, touchdown=False)
            a = {'self': o, **{n: W.real(n + '1', 10, 900) for n in ('L', 'a', 'm', 'phi', 'cf', 'ratio')}}
            r = REG['SolutionMixin.calc_segments'].spec(I, a)['crack']['li']
            obs.append(P.eq(f'sum.{s}', add(*[lift(conc(r.at(num(k)))) for k in range(r.shape[0])]), a['L'], list(I.facts)))
        return obs
