"""Contracts of field quantities, energy release rates at a tip, principal stresses and exports
(C04, C09, C10, C11, C15, C23)."""
from .contracts_solution import *

LEN = {'m': Fraction(1, 1000), 'cm': Fraction(1, 10), 'mm': 1, 'um': 1000}
STR = {'kPa': 1000, 'MPa': 1}
ERR = {'J/m^2': 1000, 'kJ/m^2': 1, 'N/mm': 1}
DEG = ('deg', 'degree', 'degrees')
RADS = ('rad', 'radian', 'radians')


def row(Z, r):
    g = Z.snap()
    return lambda j: lift(conc(g((num(r), j))))


def vec(Z, f):
    """array over the columns of Z"""
    return mkarr((Z.shape[1],), lambda idx: f(idx[0]))


def unit(u, table):
    if u not in table:
        raise PyRaise(KeyError, ())
    return num(table[u])


def F(o, Z, q, z0=ZERO):
    """column -> field quantity, from the constitutive laws"""
    r = [row(Z, k) for k in range(6)]
    g = lambda n: L_(at(o, n))
    A, B, D, kA, _ = stiff(o) if q in 'NMV' else (None,)*5
    if q == 'w':
        return r[2]
    if q == 'u':
        return lambda j: add(r[0](j), mul(z0, r[4](j)))
    if q == 'du':
        return lambda j: add(r[1](j), mul(z0, r[5](j)))
    if q == 'psi':
        return r[4]
    if q == 'N':
        return lambda j: add(mul(A, r[1](j)), mul(B, r[5](j)))
    if q == 'M':
        return lambda j: add(mul(B, r[1](j)), mul(D, r[5](j)))
    if q == 'V':
        return lambda j: mul(kA, add(r[3](j), r[4](j)))
    if q == 'sig':
        return lambda j: neg(mul(g('kn'), r[2](j)))
    if q == 'eps':
        return lambda j: neg(div(r[2](j), g('t')))
    shear = lambda j: sub(add(r[0](j), mul(H2, g('h'), r[4](j))), mul(H2, g('t'), r[3](j)))
    if q == 'tau':
        return lambda j: mul(g('kt'), shear(j))
    if q == 'gamma':
        return lambda j: div(shear(j), g('t'))
    raise KeyError(q)


def scaled(c, f):
    return lambda j: mul(c, f(j))


class _Field(Contract):
    props = ('C09', 'C23')
    q = None
    table = None

    def setup(self, W, unit=None):
        return [W.model(), W.Z()], ({} if unit is None else {'unit': unit})

    def spec(self, I, a):
        c = unit(a['unit'], self.table) if self.table else ONE
        return vec(a['Z'], scaled(c, F(a['self'], a['Z'], self.q)))


def units(t):
    return tuple({'unit': u} for u in (None, *t))


@contract
class FieldW(_Field):
    fn, q, table, cases = 'FieldQuantitiesMixin.w', 'w', LEN, units(LEN)


@contract
class FieldDw(_Field):
    fn = 'FieldQuantitiesMixin.dw_dx'

    def spec(self, I, a):
        return vec(a['Z'], row(a['Z'], 3))


@contract
class FieldPsi(_Field):
    fn, cases = 'FieldQuantitiesMixin.psi', units(DEG + RADS)

    def spec(self, I, a):
        if a['unit'] not in DEG + RADS:
            raise Unsupported('rotation unit')
        c = div(num(180), tm.PI) if a['unit'] in DEG else ONE
        return vec(a['Z'], scaled(c, row(a['Z'], 4)))


@contract
class FieldDpsi(_Field):
    fn = 'FieldQuantitiesMixin.dpsi_dx'

    def spec(self, I, a):
        return vec(a['Z'], row(a['Z'], 5))


@contract
class FieldU(_Field):
    fn, table, cases = 'FieldQuantitiesMixin.u', LEN, units(LEN)

    def setup(self, W, unit):
        return [W.model(), W.Z()], {'z0': W.real('z0', -300, 300), **({} if unit is None else {'unit': unit})}

    def spec(self, I, a):
        return vec(a['Z'], scaled(unit(a['unit'], LEN), F(a['self'], a['Z'], 'u', L_(a['z0']))))


@contract
class FieldDu(_Field):
    fn = 'FieldQuantitiesMixin.du_dx'
    props = ('C09', 'C14')

    def setup(self, W):
        return [W.model(), W.Z(), W.real('z0', -300, 300)], {}

    def spec(self, I, a):
        return vec(a['Z'], F(a['self'], a['Z'], 'du', L_(a['z0'])))


@contract
class FieldN(_Field):
    fn, q = 'FieldQuantitiesMixin.N', 'N'


@contract
class FieldM(_Field):
    fn, q = 'FieldQuantitiesMixin.M', 'M'


@contract
class FieldV(_Field):
    fn, q = 'FieldQuantitiesMixin.V', 'V'


@contract
class FieldSig(_Field):
    fn, q, table, cases = 'FieldQuantitiesMixin.sig', 'sig', STR, units(STR)


@contract
class FieldTau(_Field):
    fn, q, table, cases = 'FieldQuantitiesMixin.tau', 'tau', STR, units(STR)


@contract
class FieldEps(_Field):
    fn, q = 'FieldQuantitiesMixin.eps', 'eps'


@contract
class FieldGamma(_Field):
    fn, q = 'FieldQuantitiesMixin.gamma', 'gamma'


@contract
class Springs(Contract):
    """lemma: each weak-layer stress is stiffness times thickness times its strain (sigma < 0 in compression)"""
    name = 'lemma: stress is stiffness times thickness times strain'
    fn = 'FieldQuantitiesMixin.sig'
    props = ('C09', 'C11')
    inline, frames = True, False

    def check(self, I, W, P, run, case):
        o, Z = W.model(), W.Z()
        j = I.fresh('e')
        f = lambda q: F(o, Z, q)(j)
        t, kn, kt = (L_(at(o, k)) for k in ('t', 'kn', 'kt'))
        obs = [P.eq('spring.normal', f('sig'), mul(kn, t, f('eps')), list(I.facts)),
               P.eq('spring.shear', f('tau'), mul(kt, t, f('gamma')), list(I.facts))]
        # crack-opening integrands: spring stiffness times both deformations
        Z2 = W.Z('Z2')
        i = I.fresh('e')
        g = lambda q: F(o, Z2, q)(i)
        obs.append(P.eq('opening.normal', mul(f('sig'), g('eps'), t), mul(kn, mul(t, f('eps')), mul(t, g('eps'))), list(I.facts)))
        obs.append(P.eq('opening.shear', mul(f('tau'), g('gamma'), t), mul(kt, mul(t, f('gamma')), mul(t, g('gamma'))), list(I.facts)))
        return obs


class _Tip(Contract):
    props = ('C10',)
    cases = units(ERR)
    q, k = None, None

    def setup(self, W, unit):
        return [W.model(), W.Z('Ztip', 1)], ({} if unit is None else {'unit': unit})

    def spec(self, I, a):
        o = a['self']
        c = div(unit(a['unit'], ERR), mul(num(2), L_(at(o, self.k))))
        f = F(o, a['Ztip'], self.q)
        return vec(a['Ztip'], lambda j: mul(c, f(j), f(j)))


@contract
class GiC(_Tip):
    fn, q, k = 'FieldQuantitiesMixin.Gi', 'sig', 'kn'


@contract
class GiiC(_Tip):
    fn, q, k = 'FieldQuantitiesMixin.Gii', 'tau', 'kt'


class _Integrand(Contract):
    """crack-opening integrand for arbitrary solution callables"""
    props = ('C11',)
    q0, q1 = None, None

    def setup(self, W):
        Z0, Z1 = W.Z('Z0', 1), W.Z('Z1', 1)
        x = W.real('x', 0, 50)
        from .values import Native
        return [W.model(), x], {'z0': Native('z0', lambda I, a, k: Z0), 'z1': Native('z1', lambda I, a, k: Z1)}

    def spec(self, I, a):
        o = a['self']
        Z0, Z1 = (I.call(a[k], [a['x']], {}) for k in ('z0', 'z1'))
        f, g = F(o, Z0, self.q0), F(o, Z1, self.q1)
        return vec(Z0, lambda j: mul(f(j), g(j), L_(at(o, 't'))))


@contract
class Int1(_Integrand):
    fn, q0, q1 = 'FieldQuantitiesMixin.int1', 'sig', 'eps'


@contract
class Int2(_Integrand):
    fn, q0, q1 = 'FieldQuantitiesMixin.int2', 'tau', 'gamma'


# ------------------------------------------------------------- derivatives (C04)
def deriv(o, Z, phi, order=1):
    """rows of z' = K z + q (z'' = K z') per column, K and q solved from equilibrium"""
    K, q = sysmat(o), loadvec(o, phi)
    r = [row(Z, k) for k in range(6)]
    memo = {}

    def d1(j):
        if j.id not in memo:
            memo[j.id] = [add(*[mul(K[i][c], r[c](j)) for c in range(6)], q[i]) for i in range(6)]
        return memo[j.id]
    if order == 1:
        return d1
    m2 = {}

    def d2(j):
        if j.id not in m2:
            z = d1(j)
            m2[j.id] = [add(*[mul(K[i][c], z[c]) for c in range(6)]) for i in range(6)]
        return m2[j.id]
    return d2


def rows6(Z, f):
    def cell(idx):
        if idx[0].op == 'num':
            return f(idx[1])[int(idx[0].args[0])]
        v = f(idx[1])
        x = v[5]
        for q in range(4, -1, -1):
            x = ite(eq(idx[0], num(q)), v[q], x)
        return x
    return mkarr((6, Z.shape[1]), cell)


class _Deriv(Contract):
    props = ('C04', 'C14')
    order, pick = 1, None

    def setup(self, W):
        return [W.model(), W.Z('z'), W.real('phi0', -60, 60)], {}

    def spec(self, I, a):
        f = deriv(a['self'], a['z'], a['phi'], self.order)
        if self.pick is None:
            return rows6(a['z'], f)
        return vec(a['z'], lambda j: f(j)[self.pick])


@contract
class Dz(_Deriv):
    fn = 'FieldQuantitiesMixin.dz_dx'


@contract
class Ddz(_Deriv):
    fn, order = 'FieldQuantitiesMixin.dz_dxdx', 2


@contract
class Ddu0(_Deriv):
    fn, pick = 'FieldQuantitiesMixin.du0_dxdx', 1


@contract
class Ddpsi(_Deriv):
    fn, pick = 'FieldQuantitiesMixin.dpsi_dxdx', 5


@contract
class Dddu0(_Deriv):
    fn, order, pick = 'FieldQuantitiesMixin.du0_dxdxdx', 2, 1


@contract
class Dddpsi(_Deriv):
    fn, order, pick = 'FieldQuantitiesMixin.dpsi_dxdxdx', 2, 5


@contract
class Equilibrium(Contract):
    """lemma: the specified derivatives are beam and weak-layer equilibrium; the solution is unique"""
    name = 'lemma: derivatives are equilibrium of slab and weak layer'
    fn = 'FieldQuantitiesMixin.dz_dx'
    props = ('C04',)
    inline, frames = True, False

    def check(self, I, W, P, run, case):
        o, Z, phi = W.model(), W.Z('z'), W.real('phi0', -60, 60)
        j = I.fresh('e')
        z = [row(Z, k)(j) for k in range(6)]
        d = deriv(o, Z, phi)(j)
        A, B, D, kA, K0 = stiff(o)
        qn, qt, pn, pt = loads(o, phi)
        g = lambda n: L_(at(o, n))
        tau = F(o, Z, 'tau')(j)
        V = F(o, Z, 'V')(j)
        f = list(I.facts)
        return [P.eq('kinematics.u', d[0], z[1], f), P.eq('kinematics.w', d[2], z[3], f), P.eq('kinematics.psi', d[4], z[5], f),
                P.eq('equilibrium.N', add(mul(A, d[1]), mul(B, d[5])), sub(tau, add(qt, pt)), f),
                P.eq('equilibrium.V', mul(kA, add(d[3], d[4])), sub(mul(g('kn'), z[2]), add(qn, pn)), f),
                P.eq('equilibrium.M', add(mul(B, d[1]), mul(D, d[5])),
                     add(V, mul(H2, tau, add(g('h'), g('t'))), mul(H2, pt, g('h')), neg(mul(qt, g('zs')))), f)]


# ------------------------------------------------------------ weak-layer principal stress
@contract
class PrincipalWeak(Contract):
    fn = 'AnalysisMixin.principal_stress_weaklayer'
    props = ('C15',)
    cases = tuple({'unit': u, 'val': v, 'normalize': n} for u in (None, 'kPa', 'MPa') for v in (None, 'min', 'max', 'mid') for n in (None, True, False))

    def setup(self, W, unit, val, normalize):
        kw = {k: v for k, v in (('unit', unit), ('val', val), ('normalize', normalize)) if v is not None}
        return [W.model(), W.Z()], {**kw, **({'sc': W.pos('sc', .5, 5)} if normalize else {})}

    def spec(self, I, a):
        if a['val'] not in ('min', 'max') or (a['normalize'] and a['val'] == 'max'):
            raise PyRaise(ValueError, ())
        c = unit(a['unit'], STR)
        o, Z = a['self'], a['Z']
        s, t = scaled(c, F(o, Z, 'sig')), scaled(c, F(o, Z, 'tau'))
        v = principal(s, t, lambda j: ZERO, a['val'])
        return vec(Z, scaled(div(ONE, L_(a['sc'])), v) if a['normalize'] else v)


def principal(sx, t, sz, val):
    """larger or smaller eigenvalue of [[sx, t], [t, sz]]"""
    r = lambda j: fn('sqrt', add(tm.ipow(mul(H2, sub(sx(j), sz(j))), 2), tm.ipow(t(j), 2)))
    m = lambda j: mul(H2, add(sx(j), sz(j)))
    return (lambda j: add(m(j), r(j))) if val == 'max' else (lambda j: sub(m(j), r(j)))


@contract
class Eigenvalue(Contract):
    """lemma: the specified values are the roots of the characteristic polynomial, in order"""
    name = 'lemma: principal stresses are the ordered eigenvalues'
    fn = 'AnalysisMixin.principal_stress_weaklayer'
    props = ('C15',)
    inline, frames = True, False

    def check(self, I, W, P, run, case):
        sx, sz, t = (W.real(n) for n in ('sx', 'sz', 't'))
        r = var('r')
        W.samplers['r'] = lambda e: 1
        k = lambda x: (lambda j: x)
        obs = []
        hi, lo = (principal(k(sx), k(t), k(sz), v)(None) for v in ('max', 'min'))
        f = list(I.facts)
        obs.append(P.eq('sum of eigenvalues', add(hi, lo), add(sx, sz), f))
        obs.append(P.eq('product of eigenvalues', mul(hi, lo), sub(mul(sx, sz), mul(t, t)), f))
        R = fn('sqrt', add(tm.ipow(mul(H2, sub(sx, sz)), 2), tm.ipow(t, 2)))
        obs.append(P.holds('order', le(ZERO, subst(sub(hi, lo), {R: r})), f + [canonb(le(ZERO, r))]))
        return obs


# --------------------------------------------------------------------- exports (C23)
def nanx(W, name='x', n=None):
    """coordinates that are NaN where the slab is unsupported"""
    n = n if n is not None else W.int('mcol', 0, 4)
    v, b = W.arr(name, (n,), lo=0, hi=3000), W.arr(name + 'nan', (n,), 'b')
    g, h = v.snap(), b.snap()
    return mkarr((n,), lambda idx: ite(lift(h(idx)), NAN, g(idx)))


def cm(x):
    g = x.snap()
    return mkarr(x.shape, lambda idx: div(lift(g(idx)), num(10)))


class _Export(Contract):
    props = ('C23',)
    table, q = None, None

    def setup(self, W, unit=None, **kw):
        m = W.int('mcol', 0, 4)
        kw = {k: v for k, v in kw.items() if v is not None}
        return [W.model(), nanx(W, n=m), W.Z('z', m)], {**kw, **({} if unit is None else {'unit': unit})}


class _Weak(_Export):
    cases = tuple({'unit': u, 'removeNaNs': r} for u in (None, 'kPa', 'MPa') for r in (None, True, False))

    def spec(self, I, a):
        f = scaled(unit(a['unit'], STR), F(a['self'], a['z'], self.q))
        x = a['x']
        g = x.snap()
        m = x.shape[0]
        isn = lambda i: tm.isnan(lift(g((i,))))
        if a['removeNaNs']:
            fl = filter_for(lambda i: not_(isn(i)), m)
            n = dim(fl.count)
            return (mkarr((n,), lambda idx: div(lift(g((fl.sigma(idx[0]),))), num(10))),
                    mkarr((n,), lambda idx: f(fl.sigma(idx[0]))))
        return (cm(x), mkarr((m,), lambda idx: ite(isn(idx[0]), NAN, f(idx[0]))))


@contract
class ExportTau(_Weak):
    fn, q = 'OutputMixin.get_weaklayer_shearstress', 'tau'


@contract
class ExportSig(_Weak):
    fn, q = 'OutputMixin.get_weaklayer_normalstress', 'sig'


@contract
class ExportU(_Export):
    fn = 'OutputMixin.get_slab_displacement'
    cases = tuple({'unit': u, 'loc': l} for u in (None, *LEN) for l in (None, 'top', 'mid', 'bot'))

    def spec(self, I, a):
        h = L_(at(a['self'], 'h'))
        z0 = {'top': neg(mul(H2, h)), 'mid': ZERO, 'bot': mul(H2, h)}[a['loc']]
        return (cm(a['x']), vec(a['z'], scaled(unit(a['unit'], LEN), F(a['self'], a['z'], 'u', z0))))


@contract
class ExportW(_Export):
    fn, cases = 'OutputMixin.get_slab_deflection', units(LEN)

    def spec(self, I, a):
        return (cm(a['x']), vec(a['z'], scaled(unit(a['unit'], LEN), F(a['self'], a['z'], 'w'))))


@contract
class ExportPsi(_Export):
    fn, cases = 'OutputMixin.get_slab_rotation', units(DEG + RADS)

    def spec(self, I, a):
        c = div(num(180), tm.PI) if a['unit'] in DEG else ONE
        return (cm(a['x']), vec(a['z'], scaled(c, F(a['self'], a['z'], 'psi'))))
