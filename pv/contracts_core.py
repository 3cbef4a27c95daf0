"""Contracts of geometry, stiffnesses, loads and material laws (C01, C02, C03, C22)."""
from .contract import *

RAD = PI180
HALF = num(Fraction(1, 2))


def S(o, *idx):
    return lift(conc(o.at(*[lift(i) for i in idx]))) if not isinstance(conc(o.at(*[lift(i) for i in idx])), Cx) else o.at(*[lift(i) for i in idx])


def total(f, n):
    k = var('k#S', 'i')
    return sumT(f(k), k, ZERO, lift(n))


def prefix(f, i):
    k = var('k#P', 'i')
    return sumT(f(k), k, ZERO, lift(i))


def deg(phi):
    return mul(lift(conc(phi)), RAD)


def at(o, n):
    return o.attrs[n]


def L_(x):
    return lift(conc(x))


# ---------------------------------------------------------------- loads (C03)
def weight(o):
    s = at(o, 'slab')
    return mul(num(Fraction(1, 10**12)), L_(at(o, 'g')), total(lambda k: mul(S(s, k, 0), S(s, k, 1)), s.shape[0]))


@contract
class WeightLoad(Contract):
    fn = 'Eigensystem.get_weight_load'
    props = ('C03',)

    def setup(self, W):
        return [W.model(), W.real('phi0', -80, 80)], {}

    def spec(self, I, a):
        q, p = weight(a['self']), deg(a['phi'])
        return (conc(mul(q, fn('cos', p))), conc(neg(mul(q, fn('sin', p)))))


@contract
class SurfaceLoad(Contract):
    fn = 'Eigensystem.get_surface_load'
    props = ('C03',)

    def setup(self, W):
        return [W.model(), W.real('phi0', -80, 80)], {}

    def spec(self, I, a):
        q, p = L_(at(a['self'], 'p')), deg(a['phi'])
        return (conc(mul(q, fn('cos', p))), conc(neg(mul(q, fn('sin', p)))))


@contract
class SkierLoad(Contract):
    fn = 'Eigensystem.get_skier_load'
    props = ('C03',)

    def setup(self, W):
        return [W.model(), W.real('m', 0, 120), W.real('phi0', -80, 80)], {}

    def spec(self, I, a):
        o = a['self']
        q = mul(num(Fraction(1, 1000)), L_(a['m']), L_(at(o, 'g')), tm.ipow(L_(at(o, 'lski')), -1))
        p = deg(a['phi'])
        return (conc(mul(q, fn('cos', p))), conc(neg(mul(q, fn('sin', p)))))


def loads(o, phi):
    """qn, qt, pn, pt"""
    p = deg(phi)
    q, s = weight(o), L_(at(o, 'p'))
    c, sn = fn('cos', p), fn('sin', p)
    return mul(q, c), neg(mul(q, sn)), mul(s, c), neg(mul(s, sn))


@contract
class CalcQn(Contract):
    fn = 'SlabContactMixin.calc_qn'
    props = ('C03',)

    def setup(self, W):
        return [W.model()], {}

    def spec(self, I, a):
        qn, qt, pn, pt = loads(a['self'], at(a['self'], 'phi'))
        return conc(add(qn, pn))


@contract
class CalcQt(Contract):
    fn = 'SlabContactMixin.calc_qt'
    props = ('C03',)

    def setup(self, W):
        return [W.model()], {}

    def spec(self, I, a):
        qn, qt, pn, pt = loads(a['self'], at(a['self'], 'phi'))
        return conc(add(qt, pt))


@contract
class SetSurfaceLoad(Contract):
    fn = 'Eigensystem.set_surface_load'
    props = ('C03', 'C19')
    effects = True

    def setup(self, W):
        return [W.model(), W.real('p1')], {}

    def spec(self, I, a):
        a['self'].attrs['p'] = a['p']


# ------------------------------------------------- geometry and stiffness (C01, C02)
def thick(s):
    return lambda k: S(s, k, 1)


@contract
class Ply(Contract):
    fn = 'Eigensystem.get_ply_coordinates'
    props = ('C01', 'C02', 'C14')

    def setup(self, W):
        return [W.model()], {}

    def spec(self, I, a):
        o = a['self']
        s, h = at(o, 'slab'), L_(at(o, 'h'))
        g = s.snap()
        t = lambda k: lift(g((k, ONE)))
        n = dim(add(lift(s.shape[0]), ONE))
        return mkarr((n,), lambda idx: sub(prefix(t, idx[0]), mul(HALF, h)))


@contract
class Laminate(Contract):
    """plane-strain integrals through the thickness, midpoint form: over a layer of thickness d
    centred at zm the integrals of 1, z, z^2 are d, d zm, d zm^2 + d^3/12"""
    fn = 'Eigensystem.calc_laminate_stiffness_matrix'
    props = ('C01', 'C19')
    effects = True

    def setup(self, W):
        return [W.model()], {}

    def spec(self, I, a):
        o = a['self']
        s, h, kk = at(o, 'slab'), L_(at(o, 'h')), L_(at(o, 'k'))
        d = thick(s)
        zm = lambda i: sub(add(prefix(d, i), mul(HALF, d(i))), mul(HALF, h))
        Ep = lambda i: div(S(s, i, 2), sub(ONE, mul(S(s, i, 4), S(s, i, 4))))
        n = s.shape[0]
        A = total(lambda i: mul(Ep(i), d(i)), n)
        B = total(lambda i: mul(Ep(i), d(i), zm(i)), n)
        Dm = total(lambda i: mul(Ep(i), add(mul(d(i), zm(i), zm(i)), mul(num(Fraction(1, 12)), d(i), d(i), d(i)))), n)
        o.attrs['A11'], o.attrs['B11'], o.attrs['D11'] = conc(A), conc(B), conc(Dm)
        o.attrs['kA55'] = conc(mul(kk, total(lambda i: mul(S(s, i, 3), d(i)), n)))
        o.attrs['K0'] = conc(sub(mul(B, B), mul(A, Dm)))


def cog(rho, d, n):
    """mass-weighted mean mid-height below mid-plane"""
    H = total(d, n)
    zm = lambda i: sub(add(prefix(d, i), mul(HALF, d(i))), mul(HALF, H))
    return H, div(total(lambda i: mul(rho(i), d(i), zm(i)), n), total(lambda i: mul(rho(i), d(i)), n))


@contract
class CoG(Contract):
    fn = 'weac.tools:calc_center_of_gravity'
    props = ('C02',)

    def setup(self, W):
        return [W.slab('layers', W.int('nL', 1, 4), 2)[0]], {}

    def spec(self, I, a):
        s = a['layers']
        g = s.snap()
        H, zs = cog(lambda i: lift(g((i, ZERO))), lambda i: lift(g((i, ONE))), s.shape[0])
        return (conc(H), conc(zs))


def powlaw(c, base, e):
    return mul(c, tm.power(base, e))


DB = {k: [180, 120, 5] for k in ()}
_soft, _medium, _hard = (180, 120, 5), (270, 120, 30), (350, 120, Fraction('93.8'))
DB = {'a': (_hard, _medium, _soft), 'b': (_soft, _medium, _hard), 'c': (_hard, _soft, _hard),
      'd': (_soft, _hard, _soft), 'e': (_hard, _soft, _soft), 'f': (_soft, _soft, _hard),
      'h': (_medium,) * 3, 'soft': (_soft,) * 3, 'medium': (_medium,) * 3, 'hard': (_hard,) * 3,
      'comp': ((240, 200, Fraction('5.23')),)}


def tab(rows):
    n, m = len(rows), len(rows[0])

    def f(idx):
        i, j = conc(idx[0]), conc(idx[1])
        if isinstance(i, int) and isinstance(j, int):
            return num(rows[i][j])
        r = None
        for p in range(n):
            for q in range(m):
                v = num(rows[p][q])
                r = v if r is None else ite(and_(eq(idx[0], num(p)), eq(idx[1], num(q))), v, r)
        return r
    return mkarr((n, m), f)


@contract
class Profile(Contract):
    fn = 'weac.tools:load_dummy_profile'
    props = ('C22', 'C02')
    cases = tuple({'id': s} for k in DB for s in sorted({k, k.upper(), k.capitalize()})) + (
        {'id': 'nope'}, {'id': ''}, {'id': 'g'}, {'id': 'softer'})

    def setup(self, W, id):
        return [id], {}

    def spec(self, I, a):
        r = DB.get(a['profile_id'].lower())
        if r is None:
            raise PyRaise(ValueError, ())
        return (tab([x[:2] for x in r]), mkarr((len(r),), lambda idx: tab([x[2:] for x in r]).at(idx[0], 0)))


class _Law(Contract):
    props = ('C22',)
    cases = ({'arr': False}, {'arr': True})
    law = None
    par = ()

    def setup(self, W, arr):
        if arr:
            n = W.int('nr', 0, 4)
            rho = W.arr('rhov', (n,), lo=50, hi=900, pos='+')
        else:
            rho = W.pos('rho', 50, 900)
        return [rho] + [W.pos(p, .5, 10) for p in self.par], {}

    def spec(self, I, a):
        r = a['rho']
        f = lambda x: self.f(lift(x), *[L_(a[p]) for p in self.par])
        if isinstance(r, Arr):
            g = r.snap()
            return mkarr(r.shape, lambda idx: f(g(idx)))
        return conc(f(L_(r)))


@contract
class Bergfeld(_Law):
    fn = 'weac.tools:bergfeld'
    props = ('C22', 'C01')
    par = ('rho0', 'C0', 'C1')

    def f(self, r, rho0, C0, C1):
        return mul(C0, num(1000), tm.power(div(r, rho0), C1))


@contract
class BergfeldDefault(_Law):
    name = 'bergfeld(defaults)'
    fn = 'weac.tools:bergfeld'
    inline = True

    def f(self, r):
        return mul(num(6500), tm.power(div(r, num(917)), num(Fraction('4.4'))))


@contract
class Gerling(_Law):
    fn = 'weac.tools:gerling'
    par = ('C0', 'C1')

    def f(self, r, C0, C1):
        return mul(C0, num(Fraction(1, 10**10)), tm.power(r, C1))


@contract
class GerlingDefault(_Law):
    name = 'gerling(defaults)'
    fn = 'weac.tools:gerling'
    inline = True

    def f(self, r):
        return mul(num(Fraction(6, 10**10)), tm.power(r, num(Fraction('4.6'))))


@contract
class Scapozza(_Law):
    fn = 'weac.tools:scapozza'

    def f(self, r):
        return mul(num(5070), tm.power(div(r, num(917)), num(Fraction('5.13'))))


@contract
class Tensile(_Law):
    fn = 'weac.tools:tensile_strength_slab'
    props = ('C22', 'C15')
    cases = tuple({'arr': a, 'unit': u} for a in (False, True) for u in ('kPa', 'MPa', None, 'bar'))

    def setup(self, W, arr, unit):
        args, kw = _Law.setup(self, W, arr)
        return args, ({'unit': unit} if unit else {})

    def f(self, r):
        return mul(num(240), tm.power(div(r, num(917)), num(Fraction('2.44'))))

    def spec(self, I, a):
        if a['unit'] not in ('kPa', 'MPa'):
            raise PyRaise(KeyError, ())
        c = ONE if a['unit'] == 'kPa' else num(Fraction(1, 1000))
        r = a['rho']
        if isinstance(r, Arr):
            g = r.snap()
            return mkarr(r.shape, lambda idx: mul(c, self.f(g(idx))))
        return conc(mul(c, self.f(L_(r))))
