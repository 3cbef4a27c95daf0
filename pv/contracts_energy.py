"""Contracts of the energy release rates (C10, C11)."""
from .contracts_assembly import *


def sol_any(x, C, l, phi, bed):
    """solution vector as an unknown function of position, free constants, length, inclination and support"""
    bed = b2i(lift(conc(bed)))
    l = ite(eq(bed, ZERO), ZERO, L_(l))     # the solution of a free segment does not depend on its length
    cs = [lift(conc(C.at(num(i), ZERO))) for i in range(6)]
    return mkarr((6, 1), lambda idx: sel('ZS', idx[0], L_(x), L_(l), L_(phi), bed, *cs))


class AnySolution:
    """stand-in for z (scalar position) that knows nothing but its arguments"""
    @staticmethod
    def z(I, a):
        if isinstance(a['x'], (Arr, list, tuple)):
            raise Unsupported('array of positions')
        return sol_any(a['x'], a['C'], a['l'], a['phi'], a['bed'])


def segments(W, n, zero=True):
    li = W.arr('li', (n,), lo=50, hi=900, pos='0+' if zero else '+')
    return li, W.arr('ki', (n,), 'b')


def column(C, i):
    g = C.snap()
    return mkarr((6, 1), lambda idx: g((idx[0], lift(i))))


def tips(k, n):
    """selection of transitions between supported and unsupported segments"""
    ne = lambda j: or_(and_(k(j), not_(k(add(j, ONE)))), and_(not_(k(j)), k(add(j, ONE))))
    return filter_for(ne, sub(n, ONE))


@contract
class Gdif(Contract):
    fn = 'AnalysisMixin.gdif'
    props = ('C10',)
    cases = units(ERR)
    abstract = True

    def setup(self, W, unit):
        n = add(lift(W.int('ntr', 0, 4)), ONE)
        W.I.summaries['Eigensystem.z'] = AnySolution.z
        li, ki = segments(W, n)
        kw = {} if unit is None else {'unit': unit}
        return [W.model(), W.arr('C', (6, n)), W.real('phi0', -60, 60), li, ki], kw

    def spec(self, I, a):
        o, n = a['self'], lift(a['ki'].shape[0])
        k = a['ki'].snap()
        K = lambda i: lift(k((lift(i),)))
        l = a['li'].snap()
        f = unit(a['unit'], ERR)
        T_ = tips(K, n)

        def G(q, i):
            """energy release rate of the transition after segment i"""
            L = lift(l((lift(i),)))
            z = sol_any(L, column(a['C'], i), L, a['phi'], K(i))
            s = F(o, z, 'sig' if q == 1 else 'tau')(ZERO)
            kk = L_(at(o, 'kn' if q == 1 else 'kt'))
            return mul(f, div(mul(s, s), mul(num(2), kk)))
        j = var('j#tip', 'i')
        cnt = T_.count
        total_ = lambda q: tm.sumT(G(q, T_.sigma(j)), j, ZERO, cnt)
        r = []
        several = I.decide(lt(ONE, cnt))
        for q in (1, 2):
            t = total_(q)
            if several:
                first, last = G(q, T_.sigma(ZERO)), G(q, T_.sigma(sub(cnt, ONE)))
                t = add(mul(H2, t), ite(K(ZERO), ZERO, mul(H2, first)), ite(K(sub(n, ONE)), ZERO, mul(H2, last)))
            r.append(t)
        v = [add(*r)] + r
        return mkarr((3,), lambda idx: pick(v, idx[0]))


def pick(v, i):
    if i.op == 'num':
        return v[int(i.args[0])]
    r = v[-1]
    for q in range(len(v) - 2, -1, -1):
        r = ite(eq(i, num(q)), v[q], r)
    return r


@contract
class Ginc(Contract):
    """crack opening integral over the segments that lose their support, per total crack advance"""
    fn = 'AnalysisMixin.ginc'
    props = ('C11',)
    abstract = True
    cases = ({'crack': 'some'}, {'crack': 'none'})
    assumes = ('scipy.integrate.quad returns the integral',)

    def setup(self, W, crack):
        I = W.I
        n = W.int('nseg', 1, 5)
        I.summaries['Eigensystem.z'] = AnySolution.z
        li, ki = segments(W, n)
        k0 = W.arr('k0', (n,), 'b')
        mask = self.mask(k0, ki)
        if crack == 'some':
            T_ = filter_for(mask, n)
            l = li.snap()
            j = var('j#adv', 'i')
            I.assume(lt(ZERO, tm.sumT(lift(l((T_.sigma(j),))), j, ZERO, T_.count)))
        else:
            g = k0.snap()
            k0 = mkarr((n,), lambda idx: and_(g(idx), lift(ki.at(*idx))), 'b')
        return [W.model(tol=W.pos('tol', 1e-12, 1e-11)), W.arr('C0', (6, n)), W.arr('C1', (6, n)), W.real('phi0', -60, 60), li, ki, k0], {}

    @staticmethod
    def mask(k0, ki):
        f, g = k0.snap(), ki.snap()
        return lambda i: and_(lift(f((i,))), not_(lift(g((i,)))))

    def spec(self, I, a):
        o, n = a['self'], lift(a['ki'].shape[0])
        T_ = filter_for(self.mask(a['k0'], a['ki']), n)
        if T_.mask(var('probe', 'i')) is FALSE:
            return mkarr((3,), lambda idx: ZERO)
        l = a['li'].snap()
        L = lambda i: lift(l((i,)))
        j, x = var('j#adv', 'i'), var('x#adv', 'r')
        i = T_.sigma(j)
        S_ = lambda C, bed: sol_any(x, column(C, i), L(i), a['phi'], bed)
        z0, z1 = S_(a['C0'], TRUE), S_(a['C1'], FALSE)
        da = tm.sumT(L(i), j, ZERO, T_.count)
        r = []
        for q, e in (('sig', 'eps'), ('tau', 'gamma')):
            w = mul(F(o, z0, q)(ZERO), F(o, z1, e)(ZERO), L_(at(o, 't')))
            W_ = tm.sumT(tm.integral(w, x, ZERO, L(i)), j, ZERO, T_.count)
            r.append(div(W_, mul(num(2), da)))
        v = [add(*r)] + r
        return mkarr((3,), lambda idx: pick(v, idx[0]))
