"""Contracts of the potentials of PSTs (C21)."""
from .contracts_stress import *


class AnyRaster:
    """stand-in for rasterize_solution: arrays that depend on the arguments only, NaN pattern included"""
    def __init__(self, W, args):
        self.key = self.sig(args)
        self.n = W.int('nras', 2, 5)
        W.I.assume(le(num(2), self.n))
        self.x, self.z = W.arr('RX', (self.n,), lo=0, hi=3000), W.arr('RZ', (6, self.n))
        self.b = W.arr('RB', (self.n,), 'b')
        g, h = self.x.snap(), self.b.snap()
        self.xb = mkarr((self.n,), lambda idx: ite(h(idx), g(idx), NAN))
        W.I.summaries['AnalysisMixin.rasterize_solution'] = self.get

    @staticmethod
    def sig(a):
        def s(v):
            if isinstance(v, Arr):
                k = [I_('q', i) for i in range(v.ndim)]
                return tuple(str(d) for d in v.shape) + (canon(lift(conc(v.at(*k)))).id,)
            return canon(lift(conc(v))).id
        return s(a['C']), s(a['phi']), s(a['li']), s(a['ki']), s(a.get('num', 250))

    def get(self, I, a):
        from .npmod import asarr
        a = {**a, 'li': asarr(I, a['li']), 'ki': asarr(I, a['ki'])}
        I.used_contracts.add('AnalysisMixin.rasterize_solution')
        if self.sig(a) != self.key:
            raise Unsupported('another grid')
        return tuple(mkarr(q.shape, lambda idx, g=q.snap(): g(idx)) for q in (self.x, self.z, self.xb))


def I_(n, i):
    return var(f'{n}{i}#sig', 'i')


class _Potential(Contract):
    props = ('C21',)
    abstract = True
    cases = ({'system': 'pst-'}, {'system': '-pst'})

    def setup(self, W, system):
        phi = W.real('phi', -60, 60)
        C, li, ki = W.arr('C', (6, 2)), W.arr('li', (2,), lo=100, hi=900, pos='+'), W.arr('ki', (2,), 'b')
        o = W.model(system=system)
        kw = {'li': li, 'ki': ki, 'mi': W.arr('mi', (1,)), 'k0': W.arr('k0', (2,), 'b')}
        self.raster = AnyRaster(W, {'C': C, 'phi': phi, 'li': li, 'ki': ki})
        self.inputs = {'C': C, 'phi': phi, 'li': li, 'ki': ki}
        W.I.assume(lt(ZERO, self.weak().count))
        return [o, C, at(o, 'phi'), W.pos('L0', 1000, 5000)], kw

    def weak(self):
        h = self.raster.b.snap()
        return filter_for(lambda i: lift(h((lift(i),))), self.raster.n)

    def realise(self, e, obj):
        from .contract import concrete, worker
        r = worker('raster', {'key': repr(obj), 'obj': obj, **{k: concrete(v, e) for k, v in self.inputs.items()}})
        if 'err' in r:
            raise tm.EvalError(r['err'])
        x, z, b = r['ok']
        e['nras'] = len(x)
        e['RX'], e['RB'] = (lambda i: mpf(x[int(i)])), (lambda i: bool(b[int(i)]))
        e['RZ'] = lambda k, i: mpf(z[int(k)][int(i)])

    def spec_for(self, other, I, a):
        """specified value on another contract's grid"""
        self.raster = other.raster
        return self.spec(I, a)

    def mean(self, f):
        k = var('k#ras', 'i')
        return div(tm.sumT(f(k), k, ZERO, self.raster.n), self.raster.n)

    def end(self, o):
        return sub(self.raster.n, ONE) if at(o, 'system') == 'pst-' else ZERO


def mpf(x):
    import mpmath
    return mpmath.mpf(x)


@contract
class External(_Potential):
    """work of weight and surface load on mean deflection and mean displacement, and of the resting part"""
    fn = 'OutputMixin.external_potential'

    def spec(self, I, a):
        o, Z = a['self'], self.raster.z
        qn, qt, pn, pt = loads(o, at(o, 'phi'))
        l = a['segments']['li'].snap()
        on = add(L_(l((ZERO,))), L_(l((ONE,))))
        rest = sub(L_(a['L']), on)
        w, u = F(o, Z, 'w'), F(o, Z, 'u', L_(at(o, 'zs')))
        return conc(neg(add(mul(add(qn, pn), add(mul(on, self.mean(w)), mul(rest, L_(at(o, 'tc'))))),
                            mul(add(qt, pt), add(mul(on, self.mean(u)), mul(rest, u(self.end(o))))))))


@contract
class Internal(_Potential):
    """axial, bending, shear and weak-layer energies by grid averages, and the end spring's energy"""
    fn = 'OutputMixin.internal_potential'

    def spec(self, I, a):
        o, Z = a['self'], self.raster.z
        A, B, D, kA, K0 = stiff(o)
        sq = lambda q, *z0: (lambda j, f=F(o, Z, q, *z0): tm.ipow(f(j), 2))
        L = L_(a['L'])
        slab_ = mul(HALF, L, add(div(self.mean(sq('N')), A), div(self.mean(sq('M')), sub(D, div(mul(B, B), A))), div(self.mean(sq('V')), kA)))
        k, T_ = a['segments']['ki'].snap(), self.weak()
        l = a['segments']['li'].snap()
        Lw = add(*[ite(L_(k((num(i),))), L_(l((num(i),))), ZERO) for i in range(2)])
        q = var('k#weak', 'i')
        wm = lambda f: div(tm.sumT(f(T_.sigma(q)), q, ZERO, T_.count), T_.count)
        weak_ = mul(HALF, Lw, add(mul(L_(at(o, 'kn')), wm(sq('w'))), mul(L_(at(o, 'kt')), wm(sq('u', mul(HALF, L_(at(o, 'h'))))))))
        j = self.end(o)
        e = mul(F(o, Z, 'M')(j), F(o, Z, 'psi')(j))
        return conc(add(slab_, weak_, mul(HALF, ite(le(ZERO, e), e, neg(e)))))


@contract
class Total(_Potential):
    fn = 'OutputMixin.total_potential'

    def setup(self, W, system):
        r = super().setup(W, system)
        for q in ('internal', 'external'):
            W.I.summaries[f'OutputMixin.{q}_potential'] = lambda I, a, c=REG[f'OutputMixin.{q}_potential']: self.part(I, c, a)
        return r

    def part(self, I, c, a):
        I.used_contracts.add(c.name)
        if self.raster.sig({'C': a['C'], 'phi': a['phi'], 'li': a['segments']['li'], 'ki': a['segments']['ki']}) != self.raster.key:
            raise Unsupported('another grid')
        return c.spec_for(self, I, a)

    def spec(self, I, a):
        return conc(add(*[lift(conc(REG[f'OutputMixin.{q}_potential'].spec_for(self, I, a))) for q in ('internal', 'external')]))
