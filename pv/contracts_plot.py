"""Contracts of the plot functions (C27): what a figure holds when it is saved, and under which name. Drawing
calls and file operations are recorded effects (pv/drawing.py)."""
from .contracts_potential import *
from .drawing import canvas

SEGS = ('li', 'mi', 'ki')


def figure(I, name, curves):
    c = canvas(I)
    c.clear()
    for x, y in curves:
        c.draw('curve', x, y)
    keep(I, name)


def keep(I, name):
    c = canvas(I)
    if I.decide(var('notebook', 'b')):
        c.save(None)
    else:
        if not c.exists():
            c.dir = True
        c.save('plots/' + name + '.png')
    c.clear()


def times(I, k, v):
    """k v for an array"""
    return mkarr(v.shape, lambda idx: mul(lift(k), lift(conc(v.at(*idx)))))


def cm_(I, x):
    return times(I, Fraction(1, 10), x)


class _Plot(Contract):
    props = ('C27',)
    shows = True
    effects = True

    def place(self, W):
        W.bool('plotsdir')
        W.bool('notebook')

    def coords(self, W, n='x', lo=0, hi=3000, N=None):
        return W.arr(n, (N if N is not None else W.int('nx', 0, 4),), lo=lo, hi=hi)

    def segments(self, W):
        n = W.int('nseg', 1, 3)
        return {'li': W.arr('li', (n,), lo=100, hi=900, pos='0+'), 'mi': W.arr('mi', (n,), lo=0, hi=90, pos='0+'),
                'ki': W.arr('ki', (n,), kind='b')}


@contract
class SavePlot(_Plot):
    fn = 'weac.plot:save_plot'
    cases = tuple({'name': n} for n in ('profile', 'disp1', 'a.b'))

    def setup(self, W, name):
        self.place(W)
        return [name], {}

    def spec(self, I, a):
        keep(I, conc(a['name']))


@contract
class PlotData(_Plot):
    fn = 'weac.plot:plot_data'
    cases = tuple({'n': n, 'right': r, 'vlines': v, 'pos': p, 'fea': f} for n, r, v, p, f in (
        (1, 0, False, None, 0), (2, 0, True, None, 0), (3, 0, False, None, 0), (2, 1, False, None, 0), (2, 0, True, -50, 1)))

    def setup(self, W, n, right, vlines, pos, fea):
        self.place(W)
        d = []
        for k in range(n + right):
            N = W.int(f'n{k}', 0, 5)
            label = 'FEA $u$' if fea and not k else f'$y_{k}$'
            d.append([W.arr(f'x{k}', (N,)), W.arr(f'y{k}', (N,)), label])
        kw = {} if vlines is True else {'vlines': vlines}
        if vlines:
            kw.update(self.segments(W))
        if pos:
            kw['labelpos'] = pos
        if right:
            kw.update(ax2data=d[n:], ax2label='right')
        return ['fig', d[:n], 'left'], kw

    def spec(self, I, a):
        figure(I, conc(a['name']), [(r[0], r[1]) for r in list(a['ax1data']) + list(a['ax2data'] or [])])


class _Wrap(_Plot):
    names = ('',)

    def spec(self, I, a):
        call = lambda m, **k: self.quantity(I, a['instance'], m, **k)
        figure(I, self.title(I, a), self.curves(I, a, call))

    def quantity(self, I, o, m, **k):
        q = 'FieldQuantitiesMixin.' + m
        f = lookup(I, q)
        return REG[q].spec(I, I.bindargs(f, [o], k))


class _Fields(_Wrap):
    cases = tuple({'i': i, 'seg': s} for i, s in (('', True), (1, False), ('run', True)))

    def setup(self, W, i, seg):
        self.place(W)
        m = W.int('nx', 0, 4)
        kw = {} if i == '' else {'i': i}
        return [W.model(), self.coords(W, N=m), W.Z(m=m)], {**kw, **(self.segments(W) if seg else {})}

    def title(self, I, a):
        return self.file + str(conc(a['i']))


@contract
class PlotDisplacements(_Fields):
    """mm and degrees, deflection upwards"""
    fn = 'weac.plot:displacements'
    file = 'disp'

    def curves(self, I, a, q):
        x, z = cm_(I, a['x']), a['z']
        return [(x, q('u', Z=z, z0=0, unit='mm')), (x, times(I, -1, q('w', Z=z, unit='mm'))), (x, q('psi', Z=z, unit='degrees'))]


@contract
class PlotForces(_Fields):
    fn = 'weac.plot:section_forces'
    file = 'forc'

    def curves(self, I, a, q):
        x, z = cm_(I, a['x']), a['z']
        return [(x, q('N', Z=z)), (x, q('M', Z=z)), (x, q('V', Z=z))]


@contract
class PlotStresses(_Fields):
    """kPa"""
    fn = 'weac.plot:stresses'
    file = 'stress'

    def curves(self, I, a, q):
        x, z = cm_(I, a['x']), a['z']
        return [(x, times(I, 1000, q('tau', Z=z))), (x, times(I, 1000, q('sig', Z=z)))]


@contract
class PlotCriteria(_Wrap):
    fn = 'weac.plot:stress_criteria'
    cases = ({'seg': True}, {'seg': False})

    def setup(self, W, seg):
        self.place(W)
        m = W.int('nx', 0, 4)
        return [self.coords(W, N=m), self.coords(W, 'stress', N=m)], self.segments(W) if seg else {}

    def spec(self, I, a):
        figure(I, 'crit', [(cm_(I, a['x']), a['stress'])])


class _Err(_Wrap):
    def rates(self, W, name, m):
        return W.arr(name, (3, m), lo=0, hi=.01)

    def row(self, I, G, r):
        """row r in J/m^2"""
        return mkarr((G.shape[1],), lambda idx: mul(num(1000), lift(conc(G.at(num(r), idx[0])))))


@contract
class PlotErrComp(_Err):
    fn = 'weac.plot:err_comp'
    cases = tuple({'mode': m} for m in (None, 0, 1, 2))

    def setup(self, W, mode):
        self.place(W)
        m = W.int('nx', 0, 4)
        return [self.coords(W, 'da', N=m), self.rates(W, 'Gdif', m), self.rates(W, 'Ginc', m)], {} if mode is None else {'mode': mode}

    def spec(self, I, a):
        x, m = cm_(I, a['da']), conc(a['mode'])
        figure(I, 'err', [(x, self.row(I, a['Gdif'], m)), (x, self.row(I, a['Ginc'], m))])


@contract
class PlotErrModes(_Err):
    fn = 'weac.plot:err_modes'
    cases = tuple({'kind': m} for m in (None, 'inc', 'dif'))

    def setup(self, W, kind):
        self.place(W)
        m = W.int('nx', 0, 4)
        return [self.coords(W, 'da', N=m), self.rates(W, 'G', m)], {} if kind is None else {'kind': kind}

    def spec(self, I, a):
        x = cm_(I, a['da'])
        figure(I, 'modes', [(x, self.row(I, a['G'], r)) for r in (2, 1, 0)])


class _Fea(_Wrap):
    """reference columns are listed from the far end"""
    def setup(self, W):
        self.place(W)
        m = W.int('nx', 0, 4)
        return [W.model(), self.coords(W, N=m), W.Z(m=m), W.arr('fea', (W.int('nf', 0, 4), 6))], {}

    def column(self, I, F, c, k=ONE, flip=True):
        n = lift(F.shape[0])
        return mkarr((F.shape[0],), lambda idx: mul(lift(k), lift(conc(F.at(sub(sub(n, ONE), idx[0]) if flip else idx[0], num(c))))))

    def title(self, I, a):
        return self.file


@contract
class PlotFeaDisp(_Fea):
    fn = 'weac.plot:fea_disp'
    file = 'fea_disp'

    def curves(self, I, a, q):
        F, x, z = a['fea'], cm_(I, a['x']), a['z']
        xf = self.column(I, F, 0, num(Fraction(1, 10)), flip=False)
        deg = div(num(180), tm.PI)
        return [(xf, self.column(I, F, 1, num(-1))), (xf, self.column(I, F, 2)), (xf, self.column(I, F, 5, deg)),
                (x, q('u', Z=z, z0=0)), (x, times(I, -1, q('w', Z=z))), (x, times(I, deg, q('psi', Z=z)))]


@contract
class PlotFeaStress(_Fea):
    fn = 'weac.plot:fea_stress'
    file = 'fea_stress'

    def curves(self, I, a, q):
        F, x, z = a['fea'], cm_(I, a['xb']), a['zb']
        xf = self.column(I, F, 0, num(Fraction(1, 10)), flip=False)
        return [(xf, self.column(I, F, 2, num(1000))), (xf, self.column(I, F, 3, num(1000))),
                (x, times(I, 1000, q('tau', Z=z))), (x, times(I, 1000, q('sig', Z=z)))]


@contract
class PlotProfile(_Plot):
    """density of every layer over its height above the weak layer"""
    fn = 'weac.plot:slab_profile'

    def setup(self, W):
        self.place(W)
        return [W.model()], {}

    def spec(self, I, a):
        s = a['instance'].attrs['slab']
        n = s.shape[0]
        low = lambda k: sub(sub(lift(n), ONE), k)             # k-th layer from below

        half = lambda i: fn('floor', div(i, num(2)))
        y = SList(dim(mul(num(2), lift(n))), lambda i: heights(I, s, ite(eq(lift(i), mul(num(2), half(lift(i)))), half(lift(i)), add(half(lift(i)), ONE))))
        x = SList(dim(mul(num(2), lift(n))), lambda i: s.at(low(half(lift(i))), ZERO))
        c = canvas(I)
        c.clear()
        c.draw('fill_betweenx', y, 0, x)
        keep(I, 'profile')


def heights(I, s, k):
    """thickness of the lowest k layers"""
    n, j = lift(s.shape[0]), I.fresh('q')
    return sumT(lift(conc(s.at(sub(sub(n, ONE), j), ONE))), j, ZERO, k)


@contract
class Outline(Contract):
    """closed boundary: top, right side, bottom backwards, left side upwards to the start"""
    fn = 'weac.plot:outline'
    props = ('C27',)

    def setup(self, W):
        return [W.arr('grid', (W.int('nr', 2, 4), W.int('nk', 2, 4)))], {}

    def spec(self, I, a):
        g = a['grid']
        n, m = (sub(lift(d), ONE) for d in g.shape)

        def at_(idx):
            k = idx[0]
            v = lambda i, j: lift(conc(g.at(i, j)))
            k1, k2, k3 = sub(k, m), sub(sub(k, m), n), sub(sub(sub(k, m), n), m)
            return ite(lt(k, m), v(ZERO, k), ite(lt(k1, n), v(k1, m), ite(lt(k2, m), v(n, sub(m, k2)), v(sub(n, k3), ZERO))))
        return mkarr((dim(add(mul(num(2), add(n, m)), ONE)),), at_)


@contract
class Lightness(Contract):
    """hue and saturation of the colour, lightness scaled within 0 and 1"""
    fn = 'weac.plot:adjust_lightness'
    props = ('C27',)
    reference = 'colour'
    cases = tuple({'kind': k, 'given': g} for k, g in (('tuple', True), ('name', True), ('name', False)))

    def setup(self, W, kind, given):
        c = W.str('colour_', ('red', '#336699', 'k')) if kind == 'name' else tuple(W.real(n, .05, .95) for n in 'rgb')
        return [c] + ([W.real('amount', 0, 3)] if given else []), {}

    def spec(self, I, a):
        c = a['color']
        if not isinstance(c, tuple):
            c = (tm.sel('colour', lift(c), sort='s') if I.decide(tm.sel('iscolour', lift(c), sort='b')) else lift(c),)
        rgb = [tm.sel(f'rgb{i}', *c) for i in range(3)]
        h, l, s = [tm.sel(f'rgb_to_hls{i}', *rgb) for i in range(3)]
        v = mul(lift(a['amount']), l)
        v = ite(lt(v, ZERO), ZERO, ite(lt(ONE, v), ONE, v))
        return tuple(tm.sel(f'hls_to_rgb{i}', h, v, s) for i in range(3))


@contract
class Digits(Contract):
    """position of the leading digit: 10^-s <= decimal < 10^(1-s)"""
    fn = 'weac.plot:significant_digits'
    props = ('C27',)

    def setup(self, W):
        return [W.pos('decimal', .001, 3000)], {}

    def spec(self, I, a):
        return neg(fn('floor', fn('log10', lift(a['decimal']))))
