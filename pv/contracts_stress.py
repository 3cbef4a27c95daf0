"""Contracts of the depth mesh and the slab stresses (C14, C15)."""
from .contracts_raster import *
from .contract import clone
from .npmod import owner_for, split_owner


@contract
class Mesh(Contract):
    """each layer from its top to its bottom in equal steps no larger than requested, with its properties"""
    fn = 'AnalysisMixin.get_zmesh'
    props = ('C14',)
    inline = True

    def setup(self, W):
        return [W.model()], {'dz': W.pos('dz', 1, 80)}

    @staticmethod
    def layers(I, o, dz):
        """(layer thickness, steps, layout of the grid points)"""
        g = at(o, 'slab').snap()
        d = lambda i: lift(g((lift(i), ONE)))
        steps = lambda i: fn('ceil', div(d(i), lift(dz)))
        return d, steps, owner_for(lambda i: add(steps(i), ONE), at(o, 'slab').shape[0])

    def spec(self, I, a):
        o = a['self']
        g, h = at(o, 'slab').snap(), L_(at(o, 'h'))
        d, steps, lay = self.layers(I, o, a['dz'])
        top = lambda i: sub(prefix(d, i), mul(HALF, h))

        def cell(idx):
            i, q = split_owner(I, lay, idx[0])
            c = idx[1]
            if c.op != 'num':
                raise Unsupported('column of the mesh')
            c = int(c.args[0])
            if c == 0:
                return add(top(i), mul(d(i), div(q, steps(i))))
            return g((i, num((2, 4, 0)[c - 1])))
        r = mkarr((dim(lay.start(lay.n)), 4), cell)
        r.pieces = {0: lay}
        return r


class AnyMesh:
    """stand-in for get_zmesh: at least two points, otherwise unknown"""
    def __init__(self, W):
        NumEnv.sorts['MESH'], NumEnv.sorts['NMESH'] = 'r', 'i'
        W.samplers['NMESH'] = lambda e, dz: e.rng.randint(2, 5)
        W.samplers['MESH'] = lambda e, dz, i, k: {0: float(i) * 20 - 40, 1: e.rng.uniform(.5, 50), 2: e.rng.uniform(.05, .4),
                                                  3: e.rng.uniform(80, 400)}[int(k)]

        def cell(dz, i, k):
            k = conc(k)
            if k == 2:
                v = sel('MESH', dz, i, num(2))
                return [lt(num(-1), v), lt(v, num(Fraction(1, 2)))]
            return []
        W.I.factgens['MESH'] = cell
        W.I.factgens['NMESH'] = lambda dz: [le(num(2), sel('NMESH', dz, sort='i'))]

    @staticmethod
    def size(dz):
        return sel('NMESH', canon(L_(dz)), sort='i')

    @staticmethod
    def cell(dz):
        dz = canon(L_(dz))
        return lambda i, k: sel('MESH', dz, lift(i), num(k))

    @staticmethod
    def get(I, a):
        dz = canon(L_(a['dz']))
        I.used_contracts.add('AnalysisMixin.get_zmesh')
        n = AnyMesh.size(dz)
        I.assume(le(num(2), n))
        return mkarr((n, 4), lambda idx: sel('MESH', dz, idx[0], idx[1]))


DV = [var('phi#d', 'r')] + [var(f'z{k}#d', 'r') for k in range(6)]


def folded(o, Z, phi, order):
    """deriv(o, Z, phi, order)(j)[k], not expanded"""
    zd = mkarr((6, 1), lambda idx: DV[1 + int(idx[0].args[0])])
    body = deriv(o, zd, DV[0], order)(ZERO)
    r = [row(Z, k) for k in range(6)]
    return lambda j: [V.defined(f'd{order}z{k}', DV, body[k], [L_(phi)] + [x(j) for x in r]) for k in range(6)]


def folded_summary(name, order, k):
    def summary(I, a):
        I.used_contracts.add(f'FieldQuantitiesMixin.{name}')
        return vec(a['z'], lambda j: folded(a['self'], a['z'], a['phi'], order)(j)[k])
    return summary


class _Stress(Contract):
    props = ('C14',)
    abstract = True
    cases = tuple({'unit': u, 'dz': d} for u, d in ((None, True), ('kPa', None), ('MPa', True), ('m', True)))

    def setup(self, W, unit, dz):
        AnyMesh(W)
        W.I.summaries['AnalysisMixin.get_zmesh'] = AnyMesh.get
        for fn_, order, k in (('du0_dxdx', 1, 1), ('dpsi_dxdx', 1, 5), ('du0_dxdxdx', 2, 1), ('dpsi_dxdxdx', 2, 5)):
            W.I.summaries['FieldQuantitiesMixin.' + fn_] = folded_summary(fn_, order, k)
        kw = {} if unit is None else {'unit': unit}
        return [W.model(), W.Z(), W.real('phi0', -60, 60)], {**kw, **({'dz': W.pos('dz', 5, 80)} if dz else {})}

    def realise(self, e, obj):
        super().realise(e, obj)
        e['NMESH'], e['MESH'] = mesh_values(obj)

    def weight(self, o, M, a, f):
        """gravity component (f: sin or cos) per unit height at grid points"""
        return lambda i: mul(num(Fraction(1, 10**12)), M(i, 3), L_(at(o, 'g')), fn(f, mul(PI180, L_(a['phi']))))

    def spec(self, I, a):
        if a['unit'] not in STR:
            raise PyRaise(KeyError, ())
        c = num(STR[a['unit']])
        M, n, Z = AnyMesh.cell(a['dz']), AnyMesh.size(a['dz']), a['Z']
        I.assume(le(num(2), n))
        f = self.stress(a['self'], M, n, Z, a)
        return mkarr((n, Z.shape[1]), lambda idx: mul(c, f(idx[0], idx[1])))

    def plane(self, M, i):
        return div(M(i, 1), sub(ONE, tm.ipow(M(i, 2), 2)))

    def trap(self, M, f, i):
        """trapezoidal integral of f from the top to grid point i"""
        q = var('q#trap', 'i')
        nx = add(q, ONE)
        return tm.sumT(mul(HALF, add(f(q), f(nx)), sub(M(nx, 0), M(q, 0))), q, ZERO, i)

    def gradient(self, o, M, Z, a, order):
        """order-th derivative of the axial stress along the slope, at grid point i and column j"""
        d = folded(o, Z, a['phi'], order)
        return lambda i, j: mul(self.plane(M, i), add(d(j)[1], mul(M(i, 0), d(j)[5])))


@contract
class Sxx(_Stress):
    """plane-strain stress of the section's strain, with the weight term of the interval below"""
    fn = 'AnalysisMixin.Sxx'

    def stress(self, o, M, n, Z, a):
        u = lambda i: F(o, Z, 'du', M(i, 0))
        w = self.weight(o, M, a, 'sin')
        nxt = lambda i: ite(lt(i, sub(n, ONE)), sub(M(add(i, ONE), 0), M(i, 0)), sub(M(i, 0), M(sub(i, ONE), 0)))
        return lambda i, j: sub(mul(self.plane(M, i), u(i)(j)), mul(w(i), nxt(i)))


@contract
class Txz(_Stress):
    """integral of axial stress gradient and tangential weight from the free surface"""
    fn = 'AnalysisMixin.Txz'

    def stress(self, o, M, n, Z, a):
        g, w = self.gradient(o, M, Z, a, 1), self.weight(o, M, a, 'sin')
        return lambda i, j: self.trap(M, lambda q: sub(g(q, j), w(q)), i)


@contract
class Szz(_Stress):
    """double integral of the second axial stress gradient, less the normal weight, from the free surface"""
    fn = 'AnalysisMixin.Szz'

    def stress(self, o, M, n, Z, a):
        g, w = self.gradient(o, M, Z, a, 2), self.weight(o, M, a, 'cos')
        r = var('r#trap', 'i')

        def inner(i, j):
            nx = add(r, ONE)
            return tm.sumT(mul(HALF, add(g(r, j), g(nx, j)), sub(M(nx, 0), M(r, 0))), r, ZERO, i)
        return lambda i, j: self.trap(M, lambda q: sub(inner(q, j), w(q)), i)


@contract
class PrincipalSlab(_Stress):
    """eigenvalue of the slab's stress state, per tensile strength of the layer where normalised"""
    fn = 'AnalysisMixin.principal_stress_slab'
    props = ('C15',)
    cases = tuple({'unit': u, 'dz': d, 'val': v, 'normalize': n} for u, d in ((None, True), ('kPa', None), ('MPa', True))
                  for v in (None, 'max', 'min', 'mid') for n in (None, True))

    def setup(self, W, unit, dz, val, normalize):
        a, kw = super().setup(W, unit, dz)
        return a, {**kw, **{k: v for k, v in (('val', val), ('normalize', normalize)) if v is not None}}

    def spec(self, I, a):
        if a['val'] not in ('min', 'max') or (a['normalize'] and a['val'] == 'min'):
            raise PyRaise(ValueError, ())
        s = {q: REG[f'AnalysisMixin.{q}'].summary(I, dict(a)) for q in ('Sxx', 'Txz', 'Szz')}
        f = lambda q, i: (lambda j: lift(conc(s[q].at(i, j))))
        n = s['Sxx'].shape
        M = AnyMesh.cell(a['dz'])

        def cell(idx):
            i, j = idx
            v = principal(f('Sxx', i), f('Txz', i), f('Szz', i), a['val'])(j)
            if a['normalize']:
                rho = mkarr((1,), lambda _: M(i, 3))
                st = REG['weac.tools:tensile_strength_slab'].summary(I, I.bindargs(I.getfunc('weac.tools', 'tensile_strength_slab'), [rho], {'unit': a['unit']}))
                v = div(v, lift(conc(st.at(ZERO))))
            return v
        return mkarr(n, cell)


@contract
class MeshLemma(Contract):
    """lemma: every layer has at least two grid points, no further apart than requested"""
    name = 'lemma: spacing of the depth mesh'
    fn = 'AnalysisMixin.get_zmesh'
    props = ('C14',)
    inline, frames = True, False

    def check(self, I, W, P, run, case):
        o, dz = W.model(), W.pos('dz', 1, 80)
        d, steps, lay = Mesh.layers(I, o, dz)
        i = I.fresh('S')
        f = list(I.facts) + [canonb(c) for c in (le(ZERO, i), lt(i, lay.n))]
        return [P.holds('two points', le(num(2), lay.length(i)), f),
                P.holds('spacing', le(div(d(i), steps(i)), dz), f + [canonb(le(ONE, steps(i)))]),
                P.eq('bottom', mul(d(i), div(sub(lay.length(i), ONE), steps(i))), d(i), f)]


@contract
class ShearLemma(Contract):
    """lemma: the shear stress grows from zero at the surface to the weak-layer shear stress at the bottom

    T(p) is the specified (trapezoidal) shear stress at grid point p of the specified mesh, H(S, K) the
    stress picked up by the first K intervals of layer S.  With the obligations below, induction over
    the intervals of a layer and over the layers gives T(bottom) = sum of H(S, steps(S)) = tau."""
    name = 'lemma: slab shear stress meets the weak-layer shear stress'
    fn = 'AnalysisMixin.Txz'
    props = ('C14',)
    inline, frames = True, False

    def check(self, I, W, P, run, case):
        o, Z, phi, dz = W.model(), W.Z('z'), W.real('phi0', -60, 60), W.pos('dz', 1, 80)
        j = I.fresh('e')
        d, steps, lay = Mesh.layers(I, o, dz)
        mesh = REG['AnalysisMixin.get_zmesh'].spec(I, {'self': o, 'dz': dz})
        M = lambda i, k: lift(conc(mesh.at(canon(i), num(k))))
        a, b = var('du#l', 'r'), var('dpsi#l', 'r')          # u0'' and psi''
        W.samplers['du#l'] = W.samplers['dpsi#l'] = lambda e: e.rng.uniform(-1, 1)
        s = at(o, 'slab')
        Ep = lambda i: div(S(s, i, 2), sub(ONE, mul(S(s, i, 4), S(s, i, 4))))
        w = lambda i: mul(num(Fraction(1, 10**12)), S(s, i, 0), L_(at(o, 'g')), fn('sin', deg(phi)))
        step = lambda i: div(d(i), steps(i))
        top = lambda i: sub(prefix(d, i), mul(HALF, L_(at(o, 'h'))))
        H = lambda i, K: sub(mul(Ep(i), add(mul(a, K, step(i)), mul(b, add(mul(K, step(i), top(i)), mul(HALF, mul(K, step(i)), mul(K, step(i))))))),
                             mul(w(i), K, step(i)))
        F_ = lambda p: sub(mul(div(M(p, 1), sub(ONE, mul(M(p, 2), M(p, 2)))), add(a, mul(M(p, 0), b))),
                           mul(num(Fraction(1, 10**12)), M(p, 3), L_(at(o, 'g')), fn('sin', deg(phi))))
        inc = lambda p: mul(HALF, add(F_(p), F_(canon(add(p, ONE)))), sub(M(add(p, ONE), 0), M(p, 0)))
        S_, K = I.fresh('S'), I.fresh('K')
        obs, mark = [], len(I.facts)
        I.assume(le(ZERO, S_), lt(S_, lay.n), le(ZERO, K), lt(K, steps(S_)))
        obs.append(P.eq('interval of a layer', inc(canon(add(lay.start(S_), K))), sub(H(S_, add(K, ONE)), H(S_, K)), list(I.facts)))
        del I.facts[mark:]
        I.assume(le(ZERO, S_), lt(S_, sub(lay.n, ONE)))
        obs.append(P.eq('interval between layers', inc(canon(add(lay.start(S_), steps(S_)))), ZERO, list(I.facts)))
        del I.facts[mark:]
        f = list(I.facts)
        obs.append(P.eq('no interval', H(S_, ZERO), ZERO, f))
        n = s.shape[0]
        A_, B_ = stiffsums(I, o)
        obs.append(P.eq('all layers', total(lambda i: H(i, steps(i)), n),
                        sub(add(mul(A_, a), mul(B_, b)), mul(weight(o), fn('sin', deg(phi)))), f))
        dd = deriv(o, Z, phi)(j)
        tau, pt = F(o, Z, 'tau')(j), loads(o, phi)[3]
        obs.append(P.eq('bottom', sub(add(mul(L_(at(o, 'A11')), dd[1]), mul(L_(at(o, 'B11')), dd[5])),
                                      mul(weight(o), fn('sin', deg(phi)))), sub(tau, pt), f))
        return obs


def stiffsums(I, o):
    """A11 and B11 as the laminate contract specifies them"""
    q = clone(o)
    REG['Eigensystem.calc_laminate_stiffness_matrix'].spec(I, {'self': q})
    return L_(at(q, 'A11')), L_(at(q, 'B11'))
