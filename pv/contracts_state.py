"""Contracts of the property setters, the system matrix, loads vector and eigensystem
(C01, C02, C04, C07, C19)."""
from .contracts_core import *

K_ = num(Fraction(5, 6))


# ---------------------------------------------------------------- spec helpers
def foundation(o):
    if not isinstance(at(o, 'weak'), dict):
        raise PyRaise(TypeError, ())            # no weak layer yet
    E, nu, t = L_(at(o, 'weak')['E']), L_(at(o, 'weak')['nu']), L_(at(o, 't'))
    kn = div(E, mul(sub(ONE, mul(nu, nu)), t))
    kt = div(E, mul(num(2), add(ONE, nu), t))
    return kn, kt


def stiff(o):
    g = lambda n: L_(at(o, n))
    return g('A11'), g('B11'), g('D11'), g('kA55'), g('K0')


def sysmat(o, kn=None, kt=None):
    """rows of K solved from equilibrium
         N' = tau - (qt+pt), V' = kn w - (qn+pn), M' = V + (h+t)/2 tau + h/2 pt - zs qt
    with N = A u' + B psi', M = B u' + D psi', V = kA (w' + psi), tau = kt (u + h/2 psi - t/2 w')"""
    A, B, D, kA, K0 = stiff(o)
    h, t = L_(at(o, 'h')), L_(at(o, 't'))
    kn, kt = L_(at(o, 'kn')) if kn is None else kn, L_(at(o, 'kt')) if kt is None else kt
    det = neg(K0)                                       # A D - B^2
    tau = [kt, ZERO, ZERO, mul(num(Fraction(-1, 2)), kt, t), mul(H2, kt, h), ZERO]
    V = [ZERO, ZERO, ZERO, kA, kA, ZERO]
    K = [[ZERO]*6 for _ in range(6)]
    K[0][1] = K[2][3] = K[4][5] = ONE
    for c in range(6):
        n = tau[c]
        m = add(V[c], mul(H2, add(h, t), tau[c]))
        K[1][c] = div(sub(mul(D, n), mul(B, m)), det)
        K[5][c] = div(sub(mul(A, m), mul(B, n)), det)
        v = kn if c == 2 else ZERO
        K[3][c] = sub(div(v, kA), ONE if c == 5 else ZERO)
    return K


H2 = num(Fraction(1, 2))


def loadvec(o, phi):
    A, B, D, kA, K0 = stiff(o)
    qn, qt, pn, pt = loads(o, phi)
    h, zs = L_(at(o, 'h')), L_(at(o, 'zs'))
    n = neg(add(qt, pt))
    m = sub(mul(H2, h, pt), mul(zs, qt))
    det = neg(K0)
    return [ZERO, div(sub(mul(D, n), mul(B, m)), det), ZERO, div(neg(add(qn, pn)), kA), ZERO,
            div(sub(mul(A, m), mul(B, n)), det)]


def mat(rows):
    n, m = len(rows), len(rows[0])

    def f(idx):
        i, j = conc(idx[0]), conc(idx[1])
        if isinstance(i, int) and isinstance(j, int):
            return lift(rows[i][j])
        r = None
        for p in range(n):
            for q in range(m):
                v = lift(rows[p][q])
                r = v if r is None else ite(and_(eq(idx[0], num(p)), eq(idx[1], num(q))), v, r)
        return r
    return mkarr((n, m), f)


EIG = {}


def eigattrs(I, K):
    """eigensystem of a matrix as uninterpreted functions of its entries"""
    key = tuple(canon(lift(K.at(i, j))).id for i in range(6) for j in range(6))
    if key not in EIG:
        EIG[key] = len(EIG)
    n = EIG[key]
    nR, nC = var(f'nR_{n}', 'i'), var(f'nC_{n}', 'i')
    I.assume(le(ZERO, nR), le(ZERO, nC))
    r = lambda s, sh: mkarr(sh, lambda idx: sel(f'{s}_{n}', *idx))
    z = lambda s, sh: mkarr(sh, lambda idx: Cx(sel(f'{s}_{n}.re', *idx), sel(f'{s}_{n}.im', *idx)), 'c')
    ewR = r('ewR', (nR,))
    ewC = z('ewC', (nC,))
    gR, gC = ewR.snap(), ewC.snap()
    return {'ewR': ewR, 'ewC': ewC, 'evR': r('evR', (6, nR)), 'evC': z('evC', (6, nC)),
            'sR': mkarr((nR,), lambda idx: ite(lt(ZERO, gR(idx)), num(-1), ZERO)),
            'sC': mkarr((nC,), lambda idx: ite(cpos(gC(idx)), num(-1), ZERO))}


def cpos(z):
    """numpy order of a complex number against zero"""
    return or_(lt(ZERO, z.re), and_(eq(z.re, ZERO), lt(ZERO, z.im)))


def setlaminate(I, o):
    if getattr(I, 'opaque_laminate', False):              # some functions of what the laminate's contract reads
        i, s = var('probe', 'i'), at(o, 'slab')
        ts = [L_(at(o, 'h')), L_(at(o, 'k')), lift(s.shape[0])] + [L_(s.at(i, num(c))) for c in (1, 2, 3, 4)]
        for n in ('A11', 'B11', 'D11', 'kA55', 'K0'):
            o.attrs[n] = conc(sel('lam.' + n, *ts))
        return
    REG['Eigensystem.calc_laminate_stiffness_matrix'].spec(I, {'self': o})


def fundamental(I, o):
    kn, kt = foundation(o)
    o.attrs['kn'], o.attrs['kt'] = conc(kn), conc(kt)
    setlaminate(I, o)
    o.attrs.update(eigattrs(I, mat(sysmat(o))))


# ------------------------------------------------------------------- setters
@contract
class FoundationStiffness(Contract):
    fn = 'Eigensystem.calc_foundation_stiffness'
    props = ('C19', 'C25', 'C09')
    effects = True

    def setup(self, W):
        return [W.model()], {}

    def spec(self, I, a):
        o = a['self']
        kn, kt = foundation(o)
        o.attrs['kn'], o.attrs['kt'] = conc(kn), conc(kt)


@contract
class SystemMatrix(Contract):
    fn = 'Eigensystem.calc_system_matrix'
    props = ('C04', 'C19')

    def setup(self, W):
        return [W.model()], {}

    def spec(self, I, a):
        return mat(sysmat(a['self']))


@contract
class LoadVector(Contract):
    fn = 'Eigensystem.get_load_vector'
    props = ('C04', 'C06')

    def setup(self, W):
        return [W.model(), W.real('phi0', -80, 80)], {}

    def spec(self, I, a):
        return mat([[x] for x in loadvec(a['self'], a['phi'])])


@contract
class Fundamental(Contract):
    fn = 'Eigensystem.calc_fundamental_system'
    props = ('C19', 'C25')
    effects = True

    def setup(self, W):
        return [W.model()], {}

    def spec(self, I, a):
        fundamental(I, a['self'])


@contract
class SetFoundation(Contract):
    fn = 'Eigensystem.set_foundation_properties'
    props = ('C19', 'C25')
    effects = True
    cases = ({'update': True}, {'update': False}, {'update': None})

    def setup(self, W, update):
        return [W.model()], dict({'t': W.pos('t1', 5, 60), 'E': W.pos('E1', .1, 2), 'nu': W._nu('nu1')},
                                 **({} if update is None else {'update': update}))

    def spec(self, I, a):
        o = a['self']
        o.attrs['t'] = a['t']
        o.attrs['weak'] = {'nu': a['nu'], 'E': a['E']}
        if a['update']:
            fundamental(I, o)


def beam(I, o, layers, C0, C1, nu):
    """slab table, thickness, centre of gravity and shear correction of a layering"""
    if isinstance(layers, str):
        key = layers.split()[-1].lower() if layers.split() else None
        if key is None:
            raise PyRaise(IndexError, ())
        if key not in DB:
            raise PyRaise(ValueError, ())
        r = DB[key]
        n = len(r)
        rho, d, E = (lambda i: tab(r).at(i, 0)), (lambda i: tab(r).at(i, 1)), (lambda i: tab(r).at(i, 2))
    else:
        from .npmod import asarr
        x = asarr(I, layers).snap()
        n = asarr(I, layers).shape[0]
        rho, d = (lambda i: lift(x((i, ZERO)))), (lambda i: lift(x((i, ONE))))
        E = lambda i: mul(num(1000), L_(C0), tm.power(div(rho(i), num(917)), L_(C1)))
    nu = L_(nu)
    G = lambda i: div(E(i), mul(num(2), add(ONE, nu)))
    cols = [rho, d, E, G, lambda i: nu]
    o.attrs['k'] = Fraction(5, 6)
    H, zs = cog(rho, d, n)
    o.attrs['h'], o.attrs['zs'] = conc(H), conc(zs)

    def cell(idx):
        j = conc(idx[1])
        if isinstance(j, int):
            return cols[j](idx[0])
        r = cols[4](idx[0])
        for q in range(3, -1, -1):
            r = ite(eq(idx[1], num(q)), cols[q](idx[0]), r)
        return r
    o.attrs['slab'] = mkarr((n, 5), cell)


class _SetBeam(Contract):
    effects = True

    def layers(self, W, kind):
        if kind == 'array':
            return W.arr('lay', (W.int('nLay', 1, 4), 2), lo=80, hi=400, pos='+')
        if isinstance(kind, int):
            return [[W.pos(f'rho{i}', 80, 400), W.pos(f'd{i}', 20, 200)] for i in range(kind)]
        return kind


@contract
class SetBeam(_SetBeam):
    fn = 'Eigensystem.set_beam_properties'
    props = ('C01', 'C02', 'C19', 'C22', 'C25', 'C26')
    cases = tuple({'kind': k, 'update': u} for k in ('array', 1, 3) for u in (True, False)) + tuple(
        {'kind': k, 'update': False} for k in ('A', 'h', 'profile c', 'Profile F', 'soft', 'comp', 'nope', 'profile x'))

    def setup(self, W, kind, update):
        return [W.model(), self.layers(W, kind)], {'C0': W.pos('C0', 1, 10), 'C1': W.pos('C1', 1, 6), 'nu': W._nu('nu1'), 'update': update}

    def spec(self, I, a):
        o = a['self']
        beam(I, o, a['layers'], a['C0'], a['C1'], a['nu'])
        if a['update']:
            fundamental(I, o)


@contract
class SetBeamDefault(_SetBeam):
    """defaults: Bergfeld parameters, Poisson's ratio one quarter, no recalculation"""
    name = 'Eigensystem.set_beam_properties(defaults)'
    fn = 'Eigensystem.set_beam_properties'
    props = ('C01', 'C02', 'C19')
    inline = True

    def setup(self, W):
        return [W.model(), self.layers(W, 'array')], {}

    def spec(self, I, a):
        beam(I, a['self'], a['layers'], Fraction('6.5'), Fraction('4.4'), Fraction(1, 4))


def eigout(I, K):
    """numpy.linalg.eig: eigenvalues and eigenvectors of the matrix, nothing else is known here"""
    n6 = var('n6', 'i')       # six of them; a symbol keeps selections by mask symbolic
    ew = mkarr((n6,), lambda idx: Cx(sel('eigW.re', *idx), sel('eigW.im', *idx)), 'c')
    ev = mkarr((6, n6), lambda idx: Cx(sel('eigV.re', *idx), sel('eigV.im', *idx)), 'c')
    return ew, ev


def eigmodel(I, K):
    return (*eigout(I, K),)


@contract
class Eigensystem_(Contract):
    fn = 'Eigensystem.calc_eigensystem'
    props = ('C07', 'C05', 'C19')
    effects = True
    assumes = ('numpy.linalg.eig returns eigenpairs (column j of the second result belongs to entry j of the first), real '
               'matrices have conjugate-closed spectra, and real eigenvalues come with real eigenvectors',)

    def setup(self, W):
        return [W.model()], {}

    def summary(self, I, ba):
        o = ba['self']
        o.attrs.update(eigattrs(I, mat(sysmat(o))))

    def spec(self, I, a):
        o = a['self']
        ew, ev = eigout(I, None)
        w = lambda i: ew.at(i)
        R = filter_for(lambda i: and_(eq(w(i).im, ZERO), not_(eq(w(i).re, ZERO))), var('n6', 'i'))
        C = filter_for(lambda i: lt(ZERO, w(i).im), var('n6', 'i'))
        sR, sC = R.sigma, C.sigma
        nR, nC = dim(R.count), dim(C.count)
        o.attrs.update({
            'ewR': mkarr((nR,), lambda idx: w(sR(idx[0])).re),
            'ewC': mkarr((nC,), lambda idx: w(sC(idx[0])), 'c'),
            'evR': mkarr((6, nR), lambda idx: ev.at(idx[0], sR(idx[1])).re),
            'evC': mkarr((6, nC), lambda idx: ev.at(idx[0], sC(idx[1])), 'c'),
            'sR': mkarr((nR,), lambda idx: ite(lt(ZERO, w(sR(idx[0])).re), num(-1), ZERO)),
            'sC': mkarr((nC,), lambda idx: ite(cpos(w(sC(idx[0]))), num(-1), ZERO))})

    def check(self, I, W, P, run, case):
        I.eig_model = lambda I, A: eigmodel(I, A)
        seen = []
        spec = self.spec

        def hook(I, A):
            seen.append((A, list(I.facts)))
            return eigmodel(I, A)
        I.eig_model = hook
        I.assume(eq(var('n6', 'i'), num(6)))
        obs = functional(self, I, W, P, case)
        # the matrix handed to eig is the system matrix of the model
        W2 = World(I)
        o = W2.model()
        K = mat(sysmat(o))
        if not seen:
            obs.append(Ob(self.name + '.matrix', 'unknown', '', 0, 'eig not called'))
        for A, facts in seen[:1]:
            cm = Cmp(I, P, facts)
            cm.value(self.name + '.matrix', A, K)
            obs += cm.obs
        return obs


@contract
class Basis(Contract):
    """lemmas over calc_eigensystem's contract"""
    name = 'lemma: basis of six bounded solutions'
    fn = 'Eigensystem.calc_eigensystem'
    props = ('C07',)
    inline = True
    frames = False
    assumes = Eigensystem_.assumes

    def check(self, I, W, P, run, case):
        obs = []
        ew, ev = eigout(I, None)
        im, re = (lambda k: ew.at(num(k)).im), (lambda k: ew.at(num(k)).re)
        cnt = lambda f: add(*[ite(f(k), ONE, ZERO) for k in range(6)])
        R = cnt(lambda k: and_(eq(im(k), ZERO), not_(eq(re(k), ZERO))))
        C = cnt(lambda k: lt(ZERO, im(k)))
        N = cnt(lambda k: lt(im(k), ZERO))
        facts = [canonb(eq(C, N))] + [canonb(or_(not_(eq(im(k), ZERO)), not_(eq(re(k), ZERO)))) for k in range(6)]
        obs.append(P.holds('basis.columns', eq(add(R, mul(num(2), C)), num(6)), facts, 30000))
        x, l, w = var('x'), var('l'), var('w')
        s = ite(lt(ZERO, w), num(-1), ZERO)
        pre = [canonb(le(ZERO, x)), canonb(le(x, l))]
        obs.append(P.holds('basis.real exponent', le(mul(w, add(x, mul(l, s))), ZERO), pre, 20000))
        wi = var('wi')
        sc = ite(cpos(Cx(w, wi)), num(-1), ZERO)
        obs.append(P.holds('basis.complex exponent', le(mul(w, add(x, mul(l, sc))), ZERO), pre, 20000))
        # zero is no eigenvalue of the system matrix: its determinant is kn kt (A D - B^2)^-1 ... > 0
        W2 = World(I)
        o = W2.model()
        K = sysmat(o)
        d = det(K)
        A, B, Dm, kA, K0 = stiff(o)
        kn, kt = L_(at(o, 'kn')), L_(at(o, 'kt'))
        obs.append(P.eq('basis.determinant', d, div(mul(kn, kt), K0), list(I.facts)))
        return obs


def det(M):
    n = len(M)
    if n == 1:
        return lift(M[0][0])
    r = []
    for c in range(n):
        if lift(M[0][c]) is ZERO:
            continue
        minor = [[row[q] for q in range(n) if q != c] for row in M[1:]]
        t = mul(M[0][c], det(minor))
        r.append(t if c % 2 == 0 else neg(t))
    return canon(add(*r)) if r else ZERO
