"""Lemmas over the contracts: differential equations of the solution (C05, C06), positivity and splitting of
the laminate stiffnesses and of the centre of gravity (C01, C02), mirror symmetry (C24)."""
from .contracts_energy import *
from .contracts_assembly import *
from .contracts_solution import *
from .terms import D, subst


class _Lemma(Contract):
    inline = True
    frames = False
    relies = ()                              # contracts whose specifications the lemma is about

    def check(self, I, W, P, run, case):
        I.used_contracts |= set(self.relies)
        self.I, self.P, self.obs, self.facts = I, P, [], I.facts
        self.prove(W, **case)
        return self.obs

    def same(self, name, a, b, extra=()):
        self.obs.append(self.P.eq(f'{self.name}.{name}', a, b, list(self.facts) + list(extra)))

    def true(self, name, goal, extra=()):
        self.obs.append(self.P.holds(f'{self.name}.{name}', goal, list(self.facts) + [canonb(f) for f in extra], 20000))


SEGMENT = ('Eigensystem.calc_system_matrix', 'Eigensystem.get_load_vector', 'Eigensystem.zh', 'Eigensystem.zp')
NAMES = ("u", "u'", "w", "w'", "psi", "psi'")


def applied(K, col):
    return [add(*[mul(K[i][j], col[j]) for j in range(6) if lift(K[i][j]) is not ZERO]) for i in range(6)]


@contract
class SupportedODE(_Lemma):
    """supported segments: every complementary solution leaves, in the governing system, only the residual of its
    eigenpair times a factor, and the particular solution satisfies the system with the load vector"""
    name = 'lemma: supported solution satisfies the governing system'
    relies = SEGMENT
    fn = 'Eigensystem.zh'
    props = ('C05',)
    assumes = ('numpy.linalg.eig returns eigenpairs: K v = w v, up to rounding',)

    def prove(self, W):
        o, x, l = W.model(), var('x'), var('l')
        K = sysmat(o)
        c = var('c', 'i')
        col = [real_col(o, i, c, x, l) for i in range(6)]
        w, v, s = L_(at(o, 'ewR').at(c)), at(o, 'evR'), L_(at(o, 'sR').at(c))
        v = [L_(v.at(i, c)) for i in range(6)]
        e = fn('exp', mul(w, add(x, mul(l, s))))
        Kv, Kc = applied(K, v), applied(K, col)
        for i in range(6):
            self.same(f'real {NAMES[i]}', sub(D(col[i], x), Kc[i]), mul(e, sub(mul(w, v[i]), Kv[i])))
        w, s = at(o, 'ewC').at(c), L_(at(o, 'sC').at(c))
        v = [at(o, 'evC').at(i, c) for i in range(6)]
        re, im = [q.re for q in v], [q.im for q in v]
        e = fn('exp', mul(w.re, add(x, mul(l, s))))
        co, si = fn('cos', mul(w.im, x)), fn('sin', mul(w.im, x))
        Kr, Ki = applied(K, re), applied(K, im)
        rr = [sub(sub(mul(w.re, re[i]), mul(w.im, im[i])), Kr[i]) for i in range(6)]       # residual of K v = w v
        ri = [sub(add(mul(w.re, im[i]), mul(w.im, re[i])), Ki[i]) for i in range(6)]
        for part, f in (('re', lambda i: sub(mul(rr[i], co), mul(ri[i], si))), ('im', lambda i: add(mul(ri[i], co), mul(rr[i], si)))):
            col = [cplx_col(o, i, c, x, l, part) for i in range(6)]
            Kc = applied(K, col)
            for i in range(6):
                self.same(f'{part} {NAMES[i]}', sub(D(col[i], x), Kc[i]), mul(e, f(i)))
        phi = var('phi0')
        zp = particular(o, x, phi, True)
        q, Kz = loadvec(o, phi), applied(K, zp)
        for i in range(6):
            self.same(f'particular {NAMES[i]}', D(canon(zp[i]), x), add(Kz[i], q[i]))


@contract
class FreeODE(_Lemma):
    """unsupported segments: system without weak-layer tractions, six independent polynomial solutions"""
    name = 'lemma: unsupported solution satisfies the beam equations'
    relies = SEGMENT
    fn = 'Eigensystem.zh'
    props = ('C06',)

    def prove(self, W):
        o, x, phi = W.model(), var('x'), var('phi0')
        K = sysmat(o, ZERO, ZERO)
        F = free_cols(o, x)
        for c in range(6):
            Kc = applied(K, F[c])
            for i in range(6):
                self.same(f'solution {c} {NAMES[i]}', D(canon(F[c][i]), x), Kc[i])
        zp, q = particular(o, x, phi, False), loadvec(o, phi)
        Kz = applied(K, zp)
        for i in range(6):
            self.same(f'particular {NAMES[i]}', D(canon(zp[i]), x), add(Kz[i], q[i]))
        A, B, Dm, kA, K0 = stiff(o)
        d = det([[F[c][i] for c in range(6)] for i in range(6)])
        a, k, k0 = var('lA'), var('lk'), var('lK0')
        self.same('determinant', mul(A, kA, d), canon(mul(num(self.sign(d, A, kA, K0)), num(12), K0)))
        self.true('independent', not_(eq(div(mul(num(12), k0), mul(a, k)), ZERO)), (lt(ZERO, a), lt(ZERO, k), lt(k0, ZERO)))

    def sign(self, d, A, kA, K0):
        from .terms import is_zero
        return 1 if is_zero(sub(mul(A, kA, d), mul(num(12), K0))) else -1


@contract
class WholeODE(_Lemma):
    """the solution vector z = zh C + zp: residual of the governing system is the combination of the residuals"""
    name = 'lemma: solution vector satisfies its system'
    relies = ('Eigensystem.z',)
    fn = 'Eigensystem.z'
    props = ('C05', 'C06')
    cases = tuple({'bed': b, 'nR': r, 'nC': c} for b, r, c in ((True, 2, 2), (True, 6, 0), (True, 0, 3), (True, 4, 1), (False, 2, 2)))
    assumes = SupportedODE.assumes

    def prove(self, W, bed, nR, nC):
        o, x, l, phi = W.model(nR=nR, nC=nC), var('x'), var('l'), var('phi0')
        C = W.arr('C', (6, 1))
        K = sysmat(o) if bed else sysmat(o, ZERO, ZERO)
        p, h, n, g = zcol(self.I, o, C, x, l, phi, bed)
        cols = [[h(num(i), num(c)) for i in range(6)] for c in range(6)]
        k = [lift(g((num(c), ZERO))) for c in range(6)]
        z = [add(*[mul(cols[c][i], k[c]) for c in range(6)], p[i]) for i in range(6)]
        Kz, q = applied(K, z), loadvec(o, phi)
        Kc = [applied(K, cols[c]) for c in range(6)]
        for i in range(6):
            res = [sub(D(canon(cols[c][i]), x), Kc[c][i]) for c in range(6)]
            self.same(f'{NAMES[i]}', sub(D(canon(z[i]), x), add(Kz[i], q[i])), add(*[mul(k[c], res[c]) for c in range(6)]))


def layer_step(s, E, nu, d, G, k, H, rho):
    """running totals (depth from the top, A, B, D, kA, mass, mass moment) after one more layer; mid-heights about mid-plane"""
    P, A, B, Dm, kA, m, mz = s
    z = sub(add(P, mul(HALF, d)), mul(HALF, H))
    e = div(E, sub(ONE, mul(nu, nu)))
    return (add(P, d), add(A, mul(e, d)), add(B, mul(e, d, z)), add(Dm, mul(e, add(mul(d, z, z), mul(num(Fraction(1, 12)), d, d, d)))),
            add(kA, mul(k, G, d)), add(m, mul(rho, d)), add(mz, mul(rho, d, z)))


def run_totals(o, H):
    """the totals of the first i layers, as the contracts sum them"""
    s, kk = at(o, 'slab'), L_(at(o, 'k'))
    d = thick(s)
    zm = lambda i: sub(add(prefix(d, i), mul(HALF, d(i))), mul(HALF, H))
    Ep = lambda i: div(S(s, i, 2), sub(ONE, mul(S(s, i, 4), S(s, i, 4))))
    f = [d, lambda i: mul(Ep(i), d(i)), lambda i: mul(Ep(i), d(i), zm(i)),
         lambda i: mul(Ep(i), add(mul(d(i), zm(i), zm(i)), mul(num(Fraction(1, 12)), d(i), d(i), d(i)))),
         lambda i: mul(kk, S(s, i, 3), d(i)), lambda i: mul(S(s, i, 0), d(i)), lambda i: mul(S(s, i, 0), d(i), zm(i))]
    return lambda n: [prefix(q, n) for q in f]


@contract
class Splitting(_Lemma):
    """the sums of the stiffness and centre-of-gravity contracts are folds over the layers, and folding two sublayers of
    one material equals folding the layer; so splitting a layer changes nothing"""
    name = 'lemma: splitting a layer changes nothing'
    relies = ('Eigensystem.calc_laminate_stiffness_matrix', 'weac.tools:calc_center_of_gravity')
    fn = 'Eigensystem.calc_laminate_stiffness_matrix'
    props = ('C01', 'C02')
    what = ('depth', 'A11', 'B11', 'D11', 'kA55', 'mass', 'mass moment')

    def prove(self, W):
        o = W.model()
        s, i, H, kk = at(o, 'slab'), var('i', 'i'), var('H'), L_(at(o, 'k'))
        self.I.assume(le(ZERO, i), lt(i, lift(s.shape[0])))
        T_ = run_totals(o, H)
        r, d, E, G, nu = (S(s, i, q) for q in range(5))
        nxt = layer_step(T_(i), E, nu, d, G, kk, H, r)
        for q, a, b in zip(self.what, T_(add(i, ONE)), nxt):
            self.same(f'fold {q}', a, b)
        st = [var(f's{q}') for q in range(7)]
        al = var('alpha')
        one = layer_step(st, E, nu, d, G, kk, H, r)
        two = layer_step(layer_step(st, E, nu, mul(al, d), G, kk, H, r), E, nu, mul(sub(ONE, al), d), G, kk, H, r)
        for q, a, b in zip(self.what, two, one):
            self.same(f'two sublayers {q}', a, b)
        # what the contracts store are these totals
        n = s.shape[0]
        REG['Eigensystem.calc_laminate_stiffness_matrix'].spec(self.I, {'self': o})
        t = [subst(q, {H: L_(at(o, 'h'))}) for q in T_(n)]
        for q, a in zip(('A11', 'B11', 'D11', 'kA55'), t[1:5]):
            self.same(f'stored {q}', L_(at(o, q)), a)
        h, zs = cog(lambda k: S(s, k, 0), thick(s), n)
        self.same('stored h', h, t[0])
        self.same('stored zs', mul(zs, t[5]), subst(T_(n)[6], {H: h}))


@contract
class Positive(_Lemma):
    """A, kA > 0 and A D - B^2 > 0; the centre of gravity lies strictly inside the slab"""
    name = 'lemma: positive stiffnesses and inner centre of gravity'
    relies = ('Eigensystem.calc_laminate_stiffness_matrix', 'weac.tools:calc_center_of_gravity')
    fn = 'Eigensystem.calc_laminate_stiffness_matrix'
    props = ('C01', 'C02')

    def prove(self, W):
        o = W.model()
        s, kk = at(o, 'slab'), L_(at(o, 'k'))
        n, d = s.shape[0], thick(s)
        H = total(d, n)
        T_ = run_totals(o, H)(n)
        i = var('i', 'i')
        inside = (le(ZERO, i), lt(i, lift(n)))
        r, di, E, G, nu = (S(s, i, q) for q in range(5))
        e = div(E, sub(ONE, mul(nu, nu)))
        z = sub(add(prefix(d, i), mul(HALF, di)), mul(HALF, H))
        self.true('A summand', lt(ZERO, mul(e, di)), inside)
        self.true('kA summand', lt(ZERO, mul(kk, G, di)), inside)
        self.true('mass summand', lt(ZERO, mul(r, di)), inside)
        # sum of e d ((z-c)^2 + d^2/12) over the layers, c = B/A, is (A D - B^2)/A
        c = var('c')
        f = lambda i: (lambda r, d_, E, G, nu, z: mul(div(E, sub(ONE, mul(nu, nu))), d_, add(tm.ipow(sub(z, c), 2), mul(num(Fraction(1, 12)), d_, d_))))(
            *[S(s, i, q) for q in range(5)], sub(add(prefix(d, i), mul(HALF, d(i))), mul(HALF, H)))
        self.same('second moment about any axis', total(f, n), add(T_[3], mul(num(-2), c, T_[2]), mul(c, c, T_[1])))
        a, b, dd = var('lA', 'r'), var('lB'), var('lD')
        self.same('about B/A', subst(add(dd, mul(num(-2), c, b), mul(c, c, a)), {c: div(b, a)}), div(sub(mul(a, dd), mul(b, b)), a))
        self.true('second moment summand', lt(ZERO, f(i)), inside)
        k = var('k', 'i')
        # layers lie inside the slab
        above, below = prefix(d, i), sumT(d(var('k#S', 'i')), var('k#S', 'i'), add(i, ONE), lift(n))
        self.same('layers above and below', H, add(above, di, below), inside)
        self.true('summand above', lt(ZERO, d(k)), (le(ZERO, k), lt(k, i)) + inside)
        self.true('summand below', lt(ZERO, d(k)), (lt(i, k), lt(k, lift(n))) + inside)
        u, v, w = var('above'), var('below'), var('d')
        for sg in (1, -1):
            m = sub(add(u, mul(HALF, w)), mul(HALF, add(u, w, v)))
            self.true(f'mid-height inside {sg}', lt(ZERO, add(mul(HALF, add(u, w, v)), mul(num(sg), m))), (le(ZERO, u), le(ZERO, v), lt(ZERO, w)))
            self.same(f'distance of the centre of gravity {sg}',
                      total(lambda q: mul(S(s, q, 0), d(q), add(mul(HALF, H), mul(num(sg), sub(add(prefix(d, q), mul(HALF, d(q))), mul(HALF, H))))), n),
                      add(mul(HALF, H, T_[5]), mul(num(sg), T_[6])))


@contract
class Symmetric(_Lemma):
    """layers symmetric about mid-plane: mid-heights are antisymmetric (induction over the layers), so the mass moment of
    the first k and last k layers vanishes for every k (induction), and with k = n twice the total"""
    name = 'lemma: centre of gravity of symmetric slabs'
    fn = 'weac.tools:calc_center_of_gravity'
    props = ('C02',)

    def prove(self, W):
        n, k = var('n', 'i'), var('k', 'i')
        self.I.assume(le(ONE, n), le(ZERO, k), lt(k, n))
        half = lambda f: (lambda i: mul(HALF, add(sel(f, i), sel(f, sub(sub(n, ONE), i)))))      # any symmetric sequence
        d, r = half('dd'), half('rr')
        P = lambda i: prefix(d, i)
        H = var('H')
        b = lambda j: add(P(j), P(sub(n, j)))                         # = H for every j
        self.same('halves, base', b(ZERO), total(d, n))
        self.same('halves, step', sub(b(add(k, ONE)), b(k)), ZERO)
        m = lambda i: sub(add(P(i), mul(HALF, d(i))), mul(HALF, H))
        j = sub(sub(n, ONE), k)
        self.same('mid-heights', add(m(k), m(j)), sub(b(k), H))
        f = lambda i: mul(r(i), d(i), m(i))
        q = var('q', 'i')
        t = lambda k: add(sumT(f(q), q, ZERO, k), sumT(f(q), q, sub(n, k), n))
        self.same('moment, base', t(ZERO), ZERO)
        self.same('moment, step', sub(t(add(k, ONE)), t(k)), mul(r(k), d(k), sub(b(k), H)))
        self.same('moment, all layers', t(n), mul(num(2), total(f, n)))


MIRROR = (-1, 1, 1, -1, -1, 1)            # of u, u', w, w', psi, psi' under x -> l - x
PARITY = {'u': -1, 'w': 1, 'psi': -1, 'N': 1, 'M': 1, 'V': -1, 'sig': 1, 'tau': -1, 'eps': 1, 'gamma': -1, 'du': 1}
SIDES = {'pst-': '-pst', '-pst': 'pst-', 'vpst-': '-vpst', '-vpst': 'vpst-', 'skier': 'skier', 'skiers': 'skiers'}


@contract
class MirrorField(_Lemma):
    """x -> l - x, phi -> -phi maps solutions of a segment onto solutions, field quantities onto themselves up to sign,
    and leaves the summands of the energy release rates and the contact conditions unchanged"""
    name = 'lemma: mirrored segments'
    fn = 'Eigensystem.calc_system_matrix'
    props = ('C24',)
    relies = SEGMENT + ('Eigensystem.z',) + tuple('FieldQuantitiesMixin.' + q for q in PARITY if q != 'du') + (
        'FieldQuantitiesMixin.Gi', 'FieldQuantitiesMixin.Gii', 'FieldQuantitiesMixin.int1', 'FieldQuantitiesMixin.int2', 'AnalysisMixin.gdif', 'AnalysisMixin.ginc')

    def prove(self, W):
        o, phi = W.model(), W.real('phi', -60, 60)
        K0 = sysmat(o, ZERO, ZERO)
        for lab, K in (('supported', sysmat(o)), ('free', K0)):
            for i in range(6):
                for j in range(6):
                    self.same(f'{lab} system {i}{j}', mul(num(MIRROR[i]*MIRROR[j]), K[i][j]), neg(K[i][j]))
        q, r = loadvec(o, phi), loadvec(o, neg(phi))
        for i in range(6):
            self.same(f'load {i}', neg(mul(num(MIRROR[i]), q[i])), r[i])
        p, r = particular(o, var('x'), phi, True), particular(o, var('x1'), neg(phi), True)
        for i in range(6):
            self.same(f'supported particular {i}', mul(num(MIRROR[i]), p[i]), r[i])
        z = W.arr('z', (6, 1))
        y = mirrored(z)
        z0 = var('z0')
        for n, s in PARITY.items():
            a = (z0,) if n in ('u', 'du') else ()
            self.same(f'field {n}', F(o, y, n, *a)(ZERO), mul(num(s), F(o, z, n, *a)(ZERO)))
        for n in ('sig', 'tau'):
            self.same(f'energy release rate {n}', tm.ipow(F(o, y, n)(ZERO), 2), tm.ipow(F(o, z, n)(ZERO), 2))
        v = W.arr('y', (6, 1))
        for n, e in (('sig', 'eps'), ('tau', 'gamma')):
            self.same(f'crack work {n}', mul(F(o, y, n)(ZERO), F(o, mirrored(v), e)(ZERO)), mul(F(o, z, n)(ZERO), F(o, v, e)(ZERO)))


def mirrored(z):
    g = z.snap()
    return mkarr(z.shape, lambda idx: mul(num(MIRROR[int(idx[0].args[0])]), L_(g(idx))))


@contract
class MirrorConditions(_Lemma):
    """outer conditions (rows and required values) at mirrored ends and transition conditions with their load jumps are
    those of the mirrored system up to a common sign per equation"""
    name = 'lemma: mirrored end and transition conditions'
    relies = ('SolutionMixin.assemble_and_solve', 'SolutionMixin.assemble_and_solve of vertical PSTs', 'SolutionMixin.bc', 'SolutionMixin.eqs',
              'weac.tools:calc_vertical_bc_center_of_gravity')
    fn = 'SolutionMixin.assemble_and_solve'
    props = ('C24',)
    cases = tuple({'system': s, 'mode': m} for s in SIDES for m in ('ABC' if s in PST else 'A'))

    def prove(self, W, system, mode):
        I = self.I
        o, m = W.model(system=system, mode=mode), W.model(system=SIDES[system], mode=mode)
        phi = L_(at(o, 'phi'))
        m.attrs['phi'] = conc(neg(phi))
        z = W.arr('z', (6, 1))
        y = mirrored(z)
        for k in (True, False):
            for pos, op in (('l', 'r'), ('r', 'l')):
                if system in PST and mode in 'BC' and not k and pos == ('l' if system.endswith('-') else 'r'):
                    continue                    # the uncut end rests on the weak layer
                if system in SKI and not k:
                    continue
                A, B = bcrows(I, o, z, k, pos), bcrows(I, m, y, k, op)
                zp = lambda o_, f, x: (lambda: mat([[v] for v in particular(o_, var(x), f, True)]))
                wf = lambda I_, o_, f: explicit_wedge(o_, f)
                a, b = endloads(I, o, phi, k, pos, zp(o, phi, 'x'), wf), endloads(I, m, neg(phi), k, op, zp(m, neg(phi), 'x1'), wf)
                sg = (-1, 1, -1) if system in SKI else (1, 1, -1 if A is None or not (mode in 'BC' and not k) else 1)
                for i in range(3):
                    self.same(f'{pos}{k} row {i}', mul(num(sg[i]), A[i](ZERO)), B[i](ZERO))
                    self.same(f'{pos}{k} value {i}', mul(num(sg[i]), a[i]), b[i])
        zl, zr = z, W.arr('zr', (6, 1))
        mass = W.pos('m', 10, 90)
        Fn, Ft = skier(o, mass, phi)
        Gn, Gt = skier(m, mass, neg(phi))
        t = lambda o_, l, r: [add(a(ZERO), b(ZERO)) for a, b in zip(transition(o_, l, 1), transition(o_, r, -1))]
        T_, U = t(o, zl, zr), t(m, mirrored(zr), mirrored(zl))
        J, G = jumps(o, Fn, Ft), jumps(m, Gn, Gt)
        for i, (n, s) in enumerate((('u', -1), ('w', 1), ('psi', -1), ('N', 1), ('M', 1), ('V', -1))):
            self.same(f'transition {n}', mul(num(-s), T_[i]), U[i])
            self.same(f'load at transition {n}', mul(num(-s), J[i]), G[i])


def explicit_wedge(o, phi):
    s = at(o, 'slab')
    x, z, m = wedge(s, total(thick(s), s.shape[0]), phi)
    p, G = deg(phi), mul(L_(at(o, 'g')), m)
    c, s = fn('cos', p), fn('sin', p)
    return [neg(mul(G, s)), neg(mul(G, add(mul(x, c), mul(z, s)))), mul(G, c)]


@contract
class MirrorSegments(_Lemma):
    """segment lists of a mirrored PST are the reversed lists, and its touchdown stage and length are the same"""
    name = 'lemma: mirrored segment lists and touchdown'
    relies = ('SolutionMixin.calc_segments', 'SlabContactMixin.calc_a1 (first contact)', 'SlabContactMixin.calc_a2 (full contact)',
              'SlabContactMixin.calc_lC (stage C)')
    fn = 'SolutionMixin.calc_segments'
    props = ('C24',)
    assumes = ('scipy.optimize.brentq returns the same root for the same function and bracket',)
    cases = tuple({'system': s, 'touchdown': t} for s in ('pst-', 'vpst-', 'skier') for t in ((True, False) if s == 'pst-' else (False,)))

    def prove(self, W, system, touchdown):
        I = self.I
        kw = {n: W.real(n + '1', 10, 900) for n in ('L', 'a', 'm', 'cf', 'ratio')}
        phi = W.real('phi1', -60, 60)
        # settlement for contact and collapse height are the same on the mirrored slope, so are the roots found
        p, q = W.model(system=system), W.model(system=SIDES[system])
        set_column(p, {'phi': phi, **kw})
        set_column(q, {'phi': conc(neg(phi)), **kw})
        k = [var(n) for n in ('x', 'kR', 'kN', 'kr')]
        for full in (True, False):
            for n, a, b in zip(('numerator', 'denominator'), overhang(p, *k, full), overhang(q, *k, full)):
                self.same(f'settlement {n} {full}', a, b)
        self.same('collapse height', L_(at(p, 'tc')), L_(at(q, 'tc')))
        for u in (UseA1, UseA2, UseLC):
            I.assume(eq(u.value(p), u.value(q)))

        def run():
            o, m = W.model(system=system, touchdown=touchdown), W.model(system=SIDES[system], touchdown=touchdown)
            c = REG['SolutionMixin.calc_segments']
            return o, c.spec(I, {'self': o, 'phi': phi, **kw}), m, c.spec(I, {'self': m, 'phi': conc(neg(phi)), **kw})

        cnt = [0]

        def finish(out, pc, facts):
            st, r = out
            if st == 'raise':
                raise r
            o, a, m, b = r
            self.facts = list(I.facts)
            t = f'path{cnt[0]} '
            cnt[0] += 1
            for k in ('td', 'tc', 'a', 'L', 'ratio'):
                self.same(t + k, L_(at(o, k)), L_(at(m, k)))
            self.obs.append(Ob(f'{self.name}.{t}mode', 'proved' if strof(at(o, 'mode')) == strof(at(m, 'mode')) else 'unknown'))
            for k, v in a['both'].items():
                n = int(v.shape[0])
                for i in range(n):
                    self.same(f'{t}{k} {i}', L_(v.at(num(i))), L_(b['both'][k].at(num(n - 1 - i))))
        I.explore(run, finish)
