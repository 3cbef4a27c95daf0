"""Contract of the assembly and solution of an arbitrary number of segments (C08)."""
from .contracts_contact import *


def zh_any(x, l, bed):
    """complementary solution as an unknown 6x6 function of position, length and support"""
    return lambda i, c: sel('ZH', lift(i), lift(c), L_(x), L_(l), b2i(lift(conc(bed))))


def zp_any(x, phi, bed):
    return lambda i: sel('ZP', lift(i), L_(x), L_(phi), b2i(lift(conc(bed))))


def wedge(s, H, phi):
    """horizontal and vertical centroid and mass of the part between the vertical and the slope-normal face: at height b
    above the slab's bottom it is b tan(phi) wide; integrals of b and b^2 over each layer"""
    d, rho = thick(s), lambda k: mul(num(Fraction(1, 10**12)), S(s, k, 0))
    top = lambda i: sub(H, prefix(d, i))
    bot = lambda i: sub(top(i), d(i))
    f = lambda p: total(lambda i: mul(num(Fraction(1, p)), rho(i), sub(tm.ipow(top(i), p), tm.ipow(bot(i), p))), s.shape[0])
    m1, m2 = f(2), f(3)
    tan = fn('tan', deg(phi))
    return mul(H2, tan, div(m2, m1)), sub(mul(H2, H), div(m2, m1)), mul(tan, m1)


def wedge_key(s, phi):
    return [L_(phi), lift(s.shape[0]), lift(conc(s.at(var('probe', 'i'), var('probec', 'i'))))]


@contract
class Wedge(Contract):
    fn = 'weac.tools:calc_vertical_bc_center_of_gravity'
    props = ('C20',)

    def setup(self, W):
        return [W.slab('layers', W.int('nL', 1, 4))[0], W.real('phi', -80, 80)], {}

    def spec(self, I, a):
        s = a['slab']
        if I.decide(eq(L_(a['phi']), ZERO)):
            return (ZERO, AnyValue(), ZERO)         # nothing is cut off: its height is immaterial
        return tuple(conc(v) for v in wedge(s, total(thick(s), s.shape[0]), a['phi']))

    def summary(self, I, a):
        s = a['slab']
        if I.decide(eq(L_(a['phi']), ZERO)):
            return (ZERO, I.fresh('zflat', 'r'), ZERO)
        ts = wedge_key(s, a['phi'])
        return tuple(sel('wedge.' + k, *ts) for k in ('x', 'z', 'm'))


def wedge_forces(I, o, phi):
    """section forces statically equivalent to the wedge's weight at its centroid"""
    if I.decide(eq(L_(phi), ZERO)):
        return [ZERO]*3
    x, z, m = (sel('wedge.' + k, *wedge_key(at(o, 'slab'), phi)) for k in ('x', 'z', 'm'))
    p, G = deg(phi), mul(L_(at(o, 'g')), m)
    c, s = fn('cos', p), fn('sin', p)
    return [neg(mul(G, s)), neg(mul(G, add(mul(x, c), mul(z, s)))), mul(G, c)]


def skier(o, m, phi):
    q = mul(num(Fraction(1, 1000)), L_(m), L_(at(o, 'g')), tm.ipow(L_(at(o, 'lski')), -1))
    p = deg(phi)
    return mul(q, fn('cos', p)), neg(mul(q, fn('sin', p)))


class Abstract:
    """stand-ins for zh and zp that know nothing but their arguments; a contract proved with them holds for the real ones"""
    @staticmethod
    def zh(I, a):
        f = zh_any(a['x'], a['l'], a['bed'])
        return mkarr((6, 6), lambda idx: f(*idx))

    @staticmethod
    def zp(I, a):
        f = zp_any(a['x'], a['phi'], a['bed'])
        return mkarr((6, 1), lambda idx: f(idx[0]))


def jumps(o, Fn, Ft):
    """jumps of u, w, psi, N, M, V at a point load on the slab's surface"""
    if strof(at(o, 'system')) in SUB:
        return [ZERO]*6
    return [ZERO, ZERO, ZERO, Ft, neg(mul(H2, Ft, L_(at(o, 'h')))), Fn]


def endloads(I, o, phi, k, pos, zp, wedge=None):
    """required values of an outer end's conditions; zp: particular solution there"""
    s, mode = strof(at(o, 'system')), strof(at(o, 'mode'))
    if s in SUB:
        return ([ZERO, ONE, ZERO] if s == 'rot' else [ZERO, ZERO, ONE]) if pos == 'l' else [ZERO]*3
    if s in SKI:
        return [q(ZERO) for q in bcrows(I, o, zp(), True, pos)]
    if s in VPST:
        return [lift(v) for v in (wedge or wedge_forces)(I, o, phi)]
    want = [ZERO]*3
    if mode in 'BC' and not k:
        want[2] = L_(at(o, 'tc'))
    if mode == 'C' and not k:
        qn, qt, pn, pt = loads(o, at(o, 'phi'))
        Nt = mul(add(qt, pt), sub(L_(at(o, 'a')), L_(at(o, 'td'))))
        want[0] = Nt if pos == 'r' else neg(Nt)
    return want


@contract
class Assemble(Contract):
    """rows of the linear system handed to numpy.linalg.solve, for every number of segments"""
    fn = 'SolutionMixin.assemble_and_solve'
    props = ('C08',)
    cases = tuple({'system': s, 'mode': m, 'n': n} for n in ('one', 'many') for s in PST for m in 'ABC') + tuple(
        {'system': s, 'mode': 'A', 'n': n} for n in ('one', 'many') for s in SKI + SUB)
    assumes = ('numpy.linalg.solve returns the solution of the system it is given (non-singular)',)
    cost = 20
    parts = 'cases'

    def inputs(self, W, n):
        I = W.I
        if n == 'one':
            N = ONE
            nd = 1
        else:
            N = W.int('nseg', 2, 5)
            nd = N
        nm = conc(canon(sub(N, ONE)))
        li = W.arr('li', (nd,), lo=0, hi=9000, pos='0+')
        mi = W.arr('mi', (nm,), lo=0, hi=90, pos='0+')
        ki = W.arr('ki', (nd,), 'b')
        return N, li, mi, ki

    def check(self, I, W, P, run, case):
        s, mode, n = case['system'], case['mode'], case['n']
        o = W.model(system=s, mode=mode, touchdown=s in PST)
        N, li, mi, ki = self.inputs(W, n)
        phi = W.real('phi', -60, 60)
        I.summaries['Eigensystem.zh'] = Abstract.zh
        I.summaries['Eigensystem.zp'] = Abstract.zp
        tag = f'{self.name}{{{s},{mode},{n}}}'
        obs = []

        def thunk():
            I.events.clear()
            try:
                return ('ok', I.callfunc(lookup(I, self.fn), [o], {'phi': phi, 'li': li, 'mi': mi, 'ki': ki}, top=True))
            except PyRaise as e:
                return ('raise', e)

        cnt = [0]

        def finish(out, pc, facts):
            t = f'{tag}/path{cnt[0]}'
            cnt[0] += 1
            r = out[1]
            f0 = list(I.facts)
            K = lambda i: lift(conc(ki.at(i)))
            k = I.fresh('k')
            none = not_(tm.anyT(subst(K(k), {}), k, ZERO, N))
            ends = and_(K(ZERO), K(sub(N, ONE)))
            if r[0] == 'raise':
                if r[1].cls is not ValueError:
                    obs.append(Ob(t + '.raises', 'unknown', '', 0, r[1].cls.__name__))
                    return
                bad = none if s not in SKI else or_(none, not_(ends))
                obs.append(P.holds(t + '.rejected only when invalid', bad, f0))
                return
            obs.append(P.holds(t + '.accepted only with support', not_(none), f0))
            if s in SKI:
                obs.append(P.holds(t + '.accepted only with supported ends', ends, f0))
            evs = [e for e in I.events if e[0] == 'solve']
            if len(evs) != 1:
                raise Unsupported('not one linear system')
            A, b, name = evs[0][1:]
            self.system(I, P, t, o, li, mi, ki, phi, A, b, N, f0, obs)
            self.constants(I, P, t, r[1], name, N, f0, obs)
        I.explore(thunk, finish)
        return obs

    def constants(self, I, P, t, C, name, N, f0, obs):
        j = ZERO if N is ONE else I.fresh('j')
        if not isinstance(C, Arr) or C.ndim != 2:
            raise Unsupported('shape of the constants')
        obs.append(P.eq(t + '.rows', lift(C.shape[0]), num(6), f0))
        obs.append(P.eq(t + '.columns', lift(C.shape[1]), N, f0))
        f = f0 + [canonb(le(ZERO, j)), canonb(lt(j, N))]
        for i in range(6):
            obs.append(P.eq(f'{t}.constant {i}', lift(conc(C.at(num(i), j))), sel(name, add(mul(num(6), j), num(i)), ZERO), f))

    def system(self, I, P, t, o, li, mi, ki, phi, A, b, N, f0, obs):
        """rows 6R+s: outer conditions at both ends, six transition conditions between segments"""
        n = 2 if N is ONE else None
        NN = num(2) if N is ONE else N
        obs.append(P.eq(t + '.unknowns', lift(A.shape[1]), mul(num(6), NN), f0))
        obs.append(P.eq(t + '.equations', lift(A.shape[0]), mul(num(6), NN), f0))
        last = canon(sub(NN, ONE))

        def seg(i):
            """length and support of segment i (the zero-length partner of a single segment is supported)"""
            if N is ONE:
                return (lift(conc(li.at(ZERO))), lift(conc(ki.at(ZERO)))) if i is ZERO else (ZERO, TRUE)
            return lift(conc(li.at(i))), lift(conc(ki.at(i)))

        def fields(i, end, col):
            l, k = seg(i)
            x = l if end else ZERO
            f, p = zh_any(x, l, k), zp_any(x, phi, k)
            # columns: six constants, then the particular solution
            z = mkarr((6, 7), lambda idx: p(idx[0]) if idx[1] is num(6) else f(idx[0], idx[1]))
            return z

        def outer(i, pos):
            """rows of an outer end with required values"""
            l, k = seg(i)
            z = fields(i, pos == 'r', None)
            kk = I.truth(k)
            rows = bcrows(I, o, z, kk, pos)
            x = l if pos == 'r' else ZERO
            want = endloads(I, o, phi, kk, pos, lambda: mkarr((6, 1), lambda idx: zp_any(x, phi, k)(idx[0])))
            return rows, want

        def emit(lab, row, entries, want, extra):
            """row: index of the equation; entries: (segment, row function of the columns)"""
            mark = len(I.facts)
            I.assume(*extra)
            f = list(I.facts)
            pw = want
            for i, g in entries:
                pw = sub(pw, g(num(6)))
                for d in range(6):
                    obs.append(P.eq(f'{lab}.coefficient {d}', lift(conc(A.at(row, add(mul(num(6), i), num(d))))), g(num(d)), f))
            obs.append(P.eq(f'{lab}.right-hand side', lift(conc(b.at(row, ZERO))), pw, f))
            Q = I.fresh('Q')
            I.assume(*[not_(eq(Q, i)) for i, _ in entries], le(ZERO, Q), lt(Q, NN))
            f = list(I.facts)
            if I.solver.check(f) != 'unsat':    # no other segment enters
                for d in range(6):
                    obs.append(P.eq(f'{lab}.other {d}', lift(conc(A.at(row, add(mul(num(6), Q), num(d))))), ZERO, f))
            del I.facts[mark:]

        mark = len(I.facts)

        def ends(pos):
            i = ZERO if pos == 'l' else last
            out = I.explore(lambda: outer(i, pos), lambda o_, pc, facts: (o_, list(facts)))
            for (st, r), fs in out:
                if st == 'raise':
                    raise r
                rows, want = r
                for q in range(3):
                    base = ZERO if pos == 'l' else canon(sub(mul(num(6), NN), num(3)))
                    emit(f'{t}.{"left" if pos == "l" else "right"} end {q}', canon(add(base, num(q))), [(i, rows[q])], want[q], fs)
        ends('l')
        ends('r')
        # transition between segments T and T+1
        R = I.fresh('R')
        two, many = eq(NN, num(2)), lt(num(2), NN)
        for lab, T0, cond in (('', ZERO, []),) if N is ONE else (
                ('only', ZERO, [two]), ('first', ZERO, [many]), ('inner', R, [lt(ZERO, R), lt(R, sub(NN, num(2)))]),
                ('last', canon(sub(NN, num(2))), [many])):
            T1 = canon(add(T0, ONE))
            m = ZERO if N is ONE else lift(conc(mi.at(T0)))
            Fn, Ft = skier(o, m, phi)
            jump = jumps(o, Fn, Ft)
            a, c = transition(o, fields(T0, True, None), 1), transition(o, fields(T1, False, None), -1)
            for q, nm in enumerate(('u', 'w', 'psi', 'N', 'M', 'V')):
                emit(f'{t}.{lab} transition {nm}', canon(add(mul(num(6), T0), num(3 + q))), [(T0, a[q]), (T1, c[q])], jump[q], cond)
        del I.facts[mark:]


@contract
class AssembleVpst(Assemble):
    """the same for vertical faces, whose ends carry the wedge's weight"""
    name = 'SolutionMixin.assemble_and_solve of vertical PSTs'
    props = ('C08', 'C20')
    inline = True
    cases = tuple({'system': s, 'mode': 'A', 'n': n} for n in ('one', 'many') for s in VPST)


@contract
class FlatLemma(Contract):
    """lemma: on level ground a vertical PST has the end conditions and end loads of the slope-normal PST"""
    name = 'lemma: vertical faces on level ground'
    fn = 'SolutionMixin.assemble_and_solve'
    props = ('C20',)
    inline, frames = True, False
    cases = tuple({'sides': s, 'pos': p} for s in zip(VPST, PST) for p in 'lr')

    def check(self, I, W, P, run, case):
        v, n = case['sides']
        o, q = W.model(system=v), W.model(system=n)
        z = W.arr('z', (6, 1))
        obs = []
        for k in (True, False):
            A, B = bcrows(I, o, z, k, case['pos']), bcrows(I, q, z, k, case['pos'])
            for i in range(3):
                obs.append(P.eq(f'{v}.{case["pos"]}.row {i}', A[i](ZERO), B[i](ZERO), list(I.facts)))
        for i, w in enumerate(wedge_forces(I, o, ZERO)):
            obs.append(P.eq(f'{v}.{case["pos"]}.end load {i}', w, ZERO, list(I.facts)))
        return obs


@contract
class Mismatch(Contract):
    """lists of inconsistent lengths are rejected"""
    name = 'SolutionMixin.assemble_and_solve of inconsistent lists'
    fn = 'SolutionMixin.assemble_and_solve'
    props = ('C08',)
    inline = True
    cases = tuple({'system': s} for s in PST + VPST + SKI + SUB)

    def setup(self, W, system):
        n, m, k = W.int('nseg', 0, 4), W.int('nm', 0, 4), W.int('nk', 0, 4)
        W.I.assume(or_(not_(eq(k, n)), not_(eq(m, sub(n, ONE)))))
        self.W = W
        return [W.model(system=system), W.real('phi', -60, 60), W.arr('li', (n,), lo=0, hi=9000, pos='0+'),
                W.arr('mi', (m,), lo=0, hi=90, pos='0+'), W.arr('ki', (k,), 'b')], {}

    def spec(self, I, a):
        raise PyRaise(ValueError, ())
