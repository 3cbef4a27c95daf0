"""Contract of the rasterised solution (C12)."""
from .contracts_energy import *


class AnySolutions(AnySolution):
    """the same for sequences of positions"""
    @staticmethod
    def z(I, a):
        x = a['x']
        if isinstance(x, (Arr, list, tuple)):
            from .npmod import asarr
            x = asarr(I, x)
            if x.ndim != 1:
                raise Unsupported('positions')
            if I.decide(eq(lift(x.shape[0]), ZERO)):
                raise PyRaise(ValueError, ())
            g = x.snap()
            return mkarr((6, x.shape[0]), lambda idx: sol_any(lift(conc(g((idx[1],)))), a['C'], a['l'], a['phi'], a['bed']).at(idx[0], ZERO))
        return AnySolution.z(I, a)


class Grid:
    """segments of positive length, in order, and their grid points"""
    def __init__(self, li, ki, num_):
        l, k = li.snap(), ki.snap()
        self.n = n = lift(li.shape[0])
        L = lambda i: lift(conc(l((lift(i),))))
        f = filter_for(lambda i: lt(ZERO, L(i)), n)
        self.seg = f.sigma
        self.count = f.count
        self.l = lambda I: L(f.sigma(I))
        self.k = lambda I: lift(conc(k((f.sigma(I),))))
        j = var('j#ras', 'i')
        self.sum = lambda g, hi: tm.sumT(g(j), j, ZERO, hi)
        self.length = self.sum(self.l, self.count)
        self.last = lambda I: eq(lift(I), sub(self.count, ONE))
        step = lambda I: fn('ceil', mul(div(self.l(I), self.length), lift(num_)))
        self.points = lambda I: add(step(I), ite(self.last(I), ONE, ZERO))
        self.steps = step            # intervals: the last segment's end point is a grid point
        self.first = lambda I: self.sum(self.points, I)
        self.start = lambda I: self.sum(self.l, I)

    def x(self, I, K):
        """local coordinate of point K of segment I"""
        return mul(self.l(I), div(K, self.steps(I)))


@contract
class Raster(Contract):
    fn = 'AnalysisMixin.rasterize_solution'
    props = ('C12',)
    abstract = True
    cases = tuple({'n': n} for n in ('many',))

    def check(self, I, W, P, run, case):
        I.summaries['Eigensystem.z'] = AnySolutions.z
        n = W.int('nseg', 1, 4)
        I.assume(le(ONE, n))
        li, ki = segments(W, n)
        C, phi, N = W.arr('C', (6, n)), W.real('phi', -60, 60), W.int('num', 1, 9)
        I.assume(le(ONE, N))
        o = W.model()
        G = Grid(li, ki, N)
        I.assume(le(ONE, G.count), lt(ZERO, G.length))
        obs, cnt = [], [0]

        def finish(out, pc, facts):
            t = f'{self.name}/path{cnt[0]}'
            cnt[0] += 1
            if out[0] == 'raise':
                raise out[1]
            r = out[1]
            self.points(I, P, t, o, G, C, phi, r, obs)
        I.explore(lambda: I.callfunc(lookup(I, self.fn), [o, C, phi, li, ki, N], {}, top=True), finish)
        return obs

    def points(self, I, P, t, o, G, C, phi, r, obs):
        x, z, b = r
        f0 = list(I.facts)
        total_ = G.first(G.count)
        for nm, v in (('x', x.shape[0]), ('z', z.shape[1]), ('xb', b.shape[0])):
            obs.append(P.eq(f'{t}.points of {nm}', lift(v), total_, f0))
        S_, K = I.fresh('S'), I.fresh('K')
        rng = [le(ZERO, S_), lt(S_, G.count), le(ZERO, K), lt(K, G.points(S_))]
        mark = len(I.facts)
        I.assume(*rng)
        f = list(I.facts)
        p = canon(add(G.first(S_), K))
        xl = G.x(S_, K)
        obs.append(P.eq(f'{t}.coordinate', lift(conc(x.at(p))), add(G.start(S_), xl), f))
        s = sol_any(xl, column(C, G.seg(S_)), G.l(S_), phi, G.k(S_))
        for i in range(6):
            obs.append(P.eq(f'{t}.solution {i}', lift(conc(z.at(num(i), p))), lift(conc(s.at(num(i), ZERO))), f))
        del I.facts[mark:]
        # what users read off the grid
        m_ = sub(G.count, ONE)
        I.assume(lt(ZERO, G.l(m_)))
        obs.append(P.eq(f'{t}.first point at 0', lift(conc(x.at(ZERO))), ZERO, list(I.facts)))
        obs.append(P.eq(f'{t}.last point at the total length', lift(conc(x.at(canon(sub(total_, ONE))))), G.length, list(I.facts)))
        del I.facts[mark:]
        I.assume(*rng, lt(ZERO, G.l(S_)), lt(K, sub(G.points(S_), ONE)), le(ONE, G.steps(S_)))
        f = list(I.facts)
        obs.append(P.eq(f'{t}.equidistant', sub(G.x(S_, add(K, ONE)), G.x(S_, K)), div(G.l(S_), G.steps(S_)), f))
        obs.append(P.holds(f'{t}.ascending', lt(ZERO, div(G.l(S_), G.steps(S_))), f))
        del I.facts[mark:]
        for nm, S, k, c, sup in (
                ('segment on the weak layer', S_, K, [G.k(S_)], True),
                ('end of a segment on the weak layer', S_, ZERO, [not_(G.k(S_)), lt(ZERO, S_), G.k(sub(S_, ONE))], True),
                ('free segment', S_, K, [not_(G.k(S_)), lt(ZERO, K)], False),
                ('first point of a free column', ZERO, ZERO, [not_(G.k(ZERO))], False),
                ('joint of free segments', S_, ZERO, [not_(G.k(S_)), lt(ZERO, S_), not_(G.k(sub(S_, ONE)))], False)):
            I.assume(le(ZERO, S), lt(S, G.count), le(ZERO, k), lt(k, G.points(S)), *c)
            p = canon(add(G.first(S), k))
            f = list(I.facts)
            got, at = lift(conc(b.at(p))), lift(conc(x.at(p))) if sup else tm.NAN
            obs.append(P.eq(f'{t}.weak layer: {nm}', got, at, f))
            del I.facts[mark:]
