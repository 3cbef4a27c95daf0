"""Contracts of the solution basis, particular integrals and solution vector (C05, C06, C07, C12)."""
from .contracts_state import *


# ----------------------------------------------------------------- spec helpers
def real_col(o, i, c, x, l):
    """column of a real eigenpair, shifted for stability"""
    w, v, s = at(o, 'ewR'), at(o, 'evR'), at(o, 'sR')
    return mul(L_(v.at(i, c)), fn('exp', mul(L_(w.at(c)), add(x, mul(l, L_(s.at(c)))))))


def cplx_col(o, i, c, x, l, part):
    """real or imaginary part of evC exp(ewC x) times exp(Re(ewC) l sC)"""
    w, v, s = at(o, 'ewC').at(c), at(o, 'evC').at(i, c), L_(at(o, 'sC').at(c))
    e = fn('exp', mul(w.re, add(x, mul(l, s))))
    co, si = fn('cos', mul(w.im, x)), fn('sin', mul(w.im, x))
    if part == 're':
        return mul(e, sub(mul(v.re, co), mul(v.im, si)))
    return mul(e, add(mul(v.im, co), mul(v.re, si)))


def nRC(o):
    return lift(at(o, 'ewR').shape[0]), lift(at(o, 'ewC').shape[0])


def bedded(o, i, c, x, l):
    """entry (i, c) of the bedded complementary solution"""
    nR, nC = nRC(o)
    i, c = lift(i), lift(c)
    if nR.op == 'num' and nC.op == 'num' and c.op == 'num':
        k, r, q = (int(v.args[0]) for v in (c, nR, nC))
        return real_col(o, i, c, x, l) if k < r else cplx_col(o, i, num(k - r), x, l, 're') if k < r + q else \
            cplx_col(o, i, num(k - r - q), x, l, 'im')
    return ite(lt(c, nR), real_col(o, i, c, x, l), ite(lt(c, add(nR, nC)), cplx_col(o, i, sub(c, nR), x, l, 're'),
                                                       cplx_col(o, i, sub(c, add(nR, nC)), x, l, 'im')))


def free_cols(o, x):
    """six polynomial solutions of the beam without support: deflection 1, x, x^2, x^3 with the
    rotation, elongation and shear they need, and two rigid/uniform axial ones"""
    A, B, D, kA, K0 = stiff(o)
    p = lambda n: tm.ipow(x, n) if n else ONE
    c = [[ZERO]*6 for _ in range(6)]            # columns
    c[0][2] = ONE
    c[1][2], c[1][3], c[1][4] = x, ONE, num(-1)
    c[2][2], c[2][3], c[2][4], c[2][5] = p(2), mul(num(2), x), mul(num(-2), x), num(-2)
    # w = x^3: psi'' = -6, u'' = -B/A psi'' = 6B/A, w' + psi = -(det/A)/kA * 6 = 6 K0/(A kA)
    c[3][2], c[3][3] = p(3), mul(num(3), p(2))
    c[3][0], c[3][1] = mul(num(3), div(B, A), p(2)), mul(num(6), div(B, A), x)
    c[3][4] = add(mul(num(-3), p(2)), div(mul(num(6), K0), mul(A, kA)))
    c[3][5] = mul(num(-6), x)
    c[4][0] = ONE
    c[5][0], c[5][1] = x, ONE
    return c


def particular(o, x, phi, bed):
    A, B, D, kA, K0 = stiff(o)
    qn, qt, pn, pt = loads(o, phi)
    h, t, zs = (L_(at(o, k)) for k in ('h', 't', 'zs'))
    kn, kt = L_(at(o, 'kn')), L_(at(o, 'kt'))
    if bed:
        # constant state: kn w = qn+pn, tau = qt+pt, kA psi = -M-balance
        w = div(add(qn, pn), kn)
        mom = add(mul(H2, add(h, t), add(qt, pt)), mul(H2, h, pt), neg(mul(zs, qt)))
        psi = neg(div(mom, kA))
        u = sub(div(add(qt, pt), kt), mul(H2, h, psi))
        return [u, ZERO, w, ZERO, psi, ZERO]
    q, n = add(qn, pn), add(qt, pt)
    e = neg(mul(div(A, K0), q))                 # bending load factor A (qn+pn)/(A D - B^2)
    w = mul(num(Fraction(1, 24)), e, tm.ipow(x, 4))
    dw = mul(num(Fraction(1, 6)), e, tm.ipow(x, 3))
    u = sub(mul(num(Fraction(-1, 2)), div(n, A), tm.ipow(x, 2)), mul(num(Fraction(1, 6)), div(mul(B, q), K0), tm.ipow(x, 3)))
    du = sub(neg(mul(div(n, A), x)), mul(H2, div(mul(B, q), K0), tm.ipow(x, 2)))
    gam = div(sub(sub(mul(zs, qt), mul(div(B, A), n)), add(mul(H2, h, pt), mul(q, x))), kA)     # w' + psi
    psi = sub(gam, dw)
    dpsi = sub(neg(div(q, kA)), mul(H2, e, tm.ipow(x, 2)))
    return [u, du, w, dw, psi, dpsi]


@contract
class Zh(Contract):
    fn = 'Eigensystem.zh'
    props = ('C05', 'C06', 'C07')
    cases = tuple({'bed': b, 'nR': r, 'nC': c} for b, r, c in ((True, 2, 2), (True, 0, 3), (True, 6, 0), (True, 4, 1), (False, 2, 2)))

    def setup(self, W, bed, nR, nC):
        return [W.model(nR=nR, nC=nC), W.real('x', 0, 50), W.pos('l', 50, 90), bed], {}

    def spec(self, I, a):
        o, x, l = a['self'], L_(a['x']), L_(a['l'])
        if a['bed']:
            nR, nC = nRC(o)
            return mkarr((6, dim(add(nR, nC, nC))), lambda idx: bedded(o, idx[0], idx[1], x, l))
        c = free_cols(o, x)
        return mat([[c[q][i] for q in range(6)] for i in range(6)])


@contract
class Zp(Contract):
    fn = 'Eigensystem.zp'
    props = ('C05', 'C06')
    cases = ({'bed': True}, {'bed': False}, {'bed': None})

    def setup(self, W, bed):
        return [W.model(), W.real('x', 0, 50), W.real('phi0', -60, 60)], {} if bed is None else {'bed': bed}

    def spec(self, I, a):
        return mat([[v] for v in particular(a['self'], L_(a['x']), a['phi'], a['bed'])])


def zcol(I, o, C, x, l, phi, bed):
    """entries of zh(x) C + zp(x)"""
    x, l = L_(x), L_(l)
    p = particular(o, x, phi, bed)
    g = C.snap()
    if bed:
        nR, nC = nRC(o)
        h = lambda i, c: bedded(o, i, c, x, l)
        n = add(nR, nC, nC)
    else:
        F = free_cols(o, x)
        n = num(6)

        def h(i, c):
            i, c = int(lift(i).args[0]), int(lift(c).args[0])
            return F[c][i]
    return p, h, n, g


@contract
class ZSolution(Contract):
    fn = 'Eigensystem.z'
    props = ('C05', 'C06', 'C12')
    cases = tuple({'bed': b, 'x': k} for b in (True, False) for k in ('scalar', 'list', 'array', 'empty'))

    def setup(self, W, bed, x):
        xs = {'scalar': lambda: W.real('x', 0, 50), 'list': lambda: [W.real(f'x{i}', 0, 50) for i in range(3)],
              'array': lambda: W.arr('xs', (W.int('nx', 1, 4),), lo=0, hi=50), 'empty': lambda: []}[x]()
        return [W.model(), xs, W.arr('C', (6, 1)), W.pos('l', 50, 90), W.real('phi0', -60, 60), bed], {}

    def spec(self, I, a):
        o, x = a['self'], a['x']
        C = a['C']

        def col(xk):
            p, h, n, g = zcol(I, o, C, xk, a['l'], a['phi'], a['bed'])
            if n.op != 'num':
                raise Unsupported('symbolic basis size')
            return [add(*[mul(h(num(i), num(c)), lift(g((num(c), ZERO)))) for c in range(int(n.args[0]))], p[i]) for i in range(6)]
        if isinstance(x, (list, tuple, Arr)) and not (isinstance(x, Arr) and x.ndim == 0):
            from .npmod import asarr
            if isinstance(x, (list, tuple)) and not x:
                raise PyRaise(ValueError, ())
            s = asarr(I, x) if not isinstance(x, Arr) else x
            gx = s.snap()
            memo = {}

            def cell(idx):
                if idx[1].id not in memo:
                    memo[idx[1].id] = col(conc(lift(gx((idx[1],)))))
                v = memo[idx[1].id]
                if idx[0].op == 'num':
                    return v[int(idx[0].args[0])]
                r = v[5]
                for q in range(4, -1, -1):
                    r = ite(eq(idx[0], num(q)), v[q], r)
                return r
            return mkarr((6, s.shape[0]), cell)
        return mat([[v] for v in col(x)])
