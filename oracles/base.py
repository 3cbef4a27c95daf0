"""Replay-side machinery: scenario generation, an independent reference beam and comparison helpers.
Everything here drives the real code of /repo (imported as package weac) through its public interface."""
import copy
import math
import os
import sys
import warnings
import contextlib
import io

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
np.seterr(all='ignore')
import matplotlib
matplotlib.use('Agg')
import weac  # noqa: E402
from weac.layered import Layered  # noqa: E402
from weac.inverse import Inverse  # noqa: E402
from weac import tools  # noqa: E402

assert os.path.realpath(weac.__file__).startswith(os.path.realpath(REPO)), weac.__file__


class Bad(Exception):
    """the property fails on this input"""


REG = {}


def oracle(prop, name=None, n=20, nt=None):
    """register a pair gen(rng, k) -> case (JSON), run(case) raising Bad"""
    def deco(cls):
        cls.prop, cls.oname = prop, name or cls.__name__
        cls.n, cls.nt = n, nt or 6*n
        REG.setdefault(prop, []).append(cls)
        return cls
    return deco


# ------------------------------------------------------------------ comparison
def arr(x):
    return np.asarray(x, dtype=float)


def close(what, got, want, rtol=1e-9, scale=None, atol=0.0):
    g, w = arr(got), arr(want)
    if g.shape != w.shape:
        raise Bad(f'{what}: shape {g.shape}, expected {w.shape}')
    s = np.maximum(np.abs(g), np.abs(w)) if scale is None else np.abs(arr(scale))*np.ones(w.shape)
    gn, wn = np.isnan(g), np.isnan(w)
    if (gn != wn).any():
        raise Bad(f'{what}: NaN pattern differs: got {short(g)}, expected {short(w)}')
    with np.errstate(all='ignore'):
        d = np.abs(g - w)
        inf = np.isinf(g) | np.isinf(w)
        bad = (d > rtol*s + atol) & ~gn & ~inf
        bad |= inf & (g != w)
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(bad, d, -1)), d.shape) if d.shape else ()
        raise Bad(f'{what}{list(map(int, i)) if i else ""}: {g[i]!r}, expected {w[i]!r}')


def same(what, got, want):
    """exact equality (NaN equal to NaN)"""
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Bad(f'{what}: shape {g.shape}, expected {w.shape}')
    ok = (g == w)
    if g.dtype.kind in 'fc' and w.dtype.kind in 'fc':
        ok = ok | (np.isnan(g) & np.isnan(w))
    if not np.all(ok):
        raise Bad(f'{what}: {short(g)}, expected {short(w)}')


def true(what, c):
    if not bool(c):
        raise Bad(what)


def short(a):
    s = np.array2string(np.asarray(a), threshold=12, precision=8)
    return s if len(s) < 300 else s[:300] + '...'


def raises(what, exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return
    except Exception as e:
        raise Bad(f'{what}: raised {type(e).__name__} ({e}), expected {exc.__name__}')
    raise Bad(f'{what}: accepted, expected {exc.__name__}')


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


# ------------------------------------------------------------------ scenarios
PROFILES = ['a', 'b', 'c', 'd', 'e', 'f', 'h', 'soft', 'medium', 'hard', 'comp']
DBROWS = {'soft': (180., 120., 5.), 'medium': (270., 120., 30.), 'hard': (350., 120., 93.8)}
DB = {'a': 'hms', 'b': 'smh', 'c': 'hsh', 'd': 'shs', 'e': 'hss', 'f': 'ssh', 'h': 'mmm',
      'soft': 'sss', 'medium': 'mmm', 'hard': 'hhh'}
SYSTEMS = ['pst-', '-pst', 'vpst-', '-vpst', 'skier', 'skiers']


def rnd(rng, lo, hi, nd=3):
    return round(float(rng.uniform(lo, hi)), nd)


def glayers(rng, kmax=6):
    r = rng.random()
    if r < .2:
        p = str(rng.choice(PROFILES))
        return [p, p.upper(), 'profile ' + p, p.capitalize()][int(rng.integers(4))]
    n = int(rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6][:3 + kmax]))
    if rng.random() < .25:      # integers
        return [[int(rng.integers(60, 500)), int(rng.integers(10, 200))] for _ in range(n)]
    rows = [[rnd(rng, 60, 500, 2), rnd(rng, 8, 250, 2)] for _ in range(n)]
    if n > 1 and rng.random() < .3:    # repeated materials and thicknesses
        j = int(rng.integers(1, n))
        rows[j] = list(rows[0]) if rng.random() < .5 else [rows[0][0], rows[j][1]]
    if rng.random() < .12 and n > 1:   # thin crust
        rows[int(rng.integers(n))] = [rnd(rng, 300, 917, 1), round(float(10**rng.uniform(-1, .8)), 3)]
    if rng.random() < .08:             # fresh snow, thick slabs
        rows[0] = [rnd(rng, 25, 80, 1), rnd(rng, 50, 400, 1)]
    if rng.random() < .06:
        rows[-1] = [rows[-1][0], rnd(rng, 300, 900, 1)]
    if n > 2 and rng.random() < .3:    # symmetric
        rows = rows[:(n + 1)//2] + rows[:n//2][::-1]
    return rows


def gmodel(rng, system=None, touchdown=False, plain=False):
    """a JSON description of a model"""
    c = {'layers': glayers(rng), 'system': system or str(rng.choice(SYSTEMS)), 'touchdown': touchdown,
         't': rnd(rng, 5, 60), 'E': rnd(rng, .05, 1.5), 'nuw': rnd(rng, .05, .45),
         'C0': 6.5, 'C1': 4.4, 'nu': .25, 'p': 0.0, 'as': str(rng.choice(['list', 'array', 'tuple'])),
         'order': int(rng.integers(4))}
    if rng.random() < .5:
        c['C0'], c['C1'] = rnd(rng, 3, 10), rnd(rng, 3.5, 5)
    if rng.random() < .5:
        c['nu'] = rnd(rng, 0, .4)
    if rng.random() < .5:
        c['p'] = rnd(rng, 0, 3) if rng.random() < .8 else rnd(rng, 3, 12)
    if rng.random() < .15:
        c['t'] = rnd(rng, 60, 200)
    if rng.random() < .1:
        c['E'] = rnd(rng, 2, 20)
    return c


def gphi(rng, zero=.12):
    r = rng.random()
    if r < zero:
        return 0.0
    if r < .25:
        return float(rng.choice([-1, 1]))*rnd(rng, .5, 5)
    if r < .4:
        return float(rng.integers(-60, 61))
    return rnd(rng, -65, 65)


def rows(layers):
    """(density, thickness, E or None) per layer"""
    if isinstance(layers, str):
        k = layers.split()[-1].lower()
        if k == 'comp':
            return [(240., 200., 5.23)]
        nm = {'s': 'soft', 'm': 'medium', 'h': 'hard'}
        return [DBROWS[nm[x]] for x in DB[k]]
    return [(float(r), float(d), None) for r, d in layers]


def mklayers(c):
    L = c['layers']
    if isinstance(L, str):
        return L
    if c.get('as') == 'array':
        return np.array(L)
    if c.get('as') == 'tuple':
        return tuple(tuple(r) for r in L)
    return [list(r) for r in L]


def build(c, cls=None):
    """model object from its description, following one of several construction orders"""
    L = mklayers(c)
    k = c.get('order', 0)
    cls = cls or Layered
    bp = dict(C0=c['C0'], C1=c['C1'], nu=c['nu'])
    fp = dict(t=c['t'], E=c['E'], nu=c['nuw'])
    if k == 0:
        m = cls(system=c['system'], layers=L, touchdown=c['touchdown'])
        m.set_beam_properties(L, **bp)
        m.set_foundation_properties(update=True, **fp)
    elif k == 1:
        m = cls(system=c['system'], layers=L, touchdown=c['touchdown'])
        m.set_foundation_properties(update=True, **fp)
        m.set_beam_properties(L, update=True, **bp)
    elif k == 2:
        m = cls(system=c['system'], touchdown=c['touchdown'])
        m.set_foundation_properties(**fp)
        m.set_beam_properties(L, update=True, **bp)
    else:
        m = cls(c['system'], [[300, 100], [150, 80]], c['touchdown'])
        m.set_beam_properties(layers=L, update=True, **bp)
        m.set_foundation_properties(c['t'], c['E'], c['nuw'], True)
    if c['p']:
        m.set_surface_load(c['p'])
    return m


# ------------------------------------------------------------------ reference
class Ref:
    """closed-form reference of slab, weak layer, loads and governing system"""
    def __init__(self, c, g=9810., lski=1000.):
        R = rows(c['layers'])
        self.n = len(R)
        self.rho = np.array([r[0] for r in R])
        self.d = np.array([r[1] for r in R])
        self.E = np.array([r[2] if r[2] is not None else c['C0']*1e3*(r[0]/917.)**c['C1'] for r in R])
        nu = c['nu']
        self.nu = np.full(self.n, nu)
        self.G = self.E/(2*(1 + nu))
        self.h = float(self.d.sum())
        self.zi = np.concatenate([[0], np.cumsum(self.d)]) - self.h/2
        self.zm = (self.zi[1:] + self.zi[:-1])/2
        self.zs = float((self.rho*self.d*self.zm).sum()/(self.rho*self.d).sum())
        Ep = self.E/(1 - nu**2)
        self.A = float((Ep*self.d).sum())
        self.B = float((Ep*self.d*self.zm).sum())
        self.D = float((Ep*(self.d*self.zm**2 + self.d**3/12)).sum())
        self.kA = float(5/6*(self.G*self.d).sum())
        self.t = c['t']
        self.kn = c['E']/(1 - c['nuw']**2)/c['t']
        self.kt = c['E']/(2*(1 + c['nuw']))/c['t']
        self.p = c['p']
        self.g, self.lski = g, lski
        self.q = float((self.rho*self.d).sum())*1e-12*g

    def loads(self, phi):
        a = math.radians(phi)
        return self.q*math.cos(a), -self.q*math.sin(a), self.p*math.cos(a), -self.p*math.sin(a)

    def system(self, phi, bed=True, kn=None, kt=None, weight=True):
        """K, q of z' = K z + q from equilibrium, z = (u, u', w, w', psi, psi')"""
        kn = (self.kn if kn is None else kn) if bed else 0.
        kt = (self.kt if kt is None else kt) if bed else 0.
        qn, qt, pn, pt = self.loads(phi) if weight else (0, 0, 0, 0)
        h, t = self.h, self.t
        # affine forms in (z, 1): 7 columns
        e = np.eye(7)
        u, du, w, dw, ps, dps, one = e
        tau = kt*(u + h/2*ps - t/2*dw)
        V = self.kA*(dw + ps)
        rN = tau - (qt + pt)*one
        rV = kn*w - (qn + pn)*one
        rM = V + tau*(h + t)/2 + pt*h/2*one - qt*self.zs*one
        inv = np.linalg.inv(np.array([[self.A, self.B], [self.B, self.D]]))
        ddu = inv[0, 0]*rN + inv[0, 1]*rM
        ddp = inv[1, 0]*rN + inv[1, 1]*rM
        ddw = rV/self.kA - dps
        F = np.array([du, ddu, dw, ddw, dps, ddp])
        return F[:, :6], F[:, 6:]

    def forces(self, Z):
        return (self.A*Z[1] + self.B*Z[5], self.B*Z[1] + self.D*Z[5], self.kA*(Z[3] + Z[4]))

    def sig(self, Z):
        return -self.kn*Z[2]

    def tau(self, Z):
        return self.kt*(Z[0] + self.h/2*Z[4] - self.t/2*Z[3])

    def scales(self):
        """typical magnitudes of z rows for scaled comparisons"""
        return np.array([1, 1e-2, 1, 1e-2, 1e-2, 1e-4])

    def spring(self, L, dof, ratio=1.0):
        """substitute stiffness of a supported beam of length L loaded at its left end (unit M or V)"""
        K, _ = self.system(0, kn=self.kn*ratio, kt=self.kt*ratio, weight=False)
        lam, ev = np.linalg.eig(K)
        x0 = np.exp(np.where(lam.real > 0, -lam*L, 0))
        x1 = np.exp(np.where(lam.real > 0, 0, lam*L))
        z0, z1 = ev*x0, ev*x1
        rowsM = np.vstack([np.array(self.forces(z0)), np.array(self.forces(z1))])
        rhs = np.zeros(6, complex)
        rhs[{'rot': 1, 'trans': 2}[dof]] = 1
        s = np.abs(rowsM).max(axis=1)
        C = np.linalg.solve(rowsM/s[:, None], rhs/s)
        z = (z0 @ C).real
        return abs(1/z[4]) if dof == 'rot' else abs(1/z[2])


def scaleflow(E, z):
    return np.abs(E) @ np.abs(z)


def gC(rng, ns=1):
    s = np.array([1, 1, 1, 1, 1, 1.])
    return (rng.normal(size=(6, ns))*s[:, None]*10.0**rng.uniform(-2, 2)).tolist()


def gsegs(rng, system, nmax=5, first=None):
    """random segment lists for a system"""
    n = int(rng.integers(1 if system not in ('skier', 'skiers') else 2, nmax + 1))
    ki = [bool(rng.random() < .6) for _ in range(n)]
    li = [rnd(rng, 50, 900) for _ in range(n)]
    if system in ('skier', 'skiers'):
        ki[0] = ki[-1] = True
        li[0], li[-1] = rnd(rng, 2000, 12000), rnd(rng, 2000, 12000)
    if not any(ki):
        ki[int(rng.integers(n))] = True
    for j in range(n):
        if ki[j]:
            li[j] = rnd(rng, 400, 4000) if li[j] < 2000 else li[j]
        if rng.random() < .06 and n > 2 and 0 < j < n - 1:
            li[j] = 0.0
    if not any(k and l > 0 for k, l in zip(ki, li)):     # some support of positive length
        j = int(rng.integers(n))
        ki[j], li[j] = True, rnd(rng, 400, 4000)
    mi = [float(rng.choice([0, 0, 80, rnd(rng, 30, 120)])) for _ in range(n - 1)]
    return {'li': li, 'ki': ki, 'mi': mi}


def npsegs(s):
    return {k: np.array(v) for k, v in s.items()}


# ------------------------------------------------------------------ state
def snap(m):
    return copy.deepcopy(m.__dict__)


def eqv(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return False
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eqv(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    if type(a) is not type(b) and (isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str)):
        return False
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return a is b


def changed(m, before):
    """names of known attributes whose value changed (attributes added later are not compared)"""
    return sorted(k for k in before if k not in m.__dict__ or not eqv(m.__dict__[k], before[k]))
