"""Replay oracles C10 - C17."""
from .base import *
from .o1 import tdvalid, US, UG
from scipy.optimize import brentq

GL = np.polynomial.legendre.leggauss(12)


def solved(c, m, seg=None):
    """solve the described system; segment lists as arrays"""
    s = npsegs(seg or c['seg'])
    m.mode = 'A'
    with quiet():
        C = m.assemble_and_solve(phi=c['phi'], **s)
    return s, C


def notip(seg):
    for j in range(len(seg['mi'])):
        if seg['ki'][j] != seg['ki'][j + 1]:
            seg['mi'][j] = 0.0
    seg['li'] = [l or 100.0 for l in seg['li']]
    return seg


@oracle('C10', n=50)
class Gdif:
    def gen(rng, k):
        c = gmodel(rng, system=SYSTEMS[k % 6])
        c['phi'] = gphi(rng)
        c['seg'] = notip(gsegs(rng, c['system'], 7))
        if k % 3 == 0 and c['system'] not in ('skier', 'skiers') and len(c['seg']['ki']) > 2:
            c['seg']['ki'][0] = bool(rng.random() < .5)
            c['seg']['ki'][-1] = bool(rng.random() < .5)
            c['seg']['ki'][1] = True
        return c

    def run(c):
        m, R = build(c), Ref(c)
        s, C = solved(c, m)
        s0, C0, seg0 = snap(m), C.copy(), copy.deepcopy(s)
        li, ki = s['li'], s['ki']
        tips = [j for j in range(len(li) - 1) if ki[j] != ki[j + 1]]
        G1 = G2 = 0.0
        for n, j in enumerate(tips):
            z = arr(m.z(li[j], C[:, [j]], li[j], c['phi'], ki[j]))
            wt = 1.0
            if len(tips) > 1:
                edge = (n == 0 and not ki[0]) or (n == len(tips) - 1 and not ki[-1])
                wt = 1.0 if edge else .5
            G1 += wt*R.sig(z)[0]**2/(2*R.kn)
            G2 += wt*R.tau(z)[0]**2/(2*R.kt)
            close('Gi', m.Gi(z), [R.sig(z)[0]**2/(2*R.kn)], 1e-9)
            close('Gii', m.Gii(z), [R.tau(z)[0]**2/(2*R.kt)], 1e-6)
            for u, f in UG.items():
                close('Gi ' + u, m.Gi(z, unit=u), [f*R.sig(z)[0]**2/(2*R.kn)], 1e-9)
                close('Gii ' + u, m.Gii(z, unit=u), [f*R.tau(z)[0]**2/(2*R.kt)], 1e-6)
        want = np.array([G1 + G2, G1, G2])
        sc = max(G1 + G2, 1e-12)
        close('gdif', m.gdif(C, c['phi'], **s), want, 1e-6, scale=sc)
        for u, f in UG.items():
            g = arr(m.gdif(C, c['phi'], unit=u, **s))
            close(f'gdif {u}', g, f*want, 1e-6, scale=f*sc)
            true('non-negative', (g >= 0).all())
        for k in s:
            same(k, s[k], seg0[k])
        same('C', C, C0)
        if changed(m, s0):
            raise Bad(f'gdif changes {changed(m, s0)}')


def gcrack(rng, c):
    """segments with cracked and uncracked supports"""
    seg = gsegs(rng, c['system'], 6)
    seg['k0'] = [True]*len(seg['li'])
    if len(seg['li']) > 2 and rng.random() < .3:
        j = int(rng.integers(1, len(seg['li']) - 1))
        if any(seg['ki'][:j] + seg['ki'][j + 1:]):
            seg['ki'][j] = seg['k0'][j] = False   # already unsupported before
    return seg


@oracle('C11', n=36)
class Ginc:
    def gen(rng, k):
        c = gmodel(rng, system=SYSTEMS[k % 6])
        c['phi'] = gphi(rng)
        c['seg'] = gcrack(rng, c)
        c['lists'] = bool(rng.random() < .4)
        return c

    def run(c):
        m, R = build(c), Ref(c)
        seg = c['seg']
        m.mode = 'A'
        with quiet():
            s = npsegs(seg)
            C1 = m.assemble_and_solve(phi=c['phi'], li=s['li'], mi=s['mi'], ki=s['ki'])
            C0 = m.assemble_and_solve(phi=c['phi'], li=s['li'], mi=s['mi'], ki=s['k0'])
        arg = seg if c['lists'] else s
        keep, s0, c0, c1 = copy.deepcopy(arg), snap(m), C0.copy(), C1.copy()
        with quiet():
            G = arr(m.ginc(C0, C1, c['phi'], **arg))
        new = [j for j in range(len(seg['li'])) if seg['k0'][j] and not seg['ki'][j]]
        da = sum(seg['li'][j] for j in new)
        I1 = I2 = ab = 0.0
        for j in new:
            l = seg['li'][j]
            if l == 0:
                continue
            N = int(10 + l/40)
            for q in range(N):
                a, b = l*q/N, l*(q + 1)/N
                for x, w in zip((a + b)/2 + (b - a)/2*GL[0], (b - a)/2*GL[1]):
                    z0 = arr(m.z(x, C0[:, [j]], l, c['phi'], True))
                    z1 = arr(m.z(x, C1[:, [j]], l, c['phi'], False))
                    i1, i2 = R.kn*z0[2, 0]*z1[2, 0], R.tau(z0)[0]*R.tau(z1)[0]/R.kt
                    I1, I2, ab = I1 + w*i1, I2 + w*i2, ab + w*(abs(i1) + abs(i2))
        if not da:
            if new:                               # crack of zero length: rate undefined
                return
            close('ginc without crack advance', G, [0, 0, 0], 0, atol=1e-12)
            return
        tol = len(new)*m.tol/(2*da)
        want = np.array([I1 + I2, I1, I2])/(2*da)
        close('ginc', G, want, 2e-3, scale=ab/(2*da), atol=1e-3*tol)
        close('total is the sum of the modes', G[0], G[1] + G[2], 1e-9, scale=abs(G[1]) + abs(G[2]))
        for k in arg:
            same(k, arg[k], keep[k])
        same('C0', C0, c0)
        same('C1', C1, c1)
        if changed(m, s0):
            raise Bad(f'ginc changes {changed(m, s0)}')


@oracle('C11', 'CrackWork', n=30)
class CrackWork:
    def gen(rng, k):
        c = gmodel(rng)
        c['Z0'], c['Z1'] = gC(rng), gC(rng)
        return c

    def run(c):
        m, R = build(c), Ref(c)
        Z0, Z1 = arr(c['Z0']), arr(c['Z1'])
        f0, f1 = (lambda x: Z0), (lambda x: Z1)
        s1 = R.kn*abs(Z0[2, 0]*Z1[2, 0])
        close('mode I work', m.int1(0., f0, f1), [R.kn*Z0[2, 0]*Z1[2, 0]], 1e-9)
        d = lambda Z: abs(Z[0, 0]) + R.h/2*abs(Z[4, 0]) + R.t/2*abs(Z[3, 0])
        close('mode II work', m.int2(0., f0, f1), [R.tau(Z0)[0]*R.tau(Z1)[0]/R.kt], 1e-9, scale=R.kt*d(Z0)*d(Z1))


def chk_raster(m, C, phi, li, ki, xq, zq, xb, what=''):
    nz = [j for j in range(len(li)) if li[j] != 0]
    li2, ki2 = [float(li[j]) for j in nz], [bool(ki[j]) for j in nz]
    C2 = C[:, nz]
    b = np.concatenate([[0], np.cumsum(li2)])
    L = b[-1]
    xq, zq, xb = arr(xq), arr(zq), arr(xb)
    true(what + 'shapes', zq.shape == (6, xq.size) and xb.shape == xq.shape)
    close(what + 'first coordinate', xq[0], 0, 0, atol=1e-9*L)
    close(what + 'last coordinate', xq[-1], L, 1e-12)
    true(what + 'coordinates never decrease', (np.diff(xq) >= -1e-9*L).all())
    for x in b:
        true(what + f'segment boundary {x} missing', np.abs(xq - x).min() <= 1e-9*L)
    for j, x in enumerate(xq):
        cand = [i for i in range(len(li2)) if b[i] - 1e-9*L <= x <= b[i + 1] + 1e-9*L]
        sup = any(ki2[i] for i in cand)
        ok = False
        for i in cand:
            xl = min(max(x - b[i], 0), li2[i])
            w = arr(m.z(xl, C2[:, [i]], li2[i], phi, ki2[i]))[:, 0]
            s = np.abs(m.zh(xl, li2[i], ki2[i])) @ np.abs(C2[:, i]) + np.abs(m.zp(xl, phi, ki2[i]))[:, 0]
            if (np.abs(w - zq[:, j]) <= 1e-7*s + 1e-300).all():
                ok = True
        if not ok:
            raise Bad(f'{what}column {j} (x={x}) is not the segment solution there')
        if sup:
            true(what + f'weak-layer coordinate {j}: {xb[j]}, slab {x}', xb[j] == x)
        else:
            true(what + f'weak-layer coordinate {j} at x={x} should be NaN', np.isnan(xb[j]))


@oracle('C12', n=40)
class Raster:
    def gen(rng, k):
        c = gmodel(rng)
        c['phi'] = gphi(rng)
        n = int(rng.integers(1, 7))
        li = [float(rng.choice([rnd(rng, 1, 2000), rnd(rng, 1, 50), float(rng.integers(1, 900))])) for _ in range(n)]
        for j in range(n):
            if rng.random() < .15 and n > 1:
                li[j] = 0.0
        if sum(li) == 0:
            li[0] = 500.0
        c['li'], c['ki'] = li, [bool(rng.random() < .6) for _ in range(n)]
        c['C'] = gC(rng, n)
        c['num'] = int(rng.choice([1, 2, 7, 20, 60]))
        c['int'] = bool(rng.random() < .2)
        return c

    def run(c):
        m = build(c)
        li, ki, C = np.array(c['li']), np.array(c['ki']), arr(c['C'])
        if c['int']:
            li = np.ceil(li).astype(int)
        keep = (li.copy(), ki.copy(), C.copy())
        s0 = snap(m)
        xq, zq, xb = m.rasterize_solution(C=C, phi=c['phi'], li=li, ki=ki, num=c['num'], mi=np.zeros(len(li) - 1))
        for a, b, n in zip((li, ki, C), keep, ('li', 'ki', 'C')):
            same(n, a, b)
        if changed(m, s0):
            raise Bad(f'rasterize_solution changes {changed(m, s0)}')
        chk_raster(m, C, c['phi'], li, ki, xq, zq, xb)
        if li[-1] != 0:     # default grid
            xq, zq, xb = m.rasterize_solution(C, c['phi'], li, ki)
            true('default grid', arr(xq).size >= 250)


def chk_segs(m, c, s, li, mi, ki, k0):
    true('configurations', set(s) >= {'nocrack', 'crack', 'both'})
    for key, kk in (('nocrack', k0), ('crack', ki), ('both', ki)):
        close(key + ' lengths', s[key]['li'], li, 1e-12, scale=max(1, max(li)))
        close(key + ' weights', s[key]['mi'], mi, 1e-12)
        same(key + ' supports', np.asarray(s[key]['ki'], bool), np.array(kk, bool))
        true('arrays', all(isinstance(s[key][k], np.ndarray) for k in ('li', 'mi', 'ki')))
    same('both k0', np.asarray(s['both']['k0'], bool), np.array(k0, bool))


@oracle('C13', n=72)
class Segments:
    def gen(rng, k):
        c = gmodel(rng, system=SYSTEMS[k % 6], touchdown=bool(k % 7 == 0))
        c['phi'] = gphi(rng)
        c['L'] = rnd(rng, 1500, 9000)
        c['a'] = float(rng.choice([0, rnd(rng, 0, 700), rnd(rng, 0, 1400)]))
        c['m'] = float(rng.choice([0, 80, rnd(rng, 1, 150)]))
        c['cf'], c['ratio'] = rnd(rng, .3, .9), float(rng.choice([1000, 20]))
        n = int(rng.integers(2, 6))
        c['sk'] = {'li': [rnd(rng, 0, 9000) for _ in range(n)], 'mi': [rnd(rng, 0, 100) for _ in range(n - 1)],
                   'ki': [bool(rng.random() < .5) for _ in range(n)], 'k0': [bool(rng.random() < .7) for _ in range(n)]}
        c['again'] = bool(rng.random() < .3)
        return c

    def run(c):
        m, R = build(c), Ref(c)
        L, a, sysn = c['L'], c['a'], c['system']
        if c['touchdown'] and not tdvalid(c, R):
            return
        kw = dict(L=L, a=a, m=c['m'], phi=c['phi'], cf=c['cf'], ratio=c['ratio'])
        if c['again']:
            m.calc_segments(**{**kw, 'a': a/2, 'L': L*1.1}, **c['sk'])
        keep = copy.deepcopy(c['sk'])
        s = m.calc_segments(**kw, **c['sk'])
        if c['sk'] != keep:
            raise Bad('calc_segments modifies its list arguments')
        td = m.td if c['touchdown'] else a
        true('touchdown length', 0 <= td <= a + 1e-9)
        T, F = True, False
        if sysn == 'skiers':
            chk_segs(m, c, s, c['sk']['li'], c['sk']['mi'], c['sk']['ki'], c['sk']['k0'])
            return
        if sysn == 'pst-':
            e = [L - a, td], [0], [T, F], [T, T]
        elif sysn == '-pst':
            e = [td, L - a], [0], [F, T], [T, T]
        elif sysn == 'vpst-':
            e = [L - a, a], [0], [T, F], [T, T]
        elif sysn == '-vpst':
            e = [a, L - a], [0], [F, T], [T, T]
        else:
            e = [(L - a)/2, a/2, a/2, (L - a)/2], [0, c['m'], 0], [T, F, F, T], [T]*4
        chk_segs(m, c, s, *e)
        if not c['touchdown']:
            close('total length', np.sum(s['crack']['li']), L, 1e-12)
        for bad in ('pst', 'skiier', '', 'PST-', 'rot'):
            m.system = bad
            m.touchdown = False
            raises(f'unknown system {bad!r}', ValueError, m.calc_segments, **kw, **c['sk'])


@oracle('C14', n=40)
class SlabStress:
    def gen(rng, k):
        c = gmodel(rng)
        if rng.random() < .7:
            c['p'] = 0.0
        c['phi'], c['phi2'] = gphi(rng), gphi(rng)
        c['dz'] = float(rng.choice([2, 1, 5, 20, 400, rnd(rng, 1, 60)]))
        c['Z'] = gC(rng, int(rng.integers(1, 5)))
        return c

    def run(c):
        m, R = build(c), Ref(c)
        m.set_phi(c['phi2'])
        Z, dz, phi = arr(c['Z']), c['dz'], c['phi']
        Z0, s0 = Z.copy(), snap(m)
        M = arr(m.get_zmesh(dz=dz))
        true('mesh columns', M.ndim == 2 and M.shape[1] == 4)
        pos = 0
        layer = []
        for i in range(R.n):
            a, b = R.zi[i], R.zi[i + 1]
            j = pos
            close(f'layer {i} starts at its top', M[j, 0], a, 0, atol=1e-6*R.h)
            while j + 1 < len(M) and M[j, 0] < b - 1e-6*R.h:
                j += 1
            close(f'layer {i} ends at its bottom', M[j, 0], b, 0, atol=1e-6*R.h)
            true(f'layer {i}: at least two points', j > pos)
            d = np.diff(M[pos:j + 1, 0])
            true(f'layer {i}: spacing {d.max()} larger than {dz}', (d <= dz*(1 + 1e-9)).all() and (d > 0).all())
            close(f'layer {i} properties', M[pos:j + 1, 1:], np.tile([R.E[i], R.nu[i], R.rho[i]], (j + 1 - pos, 1)), 1e-10)
            layer += [i]*(j + 1 - pos)
            pos = j + 1
        true('mesh ends with the last layer', pos == len(M))
        z, layer = M[:, 0], np.array(layer)
        Ep = (R.E/(1 - R.nu**2))[layer]
        a = math.radians(phi)
        gt, gn = -R.rho[layer]*1e-12*R.g*math.sin(a), R.rho[layer]*1e-12*R.g*math.cos(a)
        K, q = R.system(phi)
        d1 = K @ Z + q
        s1 = np.abs(K) @ np.abs(Z) + np.abs(q)
        d2, s2 = K @ d1, np.abs(K) @ s1
        col = lambda x: x[:, None]
        dzs = np.append(np.diff(z), z[-1] - z[-2])
        Sxx = col(Ep)*(Z[1] + col(z)*Z[5]) + col(gt*dzs)
        sx = col(Ep)*(abs(Z[1]) + R.h*abs(Z[5])) + col(abs(gt*dzs)) + 1e-300
        close('Sxx', m.Sxx(Z, phi, dz=dz, unit='MPa'), Sxx, 1e-8, scale=sx)
        trap = lambda f: np.vstack([0*f[:1], np.cumsum((f[1:] + f[:-1])/2*np.diff(z)[:, None], axis=0)])
        one = np.ones((1, Z.shape[1]))
        dS = col(Ep)*(d1[1] + col(z)*d1[5])
        sT = trap(col(Ep)*(s1[1] + R.h*s1[5]) + col(abs(gt))*one) + 1e-300
        Txz = trap(dS + col(gt)*one)
        ddS = col(Ep)*(d2[1] + col(z)*d2[5])
        sZ = trap(trap(col(Ep)*(s2[1] + R.h*s2[5])) + col(abs(gn))*one) + 1e-300
        Szz = trap(trap(ddS)) - trap(col(gn)*one)
        if R.p == 0:
            close('Txz', m.Txz(Z, phi, dz=dz, unit='MPa'), Txz, 1e-7, scale=np.maximum(sT, sT.max(axis=0)*1e-3))
            close('Szz', m.Szz(Z, phi, dz=dz, unit='MPa'), Szz, 1e-7, scale=np.maximum(sZ, sZ.max(axis=0)*1e-3))
            close('top shear', m.Txz(Z, phi, dz=dz)[0], 0*Z[0], 0, atol=1e-12)
            close('top normal', m.Szz(Z, phi, dz=dz)[0], 0*Z[0], 0, atol=1e-12)
            close('bottom shear = weak-layer shear', m.Txz(Z, phi, dz=dz, unit='MPa')[-1], m.tau(Z), 1e-7,
                  scale=sT[-1] + R.kt*(abs(Z[0]) + R.h*abs(Z[4]) + R.t*abs(Z[3])))
        for f in (m.Sxx, m.Txz, m.Szz):
            A = arr(f(Z, phi, dz=dz, unit='MPa'))
            close(f.__name__ + ' kPa', f(Z, phi, dz=dz, unit='kPa'), 1e3*A, 1e-9)
            close(f.__name__ + ' default', f(Z, phi, dz=dz), 1e3*A, 1e-9)
        if dz == 2:
            close('default mesh', m.get_zmesh(), M, 1e-12)
            close('default mesh Sxx', m.Sxx(Z, phi), 1e3*Sxx, 1e-8, scale=1e3*sx)
        same('Z', Z, Z0)
        if changed(m, s0):
            raise Bad(f'stresses change {changed(m, s0)}')


@oracle('C15', n=40)
class Principal:
    def gen(rng, k):
        c = gmodel(rng)
        c['phi'] = gphi(rng)
        c['dz'] = float(rng.choice([10, 30, 7, 400]))
        Z = arr(gC(rng, int(rng.integers(1, 4))))
        Z = Z*10.0**rng.uniform(-3, 1)
        if k % 5 == 0:
            Z[:, 0] = 0
        c['Z'] = Z.tolist()
        c['sc'] = rnd(rng, .5, 10)
        return c

    def run(c):
        m, R = build(c), Ref(c)
        Z, dz, phi = arr(c['Z']), c['dz'], c['phi']
        Z0, s0 = Z.copy(), snap(m)
        Sm = arr(m.get_zmesh(dz=dz))
        for u, f in US.items():
            S = [arr(g(Z, phi, dz=dz, unit=u)) for g in (m.Sxx, m.Txz, m.Szz)]
            T = np.stack([np.stack([S[0], S[1]], -1), np.stack([S[1], S[2]], -1)], -1)
            ev = np.linalg.eigvalsh(T)
            sc = np.abs(T).max(axis=(-1, -2)) + 1e-300
            for v, j in (('min', 0), ('max', 1)):
                close(f'slab {v} {u}', m.principal_stress_slab(Z, phi, dz=dz, unit=u, val=v), ev[..., j], 1e-9, scale=sc)
            st = f*1e-3*240*(Sm[:, 3]/917)**2.44
            close('slab normalised ' + u, m.principal_stress_slab(Z, phi, dz=dz, unit=u, val='max', normalize=True),
                  ev[..., 1]/st[:, None], 1e-9, scale=sc/st[:, None])
            s, t = f*R.sig(Z), f*R.tau(Z)
            T = np.stack([np.stack([s, t], -1), np.stack([t, 0*s], -1)], -1)
            ev = np.linalg.eigvalsh(T)
            sc = np.abs(s) + f*R.kt*(abs(Z[0]) + R.h/2*abs(Z[4]) + R.t/2*abs(Z[3])) + 1e-300
            for v, j in (('min', 0), ('max', 1)):
                close(f'weak layer {v} {u}', m.principal_stress_weaklayer(Z, unit=u, val=v), ev[..., j], 1e-9, scale=sc)
            close('weak layer normalised ' + u, m.principal_stress_weaklayer(Z, sc=c['sc'], unit=u, normalize=True),
                  ev[..., 0]/c['sc'], 1e-9, scale=sc/c['sc'])
        close('defaults', m.principal_stress_slab(Z, phi, dz=dz), m.principal_stress_slab(Z, phi, dz=dz, unit='kPa', val='max'), 1e-12)
        close('defaults', m.principal_stress_weaklayer(Z), m.principal_stress_weaklayer(Z, unit='kPa', val='min'), 1e-12)
        raises('slab component', ValueError, m.principal_stress_slab, Z, phi, val='mean')
        raises('weak-layer component', ValueError, m.principal_stress_weaklayer, Z, val='MAX')
        raises('slab normalised min', ValueError, m.principal_stress_slab, Z, phi, val='min', normalize=True)
        raises('weak-layer normalised max', ValueError, m.principal_stress_weaklayer, Z, val='max', normalize=True)
        same('Z', Z, Z0)
        if changed(m, s0):
            raise Bad(f'principal stresses change {changed(m, s0)}')


# ------------------------------------------------------------------ touchdown
class Touch:
    """reference transition lengths from beam theory"""
    def __init__(self, R, L, cf, phi, ratio):
        self.R, self.L, self.ratio = R, L, ratio
        qn, _, pn, _ = R.loads(phi)
        self.q = qn + pn
        self.tc = cf*R.t - self.q/R.kn
        self.bs = R.D - R.B**2/R.A

    def tipres(self, l, kR, kN, kr, full):
        """overhang of length l on springs kR, kN at its left end; returns the residual of the contact condition"""
        q, bs, ss = self.q, self.bs, self.R.kA
        # psi = c1 + c2 x + c3 x^2/2 - q x^3/(6 bs), V = bs psi'', w' = V/ss - psi
        def row(x, c):
            """psi, M, V, w, w' as affine forms in c0..c3, 1"""
            psi = np.array([0, 1, x, x*x/2, -q*x**3/(6*bs)])
            M = bs*np.array([0, 0, 1, x, -q*x*x/(2*bs)])
            V = bs*np.array([0, 0, 0, 1, -q*x/bs])
            w = np.array([1, -x, -x*x/2, -x**3/6 + bs/ss*x, q*x**4/(24*bs) - q*x*x/(2*ss)])
            dw = V/ss - psi
            return dict(psi=psi, M=M, V=V, w=w, dw=dw)[c]
        E = [row(0, 'M') - kR*row(0, 'psi'), row(0, 'V') - kN*row(0, 'w')]
        if full:
            one = np.array([0, 0, 0, 0, 1.])
            E += [row(l, 'w') - self.tc*one, row(l, 'M') + kr*row(l, 'psi')]
            out = row(l, 'dw')
        else:
            E += [row(l, 'V'), row(l, 'M')]
            out = row(l, 'w') - np.array([0, 0, 0, 0, self.tc])
        E = np.array(E)
        s = np.abs(E[:, :4]).max(axis=1)
        c = np.linalg.solve(E[:, :4]/s[:, None], -E[:, 4]/s)
        return float(out @ np.append(c, 1))

    def springs(self, l):
        return self.R.spring(l, 'rot'), self.R.spring(l, 'trans')

    def f1(self, x):
        return self.tipres(x, *self.springs(self.L - x), 0, False)

    def f2(self, x):
        return self.tipres(x, *self.springs(self.L - x), 0, True)

    def fC(self, x, a, k=None):
        kr = self.R.spring(a - x, 'rot', self.ratio) if x < a else 0
        return self.tipres(x, *(k or self.springs(self.L - a)), kr, True)

    def root(self, f, lo, hi):
        xs = np.linspace(lo, hi, 60)
        v = [f(x) for x in xs]
        for a, b, u, w in zip(xs, xs[1:], v, v[1:]):
            if u == 0:
                return a
            if u*w < 0:
                return brentq(f, a, b, rtol=1e-12)
        return None

    def a1(self):
        return self.root(self.f1, 1e-6*self.L, .9985*self.L)

    def a2(self):
        return self.root(self.f2, 1e-6*self.L, .9985*self.L)

    def lC(self, a):
        k = self.springs(self.L - a)
        return self.root(lambda x: self.fC(x, a, k), 1e-3*a, .99999*a)


def gtd(rng, k, wide=False):
    c = gmodel(rng, system=['pst-', '-pst'][k % 2], touchdown=True)
    c['t'] = rnd(rng, 8, 40)
    c['phi'] = gphi(rng)
    c['L'] = rnd(rng, 2500, 8000)
    c['cf'], c['ratio'] = rnd(rng, .3, .9), float(rng.choice([1000, 1000, 50, 3]))
    c['frac'] = rnd(rng, .02, .95, 4)
    c['where'] = int(rng.integers(6))
    return c


def pick(c, T):
    """crack length in a chosen relation to the thresholds"""
    a1, a2 = T.a1(), T.a2()
    if a1 is None or a2 is None:
        return None, a1, a2
    f = c['frac']
    a = [a1*f, a1*(1 - 1e-4), a1 + (a2 - a1)*f, a1*(1 + 1e-4), a2*(1 + 1e-4) if f < .3 else a2*(1 - 1e-4),
         a2 + (.97*c['L'] - a2)*f][c['where']]
    return a, a1, a2


@oracle('C16', n=30, nt=200)
class Stages:
    def gen(rng, k):
        c = gtd(rng, k)
        c['before'] = bool(rng.random() < .5)
        return c

    def run(c):
        m, R = build(c), Ref(c)
        if not tdvalid(c, R):
            return
        T = Touch(R, c['L'], c['cf'], c['phi'], c['ratio'])
        a, a1, a2 = pick(c, T)
        if a is None or not 0 < a < .97*c['L'] or a2 - a1 < 1e-5*a2:
            return
        if c['before']:     # an earlier, different column
            try:
                m.calc_segments(L=c['L']*1.5, a=c['L']*.3, phi=-c['phi']/2 + 11, cf=.9*c['cf'], ratio=77)
            except ValueError:
                pass
        m.calc_segments(L=c['L'], a=a, phi=c['phi'], cf=c['cf'], ratio=c['ratio'])
        close('a', m.a, a, 1e-12)
        close('L', m.L, c['L'], 1e-12)
        close('phi', m.phi, c['phi'], 1e-12)
        close('ratio', m.ratio, c['ratio'], 1e-12)
        close('collapse height', m.tc, T.tc, 1e-9, scale=c['cf']*R.t)
        for what, x, r in (('first-contact', m.calc_a1(), a1), ('full-contact', m.calc_a2(), a2)):
            close(what + ' length', x, r, 1e-6)
        want = 'A' if a <= a1 else 'B' if a <= a2 else 'C'
        if min(abs(a - a1), abs(a - a2)) > 1e-6*a:
            true(f'stage {m.mode}, expected {want} (a={a}, a1={a1}, a2={a2})', m.mode == want)
        if m.mode in 'AB':
            close('unsupported length', m.td, a, 1e-12)
        else:
            true(f'0 < td={m.td} < a={a}', 0 < m.td < a)
        m.calc_touchdown_system(c['L'], a, c['cf'], c['phi'])
        close('default ratio', m.ratio, 1000, 1e-12)


@oracle('C16', 'NoTouchdown', n=30)
class NoTouchdown:
    def gen(rng, k):
        c = gmodel(rng, system=SYSTEMS[k % 6])
        c.update(phi=gphi(rng), L=rnd(rng, 500, 9000), cf=rnd(rng, .1, .9), ratio=rnd(rng, 1, 2000))
        c['a'] = rnd(rng, 0, .98*c['L'])
        return c

    def run(c):
        m, R = build(c), Ref(c)
        for phi in (7.0, c['phi']):
            m.calc_touchdown_system(L=c['L'], a=c['a'], cf=c['cf'], phi=phi, ratio=c['ratio'])
        qn, _, pn, _ = R.loads(c['phi'])
        true(f'stage {m.mode}', m.mode == 'A')
        close('unsupported length', m.td, c['a'], 1e-12)
        close('a', m.a, c['a'], 1e-12)
        close('L', m.L, c['L'], 1e-12)
        close('phi', m.phi, c['phi'], 1e-12)
        close('ratio', m.ratio, c['ratio'], 1e-12)
        close('collapse height', m.tc, c['cf']*R.t - (qn + pn)/R.kn, 1e-9, scale=c['cf']*R.t + (qn + pn)/R.kn)


@oracle('C17', n=30, nt=200)
class Thresholds:
    def gen(rng, k):
        c = gtd(rng, k)
        c['where'] = 5
        c['frac'] = float(rng.choice([.01, .1, .4, .8, .001, rnd(rng, 0, 1)]))
        return c

    def run(c):
        m, R = build(c), Ref(c)
        if not tdvalid(c, R):
            return
        T = Touch(R, c['L'], c['cf'], c['phi'], c['ratio'])
        a, a1, a2 = pick(c, T)
        if a is None or not 0 < a < .97*c['L']:
            return
        m.set_touchdown_attributes(c['L'], a, c['cf'], c['phi'], c['ratio'])
        close('first-contact length', m.calc_a1(), a1, 1e-6)
        close('full-contact length', m.calc_a2(), a2, 1e-6)
        lC = T.lC(a)
        if lC is not None:
            close('stage C unsupported length', m.calc_lC(), lC, 1e-5)


@oracle('C17', 'Springs', n=40)
class Springs:
    def gen(rng, k):
        c = gmodel(rng, system=SYSTEMS[k % 6])
        c.update(L=float(10**rng.uniform(1.7, 4.5)), ratio=float(rng.choice([1000, 2, 37])), phi=gphi(rng))
        return c

    def run(c):
        m, R = build(c), Ref(c)
        m.set_phi(c['phi'])
        m.set_stiffness_ratio(c['ratio'])
        s0 = snap(m)
        for sup, r in (('supported', 1.0), ('rested', c['ratio'])):
            for dof in ('rot', 'trans'):
                close(f'substitute stiffness {sup} {dof}', m.substitute_stiffness(c['L'], sup, dof), R.spring(c['L'], dof, r), 1e-5)
        close('default substitute stiffness', m.substitute_stiffness(c['L']), R.spring(c['L'], 'rot', c['ratio']), 1e-5)
        if changed(m, s0):
            raise Bad(f'substitute_stiffness changes {changed(m, s0)}')
