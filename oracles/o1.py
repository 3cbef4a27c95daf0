"""Replay oracles C01 - C09."""
from .base import *
from scipy.linalg import expm


def chk_stiff(m, R, what='', nu=True):
    w = what
    close(w + 'A11', m.A11, R.A, 1e-9)
    close(w + 'B11', m.B11, R.B, 1e-9, scale=R.A*R.h)
    close(w + 'D11', m.D11, R.D, 1e-9)
    close(w + 'kA55', m.kA55, R.kA, 1e-9)
    close(w + 'K0', m.K0, R.B**2 - R.A*R.D, 1e-8, scale=R.A*R.D)


def split(c, rng_, exact=False):
    """split every layer into sublayers"""
    out = []
    for i, (r, d) in enumerate(c['layers']):
        k = rng_[i % len(rng_)]
        out += [[r, d/k]]*k
    return {**c, 'layers': out}


@oracle('C01', n=60)
class Stiffness:
    def gen(rng, k):
        c = gmodel(rng)
        c['cut'] = [int(x) for x in rng.integers(1, 5, 4)]
        return c

    def run(c):
        m, R = build(c), Ref(c)
        chk_stiff(m, R)
        true('extensional stiffness positive', m.A11 > 0)
        true('shear stiffness positive', m.kA55 > 0)
        true('A11*D11 > B11^2', m.A11*m.D11 > m.B11**2)
        if not isinstance(c['layers'], str):
            m2 = build(split(c, c['cut']))
            for a in ('A11', 'D11', 'kA55'):
                close('split ' + a, getattr(m2, a), getattr(m, a), 1e-9)
            close('split B11', m2.B11, m.B11, 1e-9, scale=m.A11*R.h)
        # recomputed from edited material rows
        m.slab = np.array(m.slab)
        m.slab[:, 2] *= np.linspace(1, 2, m.slab.shape[0])
        m.slab[:, 3] *= np.linspace(2, 1, m.slab.shape[0])
        m.slab[:, 4] = np.linspace(.1, .3, m.slab.shape[0])
        m.calc_fundamental_system()
        Ep = m.slab[:, 2]/(1 - m.slab[:, 4]**2)
        close('A11 (per-layer nu)', m.A11, (Ep*R.d).sum(), 1e-9)
        close('B11 (per-layer nu)', m.B11, (Ep*R.d*R.zm).sum(), 1e-9, scale=R.A*R.h)
        close('D11 (per-layer nu)', m.D11, (Ep*(R.d*R.zm**2 + R.d**3/12)).sum(), 1e-9)
        close('kA55 (per-layer G)', m.kA55, 5/6*(m.slab[:, 3]*R.d).sum(), 1e-9)


@oracle('C02', n=60)
class Geometry:
    def gen(rng, k):
        c = gmodel(rng)
        c['cut'] = [int(x) for x in rng.integers(1, 5, 4)]
        return c

    def run(c):
        m, R = build(c), Ref(c)
        close('h', m.h, R.h, 1e-12)
        close('zs', m.zs, R.zs, 1e-9, scale=R.h)
        true('zs inside', -R.h/2 < m.zs < R.h/2)
        close('slab table', m.slab, np.column_stack([R.rho, R.d, R.E, R.G, R.nu]), 1e-10)
        close('ply coordinates', m.get_ply_coordinates(), R.zi, 1e-9, scale=R.h)
        L = np.column_stack([R.rho, R.d])
        L0 = L.copy()
        H, zs = tools.calc_center_of_gravity(L)
        close('calc_center_of_gravity H', H, R.h, 1e-12)
        close('calc_center_of_gravity zs', zs, R.zs, 1e-9, scale=R.h)
        same('layers argument', L, L0)
        sym = np.vstack([L, L[::-1]])
        close('symmetric slab zs', tools.calc_center_of_gravity(sym)[1], 0, 1e-9, scale=R.h)
        if not isinstance(c['layers'], str):
            m2 = build(split(c, c['cut']))
            close('split h', m2.h, m.h, 1e-9)
            close('split zs', m2.zs, m.zs, 1e-9, scale=R.h)


@oracle('C03', n=60)
class Loads:
    def gen(rng, k):
        c = gmodel(rng)
        c['phi'], c['phi2'] = gphi(rng), gphi(rng)
        c['m'] = [rnd(rng, 0, 200) for _ in range(int(rng.integers(1, 4)))]
        c['lski'] = float(rng.choice([1000, 800, 1200]))
        c['L'], c['a'] = rnd(rng, 1000, 4000), rnd(rng, 0, 700)
        return c

    def run(c):
        m = build(c)
        m.lski = c['lski']
        R = Ref(c, lski=c['lski'])
        phi = c['phi']
        s0 = snap(m)
        qn, qt, pn, pt = R.loads(phi)
        close('weight load', m.get_weight_load(phi), (qn, qt), 1e-10, scale=R.q)
        close('surface load', m.get_surface_load(phi), (pn, pt), 1e-10, scale=max(R.p, 1e-9))
        for w in c['m']:
            F = 1e-3*w*R.g/R.lski
            a = math.radians(phi)
            close('skier load', m.get_skier_load(w, phi), (F*math.cos(a), -F*math.sin(a)), 1e-10, scale=max(F, 1e-9))
        F = 1e-3*np.array(c['m'])*R.g/R.lski
        Fn, Ft = m.get_skier_load(c['m'], phi)
        close('skier loads (list)', Fn, F*math.cos(a), 1e-10, scale=max(F.max(), 1e-9))
        close('skier loads (list)', Ft, -F*math.sin(a), 1e-10, scale=max(F.max(), 1e-9))
        if changed(m, s0):
            raise Bad(f'load queries change {changed(m, s0)}')
        m.set_phi(c['phi2'])
        qn, qt, pn, pt = R.loads(c['phi2'])
        close('qn', m.calc_qn(), qn + pn, 1e-10, scale=R.q + R.p)
        close('qt', m.calc_qt(), qt + pt, 1e-10, scale=R.q + R.p)
        m.touchdown = False
        if c['system'] != 'skiers':
            m.calc_segments(L=c['L'], a=c['a'], m=80, phi=phi)
        else:
            m.calc_segments(li=[6e3, 6e3], ki=[True, True], k0=[True, True], mi=[80], phi=phi)
        qn, qt, pn, pt = R.loads(phi)
        close('qn after set-up', m.calc_qn(), qn + pn, 1e-10, scale=R.q + R.p)
        close('qt after set-up', m.calc_qt(), qt + pt, 1e-10, scale=R.q + R.p)


@oracle('C04', n=60)
class System:
    def gen(rng, k):
        c = gmodel(rng)
        c['phi'], c['phi2'] = gphi(rng), gphi(rng)
        c['Z'] = gC(rng, int(rng.integers(1, 5)))
        c['kf'] = float(rng.choice([1, 1, 2.5]))
        return c

    def run(c):
        m, R = build(c), Ref(c)
        m.set_phi(c['phi2'])
        Z = arr(c['Z'])
        Z0 = Z.copy()
        s0 = snap(m)
        K, q = R.system(c['phi'])
        d1 = K @ Z + q
        s1 = np.abs(K) @ np.abs(Z) + np.abs(q)
        close('dz_dx', m.dz_dx(Z, c['phi']), d1, 1e-8, scale=s1 + 1e-300)
        s2 = np.abs(K) @ s1
        d2 = K @ d1
        close('dz_dxdx', m.dz_dxdx(Z, c['phi']), d2, 1e-8, scale=s2 + 1e-300)
        close("u0''", m.du0_dxdx(Z, c['phi']), d1[1], 1e-8, scale=s1[1])
        close("psi''", m.dpsi_dxdx(Z, c['phi']), d1[5], 1e-8, scale=s1[5])
        close("u0'''", m.du0_dxdxdx(Z, c['phi']), d2[1], 1e-8, scale=s2[1])
        close("psi'''", m.dpsi_dxdxdx(Z, c['phi']), d2[5], 1e-8, scale=s2[5])
        # equilibrium in terms of the model's own forces and stresses
        D = m.dz_dx(Z, c['phi'])
        qn, qt, pn, pt = R.loads(c['phi'])
        tau = m.tau(Z)
        f = [R.A*s1[1] + abs(R.B)*s1[5] + 1e-300, R.kA*(s1[3] + s1[4]), abs(R.B)*s1[1] + R.D*s1[5]]
        close("N' = tau - (qt+pt)", m.N(D), tau - (qt + pt), 1e-8, scale=f[0])
        close("V' = kn w - (qn+pn)", m.V(D), m.kn*m.w(Z) - (qn + pn), 1e-8, scale=f[1])
        close("M' = V + tau(h+t)/2 + pt h/2 - qt zs", m.M(D),
              m.V(Z) + tau*(R.h + R.t)/2 + pt*R.h/2 - qt*R.zs, 1e-8, scale=f[2] + np.abs(m.V(Z)))
        same('Z argument', Z, Z0)
        if changed(m, s0):
            raise Bad(f'derivatives change {changed(m, s0)}')
        if c['kf'] != 1:     # uses the current stiffnesses
            m.kn, m.kt = m.kn*c['kf'], m.kt*c['kf']
            K, q = R.system(c['phi'], kn=m.kn, kt=m.kt)
            close('dz_dx (stiffened)', m.dz_dx(Z, c['phi']), K @ Z + q, 1e-8, scale=np.abs(K) @ np.abs(Z) + np.abs(q))


def eigmix(c, kind):
    """push the weak layer so that the eigenvalue mix changes"""
    if kind == 1:
        c['E'], c['t'] = c['E']*40, max(c['t']/4, 1)
    elif kind == 2:
        c['E'], c['t'] = c['E']/30, c['t']*3
    elif kind == 3:
        c['E'], c['t'] = c['E']*300, max(c['t']/10, .5)
    elif kind == 4:
        c['nuw'], c['t'] = .05, c['t']*8
    return c


def flow(what, m, R, l, phi, bed, C, xs, kn=None, kt=None):
    K, q = R.system(phi, bed=bed, kn=kn, kt=kt)
    Aug = np.zeros((7, 7))
    Aug[:6, :6], Aug[:6, 6:] = K, q
    lam = np.abs(np.linalg.eigvals(K)).max() if bed else 1/max(R.h, 50)
    for x in xs:
        d = min(.7/lam, l*.3 + 1)
        x0 = min(x, max(l - d, 0))
        z0 = arr(m.z(x0, C, l, phi, bed))
        z1 = arr(m.z(x0 + d, C, l, phi, bed))
        if z0.shape != (6, 1):
            raise Bad(f'{what}: shape {z0.shape} at a scalar position')
        E = expm(Aug*d)
        v = np.vstack([z0, [[1.]]])
        # numerical noise of the basis functions themselves
        s = (np.abs(E) @ np.abs(v))[:6]
        mag = np.abs(m.zh(x0, l, bed)) @ np.abs(C) + np.abs(m.zh(x0 + d, l, bed)) @ np.abs(C) + np.abs(z0) + np.abs(z1)
        s2 = np.abs(E)[:6, :6] @ mag
        close(f'{what}: flow of the governing system from x={x0:.6g} to {x0 + d:.6g}', z1, (E @ v)[:6], 1e-7, scale=s + s2*1e-2)


class _Seg:
    bed = True

    @classmethod
    def gen(cls, rng, k):
        c = eigmix(gmodel(rng), int(rng.choice([0, 0, 0, 1, 2, 3, 4])))
        c['phi'] = gphi(rng)
        c['l'] = float(10**rng.uniform(1, 4))
        c['C'] = gC(rng)
        c['x'] = [rnd(rng, 0, 1, 6) for _ in range(3)] + [0., 1.]
        return c

    @classmethod
    def run(cls, c):
        m, R = build(c), Ref(c)
        m.set_phi(0.0)
        s0 = snap(m)
        l, C, bed = c['l'], arr(c['C']), cls.bed
        C0 = C.copy()
        xs = [x*l for x in c['x']]
        flow('bedded' if bed else 'free', m, R, l, c['phi'], bed, C, xs)
        one = [arr(m.z(x, C, l, c['phi'], bed)) for x in xs]
        for seq in (list(xs), tuple(xs), np.array(xs)):
            Z = arr(m.z(seq, C, l, c['phi'], bed))
            close(f'z({type(seq).__name__})', Z, np.hstack(one), 1e-12)
        same('C', C, C0)
        if changed(m, s0):
            raise Bad(f'z changes {changed(m, s0)}')
        # particular and homogeneous parts
        zp = arr(m.zp(xs[0], c['phi'], bed))
        close('z(C=0) = zp', m.z(xs[0], 0*C, l, c['phi'], bed), zp, 1e-12)
        close('superposition', m.z(xs[0], 2*C, l, c['phi'], bed) - m.z(xs[0], C, l, c['phi'], bed),
              one[0] - zp, 1e-9, scale=np.abs(m.zh(xs[0], l, bed)) @ np.abs(C) + np.abs(zp))


@oracle('C05', n=60)
class Supported(_Seg):
    bed = True


@oracle('C06', n=60)
class Unsupported(_Seg):
    bed = False

    @classmethod
    def run(cls, c):
        super().run(c)
        m, R = build(c), Ref(c)
        for x in (0, .5*c['l'], c['l']):
            zh = arr(m.zh(x, c['l'], False))
            # remove the shift in x, scale rows and columns
            L = max(R.h, 100.)
            s = np.array([1, L, 1, L, L, L*L])
            M = zh*s[:, None]
            for _ in range(6):
                M = M/np.abs(M).max(axis=0)
                M = M/np.abs(M).max(axis=1)[:, None]
            if not np.isfinite(M).all() or np.linalg.svd(M, compute_uv=False)[-1] < (1e-13 if x else 1e-6):
                raise Bad(f'complementary solutions linearly dependent at x={x}')


@oracle('C07', n=60)
class Growth:
    def gen(rng, k):
        c = eigmix(gmodel(rng), int(rng.choice([0, 0, 1, 2, 3, 4])))
        c['l'] = [rnd(rng, 20, 3000), float(10**rng.uniform(4, 6.5))]
        c['x'] = [0., 1.] + [rnd(rng, 0, 1, 6) for _ in range(4)]
        return c

    def run(c):
        m, R = build(c), Ref(c)
        nR, nC = np.size(m.ewR), np.size(m.ewC)
        true(f'six columns: {nR} real + 2*{nC} complex', nR + 2*nC == 6)
        K, _ = R.system(0)
        ew = np.concatenate([np.ravel(m.ewR), np.ravel(m.ewC), np.conj(np.ravel(m.ewC))]).astype(complex)
        want = np.linalg.eigvals(K)
        s = np.abs(want).max()
        left = list(want)
        for e in ew:
            j = int(np.argmin([abs(e - w) for w in left]))
            if abs(e - left[j]) > 1e-5*s:
                raise Bad(f'eigenvalue {e} of the model is not (once) an eigenvalue of the system: {want}')
            left.pop(j)
        # columns satisfy K v = lambda v
        for e, v in zip(np.concatenate([np.ravel(m.ewR), np.ravel(m.ewC)]), np.hstack([m.evR.astype(complex), m.evC]).T):
            r = np.abs(K @ v - e*v)
            if (r > 1e-6*(np.abs(K) @ np.abs(v) + abs(e)*np.abs(v)) + 1e-12*np.abs(v).max()).any():
                raise Bad(f'eigenvector of {e} does not satisfy K v = lambda v')
        nrm = max(np.linalg.norm(m.evR, axis=0).max(initial=0), np.linalg.norm(m.evC, axis=0).max(initial=0), 1e-300)
        for l in c['l']:
            for x in c['x']:
                zh = arr(m.zh(x*l, l, True))
                true(f'zh is 6x6, got {zh.shape}', zh.shape == (6, 6))
                true(f'zh finite at x={x*l}, l={l}', np.isfinite(zh).all())
                g = np.linalg.norm(zh, axis=0).max()
                true(f'basis grows: column norm {g} at x={x*l} of l={l}', g <= nrm*(1 + 1e-7))
        # independent columns on a moderate segment
        l = 2/np.abs(want.real).max()
        zh = arr(m.zh(0, l, True))
        M = zh/np.linalg.norm(zh, axis=0)
        M = M/np.abs(M).max(axis=1)[:, None]
        true('columns independent', np.linalg.svd(M, compute_uv=False)[-1] > 1e-9)


def forces(m, Z):
    return np.array([m.N(Z), m.M(Z), m.V(Z)])


def jump(what, got, want, scale, tol):
    d = np.abs(arr(got) - arr(want)).ravel()
    b = d > tol*arr(scale).ravel()
    if b.any():
        j = int(np.argmax(b))
        raise Bad(f'{what}[{"u w psi N M V".split()[j] if len(d) == 6 else j}]: {arr(got).ravel()[j]!r}, expected {arr(want).ravel()[j]!r}')


def chk_solution(m, R, seg, phi, C, loads=None, tol=1e-6):
    """residuals of all transitions of a solved system, in terms of the real fields"""
    li, ki, mi = seg['li'], seg['ki'], seg['mi']
    n = len(li)
    C = arr(C)
    if C.shape != (6, n):
        raise Bad(f'constants have shape {C.shape} for {n} segments')
    if not np.isfinite(C).all():
        raise Bad('constants are not finite')
    ends = []
    for i in range(n):
        l, k = float(li[i]), bool(ki[i])
        z0 = arr(m.z(0, C[:, [i]], l, phi, k))
        z1 = arr(m.z(l, C[:, [i]], l, phi, k))
        # magnitude of the superposed terms, which bounds the rounding noise
        g0 = np.abs(m.zh(0, l, k)) @ np.abs(C[:, [i]]) + np.abs(m.zp(0, phi, k))
        g1 = np.abs(m.zh(l, l, k)) @ np.abs(C[:, [i]]) + np.abs(m.zp(l, phi, k))
        ends.append((z0, z1, g0, g1))

    def vec(Z):
        return np.vstack([Z[0], Z[2], Z[4], R.A*Z[1] + R.B*Z[5], R.B*Z[1] + R.D*Z[5], R.kA*(Z[3] + Z[4])])

    def mag(G):
        return np.vstack([G[0], G[2], G[4], R.A*G[1] + abs(R.B)*G[5], abs(R.B)*G[1] + R.D*G[5], R.kA*(G[3] + G[4])])
    G = np.max([mag(np.maximum(e[2], e[3])) for e in ends], axis=0)
    # one common scale per quantity: a solve is accurate relative to the whole system
    L = R.h
    f = max(G[3, 0], G[5, 0], G[4, 0]/L, 1e-12)
    sc = np.array([max(G[0, 0], G[1, 0]), max(G[0, 0], G[1, 0]), max(G[2, 0], G[1, 0]/2000), f, f*L, f])[:, None] + 1e-12
    for i in range(n - 1):
        a = math.radians(phi)
        F = 1e-3*float(mi[i])*R.g/R.lski
        Fn, Ft = F*math.cos(a), -F*math.sin(a)
        want = np.array([0, 0, 0, Ft, -Ft*R.h/2, Fn])[:, None]
        jump(f'transition {i}', vec(ends[i][1]) - vec(ends[i + 1][0]), want, sc, tol)
    return ends, vec, sc


@oracle('C08', n=50)
class Assembly:
    def gen(rng, k):
        c = gmodel(rng, system=SYSTEMS[k % 6])
        c['phi'] = gphi(rng)
        c['seg'] = gsegs(rng, c['system'])
        c['lists'] = bool(rng.random() < .4)
        return c

    def run(c):
        m, R = build(c), Ref(c)
        m.mode = 'A'
        phi, sysn = c['phi'], c['system']
        seg = c['seg'] if c['lists'] else npsegs(c['seg'])
        keep = copy.deepcopy(seg)
        with quiet():
            C = m.assemble_and_solve(phi=phi, **seg)
        for k in seg:
            same(f'argument {k}', seg[k], keep[k])
        ends, vec, sc = chk_solution(m, R, seg, phi, C)
        l, r = vec(ends[0][0]), vec(ends[-1][1])
        if sysn in ('pst-', '-pst'):
            jump('free left end', l[3:], np.zeros((3, 1)), sc[3:], 1e-6)
            jump('free right end', r[3:], np.zeros((3, 1)), sc[3:], 1e-6)
        elif sysn in ('skier', 'skiers'):
            K, q = R.system(phi)
            zi = np.linalg.solve(K, -q)
            jump('left infinity', l[:3], vec(zi)[:3], sc[:3], 1e-6)
            jump('right infinity', r[:3], vec(zi)[:3], sc[:3], 1e-6)
        else:
            N, M, V, *_ = wedge(R, phi)
            jump('vertical left end', l[3:], [[N], [M], [V]], sc[3:] + abs(M)/R.h, 1e-6)
            jump('vertical right end', r[3:], [[N], [M], [V]], sc[3:] + abs(M)/R.h, 1e-6)


def wedge(R, phi):
    """statically exact weight of the wedge: N, M, V, mass, xs, zs"""
    if phi == 0:
        return 0., 0., 0., 0., 0., 0.
    a = math.radians(phi)
    T = math.tan(a)
    A, Az, Ax = [], [], []
    for z0, z1, rho in zip(R.zi[:-1], R.zi[1:], R.rho*1e-12):
        # width at z is (h/2 - z) tan(phi); polynomial integrals
        f = lambda z: R.h/2*z - z*z/2
        F = lambda z: R.h/4*z*z - z**3/3
        X = lambda z: -(R.h/2 - z)**3/3
        A.append(rho*T*(f(z1) - f(z0)))
        Az.append(rho*T*(F(z1) - F(z0)))
        Ax.append(rho*T*T/2*(X(z1) - X(z0)))
    m = sum(A)
    zs, xs = sum(Az)/m, sum(Ax)/m
    g = R.g
    return (-m*g*math.sin(a), -m*g*(xs*math.cos(a) + zs*math.sin(a)), m*g*math.cos(a), m, xs, zs)


@oracle('C08', n=14)
class TouchdownEnds:
    def gen(rng, k):
        c = gmodel(rng, system=['pst-', '-pst'][k % 2], touchdown=True)
        c['t'] = rnd(rng, 10, 40)
        c['phi'] = gphi(rng)
        c['L'], c['a'] = rnd(rng, 2500, 6000), rnd(rng, 100, 2400)
        c['cf'], c['ratio'] = rnd(rng, .3, .9), float(rng.choice([1000, 50, 5]))
        return c

    def run(c):
        m, R = build(c), Ref(c)
        if not tdvalid(c, R):
            return
        s = m.calc_segments(L=c['L'], a=c['a'], phi=c['phi'], cf=c['cf'], ratio=c['ratio'])['crack']
        C = m.assemble_and_solve(phi=c['phi'], **s)
        ends, vec, sc = chk_solution(m, R, s, c['phi'], C, tol=2e-6)
        free, touch = (vec(ends[0][0]), vec(ends[-1][1])) if c['system'] == 'pst-' else (vec(ends[-1][1]), vec(ends[0][0]))
        jump('uncut end', free[3:], np.zeros((3, 1)), sc[3:], 2e-6)
        sg = 1 if c['system'] == 'pst-' else -1
        if m.mode == 'A':
            jump('free crack end', touch[3:], np.zeros((3, 1)), sc[3:], 2e-6)
            return
        qn, qt, pn, pt = R.loads(c['phi'])
        jump('deflection at contact', touch[1:2], [[m.tc]], sc[1:2], 2e-6)
        if m.mode == 'B':
            jump('stage B contact end', touch[3:5], np.zeros((2, 1)), sc[3:5], 2e-6)
        else:
            kR = R.spring(c['a'] - m.td, 'rot', c['ratio'])
            N = sg*(qt + pt)*(c['a'] - m.td)
            jump('stage C axial force', touch[3:4], [[N]], sc[3:4] + abs(N), 2e-6)
            jump('stage C moment', touch[4:5] + sg*kR*touch[2:3], [[0]], sc[4:5] + np.abs(kR*touch[2:3]), 1e-5)


def tdvalid(c, R):
    """physically meaningful collapse heights only"""
    qn, _, pn, _ = R.loads(c['phi'])
    return c['cf']*R.t - (qn + pn)/R.kn > .05*R.t


@oracle('C08', 'Rejections', n=12)
class Rejections:
    def gen(rng, k):
        c = gmodel(rng, system=SYSTEMS[k % 6])
        c['phi'], c['n'] = gphi(rng), int(rng.integers(1, 5))
        return c

    def run(c):
        m = build(c)
        m.mode = 'A'
        n = c['n']
        li = [6000.]*n

        def sol(li, mi, ki):
            with quiet():
                m.assemble_and_solve(phi=c['phi'], li=np.array(li), mi=np.array(mi), ki=np.array(ki))
        raises('no supported segment', ValueError, sol, li, [0.]*(n - 1), [False]*n)
        raises('too many weights', ValueError, sol, li, [0.]*n, [True]*n)
        if n > 1:
            raises('too few weights', ValueError, sol, li, [0.]*(n - 2), [True]*n)
            raises('too few supports', ValueError, sol, li, [0.]*(n - 1), [True]*(n - 1))
            if c['system'] in ('skier', 'skiers'):
                raises('left end unsupported', ValueError, sol, li, [0.]*(n - 1), [False] + [True]*(n - 1))
                raises('right end unsupported', ValueError, sol, li, [0.]*(n - 1), [True]*(n - 1) + [False])


UL = {'m': 1e-3, 'cm': 1e-1, 'mm': 1, 'um': 1e3}
US = {'kPa': 1e3, 'MPa': 1}
UG = {'J/m^2': 1e3, 'kJ/m^2': 1, 'N/mm': 1}


@oracle('C09', n=40)
class Fields:
    def gen(rng, k):
        c = gmodel(rng)
        c['Z'] = gC(rng, int(rng.integers(1, 6)))
        c['z0'] = [rnd(rng, -150, 150) for _ in range(2)] + [0.]
        c['upd'] = bool(rng.random() < .5)
        return c

    def run(c):
        m, R = build(c), Ref(c)
        if c['upd']:
            c2 = {**c, 't': c['t']*1.7, 'E': c['E']*.6}
            m.set_foundation_properties(t=c2['t'], E=c2['E'], nu=c2['nuw'], update=True)
            R = Ref(c2)
        Z = arr(c['Z'])
        Z0, s0 = Z.copy(), snap(m)
        close('kn', m.kn, R.kn, 1e-12)
        close('kt', m.kt, R.kt, 1e-12)
        for u, f in UL.items():
            close(f'w [{u}]', m.w(Z, unit=u), f*Z[2], 1e-12)
            for z in c['z0']:
                close(f'u [{u}]', m.u(Z, z0=z, unit=u), f*(Z[0] + z*Z[4]), 1e-12, scale=f*(abs(Z[0]) + abs(z*Z[4])))
        close('w', m.w(Z), Z[2], 1e-12)
        for z in c['z0']:
            close('u', m.u(Z, z), Z[0] + z*Z[4], 1e-12, scale=abs(Z[0]) + abs(z*Z[4]))
            close('du_dx', m.du_dx(Z, z), Z[1] + z*Z[5], 1e-12, scale=abs(Z[1]) + abs(z*Z[5]))
        close('dw_dx', m.dw_dx(Z), Z[3], 1e-12)
        close('dpsi_dx', m.dpsi_dx(Z), Z[5], 1e-12)
        close('psi', m.psi(Z), Z[4], 1e-12)
        for u in ('rad', 'radian', 'radians'):
            close('psi ' + u, m.psi(Z, unit=u), Z[4], 1e-12)
        for u in ('deg', 'degree', 'degrees'):
            close('psi ' + u, m.psi(Z, unit=u), Z[4]*180/math.pi, 1e-12)
        sN = R.A*abs(Z[1]) + abs(R.B*Z[5])
        sM = abs(R.B*Z[1]) + R.D*abs(Z[5])
        N, M, V = R.forces(Z)
        close('N', m.N(Z), N, 1e-9, scale=sN + 1e-12*R.A*R.h*abs(Z[5]))
        close('M', m.M(Z), M, 1e-9, scale=sM + R.A*R.h*abs(Z[1]))
        close('V', m.V(Z), V, 1e-9, scale=R.kA*(abs(Z[3]) + abs(Z[4])))
        st = R.kt*(abs(Z[0]) + R.h/2*abs(Z[4]) + R.t/2*abs(Z[3]))
        for u, f in US.items():
            close(f'sig [{u}]', m.sig(Z, unit=u), f*R.sig(Z), 1e-10)
            close(f'tau [{u}]', m.tau(Z, unit=u), f*R.tau(Z), 1e-9, scale=f*st)
        close('sig', m.sig(Z), R.sig(Z), 1e-10)
        close('tau', m.tau(Z), R.tau(Z), 1e-9, scale=st)
        close('sig = kn t eps', m.kn*m.t*m.eps(Z), m.sig(Z), 1e-10)
        close('tau = kt t gamma', m.kt*m.t*m.gamma(Z), m.tau(Z), 1e-9, scale=st)
        same('Z', Z, Z0)
        if changed(m, s0):
            raise Bad(f'fields change {changed(m, s0)}')
