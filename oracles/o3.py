"""Replay oracles C18 - C27."""
import tempfile
import shutil
from .base import *
from .o1 import wedge, tdvalid, chk_solution, UL, US
from .o2 import Touch, gtd, pick, notip, chk_raster, gcrack

TDATTR = {'L', 'a', 'phi', 'tc', 'ratio', 'mode', 'td'}
DERIVED = {'kn', 'kt', 'A11', 'B11', 'D11', 'kA55', 'K0', 'ewC', 'ewR', 'evC', 'evR', 'sC', 'sR'}


def frame(m_, what_, allowed_, f_, /, *a, **k):
    keep = copy.deepcopy((a, k))
    s0 = snap(m_)
    with quiet():
        r = f_(*a, **k)
    ch = [x for x in changed(m_, s0) if x not in allowed_]
    if ch:
        raise Bad(f'{what_} changes {ch}')
    for x, y in zip(a, keep[0]):
        if not callable(x) and not eqv(x, y):
            raise Bad(f'{what_} modifies an argument')
    for n in k:
        if not callable(k[n]) and not eqv(k[n], keep[1][n]):
            raise Bad(f'{what_} modifies its argument {n}')
    return r


def gstate(rng, k):
    if k % 2:
        c = gtd(rng, k // 2)
    else:
        c = gmodel(rng, system=SYSTEMS[(k // 2) % 6])
        c.update(phi=gphi(rng), L=rnd(rng, 1500, 6000), cf=.5, ratio=100., frac=.3, where=0)
    c['lists'] = bool(rng.random() < .3)
    c['seg'] = gcrack(rng, c)
    return c


def setup(c):
    """model and segments of the described column"""
    m, R = build(c), Ref(c)
    if c['touchdown']:
        if not tdvalid(c, R):
            return None
        a, *_ = pick(c, Touch(R, c['L'], c['cf'], c['phi'], c['ratio']))
        if a is None or not 0 < a < .97*c['L']:
            return None
    else:
        a = .3*c['L']
    kw = dict(L=c['L'], a=a, m=75, phi=c['phi'], cf=c['cf'], ratio=c['ratio'])
    sk = {'li': [c['L'], a, c['L']], 'mi': [60, 0], 'ki': [True, False, True], 'k0': [True]*3}
    return m, R, a, kw, sk


@oracle('C18', n=40, nt=240)
class Frames:
    def gen(rng, k):
        c = gstate(rng, k)
        c['L2'] = rnd(rng, 100, 3000)
        return c

    def run(c):
        st = setup(c)
        if st is None:
            return
        m, R, a, kw, sk = st
        phi = c['phi']
        seg = frame(m, 'calc_segments', TDATTR, m.calc_segments, **kw, **sk)
        s, b = seg['crack'], seg['both']
        m0 = snap(m)
        C1 = frame(m, 'assemble_and_solve', (), m.assemble_and_solve, phi=phi, **s)
        C0 = None
        if m.mode == 'A':
            C0 = frame(m, 'assemble_and_solve', (), m.assemble_and_solve, phi=phi, **seg['nocrack'])
        xq, zq, xb = frame(m, 'rasterize_solution', (), m.rasterize_solution, C=C1, phi=phi, num=40, **s)
        q = lambda n, *aa, **kk: frame(m, n, (), getattr(m, n), *aa, **kk)
        for n in ('w', 'dw_dx', 'psi', 'dpsi_dx', 'N', 'M', 'V', 'sig', 'tau', 'eps', 'gamma', 'Gi', 'Gii'):
            q(n, zq)
        q('u', zq, 10.0)
        q('du_dx', zq, 10.0)
        for n in ('dz_dx', 'dz_dxdx', 'du0_dxdx', 'dpsi_dxdx', 'du0_dxdxdx', 'dpsi_dxdxdx'):
            q(n, zq, phi)
        for n in ('Sxx', 'Txz', 'Szz', 'principal_stress_slab'):
            q(n, zq, phi, dz=20)
        q('principal_stress_slab', zq, phi, dz=20, normalize=True)
        q('principal_stress_weaklayer', zq)
        q('get_zmesh', dz=15)
        q('get_ply_coordinates')
        q('calc_system_matrix')
        for n in ('get_weight_load', 'get_surface_load', 'get_load_vector'):
            q(n, phi)
        q('get_skier_load', [80., 0.], phi)
        for n in ('calc_qn', 'calc_qt', 'calc_lA', 'calc_lB'):
            q(n)
        q('gdif', C1, phi, **s)
        if C0 is not None:
            q('ginc', C0, C1, phi, **b)
        for rm in (False, True):
            q('get_weaklayer_shearstress', xb, zq, unit='kPa', removeNaNs=rm)
            q('get_weaklayer_normalstress', xb, zq, unit='MPa', removeNaNs=rm)
        for loc in ('top', 'mid', 'bot'):
            q('get_slab_displacement', xq, zq, loc=loc)
        q('get_slab_deflection', xq, zq)
        q('get_slab_rotation', xq, zq)
        q('z', [0., 5.], C1[:, [0]], float(s['li'][0]), phi, True)
        q('z', np.array([0., 5.]), C1[:, [-1]], float(s['li'][-1]), phi, False)
        for sup in ('supported', 'rested'):
            for dof in ('rot', 'trans'):
                q('substitute_stiffness', c['L2'], sup, dof)
        if c['system'] in ('pst-', '-pst'):
            for n in ('external_potential', 'internal_potential', 'total_potential'):
                q(n, C1, phi, c['L'], **s)
            if c['touchdown']:
                q('calc_a1')
                q('calc_a2')
                if m.mode == 'C':
                    q('calc_lC')
        if changed(m, m0):
            raise Bad(f'analysis changes {changed(m, m0)}')
        # solving with caller lists of any segmentation, single segments included
        g = c['seg']
        one = {'li': [6000.], 'mi': [], 'ki': [True]}
        for w in (g, one):
            m.mode = 'A'
            args = {k: list(w[k]) for k in ('li', 'mi', 'ki')}
            Cx = frame(m, 'assemble_and_solve', (), m.assemble_and_solve, phi=phi, **args)
            args = {k: np.array(w[k]) for k in ('li', 'mi', 'ki')}
            Cx = frame(m, 'assemble_and_solve', (), m.assemble_and_solve, phi=phi, **args)
            true('constants for every segment', Cx.shape == (6, len(w['li'])))
            frame(m, 'rasterize_solution', (), m.rasterize_solution, C=Cx, phi=phi, num=9, **args)
            frame(m, 'gdif', (), m.gdif, Cx, phi, **args)
            frame(m, 'ginc', (), m.ginc, Cx, Cx, phi, li=list(g['li']) if w is g else [6000.],
                  ki=list(w['ki']), k0=list(g['k0']) if w is g else [True])


@oracle('C18', 'Setters', n=40)
class Setters:
    def gen(rng, k):
        c = gmodel(rng)
        c['new'] = glayers(rng)
        c['v'] = [rnd(rng, 1, 50) for _ in range(6)]
        return c

    def run(c):
        m = build(c)
        m.calc_segments(L=3000, a=400, phi=12, li=[3e3], mi=[], ki=[True], k0=[True]) if c['system'] == 'skiers' else \
            (setattr(m, 'touchdown', False), m.calc_segments(L=3000, a=400, phi=12))
        v = c['v']
        f = lambda n, allowed, *a, **k: frame(m, n, allowed, getattr(m, n), *a, **k)
        f('set_surface_load', {'p'}, v[0])
        close('p', m.p, v[0], 0)
        f('set_phi', {'phi'}, v[1])
        close('phi', m.phi, v[1], 0)
        f('set_columnlength', {'L'}, v[2])
        close('L', m.L, v[2], 0)
        f('set_cracklength', {'a'}, v[3])
        close('a', m.a, v[3], 0)
        f('set_stiffness_ratio', {'ratio'}, v[4])
        close('ratio', m.ratio, v[4], 0)
        f('set_tc', {'tc'}, .5)
        f('set_foundation_properties', {'t', 'weak'}, t=v[5], E=.3, nu=.2)
        L = mklayers({**c, 'layers': c['new']})
        f('set_beam_properties', {'slab', 'h', 'zs', 'k'}, L, C0=5.)
        f('calc_foundation_stiffness', {'kn', 'kt'})
        f('calc_laminate_stiffness_matrix', {'A11', 'B11', 'D11', 'kA55', 'K0'})
        f('calc_eigensystem', {'ewC', 'ewR', 'evC', 'evR', 'sC', 'sR'})
        f('set_foundation_properties', {'t', 'weak'} | DERIVED, t=v[5], E=.4, nu=.1, update=True)
        f('set_beam_properties', {'slab', 'h', 'zs', 'k'} | DERIVED, L, C0=6., update=True)
        f('calc_fundamental_system', ())


# ------------------------------------------------------------------ C19
SAMEATTR = ('kn', 'kt', 'A11', 'D11', 'kA55', 'K0', 'h', 't', 'k')


def samemodel(m, f, what, exact=True):
    for a in SAMEATTR:
        close(f'{what} {a}', getattr(m, a), getattr(f, a), 1e-10)
    close(f'{what} B11', m.B11, f.B11, 1e-10, scale=f.A11*f.h)
    close(f'{what} zs', m.zs, f.zs, 1e-10, scale=f.h)
    close(f'{what} slab', m.slab, f.slab, 1e-10)
    true(f'{what} weak', m.weak == f.weak)
    for a in ('ewR', 'ewC', 'sR', 'sC'):
        x, y = np.ravel(getattr(m, a)), np.ravel(getattr(f, a))
        true(f'{what} {a}: {x} vs {y}', x.shape == y.shape)
        s = np.abs(y).max(initial=1e-12)
        close(f'{what} {a}', np.sort_complex(x.astype(complex)).real, np.sort_complex(y.astype(complex)).real, 1e-6, scale=s)
        close(f'{what} {a}', np.sort_complex(x.astype(complex)).imag, np.sort_complex(y.astype(complex)).imag, 1e-6, scale=s)
    # the basis spans the same solutions
    for l, x in ((700., 0.), (700., 350.), (700., 700.)):
        close(f'{what} particular solution', m.zp(x, 13., True), f.zp(x, 13., True), 1e-9, scale=np.abs(f.zp(x, 13., True)) + 1e-9)
        close(f'{what} free basis', m.zh(x, l, False), f.zh(x, l, False), 1e-9, scale=np.abs(f.zh(x, l, False)) + 1e-9)
        close(f'{what} free particular solution', m.zp(x, 13., False), f.zp(x, 13., False), 1e-9,
              scale=np.abs(f.zp(x, 13., False)) + 1e-9)


def results(m, c, kw, sk):
    """a full analysis"""
    with quiet():
        seg = m.calc_segments(**kw, **sk)
        C1 = m.assemble_and_solve(phi=kw['phi'], **seg['crack'])
        xq, zq, xb = m.rasterize_solution(C=C1, phi=kw['phi'], num=30, **seg['crack'])
        out = {'li': arr(seg['crack']['li']), 'xq': xq, 'xb': xb, 'u': m.u(zq, 0), 'w': m.w(zq), 'psi': m.psi(zq),
               'N': m.N(zq), 'M': m.M(zq), 'V': m.V(zq), 'sig': m.sig(zq), 'tau': m.tau(zq),
               'gdif': m.gdif(C1, kw['phi'], **seg['crack']),
               'Sxx': m.Sxx(zq, kw['phi'], dz=30), 'Txz': m.Txz(zq, kw['phi'], dz=30),
               'Szz': m.Szz(zq, kw['phi'], dz=30)}
        if m.mode == 'A':
            C0 = m.assemble_and_solve(phi=kw['phi'], **seg['nocrack'])
            out['ginc'] = m.ginc(C0, C1, kw['phi'], **seg['both'])
        if m.system in ('pst-', '-pst'):
            out['pot'] = [m.internal_potential(C1, kw['phi'], kw['L'], **seg['crack']),
                          m.external_potential(C1, kw['phi'], kw['L'], **seg['crack'])]
    return out, m.mode


def sameres(a, b, what, tol=1e-5):
    (x, mx), (y, my) = a, b
    true(f'{what} stage {mx} vs {my}', mx == my)
    for k in y:
        p, q = arr(x[k]), arr(y[k])
        s = np.nanmax(np.abs(q)) if q.size and not np.isnan(q).all() else 1.0
        close(f'{what} {k}', p, q, tol, scale=s + 1e-12)


def near(c, rng):
    """the same model but for one property"""
    d = dict(c)
    L = c['layers']
    k = str(rng.choice(['reverse', 'reverse', 'rho', 't', 'E', 'nuw', 'nu', 'p', 'C0'])) if not isinstance(L, str) else 't'
    if k == 'reverse':
        d['layers'] = [list(r) for r in L][::-1]
    elif k == 'rho':
        d['layers'] = [list(r) for r in L]
        d['layers'][int(rng.integers(len(L)))][0] *= 1.2
    else:
        d[k] = (c[k] or 1)*float(rng.choice([.8, 1.25]))
    return d


@oracle('C19', n=36, nt=240)
class Updates:
    def gen(rng, k):
        c = gstate(rng, k)
        steps = []
        for _ in range(int(rng.integers(1, 6))):
            kind = str(rng.choice(['weak', 'beam', 'load', 'segs', 'spring', 'weak', 'beam', 'solve', 'near', 'near']))
            d = gmodel(rng) if kind != 'near' else near(c, rng)
            steps.append({'kind': kind, 'c': d, 'phi': gphi(rng), 'L': rnd(rng, 1500, 5000), 'a': rnd(rng, 100, 900)})
        c['steps'] = steps
        c['last'] = [['weak', 'beam'], ['beam', 'weak'], ['weak-', 'beam'], ['beam-', 'weak']][int(rng.integers(4))]
        return c

    def run(c):
        st = setup(c)
        if st is None:
            return
        fresh, R, a, kw, sk = st
        m = build({**c, 'layers': c['steps'][0]['c']['layers'], 'order': 0})
        for s in c['steps']:
            d = s['c']
            try:
                with quiet():
                    if s['kind'] == 'weak':
                        m.set_foundation_properties(t=d['t'], E=d['E'], nu=d['nuw'], update=True)
                    elif s['kind'] == 'beam':
                        m.set_beam_properties(mklayers(d), C0=d['C0'], C1=d['C1'], nu=d['nu'], update=True)
                    elif s['kind'] == 'load':
                        m.set_surface_load(d['p'])
                    elif s['kind'] == 'near':
                        m.set_surface_load(d['p'])
                        m.set_foundation_properties(t=d['t'], E=d['E'], nu=d['nuw'], update=True)
                        m.set_beam_properties(mklayers(d), C0=d['C0'], C1=d['C1'], nu=d['nu'], update=True)
                        sg = m.calc_segments(**kw, **sk)['crack']
                        m.assemble_and_solve(phi=kw['phi'], **sg)
                    elif s['kind'] == 'segs':
                        m.calc_segments(L=s['L'], a=s['a'], phi=s['phi'], m=50, cf=.6, ratio=50, **sk)
                    elif s['kind'] == 'spring':
                        m.set_phi(s['phi'])
                        m.set_stiffness_ratio(500)
                        m.substitute_stiffness(s['L'], 'rested', 'rot')
                    else:
                        sg = m.calc_segments(L=s['L'], a=s['a'], phi=s['phi'], m=50, cf=.6, ratio=50, **sk)['crack']
                        C = m.assemble_and_solve(phi=s['phi'], **sg)
                        m.rasterize_solution(C=C, phi=s['phi'], num=5, **sg)
            except ValueError as e:
                if 'must have different signs' not in str(e):
                    raise
        for w in c['last']:
            up = not w.endswith('-')
            if w.startswith('weak'):
                m.set_foundation_properties(t=c['t'], E=c['E'], nu=c['nuw'], update=up)
            else:
                m.set_beam_properties(mklayers(c), C0=c['C0'], C1=c['C1'], nu=c['nu'], update=up)
        m.set_surface_load(c['p'])
        samemodel(m, fresh, 'updated model:')
        close('kn', m.kn, R.kn, 1e-10)
        close('D11', m.D11, R.D, 1e-9)
        sameres(results(m, c, kw, sk), results(fresh, c, kw, sk), 'updated model:')


def isolated(f):
    """the value of f() computed in a process of its own"""
    import os
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            try:
                v = (True, f())
            except Exception as e:
                v = (False, f'{type(e).__name__}: {e}')
            with os.fdopen(w, 'wb') as fh:
                pickle.dump(v, fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        d = fh.read()
    os.waitpid(pid, 0)
    ok, v = pickle.loads(d)
    if not ok:
        raise ValueError(v)
    return v


@oracle('C19', n=24, nt=150)
class OneChange:
    """an analysis of the same column with one property changed leaves no trace"""
    def gen(rng, k):
        c = gtd(rng, k) if k % 3 else gmodel(rng, system=SYSTEMS[(k // 3) % 6])
        if not k % 3:
            c.update(phi=gphi(rng), L=rnd(rng, 1500, 6000), cf=.5, ratio=100., frac=.3, where=0)
        if k % 4 == 1:
            d = rnd(rng, 60, 250)            # stretching, bending and shear stiffness do not change with the order
            c['layers'] = [[rnd(rng, 90, 180), d], [rnd(rng, 250, 400), d]]
        c['before'] = near(c, rng)
        if k % 2 and not isinstance(c['layers'], str):
            c['before'] = {**c, 'layers': [list(r) for r in c['layers']][::-1]}
        return c

    def run(c):
        st = setup(c)
        if st is None:
            return
        _, R, a, kw, sk = st
        d = c['before']
        want = isolated(lambda: results(build(c), c, kw, sk))
        m = build(d)
        try:
            results(m, d, kw, sk)
        except ValueError as e:
            if 'must have different signs' not in str(e):
                raise
        m.set_surface_load(c['p'])
        m.set_foundation_properties(t=c['t'], E=c['E'], nu=c['nuw'], update=True)
        m.set_beam_properties(mklayers(c), C0=c['C0'], C1=c['C1'], nu=c['nu'], update=True)
        got = results(m, c, kw, sk)
        sameres(got, want, 'after another analysis:')


# ------------------------------------------------------------------ C20
@oracle('C20', n=60)
class Wedge:
    def gen(rng, k):
        c = gmodel(rng, system=['vpst-', '-vpst'][k % 2])
        c['phi'] = gphi(rng)
        c['L'], c['a'] = rnd(rng, 1000, 5000), rnd(rng, 0, 800)
        return c

    def run(c):
        m, R = build(c), Ref(c)
        phi = c['phi']
        slab0 = m.slab.copy()
        N, M, V, w, xs, zs = wedge(R, phi)
        gx, gz, gw = tools.calc_vertical_bc_center_of_gravity(m.slab, phi)
        same('slab', m.slab, slab0)
        close('wedge mass', gw, w, 1e-9, scale=abs(w) + 1e-300)
        close('wedge zs', gz, zs, 1e-9, scale=R.h)
        close('wedge xs', gx, xs, 1e-8, scale=abs(xs) + 1e-300)
        m.touchdown = False
        s = m.calc_segments(L=c['L'], a=c['a'], phi=phi)['crack']
        C = m.assemble_and_solve(phi=phi, **s)
        if c['a'] > 0:
            ends, vec, sc = chk_solution(m, R, s, phi, C)
            F = np.array([[N], [M], [V]])
            for e in (vec(ends[0][0]), vec(ends[-1][1])):
                d = np.abs(e[3:] - F)
                tol = 1e-6*(sc[3:] + np.array([[abs(N)], [abs(M)], [abs(V)]]))
                true(f'end forces {e[3:].ravel()}, wedge weight gives {F.ravel()}', (d <= tol).all())
        # flat terrain
        p = build({**c, 'system': c['system'][1:] if c['system'][0] == 'v' else '-pst'})
        sv, sp = m.calc_segments(L=c['L'], a=c['a'] + 50, phi=0), p.calc_segments(L=c['L'], a=c['a'] + 50, phi=0)
        same('flat segments', sv['crack']['li'], sp['crack']['li'])
        Cv, Cp = m.assemble_and_solve(phi=0, **sv['crack']), p.assemble_and_solve(phi=0, **sp['crack'])
        zv = m.rasterize_solution(C=Cv, phi=0, num=20, **sv['crack'])[1]
        zp = p.rasterize_solution(C=Cp, phi=0, num=20, **sp['crack'])[1]
        close('flat vertical faces', zv, zp, 1e-6, scale=np.abs(zp).max(axis=1)[:, None] + 1e-9)


# ------------------------------------------------------------------ C21
@oracle('C21', n=30, nt=200)
class Potentials:
    def gen(rng, k):
        c = gtd(rng, k)
        if rng.random() < .4:
            c['touchdown'] = False
        return c

    def run(c):
        m, R = build(c), Ref(c)
        if not tdvalid(c, R):
            return
        a, *_ = pick(c, Touch(R, c['L'], c['cf'], c['phi'], c['ratio']))
        if a is None or not 0 < a < .97*c['L']:
            return
        phi, L = c['phi'], c['L']
        s = m.calc_segments(L=L, a=a, phi=phi, cf=c['cf'], ratio=c['ratio'])['crack']
        C = m.assemble_and_solve(phi=phi, **s)
        xq, zq, xb = m.rasterize_solution(C=C, phi=phi, **s)
        qn, qt, pn, pt = R.loads(phi)
        qn, qt = qn + pn, qt + pt
        li = arr(s['li'])
        Ls = li.sum()
        us = zq[0] + R.zs*zq[4]
        j = -1 if c['system'] == 'pst-' else 0

        def ext(avg):
            t = [-qn*Ls*avg(zq[2], lambda Z: Z[2]), -qn*(L - Ls)*m.tc, -qt*Ls*avg(us, lambda Z: Z[0] + R.zs*Z[4]),
                 -qt*(L - Ls)*us[j]]
            return sum(t), sum(map(abs, t))
        N, M, V = R.forces(zq)
        sup = ~np.isnan(xb)
        Lw = li[arr(s['ki']) > 0].sum()

        def inn(avg):
            t = [L/2/R.A*avg(N**2, lambda Z: R.forces(Z)[0]**2), L/2/(R.D - R.B**2/R.A)*avg(M**2, lambda Z: R.forces(Z)[1]**2),
                 L/2/R.kA*avg(V**2, lambda Z: R.forces(Z)[2]**2),
                 Lw*R.kn/2*avg(zq[2]**2, lambda Z: Z[2]**2, True), Lw*R.kt/2*avg((zq[0] + R.h/2*zq[4])**2, lambda Z: (Z[0] + R.h/2*Z[4])**2, True),
                 .5*abs(M[j]*zq[4, j])]
            return sum(t), sum(map(abs, t))

        def grid(v, f, weak=False):
            return v[sup].mean() if weak else v.mean()

        def integ(v, f, weak=False):
            tot = 0.0
            x, w = np.polynomial.legendre.leggauss(16)
            for i, (l, k) in enumerate(zip(li, s['ki'])):
                if weak and not k:
                    continue
                for q in range(12):
                    p0, p1 = l*q/12, l*(q + 1)/12
                    xs = list((p0 + p1)/2 + (p1 - p0)/2*x)
                    Z = m.z(xs, C[:, [i]], l, phi, bool(k))
                    tot += (w*(p1 - p0)/2) @ f(Z)
            return tot/(Lw if weak else Ls)

        def ok(what, got, f):
            (g, sg), = (f(grid),)
            if abs(got - g) <= 1e-8*sg:
                return
            i, si = f(integ)
            if abs(got - i) > 2e-2*si:
                raise Bad(f'{what}: {got!r}, expected {g!r} (grid averages) or {i!r} (integrals)')
        pe = m.external_potential(C, phi, L, **s)
        pi = m.internal_potential(C, phi, L, **s)
        pt_ = m.total_potential(C, phi, L, **s)
        ok('external potential', float(pe), ext)
        ok('internal potential', float(pi), inn)
        close('total potential', pt_, pe + pi, 1e-9, scale=abs(pe) + abs(pi))


# ------------------------------------------------------------------ C22
LAWS = {'bergfeld': lambda r, rho0=917, C0=6.5, C1=4.4: C0*1e3*(r/rho0)**C1,
        'gerling': lambda r, C0=6.0, C1=4.6: C0*1e-10*r**C1,
        'scapozza': lambda r: 5.07e3*(r/917)**5.13}


@oracle('C22', n=60)
class Materials:
    def gen(rng, k):
        return {'rho': [rnd(rng, .5, 917, 4) for _ in range(int(rng.integers(1, 6)))] + [rnd(rng, 100, 400)],
                'C0': rnd(rng, .1, 20), 'C1': rnd(rng, .5, 8), 'rho0': rnd(rng, 800, 1000),
                'int': bool(rng.random() < .2)}

    def run(c):
        v = np.array(c['rho'])
        if c['int']:
            v = np.ceil(v).astype(int)
        v0 = v.copy()
        for r in [v] + list(v) + [float(v[0]), int(np.ceil(v[0]))]:
            for n, f in LAWS.items():
                close(n, getattr(tools, n)(r), f(r*1.0), 1e-10)
            close('bergfeld', tools.bergfeld(r, c['rho0'], c['C0'], c['C1']), LAWS['bergfeld'](r*1.0, c['rho0'], c['C0'], c['C1']), 1e-10)
            close('bergfeld', tools.bergfeld(r, C1=c['C1'], C0=c['C0']), LAWS['bergfeld'](r*1.0, 917, c['C0'], c['C1']), 1e-10)
            close('gerling', tools.gerling(r, C0=c['C0'], C1=c['C1']), LAWS['gerling'](r*1.0, c['C0'], c['C1']), 1e-10)
            s = 240*(r/917)**2.44
            close('tensile', tools.tensile_strength_slab(r), s, 1e-10)
            close('tensile kPa', tools.tensile_strength_slab(r, unit='kPa'), s, 1e-10)
            close('tensile MPa', tools.tensile_strength_slab(r, unit='MPa'), s/1e3, 1e-10)
        same('densities', v, v0)
        o = np.unique(v)*1.0
        for n in list(LAWS) + ['tensile_strength_slab']:
            y = getattr(tools, n)(o)
            true(n + ' positive', (y > 0).all())
            true(n + ' increasing', (np.diff(y) > 0).all())


@oracle('C22', 'Profiles', n=60)
class Profiles:
    def gen(rng, k):
        p = PROFILES[k % 11]
        return {'id': [p, p.upper(), p.capitalize(), ''.join(x.upper() if rng.random() < .5 else x for x in p)][int(rng.integers(4))],
                'bad': str(rng.choice(['g', 'i', 'z', 'weak', 'softt', '', ' a', 'a ', 'homogeneous', 'abc', '1'])),
                'order': int(rng.integers(4))}

    def run(c):
        R = rows(c['id'])
        L, E = tools.load_dummy_profile(c['id'])
        close('profile layers', L, [[r, d] for r, d, _ in R], 0)
        close('profile moduli', E, [e for *_, e in R], 0)
        # the database must not be affected by changing a returned table
        L[:] = 1
        E[:] = 1
        L, E = tools.load_dummy_profile(c['id'])
        close('profile layers (again)', L, [[r, d] for r, d, _ in R], 0)
        close('profile moduli (again)', E, [e for *_, e in R], 0)
        raises(f"profile {c['bad']!r}", ValueError, tools.load_dummy_profile, c['bad'])
        m = Layered(layers=c['id'])
        close('model slab', m.slab[:, :3], [list(r) for r in R], 1e-12)
        if c['bad'].split():
            b = c['bad'].split()[-1]
            if b.lower() not in PROFILES:
                raises('model with unknown profile', ValueError, Layered, layers=b)


# ------------------------------------------------------------------ C23
@oracle('C23', n=40)
class Exports:
    def gen(rng, k):
        c = gmodel(rng)
        n = int(rng.integers(1, 30))
        c['Z'] = gC(rng, n)
        c['x'] = np.cumsum(rng.uniform(0, 100, n)).round(4).tolist()
        c['sup'] = [bool(rng.random() < float(c['t'] > 30)*.5 + .3) for _ in range(n)]
        c['raster'] = bool(rng.random() < .5)
        return c

    def run(c):
        m, R = build(c), Ref(c)
        Z, x = arr(c['Z']), arr(c['x'])
        sup = np.array(c['sup'])
        xb = np.where(sup, x, np.nan)
        keep = (Z.copy(), x.copy(), xb.copy())
        s0 = snap(m)
        su = abs(Z[0]) + R.h/2*abs(Z[4])
        st = R.kt*(su + R.t/2*abs(Z[3])) + 1e-300

        def chk(what, r, xe, ye, sc):
            close(what + ' x (cm)', r[0], xe, 1e-12)
            close(what, r[1], ye, 1e-9, scale=sc)
        for u, f in UL.items():
            for loc, z0 in (('top', -R.h/2), ('mid', 0), ('bot', R.h/2)):
                chk(f'displacement {loc} {u}', m.get_slab_displacement(x, Z, loc=loc, unit=u), x/10, f*(Z[0] + z0*Z[4]), f*su)
            chk(f'deflection {u}', m.get_slab_deflection(x, Z, unit=u), x/10, f*Z[2], f*abs(Z[2]))
        chk('displacement', m.get_slab_displacement(x, Z), x/10, Z[0], su)
        chk('deflection', m.get_slab_deflection(x, Z), x/10, Z[2], abs(Z[2]))
        d = Z[4]*180/math.pi
        for u in ('deg', 'degree', 'degrees'):
            chk('rotation ' + u, m.get_slab_rotation(x, Z, unit=u), x/10, d, abs(d))
        for u in ('rad', 'radians'):
            chk('rotation ' + u, m.get_slab_rotation(x, Z, unit=u), x/10, Z[4], abs(Z[4]))
        chk('rotation', m.get_slab_rotation(x, Z), x/10, d, abs(d))
        for xx in (xb, x):
            s = ~np.isnan(xx)
            for u, f in US.items():
                sig, tau = f*R.sig(Z), f*R.tau(Z)
                nn = lambda y: np.where(s, y, np.nan)
                chk(f'shear stress {u}', m.get_weaklayer_shearstress(xx, Z, unit=u), xx/10, nn(tau), f*st)
                chk(f'normal stress {u}', m.get_weaklayer_normalstress(xx, Z, unit=u), xx/10, nn(sig), abs(sig) + 1e-300)
                chk(f'shear stress {u} (removed)', m.get_weaklayer_shearstress(xx, Z, unit=u, removeNaNs=True),
                    xx[s]/10, tau[s], f*st[s])
                chk(f'normal stress {u} (removed)', m.get_weaklayer_normalstress(xx, Z, unit=u, removeNaNs=True),
                    xx[s]/10, sig[s], abs(sig[s]) + 1e-300)
            s_, t_ = R.sig(Z), R.tau(Z)
            chk('shear stress', m.get_weaklayer_shearstress(xx, Z), xx/10, np.where(s, t_, np.nan), st)
            chk('normal stress', m.get_weaklayer_normalstress(xx, Z), xx/10, np.where(s, s_, np.nan), abs(s_) + 1e-300)
        for a, b, n in zip((Z, x, xb), keep, ('z', 'x', 'x')):
            same('argument ' + n, a, b)
        if changed(m, s0):
            raise Bad(f'exports change {changed(m, s0)}')


# ------------------------------------------------------------------ C24
MIR = {'pst-': '-pst', '-pst': 'pst-', 'vpst-': '-vpst', '-vpst': 'vpst-', 'skier': 'skier', 'skiers': 'skiers'}
SG = np.array([-1, 1, 1, -1, -1, 1])[:, None]


def mirfields(m, R, s1, C1, s2, C2, p, phi, mm):
    """solutions at mirrored positions"""
    n = len(s1['li'])
    Z1, Z2 = [], []
    for i in range(n):
        l, k = float(s1['li'][i]), bool(s1['ki'][i])
        for f in (0, .13, .5, .77, 1):
            Z1.append(m.z(f*l, C1[:, [i]], l, phi, k))
            Z2.append(SG*mm.z((1 - f)*l, C2[:, [n - 1 - i]], l, -phi, k))
    Z1, Z2 = np.hstack(Z1), np.hstack(Z2)
    s = np.abs(Z1).max(axis=1)[:, None]
    s[0] = s[2] = max(s[0, 0], s[2, 0])
    s[1] = max(s[1, 0], s[5, 0]*R.h)
    s[3] = s[4] = max(s[3, 0], s[4, 0])
    close('mirrored solution', Z2, Z1, 2e-6, scale=s)
    close('mirrored normal stress', mm.sig(SG*Z2), m.sig(Z1), 2e-6, scale=R.kn*s[0])
    close('mirrored shear stress', -mm.tau(SG*Z2), m.tau(Z1), 2e-6, scale=R.kt*(s[0] + R.h*s[4] + R.t*s[3]))


@oracle('C24', n=36, nt=240)
class Mirror:
    def gen(rng, k):
        c = gmodel(rng, system=SYSTEMS[k % 6])
        c['phi'] = gphi(rng)
        c['seg'] = notip(gcrack(rng, c))
        return c

    def run(c):
        m, R = build(c), Ref(c)
        mm = build({**c, 'system': MIR[c['system']]})
        m.mode = mm.mode = 'A'
        phi = c['phi']
        s1 = npsegs(c['seg'])
        s2 = npsegs({k: v[::-1] for k, v in c['seg'].items()})
        with quiet():
            r = []
            for mo, s, p in ((m, s1, phi), (mm, s2, -phi)):
                C = mo.assemble_and_solve(phi=p, li=s['li'], mi=s['mi'], ki=s['ki'])
                C0 = mo.assemble_and_solve(phi=p, li=s['li'], mi=s['mi'], ki=s['k0'])
                r.append((C, mo.gdif(C, p, **s), mo.ginc(C0, C, p, **s)))
        mirfields(m, R, s1, r[0][0], s2, r[1][0], None, phi, mm)
        close('mirrored gdif', r[1][1], r[0][1], 1e-5, scale=abs(r[0][1][0]) + 1e-12)
        close('mirrored ginc', r[1][2], r[0][2], 1e-3, scale=np.abs(r[0][2]).max() + 1e-9)


@oracle('C24', 'MirrorColumn', n=24, nt=150)
class MirrorColumn:
    def gen(rng, k):
        return gstate(rng, k)

    def run(c):
        st = setup(c)
        if st is None:
            return
        m, R, a, kw, sk = st
        mm = build({**c, 'system': MIR[c['system']]})
        phi = c['phi']
        sk2 = {k: v[::-1] for k, v in sk.items()}
        s1 = m.calc_segments(**kw, **sk)['crack']
        s2 = mm.calc_segments(**{**kw, 'phi': -phi}, **sk2)['crack']
        true(f'stage {m.mode} vs {mm.mode}', m.mode == mm.mode)
        close('mirrored lengths', s2['li'][::-1], s1['li'], 1e-8)
        same('mirrored supports', s2['ki'][::-1], s1['ki'])
        close('mirrored weights', s2['mi'][::-1], s1['mi'], 1e-12)
        with quiet():
            C1, C2 = m.assemble_and_solve(phi=phi, **s1), mm.assemble_and_solve(phi=-phi, **s2)
        mirfields(m, R, s1, C1, s2, C2, None, phi, mm)
        if c['system'] != 'skiers':
            close('mirrored gdif', mm.gdif(C2, -phi, **s2), m.gdif(C1, phi, **s1), 1e-5, scale=abs(m.gdif(C1, phi, **s1)[0]) + 1e-12)


# ------------------------------------------------------------------ C25
@oracle('C25', n=30, nt=200)
class InverseModel:
    def gen(rng, k):
        c = gstate(rng, 2*k)
        c['touchdown'] = False
        c['none'] = bool(rng.random() < .15)
        c['par'] = bool(rng.random() < .8)
        c['tdon'] = bool(rng.random() < .4)
        if c['none']:
            c['layers'] = [[240, 200]]
        return c

    def run(c):
        c = {**c, 't': 30.0, 'nuw': .25, 'nu': .25}
        L = mklayers(c)
        if not c['par']:
            c['C0'], c['C1'], c['E'] = 6.0, 4.6, .25
            inv = Inverse(c['system'], None if c['none'] else L)
        else:
            inv = Inverse(system=c['system'], layers=None if c['none'] else L, parameters=(c['C0'], c['C1'], c['E']))
        fwd = build({**c, 'order': 1, 'p': 0})
        R = Ref({**c, 'p': 0})
        samemodel(inv, fwd, 'inverse model:')
        close('inverse D11', inv.D11, R.D, 1e-9)
        close('inverse kn', inv.kn, R.kn, 1e-10)
        for m in (inv, fwd):
            if c['p']:
                m.set_surface_load(c['p'])
        c2 = dict(c)
        if c['tdon'] and c['system'] in ('pst-', '-pst') and tdvalid(c, R):
            inv.touchdown = fwd.touchdown = True
        kw = dict(L=c['L'], a=.25*c['L'], m=75, phi=c['phi'], cf=.5, ratio=100)
        sk = {'li': [c['L'], 300., c['L']], 'mi': [60, 0], 'ki': [True, False, True], 'k0': [True]*3}
        try:
            want = results(fwd, c2, kw, sk)
        except ValueError as e:
            if 'must have different signs' in str(e):
                return
            raise
        sameres(results(inv, c2, kw, sk), want, 'inverse model:')


# ------------------------------------------------------------------ C26
@oracle('C26', n=16, nt=100)
class Helper:
    def gen(rng, k):
        c = gmodel(rng)
        c.update(phi=gphi(rng), t=rnd(rng, 5, 40), nu=.25, nuw=.25, p=0.0, none=bool(rng.random() < .12),
                 plain=bool(rng.random() < .2), fewkw=bool(rng.random() < .25), system='pst-', cf=.5, ratio=1000)
        if c['none']:
            c['layers'] = [[240, 200]]
        return c

    def run(c):
        if c['fewkw']:
            c = {**c, 'C0': 6.5, 'C1': 4.4, 'E': .25, 't': 10.0}
        R = Ref(c)
        if not tdvalid(c, R):
            return
        L = None if c['none'] else mklayers(c)
        keep = copy.deepcopy(L)
        kw = {} if c['fewkw'] else dict(C0=c['C0'], C1=c['C1'], Ewl=c['E'], t=c['t'])
        r = tools.touchdown_distance(layers=L, phi=c['phi'], **kw)
        if L is not None and not eqv(L, keep):
            raise Bad('touchdown_distance modifies its layers argument')
        T = Touch(R, 1e5, .5, c['phi'], 1000)
        a1, a2 = T.a1(), T.a2()
        close('first contact', r[0], a1, 1e-6)
        close('full contact', r[1], a2, 1e-6)
        close('steady state', r[2], T.lC(5*a1), 1e-5)
        # the user's own model
        m = Layered(system='pst-', touchdown=True)
        m.set_foundation_properties(E=c['E'], t=c['t'], update=True)
        m.set_beam_properties(L if L is not None else [[240, 200]], C0=c['C0'], C1=c['C1'], update=True)
        m.calc_segments(L=1e5, a=5*a1, phi=c['phi'])
        close('own first contact', m.calc_a1(), r[0], 1e-6)
        close('own full contact', m.calc_a2(), r[1], 1e-6)
        close('own steady state', m.calc_lC(), r[2], 1e-5)


# ------------------------------------------------------------------ C27
@contextlib.contextmanager
def canvas():
    """run plots in a scratch directory; figures stay open for inspection"""
    import matplotlib.pyplot as plt
    from weac import plot
    d = tempfile.mkdtemp(prefix='weacplot')
    cwd = os.getcwd()
    close_ = plt.close
    plt.close('all')
    try:
        os.chdir(d)
        plt.close = lambda *a, **k: None
        with quiet():
            yield plot, plt
    finally:
        plt.close = close_
        plt.close('all')
        os.chdir(cwd)
        shutil.rmtree(d)


def shown(plt, what, name, curves, before):
    files = set(os.listdir('plots')) if os.path.isdir('plots') else set()
    new = files - before
    true(f'{what}: writes {sorted(new)}, expected {name}.png', new == {name + '.png'})
    true(f'{what}: file is not empty', os.path.getsize(f'plots/{name}.png') > 500)
    true(f'{what}: writes only into plots', os.listdir('.') == ['plots'])
    got = []
    for ax in plt.gcf().axes:
        for ln in ax.lines:
            got.append((arr(ln.get_xdata(orig=True)), arr(ln.get_ydata(orig=True))))
    for n, x, y in curves:
        s = np.nanmax(np.abs(y)) + 1e-12 if np.size(y) else 1
        if not any(a.shape == x.shape and b.shape == y.shape
                   and (np.isnan(a) == np.isnan(x)).all() and (np.isnan(b) == np.isnan(y)).all()
                   and np.nanmax(np.abs(a - x), initial=0) <= 1e-9*np.nanmax(np.abs(x), initial=1)
                   and np.nanmax(np.abs(b - y), initial=0) <= 1e-9*s for a, b in got):
            raise Bad(f'{what}: no curve shows {n}')
    close_all(plt)


def close_all(plt):
    import matplotlib._pylab_helpers as h
    h.Gcf.destroy_all()


@oracle('C27', n=8, nt=30)
class Plots:
    def gen(rng, k):
        c = gmodel(rng, system=SYSTEMS[k % 6])
        c.update(phi=gphi(rng), L=rnd(rng, 12000, 15000), a=rnd(rng, 300, 900))
        c['i'] = str(rng.choice(['', '1', 'run']))
        return c

    def run(c):
        m, R = build(c), Ref(c)
        phi = c['phi']
        sk = {'li': [6e3, c['a'], 7e3], 'mi': [60, 0], 'ki': [True, False, True], 'k0': [True]*3}
        with quiet():
            s = m.calc_segments(L=c['L'], a=c['a'], m=80, phi=phi, **sk)['crack']
            C = m.assemble_and_solve(phi=phi, **s)
            x, z, xb = m.rasterize_solution(C=C, phi=phi, num=260, **s)
        s0 = snap(m)
        keep = [v.copy() for v in (x, z, xb)]
        seg0 = copy.deepcopy(s)
        rng = np.random.default_rng(5)
        G, H = rng.uniform(1, 2, (3, 60)), rng.uniform(1, 2, (3, 60))
        da = np.linspace(1, 400, 60)
        st = rng.uniform(-1, 1, x.size)
        gk = [v.copy() for v in (G, H, da, st)]
        N, M, V = R.forces(z)
        deg = z[4]*180/math.pi
        with canvas() as (P, plt):
            ls = lambda: set(os.listdir('plots')) if os.path.isdir('plots') else set()
            b = ls()
            P.displacements(m, x, z, i=c['i'], **s)
            shown(plt, 'displacements', 'disp' + c['i'], [('u0 (mm)', x/10, z[0]), ('-w (mm)', x/10, -z[2]), ('psi (deg)', x/10, deg)], b)
            b = ls()
            P.section_forces(m, x, z, i=c['i'], **s)
            shown(plt, 'section_forces', 'forc' + c['i'], [('N', x/10, m.N(z)), ('M', x/10, m.M(z)), ('V', x/10, m.V(z))], b)
            b = ls()
            P.stresses(m, xb, z, i=c['i'], **s)
            shown(plt, 'stresses', 'stress' + c['i'], [('tau (kPa)', xb/10, 1e3*m.tau(z)), ('sigma (kPa)', xb/10, 1e3*m.sig(z))], b)
            b = ls()
            P.stress_criteria(x, st, **s)
            shown(plt, 'stress_criteria', 'crit', [('stress', x/10, st)], b)
            for mode in (0, 1, 2):
                b = ls() - {'err.png'}
                P.err_comp(da, G, H, mode=mode)
                shown(plt, 'err_comp', 'err', [('G', da/10, 1e3*G[mode]), ('Ginc', da/10, 1e3*H[mode])], b)
            for kind in ('inc', 'dif'):
                b = ls() - {'modes.png'}
                P.err_modes(da, G, kind=kind)
                shown(plt, 'err_modes', 'modes', [(f'G[{i}]', da/10, 1e3*G[i]) for i in range(3)], b)
            b = ls()
            fea = np.column_stack([np.linspace(0, 500, 70)] + [rng.normal(size=70) for _ in range(5)])
            fk = fea.copy()
            P.fea_disp(m, x, z, fea)
            shown(plt, 'fea_disp', 'fea_disp', [('u0', x/10, z[0]), ('-w', x/10, -z[2]), ('psi', x/10, deg),
                  ('FEA u', fea[:, 0]/10, -fea[::-1, 1]), ('FEA w', fea[:, 0]/10, fea[::-1, 2]),
                  ('FEA psi', fea[:, 0]/10, fea[::-1, 5]*180/math.pi)], b)
            b = ls()
            P.fea_stress(m, xb, z, fea)
            shown(plt, 'fea_stress', 'fea_stress', [('tau', xb/10, 1e3*m.tau(z)), ('sig', xb/10, 1e3*m.sig(z)),
                  ('FEA 2', fea[:, 0]/10, 1e3*fea[::-1, 2]), ('FEA 12', fea[:, 0]/10, 1e3*fea[::-1, 3])], b)
            same('fea', fea, fk)
            b = ls()
            P.slab_profile(m)
            new = ls() - b
            true(f'slab_profile writes {new}', new == {'profile.png'})
            v = plt.gcf().axes[0].collections[0].get_paths()[0].vertices
            zb = R.h/2 - R.zi
            for i in range(R.n):
                for y in (zb[i], zb[i + 1]):
                    true('slab_profile outline', (np.abs(v - [R.rho[i], y]).sum(axis=1) < 1e-6*R.h + 1e-6).any())
            close_all(plt)
        for a, k, n in zip((x, z, xb, G, H, da, st), keep + gk, ('x', 'z', 'xb', 'G', 'H', 'da', 'stress')):
            same('argument ' + n, a, k)
        for k in s:
            same('segments ' + k, s[k], seg0[k])
        if changed(m, s0):
            raise Bad(f'plots change {changed(m, s0)}')


@oracle('C27', 'Contours', n=6, nt=24)
class Contours:
    def gen(rng, k):
        c = gmodel(rng, system=SYSTEMS[k % 6])
        c.update(phi=gphi(rng, 0), L=rnd(rng, 12000, 15000), a=rnd(rng, 300, 900))
        c['fields'] = ['u', 'w', 'Sxx', 'Txz', 'Szz', 'principal'] if k % 3 == 0 else [str(rng.choice(['u', 'w', 'Sxx', 'Txz', 'Szz', 'principal']))]
        c['normalize'], c['dark'] = bool(rng.random() < .5), bool(rng.random() < .3)
        return c

    def run(c):
        m, R = build(c), Ref(c)
        phi, dz = c['phi'], 40
        sk = {'li': [6e3, c['a'], 7e3], 'mi': [60, 0], 'ki': [True, False, True], 'k0': [True]*3}
        with quiet():
            s = m.calc_segments(L=c['L'], a=c['a'], m=80, phi=phi, **sk)['crack']
            C = m.assemble_and_solve(phi=phi, **s)
            x, z, xb = m.rasterize_solution(C=C, phi=phi, num=30, **s)
        s0 = snap(m)
        keep = [v.copy() for v in (x, z, xb)]
        with canvas() as (P, plt):
            for fld in c['fields']:
                rec = []
                real = plt.contourf

                def spy(*a, **k):
                    rec.append((a, k))
                    return real(*a, **k)
                plt.contourf = spy
                try:
                    P.deformed(m, x, xb, z, phi, dz=dz, field=fld, levels=20, scale=50, normalize=c['normalize'],
                               dark=c['dark'], filename='cont_' + fld)
                finally:
                    plt.contourf = real
                true('contour file', os.path.isfile(f'plots/cont_{fld}.png') and os.listdir('.') == ['plots'])
                zi = m.get_zmesh(dz=dz)[:, 0]
                n = zi.size
                if fld == 'u':
                    sl = np.vstack([1e3*(z[0] + y*z[4]) for y in zi])
                    wk = sl[-1]
                elif fld == 'w':
                    sl = np.tile(1e3*z[2], (n, 1))
                    wk = sl[-1]
                elif fld == 'principal':
                    sl = m.principal_stress_slab(z, phi, dz=dz, normalize=c['normalize'])
                    wk = m.principal_stress_weaklayer(z, normalize=c['normalize'])
                else:
                    sl = getattr(m, fld)(z, phi, dz=dz)
                    wk = {'Sxx': 0*z[0], 'Txz': np.where(np.isnan(xb), np.nan, 1e3*m.tau(z)),
                          'Szz': np.where(np.isnan(xb), np.nan, 1e3*m.sig(z))}[fld]
                x0 = x - x.max()/2 if c['system'] in ('skier', 'skiers') else x
                X = np.vstack([x0/10 + 50*(z[0] + y*z[4])/10 for y in zi])
                Y = np.vstack([(y + R.h/2)/10 + 50*z[2]/10 for y in zi])
                ok = any(np.shape(a[2]) == sl.shape and np.allclose(np.ma.filled(np.ma.asarray(a[2], float), np.nan), sl, rtol=1e-7, atol=1e-9*np.abs(sl).max(), equal_nan=True)
                         and np.allclose(a[0], X, rtol=1e-7, atol=1e-6) and np.allclose(a[1], Y, rtol=1e-7, atol=1e-6)
                         for a, k in rec if len(a) >= 3)
                true(f'contour plot shows the slab field {fld}', ok)
                ws = np.nanmax(np.abs(wk), initial=0)
                ok = any(np.ndim(a[2]) == 2 and np.shape(a[2])[1] == wk.size and np.allclose(np.ma.filled(np.ma.asarray(a[2], float), np.nan)[0], wk, rtol=1e-7, atol=1e-9*ws + 1e-12, equal_nan=True)
                         for a, k in rec if len(a) >= 3)
                true(f'contour plot shows the weak-layer field {fld}', ok)
                for a, k in rec:
                    lv = arr(k['levels'])
                    true('contour levels symmetric and increasing', (np.diff(lv) > 0).all() and np.allclose(lv, -lv[::-1], atol=1e-9*lv.max()))
                close_all(plt)
            raises('invalid field', ValueError, P.deformed, m, x, xb, z, phi, dz=dz, field='foo')
        for a, k, n in zip((x, z, xb), keep, ('x', 'z', 'xb')):
            same('argument ' + n, a, k)
        if changed(m, s0):
            raise Bad(f'contour plots change {changed(m, s0)}')


@oracle('C27', 'PlotHelpers', n=100)
class PlotHelpers:
    def gen(rng, k):
        return {'shape': [int(rng.integers(2, 7)), int(rng.integers(2, 7))], 'limit': float(10**rng.uniform(-3, 3)),
                'samples': int(rng.integers(4, 120)), 'tight': float(rng.choice([1, 1.5, 3, rnd(rng, 1, 4)])),
                'color': [rnd(rng, 0, 1) for _ in range(3)], 'amount': rnd(rng, 0, 4), 'dec': float(10**rng.uniform(-6, 6)),
                'name': str(rng.choice(['red', 'black', '#005AA9', 'w', 'tab:blue', 'navy']))}

    def run(c):
        from weac import plot as P
        import matplotlib.colors as mc
        import colorsys
        n, k = c['shape']
        g = np.arange(n*k, dtype=float).reshape(n, k)
        g0 = g.copy()
        o = arr(P.outline(g))
        same('grid', g, g0)
        b = {g[i, j] for i in range(n) for j in range(k) if i in (0, n - 1) or j in (0, k - 1)}
        true('outline covers the boundary', set(o) == b)
        true('outline is closed', o[0] == o[-1] and len(o) == 2*(n + k) - 3)
        ij = [(int(v)//k, int(v) % k) for v in o]
        true('outline walks along the boundary', all(abs(a - d) + abs(e - f) == 1 for (a, e), (d, f) in zip(ij, ij[1:])))
        lv = arr(P.tight_central_distribution(c['limit'], samples=c['samples'], tightness=c['tight']))
        true('levels ordered', (np.diff(lv) > 0).all())
        close('levels symmetric', lv, -lv[::-1], 0, atol=1e-12*c['limit'])
        close('levels reach the limit', lv[-1], c['limit'], 1e-9)
        true('levels contain zero', 0 in lv)
        s = np.linspace(0, c['limit']**(1/c['tight']), int(c['samples']/2))**c['tight']
        close('levels', lv[lv >= 0], np.unique(s), 1e-9, scale=c['limit'])
        for col in (tuple(c['color']), c['name']):
            r = P.adjust_lightness(col, c['amount'])
            true('valid colour', len(r) == 3 and all(-1e-12 <= v <= 1 + 1e-12 for v in r))
            h, l, q = colorsys.rgb_to_hls(*mc.to_rgb(col))
            close('lightness', r, colorsys.hls_to_rgb(h, max(0, min(1, c['amount']*l)), q), 1e-9, scale=1)
        true('significant digits', P.significant_digits(c['dec']) == -math.floor(math.log10(c['dec'])))
