"""Replays inputs found by the verifier on the real code (runs under /opt/venv/bin/python)."""
import contextlib
import io
import json
import math
import os
import sys
import warnings
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
import numpy as np
import weac
assert os.path.realpath(weac.__file__).startswith(os.path.realpath(REPO) + '/'), weac.__file__


def fl(x):
    return math.nan if x == 'nan' else math.inf if x == 'inf' else x


def build(v):
    if isinstance(v, dict):
        if 'array' in v:
            k = v['kind']
            f = [build(x) for x in v['array']]
            dt = {'f': float, 'i': int, 'b': bool, 'c': complex}.get(k, float)
            if dt is not complex and any(isinstance(x, complex) for x in f):
                dt = complex
            return np.array([fl(x) for x in f], dtype=dt).reshape(v['shape'])
        if 're' in v:
            return complex(fl(v['re']), fl(v['im']))
        if 'tuple' in v:
            return tuple(build(x) for x in v['tuple'])
        if 'dict' in v:
            return {k: build(x) for k, x in v['dict']}
        if 'obj' in v:
            cls = getattr(weac, v['obj'], None)
            o = object.__new__(cls)
            o.__dict__.update({k: build(x) for k, x in v['attrs'].items()})
            return o
        if 'any' in v:
            return Ellipsis
        if 'eig' in v:
            return Eig
        raise ValueError(str(v)[:80])
    if isinstance(v, list):
        return [build(x) for x in v]
    return fl(v) if v in ('nan',) else v


EIG = ('ewR', 'ewC', 'evR', 'evC', 'sR', 'sC')


class Eig:
    """expected value of an eigensystem attribute: that of the system matrix of the expected state"""


def system_matrix(o):
    """from equilibrium: N' = tau, V' = kn w, M' = V + (h+t)/2 tau with the constitutive laws"""
    A, B, D, kA, kn, kt, h, t = o.A11, o.B11, o.D11, o.kA55, o.kn, o.kt, o.h, o.t
    tau = np.array([kt, 0, 0, -kt*t/2, kt*h/2, 0])
    m = np.array([0, 0, 0, kA, kA, 0]) + (h + t)/2*tau
    K = np.zeros((6, 6))
    K[0, 1] = K[2, 3] = K[4, 5] = 1
    K[1], K[5] = (D*tau - B*m)/(A*D - B*B), (A*m - B*tau)/(A*D - B*B)
    K[3, 2], K[3, 5] = kn/kA, -1
    return K


def eigen_differs(a, b, where):
    """actual eigensystem of a against the system matrix of the expected state b"""
    K = system_matrix(b)
    w = np.linalg.eigvals(K)
    s = np.abs(w).max()
    want = np.sort_complex(w[w.imag >= 0])
    got = np.sort_complex(np.concatenate([np.atleast_1d(a.ewR).astype(complex), np.atleast_1d(a.ewC)]))
    if got.shape != want.shape or np.abs(got - want).max() > 1e-5*s:
        return f'{where}.ewR, ewC: {got} instead of {want}'
    for n, ws, vs in (('evR', a.ewR, a.evR), ('evC', a.ewC, a.evC)):
        if np.asarray(vs).shape != (6, len(ws)):
            return f'{where}.{n}: shape {np.asarray(vs).shape}'
        for j in range(len(ws)):
            v = np.asarray(vs)[:, j]
            if np.abs(v).max() == 0 or np.abs(K @ v - ws[j]*v).max() > 1e-5*s*np.abs(v).max():
                return f'{where}.{n}: column {j} is no eigenvector'
    for n, ws in (('sR', a.ewR), ('sC', a.ewC)):
        if np.shape(getattr(a, n)) != np.shape(ws) or (getattr(a, n) != np.where(ws > 0, -1, 0)).any():
            return f'{where}.{n}: {getattr(a, n)} for {ws}'
    return None


def dump(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return 'nan' if v != v else float(v)
    if isinstance(v, (complex, np.complexfloating)):
        return {'re': dump(v.real), 'im': dump(v.imag)}
    if isinstance(v, np.ndarray):
        return {'array': [dump(x) for x in v.ravel().tolist()], 'shape': list(v.shape), 'kind': v.dtype.kind}
    if isinstance(v, tuple):
        return {'tuple': [dump(x) for x in v]}
    if isinstance(v, list):
        return [dump(x) for x in v]
    if isinstance(v, dict):
        return {'dict': [[k, dump(x)] for k, x in v.items()]}
    if isinstance(v, str) or v is None:
        return v
    return {'repr': repr(v)[:200]}


def numeric(v):
    return isinstance(v, (bool, int, float, complex, np.number, np.bool_)) or isinstance(v, np.ndarray)


def differ(a, b, where=''):
    """None, or how actual a differs from expected b"""
    if b is Ellipsis:
        return None
    if isinstance(b, dict) and isinstance(a, dict):
        if set(a) != set(b):
            return f'{where}: keys {sorted(map(str, a))} instead of {sorted(map(str, b))}'
        for k in b:
            d = differ(a[k], b[k], f'{where}[{k!r}]')
            if d:
                return d
        return None
    if hasattr(b, '__dict__') and type(b).__module__.startswith('weac'):
        if type(a) is not type(b):
            return f'{where}: {type(a).__name__} instead of {type(b).__name__}'
        late = False
        for k in b.__dict__:
            if k not in a.__dict__:
                return f'{where}.{k} missing'
            if b.__dict__[k] is Eig:
                continue
            d = differ(a.__dict__[k], b.__dict__[k], f'{where}.{k}')
            if d and k in EIG:
                late = True                      # order and scale of eigenvectors are the library's choice
            elif d:
                return d
        if late or any(v is Eig for v in b.__dict__.values()):
            return eigen_differs(a, b, where)
        return None
    if isinstance(b, (list, tuple)) and isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f'{where}: {len(a)} items instead of {len(b)}'
        for k, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f'{where}[{k}]')
            if d:
                return d
        return None
    if b is None or isinstance(b, str) or a is None or isinstance(a, str):
        return None if (a is b or (type(a) is type(b) and a == b)) else f'{where}: {a!r} instead of {b!r}'
    try:
        x, y = np.asarray(a), np.asarray(b)
        if x.size == 1 and y.ndim == 0:
            x = x.reshape(())
        if x.shape != y.shape:
            return f'{where}: shape {x.shape} instead of {y.shape}'
        if x.dtype.kind == 'b' and y.dtype.kind == 'b':
            return None if (x == y).all() else f'{where}: {x} instead of {y}'
        x, y = x.astype(complex), y.astype(complex)
        nx, ny = np.isnan(x), np.isnan(y)
        if (nx != ny).any():
            return f'{where}: NaN pattern {x} instead of {y}'
        if y.size == 0 or nx.all():
            return None
        s = np.abs(y[~ny]).max()
        e = np.abs(x - y)
        bad = (e > 1e-7*np.abs(y) + 1e-10*s + 1e-300) & ~ny
        if bad.any():
            i = np.argmax(np.where(bad, e, 0))
            return f'{where}: {x.ravel()[i]:.12g} instead of {y.ravel()[i]:.12g}' + (f' (element {i})' if x.size > 1 else '')
        return None
    except (TypeError, ValueError) as e:
        return f'{where}: {type(a).__name__} instead of {type(b).__name__}'


def resolve(fn):
    if ':' in fn:
        m, f = fn.split(':')
        import importlib
        return getattr(importlib.import_module(m), f)
    c, f = fn.split('.')
    if f == '__init__':
        from weac.eigensystem import Eigensystem
        return {'Eigensystem': Eigensystem, 'Inverse': weac.Inverse}.get(c, weac.Layered).__init__
    return getattr(weac.Inverse if c == 'Inverse' else weac.Layered, f)


@contextlib.contextmanager
def drawing(c):
    """records what figures hold when they are saved; files go to a scratch directory"""
    import shutil
    import tempfile
    import matplotlib.axes
    import matplotlib.pyplot as plt
    from weac import tools
    A, items, saved = matplotlib.axes.Axes, [], []
    old = {n: getattr(A, n) for n in ('plot', 'fill_betweenx', 'contourf')}
    oldp = {n: getattr(plt, n) for n in ('figure', 'close', 'savefig', 'show')}
    shell, cwd, tmp = tools.get_ipython, os.getcwd(), tempfile.mkdtemp()

    def plot(self, *a, **k):
        if k.get('color', k.get('c')) not in ('white', 'w'):
            d = [x for x in a if not isinstance(x, str)]
            items.extend(('curve', x, y) for x, y in zip(d[::2], d[1::2]))
        return old['plot'](self, *a, **k)

    def other(n):
        def f(self, *a, **k):
            items.append((n, *a[:3]))
            return old[n](self, *a, **k)
        return f

    def fresh(n):
        def f(*a, **k):
            items.clear()
            return oldp[n](*a, **k)
        return f

    def savefig(path, *a, **k):
        r = oldp['savefig'](path, *a, **k)
        saved.append((path, list(items)))
        return r
    A.plot, A.fill_betweenx, A.contourf = plot, other('fill_betweenx'), other('contourf')
    plt.figure, plt.close, plt.savefig = fresh('figure'), fresh('close'), savefig
    plt.show = lambda *a, **k: saved.append((None, list(items)))
    tools.get_ipython = (lambda: type('ZMQInteractiveShell', (), {})()) if c['notebook'] else None
    try:
        os.chdir(tmp)
        if c['plotsdir']:
            os.mkdir('plots')
        yield saved
    finally:
        A.plot, A.fill_betweenx, A.contourf = old['plot'], old['fill_betweenx'], old['contourf']
        for n, v in oldp.items():
            setattr(plt, n, v)
        tools.get_ipython = shell
        plt.close('all')
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def files_differ(want):
    have = sorted(os.listdir('plots')) if os.path.isdir('plots') else []
    want = sorted({os.path.basename(n) for n, _ in want if n})
    return None if have == want else f'files {have} instead of {want}'


def colour(c):
    """hue and saturation of the colour, lightness scaled within 0 and 1"""
    import colorsys
    import matplotlib.colors as mc
    a, k = build(c['args']), build(c['kw'])
    col, amount = [*a, *[k[n] for n in ('color', 'amount') if n in k], .5][:2]
    h, l, s = colorsys.rgb_to_hls(*mc.to_rgb(col))
    return dump(tuple(colorsys.hls_to_rgb(h, max(0, min(1, amount*l)), s)))


def run(c):
    if 'shown' in c:
        with drawing(c) as saved:
            d = call(c)
            if d or 'raise' in c['expect']:
                return d
            want = build(c['shown'])
            return files_differ(want) or differ(saved, want, 'figures')
    return call(c)


def call(c):
    f = resolve(c['fn'])
    args, kw = build(c['args']), build(c['kw'])
    exp = c['expect']
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            if ':' not in c['fn'] and not c['fn'].endswith('__init__') and args and isinstance(args[0], object) and hasattr(args[0], '__dict__'):
                f = getattr(type(args[0]), c['fn'].split('.')[1])
            r = f(*args, **kw)
        except Exception as e:
            if 'raise' in exp:
                want = exp['raise']
                names = [k.__name__ for k in type(e).__mro__]
                return None if want in names else f'raises {type(e).__name__}: {e} instead of {want}'
            return f'raises {type(e).__name__}: {e} where a value is specified'
    if 'raise' in exp:
        return f'returns a value where {exp["raise"]} is specified'
    d = differ(r, build(exp['value']), 'result')
    if d:
        return d
    for x, y in zip(args, build(c['after'])):
        d = differ(x, y, 'after')
        if d:
            return d
    for k, y in build(c['afterkw']).items():
        d = differ(kw[k], y, f'after {k}')
        if d:
            return d
    return None


FREE = ('g', 'lski', 'tol', 'system', 'touchdown', 'p', 'phi', 'a', 'tc', 'ratio', 'betaU', 'betaC', 'mode', 'td', 'L', 'k')


def state(c):
    """a state the real code can reach, with the free attributes of the given one"""
    at = {k: build(v) for k, v in c['attrs'].items()}
    cls = getattr(weac, c['cls'])
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        o = weac.Layered()
        o.g, o.lski, o.tol = at['g'], at['lski'], at['tol']
        o.set_beam_properties(at['slab'][:, :2].copy())
        o.set_foundation_properties(t=at['t'], E=at['weak']['E'], nu=at['weak']['nu'], update=True)
    for k in FREE:
        if k in at and k != 'k':
            o.__dict__[k] = at[k]
    return {k: dump(v) for k, v in o.__dict__.items() if k in at}


_obj = [None, None]


def solution(c):
    """solution vector at a position: args x, l, phi, bed, six constants"""
    if _obj[0] != c['key']:
        _obj[:] = [c['key'], build(c['obj'])]
    x, l, phi, bed, *C = c['args']
    return np.asarray(_obj[1].z(x, np.array(C).reshape(6, 1), l, phi, bed=bool(bed)), float).ravel().tolist()


def mesh(c):
    """depth mesh of a model"""
    if _obj[0] != c['key']:
        _obj[:] = [c['key'], build(c['obj'])]
    return np.asarray(_obj[1].get_zmesh(dz=c['dz']), float).tolist()


def raster(c):
    """rasterised solution: coordinates, columns, support"""
    if _obj[0] != c['key']:
        _obj[:] = [c['key'], build(c['obj'])]
    x, z, b = _obj[1].rasterize_solution(build(c['C']), build(c['phi']), build(c['li']), build(c['ki']))
    return [np.asarray(x, float).tolist(), np.asarray(z, float).tolist(), (~np.isnan(b)).tolist()]


def helper(c):
    """transition lengths of a 100 m PST from the model itself"""
    k = build(c['kw'])
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = weac.Layered(system='pst-', touchdown=True)
        m.set_foundation_properties(t=k.get('t', 10), E=k.get('Ewl', .25), update=True)
        m.set_beam_properties(k['layers'] if k.get('layers') is not None else [[240, 200]], C0=k.get('C0', 6.5), C1=k.get('C1', 4.4), update=True)
        m.calc_segments(L=1e5, a=0, phi=k.get('phi', 0))
        r = [m.calc_a1(), m.calc_a2()]
        m.calc_segments(L=1e5, a=5*r[0], phi=k.get('phi', 0))
        return {'tuple': [dump(x) for x in r + [m.calc_lC()]]}


OPS = {'colour': colour, 'helper': helper, 'mesh': mesh, 'raster': raster, 'run': run, 'state': state, 'z': solution}


def main():
    for line in sys.stdin:
        c = json.loads(line)
        try:
            r = {'ok': OPS[c['op']](c['case'])}
        except Exception as e:
            import traceback
            r = {'err': f'{type(e).__name__}: {e}', 'tb': traceback.format_exc()[-600:]}
        print('@@' + json.dumps(r), flush=True)


if __name__ == '__main__':
    main()
