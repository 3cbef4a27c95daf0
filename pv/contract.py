"""Contract registry and runner: a contract gives the symbolic pre-state of a function of the real
code, and a specification of its result and effects; the runner executes the current source of the
function symbolically along every path and discharges the comparison."""
import contextlib
import functools
import itertools
import re
import select
import signal
import time
import traceback
from fractions import Fraction
from . import terms as tm
from .terms import (T, TRUE, FALSE, ZERO, ONE, NAN, num, lift, var, sel, ite, eq, lt, le, and_, or_,
                    not_, add, sub, mul, div, neg, fn, subst, canon, canonb, sumT)
from .values import *
from . import values as V
from .interp import Interp
from .prover import Prover, Cmp, Ob, AnyValue, NumEnv

REG = {}
PI180 = div(tm.PI, num(180))


class Contract:
    name = None          # unique
    fn = None            # 'Class.method' or 'module:function'
    props = ()           # properties whose obligations these are
    cases = ({},)
    inline = False       # not used at call sites
    summary_of = None    # qualified name at call sites (default: fn)
    paths_min = 1
    reference = None     # worker operation that computes the specified value where the contract leaves parts of it unknown
    rules = ()
    frames = True        # frame obligations belong to C18
    shows = False        # figures saved are part of the result
    effects = False      # changes to the state are part of the property, not only of C18
    assumes = ()
    cost = 0
    abstract = False     # proved with an unknown solution vector; counterexamples take its values from the real code
    parts = 1            # number of processes its cases are spread over ('cases': one each)

    def setup(self, W, **case):
        raise NotImplementedError

    def spec(self, I, a):
        """result of the function; may mutate the arguments it is specified to change"""
        raise NotImplementedError

    def summary(self, I, ba):
        return self.spec(I, ba)

    def realise(self, e, obj):
        """values of what an abstract contract treats as unknown, from the real code"""
        e['ZS'] = solution_values(obj)

    def check(self, I, W, P, run, case):
        """default: functional comparison"""
        return functional(self, I, W, P, case)


FILTERED = {'C18', 'C19'}
TRUSTED = [
    'pv/interp.py, pv/npmod.py: semantics of the Python/numpy subset (cross-checked against CPython by tools/xcheck.py)',
    'pv/terms.py: exact rational-function normal form with sums, exp and trigonometric identities',
    'z3 5.3.2 (python3-vt)',
    'CPython 3.12, numpy, scipy and matplotlib themselves',
]
ASSUMPTIONS = [
    'machine arithmetic is treated as real arithmetic (no rounding, overflow or underflow)',
    'arrays handed to a function do not overlap unless the contract says so; no concurrent mutation',
    'library functions (numpy.linalg.eig, numpy.linalg.solve, scipy brentq, quad, cumulative_trapezoid) meet their documented contracts',
    'reads of an attribute find what its last assignment stored (no monkey patching or descriptors)',
]


def family(prop, c):
    return prop in FILTERED and c.frames


def owns(prop, ob, c):
    fr = '.frame(' in ob
    if prop == 'C18':
        return fr
    if ob.endswith('(shared state)'):
        return prop == 'C19'
    return prop in c.props and (not fr or c.effects)


def contract(cls):
    c = cls()
    c.name = c.name or c.fn
    REG[c.name] = c
    return cls


class World:
    """symbolic inputs with their assumptions and samplers"""
    def __init__(self, I):
        self.I = I
        self.samplers = {}
        self.names = {}
        self.models = []

    def real(self, name, lo=-3.0, hi=3.0, pos=None, assume=()):
        v = var(name, 'r')
        NumEnv.sorts[name] = 'r'
        self.samplers[name] = lambda e, lo=lo, hi=hi: e.rng.uniform(lo, hi)
        if pos == '+':
            self.I.assume(lt(ZERO, v))
        elif pos == '0+':
            self.I.assume(le(ZERO, v))
        return v

    def pos(self, name, lo=.2, hi=3.0):
        return self.real(name, lo, hi, '+')

    def int(self, name, lo=0, hi=4):
        v = var(name, 'i')
        NumEnv.sorts[name] = 'i'
        self.samplers[name] = lambda e, lo=lo, hi=hi: e.rng.randint(lo, hi)
        self.I.assume(le(num(lo), v))
        return v

    def bool(self, name):
        v = var(name, 'b')
        NumEnv.sorts[name] = 'b'
        self.samplers[name] = lambda e: e.rng.random() < .5
        return v

    def str(self, name, choices=()):
        v = var(name, 's')
        NumEnv.sorts[name] = 's'
        self.samplers[name] = lambda e: e.rng.choice(list(choices) or ['?'])
        return v

    def arr(self, name, shape, kind='f', lo=-3.0, hi=3.0, pos=None, rows=None):
        """array with cells name[i,j]; pos: '+', or dict column -> fact/sampler"""
        srt = {'f': 'r', 'i': 'i', 'b': 'b', 'c': 'r'}[kind]
        NumEnv.sorts[name] = srt

        def sampler(e, *idx):
            if srt == 'b':
                return e.rng.random() < .5
            if srt == 'i':
                return e.rng.randint(int(lo), int(hi))
            if pos is None and e.wild and e.rng.random() < .15:
                return 0.0
            return e.rng.uniform(lo, hi)
        self.samplers[name] = rows or sampler
        if pos == '+':
            self.I.factgens[name] = lambda *i: [lt(ZERO, sel(name, *i))]
        elif pos == '0+':
            self.I.factgens[name] = lambda *i: [le(ZERO, sel(name, *i))]
        elif callable(pos):
            self.I.factgens[name] = pos
        if kind == 'c':
            self.samplers[name + '.re'] = self.samplers[name + '.im'] = sampler
            a = mkarr(shape, lambda idx: Cx(sel(name + '.re', *idx), sel(name + '.im', *idx)), 'c')
            self.names[id(a.buf)] = (name, a)
            return a
        a = mkarr(shape, lambda idx: sel(name, *idx, sort=srt), kind)
        self.names[id(a.buf)] = (name, a)
        return a

    # --- the model object ---------------------------------------------------
    def slab(self, name='slab', n=None, cols=5):
        n = n if n is not None else self.int('nL', 1, 4)

        def pos(i, j):
            j = conc(j)
            if j == 4:
                return [lt(num(-1), sel(name, i, 4)), lt(sel(name, i, 4), num(Fraction(1, 2)))]
            return [lt(ZERO, sel(name, i, j))]

        def smp(e, i, j):
            return {0: e.rng.uniform(80, 400), 1: e.rng.uniform(20, 150), 2: e.rng.uniform(.5, 50),
                    3: e.rng.uniform(.2, 20), 4: e.rng.uniform(.05, .4)}[int(j)]
        return self.arr(name, (n, cols), pos=pos, rows=smp), n

    def model(self, cls='Layered', system='pst-', abd=True, nR=2, nC=2, mode='A', touchdown=False, **over):
        """a model object in an arbitrary reachable state: every attribute symbolic"""
        I = self.I
        slab, n = self.slab()
        A, B, kA = self.pos('A11', 100, 3000), self.real('B11', -500, 500), self.pos('kA55', 50, 800)
        if abd:
            m = self.pos('mK0', 1e5, 1e8)
            K0 = neg(m)
            D = div(add(mul(B, B), m), A)
        else:
            K0, D = self.real('K0'), self.real('D11')
        at = {
            'g': self.pos('g', 9000, 10000), 'lski': self.pos('lski', 500, 1500), 'tol': self.pos('tol', 1e-4, 1e-2),
            'system': system, 'touchdown': touchdown,
            'weak': {'nu': self._nu('nuw'), 'E': self.pos('Ew', .1, 2)},
            't': self.pos('t', 5, 50), 'kn': self.pos('kn', .002, .05), 'kt': self.pos('kt', .001, .03),
            'p': self.real('p', 0, 2, '0+'), 'slab': slab, 'k': self.pos('kshear', .5, 1),
            'h': self.pos('h', 50, 600), 'zs': self.real('zs', -50, 50), 'phi': self.real('phi', -60, 60),
            'A11': A, 'B11': B, 'D11': D, 'kA55': kA, 'K0': K0,
            'ewC': self.arr('ewC', (nC,), 'c'), 'ewR': self.arr('ewR', (nR,)),
            'evC': self.arr('evC', (6, nC), 'c'), 'evR': self.arr('evR', (6, nR)),
            'sC': self.arr('sC', (nC,)), 'sR': self.arr('sR', (nR,)),
            'a': self.real('a', 100, 1000, '0+'), 'tc': self.pos('tc', 1, 15), 'ratio': self.pos('ratio', 2, 1000),
            'betaU': False, 'betaC': False, 'mode': mode, 'td': self.real('td', 50, 900, '0+'),
            'L': self.pos('Lcol', 1000, 5000),
        }
        at.update(over)
        o = Obj(I.getclass(cls), at)
        self.n = n
        if set(over) <= {'g', 'lski', 'tol', 'system', 'touchdown', 'p', 'phi', 'a', 'tc', 'ratio', 'betaU', 'betaC', 'mode', 'td', 'L'}:
            self.models.append((cls, at, abd))
        return o

    def install(self, e, st):
        """put a concrete model state into a sampled environment; False where it does not fit"""
        cls, at, abd = self.models[0]
        for k, v in st.items():
            t = at[k]
            if isinstance(t, Arr):
                name, _ = self.names[id(t.buf)]
                if len(v['shape']) != t.ndim:
                    return False
                for d, x in zip(t.shape, v['shape']):
                    if isinstance(d, int):
                        if d != x:
                            return False
                    else:
                        e[d.args[0]] = x
                sh, dat = v['shape'], v['array']
                if t.kind == 'c':
                    g = [(x['re'], x['im']) if isinstance(x, dict) else (x, 0) for x in dat]
                    e[name + '.re'] = grid(sh, [x[0] for x in g])
                    e[name + '.im'] = grid(sh, [x[1] for x in g])
                else:
                    e[name] = grid(sh, dat)
            elif isinstance(t, dict):
                for kk, x in v['dict']:
                    e[t[kk].args[0]] = mp(x)
            elif isinstance(t, T) and t.op == 'var':
                e[t.args[0]] = mp(v) if not isinstance(v, (bool, str)) else v
            elif k == 'K0' and abd:
                e['mK0'] = -mp(v)
        return True

    def _nu(self, name):
        v = self.real(name, .05, .45)
        self.I.assume(lt(num(-1), v), lt(v, num(Fraction(1, 2))))
        return v

    def Z(self, name='Z', m=None):
        m = m if m is not None else self.int('mcol', 0, 4)
        return self.arr(name, (6, m))


@functools.lru_cache(100000, typed=True)
def mp(x):
    import mpmath
    return mpmath.mpf(repr(x)) if not isinstance(x, bool) else x


def grid(sh, dat):
    def f(*idx):
        k = 0
        for d, i in zip(sh, idx):
            i = int(i)
            if not 0 <= i < d:
                raise tm.EvalError('index')
            k = k*d + i
        return mp(dat[k])
    return f


def clone(v, memo=None):
    """independent copy of a pre-state value (aliasing preserved)"""
    memo = {} if memo is None else memo
    if isinstance(v, Arr):
        if id(v.buf) not in memo:
            b = V.Buf(v.buf.shape, v.buf.fn, v.buf.kind, v.buf.tag)
            memo[id(v.buf)] = b
        return Arr(memo[id(v.buf)], v.shape, v.imap, v.rev)
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, list):
        r = memo[id(v)] = []
        r.extend(clone(x, memo) for x in v)
        return r
    if isinstance(v, tuple):
        return tuple(clone(x, memo) for x in v)
    if isinstance(v, dict):
        r = memo[id(v)] = {}
        r.update({k: clone(x, memo) for k, x in v.items()})
        return r
    if isinstance(v, Obj):
        r = memo[id(v)] = Obj(v.cls)
        r.attrs = {k: clone(x, memo) for k, x in v.attrs.items()}
        r.ser = v.ser
        return r
    if isinstance(v, SList):
        return v
    return v


def lookup(I, fnname):
    if ':' in fnname:
        m, f = fnname.split(':')
        return I.getfunc(m, f)
    cls, f = fnname.split('.')
    use = cls if f == '__init__' else 'Layered' if cls not in ('Inverse',) else 'Inverse'
    c, v = I.getclass(use).find(f)
    if v is None:
        raise KeyError(fnname)
    return getattr(v, 'fn', v)


def casetag(case):
    return '' if not case else '{' + ','.join(f'{k}={short(v)}' for k, v in dict(case).items()) + '}'


def functional(c, I, W, P, case):
    """compare the function's current body with its specification on every path"""
    args, kw = c.setup(W, **case)
    f = lookup(I, c.fn)
    tag = c.name + casetag(case)
    obs = []
    ctx = {}

    def thunk():
        memo = {}
        sa, sk = clone(args, memo), clone(kw, memo)
        memo2 = {}
        ra, rk = clone(args, memo2), clone(kw, memo2)
        ev0 = list(I.events)
        I.canvas = None
        try:
            s = ('ok', c.spec(I, I.bindargs(f, sa, sk)))
            s += (list(I.canvas.saved),) if I.canvas else ([],)
        except PyRaise as e:
            s = ('raise', e)
        I.events[:] = ev0
        I.canvas = None
        try:
            r = ('ok', I.callfunc(f, ra, rk, top=True))
            r += (list(I.canvas.saved),) if I.canvas else ([],)
        except PyRaise as e:
            r = ('raise', e)
        return s, r, (sa, sk), (ra, rk)

    npath, replays = [0], [0]

    def finish(out, pc, facts):
        if out[0] == 'raise':
            raise out[1]
        s, r, sargs, rargs = out[1]
        k = npath[0]
        npath[0] += 1
        cm = Cmp(I, P, list(I.facts), c.rules)
        cm.context = (args, kw, sargs, s)
        t = f'{tag}/path{k}'
        if s[0] == 'raise' or r[0] == 'raise':
            if s[0] != r[0] or s[1].cls is not r[1].cls:
                d = lambda o: o[1].cls.__name__ + str(o[1].eargs)[:120] if o[0] == 'raise' else 'a value'
                cm.bad(t + '.raises', f'{d(r)} where {d(s)} is specified')
            else:
                cm.add(Ob(t + '.raises', 'proved', 'syntactic'))
        else:
            cm.value(t + '.result', r[1], s[1])
            if c.shows:
                cm.value(t + '.figures', r[2], s[2])
        names = argnames(f, args)
        for i, (x, y) in enumerate(zip(rargs[0], sargs[0])):
            frame(cm, f'{t}.frame({names[i]})', x, y)
        for key in kw:
            frame(cm, f'{t}.frame({key})', rargs[1][key], sargs[1][key])
        for ob in cm.obs:
            if ob.status == 'refuted' and ob.env is not None:
                if replays[0] < 6:
                    replays[0] += 1
                    replay(c, I, W, P, ob, lambda e: concretise(c, I, args, kw, s, sargs, e), cm.facts)
                else:
                    ob.status, ob.env, ob.detail = 'unknown', None, 'not replayed: ' + ob.detail
        obs.extend(cm.obs)
        return None
    I.explore(thunk, finish)
    if npath[0] < c.paths_min:
        obs.append(Ob(tag + '.paths', 'unknown', '', 0, 'no path'))
    return obs


class Late(BaseException):
    pass


@contextlib.contextmanager
def alarm(s):
    def late(*_):
        raise Late(f'stopped after {s} s')
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(s)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def conform(c, I, W, P, case, out, n=14):
    """bounded stand-in: the specified result against the real code at sampled inputs; used where an obligation of
    this contract was not decided, and never counted as proved"""
    args, kw = c.setup(W, **case)
    f = lookup(I, c.fn)
    tag = c.name + casetag(case)
    dims = [k for k in dictionary(f.node) if 8 < k <= 4000]
    end = time.time() + 40

    def thunk():
        memo = {}
        sa, sk = clone(args, memo), clone(kw, memo)
        I.canvas = None
        try:
            s = ('ok', c.spec(I, I.bindargs(f, sa, sk)))
            s += (list(I.canvas.saved),) if I.canvas else ([],)
        except PyRaise as e:
            s = ('raise', e)
        return s, (sa, sk)

    def finish(r, pc, facts):
        if r[0] == 'raise':
            raise r[1]
        s, sargs = r[1]
        facts = list(I.facts)
        conc_ = lambda e: concretise(c, I, args, kw, s, sargs, e)
        P.deadline = time.time() + 10
        k = 0
        for e in P.models([], facts):
            if k >= n or out['ob'] or time.time() > end:
                return
            big = dims and k % 4 == 3
            if big:
                d = P.rng.choice(dims) + P.rng.choice([-1, 0, 1])
                for v in [v for v in e if NumEnv.sorts.get(v) == 'i' and v in W.samplers]:
                    del e[v]
                for v in W.samplers:
                    if NumEnv.sorts.get(v) == 'i' and P.rng.random() < .7:
                        e[v] = d
            try:
                if W.models:
                    cls, at, _ = W.models[0]
                    attrs = {q: concrete(v, e) for q, v in at.items()}
                    st = worker('state', {'cls': cls, 'attrs': attrs})
                    if 'err' in st or not W.install(e, st['ok']):
                        continue
                    if c.abstract:
                        c.realise(e, {'obj': cls, 'attrs': {**attrs, **st['ok']}})
                e.memo = {}
                if not all(e.val(q) for q in facts):
                    continue
                raw = conc_(e)
            except (tm.EvalError, ZeroDivisionError, OverflowError, ValueError, TypeError, Unsupported, KeyError):
                continue
            if 'error' in raw or e.opaque and not c.reference:      # the specification has an unknown of its own
                continue
            if c.reference and 'value' in raw['expect']:
                r = worker(c.reference, raw)
                if 'err' in r:
                    continue
                raw['expect'] = {'value': r['ok']}
            r = worker('run', raw)
            k += 1
            out['runs'] += 'ok' in r
            if r.get('ok'):
                out['ob'] = Ob(tag + '/sampled', 'violated', 'real code', 0, r['ok'])
                out['ob'].replay = raw
                return
    I.explore(thunk, finish)


def fingerprint(node):
    """of a function's code without comments, docstrings and positions"""
    import ast
    import copy
    import hashlib
    node = copy.deepcopy(node)
    for n in ast.walk(node):
        b = getattr(n, 'body', None)
        if isinstance(b, list):
            n.body = [x for x in b if not (isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    return hashlib.sha256(ast.dump(node).encode()).hexdigest()[:16]


def fingerprints(repo):
    import ast
    import os
    out = {}
    for f in sorted(os.listdir(os.path.join(repo, 'weac'))):
        if f.endswith('.py'):
            m = 'weac' if f == '__init__.py' else 'weac.' + f[:-3]
            with open(os.path.join(repo, 'weac', f)) as fh:
                t = ast.parse(fh.read())
            keep = []
            for n in t.body:
                if isinstance(n, ast.FunctionDef):
                    out[f'{m}:{n.name}'] = fingerprint(n)
                    continue
                if isinstance(n, ast.ClassDef):
                    for q in n.body:
                        if isinstance(q, ast.FunctionDef):
                            out[f'{m}:{n.name}.{q.name}'] = fingerprint(q)
                    n.body = [q for q in n.body if not isinstance(q, ast.FunctionDef)]
                keep.append(n)
            t.body = keep
            out[m] = fingerprint(t)
    return out


def dictionary(node):
    import ast
    return sorted({n.value for n in ast.walk(node) if isinstance(n, ast.Constant) and type(n.value) is int})


_worker = [None]


def worker(op, case):
    import json
    import os
    import subprocess
    w = _worker[0]
    if w is None or w[0] != os.getpid() or w[1].poll() is not None:
        env = dict(os.environ, VERIF_REPO=REPO[0])
        p = subprocess.Popen([PY, os.path.join(os.path.dirname(__file__), 'worker.py')], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
        w = _worker[0] = (os.getpid(), p)
    p = w[1]
    try:
        p.stdin.write(json.dumps({'op': op, 'case': case}) + '\n')
        p.stdin.flush()
        while True:
            if not select.select([p.stdout], [], [], 30)[0]:
                p.kill()
                return {'err': 'no answer within 30 s'}
            line = p.stdout.readline()
            if not line:
                return {'err': 'worker died'}
            if line.startswith('@@'):
                return json.loads(line[2:])
    except (OSError, ValueError, TypeError) as e:
        return {'err': str(e)}


REPO = ['/repo']
PY = '/opt/venv/bin/python'


def replay(c, I, W, P, ob, conc_, facts):
    """classify a refuted obligation by running the real code on the verifier's counterexample"""
    e0 = ob.env
    raw = conc_(e0)
    ob.env = None
    if 'error' in raw:
        ob.detail += f' [not concretised: {raw["error"]}]'
        ob.replay = None
        return
    if e0.opaque and not c.reference and not c.abstract:
        ob.detail += ' [not replayed: the counterexample chooses values that contracts leave open]'
        return
    agreed = 0
    if W.models:
        cls, at, _ = W.models[0]
        envs = [e0]
        P.deadline = time.time() + 15
        for e in P.models([], facts):
            envs.append(e)
            if len(envs) > 8:
                break
        for e in envs:
            try:
                st = worker('state', {'cls': cls, 'attrs': {k: concrete(v, e) for k, v in at.items()}})
                if 'err' in st:
                    continue
                ok = W.install(e, st['ok'])
                if ok and c.abstract:
                    c.realise(e, {'obj': cls, 'attrs': {**{k: concrete(v, e) for k, v in at.items()}, **st['ok']}})
                ok = ok and all(e.val(f) for f in facts)
                case = conc_(e) if ok else None
            except (tm.EvalError, ZeroDivisionError, OverflowError, ValueError, TypeError, Unsupported, KeyError):
                continue
            if not ok or 'error' in case:
                continue
            r = worker('run', case)
            if r.get('ok'):
                ob.status, ob.replay, ob.detail = 'violated', case, r['ok'] + ' | ' + ob.detail
                return
            if 'ok' in r:
                agreed += 1
    if c.reference and 'value' in raw['expect']:
        r = worker(c.reference, raw)
        if 'err' in r:
            ob.status, ob.detail = 'unknown', f'no reference value ({r["err"]}): ' + ob.detail
            return
        raw['expect'] = {'value': r['ok']}
    if agreed or c.abstract:
        ob.status, ob.detail = 'unknown', f'real code agrees on {agreed} reachable states: ' + ob.detail
        return
    r = worker('run', raw)
    if r.get('ok'):
        ob.status, ob.replay, ob.detail = 'violated', raw, r['ok'] + ' | ' + ob.detail
    elif 'ok' in r:
        ob.status, ob.detail = 'unknown', 'real code agrees with the contract on the counterexample: ' + ob.detail
    else:
        ob.status, ob.detail = 'unknown', f'replay failed ({r.get("err")}): ' + ob.detail


def solution_values(obj):
    """values of the solution vector, which contracts treat as unknown, from the real code"""
    memo, ident = {}, repr(obj)

    def z(i, *ts):
        ts = tuple(float(t) for t in ts)
        if ts not in memo:
            r = worker('z', {'key': ident, 'obj': obj, 'args': ts})
            if 'err' in r:
                raise tm.EvalError(r['err'])
            memo[ts] = r['ok']
        return mp(memo[ts][int(i)])
    return z


def mesh_values(obj):
    """the same for the depth mesh: number of points and cells"""
    memo, ident = {}, repr(obj)

    def get(dz):
        if float(dz) not in memo:
            r = worker('mesh', {'key': ident, 'obj': obj, 'dz': float(dz)})
            if 'err' in r:
                raise tm.EvalError(r['err'])
            memo[float(dz)] = r['ok']
        return memo[float(dz)]
    return lambda dz: len(get(dz)), lambda dz, i, k: mp(get(dz)[int(i)][int(k)])


def frame(cm, name, x, y):
    if isinstance(x, Obj):
        cm.attrs(name, x.attrs, y.attrs)
    elif isinstance(x, (Arr, list, dict)):
        cm.value(name, x, y)


def argnames(f, args):
    a = f.node.args
    n = [x.arg for x in a.posonlyargs + a.args]
    return n + [f'*{k}' for k in range(len(args) - len(n))]


def short(v):
    return str(v) if not isinstance(v, (list, dict, tuple)) else '…' if len(str(v)) > 30 else str(v)


# --- concrete inputs of a refuted obligation -----------------------------------
def concrete(v, e, I=None):
    from .interp import _unwrap
    v = _unwrap(v)
    if isinstance(v, T):
        if v.op == 'str':
            return v.args[0]
        x = e.val(v)
        return pyval(x)
    if isinstance(v, Cx):
        return {'re': pyval(e.val(v.re)), 'im': pyval(e.val(v.im))}
    if isinstance(v, (bool, int, str, type(None))):
        return v
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, Arr):
        dims = [int(d) if isinstance(d, int) else int(e.val(d)) for d in v.shape]
        flat = [concrete(conc(v.at(*[num(i) for i in idx])), e) for idx in itertools.product(*map(range, dims))]
        return {'array': flat, 'shape': dims, 'kind': v.kind}
    if isinstance(v, SList):
        n = v.n if isinstance(v.n, int) else int(e.val(v.n))
        return [concrete(v.fn(num(i)), e) for i in range(n)]
    if isinstance(v, list):
        return [concrete(x, e) for x in v]
    if isinstance(v, tuple):
        return {'tuple': [concrete(x, e) for x in v]}
    if isinstance(v, dict):
        return {'dict': [[k, concrete(x, e)] for k, x in v.items()]}
    if isinstance(v, AnyValue):
        return {'any': 1}
    if isinstance(v, Obj):
        return {'obj': v.cls.name, 'attrs': {k: {'eig': 1} if k in EIGNAMES and unknown_eig(x) else concrete(x, e) for k, x in v.attrs.items()}}
    raise Unsupported(f'concretise {type(v).__name__}')


EIGNAMES = ('ewR', 'ewC', 'evR', 'evC', 'sR', 'sC')


def unknown_eig(v):
    """values of an eigensystem that is an unknown function of a system matrix"""
    if not isinstance(v, Arr):
        return False
    x = v.at(*[var(f'probe{i}', 'i') for i in range(v.ndim)])
    ts = [x.re, x.im] if isinstance(x, Cx) else [lift(conc(x))]
    return any(tm.contains(t, lambda q: q.op == 'sel' and re.match(r'(ew|ev)[RC]_\d', str(q.args[0]))) for t in ts)


def pyval(x):
    if isinstance(x, (bool, int, str)):
        return x
    x = float(x)
    return 'nan' if x != x else x


def concretise(c, I, args, kw, s, sargs, e):
    try:
        r = {'contract': c.name, 'fn': c.fn, 'args': concrete(list(args), e), 'kw': concrete(dict(kw), e)}
        if s[0] == 'raise':
            r['expect'] = {'raise': s[1].cls.__name__}
        else:
            r['expect'] = {'value': concrete(s[1], e)}
            if REG[c.name].shows:
                r['shown'] = concrete(s[2], e)
                r['plotsdir'], r['notebook'] = (bool(e.val(var(n, 'b'))) for n in ('plotsdir', 'notebook'))
        r['after'] = concrete(list(sargs[0]), e)
        r['afterkw'] = concrete(dict(sargs[1]), e)
        return r
    except Exception as x:
        return {'contract': c.name, 'fn': c.fn, 'error': f'{type(x).__name__}: {x}'}


# --- running -----------------------------------------------------------------
def summaries(exclude=()):
    out = {}
    for c in REG.values():
        if c.inline or c.name in exclude:
            continue
        q = c.summary_of or (c.fn.split(':')[1] if ':' in c.fn else c.fn)
        if q in exclude:
            continue

        def s(I, ba, c=c):
            I.used_contracts.add(c.name)
            return c.summary(I, ba)
        out[q] = s
    return out


def units(name):
    """a contract's cases in groups that are decided in separate processes"""
    c = REG[name]
    k = len(c.cases) if c.parts == 'cases' else c.parts
    return [tuple(c.cases[i::k]) for i in range(k)]


def merge(parts):
    r = dict(parts[0])
    for q in parts[1:]:
        r['obs'] = r['obs'] + q['obs']
        for k in ('uses', 'inlined'):
            r[k] = sorted({*r[k], *q[k]})
        if q['status'] != 'ok':
            r['status'], r['why'] = q['status'], '; '.join(w for w in (r['why'], q['why']) if w)[:600]
        r['secs'] += q['secs']
        r['ran'] = {**r.get('ran', {}), **q.get('ran', {})}
        r['sampled'] = r.get('sampled', 0) + q.get('sampled', 0)
        r['z3'] = {k: r['z3'].get(k, 0) + q['z3'].get(k, 0) for k in {*r['z3'], *q['z3']}}
    return r


def retry(c, world, case, limit):
    from . import smt
    smt.SCALE[0] = 4
    try:
        with alarm(int(limit)):
            I, W, P = world()
            return I, c.check(I, W, P, None, case)
    except (Exception, Late):
        return None
    finally:
        smt.SCALE[0] = 1


def run_contract(name, repo='/repo', seed=1, cases=None):
    """-> dict with obligations and dependencies"""
    c = REG[name]
    t0 = time.time()
    REPO[0] = repo
    out = {'contract': name, 'fn': c.fn, 'props': list(c.props), 'obs': [], 'uses': set(), 'inlined': set(), 'status': 'ok', 'why': '',
           'sampled': 0, 'ran': {}}
    from .smt import stats
    z0 = dict(stats)
    def world():
        I = Interp(repo)
        I.used_contracts = set()
        I.want_plot = c.fn.startswith('weac.plot:')
        I.summaries = summaries()
        W = World(I)
        P = Prover(I, W.samplers, seed)
        I.prover = P
        return I, W, P
    for case in c.cases if cases is None else cases:
        I, W, P = world()
        undecided = True
        try:
            t1 = time.time()
            obs = c.check(I, W, P, None, dict(case))
            if any(o.status == 'unknown' for o in obs) and not any(o.status in ('violated', 'refuted') for o in obs):
                # the solver limits are wall-clock: decide again with longer ones before giving up
                again = retry(c, world, dict(case), min(100, 20 + 4*(time.time() - t1)))
                if again and sum(o.status == 'unknown' for o in again[1]) < sum(o.status == 'unknown' for o in obs):
                    I, obs = again
            out['obs'] += obs
            undecided = any(o.status == 'unknown' for o in obs) and not any(o.status == 'violated' for o in obs)
        except Unsupported as e:
            out['status'], out['why'] = 'unsupported', f'{case}: {e}'
        except PyRaise as e:
            out['status'], out['why'] = 'unsupported', f'{case}: escaped {e.cls.__name__}{e.eargs}'
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            out['status'], out['why'] = 'unsupported', f'{case}: {type(e).__name__}: {e} ({tb.filename.split("/")[-1]}:{tb.lineno})'
        out['uses'] |= I.used_contracts
        out['inlined'] |= I.inlined
        if I.ran:
            w = sorted(I.shared_writes)
            out['obs'].append(Ob(f'{name}{casetag(case)}.frame(shared state)', 'refuted' if w else 'proved', '' if w else 'syntactic', 0,
                                 'writes to ' + ', '.join(w) if w else ''))
        out['ran'].update({k: fingerprint(n) for k, n in I.ran.items() if '<' not in k})
        if undecided and type(c).check is Contract.check:
            r = {'runs': 0, 'ob': None}
            try:
                with alarm(60):
                    conform(c, *world(), dict(case), r)
            except (Exception, Late) as e:
                out['why'] += f' [sampled comparison: {type(e).__name__}: {str(e)[:100]}]'
            out['sampled'] += r['runs']
            out['obs'] += [r['ob']] if r['ob'] else []
    for ob in out['obs']:
        ob.env = None
    out['secs'] = time.time() - t0
    out['z3'] = {k: stats[k] - z0[k] for k in stats}
    out['uses'] = sorted(out['uses'])
    out['inlined'] = sorted(out['inlined'])
    return out
