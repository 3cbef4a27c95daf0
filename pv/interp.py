"""Symbolic interpreter for the Python subset used by weac: turns the *current* source of a
function into verification conditions.  Paths fork at undecided conditions; loops over symbolic
ranges are summarised (accumulators -> finite sums, array writes -> guarded region updates)."""
import ast
import os
from fractions import Fraction
from . import terms as tm
from .terms import (T, TRUE, FALSE, ZERO, ONE, NAN, INF, num, lift, mk, var, sel, ite, eq, lt, le,
                    and_, or_, not_, add, sub, mul, neg, subst, canon, canonb)
from .values import *
from . import values as V
from .smt import Solver
from .drawing import Rec, Names

MAXPATHS = 600
MAXITER = 400


class Signal:
    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value


BREAK, CONTINUE = Signal('break'), Signal('continue')


class Frame:
    def __init__(self, i, n):
        self.i, self.n = i, n
        self.ser = V.serial()
        self.wlog = []
        self.appends = []
        self.reads = set()
        self.attr = []


class Interp:
    def __init__(self, repo='/repo', summaries=None):
        from . import npmod
        self.repo = repo
        self.summaries = summaries or {}
        self.factgens = V._FG(V.FACTGENS)
        self.solver = Solver(self.factgens)
        self.facts = []
        self.pc = []
        self.oracle = None
        self.resolved_only = False      # reads must not fall back to last_write
        self.frames = []
        self.trail = []
        self.ctr = 0
        self.depth = 0
        self.modules = {}
        self.noexpand = None
        self.used = set()
        self.inlined = set()
        self.shared_writes = set()           # writes of functions to objects that outlive the call
        self.importing = 0
        self.ran = {}                        # functions whose source was executed
        self.events = []
        self.touched = []
        self.npmod = npmod
        self.builtins = npmod.builtins(self)
        self.stdmods = npmod.modules(self)
        self.classes = {}
        self.eager = True
        V.READ_HOOK[0] = self._readhook
        V.FACTS[0] = lambda: self.facts

    # --- bookkeeping --------------------------------------------------------
    def _readhook(self, buf):
        for f in self.frames:
            if buf.ser < f.ser:
                f.reads.add(buf.ser)

    def fresh(self, name, sort='i'):
        self.ctr += 1
        return var(f'{name}#{self.ctr}', sort)

    def undo_to(self, mark):
        while len(self.trail) > mark:
            self.trail.pop()()

    def shared_ids(self):
        """objects that outlive a call: module and class attributes and default arguments"""
        n = len(self.modules)
        if self._shared is None or self._shared[0] != n:
            ids = {}

            def walk(v, where):
                if id(v) in ids or len(ids) > 20000:
                    return
                if isinstance(v, (dict, list, tuple)):
                    ids[id(v)] = (where, v)
                    for k, x in (v.items() if isinstance(v, dict) else enumerate(v)):
                        walk(x, where)
                elif isinstance(v, Arr):
                    ids[id(v.buf)] = (where, v)
                elif isinstance(v, Obj):
                    ids[id(v)] = ids[id(v.attrs)] = (where, v)
                    for x in v.attrs.values():
                        walk(x, where)
                elif isinstance(v, Func):
                    for x in list(v.defaults) + list(v.kwdefaults.values()):
                        walk(x, f'default argument of {v.qual}')
                elif isinstance(v, ClassV):
                    ids[id(v.ns)] = (f'class {v.name}', v)
                    for k, x in v.ns.items():
                        walk(x, f'{v.name}.{k}')
            for m in list(self.modules.values()):
                if getattr(m, 'env', None) is not None:
                    ids[id(m.ns)] = (m.name, m)
                    for k, x in list(m.ns.items()):
                        walk(x, f'{m.name}.{k}')
            self._shared = (n, ids)
        return self._shared[1]

    _shared = None

    def noteshared(self, o, what=''):
        if self.depth and not self.importing:
            s = self.shared_ids().get(id(o))
            if s is not None:
                self.shared_writes.add(s[0] + what)

    def setvar(self, env, name, val):
        d = env.vars
        self.noteshared(d, f'.{name}')
        if name in d:
            old = d[name]
            self.trail.append(lambda: d.__setitem__(name, old))
        else:
            self.trail.append(lambda: d.pop(name, None))
        d[name] = val

    def setattr_(self, obj, name, val):
        d = obj.attrs
        self.noteshared(obj)
        if name in d:
            old = d[name]
            self.trail.append(lambda: d.__setitem__(name, old))
        else:
            self.trail.append(lambda: d.pop(name, None))
        d[name] = val

    def mutlist(self, lst):
        self.noteshared(lst)
        old = list(lst)

        def undo():
            lst[:] = old
        self.trail.append(undo)

    def mutdict(self, d):
        self.noteshared(d)
        old = dict(d)

        def undo():
            d.clear()
            d.update(old)
        self.trail.append(undo)

    def setbuf(self, buf, fn, kind=None):
        self.noteshared(buf)
        old, okind, om = buf.fn, buf.kind, buf.memo

        def undo():
            buf.fn, buf.kind, buf.memo = old, okind, om
        self.trail.append(undo)
        buf.fn = fn
        buf.memo = {}
        if kind:
            buf.kind = kind

    def assume(self, *fs):
        for f in fs:
            f = canonb(lift(f))
            if f is not TRUE:
                self.facts.append(f)

    # --- decisions ----------------------------------------------------------
    def entails(self, c, extra=(), timeout=None):
        c = lift(c)
        if c is TRUE:
            return True
        r = self.solver.entails(self.facts + list(extra), c, timeout)
        if r:
            V.CONSULT[0] += 1
        return r

    def decide(self, c):
        c = lift(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        c = canonb(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        V.CONSULT[0] += 1
        if c in self.facts:
            return True
        nc = canonb(not_(c))
        if nc in self.facts:
            return False
        if self.oracle is None:
            if self.entails(c):
                return True
            if self.entails(nc):
                return False
            raise Unsupported(f'undecided condition {tm.show(c)[:200]}')
        o = self.oracle
        if o['pos'] < len(o['prefix']):
            kind, b = o['prefix'][o['pos']]
            o['pos'] += 1
            o['trace'].append((kind, b))
            if kind == 'fork':
                self.pc.append(c if b else nc)
            self.facts.append(c if b else nc)
            return b
        if self.entails(c):
            o['trace'].append(('det', True))
            o['pos'] += 1
            self.facts.append(c)
            return True
        if self.entails(nc):
            o['trace'].append(('det', False))
            o['pos'] += 1
            self.facts.append(nc)
            return False
        o['pending'].append(list(o['trace']) + [('fork', False)])
        o['trace'].append(('fork', True))
        o['pos'] += 1
        self.pc.append(c)
        self.facts.append(c)
        return True

    def explore(self, thunk, finish):
        """run thunk along every feasible path; finish(out, pcs, facts) captures the result
        before the state is rolled back"""
        results = []
        stack = [[]]
        saved = self.oracle
        while stack:
            prefix = stack.pop()
            self.oracle = {'prefix': prefix, 'pos': 0, 'trace': [], 'pending': []}
            mark, nf, npc = len(self.trail), len(self.facts), len(self.pc)
            try:
                try:
                    out = ('ok', thunk())
                except PyRaise as e:
                    out = ('raise', e)
                results.append(finish(out, self.pc[npc:], self.facts[nf:]))
                stack.extend(self.oracle['pending'])
            finally:
                self.undo_to(mark)
                del self.facts[nf:]
                del self.pc[npc:]
                self.oracle = saved
            if len(results) > MAXPATHS:
                raise Unsupported('too many paths')
        return results

    # --- modules ------------------------------------------------------------
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name.startswith('weac.') and 'weac' not in self.modules:
            self.module('weac')
            if name in self.modules:
                return self.modules[name]
        if name in self.stdmods:
            return self.stdmods[name]
        if name == 'weac' or name.startswith('weac.'):
            rel = name.split('.')
            path = os.path.join(self.repo, *rel)
            if os.path.isdir(path):
                path = os.path.join(path, '__init__.py')
            else:
                path += '.py'
            if not os.path.exists(path):
                raise PyRaise(ImportError, (name,))
            m = ModV(name)
            m.ns = {'__name__': name, '__file__': path}
            self.modules[name] = m
            if name == 'weac.plot' and not getattr(self, 'want_plot', False):
                return m
            tree = ast.parse(open(path).read(), path)
            env = Env(None, m.ns)
            m.env = env
            self.run_module(tree, env, name)
            return m
        return ModV(name, getter=lambda a: Native(f'{name}.{a}', lambda I, args, kw: _unsup(f'{name}.{a}')))

    def run_module(self, tree, env, name):
        self.importing += 1
        try:
            for st in tree.body:
                self.curmod = name
                try:
                    self.stmt(st, env)
                except PyRaise as e:
                    raise Unsupported(f'module {name}: {e}')
        finally:
            self.importing -= 1

    def getclass(self, name):
        for mod in ('weac.layered', 'weac.inverse', 'weac.eigensystem', 'weac.mixins'):
            m = self.module(mod)
            if name in m.ns:
                return m.ns[name]
        raise KeyError(name)

    def getfunc(self, mod, name):
        return self.module(mod).ns[name]

    # --- statements ---------------------------------------------------------
    def block(self, stmts, env):
        for s in stmts:
            sig = self.stmt(s, env)
            if sig is not None:
                return sig
        return None

    def stmt(self, s, env):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__} line {s.lineno}')
        return m(s, env)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = type(s.op).__name__
        t = s.target
        rhs = None
        if isinstance(t, ast.Name):
            cur = self.name(t.id, env)
            rhs = self.ev(s.value, env)
            self.assign(t, self.inplace(op, cur, rhs), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            rhs = self.ev(s.value, env)
            self.setattribute(o, t.attr, self.inplace(op, cur, rhs))
        else:
            o = self.ev(t.value, env)
            key = self.index(t.slice, env)
            rhs = self.ev(s.value, env)
            if isinstance(o, Arr):
                self.arr_aug(o, key, op, rhs)
            else:
                self.setitem(o, key, self.inplace(op, self.getitem(o, key), rhs))

    def inplace(self, op, cur, rhs):
        if isinstance(cur, Arr):
            self.arr_aug(cur, Ellipsis, op, rhs)
            return cur
        if isinstance(cur, list) and op == 'Add':
            self.list_extend(cur, rhs)
            return cur
        return self.binop(op, cur, rhs)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.globals_ or t.id in env.nonloc:
                e = env.parent.lookup(t.id) or env
            self.setvar(e, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), any(isinstance(x, ast.Starred) for x in t.elts))
            star = next((i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)), None)
            if star is not None:
                after = len(t.elts) - star - 1
                vs = vs[:star] + [list(vs[star:len(vs) - after])] + vs[len(vs) - after:]
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattribute(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.index(t.slice, env), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, star=False):
        vs = self.tolist(v)
        if not star and len(vs) != n:
            raise PyRaise(ValueError, ('unpack',))
        return vs

    def tolist(self, v):
        s = self.seq(v)
        if not isinstance(s.n, int):
            raise Unsupported('unpack symbolic sequence')
        return [s.get(k) for k in range(s.n)]

    def setattribute(self, o, name, v):
        if isinstance(o, Obj):
            for f in self.frames:
                if o.ser < f.ser:
                    f.attr.append((o, name))
            self.setattr_(o, name, v)
        elif isinstance(o, Arr) and name == 'shape':
            raise Unsupported('set shape')
        elif isinstance(o, ClassV):
            raise Unsupported('class attribute write')
        else:
            raise Unsupported(f'set attribute on {type(o).__name__}')

    def s_Return(self, s, env):
        return Signal('return', self.ev(s.value, env) if s.value is not None else None)

    def s_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            return self.block(s.body, env)
        return self.block(s.orelse, env)

    def s_While(self, s, env):
        for _ in range(MAXITER):
            t = self.testterm(s.test, env)
            if t is not None and not self.entails(t, (), 1500) and not self.entails(not_(t), (), 1500):
                return self.havoc_while(s, env)
            if not self.truth(self.ev(s.test, env)):
                return self.block(s.orelse, env)
            sig = self.block(s.body, env)
            if sig is BREAK:
                return None
            if sig is not None and sig is not CONTINUE:
                return sig
            if len(self.pc) > 80:
                raise Unsupported('while over symbolic condition')
        raise Unsupported('while iterations')

    def testterm(self, test, env):
        """a loop test as one boolean term, None where it has none"""
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(test)):
            return None

        def thunk():
            v = conc(self.ev(test, env))
            if isinstance(v, Arr) and v.shape == ():
                v = conc(v.at())
            if isinstance(v, bool):
                return lift(v)
            if isinstance(v, T) and v.sort == 'b':
                return v
            if isinstance(v, (int, Fraction, T)) and not (isinstance(v, T) and v.sort == 's'):
                return not_(eq(lift(v), ZERO))
            return None
        rs = self.explore(thunk, lambda out, pc, facts: (out, list(pc)))
        if any(out[0] == 'raise' or out[1] is None for out, _ in rs):
            return None
        return canonb(lift(self.merge([(pc, out[1]) for out, pc in rs])))

    def havoc_while(self, s, env):
        """loop with an undecidable test: any state satisfying an inferred invariant and the negated test
        (partial correctness: termination is not proved)"""
        names = sorted(x for x in _assigned(s) if x in env.vars)
        pre, hav = {}, {}
        for x in names:
            v = conc(env.vars[x])
            if not isinstance(v, (int, Fraction, T)) or isinstance(v, bool) or (isinstance(v, T) and v.sort in 'bs'):
                raise Unsupported(f'while loop changes {x}')
            pre[x] = lift(v)
            hav[x] = self.fresh('w_' + x, 'r')
        cands = []
        for x in names:
            h = hav[x]
            ref = {ZERO, pre[x]} | {v for v in tm.freevars(pre[x]) if v.sort in 'ri'}
            for r in sorted(ref, key=lambda t: t.id):
                cands += [lt(r, h), lt(h, r), le(r, h), le(h, r)]
        sub0 = {hav[x]: pre[x] for x in names}
        cands = [c for c in cands if self.entails(subst(c, sub0))]
        new = [x for x in _assigned(s) if x not in env.vars]

        def body():
            fr = Frame(ZERO, ONE)
            self.frames.append(fr)
            try:
                self.truth(self.ev(s.test, env)) or _unsup('while test')
                sig = self.block(s.body, env)
                if sig is not None and sig is not CONTINUE:
                    raise Unsupported('break or return in a symbolic while loop')
            finally:
                self.frames.pop()
            if fr.wlog or fr.appends or fr.attr:
                raise Unsupported('side effect in a symbolic while loop')
        while True:
            nf, mark = len(self.facts), len(self.trail)
            try:
                for x in names:
                    self.setvar(env, x, hav[x])
                self.assume(*cands)
                t = self.testterm(s.test, env)
                if t is None:
                    raise Unsupported('while test')
                self.assume(t)

                def finish(out, pc, facts):
                    if out[0] == 'raise':
                        raise Unsupported('exception in a symbolic while loop')
                    m = {hav[x]: lift(conc(env.vars[x])) for x in names}
                    return [c for c in cands if self.entails(subst(c, m))]
                kept = self.explore(body, finish)
            finally:
                del self.facts[nf:]
                self.undo_to(mark)
            good = [c for c in cands if all(c in k for k in kept)]
            if len(good) == len(cands):
                break
            cands = good
        for x in names:
            self.setvar(env, x, hav[x])
        for x in new:
            self.setvar(env, x, Poison(f'{x} after symbolic while loop'))
        self.assume(*cands)
        t = self.testterm(s.test, env)
        if t is None:
            raise Unsupported('while test')
        self.assume(not_(t))
        return self.block(s.orelse, env)

    def s_Break(self, s, env):
        return BREAK

    def s_Continue(self, s, env):
        return CONTINUE

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, 'curexc', None)
            raise cur if cur is not None else PyRaise(RuntimeError)
        e = self.ev(s.exc, env)
        if isinstance(e, ExcObj):
            raise PyRaise(e.cls, e.args)
        if isinstance(e, type) and issubclass(e, BaseException):
            raise PyRaise(e)
        raise Unsupported('raise')

    def s_Try(self, s, env):
        try:
            sig = self.block(s.body, env)
            if sig is None:
                sig = self.block(s.orelse, env)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None:
                    ok = True
                else:
                    ts = self.ev(h.type, env)
                    ts = ts if isinstance(ts, tuple) else (ts,)
                    ok = any(isinstance(t, type) and issubclass(e.cls, t) for t in ts)
                if ok:
                    if h.name:
                        self.setvar(env, h.name, ExcObj(e.cls, e.eargs))
                    old, self.curexc = getattr(self, 'curexc', None), e
                    try:
                        sig = self.block(h.body, env)
                    finally:
                        self.curexc = old
                    break
            else:
                if s.finalbody:
                    f = self.block(s.finalbody, env)
                    if f is not None:
                        return f
                raise
        if s.finalbody:
            f = self.block(s.finalbody, env)
            if f is not None:
                return f
        return sig

    def s_With(self, s, env):
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if not (isinstance(v, ModV) and v.name == 'nullctx'):
                raise Unsupported('with')
            if it.optional_vars is not None:
                self.assign(it.optional_vars, None, env)
        return self.block(s.body, env)

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise PyRaise(AssertionError)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                d, old, n = env.vars, env.vars.get(t.id), t.id
                self.trail.append(lambda d=d, n=n, old=old: d.__setitem__(n, old))
                d.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                if isinstance(o, dict):
                    self.mutdict(o)
                    o.pop(self.index(t.slice, env))
                elif isinstance(o, list):
                    k = self.index(t.slice, env)
                    self.mutlist(o)
                    del o[k]
                else:
                    raise Unsupported('del')
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                d, a = o.attrs, t.attr
                old = d[a]
                self.trail.append(lambda: d.__setitem__(a, old))
                del d[a]
            else:
                raise Unsupported('del')

    def s_Global(self, s, env):
        env.globals_.update(s.names)

    def s_Nonlocal(self, s, env):
        env.nonloc.update(s.names)

    def s_Import(self, s, env):
        for a in s.names:
            m = self.module(a.name)
            if a.asname:
                self.setvar(env, a.asname, m)
            else:
                self.setvar(env, a.name.split('.')[0], self.module(a.name.split('.')[0]))

    def s_ImportFrom(self, s, env):
        m = self.module(s.module)
        for a in s.names:
            full = f'{s.module}.{a.name}'
            if isinstance(m, ModV) and a.name in m.ns:
                v = m.ns[a.name]
            elif s.module == 'weac' or full in self.stdmods:
                v = self.module(full)
            else:
                v = self.getattr(m, a.name)
            self.setvar(env, a.asname or a.name, v)

    def s_FunctionDef(self, s, env, cls=None):
        defaults = [self.ev(d, env) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        infn = env.parent is not None and cls is None
        qual = (f'{cls}.{s.name}' if cls else s.name)
        f = Func(s, env, ('<locals>.' if infn else '') + qual, self.curmod, cls, defaults, kwd)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env)
            f = self.call(dv, [f], {})
        self.setvar(env, s.name, f)

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        bases = [b for b in bases if isinstance(b, ClassV)]
        ns = {}
        cenv = Env(env, ns)
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                defaults = [self.ev(d, env) for d in st.args.defaults]
                kwd = {a.arg: self.ev(d, env) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults) if d is not None}
                f = Func(st, env, f'{s.name}.{st.name}', self.curmod, s.name, defaults, kwd)
                for d in reversed(st.decorator_list):
                    f = self.call(self.ev(d, cenv), [f], {})
                ns[st.name] = f
            else:
                self.stmt(st, cenv)
        c = ClassV(s.name, bases, ns, f'{self.curmod}.{s.name}')
        for f in ns.values():
            for g in (f, getattr(f, 'fn', None)):
                if isinstance(g, Func):
                    g.owner = c
        self.setvar(env, s.name, c)

    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.match(c.pattern, v, env):
                if c.guard is None or self.truth(self.ev(c.guard, env)):
                    return self.block(c.body, env)
        return None

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('Eq', v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                self.setvar(env, p.name, v)
            return True
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)) or len(v) != len(p.patterns):
                return False
            return all(self.match(q, x, env) for q, x in zip(p.patterns, v))
        raise Unsupported('match pattern')

    # --- loops --------------------------------------------------------------
    def s_For(self, s, env):
        it = self.seq(self.ev(s.iter, env))
        if isinstance(it.n, int):
            if it.n > MAXITER:
                raise Unsupported('long concrete loop')
            for k in range(it.n):
                self.assign(s.target, it.get(k), env)
                sig = self.block(s.body, env)
                if sig is BREAK:
                    return None
                if sig is not None and sig is not CONTINUE:
                    return sig
            return self.block(s.orelse, env)
        self.symfor(s, it, env)
        return self.block(s.orelse, env)

    def symfor(self, s, it, env):
        assigned = sorted(_assigned(s))
        n = lift(it.n)
        # variables local to this function scope
        pre = {x: env.vars[x] for x in assigned if x in env.vars}

        def run(i, seed):
            fr = Frame(i, n)
            self.frames.append(fr)

            def thunk():
                fr.wlog, fr.appends, fr.attr = [], [], []
                fr.reads = set()
                for x, val in seed.items():
                    self.setvar(env, x, val)
                self.assign(s.target, it.get(i), env)
                sig = self.block(s.body, env)
                if sig is not None and sig is not CONTINUE:
                    raise Unsupported('break/return in symbolic loop')
                return None

            def finish(out, pc, facts):
                return dict(out=out, pc=list(pc), facts=list(facts),
                            env={x: env.vars[x] for x in assigned if x in env.vars},
                            wlog=list(fr.wlog), appends=list(fr.appends), reads=set(fr.reads),
                            attr=[(o, a, o.attrs.get(a)) for o, a in fr.attr])
            nf = len(self.facts)
            try:
                self.assume(le(ZERO, i), lt(i, n))
                return self.explore(thunk, finish)
            finally:
                del self.facts[nf:]
                self.frames.pop()
        # pass 1: loop-carried variables as free symbols
        i = self.fresh('i')
        seed, csym, poison = {}, {}, set()
        for x, v in pre.items():
            if isinstance(v, (int, Fraction, T)) and not isinstance(v, bool) and not (
                    isinstance(v, T) and v.sort in 'bs'):
                c = self.fresh('c_' + x, 'i' if lift(v).sort == 'i' else 'r')
                csym[x] = c
                seed[x] = c
            elif isinstance(v, Arr) and all(isinstance(d, int) for d in v.shape):
                self.ctr += 1
                nm = f'c_{x}#{self.ctr}'
                csym[x] = nm
                seed[x] = mkarr(v.shape, lambda idx, nm=nm: sel(nm, *idx), v.kind)
            elif isinstance(v, bool) or (isinstance(v, T) and v.sort == 'b'):
                c = self.fresh('c_' + x, 'b')
                csym[x] = c
                seed[x] = c
        if csym:
            paths = [p for p in run(i, seed) if p['out'][0] == 'ok']
            acc, final, last = self.solve_carried(paths, i, n, pre, csym)
        else:
            acc, final, last = {}, {}, set()
        # pass 2: with the true values
        paths = run(i, acc)
        raises = [p for p in paths if p['out'][0] == 'raise']
        paths = [p for p in paths if p['out'][0] == 'ok']
        for p in raises:
            k = self.fresh('k')
            c = subst(and_(*p['pc']), {i: k})
            if self.decide(tm.anyT(c, k, ZERO, n)):
                raise p['out'][1]
        if not paths:
            raise Unsupported('loop never completes')
        # facts established in every iteration are dropped; results
        for x in assigned:
            if x in final:
                self.setvar(env, x, final[x])
                continue
            if not any(x in p['env'] for p in paths):
                continue
            if x in pre and all(p['env'].get(x) is pre[x] for p in paths):
                continue
            if x in pre and x not in csym:
                # non-numeric carried variable: acceptable only if overwritten before use
                pass
            try:
                val = self.merge([(p['pc'], p['env'][x]) for p in paths])
                fin = vsubst(val, {i: canon(sub(n, ONE))})
                if x in pre:
                    fin = vite(le(n, ZERO), pre[x], fin)
                self.setvar(env, x, fin)
            except (Unsupported, KeyError) as e:
                self.setvar(env, x, Poison(f'{x} after symbolic loop: {e}'))
        for p in paths:
            for o, a, v in p['attr']:
                raise Unsupported(f'attribute {a} written in a symbolic loop')
        # list appends
        lists = {}
        for p in paths:
            for lst, v in p['appends']:
                lists.setdefault(id(lst), (lst, []))
        for lid, (lst, _) in lists.items():
            per = []
            for p in paths:
                vs = [v for l2, v in p['appends'] if l2 is lst]
                per.append((p['pc'], vs))
            m = len(per[0][1])
            if any(len(v) != m for _, v in per):
                raise Unsupported('conditional append in symbolic loop')
            if m == 1:
                val = self.merge([(pc, v[0]) for pc, v in per])
            else:
                each = [self.merge([(pc, v[r]) for pc, v in per]) for r in range(m)]
                prefix = list(lst)
                self.mutlist(lst)

                def item(j, each=each, m=m):
                    q = tm.fn('floor', tm.div(lift(j), num(m)))
                    v = vsubst(each[-1], {i: q})
                    for r in range(m - 2, -1, -1):
                        v = vite(eq(lift(j), add(mul(num(m), q), num(r))), vsubst(each[r], {i: q}), v)
                    return v
                lst[:] = [_SymTail(SList(dim(mul(num(m), n)), item), prefix)]
                continue
            npre = len(lst)
            prefix = list(lst)
            self.mutlist(lst)
            lst[:] = [_SymTail(SList(dim(n), lambda j, val=val: vsubst(val, {i: lift(j)})), prefix)]
        # array writes
        bufs = {}
        for p in paths:
            for buf, res, kind in p['wlog']:
                bufs.setdefault(buf.ser, (buf, []))[1].append((and_(*p['pc']), res, kind))
        for ser, (buf, entries) in bufs.items():
            if any(ser in p['reads'] for p in paths):
                raise Unsupported('array both read and written in a symbolic loop')
            self.write_loop(buf, entries, i, n)

    def merge(self, pairs):
        val = pairs[-1][1]
        for pc, v in reversed(pairs[:-1]):
            val = vite(and_(*pc), v, val)
        return val

    def solve_carried(self, paths, i, n, pre, csym):
        vals, each = {}, {}
        for x in csym:
            try:
                each[x] = [(p['pc'], p['env'][x]) for p in paths]
                vals[x] = self.merge(each[x])
            except Unsupported as e:
                vals[x] = Poison(str(e))
        acc, final, last = {}, {}, set()
        m = {}
        todo = set(csym)
        arrs = {x: c for x, c in csym.items() if isinstance(c, str)}

        def carried(v):
            fv = vfree(v)
            s = {x for x, c in csym.items() if not isinstance(c, str) and c in fv and x in todo}
            if arrs:
                names = _selnames(v)
                s |= {x for x, c in arrs.items() if c in names and x in todo}
            return s
        progress = True
        while todo and progress:
            progress = False
            for x in sorted(todo):
                v = vals[x]
                if isinstance(v, Poison):
                    continue
                v = vsubst(v, m)
                c = csym[x]
                if isinstance(c, str):
                    if isinstance(v, Arr) and v.shape == pre[x].shape:
                        k = self.fresh('k')
                        g, g0 = v.snap(), pre[x].snap()
                        delta = mkarr(v.shape, lambda idx: canon(sub(g(idx), sel(c, *idx))))
                        if not carried(delta):
                            gd = delta.snap()
                            acc[x] = mkarr(v.shape, lambda idx, gd=gd, g0=g0, k=k: add(
                                g0(idx), tm.sumT(subst(gd(idx), {i: k}), k, ZERO, i)))
                            final[x] = mkarr(v.shape, lambda idx, gd=gd, g0=g0, k=k: add(
                                g0(idx), tm.sumT(subst(gd(idx), {i: k}), k, ZERO, n)))
                            todo.discard(x)
                            progress = True
                            break
                    continue
                if v is c or (isinstance(v, T) and v is c):
                    acc[x] = pre[x]
                    final[x] = pre[x]
                elif not carried(v):
                    prev = vsubst(v, {i: canon(sub(i, ONE))})
                    acc[x] = vite(le(i, ZERO), pre[x], prev)
                    fin = vsubst(v, {i: canon(sub(n, ONE))})
                    final[x] = vite(le(n, ZERO), pre[x], fin)
                else:
                    if c.sort == 'b':
                        continue
                    delta = canon(sub(lift(v), c))
                    if carried(delta):
                        # per path: the conditional part of the step need not contain the variable
                        if len(each[x]) < 2 or not all(isinstance(q, (int, Fraction, T)) for _, q in each[x]):
                            continue
                        delta = self.merge([([vsubst(g, m) for g in pc], canon(sub(lift(vsubst(q, m)), c))) for pc, q in each[x]])
                        delta = lift(delta)
                        if carried(delta):
                            continue
                    k = self.fresh('k')
                    acc[x] = add(lift(pre[x]), tm.sumT(subst(delta, {i: k}), k, ZERO, i))
                    final[x] = add(lift(pre[x]), tm.sumT(subst(delta, {i: k}), k, ZERO, n))
                todo.discard(x)
                if isinstance(acc[x], (T, int, Fraction)):
                    m[c] = lift(acc[x])
                progress = True
                break
        for x in todo:
            acc[x] = Poison(f'loop-carried {x}')
            final[x] = Poison(f'loop-carried {x}')
        return acc, final, last

    # --- array writes -------------------------------------------------------
    def write(self, buf, res, kind='set', vkind='f'):
        """res(idx, extra) -> [(cond, value)]; later entries win (set) or accumulate (add)"""
        for f in self.frames:
            if buf.ser < f.ser:
                f.wlog.append((buf, res, kind))
                break
        old = buf.fn
        trunc = buf.kind == 'i' and vkind in ('f',)
        if buf.kind == 'b' and vkind != 'b':
            vkind2 = 'b'

        def fn(idx):
            r = old(idx)
            for c, v in res(idx, ()):
                if trunc and isinstance(v, T) and v.sort != 'i':
                    v = _trunc(v)
                if kind == 'set':
                    r = cite(c, v, r)
                else:
                    r = _cadd(r, cite(c, v, ZERO))
            return r
        self.setbuf(buf, fn)

    def write_loop(self, buf, entries, i, n):
        kinds = {k for _, _, k in entries}
        if len(kinds) > 1:
            raise Unsupported('mixed set/add in symbolic loop')
        kind = kinds.pop()

        def res(idx, extra):
            out = []
            rng = [le(ZERO, i), lt(i, n)]
            raw = []
            for guard, r, _ in entries:
                for c, v in r(idx, tuple(extra) + tuple(rng) + (guard,)):
                    c = canonb(and_(guard, c))
                    if c is not FALSE:
                        raw.append((c, v))
            if not raw:
                return out
            if kind == 'add' and all(i not in tm.freevars(c) for c, _ in raw):
                return [(c, tm.sumT(lift(v), i, ZERO, n) if i in vfree(v) else mul(lift(v), n)) for c, v in raw]
            conds = list(dict.fromkeys(c for c, _ in raw))

            def rank(cands):
                out = []
                for q, cd in enumerate(cands):
                    ccs = [canonb(and_(subst(c, {i: cd}), le(ZERO, cd), lt(cd, n))) for c in conds]
                    ccs = [c for c in ccs if c is not FALSE]
                    if ccs:
                        out.append((min(0 if c is TRUE else len(c.args) if c.op == 'and' else 1 for c in ccs), q, cd, ccs))
                return sorted(out, key=lambda r: r[:2])
            likely, rest = self.candidates(idx, n)
            ranked = rank(likely)
            anyhit = or_(*conds)
            kept = []
            covered = lambda ks: self.entails(not_(and_(anyhit, *[not_(eq(i, k)) for k in ks])), tuple(extra) + tuple(rng))
            complete = lambda: covered(kept)
            full = not (ranked and ranked[0][0] == 0) and complete()
            tiers = [lambda: ranked, lambda: rank(rest)]
            for _, _, cd, ccs in (r for t in tiers for r in ([] if full else t())):
                if full:
                    break
                if all(c is not TRUE and self.entails(not_(c), extra) for c in ccs):
                    continue
                kept.append(cd)
                full = complete()
            if full and len(kept) > 1:      # the last one is needed; are the others?
                kept = [kept[-1]] if covered(kept[-1:]) else self.fewest(kept, covered)
            if not full:
                if kind == 'add':
                    return [(TRUE, tm.sumT(add(*[ite(c, lift(v), ZERO) for c, v in raw]), i, ZERO, n))]
                if self.resolved_only or any(isinstance(v, Cx) for _, v in raw):
                    raise Unsupported('cannot resolve which iteration writes ' + ','.join(map(tm.show, idx)))
                return V.last_write([(c, lift(v)) for c, v in raw], i, n)
            kept = self.order(kept, extra) if kind == 'set' else kept
            done = []
            for cd in kept:
                for c, v in raw:
                    cc = and_(subst(c, {i: cd}), le(ZERO, cd), lt(cd, n))
                    if kind == 'add':
                        # distinct candidates may coincide: count each iteration once
                        cc = and_(cc, *[not_(eq(cd, d)) for d in done])
                    cc = canonb(cc)
                    if cc is not TRUE and self.entails(cc, extra):
                        cc = TRUE
                    if cc is FALSE or (cc is not TRUE and self.entails(not_(cc), extra)):
                        continue
                    out.append((cc, vs_raw(v, {i: cd})))
                done.append(cd)
            return out
        self.write(buf, res, kind)

    def fewest(self, kept, covered):
        """drop candidates as long as the others cover all iterations"""
        for k in kept[:-1]:
            rest = [j for j in kept if j is not k]
            if covered(rest):
                kept = rest
        return kept

    def order(self, kept, extra):
        import functools

        def cmp(a, b):
            d = canon(sub(a, b))
            if d.op == 'num':
                return -1 if d.args[0] < 0 else 1 if d.args[0] > 0 else 0
            if self.entails(le(a, b), extra):
                return -1
            if self.entails(le(b, a), extra):
                return 1
            return 0
        return sorted(kept, key=functools.cmp_to_key(cmp))

    def candidates(self, idx, n):
        """iterations that may write the given cell, the likely ones first"""
        vs, base = [], []
        for e in idx:
            e = canon(e)
            for v in sorted(tm.freevars(e), key=lambda t: t.args[0]):
                if v.sort == 'i' and v not in vs:
                    vs.append(v)
            for u in tm.subterms(e):
                if u.op == 'sel' and u.sort == 'i' and u not in base:
                    base.append(u)
                if u.op == 'ps':
                    b = canon(u.args[2])
                    if b not in base:
                        base.append(b)
            if e not in base and e.sort == 'i':
                base.append(e)
        likely = []
        for c in [canon(add(b, num(d))) for b in vs for d in (0, -1, 1)] + [ZERO, canon(sub(n, ONE))]:
            if c not in likely:
                likely.append(c)
        rest = []
        for c in [canon(add(b, num(d))) for b in vs + base for d in (0, -1, 1, -2, 2)] + [ONE, canon(sub(n, num(2)))]:
            if c not in likely and c not in rest:
                rest.append(c)
        return likely, rest

    # --- expressions --------------------------------------------------------
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return INF if v == float('inf') else Fraction(repr(v))
        if isinstance(v, complex):
            return Cx(Fraction(repr(v.real)), Fraction(repr(v.imag)))
        return v

    def name(self, n, env):
        e = env.lookup(n)
        if e is not None:
            v = e.vars[n]
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        if n in self.builtins:
            return self.builtins[n]
        raise PyRaise(UnboundLocalError if env.parent is not None else NameError, (n,))

    def e_Name(self, e, env):
        return self.name(e.id, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.elts(e.elts, env)

    def e_Set(self, e, env):
        return tuple(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.tolist(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                kk = self.ev(k, env)
                if isinstance(kk, T):
                    kk = conc(kk)
                    if isinstance(kk, T):
                        raise Unsupported('symbolic dict key')
                d[kk] = self.ev(v, env)
        return d

    def e_JoinedStr(self, e, env):
        out = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += str(v.value)
            else:
                x = conc(self.ev(v.value, env))
                out += str(x) if isinstance(x, (str, int)) else '<?>'
        return out

    def e_Lambda(self, e, env):
        node = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno, col_offset=0)],
                               decorator_list=[], lineno=e.lineno, col_offset=0)
        return Func(node, env, '<locals>.<lambda>', self.curmod, None, [self.ev(d, env) for d in e.args.defaults],
                    {a.arg: self.ev(d, env) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None})

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], env)
        for k, node in enumerate(e.values[1:], 1):
            cv = conc(v)
            if isinstance(cv, T) and cv.sort == 'b' and _simple(node):
                nf = len(self.facts)
                self.facts.append(canonb(cv if isand else not_(cv)))
                save, self.oracle = self.oracle, None
                try:
                    w = conc(self.ev(node, env))
                except Unsupported:
                    w = Poison('')
                finally:
                    self.oracle = save
                    del self.facts[nf:]
                if isinstance(w, bool) or (isinstance(w, T) and w.sort == 'b'):
                    v = conc((and_ if isand else or_)(cv, lift(w)))
                    continue
            if self.truth(v) != isand:
                return v if not (isinstance(v, T) and v.sort == 'b') else (not isand)
            v = self.ev(node, env)
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        op = type(e.op).__name__
        if op == 'Not':
            cv = conc(v)
            if isinstance(cv, T) and cv.sort == 'b':
                return conc(not_(cv))
            return not self.truth(v)
        if op == 'USub':
            if isinstance(v, Arr):
                return self.elementwise(lambda x: _cneg(x), [v], v.kind)
            if isinstance(v, (T, Cx)):
                return _cneg(v) if isinstance(v, Cx) else conc(neg(v))
            return -v
        if op == 'UAdd':
            return v
        if op == 'Invert':
            if isinstance(v, Arr):
                if v.kind == 'b':
                    return self.elementwise(lambda x: not_(x), [v], 'b')
                return self.elementwise(lambda x: sub(neg(x), ONE), [v], v.kind)
            if isinstance(v, T) and v.sort == 'b':
                return conc(not_(v))
            if isinstance(v, bool):
                # numpy bool semantics (Python bools do not reach ~ in practice)
                return not v
            return ~v
        raise Unsupported(op)

    def e_BinOp(self, e, env):
        return self.binop(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env))

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, env)
            c = self.compare(type(op).__name__, l, r)
            if len(e.ops) == 1:
                return c
            res = self.land(res, c)
            l = r
        return res

    def land(self, a, b):
        if a is True:
            return b
        if isinstance(a, Arr) or isinstance(b, Arr):
            raise PyRaise(ValueError, ('truth value of an array is ambiguous',))
        return conc(and_(lift(a), lift(b)))

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            slf = self.name('self', env)
            fn = env.lookup('__class__')
            return Super(fn.vars['__class__'], slf)
        f = self.ev(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.tolist(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                for q in v:
                    if q in kw:
                        raise PyRaise(TypeError, ('multiple values',))
                kw.update(v)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        return self.getitem(o, self.index(e.slice, env))

    def index(self, s, env):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.ev(x, env)
            return slice(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, env) for x in s.elts)
        return self.ev(s, env)

    def e_Slice(self, s, env):
        return self.index(s, env)

    def e_ListComp(self, e, env):
        return self.comp(e, env, e.elt)

    def e_GeneratorExp(self, e, env):
        v = self.comp(e, env, e.elt)
        return v

    def e_SetComp(self, e, env):
        raise Unsupported('set comprehension')

    def e_DictComp(self, e, env):
        if len(e.generators) != 1:
            raise Unsupported('dict comprehension')
        g = e.generators[0]
        s = self.seq(self.ev(g.iter, env))
        if not isinstance(s.n, int):
            raise Unsupported('symbolic dict comprehension')
        d = {}
        cenv = Env(env)
        for k in range(s.n):
            self.assign(g.target, s.get(k), cenv)
            if all(self.truth(self.ev(c, cenv)) for c in g.ifs):
                d[conc(self.ev(e.key, cenv))] = self.ev(e.value, cenv)
        return d

    def comp(self, e, env, elt):
        if len(e.generators) > 1:
            out = []
            g = e.generators[0]
            s = self.seq(self.ev(g.iter, env))
            if not isinstance(s.n, int):
                raise Unsupported('nested symbolic comprehension')
            cenv = Env(env)
            for k in range(s.n):
                self.assign(g.target, s.get(k), cenv)
                if all(self.truth(self.ev(c, cenv)) for c in g.ifs):
                    sub_ = ast.ListComp(elt=elt, generators=e.generators[1:])
                    r = self.comp(sub_, cenv, elt)
                    if not isinstance(r, list):
                        raise Unsupported('nested symbolic comprehension')
                    out.extend(r)
            return out
        g = e.generators[0]
        s = self.seq(self.ev(g.iter, env))
        cenv = Env(env)
        if isinstance(s.n, int):
            out = []
            for k in range(s.n):
                self.assign(g.target, s.get(k), cenv)
                if all(self.truth(self.ev(c, cenv)) for c in g.ifs):
                    out.append(self.ev(elt, cenv))
            return out
        i = self.fresh('i')
        if g.ifs:
            def conds():
                self.assign(g.target, s.get(i), cenv)
                c = TRUE
                for x in g.ifs:
                    v = conc(self.ev(x, cenv))
                    if not isinstance(v, (bool, T)):
                        v = self.truth(v)
                    c = and_(c, lift(v))
                return conc(c)
            m = self.generic(i, s.n, conds)
            m = lift(m)
            f = filter_for(lambda j: subst(m, {i: j}), lift(s.n))
            j = self.fresh('j')

            def thunk():
                self.assign(g.target, s.get(f.sigma(j)), cenv)
                return self.ev(elt, cenv)
            val = self.generic(j, f.count, thunk)
            return SList(f.count, lambda q: vsubst(val, {j: lift(q)}))

        def thunk():
            self.assign(g.target, s.get(i), cenv)
            return self.ev(elt, cenv)
        val = self.generic(i, s.n, thunk)
        return SList(s.n, lambda q: vsubst(val, {i: lift(q)}))

    def generic(self, i, n, thunk):
        """value of a pure computation at a generic index 0 <= i < n (forks merged)"""
        n = lift(n)
        nf = len(self.facts)
        fr = Frame(i, n)
        self.frames.append(fr)
        try:
            self.assume(le(ZERO, i), lt(i, n))
            rs = self.explore(thunk, lambda out, pc, facts: (out, list(pc), bool(fr.wlog or fr.appends or fr.attr)))
        finally:
            del self.facts[nf:]
            self.frames.pop()
        if any(w for _, _, w in rs):
            raise Unsupported('side effect in comprehension')
        for out, pc, _ in rs:
            if out[0] == 'raise':
                k = self.fresh('k')
                c = subst(and_(*pc), {i: k})
                if self.decide(tm.anyT(c, k, ZERO, n)):
                    raise out[1]
        ok = [(pc, out[1]) for out, pc, _ in rs if out[0] == 'ok']
        if not ok:
            raise Unsupported('no path')
        return self.merge(ok)

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    def e_FormattedValue(self, e, env):
        return '<?>'

    # --- truth and operators ------------------------------------------------
    def truth(self, v):
        v = conc(v)
        if isinstance(v, T):
            if v.sort == 'b':
                return self.decide(v)
            if v.sort == 's':
                return True
            return self.decide(not_(eq(v, ZERO)))
        if isinstance(v, Arr):
            if v.shape == ():
                return self.truth(v.at())
            size = 1
            for d in v.shape:
                size = mul(lift(size), lift(d))
            if self.decide(eq(lift(size), ONE)):
                return self.truth(conc(v.at(*[ZERO] * v.ndim)))
            if self.decide(eq(lift(size), ZERO)):
                return False
            raise PyRaise(ValueError, ('truth value of an array is ambiguous',))
        if isinstance(v, (list, tuple, dict)):
            if isinstance(v, list) and v and isinstance(v[0], _SymTail):
                return self.decide(lt(ZERO, lift(v[0].length())))
            return len(v) > 0
        if isinstance(v, SList):
            return self.decide(lt(ZERO, lift(v.n)))
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, Seq):
            return True
        if isinstance(v, Cx):
            return self.decide(not_(and_(eq(v.re, ZERO), eq(v.im, ZERO))))
        if isinstance(v, (Obj, Func, Bound, ClassV, Native, ModV, Partial, TypeV, ExcObj)):
            return True
        return bool(v)

    def binop(self, op, a, b):
        a, b = _unwrap(a), _unwrap(b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if op == 'MatMult':
                return self.npmod.matmul(self, a, b)
            if isinstance(a, (list, tuple, SList)):
                a = self.npmod.asarr(self, a)
            if isinstance(b, (list, tuple, SList)):
                b = self.npmod.asarr(self, b)
            ka = a.kind if isinstance(a, Arr) else kind_of(a)
            kb = b.kind if isinstance(b, Arr) else kind_of(b)
            k = _kind2(op, ka, kb)
            if k == 'bool-logic':
                f = and_ if op == 'BitAnd' else or_ if op == 'BitOr' else (lambda x, y: not_(eq(x, y)))
                return self.elementwise(lambda x, y: f(lift(x), lift(y)), [a, b], 'b')
            return self.elementwise(lambda x, y: lift_(self.scalar(op, x, y)), [a, b], k)
        if op == 'Add' and isinstance(a, list) and isinstance(b, list):
            return a + b
        if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if op == 'Add' and isinstance(a, (list, SList)) and isinstance(b, (list, SList)):
            return self.npmod.slist_concat(self, a, b)
        if op == 'Mult' and isinstance(a, (list, tuple)) and isinstance(conc(b), int):
            return a * conc(b)
        if op == 'Mult' and isinstance(b, (list, tuple)) and isinstance(conc(a), int):
            return b * conc(a)
        if op == 'Mult' and isinstance(a, list) and len(a) == 1 and isinstance(b, T):
            return SList(b, lambda i: a[0])
        if isinstance(a, (list, dict, tuple, Obj, type(None))) or isinstance(b, (list, dict, tuple, Obj, type(None))):
            if op == 'BitOr' and isinstance(a, dict) and isinstance(b, dict):
                return {**a, **b}
            raise PyRaise(TypeError, (f'{op}',))
        return self.scalar(op, a, b)

    def scalar(self, op, a, b):
        a, b = conc(a), conc(b)
        if isinstance(a, TypeV) or isinstance(b, TypeV):
            return a
        if isinstance(a, str) or isinstance(b, str):
            if op == 'Add' and isinstance(a, str) and isinstance(b, str):
                return a + b
            if op == 'Mod' and isinstance(a, str):
                return a
            if op == 'Mult':
                return a * b
            if op == 'Add':
                raise PyRaise(TypeError)
            raise Unsupported('string op')
        if isinstance(a, Cx) or isinstance(b, Cx):
            return cxop(op, a, b)
        if isinstance(a, T) or isinstance(b, T):
            x, y = lift(a), lift(b)
            if x.sort == 's' or y.sort == 's':
                raise Unsupported('string term')
            if op == 'Add':
                return conc(add(x, y))
            if op == 'Sub':
                return conc(sub(x, y))
            if op == 'Mult':
                return conc(mul(x, y))
            if op == 'Div':
                if y.op == 'num' and y.args[0] == 0:
                    raise Unsupported('division by constant zero')
                return conc(tm.div(x, y))
            if op == 'Pow':
                return conc(tm.power(x, y))
            if op == 'FloorDiv':
                return conc(tm.fn('floor', tm.div(x, y)))
            if op == 'Mod':
                r = canon(sub(x, mul(y, tm.fn('floor', tm.div(x, y)))))
                if y.op != 'num' and x.sort == y.sort == 'i' and self.oracle is not None and self.entails(lt(ZERO, y)):
                    self.assume(le(ZERO, r), lt(r, y))
                return conc(r)
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                if op == 'BitAnd':
                    return conc(and_(x, y))
                if op == 'BitOr':
                    return conc(or_(x, y))
                return conc(not_(eq(x, y)))
            raise Unsupported(op)
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mult':
            return a * b
        if op == 'Div':
            if b == 0:
                raise PyRaise(ZeroDivisionError)
            return Fraction(a) / Fraction(b)
        if op == 'Pow':
            if isinstance(b, int) and (b >= 0 or a != 0):
                return a ** b if b >= 0 else Fraction(a) ** b
            return conc(tm.power(lift(a), lift(b)))
        if op == 'FloorDiv':
            return a // b
        if op == 'Mod':
            return a % b
        if op == 'BitAnd':
            return a & b
        if op == 'BitOr':
            return a | b
        if op == 'BitXor':
            return a ^ b
        raise Unsupported(op)

    def compare(self, op, a, b):
        a, b = _unwrap(a), _unwrap(b)
        if op in ('In', 'NotIn'):
            r = self.contains(a, b)
            return r if op == 'In' else conc(not_(lift(r)))
        if op in ('Is', 'IsNot'):
            a, b = conc(a), conc(b)
            if isinstance(a, (T, Arr)) and (b is None or isinstance(b, bool)):
                if isinstance(a, T) and a.sort == 'b' and isinstance(b, bool):
                    r = conc(a if b else not_(a))
                else:
                    r = False
            elif type(a) is type(b) and isinstance(a, (bool, type(None), str)):
                r = a == b
            else:
                r = a is b
            return r if op == 'Is' else conc(not_(lift(r)))
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (str, type(None))) and not (isinstance(b, Arr) and b.kind == 's'):
                return op == 'NotEq'
            if isinstance(b, (str, type(None))) and not (isinstance(a, Arr) and a.kind == 's'):
                return op == 'NotEq'
            if isinstance(a, (list, tuple)):
                a = self.npmod.asarr(self, a)
            if isinstance(b, (list, tuple)):
                b = self.npmod.asarr(self, b)
            return self.elementwise(lambda x, y: lift(self.cmps(op, x, y)), [a, b], 'b')
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op in ('Eq', 'NotEq'):
            if type(a) is not type(b) or len(a) != len(b):
                return op == 'NotEq'
            r = and_(*[lift(self.compare('Eq', x, y)) for x, y in zip(a, b)])
            return conc(r if op == 'Eq' else not_(r))
        return self.cmps(op, a, b)

    def cmps(self, op, a, b):
        a, b = conc(a), conc(b)
        num_ = (int, Fraction, T, bool)
        if isinstance(a, Cx) or isinstance(b, Cx):
            a = a if isinstance(a, Cx) else Cx(a)
            b = b if isinstance(b, Cx) else Cx(b)
            e = and_(eq(a.re, b.re), eq(a.im, b.im))
            if op == 'Eq':
                return conc(e)
            if op == 'NotEq':
                return conc(not_(e))
            # numpy orders complex numbers lexicographically
            l = or_(lt(a.re, b.re), and_(eq(a.re, b.re), lt(a.im, b.im)))
            if op == 'Lt':
                return conc(l)
            if op == 'LtE':
                return conc(or_(l, e))
            if op == 'Gt':
                return conc(not_(or_(l, e)))
            return conc(not_(l))
        if isinstance(a, str) and isinstance(b, str) or (
                isinstance(a, T) and a.sort == 's') or (isinstance(b, T) and b.sort == 's'):
            if op in ('Eq', 'NotEq'):
                if not (isinstance(a, (str, T)) and isinstance(b, (str, T))):
                    return op == 'NotEq'
                r = eq(lift(a), lift(b))
                return conc(r if op == 'Eq' else not_(r))
            raise Unsupported('string order')
        if isinstance(a, num_) and isinstance(b, num_):
            x, y = lift(a), lift(b)
            if op in ('Eq', 'NotEq'):
                r = eq(x, y)
                return conc(r if op == 'Eq' else not_(r))
            r = {'Lt': lambda: lt(x, y), 'LtE': lambda: le(x, y), 'Gt': lambda: lt(y, x), 'GtE': lambda: le(y, x)}[op]()
            return conc(r)
        if op == 'Eq':
            return _pyeq(a, b)
        if op == 'NotEq':
            return not _pyeq(a, b)
        raise PyRaise(TypeError, ('unorderable',))

    def contains(self, a, b):
        if isinstance(b, dict):
            a = conc(a)
            if isinstance(a, T):
                return conc(or_(*[lift(self.compare('Eq', a, k)) for k in b]))
            return a in b
        if isinstance(b, str):
            if isinstance(conc(a), str):
                return conc(a) in b
            raise Unsupported('in str')
        if isinstance(b, Names):
            return conc(b.has(self, a))
        if isinstance(b, ModV):
            raise Unsupported('in module')
        s = self.seq(b)
        if isinstance(s.n, int):
            return conc(or_(*[lift(self.compare('Eq', a, s.get(k))) for k in range(s.n)]))
        k = self.fresh('k')
        return conc(tm.anyT(lift(self.compare('Eq', a, s.get(k))), k, ZERO, lift(s.n)))

    # --- sequences ----------------------------------------------------------
    def seq(self, v):
        v = _unwrap(v)
        if isinstance(v, Seq):
            return v
        if isinstance(v, SList):
            return Seq(v.n, lambda k: v.fn(lift(k)))
        if isinstance(v, (list, tuple)):
            if v and isinstance(v[0], _SymTail):
                t = v[0]
                return Seq(t.length(), t.get)

            def get(k, v=list(v)):
                k = conc(k)
                if isinstance(k, int):
                    return v[k]
                r = v[-1]
                for j in range(len(v) - 2, -1, -1):
                    r = vite(eq(lift(k), num(j)), v[j], r)
                return r
            return Seq(len(v), get)
        if isinstance(v, dict):
            ks = list(v)
            return Seq(len(ks), lambda k: ks[conc(k)])
        if isinstance(v, str):
            return Seq(len(v), lambda k: v[conc(k)])
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyRaise(TypeError, ('iteration over a 0-d array',))
            return Seq(v.shape[0], lambda k: self.arr_get(v, lift(k), check=False))
        if isinstance(v, (T, int, Fraction, type(None))):
            raise PyRaise(TypeError, ('not iterable',))
        raise Unsupported(f'iterate {type(v).__name__}')

    def len_(self, v):
        v = _unwrap(v)
        if isinstance(v, (T, int, Fraction, type(None), bool)):
            raise PyRaise(TypeError, ('len',))
        return self.seq(v).n

    def list_append(self, lst, v):
        if lst and isinstance(lst[0], _SymTail):
            for f in self.frames:
                if lst[0].slist.ser < f.ser:
                    raise Unsupported('append to symbolic list in loop')
            t = lst[0]
            self.mutlist(lst)
            n0 = t.length()
            lst[:] = [_SymTail(SList(dim(add(lift(n0), ONE)),
                                     lambda k: vite(lt(lift(k), lift(n0)), t.get(k), v)), [])]
            return
        for f in self.frames:
            if not any(lst is x for x in getattr(f, 'own', ())):
                if id(lst) in f.__dict__.setdefault('known', {}) or True:
                    if _list_older(lst, f):
                        f.appends.append((lst, v))
                        return
        self.mutlist(lst)
        lst.append(v)

    def list_extend(self, lst, v):
        s = self.seq(v)
        if isinstance(s.n, int) and not (lst and isinstance(lst[0], _SymTail)):
            for k in range(s.n):
                self.list_append(lst, s.get(k))
            return
        if self.frames:
            raise Unsupported('extend in symbolic loop')
        r = self.npmod.slist_concat(self, list(lst), v)
        self.mutlist(lst)
        lst[:] = [_SymTail(r, [])]

    # --- item access --------------------------------------------------------
    def getitem(self, o, key):
        o = _unwrap(o)
        if isinstance(o, Arr):
            return self.arr_get(o, key)
        if isinstance(o, dict):
            k = conc(key)
            if isinstance(k, T):
                ks = list(o)
                for q in ks:
                    if self.truth(self.compare('Eq', k, q)):
                        return o[q]
                raise PyRaise(KeyError, (k,))
            try:
                if k not in o:
                    raise PyRaise(KeyError, (k,))
            except TypeError:
                raise PyRaise(TypeError, ('unhashable',))
            return o[k]
        if isinstance(o, Names):
            return o.item(self, key)
        if isinstance(o, (list, tuple, SList)):
            if isinstance(key, Arr) and key.shape == ():
                key = conc(key.at())
            s = self.seq(o)
            if isinstance(key, slice):
                if isinstance(s.n, int) and all(isinstance(conc(x), (int, type(None))) for x in (key.start, key.stop, key.step)):
                    idx = range(*slice(conc(key.start), conc(key.stop), conc(key.step)).indices(s.n))
                    r = [s.get(k) for k in idx]
                    return tuple(r) if isinstance(o, tuple) else r
                st, ln, step = self.slice_(key, s.n)
                return SList(ln, lambda k: s.get(canon(add(st, mul(num(step), lift(k))))))
            k = conc(key)
            if isinstance(k, (list, tuple, str, type(None), Arr)):
                raise PyRaise(TypeError, ('list indices must be integers',))
            k = self.idx1(k, s.n)
            return s.get(conc(k))
        if isinstance(o, str):
            k = key
            if isinstance(k, slice):
                return o[slice(conc(k.start), conc(k.stop), conc(k.step))]
            try:
                return o[conc(k)]
            except IndexError:
                raise PyRaise(IndexError)
        if isinstance(o, TypeV) or isinstance(o, (ModV, ClassV)):
            return o
        if isinstance(o, (T, int, Fraction, bool, type(None))):
            raise PyRaise(TypeError, ('not subscriptable',))
        raise Unsupported(f'subscript {type(o).__name__}')

    def idx1(self, k, n):
        """normalise one integer index against length n (IndexError if out of range)"""
        k = conc(k)
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, Fraction):
            raise PyRaise(IndexError, ('float index',))
        if isinstance(k, int) and isinstance(n, int):
            if not -n <= k < n:
                raise PyRaise(IndexError)
            return num(k % n)
        k, nn = lift(k), lift(n)
        if not self.decide(le(ZERO, k)):
            k = canon(add(k, nn))
            if not self.decide(le(ZERO, k)):
                raise PyRaise(IndexError)
        elif not self.decide(lt(k, nn)):
            raise PyRaise(IndexError)
        return k

    def setitem(self, o, key, v):
        o = _unwrap(o)
        if isinstance(o, Arr):
            return self.arr_set(o, key, v)
        if isinstance(o, dict):
            k = conc(key)
            if isinstance(k, T):
                raise Unsupported('symbolic dict key')
            self.mutdict(o)
            o[k] = v
            return
        if isinstance(o, list):
            if o and isinstance(o[0], _SymTail):
                raise Unsupported('write to symbolic list')
            if isinstance(key, slice):
                raise Unsupported('list slice assignment')
            k = conc(self.idx1(key, len(o)))
            for f in self.frames:
                if _list_older(o, f):
                    raise Unsupported('list write in symbolic loop')
            if not isinstance(k, int):
                old = list(o)
                self.mutlist(o)
                for j in range(len(o)):
                    o[j] = vite(eq(k, num(j)), v, old[j])
                return
            self.mutlist(o)
            o[k] = v
            return
        raise Unsupported(f'item assignment on {type(o).__name__}')

    def slice_(self, s, n):
        """(start term, length, step int) of a slice over length n"""
        step = conc(s.step) if s.step is not None else 1
        if not isinstance(step, int) or step == 0:
            raise Unsupported('slice step')
        nn = lift(n)
        if isinstance(n, int) and all(isinstance(conc(x), (int, type(None))) for x in (s.start, s.stop)):
            r = range(*slice(conc(s.start), conc(s.stop), step).indices(n))
            return num(r.start), len(r), step

        def clip(x, lo, hi):
            x = conc(x)
            if isinstance(x, Fraction):
                raise PyRaise(TypeError, ('slice indices must be integers',))
            x = lift(x)
            if x.op == 'num' and x.args[0] < 0:
                x = canon(add(x, nn))
            elif x.op != 'num' and not self.entails(le(ZERO, x)):
                if self.entails(lt(x, ZERO)):
                    x = canon(add(x, nn))
                else:
                    x = ite(lt(x, ZERO), add(x, nn), x)
            if not self.entails(le(lo, x)):
                x = ite(lt(x, lo), lo, x)
            if not self.entails(le(x, hi)):
                x = ite(lt(hi, x), hi, x)
            return x
        if step > 0:
            a = ZERO if s.start is None else clip(s.start, ZERO, nn)
            b = nn if s.stop is None else clip(s.stop, ZERO, nn)
            ln = canon(sub(b, a))
            if not self.entails(le(ZERO, ln)):
                ln = ite(lt(ln, ZERO), ZERO, ln)
            if step > 1:
                ln = tm.fn('ceil', tm.div(ln, num(step)))
            return a, dim(ln), step
        if step == -1 and s.stop is None:
            a = canon(sub(nn, ONE)) if s.start is None else clip(s.start, num(-1), canon(sub(nn, ONE)))
            return a, dim(canon(add(a, ONE))), -1
        if step == -1:
            a = canon(sub(nn, ONE)) if s.start is None else clip(s.start, num(-1), canon(sub(nn, ONE)))
            b = clip(s.stop, num(-1), canon(sub(nn, ONE)))
            ln = canon(sub(a, b))
            if not self.entails(le(ZERO, ln)):
                ln = ite(lt(ln, ZERO), ZERO, ln)
            return a, dim(ln), -1
        raise Unsupported('slice')

    # arrays: build a view descriptor for a key
    def view(self, a, key, check=True):
        """list of ('new',) | ('int', e) | ('sl', start, len, step) | ('fan', fn, len, filter|None, list|None)"""
        key = key if isinstance(key, tuple) else (key,)
        key = tuple(_unwrap(k) for k in key)
        nell = [k for k in key if k is Ellipsis]
        nspec = sum(1 for k in key if k is not None and k is not Ellipsis)
        spec = []
        d = 0
        for k in key:
            if k is None:
                spec.append(('new',))
                continue
            if k is Ellipsis:
                for _ in range(a.ndim - nspec):
                    spec.append(('sl', ZERO, a.shape[d], 1))
                    d += 1
                continue
            if isinstance(k, (Arr, list, SList, tuple)):
                ka = k if isinstance(k, Arr) else self.npmod.asarr(self, k)
                if ka.ndim == 0:
                    k = conc(ka.at())
                    if isinstance(k, bool) or (isinstance(k, T) and k.sort == 'b'):
                        raise Unsupported('0-d mask')
                else:
                    if d >= a.ndim:
                        raise PyRaise(IndexError)
                    n = a.shape[d]
                    if ka.ndim == 2 and ka.kind == 'b' and a.ndim == 2 and d == 0 and len(key) == 1:
                        raise Unsupported('2-d mask')
                    if ka.ndim != 1:
                        raise Unsupported('n-d fancy index')
                    g = ka.snap()
                    if ka.kind == 'b':
                        self.same_dim(ka.shape[0], n, IndexError)
                        if isinstance(ka.shape[0], int):
                            pos = [num(q) for q in range(ka.shape[0]) if self.truth(conc(g((num(q),))))]
                            spec.append(('fan', _listfn(pos), len(pos), None, pos))
                        else:
                            mask = lambda q: lift(g((q,)))
                            was, self.resolved_only = self.resolved_only, ka.imap is None
                            try:
                                f = filter_for(mask, lift(ka.shape[0]))
                            except Unsupported:
                                self.resolved_only = was
                                if ka.imap is not None:
                                    raise
                                f = V.lazy_filter(mask, lift(ka.shape[0]), (ka.buf, ka.buf.fn))
                                self.assume(le(ZERO, f.count), le(f.count, lift(f.n)))
                            self.resolved_only = was
                            spec.append(('fan', f.sigma, f.count, f, None))
                    else:
                        if isinstance(ka.shape[0], int):
                            pos = [lift(self.idx1(conc(g((num(q),))), n)) for q in range(ka.shape[0])]
                            spec.append(('fan', _listfn(pos), len(pos), None, pos))
                        else:
                            j = self.fresh('j')
                            e = g((j,))
                            nf = len(self.facts)
                            rng = [le(ZERO, j), lt(j, lift(ka.shape[0]))]
                            if not (self.entails(le(ZERO, e), rng) and self.entails(lt(e, lift(n)), rng)):
                                raise Unsupported('fancy index range')
                            spec.append(('fan', lambda q: g((lift(q),)), ka.shape[0], None, None))
                    d += 1
                    continue
            if d >= a.ndim:
                raise PyRaise(IndexError, ('too many indices',))
            n = a.shape[d]
            if isinstance(k, slice):
                if k.start is None and k.stop is None and (k.step is None):
                    spec.append(('sl', ZERO, n, 1))
                else:
                    st, ln, step = self.slice_(k, n)
                    spec.append(('sl', st, ln, step))
            else:
                k = conc(k)
                if not isinstance(k, (int, T, bool)) or (isinstance(k, T) and k.sort != 'i'):
                    raise PyRaise(IndexError, (f'bad index',))
                spec.append(('int', self.idx1(k, n) if check else lift(k)))
            d += 1
        while d < a.ndim:
            spec.append(('sl', ZERO, a.shape[d], 1))
            d += 1
        if sum(1 for s in spec if s[0] == 'fan') > 1:
            raise Unsupported('several fancy indices')
        return spec

    def same_dim(self, a, b, exc=ValueError):
        if eq(lift(a), lift(b)) is TRUE or canon(sub(lift(a), lift(b))) is ZERO:
            return
        if not self.decide(eq(lift(a), lift(b))):
            raise PyRaise(exc, ('dimension mismatch',))

    def make_view(self, a, spec):
        shape = []
        for s in spec:
            if s[0] == 'new':
                shape.append(1)
            elif s[0] in ('sl', 'fan'):
                shape.append(s[2])
        fancy = any(s[0] == 'fan' for s in spec)

        def fwd(idx):
            out, p = [], 0
            for s in spec:
                if s[0] == 'new':
                    p += 1
                elif s[0] == 'int':
                    out.append(s[1])
                elif s[0] == 'sl':
                    i = idx[p]
                    p += 1
                    out.append(i if s[1] is ZERO and s[3] == 1 else canon(add(s[1], mul(num(s[3]), i))))
                else:
                    out.append(s[1](idx[p]))
                    p += 1
            return tuple(out)
        src_shape = a.shape

        def rev(aidx, extra=()):
            """array index -> (cond, view idx)"""
            c, out, p = [], [], 0
            for s in spec:
                if s[0] == 'new':
                    out.append(ZERO)
                    continue
                i = aidx[p]
                full = src_shape[p]
                p += 1
                if s[0] == 'int':
                    c.append(eq(i, s[1]))
                elif s[0] == 'sl':
                    if s[3] not in (1, -1):
                        raise Unsupported('strided write')
                    v = i if s[1] is ZERO and s[3] == 1 else canon(mul(num(s[3]), sub(i, s[1])))
                    if not (s[1] is ZERO and s[3] == 1 and canon(sub(lift(s[2]), lift(full))) is ZERO):
                        c += [le(ZERO, v), lt(v, lift(s[2]))]
                    out.append(v)
                else:
                    if s[3] is not None:
                        c.append(s[3].mask(i))
                        out.append(sel('rank' + str(s[3].key), i, sort='i'))
                    elif s[4] is not None:
                        raise Unsupported('internal: list write')
                    else:
                        raise Unsupported('write through index array')
            return and_(*c), tuple(out)
        return tuple(shape), fwd, rev, fancy

    def arr_get(self, a, key, check=True):
        spec = self.view(a, key, check)
        if all(s[0] == 'int' for s in spec):
            r = a.at(*[s[1] for s in spec])
            return r if isinstance(r, Cx) else conc(r)
        shape, fwd, rev, fancy = self.make_view(a, spec)
        if fancy:
            g = a.snap()
            return mkarr(shape, lambda idx: g(fwd(idx)), a.kind)
        im, rv = a.imap, a.rev
        imap = fwd if im is None else (lambda idx: im(fwd(idx)))
        if rv is None:
            r2 = rev if a.imap is None else None
        else:
            def r2(bidx, extra=()):
                c1, ai = rv(bidx)
                c2, vi = rev(ai)
                return and_(c1, c2), vi
        return Arr(a.buf, shape, imap, r2)

    def arr_set(self, a, key, v, mode='set', fnew=None):
        spec = self.view(a, key)
        fan = next((k for k, s in enumerate(spec) if s[0] == 'fan' and s[4] is not None), None)
        if fan is not None:
            s = spec[fan]
            v = _unwrap(v)
            va = self.npmod.asarr(self, v) if isinstance(v, (list, tuple, SList)) else v
            # value axis corresponding to the fancy axis
            axis = sum(1 for t in spec[:fan] if t[0] in ('sl', 'new'))
            total = sum(1 for t in spec if t[0] in ('sl', 'new', 'fan'))
            for q, e in enumerate(s[4]):
                sp = list(spec)
                sp[fan] = ('int', e)
                w = va
                if isinstance(va, Arr) and va.ndim:
                    ax = axis - (total - va.ndim)
                    if ax >= 0:
                        if va.shape[ax] == 1:
                            w = self.arr_get(va, tuple([slice(None)] * ax + [0]))
                        else:
                            self.same_dim(va.shape[ax], s[2])
                            w = self.arr_get(va, tuple([slice(None)] * ax + [q]))
                self._arr_store(a, sp, w, mode, fnew)
            return
        self._arr_store(a, spec, v, mode, fnew)

    def _arr_store(self, a, spec, v, mode='set', fnew=None):
        shape, fwd, rev, fancy = self.make_view(a, spec)
        if a.buf.tag == 'readonly':
            raise PyRaise(ValueError, ('read-only',))
        v = _unwrap(v)
        if isinstance(v, (list, tuple, SList)):
            v = self.npmod.asarr(self, v)
        if isinstance(v, Arr):
            g = self.bcast(v, shape)
            vk = v.kind
        else:
            vv = v if isinstance(v, Cx) else lift(v)
            g = lambda idx: vv
            vk = kind_of(v)
        arev = a.rev
        if a.imap is not None and arev is None:
            raise Unsupported('write through this view')

        def res(bidx, extra):
            if arev is not None:
                c1, ai = arev(bidx)
            else:
                c1, ai = TRUE, bidx
            c2, vi = rev(ai)
            c = canonb(and_(c1, c2))
            if c is FALSE:
                return []
            val = g(vi)
            if fnew is not None:
                val = fnew(val, vi)
            return [(c, val)]
        self.write(a.buf, res, mode, vk)

    def arr_aug(self, a, key, op, rhs):
        """a[key] op= rhs"""
        inloop = any(a.buf.ser < f.ser for f in self.frames)
        if inloop and op in ('Add', 'Sub'):
            if op == 'Sub':
                rhs = self.binop('Mult', rhs, -1)
            return self.arr_set(a, key, rhs, 'add')
        spec = self.view(a, key)
        if any(s[0] == 'fan' and s[3] is not None for s in spec) and not isinstance(_unwrap(rhs), (Arr, list, tuple, SList)):
            # element by element at the selected positions
            return self.aug_mask(a, spec, op, rhs)
        cur = self.arr_get(a, key)
        if not isinstance(cur, Arr):
            return self.arr_set(a, key, self.binop(op, cur, rhs))
        val = self.binop(op, cur, rhs)
        # force: content must not read the buffer after the write -> snapshots are immutable
        shp = val.shape
        if len(shp) != len(cur.shape):
            raise PyRaise(ValueError, ('non-broadcastable output',))
        for x, y in zip(shp, cur.shape):
            self.same_dim(x, y)
        if op == 'Div' and a.kind == 'i':
            raise PyRaise(TypeError, ('int array /= ',))
        self.arr_set(a, key, val)

    def aug_mask(self, a, spec, op, rhs):
        """a[..., mask] op= number"""
        if a.imap is not None or a.buf.tag == 'readonly':
            raise Unsupported('masked update of a view')
        g, kind = a.snap(), a.kind

        def res(idx, extra):
            c = []
            for p, s in enumerate(spec):
                if s[0] == 'fan':
                    c.append(s[3].mask(idx[p]))
                elif s[0] == 'int':
                    c.append(eq(idx[p], s[1]))
                elif s[0] == 'sl' and s[1] is ZERO and s[3] == 1 and canon(sub(lift(s[2]), lift(a.shape[p]))) is ZERO:
                    pass
                else:
                    raise Unsupported('masked update with slices')
            return [(canonb(and_(*c)), self.binop(op, conc(g(idx)), rhs))]
        if any(s[0] == 'new' for s in spec):
            raise Unsupported('masked update')
        if any(a.buf.ser < f.ser for f in self.frames):
            raise Unsupported('masked update in a symbolic loop')
        self.write(a.buf, res, 'set', kind)

    def bcast(self, v, shape):
        """content function of v broadcast to shape (indices in that shape)"""
        g = v.snap()
        off = len(shape) - v.ndim
        vshape = list(v.shape)
        if off < 0:
            # numpy allows leading 1-dims when assigning
            for d in vshape[:-off]:
                if d != 1:
                    raise PyRaise(ValueError, ('broadcast',))
        pos = []
        for k, d in enumerate(vshape):
            p = k + off
            if p < 0:
                pos.append(None)
                continue
            if d == 1:
                pos.append(None)
            else:
                if canon(sub(lift(d), lift(shape[p]))) is not ZERO:
                    self.same_dim(d, shape[p])
                pos.append(p)

        def fn(idx):
            return g(tuple(ZERO if p is None else idx[p] for p in pos))
        return fn

    def bshape(self, shapes):
        n = max(len(s) for s in shapes)
        out = []
        for k in range(n):
            cur = 1
            for s in shapes:
                p = k - (n - len(s))
                if p < 0:
                    continue
                d = s[p]
                if isinstance(d, int) and d == 1:
                    continue
                if isinstance(cur, int) and cur == 1:
                    cur = d
                elif canon(sub(lift(d), lift(cur))) is not ZERO:
                    if not self.entails(eq(lift(d), lift(cur))):
                        if not self.decide(eq(lift(d), lift(cur))):
                            if isinstance(d, int) and isinstance(cur, int):
                                raise PyRaise(ValueError, ('broadcast',))
                            if self.decide(eq(lift(d), ONE)):
                                continue
                            if self.decide(eq(lift(cur), ONE)):
                                cur = d
                                continue
                            raise PyRaise(ValueError, ('broadcast',))
            out.append(cur)
        return tuple(out)

    def elementwise(self, f, args, kind='f'):
        shape = self.bshape([a.shape for a in args if isinstance(a, Arr)])
        gs = []
        for a in args:
            if isinstance(a, Arr):
                gs.append(self.bcast(a, shape))
            else:
                c = a if isinstance(a, Cx) else lift(a)
                gs.append(lambda idx, c=c: c)
        return mkarr(shape, lambda idx: f(*[g(idx) for g in gs]), kind)

    # --- attributes ---------------------------------------------------------
    def getattr(self, o, name):
        o = _unwrap(o) if not isinstance(o, list) else o
        if isinstance(o, Obj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return o.attrs
            c, v = o.cls.find(name)
            if c is not None:
                return self.bind(v, o, o.cls)
            if name.startswith('__'):
                return self.builtin_method(o, name)
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, Super):
            mro = o.obj.cls.mro()
            for c in mro[mro.index(o.cls) + 1:]:
                if name in c.ns:
                    return self.bind(c.ns[name], o.obj, o.obj.cls)
            if name == '__init__':
                return Native('object.__init__', lambda I, a, k: None)
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, ModV):
            if name in o.ns:
                return o.ns[name]
            if o.getter is not None:
                return o.getter(name)
            if o.name == 'weac':
                return self.module('weac.' + name)
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, ClassV):
            if name == '__name__':
                return o.name
            c, v = o.find(name)
            if c is None:
                raise PyRaise(AttributeError, (name,))
            return v.fn if isinstance(v, _Static) else Bound(v.fn, o) if isinstance(v, _ClassM) else v
        if isinstance(o, (Rec, Names)):
            return o.get(self, name)
        r = self.npmod.attribute(self, o, name)
        return r

    def builtin_method(self, o, name):
        raise PyRaise(AttributeError, (name,))

    def bind(self, v, o, cls):
        if isinstance(v, Func):
            return Bound(v, o)
        if isinstance(v, _Static):
            return v.fn
        if isinstance(v, _ClassM):
            return Bound(v.fn, cls)
        if isinstance(v, _Prop):
            return self.call(Bound(v.fn, o), [], {})
        return v

    # --- calls --------------------------------------------------------------
    def call(self, f, args, kw):
        f = _unwrap(f) if not isinstance(f, list) else f
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Partial):
            return self.call(f.fn, list(f.args) + list(args), {**f.kwargs, **kw})
        if isinstance(f, Func):
            return self.callfunc(f, args, kw)
        if isinstance(f, ClassV):
            return self.construct(f, args, kw)
        if isinstance(f, TypeV):
            if f.make is None:
                raise Unsupported(f'{f.name}()')
            return f.make(self, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcObj(f, args)
        if isinstance(f, Obj):
            c, v = f.cls.find('__call__')
            if c is not None:
                return self.call(Bound(v, f), args, kw)
        if isinstance(f, (_Static, _ClassM)):
            return self.call(f.fn, args, kw)
        if callable(f):
            return f(self, args, kw)
        raise PyRaise(TypeError, (f'{type(f).__name__} not callable',))

    def construct(self, c, args, kw):
        if any(b.name in ('Enum', 'NamedTuple') for b in c.mro()):
            raise Unsupported('class kind')
        o = Obj(c)
        k, init = c.find('__init__')
        if k is not None:
            self.call(Bound(init, o), args, kw)
        elif args or kw:
            raise PyRaise(TypeError)
        return o

    def bindargs(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kw = dict(kw)
        for n, v in zip(pos, args):
            out[n] = v
        extra = args[len(pos):]
        if extra and a.vararg is None:
            raise PyRaise(TypeError, ('too many positional arguments',))
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(extra)
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in pos or k in kwonly:
                if k in out:
                    raise PyRaise(TypeError, (f'multiple values for {k}',))
                out[k] = v
            else:
                rest[k] = v
        if rest and a.kwarg is None:
            raise PyRaise(TypeError, (f'unexpected keyword {list(rest)}',))
        if a.kwarg is not None:
            out[a.kwarg.arg] = rest
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:], f.defaults):
            out.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            out.setdefault(n, d)
        for n in pos + kwonly:
            if n not in out:
                raise PyRaise(TypeError, (f'missing argument {n}',))
        return out

    def callfunc(self, f, args, kw, top=False):
        ba = self.bindargs(f, args, kw)
        name = f.node.name
        if not top and not f.qual.startswith('<locals>'):
            s = self.summaries.get(f.qual) or self.summaries.get(name)
            if s is not None:
                r = s(self, ba)
                if r is not NotImplemented:
                    self.used.add(name)
                    return r
            self.inlined.add(f.qual)
        self.ran[f'{f.module}:{f.qual}'] = f.node
        if self.depth > 40:
            raise Unsupported('recursion')
        env = Env(f.env, dict(ba))
        owner = getattr(f, 'owner', None)
        if owner is not None:
            env.parent = Env(f.env, {'__class__': owner})
        self.depth += 1
        try:
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                raise Unsupported('generator')
            sig = self.block(f.node.body, env)
        finally:
            self.depth -= 1
        if sig is not None and sig.kind == 'return':
            return sig.value
        return None


class _Static:
    def __init__(self, fn):
        self.fn = fn


class _ClassM:
    def __init__(self, fn):
        self.fn = fn


class _Prop:
    def __init__(self, fn):
        self.fn = fn


class _SymTail:
    """marker stored as the only element of a Python list that became symbolic"""
    def __init__(self, slist, prefix):
        self.slist, self.prefix = slist, prefix

    def length(self):
        return dim(add(lift(self.slist.n), num(len(self.prefix))))

    def get(self, k):
        k = conc(k)
        if not self.prefix:
            return self.slist.fn(lift(k))
        if isinstance(k, int):
            return self.prefix[k] if k < len(self.prefix) else self.slist.fn(num(k - len(self.prefix)))
        v = self.slist.fn(sub(lift(k), num(len(self.prefix))))
        for j in range(len(self.prefix) - 1, -1, -1):
            v = vite(eq(lift(k), num(j)), self.prefix[j], v)
        return v


def _unwrap(v):
    if isinstance(v, list) and v and isinstance(v[0], _SymTail):
        t = v[0]
        return SList(t.length(), t.get)
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    return v


def _listfn(pos):
    def f(q):
        q = lift(q)
        if q.op == 'num':
            return pos[int(q.args[0])]
        if all(p.op == 'num' for p in pos):
            ps = [int(p.args[0]) for p in pos]
            if ps and all(b - a == 1 for a, b in zip(ps, ps[1:])):
                return canon(add(q, num(ps[0])))
        r = pos[-1]
        for j in range(len(pos) - 2, -1, -1):
            r = ite(eq(q, num(j)), pos[j], r)
        return r
    return f


def _list_older(lst, f):
    # Python lists carry no serial; a list is older than the frame if registered at frame start
    known = f.__dict__.get('_oldlists')
    return known is None or id(lst) in known


def _assigned(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


def _simple(node):
    return not any(isinstance(x, (ast.Call, ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.NamedExpr)) for x in ast.walk(node))


def _selnames(v):
    out = set()

    def go(t):
        for u in tm.subterms(t):
            if u.op == 'sel':
                out.add(u.args[0])
    if isinstance(v, T):
        go(v)
    elif isinstance(v, Cx):
        go(v.re), go(v.im)
    elif isinstance(v, Arr):
        ps = tuple(var(f'ph#{n}', 'i') for n in range(v.ndim))
        if all(isinstance(d, int) for d in v.shape) and _size(v.shape) <= 64:
            import itertools
            for idx in itertools.product(*[range(d) for d in v.shape]):
                out |= _selnames(v.at(*[num(q) for q in idx]))
        else:
            out |= _selnames(v.at(*ps))
    elif isinstance(v, (tuple, list)):
        for x in v:
            out |= _selnames(x)
    return out


def _size(shape):
    r = 1
    for d in shape:
        r *= d
    return r


def _pyeq(a, b):
    try:
        return bool(a == b)
    except Exception:
        return False


def kind_of(v):
    v = conc(v)
    if isinstance(v, bool):
        return 'b'
    if isinstance(v, int):
        return 'i'
    if isinstance(v, Fraction):
        return 'f'
    if isinstance(v, Cx):
        return 'c'
    if isinstance(v, str):
        return 's'
    if isinstance(v, T):
        return {'i': 'i', 'r': 'f', 'b': 'b', 's': 's'}[v.sort]
    if isinstance(v, Arr):
        return v.kind
    return 'O'


def _kind2(op, a, b):
    if op in ('BitAnd', 'BitOr', 'BitXor') and a == 'b' and b == 'b':
        return 'bool-logic'
    if 'c' in (a, b):
        return 'c'
    if op == 'Div':
        return 'f'
    if 'f' in (a, b):
        return 'f'
    if 's' in (a, b):
        return 's'
    return 'i'


def lift_(x):
    return x if isinstance(x, (Cx, T)) else lift(x)


def _cneg(x):
    return Cx(neg(x.re), neg(x.im)) if isinstance(x, Cx) else neg(lift(x))


def _cadd(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        return cxop('Add', a, b)
    return add(a, b)


def _trunc(v):
    return ite(lt(v, ZERO), tm.fn('ceil', v), tm.fn('floor', v))


def cxop(op, a, b):
    a = a if isinstance(a, Cx) else Cx(lift(a))
    if op == 'Pow':
        b = conc(b)
        if isinstance(b, int) and 0 <= b <= 8:
            r = Cx(ONE)
            for _ in range(b):
                r = cxop('Mult', r, a)
            return r
        raise Unsupported('complex power')
    b = b if isinstance(b, Cx) else Cx(lift(b))
    if op == 'Add':
        return Cx(add(a.re, b.re), add(a.im, b.im))
    if op == 'Sub':
        return Cx(sub(a.re, b.re), sub(a.im, b.im))
    if op == 'Mult':
        return Cx(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))
    if op == 'Div':
        d = add(mul(b.re, b.re), mul(b.im, b.im))
        return Cx(tm.div(add(mul(a.re, b.re), mul(a.im, b.im)), d),
                  tm.div(sub(mul(a.im, b.re), mul(a.re, b.im)), d))
    raise Unsupported('complex ' + op)


def _unsup(msg):
    raise Unsupported(msg)
