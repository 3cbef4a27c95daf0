"""Contracts of the assembly of boundary and transition conditions and of the segment lists (C08, C13)."""
from .contracts_fields import *

PST, VPST, SKI, SUB = ('pst-', '-pst'), ('vpst-', '-vpst'), ('skier', 'skiers'), ('rot', 'trans')
LEFT, MID, RIGHT = ('l', 'left'), ('m', 'mid'), ('r', 'right')


def strof(s):
    return s.args[0] if isinstance(s, T) and s.op == 'str' else s


def opaque_state(o, names=('kn', 'kt', 'h', 't', 'ratio', 'p', 'k', 'g', 'A11', 'B11', 'D11', 'kA55', 'K0', 'zs')):
    """scalars and eigensystem (at an arbitrary entry) of a model as index terms"""
    i = var('probe', 'i')
    c = var('probec', 'i')
    ts = [L_(at(o, n)) for n in names] + [weight(o)]
    for n in ('ewR', 'sR', 'sC'):
        ts.append(lift(conc(at(o, n).at(c))))
    ts.append(lift(conc(at(o, 'evR').at(i, c))))
    for z in (at(o, 'ewC').at(c), at(o, 'evC').at(i, c)):
        ts += [z.re, z.im] if isinstance(z, Cx) else [lift(conc(z)), ZERO]
    return ts


def subst_spring(o, L, support, dof):
    """stiffness of a substitute spring: an unknown function of the model's state, the length and the kind"""
    support, dof = strof(support), strof(dof)
    return sel(f'spring.{support}.{dof}', L_(L), *opaque_state(o))


@contract
class SubstituteUse(Contract):
    """what callers may know about a substitute spring"""
    name = 'use of substitute_stiffness'
    fn = 'SlabContactMixin.substitute_stiffness'
    props = ()
    frames = False

    def summary(self, I, a):
        return conc(subst_spring(a['self'], a['L'], a['support'], a['dof']))

    def check(self, I, W, P, run, case):
        return []


def bcrows(I, o, z, k, pos):
    """three rows (functions of the column) of an end condition"""
    s, mode, pos = strof(at(o, 'system')), strof(at(o, 'mode')), strof(pos)
    q = lambda n: F(o, z, n)
    if s not in PST + VPST + SKI + SUB:
        raise PyRaise(ValueError, ())
    if s in SKI:
        return [q('u'), q('w'), q('psi')]
    if s in PST and not k and mode in ('B', 'C'):
        if pos not in LEFT + RIGHT:
            raise Unsupported('touchdown end in the middle')
        m = q('M')
        if mode == 'C':
            kR = subst_spring(o, sub(L_(at(o, 'a')), L_(at(o, 'td'))), 'rested', 'rot')
            psi, sgn = q('psi'), num(1 if pos in RIGHT else -1)
            return [q('N'), lambda j: add(m(j), mul(sgn, kR, psi(j))), q('w')]
        return [q('N'), m, q('w')]
    return [q('N'), q('M'), q('V')]


def transition(o, z, sgn):
    c = num(sgn)
    return [scaled(c, F(o, z, n)) for n in ('u', 'w', 'psi', 'N', 'M', 'V')]


def rowsarr(rows, m):
    def cell(idx):
        i, j = idx
        if i.op == 'num':
            return rows[int(i.args[0])](j)
        r = rows[-1](j)
        for k in range(len(rows) - 2, -1, -1):
            r = ite(eq(i, num(k)), rows[k](j), r)
        return r
    return mkarr((len(rows), m), cell)


SYS = tuple((s, m, k) for s in PST for m in 'ABC' for k in (True, False)) + tuple((s, 'A', k) for s in VPST + SKI + SUB for k in (True, False))


@contract
class Bc(Contract):
    fn = 'SolutionMixin.bc'
    props = ('C08',)
    cases = tuple({'system': s, 'mode': m, 'k': k, 'pos': p} for s, m, k in SYS for p in ('l', 'r', 'left', 'right', 'm', None)
                  if not (p in ('m', None) and m in 'BC' and not k and s in PST)) + (
        {'system': 'nosuch', 'mode': 'A', 'k': True, 'pos': 'l'},)

    def setup(self, W, system, mode, k, pos):
        return [W.model(system=system, mode=mode), W.Z()], {'k': k, **({} if pos is None else {'pos': pos})}

    def spec(self, I, a):
        return rowsarr(bcrows(I, a['self'], a['z'], I.truth(a['k']), a['pos']), a['z'].shape[1])


@contract
class Eqs(Contract):
    fn = 'SolutionMixin.eqs'
    props = ('C08',)
    cases = tuple({'system': s, 'mode': m, 'k': k, 'pos': p} for s, m, k in SYS for p in LEFT + RIGHT + MID) + (
        {'system': 'pst-', 'mode': 'A', 'k': True, 'pos': 'x'}, {'system': 'pst-', 'mode': 'A', 'k': True, 'pos': None})

    def setup(self, W, system, mode, k, pos):
        m = W.int('mcol', 0, 4)
        return [W.model(system=system, mode=mode), W.Z('zl', m), W.Z('zr', m)], {'k': k, **({} if pos is None else {'pos': pos})}

    def spec(self, I, a):
        o, zl, zr, k = a['self'], a['zl'], a['zr'], I.truth(a['k'])
        pos = strof(a['pos'])
        m = zl.shape[1]
        if isinstance(pos, T):
            pos = next((p for p in LEFT + MID + RIGHT if I.decide(eq(pos, V.strT(p)))), '?')
        if pos in LEFT:
            return rowsarr(bcrows(I, o, zl, k, pos) + transition(o, zr, 1), m)
        if pos in MID:
            return rowsarr(transition(o, zl, -1) + transition(o, zr, 1), m)
        if pos in RIGHT:
            return rowsarr(transition(o, zl, -1) + bcrows(I, o, zr, k, pos), m)
        raise PyRaise(ValueError, ())
