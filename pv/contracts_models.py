"""Contracts of the model constructors and of the touchdown helper; independence of the history of updates (C19, C25, C26)."""
from .contracts_lemmas import *
from .contracts_state import _SetBeam
from .contracts_lemmas import _Lemma

UNSET = ('weak', 't', 'kn', 'kt', 'slab', 'k', 'h', 'zs', 'phi', 'A11', 'B11', 'D11', 'kA55', 'K0', 'ewC', 'ewR', 'evC', 'evR',
         'sC', 'sR', 'a', 'tc', 'ratio', 'betaU', 'betaC', 'mode', 'td')
DERIVED = ('kn', 'kt', 'A11', 'B11', 'D11', 'kA55', 'K0', 'h', 'zs', 'k', 'slab', 't', 'weak', 'ewC', 'ewR', 'evC', 'evR', 'sC', 'sR')
DEFAULT = [[240, 200]]


def blank(o, system, touchdown):
    o.attrs.update({n: False for n in UNSET})
    o.attrs.update({'g': 9810, 'lski': 1000, 'tol': Fraction(1, 1000), 'system': system, 'p': 0, 'touchdown': touchdown})


def forward(I, o, system, layers, touchdown, C0=Fraction('6.5'), C1=Fraction('4.4'), nu=Fraction(1, 4), t=30, E=Fraction(1, 4), nuw=Fraction(1, 4)):
    """state of a model with given slab and weak layer"""
    blank(o, system, touchdown)
    beam(I, o, DEFAULT if layers is None else layers, C0, C1, nu)
    o.attrs['t'], o.attrs['weak'] = t, {'nu': nuw, 'E': E}
    fundamental(I, o)


class _Init(Contract):
    effects = True
    layers = _SetBeam.layers

    def object(self, W, cls):
        return Obj(W.I.getclass(cls), {})


@contract
class EigensystemInit(_Init):
    fn = 'Eigensystem.__init__'
    props = ('C19', 'C25')
    cases = ({'given': True}, {'given': False})
    summary_of = 'Eigensystem.__init__'

    def setup(self, W, given):
        return [self.object(W, 'Layered')], {'system': '-pst', 'touchdown': True} if given else {}

    def spec(self, I, a):
        blank(a['self'], a['system'], a['touchdown'])


@contract
class LayeredInit(_Init):
    fn = 'Layered.__init__'
    props = ('C19', 'C25')
    cases = tuple({'system': s, 'layers': k, 'touchdown': t} for s, k, t in (
        ('pst-', None, None), ('-pst', 'array', True), ('skiers', 'soft', False), ('vpst-', 3, None), ('skier', 'nope', True)))

    def setup(self, W, system, layers, touchdown):
        kw = {} if touchdown is None else {'touchdown': touchdown}
        return [self.object(W, 'Layered')], {**kw, 'system': system, **({} if layers is None else {'layers': self.layers(W, layers)})}

    def spec(self, I, a):
        forward(I, a['self'], a['system'], a['layers'], a['touchdown'])


@contract
class InverseInit(_Init):
    """same slab, weak layer, stiffnesses and eigensystem as the forward model with these properties"""
    fn = 'Inverse.__init__'
    props = ('C25',)
    cases = tuple({'system': s, 'layers': k, 'given': g} for s, k, g in (
        ('pst-', None, False), ('-pst', 'array', True), ('skiers', 'C', True), ('vpst-', 2, True), ('skier', 'nope', True)))

    def setup(self, W, system, layers, given):
        kw = {'parameters': (W.pos('C0', 1, 10), W.pos('C1', 1, 6), W.pos('E', .1, 2))} if given else {}
        return [self.object(W, 'Inverse')], {'system': system, **kw, **({} if layers is None else {'layers': self.layers(W, layers)})}

    def spec(self, I, a):
        C0, C1, E = a['parameters']
        forward(I, a['self'], a['system'], a['layers'], False, C0, C1, E=E)


@contract
class SameCalls(_Lemma):
    """every call other than the constructor resolves to the same function on both models"""
    name = 'lemma: both models have the same methods'
    fn = 'Inverse.__init__'
    props = ('C25',)
    relies = ('Layered.__init__', 'Inverse.__init__')

    def prove(self, W):
        A, B = self.I.getclass('Layered'), self.I.getclass('Inverse')
        names = lambda c: {n for k in c.mro() for n in k.ns} - {'__init__', '__doc__', '__module__', '__qualname__'}
        for n in sorted(names(A) | names(B)):
            a, b = A.find(n)[1], B.find(n)[1]
            st = 'proved' if a is b else 'unknown' if a is None or b is None else 'refuted'
            self.obs.append(Ob(f'{self.name}.{n}', st, 'name resolution', 0, '' if a is b else 'resolves differently'))


@contract
class History(_Lemma):
    """after any history, setters with recalculation give the derived quantities of a fresh model with the final
    properties: they read nothing but the final slab and weak layer"""
    name = 'lemma: derived quantities do not depend on the history'
    fn = 'Eigensystem.calc_fundamental_system'
    props = ('C19', 'C25')
    relies = ('Eigensystem.set_beam_properties', 'Eigensystem.set_foundation_properties', 'Eigensystem.calc_fundamental_system',
              'Eigensystem.calc_eigensystem', 'Eigensystem.set_surface_load', 'Eigensystem.__init__')
    cases = tuple({'last': x} for x in ('beam', 'foundation', 'both'))

    def prove(self, W, last):
        I = self.I
        S_ = lambda n, o, **k: REG['Eigensystem.' + n].spec(I, {'self': o, **k})
        lay = W.arr('lay', (W.int('nLay', 1, 4), 2), lo=80, hi=400, pos='+')
        C0, C1, nu, t, E, nuw = (W.pos(n, 1, 5) for n in ('C0', 'C1', 'nu1', 't1', 'E1', 'nuw1'))
        o = W.model()                                     # whatever happened before
        if last == 'beam':
            S_('set_foundation_properties', o, t=t, E=E, nu=nuw, update=False)
            S_('set_beam_properties', o, layers=lay, C0=C0, C1=C1, nu=nu, update=True)
        elif last == 'foundation':
            S_('set_beam_properties', o, layers=lay, C0=C0, C1=C1, nu=nu, update=False)
            S_('set_foundation_properties', o, t=t, E=E, nu=nuw, update=True)
        else:
            S_('set_beam_properties', o, layers=lay, C0=C0, C1=C1, nu=nu, update=True)
            S_('set_foundation_properties', o, t=t, E=E, nu=nuw, update=True)
        q = Obj(o.cls)
        forward(I, q, 'skier', lay, False, C0, C1, nu, t, E, nuw)
        cm = Cmp(I, self.P, list(I.facts))
        for n in DERIVED:
            cm.value(f'{self.name}.{last}.{n}', at(o, n), at(q, n))
        self.obs += cm.obs


@contract
class Helper(Contract):
    """transition lengths of a 100 m PST with the given snowpack: as cut lengths of the uncut column and, for the
    touchdown length, with a cut of five times the first"""
    fn = 'weac.tools:touchdown_distance'
    props = ('C26',)
    cases = tuple({'layers': k, 'given': g} for k, g in ((None, False), ('array', True), (3, True), ('b', True), ('Profile H', True), ('nope', True)))
    layers = _SetBeam.layers
    reference = 'helper'

    def setup(self, W, layers, given):
        W.I.opaque_laminate = True
        for n, lo, hi in (('aAB', 100, 3000), ('aBC', 3000, 6000), ('lenC', 100, 2000)):
            W.I.factgens[n] = lambda *i, n=n: [lt(ZERO, sel(n, *i))]         # C17
            W.samplers[n] = lambda e, *i, lo=lo, hi=hi: e.rng.uniform(lo, hi)
        kw = {'C0': W.pos('C0', 1, 10), 'C1': W.pos('C1', 1, 6), 'Ewl': W.pos('E1', .1, 2), 't': W.pos('t1', 5, 60),
              'phi': W.real('phi1', -60, 60)} if given else {}
        return [], {**kw, **({} if layers is None else {'layers': self.layers(W, layers)})}

    def spec(self, I, a):
        def column_(cut):
            o = Obj(I.getclass('Layered'))
            forward(I, o, 'pst-', a['layers'], True, a['C0'], a['C1'], t=a['t'], E=a['Ewl'])
            set_column(o, {'L': 100000, 'a': cut, 'phi': a['phi'], 'cf': H2, 'ratio': 1000})
            return o
        o = column_(0)
        first, full = UseA1.value(o), UseA2.value(o)
        return (conc(first), conc(full), conc(UseLC.value(column_(conc(mul(num(5), first))))))
