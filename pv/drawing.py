"""Drawing and the file system as recorded effects: what a figure holds when it is saved, and under which name.
Styles, labels, limits and markers are not recorded."""
from .values import *
from .values import Native, ModV
from . import values as V
from . import terms as tm
from .terms import T, lift, var


class Canvas:
    """what has been drawn since the start of the run"""
    def __init__(self, I):
        self.I, self.items, self.saved, self.dir, self.oracle = I, [], [], None, I.oracle

    def draw(self, kind, *data):
        self.check()
        self.items.append((kind, *data))

    def check(self):
        if self.I.oracle is not self.oracle:
            raise Unsupported('drawing in a loop of unknown length')

    def save(self, name):
        self.check()
        self.saved.append((name, list(self.items)))

    def clear(self):
        self.check()
        self.items = []

    def exists(self):
        if self.dir is None:
            self.dir = self.I.decide(var('plotsdir', 'b'))
        return self.dir


def canvas(I):
    if getattr(I, 'canvas', None) is None:
        I.canvas = Canvas(I)
    return I.canvas


class Rec:
    """a drawing object: figure, axes, artist or module"""
    def __init__(self, name):
        self.name = name

    def get(self, I, attr):
        return Rec(attr)

    def __call__(self, I, a, k):
        c, n = canvas(I), self.name
        if n == 'plot':
            color = k.get('color', k.get('c'))
            if color not in ('white', 'w') if isinstance(color, str) else True:
                a = [x for x in a if not isinstance(x, str)]
                if len(a) % 2 or not a:
                    raise Unsupported('plot arguments')
                for x, y in zip(a[::2], a[1::2]):
                    c.draw('curve', x, y)
                return [Rec('line')]*(len(a)//2)
            return [Rec('line')]
        if n in ('fill_betweenx', 'contourf', 'contour', 'fill_between', 'scatter', 'bar', 'barh', 'step', 'imshow', 'pcolormesh'):
            if n not in ('fill_betweenx', 'contourf'):
                raise Unsupported(n)
            c.draw(n, *a[:3])
        elif n == 'figure':
            c.clear()
        elif n in ('close', 'clf', 'cla', 'clear'):
            c.clear()
        elif n == 'subplots':
            if a or set(k) & {'nrows', 'ncols'}:
                raise Unsupported('subplots')
            c.clear()
            return (Rec('figure'), Rec('axes'))
        elif n == 'savefig':
            path = conc(a[0] if a else k['fname'])
            if not isinstance(path, str):
                raise Unsupported('file name')
            if '/' in path and not (path.startswith('plots/') and c.exists()):
                raise PyRaise(FileNotFoundError, (path,))
            c.save(path)
            return None
        elif n == 'show':
            c.save(None)
            return None
        return Rec(n)


def _str(v):
    v = conc(v)
    if not isinstance(v, str):
        raise Unsupported('path')
    return v


def _isplots(p):
    if p in ('plots', './plots', '<cwd>/plots'):
        return True
    raise Unsupported('path ' + p)


def _mkdir(I, a, k, ok=False):
    _isplots(_str(a[0]).rstrip('/'))
    c = canvas(I)
    c.check()
    if c.exists():
        if not ok:
            raise PyRaise(FileExistsError, ('plots',))
    c.dir = True


def os_module(stub):
    isdir = lambda I, a, k: _isplots(_str(a[0]).rstrip('/')) and canvas(I).exists()
    path = ModV('os.path', {
        'join': Native('join', lambda I, a, k: '/'.join(_str(x).rstrip('/') for x in a)),
        'isdir': Native('isdir', isdir), 'exists': Native('exists', isdir)}, getter=stub('os.path').getter)
    return ModV('os', {
        'path': path, 'getcwd': Native('getcwd', lambda I, a, k: '<cwd>'),
        'mkdir': Native('mkdir', lambda I, a, k: _mkdir(I, a, k)),
        'makedirs': Native('makedirs', lambda I, a, k: _mkdir(I, a, k, k.get('exist_ok', False) is True)),
    }, getter=stub('os').getter), path


def pyplot():
    return ModV('matplotlib.pyplot', {}, getter=lambda n: Rec(n))


class Names:
    """table of colour names"""
    def key(self, k):
        k = conc(k)
        if isinstance(k, tuple):
            return None
        if isinstance(k, (list, Arr)):
            raise PyRaise(TypeError, ('unhashable',))
        return lift(k) if not isinstance(k, str) else V.strT(k)

    def has(self, I, k):
        k = self.key(k)
        return tm.FALSE if k is None else tm.sel('iscolour', k, sort='b')

    def item(self, I, k):
        if not I.decide(self.has(I, k)):
            raise PyRaise(KeyError, (k,))
        return tm.sel('colour', self.key(k), sort='s')

    def get(self, I, attr):
        if attr != 'get':
            raise Unsupported('cnames.' + attr)
        return Native('get', lambda I, a, k: self.item(I, a[0]) if I.decide(self.has(I, a[0])) else (a[1] if len(a) > 1 else None))


def colours():
    """colour conversion and names, as unknown functions of the colour"""
    from .interp import _unsup
    def rgb(I, a, k):
        return tuple(tm.sel(f'rgb{i}', *[lift(conc(x)) for x in (a[0] if isinstance(a[0], tuple) else (a[0],))]) for i in range(3))
    stub = ModV('matplotlib.colors', {'to_rgb': Native('to_rgb', rgb), 'Normalize': ClassV('Normalize', [], {}, 'Normalize'), 'cnames': Names()},
                getter=lambda n: Native('mc.' + n, lambda I, a, k: _unsup('matplotlib.colors.' + n)))
    return stub


def colorsys():
    f = lambda n: Native(n, lambda I, a, k: tuple(tm.sel(f'{n}{i}', *[lift(conc(x)) for x in a]) for i in range(3)))
    return ModV('colorsys', {'rgb_to_hls': f('rgb_to_hls'), 'hls_to_rgb': f('hls_to_rgb')})


def ipython():
    """the interactive shell: none, or that of a notebook"""
    def get(I, a, k):
        return Obj(ClassV('ZMQInteractiveShell', [], {}, 'ZMQInteractiveShell')) if I.decide(var('notebook', 'b')) else None
    return ModV('IPython', {'get_ipython': Native('get_ipython', get)})
