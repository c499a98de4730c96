"""Stand-ins for the drawing libraries (matplotlib, holoviews, spatialpandas): they record what they are asked to draw."""
import contextlib
import importlib.abc
import importlib.util
import sys
import types

from symv import loader

TOPS = ('matplotlib', 'mpl_toolkits', 'scienceplots', 'spatialpandas', 'holoviews', 'bokeh', 'datashader', 'pylab')
PLOTTER = 'pySailingVLM.solver.panels_plotter'
EXTRA = 'pySailingVLM.solver.additional_functions'


class Thing:
    """any object of a drawing library: every call on it is recorded"""

    def __init__(self, log, path):
        self.__dict__.update(_log=log, _path=path)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Thing(self._log, self._path + (k,))

    def __call__(self, *a, **k):
        self._log.append((self._path[-1], a, k))
        if self._path[-1] == 'subplots':
            return Thing(self._log, self._path + ('fig',)), Thing(self._log, self._path + ('ax',))
        return Thing(self._log, self._path)

    def __getitem__(self, i):
        return self

    def __iter__(self):
        return iter(())

    def __setattr__(self, k, v):
        self.__dict__[k] = v


class Artist:
    def __init__(self, *a, **k):
        self.args, self.kwargs, self.calls = a, k, []

    def __getattr__(self, k):
        if k.startswith('__') or k == 'calls':
            raise AttributeError(k)

        def record(*a, **kw):
            self.calls.append((k, a, kw))
            return self
        return record


class FancyArrowPatch(Artist):
    def draw(self, renderer):
        self.calls.append(('draw', (renderer,), {}))


class Poly3DCollection(Artist):
    """polygons, each with its colour"""

    def polygons(self):
        verts = self.args[0] if self.args else self.kwargs.get('verts')
        cols = None
        for k in ('facecolors', 'facecolor', 'color', 'fc', 'array'):
            if k in self.kwargs:
                cols = self.kwargs[k]
        for k, a, kw in self.calls:
            if k in ('set_color', 'set_facecolor', 'set_facecolors', 'set_fc', 'set_array'):
                cols = a[0]
        out = []
        for i, v in enumerate(verts):
            out.append((v, cols[i] if isinstance(cols, list) else cols))
        return out


class Colour:
    def __init__(self, value, norm):
        self.value, self.norm = value, norm


class Normalize:
    def __init__(self, vmin=None, vmax=None, clip=False):
        self.vmin, self.vmax = vmin, vmax

    def __call__(self, v):
        return Colour(v, self)


class ScalarMappable(Artist):
    def __init__(self, norm=None, cmap=None):
        Artist.__init__(self)
        self.norm, self.cmap = norm, cmap

    def to_rgba(self, d, *a, **k):
        if getattr(d, 'ndim', 0) or isinstance(d, list):
            return [self.to_rgba(q) for q in d]
        return Colour(d, self.norm)


class Frame:
    def __init__(self, data=None, **k):
        self.data = data if data is not None else k


class Polygons(Artist):
    def opts(self, *a, **k):
        self.calls.append(('opts', a, k))
        return self


def proj_transform(x, y, z, m):
    return x * 2 + m, y * 3 - m, z * 5 + m


SPECIAL = dict(FancyArrowPatch=FancyArrowPatch, Poly3DCollection=Poly3DCollection, Normalize=Normalize, ScalarMappable=ScalarMappable, PolygonArray=Frame, GeoDataFrame=Frame, Polygons=Polygons,
               proj_transform=proj_transform)


class Library(types.ModuleType):
    __path__ = []

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k in SPECIAL:
            return SPECIAL[k]
        if k in ('art3d', 'colors', 'cm', 'geometry', 'proj3d', 'pyplot', 'patches', 'streams', 'collections', 'mplot3d'):
            return importlib.import_module(self.__name__ + '.' + k)
        return Thing(Library.log, tuple(self.__name__.split('.')) + (k,))


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in TOPS:
            return importlib.util.spec_from_loader(name, self, is_package=True)

    def create_module(self, spec):
        return Library(spec.name)

    def exec_module(self, m):
        pass


@contextlib.contextmanager
def drawing(S, *fresh):
    """the plotting modules of the repository, loaded anew against the stand-ins; yields the log of what they draw"""
    log = Library.log = []
    ours = [n for n in list(sys.modules) if n.split('.')[0] in TOPS]
    kept = {n: sys.modules.pop(n) for n in ours}
    mods = loader._mods if S.symbolic else sys.modules
    names = (PLOTTER, EXTRA) + fresh
    held = {n: mods.pop(n) for n in names if n in mods}
    f = Finder()
    sys.meta_path.insert(0, f)
    try:
        yield log
    finally:
        sys.meta_path.remove(f)
        for n in [n for n in list(sys.modules) if n.split('.')[0] in TOPS]:
            del sys.modules[n]
        sys.modules.update(kept)
        for n in names:
            mods.pop(n, None)
        mods.update(held)


# ---- what was drawn
def arrows(log):
    return [x for _, a, k in log for x in a if '_verts3d' in getattr(x, '__dict__', {})]


def polygons(log):
    return [p for _, a, k in log for x in a if isinstance(x, Poly3DCollection) for p in x.polygons()]


def lines(log):
    """[(coordinates, style)] of the curves drawn"""
    out = []
    for n, a, k in log:
        if n in ('plot', 'plot3D'):
            xs = [x for x in a if not isinstance(x, str)]
            out.append((xs, [x for x in a if isinstance(x, str)] + [k.get('color')]))
    return out


def marks(log):
    return [(a, k) for n, a, k in log if n in ('scatter', 'scatter3D')]


def texts(log, *names):
    return [a[0] for n, a, k in log if n in names and a]
