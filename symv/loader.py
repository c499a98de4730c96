"""Loads the repository's modules twice: symbolically (shims) and as they are (for replay)."""
import ast
import builtins
import contextlib
import importlib
import os
import sys
import types

from . import snp

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = 'pySailingVLM'
ALIAS = 'symrepo.'

_mods = {}
SOURCES = {}
_shims = None


def shims():
    global _shims
    if _shims is None:
        _shims = {'numpy': snp.numpy, 'numpy.linalg': snp.linalg, 'numpy.testing': snp.testing, 'math': snp.math,
                  'numba': snp.numba, 'numba.typed': snp.numba.typed}
        _shims.update(snp.make_scipy())
    return _shims


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = globals.get('__package__') or ''
        parts = pkg.split('.')
        base = '.'.join(parts[:len(parts) - level + 1])
        name = base + ('.' + name if name else '')
    if name == PKG or name.startswith(PKG + '.'):
        m = load(name)
        if not fromlist:
            return load(PKG)
        for f in fromlist:
            if not hasattr(m, f):
                try:
                    load(name + '.' + f)
                except FileNotFoundError:
                    pass
        return m
    sh = shims()
    if name in sh:
        if fromlist:
            return sh[name]
        return sh[name.split('.')[0]]
    top = name.split('.')[0]
    if top in ('numpy', 'numba', 'scipy') and name not in sh:
        real = importlib.import_module(name)
        return real if fromlist else sh[top]
    return builtins.__import__(name, globals, locals, fromlist, level)


def _path(name):
    rel = name.split('.')
    p = os.path.join(REPO, *rel)
    if os.path.isdir(p):
        return os.path.join(p, '__init__.py'), True
    return p + '.py', False


def load(name):
    m = _mods.get(name)
    if m is not None:
        return m
    path, ispkg = _path(name)
    m = types.ModuleType(ALIAS + name)
    m.__file__ = path
    m.__package__ = name if ispkg else name.rpartition('.')[0]
    if ispkg:
        m.__path__ = [os.path.dirname(path)]
    if ispkg and not os.path.exists(path):
        src = ''
    else:
        with open(path, encoding='utf-8') as f:
            src = f.read()
    SOURCES[name] = src
    b = dict(builtins.__dict__)
    b['__import__'] = _import
    b['float'] = snp.SFloat
    b['round'] = snp.sround
    m.__dict__['__builtins__'] = b
    _mods[name] = m
    sys.modules[ALIAS + name] = m
    try:
        exec(compile(src, path, 'exec'), m.__dict__)
    except BaseException:
        _mods.pop(name, None)
        sys.modules.pop(ALIAS + name, None)
        raise
    par, _, leaf = name.rpartition('.')
    if par:
        setattr(load(par), leaf, m)
    return m


@contextlib.contextmanager
def afresh():
    """Inside, the package is loaded anew, by load() and by real(): nothing earlier calls left in its modules is seen."""
    alias, mods = ALIAS + PKG, dict(_mods)
    mine = lambda k: k == PKG or k.startswith(PKG + '.') or k == alias or k.startswith(alias + '.')
    keep = {k: m for k, m in sys.modules.items() if mine(k)}

    def drop():
        for k in [k for k in sys.modules if mine(k)]:
            del sys.modules[k]
        _mods.clear()
    drop()
    try:
        yield
    finally:
        drop()
        sys.modules.update(keep)
        _mods.update(mods)


def real(name):
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    return importlib.import_module(name)


def defines(name):
    """whether the repository's source defines a function or class of this name"""
    for d, _, fs in os.walk(os.path.join(REPO, PKG)):
        for f in fs:
            if f.endswith('.py'):
                with open(os.path.join(d, f), encoding='utf-8') as h:
                    for n in ast.walk(ast.parse(h.read())):
                        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
                            return True
    return False


def literals():
    """Numeric literals of the repository's source (used as candidate points, never as verdicts)."""
    out = set()
    root = os.path.join(REPO, PKG)
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x not in ('tests', 'examples', '__pycache__')]
        for f in files:
            if f.endswith('.py') and f not in ('variables.py', 'panels_plotter.py', 'save_utils.py'):
                try:
                    t = ast.parse(open(os.path.join(d, f), encoding='utf-8').read())
                except (SyntaxError, OSError):
                    continue
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                        if abs(n.value) < 1e6:
                            out.add(float(n.value))
    return sorted(out)
