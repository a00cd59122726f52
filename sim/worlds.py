"""MTfit imported several times in one process, each time with another set of compiled extensions installed.

Absence is decided where a real installation decides it - while the modules are imported - so every default argument and
flag the modules derive from it is as it would be there.  The compiled modules themselves are shared by the worlds.
"""
import contextlib
import importlib
import sys

PATHS = {'cprobability': 'MTfit.probability.cprobability', 'cmoment_tensor_conversion': 'MTfit.convert.cmoment_tensor_conversion',
         'cmarkov_chain_monte_carlo': 'MTfit.algorithms.cmarkov_chain_monte_carlo', 'cscatangle': 'MTfit.extensions.cscatangle'}
NAMES = {'inversion': 'MTfit.inversion', 'prob': 'MTfit.probability', 'conv': 'MTfit.convert.moment_tensor_conversion',
         'scat': 'MTfit.extensions.scatangle', 'mcmc': 'MTfit.algorithms.markov_chain_monte_carlo', 'base': 'MTfit.algorithms.base',
         'mc': 'MTfit.algorithms.monte_carlo', 'file_io': 'MTfit.utilities.file_io'}
_worlds = {}
_compiled = {}


class Block(object):
    """Import of the named modules fails, as ImportError (not installed) or as another error (a broken build)."""

    def __init__(self, names, exc):
        self.names, self.exc = names, exc

    def find_spec(self, name, path=None, target=None):
        if name in self.names:
            raise self.exc('No module named %r (simulated)' % name)
        return None


class World(object):
    """One installation: missing is the set of extensions that cannot be imported."""

    def __init__(self, missing, exc=ImportError):
        self.missing = frozenset(missing)
        mine = {n: sys.modules.pop(n) for n in list(sys.modules) if n == 'MTfit' or n.startswith('MTfit.')}
        block = Block([PATHS[m] for m in missing], exc)
        sys.meta_path.insert(0, block)
        try:
            for short, path in PATHS.items():
                if short not in missing and path in _compiled:
                    sys.modules[path] = _compiled[path]
            importlib.import_module('MTfit')
            for attr, name in NAMES.items():
                setattr(self, attr, importlib.import_module(name))
            for short, path in PATHS.items():
                m = sys.modules.get(path)
                if m is not None:
                    _compiled[path] = m
                    parent, leaf = path.rsplit('.', 1)
                    setattr(sys.modules[parent], leaf, m)
            self.modules = {n: m for n, m in sys.modules.items() if n == 'MTfit' or n.startswith('MTfit.')}
            self.has = {s for s, p in PATHS.items() if p in self.modules}
        finally:
            sys.meta_path.remove(block)
            for n in [n for n in sys.modules if n == 'MTfit' or n.startswith('MTfit.')]:
                del sys.modules[n]
            sys.modules.update(mine)

    @contextlib.contextmanager
    def current(self):
        """Imports and unpickling inside this block see this world."""
        saved = {n: sys.modules.pop(n) for n in list(sys.modules) if n == 'MTfit' or n.startswith('MTfit.')}
        sys.modules.update(self.modules)
        try:
            yield self
        finally:
            self.modules = {n: sys.modules.pop(n) for n in list(sys.modules) if n == 'MTfit' or n.startswith('MTfit.')}
            sys.modules.update(saved)


def world(missing=(), exc=ImportError):
    key = (frozenset(missing), exc)
    if key not in _worlds:
        _worlds[key] = World(missing, exc)
    return _worlds[key]
