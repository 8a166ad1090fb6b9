"""load /repo modules through the transform, with shims for what they import"""
import builtins as _b
import os
import sys
import types
from . import rt, npshim, xform
from .core import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')

for _f, _k in ((rt.float_, 'f'), (rt.int_, 'i'), (rt.bool_, 'b')):
    _f.__symkind__ = _k


class Auto(types.ModuleType):
    """module whose attributes are opaque until a check supplies them"""
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Opaque(self.__name__ + '.' + n)


class Opaque:
    """a name of an external package without a contract"""
    def __init__(self, name):
        self.__dict__['_name'] = name

    def __call__(self, *a, **k):
        raise Unsupported('no contract for %s' % self._name)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Opaque(self._name + '.' + n)

    def __mro_entries__(self, bases):
        return (OpaqueBase,)

    def __repr__(self):
        return '<external %s>' % self._name


class OpaqueBase:
    def __init_subclass__(cls, **kw):
        pass


def njit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


class World:
    """a set of loaded modules sharing shims"""

    def __init__(self, ext=None):
        self.np = npshim.build()
        self.mods = {}
        self.ext = dict(ext or {})
        nb = Auto('numba')
        nb.njit = njit
        nb.jit = njit
        self.ext.setdefault('numba', nb)
        self.ext['numpy'] = self.np
        self.ext.setdefault('numpy.random', self.np.random)
        self.native = {'copy', 'logging', 'time', 'warnings', 'contextlib', 'math',
                       '__future__', 'functools', 'itertools', 'os', 'sys',
                       'collections', 'dataclasses', 'typing', 'abc', 'enum'}
        if 'esutil' not in self.ext:
            eu = Auto('esutil')
            eu.numpy_util = Auto('esutil.numpy_util')
            from .arr import add_fields

            def af(rec, add):
                return add_fields(rec, [tuple(d) for d in npshim.plain(add)])
            eu.numpy_util.add_fields = af
            eu.numpy_util.combine_arrlist = lambda lst: npshim.hstack(lst)
            self.ext['esutil'] = eu
            self.ext['esutil.numpy_util'] = eu.numpy_util
        self.loaded_files = []

    def ext_module(self, name):
        if name in self.ext:
            return self.ext[name]
        if '.' in name:
            par, last = name.rsplit('.', 1)
            p = self.ext_module(par)
            m = p.__dict__.get(last) if isinstance(p, types.ModuleType) else None
            if isinstance(m, types.ModuleType):
                self.ext[name] = m
                return m
            m = Auto(name)
            self.ext[name] = m
            if isinstance(p, types.ModuleType):
                setattr(p, last, m)
            return m
        m = Auto(name)
        self.ext[name] = m
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            if level > 1:
                pkg = pkg[:-(level - 1)]
            full = '.'.join(pkg + ([name] if name else []))
        else:
            full = name
        if full.split('.')[0] == 'metadetect':
            if not fromlist:
                self.load(full)
                return self.load(full.split('.')[0])
            m = self.load(full)
            for f in fromlist:
                if f not in m.__dict__ and self.path(full + '.' + f):
                    setattr(m, f, self.load(full + '.' + f))
            return m
        top = full.split('.')[0]
        if full in self.ext or top in self.ext or top not in self.native:
            m = self.ext_module(full)
            if not fromlist:
                return self.ext_module(top)
            for f in fromlist:
                if full + '.' + f in self.ext and f not in m.__dict__:
                    setattr(m, f, self.ext[full + '.' + f])
            return m
        return _b.__import__(full, globals, locals, fromlist, 0)

    def path(self, full):
        p = os.path.join(REPO, *full.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def load(self, full):
        if full in self.mods:
            return self.mods[full]
        p = self.path(full)
        if p is None:
            raise ImportError(full)
        m = types.ModuleType(full)
        m.__file__ = p
        ispkg = p.endswith('__init__.py')
        m.__package__ = full if ispkg else full.rsplit('.', 1)[0]
        if ispkg:
            m.__path__ = [os.path.dirname(p)]
        self.mods[full] = m
        rt.HEAP_MODULES.add(full)
        if '.' in full:
            par, last = full.rsplit('.', 1)
            pm = self.load(par)
            setattr(pm, last, m)
        if full == 'metadetect':
            # the package __init__ only re-exports
            return m
        if ispkg and full == 'metadetect.lsst':
            return m
        with open(p) as f:
            src = f.read()
        self.loaded_files.append(os.path.relpath(p, REPO))
        code = xform.transform(src, p)
        g = m.__dict__
        g.update(rt.BUILTINS)
        g['_rt_'] = rt
        bi = dict(_b.__dict__)
        bi['__import__'] = self.imp
        g['__builtins__'] = bi
        exec(code, g)
        return m
