"""Load the real toron package from /repo/src for symbolic execution.

Nothing of toron is rewritten: the modules are imported from the current
working tree.  What changes is their environment -- `sqlite3`, `math`
and `json` are replaced by versions that accept symbolic values, and the
builtins that look at the concrete type of a value (`isinstance`, `int`,
`float`, `str`, `bool`, `type`) are shadowed in every toron module.
"""
import contextlib
import importlib
import json as _json
import math as _math
import os
import pkgutil
import sys
import types
from fractions import Fraction

import z3

from . import core, fakesql
from .core import SNum, SAtom, SBool, mk_num, mk_bool, ctx

REPO_SRC = os.environ.get('SYMX_REPO_SRC', '/repo/src')


def _math_module():
    m = types.ModuleType('math')
    m.__dict__.update({k: v for k, v in _math.__dict__.items() if not k.startswith('__')})

    def modf(x):
        if isinstance(x, SNum):
            whole = core.sym_float(x.__trunc__())
            return x - whole, whole
        return _math.modf(x)

    def copysign(a, b):
        if isinstance(b, SNum):
            neg = ctx().decide(b.e < 0)
            mag = abs(a)
            return -mag if neg else mag
        if isinstance(a, SNum):
            mag = abs(a)
            return -mag if _math.copysign(1.0, b) < 0 else mag
        return _math.copysign(a, b)

    def isnan(x):
        return False if isinstance(x, (SNum, SBool)) else _math.isnan(x)

    def isinf(x):
        return False if isinstance(x, (SNum, SBool)) else _math.isinf(x)

    def isfinite(x):
        return True if isinstance(x, (SNum, SBool)) else _math.isfinite(x)

    def floor(x):
        return x.__floor__() if isinstance(x, SNum) else _math.floor(x)

    def ceil(x):
        return x.__ceil__() if isinstance(x, SNum) else _math.ceil(x)

    def trunc(x):
        return x.__trunc__() if isinstance(x, SNum) else _math.trunc(x)

    def fabs(x):
        return abs(core.sym_float(x)) if isinstance(x, SNum) else _math.fabs(x)

    def fsum(xs):
        xs = list(xs)
        if any(isinstance(x, SNum) for x in xs):
            t = 0.0
            for x in xs:
                t = t + x
            return t
        return _math.fsum(xs)

    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if isinstance(a, SNum) or isinstance(b, SNum):
            if a == b:
                return True
            d = abs(a - b)
            return bool(d <= rel_tol * max(abs(a), abs(b))) or bool(d <= abs_tol)
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    def prod(xs, *, start=1):
        for x in xs:
            start = start * x
        return start

    for f in (modf, copysign, isnan, isinf, isfinite, floor, ceil, trunc, fabs, fsum, isclose, prod):
        setattr(m, f.__name__, f)
    return m


def _json_module():
    m = types.ModuleType('json')
    m.__dict__.update({k: v for k, v in _json.__dict__.items() if not k.startswith('__')})
    m.__path__ = _json.__path__

    def dumps(obj, *a, **k):
        return _json.dumps(core.concretize(obj), *a, **k)

    def dump(obj, fp, *a, **k):
        return _json.dump(core.concretize(obj), fp, *a, **k)

    def loads(s, *a, **k):
        if isinstance(s, SAtom):
            s = s.concretize()
        return _json.loads(s, *a, **k)

    m.dumps, m.dump, m.loads = dumps, dump, loads
    return m


SHADOW = {
    'isinstance': core.sym_isinstance,
    'int': core.sym_int,
    'float': core.sym_float,
    'str': core.sym_str,
    'bool': core.sym_bool,
    'type': core.sym_type,
}

MODULES = []


def install(extra=()):
    """Import every toron module with the symbolic environment."""
    if MODULES:
        return
    sys.dont_write_bytecode = True
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    for name in list(sys.modules):
        if name == 'toron' or name.startswith('toron.'):
            raise RuntimeError('toron was imported before the symbolic environment')
    with _environment():
        pkg = importlib.import_module('toron')
        if not os.path.realpath(pkg.__file__).startswith(os.path.realpath(REPO_SRC)):
            raise RuntimeError(f'toron imported from {pkg.__file__}')
        for info in pkgutil.walk_packages(pkg.__path__, 'toron.'):
            if info.name.endswith('__main__'):
                continue
            importlib.import_module(info.name)
    _shadow()


@contextlib.contextmanager
def _environment():
    # stdlib / third-party modules must bind the real versions
    import lark, statistics, random, fractions, decimal, datetime, csv, logging, tempfile  # noqa
    import uuid, hashlib, shutil, pathlib, array, struct, itertools, argparse, warnings  # noqa
    import binascii, zlib, colorsys, logging.config  # noqa
    from . import symcrc
    saved = {k: sys.modules.get(k) for k in ('sqlite3', 'sqlite3.dbapi2', 'math', 'json', 'hashlib', *symcrc.MODULES)}
    sys.modules['sqlite3'] = fakesql
    sys.modules['sqlite3.dbapi2'] = fakesql
    sys.modules['math'] = _math_module()
    sys.modules['json'] = _json_module()
    from . import symhash
    sys.modules['hashlib'] = symhash.module()
    for k, make in symcrc.MODULES.items():
        sys.modules[k] = make()
    try:
        yield
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def _shadow():
    for name, mod in list(sys.modules.items()):
        if (name == 'toron' or name.startswith('toron.')) and mod is not None and mod not in MODULES:
            MODULES.append(mod)
            for k, v in SHADOW.items():
                if k not in mod.__dict__:
                    mod.__dict__[k] = v


_caches = None


def fresh_path():
    """Reset process-wide state that could leak between paths."""
    global _caches
    fakesql.reset_environment()
    if _caches is None:
        _caches = []
        for m in MODULES:
            for v in list(vars(m).values()):
                if hasattr(v, 'cache_clear'):
                    _caches.append(v.cache_clear)
                elif isinstance(v, type) and str(getattr(v, '__module__', '')).startswith('toron'):
                    for w in vars(v).values():
                        f = getattr(w, '__func__', w)
                        if hasattr(f, 'cache_clear'):
                            _caches.append(f.cache_clear)
    for c in _caches:
        c()
