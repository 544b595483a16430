"""A second copy of the toron package, imported under an older SQLite build.

The version is what Python code sees as `sqlite3.sqlite_version_info`, and
the omitted SQL functions raise OperationalError.  Inside of the context
`import toron` (also in functions of toron) gives the copy.  The SQL
engine itself stays the same.
"""
import contextlib
import importlib
import pkgutil
import sys

_copies = {}

JSON = ('json_valid', 'json_type', 'json_extract', 'json_each', 'json', 'json_object', 'json_array')
MATH = ('log2',)


def _ours(name):
    return name == 'toron' or name.startswith('toron.')


@contextlib.contextmanager
def older(sql, symbolic, version, omitted):
    key = (version, omitted)
    saved = {n: m for n, m in sys.modules.items() if _ours(n)}
    before = sql.sqlite_version_info, sql.OMITTED
    for n in saved:
        del sys.modules[n]
    sql.sqlite_version_info, sql.OMITTED = version, frozenset(omitted)
    try:
        if key in _copies:
            sys.modules.update(_copies[key])
        else:
            if symbolic:
                from . import env
                with env._environment():
                    _load()
                env._shadow()
                env._caches = None
            else:
                _load()
            _copies[key] = {n: m for n, m in sys.modules.items() if _ours(n)}
        yield
    finally:
        for n in [n for n in sys.modules if _ours(n)]:
            del sys.modules[n]
        sys.modules.update(saved)
        sql.sqlite_version_info, sql.OMITTED = before


def _load():
    pkg = importlib.import_module('toron')
    for info in pkgutil.walk_packages(pkg.__path__, 'toron.'):
        if not info.name.endswith('__main__'):
            try:
                importlib.import_module(info.name)
            except RuntimeError:     # a backend that needs a newer version
                pass
