"""Concrete runs of scenarios on the real code with the real SQLite.

Reads one JSON request per line on stdin and answers one JSON line on
the original stdout:
  {"scenario": name, "bounds": {...}, "values": {...}}
"""
import importlib
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(prop):
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    from symx import realsql, detuuid
    detuuid.install()
    sys.modules['sqlite3'] = realsql
    src = os.environ.get('SYMX_REPO_SRC', '/repo/src')
    sys.path.insert(0, src)
    import toron
    if not os.path.realpath(toron.__file__).startswith(os.path.realpath(src)):
        raise RuntimeError(f'toron imported from {toron.__file__}')
    importlib.import_module(f'props.{prop}')
    from symx.harness import SCENARIOS
    return SCENARIOS


def run_one(scenarios, req):
    from symx import realsql, detuuid
    from symx.harness import Concrete, AssumptionFailed, CheckFailed, _plain
    realsql.reset_environment()
    detuuid.reset()
    sc = scenarios[req['scenario']]
    h = Concrete(req['bounds'], req['values'], realsql)
    out = {'status': 'ok'}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sc.fn(h)
    except AssumptionFailed:
        out['status'] = 'assume-failed'
    except CheckFailed as e:
        out.update(status='check-failed', label=e.label, detail=e.detail)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{os.path.basename(f.filename)}:{f.name}' for f in tb][-6:]
        out.update(status='exception', label=f'{type(e).__name__}: {e}'[:500], where=where,
                   trace=traceback.format_exc()[-3000:])
    finally:
        realsql.reset_environment()
        h.cleanup()
    out['obs'] = h.observations
    return out


def main():
    chan = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    scenarios = load(sys.argv[1])
    print(json.dumps({'ready': True}), file=chan, flush=True)
    for line in sys.stdin:
        req = json.loads(line)
        print(json.dumps(run_one(scenarios, req), default=str), file=chan, flush=True)


if __name__ == '__main__':
    main()
