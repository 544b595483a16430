"""Parallel depth-first exploration of all paths of a scenario."""
import gc
import hashlib
import json
import multiprocessing as mp
import os
import queue
import select
import subprocess
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL_PYTHON = '/opt/venv/bin/python'


class RealRunner:
    """A subprocess that replays inputs on the real code + real SQLite."""

    def __init__(self, prop):
        self.prop = prop
        self.p = None

    def _start(self):
        py = REAL_PYTHON if os.path.exists(REAL_PYTHON) else sys.executable
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=HERE)
        self.p = subprocess.Popen([py, '-m', 'symx.realrun', self.prop], cwd=HERE, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL)
        if not self._read(60).get('ready'):
            raise RuntimeError('real runner did not start')

    def _read(self, timeout):
        fd = self.p.stdout.fileno()
        buf = b''
        end = time.time() + timeout
        while not buf.endswith(b'\n'):
            left = end - time.time()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                self.close()
                return {'status': 'timeout'}
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                self.close()
                return {'status': 'died'}
            buf += chunk
        return json.loads(buf)

    def run(self, scenario, bounds, values, timeout=60):
        if self.p is None or self.p.poll() is not None:
            self._start()
        req = json.dumps({'scenario': scenario, 'bounds': bounds, 'values': values})
        try:
            self.p.stdin.write(req.encode() + b'\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            self.close()
            return {'status': 'died'}
        return self._read(timeout)

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


def obs_equal(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(obs_equal(x, y) for x, y in zip(a, b))
    return a == b


_seen_functions = set()


def _start_monitor():
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    mon.use_tool_id(tool, 'symx')
    from . import env
    root = os.path.realpath(env.REPO_SRC)

    def on_start(code, offset):
        f = code.co_filename
        if f.startswith(root):
            _seen_functions.add(f'{os.path.relpath(f, root)}:{code.co_qualname}')
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


def run_path(sc, bounds, prefix, stats, runner, validate, timeout_ms):
    """Execute one path.  Returns (record, pending_prefixes)."""
    from . import core, env, fakesql, detuuid
    from .symh import Symbolic, eval_obs
    env.fresh_path()
    detuuid.reset()
    ctx = core.Ctx(prefix, stats, timeout_ms)
    core.set_ctx(ctx)
    h = Symbolic(bounds, ctx)
    rec = {'status': 'ok', 'n': len(prefix)}
    model = None
    try:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                sc.fn(h)
            stats.paths += 1
        except core.PathAbort:
            rec['status'] = 'abort'
            stats.aborted += 1
        except core.CounterExample as e:
            rec.update(status='ce', label=e.label, detail=e.detail)
            model = e.model
        except core.Unsupported as e:
            rec.update(status='unsupported', label=str(e), trace=traceback.format_exc()[-2500:])
        except core.Inconclusive as e:
            rec.update(status='inconclusive', label=str(e))
        except Exception as e:
            if type(e).__name__ == 'SqlUnsupported':
                rec.update(status='unsupported', label=str(e), trace=traceback.format_exc()[-2500:])
            else:
                rec.update(status='exception', label=f'{type(e).__name__}: {e}'[:500],
                           trace=traceback.format_exc()[-3000:])
        stats.sql_statements += fakesql.HOOKS.statements
        rec['reached'] = sorted(h.reached)
        rec['checks'] = ctx.checks
        rec['partial'] = ctx.partial
        need = rec['status'] in ('ce', 'unsupported', 'inconclusive', 'exception') or (
            rec['status'] == 'ok' and validate)
        if need:
            try:
                if model is None:
                    model = ctx.path_model()
                rec['values'] = ctx.input_values(model)
                rec['obs'] = [[k, eval_obs(v, model)] for k, v in h.observations]
            except core.Inconclusive:
                rec['values'] = None
            except core.PathAbort:
                rec['values'] = None
    finally:
        core.set_ctx(None)
        fakesql.reset_environment()
        h.cleanup()
    if rec.get('values') is not None:
        r = runner.run(sc.name, bounds, rec['values'])
        rec['real'] = r
        rec['verdict'] = judge(rec, r)
    return rec, ctx.pending


def judge(rec, r):
    """Compare a symbolic path outcome with the concrete replay."""
    if r['status'] in ('check-failed', 'exception'):
        return 'violation'
    if r['status'] in ('timeout', 'died'):
        return 'real-' + r['status']
    if rec['status'] == 'ok':
        if r['status'] == 'assume-failed':
            return 'diverged'
        return 'agree' if obs_equal(json.loads(json.dumps(rec['obs'])), [list(o) for o in r['obs']]) else 'diverged'
    return 'unconfirmed'


def worker(prop, inq, outq, timeout_ms, is_known=None):
    try:
        import importlib
        import resource
        from . import core, env, detuuid
        detuuid.install()
        env.install()
        if HERE not in sys.path:
            sys.path.insert(0, HERE)
        importlib.import_module(f'props.{prop}')
        from .harness import SCENARIOS
        _start_monitor()
        runner = RealRunner(prop)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        sys.stderr = open(os.devnull, 'w')
        gc.disable()
        nval = {}
        while True:
            task = inq.get()
            if task is None:
                break
            name, bounds, prefixes, budget, vrate = task
            stats = core.Stats()
            recs = []
            end = time.time() + budget
            stack = list(prefixes)
            k = 0
            while stack and (time.time() < end or k == 0):
                prefix = stack.pop()
                c = nval[name] = nval.get(name, -1) + 1
                rec, pend = run_path(SCENARIOS[name], bounds, prefix, stats, runner,
                                     c < 10 or c % vrate == 0, timeout_ms)
                stack.extend(pend)
                recs.append(rec)
                k += 1
                if k % 20 == 0:
                    gc.collect()
                if rec.get('verdict') == 'violation' and not (is_known and is_known(name, rec)):
                    break
            gc.collect()
            stats.functions = set(_seen_functions)
            outq.put(('done', name, recs, stack, stats))
        runner.close()
        outq.put(('exit',))
    except BaseException:
        outq.put(('crash', traceback.format_exc()))


def explore(prop, scenarios, tier, deadline, nproc=8, timeout_ms=20000, log=None, stop_on_violation=True,
            bounds_override=None, is_known=None):
    """Explore *scenarios* (names); returns {name: result}."""
    from .core import Stats
    mpc = mp.get_context('fork')
    from .harness import SCENARIOS
    results = {}
    inq, outq = mpc.Queue(), mpc.Queue()
    procs = [mpc.Process(target=worker, args=(prop, inq, outq, timeout_ms, is_known), daemon=True) for _ in range(nproc)]
    for p in procs:
        p.start()
    try:
        open_tasks = {}
        for name in scenarios:
            b = dict(SCENARIOS[name].params[tier])
            b.update((bounds_override or {}).get(name, {}))
            open_tasks[name] = {'stack': [[]], 'busy': 0}
            results[name] = {'bounds': b, 'stats': Stats(), 'records': [], 'status': {}, 'verdicts': {},
                             'exhausted': False, 'reached': set(), 'violations': [], 'problems': [],
                             'samples': [], 'knowns': {}, 'decided_paths': 0, 'partial': 0, 't0': time.time(), 't1': None}
        inflight = 0
        stop = False
        while True:
            # feed
            if not stop:
                for name in scenarios:
                    if results[name]['violations'] and stop_on_violation:
                        open_tasks[name]['stack'] = []
                while inflight < nproc + 2:
                    # least explored scenario first
                    ready = [n for n in scenarios if open_tasks[n]['stack']]
                    if not ready:
                        break
                    name = min(ready, key=lambda n: results[n]['stats'].paths + 25 * open_tasks[n]['busy'])
                    t, res = open_tasks[name], results[name]
                    n = max(1, min(len(t['stack']) // (nproc * 2), 40))
                    chunk = [t['stack'].pop() for _ in range(min(n, len(t['stack'])))]
                    vr = max(8, int(res['stats'].paths / 60))
                    early = res['stats'].paths < 40
                    inq.put((name, res['bounds'], chunk, 0.3 if early else 1.5, vr))
                    t['busy'] += 1
                    inflight += 1
            if inflight == 0:
                break
            try:
                msg = outq.get(timeout=5)
            except queue.Empty:
                dead = [p for p in procs if not p.is_alive()]
                if dead:
                    raise RuntimeError(f'worker died (exit {dead[0].exitcode})')
                if time.time() > deadline + 120:
                    raise RuntimeError('workers did not finish in time')
                continue
            if msg[0] == 'crash':
                raise RuntimeError('worker crash:\n' + msg[1])
            _, name, recs, left, stats = msg
            inflight -= 1
            t, res = open_tasks[name], results[name]
            t['busy'] -= 1
            res['stats'].merge(stats)
            t['stack'].extend(left)
            for rec in recs:
                _account(res, rec, is_known and (lambda r: is_known(name, r)))
            if not t['busy'] and not t['stack']:
                if res['t1'] is None:
                    res['t1'] = time.time()
                    if log:
                        log(name, res)
            if time.time() > deadline:
                stop = True
                for tt in open_tasks.values():
                    if tt['stack']:
                        tt['left'] = len(tt['stack'])
        for name in scenarios:
            t, res = open_tasks[name], results[name]
            res['exhausted'] = not t['stack'] and not res['violations']
            res['left'] = len(t['stack'])
            res['t1'] = res['t1'] or time.time()
        for _ in procs:
            inq.put(None)
        for p in procs:
            p.join(2)
    finally:
        for p in procs:
            if p.is_alive():
                p.kill()
        for p in procs:
            p.join()
    return results


def _account(res, rec, known=None):
    st = rec['status']
    res['status'][st] = res['status'].get(st, 0) + 1
    res['reached'].update(rec.get('reached', ()))
    res['partial'] += bool(rec.get('partial'))
    if st == 'ok':
        res['decided_paths'] += 1
    v = rec.get('verdict')
    if v:
        res['verdicts'][v] = res['verdicts'].get(v, 0) + 1
    if v == 'violation' and known and known(rec):
        res.setdefault('knowns', {}).setdefault(known(rec), rec)
    elif v == 'violation':
        res['violations'].append(rec)
    elif st in ('ce', 'unsupported', 'inconclusive', 'exception') or (v and v not in ('agree',)):
        if len(res['problems']) < 20:
            res['problems'].append(rec)
        res['nproblems'] = res.get('nproblems', 0) + 1
    elif v == 'agree' and len(res['samples']) < 6:
        res['samples'].append({'inputs': rec['values'], 'observed': rec['obs']})
