"""Command line: decide one property and write its evidence."""
import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.json')

ENGINE_ASSUMPTIONS = [
    'Python floats are modelled as exact real numbers: rounding, overflow, NaN and infinities are outside the model '
    '(each validated path is re-run on real IEEE doubles).',
    'SQLite is represented by the SQL engine in symx/fakesql.py, which executes the SQL text the code passes; it is '
    'validated against real SQLite by running the repository test-suite on it and by replaying path models.',
    'Symbolic labels range over finite alphabets chosen in the scenario; row counts and operation counts are bounded.',
    'CPython, z3 and the symx executor are trusted.',
]


def git_head():
    try:
        return subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], capture_output=True, text=True,
                              timeout=20).stdout.strip()
    except Exception:
        return ''


def source_digest():
    h = hashlib.sha256()
    root = os.environ.get('SYMX_REPO_SRC', '/repo/src')
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.py', '.lark')):
                with open(os.path.join(d, f), 'rb') as fh:
                    h.update(f.encode() + b'\0' + fh.read())
    return h.hexdigest()[:16]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=('quick', 'thorough'))
    ap.add_argument('--scenario', action='append')
    ap.add_argument('--replay', help='replay one recorded input on the real code')
    ap.add_argument('--bound', action='append', default=[], help='SCENARIO.NAME=JSON (exploratory runs)')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    prop = args.property
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    if args.replay:
        return replay_file(prop, args.replay)

    from . import env, detuuid
    detuuid.install()
    env.install()
    mod = importlib.import_module(f'props.{prop}')
    from .harness import SCENARIOS
    from .explore import explore
    names = args.scenario or [n for n, s in SCENARIOS.items() if args.tier in s.tiers]
    budget = args.budget or (560 if args.tier == 'quick' else getattr(mod, 'THOROUGH_BUDGET', 3000))
    override = {}
    for b in args.bound:
        k, v = b.split('=', 1)
        sc, nm = k.split('.', 1)
        override.setdefault(sc, {})[nm] = json.loads(v)

    def log(name, res):
        st = res['stats']
        print(f'[{time.time() - t0:6.1f}s] {name}: paths={st.paths} {res["status"]} proved={st.proved} '
              f'queries={st.queries} solver={st.solver_s:.1f}s real={res["verdicts"]}', flush=True)

    results = explore(prop, names, args.tier, t0 + budget, nproc=args.jobs, log=log, bounds_override=override,
                      is_known=known_index(prop))
    return report(prop, mod, args, seed, t0, results, SCENARIOS, names)


def known_index(prop):
    """fn(scenario, record) -> index of the listed finding it is, or None."""
    known = load_known()
    if not any(e.get('property') == prop and e.get('status') != 'fixed' for e in known):
        return None

    def find(name, rec):
        for i, e in enumerate(known):
            if matches_known(e, prop, name, rec):
                return f'k{i}'
        return None
    return find


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def matches_known(entry, prop, name, rec):
    if entry.get('status') == 'fixed' or entry.get('property') != prop or entry.get('scenario') != name:
        return False
    if entry.get('label') and entry['label'] != rec['real'].get('label'):
        return False
    vals = rec.get('values') or {}
    return all(vals.get(k) == v for k, v in (entry.get('inputs') or {}).items())


def report(prop, mod, args, seed, t0, results, scenarios, names):
    known = load_known()
    wall = time.time() - t0
    violations, knowns, problems = [], [], []
    for name in names:
        res = results[name]
        for k, rec in res['knowns'].items():
            knowns.append((known[int(k[1:])], name, rec))
        for rec in res['violations']:
            violations.append((name, rec))
        for rec in res['problems']:
            problems.append((name, rec))
        want = set(getattr(mod, 'REACH', {}).get(name, ()))
        missing = want - res['reached']
        if missing and not res['violations'] and res['exhausted']:
            problems.append((name, {'status': 'vacuous', 'label': f'never reached: {sorted(missing)}'}))
        if res['decided_paths'] == 0 and not res['violations'] and not res['knowns']:
            problems.append((name, {'status': 'vacuous', 'label': 'no path was decided'}))

    from .core import Stats
    tot = Stats()
    for r in results.values():
        tot.merge(r['stats'])
    per = {}
    for name in names:
        r = results[name]
        st = r['stats']
        per[name] = {
            'what': scenarios[name].doc, 'bounds': r['bounds'],
            'paths_decided': r['decided_paths'], 'paths_infeasible': st.aborted,
            'forks': st.forks, 'solver_queries': st.queries, 'solver_s': round(st.solver_s, 2),
            'assertions_discharged': st.proved, 'assertions_constant_true': st.trivial,
            'paths_by_outcome': r['status'], 'replays_by_verdict': r['verdicts'],
            'partial_paths': r['partial'], 'sql_statements_executed': st.sql_statements,
            'exhausted_within_bounds': bool(r['exhausted']), 'unexplored_prefixes': r.get('left', 0),
            'reached': sorted(r['reached']),
            'wall_s': round(r['t1'] - r['t0'], 1),
        }
    validated = sum(r['verdicts'].get('agree', 0) for r in results.values())
    samples = [dict(scenario=n, **s) for n in names for s in results[n]['samples'][:2]]
    evidence = {
        'property': prop, 'tier': args.tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(r['decided_paths'] for r in results.values()),
            'transitions': tot.decisions,
            'traces_validated_against_impl': validated,
            'samples': samples or [{'note': 'no sample'}],
            'exhaustive': all(r['exhausted'] and not r['partial'] and not r.get('nproblems') for r in results.values()),
            'explanation': 'states = symbolic path classes of the real code decided by the solver (each stands for all '
                           'input values satisfying its path condition); transitions = symbolic branch decisions; '
                           'traces_validated = path models re-run on the real code with real SQLite with equal '
                           'observations.',
            'solver': 'z3 ' + _z3_version(), 'solver_queries': tot.queries, 'solver_s': round(tot.solver_s, 2),
            'assertions_discharged': tot.proved,
            'functions_encoded': sorted(tot.functions),
            'functions_encoded_count': len(tot.functions),
            'scenarios': per, 'repo_head': git_head(), 'source_digest': source_digest(),
            'problems': [{'scenario': n, 'status': r['status'], 'label': r.get('label'), 'verdict': r.get('verdict')}
                         for n, r in problems[:20]],
        },
        'assumptions': ENGINE_ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write('\n')

    seen = set()
    for e, name, rec in knowns:
        if id(e) not in seen:
            seen.add(id(e))
            print(f'KNOWN-FINDING: property={prop} {e["what"]}')
    rc = 0
    if violations:
        rdir = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        done = set()
        for name, rec in violations:
            label = rec['real'].get('label')
            if (name, label) in done:
                continue
            done.add((name, label))
            path = os.path.join(rdir, f'{prop}-{name}-{len(done)}.json')
            with open(path, 'w') as f:
                json.dump({'property': prop, 'scenario': name, 'bounds': results[name]['bounds'],
                           'inputs': rec['values'], 'symbolic': {k: rec.get(k) for k in ('status', 'label', 'detail')},
                           'real': {k: rec['real'].get(k) for k in ('status', 'label', 'detail', 'where', 'trace')},
                           'how': f'python3 run.py {prop} --replay {path}'}, f, indent=1, default=str)
            print(f'  {name}: {label}  detail={str(rec["real"].get("detail"))[:300]}')
            print(f'  inputs: {json.dumps(rec["values"], default=str)[:600]}')
            print(f'VIOLATION property={prop} replay={os.path.relpath(path, HERE)}')
        rc = 1
    elif any(p[1]['status'] == 'vacuous' for p in problems):
        rc = 2
    for name, rec in problems[:8]:
        print(f'NOTE {name}: {rec["status"]} {rec.get("verdict", "")}: {rec.get("label")}')
        if args.v:
            print('     inputs', json.dumps(rec.get('values'), default=str))
            if rec.get('trace'):
                print(rec['trace'])
            if rec.get('verdict') == 'diverged':
                print('     sym ', json.dumps(rec.get('obs'), default=str))
                print('     real', json.dumps(rec['real'], default=str)[:3000])
    left = [n for n in names if not results[n]['exhausted'] and not results[n]['violations']]
    if left:
        print(f'NOTE time budget reached before exhausting: {", ".join(left)}')
    print(f'{prop} [{args.tier}] paths={tot.paths} assertions={tot.proved} queries={tot.queries} '
          f'solver={tot.solver_s:.1f}s replays={validated} functions={len(tot.functions)} wall={wall:.1f}s '
          f'-> {"VIOLATED" if rc == 1 else "held" if rc == 0 else "NO VERDICT"}')
    return rc


def _z3_version():
    import z3
    return z3.get_version_string()


def replay_file(prop, path):
    from .explore import RealRunner
    with open(path) as f:
        rec = json.load(f)
    r = RealRunner(prop)
    out = r.run(rec['scenario'], rec['bounds'], rec['inputs'])
    r.close()
    print(json.dumps(out, indent=1, default=str))
    return 1 if out['status'] in ('check-failed', 'exception') else 0
