"""Create and verify planted bugs.

plant.new(id, property, needs, breaks, edits, demo) writes seeded/<id>/; `verify(ids)` applies each patch to /repo, runs
the stable tests, the demo (before and after) and optionally the property's quick check, and reverts."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SEEDED = os.path.join(HERE, 'seeded')
DEMO_SH = '#!/bin/sh\nexport PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def new(id, prop, needs, breaks, edits, demo):
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    try:
        for side in 'ab':
            os.makedirs(os.path.join(tmp, side))
        files = {}
        for path, old, text in edits:
            src = files.get(path) or open(os.path.join(REPO, path)).read()
            assert src.count(old) == 1, (id, path, src.count(old), old)
            files[path] = src.replace(old, text)
        diff = ''
        for path, text in files.items():
            with open(os.path.join(tmp, 'new'), 'w') as f:
                f.write(text)
            r = subprocess.run(['git', 'diff', '--no-index', os.path.join(REPO, path), os.path.join(tmp, 'new')],
                               capture_output=True, text=True)
            body = r.stdout[r.stdout.index('\n@@') + 1:]
            diff += f'diff --git a/{path} b/{path}\n--- a/{path}\n+++ b/{path}\n{body}'
        with open(os.path.join(d, 'patch.diff'), 'w') as f:
            f.write(diff)
    finally:
        shutil.rmtree(tmp)
    with open(os.path.join(d, 'demo.py'), 'w') as f:
        f.write(demo.lstrip('\n'))
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write(DEMO_SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    with open(os.path.join(d, 'meta.json'), 'w') as f:
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, f, indent=1)
        f.write('\n')


def demo(d):
    return subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=REPO, capture_output=True, text=True, timeout=300)


def verify(id, tests=True, check=True, props=None):
    d = os.path.join(SEEDED, id)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    out = {'id': id, 'property': meta['property']}
    assert subprocess.run(['git', '-C', REPO, 'status', '--porcelain'], capture_output=True, text=True).stdout == ''
    r = demo(d)
    out['demo clean'] = r.returncode
    if r.returncode:
        print(r.stdout[-800:], r.stderr[-1500:])
    subprocess.run(['git', '-C', REPO, 'apply', os.path.join(d, 'patch.diff')], check=True)
    try:
        r = demo(d)
        out['demo patched'] = r.returncode
        out['demo says'] = (r.stdout + r.stderr).strip().splitlines()[-1:]
        if tests:
            subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True)
            subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/plant-out.json'], capture_output=True)
            got = json.load(open('/tmp/plant-out.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            out['broken tests'] = missing(base, got)
        if check:
            for p in props or [meta['property']]:
                r = subprocess.run([sys.executable, 'run.py', p, '--tier', 'quick'], cwd=HERE, capture_output=True, text=True)
                out[f'check {p}'] = (r.returncode, [x for x in r.stdout.splitlines() if 'VIOLATION' in x or 'detail' in x][:2],
                                     r.stdout.splitlines()[-1:])
    finally:
        subprocess.run(['git', '-C', REPO, 'checkout', '--', '.'], check=True)
    bad = out['demo clean'] or not out['demo patched'] or out.get('broken tests')
    print(('BAD ' if bad else 'ok  ') + json.dumps(out, indent=1))
    return out


def missing(base, got):
    def passed(x):
        for k in ('stable', 'passed', 'pass', 'tests'):
            if isinstance(x, dict) and k in x:
                v = x[k]
                return set(v) if not isinstance(v, dict) else {t for t, r in v.items() if r in (True, 'passed', 'pass')}
        raise RuntimeError(list(x)[:5])
    return sorted(passed(base) - passed(got))[:10]


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    for i in args or sorted(os.listdir(SEEDED)):
        verify(i, tests='--no-tests' not in sys.argv, check='--no-check' not in sys.argv)
