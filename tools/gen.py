"""Regenerate properties.jsonl, MANIFEST.json and the property table of DESIGN.md from props/*.py."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from symx import harness  # noqa: E402
from props.not_applicable import NOT_APPLICABLE  # noqa: E402

TECHNIQUE = 'symbolic execution of the real Python code with SMT (z3), counterexamples replayed on real SQLite'
LEVEL_NOTE = ('Every input, choice and fault within the stated bounds is decided by the solver on the real code of '
              '/repo/src; floats are exact reals, SQLite is the validated engine symx/fakesql.py; sampled path models and '
              'all counterexamples are re-run on the real code with real SQLite.')


def main():
    props, checks, sections = [], [], []
    for path in sorted(glob.glob(os.path.join(HERE, 'props', 'C*.py'))):
        pid = os.path.basename(path)[:-3]
        before = dict(harness.SCENARIOS)
        mod = importlib.import_module(f'props.{pid}')
        scen = {k: v for k, v in harness.SCENARIOS.items() if before.get(k) is not v}
        m = mod.META
        assert len(m['title']) <= 80, (pid, len(m['title']))
        props.append({
            'id': pid, 'title': m['title'], 'statement': m['statement'],
            'quantifier': {'over': m['over'], 'text': m['text']}, 'why_tests_cant': m['why'],
            'anchors': {'files': m['files'], 'mechanism': [{'name': n, 'where': w} for n, w in m['mechanism']]}})
        if pid not in NOT_APPLICABLE:
            checks.append({
                'property': pid, 'quick_cmd': f'python3 run.py {pid} --tier quick',
                'thorough_cmd': f'python3 run.py {pid} --tier thorough',
                'evidence_file': f'evidence/{pid}.json', 'technique': TECHNIQUE, 'level': 'model_checking',
                'level_note': LEVEL_NOTE + (' ' + m['note'] if m.get('note') else '')})
        out = [f'### {pid} {m["title"]}', '', m['statement'], '']
        for k, s in scen.items():
            b = ', '.join(f'{n}={v}' for n, v in s.params['quick'].items())
            t = ', '.join(f'{n}={v}' for n, v in s.params['thorough'].items() if s.params['quick'].get(n) != v)
            doc = ' '.join(s.doc.split())
            tail = f' Bounds: {b}.' if b else ''
            tail += f' Thorough: {t}.' if t else ''
            out.append(f'- `{k}`: {doc}{tail}')
        for a in getattr(mod, 'ASSUMPTIONS', []):
            out.append(f'- Assumed: {a}')
        sections.append('\n'.join(out))
    for pid, entry in NOT_APPLICABLE.items():
        if 'prop' in entry:
            props.append(entry['prop'])
    props.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in props:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'python3 run.py --selftest',
        'checks': checks,
        'not_applicable': [{'property': k, 'reason': v['reason']} for k, v in NOT_APPLICABLE.items()],
        'notes': 'No hooks: the code under /repo/src runs unmodified (guard variable not needed). See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write('\n')
    design = os.path.join(HERE, 'DESIGN.md')
    if os.path.exists(design):
        s = open(design).read()
        a, b = '<!-- generated: properties -->', '<!-- end generated -->'
        if a in s:
            s = s[:s.index(a) + len(a)] + '\n\n' + '\n\n'.join(sections) + '\n\n' + s[s.index(b):]
            open(design, 'w').write(s)
    import jsonschema
    schema = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props:
        jsonschema.validate(p, schema)
    jsonschema.validate(manifest, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print(len(props), 'properties', len(checks), 'checks')


main()
