"""Which functions of toron no check executes (from the evidence files)."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seen = set()
for f in glob.glob(os.path.join(HERE, 'evidence', 'C*.json')):
    seen |= set(json.load(open(f))['coverage']['functions_encoded'])
SRC = '/repo/src/toron'


def walk(node, pre):
    for n in ast.iter_child_nodes(node):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield '.'.join(pre + [n.name]), n
            yield from walk(n, pre + [n.name, '<locals>'])
        elif isinstance(n, ast.ClassDef):
            yield from walk(n, pre + [n.name])
        else:
            yield from walk(n, pre)


tot = miss = 0
for path in sorted(glob.glob(SRC + '/**/*.py', recursive=True)):
    mod = os.path.relpath(path, SRC)
    out = []
    for name, n in walk(ast.parse(open(path).read()), []):
        tot += 1
        if f'toron/{os.path.relpath(path, SRC)}:{name}' not in seen:
            miss += 1
            out.append(f'{name}({n.end_lineno - n.lineno + 1})')
    if out:
        print(mod, ' '.join(out))
print(tot, 'functions', miss, 'not executed')
