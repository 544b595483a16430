#!/usr/bin/env python3
"""Decide one property: run.py PROPERTY [--tier quick|thorough] [--scenario NAME]..."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'


def reexec():
    want = dict(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    py = VT if os.path.exists(VT) else 'python3-vt'
    if os.environ.get('SYMX_CHILD') != '1':
        env = dict(os.environ, SYMX_CHILD='1', **want)
        env.pop('PYTHONPATH', None)
        os.execvpe(py, [py, os.path.join(HERE, 'run.py'), *sys.argv[1:]], env)


if __name__ == '__main__':
    reexec()
    sys.path.insert(0, HERE)
    if sys.argv[1:] == ['--selftest']:
        from symx.selftest import main
    else:
        from symx.main import main
    sys.exit(main())
