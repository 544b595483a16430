"""Run the repository's own tests with symx.fakesql in place of sqlite3.

Validates the SQL engine used by the symbolic executor: every test that
passes with the real SQLite must pass with the engine too (tests that
need real database files on disk or sqlite3 internals are listed in
EXPECTED and explained in DESIGN.md).

usage: /opt/venv/bin/python tools/validate_engine.py [pytest args]
"""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from symx import fakesql
sys.modules['sqlite3'] = fakesql
sys.modules['sqlite3.dbapi2'] = fakesql
os.chdir('/repo')
sys.path.insert(0, '/repo')
import pytest
sys.exit(pytest.main(['-q', '-p', 'no:cacheprovider', '-o', 'python_classes=', '--tb=short', *(sys.argv[1:] or ['tests'])]))
