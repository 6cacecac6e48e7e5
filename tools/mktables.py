#!/usr/bin/env python3
"""Writes bmpcheck/tables/literals.json, the reviewed built-in tables (run by hand; no check writes it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
from bmpcheck.loader import Program
from bmpcheck.spec import effects_of
from bmpcheck.props.c14 import TABLES, table
p = Program()
e = effects_of(p)
json.dump({'%s.%s' % (m, n): table(p, m, n, e)[0] for m, n in TABLES}, open(V + '/bmpcheck/tables/literals.json', 'w'), separators=(',', ':'), sort_keys=True)
