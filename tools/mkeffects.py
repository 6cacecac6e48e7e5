#!/usr/bin/env python3
"""Writes bmpcheck/tables/effects.json: the confirmed effect signature of every public
function (which parameters it may modify, which outside resources it may touch).  Run by
hand after reviewing a change of the signatures; no check writes this file."""
import json, os, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def main():
    from bmpcheck.loader import Program
    from bmpcheck.effects import Effects
    p = Program()
    E = Effects(p)
    out = {}
    for k, s in sorted(E.sums.items()):
        mod, name = k.rsplit('.', 1)
        if name.startswith('_'):
            continue
        out[k] = {'mut': sorted(s.mut), 'eff': sorted(e for e in s.eff)}
    json.dump(out, open(os.path.join(V, 'bmpcheck', 'tables', 'effects.json'), 'w'), indent=0, sort_keys=True)
    print(len(out))


threading.stack_size(1 << 28)
sys.setrecursionlimit(20000)
t = threading.Thread(target=main)
t.start()
t.join()
