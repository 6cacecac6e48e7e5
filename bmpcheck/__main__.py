import importlib
import os
import sys
import threading
import argparse


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only', default=None)
    a = ap.parse_args()
    from .loader import Program, Broken
    from .report import Report
    from . import ri
    rep = Report(a.prop.upper(), a.tier)
    rep.only = a.only
    if a.tier == 'thorough':
        ri.DEPTH[0] = 4.0
    try:
        prog = Program()
        rep.info['source_sha256'] = prog.digest()
        rep.info['functions_in_scope'] = sum(1 for _ in prog.funcs())
        m = importlib.import_module('bmpcheck.props.' + a.prop.lower())
        m.check(prog, rep)
    except Broken as e:
        print('BROKEN: %s' % e)
        return 2
    return rep.finish()


if os.environ.get('PYTHONHASHSEED') != '0':
    # the same analysis in the same order on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-m', 'bmpcheck'] + sys.argv[1:])


def _run():
    global RC
    try:
        RC = main()
    except SystemExit as e:
        RC = e.code
    except BaseException:
        import traceback
        traceback.print_exc()
        RC = 3


if __name__ == '__main__':
    sys.setrecursionlimit(30000)
    threading.stack_size(512 * 1024 * 1024)
    RC = 3
    t = threading.Thread(target=_run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(RC or 0)
