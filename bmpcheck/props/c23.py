"""C23: the paint program opens the file it was asked to open.
launch: the module body (everything the program does when started, functions it calls
expanded) compared with its reference definition: the programs it runs with which
arguments and in which order, its messages and its exits, for every platform.
reference: each function of the program against its reference definition.
no-write: no call in the program creates, changes, renames or removes a file."""
import ast

from ..groups import members
from ..loader import where, Broken
from ..model import models, run_models
from ..spec import agree, effects_of, Ctx
from ..query import spec_fn
from ..terms import mk

WRITES = {'open', 'write_text', 'write_bytes', 'unlink', 'rename', 'replace', 'touch', 'mkdir', 'rmdir', 'symlink_to', 'hardlink_to',
          'remove', 'removedirs', 'rmtree', 'copy', 'copyfile', 'copy2', 'move', 'truncate', 'makedirs', 'link_to', 'system', 'popen'}


def check(prog, rep):
    rep.floor = 5
    run_models(rep, prog, 'reference', members(models(prog), 'c23'))
    m = prog.mods['mspaint']
    body = [n for n in m.tree.body if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))
            and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
    out = []
    for n in body:
        t = n.test if isinstance(n, ast.If) else None
        if t is not None and ast.unparse(t) in ("__name__ == '__main__'", "'__main__' == __name__"):
            out += n.body
        else:
            out.append(n)
    code = 'def main():\n' + '\n'.join('    ' + l for n in out for l in ast.unparse(n).split('\n'))
    M = models(prog)
    agree(rep, prog, 'launch', None, ast.unparse(M.program), lambda it, st: Ctx([]), 'mspaint.py',
          opaque={'determine_file', 'is_in_pytest'}, effects=effects_of(prog), mod='mspaint', code=code,
          at='mspaint.py:%d' % (body[0].lineno if body else 1), ignore=('$clock',), extlog=True, ret=False)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
            w = where('mspaint', n)
            if nm in WRITES and not (nm == 'replace' and len(n.args) == 2) and not (
                    nm == 'open' and len(n.args) + len(n.keywords) == 1):
                rep.bad('no-write', 'call of ' + nm, w, 'the paint program calls %s, which can change files' % ast.unparse(f))
            else:
                rep.ok('no-write', 'call of %s at line %d' % (nm, n.lineno), w)
