"""One-off transcription of function bodies into bmpcheck/models (docstrings dropped).
The models are then reviewed and corrected by hand; this tool refuses to overwrite a
function that already has a model."""
import ast, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from bmpcheck.loader import Program
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'bmpcheck', 'models')
prog = Program()
for mod, m in prog.mods.items():
    fs = [n for n in m.tree.body if isinstance(n, ast.FunctionDef)]
    if not fs:
        continue
    p = os.path.join(OUT, mod + '.py')
    have = set()
    if os.path.exists(p):
        have = {n.name for n in ast.parse(open(p).read()).body if isinstance(n, ast.FunctionDef)}
    with open(p, 'a') as f:
        for n in fs:
            if n.name in have:
                continue
            for x in ast.walk(n):
                if isinstance(x, ast.FunctionDef) and ast.get_docstring(x) is not None:
                    x.body = x.body[1:] or [ast.Pass()]
            f.write(ast.unparse(n) + '\n\n\n')
