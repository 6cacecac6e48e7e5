"""C18: the math helpers satisfy their defining formulas and laws over the real numbers.
formula: each helper against its textbook formula (specs/c18.py).
law: identities between helpers (specs/c18laws.py).
reference: every function of the math library against its reference definition."""
from ..groups import members
from ..model import models, run_models
from ..spec import run_specs, run_laws


def check(prog, rep):
    rep.floor = 150
    run_specs(rep, prog, 'c18', 'formula')
    run_laws(rep, prog, 'c18laws', 'law')
    run_models(rep, prog, 'reference', members(models(prog), 'c18'))
