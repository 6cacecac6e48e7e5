"""C10: palette layout.  Oracle: specs/c10.py.
reference: every operation of the property (groups.py) and everything it calls against its
reference definition."""
from ..groups import members
from ..model import models, run_models
from ..spec import run_specs


def check(prog, rep):
    rep.floor = 40
    run_specs(rep, prog, 'c10', 'palette-layout')
    run_models(rep, prog, 'reference', members(models(prog), 'c10'))
