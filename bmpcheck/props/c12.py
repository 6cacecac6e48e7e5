"""C12: conversions are exact inverses.  Oracle: specs/c12.py (each conversion's own
formula) and, independently, round trips evaluated through the code only.
reference: every operation of the property (groups.py) and everything it calls against its
reference definition."""
from ..groups import members
from ..model import models, run_models
from ..spec import run_specs


def check(prog, rep):
    rep.floor = 50
    run_specs(rep, prog, 'c12', 'conversion')
    run_models(rep, prog, 'reference', members(models(prog), 'c12'))
