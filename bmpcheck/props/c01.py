"""C01: single pixel set/get follow the byte layout.  Oracle: specs/c01.py.
reference: every operation of the property (groups.py) and everything it calls against its
reference definition."""
from ..groups import members
from ..model import models, run_models
from ..spec import run_specs


def check(prog, rep):
    rep.floor = 30
    run_specs(rep, prog, 'c01', 'pixel-layout')
    run_models(rep, prog, 'reference', members(models(prog), 'c01'))
