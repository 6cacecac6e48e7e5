"""C02: header consistency of new and copied images.  Oracle: specs/c02.py.
reference: every operation of the property (groups.py) and everything it calls against its
reference definition."""
from ..groups import members
from ..model import models, run_models
from ..spec import run_specs


def check(prog, rep):
    rep.floor = 40
    run_specs(rep, prog, 'c02', 'image-header')
    run_models(rep, prog, 'reference', members(models(prog), 'c02'))
