"""C24: pixel iterators, histograms and comparisons.  Every operation of the
property (groups.py) and everything it calls is compared with its reference model."""
from ..groups import members
from ..model import models, run_models


def check(prog, rep):
    rep.floor = 150
    run_models(rep, prog, 'reference', members(models(prog), 'c24'))
