"""C22: region operations touch exactly their region.  Every region and whole-image
operation and everything it calls is compared with its reference definition."""
from ..groups import members
from ..model import models, run_models


def check(prog, rep):
    rep.floor = 150
    run_models(rep, prog, 'reference', members(models(prog), 'c22'))
