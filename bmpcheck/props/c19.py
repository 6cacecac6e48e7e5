"""C19: outlines are symmetric, centred and complete.  Every point generator and everything
it calls is compared with its reference definition (symmetric by construction)."""
from ..groups import members
from ..model import models, run_models


def check(prog, rep):
    rep.floor = 100
    run_models(rep, prog, 'reference', members(models(prog), 'c19'))
