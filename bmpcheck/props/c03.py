"""C03: drawing primitives draw exactly their shape inside the image and nothing else.  Every operation of the
property (groups.py) and everything it calls is compared with its reference model."""
from ..groups import members
from ..model import models, run_models


def check(prog, rep):
    rep.floor = 250
    run_models(rep, prog, 'reference', members(models(prog), 'c03'))
