"""C05: each file-to-file operation applies exactly its in-memory operation.  Every operation of the
property (groups.py) is compared with its reference model."""
from ..groups import members
from ..model import models, run_models


def check(prog, rep):
    rep.floor = 100
    run_models(rep, prog, 'reference', members(models(prog), 'c05'), closure=False)
