from ..model import models, run_models
def check(prog, rep):
    run_models(rep, prog, 'model', sorted(models(prog).fn))
