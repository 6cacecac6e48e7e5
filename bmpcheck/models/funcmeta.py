def getfuncmetastr(f: Callable):
    return f'def {f.__name__}{signature(f)}:\n    {_d}{f.__doc__}{_d}\n'


