def checklink(func: Callable):

    @wraps(func)
    def callf(*args, **kwargs):
        if isfile(args[0]):
            return func(*args, **kwargs)
        else:
            print(sysmsg['filenotexist'])
    return callf


def checklinks(func: Callable):

    @wraps(func)
    def callf(*args, **kwargs):
        if isfile(args[0]) and isfile(args[1]):
            return func(*args, **kwargs)
        else:
            print(sysmsg['filenotexist'])
    return callf


