def intcircleparam(func):

    @wraps(func)
    def callf(*args, **kwargs):
        if (type(args[1]) == int and type(args[2]) == int) and type(args[3]) == int:
            return func(*args, **kwargs)
        else:
            print(sysmsg['inttypereq'])
    return callf


def intcircleparam24bitonly(func):

    @wraps(func)
    def callf(*args, **kwargs):
        if args[0][bmpcolorbits] != 24:
            print(sysmsg['not24bit'])
        elif (type(args[1]) == int and type(args[2]) == int) and type(args[3]) == int:
            return func(*args, **kwargs)
        else:
            print(sysmsg['inttypereq'])
    return callf


def func24bitonly(func):

    @wraps(func)
    def callf(*args, **kwargs):
        if args[0][bmpcolorbits] != 24:
            print(sysmsg['not24bit'])
        else:
            return func(*args, **kwargs)
    return callf


def func24bitonlyandentirerectinboundary(func):

    @wraps(func)
    def callf(*args, **kwargs):
        bmp = args[0]
        x1 = args[1]
        y1 = args[2]
        x2 = args[3]
        y2 = args[4]
        if bmp[bmpcolorbits] != 24:
            print(sysmsg['not24bit'])
        elif (type(x1) == int and type(x2) == int) and (type(y1) == int and type(y2) == int):
            if f(bmp, x1, y1) and f(bmp, x2, y2):
                return func(*args, **kwargs)
            else:
                print(sysmsg['regionoutofbounds'])
        else:
            print(sysmsg['inttypereq'])
    return callf


def func24bitonlyandentirecircleinboundary(func):

    @wraps(func)
    def callf(*args, **kwargs):
        bmp = args[0]
        x = args[1]
        y = args[2]
        r = args[3]
        if bmp[bmpcolorbits] != 24:
            print(sysmsg['not24bit'])
        elif (type(x) == int and type(y) == int) and type(r) == int:
            if entirecircleisinboundary(x, y, -1, readint(bmpx, 4, bmp), -1, readint(bmpy, 4, bmp), r):
                return func(*args, **kwargs)
            else:
                print(sysmsg['regionoutofbounds'])
        else:
            print(sysmsg['inttypereq'])
    return callf


def func8and24bitonlyandentirecircleinboundary(func):

    @wraps(func)
    def callf(*args, **kwargs):
        bmp = args[0]
        x = args[1]
        y = args[2]
        r = args[3]
        if bmp[bmpcolorbits] not in [24, 8]:
            print(sysmsg['not24or8bit'])
        elif (type(x) == int and type(y) == int) and type(r) == int:
            if entirecircleisinboundary(x, y, -1, readint(bmpx, 4, bmp), -1, readint(bmpy, 4, bmp), r):
                return func(*args, **kwargs)
            else:
                print(sysmsg['regionoutofbounds'])
        else:
            print(sysmsg['inttypereq'])
    return callf


def func8and24bitonly(func):

    @wraps(func)
    def callf(*args, **kwargs):
        if args[0][bmpcolorbits] not in [24, 8]:
            print(sysmsg['not24or8bit'])
        else:
            return func(*args, **kwargs)
    return callf


def func4and8bitonly(func):

    @wraps(func)
    def callf(*args, **kwargs):
        if args[0][bmpcolorbits] not in [4, 8]:
            print(sysmsg['not4or8bit'])
        else:
            return func(*args, **kwargs)
    return callf


def func8and24bitonlyandentirerectinboundary(func):

    @wraps(func)
    def callf(*args, **kwargs):
        bmp = args[0]
        x1 = args[1]
        y1 = args[2]
        x2 = args[3]
        y2 = args[4]
        if bmp[bmpcolorbits] not in [24, 8]:
            print(sysmsg['not24or8bit'])
        elif (type(x1) == int and type(x2) == int) and (type(y1) == int and type(y2) == int):
            if f(bmp, x1, y1) and f(bmp, x2, y2):
                return func(*args, **kwargs)
            else:
                print(sysmsg['regionoutofbounds'])
        else:
            print(sysmsg['inttypereq'])
    return callf


def entirerectinboundary(func):

    @wraps(func)
    def callf(*args, **kwargs):
        bmp = args[0]
        x1 = args[1]
        y1 = args[2]
        x2 = args[3]
        y2 = args[4]
        if (type(x1) == int and type(x2) == int) and (type(y1) == int and type(y2) == int):
            if not (f(bmp, x1, y1) and f(bmp, x2, y2)):
                print(sysmsg['regionoutofbounds'])
            else:
                return func(*args, **kwargs)
        else:
            print(sysmsg['inttypereq'])
    return callf


def entirecircleinboundary(func):

    @wraps(func)
    def callf(*args, **kwargs):
        bmp = args[0]
        x = args[1]
        y = args[2]
        r = args[3]
        if (type(x) == int and type(y) == int) and type(r) == int:
            if entirecircleisinboundary(x, y, -1, readint(bmpx, 4, bmp), -1, readint(bmpy, 4, bmp), r):
                return func(*args, **kwargs)
            else:
                print(sysmsg['regionoutofbounds'])
        else:
            print(sysmsg['inttypereq'])
    return callf


