def enumletters(st: str) -> str:
    c = len(st)
    for i in range(c):
        yield st[i:i + 1]


def enumreverseletters(st: str) -> str:
    i = len(st) - 1
    while i > -1:
        yield st[i:i + 1]
        i -= 1


def char2int(charcodestr: str) -> int:
    place = strhash = 0
    for c in enumletters(charcodestr):
        strhash += ord(c) * 256 ** place
        place += 1
    return strhash


