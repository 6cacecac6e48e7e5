def computetextrowandcolcnt(text: str) -> list[int, int]:
    l = text.replace('\t', '    ')
    l = l.split('\n') if text.find('\n') > -1 else [l]
    return [len(max(l, key=len)), len(l)]


def plotbitsastext(bits: int):
    mask = 128
    while mask > 0:
        if mask & bits == 0:
            print(' ', end='')
        else:
            print('*', end='')
        mask >>= 1


def plot8bitpatternastext(bitpattern: list[int], onechar: str, zerochar: str):
    s = ''
    for bits in bitpattern:
        mask = 128
        while mask > 0:
            s += onechar if mask & bits > 0 else zerochar
            mask >>= 1
        s += '\n'
    return s


