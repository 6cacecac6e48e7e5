def rotatebitsinbuf(buf: array) -> array:
    return array('B', [rotatebits(b) for b in buf])


def flipnibbleinbuf(buf: array) -> array:
    return array('B', [(b >> 4) + (b % 16 << 4) for b in buf])


def flip24bitbuf(buf: array) -> array:
    buf.reverse()
    RGB2BGRbuf(buf)
    return array('B', buf)


def flipbuf(buf: array, bits: int) -> array:
    if bits == 24:
        buf = flip24bitbuf(buf)
    else:
        buf.reverse()
    if bits == 4:
        buf = flipnibbleinbuf(buf)
    if bits == 1:
        buf = rotatebitsinbuf(buf)
    return buf


