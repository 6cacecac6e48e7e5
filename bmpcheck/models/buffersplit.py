def altsplitbuf(buf: list[any]) -> list[any]:
    m = len(buf)
    if m % 2 == 0:
        m -= m & 1
    return [buf[:m - 1:2], buf[1:m:2]]


def altsplitbuf3way(buf: list[any]) -> list[any]:
    m = len(buf)
    return [buf[:m - 2:3], buf[1:m - 1:3], buf[2:m:3]]


def altsplitbufnway(buf: list[any], n: int) -> list[any]:
    retval = []
    m = len(buf)
    j = n - 1
    for i in range(n):
        retval += [buf[i:m - j:n]]
        j -= 1
    return retval


