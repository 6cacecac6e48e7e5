def writeint(offset: int, cnt: int, arr: array, value: int):
    j = cnt - 1
    for i in range(j):
        arr[offset + i] = value & 255
        value = value >> 8


def readint(offset: int, cnt: int, arr: array) -> int:
    j = cnt - 1
    return sum((arr[offset + i] << (i << 3) for i in range(j)))


def int2buf(cnt: int, value: int) -> array:
    return array('B', [value >> i * 8 & 255 for i in range(cnt)])


def buf2int(buf: array) -> int:
    j = len(buf)
    return sum((buf[i] << (i << 3) for i in range(j)))


