def getdatalisttotal(dlist: list[Number]) -> Number:
    return sum((d[0] for d in dlist))


def genpiechartdata(dlist: list):
    sa = 0
    tot = getdatalisttotal(dlist)
    alist = []
    big = -1
    for d in dlist:
        p = d[0] / tot
        ea = sa + p * 360
        p *= 100
        alist.append([sa, ea, d[1], d[0], p])
        if p >= 50:
            big = dlist.index(d)
        sa = ea
    return (alist, big)


