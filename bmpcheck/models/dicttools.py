def dict2descorderlist(d: dict) -> list:
    l = [[v, k] for k, v in d.items()]
    l.sort()
    l.reverse()
    return l


