"""Exhaustive enumeration of expression trees."""
import functools, itertools


def trees(n, leaves, binops, unops=(), methods=()):
    """Every tree with exactly n operators. methods: (name, number of arguments)."""
    leaves, binops, unops, methods = tuple(leaves), tuple(binops), tuple(unops), tuple(methods)

    @functools.lru_cache(None)
    def go(k):
        if k == 0:
            return leaves
        out = []
        for u in unops:
            for e in go(k - 1):
                out.append(("un", u, e))
        for m, na in methods:
            for split in splits(k - 1, na + 1):
                for parts in itertools.product(*[go(s) for s in split]):
                    out.append(("call", parts[0], m, tuple(parts[1:])))
        for i in range(k):
            for l in go(i):
                for r in go(k - 1 - i):
                    for b in binops:
                        out.append(("bin", b, l, r))
        return out

    return go(n)


def splits(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for rest in splits(n - i, k - 1):
            yield (i,) + rest


def upto(n, *a, **k):
    for i in range(n + 1):
        yield from trees(i, *a, **k)


NUM = lambda s: ("num", s)
VAR = lambda s: ("path", s)
