"""Index-linked trees: shape partitions, the representation invariant read off the abstract heap, and a model forest."""
import itertools
from urlrun import *
from c12 import BADEFF
from c13 import drv


def forests(n):
    """every ordered forest of n nodes, as nested tuples"""
    if n == 0:
        return [()]
    out = []
    for k in range(n):                      # first root has k descendants
        for a in forests(k):
            for b in forests(n - 1 - k):
                out.append((a,) + b)
    return out


def name(f, ids):
    """nested tuples -> lists [id, children], ids taken in document order"""
    it = iter(ids)

    def go(x):
        i = next(it)
        return [i, [go(c) for c in x]]
    return [go(x) for x in f]


def copyf(f):
    return [[i, copyf(c)] for i, c in f]


def walk(f, parent=0):
    """(id, parent, siblings list, position)"""
    for k, (i, c) in enumerate(f):
        yield i, parent, f, k
        yield from walk(c, i)


def find(f, i):
    for x in walk(f):
        if x[0] == i:
            return x
    return None


def kids(f, i):
    if i == 0:
        return f
    x = find(f, i)
    return x[2][x[3]][1]


def positions(f):
    """every position: (parent, index), index 0 for the end"""
    yield from ((0, i) for i, _ in f)
    yield (0, 0)
    for i, p, s, k in walk(f):
        for j, _ in s[k][1]:
            yield (i, j)
        yield (i, 0)


def ids(f):
    return [x[0] for x in walk(f)]


def subtree(f, i):
    x = find(f, i)
    return x[2][x[3]]


def ins(f, pos, node):
    p, i = pos
    l = kids(f, p)
    k = len(l) if i == 0 else [x[0] for x in l].index(i)
    l.insert(k, node)


def rem(f, i):
    x = find(f, i)
    return x[2].pop(x[3])


def show(f):
    return " ".join(str(i) + ("{%s}" % show(c) if c else "") for i, c in f)


def partitions(maxn, frees=((), "mid", "two")):
    """(forest over slot numbers, free slots): every shape, with and without free slots between the nodes"""
    for n in range(maxn + 1):
        for f in forests(n):
            yield name(f, range(1, n + 1)), []
            if n:
                yield name(f, [i for i in range(n + 1, 1, -1)]), [1]
            if 1 <= n <= 3:
                yield name(f, [x for x in range(1, n + 3) if x not in (2, n + 1)][:n]) if n > 1 else name(f, [1]), [2, n + 1] if n > 1 else [2, 3]
