"""Exact integer sets as sorted disjoint closed intervals."""


class ISet:
    __slots__ = ("iv", "_h")

    def __init__(self, iv=()):
        self.iv = tuple(iv)
        self._h = None

    @staticmethod
    def of(*parts):
        """parts: ints, (lo,hi) pairs, ISets, or strings (their characters)."""
        out = []
        for p in parts:
            if isinstance(p, int):
                out.append((p, p))
            elif isinstance(p, str):
                out.extend((ord(c), ord(c)) for c in p)
            elif isinstance(p, ISet):
                out.extend(p.iv)
            else:
                if p[0] <= p[1]:
                    out.append((p[0], p[1]))
        return ISet(_norm(out))

    def __bool__(self):
        return bool(self.iv)

    def __eq__(self, o):
        return isinstance(o, ISet) and self.iv == o.iv

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.iv)
        return self._h

    def __and__(self, o):
        a, b = self.iv, o.iv
        i = j = 0
        out = []
        while i < len(a) and j < len(b):
            lo = a[i][0] if a[i][0] > b[j][0] else b[j][0]
            hi = a[i][1] if a[i][1] < b[j][1] else b[j][1]
            if lo <= hi:
                out.append((lo, hi))
            if a[i][1] < b[j][1]:
                i += 1
            else:
                j += 1
        return ISet(out)

    def __or__(self, o):
        return ISet(_norm(list(self.iv) + list(o.iv)))

    def __sub__(self, o):
        out = []
        b = o.iv
        for lo, hi in self.iv:
            cur = lo
            for x, y in b:
                if y < cur:
                    continue
                if x > hi:
                    break
                if x > cur:
                    out.append((cur, x - 1))
                cur = max(cur, y + 1)
                if cur > hi:
                    break
            if cur <= hi:
                out.append((cur, hi))
        return ISet(out)

    def shift(self, k):
        return ISet((a + k, b + k) for a, b in self.iv)

    def neg(self):
        return ISet(tuple((-b, -a) for a, b in reversed(self.iv)))

    def size(self):
        return sum(b - a + 1 for a, b in self.iv)

    def min(self):
        return self.iv[0][0]

    def max(self):
        return self.iv[-1][1]

    def single(self):
        return self.iv[0][0] if len(self.iv) == 1 and self.iv[0][0] == self.iv[0][1] else None

    def subset(self, o):
        return not (self - o)

    def __contains__(self, n):
        return any(a <= n <= b for a, b in self.iv)

    def values(self):
        for a, b in self.iv:
            yield from range(a, b + 1)

    def __repr__(self):
        return self.show()

    def show(self, lim=12):
        def c(n):
            return ("-0x%X" % -n) if n < 0 else "0x%X" % n
        s = ",".join(c(a) if a == b else c(a) + "-" + c(b) for a, b in self.iv[:lim])
        return "{" + s + (",...%d more" % (len(self.iv) - lim) if len(self.iv) > lim else "") + "}"


def _norm(l):
    l = sorted(l)
    out = []
    for a, b in l:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


EMPTY = ISet()
CP = ISet.of((0, 0x10FFFF))
