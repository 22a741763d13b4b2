"""Constant tables of /repo, read from the compiler's AST, and transfer functions for searching them."""
import os, glob
from prog import export, REPO
from absint import *
from iset import ISet
from common import *

NONE = 0xFFFFFFFF
NS = "wordring::whatwg::encoding::"


def flat(x, out):
    if isinstance(x, dict):
        k = x.get("k")
        if k == "Ints":
            out.extend(x["v"])
        elif k == "Int":
            out.append(x["v"])
        else:
            for v in x.get("a", []) if isinstance(x.get("a"), list) else [x.get("a")]:
                flat(v, out)
            if isinstance(x.get("e"), (dict, list)):
                flat(x["e"], out)
    elif isinstance(x, list):
        for v in x:
            flat(v, out)
    return out


def load(pattern):
    """short name -> flat list of integers, for every global with an initialiser in the matching sources"""
    T, where = {}, {}
    for f in sorted(glob.glob(os.path.join(REPO, pattern), recursive=True)):
        p = export(f)
        for q, g in p.globals.items():
            if g.get("init") is not None:
                n = q.rsplit("::", 1)[-1]
                T[n] = flat(g["init"], [])
                where[n] = os.path.relpath(f, REPO)
    return T, where


class Search:
    """hook: lookups in sorted constant vectors and multimaps"""

    def __init__(self, T):
        self.T = T

    def table(self, v):
        if v is not None and v[0] == "ref" and len(v[1]) == 2 and v[1][0] == "g":
            return v[1][1].rsplit("::", 1)[-1]
        return None

    def hook(self, I, st, f, fi, o, args, e):
        n = fi["n"]
        t = self.table(o) if o is not None else None
        if t is not None and t.endswith("_ranges"):
            return self.mm(I, st, t, n, args)
        if t is not None and t in self.T:
            N = len(self.T[t])
            if n in ("begin", "cbegin"):
                return [(st, ("tit", t, C(0)))]
            if n in ("end", "cend"):
                return [(st, ("tit", t, C(N)))]
            if n == "size":
                return [(st, C(N))]
            if n in ("operator[]", "at"):
                k = I.lib.get(I, st, args[0])
                if is_int(k):
                    return self.at(st, t, k)
        allv = ([o] if o is not None else []) + list(args)
        vals = [I.lib.get(I, st, a) for a in allv]
        if n in ("lower_bound", "find") and len(vals) == 3 and vals[0][0] == "tit" and vals[1][0] == "tit" and is_int(vals[2]):
            t, N = vals[0][1], len(self.T[vals[0][1]])
            if vals[0] == ("tit", t, C(0)) and vals[1] == ("tit", t, C(N)):
                cp = vals[2]
                out = []
                s = st.fork()
                out.append((s, ("tit", t, ("call", ("find", t, cp), 0, N - 1))))
                s.meta = dict(s.meta, hit=(t, cp))
                if n == "lower_bound":
                    s = st.fork()
                    k = ("call", ("miss", t, cp), 0, N - 1)
                    s.restrict(sub(("call", ("entry", t, k), 0, NONE), cp), ISet(((1, NONE),)))
                    s.meta = dict(s.meta, hit=None)
                    out.append((s, ("tit", t, k)))
                s = st.fork()
                s.meta = dict(s.meta, hit=None)
                out.append((s, ("tit", t, C(N))))
                return out
        if not any(v[0] in ("tit", "mit") for v in vals):
            return None
        a = vals[0]
        if a[0] == "tit":
            N = len(self.T[a[1]])
            if n in ("operator==", "operator!=") and len(vals) == 2 and vals[1][0] == "tit" and vals[1][1] == a[1]:
                return [(s, r) for s, r in I.compare(st, n[8:], a[2], vals[1][2])]
            if n in ("operator-", "distance") and len(vals) == 2 and vals[1][0] == "tit":
                x, y = (a, vals[1]) if n == "operator-" else (vals[1], a)
                return [(st, sub(x[2], y[2]))]
            if n in ("operator+", "operator-", "next", "prev") and len(vals) == 2 and is_int(vals[1]):
                return [(st, ("tit", a[1], (add if n in ("operator+", "next") else sub)(a[2], vals[1])))]
            if n == "operator+=" and is_int(vals[1]):
                l = allv[0][1]
                st.heap[l] = ("tit", a[1], add(a[2], vals[1]))
                return [(st, allv[0])]
            if n == "operator*":
                return self.at(st, a[1], a[2])
            if n == "operator[]" and is_int(vals[1]):
                return self.at(st, a[1], add(a[2], vals[1]))
        if a[0] == "mit":
            t, i = a[1], a[2]
            if n in ("operator==", "operator!=") and len(vals) == 2 and vals[1][0] == "mit":
                return [(st, C(int((i == vals[1][2]) == (n == "operator=="))))]
            if n in ("operator--", "operator++") and allv[0][0] == "ref":
                w = ("mit", t, i + (1 if n == "operator++" else -1))
                l = allv[0][1]
                st.heap[l] = w
                return [(st, a if len(vals) == 2 else allv[0])]
            if n in ("prev", "next"):
                d = vals[1][1] if len(vals) > 1 and vals[1][0] == "c" else 1
                return [(st, ("mit", t, i + (d if n == "next" else -d)))]
            if n in ("operator*", "operator->"):
                if not 0 <= i < len(self.T[t]) // 2:
                    st.eff += (("out-of-bounds", t),)
                    st.meta = dict(st.meta, oob=True)
                    i = 0
                l = ("mm", t, i)
                st.heap[l + ("first",)] = C(self.T[t][2 * i])
                st.heap[l + ("second",)] = C(self.T[t][2 * i + 1])
                return [(st, ("ref", l) if n == "operator*" else ("ptr", l))]
        return None

    def at(self, st, t, k):
        if st.rng(k).min() < 0 or st.rng(k).max() >= len(self.T[t]):
            st.eff += (("out-of-bounds", t),)
        if k[0] == "call" and k[1][:2] == ("find", t):
            return [(st, k[1][2])]
        return [(st, ("call", ("entry", t, k), 0, NONE))]

    def mm(self, I, st, t, n, args):
        T = self.T[t]
        K = T[0::2]
        if n in ("begin", "cbegin"):
            return [(st, ("mit", t, 0))]
        if n in ("end", "cend"):
            return [(st, ("mit", t, len(K)))]
        if n in ("upper_bound", "lower_bound"):
            k = I.lib.get(I, st, args[0])
            out = []
            lo = -1
            for i in range(len(K) + 1):
                # the answer is i when K[i-1] (<=|<) k (<|<=) K[i]
                a = 0 if i == 0 else K[i - 1] + (0 if n == "upper_bound" else 1)
                b = NONE if i == len(K) else K[i] - (1 if n == "upper_bound" else 0)
                if a > b:
                    continue
                s = st.fork()
                if s.restrict(k, ISet(((a, b),))):
                    out.append((s, ("mit", t, i)))
            return out
        return None
