"""Partitioned (disjunctive) abstract interpretation of the exported program.

Integers are canonical linear forms over atoms; the abstract state maps atoms to exact interval sets, so a
branch on an input code point splits the state into the exact sets of code points taking either side.  No
solver is involved: every restriction is an interval-set preimage.  Repo functions are inlined; library
containers are modelled by small transfer functions (lib.py); effects are recorded in order.
"""
import sys
from iset import ISet, EMPTY
from prog import Broken

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class LoopLimit(Exception):
    det = False   # every decision in the second half of the iterations was forced
    same = False  # the loop came back to exactly the same state: it never ends


def loop_state(st):
    return ({k: v for k, v in st.heap.items() if k[0] != "t"}, dict(st.cons), dict(st.meta))


# ----------------------------------------------------------------------------------------------- types
_tc = {}


def tinfo(t):
    r = _tc.get(t)
    if r is None and t not in _tc:
        r = _tinfo(t)
        _tc[t] = r
    return r


def _tinfo(t):
    if t is None:
        return None
    if t == "b1":
        return (0, 1)
    if t.startswith("e:"):
        return _tinfo(t.rsplit(":", 1)[1])
    if t and t[0] in "ui" and t[1:].isdigit():
        w = int(t[1:])
        return (0, (1 << w) - 1) if t[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    return None


# ----------------------------------------------------------------------------------------------- terms
# ('c',n) | atom | ('lin',k,((atom,coef),...))
# atoms: ('s',name,lo,hi) ('mod',t,m) ('div',t,m) ('wrap',t,lo,hi) ('mul',a,b) ('bit',op,a,b) ('call',name,args...)
def C(n):
    return ("c", n)


INT_TAGS = {"c", "s", "lin", "mod", "div", "wrap", "mul", "bit", "call"}


def is_int(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] in INT_TAGS


def sym(name, lo=0, hi=0xFFFFFFFF):
    return ("s", name, lo, hi)


def lin_parts(t):
    if t[0] == "c":
        return t[1], ()
    if t[0] == "lin":
        return t[1], t[2]
    return 0, ((t, 1),)


def mk_lin(k, parts):
    d = {}
    for a, c in parts:
        d[a] = d.get(a, 0) + c
    ps = tuple(sorted(((a, c) for a, c in d.items() if c), key=lambda x: repr(x[0])))
    if not ps:
        return ("c", k)
    if k == 0 and len(ps) == 1 and ps[0][1] == 1:
        return ps[0][0]
    return ("lin", k, ps)


def add(a, b):
    if a[0] == "c" and b[0] == "c":
        return ("c", a[1] + b[1])
    k1, p1 = lin_parts(a)
    k2, p2 = lin_parts(b)
    return mk_lin(k1 + k2, p1 + p2)


def scale(a, n):
    if a[0] == "c":
        return ("c", a[1] * n)
    k, p = lin_parts(a)
    return mk_lin(k * n, tuple((x, c * n) for x, c in p))


def sub(a, b):
    return add(a, scale(b, -1))


# ----------------------------------------------------------------------------------------------- state
class St:
    __slots__ = ("heap", "cons", "eff", "meta")

    def __init__(self, heap=None, cons=None, eff=(), meta=None):
        self.heap = heap if heap is not None else {}
        self.cons = cons if cons is not None else {}
        self.eff = eff
        self.meta = meta if meta is not None else {}

    def fork(self):
        return St(dict(self.heap), dict(self.cons), self.eff, dict(self.meta))

    # ---- ranges
    def rng(self, t):
        k = t[0]
        if k == "c":
            return ISet(((t[1], t[1]),))
        if k == "lin":
            ps = t[2]
            key, kk, g = lin_key(t)
            base = None
            if key in self.cons:
                base = ISet(tuple((a * g + kk, b * g + kk) for a, b in self.cons[key].iv)) if g > 0 else None
            if len(ps) == 1:
                a, c = ps[0]
                r = self.rng(a)
                if c in (1, -1):
                    r = (r if c == 1 else r.neg()).shift(t[1])
                elif r.size() <= 4096:
                    r = ISet.of(*[(v * c + t[1]) for v in r.values()])
                else:
                    lo, hi = r.min() * c + t[1], r.max() * c + t[1]
                    r = ISet(((min(lo, hi), max(lo, hi)),))
            else:
                lo = hi = t[1]
                for a, c in ps:
                    r = self.rng(a)
                    if not r:
                        return EMPTY
                    x, y = r.min() * c, r.max() * c
                    lo += min(x, y)
                    hi += max(x, y)
                r = ISet(((lo, hi),))
            return r if base is None else (r & base)
        r = None
        if k == "s":
            r = ISet(((t[2], t[3]),))
        elif k == "mod":
            b = self.rng(t[1])
            m = t[2]
            out = []
            for lo, hi in b.iv:
                if hi - lo + 1 >= m:
                    out = [(0, m - 1)]
                    break
                x, y = lo % m, hi % m
                if x <= y:
                    out.append((x, y))
                else:
                    out += [(x, m - 1), (0, y)]
            r = ISet.of(*out)
        elif k == "div":
            b = self.rng(t[1])
            r = ISet.of(*[(lo // t[2], hi // t[2]) for lo, hi in b.iv])
        elif k == "wrap":
            b = self.rng(t[1])
            lo, hi = t[2], t[3]
            n = hi - lo + 1
            out = []
            for x, y in b.iv:
                if y - x + 1 >= n:
                    out = [(lo, hi)]
                    break
                p, q = (x - lo) % n + lo, (y - lo) % n + lo
                if p <= q:
                    out.append((p, q))
                else:
                    out += [(p, hi), (lo, q)]
            r = ISet.of(*out)
        elif k == "mul":
            a, b = self.rng(t[1]), self.rng(t[2])
            if not a or not b:
                return EMPTY
            vs = [x * y for x in (a.min(), a.max()) for y in (b.min(), b.max())]
            r = ISet(((min(vs), max(vs)),))
        elif k == "bit":
            a, b = self.rng(t[2]), self.rng(t[3])
            if a and b and a.min() >= 0 and b.min() >= 0:
                if t[1] == "&":
                    r = ISet(((0, min(a.max(), b.max())),))
                else:
                    n = max(a.max(), b.max())
                    r = ISet(((0, (1 << n.bit_length()) - 1),))
            else:
                r = ISet(((-(1 << 64), 1 << 64),))
        elif k == "call":
            r = ISet(((t[-2], t[-1]),))
        c = self.cons.get(t)
        return r if c is None else (r & c)

    # ---- restriction: returns False when infeasible
    def restrict(self, t, S):
        if t[0] == "c":
            return t[1] in S
        key, k, g = lin_key(t)
        # t = k + g*key
        if k or g != 1:
            out = []
            for a, b in S.iv:
                a -= k
                b -= k
                if g < 0:
                    a, b = -b, -a
                gg = abs(g)
                a = -((-a) // gg)
                b = b // gg
                if a <= b:
                    out.append((a, b))
            S = ISet.of(*out)
        if key[0] == "lin":
            r = self.rng(key) & S
            if not r:
                return False
            self.cons[key] = r
            # propagate to single atoms
            ps = key[2]
            if len(ps) == 2:
                for i in (0, 1):
                    a, c = ps[i]
                    o, d = ps[1 - i]
                    ro = self.rng(o)
                    if c in (1, -1) and ro and ro.size() == 1:
                        v = ro.min() * d
                        if not self.restrict(a, ISet.of(*[(lo - v, hi - v) if c == 1 else (v - hi, v - lo) for lo, hi in r.iv])):
                            return False
                    elif c == -1 and ro:
                        lo = min(ro.min() * d, ro.max() * d) - r.max()
                        hi = max(ro.min() * d, ro.max() * d) - r.min()
                        if not self.restrict(a, ISet(((lo, hi),))):
                            return False
                    elif c == 1 and ro:
                        lo = r.min() - max(ro.min() * d, ro.max() * d)
                        hi = r.max() - min(ro.min() * d, ro.max() * d)
                        if not self.restrict(a, ISet(((lo, hi),))):
                            return False
            return True
        return self.restrict_atom(key, S)

    def restrict_atom(self, a, S):
        cur = self.rng(a)
        r = cur & S
        if not r:
            return False
        if r == cur:
            return True
        k = a[0]
        if k == "div":
            m = a[2]
            return self.restrict(a[1], ISet.of(*[(lo * m, hi * m + m - 1) for lo, hi in r.iv]))
        if k in ("mod", "wrap"):
            if k == "mod":
                m, base = a[2], 0
            else:
                m, base = a[3] - a[2] + 1, a[2]
            b = self.rng(a[1])
            n = sum((hi - base) // m - (lo - base) // m + 1 for lo, hi in b.iv)
            if n <= 70000:
                out = []
                for lo, hi in b.iv:
                    for p in range((lo - base) // m, (hi - base) // m + 1):
                        for x, y in r.iv:
                            x2, y2 = max(x + p * m, lo), min(y + p * m, hi)
                            if x2 <= y2:
                                out.append((x2, y2))
                return self.restrict(a[1], ISet.of(*out))
        self.cons[a] = r
        return True


_lk = {}


def lin_key(t):
    """t = k + g*key with key an atom or a constant-free primitive linear form with positive leading coefficient."""
    if t[0] != "lin":
        return t, 0, 1
    r = _lk.get(t)
    if r:
        return r
    from math import gcd
    g = 0
    for _, c in t[2]:
        g = gcd(g, abs(c))
    if t[2][0][1] < 0:
        g = -g
    r = (mk_lin(0, tuple((a, c // g) for a, c in t[2])), t[1], g)
    _lk[t] = r
    return r


# ----------------------------------------------------------------------------------------------- arithmetic
def wrap(st, t, ti):
    if ti is None:
        return t
    lo, hi = ti
    if t[0] == "c":
        n = hi - lo + 1
        return ("c", (t[1] - lo) % n + lo)
    if t[0] == "wrap" and t[2] <= lo <= hi <= t[3] or (t[0] == "wrap" and (t[3] - t[2] + 1) % (hi - lo + 1) == 0):
        t = t[1]
        return wrap(st, t, ti)
    r = st.rng(t)
    if not r:
        return t
    if r.min() >= lo and r.max() <= hi:
        return t
    n = hi - lo + 1
    # single period: shift
    p, q = (r.min() - lo) // n, (r.max() - lo) // n
    if p == q:
        return add(t, C(-p * n))
    # unsigned power of two: a modulo
    if lo == 0:
        return mk_mod(st, t, n)
    return ("wrap", t, lo, hi)


def mk_mod(st, t, m):
    if t[0] == "c":
        return C(t[1] % m)
    k, ps = lin_parts(t)
    while any(a[0] == "mod" and a[2] % m == 0 for a, c in ps):
        t3 = C(k)
        for a, c in ps:
            t3 = add(t3, scale(a[1] if a[0] == "mod" and a[2] % m == 0 else a, c))
        if t3[0] == "c":
            return C(t3[1] % m)
        k, ps = lin_parts(t3)
    ps2 = tuple((a, c) for a, c in ps if c % m)
    t2 = mk_lin(k, ps2)
    if t2[0] == "c":
        return C(t2[1] % m)
    r = st.rng(t2)
    if r and r.min() // m == r.max() // m:
        return add(t2, C(-(r.min() // m) * m))
    k2, ps2 = lin_parts(t2)
    if k2 >= m or k2 < 0:
        t2 = mk_lin(k2 % m, ps2)
        r = st.rng(t2)
        if r and r.min() // m == r.max() // m:
            return add(t2, C(-(r.min() // m) * m))
    if t2[0] == "mod" and t2[2] % m == 0:
        return mk_mod(st, t2[1], m)
    return ("mod", t2, m)


def mk_div(st, t, m):
    """floor division of a non-negative term."""
    if m == 1:
        return t
    if t[0] == "c":
        return C(t[1] // m)
    r = st.rng(t)
    if r and r.min() // m == r.max() // m:
        return C(r.min() // m)
    k, ps = lin_parts(t)
    hi = mk_lin((k // m) * m, tuple((a, c) for a, c in ps if c % m == 0))
    lo = sub(t, hi)
    rl = st.rng(lo)
    if rl and rl.min() >= 0 and rl.max() < m:
        k, ps = lin_parts(hi)
        return mk_lin(k // m, tuple((a, c // m) for a, c in ps))
    if t[0] == "div":
        return mk_div(st, t[1], t[2] * m)
    return ("div", t, m)


def bit_and(st, a, mask):
    """a & mask for a >= 0 (or any a with a known width), mask a non-negative constant."""
    if a[0] == "c":
        return C(a[1] & mask)
    r = st.rng(a)
    if not r:
        return a
    if r.min() < 0:
        n = 1 << max(mask.bit_length(), 1)
        a = mk_mod(st, a, n)
        r = st.rng(a)
        if r.min() < 0:
            return ("bit", "&", a, C(mask))
    out = C(0)
    m = mask & ((1 << max(r.max().bit_length(), 1)) - 1)
    if m == (1 << r.max().bit_length()) - 1 and r.max() > 0:
        return a
    while m:
        lo = (m & -m).bit_length() - 1
        hi = lo
        while m >> hi & 1:
            hi += 1
        p = mk_div(st, a, 1 << lo)
        p = mk_mod(st, p, 1 << (hi - lo))
        out = add(out, scale(p, 1 << lo))
        m &= ~((1 << hi) - 1)
    return out


def gran(t):
    """largest power of two dividing every value of the linear form."""
    k, ps = lin_parts(t)
    g = 0
    from math import gcd
    for _, c in ps:
        g = gcd(g, abs(c))
    g = gcd(g, abs(k))
    return (g & -g) if g else 1 << 62


def arith(st, op, a, b, ti):
    """integer binary operator at type ti; operands already converted to ti. Returns a term or None."""
    if op == "+":
        return wrap(st, add(a, b), ti)
    if op == "-":
        return wrap(st, sub(a, b), ti)
    if op == "*":
        if a[0] == "c":
            return wrap(st, scale(b, a[1]), ti)
        if b[0] == "c":
            return wrap(st, scale(a, b[1]), ti)
        x, y = sorted((a, b), key=repr)
        return wrap(st, ("mul", x, y), ti)
    ra, rb = st.rng(a), st.rng(b)
    if op in ("/", "%") and b[0] == "c" and b[1] > 0 and ra and ra.min() >= 0:
        return mk_div(st, a, b[1]) if op == "/" else mk_mod(st, a, b[1])
    if op in ("/", "%") and a[0] == "c" and b[0] == "c" and b[1]:
        q = abs(a[1]) // abs(b[1])
        q = q if (a[1] < 0) == (b[1] < 0) else -q
        return C(q) if op == "/" else C(a[1] - q * b[1])
    if op == "<<" and b[0] == "c":
        return wrap(st, scale(a, 1 << b[1]), ti)
    if op == ">>" and b[0] == "c":
        if ra and ra.min() >= 0:
            return mk_div(st, a, 1 << b[1])
        return ("div", a, 1 << b[1])
    if op == "&":
        if a[0] == "c":
            a, b = b, a
        if b[0] == "c":
            m = b[1]
            if m < 0 and ti:
                m &= (ti[1] - ti[0])
            return bit_and(st, a, m)
    if op in ("|", "^"):
        if a[0] == "c" and b[0] == "c":
            return C(a[1] | b[1] if op == "|" else a[1] ^ b[1])
        for x, y, ry in ((a, b, rb), (b, a, ra)):
            if ry and ry.min() >= 0 and ry.max() < gran(x):
                return add(x, y)
        if a[0] == "c":
            a, b = b, a
            ra, rb = rb, ra
        if b[0] == "c" and b[1] >= 0 and ra and ra.min() >= 0:
            # a|c = a - (a&c) + c
            n = scale(bit_and(st, a, b[1]), -1 if op == "|" else -2)
            return add(add(a, n), b)
    x, y = (a, b) if op in ("<<", ">>", "/", "%") else sorted((a, b), key=repr)
    return ("bit", op, x, y)


class Path:
    __slots__ = ("st", "kind", "val")

    def __init__(self, st, kind, val=None):
        self.st, self.kind, self.val = st, kind, val


FULL = ISet(((-(1 << 70), 1 << 70),))
ZERO = ISet(((0, 0),))
NONZERO = FULL - ZERO


class Interp:
    LOOP = 70
    soft = None

    def __init__(self, prog, lib=None, maxdepth=40, maxpaths=20000):
        self.p = prog
        self.hooks = []
        self.lib = lib
        self.fresh = 0
        self.frames = 0
        self.maxdepth = maxdepth
        self.maxpaths = maxpaths
        self.depth = 0
        self.stack = []
        self.stat_calls = set()
        self.stat_branches = 0
        self.unknown = set()
        self.lhs = None

    # ------------------------------------------------------------------------------------ helpers
    def newtmp(self):
        self.fresh += 1
        return ("t", self.fresh)

    def newsym(self, base, lo=0, hi=0xFFFFFFFF):
        self.fresh += 1
        return sym("%s#%d" % (base, self.fresh), lo, hi)

    def default(self, st, loc, t):
        """abstract value of a location never written: a symbol named by the location."""
        ti = tinfo(t)
        if ti:
            return sym(loc, *ti)
        if self.lib:
            v = self.lib.default(self, st, loc, t)
            if v is not None:
                return v
        if t and t[0] == "*":
            return ("optr", loc)
        return ("opq", loc)

    def rec(self, t):
        if t and t[0] == "&":
            t = t[1:]
        if t and t[:2] in ("R:", "C:"):
            return self.p.records.get(t[2:])
        return None

    def all_fields(self, rec):
        out = []
        for b in rec["bases"]:
            br = self.p.records.get(b[2:])
            if br:
                out += self.all_fields(br)
        out += [(f["n"], f["t"]) for f in rec["fields"]]
        return out

    def load(self, st, loc, t):
        v = st.heap.get(loc)
        if v is not None:
            return v if v[0] != "sel" else self.lib.sel_get(self, st, v)
        if self.rec(t) is not None:
            return ("ref", loc)
        v = self.default(st, loc, t)
        st.heap[loc] = v
        return v

    def copy(self, st, src, dst, t):
        """copies the object at src to dst."""
        r = self.rec(t)
        v = st.heap.get(src)
        if r is None or v is not None:
            v = v if v is not None else self.load(st, src, t)
            if self.lib is not None and src != dst and v[0] in ("opt", "str", "var"):
                self.lib.assign(self, st, src, dst, v, t)
            else:
                st.heap[dst] = v
            return
        for n, ft in self.all_fields(r):
            if ft and ft[0] == "&":
                st.heap[dst + (n,)] = self.load(st, src + (n,), ft)
            else:
                self.copy(st, src + (n,), dst + (n,), ft)

    def store(self, st, loc, v, t):
        cur = st.heap.get(loc)
        if cur is not None and cur[0] == "sel" and is_int(v):
            self.lib.sel_set(self, st, cur, v)
            return
        if isinstance(v, tuple) and v and v[0] == "ref" and not (t and t[0] in "*&"):
            if self.rec(t) is not None or (v[1] in st.heap) or True:
                self.copy(st, v[1], loc, t)
                return
        st.heap[loc] = v

    def rv(self, st, v, t):
        """rvalue of v (loads through references)."""
        if isinstance(v, tuple) and v and v[0] == "sel":
            return self.lib.sel_get(self, st, v)
        if isinstance(v, tuple) and v and v[0] == "ref" and self.rec(t) is None:
            return self.load(st, v[1], t)
        return v

    def as_loc(self, st, v, t=None):
        if v[0] == "ref":
            return v[1]
        l = self.newtmp()
        st.heap[l] = v
        return l

    # ------------------------------------------------------------------------------------ conditions
    def branch(self, st, v):
        """splits st on the truth of v: list of (st, bool)."""
        self.stat_branches += 1
        if v[0] == "c":
            return [(st, v[1] != 0)]
        if v[0] == "ref":
            v = st.heap.get(v[1], ("opq", v[1]))
        if v[0] in ("ptr", "optr", "mfn", "fn", "lam", "str"):
            if v[0] == "ptr" and v[1] is None:
                return [(st, False)]
            if v[0] == "optr":
                v = ("call", ("nonnull", v), 0, 1)
            else:
                return [(st, True)]
        if not is_int(v):
            v = ("call", ("truth", v), 0, 1)
        out = []
        a = st.fork()
        if a.restrict(v, NONZERO):
            out.append((a, True))
        b = st.fork()
        if b.restrict(v, ZERO):
            out.append((b, False))
        return out

    def compare(self, st, op, a, b):
        """list of (st, ('c',0|1))"""
        if a[0] == "fcast" and b[0] == "c" and abs(b[1]) <= 1 << 53:        # rounding is monotone and exact at b
            a = a[1]
        elif b[0] == "fcast" and a[0] == "c" and abs(a[1]) <= 1 << 53:
            b = b[1]
        if not (is_int(a) and is_int(b)):
            return self.cmp_other(st, op, a, b)
        d = sub(a, b)
        S = {"==": ZERO, "!=": NONZERO, "<": ISet(((-(1 << 70), -1),)), "<=": ISet(((-(1 << 70), 0),)),
             ">": ISet(((1, 1 << 70),)), ">=": ISet(((0, 1 << 70),))}[op]
        if d[0] == "c":
            return [(st, C(1 if d[1] in S else 0))]
        out = []
        x = st.fork()
        if x.restrict(d, S):
            out.append((x, C(1)))
        y = st.fork()
        if y.restrict(d, FULL - S):
            out.append((y, C(0)))
        self.stat_branches += 1
        return out

    def cmp_other(self, st, op, a, b):
        if self.lib:
            r = self.lib.it_cmp(self, st, op, a, b)
            if r is not None:
                return r
        if op in ("==", "!="):
            if a == b:
                return [(st, C(1 if op == "==" else 0))]
            kinds = {a[0], b[0]}
            if kinds <= {"mfn", "fn"} or (kinds <= {"ptr", "mfn", "fn"}) or (("c" in kinds) and kinds & {"mfn", "fn"}):
                return [(st, C(0 if op == "==" else 1))]
            if a[0] == "ptr" and b[0] == "ptr":
                return [(st, C(0 if op == "==" else 1))]
        if any(v[0] in ("flt", "fcast") or v[0] == "opq" and isinstance(v[1], tuple) and len(v[1]) in (2, 3) and v[1][0] in ("+", "-", "*", "/", "pow") for v in (a, b)):
            z = b if a == C(0) else a if b == C(0) else None
            if z is not None and op in ("==", "!="):
                r = self.fzero(st, z)
                if r is not None:
                    return [(s, C(int(t == (op == "==")))) for s, t in r]
            st.eff = st.eff + (("opaque", "float comparison", (a, b)),)
        x, y = a, b
        neg = False
        if op == "!=":
            op, neg = "==", True
        if op == "==":
            x, y = sorted((a, b), key=repr)
        if op == ">":
            op, x, y = "<", b, a
        if op == ">=":
            op, neg = "<", not neg
        if op == "<=":
            op, x, y, neg = "<", b, a, not neg
        out = []
        for s, tv in self.branch(st, ("call", (op, x, y), 0, 1)):
            out.append((s, C(int(tv != neg))))
        return out

    # ------------------------------------------------------------------------------------ expressions
    def evs(self, st, es):
        """evaluates a list of expressions: list of (st, [vals])"""
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(s, e):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def ev(self, st, e):
        if e is None:
            return [(st, ("void",))]
        return getattr(self, "e_" + e["k"])(st, e)

    def evr(self, st, e):
        """evaluates to an rvalue"""
        return [(s, self.rv(s, v, e.get("t"))) for s, v in self.ev(st, e)]

    def e_Int(self, st, e):
        return [(st, C(e["v"]))]

    def e_Str(self, st, e):
        return [(st, ("str", tuple(("chr", C(x)) for x in e["v"])))]

    def e_Flt(self, st, e):
        v = e["v"]
        return [(st, C(int(v)) if v == int(v) and abs(v) < 1 << 53 else ("flt", v))]

    def fzero(self, st, t):
        """whether a floating-point term is zero: list of (st, bool), or None"""
        if is_int(t):
            return [(s, r[1] != 0) for s, r in self.compare(st, "==", t, C(0))]
        if t[0] == "flt":
            return [(st, t[1] == 0)]
        if t[0] == "fcast":
            return self.fzero(st, t[1])
        if t[0] != "opq" or not isinstance(t[1], tuple):
            return None
        x = t[1]
        if len(x) == 2 and x[0] == "-":
            return self.fzero(st, x[1])
        if len(x) == 3 and x[0] == "pow":
            return [(st, False)] if x[1][0] == "c" and x[1][1] > 0 else None
        if len(x) == 3 and (x[0] == "*" or x[0] == "+" and self.fnonneg(st, x[1]) and self.fnonneg(st, x[2])):
            out = []
            r = self.fzero(st, x[1])
            if r is None:
                return None
            for s, z in r:
                if z == (x[0] == "*"):
                    out.append((s, z))
                else:
                    r2 = self.fzero(s, x[2])
                    if r2 is None:
                        return None
                    out += r2
            return out
        return None

    def fnonneg(self, st, t):
        if is_int(t):
            return st.rng(t).min() >= 0
        if t[0] == "flt":
            return t[1] >= 0
        if t[0] == "fcast":
            return self.fnonneg(st, t[1])
        if t[0] != "opq" or not isinstance(t[1], tuple) or len(t[1]) != 3:
            return False
        x = t[1]
        return x[0] in ("+", "*", "/", "pow") and self.fnonneg(st, x[1]) and (x[0] == "pow" or self.fnonneg(st, x[2]))

    def e_Null(self, st, e):
        return [(st, ("ptr", None))]

    def e_Zero(self, st, e):
        ti = tinfo(e["t"])
        if ti:
            return [(st, C(0))]
        if e["t"][0] == "*" or e["t"] in ("mp", "fp"):
            return [(st, ("ptr", None))]
        l = self.newtmp()
        self.zero_init(st, l, e["t"])
        return [(st, ("ref", l))]

    def zero_init(self, st, loc, t):
        ti = tinfo(t)
        if ti:
            st.heap[loc] = C(0)
            return
        r = self.rec(t)
        if r:
            for n, ft in self.all_fields(r):
                self.zero_init(st, loc + (n,), ft)
            return
        if t and (t[0] == "*" or t == "mp"):
            st.heap[loc] = ("ptr", None)
            return
        if self.lib:
            v = self.lib.empty(t)
            if v is not None:
                st.heap[loc] = v

    def e_Fn(self, st, e):
        return [(st, ("fn", e["f"]))]

    def e_MFn(self, st, e):
        return [(st, ("mfn", e["f"]))]

    def frame(self):
        return self.stack[-1]

    def var_loc(self, vid):
        for fr in reversed(self.stack):
            if vid in fr["vars"]:
                return fr["vars"][vid]
            if fr["closed"]:
                break
        # captured variables of lambdas: search outward
        for fr in reversed(self.stack):
            if vid in fr["vars"]:
                return fr["vars"][vid]
        return None

    def e_Ref(self, st, e):
        if "g" in e:
            return self.global_ref(st, e)
        l = self.var_loc(e["id"])
        if l is None:
            l = ("v", 0, e["id"], e["n"])
        v = st.heap.get(l)
        if v is not None and v[0] == "bindref":
            return [(st, ("ref", v[1]))]
        return [(st, ("ref", l))]

    def global_ref(self, st, e):
        q = e["g"]
        loc = ("g", q)
        if loc in st.heap:
            return [(st, ("ref", loc))]
        l = self.var_loc(e["id"])
        if l is not None:
            return [(st, ("ref", l))]
        g = self.p.globals.get(q)
        if g and g.get("init") is not None and not self.is_big(g):
            out = []
            for s, v in self.ev(st, g["init"]):
                self.store(s, loc, v, g["t"])
                out.append((s, ("ref", loc)))
            return out
        return [(st, ("ref", loc))]

    def is_big(self, g):
        return g["init"].get("k") == "Ints" and len(g["init"]["v"]) > 5000

    def e_Mem(self, st, e):
        out = []
        for s, b in self.ev(st, e["b"]):
            out.append((s, self.member(s, b, e["n"], e.get("c"), e["ar"])))
        return out

    def member(self, st, b, n, cls, arrow):
        if arrow:
            b = self.deref(st, b)
        if b[0] == "ref":
            v = st.heap.get(b[1])
            if v is not None and v[0] == "ref":
                b = v
            elif v is not None and v[0] == "alias":
                b = ("ref", v[1])
            if v is not None and self.lib:
                r = self.lib.member(self, st, b[1], v, n)
                if r is not None:
                    return r
            l = b[1] + (n,)
            v = st.heap.get(l)
            if v is not None and v[0] == "bindref":
                return ("ref", v[1])
            return ("ref", l)
        if b[0] in ("opq", "optr", "call"):
            return ("ref", ("o", b, n))
        if self.lib:
            r = self.lib.member(self, st, None, b, n)
            if r is not None:
                return r
        l = self.as_loc(st, b)
        return ("ref", l + (n,))

    def forced(self, st, v):
        y = st.heap.get(v[1]) if v[0] == "ref" else v
        return self.lib.force(self, st, y) if y is not None and y[0] == "itf" else [(st, v)]

    def deref(self, st, v):
        if v[0] == "ref":
            v2 = st.heap.get(v[1])
            if v2 is None:
                return ("ref", ("o", ("optr", v[1]), "*"))
            v = v2
        if v[0] == "ptr":
            if v[1] is None:
                return ("ref", ("null",))
            return ("ref", v[1])
        if v[0] == "optr":
            return ("ref", ("o", v, "*"))
        if self.lib:
            r = self.lib.deref(self, st, v)
            if r is not None:
                return r
        return ("ref", ("o", v, "*"))

    def e_This(self, st, e):
        return [(st, ("ptr", self.frame()["this"]))]

    def e_Ld(self, st, e):
        return [(s, self.rv(s, v, e["t"])) for s, v in self.ev(st, e["e"])]

    def e_Decay(self, st, e):
        """a local array of known contents decays to an iterator at its start"""
        out = []
        for s, v in self.ev(st, e["e"]):
            if v[0] == "ref":
                l, g = v[1], 0
                while l in s.heap and s.heap[l][0] in ("bindref", "alias") and g < 8:
                    l, g = s.heap[l][1], g + 1
                w = s.heap.get(l)
                if w is not None and w[0] == "str" and all(i[0] == "chr" for i in w[1]):
                    v = ("it", l, 0, 0)
            out.append((s, v))
        return out

    def e_Up(self, st, e):
        return self.ev(st, e["e"])

    def e_Cast(self, st, e):
        ti = tinfo(e["t"])
        out = []
        for s, v in self.ev(st, e["e"]):
            v = self.rv(s, v, e["e"].get("t"))
            if e["t"] == "b1":
                out += [(s2, C(int(b))) for s2, b in self.branch(s, v)]
            elif ti and is_int(v):
                out.append((s, wrap(s, v, ti)))
            elif ti:
                out.append((s, ("call", ("cast", e["t"], v), ti[0], ti[1])))
            else:
                out.append((s, self.to_float(s, v)))
        return out

    def to_float(self, st, v):
        """integers a double represents exactly stay themselves"""
        if not is_int(v):
            return v
        r = st.rng(v)
        return v if r and -(1 << 53) <= r.min() and r.max() <= 1 << 53 else ("fcast", v)

    def e_Un(self, st, e):
        op = e["op"]
        t = e["t"]
        if op == "!":
            out = []
            for s, v in self.ev(st, e["e"]):
                v = self.rv(s, v, e["e"].get("t"))
                out += [(s2, C(int(not b))) for s2, b in self.branch(s, v)]
            return out
        if op == "&":
            if e["e"]["k"] == "Fn":
                return [(st, ("mfn", e["e"]["f"]))]
            out = []
            for s, v in self.ev(st, e["e"]):
                out.append((s, ("ptr", self.as_loc(s, v))))
            return out
        if op == "*":
            lhs = e is self.lhs
            out = []
            for s, v in [x for s, v in self.ev(st, e["e"]) for x in self.forced(s, v)]:
                r = None
                if lhs and self.lib:
                    w = s.heap.get(v[1], v) if v[0] == "ref" else v
                    r = self.lib.it_sel(self, s, w)
                out.append((s, r if r is not None else self.deref(s, v)))
            return out
        if op in ("++", "--"):
            out = []
            self.lhs = e["e"]
            res = self.ev(st, e["e"])
            self.lhs = None
            for s, v in res:
                if v[0] == "sel":
                    old = self.lib.sel_get(self, s, v)
                    new = self.bump(s, old, 1 if op == "++" else -1, t)
                    self.lib.sel_set(self, s, v, new)
                    out.append((s, old if e["post"] else new))
                    continue
                if v[0] != "ref":
                    raise Unsupported("++ on non-lvalue")
                old = self.load(s, v[1], t)
                new = self.bump(s, old, 1 if op == "++" else -1, t)
                s.heap[v[1]] = new
                out.append((s, old if e["post"] else v))
            return out
        out = []
        for s, v in self.evr(st, e["e"]):
            ti = tinfo(t)
            if op == "-" and is_int(v):
                out.append((s, wrap(s, scale(v, -1), ti)))
            elif op == "~" and is_int(v):
                out.append((s, wrap(s, sub(C(-1), v), ti)))
            elif op == "+":
                out.append((s, v))
            else:
                out.append((s, ("opq", (op, v))))
        return out

    def bump(self, st, v, d, t):
        if is_int(v):
            return wrap(st, add(v, C(d)), tinfo(t))
        if self.lib:
            r = self.lib.advance(self, st, v, C(d))
            if r is not None:
                return r
        return ("opq", ("bump", v, d))

    def e_Bin(self, st, e):
        op = e["op"]
        if op == "&&" or op == "||":
            out = []
            for s, v in self.ev(st, e["a"]):
                v = self.rv(s, v, e["a"].get("t"))
                for s2, b in self.branch(s, v):
                    if b == (op == "||"):
                        out.append((s2, C(int(b))))
                    else:
                        for s3, w in self.ev(s2, e["b"]):
                            w = self.rv(s3, w, e["b"].get("t"))
                            out += [(s4, C(int(x))) for s4, x in self.branch(s3, w)]
            return out
        if op in ("->*", ".*"):
            return [(s, self.rv(s, v, "mp")) for s, v in self.ev(st, e["b"])]
        if op == ",":
            out = []
            for s, v in self.ev(st, e["a"]):
                out += self.ev(s, e["b"])
            return out
        out = []
        for s, (a, b) in self.evs(st, (e["a"], e["b"])):
            a = self.rv(s, a, e["a"].get("t"))
            b = self.rv(s, b, e["b"].get("t"))
            if op in ("==", "!=", "<", "<=", ">", ">="):
                out += self.compare(s, op, a, b)
            elif a[0] == "itf" or b[0] == "itf":
                for s1, x in (self.lib.force(self, s, a) if a[0] == "itf" else [(s, a)]):
                    for s2, y in (self.lib.force(self, s1, b) if b[0] == "itf" else [(s1, b)]):
                        out.append((s2, self.binop(s2, op, x, y, e["t"])))
            else:
                out.append((s, self.binop(s, op, a, b, e["t"])))
        return out

    def binop(self, st, op, a, b, t):
        ti = tinfo(t)
        if is_int(a) and is_int(b) and ti:
            return arith(st, op, a, b, ti)
        if self.lib:
            r = self.lib.binop(self, st, op, a, b, t)
            if r is not None:
                return r
        if ti:
            return ("call", (op, a, b), ti[0], ti[1])
        if t and is_int(a) and is_int(b) and op in ("+", "-", "*") and t[0] == "f":
            return self.to_float(st, arith(st, op, a, b, (-(1 << 62), 1 << 62)))
        return ("opq", (op, a, b))

    def e_Asg(self, st, e):
        op = e["op"]
        out = []
        for s, b, a in self.ev_asg(st, e):
            t = e["a"].get("t") or e["t"]
            if a[0] == "sel":
                old = self.lib.sel_get(self, s, a)
                if op == "=":
                    v = b
                else:
                    v = self.binop(s, op[:-1], old, b, e.get("ct", t))
                    v = wrap(s, v, tinfo(t)) if is_int(v) else v
                self.lib.sel_set(self, s, a, v)
                out.append((s, v))
                continue
            if a[0] == "bins":
                self.lib.append(self, s, a[1], ("chr", b))
                out.append((s, a))
                continue
            if "dead" in s.meta:
                out.append((s, a))
                continue
            if a[0] != "ref":
                raise Unsupported("assignment to non-lvalue %s" % (str(a)[:80],))
            if op == "=":
                self.store(s, a[1], b, t)
            else:
                old = self.load(s, a[1], t)
                ct = e.get("ct", t)
                cti = tinfo(ct)
                if is_int(old) and is_int(b) and cti:
                    if op[:-1] in ("<<", ">>"):
                        v = arith(s, op[:-1], wrap(s, old, cti), b, cti)
                    else:
                        v = arith(s, op[:-1], wrap(s, old, cti), wrap(s, b, cti), cti)
                    v = wrap(s, v, tinfo(t))
                else:
                    v = self.binop(s, op[:-1], old, b, t)
                s.heap[a[1]] = v
            out.append((s, a))
        return out

    def ev_asg(self, st, e):
        """right operand first; the left one may denote a container element"""
        out = []
        for s, b in self.ev(st, e["b"]):
            b = self.rv(s, b, e["b"].get("t"))
            self.lhs = e["a"]
            for s2, a in self.ev(s, e["a"]):
                out.append((s2, b, a))
            self.lhs = None
        return out

    def e_Cond(self, st, e):
        out = []
        for s, v in self.evr(st, e["c"]):
            for s2, b in self.branch(s, v):
                out += self.ev(s2, e["a"] if b else e["b"])
        return out

    def e_Sub(self, st, e):
        out = []
        for s, (a, b) in self.evs(st, (e["a"], e["b"])):
            b = self.rv(s, b, e["b"].get("t"))
            if a[0] == "ref" and b[0] == "c":
                w = s.heap.get(a[1])
                if w is not None and w[0] == "str" and 0 <= b[1] < len(w[1]) and all(i[0] == "chr" for i in w[1]):
                    out.append((s, ("sel", a[1], b[1])))
                    continue
            out.append((s, self.index(s, a, b, e["t"])))
        return out

    def index(self, st, a, b, t):
        if self.lib:
            r = self.lib.index(self, st, a, b, t)
            if r is not None:
                return r
        base = a
        if a[0] == "ref" and st.heap.get(a[1], ("",))[0] in ("ptr", "optr"):
            base = st.heap[a[1]]
        if base[0] == "ptr" and base[1] is not None:
            base = ("ref", base[1])
        if base[0] == "ref":
            return ("ref", base[1] + (("[]", b),))
        return ("ref", ("o", base, ("[]", b)))

    def e_Lambda(self, st, e):
        return [(st, ("lam", e["f"], self.frame()["this"]))]

    def e_Throw(self, st, e):
        out = []
        for s, v in (self.ev(st, e["e"]) if e["e"] else [(st, ("void",))]):
            s.meta["dead"] = ("throw", v)
            out.append((s, ("void",)))
        return out

    def e_New(self, st, e):
        return [(st, ("ptr", self.newtmp()))]

    def e_Delete(self, st, e):
        return [(s, ("void",)) for s, v in self.ev(st, e["e"])]

    def e_Unk(self, st, e):
        self.unknown.add(e["c"])
        ti = tinfo(e["t"])
        if ti:
            return [(st, self.newsym("unk", *ti))]
        return [(st, ("opq", ("unk", e["c"], e.get("l"))))]

    def e_Ints(self, st, e):
        r = self.rec(e["t"])
        if r:
            l = self.newtmp()
            for (n, t), v in zip(self.all_fields(r), e["v"]):
                st.heap[l + (n,)] = C(v)
            return [(st, ("ref", l))]
        ti = tinfo(e["t"])
        if ti and len(e["v"]) == 1:
            return [(st, C(e["v"][0]))]
        return [(st, ("str", tuple(("chr", C(v)) for v in e["v"])))]

    def e_Init(self, st, e):
        r = self.rec(e["t"])
        out = []
        for s, vs in self.evs(st, e["a"]):
            if r:
                l = self.newtmp()
                fl = self.all_fields(r)
                for (n, t), v, ae in zip(fl, vs, e["a"]):
                    self.store(s, l + (n,), v, t)
                out.append((s, ("ref", l)))
            elif (tinfo(e["t"]) or e["t"][0] == "*" or e["t"] in ("mp", "fp")) and len(vs) <= 1:
                out.append((s, self.rv(s, vs[0], e["a"][0].get("t")) if vs else C(0)))
            elif self.lib:
                out.append((s, self.lib.initlist(self, s, e["t"], vs)))
            else:
                out.append((s, ("opq", ("init", e["t"], tuple(vs)))))
        return out

    # ------------------------------------------------------------------------------------ calls
    def e_Ctor(self, st, e):
        f = e["f"]
        fi = self.p.finfo[f]
        out = []
        for s, args in self.evs(st, e["a"]):
            r = None
            for h in self.hooks:
                r = h(self, s, f, fi, None, args, e)
                if r is not None:
                    break
            if r is not None:
                out += r
                continue
            if self.lib:
                r = self.lib.ctor(self, s, fi, e["t"], args, e)
                if r is not None:
                    out += r
                    continue
            if self.rec(e["t"]) is not None:
                l = self.newtmp()
                out += [(s2, ("ref", l)) for s2 in self.construct(s, f, fi, l, args, e)]
            elif e.get("cp") and len(args) == 1:
                a = args[0]
                out.append((s, self.rv(s, a, e["t"])))
            else:
                out.append((s, ("opq", ("ctor", fi["q"], tuple(self.rv(s, a, "R:?") for a in args)))))
        return out

    def construct(self, st, f, fi, loc, args, e):
        fn = self.p.funcs.get(f)
        if e.get("cp") and len(args) == 1 and (fn is None or fn.get("defaulted") or "body" not in fn):
            self.copy(st, self.as_loc(st, args[0]), loc, e["t"])
            return [st]
        if fn is None:
            self.zero_init(st, loc, e["t"]) if not args else None
            return [st]
        return [p.st for p in self.run(f, st, ("ptr", loc), args, live_only=True)]

    def e_CallX(self, st, e):
        out = []
        c = e["c"]
        for s, vs in self.evs(st, [c] + list(e["a"])):
            fv = vs[0]
            if fv[0] == "ref":
                fv = self.load(s, fv[1], "fp")
            out += self.call_value(s, fv, vs[1:], e)
        return out

    def call_value(self, st, fv, args, e):
        if fv[0] == "lam":
            return self.call(st, fv[1], ("ptr", fv[2]), args, e, lam=True)
        if fv[0] in ("fn", "mfn"):
            return self.call(st, fv[1], None, args, e)
        if fv[0] == "ptr" and fv[1] is not None and st.heap.get(fv[1], ("",))[0] in ("fn", "mfn", "lam"):
            return self.call_value(st, st.heap[fv[1]], args, e)
        for h in self.hooks:
            r = h(self, st, None, {"n": "(*)", "q": "(*)"}, fv, args, e)
            if r is not None:
                return r
        return self.opaque(st, {"q": "(*)", "n": "(*)", "ret": e["t"]}, fv, args, e)

    def e_Call(self, st, e):
        f = e["f"]
        out = []
        es = ([e["o"]] if e["o"] is not None else []) + list(e["a"])
        for s, vs in self.evs(st, es):
            if "dead" in s.meta:
                out.append((s, ("void",)))
                continue
            o = None
            args = vs
            if e["o"] is not None:
                o, args = vs[0], vs[1:]
            out += self.call(s, f, o, args, e)
        return out

    def call(self, st, f, o, args, e, lam=False):
        fi = self.p.finfo[f]
        for h in self.hooks:
            r = h(self, st, f, fi, o, args, e)
            if r is not None:
                return r
        if o is not None and fi["n"] == "operator()":
            ov = o
            if ov[0] == "ref":
                ov = st.heap.get(ov[1], ov)
            if ov[0] in ("lam", "fn", "mfn") and not lam:
                return self.call_value(st, ov, args, e)
        fn = self.p.funcs.get(f)
        if fn is not None and fn.get("body") is not None and self.depth < self.maxdepth:
            if sum(1 for fr in self.stack if fr["f"] == f) < self.rec_limit(fi):
                self.stat_calls.add(f)
                obj = None
                if o is not None:
                    obj = o if o[0] == "ptr" else ("ptr", self.obj_loc(st, o))
                return [(p.st, p.val) for p in self.run(f, st, obj, args, live_only=False)]
        if self.lib:
            r = self.lib.call(self, st, fi, o, args, e)
            if r is not None:
                return r
        if fn is not None and fn.get("defaulted") and fi["n"] == "operator=" and o is not None and args:
            l = self.obj_loc(st, o)
            self.copy(st, self.as_loc(st, args[0]), l, fi["cls"])
            return [(st, ("ref", l))]
        return self.opaque(st, fi, o, args, e)

    def rec_limit(self, fi):
        return 2

    def obj_loc(self, st, o):
        if o[0] == "ref":
            v = st.heap.get(o[1])
            if v is not None and v[0] == "ptr" and v[1] is not None:
                return v[1]
            if v is not None and v[0] == "alias":
                return v[1]
            return o[1]
        if o[0] == "optr":
            return ("o", o, "*")
        return self.as_loc(st, o)

    def opaque(self, st, fi, o, args, e):
        self.unknown.add(fi["q"])
        vs = tuple(self.snap(st, a) for a in ([o] if o is not None else []) + list(args))
        ret = e.get("t", fi.get("ret"))
        st.eff = st.eff + (("opaque", fi["n"], vs),)
        ti = tinfo(ret)
        if ti:
            self.fresh += 1
            return [(st, ("call", (fi["n"], len(st.eff)) + vs, ti[0], ti[1]))]
        if ret == "void":
            return [(st, ("void",))]
        return [(st, ("opq", (fi["n"], len(st.eff)) + vs))]

    def snap(self, st, v):
        if v[0] == "ref":
            return st.heap.get(v[1], v)
        return v

    def run(self, f, st, this, args, live_only=False):
        """analyses function f; returns paths"""
        fn = self.p.funcs[f]
        cfg = self.p.cfg(f)
        self.frames += 1
        fid = self.frames
        fr = {"f": f, "vars": {}, "this": this[1] if this and this[0] == "ptr" else None, "closed": False, "id": fid}
        for i, p in enumerate(fn["params"]):
            l = ("v", fid, p["id"], p["n"])
            fr["vars"][p["id"]] = l
            if i < len(args):
                self.bind(st, l, p["t"], args[i])
        self.stack.append(fr)
        self.depth += 1
        try:
            starts = [st]
            if fn.get("ctor"):
                starts = self.run_inits(fn, st, fr)
            paths = []
            for s in starts:
                paths += self.exec(cfg, s, fr)
        except (Unsupported, RecursionError) as e:
            if not self.soft or self.depth > 1:
                raise
            self.soft(e)
            paths = []
        finally:
            self.stack.pop()
            self.depth -= 1
        if live_only:
            paths = [p for p in paths if True]
        return paths

    def bind(self, st, l, t, v):
        if t and t[0] == "&":
            if v[0] == "ref":
                st.heap[l] = ("bindref", v[1])
            else:
                x = self.newtmp()
                st.heap[x] = v
                st.heap[l] = ("bindref", x)
        else:
            ti = tinfo(t)
            if v[0] in ("ref", "sel"):
                v = self.rv(st, v, t)
            if v[0] == "ref":
                self.copy(st, v[1], l, t)
            else:
                st.heap[l] = v

    def run_inits(self, fn, st, fr):
        states = [st]
        for i in fn["inits"]:
            nxt = []
            for s in states:
                if "n" in i:
                    loc = fr["this"] + (i["n"],)
                    for s2, v in self.ev(s, i["e"]):
                        self.store(s2, loc, v, i["e"].get("t") if i["e"] else None)
                        nxt.append(s2)
                else:
                    e = i["e"]
                    if e and e["k"] == "Ctor":
                        for s2, args in self.evs(s, e["a"]):
                            nxt += self.construct(s2, e["f"], self.p.finfo[e["f"]], fr["this"], args, e)
                    else:
                        nxt.append(s)
            states = nxt
        return states

    # ------------------------------------------------------------------------------------ statements
    def exec(self, cfg, st, fr):
        work = [(cfg.entry, st, {})]
        done = []
        N = cfg.n
        while work:
            ni, st, visits = work.pop()
            if "dead" in st.meta:
                done.append(Path(st, st.meta["dead"][0], st.meta["dead"]))
                continue
            while True:
                if ni in cfg.heads:
                    c = visits.get(ni, 0) + 1
                    if c > self.LOOP:
                        e = LoopLimit("loop at line %s" % N[ni][-1])
                        # no symbolic decision was taken in the second half of the iterations and everything was modelled
                        e.det = visits.get(("c", ni)) == st.cons and not any(x[0] == "opaque" for x in st.eff)
                        h = visits.get(("h", ni))
                        e.same = e.det and h is not None and h == loop_state(st)
                        e.where = self.p.where(fr["f"])
                        if self.soft:
                            self.soft(e)
                            break
                        raise e
                    visits = dict(visits)
                    visits[ni] = c
                    if c == self.LOOP // 2:
                        visits[("c", ni)] = dict(st.cons)
                    if c == self.LOOP - 6:
                        visits[("h", ni)] = loop_state(st)
                    r = self.at_head(cfg, ni, st, fr, c)
                    if r == "stop":
                        done.append(Path(st, "loop", (ni, N[ni][-1])))
                        break
                n = N[ni]
                k = n[0]
                if k == "exit":
                    done.append(Path(st, "ret", ("void",)))
                    break
                if k == "jmp":
                    ni = n[1]
                    continue
                if k == "ret":
                    rt = self.p.finfo[fr["f"]]["ret"]
                    old = self.lhs
                    self.lhs = n[1] if rt[0] == "&" and tinfo(rt[1:]) else None
                    rs = self.ev(st, n[1])
                    self.lhs = old
                    for s, v in rs:
                        if "dead" in s.meta:
                            done.append(Path(s, s.meta["dead"][0], s.meta["dead"]))
                            continue
                        if v[0] in ("ref", "sel") and rt[0] != "&":
                            v = self.rv(s, v, rt)
                            if v[0] == "ref":
                                x = self.newtmp()
                                self.copy(s, v[1], x, rt)
                                v = ("ref", x)
                        done.append(Path(s, "ret", v))
                    break
                if k == "x":
                    res = [(s, n[2]) for s, _ in self.ev(st, n[1])]
                elif k == "decl":
                    res = [(s, n[2]) for s in self.decl(st, n[1], fr)]
                elif k == "br":
                    res = []
                    for s, v in self.evr(st, n[1]):
                        if "dead" in s.meta:
                            res.append((s, n[2]))
                            continue
                        for s2, b in self.branch(s, v):
                            res.append((s2, n[2] if b else n[3]))
                elif k == "sw":
                    res = []
                    for s, v in self.evr(st, n[1]):
                        if not is_int(v):
                            v = ("call", ("sw", v), -(1 << 63), 1 << 63)
                        rest = FULL
                        byt = {}
                        for lo, hi, tgt, _ in n[2]:
                            S = ISet(((lo, hi),)) & rest
                            rest = rest - S
                            byt[tgt] = byt.get(tgt, EMPTY) | S
                        if n[3] is not None:
                            byt[n[3]] = byt.get(n[3], EMPTY) | rest
                        for tgt, S in byt.items():
                            s2 = s.fork()
                            if S and s2.restrict(v, S):
                                res.append((s2, tgt))
                elif k == "rf0":
                    res = []
                    for s, v in self.ev(st, n[2]):
                        l = ("v", fr["id"], "rf", n[1])
                        lc = self.as_loc(s, v)
                        for s2, itv in self.lib.begin(self, s, lc):
                            s2.heap[l] = itv
                            res.append((s2, n[3]))
                elif k == "rft":
                    l = ("v", fr["id"], "rf", n[1])
                    res = []
                    for s, b in self.lib.not_end(self, st, st.heap[l]):
                        res.append((s, n[2] if b else n[3]))
                elif k == "rfb":
                    l = ("v", fr["id"], "rf", n[1])
                    v = n[2]
                    vl = ("v", fr["id"], v["id"], v["n"])
                    fr["vars"][v["id"]] = vl
                    res = []
                    s = st
                    ref = self.deref(s, s.heap[l])
                    if v["t"][0] == "&":
                        s.heap[vl] = ("bindref", self.as_loc(s, ref))
                    else:
                        self.store(s, vl, self.rv(s, ref, v["t"]), v["t"])
                    res.append((s, n[3]))
                elif k == "rfi":
                    l = ("v", fr["id"], "rf", n[1])
                    st.heap[l] = self.lib.advance(self, st, st.heap[l], C(1))
                    res = [(st, n[2])]
                elif k == "unk":
                    self.unknown.add(n[1])
                    res = [(st, n[2])]
                else:
                    raise Unsupported("cfg node " + k)
                if len(res) == 1 and "dead" not in res[0][0].meta:
                    st, ni = res[0]
                    continue
                for s, t in reversed(res):
                    work.append((t, s, visits))
                break
            if len(done) + len(work) > self.maxpaths:
                raise LoopLimit("too many paths in " + self.p.where(fr["f"]))
        return done

    def at_head(self, cfg, ni, st, fr, count):
        return None

    def decl(self, st, v, fr):
        l = ("v", fr["id"], v["id"], v["n"])
        fr["vars"][v["id"]] = l
        out = []
        # a variable re-declared in a later iteration starts afresh
        for k in [k for k in st.heap if k[:len(l)] == l]:
            del st.heap[k]
        if "init" not in v or v["init"] is None:
            out = [st]
        else:
            for s, val in self.ev(st, v["init"]):
                if v["t"][0] == "&":
                    s.heap[l] = ("bindref", self.as_loc(s, val))
                elif tinfo(v["t"]) or v["t"][0] == "*":
                    s.heap[l] = self.rv(s, val, v["t"])
                else:
                    self.store(s, l, val, v["t"])
                out.append(s)
        if "binds" in v:
            for s in out:
                for b in v["binds"]:
                    bl = ("v", fr["id"], b["id"], b["n"])
                    fr["vars"][b["id"]] = bl
                    base = s.heap[l][1] if l in s.heap and s.heap[l][0] == "bindref" else l
                    r = self.rec(v["t"])
                    if r:
                        nm = self.all_fields(r)[b["i"]][0]
                        s.heap[bl] = ("bindref", base + (nm,))
                    else:
                        tv = s.heap.get(base)
                        x = self.lib.tuple_get(self, s, base, tv, b["i"]) if self.lib else None
                        s.heap[bl] = x if x is not None else ("bindref", base + (b["i"],))
        return out
