"""Running a specification over an abstract path.

A specification is ordinary Python over terms; every question it asks is answered by the path's constraint
store, and a question the store leaves open splits the path (both answers are explored).  Term equality is
decided by canonical form, then by range, then by exhaustive evaluation over the finite domains of the atoms.
"""
from absint import C, sub, add, scale, is_int, lin_parts, mk_lin, mk_mod, mk_div
from iset import ISet
import itertools

LIMIT = 400000


class Infeasible(Exception):
    pass


class Undecided(Exception):
    pass


class Oracle:
    def __init__(self, st, dec):
        self.st = st
        self.dec = dec
        self.i = 0
        self.alts = []

    def isin(self, t, *ivs):
        S = ISet.of(*ivs)
        r = self.st.rng(t)
        if not r:
            raise Infeasible()
        k = r & S
        if not k:
            return False
        if k == r:
            return True
        return self.choose(lambda st: st.restrict(t, S), lambda st: st.restrict(t, ISet(((-(1 << 70), 1 << 70),)) - S))

    def choose(self, yes, no):
        if self.i < len(self.dec):
            d = self.dec[self.i]
        else:
            d = True
            self.alts.append(self.dec[:self.i] + [False])
            self.dec = self.dec + [True]
        self.i += 1
        if not (yes if d else no)(self.st):
            raise Infeasible()
        return d

    def eq(self, a, b):
        return self.isin(sub(a, b), (0, 0))

    def true(self, t):
        return not self.isin(t, (0, 0))

    def mod(self, t, m):
        return mk_mod(self.st, t, m)

    def div(self, t, m):
        return mk_div(self.st, t, m)


def outcomes(st, spec):
    """list of (st, result of spec) over the splits of st that spec asks for"""
    out = []
    work = [[]]
    while work:
        dec = work.pop()
        o = Oracle(st.fork(), dec)
        try:
            r = spec(o)
            out.append((o.st, r))
        except Infeasible:
            pass
        work += o.alts
        if len(out) > 5000:
            raise Undecided("too many specification paths")
    return out


# ------------------------------------------------------------------------------------ terms
def subst(t, f):
    """replaces base atoms ('s' and 'call') by f(atom)"""
    k = t[0]
    if k == "c":
        return t
    if k in ("s", "call"):
        return f(t)
    if k == "lin":
        r = C(t[1])
        for a, c in t[2]:
            r = add(r, scale(subst(a, f), c))
        return r
    if k in ("mod", "div"):
        return (k, subst(t[1], f), t[2])
    if k == "wrap":
        return (k, subst(t[1], f), t[2], t[3])
    if k == "mul":
        return (k, subst(t[1], f), subst(t[2], f))
    if k == "bit":
        return (k, t[1], subst(t[2], f), subst(t[3], f))
    return t


def atoms(t, out=None):
    out = [] if out is None else out

    def f(a):
        if a not in out:
            out.append(a)
        return a
    subst(t, f)
    return out


def evalt(t, env):
    k = t[0]
    if k == "c":
        return t[1]
    if k in ("s", "call"):
        return env[t]
    if k == "lin":
        return t[1] + sum(evalt(a, env) * c for a, c in t[2])
    if k == "mod":
        return evalt(t[1], env) % t[2]
    if k == "div":
        return evalt(t[1], env) // t[2]
    if k == "wrap":
        n = t[3] - t[2] + 1
        return (evalt(t[1], env) - t[2]) % n + t[2]
    if k == "mul":
        return evalt(t[1], env) * evalt(t[2], env)
    if k == "bit":
        a, b = evalt(t[2], env), evalt(t[3], env)
        op = t[1]
        return {"&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b,
                "/": lambda: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1) if b else 0, "%": lambda: a - b * (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)) if b else 0}[op]()
    raise Undecided("term %r" % (k,))


def bound(st, t):
    """an interval of t, through the constraints on linear sub-terms as well as on the atoms"""
    r = st.rng(t)
    lo, hi = r.min(), r.max()
    if t[0] != "lin":
        return lo, hi
    for k, S in st.cons.items():
        if k[0] != "lin" or not S:
            continue
        ka, ta = dict(k[2]), dict(t[2])
        x = next(iter(ka))
        if x not in ta or ta[x] % ka[x]:
            continue
        c = ta[x] // ka[x]
        rest = sub(t, scale(k, c))
        if len(atoms(rest)) >= len(ta):
            continue
        l2, h2 = bound(st, rest) if rest[0] != "c" else (rest[1], rest[1])
        e = sorted((S.min() * c, S.max() * c))
        lo, hi = max(lo, l2 + e[0]), min(hi, h2 + e[1])
    return lo, hi


def teq(st, a, b):
    """True, False (with some model), or None when neither can be shown"""
    if a == b:
        return True
    if not (is_int(a) and is_int(b)):
        return None
    d = sub(a, b)
    if d == C(0):
        return True
    r = st.rng(d)
    if r and 0 not in r:
        return False
    if r and r.size() == 1:
        return True
    for x, y in ((a, b), (b, a)):
        if x[0] == "mod" and y[0] != "mod":
            k = sub(x[1], y)
            if k[0] == "c" and k[1] % x[2] == 0:
                lo, hi = bound(st, y)
                if 0 <= lo and hi < x[2]:
                    return True
    at = atoms(d)
    # constraints over compound terms bring their atoms along
    cons = []
    ch = True
    while ch:
        ch = False
        for k, S in st.cons.items():
            if k[0] in ("s", "call") or (k, S) in cons:
                continue
            ka = atoms(k)
            if any(x in at for x in ka):
                cons.append((k, S))
                for x in ka:
                    if x not in at:
                        at.append(x)
                ch = True
    n = 1
    for x in at:
        n *= max(st.rng(x).size(), 1)
    if n > LIMIT:
        # a single sampled difference is enough to refute; try corner values of every atom
        doms = []
        for x in at:
            rr = st.rng(x)
            doms.append(sorted({v for iv in rr.iv[:8] for v in (iv[0], iv[1], (iv[0] + iv[1]) // 2)}))
        m = 1
        for dd in doms:
            m *= len(dd)
        if m > LIMIT:
            return None
        for vs in itertools.product(*doms):
            env = dict(zip(at, vs))
            if all(evalt(k, env) in S for k, S in cons) and evalt(d, env) != 0:
                return False
        return None
    found = False
    for vs in itertools.product(*[list(st.rng(x).values()) for x in at]):
        env = dict(zip(at, vs))
        if all(evalt(k, env) in S for k, S in cons):
            found = True
            if evalt(d, env) != 0:
                return False
    return True if found else None


def model(st, ts):
    """a readable example of the path"""
    out = []
    for t in ts:
        r = st.rng(t)
        out.append("%s in %s" % (nm(t), r))
    return ", ".join(out)


def nm(t):
    return str(t[1]) if t[0] == "s" else repr(t)[:80]
