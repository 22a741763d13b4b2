"""C14: Unicode conversions and the Infra standard's string algorithms."""
import itertools
from urlrun import *
from c12 import dead, syms, BADEFF
from c13 import byte_eq, opq, drv, ch0
from absint import FULL

LEVEL = "other"
RULE = ("every conversion is interpreted for each encoded length with symbolic code units (or a symbolic code point) and its result compared, as a term, with the definition of UTF-8 and UTF-16; every string algorithm is "
        "interpreted, for each of the four character types, on strings of up to five symbolic characters mixed with multi-unit characters, and its whole output compared with a transcription of the Infra standard on every path.")
ASSUME = ["input strings are well formed (a documented precondition of the conversions)", "string lengths are bounded; every algorithm's state depends on a bounded window of the input"]
TYPES = ("8", "u8", "16", "32")
IN, IN2, OUT, CP = ("IN",), ("IN2",), ("OUT",), ("CP",)
NONASC = (0xE9, 0x3042, 0x1F600)
WSP = [(9, 10), (12, 13), (32, 32)]


def enc_const(c, N):
    if N == "32":
        return [c]
    if N == "16":
        return [c] if c < 0x10000 else [0xD800 + ((c - 0x10000) >> 10), 0xDC00 + ((c - 0x10000) & 0x3FF)]
    b = list(chr(c).encode("utf-8"))
    return [x - 256 if N == "8" and x > 127 else x for x in b]


def units(t, N):
    """code units of a code point term: a constant, or a symbol that is one unit by its range"""
    if t[0] == "c":
        return tuple(("chr", C(x)) for x in enc_const(t[1], N))
    return (("chr", t),)


def enc(cps, N):
    return tuple(u for t in cps for u in units(t, N))


def inputs(N, maxn=4, mixed=True):
    """strings as lists of code point terms"""
    rng = {"8": [(0, 0x7F)], "u8": [(0, 0x7F)], "16": [(0, 0xD7FF), (0xE000, 0xFFFF)], "32": [(0, 0xD7FF), (0xE000, 0x10FFFF)]}[N]

    def s(i):
        return sym("x%d" % i, 0, rng[-1][1])
    for n in range(maxn + 1):
        yield [s(i) for i in range(n)], rng
    if mixed and N != "32":
        for c in NONASC:
            for n in range(0, 3):
                for k in range(n + 1):
                    v = [s(i) for i in range(n)]
                    v.insert(k, C(c))
                    yield v, rng
        yield [C(0xE9), C(0x3042), C(0x1F600)], rng
        yield [C(0x1F600), s(0), C(0xE9)], rng
        yield [C(0x3042), s(0), s(1), C(0x1F600)], rng


def interp14(p):
    I = Interp(p, SLib())
    I.hooks += [data_hook]
    return I


def start(cps, rng):
    st = St()
    for t in cps:
        if t[0] == "s" and len(rng) > 1:
            st.restrict(t, ISet(tuple(rng)))
    return st


def show(cps):
    return " ".join("U+%04X" % t[1] if t[0] == "c" else "<%s>" % t[1] for t in cps) or "(empty)"


def units_eq(st, N, got, want):
    if q(got):
        return None
    if len(got) != len(want):
        return False if all(i[0] == "chr" for i in got) else None
    r = True
    for a, b in zip(got, want):
        if a[0] != "chr":
            return None
        e = byte_eq(st, a[1], b[1]) if N in ("8", "u8") else teq(st, a[1], b[1])
        if e is False:
            return False
        r = r and e
    return r


def where_of(p, name):
    fs = [i for i in p.byname.get(name, []) if i in p.funcs and p.finfo[i]["q"].startswith(W)]
    if not fs:
        raise Broken(name + " not found")
    return p.where(fs[0])


def wit(st, cps):
    return ", ".join("%s" % (st.rng(t),) for t in cps)


# ------------------------------------------------------------------------------------------ oracle: string algorithms
def lower(o, s):
    return [add(t, C(32)) if o.isin(t, (65, 90)) else t for t in s]


def upper(o, s):
    return [sub(t, C(32)) if o.isin(t, (97, 122)) else t for t in s]


def stripnl(o, s):
    return [t for t in s if not o.isin(t, (10, 10), (13, 13))]


def normnl(o, s):
    out, i = [], 0
    while i < len(s):
        if o.isin(s[i], (13, 13)):
            if i + 1 < len(s) and o.isin(s[i + 1], (10, 10)):
                i += 1
            out.append(C(10))
        else:
            out.append(s[i])
        i += 1
    return out


def ws(o, t):
    return o.isin(t, *WSP)


def strip(o, s):
    a, b = 0, len(s)
    while a < b and ws(o, s[a]):
        a += 1
    while a < b and ws(o, s[b - 1]):
        b -= 1
    return s[a:b]


def collapse(o, s):
    out, pend = [], False
    for t in strip(o, s):
        if ws(o, t):
            pend = True
            continue
        if pend:
            out.append(C(32))
            pend = False
        out.append(t)
    return out


ALPHA = ((65, 90), (97, 122))


def collect(o, s):
    out = []
    for t in s:
        if not o.isin(t, *ALPHA):
            break
        out.append(t)
    return out


def skip(o, s):
    k = 0
    while k < len(s) and ws(o, s[k]):
        k += 1
    return k


def split(o, s, d):
    out = [[]]
    for t in s:
        if o.isin(t, (d, d)):
            out.append([])
        else:
            out[-1].append(t)
    return out


def splitws(o, s):
    out, cur = [], []
    for t in s:
        if ws(o, t):
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(t)
    return out + ([cur] if cur else [])


def splitcomma(o, s):
    ts = split(o, s, 44)
    if not ts[-1] and (len(ts) > 1 or not s):
        ts.pop()
    return [strip(o, t) for t in ts]


def check_algs(rep, p, N):
    T = {"lower": ("to_ascii_lowercase", lower), "upper": ("to_ascii_uppercase", upper), "stripnl": ("strip_newlines", stripnl), "normnl": ("normalize_newlines", normnl),
         "strip": ("strip_leading_and_trailing_ascii_whitespace", strip), "collapse": ("strip_and_collapse_ascii_whitespace", collapse), "collect": ("collect_sequence_of_code_points", collect)}
    for k, (name, spec) in T.items():
        f = drv(p, "vp_%s_%s" % (k, N))
        rep.count("functions")
        wh = where_of(p, name)
        key = "%s:%s" % (name, N)
        for cps, rng in inputs(N, 5 if k in ("strip", "collapse", "normnl") else 3):
            I = interp14(p)
            st = start(cps, rng)
            st.heap[IN] = ("str", enc(cps, N))
            st.heap[OUT] = ("str", ())
            for pa in I.run(f, st, None, [("ref", IN), ("ref", OUT)]):
                rep.count("paths")
                if dead(rep, p, f, pa, key, show(cps) + " in " + wit(pa.st, cps)):
                    continue
                got = get_str(I, pa.st, OUT)
                ret = I.lib.get(I, pa.st, pa.val) if k == "collect" else None
                for s2, w in outcomes(pa.st, lambda o: spec(o, cps)):
                    r = units_eq(s2, N, got, enc(w, N))
                    if opq(pa) or r is None:
                        rep.undecided(key, "output %s" % str(got)[:80])
                    elif r is False:
                        rep.fail(key, "%s: for %s (%s) the output is '%s', the standard says '%s'" % (wh, show(cps), wit(s2, cps), show_items(got), show(w)))
                    elif ret is not None and ret[0] == "c" and ret[1] != len(enc(cps[:len(w)], N)):
                        rep.fail(key + ":position", "%s: for %s (%s) it stops at %d, the standard says %d" % (wh, show(cps), wit(s2, cps), ret[1], len(enc(cps[:len(w)], N))))
                    elif ret is not None and ret[0] != "c":
                        rep.undecided(key, "position %r" % (ret,))
                    else:
                        rep.ok()
    # predicates and positions
    f = drv(p, "vp_skip_" + N)
    g = drv(p, "vp_isascii_" + N)
    rep.count("functions", 2)
    for f, name, spec in ((f, "skip_ascii_whitespace", lambda o, s: len(enc(s[:skip(o, s)], N))), (g, "is_ascii_string", lambda o, s: int(all(o.isin(t, (0, 127)) for t in s)))):
        wh = where_of(p, name)
        key = "%s:%s" % (name, N)
        for cps, rng in inputs(N, 3):
            I = interp14(p)
            st = start(cps, rng)
            st.heap[IN] = ("str", enc(cps, N))
            for pa in I.run(f, st, None, [("ref", IN)]):
                rep.count("paths")
                if dead(rep, p, f, pa, key, show(cps)):
                    continue
                v = I.lib.get(I, pa.st, pa.val)
                for s2, w in outcomes(pa.st, lambda o: spec(o, cps)):
                    if v[0] != "c" or opq(pa):
                        rep.undecided(key, str(v)[:80])
                    elif v[1] != w:
                        rep.fail(key, "%s: for %s (%s) the answer is %d, the standard says %d" % (wh, show(cps), wit(s2, cps), v[1], w))
                    else:
                        rep.ok()
    # splitting
    for k, name, spec, ds in (("split", "strictly_split_on_particular_delimiter", split, (0x2C, 0x2E) + ((0xE9, 0x1F600) if N != "32" else (0x1F600,))), ("splitws", "split_on_ascii_whitespace", splitws, (None,)),
                              ("splitcomma", "split_on_commas", splitcomma, (None,))):
        f = drv(p, "vp_%s_%s" % (k, N))
        rep.count("functions")
        wh = where_of(p, name)
        key = "%s:%s" % (name, N)
        for d in ds:
            for cps, rng in inputs(N, 4 if k != "splitcomma" else 3):
                I = interp14(p)
                st = start(cps, rng)
                st.heap[IN] = ("str", enc(cps, N))
                st.heap[OUT] = ("str", ())
                for pa in I.run(f, st, None, [("ref", IN), ("ref", OUT)] + ([C(d)] if d is not None else [])):
                    rep.count("paths")
                    if dead(rep, p, f, pa, key, show(cps) + " in " + wit(pa.st, cps)):
                        continue
                    ov = I.lib.get(I, pa.st, ("ref", OUT))
                    got = None
                    if ov is not None and ov[0] == "str":
                        got = []
                        for i in ov[1]:
                            x = I.lib.get(I, pa.st, i[1]) if i[0] == "chr" else None
                            got.append(I.lib.norm(pa.st, x)[1] if x is not None and x[0] == "str" else ("?", i))
                    for s2, w in outcomes(pa.st, lambda o: spec(o, cps, d) if d is not None else spec(o, cps)):
                        if got is None or opq(pa) or any(q(x) for x in got):
                            rep.undecided(key, "tokens %s" % str(got)[:80])
                            continue
                        rs = [len(got) == len(w)] + [units_eq(s2, N, a, enc(b, N)) for a, b in zip(got, w)]
                        if False in rs:
                            rep.fail(key, "%s: for %s (%s)%s the tokens are %s, the standard says %s" % (wh, show(cps), wit(s2, cps), "" if d is None else " at U+%04X" % d, [show_items(x) for x in got], [show(x) for x in w]))
                        elif None in rs:
                            rep.undecided(key, "tokens")
                        else:
                            rep.ok()


def fold(o, t):
    return add(t, C(32)) if o.isin(t, (65, 90)) else t


def check_match(rep, p, N):
    f = drv(p, "vp_match_" + N)
    rep.count("functions")
    name = "is_ascii_case_insensitive_match"
    wh = where_of(p, name)
    key = "%s:%s" % (name, N)
    rng = {"8": (0, 0x7F), "u8": (0, 0x7F), "16": (0, 0xD7FF), "32": (0, 0xD7FF)}[N]
    A = lambda c, n: [sym("%s%d" % (c, i), *rng) for i in range(n)]
    cases = [(A("a", n), A("b", m)) for n in range(3) for m in range(3)]
    if N != "32":
        cases += [([C(0xE9)] + A("a", 1), [C(0xE9)] + A("b", 1)), ([C(0xE9)], [C(0xC9)]), ([C(0x1F600)], [C(0x1F600)]), (A("a", 1) + [C(0x3042)], A("b", 1) + [C(0x3042)]), (A("a", 1) + [C(0x3042)], A("b", 1)),
                  ([C(0xE9)], A("b", 2)), ([C(0x3042)], [C(0xE9)])]
    for a, b in cases:
        I = interp14(p)
        st = St()
        st.heap[IN] = ("str", enc(a, N))
        st.heap[IN2] = ("str", enc(b, N))
        for pa in I.run(f, st, None, [("ref", IN), ("ref", IN2)]):
            rep.count("paths")
            if dead(rep, p, f, pa, key, show(a) + " / " + show(b)):
                continue
            v = I.lib.get(I, pa.st, pa.val)

            def spec(o):
                if len(a) != len(b):
                    return 0
                return int(all([o.eq(fold(o, x), fold(o, y)) for x, y in zip(a, b)]))
            for s2, w in outcomes(pa.st, spec):
                if v[0] != "c" or opq(pa):
                    rep.undecided(key, str(v)[:80])
                elif v[1] != w:
                    rep.fail(key, "%s: '%s' and '%s' (%s / %s) are %s" % (wh, show(a), show(b), wit(s2, a), wit(s2, b), "equal" if v[1] else "different"))
                else:
                    rep.ok()


# ------------------------------------------------------------------------------------------ conversions
CLS = ((0, 0x7F), (0x80, 0x7FF), (0x800, 0xD7FF), (0xE000, 0xFFFF), (0x10000, 0x10FFFF))


def enc_term(o, t, N):
    """code units of a symbolic code point"""
    if N == "32":
        return [t]
    if N == "16":
        if o.isin(t, (0, 0xFFFF)):
            return [t]
        x = sub(t, C(0x10000))
        return [add(o.div(x, 0x400), C(0xD800)), add(o.mod(x, 0x400), C(0xDC00))]
    if o.isin(t, (0, 0x7F)):
        return [t]
    lo = lambda x: add(o.mod(x, 64), C(0x80))
    if o.isin(t, (0, 0x7FF)):
        return [add(o.div(t, 64), C(0xC0)), lo(t)]
    if o.isin(t, (0, 0xFFFF)):
        return [add(o.div(t, 4096), C(0xE0)), lo(o.div(t, 64)), lo(t)]
    return [add(o.div(t, 1 << 18), C(0xF0)), lo(o.div(t, 4096)), lo(o.div(t, 64)), lo(t)]


def check_to_string(rep, p, N):
    f = drv(p, "vp_tostr_" + N)
    rep.count("functions")
    wh = where_of(p, "to_string")
    key = "to_string:" + N
    for lo, hi in CLS:
        t = sym("cp", lo, hi)
        I = interp14(p)
        st = St()
        st.heap[OUT] = ("str", ())
        for pa in I.run(f, st, None, [t, ("ref", OUT)]):
            rep.count("paths")
            if dead(rep, p, f, pa, key, "a code point in %s" % pa.st.rng(t)):
                continue
            got = get_str(I, pa.st, OUT)
            for s2, w in outcomes(pa.st, lambda o: enc_term(o, t, N)):
                r = units_eq(s2, N, got, tuple(("chr", x) for x in w))
                if r is True:
                    rep.ok()
                elif r is None or opq(pa):
                    r2 = by_value(s2, t, got, N)
                    if r2 is True:
                        rep.ok()
                    elif r2 is None or opq(pa):
                        rep.undecided(key, "%s" % str(got)[:120])
                    else:
                        rep.fail(key, "%s (%s units): U+%04X becomes %s" % (wh, N, r2[0], r2[1]))
                else:
                    rep.fail(key, "%s (%s units): a code point in %s becomes %d units %s, the standard says %d" % (wh, N, s2.rng(t), len(got), show_items(got), len(w)))


def ev(t, env):
    """value of a term"""
    k = t[0]
    if k == "c":
        return t[1]
    if k == "s":
        return env.get(t[1])
    if k == "lin":
        v = t[1]
        for a, c in t[2]:
            x = ev(a, env)
            if x is None:
                return None
            v += c * x
        return v
    if k in ("div", "mod"):
        x, y = ev(t[1], env), t[2] if isinstance(t[2], int) else ev(t[2], env)
        return None if x is None or y is None else x // y if k == "div" else x % y
    if k == "wrap":
        return ev(t[1], env)
    return None


def by_value(st, t, got, N):
    """compares term by term at the ends of the range and around every multiple of 64 boundary when the terms are not in the same form"""
    r = st.rng(t)
    pts = set()
    for lo, hi in r.iv:
        pts |= {lo, hi, (lo + hi) // 2} | {x for x in range(lo, hi, max(1, (hi - lo) // 97))}
    for x in pts:
        vs = [ev(i[1], {t[1]: x}) if i[0] == "chr" else None for i in got]
        if None in vs:
            return None
        m = 256 if N in ("8", "u8") else 1 << 16 if N == "16" else 1 << 32
        w = [u % m for u in enc_const(x, N)]
        if [v % m for v in vs] != w:
            return x, vs
    return None         # agrees on the samples: no alarm, not decided


def check_to_cp(rep, p, N):
    f = drv(p, "vp_tocp_" + N)
    rep.count("functions")
    wh = where_of(p, "to_code_point")
    key = "to_code_point:" + N
    B = 256 if N == "8" else 0
    T = lambda n, lo, hi: sym(n, lo - (B if lo > 127 else 0), hi - (B if lo > 127 else 0))
    if N == "32":
        forms = [([sym("u", 0, 0xD7FF)], lambda u: u[0]), ([sym("u", 0xE000, 0x10FFFF)], lambda u: u[0])]
    elif N == "16":
        forms = [([sym("u", 0, 0xD7FF)], lambda u: u[0]), ([sym("u", 0xE000, 0xFFFF)], lambda u: u[0]),
                 ([sym("h", 0xD800, 0xDBFF), sym("l", 0xDC00, 0xDFFF)], lambda u: add(add(scale(sub(u[0], C(0xD800)), 0x400), sub(u[1], C(0xDC00))), C(0x10000)))]
    else:
        tr = lambda t: sub(t, C(0x80 - B))
        def ld(base):
            return lambda t: sub(t, C(base - B))
        def mk(base, n):
            def g(u):
                v = ld(base)(u[0])
                for k in range(1, n):
                    v = add(scale(v, 64), tr(u[k]))
                return v
            return g
        t_ = lambda n: T("t%d" % n, 0x80, 0xBF)
        forms = [([sym("u", 0, 0x7F)], lambda u: u[0]), ([T("l", 0xC2, 0xDF), t_(1)], mk(0xC0, 2)), ([T("l", 0xE0, 0xEF), t_(1), t_(2)], mk(0xE0, 3)), ([T("l", 0xF0, 0xF4), t_(1), t_(2), t_(3)], mk(0xF0, 4))]
    for us, val in forms:
        for extra in (0, 1):
            I = interp14(p)
            st = St()
            st.heap[IN] = ("str", tuple(("chr", x) for x in us) + ((("chr", C(0x41)),) if extra else ()))
            st.heap[CP] = C(0xFFFFFF)
            for pa in I.run(f, st, None, [("ref", IN), ("ref", CP)]):
                rep.count("paths")
                if dead(rep, p, f, pa, key, "a well formed sequence of %d units" % len(us)):
                    continue
                n = I.lib.get(I, pa.st, pa.val)
                v = I.lib.get(I, pa.st, ("ref", CP))
                w = val(us)
                r = teq(pa.st, v, w) if is_int(v) else None
                if r is None or opq(pa) or n[0] != "c":
                    rep.undecided(key, "%s" % str(v)[:160])
                elif not r or n[1] != len(us):
                    rep.fail(key, "%s (%s units): a sequence of %d units is read as %d units with value %s, the standard says %s" % (wh, N, len(us), n[1], str(v)[:60], str(w)[:60]))
                else:
                    rep.ok()


def check_cast(rep, p, N):
    """encoding_cast: each character of the input, in order, re-encoded"""
    for M in ("8", "u8", "16", "32"):
        f = drv(p, "vp_cast%s_%s" % (M, N))
        rep.count("functions")
        key = "encoding_cast:%s>%s" % (N, M)
        for cps, rng in list(inputs(N, 2)):
            I = interp14(p)
            st = start(cps, rng)
            st.heap[IN] = ("str", enc(cps, N))
            for pa in I.run(f, st, None, [("ref", IN)]):
                rep.count("paths")
                if dead(rep, p, f, pa, key, show(cps)):
                    continue
                v = I.lib.get(I, pa.st, pa.val)
                got = I.lib.norm(pa.st, v)[1] if v[0] == "str" else ("?", v)
                if N == M:
                    ws_ = [(pa.st, enc(cps, N))]
                else:
                    ws_ = outcomes(pa.st, lambda o: tuple(("chr", u) for t in cps for u in (enc_term(o, t, M) if t[0] == "s" else [C(x) for x in enc_const(t[1], M)])))
                for s2, w in ws_:
                    r = units_eq(s2, M, got, w)
                    if r is True:
                        rep.ok()
                    elif r is None or opq(pa):
                        rep.undecided(key, "%s" % str(got)[:100])
                    else:
                        rep.fail(key, "%s: %s (%s) becomes '%s'" % (where_of(p, "encoding_cast"), show(cps), wit(s2, cps), show_items(got)))


# ------------------------------------------------------------------------------------------ bytes
def check_bytes(rep, p):
    L = lambda o, s: [add(t, C(32)) if o.isin(t, (65, 90)) else t for t in s]
    U_ = lambda o, s: [sub(t, C(32)) if o.isin(t, (97, 122)) else t for t in s]
    idt = lambda o, s: list(s)
    for nm, name, rng, spec in (("vp_blower", "to_byte_lowercase", (-128, 127), L), ("vp_bupper", "to_byte_uppercase", (-128, 127), U_), ("vp_isodec", "isomorphic_decode", (-128, 127), idt),
                                ("vp_isoenc", "isomorphic_encode", (0, 255), idt), ("vp_ascenc", "ascii_encode", (0, 127), idt), ("vp_ascdec", "ascii_decode", (0, 127), idt)):
        f = drv(p, nm)
        rep.count("functions")
        wh = where_of(p, name)
        parts = ((-128, -1), (0, 127)) if rng[0] < 0 else (rng,)     # char is signed here: each sign apart
        for s in [[sym("x%d" % i, *r) for i, r in enumerate(rs)] for n in range(4) for rs in itertools.product(parts, repeat=n)]:
            I = interp14(p)
            st = St()
            st.heap[IN] = ("str", tuple(("chr", t) for t in s))
            st.heap[OUT] = ("str", ())
            for pa in I.run(f, st, None, [("ref", IN), ("ref", OUT)]):
                rep.count("paths")
                if dead(rep, p, f, pa, name, show(s)):
                    continue
                got = get_str(I, pa.st, OUT)
                for s2, w in outcomes(pa.st, lambda o: spec(o, s)):
                    r = units_eq(s2, "8", got, tuple(("chr", x) for x in w))
                    if r and name == "isomorphic_decode":           # code points, not bytes
                        r = all(s2.rng(i[1]).min() >= 0 and s2.rng(i[1]).max() <= 255 for i in got) or None
                    if r is None or opq(pa):
                        rep.undecided(name, str(got)[:80])
                    elif not r:
                        rep.fail(name, "%s: bytes in %s become '%s', the standard says %s" % (wh, wit(s2, s), show_items(got), w))
                    else:
                        rep.ok()
    f = drv(p, "vp_bmatch")
    rep.count("functions")
    cases = [([sym("a0", *r)], [C(b)]) for r in ((-128, -1), (0, 127)) for b in range(-128, 128)]
    cases += [([sym("a%d" % i, 0, 127) for i in range(n)], [C(x) for x in b]) for n in range(4) for b in ((), (0x41,), (0x5A, 0x30), (0x61, 0x5B), (0x7A, 0x41, 0x40), (0x4D, 0x6D, 0))]
    for a, b in cases:
        n, m = len(a), len(b)
        I = interp14(p)
        st = St()
        st.heap[IN] = ("str", tuple(("chr", t) for t in a))
        st.heap[IN2] = ("str", tuple(("chr", t) for t in b))
        for pa in I.run(f, st, None, [("ref", IN), ("ref", IN2)]):
            rep.count("paths")
            if dead(rep, p, f, pa, "is_byte_case_insensitive_match", "bytes"):
                continue
            v = I.lib.get(I, pa.st, pa.val)
            for s2, w in outcomes(pa.st, lambda o: int(n == m and all([o.eq(fold(o, x), fold(o, y)) for x, y in zip(a, b)]))):
                if v[0] != "c" or opq(pa):
                    rep.undecided("is_byte_case_insensitive_match", str(v)[:80])
                elif v[1] != w:
                    rep.fail("is_byte_case_insensitive_match", "%s: bytes %s / %s are %s" % (where_of(p, "is_byte_case_insensitive_match"), wit(s2, a), wit(s2, b), "equal" if v[1] else "different"))
                else:
                    rep.ok()


def check(rep):
    soften(rep)
    p = export("infra.cpp")
    for N in TYPES:
        for fn_ in (check_algs, check_match, check_to_string, check_to_cp, check_cast):
            rep.guard("%s:%s" % (fn_.__name__, N), fn_, rep, p, N)
    rep.guard("check_bytes", check_bytes, rep, p)
    rep.need("functions", 60)
