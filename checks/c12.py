"""C12: hosts are parsed and serialized as the URL standard says."""
import itertools
from urlrun import *

LEVEL = "other"
RULE = ("the IPv4, IPv6, opaque-host and host parsers and the serializers are interpreted on strings of every class shape the grammar distinguishes, with symbolic characters, numbers and pieces; on every "
        "path the host value, validation error and failure (or the output characters) are compared with a transcription of the standard. All 256 zero/non-zero patterns of the eight IPv6 pieces are covered.")
ASSUME = ["IDNA processing (ICU) and UTF-8 decoding are operators here", "std::to_chars and std::from_chars write and read the digits of the number"]
HEX = ((48, 57), (65, 70), (97, 102))
FORBID = [0, 9, 10, 13, 0x20, 0x23, 0x25, 0x2F, 0x3A, 0x3F, 0x40, 0x5B, 0x5C, 0x5D]
from absint import FULL
from c11 import URLCP, syms, seq, ch, eqs

DOT = ("chr", C(46))


class Num:
    """character conversions: to_chars writes num{base,value}; from_chars reads known digits"""

    def hook(self, I, st, f, fi, o, args, e):
        n = fi["n"]
        if n == "to_chars" and len(args) >= 3:
            v = I.lib.get(I, st, args[2])
            b = I.lib.get(I, st, args[3]) if len(args) > 3 else C(10)
            a = I.lib.get(I, st, args[0])
            if is_int(v) and b[0] == "c":
                return [(st, ("tup", (("numend", b[1], v), C(0))))]
        if n == "from_chars" and len(args) >= 3:
            return self.from_chars(I, st, args)
        if n in ("insert", "append", "assign") and args and o is not None and o[0] == "ref":
            last = I.lib.get(I, st, args[-1])
            if last[0] == "numend":
                l = ec_root(st, o[1])
                v = st.heap.get(l)
                if v is None or v[0] != "str":
                    return None
                its = I.lib.norm(st, v)[1]
                new = (("seq", ("num", last[1], last[2]), "u32"),)
                if n == "assign":
                    st.heap[l] = ("str", new)
                elif n == "append":
                    st.heap[l] = ("str", its + new)
                else:
                    pos = I.lib.get(I, st, args[0])
                    if pos[0] == "itend":
                        st.heap[l] = ("str", its + new)
                    elif pos[0] == "it" and pos[2] == 0:
                        st.heap[l] = ("str", new + its)
                    else:
                        return None
                return [(st, ("void",))]
        if n == "pow" and len(args) == 2:
            a, b = I.lib.get(I, st, args[0]), I.lib.get(I, st, args[1])
            if a[0] == "c" and b[0] == "c" and b[1] >= 0:
                return [(st, C(a[1] ** b[1]))]
        if n in ("floor", "trunc") and len(args) == 1:
            a = I.lib.get(I, st, args[0])
            if is_int(a):
                return [(st, a)]
        return None

    def from_chars(self, I, st, args):
        a, b = I.lib.get(I, st, args[0]), I.lib.get(I, st, args[1])
        base = I.lib.get(I, st, args[3])[1] if len(args) > 3 and I.lib.get(I, st, args[3])[0] == "c" else 10
        if a[0] != "it" or b[0] not in ("it", "itend") or args[2][0] != "ref":
            return None
        its = I.lib.items(st, a[1])
        k2 = len(its) if b[0] == "itend" else b[2]
        its = its[a[2]:k2]
        if not all(i[0] == "chr" for i in its) or not its:
            return None
        outs, ends = [(st, C(0))], []
        for k, i in enumerate(its):
            nxt = []
            for s, v in outs:
                dig = ISet()
                for lo, hi, sub_ in ((48, 57, 48), (65, 70, 55), (97, 102, 87)):
                    D = ISet.of((lo, min(hi, sub_ + base - 1)))
                    dig = dig | D
                    s2 = s.fork()
                    if D and s2.restrict(i[1], D):
                        nxt.append((s2, add(scale(v, base), sub(i[1], C(sub_)))))
                s2 = s.fork()
                if s2.restrict(i[1], FULL - dig):
                    ends.append((s2, v, k))
            outs = nxt
        res = []
        l = ec_root(st, args[2][1])
        for s, v, k in ends + [(s, v, len(its)) for s, v in outs]:
            at = ("it", a[1], a[2] + k, 0)
            if k == 0:
                res.append((s, ("tup", (at, C(22)))))                         # invalid_argument
                continue
            r = s.rng(v)
            if r.max() >= 1 << 64 or r.max() >= 1 << 32 and s.meta.get("w32"):
                if r.min() < 1 << 64:
                    return None
                res.append((s, ("tup", (at, C(34)))))        # result_out_of_range
                continue
            s.heap[l] = v
            res.append((s, ("tup", (at, C(0)))))
        return res


def interp(p, extra=()):
    I = Interp(p, SLib())
    I.hooks += list(extra) + [Num().hook, ec_hook, data_hook, pe_hook]
    return I


def fn(p, name, n):
    fs = [i for i in p.byname.get(name, []) if i in p.funcs and p.funcs[i].get("body") is not None and len(p.funcs[i]["params"]) == n and p.finfo[i]["q"].startswith(W)]
    if not fs:
        raise Broken("%s/%d not found" % (name, n))
    return fs[0]


BADEFF = ("past-end", "front-of-empty", "bad-get", "deref-nullopt")


def dead(rep, p, f, pa, key, desc):
    if pa.kind != "ret" or any(e[0] in BADEFF for e in pa.st.eff):
        if any(e[0] == "opaque" for e in pa.st.eff):
            rep.undecided(key, "aborts after unmodelled %s" % str([e for e in pa.st.eff if e[0] == "opaque"][0])[:80])
            return True
        rep.fail(key + ":abort", "%s: aborts, or reads a value that is not there (%s)" % (p.where(f), desc))
        return True
    return False


def result(I, pa):
    """(host, ec)"""
    v = pa.val
    h = get_host(I, pa.st, v[1]) if v[0] == "ref" else ("?", v)
    ec = pa.st.heap.get(EC)
    return h, (None if ec is None or ec[0] != "ec" or ec[1][0] != "c" else bool(ec[1][1]))


def compare(rep, p, f, I, pa, key, desc, s2, want, wec):
    h, ec = result(I, pa)
    opq = [e for e in pa.st.eff if e[0] == "opaque"]
    r = host_eq(s2, h, want)
    if r is not True or ec is None:
        if r is False and not opq:
            rep.fail(key, "%s: %s gives %s, the standard says %s" % (p.where(f), desc, showh(h), showh(want)))
        else:
            rep.undecided(key, "host %r %s" % (str(h)[:60], opq[:1]))
        return
    if ec != bool(wec):
        if opq:
            rep.undecided(key, "after unmodelled %s" % opq[0][1])
            return
        rep.fail(key + ":error", "%s: %s: a validation error is %s" % (p.where(f), desc, "not reported" if wec else "reported that the standard does not have"))
        return
    rep.ok()


def showh(h):
    if h is None:
        return "none"
    if h[0] == "ipv6":
        return "ipv6 " + str([pt(x) for x in h[1]])
    if h[0] == "ipv4":
        return "ipv4 " + pt(h[1])
    if h[0] in ("domain", "opaque"):
        return "%s '%s'" % (h[0], show_items(h[1]))
    return {"null": "failure"}.get(h[0], str(h)[:50])


def pt(t):
    if t[0] == "c":
        return str(t[1])
    return str(t)[:70]


# ------------------------------------------------------------------------------------------ IPv4 number
def digits(o, its, base):
    """value of a digit string, or None"""
    v = C(0)
    vals = []
    for i in its:
        if base == 16:
            if o.isin(i[1], (48, 57)):
                d = sub(i[1], C(48))
            elif o.isin(i[1], (65, 70)):
                d = sub(i[1], C(55))
            elif o.isin(i[1], (97, 102)):
                d = sub(i[1], C(87))
            else:
                return None
        else:
            if not o.isin(i[1], (48, 47 + base)):
                return None
            d = sub(i[1], C(48))
        vals.append(d)
    for d in vals:
        v = add(scale(v, base), d)
    return v


def number(o, its):
    err, R = 0, 10
    z = len(its) >= 2 and o.isin(its[0][1], (48, 48))
    if z and o.isin(its[1][1], (88, 88), (120, 120)):
        err, R, its = 1, 16, its[2:]
    elif z:
        err, R, its = 1, 8, its[1:]
    if not its:
        return C(0), err
    return digits(o, its, R), err


def check_number(rep, p):
    f = fn(p, "parse_ipv4_number", 1)
    rep.count("functions")
    D = lambda n, lo=48, hi=57: syms("d", n, lo, hi)
    shapes = [syms("k", n) for n in (1, 2, 3, 4)] + [D(n) for n in (5, 6, 7, 8, 9, 10, 11, 12)] + [S("0x") + syms("k", n) for n in (0, 1, 2)] + [S("0x") + D(n) for n in (3, 8, 9, 12)] + \
        [S("0X") + D(n, 97, 102) for n in (1, 8)] + [S("0x") + D(n, 65, 70) for n in (1, 8)] + [S("0") + D(n, 48, 55) for n in (1, 4, 11, 12)] + [S("9" * 19), S("9" * 25), S("18446744073709551615"),
                                                                                                                                  S("18446744073709551616"), S("0x" + "f" * 16), S("0x1" + "0" * 16), S("0" * 30), S("0" * 25 + "1"), S("4294967295"), S("4294967296")]
    for its in shapes:
        I = interp(p)
        st = St()
        st.heap[("ARG",)] = ("str", its)
        key = "parse_ipv4_number"
        for pa in I.run(f, st, None, [("ref", ("ARG",))]):
            rep.count("paths")
            desc = "the number '%s'" % show_items(its)
            if dead(rep, p, f, pa, key, desc):
                continue
            v = I.lib.get(I, pa.st, pa.val)
            if v[0] != "tup":
                rep.undecided(key, "answer %r" % (v,))
                continue
            op = I.lib.get(I, pa.st, v[1][0])
            er = I.lib.get(I, pa.st, v[1][1])
            for s2, (w, we) in outcomes(pa.st, lambda o: number(o, its)):
                if op[0] != "opt" or er[0] != "c":
                    rep.undecided(key, "answer %r" % (v,))
                    continue
                g = None if op[1] == C(0) else I.lib.get(I, pa.st, op[2])
                if (g is None) != (w is None):
                    rep.fail(key, "%s: %s is %s, the standard says %s" % (p.where(f), desc, "not a number" if g is None else "a number", "failure" if w is None else "a number"))
                    continue
                if w is not None:
                    big = s2.rng(w).min() >= 1 << 32 and s2.rng(g).min() >= 1 << 32     # rejected by every caller alike
                    r = big or teq(s2, g, w)
                    if r is not True:
                        (rep.fail if r is False else rep.undecided)(key + ":value", "%s: %s has the value %s, the standard says %s" % (p.where(f), desc, pt(g), pt(w)))
                        continue
                if bool(er[1]) != bool(we) and w is not None:
                    rep.fail(key + ":error", "%s: %s: the validation error flag is %s" % (p.where(f), desc, er[1]))
                    continue
                rep.ok()


# ------------------------------------------------------------------------------------------ IPv4
def check_ipv4(rep, p):
    called = [False]
    f = fn(p, "parse_ipv4", 2)
    rep.count("functions")
    nd = ((0, 45), (47, 0x10FFFF))
    for k in range(1, 7):
        for lens in itertools.product((0, 1), repeat=k):
            if lens.count(0) > 2 or k > 4 and lens.count(0) > 1:
                continue
            parts, inp, st = [], (), St()
            for i, n in enumerate(lens):
                pi = syms("p%d_" % i, n)
                for x in pi:
                    st.restrict(x[1], ISet(nd))
                parts.append(pi)
                inp += ((DOT,) if i else ()) + pi

            def hk(I, st, f2, fi, o, args, e):
                if fi["n"] == "parse_ipv4_number" and fi["q"].startswith(W):
                    called[0] = True
                    v = I.lib.get(I, st, args[0])
                    its = I.lib.norm(st, v)[1]
                    for a in st.meta.get("nums", ()):
                        if a[0] == its:
                            return [(st, a[3])]
                    out = []
                    k = len(st.meta.get("nums", ()))
                    for kind in ("none", "ok", "err"):
                        s = st.fork()
                        t = sym(("num", its), 0, (1 << 64) - 1)
                        r = ("tup", (("opt", C(0), None) if kind == "none" else ("opt", C(1), t), C(int(kind == "err"))))
                        s.meta = dict(s.meta, nums=s.meta.get("nums", ()) + ((its, kind, t, r),))
                        out.append((s, r))
                    return out
                return None
            I = interp(p, [hk])
            st.heap[("ARG",)] = ("str", inp)
            st.heap[EC] = ("ec", C(0))
            key = "parse_ipv4"
            desc = "'%s'" % show_items(inp)
            for pa in I.run(f, st, None, [("ref", ("ARG",)), ("ref", EC)]):
                rep.count("paths")
                if dead(rep, p, f, pa, key, desc):
                    continue
                nums = {a[0]: a for a in pa.st.meta.get("nums", ())}

                def spec(o):
                    ps = list(parts)
                    err = 0
                    if not ps[-1]:
                        err = 1
                        if len(ps) > 1:
                            ps.pop()
                    if len(ps) > 4:
                        return ("opaque", inp), 0
                    ns = []
                    for x in ps:
                        if not x:
                            return ("opaque", inp), 0
                        a = nums.get(x)
                        if a is None and called[0]:         # never asked for: any value it may have
                            a = (x, "ok", sym(("num", x), 0, 255))
                        if a is None:
                            return None
                        if a[1] == "none":
                            return ("opaque", inp), 0
                        if a[1] == "err":
                            err = 1
                        ns.append(a[2])
                    if any([o.isin(n, (256, 1 << 64)) for n in ns]):
                        err = 1
                    for n in ns[:-1]:
                        if o.isin(n, (256, 1 << 64)):
                            return ("null",), 1
                    if o.isin(ns[-1], (256 ** (5 - len(ns)), 1 << 64)):
                        return ("null",), 1
                    v = ns[-1]
                    for i, n in enumerate(ns[:-1]):
                        v = add(v, scale(n, 256 ** (3 - i)))
                    return ("ipv4", v), err
                for s2, w in outcomes(pa.st, spec):
                    if w is None:
                        rep.undecided(key, "parts read otherwise")
                        continue
                    compare(rep, p, f, I, pa, key, desc, s2, w[0], w[1])


def split_hook(I, st, f, fi, o, args, e):
    """boost::algorithm::split on is_any_of"""
    if fi["n"] == "is_any_of" and len(args) == 1:
        v = I.lib.get(I, st, args[0])
        if v[0] == "str" and all(i[0] == "chr" and i[1][0] == "c" for i in v[1]):
            return [(st, ("anyof", tuple(i[1][1] for i in v[1] if i[1][1])))]
    if fi["n"] == "split" and "boost" in fi["q"] and len(args) >= 3 and args[0][0] == "ref":
        v, pr = I.lib.get(I, st, args[1]), I.lib.get(I, st, args[2])
        if v[0] != "str" or pr[0] != "anyof" or not all(i[0] == "chr" for i in v[1]) or len(args) > 3 and I.lib.get(I, st, args[3]) != C(1):      # token_compress_off
            return None
        outs = [(st, ((),))]
        D = ISet.of(*pr[1])
        for i in v[1]:
            nxt = []
            for s, ps in outs:
                for S_, d in ((D, 1), (FULL - D, 0)):
                    s2 = s.fork()
                    if s2.restrict(i[1], S_):
                        nxt.append((s2, ps + ((),) if d else ps[:-1] + (ps[-1] + (i,),)))
            outs = nxt
        res = []
        for s, ps in outs:
            its = []
            for x in ps:
                m = I.newtmp()
                s.heap[m] = ("str", x)
                its.append(("chr", ("ref", m)))
            s.heap[ec_root(s, args[0][1])] = ("str", tuple(its))
            res.append((s, args[0]))
        return res
    return None


def check_valid4(rep, p):
    """valid IPv4-address string"""
    f = fn(p, "is_valid_ipv4_address_string", 1)
    rep.count("functions")
    key = "is_valid_ipv4_address_string"
    nd = ((0, 45), (47, 0x10FFFF))
    shapes = [(n,) * 4 for n in (0, 1, 2, 3, 4)] + [tuple(k if i == j else 1 for i in range(4)) for k in (0, 2, 3, 4) for j in range(4)] + [(1,), (1, 1), (1, 1, 1), (1,) * 5, (), (0,), (3, 3, 3), (1, 1, 1, 1, 0)]
    for lens in shapes:
        st = St()
        inp, parts = (), []
        for i, n in enumerate(lens):
            pi = syms("p%d_" % i, n, 0, 0x10FFFF)
            if sum(lens) > 8 and n == 3:          # the other parts vary enough in the smaller shapes
                pi = syms("p%d_" % i, n, 47, 58)
            for x in pi:
                st.restrict(x[1], ISet(nd))
            parts.append(pi)
            inp += ((DOT,) if i else ()) + pi
        I = interp(p, [split_hook])
        st.heap[("ARG",)] = ("str", inp)
        rep.count("shapes")
        for pa in I.run(f, st, None, [("ref", ("ARG",))]):
            rep.count("paths")
            desc = "'%s'" % show_items(inp)
            if dead(rep, p, f, pa, key, desc):
                continue
            v = I.lib.get(I, pa.st, pa.val)

            def spec(o):
                if len(parts) != 4:
                    return False
                for x in parts:
                    if not 1 <= len(x) <= 3 or not all(o.isin(c[1], (48, 57)) for c in x):
                        return False
                    n = C(0)
                    for c in x:
                        n = add(scale(n, 10), sub(c[1], C(48)))
                    if not o.isin(n, (0, 255)):
                        return False
                return True
            if v[0] != "c" or any(e[0] == "opaque" for e in pa.st.eff):
                rep.undecided(key, "answer %r" % (v,))
                continue
            for s2, w in outcomes(pa.st, spec):
                if bool(v[1]) != w:
                    rep.fail(key, "%s: %s (%s) is %s" % (p.where(f), desc, [str(s2.rng(c[1])) for x in parts for c in x][:6], "accepted" if v[1] else "refused"))
                else:
                    rep.ok()


# ------------------------------------------------------------------------------------------ IPv6
def ipv6(o, its):
    F = (("null",), 1)
    a = [C(0)] * 8
    pi, comp, q = 0, None, 0
    c = lambda k=0: its[q + k][1] if q + k < len(its) else None
    is_ = lambda t, ch: t is not None and o.isin(t, (ord(ch), ord(ch)))
    if is_(c(), ":"):
        if not is_(c(1), ":"):
            return F
        q += 2
        pi += 1
        comp = pi
    while c() is not None:
        if pi == 8:
            return F
        if is_(c(), ":"):
            if comp is not None:
                return F
            q += 1
            pi += 1
            comp = pi
            continue
        v, n = C(0), 0
        while n < 4 and c() is not None and o.isin(c(), *HEX):
            d = digits(o, (its[q],), 16)
            v = add(scale(v, 16), d)
            q += 1
            n += 1
        if is_(c(), "."):
            if n == 0:
                return F
            q -= n
            if pi > 6:
                return F
            seen = 0
            while c() is not None:
                piece = None
                if seen > 0:
                    if is_(c(), ".") and seen < 4:
                        q += 1
                    else:
                        return F
                if c() is None or not o.isin(c(), (48, 57)):
                    return F
                while c() is not None and o.isin(c(), (48, 57)):
                    d = sub(c(), C(48))
                    if piece is None:
                        piece = d
                    elif o.isin(piece, (0, 0)):
                        return F
                    else:
                        piece = add(scale(piece, 10), d)
                    if o.isin(piece, (256, 1 << 40)):
                        return F
                    q += 1
                a[pi] = add(scale(a[pi], 256), piece)
                seen += 1
                if seen in (2, 4):
                    pi += 1
            if seen != 4:
                return F
            break
        elif is_(c(), ":"):
            q += 1
            if c() is None:
                return F
        elif c() is not None:
            return F
        a[pi] = v
        pi += 1
    if comp is not None:
        swaps = pi - comp
        pi = 7
        while pi != 0 and swaps > 0:
            j = comp + swaps - 1
            a[pi], a[j] = a[j], a[pi]
            pi -= 1
            swaps -= 1
    elif pi != 8:
        return F
    return ("ipv6", tuple(a)), 0


def v6_shapes():
    """class shapes: h symbolic hexadecimal digit 0-9, x any character, others literal"""
    for n in range(0, 5):
        yield "x" * n
    for t in ("::xxx", "h:xxx", ":xxx", "1:2:3:4:5:6:7:xx", "1:2:3:4:5:6:7:8x", "1:2:3:4:5:6:7:8:x", "1:2:3:4:5:6:xx", "::1.2.3.xxx", "::xx.2.3.4", "::1.xx.3.4", "1:2:3:4:5:6:1.2.3.xx", "AbCx::",
              "::ffff:h", "::hhhhx", "hhhhx::1"):
        yield t
    yield ":".join(["h"] * 8)
    yield ":".join(["hhhh"] * 8)
    yield ":".join(["h"] * 7)
    yield ":".join(["h"] * 9)
    for n in range(0, 9):                      # compression at every position
        for m in range(0, 9 - n):
            yield ":".join(["h"] * n) + "::" + ":".join(["h"] * m)
    yield "1:2:3:4:5:6:7::8:9"
    yield "::1::2"
    yield "1::2::3"
    yield "1:::2"
    yield ":1:2:3:4:5:6:7"
    yield "1:2:3:4:5:6:7:"
    v4 = ["h.h.h.h", "hh.hhh.h.hhh", "hhh.hh.hhh.hh", "h.h.h", "h.h.h.h.h", "h.h.h.", "h.h..h", ".h.h.h", "h.h.h.hhhh", "0h.h.h.h", "h.h.h.0h", "h.h.h.h:", "h.h.h.h:h", "hhhh.h.h.h", "h.h.h.hg", "a.h.h.h", "h.h.h.a", "h..h.h"]
    for t in v4:
        yield "::" + t
        yield "1:2:3:4:5:6:" + t
    for pre in ("1:2:3:4:5:6:7:", "1:2:3:4:5:", "::1:2:3:4:5:6:", "1::6:", "1:2:3:4:5::", "1:2:3:4:5:6::", "::2:3:4:5:6:7:", "ffff::", "1:2:3:4:5:6:7::", ""):
        yield pre + "h.hh.h.h"


def check_ipv6(rep, p):
    f = fn(p, "parse_ipv6", 2)
    rep.count("functions")
    for sh in v6_shapes():
        rep.count("shapes")
        its = tuple(ch("h%d" % i, 48, 57) if c == "h" else ch("x%d" % i) if c == "x" else ("chr", C(ord(c))) for i, c in enumerate(sh))
        I = interp(p)
        st = St()
        st.heap[("ARG",)] = ("str", its)
        st.heap[EC] = ("ec", C(0))
        key = "parse_ipv6"
        desc = "'%s'" % sh
        rep.guard(key + ":" + sh, one_v6, rep, p, f, I, st, its, key, desc)


def one_v6(rep, p, f, I, st, its, key, desc):
    for pa in I.run(f, st, None, [("ref", ("ARG",)), ("ref", EC)]):
        rep.count("paths")
        if dead(rep, p, f, pa, key, desc):
            continue
        for s2, w in outcomes(pa.st, lambda o: ipv6(o, its)):
            compare(rep, p, f, I, pa, key, desc + " (x, h: %s)" % [str(s2.rng(i[1])) for i in its if i[1][0] == "s"][:6], s2, w[0], w[1])


# ------------------------------------------------------------------------------------------ opaque hosts
def check_opaque(rep, p):
    f = fn(p, "parse_opaque_host", 2)
    rep.count("functions")
    for n in range(0, 5):
        its = syms("k", n)
        I = interp(p)
        st = St()
        st.heap[("ARG",)] = ("str", its)
        st.heap[EC] = ("ec", C(0))
        key = "parse_opaque_host"
        if n == 4:
            for i in its[:2]:
                st.restrict(i[1], ISet(((0x25, 0x25), (0x30, 0x39), (0x67, 0x70))))

        def spec(o):
            err = 0
            for i in its:
                if o.isin(i[1], *[(x, x) for x in FORBID if x != 0x25]):
                    return ("null",), 1
            for k, i in enumerate(its):
                if o.isin(i[1], (0x25, 0x25)):
                    if k + 2 >= len(its) or not (o.isin(its[k + 1][1], *HEX) and o.isin(its[k + 2][1], *HEX)):
                        err = 1
                elif not o.isin(i[1], *URLCP):
                    err = 1
            return ("opaque", pe("is_c0_control_percent_encode_set", its, "UTF_8")[1]), err
        for pa in I.run(f, st, None, [("ref", ("ARG",)), ("ref", EC)]):
            rep.count("paths")
            desc = "an opaque host of %d characters in %s" % (n, [str(pa.st.rng(i[1]))[:60] for i in its])
            if dead(rep, p, f, pa, key, desc):
                continue
            for s2, w in outcomes(pa.st, spec):
                compare(rep, p, f, I, pa, key, desc, s2, w[0], w[1])


# ------------------------------------------------------------------------------------------ hosts
def check_host(rep, p):
    f = fn(p, "parse_host", 3)
    rep.count("functions")
    for n in range(0, 4):
        for nots in (0, 1):
            if n == 0 and not nots:
                continue
            its = syms("k", n)

            def val(I, st, a):
                v = I.lib.get(I, st, a)
                return I.lib.norm(st, v)[1] if v[0] == "str" else None

            def hk(I, st, f2, fi, o, args, e):
                nm_ = fi["n"]
                if not fi["q"].startswith(W):
                    return None
                if nm_ in ("parse_ipv6", "parse_opaque_host", "parse_ipv4"):
                    out = []
                    its_ = val(I, st, args[0])
                    le = ec_root(st, args[1][1])
                    rs = {"parse_ipv6": [(("null",), 1), (("ipv6", tuple(sym("q%d" % i, 0, 65535) for i in range(8))), 0)], "parse_opaque_host": [(("null",), 1), (("opaque", seq("OQ")), 0), (("opaque", seq("OQ")), 1)],
                          "parse_ipv4": [(("null",), 1), (("ipv4", sym("v4")), 0), (("ipv4", sym("v4")), 1), (("opaque", its_), 0)]}[nm_]
                    for h, ec in rs:
                        s = st.fork()
                        if ec:
                            s.heap[le] = ("ec", C(7))
                        s.eff += (("sub", nm_, its_, h, ec),)
                        out.append((s, ("ref", put_host(I, s, h))))
                    return out
                if nm_ == "domain_to_ascii":
                    a = val(I, st, args[0])
                    strict = I.lib.get(I, st, args[1]) if len(args) == 3 else C(0)
                    le = ec_root(st, args[-1][1])
                    out = []
                    for k, ec in ((2, 0), (3, 0), (1, 1)):
                        s = st.fork()
                        if ec:
                            s.heap[le] = ("ec", C(8))
                        r = syms("A", k)
                        s.eff += (("toascii", a, strict, r, ec),)
                        out.append((s, ("str", r)))
                    return out
                if nm_ == "string_percent_decode" and len(args) == 3:
                    a, b, c = (I.lib.get(I, st, x) for x in args)
                    if c[0] == "bins" and a[0] == "it" and b[0] in ("it", "itend"):
                        src = I.lib.items(st, a[1])[a[2]:(len(I.lib.items(st, a[1])) if b[0] == "itend" else b[2])]
                        I.lib.append(I, st, c[1], ("seq", ("pd", src), "i8"))
                        return [(st, c)]
                if nm_ == "to_io_queue_convert" and len(args) >= 2:
                    a = I.lib.get(I, st, args[0])
                    if a[0] == "it":
                        l = I.newtmp()
                        st.heap[l] = ("queue", I.lib.items(st, a[1]))
                        return [(st, ("ref", l))]
                if nm_ == "utf8_decode_without_bom" and len(args) == 2:
                    qv = st.heap.get(ec_root(st, args[0][1]))
                    st.heap[ec_root(st, args[1][1])] = ("queue", (("seq", ("utf8", qv[1]), "u32"),)) if qv is not None and qv[0] == "queue" else ("opq", "q")
                    return [(st, ("void",))]
                if nm_ == "from_io_queue_convert" and len(args) == 2:
                    qv = st.heap.get(ec_root(st, args[0][1]))
                    c = I.lib.get(I, st, args[1])
                    if qv is not None and qv[0] == "queue" and c[0] == "bins":
                        for i in qv[1]:
                            I.lib.append(I, st, c[1], i)
                        return [(st, c)]
                return None
            I = interp(p, [hk])
            st = St()
            st.heap[("ARG",)] = ("str", its)
            st.heap[EC] = ("ec", C(0))
            key = "parse_host"
            for pa in I.run(f, st, None, [("ref", ("ARG",)), C(nots), ("ref", EC)]):
                rep.count("paths")
                desc = "a%s host of %d characters in %s" % (" non-special" if nots else "", n, [str(pa.st.rng(i[1]))[:40] for i in its])
                if dead(rep, p, f, pa, key, desc):
                    continue
                subs = [e for e in pa.st.eff if e[0] == "sub"]
                asc = [e for e in pa.st.eff if e[0] == "toascii"]

                def ask(kind, arg):
                    """the sub-parser's answer on this path"""
                    if len(subs) != 1 or subs[0][1] != kind:
                        return ("wrong", "it calls %s where the standard calls %s" % ([x[1] for x in subs] or "no parser", kind))
                    if subs[0][2] != arg:
                        return ("wrong", "%s is given '%s' instead of '%s'" % (kind, show_items(subs[0][2]), show_items(arg)))
                    return subs[0][3], subs[0][4]

                def spec(o):
                    if its and o.isin(its[0][1], (0x5B, 0x5B)):
                        if not o.isin(its[-1][1], (0x5D, 0x5D)):
                            return (("null",), 1) if not subs else ("wrong", "it parses an unclosed bracket")
                        return ask("parse_ipv6", its[1:-1])
                    if nots:
                        return ask("parse_opaque_host", its)
                    if len(asc) != 1:
                        return ("wrong", "the domain is not converted to ASCII")
                    _, a, strict, r, ec = asc[0]
                    w = (("seq", ("utf8", (("seq", ("pd", its), "i8"),)), "u32"),)
                    if a != w:
                        return ("wrong", "domain to ASCII is given '%s'" % show_items(a))
                    if ec:
                        return (("null",), 1) if not subs else ("wrong", "it goes on after domain to ASCII failed")
                    for i in r:
                        if o.isin(i[1], *[(x, x) for x in FORBID]):
                            return (("null",), 1) if not subs else ("wrong", "it goes on with a forbidden code point")
                    z = ask("parse_ipv4", r)
                    if z[0] == "wrong":
                        return z
                    h, e2 = z
                    if h[0] in ("null", "ipv4"):
                        return h, e2
                    return ("domain", r), e2
                for s2, w in outcomes(pa.st, spec):
                    if w[0] == "wrong":
                        if any(e[0] == "opaque" for e in pa.st.eff) or "seq" in str(w[1]) and False:
                            rep.undecided(key, w[1])
                        else:
                            rep.fail(key + ":call", "%s: %s: %s" % (p.where(f), desc, w[1]))
                        continue
                    compare(rep, p, f, I, pa, key, desc, s2, w[0], w[1])


# ------------------------------------------------------------------------------------------ serializers
def out_eq(rep, p, f, key, desc, st, got, want, opq):
    def norm(its):
        return tuple(its)
    r = None if q(got) else len(got) == len(want) and all(a == b or (a[0] == b[0] == "chr" and teq(st, a[1], b[1]) is True) or
                                                         (a[0] == b[0] == "seq" and a[1][0] == b[1][0] == "num" and a[1][1] == b[1][1] and teq(st, a[1][2], b[1][2]) is True) for a, b in zip(got, want))
    if r:
        rep.ok()
    elif r is None or opq:
        rep.undecided(key, "output %r" % (str(got)[:80],))
    else:
        sh = lambda its: "".join(("{%s:%s}" % (i[1][1], pt(i[1][2]))) if i[0] == "seq" and i[1][0] == "num" else show_items((i,)) for i in its)
        rep.fail(key, "%s: %s becomes '%s', the standard says '%s'" % (p.where(f), desc, sh(got), sh(want)))


def ser(rep, p, name, h, want, key, desc):
    f = fn(p, name, 1)
    I = interp(p)
    st = St()
    l = put_host(I, st, h)
    for pa in I.run(f, st, None, [("ref", l)]):
        rep.count("paths")
        if dead(rep, p, f, pa, key, desc):
            continue
        v = I.lib.get(I, pa.st, pa.val)
        got = I.lib.norm(pa.st, v)[1] if v[0] == "str" else ("?", v)
        for s2, w in outcomes(pa.st, want):
            out_eq(rep, p, f, key, desc + " with " + ", ".join(str(s2.rng(x)) for x in (h[1] if h[0] == "ipv6" else ())), s2, got, w, any(e[0] == "opaque" for e in pa.st.eff))


def v4out(o, n):
    out = ()
    for k in (3, 2, 1, 0):
        out += (("seq", ("num", 10, o.mod(o.div(n, 256 ** k), 256) if k else o.mod(n, 256)), "u32"),) + ((DOT,) if k else ())
    return out


def v6out(o, ps):
    z = [o.isin(x, (0, 0)) for x in ps]
    best, bl = None, 1
    i = 0
    while i < 8:
        if z[i]:
            j = i
            while j < 8 and z[j]:
                j += 1
            if j - i > bl:
                best, bl = i, j - i
            i = j
        else:
            i += 1
    out, ign = (), False
    for i in range(8):
        if ign and z[i]:
            continue
        ign = False
        if best == i:
            out += S("::" if i == 0 else ":")
            ign = True
            continue
        out += (("seq", ("num", 16, ps[i]), "u32"),)
        if i != 7:
            out += S(":")
    return out


def check_ser(rep, p):
    rep.count("functions", 3)
    n = sym("v4")
    P8 = tuple(sym("q%d" % i, 0, 65535) for i in range(8))
    for nm_ in ("serialize_ipv4", "serialize_host"):
        ser(rep, p, nm_, ("ipv4", n), lambda o: v4out(o, n), nm_ + ":ipv4", "an IPv4 address")
    ser(rep, p, "serialize_ipv6", ("ipv6", P8), lambda o: v6out(o, P8), "serialize_ipv6", "an IPv6 address")
    ser(rep, p, "serialize_host", ("ipv6", P8), lambda o: S("[") + v6out(o, P8) + S("]"), "serialize_host:ipv6", "an IPv6 host")
    ser(rep, p, "serialize_host", ("domain", seq("D")), lambda o: seq("D"), "serialize_host:domain", "a domain")
    ser(rep, p, "serialize_host", ("opaque", seq("O")), lambda o: seq("O"), "serialize_host:opaque", "an opaque host")
    ser(rep, p, "serialize_host", ("empty",), lambda o: (), "serialize_host:empty", "the empty host")


# ------------------------------------------------------------------------------------------ equality, predicates
def check_eq(rep, p):
    P8 = lambda t: tuple(sym("%s%d" % (t, i), 0, 65535) for i in range(8))
    mk = lambda t: [("domain", syms(t + "d", 2)), ("domain", syms(t + "e", 1)), ("ipv4", sym(t + "4")), ("ipv6", P8(t)), ("opaque", syms(t + "o", 2)), ("empty",)]
    fs = [i for i in p.byname.get("operator==", []) if i in p.funcs and len(p.funcs[i]["params"]) == 2 and cls_of(p.funcs[i]["params"][0]["t"].lstrip("&")) == W + "host_base"]
    for f in fs:
        rep.count("functions")
        other = cls_of(p.funcs[f]["params"][1]["t"].lstrip("&"))
        rhs = mk("r") if other == W + "host_base" else [syms("r", n) for n in (0, 1, 2)]
        for a in mk("l"):
            for b in rhs:
                I = interp(p)
                st = St()
                la = put_host(I, st, a)
                if other == W + "host_base":
                    lb = put_host(I, st, b)
                else:
                    lb = ("RHS",)
                    st.heap[lb] = ("str", b)
                key = "operator==:" + ("host" if other == W + "host_base" else "string")

                def spec(o):
                    if other == W + "host_base":
                        if a[0] != b[0]:
                            return 0
                        x, y = (a[1], b[1]) if len(a) > 1 else ((), ())
                        if a[0] == "ipv4":
                            return int(o.eq(x, y))
                        if a[0] == "ipv6":
                            return int(all(o.eq(i, j) for i, j in zip(x, y)))
                    else:
                        if a[0] == "empty":
                            return int(not b)
                        if a[0] not in ("domain", "opaque"):
                            return 0
                        x, y = a[1], b
                    return int(len(x) == len(y) and all(o.eq(i[1], j[1]) for i, j in zip(x, y)))
                for pa in I.run(f, st, None, [("ref", la), ("ref", lb)]):
                    rep.count("paths")
                    desc = "comparing %s with %s" % (a[0], b[0] if other == W + "host_base" else "a string of %d" % len(b))
                    if dead(rep, p, f, pa, key, desc):
                        continue
                    v = I.lib.get(I, pa.st, pa.val)
                    if any(e[0] == "opaque" for e in pa.st.eff):
                        rep.undecided(key, "unmodelled comparison")
                        continue
                    for s2, w in outcomes(pa.st, spec):
                        r = val_eq(s2, v, C(w))
                        if r is False:
                            rep.fail(key, "%s: %s answers %s, the standard says %s" % (p.where(f), desc, v, w))
                        elif r is None:
                            rep.undecided(key, "answer %r" % (v,))
                        else:
                            rep.ok()


def check(rep):
    soften(rep)
    p = export("url.cpp")
    for fn_ in (check_number, check_ipv4, check_valid4, check_ipv6, check_opaque, check_host, check_ser, check_eq):
        rep.guard(fn_.__name__, fn_, rep, p)
    rep.need("functions", 5)
