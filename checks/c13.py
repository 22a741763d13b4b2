"""C13: URLs are serialized, compared, percent-coded and accessed through the API as the URL standard says."""
import itertools
from urlrun import *
from c12 import interp, fn, dead, seq, syms, out_eq, BADEFF

LEVEL = "other"
RULE = ("serialize_url and equals are interpreted for every combination of present and absent components with free contents; the API's constructors, getters and setters with the parser as an operator (which parser "
        "they start, on which input, base, URL and state, and what they do with its answer); percent-encoding and -decoding for every byte; the results are compared with a transcription of the standard.")
ASSUME = ["the parser itself is C11's, host serialization C12's, encoders C07's", "std::to_chars writes the digits of the number"]

HX = "0123456789ABCDEF"
PM = ("PARSERS",)
U0 = ("UU",)
IN = ("INPUT",)


def num(t, b=10):
    return (("seq", ("num", b, t), "u32"),)


class Chars:
    """to_chars into known arrays, from_chars is c12's; copies of a formatted number"""

    def hook(self, I, st, f, fi, o, args, e):
        n = fi["n"]
        if n == "to_chars" and len(args) >= 3:
            a, b = I.lib.get(I, st, args[0]), I.lib.get(I, st, args[1])
            v = I.lib.get(I, st, args[2])
            base = I.lib.get(I, st, args[3]) if len(args) > 3 else C(10)
            if v[0] == "c" and a[0] == "it" and b[0] in ("it", "itend") and base[0] == "c":
                d, x = "", v[1]
                while x or not d:
                    d = "0123456789abcdefghijklmnopqrstuvwxyz"[x % base[1]] + d
                    x //= base[1]
                its = I.lib.items(st, a[1])
                end = len(its) if b[0] == "itend" else b[2]
                if end > len(its) or a[2] + len(d) > end:
                    if end > len(its):
                        st.eff = st.eff + (("past-end",),)
                    return [(st, ("tup", (b, C(75))))]
                st.heap[a[1]] = ("str", its[:a[2]] + S(d) + its[a[2] + len(d):])
                return [(st, ("tup", (("it", a[1], a[2] + len(d), 0), C(0))))]
            if is_int(v) and base[0] == "c" and a[0] == "it":
                w = 0
                while base[1] ** w <= max(1, st.rng(v).max()):
                    w += 1
                its = I.lib.items(st, a[1])
                if (len(its) if b[0] == "itend" else b[2]) - a[2] < w:      # may not fit
                    return None
                return [(st, ("tup", (("numend", base[1], v), C(0))))]
        if n == "copy" and len(args) == 3:
            last = I.lib.get(I, st, args[1])
            out = I.lib.get(I, st, args[2])
            if last[0] == "numend" and out[0] == "bins":
                I.lib.append(I, st, out[1], num(last[2], last[1])[0])
                return [(st, out)]
        return None


def sh_hook(I, st, f, fi, o, args, e):
    if fi["n"] == "serialize_host" and fi["q"].startswith(W) and len(args) == 1 and args[0][0] == "ref":
        return [(st, ("str", (("seq", ("host", get_host(I, st, args[0][1])), "u32"),)))]
    return None


def hs(h):
    return (("seq", ("host", h), "u32"),)


def interp13(p, *extra):
    return interp(p, list(extra) + [Chars().hook, sh_hook])


def opq(pa):
    return any(e[0] == "opaque" for e in pa.st.eff)


# ------------------------------------------------------------------------------------------ serializing
def spec_ser(o, u, excl, empties):
    """URL serializing; empties(key) tells whether a free component is empty on this path"""
    out = u["scheme"] + S(":")
    if u["host"] is not None:
        out += S("//")
        us, pw = not empties(o, "user"), not empties(o, "pass")
        if us or pw:
            out += u["user"] if us else ()
            if pw:
                out += S(":") + u["pass"]
            out += S("@")
        out += hs(u["host"])
        if u["port"] is not None:
            out += S(":") + num(u["port"])
    if u["cbb"]:
        out += u["path"][0]
    else:
        if u["host"] is None and len(u["path"]) > 1 and empties(o, 0):
            out += S("/.")
        for s in u["path"]:
            out += S("/") + s
    if u["query"] is not None:
        out += S("?") + u["query"]
    if not excl and u["frag"] is not None:
        out += S("#") + u["frag"]
    return out


def urls(full=True):
    P = [(), (seq("p0"),), ((), seq("p1")), (ch0("p0") + seq("p0r"), seq("p1")), ((), (), seq("p2")), (ch0("p0") + seq("p0r"), (), seq("p2"))]
    A = ch0("u") + seq("ur")
    B = ch0("w") + seq("wr")
    creds = [((), ()), (A, ()), ((), B), (A, B)]
    hosts = [None, ("domain", seq("h")), ("empty",), ("opaque", seq("oh")), ("ipv4", sym("v4"))]
    for h in hosts:
        for us, pw in creds if h is not None else creds[:1] + creds[3:]:
            for port in (None, sym("port", 0, 65535)):
                for q_, fr in itertools.product((None, (), seq("q")), (None, (), seq("f"))):
                    for cbb, path in [(0, x) for x in P] + [(1, (seq("op"),))]:
                        if cbb and h is not None:
                            continue
                        u = mkurl(scheme=ch0("s") + seq("sr"), user=us, host=h, port=port, path=path, query=q_, frag=fr, cbb=cbb)
                        u["pass"] = pw
                        yield u


def ch0(n):
    return (("chr", sym("c_" + n, 0x21, 0x7E)),)


def emp(u):
    def f(o, k):
        its = u["path"][k] if isinstance(k, int) else u[k]
        return not its
    return f


def desc_url(u):
    return "a URL with host %s, credentials '%s'/'%s', port %s, path %s, query %s, fragment %s%s" % (
        u["host"] and u["host"][0], show_items(u["user"]), show_items(u["pass"]), "null" if u["port"] is None else "n", showf("path", u["path"]), show_items(u["query"]), show_items(u["frag"]), ", cannot-be-a-base" if u["cbb"] else "")


def got_str(I, pa, v):
    v = I.lib.get(I, pa.st, v)
    return I.lib.norm(pa.st, v)[1] if v is not None and v[0] == "str" else ("?", v)


def check_serialize(rep, p):
    f = fn(p, "serialize_url", 2)
    rep.count("functions")
    for u in urls():
        rep.count("urls")
        for excl in (0, 1):
            I = interp13(p)
            st = St()
            put_url(I, st, U0, u)
            for pa in I.run(f, st, None, [("ref", U0), C(excl)]):
                rep.count("paths")
                d = desc_url(u) + (" (fragment excluded)" if excl else "")
                if dead(rep, p, f, pa, "serialize_url", d):
                    continue
                got = got_str(I, pa, pa.val)
                for s2, w in outcomes(pa.st, lambda o: spec_ser(o, u, excl, emp(u))):
                    out_eq(rep, p, f, "serialize_url", d, s2, got, w, opq(pa))


def check_equals(rep, p):
    f = fn(p, "equals", 3)
    rep.count("functions")
    A, B = ("UA",), ("UB",)

    def hk(I, st, f2, fi, o, args, e):
        if fi["n"] == "serialize_url":
            x = I.lib.get(I, st, args[1])
            s = get_url(I, st, args[0][1])["scheme"]
            return [(st, ("str", s + S("x" if x == C(0) else "y")))]
        return None
    for same in (0, 1, 2):
        for excl in (0, 1):
            I = interp13(p, hk)
            st = St()
            put_url(I, st, A, mkurl(scheme=S("a")))
            put_url(I, st, B, mkurl(scheme=S("a") if same else S("b")))
            for pa in I.run(f, st, None, [("ref", A), ("ref", B if same != 2 else A), C(excl)]):
                rep.count("paths")
                if dead(rep, p, f, pa, "equals", "two URLs"):
                    continue
                v = I.lib.get(I, pa.st, pa.val)
                if v[0] != "c" or opq(pa):
                    rep.undecided("equals", str(v)[:80])
                elif bool(v[1]) != bool(same):
                    rep.fail("equals", "%s: two URLs whose serializations are %s compare %s (exclude fragments %d)" % (p.where(f), "equal" if same else "different", bool(v[1]), excl))
                else:
                    rep.ok()
    # the comparison serializes both with the caller's flag
    for excl in (0, 1):
        calls = []

        def hk2(I, st, f2, fi, o, args, e):
            if fi["n"] == "serialize_url":
                st.eff = st.eff + (("ser", get_url(I, st, args[0][1])["scheme"], I.lib.get(I, st, args[1])),)
                return [(st, ("str", S("x")))]
            return None
        I = interp13(p, hk2)
        st = St()
        put_url(I, st, A, mkurl(scheme=S("a")))
        put_url(I, st, B, mkurl(scheme=S("b")))
        for pa in I.run(f, st, None, [("ref", A), ("ref", B), C(excl)]):
            sers = sorted((show_items(e[1]), e[2]) for e in pa.st.eff if e[0] == "ser")
            if opq(pa) or not sers:
                rep.undecided("equals", "not by serialization")
            elif sers != [("a", C(excl)), ("b", C(excl))]:
                rep.fail("equals:flag", "%s: with exclude_fragments=%d the URLs are serialized with %s" % (p.where(f), excl, sers))
            else:
                rep.ok()


# ------------------------------------------------------------------------------------------ API
class Parser:
    """the basic URL parser as an operator"""

    def __init__(self, p):
        self.p = p
        self.sv = enum_values(p, "url_parse_state")
        self.names = {v: k for k, v in self.sv.items()}

    def hook(self, I, st, f, fi, o, args, e):
        n = fi["n"]
        if e.get("k") == "Ctor" and n == "basic_url_parser" and len(args) >= 2 and not e.get("cp"):
            a = list(args)
            inp = I.lib.get(I, st, a[0])
            inp = I.lib.norm(st, inp)[1] if inp[0] == "str" else ("?", inp)
            g = lambda k, d: I.lib.get(I, st, a[k]) if len(a) > k else d
            ps = st.meta.get("ps", ())
            base, url = g(2, ("ptr", None)), g(4, ("ptr", None))
            rec = dict(inp=inp, base=base, enc=g(3, C(utf8(self.p))), url=url, ov=g(5, C(0)))
            l = I.newtmp()
            st.heap[l + ("m_state",)] = C(1000 + len(ps))
            st.meta = dict(st.meta, ps=ps + (rec,))
            return [(st, ("ref", l))]
        if n == "run" and "basic_url_parser" in fi["q"] and o is not None:
            l = o[1]
            while l in st.heap and st.heap[l][0] in ("bindref", "alias", "ref", "ptr"):
                l = st.heap[l][1]
            k = st.heap.get(l + ("m_state",))
            if k is None or k[0] != "c":
                return None
            k = k[1] - 1000
            r = st.meta["ps"][k]
            nul = lambda v: v[0] == "ptr" and v[1] is None or v == C(0)
            snap = None if nul(r["url"]) else get_url(I, st, r["url"][1])
            bs = None if nul(r["base"]) else get_url(I, st, r["base"][1]) if r["base"][0] == "ptr" else ("?",)
            st.eff = st.eff + (("run", k, r["inp"], bs, r["enc"], None if nul(r["url"]) else r["url"][1], snap, r["ov"]),)
            out = []
            for okk in (1, 0):
                s = st.fork()
                if okk:
                    m = I.newtmp()
                    put_url(I, s, m, mkurl(scheme=seq("P%d" % k), query=seq("pq%d" % k)))
                    if snap is not None:
                        put_url(I, s, r["url"][1], mkurl(scheme=seq("P%d" % k)))
                    s.meta = dict(s.meta, ok=s.meta.get("ok", ()) + (k,))
                    out.append((s, ("opt", C(1), ("ref", m))))
                else:
                    if snap is not None:
                        put_url(I, s, r["url"][1], mkurl(scheme=seq("F%d" % k)))
                    out.append((s, ("opt", C(0), None)))
            return out
        return None


UP = ("API",)
MU = UP + ("m_url",)


def api_fn(p, name, n, ret=None):
    fs = [i for i in p.byname.get(name, []) if i in p.funcs and p.funcs[i].get("body") is not None and "basic_url<" in p.finfo[i]["q"] and len(p.funcs[i]["params"]) == n]
    if not fs:
        raise Broken("basic_url::%s/%d not found" % (name, n))
    return fs[0]


def ustate(I, u, inp=None):
    st = St()
    put_url(I, st, MU, u)
    if inp is not None:
        st.heap[IN] = ("str", inp)
    return st


def same_url(rep, p, f, I, pa, key, d, want):
    bad = url_diff(pa.st, get_url(I, pa.st, MU), want)
    for k, r in bad:
        if r is False and not opq(pa):
            rep.fail(key + ":" + k, "%s: %s: %s becomes %s, the standard says %s" % (p.where(f), d, k, showf(k, get_url(I, pa.st, MU)[k]), showf(k, want[k])))
        else:
            rep.undecided(key, "%s %s" % (k, str(get_url(I, pa.st, MU)[k])[:60]))
    if not bad:
        rep.ok()


def api_urls():
    A = ch0("u") + seq("ur")
    B = ch0("w") + seq("wr")
    for h in (None, ("domain", ch0("h") + seq("hr")), ("empty",), ("ipv4", sym("v4"))):
        for sch in ("http", "file", "foo"):
            for port in (None, sym("port", 0, 65535)):
                for qf in ((None, None), ((), ()), (ch0("q") + seq("qr"), ch0("f") + seq("fr"))):
                    for cbb, path in ((0, ()), (0, (seq("p0"),)), (0, (ch0("p0") + seq("p0r"), (), seq("p2"))), (0, ((), seq("p1"))), (1, (seq("op"),))):
                        if cbb and h is not None:
                            continue
                        u = mkurl(scheme=S(sch), user=A, host=h, port=port, path=path, query=qf[0], frag=qf[1], cbb=cbb)
                        u["pass"] = B
                        yield u


def getters(u):
    yield "protocol", u["scheme"] + S(":")
    yield "username", u["user"]
    yield "password", u["pass"]
    yield "host", () if u["host"] is None else hs(u["host"]) + (() if u["port"] is None else S(":") + num(u["port"]))
    yield "hostname", () if u["host"] is None else hs(u["host"])
    yield "port", () if u["port"] is None else num(u["port"])
    yield "pathname", u["path"][0] if u["cbb"] else tuple(x for s in u["path"] for x in S("/") + s)
    yield "search", () if not u["query"] else S("?") + u["query"]
    yield "hash", () if not u["frag"] else S("#") + u["frag"]
    yield "href", spec_ser(None, u, 0, emp(u))


def check_getters(rep, p):
    rep.count("functions", 10)
    for u in api_urls():
        rep.count("urls")
        for n, want in getters(u):
            f = api_fn(p, n, 0)
            I = interp13(p)
            st = ustate(I, u)
            for pa in I.run(f, st, ("ptr", UP), []):
                rep.count("paths")
                d = desc_url(u)
                if dead(rep, p, f, pa, n, d):
                    continue
                out_eq(rep, p, f, n + "()", d, pa.st, got_str(I, pa, pa.val), want, opq(pa))
                same_url(rep, p, f, I, pa, n + "()", d, u)
    f = [i for i in p.byname["to_string"] if i in p.funcs and p.finfo[i]["q"].startswith(W) and len(p.funcs[i]["params"]) == 2 and "basic_url" in str(p.finfo[i].get("pt"))]
    if not f:
        raise Broken("to_string(basic_url) not found")
    for u in api_urls():
        for excl in (0, 1):
            I = interp13(p)
            st = ustate(I, u)
            for pa in I.run(f[0], st, None, [("ref", UP), C(excl)]):
                if dead(rep, p, f[0], pa, "to_string", desc_url(u)):
                    continue
                out_eq(rep, p, f[0], "to_string", desc_url(u) + (" (fragment excluded)" if excl else ""), pa.st, got_str(I, pa, pa.val), spec_ser(None, u, excl, emp(u)), opq(pa))


def nocred(u):
    return u["host"] is None or u["host"][0] == "empty" or u["cbb"] or u["scheme"] == S("file")


def setters(u, v):
    """(name, None | ('set', field, value) | (input, state override, url before the parser))"""
    def w(**k):
        x = dict(u)
        x.update(k)
        return x
    up = lambda s: (("seq", ("pe", "is_userinfo_percent_encode_set", s, "UTF_8"), "u32"),) if s else ()
    yield "protocol", ("run", v + S(":"), "SchemeStartState", u)
    yield "username", ("url", u if nocred(u) else w(user=up(v)))
    yield "password", ("url", u if nocred(u) else w(**{"pass": up(v)}))
    yield "host", ("url", u) if u["cbb"] else ("run", v, "HostState", u)
    yield "hostname", ("url", u) if u["cbb"] else ("run", v, "HostnameState", u)
    yield "port", ("url", u) if nocred(u) else ("url", w(port=None)) if not v else ("run", v, "PortState", u)
    yield "pathname", ("url", u) if u["cbb"] else ("run", v, "PathStartState", w(path=()))

    def hd(c):
        return v[1:] if v and v[0] == ("chr", C(ord(c))) else v
    yield "search", ("url", w(query=None)) if not v else ("run", hd("?"), "QueryState", w(query=()))
    yield "hash", ("url", w(frag=None)) if not v else ("run", hd("#"), "FragmentState", w(frag=()))


def run_eq(st, got, want):
    """problem or None"""
    return None


def check_setters(rep, p):
    rep.count("functions", 9)
    A = (("chr", sym("a0", 0x40, 0x7E)),)
    for u in api_urls():
        for v in ((), S("?"), S("#"), S("?") + seq("v"), S("#") + seq("v"), S("??") + seq("v"), S("##"), A + seq("v"), A):
            for n, w in setters(u, v):
                if len(v) != 1 and v != () and n in ("username", "password", "host", "hostname", "protocol") and v[0] != A[0]:
                    continue
                P = Parser(p)
                f = api_fn(p, n, 1)
                I = interp13(p, P.hook)
                st = ustate(I, u, v)
                d = "%s('%s') on %s" % (n, show_items(v), desc_url(u))
                for pa in I.run(f, st, ("ptr", UP), [("ref", IN)]):
                    rep.count("paths")
                    if dead(rep, p, f, pa, n + "(s)", d):
                        continue
                    check_effect(rep, p, f, I, pa, n + "(s)", d, P, w)


def check_effect(rep, p, f, I, pa, key, d, P, w):
    runs = [e for e in pa.st.eff if e[0] == "run"]
    if w[0] == "url":
        if runs:
            (rep.undecided if opq(pa) else rep.fail)(key + ":parses", "%s: %s starts the parser" % (p.where(f), d))
            return
        same_url(rep, p, f, I, pa, key, d, w[1])
        return
    if len(runs) != 1:
        (rep.undecided if opq(pa) or any(e[0] == "run" and q(e[2]) for e in pa.st.eff) else rep.fail)(key + ":parses", "%s: %s runs the parser %d times" % (p.where(f), d, len(runs)))
        return
    _, k, inp, base, enc, url, snap, ov = runs[0]
    _, winp, wst, wurl = w
    probs = []
    r = items_eq(pa.st, inp, winp)
    if r is False:
        probs.append("the parser gets '%s', the standard says '%s'" % (show_items(inp), show_items(winp)))
    if base is not None:
        probs.append("the parser gets a base URL")
    if enc != C(utf8(p)):
        probs.append("the parser gets another encoding")
    if ov != C(P.sv[wst]):
        probs.append("the parser starts in %s, the standard says %s" % (P.names.get(ov[1], ov) if ov[0] == "c" else ov, wst))
    if snap is None or url != MU:
        probs.append("the parser does not work on the object's URL")
    und = r is None or ov[0] != "c" or q(inp)
    if snap is not None:
        for kf, rr in url_diff(pa.st, snap, wurl):
            if rr is False:
                probs.append("before parsing, %s is %s, the standard says %s" % (kf, showf(kf, snap[kf]), showf(kf, wurl[kf])))
            else:
                und = True
    if probs and not opq(pa):
        rep.fail(key + ":parser", "%s: %s: %s" % (p.where(f), d, "; ".join(probs)))
        return
    if und or probs:
        rep.undecided(key, str(probs or inp)[:80])
        return
    okk = k in pa.st.meta.get("ok", ())
    same_url(rep, p, f, I, pa, key + ":after", d, mkurl(scheme=seq(("P%d" if okk else "F%d") % k)))


def check_ctors(rep, p):
    rep.count("functions", 3)
    fs = [i for i in p.byname.get("basic_url", []) if i in p.funcs and p.funcs[i].get("ctor") and p.funcs[i].get("body") is not None and "basic_url<" in p.finfo[i]["q"]]
    c1 = [i for i in fs if len(p.funcs[i]["params"]) == 1 and "basic_url" not in str(p.finfo[i].get("pt"))]
    c2 = [i for i in fs if len(p.funcs[i]["params"]) == 2]
    if not c1 or not c2:
        raise Broken("basic_url constructors not found")
    BL = ("BASE",)
    for f, nb, nm in ((c1[0], 0, "basic_url(url)"), (c2[0], 1, "basic_url(url, base)"), (api_fn(p, "href", 1), 0, "href(s)")):
        for v in ((), seq("v")):
            for b in ((), seq("b")):
                P = Parser(p)
                I = interp13(p, P.hook)
                old = mkurl(scheme=S("old") if nm == "href(s)" else ())
                st = ustate(I, old, v)
                st.heap[BL] = ("str", b)
                for pa in I.run(f, st, ("ptr", UP), [("ref", IN)] + ([("ref", BL)] if nb else [])):
                    rep.count("paths")
                    runs = [e for e in pa.st.eff if e[0] == "run"]
                    okk = pa.st.meta.get("ok", ())
                    if any(e[0] in BADEFF for e in pa.st.eff) or pa.kind == "abort":
                        rep.fail(nm + ":abort", "%s: aborts or reads an absent value" % p.where(f))
                        continue
                    if opq(pa):
                        rep.undecided(nm, "unmodelled %s" % str([e for e in pa.st.eff if e[0] == "opaque"][0])[:80])
                        continue
                    probs = []
                    want = ([(b, None)] if nb else []) + ([(v, "P0" if nb else None)] if not nb or 0 in okk else [])
                    if len(runs) != len(want):
                        probs.append("the parser runs %d times, the standard says %d" % (len(runs), len(want)))
                    else:
                        for e, (wi, wb) in zip(runs, want):
                            if items_eq(pa.st, e[2], wi) is False:
                                probs.append("the parser gets '%s', the standard says '%s'" % (show_items(e[2]), show_items(wi)))
                            if (e[3] is None) != (wb is None) or wb is not None and (q(e[3]) or e[3]["scheme"] != seq(wb)):
                                probs.append("the base URL is %s" % (e[3] and "another" or "missing"))
                            if e[5] is not None or e[7] != C(0):
                                probs.append("the parser runs with a URL or state override")
                            if e[4] != C(utf8(p)):
                                probs.append("the parser gets another encoding")
                    allok = len(okk) == 1 + nb
                    if (pa.kind == "ret") != allok:
                        probs.append("a failure is not thrown" if pa.kind == "ret" else "it throws although parsing succeeded")
                    if probs:
                        rep.fail(nm, "%s: %s: %s" % (p.where(f), nm, "; ".join(probs)))
                        continue
                    same_url(rep, p, f, I, pa, nm, nm, mkurl(scheme=seq("P%d" % nb), query=seq("pq%d" % nb)) if allok else old)


# ------------------------------------------------------------------------------------------ percent coding
def drv(p, name):
    fs = [i for i in p.byname.get(name, []) if i in p.funcs and p.finfo[i]["q"] == name]
    if not fs:
        raise Broken(name + " not found")
    return fs[0]


def check_percent(rep, p):
    rep.count("functions", 6)
    OUT = ("OUT",)
    f = drv(p, "vp_pe")
    where = p.where(fn(p, "percent_encode", 2))
    for b in range(256):
        I = interp13(p)
        st = St()
        st.heap[OUT] = ("str", ())
        for pa in I.run(f, st, None, [C(b), ("ref", OUT)]):
            rep.count("paths")
            if dead(rep, p, f, pa, "percent_encode", "byte %02X" % b):
                continue
            got = get_str(I, pa.st, OUT)
            if q(got) or opq(pa):
                rep.undecided("percent_encode", str(got)[:60])
            elif got != S("%" + HX[b >> 4] + HX[b & 15]):
                rep.fail("percent_encode", "%s: byte %02X becomes '%s'" % (where, b, show_items(got)))
            else:
                rep.ok()
    # serialize_integer
    f = drv(p, "vp_si")
    t = sym("cp", 0, 0xFFFFFFFF)
    for x in [t]:
        I = interp13(p)
        st = St()
        st.heap[OUT] = ("str", ())
        for pa in I.run(f, st, None, [x, ("ref", OUT)]):
            rep.count("paths")
            if dead(rep, p, f, pa, "serialize_integer", "an integer"):
                continue
            want = S(str(x[1])) if x[0] == "c" else num(x)
            out_eq(rep, p, f, "serialize_integer", "an integer", pa.st, get_str(I, pa.st, OUT), want, opq(pa))
    # predicates and decoding
    HEXR = ((48, 57), (65, 70), (97, 102))

    def isp(o, its, k=0):
        return len(its) - k >= 3 and o.isin(its[k][1], (37, 37)) and o.isin(its[k + 1][1], *HEXR) and o.isin(its[k + 2][1], *HEXR)

    def hexv(o, t):
        return sub(t, C(48)) if o.isin(t, (48, 57)) else sub(t, C(55)) if o.isin(t, (65, 70)) else sub(t, C(87))
    for nm_, src, exact in (("vp_spe", "starts_with_percent_encoded_byte", 0), ("vp_ipe", "is_percent_encoded_byte", 1)):
        f = drv(p, nm_)
        where = p.where(fn(p, src, 2))
        for n in range(0, 5):
            its = syms("b", n, 0, 0x10FFFF)
            I = interp13(p)
            st = St()
            st.heap[IN] = ("str", its)
            for pa in I.run(f, st, None, [("ref", IN)]):
                rep.count("paths")
                if dead(rep, p, f, pa, src, "%d characters" % n):
                    continue
                v = I.lib.get(I, pa.st, pa.val)
                for s2, w in outcomes(pa.st, lambda o: isp(o, its) and (not exact or n == 3)):
                    if v[0] != "c" or opq(pa):
                        rep.undecided(src, str(v)[:60])
                    elif bool(v[1]) != bool(w):
                        rep.fail(src, "%s: '%s' answers %s" % (where, ", ".join(str(s2.rng(i[1])) for i in its), bool(v[1])))
                    else:
                        rep.ok()
    f = drv(p, "vp_pd")
    where = p.where(fn(p, "percent_decode", 3))
    PC = S("%")
    for its in [syms("b", n, -128, 127) for n in (0, 1, 2, 3, 4)] + [PC + syms("b", 3, -128, 127), PC + syms("b", 2, 48, 57) + PC + syms("d", 2, 97, 102), PC + syms("b", 2, 48, 57) + PC + syms("d", 1, -128, 127),
                                                                      PC + PC + syms("b", 2, 65, 70), PC + S("4") + PC + syms("b", 2, 48, 57)]:
        I = interp13(p)
        st = St()
        st.heap[IN] = ("str", its)
        st.heap[OUT] = ("str", ())
        for pa in I.run(f, st, None, [("ref", IN), ("ref", OUT)]):
            rep.count("paths")
            if dead(rep, p, f, pa, "percent_decode", "'%s'" % show_items(its)):
                continue

            def spec(o):
                out, k = (), 0
                while k < len(its):
                    if isp(o, its, k):
                        v = add(scale(hexv(o, its[k + 1][1]), 16), hexv(o, its[k + 2][1]))
                        out += (("chr", v),)
                        k += 3
                    else:
                        out += (its[k],)
                        k += 1
                return out
            got = get_str(I, pa.st, OUT)
            for s2, w in outcomes(pa.st, spec):
                if q(got) or opq(pa):
                    rep.undecided("percent_decode", str(got)[:80])
                    continue
                r = len(got) == len(w)
                for a, b in zip(got, w):
                    r = r and a[0] == "chr" and byte_eq(s2, a[1], b[1])
                if r is None:
                    rep.undecided("percent_decode", "bytes")
                elif not r:
                    rep.fail("percent_decode", "%s: bytes %s become '%s', the standard says '%s'" % (where, [str(s2.rng(i[1])) for i in its], show_items(got), show_items(w)))
                else:
                    rep.ok()


def byte_eq(st, a, b):
    """equal modulo 256 (char is signed; wrapping is modulo a multiple of 256)"""
    while a[0] == "wrap":
        a = a[1]
    while b[0] == "wrap":
        b = b[1]
    for d in (0, 256, -256):
        if teq(st, a, add(b, C(d))) is True:
            return True
    for d in (0, 256, -256):
        if teq(st, a, add(b, C(d))) is None:
            r = st.rng(b)
            if r.max() > 127 and r.min() <= 127:
                for part in (ISet(((-1 << 20, 127),)), ISet(((128, 1 << 20),))):
                    s = st.fork()
                    if s.restrict(b, part) and not byte_eq(s, a, b):
                        return None
                return True
            return None
    return False


def check_encode(rep, p):
    """percent-encode after encoding"""
    f = fn(p, "percent_encode_after_encoding", 4)
    rep.count("functions", 3)
    where = p.where(f)
    ename = enum_values(p, "encoding_name")
    setf = {n: next(i for i in p.byname[n] if i in p.funcs) for n in sets() if any(i in p.funcs for i in p.byname.get(n, ()))}
    for sn in sorted(setf):
        for script in ((("b0",), None), ((), None), (("b0", "b1"), None), (("b0",), "cp", (), None), ((), "cp", ("b0",), None), (("b0",), "cp", (), "cp", ("b1",), None)):
            for plus in (0, 1):
                chunks = [script[k] for k in range(0, len(script), 2)]
                errs = [script[k] for k in range(1, len(script), 2)]
                B = {n: sym(n, 0, 255) for n in ("b0", "b1")}
                cp = sym("cp", 128, 0x10FFFF)

                def hk(I, st, f2, fi, o, args, e):
                    n = fi["n"]
                    if n == "get_encoder" and len(args) == 1:
                        st.eff = st.eff + (("enc", I.lib.get(I, st, args[0])),)
                        return [(st, ("opq", "coder"))]
                    if n == "to_io_queue_convert":
                        a, b = I.lib.get(I, st, args[0]), I.lib.get(I, st, args[1])
                        st.eff = st.eff + (("inq", a, b),)
                        return [(st, ("opq", "inq"))]
                    if n == "encode_or_fail":
                        k = st.meta.get("k", 0)
                        if k >= len(chunks):
                            st.eff = st.eff + (("encode-after-end",),)
                            return [(st, ("var", 0, None, ()))]
                        st.meta = dict(st.meta, k=k + 1)
                        st.heap[ec_root(st, args[2][1])] = ("bq", tuple(("chr", B[x]) for x in chunks[k]))
                        m = I.newtmp()
                        VALTS = tuple(I.lib.alts(fi["ret"]))
                        RF = next(j for j, x in enumerate(VALTS) if x.endswith("result_finished"))
                        RE = next(j for j, x in enumerate(VALTS) if x.endswith("result_error"))
                        if errs[k]:
                            st.heap[m + ("code_point",)] = cp
                            return [(st, ("var", RE, ("ref", m), VALTS))]
                        return [(st, ("var", RF, ("ref", m), VALTS))]
                    if n == "from_io_queue_convert" and len(args) == 2:
                        qv = st.heap.get(ec_root(st, args[0][1]))
                        c = I.lib.get(I, st, args[1])
                        if qv is not None and qv[0] == "bq" and c[0] == "bins":
                            for i in qv[1]:
                                I.lib.append(I, st, c[1], i)
                            return [(st, c)]
                    if n == "percent_encode" and len(args) == 2:
                        b = I.lib.get(I, st, args[0])
                        c = I.lib.get(I, st, args[1])
                        if c[0] == "bins":
                            I.lib.append(I, st, c[1], ("seq", ("pct", b), "u32"))
                            return [(st, ("void",))]
                    if n == "serialize_integer" and len(args) == 2:
                        b = I.lib.get(I, st, args[0])
                        c = I.lib.get(I, st, args[1])
                        if c[0] == "bins":
                            I.lib.append(I, st, c[1], num(b)[0])
                            return [(st, ("void",))]
                    return None
                I = interp13(p, hk)
                st = St()
                st.heap[IN] = ("str", seq("in"))
                for pa in I.run(f, st, None, [C(ename["Shift_JIS"]), ("ref", IN), ("fn", setf[sn]), C(plus)]):
                    rep.count("paths")
                    key = "percent_encode_after_encoding"
                    if dead(rep, p, f, pa, key, "a string"):
                        continue
                    M = [(x, x) for x in sets()[sn]] + [(0x7F, 0xFF)]

                    def spec(o):
                        out = ()
                        for ck, er in zip(chunks, errs):
                            for x in ck:
                                b = B[x]
                                if plus and o.isin(b, (0x20, 0x20)):
                                    out += S("+")
                                elif o.isin(b, *M):
                                    out += (("seq", ("pct", b), "u32"),)
                                else:
                                    out += (("chr", b),)
                            if er:
                                out += S("%26%23") + num(cp) + S("%3B")
                        return out
                    got = got_str(I, pa, pa.val)
                    if pa.st.meta.get("k", 0) != len(chunks) or ("encode-after-end",) in pa.st.eff:
                        (rep.undecided if opq(pa) else rep.fail)(key + ":loop", "%s: the encoder runs %d times where the standard runs it %d times" % (where, pa.st.meta.get("k", 0), len(chunks)))
                        continue
                    if [e for e in pa.st.eff if e[0] == "enc"] != [("enc", C(ename["Shift_JIS"]))]:
                        rep.fail(key + ":encoder", "%s: another encoding's encoder is used" % where)
                        continue
                    iq = [e for e in pa.st.eff if e[0] == "inq"]
                    if iq and (len(iq) != 1 or iq[0][1][0] != "it" or iq[0][1][2] != 0 or iq[0][2][0] != "itend"):
                        (rep.undecided if opq(pa) else rep.fail)(key + ":input", "%s: not the whole input is encoded" % where)
                        continue
                    for s2, w in outcomes(pa.st, spec):
                        pct_eq(rep, where, key, sn, s2, got, w, opq(pa))
    # UTF-8 percent-encode
    for f2 in [i for i in p.byname.get("utf8_percent_encode", []) if i in p.funcs]:
        seen = []

        def hk2(I, st, f3, fi, o, args, e):
            if fi["n"] == "percent_encode_after_encoding":
                st.eff = st.eff + (("pe", I.lib.get(I, st, args[0]), I.lib.get(I, st, args[1]), I.lib.get(I, st, args[2]), I.lib.get(I, st, args[3]) if len(args) > 3 else C(0)),)
                return [(st, ("str", seq("R")))]
            return None
        isch = "char32_t" == str(p.finfo[f2]["pt"][0]).strip() or "basic_string" not in str(p.finfo[f2]["pt"][0])
        t = sym("cp", 0, 0x10FFFF)
        I = interp(p, [hk2])
        I.hooks.remove(pe_hook)
        st = St()
        st.heap[IN] = ("str", seq("in"))
        g = ("fn", setf["is_path_percent_encode_set"])
        for pa in I.run(f2, st, None, [t if isch else ("ref", IN), g]):
            es = [e for e in pa.st.eff if e[0] == "pe"]
            want = (("chr", t),) if isch else seq("in")
            if opq(pa):
                rep.undecided("utf8_percent_encode", "unmodelled")
            elif len(es) != 1 or es[0][1] != C(ename["UTF_8"]) or es[0][2] != ("str", want) or es[0][3][1] != g[1] or es[0][4] != C(0) or got_str(I, pa, pa.val) != seq("R"):
                rep.fail("utf8_percent_encode", "%s: does not percent-encode its argument after encoding as UTF-8 (%s)" % (p.where(f2), str(es)[:100]))
            else:
                rep.ok()


def pct_eq(rep, where, key, sn, st, got, want, op):
    if q(got) or op:
        rep.undecided(key, str(got)[:80])
        return
    r = len(got) == len(want)
    for a, b in zip(got, want):
        if not r:
            break
        if a == b:
            continue
        if a[0] != b[0] or a[0] == "seq" and a[1][0] != b[1][0]:
            r = False
        else:
            x, y = (a[1], b[1]) if a[0] == "chr" else (a[1][-1], b[1][-1])
            r = byte_eq(st, x, y) if a[0] == "chr" or a[1][0] == "pct" else teq(st, x, y)
    if r is None:
        rep.undecided(key, "bytes")
    elif r:
        rep.ok()
    else:
        rep.fail(key, "%s: with %s: '%s', the standard says '%s'" % (where, sn, show_items(got), show_items(want)))


def check_spd(rep, p):
    """string percent-decode: percent-decode of the UTF-8 encoding"""
    f = drv(p, "vp_spd")
    rep.count("functions")
    where = p.where(fn(p, "string_percent_decode", 3))
    OUT = ("OUT",)

    def its_of(I, st, a, b):
        a, b = I.lib.get(I, st, a), I.lib.get(I, st, b)
        if a[0] == "it" and b[0] in ("it", "itend") and a[1] == b[1]:
            its = I.lib.items(st, a[1])
            return its[a[2]:] if b[0] == "itend" else its[a[2]:b[2]]
        return ("?", a)

    def hk(I, st, f2, fi, o, args, e):
        n = fi["n"]
        if n == "to_io_queue_convert" and len(args) == 2:
            return [(st, ("queue", its_of(I, st, *args)))]
        if n in ("utf8_encode", "encode") and len(args) >= 2:
            qv = st.heap.get(ec_root(st, args[0][1]))
            if qv is None or qv[0] != "queue" or n == "encode" and I.lib.get(I, st, args[1]) != C(utf8(p)):
                return None
            st.heap[ec_root(st, args[-1][1])] = ("queue", (("seq", ("utf8", qv[1]), "u32"),))
            return [(st, ("void",))]
        if n == "from_io_queue_convert" and len(args) == 2:
            qv = st.heap.get(ec_root(st, args[0][1]))
            c = I.lib.get(I, st, args[1])
            if qv is not None and qv[0] == "queue" and c[0] == "bins":
                for i in qv[1]:
                    I.lib.append(I, st, c[1], i)
                return [(st, c)]
        if n == "percent_decode" and len(args) == 3:
            c = I.lib.get(I, st, args[2])
            if c[0] == "bins":
                I.lib.append(I, st, c[1], ("seq", ("pd", its_of(I, st, args[0], args[1])), "i8"))
                return [(st, ("void",))]
        return None
    for inp in (seq("in"), syms("c", 2, 0, 0x10FFFF)):
        I = interp13(p, hk)
        st = St()
        st.heap[IN] = ("str", inp)
        st.heap[OUT] = ("str", ())
        for pa in I.run(f, st, None, [("ref", IN), ("ref", OUT)]):
            rep.count("paths")
            if dead(rep, p, f, pa, "string_percent_decode", "a string"):
                continue
            got = get_str(I, pa.st, OUT)
            if q(got) or opq(pa):
                rep.undecided("string_percent_decode", str(got)[:80])
            elif got != (("seq", ("pd", (("seq", ("utf8", inp), "u32"),)), "i8"),):
                rep.fail("string_percent_decode", "%s: the output is not the percent-decoding of the input's UTF-8 encoding (%s)" % (where, str(got)[:100]))
            else:
                rep.ok()


def check(rep):
    soften(rep)
    p = export("url.cpp")
    for c in (check_serialize, check_equals, check_getters, check_setters, check_ctors, check_percent, check_encode, check_spd):
        rep.guard(c.__name__, c, rep, p)
    rep.need("functions", 30)

