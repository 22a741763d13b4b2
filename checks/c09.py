"""C09: labels, names, decoders, encoders and output encodings correspond as the standard says."""
from coders import *
from enc_labels import *
import tables as TB

LEVEL = "other"
RULE = ("The label table, as the compiler sees its initialiser, is compared with the standard's list; the functions from encoding to label, decoder, encoder and output encoding are interpreted with a symbolic encoding, "
        "and every path's answer is compared with the standard's for each encoding on it; the label lookup is interpreted with an arbitrary label and must look up its stripped, ASCII-lowercased form.")
ASSUME = ["stripping and lowercasing behave as the Infra standard says"]

ENUM = "wordring::whatwg::encoding::encoding_name"


def pairs(x, out):
    if isinstance(x, dict):
        a = x.get("a")
        if isinstance(a, list) and len(a) == 2 and all(isinstance(y, dict) for y in a):
            s = strof(a[0])
            if s is not None and a[1].get("k") == "Int":
                out.append((s, a[1]["v"], x.get("l")))
                return out
        for v in x.values():
            pairs(v, out)
    elif isinstance(x, list):
        for v in x:
            pairs(v, out)
    return out


def strof(x):
    if x.get("k") == "Str":
        return "".join(map(chr, x["v"]))
    a = x.get("a")
    if isinstance(a, list) and len(a) == 1 and isinstance(a[0], dict):
        return strof(a[0])
    if isinstance(x.get("e"), dict):
        return strof(x["e"])
    return None


def check(rep):
    p = export(os.path.join(REPO, "lib/whatwg/encoding/encoding.cpp"))
    en = {n: v for n, v in next(e for q, e in p.enums.items() if q == ENUM)["c"]}
    for n in LABELS:
        if n not in en:
            raise Broken("enumerator %s not found" % n)
    inv = {v: n for n, v in en.items()}
    rep.guard("labels", labels, rep, p, en, inv)
    rep.guard("get_encoding_name", lookup, rep, p)
    rep.guard("get_encoding_label", by_name, rep, p, "get_encoding_label", en, lambda k: NAMES[k], text)
    rep.guard("get_output_encoding_name", by_name, rep, p, "get_output_encoding_name", en, lambda k: output(k), lambda I, s, v: inv.get(v[1]) if v[0] == "c" else None)
    rep.guard("get_encoding_decoder", by_name, rep, p, "get_encoding_decoder", en, decoder, coder)
    rep.guard("get_encoding_encoder", by_name, rep, p, "get_encoding_encoder", en, encoder, coder)
    rep.guard("get_encoder", by_name, rep, p, "get_encoder", en, encoder, coder)
    rep.need("encodings", 100)


def text(I, s, v):
    v = I.lib.get(I, s, v)
    if v[0] == "str" and all(x[0] == "chr" and x[1][0] == "c" for x in v[1]):
        return "".join(chr(x[1][1]) for x in v[1])
    return None


def coder(I, s, v):
    v = I.lib.get(I, s, v)
    return v[1] if v[0] == "coder" else None


def hook(I, st, f, fi, o, args, e):
    if cls_of(e.get("t") or "").startswith("std::variant<") and e.get("k") == "Ctor" and len(args) == 1:
        t = cls_of(e["a"][0].get("t", ""))
        if t.startswith("std::variant<"):
            return [(st, I.lib.get(I, st, args[0]))]
        return [(st, ("coder", t.replace(NS, "").lstrip("&")))]
    return None


def by_name(rep, p, fn, en, want, proj):
    i = p.find(fn, pred=lambda fi, f: len(f["params"]) == 1)
    where = p.where(i)
    I = Interp(p, Lib())
    I.hooks.append(hook)
    x = sym("name", 0, 0xFFFFFFFF)
    st = St()
    st.restrict(x, ISet.of(*en.values()))
    done = set()
    inv = {v: n for n, v in en.items()}
    for pa in I.run(i, st, None, [x]):
        dead = pa.kind != "ret" or "dead" in pa.st.meta
        for v in pa.st.rng(x).values():
            k = inv[v]
            done.add(k)
            w = want(k)
            if dead:
                if w is not None:
                    rep.fail("%s:%s" % (fn, k), "%s: %s aborts for %s, the standard says %s" % (where, fn, k, w))
                else:
                    rep.ok()
                continue
            if w is None:
                continue
            val = pa.val
            if val == x:
                val = C(v)
            g = proj(I, pa.st, val)
            if g is None:
                rep.undecided("%s:%s" % (fn, k), "unmodelled answer %r" % (val[:2],))
            elif g != w:
                rep.fail("%s:%s" % (fn, k), "%s: %s answers %s for %s, the standard says %s" % (where, fn, g, k, w))
            else:
                rep.ok()
            rep.count("encodings")
    for k in en:
        if k not in done:
            rep.fail("%s:%s" % (fn, k), "%s: %s has no answer for %s" % (where, fn, k))


def labels(rep, p, en, inv):
    best = None
    for q, g in p.globals.items():
        if g.get("init") is not None:
            t = pairs(g["init"], [])
            if len(t) > 100:
                best = (q, g, t)
    if best is None:
        rep.undecided("labels", "no table of labels found")
        return
    q, g, t = best
    f = short(g["file"])
    got = {}
    for s, v, l in t:
        got.setdefault(s, (v, l))
    req = {l: k for k, ls in LABELS.items() for l in ls.split()}
    opt = {l: k for k, ls in LATER.items() for l in ls.split()}
    for l, k in req.items():
        rep.count("labels")
        if l not in got:
            rep.fail("label:" + l, "%s: %s lacks the label \"%s\" (%s)" % (f, q, l, k))
        elif inv.get(got[l][0]) != k:
            rep.fail("label:" + l, "%s:%s: %s maps \"%s\" to %s, the standard to %s" % (f, got[l][1], q, l, inv.get(got[l][0]), k))
        else:
            rep.ok()
    for l in got:
        if l not in req and opt.get(l) != inv.get(got[l][0]):
            rep.fail("label:" + l, "%s:%s: %s has the label \"%s\", which the standard does not" % (f, got[l][1], q, l))


def lookup(rep, p):
    i = p.find("get_encoding_name", pred=lambda fi, f: len(f["params"]) == 1)
    where = p.where(i)
    I = Interp(p, Lib())

    def fold(name):
        def h(I, st, args):
            pass
        return h

    def hk(I, st, f, fi, o, args, e):
        n = fi["n"]
        if n in ("strip_leading_and_trailing_ascii_whitespace", "to_ascii_lowercase"):
            src = seqof(I, st, args)
            dst = [I.lib.get(I, st, a) for a in args]
            b = [d for d in dst if d[0] == "bins"]
            if src is not None and b:
                I.lib.append(I, st, b[0][1], ("seq", ("strip" if n[0] == "s" else "lower", src)))
                return [(st, ("void",))]
            if src is not None and len(args) <= 2:
                return [(st, ("str", (("seq", ("strip" if n[0] == "s" else "lower", src)),)))]
        if o is not None and o[0] == "ref" and o[1][0] == "g" and n in ("find", "end", "cend", "count", "contains", "at", "operator[]"):
            if n in ("find", "count", "contains"):
                v = I.lib.sval(I, st, args[0])
                s1, s2 = st.fork(), st.fork()
                s1.eff += (("lookup", v, True),)
                s2.eff += (("lookup", v, False),)
                if n == "find":
                    return [(s1, ("mapit", True)), (s2, ("mapit", False))]
                return [(s1, C(1)), (s2, C(0))]
            if n in ("end", "cend"):
                return [(st, ("mapit", False))]
            if n == "at" or n == "operator[]":
                st.eff += (("at", I.lib.sval(I, st, args[0])),)
                return [(st, ("s", "entry", 0, 0xFFFFFFFF))]
        vs = [I.lib.get(I, st, a) for a in ([o] if o else []) + list(args)]
        if vs and vs[0][0] == "mapit":
            if n in ("operator==", "operator!=") and vs[1][0] == "mapit":
                return [(st, C(int((vs[0] == vs[1]) == (n == "operator=="))))]
            if n in ("operator->", "operator*"):
                if not vs[0][1]:
                    st.eff += (("past-end",),)
                l = ("entry",)
                st.heap[l + ("second",)] = ("s", "entry", 0, 0xFFFFFFFF)
                return [(st, ("ptr", l) if n == "operator->" else ("ref", l))]
        return None

    def seqof(I, st, args):
        vs = [I.lib.get(I, st, a) for a in args]
        for a, v in zip(args, vs):
            loc = v[1] if v[0] in ("it", "cur") else None
            s = I.lib.sval(I, st, ("ref", loc) if v[0] == "it" else a) if v[0] in ("it", "str", "ref") else None
            if s is not None and s[0] == "str" and len(s[1]) == 1 and s[1][0][0] == "seq":
                return s[1][0][1]
        return None
    I.hooks.append(hk)
    st = St()
    st.heap[("arg",)] = ("str", (("seq", "LABEL"),))
    rep.count("lookups")
    want = {("str", (("seq", ("lower", ("strip", "LABEL"))),)), ("str", (("seq", ("strip", ("lower", "LABEL"))),))}
    for pa in I.run(i, st, None, [("ref", ("arg",))]):
        lk = [e for e in pa.st.eff if e[0] == "lookup"]
        if pa.kind != "ret" or not lk or any(e[0] in ("opaque",) for e in pa.st.eff):
            rep.undecided("get_encoding_name", "unmodelled lookup")
            return
        if lk[0][1] not in want:
            if "LABEL" in repr(lk[0][1]) and "opq" not in repr(lk[0][1]):
                rep.fail("get_encoding_name", "%s: looks up %r, not the stripped and lowercased label" % (where, lk[0][1]))
            else:
                rep.undecided("get_encoding_name", "unmodelled key %r" % (lk[0][1],))
            return
        w = ("s", "entry", 0, 0xFFFFFFFF) if lk[0][2] else C(0)
        if any(e[0] == "past-end" for e in pa.st.eff) or pa.val != w:
            rep.fail("get_encoding_name", "%s: a label that is %s answers %r" % (where, "known" if lk[0][2] else "unknown", pa.val))
            return
        rep.ok()
