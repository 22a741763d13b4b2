"""C10: the encoding API moves items between queues exactly as the standard says."""
from coders import *

LEVEL = "other"
RULE = ("process an item, process a queue, BOM sniff, the decode and encode hooks, TextDecoder and the queue operations are interpreted with symbolic items, results, modes and encodings; "
        "every path's queue operations (order, operands, number of bytes read) and answer are compared with the standard's. Queue operations are interpreted on every shape of up to three items with or without end-of-queue.")
ASSUME = ["queue operations depend on the contents only through emptiness, the first and last items and the size, so three items cover all queues"]

QIN, QOUT, COD = ("IN",), ("OUT",), ("COD",)
RES = [("finished", 0), ("continue", 0), ("cps", 1), ("cps", 2), ("bytes", 1), ("bytes", 2), ("bytes", 3), ("bytes", 4), ("error", 1)]
MODES = {"None": 0, "Replacement": 1, "Fatal": 2, "Html": 3}


def check(rep):
    soften(rep)
    p = export("encoding.cpp")
    rep.guard("process_item", process_item, rep, p)
    rep.guard("process_queue", process_queue, rep, p)
    rep.guard("bom_sniff", bom, rep, p)
    rep.guard("hooks", hooks, rep, p)
    rep.guard("io_queue", queues, rep, p)
    rep.guard("text_decoder", textdec, rep, p)
    rep.need("functions", 4)


def root(st, l):
    g = 0
    while l in st.heap and st.heap[l][0] in ("bindref", "alias", "ref") and g < 8:
        l = st.heap[l][1]
        g += 1
    return l


def item_of(I, st, a):
    """(value, eoq) of an item argument"""
    v = I.lib.get(I, st, a)
    if is_int(v):
        return (v, 0)
    if v[0] == "ref":
        l = root(st, v[1])
        e = I.load(st, l + ("m_eoq",), "b1")
        x = I.load(st, l + ("m_value",), "u32")
        if e[0] == "c":
            return (x if not e[1] else None, e[1])
        return (x, e)
    return (v, "?")


class Env:
    """queue, variant and to_chars operations as effects"""

    def __init__(self, reads=None, visit=None):
        self.reads, self.visit = reads, visit

    def hook(self, I, st, f, fi, o, args, e):
        n = fi["n"]
        if o is not None and o[0] in ("ref", "ptr"):
            l = root(st, o[1])
            q = {QIN: "in", QOUT: "out"}.get(l)
            if q and n in ("push", "prepend"):
                if len(args) == 1:
                    st.eff += ((n, q, item_of(I, st, args[0])),)
                    return [(st, ("void",))]
                vs = [I.lib.get(I, st, a) for a in args]
                if len(vs) == 2 and vs[0][0] == "dec" and vs[1][0] == "decend":
                    st.eff += ((n, q, ("dec", vs[0][1])),)
                    return [(st, ("void",))]
                st.eff += ((n, q, ("range", vs[0], vs[1])),)
                return [(st, ("void",))]
            if q and n == "read" and len(args) == 1:
                st.eff += (("read", q, I.lib.get(I, st, args[0])),)
                return [(st, ("opq", "readn"))]
            if q and n in ("read", "peek") and self.reads:
                return self.reads(I, st, q, n, args)
        if n == "visit" and self.visit:
            return self.visit(I, st, args)
        if n == "index" and o is not None:
            v = I.lib.get(I, st, o)
            if v[0] == "res":
                return [(st, C(RES.index((v[1], len(v[2])))))]
        if n in ("get_if", "get") and fi["q"].startswith("std::"):
            v = I.lib.get(I, st, args[0])
            if v[0] in ("ptr", "optr"):
                v = I.lib.get(I, st, ("ref", v[1]))
            m = fi.get("ta", "").strip("<>").split(",")[0].strip().rstrip("ULul")
            if v[0] == "res" and m.isdigit():
                k = RES.index((v[1], len(v[2])))
                if int(m) != k:
                    st.eff += (("bad-get", int(m), k),)
                    return [(st, ("ptr", None) if n == "get_if" else ("opq", "bad-get"))]
                l = ("get", k)
                if v[1] in ("cps", "bytes") and len(v[2]) == 1:
                    st.heap[l] = v[2][0]
                elif v[1] == "error":
                    st.heap[l + ("code_point",)] = v[2][0]
                else:
                    st.heap[l] = ("str", tuple(("chr", x) for x in v[2]))
                return [(st, ("ptr", l) if n == "get_if" else ("ref", l))]
        if n == "holds_alternative":
            v = I.lib.get(I, st, args[0])
            t = tname(fi.get("ta", "").strip("<>").split(",")[0])
            names = {"result_finished": "finished", "result_continue": "continue", "result_error": "error"}
            if v[0] == "res" and t in names:
                return [(st, C(int(v[1] == names[t])))]
        if n == "to_chars":
            v = I.lib.get(I, st, args[2])
            if is_int(v) and (len(args) == 3 or I.lib.get(I, st, args[3]) == C(10)):
                st.meta = dict(st.meta, dec=v)
                return [(st, ("tup", (("decend", v), C(0))))]
        if cls_of(e.get("t") or "").startswith("std::variant<") and e.get("k") == "Ctor" and len(args) == 1:
            t = e["a"][0].get("t", "")
            c = tname(cls_of(t)).lstrip("&")
            if cls_of(t).startswith("std::variant<"):
                return [(st, I.lib.get(I, st, args[0]))]
            if c == "result_finished":
                return [(st, ("res", "finished", ()))]
            if c == "result_continue":
                return [(st, ("res", "continue", ()))]
            if c == "result_error":
                return [(st, ("res", "error", (I.load(st, root(st, args[0][1]) + ("code_point",), "u32"),)))]
            return [(st, ("coder", cls_of(t).replace(NS, "").lstrip("&")))]
        if n == "operator=" and o is not None and o[0] == "ref" and cls_of(fi.get("cls")).startswith("std::variant<"):
            v = I.lib.get(I, st, args[0])
            if v[0] in ("coder", "res"):
                st.heap[root(st, o[1])] = v
                return [(st, o)]
        if n == "data" and o is not None and "dec" in st.meta:
            return [(st, ("dec", st.meta["dec"]))]
        return None


def results(I, st, args=None):
    out = []
    for kind, n in RES:
        s = st.fork()
        w = 0xFF if kind == "bytes" else 0x10FFFF
        v = ("res", kind, tuple(sym("r%d" % i, 0, w) for i in range(n)))
        s.meta = dict(s.meta, visited=s.meta.get("visited", ()) + (v,))
        out.append((s, v))
    return out


def fns(p, name, n, pred=None):
    return [i for i in p.byname.get(name, []) if i in p.funcs and len(p.funcs[i]["params"]) == n and (not pred or pred(p.finfo[i]))]


def char_out(p, i):
    """element type of the output queue of a process_* instantiation"""
    return "char32_t" if "io_queue<char32_t>" in p.finfo[i]["ta"].rsplit("io_queue", 1)[1].join(["io_queue", ""]) else "char"


def process_item(rep, p):
    for i in fns(p, "process_item", 5):
        where = p.where(i)
        ta = p.finfo[i].get("ta", "")
        decode = ta.rstrip("> ").endswith("io_queue<char32_t")
        rep.count("functions")
        for mode in (("Replacement", "Fatal") if decode else ("Html", "Fatal")):
            I = Interp(p, Lib())
            env = Env(visit=lambda I, st, args: results(I, st))
            I.hooks.append(env.hook)
            st = St()
            it = ("ITEM",)
            st.heap[it + ("m_value",)] = sym("x", 0, 0x10FFFF)
            st.heap[it + ("m_eoq",)] = C(0)
            for pa in I.run(i, st, None, [("ref", it), ("ref", COD), ("ref", QIN), ("ref", QOUT), C(MODES[mode])]):
                rep.count("paths")
                vis = pa.st.meta.get("visited", ())
                key = "process_item:%s:%s" % (mode, ta[:40])
                if len(vis) != 1:
                    rep.undecided(key, "coder not run exactly once on a path")
                    continue
                r = vis[0]
                if decode and r[1] == "bytes" or not decode and r[1] == "cps":
                    continue
                got = [x[2] for x in pa.st.eff if x[0] == "push" and x[1] == "out"]
                odd = [x for x in pa.st.eff if x[0] not in ("push",)]
                if pa.kind != "ret":
                    rep.fail(key + ":" + r[1], "%s: aborts when the coder answers %s in mode %s" % (where, show(r), mode))
                    continue
                if r[1] == "finished":
                    want, ans = [(None, 1)], r
                elif r[1] == "error":
                    if mode == "Fatal":
                        want, ans = [], r
                    elif mode == "Replacement":
                        want, ans = [(C(0xFFFD), 0)], None
                    else:
                        want, ans = [(C(0x26), 0), (C(0x23), 0), ("dec", r[2][0]), (C(0x3B), 0)], None
                else:
                    want, ans = [(x, 0) for x in r[2]], None
                ok = len(got) == len(want) and all(same(pa.st, g, w) for g, w in zip(got, want))
                if not ok and any("opq" in repr(g) for g in got):
                    rep.undecided(key, "unmodelled push %r" % (got,))
                    continue
                if not ok:
                    rep.fail(key + ":push:" + r[1], "%s: for the result %s in mode %s pushes %s, the standard pushes %s" % (where, show(r), mode, [sh(x) for x in got], [sh(x) for x in want]))
                    continue
                ans = ans or ("res", "continue", ())
                if pa.val != ans:
                    if pa.val[0] != "res":
                        rep.undecided(key, "unmodelled answer")
                        continue
                    rep.fail(key + ":answer:" + r[1], "%s: for the result %s in mode %s answers %s, the standard %s" % (where, show(r), mode, show(pa.val), show(ans)))
                    continue
                if odd:
                    rep.undecided(key, "other effects %r" % (odd[:2],))
                    continue
                rep.ok()


def sh(x):
    if x[0] == "dec":
        return "decimal of " + pretty(x[1])
    if x[1] == 1:
        return "end-of-queue"
    return pretty(x[0]) if x[0] is not None and is_int(x[0]) else str(x)


def same(st, g, w):
    if g[0] == "dec" or w[0] == "dec":
        return g == w
    if g[1] != w[1]:
        return False
    if w[1] == 1:
        return True
    a, b = g[0], w[0]
    if b[0] == "s" and b[3] == 0xFF:       # bytes: compare modulo 256 (char is signed)
        return teq(st, wrap(st, a, (0, 255)), b) is True
    return teq(st, a, b) is True


def process_queue(rep, p):
    for i in fns(p, "process_queue", 4):
        where = p.where(i)
        rep.count("functions")
        I = Interp(p, Lib())
        cnt = {}

        def reads(I, st, q, n, args):
            k = st.meta.get("nread", 0)
            out = []
            for kind in ("wait", "item", "eoq") if k < 2 else ("wait",):
                s = st.fork()
                s.meta = dict(s.meta, nread=k + 1)
                l = I.newtmp()
                s.heap[l + ("m_wait",)] = C(int(kind == "wait"))
                s.heap[l + ("m_value", "m_eoq")] = C(int(kind == "eoq"))
                s.heap[l + ("m_value", "m_value")] = sym("x%d" % k, 0, 0x10FFFF)
                s.eff += (("read1", kind),)
                out.append((s, ("ref", l)))
            return out
        env = Env(reads=reads)

        def hk(I, st, f, fi, o, args, e):
            if fi["n"] == "process_item" and fi["q"].startswith(NS):
                v = item_of(I, st, args[0])
                m = I.lib.get(I, st, args[4])
                qs = (root(st, args[1][1]), root(st, args[2][1]), root(st, args[3][1]))
                out = []
                for kind in ("continue", "finished", "error"):
                    s = st.fork()
                    s.eff += (("process", v, m, qs, kind),)
                    out.append((s, ("res", kind, (sym("e", 0, 0x10FFFF),) if kind == "error" else ())))
                return out
            return None
        I.hooks += [hk, env.hook]
        M = sym("mode", 0, 3)
        for pa in I.run(i, St(), None, [("ref", COD), ("ref", QIN), ("ref", QOUT), M]):
            rep.count("paths")
            key = "process_queue"
            if pa.kind != "ret":
                rep.undecided(key, "path ends with " + str(pa.kind))
                continue
            ef = list(pa.st.eff)
            bad = None
            k = 0
            while ef and bad is None:
                a = ef.pop(0)
                if a[0] != "read1":
                    bad = "processes an item it did not read"
                    break
                if a[1] == "wait":
                    if ef or pa.val != ("res", "continue", ()):
                        bad = "does not wait when the input has to wait"
                    break
                if not ef or ef[0][0] != "process":
                    bad = "loses an item it read"
                    break
                b = ef.pop(0)
                x = sym("x%d" % k, 0, 0x10FFFF)
                if b[1][1] != int(a[1] == "eoq") or (a[1] == "item" and b[1][0] != x):
                    bad = "passes on another item than the one read"
                if b[2] != M or b[3] != (COD, QIN, QOUT):
                    bad = "passes on another coder, queue or mode"
                k += 1
                if b[4] != "continue":
                    if ef or pa.val[1] != b[4]:
                        bad = "does not stop with the %s result" % b[4]
                    break
            if bad:
                rep.fail(key, "%s: %s" % (where, bad))
                return
            rep.ok()


def bom(rep, p):
    en = dict(next(e for q, e in p.enums.items() if q == NS + "encoding_name")["c"])
    for i in fns(p, "bom_sniff", 1):
        where = p.where(i)
        rep.count("functions")
        for n in (None, 0, 1, 2, 3):
            I = Interp(p, Lib())
            xs = [sym("b%d" % k, 0, 255) for k in range(n or 0)]
            I.hooks.append(Env(reads=peeker(n, xs, p)).hook)
            for pa in I.run(i, St(), None, [("ref", QIN)]):
                rep.count("paths")
                key = "bom_sniff:%s" % n
                v = pa.val
                if pa.kind != "ret" or v[0] != "ref":
                    rep.undecided(key, "unmodelled path")
                    continue
                wait = I.load(pa.st, v[1] + ("m_wait",), "b1")
                val = I.load(pa.st, v[1] + ("m_value",), "u32")
                if any(x[0] not in ("peek",) for x in pa.st.eff):
                    rep.undecided(key, "other effects")
                    continue
                if n is None:
                    if wait == C(1):
                        rep.ok()
                    else:
                        rep.fail(key, "%s: does not wait for more input" % where)
                    continue
                for s2, w in outcomes(pa.st, lambda o: bom_spec(o, xs)):
                    if wait != C(0) or val != C(en[w] if w else 0):
                        rep.fail(key, "%s: with %d bytes %s answers %s%s, the standard %s" % (where, n, [str(s2.rng(x)) for x in xs], pretty(val) if is_int(val) else val, " and waits" if wait != C(0) else "", w))
                    else:
                        rep.ok()


def bom_spec(o, xs):
    def at(k, v):
        return k < len(xs) and o.isin(xs[k], (v, v))
    if at(0, 0xEF) and at(1, 0xBB) and at(2, 0xBF):
        return "UTF_8"
    if at(0, 0xFE) and at(1, 0xFF):
        return "UTF_16BE"
    if at(0, 0xFF) and at(1, 0xFE):
        return "UTF_16LE"
    return None


def peeker(n, xs, p):
    def reads(I, st, q, name, args):
        if name != "peek":
            return None
        want = I.lib.get(I, st, args[0])
        if want[0] != "c":
            return None
        st.eff += (("peek", want[1]),)
        l = I.newtmp()
        st.heap[l + ("m_wait",)] = C(int(n is None))
        its = []
        for k in range(min(n or 0, want[1])):
            e = I.newtmp()
            st.heap[e + ("m_value",)] = wrap(st, xs[k], tinfo("i8"))
            st.heap[e + ("m_eoq",)] = C(0)
            its.append(("chr", ("ref", e)))
        st.heap[l + ("m_value",)] = ("str", tuple(its))
        return [(st, ("ref", l))]
    return reads


def hooks(rep, p):
    import enc_labels as L
    en = dict(next(e for q, e in p.enums.items() if q == NS + "encoding_name")["c"])
    inv = {v: k for k, v in en.items()}
    R = ("res", "R", ())

    def run(fn, n, nbytes, args, visit):
        for i in fns(p, fn, n, lambda fi: fi["q"].startswith(NS + fn)):
            rep.count("functions")
            I = Interp(p, Lib())
            xs = [sym("b%d" % k, 0, 255) for k in range(nbytes or 0)]

            def hk(I, st, f, fi, o, a, e):
                if fi["n"] == "process_queue" and fi["q"].startswith(NS):
                    c = I.lib.get(I, st, a[0])
                    st.eff += (("process", c, root(st, a[1][1]), root(st, a[2][1]), I.lib.get(I, st, a[3])),)
                    if visit == "fail":
                        out = []
                        for r in (("res", "error", (sym("e", 0, 0x10FFFF),)), ("res", "finished", ())):
                            s = st.fork()
                            s.meta = dict(s.meta, r=r)
                            out.append((s, r))
                        return out
                    return [(st, R)]
                return None
            I.hooks += [hk, Env(reads=peeker(nbytes, xs, p)).hook]
            st = St()
            for x in args:
                if x[0] == "s":
                    st.restrict(x, ISet.of(*en.values()))
            for pa in I.run(i, st, None, args):
                rep.count("paths")
                if any(x[0] == "opaque" for x in pa.st.eff):
                    rep.undecided(fn, "unmodelled operation")
                    continue
                yield p.where(i), I, pa, xs

    def judge(fn, where, pa, nread, coder, mode, desc, qs):
        ef = [x for x in pa.st.eff if x[0] != "peek"]
        rd = [x for x in ef if x[0] == "read"]
        pr = [x for x in ef if x[0] == "process"]
        key = "%s:%s" % (fn, desc)
        if pa.kind != "ret":
            rep.fail(key, "%s: aborts for %s" % (where, desc))
            return
        n = 0
        for x in rd:
            if x[2][0] != "c" or x[1] != "in":
                rep.undecided(key, "read of unknown length")
                return
            n += x[2][1]
        if len(pr) != 1 or len(rd) + 1 != len(ef) or ef[-1] != pr[0]:
            rep.undecided(key, "unmodelled sequence of operations %r" % ([x[0] for x in ef],))
            return
        if n != nread:
            rep.fail(key, "%s: removes %d bytes of byte order mark for %s, the standard %d" % (where, n, desc, nread))
            return
        c = pr[0]
        if c[1][0] != "coder":
            rep.undecided(key, "unknown coder")
            return
        if c[1][1] != coder or c[2:4] != qs or c[4] != C(MODES[mode]):
            rep.fail(key, "%s: runs %s in mode %s for %s, the standard runs %s in mode %s" % (where, c[1][1], [k for k, v in MODES.items() if c[4] == C(v)], desc, coder, mode))
            return
        if pa.val != R:
            rep.fail(key, "%s: does not answer with the result of processing the queue for %s" % (where, desc))
            return
        rep.ok()

    two = [("ref", QIN), ("ref", QOUT)]
    for n in (None, 0, 1, 2, 3):
        for where, I, pa, xs in run("utf8_decode", 2, n, two, None):
            if n is None:
                ok = pa.kind == "ret" and pa.val == ("res", "continue", ()) and all(x[0] == "peek" for x in pa.st.eff)
                rep.ok() if ok else rep.fail("utf8_decode:wait", "%s: does not wait for enough input to decide on a byte order mark" % where)
                continue
            for s2, w in outcomes(pa.st, lambda o: bom_spec(o, xs)):
                judge("utf8_decode", where, pa, 3 if w == "UTF_8" else 0, "UTF_8_decoder", "Replacement", "%d bytes%s" % (n, ", byte order mark" if w == "UTF_8" else ""), (QIN, QOUT))
        nm = sym("name", 0, 0xFFFFFFFF)
        for where, I, pa, xs in run("decode", 3, n, [("ref", QIN), nm, ("ref", QOUT)], None):
            if n is None:
                ok = pa.kind == "ret" and pa.val == ("res", "continue", ()) and all(x[0] == "peek" for x in pa.st.eff)
                rep.ok() if ok else rep.fail("decode:wait", "%s: does not wait for enough input to decide on a byte order mark" % where)
                continue
            for s2, w in outcomes(pa.st, lambda o: bom_spec(o, xs)):
                ks = [w] if w else [inv[v] for v in s2.rng(nm).values()]
                for k in ks:
                    judge("decode", where, pa, {None: 0, "UTF_8": 3}.get(w, 2), L.decoder(k), "Replacement", "%d bytes%s, %s" % (n, ", byte order mark" if w else "", k), (QIN, QOUT))
    for where, I, pa, xs in run("utf8_decode_without_bom", 2, 3, two, None):
        judge("utf8_decode_without_bom", where, pa, 0, "UTF_8_decoder", "Replacement", "any input", (QIN, QOUT))
    for where, I, pa, xs in run("utf8_decode_without_bom_or_fail", 2, 3, two, None):
        judge("utf8_decode_without_bom_or_fail", where, pa, 0, "UTF_8_decoder", "Fatal", "any input", (QIN, QOUT))
    for where, I, pa, xs in run("utf8_encode", 2, 3, two, None):
        judge("utf8_encode", where, pa, 0, "UTF_8_encoder", "Html", "any input", (QIN, QOUT))
    nm = sym("name", 0, 0xFFFFFFFF)
    for where, I, pa, xs in run("encode", 3, 3, [("ref", QIN), nm, ("ref", QOUT)], None):
        for v in pa.st.rng(nm).values():
            w = L.encoder(inv[v])
            if w is not None:
                judge("encode", where, pa, 0, w, "Html", inv[v], (QIN, QOUT))
    for where, I, pa, xs in run("encode_or_fail", 3, 3, [("ref", QIN), ("coder", "C"), ("ref", QOUT)], "fail"):
        ef = pa.st.eff
        r = pa.st.meta.get("r")
        if pa.kind != "ret" or r is None:
            rep.undecided("encode_or_fail", "unmodelled path")
            continue
        ok = len(ef) == 2 and ef[0][0] == "process" and ef[0][1:] == (("coder", "C"), QIN, QOUT, C(MODES["Fatal"])) and ef[1][:2] == ("push", "out") and ef[1][2][1] == 1
        if not ok:
            rep.fail("encode_or_fail", "%s: does not process the queue in fatal mode and then push end-of-queue" % where)
        elif pa.val[:2] != r[:2] or (r[1] == "error" and pa.val != r):
            rep.fail("encode_or_fail", "%s: answers %s when processing the queue ends with %s" % (where, show(pa.val), show(r)))
        else:
            rep.ok()


def shapes():
    """queues of up to three items, with or without a trailing end-of-queue"""
    for n in range(4):
        for eoq in (0, 1):
            yield n, eoq


def mkq(st, n, eoq, dom, base="q"):
    its, vals = [], []
    for k in range(n + eoq):
        l = ("ITEM", base, k)
        last = eoq and k == n
        x = C(0) if last else sym("%s%d" % (base, k), *dom)
        st.heap[l + ("m_value",)] = x
        st.heap[l + ("m_eoq",)] = C(int(bool(last)))
        its.append(("chr", ("ref", l)))
        vals.append((None if last else x, int(bool(last))))
    return ("str", tuple(its)), vals


def readq(I, st, v):
    """items of a queue value, or None"""
    if v is None or v[0] != "str":
        return None
    out = []
    for x in I.lib.norm(st, v)[1]:
        if x[0] != "chr":
            return None
        if x[1][0] != "ref":
            out.append((x[1], 0))
            continue
        e = I.load(st, root(st, x[1][1]) + ("m_eoq",), "b1")
        y = I.load(st, root(st, x[1][1]) + ("m_value",), "u32")
        if e[0] != "c":
            return None
        out.append((None if e[1] else y, e[1]))
    return out


def eqq(st, a, b):
    return len(a) == len(b) and all(x[1] == y[1] and (x[1] or teq(st, x[0], y[0]) is True) for x, y in zip(a, b))


def shq(a):
    return "[" + " ".join("EOQ" if x[1] else pretty(x[0]) for x in a) + "]"


def queues(rep, p):
    for t, dom in (("char", (-128, 127)), ("char32_t", (0, 0xFFFFFFFF))):
        cls = "R:" + NS + "io_queue<%s>" % t
        fld = [n for n, ft in Interp(p, Lib()).all_fields(Interp(p, Lib()).rec(cls)) if "deque" in ft or "list" in ft or "vector" in ft]
        if len(fld) != 1:
            rep.undecided("io_queue", "the queue is not stored in one sequence")
            continue
        Q = ("QQ",)

        def run(name, npar, args, n, eoq, prep=None, pred=None):
            for i in p.byname.get(name, []):
                fi = p.finfo[i]
                if i not in p.funcs or fi.get("cls") != cls or len(p.funcs[i]["params"]) != npar or (pred and not pred(fi)):
                    continue
                rep.count("functions")
                I = Interp(p, Lib())
                st = St()
                v, vals = mkq(st, n, eoq, dom)
                st.heap[Q + (fld[0],)] = v
                if prep:
                    prep(st)
                for pa in I.run(i, st, ("ptr", Q), args):
                    rep.count("paths")
                    got = readq(I, pa.st, pa.st.heap.get(Q + (fld[0],)))
                    yield p.where(i), I, pa, vals, got

        def res(I, pa, one):
            v = pa.val
            if v is None or v[0] != "ref":
                return None
            w = I.load(pa.st, root(pa.st, v[1]) + ("m_wait",), "b1")
            if w[0] != "c":
                return None
            if one:
                l = root(pa.st, v[1]) + ("m_value",)
                e = I.load(pa.st, l + ("m_eoq",), "b1")
                x = I.load(pa.st, l + ("m_value",), "u32")
                if e[0] != "c":
                    return None
                return w[1], [(None if e[1] else x, e[1])]
            return w[1], readq(I, pa.st, pa.st.heap.get(root(pa.st, v[1]) + ("m_value",)))

        def verdict(key, where, pa, got, want, ans, wans, desc):
            if any(x[0] == "opaque" for x in pa.st.eff) or got is None or (wans is not None and (ans is None or ans[1] is None)):
                rep.undecided(key, "unmodelled operation for " + desc)
                return
            if pa.kind != "ret" or any(x[0] in ("past-end", "front-of-empty") for x in pa.st.eff):
                rep.fail(key, "%s: reads past the queue or aborts for %s" % (where, desc))
            elif not eqq(pa.st, got, want):
                rep.fail(key, "%s: for %s leaves the queue %s, the standard %s" % (where, desc, shq(got), shq(want)))
            elif wans is not None and (ans[0] != wans[0] or not wans[0] and not eqq(pa.st, ans[1], wans[1])):
                rep.fail(key, "%s: for %s answers %s, the standard %s" % (where, desc, "wait" if ans[0] else shq(ans[1]), "wait" if wans[0] else shq(wans[1])))
            else:
                rep.ok()
        for n, eoq in shapes():
            d0 = "a queue of %d items%s" % (n, " and end-of-queue" if eoq else "")
            for where, I, pa, vals, got in run("read", 0, [], n, eoq):
                want = vals[1:] if n else vals
                verdict("io_queue<%s>::read" % t, where, pa, got, want, res(I, pa, True), (int(not vals), vals[:1]), d0)
            for m in range(0, 5):
                for name in ("read", "peek"):
                    if name == "peek" and m == 0:
                        continue
                    for where, I, pa, vals, got in run(name, 1, [C(m)], n, eoq):
                        wait = int(n < m and not eoq)
                        front = vals[:min(m, n)]
                        want = vals if wait or name == "peek" else vals[len(front):]
                        verdict("io_queue<%s>::%s(n)" % (t, name), where, pa, got, want, res(I, pa, False), (wait, front), "%s and n = %d" % (d0, m))
            x = sym("x", *dom)
            for name in ("push", "prepend"):
                for kind in ("item", "eoq", "char"):
                    L = ("XITEM",)

                    def prep(st):
                        st.heap[L + ("m_value",)] = x if kind != "eoq" else C(0)
                        st.heap[L + ("m_eoq",)] = C(int(kind == "eoq"))
                    arg = x if kind == "char" else ("ref", L)
                    for where, I, pa, vals, got in run(name, 1, [arg], n, eoq, prep, lambda fi: ("io_item" in fi["pt"][0]) == (kind != "char")):
                        new = (None, 1) if kind == "eoq" else (x, 0)
                        if name == "prepend":
                            want = [new] + vals
                        elif eoq:
                            want = vals if kind == "eoq" else vals[:-1] + [new] + vals[-1:]
                        else:
                            want = vals + [new]
                        verdict("io_queue<%s>::%s" % (t, name), where, pa, got, want, None, None, "%s and %s" % (d0, {"item": "an item", "eoq": "end-of-queue", "char": "a value"}[kind]))
                for m in range(0, 3):
                    ys = [sym("y%d" % k, 0, 127) for k in range(m)]
                    RL = ("RANGE",)

                    def prep2(st):
                        st.heap[RL] = ("str", tuple(("chr", y) for y in ys))
                    for where, I, pa, vals, got in run(name, 2, [("it", RL, 0, 0), ("itend", RL)], n, eoq, prep2):
                        new = [(y, 0) for y in ys]
                        if name == "prepend":
                            want = new + vals
                        else:
                            want = vals[:-1] + new + vals[-1:] if eoq else vals + new
                        verdict("io_queue<%s>::%s(range)" % (t, name), where, pa, got, want, None, None, "%s and %d values" % (d0, m))
        # conversions
        for i in fns(p, "from_io_queue_convert", 2, lambda fi: "io_queue<%s>" % t in fi["pt"][0]):
            rep.count("functions")
            for n, eoq in shapes():
                I = Interp(p, Lib())
                st = St()
                v, vals = mkq(st, n, eoq, dom)
                st.heap[Q + (fld[0],)] = v
                O = ("OUTS",)
                st.heap[O] = ("str", ())
                for pa in I.run(i, st, None, [("ref", Q), ("bins", O)]):
                    rep.count("paths")
                    got = readq(I, pa.st, pa.st.heap.get(O))
                    verdict("from_io_queue_convert<%s>" % t, p.where(i), pa, got, vals[:n], None, None, "a queue of %d items%s" % (n, " and end-of-queue" if eoq else ""))
        for i in fns(p, "to_io_queue_convert", 2, lambda fi: fi["ret"] == cls):
            rep.count("functions")
            for m in range(0, 4):
                I = Interp(p, Lib())
                st = St()
                ys = [sym("y%d" % k, 0, 127) for k in range(m)]
                RL = ("RANGE",)
                st.heap[RL] = ("str", tuple(("chr", y) for y in ys))
                for pa in I.run(i, st, None, [("it", RL, 0, 0), ("itend", RL)]):
                    rep.count("paths")
                    got = readq(I, pa.st, pa.st.heap.get(root(pa.st, pa.val[1]) + (fld[0],))) if pa.val and pa.val[0] == "ref" else None
                    verdict("to_io_queue_convert<%s>" % t, p.where(i), pa, got, [(y, 0) for y in ys] + [(None, 1)], None, None, "%d values" % m)


def textdec(rep, p):
    en = dict(next(e for q, e in p.enums.items() if q == NS + "encoding_name")["c"])
    TD = ("TD",)
    cls = "R:" + NS + "text_decoder"
    clean = lambda pa: not any(x[0] == "opaque" and "error" not in str(x) and "exception" not in str(x) for x in pa.st.eff)
    # constructors: RangeError exactly for no encoding and replacement
    for i, fn in list(p.funcs.items()):
        fi = p.finfo[i]
        if not fn.get("ctor") or fi.get("cls") != cls or len(fn["params"]) != 3:
            continue
        rep.count("functions")
        I = Interp(p, Lib())
        nm = sym("name", 0, 0xFFFFFFFF)
        st = St()
        st.restrict(nm, ISet.of(0, *en.values()))
        bylabel = "encoding_name" not in fi["pt"][0]

        def hk(I, st, f, fi, o, a, e):
            if fi["n"] == "get_encoding_name" and fi["q"].startswith(NS):
                st.eff += (("label", I.lib.get(I, st, a[0])),)
                return [(st, nm)]
            return None
        I.hooks.append(hk)
        fa, ig = sym("fatal", 0, 1), sym("ignore", 0, 1)
        lab = ("str", (("seq", "label", "u32"),))
        L = ("LABEL",)
        st.heap[L] = lab
        for pa in I.run(i, st, ("ptr", TD), [("ref", L) if bylabel else nm, fa, ig]):
            rep.count("paths")
            key = "text_decoder:construct"
            labs = [x for x in pa.st.eff if x[0] == "label"]
            if bylabel and len(labs) != 1:
                rep.undecided(key, "label not looked up once")
                continue
            bad = ISet.of(0, en["replacement"])
            r = pa.st.rng(nm)
            if pa.kind == "throw":
                if not (r - bad):
                    rep.ok()
                else:
                    rep.fail(key, "%s: refuses a supported encoding (%s)" % (p.where(i), [k for k, v in en.items() if v in list((r - bad).values())[:3]]))
                continue
            if pa.kind != "ret":
                rep.undecided(key, "path ends with %s" % pa.kind)
                continue
            if r & bad:
                rep.fail(key, "%s: accepts an unknown label or the replacement encoding" % p.where(i))
                continue
            got = I.load(pa.st, TD + ("m_encoding",), "u32")
            mode = I.load(pa.st, TD + ("m_error_mode",), "u32")
            ign = I.load(pa.st, TD + ("m_ignore_bom",), "b1")
            if I.load(pa.st, TD + ("m_do_not_flush",), "b1") != C(0):
                rep.fail(key, "%s: a new decoder starts in the middle of a stream" % p.where(i))
                continue
            for s2, f in split(pa.st, fa):
                if teq(s2, got, nm) is not True or mode != C(MODES["Fatal" if f else "Replacement"]) or teq(s2, ign, ig) is not True:
                    rep.fail(key, "%s: does not store the encoding, error mode or ignore-BOM flag it was given" % p.where(i))
                else:
                    rep.ok()
    # serialize I/O queue
    for i in fns(p, "serialize_io_queue", 2):
        rep.count("functions")
        for n in range(0, 4):
            I = Interp(p, Lib())
            st = St()
            v, vals = mkq(st, n, 1, (0, 0xFFFFFFFF))
            Q = ("QQ",)
            st.heap[Q + ("m_q",)] = v
            nm, ig, seen = sym("name", 0, 0xFFFFFFFF), sym("ignore", 0, 1), sym("seen", 0, 1)
            st.restrict(nm, ISet.of(*en.values()))
            st.heap[TD + ("m_encoding",)] = nm
            st.heap[TD + ("m_ignore_bom",)] = ig
            st.heap[TD + ("m_bom_seen",)] = seen
            for pa in I.run(i, st, None, [("ref", TD), ("ref", Q)]):
                rep.count("paths")
                key = "serialize_io_queue"
                got = readq(I, pa.st, I.lib.get(I, pa.st, pa.val)) if pa.kind == "ret" else None
                if not clean(pa) or got is None:
                    if pa.kind == "abort":
                        rep.fail(key, "%s: aborts" % p.where(i))
                    else:
                        rep.undecided(key, "unmodelled path")
                    continue

                def spec(o):
                    s, out = o.isin(seen, (1, 1)), []
                    for x, _ in vals[:n]:
                        if not s and any(o.isin(nm, (en[k], en[k])) for k in ("UTF_8", "UTF_16BE", "UTF_16LE")) and o.isin(ig, (0, 0)):
                            s = True
                            if o.isin(x, (0xFEFF, 0xFEFF)):
                                continue
                        out.append((x, 0))
                    return tuple(out), s
                for s2, (want, s) in outcomes(pa.st, spec):
                    now = I.load(pa.st, TD + ("m_bom_seen",), "b1")
                    if not eqq(s2, got, list(want)):
                        rep.fail(key, "%s: serializes %s, the standard %s (%s)" % (p.where(i), shq(got), shq(want), s2.rng(nm)))
                    elif teq(s2, now, C(int(s))) is not True:
                        rep.fail(key, "%s: leaves the BOM seen flag wrong" % p.where(i))
                    else:
                        rep.ok()
    # decode
    for i in fns(p, "decode", 3, lambda fi: fi.get("cls") == cls and "nullptr" not in str(fi["pt"])):
        rep.count("functions")
        for dnf in (0, 1):
            for stream in (0, 1):
                I = Interp(p, Lib())
                st = St()
                rest, rv = mkq(st, 1, 1, (-128, 127), "rest")      # left over from an earlier stream
                st.heap[TD + ("m_io_queue", "m_q")] = rest
                st.heap[TD + ("m_do_not_flush",)] = C(dnf)
                st.heap[TD + ("m_decoder",)] = ("coder", "old")
                nm, mode, seen = sym("name", 0, 0xFFFFFFFF), sym("mode", 1, 2), sym("seen", 0, 1)
                st.heap[TD + ("m_encoding",)] = nm
                st.heap[TD + ("m_error_mode",)] = mode
                st.heap[TD + ("m_bom_seen",)] = seen
                y = sym("y", -128, 127)
                R = ("RANGE",)
                st.heap[R] = ("str", (("chr", y),))

                def hk(I, st, f, fi, o, a, e):
                    n = fi["n"]
                    if n == "get_encoding_decoder" and fi["q"].startswith(NS):
                        st.eff += (("decoder", I.lib.get(I, st, a[0])),)
                        return [(st, ("coder", "new"))]
                    if n == "serialize_io_queue" and fi["q"].startswith(NS):
                        st.eff += (("serialize", root(st, a[0][1]), readq(I, st, st.heap.get(root(st, a[1][1]) + ("m_q",))) == [(None, 1)], I.load(st, TD + ("m_bom_seen",), "b1")),)
                        return [(st, ("str", (("seq", "SER", "u32"),)))]
                    if n == "process_item" and fi["q"].startswith(NS):
                        it = item_of(I, st, a[0])
                        k = len([x for x in st.eff if x[0] == "process" and x[1][1] == 1])
                        out = []
                        for kind in ("continue", "finished", "error") if k < 1 else ("finished",):
                            s = st.fork()
                            s.eff += (("process", it, I.lib.get(I, s, a[1]), root(s, a[2][1]), root(s, a[3][1]) != root(s, a[2][1]), I.lib.get(I, s, a[4]), kind),)
                            out.append((s, ("res", kind, (C(0),) if kind == "error" else ())))
                        return out
                    return None
                I.hooks += [hk, Env().hook]
                for pa in I.run(i, st, ("ptr", TD), [("it", R, 0, 0), ("itend", R), C(stream)]):
                    rep.count("paths")
                    key = "text_decoder::decode:%d%d" % (dnf, stream)
                    ef = [x for x in pa.st.eff if x[0] in ("decoder", "serialize", "process")]
                    if not clean(pa):
                        rep.undecided(key, "unmodelled operation %s" % str([x for x in pa.st.eff if x[0] == "opaque"][:1])[:200])
                        continue
                    bad = td_trace(dnf, stream, ef, pa, rv, y, nm, mode, seen, TD)
                    if bad:
                        rep.fail(key, "%s: %s (streaming before %d, now %d)" % (p.where(i), bad, dnf, stream))
                        break
                    if I.load(pa.st, TD + ("m_do_not_flush",), "b1") != C(stream):
                        rep.fail(key, "%s: the do-not-flush flag is not set to the stream argument" % p.where(i))
                        break
                    rep.ok()


def td_trace(dnf, stream, ef, pa, rv, y, nm, mode, seen, TD):
    ds = [x for x in ef if x[0] == "decoder"]
    if (len(ds) > 0) != (not dnf) or any(x[1] != nm for x in ds):
        return "the decoder is %s" % ("kept from the last call" if not dnf else "replaced in the middle of a stream")
    todo = [x for x in rv if not x[1] and dnf] + [(y, 0)]
    ef = [x for x in ef if x[0] != "decoder"]
    k = 0
    ends = 0
    while True:
        item = todo[k] if k < len(todo) else (None, 1)
        k += 1
        if not ef:
            return "stops without an answer"
        x = ef.pop(0)
        if item[1] and stream:
            if x[0] != "serialize":
                return "processes end-of-queue while streaming"
            break
        if x[0] != "process":
            return "answers before all input is processed"
        if x[1][1] != item[1] or (not item[1] and teq(pa.st, x[1][0], item[0]) is not True):
            return "processes another item than the next one of the queue"
        if x[2] != ("coder", "old" if dnf else "new") or x[3] != TD + ("m_io_queue",) or not x[4] or x[5] != mode:
            return "processes the item with another decoder, queue or error mode"
        if x[6] == "error":
            return None if pa.kind == "throw" and not ef else "does not throw when decoding fails"
        if x[6] == "finished":
            if not ef or ef[0][0] != "serialize":
                return "does not answer with the serialized output when finished"
            x = ef.pop(0)
            break
    if ef or pa.kind != "ret":
        return "goes on after the output is serialized"
    if x[1] != TD or not x[2]:
        return "serializes another queue"
    if x[3] != (seen if dnf else C(0)):
        return "the BOM seen flag is %s" % ("changed" if dnf else "not reset")
    if pa.val != ("str", (("seq", "SER", "u32"),)):
        return "answers something else than the serialized output"
    return None


def split(st, x):
    """(state, bool) for both truth values of the flag x"""
    out = []
    for b in (0, 1):
        s = st.fork()
        if s.restrict(x, ISet.of(b)):
            out.append((s, b))
    return out
