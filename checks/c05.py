"""C05: the HTML input stream delivers the normalised input once, in order, and its look-ahead is exact."""
from htmltok import *

LEVEL = "other"
RULE = ("Partitioned abstract interpretation of every input stream operation from an arbitrary stream state: newline normalisation as a transducer (fixpoint over the stream's flags "
        "with a bounded lag against the standard's preprocessing), preprocessing errors per code point, consume/reconsume/fill/match/flush against their contracts.")
ASSUME = ["match is decided for the five labels the tokenizer uses, flush for up to four buffered characters, the longest-match search for up to four characters along one trie path"]
MC = ROOT + ("m_c",)
FLAGS = ("m_eof", "m_eof_consumed", "m_cr_state")


class Stream:
    def __init__(self, p):
        self.p = p
        self.I = Interp(p, Lib())
        self.I.hooks.append(self.hook)
        self.on_emit = None

    def fn(self, name, nargs=None):
        return self.p.find(name, prefix=STREAM, pred=lambda fi, fn: nargs is None or len(fn["params"]) == nargs)

    def hook(self, I, st, f, fi, o, args, e):
        n = fi["n"]
        if n == "on_report_error":
            st.eff += (("err", I.lib.get(I, st, args[0])),)
            return [(st, ("void",))]
        if n == "on_emit_code_point":
            if self.on_emit:
                return self.on_emit(I, st)
            st.eff += (("run", I.lib.norm(st, I.load(st, MC, "R:std::deque<char32_t>"))[1], self.flags(st)),)
            st.heap[MC] = ("str", ())
            return [(st, ("void",))]
        if "curmode" in st.meta and o is not None and o[0] == "ref" and self.root(st, o[1]) == MC:
            if n in ("begin", "cbegin"):
                return [(st, ("cur", "S", C(0)))]
            if n in ("end", "cend"):
                return [(st, ("end", "S"))]
            if n == "size":
                return [(st, slen("S"))]
            if n == "empty":
                return I.compare(st, "==", slen("S"), C(0))
            if n in ("operator[]", "at"):
                return [(st, I.lib.cur_read(I, st, ("cur", "S", I.lib.get(I, st, args[0]))))]
            if n == "front":
                return [(st, I.lib.cur_read(I, st, ("cur", "S", C(0))))]
        if "trie" in st.meta:
            r = self.trie(I, st, n, fi, o, args)
            if r is not None:
                return r
        return None

    def root(self, st, l):
        g = 0
        while l in st.heap and st.heap[l][0] in ("bindref", "alias") and g < 8:
            l = st.heap[l][1]
            g += 1
        return l

    def trie(self, I, st, n, fi, o, args):
        cls = fi.get("cls", "")
        vs = [I.lib.get(I, st, x) for x in ([o] if o is not None else []) + list(args)]
        if o is not None and o[0] == "ref" and o[1][0] == "g" and "named_character_reference" in o[1][1]:
            if "map" in o[1][1]:
                if n in ("operator[]", "at"):
                    return [(st, codes(vs[1]))]
                return None
            if n in ("begin", "cbegin"):
                return [(st, ("node", 0))]
            if n in ("end", "cend"):
                return [(st, ("node", None))]
            if n in ("at", "operator[]"):
                if vs[1][0] == "node":
                    return [(st, ("s", ("index", vs[1][1]), 0, 0xFFFFFFFF))]
        if len(vs) == 1 and vs[0] is not None and vs[0][:1] == ("s",) and isinstance(vs[0][1], tuple) and vs[0][1][0] == "index" and n.startswith("operator "):
            return [(st, vs[0])]
        if any(v is not None and v[0] == "node" for v in vs):
            v = vs[0]
            if o is None and len(vs) == 1 and "ret" in fi and fi.get("cls", "").endswith(fi["q"].rsplit("::", 1)[0].split("<")[0]) or (o is None and len(vs) == 1 and fi["n"] in fi.get("cls", "")):
                return [(st, v)]
            if n in ("operator==", "operator!=") and len(vs) == 2:
                return [(st, C(int((vs[0] == vs[1]) == (n == "operator=="))))]
            if n == "operator=" and len(vs) == 2:
                st.heap[self.root(st, o[1])] = vs[1]
                return [(st, o)]
            if v[0] != "node":
                return None
            if n == "operator[]":
                if v[1] is None:
                    st.eff += (("past-end",),)
                    return [(st, v)]
                if vs[1] != sym(("in", "S", v[1]), 0, 0xFFFFFFFF):
                    st.eff += (("wrong character", vs[1]),)
                out = []
                for s, b in I.branch(st, ("s", ("child", v[1] + 1), 0, 1)):
                    out.append((s, ("node", v[1] + 1 if b else None)))
                return out
            if n in ("operator bool",) or n.startswith("operator bool"):
                if v[1] is None or v[1] == 0:
                    return [(st, C(0))]
                return [(s, C(int(b))) for s, b in I.branch(st, ("s", ("has", v[1]), 0, 1))]
            if n == "parent":
                return [(st, ("node", v[1] - 1 if v[1] else None))]
            if n == "string":
                return [(st, ("void",))]
        return None

    def flags(self, st):
        return tuple(st.heap.get(ROOT + (f,)) for f in FLAGS)

    def start(self, **k):
        st = St()
        for f in FLAGS:
            if f in k:
                st.heap[ROOT + (f,)] = C(int(k[f]))
        if "m_c" in k:
            st.heap[MC] = ("str", k["m_c"])
        return st

    def run(self, name, st, args=(), nargs=None):
        f = self.fn(name, nargs)
        return f, self.I.run(f, st, ("ptr", ROOT), list(args))


def check(rep):
    p = export("html.cpp")
    S = Stream(p)
    for nm, g in (("newlines", newlines), ("errors", errors), ("consume", consume), ("fill", fill), ("match", match), ("flush", flush), ("named", named)):
        rep.guard(nm, g, S, rep)
    rep.need("operations", 6)


def delivered(rep, S, pa, key, where):
    """the code points handed to the tokenizer, in order; each delivery must contain exactly one new code point"""
    out = []
    for x in pa.st.eff:
        if x[0] == "run":
            out.append(tuple(i[1] for i in x[1]))
    return out


def newlines(S, rep):
    rep.count("operations")
    I = S.I
    CR, LF = 0xD, 0xA
    other = ISet(((0, 0xFFFFFFFF),)) - ISet.of(CR, LF)
    f = S.fn("push_code_point")
    fe = S.fn("push_eof")
    scal = [(n, t) for n, t in I.all_fields(I.rec("R:" + [c for c in p_records(S.p) if c.startswith(STREAM)][0])) if tinfo(t) and n != "m_current_input_character"]
    # flags after construction and after clear()
    init = []
    for nm in ("clear",):
        for pa in S.run(nm, S.start())[1]:
            init.append(tuple(pa.st.heap.get(ROOT + (n,), None) for n, t in scal))
    seen = set()
    work = [(i, False, ()) for i in init if all(v is not None and v[0] == "c" for v in i)]
    if not work:
        rep.undecided("newlines", "the stream's initial flags are not constants")
        return
    while work:
        fl, skip, lag = work.pop()
        if (fl, skip, lag) in seen:
            continue
        seen.add((fl, skip, lag))
        if len(seen) > 64:
            rep.undecided("newlines", "no fixpoint")
            return
        for name, R in (("CR", ISet.of(CR)), ("LF", ISet.of(LF)), ("other", other)):
            st = S.start(m_c=())
            for (n, t), v in zip(scal, fl):
                st.heap[ROOT + (n,)] = v
            cp = sym("cp", 0, 0xFFFFFFFF)
            st.restrict(cp, R)
            ref = lag + ((("c", LF),) if name == "CR" else () if (name == "LF" and skip) else (("c", LF),) if name == "LF" else (cp,))
            for pa in I.run(f, st, ("ptr", ROOT), [cp]):
                where = S.p.where(f)
                ds = delivered(rep, S, pa, "newlines", where)
                got = tuple(x for d in ds for x in d)
                rest = pa.st.heap.get(MC, ("str", ()))
                rep.count("obligations")
                if name != "other":
                    got = tuple(C(pa.st.rng(x).min()) if pa.st.rng(x).size() == 1 else x for x in got)
                if opaque(pa.st.eff) or pa.kind != "ret":
                    rep.undecided("newlines", "unmodelled %s" % opaque(pa.st.eff))
                elif any(len(d) != 1 for d in ds) or rest[1]:
                    rep.fail("newline:%s:batch" % name, "%s: the tokenizer is not run once for each delivered code point (input %s)" % (where, name))
                elif got != ref[:len(got)]:
                    rep.fail("newline:%s:%s" % (name, "after CR" if skip else "plain"), "%s: input %s%s delivers %s; the standard delivers %s" % (where, name, " after a CR" if skip else "", fmt(got), fmt(ref)))
                elif len(ref) - len(got) > 1 or any(x[0] != "c" for x in ref[len(got):]):
                    rep.fail("newline:%s:lag" % name, "%s: input %s%s is held back: delivered %s of %s" % (where, name, " after a CR" if skip else "", fmt(got), fmt(ref)))
                else:
                    rep.ok("%s: input %s%s delivers %s" % (where, name, " after a CR" if skip else "", fmt(got)))
                    nf = tuple(pa.st.heap.get(ROOT + (n,), v) for (n, t), v in zip(scal, fl))
                    if all(v[0] == "c" for v in nf):
                        work.append((nf, name == "CR", ref[len(got):]))
        # end of input
        st = S.start(m_c=())
        for (n, t), v in zip(scal, fl):
            st.heap[ROOT + (n,)] = v
        for pa in I.run(fe, st, ("ptr", ROOT), []):
            where = S.p.where(fe)
            runs = [x for x in pa.st.eff if x[0] == "run"]
            got = tuple(i[1] for x in runs for i in x[1])
            rep.count("obligations")
            k = FLAGS.index("m_eof")
            if opaque(pa.st.eff) or pa.kind != "ret":
                rep.undecided("eof", "unmodelled %s" % opaque(pa.st.eff))
            elif got != lag:
                rep.fail("newline:eof", "%s: at the end of input %s is delivered; %s is outstanding" % (where, fmt(got), fmt(lag)))
            elif not runs or runs[-1][2][k] != C(1) or runs[-1][1]:
                rep.fail("eof:signal", "%s: the tokenizer is not run with the end of input set" % where)
            elif any(x[2][k] == C(1) for x in runs[:-1]):
                rep.fail("eof:twice", "%s: the tokenizer is run %d times after the end of input was set: a state that waits for the end delivers it twice" % (where, sum(x[2][k] == C(1) for x in runs)))
            else:
                rep.ok("%s: the end of input is delivered once, after %s" % (where, fmt(lag) or "nothing"))


def codes(i):
    return ("str", tuple(("chr", sym(("code", k, i), 0, 0xFFFFFFFF)) for k in (0, 1)))


def p_records(p):
    return list(p.records)


def fmt(xs):
    return " ".join("U+%04X" % x[1] if x[0] == "c" else "the code point" for x in xs)


def errors(S, rep):
    rep.count("operations")
    en = [e for k, e in S.p.enums.items() if k.endswith("::error_name")]
    nm = {v: n for n, v in en[0]["c"]}
    f = S.fn("push_code_point")
    where = S.p.where(f)
    sur = ISet.of((0xD800, 0xDFFF))
    non = ISet.of((0xFDD0, 0xFDEF), *[(k * 0x10000 + 0xFFFE, k * 0x10000 + 0xFFFF) for k in range(17)])
    ctl = ISet.of((1, 8), 0xB, (0xE, 0x1F), (0x7F, 0x9F))
    want = {"surrogate_in_input_stream": sur, "noncharacter_in_input_stream": non, "control_character_in_input_stream": ctl}
    got = {k: EMPTY for k in want}
    for pa in S.run("push_code_point", S.start(m_c=()), [sym("cp", 0, 0xFFFFFFFF)])[1]:
        r = pa.st.rng(sym("cp", 0, 0xFFFFFFFF))
        if opaque(pa.st.eff):
            rep.undecided("errors", opaque(pa.st.eff))
            return
        for x in pa.st.eff:
            if x[0] == "err":
                k = nm.get(x[1][1]) if x[1][0] == "c" else None
                got[k] = got.get(k, EMPTY) | r
    for k, w in want.items():
        g = got[k] & ISet.of((0, 0x10FFFF))
        rep.count("obligations")
        if g == w:
            rep.ok("%s reports %s for exactly %s" % (where, k, str(w)[:60]))
        else:
            rep.fail("input error:" + k, "%s: %s is reported for %s too much and missing for %s" % (where, k, g - w, w - g))


def consume(S, rep):
    rep.count("operations")
    I = S.I
    c0, R = sym("c0", 0, 0xFFFFFFFF), ("seq", "R", "u32")
    cur = ROOT + ("m_current_input_character",)
    for nonempty in (True, False):
        st = S.start(m_c=(("chr", c0), R) if nonempty else (), m_eof_consumed=0, **({} if nonempty else {"m_eof": 1}))
        f, ps = S.run("consume", st, nargs=0)
        for pa in ps:
            s = pa.st
            rep.count("obligations")
            if opaque(s.eff) or pa.kind != "ret":
                rep.undecided("consume", "unmodelled %s" % opaque(s.eff))
                continue
            mc = I.lib.items(s, MC)
            ec = s.heap[ROOT + ("m_eof_consumed",)]
            if nonempty and (mc != (R,) or pa.val != c0 or ec != C(0)):
                rep.fail("consume", "%s: consuming returns %s and leaves %s; expected the first character and the rest" % (S.p.where(f), pa.val, mc))
            elif not nonempty and (mc != () or ec != C(1)):
                rep.fail("consume:eof", "%s: consuming at the end of input does not signal the end" % S.p.where(f))
            else:
                rep.ok()
            g = S.fn("reconsume", 0)
            for pb in I.run(g, s, ("ptr", ROOT), []):
                rep.count("obligations")
                s2 = pb.st
                mc = I.lib.items(s2, MC)
                ok = mc == ((("chr", c0), R) if nonempty else ()) and s2.heap[ROOT + ("m_eof_consumed",)] == C(0)
                if opaque(s2.eff):
                    rep.undecided("reconsume", opaque(s2.eff))
                elif ok:
                    rep.ok("%s undoes a consume (%s)" % (S.p.where(g), "character" if nonempty else "end of input"))
                else:
                    rep.fail("reconsume:%d" % nonempty, "%s: reconsuming %s does not restore the input" % (S.p.where(g), "a character" if nonempty else "the end of input"))
    # eof(), current and next character
    for nm, pre, want in (("current_input_character", None, None),):
        pass
    for v in (0, 1):
        f, ps = S.run("eof", S.start(m_eof_consumed=v))
        for pa in ps:
            rep.count("obligations")
            rep.ok() if pa.val == C(v) else rep.fail("eof", "%s: eof() is wrong" % S.p.where(f))
    f, ps = S.run("next_input_character", S.start(m_c=(("chr", c0), R)))
    for pa in ps:
        rep.count("obligations")
        if pa.kind == "ret":
            rep.ok() if pa.val == c0 else rep.fail("next", "%s: the next input character is not the first buffered one" % S.p.where(f))
    # consume(n)
    for n in range(0, 4):
        cs = tuple(("chr", sym("c%d" % i, 0, 0xFFFFFFFF)) for i in range(n))
        try:
            f, ps = S.run("consume", S.start(m_c=cs + (R,), m_eof_consumed=0), [C(n)], nargs=1)
        except Broken:
            break
        for pa in ps:
            rep.count("obligations")
            if I.lib.items(pa.st, MC) == (R,):
                rep.ok()
            else:
                rep.fail("consume(n)", "%s: consuming %d characters leaves %s" % (S.p.where(f), n, I.lib.items(pa.st, MC)))


def fill(S, rep):
    rep.count("operations")
    I = S.I
    n = sym("n", 0, 0xFFFFFFFF)
    st = S.start(m_c=(("seq", "S", "u32"),))
    st.restrict(slen("S"), ISet.of((0, 0xFFFFFFFF)))
    f, ps = S.run("fill", st, [n])
    for pa in ps:
        if opaque(pa.st.eff):
            rep.undecided("fill", opaque(pa.st.eff))
            continue
        e = I.load(pa.st, ROOT + ("m_eof",), "b1")
        for s, b in I.branch(pa.st.fork(), e):
            for s2, v in ([(s, C(1))] if b else I.compare(s, ">=", slen("S"), n)):
                for s3, r in I.branch(s2, pa.val):
                    rep.count("obligations")
                    if r == bool(v[1]):
                        rep.ok("%s is true exactly when the input ended or n characters are buffered" % S.p.where(f))
                    else:
                        rep.fail("fill:%s" % ("eof" if b else "len"), "%s: answers %s when %s" % (S.p.where(f), r, "the input has ended" if b else "%s than n characters are buffered" % ("no fewer" if v[1] else "fewer")))


def match(S, rep):
    rep.count("operations")
    I = S.I
    for lab in ("--", "[CDATA[", "doctype", "public", "system"):
        for wc in (0, 1):
            for ci in (0, 1):
                if ci and lab != lab.lower():
                    continue        # by contract a case-insensitive label is given in lower case
                st = S.start()
                st.meta["curmode"] = 1
                cur = sym("curch", 0, 0xFFFFFFFF)
                st.heap[ROOT + ("m_current_input_character",)] = cur
                f, ps = S.run("match", st, [("str", tuple(("chr", C(ord(x))) for x in lab)), C(wc), C(ci)])
                chars = ([cur] if wc else []) + [sym(("in", "S", i), 0, 0xFFFFFFFF) for i in range(len(lab) - wc)]
                for pa in ps:
                    if opaque(pa.st.eff) or pa.kind != "ret":
                        rep.undecided("match:" + lab, opaque(pa.st.eff) or pa.kind)
                        continue
                    work = [(s, bool(v[1])) for s, v in I.compare(pa.st.fork(), ">=", slen("S"), C(len(lab) - wc))]
                    for i, ch in enumerate(lab):
                        A = ISet.of(ord(ch)) | (ISet.of(ord(ch.upper())) if ci and ch.islower() else EMPTY)
                        nx = []
                        for s, ok in work:
                            if not ok:
                                nx.append((s, False))
                                continue
                            for T_, b in ((A, True), (ALL - A, False)):
                                s2 = s.fork()
                                if s2.restrict(chars[i], T_):
                                    nx.append((s2, b))
                        work = nx
                    for s, ok in work:
                        for s2, r in I.branch(s, pa.val):
                            rep.count("obligations")
                            if r == ok:
                                rep.ok()
                            else:
                                rep.fail("match:%s:%d%d" % (lab, wc, ci), "%s: looking for '%s' (%s, %s) answers %s where the input %s" % (S.p.where(f), lab, "with the current character" if wc else "from the next character", "ignoring case" if ci else "exact", r, "matches" if ok else "does not match"))


def flush(S, rep):
    rep.count("operations")
    I = S.I

    def on_emit(I, st):
        n = len(I.lib.items(st, MC))
        st.eff += (("run", n, S.flags(st)),)
        out = [st]
        if n == 0:
            st.heap[ROOT + ("m_eof_consumed",)] = C(1)
            return [(st, ("void",))]
        a = st.fork()       # consumes one character
        a.heap[MC] = ("str", I.lib.items(a, MC)[1:])
        b = st              # waits for more
        b.eff += (("wait",),)
        return [(a, ("void",)), (b, ("void",))]
    S.on_emit = on_emit
    try:
        for k in range(0, 5):
            for eof in (0, 1):
                cs = tuple(("chr", sym("c%d" % i, 0, 0xFFFFFFFF)) for i in range(k))
                f, ps = S.run("flush_code_point", S.start(m_c=cs, m_eof=eof, m_eof_consumed=0))
                for pa in ps:
                    rep.count("obligations")
                    if opaque(pa.st.eff) or pa.kind != "ret":
                        rep.undecided("flush", opaque(pa.st.eff) or pa.kind)
                        continue
                    left = len(I.lib.items(pa.st, MC))
                    waits = sum(1 for x in pa.st.eff if x[0] == "wait")
                    runs = [x for x in pa.st.eff if x[0] == "run"]
                    if left and not waits:
                        rep.fail("flush:left", "%s: stops with %d of %d buffered characters unprocessed although the tokenizer made progress" % (S.p.where(f), left, k))
                    elif not left and eof and not (runs and runs[-1][1] == 0):
                        rep.fail("flush:eof", "%s: does not deliver the end of input after the buffered characters" % S.p.where(f))
                    elif not eof and any(x[1] == 0 for x in runs):
                        rep.fail("flush:run", "%s: runs the tokenizer without any input" % S.p.where(f))
                    elif waits > 1:
                        rep.fail("flush:spin", "%s: keeps running a state that waits for more input" % S.p.where(f))
                    elif len(runs) > k + 1:
                        rep.fail("flush:twice", "%s: runs the tokenizer more often than there is input" % S.p.where(f))
                    else:
                        rep.ok("%s: %d buffered characters%s" % (S.p.where(f), k, " and the end of input" if eof else ""))
    finally:
        S.on_emit = None


def named(S, rep):
    rep.count("operations")
    I = S.I
    f = S.fn("match_named_character_reference")
    where = S.p.where(f)
    LONGEST = 32        # CounterClockwiseContourIntegral;
    for n, deep in [(k, None) for k in range(0, 5)] + [(LONGEST + 1, k) for k in (6, 17, LONGEST)]:
        st = S.start()
        st.meta["curmode"] = 1
        st.meta["trie"] = 1
        st.restrict(slen("S"), ISet.of(n))
        if deep:            # a long input along the trie whose last reference has `deep` characters
            for i in range(1, n + 1):
                st.restrict(("s", ("child", i), 0, 1), ISet.of(int(i <= LONGEST)))
                st.restrict(("s", ("has", i), 0, 1), ISet.of(int(i in (2, deep))))
        l = ("t", "len")
        st.heap[l] = sym("oldlen", 0, 0xFFFFFFFF)
        for pa in I.run(f, st, ("ptr", ROOT), [("ref", l)]):
            if opaque(pa.st.eff) or pa.kind != "ret":
                rep.undecided("named reference search", opaque(pa.st.eff) or pa.kind)
                continue
            work = [(pa.st.fork(), 0, True)]
            for i in range(1, n + 1):
                nx = []
                for s, best, alive in work:
                    if not alive:
                        nx.append((s, best, False))
                        continue
                    for s2, b in I.branch(s, ("s", ("child", i), 0, 1)):
                        if not b:
                            nx.append((s2, best, False))
                            continue
                        for s3, h in I.branch(s2, ("s", ("has", i), 0, 1)):
                            nx.append((s3, i if h else best, True))
                work = nx
            for s, best, _ in work:
                rep.count("obligations")
                bad = [x for x in pa.st.eff if x[0] in ("past-end", "wrong character")]
                got = pa.st.heap.get(l)
                v = pa.val
                if v[0] == "ref":
                    v = pa.st.heap.get(v[1], v)
                if bad:
                    rep.fail("named:" + bad[0][0], "%s: the search reads %s" % (where, bad[0][0]))
                elif got != C(best):
                    rep.fail("named:length", "%s: reports a match of %s characters; the longest reference in the input has %d" % (where, got[1], best))
                elif best and v != codes(("s", ("index", best), 0, 0xFFFFFFFF)):
                    rep.fail("named:value", "%s: returns %s for a match of %d characters" % (where, v, best))
                else:
                    rep.ok("%s: the longest of the references along the input is found (%d characters buffered)" % (where, n))
