"""Product exploration of the encoding standard's decoders and encoders.

Each coder class is run from its constructed state in lock-step with a transcription of the standard's
algorithm; the product of the two states is explored to a fixpoint, so every history of inputs is covered.
"""
from common import *
from absint import *
from iset import ISet
from lib import Lib, cls_of, elem_type
from oracle import *

NS = "wordring::whatwg::encoding::"
OBJ = ("obj",)
IN = ("inq",)
ITEM = ("item",)
NONE = 0xFFFFFFFF
SIZES = {"big5": 19782, "euc_kr": 23940, "gb18030": 23940, "jis0208": 11280, "jis0212": 8836, "iso_2022_jp_katakana": 63}


def tname(q):
    return q.rsplit("::", 1)[-1]


def tbl(name, ptr):
    """table entry: 0xFFFFFFFF stands for the standard's null"""
    return ("call", ("tbl", name, ptr), 0, NONE)


PTRS = dict(SIZES, jis0208=8836, Shift_JIS=11280)       # bounds of the reverse index's pointers (C08)
FULL = ISet(((0, 0x10FFFF),))
ENTRY = ISet(((0, 0x10FFFF), (NONE, NONE)))


class CoderRun:
    def __init__(self, p):
        self.p = p
        self.I = Interp(p, Lib())
        self.I.hooks.append(self.hook)

    # ------------------------------------------------------------------ transfer functions of the coder's environment
    def hook(self, I, st, f, fi, o, args, e):
        n = fi["n"]
        q = fi["q"]
        if o is not None and o[0] == "ref" and self.root(st, o[1]) == IN:
            if n == "prepend":
                vs = [I.lib.get(I, st, a) for a in args]
                if len(vs) == 1:
                    v = vs[0]
                    if is_int(v):
                        st.eff += (("prepend", (v,)),)
                        return [(st, ("void",))]
                    if args[0][0] == "ref":
                        l = self.root(st, args[0][1])
                        eo = I.load(st, l + ("m_eoq",), "b1")
                        if eo == C(1):
                            return [(st, ("void",))]         # the end of queue is still at the front
                        if eo == C(0):
                            st.eff += (("prepend", (I.load(st, l + ("m_value",), "u32"),)),)
                            return [(st, ("void",))]
                elif len(vs) == 2 and vs[0][0] == "it" and vs[1][0] in ("it", "itend"):
                    its = I.lib.items(st, vs[0][1])
                    k2 = len(its) if vs[1][0] == "itend" else vs[1][2]
                    if all(x[0] == "chr" for x in its[vs[0][2]:k2]):
                        st.eff += (("prepend", tuple(x[1] for x in its[vs[0][2]:k2])),)
                        return [(st, ("void",))]
            st.eff += (("opaque", n, ()),)
            return None
        if n == "get_index_pointer" and q.startswith(NS):
            name = tname(fi.get("ta", "").strip("<>").split(",")[0])
            return self.lookup_pointer(I, st, name.replace("index_pointer_", "").rsplit("_0", 1)[0], I.lib.get(I, st, args[0]))
        if n == "get_index_gb18030_ranges_code_point" and q.startswith(NS):
            a = ("call", ("rcp", I.lib.get(I, st, args[0])), 0, NONE)
            return self.opt(I, st, a)
        if n == "get_index_gb18030_ranges_pointer" and q.startswith(NS):
            a = ("call", ("rptr", I.lib.get(I, st, args[0])), 0, NONE)
            return self.opt(I, st, a)
        if o is not None and o[0] == "ref" and o[1][0] == "g" and "index_code_point_" in o[1][1] and len(o[1]) == 2:
            name = tname(o[1][1]).replace("index_code_point_", "")
            if n == "size":
                return [(st, C(SIZES.get(name, 128)))]
            if n in ("operator[]", "at"):
                ptr = I.lib.get(I, st, args[0])
                if is_int(ptr):
                    r = st.rng(ptr)
                    if r.max() >= SIZES.get(name, 128):
                        st.eff += (("out-of-bounds", name),)
                    a = tbl(name, ptr)
                    st.restrict(a, FULL if name == "iso_2022_jp_katakana" else ENTRY)     # C08
                    return [(st, a)]
        if cls_of(e.get("t")).startswith("std::variant<") and e.get("k") == "Ctor" and len(args) == 1:
            t = e["a"][0].get("t", "")
            if cls_of(t).startswith("std::variant<"):
                return [(st, I.lib.get(I, st, args[0]))]
            return [(st, self.result(I, st, t, args[0]))]
        return None

    def opt(self, I, st, a):
        out = []
        for s, c in I.compare(st, "==", a, C(NONE)):
            out.append((s, ("opt", C(0), None) if c[1] else ("opt", C(1), a)))
        return out

    def lookup_pointer(self, I, st, name, cp):
        a = ("call", ("ptr", name, cp), 0, NONE)
        n = PTRS.get(name, 128)
        st.restrict(a, ISet(((0, n - 1), (NONE, NONE))))          # C08
        return self.opt(I, st, a)

    def result(self, I, st, t, arg):
        c = cls_of(t)
        short_ = tname(c)
        if c.startswith("std::array<"):
            v = I.lib.get(I, st, arg)
            return ("res", "bytes" if "unsigned char" in c else "cps", tuple(x[1] for x in v[1]))
        if short_ == "result_finished":
            return ("res", "finished", ())
        if short_ == "result_continue":
            return ("res", "continue", ())
        if short_ == "result_error":
            l = arg[1]
            return ("res", "error", (I.load(st, l + ("code_point",), "u32"),))
        v = I.rv(st, arg, t)
        if t.lstrip("&") in ("u32",):
            return ("res", "cps", (v,))
        if t.lstrip("&") in ("u8",):
            return ("res", "bytes", (v,))
        if t.lstrip("&") == "i8":
            return ("res", "bytes", (v,))
        raise Unsupported("coder result of type " + t)

    def root(self, st, l):
        g = 0
        while l in st.heap and st.heap[l][0] in ("bindref", "alias") and g < 8:
            l = st.heap[l][1]
            g += 1
        return l

    # ------------------------------------------------------------------ product exploration
    def classes(self):
        out = {}
        for i in self.p.byname.get("wrx_run", []):
            ta = self.p.finfo[i].get("ta", "")[1:-1]
            c, t = ta.rsplit(", ", 1)
            out[c.replace(NS, "")] = (i, t)
        return out

    def make(self, cls):
        for i in self.p.byname.get("wrx_make", []):
            if self.p.finfo[i].get("ta", "")[1:-1].replace(NS, "") == cls:
                st = St()
                ps = self.I.run(i, st, None, [])
                if len(ps) != 1:
                    raise Unsupported("constructor of " + cls)
                st, v = ps[0].st, ps[0].val
                out = {}
                if v[0] == "ref":
                    for k, w in st.heap.items():
                        if k[:len(v[1])] == v[1] and len(k) > len(v[1]):
                            out[OBJ + k[len(v[1]):]] = w
                return out
        raise Unsupported("no constructor for " + cls)

    def explore(self, rep, cls, spec, init, dom, encode):
        """lock-step exploration; dom: the interval set of item values"""
        run, ct = self.classes()[cls]
        I = self.I
        where = self.where(run, cls)
        start = (self.make(cls), init(), {}, False)
        seen = set()
        work = [start]
        nstates = npaths = 0
        while work:
            heap, sp, cons, ended = work.pop()
            key = (tuple(sorted(heap.items(), key=repr)), tuple(sorted(sp.items())), tuple(sorted(((k, v.iv) for k, v in cons.items()), key=repr)), ended)
            if key in seen:
                continue
            seen.add(key)
            nstates += 1
            if nstates > 400:
                raise Unsupported("state space of %s does not close" % cls)
            for eoq in (True, False):
                if ended and not eoq:
                    continue
                st = St(dict(heap), dict(cons))
                b = sym("x", dom.min(), dom.max())
                st.restrict(b, dom)
                st.heap[ITEM + ("m_eoq",)] = C(int(eoq))
                st.heap[ITEM + ("m_value",)] = C(0) if eoq else wrap(st, b, tinfo("i8" if ct == "char" else "u32"))
                for pa in I.run(run, st, None, [("ref", OBJ), ("ref", IN), ("ref", ITEM)]):
                    npaths += 1
                    for s2, want in self.spec_out(pa, spec, sp, b, eoq):
                        if want[0][0] == "unreachable":
                            continue
                        nxt = self.judge(rep, cls, where, pa, s2, want, b, eoq, encode, sp)
                        if nxt is not None:
                            rep.ok()
                            pre, sp2 = nxt
                            work.append(self.canon(s2, sp2, ended or (eoq and not pre)))
        rep.count("coders")
        rep.count("product states", nstates)
        rep.count("paths", npaths)
        if len(rep.samples) < 12:
            rep.samples.append("%s %s: %d product states, %d paths" % (where, cls, nstates, npaths))

    def where(self, run, cls):
        """the member function the entry point calls"""
        def calls(x):
            if isinstance(x, dict):
                if x.get("k") == "Call" and isinstance(x.get("f"), int):
                    yield x["f"]
                for v in x.values():
                    yield from calls(v)
            elif isinstance(x, list):
                for v in x:
                    yield from calls(v)
        for i in calls(self.p.funcs[run]):
            fi = self.p.finfo[i]
            if cls.split("<")[0] in fi.get("cls", ""):
                return self.p.where(i)
        return "include/wordring/whatwg/encoding/coder.hpp"

    def spec_out(self, pa, spec, sp, b, eoq):
        def go(o):
            s = dict(sp)
            c = Spec(o, s, b, eoq, pa)
            r = spec(c)
            return (r, tuple(c.pre), s)
        return outcomes(pa.st, go)

    def judge(self, rep, cls, where, pa, st, want, b, eoq, encode, sp):
        (kind, vals), pre, sp2 = want
        desc = "item %s, state %s" % ("end-of-queue" if eoq else "in " + str(st.rng(b)), {k: v for k, v in sp.items() if v not in (None, False, 0)})
        for x in pa.st.eff:
            if x[0] in ("opaque",):
                rep.undecided("%s: %s" % (cls, x[1]), "unmodelled operation " + x[1])
                return None
        key = "%s:%s:%s" % (cls, "eoq" if eoq else "item", "/".join(str(v) for v in sorted(sp.items()) if not isinstance(v[1], tuple)))
        if any(x[0] == "out-of-bounds" for x in pa.st.eff):
            rep.fail(key + ":bounds", "%s: %s reads beyond its index for %s" % (where, cls, desc))
            return None
        if "dead" in pa.st.meta or pa.kind != "ret":
            rep.fail(key + ":dead", "%s: %s aborts for %s (the standard says %s)" % (where, cls, desc, kind))
            return None
        v = pa.val
        if v[0] != "res":
            rep.undecided(key, "unmodelled result %r" % (v[:2],))
            return None
        if v[1] != kind or len(v[2]) != len(vals) and not (kind == "error" and not encode):
            rep.fail(key + ":" + kind, "%s: %s returns %s, the standard says %s%s, for %s" % (where, cls, show(v), kind, vals, desc))
            return None
        if not (kind == "error" and not encode):
            for x, y in zip(v[2], vals):
                q = teq(st, x, y)
                if q is None:
                    rep.undecided(key, "values %r and %r" % (x, y))
                    return None
                if not q:
                    rep.fail(key + ":value", "%s: %s produces %s, the standard says %s, for %s" % (where, cls, show(v), [pretty(t) for t in vals], desc))
                    return None
        got = ()
        for x in pa.st.eff:
            if x[0] == "prepend":
                got = tuple(x[1]) + got
        if len(got) != len(pre):
            rep.fail(key + ":prepend", "%s: %s gives back %d items to the input, the standard says %d, for %s" % (where, cls, len(got), len(pre), desc))
            return None
        for x, y in zip(got, pre):
            q = teq(st, x if encode else self.byte(st, x), y)
            if q is None:
                rep.undecided(key, "prepended %r and %r" % (x, y))
                return None
            if not q:
                rep.fail(key + ":prepend", "%s: %s gives back %s to the input, the standard says %s, for %s" % (where, cls, pretty(x), pretty(y), desc))
                return None
        return pre, sp2

    def byte(self, st, x):
        return wrap(st, x, (0, 255))

    def canon(self, st, sp, ended):
        """the object, the specification state and the constraints they mention, with symbols renamed by position"""
        heap = {k: v for k, v in st.heap.items() if k[:1] == OBJ}
        order = []

        def vis(v):
            if is_int(v):
                atoms(v, order)
            elif isinstance(v, tuple):
                for x in v:
                    if isinstance(x, tuple):
                        vis(x)
        for k in sorted(heap, key=repr):
            vis(heap[k])
        for k in sorted(sp):
            if isinstance(sp[k], tuple):
                vis(sp[k])
        ren = {a: sym("p%d" % i, a[-2], a[-1]) for i, a in enumerate(order)}

        def sv(v):
            if is_int(v):
                return subst(v, lambda a: ren.get(a, a))
            if isinstance(v, tuple):
                return tuple(sv(x) if isinstance(x, tuple) else x for x in v)
            return v
        cons = {}
        for k, S in st.cons.items():
            if all(a in ren for a in atoms(k)):
                cons[sv(k)] = S
        return {k: sv(v) for k, v in heap.items()}, {k: sv(v) for k, v in sp.items()}, cons, ended


class Spec:
    """what a transcription of the standard sees"""

    def __init__(self, o, s, b, eoq, pa):
        self.o, self.s, self.b, self.eoq, self.pa = o, s, b, eoq, pa
        self.pre = []

    def isin(self, t, *iv):
        return self.o.isin(t, *iv)

    def known(self, tag, name, arg):
        """an entry the implementation looked up with an equal argument is the same entry"""
        want = ("call", (tag, name, arg) if name is not None else (tag, arg), 0, NONE)
        for k in list(self.o.st.cons) + self.values():
            for a in atoms(k):
                if a[0] == "call" and a[1][0] == tag and (name is None or a[1][1] == name) and a != want:
                    if teq(self.o.st, a[1][-1], arg) is True:
                        return a
        return want

    def values(self):
        v = self.pa.val
        return [x for x in v[2] if is_int(x)] if v and v[0] == "res" else []

    def index(self, name, ptr):
        """index code point, or None"""
        if not self.isin(ptr, (0, SIZES.get(name, 128) - 1)):
            return None
        a = self.known("tbl", name, ptr)
        return a if not self.isin(a, (NONE, NONE)) else None

    def pointer(self, name, cp):
        a = self.known("ptr", name, cp)
        if self.isin(a, (NONE, NONE)):
            return None
        self.o.st.restrict(a, ISet(((0, PTRS.get(name, 128) - 1),)))
        return a

    def ranges(self, tag, x):
        a = self.known(tag, None, x)
        return a if not self.isin(a, (NONE, NONE)) else None


def pretty(t):
    if t[0] == "c":
        return "0x%X" % t[1] if t[1] >= 0 else str(t[1])
    if t[0] == "s":
        return str(t[1])
    if t[0] == "lin":
        return " + ".join(["%d*%s" % (c, pretty(a)) for a, c in t[2]] + ([str(t[1])] if t[1] else []))
    if t[0] in ("mod", "div"):
        return "(%s %s %d)" % (pretty(t[1]), "%" if t[0] == "mod" else "/", t[2])
    if t[0] == "call" and t[1][0] in ("tbl", "ptr"):
        return "%s[%s]" % (t[1][1], pretty(t[1][2]))
    return repr(t)[:120]


def show(v):
    return "%s(%s)" % (v[1], ", ".join(pretty(x) for x in v[2]))


# ------------------------------------------------------------------------------------ decoders
FIN = ("finished", ())
CONT = ("continue", ())
ERR = ("error", ())


def cps(*t):
    return ("cps", t)


def byts(*t):
    return ("bytes", t)


def utf8(c):
    s = c.s
    if c.eoq:
        if s["need"] != 0:
            s["need"] = 0
            return ERR
        return FIN
    b = c.b
    if s["need"] == 0:
        if c.isin(b, (0, 0x7F)):
            return cps(b)
        if c.isin(b, (0xC2, 0xDF)):
            s["need"] = 1
            s["cp"] = sub(b, C(0xC0))
        elif c.isin(b, (0xE0, 0xEF)):
            if c.isin(b, 0xE0):
                s["lo"] = 0xA0
            if c.isin(b, 0xED):
                s["hi"] = 0x9F
            s["need"] = 2
            s["cp"] = sub(b, C(0xE0))
        elif c.isin(b, (0xF0, 0xF4)):
            if c.isin(b, 0xF0):
                s["lo"] = 0x90
            if c.isin(b, 0xF4):
                s["hi"] = 0x8F
            s["need"] = 3
            s["cp"] = sub(b, C(0xF0))
        else:
            return ERR
        return CONT
    if not c.isin(b, (s["lo"], s["hi"])):
        s.update(utf8_init())
        c.pre = [b]
        return ERR
    s["lo"], s["hi"] = 0x80, 0xBF
    s["cp"] = add(scale(s["cp"], 64), sub(b, C(0x80)))
    s["seen"] += 1
    if s["seen"] != s["need"]:
        return CONT
    cp = s["cp"]
    s.update(utf8_init())
    return cps(cp)


def utf8_init():
    return {"cp": C(0), "seen": 0, "need": 0, "lo": 0x80, "hi": 0xBF}


def single_byte(name):
    def f(c):
        if c.eoq:
            return FIN
        if c.isin(c.b, (0, 0x7F)):
            return cps(c.b)
        v = c.index(name, sub(c.b, C(0x80)))
        return ERR if v is None else cps(v)
    return f


def gb18030(c):
    s = c.s
    if c.eoq:
        if s["first"] is None and s["second"] is None and s["third"] is None:
            return FIN
        s.update(first=None, second=None, third=None)
        return ERR
    b = c.b
    if s["third"] is not None:
        if not c.isin(b, (0x30, 0x39)):
            c.pre = [s["second"], s["third"], b]
            s.update(first=None, second=None, third=None)
            return ERR
        ptr = add(add(scale(sub(s["first"], C(0x81)), 12600), scale(sub(s["second"], C(0x30)), 1260)), add(scale(sub(s["third"], C(0x81)), 10), sub(b, C(0x30))))
        s.update(first=None, second=None, third=None)
        v = c.ranges("rcp", ptr)
        return ERR if v is None else cps(v)
    if s["second"] is not None:
        if c.isin(b, (0x81, 0xFE)):
            s["third"] = b
            return CONT
        c.pre = [s["second"], b]
        s.update(first=None, second=None)
        return ERR
    if s["first"] is not None:
        if c.isin(b, (0x30, 0x39)):
            s["second"] = b
            return CONT
        lead = s["first"]
        s["first"] = None
        off = 0x40 if c.isin(b, (0, 0x7E)) else 0x41
        v = None
        if c.isin(b, (0x40, 0x7E), (0x80, 0xFE)):
            v = c.index("gb18030", add(scale(sub(lead, C(0x81)), 190), sub(b, C(off))))
        if v is not None:
            return cps(v)
        if c.isin(b, (0, 0x7F)):
            c.pre = [b]
        return ERR
    if c.isin(b, (0, 0x7F)):
        return cps(b)
    if c.isin(b, 0x80):
        return cps(C(0x20AC))
    if c.isin(b, (0x81, 0xFE)):
        s["first"] = b
        return CONT
    return ERR


def lead_init():
    return {"lead": None}


def big5(c):
    s, b = c.s, c.b
    if c.eoq:
        if s["lead"] is not None:
            s["lead"] = None
            return ERR
        return FIN
    if s["lead"] is not None:
        lead = s["lead"]
        s["lead"] = None
        off = 0x40 if c.isin(b, (0, 0x7E)) else 0x62
        v = None
        if c.isin(b, (0x40, 0x7E), (0xA1, 0xFE)):
            ptr = add(scale(sub(lead, C(0x81)), 157), sub(b, C(off)))
            for p, x, y in ((1133, 0xCA, 0x304), (1135, 0xCA, 0x30C), (1164, 0xEA, 0x304), (1166, 0xEA, 0x30C)):
                if c.isin(ptr, p):
                    return cps(C(x), C(y))
            v = c.index("big5", ptr)
        if v is not None:
            return cps(v)
        if c.isin(b, (0, 0x7F)):
            c.pre = [b]
        return ERR
    if c.isin(b, (0, 0x7F)):
        return cps(b)
    if c.isin(b, (0x81, 0xFE)):
        s["lead"] = b
        return CONT
    return ERR


def euc_jp(c):
    s, b = c.s, c.b
    if c.eoq:
        if s["lead"] is not None:
            s["lead"] = None
            return ERR
        return FIN
    lead = s["lead"]
    if lead is not None:
        if c.isin(lead, 0x8E) and c.isin(b, (0xA1, 0xDF)):
            s["lead"] = None
            return cps(add(b, C(0xFF61 - 0xA1)))
        if c.isin(lead, 0x8F) and c.isin(b, (0xA1, 0xFE)):
            s["j"] = True
            s["lead"] = b
            return CONT
        s["lead"] = None
        v = None
        if c.isin(lead, (0xA1, 0xFE)) and c.isin(b, (0xA1, 0xFE)):
            v = c.index("jis0212" if s["j"] else "jis0208", add(scale(sub(lead, C(0xA1)), 94), sub(b, C(0xA1))))
        s["j"] = False
        if v is not None:
            return cps(v)
        if c.isin(b, (0, 0x7F)):
            c.pre = [b]
        return ERR
    if c.isin(b, (0, 0x7F)):
        return cps(b)
    if c.isin(b, 0x8E, 0x8F, (0xA1, 0xFE)):
        s["lead"] = b
        return CONT
    return ERR


def iso2022jp(c):
    s, b = c.s, c.b
    st = s["state"]
    if st in ("ascii", "roman", "katakana", "lead"):
        if c.eoq:
            return FIN
        if c.isin(b, 0x1B):
            s["state"] = "escstart"
            return CONT
        s["out"] = False
        if st == "ascii":
            return cps(b) if c.isin(b, (0, 0xD), (0x10, 0x1A), (0x1C, 0x7F)) else ERR
        if st == "roman":
            if c.isin(b, 0x5C):
                return cps(C(0xA5))
            if c.isin(b, 0x7E):
                return cps(C(0x203E))
            return cps(b) if c.isin(b, (0, 0xD), (0x10, 0x1A), (0x1C, 0x7F)) else ERR
        if st == "katakana":
            return cps(add(b, C(0xFF61 - 0x21))) if c.isin(b, (0x21, 0x5F)) else ERR
        if c.isin(b, (0x21, 0x7E)):
            s["lead"] = b
            s["state"] = "trail"
            return CONT
        return ERR
    if st == "trail":
        lead = s["lead"]
        if c.eoq:
            s["state"] = "lead"
            s["lead"] = None
            return ERR
        if c.isin(b, 0x1B):
            s["state"] = "escstart"
            s["lead"] = None
            return ERR
        s["state"] = "lead"
        s["lead"] = None
        if c.isin(b, (0x21, 0x7E)):
            v = c.index("jis0208", add(scale(sub(lead, C(0x21)), 94), sub(b, C(0x21))))
            return ERR if v is None else cps(v)
        return ERR
    if st == "escstart":
        if not c.eoq and c.isin(b, 0x24, 0x28):
            s["lead"] = b
            s["state"] = "escape"
            return CONT
        if not c.eoq:
            c.pre = [b]
        s["out"] = False
        s["state"] = s["ostate"]
        return ERR
    lead = s["lead"]
    s["lead"] = None
    to = None
    if not c.eoq:
        if c.isin(lead, 0x28):
            if c.isin(b, 0x42):
                to = "ascii"
            elif c.isin(b, 0x4A):
                to = "roman"
            elif c.isin(b, 0x49):
                to = "katakana"
        elif c.isin(b, 0x40, 0x42):
            to = "lead"
    if to:
        s["state"] = s["ostate"] = to
        f = s["out"]
        s["out"] = True
        return ERR if f else CONT
    c.pre = [lead] + ([] if c.eoq else [b])
    s["out"] = False
    s["state"] = s["ostate"]
    return ERR


def shift_jis(c):
    s, b = c.s, c.b
    if c.eoq:
        if s["lead"] is not None:
            s["lead"] = None
            return ERR
        return FIN
    if s["lead"] is not None:
        lead = s["lead"]
        s["lead"] = None
        off = 0x40 if c.isin(b, (0, 0x7E)) else 0x41
        loff = 0x81 if c.isin(lead, (0, 0x9F)) else 0xC1
        v = None
        if c.isin(b, (0x40, 0x7E), (0x80, 0xFC)):
            ptr = add(scale(sub(lead, C(loff)), 188), sub(b, C(off)))
            if c.isin(ptr, (8836, 10715)):
                return cps(add(ptr, C(0xE000 - 8836)))
            v = c.index("jis0208", ptr)
        if v is not None:
            return cps(v)
        if c.isin(b, (0, 0x7F)):
            c.pre = [b]
        return ERR
    if c.isin(b, (0, 0x80)):
        return cps(b)
    if c.isin(b, (0xA1, 0xDF)):
        return cps(add(b, C(0xFF61 - 0xA1)))
    if c.isin(b, (0x81, 0x9F), (0xE0, 0xFC)):
        s["lead"] = b
        return CONT
    return ERR


def euc_kr(c):
    s, b = c.s, c.b
    if c.eoq:
        if s["lead"] is not None:
            s["lead"] = None
            return ERR
        return FIN
    if s["lead"] is not None:
        lead = s["lead"]
        s["lead"] = None
        v = None
        if c.isin(b, (0x41, 0xFE)):
            v = c.index("euc_kr", add(scale(sub(lead, C(0x81)), 190), sub(b, C(0x41))))
        if v is not None:
            return cps(v)
        if c.isin(b, (0, 0x7F)):
            c.pre = [b]
        return ERR
    if c.isin(b, (0, 0x7F)):
        return cps(b)
    if c.isin(b, (0x81, 0xFE)):
        s["lead"] = b
        return CONT
    return ERR


def replacement(c):
    if c.eoq or c.s["done"]:
        return FIN
    c.s["done"] = True
    return ERR


def utf16(be):
    def f(c):
        s, b = c.s, c.b
        if c.eoq:
            if s["lead"] is not None or s["sur"] is not None:
                s["lead"] = s["sur"] = None
                return ERR
            return FIN
        if s["lead"] is None:
            s["lead"] = b
            return CONT
        hi, lo = (s["lead"], b) if be else (b, s["lead"])
        cu = add(scale(hi, 256), lo)
        b1, b2 = s["lead"], b
        s["lead"] = None
        if s["sur"] is not None:
            sur = s["sur"]
            s["sur"] = None
            if c.isin(cu, (0xDC00, 0xDFFF)):
                return cps(add(add(C(0x10000), scale(sub(sur, C(0xD800)), 1024)), sub(cu, C(0xDC00))))
            c.pre = [b1, b2]
            return ERR
        if c.isin(cu, (0xD800, 0xDBFF)):
            s["sur"] = cu
            return CONT
        if c.isin(cu, (0xDC00, 0xDFFF)):
            return ERR
        return cps(cu)
    return f


def x_user_defined(c):
    if c.eoq:
        return FIN
    return cps(c.b) if c.isin(c.b, (0, 0x7F)) else cps(add(c.b, C(0xF780 - 0x80)))


DECODERS = {
    "UTF_8_decoder": (utf8, utf8_init),
    "gb18030_decoder": (gb18030, lambda: {"first": None, "second": None, "third": None}),
    "Big5_decoder": (big5, lead_init),
    "EUC_JP_decoder": (euc_jp, lambda: {"lead": None, "j": False}),
    "ISO_2022_JP_decoder": (iso2022jp, lambda: {"state": "ascii", "ostate": "ascii", "lead": None, "out": False}),
    "Shift_JIS_decoder": (shift_jis, lead_init),
    "EUC_KR_decoder": (euc_kr, lead_init),
    "replacement_decoder": (replacement, lambda: {"done": False}),
    "shared_UTF_16_decoder<true>": (utf16(True), lambda: {"lead": None, "sur": None}),
    "shared_UTF_16_decoder<false>": (utf16(False), lambda: {"lead": None, "sur": None}),
    "x_user_defined_decoder": (x_user_defined, dict),
}
SINGLE = ["ibm866", "iso_8859_2", "iso_8859_3", "iso_8859_4", "iso_8859_5", "iso_8859_6", "iso_8859_7", "iso_8859_8", "iso_8859_10", "iso_8859_13", "iso_8859_14", "iso_8859_15", "iso_8859_16",
          "koi8_r", "koi8_u", "macintosh", "windows_874", "windows_1250", "windows_1251", "windows_1252", "windows_1253", "windows_1254", "windows_1255", "windows_1256", "windows_1257", "windows_1258", "x_mac_cyrillic"]


# ------------------------------------------------------------------------------------ encoders
def e_utf8(c):
    if c.eoq:
        return FIN
    b = c.b
    if c.isin(b, (0, 0x7F)):
        return byts(b)
    for n, hi, off in ((1, 0x7FF, 0xC0), (2, 0xFFFF, 0xE0), (3, 0x10FFFF, 0xF0)):
        if c.isin(b, (0, hi)):
            out = [add(C(off), c.o.div(b, 64 ** n))]
            for k in range(n - 1, -1, -1):
                out.append(add(C(0x80), c.o.mod(c.o.div(b, 64 ** k), 64)))
            return byts(*out)


def e_single(name):
    def f(c):
        if c.eoq:
            return FIN
        if c.isin(c.b, (0, 0x7F)):
            return byts(c.b)
        p = c.pointer(name, c.b)
        return ("error", (c.b,)) if p is None else byts(add(p, C(0x80)))
    return f


def e_gb18030(gbk):
    def f(c):
        if c.eoq:
            return FIN
        b = c.b
        if c.isin(b, (0, 0x7F)):
            return byts(b)
        if c.isin(b, 0xE5E5):
            return ("error", (b,))
        if gbk and c.isin(b, 0x20AC):
            return byts(C(0x80))
        p = c.pointer("gb18030", b)
        if p is not None:
            lead = add(c.o.div(p, 190), C(0x81))
            tr = c.o.mod(p, 190)
            off = 0x40 if c.isin(tr, (0, 0x3E)) else 0x41
            return byts(lead, add(tr, C(off)))
        if gbk:
            return ("error", (b,))
        p = c.ranges("rptr", b)
        if p is None:
            return ("unreachable", ())
        c.o.st.restrict(p, ISet(((0, 1237575),)))
        return byts(add(c.o.div(p, 12600), C(0x81)), add(c.o.div(c.o.mod(p, 12600), 1260), C(0x30)), add(c.o.div(c.o.mod(c.o.mod(p, 12600), 1260), 10), C(0x81)), add(c.o.mod(c.o.mod(c.o.mod(p, 12600), 1260), 10), C(0x30)))
    return f


def two(c, p, n, lo, to, mid=None, hi=None):
    tr = c.o.mod(p, n)
    if mid is not None:
        to = to if c.isin(tr, (0, mid - 1)) else hi
    return byts(add(c.o.div(p, n), C(lo)), add(tr, C(to)))


def e_big5(c):
    if c.eoq:
        return FIN
    if c.isin(c.b, (0, 0x7F)):
        return byts(c.b)
    p = c.pointer("big5", c.b)
    return ("error", (c.b,)) if p is None else two(c, p, 157, 0x81, 0x40, 0x3F, 0x62)


def e_euc_jp(c):
    if c.eoq:
        return FIN
    b = c.b
    if c.isin(b, (0, 0x7F)):
        return byts(b)
    if c.isin(b, 0xA5):
        return byts(C(0x5C))
    if c.isin(b, 0x203E):
        return byts(C(0x7E))
    if c.isin(b, (0xFF61, 0xFF9F)):
        return byts(C(0x8E), sub(b, C(0xFF61 - 0xA1)))
    if c.isin(b, 0x2212):
        b = C(0xFF0D)
    p = c.pointer("jis0208", b)
    return ("error", (b,)) if p is None else two(c, p, 94, 0xA1, 0xA1)


def e_iso2022jp(c):
    s, b = c.s, c.b
    st = s["state"]
    ESC = {"ascii": (0x1B, 0x28, 0x42), "roman": (0x1B, 0x28, 0x4A), "jis": (0x1B, 0x24, 0x42)}

    def switch(to, x=None):
        s["state"] = to
        c.pre = [] if x is None else [x]
        return byts(*[C(v) for v in ESC[to]])
    if c.eoq:
        return switch("ascii") if st != "ascii" else FIN
    if st in ("ascii", "roman") and c.isin(b, 0xE, 0xF, 0x1B):
        return ("error", (C(0xFFFD),))
    if st == "ascii" and c.isin(b, (0, 0x7F)):
        return byts(b)
    if st == "roman":
        if c.isin(b, (0, 0x5B), 0x5D, (0x5E, 0x7D), 0x7F):
            return byts(b)
        if c.isin(b, 0xA5):
            return byts(C(0x5C))
        if c.isin(b, 0x203E):
            return byts(C(0x7E))
    if st != "ascii" and c.isin(b, (0, 0x7F)):
        return switch("ascii", b)
    if st != "roman" and c.isin(b, 0xA5, 0x203E):
        return switch("roman", b)
    if c.isin(b, 0x2212):
        b = C(0xFF0D)
    if c.isin(b, (0xFF61, 0xFF9F)):
        b = c.known("tbl", "iso_2022_jp_katakana", sub(b, C(0xFF61)))
        c.o.st.restrict(b, ISet(((0, 0x10FFFF),)))
    p = c.pointer("jis0208", b)
    if p is None:
        if st == "jis":
            return switch("ascii", b)
        return ("error", (b,))
    if st != "jis":
        return switch("jis", b)
    return two(c, p, 94, 0x21, 0x21)


def e_shift_jis(c):
    if c.eoq:
        return FIN
    b = c.b
    if c.isin(b, (0, 0x80)):
        return byts(b)
    if c.isin(b, 0xA5):
        return byts(C(0x5C))
    if c.isin(b, 0x203E):
        return byts(C(0x7E))
    if c.isin(b, (0xFF61, 0xFF9F)):
        return byts(sub(b, C(0xFF61 - 0xA1)))
    if c.isin(b, 0x2212):
        b = C(0xFF0D)
    p = c.pointer("Shift_JIS", b)
    if p is None:
        return ("error", (b,))
    lead = c.o.div(p, 188)
    tr = c.o.mod(p, 188)
    lo = 0x81 if c.isin(lead, (0, 0x1E)) else 0xC1
    to = 0x40 if c.isin(tr, (0, 0x3E)) else 0x41
    return byts(add(lead, C(lo)), add(tr, C(to)))


def e_euc_kr(c):
    if c.eoq:
        return FIN
    if c.isin(c.b, (0, 0x7F)):
        return byts(c.b)
    p = c.pointer("euc_kr", c.b)
    return ("error", (c.b,)) if p is None else two(c, p, 190, 0x81, 0x41)


def e_user(c):
    if c.eoq:
        return FIN
    if c.isin(c.b, (0, 0x7F)):
        return byts(c.b)
    if c.isin(c.b, (0xF780, 0xF7FF)):
        return byts(sub(c.b, C(0xF780 - 0x80)))
    return ("error", (c.b,))


ENCODERS = {
    "UTF_8_encoder": (e_utf8, dict),
    "basic_gb18030_encoder<false>": (e_gb18030(False), dict),
    "basic_gb18030_encoder<true>": (e_gb18030(True), dict),
    "Big5_encoder": (e_big5, dict),
    "EUC_JP_encoder": (e_euc_jp, dict),
    "ISO_2022_JP_encoder": (e_iso2022jp, lambda: {"state": "ascii"}),
    "Shift_JIS_encoder": (e_shift_jis, dict),
    "EUC_KR_encoder": (e_euc_kr, dict),
    "x_user_defined_encoder": (e_user, dict),
}
BYTES = ISet(((0, 255),))
SCALARS = ISet(((0, 0xD7FF), (0xE000, 0x10FFFF)))
