"""C23: integers to bytes and back: big-endian, every width, either sign, and the iterators that do it lazily."""
from shape import *
from absint import scale, add
from c15 import Bad, Unknown, returned, data_hook

LEVEL = "other"
RULE = ("serialize, deserialize, serialize_iterator and deserialize_iterator are interpreted for every integer width, signed and unsigned, with the number written as the sum of symbolic bytes (so one partition per sign covers every number); "
        "on every path the bytes written, the number read, the position reached and the outcome of each iterator comparison must be those of big-endian two's complement.")
ASSUME = ["deserialize_iterator is given a whole number of values"]
R, V, O = ("R",), ("V",), ("O",)


def byte(n, k, lo=0, hi=255):
    return sym("byte %d of number %d" % (k, n), lo, hi)


class Ty:
    def __init__(self, name, w, signed):
        self.name, self.w, self.signed = name, w, signed

    def signs(self):
        return (0, 1) if self.signed else (None,)

    def bytes(self, n, sign):
        lo, hi = {None: (0, 255), 0: (0, 127), 1: (128, 255)}[sign]
        return [byte(n, 0, lo, hi)] + [byte(n, k) for k in range(1, self.w)]

    def number(self, bs, sign):
        t = C(-(1 << 8 * self.w) if sign == 1 else 0)
        for k, b in enumerate(bs):
            t = add(t, scale(b, 1 << 8 * (self.w - 1 - k)))
        return t


TYPES = [Ty("%s%d" % (s, 8 * w), w, s == "i") for w in (1, 2, 4, 8) for s in "ui"]


def chars(bs):
    """the same bytes as plain chars"""
    return [b if b[3] <= 127 else add(b, C(-256)) if b[2] >= 128 else None for b in bs]


class Chk:
    def __init__(self, rep, p):
        self.rep, self.p = rep, p

    def run(self, ty, entry, setup, desc, fn, judge):
        self.rep.guard(fn, self._run, ty, entry, setup, desc, fn, judge)

    def _run(self, ty, entry, setup, desc, fn, judge):
        rep = self.rep
        rep.count("partitions")
        I = Interp(self.p, SLib())
        I.hooks += [data_hook]
        st = St()
        args = setup(st)
        for pa in I.run(drv(self.p, "vp_%s_%s" % (ty.name, entry)), st, None, args):
            rep.count("paths")
            opq = [e for e in pa.st.eff if e[0] == "opaque"]
            try:
                t = judge(I, pa)
            except Bad as e:
                t = str(e)
            except Unknown as e:
                rep.undecided(fn, str(e))
                continue
            if t is None:
                rep.ok()
            elif opq:
                rep.undecided(fn, "%s after unmodelled %s" % (t, str(opq[0])[:80]))
            else:
                rep.fail(fn, "%s: %s %s: %s" % (self.where(fn), ty.name, desc, t))

    def where(self, fn):
        cls, _, n = fn.rpartition("::")
        fs = [i for i in self.p.byname.get(n, []) if self.p.finfo[i]["q"].startswith("wordring::") and cls in self.p.finfo[i]["q"]]
        return self.p.where(fs[0]) if fs else "include/wordring/serialize (%s)" % fn


def same(st, got, want, what):
    e = teq(st, got, want)
    if e is None:
        raise Unknown(what)
    if not e:
        raise Bad("%s is %s, not %s" % (what, show_t(got), show_t(want)))


def show_t(t):
    if t[0] == "c":
        return str(t[1])
    if t[0] == "s":
        return t[1]
    if t[0] == "lin":
        return " + ".join(["%s*%d" % (show_t(a), k) for a, k in t[2]] + ([str(t[1])] if t[1] else []))
    return "another value"


def seq(I, st, v, n, what):
    v = I.lib.get(I, st, v)
    if v is None or v[0] != "str" or not all(x[0] == "chr" for x in v[1]):
        raise Unknown(what)
    if len(v[1]) != n:
        raise Bad("%s has %d elements, not %d" % (what, len(v[1]), n))
    return [x[1] for x in v[1]]


def bytes_are(I, st, v, want):
    for k, (g, w) in enumerate(zip(seq(I, st, v, len(want), "the output"), want)):
        same(st, g, w, "byte %d" % k)


def check(rep):
    soften(rep)
    p = export("ser.cpp")
    ck = Chk(rep, p)
    for ty in TYPES:
        w = ty.w
        for sign in ty.signs():
            d = {None: "", 0: "non-negative ", 1: "negative "}[sign] + "number"
            bs = ty.bytes(0, sign)
            n = ty.number(bs, sign)

            def judge(I, pa):
                returned(pa)
                bytes_are(I, pa.st, pa.val, bs)
            ck.run(ty, "ser", lambda st: [n], d, "serialize", judge)
            for k in range(w):
                def judge(I, pa):
                    returned(pa)
                    same(pa.st, pa.val, bs[k], "the byte at position %d" % k)
                ck.run(ty, "pos", lambda st: [n, C(k)], d, "serialize", judge)
            # reading: complete, with bytes behind it, and cut short
            for m in range(0, w + 3):
                for top in ((0,), (1,)) if m else ((0,),):
                    # every byte a plain char of known sign (for std::string input) or an octet
                    src = [byte(0, k, *((0, 127) if k or top == (0,) else (128, 255))) for k in range(m)]
                    full = src[:w]
                    val = C(0)
                    for b in full:
                        val = add(scale(val, 256), b)
                    if ty.signed and m >= w and top == (1,):
                        val = add(val, C(-(1 << 8 * w)))

                    def judge(I, pa):
                        returned(pa)
                        same(pa.st, pa.val, C(min(m, w)), "the position reached")
                        g = pa.st.heap.get(R)
                        if g is None:
                            raise Unknown("number")
                        same(pa.st, g, val, "the number read")

                    def setup(st, cs=None):
                        st.heap[R] = C(99)
                        st.heap[V] = ("str", tuple(("chr", x) for x in (cs or src)))
                        return [("ref", V), ("ref", R)]
                    ck.run(ty, "des", setup, "number from %d octets" % m, "deserialize", judge)
                    ck.run(ty, "dec", lambda st: setup(st, chars(src)), "number from %d chars" % m, "deserialize", judge)
        for cnt in range(0, 3):
            for signs in itertools.product(ty.signs(), repeat=cnt):
                bss = [ty.bytes(i, s) for i, s in enumerate(signs)]
                nums = [ty.number(b, s) for b, s in zip(bss, signs)]
                flat = [b for x in bss for b in x]

                def setup(st):
                    st.heap[V] = ("str", tuple(("chr", x) for x in nums))
                    st.heap[O] = ("str", ())
                    return [("ref", V), ("ref", O)]

                def judge(I, pa):
                    returned(pa)
                    bytes_are(I, pa.st, ("ref", O), flat)
                for e in ("it", "itp"):
                    ck.run(ty, e, setup, "sequence of %d" % cnt, "serialize_iterator::operator*" if e == "it" else "serialize_iterator::operator++", judge)
                if cnt and signs == (ty.signs()[0],) * cnt:
                    for i in range(0, cnt * w + 1):
                        def judge(I, pa):
                            returned(pa)
                            same(pa.st, pa.val, C(i // w), "base()")
                        ck.run(ty, "base", lambda st: setup(st)[:1] + [C(i)], "iterator after %d steps" % i, "serialize_iterator::base", judge)
                        for j in {0, i, max(0, i - 1), min(cnt * w, i + 1), i % w, min(cnt * w, i + w)}:
                            def judge(I, pa):
                                returned(pa)
                                same(pa.st, pa.val, C(int(i != j)), "whether they differ")
                            ck.run(ty, "ne", lambda st: setup(st)[:1] + [C(i), C(j)], "iterators after %d and %d steps" % (i, j), "operator!=", judge)
                # bytes as plain chars
                if ty.w <= 4 or cnt < 2:
                    for neg in ((),) if not cnt else ((), tuple(range(w * cnt)), (0,), (w - 1,)):
                        src = [byte(k // w, k % w, *((128, 255) if k in neg else (0, 127))) for k in range(w * cnt)]
                        want = []
                        for i in range(cnt):
                            s = 1 if ty.signed and i * w in neg else 0
                            want.append(ty.number(src[i * w:(i + 1) * w], s))

                        def setup2(st):
                            st.heap[V] = ("str", tuple(("chr", x) for x in chars(src)))
                            st.heap[O] = ("str", ())
                            return [("ref", V), ("ref", O)]

                        def judge(I, pa):
                            returned(pa)
                            for k, (g, x) in enumerate(zip(seq(I, pa.st, ("ref", O), cnt, "the output"), want)):
                                same(pa.st, g, x, "number %d" % k)
                        for e in ("dit", "ditp"):
                            ck.run(ty, e, setup2, "sequence of %d" % cnt, "deserialize_iterator::operator*" if e == "dit" else "deserialize_iterator::operator++", judge)
    rep.count("functions", 22)
    rep.need("partitions", 400)
