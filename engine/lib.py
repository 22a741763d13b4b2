"""Transfer functions for the library types the analysed code uses.

Values: ('str',items) for strings and sequence containers, items ('chr',v) | ('seq',S) | ('each',S,items);
('it',loc,k,ph) iterators into such a container; ('cur',S,off) a cursor into an input of unknown length;
('end',S); ('opt',has,val); ('tup',(vals)); ('bins',loc) back inserters.
"""
import re
from seq import Seq, conc
from absint import C, FULL, is_int, add, sub, sym, wrap, tinfo, Unsupported, ISet, scale

BIG = (1 << 62)
STRCLS = ("std::basic_string<", "std::basic_string_view<", "std::vector<", "std::deque<", "std::array<", "std::initializer_list<", "std::list<")


def slen(S):
    return ("call", ("len", S), 0, BIG)


def cls_of(t):
    if not t:
        return ""
    while t and t[0] in "&*":
        t = t[1:]
    return t[2:] if t[:2] in ("R:", "C:") else ""


def is_strcls(t):
    return cls_of(t).startswith(STRCLS)


def elem_type(t):
    """first template argument of a container type, as an integer type code when it is a character type"""
    c = cls_of(t)
    i = c.find("<")
    a = c[i + 1:]
    d = 0
    for j, ch in enumerate(a):
        if ch == "<":
            d += 1
        elif ch == ">":
            if d == 0:
                a = a[:j]
                break
            d -= 1
        elif ch == "," and d == 0:
            a = a[:j]
            break
    m = {"char32_t": "u32", "char16_t": "u16", "char8_t": "u8", "char": "i8", "unsigned int": "u32", "unsigned char": "u8", "unsigned short": "u16", "int": "i32", "unsigned long": "u64", "bool": "b1", "long": "i64"}
    a = a.strip()
    a = a[6:] if a.startswith("const ") else a
    return m.get(a, "R:" + a)


class Lib(Seq):
    def __init__(self):
        self.read_hook = None   # called on every cursor dereference: (I, st, S, off, e)

    # ------------------------------------------------------------------ copies
    def drop(self, st, loc):
        """forgets what was written below loc"""
        n = len(loc)
        for k in [k for k in st.heap if len(k) > n and k[:n] == loc]:
            del st.heap[k]

    def subtree(self, st, loc):
        n = len(loc)
        return [k for k in st.heap if len(k) >= n and k[:n] == loc]

    def fresh_copy(self, I, st, loc):
        l = I.newtmp()
        n = len(loc)
        for k in self.subtree(st, loc):
            st.heap[l + k[n:]] = st.heap[k]
        return l

    def payload(self, I, st, src, v):
        """current payload of an optional stored at src"""
        x = v[2]
        if src is not None:
            l = src + ("*",)
            if l in st.heap:
                return st.heap[l]
            if self.subtree(st, l):
                return ("ref", l)
        return x

    CTYPES = {"bool": (0, 1), "char": (-128, 127), "signed char": (-128, 127), "unsigned char": (0, 255), "short": (-32768, 32767), "unsigned short": (0, 65535), "int": (-2**31, 2**31 - 1),
              "unsigned int": (0, 2**32 - 1), "long": (-2**63, 2**63 - 1), "unsigned long": (0, 2**64 - 1), "char8_t": (0, 255), "char16_t": (0, 65535), "char32_t": (0, 2**32 - 1)}

    def into(self, I, st, ot, arg, v, at):
        """the value of type T that optional<T> (type ot) holds after being given arg: list of (st, payload)"""
        m = re.match(r"std::optional<(.*)>$", cls_of(ot)) if ot else None
        if not m:
            return [(st, v)]
        return self.conv(I, st, m.group(1), arg, v, at)

    def conv(self, I, st, T, arg, v, at):
        """the argument converted to the class or scalar type named T: list of (st, value)"""
        if T in self.CTYPES and is_int(v):
            return [(st, wrap(st, v, self.CTYPES[T]))]
        ac = cls_of((at or "").lstrip("&"))
        if ac and ac != T and I.rec("R:" + T) is not None:
            cache = I.p.__dict__.setdefault("_conv", {})
            if (T, ac) not in cache:
                cache[T, ac] = None
                for f, fn in I.p.funcs.items():
                    if fn.get("ctor") and cls_of(I.p.finfo[f].get("cls")) == T and len(fn["params"]) == 1 and fn.get("body") is not None and cls_of(fn["params"][0]["t"].lstrip("&")) == ac:
                        cache[T, ac] = f
                        break
            f = cache[T, ac]
            if f is not None:
                l = I.newtmp()
                if arg[0] != "ref":
                    m = I.newtmp()
                    st.heap[m] = arg
                    arg = ("ref", m)
                return [(s, ("ref", l)) for s in I.construct(st, f, I.p.finfo[f], l, [arg], {"t": "R:" + T})]
            return [(st, ("opq", ("convert", T, ac)))]
        return [(st, self.own(I, st, arg, v))]

    def assign(self, I, st, src, dst, v, t):
        """copies a container, optional or variant value to dst (elements held by reference are copied too)"""
        if v[0] == "opt":
            x = self.payload(I, st, src, v)
            if x is not None and x[0] == "ref":
                x = ("ref", self.fresh_copy(I, st, x[1]))
            v = ("opt", v[1], x)
            self.drop(st, dst)
        elif v[0] == "var":
            if v[2] is not None and v[2][0] == "ref":
                v = ("var", v[1], ("ref", self.fresh_copy(I, st, v[2][1])), v[3])
        elif is_strcls(t) and any(i[0] == "chr" and i[1][0] == "ref" for i in v[1]):
            et = elem_type(t)
            if I.rec(et) is not None or is_strcls(et):
                its = []
                for i in v[1]:
                    if i[0] == "chr" and i[1][0] == "ref":
                        l = I.newtmp()
                        I.copy(st, i[1][1], l, et)
                        i = ("chr", ("ref", l))
                    its.append(i)
                v = ("str", tuple(its))
        st.heap[dst] = v

    # ------------------------------------------------------------------ variants
    def alts(self, t):
        c = cls_of(t)
        if not c.startswith("std::variant<"):
            return None
        return self.targs(c)

    @staticmethod
    def targs(c):
        """template arguments of the type name c"""
        out, d, cur = [], 0, ""
        for ch in c[c.index("<") + 1:-1]:
            if ch == "," and d == 0:
                out.append(cur.strip())
                cur = ""
                continue
            d += ch in "<(" 
            d -= ch in ">)"
            cur += ch
        return out + [cur.strip()]

    def mkvar(self, I, st, t, arg, at):
        """variant value of type t from an argument of type at"""
        al = self.alts(t)
        a = self.get(I, st, arg)
        if a[0] == "var":
            return a
        c = cls_of(at) or at
        m = {"u32": ("char32_t", "unsigned int"), "i8": ("char",), "u8": ("unsigned char",), "i32": ("int",), "u64": ("unsigned long",), "b1": ("bool",)}
        ks = [k for k, x in enumerate(al) if x == c or x in m.get(c, ())]
        if len(ks) != 1:
            ks = [k for k, x in enumerate(al) if is_strcls("R:" + x) and a[0] == "str"]
        if len(ks) != 1:
            return None
        if arg[0] == "ref" and I.rec(at.lstrip("&")) is not None:
            l = I.newtmp()
            I.copy(st, arg[1], l, at.lstrip("&"))
            return ("var", ks[0], ("ref", l), tuple(al))
        return ("var", ks[0], a, tuple(al))

    def var_op(self, I, st, n, fi, v, oloc, args, e):
        al = v[3]
        ta = fi.get("ta", "").strip("<>")
        if n in ("holds_alternative", "get", "get_if", "_M_get"):
            first = ta.split(",")[0].strip()
            k = None
            num = first.rstrip("ULul")
            if num.isdigit():
                k = int(num)
            else:
                for j, x in enumerate(al):
                    if ta == x or ta.startswith(x + ","):
                        k = j
            if k is None:
                return None
            if n == "holds_alternative":
                return [(st, C(int(v[1] == k)))]
            if n == "get_if":
                if v[1] != k:
                    return [(st, ("ptr", None))]
                if v[2] is not None and v[2][0] == "ref":
                    return [(st, ("ptr", v[2][1]))]
                return [(st, ("ptr", I.as_loc(st, v[2])))]
            if v[1] != k:
                st.eff = st.eff + (("bad-get", e.get("l")),)
                st.meta["dead"] = ("throw", e.get("l"))
                return [(st, ("opq", "bad-get"))]
            return [(st, v[2] if v[2] is not None else ("void",))]
        if n == "index":
            return [(st, C(v[1]))]
        return None

    # ------------------------------------------------------------------ defaults
    def default(self, I, st, loc, t):
        if is_strcls(t):
            return ("str", (("seq", loc, elem_type(t)),))
        c = cls_of(t)
        if c.startswith("std::optional<"):
            return ("opt", ("s", ("has", loc), 0, 1), ("o", loc))
        return None

    def empty(self, t):
        if is_strcls(t):
            if cls_of(t).startswith("std::array<"):
                import re
                m = re.search(r", (\d+)>$", cls_of(t))
                if m and int(m.group(1)) <= 300 and tinfo(elem_type(t)):
                    return ("str", (("chr", C(0)),) * int(m.group(1)))
            return ("str", ())
        if cls_of(t).startswith("std::optional<"):
            return ("opt", C(0), None)
        return None

    def initlist(self, I, st, t, vs):
        m = re.match(r"std::array<(.*), (\d+)>$", cls_of(t)) or re.match(r"(.*)\[(\d+)\]$", cls_of(t)) if t else None
        if m and int(m.group(2)) <= 300 and re.match(r"(unsigned |signed )?(char|int|short|long|bool)|char(8|16|32)_t|std::uint|std::int|uint|int", m.group(1)):
            vals = []
            for v in vs:
                g = self.get(I, st, v)
                if g[0] == "str":
                    vals += [x for x in g[1]]
                elif is_int(g):
                    vals.append(("chr", g))
                elif g[0] == "ref" and not any(k[:len(g[1])] == g[1] for k in st.heap):
                    pass
                else:
                    vals = None
                    break
            if vals is not None and len(vals) <= int(m.group(2)) and all(x[0] == "chr" for x in vals):
                return ("str", tuple(vals) + (("chr", C(0)),) * (int(m.group(2)) - len(vals)))
        if is_strcls(t) or (t and t[:2] not in ("R:", "C:")) or cls_of(t).startswith("std::initializer_list") or cls_of(t).endswith("]"):
            if len(vs) == 1 and vs[0][0] == "str" and not cls_of(t).startswith("std::initializer_list"):
                return vs[0]
            return ("str", tuple(("chr", v if v[0] != "ref" else st.heap.get(v[1], v)) for v in vs))
        if cls_of(t).startswith(("std::pair<", "std::tuple<")):
            return ("tup", tuple(self.get(I, st, v) for v in vs))
        return ("opq", ("init", t, tuple(vs)))

    # ------------------------------------------------------------------ strings
    def get(self, I, st, v):
        """value of v, through references"""
        n = 0
        while v is not None and v[0] in ("ref", "bindref", "alias") and n < 8:
            w = st.heap.get(v[1])
            if w is None:
                return v
            v = w
            n += 1
        if v is not None and v[0] == "sel":
            return self.sel_get(I, st, v)
        return v

    def sval(self, I, st, v, t=None):
        """the ('str',..) value of v, or None"""
        loc = None
        if v[0] == "ref":
            loc = v[1]
            v = st.heap.get(loc)
            if v is None:
                if t is not None and is_strcls(t):
                    v = I.load(st, loc, t)
                else:
                    v = ("str", (("seq", loc, "u32"),))
                    st.heap[loc] = v
        if v[0] == "ptr" and v[1] is not None:
            v = st.heap.get(v[1], v)
        if v[0] == "bindref":
            return self.sval(I, st, ("ref", v[1]), t)
        if v[0] != "str":
            return None
        return self.norm(st, v)

    def norm(self, st, v):
        out = []
        ch = False
        for it in v[1]:
            if it[0] == "seq" and ("eq", it[1]) in st.meta:
                out.extend(st.meta[("eq", it[1])])
                ch = True
            else:
                out.append(it)
        return ("str", tuple(out)) if ch else v

    def length(self, v):
        t = C(0)
        for it in v[1]:
            if it[0] == "chr":
                t = add(t, C(1))
            elif it[0] == "seq":
                t = add(t, slen(it[1]))
            else:
                t = add(t, slen(it))
        return t

    def streq(self, I, st, a, b):
        """list of (st, bool)"""
        if a == b:
            return [(st, True)]
        la, lb = self.length(a), self.length(b)
        conc = lambda v: all(i[0] == "chr" for i in v[1])
        if conc(a) and conc(b):
            if len(a[1]) != len(b[1]):
                return [(st, False)]
            res = [(st, True)]
            for x, y in zip(a[1], b[1]):
                nxt = []
                for s, ok in res:
                    if not ok:
                        nxt.append((s, False))
                        continue
                    for s2, c in I.compare(s, "==", x[1], y[1]):
                        nxt.append((s2, bool(c[1])))
                res = nxt
            return res
        # length feasibility
        d = sub(la, lb)
        if d[0] == "c" and d[1] != 0:
            return [(st, False)]
        if conc(a):
            a, b = b, a
        out = []
        if conc(b) and not b[1]:
            return [(s, bool(c[1])) for s, c in I.compare(st, "==", self.length(a), C(0))]
        # common concrete prefix decides inequality
        if not conc(b):
            a, b = sorted((a, b), key=repr)
        atom = ("call", ("streq", a, b), 0, 1)
        for s, tv in I.branch(st, atom):
            if tv:
                if not s.restrict(d, ISet(((0, 0),))):
                    continue
                if conc(b) and len(a[1]) == 1 and a[1][0][0] == "seq":
                    S = a[1][0][1]
                    s.meta[("eq", S)] = b[1]
            out.append((s, tv))
        return out

    # ------------------------------------------------------------------ iterators
    def begin(self, I, st, lc):
        v = st.heap.get(lc)
        if v is not None and v[0] in ("bindref", "alias"):
            return self.begin(I, st, v[1])
        if v is None:
            v = ("str", (("seq", lc, "u32"),))
            st.heap[lc] = v
        if v[0] != "str":
            raise Unsupported("iteration over %s" % (v[0],))
        return [(st, ("it", lc, 0, 0))]

    def items(self, st, loc):
        v = st.heap.get(loc)
        n = 0
        while v is not None and v[0] in ("bindref", "alias") and n < 8:
            v = st.heap.get(v[1])
            n += 1
        if v is None or v[0] != "str":
            raise Unsupported("container at %r" % (loc,))
        return self.norm(st, v)[1]

    def not_end(self, I, st, it):
        """list of (st, bool) for it != end"""
        items = self.items(st, it[1])
        k, ph = it[2], it[3]
        if ph:
            k += 1
        if k >= len(items):
            return [(st, False)]
        x = items[k]
        if x[0] == "chr":
            return [(st, True)]
        # symbolic chunk: one generic iteration stands for all of them
        S = x[1]
        st.eff = st.eff + (("mark", S, self.strsnap(st)),)
        return [(st, True)]

    def strsnap(self, st):
        return tuple((k, len(v[1])) for k, v in st.heap.items() if v[0] == "str")

    def elem_val(self, I, st, x):
        if x[0] == "chr":
            return x[1]
        et = x[2] if len(x) > 2 else "u32"
        ti = tinfo(et)
        if ti:
            return sym(("elem", x[1]), *ti)
        if is_strcls(et):
            return ("str", (("seq", ("elem", x[1]), elem_type(et)),))
        return ("ref", ("o", ("elem", x[1]), "*"))

    def deref(self, I, st, v):
        if v[0] == "it":
            items = self.items(st, v[1])
            k = v[2] + (1 if v[3] else 0)
            if k >= len(items):
                st.eff = st.eff + (("past-end", v[1]),)
                return ("opq", "past-end")
            return self.elem_val(I, st, items[k])
        if v[0] == "cur":
            return self.cur_read(I, st, v)
        if v[0] == "opt":
            return v[2] if v[2] is not None else ("opq", "nullopt")
        if v[0] == "bins":
            return v
        if v[0] == "str":
            return self.elem_val(I, st, v[1][0]) if v[1] else ("opq", "empty")
        return None

    def cur_read(self, I, st, v):
        if self.read_hook:
            self.read_hook(I, st, v)
        lo, hi = 0, 0xFFFFFFFF
        r = st.meta.get(("dom", v[1]))
        if r:
            lo, hi = r
        off = v[2]
        return sym(("in", v[1], off[1] if off[0] == "c" else off), lo, hi)

    def advance(self, I, st, v, d):
        if v[0] == "it" and d[0] == "c":
            k, ph = v[2], v[3]
            n = d[1]
            items = self.items(st, v[1])
            while n > 0:
                if ph:
                    k, ph = k + 1, 0
                if k >= len(items):
                    break
                if items[k][0] == "chr":
                    k += 1
                else:
                    self.collapse(I, st, items[k])
                    ph = 1
                n -= 1
            if n < 0:
                if ph:
                    ph = 0
                    n += 1
                k += n
            return ("it", v[1], k, ph)
        if v[0] == "itend" and d[0] == "c":
            if d[1] == 0:
                return v
            items = self.items(st, v[1])
            if d[1] < 0 and len(items) >= -d[1] and conc(items[d[1]:]):
                return ("it", v[1], len(items) + d[1], 0)
            return None
        if v[0] in ("cur",):
            return ("cur", v[1], add(v[2], d))
        if v[0] == "end":
            return ("cur", v[1], add(slen(v[1]), d))
        if v[0] == "bins":
            return v
        return None

    def collapse(self, I, st, item):
        """closes the generic iteration over a symbolic chunk: effects and appended items become 'each'."""
        S = item[1]
        e = None
        for i in range(len(st.eff) - 1, -1, -1):
            if st.eff[i][0] == "mark" and st.eff[i][1] == S:
                e = i
                break
        if e is None:
            return
        body = st.eff[e + 1:]
        before = dict(st.eff[e][2])
        st.eff = st.eff[:e]
        if body:
            st.eff = st.eff + (("each", S, body),)
        el = self.elem_val(I, st, item)
        for k, v in list(st.heap.items()):
            if v[0] != "str":
                continue
            if k not in before and v[1] and v[1][0][:2] == ("seq", k):
                before[k] = 1       # first touched inside the loop: its entry value is the default
            if k in before and len(v[1]) > before[k]:
                suf = v[1][before[k]:]
                if suf == (("chr", el),):
                    new = (item,)
                else:
                    new = (("each", S, suf),)
                st.heap[k] = ("str", v[1][:before[k]] + new)

    def remaining(self, v):
        return sub(slen(v[1]), v[2])

    def it_cmp(self, I, st, op, a, b):
        """comparisons between iterators: list of (st, ('c',..)) or None"""
        def pos(x):
            if x[0] == "cur":
                return x[2]
            if x[0] == "end":
                return slen(x[1])
            return None
        pa, pb = pos(a), pos(b)
        if pa is not None and pb is not None and a[1] == b[1]:
            return I.compare(st, op, pa, pb)
        if b[0] == "itf" and a[0] != "itf":
            a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if a[0] == "itf":
            end = a[2] + len(a[4])
            if op in ("==", "!=") and b[0] in ("it", "itend") and b[1] == a[1] and (b[2] + b[3] if b[0] == "it" else len(self.items(st, a[1]))) == end:
                out = []
                S = ISet.of(*a[4])
                for S2, ise in ((S, False), (FULL - S, True)):
                    s = st.fork()
                    if s.restrict(a[3], S2):
                        out.append((s, C(int(ise == (op == "==")))))
                return out
            return [r for s, w in self.force(I, st, a) for r in self.it_cmp(I, s, op, w, b) or []]
        if a[0] == "rit" and b[0] == "rit" and a[1] == b[1]:
            return I.compare(st, op, C(-a[2]), C(-b[2]))
        if a[0] in ("it", "itend") and b[0] in ("it", "itend") and op not in ("==", "!=") and a[1] == b[1]:
            items = self.items(st, a[1])
            if conc(items):
                return I.compare(st, op, C(len(items) if a[0] == "itend" else a[2]), C(len(items) if b[0] == "itend" else b[2]))
        if a[0] == "itend" and b[0] == "itend" and a[1] == b[1] and op in ("==", "!="):
            return [(st, C(int(op == "==")))]
        if a[0] in ("it", "itend") and b[0] in ("it", "itend") and op in ("==", "!="):
            if a[0] == "itend" and b[0] == "it":
                a, b = b, a
            if a[0] == "it" and b[0] == "itend":
                return [(s, C(int(ne == (op == "!=")))) for s, ne in self.not_end(I, st, a)]
            if a[0] == "it" and b[0] == "it" and a[1] == b[1]:
                ka, kb = a[2] + a[3], b[2] + b[3]
                items = self.items(st, a[1])
                lo, hi = min(ka, kb), max(ka, kb)
                if lo == hi:
                    return [(st, C(int(op == "==")))]
                if any(i[0] == "chr" for i in items[lo:hi]):
                    return [(st, C(int(op == "!=")))]
                return I.compare(st, op, self.length(("str", items[lo:hi])), C(0))
        return None

    # ------------------------------------------------------------------ members of modelled values
    def member(self, I, st, loc, v, n):
        if v[0] == "tup" and n in ("ptr", "ec") and len(v[1]) == 2:      # to_chars_result, from_chars_result
            return v[1][0 if n == "ptr" else 1]
        if v[0] == "tup" and n in ("first", "second") and len(v) > 2:  # a pair built by default
            return v[1][0 if n == "first" else 1]
        if v[0] == "tup" and n in ("first", "second"):
            x = v[1][0 if n == "first" else 1]
            if loc is None:
                return x
            l = loc + (n,)
            if l not in st.heap:
                st.heap[l] = x
            return ("ref", l)
        return None

    def tuple_get(self, I, st, base, tv, i):
        if tv is not None and tv[0] == "tup":
            return tv[1][i]
        return None

    def index(self, I, st, a, b, t):
        v = self.get(I, st, a)
        if v is None:
            return None
        if v[0] == "cur":
            return self.deref(I, st, ("cur", v[1], add(v[2], b)))
        if v[0] == "ptr" and v[1] is not None:
            v = st.heap.get(v[1], v)
        if v[0] == "str" and b[0] == "c":
            v = self.norm(st, v)
            if b[1] < len(v[1]) and all(i[0] == "chr" for i in v[1][:b[1] + 1]):
                return v[1][b[1]][1]
        return None

    def it_sel(self, I, st, v):
        if v[0] == "it":
            its = self.items(st, v[1])
            k = v[2] + (1 if v[3] else 0)
            if k < len(its) and its[k][0] == "chr" and its[k][1][0] != "ref":
                return ("sel", v[1], k)
        return None

    def sel_get(self, I, st, a):
        return self.items(st, a[1])[a[2]][1]

    def sel_set(self, I, st, a, v):
        its = self.items(st, a[1])
        st.heap[a[1]] = ("str", its[:a[2]] + (("chr", v),) + its[a[2] + 1:])

    def binop(self, I, st, op, a, b, t):
        if a[0] in ("cur", "end", "it", "itend") and is_int(b) and op in ("+", "-"):
            return self.advance(I, st, a, b if op == "+" else scale(b, -1))
        if is_int(a) and b[0] in ("cur", "end", "it", "itend") and op == "+":
            return self.advance(I, st, b, a)
        if op == "-" and a[0] in ("cur", "end") and b[0] in ("cur", "end") and a[1] == b[1]:
            pa = a[2] if a[0] == "cur" else slen(a[1])
            pb = b[2] if b[0] == "cur" else slen(b[1])
            return sub(pa, pb)
        if op == "-" and a[0] in ("it", "itend") and b[0] in ("it", "itend") and a[1] == b[1]:
            items = self.items(st, a[1])
            if conc(items):
                return C((len(items) if a[0] == "itend" else a[2]) - (len(items) if b[0] == "itend" else b[2]))
        return None

    # ------------------------------------------------------------------ constructors
    def ctor(self, I, st, fi, t, args, e):
        c = cls_of(t)
        if is_strcls(t):
            while args and fi.get("pt") and len(fi["pt"]) >= len(args) and cls_of(fi["pt"][len(args) - 1].lstrip("&")).startswith("std::allocator<"):
                args = args[:-1]
            if not args:
                return [(st, self.empty(t))]
            a = [self.get(I, st, x) for x in args]
            if len(a) == 2 and a[0][0] == "c" and 0 <= a[0][1] < 8 and a[1][0] == "ref" and args[1][0] == "ref" and fi.get("pt") and I.rec(fi["pt"][1].lstrip("&").replace("C:", "R:", 1)) is not None:
                out = ()
                for _ in range(a[0][1]):
                    l = I.newtmp()
                    I.copy(st, args[1][1], l, fi["pt"][1].lstrip("&").replace("C:", "R:", 1))
                    out += (("chr", ("ref", l)),)
                return [(st, ("str", out))]
            if len(a) >= 1 and a[0] is not None and a[0][0] == "str" and (len(a) == 1 or a[1][0] in ("opq", "ref")):
                return [(st, a[0])]
            if len(a) >= 2 and is_int(a[0]) and is_int(a[1]) and a[0][0] == "c" and a[0][1] < 64:
                return [(st, ("str", (("chr", a[1]),) * a[0][1]))]
            if len(a) >= 2 and a[0][0] in ("cur",) and a[1][0] in ("cur", "end"):
                return [(st, ("str", (("seq", ("sub", a[0], a[1]), elem_type(t)),)))]
            if len(a) >= 2 and a[0][0] == "it" and a[1][0] in ("itend", "it"):
                items = self.items(st, a[0][1])
                k2 = len(items) if a[1][0] == "itend" else a[1][2]
                return [(st, ("str", items[a[0][2]:k2]))]
            if len(a) >= 2 and a[0][0] == "str" and is_int(a[1]):
                if a[1][0] == "c" and all(i[0] == "chr" for i in a[0][1][:a[1][1]]):
                    return [(st, ("str", a[0][1][:a[1][1]]))]
            r = ("str", (("seq", ("ctor", tuple(x if x is not None else ("?",) for x in a)), elem_type(t)),))
            return [(st, r)]
        if c.startswith("std::optional<"):
            if not args or (args[0][0] == "ref" and "nullopt" in repr(args[0][1])):
                return [(st, ("opt", C(0), None))]
            a = self.get(I, st, args[0])
            if a[0] == "opt":
                return [(st, a)]
            if fi.get("pt") and "nullopt_t" in fi["pt"][0]:
                return [(st, ("opt", C(0), None))]
            return [(s, ("opt", C(1), x)) for s, x in self.into(I, st, t, args[0], a, (e.get("a") or [{}])[0].get("t"))]
        if c.startswith(("std::pair<", "std::tuple<")):
            if len(args) == 1 and e.get("cp"):
                a = self.get(I, st, args[0])
                return [(st, a)]
            ts = self.targs(c)
            if not args and c.startswith("std::pair<") and len(ts) == 2:
                vs = []
                for x in ts:
                    l = I.newtmp()
                    if "::" not in x and "<" not in x and "*" not in x:
                        st.heap[l] = C(0)
                    vs.append(("ref", l))
                return [(st, ("tup", tuple(vs), "d"))]
            if len(ts) != len(args) or not any(I.rec("R:" + x) is not None for x in ts):
                return [(st, ("tup", tuple(self.own(I, st, x, self.get(I, st, x)) for x in args)))]
            out = [(st, ())]
            for k, x in enumerate(args):
                if I.rec("R:" + ts[k]) is None:
                    out = [(s, vs + (self.own(I, s, x, self.get(I, s, x)),)) for s, vs in out]
                else:
                    at = ((e.get("a") or []) + [{}] * len(args))[k].get("t")
                    out = [(s2, vs + (y,)) for s, vs in out for s2, y in self.conv(I, s, ts[k], x, self.get(I, s, x), at)]
            return [(s, ("tup", vs)) for s, vs in out]
        if c.startswith("std::variant<") and len(args) <= 1:
            al = self.alts(t)
            if not args:
                if al[0] == "std::monostate":
                    return [(st, ("var", 0, None, tuple(al)))]
                if I.rec("R:" + al[0]) is not None:
                    l = I.newtmp()
                    I.zero_init(st, l, "R:" + al[0])
                    return [(st, ("var", 0, ("ref", l), tuple(al)))]
                return None
            v = self.mkvar(I, st, t, args[0], (e.get("a") or [{}])[0].get("t") or "")
            return [(st, v)] if v is not None else None
        if c.startswith("std::unique_ptr<"):
            if not args:
                return [(st, ("ptr", None))]
            a = self.get(I, st, args[0])
            if a[0] == "ptr":
                if args[0][0] == "ref":
                    st.heap[args[0][1]] = ("ptr", None)
                return [(st, a)]
            return None
        if c.startswith("std::back_insert_iterator"):
            a = args[0]
            if a[0] == "ref":
                v = st.heap.get(a[1])
                if v is not None and v[0] == "bins":
                    return [(st, v)]
                return [(st, ("bins", a[1]))]
        if e.get("cp") and len(args) == 1 and I.rec(t) is None:
            a = self.get(I, st, args[0])
            return [(st, a)]
        if len(args) == 1 and "iterator" in c.split("<")[0] and c.startswith(("std::", "__gnu_cxx::")):
            a = self.get(I, st, args[0])
            if a[0] == "ref" and c.startswith("std::reverse_iterator<"):
                bt = "R:" + c[len("std::reverse_iterator<"):].rstrip()[:-1].strip()
                if I.rec(bt) is not None:
                    l = I.newtmp()
                    I.copy(st, a[1], l, bt)
                    return [(st, ("urit", l, bt))]
            if a[0] in ("it", "itend", "cur", "end", "rit", "urit"):
                if "reverse_iterator" in c.split("<")[0] and a[0] in ("it", "itend"):
                    its = self.items(st, a[1])
                    return [(st, ("rit", a[1], len(its) if a[0] == "itend" else a[2]))] if conc(its) else None
                return [(st, a)]
        return None

    def make_elem(self, I, st, et, args, a, e):
        """a container element built from the arguments: list of (st, value)"""
        if I.rec(et) is None:
            if is_strcls(et):
                r = [(st, a[0])] if len(a) == 1 and a[0][0] == "str" else self.ctor(I, st, {"pt": []}, et, args, {"t": et})
                out = []
                for s, x in r:
                    l = I.newtmp()
                    s.heap[l] = x
                    out.append((s, ("ref", l)))
                return out
            if len(a) == 1:
                return [(st, a[0])]
            if not a:
                ti = tinfo(et)
                return [(st, C(0) if ti else (self.empty(et) or ("opq", "default")))]
            r = self.ctor(I, st, {"pt": []}, et, args, {"t": et})
            return r if r is not None else [(st, ("opq", ("elem", tuple(a))))]
        l = I.newtmp()
        if len(a) == 1 and a[0][0] == "ref" and args[0][0] == "ref":
            I.copy(st, a[0][1], l, et)
            return [(st, ("ref", l))]
        for f, fn in I.p.funcs.items():
            if fn.get("ctor") and I.p.finfo[f].get("cls") == et and len(fn["params"]) == len(a) and fn.get("body") is not None:
                return [(s, ("ref", l)) for s in I.construct(st, f, I.p.finfo[f], l, args, {"t": et})]
        if not a:
            I.zero_init(st, l, et)
            return [(st, ("ref", l))]
        return [(st, ("opq", ("elem", et, tuple(a))))]

    def own(self, I, st, ref, v):
        """a private copy of a record value (so later writes through the source do not show)"""
        if v is not None and v[0] == "ref":
            return v
        return v

    # ------------------------------------------------------------------ calls
    def call(self, I, st, fi, o, args, e):
        n = fi["n"]
        cls = cls_of(fi.get("cls", ""))
        q = fi["q"]
        if n in ("__assert_fail", "abort", "terminate", "__throw_out_of_range_fmt"):
            st.meta["dead"] = ("abort", e.get("l"))
            return [(st, ("void",))]
        if e.get("op") not in ("==", "!="):
            for k, x in enumerate(([o] if o is not None else []) + list(args)):
                y = st.heap.get(x[1]) if x[0] == "ref" else x
                if y is not None and y[0] == "itf":
                    out = []
                    for s, w in self.force(I, st, y):
                        if x[0] == "ref":
                            s.heap[x[1]] = w
                            w = x
                        kk = k - (o is not None)
                        r = self.call(I, s, fi, w if kk < 0 else o, [w if j == kk else z for j, z in enumerate(args)], e)
                        if r is None:
                            return None
                        out += r
                    return out
        if cls.startswith(("std::unique_ptr<", "std::__uniq_ptr_impl<")) and o is not None:
            r = self.uptr(I, st, n, o, args, e)
            if r is not None:
                return r
        if n == "make_unique" and q.startswith("std::make_unique"):
            m = re.match(r"R:std::unique_ptr<(.*), std::default_delete<.*$", fi.get("ret") or "")
            if m:
                l = I.newtmp()
                if is_strcls("R:" + m.group(1)):
                    # the forwarded arguments as the constructor sees them
                    r = self.ctor(I, st, {"pt": [x.lstrip("&") for x in fi.get("pt") or []]}, "R:" + m.group(1), args, e)
                    if r is not None:
                        out = []
                        for s, v in r:
                            s.heap[l] = self.own(I, s, ("ref", l), v) if v[0] != "str" else v
                            out.append((s, ("ptr", l)))
                        return out
        if q.startswith("std::") and o is None or (q.startswith("std::") and not cls):
            r = self.free(I, st, fi, n, args, e)
            if r is not None:
                return r
        if o is not None:
            r = self.method(I, st, fi, n, cls, o, args, e)
            if r is not None:
                return r
        if e.get("op"):
            r = self.operator(I, st, fi, e["op"], ([o] if o is not None else []) + list(args), e)
            if r is not None:
                return r
        return None

    def uptr(self, I, st, n, o, args, e):
        """std::unique_ptr: the pointer is the value; moving from it leaves null"""
        loc = o[1] if o[0] in ("ref", "ptr") else None
        if loc is None:
            return None
        v = st.heap.get(loc)
        if v is None or v[0] != "ptr":
            return None
        if n == "get":
            return [(st, v)]
        if n == "operator->":
            if v[1] is None:
                st.meta["dead"] = ("abort", e.get("l"))
            return [(st, v)]
        if n == "operator*":
            if v[1] is None:
                st.meta["dead"] = ("abort", e.get("l"))
                return [(st, ("void",))]
            return [(st, ("ref", v[1]))]
        if n == "operator bool":
            return [(st, C(int(v[1] is not None)))]
        if n == "release":
            st.heap[loc] = ("ptr", None)
            return [(st, v)]
        if n in ("operator=", "reset", "swap"):
            if not args:
                w = ("ptr", None)
            else:
                w = self.get(I, st, args[0])
                if w is None or w[0] != "ptr":
                    return None
            st.heap[loc] = w
            if n != "reset" and args and args[0][0] == "ref" and args[0][1] != loc:
                st.heap[args[0][1]] = ("ptr", None) if n == "operator=" else v
            return [(st, ("ref", loc) if n == "operator=" else ("void",))]
        return None

    def operator(self, I, st, fi, op, a, e):
        v = [self.get(I, st, x) for x in a]
        if len(v) == 2 and v[0] is not None and v[1] is not None and v[0][0] == v[1][0] == "urit" and op in ("==", "!="):
            return self.urit_cmp(I, st, op, v[0], v[1], e)
        pts = ([fi.get("cls")] if len(a) > len(fi.get("pt") or ()) else []) + list(fi.get("pt") or ())
        for i, x in enumerate(v):
            if x is not None and x[0] == "ref" and i < len(pts) and is_strcls(pts[i]):
                v[i] = self.sval(I, st, x, pts[i]) or x
        if op in ("==", "!=", "<", "<=", ">", ">=") and len(a) == 2:
            r = self.it_cmp(I, st, op, v[0], v[1])
            if r is not None:
                return r
            if v[0][0] == "str" or v[1][0] == "str":
                x, y = self.sval(I, st, a[0]), self.sval(I, st, a[1])
                if x is not None and y is not None and op in ("==", "!="):
                    return [(s, C(int(b == (op == "==")))) for s, b in self.streq(I, st, x, y)]
            if v[0][0] == "opt" or v[1][0] == "opt":
                pv = []
                for i in (0, 1):
                    x = v[i]
                    if x[0] == "opt" and a[i][0] == "ref":
                        l, g = a[i][1], 0
                        while st.heap.get(l, ("",))[0] in ("bindref", "alias", "ref") and g < 8:
                            l, g = st.heap[l][1], g + 1
                        x = ("opt", x[1], self.payload(I, st, l, x))
                    pv.append(x)
                return self.opt_cmp(I, st, op, pv[0], pv[1], pts, e)
            if is_int(v[0]) and is_int(v[1]):
                return I.compare(st, op, v[0], v[1])
        if op in ("+", "-") and len(a) == 2:
            ITS = ("cur", "end", "it", "itend")
            if v[0][0] in ITS and is_int(v[1]):
                r = self.advance(I, st, v[0], v[1] if op == "+" else scale(v[1], -1))
                if r is not None:
                    return [(st, r)]
            if v[1][0] in ITS and is_int(v[0]) and op == "+":
                r = self.advance(I, st, v[1], v[0])
                if r is not None:
                    return [(st, r)]
        if op == "+" and len(a) == 2:
            x = ("str", (("chr", v[0]),)) if is_int(v[0]) else self.sval(I, st, a[0])
            y = ("str", (("chr", v[1]),)) if is_int(v[1]) else self.sval(I, st, a[1])
            if x is not None and y is not None and not (is_int(v[0]) and is_int(v[1])):
                return [(st, ("str", x[1] + y[1]))]
        if op == "-" and len(a) == 2:
            r = self.binop(I, st, "-", v[0], v[1], None)
            if r is not None:
                return [(st, r)]
        if op == "*" and len(a) == 1:
            r = self.deref(I, st, v[0])
            if r is not None:
                return [(st, r)]
        return None

    def user_eq(self, I, pts):
        """a user-defined operator== for the payloads of a comparison with an optional"""
        ts = []
        for t in pts[:2]:
            c = cls_of(t.lstrip("&"))
            m = re.match(r"std::optional<(.*)>$", c)
            ts.append(m.group(1) if m else c)
        if len(ts) != 2:
            return None
        for i in I.p.byname.get("operator==", []):
            f = I.p.funcs.get(i)
            if f is not None and f.get("body") is not None and len(f["params"]) == 2 and [cls_of(x["t"].lstrip("&")) for x in f["params"]] == ts:
                return i
        return None

    def opt_cmp(self, I, st, op, a, b, pts=(), e=None):
        if op not in ("==", "!="):
            return None
        usr = self.user_eq(I, pts) if len(pts) == 2 else None
        if usr is not None and a[0] == "opt":
            out = []
            bh, bv = (b[1], b[2]) if b[0] == "opt" else (C(1), b)
            for s, ha in I.branch(st, a[1]):
                for s2, hb in I.branch(s, bh):
                    if ha != hb:
                        out.append((s2, C(int(op == "!="))))
                    elif not ha:
                        out.append((s2, C(int(op == "=="))))
                    else:
                        for s3, r in I.call(s2, usr, None, [a[2], bv], e):
                            for s4, t in I.branch(s3, r):
                                out.append((s4, C(int(bool(t) == (op == "==")))))
            return out
        out = []
        if a[0] != "opt":
            a, b = b, a
        bh, bv = (b[1], b[2]) if b[0] == "opt" else (C(1), b)
        for s, ha in I.branch(st, a[1]):
            for s2, hb in I.branch(s, bh):
                if ha != hb:
                    out.append((s2, C(int(op == "!="))))
                elif not ha:
                    out.append((s2, C(int(op == "=="))))
                else:
                    av = self.get(I, s2, a[2]) if a[2] is not None else ("opq", "none")
                    bw = self.get(I, s2, bv) if bv is not None else ("opq", "none")
                    if is_int(av) and is_int(bw):
                        out += I.compare(s2, op, av, bw)
                    else:
                        out += I.cmp_other(s2, op, av, bw)
        return out

    def free(self, I, st, fi, n, args, e):
        r = self.ualgo(I, st, fi, n, args, e)
        if r is not None:
            return r
        v = [self.get(I, st, x) for x in args]
        if n in ("move", "forward", "addressof", "as_const", "cref", "ref") and len(args) == 1:
            return [(st, args[0] if n != "addressof" else ("ptr", I.as_loc(st, args[0])))]
        if n in ("next", "prev"):
            d = v[1] if len(v) > 1 else C(1)
            if n == "prev":
                d = scale(d, -1)
            r = self.advance(I, st, v[0], d)
            if r is not None:
                return [(st, r)]
        if n == "advance":
            r = self.advance(I, st, v[0], v[1])
            if r is not None and args[0][0] == "ref":
                st.heap[args[0][1]] = r
                return [(st, ("void",))]
        if n == "distance":
            r = self.binop(I, st, "-", v[1], v[0], None)
            if r is not None:
                return [(st, r)]
            if v[0][0] == "it" and v[1][0] == "itend":
                return [(st, self.length(("str", self.items(st, v[0][1])[v[0][2]:])))]
        if n in ("begin", "cbegin", "end", "cend", "size", "empty", "data"):
            return self.method(I, st, fi, n, "std::basic_string<", args[0], [], e)
        if n == "back_inserter" and args[0][0] == "ref":
            return [(st, ("bins", args[0][1]))]
        if n == "make_reverse_iterator" and args[0][0] == "ref" and I.rec(fi.get("ret", "")[0:0] or (fi.get("pt") or [""])[0].lstrip("&").replace("C:", "R:", 1)) is not None:
            t = fi["pt"][0].lstrip("&").replace("C:", "R:", 1)
            l = I.newtmp()
            I.copy(st, args[0][1], l, t)
            return [(st, ("urit", l, t))]
        if n == "make_reverse_iterator" and v[0][0] in ("it", "itend"):
            its = self.items(st, v[0][1])
            if conc(its):
                return [(st, ("rit", v[0][1], len(its) if v[0][0] == "itend" else v[0][2] + v[0][3]))]
        if n in ("make_optional",):
            if args:
                return [(s, ("opt", C(1), x)) for s, x in self.into(I, st, e.get("t") or fi.get("ret"), args[0], v[0], (e.get("a") or [{}])[0].get("t"))]
            return [(st, ("opt", C(1), ("str", ())))]
        if n in ("make_pair", "make_tuple"):
            return [(st, ("tup", tuple(v)))]
        if n in ("min", "max") and len(v) == 2 and is_int(v[0]) and is_int(v[1]):
            out = []
            for s, c in I.compare(st, "<", v[0], v[1]):
                out.append((s, v[0] if bool(c[1]) == (n == "min") else v[1]))
            return out
        if n == "get" and v and v[0][0] == "tup":
            try:
                return [(st, v[0][1][int(fi.get("ta", "").strip("<>").split(",")[0].rstrip("ULul"))])]
            except ValueError:
                return None
        if n == "swap" and len(args) == 2 and args[0][0] in ("ref", "sel") and args[1][0] in ("ref", "sel"):
            a, b = self.get(I, st, args[0]), self.get(I, st, args[1])
            if a is not None and b is not None:
                for d, x in ((args[0], b), (args[1], a)):
                    if d[0] == "sel":
                        self.sel_set(I, st, d, x)
                    else:
                        st.heap[d[1]] = x
                return [(st, ("void",))]
        if n in ("tie",):
            return [(st, ("tie", tuple(args)))]
        if n in ("holds_alternative", "get", "get_if") and v and v[0] is not None:
            x = v[0]
            if x[0] == "ptr" and x[1] is not None:
                x = self.get(I, st, ("ref", x[1]))
            if x[0] == "var":
                return self.var_op(I, st, n, fi, x, None, args, e)
        return self.algo(I, st, n, v, args, e)

    def write(self, I, st, loc, v):
        st.heap[loc] = v

    def method(self, I, st, fi, n, cls, o, args, e):
        ov = self.get(I, st, o) if o is not None else None
        oloc = o[1] if o[0] == "ref" else None
        if oloc is not None:
            w = st.heap.get(oloc)
            g = 0
            while w is not None and w[0] in ("bindref", "alias") and g < 8:
                oloc = w[1]
                w = st.heap.get(oloc)
                g += 1
        if ov is not None and ov[0] == "ptr" and ov[1] is not None:
            oloc = ov[1]
            ov = st.heap.get(oloc, ("ref", oloc))
        # -------- std::function / callables handled elsewhere
        if ov is not None and ov[0] == "ref" and is_strcls(fi.get("cls")):
            ov = I.load(st, ov[1], fi.get("cls"))
        if ov is not None and ov[0] == "ref" and cls.startswith("std::optional<") or (ov is not None and ov[0] == "ref" and cls.startswith("std::_Optional")):
            ov = I.load(st, ov[1], "R:std::optional<>")
        if ov is None:
            return None
        # -------- back inserters and output cursors
        if ov[0] == "bins":
            if n in ("operator*", "operator++"):
                return [(st, ov)]
            if n == "operator=":
                x = self.get(I, st, args[0])
                self.append(I, st, ov[1], ("chr", x))
                return [(st, ov)]
        # -------- cursors / iterators
        if ov[0] in ("it", "itend", "cur", "end", "rit", "urit") and oloc is None:
            oloc = I.newtmp()
            st.heap[oloc] = ov
        if ov[0] in ("it", "itend", "cur", "end"):
            if n == "operator*" and e is I.lhs and I.lhs is not None:
                r = self.it_sel(I, st, ov)
                if r is not None:
                    return [(st, r)]
            if n == "operator*" or n == "operator->":
                r = self.deref(I, st, ov)
                if n == "operator->":
                    return [(st, ("ptr", I.as_loc(st, r)))] if r is not None else None
                return [(st, r)] if r is not None else None
            if n in ("operator++", "operator--"):
                r = self.advance(I, st, ov, C(1 if n == "operator++" else -1))
                if r is None:
                    return None
                st.heap[oloc] = r
                return [(st, ov if args else ("ref", oloc))]
            if n in ("operator+", "operator-") and args:
                a = self.get(I, st, args[0])
                if is_int(a):
                    r = self.advance(I, st, ov, a if n == "operator+" else scale(a, -1))
                    return [(st, r)] if r is not None else None
            if n in ("operator+=", "operator-="):
                a = self.get(I, st, args[0])
                r = self.advance(I, st, ov, a if n == "operator+=" else scale(a, -1))
                if r is None:
                    return None
                st.heap[oloc] = r
                return [(st, ("ref", oloc))]
            if n == "operator[]":
                a = self.get(I, st, args[0])
                r = self.deref(I, st, self.advance(I, st, ov, a))
                return [(st, r)]
            if n == "base":
                return [(st, ov)]
            if n == "operator=" and oloc is not None:
                st.heap[oloc] = self.get(I, st, args[0])
                return [(st, ("ref", oloc))]
            if n in ("operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>="):
                return self.it_cmp(I, st, n[8:], ov, self.get(I, st, args[0]))
        if ov[0] == "urit":
            r = self.urit_method(I, st, n, ov, oloc, args, e)
            if r is not None:
                return r
        if ov[0] == "rit":
            r = self.rit_method(I, st, n, ov, oloc, args, e)
            if r is not None:
                return r
        # -------- optional
        if ov[0] == "opt":
            if n in ("has_value", "operator bool"):
                return [(s, C(int(b))) for s, b in I.branch(st, ov[1])]
            if n in ("operator*", "value", "operator->", "_M_get"):
                x = ov[2] if ov[2] is not None else ("opq", "nullopt")
                if ov[1] == C(0):
                    st.eff = st.eff + (("deref-nullopt", e.get("l")),)
                if n == "operator->":
                    if x[0] == "ref":
                        return [(st, ("ptr", x[1]))]
                    if oloc is not None:
                        l = oloc + ("*",)
                        if l not in st.heap:
                            st.heap[l] = x if x[0] != "o" else I.default(st, l, fi["ret"][1:]) if not I.rec(fi["ret"][1:]) else None
                            if st.heap[l] is None:
                                del st.heap[l]
                        return [(st, ("ptr", l))]
                if oloc is not None and x[0] != "ref":
                    l = oloc + ("*",)
                    if l not in st.heap:
                        if x[0] == "o":
                            rt = fi["ret"].lstrip("&")
                            if not I.rec(rt):
                                st.heap[l] = I.default(st, l, rt)
                        else:
                            st.heap[l] = x
                    return [(st, ("ref", l))]
                return [(st, x)]
            if n == "value_or" and len(args) == 1:
                return [(s, self.payload(I, s, oloc, ov) if b else self.get(I, s, args[0])) for s, b in I.branch(st, ov[1])]
            if n == "emplace" and oloc is not None:
                r = self.make_elem(I, st, fi["ret"].lstrip("&"), args, [self.get(I, st, x) for x in args], e)
                for s, x in r:
                    self.opt_clear(s, oloc)
                    s.heap[oloc] = ("opt", C(1), x)
                return r
            if n == "swap":
                return None
            if n == "reset":
                self.opt_clear(st, oloc)
                st.heap[oloc] = ("opt", C(0), None)
                return [(st, ("void",))]
            if n == "operator=" and oloc is not None:
                a = self.get(I, st, args[0])
                if a[0] == "opt":
                    src = args[0][1] if args[0][0] == "ref" else None
                    g = 0
                    while src is not None and st.heap.get(src, ("",))[0] in ("bindref", "alias") and g < 8:
                        src = st.heap[src][1]
                        g += 1
                    if src != oloc:
                        self.assign(I, st, src, oloc, a, None)
                    return [(st, ("ref", oloc))]
                self.opt_clear(st, oloc)
                if a[0] == "opt":
                    st.heap[oloc] = a
                elif fi.get("pt") and "nullopt_t" in fi["pt"][0]:
                    st.heap[oloc] = ("opt", C(0), None)
                else:
                    out = []
                    for s, x in self.into(I, st, fi.get("cls"), args[0], a, (e.get("a") or [{}])[-1].get("t")):
                        s.heap[oloc] = ("opt", C(1), x)
                        out.append((s, ("ref", oloc)))
                    return out
                return [(st, ("ref", oloc))]
        # -------- variants
        if ov[0] == "var":
            if n == "operator=" and oloc is not None and args:
                a = self.mkvar(I, st, fi.get("cls"), args[0], (e.get("a") or [{}])[-1].get("t") or "")
                if a is None:
                    return None
                st.heap[oloc] = a
                return [(st, ("ref", oloc))]
            return self.var_op(I, st, n, fi, ov, oloc, args, e)
        # -------- tuples
        if ov[0] == "tie" and n == "operator=":
            a = self.get(I, st, args[0])
            if a[0] == "tup":
                for r, x in zip(ov[1], a[1]):
                    if r[0] == "ref":
                        st.heap[r[1]] = x
                return [(st, o)]
        if n == "operator=" and "normal_iterator<" in fi.get("cls", "") and oloc is not None and ov[0] == "ref" and args and self.get(I, st, args[0])[0] == "it":
            st.heap[oloc] = self.get(I, st, args[0])
            return [(st, ("ref", oloc))]
        if ov[0] == "tup" and n == "operator=" and oloc is not None:
            st.heap[oloc] = self.get(I, st, args[0])
            for k in (oloc + ("first",), oloc + ("second",)):
                st.heap.pop(k, None)
            return [(st, ("ref", oloc))]
        # -------- strings and sequence containers
        if ov[0] == "str":
            return self.str_method(I, st, fi, n, o, oloc, self.norm(st, ov), args, e)
        return None

    def opt_clear(self, st, oloc):
        l = oloc + ("*",)
        for k in [k for k in st.heap if k[:len(l)] == l]:
            del st.heap[k]

    def append(self, I, st, loc, item):
        v = st.heap.get(loc)
        while v is not None and v[0] in ("bindref", "alias"):
            loc = v[1]
            v = st.heap.get(loc)
        if v is None:
            v = ("str", (("seq", loc, "u32"),))
        if v[0] != "str":
            raise Unsupported("append to %r" % (v[0],))
        items = (item,) if item[0] in ("chr", "seq", "each") else item
        st.heap[loc] = ("str", v[1] + tuple(items))

    def str_method(self, I, st, fi, n, o, loc, v, args, e):
        a = [self.get(I, st, x) for x in args]
        items = v[1]
        if I.lhs is not None and e is I.lhs and loc is not None:
            k = None
            if n in ("operator[]", "at") and a and a[0][0] == "c":
                k = a[0][1]
            elif n == "front":
                k = 0
            elif n == "back":
                k = len(items) - 1
            if k is not None and 0 <= k < len(items) and all(i[0] == "chr" for i in items) and items[k][1][0] != "ref":
                return [(st, ("sel", loc, k))]
        if n in ("operator[]", "at") and a and a[0][0] == "c" and conc(items) and not 0 <= a[0][1] < len(items):
            if a[0][1] == len(items) and n == "operator[]" and "basic_string<" in cls_of(fi.get("cls")) and not (I.lhs is not None and e is I.lhs):
                return [(st, C(0))]
            if n == "operator[]":
                st.eff = st.eff + (("past-end", loc),)
            st.meta["dead"] = ("abort" if n == "operator[]" else "throw", e.get("l"))
            return [(st, ("opq", "past-end"))]
        if n in ("push_back", "emplace_back"):
            et = elem_type(fi.get("cls"))
            out = []
            for s, x in self.make_elem(I, st, et, args, a, e):
                self.append(I, s, loc, ("chr", x))
                out.append((s, x if n == "emplace_back" else ("void",)))
            return out
        if n in ("append", "operator+="):
            if len(a) >= 1 and is_int(a[0]) and n == "operator+=":
                self.append(I, st, loc, ("chr", a[0]))
            elif len(a) >= 1 and (a[0][0] == "str" or args[0][0] == "ref" and a[0][0] == "ref") and (len(a) == 1):
                s = self.sval(I, st, args[0])
                st.heap[loc] = ("str", items + s[1])
            elif len(a) == 2 and a[0][0] == "it" and a[1][0] in ("it", "itend"):
                its = self.items(st, a[0][1])
                k2 = len(its) if a[1][0] == "itend" else a[1][2]
                st.heap[loc] = ("str", items + its[a[0][2]:k2])
            elif len(a) == 2 and is_int(a[0]) and a[0][0] == "c" and a[0][1] < 64:
                st.heap[loc] = ("str", items + (("chr", a[1]),) * a[0][1])
            else:
                st.heap[loc] = ("str", items + (("seq", ("app", tuple(a)), "u32"),))
            return [(st, ("ref", loc))]
        if n in ("operator=", "assign") and len(a) == 1:
            if is_int(a[0]):
                st.heap[loc] = ("str", (("chr", a[0]),))
            else:
                s = self.sval(I, st, args[0], fi.get("cls"))
                if s is None:
                    s = ("str", (("seq", ("asg", a[0]), "u32"),))
                self.assign(I, st, None, loc, s, fi.get("cls"))
            return [(st, ("ref", loc))]
        if n == "assign" and len(a) == 2 and not is_int(a[0]) and tinfo(elem_type(fi.get("cls"))) and len(fi.get("pt") or ()) == 2 and I.rec(fi["pt"][0].lstrip("&").replace("C:", "R:", 1)) is not None:
            ts = [x.lstrip("&").replace("C:", "R:", 1) for x in fi["pt"]]
            r = self.urange(I, st, args[0][1], args[1][1], ts[0], e) if args[0][0] == args[1][0] == "ref" else None
            if r is not None:
                st, xs = r
                st.heap[loc] = ("str", tuple(("chr", I.rv(st, x, elem_type(fi.get("cls")))) for x in xs))
                return [(st, ("void",))]
        if n == "assign" and len(a) == 2:
            w = self.ctor(I, st, fi, fi.get("cls"), args, {"t": fi.get("cls")})
            if w and w[0][1][0] == "str":
                st.heap[loc] = w[0][1]
                return [(st, ("ref", loc))]
        if n == "clear":
            st.heap[loc] = ("str", ())
            return [(st, ("void",))]
        if n == "empty":
            return [(s, c) for s, c in I.compare(st, "==", self.length(v), C(0))]
        if n in ("size", "length"):
            return [(st, self.length(v))]
        if n in ("begin", "cbegin"):
            if loc is None:
                loc = I.newtmp()
                st.heap[loc] = v
            return [(st, ("it", loc, 0, 0))]
        if n in ("end", "cend"):
            if loc is None:
                loc = I.newtmp()
                st.heap[loc] = v
            return [(st, ("itend", loc))]
        if n in ("data", "c_str"):
            return [(st, v)]
        if n in ("front", "back"):
            if not items:
                st.eff = st.eff + (("front-of-empty", e.get("l")),)
                return [(st, ("opq", "empty"))]
            x = items[0 if n == "front" else -1]
            if x[0] == "chr":
                if loc is not None:
                    return [(st, ("sel", loc, 0 if n == "front" else len(items) - 1))] if False else [(st, x[1])]
                return [(st, x[1])]
            et = tinfo(x[2]) if len(x) > 2 else (0, 0xFFFFFFFF)
            if et:
                return [(st, sym((n, x[1]), *et))]
            return [(st, ("ref", ("o", (n, x[1]), "*")))]
        if n in ("pop_back", "pop_front"):
            if items and items[-1 if n == "pop_back" else 0][0] == "chr":
                st.heap[loc] = ("str", items[:-1] if n == "pop_back" else items[1:])
            else:
                st.heap[loc] = ("str", (("seq", (n, v), "u32"),))
            return [(st, ("void",))]
        if n == "push_front":
            out = []
            for s, x in self.make_elem(I, st, elem_type(fi.get("cls")), args, a, e):
                s.heap[loc] = ("str", (("chr", x),) + items)
                out.append((s, ("void",)))
            return out
        if n in ("operator[]", "at") and is_int(a[0]):
            r = self.index(I, st, v, a[0], None)
            if r is not None:
                return [(st, r)]
            et = fi["ret"].lstrip("&")
            ti = tinfo(et)
            if ti:
                return [(st, sym(("idx", v, a[0]), *ti))]
            return [(st, ("ref", ("o", ("idx", v, a[0]), "*")))]
        if n == "operator basic_string_view":
            return [(st, v)]
        if n in ("operator==", "operator!=") and len(a) == 1:
            s = self.sval(I, st, args[0])
            if s is not None:
                return [(s2, C(int(b == (n == "operator==")))) for s2, b in self.streq(I, st, v, s)]
        return self.seq_method(I, st, fi, n, o, loc, v, args, a, e)
