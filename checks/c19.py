"""C19: the HTML fragment serialization algorithm."""
import itertools
from urlrun import *
from c12 import BADEFF
from c13 import drv
from c15 import Bad, Unknown

LEVEL = "other"
RULE = ("to_string and serializes_as_void are interpreted over a model DOM (every ordered forest of up to four nodes below the node, element, text, comment, processing instruction and document type leaves, elements with up to two "
        "attributes); tag, namespace and attribute names range over all enumerators, every character of every string over all code points; on every path the text produced is compared with a transcription of the HTML standard's "
        "fragment serialization algorithm.")
ASSUME = ["the node traits answer what the DOM contains; namespace and local name are asked of elements only", "template contents and scripting are not modelled by the library"]
OUT = ("OUT",)
VOID = "Area Base Br Col Embed Hr Img Input Link Meta Param Source Track Wbr".split()
VOIDS = VOID + "Basefont Bgsound Frame Keygen".split()
RAW = "Style Script Xmp Iframe Noembed Noframes Plaintext".split()
CP = ((0, 0xD7FF), (0xE000, 0x10FFFF))
E, T, CM, PI, DT, DOC = "element", "text", "comment", "processing_instruction", "document_type", "document"
IS = {"is_element": E, "is_text": T, "is_comment": CM, "is_processing_instruction": PI, "is_document_type": DT, "is_document": DOC}


class Dom:
    """nodes: id -> (kind, parent, children, attributes); ids are pre-order, 0 the root"""

    def __init__(self, root, forest, nattr=0, chars=1, fix=None, enums=None):
        self.kind, self.par, self.kids = {0: root}, {0: None}, {0: []}
        self.nattr, self.chars, self.fix, self.en = nattr, chars, fix or {}, enums

        def add(f, p):
            for k, c in f:
                i = len(self.kind)
                self.kind[i], self.par[i], self.kids[i] = k, p, []
                self.kids[p].append(i)
                add(c, i)
        add(forest, 0)

    def s(self, what, n=1):
        """a string of symbolic code points"""
        return tuple(("chr", self.cp("%s.%d" % (what, i))) for i in range(n))

    def cp(self, name):
        return sym("cp " + name, 0, 0x10FFFF)

    def ns(self, i):
        return self.fix.get(("ns", i)) or sym("ns of node %d" % i, 0, max(self.en["ns_name"].values()))

    def tag(self, i):
        return self.fix.get(("tag", i)) or sym("tag of node %d" % i, 0, max(self.en["tag_name"].values()))

    def ans(self, a):
        return sym("namespace of attribute %d" % a, 0, max(self.en["ns_name"].values()))

    def aname(self, a):
        return sym("name of attribute %d" % a, 0, max(self.en["attribute_name"].values()))

    def data(self, i):
        return self.s("data of node %d" % i, self.chars)

    def name(self, i, q=False):
        return self.s(("qualified " if q else "") + "name of node %d" % i)

    def attrname(self, a, q=False):
        return self.s(("qualified " if q else "") + "name of attribute %d" % a)

    def attrval(self, a):
        return self.s("value of attribute %d" % a, 2)

    def show(self):
        def go(i):
            return self.kind[i] + ("(" + ", ".join(map(go, self.kids[i])) + ")" if self.kids[i] else "")
        return go(0)

    # ---- model of the traits
    def hook(self, I, st, f, fi, o, args, e):
        q, n = fi["q"], fi["n"]

        def num(v):
            if v[0] == "ptr":
                v = ("ref", v[1])
            l = v[1]
            k = 0
            while l in st.heap and st.heap[l][0] in ("bindref", "alias", "ref") and k < 8:
                l = st.heap[l][1]
                k += 1
            x = st.heap.get(l + ("n",))
            if x is None or x[0] != "c":
                raise Unsupported("node of the model DOM")
            return l, x[1]

        def new(i):
            l = I.newtmp()
            st.heap[l + ("n",)] = C(i)
            return [(st, ("ref", l))]

        def string(items):
            l = I.newtmp()
            st.heap[l] = ("str", items)
            return [(st, ("ref", l))]

        def bad(what):
            st.eff = st.eff + (("domerr", what),)
            return [(st, ("opq", "dom"))]
        cls = (fi.get("cls") or "")
        if cls.endswith("::nd") or cls == "R:nd" or cls.endswith("::ai") or cls == "R:ai":
            isn = cls.endswith("nd")
            if n in ("operator==", "operator!="):
                a, b = num(o)[1], num(args[0])[1]
                return [(st, C(int((a == b) == (n == "operator=="))))]
            if n in ("operator++", "operator--"):
                l, i = num(o)
                j = (self.step(i, 1 if n == "operator++" else -1)) if isn else i + (1 if n == "operator++" else -1)
                if j is None:
                    return bad("iterates beyond the children")
                st.heap[l + ("n",)] = C(j)
                return new(i) if args else [(st, ("ref", l))]
            if n == "operator*" and not isn:
                l, i = num(o)
                if i % 100 >= self.nattr:
                    return bad("dereferences the end of the attributes")
                return new(i)
            return None
        if "node_traits<nd>" not in q:
            return None
        if n == "pointer":
            return new(-1)
        at = fi["pt"][0].endswith(":at")
        l, i = num(args[0])
        if at:
            if n == "get_namespace_name":
                return [(st, self.ans(i))]
            if n == "get_local_name_name":
                return [(st, self.aname(i))]
            if n == "get_local_name":
                return string(self.attrname(i))
            if n == "get_qualified_name":
                return string(self.attrname(i, True))
            if n == "value":
                return string(self.attrval(i))
            return None
        if i not in self.kind and n != "parent":
            return bad("asks a position that is no node for its " + n)
        if n in IS:
            return [(st, C(int(self.kind[i] == IS[n])))]
        if n == "parent":
            if i < -1:
                return new(-2 - i)
            p = self.par.get(i)
            return new(-1 if p is None else p)
        if n == "begin":
            return new(self.kids[i][0] if self.kids[i] else -2 - i)
        if n == "end":
            return new(-2 - i)
        if n in ("prev", "next"):
            j = self.step(i, 1 if n == "next" else -1)
            return bad("iterates beyond the children") if j is None else new(j)
        if n in ("data", "target", "name"):
            ok = {"data": (T, CM, PI), "target": (PI,), "name": (DT,)}[n]
            if self.kind[i] not in ok:
                return bad("asks a %s node for its %s" % (self.kind[i], n))
            return string(self.data(i) if n == "data" else self.s("%s of node %d" % (n, i)))
        if n in ("abegin", "aend", "get_namespace_name", "get_local_name_name", "get_local_name", "get_qualified_name", "is_html_element_of"):
            if self.kind[i] != E:
                return bad("asks a %s node for its %s" % (self.kind[i], n))
            if n == "abegin":
                return new(100 * i)
            if n == "aend":
                return new(100 * i + self.nattr)
            if n == "get_namespace_name":
                return [(st, self.ns(i))]
            if n == "get_local_name_name":
                return [(st, self.tag(i))]
            if n == "is_html_element_of":
                r = []
                for a, b in ((self.ns(i), C(self.en["ns_name"]["HTML"])),):
                    for s2, v in I.compare(st, "==", a, b):
                        if v == C(0):
                            r.append((s2, C(0)))
                        else:
                            r += I.compare(s2, "==", self.tag(i), args[1])
                return r
            return string(self.name(i, n == "get_qualified_name"))
        return None

    def step(self, i, d):
        if i < -1:
            if d > 0:
                return None
            k = self.kids[-2 - i]
            return k[-1] if k else None
        p = self.par.get(i)
        if p is None:
            return None
        k = self.kids[p]
        j = k.index(i) + d
        return k[j] if 0 <= j < len(k) else -2 - p if j == len(k) else None

    # ---- the standard
    def html(self, o, i, tags):
        H = self.en["ns_name"]["HTML"]
        return self.kind[i] == E and o.isin(self.ns(i), (H, H)) and o.isin(self.tag(i), *[(self.en["tag_name"][t],) * 2 for t in tags])

    def void(self, o, i):
        return self.html(o, i, VOIDS)

    def esc(self, o, items, attr):
        out = []
        for it in items:
            t = it[1]
            tab = [(38, "&amp;"), (0xA0, "&nbsp;")] + ([(34, "&quot;")] if attr else [(60, "&lt;"), (62, "&gt;")])
            for c, r in tab:
                if o.isin(t, (c, c)):
                    out += S(r)
                    break
            else:
                out.append(it)
        return out

    def spec(self, o):
        if self.void(o, 0):
            return ()
        out = []

        def tagname(i):
            N = self.en["ns_name"]
            return self.name(i, not o.isin(self.ns(i), *[(N[x], N[x]) for x in ("HTML", "MathML", "SVG")]))

        def attrname(a):
            N = self.en["ns_name"]
            ns = self.ans(a)
            is_ = lambda x: o.isin(ns, (N[x], N[x]))
            if o.isin(ns, (0, 0)):
                return self.attrname(a)
            if is_("XML"):
                return S("xml:") + self.attrname(a)
            if is_("XMLNS"):
                x = self.en["attribute_name"]["Xmlns"]
                return S("xmlns") if o.isin(self.aname(a), (x, x)) else S("xmlns:") + self.attrname(a)
            if is_("XLink"):
                return S("xlink:") + self.attrname(a)
            return self.attrname(a, True)

        def go(i):
            for c in self.kids[i]:
                k = self.kind[c]
                if k == E:
                    out.extend(S("<") + tagname(c))
                    for a in range(100 * c, 100 * c + self.nattr):
                        out.extend(S(" ") + attrname(a) + S('="') + tuple(self.esc(o, self.attrval(a), True)) + S('"'))
                    out.extend(S(">"))
                    if self.void(o, c):
                        continue
                    go(c)
                    out.extend(S("</") + tagname(c) + S(">"))
                elif k == T:
                    out.extend(self.data(c) if self.html(o, i, RAW) else self.esc(o, self.data(c), False))
                elif k == CM:
                    out.extend(S("<!--") + self.data(c) + S("-->"))
                elif k == PI:
                    out.extend(S("<?") + self.s("target of node %d" % c) + S(" ") + self.data(c) + S(">"))
                elif k == DT:
                    out.extend(S("<!DOCTYPE ") + self.s("name of node %d" % c) + S(">"))
        go(0)
        return tuple(out)


def forests(n):
    """ordered forests of n nodes as nested lists"""
    if n == 0:
        return [[]]
    out = []
    for k in range(n):
        for a in forests(k):
            for b in forests(n - 1 - k):
                out.append([a] + b)
    return out


def kinds(f, leaf):
    """all kind assignments of a forest: inner nodes are elements"""
    if not f:
        return [[]]
    out = []
    for c in kinds(f[0], leaf):
        for k in ([E] if f[0] else leaf):
            for r in kinds(f[1:], leaf):
                out.append([(k, c)] + r)
    return out


def check(rep):
    p = export("serial.cpp")
    en = {}
    for k in ("ns_name", "tag_name", "attribute_name"):
        en[k] = enum_values(p, "wordring::whatwg::html::parsing::" + k)
    doms = []
    div, htm = C(en["tag_name"]["Div"]), C(en["ns_name"]["HTML"])
    plain = {(w, i): (htm if w == "ns" else div) for w in ("ns", "tag") for i in range(1, 8)}
    leaf = [E, T, CM, PI, DT]
    for root in (DOC, "document_fragment", E):
        for f in kinds([[]], leaf):
            doms.append(Dom(root, f, chars=2, enums=en))
        for f in forests(2):
            for g in kinds(f, leaf):
                doms.append(Dom(root, g, enums=en))
    doms.append(Dom(DOC, [], enums=en))
    doms.append(Dom(E, [], enums=en))
    for f in forests(3):
        for g in kinds(f, [E, T]):
            doms.append(Dom(DOC, g, enums=en, fix={("ns", i): htm for i in range(1, 8)}))
        for g in kinds(f, [E, CM, PI, DT]):
            doms.append(Dom(DOC, g, enums=en, fix=plain))
    for f in forests(4):
        for g in kinds(f, [E, T]):
            doms.append(Dom(DOC, g, enums=en, fix=plain))
    for n in (1, 2):
        doms.append(Dom(DOC, [(E, [])], nattr=n, enums=en, fix=plain))
    doms.append(Dom(DOC, [(E, [(E, [])])], nattr=1, enums=en, fix=plain))
    ck = Ck(rep, p)
    for d in doms:
        rep.count("model DOMs")
        rep.guard("to_string", ck.run, d)
    for fn, tags in (("vp_void", VOIDS), ("vp_is_void", VOID)):
        for k in (E, T, CM, PI, DT, DOC, "document_fragment"):
            rep.guard("void", ck.void, Dom(k, [], enums=en), fn, tags)
    rep.need("model DOMs", 300)


class Ck:
    def __init__(self, rep, p):
        self.rep, self.p = rep, p

    def where(self, fn):
        fs = [i for i in self.p.byname.get(fn, []) if i in self.p.funcs and self.p.finfo[i]["q"].startswith("wordring::whatwg::html::")]
        return self.p.where(fs[0]) if fs else "include/wordring/whatwg/html/parsing/serializing.hpp (%s)" % fn

    def start(self, d):
        I = Interp(self.p, SLib())
        I.hooks += [d.hook]
        st = St()
        l = ("NODE",)
        st.heap[l + ("n",)] = C(0)
        st.heap[OUT] = ("str", ())
        return I, st, ("ref", l)

    def void(self, d, fn, tags):
        rep = self.rep
        I, st, n = self.start(d)
        name = "serializes_as_void" if fn == "vp_void" else "is_void_element"
        rep.count("functions")
        for pa in I.run(drv(self.p, fn), st, None, [n]):
            rep.count("paths")
            for s2, w in outcomes(pa.st, lambda o: d.html(o, 0, tags)):
                r = teq(s2, pa.val, C(int(w))) if pa.kind == "ret" else False
                err = [e for e in pa.st.eff if e[0] == "domerr"]
                if r is None:
                    rep.undecided(name, "result")
                elif not r or err:
                    rep.fail(name, "%s: for a %s node with %s: %s" % (self.where(name), d.kind[0], model(s2, [d.ns(0), d.tag(0)]), err[0][1] if err else "answers %s" % (not w)))
                else:
                    rep.ok()

    def run(self, d):
        rep = self.rep
        I, st, n = self.start(d)
        try:
            paths = I.run(drv(self.p, "vp_to_string"), st, None, [n, ("ref", OUT)])
        except LoopLimit as e:
            if not getattr(e, "det", False):
                raise
            rep.fail("to_string", "%s: on %s: does not terminate" % (self.where("to_string"), d.show()))
            return
        for pa in paths:
            rep.count("paths")
            opq = [e for e in pa.st.eff if e[0] == "opaque"]
            for s2, want in outcomes(pa.st, d.spec):
                bad = None
                err = [e for e in pa.st.eff if e[0] == "domerr" or e[0] in BADEFF]
                if err:
                    bad = err[0][1] if err[0][0] == "domerr" else "reads outside a string"
                elif pa.kind != "ret":
                    bad = "aborts"
                else:
                    v = I.lib.get(I, s2, ("ref", OUT))
                    if v is None or v[0] != "str":
                        rep.undecided("to_string", "output " + str(v)[:80])
                        continue
                    r = items_eq(s2, v[1], want)
                    if r is None:
                        rep.undecided("to_string", "output '%s'" % show_items(v[1]))
                        continue
                    if not r:
                        bad = "writes '%s', the standard '%s'" % (show_items(v[1]), show_items(want))
                if bad is None:
                    rep.ok("%s -> '%s'" % (d.show(), show_items(want)) if len(d.kind) == 3 else None)
                elif opq:
                    rep.undecided("to_string", bad + " after unmodelled " + str(opq[0])[:100])
                else:
                    ts = [t(i) for i in d.kind if d.kind[i] == E for t in (d.ns, d.tag) if t(i)[0] == "s"]
                    rep.fail("to_string " + d.show(), "%s: on %s (%s): %s" % (self.where("to_string"), d.show(), model(s2, ts), bad))
