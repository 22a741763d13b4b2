"""Model of the DOM and of the parser state for the HTML tree construction stage; used by C20 and C21."""
import itertools
from urlrun import *
from c12 import BADEFF
from c13 import drv
from c15 import Bad, Unknown
from oracle import atoms

PFX = "wordring::whatwg::html::parsing::"
A = ("A",)
TOK = ("TOK",)
DOM = ("DOM",)
K = 0x100000          # name of the element with tag id t is the one-character string K + t; unknown names lie above U
U = 0x200000
CONST = {"tag_name": {}, "ns_name": {}, "mode": {}, "enc": {}}


def consts(p):
    CONST["tag_name"] = enum_values(p, PFX + "tag_name")
    CONST["ns_name"] = enum_values(p, PFX + "ns_name")
    m = [k for k in p.enums if k.endswith("::mode_name") and "tree_construction" in k]
    CONST["mode"] = {k.replace("_insertion_mode", ""): v for k, v in enum_values(p, m[0]).items()}
    CONST["dmode"] = enum_values(p, "wordring::whatwg::html::document_mode_name")
    CONST["enc"] = enum_values(p, "wordring::whatwg::encoding::encoding_name")
    CONST["conf"] = enum_values(p, "wordring::whatwg::html::parsing::encoding_confidence_name")


def tg(n):
    return CONST["tag_name"][n]


def nsn(n):
    return CONST["ns_name"][n]


def md(n):
    return CONST["mode"][n]


class Node(tuple):
    """(kind, ns, tag, name or data, attributes, parent, children); terms for ns and tag"""
    __slots__ = ()
    kind = property(lambda s: s[0])
    ns = property(lambda s: s[1])
    tag = property(lambda s: s[2])
    data = property(lambda s: s[3])
    attrs = property(lambda s: s[4])
    par = property(lambda s: s[5])
    kids = property(lambda s: s[6])

    def w(self, **k):
        n = ("kind", "ns", "tag", "data", "attrs", "par", "kids")
        return Node(k.get(x, v) for x, v in zip(n, self))


def element(ns, tag, name=None, attrs=(), par=None):
    return Node(("element", ns, tag, (("chr", add(tag, C(K))),) if name is None else name, tuple(attrs), par, ()))


DOCNODE = Node(("document", C(0), C(0), (), (), None, ()))


# ------------------------------------------------------------------------------------------ operations on a DOM (a tuple of nodes)
def put(dom, i, **k):
    return dom[:i] + (dom[i].w(**k),) + dom[i + 1:]


def step(dom, i, d):
    if i < -1:
        k = dom[-2 - i].kids
        return None if d > 0 or not k else k[-1]
    if not 0 <= i < len(dom) or dom[i].par is None:
        return None
    p = dom[i].par
    k = dom[p].kids
    j = k.index(i) + d
    return k[j] if 0 <= j < len(k) else -2 - p if j == len(k) else None


def parent_of(dom, i):
    if i < -1:
        return -2 - i
    p = dom[i].par if 0 <= i < len(dom) else None
    return -1 if p is None else p


def detach(dom, i):
    p = dom[i].par
    if p is None:
        return dom
    dom = put(dom, p, kids=tuple(x for x in dom[p].kids if x != i))
    return put(dom, i, par=None)


def attach(dom, pos, i):
    """inserts node i before position pos"""
    if i == pos:
        return dom
    dom = detach(dom, i)
    p = parent_of(dom, pos)
    if p < 0:
        return None
    k = dom[p].kids
    j = len(k) if pos < -1 else k.index(pos)
    dom = put(dom, p, kids=k[:j] + (i,) + k[j:])
    return put(dom, i, par=p)


def tree(dom, i):
    return (i, tuple(tree(dom, c) for c in dom[i].kids))


class Model:
    """answers the functions that harness/tc.cpp only declares"""

    def hook(self, I, st, f, fi, o, args, e):
        q, n = fi["q"], fi["n"]
        cls = fi.get("cls") or ""
        isnd = cls == "R:nd"
        istr = q.startswith("tr::")
        isp = q.startswith("P::")
        if not (isnd or istr or isp):
            return None
        if f in I.p.funcs and I.p.funcs[f].get("body") is not None:
            return None

        def loc(v):
            l = v[1]
            k = 0
            while l in st.heap and st.heap[l][0] in ("bindref", "alias", "ref") and k < 8:
                l = st.heap[l][1]
                k += 1
            return l

        def num(v):
            x = st.heap.get(loc(v) + ("n",))
            if x is None or x[0] != "c":
                raise Unsupported("node of the model DOM")
            return x[1]

        def new(i):
            l = I.newtmp()
            st.heap[l + ("n",)] = C(i)
            return [(st, ("ref", l))]

        def string(items):
            l = I.newtmp()
            st.heap[l] = ("str", items)
            return [(st, ("ref", l))]

        def bad(what):
            st.eff = st.eff + (("domerr", what),)
            st.meta["dead"] = ("abort", e.get("l"))
            return [(st, ("opq", "dom"))]

        def strv(v, fld=None):
            x = I.lib.get(I, st, v if fld is None else ("ref", loc(v) + (fld,)))
            if x is None or x[0] != "str":
                raise Unsupported("string of the model DOM")
            return x[1]
        dom = st.heap[DOM][1]

        def setdom(d):
            if d is None:
                return False
            st.heap[DOM] = ("dom", d)
            return True

        def eff(*x):
            st.eff = st.eff + (x,)
            return [(st, ("void",))]

        def el(i):
            return 0 <= i < len(dom) and dom[i].kind == "element"

        if isnd and n in ("operator==", "operator!="):
            return [(st, C(int((num(o) == num(args[0])) == (n == "operator=="))))]
        if isnd and n in ("operator++", "operator--"):
            i = num(o)
            j = step(dom, i, 1 if n == "operator++" else -1)
            if j is None:
                return bad("iterates beyond the children")
            st.heap[loc(o) + ("n",)] = C(j)
            return new(i) if args else [(st, ("ref", loc(o)))]
        if istr and n == "pointer":
            return new(-1)
        if n in ("begin", "end", "parent", "prev", "next") and (isnd or istr):
            i = num(o if isnd else args[0])
            if i == -1 or n in ("begin", "end") and not 0 <= i < len(dom):
                return bad("asks a position that is no node for its " + n)
            if n == "begin":
                return new(dom[i].kids[0] if dom[i].kids else -2 - i)
            if n == "end":
                return new(-2 - i)
            if n == "parent":
                return new(parent_of(dom, i))
            j = step(dom, i, 1 if n == "next" else -1)
            return bad("iterates beyond the children") if j is None else new(j)
        if istr:
            if n in ("create_text", "create_comment", "create_document_type"):
                l = I.newtmp()
                if n == "create_text":
                    st.heap[l + ("c",)] = I.lib.get(I, st, args[0])
                    st.heap[l + ("s",)] = ("str", ())
                elif n == "create_comment":
                    st.heap[l + ("s",)] = ("str", strv(args[0]))
                else:
                    for x, v in zip("nps", args):
                        st.heap[l + (x,)] = ("str", strv(v))
                return [(st, ("ref", l))]
            if n == "set_document":
                return [(st, ("void",))]
            if n == "set_document_ready_state":
                return [(st, ("void",))]
            i = num(args[0])
            if n == "is_element":
                return [(st, C(int(el(i))))]
            if n == "is_text":
                if not 0 <= i < len(dom):
                    return bad("asks a position that is no node whether it is text")
                return [(st, C(int(dom[i].kind == "text")))]
            if n in ("get_document_mode", "is_iframe_srcdoc_document", "set_document_mode"):
                if i != 0:
                    return bad("asks a node that is not the document for its mode")
                if n == "get_document_mode":
                    return [(st, st.heap[("DMODE",)])]
                if n == "set_document_mode":
                    st.heap[("DMODE",)] = I.lib.get(I, st, args[1])
                    return [(st, ("void",))]
                return [(st, sym("srcdoc", 0, 1))]
            if n == "append_text":
                if not 0 <= i < len(dom) or dom[i].kind != "text":
                    return bad("appends text to a node that is no text")
                setdom(put(dom, i, data=dom[i].data + (("chr", I.lib.get(I, st, args[1])),)))
                return [(st, ("void",))]
            if n in ("set_non_blocking_flag", "set_already_started_flag"):
                return eff("flag", n, i, I.lib.get(I, st, args[1]))
            if not el(i):
                return bad("asks a node that is no element for its " + n)
            x = dom[i]
            if n == "get_namespace_name":
                return [(st, x.ns)]
            if n == "get_local_name_name":
                return [(st, x.tag)]
            if n in ("get_local_name", "get_qualified_name"):
                return string(x.data)
            if n == "is_html_element_of":
                r = []
                for s2, v in I.compare(st, "==", x.ns, C(nsn("HTML"))):
                    if v == C(0):
                        r.append((s2, C(0)))
                    else:
                        r += I.compare(s2, "==", x.tag, I.lib.get(I, s2, args[1]))
                return r
            if n == "equals":
                j = num(args[1])
                if not el(j):
                    return bad("compares with a node that is no element")
                y = dom[j]
                r = [(st, C(1))]
                for a, b in [(x.ns, y.ns)] + [(s[1], t[1]) for s, t in zip(x.data, y.data)]:
                    r2 = []
                    for s2, v in r:
                        r2 += I.compare(s2, "==", a, b) if v == C(1) else [(s2, v)]
                    r = r2
                if x.attrs != y.attrs:
                    t = lambda z: z.attrs[0][3][0][1] if len(z.attrs) == 1 else None
                    if t(x) is not None and t(y) is not None:
                        r2 = []
                        for s2, v in r:
                            r2 += I.compare(s2, "==", t(x), t(y)) if v == C(1) else [(s2, v)]
                        r = r2
                    else:
                        r = [(s2, C(0)) for s2, v in r]
                return r
            return None
        if isp:
            if n == "get_document":
                return new(0)
            if n == "get_node_document":
                return new(0) if num(args[0]) != -1 else bad("asks no node for its document")
            if n == "on_report_error":
                return eff("error", I.lib.get(I, st, args[0]))
            if n == "on_change_encoding":
                return eff("encoding", I.lib.get(I, st, args[0]))
            if n == "create_element":
                ns = I.lib.get(I, st, args[2])
                if fi["pt"][1].startswith("R:") or "basic_string" in fi["pt"][1]:
                    name = strv(args[1])
                    tag = C(0)
                    if len(name) == 1:
                        r = st.rng(name[0][1])
                        if r.max() < U:
                            tag = sub(name[0][1], C(K))
                        elif r.min() < U:
                            raise Unsupported("name of the model DOM")
                    else:
                        raise Unsupported("constant name")
                    x = element(ns, tag, name)
                else:
                    x = element(ns, I.lib.get(I, st, args[1]))
                setdom(dom + (x,))
                return new(len(dom))
            if n == "append_attribute":
                i = num(args[0])
                if not el(i):
                    return bad("adds an attribute to a node that is no element")
                a = (I.lib.get(I, st, args[1]), strv(args[2]), strv(args[3]), strv(args[4]))
                setdom(put(dom, i, attrs=dom[i].attrs + (a,)))
                return [(st, ("void",))]
            if n == "contains":
                i = num(args[0])
                if not el(i):
                    return bad("asks a node that is no element for an attribute")
                ns, pf, nm = I.lib.get(I, st, args[1]), strv(args[2]), strv(args[3])
                r = [(st, C(0))]
                for a in dom[i].attrs:
                    if len(a[2]) != len(nm) or len(a[1]) != len(pf):
                        continue
                    for x, y in [(a[0], ns)] + [(s[1], t[1]) for s, t in zip(a[1] + a[2], pf + nm)]:
                        if x != y and (x[0] != "c" or y[0] != "c"):
                            raise Unsupported("attribute of the model DOM")
                        if x != y:
                            break
                    else:
                        return [(st, C(1))]
                return r
            if n in ("insert_element", "move_node"):
                pos, i = num(args[0]), num(args[1])
                if not 0 <= i < len(dom) or pos == -1 or pos >= len(dom) or not setdom(attach(dom, pos, i)):
                    return bad("inserts at a position that does not exist")
                return new(i) if n == "insert_element" else [(st, ("void",))]
            if n == "erase_element":
                i = num(args[0])
                if not el(i):
                    return bad("erases a node that is no element")
                setdom(detach(dom, i))
                return [(st, ("void",))]
            if n in ("insert_text", "insert_comment", "insert_document_type"):
                pos = num(args[0])
                if n == "insert_text":
                    x = Node(("text", C(0), C(0), (("chr", st.heap[loc(args[1]) + ("c",)]),), (), None, ()))
                elif n == "insert_comment":
                    x = Node(("comment", C(0), C(0), strv(args[1], "s"), (), None, ()))
                else:
                    x = Node(("doctype", C(0), C(0), (strv(args[1], "n"), strv(args[1], "p"), strv(args[1], "s")), (), None, ()))
                if pos == -1 or pos >= len(dom) or not setdom(attach(dom + (x,), pos, len(dom))):
                    return bad("inserts at a position that does not exist")
                return new(len(dom))
        return None


# ------------------------------------------------------------------------------------------ a token
class Tok:
    """kind: start, end, char, comment, doctype, eof"""

    def __init__(self, kind, tag=None, name=None, attrs=(), selfclosing=0, data=None, **k):
        self.kind, self.tag, self.attrs, self.sc, self.data, self.k = kind, tag, tuple(attrs), selfclosing, data, k
        self.name = name if name is not None else (("chr", add(tag, C(K))),) if tag is not None else ()
        self.ack = False

    def put(self, st, l):
        if self.kind in ("start", "end"):
            st.heap[l + ("m_tag_name_id",)] = self.tag
            st.heap[l + ("m_tag_name",)] = ("str", self.name)
            st.heap[l + ("m_self_closing_flag",)] = C(self.sc)
            st.heap[l + ("m_acknowledged_self_closing_flag",)] = C(0)
            its = []
            for i, a in enumerate(self.attrs):
                x = l + (("attr", i),)
                for fld, v in zip(("m_namespace", "m_prefix", "m_name", "m_value", "m_omitted"), a):
                    st.heap[x + (fld,)] = ("str", v) if fld in ("m_prefix", "m_name", "m_value") else v
                its.append(("chr", ("ref", x)))
            st.heap[l + ("m_attributes", "m_c")] = ("str", tuple(its))
            st.heap[l + ("m_attributes", "m_last")] = C(len(its))
        elif self.kind == "char":
            st.heap[l + ("m_data",)] = self.data
        elif self.kind == "comment":
            st.heap[l + ("m_data",)] = ("str", self.data)
        elif self.kind == "doctype":
            for fld in ("m_name", "m_public_identifier", "m_system_identifier"):
                st.heap[l + (fld,)] = ("str", self.k.get(fld, ()))
            st.heap[l + ("m_force_quirks_flag",)] = self.k.get("quirks", C(0))
        return ("ref", l)


def no_tok():
    return Tok("start", C(0), ())


def tok_at(I, st, l):
    """(tag, name, attributes) of the tag token at l"""
    v = I.lib.get(I, st, ("ref", l + ("m_tag_name",)))
    n = st.heap.get(l + ("m_attributes", "m_last"), C(0))
    c = I.lib.get(I, st, ("ref", l + ("m_attributes", "m_c")))
    if v is None or v[0] != "str" or n[0] != "c" or c is None or c[0] != "str":
        raise Unknown("token")
    at = []
    for x in c[1][:n[1]]:
        if x[0] != "chr" or x[1][0] != "ref":
            raise Unknown("attributes")
        g = lambda fld: I.lib.get(I, st, ("ref", x[1][1] + (fld,)))
        om = g("m_omitted")
        if om is None or om[0] != "c":
            raise Unknown("attributes")
        if not om[1]:
            at.append((g("m_namespace"), g("m_prefix")[1], g("m_name")[1], g("m_value")[1]))
    return st.heap.get(l + ("m_tag_name_id",), C(0)), v[1], tuple(at)


# ------------------------------------------------------------------------------------------ the parser state
class W:
    """state of the specification's tree construction stage; `o` answers its questions"""

    def __init__(self):
        self.dom = (DOCNODE,)
        self.stack = []          # [node, Tok]
        self.list = []           # [node, Tok] or None for a marker
        self.mode, self.orig = md("initial"), None
        self.tstack = []
        self.head = self.form = -1
        self.scripting, self.frameset_ok, self.foster = 0, 1, 0
        self.fragment, self.context = 0, None
        self.omit_lf = 0
        self.pending = []
        self.dmode = C(CONST["dmode"]["NoQuirks"])
        self.state = None
        self.eff = []
        self.enc, self.conf = C(CONST["enc"]["UTF_8"]), C(CONST["conf"]["tentative"])
        self.o = None

    def copy(self, o):
        w = W.__new__(W)
        w.__dict__.update(self.__dict__)
        for k in ("stack", "list", "tstack", "pending", "eff"):
            setattr(w, k, [list(x) if isinstance(x, list) else x for x in getattr(self, k)])
        w.o = o
        return w

    def add(self, node, pos=None):
        """model setup: appends a node, attached at pos; returns its id"""
        i = len(self.dom)
        self.dom = self.dom + (node,)
        if pos is not None:
            self.dom = attach(self.dom, pos, i)
        return i

    # ---- writing the state for the interpreter
    def put(self, I, st):
        st.heap[DOM] = ("dom", self.dom)
        st.heap[("DMODE",)] = self.dmode

        def entry(l, n, t):
            st.heap[l + ("m_it", "n")] = C(n)
            t.put(st, l + ("m_token",))
            return ("chr", ("ref", l))
        st.heap[A + ("m_stack",)] = ("str", tuple(entry(("SE", i), x[0], x[1]) for i, x in enumerate(self.stack)))
        its = []
        for i, x in enumerate(self.list):
            l = ("LE", i)
            its.append(entry(l, -1 if x is None else x[0], no_tok() if x is None else x[1]))
            st.heap[l + ("m_marker",)] = C(int(x is None))
        st.heap[A + ("m_list",)] = ("str", tuple(its))
        st.heap[A + ("m_insertion_mode",)] = C(self.mode)
        st.heap[A + ("m_original_insertion_mode",)] = C(self.orig or 0)
        st.heap[A + ("m_template_insertion_mode_stack",)] = ("str", tuple(("chr", C(x)) for x in self.tstack))
        st.heap[A + ("m_head_element_pointer", "n")] = C(self.head)
        st.heap[A + ("m_form_element_pointer", "n")] = C(self.form)
        for f, v in (("m_scripting_flag", self.scripting), ("m_frameset_ok_flag", self.frameset_ok), ("m_foster_parenting", self.foster), ("m_fragments_parser", self.fragment), ("m_omit_lf", self.omit_lf)):
            st.heap[A + (f,)] = v if isinstance(v, tuple) else C(v)
        c = self.context
        entry(A + ("m_context_entry",), -1 if c is None else c[0], no_tok() if c is None else c[1])
        its = []
        for i, x in enumerate(self.pending):
            st.heap[("PT", i, "m_data")] = x
            its.append(("chr", ("ref", ("PT", i))))
        st.heap[A + ("m_pending_table_character_tokens",)] = ("str", tuple(its))
        st.heap[A + ("m_encoding_name",)] = self.enc
        st.heap[A + ("m_encoding_confidence",)] = self.conf
        st.heap[A + ("m_state",)] = ("state", "unchanged")

    # ---- questions
    def is_(self, i, ns, *tags):
        x = self.dom[i]
        N = nsn(ns)
        return x.kind == "element" and self.o.isin(x.ns, (N, N)) and (not tags or self.o.isin(x.tag, *[(tg(t),) * 2 for t in tags]))

    def html(self, i, *tags):
        return self.is_(i, "HTML", *tags)

    def cur(self):
        return self.stack[-1][0]

    def same_name(self, i, tok):
        return name_eq(self.o, self.dom[i].data, tok.name)

    def scope_stop(self, i, kind):
        if kind == "table":
            return self.html(i, "Html", "Table", "Template")
        if kind == "select":
            return not self.html(i, "Optgroup", "Option")
        r = self.html(i, "Applet", "Caption", "Html", "Table", "Td", "Th", "Marquee", "Object", "Template") or self.is_(i, "MathML", "Mi", "Mo", "Mn", "Ms", "Mtext", "Annotation_xml") or self.is_(i, "SVG", "ForeignObject", "Desc", "Title")
        if r:
            return True
        return kind == "list item" and self.html(i, "Ol", "Ul") or kind == "button" and self.html(i, "Button")

    def in_scope(self, kind, pred):
        for i, _ in reversed(self.stack):
            if pred(i):
                return True
            if self.scope_stop(i, kind):
                return False
        return False

    def tag_in_scope(self, kind, *tags):
        return self.in_scope(kind, lambda i: self.html(i, *tags))

    def special(self, i):
        return self.html(i, *SPECIAL) or self.is_(i, "MathML", "Mi", "Mo", "Mn", "Ms", "Mtext", "Annotation_xml") or self.is_(i, "SVG", "ForeignObject", "Desc", "Title")

    def on_stack(self, i):
        return any(x[0] == i for x in self.stack)

    # ---- algorithms
    def implied(self, but=None):
        """but: predicate on a node"""
        while self.stack and self.html(self.cur(), "Dd", "Dt", "Li", "Optgroup", "Option", "P", "Rb", "Rp", "Rt", "Rtc") and not (but and but(self.cur())):
            self.stack.pop()

    def implied_thoroughly(self):
        while self.stack and self.html(self.cur(), "Caption", "Colgroup", "Dd", "Dt", "Li", "Optgroup", "Option", "P", "Rb", "Rp", "Rt", "Rtc", "Tbody", "Td", "Tfoot", "Th", "Thead", "Tr"):
            self.stack.pop()

    def pop_until(self, pred):
        while self.stack:
            i = self.stack.pop()[0]
            if pred(i):
                break

    def pop_html(self, *tags):
        self.pop_until(lambda i: self.html(i, *tags))

    def place(self, target):
        if self.foster and self.html(target, "Table", "Tbody", "Tfoot", "Thead", "Tr"):
            T = [k for k, x in enumerate(self.stack) if self.html(x[0], "Template")]
            B = [k for k, x in enumerate(self.stack) if self.html(x[0], "Table")]
            if T and (not B or T[-1] > B[-1]):
                return -2 - self.stack[T[-1]][0]
            if not B:
                return -2 - self.stack[0][0]
            t = self.stack[B[-1]][0]
            if self.dom[t].par is not None:
                return t
            return -2 - self.stack[B[-1] - 1][0]
        return -2 - target

    def create(self, tok, ns):
        i = len(self.dom)
        self.dom = self.dom + (element(C(nsn(ns)) if isinstance(ns, str) else ns, tok.tag, tok.name, [a[:4] for a in tok.attrs if len(a) < 5 or a[4] == C(0)]),)
        return i

    def insert(self, tok, ns="HTML"):
        pos = self.place(self.cur())
        i = self.create(tok, ns)
        self.dom = attach(self.dom, pos, i)
        self.stack.append([i, tok])
        return i

    def void(self, tok, ns="HTML"):
        """insert and pop at once"""
        i = self.insert(tok, ns)
        self.stack.pop()
        return i

    def tag(self, name):
        """a start tag token without attributes"""
        return Tok("start", C(tg(name)))

    def char(self, cp):
        pos = self.place(self.cur())
        p = parent_of(self.dom, pos)
        if self.dom[p].kind == "document":
            return
        j = step(self.dom, pos, -1)
        if j is not None and self.dom[j].kind == "text":
            self.dom = put(self.dom, j, data=self.dom[j].data + (("chr", cp),))
            return
        i = len(self.dom)
        self.dom = attach(self.dom + (Node(("text", C(0), C(0), (("chr", cp),), (), None, ())),), pos, i)

    def comment(self, tok, pos=None):
        if pos is None:
            pos = self.place(self.cur())
        i = len(self.dom)
        self.dom = attach(self.dom + (Node(("comment", C(0), C(0), tok.data, (), None, ())),), pos, i)

    def push_formatting(self, i, tok):
        n = []
        for k in range(len(self.list) - 1, -1, -1):
            if self.list[k] is None:
                break
            if self.equal(self.list[k][0], i):
                n.append(k)
        if len(n) >= 3:
            del self.list[n[-1]]
        self.list.append([i, tok])

    def equal(self, a, b):
        x, y = self.dom[a], self.dom[b]
        if not self.o.eq(x.ns, y.ns) or not name_eq(self.o, x.data, y.data):
            return False
        if x.attrs == y.attrs:
            return True
        if len(x.attrs) == 1 and len(y.attrs) == 1:
            return self.o.eq(x.attrs[0][3][0][1], y.attrs[0][3][0][1])
        return False

    def reconstruct(self):
        L = self.list
        if not L or L[-1] is None or self.on_stack(L[-1][0]):
            return
        k = len(L) - 1
        while k > 0 and L[k - 1] is not None and not self.on_stack(L[k - 1][0]):
            k -= 1
        for j in range(k, len(L)):
            L[j] = [self.insert(L[j][1]), L[j][1]]

    def clear_list(self):
        while self.list:
            if self.list.pop() is None:
                break

    def reset_mode(self):
        k = len(self.stack) - 1
        while True:
            node = self.stack[k][0]
            last = k == 0
            if last and self.fragment:
                node = self.context[0]
            if self.html(node, "Select"):
                if not last:
                    for j in range(k - 1, -1, -1):
                        if self.html(self.stack[j][0], "Template"):
                            break
                        if self.html(self.stack[j][0], "Table"):
                            self.mode = md("in_select_in_table")
                            return
                self.mode = md("in_select")
                return
            for tags, m, lastok in ((("Td", "Th"), "in_cell", False), (("Tr",), "in_row", True), (("Tbody", "Thead", "Tfoot"), "in_table_body", True), (("Caption",), "in_caption", True), (("Colgroup",), "in_column_group", True), (("Table",), "in_table", True)):
                if (lastok or not last) and self.html(node, *tags):
                    self.mode = md(m)
                    return
            if self.html(node, "Template"):
                self.mode = self.tstack[-1]
                return
            if not last and self.html(node, "Head"):
                self.mode = md("in_head")
                return
            if self.html(node, "Body"):
                self.mode = md("in_body")
                return
            if self.html(node, "Frameset"):
                self.mode = md("in_frameset")
                return
            if self.html(node, "Html"):
                self.mode = md("before_head" if self.head == -1 else "after_head")
                return
            if last:
                self.mode = md("in_body")
                return
            k -= 1


SPECIAL = ("Address Applet Area Article Aside Base Basefont Bgsound Blockquote Body Br Button Caption Center Col Colgroup Dd Details Dir Div Dl Dt Embed Fieldset Figcaption Figure Footer Form Frame Frameset "
           "H1 H2 H3 H4 H5 H6 Head Header Hgroup Hr Html Iframe Img Input Keygen Li Link Listing Main Marquee Menu Meta Nav Noembed Noframes Noscript Object Ol P Param Plaintext Pre Script Section Select Source Style "
           "Summary Table Tbody Td Template Textarea Tfoot Th Thead Title Tr Track Ul Wbr Xmp").split()
FORMATTING = "A B Big Code Em Font I Nobr S Small Strike Strong Tt U".split()


def name_eq(o, a, b):
    if len(a) != len(b):
        return False
    return all(x[1] == y[1] or o.eq(x[1], y[1]) for x, y in zip(a, b))


# ------------------------------------------------------------------------------------------ comparing
def witness(st, limit=20000):
    """a concrete assignment of the atoms the path constrains, or None if none exists or none was found"""
    ats = []
    for t in st.cons:
        atoms(t, ats)
    cons = [(t, S) for t, S in st.cons.items()]
    from oracle import evalt
    pairs = []
    for t, S in cons:
        a = atoms(t)
        if len(a) > 1:
            pairs.append((t, S, a))
    dom = {a: st.rng(a) for a in ats}
    order = sorted(ats, key=lambda a: sum(1 for r in pairs if a in r[2]) == 0)
    cnt = [0]

    def vals(a, env):
        out = []
        for t, S, aa in pairs:
            if a in aa and all(x in env for x in aa if x != a):
                k = dict(env)
                k[a] = 0
                b = evalt(t, k)
                k[a] = 1
                c = evalt(t, k) - b
                if c in (1, -1) and len(S.iv) == 1 and S.min() == S.max():
                    out.append((S.min() - b) * c)
        if out:
            return [v for v in out if v in dom[a]]
        for lo, hi in dom[a].iv:
            for v in range(lo, min(hi, lo + 12) + 1):
                out.append(v)
                if len(out) > 40:
                    return out
        return out

    def go(k, env):
        cnt[0] += 1
        if cnt[0] > limit:
            return None
        if k == len(order):
            return env
        a = order[k]
        for v in vals(a, env):
            e2 = dict(env)
            e2[a] = v
            if all(evalt(t, e2) in S for t, S, aa in pairs if a in aa and all(x in e2 for x in aa)):
                r = go(k + 1, e2)
                if r is not None:
                    return r
        return None
    return go(0, {})


def tagname(v):
    return next((k for k, x in CONST["tag_name"].items() if x == v), "tag %d" % v if v else "unknown")


def show_wit(w):
    out = []
    for a, v in sorted(w.items(), key=str):
        n = str(a[1])
        out.append("%s=%s" % (n, tagname(v) if n.startswith("tag") else next((k for k, x in CONST["ns_name"].items() if x == v), v) if n.startswith("ns") else hex(v) if v > 9 else v))
    return ", ".join(out)


def tri(*rs):
    """conjunction over True/False/None"""
    r = True
    for x in rs:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def dom_diff(I, st, gd, w, probs, und):
    """matches the two DOMs from the document down; returns got id -> wanted id"""
    m = {-1: -1}

    def show(dom, i):
        x = dom[i]
        return {"element": "element", "document": "the document"}.get(x.kind, x.kind) + (" #%d" % i)

    def go(a, b):
        m[a] = b
        x, y = gd[a], w.dom[b]
        if x.kind != y.kind:
            probs.append("has %s where the standard has %s" % (show(gd, a), show(w.dom, b)))
            return
        if x.kind == "element":
            r = tri(teq(st, x.ns, y.ns), items_eq(st, x.data, y.data))
            if r is False:
                probs.append("element #%d has another name or namespace" % a)
            elif r is None:
                und.append("name")
            if len(x.attrs) != len(y.attrs):
                probs.append("element #%d has %d attributes, the standard says %d" % (a, len(x.attrs), len(y.attrs)))
            else:
                for s, t in zip(x.attrs, y.attrs):
                    r = tri(teq(st, s[0], t[0]), *[items_eq(st, u, v) for u, v in zip(s[1:], t[1:])])
                    if r is False:
                        probs.append("element #%d has another attribute" % a)
                    elif r is None:
                        und.append("attribute")
        elif x.kind in ("text", "comment"):
            r = items_eq(st, x.data, y.data)
            if r is False:
                probs.append("%s has data '%s', the standard says '%s'" % (show(gd, a), show_items(x.data), show_items(y.data)))
            elif r is None:
                und.append("data")
        elif x.kind == "doctype":
            r = tri(*[items_eq(st, u, v) for u, v in zip(x.data, y.data)])
            if r is False:
                probs.append("the doctype has another name or identifier")
            elif r is None:
                und.append("doctype")
        if len(x.kids) != len(y.kids) or any(u != v for u, v in zip(x.kids, y.kids) if min(u, v) < NOLD[0]):
            probs.append("%s has the children %s, the standard says %s" % (show(gd, a), kids(gd, a), kids(w.dom, b)))
            return
        for u, v in zip(x.kids, y.kids):
            go(u, v)

    def kids(dom, i):
        return "[" + ", ".join("%s%s" % (dom[c].kind, " #%d" % c if c < NOLD[0] else " (new)") for c in dom[i].kids) + "]"
    go(0, 0)
    return m


NOLD = [0]


def compare_state(I, st, w, ignore=()):
    """(problems, undecided) of the interpreter's final state against the specification's"""
    probs, und = [], []
    gd = st.heap[DOM][1]
    m = dom_diff(I, st, gd, w, probs, und)

    def nid(l):
        x = st.heap.get(l + ("n",))
        if x is None or x[0] != "c":
            raise Unknown("node pointer")
        return x[1]

    def node_eq(a, b):
        if a < NOLD[0] or b < NOLD[0]:
            return a == b
        return m[a] == b if a in m else (True if a == b else None)

    def nm(i):
        return "none" if i == -1 else "#%d%s" % (i, "" if i < NOLD[0] else " (new)")

    def seq_(fld):
        v = st.heap.get(A + (fld,))
        if v is None or v[0] != "str" or not all(i[0] == "chr" for i in v[1]):
            raise Unknown(fld)
        return [i[1] for i in v[1]]
    if "stack" not in ignore:
        g = [nid(x[1] + ("m_it",)) for x in seq_("m_stack")]
        want = [x[0] for x in w.stack]
        if len(g) != len(want) or any(node_eq(a, b) is False for a, b in zip(g, want)):
            probs.append("the stack of open elements is [%s], the standard says [%s]" % (", ".join(map(nm, g)), ", ".join(map(nm, want))))
        elif any(node_eq(a, b) is None for a, b in zip(g, want)):
            und.append("stack")
        else:
            for x, (i, t) in zip(seq_("m_stack"), w.stack):
                if i >= NOLD[0] and t is not None:
                    tok_cmp(I, st, x[1] + ("m_token",), t, "stack entry", probs, und)
    if "list" not in ignore:
        L = seq_("m_list")
        g = []
        for x in L:
            mk = I.lib.get(I, st, ("ref", x[1] + ("m_marker",)))
            if mk is None or mk[0] != "c":
                raise Unknown("marker")
            g.append(None if mk[1] else nid(x[1] + ("m_it",)))
        want = [None if x is None else x[0] for x in w.list]
        eq = lambda a, b: (a is None) == (b is None) if a is None or b is None else node_eq(a, b)
        if len(g) != len(want) or any(eq(a, b) is False for a, b in zip(g, want)):
            s = lambda q: ", ".join("marker" if x is None else nm(x) for x in q)
            probs.append("the list of active formatting elements is [%s], the standard says [%s]" % (s(g), s(want)))
        elif any(eq(a, b) is None for a, b in zip(g, want)):
            und.append("list")
        else:
            for x, e in zip(L, w.list):
                if e is not None:
                    tok_cmp(I, st, x[1] + ("m_token",), e[1], "entry of the list of active formatting elements", probs, und)
    names = {v: k for k, v in CONST["mode"].items()}

    def num(fld, want, what, f=str):
        if fld in ignore:
            return
        v = I.lib.get(I, st, ("ref", A + (fld,)))
        wt = want if isinstance(want, tuple) else C(int(want))
        if v is None:
            raise Unknown(fld)
        r = teq(st, v, wt)
        if r is False:
            probs.append("%s is %s, the standard says %s" % (what, f(v[1]) if v[0] == "c" else "another", f(wt[1]) if wt[0] == "c" else wt))
        elif r is None:
            und.append(fld)
    mn = lambda v: names.get(v, str(v))
    num("m_insertion_mode", w.mode, "the insertion mode", mn)
    if w.orig is not None:
        num("m_original_insertion_mode", w.orig, "the original insertion mode", mn)
    num("m_frameset_ok_flag", w.frameset_ok, "the frameset-ok flag")
    num("m_foster_parenting", w.foster, "foster parenting")
    num("m_omit_lf", w.omit_lf, "whether a next line feed is ignored")
    num("m_encoding_confidence", w.conf, "the confidence of the encoding")
    num("m_scripting_flag", w.scripting, "the scripting flag")
    g = [v for v in seq_("m_template_insertion_mode_stack")]
    if len(g) != len(w.tstack) or any(teq(st, a, C(b)) is False for a, b in zip(g, w.tstack)):
        probs.append("the stack of template insertion modes differs")
    for fld, want, what in (("m_head_element_pointer", w.head, "the head element pointer"), ("m_form_element_pointer", w.form, "the form element pointer")):
        r = node_eq(nid(A + (fld,)), want)
        if r is False:
            probs.append("%s is %s, the standard says %s" % (what, nm(nid(A + (fld,))), nm(want)))
        elif r is None:
            und.append(fld)
    if "pending" not in ignore:
        g = [I.lib.get(I, st, ("ref", x[1] + ("m_data",))) for x in seq_("m_pending_table_character_tokens")]
        if len(g) != len(w.pending) or any(teq(st, a, b) is False for a, b in zip(g, w.pending)):
            probs.append("the pending table characters are %d, the standard says %d" % (len(g), len(w.pending)))
    r = teq(st, st.heap[("DMODE",)], w.dmode)
    if r is False:
        probs.append("the document mode differs")
    elif r is None:
        und.append("document mode")
    s = st.heap.get(A + ("m_state",))
    gs = None if s == ("state", "unchanged") else state_name(I, s)
    if gs != w.state and "state" not in ignore:
        probs.append("the tokenizer %s, the standard says %s" % ("stays in its state" if gs is None else "changes to %s" % gs, "it stays" if w.state is None else w.state))
    ge = [x for x in st.eff if x[0] in ("encoding", "flag")]
    if "eff" not in ignore:
        ok = len(ge) == len(w.eff)
        for a, b in zip(ge, w.eff):
            ok = ok and a[0] == b[0] and (a[0] == "flag" and a[1] == b[1] and node_eq(a[2], b[2]) is not False and teq(st, a[3], b[3]) is not False or a[0] == "encoding" and teq(st, a[1], b[1]) is not False)
        if not ok:
            probs.append("does %s, the standard %s" % (ge, w.eff))
    return probs, und


def tok_cmp(I, st, l, t, what, probs, und):
    tag, name, at = tok_at(I, st, l)
    want = [a[:4] for a in t.attrs if len(a) < 5 or a[4] == C(0)]
    rs = [teq(st, tag, t.tag), items_eq(st, name, t.name)]
    if len(at) != len(want):
        rs.append(False)
    else:
        for a, b in zip(at, want):
            rs += [teq(st, a[0], b[0])] + [items_eq(st, u, v) for u, v in zip(a[1:], b[1:])]
    r = tri(*rs)
    if r is False:
        probs.append("the token kept with the %s has another name or attributes" % what)
    elif r is None:
        und.append("token")


def state_name(I, s):
    if s[0] == "mfn":
        return I.p.finfo[s[1]]["n"].replace("on_", "") if isinstance(s[1], int) else str(s[1])
    return str(s)


class Ck:
    def __init__(self, rep, p):
        self.rep, self.p = rep, p
        self.model = Model()
        self.cons = []

    def where(self, fn):
        fs = [i for i in self.p.byname.get(fn, []) if i in self.p.funcs and self.p.finfo[i]["q"].startswith(PFX)]
        return self.p.where(fs[0]) if fs else "include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp (%s)" % fn

    def run(self, key, fn, entry, w, args, spec, cons=(), ret=None, ignore=(), desc="", hooks=(), after=None):
        self.rep.guard(key, self._run, key, fn, entry, w, args, spec, cons, ret, ignore, desc, hooks, after)

    def _run(self, key, fn, entry, w, args, spec, cons, ret, ignore, desc, hooks, after):
        """entry: harness function or function id; args(st) -> arguments; spec(w) changes w and returns the result; ret: how to compare it"""
        rep = self.rep
        I = Interp(self.p, SLib())
        I.LOOP = 300
        I.hooks += [self.model.hook] + list(hooks)
        I.maxpaths = 30000
        st = St()
        st.meta["w32"] = True
        w.put(I, st)
        for t, S_ in cons:
            st.restrict(t, S_ if isinstance(S_, ISet) else ISet(S_))
        NOLD[0] = len(w.dom)
        a = args(st)
        rep.count("partitions")
        if isinstance(entry, str):
            ps = I.run(drv(self.p, entry), st, None, [("ref", A)] + a)
        else:
            ps = I.run(entry, st, ("ptr", A), a)
        for pa in ps:
            rep.count("paths")
            opq = [e for e in pa.st.eff if e[0] == "opaque"]

            def sp(o):
                w2 = w.copy(o)
                return w2, spec(w2)
            for s2, (w2, val) in outcomes(pa.st, sp):
                probs, und = [], []
                err = [e for e in pa.st.eff if e[0] == "domerr" or e[0] in BADEFF]
                try:
                    if err:
                        probs.append(err[0][1] if err[0][0] == "domerr" else "reads outside a container or string")
                    elif pa.kind != "ret":
                        probs.append("aborts" if pa.kind == "abort" else "throws")
                    else:
                        probs, und = compare_state(I, s2, w2, ignore)
                        if ret == "bool":
                            v = I.lib.get(I, s2, pa.val)
                            r = teq(s2, v, C(int(bool(val))))
                            if r is False:
                                probs.append("answers %s" % (not val))
                            elif r is None:
                                und.append("result")
                        elif ret == "node":
                            v = s2.heap.get(pa.val[1] + ("n",)) if pa.val[0] == "ref" else None
                            if v is None or v[0] != "c":
                                und.append("result")
                            elif v[1] != val:
                                probs.append("returns position %d, the standard %d" % (v[1], val))
                        if after:
                            after(I, s2, w2, val, probs, und)
                except Unknown as e:
                    und.append(str(e))
                if probs:
                    if opq:
                        rep.undecided(key, "%s after unmodelled %s" % (probs[0], str(opq[0])[:100]))
                        continue
                    wit = witness(s2)
                    if wit is None:
                        continue
                    rep.fail(key, "%s: %s (%s): %s" % (self.where(fn), desc, show_wit(wit), "; ".join(probs)))
                elif und:
                    if witness(s2) is not None:
                        rep.undecided(key, ", ".join(und))
                else:
                    rep.ok()
