"""C20: the algorithms of the HTML tree construction stage."""
from tc import *

LEVEL = "other"
RULE = ("every helper algorithm of the tree construction dispatcher is interpreted over a model DOM and parser state: stacks of up to four elements whose tag and namespace range over all enumerators (bottom: html), lists of active "
        "formatting elements of up to five entries with markers; on every path the resulting document, stack, list, insertion mode and answer must be those of the same algorithm of the HTML standard.")
ASSUME = ["the DOM answers what it contains; namespace and local name are asked of elements only", "the bottom of the stack of open elements is an html element", "a tag name identifier stands for exactly one name"]


def ns(i):
    return sym("ns of #%d" % i, 1, 3)


def tag(i, lo=1):
    return sym("tag of #%d" % i, lo, max(CONST["tag_name"].values()))


def base(n, free=None, unknown=()):
    """document, html and n - 1 further open elements; `free`: indices with free tag and namespace"""
    w = W()
    cons = []
    par = 0
    for i in range(1, n + 1):
        if i == 1:
            x, t = element(C(nsn("HTML")), C(tg("Html"))), Tok("start", C(tg("Html")))
        elif i in unknown:
            nm = (("chr", sym("name of #%d" % i, U, U + 50)),)
            x, t = element(ns(i), C(0), nm), Tok("start", C(0), nm)
        elif free is not None and i not in free:
            x, t = element(C(nsn("HTML")), C(tg("Div"))), Tok("start", C(tg("Div")))
        else:
            x, t = element(ns(i), tag(i)), Tok("start", tag(i))
        w.add(x, -2 - par)
        w.stack.append([i, t])
        par = i
    w.mode = md("in_body")
    return w


def fid(p, n, k=None):
    fs = [i for i in p.byname.get(n, []) if i in p.funcs and p.funcs[i].get("body") is not None and "tree_construction_dispatcher<P, tr>" in p.finfo[i]["q"] and (k is None or len(p.funcs[i]["params"]) == k)]
    if not fs:
        raise Broken("%s not found" % n)
    return fs[0]


def ndarg(st, i, name="N"):
    st.heap[(name, "n")] = C(i)
    return ("ref", (name,))


def check(rep):
    soften(rep)
    p = export("tc.cpp")
    consts(p)
    ck = Ck(rep, p)
    for fn in (classes, scopes, pops, implied, formatting, reset, places, inserting, encoding, adjust, doctypes, dispatch, clearing):
        rep.guard(fn.__name__, fn, ck, rep, p)
    rep.need("partitions", 200)


SC = ["default", "list item", "button", "table", "select"]
TT = sym("tag searched", 1, 10 ** 6)


def tsearch():
    return sym("tag searched", 1, max(CONST["tag_name"].values()))


def classes(ck, rep, p):
    for n, k in ((1, 0), (2, 0), (3, 0)):
        pass
    for name, spec in (("is_special", lambda w: w.special(2)), ("is_formatting", lambda w: w.html(2, *FORMATTING)),
                       ("is_default_scope", lambda w: w.scope_stop(2, "default")), ("is_list_item_scope", lambda w: w.scope_stop(2, "list item")), ("is_button_scope", lambda w: w.scope_stop(2, "button")),
                       ("is_table_scope", lambda w: w.scope_stop(2, "table")), ("is_select_scope", lambda w: w.scope_stop(2, "select"))):
        rep.count("functions")
        for unk in ((), (2,)):
            ck.run(name, name, fid(p, name, 1), base(2, unknown=unk), lambda st: [ndarg(st, 2)], spec, ret="bool", desc="for an element")
    for name, spec in (("is_mathml_text_integration_point", lambda w: w.is_(2, "MathML", "Mi", "Mo", "Mn", "Ms", "Mtext")),):
        rep.count("functions")
        ck.run(name, name, fid(p, name, 1), base(2), lambda st: [("ref", ("SE", 1))], spec, ret="bool", desc="for an element")
    rep.count("functions")
    for val, hit in (("text/html", 1), ("TEXT/HTML", 1), ("tExt/html", 1), ("application/xhtml+xml", 1), ("Application/XHTML+xml", 1), ("text/htm", 0), ("text/html ", 0), ("", 0), ("application/xml", 0)):
        for an in ("encoding", "encodin"):
            w = base(2)
            w.stack[1][1] = Tok("start", tag(2), None, [(C(0), (), S("x"), S("text/html"), C(0)), (C(0), (), S(an), S(val), C(0))])
            ck.run("is_html_integration_point", "is_html_integration_point", fid(p, "is_html_integration_point", 1), w, lambda st: [("ref", ("SE", 1))],
                   lambda w: w.is_(2, "MathML", "Annotation_xml") and hit and an == "encoding" or w.is_(2, "SVG", "ForeignObject", "Desc", "Title"), ret="bool", desc="for an element with %s='%s'" % (an, val))
    ck.run("is_html_integration_point", "is_html_integration_point", fid(p, "is_html_integration_point", 1), base(2), lambda st: [("ref", ("SE", 1))],
           lambda w: w.is_(2, "SVG", "ForeignObject", "Desc", "Title"), ret="bool", desc="for an element without attributes")


def scopes(ck, rep, p):
    rep.count("functions", 5)
    for k, kind in enumerate(SC):
        for n in (1, 2, 3):
            for unk in ((), (n,)) if n > 1 else ((),):
                d = "element in %s scope, stack of %d" % (kind, n)
                t = tsearch()
                T_ = lambda i, w: w.is_(i, "HTML") and w.o.eq(w.dom[i].tag, t)
                ck.run("in_specific_scope " + kind, "in_specific_scope", "vp_s_tag", base(n, unknown=unk), lambda st: [C(k), t], lambda w: w.in_scope(kind, lambda i: T_(i, w)), ret="bool", desc=d)
                if n < 3:
                    N_ = sym("ns searched", 1, 3)
                    ck.run("in_specific_scope " + kind, "in_specific_scope", "vp_s_pair", base(n, unknown=unk), lambda st: [C(k), N_, t], lambda w: w.in_scope(kind, lambda i: w.o.eq(w.dom[i].ns, N_) and w.o.eq(w.dom[i].tag, t)), ret="bool", desc=d)
                    def arr(st):
                        st.heap[("ARR",)] = ("str", tuple(("chr", C(tg(x))) for x in ("Tbody", "Thead", "Tfoot")))
                        return [C(k), ("ref", ("ARR",))]
                    ck.run("in_specific_scope " + kind, "in_specific_scope", "vp_s_arr", base(n, unknown=unk), arr, lambda w: w.tag_in_scope(kind, "Tbody", "Thead", "Tfoot"), ret="bool", desc=d)
                    nm = (("chr", sym("name searched", U, U + 50)),)
                    def sarg(st):
                        st.heap[("STR",)] = ("str", nm)
                        return [C(k), ("ref", ("STR",))]
                    ck.run("in_specific_scope " + kind, "in_specific_scope", "vp_s_str", base(n, unknown=unk), sarg, lambda w: w.in_scope(kind, lambda i: w.is_(i, "HTML") and name_eq(w.o, w.dom[i].data, nm)), ret="bool", desc=d)
                for i in range(1, n + 2):
                    w = base(n, unknown=unk)
                    if i == n + 1:
                        w.add(element(C(nsn("HTML")), C(tg("P"))), -2)
                    ck.run("in_specific_scope " + kind, "in_specific_scope", "vp_s_node", w, lambda st: [C(k), ndarg(st, i)], lambda w: w.in_scope(kind, lambda j: j == i), ret="bool", desc=d)


def pops(ck, rep, p):
    rep.count("functions", 8)
    t, N_ = tsearch(), sym("ns searched", 1, 3)
    for n in (1, 2, 3):
        m = lambda w: lambda i: w.o.eq(w.dom[i].ns, N_) and w.o.eq(w.dom[i].tag, t)
        d = "stack of %d" % n
        ck.run("pop_until", "pop_until", "vp_pop_tag", base(n), lambda st: [N_, t], lambda w: w.pop_until(m(w)), desc=d)

        def arr(st):
            st.heap[("ARR",)] = ("str", tuple(("chr", C(tg(x))) for x in ("H1", "H2")))
            return [N_, ("ref", ("ARR",))]
        ck.run("pop_until", "pop_until", "vp_pop_arr", base(n), arr, lambda w: w.pop_until(lambda i: w.o.eq(w.dom[i].ns, N_) and w.o.isin(w.dom[i].tag, (tg("H1"),) * 2, (tg("H2"),) * 2)), desc=d)
        ck.run("contains", "contains", "vp_has_tag", base(n), lambda st: [t], lambda w: any(w.is_(x[0], "HTML") and w.o.eq(w.dom[x[0]].tag, t) for x in w.stack), ret="bool", desc=d)
        ck.run("contains", "contains", "vp_has_pair", base(n), lambda st: [N_, t], lambda w: any(m(w)(x[0]) for x in w.stack), ret="bool", desc=d)
        for i in range(1, n + 2):
            def mk():
                w = base(n)
                w.add(element(C(nsn("HTML")), C(tg("P"))), -2)
                return w
            ck.run("pop_until", "pop_until", "vp_pop_node", mk(), lambda st: [ndarg(st, i)], lambda w: w.pop_until(lambda j: j == i), desc=d)
            ck.run("contains", "contains", "vp_has_node", mk(), lambda st: [ndarg(st, i)], lambda w: w.on_stack(i), ret="bool", desc=d)
            if i <= n:
                def rm(w):
                    w.stack = [x for x in w.stack if x[0] != i]
                ck.run("remove", "remove", fid(p, "remove", 1), mk(), lambda st: [ndarg(st, i)], rm, desc=d)
    for n in range(4):
        for i in range(2, n + 3):
            def mk():
                w = base(2)
                for j in range(n):
                    q = w.add(element(C(nsn("HTML")), C(tg("B"))), -4)
                    w.list.append([q, w.tag("B")])
                w.list.insert(n // 2, None)
                w.add(element(C(nsn("HTML")), C(tg("B"))), -4)
                return w

            def rm(w):
                w.list = [x for x in w.list if x is None or x[0] != i]
            ck.run("remove_from_list", "remove_from_list", fid(p, "remove_from_list", 1), mk(), lambda st: [ndarg(st, i)], rm, desc="list of %d and a marker" % n)


def implied(ck, rep, p):
    rep.count("functions", 3)
    t = tsearch()
    for n in (2, 3, 4):
        d = "stack of %d" % n
        ck.run("generate_implied_end_tags", "generate_implied_end_tags", "vp_implied", base(n), lambda st: [], lambda w: w.implied(), desc=d)
        ck.run("generate_all_implied_end_tags_thoroughly", "generate_all_implied_end_tags_thoroughly", fid(p, "generate_all_implied_end_tags_thoroughly"), base(n), lambda st: [], lambda w: w.implied_thoroughly(), desc=d)
        if n < 4:
            for e in ("P", "Li", "Dd", "Div"):
                # "except for": the current node being an HTML element of that name
                ck.run("generate_implied_end_tags", "generate_implied_end_tags", "vp_implied_pair", base(n), lambda st: [C(nsn("HTML")), C(tg(e))], lambda w: w.implied(lambda i: w.html(i, e)), desc=d + " except " + e)
                ck.run("generate_implied_end_tags", "generate_implied_end_tags", "vp_implied_tag", base(n), lambda st: [C(tg(e))], lambda w: w.implied(lambda i: w.html(i, e)), desc=d + " except " + e)
            nm = (("chr", sub(sym("tag searched", 1, max(CONST["tag_name"].values())), C(-K))),)

            def sarg(st):
                st.heap[("STR",)] = ("str", nm)
                return [C(nsn("HTML")), ("ref", ("STR",))]
            ck.run("generate_implied_end_tags", "generate_implied_end_tags", "vp_implied_str", base(n), sarg, lambda w: w.implied(lambda i: w.is_(i, "HTML") and name_eq(w.o, w.dom[i].data, nm)), desc=d + " except a name")


def fmt(shape, onstack, attrs=False):
    """list shape: 'm' marker, 'f' formatting element; onstack: bits of the elements that are open"""
    w = base(2, free=())
    k = 0
    for c in shape:
        if c == "m":
            w.list.append(None)
            continue
        at = [(C(0), (), S("a"), (("chr", sym("value of entry %d" % k, 48, 57)),))] if attrs else []
        t = Tok("start", sym("tag of entry %d" % k, tg("A"), tg("B")) if attrs else C(tg("B")), None, [a + (C(0),) for a in at])
        if attrs:
            t = Tok("start", C(tg("B")), None, t.attrs)
        q = w.add(element(C(nsn("HTML")), t.tag, t.name, at), -2 - w.stack[-1][0] if onstack >> k & 1 else -4)
        if onstack >> k & 1:
            w.stack.append([q, t])
        w.list.append([q, t])
        k += 1
    return w


def formatting(ck, rep, p):
    rep.count("functions", 4)
    for n in range(6):
        for shape in itertools.product("fm", repeat=n):
            if n > 4 and shape.count("m") > 1:
                continue
            d = "list [%s]" % "".join(shape)
            at = (("chr", sym("value of the new entry", 48, 57)),)

            def mk():
                w = fmt(shape, 0, True)
                w.add(element(C(nsn("HTML")), C(tg("B")), None, [(C(0), (), S("a"), at)]), -4)
                return w
            t = Tok("start", C(tg("B")), None, [(C(0), (), S("a"), at, C(0))])
            i = len(mk().dom) - 1
            if shape.count("f") <= 4:
                ck.run("push_formatting_element_list", "push_formatting_element_list", "vp_push_fmt", mk(), lambda st: [ndarg(st, i), t.put(st, TOK)], lambda w: w.push_formatting(i, t), desc=d)
            ck.run("push_formatting_element_list", "push_formatting_element_list", "vp_push_mark", fmt(shape, 0), lambda st: [], lambda w: w.list.append(None), desc=d)
            ck.run("clear_formatting_element_list", "clear_formatting_element_list", fid(p, "clear_formatting_element_list"), fmt(shape, 0), lambda st: [], lambda w: w.clear_list(), desc=d)
            if n <= 4:
                for m in range(1 << shape.count("f")):
                    ck.run("reconstruct_formatting_element_list", "reconstruct_formatting_element_list", fid(p, "reconstruct_formatting_element_list"), fmt(shape, m, True), lambda st: [], lambda w: w.reconstruct(), desc=d + ", open: %s" % bin(m))


def reset(ck, rep, p):
    rep.count("functions")
    f = fid(p, "reset_insertion_mode_appropriately")
    for n in (1, 2, 3):
        for head in (-1, 1):
            for frag in (0, 1):
                w = base(n)
                w.head = head
                w.tstack = [md("in_table"), md("in_row")]
                if frag:
                    w.fragment = 1
                    c = w.add(element(ns(9), sym("tag of the context", 1, max(CONST["tag_name"].values()))), -2)
                    w.context = [c, no_tok()]
                ck.run("reset_insertion_mode_appropriately", "reset_insertion_mode_appropriately", f, w, lambda st: [], lambda w: w.reset_mode(), desc="stack of %d%s%s" % (n, ", head element seen" if head > 0 else "", ", fragment" if frag else ""))
    for t in ("Select",):
        for n in (4,):
            w = base(n)
            w.dom = put(w.dom, n, ns=C(nsn("HTML")), tag=C(tg(t)), data=(("chr", C(K + tg(t))),))
            w.tstack = [md("in_table")]
            ck.run("reset_insertion_mode_appropriately", "reset_insertion_mode_appropriately", f, w, lambda st: [], lambda w: w.reset_mode(), desc="select on top of a stack of %d" % n)


def places(ck, rep, p):
    rep.count("functions")
    f = fid(p, "appropriate_place_for_inserting_node")
    for n in (1, 2, 3, 4):
        for foster in (0, 1):
            for tgt in range(1, n + 1):
                if n == 4 and tgt < 3:
                    continue
                w = base(n)
                w.foster = foster
                ck.run("appropriate_place_for_inserting_node", "appropriate_place_for_inserting_node", f, w, lambda st: [ndarg(st, tgt)], lambda w: w.place(tgt), ret="node", desc="stack of %d, target #%d%s" % (n, tgt, ", foster parenting" if foster else ""))
    w = base(4)
    w.foster = 1
    w.add(element(C(nsn("HTML")), C(tg("P"))), -4)
    w.dom = attach(w.dom, 3, 5)
    ck.run("appropriate_place_for_inserting_node", "appropriate_place_for_inserting_node", f, w, lambda st: [ndarg(st, 4)], lambda w: w.place(4), ret="node", desc="element before #3, foster parenting")


def inserting(ck, rep, p):
    rep.count("functions", 6)
    ch = sym("character", 0, 0x10FFFF)
    for n in (1, 2, 3):
        for foster in (0, 1):
            for txt in ((), ("last",), ("before",), ("last", "before")):
                if n == 1 and "before" in txt:
                    continue

                def mk():
                    w = base(n)
                    w.foster = foster
                    if "before" in txt:
                        w.add(Node(("text", C(0), C(0), S("x"), (), None, ())), n)
                    if "last" in txt:
                        w.add(Node(("text", C(0), C(0), S("y"), (), None, ())), -2 - n)
                    return w
                d = "stack of %d%s%s" % (n, ", foster parenting" if foster else "", ", text " + " and ".join(txt) if txt else "")
                ck.run("insert_character", "insert_character", fid(p, "insert_character"), mk(), lambda st: [ch], lambda w: w.char(ch), desc=d)
                t = Tok("comment", data=(("chr", sym("c0", 0, 0x10FFFF)), ("chr", sym("c1", 0, 0x10FFFF))))
                ck.run("insert_comment", "insert_comment", "vp_comment", mk(), lambda st: [t.put(st, TOK)], lambda w: w.comment(t), desc=d)
                if txt:
                    continue
                ck.run("insert_comment", "insert_comment", "vp_comment_at", mk(), lambda st: [t.put(st, TOK), ndarg(st, -2)], lambda w: w.comment(t, -2), desc=d + " at the end of the document")
                for unk in (0, 1):
                    for at in ([], [(C(0), (), S("a"), S("v"), C(0))], [(C(0), (), S("a"), S("v"), C(1)), (C(nsn("XLink")), S("xlink"), S("href"), S("w"), C(0)), (C(0), (), S("b"), S(""), C(0))]):
                        s = Tok("start", C(0) if unk else tsearch(), (("chr", sym("name searched", U, U + 50)),) if unk else None, at)
                        ck.run("insert_html_element", "insert_html_element", "vp_insert_html", mk(), lambda st: [s.put(st, TOK)], lambda w: w.insert(s), desc=d)
                        ck.run("insert_foreign_element", "insert_foreign_element", "vp_insert_foreign", mk(), lambda st: [s.put(st, TOK), ns(7)], lambda w: w.insert(s, ns(7)), desc=d)
                        ck.run("create_element_for_token", "create_element_for_token", "vp_create", mk(), lambda st: [s.put(st, TOK), ns(7), ndarg(st, 1)], lambda w: w.create(s, ns(7)), ret="node", desc=d)
    for n, fn, stt in ((1, "parse_generic_raw_text_element", "RAWTEXT_state"), (2, "parse_generic_raw_rcdata_element", "RCDATA_state")):
        rep.count("functions")
        s = Tok("start", tsearch())

        def spec(w):
            w.insert(s)
            w.state = stt
            w.orig = w.mode
            w.mode = md("text")
        ck.run(fn, fn, fid(p, fn), base(2), lambda st: [s.put(st, TOK)], spec, desc="stack of 2")


def encoding(ck, rep, p):
    rep.count("functions")
    E_ = CONST["enc"]
    lo, hi = min(E_.values()), max(E_.values())
    w = base(1)
    w.enc = sym("current encoding", lo, hi)
    new = sym("new encoding", lo, hi)
    is_ = lambda w, t, *n: w.o.isin(t, *[(E_[x], E_[x]) for x in n])

    def spec(w):
        e = new
        w.conf = C(CONST["conf"]["certain"])
        if is_(w, w.enc, "UTF_16BE", "UTF_16LE"):
            return
        if is_(w, e, "UTF_16BE", "UTF_16LE"):
            e = C(E_["UTF_8"])
        elif is_(w, e, "x_user_defined"):
            e = C(E_["windows_1252"])
        if w.o.eq(e, w.enc):
            return
        w.eff.append(("encoding", e))
    ck.run("change_encoding", "change_encoding", fid(p, "change_encoding"), w, lambda st: [new], spec, desc="any encodings")


SVG_ATTR = ("attributeName attributeType baseFrequency baseProfile calcMode clipPathUnits diffuseConstant edgeMode filterUnits glyphRef gradientTransform gradientUnits kernelMatrix kernelUnitLength keyPoints keySplines keyTimes "
            "lengthAdjust limitingConeAngle markerHeight markerUnits markerWidth maskContentUnits maskUnits numOctaves pathLength patternContentUnits patternTransform patternUnits pointsAtX pointsAtY pointsAtZ preserveAlpha "
            "preserveAspectRatio primitiveUnits refX refY repeatCount repeatDur requiredExtensions requiredFeatures specularConstant specularExponent spreadMethod startOffset stdDeviation stitchTiles surfaceScale systemLanguage "
            "tableValues targetX targetY textLength viewBox viewTarget xChannelSelector yChannelSelector zoomAndPan").split()
FOREIGN_ATTR = {"xlink:actuate": ("XLink", "xlink", "actuate"), "xlink:arcrole": ("XLink", "xlink", "arcrole"), "xlink:href": ("XLink", "xlink", "href"), "xlink:role": ("XLink", "xlink", "role"), "xlink:show": ("XLink", "xlink", "show"),
                "xlink:title": ("XLink", "xlink", "title"), "xlink:type": ("XLink", "xlink", "type"), "xml:lang": ("XML", "xml", "lang"), "xml:space": ("XML", "xml", "space"), "xmlns": ("XMLNS", "", "xmlns"), "xmlns:xlink": ("XMLNS", "xmlns", "xlink")}


QUIRKS = """+//Silmaril//dtd html Pro v0r11 19970101//
-//AS//DTD HTML 3.0 asWedit + extensions//
-//AdvaSoft Ltd//DTD HTML 3.0 asWedit + extensions//
-//IETF//DTD HTML 2.0 Level 1//
-//IETF//DTD HTML 2.0 Level 2//
-//IETF//DTD HTML 2.0 Strict Level 1//
-//IETF//DTD HTML 2.0 Strict Level 2//
-//IETF//DTD HTML 2.0 Strict//
-//IETF//DTD HTML 2.0//
-//IETF//DTD HTML 2.1E//
-//IETF//DTD HTML 3.0//
-//IETF//DTD HTML 3.2 Final//
-//IETF//DTD HTML 3.2//
-//IETF//DTD HTML 3//
-//IETF//DTD HTML Level 0//
-//IETF//DTD HTML Level 1//
-//IETF//DTD HTML Level 2//
-//IETF//DTD HTML Level 3//
-//IETF//DTD HTML Strict Level 0//
-//IETF//DTD HTML Strict Level 1//
-//IETF//DTD HTML Strict Level 2//
-//IETF//DTD HTML Strict Level 3//
-//IETF//DTD HTML Strict//
-//IETF//DTD HTML//
-//Metrius//DTD Metrius Presentational//
-//Microsoft//DTD Internet Explorer 2.0 HTML Strict//
-//Microsoft//DTD Internet Explorer 2.0 HTML//
-//Microsoft//DTD Internet Explorer 2.0 Tables//
-//Microsoft//DTD Internet Explorer 3.0 HTML Strict//
-//Microsoft//DTD Internet Explorer 3.0 HTML//
-//Microsoft//DTD Internet Explorer 3.0 Tables//
-//Netscape Comm. Corp.//DTD HTML//
-//Netscape Comm. Corp.//DTD Strict HTML//
-//O'Reilly and Associates//DTD HTML 2.0//
-//O'Reilly and Associates//DTD HTML Extended 1.0//
-//O'Reilly and Associates//DTD HTML Extended Relaxed 1.0//
-//SQ//DTD HTML 2.0 HoTMetaL + extensions//
-//SoftQuad Software//DTD HoTMetaL PRO 6.0::19990601::extensions to HTML 4.0//
-//SoftQuad//DTD HoTMetaL PRO 4.0::19971010::extensions to HTML 4.0//
-//Spyglass//DTD HTML 2.0 Extended//
-//Sun Microsystems Corp.//DTD HotJava HTML//
-//Sun Microsystems Corp.//DTD HotJava Strict HTML//
-//W3C//DTD HTML 3 1995-03-24//
-//W3C//DTD HTML 3.2 Draft//
-//W3C//DTD HTML 3.2 Final//
-//W3C//DTD HTML 3.2//
-//W3C//DTD HTML 3.2S Draft//
-//W3C//DTD HTML 4.0 Frameset//
-//W3C//DTD HTML 4.0 Transitional//
-//W3C//DTD HTML Experimental 19960712//
-//W3C//DTD HTML Experimental 970421//
-//W3C//DTD W3 HTML//
-//W3O//DTD W3 HTML 3.0//
-//WebTechs//DTD Mozilla HTML 2.0//
-//WebTechs//DTD Mozilla HTML//""".split("\n")
QEXACT = ["-//W3O//DTD W3 HTML Strict 3.0//EN//", "-/W3C/DTD HTML 4.0 Transitional/EN", "HTML"]
QSYS = "http://www.ibm.com/data/dtd/v11/ibmxhtml1-transitional.dtd"
Q401 = ["-//W3C//DTD HTML 4.01 Frameset//", "-//W3C//DTD HTML 4.01 Transitional//"]
LQ = ["-//W3C//DTD XHTML 1.0 Frameset//", "-//W3C//DTD XHTML 1.0 Transitional//"]


def text_of(items):
    if not all(i[0] == "chr" and i[1][0] == "c" for i in items):
        return None
    return "".join(chr(i[1][1]) for i in items)


def tables_hook(I, st, f, fi, o, args, e):
    """the constant tables (their content is C21's): searching for a known key"""
    n = fi["n"]
    if n == "lookup" and o is not None and o[0] in ("ref", "ptr") and str(o[1]).find("quirks_mode_tbl") >= 0:
        a = I.lib.get(I, st, args[0])
        if a[0] != "it" or a[2] != 0 or a[3]:
            raise Unsupported("lookup in the quirks table")
        s = ""
        for i in I.lib.items(st, a[1]):
            if i[0] != "chr" or i[1][0] != "c":
                break
            s += chr(i[1][1])
        l = I.newtmp()
        st.heap[l + ("first",)] = ("qit", int(any(s.startswith(x.lower()) for x in QUIRKS)))
        return [(st, ("ref", l))]
    for t in ("svg_attributes_conversion_tbl", "foreign_attributes_conversion_tbl", "svg_elements_conversion_tbl"):
        if o is not None and o[0] in ("ref", "ptr") and str(o[1]).find(t) >= 0:
            if n in ("end", "cend"):
                return [(st, ("mit", t, None))]
            if n == "find":
                k = I.lib.get(I, st, args[0])
                k = text_of(k[1]) if k is not None and k[0] == "str" else None
                if k is None:
                    raise Unsupported("search in " + t)
                return [(st, ("mit", t, k if k in TABLES[t] else None))]
    ov = o
    if ov is not None and ov[0] in ("ref", "ptr"):
        ov = st.heap.get(ov[1], ov)
    if ov is not None and ov[0] == "qit" and n in ("operator bool", "operator!"):
        return [(st, C(int(bool(ov[1]) == (n == "operator bool"))))]
    if ov is not None and ov[0] == "mit" and n == "operator->":
        if ov[2] is None:
            st.eff = st.eff + (("past-end", ov[1]),)
            return [(st, ("opq", "past-end"))]
        l = I.newtmp()
        v = TABLES[ov[1]][ov[2]]
        st.heap[l + ("first",)] = ("str", S(ov[2]))
        if isinstance(v, str):
            st.heap[l + ("second",)] = ("str", S(v))
        else:
            st.heap[l + ("second", "m_namespace")] = C(nsn(v[0]))
            st.heap[l + ("second", "m_prefix")] = ("str", S(v[1]))
            st.heap[l + ("second", "m_local_name")] = ("str", S(v[2]))
        return [(st, ("ptr", l))]
    if n in ("operator==", "operator!="):
        vs = []
        for x in ([o] if o is not None else []) + list(args):
            if x[0] in ("ref", "ptr"):
                x = st.heap.get(x[1], x)
            vs.append(x)
        if len(vs) == 2 and vs[0][0] == "mit" and vs[1][0] == "mit":
            return [(st, C(int((vs[0] == vs[1]) == (n == "operator=="))))]
    return None


SVG_EL = ("altGlyph altGlyphDef altGlyphItem animateColor animateMotion animateTransform clipPath feBlend feColorMatrix feComponentTransfer feComposite feConvolveMatrix feDiffuseLighting feDisplacementMap feDistantLight "
          "feDropShadow feFlood feFuncA feFuncB feFuncG feFuncR feGaussianBlur feImage feMerge feMergeNode feMorphology feOffset fePointLight feSpecularLighting feSpotLight feTile feTurbulence foreignObject glyphRef "
          "linearGradient radialGradient textPath").split()
TABLES = {"svg_attributes_conversion_tbl": {x.lower(): x for x in SVG_ATTR}, "foreign_attributes_conversion_tbl": FOREIGN_ATTR, "svg_elements_conversion_tbl": {x.lower(): x for x in SVG_EL}}


def adjust(ck, rep, p):
    rep.count("functions", 3)

    def at(n):
        return (C(0), (), S(n), S("v"), C(0))
    for entry, fn, conv in (("vp_adj_math", "adjust_mathml_attributes", lambda n: (C(0), (), S("definitionURL")) if n == "definitionurl" else None),
                            ("vp_adj_svg", "adjust_svg_attributes", lambda n: (C(0), (), S(TABLES["svg_attributes_conversion_tbl"][n])) if n in TABLES["svg_attributes_conversion_tbl"] else None),
                            ("vp_adj_foreign", "adjust_foreign_attributes", lambda n: (C(nsn(FOREIGN_ATTR[n][0])), S(FOREIGN_ATTR[n][1]), S(FOREIGN_ATTR[n][2])) if n in FOREIGN_ATTR else None)):
        names = ["definitionurl", "definitionurls", "a", "definitionURL", "attributename", "xml:base", "xlink:hrefs", "xlink"] + [x.lower() for x in SVG_ATTR] + list(FOREIGN_ATTR)
        for ns_ in [[x] for x in names] + [["a", names[k], names[k + 1]] for k in range(0, len(names) - 1, 7)] + [[]]:
            t = Tok("start", C(tg("G")) if "G" in CONST["tag_name"] else C(tg("Svg")), None, [at(x) for x in ns_])

            def after(I, st, w, val, probs, und, ns_=ns_, t=t):
                want = Tok("start", t.tag, t.name, [(conv(x) or (C(0), (), S(x))) + (S("v"), C(0)) for x in ns_])
                q = []
                tok_cmp(I, st, TOK, want, "token", q, und)
                if q:
                    probs.append("the attributes are not those the standard says")
            ck.run(fn, fn, entry, base(1), lambda st: [t.put(st, TOK)], lambda w: None, desc="attributes %s" % ", ".join(ns_), hooks=[tables_hook], after=after)


def doctypes(ck, rep, p):
    rep.count("functions", 2)
    pubs = [""]
    for x in QUIRKS + QEXACT + Q401 + LQ + ["-//W3C//DTD HTML 4.01//EN", "-//W3C//DTD XHTML 1.1//EN"]:
        pubs += [x, x.lower(), x.upper(), x[:-1], x + "EN", " " + x]
    TAIL = (("chr", sym("any character", 0x80, 0x10FFFF)),)
    syss = ["", QSYS, QSYS.upper(), QSYS[:-1], "http://www.w3.org/TR/html4/loose.dtd"]

    def quirk(pub, sys_, name, force):
        l = pub.lower()
        return bool(force or name != "html" or l in [x.lower() for x in QEXACT] or sys_.lower() == QSYS or any(l.startswith(x.lower()) for x in QUIRKS) or not sys_ and any(l.startswith(x.lower()) for x in Q401))

    def limited(pub, sys_):
        l = pub.lower()
        return any(l.startswith(x.lower()) for x in LQ) or bool(sys_) and any(l.startswith(x.lower()) for x in Q401)
    cases = [(a, "", "html", 0) for a in pubs] + [(a, "x", "html", 0) for a in pubs if "4" in a] + [("", s, "html", 0) for s in syss] + [("", "", n, 0) for n in ("", "htm", "htmlx", "HTML", "xhtml")] + [("", "", "html", 1)]
    for pub, sys_, name, force in cases:
        for tail in (0, 1):
            t = Tok("doctype", m_name=S(name), m_public_identifier=S(pub) + (TAIL if tail else ()), m_system_identifier=S(sys_), quirks=C(force))
            d = "DOCTYPE %s PUBLIC '%s' '%s'%s" % (name, pub + ("<any>" if tail else ""), sys_, " force-quirks" if force else "")
            if tail:
                w_q = quirk(pub + "\uFFFD", sys_, name, force)
                w_l = limited(pub + "\uFFFD", sys_)
            else:
                w_q, w_l = quirk(pub, sys_, name, force), limited(pub, sys_)
            if tail and not (pub in QUIRKS or pub in Q401 or pub in LQ or pub in QEXACT):
                continue
            ck.run("in_quirks_condition", "in_quirks_condition", "vp_quirks", base(1), lambda st: [t.put(st, TOK)], lambda w: w_q, ret="bool", desc=d, hooks=[tables_hook])
            ck.run("in_limited_quirks_condition", "in_limited_quirks_condition", "vp_limited", base(1), lambda st: [t.put(st, TOK)], lambda w: w_l, ret="bool", desc=d, hooks=[tables_hook])


def handler_hook(I, st, f, fi, o, args, e):
    n = fi["n"]
    if (n.startswith("on_") and n.endswith("_insertion_mode") or n == "on_foreign_content") and "tree_construction_dispatcher" in fi["q"]:
        st.eff = st.eff + (("handler", n[3:].replace("_insertion_mode", "")),)
        return [(st, ("void",))]
    return None


ENTRY = {"start": "vp_start", "end": "vp_end", "char": "vp_char", "comment": "vp_ctoken", "doctype": "vp_doctype", "eof": "vp_eof"}


def dispatch(ck, rep, p):
    """which rules a token is handed to"""
    rep.count("functions", 2)
    tt = tsearch()
    ch = sym("character", 0, 0x10FFFF)
    toks = [Tok("start", tt), Tok("start", tt, selfclosing=1), Tok("end", tt), Tok("char", data=ch), Tok("comment", data=S("x")), Tok("doctype", m_name=S("html")), Tok("eof")]

    def after(I, st, w, val, probs, und):
        g = [x[1] for x in st.eff if x[0] == "handler"]
        if g != [val] and not (val is None and not g):
            probs.append("the token goes to %s, the standard says %s" % (" and ".join(g) or "nowhere", val or "nowhere"))

    def run(w, t, n, what):
        def spec(w):
            if t.kind == "char" and w.omit_lf:
                w.omit_lf = 0
                if w.o.isin(t.data, (10, 10)):
                    return None
            w.omit_lf = 0
            mode = next(k for k, v in CONST["mode"].items() if v == w.mode)
            if not w.stack:
                return mode
            a = w.context if w.fragment and len(w.stack) == 1 else w.stack[-1]
            i = a[0]
            if w.html(i):
                return mode
            mt = lambda: w.is_(i, "MathML", "Mi", "Mo", "Mn", "Ms", "Mtext")
            enc = any(text_of(x[2]) == "encoding" and text_of(x[3]).lower() in ("text/html", "application/xhtml+xml") for x in a[1].attrs)
            hi = lambda: w.is_(i, "SVG", "ForeignObject", "Desc", "Title") or enc and w.is_(i, "MathML", "Annotation_xml")
            if t.kind == "start" and (mt() and not w.o.isin(tt, (tg("Mglyph"),) * 2, (tg("Malignmark"),) * 2) or w.is_(i, "MathML", "Annotation_xml") and w.o.isin(tt, (tg("Svg"),) * 2) or hi()):
                return mode
            if t.kind == "char" and (mt() or hi()) or t.kind == "eof":
                return mode
            return "foreign_content"
        ck.run("dispatch", "process_token", ENTRY[t.kind], w, lambda st: [t.put(st, TOK)], spec, hooks=[handler_hook], after=after, desc="%s token, %s" % (t.kind, what))
    for t in toks:
        for m in CONST["mode"]:
            for n in (0, 2):
                w = base(n)
                w.mode = md(m)
                run(w, t, n, "mode %s, stack of %d" % (m, n))
        for enc in ("text/html", "TEXT/html", "application/xhtml+xml", "text/plain"):
            w = base(2)
            w.stack[1][1] = Tok("start", tag(2), None, [(C(0), (), S("encoding"), S(enc), C(0))])
            run(w, t, 2, "current node with encoding='%s'" % enc)
        for n in (1, 2):
            w = base(n)
            w.fragment = 1
            c = w.add(element(ns(9), sym("tag of the context", 1, max(CONST["tag_name"].values()))), -2)
            w.context = [c, Tok("start", w.dom[c].tag)]
            run(w, t, n, "fragment, stack of %d" % n)
        w = base(2)
        w.omit_lf = 1
        run(w, t, 2, "a next line feed is ignored")
    for n in (1, 2):
        w = base(n)
        w.fragment = 1
        c = w.add(element(ns(9), sym("tag of the context", 1, max(CONST["tag_name"].values()))), -2)
        w.context = [c, no_tok()]


def clearing(ck, rep, p):
    """clear() makes the parser as new"""
    rep.count("functions")
    f = fid(p, "clear", 2)
    w = base(2)
    w.list = [None, [2, w.stack[1][1]]]
    w.head, w.form, w.frameset_ok, w.foster, w.scripting, w.omit_lf = 1, 2, 0, 1, 1, 1
    w.tstack = [md("in_table")]
    w.pending = [C(32)]
    w.orig = md("in_body")
    new, cf = sym("new encoding", 1, 10), sym("confidence", 0, 2)

    def spec(w):
        w.stack, w.list, w.tstack, w.pending = [], [], [], []
        w.head = w.form = -1
        w.frameset_ok, w.foster, w.scripting, w.omit_lf = 1, 0, 0, 0
        w.mode, w.orig, w.conf, w.enc = md("initial"), None, cf, new

    def after(I, st, w, val, probs, und):
        if teq(st, I.lib.get(I, st, ("ref", A + ("m_encoding_name",))), new) is not True:
            probs.append("the encoding is not the given one")
    ck.run("clear", "clear", f, w, lambda st: [cf, new], spec, ignore=("state",), after=after, desc="a used parser")
