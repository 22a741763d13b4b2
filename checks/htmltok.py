"""Extracts the transition relation of the HTML tokenizer and compares it with the standard's."""
import os
from common import *
from iset import ISet, CP, EMPTY
from absint import Interp, St, sym, C, add, sub, is_int, scale, wrap, tinfo, ZERO
from lib import Lib, slen

ROOT = ("this",)
TOK = "wordring::whatwg::html::parsing::tokenizer<"
STREAM = "wordring::whatwg::html::parsing::input_stream<"
WS = ISet.of(9, 0xA, 0xC, 0x20)
UP, LO, DG = ISet.of((0x41, 0x5A)), ISet.of((0x61, 0x7A)), ISet.of((0x30, 0x39))
CLS = {"ws": WS, "upper": UP, "lower": LO, "alpha": UP | LO, "digit": DG, "alnum": UP | LO | DG,
       "hex": DG | ISet.of((0x41, 0x46), (0x61, 0x66)), "uhex": ISet.of((0x41, 0x46)), "lhex": ISet.of((0x61, 0x66)),
       "NUL": ISet.of(0), "dq": ISet.of(0x22), "sq": ISet.of(0x27)}
ALL = ISet(((0, 0xFFFFFFFF),))
DOCF = ("m_name", "m_public_identifier", "m_system_identifier", "m_force_quirks_flag")
U32S = "R:std::basic_string<char32_t>"
FIELDS = {
    "tmp": (ROOT + ("m_temporary_buffer",), U32S),
    "ret": (ROOT + ("m_return_state",), "mp"),
    "code": (ROOT + ("m_character_reference_code",), "u32"),
    "last": (ROOT + ("m_last_start_tag_name",), U32S),
    "com": (ROOT + ("m_comment_token", "m_data"), U32S),
    "dname": (ROOT + ("m_DOCTYPE_token", "m_name"), U32S),
    "pub": (ROOT + ("m_DOCTYPE_token", "m_public_identifier"), U32S),
    "sys": (ROOT + ("m_DOCTYPE_token", "m_system_identifier"), U32S),
    "quirks": (ROOT + ("m_DOCTYPE_token", "m_force_quirks_flag"), "b1"),
    "id": (ROOT + ("m_current_tag_token_id",), "u32"),
}
for n, k in (("m_start_tag_token", "2"), ("m_end_tag_token", "3")):
    FIELDS["name" + k] = (ROOT + (n, "m_tag_name"), U32S)
    FIELDS["sc" + k] = (ROOT + (n, "m_self_closing_flag"), "b1")
    FIELDS["ack" + k] = (ROOT + (n, "m_acknowledged_self_closing_flag"), "b1")
    FIELDS["aname" + k] = (("attr", n, "m_name"), U32S)
    FIELDS["aval" + k] = (("attr", n, "m_value"), U32S)
    FIELDS["na" + k] = (("attrs", n), "u32")
STATE = ROOT + ("m_state",)


def fget(I, st, f):
    loc, t = FIELDS[f]
    v = I.load(st, loc, t)
    if v[0] == "str":
        v = I.lib.norm(st, v)
    return v


def snapshot(I, st):
    return {f: fget(I, st, f) for f in FIELDS}


class Tok:
    def __init__(self, prog):
        self.p = prog
        self.I = Interp(prog, Lib())
        self.I.hooks.append(self.hook)
        self.tables = {}
        self.state_of = {}
        self.fn_of = {}
        for q, g in prog.globals.items():
            if q.startswith(TOK) and q.endswith("_state") and g.get("init") and g["init"].get("k") == "Un" and g["init"]["e"].get("k") == "Fn":
                nm = q.rsplit("::", 1)[1][:-6]
                self.fn_of[nm] = g["init"]["e"]["f"]
        for nm, f in self.fn_of.items():
            self.state_of.setdefault(f, nm)

    def sname(self, v):
        if v[0] == "mfn":
            return self.state_of.get(v[1], "?")
        if v == ("opq", ROOT + ("m_return_state",)):
            return "RET"
        if v == ("opq", STATE):
            return "same"
        return repr(v)

    # ------------------------------------------------------------------ hooks
    def hook(self, I, st, f, fi, o, args, e):
        q, n = fi["q"], fi["n"]
        if n == "(*)":
            self.dispatch(I, st, "dispatch")
            return [(st, ("void",))]
        if f in self.state_of:
            # running a state function: through the state pointer, or directly when it is the current state (or never reads it)
            cur = I.load(st, STATE, "mp")
            if self.state_of[f] == "numeric_character_reference_end":
                st.heap[STATE] = ("mfn", f)
            elif cur != ("mfn", f):
                st.heap[STATE] = ("opq", ("runs", self.state_of[f], "while in", self.sname(cur)))
            self.dispatch(I, st, "dispatch")
            return [(st, ("void",))]
        if q.startswith(STREAM):
            return self.stream(I, st, n, fi, args, e)
        if n == "on_emit_token":
            return self.emit(I, st, fi, args, e)
        cls = fi.get("cls", "")
        if cls.endswith("::token_attribute_list"):
            loc = I.obj_loc(st, o)
            tok = loc[1] if loc[:1] == ROOT else repr(loc)
            if n == "create":
                k = "2" if tok == "m_start_tag_token" else "3"
                I.load(st, ("attrs", tok), "u32")
                st.heap[("attrs", tok)] = add(st.heap[("attrs", tok)], C(1))
                for fld in ("m_name", "m_value"):
                    st.heap[("attr", tok, fld)] = ("str", ())
                st.heap[("attr", tok, "m_omitted")] = C(0)
                return [(st, ("ref", ("attr", tok)))]
            if n == "current":
                return [(st, ("ref", ("attr", tok)))]
            if n == "clear":
                st.heap[("attrs", tok)] = C(0)
                return [(st, ("void",))]
        if n == "unify_attribute":
            st.eff += (("unify",),)
            return [(st, ("void",))]
        if n == "in_html_namespace":
            return [(st, ("call", ("inhtml",), 0, 1))]
        # lookups in constant maps
        if cls.startswith(("R:std::unordered_map<", "R:std::map<", "C:std::unordered_map<")) or n in ("operator==", "operator!=") and len(args) == 2:
            return self.maps(I, st, n, fi, o, args, e)
        if n == "operator->" and o is not None:
            v = I.lib.get(I, st, o)
            if v[0] == "mapit1":
                l = I.newtmp()
                st.heap[l + ("second",)] = v[1]
                return [(st, ("ptr", l))]
            if v[0] == "mapit":
                l = I.newtmp()
                st.heap[l + ("second",)] = ("call", ("mapval", v[1], v[2]), 0, 0xFFFFFFFF)
                return [(st, ("ptr", l))]
        return None

    def maps(self, I, st, n, fi, o, args, e):
        if n in ("operator==", "operator!="):
            a, b = (I.lib.get(I, st, x) for x in args)
            if a[0] == "mapend":
                a, b = b, a
            if a[0] in ("mapit1", "mapend") and b[0] == "mapend":
                return [(st, C(int((a[0] == "mapend") == (n == "operator=="))))]
            if a[0] == "mapit" and b[0] == "mapend":
                out = []
                for s, t in I.branch(st, ("call", ("maphas", a[1], a[2]), 0, 1)):
                    out.append((s, C(int(t == (n == "operator!=")))))
                return out
            return None
        if o is None or o[0] != "ref":
            return None
        tbl = self.tables.get(o[1][1]) if o[1][0] == "g" else None
        if tbl is not None and n in ("find", "count", "contains", "at", "operator[]"):
            k = I.lib.get(I, st, args[0])
            if k is not None and k[0] == "ref":
                k = I.load(st, k[1], "u32")
            if is_int(k):
                out = []
                none = st.fork()
                for key, v in tbl.items():
                    s = st.fork()
                    if s.restrict(k, ISet.of(key)):
                        out.append((s, ("mapit1", C(v)) if n == "find" else C(1) if n in ("count", "contains") else C(v)))
                if none.restrict(k, ISet(((-(1 << 70), 1 << 70),)) - ISet.of(*tbl)):
                    if n in ("at", "operator[]"):
                        none.meta["dead"] = ("throw", "at")
                    out.append((none, ("mapend", o[1]) if n == "find" else C(0)))
                return out
        if n == "find":
            k = I.lib.get(I, st, args[0])
            if k is not None and k[0] == "ref":
                k = I.load(st, k[1], U32S)
            return [(st, ("mapit", o[1][1] if o[1][0] == "g" else o[1], k))]
        if n in ("end", "cend"):
            return [(st, ("mapend", o[1]))]
        return None

    def dispatch(self, I, st, kind):
        cur = I.load(st, STATE, "mp")
        if "disp" not in st.meta:
            st.meta["disp"] = (cur, snapshot(I, st), len(st.eff))
        st.eff += ((kind, cur),)
        st.heap[STATE] = ("opq", "after-dispatch")

    def stream(self, I, st, n, fi, args, e):
        if n == "consume":
            if args:
                k = I.lib.get(I, st, args[0])
                st.meta["taken"] = add(st.meta.get("taken", C(0)), k)
                return [(st, ("void",))]
            if "bufmode" in st.meta:
                # a state that decides on the buffered characters: consuming moves over them
                k = st.meta.get("taken", C(0))
                st.meta["taken"] = add(k, C(1))
                return [(st, I.lib.cur_read(I, st, ("cur", "buf", k)))]
            i = st.meta.get("cons", 0)
            st.meta["cons"] = i + 1
            if st.meta.get("atstart_eof") is False:
                pass
            a, b = st.fork(), st
            a.meta["eof"] = True
            a.meta["eof%d" % i] = True
            b.meta["eof"] = False
            b.meta["eof%d" % i] = False
            v = sym("cp" if i == 0 else "cp%d" % i, 0, 0xFFFFFFFF)
            b.meta["cur"] = v
            return [(a, C(0)), (b, v)]
        if n == "reconsume":
            st.meta["push"] = st.meta.get("push", 0) + 1
            st.meta["eof"] = False
            return [(st, ("void",))]
        if n == "eof":
            return [(st, C(int(bool(st.meta.get("eof")))))]
        if n == "current_input_character":
            return [(st, st.meta.get("cur", sym("cur")))]
        if n == "next_input_character":
            return [(st, I.lib.cur_read(I, st, ("cur", "buf", st.meta.get("taken", C(0)))))]
        if n == "report_error":
            v = I.lib.get(I, st, args[0]) if args else C(0)
            st.eff += (("err", v),)
            return [(st, ("void",))]
        if n == "fill":
            k = I.lib.get(I, st, args[0])
            st.meta["fill"] = k
            a = st.fork()
            a.meta["filled"] = False
            st.meta["filled"] = True
            return [(a, C(0)), (st, C(1))]
        if n == "match":
            lab = I.lib.sval(I, st, args[0])
            w = [I.lib.get(I, st, x) for x in args[1:]]
            return [(st, ("call", ("match", lab, w[0], w[1]), 0, 1))]
        if n == "flush_code_point":
            self.dispatch(I, st, "flush")
            return [(st, ("void",))]
        if n == "match_named_character_reference":
            ln = C(st.meta.get("bufmode", 0))
            if args and args[0][0] == "ref":
                st.heap[args[0][1]] = ln
            return [(st, ("str", (("chr", sym("ref0")), ("chr", sym("ref1")))))]
        if n == "begin":
            return [(st, ("cur", "buf", st.meta.get("taken", C(0))))]
        if n == "end":
            return [(st, ("end", "buf"))]
        if n in ("named_character_reference", "emit_code_point", "push_code_point", "push_eof"):
            st.eff += (("stream", n),)
            return [(st, ("opq", n))]
        return None

    def emit(self, I, st, fi, args, e):
        t = fi["pt"][0].rsplit("::", 1)[1]
        loc = args[0][1] if args[0][0] == "ref" else None
        if loc in st.heap and st.heap[loc][0] == "bindref":
            loc = st.heap[loc][1]
        if t == "character_token":
            st.eff += (("ch", I.load(st, loc + ("m_data",), "u32")),)
        elif t == "end_of_file_token":
            st.eff += (("eof",),)
        elif t == "comment_token":
            st.eff += (("comment", I.lib.norm(st, I.load(st, loc + ("m_data",), U32S))),)
        elif t == "DOCTYPE_token":
            st.eff += (("doctype",) + tuple(I.lib.norm(st, v) if v[0] == "str" else v for v in (I.load(st, loc + (x,), U32S if i < 3 else "b1") for i, x in enumerate(DOCF))),)
        else:
            k = "2" if t == "start_tag_token" else "3"
            tok = "m_start_tag_token" if k == "2" else "m_end_tag_token"
            ident = loc == ROOT + (tok,)
            snap = tuple(fget(I, st, x + k) for x in ("name", "sc", "aname", "aval", "na"))
            st.eff += (("tag", k if ident else repr(loc), I.load(st, STATE, "mp"), snap, I.load(st, ROOT + (tok, "m_tag_name_id"), "u32"), fget(I, st, "id")),)
            st.heap[STATE] = ("opq", "after-tag")
        return [(st, ("void",))]

    # ------------------------------------------------------------------ run
    def paths(self, state, st=None):
        f = self.fn_of.get(state)
        if f is None:
            raise Broken("tokenizer state %s not found" % state)
        st = st or St()
        idv = self.I.load(st, FIELDS["id"][0], "u32")
        st.restrict(idv, ISet.of((2, 3)))
        return self.I.run(f, st, ("ptr", ROOT), [])


# ---------------------------------------------------------------------- the standard
class Spec:
    def __init__(self):
        self.states = {}
        cur = None
        with open(os.path.join(HERE, "html_tok_spec.txt"), encoding="utf-8") as fh:
            for ln in fh:
                ln = ln.rstrip("\n")
                if not ln or ln.startswith("##"):
                    continue
                if ln.startswith("S "):
                    cur = {"name": ln[2:].strip(), "rules": [], "wait": None}
                    self.states[cur["name"]] = cur
                    continue
                if ln.startswith("WAIT"):
                    cur["wait"] = int(ln.split()[1])
                    continue
                left, acts = ln.split(" : ", 1)
                conds = ()
                if " ? " in left:
                    left, c = left.split(" ? ")
                    conds = tuple(c.split())
                toks = left.split()
                S, eof, at = EMPTY, False, False
                for t in toks:
                    if t == "EOF":
                        eof = True
                    elif t == "*":
                        S = ALL
                    elif t == "any":
                        S, eof = ALL, True
                    elif t == "@":
                        at = True
                    else:
                        S = S | (CLS[t] if t in CLS else ISet.of(ord(t)))
                cur["rules"].append({"S": S, "eof": eof, "at": at, "conds": conds, "acts": [a.strip() for a in acts.split(" ; ")], "text": left + (" ? " + " ".join(conds) if conds else "")})


def cond_split(T, st, c):
    """splits st on a spec condition, evaluated on the entry state"""
    I = T.I
    ini = lambda f: I.default(St(), *FIELDS[f])
    if c == "appropriate":
        last, nm = ini("last"), ini("name3")
        out = []
        for s, e0 in [(s, bool(v[1])) for s, v in I.compare(st, "==", I.lib.length(I.lib.norm(st, last)), C(0))]:
            if e0:
                out.append((s, False))
            else:
                out += I.lib.streq(I, s, I.lib.norm(s, last), I.lib.norm(s, nm))
        return out
    if c == "tmp_is_script":
        return I.lib.streq(I, st, I.lib.norm(st, ini("tmp")), ("str", tuple(("chr", C(ord(x))) for x in "script")))
    if c == "in_attribute":
        return in_attribute(T, st)
    if c == "foreign":
        out = []
        ln = slen(ROOT + ("m_stack",))
        for s, v in I.compare(st, "==", ln, C(0)):
            if v[1]:
                out.append((s, False))
            else:
                out += [(s2, not b) for s2, b in I.branch(s, ("call", ("inhtml",), 0, 1))]
        return out
    m = c.split("(")[0]
    lab = c[len(m) + 1:-1]
    a = ("call", ("match", ("str", tuple(("chr", C(ord(x))) for x in lab)), C(int(m[0] == "c")), C(int(m.endswith("i")))), 0, 1)
    return I.branch(st, a)


def in_attribute(T, st):
    I = T.I
    ret = ("opq", FIELDS["ret"][0])
    out, work = [], [st]
    for nm in ("attribute_value_double_quoted", "attribute_value_single_quoted", "attribute_value_unquoted"):
        nxt = []
        for s in work:
            for s2, v in I.compare(s, "==", ret, ("mfn", T.fn_of[nm])):
                (out.append((s2, True)) if v[1] else nxt.append(s2))
        work = nxt
    return out + [(s, False) for s in work]


class Expect:
    """expected observable outcome of one rule under the constraints of a path"""

    def __init__(self, T, st):
        self.T, self.st = T, st
        self.f = {k: T.I.default(St(), *FIELDS[k]) for k in FIELDS}
        for k, v in self.f.items():
            if v[0] == "str":
                self.f[k] = T.I.lib.norm(st, v)
        self.eff = []
        self.errs = []
        self.state = ("opq", STATE)
        self.cons, self.push, self.taken = 1, 0, C(0)
        self.disp = None
        self.flush = False
        self.unify = None


def apply(T, ex, acts, cp):
    """applies actions; may split the state: returns list of Expect"""
    I = T.I
    res = [ex]
    for a in acts:
        nxt = []
        for x in res:
            nxt += apply1(T, x, a, cp)
        res = nxt
    return res


def val(s, cp):
    if s == "cp":
        return cp
    if s == "low":
        return add(cp, C(0x20))
    if s == "FFFD":
        return C(0xFFFD)
    return C(ord(s))


def apply1(T, x, a, cp):
    import copy
    I = T.I
    if a == "nop":
        return [x]
    if a.startswith("err "):
        x.errs.append(a[4:])
        return [x]
    if a[:2] in ("->", "=>", "!>"):
        nm = a[2:]
        v = x.f["ret"] if nm == "RET" else ("mfn", T.fn_of[nm])
        x.state = v
        if a[:2] == "=>":
            x.push += 1
            x.disp = v
        if a[:2] == "!>":
            x.disp = v
        return [x]
    if a == "flush":
        x.flush = True
        return [x]
    if a.startswith("take "):
        x.taken = C(int(a[5:]))
        return [x]
    if a in ("unify", "maybe_unify"):
        x.unify = a
        return [x]
    if a in ("selfclosing", "new attr", "emit tag") or a.split("+")[0] in ("name", "aname", "aval") or a.startswith("aname="):
        out = []
        for k in ("2", "3"):
            if x.f["id"] == C(int(k)):
                opts = [(x.st, True)]
            elif x.f["id"][0] == "c":
                continue
            else:
                s = x.st.fork()
                if not s.restrict(x.f["id"], ISet.of(int(k))):
                    continue
                opts = [(s, True)]
            for s, _ in opts:
                y = copy.copy(x)
                y.f, y.eff, y.errs, y.st = dict(x.f), list(x.eff), list(x.errs), s
                if a == "selfclosing":
                    y.f["sc" + k] = C(1)
                elif a == "new attr":
                    y.f["na" + k] = add(y.f["na" + k], C(1))
                    y.f["aname" + k] = y.f["aval" + k] = ("str", ())
                elif a == "emit tag":
                    snap = tuple(y.f[z + k] for z in ("name", "sc", "aname", "aval", "na"))
                    y.eff.append(("tag", k, y.state, snap))
                    if k == "2":
                        y.f["last"] = y.f["name2"]
                    y.state = ("opq", "after-tag")
                elif a.startswith("aname="):
                    y.f["aname" + k] = ("str", (("chr", val(a[6:], cp)),))
                else:
                    f, w = a.split("+", 1)
                    y.f[f + k] = ("str", y.f[f + k][1] + (("chr", val(w, cp)),))
                out.append(y)
        return out
    if a == "flushref":
        out = []
        for s, inatt in in_attribute(T, x.st):
            y = copy.copy(x)
            y.f, y.eff, y.errs, y.st = dict(x.f), list(x.eff), list(x.errs), s
            if inatt:
                for k in ("2", "3"):
                    s2 = s.fork()
                    if not s2.restrict(x.f["id"], ISet.of(int(k))):
                        continue
                    z = copy.copy(y)
                    z.f, z.eff, z.errs, z.st = dict(y.f), list(y.eff), list(y.errs), s2
                    z.f["aval" + k] = ("str", z.f["aval" + k][1] + z.f["tmp"][1])
                    out.append(z)
            else:
                emit_str(T, y, y.f["tmp"])
                out.append(y)
        return out
    if a.startswith("emit "):
        w = a[5:]
        if w == "eof":
            x.eff.append(("eof",))
        elif w == "comment":
            x.eff.append(("comment", x.f["com"]))
        elif w == "doctype":
            x.eff.append(("doctype", x.f["dname"], x.f["pub"], x.f["sys"], x.f["quirks"]))
        elif w == "tmp":
            emit_str(T, x, x.f["tmp"])
        else:
            x.eff.append(("ch", val(w, cp)))
        return [x]
    if a in ("new start", "new end"):
        k = "2" if a == "new start" else "3"
        x.f["id"] = C(int(k))
        x.f["name" + k] = ("str", ())
        x.f["sc" + k] = C(0)
        x.f["ack" + k] = C(0)
        x.f["na" + k] = C(0)
        return [x]
    if a == "new comment":
        x.f["com"] = ("str", ())
        return [x]
    if a == "new doctype":
        for f in ("dname", "pub", "sys"):
            x.f[f] = ("str", ())
        x.f["quirks"] = C(0)
        return [x]
    if a == "quirks":
        x.f["quirks"] = C(1)
        return [x]
    if a.startswith("ret="):
        x.f["ret"] = ("mfn", T.fn_of[a[4:]])
        return [x]
    if a.startswith("code="):
        x.f["code"] = C(int(a[5:]))
        return [x]
    if a.startswith("code*"):
        m, b = a[5:].split("+")
        out = []
        for lo, hi in ((0, 0x10FFFF), (0x110000, 0xFFFFFFFF)):
            s = x.st.fork()
            if not s.restrict(x.f["code"], ISet.of((lo, hi))):
                continue
            y = copy.copy(x)
            y.f, y.eff, y.errs, y.st = dict(x.f), list(x.eff), list(x.errs), s
            # above the last code point only the fact of being out of range is observable
            y.f["code"] = add(scale(x.f["code"], int(m)), sub(cp, C(int(b, 16)))) if lo == 0 else ("gt", 0x10FFFF)
            out.append(y)
        return out
    for f in ("tmp", "com", "dname", "pub", "sys"):
        if a.startswith(f + "="):
            x.f[f] = ("str", tuple(("chr", C(ord(c))) for c in a[len(f) + 1:]))
            return [x]
        if a.startswith(f + "+"):
            x.f[f] = ("str", x.f[f][1] + (("chr", val(a[len(f) + 1:], cp)),))
            return [x]
    raise Broken("spec action " + a)


def emit_str(T, x, v):
    for it in v[1]:
        if it[0] == "chr":
            x.eff.append(("ch", it[1]))
        else:
            x.eff.append(("each", it[1], (("ch", T.I.lib.elem_val(T.I, x.st, it)),)))


def same(st, a, b):
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if is_int(a) and is_int(b):
            r = st.rng(sub(a, b))
            return r == ZERO
        if len(a) == len(b):
            return all(same(st, x, y) for x, y in zip(a, b))
    return False


def flat(eff):
    """effects without marks; returns (emissions, errors, unify, tail)"""
    em, er, un, tail = [], [], [], []
    for x in eff:
        if x[0] == "mark":
            continue
        if x[0] == "err":
            er.append(x[1])
        elif x[0] == "unify":
            un.append(x)
        elif x[0] in ("dispatch", "flush"):
            tail.append(x)
        elif x[0] == "each":
            b = tuple(y for y in x[2] if y[0] != "mark")
            e2 = [y for y in b if y[0] == "err"]
            em.append(("each", x[1], tuple(y for y in b if y[0] != "err")))
            er += [y[1] for y in e2]
        else:
            em.append(x)
    return em, er, un, tail


def show(T, v):
    if isinstance(v, tuple):
        if v and v[0] == "c":
            return "U+%04X" % v[1] if v[1] >= 0 else str(v[1])
        if v and v[0] == "mfn":
            return T.sname(v)
        if v and v[0] == "s":
            return str(v[1])
        if v and v[0] == "str":
            return "[" + " ".join(show(T, i[1]) if i[0] == "chr" else "<" + "/".join(map(str, i[1] if isinstance(i[1], tuple) else (i[1],))) + ">" for i in v[1]) + "]"
        if v and v[0] == "opq" and v[1] == STATE:
            return "unchanged"
        return "(" + " ".join(show(T, x) for x in v) + ")"
    return str(v)


def compare_path(T, path, x):
    """list of differences between a code path and the expected outcome"""
    I = T.I
    st = x.st
    d = []
    meta = path.st.meta
    em, er, un, tail = flat(path.st.eff)
    if meta.get("cons", 0) != x.cons or meta.get("push", 0) != x.push or not same(st, meta.get("taken", C(0)), x.taken):
        d.append(("input", "consumes %d, pushes back %d, takes %s; the standard: %d, %d, %s" % (meta.get("cons", 0), meta.get("push", 0), show(T, meta.get("taken", C(0))), x.cons, x.push, show(T, x.taken))))
    final = path.st.heap.get(STATE, ("opq", STATE))
    snap = snapshot(I, path.st)
    if "disp" in meta:
        cur, dsnap, n = meta["disp"]
        if x.disp is None and not x.flush:
            d.append(("dispatch", "runs state %s although the standard waits for the next character" % T.sname(cur)))
        elif x.disp is not None and (tail[0][0] != "dispatch" or not same(st, cur, x.disp)):
            d.append(("state>" + T.sname(cur), "continues in state %s; the standard: %s" % (T.sname(cur), T.sname(x.disp))))
        elif x.disp is None and not same(st, cur, x.state):
            d.append(("state>" + T.sname(cur), "continues in state %s; the standard: %s" % (T.sname(cur), T.sname(x.state))))
        if snap != dsnap or [e for e in path.st.eff[n:] if e[0] not in ("dispatch", "flush", "mark")]:
            d.append(("order", "changes tokenizer state after the next state has already run"))
        if final != ("opq", "after-dispatch"):
            d.append(("order", "overwrites the state after the next state has already run"))
        if len(tail) > (1 if x.disp is not None else 0) + (1 if x.flush else 0):
            d.append(("dispatch", "runs the next state more than once"))
        if x.flush and tail[-1][0] != "flush":
            d.append(("flush", "leaves buffered characters unprocessed"))
    else:
        if x.disp is not None or x.flush:
            d.append(("dispatch", "does not run state %s, which must act without waiting for another character" % T.sname(x.disp or x.state)))
        if not same(st, final, x.state):
            d.append(("state>" + T.sname(final), "next state %s; the standard: %s" % (T.sname(final), T.sname(x.state))))
    # emissions
    want = x.eff
    got = []
    for e in em:
        if e[0] == "tag":
            got.append(e[:4])
            tid, nm = e[4], e[3][0]
            hit = ("call", ("mapval", "wordring::whatwg::html::parsing::tag_atom_tbl", nm), 0, 0xFFFFFFFF)
            ok = False
            if tid == C(0):
                r = path.st.rng(("call", ("maphas", "wordring::whatwg::html::parsing::tag_atom_tbl", nm), 0, 1))
                ok = r == ZERO
            else:
                ok = tid[0] == "call" and tid[1][0] == "mapval" and tid[1][2] == nm
            if not ok:
                d.append(("tag-id", "emits a tag whose id is not the one of its name (%s)" % show(T, tid)))
        else:
            got.append(e)
    if len(got) != len(want) or not all(same(st, g, w) for g, w in zip(got, want)):
        d.append(("tokens", "emits %s; the standard: %s" % ([show(T, g) for g in got], [show(T, w) for w in want])))
    for f in FIELDS:
        if x.f[f][0] == "gt" and is_int(snap[f]):
            r = st.rng(snap[f])
            if r and r.min() > x.f[f][1]:
                continue
        if not same(st, snap[f], x.f[f]):
            d.append(("field:" + f, "%s becomes %s; the standard: %s" % ("/".join(map(str, FIELDS[f][0][1:])), show(T, snap[f]), show(T, x.f[f]))))
    if x.unify == "unify" and not un:
        d.append(("unify", "leaves the attribute name without comparing it with the earlier ones"))
    if x.unify is None and un:
        d.append(("unify", "compares attribute names where the standard does not"))
    return d, er


def check_state(T, spec, rep, errs=None):
    name = spec["name"]
    I = T.I
    paths = T.paths(name)
    where = T.p.where(T.fn_of[name])
    rep.count("states")
    n = 0
    for p in paths:
        rep.count("paths")
        if p.kind != "ret":
            r = p.st.rng(sym("cp"))
            if p.kind == "abort" and abort_excused(T, p):
                continue
            rep.fail("%s:abort" % name, "%s: state %s aborts on input %s" % (where, name, r))
            continue
        if opaque(p.st.eff):
            rep.undecided("%s:%s" % (name, opaque(p.st.eff)), "unmodelled operation " + opaque(p.st.eff))
            continue
        meta = p.st.meta
        if meta.get("filled") is False:
            if spec["wait"] is None:
                rep.fail("%s:wait" % name, "%s: state %s waits for more input although the standard does not look ahead" % (where, name))
                continue
            x = Expect(T, p.st)
            x.cons = 0
            d, er = compare_path(T, p, x)
            rep.ok() if not d else rep.fail("%s:wait:%s" % (name, d[0][0]), "%s: state %s, while waiting for input: %s" % (where, name, d[0][1]))
            continue
        if spec["wait"] is not None and (("fill" not in meta) or p.st.rng(meta["fill"]).min() < spec["wait"]):
            rep.fail("%s:lookahead" % name, "%s: state %s decides with fewer than the %d characters the standard compares" % (where, name, spec["wait"]))
            continue
        eof = meta.get("eof0", None)
        cp = sym("cp", 0, 0xFFFFFFFF)
        work = [p.st.fork()]
        for rule in spec["rules"]:
            hits = []
            rest = []
            for s in work:
                if rule["at"]:
                    g = [(s, True)]
                elif eof is None:
                    # decided without looking at the input: every input is possible
                    g = [(s, True)] if False else split_in(I, s, cp, rule)
                elif eof:
                    g = [(s, rule["eof"])]
                else:
                    g = split_in(I, s, cp, rule)
                for s2, b in g:
                    if not b:
                        rest.append(s2)
                        continue
                    cur = [(s2, True)]
                    for c in rule["conds"]:
                        nx = []
                        for s3, ok in cur:
                            if not ok:
                                nx.append((s3, False))
                            else:
                                nx += cond_split(T, s3, c)
                        cur = nx
                    for s3, ok in cur:
                        (hits if ok else rest).append(s3)
            work = rest
            for s in hits:
                x = Expect(T, s)
                if rule["at"]:
                    x.cons = 0
                for y in apply(T, x, rule["acts"], cp):
                    d, er = compare_path(T, p, y)
                    n += 1
                    what = "EOF" if eof else str(y.st.rng(cp))
                    if not d:
                        rep.ok("%s: %s on %s [%s] -> %s" % (where, name, rule["text"], what[:60], "; ".join(rule["acts"])) if n % 9 == 1 else None)
                    for k, t in d:
                        rep.fail("%s:%s:%s" % (name, rule["text"].strip(), k), "%s: state %s on input %s (rule '%s'): %s" % (where, name, what[:80], rule["text"], t))
                    if errs is not None:
                        errs(name, where, rule, what, y, er)
    rep.count("obligations", n)


def abort_excused(T, p):
    """current_tag_token() with no current tag, is_appropriate_end_tag_token() outside an end tag: excluded by the entry invariant"""
    idv = T.I.default(St(), *FIELDS["id"])
    cur = p.st.heap.get(FIELDS["id"][0], idv)
    return True if cur == idv and p.st.rng(idv) == ISet.of(2) else False


def split_in(I, s, cp, rule):
    out = []
    a = s.fork()
    if rule["S"] and a.restrict(cp, rule["S"]):
        out.append((a, True))
    b = s.fork()
    if b.restrict(cp, ALL - rule["S"] if rule["S"] else ALL):
        out.append((b, False))
    return out


# ---------------------------------------------------------------------- the two states that are not character driven
NUMERIC = {0x80: 0x20AC, 0x82: 0x201A, 0x83: 0x192, 0x84: 0x201E, 0x85: 0x2026, 0x86: 0x2020, 0x87: 0x2021, 0x88: 0x2C6, 0x89: 0x2030,
           0x8A: 0x160, 0x8B: 0x2039, 0x8C: 0x152, 0x8E: 0x17D, 0x91: 0x2018, 0x92: 0x2019, 0x93: 0x201C, 0x94: 0x201D, 0x95: 0x2022,
           0x96: 0x2013, 0x97: 0x2014, 0x98: 0x2DC, 0x99: 0x2122, 0x9A: 0x161, 0x9B: 0x203A, 0x9C: 0x153, 0x9E: 0x17E, 0x9F: 0x178}


def opaque(eff):
    """the first operation on a path that the abstraction does not model"""
    for x in eff:
        if x[0] == "opaque":
            return x[1]
        if x[0] == "each":
            r = opaque(x[2])
            if r:
                return r
    return None


def judge(T, rep, name, where, p, x, acts, case, errs=None, skip=()):
    if opaque(p.st.eff):
        rep.undecided("%s:%s" % (name, case), "unmodelled operation " + opaque(p.st.eff))
        return
    for y in apply(T, x, acts, C(0)):
        d, er = compare_path(T, p, y)
        d = [t for t in d if t[0] not in skip]
        if not d:
            rep.ok()
        for k, t in d:
            rep.fail("%s:%s:%s" % (name, case, k), "%s: state %s, %s: %s" % (where, name, case, t))
        if errs:
            errs(name, where, {"text": case}, case, y, er)


def check_numeric_end(T, rep, errs=None):
    name = "numeric_character_reference_end"
    I = T.I
    where = T.p.where(T.fn_of[name])
    rep.count("states")
    st0 = St()
    code = I.load(st0, *FIELDS["code"])
    st0.heap[STATE] = ("mfn", T.fn_of[name])
    bad = ISet.of(0, (0xD800, 0xDFFF), (0x110000, 0xFFFFFFFF))
    ctl = ISet.of((1, 8), 0xB, (0xD, 0x1F), (0x7F, 0x9F))
    nonch = ISet.of((0xFDD0, 0xFDEF), *[(p * 0x10000 + 0xFFFE, p * 0x10000 + 0xFFFF) for p in range(17)])
    groups = [("U+0000", ISet.of(0), C(0xFFFD), ["null_character_reference"]),
              ("a number above U+10FFFF", ISet.of((0x110000, 0xFFFFFFFF)), C(0xFFFD), ["character_reference_outside_unicode_range"]),
              ("a surrogate", ISet.of((0xD800, 0xDFFF)), C(0xFFFD), ["surrogate_character_reference"])]
    groups += [("U+%04X" % k, ISet.of(k), C(v), ["control_character_reference"]) for k, v in NUMERIC.items()]
    rest = ALL - bad - ISet.of(*NUMERIC)
    groups += [("a control", rest & ctl, code, ["control_character_reference"]), ("a noncharacter", rest & nonch, code, ["noncharacter_character_reference"]),
               ("any other code point", rest - ctl - nonch, code, [])]
    for p in T.paths(name, st0):
        rep.count("paths")
        if p.kind != "ret":
            rep.fail("%s:abort" % name, "%s: state %s aborts for code %s" % (where, name, p.st.rng(code)))
            continue
        for case, S, v, er in groups:
            s = p.st.fork()
            if not s.restrict(code, S):
                continue
            x = Expect(T, s)
            x.cons = 0
            x.errs = list(er)
            x.f["tmp"] = ("str", (("chr", v),))
            judge(T, rep, name, where, p, x, ["flushref", "->RET", "flush"], "for " + case, errs, skip=("field:code",))


def check_named(T, rep, errs=None):
    name = "named_character_reference"
    I = T.I
    where = T.p.where(T.fn_of[name])
    rep.count("states")
    g = [v for q, v in T.p.globals.items() if q.endswith("::named_character_reference_max_length")]
    mx = None
    for v in g:
        i = v.get("init") or {}
        while i.get("k") in ("Cast", "Init", "Ld") and (i.get("e") or i.get("a")):
            i = i.get("e") or i["a"][0]
        mx = i["v"] if i.get("k") == "Int" else (i["v"][0] if i.get("k") == "Ints" else mx)
    for n in range(0, 33):
        st0 = St()
        st0.meta["bufmode"] = n
        st0.heap[STATE] = ("mfn", T.fn_of[name])
        st0.restrict(slen("buf"), ISet.of((n, 1 << 40)))
        for p in T.paths(name, st0):
            rep.count("paths")
            if p.kind != "ret":
                if p.kind == "abort" and abort_excused(T, p):
                    continue
                rep.fail("%s:abort" % name, "%s: state %s aborts (match length %d)" % (where, name, n))
                continue
            if p.st.meta.get("filled") is False:
                x = Expect(T, p.st)
                x.cons = 0
                x.state = ("mfn", T.fn_of[name])
                judge(T, rep, name, where, p, x, ["nop"], "while waiting for input", None)
                continue
            if "fill" not in p.st.meta or p.st.rng(p.st.meta["fill"]).min() < 33:
                rep.fail("%s:lookahead" % name, "%s: state %s decides with fewer characters than the longest reference and its successor need (33)" % (where, name))
                continue
            if n == 0:
                x = Expect(T, p.st)
                x.cons = 0
                judge(T, rep, name, where, p, x, ["flushref", "->ambiguous_ampersand", "flush"], "when nothing matches", errs)
                continue
            chars = tuple(("chr", sym(("in", "buf", i), 0, 0xFFFFFFFF)) for i in range(n))
            tail, nxt = chars[-1][1], sym(("in", "buf", n), 0, 0xFFFFFFFF)
            for s, more in [(s, bool(v[1])) for s, v in I.compare(p.st.fork(), ">", slen("buf"), C(n))]:
                for s2, ina in in_attribute(T, s):
                    for s3, semi in [(a, bool(v[1])) for a, v in I.compare(s2, "==", tail, C(0x3B))]:
                        opts = [(s3, False)]
                        if more and ina and not semi:
                            opts = []
                            K = ISet.of(0x3D) | CLS["alnum"]
                            for S, b in ((K, True), (ALL - K, False)):
                                s4 = s3.fork()
                                if s4.restrict(nxt, S):
                                    opts.append((s4, b))
                        for s4, literal in opts:
                            x = Expect(T, s4)
                            x.cons, x.taken = 0, C(n)
                            if literal:
                                x.f["tmp"] = ("str", x.f["tmp"][1] + chars)
                                judge(T, rep, name, where, p, x, ["flushref", "->RET", "flush"], "a match without ';' before '=' or an alphanumeric, in an attribute", errs)
                                continue
                            for s5, two in I.branch(s4, sym("ref1")):
                                y = Expect(T, s5)
                                y.cons, y.taken = 0, C(n)
                                y.errs = [] if semi else ["missing_semicolon_after_character_reference"]
                                y.f["tmp"] = ("str", (("chr", sym("ref0")),) + ((("chr", sym("ref1")),) if two else ()))
                                judge(T, rep, name, where, p, y, ["flushref", "->RET", "flush"], "a match" + (" with ';'" if semi else " without ';'"), errs)


def check_attributes(T, rep, errs=None):
    """the attribute list: the first of several attributes with one name counts, slots are reused clean"""
    p = T.p
    I = Interp(p, Lib())

    def hook(I, st, f, fi, o, args, e):
        if fi["n"] == "report_error":
            st.eff += (("err", I.lib.get(I, st, args[0])),)
            return [(st, ("void",))]
        return None
    I.hooks.append(hook)
    base = ROOT + ("m_start_tag_token", "m_attributes")
    locs = [("A", i) for i in range(5)]

    def mk(n, slots):
        st = St()
        st.heap[FIELDS["id"][0]] = C(2)
        st.heap[base + ("m_c",)] = ("str", tuple(("chr", ("ref", l)) for l in locs[:slots]))
        st.heap[base + ("m_last",)] = C(n)
        return st
    f = p.find("unify_attribute", prefix=TOK)
    where = p.where(f)
    for n in (1, 2, 3, 4):
        st = mk(n, n + (1 if n < 4 else 0))
        for l in locs:
            st.heap[l + ("m_omitted",)] = C(0)
        names = [I.load(st, l + ("m_name",), U32S) for l in locs]
        for pa in I.run(f, st, ("ptr", ROOT), []):
            if pa.kind != "ret" or opaque(pa.st.eff):
                rep.undecided("unify", "unmodelled operation %s" % opaque(pa.st.eff))
                continue
            work = [(pa.st.fork(), False)]
            for i in range(n - 1):
                nx = []
                for s, hit in work:
                    nx += [(s2, hit or b) for s2, b in I.lib.streq(I, s, names[i], names[n - 1])]
                work = nx
            for s, hit in work:
                got = [pa.st.heap.get(l + ("m_omitted",)) for l in locs]
                want = [C(int(hit and i == n - 1)) for i in range(len(locs))]
                rep.count("obligations")
                if got == want:
                    rep.ok("%s: with %d attributes the last is ignored exactly when an earlier one has its name" % (where, n))
                else:
                    rep.fail("unify:%d" % n, "%s: with %d attributes, the last %s an earlier name, the ignored set becomes %s" % (where, n, "repeating" if hit else "not repeating", [i for i, g in enumerate(got) if g != C(0)]))
                if errs:
                    errs("attribute_name", where, {"text": "leaving the attribute name"}, "", type("Y", (), {"errs": ["duplicate_attribute"] if hit else []}), [x[1] for x in pa.st.eff if x[0] == "err"])
    # create / current / clear
    cls = [c for c in p.records if c.endswith("::token_attribute_list")]
    for nm in ("create",):
        g = p.find(nm, cls="::token_attribute_list")
        for n, slots in ((0, 0), (0, 2), (1, 1), (1, 2), (2, 2)):
            st = mk(n, slots)
            for pa in I.run(g, st, ("ptr", base), []):
                s = pa.st
                if pa.kind != "ret" or opaque(s.eff) or pa.val[0] != "ref":
                    rep.undecided("attribute list create", "unmodelled")
                    continue
                loc = pa.val[1]
                items = I.lib.items(s, base + ("m_c",))
                bad = []
                if len(items) <= n or items[n][1] != ("ref", loc):
                    bad.append("does not return the slot after the last attribute")
                if s.heap.get(base + ("m_last",)) != C(n + 1):
                    bad.append("does not count the new attribute")
                if any(items[i][1] != ("ref", locs[i]) for i in range(min(n, len(items)))):
                    bad.append("changes earlier attributes")
                for fld, t, z in (("m_name", U32S, ("str", ())), ("m_value", U32S, ("str", ())), ("m_omitted", "b1", C(0)), ("m_namespace", "u32", C(0))):
                    v = I.load(s, loc + (fld,), t)
                    if v != z and v != ("c", False):
                        bad.append("starts a new attribute with a stale %s" % fld)
                rep.count("obligations")
                if bad:
                    rep.fail("attrs:create:%d/%d" % (n, slots), "%s: with %d attributes in %d slots, create() %s" % (p.where(g), n, slots, "; ".join(bad)))
                else:
                    rep.ok()
                for pb in I.run(p.find("current", cls="::token_attribute_list"), s.fork(), ("ptr", base), []):
                    rep.count("obligations")
                    if pb.val == ("ref", loc):
                        rep.ok()
                    elif not opaque(pb.st.eff):
                        rep.fail("attrs:current", "%s: current() is not the attribute create() returned" % p.where(p.find("current", cls="::token_attribute_list")))
    g = p.find("clear", cls="::token_attribute_list")
    for pa in I.run(g, mk(2, 3), ("ptr", base), []):
        rep.count("obligations")
        n = pa.st.heap.get(base + ("m_last",))
        if n == C(0):
            rep.ok()
        elif not opaque(pa.st.eff):
            rep.fail("attrs:clear", "%s: clear() leaves attributes" % p.where(g))
