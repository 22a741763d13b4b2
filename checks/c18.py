"""C18: the CSS tokenizer and the preprocessing of its input."""
import itertools
from fractions import Fraction
from urlrun import *
from c12 import BADEFF, Num
from c13 import drv
from oracle import evalt, atoms, Infeasible

LEVEL = "other"
RULE = ("consume_token and every tokenizer algorithm of CSS Syntax 4.3 is interpreted on strings of symbolic code points, alone and behind every prefix that selects a branch (numbers, escapes, comments, strings, url( ...); "
        "on every path the token, its value, the position where tokenizing goes on and the number of parse errors are compared with a transcription of the standard. Numeric values are compared as multi-affine terms of the digits.")
ASSUME = ["strings are bounded; the tokenizer looks at most three code points ahead and its loops treat every code point alike", "std::from_chars reads the digits of the number"]
IN, R, ERR, OUT = ("IN",), ("R",), ("ERR",), ("OUT",)
CPR = [(0, 0x10FFFF)]
DIG, HEX = [(48, 57)], [(48, 57), (65, 70), (97, 102)]
NAMESTART = [(65, 90), (97, 122), (95, 95), (0x80, 0x10FFFF)]
NAME = NAMESTART + [(48, 57), (45, 45)]
WS = [(10, 10), (9, 9), (32, 32)]
NONPRINT = [(0, 8), (11, 11), (14, 31), (127, 127)]
EOF = None


class Bad(Exception):
    pass


class Unknown(Exception):
    pass


# ------------------------------------------------------------------------------------------ oracle: CSS Syntax 4.3
class Spec:
    def __init__(self, o, s):
        self.o, self.s, self.i, self.err = o, s, 0, 0

    def at(self, k=0):
        return self.s[self.i + k] if 0 <= self.i + k < len(self.s) else EOF

    def isin(self, k, *ivs):
        t = self.at(k)
        return t is not EOF and self.o.isin(t, *ivs)

    def ch(self, k, c):
        return self.isin(k, (ord(c), ord(c)))

    def escape(self, k=0):
        return self.ch(k, "\\") and not self.isin(k + 1, (10, 10))

    def startident(self, k=0):
        if self.ch(k, "-"):
            return self.isin(k + 1, *NAMESTART) or self.ch(k + 1, "-") or self.escape(k + 1)
        if self.isin(k, *NAMESTART):
            return True
        return self.escape(k)

    def startnum(self, k=0):
        if self.isin(k, (43, 43), (45, 45)):
            return self.isin(k + 1, *DIG) or self.ch(k + 1, ".") and self.isin(k + 2, *DIG)
        if self.ch(k, "."):
            return self.isin(k + 1, *DIG)
        return self.isin(k, *DIG)

    def escaped(self):
        if self.at() is EOF:
            self.err += 1
            return C(0xFFFD)
        t = self.at()
        if not self.isin(0, *HEX):
            self.i += 1
            return t
        v, n = C(0), 0
        while n < 6 and self.isin(0, *HEX):
            t = self.at()
            d = sub(t, C(48)) if self.o.isin(t, (48, 57)) else sub(t, C(55)) if self.o.isin(t, (65, 70)) else sub(t, C(87))
            v = add(scale(v, 16), d)
            self.i += 1
            n += 1
        if self.isin(0, *WS):
            self.i += 1
        if self.o.isin(v, (0, 0), (0xD800, 0xDFFF), (0x110000, 1 << 40)):
            return C(0xFFFD)
        return v

    def ident(self):
        out = []
        while True:
            if self.isin(0, *NAME):
                out.append(self.at())
                self.i += 1
            elif self.escape():
                self.i += 1
                out.append(self.escaped())
            else:
                return out

    def digits(self):
        out = []
        while self.isin(0, *DIG):
            out.append(self.at())
            self.i += 1
        return out

    def number(self):
        sg, flag, fr, es, ex = 1, 1, [], 1, []
        if self.ch(0, "+"):
            self.i += 1
        elif self.ch(0, "-"):
            sg = -1
            self.i += 1
        ip = self.digits()
        if self.ch(0, ".") and self.isin(1, *DIG):
            self.i += 1
            fr = self.digits()
            flag = 2
        if self.isin(0, (69, 69), (101, 101)):
            if self.isin(1, *DIG):
                self.i += 1
                ex = self.digits()
                flag = 2
            elif self.isin(1, (43, 43), (45, 45)) and self.isin(2, *DIG):
                es = -1 if self.ch(1, "-") else 1
                self.i += 2
                ex = self.digits()
                flag = 2
        return ("num", sg, tuple(ip), tuple(fr), es, tuple(ex)), flag

    def numeric(self):
        num, flag = self.number()
        if self.startident():
            return dict(type="Dimension", num=num, flag=flag, unit=self.ident())
        if self.ch(0, "%"):
            self.i += 1
            return dict(type="Percentage", num=num)
        return dict(type="Number", num=num, flag=flag)

    def identlike(self):
        s = self.ident()
        if len(s) == 3 and all(self.o.isin(t, (ord(x), ord(x)), (ord(x) - 32, ord(x) - 32)) for t, x in zip(s, "url")) and self.ch(0, "("):
            self.i += 1
            while self.isin(0, *WS) and self.isin(1, *WS):
                self.i += 1
            k = 1 if self.isin(0, *WS) else 0
            if self.isin(k, (34, 34), (39, 39)):
                return dict(type="Function", str=s)
            return self.url()
        if self.ch(0, "("):
            self.i += 1
            return dict(type="Function", str=s)
        return dict(type="Ident", str=s)

    def string(self, q):
        s = []
        while True:
            t = self.at()
            if t is EOF:
                self.err += 1
                return dict(type="String", str=s)
            if self.o.isin(t, (q, q)):
                self.i += 1
                return dict(type="String", str=s)
            if self.o.isin(t, (10, 10)):
                self.err += 1
                return dict(type="BadString")
            self.i += 1
            if self.o.isin(t, (92, 92)):
                if self.at() is EOF:
                    continue
                if self.isin(0, (10, 10)):
                    self.i += 1
                else:
                    s.append(self.escaped())
            else:
                s.append(t)

    def url(self):
        s = []
        while self.isin(0, *WS):
            self.i += 1
        while True:
            t = self.at()
            if t is EOF:
                self.err += 1
                return dict(type="Url", str=s)
            self.i += 1
            if self.o.isin(t, (41, 41)):
                return dict(type="Url", str=s)
            if self.o.isin(t, *WS):
                while self.isin(0, *WS):
                    self.i += 1
                if self.at() is EOF:
                    self.err += 1
                    return dict(type="Url", str=s)
                if self.ch(0, ")"):
                    self.i += 1
                    return dict(type="Url", str=s)
                self.remnants()
                return dict(type="BadUrl")
            if self.o.isin(t, (34, 34), (39, 39), (40, 40), *NONPRINT):
                self.err += 1
                self.remnants()
                return dict(type="BadUrl")
            if self.o.isin(t, (92, 92)):
                if self.escape(-1):
                    s.append(self.escaped())
                else:
                    self.err += 1
                    self.remnants()
                    return dict(type="BadUrl")
            else:
                s.append(t)

    def remnants(self):
        while True:
            t = self.at()
            if t is EOF:
                return
            if self.o.isin(t, (41, 41)):
                self.i += 1
                return
            e = self.escape()
            self.i += 1
            if e:
                self.escaped()

    def comments(self):
        while self.ch(0, "/") and self.ch(1, "*"):
            self.i += 2
            while True:
                if self.at() is EOF:
                    self.err += 1
                    return
                if self.ch(0, "*") and self.ch(1, "/"):
                    self.i += 2
                    break
                self.i += 1

    def token(self):
        self.comments()
        t = self.at()
        if t is EOF:
            return dict(type="Eof")
        o = self.o
        if o.isin(t, *WS):
            while self.isin(0, *WS):
                self.i += 1
            return dict(type="Whitespace")
        for c, n in (("(", "OpenParen"), (")", "CloseParen"), (",", "Comma"), (":", "Colon"), (";", "Semicolon"), ("[", "OpenSquare"), ("]", "CloseSquare"), ("{", "OpenCurly"), ("}", "CloseCurly")):
            if self.ch(0, c):
                self.i += 1
                return dict(type=n)
        for q in (34, 39):
            if o.isin(t, (q, q)):
                self.i += 1
                return self.string(q)
        if self.ch(0, "#"):
            if self.isin(1, *NAME) or self.escape(1):
                f = 1 if self.startident(1) else 2
                self.i += 1
                return dict(type="Hash", flag=f, str=self.ident())
        elif self.ch(0, "+") or self.ch(0, "."):
            if self.startnum():
                return self.numeric()
        elif self.ch(0, "-"):
            if self.startnum():
                return self.numeric()
            if self.ch(1, "-") and self.ch(2, ">"):
                self.i += 3
                return dict(type="Cdc")
            if self.startident():
                return self.identlike()
        elif self.ch(0, "<"):
            if self.ch(1, "!") and self.ch(2, "-") and self.ch(3, "-"):
                self.i += 4
                return dict(type="Cdo")
        elif self.ch(0, "@"):
            if self.startident(1):
                self.i += 1
                return dict(type="AtKeyword", str=self.ident())
        elif self.ch(0, "\\"):
            if self.escape():
                return self.identlike()
            self.err += 1
        elif o.isin(t, *DIG):
            return self.numeric()
        elif o.isin(t, *NAMESTART):
            return self.identlike()
        self.i += 1
        return dict(type="Delim", cp=t)


# ------------------------------------------------------------------------------------------ numeric values
def feval(t, env):
    k = t[0]
    if k == "flt":
        return t[1]
    if k == "fcast":
        return float(evalt(t[1], env))
    if k == "opq" and isinstance(t[1], tuple) and len(t[1]) == 2 and t[1][0] == "-":
        return -feval(t[1][1], env)
    if k == "opq" and isinstance(t[1], tuple) and len(t[1]) == 3:
        op, a, b = t[1]
        a, b = feval(a, env), feval(b, env)
        try:
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                return a / b
            if op == "pow":
                return float(a) ** float(b)
        except OverflowError:
            return float("inf")
        raise Unknown("operator %s" % op)
    if is_int(t):
        return evalt(t, env)
    raise Unknown("number %s" % str(t)[:60])


def fatoms(t, out):
    if not isinstance(t, tuple):
        raise Unknown("number %s" % (t,))
    if t[0] == "opq" and isinstance(t[1], tuple):
        for x in t[1][1:]:
            fatoms(x, out)
    elif t[0] == "fcast":
        fatoms(t[1], out)
    elif is_int(t):
        for a in atoms(t):
            if a not in out:
                out.append(a)


def affine(t, mant):
    """degree of t in the mantissa digits is at most one (None: cannot tell)"""
    if t[0] == "opq" and isinstance(t[1], tuple) and len(t[1]) == 2 and t[1][0] == "-":
        return affine(t[1][1], mant)
    if t[0] == "opq" and isinstance(t[1], tuple) and len(t[1]) == 3:
        op, a, b = t[1]
        x, y = affine(a, mant), affine(b, mant)
        if x is None or y is None:
            return None
        if op in ("+", "-"):
            return max(x, y)
        if op == "*":
            return x + y if x + y <= 1 else None
        if op == "/":
            return x if y == 0 else None
        if op == "pow":
            return 0 if x == 0 and y == 0 else None
        return None
    if t[0] == "flt":
        return 0
    if t[0] == "fcast":
        t = t[1]
    if not is_int(t):
        return None
    if not any(a in mant for a in atoms(t)):
        return 0
    return 1 if t[0] in ("s", "lin") else None


def num_eq(st, got, want):
    _, sg, ip, fr, es, ex = want
    mant = [t for t in ip + fr if t[0] != "c"]
    exps = [t for t in ex if t[0] != "c"]
    if got is None:
        raise Unknown("no number")
    at = []
    try:
        fatoms(got, at)
    except Unknown:
        raise Unknown("number %s" % str(got)[:150])
    if any(a not in mant + exps for a in at):
        raise Unknown("number of unknown atoms")
    doms = []
    for t in mant:
        r = st.rng(t)
        doms.append(sorted({r.min(), r.max()}))
    for t in exps:
        doms.append(list(st.rng(t).values()))
    cons = [(k, S_) for k, S_ in st.cons.items() if k[0] not in ("s", "call") and all(a in mant + exps for a in atoms(k))]
    for vs in itertools.product(*doms):
        env = dict(zip(mant + exps, vs))
        if not all(evalt(k, env) in S_ for k, S_ in cons):
            continue

        def d(ts):
            n = 0
            for t in ts:
                n = n * 10 + (t[1] if t[0] == "c" else env[t]) - 48
            return n
        w = sg * (Fraction(d(ip)) + Fraction(d(fr), 10 ** len(fr))) * Fraction(10) ** (es * min(d(ex), 2000))
        try:
            w = float(w)
        except OverflowError:
            w = sg * float("inf")
        g = feval(got, env)
        if not (g == w or abs(g - w) <= 1e-9 * max(abs(g), abs(w))):
            raise Bad("the value of %s is %r" % ("".join(chr(t[1] if t[0] == "c" else env[t]) for t in ip) + ("." + "".join(chr(t[1] if t[0] == "c" else env[t]) for t in fr) if fr else "")
                                                 + ("e%s%s" % ("-" if es < 0 else "", "".join(chr(t[1] if t[0] == "c" else env[t]) for t in ex)) if ex else ""), g))
    if mant and affine(got, mant) is None:
        raise Unknown("the number is not an affine term of its digits")


# ------------------------------------------------------------------------------------------ driving
def x(i, *ivs):
    return sym("x%d" % i, 0, 0x10FFFF), ivs


def build(parts):
    """parts: characters, or lists of intervals -> (terms, restrictions)"""
    ts, rs = [], []
    n = 0
    for p in parts:
        if isinstance(p, str):
            ts += [C(ord(c)) for c in p]
        else:
            t = sym("x%d" % n, 0, 0x10FFFF)
            n += 1
            ts.append(t)
            if p:
                rs.append((t, ISet.of(*p)))
    return ts, rs


ANY = ()


def show(parts):
    return "".join(p if isinstance(p, str) else "<any>" if not p else "<%s>" % ",".join("%X-%X" % iv for iv in p) for p in parts) or "(empty)"


class NumLib(Num):
    def hook(self, I, st, f, fi, o, args, e):
        if fi["n"] == "pow" and len(args) == 2:
            a, b = I.lib.get(I, st, args[0]), I.lib.get(I, st, args[1])
            return [(st, ("opq", ("pow", a, b)))]
        return Num.hook(self, I, st, f, fi, o, args, e)


class Ck:
    def __init__(self, rep, p):
        self.rep, self.p = rep, p
        self.names = {v: k for k, v in enums(p).items()}

    def where(self, fn):
        fs = [i for i in self.p.byname.get(fn, []) if i in self.p.funcs and self.p.finfo[i]["q"].startswith("wordring::")]
        return self.p.where(fs[0]) if fs else "include/wordring/wwwc/css_syntax/tokenization.hpp (%s)" % fn

    def run(self, entry, fn, parts, spec, *extra):
        self.rep.guard(entry[3:], self._run, entry, fn, parts, spec, *extra)

    def _run(self, entry, fn, parts, spec, *extra):
        rep = self.rep
        I = Interp(self.p, SLib())
        I.hooks += [data_hook, NumLib().hook]
        I.LOOP = 1200 if sum(len(x) for x in parts if isinstance(x, str)) > 60 else 70
        I.maxpaths = 40000
        ts, rs = build(parts)
        st = St()
        st.meta["w32"] = True
        for t, S_ in rs:
            st.restrict(t, S_)
        st.heap[IN] = ("str", tuple(("chr", t) for t in ts))
        st.heap[ERR] = ("str", ())
        st.heap[OUT] = ("str", ())
        f = drv(self.p, entry)
        n = len(self.p.finfo[f]["pt"])
        args = {1: [("ref", IN)], 3: [("ref", IN), ("ref", R), ("ref", ERR)], 2: [("ref", IN), ("ref", OUT)], 4: [("ref", IN), ("ref", R), ("ref", ERR)]}[n] + list(extra)
        rep.count("inputs")
        for pa in I.run(f, st, None, args):
            rep.count("paths")
            opq = [e for e in pa.st.eff if e[0] == "opaque"]
            for s2, want in outcomes(pa.st, lambda o: spec(Spec(o, ts))):
                try:
                    t = self.judge(I, pa, s2, want, entry)
                except Bad as e:
                    t = str(e)
                except Unknown as e:
                    rep.undecided(entry[3:], str(e))
                    continue
                if t is None:
                    rep.ok()
                elif opq:
                    rep.undecided(entry[3:], "%s after unmodelled %s" % (t, str(opq[0])[:100]))
                else:
                    rep.fail(entry[3:], "%s: on '%s' (%s): %s" % (self.where(fn), show(parts), wit(s2, ts), t))

    def judge(self, I, pa, st, want, entry):
        for e in pa.st.eff:
            if e[0] in BADEFF:
                return "reads beyond the end of the input"
        if pa.kind != "ret":
            return "aborts" if pa.kind == "abort" else "throws"
        if isinstance(want, list):
            v = st.heap.get(OUT)
            if v is None or v[0] != "str" or q(v[1]) or not all(i[0] == "chr" and i[1][0] == "c" for i in v[1]):
                raise Unknown("tokens")
            g = [self.names.get(i[1][1], i[1][1]) for i in v[1]]
            return None if g == want else "yields %s, the standard %s" % (" ".join(map(str, g)), " ".join(want))
        if not isinstance(want, dict):
            return cmp_val(I, st, pa.val, want)
        for k, w in want.items():
            if k == "err":
                v = st.heap.get(ERR)
                if v is None or v[0] != "str" or q(v[1]):
                    raise Unknown("errors")
                g = len(v[1])
                if g != w:
                    return "reports %d parse error(s), the standard %d" % (g, w)
                continue
            v = I.lib.get(I, st, ("ref", R + (k,)))
            if v is None:
                raise Unknown(k)
            if k == "type":
                if v[0] != "c":
                    raise Unknown("type")
                g = self.names.get(v[1], v[1])
                if g != w:
                    return "gives a %s token, the standard a %s token" % (g, w)
            elif k in ("str", "unit"):
                if v[0] != "str" or q(I.lib.norm(st, v)[1]):
                    raise Unknown("string")
                r = items_eq(st, I.lib.norm(st, v)[1], tuple(("chr", t) for t in w))
                if r is None:
                    raise Unknown("string")
                if not r:
                    return "the value is '%s', not '%s'" % (show_items(I.lib.norm(st, v)[1]), show_items(tuple(("chr", t) for t in w)))
            elif k == "num":
                num_eq(st, v, w)
            else:
                t = cmp_val(I, st, v, C(w) if isinstance(w, int) else w)
                if t:
                    return "%s: %s" % ({"pos": "position of the next token", "flag": "type flag", "cp": "code point"}[k], t)
        return None


def cmp_val(I, st, v, w):
    if isinstance(w, bool):
        w = C(int(w))
    if v is None or not is_int(v):
        raise Unknown("value %s" % str(v)[:60])
    r = teq(st, v, w)
    if r is None:
        raise Unknown("value")
    return None if r else "is %s, not %s" % (st.rng(v), st.rng(w))


def wit(st, ts):
    return ", ".join("%s" % (st.rng(t),) for t in ts if t[0] != "c")


def enums(p):
    e = enum_values(p, "syntax_primitive_name")
    return {k[:-5]: v for k, v in e.items() if k.endswith("Token")}


def tok(f):
    def g(sp):
        d = dict(f(sp) or {})
        d["pos"] = sp.i
        d["err"] = sp.err
        return d
    return g


def stream(sp):
    out = []
    while True:
        t = sp.token()["type"]
        if t == "Eof":
            return out
        out.append(t)


def noerr(f):
    def g(sp):
        d = dict(f(sp) or {})
        d["pos"] = sp.i
        return d
    return g


def esc(sp):
    return dict(cp=sp.escaped())


def ident(sp):
    return dict(str=sp.ident())


def numeric(sp):
    if not sp.startnum():
        raise Infeasible()
    return sp.numeric()


def number(sp):
    if not sp.startnum():
        raise Infeasible()
    n, f = sp.number()
    return dict(num=n, flag=f)


SIGN = [(43, 43), (45, 45)]
EE = [(69, 69), (101, 101)]
NONHEX = [(0, 47), (58, 64), (71, 96), (103, 0x10FFFF)]


def check(rep):
    soften(rep)
    p = export("csstok.cpp")
    ck = Ck(rep, p)
    rep.count("functions", 16)
    big = rep_tier() == "thorough"
    # --- tokens
    tokens = [[ANY] * n for n in range(4)]
    for pre, n in (("#", 3), ("+", 3), ("-", 3), (".", 3), ("<", 3), ("<!-", 2), ("@", 3), ("\\", 3), ("--", 2), ("-\\", 2), ("@-", 2), ("@\\", 2), ("#\\", 2), ("#-", 2), ("\"", 3), ("'", 3),
                   ("/*", 3), ("/**/", 2), ("/", 2), ("/*x*/", 2), ("/*/", 2), ("a", 3), ("url", 2), ("uRL(", 2), ("url(  ", 2), ("url( ", 2), ("u\\72l(", 1), ("1", 3), ("1.", 3), ("1e", 3), ("+.", 2), ("-.", 2)):
        for k in range(n + 1):
            tokens.append([pre] + [ANY] * k)
    for parts in tokens:
        ck.run("vp_token", "consume_token", parts, tok(Spec.token))
    for parts in ([ANY], [ANY, ANY], ["\"", ANY], ["url(", ANY]):
        ck.run("vp_token_q", "consume_token", parts, noerr(Spec.token))
    # --- algorithms
    def seqs(fn, entry, name, pres, n):
        for pre in pres:
            for k in range(n + 1):
                ck.run(entry, name, [pre] * bool(pre) + [ANY] * k, fn)
    seqs(tok(lambda s: s.comments()), "vp_comments", "consume_comments", ("", "/*", "/* */", "/*a"), 3)
    seqs(tok(Spec.url), "vp_url", "consume_url_token", ("", " ", "a", "a ", "\\", "(\\", "a\\41"), 2)
    seqs(tok(Spec.remnants), "vp_remnants", "consume_remnants_of_bad_url", ("", "\\", "a\\41 "), 3)
    seqs(tok(ident), "vp_ident", "consume_identifier", ("", "a", "a\\", "-"), 2)
    seqs(tok(Spec.identlike), "vp_identlike", "consume_ident_like_token", ("a", "url(", "URL( ", "url"), 2)
    for quote in (34, 39):
        for pre in ("", "a", "\\", "\\\n", "a\\41"):
            for k in range(3):
                ck.run("vp_string", "consume_string_token", [pre] * bool(pre) + [ANY] * k, tok(lambda s, quote=quote: s.string(quote)), C(quote))
    for k in range(3):
        ck.run("vp_escaped", "consume_escaped_code_point", [ANY] * k, tok(esc))
    for h in range(1, 7):
        for tail in ([], [ANY], [ANY, ANY]):
            ck.run("vp_escaped", "consume_escaped_code_point", [HEX] * h + tail[:2 if h < 3 else 1], tok(esc))
    ck.run("vp_escaped", "consume_escaped_code_point", ["00000", HEX, ANY, ANY], tok(esc))
    ck.run("vp_escaped", "consume_escaped_code_point", [[(48, 57)]] * 6 + [ANY], tok(esc))
    for k in range(3):
        ck.run("vp_isescape", "starts_with_valid_escape", [ANY] * k, lambda s: s.escape())
    for k in range(4):
        ck.run("vp_isident", "starts_with_identifier", [ANY] * k, lambda s: s.startident())
        ck.run("vp_isnumber", "starts_with_number", [ANY] * k, lambda s: s.startnum())
    # --- numbers
    nums = [[ANY] * k for k in range(1, 4)]
    nums += [[SIGN, DIG, ANY], [SIGN, ".", DIG, ANY], [DIG, ".", ANY, ANY], [DIG, EE, ANY, ANY], [DIG, EE, SIGN, ANY], [DIG, EE, SIGN, DIG, ANY], [DIG, DIG, ".", DIG, DIG, EE, SIGN, DIG, DIG],
             [DIG, ".", DIG, EE, DIG, ANY], [".", DIG, DIG, DIG, ANY], [DIG, EE, SIGN, "%"], ["1.e1"], ["1e"], ["1e+"], ["1e-x"], ["1E5"], ["1e2.5"],
             ["4294967296"], ["99999999999"], ["0.12345678901234"], ["1e400"], ["1e-400"], ["1e4294967296"], ["0e999"], ["1." + "0" * 400], ["1" + "0" * 400], ["0." + "9" * 400]]
    for parts in nums:
        ck.run("vp_number", "consume_number", parts, tok(number))
        ck.run("vp_numeric", "consume_numeric_token", parts, tok(numeric))
    for parts in ([DIG, "%", ANY], [DIG, "e", ANY, ANY], [DIG, "-", ANY, ANY], [DIG, "\\", ANY, ANY], [DIG, ".", DIG, "p", ANY], [DIG, "--", ANY]):
        ck.run("vp_numeric", "consume_numeric_token", parts, tok(numeric))
        ck.run("vp_token", "consume_token", parts, tok(Spec.token))
    # --- the whole stream
    for pre in ("", "/* */", "a/**/", "1 ", "\"x", "a("):
        for k in range(3):
            ck.run("vp_tokenize", "tokenize", [pre] * bool(pre) + [ANY] * k, stream)
    ck.run("vp_tokenize", "tokenize", ["a:url(x) 1px!/**/;-->", ANY], stream)
    check_filter(ck, rep, p)
    check_fallback(ck, rep, p)
    rep.need("functions", 16)


def rep_tier():
    import os
    return os.environ.get("VERIF_TIER", "quick")


# ------------------------------------------------------------------------------------------ 3.3 preprocessing
def filt(o, s):
    out, i = [], 0
    while i < len(s):
        if o.isin(s[i], (13, 13)):
            if i + 1 < len(s) and o.isin(s[i + 1], (10, 10)):
                i += 1
            out.append(C(10))
        elif o.isin(s[i], (12, 12)):
            out.append(C(10))
        elif o.isin(s[i], (0, 0), (0xD800, 0xDFFF)):
            out.append(C(0xFFFD))
        else:
            out.append(s[i])
        i += 1
    return out


def check_filter(ck, rep, p):
    for n in range(5):
        rep.guard("filter_code_points", one_filter, ck, rep, p, n)


def one_filter(ck, rep, p, n):
    I = Interp(p, SLib())
    I.hooks += [data_hook]
    ts, _ = build([ANY] * n)
    st = St()
    st.heap[IN] = ("str", tuple(("chr", t) for t in ts))
    for pa in I.run(drv(p, "vp_filter"), st, None, [("ref", IN)]):
        rep.count("paths")
        opq = [e for e in pa.st.eff if e[0] == "opaque"]
        for s2, want in outcomes(pa.st, lambda o: filt(o, ts)):
            bad = None
            v = s2.heap.get(IN)
            if any(e[0] in BADEFF for e in pa.st.eff):
                bad = "reads beyond the end of the input"
            elif pa.kind != "ret":
                bad = "aborts"
            elif pa.val is None or pa.val[0] != "c" or v is None or v[0] != "str" or q(v[1]):
                rep.undecided("filter_code_points", "result")
                continue
            elif pa.val[1] != len(want):
                bad = "leaves %d code points, not %d" % (pa.val[1], len(want))
            else:
                r = items_eq(s2, v[1][:len(want)], tuple(("chr", t) for t in want))
                if r is None:
                    rep.undecided("filter_code_points", "result")
                    continue
                if not r:
                    bad = "leaves '%s', not '%s'" % (show_items(v[1][:len(want)]), show_items(tuple(("chr", t) for t in want)))
            if bad is None:
                rep.ok()
            elif opq:
                rep.undecided("filter_code_points", bad)
            else:
                rep.fail("filter_code_points", "%s: on %d code points (%s): %s" % (ck.where("filter_code_points"), n, wit(s2, ts), bad))


# ------------------------------------------------------------------------------------------ 3.2 the fallback encoding
def check_fallback(ck, rep, p):
    E = enum_values(p, "encoding_name")
    U8 = E["UTF_8"]
    B = sym("fb", 1, max(E.values()))
    pre = '@charset "'
    ASC = [(-128, -1), (0, 127)]
    cases = [([], B), ([pre, '";'], B)]
    cases += [([pre[:k]], 0) for k in range(len(pre) + 1)]
    cases += [([pre[:k], ANY, pre[k + 1:], 'x";'], 0) for k in range(len(pre))]
    for n in range(4):
        cases += [([pre] + [ANY] * n, 0), ([pre] + [ANY] * n + ['"'], 0), ([pre] + [ANY] * n + ['";'], 0), ([pre] + [ANY] * n + ['";', ANY], 0)]
    cases += [([pre, "x", ANY, ANY, ";x"], 0), ([pre, 'x";";'], 0)]
    for parts, fb in cases:
        rep.count("inputs")
        rep.guard("determine_fallback_encoding", one_fallback, ck, rep, p, parts, fb, E, U8, pre)


def one_fallback(ck, rep, p, parts, fb, E, U8, pre):
    calls = []

    def hook(I, st, f, fi, o, args, e):
        if fi["n"] == "get_encoding_name" and len(args) == 1:
            v = I.lib.get(I, st, args[0])
            if v is None or v[0] != "str" or q(I.lib.norm(st, v)[1]):
                return None
            st.eff = st.eff + (("label", I.lib.norm(st, v)[1]),)
            return [(st, sym("enc", 0, max(E.values())))]
        return None
    I = Interp(p, SLib())
    I.hooks += [data_hook, hook]
    ts, n = [], 0
    for x_ in parts:
        if isinstance(x_, str):
            ts += [C(ord(c)) for c in x_]
        else:
            ts.append(sym("b%d" % n, -128, 127))
            n += 1
    st = St()
    st.heap[IN] = ("str", tuple(("chr", t) for t in ts))

    def spec(o):
        if fb:
            return None, fb
        for k, c in enumerate(pre):
            if k >= len(ts) or not o.isin(ts[k], (ord(c), ord(c))):
                return None, C(U8)
        i, lab = len(pre), []
        while i < len(ts) and o.isin(ts[i], (0, 0x21), (0x23, 0x7F)):
            lab.append(ts[i])
            i += 1
        if i + 1 < len(ts) and o.isin(ts[i], (34, 34)) and o.isin(ts[i + 1], (59, 59)):
            e = sym("enc", 0, max(E.values()))
            if o.isin(e, (0, 0), (E["UTF_16BE"], E["UTF_16BE"]), (E["UTF_16LE"], E["UTF_16LE"])):
                return lab, C(U8)
            return lab, e
        return None, C(U8)
    for pa in I.run(drv(p, "vp_fallback"), st, None, [("ref", IN), fb or C(0)]):
        rep.count("paths")
        opq = [e for e in pa.st.eff if e[0] == "opaque"]
        labs = [e[1] for e in pa.st.eff if e[0] == "label"]
        for s2, (lab, want) in outcomes(pa.st, spec):
            bad = None
            if any(e[0] in BADEFF for e in pa.st.eff):
                bad = "reads beyond the end of the input"
            elif pa.kind != "ret":
                bad = "aborts"
            else:
                g = pa.val
                # a label with a quotation mark names no encoding
                for l in labs:
                    if any(s2.rng(i[1]) == ISet.of(34) for i in l):
                        if not s2.restrict(sym("enc", 0, max(E.values())), ISet.of(0)):
                            g = None
                if g is None:
                    continue
                if not is_int(g):
                    rep.undecided("determine_fallback_encoding", "result")
                    continue
                r = teq(s2, g, want)
                if r is None:
                    rep.undecided("determine_fallback_encoding", "result")
                    continue
                if not r:
                    bad = "returns %s, the standard %s" % (s2.rng(g), s2.rng(want))
                elif lab is not None:
                    if not labs:
                        bad = "the label is not looked up" if want[0] != "c" else None
                    else:
                        r = items_eq(s2, labs[-1], tuple(("chr", t) for t in lab))
                        if r is None:
                            rep.undecided("determine_fallback_encoding", "label")
                            continue
                        if not r:
                            bad = "looks up the label '%s', not '%s'" % (show_items(labs[-1]), show_items(tuple(("chr", t) for t in lab)))
            if bad is None:
                rep.ok()
            elif opq:
                rep.undecided("determine_fallback_encoding", bad + " after unmodelled " + str(opq[0])[:100])
            else:
                rep.fail("determine_fallback_encoding", "%s: on '%s' (%s): %s" % (ck.where("determine_fallback_encoding"), show(parts), wit(s2, ts), bad))
