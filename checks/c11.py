"""C11: every state of the basic URL parser does what the URL standard says."""
import copy, itertools
from urlrun import *

LEVEL = "other"
RULE = ("each state function of the basic URL parser is interpreted from every combination of scheme, override, base, host, path and buffer shape its algorithm distinguishes, with symbolic code points "
        "(current, look-ahead and buffered); on every path the next state, pointer, buffer, flags, URL record, validation error and result are compared with a transcription of the standard's state. "
        "The driver loop, the constructor's preprocessing and the helper predicates are decided the same way.")
ASSUME = ["percent-encoding and host parsing are operators here; they are decided by C02, C12 and C13", "the standard's version is the one the code's numbered comments follow (autumn 2020)",
          "buffers and paths beyond the enumerated shapes behave like those of the enumerated ones (the algorithm looks at no more of them)"]

ALPHA = ((65, 90), (97, 122))
DIGIT = ((48, 57),)
HEX = ((48, 57), (65, 70), (97, 102))
URLCP = ((0x21, 0x21), (0x24, 0x24), (0x26, 0x3B), (0x3D, 0x3D), (0x3F, 0x5A), (0x5F, 0x5F), (0x61, 0x7A), (0x7E, 0x7E), (0xA0, 0xD7FF), (0xE000, 0xFDCF), (0xFDF0, 0xFFFD)) + \
    tuple((0x10000 * k, 0x10000 * k + 0xFFFD) for k in range(1, 17))
SPECIAL = {"ftp": 21, "file": None, "http": 80, "https": 443, "ws": 80, "wss": 443}
CAMEL = {s: "".join(w.capitalize() for w in s.split("_")) + "State" for s in STATES}


class X:
    """state of the parser (specification side)"""

    def __init__(self, **kw):
        self.ov = None
        self.buf = ()
        self.at = self.br = self.pw = 0
        self.url = mkurl()
        self.base = None
        self.ec = 0
        self.enc = "UTF_8"
        self.pre, self.eof, self.post = 0, False, 1
        self.hostres = None
        self.res = CONT
        self.__dict__.update(kw)

    @property
    def c(self):
        return None if self.eof else self.inp[self.pre]

    def la(self, k):
        i = self.pre + k
        return self.inp[i] if 0 <= i < len(self.inp) else None

    def err(self):
        self.ec = 1

    def fail(self):
        self.ec = 1
        self.res = FAIL


def eqs(o, items, s):
    if len(items) != len(s):
        return False
    if any(i[0] != "chr" for i in items):
        l = lit(items)
        return l == s if l is not None else False
    return all(o.isin(i[1], (ord(c), ord(c))) for i, c in zip(items, s))


def eqi(o, items, s):
    if len(items) != len(s):
        return False
    return all(o.isin(i[1], *{(ord(c), ord(c)), (ord(c.upper()), ord(c.upper()))}) for i, c in zip(items, s))


def special(o, items):
    return any(eqs(o, items, s) for s in SPECIAL)


def eqstr(o, a, b):
    return len(a) == len(b) and all(x == y or o.eq(x[1], y[1]) for x, y in zip(a, b))


def at(o, c, s):
    return c is not None and o.isin(c, *[(ord(k), ord(k)) for k in s])


def defport(o, items):
    for s, v in SPECIAL.items():
        if eqs(o, items, s):
            return v
    return None


def drive2(o, a, b, second=":|"):
    return o.isin(a, *ALPHA) and o.isin(b, *[(ord(k), ord(k)) for k in second])


def starts_drive(o, x):
    a, b, d = x.la(0), x.la(1), x.la(2)
    if a is None or b is None or not drive2(o, a, b):
        return False
    return d is None or at(o, d, "/\\?#")


def isdrive(o, items, second=":|"):
    return len(items) == 2 and all(i[0] == "chr" for i in items) and drive2(o, items[0][1], items[1][1], second)


def shorten(o, u):
    if not u["path"]:
        return
    if eqs(o, u["scheme"], "file") and len(u["path"]) == 1 and isdrive(o, u["path"][0], ":"):
        return
    u["path"] = u["path"][:-1]


def single_dot(o, b):
    return eqs(o, b, ".") or eqi(o, b, "%2e")


def double_dot(o, b):
    return eqs(o, b, "..") or eqi(o, b, ".%2e") or eqi(o, b, "%2e.") or eqi(o, b, "%2e%2e")


def lower(o, c):
    return add(c, C(32)) if o.isin(c, (65, 90)) else c


def urlcp(o, x):
    """validation errors of a path, query or fragment code point"""
    if at(o, x.c, "%"):
        a, b = x.la(1), x.la(2)
        if a is None or b is None or not (o.isin(a, *HEX) and o.isin(b, *HEX)):
            x.err()
    elif not o.isin(x.c, *URLCP):
        x.err()


def cred(u):
    return bool(u["user"]) or bool(u["pass"])


def endauth(o, x):
    return x.c is None or at(o, x.c, "/?#") or (special(o, x.url["scheme"]) and at(o, x.c, "\\"))


# ------------------------------------------------------------------------------------------ the states
def s_scheme_start(o, x):
    if x.c is not None and o.isin(x.c, *ALPHA):
        x.buf += (("chr", lower(o, x.c)),)
        x.state = "scheme"
    elif not x.ov:
        x.state = "no_scheme"
        x.p -= 1
    else:
        x.fail()


def s_scheme(o, x):
    u = x.url
    if x.c is not None and o.isin(x.c, *ALPHA, *DIGIT, (43, 43), (45, 46)):
        x.buf += (("chr", lower(o, x.c)),)
    elif at(o, x.c, ":"):
        if x.ov:
            a, b = special(o, u["scheme"]), special(o, x.buf)
            if a != b or ((cred(u) or u["port"] is not None) and eqs(o, x.buf, "file")) or (eqs(o, u["scheme"], "file") and (u["host"] is None or u["host"] == ("empty",))):
                x.res = RETURN
                return
        u["scheme"] = x.buf
        if x.ov:
            d = defport(o, u["scheme"])
            if u["port"] is not None and d is not None and o.eq(u["port"], C(d)):
                u["port"] = None
            x.res = RETURN
            return
        x.buf = ()
        if eqs(o, u["scheme"], "file"):
            if not (at(o, x.la(1), "/") and at(o, x.la(2), "/")):
                x.err()
            x.state = "file"
        elif special(o, u["scheme"]):
            if x.base and eqstr(o, x.base["scheme"], u["scheme"]):
                x.state = "special_relative_or_authority"
            else:
                x.state = "special_authority_slashes"
        elif at(o, x.la(1), "/"):
            x.state = "path_or_authority"
            x.p += 1
        else:
            u["cbb"] = 1
            u["path"] += ((),)
            x.state = "cannot_be_a_base_url_path"
    elif not x.ov:
        x.buf = ()
        x.state = "no_scheme"
        x.p = -1
    else:
        x.fail()


def s_no_scheme(o, x):
    b, u = x.base, x.url
    if b is None or (b["cbb"] and not at(o, x.c, "#")):
        x.fail()
    elif b["cbb"]:
        u["scheme"], u["path"], u["query"], u["frag"], u["cbb"] = b["scheme"], b["path"], b["query"], (), 1
        x.state = "fragment"
    else:
        x.state = "file" if eqs(o, b["scheme"], "file") else "relative"
        x.p -= 1


def s_special_relative_or_authority(o, x):
    if at(o, x.c, "/") and at(o, x.la(1), "/"):
        x.state = "special_authority_ignore_slashes"
        x.p += 1
    else:
        x.err()
        x.state = "relative"
        x.p -= 1


def s_path_or_authority(o, x):
    if at(o, x.c, "/"):
        x.state = "authority"
    else:
        x.state = "path"
        x.p -= 1


def query_or_fragment(o, x):
    if at(o, x.c, "?"):
        x.url["query"] = ()
        x.state = "query"
        return True
    if at(o, x.c, "#"):
        x.url["frag"] = ()
        x.state = "fragment"
        return True
    return False


def s_relative(o, x):
    b, u = x.base, x.url
    u["scheme"] = b["scheme"]
    if at(o, x.c, "/"):
        x.state = "relative_slash"
    elif special(o, u["scheme"]) and at(o, x.c, "\\"):
        x.err()
        x.state = "relative_slash"
    else:
        for k in ("user", "pass", "host", "port", "path", "query"):
            u[k] = b[k]
        if query_or_fragment(o, x):
            return
        if x.c is not None:
            u["query"] = None
            u["path"] = u["path"][:-1]
            x.state = "path"
            x.p -= 1


def s_relative_slash(o, x):
    b, u = x.base, x.url
    if special(o, u["scheme"]) and at(o, x.c, "/\\"):
        if at(o, x.c, "\\"):
            x.err()
        x.state = "special_authority_ignore_slashes"
    elif at(o, x.c, "/"):
        x.state = "authority"
    else:
        for k in ("user", "pass", "host", "port"):
            u[k] = b[k]
        x.state = "path"
        x.p -= 1


def s_special_authority_slashes(o, x):
    if at(o, x.c, "/") and at(o, x.la(1), "/"):
        x.state = "special_authority_ignore_slashes"
        x.p += 1
    else:
        x.err()
        x.state = "special_authority_ignore_slashes"
        x.p -= 1


def s_special_authority_ignore_slashes(o, x):
    if at(o, x.c, "/\\"):
        x.err()
    else:
        x.state = "authority"
        x.p -= 1


def s_authority(o, x):
    u = x.url
    if at(o, x.c, "@"):
        x.err()
        if x.at:
            x.buf = S("%40") + x.buf
        x.at = 1
        for i in x.buf:
            if not x.pw and at(o, i[1], ":"):
                x.pw = 1
                continue
            k = "pass" if x.pw else "user"
            u[k] += pe("is_userinfo_percent_encode_set", (i,), "UTF_8")[1]
        x.buf = ()
    elif endauth(o, x):
        if x.at and not x.buf:
            x.fail()
            return
        x.p -= len(x.buf) + 1
        x.buf = ()
        x.state = "host"
    else:
        x.buf += (("chr", x.c),)


def parse_host(o, x):
    """the answer the interpreted call was given; checks what was asked"""
    call = x.calls[x.ncall] if x.ncall < len(x.calls) else None
    x.ncall += 1
    if call is None:
        x.bad = "host not parsed"
        x.fail()
        return None
    buf, nots, res, ec = call
    if items_eq(o.st, buf, x.buf) is not True:
        x.bad = "parses the host '%s' instead of '%s'" % (show_items(buf), show_items(x.buf))
    if special(o, x.url["scheme"]) == bool(nots):
        x.bad = "parses the host as %s" % ("not special" if nots else "special")
    if ec:
        x.err()
    if res == ("null",):
        x.fail()
        return None
    return res


def s_hostname(o, x):
    u = x.url
    if x.ov and eqs(o, u["scheme"], "file"):
        x.p -= 1
        x.state = "file_host"
    elif at(o, x.c, ":") and not x.br:
        if not x.buf:
            x.fail()
            return
        h = parse_host(o, x)
        if h is None:
            return
        u["host"] = h
        x.buf = ()
        x.state = "port"
        if x.ov == "hostname":
            x.res = RETURN
    elif endauth(o, x):
        x.p -= 1
        if special(o, u["scheme"]) and not x.buf:
            x.fail()
            return
        if x.ov and not x.buf and (cred(u) or u["port"] is not None):
            x.err()
            x.res = RETURN
            return
        h = parse_host(o, x)
        if h is None:
            return
        u["host"] = h
        x.buf = ()
        x.state = "path_start"
        if x.ov:
            x.res = RETURN
    else:
        if at(o, x.c, "["):
            x.br = 1
        if at(o, x.c, "]"):
            x.br = 0
        x.buf += (("chr", x.c),)


def s_port(o, x):
    u = x.url
    if x.c is not None and o.isin(x.c, *DIGIT):
        x.buf += (("chr", x.c),)
    elif endauth(o, x) or x.ov:
        if x.buf:
            v = C(0)
            for i in x.buf:
                v = add(scale(v, 10), sub(i[1], C(48)))
                if o.isin(v, (65536, 1 << 60)):     # more digits only make it larger
                    x.fail()
                    return
            d = defport(o, u["scheme"])
            u["port"] = None if d is not None and o.eq(v, C(d)) else v
            x.buf = ()
        if x.ov:
            x.res = RETURN
            return
        x.state = "path_start"
        x.p -= 1
    else:
        x.fail()


def s_file(o, x):
    b, u = x.base, x.url
    u["scheme"] = S("file")
    u["host"] = ("empty",)
    if at(o, x.c, "/\\"):
        if at(o, x.c, "\\"):
            x.err()
        x.state = "file_slash"
    elif b is not None and eqs(o, b["scheme"], "file"):
        for k in ("host", "path", "query"):
            u[k] = b[k]
        if query_or_fragment(o, x):
            return
        if x.c is not None:
            u["query"] = None
            if not starts_drive(o, x):
                shorten(o, u)
            else:
                x.err()
                u["path"] = ()
            x.state = "path"
            x.p -= 1
    else:
        x.state = "path"
        x.p -= 1


def s_file_slash(o, x):
    b, u = x.base, x.url
    if at(o, x.c, "/\\"):
        if at(o, x.c, "\\"):
            x.err()
        x.state = "file_host"
    else:
        if b is not None and eqs(o, b["scheme"], "file"):
            u["host"] = b["host"]
            if not starts_drive(o, x) and b["path"] and isdrive(o, b["path"][0], ":"):
                u["path"] += (b["path"][0],)
        x.state = "path"
        x.p -= 1


def s_file_host(o, x):
    u = x.url
    if x.c is None or at(o, x.c, "/\\?#"):
        x.p -= 1
        if not x.ov and isdrive(o, x.buf):
            x.err()
            x.state = "path"
        elif not x.buf:
            u["host"] = ("empty",)
            if x.ov:
                x.res = RETURN
                return
            x.state = "path_start"
        else:
            h = parse_host(o, x)
            if h is None:
                return
            if h[0] in ("domain", "opaque") and eqs(o, h[1], "localhost"):
                h = ("empty",)
            u["host"] = h
            if x.ov:
                x.res = RETURN
                return
            x.buf = ()
            x.state = "path_start"
    else:
        x.buf += (("chr", x.c),)


def s_path_start(o, x):
    if special(o, x.url["scheme"]):
        if at(o, x.c, "\\"):
            x.err()
        x.state = "path"
        if not at(o, x.c, "/\\"):
            x.p -= 1
    elif not x.ov and query_or_fragment(o, x):
        pass
    elif x.c is not None:
        x.state = "path"
        if not at(o, x.c, "/"):
            x.p -= 1


def s_path(o, x):
    u = x.url
    sp = special(o, u["scheme"])
    slash = at(o, x.c, "/") or (sp and at(o, x.c, "\\"))
    if x.c is None or slash or (not x.ov and at(o, x.c, "?#")):
        if sp and at(o, x.c, "\\"):
            x.err()
        if double_dot(o, x.buf):
            shorten(o, u)
            if not slash:
                u["path"] += ((),)
        elif single_dot(o, x.buf):
            if not slash:
                u["path"] += ((),)
        else:
            if eqs(o, u["scheme"], "file") and not u["path"] and isdrive(o, x.buf):
                x.buf = (x.buf[0], ("chr", C(58)))
            u["path"] += (x.buf,)
        x.buf = ()
        query_or_fragment(o, x)
    else:
        urlcp(o, x)
        x.buf += pe("is_path_percent_encode_set", (("chr", x.c),), "UTF_8")[1]


def s_cannot_be_a_base_url_path(o, x):
    if query_or_fragment(o, x):
        return
    if x.c is not None:
        urlcp(o, x)
        u = x.url
        u["path"] = (u["path"][0] + pe("is_c0_control_percent_encode_set", (("chr", x.c),), "UTF_8")[1],) + u["path"][1:]


def s_query(o, x):
    u = x.url
    sp = special(o, u["scheme"])
    if x.enc != "UTF_8" and (not sp or eqs(o, u["scheme"], "ws") or eqs(o, u["scheme"], "wss")):
        x.enc = "UTF_8"
    if x.c is None or (not x.ov and at(o, x.c, "#")):
        u["query"] += pe("is_special_query_percent_encode_set" if sp else "is_query_percent_encode_set", x.buf, x.enc if x.enc == "UTF_8" else C(x.encval))[1]
        x.buf = ()
        if at(o, x.c, "#"):
            u["frag"] = ()
            x.state = "fragment"
    else:
        urlcp(o, x)
        x.buf += (("chr", x.c),)


def s_fragment(o, x):
    if x.c is not None:
        urlcp(o, x)
        x.url["frag"] += pe("is_fragment_percent_encode_set", (("chr", x.c),), "UTF_8")[1]


SPEC = {s: globals()["s_" + ("hostname" if s == "host" else s)] for s in STATES}

# ------------------------------------------------------------------------------------------ contexts
SCH = ["ftp", "file", "http", "https", "ws", "wss", "foo"]
SCH3 = ["http", "file", "foo"]


def ch(name, lo=0, hi=0x10FFFF):
    return ("chr", sym(name, lo, hi))


def syms(name, n, lo=0, hi=0x10FFFF):
    return tuple(ch("%s%d" % (name, i), lo, hi) for i in range(n))


def seq(n):
    return (("seq", n, "u32"),)


def bases(full=True):
    yield None
    for s in SCH if full else SCH3:
        yield mkurl(scheme=S(s), user=seq("bu"), **{"pass": seq("bp")}, host=("domain", seq("bh")), port=sym("bport", 0, 65535), path=(seq("b0"), seq("b1")), query=seq("bq"), frag=seq("bf"))
    yield mkurl(scheme=S("foo"), path=(seq("b0"),), query=seq("bq"), frag=seq("bf"), cbb=1)
    yield mkurl(scheme=S("foo"), path=(), query=None)


def at_pos(pre=1, posts=(1,)):
    yield dict(pre=pre, eof=True, post=0)
    for n in posts:
        yield dict(pre=pre, eof=False, post=n)


def contexts(state):
    if state == "scheme_start":
        for ov in (None, "scheme_start"):
            for a in at_pos(0):
                yield X(ov=ov, **a)
    elif state == "scheme":
        bufs = [S(s) for s in SCH] + [syms("b", n, 97, 122) for n in (1, 2, 3, 4, 5, 6)]
        for buf in bufs:
            for a in at_pos(len(buf), (0, 1, 2, 3)):
                for b in (None, mkurl(scheme=S("http")), mkurl(scheme=S("wss")), mkurl(scheme=S("foo")), mkurl(scheme=S("file"))) if a["post"] == 2 else (None, mkurl(scheme=S("https"))):
                    yield X(buf=buf, base=b, **a)
            for a in at_pos(len(buf)):
                for s in SCH:
                    for port in (None, sym("port", 0, 65535)):
                        for user, pw in (((), ()), (syms("u", 1), ()), ((), syms("w", 1))):
                            for h in ([("domain", seq("h")), ("empty",)] if s == "file" else [("domain", seq("h"))]):
                                if s in ("ftp", "ws") and user:
                                    continue
                                yield X(buf=buf, ov="scheme_start", url=mkurl(scheme=S(s), port=port, user=user, host=h, **{"pass": pw}), **a)
    elif state == "no_scheme":
        for b in bases():
            for a in at_pos(0):
                yield X(base=b, **a)
    elif state in ("special_relative_or_authority", "special_authority_slashes", "special_authority_ignore_slashes"):
        for s in ("http", "wss"):
            for a in at_pos(3, (0, 1, 2)):
                yield X(url=mkurl(scheme=S(s)), base=mkurl(scheme=S(s)), **a)
    elif state == "path_or_authority":
        for a in at_pos(2):
            yield X(url=mkurl(scheme=S("foo")), **a)
    elif state == "relative":
        for b in bases():
            if b is None or b["cbb"] or lit(b["scheme"]) == "file":
                continue
            for u in (mkurl(), mkurl(scheme=b["scheme"])):
                for path in (b["path"], (seq("b0"),), ()):
                    for a in at_pos(0):
                        yield X(base=dict(b, path=path), url=dict(u), **a)
    elif state == "relative_slash":
        for b in bases():
            if b is None or b["cbb"] or lit(b["scheme"]) == "file":
                continue
            for a in at_pos(1):
                yield X(base=b, url=mkurl(scheme=b["scheme"]), **a)
    elif state == "authority":
        for s in SCH3[:1] + SCH3[2:]:
            for n in (0, 1, 2, 3):
                for at_ in (0, 1):
                    for pw in (0, 1) if at_ else (0,):
                        u = mkurl(scheme=S(s), user=seq("user") if at_ else (), **{"pass": seq("pwd") if pw else ()})
                        for a in at_pos(n + 2):
                            yield X(url=u, buf=syms("b", n), at=at_, pw=pw, **a)
    elif state in ("host", "hostname"):
        for s in SCH3:
            for ov in (None, "host", "hostname"):
                if s == "file" and not ov:
                    continue
                for br in (0, 1):
                    for n in (0, 2):
                        for u in ((), syms("u", 1)) if ov and not n else ((),):
                            for port in (None, sym("port", 0, 65535)) if ov and not n else (None,):
                                for a in at_pos(n):
                                    yield X(url=mkurl(scheme=S(s), user=u, port=port, host=("domain", seq("old")) if ov else None), ov=ov, br=br, buf=syms("b", n), **a)
                                    if ov and not n and not u:
                                        yield X(url=mkurl(scheme=S(s), port=port, host=("domain", seq("old")), **{"pass": syms("w", 1)}), ov=ov, br=br, buf=(), **a)
    elif state == "port":
        for s in SCH:
            for ov in (None, "port", "host"):
                for n in (0, 1, 2, 3, 4, 5, 6, 7) if s in ("http", "foo") else (0, 2, 3):
                    for port in (None, sym("old", 0, 65535)) if ov else (None,):
                        for a in at_pos(n + 1):
                            yield X(url=mkurl(scheme=S(s), port=port), ov=ov, buf=syms("b", n, 48, 57), **a)
    elif state == "file":
        for b in list(bases(False)):
            for path in ((), (syms("d", 2),), (syms("d", 3),), (syms("d", 2), seq("e")), (syms("d", 1), seq("e"))) if b and not b["cbb"] and lit(b["scheme"]) == "file" else (b["path"] if b else None,):
                for sch in ((), S("file")):
                    for a in at_pos(0, (0, 1, 2, 3)):
                        yield X(base=dict(b, path=path) if b else None, url=mkurl(scheme=sch), **a)
    elif state == "file_slash":
        for b in list(bases(False)):
            for path in ((), (syms("d", 2),), (syms("d", 3),), (syms("d", 2), seq("e")), (syms("d", 1), seq("e"))) if b and not b["cbb"] and lit(b["scheme"]) == "file" else (b["path"] if b else None,):
                for a in at_pos(1, (0, 1, 2, 3)):
                    yield X(base=dict(b, path=path) if b else None, url=mkurl(scheme=S("file"), host=("empty",)), **a)
    elif state == "file_host":
        for ov in (None, "host", "hostname"):
            for n in (0, 1, 2, 3):
                for a in at_pos(n + 2):
                    yield X(ov=ov, url=mkurl(scheme=S("file"), host=("domain", seq("old")) if ov else ("empty",)), buf=syms("b", n), **a)
    elif state == "path_start":
        for s in SCH:
            for ov in (None, "path_start"):
                for a in at_pos(2):
                    yield X(ov=ov, url=mkurl(scheme=S(s), host=("domain", seq("h"))), **a)
    elif state == "path":
        paths = [(), (syms("d", 2),), (syms("d", 3),), (seq("p0"),), (seq("p0"), seq("p1"))]
        for s in SCH3:
            for ov in (None, "path_start"):
                for n in range(0, 8):
                    for path in [y for y in (paths if n in (0, 2, 6) else paths[::3]) if s != "file" or y == () or y[0] != ("seq", "p0", "u32") and y != (seq("p0"),)]:
                        for a in at_pos(n + 1, (1,)):
                            if n in (2, 4, 6) or path == () or path[0] == paths[3][0]:
                                yield X(ov=ov, url=mkurl(scheme=S(s), host=("empty",) if s == "file" else ("domain", seq("h")), path=path), buf=syms("b", n), **a)
                for a in at_pos(1, (0, 2, 3)):
                    yield X(ov=ov, url=mkurl(scheme=S(s)), buf=syms("b", 1), **a)
        for s in ("ws", "ftp"):
            for a in at_pos(1, (1,)):
                yield X(url=mkurl(scheme=S(s)), buf=syms("b", 1), **a)
    elif state == "cannot_be_a_base_url_path":
        for path in ((seq("p0"),), ((),)):
            for a in at_pos(2, (0, 1, 2, 3)):
                yield X(url=mkurl(scheme=S("foo"), path=path, cbb=1), **a)
    elif state == "query":
        for s in SCH:
            for ov in (None, "query"):
                for enc in ("UTF_8", "Shift_JIS"):
                    for buf in ((), syms("b", 2)):
                        for q0 in ((), seq("q")):
                            for a in at_pos(2, (0, 1, 2) if s == "http" else (1,)):
                                yield X(ov=ov, enc=enc, url=mkurl(scheme=S(s), query=q0), buf=buf, **a)
    elif state == "fragment":
        for s in ("http", "foo"):
            for f in ((), seq("f")):
                for ov in (None, "fragment"):
                    for a in at_pos(2, (0, 1, 2, 3)):
                        yield X(ov=ov, url=mkurl(scheme=S(s), frag=f), **a)


# ------------------------------------------------------------------------------------------ running the code
NOTNL = ISet(((0, 8), (11, 12), (14, 0x10FFFF)))


class Run:
    def __init__(self, p):
        self.p = p
        self.st_vals = enum_values(p, "url_parse_state")
        self.st_name = {v: k for k, v in self.st_vals.items()}
        self.rs = {v: k for k, v in enum_values(p, "url_parse_result").items()}
        self.enc = enum_values(p, "encoding_name")
        self.hosts = None

    def interp(self):
        I = Interp(self.p, ULib())
        I.hooks += [ec_hook, data_hook, pe_hook, self.hook]
        return I

    def hook(self, I, st, f, fi, o, args, e):
        if fi["n"] == "parse_host" and fi["q"].startswith(W) and len(args) >= 2:
            v = I.lib.get(I, st, args[0])
            nots = I.lib.get(I, st, args[1]) if len(args) == 3 else C(0)
            if v[0] != "str" or nots[0] != "c":
                return None
            its = I.lib.norm(st, v)[1]
            lec = ec_root(st, args[-1][1])
            out = []
            for h, ec in self.hosts(its, nots[1]):
                s = st.fork()
                if ec:
                    s.heap[lec] = ("ec", C(77))
                s.meta = dict(s.meta, calls=s.meta.get("calls", ()) + ((its, nots[1], h, ec),))
                out.append((s, ("ref", put_host(I, s, h))))
            return out
        return None

    def state(self, I, x):
        st = St()
        n = x.pre + (0 if x.eof else 1 + x.post)
        x.inp = [sym(("in", i), 0, 0x10FFFF) for i in range(n)]
        for t in x.inp:
            st.restrict(t, NOTNL)
        h = st.heap
        h[INL] = ("str", tuple(("chr", t) for t in x.inp))
        x.p = x.pre
        h[P + ("pointer",)] = ("it", INL, x.pre, 0)
        h[P + ("buffer",)] = ("str", x.buf)
        for f, k in (("atSignSeen", x.at), ("insideBrackets", x.br), ("passwordTokenSeen", x.pw)):
            h[P + (f,)] = C(k)
        h[P + ("m_state",)] = C(self.st_vals[CAMEL_OF(x.state, self.st_vals)])
        h[P + ("m_override",)] = C(self.st_vals[CAMEL_OF(x.ov, self.st_vals)] if x.ov else 0)
        h[P + ("m_encoding_name",)] = C(self.enc[x.enc])
        x.encval = self.enc[x.enc]
        h[P + ("m_url",)] = ("ptr", U)
        put_url(I, st, U, x.url)
        h[P + ("m_base",)] = ("ptr", None)
        if x.base is not None:
            h[P + ("m_base",)] = ("ptr", B)
            put_url(I, st, B, x.base)
        h[P + ("m_ec",)] = ("ptr", EC)
        h[EC] = ("ec", C(0))
        return st


def CAMEL_OF(s, vals):
    c = CAMEL[s]
    if c in vals:
        return c
    for k in vals:
        if k.lower() == c.lower():
            return k
    raise Broken("state %s not found" % c)


def find_state(p, s):
    fs = [i for i in p.byname.get("on_%s_state" % s, []) if i in p.funcs and p.funcs[i].get("body") is not None]
    if len(fs) != 1:
        raise Broken("on_%s_state: %d definitions" % (s, len(fs)))
    return fs[0]


def describe(x, st):
    u = x.url0
    d = ["scheme '%s'" % lit(u["scheme"])]
    if x.ov:
        d.append("override " + x.ov)
    if x.base is not None:
        d.append("base '%s'" % lit(x.base["scheme"]) + (" (cannot be a base)" if x.base["cbb"] else ""))
    d.append("c = EOF" if x.eof else "c in %s" % st.rng(x.inp[x.pre]))
    d.append("buffer '%s'" % show_items(x.buf0))
    return ", ".join(d)


def check_state(rep, R, state):
    f = find_state(R.p, state)
    where = R.p.where(f)
    rep.count("states")
    for x0 in contexts(state):
        rep.count("contexts")
        x0.state = state
        I = R.interp()
        R.hosts = lambda its, nots: [(("null",), 1), (("domain", S("localhost")), 0), (("domain", syms("hh", 3)), 1), (("ipv4", sym("v4")), 0), (("opaque", syms("hh", 2)), 0), (("domain", syms("hh", 9)), 0)]
        st = R.state(I, x0)
        arg = C(10) if x0.eof else x0.inp[x0.pre]
        key0 = "%s:%s" % (state, "override" if x0.ov else "plain")
        try:
            paths = I.run(f, st, ("ptr", P), [arg])
        except (Unsupported, LoopLimit, RecursionError) as ex:
            rep.undecided(key0, "%s: %s" % (type(ex).__name__, ex))
            continue
        for pa in paths:
            rep.count("paths")
            one_path(rep, R, I, state, where, x0, pa, key0)


def one_path(rep, R, I, state, where, x0, pa, key0):
    past = [e for e in pa.st.eff if e[0] in ("past-end", "front-of-empty", "bad-get")]
    x0.url0, x0.buf0 = x0.url, x0.buf
    if past:
        rep.fail(key0 + ":past-end", "%s: %s state: reads outside the input, or through an empty optional or container (%s)" % (where, state, describe(x0, pa.st)))
        return
    if pa.kind != "ret":
        rep.fail(key0 + ":abort", "%s: %s state: aborts (%s)" % (where, state, describe(x0, pa.st)))
        return
    opq = [e for e in pa.st.eff if e[0] == "opaque"]
    st = pa.st
    h = st.heap
    val = I.lib.get(I, st, pa.val)
    got_url = get_url(I, st, U)
    got = dict(state=h.get(P + ("m_state",)), p=h.get(P + ("pointer",)), buf=get_str(I, st, P + ("buffer",)), at=h.get(P + ("atSignSeen",)), br=h.get(P + ("insideBrackets",)),
               pw=h.get(P + ("passwordTokenSeen",)), ec=h.get(EC), enc=h.get(P + ("m_encoding_name",)))
    calls = st.meta.get("calls", ())

    def spec(o):
        x = copy.copy(x0)
        x.url = dict(x0.url)
        x.calls, x.ncall, x.bad = calls, 0, None
        SPEC[state](o, x)
        # localhost: a symbolic host of the same length may be it
        return x
    try:
        outs = outcomes(st, spec)
    except Undecided as ex:
        rep.undecided(key0, str(ex))
        return
    for s2, x in outs:
        bad, und = [], []
        res = {FAIL: "Failure", RETURN: "Return", CONT: "Continue"}[x.res]
        if x.bad:
            bad.append(x.bad)
        if x.ncall != len(calls) and not x.bad:
            bad.append("parses a host where the standard does not")
        if val[0] != "c":
            und.append("result")
        else:
            g = R.rs.get(val[1], "?")
            if g != res and not (g in ("Failure", "Return") and res in ("Failure", "Return")):
                bad.append("answers %s, the standard says %s" % (g, res))
        ec = got["ec"]
        if ec is None or ec[0] != "ec" or ec[1][0] != "c":
            und.append("error code")
        elif bool(ec[1][1]) != bool(x.ec):
            bad.append("a validation error is %s" % ("not reported" if x.ec else "reported that the standard does not have"))
        if not bad and x.res == CONT or x.ov:
            for k, r in url_diff(s2, got_url, x.url):
                (bad if r is False else und).append("url's %s is %s, the standard says %s" % (k, showf(k, got_url[k]), showf(k, x.url[k])))
        if not bad and x.res == CONT:
            want = CAMEL_OF(x.state, R.st_vals)
            if got["state"] is None or got["state"][0] != "c":
                und.append("state")
            elif R.st_name.get(got["state"][1]) != want:
                bad.append("next state is %s, the standard says %s" % (R.st_name.get(got["state"][1]), want))
            pp = got["p"]
            if pp == ("itend", INL):
                pp = ("it", INL, len(x.inp), 0)
            if pp is None or pp[0] != "it" or pp[1] != INL:
                und.append("pointer")
            elif pp[2] != x.p:
                bad.append("pointer moves by %d, the standard says %d" % (pp[2] - x.pre, x.p - x.pre))
            r = items_eq(s2, got["buf"], x.buf)
            if r is not True:
                (bad if r is False else und).append("buffer is '%s', the standard says '%s'" % (show_items(got["buf"]), show_items(x.buf)))
            for k, n in (("at", "atSignSeen"), ("br", "insideBrackets"), ("pw", "passwordTokenSeen")):
                if state in ("authority", "host", "hostname"):
                    r = val_eq(s2, got[k], getattr(x, k))
                    if r is not True:
                        (bad if r is False else und).append("%s differs" % n)
            if state == "query":
                r = val_eq(s2, got["enc"], C(R.enc[x.enc]))
                if r is not True:
                    (bad if r is False else und).append("encoding differs")
        if bad and not opq:
            rep.fail("%s:%s" % (key0, bad[0].split(",")[0][:40]), "%s: %s state: %s (%s)" % (where, state, "; ".join(bad[:3]), describe(x, s2)))
        elif bad or und:
            rep.undecided(key0, "%s%s" % ("; ".join((bad + und)[:2]), " after unmodelled " + opq[0][1] if opq else ""))
        else:
            rep.ok("%s: %s" % (state, describe(x, s2)) if len(rep.samples) < 12 and rep.discharged % 400 == 0 else None)


# ------------------------------------------------------------------------------------------ the driver
def check_run(rep, p, R):
    fs = [i for i in p.byname.get("run", []) if i in p.funcs and "basic_url_parser" in p.finfo[i]["q"]]
    if len(fs) != 1:
        raise Broken("basic_url_parser::run: %d definitions" % len(fs))
    f = fs[0]
    where = p.where(f)
    for state in STATES:
        for n, k in ((0, 0), (1, 0), (2, 1), (2, 2), (3, 1)):
            for step in ("stay", "back", "restart", "ahead", "fail", "return"):
                key = "run:%s" % state
                I = R.interp()
                log = []

                def hk(I, st, f2, fi, o, args, e, n=n):
                    if fi["n"].startswith("on_") and fi["n"].endswith("_state"):
                        st.meta = dict(st.meta, log=st.meta.get("log", ()) + ((fi["n"], I.lib.get(I, st, args[0]), st.heap[P + ("pointer",)]),))
                        first = len(st.meta["log"]) == 1
                        pp = st.heap[P + ("pointer",)]
                        cur = pp[2] if pp[0] == "it" else n
                        if first:
                            if step == "back":
                                st.heap[P + ("pointer",)] = ("it", INL, cur - 1, 0)
                            if step == "restart":
                                st.heap[P + ("pointer",)] = ("it", INL, -1, 0)
                            if step == "ahead" and cur < n:
                                st.heap[P + ("pointer",)] = ("it", INL, cur + 1, 0)
                            if step in ("fail", "return"):
                                return [(st, C(next(v for v, k2 in R.rs.items() if k2 == ("Failure" if step == "fail" else "Return"))))]
                            return [(st, C(next(v for v, k2 in R.rs.items() if k2 == "Continue")))]
                        if len(st.meta["log"]) == 2 and cur < n:
                            return [(st, C(next(v for v, k2 in R.rs.items() if k2 == "Return")))]
                        return [(st, C(next(v for v, k2 in R.rs.items() if k2 == "Continue")))]
                    return None
                I.hooks.insert(0, hk)
                x = X(pre=k, eof=k == n, post=max(0, n - k - 1), url=mkurl(scheme=S("http"), path=(seq("p0"),), query=seq("q")))
                x.state = state
                st = R.state(I, x)
                pas = I.run(f, st, ("ptr", P), [])
                rep.count("paths", len(pas))
                for pa in pas:
                    lg = pa.st.meta.get("log", ())
                    if pa.kind != "ret":
                        rep.fail(key + ":abort", "%s: aborts in %s state" % (where, state))
                        continue
                    if any(e[0] == "past-end" for e in pa.st.eff):
                        rep.fail(key + ":past", "%s: reads outside the input" % where)
                        continue
                    # expected
                    want = []
                    cur, cont, ans = k, True, None
                    for m in range(4):
                        want.append((cur, x.inp[cur] if 0 <= cur < n else C(10)))
                        if m == 0:
                            if step in ("fail", "return"):
                                ans = "null"
                                break
                            cur = {"stay": cur, "back": cur - 1, "restart": -1, "ahead": cur + 1 if cur < n else cur}[step]
                        elif m == 1 and cur < n:
                            ans = "null"
                            break
                        if cur >= n:
                            ans = "url"
                            break
                        cur += 1
                    bad = None
                    names = ["on_%s_state" % state] * len(want)
                    got = [a[0] for a in lg]
                    if any(a != b for a, b in zip(got, names)):
                        bad = "calls %s in the %s state" % (got, state)
                    elif len(lg) != len(want):
                        bad = "runs %d steps where the standard runs %d (input of %d code points, pointer at %d, state %s)" % (len(lg), len(want), n, k, step)
                    else:
                        for (nm_, c, pp), (cur, wc) in zip(lg, want):
                            if teq(pa.st, c, wc) is not True:
                                bad = "passes the wrong code point at position %d of %d" % (cur, n)
                    v = I.lib.get(I, pa.st, pa.val)
                    if not bad:
                        if v[0] != "opt":
                            rep.undecided(key, "unmodelled answer")
                            continue
                        if (v[1] == C(0)) != (ans == "null"):
                            bad = "answers %s after '%s'" % ("null" if v[1] == C(0) else "a URL", step)
                        elif ans == "url":
                            y = I.lib.payload(I, pa.st, None, v)
                            d = url_diff(pa.st, get_url(I, pa.st, y[1]), x.url) if y is not None and y[0] == "ref" else [("record", None)]
                            if any(r is False for _, r in d):
                                bad = "the answer differs from the record in %s" % d[0][0]
                            elif d:
                                rep.undecided(key, "answer's %s" % d[0][0])
                                continue
                    if bad:
                        rep.fail(key, "%s: %s" % (where, bad))
                    else:
                        rep.ok()


def check_ctor(rep, p, R):
    fs = [i for i in p.byname.get("basic_url_parser", []) if i in p.funcs and p.funcs[i].get("ctor") and len(p.funcs[i]["params"]) == 6]
    if len(fs) != 1:
        raise Broken("basic_url_parser constructor not found")
    f = fs[0]
    where = p.where(f)
    for n in range(0, 5):
        for given in (0, 1):
            for ov in (None, "host"):
                if n > 3 and (given or ov):
                    continue
                key = "constructor"
                I = R.interp()

                def hk(I, st, f2, fi, o, args, e):
                    if fi["n"] == "get_output_encoding_name":
                        v = I.lib.get(I, st, args[0])
                        return [(st, ("call", ("outenc", v), 0, 100))]
                    return None
                I.hooks.insert(0, hk)
                st = St()
                inp = [sym(("in", i), 0, 0x10FFFF) for i in range(n)]
                st.heap[("IN0",)] = ("str", tuple(("chr", t) for t in inp))
                st.heap[EC] = ("ec", C(0))
                put_url(I, st, U, mkurl(scheme=S("http"), host=("domain", seq("h"))))
                enc = sym("enc", 1, 40)
                ovn = R.st_vals[CAMEL_OF(ov, R.st_vals)] if ov else 0
                for pa in I.run(f, st, ("ptr", P), [("ref", ("IN0",)), ("ref", EC), ("ptr", None), enc, ("ptr", U) if given else ("ptr", None), C(ovn)]):
                    rep.count("paths")
                    if pa.kind != "ret":
                        rep.fail(key + ":abort", "%s: aborts" % where)
                        continue

                    def spec(o):
                        a, b, err = 0, n, 0
                        if not given:
                            while a < b and o.isin(inp[a], (0, 0x20)):
                                a += 1
                                err = 1
                            while a < b and o.isin(inp[b - 1], (0, 0x20)):
                                b -= 1
                                err = 1
                        out = []
                        for t in inp[a:b]:
                            if o.isin(t, (9, 10), (13, 13)):
                                err = 1
                            else:
                                out.append(t)
                        return out, err
                    for s2, (out, err) in outcomes(pa.st, spec):
                        h = pa.st.heap
                        got = get_str(I, pa.st, INL)
                        bad, und = [], []
                        r = items_eq(s2, got, tuple(("chr", t) for t in out))
                        if r is not True:
                            (bad if r is False else und).append("the input becomes '%s', the standard says '%s'" % (show_items(got), show_items(tuple(("chr", t) for t in out))))
                        ec = h.get(EC)
                        if ec[0] != "ec" or ec[1][0] != "c":
                            und.append("ec")
                        elif bool(ec[1][1]) != bool(err):
                            bad.append("a validation error is %s" % ("not reported" if err else "reported without reason"))
                        w = {"m_state": C(ovn or R.st_vals[CAMEL_OF("scheme_start", R.st_vals)]), "m_override": C(ovn), "atSignSeen": C(0), "insideBrackets": C(0), "passwordTokenSeen": C(0),
                             "m_encoding_name": ("call", ("outenc", enc), 0, 100)}
                        for k, v in w.items():
                            g = h.get(P + (k,))
                            if g is None or not is_int(g):
                                und.append(k)
                            elif teq(s2, g, v) is not True:
                                bad.append("%s is %s, the standard says %s" % (k, g, v))
                        u = h.get(P + ("m_url",))
                        if u == ("ptr", None):
                            bad.append("the parser has no record to write to")
                        elif u != ("ptr", U) and given or (not given and u != ("ptr", P + ("m_url_",))):
                            und.append("m_url %r" % (u,))
                        elif given:
                            if url_diff(s2, get_url(I, pa.st, U), mkurl(scheme=S("http"), host=("domain", seq("h")))):
                                bad.append("changes the given URL")
                        pp = h.get(P + ("pointer",))
                        if pp is None or pp[0] not in ("it", "itend") or pp[1] != INL:
                            und.append("pointer")
                        elif pp[0] == "it" and pp[2] != 0 or pp[0] == "itend" and out:
                            bad.append("the pointer does not start at the first code point")
                        b = get_str(I, pa.st, P + ("buffer",))
                        if b != () and not (len(b) == 1 and b[0][:2] == ("seq", P + ("buffer",))):
                            bad.append("the buffer is not empty")
                        if bad:
                            rep.fail(key + ":" + bad[0][:30], "%s: %s (%d code points, %s)" % (where, "; ".join(bad), n, "record given" if given else "no record"))
                        elif und:
                            rep.undecided(key, str(und))
                        else:
                            rep.ok()


def check_helpers(rep, p, R):
    """predicates on strings of every relevant length"""
    def run(name, nargs, mk, spec, pred=None):
        for f in [i for i in p.byname.get(name, []) if i in p.funcs and len(p.funcs[i]["params"]) == nargs and p.finfo[i]["q"].startswith(W) and (not pred or pred(p.funcs[i]))]:
            rep.count("helpers")
            for n in range(0, 8):
                I = R.interp()
                st = St()
                its = syms("k", n)
                l = ("ARG",)
                st.heap[l] = ("str", its)
                args = mk(I, st, l, its)
                for pa in I.run(f, st, None, args):
                    rep.count("paths")
                    if pa.kind != "ret" or any(e[0] == "past-end" for e in pa.st.eff):
                        rep.fail(name + ":abort", "%s: aborts or reads outside a string of %d code points" % (p.where(f), n))
                        continue
                    v = I.lib.get(I, pa.st, pa.val)
                    for s2, w in outcomes(pa.st, lambda o: spec(o, its, pa.st, I)):
                        if v[0] == "opt":
                            g = None if v[1] == C(0) else I.lib.payload(I, pa.st, None, v)
                        else:
                            g = v
                        r = val_eq(s2, g, w)
                        if r is False:
                            rep.fail(name, "%s: answers %s for '%s' with %s, the standard says %s" % (p.where(f), g, show_items(its), [str(s2.rng(i[1])) for i in its], w))
                        elif r is None:
                            rep.undecided(name, "answer %r" % (g,))
                        else:
                            rep.ok()
    one = lambda I, st, l, its: [("ref", l)]
    B1 = lambda b: C(int(bool(b)))
    run("is_special_scheme", 1, one, lambda o, s, st, I: B1(special(o, s)))
    run("default_port", 1, one, lambda o, s, st, I: (lambda d: None if d is None else C(d))(defport(o, s)))
    run("is_single_dot_path_segment", 1, one, lambda o, s, st, I: B1(single_dot(o, s)))
    run("is_double_dot_path_segment", 1, one, lambda o, s, st, I: B1(double_dot(o, s)))
    isS = lambda fn: is_strcls(fn["params"][0]["t"].lstrip("&"))
    run("is_windows_drive_letter", 1, one, lambda o, s, st, I: B1(isdrive(o, s)), isS)
    run("is_normalized_windows_drive_letter", 1, one, lambda o, s, st, I: B1(isdrive(o, s, ":")), isS)

    class Y:
        pass

    def sd(o, s, st, I):
        y = X(pre=0, eof=not s, post=0)
        y.inp = [i[1] for i in s]
        return B1(starts_drive(o, y))
    run("starts_with_windows_drive_letter", 2, lambda I, st, l, its: [("it", l, 0, 0), ("it", l, len(its), 0)], sd)
    # predicates on records
    for name in ("is_special", "includes_credentials", "cannot_have_username_or_password_or_port", "shorten_urls_path"):
        for f in [i for i in p.byname.get(name, []) if i in p.funcs and len(p.funcs[i]["params"]) == 1 and p.finfo[i]["q"].startswith(W)]:
            rep.count("helpers")
            for s in SCH:
                for user, pw in (((), ()), (syms("u", 1), ()), ((), syms("w", 1))):
                    for h in (None, ("empty",), ("domain", syms("h", 1)), ("ipv4", sym("v4")), ("opaque", syms("h", 2)), ("opaque", ()), ("ipv6", tuple(sym("v6%d" % i, 0, 65535) for i in range(8)))):
                        for cbb in (0, 1):
                            for path in ((), (syms("d", 2),), (syms("d", 3),), (syms("d", 2), syms("e", 2))) if name == "shorten_urls_path" else ((),):
                                if name == "shorten_urls_path" and (cbb or user or pw or h):
                                    continue
                                if name != "cannot_have_username_or_password_or_port" and name != "includes_credentials" and (user or pw):
                                    continue
                                I = R.interp()
                                st = St()
                                u0 = mkurl(scheme=S(s), user=user, host=h, cbb=cbb, path=path, port=sym("port", 0, 65535), **{"pass": pw})
                                put_url(I, st, U, u0)
                                for pa in I.run(f, st, None, [("ref", U)]):
                                    rep.count("paths")
                                    if pa.kind != "ret" or any(e[0] in ("past-end", "front-of-empty", "bad-get") for e in pa.st.eff):
                                        rep.fail(name + ":abort", "%s: aborts or reads a value that is not there (scheme %s, host %s)" % (p.where(f), s, showf("host", h)))
                                        continue

                                    def spec(o):
                                        u = dict(u0)
                                        if name == "is_special":
                                            return B1(s in SPECIAL), u
                                        if name == "includes_credentials":
                                            return B1(cred(u)), u
                                        if name == "shorten_urls_path":
                                            shorten(o, u)
                                            return None, u
                                        return B1(h is None or h == ("empty",) or (h[0] in ("domain", "opaque") and not h[1]) or cbb or s == "file"), u
                                    for s2, (w, u) in outcomes(pa.st, spec):
                                        d = url_diff(s2, get_url(I, pa.st, U), u)
                                        if any(r is False for _, r in d):
                                            rep.fail(name, "%s: leaves %s as %s, the standard says %s (scheme %s)" % (p.where(f), d[0][0], showf(d[0][0], get_url(I, pa.st, U)[d[0][0]]), showf(d[0][0], u[d[0][0]]), s))
                                        elif d:
                                            rep.undecided(name, str(d))
                                        elif w is not None and val_eq(s2, I.lib.get(I, pa.st, pa.val), w) is not True:
                                            v = I.lib.get(I, pa.st, pa.val)
                                            if is_int(v):
                                                rep.fail(name, "%s: answers %s, the standard says %s (scheme %s, host %s, credentials %s, cannot-be-a-base %s)" % (p.where(f), v, w, s, showf("host", h), cred(u0), cbb))
                                            else:
                                                rep.undecided(name, "answer %r" % (v,))
                                        else:
                                            rep.ok()


def check(rep):
    p = export("url.cpp")
    R = Run(p)
    for s in STATES:
        rep.guard(s, check_state, rep, R, s)
    rep.guard("run", check_run, rep, p, R)
    rep.guard("constructor", check_ctor, rep, p, R)
    rep.guard("helpers", check_helpers, rep, p, R)
    rep.need("states", 21)
