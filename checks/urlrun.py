"""Environment shared by the URL checks: records, hosts, error codes and strings of the URL parser."""
from common import *
from absint import *
from iset import ISet
from lib import Lib, cls_of, elem_type, is_strcls
from oracle import *

W = "wordring::whatwg::"
ALTS = ("std::monostate", W + "domain_base", W + "ipv4_address_base", W + "ipv6_address_base", W + "opaque_host_base", W + "empty_host_base")
P, U, B, EC = ("PARSER",), ("URL",), ("BASE",), ("EC",)
INL = P + ("m_input",)
STATES = ["scheme_start", "scheme", "no_scheme", "special_relative_or_authority", "path_or_authority", "relative", "relative_slash", "special_authority_slashes",
          "special_authority_ignore_slashes", "authority", "host", "hostname", "port", "file", "file_slash", "file_host", "path_start", "path", "cannot_be_a_base_url_path",
          "query", "fragment"]
NUM = {s: i + 1 for i, s in enumerate(STATES)}
FAIL, RETURN, CONT = 1, 2, 3
UTF8 = None


def S(s):
    return tuple(("chr", C(ord(c))) for c in s)


def lit(items):
    """python string of concrete items, or None"""
    try:
        if all(i[0] == "chr" and i[1][0] == "c" for i in items):
            return "".join(chr(i[1][1]) for i in items)
    except (TypeError, IndexError, ValueError):
        pass
    return None


class ULib(Lib):
    """strings whose data() may be walked by pointer: one past the last element reads the terminating null"""

    def deref(self, I, st, v):
        if v[0] == "itend":
            v = ("it", v[1], len(self.items(st, v[1])), 0)
        if v[0] == "it" and not v[3]:
            its = self.items(st, v[1])
            if v[2] == len(its) and all(i[0] == "chr" for i in its):
                return C(0)
            if v[2] < 0 or v[2] > len(its):
                st.eff = st.eff + (("past-end", v[1]),)
                return ("opq", "past-end")
        return Lib.deref(self, I, st, v)

    def advance(self, I, st, v, d):
        if v[0] == "it" and d[0] == "c" and not v[3]:
            its = self.items(st, v[1])
            if all(i[0] == "chr" for i in its):
                return ("it", v[1], v[2] + d[1], 0)
        if v[0] == "itend" and d[0] == "c":
            its = self.items(st, v[1])
            if all(i[0] == "chr" for i in its):
                return ("it", v[1], len(its) + d[1], 0)
        return Lib.advance(self, I, st, v, d)

    def it_cmp(self, I, st, op, a, b):
        if a[0] in ("it", "itend") and b[0] in ("it", "itend") and a[1] == b[1]:
            its = self.items(st, a[1])
            if all(i[0] == "chr" for i in its):
                pos = lambda x: C(len(its) if x[0] == "itend" else x[2] + x[3])
                return I.compare(st, op, pos(a), pos(b))
        return Lib.it_cmp(self, I, st, op, a, b)


class SLib(ULib):
    """for code that works on any iterator: the element at the end may not be read"""

    def deref(self, I, st, v):
        if v[0] == "itend" or v[0] == "it" and not v[3] and v[2] == len(self.items(st, v[1])):
            st.eff = st.eff + (("past-end", v[1]),)
            return ("opq", "past-end")
        return ULib.deref(self, I, st, v)


# ------------------------------------------------------------------------------------------ hosts
def put_host(I, st, h):
    """host_base object of the value h: ('null',) ('domain', items) ('ipv4', t) ('ipv6', ts) ('opaque', items) ('empty',)"""
    l = I.newtmp()
    k = {"null": 0, "domain": 1, "ipv4": 2, "ipv6": 3, "opaque": 4, "empty": 5}[h[0]]
    m = I.newtmp()
    if h[0] in ("domain", "opaque"):
        st.heap[m + ("m_value",)] = ("str", h[1])
    elif h[0] == "ipv4":
        st.heap[m + ("m_value",)] = h[1]
    elif h[0] == "ipv6":
        st.heap[m + ("m_value",)] = ("str", tuple(("chr", x) for x in h[1]))
    st.heap[l + ("m_value",)] = ("var", k, ("ref", m), ALTS)
    return l


def get_host(I, st, l):
    n = 0
    while l in st.heap and st.heap[l][0] in ("bindref", "alias", "ref") and n < 8:
        l = st.heap[l][1]
        n += 1
    v = st.heap.get(l + ("m_value",))
    if v is None or v[0] != "var":
        return ("?", v)
    k = v[1]
    if k in (0, 5):
        return ("null",) if k == 0 else ("empty",)
    if v[2] is None or v[2][0] != "ref":
        return ("?", v)
    x = I.lib.get(I, st, ("ref", v[2][1] + ("m_value",)))
    if k == 2:
        return ("ipv4", x)
    if x is None or x[0] != "str":
        return ("?", x)
    x = I.lib.norm(st, x)
    if k == 3:
        return ("ipv6", tuple(i[1] for i in x[1]))
    return ({1: "domain", 4: "opaque"}[k], x[1])


def get_str(I, st, loc):
    v = I.lib.get(I, st, ("ref", loc))
    if v is None or v[0] != "str":
        return ("?", v)
    return I.lib.norm(st, v)[1]


def opt_of(I, st, loc):
    """(has, payload value or location ref) of an optional"""
    v = I.lib.get(I, st, ("ref", loc))
    if v is None or v[0] != "opt":
        return ("?", v)
    if v[1] == C(0):
        return None
    if v[1] != C(1):
        r = st.rng(v[1])
        if r.size() != 1:
            return ("?", v)
        if 0 in r:
            return None
    return ("some", I.lib.payload(I, st, loc, v))


def put_url(I, st, l, u):
    h = st.heap
    for f, k in (("m_scheme", "scheme"), ("m_username", "user"), ("m_password", "pass")):
        h[l + (f,)] = ("str", u[k])
    h[l + ("m_host",)] = ("opt", C(0), None) if u["host"] is None else ("opt", C(1), ("ref", put_host(I, st, u["host"])))
    h[l + ("m_port",)] = ("opt", C(0), None) if u["port"] is None else ("opt", C(1), u["port"])
    its = []
    for seg in u["path"]:
        m = I.newtmp()
        h[m] = ("str", seg)
        its.append(("chr", ("ref", m)))
    h[l + ("m_path",)] = ("str", tuple(its))
    for f, k in (("m_query", "query"), ("m_fragment", "frag")):
        h[l + (f,)] = ("opt", C(0), None) if u[k] is None else ("opt", C(1), ("str", u[k]))
    h[l + ("m_cannot_be_base_url",)] = C(u["cbb"]) if isinstance(u["cbb"], int) else u["cbb"]
    h[l + ("m_blob_url_entry",)] = ("str", ())


def get_url(I, st, l):
    u = {}
    for f, k in (("m_scheme", "scheme"), ("m_username", "user"), ("m_password", "pass")):
        u[k] = get_str(I, st, l + (f,))
    x = opt_of(I, st, l + ("m_host",))
    u["host"] = x if x is None or x[0] == "?" else get_host(I, st, x[1][1]) if x[1] and x[1][0] == "ref" else ("?", x)
    x = opt_of(I, st, l + ("m_port",))
    u["port"] = x if x is None or x[0] == "?" else I.lib.get(I, st, x[1])
    v = I.lib.get(I, st, ("ref", l + ("m_path",)))
    if v is None or v[0] != "str":
        u["path"] = ("?", v)
    else:
        segs = []
        for i in I.lib.norm(st, v)[1]:
            w = I.lib.get(I, st, i[1]) if i[0] == "chr" else None
            segs.append(I.lib.norm(st, w)[1] if w is not None and w[0] == "str" else ("?", i))
        u["path"] = tuple(segs)
    for f, k in (("m_query", "query"), ("m_fragment", "frag")):
        x = opt_of(I, st, l + (f,))
        if x is not None and x[0] != "?":
            w = I.lib.get(I, st, x[1])
            x = I.lib.norm(st, w)[1] if w is not None and w[0] == "str" else ("?", w)
        u[k] = x
    u["cbb"] = I.lib.get(I, st, ("ref", l + ("m_cannot_be_base_url",)))
    return u


def mkurl(**kw):
    u = dict(scheme=(), user=(), host=None, port=None, path=(), query=None, frag=None, cbb=0)
    u["pass"] = ()
    u.update(kw)
    return u


# ------------------------------------------------------------------------------------------ comparison
SETS = {}


def sets():
    """percent-encode sets of the URL standard (ASCII members; everything above 0x7E is a member of all)"""
    if not SETS:
        c0 = set(range(0x20))
        fr = c0 | set(map(ord, ' "<>`'))
        qu = c0 | set(map(ord, ' "#<>'))
        pa = fr | set(map(ord, "#?{}"))
        us = pa | set(map(ord, "/:;=@[\\]^|"))
        co = us | set(map(ord, "$%&+,"))
        SETS.update(is_c0_control_percent_encode_set=c0, is_fragment_percent_encode_set=fr, is_query_percent_encode_set=qu, is_special_query_percent_encode_set=qu | {0x27},
                    is_path_percent_encode_set=pa, is_userinfo_percent_encode_set=us, is_component_percent_encode_set=co)
        SETS["application_x_www_form_urlencoded_percent_encode_set"] = co | set(map(ord, "!'()~"))
    return SETS


def simplify(st, items):
    """a percent-encoded run of characters known to lie outside the set is the characters themselves"""
    out = []
    for i in items:
        if i[0] == "seq" and isinstance(i[1], tuple) and i[1][0] == "pe" and i[1][1] in sets() and all(x[0] == "chr" for x in i[1][2]):
            st_set = sets()[i[1][1]]
            for x in i[1][2]:
                r = st.rng(x[1])
                if r and r.max() <= 0x7E and not any(m in r for m in st_set):
                    out.append(x)
                else:
                    out.append(("seq", ("pe", i[1][1], (x,), i[1][3]), "u32"))
        else:
            out.append(i)
    return tuple(out)


def q(v):
    """the value cannot be read"""
    return isinstance(v, tuple) and len(v) > 0 and v[0] in ("?", "opq") or isinstance(v, tuple) and any(q(x) for x in v if isinstance(x, tuple))


def items_eq(st, a, b):
    """True/False/None for two sequences of items"""
    if q(a) or q(b):
        return None
    a, b = simplify(st, a), simplify(st, b)
    if len(a) != len(b):            # distinct words over free sequences differ for some values of them
        return False if all(i[0] == "chr" or isinstance(i[1], str) or isinstance(i[1], tuple) and i[1][0] == "pe" for i in a + b) else None
    r = True
    for x, y in zip(a, b):
        if x == y:
            continue
        if x[0] == "chr" and y[0] == "chr":
            e = teq(st, x[1], y[1])
            if e is False:
                return False
            r = r and e
        elif x[0] == "seq" and y[0] == "seq" and isinstance(x[1], tuple) and isinstance(y[1], tuple) and x[1][0] == "pe" == y[1][0]:
            if x[1][1] != y[1][1] or x[1][3] != y[1][3]:
                return False
            e = items_eq(st, x[1][2], y[1][2])
            if e is False:
                return False
            r = r and e
        else:
            return False
    return r


def val_eq(st, a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, int):
        a = C(a)
    if isinstance(b, int):
        b = C(b)
    if q(a) or q(b):
        return None
    if is_int(a) and is_int(b):
        return teq(st, a, b)
    return a == b


def host_eq(st, a, b):
    if a is None or b is None:
        return a is None and b is None
    if a[0] in ("?", "opq") or b[0] in ("?", "opq"):
        return None
    if a[0] != b[0]:
        return False
    if q(a) or q(b):
        return None
    if a[0] in ("domain", "opaque"):
        return items_eq(st, a[1], b[1])
    if a[0] == "ipv4":
        return teq(st, a[1], b[1])
    if a[0] == "ipv6":
        return items_eq(st, tuple(("chr", x) for x in a[1]), tuple(("chr", x) for x in b[1]))
    return True


def url_diff(st, got, want):
    """list of (field, verdict) that differ (False) or cannot be decided (None)"""
    out = []
    for k in want:
        g, w = got[k], want[k]
        if k == "host":
            r = host_eq(st, g, w)
        elif k == "path":
            if q(g):
                r = None
            elif len(g) != len(w):
                r = False
            else:
                rs = [items_eq(st, x, y) for x, y in zip(g, w)]
                r = False if False in rs else None if None in rs else True
        elif k in ("port", "cbb"):
            r = val_eq(st, g, w)
        else:
            r = (g is None) == (w is None) if g is None or w is None else items_eq(st, g, w)
        if r is not True:
            out.append((k, r))
    return out


def show_items(items):
    if items is None:
        return "null"
    out = ""
    for i in items:
        if not isinstance(i, tuple) or len(i) < 2:
            return str(items)[:60]
        if i[0] == "chr" and isinstance(i[1], tuple) and i[1][0] == "c":
            out += chr(i[1][1]) if 32 <= i[1][1] < 127 else "\\x%X" % i[1][1]
        elif i[0] == "chr" and isinstance(i[1], tuple) and i[1][0] == "s":
            out += "<%s>" % (i[1][1],)
        elif i[0] == "seq" and isinstance(i[1], tuple) and i[1][0] == "pe":
            out += "pct{%s,%s}" % (show_items(i[1][2]), i[1][1].replace("_percent_encode_set", "").replace("is_", ""))
        else:
            out += "<%s>" % (str(i[1])[:30],)
    return out


def showf(k, v):
    if v is None:
        return "null"
    if k == "host":
        return v[0] + (":" + show_items(v[1]) if v[0] in ("domain", "opaque") else "")
    if k == "path":
        return "[" + ", ".join("'" + show_items(x) + "'" for x in v) + "]" if not q(v) else str(v)[:60]
    if isinstance(v, tuple) and v and isinstance(v[0], tuple) or v == ():
        return "'" + show_items(v) + "'"
    return str(v)[:60]


# ------------------------------------------------------------------------------------------ hooks
def fname(I, st, v):
    v = I.lib.get(I, st, v)
    if v[0] in ("fn", "mfn"):
        return I.p.finfo[v[1]]["n"]
    return "?"


def ec_root(st, l):
    n = 0
    while l in st.heap and st.heap[l][0] in ("bindref", "alias", "ref") and n < 8:
        l = st.heap[l][1]
        n += 1
    return l


def is_ec(I, st, o):
    return o is not None and o[0] == "ref" and st.heap.get(ec_root(st, o[1]), ("",))[0] == "ec"


def ec_hook(I, st, f, fi, o, args, e):
    """std::error_code as (ec, value)"""
    n = fi["n"]
    c = cls_of(e.get("t") or "")
    if e.get("k") == "Ctor" and c == "std::error_code":
        if not args:
            return [(st, ("ec", C(0)))]
        if len(args) == 1:
            v = I.lib.get(I, st, args[0])
            return [(st, v if v[0] == "ec" else ("ec", v))]
    if n == "make_error_code" and args:
        v = I.lib.get(I, st, args[0])
        if is_int(v):
            return [(st, ("ec", v))]
    if cls_of(fi.get("cls")) == "std::error_code" or o is not None and is_ec(I, st, o):
        l = ec_root(st, o[1]) if o is not None and o[0] in ("ref", "ptr") else None
        v = st.heap.get(l) if l is not None else o
        if n == "operator=" and l is not None:
            a = I.lib.get(I, st, args[0])
            st.heap[l] = a if a[0] == "ec" else ("ec", a)
            return [(st, ("ref", l))]
        if n in ("operator bool",) and v is not None and v[0] == "ec":
            return I.compare(st, "!=", v[1], C(0))
        if n == "value" and v is not None and v[0] == "ec":
            return [(st, v[1])]
        if n == "clear" and l is not None:
            st.heap[l] = ("ec", C(0))
            return [(st, ("void",))]
    return None


def data_hook(I, st, f, fi, o, args, e):
    """data() and c_str() of a string of known shape is an iterator into it"""
    if fi["n"] in ("data", "c_str") and o is not None and o[0] in ("ref", "ptr"):
        l = ec_root(st, o[1])
        v = st.heap.get(l)
        if v is not None and v[0] == "str" and all(i[0] == "chr" for i in v[1]):
            return [(st, ("it", l, 0, 0))]
    return None


def pe_hook(I, st, f, fi, o, args, e):
    """the percent-encode algorithms (decided in their own right) as operators on strings"""
    n = fi["n"]
    if n == "utf8_percent_encode" and len(args) == 2 and fi["q"].startswith(W):
        v = I.lib.get(I, st, args[0])
        its = (("chr", v),) if is_int(v) else I.lib.norm(st, v)[1] if v[0] == "str" else None
        if its is not None:
            return [(st, pe(fname(I, st, args[1]), its, "UTF_8"))]
    if n == "percent_encode_after_encoding" and fi["q"].startswith(W):
        v = I.lib.get(I, st, args[1])
        enc = I.lib.get(I, st, args[0])
        if v[0] == "str" and (len(args) < 4 or I.lib.get(I, st, args[3]) == C(0)):
            its = I.lib.norm(st, v)[1]
            return [(st, pe(fname(I, st, args[2]), its, "UTF_8" if enc == C(utf8(I.p)) else enc))]
    return None


def pe(setname, items, enc):
    if not items:
        return ("str", ())
    return ("str", (("seq", ("pe", setname, tuple(items), enc), "u32"),))


def enum_values(p, name):
    e = p.enums.get(name) or next((v for k, v in p.enums.items() if k.endswith("::" + name)), None)
    if e is None:
        raise Broken("enum %s not found" % name)
    return {k: v for k, v in e["c"]}


def utf8(p):
    return enum_values(p, "encoding_name")["UTF_8"]
