"""C01: every single-code-point predicate accepts exactly the set its standard names."""
from common import *
from iset import ISet, CP, EMPTY
from absint import Interp, St, sym, tinfo
from lib import Lib

LEVEL = "proof"
RULE = ("Abstract interpretation of every exported code-point predicate with the parameter ranging over its whole type, "
        "over exact interval sets; the set of arguments on which the result is true must equal the standard's set.")
ASSUME = ["predicates are pure functions of their argument (any other read would appear as an opaque atom and fail the check)"]

DIGIT = ISet.of((0x30, 0x39))
UPPER = ISet.of((0x41, 0x5A))
LOWER = ISet.of((0x61, 0x7A))
ALPHA = UPPER | LOWER
UHEX = DIGIT | ISet.of((0x41, 0x46))
LHEX = DIGIT | ISet.of((0x61, 0x66))
SURR = ISet.of((0xD800, 0xDFFF))
NONCHAR = ISet.of((0xFDD0, 0xFDEF), *[(p * 0x10000 + 0xFFFE, p * 0x10000 + 0xFFFF) for p in range(17)])
C0 = ISet.of((0, 0x1F))
URLCP = ALPHA | DIGIT | ISet.of("!$&'()*+,-./:;=?@_~") | (ISet.of((0xA0, 0x10FFFD)) - SURR - NONCHAR)
CSSNONASCII = ISet.of((0x80, 0x10FFFF))
CSSIDSTART = ALPHA | CSSNONASCII | ISet.of("_")

# infra standard, section 4
INFRA = {
    "is_ascii_byte": ISet.of((0, 0x7F)),
    "is_surrogate": SURR,
    "is_scalar_value": CP - SURR,
    "is_noncharacter": NONCHAR,
    "is_ascii_code_point": ISet.of((0, 0x7F)),
    "is_ascii_tab_or_newline": ISet.of(9, 0xA, 0xD),
    "is_ascii_white_space": ISet.of(9, 0xA, 0xC, 0xD, 0x20),
    "is_c0_control": C0,
    "is_c0_control_or_space": C0 | ISet.of(0x20),
    "is_control": C0 | ISet.of((0x7F, 0x9F)),
    "is_ascii_digit": DIGIT,
    "is_ascii_upper_hex_digit": UHEX,
    "is_ascii_lower_hex_digit": LHEX,
    "is_ascii_hex_digit": UHEX | LHEX,
    "is_ascii_upper_alpha": UPPER,
    "is_ascii_lower_alpha": LOWER,
    "is_ascii_alpha": ALPHA,
    "is_ascii_alphanumeric": ALPHA | DIGIT,
}
# css-syntax-3, section 4.2
CSS = {
    "is_digit": DIGIT,
    "is_hex_digit": UHEX | LHEX,
    "is_uppercase_letter": UPPER,
    "is_lowercase_letter": LOWER,
    "is_letter": ALPHA,
    "is_non_ascii_code_point": CSSNONASCII,
    "is_identifier_start_code_point": CSSIDSTART,
    "is_identifier_code_point": CSSIDSTART | DIGIT | ISet.of("-"),
    "is_non_printable_code_point": ISet.of((0, 8), 0xB, (0xE, 0x1F), 0x7F),
    "is_newline": ISet.of(0xA),
    "is_whitespace": ISet.of(0xA, 9, 0x20),
}
# url standard
URLF = {
    "is_forbidden_host_code_point": ISet.of(0, 9, 0xA, 0xD, 0x20, "#%/:?@[\\]"),
}
URLC = {
    "is_url_code_point": URLCP,
}
HOSTC = {
    "is_url_code_points_": URLCP,
}


def decide(rep, prog, name, want, prefix, dom=CP):
    f = prog.find(name, prefix=prefix)
    fi = prog.finfo[f]
    t = fi["pt"][-1].lstrip("&")
    ti = tinfo(t)
    I = Interp(prog, Lib())
    x = sym("cp", *ti)
    T = F = EMPTY
    for p in I.run(f, St(), None, [x]):
        if p.kind != "ret":
            rep.fail("%s:aborts" % name, "%s: %s does not return for code points %s" % (prog.where(f), name, p.st.rng(x)))
            return
        extra = [k for k in p.st.cons if k != x]
        if extra:
            raise Unsupported("%s depends on %s" % (name, extra[:2]))
        for s, b in I.branch(p.st, p.val):
            if b:
                T |= s.rng(x)
            else:
                F |= s.rng(x)
    if ti[0] < 0:  # char parameter: reinterpret as byte
        fold = lambda S: ISet.of(*[(v & 0xFF) for v in S.values()])
        T, F, dom = fold(T), fold(F), ISet.of((0, 255))
    T, F = T & dom, F & dom
    rep.count("predicates")
    rep.count("cells", len(T.iv) + len(F.iv))
    if T & F:
        raise Unsupported("%s is not a function of its argument" % name)
    if T == (want & dom):
        rep.ok("%s: true exactly on %s" % (prog.where(f), T))
    else:
        rep.fail(name, "%s: %s accepts %s and rejects %s, contrary to its definition" % (prog.where(f), name, (T - want), (want - T)))


def check(rep):
    p = export("url.cpp")
    W = "wordring::whatwg::"
    for n, s in INFRA.items():
        decide(rep, p, n, s, W)
    for n, s in URLF.items():
        decide(rep, p, n, s, W)
    for n, s in URLC.items():
        decide(rep, p, n, s, W)
    p = export("css.cpp")
    for n, s in CSS.items():
        decide(rep, p, n, s, "wordring::wwwc::css::")
    rep.need("predicates", 31)
