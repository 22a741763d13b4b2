"""C04: the HTML tokenizer reports exactly the standard's parse errors."""
from htmltok import *
from c03 import setup

LEVEL = "other"
RULE = ("Partitioned abstract interpretation of each tokenizer state function: on every path the multiset of reported parse errors must be the one the WHATWG transition "
        "table names for the path's input class.")
ASSUME = ["as for C03"]


class Null:
    """receives the transition comparison, which is C03's business"""

    def __init__(self, rep):
        self.rep = rep

    def ok(self, *a, **k): pass
    def fail(self, *a, **k): pass
    def need(self, *a, **k): pass
    def undecided(self, k, w): self.rep.undecided(k, w)
    def count(self, n, k=1):
        if n != "obligations":
            self.rep.count(n, k)


def check(rep):
    T, spec = setup()
    en = [e for k, e in T.p.enums.items() if k.endswith("::error_name")]
    if not en:
        raise Broken("error_name not found")
    nm = {v: n for n, v in en[0]["c"]}
    n = [0]

    def errs(name, where, rule, what, y, er):
        got = [nm.get(e[1], str(e[1])) if e[0] == "c" else "?" for e in er]
        if "?" in got:
            rep.undecided("%s:%s" % (name, rule["text"]), "error value not constant")
            return
        n[0] += 1
        if sorted(got) == sorted(y.errs):
            rep.ok("%s: %s on %s reports %s" % (where, name, rule["text"].strip(), got) if n[0] % 11 == 1 else None)
        else:
            rep.fail("%s:%s:errors" % (name, rule["text"].strip()), "%s: state %s (%s) reports %s; the standard: %s" % (where, name, rule["text"].strip(), got or "nothing", y.errs or "nothing"))
    null = Null(rep)
    for k, s in spec.states.items():
        rep.guard(k, check_state, T, s, null, errs)
    rep.guard("numeric end", check_numeric_end, T, null, errs)
    rep.guard("named", check_named, T, null, errs)
    rep.guard("attributes", check_attributes, T, null, errs)
