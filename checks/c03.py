"""C03: the HTML tokenizer makes the standard's transition in every state on every input."""
from htmltok import *

LEVEL = "other"
RULE = ("Partitioned abstract interpretation of each of the 80 tokenizer state functions from an arbitrary tokenizer state: every path's set of input code points, emitted tokens, "
        "token fields, temporary buffer, return state, consumption, push-back and next state must equal the WHATWG transition table (checks/html_tok_spec.txt) on every input class.")
ASSUME = ["the input stream primitives behave as C05 requires", "the current tag token is a start or an end tag token whenever a state needs one (established by the states that create it, checked)",
          "attribute lists are decided for up to four attributes; the loop body does not depend on the count"]


def numeric_table():
    a = export(os.path.join(REPO, "lib/whatwg/html/parsing/atom_tbl.cpp"))
    for q, g in a.globals.items():
        if q.endswith("::character_reference_code_tbl"):
            return q, int_pairs(g["init"])
    raise Broken("character_reference_code_tbl not found")


def int_pairs(e):
    """(key, value) integer pairs of a constant map initialiser"""
    out = {}

    def ints(x):
        if isinstance(x, dict):
            if x.get("k") == "Int":
                return [x["v"]]
            if x.get("k") == "Ints":
                return list(x["v"])
            r = []
            for k, v in x.items():
                if k in ("e", "a"):
                    r += ints(v)
            return r
        if isinstance(x, list):
            return [i for y in x for i in ints(y)]
        return []

    v = ints(e)
    for i in range(0, len(v) - 1, 2):
        out[v[i]] = v[i + 1]
    return out


def setup():
    p = export("html.cpp")
    T = Tok(p)
    spec = Spec()
    q, tbl = numeric_table()
    T.tables[q] = tbl
    return T, spec


def check(rep):
    T, spec = setup()
    for n, s in spec.states.items():
        rep.guard(n, check_state, T, s, rep)
    rep.guard("numeric end", check_numeric_end, T, rep)
    rep.guard("named", check_named, T, rep)
    rep.guard("attributes", check_attributes, T, rep)
