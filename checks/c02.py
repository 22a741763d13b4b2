"""C02: every percent-encode set contains exactly the code points the URL standard lists."""
from common import *
from iset import ISet, CP
from c01 import decide, ALPHA, DIGIT

LEVEL = "proof"
RULE = ("Abstract interpretation of every is_*_percent_encode_set predicate with its parameter ranging over all of char32_t, over exact "
        "interval sets; the accepted set must equal the nested set definition of the URL standard.")
ASSUME = ["predicates are pure functions of their argument (any other read would appear as an opaque atom and fail the check)"]

C0C = ISet.of((0, 0x1F), (0x7F, 0x10FFFF))
FRAGMENT = C0C | ISet.of(" \"<>`")
QUERY = C0C | ISet.of(" \"#<>")
SQUERY = QUERY | ISet.of("'")
PATH = QUERY | ISet.of("?`{}")
USER = PATH | ISet.of("/:;=@[\\]^|")
COMP = USER | ISet.of((0x24, 0x26), "+,")
FORM = COMP | ISet.of("!", (0x27, 0x29), "~")
SETS = {
    "is_c0_control_percent_encode_set": C0C,
    "is_fragment_percent_encode_set": FRAGMENT,
    "is_query_percent_encode_set": QUERY,
    "is_special_query_percent_encode_set": SQUERY,
    "is_path_percent_encode_set": PATH,
    "is_userinfo_percent_encode_set": USER,
    "is_component_percent_encode_set": COMP,
    "application_x_www_form_urlencoded_percent_encode_set": FORM,
}


def check(rep):
    p = export("url.cpp")
    for n, s in SETS.items():
        decide(rep, p, n, s, "wordring::whatwg::")
    rep.need("predicates", len(SETS))
