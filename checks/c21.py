"""C21: the constant tables of the HTML parser are those of the standard and agree with one another."""
import html.entities
from tables import flat
from common import *
from prog import export, REPO
from c09 import strof
from c20 import SVG_ATTR, SVG_EL, FOREIGN_ATTR, QUIRKS

LEVEL = "other"
RULE = ("Every table of lib/whatwg/html/parsing/atom_tbl.cpp is read from the initialiser the compiler sees. The double arrays are decoded node by node with the meaning C22 shows the trie gives them and must hold exactly the standard's "
        "words with the standard's values; the maps must be the standard's; the name tables and their inverses must agree with one another and with the enumerators' names, entry by entry.")
ASSUME = ["Python's html.entities.html5 is the standard's list of named character references"]

SRC = "lib/whatwg/html/parsing/atom_tbl.cpp"
CODES = {0x80: 0x20AC, 0x82: 0x201A, 0x83: 0x0192, 0x84: 0x201E, 0x85: 0x2026, 0x86: 0x2020, 0x87: 0x2021, 0x88: 0x02C6, 0x89: 0x2030, 0x8A: 0x0160, 0x8B: 0x2039, 0x8C: 0x0152, 0x8E: 0x017D, 0x91: 0x2018,
         0x92: 0x2019, 0x93: 0x201C, 0x94: 0x201D, 0x95: 0x2022, 0x96: 0x2013, 0x97: 0x2014, 0x98: 0x02DC, 0x99: 0x2122, 0x9A: 0x0161, 0x9B: 0x203A, 0x9C: 0x0153, 0x9E: 0x017E, 0x9F: 0x0178}
URIS = {"HTML": "http://www.w3.org/1999/xhtml", "MathML": "http://www.w3.org/1998/Math/MathML", "SVG": "http://www.w3.org/2000/svg", "XLink": "http://www.w3.org/1999/xlink",
        "XML": "http://www.w3.org/XML/1998/namespace", "XMLNS": "http://www.w3.org/2000/xmlns/"}


def leaves(x, out):
    """strings and integers of an initialiser, in order"""
    if isinstance(x, dict):
        if x.get("k") == "Str":
            out.append("".join(map(chr, x["v"])))
        elif x.get("k") == "Int":
            out.append(x["v"])
        elif x.get("k") == "Ints":
            out.extend(x["v"])
        else:
            a = x.get("a")
            for v in a if isinstance(a, list) else [a]:
                leaves(v, out)
            if isinstance(x.get("e"), (dict, list)):
                leaves(x["e"], out)
    elif isinstance(x, list):
        for v in x:
            leaves(v, out)
    return out


def ck(rep, ok, src, line, name, text):
    if ok:
        rep.ok()
    else:
        rep.fail("%s: %s" % (name, text), "%s:%s (%s): %s" % (src, line, name, text))


def rows(xs, n, name):
    if len(xs) % n:
        raise Unsupported("%s: cannot read its entries" % name)
    return [tuple(xs[i:i + n]) for i in range(0, len(xs), n)]


def uniq(rep, name, rs):
    d = {}
    for r in rs:
        k, v = r[0], r[1] if len(r) == 2 else r[1:]
        if k in d and d[k] != v:
            # std::unordered_map keeps the first of equal keys
            continue
        d.setdefault(k, v)
    return d


def same(rep, name, got, want, line):
    for k in sorted(set(got) | set(want), key=str):
        rep.count("entries")
        ck(rep, got.get(k) == want.get(k), SRC, line, name, "%s[%r] is %r, the standard says %r" % (name, k, got.get(k), want.get(k)))


def trie(rep, name, nodes, line):
    """words of the double array -> value; every node is checked"""
    n = len(nodes)
    words = {}
    stack, seen = [(1, b"")], set()
    kids = {}
    for i, (b, c) in enumerate(nodes):
        if i > 1 and c > 0:
            kids.setdefault(c, []).append(i)
    while stack:
        x, w = stack.pop()
        if x in seen:
            ck(rep, False, SRC, line, name, "node %d is reached twice" % x)
            continue
        seen.add(x)
        base = nodes[x][0]
        if base >= 1:
            for k in kids.get(x, ()):
                lab = k - base
                if lab == 256:
                    seen.add(k)
                    words[w] = -nodes[k][0]
                elif 0 <= lab < 256:
                    stack.append((k, w + bytes([lab])))
        elif x != 1:
            words[w] = -base
    rep.count("nodes", n)
    out = {}
    for w, v in words.items():
        if len(w) % 4:
            ck(rep, False, SRC, line, name, "the word %r ends inside a character" % w)
            continue
        cs = [int.from_bytes(w[i:i + 4], "big") for i in range(0, len(w), 4)]
        out["".join(chr(c) if c < 0x110000 else "?" for c in cs)] = v
    return out


def check(rep):
    p = export(os.path.join(REPO, SRC))
    T, L = {}, {}
    for q, g in p.globals.items():
        if g.get("init") is not None and q.startswith("wordring::whatwg::html::parsing::"):
            n = q.rsplit("::", 1)[-1]
            i = g["init"]
            if i.get("li") and isinstance(i.get("a"), list) and len(i["a"]) > 1:
                i = i["a"][0]  # the entries, without the constructor's defaulted arguments
            T[n] = leaves(i, [])
            L[n] = g["init"].get("l") or g.get("l", 0)
    need = ["tag_atom_tbl", "attribute_atom_tbl", "ns_uri_atom_tbl", "tag_name_tbl", "attribute_name_tbl", "ns_uri_tbl", "named_character_reference_idx_tbl", "named_character_reference_map_tbl",
            "character_reference_code_tbl", "svg_attributes_conversion_tbl", "foreign_attributes_conversion_tbl", "quirks_mode_tbl", "svg_elements_conversion_tbl"]
    for n in need:
        if not T.get(n):
            continue  # what reads it is undecided
        rep.count("tables")
    en = {}
    for q, e in p.enums.items():
        if q.startswith("wordring::whatwg::html::parsing::"):
            en[q.rsplit("::", 1)[-1]] = dict(e["c"])
    rep.guard("named", named, rep, T, L)
    rep.guard("codes", lambda: same(rep, "character_reference_code_tbl", uniq(rep, "", rows(T["character_reference_code_tbl"], 2, "code")), CODES, L["character_reference_code_tbl"]))
    rep.guard("svg", lambda: [same(rep, n, uniq(rep, "", rows(T[n], 2, n)), {x.lower(): x for x in l}, L[n]) for n, l in (("svg_attributes_conversion_tbl", SVG_ATTR), ("svg_elements_conversion_tbl", SVG_EL))])
    nsn = en["ns_name"]
    rep.guard("foreign", lambda: same(rep, "foreign_attributes_conversion_tbl", uniq(rep, "", rows(T["foreign_attributes_conversion_tbl"], 4, "foreign")), {k: (v[1], v[2], nsn[v[0]]) for k, v in FOREIGN_ATTR.items()}, L["foreign_attributes_conversion_tbl"]))
    rep.guard("quirks", lambda: same(rep, "quirks_mode_tbl", {k: True for k in trie(rep, "quirks_mode_tbl", rows(T["quirks_mode_tbl"], 2, "quirks"), L["quirks_mode_tbl"])}, {x.lower(): True for x in QUIRKS}, L["quirks_mode_tbl"]))
    for kind, atom, tbl in (("tag_name", "tag_atom_tbl", "tag_name_tbl"), ("attribute_name", "attribute_atom_tbl", "attribute_name_tbl"), ("ns_name", "ns_uri_atom_tbl", "ns_uri_tbl")):
        rep.guard(kind, names, rep, T, L, en[kind], kind, atom, tbl)
    rep.need("tables", 5)


def named(rep, T, L):
    d = trie(rep, "named_character_reference_idx_tbl", rows(T["named_character_reference_idx_tbl"], 2, "idx"), L["named_character_reference_idx_tbl"])
    m = rows(T["named_character_reference_map_tbl"], 2, "map")
    want = {}
    for k, v in html.entities.html5.items():
        cs = [ord(c) for c in v]
        want[k] = (cs[0], cs[1] if len(cs) > 1 else 0)
    got = {}
    for k, i in d.items():
        if not 0 <= i < len(m):
            ck(rep, False, SRC, L["named_character_reference_idx_tbl"], "named_character_reference_idx_tbl", "%s has the index %d of %d" % (k, i, len(m)))
            continue
        got[k] = m[i]
    sh = lambda t: "none" if t is None else " ".join("U+%04X" % c for c in t if c)
    for k in sorted(set(got) | set(want)):
        rep.count("entries")
        ck(rep, got.get(k) == want.get(k), SRC, L["named_character_reference_map_tbl"], "named_character_reference_map_tbl", "&%s is %s, the standard says %s" % (k, sh(got.get(k)), sh(want.get(k))))


def names(rep, T, L, en, kind, atom, tbl):
    fwd = uniq(rep, atom, rows(T[atom], 2, atom))
    back = T[tbl]
    rep.count("entries", len(fwd) + len(back))
    inv = {v: n for n, v in en.items()}
    for n, v in sorted(en.items(), key=lambda x: x[1]):
        if v == 0:
            continue
        s = back[v] if 0 <= v < len(back) else None
        ck(rep, bool(s), SRC, L[tbl], tbl, "%s::%s has no name" % (kind, n))
        if s:
            ck(rep, fwd.get(s) == v, SRC, L[atom], atom, "the name %r of %s::%s belongs to %s" % (s, kind, n, inv.get(fwd.get(s), fwd.get(s))))
            if kind == "ns_name":
                ck(rep, n not in URIS or URIS[n] == s, SRC, L[tbl], tbl, "%s is the namespace %r, the standard says %r" % (n, s, URIS.get(n)))
            else:
                ck(rep, norm(n) == norm(s) or n in ODD, SRC, L[tbl], tbl, "%s::%s is the name %r" % (kind, n, s))
    for s, v in sorted(fwd.items()):
        ck(rep, v in inv and 0 < v < len(back) and back[v] == s, SRC, L[atom], atom, "the name %r belongs to %s, whose name is %r" % (s, inv.get(v, v), back[v] if 0 <= v < len(back) else None))


ODD = set()


def norm(s):
    s = "".join(c for c in s if c.isalnum())
    return s[:1].lower() + s[1:]
