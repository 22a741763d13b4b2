"""C08: the encoding indexes are the standard's, and the lookups in them are exact."""
import json, os, unicodedata
from coders import *
from tables import *

LEVEL = "other"
RULE = ("Every index table's initialiser, as the compiler sees it, is compared entry by entry with an independent oracle (the platform's codecs for the same character sets, adjusted by the documented differences of the WHATWG indexes); "
        "reverse indexes must be strictly sorted and name, for each code point, the pointer the standard selects; the lookup functions are interpreted with a symbolic argument over the tables.")
ASSUME = ["Python's codecs are a faithful source of the underlying character sets", "the list of WHATWG differences for Big5 in checks/big5_whatwg.json"]

SB = {"ibm866": "cp866", "koi8_r": "koi8_r", "koi8_u": "koi8_u", "macintosh": "mac_roman", "windows_874": "cp874", "x_mac_cyrillic": "mac_cyrillic"}
SB.update({"iso_8859_%d" % n: "iso8859_%d" % n for n in (2, 3, 4, 5, 6, 7, 8, 10, 13, 14, 15, 16)})
SB.update({"windows_%d" % n: "cp%d" % n for n in range(1250, 1259)})
SBX = {("koi8_u", 0xAE): 0x45E, ("koi8_u", 0xBE): 0x40E, ("windows_1255", 0xCA): 0x5BA}


def dec(b, c):
    try:
        s = b.decode(c)
    except UnicodeDecodeError:
        return NONE
    return ord(s) if len(s) == 1 else NONE


def single(n):
    out = []
    for b in range(0x80, 0x100):
        v = dec(bytes([b]), SB[n])
        if v == NONE and b < 0xA0 and n.startswith("windows"):
            v = b                                     # the standard fills the C1 controls
        out.append(SBX.get((n, b), v))
    return out


def oracle():
    E = {n: single(n) for n in SB}

    def off(tr, a, b):
        return tr + (a if tr < 0x3F else b)
    g = [dec(bytes([i // 190 + 0x81, off(i % 190, 0x40, 0x41)]), "gb18030") for i in range(23940)]
    g[6555] = 0x3000
    g[7533] = 0x1E3F
    E["gb18030"] = g
    E["euc_kr"] = [dec(bytes([i // 190 + 0x81, i % 190 + 0x41]), "cp949") for i in range(23940)]
    j = []
    for i in range(11280):
        l = i // 188
        j.append(NONE if 8836 <= i <= 10715 else dec(bytes([l + (0x81 if l < 0x1F else 0xC1), off(i % 188, 0x40, 0x41)]), "cp932"))
    E["jis0208"] = j
    j = [dec(bytes([0x8F, i // 94 + 0xA1, i % 94 + 0xA1]), "euc_jp") for i in range(8836)]
    j[116] = 0xFF5E
    E["jis0212"] = j
    b5 = [dec(bytes([i // 157 + 0x81, off(i % 157, 0x40, 0x62)]), "big5hkscs") for i in range(19782)]
    for k, v in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "big5_whatwg.json"))).items():
        b5[int(k)] = v
    E["big5"] = b5
    E["iso_2022_jp_katakana"] = [{0xFF9E: 0x309B, 0xFF9F: 0x309C}.get(c) or ord(unicodedata.normalize("NFKC", chr(c))) for c in range(0xFF61, 0xFFA0)]
    return E


def reverse(name, t):
    """code point -> pointer, as the standard selects it"""
    out = {}
    for i, v in enumerate(t):
        if v == NONE:
            continue
        if name == "Shift_JIS" and 8272 <= i <= 8835:
            continue
        if name == "big5":
            if i < (0xA1 - 0x81) * 157:
                continue
            if v in (0x2550, 0x255E, 0x2561, 0x256A, 0x5341, 0x5345):
                out[v] = i
                continue
        out.setdefault(v, i)
    return out


def ranges():
    """pointer -> code point of the four-byte ranges, from the platform's codec"""
    R = []
    for p in range(39420):
        b = bytes([p // 12600 + 0x81, p // 1260 % 10 + 0x30, p // 10 % 126 + 0x81, p % 10 + 0x30])
        R.append(dec(b, "gb18030"))
    # the standard keeps U+E7C7 at 7457 and U+1E3F in the two-byte index
    R[7457] = 0xE7C7
    return R


def check(rep):
    rep.guard("tables", tables, rep)
    rep.need("index tables", 30)


def tables(rep):
    T, where = load("lib/whatwg/encoding/*.cpp")
    E = oracle()
    for n, want in E.items():
        k = "index_code_point_" + n
        if k not in T:
            rep.undecided(k, "table not found in lib/whatwg/encoding")
            continue
        got = T[k]
        bad = next((i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i]), None)
        rep.count("index tables")
        rep.count("index entries", len(got))
        if bad is not None:
            rep.fail(k, "%s: %s has %s at pointer %d (of %d), the standard has %s (of %d)" % (where[k], k, "0x%X" % got[bad] if bad < len(got) else "nothing", bad, len(got), "0x%X" % want[bad] if bad < len(want) else "nothing", len(want)))
        else:
            rep.ok()
    for n in list(E) + ["Shift_JIS"]:
        a, b = "index_pointer_%s_0" % n, "index_pointer_%s_1" % n
        if a not in T or b not in T:
            rep.undecided(a, "table not found in lib/whatwg/encoding")
            continue
        want = reverse(n, E["jis0208" if n == "Shift_JIS" else n])
        cps, ptrs = T[a], T[b]
        rep.count("index tables")
        rep.count("index entries", len(cps))
        if len(cps) != len(ptrs):
            rep.fail(a, "%s: %s and %s differ in length (%d, %d)" % (where[a], a, b, len(cps), len(ptrs)))
            continue
        bad = next((i for i in range(1, len(cps)) if cps[i - 1] >= cps[i]), None)
        if bad is not None:
            rep.fail(a, "%s: %s is not sorted at position %d (0x%X after 0x%X): the binary search misses entries" % (where[a], a, bad, cps[bad], cps[bad - 1]))
            continue
        got = dict(zip(cps, ptrs))
        bad = next((c for c in sorted(set(got) | set(want)) if got.get(c) != want.get(c)), None)
        if bad is not None:
            rep.fail(a, "%s: %s maps U+%04X to %s, the standard's pointer is %s" % (where[a], a, bad, got.get(bad), want.get(bad)))
        else:
            rep.ok()
    # the ranges, forwards and backwards
    R = ranges()
    fw, bw = "index_code_point_gb18030_ranges", "index_pointer_gb18030_ranges"
    rep.count("index tables", 2)
    for k in (fw, bw):
        if k not in T:
            rep.undecided(k, "table not found in lib/whatwg/encoding")
            return
    pairs = []
    for p, c in enumerate(R):
        if p == 7457:
            continue
        if not pairs or c != pairs[-1][1] + (p - pairs[-1][0]):
            pairs.append((p, c))
    pairs.append((189000, 0x10000))
    got = sorted(zip(T[fw][0::2], T[fw][1::2]))
    chk_ranges(rep, where[fw], fw, got, lambda x: x if x != 7457 else None, R)
    inv = {c: p for p, c in enumerate(R) if p != 7457}
    chk_back(rep, where[bw], bw, sorted(zip(T[bw][0::2], T[bw][1::2])), inv)
    rep.guard("lookup functions", lookups, rep, T, R, inv)


def apply(pairs, x):
    import bisect
    i = bisect.bisect_right(pairs, (x, 1 << 40)) - 1
    return None if i < 0 else pairs[i][1] + (x - pairs[i][0])


def chk_ranges(rep, where, k, got, dom, R):
    for p in range(39420):
        if p != 7457 and apply(got, p) != R[p]:
            rep.fail(k, "%s: %s gives %s for pointer %d, the standard U+%04X" % (where, k, apply(got, p), p, R[p]))
            return
    last = got[-1]
    if last[0] > 189000 or any(a >= 189000 for a, b in got[:-1]) or apply(got, 189000) != 0x10000:
        rep.fail(k, "%s: %s does not map pointers from 189000 to the supplementary planes" % (where, k))
        return
    rep.ok()


def chk_back(rep, where, k, got, inv):
    for c, p in inv.items():
        if apply(got, c) != p:
            rep.fail(k, "%s: %s gives %s for U+%04X, the standard %d" % (where, k, apply(got, c), c, p))
            return
    if apply(got, 0x10000) != 189000 or apply(got, 0x10FFFF) != 1237575 or any(a > 0x10000 for a, _ in got):
        rep.fail(k, "%s: %s does not map the supplementary planes to 189000 onwards" % (where, k))
        return
    rep.ok()


def lookups(rep, T, R, inv):
    p = export("encoding.cpp")
    S = Search(T)
    for i in p.byname.get("get_index_pointer", []):
        if i not in p.funcs:
            continue
        ta = [tname(x.strip()) for x in p.finfo[i].get("ta", "").strip("<>").split(",")]
        key = "get_index_pointer<%s>" % ", ".join(ta)
        rep.guard(key, pointer_fn, rep, p, S, i, ta, key)
    for fn, w in (("get_index_shift_jis_pointer", "Shift_JIS"), ("get_index_big5_pointer", "big5")):
        for i in p.byname.get(fn, []):
            if i in p.funcs:
                rep.guard(fn, pointer_fn, rep, p, S, i, ["index_pointer_%s_0" % w, "index_pointer_%s_1" % w], fn)
    for i in p.byname.get("get_index_code_point", []):
        if i in p.funcs:
            rep.guard("get_index_code_point" + p.finfo[i].get("ta", ""), cp_fn, rep, p, S, i, tname(p.finfo[i].get("ta", "").strip("<>")))
    rep.guard("gb18030 ranges code point", ranges_cp, rep, p, S, R)
    rep.guard("gb18030 ranges pointer", ranges_ptr, rep, p, S, inv)


def run(p, S, i, cp):
    I = Interp(p, Lib())
    I.hooks.append(S.hook)
    st = St()
    return I, I.run(i, st, None, [cp])


def pointer_fn(rep, p, S, i, ta, key):
    cp = sym("cp", 0, 0x10FFFF)
    where = p.where(i)
    rep.count("lookup functions")
    if len(ta) != 2 or ta[0][:-2] != ta[1][:-2] or not ta[0].endswith("_0") or not ta[1].endswith("_1"):
        rep.fail(key, "%s: %s pairs the code points of one index with the pointers of another" % (where, key))
        return
    I, paths = run(p, S, i, cp)
    for pa in paths:
        rep.count("paths")
        hit = pa.st.meta.get("hit", "?")
        v = pa.val
        if pa.kind != "ret" or v is None:
            rep.fail(key, "%s: %s aborts" % (where, key))
            return
        if v[0] == "ref":
            v = pa.st.heap.get(v[1], v)
        if hit == "?" or v[0] != "opt":
            rep.undecided(key, "unmodelled lookup")
            return
        if any(x[0] == "out-of-bounds" for x in pa.st.eff):
            rep.fail(key, "%s: %s reads outside its table when the code point is %s" % (where, key, "found" if hit else "absent"))
            return
        if hit is None:
            if v[1] != C(0):
                rep.fail(key, "%s: %s answers for a code point that is not in the index" % (where, key))
                return
        else:
            want = ("call", ("entry", ta[1], ("call", ("find", ta[0], cp), 0, len(S.T[ta[0]]) - 1)), 0, NONE)
            x = v[2]
            while x is not None and x[0] == "wrap":
                x = x[1]
            if hit != (ta[0], cp) or v[1] != C(1) or not (x == want or x == ("mod", want, 65536)):
                rep.fail(key, "%s: %s does not answer with the pointer stored beside the code point (%r)" % (where, key, v))
                return
        rep.ok()


def cp_fn(rep, p, S, i, t):
    x = sym("p", 0, 0xFFFF)
    where = p.where(i)
    key = "get_index_code_point<%s>" % t
    rep.count("lookup functions")
    I, paths = run(p, S, i, x)
    N = len(S.T[t])
    for pa in paths:
        rep.count("paths")
        v = pa.val
        dom = pa.st.rng(x)
        if pa.kind != "ret" or any(e[0] == "out-of-bounds" for e in pa.st.eff):
            rep.fail(key, "%s: %s aborts or reads outside its table (of %d) for pointers in %s" % (where, key, N, dom))
            return
        if v[0] == "ref":
            v = pa.st.heap.get(v[1], v)
        if v[0] != "opt":
            rep.undecided(key, "unmodelled result")
            return
        ent = ("call", ("entry", t, x), 0, NONE)
        inside = dom.max() < N
        null = inside and pa.st.rng(ent) == ISet(((NONE, NONE),))
        if v[1] == C(0) and (null or dom.min() >= N):
            rep.ok()
        elif v[1] == C(1) and v[2] == ent and NONE not in pa.st.rng(ent):
            rep.ok()
        else:
            rep.fail(key, "%s: %s answers %s for pointers in %s" % (where, key, "nothing" if v[1] == C(0) else pretty(v[2]) if is_int(v[2]) else v[2], dom))
            return


def ranges_cp(rep, p, S, R):
    i = p.find("get_index_gb18030_ranges_code_point")
    where = p.where(i)
    x = sym("p", 0, NONE)
    rep.count("lookup functions")
    I, paths = run(p, S, i, x)
    for pa in paths:
        rep.count("paths")
        dom = pa.st.rng(x)
        v = pa.val
        if pa.kind != "ret" or any(e[0] == "out-of-bounds" for e in pa.st.eff):
            rep.fail("rcp", "%s: aborts or reads outside its table for pointers in %s" % (where, dom))
            return
        if v[0] == "ref":
            v = pa.st.heap.get(v[1], v)
        if v[0] != "opt":
            rep.undecided("rcp", "unmodelled result")
            return
        null = v[1] == C(0)
        for a, b in dom.iv:
            for y in probe(a, b):
                w = R[y] if y < 39420 else 0x10000 + y - 189000 if 189000 <= y <= 1237575 else None
                g = None if null else evalt(v[2], {x: y})
                if g != w:
                    rep.fail("rcp", "%s: pointer %d gives %s, the standard %s" % (where, y, g, w))
                    return
        rep.ok()


def probe(a, b):
    """within a path the answer is affine: outside the BMP ranges the end points decide"""
    if a < 39420:
        yield from range(a, min(b, 39419) + 1)
    for y in {a, b, 39420, 188999, 189000, 1237575, 1237576}:
        if a <= y <= b and y >= 39420:
            yield y


def ranges_ptr(rep, p, S, inv):
    i = p.find("get_index_gb18030_ranges_pointer")
    where = p.where(i)
    x = sym("cp", 0x80, 0x10FFFF)
    rep.count("lookup functions")
    I, paths = run(p, S, i, x)
    for pa in paths:
        rep.count("paths")
        dom = pa.st.rng(x)
        v = pa.val
        if pa.kind != "ret" or any(e[0] == "out-of-bounds" for e in pa.st.eff):
            rep.fail("rptr", "%s: aborts or reads outside its table for code points in %s" % (where, dom))
            return
        if v[0] == "ref":
            v = pa.st.heap.get(v[1], v)
        if v[0] != "opt":
            rep.undecided("rptr", "unmodelled result")
            return
        null = v[1] == C(0)
        for a, b in dom.iv:
            ys = list(range(a, min(b, 0xFFFF) + 1)) + [y for y in {a, b, 0x10000, 0x10FFFF} if a <= y <= b and y > 0xFFFF]
            for y in ys:
                w = 7457 if y == 0xE7C7 else inv.get(y) if y < 0x10000 else 189000 + y - 0x10000
                if w is None:
                    continue                           # in the two-byte index: never asked for
                g = None if null else evalt(v[2], {x: y})
                if g != w:
                    rep.fail("rptr", "%s: U+%04X gives %s, the standard %s" % (where, y, g, w))
                    return
        rep.ok()
