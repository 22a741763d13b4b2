"""C22: the tries are maps: every operation yields exactly the documented contents."""
from shape import *
from c15 import Bad, Unknown, returned, data_hook

LEVEL = "other"
RULE = ("every operation of trie and stable_trie (labels of one and of two bytes) and of their iterators is interpreted on an abstract heap that satisfies the double array's representation invariant, one partition per key set "
        "(sets of up to three keys of up to three labels, so that every combination of leaf, inner node, inner node ending a key and shared prefix occurs), per layout of the array (packed, spread, with free slots in between) and per key "
        "argument, the stored values symbolic; on every path the resulting array is read back through the invariant (every used slot reached from the root by base and check, every other slot once on the ascending free list) and compared with a model map.")
ASSUME = ["iterators passed belong to the container and point where their partition says", "values are below 2^31, as documented"]
T, U = ("T",), ("U",)
NULL = 256
STAND = [("wordring::static_vector<unsigned short, 257>", "std::vector<unsigned short>"),
         ("wordring::detail::static_vector_iterator<std::array<unsigned short, 257>>", "__gnu_cxx::__normal_iterator<unsigned short *, std::vector<unsigned short>>"),
         ("wordring::detail::static_vector_iterator<const std::array<unsigned short, 257>>", "__gnu_cxx::__normal_iterator<const unsigned short *, std::vector<unsigned short>>")]    # what C17 shows static_vector to be


def val(k):
    return sym("value of " + show(k), 0, (1 << 31) - 1)


def show(k):
    return "<" + " ".join(str(x) for x in k) + ">"


def shows(ks):
    return "{" + ", ".join(show(k) for k in sorted(ks)) + "}"


class Arr:
    """a double array of a key set: nodes[i] = [base term, check int]; at[prefix] = index"""

    def __init__(self, keys, stable, layout, val=val):
        self.keys, self.stable = list(keys), stable
        kids = {(): set()}
        for k in keys:
            for i in range(len(k)):
                kids.setdefault(k[:i], set()).add(k[i])
                kids.setdefault(k[:i + 1], set())
        term = set(keys)
        for p in term:
            if stable or kids[p]:
                kids[p].add(NULL)
        used = {0, 1}
        self.at = {(): 1}
        base, check = {}, {}
        order = sorted(kids, key=lambda p: (len(p), p)) if layout != 1 else sorted(kids, key=lambda p: (len(p), [-x for x in p]))
        low = 1
        for p in order:
            c = sorted(kids[p])
            if not c:
                continue
            b = 1 if layout == 0 else low
            while any(b + x in used for x in c):
                b += 1
            base[p] = b
            for x in c:
                used.add(b + x)
                self.at[p + (x,)] = b + x
                check[b + x] = p
            if layout:
                low = b + layout + 1
        n = max(used) + 1 + (layout if layout == 2 else 0)
        if not keys:
            n = 2
        self.n = n
        self.node = [[C(0), 0] for _ in range(n)]
        self.node[0][0] = C(len(keys))
        for p, b in base.items():
            self.node[self.at[p]][0] = C(b)
        for i, p in check.items():
            self.node[i][1] = self.at[p]
        for k in keys:
            i = self.at[k + (NULL,)] if k + (NULL,) in self.at else self.at[k]
            self.node[i][0] = neg(val(k))
        self.free = [i for i in range(2, n) if i not in used]
        prev = 0
        for i in self.free:
            self.node[prev][1] = -i
            prev = i
        self.end = {self.at[k]: k for k in keys}

    def put(self, st, loc):
        its = []
        for i, (b, c) in enumerate(self.node):
            l = loc + ("n%d" % i,)
            st.heap[l + ("m_base",)] = b
            st.heap[l + ("m_check",)] = C(c)
            its.append(("chr", ("ref", l)))
        st.heap[loc + ("m_c",)] = ("str", tuple(its))
        return ("ref", loc)


def neg(t):
    return sub(C(0), t)


def read(I, st, loc, stable):
    """the map of an array: key -> value term; node index of every prefix; checks the representation invariant"""
    v = st.heap.get(loc + ("m_c",))
    if v is None or v[0] != "str" or not all(x[0] == "chr" and x[1][0] == "ref" for x in v[1]):
        raise Unknown("storage %s" % str(v)[:60])
    locs = [x[1][1] for x in v[1]]
    n = len(locs)
    if n < 2:
        raise Bad("the root is gone")

    def g(i, k):
        x = st.heap.get(locs[i] + (k,))
        if x is None:
            raise Unknown("%s of slot %d" % (k, i))
        return x
    chk = []
    for i in range(n):
        x = g(i, "m_check")
        if x[0] != "c":
            raise Unknown("check of slot %d is %s" % (i, str(x)[:40]))
        chk.append(x[1])
    free, i = [], -chk[0]
    if chk[1] != 0:
        raise Bad("the root's check is %d" % chk[1])
    while i:
        if not 1 < i < n:
            raise Bad("the free list leaves the array (%d of %d)" % (i, n))
        if free and i <= free[-1]:
            raise Bad("the free list is not ascending (%d after %d)" % (i, free[-1]))
        free.append(i)
        i = -chk[i]
    kids = {}
    for i in range(2, n):
        if chk[i] >= 1:
            kids.setdefault(chk[i], []).append(i)
    for i in free:
        if chk[i] >= 1:
            raise Bad("slot %d is free and in use" % i)
    at, mp, seen = {}, {}, {0, 1} | set(free)
    work = [(1, ())]
    while work:
        i, p = work.pop()
        at[p] = i
        b = g(i, "m_base")
        cs = kids.get(i, [])
        leaf = b[0] != "c" or b[1] <= 0
        if leaf:
            if cs:
                raise Bad("the node of %s has lost its children (slots %s)" % (show(p), cs))
            if i != 1:
                if stable:
                    raise Bad("the node of %s ends no key and has no children" % show(p))
                mp[p] = neg(b)
            continue
        b = b[1]
        if not cs and not (i == 1 and not any(c >= 1 for c in chk)):
            raise Bad("the node of %s has a base but no children" % show(p))
        for c in cs:
            l = c - b
            if not 0 <= l <= NULL:
                raise Bad("slot %d is no child of the node of %s" % (c, show(p)))
            seen.add(c)
            if l == NULL:
                if i == 1:
                    raise Bad("the root ends a key")
                mp[p] = neg(g(c, "m_base"))
                at[p + (NULL,)] = c
            else:
                work.append((c, p + (l,)))
    lost = set(range(n)) - seen
    if lost:
        raise Bad("slots %s are neither reachable nor free" % sorted(lost)[:6])
    cnt = g(0, "m_base")
    if cnt[0] != "c":
        raise Unknown("size")
    if cnt[1] != len(mp):
        raise Bad("size() is %d with %d keys stored" % (cnt[1], len(mp)))
    return mp, at


def map_is(I, st, loc, stable, want):
    mp, at = read(I, st, loc, stable)
    for k in sorted(set(mp) | set(want)):
        if k not in want:
            raise Bad("the key %s appears" % show(k))
        if k not in mp:
            raise Bad("the key %s is gone" % show(k))
        e = teq(st, mp[k], want[k])
        if e is False:
            raise Bad("the value of %s becomes %s" % (show(k), show_v(mp[k])))
        if e is None:
            raise Unknown("value of %s" % show(k))
    return mp, at


def show_v(t):
    return t[1] if t[0] == "s" else str(t[1]) if t[0] == "c" else "another one"


def it_index(I, st, v):
    if v[0] != "ref":
        raise Unknown("iterator")
    x = st.heap.get(v[1] + ("m_index",))
    if x is None or x[0] != "c":
        raise Unknown("iterator")
    return x[1]


class Kind:
    def __init__(self, pre, stable, width, name):
        self.pre, self.stable, self.width, self.name = pre, stable, width, name

    def chars(self, k):
        """the characters whose serialized labels are k, or None"""
        if self.width == 1:
            return [sgn(x) for x in k]
        if len(k) % 2:
            return None
        return [k[i] * 256 + k[i + 1] for i in range(0, len(k), 2)]

    def string(self, k):
        return ("str", tuple(("chr", C(c)) for c in self.chars(k)))


def sgn(x):
    return x - 256 if x >= 128 else x


KINDS = [Kind("vp_a_", 0, 1, "trie<char>"), Kind("vp_b_", 1, 1, "stable_trie<char>"), Kind("vp_d_", 0, 2, "trie<char16_t>"), Kind("vp_e_", 1, 2, "stable_trie<char16_t>")]


class Chk:
    def __init__(self, rep, p):
        self.rep, self.p = rep, p

    def where(self, fn, stable):
        fs = [i for i in self.p.byname.get(fn, []) if i in self.p.funcs and self.p.finfo[i]["q"].startswith("wordring::")]
        fs.sort(key=lambda i: ("stable" in self.p.finfo[i]["q"]) != bool(stable))
        return self.p.where(fs[0]) if fs else "include/wordring/trie (%s)" % fn

    def run(self, kind, entry, setup, desc, fn, judge):
        self.rep.guard(kind.name + " " + fn, self._run, kind, kind.pre + entry, setup, "%s: %s" % (kind.name, desc), kind.name + " " + fn, fn, judge)

    def _run(self, kind, entry, setup, desc, key, fn, judge):
        rep = self.rep
        rep.count("partitions")
        I = Interp(self.p, SLib())
        I.LOOP = 1500
        I.hooks += [data_hook]
        st = St()
        args = setup(st)
        for pa in I.run(drv(self.p, entry), st, None, args):
            rep.count("paths")
            opq = [e for e in pa.st.eff if e[0] == "opaque"]
            try:
                t = judge(I, pa)
            except Bad as e:
                t = str(e)
            except Unknown as e:
                rep.undecided(key, str(e))
                continue
            if t is None:
                rep.ok()
            elif opq:
                rep.undecided(key, "%s after unmodelled %s" % (t, str(opq[0])[:80]))
            else:
                rep.fail(key, "%s: %s: %s" % (self.where(fn, kind.stable), desc, t))


def words(alpha, n):
    return [w for k in range(1, n + 1) for w in itertools.product(alpha, repeat=k)]


def key_sets(width):
    if width == 1:
        w = words((0, 1, 2), 2)
        out = [()] + [(x,) for x in [(0,), (2,), (0, 0), (1, 2), (0, 1, 2), (255,)]]
        out += [c for c in itertools.combinations([(0,), (1,), (0, 0), (0, 1), (1, 0)], 2)]
        out += [((0,), (0, 1), (0, 1, 2)), ((0,), (1,), (2,)), ((0, 0), (0, 1), (1, 0)), ((0,), (0, 0), (0, 1)), ((0, 1, 0), (0, 1), (2, 0)), ((0, 1, 2), (1, 2), (2,)), ((200, 1), (200, 255), (255,))]
        return out
    z = lambda *cs: tuple(x for c in cs for x in (c >> 8, c & 255))
    return [(), (z(1),), (z(0x101),), (z(1), z(2)), (z(1), z(0x101)), (z(1), z(1, 2)), (z(1, 1), z(1, 2), z(0x100)), (z(0x201), z(0x201, 1), z(0x202))]


def args_for(width):
    if width == 1:
        return [(), (0,), (1,), (2,), (0, 0), (0, 1), (1, 2), (0, 1, 2), (2, 0, 1), (255,), (0, 255), (200, 2)]
    z = lambda *cs: tuple(x for c in cs for x in (c >> 8, c & 255))
    return [(), z(1), z(2), z(0x101), z(0x100), z(1, 2), z(1, 1), z(0x201), z(0x3FF)]


NEWV = sym("new value", 0, (1 << 31) - 1)
K = ("K",)


def setup_key(kind, a, k, extra=()):
    def f(st):
        a.put(st, T)
        st.heap[K] = kind.string(k)
        return [("ref", T), ("ref", K)] + list(extra)
    return f


def longest(a, k, width):
    """the longest prefix of k (whole characters) that has a node"""
    n = 0
    while n + width <= len(k) and k[:n + width] in a.at:
        n += width
    return k[:n]


def modify(ck, rep, kind, a, base):
    d = "array " + base
    for k in args_for(kind.width):
        def m0():
            return {x: val(x) for x in a.keys}
        sk = show(k)

        for entry in ("insert", "insert_it"):
            if entry == "insert_it" and len(k) != kind.width:
                continue

            def judge(I, pa):
                returned(pa)
                w = m0()
                if k and k not in w:
                    w[k] = NEWV
                mp, at = map_is(I, pa.st, T, kind.stable, w)
                i = it_index(I, pa.st, pa.val)
                if i != (at[k] if k else 0):
                    return "the returned iterator is at slot %d, the key's is %d" % (i, at[k] if k else 0)
            ck.run(kind, entry, setup_key(kind, a, k, [NEWV]), "inserting %s into %s" % (sk, base), "insert", judge)
        for entry in ("erase", "erase_it"):
            if entry == "erase_it" and len(k) != kind.width:
                continue

            def judge(I, pa):
                returned(pa)
                w = m0()
                w.pop(k, None)
                map_is(I, pa.st, T, kind.stable, w)
            ck.run(kind, entry, setup_key(kind, a, k), "erasing %s from %s" % (sk, base), "erase", judge)

        def judge(I, pa):
            if not k:
                return None
            returned(pa)
            w = m0()
            w[k] = NEWV
            map_is(I, pa.st, T, kind.stable, w)
        if k:
            ck.run(kind, "set", setup_key(kind, a, k, [NEWV]), "[%s] = in %s" % (sk, base), "operator[]", judge)

        def judge(I, pa):
            w = m0()
            if k not in w:
                if pa.kind != "throw":
                    return "at() of an absent key does not throw"
                map_is(I, pa.st, T, kind.stable, w)
                return None
            returned(pa)
            w[k] = NEWV
            map_is(I, pa.st, T, kind.stable, w)
        ck.run(kind, "at_set", setup_key(kind, a, k, [NEWV]), "at(%s) = in %s" % (sk, base), "at", judge)


def lookups(ck, rep, kind, a, base):
    for k in args_for(kind.width) + list(a.keys):
        sk = show(k)
        present = k in a.keys
        pre = longest(a, k, kind.width)

        def want_index(n):
            def judge(I, pa):
                returned(pa)
                i = it_index(I, pa.st, pa.val)
                if i != n:
                    return "the iterator is at slot %d, not %d" % (i, n)
            return judge

        def want_value(v):
            def judge(I, pa):
                if v is None:
                    return None if pa.kind == "throw" else "does not throw"
                returned(pa)
                e = teq(pa.st, pa.val, v)
                if e is None:
                    raise Unknown("value")
                if not e:
                    return "yields %s" % show_v(pa.val)
            return judge
        for e in ("find", "find_it"):
            ck.run(kind, e, setup_key(kind, a, k), "finding %s in %s" % (sk, base), "find", want_index(a.at[k] if present else 0))
        for e in ("contains", "contains_it"):
            ck.run(kind, e, setup_key(kind, a, k), "whether %s contains %s" % (base, sk), "contains", want_value(C(int(present))))
        ck.run(kind, "search", setup_key(kind, a, k), "searching %s in %s" % (sk, base), "search", want_index(a.at[k] if pre == k else 0))
        ck.run(kind, "lookup", setup_key(kind, a, k), "looking %s up in %s" % (sk, base), "lookup", want_index(a.at[pre]))
        ck.run(kind, "lookup_n", setup_key(kind, a, k), "looking %s up in %s" % (sk, base), "lookup", want_value(C(len(pre) // kind.width)))
        for e in ("at", "at_c"):
            ck.run(kind, e, setup_key(kind, a, k), "at(%s) in %s" % (sk, base), "at", want_value(val(k) if present else None))
        if present:
            ck.run(kind, "sub", setup_key(kind, a, k), "[%s] in %s" % (sk, base), "operator[]", want_value(val(k)))


def iters(ck, rep, kind, a, base):
    W = kind.width
    nodes = [p for p in a.at if len(p) % W == 0 and NULL not in p]
    idx = {a.at[p]: p for p in nodes}

    def kids(p):
        return sorted(q for q in nodes if len(q) == len(p) + W and q[:len(p)] == p)

    def mk(st, i):
        a.put(st, T)
        st.heap[("I", "m_c")] = ("ptr", T + ("m_c",))
        st.heap[("I", "m_index")] = C(i)
        return ("ref", ("I",))

    def ix(want):
        def judge(I, pa):
            returned(pa)
            i = it_index(I, pa.st, pa.val)
            if i != want:
                return "moves to slot %d, not %d" % (i, want)
        return judge

    def v(want):
        def judge(I, pa):
            returned(pa)
            e = teq(pa.st, pa.val, want)
            if e is None:
                raise Unknown("value")
            if not e:
                return "yields %s, not %s" % (show_v(pa.val), show_v(want))
        return judge
    for p in nodes:
        i = a.at[p]
        sp = show(p)
        t = p in a.keys
        ck.run(kind, "it_bool", lambda st: [mk(st, i)], "bool of the node %s in %s" % (sp, base), "operator bool", v(C(int(t))))
        ck.run(kind, "it_not", lambda st: [mk(st, i)], "! of the node %s in %s" % (sp, base), "operator!", v(C(int(not t))))
        c = kids(p)
        ck.run(kind, "it_begin", lambda st: [mk(st, i)], "the first child of %s in %s" % (sp, base), "begin", ix(a.at[c[0]] if c else 0))
        ck.run(kind, "it_end", lambda st: [mk(st, i)], "end() of %s in %s" % (sp, base), "end", ix(0))
        for lab in sorted({x for k in args_for(W) for x in (kind.chars(k) or ())} | {x for q in c for x in (kind.chars(q[-W:]))}):
            q = p + ((lab & 255,) if W == 1 else (lab >> 8, lab & 255))
            ck.run(kind, "it_sub", lambda st: [mk(st, i), C(lab)], "[%d] of the node %s in %s" % (lab, sp, base), "operator[]", ix(a.at[q] if q in idx.values() else 0))
        if t:
            ck.run(kind, "at_pos", lambda st: [a_put(a, st), mk2(st, i)], "at(the node %s) in %s" % (sp, base), "at", v(val(p)))

        def judge(I, pa, p=p):
            returned(pa)
            w = {x: val(x) for x in a.keys}
            w.pop(p, None)
            map_is(I, pa.st, T, kind.stable, w)
        ck.run(kind, "erase_pos", lambda st: [a_put(a, st), mk2(st, i)], "erasing the node %s from %s" % (sp, base), "erase", judge)
        if not p:
            continue
        ck.run(kind, "it_deref", lambda st: [mk(st, i)], "* of the node %s in %s" % (sp, base), "operator*", v(C(kind.chars(p[-W:])[0])))
        ck.run(kind, "it_parent", lambda st: [mk(st, i)], "the parent of %s in %s" % (sp, base), "parent", ix(a.at[p[:-W]]))
        sib = kids(p[:-W])
        nx = sib[sib.index(p) + 1:]
        nxt = a.at[nx[0]] if nx else 0
        for e, w in (("it_inc", nxt), ("it_inc_r", nxt), ("it_pinc", nxt), ("it_pinc_r", i)):
            ck.run(kind, e, lambda st: [mk(st, i)], "++ of the node %s in %s" % (sp, base), "operator++", ix(w))

        def judge(I, pa, p=p):
            returned(pa)
            s = I.lib.get(I, pa.st, ("ref", K))
            if s is None or s[0] != "str":
                raise Unknown("string")
            got = items_eq(pa.st, s[1], kind.string(p)[1])
            if got is None:
                raise Unknown("string")
            if not got:
                return "string() yields %s" % show_items(s[1])

        def setup(st):
            st.heap[K] = ("str", (("chr", C(7)),))
            return [mk(st, i), ("ref", K)]
        ck.run(kind, "it_string", setup, "string() of the node %s in %s" % (sp, base), "string", judge)


def a_put(a, st):
    return a.put(st, T)


def mk2(st, i):
    st.heap[("I", "m_c")] = ("ptr", T + ("m_c",))
    st.heap[("I", "m_index")] = C(i)
    return ("ref", ("I",))


def whole(ck, rep, kind, a, base):
    def v(want):
        def judge(I, pa):
            returned(pa)
            e = teq(pa.st, pa.val, want)
            if e is None:
                raise Unknown("value")
            if not e:
                return "yields %s, not %s" % (show_v(pa.val), show_v(want))
            map_is(I, pa.st, T, kind.stable, {x: val(x) for x in a.keys})
        return judge
    one = lambda st: [a.put(st, T)]
    ck.run(kind, "size", one, "size of " + base, "size", v(C(len(a.keys))))
    ck.run(kind, "empty", one, "empty of " + base, "empty", v(C(int(not a.keys))))

    def judge(I, pa):
        returned(pa)
        map_is(I, pa.st, T, kind.stable, {})
    ck.run(kind, "clear", one, "clear of " + base, "clear", judge)
    for e, w in (("begin", 1), ("end", 0)):
        def judge(I, pa, w=w):
            returned(pa)
            i = it_index(I, pa.st, pa.val)
            if i != w:
                return "is at slot %d" % i
        ck.run(kind, e, one, "%s of %s" % (e, base), e, judge)
    b = Arr([(2,) * kind.width], kind.stable, 0)

    def judge(I, pa):
        returned(pa)
        map_is(I, pa.st, T, kind.stable, {x: val(x) for x in b.keys})
        map_is(I, pa.st, U, kind.stable, {x: val(x) for x in a.keys})
    ck.run(kind, "swap", lambda st: [a.put(st, T), b.put(st, U)], "swapping %s with another" % base, "swap", judge)


def lists(width):
    if width == 1:
        a, b, c = (0,), (1,), (2,)
        out = [(), (a,), (a, b), (a, (0, 1)), (a, (0, 1), b, (2, 0, 1)), ((0, 1), (0, 2), (1, 0)), ((0, 1, 2), (0, 1, 3), (0, 2), (1,)), ((0, 0), (0, 0, 1), (0, 1), (1, 1), (1, 2), (3,)),
               (b, a), (a, a, b), (b, (0, 1), b), ((), a), ((),), ((1, 2, 3), (5, 2, 3), (5, 2, 4)), ((97, 97), (97, 98), (98, 97), (98, 98), (99,)), ((200, 1), (200, 130), (201,), (255, 255)), ((127,), (128,), (128, 128), (128, 129)), ((0, 1), (0, 1, 2), (0, 2), (0, 2, 1, 1), (0, 2, 1, 2))]
        return out
    z = lambda *cs: tuple(x for c in cs for x in (c >> 8, c & 255))
    return [(), (z(1),), (z(1), z(2)), (z(1), z(1, 2), z(0x101)), (z(2), z(1), z(2)), (z(0x201), z(0x202), z(0x202, 1))]


def num(k):
    return C((sum((i + 3) * 7919 * (x + 1) for i, x in enumerate(k)) * 104729) % (1 << 31))


def ser(a):
    return tuple(x for b, c in a.node for x in (b, C(c)))


def bulk(ck, rep, kind):
    olds = [Arr([], kind.stable, 0), Arr([(2,) * kind.width], kind.stable, 0), Arr([(0, 1) * kind.width, (0, 1, 0, 1) * kind.width], kind.stable, 1)]

    def empty(I, pa):
        returned(pa)
        if pa.val[0] != "ref":
            raise Unknown("result")
        map_is(I, pa.st, pa.val[1], kind.stable, {})
    ck.run(kind, "ctor", lambda st: [], "a new trie", kind_class(kind), empty)
    for old in olds:
        ob = shows(old.keys)
        for ks in lists(kind.width):
            def setup(st):
                old.put(st, T)
                its = []
                for n, k in enumerate(ks):
                    st.heap[("L", n)] = kind.string(k)
                    its.append(("chr", ("ref", ("L", n))))
                st.heap[("L",)] = ("str", tuple(its))
                return [("ref", T), ("ref", ("L",))]

            def judge(I, pa):
                returned(pa)
                map_is(I, pa.st, T, kind.stable, {k: C(0) for k in ks if k})
            ck.run(kind, "assign", setup, "assigning the list [%s] to %s" % (", ".join(show(k) for k in ks), ob), "assign", judge)
        for keys in key_sets(kind.width)[::2]:
            a = Arr(keys, kind.stable, 0, num)
            w = {k: num(k) for k in a.keys}

            def setup(st):
                old.put(st, T)
                st.heap[("V",)] = ("str", tuple(("chr", x) for x in ser(a)))
                return [("ref", T), ("ref", ("V",))]

            def judge(I, pa):
                returned(pa)
                map_is(I, pa.st, T, kind.stable, w)
            ck.run(kind, "load", setup, "loading the 32-bit form of %s into %s" % (shows(keys), ob), "assign", judge)
    for keys in key_sets(kind.width)[::2]:
        a = Arr(keys, kind.stable, 0, num)
        want = ser(a)

        def setup(st):
            a.put(st, T)
            st.heap[("V",)] = ("str", (("chr", C(5)),))
            return [("ref", T), ("ref", ("V",))]

        def judge(I, pa):
            returned(pa)
            s = I.lib.get(I, pa.st, ("ref", ("V",)))
            if s is None or s[0] != "str":
                raise Unknown("output")
            if not all(x[0] == "chr" and x[1][0] == "c" for x in s[1]):
                raise Unknown("output")
            if [x[1][1] & 0xFFFFFFFF for x in s[1]] != [x[1] & 0xFFFFFFFF for x in want]:
                return "yields %s" % show_items(s[1])
            map_is(I, pa.st, T, kind.stable, {k: num(k) for k in a.keys})
        ck.run(kind, "save", setup, "the 32-bit form of %s" % shows(keys), "ibegin", judge)


def kind_class(kind):
    return "stable_trie_base" if kind.stable else "trie_base"


def job(ck, rep, kind, keys, layout):
    ck.rep = rep
    if keys is None:
        bulk(ck, rep, kind)
        return
    a = Arr(keys, kind.stable, layout)
    base = shows(keys) + ("" if layout == 0 else " (spread)" if layout == 1 else " (with gaps)")
    for g in (modify, lookups, iters, whole):
        g(ck, rep, kind, a, base)


def check(rep):
    soften(rep)
    p = export("trie.cpp", stand=STAND)
    ck = Chk(rep, p)
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    jobs = []
    for kind in KINDS:
        for n, keys in enumerate(key_sets(kind.width)):
            for layout in (0, 1, 2) if thorough or (n % 3 == 0 and keys) else (0,) if n % 2 else (1,):
                if not layout or keys:
                    jobs.append((kind, keys, layout))
        jobs.append((kind, None, 0))
    parallel(rep, [lambda r, j=j: job(ck, r, *j) for j in jobs])
    rep.count("functions", 45)
    rep.need("partitions", 200)
