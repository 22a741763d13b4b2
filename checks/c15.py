"""C15: the tree container keeps its structure: every operation yields exactly the forest it documents."""
from shape import *
from shape import name as name_

LEVEL = "other"
RULE = ("every operation of tree and of its iterators is interpreted on an abstract heap that satisfies the documented representation invariant, one partition per shape (all ordered forests of up to four nodes, with free "
        "slots before, between and after the nodes) and position, node values symbolic; on every path the resulting heap is read back through the invariant and compared with a model forest. link and unlink "
        "touch only a node's parent, its neighbours and the ends of its sibling list, all of which these shapes contain in every combination.")
ASSUME = ["iterators passed belong to the container and point where their partition says", "a subtree is not copied into itself, and copied subtrees have up to five nodes"]
T, U, OUT = ("T",), ("U",), ("OUT",)
FIELDS = ("m_parent", "m_prev", "m_next", "m_child")


def val(i, base="v"):
    return sym("%s%d" % (base, i), -1 << 31, (1 << 31) - 1)


def put(st, loc, f, free, base="v"):
    """the heap of a forest: the documented representation"""
    n = len(ids(f)) + len(free) + 1
    rec = {i: dict.fromkeys(FIELDS, 0) for i in range(n)}

    def sibs(l, p):
        for k, (i, c) in enumerate(l):
            rec[i].update(m_parent=p, m_prev=l[k - 1][0], m_next=l[k + 1][0] if k + 1 < len(l) else 0, m_child=c[0][0] if c else 0)
            sibs(c, i)
    sibs(f, 0)
    rec[0]["m_child"] = f[0][0] if f else 0
    prev = 0
    for i in sorted(free):
        rec[prev]["m_next"], rec[i]["m_prev"] = i, prev
        prev = i
    rec[0]["m_prev"] = prev
    for i in range(n):
        for k in FIELDS:
            st.heap[loc + ("n%d" % i, k)] = C(rec[i][k])
        st.heap[loc + ("n%d" % i, "m_value")] = val(i, base) if i and i not in free else val(i, base + "free") if i else C(0)
    st.heap[loc + ("m_c",)] = ("str", tuple(("chr", ("ref", loc + ("n%d" % i,))) for i in range(n)))


def mkit(st, loc, t, pos):
    st.heap[loc + ("m_c",)] = ("ptr", t + ("m_c",))
    st.heap[loc + ("m_parent",)] = C(pos[0])
    st.heap[loc + ("m_index",)] = C(pos[1])
    return ("ref", loc)


class Bad(Exception):
    """the invariant is broken"""


class Unknown(Exception):
    """the abstraction lost a link"""


def read(I, st, loc):
    """the forest [id, children] of a heap, the values, and the free slots; checks the representation invariant"""
    v = st.heap.get(loc + ("m_c",))
    if v is None or v[0] != "str" or not all(x[0] == "chr" and x[1][0] == "ref" for x in v[1]):
        raise Unknown("storage %s" % str(v)[:60])
    locs = [x[1][1] for x in v[1]]
    n = len(locs)
    if n == 0:
        raise Bad("slot 0 is gone")

    def get(i, k):
        x = st.heap.get(locs[i] + (k,))
        if x is None or x[0] != "c":
            raise Unknown("%s of slot %d is %s" % (k, i, str(x)[:40]))
        if not 0 <= x[1] < n:
            raise Bad("%s of node %d is %d, outside the storage" % (k, i, x[1]))
        return x[1]
    seen = set()
    vals = {}

    def sibs(p):
        out, i, prev = [], get(p, "m_child"), None
        first = i
        while i:
            if i in seen:
                raise Bad("node %d is linked twice" % i)
            seen.add(i)
            if get(i, "m_parent") != p:
                raise Bad("node %d is a child of %d but its parent link is %d" % (i, p, get(i, "m_parent")))
            if prev is not None and get(i, "m_prev") != prev:
                raise Bad("node %d follows %d but its previous link is %d" % (i, prev, get(i, "m_prev")))
            vals[i] = st.heap.get(locs[i] + ("m_value",), ("?",))
            out.append([i, sibs(i)])
            prev, i = i, get(i, "m_next")
        if first and get(first, "m_prev") != prev:
            raise Bad("the first child %d of %d does not link to the last one (%d but %d)" % (first, p, prev, get(first, "m_prev")))
        return out
    f = sibs(0)
    free, i = [], get(0, "m_next")
    while i:
        if i in seen:
            raise Bad("slot %d is both free and in use, or free twice" % i)
        seen.add(i)
        free.append(i)
        if get(i, "m_child"):
            raise Bad("free slot %d has a child link" % i)
        i = get(i, "m_next")
    lost = set(range(1, n)) - seen
    if lost:
        raise Bad("slots %s are neither in the tree nor free" % sorted(lost))
    if free and get(free[0], "m_prev"):
        raise Bad("the first free slot links back to %d" % get(free[0], "m_prev"))
    return f, vals, free


def same(st, f, vals, want, wvals):
    """forests equal: old nodes keep their slots, new ones (strings) have free ones; values equal as terms"""
    if len(f) != len(want):
        return False
    r = True
    for (i, c), (w, wc) in zip(f, want):
        if isinstance(w, int) and i != w:
            return False
        e = teq(st, vals[i], wvals[w])
        if e is False:
            return False
        x = same(st, c, vals, wc, wvals)
        if x is False:
            return False
        r = r and e and x
    return r


def itpos(I, st, v):
    v = v if v[0] != "ref" else v
    if v[0] != "ref":
        return None
    a, b = st.heap.get(v[1] + ("m_parent",)), st.heap.get(v[1] + ("m_index",))
    if a is None or b is None or a[0] != "c" or b[0] != "c":
        return None
    return a[1], b[1]


class Chk:
    def __init__(self, rep, p):
        self.rep, self.p = rep, p

    def where(self, fn):
        fs = [i for i in self.p.byname.get(fn, []) if i in self.p.funcs and self.p.finfo[i]["q"].startswith("wordring::")]
        return self.p.where(fs[0]) if fs else "include/wordring/tree/tree.hpp (%s)" % fn

    def run(self, entry, setup, desc, key, fn, judge):
        """setup(st) -> args; judge(I, pa) -> None (holds), a text (violated) or raises Unknown"""
        rep = self.rep
        rep.guard(key, self._run, entry, setup, desc, key, fn, judge)

    def _run(self, entry, setup, desc, key, fn, judge):
        rep = self.rep
        I = Interp(self.p, SLib())
        I.hooks += [data_hook]
        st = St()
        args = setup(st)
        try:
            paths = I.run(drv(self.p, entry), st, None, args)
        except LoopLimit as e:
            # the shapes have at most a handful of nodes: more iterations, all of them forced, do not end
            if not getattr(e, "det", False):
                raise
            rep.fail(key, "%s: %s: does not terminate (%s)" % (self.where(fn), desc, e))
            return
        for pa in paths:
            rep.count("paths")
            opq = [e for e in pa.st.eff if e[0] == "opaque"]
            try:
                t = judge(I, pa)
            except Bad as e:
                t = str(e)
            except Unknown as e:
                rep.undecided(key, str(e))
                continue
            if t is None:
                rep.ok()
            elif opq:
                rep.undecided(key, "%s after unmodelled %s" % (t, str(opq[0])[:80]))
            else:
                rep.fail(key, "%s: %s: %s" % (self.where(fn), desc, t))


def returned(pa):
    if pa.kind != "ret":
        raise Bad("aborts" if pa.kind == "abort" else "throws")
    for e in pa.st.eff:
        if e[0] in BADEFF:
            raise Bad("reads outside the storage")


def forest_is(I, pa, loc, want, wvals, what="the tree"):
    f, vals, free = read(I, pa.st, loc)
    r = same(pa.st, f, vals, want, wvals)
    if r is None:
        raise Unknown("values")
    if not r:
        raise Bad("%s becomes %s, not %s" % (what, show_vals(f, vals), show_vals(want, wvals)))
    return f


def show_vals(f, vals):
    def nm(v):
        return str(v[1]) if v[0] in ("s", "c") else "?"
    return "[" + " ".join(nm(vals.get(i, ("?",))) + (show_vals(c, vals) if c else "") for i, c in f) + "]"


def vals_of(f, base="v"):
    return {i: val(i, base) for i in ids(f)}


NEWV = sym("new", -1 << 31, (1 << 31) - 1)


def slot_at(f, pos):
    """the slot of the node a position denotes after the operation, in the forest read back"""
    return pos


def check_insert(ck, rep):
    for entry in ("vp_insert", "vp_insert_rv", "vp_insert_it", "vp_emplace"):
        rep.count("functions")
        for f, free in partitions(4 if entry == "vp_insert" else 3):
            for pos in positions(f):
                rep.count("partitions")

                def setup(st):
                    put(st, T, f, free)
                    st.heap[("val",)] = NEWV
                    return [("ref", T), mkit(st, ("pos",), T, pos), NEWV if entry == "vp_emplace" else ("ref", ("val",))]

                def judge(I, pa):
                    returned(pa)
                    want = copyf(f)
                    ins(want, pos, ["N", []])
                    wv = dict(vals_of(f), N=NEWV)
                    g = forest_is(I, pa, T, want, wv)
                    at = itpos(I, pa.st, pa.val)
                    if at is None:
                        raise Unknown("returned iterator")
                    new = [i for i in ids(g) if i not in wv][0]
                    if at != (pos[0], new):
                        return "the returned iterator is (parent %d, node %d), not (parent %d, node %d)" % (at + (pos[0], new))
                ck.run(entry, setup, "inserting before %s in %s (free %s)" % (pos, show(f) or "an empty tree", free), "insert", "insert", judge)


def check_erase(ck, rep):
    rep.count("functions")
    for f, free in partitions(4):
        for i in ids(f):
            rep.count("partitions")
            par, nxt = find(f, i)[1], 0
            l, k = find(f, i)[2:]
            nxt = l[k + 1][0] if k + 1 < len(l) else 0

            def setup(st):
                put(st, T, f, free)
                return [("ref", T), mkit(st, ("pos",), T, (par, i))]

            def judge(I, pa):
                returned(pa)
                want = copyf(f)
                rem(want, i)
                forest_is(I, pa, T, want, vals_of(f))
                at = itpos(I, pa.st, pa.val)
                if at is None:
                    raise Unknown("returned iterator")
                if at != (par, nxt):
                    return "the returned iterator is (parent %d, node %d), not (parent %d, node %d)" % (at + (par, nxt))
            ck.run("vp_erase", setup, "erasing %d from %s (free %s)" % (i, show(f), free), "erase", "erase", judge)


def check_move(ck, rep):
    rep.count("functions")
    for f, free in partitions(4):
        if free:
            continue
        for i in ids(f):
            for pos in positions(f):
                rep.count("partitions")
                par = find(f, i)[1]
                below = set(ids([subtree(f, i)]))
                cyc = pos[0] in below or pos[1] == i

                def setup(st):
                    put(st, T, f, free)
                    mkit(st, ("pos",), T, pos)
                    mkit(st, ("sub",), T, (par, i))
                    return [("ref", T), ("ref", ("pos",)), ("ref", ("sub",))]

                def judge(I, pa):
                    if cyc:
                        if pa.kind != "throw":
                            return "moving a node below itself is not refused"
                        forest_is(I, pa, T, f, vals_of(f))
                        return None
                    returned(pa)
                    want = copyf(f)
                    node = rem(want, i)
                    ins(want, pos, node)
                    forest_is(I, pa, T, want, vals_of(f))
                    at = itpos(I, pa.st, pa.val)
                    if at is None:
                        raise Unknown("returned iterator")
                    if at != (pos[0], i):
                        return "the returned iterator is (parent %d, node %d), not (parent %d, node %d)" % (at + (pos[0], i))
                ck.run("vp_move", setup, "moving %d before %s in %s" % (i, pos, show(f)), "move", "move", judge)


def check_copy_sub(ck, rep):
    rep.count("functions")
    for n in range(1, 6):
        for sh in forests(n):
            if len(sh) != 1:
                continue
            g = name_(sh, range(1, n + 1))
            for f, free in partitions(2):
                for pos in positions(f):
                    if n > 3 and (free or len(ids(f)) > 1):
                        continue
                    rep.count("partitions")

                    def setup(st):
                        put(st, T, f, free)
                        put(st, U, g, [], "u")
                        mkit(st, ("pos",), T, pos)
                        mkit(st, ("sub",), U, (0, 1))
                        return [("ref", T), ("ref", ("pos",)), ("ref", ("sub",))]

                    def judge(I, pa):
                        returned(pa)
                        want = copyf(f)

                        def ren(x):
                            return [["N%d" % i, ren(c)] for i, c in x]
                        ins(want, pos, ren(g)[0])
                        wv = dict(vals_of(f), **{"N%d" % i: val(i, "u") for i in ids(g)})
                        r = forest_is(I, pa, T, want, wv)
                        forest_is(I, pa, U, g, vals_of(g, "u"), "the source")
                        at = itpos(I, pa.st, pa.val)
                        if at is None:
                            raise Unknown("returned iterator")
                        x = find(r, at[1])
                        l = kids(r, pos[0])
                        k = ([y[0] for y in kids(f, pos[0])] + [0]).index(pos[1])
                        if at != (pos[0], l[k][0]):
                            return "the returned iterator is %s" % (at,)
                    ck.run("vp_insert_sub", setup, "copying the subtree %s before %s in %s" % (show(g), pos, show(f)), "insert subtree", "insert", judge)


def check_whole(ck, rep):
    for f, free in partitions(3):
        for entry in ("vp_clear", "vp_assign", "vp_assign_rv"):
            def setup(st):
                put(st, T, f, free)
                st.heap[("val",)] = NEWV
                return [("ref", T)] + ([("ref", ("val",))] if entry != "vp_clear" else [])

            def judge(I, pa):
                returned(pa)
                forest_is(I, pa, T, [["N", []]] if entry != "vp_clear" else [], {"N": NEWV})
            ck.run(entry, setup, "from %s" % show(f), entry[3:], entry[3:].replace("_rv", ""), judge)
        for g, free2 in partitions(2):
            def setup(st):
                put(st, T, f, free)
                put(st, U, g, free2, "u")
                return [("ref", T), ("ref", U)]

            def judge(I, pa):
                returned(pa)
                forest_is(I, pa, T, g, vals_of(g, "u"))
                forest_is(I, pa, U, f, vals_of(f), "the other tree")
            ck.run("vp_swap", setup, "%s with %s" % (show(f), show(g)), "swap", "swap", judge)

        def setup(st):
            put(st, T, f, free)
            return [("ref", T)]

        def judge(I, pa):
            returned(pa)
            if pa.val[0] != "ref":
                raise Unknown("result")
            forest_is(I, pa, pa.val[1], f, vals_of(f), "the copy")
            forest_is(I, pa, T, f, vals_of(f), "the source")
        ck.run("vp_copy", setup, "copying %s" % show(f), "copy", "tree", judge)
        for entry, want in (("vp_empty", int(not f)), ("vp_size", len(ids(f)))):
            def judge(I, pa):
                returned(pa)
                v = I.lib.get(I, pa.st, pa.val)
                if v[0] != "c":
                    raise Unknown(str(v)[:40])
                forest_is(I, pa, T, f, vals_of(f))
                if v[1] != want:
                    return "answers %d, not %d" % (v[1], want)
            ck.run(entry, setup, show(f) or "an empty tree", entry[3:], entry[3:], judge)
        first = f[0][0] if f else 0
        for entry, want in (("vp_begin", (0, first)), ("vp_end", (0, 0)), ("vp_cbegin", (0, first)), ("vp_cend", (0, 0)), ("vp_begin_c", (0, first)), ("vp_end_c", (0, 0))):
            def judge(I, pa):
                returned(pa)
                at = itpos(I, pa.st, pa.val)
                if at is None:
                    raise Unknown("iterator")
                if at != want:
                    return "points at %s, not %s" % (at, want)
            ck.run(entry, setup, show(f) or "an empty tree", entry[3:], entry[3:].replace("_c", "").replace("_", ""), judge)
        if f:
            for entry in ("vp_front", "vp_cfront"):
                def judge(I, pa):
                    returned(pa)
                    v = I.lib.get(I, pa.st, pa.val)
                    e = teq(pa.st, v, val(first))
                    if e is None:
                        raise Unknown(str(v)[:60])
                    if not e:
                        return "is not the first root's value"
                ck.run(entry, setup, show(f), "front", "front", judge)
        for i in ids(f) + [0]:
            def setup(st):
                put(st, T, f, free)
                return [("ref", T), mkit(st, ("pos",), T, (find(f, i)[1] if i else 0, i))]

            def judge(I, pa):
                returned(pa)
                v = I.lib.get(I, pa.st, pa.val)
                if v[0] != "c":
                    raise Unknown(str(v)[:40])
                w = len(ids([subtree(f, i)])) if i else 0
                if v[1] != w:
                    return "answers %d, not %d" % (v[1], w)
            ck.run("vp_size_at", setup, "the subtree at %d of %s" % (i, show(f)), "size of a subtree", "size", judge)
    for entry in ("vp_ctor", "vp_ctor_a", "vp_ctor_v", "vp_ctor_rv"):
        def setup(st):
            st.heap[("val",)] = NEWV
            return [("ref", ("val",))] if entry[-1] == "v" else []

        def judge(I, pa):
            returned(pa)
            if pa.val[0] != "ref":
                raise Unknown("result")
            forest_is(I, pa, pa.val[1], [["N", []]] if entry[-1] == "v" else [], {"N": NEWV})
        ck.run(entry, setup, "constructing", entry[3:], "tree", judge)
    rep.count("functions", 16)


def check_iters(ck, rep):
    rep.count("functions", 20)
    for f, free in partitions(3):
        all_pos = list(positions(f))
        for pos in all_pos:
            sib = [x[0] for x in kids(f, pos[0])]
            k = (sib + [0]).index(pos[1])
            i = pos[1]
            want = {"vp_it_parent": (find(f, pos[0])[1] if pos[0] else 0, pos[0])}
            if i:
                c = [x[0] for x in kids(f, i)]
                want.update(vp_it_begin=(i, c[0] if c else 0), vp_it_end=(i, 0), vp_it_inc=(pos[0], (sib + [0])[k + 1]), vp_it_pinc=pos, vp_it_pinc2=(pos[0], (sib + [0])[k + 1]))
            if k > 0:
                want.update(vp_it_dec=(pos[0], sib[k - 1]), vp_it_pdec=pos, vp_it_pdec2=(pos[0], sib[k - 1]))
            want["vp_it_const"] = pos
            def setup(st):
                put(st, T, f, free)
                return [mkit(st, ("pos",), T, pos)]
            for entry, w in want.items():
                def judge(I, pa):
                    returned(pa)
                    at = itpos(I, pa.st, pa.val)
                    if at is None:
                        raise Unknown("iterator")
                    if at != w:
                        return "gives (parent %d, node %d), not (parent %d, node %d)" % (at + w)
                nm = {"inc": "operator++", "pinc": "operator++", "pinc2": "operator++", "dec": "operator--", "pdec": "operator--", "pdec2": "operator--"}.get(entry[6:], entry[6:])
                ck.run(entry, setup, "iterator at (parent %d, node %d) of %s" % (pos + (show(f),)), "iterator " + entry[6:], nm, judge)
            if i:
                for entry in ("vp_it_deref", "vp_it_arrow"):
                    def judge(I, pa):
                        returned(pa)
                        v = I.lib.get(I, pa.st, pa.val)
                        e = teq(pa.st, v, val(i))
                        if e is None:
                            raise Unknown(str(v)[:60])
                        if not e:
                            return "is not the node's value"
                    ck.run(entry, setup, "iterator at %d of %s" % (i, show(f)), "iterator " + entry[6:], "operator*", judge)
                for entry, seq_ in (("vp_children", c), ("vp_rchildren", c[::-1])):
                    def setup2(st):
                        st.heap[OUT] = ("str", ())
                        return setup(st) + [("ref", OUT)]

                    def judge(I, pa):
                        returned(pa)
                        v = pa.st.heap.get(OUT)
                        if v[0] != "str":
                            raise Unknown("output")
                        got = [x[1] for x in v[1]]
                        es = [teq(pa.st, a, val(b)) for a, b in zip(got, seq_)]
                        if len(got) != len(seq_) or False in es:
                            return "visits %d nodes, not the %d children in %s" % (len(got), len(seq_), "order" if entry == "vp_children" else "reverse order")
                        if None in es:
                            raise Unknown("values")
                    ck.run(entry, setup2, "children of %d in %s" % (i, show(f)), entry[3:], "begin" if entry == "vp_children" else "rbegin", judge)
            if free:
                continue
            for pos2 in all_pos:
                for entry, w in (("vp_it_eq", pos == pos2), ("vp_it_ne", pos != pos2), ("vp_it_eq_c", pos == pos2), ("vp_it_ne_c", pos != pos2)):
                    def setup3(st):
                        return setup(st) + [mkit(st, ("pos2",), T, pos2)]

                    def judge(I, pa):
                        returned(pa)
                        v = I.lib.get(I, pa.st, pa.val)
                        if v[0] != "c":
                            raise Unknown(str(v)[:40])
                        if bool(v[1]) != w:
                            return "positions %s and %s compare %s" % (pos, pos2, "equal" if bool(v[1]) == ("eq" in entry) else "different")
                    ck.run(entry, setup3, "in %s" % show(f), "iterator comparison", "operator==" if "eq" in entry else "operator!=", judge)


def check_traverse(ck, rep):
    rep.count("functions", 3)
    for n in range(1, 6):
        for sh in forests(n):
            f = name_(sh, range(1, n + 1))
            if len(f) > 2:
                continue
            pre = ids(f[:1])
            lev, q_ = [], list(f[:1])
            while q_:
                x = q_.pop(0)
                lev.append(x[0])
                q_ += x[1]
            for entry, seq_ in (("vp_preorder", pre), ("vp_levelorder", lev), ("vp_preorder_post", [x for i in pre for x in (i, i)])):
                def setup(st):
                    put(st, T, f, [])
                    st.heap[OUT] = ("str", ())
                    return [("ref", T), ("ref", OUT)]

                def judge(I, pa):
                    returned(pa)
                    v = pa.st.heap.get(OUT)
                    if v[0] != "str":
                        raise Unknown("output")
                    got = [x[1] for x in v[1]]
                    es = [teq(pa.st, a, val(b)) for a, b in zip(got, seq_)]
                    if len(got) != len(seq_) or False in es:
                        return "visits %s, not %s" % ([g[1] if g[0] == "s" else "?" for g in got], ["v%d" % x for x in seq_])
                    if None in es:
                        raise Unknown("values")
                ck.run(entry, setup, "traversing %s" % show(f), entry[3:], "operator++", judge)


def check(rep):
    p = export("tree.cpp")
    ck = Chk(rep, p)
    check_insert(ck, rep)
    check_erase(ck, rep)
    check_move(ck, rep)
    check_copy_sub(ck, rep)
    check_whole(ck, rep)
    check_iters(ck, rep)
    check_traverse(ck, rep)
    rep.need("functions", 40)
