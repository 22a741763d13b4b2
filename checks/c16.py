"""C16: the tag tree keeps its structure: every operation yields exactly the forest it documents, in the linear (start tag / end tag) representation."""
from shape import *
from shape import name as name_
import c15
from c15 import Bad, Unknown, Chk as Chk15, returned, show_vals, same

LEVEL = "other"
RULE = ("every operation of tag_tree and its node, serial and const iterators is interpreted on an abstract heap holding the linear start-tag/end-tag list of a forest, one partition per shape (all ordered forests of up to "
        "four nodes, childless nodes both as single nodes and as empty elements, with and without free slots) and position, values symbolic; on every path the resulting list is read back (properly nested, doubly linked, "
        "every slot either listed or free) and compared with a model forest. The operations touch only the neighbours of the two ends of a node, all of which these shapes contain in every combination.")
ASSUME = ["iterators passed belong to the container and point where their partition says", "a subtree is not moved into itself"]
T, U, OUT, OUT2 = ("T",), ("U",), ("OUT",), ("OUT2",)
W = "include/wordring/tag_tree/"


def val(i, base="v"):
    return sym("%s%d" % (base, i), -1 << 31, (1 << 31) - 1)


def slots(f, singles, start=1, order=None):
    """linear list of (kind, node id): 's' start, 'e' end, '1' single"""
    out = []
    for i, c in f:
        if i in singles:
            out.append(("1", i))
        else:
            out.append(("s", i))
            out += slots(c, singles)
            out.append(("e", i))
    return out


class Heap:
    """node ids are the slots of the start tags; tail maps them to the slots of their end tags"""

    def __init__(self, f0, singles0, scramble, nfree):
        # f0 over 1..n in document order; slots are dealt out in list order (or reversed), free ones in between
        lin = slots(f0, singles0)
        n = len(lin)
        total = list(range(1, n + nfree + 1))
        free = (total[1::2] + total[::2])[:nfree]
        use = [x for x in total if x not in free]
        if scramble:
            use = use[::-1]
        self.free = sorted(free)
        m, self.tail, self.lin = {}, {}, []
        for (k, i), s in zip(lin, use):
            if k == "e":
                self.tail[m[i]] = s
            else:
                m[i] = s
            self.lin.append((k, m[i], s))
        ren = lambda f: [[m[i], ren(c)] for i, c in f]
        self.f = ren(f0)
        self.singles = {m[i] for i in singles0}
        self.n = n + nfree + 1

    def end(self, i):
        """the slot an end-of-children iterator of i has"""
        return self.tail.get(i, 0)

    def slot(self, pos):
        return pos[1] or (self.tail.get(pos[0], 0) if pos[0] else 0)

    def put(self, st, loc, base="v"):
        rec = {i: dict.fromkeys(("m_prev", "m_next", "m_head", "m_tail"), 0) for i in range(self.n)}
        ring = [0] + [s for _, _, s in self.lin]
        for k, s in enumerate(ring):
            rec[s]["m_prev"], rec[s]["m_next"] = ring[k - 1], ring[(k + 1) % len(ring)]
        for i, t in self.tail.items():
            rec[i]["m_tail"], rec[t]["m_head"] = t, i
        prev = 0
        for i in self.free:
            rec[prev]["m_tail"], rec[i]["m_head"] = i, prev
            prev = i
        rec[0]["m_head"] = prev
        store = loc + ("store",)
        for i in range(self.n):
            b = loc + ("n%d" % i,)
            for k, v in rec[i].items():
                st.heap[b + (k,)] = C(v)
            known = any(s == i and k != "e" for k, _, s in self.lin)
            st.heap[b + ("m_value", "v")] = val(i, base) if known else C(0)
            st.heap[b + ("m_value", "single")] = C(int(i in self.singles))
        st.heap[store] = ("str", tuple(("chr", ("ref", loc + ("n%d" % i,))) for i in range(self.n)))
        st.heap[loc + ("m_c",)] = ("ptr", store)

    def vals(self, base="v"):
        return {i: val(i, base) for i in ids(self.f)}

    def show(self):
        def go(f):
            return " ".join(str(i) + ("" if i in self.singles else "{%s}" % go(c)) for i, c in f)
        return go(self.f) or "an empty tree"


def parts(maxn, frees=(0, 1, 2), scr=(False, True)):
    for n in range(maxn + 1):
        for sh in forests(n):
            f = name_(sh, range(1, n + 1))
            leaves = [i for i in ids(f) if not kids(f, i)]
            for k in range(len(leaves) + 1):
                for sg in itertools.combinations(leaves, k):
                    for nf in frees:
                        for s in scr:
                            if (s and n == 0) or (n > 2 and s != (nf == 1)) or (n > 3 and nf == 2):
                                continue
                            yield Heap(f, set(sg), s, nf)


def mkit(st, loc, t, slot):
    st.heap[loc + ("m_c",)] = ("ptr", t + ("store",))
    st.heap[loc + ("m_i",)] = C(slot)
    return ("ref", loc)


def read(I, st, loc):
    pv = st.heap.get(loc + ("m_c",))
    if pv is None or pv[0] != "ptr" or pv[1] is None:
        raise Unknown("storage pointer %s" % str(pv)[:40])
    v = st.heap.get(pv[1])
    if v is None or v[0] != "str" or not all(x[0] == "chr" and x[1][0] == "ref" for x in v[1]):
        raise Unknown("storage %s" % str(v)[:60])
    locs = [x[1][1] for x in v[1]]
    n = len(locs)
    if n == 0:
        raise Bad("slot 0 is gone")

    def get(i, k):
        x = st.heap.get(locs[i] + (k,))
        if x is None or x[0] != "c":
            raise Unknown("%s of slot %d is %s" % (k, i, str(x)[:40]))
        if not 0 <= x[1] < n:
            raise Bad("%s of node %d is %d, outside the storage" % (k, i, x[1]))
        return x[1]
    seen, vals, top, stack, prev, i = set(), {}, [], [], 0, get(0, "m_next")
    singles = set()
    cur = top
    while i:
        if i in seen:
            raise Bad("slot %d is linked twice" % i)
        seen.add(i)
        if get(i, "m_prev") != prev:
            raise Bad("slot %d follows %d but its previous link is %d" % (i, prev, get(i, "m_prev")))
        h, t = get(i, "m_head"), get(i, "m_tail")
        if h and t:
            raise Bad("slot %d is both a start and an end tag" % i)
        if h:
            if not stack or stack[-1][0] != h:
                raise Bad("the end tag %d of node %d is not properly nested" % (i, h))
            if get(h, "m_tail") != i:
                raise Bad("node %d and end tag %d do not match" % (h, i))
            cur = stack.pop()[1]
        else:
            node = [i, []]
            cur.append(node)
            vals[i] = st.heap.get(locs[i] + ("m_value", "v"), ("?",))
            if t:
                if get(t, "m_head") != i:
                    raise Bad("node %d and end tag %d do not match" % (i, t))
                stack.append((i, cur))
                cur = node[1]
            else:
                singles.add(i)
        prev, i = i, get(i, "m_next")
    if stack:
        raise Bad("node %d has no end tag" % stack[-1][0])
    if get(0, "m_prev") != prev:
        raise Bad("the list ends at %d but the head links back to %d" % (prev, get(0, "m_prev")))
    free, i = [], get(0, "m_tail")
    while i:
        if i in seen:
            raise Bad("slot %d is both free and in use, or free twice" % i)
        seen.add(i)
        free.append(i)
        i = get(i, "m_tail")
    lost = set(range(1, n)) - seen
    if lost:
        raise Bad("slots %s are neither in the tree nor free" % sorted(lost))
    if free and get(free[0], "m_head"):
        raise Bad("the first free slot links back to %d" % get(free[0], "m_head"))
    return top, vals, free, singles, get


def forest_is(I, pa, loc, want, wvals, wsingles, what="the tree"):
    f, vals, free, singles, get = read(I, pa.st, loc)
    r = same(pa.st, f, vals, want, wvals)
    if r is None:
        raise Unknown("values")
    if not r:
        raise Bad("%s becomes %s, not %s" % (what, show_vals(f, vals), show_vals(want, wvals)))
    old = set(x for x in wvals if isinstance(x, int))
    if (singles & old) != {x for x in wsingles if isinstance(x, int)} & set(ids(f)):
        raise Bad("%s: a node with an end tag became a single node, or the reverse" % what)
    new = [i for i in ids(f) if i not in old]
    for i in new:
        if (i in singles) != ("N" in wsingles):
            raise Bad("the new node is %sa single node" % ("" if i in singles else "not "))
    return f, get


def itslot(I, st, v):
    if v[0] != "ref":
        return None
    b = st.heap.get(v[1] + ("m_i",))
    return b[1] if b is not None and b[0] == "c" else None


class Chk(Chk15):
    def where(self, fn):
        fs = [i for i in self.p.byname.get(fn, []) if i in self.p.funcs and "tag_tree" in self.p.finfo[i]["q"]]
        return self.p.where(fs[0]) if fs else W + "tag_tree.hpp (%s)" % fn


NEWV = sym("new", -1 << 31, (1 << 31) - 1)


def check_insert(ck, rep):
    for entry in ("vp_insert", "vp_insert_rv"):
        rep.count("functions")
        for h in parts(3):
            for pos in positions(h.f):
                if pos[0] in h.singles:
                    continue
                for single in (0, 1):
                    rep.count("partitions")

                    def setup(st):
                        h.put(st, T)
                        st.heap[("val", "v")] = NEWV
                        st.heap[("val", "single")] = C(single)
                        return [("ref", T), mkit(st, ("pos",), T, h.slot(pos)), ("ref", ("val",))]

                    def judge(I, pa):
                        returned(pa)
                        want = copyf(h.f)
                        ins(want, pos, ["N", []])
                        g, get = forest_is(I, pa, T, want, dict(h.vals(), N=NEWV), h.singles | ({"N"} if single else set()))
                        new = [i for i in ids(g) if i not in ids(h.f)][0]
                        at = itslot(I, pa.st, pa.val)
                        if at is None:
                            raise Unknown("returned iterator")
                        if at != new:
                            return "the returned iterator points at %d, not at the new node %d" % (at, new)
                    ck.run(entry, setup, "inserting %s before %s in %s (free %s)" % ("a single node" if single else "an element", pos, h.show(), h.free), "insert", "insert", judge)


def check_erase(ck, rep):
    rep.count("functions")
    for h in parts(4):
        for i in ids(h.f):
            rep.count("partitions")
            l, k = find(h.f, i)[2:]
            par = find(h.f, i)[1]
            nxt = l[k + 1][0] if k + 1 < len(l) else (h.tail[par] if par else 0)

            def setup(st):
                h.put(st, T)
                return [("ref", T), mkit(st, ("pos",), T, i)]

            def judge(I, pa):
                returned(pa)
                want = copyf(h.f)
                rem(want, i)
                forest_is(I, pa, T, want, h.vals(), h.singles)
                at = itslot(I, pa.st, pa.val)
                if at is None:
                    raise Unknown("returned iterator")
                if at != nxt:
                    return "the returned iterator points at slot %d, not %d" % (at, nxt)
            ck.run("vp_erase", setup, "erasing %d from %s (free %s)" % (i, h.show(), h.free), "erase", "erase", judge)


def check_move(ck, rep):
    rep.count("functions")
    for h in parts(4, frees=(0,), scr=(False,)):
        for i in ids(h.f):
            below = set(ids([subtree(h.f, i)]))
            for pos in positions(h.f):
                if pos[0] in below or pos[0] in h.singles:
                    continue
                rep.count("partitions")

                def setup(st):
                    h.put(st, T)
                    mkit(st, ("pos",), T, h.slot(pos))
                    mkit(st, ("sub",), T, i)
                    return [("ref", T), ("ref", ("pos",)), ("ref", ("sub",))]

                def judge(I, pa):
                    returned(pa)
                    want = copyf(h.f)
                    if pos[1] != i:
                        ins(want, pos, rem(want, i))
                    forest_is(I, pa, T, want, h.vals(), h.singles)
                    at = itslot(I, pa.st, pa.val)
                    if at is None:
                        raise Unknown("returned iterator")
                    if at != i:
                        return "the returned iterator points at slot %d, not %d" % (at, i)
                ck.run("vp_move", setup, "moving %d before %s in %s" % (i, pos, h.show()), "move", "move", judge)


def check_whole(ck, rep):
    rep.count("functions", 17)
    small = list(parts(2, frees=(0, 1)))
    for h in parts(3):
        def setup(st):
            h.put(st, T)
            return [("ref", T)]

        def judge(I, pa):
            returned(pa)
            forest_is(I, pa, T, [], {}, set())
        ck.run("vp_clear", setup, h.show(), "clear", "clear", judge)
        for entry in ("vp_copy", "vp_move_ctor"):
            def judge(I, pa):
                returned(pa)
                if pa.val[0] != "ref":
                    raise Unknown("result")
                forest_is(I, pa, pa.val[1], h.f, h.vals(), h.singles, "the copy")
                if entry == "vp_copy":
                    forest_is(I, pa, T, h.f, h.vals(), h.singles, "the source")
                    if pa.st.heap.get(pa.val[1] + ("m_c",)) == pa.st.heap.get(T + ("m_c",)):
                        return "the copy shares its nodes with the source"
            ck.run(entry, setup, h.show(), entry[3:], "tag_tree", judge)
        for entry, want in (("vp_empty", int(not h.f)), ("vp_size", len(ids(h.f)))):
            def judge(I, pa):
                returned(pa)
                v = I.lib.get(I, pa.st, pa.val)
                if v[0] != "c":
                    raise Unknown(str(v)[:40])
                forest_is(I, pa, T, h.f, h.vals(), h.singles)
                if v[1] != want:
                    return "answers %d, not %d" % (v[1], want)
            ck.run(entry, setup, h.show(), entry[3:], entry[3:], judge)
        first = h.f[0][0] if h.f else 0
        for entry, want in (("vp_begin", first), ("vp_end", 0), ("vp_cbegin", first), ("vp_cend", 0), ("vp_sbegin", first), ("vp_send", 0)):
            def judge(I, pa):
                returned(pa)
                at = itslot(I, pa.st, pa.val)
                if at is None:
                    raise Unknown("iterator")
                if at != want:
                    return "points at slot %d, not %d" % (at, want)
            ck.run(entry, setup, h.show(), entry[3:], entry[3:], judge)
    for h in small:
        for g in small:
            for entry in ("vp_swap", "vp_assign", "vp_assign_rv"):
                def setup(st):
                    h.put(st, T)
                    g.put(st, U, "u")
                    return [("ref", T), ("ref", U)]

                def judge(I, pa):
                    returned(pa)
                    forest_is(I, pa, T, g.f, g.vals("u"), g.singles)
                    if entry == "vp_swap":
                        forest_is(I, pa, U, h.f, h.vals(), h.singles, "the other tree")
                    if entry == "vp_assign":
                        forest_is(I, pa, U, g.f, g.vals("u"), g.singles, "the source")
                        if pa.st.heap.get(U + ("m_c",)) == pa.st.heap.get(T + ("m_c",)):
                            return "the copy shares its nodes with the source"
                ck.run(entry, setup, "%s and %s" % (h.show(), g.show()), entry[3:], entry[3:].replace("assign_rv", "operator=").replace("assign", "operator="), judge)

    def judge(I, pa):
        returned(pa)
        if pa.val[0] != "ref":
            raise Unknown("result")
        forest_is(I, pa, pa.val[1], [], {}, set())
    ck.run("vp_ctor", lambda st: [], "constructing", "ctor", "tag_tree", judge)


def check_iters(ck, rep):
    rep.count("functions", 30)
    for h in parts(4, frees=(0, 1)):
        if len(ids(h.f)) > 3 and h.free:
            continue
        all_pos = [x for x in positions(h.f) if x[0] not in h.singles]
        for pos in all_pos:
            sib = [x[0] for x in kids(h.f, pos[0])]
            endslot = h.tail[pos[0]] if pos[0] else 0
            line = sib + [endslot]
            k = (sib + [0]).index(pos[1])
            i = pos[1]
            want = {}
            if i:
                c = [x[0] for x in kids(h.f, i)]
                want.update(begin=c[0] if c else h.end(i), end=h.end(i), inc=line[k + 1], pinc=i, pinc2=line[k + 1])
            want["parent"] = pos[0]
            if k > 0:
                want.update(dec=sib[k - 1], pdec=h.slot(pos), pdec2=sib[k - 1])

            def setup(st):
                h.put(st, T)
                return [mkit(st, ("pos",), T, h.slot(pos))]
            for op, w in want.items():
                for pre in ("vp_it_", "vp_ci_"):
                    if pre == "vp_ci_" and op in ("pdec", "pdec2"):
                        continue

                    def judge(I, pa):
                        returned(pa)
                        at = itslot(I, pa.st, pa.val)
                        if at is None:
                            raise Unknown("iterator")
                        if at != w:
                            return "gives slot %d, not %d" % (at, w)
                    nm = {"inc": "operator++", "pinc": "operator++", "pinc2": "operator++", "dec": "operator--", "pdec": "operator--", "pdec2": "operator--"}.get(op, op)
                    ck.run(pre + op, setup, "iterator at %s of %s" % (pos, h.show()), "iterator " + op, nm, judge)
            if i:
                for entry in ("vp_it_deref", "vp_it_arrow", "vp_ci_deref", "vp_ci_arrow"):
                    def judge(I, pa):
                        returned(pa)
                        v = I.lib.get(I, pa.st, pa.val)
                        e = teq(pa.st, v, val(i))
                        if e is None:
                            raise Unknown(str(v)[:60])
                        if not e:
                            return "is not the node's value"
                    ck.run(entry, setup, "iterator at %d of %s" % (i, h.show()), "iterator " + entry[6:], "operator*", judge)
            if h.free or len(ids(h.f)) > 3:
                continue
            for pos2 in all_pos:
                a, b = h.slot(pos), h.slot(pos2)
                for entry, w in (("vp_it_eq", a == b), ("vp_it_ne", a != b), ("vp_ci_eq", a == b), ("vp_ci_ne", a != b)):
                    def setup3(st):
                        return setup(st) + [mkit(st, ("pos2",), T, b)]

                    def judge(I, pa):
                        returned(pa)
                        v = I.lib.get(I, pa.st, pa.val)
                        if v[0] != "c":
                            raise Unknown(str(v)[:40])
                        if bool(v[1]) != w:
                            return "positions %s and %s compare %s" % (pos, pos2, "equal" if bool(v[1]) == ("eq" in entry) else "different")
                    ck.run(entry, setup3, "in %s" % h.show(), "iterator comparison", "operator==" if "eq" in entry else "operator!=", judge)


def check_serial(ck, rep):
    rep.count("functions", 6)
    for h in parts(4, frees=(0,)):
        kind = {"1": 0, "s": 1, "e": 2}
        seq_ = [(i, kind[k]) for k, i, s in h.lin]
        for entry, want in (("vp_serial", seq_), ("vp_rserial", seq_[::-1])):
            def setup(st):
                h.put(st, T)
                st.heap[OUT] = ("str", ())
                st.heap[OUT2] = ("str", ())
                return [("ref", T), ("ref", OUT), ("ref", OUT2)]

            def judge(I, pa):
                returned(pa)
                a, b = pa.st.heap.get(OUT), pa.st.heap.get(OUT2)
                if a[0] != "str" or b[0] != "str":
                    raise Unknown("output")
                es = [teq(pa.st, x[1], val(w[0])) for x, w in zip(a[1], want)]
                if len(a[1]) != len(want) or False in es or [x[1] for x in b[1]] != [C(w[1]) for w in want]:
                    return "visits %d tags, not the %d tags of the tree in order" % (len(a[1]), len(want))
                if None in es:
                    raise Unknown("values")
            ck.run(entry, setup, "serially through %s" % h.show(), entry[3:], "operator++" if entry == "vp_serial" else "operator--", judge)
        ring = [0] + [s for _, _, s in h.lin]
        for x, (k, i, s) in enumerate(h.lin):
            want = {"pinc": s, "pinc2": (ring + [0])[x + 2]}
            if x:
                want.update(pdec=s, pdec2=ring[x])
            if k != "1":
                want.update(start_tag=i, end_tag=h.tail[i])
            for op, w in want.items():
                def setup(st):
                    h.put(st, T)
                    return [mkit(st, ("pos",), T, s)]

                def judge(I, pa):
                    returned(pa)
                    at = itslot(I, pa.st, pa.val)
                    if at is None:
                        raise Unknown("iterator")
                    if at != w:
                        return "gives slot %d, not %d" % (at, w)
                ck.run("vp_si_" + op, setup, "serial iterator at slot %d of %s" % (s, h.show()), "serial " + op, op, judge)


def check(rep):
    p = export("tagtree.cpp")
    ck = Chk(rep, p)
    for fn in (check_insert, check_erase, check_move, check_whole, check_iters, check_serial):
        fn(ck, rep)
    rep.need("functions", 55)
