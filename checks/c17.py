"""C17: static_vector is a sequence: every operation yields the elements std::vector's would, within its capacity."""
import itertools
from urlrun import *
from c12 import BADEFF
from c13 import drv
from c15 import Bad, Unknown, Chk as Chk15, returned

LEVEL = "other"
RULE = ("every operation of static_vector and its iterators is interpreted for every size from empty to full (capacity four), every position and count within the preconditions, with symbolic elements; the resulting "
        "elements, size and returned position are compared, as terms, with those of a sequence model on every path; positions outside the sequence must be refused by at().")
ASSUME = ["element type int, capacity four: the code does not depend on either", "positions and counts satisfy the operation's preconditions (asserted by the code)"]
V, U, OUT, SRC = ("V",), ("U",), ("OUT",), ("SRC",)
N = 4
BIG = (-1 << 31, (1 << 31) - 1)
NEW = sym("new", *BIG)


def el(i, b="e"):
    return sym("%s%d" % (b, i), *BIG)


def put(st, loc, items):
    st.heap[loc + ("m_container",)] = ("str", tuple(("chr", x) for x in items) + tuple(("chr", sym("%s_rest%d" % (loc[0], i), *BIG)) for i in range(N - len(items))))
    st.heap[loc + ("m_size",)] = C(len(items))


def seq_of(I, st, loc):
    n, v = st.heap.get(loc + ("m_size",)), st.heap.get(loc + ("m_container",))
    if n is None or n[0] != "c" or v is None or v[0] != "str" or not all(x[0] == "chr" for x in v[1]):
        raise Unknown("elements %s size %s" % (str(v)[:60], n))
    if len(v[1]) != N:
        raise Unknown("array of %d" % len(v[1]))
    if not 0 <= n[1] <= N:
        raise Bad("the size is %d" % n[1])
    return [x[1] for x in v[1][:n[1]]]


def is_seq(st, got, want, what="the sequence"):
    es = [teq(st, a, b) for a, b in zip(got, want)]
    if len(got) != len(want) or False in es:
        raise Bad("%s becomes %s, not %s" % (what, [nm(x) for x in got], [nm(x) for x in want]))
    if None in es:
        raise Unknown("elements")


def nm(x):
    return str(x[1]) if x[0] in ("s", "c") else "?"


class Chk(Chk15):
    def where(self, fn):
        fs = [i for i in self.p.byname.get(fn, []) if i in self.p.funcs and "static_vector" in self.p.finfo[i]["q"]]
        return self.p.where(fs[0]) if fs else "include/wordring/static_vector/static_vector.hpp (%s)" % fn


def seqs(n=N):
    return [[el(i) for i in range(k)] for k in range(n + 1)]


def check_mod(ck, rep):
    """modifiers: (entry, extra arguments, expected elements, expected returned position)"""
    src = lambda k: [el(i, "s") for i in range(k)]
    for xs in seqs():
        n = len(xs)
        cases = [("vp_clear", (), [], None, "clear"), ("vp_asg_il2", (el(0, "a"), el(1, "a")), [el(0, "a"), el(1, "a")], None, "operator="),
                 ("vp_assign_il2", (el(0, "a"), el(1, "a")), [el(0, "a"), el(1, "a")], None, "assign")]
        for k in range(N + 1):
            cases += [("vp_assign_nv", (C(k), "NEW"), [NEW] * k, None, "assign"), ("vp_assign_range", (("SRC", k),), src(k), None, "assign"),
                      ("vp_resize", (C(k),), xs[:k] + [C(0)] * (k - n), None, "resize"), ("vp_resize_v", (C(k), "NEW"), xs[:k] + [NEW] * (k - n), None, "resize")]
        if n < N:
            cases += [("vp_push_back", ("NEW",), xs + [NEW], None, "push_back"), ("vp_push_back_rv", ("NEW",), xs + [NEW], None, "push_back")]
            cases += [("vp_push_back_self", (C(i),), xs + [xs[i]], None, "push_back") for i in range(n)]
            for k in range(n + 1):
                cases += [("vp_insert", (C(k), "NEW"), xs[:k] + [NEW] + xs[k:], k, "insert"), ("vp_insert_rv", (C(k), "NEW"), xs[:k] + [NEW] + xs[k:], k, "insert")]
                cases += [("vp_insert_self", (C(k), C(i)), xs[:k] + [xs[i]] + xs[k:], k, "insert") for i in range(n)]
        for k in range(n + 1):
            for m in range(N - n + 1):
                cases += [("vp_insert_n", (C(k), C(m), "NEW"), xs[:k] + [NEW] * m + xs[k:], k, "insert"), ("vp_insert_range", (C(k), ("SRC", m)), xs[:k] + src(m) + xs[k:], k, "insert")]
                cases += [("vp_insert_n_self", (C(k), C(m), C(i)), xs[:k] + [xs[i]] * m + xs[k:], k, "insert") for i in range(n)]
            if n + 2 <= N:
                cases.append(("vp_insert_il2", (C(k), el(0, "a"), el(1, "a")), xs[:k] + [el(0, "a"), el(1, "a")] + xs[k:], k, "insert"))
        if n:
            cases.append(("vp_pop_back", (), xs[:-1], None, "pop_back"))
        for k in range(n):
            cases.append(("vp_erase", (C(k),), xs[:k] + xs[k + 1:], k, "erase"))
            for l in range(k, n + 1):
                cases.append(("vp_erase_range", (C(k), C(l)), xs[:k] + xs[l:], k, "erase"))
            cases += [("vp_set", (C(k), NEW), xs[:k] + [NEW] + xs[k + 1:], None, "operator[]"), ("vp_set_at", (C(k), NEW), xs[:k] + [NEW] + xs[k + 1:], None, "at")]
        for entry, extra, want, ret, fn in cases:
            rep.count("partitions")

            def setup(st):
                put(st, V, xs)
                out = [("ref", V)]
                for x in extra:
                    if x == "NEW":
                        st.heap[("val",)] = NEW
                        x = ("ref", ("val",))
                    elif x[0] == "SRC":
                        st.heap[SRC] = ("str", tuple(("chr", y) for y in src(x[1])))
                        x = ("ref", SRC)
                    out.append(x)
                return out

            def judge(I, pa):
                returned(pa)
                is_seq(pa.st, seq_of(I, pa.st, V), want)
                if ret is not None:
                    v = I.lib.get(I, pa.st, pa.val)
                    if v[0] != "c":
                        raise Unknown("returned position %s" % str(v)[:40])
                    if v[1] != ret:
                        return "the returned iterator is at %d, not %d" % (v[1], ret)
            ck.run(entry, setup, "%s(%s) on %d elements" % (fn, ", ".join(nm(x) if isinstance(x, tuple) else "value" for x in extra), n), entry[3:], fn, judge)


def check_read(ck, rep):
    for xs in seqs():
        n = len(xs)

        def setup(st):
            put(st, V, xs)
            return [("ref", V)]
        for entry, want in (("vp_empty", int(not n)), ("vp_size", n), ("vp_max_size", N), ("vp_capacity", N)):
            def judge(I, pa):
                returned(pa)
                v = I.lib.get(I, pa.st, pa.val)
                if v[0] != "c":
                    raise Unknown(str(v)[:40])
                if v[1] != want:
                    return "answers %d, not %d" % (v[1], want)
                is_seq(pa.st, seq_of(I, pa.st, V), xs)
            ck.run(entry, setup, "%d elements" % n, entry[3:], entry[3:], judge)
        vals = [("vp_front", (), 0), ("vp_cfront", (), 0), ("vp_back", (), n - 1), ("vp_cback", (), n - 1)] if n else []
        for k in range(n):
            vals += [(e, (C(k),), k) for e in ("vp_at", "vp_cat", "vp_sub", "vp_csub")]
        for entry, extra, k in vals:
            def judge(I, pa):
                returned(pa)
                v = I.rv(pa.st, I.lib.get(I, pa.st, pa.val), "i32")
                e = teq(pa.st, v, xs[k])
                if e is None:
                    raise Unknown(str(v)[:40])
                if not e:
                    return "gives %s, not element %d" % (nm(v), k)
            ck.run(entry, lambda st: setup(st) + list(extra), "%d elements, position %s" % (n, k), entry[3:], entry[3:].lstrip("c").replace("sub", "operator[]"), judge)
        for k in (n, N, N + 3):
            for entry in ("vp_at", "vp_cat"):
                def judge(I, pa):
                    if pa.kind == "ret":
                        return "at(%d) of %d elements is not refused" % (k, n)
                ck.run(entry, lambda st: setup(st) + [C(k)], "%d elements" % n, "at outside", "at", judge)
        for entry in ("vp_walk", "vp_cwalk", "vp_ccwalk", "vp_rwalk", "vp_crwalk", "vp_dwalk", "vp_pdwalk"):
            def setup2(st):
                st.heap[OUT] = ("str", ())
                return setup(st) + [("ref", OUT)]

            def judge(I, pa):
                returned(pa)
                v = pa.st.heap.get(OUT)
                if v[0] != "str" or any(x[0] != "chr" for x in v[1]):
                    raise Unknown("output")
                is_seq(pa.st, [I.rv(pa.st, x[1], "i32") for x in v[1]], xs if "r" not in entry[3:5] and "d" not in entry else xs[::-1], "the traversal")
            ck.run(entry, setup2, "%d elements" % n, entry[3:], "begin" if entry in ("vp_walk", "vp_cwalk", "vp_ccwalk") else "rbegin" if "r" in entry[3:5] else "operator--", judge)
        for k in range(n + 1):
            its = []
            for l in range(n + 1):
                its += [("vp_it_lt", (C(k), C(l)), int(k < l)), ("vp_it_le", (C(k), C(l)), int(k <= l)), ("vp_it_gt", (C(k), C(l)), int(k > l)), ("vp_it_ge", (C(k), C(l)), int(k >= l)), ("vp_it_eq", (C(k), C(l)), int(k == l))]
                if l >= k:
                    its += [(e, (C(k), C(l - k)), l) for e in ("vp_it_add", "vp_it_radd")]
                    its += [("vp_it_pluseq", (C(k), C(l - k)), l)]
                if l <= k:
                    its += [(e, (C(k), C(k - l)), l) for e in ("vp_it_sub", "vp_it_minuseq")]
            for entry, extra, want in its:
                def judge(I, pa):
                    returned(pa)
                    v = I.lib.get(I, pa.st, pa.val)
                    if v[0] != "c":
                        raise Unknown(str(v)[:40])
                    if v[1] != want:
                        return "gives %d, not %d" % (v[1], want)
                ck.run(entry, lambda st: setup(st) + list(extra), "%s(%s) on %d elements" % (entry[6:], ", ".join(nm(x) for x in extra), n), entry[3:], {"lt": "operator<", "le": "operator<=", "gt": "operator>", "ge": "operator>=", "eq": "operator==", "add": "operator+", "radd": "operator+", "sub": "operator-", "pluseq": "operator+=", "minuseq": "operator-="}[entry[6:]], judge)


def check_whole(ck, rep):
    def result_is(want):
        def judge(I, pa):
            returned(pa)
            if pa.val[0] != "ref":
                raise Unknown("result")
            is_seq(pa.st, seq_of(I, pa.st, pa.val[1]), want, "the result")
        return judge
    ck.run("vp_ctor", lambda st: [], "constructing", "ctor", "static_vector", result_is([]))
    ck.run("vp_ctor_il0", lambda st: [], "constructing", "ctor", "static_vector", result_is([]))
    ck.run("vp_ctor_il3", lambda st: [el(0), el(1), el(2)], "constructing", "ctor", "static_vector", result_is([el(0), el(1), el(2)]))
    for k in range(N + 1):
        ck.run("vp_ctor_n", lambda st: [C(k)], "constructing %d" % k, "ctor", "static_vector", result_is([C(0)] * k))

        def setup(st):
            st.heap[("val",)] = NEW
            return [C(k), ("ref", ("val",))]
        ck.run("vp_ctor_nv", setup, "constructing %d" % k, "ctor", "static_vector", result_is([NEW] * k))

        def setup(st):
            st.heap[SRC] = ("str", tuple(("chr", el(i)) for i in range(k)))
            return [("ref", SRC)]
        ck.run("vp_ctor_range", setup, "constructing from %d" % k, "ctor", "static_vector", result_is([el(i) for i in range(k)]))

        def setup(st):
            put(st, V, [el(i) for i in range(k)])
            return [("ref", V)]
        ck.run("vp_copy", setup, "copying %d" % k, "copy", "static_vector", result_is([el(i) for i in range(k)]))
        for l in range(N + 1):
            a, b = [el(i) for i in range(k)], [el(i, "u") for i in range(l)]

            def setup(st):
                put(st, V, a)
                put(st, U, b)
                return [("ref", V), ("ref", U)]
            for entry in ("vp_swap", "vp_asg"):
                def judge(I, pa):
                    returned(pa)
                    is_seq(pa.st, seq_of(I, pa.st, V), b)
                    is_seq(pa.st, seq_of(I, pa.st, U), a if entry == "vp_swap" else b, "the other one")
                ck.run(entry, setup, "%d and %d elements" % (k, l), entry[3:], "swap" if entry == "vp_swap" else "operator=", judge)
    small = [list(x) for n in range(4) for x in itertools.product((0, 1), repeat=n)] + [[2, 0], [0, 2], [1, 1, 1, 1], [1, 1, 1, 0]]
    for a in small:
        for b in small:
            for entry, w in (("vp_eq", a == b), ("vp_ne", a != b), ("vp_lt", a < b), ("vp_le", a <= b), ("vp_gt", a > b), ("vp_ge", a >= b)):
                def setup(st):
                    put(st, V, [C(x) for x in a])
                    put(st, U, [C(x) for x in b])
                    return [("ref", V), ("ref", U)]

                def judge(I, pa):
                    returned(pa)
                    v = I.lib.get(I, pa.st, pa.val)
                    if v[0] != "c":
                        raise Unknown(str(v)[:40])
                    if bool(v[1]) != w:
                        return "%s %s %s is answered %s" % (a, entry[3:], b, bool(v[1]))
                ck.run(entry, setup, "comparing", entry[3:], {"eq": "operator==", "ne": "operator!=", "lt": "operator<", "le": "operator<=", "gt": "operator>", "ge": "operator>="}[entry[3:]], judge)


def check(rep):
    p = export("svec.cpp")
    rep.count("functions", len([i for i in p.funcs if "static_vector" in p.finfo[i]["q"]]))
    ck = Chk(rep, p)
    check_mod(ck, rep)
    check_read(ck, rep)
    check_whole(ck, rep)
    rep.need("functions", 60)
