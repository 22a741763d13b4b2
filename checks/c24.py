"""C24: the push matcher answers, after every character, whether some string is complete, none can match any more, or some still can."""
from shape import *
from c15 import Bad, Unknown, returned, data_hook

LEVEL = "other"
RULE = ("string_matcher is interpreted one step at a time from every state reachable for a list of up to three strings (every combination of strings of up to three symbolic characters over which the characters pushed so far agree or not), "
        "the pushed character symbolic; on every path the result, the characters kept and each entry's state must be what the definition says, so that the step preserves the state invariant and every history is covered.")
ASSUME = ["push_back is not called again after it returned anything but partial, as documented"]
M = ("M",)


def where(p, n):
    fs = [i for i in p.byname.get(n, []) if "string_matcher" in p.finfo[i]["q"]]
    return p.where(fs[0]) if fs else "include/wordring/string/matcher.hpp (%s)" % n


def state(st, pats, pushed, failed):
    its = []
    for i, s in enumerate(pats):
        l = M + ("e%d" % i,)
        st.heap[l + ("m_s",)] = ("str", tuple(("chr", c) for c in s))
        st.heap[l + ("m_failed",)] = C(int(failed[i]))
        its.append(("chr", ("ref", l)))
    st.heap[M + ("m_c",)] = ("str", tuple(its))
    st.heap[M + ("m_s",)] = ("str", tuple(("chr", c) for c in pushed))
    return ("ref", M)


def text(I, st, loc):
    v = I.lib.get(I, st, ("ref", loc))
    if v is None or v[0] != "str" or not all(x[0] == "chr" for x in v[1]):
        raise Unknown("string")
    return [x[1] for x in v[1]]


def check(rep):
    soften(rep)
    p = export("matcher.cpp")
    res = enum_values(p, "match_result")

    def run(entry, setup, desc, fn, judge):
        rep.guard(fn, run1, entry, setup, desc, fn, judge)

    def run1(entry, setup, desc, fn, judge):
        rep.count("partitions")
        I = Interp(p, SLib())
        I.hooks += [data_hook]
        st = St()
        args = setup(st)
        for pa in I.run(drv(p, entry), st, None, args):
            rep.count("paths")
            opq = [e for e in pa.st.eff if e[0] == "opaque"]
            try:
                t = judge(I, pa)
            except Bad as e:
                t = str(e)
            except Unknown as e:
                rep.undecided(fn, str(e))
                continue
            if t is None:
                rep.ok()
            elif opq:
                rep.undecided(fn, "%s after unmodelled %s" % (t, str(opq[0])[:80]))
            else:
                rep.fail(fn, "%s: %s: %s" % (where(p, fn), desc, t))
    ch = sym("character", 0, 0x10FFFF)
    pre = [C(0x61), C(0x62), C(0x63)]
    for cnt in range(0, 4):
        for k in range(0, 3):
            # each string: its length, and whether it agrees with what was pushed so far
            opts = [(n, ok) for n in range(0, 4) for ok in (0, 1) if not (ok and n <= k and k) and (ok or k)]
            for pick in itertools.product(opts, repeat=cnt):
                if cnt == 3 and len(set(pick)) < 2:
                    continue
                pats, failed = [], []
                for i, (n, ok) in enumerate(pick):
                    s = pre[:min(n, k)] if ok else [C(0x7A)] * min(n, k)
                    s += [sym("character %d of string %d" % (j, i), 0, 0x10FFFF) for j in range(len(s), n)]
                    pats.append(s)
                    failed.append(not ok)
                if not k:
                    failed = [False] * cnt
                elif all(failed):
                    continue
                pushed = pre[:k]
                desc = "%d characters in, strings of length %s (%s)" % (k, [n for n, _ in pick], ["out" if f else "in" for f in failed])

                def judge(I, pa):
                    returned(pa)
                    st = pa.st
                    t = text(I, st, M + ("m_s",))
                    if len(t) != k + 1 or any(teq(st, a, b) is False for a, b in zip(t, pushed + [ch])):
                        return "the characters kept are not those pushed"
                    alive, done = [], False
                    for i, s in enumerate(pats):
                        if failed[i] or len(s) <= k:
                            alive.append(False)
                            continue
                        e = teq(st, s[k], ch)
                        if e is None:
                            if done:
                                alive.append(None)
                                continue
                            raise Unknown("comparison")
                        alive.append(e)
                        done = done or e and len(s) == k + 1
                    want = "succeed" if done else "partial" if any(alive) else "failed"
                    if pa.val[0] != "c":
                        raise Unknown("result")
                    got = {v: n for n, v in res.items()}.get(pa.val[1])
                    if got != want:
                        return "returns %s, not %s" % (got, want)
                    if not done:
                        for i, a in enumerate(alive):
                            f = st.heap.get(M + ("e%d" % i, "m_failed"))
                            if f is None or f[0] != "c":
                                raise Unknown("state")
                            if a is False and not f[1] and len(pats[i]) > k + 1:
                                return "string %d no longer matches but stays in" % i
                            if a and f[1]:
                                return "string %d still matches but is out" % i
                run("vp_push", lambda st: [state(st, pats, pushed, failed), ch], "pushing a character, " + desc, "push_back", judge)
                if cnt < 3:
                    def judge(I, pa):
                        returned(pa)
                        if text(I, pa.st, M + ("m_s",)):
                            return "characters are kept"
                        for i in range(cnt):
                            f = pa.st.heap.get(M + ("e%d" % i, "m_failed"))
                            if f != C(0):
                                return "string %d stays out" % i
                            if any(teq(pa.st, a, b) is False for a, b in zip(text(I, pa.st, M + ("e%d" % i, "m_s")), pats[i])):
                                return "string %d changes" % i
                    run("vp_clear", lambda st: [state(st, pats, pushed, failed)], "clear, " + desc, "clear", judge)

                    def judge(I, pa):
                        returned(pa)
                        if teq(pa.st, pa.val, C(k)) is False:
                            return "size() is wrong"
                    run("vp_size", lambda st: [state(st, pats, pushed, failed)], "size, " + desc, "size", judge)

                    def judge(I, pa):
                        returned(pa)
                        v = I.lib.get(I, pa.st, pa.val)
                        if v is None or v[0] != "str":
                            raise Unknown("string")
                        if items_eq(pa.st, v[1], tuple(("chr", c) for c in pushed)) is False:
                            return "data() is wrong"
                    run("vp_data", lambda st: [state(st, pats, pushed, failed)], "data, " + desc, "data", judge)
    rep.count("functions", 4)
    rep.need("partitions", 200)
