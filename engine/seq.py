"""Transfer functions of sequence operations and algorithms on sequences whose shape (number of items) is known."""
from absint import C, FULL, is_int, add, scale, sub, Unsupported
from iset import ISet


def conc(items):
    return all(x[0] == "chr" for x in items)


class Seq:
    def span(self, I, st, a, b):
        """(loc, i, j) of the range [a, b) of iterators into one sequence of known shape"""
        if a is None or b is None or a[0] not in ("it", "itend") or b[0] not in ("it", "itend") or a[1] != b[1]:
            return None
        items = self.items(st, a[1])
        if not conc(items):
            return None
        n = len(items)
        i = n if a[0] == "itend" else a[2]
        j = n if b[0] == "itend" else b[2]
        return (a[1], i, j) if 0 <= i <= j <= n else None

    def const_key(self, st, x):
        """the order of a constant number or string (characters compare as unsigned)"""
        if x[0] == "c":
            return x[1]
        if x[0] == "ref":
            x = st.heap.get(x[1], x)
        if x[0] == "str" and all(y[0] == "chr" and y[1][0] == "c" for y in x[1]):
            return tuple(y[1][1] & 255 if y[1][1] < 0 else y[1][1] for y in x[1])
        return None

    def fill(self, I, st, et, x, n):
        """n elements that are copies of x"""
        if x[0] != "ref" or I.rec(et) is None:
            return (("chr", x),) * n
        out = []
        for _ in range(n):
            l = I.newtmp()
            I.copy(st, x[1], l, et)
            out.append(("chr", ("ref", l)))
        return tuple(out)

    def seq_method(self, I, st, fi, n, o, loc, v, args, a, e):
        items = v[1]
        from lib import elem_type
        cls = fi.get("cls") or ""
        N = len(items)
        isstr = "basic_string" in cls

        def it(k):
            return ("it", loc, k, 0)
        if n in ("insert", "emplace") and loc is not None and a and a[0][0] in ("it", "itend"):
            k = N if a[0][0] == "itend" else a[0][2]
            if a[0][0] == "it" and not conc(items[:k]) or (a[0][0] == "it" and a[0][3]):
                return None
            if len(a) == 2 or n == "emplace":
                out = []
                for s, x in self.make_elem(I, st, elem_type(cls), args[1:], a[1:], e):
                    s.heap[loc] = ("str", items[:k] + (("chr", x),) + items[k:])
                    out.append((s, it(k)))
                return out
            if len(a) == 3 and is_int(a[1]):
                if a[1][0] != "c" or a[1][1] > 1024:
                    return None
                st.heap[loc] = ("str", items[:k] + self.fill(I, st, elem_type(cls), a[2], a[1][1]) + items[k:])
                return [(st, it(k))]
            if len(a) == 3:
                sp = self.span(I, st, a[1], a[2])
                if sp is None and a[1][0] == "it" and a[2][0] == "itend" and a[1][1] == a[2][1] and not a[1][3] and conc(self.items(st, a[1][1])[:a[1][2]]):
                    sp = (a[1][1], a[1][2], len(self.items(st, a[1][1])))
                if sp is not None:
                    st.heap[loc] = ("str", items[:k] + self.items(st, sp[0])[sp[1]:sp[2]] + items[k:])
                    return [(st, it(k) if conc(items[:k]) else ("opq", "iterator"))]
            return None
        if n == "insert" and isstr and loc is not None and a and a[0][0] == "c":
            k = a[0][1]
            if len(a) == 2 and conc(items[:k]) and k <= N:
                s = self.sval(I, st, args[1])
                if s is not None:
                    st.heap[loc] = ("str", items[:k] + s[1] + items[k:])
                    return [(st, ("ref", loc))]
            if len(a) == 3 and a[1][0] == "c" and is_int(a[2]) and conc(items[:k]) and k <= N and a[1][1] < 64:
                st.heap[loc] = ("str", items[:k] + (("chr", a[2]),) * a[1][1] + items[k:])
                return [(st, ("ref", loc))]
            return None
        if n == "emplace_front":
            out = []
            for s, x in self.make_elem(I, st, elem_type(cls), args, a, e):
                s.heap[loc] = ("str", (("chr", x),) + items)
                out.append((s, x))
            return out
        if n == "erase" and loc is not None and not conc(items) and len(a) == 1 and a[0][0] == "it" and conc(items[:a[0][2] + 1]) and a[0][2] < N:
            k = a[0][2]
            st.heap[loc] = ("str", items[:k] + items[k + 1:])
            return [(st, it(k))]
        if n == "erase" and loc is not None and conc(items):
            if len(a) == 1 and (a[0][0] == "itend" or a[0][0] == "it" and a[0][2] >= N) and a[0][1] == loc:
                st.eff = st.eff + (("past-end", e.get("l")),)
                st.meta["dead"] = ("abort", e.get("l"))
                return [(st, ("void",))]
            if len(a) == 1 and a[0][0] == "it" and a[0][2] < N:
                k = a[0][2]
                st.heap[loc] = ("str", items[:k] + items[k + 1:])
                return [(st, it(k))]
            if len(a) == 2:
                sp = self.span(I, st, a[0], a[1])
                if sp is not None and sp[0] == loc:
                    st.heap[loc] = ("str", items[:sp[1]] + items[sp[2]:])
                    return [(st, it(sp[1]))]
            if isstr and all(x[0] == "c" for x in a):
                k = a[0][1] if a else 0
                m = min(N, k + a[1][1]) if len(a) > 1 else N
                if k <= N:
                    st.heap[loc] = ("str", items[:k] + items[m:])
                    return [(st, ("ref", loc))]
            return None
        if n == "resize" and loc is not None and conc(items) and a and a[0][0] == "c" and a[0][1] <= 4096:
            m = a[0][1]
            if m <= N:
                st.heap[loc] = ("str", items[:m])
                return [(st, ("void",))]
            if len(a) == 2:
                st.heap[loc] = ("str", items + self.fill(I, st, elem_type(cls), a[1], m - N))
                return [(st, ("void",))]
            out = [(st, items)]
            for _ in range(m - N):
                out = [(s2, its + (("chr", x),)) for s, its in out for s2, x in self.make_elem(I, s, elem_type(cls), [], [], e)]
            for s, its in out:
                s.heap[loc] = ("str", its)
            return [(s, ("void",)) for s, its in out]
        if n in ("reserve", "shrink_to_fit"):
            return [(st, ("void",))]
        if n in ("capacity", "max_size"):
            if n == "max_size" and "std::array<" in cls and N is not None:
                return [(st, C(N))]
            return None
        if n == "substr" and all(x[0] == "c" for x in a):
            k = a[0][1] if a else 0
            if k == 0 and len(a) < 2:
                return [(st, v)]
            if conc(items[:k]) and k <= N:
                if len(a) < 2 or a[1][1] >= (1 << 40):
                    return [(st, ("str", items[k:]))]
                if conc(items[k:k + a[1][1]]):
                    return [(st, ("str", items[k:k + a[1][1]]))]
            return None
        if n in ("remove_prefix", "remove_suffix") and a[0][0] == "c" and a[0][1] <= N and loc is not None:
            k = a[0][1]
            cut = items[:k] if n == "remove_prefix" else items[N - k:]
            if conc(cut):
                st.heap[loc] = ("str", items[k:] if n == "remove_prefix" else items[:N - k])
                return [(st, ("void",))]
            return None
        if n in ("starts_with", "ends_with"):
            w = ("str", (("chr", a[0]),)) if is_int(a[0]) else self.sval(I, st, args[0])
            if w is None or not conc(w[1]):
                return None
            m = len(w[1])
            part = items[:m] if n == "starts_with" else items[max(0, N - m):]
            if not conc(part) or (len(part) < m and not conc(items)):
                return None
            if len(part) < m:
                return [(st, C(0))]
            return [(s, C(int(b))) for s, b in self.streq(I, st, ("str", part), w)]
        if n in ("find", "find_first_of", "rfind", "contains", "find_first_not_of", "find_last_of") and conc(items) and a:
            pos = 0
            if len(a) > 1:
                if a[1][0] != "c":
                    return None
                pos = a[1][1]
            w = [("chr", a[0])] if is_int(a[0]) else None
            if w is None:
                w = self.sval(I, st, args[0])
                if w is None or not conc(w[1]):
                    return None
                w = list(w[1])
            npos = C((1 << 64) - 1)
            out, cur = [], [st]
            order = range(pos, N)
            if n in ("rfind", "find_last_of"):
                order = range(min(pos, N - 1) if len(a) > 1 else N - 1, -1, -1)
            for k in order:
                nxt = []
                for s in cur:
                    if n in ("find", "rfind", "contains"):
                        part = items[k:k + len(w)]
                        r = self.streq(I, s, ("str", part), ("str", tuple(w))) if len(part) == len(w) else [(s, False)]
                    else:
                        r = [(s, False)]
                        for c in w:
                            r = [(s3, b or t[1] != 0) for s2, b in r for s3, t in ([(s2, C(1))] if b else I.compare(s2, "==", items[k][1], c[1]))]
                        if n == "find_first_not_of":
                            r = [(s2, not b) for s2, b in r]
                    for s2, b in r:
                        if b:
                            out.append((s2, C(1) if n == "contains" else C(k)))
                        else:
                            nxt.append(s2)
                cur = nxt
            out += [(s, C(0) if n == "contains" else npos) for s in cur]
            return out
        if n == "compare" and len(a) == 1:
            w = self.sval(I, st, args[0])
            if w is not None:
                return [(s, C(0) if b else ("call", ("cmp", repr(v), repr(w)), 1, 1)) for s, b in self.streq(I, st, v, w)]
        if n == "swap" and loc is not None and args[0][0] == "ref":
            w = self.sval(I, st, args[0])
            if w is not None:
                st.heap[loc], st.heap[args[0][1]] = w, v
                return [(st, ("void",))]
        if n in ("rbegin", "crbegin", "rend", "crend"):
            if loc is None:
                loc = I.newtmp()
                st.heap[loc] = v
            if not conc(items):
                return None
            return [(st, ("rit", loc, N if "begin" in n else 0))]
        if n in ("fill",) and loc is not None and conc(items):
            st.heap[loc] = ("str", (("chr", a[0]),) * N)
            return [(st, ("void",))]
        return None

    def rit_method(self, I, st, n, ov, oloc, args, e):
        a = [self.get(I, st, x) for x in args]
        k = ov[2]
        if n in ("operator*", "operator->"):
            items = self.items(st, ov[1])
            if not 0 < k <= len(items):
                st.eff = st.eff + (("past-end", ov[1]),)
                return [(st, ("opq", "past-end"))]
            if n == "operator*" and e is I.lhs and items[k - 1][1][0] != "ref":
                return [(st, ("sel", ov[1], k - 1))]
            x = items[k - 1][1]
            return [(st, x if n == "operator*" else ("ptr", I.as_loc(st, x)))]
        if n in ("operator++", "operator--") and oloc is not None:
            r = ("rit", ov[1], k - 1 if n == "operator++" else k + 1)
            st.heap[oloc] = r
            return [(st, ov if args else ("ref", oloc))]
        if n in ("operator+", "operator-") and a and a[0][0] == "c":
            return [(st, ("rit", ov[1], k - a[0][1] if n == "operator+" else k + a[0][1]))]
        if n in ("operator+=", "operator-=") and a and a[0][0] == "c" and oloc is not None:
            st.heap[oloc] = ("rit", ov[1], k - a[0][1] if n == "operator+=" else k + a[0][1])
            return [(st, ("ref", oloc))]
        if n == "base":
            return [(st, ("it", ov[1], k, 0))]
        if n == "operator=" and oloc is not None:
            st.heap[oloc] = a[0]
            return [(st, ("ref", oloc))]
        return None

    # ------------------------------------------------------------------ std::reverse_iterator over a class of the program
    def urit_fn(self, I, t, n, np=0):
        for i in I.p.byname.get(n, []):
            if i in I.p.funcs and I.p.finfo[i].get("cls") == t and len(I.p.funcs[i]["params"]) == np:
                return i
        return None

    def urit_step(self, I, st, v, n, e):
        """the base iterator moved by one: list of (st, location)"""
        f = self.urit_fn(I, v[2], n)
        if f is None:
            return None
        l = I.newtmp()
        I.copy(st, v[1], l, v[2])
        return [(s, l) for s, _ in I.call(st, f, ("ptr", l), [], e)]

    def urit_method(self, I, st, n, v, oloc, args, e):
        if n == "base":
            l = I.newtmp()
            I.copy(st, v[1], l, v[2])
            return [(st, ("ref", l))]
        if n in ("operator++", "operator--"):
            r = self.urit_step(I, st, v, "operator--" if n == "operator++" else "operator++", e)
            if r is None:
                return None
            out = []
            for s, l in r:
                s.heap[oloc] = ("urit", l, v[2])
                out.append((s, v if args else ("ref", oloc)))
            return out
        if n in ("operator*", "operator->"):
            r = self.urit_step(I, st, v, "operator--", e)
            f = self.urit_fn(I, v[2], n)
            if r is None or f is None:
                return None
            return [x for s, l in r for x in I.call(s, f, ("ptr", l), [], e)]
        if n == "operator=" and oloc is not None:
            st.heap[oloc] = self.get(I, st, args[0])
            return [(st, ("ref", oloc))]
        return None

    def urit_cmp(self, I, st, op, a, b, e):
        for o2 in (op, "!=" if op == "==" else "=="):
            for i in I.p.byname.get("operator" + o2, []):
                f = I.p.funcs.get(i)
                if f is None:
                    continue
                ts = [x["t"].lstrip("&").replace("C:", "R:", 1) for x in f["params"]]
                if ts == [a[2], b[2]]:
                    out = []
                    for s, r in I.call(st, i, None, [("ref", a[1]), ("ref", b[1])], e):
                        for s2, t in self.truth(I, s, r):
                            out.append((s2, C(int(t == (o2 == op)))))
                    return out
        return None

    # ------------------------------------------------------------------ algorithms over iterator classes of the program
    def uop(self, I, st, op, locs, ts, e):
        """a free or member operator of the program applied to iterator objects: the one (st, value), or None"""
        for i in I.p.byname.get("operator" + op, []):
            f = I.p.funcs.get(i)
            if f is None or f.get("body") is None:
                continue
            fi = I.p.finfo[i]
            ps = [x["t"].lstrip("&").replace("C:", "R:", 1) for x in f["params"]]
            if fi.get("cls") and fi["cls"] == ts[0] and ps == list(ts[1:]):
                r = I.call(st, i, ("ptr", locs[0]), [("ref", l) for l in locs[1:]], e)
            elif not fi.get("cls") and ps == list(ts):
                r = I.call(st, i, None, [("ref", l) for l in locs], e)
            else:
                continue
            return r[0] if len(r) == 1 else None
        return None

    def uclone(self, I, st, loc, t):
        l = I.newtmp()
        I.copy(st, loc, l, t)
        return l

    def urange(self, I, st, a, b, t, e):
        """the elements of [a, b): (st, [element reference]) or None"""
        out, l = [], self.uclone(I, st, a, t)
        for _ in range(1100):
            r = self.uop(I, st, "!=", (l, b), (t, t), e) or self.uop(I, st, "==", (l, b), (t, t), e)
            if r is None:
                return None
            st, v = r
            v = self.get(I, st, v)
            if v[0] != "c":
                return None
            if not v[1]:
                return st, out
            r = self.uop(I, st, "*", (l,), (t,), e)
            if r is None:
                return None
            st, x = r
            out.append(x)
            r = self.uop(I, st, "++", (l,), (t,), e)
            if r is None:
                return None
            st = r[0]
        return None

    def ualgo(self, I, st, fi, n, args, e):
        ts = [x.lstrip("&").replace("C:", "R:", 1) for x in fi.get("pt") or ()]
        if n not in ("copy", "copy_backward", "move_backward", "move", "equal", "lexicographical_compare", "distance") or len(args) < 2 or any(a[0] != "ref" for a in args[:2]) or I.rec(ts[0]) is None or ts[0] != ts[1]:
            return None
        if n == "move" and len(args) != 3:
            return None
        if n == "distance":
            r = self.uop(I, st, "-", (args[1][1], args[0][1]), (ts[0], ts[0]), e)
            if r is not None:
                return [r]
        r = self.urange(I, st, args[0][1], args[1][1], ts[0], e)
        if r is None:
            return None
        st, xs = r
        if n == "distance":
            return [(st, C(len(xs)))]
        if n in ("copy", "copy_backward", "move", "move_backward"):
            if args[2][0] != "ref" or I.rec(ts[2]) is None:
                return None
            l = self.uclone(I, st, args[2][1], ts[2])
            back = n.endswith("backward")
            for x in reversed(xs) if back else xs:
                if back:
                    r = self.uop(I, st, "--", (l,), (ts[2],), e)
                    if r is None:
                        return None
                    st = r[0]
                r = self.uop(I, st, "*", (l,), (ts[2],), e)
                if r is None or r[1][0] not in ("ref", "sel"):
                    return None
                st, d = r
                y = I.rv(st, x, "i32") if x[0] in ("ref", "sel") else x
                if d[0] == "sel":
                    self.sel_set(I, st, d, y)
                else:
                    I.store(st, d[1], y, None)
                if not back:
                    r = self.uop(I, st, "++", (l,), (ts[2],), e)
                    if r is None:
                        return None
                    st = r[0]
            return [(st, ("ref", l))]
        if len(args) != 4 or ts[2] != ts[3]:
            return None
        r = self.urange(I, st, args[2][1], args[3][1], ts[2], e)
        if r is None:
            return None
        st, ys = r
        xs = [I.rv(st, x, "i32") for x in xs]
        ys = [I.rv(st, x, "i32") for x in ys]
        if n == "equal":
            if len(xs) != len(ys):
                return [(st, C(0))]
            return [(s, C(int(b))) for s, b in self.streq(I, st, ("str", tuple(("chr", x) for x in xs)), ("str", tuple(("chr", y) for y in ys)))]
        out, states = [], [st]
        for x, y in zip(xs, ys):
            nxt = []
            for s in states:
                for s2, c in I.compare(s, "<", x, y):
                    if c[1]:
                        out.append((s2, C(1)))
                        continue
                    for s3, d in I.compare(s2, "<", y, x):
                        if d[1]:
                            out.append((s3, C(0)))
                        else:
                            nxt.append(s3)
            states = nxt
        return out + [(s, C(int(len(xs) < len(ys)))) for s in states]

    # ------------------------------------------------------------------ algorithms
    def put(self, I, st, out, x):
        """writes x through the output iterator; the advanced iterator or None"""
        if out[0] == "bins":
            self.append(I, st, out[1], ("chr", x))
            return out
        if out[0] == "it":
            items = self.items(st, out[1])
            if conc(items) and out[2] < len(items):
                st.heap[out[1]] = ("str", items[:out[2]] + (("chr", x),) + items[out[2] + 1:])
                return ("it", out[1], out[2] + 1, 0)
        return None

    def truth(self, I, st, v):
        if v[0] == "ref":
            v = self.get(I, st, v)
        return I.branch(st, v)

    def force(self, I, st, v):
        """all positions a pending std::find can have: list of (st, iterator)"""
        _, loc, i, x, xs = v
        out, seen = [], set()
        for k, c in enumerate(xs):
            if c not in seen:
                seen.add(c)
                s = st.fork()
                if s.restrict(x, ISet.of(c)):
                    out.append((s, ("it", loc, i + k, 0)))
        if st.restrict(x, FULL - ISet.of(*seen)):
            out.append((st, ("it", loc, i + len(xs), 0)))
        return out

    def algo(self, I, st, n, v, args, e):
        NAMES = ("copy", "find", "find_if", "find_if_not", "any_of", "all_of", "none_of", "for_each", "count", "count_if", "equal",
                 "transform", "fill", "reverse", "accumulate", "copy_n", "copy_if", "replace", "remove", "remove_if", "search", "mismatch", "binary_search", "fill_n", "rotate", "swap_ranges", "iota", "min_element", "max_element", "is_sorted", "set_union", "adjacent_find")
        if n not in NAMES or len(v) < 2:
            return None
        if n == "fill_n" and v[1][0] == "c" and v[1][1] <= 256:
            out = v[0]
            for _ in range(v[1][1]):
                out = self.put(I, st, out, v[2])
                if out is None:
                    return None
            return [(st, out)]
        if n == "copy_n" and v[1][0] == "c" and v[0][0] == "it":
            v = [v[0], ("it", v[0][1], v[0][2] + v[1][1], 0)] + v[2:]
            n = "copy"
        rev = v[0][0] == "rit" and v[1][0] == "rit" and v[0][1] == v[1][1] and n not in ("reverse", "fill")
        if rev:
            loc, i, j = v[0][1], v[1][2], v[0][2]
            its = self.items(st, loc)
            if not (conc(its) and 0 <= i <= j <= len(its)):
                return None
            xs = [x[1] for x in its[i:j]][::-1]
        else:
            sp = self.span(I, st, v[0], v[1])
            if sp is None:
                return None
            loc, i, j = sp
            xs = [x[1] for x in self.items(st, loc)[i:j]]

        def it(k):
            return ("rit", loc, j - k) if rev else ("it", loc, i + k, 0)
        if n in ("copy", "copy_if", "transform"):
            states = [(st, v[2] if n != "transform" or len(v) == 4 else None)]
            if states[0][1] is None:
                return None
            for x in xs:
                nxt = []
                for s, out in states:
                    if n == "copy":
                        rs = [(s, x, True)]
                    elif n == "copy_if":
                        rs = [(s3, x, b) for s2, r in I.call_value(s, self.get(I, s, args[3]), [x], e) for s3, b in self.truth(I, s2, r)]
                    else:
                        rs = [(s2, self.get(I, s2, r), True) for s2, r in I.call_value(s, self.get(I, s, args[3]), [x], e)]
                    for s2, y, keep in rs:
                        o2 = self.put(I, s2, out, y) if keep else out
                        if o2 is None:
                            return None
                        nxt.append((s2, o2))
                states = nxt
            return states
        if n == "find" and not rev and len(xs) > 3 and is_int(v[2]) and v[2][0] != "c" and all(x[0] == "c" for x in xs):
            return [(st, ("itf", loc, i, v[2], tuple(x[1] for x in xs)))]      # decided when it is used
        if n in ("find", "count", "find_if", "find_if_not", "any_of", "all_of", "none_of", "count_if"):
            states, out = [(st, 0)], []
            for k, x in enumerate(xs):
                nxt = []
                for s, c in states:
                    if n in ("find", "count"):
                        if not (is_int(x) and is_int(v[2])):
                            return None
                        rs = [(s2, t[1] != 0) for s2, t in I.compare(s, "==", x, v[2])]
                    else:
                        rs = [(s3, b) for s2, r in I.call_value(s, self.get(I, s, args[2]), [x], e) for s3, b in self.truth(I, s2, r)]
                    for s2, b in rs:
                        if n.startswith("count"):
                            nxt.append((s2, c + int(b)))
                        elif n in ("find", "find_if", "any_of", "none_of") and b or n in ("find_if_not", "all_of") and not b:
                            out.append((s2, it(k) if n.startswith("find") else C(int(n == "any_of"))))
                        else:
                            nxt.append((s2, c))
                states = nxt
            for s, c in states:
                out.append((s, it(len(xs)) if n.startswith("find") else C(c) if n.startswith("count") else C(int(n != "any_of"))))
            return out
        if n in ("is_sorted", "adjacent_find") and len(v) == 2:
            ks = [self.const_key(st, x) for x in xs]
            if any(k is None for k in ks):
                return None
            if n == "is_sorted":
                return [(st, C(int(ks == sorted(ks))))]
            k = next((k for k in range(len(ks) - 1) if ks[k] == ks[k + 1]), len(ks))
            return [(st, it(k))]
        if n == "set_union" and len(v) == 5:
            sp2 = self.span(I, st, v[2], v[3])
            ys = self.items(st, sp2[0])[sp2[1]:sp2[2]] if sp2 is not None else None
            if ys is None or not conc(ys) or not all(x[0] == "c" for x in xs) or not all(y[1][0] == "c" for y in ys):
                return None
            a, b, out = [x[1] for x in xs], [y[1][1] for y in ys], v[4]
            while a or b:
                if a and (not b or a[0] <= b[0]):
                    k = a.pop(0)
                    if b and b[0] == k:
                        b.pop(0)
                else:
                    k = b.pop(0)
                out = self.put(I, st, out, C(k))
                if out is None:
                    return None
            return [(st, out)]
        if n == "for_each":
            states = [st]
            for x in xs:
                states = [s2 for s in states for s2, r in I.call_value(s, self.get(I, s, args[2]), [x], e)]
            return [(s, v[2]) for s in states]
        if n == "equal":
            if len(v) == 3:
                if v[2][0] != "it":
                    return None
                sp2 = (v[2][1], v[2][2], v[2][2] + len(xs))
            elif len(v) == 4:
                sp2 = self.span(I, st, v[2], v[3])
            else:
                return None
            if sp2 is None:
                return None
            ys = self.items(st, sp2[0])[sp2[1]:sp2[2]]
            if not conc(ys):
                return None
            if len(ys) != len(xs):
                return [(st, C(0))] if len(v) == 4 else None
            return [(s, C(int(b))) for s, b in self.streq(I, st, ("str", tuple(("chr", x) for x in xs)), ("str", ys))]
        if n == "search" and len(v) == 4 and not rev:
            sp2 = self.span(I, st, v[2], v[3])
            ys = self.items(st, sp2[0])[sp2[1]:sp2[2]] if sp2 is not None else None
            if ys is None or not conc(ys) or not all(is_int(x) for x in xs) or not all(is_int(y[1]) for y in ys):
                return None
            out, states = [], [st]
            for k in range(0, len(xs) - len(ys) + 1):
                nxt = []
                for s in states:
                    cur = [s]
                    for d, y in enumerate(ys):
                        c2 = []
                        for s1 in cur:
                            for s2, t in I.compare(s1, "==", xs[k + d], y[1]):
                                (c2 if t[1] != 0 else nxt).append(s2)
                        cur = c2
                    out += [(s2, it(k)) for s2 in cur]
                states = nxt
            return out + [(s, it(len(xs))) for s in states]
        if n in ("reverse", "fill"):
            its = self.items(st, loc)
            new = tuple(reversed(its[i:j])) if n == "reverse" else (("chr", v[2]),) * (j - i)
            st.heap[loc] = ("str", its[:i] + new + its[j:])
            return [(st, ("void",))]
        if n == "accumulate" and len(v) == 3:
            acc = v[2]
            for x in xs:
                if not (is_int(acc) and is_int(x)):
                    return None
                acc = add(acc, x)
            return [(st, acc)]
        return None
