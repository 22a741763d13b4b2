"""Exports /repo's current sources through wrx and offers the resolved program."""
import hashlib, json, os, subprocess, sys, tempfile, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WRX_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
WRX = os.path.join(BUILD, "wrx")


class Broken(Exception):
    """The analysis cannot answer (tool failure, anchor vanished)."""


def ensure_tool():
    src = os.path.join(VERIF, "engine", "wrx.cpp")
    if os.path.exists(WRX) and os.path.getmtime(WRX) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True, check=True).stdout.split()
    flags = [f for f in flags if not f.startswith("-std=")]
    tmp = WRX + ".%d" % os.getpid()
    r = subprocess.run(["g++", "-std=c++17", "-O1", "-fno-rtti"] + flags + ["-w", src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"], capture_output=True, text=True)
    if r.returncode:
        raise Broken("wrx does not build: " + r.stderr[-2000:])
    os.replace(tmp, WRX)


def export(tu, extra=(), stand=()):
    """Runs clang over a harness TU (or a /repo source) and returns the exported program.
    stand: (class, std class) pairs: a class of the library whose contract another property shows is taken to be that container."""
    ensure_tool()
    src = tu if os.path.isabs(tu) else os.path.join(VERIF, "harness", tu)
    fd, out = tempfile.mkstemp(suffix=".json", prefix="wrx")
    os.close(fd)
    try:
        cmd = [WRX, "--out=" + out, "--root=" + REPO + "/", "--root=" + os.path.join(VERIF, "harness") + "/", src, "--",
               "-std=c++20", "-w", "-include", os.path.join(VERIF, "harness", "prelude.hpp"), "-I" + os.path.join(REPO, "include"), "-I" + REPO] + list(extra)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Broken("clang could not analyse %s:\n%s" % (src, r.stderr[-4000:]))
        with open(out) as f:
            text = f.read()
        for a, b in stand:
            text = text.replace(a, b)
        d = json.loads(text)
    finally:
        os.unlink(out)
    if stand:
        gone = tuple(b for a, b in stand)
        for fi in d["finfo"]:
            if fi and fi["n"].startswith("operator") and not fi.get("cls") and fi.get("pt") and all(x.lstrip("&")[2:].startswith(gone) for x in fi["pt"]):
                fi["q"] = gone[0] + "::" + fi["n"]
        d["funcs"] = [f for f in d["funcs"] if not d["finfo"][f["f"]]["q"].startswith(gone) and not cls_name(d["finfo"][f["f"]]).startswith(gone)]
        for fi in d["finfo"]:
            if fi and not fi.get("cls") and fi["q"].startswith(gone):
                fi["q"] = "std::" + fi["n"]
        d["records"] = [r for r in d["records"] if not r["t"][2:].startswith(gone)]
    return Program(d, src)


def cls_name(fi):
    c = fi.get("cls") or ""
    return c[2:] if c[:2] in ("R:", "C:") else c


class Program:
    def __init__(self, d, src):
        self.src = src
        self.finfo = d["finfo"]
        self.funcs = {}
        for f in d["funcs"]:
            self.funcs[f["f"]] = f
        self.records = {r["t"][2:]: r for r in d["records"]}
        self.enums = {e["q"]: e for e in d["enums"]}
        self.globals = {g["q"]: g for g in d["globals"]}
        self.byname = {}
        for i, f in self.funcs.items():
            self.byname.setdefault(self.finfo[i]["n"], []).append(i)
        self._cfg = {}

    def find(self, name, cls=None, pred=None, one=True, prefix=None):
        """Function indexes by unqualified name, restricted by a substring of the class or qualified name."""
        r = []
        for i in self.byname.get(name, []):
            fi = self.finfo[i]
            if cls is not None and cls not in fi.get("cls", ""):
                continue
            if prefix is not None and not fi["q"].startswith(prefix):
                continue
            if pred and not pred(fi, self.funcs[i]):
                continue
            r.append(i)
        if one:
            if not r:
                raise Broken("anchor not found: function %s%s" % (name, " of " + cls if cls else ""))
            return r[0]
        return r

    def where(self, i):
        f = self.funcs.get(i)
        fi = self.finfo[i]
        return "%s:%d (%s)" % (short(f["file"] if f else fi["file"]), f["line"] if f else fi["line"], short_q(fi["q"]))

    def cfg(self, i):
        c = self._cfg.get(i)
        if c is None:
            c = self._cfg[i] = Cfg(self.funcs[i].get("body"))
        return c


def short(p):
    return p[len(REPO) + 1:] if p.startswith(REPO + "/") else p


def short_q(q):
    out, d = "", 0
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">":
            d = max(0, d - 1)
        elif d == 0:
            out += ch
    return out.replace("wordring::", "")


class Cfg:
    """Statement-level control-flow graph. Nodes: ['x',e,nx] ['decl',v,nx] ['br',c,t,f] ['sw',c,cases,dflt] ['ret',e] ['jmp',nx] ['exit'] ..."""

    def __init__(self, body):
        self.n = []
        self.labels = {}
        self.gotos = []
        self.heads = set()
        self.exit = self.add(["exit"])
        self.entry = self.st(body, self.exit, None, None) if body else self.exit
        for i, name in self.gotos:
            self.n[i][1] = self.labels[name]

    def add(self, x):
        self.n.append(x)
        return len(self.n) - 1

    def st(self, s, nx, brk, cont):
        """Builds s backwards; returns its entry node."""
        if s is None:
            return nx
        k = s["k"]
        if k == "Block":
            for x in reversed(s["s"]):
                nx = self.st(x, nx, brk, cont)
            return nx
        if k == "Ex":
            return self.add(["x", s["e"], nx, s["l"]])
        if k == "Decl":
            for v in reversed(s["vars"]):
                nx = self.add(["decl", v, nx, s["l"]])
            return nx
        if k == "If":
            t = self.st(s["t"], nx, brk, cont)
            f = self.st(s["e"], nx, brk, cont)
            e = self.add(["br", s["c"], t, f, s["l"]])
            if "var" in s:
                e = self.add(["decl", s["var"], e, s["l"]])
            return self.st(s.get("init"), e, brk, cont)
        if k == "While":
            h = self.add(["br", s["c"], None, nx, s["l"]])
            top = h
            if "var" in s:
                top = self.add(["decl", s["var"], h, s["l"]])
            self.heads.add(top)
            self.n[h][2] = self.st(s["b"], top, nx, top)
            return top
        if k == "Do":
            h = self.add(["br", s["c"], None, nx, s["l"]])
            b = self.st(s["b"], h, nx, h)
            self.n[h][2] = b
            self.heads.add(b)
            return b
        if k == "For":
            h = self.add(["br", s["c"], None, nx, s["l"]] if s["c"] else ["jmp", None, s["l"]])
            inc = self.add(["x", s["inc"], h, s["l"]]) if s["inc"] else h
            b = self.st(s["b"], inc, nx, inc)
            if s["c"]:
                self.n[h][2] = b
            else:
                self.n[h][1] = b
            self.heads.add(h)
            return self.st(s["init"], h, brk, cont)
        if k == "RFor":
            slot = self.add(["nop"])
            test = self.add(["rft", slot, None, nx, s["l"]])
            inc = self.add(["rfi", slot, test, s["l"]])
            b = self.st(s["b"], inc, nx, inc)
            bind = self.add(["rfb", slot, s["var"], b, s["l"]])
            self.n[test][2] = bind
            self.heads.add(test)
            self.n[slot] = ["rf0", slot, s["r"], test, s["l"]]
            return slot
        if k == "Switch":
            sw = self.add(["sw", s["c"], [], None, s["l"]])
            # build case bodies backwards, keep fallthrough
            items = s["s"]
            cur = nx
            entry_of = {}
            for idx in range(len(items) - 1, -1, -1):
                it = items[idx]
                if it is None:
                    continue
                if it["k"] in ("Case", "Default"):
                    entry_of[idx] = cur
                else:
                    cur = self.st(it, cur, nx, cont)
            dflt = nx
            for idx, it in enumerate(items):
                if it is None:
                    continue
                if it["k"] == "Case":
                    self.n[sw][2].append((it["lo"], it["hi"], entry_of[idx], it.get("en")))
                elif it["k"] == "Default":
                    dflt = entry_of[idx]
            self.n[sw][3] = dflt
            return self.st(s.get("init"), sw, brk, cont)
        if k == "Break":
            return brk if brk is not None else nx
        if k == "Cont":
            return cont if cont is not None else nx
        if k == "Ret":
            return self.add(["ret", s["e"], s["l"]])
        if k == "Label":
            e = self.st(s["s"], nx, brk, cont)
            j = self.add(["jmp", e, 0])
            self.labels[s["n"]] = j
            self.heads.add(j)
            return j
        if k == "Goto":
            j = self.add(["jmp", None, s["l"]])
            self.gotos.append((j, s["n"]))
            return j
        if k == "Try":
            return self.st(s["b"], nx, brk, cont)
        return self.add(["unk", s.get("c", k), nx, s.get("l", 0)])


if __name__ == "__main__":
    ensure_tool()
    print("wrx ready")
