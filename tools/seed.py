"""Run it in private copies (e.g. bind-mounted over /repo and /verif), never on the real tree.
Plant a bug: make patch/demo/meta, confirm it in /repo's tree, and undo it.
usage: seed.py DEFS.py [id ...]   (DEFS.py defines SEEDS = {id: dict(prop=,edits=[(path,old,new)],cpp=,needs=,breaks=)})"""
import sys, os, json, subprocess, runpy
R = "/repo"
DEMO = '''#!/bin/bash
# exit 0: behaviour as documented; nonzero: broken.  Run in the repository root after the build.
set -e
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
g++ -std=c++20 -include cstdint -g0 -w -Iinclude "$(dirname "$0")/demo.cpp" -o "$D/demo" _build/repo/lib/libwordring.a LIBS
cd "$D"; timeout 60 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def edit(path, old, new):
    p = os.path.join(R, path); b = open(p, "rb").read()
    o, n = old.encode(), new.encode()
    if b"\r\n" in b: o = o.replace(b"\n", b"\r\n"); n = n.replace(b"\n", b"\r\n")
    assert b.count(o) == 1, (path, old, b.count(o))
    open(p, "wb").write(b.replace(o, n))
def plant(i, s, dst="/verif/seeded"):
    d = os.path.join(dst, i); os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain -uno").stdout.strip()
    open(d + "/demo.sh", "w").write(DEMO.replace(" LIBS", (" " + s["libs"]) if s.get("libs") else "")); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(s["cpp"])
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    try:
        for e in s["edits"]: edit(*e)
        subprocess.check_call("git -C /repo diff > %s/patch.diff" % d, shell=True)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: return "BUILD FAILED " + (b.stdout + b.stderr)[-500:]
        sh("bash /opt/vp/test.sh /tmp/o.json")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o = json.load(open("/tmp/o.json"))
        br = sorted(base - set(o["passed"]))
        if br: return "TESTS BROKEN %s" % br[:5]
        dm = sh("bash %s/demo.sh" % d, cwd=R)
        if dm.returncode == 0: return "DEMO PASSES WITH BUG " + dm.stdout[-300:]
        ck = sh("python3 /verif/checks/run.py %s" % s["prop"])
        caught = ck.returncode == 1 and "VIOLATION property=%s" % s["prop"] in ck.stdout
        return "ok demo=%d (%s) check=%s rc=%d %s" % (dm.returncode, (dm.stdout + dm.stderr).strip()[-100:], "CAUGHT" if caught else "missed", ck.returncode, [l for l in ck.stdout.splitlines() if "VIOLATION" in l][:1])
    finally:
        sh("git -C /repo checkout -- .")
if __name__ == "__main__":
    S = runpy.run_path(sys.argv[1])["SEEDS"]
    ids = sys.argv[2:] or list(S)
    res = {}
    for i in ids:
        res[i] = plant(i, S[i]); print(i, res[i], flush=True)
    sh("bash /opt/vp/build.sh")
    for i in ids:
        r = sh("bash /verif/seeded/%s/demo.sh" % i, cwd=R)
        good = res[i].startswith("ok") and r.returncode == 0
        if good: open("/verif/seeded/%s/OK" % i, "w").close()
        else: sh("rm -rf /verif/seeded/%s" % i)
        print(i, "KEPT" if good else "DROPPED", "clean demo", r.returncode, (r.stdout + r.stderr)[-200:] if r.returncode else "", flush=True)
