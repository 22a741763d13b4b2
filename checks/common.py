"""Shared driver: evidence, known findings, exit codes."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.path.insert(0, HERE)
from prog import Broken, REPO, export, short, short_q  # noqa
from absint import Unsupported, LoopLimit  # noqa


class Report:
    """Collects obligations and violations of one property."""

    def __init__(self, pid):
        self.pid = pid
        self.obligations = 0
        self.discharged = 0
        self.viol = []           # (key, text)
        self.samples = []
        self.units = {}
        self.notes = []
        self.undec = {}

    def ok(self, what=None, n=1):
        self.obligations += n
        self.discharged += n
        if what and len(self.samples) < 12:
            self.samples.append(what)

    def fail(self, key, text):
        """key identifies the construct (stable across unrelated edits)."""
        self.obligations += 1
        self.viol.append((key, text))

    def undecided(self, key, why):
        """an obligation the abstraction cannot decide (unmodelled operation): neither held nor violated"""
        self.obligations += 1
        self.undec.setdefault(key, why)

    def guard(self, key, fn, *a):
        """runs one obligation group; an unmodelled construct makes it undecided, not wrong"""
        try:
            return fn(*a)
        except (Unsupported, LoopLimit, RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
            if os.environ.get("WRX_DEBUG"):
                traceback.print_exc()
            self.undecided(key, "%s: %s" % (type(e).__name__, e))

    def count(self, name, n=1):
        self.units[name] = self.units.get(name, 0) + n

    def need(self, name, n):
        """instance floor: fewer instances than confirmed by hand means the analysis lost its anchors."""
        if self.units.get(name, 0) < n:
            raise Broken("only %d instances of '%s' found, %d confirmed by hand" % (self.units.get(name, 0), name, n))


def soften(rep):
    """a path that exceeds the loop bound, or a run that meets an unmodelled construct, is undecided by itself; the other paths and runs still count"""
    import absint
    def soft(e):
        if getattr(e, "same", False):
            rep.fail("endless loop:" + e.where.split()[-1], "%s: the %s returns to the state it started from: it never ends" % (e.where, e))
        else:
            rep.undecided("limit: %s" % e, "%s: %s" % (type(e).__name__, e))
    absint.Interp.soft = staticmethod(soft)


def parallel(rep, jobs):
    """runs independent groups of obligations (functions of a report) in up to 8 processes and merges what they found, in order"""
    import multiprocessing, signal
    n = min(8, os.cpu_count() or 1, len(jobs))
    if n < 2:
        for j in jobs:
            j(rep)
        return
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))

    end = time.time() + 600

    def late(*a):
        raise LoopLimit("out of time")

    def work(k, pipe):
        out = []
        signal.signal(signal.SIGALRM, late)
        try:
            for i in range(k, len(jobs), n):
                r = Report(rep.pid)
                soften(r)
                err = None
                left = end - time.time()
                try:
                    if left < 1:
                        r.undecided("time", "group %d was not analysed: out of time" % i)
                    else:
                        signal.setitimer(signal.ITIMER_REAL, left, 0.5)
                        jobs[i](r)
                        signal.setitimer(signal.ITIMER_REAL, 0)
                except LoopLimit as e:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    r.undecided("limit: %s" % e, str(e))
                except (Broken, Unsupported) as e:
                    err = "%s: %s" % (type(e).__name__, e)
                out.append((i, r.obligations, r.discharged, r.viol, r.samples, r.units, r.notes, r.undec, err))
        finally:
            pipe.send(out)
            pipe.close()
    ctx = multiprocessing.get_context("fork")
    ps = []
    for k in range(n):
        a, b = ctx.Pipe(False)
        q = ctx.Process(target=work, args=(k, b))
        q.start()
        b.close()
        ps.append((q, a))
    res = []
    for q, a in ps:
        try:
            res += a.recv()
        except EOFError:
            pass
        q.join()
    if len(res) != len(jobs):
        raise Broken("a worker of the analysis died (%d of %d groups answered)" % (len(res), len(jobs)))
    for i, o, d, v, s, u, no, un, err in sorted(res, key=lambda x: x[0]):
        if err:
            raise Broken(err)
        rep.obligations += o
        rep.discharged += d
        rep.viol += v
        rep.samples += s[:max(0, 12 - len(rep.samples))]
        for k, x in u.items():
            rep.count(k, x)
        rep.notes += no
        for k, x in un.items():
            rep.undec.setdefault(k, x)


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {e["key"]: e for e in d["findings"] if e.get("status") == "known" and e["property"] == pid}


def main(pid, fn, level, rule, assumptions, trusted=None):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = Report(pid)
    status = 0
    try:
        fn(rep)
    except (Broken, Unsupported, LoopLimit) as e:
        if not rep.viol:
            print("ANALYSIS-BROKEN property=%s: %s: %s" % (pid, type(e).__name__, e))
            if os.environ.get("WRX_DEBUG"):
                traceback.print_exc()
            return 2
        print("note: analysis stopped early: %s" % e)
    if not rep.viol and rep.discharged < max(1, len(rep.undec)):
        print("ANALYSIS-BROKEN property=%s: nothing decided: %s" % (pid, list(rep.undec.items())[:3]))
        return 2
    kn = known(pid)
    new = []
    seen = set()
    for key, text in rep.viol:
        if key in seen:
            continue
        if key in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, kn[key]["what"]))
        else:
            new.append((key, text))
        seen.add(key)
    seen &= set(kn)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if new:
        status = 1
        rp = os.path.join(VERIF, "evidence", "%s.violation.txt" % pid)
        with open(rp, "w") as f:
            for key, text in new:
                f.write("[%s]\n%s\n\n" % (key, text))
        for key, text in new[:20]:
            print("  " + text.replace("\n", "\n    "))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    cov = {"explanation": rule, "rule": rule, "units": rep.units, "samples": rep.samples or ["none"],
           "obligations": rep.obligations, "discharged": rep.discharged,
           "checker_cmd": "python3 checks/run.py %s" % pid,
           "trusted_base": trusted or ["clang 18 front end (name and type resolution, template instantiation)", "engine/wrx.cpp exporter", "engine/*.py abstract interpreter and library transfer functions", "the specification tables in checks/"],
           "undecided": rep.undec, "known_findings": sorted(seen)}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if not new:
        for k, w in list(rep.undec.items())[:10]:
            print("undecided: %s (%s)" % (k, w))
        print("OK property=%s obligations=%d discharged=%d known=%d units=%s wall=%.1fs" % (pid, rep.obligations, rep.discharged, len(seen), json.dumps(rep.units), time.time() - t0))
    return status
