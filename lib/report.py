"""Obligation bookkeeping, known findings, evidence and the exit protocol shared by all checks."""
import json, os, sys, time, traceback
from build import VERIF, BuildError
from engine import AnalysisError

KNOWN = os.path.join(VERIF, "known_findings.json")


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obs = []          # (name, status, detail)
        self.viol = {}         # key -> text
        self.und = []
        self.broken = []
        self.cov = {}
        self.level = "other"
        self.explanation = ""
        self.trusted = []
        self.assumptions = []
        self.floors = {}

    # ---- obligations
    def ok(self, name, detail=""):
        self.obs.append((name, "ok", detail))

    def bad(self, name, key, text):
        """a violated obligation; key identifies the finding (stable across line changes)"""
        self.obs.append((name, "violated", key))
        if key not in self.viol:
            self.viol[key] = text

    def undecided(self, name, why):
        self.obs.append((name, "undecided", why))
        self.und.append((name, why))

    def fail(self, why):
        """analysis broken: vanished anchor, below the floor, ..."""
        self.broken.append(why)

    def floor(self, what, n, least):
        self.cov[what] = n
        if n < least:
            self.fail("%s: %d found, at least %d expected" % (what, n, least))

    def count(self, what, n=1):
        self.cov[what] = self.cov.get(what, 0) + n


def known():
    try:
        return json.load(open(KNOWN))
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def finish(ctx):
    kf = {f["key"]: f for f in known()["findings"] if f["property"] == ctx.pid}
    new = {k: v for k, v in ctx.viol.items() if k not in kf}
    old = {k: v for k, v in ctx.viol.items() if k in kf}
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, kf[k]["what"]))
    n = len(ctx.obs)
    d = sum(1 for o in ctx.obs if o[1] == "ok")
    if not n and not ctx.broken:
        ctx.fail("no obligation was generated")
    if len(ctx.und) * 3 > n:
        ctx.fail("%d of %d obligations are undecided" % (len(ctx.und), n))
    cov = dict(ctx.cov)
    cov.update(obligations=n, discharged=d, undecided=len(ctx.und), violated=sum(1 for o in ctx.obs if o[1] == "violated"),
               checker_cmd="python3 run.py %s" % ctx.pid, trusted_base=ctx.trusted or ["clang 18 front end", "irdump", "lib/engine.py", "lib/poly.py"],
               explanation=ctx.explanation)
    cov["samples"] = [list(map(str, o)) for o in ctx.obs[:: max(1, n // 12)]][:14]
    cov["undecided_list"] = [list(map(str, u)) for u in ctx.und[:40]]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": ctx.level, "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 3), "violations": len(new)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w"), indent=1)
    full = os.path.join(VERIF, "evidence", ctx.pid + ".obligations.txt")
    with open(full, "w") as f:
        for o in ctx.obs:
            f.write("%-10s %s  %s\n" % (o[1], o[0], o[2]))
    print("%s: %d obligations, %d discharged, %d violated, %d undecided, %.1fs" % (
        ctx.pid, n, d, cov["violated"], len(ctx.und), time.time() - ctx.t0))
    for k, v in cov.items():
        if isinstance(v, int) and k not in ("obligations", "discharged", "undecided", "violated"):
            print("  analysed: %s = %d" % (k, v))
    for name, why in ctx.und[:20]:
        print("UNDECIDED %s: %s" % (name, why))
    if new:
        rp = os.path.join(VERIF, "evidence", ctx.pid + ".violations.txt")
        with open(rp, "w") as f:
            for k in sorted(new):
                f.write("[%s]\n%s\n\n" % (k, new[k]))
                print("---- [%s]\n%s" % (k, new[k][:1500]))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        return 1
    if ctx.broken:
        for b in ctx.broken:
            print("ANALYSIS-BROKEN %s: %s" % (ctx.pid, b))
        return 2
    return 0


def main(argv):
    import importlib
    sys.setrecursionlimit(20000)
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(pid, tier, seed)
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    try:
        mod = importlib.import_module(pid.lower())
        mod.check(ctx)
    except BuildError as e:
        ctx.fail(str(e))
    except AnalysisError as e:
        traceback.print_exc()
        ctx.fail("analysis gave up: %s" % e)
    except Exception as e:
        traceback.print_exc()
        ctx.fail("internal error: %r" % e)
    return finish(ctx)
