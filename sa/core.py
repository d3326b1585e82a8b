"""Obligations, known findings, evidence and the command line of the checks."""
import json, os, sys, time, traceback, importlib, signal

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "props"))

import extract
import prog
from terms import Unknown
from prog import Missing

FINDINGS = os.path.join(VERIF, "known_findings.txt")


class Check:
    """Collects the obligations one property generates on the current tree."""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []            # (rule, site, ok, detail)
        self.fns = set()
        self.notes = []
        self.counts = {}
        self.thorough = tier == "thorough"
        self._prog = {}

    def prog(self, name="rtbvh"):
        if name not in self._prog:
            self._prog[name] = prog.load(name)
        return self._prog[name]

    def fn(self, *paths):
        self.fns.update(paths)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ob(self, rule, site, ok, detail=""):
        """one obligation: `rule` holds at `site`"""
        self.obs.append((rule, site, bool(ok), detail if not ok else ""))
        return bool(ok)

    def guard(self, rule, site, f):
        """run a decision; anything the analysis cannot decide fails the obligation"""
        try:
            r = f()
            if r is None:
                return True
            ok, detail = r if isinstance(r, tuple) else (r, "")
            return self.ob(rule, site, ok, detail)
        except (Unknown, Missing) as e:
            if os.environ.get("SA_TRACE"):
                traceback.print_exc()
            return self.ob(rule, site, False, "cannot be decided: %s: %s" % (type(e).__name__, e))
        except Exception as e:
            if os.environ.get("SA_TRACE"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            return self.ob(rule, site, False, "cannot be decided: %s: %s (%s:%d)" % (
                type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))

    def floor(self, what, minimum):
        """the analysed program must still contain what the rule is about"""
        n = self.counts.get(what, 0)
        self.ob("anchor", "%s >= %d" % (what, minimum), n >= minimum, "only %d found" % n)


def findings(pid):
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                out.append(l.split(" ", 2)[2])
    return out


def main(argv):
    pid = argv[1]
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in argv else "quick"
    verbose = "-v" in argv
    t0 = time.time()
    c = Check(pid, tier)
    mod = importlib.import_module(pid.lower())
    try:
        mod.run(c)
    except (Unknown, Missing, extract.ExtractError) as e:
        c.ob("analysis", pid, False, "%s: %s" % (type(e).__name__, e))
    except Exception as e:
        traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        c.ob("analysis", pid, False, "%s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
    if not c.obs:
        c.ob("analysis", pid, False, "no obligation was generated")
    bad = [(r, s, d) for r, s, ok, d in c.obs if not ok]
    known = findings(pid)
    shown = []
    new = []
    for r, s, d in bad:
        k = "%s @ %s" % (r, s)
        if k in known:
            shown.append(k)
        else:
            new.append((r, s, d))
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    rules = {}
    for r, s, ok, d in c.obs:
        x = rules.setdefault(r, [0, 0])
        x[0] += 1
        x[1] += ok
    cov = {
        "explanation": mod.EXPLAIN,
        "obligations": len(c.obs),
        "discharged": sum(1 for o in c.obs if o[2]),
        "rules": {r: {"obligations": n, "discharged": k} for r, (n, k) in sorted(rules.items())},
        "functions_analysed": sorted(c.fns),
        "counts": c.counts,
        "samples": ["%s @ %s: %s" % (r, s, "holds" if ok else d) for r, s, ok, d in c.obs[:12]],
    }
    json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
               "coverage": cov, "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(time.time() - t0, 3),
               "violations": len(new)}, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    if verbose:
        for r, s, ok, d in c.obs:
            print("%-4s %s @ %s%s" % ("ok" if ok else "BAD", r, s, "" if ok else "  -- " + d))
    for k in shown:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s: %d obligations, %d discharged, %d functions, %.1fs" % (
        pid, len(c.obs), cov["discharged"], len(c.fns), time.time() - t0))
    rp = os.path.join(ev, pid + ".replay.txt")
    if new:
        with open(rp, "w") as f:
            for r, s, d in new:
                f.write("rule: %s\nconstruct: %s\nwhy: %s\n\n" % (r, s, d))
        for r, s, d in new[:8]:
            print("  violated: %s @ %s -- %s" % (r, s, d[:300]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
