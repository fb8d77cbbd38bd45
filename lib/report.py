"""Verdict plumbing shared by every check: obligations, violations, known findings,
evidence file, exit code.  Exit 0 held, 1 violated (VIOLATION line), 3 analysis broken."""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
from ccast import AnalysisBroken  # noqa


class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.obl = []          # (group, text)
        self.groups = {}
        self.viol = []         # (key, text)
        self.units = set()
        self.assumptions = list(assumptions)
        self.extra = {}
        self.minimum = {}

    # one obligation = one decided fact about a named construct of the source
    def ok(self, group, what):
        self.groups[group] = self.groups.get(group, 0) + 1
        if len([1 for g, _ in self.obl if g == group]) < 6:
            self.obl.append((group, what))

    def bad(self, group, key, what):
        self.groups[group] = self.groups.get(group, 0) + 1
        self.viol.append((group + ":" + key, what))

    def decide(self, cond, group, key, what, good=None):
        if cond:
            self.ok(group, good or key)
        else:
            self.bad(group, key, what)
        return cond

    def need(self, group, n):
        """instance floor confirmed by hand: fewer means the analysis lost its anchors"""
        self.minimum[group] = n

    def unit(self, u):
        self.units.add(u)


def known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = {}
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln or ln.startswith("fixed:"):
                continue
            d = json.loads(ln)
            if d.get("property") == pid:
                out[d["key"]] = d
    return out


def run(pid, rule, fn, assumptions=()):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(pid, rule, assumptions)
    c.tier = tier
    broken = None
    try:
        fn(c)
        for g, n in c.minimum.items():
            if c.groups.get(g, 0) < n:
                # a violation already explains why instances are missing
                if not c.viol:
                    raise AnalysisBroken("group %s has %d instances, expected at least %d" % (g, c.groups.get(g, 0), n))
    except AnalysisBroken as e:
        broken = str(e)
        if os.environ.get("VSA_TRACE"):
            traceback.print_exc()
    except Exception as e:  # an engine failure is never a verdict
        broken = "engine: %r" % e
        traceback.print_exc()
    kn = known(pid)
    hits, new = [], []
    seen = set()
    for key, text in c.viol:
        if (key, text) in seen:
            continue
        seen.add((key, text))
        if key in kn:
            hits.append((key, text))
        else:
            new.append((key, text))
    total = sum(c.groups.values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source. Rule: " + rule,
            "obligations": total,
            "discharged": total - len(c.viol),
            "obligations_by_rule": c.groups,
            "units_analysed": sorted(c.units),
            "samples": ["%s: %s" % o for o in c.obl[:60]],
            **c.extra,
        },
        "assumptions": c.assumptions,
        "wall_s": round(time.time() - c.t0, 2),
        "violations": len(new),
    }
    if broken:
        ev["coverage"]["broken"] = broken
    if new:
        ev["coverage"]["violations"] = ["%s -- %s" % v for v in new]
    if hits:
        ev["coverage"]["known_findings"] = ["%s -- %s" % v for v in hits]
    d = os.environ.get("VSA_EV") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for key, text in {k: (k, t) for k, t in reversed(hits)}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    if new:
        rp = os.path.join(d, pid + ".violation.txt")
        with open(rp, "w") as f:
            for key, text in new:
                f.write("%s\n    %s\n" % (key, text))
        for key, text in new[:40]:
            print("  [%s] %s" % (key, text))
        if broken:
            print("  (analysis also incomplete: %s)" % broken)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if broken:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, broken))
        sys.exit(3)
    print("OK property=%s obligations=%d units=%d wall=%.1fs" % (pid, total, len(c.units), time.time() - c.t0))
    sys.exit(0)
