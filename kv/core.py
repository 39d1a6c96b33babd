"""Driver: runs the rule set of one property, applies the known-findings file, writes evidence."""
import json, os, sys, time, importlib, hashlib, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KV_REPO", "/repo")

from .ir import AnalysisBroken  # noqa: E402


class Finding:
    """one violated obligation: rule, place, explanation and a stable identity for the known-findings file"""

    def __init__(self, rule, where, msg, func=None, ident=None, path=None):
        self.rule, self.where, self.msg, self.func = rule, where, msg, func
        self.file = where.split(":")[0]
        self.ident = ident or "%s|%s|%s" % (rule, self.file, func or "")
        self.path = path or []

    def as_dict(self):
        return dict(rule=self.rule, where=self.where, function=self.func, message=self.msg, ident=self.ident,
                    path=self.path)


class Result:
    def __init__(self):
        self.findings = []
        self.cov = {}
        self.assume = []
        self.rules = []
        self.samples = []

    def find(self, *a, **k):
        self.findings.append(Finding(*a, **k))

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def need(self, name, minimum=1):
        if self.cov.get(name, 0) < minimum:
            raise AnalysisBroken("rule has nothing to check: %s = %s (expected at least %d)" %
                                 (name, self.cov.get(name, 0), minimum))


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                d = {}
                # known: property=C01 ident=<ident> :: text
                head, _, text = l[7:].partition(" :: ")
                for tok in head.split(" "):
                    k, _, v = tok.partition("=")
                    d[k] = v
                d["text"] = text
                out.append(d)
    return out


def run_property(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        from .props import registry
        fn = registry.get(pid)
        res = fn(tier)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % pid)
        return 2
    known = {k["ident"]: k for k in known_findings() if k.get("property") == pid}
    fresh, listed = [], {}
    for f in res.findings:
        if f.ident in known:
            listed[f.ident] = known[f.ident]
        else:
            fresh.append(f)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(res.cov)
    cov["explanation"] = ("Static analysis of the current source tree; rules applied: " + "; ".join(res.rules))
    cov["samples"] = res.samples[:12]
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov, assumptions=res.assume,
              wall_s=round(time.time() - t0, 2), violations=len(fresh),
              known_findings=sorted(listed), reports=[f.as_dict() for f in fresh[:200]])
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write("\n")
    print("property %s (%s): %s" % (pid, tier, ", ".join("%s=%s" % (k, v) for k, v in res.cov.items())))
    for r in res.rules:
        print("  rule: " + r)
    for k in sorted(listed):
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, listed[k]["text"], k))
    if fresh:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as fh:
            fh.write("property %s\nre-run: cd /verif && python3 check.py %s\n" % (pid, pid))
            for f in fresh:
                fh.write("%s: [%s] %s%s\n    ident: %s\n" % (f.where, f.rule, (f.func + ": ") if f.func else "", f.msg, f.ident))
                for s in f.path:
                    fh.write("    via %s\n" % s)
        for f in fresh[:40]:
            print("%s: [%s] %s%s" % (f.where, f.rule, (f.func + ": ") if f.func else "", f.msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
