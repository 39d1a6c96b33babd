"""C01, C02, (C03, C04): interprocedural path-sensitive dataflow over result codes, pointers and ownership."""
import os
from .. import ir, engine
from ..core import Result, VERIF, AnalysisBroken


def selftest(kinds):
    """the rules must fire on the fixture's bad_* functions and stay quiet on the good_* ones"""
    p = ir.load_program(files=[os.path.join(VERIF, "fixtures", "flow.c")] + [s for s in ir.sources() if s.endswith("core/error.c")])
    e = engine.Engine(p)
    e.run(jobs=1)
    hit = {}
    for v in e.viol.values():
        hit.setdefault(v["func"], set()).add(v["kind"])
    n = 0
    for f in p.funcs.values():
        for k in kinds:
            if f.name.startswith("bad_" + k):
                n += 1
                if k not in hit.get(f.name, ()):
                    raise AnalysisBroken("self-test: rule %s is blind to %s" % (k, f.name))
            if f.name.startswith("good_" + k):
                n += 1
                if hit.get(f.name):
                    raise AnalysisBroken("self-test: rule %s misfires on %s" % (k, f.name))
    return n


def analyse(res, kinds, tier, keep=lambda v: True):
    res.count("selftest_functions", selftest(kinds))
    p = ir.load_program()
    e = engine.Engine(p)
    e.run()
    res.cov["units"] = len(p.units)
    res.cov["functions"] = len(p.funcs)
    res.cov["block_states"] = e.stats["block_states"]
    res.cov["functions_cut_off"] = len(e.gave)
    if e.gave:
        res.samples.append("state budget reached in: " + ", ".join(e.gave))
    calls = sum(1 for f in p.funcs.values() for i in f.instrs() if i.op == "call")
    res.cov["call_sites"] = calls
    res.cov["result_returning_call_sites"] = sum(1 for f in p.funcs.values() for i in f.instrs()
                                                 if i.op == "call" and e.result_call(i))
    res.need("functions", 500)
    res.need("result_returning_call_sites", 500)
    for v in e.viol.values():
        if v["kind"] in kinds and keep(v):
            key = v["key"] if isinstance(v["key"], str) else repr(v["key"])
            res.find(v["kind"], v["where"], v["msg"], v["func"], "%s|%s|%s|%s" % (v["kind"], v["file"], v["func"], key.replace(" ", "")))
    return p, e


def c01(tier):
    r = Result()
    r.rules = ["swallowed: on no path may a function report success after a result-returning call on that path "
               "failed and the failure was neither compared with a specific code nor passed on",
               "softened: on no path may a hard failure be replaced by one of the codes callers read as 'no match'"]
    r.assume = ["functions reached only through pointers of unknown origin are summarised by every function stored in "
                "the same structure slot", "three passes over recursive components"]
    analyse(r, ("swallowed", "softened"), tier)
    return r


def c02(tier):
    r = Result()
    r.rules = ["nullderef: on no path may a pointer whose producer failed (refused allocation, failed constructor, "
               "failed lookup) be loaded from, stored to, or handed to a callee that dereferences it unconditionally",
               "swallowed(alloc): a function that met a refused allocation does not report success"]
    p, e = analyse(r, ("nullderef", "swallowed"), tier, lambda v: v["kind"] != "swallowed" or v["key"].endswith(":ptr"))
    return r
