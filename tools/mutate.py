"""Authoring aid (used by no check): mutation campaign. usage: mutate.py OUT N SEED CHECKS FILE...
Mutates a source file of a scratch copy of /repo, recompiles that unit, runs the named rule sets in-process, reports survivors."""
import sys, os, re, random, shutil, subprocess, time, pickle, io, contextlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
out, n, seed, checks = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(",")
files = sys.argv[5:]
R = "/tmp/mut/repo_%s" % os.path.basename(out)
shutil.rmtree(R, ignore_errors=True)
os.makedirs(R)
subprocess.run("git -C /repo archive HEAD | tar x -C " + R, shell=True, check=True)
os.environ["KV_REPO"] = R
from kv import ir, core
from kv.props import registry
ir.REPO = R
base = ir.load_program(R)

PAIRS = [("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), (" + ", " - "), (" - ", " + "),
         ("arg1", "arg2"), ("arg2", "arg1"), ("type1", "type2"), ("type2", "type1"), ("expr1", "expr2"), ("expr2", "expr1"),
         ("IDIV", "UDIV"), ("UDIV", "IDIV"), ("IMOD", "UMOD"), ("UMOD", "IMOD"), ("ILESSER", "UBELOW"), ("UBELOW", "ILESSER"),
         ("IGREATER", "UABOVE"), ("UABOVE", "IGREATER"), ("IRSHIFT", "IARSHIFT"), ("IARSHIFT", "IRSHIFT"), ("F32", "F64"), ("F64", "F32"),
         ("LDEQUALS", "LDLESSER"), ("INTCF", "UINTCF"), ("UINTCF", "INTCF"), ("XCHG", "PICK"), ("IADD", "ISUB"), ("IAND", "IOR"),
         ("SIGNED_INT", "UNSIGNED_INT"), ("UNSIGNED_", "SIGNED_"), ("SIGNED_", "UNSIGNED_"), ("32", "64"), ("16", "8"), ("true", "false"), ("false", "true"),
         ("INTEGRAL", "ARITHMETIC"), ("ARITHMETIC", "INTEGRAL"), ("INTEGRAL", "SCALAR"), ("SCALAR_TYPE", "ARITHMETIC_TYPE"), ("begin", "end"), ("continuation", "end"),
         ("head", "tail"), ("integer", "uinteger"), ("uinteger", "integer"), ("kefir_ast_unqualified_type", ""), ("LESS_EQUAL", "LESS"), ("GREATER", "LESS"),
         ("F32", "LD"), ("LONG_DOUBLE", "DOUBLE"), ("DOUBLE", "FLOAT"), (" / ", " % "), ("<<", ">>"), (">>", "<<"), (" | ", " & "), (" & ", " | ")]


def mutants(f):
    s = open(os.path.join(R, f)).read()
    lines = s.split("\n")
    start = 0
    for i, l in enumerate(lines):
        if l.startswith("#include"):
            start = i + 1
    res = []
    pos = sum(len(l) + 1 for l in lines[:start])
    body = s[pos:]
    for a, b in PAIRS:
        for m in re.finditer(re.escape(a), body):
            p = pos + m.start()
            ls = s.rfind("\n", 0, p) + 1
            line = s[ls:s.find("\n", p)]
            if "mem != NULL" in line or "//" in line[:p - ls] or line.strip().startswith(("//", "*", "#")) or "KEFIR_SET_" in line or "Expected valid" in line:
                continue
            q = line[:p - ls].count('"')
            if q % 2:
                continue
            res.append(("%s -> %s" % (a, b), s[:p] + b + s[p + len(a):], s.count("\n", 0, p) + 1, line.strip()))
    # statement deletion
    for m in re.finditer(r"\n( +)((?:REQUIRE_OK\(|[a-z_\->\.\[\]]+ = |break;|goto |return KEFIR_OK)[^;{}]*;)", body):
        p = pos + m.start(2)
        if "Expected valid" in m.group(2):
            continue
        res.append(("delete", s[:p] + ";" + s[p + len(m.group(2)):], s.count("\n", 0, p) + 1, " ".join(m.group(2).split())[:100]))
    # condition forced
    for m in re.finditer(r"\bif \(", body):
        p = pos + m.end()
        d, q = 1, p
        while d:
            d += {"(": 1, ")": -1}.get(s[q], 0)
            q += 1
        c = s[p:q - 1]
        for v in ("true || ", "false && "):
            res.append(("cond " + v, s[:p] + v + "(" + c + ")" + s[q - 1:], s.count("\n", 0, p) + 1, " ".join(c.split())[:100]))
    for m in re.finditer(r"\b([0-9]+)(?=[uUlL]*[,;) ])", body):
        p = pos + m.start()
        ls = s.rfind("\n", 0, p) + 1
        line = s[ls:s.find("\n", p)]
        if "KEFIR_SET_" in line:
            continue
        res.append(("num+1", s[:p] + str(int(m.group(1)) + 1) + s[p + len(m.group(1)):], s.count("\n", 0, p) + 1, line.strip()))
    return [(f,) + x for x in res]


rng = random.Random(seed)
allm = []
for f in files:
    m = mutants(f)
    rng.shuffle(m)
    allm += m[:max(1, n // len(files))]
known = core.known_findings()
from kv.ir import AnalysisBroken
log = open(out, "w")
st = {"caught": 0, "survived": 0, "broken": 0, "nocompile": 0}
cur = [None]
ir.load_program = lambda *a, **k: cur[0]
for f, op, text, line, orig in allm:
    p = os.path.join(R, f)
    keep = open(p).read()
    open(p, "w").write(text)
    try:
        try:
            if f.endswith(".c"):
                rc = subprocess.run(["clang", "-std=c11", "-fsyntax-only", "-Werror=implicit-function-declaration", "-I", R + "/headers", "-w", p], capture_output=True)
                if rc.returncode:
                    st["nocompile"] += 1
                    continue
                u = ir.load_unit((f, R))
                if u.name not in base.units:
                    raise SystemExit("unit name %s" % u.name)
                pr = ir.Program()
                pr.units = dict(base.units)
                pr.units[u.name] = u
                cur[0] = ir.link(pr)
            else:
                cur[0] = base
        except Exception as e:
            st["nocompile"] += 1
            continue
        verdict, why = "survived", ""
        for c in checks:
            try:
                t0 = time.time()
                r = registry.get(c)("quick")
                k = {x["ident"] for x in known if x["property"] == c}
                fr = [x for x in r.findings if x.ident not in k]
                if fr:
                    verdict, why = "caught", c + " " + fr[0].msg[:140]
                    break
            except AnalysisBroken as e:
                verdict, why = "broken", c + " " + str(e)[:100]
            except Exception as e:
                verdict, why = "broken", c + " EXC " + repr(e)[:100]
        st[verdict] += 1
        log.write("%-9s %s:%d [%s] %s | %s\n" % (verdict, f, line, op, orig[:110], why))
        log.flush()
    finally:
        open(p, "w").write(keep)
log.write(str(st) + "\n")
shutil.rmtree(R, ignore_errors=True)
