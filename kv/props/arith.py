"""C14: no constant expression can make the compiler trap."""
from .. import ir, norm
from ..core import Result

SCOPE = ("source/ast/", "source/ast-translator/", "source/preprocessor/", "source/lexer/", "source/parser/")
MIN = {64: -(1 << 63), 32: -(1 << 31), 16: -(1 << 15), 8: -128}


def nonzero(facts, x):
    for f in facts:
        if f[0] == "in" and f[1] == x and 0 not in f[2]:
            return True
        if f[0] == "notin" and f[1] == x and 0 in f[2]:
            return True
        if len(f) == 3 and f[0] in ("ne", "ugt", "sgt", "slt", "uge", "sge", "sle", "eq"):
            p, a, b = f
            if a == x and isinstance(b, int):
                if (p == "ne" and b == 0) or (p == "ugt" and b >= 0) or (p == "sgt" and b >= 0) or (p == "slt" and b <= 0) \
                        or (p == "uge" and b >= 1) or (p == "sge" and b >= 1) or (p == "sle" and b <= -1) or (p == "eq" and b != 0):
                    return True
    return False


def nooverflow(facts, x, y, bits):
    m = MIN[bits]
    for f in facts:
        if len(f) != 3:
            continue
        p, a, b = f
        if not isinstance(b, int):
            if p == "in" and a == y and -1 not in b:
                return True
            if p == "in" and a == x and m not in b:
                return True
            if p == "notin" and ((a == y and -1 in b) or (a == x and m in b)):
                return True
            continue
        if a == y:
            if (p == "ne" and b == -1) or (p == "sgt" and b >= -1) or (p == "sge" and b >= 0) or (p == "eq" and b != -1) \
                    or (p == "slt" and b <= -1) or (p == "sle" and b < -1):
                return True
            if p in ("ult", "ule") and 0 <= b < (1 << 62):
                return True
        if a == x:
            if (p == "ne" and b == m) or (p == "sgt" and b >= m) or (p == "sge" and b > m) or (p == "eq" and b != m):
                return True
            if p in ("ult", "ule") and 0 <= b < (1 << 62):
                return True
    return False


def check_unit(prog, r, only=None):
    for f in prog.funcs.values():
        cfg = None
        for i in f.instrs():
            if i.op not in ("sdiv", "udiv", "srem", "urem"):
                continue
            r.count("divisions")
            x, y = i.args
            if cfg is None:
                cfg = norm.Cfg(f)
            bits = int(i.ty[1:])
            if isinstance(y, int):
                r.count("constant_divisors")
                continue
            # strip width changes: facts may be about the narrower value
            ys, k = [y], 0
            d = cfg.defs.get(y)
            while d is not None and d.op in ("zext", "sext") and k < 4:
                ys.append(d.args[0])
                d = cfg.defs.get(d.args[0])
                k += 1
            w = cfg.guarded(i, ys, lambda fs: any(nonzero(fs, v) for v in ys))
            r.count("guard_obligations")
            if w is not True:
                r.find("div-zero", prog.where(i), "the divisor of this %s is not known to be non-zero on every path (e.g. via blocks %s)"
                       % (i.op, " <- ".join(w[:6])), f.name, "div-zero|%s|%s|%s" % (f.file, f.name, i.op))
            if i.op in ("sdiv", "srem"):
                dx = cfg.defs.get(x)
                if dx is not None and dx.op in ("zext", "sext"):
                    continue
                if isinstance(x, int) and x != MIN.get(bits):
                    continue
                r.count("overflow_obligations")
                w = cfg.guarded(i, [x] + ys, lambda fs: nooverflow(fs, x, y, bits))
                if w is not True:
                    r.find("div-overflow", prog.where(i), "the most negative value divided by -1 is not excluded for this %s (e.g. via "
                           "blocks %s)" % (i.op, " <- ".join(w[:6])), f.name, "div-overflow|%s|%s|%s" % (f.file, f.name, i.op))


def c14(tier):
    r = Result()
    r.rules = ["div-zero: every integer division or remainder with a variable divisor in the front end lies behind a test "
               "that excludes zero, on every path", "div-overflow: every signed one lies behind a test that excludes "
               "(most negative value) / -1"]
    p0 = ir.load_program()
    units = set()
    for f in p0.funcs.values():
        for i in f.instrs():
            if i.op in ("sdiv", "udiv", "srem", "urem") and not isinstance(i.args[1], int):
                if f.unit.startswith(SCOPE):
                    units.add(f.unit)
                else:
                    r.count("divisions_by_layout_quantities_assumed_nonzero")
                    r.samples.append("assumed: %s %s" % (p0.where(i), f.name))
    r.assume = ["divisors outside the front end (alignments, element sizes, block sizes computed by kefir itself) are "
                "non-zero by construction; they are listed in the samples"]
    if units:
        check_unit(norm.load(sorted(units)), r)
    r.need("guard_obligations", 1)
    return r
