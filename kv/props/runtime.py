"""C08: every runtime routine computes the operation its IR opcode stands for (bit-provenance abstract interpretation)."""
import os
from .. import ir, x86, absint
from ..core import Result
from ..x86 import op, cond, mk, bits, band, bor, bxor, bnot, addv, M64

SRC = "source/runtime/amd64_sysv.s"


def S(k):
    return ("ld", "S", 8 * k, 8)


def F(k):
    return ("ld", "S", 8 * k, 4)


def L(k):
    return ("ld", "S", 8 * k, 10)


ARG = ("ld", "P", 8, 8)


def bit1(c):
    return mk((c,) + (0,) * 63)


def bw(f, a, b):
    return mk(tuple(f(p, q) for p, q in zip(bits(a, 64), bits(b, 64))))


def sext(a, n):
    b = bits(a, n)
    return mk(b + (b[-1],) * (64 - n))


def shrodd(v):
    b = bits(v, 64)
    return mk((bor(b[0], b[1]),) + b[2:] + (0,))


# results: list of pushed values, top of stack first; ("lo32", v) leaves the upper half of the slot free;
# ("ld80", v) is a long double occupying two slots with six unused bytes
def oracle():
    o = {}

    def d(name, pops, pushes, **kw):
        o[name] = dict(pops=pops, pushes=pushes, **kw)
    d("NOP", 0, [])
    d("PUSHI64", 0, [ARG])
    d("POP", 1, [])
    for n, f in (("IADD", "add"), ("IMUL", "mul")):
        d(n, 2, [op(f, 64, S(1), S(0))])
    d("IADD1", 1, [addv(S(0), ARG)])
    d("ISUB", 2, [("sub", 64, S(1), S(0))])
    d("IDIV", 2, [("sdiv", 64, S(1), S(0))])
    d("IMOD", 2, [("srem", 64, S(1), S(0))])
    d("UDIV", 2, [("udiv", 64, S(1), S(0))])
    d("UMOD", 2, [("urem", 64, S(1), S(0))])
    d("INEG", 1, [("neg", 64, S(0))])
    d("INOT", 1, [mk(tuple(bnot(b) for b in bits(S(0), 64)))])
    d("IAND", 2, [bw(band, S(1), S(0))])
    d("IOR", 2, [bw(bor, S(1), S(0))])
    d("IXOR", 2, [bw(bxor, S(1), S(0))])
    d("ILSHIFT", 2, [("shl", 64, S(1), S(0))])
    d("IRSHIFT", 2, [("shr", 64, S(1), S(0))])
    d("IARSHIFT", 2, [("sar", 64, S(1), S(0))])
    d("IEQUALS", 2, [bit1(cond("eq", 64, S(1), S(0)))])
    d("IGREATER", 2, [bit1(cond("sgt", 64, S(1), S(0)))])
    d("ILESSER", 2, [bit1(cond("slt", 64, S(1), S(0)))])
    d("IABOVE", 2, [bit1(cond("ugt", 64, S(1), S(0)))])
    d("IBELOW", 2, [bit1(cond("ult", 64, S(1), S(0)))])
    # logical operations act on truth values (0 or 1)
    t0, t1 = ("b", ((("byte", "S", 0), 0),) + (0,) * 63), ("b", ((("byte", "S", 8), 0),) + (0,) * 63)
    d("BAND", 2, [bit1(band(bits(t0)[0], bits(t1)[0]))], truth=2)
    d("BOR", 2, [bit1(bor(bits(t0)[0], bits(t1)[0]))], truth=2)
    d("BNOT", 1, [bit1(cond("eq", 64, S(0), 0))])
    d("TRUNCATE1", 1, [bit1(cond("ne", 64, S(0), 0))])
    for n in (8, 16, 32):
        d("EXTEND%d" % n, 1, [sext(S(0), n)])
    d("OFFSETPTR", 1, [addv(S(0), ARG)])
    d("ELEMENTPTR", 2, [op("add", 64, S(1), op("mul", 64, S(0), ARG))])
    for n in (8, 16, 24, 32, 40, 48, 56):
        d("LOAD%dU" % n, 1, [mk(tuple((("byte", S(0), k // 8), k % 8) for k in range(n)) + (0,) * (64 - n))])
        if n in (8, 16, 32):
            d("LOAD%dI" % n, 1, [sext(("b", tuple((("byte", S(0), k // 8), k % 8) for k in range(n))), n)])
        d("STORE%d" % n, 2, [], writes={(S(1), k): tuple((("byte", "S", k), j) for j in range(8)) for k in range(n // 8)})
    d("LOAD64", 1, [("ld", S(0), 0, 8)])
    d("STORE64", 2, [], writes={(S(1), k): tuple((("byte", "S", k), j) for j in range(8)) for k in range(8)})
    d("LOADLD", 1, [("ld", S(0), 0, 8), ("ld", S(0), 8, 8)])
    d("STORELD", 3, [], writes={(S(2), k): tuple((("byte", "S", k), j) for j in range(8)) for k in range(10)},
      maywrite={(S(2), k) for k in range(16)})
    d("GETLOCALS", 0, [op("add", 64, ("ptr", "B", 0), ARG)])
    for p, w, V in (("F32", 32, F), ("F64", 64, S)):
        R = (lambda v: ("lo32", v)) if w == 32 else (lambda v: v)
        for n, f in (("ADD", "fadd"), ("SUB", "fsub"), ("MUL", "fmul"), ("DIV", "fdiv")):
            d(p + n, 2, [R(op(f, w, V(1), V(0)))])
        d(p + "NEG", 1, [R(mk(bits(V(0), w)[:w - 1] + (bnot(bits(V(0), w)[w - 1]),)))])
        d(p + "EQUALS", 2, [bit1(cond("oeq", w, V(1), V(0)))])
        d(p + "GREATER", 2, [bit1(cond("ogt", w, V(1), V(0)))])
        d(p + "LESSER", 2, [bit1(cond("olt", w, V(1), V(0)))])
        d(p + "CINT", 1, [("fptosi", 64, w, V(0), "trunc")])
        d("INTC" + p, 1, [R(("sitofp", w, 64, S(0)))])
        neg = cond("slt", 64, S(0), 0)
        h = ("sitofp", w, 64, shrodd(S(0)))
        d("UINTC" + p, 1, [("case", neg, R(op("fadd", w, h, h)), R(("sitofp", w, 64, S(0))))])
    d("F32CF64", 1, [("fpext", 64, 32, F(0))])
    d("F64CF32", 1, [("lo32", ("fptrunc", 32, 64, S(0)))])
    X = lambda v: ("ld80", v)
    for n, f in (("ADD", "fadd"), ("SUB", "fsub"), ("MUL", "fmul"), ("DIV", "fdiv")):
        d("LD" + n, 4, [X(op(f, 80, L(2), L(0)))])
    d("LDNEG", 2, [X(("fneg", 80, L(0)))])
    d("LDEQUALS", 4, [bit1(cond("oeq", 80, L(2), L(0)))])
    d("LDGREATER", 4, [bit1(cond("ogt", 80, L(2), L(0)))])
    d("LDLESSER", 4, [bit1(cond("olt", 80, L(2), L(0)))])
    d("LDTRUNC1", 2, [bit1(cond("une", 80, L(0), ("f80const", 80, 0)))])
    d("LDCINT", 2, [("fptosi", 64, 80, L(0), "trunc")])
    d("INTCLD", 1, [X(("sitofp", 80, 64, S(0)))])
    d("UINTCLD", 1, [("case", cond("slt", 64, S(0), 0), X(op("fadd", 80, ("sitofp", 80, 64, S(0)), ("fpext", 80, 32, 0x5F800000))),
                     X(("sitofp", 80, 64, S(0))))])
    d("F32CLD", 1, [X(("fpext", 80, 32, F(0)))])
    d("F64CLD", 1, [X(("fpext", 80, 64, S(0)))])
    d("LDCF32", 2, [("lo32", ("fptrunc", 32, 80, L(0)))])
    d("LDCF64", 2, [("fptrunc", 64, 80, L(0))])
    return o


def instances():
    """opcodes whose operand selects stack positions, bit ranges or sizes: all operand values in the given range"""
    for k in range(0, 12):
        yield "PICK", dict(arg=k), dict(pops=0, pushes=[S(k)])
        if k >= 1:
            yield "XCHG", dict(arg=k), dict(pops=k + 1, pushes=[S(k)] + [S(j) for j in range(1, k)] + [S(0)])
        else:
            yield "XCHG", dict(arg=0), dict(pops=0, pushes=[])
        if k >= 1:
            yield "PUT", dict(arg=k), dict(pops=k + 1, pushes=[S(j) for j in range(1, k)] + [S(0)])
        yield "DROP", dict(arg=k), dict(pops=k + 1, pushes=[S(j) for j in range(0, k)])
    for n in list(range(0, 20)) + [33, 64]:
        yield "BZERO", dict(arg=n), dict(pops=1, pushes=[], writes={(S(0), k): (0,) * 8 for k in range(n)})
        yield "BCOPY", dict(arg=n), dict(pops=2, pushes=[], writes={(S(1), k): tuple((("byte", S(0), k), j) for j in range(8)) for k in range(n)})
    for off in range(0, 64):
        for w in range(1, 65 - off):
            b = bits(S(0), 64)[off:off + w]
            yield "EXTUBITS", dict(arg32=(off, w)), dict(pops=1, pushes=[mk(b + (0,) * (64 - w))])
            yield "EXTSBITS", dict(arg32=(off, w)), dict(pops=1, pushes=[mk(b + (b[-1],) * (64 - w))])
            f = bits(S(1), 64)
            yield "INSERTBITS", dict(arg32=(off, w)), dict(pops=2, pushes=[mk(f[:off] + bits(S(0), 64)[:w] + f[off + w:])])


def init(st, arg=None, arg32=None, truth=0):
    if arg is not None:
        for k in range(8):
            st.mem[("P", 8 + k)] = tuple((arg >> (8 * k + j)) & 1 for j in range(8))
    if arg32 is not None:
        for p, a in enumerate(arg32):
            for k in range(4):
                st.mem[("P", 8 + 4 * p + k)] = tuple((a >> (8 * k + j)) & 1 for j in range(8))
    for s in range(truth):
        for k in range(8):
            st.mem[("S", 8 * s + k)] = tuple(((("byte", "S", 8 * s), 0) if (k, j) == (0, 0) else 0) for j in range(8))


def expand(pushes, path):
    """pushed values -> list of (bits, care) per slot, top first"""
    out = []
    for v in pushes:
        if v[0:1] == ("case",) if isinstance(v, tuple) else False:
            taken = [t for c, t in path if c == v[1]] or [1 - t for c, t in path if c == bnot(v[1])]
            if not taken:
                # result does not depend on a test: must then hold for both
                return None
            v = v[2] if taken[0] else v[3]
        if isinstance(v, tuple) and v[0] == "lo32":
            out.append((bits(v[1], 32), 32))
        elif isinstance(v, tuple) and v[0] == "ld80":
            b = bits(v[1], 80)
            out.append((b[:64], 64))
            out.append((b[64:], 16))
        else:
            out.append((bits(v, 64), 64))
    return out


def show(b):
    return str(mk(tuple(b)))[:160]


def judge(spec, outs):
    """yields (line, message)"""
    for kind, st, line in outs:
        if kind[0] != "jmpmem" or kind[1] != ("ptr", "P", 16) or st.r["rbx"] != ("ptr", "P", 16):
            yield line, "does not continue with the next instruction of the program"
            continue
        want = expand(spec["pushes"], st.path)
        if want is None:
            yield line, "does not distinguish operands with the top bit set"
            continue
        top = 8 * spec["pops"] - 8 * len(want)
        if st.r["rsp"] != ("ptr", "S", top):
            r = st.r["rsp"]
            yield line, "leaves the operand stack at %s instead of %+d bytes" % ("%+d bytes" % r[2] if isinstance(r, tuple) and r[0] == "ptr" and r[1] == "S" else "an unknown position", top)
            continue
        for k, (b, care) in enumerate(want):
            got = st.load(("ptr", "S", top + 8 * k), 64)
            if tuple(got[:care]) != tuple(b[:care]):
                # equal up to canonical form?
                if x86.mk(tuple(got[:care])) != x86.mk(tuple(b[:care])):
                    yield line, "result slot %d is %s, not %s" % (k, show(got[:care]), show(b[:care]))
        w = spec.get("writes", {})
        may = spec.get("maywrite", set())
        for (base, off), b in st.written.items():
            if base == "S":
                if off >= 8 * spec["pops"] and st.load(("ptr", "S", off), 8) != tuple((("byte", "S", off), j) for j in range(8)):
                    yield line, "changes operand stack entries it does not own (offset %d)" % off
                continue
            if (base, off) in w:
                continue
            if (base, off) in may:
                continue
            yield line, "writes to %s%+d, outside the operands of the operation" % (base, off)
        for (base, off), b in w.items():
            if st.load(("ptr", base, off), 8) != b:
                yield line, "byte %d of the destination is %s, not %s" % (off, show(st.load(("ptr", base, off), 8)), show(b))
        for r in ("r14", "r15", "rbp"):
            if st.r[r] != (("ptr", "B", 0) if r == "r14" else ("init_" + r, 64)):
                yield line, "does not preserve %s" % r
        if st.fp:
            yield line, "leaves %d values on the floating point register stack" % len(st.fp)
        if st.cw != ("ld", "CW", 0, 2) or st.mxcsr != ("ld", "MXCSR", 0, 4):
            yield line, "changes the floating point control word"
        if st.df:
            yield line, "leaves the direction flag set"


def handler_table(prog, it):
    """opcode value -> (runtime symbol, place) from the code generator's table, found by its shape"""
    out = {}
    for gk, g in prog.globals.items():
        if not g.get("unit", "").startswith("source/codegen/") or not g.get("init"):
            continue
        t = it.flat(gk)
        offs = [o for o in t if isinstance(o, int)]
        names = {o: it.string(t[o]) for o in offs if isinstance(t[o], tuple)}
        names = {o: s for o, s in names.items() if s and s.startswith("__kefirrt_") and s.endswith("_impl")}
        if len(names) < 20:
            continue
        for o, s in names.items():
            if isinstance(t.get(o - 8), int):
                out.setdefault(t[o - 8], (s, "%s:%d" % (g["file"], g["line"])))
    return out


def opcodes(prog):
    """opcode name -> value"""
    for k, v in prog.enums.items():
        if any(n.startswith("KEFIR_IROPCODE_") for n in v):
            return {n[len("KEFIR_IROPCODE_"):]: x for n, x in v.items()}
    raise ir.AnalysisBroken("IR opcode enumeration not found")


def c08(tier):
    res = Result()
    res.rules.append("each runtime routine, interpreted over bit provenance, pops its operands, pushes exactly the bits of the "
                     "IR operation's result, writes only its destination, preserves the interpreter state and continues at the next instruction")
    prog = ir.load_program(only=lambda s: s.startswith("source/codegen/amd64/"))
    it = absint.Interp(prog)
    tab = handler_table(prog, it)
    if len(tab) < 50:
        raise ir.AnalysisBroken("opcode handler table not found in the code generator")
    ops = opcodes(prog)
    lst = x86.Listing(os.path.join(ir.REPO, SRC))
    spec = oracle()
    work = [(n, {k: v for k, v in s.items() if k == "truth"}, s) for n, s in spec.items()] + list(instances())
    res.samples.append("IDIV: pops 2, pushes sdiv(second, top); continues at program+16")
    bad = {}
    seen = set()
    for name, ini, s in work:
        if name not in ops:
            res.find("opcode-missing", "headers/kefir/ir/opcodes.h:1", "IR operation %s no longer exists" % name, ident="missing|" + name)
            continue
        h = tab.get(ops[name])
        if h is None:
            if name not in seen:
                seen.add(name)
                res.find("no-handler", "source/codegen/amd64/opcodes.c:1", "IR operation %s has no runtime routine" % name, ident="nohandler|" + name)
            continue
        if h[0] not in lst.sym:
            if name not in seen:
                seen.add(name)
                res.find("no-routine", h[1], "%s: routine %s is not defined by the runtime" % (name, h[0]), ident="noroutine|" + name)
            continue
        if name not in seen:
            seen.add(name)
            res.count("routines")
        res.count("instances")
        st = x86.St()
        init(st, **ini)
        m = x86.Machine(lst, 20000)
        try:
            outs = m.run(lst.sym[h[0]], st)
        except x86.Unsupported as e:
            if name not in bad:
                bad[name] = 1
                res.find("unsupported", SRC + ":0", "%s (%s): cannot be interpreted: %s" % (name, h[0], e), func=h[0], ident="unsup|" + name)
            continue
        res.count("paths", len(outs))
        for line, msg in judge(s, outs):
            bad[name] = bad.get(name, 0) + 1
            if bad[name] <= 2:
                a = "".join(" [operand %s]" % (v,) for k, v in ini.items() if k != "truth")
                res.find("runtime-semantics", "%s:%d" % (SRC, line), "%s%s: %s" % (name, a, msg), func=h[0], ident="sem|" + name)
    res.count("interpreted instructions", 0)
    # control transfer
    control(res, lst, tab, ops)
    scopes(res, lst, tab, ops)
    helpers(res, lst)
    res.need("routines", 60)
    res.assume.append("GNU as / objdump decode the assembly source faithfully; IEEE operations of the CPU are the operations of the C types")
    return res


def entry(res, lst, tab, ops, name):
    h = tab.get(ops.get(name))
    if h is None or h[0] not in lst.sym:
        res.find("no-handler", "source/codegen/amd64/opcodes.c:1", "IR operation %s has no runtime routine" % name, ident="nohandler|" + name)
        return None, None
    res.count("routines")
    return h[0], lst.sym[h[0]]


def control(res, lst, tab, ops):
    def run(name, st):
        n, a = entry(res, lst, tab, ops, name)
        if a is None:
            return []
        try:
            return x86.Machine(lst).run(a, st)
        except x86.Unsupported as e:
            res.find("unsupported", SRC + ":0", "%s: cannot be interpreted: %s" % (name, e), ident="unsup|" + name)
            return []

    def bad(name, line, msg):
        res.find("runtime-control", "%s:%d" % (SRC, line), "%s: %s" % (name, msg), ident="sem|" + name)
    for k, st, line in run("JMP", x86.St()):
        res.count("paths")
        if k != ("jmpmem", ARG) or st.r["rbx"] != ARG or st.r["rsp"] != ("ptr", "S", 0) or st.written or st.r["r14"] != ("ptr", "B", 0):
            bad("JMP", line, "does not continue exactly at the jump target")
    for k, st, line in run("IJMP", x86.St()):
        res.count("paths")
        if k != ("jmpmem", S(0)) or st.r["rbx"] != S(0) or st.r["rsp"] != ("ptr", "S", 8) or st.written or st.r["r14"] != ("ptr", "B", 0):
            bad("IJMP", line, "does not continue exactly at the popped target")
    c = cond("ne", 64, S(0), 0)
    got = set()
    for k, st, line in run("BRANCH", x86.St()):
        res.count("paths")
        t = [v for cc, v in st.path if cc == c] or [1 - v for cc, v in st.path if cc == bnot(c)]
        if len(st.path) != 1 or not t or st.r["rsp"] != ("ptr", "S", 8) or st.written or st.r["r14"] != ("ptr", "B", 0):
            bad("BRANCH", line, "does not pop and test exactly the whole top of the stack")
            continue
        got.add(t[0])
        tgt = ARG if t[0] else ("ptr", "P", 16)
        if k != ("jmpmem", tgt) or st.r["rbx"] != tgt:
            bad("BRANCH", line, "continues at the wrong place when the value is %s" % ("non-zero" if t[0] else "zero"))
    if got and got != {0, 1}:
        bad("BRANCH", 0, "is not conditional")


def put64(st, base, off, v):
    st.store(("ptr", base, off), bits(v, 64))


def scopes(res, lst, tab, ops):
    """ALLOCA / PUSHSCOPE / POPSCOPE: frame[-8] is the dynamic stack base, frame[-16] the scope start"""
    n, a = entry(res, lst, tab, ops, "ALLOCA")

    def fail(name, line, msg):
        if not any(f.ident == "sem|" + name for f in res.findings):
            res.find("runtime-scope", "%s:%d" % (SRC, line), "%s: %s" % (name, msg), ident="sem|" + name)
    if a is not None:
        for depth in (2, 3, 5):
            for size in (0, 1, 8, 17, 40):
                for al in (0, 1, 8, 16, 32):
                    for reset in (0, 1):
                        st = x86.St()
                        init(st, arg=reset)
                        put64(st, "B", -8, ("ptr", "S", 8 * depth))
                        put64(st, "S", 0, al)
                        put64(st, "S", 8, size)
                        st.written = {}
                        res.count("instances")
                        try:
                            outs = x86.Machine(lst, 20000).run(a, st)
                        except x86.Unsupported as e:
                            fail("ALLOCA", 0, "cannot be interpreted: %s" % e)
                            continue
                        for k, s, line in outs:
                            res.count("paths")
                            sp = s.r["rsp"]
                            if k != ("jmpmem", ("ptr", "P", 16)) or s.r["rbx"] != ("ptr", "P", 16):
                                fail("ALLOCA", line, "does not continue with the next instruction")
                                continue
                            if sp[0] != "ptr" or sp[1] != "S":
                                fail("ALLOCA", line, "loses the stack pointer")
                                continue
                            p = mk(s.load(sp, 64))
                            nb = mk(s.load(("ptr", "B", -8), 64))
                            if p != nb or not isinstance(p, tuple) or p[0] != "ptr":
                                fail("ALLOCA", line, "pushed pointer is not the new dynamic stack base")
                                continue
                            if p[2] + size > 8 * depth:
                                fail("ALLOCA", line, "block of %d bytes does not fit between new and old base" % size)
                            if p[2] % 8 or (al and p[2] % al):
                                fail("ALLOCA", line, "block not aligned to %d" % max(al, 8))
                            if sp[2] != p[2] - 8 * (depth - 2) - 8:
                                fail("ALLOCA", line, "operand stack depth changed")
                            for j in range(depth - 2):
                                if mk(s.load(("ptr", "S", sp[2] + 8 + 8 * j), 64)) != S(2 + j):
                                    fail("ALLOCA", line, "operands below are not preserved")
                            m16 = mk(s.load(("ptr", "B", -16), 64))
                            if m16 != (0 if reset else ("ld", "B", -16, 8)):
                                fail("ALLOCA", line, "scope start is %s" % ("not reset" if reset else "changed"))
                            if s.df or s.r["r14"] != ("ptr", "B", 0):
                                fail("ALLOCA", line, "interpreter state not preserved")
    n, a = entry(res, lst, tab, ops, "PUSHSCOPE")
    if a is not None:
        st = x86.St()
        for k, s, line in x86.Machine(lst).run(a, st):
            res.count("paths")
            if k != ("jmpmem", ("ptr", "P", 16)) or s.r["rsp"] != ("ptr", "S", -8) or mk(s.load(("ptr", "S", -8), 64)) != ("ld", "B", -16, 8) \
                    or mk(s.load(("ptr", "B", -16), 64)) != ("ld", "B", -8, 8) or s.r["r14"] != ("ptr", "B", 0) \
                    or mk(s.load(("ptr", "B", -8), 64)) != ("ld", "B", -8, 8):
                fail("PUSHSCOPE", line, "does not save the enclosing scope start and open a scope at the current base")
    n, a = entry(res, lst, tab, ops, "POPSCOPE")
    if a is not None:
        for depth in (1, 2, 4):
            for up in (0, 8, 32):
                st = x86.St()
                put64(st, "B", -8, ("ptr", "S", 8 * depth))
                put64(st, "B", -16, ("ptr", "S", 8 * depth + up))
                st.written = {}
                res.count("instances")
                try:
                    outs = x86.Machine(lst, 20000).run(a, st)
                except x86.Unsupported as e:
                    fail("POPSCOPE", 0, "cannot be interpreted: %s" % e)
                    continue
                for k, s, line in outs:
                    if any(c == bnot(cond("ne", 64, ("ptr", "S", 8 * depth + up), 0)) and t for c, t in s.path) or \
                            any(c == cond("ne", 64, ("ptr", "S", 8 * depth + up), 0) and not t for c, t in s.path):
                        continue      # scope start known to be set
                    res.count("paths")
                    if k != ("jmpmem", ("ptr", "P", 16)) or s.r["rbx"] != ("ptr", "P", 16) or s.df or s.r["r14"] != ("ptr", "B", 0):
                        fail("POPSCOPE", line, "does not continue with the interpreter state preserved")
                    sp = s.r["rsp"]
                    if sp != ("ptr", "S", 8 + up):
                        fail("POPSCOPE", line, "operand stack ends at the wrong place")
                        continue
                    for j in range(depth - 1):
                        if mk(s.load(("ptr", "S", sp[2] + 8 * j), 64)) != S(1 + j):
                            fail("POPSCOPE", line, "operands are not preserved")
                    if mk(s.load(("ptr", "B", -8), 64)) != ("ptr", "S", 8 * depth + up):
                        fail("POPSCOPE", line, "dynamic stack base not restored")
                    if mk(s.load(("ptr", "B", -16), 64)) != S(0):
                        fail("POPSCOPE", line, "enclosing scope start not restored")


def helpers(res, lst):
    """entry/exit sequence of compiled functions: callee-saved registers and control words come back as they were"""
    def fail(name, line, msg):
        res.find("runtime-helper", "%s:%d" % (SRC, line), "%s: %s" % (name, msg), func=name, ident="helper|" + name)

    def get(n):
        if n not in lst.sym:
            return None
        return lst.sym[n]
    p, r = get("__kefirrt_preserve_state"), get("__kefirrt_restore_state")
    if p is not None and r is not None:
        st = x86.St()
        for q in ("rbx", "r14", "rsp"):
            st.r[q] = ("init_" + q, 64) if q != "rsp" else ("ptr", "S", 0)
        for k, s, line in x86.Machine(lst).run(p, st):
            res.count("paths")
            if k != ("jmpreg", S(0)):
                fail("__kefirrt_preserve_state", line, "does not return to its caller")
                continue
            depth = s.r["rsp"]
            s2 = s.copy()
            for q in x86.R64:
                if q not in ("rsp",):
                    s2.r[q] = ("clobber_" + q, 64)
            s2.cw, s2.mxcsr = ("ld", "X", 0, 2), ("ld", "X", 8, 4)
            s2.written = {}
            for k2, t, line in x86.Machine(lst).run(r, s2):
                res.count("paths")
                if k2 != ("ret",) or t.r["rsp"] != ("ptr", "S", 8):
                    fail("__kefirrt_restore_state", line, "does not return with the stack balanced")
                for q in ("rbx", "rbp", "r12", "r13", "r14", "r15"):
                    if t.r[q] != ("init_" + q, 64):
                        fail("__kefirrt_restore_state", line, "callee-saved register %s is not restored" % q)
                if t.cw != ("ld", "CW", 0, 2):
                    fail("__kefirrt_restore_state", line, "x87 control word is not restored")
                if t.mxcsr != ("ld", "MXCSR", 0, 4):
                    fail("__kefirrt_restore_state", line, "MXCSR is not restored")
            res.count("routines", 2)
    g = get("__kefirrt_generic_prologue")
    if g is not None:
        st = x86.St()
        for k, s, line in x86.Machine(lst).run(g, st):
            res.count("paths")
            b = s.r["r14"]
            if k != ("jmpreg", S(0)) or b != ("ptr", "S", 8) or s.r["rsp"] != ("ptr", "S", -8) \
                    or mk(s.load(("ptr", "S", 0), 64)) != ("ptr", "S", -8) or mk(s.load(("ptr", "S", -8), 64)) != 0 \
                    or s.r["rbx"] != ("ptr", "P", 0):
                fail("__kefirrt_generic_prologue", line, "does not set up the frame: locals base, dynamic stack base and empty scope start")
        res.count("routines")
    sv = get("__kefirrt_save_registers")
    if sv is not None:
        for k, s, line in x86.Machine(lst).run(sv, x86.St()):
            res.count("paths")
            base = ("init_r12", 64)
            for j, q in enumerate(("rdi", "rsi", "rdx", "rcx", "r8", "r9")):
                if mk(s.load(base, 64)) is None or mk(s.load(addv(base, 8 * j), 64)) != ("init_" + q, 64):
                    fail("__kefirrt_save_registers", line, "integer argument register %s is not saved at %d" % (q, 8 * j))
            al0 = any((t == 1) == (c[0][2] == "eq") for c, t in s.path if isinstance(c, tuple) and c[0][0] == "cond")
            for j in range(8):
                got = mk(s.load(addv(base, 48 + 16 * j), 128))
                if not al0 and got != ("init_xmm%d" % j, 128):
                    fail("__kefirrt_save_registers", line, "vector argument register %d is not saved at %d" % (j, 48 + 16 * j))
            if k != ("ret",) or s.r["rsp"] != ("ptr", "S", 0):
                fail("__kefirrt_save_registers", line, "does not return to its caller")
        res.count("routines")
    cv = get("__kefirrt_copy_vararg")
    if cv is not None:
        for k, s, line in x86.Machine(lst).run(cv, x86.St()):
            res.count("paths")
            for j in range(24):
                if s.load(("ptr", S(1), j), 8) != tuple((("byte", S(0), j), i) for i in range(8)):
                    fail("__kefirrt_copy_vararg", line, "argument list state is not copied from source to target")
                    break
            if k != ("jmpmem", ("ptr", "P", 16)) or s.r["rsp"] != ("ptr", "S", 16) or len([1 for (b, o) in s.written if b == S(1)]) != 24:
                fail("__kefirrt_copy_vararg", line, "copies more than the state or does not continue")
        res.count("routines")
    for name, off, lim, inc in (("__kefirrt_load_integer_vararg", 0, 48, 8), ("__kefirrt_load_sse_vararg", 4, 176, 16)):
        a = get(name)
        if a is None:
            continue
        A = ("init_r12", 64)
        for cur in list(range(0 if off == 0 else 48, lim, inc)) + [lim]:
            st = x86.St()
            st.store(addv(A, off), bits(cur, 32))
            st.written = {}
            for k, s, line in x86.Machine(lst).run(a, st):
                res.count("paths")
                res.count("instances")
                area, ovf = ("ld", A, 16, 8), ("ld", A, 8, 8)
                src = (area if cur == 0 else ("add", 64, area, cur)) if cur < lim else ovf
                n = 64
                got = s.r["r13"] if off == 0 else mk(bits(s.x.get("xmm0", 0), 128)[:64])
                want = mk(st0_load(src, 64))
                if got != want:
                    fail(name, line, "argument number at offset %d is fetched from the wrong place" % cur)
                if cur < lim:
                    if mk(s.load(addv(A, off), 32)) != cur + inc:
                        fail(name, line, "register save area offset is not advanced by %d" % inc)
                    if any((A, 8 + j) in s.written for j in range(8)):
                        fail(name, line, "overflow area pointer changed while registers remain")
                else:
                    if mk(s.load(addv(A, 8), 64)) != ("add", 64, ovf, 8):
                        fail(name, line, "overflow area pointer is not advanced by 8")
                    if any((A, off + j) in s.written for j in range(4)):
                        fail(name, line, "register save area offset changed")
                if k != ("ret",) or s.r["rsp"] != ("ptr", "S", 0):
                    fail(name, line, "does not return to its caller")
        res.count("routines")
    a = get("__kefirrt_load_long_double_vararg")
    if a is not None:
        for k, s, line in x86.Machine(lst).run(a, x86.St()):
            res.count("paths")
            A = S(0)
            o = ("ld", A, 8, 8)
            if mk(s.load(("ptr", "S", -8), 64)) != ("ld", o, 0, 8) or mk(s.load(("ptr", "S", 0), 64)) != ("ld", o, 8, 8) \
                    or s.r["rsp"] != ("ptr", "S", -8) or mk(s.load(addv(A, 8), 64)) != ("add", 64, o, 16) or k != ("jmpmem", ("ptr", "P", 16)):
                fail("__kefirrt_load_long_double_vararg", line, "does not fetch the next long double from the overflow area")
        res.count("routines")


def st0_load(a, n):
    return x86.St().load(a, n)
