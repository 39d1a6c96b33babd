"""C13: constant folding computes the value C prescribes.  kefir's evaluator is interpreted over abstract operand values of every
type (its result is a term over the operand values); the terms are compared with the C17 meaning of the operator."""
import os, itertools
from fractions import Fraction as Fr
from .. import ir, sem, csem, absint
from ..core import Result
from ..ir import AnalysisBroken
from ..csem import *
from . import translate as T
from .translate import Opnd, cname, NB

VAL = "kefir_ast_constant_expression_value"
PREC = {"float": 24, "double": 53, "x86_fp80": 64, "ldouble": 64}
SIZES = {"bool": 1, "char": 1, "uchar": 1, "schar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "long": 8, "ulong": 8, "llong": 8, "ullong": 8,
         "float": 4, "double": 8, "ldouble": 16, "enum": 4}


class Poison(Exception):
    """the evaluator itself would execute undefined behaviour"""


class Unmodelled(Exception):
    pass


def rnd(x, p):
    """round a rational to p significant bits, to nearest even"""
    if x == 0:
        return x
    s, x = (-1, -x) if x < 0 else (1, x)
    e = x.numerator.bit_length() - x.denominator.bit_length()
    if Fr(2) ** e > x:
        e -= 1
    q = x / Fr(2) ** (e - p + 1)
    n, r = divmod(q.numerator, q.denominator)
    r2 = 2 * r - q.denominator
    if r2 > 0 or (r2 == 0 and n & 1):
        n += 1
    return s * n * Fr(2) ** (e - p + 1)


def wd(ty):
    if ty[0] == "i" and ty[1:].isdigit():
        return int(ty[1:])
    if ty == "ptr":
        return 64
    raise Unmodelled(ty)


def sg(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def ev(t, env):
    """value of an interpreter term under an assignment of the leaves: integers modulo 2^64, rationals for floating values"""
    if isinstance(t, bool):
        return int(t)
    if isinstance(t, int):
        return t & ((1 << 64) - 1)
    if not isinstance(t, tuple):
        raise Unmodelled(t)
    if t in env:
        return env[t]
    k = t[0]
    if k == "f":
        n = sem.fnum(t)
        if n is None:
            raise Unmodelled(t)
        return Fr(n)
    if k == "icmp":
        a, b = ev(t[2], env), ev(t[3], env)
        w = max(tw(t[2]), tw(t[3]))
        p = t[1]
        if p in ("eq", "ne"):
            m = (1 << w) - 1
            return int((a & m == b & m) == (p == "eq"))
        a, b = (sg(a, w), sg(b, w)) if p[0] == "s" else (a & ((1 << w) - 1), b & ((1 << w) - 1))
        return int({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p[1:]])
    if k == "fcmp":
        a, b = ev(t[3], env), ev(t[4], env)
        p = t[1]
        return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p[1:]])
    if k == "not":
        return 1 - (ev(t[1], env) & 1)
    if k in ("fadd", "fsub", "fmul", "fdiv"):
        a, b = Fr(ev(t[2], env)), Fr(ev(t[3], env))
        if k == "fdiv" and b == 0:
            raise Poison()
        return rnd({"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b}[k](), PREC[t[1]])
    if k == "fneg":
        return -Fr(ev(t[2], env))
    if k in ("sitofp", "uitofp"):
        v = ev(t[3], env)
        w = wd(t[1])
        return rnd(Fr(sg(v, w) if k == "sitofp" else v & ((1 << w) - 1)), PREC[t[2]])
    if k in ("fptosi", "fptoui"):
        v = ev(t[3], env)
        n = int(abs(v)) * (1 if v >= 0 else -1)
        w = wd(t[2])
        lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if k == "fptosi" else (0, 1 << w)
        if not lo <= n < hi:
            raise Poison()
        return n & ((1 << 64) - 1)
    if k in ("fpext", "fptrunc"):
        return rnd(Fr(ev(t[3], env)), PREC[t[2]])
    if k == "zext":
        return ev(t[3], env) & ((1 << wd(t[1])) - 1)
    if k == "sext":
        return sg(ev(t[3], env), wd(t[1])) & ((1 << 64) - 1)
    if k == "trunc":
        return ev(t[3], env) & ((1 << wd(t[2])) - 1)
    if k in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
        a, b = ev(t[2], env), ev(t[3], env)
        w = wd(t[1])
        m = (1 << w) - 1
        a, b = a & m, b & m
        if k in ("shl", "lshr", "ashr"):
            if b >= w:
                raise Poison()
            r = a << b if k == "shl" else a >> b if k == "lshr" else sg(a, w) >> b
        elif k in ("udiv", "urem"):
            if b == 0:
                raise Poison()
            r = a // b if k == "udiv" else a % b
        elif k in ("sdiv", "srem"):
            x, y = sg(a, w), sg(b, w)
            if y == 0 or (y == -1 and x == -(1 << (w - 1))):
                raise Poison()
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            r = q if k == "sdiv" else x - q * y
        else:
            r = {"add": a + b, "sub": a - b, "mul": a * b, "and": a & b, "or": a | b, "xor": a ^ b}[k]
        return r & m
    raise Unmodelled(t)


def tw(t):
    """width of the interpreter term (64 when unknown)"""
    if isinstance(t, tuple):
        if t[0] in ("trunc", "zext", "sext", "fptosi", "fptoui"):
            return wd(t[2])
        if t[0] in ("icmp", "fcmp", "not"):
            return 1
        if t[0] in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            return wd(t[1])
        return 64
    return 0


def consistent(st, env):
    """do the facts of the path hold under the assignment?"""
    for t, (kind, vals) in st.facts.items():
        if not mentions(t, env):
            continue
        try:
            v = ev(t, env)
        except Unmodelled:
            continue
        w = tw(t)
        vs = {x & ((1 << w) - 1) for x in vals if isinstance(x, int)}
        if not isinstance(v, int):
            continue
        if ((v & ((1 << w) - 1)) in vs) != (kind == "in"):
            return False
    return True


def mentions(t, env):
    if t in env:
        return True
    return isinstance(t, tuple) and any(mentions(x, env) for x in t if isinstance(x, tuple))


# ---------------------------------------------------------------- leaves
M64 = (1 << 64) - 1
INTS = [0, 1, -1, 2, -2, 3, 5, 7, -7, 31, 32, 33, 63, 64, 100, 127, 128, -128, 255, 256, 0x7fff, 0x8000, 0xffff, -32768, 0x7fffffff, 0x80000000,
        0xffffffff, -0x80000000, 1 << 32, 0x123456789, -0x123456789, (1 << 63) - 1, -(1 << 63), M64, 1 << 63, 0xdeadbeefcafebabe, -1000000007]
FLTS = [Fr(0), Fr(1), Fr(-1), Fr(1, 2), Fr(-5, 2), Fr(3), Fr(100), Fr(2) ** 33 + Fr(1, 4), Fr(3) * 2 ** 62, -Fr(2) ** 40, Fr(1) + Fr(1, 2 ** 30),
        Fr(1) + Fr(1, 2 ** 60), Fr(1, 3), Fr(255), Fr(-3, 4)]


def fits(t, v):
    if t == "bool":
        return v in (0, 1)
    w = csem.width(t)
    return (-(1 << (w - 1)) <= v < (1 << (w - 1))) if csem.signed(t) else 0 <= v < (1 << w)


def values(t):
    t = unq(t)
    if is_flt(t):
        out = []
        for f in FLTS:
            r = rnd(f, PREC[t])
            if r not in out:
                out.append(r)
        return out
    out = []
    for v in INTS:
        w = csem.width(t)
        v2 = v if fits(t, v) else (sg(v, w) if csem.signed(t) else v & ((1 << w) - 1)) if t != "bool" else v & 1
        if v2 not in out:
            out.append(v2)
    return out


# ---------------------------------------------------------------- the C meaning on values; None: undefined or not constant
def cconv(v, a, b):
    """value v of type a converted to type b"""
    if v is None:
        return None
    if b == "bool":
        return int(v != 0)
    if is_flt(b):
        return rnd(Fr(v), PREC[b])
    if is_flt(a):
        n = int(abs(v)) * (1 if v >= 0 else -1)
        return n if fits(b, n) else None
    if is_ptr(b):
        return v & M64
    w = csem.width(b)
    return sg(v, w) if csem.signed(b) else v & ((1 << w) - 1)


def in_type(t, v):
    if csem.signed(t):
        return v if fits(t, v) else None
    return v & ((1 << csem.width(t)) - 1)


def cbinary(op, ta, tb, x, y, fa=None, fb=None):
    """(set of acceptable values) or None"""
    if op in ("SHIFT_LEFT", "SHIFT_RIGHT"):
        t = csem.promote(ta, fa)
        x, y = cconv(x, ta, t), cconv(y, tb, csem.promote(tb, fb))
        if not 0 <= y < csem.width(t):
            return None
        if op == "SHIFT_LEFT":
            if csem.signed(t) and (x < 0 or not fits(t, x << y)):
                return None
            return {in_type(t, x << y)}
        return {x >> y}
    t = uac(ta, tb, fa, fb)
    x, y = cconv(x, ta, t), cconv(y, tb, t)
    if op in ("LESS", "LESS_EQUAL", "GREATER", "GREATER_EQUAL", "EQUAL", "NOT_EQUAL"):
        return {int({"LESS": x < y, "LESS_EQUAL": x <= y, "GREATER": x > y, "GREATER_EQUAL": x >= y, "EQUAL": x == y, "NOT_EQUAL": x != y}[op])}
    if is_flt(t):
        if op == "DIVIDE" and y == 0:
            return None
        r = {"ADD": lambda: x + y, "SUBTRACT": lambda: x - y, "MULTIPLY": lambda: x * y, "DIVIDE": lambda: x / y}[op]()
        return {rnd(r, p) for p in (24, 53, 64) if p >= PREC[t]}
    if op in ("DIVIDE", "MODULO"):
        if y == 0:
            return None
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        r = q if op == "DIVIDE" else x - q * y
        if csem.signed(t) and not fits(t, q):
            return None
    else:
        r = {"ADD": lambda: x + y, "SUBTRACT": lambda: x - y, "MULTIPLY": lambda: x * y, "BITWISE_AND": lambda: x & y, "BITWISE_OR": lambda: x | y,
             "BITWISE_XOR": lambda: x ^ y}[op]()
    r = in_type(t, r)
    return None if r is None else {r}


def cunary(op, ta, x, fa=None):
    if op == "LOGICAL_NEGATE":
        return {int(x == 0)}
    t = ta if is_flt(ta) else csem.promote(ta, fa)
    x = cconv(x, ta, t)
    if op == "PLUS":
        return {x}
    if op == "NEGATE":
        if is_flt(t):
            return {-x}
        r = in_type(t, -x)
        return None if r is None else {r}
    if is_flt(t):
        return None
    return {in_type(t, ~x)}


# ---------------------------------------------------------------- the interpreted evaluator
class FoldWorld(sem.World):
    def translator_models(self):
        super().translator_models()
        M = self.models

        def evaluate(it, st, ins, a):
            nd = a[2]
            st.x["evals"] = st.x.get("evals", ()) + (nd,)
            self.put_value(st, a[3], nd)
            return [(0, st)]
        M["kefir_ast_constant_expression_value_evaluate"] = evaluate
        info0 = M["kefir_ast_target_environment.object_info"]

        def info(it, st, ins, a):
            r = info0(it, st, ins, a)
            t = a[2]
            n = self.tname(t[1], st) if isinstance(t, tuple) and t[0] == "envtype" else None
            n = n and unq(n)
            for v, s in r:
                if a[3] == 0 and n and (n in SIZES or n[0] == "p"):
                    sz = SIZES.get(n, 8)
                    self.put(a[4], "kefir_ast_target_environment_object_info", "size", sz, s)
                    self.put(a[4], "kefir_ast_target_environment_object_info", "alignment", sz, s)
            return r
        M["kefir_ast_target_environment.object_info"] = info

        def offset(it, st, ins, a):     # mem, env, type, index, &offset
            t = a[2]
            n = self.tname(t[1], st) if isinstance(t, tuple) and t[0] == "envtype" else None
            n = n and unq(n)
            sz = SIZES.get(n, 8 if n and n[0] == "p" else None)
            if sz is None:
                raise sem.Unknown("offset of an unknown type")
            i = a[3]
            it.store(st, a[4], i * sz if isinstance(i, int) else ("mul", "i64", i, sz))
            return [(0, st)]
        M["kefir_ast_target_environment.object_offset"] = offset

    def put_value(self, st, p, nd):
        t = unq(self.tname(self.load(nd, NB, "properties.type", st), st))
        K = "KEFIR_AST_CONSTANT_EXPRESSION_CLASS_"
        if is_flt(t):
            self.put(p, VAL, "klass", self.enum[K + "FLOAT"], st)
            self.put(p, VAL, "floating_point", ("v", nd, t), st)
        elif is_ptr(t):
            self.put(p, VAL, "klass", self.enum[K + "ADDRESS"], st)
            for m, kind in (("pointer.offset", "offset"), ("pointer.base.integral", "base")):
                self.put(p, VAL, m, ("v", nd, kind), st)
            self.put(p, VAL, "pointer.type", self.enum["KEFIR_AST_CONSTANT_EXPRESSION_POINTER_INTEGER"], st)
            self.put(p, VAL, "pointer.scoped_id", ("v", nd, "scoped"), st)
            self.put(p, VAL, "pointer.pointer_node", nd, st)
        else:
            self.put(p, VAL, "klass", self.enum[K + "INTEGER"], st)
            self.put(p, VAL, self.intfield, ("v", nd, t), st)

    def setup(self):
        self.KL = {}
        self.intfield = next(m for m in ("integer", "uinteger") if self.has(VAL, m))
        self.put(self.actx, "kefir_ast_context", "target_env", sem.new("tenv2"))
        self.vtable(sem.new("tenv2"), "kefir_ast_target_environment")

    def has(self, s, m):
        try:
            self.off(s, m)
            return True
        except AnalysisBroken:
            return False


def result_of(w, st, box):
    k = st.known(w.load(box, VAL, "klass", st))
    names = {w.enum["KEFIR_AST_CONSTANT_EXPRESSION_CLASS_" + n]: n for n in ("NONE", "INTEGER", "FLOAT", "ADDRESS")}
    k = names.get(k)
    if k == "INTEGER":
        return k, w.it.load(st, absint.ptradd(box, w.off(VAL, w.intfield)), "i64")
    if k == "FLOAT":
        return k, w.it.load(st, absint.ptradd(box, w.off(VAL, "floating_point")), "x86_fp80")
    if k == "ADDRESS":
        return k, (w.it.load(st, absint.ptradd(box, w.off(VAL, "pointer.base.integral")), "i64"),
                   w.it.load(st, absint.ptradd(box, w.off(VAL, "pointer.offset")), "i64"))
    return k, None


def leaf_terms(names, ops):
    out = []
    for n, o in zip(names, ops):
        t = unq(o.t)
        if is_ptr(t):
            out += [(("v", sem.new(n), "base"), "ulong"), (("v", sem.new(n), "offset"), "long")]
        else:
            out.append((("v", sem.new(n), t), t))
    return out


def assignments(leaves, limit):
    """assignments of the leaves: all pairs of interesting values"""
    doms = [values(t) for _, t in leaves]
    if len(leaves) == 1:
        combos = [(v,) for v in doms[0]]
    elif len(leaves) == 2:
        combos = list(itertools.product(*doms))
    else:
        n = max(map(len, doms))
        combos = [tuple(d[(i * (k * 2 + 1) + k) % len(d)] for k, d in enumerate(doms)) for i in range(n * 8)]
    if len(combos) > limit:
        step = len(combos) / limit
        combos = [combos[int(i * step)] for i in range(limit)]
    for c in combos:
        yield {t: (v & M64 if isinstance(v, int) else v) for (t, _), v in zip(leaves, c)}, c


CTOR = {"kefir_ast_evaluate_binary_operation_node": "kefir_ast_new_binary_operation",
        "kefir_ast_evaluate_unary_operation_node": "kefir_ast_new_unary_operation",
        "kefir_ast_evaluate_cast_operator_node": "kefir_ast_new_cast_operator",
        "kefir_ast_evaluate_conditional_operator_node": "kefir_ast_new_conditional_operator"}
DEV = []


def klass_of(w, ctor, st):
    """the class record the constructor of this kind of node installs"""
    f = w.fn(ctor)
    args = [w.mem] + [sem.new("anynode")] * (len(f.params) - 1)
    if "operation" in ctor:
        args[1] = 0
    for rv, s in w.it.run(f, args, st):
        if isinstance(rv, tuple):
            return w.load(rv, NB, "klass", s)
    raise sem.Unknown("no node constructed by " + ctor)


EVAL = "kefir_ast_constant_expression_value_evaluate"


def check(w, fn, node, st, leaves, want, what, res_t, limit=700, dev=None):
    """compare every path of evaluating node with want(values) -> acceptable values or None; dev(kind, value, values)
    names a tolerated deviation"""
    box = sem.new("value")
    st.ranges = st.ranges + ((("new", "value"), 0, None, 0),)
    if w.KL.get(fn) is None:
        w.KL[fn] = klass_of(w, CTOR[fn], st.copy())
    w.put(node, NB, "klass", w.KL[fn], st)
    outs = w.it.run(w.fn(EVAL), [w.mem, w.actx, node, box], st)
    todo = []
    for rv, s in outs:
        if not isinstance(rv, int):
            raise sem.Unknown("undetermined outcome")
        todo.append((rv, s, result_of(w, s, box) if rv == 0 else None))
    if not todo:
        raise sem.Unknown("no outcome")
    n = 0
    for env, c in assignments(leaves, limit):
        exp = want(*c)
        hit = [x for x in todo if consistent(x[1], env)]
        if not hit:
            continue
        n += 1
        if exp is None:
            continue
        for rv, s, r in hit:
            at = ", ".join(map(fmt, c))
            if rv != 0:
                return "is refused for operand values (%s), C defines it as %s" % (at, fmt(min(exp)))
            k, t = r
            if is_ptr(res_t):
                if k == "ADDRESS":
                    v = (ev(t[0], env) + ev(t[1], env)) & M64
                else:
                    return "yields a %s value for a pointer result" % k
            elif k != ("FLOAT" if is_flt(res_t) else "INTEGER"):
                tag = dev(k, ev(t, env), c) if dev and t is not None else None
                if tag:
                    DEV.append(tag)
                    continue
                return "yields a %s value where C requires type %s" % (k, cname(res_t))
            else:
                try:
                    v = ev(t, env)
                except Poison:
                    return "the evaluator itself has undefined behaviour for operand values (%s), C requires %s" % (at, fmt(min(exp)))
            e2 = {x & M64 if isinstance(x, int) and not is_flt(res_t) else x for x in exp}
            if v not in e2:
                tag = dev(k, v, c) if dev else None
                if tag:
                    DEV.append(tag)
                    continue
                return "folds to %s for operand values (%s), C requires %s" % (fmt(sg(v, 64) if isinstance(v, int) and csem_signed(res_t) else v), at, fmt(min(exp)))
    if n == 0:
        raise sem.Unknown("no consistent assignment")
    return None


def csem_signed(t):
    return not is_flt(t) and not is_ptr(t) and csem.signed(t)


def fmt(v):
    if isinstance(v, Fr):
        return "%g" % float(v) if v.denominator != 1 else str(v.numerator) + ".0"
    return str(v)


BIN = ["ADD", "SUBTRACT", "MULTIPLY", "DIVIDE", "MODULO", "SHIFT_LEFT", "SHIFT_RIGHT", "LESS", "LESS_EQUAL", "GREATER", "GREATER_EQUAL", "EQUAL",
       "NOT_EQUAL", "BITWISE_AND", "BITWISE_OR", "BITWISE_XOR", "LOGICAL_AND", "LOGICAL_OR"]


def fold_binary(w, op, A, B):
    c = T.Ctx(w)
    st, (a, b) = c.fresh([A, B], ["arg1", "arg2"])
    n = w.node(st, "node", None, lvalue=0)
    S = "kefir_ast_binary_operation"
    w.put(n, S, "type", w.enum["KEFIR_AST_OPERATION_" + op], st)
    w.put(n, S, "arg1", a, st)
    w.put(n, S, "arg2", b, st)
    rt = T.binary_type(op, A, B)
    if rt is None or rt == "open":
        return None
    ta, tb = unq(A.t), unq(B.t)
    fn = "kefir_ast_evaluate_binary_operation_node"
    what = "%s %s %s" % (A, op, B)
    s0 = typed(w, n, rt, st)
    lv = leaf_terms(["arg1", "arg2"], [A, B])
    if is_ptr(ta) or is_ptr(tb):
        if op not in ("ADD", "SUBTRACT") or (is_ptr(ta) and is_ptr(tb)):
            return None

        def want(*c):
            (p, q, i, it_) = (c[0], c[1], c[2], tb) if is_ptr(ta) else (c[1], c[2], c[0], ta)
            pt = ta if is_ptr(ta) else tb
            sz = SIZES.get(unq(pointee(pt)), 8)
            off = i * sz
            if not -(1 << 40) < off < (1 << 40):
                return None
            return {(p + q + (off if op == "ADD" else -off)) & M64}
        return fn, what, check(w, fn, n, s0, lv, want, what, rt)
    if op in ("LOGICAL_AND", "LOGICAL_OR"):
        def want(x, y):
            return {int(bool(x) and bool(y)) if op == "LOGICAL_AND" else int(bool(x) or bool(y))}
    else:
        def want(x, y):
            return cbinary(op, ta, tb, x, y)
    return fn, what, check(w, fn, n, s0, lv, want, what, rt)


def typed(w, n, rt, st):
    """give the analysed node its type and constant property"""
    w.put(n, NB, "properties.type", w.T[rt], st)
    w.put(n, NB, "properties.expression_props.constant_expression", 1, st)
    return st


def fold_unary(w, op, A):
    c = T.Ctx(w)
    st, (a,) = c.fresh([A], ["arg"])
    n = w.node(st, "node", None, lvalue=0)
    S = "kefir_ast_unary_operation"
    w.put(n, S, "type", w.enum["KEFIR_AST_OPERATION_" + op], st)
    w.put(n, S, "arg", a, st)
    rt = T.unary_type(op, A)
    if rt is None or rt == "open":
        return None
    if is_ptr(unq(A.t)):
        return None
    fn = "kefir_ast_evaluate_unary_operation_node"
    what = "%s %s" % (op, A)
    s0 = typed(w, n, rt, st)
    t = unq(A.t)
    if op in ("SIZEOF", "ALIGNOF"):
        sz = SIZES[t]
        return fn, what, check(w, fn, n, s0, leaf_terms(["arg"], [A]), lambda x: {sz}, what, "ulong")
    return fn, what, check(w, fn, n, s0, leaf_terms(["arg"], [A]), lambda x: cunary(op, t, x), what, rt)


def fold_cast(w, A, to):
    c = T.Ctx(w)
    st, (a,) = c.fresh([A], ["expr"])
    tn = w.node(st, "typename", to, cat="TYPE")
    n = w.node(st, "node", None, lvalue=0)
    w.put(n, "kefir_ast_cast_operator", "type_name", tn, st)
    w.put(n, "kefir_ast_cast_operator", "expr", a, st)
    ta, tb = unq(A.t), unq(to)
    if not T.cast_ok(ta, tb) or tb == "void" or is_ptr(ta):
        return None
    fn = "kefir_ast_evaluate_cast_operator_node"
    what = "(%s) %s" % (cname(to), A)
    s0 = typed(w, n, to, st)

    def want(x):
        r = cconv(x, ta, tb)
        return None if r is None else {r}

    def dev(k, v, c):
        if tb == "float" and ta in ("double", "ldouble") and k == "FLOAT" and v == Fr(c[0]):
            return "cast to float keeps the precision of the operand"
    return fn, what, check(w, fn, n, s0, leaf_terms(["expr"], [A]), want, what, tb, dev=dev)


def fold_cond(w, C, A, B):
    c = T.Ctx(w)
    st, (cn, a, b) = c.fresh([C, A or Opnd("int"), B], ["cond", "expr1", "expr2"])
    n = w.node(st, "node", None, lvalue=0)
    S = "kefir_ast_conditional_operator"
    w.put(n, S, "condition", cn, st)
    w.put(n, S, "expr1", a if A is not None else 0, st)
    w.put(n, S, "expr2", b, st)
    L = A if A is not None else C
    rt = T.cond_type(L, B)
    if rt is None or rt == "void" or is_ptr(rt) or is_ptr(unq(C.t)):
        return None
    fn = "kefir_ast_evaluate_conditional_operator_node"
    what = "%s ? %s : %s" % (C, A if A is not None else "", B)
    s0 = typed(w, n, rt, st)
    ops, names = ([C, A, B], ["cond", "expr1", "expr2"]) if A is not None else ([C, B], ["cond", "expr2"])

    def want(*v):
        x = v[1] if A is not None else v[0]
        r = cconv(x, unq(L.t), rt) if v[0] != 0 else cconv(v[-1], unq(B.t), rt)
        if is_flt(rt) and r is not None:
            src = x if v[0] != 0 else v[-1]
            return {r, Fr(src)}
        return None if r is None else {r}

    def dev(k, v, c):
        x, tx = (c[1] if A is not None else c[0], unq(L.t)) if c[0] != 0 else (c[-1], unq(B.t))
        if k == "INTEGER" and is_flt(rt) and not is_flt(tx) and v == x & M64:
            return "integer arm of ?: keeps its class next to a floating one"
    return fn, what, check(w, fn, n, s0, leaf_terms(names, ops), want, what, rt, dev=dev)


LIT = [("bool", "bool", "i8"), ("char", "int", "i32"), ("wide_char", "int", "i32"), ("unicode16_char", "ushort", "i16"),
       ("unicode32_char", "uint", "i32"), ("int", "int", "i32"), ("uint", "uint", "i32"), ("long", "long", "i64"), ("ulong", "ulong", "i64"),
       ("long_long", "llong", "i64"), ("ulong_long", "ullong", "i64"), ("float", "float", None), ("double", "double", None),
       ("long_double", "ldouble", None)]


def fold_literal(w, name, t, iw):
    c = T.Ctx(w)
    st, _ = c.fresh([], [])
    leaf = ("v", sem.new("literal"), t)
    arg = leaf if iw in (None, "i64") else ("trunc", "i64", iw, leaf)
    fn, an = "kefir_ast_evaluate_scalar_node", "kefir_ast_analyze_constant_node"
    what = "%s literal" % name
    outs = [(v, s) for v, s in w.it.run(w.fn("kefir_ast_new_constant_" + name), [w.mem, arg], st) if v != 0]
    if len(outs) != 1:
        raise sem.Unknown("constructor of literals")
    node, st = outs[0]
    outs = [(v, s) for v, s in w.it.run(w.fn(an), [w.mem, w.actx, node, node], st)]
    if len(outs) != 1 or outs[0][0] != 0:
        raise sem.Unknown("analysis of literals")
    st = outs[0][1]
    got = w.tname(w.load(node, NB, "properties.type", st), st)
    if got is None:
        raise sem.Unknown("type of literal")
    if unq(got) != t:
        return an, what, "has type %s, C requires %s" % (cname(got), cname(t))
    w.KL[fn] = w.load(node, NB, "klass", st)
    return fn, what, check(w, fn, node, st, [(leaf, t)], lambda x: {Fr(x) if is_flt(t) else x}, what, t)


def cases():
    ints = [t for t in csem.ARITH]
    O = [Opnd(t, const=1) for t in csem.ARITH]
    P_ = [Opnd(t, const=1) for t in ("pint", "pchar", "pdouble")]
    out = []
    for op in BIN:
        for A in O + P_:
            for B in O + P_:
                out.append(("binary", op, fold_binary, (op, A, B)))
    for op in ("PLUS", "NEGATE", "INVERT", "LOGICAL_NEGATE", "SIZEOF", "ALIGNOF"):
        for A in O:
            out.append(("unary", op, fold_unary, (op, A)))
    for A in O:
        for t in csem.ARITH + ["pint"]:
            out.append(("cast", "cast", fold_cast, (A, t)))
    for A in O:
        for B in O:
            out.append(("cond", "?:", fold_cond, (Opnd("int", const=1), A, B)))
    for C in O:
        out.append(("cond", "?:", fold_cond, (C, Opnd("int", const=1), Opnd("long", const=1))))
    for l in LIT:
        out.append(("literal", l[0], fold_literal, l))
    return out


_W = _C = None


def one(i):
    g, op, fn, args = _C[i]
    try:
        del DEV[:]
        r = fn(_W, *args)
        return (None, 0, 0, ()) if r is None else (r, 1, 0, tuple(sorted(set(DEV))))
    except (AnalysisBroken, sem.Unknown, Unmodelled, RecursionError) as e:
        return (("?", str(args), str(e)[:200]), 0, 1, ())


def c13(tier):
    global _W, _C
    import multiprocessing as mp
    res = Result()
    res.rules = ["fold: on every path of the constant evaluator, the result (a term over the operand values) is the value and kind C "
                 "prescribes for the operator and the operand types, whenever C defines one; operands are assumed to be values of "
                 "their types, which the rule re-establishes for the result (induction over the expression)"]
    prog = ir.load_program()
    _W = FoldWorld(prog)
    _W.setup()
    _C = cases()
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        rs = pool.map(one, range(len(_C)), chunksize=16)
    found = {}
    devs = {}
    for (g, op, fn, args), (r, n, u, dv) in zip(_C, rs):
        for d in dv:
            devs.setdefault((r[0], g, d), []).append(r[1])
        res.count("operand combinations of %s" % g, n)
        res.count("undetermined", u)
        if u:
            res.x = getattr(res, "x", []) + [r]
        if n and r[2]:
            found.setdefault((r[0], g, op), []).append((r[1], r[2]))
    for (fn, g, op), l in sorted(found.items()):
        what, msg = l[0]
        extra = "" if len(l) == 1 else " (and %d more: %s)" % (len(l) - 1, "; ".join(x[0] for x in l[1:6]))
        res.find("fold", T.locate(_W, fn), "`%s` %s%s" % (what, msg, extra), func=fn, ident="|".join(["fold", g, op]))
    for (fn, g, d), l in sorted(devs.items()):
        res.find("fold", T.locate(_W, fn), "%s: `%s` and %d more" % (d, l[0], len(l) - 1), func=fn, ident="|".join(["fold", g, d.replace(" ", "-")]))
    res.assume = ["values of operands are values of their types (established by the same rule for every operator, and by the literal rules)",
                  "terms are compared on a fixed family of boundary values of every operand type; a difference on those is a violation"]
    for g in ("binary", "unary", "cast", "cond"):
        res.need("operand combinations of %s" % g, 20)
    return res
