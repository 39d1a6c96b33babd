"""Semantic rules over the expression analyser and translator: abstract interpretation of kefir's own analyser/translator code
over every combination of operand types, the emitted instructions compared with the C17 meaning of the operator."""
import itertools, os
from concurrent.futures import ProcessPoolExecutor
from .. import ir, sem, csem
from ..core import Result
from ..ir import AnalysisBroken
from ..sem import Bad, Machine, mk, ext, low
from ..csem import *

NB = "kefir_ast_node_base"


class Opnd:
    def __init__(self, t, bf=None, const=0, null=0, lvalue=1):
        self.t, self.bf, self.const, self.null, self.lvalue = t, bf, const, null, lvalue

    def __str__(self):
        return cname(self.t) + (":%d" % self.bf if self.bf else "") + (" constant" if self.const else "")


CN = {"bool": "_Bool", "schar": "signed char", "uchar": "unsigned char", "ushort": "unsigned short", "uint": "unsigned int",
      "ulong": "unsigned long", "llong": "long long", "ullong": "unsigned long long", "ldouble": "long double", "enum": "enum"}


def cname(t):
    if t is None:
        return "?"
    if isinstance(t, str) and t and t[0] == "p":
        return cname(t[1:]) + "*"
    if isinstance(t, str) and t not in BASIC and t and t[0] == "c" and t[1:]:
        return "const " + cname(t[1:])
    return CN.get(t, t)


from ..sem import BASIC  # noqa: E402


def subst(t, facts):
    """rebuild a term under known truth values of condition terms"""
    if not isinstance(t, tuple) or not facts:
        return t
    if t in facts:
        return facts[t]
    k = t[0]
    if k in ("nz", "not", "band", "bor", "eq", "lt", "ult", "add", "neg", "mul", "and", "or", "xor", "inot"):
        a = [subst(x, facts) for x in t[1:]]
        return mk(k, *a) if tuple(a) != t[1:] else t
    if k in ("sext", "zext"):
        x = subst(t[2], facts)
        return ext(k, t[1], x)
    if k in ("ldL", "ldH", "i2f"):
        return t[:-1] + (subst(t[-1], facts),)
    return t


class Ctx:
    """one analyser/translator run"""

    def __init__(self, w):
        self.w = w

    def fresh(self, ops, names):
        w = self.w
        st = w.st.copy()
        st.x["nulls"] = {sem.new(n): o.null for n, o in zip(names, ops)}
        st.x["nalloc"] = 1000
        nodes = [w.node(st, n, o.t, lvalue=o.lvalue, const=o.const, bitfield=o.bf) if o is not None else 0 for n, o in zip(names, ops)]
        return st, nodes

    def analyse(self, fn, node, st):
        """[(accepted, type name, state)] ; None: open"""
        w = self.w
        outs = w.it.run(w.fn(fn), [w.mem, w.actx, node, node], st)
        acc = [s for v, s in outs if v == 0]
        rej = [s for v, s in outs if isinstance(v, int) and v != 0]
        if acc and not rej:
            return True, acc
        if rej and not acc:
            return False, rej
        return None, acc

    def translate(self, fn, node, st, extra=()):
        w = self.w
        outs = w.it.run(w.fn(fn), [w.mem, w.tctx, w.builder, node] + list(extra), st)
        return outs

    def valtype(self, st):
        w = self.w

        def f(nd):
            t = w.tname(w.load(nd, NB, "properties.type", st), st)
            if st.known(w.load(nd, NB, "properties.expression_props.bitfield_props.bitfield", st)):
                return ("bf", st.known(w.load(nd, NB, "properties.expression_props.bitfield_props.width", st)), csem.signed(unq(t)))
            return t
        return f


def vname(nd):
    return nd[1][1] if isinstance(nd, tuple) and nd[0] == "ptr" and isinstance(nd[1], tuple) else nd


def clean(t):
    """node pointers -> names, type pointers kept"""
    if isinstance(t, tuple):
        if t[:1] == ("ptr",) and len(t) == 3 and isinstance(t[1], tuple) and t[1][0] == "new" and t[2] == 0:
            return t[1][1]
        return tuple(clean(x) for x in t)
    if isinstance(t, list):
        return [clean(x) for x in t]
    return t


def show(w, t):
    if isinstance(t, tuple):
        if t and t[0] == "ptr" and t in w.info:
            return cname(w.info[t])
        if t and t[0] == "v":
            return str(vname(t[1]))
        if len(t) and isinstance(t[0], str):
            return "%s(%s)" % (t[0], ", ".join(show(w, x) for x in t[1:]))
        return "(" + ", ".join(show(w, x) for x in t) + ")"
    return str(t)


def value_slots(t, v):
    """stack slots of a value of type t"""
    if t == "void":
        return []
    if t == "ldouble":
        return sem.ld_pair(v)
    return [v]


def same_slot(t, act, exp):
    if t in ("float",):
        act, exp = low(act, 32), low(exp, 32)
    return not sem.differ(act, exp)


def V(name, o):
    """value term of an operand"""
    return ("v", sem.new(name), ("bf", o.bf, csem.signed(unq(o.t))) if o.bf else o.t)


def evals(eff):
    return [vname(e[1]) for e in eff if e[0] == "eval"]


class Oracle:
    """expected outcome of a construct: decide(facts) -> (list of acceptable value terms, ordered evals or None, effects)"""


def compare_paths(w, res_t, paths, expect, ordered):
    """problems of the emitted code against expect(facts) = (values, evals, effects) ; None when undecided"""
    probs = []
    for conds, stk, eff, exit in paths:
        facts = dict(conds)
        if exit not in ("end",):
            probs.append("the emitted code leaves the construct (%s)" % exit)
            continue
        e = expect(facts)
        if e is None:
            probs.append("the emitted code does not test the controlling operand for zero as C requires: it branches on %s" %
                         (", ".join(show(w, c) for c, _ in conds) or "nothing"))
            continue
        values, evs, effects = e[:3]
        if len(e) > 3:
            res_t = e[3]
        n = sem.slots(res_t)
        if len(stk) != n:
            probs.append("the operand stack holds %d slot(s) after the construct, a value of type %s occupies %d" % (len(stk), cname(res_t), n))
            continue
        act = [subst(x, facts) for x in stk]
        if n:
            ok = False
            for v in values:
                v = subst(v, facts)
                if all(same_slot(res_t, a, b) for a, b in zip(act, value_slots(res_t, v))):
                    ok = True
            if not ok:
                a = act[0] if n == 1 else sem.ld_of(*act)
                probs.append("computes %s where C requires %s%s" % (show(w, a), show(w, subst(values[0], facts)),
                             " when " + " and ".join("%s is %s" % (show(w, c), "true" if v else "false") for c, v in conds) if conds else ""))
        ev = evals(eff)
        if evs is not None:
            if (ordered and ev != evs) or (not ordered and sorted(ev) != sorted(evs)):
                probs.append("evaluates operands %s, C requires %s%s" % (ev, evs, " when " + ", ".join("%s is %s" % (show(w, c), bool(v)) for c, v in conds) if conds else ""))
        if effects is not None:
            st = [x for x in eff if x[0] in ("store", "zero")]
            alts = effects
            if not any(stores_match(st, a) for a in alts):
                probs.append("writes %s where C requires %s" % (show(w, tuple(st)), show(w, tuple(alts[0]))))
    return probs


def stores_match(act, exp):
    return len(act) == len(exp) and all(a == b or (a[:3] == b[:3] and len(a) == len(b) == 4 and not sem.differ(a[3], b[3])) for a, b in zip(act, exp))


# ---------------------------------------------------------------- oracles for operators
def binary_type(op, A, B):
    """result type or None when C forbids the operands.  'open' when this is a case the rule leaves alone"""
    a, b = unq(A.t), unq(B.t)
    if op in ("LOGICAL_AND", "LOGICAL_OR"):
        return "int" if is_scalar(a) and is_scalar(b) else None
    if op in ("MODULO", "BITWISE_AND", "BITWISE_OR", "BITWISE_XOR"):
        return uac(a, b, A.bf, B.bf) if is_int(a) and is_int(b) else None
    if op in ("SHIFT_LEFT", "SHIFT_RIGHT"):
        return promote(a, A.bf) if is_int(a) and is_int(b) else None
    if op in ("MULTIPLY", "DIVIDE"):
        return uac(a, b, A.bf, B.bf) if is_arith(a) and is_arith(b) else None
    if op == "ADD":
        if is_arith(a) and is_arith(b):
            return uac(a, b, A.bf, B.bf)
        for p, i in ((a, b), (b, a)):
            if is_ptr(p) and complete(pointee(p)) and is_int(i):
                return p
        return None
    if op == "SUBTRACT":
        if is_arith(a) and is_arith(b):
            return uac(a, b, A.bf, B.bf)
        if is_ptr(a) and is_ptr(b):
            return "long" if complete(pointee(a)) and unq(pointee(a)) == unq(pointee(b)) else None
        return a if is_ptr(a) and complete(pointee(a)) and is_int(b) else None
    if op in ("EQUAL", "NOT_EQUAL"):
        if is_arith(a) and is_arith(b):
            return "int"
        if is_ptr(a) and is_ptr(b):
            x, y = unq(pointee(a)), unq(pointee(b))
            return "int" if x == y or x == "void" or y == "void" else None
        for p, i, o in ((a, b, B), (b, a, A)):
            if is_ptr(p) and is_int(i):
                return "int" if o.null else ("open" if o.const else None)
        return None
    if is_arith(a) and is_arith(b):
        return "int"
    if is_ptr(a) and is_ptr(b):
        return "int" if unq(pointee(a)) == unq(pointee(b)) else None
    return None


def binary_value(w, op, A, B, x, y):
    """acceptable value terms"""
    a, b = unq(A.t), unq(B.t)
    out = []
    if op in ("SHIFT_LEFT", "SHIFT_RIGHT"):
        t = promote(a, A.bf)
        for p in conv([x], a, t):
            out += shift(op, t, p, y)
        return out
    if op in ("EQUAL", "NOT_EQUAL", "LESS", "GREATER", "LESS_EQUAL", "GREATER_EQUAL"):
        if is_ptr(a) or is_ptr(b):
            return csem.compare(op, "pvoid", x, y)
        t = uac(a, b, A.bf, B.bf)
        for p, q in itertools.product(conv([x], a, t), conv([y], b, t)):
            out += csem.compare(op, t, p, q)
        return out
    if op in ("ADD", "SUBTRACT") and (is_ptr(a) or is_ptr(b)):
        if is_ptr(a) and is_ptr(b):
            return [mk("idiv", mk("sub", x, y), ("sizeof", s)) for s in sizes(w, pointee(a))]
        p, i, pt = (x, y, a) if is_ptr(a) else (y, x, b)
        return [mk("add" if op == "ADD" else "sub", p, mk("mul", i, ("sizeof", s))) for s in sizes(w, pointee(pt))]
    t = uac(a, b, A.bf, B.bf)
    for p, q in itertools.product(conv([x], a, t), conv([y], b, t)):
        out += arith(op, t, p, q)
    return out


def sizes(w, t):
    return [unq(t)]


BINOPS = ["ADD", "SUBTRACT", "MULTIPLY", "DIVIDE", "MODULO", "SHIFT_LEFT", "SHIFT_RIGHT", "LESS", "LESS_EQUAL", "GREATER", "GREATER_EQUAL",
          "EQUAL", "NOT_EQUAL", "BITWISE_AND", "BITWISE_OR", "BITWISE_XOR", "LOGICAL_AND", "LOGICAL_OR"]


def operands(ptrs=True, bitfields=True):
    out = [Opnd(t) for t in ARITH]
    if ptrs:
        out += [Opnd(t) for t in ("pint", "pchar", "pdouble", "pvoid", "pcint")]
        out += [Opnd("int", const=1, null=1)]
    if bitfields:
        out += [Opnd("uint", 5), Opnd("int", 5), Opnd("uint", 32), Opnd("bool", 1)]
    out += [Opnd("cint")]
    return out


def run_binary(w, op, A, B):
    """(type problems, value problems)"""
    c = Ctx(w)
    st, (a, b) = c.fresh([A, B], ["arg1", "arg2"])
    n = w.node(st, "node", None, lvalue=0)
    S = "kefir_ast_binary_operation"
    w.put(n, S, "type", w.enum["KEFIR_AST_OPERATION_" + op], st)
    w.put(n, S, "arg1", a, st)
    w.put(n, S, "arg2", b, st)
    acc, sts = c.analyse("kefir_ast_analyze_binary_operation_node", n, st)
    want = binary_type(op, A, B)
    what = "%s %s %s" % (A, op, B)
    fn = "kefir_ast_analyze_binary_operation_node"
    tp, vp = [], []
    if want == "open":
        return tp, vp, 0
    typing(tp, w, acc, sts, n, want, what, fn)
    if want is None or not acc:
        return tp, vp, 1
    for s in sts:
        x, y = V("arg1", A), V("arg2", B)
        if op in ("LOGICAL_AND", "LOGICAL_OR"):
            def expect(facts, op=op):
                ca, cb = truth(x, unq(A.t)), truth(y, unq(B.t))
                f = facts.get(ca)
                if f is None:
                    return None
                if (op == "LOGICAL_AND") == bool(f):
                    return [cb], ["arg1", "arg2"], [()]
                return [f], ["arg1"], [()]
            ordered = True
        else:
            vals = binary_value(w, op, A, B, x, y)

            def expect(facts):
                return vals, ["arg1", "arg2"], [()]
            ordered = False
        vp += translated(c, "kefir_ast_translate_binary_operation_node", n, s, want, expect, ordered, what)
    return tp, vp, 1


def typing(tp, w, acc, sts, n, want, what, fn):
    if acc is None:
        return
    if want is None:
        if acc:
            tp.append((fn, what, "accepts operands that violate a constraint of C"))
    elif acc is False:
        tp.append((fn, what, "rejects operands that C allows (result type %s)" % cname(want)))
    else:
        for s in sts:
            t = w.tname(w.load(n, NB, "properties.type", s), s)
            if t != want:
                tp.append((fn, what, "has type %s, C says %s" % (cname(t), cname(want))))


def translated(c, fn, n, s, want, expect, ordered, what, extra=(), pre=()):
    w = c.w
    out = []
    if w.types_only:
        return out
    res = c.translate(fn, n, s, extra)
    for v, s2 in res:
        if v != 0:
            if isinstance(v, int):
                out.append((fn, what, "the accepted construct is not translated (error %s)" % v))
            continue
        try:
            paths = Machine(s2.trace, c.valtype(s2), sem.patches(w, s2)).run(stack=pre)
            for p in compare_paths(w, want, paths, expect, ordered):
                out.append((fn, what, p))
        except Bad as e:
            out.append((fn, what, str(e)))
    return out


# ---------------------------------------------------------------- loads, unary operators
ADDR = lambda n: ("addr", sem.new(n))
BF_OFFSET = {5: (3, 6), 32: (0,), 1: (7,), 20: (35,)}


def loaded(w, t, addr, bf=None, off=None, ver=0):
    """acceptable slot terms of an object of type t read at addr"""
    u = unq(t)
    if bf:
        return [("bitval", csem.signed(u), addr, off, bf, ver)]
    if u == "ldouble":
        return [("mem", 80, addr, ver)]
    n = 8 if u == "bool" else (csem.fw(u) if is_flt(u) else csem.width(u))
    m = ext("sext" if csem.signed(u) and not is_flt(u) else "zext", n, ("mem", n, addr, ver))
    return [m] if u != "bool" else [m, mk("nz", m)]


def store_eff(w, t, addr, v, bf=None, off=None):
    u = unq(t)
    if bf:
        return ("store", ("bits", off, bf), addr, low(v, bf))
    if u == "ldouble":
        return ("store", 80, addr, v)
    n = 8 if u == "bool" else (csem.fw(u) if is_flt(u) else csem.width(u))
    return ("store", n, addr, low(v, n))


def node_with_bf(w, st, name, o, off):
    """struct member access node for a bit-field operand"""
    if o.bf:
        sn = w.node(st, name + ".structure", "pint")
        w.put(sem.new(name), "kefir_ast_struct_member", "structure", sn, st)
        w.put(sem.new(name), "kefir_ast_struct_member", "member", ("ptr", ("g", "member"), 0), st)
        st.x["bitfield"] = (off, o.bf, w.T[o.t])


UNOPS = ["PLUS", "NEGATE", "INVERT", "LOGICAL_NEGATE", "PREFIX_INCREMENT", "PREFIX_DECREMENT", "POSTFIX_INCREMENT", "POSTFIX_DECREMENT",
         "ADDRESS", "INDIRECTION", "SIZEOF", "ALIGNOF"]


def unary_type(op, A):
    t = unq(A.t)
    if op in ("PLUS", "NEGATE"):
        return promote(t, A.bf) if is_arith(t) else None
    if op == "INVERT":
        return promote(t, A.bf) if is_int(t) else None
    if op == "LOGICAL_NEGATE":
        return "int" if is_scalar(t) else None
    if "CREMENT" in op:
        if A.t[0] == "c" and A.t != t or not A.lvalue:
            return None
        if t == "pvoid":
            return "open"
        return t if is_scalar(t) else None
    if op == "ADDRESS":
        return ("p" + A.t) if A.lvalue and not A.bf else None
    if op == "INDIRECTION":
        return pointee(t) if is_ptr(t) and complete(pointee(t)) else ("open" if is_ptr(t) else None)
    if op in ("SIZEOF", "ALIGNOF"):
        if A.bf:
            return None if op == "SIZEOF" else "open"
        return "ulong" if "sizeof-int" not in csem.D else "int"


def incdec(w, op, A, off):
    """(acceptable results, acceptable effects)"""
    t = unq(A.t)
    res, effs = [], []
    for old in loaded(w, A.t, ADDR("arg"), A.bf, off):
        if is_ptr(t):
            news = [mk("add", old, mk("mul", 1 if op.endswith("INCREMENT") else -1, ("sizeof", s))) for s in sizes(w, pointee(t))]
        elif is_flt(t):
            f, x = csem.fw(t), csem.fl(old, csem.fw(t))
            d = 1.0 if op.endswith("INCREMENT") else -1.0
            news = [sem.mkf("fadd", f, x, ("fc", f, d)), sem.mkf("fsub", f, x, ("fc", f, -d))]
        else:
            c = uac(t, "int", A.bf)
            news = []
            for x in conv([old], t, c):
                for r in arith("ADD" if op.endswith("INCREMENT") else "SUBTRACT", c, x, 1):
                    news += conv([r], c, t)
                    if c != t and csem.signed(c) and not A.bf and t != "bool":
                        pass
        for nw in news:
            effs.append((store_eff(w, A.t, ADDR("arg"), nw, A.bf, off),))
            if op.startswith("PREFIX"):
                res.append(ext("sext" if csem.signed(t) else "zext", A.bf, nw) if A.bf else nw)
            else:
                res.append(old)
    return res, effs


def run_unary(w, op, A, off=None):
    c = Ctx(w)
    st, (a,) = c.fresh([A], ["arg"])
    node_with_bf(w, st, "arg", A, off)
    if A.bf:
        w.put(a, NB, "properties.expression_props.addressable", 0, st)
    n = w.node(st, "node", None, lvalue=0)
    S = "kefir_ast_unary_operation"
    w.put(n, S, "type", w.enum["KEFIR_AST_OPERATION_" + op], st)
    w.put(n, S, "arg", a, st)
    fn = "kefir_ast_analyze_unary_operation_node"
    acc, sts = c.analyse(fn, n, st)
    want = unary_type(op, A)
    what = "%s %s" % (op, A)
    tp, vp = [], []
    if want == "open":
        return tp, vp, 0
    typing(tp, w, acc, sts, n, want, what, fn)
    if want is None or not acc:
        return tp, vp, 1
    t = unq(A.t)
    x = V("arg", A)
    evs, eff = ["arg"], [()]
    if op in ("PLUS", "NEGATE"):
        vals = []
        for p in conv([x], t, want):
            if op == "PLUS":
                vals.append(p)
            elif is_flt(want):
                vals.append(("fneg", csem.fw(want), csem.fl(p, csem.fw(want))))
            else:
                vals += wrap(want, mk("neg", p))
    elif op == "INVERT":
        vals = []
        for p in conv([x], t, want):
            r = mk("inot", p)
            vals += [ext("sext" if csem.signed(want) else "zext", csem.width(want), r)] + ([r] if csem.signed(want) else [])
    elif op == "LOGICAL_NEGATE":
        vals = [mk("not", truth(x, t))]
    elif "CREMENT" in op:
        vals, eff = incdec(w, op, A, off)
        evs = []
    elif op == "ADDRESS":
        vals, evs = [ADDR("arg")], []
    elif op == "INDIRECTION":
        vals = loaded(w, want, x)
        want = unq(want)
    else:
        evs = []
        vals = [("sizeof" if op == "SIZEOF" else "alignof", s) for s in sizes(w, A.t)]
    for s in sts:
        vp += translated(c, "kefir_ast_translate_unary_operation_node", n, s, want, lambda f: (vals, evs, eff), False, what)
    return tp, vp, 1


# ---------------------------------------------------------------- assignment
ASGOPS = ["SIMPLE", "MULTIPLY", "DIVIDE", "MODULO", "ADD", "SUBTRACT", "SHIFT_LEFT", "SHIFT_RIGHT", "BITWISE_AND", "BITWISE_XOR", "BITWISE_OR"]


def assign_type(op, A, B):
    a, b = unq(A.t), unq(B.t)
    if A.t != a and A.t[0] == "c" or not A.lvalue:
        return None
    if op == "SIMPLE":
        if is_arith(a):
            return a if is_arith(b) or (a == "bool" and is_ptr(b)) else None
        if is_ptr(b):
            x, y = pointee(a), pointee(b)
            if unq(x) != unq(y) and "void" not in (unq(x), unq(y)):
                return None
            return a if x == unq(x) and y == unq(y) or x[0] == "c" and x != unq(x) else None
        if is_int(b):
            return a if B.null else ("open" if B.const or csem.width(b) == 64 else None)
        return None
    if op in ("ADD", "SUBTRACT") and is_ptr(a):
        return a if complete(pointee(a)) and is_int(b) else None
    t = binary_type(op, A, B)
    return a if t is not None and not is_ptr(b) else None


def compound_value(w, op, A, B, x, y):
    """acceptable values of the operation of a compound assignment"""
    a, b = A.t, B.t
    if is_ptr(a) or not csem.D:
        return binary_value(w, op, A, B, x, y)
    t = uac(a, b, A.bf, B.bf)
    out = []
    for p, q in itertools.product(conv([x], a, t), conv([y], b, t)):
        if "compound-signedness" in csem.D and op in ("MODULO", "SHIFT_LEFT", "SHIFT_RIGHT"):
            sg = csem.signed(b)
            if op == "MODULO":
                r = [mk("imod" if sg else "umod", p, q)]
            else:
                r = [mk("shl" if op == "SHIFT_LEFT" else "ashr" if sg else "lshr", p, low(q, 6))]
            if "compound-range" not in csem.D:
                r = wrap(t, r[0])
            out += r
        elif "compound-range" in csem.D and is_int(t):
            if op in csem.IOP:
                out.append(mk(csem.IOP[op], p, q))
            elif op in ("DIVIDE", "MODULO"):
                s = csem.signed(t)
                out.append(mk({"DIVIDE": "idiv" if s else "udiv", "MODULO": "imod" if s else "umod"}[op], p, q))
    if not out and "compound-range" in csem.D and op in ("SHIFT_LEFT", "SHIFT_RIGHT"):
        t = promote(a, A.bf)
        for p in conv([x], a, t):
            out.append(mk("shl" if op == "SHIFT_LEFT" else "ashr" if csem.signed(t) else "lshr", p, low(y, 6)))
    return out or binary_value(w, op, A, B, x, y)


def run_assign(w, op, A, B, off=None):
    c = Ctx(w)
    st, (a, b) = c.fresh([A, B], ["target", "value"])
    node_with_bf(w, st, "target", A, off)
    n = w.node(st, "node", None, lvalue=0)
    S = "kefir_ast_assignment_operator"
    w.put(n, S, "operation", w.enum["KEFIR_AST_ASSIGNMENT_" + op], st)
    w.put(n, S, "target", a, st)
    w.put(n, S, "value", b, st)
    fn = "kefir_ast_analyze_assignment_operator_node"
    acc, sts = c.analyse(fn, n, st)
    want = assign_type(op, A, B)
    what = "%s = %s" % (A, B) if op == "SIMPLE" else "%s %s= %s" % (A, op, B)
    tp, vp = [], []
    if want == "open":
        return tp, vp, 0
    typing(tp, w, acc, sts, n, want, what, fn)
    if want is None or not acc:
        return tp, vp, 1
    y = V("value", B)
    addr = ADDR("target")
    ta, tb = unq(A.t), unq(B.t)
    outs = []
    if op == "SIMPLE":
        outs = conv([y], tb, ta)
    else:
        bt = "ptr" if is_ptr(ta) else None
        for old in loaded(w, A.t, addr, A.bf, off):
            A2 = Opnd(ta, A.bf)
            rs = compound_value(w, op, A2, Opnd(tb, B.bf), old, y)
            rt = binary_type(op, A2, Opnd(tb, B.bf))
            if "compound-signedness" in csem.D and op in ("SHIFT_LEFT", "SHIFT_RIGHT"):
                rt = uac(ta, tb, A.bf, B.bf)
            for r in rs:
                outs += [r] if csem.base(rt) == csem.base(ta) else conv([r], rt, ta)
    pairs = []
    for o in outs:
        res = ext("sext" if csem.signed(ta) else "zext", A.bf, o) if A.bf else o
        pairs.append((res, (store_eff(w, A.t, addr, o, A.bf, off),)))
    vals = [p[0] for p in pairs]
    effs = [p[1] for p in pairs]
    for s in sts:
        vp += translated(c, "kefir_ast_translate_assignment_operator_node", n, s, want, lambda f: (vals, ["value"], effs), False, what)
    return tp, vp, 1


# ---------------------------------------------------------------- cast, conditional, comma
def cast_ok(a, b):
    if b == "void":
        return True
    if not (is_scalar(a) and is_scalar(b)):
        return False
    return not (is_ptr(a) and is_flt(b) or is_flt(a) and is_ptr(b))


def run_cast(w, A, to):
    c = Ctx(w)
    st, (a,) = c.fresh([A], ["expr"])
    tn = w.node(st, "typename", to, cat="TYPE")
    n = w.node(st, "node", None, lvalue=0)
    S = "kefir_ast_cast_operator"
    w.put(n, S, "type_name", tn, st)
    w.put(n, S, "expr", a, st)
    fn = "kefir_ast_analyze_cast_operator_node"
    acc, sts = c.analyse(fn, n, st)
    want = unq(to) if cast_ok(unq(A.t), unq(to)) else None
    what = "(%s) %s" % (cname(to), A)
    tp, vp = [], []
    typing(tp, w, acc, sts, n, want, what, fn)
    if want is None or not acc:
        return tp, vp, 1
    vals = conv([V("expr", A)], unq(A.t), want)
    for s in sts:
        vp += translated(c, "kefir_ast_translate_cast_operator_node", n, s, want, lambda f: (vals, ["expr"], [()]), False, what)
    return tp, vp, 1


def run_typeconv(w, A, to):
    """the conversion routine every implicit conversion goes through"""
    st = w.st.copy()
    t = unq(A.t)
    fn = "kefir_ast_translate_typeconv"
    what = "conversion of %s to %s" % (cname(t), cname(to))
    if not cast_ok(t, unq(to)):
        return [], [], 0
    outs = w.it.run(w.fn(fn), [w.builder, w.traits, w.T[A.t], w.T[to]], st)
    vals = conv([V("x", A)], t, unq(to), strict=True)
    vp = []
    x = V("x", A)
    for v, s2 in outs:
        if v != 0:
            if isinstance(v, int):
                vp.append((fn, what, "is refused (error %d)" % v))
            continue
        try:
            paths = Machine(s2.trace, None, sem.patches(w, s2)).run(stack=value_slots(t, x))
            for p in compare_paths(w, unq(to), paths, lambda f: (vals, [], [()]), False):
                vp.append((fn, what, p))
        except Bad as e:
            vp.append((fn, what, str(e)))
    return [], vp, 1


def cond_type(A, B):
    a, b = unq(A.t), unq(B.t)
    if is_arith(a) and is_arith(b):
        return uac(a, b, A.bf, B.bf)
    if a == "void" or b == "void":
        return "void" if a == b else None
    if is_ptr(a) and B.null and is_int(b):
        return a
    if is_ptr(b) and A.null and is_int(a):
        return b
    if is_ptr(a) and is_ptr(b):
        x, y = pointee(a), pointee(b)
        q = "c" if (x != unq(x) and x[0] == "c") or (y != unq(y) and y[0] == "c") else ""
        x, y = unq(x), unq(y)
        if "void" in (x, y):
            return "p" + q + "void"
        return "p" + q + x if x == y else None
    return None


def run_cond(w, C, A, B):
    """C ? A : B   (A None: the GNU form C ?: B)"""
    c = Ctx(w)
    ops = [C, A, B]
    st, (cn, a, b) = c.fresh([o for o in ops], ["cond", "expr1", "expr2"]) if A is not None else c.fresh([C, Opnd("int"), B], ["cond", "expr1", "expr2"])
    n = w.node(st, "node", None, lvalue=0)
    S = "kefir_ast_conditional_operator"
    w.put(n, S, "condition", cn, st)
    w.put(n, S, "expr1", a if A is not None else 0, st)
    w.put(n, S, "expr2", b, st)
    fn = "kefir_ast_analyze_conditional_operator_node"
    acc, sts = c.analyse(fn, n, st)
    L = A if A is not None else C
    want = cond_type(L, B) if is_scalar(unq(C.t)) else None
    what = "%s ? %s : %s" % (C, A if A is not None else "", B)
    tp, vp = [], []
    typing(tp, w, acc, sts, n, want, what, fn)
    if want is None or not acc:
        return tp, vp, 1
    cv = truth(V("cond", C), unq(C.t))
    ln = "expr1" if A is not None else "cond"

    def expect(facts):
        f = facts.get(cv)
        if f is None:
            return None
        if "unconverted-arms" in csem.D:
            r = L if f else B
            if is_arith(unq(r.t)):
                return [V(ln if f else "expr2", r)], (["cond", "expr1"] if A is not None else ["cond"]) if f else ["cond", "expr2"], [()], unq(r.t)
        if f:
            return conv([V(ln, L)], unq(L.t), want), ["cond", "expr1"] if A is not None else ["cond"], [()]
        return conv([V("expr2", B)], unq(B.t), want), ["cond", "expr2"], [()]
    for s in sts:
        vp += translated(c, "kefir_ast_translate_conditional_operator_node", n, s, want, expect, True, what)
    return tp, vp, 1


def run_comma(w, ts):
    """a list of comma separated expressions"""
    c = Ctx(w)
    names = ["expr%d" % i for i in range(len(ts))]
    ops = [Opnd(t) for t in ts]
    st, nodes = c.fresh(ops, names)
    n = w.node(st, "node", None, lvalue=0)
    w.make_list(st, n, "kefir_ast_comma_operator", "expressions", nodes)
    fn = "kefir_ast_analyze_comma_operator_node"
    acc, sts = c.analyse(fn, n, st)
    want = unq(ts[-1])
    what = " , ".join(cname(t) for t in ts)
    tp, vp = [], []
    typing(tp, w, acc, sts, n, want, what, fn)
    if not acc:
        return tp, vp, 1
    for s in sts:
        vp += translated(c, "kefir_ast_translate_comma_operator_node", n, s, want,
                         lambda f: ([V(names[-1], ops[-1])], names, [()]), True, what)
    return tp, vp, 1


# ---------------------------------------------------------------- return, calls, subscripts
def run_return(w, A, to):
    """return A; in a function returning `to`"""
    c = Ctx(w)
    st, (a,) = c.fresh([A], ["expr"]) if A is not None else (c.fresh([], [])[0], (0,))
    w.put(sem.new("func"), "kefir_ast_scoped_identifier", "function.type", sem.new("functype"), st)
    w.put(sem.new("functype"), "kefir_ast_type", "function_type.return_type", w.T[to], st)
    n = w.node(st, "node", None, lvalue=0)
    w.put(n, "kefir_ast_return_statement", "expression", a, st)
    fn = "kefir_ast_analyze_return_statement_node"
    acc, sts = c.analyse(fn, n, st)
    t = unq(to)
    if A is None:
        ok = t == "void"
    elif t == "void":
        ok = False
    else:
        r = assign_type("SIMPLE", Opnd(t), A)
        if r == "open":
            return [], [], 0
        ok = r is not None
    what = "return %s; in a function returning %s" % (A if A is not None else "", cname(to))
    tp, vp = [], []
    if acc is not None and bool(acc) != ok:
        tp.append((fn, what, "rejected although C allows it" if ok else "accepted although it violates a constraint of C"))
    if not ok or not acc or w.types_only:
        return tp, vp, 1
    vals = conv([V("expr", A)], unq(A.t), t) if A is not None else []
    fn = "kefir_ast_translate_return_statement_node"
    for s in sts:
        for v, s2 in c.translate(fn, n, s):
            if v != 0:
                if isinstance(v, int):
                    vp.append((fn, what, "the accepted statement is not translated (error %s)" % v))
                continue
            try:
                for conds, stk, eff, ex in Machine(s2.trace, c.valtype(s2), sem.patches(w, s2)).run():
                    if ex != "ret":
                        vp.append((fn, what, "does not return from the function"))
                        continue
                    stk = list([e for e in eff if e[0] == "ret"][0][1])
                    m = sem.slots(t)
                    if len(stk) != m:
                        vp.append((fn, what, "returns with %d operand slot(s), a value of type %s occupies %d" % (len(stk), cname(to), m)))
                    elif m and not any(all(same_slot(t, x, y) for x, y in zip(stk, value_slots(t, v))) for v in vals):
                        vp.append((fn, what, "returns %s where C requires %s" % (show(w, stk[0] if m == 1 else sem.ld_of(*stk)), show(w, vals[0]))))
                    if evals(eff) != (["expr"] if A is not None else []):
                        vp.append((fn, what, "evaluates %s" % evals(eff)))
            except Bad as e:
                vp.append((fn, what, str(e)))
    return tp, vp, 1


def run_subscript(w, A, B):
    c = Ctx(w)
    st, (a, b) = c.fresh([A, B], ["array", "subscript"])
    n = w.node(st, "node", None, lvalue=0)
    S = "kefir_ast_array_subscript"
    w.put(n, S, "array", a, st)
    w.put(n, S, "subscript", b, st)
    fn = "kefir_ast_analyze_array_subscript_node"
    acc, sts = c.analyse(fn, n, st)
    ta, tb = unq(A.t), unq(B.t)
    p, i, pn, in_ = (ta, B, "array", "subscript") if is_ptr(ta) else (tb, A, "subscript", "array")
    P_ = A if pn == "array" else B
    want = pointee(p) if is_ptr(p) and is_int(unq(i.t)) and complete(pointee(p)) else None
    what = "%s [ %s ]" % (A, B)
    tp, vp = [], []
    if is_ptr(p) and not complete(pointee(p)):
        return tp, vp, 0
    typing(tp, w, acc, sts, n, want, what, fn)
    if want is None or not acc:
        return tp, vp, 1
    for s in sts:
        for m in ("lvalue", "addressable"):
            if not s.known(w.load(n, NB, "properties.expression_props." + m, s)):
                tp.append((fn, what, "is not an lvalue"))
        # the element must be read as its type: a subscript into an abstract array yields the addressed element
        addr = mk("add", V(pn, P_), mk("mul", V(in_, i), ("sizeof", unq(want))))
        vals = [x for x in loaded(w, want, addr)]
        vp += translated(c, "kefir_ast_translate_array_subscript_node", n, s, unq(want), lambda f: (vals, ["array", "subscript"], [()]), False, what)
        vp += translated(c, "kefir_ast_translate_array_subscript_lvalue", n, s, "pvoid", lambda f: ([addr], ["array", "subscript"], [()]), False, what)
    return tp, vp, 1


def call_param_ok(p, A):
    r = assign_type("SIMPLE", Opnd(unq(p)), A)
    return r


def default_promoted(t):
    t = unq(t)
    return "double" if t == "float" else csem.promote(t, None) if is_int(t) else t


def functype(w, st, ret, params, ellipsis):
    """a function type built by kefir's own constructors; (type, state)"""
    box = sem.new("ftbox")
    outs = [(t, s) for t, s in w.it.run(w.fn("kefir_ast_type_function"), [w.mem, w.bundle, w.T[ret], box], st) if isinstance(t, tuple)]
    if len(outs) != 1:
        raise AnalysisBroken("kefir_ast_type_function: %d outcomes" % len(outs))
    t, s = outs[0]
    ft = w.it.load(s, box, "ptr")
    for p in params or ():
        r = [x for v, x in w.it.run(w.fn("kefir_ast_type_function_parameter"), [w.mem, w.bundle, ft, w.T[p], 0], s) if v == 0]
        if len(r) != 1:
            raise AnalysisBroken("kefir_ast_type_function_parameter: %d outcomes" % len(r))
        s = r[0]
    if ellipsis:
        s = [x for v, x in w.it.run(w.fn("kefir_ast_type_function_ellipsis"), [ft, 1], s) if v == 0][0]
    return t, s


def run_call(w, ret, params, ellipsis, args, how):
    """f(args) with f of type ret (params[, ...]); how: "ptr" (a pointer value), "name" (an external function)"""
    c = Ctx(w)
    names = ["arg%d" % i for i in range(len(args))]
    st, nodes = c.fresh(args, names)
    t, st = functype(w, st, ret, params, ellipsis)
    pt = [(v, s) for v, s in w.it.run(w.fn("kefir_ast_type_pointer"), [w.mem, w.bundle, t], st) if isinstance(v, tuple)]
    if len(pt) != 1:
        raise AnalysisBroken("pointer to function type")
    pt, st = pt[0]
    f = w.node(st, "function", pt if how == "ptr" else t)
    if how == "name":
        w.put(f, NB, "properties.expression_props.identifier", sem.new("fname"), st)
        w.put(f, NB, "properties.expression_props.scoped_id", sem.new("fid"), st)
        S = "kefir_ast_scoped_identifier"
        w.put(sem.new("fid"), S, "klass", w.enum["KEFIR_AST_SCOPE_IDENTIFIER_FUNCTION"], st)
        w.put(sem.new("fid"), S, "function.storage", w.enum["KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_EXTERN"], st)
    n = w.node(st, "node", None, lvalue=0)
    w.put(n, "kefir_ast_function_call", "function", f, st)
    w.make_list(st, n, "kefir_ast_function_call", "arguments", nodes)
    fn = "kefir_ast_analyze_function_call_node"
    acc, sts = c.analyse(fn, n, st)
    ps = [] if params == ["void"] else params
    what = "call of %s (%s%s) with arguments (%s)" % (cname(ret), ", ".join(cname(p) for p in params or ()), ", ..." if ellipsis else "", ", ".join(map(str, args)))
    ok, dest = True, []
    if params is not None:
        if len(args) < len(ps) or (len(args) > len(ps) and not ellipsis):
            ok = False
    for i, A in enumerate(args):
        if params is not None and i < len(ps):
            r = call_param_ok(ps[i], A)
            if r == "open":
                return [], [], 0
            if r is None:
                ok = False
            dest.append(unq(ps[i]))
        else:
            if A.t == "void":
                ok = False
            dest.append(default_promoted(A.t))
    tp, vp = [], []
    typing(tp, w, acc, sts, n, unq(ret) if ok else None, what, fn)
    if not ok or not acc or w.types_only:
        return tp, vp, 1
    fn = "kefir_ast_translate_function_call_node"
    for s in sts:
        for v, s2 in c.translate(fn, n, s):
            if v != 0:
                if isinstance(v, int):
                    vp.append((fn, what, "the accepted call is not translated (error %s)" % v))
                continue
            base = c.valtype(s2)
            valtype = lambda nd: "ulong" if vname(nd) == "function" else base(nd)
            try:
                for conds, stk, eff, ex in Machine(s2.trace, valtype, sem.patches(w, s2), calls=s2.x.get("decls", {})).run():
                    vp += [(fn, what, p) for p in call_problems(w, ret, dest, args, names, how, ex, stk, eff, ellipsis or params is None or len(args) > len(ps))]
            except Bad as e:
                vp.append((fn, what, str(e)))
    return tp, vp, 1


def call_problems(w, ret, dest, args, names, how, ex, stk, eff, variadic):
    if ex != "end":
        return ["the emitted code leaves the construct (%s)" % ex]
    calls = [e for e in eff if e[0] == "call"]
    if len(calls) != 1:
        return ["calls %d times" % len(calls)]
    out = []
    _, callee, av, va = calls[0]
    want_ev = names + (["function"] if how == "ptr" else [])
    if sorted(x for x in evals(eff) if x != "function" or how == "ptr") != sorted(want_ev):
        out.append("evaluates %s, C requires each argument once" % evals(eff))
    if [i for i, e in enumerate(eff) if e[0] == "call"][0] < max([i for i, e in enumerate(eff) if e[0] == "eval"] or [-1]):
        out.append("evaluates an argument after the call")
    if how == "ptr" and callee != ("v", sem.new("function"), "ulong"):
        out.append("calls %s instead of the function designated" % show(w, callee))
    if how == "name" and callee != ("named", sem.new("fname")) and callee != ("v", sem.new("function"), "ulong"):
        out.append("calls %s instead of the named function" % show(w, callee))
    if len(av) != len(dest):
        return out + ["passes %d arguments instead of %d" % (len(av), len(dest))]
    if variadic and not va:
        out.append("the call of a variadic function is not marked variadic")
    for (t, v), d, A, nm in zip(av, dest, args, names):
        t = unq(t)
        if t != d and not (d in sem.BASIC and t in sem.BASIC and not is_flt(d) and not is_flt(t) and csem.width(t) == csem.width(d)) \
                and not (is_ptr(t) and is_ptr(d)) and not ("enum" in (t, d)):
            out.append("%s is passed as %s, C requires %s" % (nm, cname(t), cname(d)))
            continue
        want = conv([V(nm, A)], unq(A.t), d)
        n = 80 if d == "ldouble" else fw(d) if is_flt(d) else 8 if d == "bool" else csem.width(d)
        cut = (lambda x: x) if n == 80 else (lambda x: low(x, n))
        if not any(not sem.differ(cut(v), cut(x)) for x in want):
            out.append("%s is passed the value %s, C requires %s" % (nm, show(w, v), show(w, want[0])))
    r = unq(ret)
    raw = ("v", ("result", 0), r if is_flt(r) else "ulong")
    if r == "void":
        exp = [[]]
    elif is_flt(r) or is_ptr(r):
        exp = [value_slots(r, raw)]
    elif r == "bool":
        exp = [[mk("nz", raw)], [ext("zext", 8, raw)], [mk("nz", ext("zext", 8, raw))]]
    else:
        exp = [[x] for x in conv([raw], "ulong", r)]
    if not any(len(stk) == len(e) and all(same_slot(r, x, y) for x, y in zip(stk, e)) for e in exp):
        out.append("leaves %s as the result, C requires %s" % (show(w, tuple(stk)), show(w, tuple(exp[0]))))
    return out


# ---------------------------------------------------------------- case enumeration and reporting
def cases(groups):
    """[(group, operator, runner, args)]"""
    out = []
    O = operands()
    if "binary" in groups:
        for op in BINOPS:
            for A in O:
                for B in O:
                    out.append(("binary", op, run_binary, (op, A, B)))
    for op in UNOPS:
        g = "incdec" if "CREMENT" in op else "unary"
        if g in groups:
            for A in O + [Opnd("int", lvalue=0)]:
                for off in (BF_OFFSET[A.bf] if A.bf else (None,)):
                    out.append((g, op, run_unary, (op, A, off)))
    NB_ = operands(bitfields=False)
    TO = ARITH + ["pint", "pvoid", "pcint", "void", "cint"]
    if "typeconv" in groups:
        out += [("typeconv", "convert", run_typeconv, (A, t)) for A in NB_ for t in TO]
    if "cast" in groups:
        out += [("cast", "cast", run_cast, (A, t)) for A in O for t in TO]
    if "cond" in groups:
        V_ = [Opnd("void", lvalue=0)]
        out += [("cond", "?:", run_cond, (Opnd("int"), A, B)) for A in O + V_ for B in O + V_]
        out += [("cond", "?:", run_cond, (C, Opnd("int"), Opnd("int"))) for C in O]
        out += [("cond", "?:gnu", run_cond, (C, None, B)) for C in O for B in O]
    if "comma" in groups:
        T = ["int", "double", "ldouble", "pint", "char", "void"]
        out += [("comma", ",", run_comma, (list(p),)) for k in (2, 3) for p in itertools.product(T, repeat=k) if p[-1] != "void"]
    if "return" in groups:
        out += [("return", "return", run_return, (A, t)) for A in O for t in TO]
        out += [("return", "return", run_return, (None, t)) for t in TO]
    if "subscript" in groups:
        out += [("subscript", "[]", run_subscript, (A, B)) for A in O for B in O]
    if "call" in groups:
        PT = [t for t in TO if t != "void"]
        out += [("call", "()", run_call, ("int", [t], False, [A], "ptr")) for A in O for t in PT]
        out += [("call", "()", run_call, ("int", None, False, [A], h)) for A in O for h in ("ptr", "name")]
        out += [("call", "()", run_call, ("int", ["int"], True, [Opnd("int"), A], h)) for A in O for h in ("ptr", "name")]
        out += [("call", "()", run_call, (t, ["void"], False, [], h)) for t in TO for h in ("ptr", "name")]
        I, D_, L = Opnd("int"), Opnd("double"), Opnd("ldouble")
        for ps in (["void"], ["int"], ["int", "double"], ["ldouble", "char", "pint"]):
            for e in (False, True):
                if e and ps == ["void"]:
                    continue
                for k in range(0, 5):
                    base = [Opnd(t) for t in ps if t != "void"]
                    out.append(("call", "()", run_call, ("long", ps, e, (base + [L, I, D_])[:k], "ptr")))
                    out.append(("call", "()", run_call, ("ldouble", ps, e, (base + [D_, L, I])[:k], "name")))
    if "assign" in groups:
        for op in ASGOPS:
            for A in O:
                for B in O:
                    for off in (BF_OFFSET[A.bf] if A.bf else (None,)):
                        out.append(("assign", op, run_assign, (op, A, B, off)))
    return out


DEVIATIONS = {
    "typeconv": [["float-to-bool"], ["float-to-ulong"]],
    "return": [["float-to-bool"]],
    "call": [["float-to-bool"]],
    "cast": [["float-to-bool"]],
    "binary": [["float-truth"]],
    "unary": [["float-truth"]],
    "cond": [["unconverted-arms"], ["float-truth"], ["float-truth", "unconverted-arms"]],
    "assign": [["float-to-bool"], ["compound-range"], ["compound-signedness"], ["compound-signedness", "compound-range"]],
}

_W = None


def run_case(case, want_types):
    """[(kind, fn, what, msg, tag)], counted"""
    group, op, runner, args = case
    w = _W
    try:
        csem.D.clear()
        if want_types:
            w.types_only = True
        tp, vp, n = runner(w, *args)
        ttag = None
        if tp and op in ("SIZEOF", "ALIGNOF"):
            csem.D.add("sizeof-int")
            ttag = "sizeof-int" if not runner(w, *args)[0] else None
            csem.D.clear()
        out = [("T",) + p + (ttag,) for p in tp]
        if vp:
            tag = None
            if group == "cond" and args[0].t == "ldouble":
                tag = "ldouble-condition"
            for d in DEVIATIONS.get(group, ()):
                if tag:
                    break
                csem.D.clear()
                csem.D.update(d)
                if not runner(w, *args)[1]:
                    tag = "+".join(d)
            csem.D.clear()
            out += [("V",) + p + (tag,) for p in vp]
        return out, n, 0
    except (AnalysisBroken, sem.Unknown, RecursionError) as e:
        return [], 0, 1
    finally:
        csem.D.clear()
        w.types_only = False


def _chunk(arg):
    cs, want_types = arg
    return [run_case(_CASES[i], want_types) for i in cs]


_CASES = None


def run_cases(prog, groups, res, kinds, rule, deviations=True):
    """evaluate all cases on all cores; add findings of the given kinds"""
    global _W, _CASES
    import multiprocessing as mp
    _W = sem.World(prog)
    _W.types_only = False
    _CASES = cases(groups)
    n = len(_CASES)
    jobs = min(8, os.cpu_count() or 1)
    step = 64
    chunks = [(list(range(i, min(i + step, n))), kinds == "T") for i in range(0, n, step)]
    ctx = mp.get_context("fork")
    with ctx.Pool(jobs) as pool:
        parts = pool.map(_chunk, chunks, chunksize=1)
    rs = [r for p in parts for r in p]
    found = {}
    for case, (probs, cnt, und) in zip(_CASES, rs):
        g, op = case[0], case[1]
        res.count("operand combinations of %s" % g, cnt)
        res.count("undetermined", und)
        for kind, fn, what, msg, tag in probs:
            if kind not in kinds:
                continue
            key = (fn, g, op, tag or "")
            found.setdefault(key, []).append((what, msg))
    if not any(r[1] for r in rs):
        raise AnalysisBroken("no case of %s could be evaluated" % groups)
    for (fn, g, op, tag), l in sorted(found.items()):
        f = _W.prog.funcs.get(fn) if hasattr(_W.prog, "funcs") else None
        where = locate(_W, fn)
        ident = "|".join([rule, g, op, tag or "other"])
        what, msg = l[0]
        extra = "" if len(l) == 1 else " (and %d more: %s)" % (len(l) - 1, "; ".join(sorted(set(x[0] for x in l[1:6]))))
        res.find(rule, where, "`%s`: %s%s" % (what, msg, extra), func=fn, ident=ident)
    return rs


def locate(w, fn):
    f = w.fn(fn)
    for b in f.order:
        for i in f.blocks[b].ins:
            if getattr(i, "dbg", None):
                return w.prog.where(i)
    return "source:0"
