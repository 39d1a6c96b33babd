"""What ISO C17 (LP64, two's complement) says about expressions: result types, constraints and values as terms.

Values are terms of kv.sem.  A list of terms means: any of them is acceptable (undefined overflow, unspecified results)."""
from .sem import mk, mkf, ext, i2f, low, BASIC, FLOATS, rng

INTS = ["bool", "char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "enum"]
FLTS = ["float", "double", "ldouble"]
ARITH = INTS + FLTS
RANK = {"bool": 0, "char": 1, "schar": 1, "uchar": 1, "short": 2, "ushort": 2, "int": 3, "enum": 3, "uint": 3, "long": 4, "ulong": 4,
        "llong": 5, "ullong": 5}
UNS = {"int": "uint", "long": "ulong", "llong": "ullong"}


D = set()   # deviations from C switched on, to recognise exactly one recorded defect (see known_findings.txt)


def base(t):
    return "int" if t == "enum" else t


def width(t):
    return 64 if is_ptr(t) else BASIC[base(t)][1]


def signed(t):
    return False if is_ptr(t) else BASIC[base(t)][2]


def is_ptr(t):
    return t[0] == "p"


def is_int(t):
    return t in INTS


def is_flt(t):
    return t in FLTS


def is_arith(t):
    return t in ARITH


def is_scalar(t):
    return is_arith(t) or is_ptr(t)


def promote(t, bf=None):
    if is_flt(t):
        return t
    if bf:
        if bf < 32 or (bf == 32 and signed(t)):
            return "int"
        if bf == 32:
            return "uint"
        return base(t)
    if RANK[t] < RANK["int"] or t == "enum":
        return "int"
    return t


def uac(a, b, fa=None, fb=None):
    for f in ("ldouble", "double", "float"):
        if a == f or b == f:
            return f
    a, b = promote(a, fa), promote(b, fb)
    if a == b:
        return a
    if signed(a) == signed(b):
        return a if RANK[a] > RANK[b] else b
    if signed(a):
        a, b = b, a
    if RANK[a] >= RANK[b]:
        return a
    if width(b) > width(a):
        return b
    return UNS[b]


def fw(t):
    return FLOATS[t]


def conv(xs, a, b, strict=False):
    """acceptable terms for the values xs of type a converted to type b"""
    out = []
    for x in xs:
        if b == "void":
            continue
        if b == "bool":
            if "float-to-bool" in D and is_flt(a):
                out.append(mk("nz", ("f2i", fw(a), low(x, fw(a)) if fw(a) < 80 else x, None)))
            else:
                out.append(conv_truth(x, a))
        elif is_flt(b):
            if is_flt(a):
                out.append(x if a == b else ("f2f", fw(a), fw(b), low(x, fw(a)) if fw(a) < 80 else x))
            else:
                out.append(i2f(fw(b), signed(a), x))
        elif is_flt(a):
            y = ("f2i", fw(a), low(x, fw(a)) if fw(a) < 80 else x, None)
            if b == "ulong" or b == "ullong":
                if strict and "float-to-ulong" not in D:
                    y = ("f2u64",) + y[1:3]
                elif not strict:
                    out.append(("f2u64",) + y[1:3])
            out.append(y)
            if width(b) < 64:
                z = ext("sext" if signed(b) else "zext", width(b), y)
                if signed(b):
                    out.append(z)
                else:
                    out[-1] = z
        elif width(b) < 64:
            out.append(ext("sext" if signed(b) else "zext", width(b), x))
        else:
            out.append(x)
    return out


def truth(x, t):
    """x != 0 as a controlling operand"""
    if t in ("float", "double") and "float-truth" in D:
        return mk("nz", x)
    return conv_truth(x, t)


def conv_truth(x, t):
    if is_flt(t):
        return ("fnz", fw(t), low(x, fw(t)) if fw(t) < 80 else x)
    return mk("nz", x)


def wrap(t, x):
    """result x of an arithmetic operator in type t; unsigned results are reduced, signed overflow is undefined"""
    w = width(t)
    if w == 64:
        return [x]
    if signed(t):
        return [x, ext("sext", w, x)]
    return [ext("zext", w, x)]


IOP = {"ADD": "add", "SUBTRACT": "sub", "MULTIPLY": "mul", "BITWISE_AND": "and", "BITWISE_OR": "or", "BITWISE_XOR": "xor"}
FOP = {"ADD": "fadd", "SUBTRACT": "fsub", "MULTIPLY": "fmul", "DIVIDE": "fdiv"}
REL = {"LESS": ("lt", 0, 0), "GREATER": ("lt", 1, 0), "LESS_EQUAL": ("lt", 1, 1), "GREATER_EQUAL": ("lt", 0, 1)}


def arith(op, t, x, y):
    """op on operands already converted to the common type t"""
    if is_flt(t):
        w = fw(t)
        return [mkf(FOP[op], w, fl(x, w), fl(y, w))]
    if op in IOP:
        r = mk(IOP[op], x, y)
        return wrap(t, r)
    s = signed(t)
    r = mk({"DIVIDE": "idiv" if s else "udiv", "MODULO": "imod" if s else "umod"}[op], x, y)
    return wrap(t, r)


def fl(x, w):
    return low(x, w) if w < 80 else x


def shift(op, t, x, y):
    c = low(y, 6)
    if op == "SHIFT_LEFT":
        return wrap(t, mk("shl", x, c))
    return wrap(t, mk("ashr" if signed(t) else "lshr", x, c))


def compare(op, t, x, y):
    if is_flt(t):
        w = fw(t)
        x, y = fl(x, w), fl(y, w)
        if op in ("EQUAL", "NOT_EQUAL"):
            r = mkf("feq", w, x, y)
            return [r if op == "EQUAL" else mk("not", r)]
        if op == "LESS":
            return [("flt", w, x, y)]
        if op == "GREATER":
            return [("flt", w, y, x)]
        if op == "LESS_EQUAL":
            return [("fle", w, x, y)]
        return [("fle", w, y, x)]
    if op in ("EQUAL", "NOT_EQUAL"):
        r = mk("eq", x, y)
        return [r if op == "EQUAL" else mk("not", r)]
    k, swap, neg = REL[op]
    ks = [k] if signed(t) else ["u" + k]
    if is_ptr(t):
        ks = ["u" + k, k]
    out = []
    for k in ks:
        r = mk(k, y, x) if swap else mk(k, x, y)
        out.append(mk("not", r) if neg else r)
    return out


def pointee(t):
    return t[1:]


def unq(t):
    while t[0] in "cq" and t not in BASIC:
        t = t[1:]
    return t


def complete(t):
    return unq(t) != "void"
