"""The type algebra: kefir's type objects are built by its own constructors inside the abstract interpreter, described structurally,
and its compatibility, composite-type, parameter-adjustment and promotion functions are compared, pair by pair, with C's rules."""
import itertools
from .. import ir, sem, absint, csem
from ..core import Result
from ..ir import AnalysisBroken
from ..sem import Bad, Unknown, new, BASIC
from .stmt import StmtWorld

TY = "kefir_ast_type"
QUALS = (("constant", "c"), ("restricted", "r"), ("volatile_type", "v"))


def cstr(s):
    return new(("str", s)) if s is not None else 0


class TypeWorld(StmtWorld):
    def __init__(self, prog, inline=None):
        super().__init__(prog, inline)
        it = self.it
        base_load = it.load

        def load(st, p, ty):
            if p == 0 or isinstance(p, tuple) and p[0] == "ptr" and p[1] == 0:
                raise Bad("a null pointer is dereferenced")
            return base_load(st, p, ty)
        it.load = load
        self.setup()
        self.cache = {}

    def base_models(self):
        super().base_models()
        M = self.models

        def sval(v):
            if isinstance(v, tuple) and v[0] == "ptr" and isinstance(v[1], tuple) and v[1][0] == "new" and \
                    isinstance(v[1][1], tuple) and v[1][1][0] == "str" and v[2] == 0:
                return v[1][1][1]
            if v == 0:
                raise Bad("a null pointer is used as a string")
            s = self.it.string(v)
            if s is None:
                raise Unknown("string contents")
            return s
        self.sval = sval

        def strcmp(it, st, ins, a):
            x, y = sval(a[0]), sval(a[1])
            return [((x > y) - (x < y), st)]
        M["strcmp"] = strcmp
        M["strlen"] = lambda it, st, ins, a: [(len(sval(a[0])), st)]

        # hash trees: a map from the key's contents to nodes; insertion order stands for the unspecified iteration order
        def trees(st):
            return st.x.setdefault("trees", {})

        def hinit(it, st, ins, a):
            st.x["trees"] = dict(trees(st), **{})
            st.x["trees"][a[0]] = ()
            return [(0, st)]

        def hinsert(it, st, ins, a):
            t = dict(trees(st))
            k = sval(a[2])
            if any(k == x for x, _ in t.get(a[1], ())):
                return [(self.enum["KEFIR_ALREADY_EXISTS"], st)]
            node = new(("htn", a[1], k))
            self.put(node, "kefir_hashtree_node", "key", a[2], st)
            self.put(node, "kefir_hashtree_node", "value", a[3], st)
            t[a[1]] = t.get(a[1], ()) + ((k, node),)
            st.x["trees"] = t
            return [(0, st)]

        def hat(it, st, ins, a):
            k = sval(a[1])
            for x, node in trees(st).get(a[0], ()):
                if x == k:
                    it.store(st, a[2], node)
                    return [(0, st)]
            return [(self.enum["KEFIR_NOT_FOUND"], st)]

        def hhas(it, st, ins, a):
            k = sval(a[1])
            return [(int(any(x == k for x, _ in trees(st).get(a[0], ()))), st)]

        def hiter(it, st, ins, a):
            ns = [n for _, n in trees(st).get(a[0], ())]
            st.x = dict(st.x)
            st.x[("hit", a[1])] = tuple(ns[1:])
            return [(ns[0] if ns else 0, st)]

        def hnext(it, st, ins, a):
            ns = st.x.get(("hit", a[0]), ())
            st.x = dict(st.x)
            st.x[("hit", a[0])] = ns[1:]
            return [(ns[0] if ns else 0, st)]
        M["kefir_hashtree_init"] = hinit
        M["kefir_hashtree_insert"] = hinsert
        M["kefir_hashtree_at"] = hat
        M["kefir_hashtree_has"] = hhas
        M["kefir_hashtree_iter"] = hiter
        M["kefir_hashtree_next"] = hnext
        M["kefir_hashtree_on_removal"] = lambda it, st, ins, a: [(0, st)]
        M["kefir_hashtree_free"] = lambda it, st, ins, a: [(0, st)]
        M["kefir_symbol_table_insert"] = lambda it, st, ins, a: [(a[2], st)]
        M["kefir_ast_node_class.clone"] = lambda it, st, ins, a: [(("ptr", a[1][1], a[1][2]) if isinstance(a[1], tuple) else a[1], st)]

    def setup(self):
        keep = {n: self.models[n] for n in ("kefir_hashtree_init",)}
        super().setup()
        self.models.update(keep)

    # ---------------------------------------------------------------- construction
    def build(self, d):
        if isinstance(d, str):
            if d == "va_list" and d not in self.T:
                self.T[d] = self.call1("kefir_ast_type_va_list", [])
            return self.T[d]
        if d in self.cache:
            return self.cache[d]
        k = d[0]
        M, B = self.mem, self.bundle
        if k == "p":
            t = self.call1("kefir_ast_type_pointer", [M, B, self.build(d[1])])
        elif k == "q":
            q = sum(1 << (8 * i) for i, (_, c) in enumerate(QUALS) if c in d[1])
            t = self.call1("kefir_ast_type_qualified", [M, B, self.build(d[2]), q])
        elif k == "a":      # ("a", length, static, quals, element); length None | int | ("vla", name|None)
            _, ln, stat, quals, el = d
            el = self.build(el)
            qs = new(("quals", d))
            for i, (m, c) in enumerate(QUALS):
                self.put(qs, "kefir_ast_type_qualification", m, int(c in quals))
            if ln is None:
                t = self.call1("kefir_ast_type_unbounded_array", [M, B, el, qs])
            elif isinstance(ln, int):
                c = self.call1("kefir_ast_constant_expression_integer", [M, ln])
                t = self.call1("kefir_ast_type_array_static" if stat else "kefir_ast_type_array", [M, B, el, c, qs])
            else:
                n = 0
                if ln[1] is not None:
                    n = self.node(self.st, ("vlalen", ln[1]), "int")
                    kl = new(("klass", "vlalen"))
                    self.put(n, "kefir_ast_node_base", "klass", kl)
                    self.put(kl, "kefir_ast_node_class", "clone", ("fn", "kefir_ast_node_class.clone"))
                t = self.call1("kefir_ast_type_vlen_array_static" if stat else "kefir_ast_type_vlen_array", [M, B, el, n, qs])
        elif k == "f":      # ("f", ret, params|None|("ids", n), ellipsis)
            slot = new(("fslot", d))
            t = self.call1("kefir_ast_type_function", [M, B, self.build(d[1]), slot])
            ft = self.it.load(self.st, slot, "ptr")
            if d[2] is not None and d[2][:1] == ("ids",):
                for i in range(d[2][1]):
                    self.okcall("kefir_ast_type_function_parameter", [M, B, ft, 0, 0])
            elif d[2] is not None:
                for p in d[2]:
                    self.okcall("kefir_ast_type_function_parameter", [M, B, ft, self.build(p), 0])
            self.okcall("kefir_ast_type_function_ellipsis", [ft, int(d[3])])
        elif k in "su":     # ("s", tag, fields|None); field = (name|None, type, width|None)
            nm = "structure" if k == "s" else "union"
            if d[2] is None:
                t = self.call1("kefir_ast_type_incomplete_" + nm, [M, B, cstr(d[1])])
            else:
                slot = new(("sslot", d))
                t = self.call1("kefir_ast_type_" + nm, [M, B, cstr(d[1]), slot])
                sp = self.it.load(self.st, slot, "ptr")
                for f in d[2]:
                    ft = self.build(f[1])
                    if f[2] is None:
                        self.okcall("kefir_ast_struct_type_field", [M, new("symbols"), sp, cstr(f[0]), ft, 0])
                    else:
                        c = self.call1("kefir_ast_constant_expression_integer", [M, f[2]])
                        self.okcall("kefir_ast_struct_type_bitfield", [M, new("symbols"), sp, cstr(f[0]), ft, 0, c])
        elif k == "e":      # ("e", tag, constants|None, underlying)
            if d[2] is None:
                t = self.call1("kefir_ast_type_incomplete_enumeration", [M, B, cstr(d[1]), self.build(d[3])])
            else:
                slot = new(("eslot", d))
                t = self.call1("kefir_ast_type_enumeration", [M, B, cstr(d[1]), self.build(d[3]), slot])
                ep = self.it.load(self.st, slot, "ptr")
                for nm, v in d[2]:
                    c = self.call1("kefir_ast_constant_expression_integer", [M, v])
                    self.okcall("kefir_ast_enumeration_type_constant", [M, new("symbols"), ep, cstr(nm), c])
        else:
            raise AnalysisBroken("type description %r" % (d,))
        if not isinstance(t, tuple):
            raise Bad("the type %s cannot be constructed" % tshow(d))
        self.cache[d] = t
        return t

    def okcall(self, fn, args):
        if self.call1(fn, args) != 0:
            raise Bad("%s fails on valid arguments" % fn)

    # ---------------------------------------------------------------- description
    def describe(self, t, st=None, depth=0):
        st = st or self.st
        L = lambda p, s, m: st.known(self.load(p, s, m, st)) if st.known(self.load(p, s, m, st)) is not None else self.load(p, s, m, st)
        if t == 0:
            return None
        if t in self.info:
            return self.info[t] if self.info[t] in BASIC else self.describe_raw(t, st, depth, L)
        return self.describe_raw(t, st, depth, L)

    def items(self, l, st):
        out, e, n = [], self.load(l, "kefir_list", "head", st), 0
        while e != 0:
            out.append(self.load(e, "kefir_list_entry", "value", st))
            e = self.load(e, "kefir_list_entry", "next", st)
            n += 1
            if n > 64:
                raise Unknown("list does not end")
        return out

    def quals(self, p, s, pre, st):
        return "".join(c for m, c in QUALS if st.known(self.load(p, s, pre + m, st)))

    def describe_raw(self, t, st, depth, L):
        if depth > 8:
            raise Unknown("type nests too deeply")
        if t == 0:
            return None
        tag = L(t, TY, "tag")
        E = self.enum
        R = lambda x: self.describe(x, st, depth + 1)
        if tag == E["KEFIR_AST_TYPE_SCALAR_POINTER"]:
            return ("p", R(L(t, TY, "referenced_type")))
        if tag == E["KEFIR_AST_TYPE_QUALIFIED"]:
            return ("q", self.quals(t, TY, "qualified_type.qualification.", st), R(L(t, TY, "qualified_type.type")))
        if tag == E["KEFIR_AST_TYPE_ARRAY"]:
            b = L(t, TY, "array_type.boundary")
            el = R(L(t, TY, "array_type.element_type"))
            q = self.quals(t, TY, "array_type.qualifications.", st)
            if b == E["KEFIR_AST_ARRAY_UNBOUNDED"]:
                return ("a", None, 0, q, el)
            if b in (E["KEFIR_AST_ARRAY_BOUNDED"], E["KEFIR_AST_ARRAY_BOUNDED_STATIC"]):
                c = L(t, TY, "array_type.const_length")
                n = L(c, "kefir_ast_constant_expression", "value.integer")
                return ("a", n, int(b == E["KEFIR_AST_ARRAY_BOUNDED_STATIC"]), q, el)
            n = L(t, TY, "array_type.vla_length")
            return ("a", ("vla", nodename(n)), int(b == E["KEFIR_AST_ARRAY_VLA_STATIC"]), q, el)
        if tag == E["KEFIR_AST_TYPE_FUNCTION"]:
            ft = absint.ptradd(t, self.off(TY, "function_type.return_type") - self.off("kefir_ast_function_type", "return_type"))
            FT = "kefir_ast_function_type"
            mode = L(ft, FT, "mode")
            ps = self.items(absint.ptradd(ft, self.off(FT, "parameters.head")), st)
            if mode == E["KEFIR_AST_FUNCTION_TYPE_PARAM_EMPTY"]:
                params = None
            elif mode == E["KEFIR_AST_FUNCTION_TYPE_PARAM_IDENTIFIERS"]:
                params = ("ids", len(ps))
            else:
                params = tuple(R(L(p, "kefir_ast_function_type_parameter", "adjusted_type")) for p in ps)
            return ("f", R(L(ft, FT, "return_type")), params, L(ft, FT, "ellipsis"))
        if tag in (E["KEFIR_AST_TYPE_STRUCTURE"], E["KEFIR_AST_TYPE_UNION"]):
            k = "s" if tag == E["KEFIR_AST_TYPE_STRUCTURE"] else "u"
            sp = absint.ptradd(t, self.off(TY, "structure_type.complete") - self.off("kefir_ast_struct_type", "complete"))
            ST = "kefir_ast_struct_type"
            idn = L(sp, ST, "identifier")
            idn = self.sval(idn) if idn != 0 else None
            if not L(sp, ST, "complete"):
                return (k, idn, None)
            fs = []
            for p in self.items(absint.ptradd(sp, self.off(ST, "fields.head")), st):
                F = "kefir_ast_struct_field"
                n = L(p, F, "identifier")
                bf = L(p, F, "bitfield")
                w = None
                if bf:
                    w = L(L(p, F, "bitwidth"), "kefir_ast_constant_expression", "value.integer")
                fs.append((self.sval(n) if n != 0 else None, R(L(p, F, "type")), w))
            return (k, idn, tuple(fs))
        if tag == E["KEFIR_AST_TYPE_ENUMERATION"]:
            ep = absint.ptradd(t, self.off(TY, "enumeration_type.complete") - self.off("kefir_ast_enum_type", "complete"))
            ET = "kefir_ast_enum_type"
            idn = L(ep, ET, "identifier")
            idn = self.sval(idn) if idn != 0 else None
            und = R(L(ep, ET, "underlying_type"))
            if not L(ep, ET, "complete"):
                return ("e", idn, None, und)
            cs = []
            for p in self.items(absint.ptradd(ep, self.off(ET, "enumerators.head")), st):
                c = L(p, "kefir_ast_enum_enumerator", "value")
                v = L(c, "kefir_ast_constant_expression", "value.integer") if c != 0 else None
                cs.append((self.sval(L(p, "kefir_ast_enum_enumerator", "identifier")), v))
            return ("e", idn, tuple(cs), und)
        for n in BASIC:
            if tag == self.st.known(self.load(self.T[n], TY, "tag")):
                return n
        if tag == E["KEFIR_AST_TYPE_VA_LIST"]:
            return "va_list"
        raise Unknown("type with tag %r" % (tag,))

    # ---------------------------------------------------------------- queries
    def run1(self, fnv, args, st=None):
        """call a function value (vtable slot content)"""
        f = self.prog.funcs.get(fnv[1]) if isinstance(fnv, tuple) and fnv[0] == "fn" else None
        if f is None:
            raise AnalysisBroken("type operation slot does not hold a function")
        outs = [(v, s) for v, s in self.it.run(f, args, (st or self.st).copy()) if v is not None]
        if len(outs) != 1:
            raise Unknown("%s has %d outcomes" % (f.name, len(outs)))
        return outs[0]

    def compatible(self, a, b):
        pa, pb = self.build(("p", a)), self.build(("p", b))
        v, _ = self.run1(self.load(pa, TY, "ops.compatible"), [self.traits, pa, pb])
        return v

    def same(self, a, b):
        """of two separately built objects"""
        x = self.build(a)
        keep, self.cache = self.cache, {k: v for k, v in self.cache.items() if isinstance(k, str)}
        y = self.build(b)
        self.cache = keep
        return self.run1(self.load(x, TY, "ops.same"), [x, y])[0]

    def byname(self, fn, **kw):
        """call with arguments given per source parameter; structures passed by value are (coerced) parts or a pointer"""
        f, args, used = self.fn(fn), [], {}
        for i, prm in enumerate(f.params):
            nm = (prm if isinstance(prm, str) else prm[0]).lstrip("%")
            nm, _, c = nm.partition(".coerce")
            v = kw[nm]
            if isinstance(v, dict):
                if c:
                    v = list(v.values())[int(c)]
                else:
                    q = new(("byval", fn, nm, tuple(v.items())))
                    for m, x in v.items():
                        self.put(q, "kefir_ast_bitfield_properties", m, x)
                    v = q
            args.append(v)
        return self.call1(fn, args)

    def composite(self, a, b):
        pa, pb = self.build(("p", a)), self.build(("p", b))
        v, s = self.run1(self.load(pa, TY, "ops.composite"), [self.mem, self.bundle, self.traits, pa, pb])
        if v == 0:
            return None
        d = self.describe(v, s)
        if d is None or d[0] != "p":
            return d
        return d[1]


def nodename(n):
    if n == 0:
        return None
    if isinstance(n, tuple) and n[0] == "ptr" and isinstance(n[1], tuple) and isinstance(n[1][1], tuple) and n[1][1][0] == "vlalen":
        return n[1][1][1]
    return ("node", n)


def tshow(d):
    if d is None:
        return "none"
    if isinstance(d, str):
        return {"uint": "unsigned int", "ulong": "unsigned long", "llong": "long long", "ullong": "unsigned long long",
                "uchar": "unsigned char", "schar": "signed char", "ushort": "unsigned short", "ldouble": "long double",
                "bool": "_Bool"}.get(d, d)
    k = d[0]
    if k == "p":
        return "pointer to " + tshow(d[1])
    if k == "q":
        return " ".join({"c": "const", "r": "restrict", "v": "volatile"}[c] for c in d[1]) + " " + tshow(d[2])
    if k == "a":
        n = "" if d[1] is None else d[1] if isinstance(d[1], int) else (d[1][1] or "*")
        return "array[%s%s%s] of %s" % ("static " if d[2] else "", d[3] and d[3] + " ", n, tshow(d[4]))
    if k == "f":
        ps = "" if d[2] is None else "%d identifiers" % d[2][1] if d[2][:1] == ("ids",) else ", ".join(map(tshow, d[2]))
        return "function(%s%s) returning %s" % (ps, ", ..." if d[3] else "", tshow(d[1]))
    if k in "su":
        nm = ("struct " if k == "s" else "union ") + (d[1] or "")
        return nm if d[2] is None else nm + " {" + "; ".join("%s %s%s" % (tshow(t), n or "", "" if w is None else ":%d" % w) for n, t, w in d[2]) + "}"
    if k == "e":
        return "enum %s%s" % (d[1] or "", "" if d[2] is None else " {" + ", ".join("%s=%s" % x for x in d[2]) + "}")
    return str(d)


# ---------------------------------------------------------------- C's rules
def unq(d):
    return d[2] if isinstance(d, tuple) and d[0] == "q" else d


def quals_of(d):
    return frozenset(d[1]) if isinstance(d, tuple) and d[0] == "q" else frozenset()


def adjust(d):
    if isinstance(unq(d), str):
        return d
    u = unq(d)
    if u[0] == "a":
        p = ("p", u[4])
        return ("q", u[3], p) if u[3] else p
    if u[0] == "f":
        return ("p", d)
    return d


PROMOTED = {"bool": "int", "char": "int", "uchar": "int", "schar": "int", "ushort": "int", "short": "int", "float": "double"}


def compat(a, b):
    """C17 6.2.7, 6.7.2.2, 6.7.3, 6.7.6; None where this tool takes no position"""
    if quals_of(a) != quals_of(b):
        return False
    a, b = unq(a), unq(b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if a[0] == "e" and isinstance(b, str):
        return b == a[3]
    if b[0] == "e" and isinstance(a, str):
        return a == b[3]
    if isinstance(a, str) or isinstance(b, str) or a[0] != b[0]:
        return False
    k = a[0]
    if k == "p":
        return compat(a[1], b[1])
    if k == "a":
        e = compat(a[4], b[4])
        if isinstance(a[1], int) and isinstance(b[1], int) and a[1] != b[1]:
            return False
        return e
    if k == "f":
        if not compat(unq(a[1]), unq(b[1])):
            return False
        pa, pb = (x[2] is not None and x[2][:1] != ("ids",) for x in (a, b))
        if pa and pb:
            if a[3] != b[3] or len(a[2]) != len(b[2]):
                return False
            return all(compat(unq(adjust(x)), unq(adjust(y))) for x, y in zip(a[2], b[2]))
        if pa or pb:
            f = a if pa else b
            if f[3]:
                return False
            return all(unq(adjust(x)) not in PROMOTED for x in f[2])
        return True
    if k == "s" or k == "u":
        if a[1] != b[1]:
            return False
        if a[2] is None or b[2] is None:
            return True
        if len(a[2]) != len(b[2]):
            return False

        def same(x, y):
            return x[0] == y[0] and x[2] == y[2] and compat(x[1], y[1])
        if k == "s":
            return all(same(x, y) for x, y in zip(a[2], b[2]))
        rest = list(b[2])
        for x in a[2]:
            c = [y for y in rest if same(x, y)]
            if not c:
                return False
            rest.remove(c[0])
        return True
    if k == "e":
        if a[1] != b[1]:
            return False
        return a[2] is None or b[2] is None or a[2] == b[2]
    return None


def comp(a, b):
    """composite of two compatible types, as the set of acceptable descriptions' canonical form"""
    ua, ub = unq(a), unq(b)
    q = quals_of(a)
    if q:
        r = comp(ua, ub)
        return ("q", "".join(c for _, c in QUALS if c in q), r)
    a, b = ua, ub
    if isinstance(a, str):
        return ANYENUM if b[0] == "e" and not isinstance(b, str) else a
    if a[0] == "e":
        return ANYENUM
    k = a[0]
    if k == "p":
        return ("p", comp(a[1], b[1]))
    if k == "a":
        el = comp(a[4], b[4])
        for x in (a, b):
            if isinstance(x[1], int):
                return ("a", x[1], ANY, ANY, el)
        for x in (a, b):
            if x[1] is not None:
                return ("a", ANYVLA, ANY, ANY, el)
        return ("a", None, ANY, ANY, el)
    if k == "f":
        pa, pb = (x[2] is not None and x[2][:1] != ("ids",) for x in (a, b))
        ret = ANYQ2(comp(unq(a[1]), unq(b[1])))
        if pa and pb:
            return ("f", ret, tuple(comp(unq(adjust(x)), unq(adjust(y))) for x, y in zip(a[2], b[2])), a[3])
        if pa or pb:
            f = a if pa else b
            return ("f", ANYRET, tuple(ANYQ(adjust(x)) for x in f[2]), f[3])
        return ("f", ANYRET, ANY, 0)
    if k in "su":
        if a[2] is None or b[2] is None:
            return (k, a[1], ANY)
        out = []
        for i, x in enumerate(a[2]):
            y = b[2][i] if k == "s" else next(y for y in b[2] if y[0] == x[0] and y[2] == x[2] and compat(x[1], y[1]))
            out.append((x[0], comp(x[1], y[1]), x[2]))
        return (k, a[1], tuple(out))
    return a


class Wild:
    def __init__(self, name, ok):
        self.name, self.ok = name, ok

    def __repr__(self):
        return self.name


ANY = Wild("any", lambda d: True)
ANYRET = ANY
ANYENUM = Wild("the enumeration or its integer type", lambda d: isinstance(d, str) or d[0] == "e")
ANYVLA = Wild("variable", lambda d: isinstance(d, tuple) and d[0] == "vla")


def ANYQ2(p):
    return Wild(str(p), lambda x: fits(p, unq(x)))


def ANYQ(d):
    return Wild(tshow(d), lambda x: unq(x) == unq(d))


def fits(pat, d):
    if isinstance(pat, Wild):
        return pat is ANY or d is not None and pat.ok(d)
    if isinstance(pat, tuple):
        return isinstance(d, tuple) and len(pat) == len(d) and all(fits(p, x) for p, x in zip(pat, d))
    return pat == d


# ---------------------------------------------------------------- the universe of types compared
def universe(thorough):
    basics = ["void", "bool", "char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong",
              "float", "double", "ldouble", "va_list"]
    A = lambda n, el, s=0, q="": ("a", n, s, q, el)
    level1 = [("q", "c", "int"), ("q", "v", "int"), ("q", "cv", "int"), ("p", "int"), ("p", ("q", "c", "int")), ("p", "void"), ("p", "char"),
              ("q", "c", ("p", "int")), ("q", "r", ("p", "int")), ("q", "rv", ("p", "int")), ("p", ("p", "int")), ("p", ("p", ("q", "c", "int"))),
              A(None, "int"), A(3, "int"), A(4, "int"), A(("vla", "n"), "int"), A(("vla", None), "int"), A(3, "uint"), A(None, "char"),
              A(3, ("q", "c", "int")), A(2, A(3, "int")), A(2, A(4, "int")), A(None, A(3, "int")), A(2, A(("vla", "n"), "int")),
              A(2, ("p", A(None, "int"))), A(2, ("p", A(5, "int"))), A(("vla", "n"), ("p", A(None, "int"))), A(("vla", "n"), ("p", A(5, "int"))),
              A(None, ("p", A(None, "int"))), A(None, ("p", A(5, "int"))), A(3, "int", 1), A(3, "int", 0, "c")]
    structs = [("s", "S", None), ("s", "T", None), ("u", "S", None), ("u", "T", None),
               ("s", "S", (("a", "int", None),)), ("s", "S", (("a", "long", None),)), ("s", "S", (("b", "int", None),)),
               ("s", "S", (("a", "int", 3),)), ("s", "S", (("a", "int", 4),)), ("s", "S", (("a", "int", None), ("b", "int", None))),
               ("s", "S", (("b", "int", None), ("a", "int", None))), ("s", "S", (("a", ("p", A(None, "int")), None),)),
               ("s", "S", (("a", ("p", A(3, "int")), None),)), ("s", None, (("a", "int", None),)), ("s", None, (("b", "int", None),)),
               ("s", "S", ((None, ("s", None, (("x", "int", None),)), None),)), ("s", "S", ((None, ("s", None, (("x", "char", None),)), None),)),
               ("u", "S", (("a", "int", None),)), ("u", "S", (("a", "long", None),)), ("u", "S", (("b", "int", None),)),
               ("u", "S", (("a", "int", 3),)), ("u", "S", (("a", "int", 4),)),
               ("u", "S", (("a", "int", None), ("b", "char", None))), ("u", "S", (("b", "char", None), ("a", "int", None))),
               ("u", "S", (("a", "char", None), ("b", "int", None))), ("u", "S", (("a", ("p", A(None, "int")), None), ("b", "char", None))),
               ("u", "S", (("b", "char", None), ("a", ("p", A(3, "int")), None))), ("u", None, (("a", "int", None),)),
               ("e", "E", (("A", 0), ("B", 1)), "int"), ("e", "E", (("A", 0), ("B", 2)), "int"), ("e", "E", (("A", 0),), "int"),
               ("e", "F", (("A", 0), ("B", 1)), "int"), ("e", None, (("A", 0), ("B", 1)), "int"), ("e", None, (("A", 0), ("C", 1)), "int"),
               ("e", "G", (("A", 0),), "uint"), ("e", "E", None, "int")]
    F = lambda r, ps, e=0: ("f", r, ps, e)
    funcs = [F("int", None), F("int", ("ids", 1)), F("void", None), F("int", ("int",)), F("int", ("int",), 1), F("int", ("char",)),
             F("int", ("float",)), F("int", ("double",)), F("int", ("double",), 1), F("int", ("int", "int")), F("long", ("int",)),
             F("int", (("q", "c", "int"),)), F("int", (("p", "int"),)), F("int", (A(3, "int"),)), F("int", (A(None, "int", 0, "c"),)),
             F("int", (("p", ("q", "c", "int")),)), F("int", (F("int", ("int",)),)), F("int", (("p", F("int", ("int",))),)),
             F("int", (("p", F("int", None)),)), F(("q", "c", "int"), ("int",)), F("int", (("p", A(None, "int")),)), F("int", (("p", A(3, "int")),)),
             F("int", (("p", A(4, "int")),)), F("int", ("bool",)), F("int", ("uint",)), F("int", ("ullong", "ldouble")), F("int", ("ushort",)),
             F(("p", A(None, "int")), None), F(("p", A(3, "int")), ("int",)), F("int", (structs[4],))]
    return basics, level1, structs, funcs


def rules(w, pairs):
    bad, n = [], 0
    base, cache = w.st, dict(w.cache)
    for a, b in pairs:
        n += 1
        w.st, w.cache = base.copy(), dict(cache)
        want = compat(a, b)
        try:
            got = w.compatible(a, b)
        except Bad as e:
            bad.append(("compatible", a, b, "deciding whether they are compatible goes wrong: %s" % e))
            continue
        except Unknown as e:
            raise AnalysisBroken("compatibility of %s and %s is not decided: %s" % (tshow(a), tshow(b), e))
        if got not in (0, 1):
            raise AnalysisBroken("compatibility of %s and %s is not decided: %r" % (tshow(a), tshow(b), got))
        try:
            sm = w.same(a, b)
        except Bad as e:
            bad.append(("same", a, b, "deciding whether they are the same type goes wrong: %s" % e))
            continue
        except Unknown as e:
            raise AnalysisBroken("identity of %s and %s is not decided: %s" % (tshow(a), tshow(b), e))
        if sm not in (0, 1):
            raise AnalysisBroken("identity of %s and %s is not decided: %r" % (tshow(a), tshow(b), sm))
        if bool(sm) != (ident(a) == ident(b)) and ident(a) is not None:
            bad.append(("same", a, b, "they are taken to be %s" % ("different types" if not sm else "the same type")))
            continue
        if want is None:
            continue
        if bool(got) != want:
            bad.append(("compatible", a, b, "they are taken to be %s; C says they are %s" % (("incompatible", "compatible")[got], ("incompatible", "compatible")[want])))
            continue
        if want:
            pat = comp(a, b)
            try:
                c = w.composite(a, b)
            except Bad as e:
                bad.append(("composite", a, b, "forming the composite type goes wrong: %s" % e))
                continue
            except Unknown as e:
                raise AnalysisBroken("composite of %s and %s is not decided: %s" % (tshow(a), tshow(b), e))
            if not fits(pat, c):
                bad.append(("composite", a, b, "the composite type is %s, not %s" % (tshow(c), pat if isinstance(pat, Wild) else tshow_pat(pat))))
    return bad, n


def ident(d):
    """what kefir's identity of types distinguishes: everything but the qualifiers written inside [] and the expression of a variable length"""
    if isinstance(d, tuple) and len(d) == 5 and d[0] == "a":
        return ("a", d[1] if not isinstance(d[1], tuple) else ("vla", d[1][1] is None), d[2], ident(d[4]))
    if isinstance(d, tuple) and len(d) == 3 and d[0] == "u" and isinstance(d[2], tuple):
        return ("u", d[1], frozenset((x[0], ident(x[1]), x[2]) for x in d[2]))
    return tuple(ident(x) for x in d) if isinstance(d, tuple) else d


def arithmetic(w):
    """integer promotions (6.3.1.1) and the usual arithmetic conversions (6.3.1.8), bit-fields included"""
    bad, n = [], 0
    ops = [(t, None) for t in ("bool", "char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "float", "double", "ldouble")]
    ops += [("int", 5), ("int", 32), ("uint", 5), ("uint", 31), ("uint", 32), ("bool", 1), ("long", 12), ("ulong", 12), ("ushort", 16), ("ulong", 33), ("long", 40)]
    E = ("e", "E", (("A", 0), ("B", 1)), "int")
    G = ("e", "G", (("A", 0),), "uint")
    ops += [(E, None), (G, None)]
    und = lambda t: t if isinstance(t, str) else t[3]
    sh = lambda o: tshow(o[0]) + (" : %d" % o[1] if o[1] else "")
    for a in ops:
        if not csem.is_flt(und(a[0])):
            n += 1
            try:
                v = w.byname("kefir_ast_type_int_promotion", type_traits=w.traits, type=w.build(a[0]),
                             bitfield_props=dict(bitfield=int(a[1] is not None), width=a[1] or 0))
                got = w.describe(v)
            except Bad as e:
                got = str(e)
            except Unknown as e:
                raise AnalysisBroken("promotion of %s is not decided: %s" % (sh(a), e))
            want = csem.promote(und(a[0]), a[1])
            if got != want:
                bad.append(("promotion", a[0], None, "%s is promoted to %s, not %s" % (sh(a), tshow(got), tshow(want))))
        for b in ops:
            n += 1
            try:
                v = w.byname("kefir_ast_type_common_arithmetic", type_traits=w.traits, type1=w.build(a[0]), type2=w.build(b[0]),
                             bitfield1=dict(bitfield=int(a[1] is not None), width=a[1] or 0),
                             bitfield2=dict(bitfield=int(b[1] is not None), width=b[1] or 0))
                got = w.describe(v)
            except Bad as e:
                got = str(e)
            except Unknown as e:
                raise AnalysisBroken("common type of %s and %s is not decided: %s" % (sh(a), sh(b), e))
            want = csem.uac(und(a[0]), und(b[0]), a[1], b[1])
            if got != want:
                bad.append(("arithmetic", a[0], b[0], "the common type of %s and %s is %s, not %s" % (sh(a), sh(b), tshow(got), tshow(want))))
    return bad, n


def tshow_pat(p):
    try:
        return tshow(p)
    except Exception:
        return str(p)


def norm(d):
    """parameter types of nested function types in adjusted form"""
    if isinstance(d, tuple) and d and d[0] == "f" and d[2] is not None and d[2][:1] != ("ids",):
        return ("f", norm(d[1]), tuple(norm(adjust(p)) for p in d[2]), d[3])
    return tuple(norm(x) for x in d) if isinstance(d, tuple) else d


def adjustments(w, types):
    """parameter adjustment (6.7.6.3p7-8) and default argument promotion (6.5.2.2p6)"""
    bad, n = [], 0
    base, cache = w.st, dict(w.cache)
    for t in types:
        w.st, w.cache = base.copy(), dict(cache)
        n += 1
        try:
            if t != "va_list":
                f = w.describe(w.build(("f", "int", (t,), 0)))
                if f[2] != (norm(adjust(t)),):
                    bad.append(("adjust", t, None, "as a parameter it becomes %s, not %s" % (tshow(f[2][0]), tshow(adjust(t)))))
            if t == "void" or t == "va_list" or unq(t)[0] in "su" and unq(t)[2] is None and not isinstance(unq(t), str):
                continue
            v = w.call1("kefir_ast_type_function_default_argument_convertion_promotion", [w.mem, w.bundle, w.traits, w.build(t)])
            got = w.describe(v)
            u = unq(t)
            if not isinstance(u, str) and u[0] == "a":
                want = ("p", u[4])
            elif not isinstance(u, str) and u[0] == "f":
                want = ("p", u)
            elif not isinstance(u, str) and u[0] == "e":
                want = PROMOTED.get(u[3], u[3])
            else:
                want = PROMOTED.get(u, u) if isinstance(u, str) else u
            if got != norm(want):
                bad.append(("promotion", t, None, "as an argument without a parameter it becomes %s, not %s" % (tshow(got), tshow(want))))
        except Bad as e:
            bad.append(("adjust", t, None, str(e)))
        except Unknown as e:
            raise AnalysisBroken("adjustment of %s is not decided: %s" % (tshow(t), e))
    return bad, n


_W = _PAIRS = None


def _chunk(k):
    try:
        if k < 0:
            B, A, S, F = universe(True)
            if k == -2:
                return arithmetic(_W)
            return adjustments(_W, B + A + S + F)
        return rules(_W, _PAIRS[k::32])
    except AnalysisBroken as e:
        return str(e), None


SITE = {"s": "kefir_ast_type_structure", "u": "kefir_ast_type_union", "e": "kefir_ast_type_enumeration", "f": "kefir_ast_type_function",
        "a": "kefir_ast_type_array", "p": "kefir_ast_type_pointer", "q": "kefir_ast_type_qualified"}


def c18(tier):
    import multiprocessing as mp
    import os
    global _W, _PAIRS
    r = Result()
    r.rules = ["compatible: two types are taken to be compatible exactly when C17 6.2.7, 6.7.2.2, 6.7.3 and 6.7.6 say so, whichever comes first",
               "composite: the composite of compatible types keeps array bounds, parameter lists and members of both",
               "same: types are identical exactly when they are built alike (only qualifiers inside [] and lengths of variable arrays do not count)",
               "arithmetic: promotions and usual arithmetic conversions of all operand types and bit-fields give C's type (6.3.1.1, 6.3.1.8)",
               "adjust/promotion: parameters and arguments are adjusted and promoted as 6.7.6.3 and 6.5.2.2 say"]
    prog = ir.load_program()
    _W = TypeWorld(prog)
    B, A, S, F = universe(tier == "thorough")
    alls = A + S + F
    pairs = [(a, b) for a in B for b in B]
    pairs += [(a, b) for g in (A, S, F) for a in g for b in g]
    cross = [(a, b) for a in alls for b in alls if sum(a in g and b in g for g in (A, S, F)) == 0]
    pairs += cross if tier == "thorough" else cross[::5]
    pairs += [p for a in alls for b in ("int", "uint", "char", "void") for p in ((a, b), (b, a))]
    _PAIRS = pairs
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        parts = pool.map(_chunk, list(range(-2, 32)), chunksize=1)
    found = {}
    for bad, n in parts:
        if n is None:
            raise AnalysisBroken(bad)
    for k, (bad, n) in enumerate(parts):
        r.count("operands of the arithmetic conversions" if k == 0 else "types adjusted and promoted" if k == 1 else "ordered pairs of types", n)
        for rule, a, b, msg in bad:
            found.setdefault((rule, kindof(a), kindof(b) if b else ""), []).append((a, b, msg))
    for (rule, ka, kb), l in sorted(found.items()):
        a, b, msg = sorted(l, key=repr)[0]
        fn = SITE.get(ka if ka in SITE else kb, "kefir_ast_type_pointer")
        site = _W.fn(fn)
        r.find(rule, "%s:%s" % (site.file, site.line), "%s%s: %s (and %d more)" % (tshow(a), " and " + tshow(b) if b else "", msg, len(l) - 1),
               func=fn, ident="%s|%s|%s" % (rule, ka, kb))
    r.samples = ["%s / %s" % (tshow(a), tshow(b)) for a, b in pairs[::701]]
    r.assume = ["the universe has every constructor at every operand position up to depth 3; two structures with the same tag of which one is "
                "incomplete count as the same type", "type objects are built by kefir's own constructors, hash trees are maps"]
    r.need("ordered pairs of types", 1000)
    return r


def kindof(d):
    return "basic" if isinstance(d, str) else d[0]
