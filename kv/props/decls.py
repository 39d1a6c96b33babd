"""Declarations: kefir's declaration analyser and scope contexts, abstractly interpreted on declarations built by kefir's own
constructors; the type, storage and linkage recorded for every identifier are compared with C's rules."""
import itertools, os
from .. import ir, sem, absint
from ..core import Result
from ..ir import AnalysisBroken
from ..sem import Bad, Unknown, new
from .types import TypeWorld, cstr, tshow, unq, adjust, compat, QUALS
from .stmt import StmtWorld

STORAGE = {"typedef": "typedef", "extern": "extern", "static": "static", "_Thread_local": "thread_local", "auto": "auto", "register": "register"}
QUALIFIER = {"const": "const", "restrict": "restrict", "volatile": "volatile"}
TYPESPEC = {"void": "void", "char": "char", "short": "short", "int": "int", "long": "long", "float": "float", "double": "double",
            "signed": "signed", "unsigned": "unsigned", "_Bool": "boolean", "va_list": "va_list"}
FUNCSPEC = {"inline": "inline", "_Noreturn": "noreturn"}
SIZE = {"bool": 1, "char": 1, "uchar": 1, "schar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "long": 8, "ulong": 8, "llong": 8,
        "ullong": 8, "float": 4, "double": 8, "ldouble": 16}
SI = "kefir_ast_scoped_identifier"


class DeclWorld(TypeWorld):
    def __init__(self, prog):
        super().__init__(prog)
        self.it.depth = 60
        self.n = 0
        self.gctx = new("gctx")
        env = new("tenv", self.off("kefir_ast_translator_environment", "target_env"))
        if self.call1("kefir_ast_global_context_init", [self.mem, self.traits, env, self.gctx, 0]) != 0:
            raise AnalysisBroken("the file scope context cannot be initialised")
        self.ctx = absint.ptradd(self.gctx, self.off("kefir_ast_global_context", "context.resolve_ordinary_identifier") -
                                 self.off("kefir_ast_context", "resolve_ordinary_identifier"))
        self.symbols = self.load(self.ctx, "kefir_ast_context", "symbols")
        self.bundle = self.load(self.ctx, "kefir_ast_context", "type_bundle")
        lc = new("lctx")
        if self.call1("kefir_ast_local_context_init", [self.mem, self.gctx, lc]) != 0:
            raise AnalysisBroken("the block scope context cannot be initialised")
        self.lctx = absint.ptradd(lc, self.off("kefir_ast_local_context", "context.resolve_ordinary_identifier") -
                                  self.off("kefir_ast_context", "resolve_ordinary_identifier"))
        self.st.x["consts"], self.st.x["kinds"] = {}, {}

    def base_models(self):
        super().base_models()
        self.models["kefir_symbol_table_init"] = lambda it, st, ins, a: [(0, st)]

    def translator_models(self):
        super().translator_models()
        M = self.models

        def klass(st, n):
            k = self.load(n, "kefir_ast_node_base", "klass", st)
            if isinstance(k, tuple) and k[0] == "ptr" and k[1] != 0:
                return st.known(self.load(k, "kefir_ast_node_class", "type", st))

        def analyse(it, st, ins, a):
            if klass(st, a[2]) == self.enum["KEFIR_AST_DECLARATION"]:
                return it.run(self.fn("kefir_ast_analyze_declaration_node"), [a[0], a[1], a[2], a[2]], st)
            return [(0, st)]
        M["kefir_ast_analyze_node"] = analyse

        def evaluate(it, st, ins, a):
            S = "kefir_ast_constant_expression_value"
            c = st.x["consts"].get(a[2])
            if c is None:
                return [(self.enum["KEFIR_NOT_CONSTANT"], st)]
            self.put(a[3], S, "klass", self.enum["KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER"], st)
            self.put(a[3], S, "integer", c, st)
            return [(0, st)]
        M["kefir_ast_constant_expression_value_evaluate"] = evaluate

        def info(it, st, ins, a):
            t = a[2]
            d = unq(self.describe(t[1], st)) if isinstance(t, tuple) and t[0] == "envtype" else None
            if isinstance(d, tuple) and d[0] == "e":
                d = d[3]
            sz = 8 if isinstance(d, tuple) and d[0] == "p" else SIZE.get(d if isinstance(d, str) else None)
            O = "kefir_ast_target_environment_object_info"
            for m in ("size", "alignment"):
                self.put(a[4], O, m, sz if sz else ("%sof" % m, d), st)
            self.put(a[4], O, "aligned", 0, st)
            self.put(a[4], O, "relative_offset", 0, st)
            bf = isinstance(d, str) and sz and d not in ("float", "double", "ldouble")
            self.put(a[4], O, "max_bitfield_width", 8 * sz if bf else 0, st)
            return [(0, st)]
        M["kefir_ast_target_environment.object_info"] = info

        def try_ident(it, st, ins, a):
            return [(self.enum["KEFIR_NOT_FOUND"], st)]
        M["kefir_ast_try_analyze_identifier"] = try_ident

        def initialiser(it, st, ins, a):        # mem, context, type, initializer, props
            P = "kefir_ast_initializer_properties"
            st.ev("INIT", a[3], self.describe(a[2], st))
            t, s = a[2], st
            d = self.describe(t, st)
            if unq(d)[0] == "a" and unq(d)[1] is None:
                el = self.load(t, "kefir_ast_type", "array_type.element_type", st)
                if isinstance(d, tuple) and d[0] == "q":
                    raise Unknown("initialiser of a qualified array")
                outs = it.run(self.fn("kefir_ast_constant_expression_integer"), [self.mem, 7], st)
                (c, s), = [o for o in outs if o[0] is not None]
                q = new(("initq", len(s.trace)))
                for m, ch in QUALS:
                    self.put(q, "kefir_ast_type_qualification", m, 0, s)
                outs = it.run(self.fn("kefir_ast_type_array"), [self.mem, self.bundle, el, c, q], s)
                (t, s), = [o for o in outs if o[0] is not None]
            self.put(a[4], P, "type", t, s)
            self.put(a[4], P, "constant", s.x.get("initconst", {}).get(a[3], 1), s)
            return [(0, s)]
        M["kefir_ast_analyze_initializer"] = initialiser

    # ---------------------------------------------------------------- construction of declarations
    def nn(self):
        self.n += 1
        return self.n

    def c(self, fn, *args):
        v = self.call1(fn, list(args))
        if v == 0 and fn.endswith(("_init", "_append", "_append_entry")) is False:
            raise AnalysisBroken("%s yields nothing" % fn)
        return v

    def const(self, v):
        n = self.node(self.st, ("const", v, self.nn()), "int", lvalue=0, const=1)
        self.st.x["consts"] = dict(self.st.x["consts"])
        self.st.x["consts"][n] = v
        self.klass(n)
        return n

    def klass(self, n):
        kl = new(("klass", "opaque"))
        self.put(n, "kefir_ast_node_base", "klass", kl)
        self.put(kl, "kefir_ast_node_class", "clone", ("fn", "kefir_ast_node_class.clone"))
        self.put(kl, "kefir_ast_node_class", "type", self.enum["KEFIR_AST_CONSTANT"])

    def variable(self, name):
        n = self.node(self.st, ("vlalen", name), "int")
        self.klass(n)
        return n

    def spec(self, s):
        M, c = self.mem, self.c
        if isinstance(s, str):
            if s in TYPESPEC:
                return c("kefir_ast_type_specifier_" + TYPESPEC[s], M)
            if s in QUALIFIER:
                return c("kefir_ast_type_qualifier_" + QUALIFIER[s], M)
            if s in STORAGE:
                return c("kefir_ast_storage_class_specifier_" + STORAGE[s], M)
            if s in FUNCSPEC:
                return c("kefir_ast_function_specifier_" + FUNCSPEC[s], M)
            raise AnalysisBroken("specifier %r" % s)
        if s[0] in ("struct", "union"):
            sp = c("kefir_ast_structure_specifier_init", M, self.symbols, cstr(s[1]), int(s[2] is not None))
            for specs, ds in s[2] or ():
                e = c("kefir_ast_structure_declaration_entry_alloc", M)
                self.specs(absint.ptradd(e, self.off("kefir_ast_structure_declaration_entry", "declaration.specifiers.list.head")), specs)
                for d, w in ds:
                    self.ok("kefir_ast_structure_declaration_entry_append", M, e, self.dtor(d), 0 if w is None else self.const(w))
                self.ok("kefir_ast_structure_specifier_append_entry", M, sp, e)
            return c("kefir_ast_type_specifier_" + s[0], M, sp)
        if s[0] == "enum":
            sp = c("kefir_ast_enum_specifier_init", M, self.symbols, cstr(s[1]), int(s[2] is not None))
            for nm, v in s[2] or ():
                self.ok("kefir_ast_enum_specifier_append", M, sp, self.symbols, cstr(nm), 0 if v is None else self.const(v))
            return c("kefir_ast_type_specifier_enum", M, sp)
        if s[0] == "T":
            return c("kefir_ast_type_specifier_typedef", M, self.symbols, cstr(s[1]))
        if s[0] == "_Alignas":
            if isinstance(s[1], str):
                return c("kefir_ast_alignment_specifier", M, self.node(self.st, ("typename", s[1], self.nn()), s[1], cat="TYPE"))
            return c("kefir_ast_alignment_specifier", M, self.const(s[1]))
        raise AnalysisBroken("specifier %r" % (s,))

    def ok(self, fn, *a):
        if self.call1(fn, list(a)) != 0:
            raise AnalysisBroken("%s fails on valid arguments" % fn)

    def specs(self, lst, specs):
        for s in specs:
            p = self.spec(s)
            self.ok("kefir_ast_declarator_specifier_list_append", self.mem, lst, p)

    def dtor(self, d):
        M, c = self.mem, self.c
        D = "kefir_ast_declarator"
        if d is None or isinstance(d, str):
            return c("kefir_ast_declarator_identifier", M, self.symbols, cstr(d))
        if d[0] == "*":
            p = c("kefir_ast_declarator_pointer", M, self.dtor(d[2]))
            self.quallist(p, "pointer.type_qualifiers.list.head", d[1])
            return p
        if d[0] == "[]":
            _, ln, stat, quals, sub = d
            k = "UNBOUNDED" if ln is None else "VLA_UNSPECIFIED" if ln == "*" else "BOUNDED"
            n = self.const(ln) if isinstance(ln, int) else self.variable(ln[1]) if isinstance(ln, tuple) else 0
            p = c("kefir_ast_declarator_array", M, self.enum["KEFIR_AST_DECLARATOR_ARRAY_" + k], n, self.dtor(sub))
            self.put(p, D, "array.static_array", int(stat))
            self.quallist(p, "array.type_qualifiers.list.head", quals)
            return p
        if d[0] == "()":
            _, params, ell, sub = d
            p = c("kefir_ast_declarator_function", M, self.dtor(sub))
            lst = absint.ptradd(p, self.off(D, "function.parameters.head"))
            for prm in params or ():
                self.append(lst, self.declaration(prm[0], [(prm[1], None)]))
            self.put(p, D, "function.ellipsis", int(ell))
            return p
        raise AnalysisBroken("declarator %r" % (d,))

    def append(self, lst, v):
        tail = self.load(lst, "kefir_list", "tail")
        self.ok("kefir_list_insert_after", self.mem, lst, tail, v)

    def quallist(self, p, path, quals):
        lst = absint.ptradd(p, self.off("kefir_ast_declarator", path))
        for q in quals:
            self.ok("kefir_ast_type_qualifier_list_append", self.mem, lst, self.enum["KEFIR_AST_TYPE_QUALIFIER_" + q.upper()])

    def declaration(self, specs, dtors):
        DN = "kefir_ast_declaration"
        p = self.c("kefir_ast_new_declaration", self.mem)
        self.specs(absint.ptradd(p, self.off(DN, "specifiers.list.head")), specs)
        lst = absint.ptradd(p, self.off(DN, "init_declarators.head"))
        for d, init in dtors:
            i = 0
            if init:
                i = new(("initialiser", self.nn()))
                self.st.x["initconst"] = dict(self.st.x.get("initconst", {}))
                self.st.x["initconst"][i] = int(init != "variable")
            self.append(lst, self.c("kefir_ast_new_init_declarator", self.mem, self.dtor(d), i))
        return p

    # ---------------------------------------------------------------- analysis
    def reset(self, snap=None):
        if snap is None:
            return self.st.copy(), self.n
        self.st, self.n = snap[0].copy(), snap[1]

    def analyse(self, node, local=False):
        """-> status; state advances when it is zero"""
        f = self.fn("kefir_ast_analyze_declaration_node")
        outs = [(v, s) for v, s in self.it.run(f, [self.mem, self.lctx if local else self.ctx, node, node], self.st.copy()) if v is not None]
        if len(outs) != 1:
            raise Unknown("%d outcomes" % len(outs))
        v, s = outs[0]
        v = s.known(v)
        if not isinstance(v, int):
            raise Unknown("the outcome is not determined")
        if v == 0:
            self.st = s
        return v

    def block(self, what):
        f = self.load(self.lctx, "kefir_ast_context", what + "_block")
        v, s = self.run1(f, [self.mem, self.lctx])
        if s.known(v) != 0:
            raise Bad("a block scope cannot be %sed" % what)
        self.st = s

    def lookup(self, name, local=False, tag=False):
        slot = new(("lookup", self.nn()))
        ctx = self.lctx if local else self.ctx
        f = self.load(ctx, "kefir_ast_context", "resolve_%s_identifier" % ("tag" if tag else "ordinary"))
        v, s = self.run1(f, [ctx, cstr(name), slot])
        if s.known(v) != 0:
            return None
        p = self.it.load(s, slot, "ptr")
        return p, s

    def alignment(self, p, s):
        if p == 0:
            return 0
        k = s.known(self.load(p, "kefir_ast_alignment", "klass", s))
        if k == self.enum["KEFIR_AST_ALIGNMENT_DEFAULT"]:
            return 0
        if k == self.enum["KEFIR_AST_ALIGNMENT_AS_CONST_EXPR"]:
            return s.known(self.load(self.load(p, "kefir_ast_alignment", "const_expr", s), "kefir_ast_constant_expression", "value.integer", s))
        return SIZE.get(unq(self.describe(self.load(p, "kefir_ast_alignment", "type", s), s)))

    def ident(self, name, local=False, tag=False):
        r = self.lookup(name, local, tag)
        if r is None:
            return None
        p, s = r
        L = lambda m: s.known(self.load(p, SI, m, s))
        k = L("klass")
        E = self.enum
        en = lambda v, pre: next((n[len(pre):].lower() for n, x in E.items() if n.startswith(pre) and x == v), v)
        if k == E["KEFIR_AST_SCOPE_IDENTIFIER_OBJECT"]:
            return dict(kind="object", type=self.describe(self.load(p, SI, "object.type", s), s),
                        storage=en(L("object.storage"), "KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_"),
                        linkage=en(L("object.linkage"), "KEFIR_AST_SCOPED_IDENTIFIER_"), external=bool(L("object.external")),
                        init=self.load(p, SI, "object.initializer", s) != 0, alignment=self.alignment(self.load(p, SI, "object.alignment", s), s))
        if k == E["KEFIR_AST_SCOPE_IDENTIFIER_FUNCTION"]:
            return dict(kind="function", type=self.describe(self.load(p, SI, "function.type", s), s),
                        storage=en(L("function.storage"), "KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_"),
                        specifier=en(L("function.specifier"), "KEFIR_AST_FUNCTION_SPECIFIER_"),
                        external=bool(L("function.external")), defined=bool(L("function.defined")))
        if k == E["KEFIR_AST_SCOPE_IDENTIFIER_TYPE_DEFINITION"]:
            return dict(kind="typedef", type=self.describe(self.load(p, SI, "type", s), s))
        if k == E["KEFIR_AST_SCOPE_IDENTIFIER_TYPE_TAG"]:
            return dict(kind="tag", type=self.describe(self.load(p, SI, "type", s), s))
        if k == E["KEFIR_AST_SCOPE_IDENTIFIER_ENUM_CONSTANT"]:
            c = self.load(p, SI, "enum_constant.value", s)
            return dict(kind="constant", type=self.describe(self.load(p, SI, "enum_constant.type", s), s),
                        value=s.known(self.load(c, "kefir_ast_constant_expression", "value.integer", s)))
        raise Unknown("identifier class %r" % (k,))


# ---------------------------------------------------------------- C's rules
class Reject(Exception):
    """C17 requires a diagnostic"""


class Open(Exception):
    """undefined or unspecified in C17, an extension, or left open by this tool"""


SPECSETS = {}
for _names, _t in (("void", "void"), ("char", "char"), ("signed char", "schar"), ("unsigned char", "uchar"),
                   ("short/signed short/short int/signed short int", "short"), ("unsigned short/unsigned short int", "ushort"),
                   ("int/signed/signed int", "int"), ("unsigned/unsigned int", "uint"),
                   ("long/signed long/long int/signed long int", "long"), ("unsigned long/unsigned long int", "ulong"),
                   ("long long/signed long long/long long int/signed long long int", "llong"),
                   ("unsigned long long/unsigned long long int", "ullong"), ("float", "float"), ("double", "double"),
                   ("long double", "ldouble"), ("_Bool", "bool"), ("va_list", "va_list")):
    for _n in _names.split("/"):
        SPECSETS[tuple(sorted(_n.split()))] = _t


def qual(t, q):
    q = set(q) | (set(t[1]) if isinstance(t, tuple) and t[0] == "q" else set())
    t = unq(t)
    return ("q", "".join(c for _, c in QUALS if c in q), t) if q else t


def norm(d):
    """merge nested qualifications"""
    if isinstance(d, tuple):
        if d[0] == "q":
            return qual(norm(d[2]), d[1])
        if d[0] == "e" and len(d) == 4:      # the compatible integer type is implementation-defined
            return d[:3] + ("int",)
        return tuple(norm(x) for x in d)
    return d


def complete(t):
    u = unq(t)
    if u == "void":
        return False
    if isinstance(u, str):
        return True
    if u[0] == "a":
        return u[1] is not None
    if u[0] in "sue":
        return u[2] is not None
    return True


def vla(t):
    u = unq(t)
    return isinstance(u, tuple) and u[0] == "a" and (isinstance(u[1], tuple) or vla(u[4]))


def vm(t):
    u = unq(t)
    if isinstance(u, str):
        return False
    if u[0] == "a":
        return isinstance(u[1], tuple) or vm(u[4])
    if u[0] == "p":
        return vm(u[1])
    if u[0] == "f":
        return vm(u[1])
    return False


class Ref:
    def __init__(self):
        self.scopes = [{}]      # ordinary identifiers
        self.tags = [{}]

    def copy(self):
        r = Ref()
        r.scopes = [{k: dict(v) for k, v in s.items()} for s in self.scopes]
        r.tags = [dict(t) for t in self.tags]
        return r

    @property
    def block(self):
        return len(self.scopes) > 1

    def find(self, name, tag=False):
        for s in reversed(self.tags if tag else self.scopes):
            if name in s:
                return s[name]
        return None

    # ------------------------------------------------ specifiers
    def specs(self, specs, decls, member=False, param=False):
        types, quals, storage, funcs, align = [], set(), [], [], 0
        base = None
        for s in specs:
            if isinstance(s, tuple):
                pass
            elif s in TYPESPEC:
                types.append(s)
            elif s in QUALIFIER:
                quals.add(s[0])
            elif s in STORAGE:
                storage.append(s)
            elif s in FUNCSPEC:
                funcs.append(s)
            else:
                raise AnalysisBroken("specifier %r" % s)
            if not isinstance(s, tuple):
                continue
            if s[0] == "_Alignas":
                v = SIZE[s[1]] if isinstance(s[1], str) else s[1]
                if v & (v - 1) or v < 0:
                    raise Open("alignment")
                align = max(align, v)
            else:
                if base is not None or types:
                    raise Reject("type specifiers cannot be combined")
                base = self.tagged(s, decls) if s[0] in ("struct", "union", "enum") else self.typedef(s[1])
        if base is not None and types:
            raise Reject("type specifiers cannot be combined")
        if base is None:
            if not types:
                raise Open("implicit int")
            base = SPECSETS.get(tuple(sorted(types)))
            if base is None:
                raise Reject("not a set of type specifiers C allows")
        if quals:
            u = unq(base)
            if isinstance(u, tuple) and u[0] in "af":
                raise Open("qualified array or function through a typedef")
            if "r" in quals and not (isinstance(u, tuple) and u[0] == "p" and unq(u[1])[0] != "f"):
                raise Open("restrict needs a pointer to an object type")
            base = qual(base, quals)
        st = tuple(sorted(storage))
        if len(st) > 1 and st not in (("_Thread_local", "static"), ("_Thread_local", "extern")):
            raise Reject("storage class specifiers cannot be combined")
        return base, st, funcs, align

    def typedef(self, name):
        i = self.find(name)
        if i is None or i["kind"] != "typedef":
            raise Reject("not a type name")
        return i["type"]

    def tagged(self, s, decls):
        k = {"struct": "s", "union": "u", "enum": "e"}[s[0]]
        tag, body = s[1], s[2]
        here = self.tags[-1].get(tag) if tag else None
        vis = self.find(tag, True) if tag else None
        if body is None:
            if not decls and k != "e":
                if here is not None:
                    if here[0] != k:
                        raise Reject("tag of another kind")
                    return here
                if vis is not None:
                    raise Open("redeclaration of an outer tag")
                vis = None
            if vis is not None:
                if vis[0] != k:
                    raise Reject("tag of another kind")
                return vis
            if k == "e":
                raise Open("forward reference to an enumeration")
            t = (k, tag, None)
            self.tags[-1][tag] = t
            return t
        if here is not None:
            if here[0] != k:
                raise Reject("tag of another kind")
            if here[2] is not None:
                raise Reject("redefinition of a tag")
        if k == "e":
            v, out = 0, []
            for nm, x in body:
                if x is not None:
                    v = x
                if not -2 ** 31 <= v < 2 ** 31:
                    raise Open("enumerator outside int")
                if nm in self.scopes[-1]:
                    raise Reject("redeclaration of %s" % nm)
                self.scopes[-1][nm] = dict(kind="constant", value=v)
                out.append((nm, v))
                v += 1
            t = ("e", tag, tuple(out), "int")
        else:
            if tag and here is None:
                self.tags[-1][tag] = (k, tag, None)
            out, names, anon = [], set(), set()
            items = [(sp, d, w, i) for i, (sp, ds) in enumerate(body) for d, w in (ds or [(None, None)])]
            bases = {}
            for j, (sp, d, w, i) in enumerate(items):
                if i not in bases:
                    base, st, fn, al = self.specs(sp, body[i][1], member=True)
                    if fn:
                        raise Open("function specifier in a member")
                    if st:
                        raise Reject("storage class in a member")
                    bases[i] = (base, al)
                base, al = bases[i]
                nm, ty = self.dtor(d, base)
                if al:
                    raise Open("alignment of members")
                if not body[i][1]:
                    u = unq(ty)
                    if isinstance(u, tuple) and u[0] in "su" and u[2] is not None and u[1] is None:
                        out.append((None, ty, None))
                        for m in u[2]:
                            anon.add(m[0])
                        continue
                    raise Open("declaration of no member")
                if vm(ty):
                    raise Reject("variably modified member")
                u = unq(ty)
                if isinstance(u, tuple) and u[0] == "f":
                    raise Reject("member of function type")
                if not complete(ty):
                    if not (k == "s" and isinstance(u, tuple) and u[0] == "a" and j == len(items) - 1):
                        raise Reject("member of incomplete type")
                    if not any(n for n, _, _ in out):
                        raise Reject("flexible array in an otherwise empty structure")
                if w is not None:
                    if u == "bool" and w > 1:
                        raise Open("width of _Bool")
                    if not (u in SIZE and u not in ("float", "double", "ldouble") or isinstance(u, tuple) and u[0] == "e"):
                        raise Reject("bit-field of a non-integer type")
                    if w < 0 or w > 8 * SIZE[u if isinstance(u, str) else "int"]:
                        raise Reject("bit-field width out of range")
                    if w == 0 and nm is not None:
                        raise Reject("named bit-field of width zero")
                elif nm is None:
                    raise Open("member without a name")
                if nm is not None:
                    if nm in names:
                        raise Reject("duplicate member")
                    names.add(nm)
                out.append((nm, ty, w))
            if anon & names:
                raise Open("duplicate member through an anonymous one")
            if not names:
                raise Open("structure without named members")
            t = (k, tag, tuple(out))
        if tag:
            self.tags[-1][tag] = t
        return t

    # ------------------------------------------------ declarators
    def dtor(self, d, t, param=False, outer=True):
        """-> name, type"""
        if d is None or isinstance(d, str):
            return d, t
        if d[0] == "*":
            q = {x[0] for x in d[1]}
            if "r" in q and unq(t)[0] == "f":
                raise Open("restrict needs a pointer to an object type")
            return self.dtor(d[2], qual(("p", t), q), param, outer)
        if d[0] == "[]":
            _, ln, stat, quals, sub = d
            u = unq(t)
            if isinstance(u, tuple) and u[0] == "f":
                raise Reject("array of functions")
            if not complete(t):
                raise Reject("array of incomplete type")
            last = sub is None or isinstance(sub, str)
            if (stat or quals) and not (param and last):
                raise Reject("static or qualifiers in an array declarator outside a parameter")
            if stat and ln in (None, "*"):
                raise Open("syntax")
            if ln == "*" and not param:
                raise Open("[*] outside a prototype")
            if isinstance(ln, int) and ln < 0:
                raise Open("negative length")
            if ln == 0:
                raise Open("array of length zero")
            n = ("vla", None) if ln == "*" else ln
            return self.dtor(sub, ("a", n, int(bool(stat)), "".join(c for m, c in QUALS if c in {x[0] for x in quals}), t), param, outer)
        _, params, ell, sub = d
        u = unq(t)
        if isinstance(u, tuple) and u[0] in "af":
            raise Reject("function returning an array or a function")
        if isinstance(u, tuple) and u is not t:
            pass
        if params is None:
            if ell:
                raise Open("syntax")
            return self.dtor(sub, ("f", t, None, 0), param, outer)
        ps, names = [], set()
        self.scopes.append({})
        self.tags.append({})
        try:
            for sp, pd in params:
                base, st, fn, al = self.specs(sp, [pd], param=True)
                if al or fn:
                    raise Open("alignment or function specifier in a parameter")
                if st == ("auto",):
                    raise Open("auto parameter")
                if st not in ((), ("register",)):
                    raise Reject("storage class of a parameter")
                nm, ty = self.dtor(pd, base, True)
                if unq(ty) == "void":
                    if len(params) > 1:
                        raise Reject("void parameter among others")
                    if nm is not None or ty != "void" or st or ell:
                        raise Open("void parameter")
                elif not complete(adjust(ty)):
                    raise Open("parameter of incomplete type in a declaration")
                if nm is not None:
                    if nm in names:
                        raise Reject("duplicate parameter")
                    names.add(nm)
                    self.scopes[-1][nm] = dict(kind="object", type=ty)
                ps.append(ty)
        finally:
            self.scopes.pop()
            self.tags.pop()
        return self.dtor(sub, ("f", t, tuple(unq(adjust(p)) for p in ps), int(ell)), param, outer)

    # ------------------------------------------------ declarations
    def declare(self, specs, dtors):
        base, st, funcs, align = self.specs(specs, dtors)
        for d, init in dtors:
            name, t = self.dtor(d, base)
            self.one(name, t, st, funcs, align, init)

    def one(self, name, t, st, funcs, align, init):
        u, t0 = unq(t), t
        isf = isinstance(u, tuple) and u[0] == "f"
        fspec = "".join(sorted(set(funcs)))
        prev, vis = self.scopes[-1].get(name), self.find(name)
        if isf and u is not t:
            raise Open("qualified function type")
        tl = "_Thread_local" in st
        st1 = [x for x in st if x != "_Thread_local"]
        s = st1[0] if st1 else None
        if align and s == "register":
            raise Open("alignment of a register object")
        if align and (s == "typedef" or isf):
            raise Reject("alignment specifier")
        if align:
            al = 8 if u[0] == "p" else SIZE.get(u) if isinstance(u, str) else None
            if al is None or u[0] == "p" and align < al:
                raise Open("alignment")
            if align < al:
                raise Reject("alignment specifier weaker than the type's alignment")
        if funcs and (not isf or s == "typedef"):
            raise Reject("function specifier on something that is not a function")
        if s == "typedef":
            if init:
                raise Reject("initialiser of a typedef")
            if vm(t) and not self.block:
                raise Reject("variably modified type at file scope")
            if prev is not None:
                if prev["kind"] != "typedef":
                    raise Reject("redeclaration as another kind of identifier")
                if compat(prev["type"], t) is False:
                    raise Reject("redefinition of a type name")
                if prev["type"] != t:
                    raise Open("redefinition of a type name to a compatible type")
                if vm(t):
                    raise Open("variably modified type name")
            self.scopes[-1][name] = dict(kind="typedef", type=t)
            return
        if isf:
            if init:
                raise Reject("initialiser of a function")
            if tl or s in ("auto", "register") or s == "static" and self.block:
                raise Reject("storage class of a function")
            if vm(t):
                raise Reject("variably modified function type")
            if s == "static":
                link = "internal"
            else:
                link = vis["linkage"] if vis and vis["kind"] in ("object", "function") and vis["linkage"] != "none" else "external"
            kind = "function"
        else:
            if self.block:
                if tl and s is None:
                    raise Reject("_Thread_local without static or extern in a block")
                link = "external" if s == "extern" else "none"
            else:
                if s in ("auto", "register"):
                    raise Reject("storage class at file scope")
                link = "internal" if s == "static" else "external"
            if s == "extern":
                if self.block and init:
                    raise Reject("initialiser of a block scope extern declaration")
                if vis and vis["kind"] in ("object", "function") and vis["linkage"] != "none":
                    link = vis["linkage"]
            if vm(t) and (not self.block or link != "none"):
                raise Reject("variably modified type with linkage or at file scope")
            if self.block and s == "static" and isinstance(u, tuple) and u[0] == "a" and vm(t):
                if not vla(t):
                    raise Open("static array of variably modified elements")
                raise Reject("static variable length array")
            if init and isinstance(u, tuple) and vla(t):
                raise Reject("initialiser of a variable length array")
            if init == "variable" and self.block and s == "static":
                raise Open("diagnosed by the translator")
            if init == "variable" and (link != "none" or s == "static"):
                raise Reject("initialiser of a static object is not constant")
            if init and isinstance(u, tuple) and u[0] == "a" and u[1] is None:
                t = qual(("a", 7) + u[2:], t[1] if t is not u else "")
                u = unq(t)
            if init and not complete(t):
                raise Open("initialiser of an incomplete type")
            if not complete(t):
                if link == "none":
                    raise Reject("object of incomplete type without linkage")
                if s == "static":
                    raise Open("tentative definition with internal linkage and incomplete type")
                if s is None:
                    if u == "void":
                        raise Open("void object")
            if s == "extern" and u == "void":
                raise Open("void object")
            kind = "object"
        if prev is not None:
            if prev["kind"] != kind:
                raise Reject("redeclaration as another kind of identifier")
            if prev["linkage"] == "none" or link == "none":
                raise Reject("redeclaration without linkage")
            if prev["linkage"] != link:
                raise Open("both internal and external linkage")
        old = prev
        if prev is None and self.block and link == "external" and vis is not None and vis.get("linkage", "none") == "none":
            vis = next((x[name] for x in reversed(self.scopes) if x.get(name, {}).get("linkage", "none") != "none"), None)
            if vis is not None and vis["linkage"] == "internal":
                raise Open("both internal and external linkage")
        if old is None and self.block and link != "none" and vis is not None and vis.get("linkage", "none") != "none":
            old = vis
            if vis["kind"] != kind:
                raise Open("redeclaration with linkage as another kind in another scope")
        if old is not None:
            c = compat(old["type"], t)
            if kind == "object" and init and t0 is not t and unq(old["type"])[0] == "a" and c is False:
                raise Open("length given by the initialiser differs")
            if c is False:
                if old is not prev:
                    raise Open("incompatible redeclaration in another scope")
                raise Reject("redeclaration with an incompatible type")
            if kind == "object":
                if old["tl"] != tl:
                    raise Reject("_Thread_local in some declarations only")
                if old["init"] and init:
                    raise Reject("redefinition")
        n = dict(kind=kind, type=t, linkage=link, tl=tl, init=bool(init), static=s == "static", register=s == "register", fspec=fspec,
                 defined=bool(init) or kind == "object" and s != "extern", align=align)
        if old is not None:
            n["composite"] = (old["type"], t)
            n["init"] |= old["init"]
            n["defined"] |= old["defined"]
            n["fspec"] = "".join(sorted(set(funcs))) if not old["fspec"] else old["fspec"] if not fspec else n["fspec"] if fspec == old["fspec"] else "inline_noreturn"
            from .types import comp
            n["pattern"] = comp(old["type"], t)
            if isinstance(unq(t), tuple) and unq(t)[0] == "a" and unq(t)[1] is None:
                n["type"] = old["type"]
            if isf and t[2] is None:
                n["type"] = old["type"]
        self.scopes[-1][name] = n


# ---------------------------------------------------------------- comparison
def sshow(s):
    if isinstance(s, str):
        return s
    if s[0] == "T":
        return s[1]
    if s[0] == "_Alignas":
        return "_Alignas(%s)" % s[1]
    h = s[0] + (" " + s[1] if s[1] else "")
    if s[2] is None:
        return h
    if s[0] == "enum":
        return h + " {" + ", ".join(n + ("" if v is None else " = %d" % v) for n, v in s[2]) + "}"
    return h + " {" + " ".join(" ".join(map(sshow, sp)) + " " + ", ".join(dshow(d) + ("" if w is None else " : %d" % w) for d, w in ds) + ";" for sp, ds in s[2]) + "}"


def dshow(d):
    if d is None:
        return ""
    if isinstance(d, str):
        return d
    if d[0] == "*":
        return "*" + " ".join(d[1]) + (" " if d[1] else "") + dshow(d[2])
    sub = dshow(d[-1])
    if isinstance(d[-1], tuple) and d[-1][0] == "*":
        sub = "(" + sub + ")"
    if d[0] == "[]":
        n = "" if d[1] is None else d[1][1] if isinstance(d[1], tuple) else str(d[1])
        return sub + "[" + " ".join(x for x in (["static"] if d[2] else []) + list(d[3]) + [n] if x) + "]"
    return sub + "(" + ", ".join([(" ".join(map(sshow, sp)) + " " + dshow(p)).strip() for sp, p in d[1] or ()] + (["..."] if d[2] else [])) + ")"


def pshow(prog):
    return " ".join(i if isinstance(i, str) else " ".join(map(sshow, i[1])) + (" " if i[2] else "") +
                    ", ".join(dshow(d) + (" = init" if x else "") for d, x in i[2]) + ";" for i in prog)


def name_of(d):
    while isinstance(d, tuple):
        d = d[-1]
    return d


def expected(i):
    if i["kind"] in ("typedef", "constant"):
        return {"kind": i["kind"]}
    tl = "_thread_local" if i["tl"] else ""
    if i["kind"] == "function":
        return {"kind": "function", "storage": "static" if i["linkage"] == "internal" else "extern",
                "specifier": {"": "none", "inline": "inline", "_Noreturn": "noreturn"}.get(i["fspec"], "inline_noreturn")}
    if i["linkage"] == "none":
        return {"kind": "object", "storage": ("static" if i["static"] else "register" if i["register"] else "auto") + tl,
                "linkage": "none_linkage", "init": i["init"], "alignment": i["align"]}
    e = {"kind": "object", "storage": ("static" if i["linkage"] == "internal" else "extern") + tl,
         "linkage": i["linkage"] + "_linkage", "external": not i["defined"], "init": i["init"]}
    if "pattern" not in i:
        e["alignment"] = i["align"]
    return e


DEFERRED = ("member", "bit-field", "flexible")       # kefir reports these when the type is used for an object


def stripq(d):
    """qualifiers of parameters do not belong to the function type"""
    if isinstance(d, tuple):
        d = tuple(stripq(x) for x in d)
        if d and d[0] == "f" and isinstance(d[2], tuple):
            return (d[0], d[1], tuple(unq(p) for p in d[2]), d[3])
    return d


def run_prog(w, prog, base, cache):
    """-> (outcome, rule, message, declarations looked at): outcome in ok/open/bad.  cache: states after the declarations of the previous program."""
    from .types import fits
    k = 0
    while k < len(cache) and k < len(prog) and cache[k][0] == prog[k]:
        k += 1
    del cache[k:]
    st, ref, depth = cache[-1][1:] if cache else base
    w.reset(st)
    ref = ref.copy()
    for n, it in enumerate(prog):
        if n < k:
            continue
        if it in ("{", "}"):
            up = it == "{"
            depth += 1 if up else -1
            if up:
                ref.scopes.append({}), ref.tags.append({})
                if depth > 1:
                    w.block("push")
            else:
                inner = ref.scopes.pop()
                ref.tags.pop()
                if depth > 0:
                    w.block("pop")
                    for nm in sorted(inner):
                        o = visible(w, nm, ref, inner[nm])
                        if o:
                            return "bad", "scope", o, n + 1
        else:
            o = step(w, it, ref, depth > 0)
            if o[0] != "ok" or o[1] == "rejected":
                return (o[0], None if o[0] != "bad" else o[1], o[2], n + 1)
        cache.append((it, w.reset(), ref.copy(), depth))
    return "ok", None, None, len(prog)


def visible(w, nm, ref, inner):
    """after a block: the declaration of the enclosing scopes is in force again"""
    out = next((x[nm] for x in reversed(ref.scopes) if nm in x), None)
    try:
        g = w.ident(nm, True)
    except Bad as e:
        return "looking %s up after the block goes wrong: %s" % (nm, e)
    if out is None:
        return "%s is still visible after its block" % nm if g is not None else None
    if g is None:
        return "the outer %s is not visible after the block" % nm
    if g["kind"] != out["kind"]:
        return "the outer %s, %s, is %s after the block" % (nm, out["kind"], g["kind"])
    if out["kind"] == "constant":
        return None if g["value"] == out["value"] else "the outer %s is %s after the block, not %s" % (nm, g["value"], out["value"])
    gt, ot = stripq(norm(g["type"])), stripq(out["type"])
    if gt != ot and inner.get("linkage", "none") == "none":
        return "the outer %s has type %s after the block, not %s" % (nm, tshow(gt), tshow(ot))
    for k, v in expected(out).items():
        if k in ("storage", "linkage") and g.get(k) != v:
            return "the outer %s: its %s is %s after the block, not %s" % (nm, k, g.get(k), v)
    return None


def step(w, it, ref, local):
    from .types import fits
    want = None
    try:
        ref.declare(it[1], it[2])
    except Reject as e:
        want = str(e)
    except Open as e:
        return "open", None, str(e)
    try:
        node = w.declaration(it[1], it[2])
        got = w.analyse(node, local)
    except Bad as e:
        return "bad", "declaration", "analysing it goes wrong: %s" % e
    if want is not None:
        if got == 0 and not it[2] and any(x in want for x in DEFERRED):
            return "open", None, want
        if got == 0:
            return "bad", "constraint", "accepted although C requires a diagnostic: %s" % want
        return "ok", "rejected", None
    if got != 0:
        return "bad", "constraint", "rejected although C allows it (status %d)" % got
    names = [name_of(d) for d, _ in it[2]] + [n for s in it[1] if isinstance(s, tuple) and s[0] == "enum" and s[2] for n, _ in s[2]]
    for nm in names:
        if nm is None:
            continue
        i = ref.scopes[-1][nm]
        try:
            g = w.ident(nm, local)
        except Bad as e:
            return "bad", "declaration", "looking %s up goes wrong: %s" % (nm, e)
        if g is None:
            return "bad", "scope", "%s is not found afterwards" % nm
        for k, v in expected(i).items():
            if g.get(k) != v:
                return "bad", {"kind": "scope", "storage": "linkage", "linkage": "linkage", "external": "linkage"}.get(k, "declaration"), \
                    "%s: its %s is %s, not %s" % (nm, k, g.get(k), v)
        if i["kind"] == "constant":
            if g["value"] != i["value"] or g["type"] != "int":
                return "bad", "type", "%s has the value %s and type %s, not %d and int" % (nm, g["value"], tshow(g["type"]), i["value"])
            continue
        gt = stripq(norm(g["type"]))
        if "pattern" in i:
            if not fits(i["pattern"], gt):
                return "bad", "type", "%s has type %s, not the composite type of its declarations" % (nm, tshow(gt))
            i["type"] = gt
        elif gt != stripq(i["type"]):
            return "bad", "type", "%s has type %s, not %s" % (nm, tshow(gt), tshow(i["type"]))
    return "ok", None, None


# ---------------------------------------------------------------- what is enumerated
PRE = [("d", ["typedef", "int"], [("T", None)]), ("d", ["typedef", "const", "char"], [(("*", (), "CP"), None)]),
       ("d", ["typedef", "int"], [(("()", [(["int"], None)], 0, "FT"), None)]),
       ("d", ["typedef", "int"], [(("[]", None, 0, (), "AT"), None)]),
       ("d", [("struct", "S", [(["int"], [("a", None)])])], []), ("d", [("union", "U", [(["int"], [("a", None)]), (["char"], [("b", None)])])], []),
       ("d", [("enum", "E", [("A", None)])], []), ("d", [("struct", "I", None)], [])]
SS, UU, EE, II, TT, CP, FT, AT = ("struct", "S", None), ("union", "U", None), ("enum", "E", None), ("struct", "I", None), ("T", "T"), ("T", "CP"), ("T", "FT"), ("T", "AT")
TS = ["void", "char", "short", "int", "long", "float", "double", "signed", "unsigned", "_Bool", SS, UU, EE, TT]


def D(specs, *dtors):
    return ("d", list(specs), [d if isinstance(d, tuple) and len(d) == 2 and d[0] not in ("*", "[]", "()") else (d, None) for d in dtors])


def P(d, *q):
    return ("*", tuple(q), d)


def A(n, d, static=0, quals=()):
    return ("[]", n, static, tuple(quals), d)


def F(params, d, ell=0):
    return ("()", params, ell, d)


def g_specifiers(thorough):
    px = P("x")
    for L in (1, 2, 3):
        for sp in itertools.product(TS, repeat=L):
            yield "specifiers", [D(sp, px)]
    valid = [list(k) for k in SPECSETS if len(k) > 1]
    for v in valid:
        for q in sorted(set(itertools.permutations(v))):
            if len(q) > 3:
                yield "specifiers", [D(q, "x")]
    ex = TS if thorough else ["char", "int", "long", "double", "unsigned", "signed", "short", TT, SS]
    for v in valid:
        if len(v) >= 3:
            for q in sorted(set(itertools.permutations(v))):
                for e in ex:
                    for i in range(len(q) + 1) if thorough else (0, len(q) // 2, len(q)):
                        yield "specifiers", [D(q[:i] + (e,) + q[i:], px)]
    for v in [["int"], ["unsigned", "long"], [TT], [SS], [CP], [EE], ["double"]]:
        for q in ("const", "volatile", "restrict"):
            for i in range(len(v) + 1):
                yield "qualifiers", [D(v[:i] + [q] + v[i:], "x")]
                yield "qualifiers", [D(v[:i] + [q] + v[i:] + ["const"], px)]
    for v in (["typedef", "int"], ["typedef", "const", "int"], ["typedef", "volatile", "int"]):
        yield "typedef", [D(v, "Q"), D([("T", "Q")], "x")]
        yield "typedef", [D(v, "Q"), D(["const", ("T", "Q")], "x")]
        yield "typedef", [D(v, "Q"), D(["const", ("T", "Q"), "volatile"], px)]
        yield "typedef", [D(v, P("Q")), D(["const", ("T", "Q")], "x")]
        yield "typedef", [D(v, A(3, "Q")), D([("T", "Q")], A(2, "x"))]
    for n in ("A", "nosuch", "x"):
        yield "typedef", [D([("T", n)], "y")]
    yield "typedef", [D(["int"], "x"), D([("T", "x")], "y")]


def dtors(depth, name, leafs=(None,)):
    """declarator trees over name"""
    if depth == 0:
        yield name
        return
    for d in dtors(depth - 1, name):
        yield P(d)
        yield P(d, "const")
        yield A(3, d)
        yield A(None, d)
        yield F(None, d)
        yield F([(["void"], None)], d)
        yield F([(["int"], "p"), (["char"], P(None))], d, 1)


def g_declarators(thorough):
    bases = [["int"], ["void"], ["const", "char"], [SS], [II], [FT], [AT], [TT], [CP]]
    for dep in (0, 1, 2) + ((3,) if thorough else ()):
        for d in dtors(dep, "x"):
            for b in bases:
                for st in ("file", "extern", "typedef", "block", "param", "member"):
                    if dep == 2 and not thorough and (st in ("extern",) or b in ([TT], [CP], ["const", "char"])):
                        continue
                    if dep == 3 and (st in ("extern", "typedef") or b not in (["int"], [FT], [AT], ["void"])):
                        continue
                    yield "declarators", place(st, b, d)
    if not thorough:
        for d in dtors(3, "x"):
            yield "declarators", [D(["int"], d)]
    for n in (-1, -2 ** 31, 1, 2 ** 31, ("vla", "n"), "*"):
        for st in ("file", "extern", "typedef", "block", "static", "bextern", "btypedef", "param", "member"):
            for d in (A(n, "x"), A(n, A(2, "x")), A(2, A(n, "x")), P(A(n, "x")), A(n, P("x")), A(n, P("x", "const"))):
                yield "array lengths", place(st, ["int"], d)
    for st in ("file", "block", "param", "member"):
        for q in ((), ("const",), ("restrict",), ("volatile", "const")):
            for s in (0, 1):
                if s or q:
                    yield "array parameters", place(st, ["int"], A(4, "x", s, q))
                    yield "array parameters", place(st, ["int"], A(2, A(4, "x", s, q)))
                    yield "array parameters", place(st, ["int"], A(4, A(2, "x"), s, q))
                    yield "array parameters", place(st, ["int"], A(4, P("x"), s, q))
                    yield "array parameters", place(st, ["int"], P(A(4, "x", s, q)))
                    yield "array parameters", place(st, ["int"], A(("vla", "n"), "x", s, q))
    for ps in ([(["int"], "a"), (["int"], "b")], [(["int"], "a"), (["int"], "a")], [(["void"], None), (["int"], "a")], [(["int"], "a"), (["void"], None)],
               [(["int"], "a"), (["const", "int"], "b")], [([FT], "a")], [([AT], "a")], [(["int"], F([(["int"], "a")], "a"))],
               [(["int"], "a"), (["int"], A(("vla", "n"), "b"))], [(["double"], "T")], [([TT], "a")], [([SS], "a")], [([UU], None), ([EE], None)],
               [([("struct", "N", [(["int"], [("m", None)])])], "a"), ([("struct", "N", None)], "b")]):
        for e in (0, 1):
            yield "parameters", [D(["int"], F(ps, "x", e))]
            yield "parameters", ["{", D(["int"], F(ps, P("x"), e)), "}"]
    for s in ("auto", "register", "static", "extern", "typedef", "_Thread_local", "inline", "_Noreturn", ("_Alignas", 8)):
        for d in ("a", None, P("a"), A(3, "a")):
            yield "parameters", [D(["int"], F([([s, "int"], d)], "x"))]
            yield "parameters", [D(["int"], F([(["int"], "b"), ([s, "int"], d)], P("x")))]


def place(st, b, d):
    if st == "file":
        return [D(b, d)]
    if st in ("extern", "typedef"):
        return [D([st] + b, d)]
    if st == "block":
        return ["{", D(b, d), "}"]
    if st in ("static", "bextern", "btypedef"):
        return ["{", D([st.lstrip("b")] + b, d), "}"]
    if st == "param":
        return [D(["int"], F([(b, d)], "f"))]
    if st == "member":
        return [D([("struct", "M", [(["int"], [("first", None)]), (b, [(d, None)])])], "v")]


STO = ["typedef", "extern", "static", "_Thread_local", "auto", "register"]


def g_storage(thorough):
    for L in (1, 2, 3):
        for sp in itertools.product(STO, repeat=L):
            yield "storage classes", [D(sp + ("int",), P("x"))]
            yield "storage classes", ["{", D(sp + ("int",), P("x")), "}"]
            if L < 3:
                yield "storage classes", [D(("int",) + sp, "x")]
                yield "storage classes", [D(sp + ("int",), F(None, "x"))]
                yield "storage classes", ["{", D(sp + ("int",), F(None, "x")), "}"]
    for sp in [()] + [(s,) for s in STO] + [("static", "_Thread_local"), ("_Thread_local", "extern")]:
        for f in ("inline", "_Noreturn"):
            for d in ("x", F(None, "x"), P(F(None, "x")), F(None, P("x"))):
                yield "function specifiers", [D(sp + (f, "int"), d)]
                yield "function specifiers", [D((f,) + sp + ("int", f), d)]
                yield "function specifiers", ["{", D(sp + (f, "int"), d), "}"]
        for a in (0, 1, 4, 8, 16):
            for d in ("x", P("x"), F(None, "x")):
                for t in ("int", "char", "long"):
                    yield "alignment specifiers", [D(sp + (("_Alignas", a), t), d)]
                    yield "alignment specifiers", ["{", D(sp + (t, ("_Alignas", a)), d), "}"]
        for a, b in ((16, 4), (4, 16), (16, "int"), ("int", 16), ("long", "char"), ("char", "long"), (0, 8), (8, 0), ("long", 4), ("double", 0)):
            yield "alignment specifiers", [D(sp + (("_Alignas", a), ("_Alignas", b), "char"), "x")]
            yield "alignment specifiers", ["{", D(sp + (("_Alignas", a), "char", ("_Alignas", b)), "x"), "}"]
        for init in (1, "variable"):
            for d in ("x", A(None, "x"), A(7, "x"), P("x"), F(None, "x"), A(("vla", "n"), "x")):
                for t in ("int",):
                    yield "initialisers", [D(sp + (t,), (d, init))]
                    yield "initialisers", ["{", D(sp + (t,), (d, init)), "}"]
        for t in (["int"], ["void"], [II], [AT], [SS], ["const", "int"], [FT]):
            for d in ("x", A(None, "x")):
                yield "completeness", [D(list(sp) + t, d)]
                yield "completeness", ["{", D(list(sp) + t, d), "}"]
                yield "completeness", [D(list(sp) + t, (d, 1))]
    yield "several declarators", [D(["int"], "x", P("y"), A(3, "z"), F(None, "w"))]
    yield "several declarators", [D(["static", "int"], "x", ("y", 1), P(A(3, "z")))]
    yield "several declarators", [D(["int"], "x", P("x"))]
    yield "several declarators", ["{", D(["int"], "x", P("x")), "}"]


def g_tags(thorough):
    def M(*ms):
        return [(list(sp), [(d, w) for d, w in ds]) for sp, ds in ms]
    i = (["int"], [("a", None)])
    bodies = [M(i), M(i, i), M((["int"], [("a", None), ("b", None)])), M((["int"], [("a", None), ("a", None)])), M((["int"], [("a", None)]), (["char"], [(P("a"), None)])),
              M((["void"], [("a", None)])), M(([II], [("a", None)])), M(([II], [(P("a"), None)])), M(([FT], [("a", None)])), M(([FT], [(P("a"), None)])),
              M((["int"], [(F(None, "a"), None)])), M((["static", "int"], [("a", None)])), M((["typedef", "int"], [("a", None)])), M((["const", "int"], [("a", None)])),
              M((["int"], [(A(None, "f"), None)])), M(i, (["int"], [(A(None, "f"), None)])), M((["int"], [(A(None, "f"), None)]), i), M(i, (["int"], [(A(None, "f"), None), ("z", None)])),
              M(i, (["int"], [(A(3, A(2, "f")), None)])), M(i, (["int"], [(A(("vla", "n"), "f"), None)])), M(i, (["int"], [(P(A(("vla", "n"), "f")), None)])),
              M(([SS], [("s", None)])), M(([("struct", "N", None)], [(P("next"), None)])), M(([("struct", "N", None)], [("next", None)])),
              M(([("struct", None, M((["int"], [("p", None)])))], [])), M(i, ([("struct", None, M((["int"], [("p", None)])))], [])),
              M(i, ([("union", None, M((["int"], [("a", None)])))], [])), M(([("struct", None, M((["int"], [("a", None)])))], []), i),
              M(([("struct", None, M((["int"], [("p", None)])))], [("s", None)]), i), M(i, ([("struct", "Q", M((["int"], [("a", None)])))], [("s", None)])),
              M((["inline", "int"], [("a", None)]))]
    for t in ("int", "unsigned", "char", "long", "_Bool", "short", "float", "double", EE, TT, SS, CP):
        for wd in (-1, 0, 1, 8, 9, 16, 17, 32, 33, 64, 65):
            bodies.append(M(([t], [("a", wd), ("b", None)])))
            if wd >= 0 and t in ("int", "_Bool", "float"):
                bodies.append(M(([t], [(None, wd), ("b", None)])))
    for b in bodies:
        for k in ("struct", "union"):
            for tag in ("N", None):
                if tag is None and "N" in repr(b):
                    continue
                yield "members", [D([(k, tag, b)], "x")]
            yield "members", ["{", D([(k, "N", b)]), D([(k, "N", None)], "x"), "}"]
    ens = [[("X", None)], [("X", None), ("Y", None), ("Z", None)], [("X", 5), ("Y", None), ("Z", None)], [("X", None), ("Y", -3), ("Z", None), ("W", None)],
           [("X", 2), ("Y", 2), ("Z", 1), ("W", None)], [("X", -1), ("Y", None), ("Z", 7)], [("X", None), ("X", None)], [("A", None)], [("T", None)],
           [("X", 2147483647)], [("X", -2147483648), ("Y", None)], [("X", 0), ("Y", 3), ("Z", 0), ("W", None)]]
    for e in ens:
        for tag in ("N", None):
            yield "enumerations", [D([("enum", tag, e)], "x")]
            yield "enumerations", [D([("enum", tag, e)])]
            yield "enumerations", ["{", D([("enum", tag, e)], "x"), "}"]
        yield "enumerations", [D([("enum", "N", e)]), D([("enum", "N", None)], "y")]
        yield "enumerations", [D(["int"], e[0][0]), D([("enum", "N", e)])]
        yield "enumerations", [D(["int"], e[0][0]), "{", D([("enum", "N", e)]), "}"]
        yield "enumerations", [D([("enum", "N", e)]), D(["int"], e[-1][0])]
        yield "enumerations", [D([("enum", "N", e)]), "{", D(["int"], e[-1][0]), "}"]
    b1, b2 = M(i), M((["char"], [("b", None)]))
    tags = [("struct", "N", None), ("struct", "N", b1), ("struct", "N", b2), ("union", "N", None), ("union", "N", b1), ("enum", "N", [("X", None)]), ("enum", "N", None)]
    for t1 in tags:
        for t2 in tags:
            for d1 in ((), (P("x"),)):
                for d2 in ((), (P("y"),), ("y",)):
                    yield "tags", [D([t1], *d1), D([t2], *d2)]
                    yield "tags", ["{", D([t1], *d1), D([t2], *d2), "}"]
                    yield "tags", [D([t1], *d1), "{", D([t2], *d2), "}"]
                    yield "tags", ["{", D([t1], *d1), "{", D([t2], *d2), "}", "}"]
            if thorough:
                for t3 in tags:
                    yield "tags", [D([t1]), D([t2], P("y")), D([t3], "z")]
                    yield "tags", [D([t1]), "{", D([t2]), D([t3], "z"), "}"]
                    yield "tags", ["{", D([t1]), "{", D([t2]), "}", D([t3], "z"), "}"]


def g_redeclarations(thorough):
    objs = []
    for s in ((), ("extern",), ("static",), ("_Thread_local",), ("extern", "_Thread_local"), ("static", "_Thread_local")):
        for t, d in ((["int"], "x"), (["char"], "x"), (["int"], A(None, "x")), (["int"], A(3, "x")), (["int"], A(4, "x")), (["const", "int"], "x"), ([II], "x")):
            objs.append((list(s) + t, d, None))
        objs.append((list(s) + ["int"], "x", 1))
        objs.append((list(s) + ["int"], A(None, "x"), 1))
    for s in ((), ("extern",), ("static",)):
        for d in (F(None, "x"), F([(["void"], None)], "x"), F([(["int"], None)], "x"), F([(["char"], None)], "x"), F([(["int"], A(None, "a"))], P("x"))):
            objs.append((list(s) + ["int"], d, None))
        objs.append((list(s) + ["inline", "int"], F(None, "x"), None))
        objs.append((list(s) + ["_Noreturn", "int"], F([(["int"], None)], "x"), None))
    others = [(["typedef", "int"], "x", None), (["typedef", "char"], "x", None), (["typedef", "int"], F(None, "x"), None), ([("enum", None, [("x", None)])], None, None),
              (["auto", "int"], "x", None), (["register", "int"], "x", 1)]

    def dd(o):
        return D(o[0]) if o[1] is None else D(o[0], (o[1], o[2]))
    al = objs + others
    small = [o for o in al if o[0][-1] != "char" and o[0] != ["const", "int"] and II not in o[0]]
    core = [o for o in small if "_Thread_local" not in o[0] and (o[1] == "x" or o[1] is None or o[1][0] == "()" and o[1][1] is None or o[1] == A(None, "x") or o[1] == A(3, "x"))
            and "inline" not in o[0]]
    mid = core + [o for o in small if "_Thread_local" in o[0] and o[1] == "x" and not o[2]]
    mid += [o for o in small if isinstance(o[1], tuple) and o[1] in (F([(["int"], None)], "x"), A(4, "x")) and "_Noreturn" not in o[0] and "_Thread_local" not in o[0]]
    for a in al:
        for b in al if thorough else al[::2] if a not in mid else al:
            yield "file scope, file scope", [dd(a), dd(b)]
    for a in small if thorough else mid:
        for b in small if thorough else mid:
            yield "file scope, block scope", [dd(a), "{", dd(b), "}"]
            yield "block scope, block scope", ["{", dd(a), dd(b), "}"]
            yield "block scope, inner block", ["{", dd(a), "{", dd(b), "}", dd(a) if a[1] is None else D(["int"], "other"), "}"]
    for a in core:
        for b in core:
            for c in core if thorough else core[::5]:
                yield "three declarations", [dd(a), dd(b), dd(c)]
                yield "three declarations", [dd(a), "{", dd(b), "{", dd(c), "}", "}"]
                if thorough:
                    yield "three declarations", ["{", dd(a), "{", dd(b), "}", dd(c), "}"]
                    yield "three declarations", [dd(a), "{", dd(b), "}", dd(c)]


# ---------------------------------------------------------------- the checks
_W = _CASES = _BASE = None
CHUNKS = 64


def _chunk(k):
    out, cache = [], []
    n = len(_CASES)
    for fam, prog in _CASES[k * n // CHUNKS:(k + 1) * n // CHUNKS]:
        try:
            o = run_prog(_W, prog, _BASE, cache)
        except Unknown as e:
            o = ("unknown", None, str(e), len(prog))
            del cache[:]
        except AnalysisBroken as e:
            o = ("broken", None, str(e), len(prog))
            del cache[:]
        out.append((fam,) + o + (prog[:o[3]],))
    return out


def run(r, cases):
    import multiprocessing as mp
    global _W, _CASES, _BASE
    _W = DeclWorld(ir.load_program())
    ref = Ref()
    for it in PRE:
        o = step(_W, it, ref, False)
        if o[0] != "ok":
            if o[0] == "bad":
                r.find(o[1], where(_W, o[1]), "%s: %s" % (pshow([it]), o[2]), func=FUNC.get(o[1], FUNC["type"]), ident="%s|preamble" % o[1])
                return
            raise AnalysisBroken("preamble: %s" % o[2])
    _BASE = (_W.reset(), ref, 0)
    _CASES = cases
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        parts = pool.map(_chunk, range(CHUNKS), chunksize=1)
    found, undecided, n = {}, 0, 0
    for fam, out, rule, msg, _, prog in (x for p in parts for x in p):
        if out == "broken":
            raise AnalysisBroken("%s: %s" % (pshow(prog), msg))
        r.count(fam, 1)
        n += 1
        if out == "unknown":
            undecided += 1
            last = "%s: %s" % (pshow(prog), msg)
            r.count("undecided", 1)
        elif out == "open":
            r.count("left open by C or by this check", 1)
        elif out == "bad":
            found.setdefault((rule, fam, msg if len(msg) < 90 else msg[:90]), []).append(prog)
    for (rule, fam, msg), l in sorted(found.items()):
        known = {}
        for p in l:
            known.setdefault(pshow(p), p)
        names = sorted(known, key=lambda x: (len(x), x))
        listed = [x for x in names if x in REPORTED]
        for x in listed + [y for y in names if y not in listed][:1]:
            r.find(rule, where(_W, rule), "%s: %s%s" % (x, msg, " (and %d more)" % (len(names) - 1) if len(names) > 1 and x not in listed else ""),
                   func=FUNC.get(rule, FUNC["type"]), ident="%s|%s" % (rule, x.replace(" ", "_")))
    if undecided * 5 > n and not found:
        raise AnalysisBroken("%d of %d declarations cannot be decided, e.g. %s" % (undecided, n, last))
    r.samples = [pshow(c[1]) for c in cases[::max(1, len(cases) // 12)]]
    r.assume = ["declarations are built by kefir's own node constructors; expressions in them (array lengths, initialisers) are opaque nodes with a given value or type; "
                "initialiser analysis completes an array of unknown length and reports whether the initialiser is constant",
                "what C leaves undefined or unspecified is not judged, nor are these constraints, which kefir diagnoses elsewhere or not at all: restrict on "
                "non-pointers, [*] and negative lengths, function and alignment specifiers in parameters and members, members duplicated through an "
                "anonymous structure, incomplete parameter types in declarations"]


REPORTED = ("static int x; extern int x = init;", "static _Thread_local int x; extern _Thread_local int x = init;")
FUNC = {"type": "kefir_ast_analyze_declaration", "constraint": "kefir_ast_analyze_declaration_node", "declaration": "kefir_ast_analyze_init_declarator_node",
        "scope": "kefir_ast_global_context_resolve_scoped_ordinary_identifier", "linkage": "kefir_ast_global_context_declare_external"}


def where(w, rule):
    try:
        f = w.fn(FUNC.get(rule, FUNC["type"]))
        return "%s:%s" % (f.file, f.line)
    except Exception:
        return "source/ast/analyzer/declarator.c:1"


def c21(tier):
    r = Result()
    r.rules = ["type: a declaration gives every identifier the type its specifiers and declarator spell (6.7.2, 6.7.3, 6.7.6), enumeration constants their values (6.7.2.2)",
               "constraint: it is rejected exactly when a constraint on specifiers, declarators, members, tags or storage is violated",
               "declaration/scope: afterwards the identifier is visible as an object, function, type name or constant of the right storage"]
    th = tier == "thorough"
    run(r, [c for g in (g_specifiers, g_declarators, g_storage, g_tags) for c in g(th)])
    if not r.findings:
        r.need("specifiers", 1000)
        r.need("declarators", 1000)
    return r


def c22(tier):
    r = Result()
    r.rules = ["linkage: every declaration of an identifier gets the linkage, storage and definedness of 6.2.2 and 6.9.2 from the declarations before it",
               "constraint: a second declaration is rejected exactly when 6.7p3, 6.7p4, 6.7.1 or 6.9p3 say so", "type: it has the composite type of its declarations",
               "scope: an inner declaration hides the outer one until its block ends"]
    run(r, list(g_redeclarations(tier == "thorough")))
    if not r.findings:
        r.need("file scope, file scope", 500)
    return r
