"""The semantic analyser and IR translator of kefir, abstractly interpreted over a finite domain of operand types.

World: type objects, contexts and nodes as kefir builds them (constructed by interpreting kefir's own constructors), children
of a node left abstract.  The emitted instructions are collected as events; Prog interprets them over a term domain with a
64-bit slot operand stack."""
import struct
from . import absint
from .absint import State, Interp
from .ir import AnalysisBroken


def new(name, off=0):
    return ("ptr", ("new", name), off)


BASIC = {  # name: (constructor, width, signed)   width 0: not an integer
    "bool": ("kefir_ast_type_boolean", 1, False), "char": ("kefir_ast_type_char", 8, True),
    "uchar": ("kefir_ast_type_unsigned_char", 8, False), "schar": ("kefir_ast_type_signed_char", 8, True),
    "ushort": ("kefir_ast_type_unsigned_short", 16, False), "short": ("kefir_ast_type_signed_short", 16, True),
    "uint": ("kefir_ast_type_unsigned_int", 32, False), "int": ("kefir_ast_type_signed_int", 32, True),
    "ulong": ("kefir_ast_type_unsigned_long", 64, False), "long": ("kefir_ast_type_signed_long", 64, True),
    "ullong": ("kefir_ast_type_unsigned_long_long", 64, False), "llong": ("kefir_ast_type_signed_long_long", 64, True),
    "float": ("kefir_ast_type_float", 0, True), "double": ("kefir_ast_type_double", 0, True),
    "ldouble": ("kefir_ast_type_long_double", 0, True), "void": ("kefir_ast_type_void", 0, False),
}
FLOATS = {"float": 32, "double": 64, "ldouble": 80}


class World:
    types_only = False
    def __init__(self, prog, inline=None):
        self.prog = prog
        self.models = {}
        self.it = Interp(prog, self.models, inline, depth=30)
        self.enum = {}
        for vals in prog.enums.values():
            self.enum.update(vals)
        self.opname = {}
        for n, v in self.enum.items():
            if n.startswith("KEFIR_IROPCODE_"):
                self.opname[v] = n[len("KEFIR_IROPCODE_"):]
        if len(self.opname) < 60:
            raise AnalysisBroken("IR opcode enumeration not found")
        self.base_models()
        self.translator_models()
        st = self.st = State()
        self.mem = new("mem")
        self.T, self.info = {}, {}
        self.vtable(self.mem, "kefir_mem")
        for n, (fn, w, s) in BASIC.items():
            self.T[n] = self.call1(fn, [])
            self.info[self.T[n]] = n
        prof = new("profile")
        outs = [s for v, s in self.it.run(self.fn("kefir_compiler_profile"), [prof, 0], st) if v == 0]
        if len(outs) != 1:
            raise AnalysisBroken("the default compiler profile could not be evaluated")
        self.st = outs[0]
        self.traits = self.load(prof, "kefir_compiler_profile", "type_traits")
        self.bundle = new("bundle")
        cfg = new("config")
        self.put(cfg, "kefir_ast_context_configuration", None, 0)
        self.actx = new("actx")
        self.tctx = new("tctx")
        self.builder = new("builder")
        P = self.put
        P(self.actx, "kefir_ast_context", "type_traits", self.traits)
        P(self.actx, "kefir_ast_context", "type_bundle", self.bundle)
        P(self.actx, "kefir_ast_context", "configuration", cfg)
        P(self.actx, "kefir_ast_context", "extensions", 0)
        P(self.actx, "kefir_ast_context", "surrounding_function", new("func"))
        P(self.tctx, "kefir_ast_translator_context", "ast_context", self.actx)
        P(self.tctx, "kefir_ast_translator_context", "environment", new("tenv"))
        P(self.tctx, "kefir_ast_translator_context", "module", new("module"))
        P(self.tctx, "kefir_ast_translator_context", "extensions", 0)
        P(self.tctx, "kefir_ast_translator_context", "local_scope_layout", new("lscope"))
        P(self.tctx, "kefir_ast_translator_context", "global_scope_layout", new("gscope"))
        P(self.builder, "kefir_irbuilder_block", "block", new("block"))
        self.vtable(self.builder, "kefir_irbuilder_block")
        self.vtable(new("tenv", self.off("kefir_ast_translator_environment", "target_env")), "kefir_ast_target_environment")
        for n, of in (("pint", "int"), ("pchar", "char"), ("pvoid", "void"), ("pdouble", "double")):
            self.deftype(n, self.call1("kefir_ast_type_pointer", [self.mem, self.bundle, self.T[of]]))
        self.deftype("enum", self.call1("kefir_ast_type_enumeration", [self.mem, self.bundle, 0, self.T["int"], new("tmp")]))
        self.deftype("cint", self.qualified("int", const=1))
        self.deftype("cpint", self.qualified("pint", const=1))
        self.deftype("pcint", self.call1("kefir_ast_type_pointer", [self.mem, self.bundle, self.T["cint"]]))

    # ------------------------------------------------------------ helpers
    def fn(self, name):
        f = self.prog.funcs.get(name)
        if f is None:
            c = [g for g in self.prog.funcs.values() if g.name == name]
            if len(c) != 1:
                raise AnalysisBroken("function %s not found" % name)
            f = c[0]
        return f

    def off(self, s, m):
        ms = self.prog.members.get(s)
        if not ms:
            raise AnalysisBroken("structure %s not found" % s)
        for nm, ty, off, size in ms:
            if nm == m or nm.lstrip(".") == m:
                return off
        # anonymous unions/structs contribute empty path components
        for nm, ty, off, size in ms:
            if nm.replace("..", ".").lstrip(".") == m:
                return off
        raise AnalysisBroken("structure %s has no member %s" % (s, m))

    def load(self, p, s, m, st=None):
        st = st or self.st
        return self.it.load(st, absint.ptradd(p, self.off(s, m)), "ptr")

    def put(self, p, s, m, v, st=None):
        st = st or self.st
        if m is None:
            st.ranges = st.ranges + ((p[1], p[2], None, 0),)
            return
        self.it.store(st, absint.ptradd(p, self.off(s, m)), v)

    def vtable(self, p, s):
        """function pointers of an interface structure become models of the same name"""
        for nm, ty, off, size in self.prog.members.get(s, ()):
            if "." not in nm and "%s.%s" % (s, nm) in self.models:
                self.it.store(self.st, absint.ptradd(p, off), ("fn", "%s.%s" % (s, nm)))

    def call1(self, fn, args, st=None):
        outs = self.it.run(self.fn(fn), args, (st or self.st).copy())
        vs = [(v, s) for v, s in outs if v is not None]
        if len(vs) != 1:
            raise AnalysisBroken("%s does not evaluate to a single outcome (%d)" % (fn, len(vs)))
        if st is None:
            self.st = vs[0][1]
        return vs[0][0]

    def deftype(self, n, t):
        if not isinstance(t, tuple):
            raise AnalysisBroken("type %s could not be constructed" % n)
        self.T[n] = t
        self.info[t] = n

    def qualified(self, n, const=0, volatile=0):
        # the qualification structure travels in a register as three bytes
        return self.call1("kefir_ast_type_qualified", [self.mem, self.bundle, self.T[n], const | (volatile << 16)])

    def node(self, st, name, ty, cat="EXPRESSION", struct_="kefir_ast_node_base", lvalue=1, const=0, bitfield=None, klass=None):
        p = new(name)
        st.ranges = st.ranges + ((("new", name), 0, None, 0),)
        S = "kefir_ast_node_base"
        st.mem[(("new", name), self.off(S, "self"))] = p
        if ty is not None:
            self.put(p, S, "properties.type", self.T[ty] if isinstance(ty, str) else ty, st)
        self.put(p, S, "properties.category", self.enum["KEFIR_AST_NODE_CATEGORY_" + cat], st)
        self.put(p, S, "properties.expression_props.lvalue", lvalue, st)
        self.put(p, S, "properties.expression_props.addressable", lvalue, st)
        self.put(p, S, "properties.expression_props.constant_expression", const, st)
        if bitfield:
            self.put(p, S, "properties.expression_props.bitfield_props.bitfield", 1, st)
            self.put(p, S, "properties.expression_props.bitfield_props.width", bitfield, st)
        return p

    def make_list(self, st, base, struct_, member, values):
        """a concrete kefir_list with the given values at base->member"""
        if member is None:
            l = base
        else:
            l = absint.ptradd(base, self.off(struct_, member + ".head"))
        ents = [new(("entry", base, member, i)) for i in range(len(values))]
        E = "kefir_list_entry"
        for i, (e, v) in enumerate(zip(ents, values)):
            self.put(e, E, "value", v, st)
            self.put(e, E, "prev", ents[i - 1] if i else 0, st)
            self.put(e, E, "next", ents[i + 1] if i + 1 < len(ents) else 0, st)
        L = "kefir_list"
        self.put(l, L, "head", ents[0] if ents else 0, st)
        self.put(l, L, "tail", ents[-1] if ents else 0, st)
        self.put(l, L, "length", len(ents), st)
        st.x["lists"] = st.x.get("lists", frozenset()) | {l}
        return l

    def tname(self, t, st=None, d=0):
        """structural name of a type object"""
        if t in self.info:
            return self.info[t]
        if t == 0 or not (isinstance(t, tuple) and t[0] == "ptr") or d > 4:
            return None
        st = st or self.st
        tag = st.known(self.load(t, "kefir_ast_type", "tag", st))
        if tag == self.enum.get("KEFIR_AST_TYPE_SCALAR_POINTER"):
            r = self.tname(self.load(t, "kefir_ast_type", "referenced_type", st), st, d + 1)
            return r and "p" + r
        if tag == self.enum.get("KEFIR_AST_TYPE_QUALIFIED"):
            r = self.tname(self.load(t, "kefir_ast_type", "qualified_type.type", st), st, d + 1)
            q = self.load(t, "kefir_ast_type", "qualified_type.qualification.constant", st)
            return r and ("c" if st.known(q) else "q") + r
        for n, (fn, w, s) in BASIC.items():
            if tag is not None and tag == self.st.known(self.load(self.T[n], "kefir_ast_type", "tag")):
                return n
        return None

    def store_bool(self, st, p, v):
        self.it.store(st, p, v)

    # ------------------------------------------------------------ models
    def base_models(self):
        M = self.models

        def malloc(it, st, ins, a):
            n = st.x.get("nalloc", 0)
            st.x["nalloc"] = n + 1
            p = new(("heap", n))
            for k in [q for q in st.mem if q[0] == p[1]]:
                del st.mem[k]
            return [(p, st)]

        def ok(it, st, ins, a):
            return [(0, st)]

        def code(it, st, ins, a):
            return [(a[0], st)]
        M["kefir_mem.malloc"] = malloc
        M["kefir_mem.calloc"] = malloc
        M["kefir_mem.realloc"] = malloc
        M["kefir_mem.free"] = ok
        M["kefir_set_error"] = code
        M["kefir_set_errorf"] = code
        M["kefir_set_source_error"] = code
        M["kefir_set_source_errorf"] = code
        M["kefir_clear_error"] = ok
        M["kefir_clear_warnings"] = ok

        def concrete(st, l):
            h = self.load(l, "kefir_list", "head", st) if isinstance(l, tuple) and l[0] == "ptr" else None
            return h == 0 or (isinstance(h, tuple) and h[0] == "ptr")

        def list_insert(it, st, ins, a):
            if concrete(st, a[1]):
                return it.run(self.fn("kefir_list_insert_after"), a, st)
            return [(0, st)]
        M["kefir_list_insert_after"] = list_insert
        M["kefir_hashtree_init"] = ok

        def list_tail(it, st, ins, a):
            if isinstance(a[0], tuple) and (a[0] in st.x.get("lists", ()) or concrete(st, a[0])):
                return [(self.load(a[0], "kefir_list", "tail", st), st)]
            return [(("tail", a[0]), st)]
        M["kefir_list_tail"] = list_tail
        M["kefir_symbol_table_insert"] = lambda it, st, ins, a: [(a[2], st)]

    def translator_models(self):
        M = self.models

        def emit(kind):
            def m(it, st, ins, a):
                op = st.known(a[1])
                if op is None:
                    raise Unknown("an IR instruction with an undetermined opcode is emitted")
                st.ev("I", self.opname.get(op, op), kind, tuple(a[2:]))
                return [(0, st)]
            return m
        for k in ("i64", "u64", "i32", "u32", "f64", "f32"):
            M["kefir_irbuilder_block.append" + k] = emit(k)

        def direct(kind):
            e = emit(kind)

            def m(it, st, ins, a):      # (mem, block, opcode, ...)
                return e(it, st, ins, a[1:])
            return m
        for k in ("i64", "u64", "i32", "u32", "f64", "f32"):
            M["kefir_irbuilder_block_append" + k] = direct(k)
        M["kefir_irblock_length"] = lambda it, st, ins, a: [(len(st.trace), st)]

        def at(it, st, ins, a):
            i = st.known(a[1])
            if i is None:
                raise Unknown("an IR instruction at an undetermined position is patched")
            return [(("ptr", ("instr", i), 0), st)]
        M["kefir_irblock_at"] = at

        def child(kind, argno):
            def m(it, st, ins, a):
                st.ev(kind, a[argno])
                return [(0, st)]
            return m
        M["kefir_ast_translate_expression"] = child("EXPR", 1)
        M["kefir_ast_translate_lvalue"] = child("LVAL", 3)
        M["kefir_ast_translate_statement"] = child("STMT", 1)

        def tkey(st, t):
            n = self.tname(t, st)
            if n is None:
                return t
            while n[0] in "cq" and n not in BASIC:
                n = n[1:]
            return n

        def type_new(it, st, ins, a):
            t = tkey(st, a[3])
            S = "kefir_ast_translator_type"
            p, l, irt = new(("ttype", t)), new(("tlayout", t)), new(("irtype", t))
            self.put(p, S, "object.ir_type_id", ("irid", t), st)
            self.put(p, S, "object.layout", l, st)
            self.put(p, S, "object.ir_type", irt, st)
            self.put(l, "kefir_ast_type_layout", "value", ("irval", t), st)
            it.store(st, a[5], p)
            return [(0, st)]
        M["kefir_ast_translator_type_new"] = type_new
        M["kefir_ast_translator_type_free"] = lambda it, st, ins, a: [(0, st)]

        def env_get(it, st, ins, a):
            it.store(st, a[3], ("envtype", a[2]))
            return [(0, st)]

        def env_info(it, st, ins, a):
            t = a[2]
            t = tkey(st, t[1]) if isinstance(t, tuple) and t[0] == "envtype" else t
            S = "kefir_ast_target_environment_object_info"
            base = a[4]
            self.put(base, S, "size", ("sizeof", t) if a[3] == 0 else ("sizeof", t, a[3]), st)
            self.put(base, S, "alignment", ("alignof", t) if a[3] == 0 else ("alignof", t, a[3]), st)
            self.put(base, S, "relative_offset", ("offsetof", t, a[3]), st)
            return [(0, st)]
        M["kefir_ast_target_environment.get_type"] = env_get
        M["kefir_ast_target_environment.object_info"] = env_info
        M["kefir_ast_target_environment.free_type"] = lambda it, st, ins, a: [(0, st)]
        def is_null(it, st, ins, a):
            self.store_bool(st, a[3], int(bool(st.x.get("nulls", {}).get(a[2]))))
            return [(0, st)]
        M["kefir_ast_is_null_pointer_constant"] = is_null

        def downcast(it, st, ins, a):
            it.store(st, a[1], a[0])
            return [(0, st)]
        M["kefir_ast_downcast_any_struct_member"] = downcast

        def layout_resolve(it, st, ins, a):
            S = "kefir_ast_type_layout"
            bf = st.x.get("bitfield")
            if bf is None:
                raise Unknown("type layout resolution outside the modelled cases")
            l = ("ptr", ("new", "memberlayout"), 0)
            self.put(l, S, "bitfield", 1, st)
            self.put(l, S, "bitfield_props.offset", bf[0], st)
            self.put(l, S, "bitfield_props.width", bf[1], st)
            self.put(l, S, "type", bf[2], st)
            self.put(l, S, "value", ("irval", "member"), st)
            it.store(st, a[2], l)
            return [(0, st)]
        M["kefir_ast_type_layout_resolve"] = layout_resolve

        def type_at(it, st, ins, a):
            p = ("ptr", ("new", "typeentry"), 0)
            self.put(p, "kefir_ir_typeentry", "typecode", self.enum["KEFIR_IR_TYPE_BITS"], st)
            return [(p, st)]
        M["kefir_ir_type_at"] = type_at

        # function declarations of a call: the argument and return types, as kefir records them
        def new_type(it, st, ins, a):
            n = st.x.get("ntype", 0)
            st.x["ntype"] = n + 1
            p = new(("irtype", n))
            it.store(st, a[3], ("irtypeid", n))
            return [(p, st)]
        M["kefir_ir_module_new_type"] = new_type

        def builder_init(it, st, ins, a):
            self.put(a[1], "kefir_irbuilder_type", "type", a[2], st)
            self.it.store(st, absint.ptradd(a[1], self.off("kefir_irbuilder_type", "free")), ("fn", "kefir_irbuilder_type.free"))
            return [(0, st)]
        M["kefir_irbuilder_type_init"] = builder_init
        M["kefir_irbuilder_type.free"] = lambda it, st, ins, a: [(0, st)]

        def object_type(it, st, ins, a):    # mem, type, alignment, env, builder, &layout
            irt = self.load(a[4], "kefir_irbuilder_type", "type", st)
            n = irt[1][1][1] if isinstance(irt, tuple) and irt[0] == "ptr" and isinstance(irt[1][1], tuple) else irt
            d = dict(st.x.get("irtypes", {}))
            d[n] = d.get(n, ()) + ((a[1],) if unqual(self.tname(a[1], st) or "?") != "void" else ())
            st.x["irtypes"] = d
            l = new(("arglayout", n, len(d[n])))
            self.put(l, "kefir_ast_type_layout", "type", a[1], st)
            it.store(st, a[5], l)
            return [(0, st)]
        M["kefir_ast_translate_object_type"] = object_type
        M["kefir_ast_translator_evaluate_type_layout"] = lambda it, st, ins, a: [(0, st)]
        M["kefir_ast_type_layout_free"] = lambda it, st, ins, a: [(0, st)]

        def new_decl(it, st, ins, a):       # mem, module, identifier, argument type, vararg, return type
            n = st.x.get("ndecl", 0)
            st.x["ndecl"] = n + 1
            p = new(("irdecl", n))
            S = "kefir_ir_function_decl"
            self.put(p, S, "id", ("declid", n), st)
            self.put(p, S, "name", a[2], st)
            self.put(p, S, "result_type_id", a[5], st)
            d = st.x.get("irtypes", {})
            tl = lambda k: [self.tname(t, st) for t in d.get(k[1], ())] if isinstance(k, tuple) and k[0] == "irtypeid" else [None]
            st.x["decls"] = dict(st.x.get("decls", {})) | {n: (tl(a[3]), tl(a[5]), st.known(a[4]), a[2])}
            return [(p, st)]
        M["kefir_ir_module_new_function_declaration"] = new_decl
        M["kefir_ast_node_is_lvalue_reference_constant"] = lambda it, st, ins, a: [(0, st)]
        M["kefir_ast_analyze_node"] = lambda it, st, ins, a: [(0, st)]
        M["kefir_ir_long_double_upper_half"] = lambda it, st, ins, a: [(("ldhi", a[0]), st)]
        M["kefir_ir_long_double_lower_half"] = lambda it, st, ins, a: [(("ldlo", a[0]), st)]


# ---------------------------------------------------------------- terms
FULL = (-(1 << 63), (1 << 63) - 1)


def width_of(n):
    return BASIC[n][1]


def rng(t):
    """signed 64-bit range of a slot term"""
    if isinstance(t, int):
        return (sx(t, 64), sx(t, 64))
    k = t[0]
    if k == "v":
        n = t[2]
        if isinstance(n, tuple):        # bit-field: ("bf", width, signed)
            w = n[1]
            return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if n[2] else (0, (1 << w) - 1)
        if n not in BASIC and n in ("enum", "cint"):
            n = "int"
        if n in BASIC and BASIC[n][1]:
            w, s = BASIC[n][1], BASIC[n][2]
            if w == 64:
                return FULL
            return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        return FULL
    if k in ("sext", "zext") and t[1] <= 0:
        return (0, 0)
    if k == "sext":
        return (-(1 << (t[1] - 1)), (1 << (t[1] - 1)) - 1) if t[1] < 64 else FULL
    if k == "zext":
        return (0, (1 << t[1]) - 1) if t[1] < 64 else FULL
    if k == "sizeof":
        return (0, 1 << 40)
    if k in ("lt", "ult", "eq", "flt", "feq", "not", "nz", "fnz", "band", "bor", "fle"):
        return (0, 1)
    if k == "f2i":
        n = t[3]
        if n and BASIC[n][1] < 64:
            return rng(("v", None, n))
        return FULL
    if k == "umod" or k == "udiv" or k == "lshr":
        a = rng(t[1])
        if a[0] >= 0:
            return (0, a[1])
    if k in ("ashr", "imod"):
        a = rng(t[1])
        return (min(a[0], 0), max(a[1], 0))
    if k == "bitval":
        w = t[4]
        if w <= 0:
            return (0, 0)
        return ((-(1 << (w - 1)), (1 << (w - 1)) - 1) if t[1] else (0, (1 << w) - 1)) if w < 64 else FULL
    if k == "and":
        for x in t[1:]:
            r = rng(x)
            if r[0] >= 0:
                return (0, r[1])
    return FULL


def sx(v, w):
    if w <= 0:
        return 0
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


MODULAR = {"add", "sub", "mul", "and", "or", "xor", "inot", "neg"}


def low(t, w):
    """canonical term agreeing with t on the low w bits (other bits irrelevant)"""
    if isinstance(t, int):
        return t & ((1 << w) - 1)
    if t[0] in ("sext", "zext") and t[1] >= w:
        return low(t[2], w)
    if t[0] in MODULAR:
        return mk(t[0], *[low(x, w) for x in t[1:]])
    if t[0] == "shl":
        return mk("shl", low(t[1], w), t[2])
    return t


def ext(kind, w, t):
    if w >= 64:
        return t
    if w <= 0:
        return (kind, w, t)
    if isinstance(t, int):
        return sx(t, w) if kind == "sext" else t & ((1 << w) - 1)
    lo, hi = rng(t)
    if kind == "sext" and lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
        return t
    if kind == "zext" and lo >= 0 and hi < (1 << w):
        return t
    t2 = low(t, w)
    if t2 != t:
        return ext(kind, w, t2)
    return (kind, w, t)


def srt(a, b):
    return (a, b) if repr(a) <= repr(b) else (b, a)


def mk(op, *a):
    if op == "sub":
        return mk("add", a[0], mk("neg", a[1]))
    if op == "neg":
        t = a[0]
        if isinstance(t, tuple) and t[0] == "neg":
            return t[1]
        if isinstance(t, tuple) and t[0] == "add":
            return mk("add", *[mk("neg", x) for x in t[1:]])
    if op == "mul":
        for i in (0, 1):
            if a[i] == 1:
                return a[1 - i]
            if isinstance(a[i], tuple) and a[i][0] == "neg":
                return mk("neg", mk("mul", a[i][1], a[1 - i]))
    if op == "add":
        parts, c = [], 0
        for x in a:
            for y in (x[1:] if isinstance(x, tuple) and x[0] == "add" else (x,)):
                if isinstance(y, int):
                    c += y
                else:
                    parts.append(y)
        parts.sort(key=repr)
        c = sx(c, 64)
        if c or not parts:
            parts.append(c)
        return parts[0] if len(parts) == 1 else ("add",) + tuple(parts)
    if op in ("mul", "and", "or", "xor", "eq", "band", "bor"):
        a = srt(*a)
    if op == "and":
        for i in (0, 1):
            c = a[i]
            if isinstance(c, int):
                m = c & ((1 << 64) - 1)
                if m and (m & (m + 1)) == 0 and m.bit_length() < 64:
                    return ext("zext", m.bit_length(), a[1 - i])
    if all(isinstance(x, int) for x in a):
        if op == "neg":
            return sx(-a[0], 64)
        if op == "mul":
            return sx(a[0] * a[1], 64)
    if op in ("idiv", "imod"):
        if rng(a[0])[0] >= 0 and rng(a[1])[0] >= 0:
            op = "u" + op[1:]
    if op == "ashr":
        if rng(a[0])[0] >= 0:
            op = "lshr"
    if op == "gt":
        return mk("lt", a[1], a[0])
    if op == "ugt":
        return mk("ult", a[1], a[0])
    if op == "ult":
        if rng(a[0])[0] >= 0 and rng(a[1])[0] >= 0:
            op = "lt"
    if op == "nz":
        t = a[0]
        if isinstance(t, int):
            return int(t != 0)
        if isinstance(t, tuple) and (rng(t) == (0, 1)):
            return t
        if t[0] in ("sext", "zext"):
            return ("nz", t)
    if op == "not":
        t = mk("nz", a[0])
        if isinstance(t, int):
            return 1 - t
        if t[0] == "not":
            return t[1]
        if t[0] == "feq" and (t[2] == 0 or t[3] == 0):
            return ("fnz", t[1], t[3] if t[2] == 0 else t[2])
        return ("not", t)
    if op in ("band", "bor"):
        x, y = mk("nz", a[0]), mk("nz", a[1])
        for p, q in ((x, y), (y, x)):
            if isinstance(p, int):
                if op == "band":
                    return q if p else 0
                return 1 if p else q
        if x == y:
            return x
        if op == "bor":
            for p, q in ((x, y), (y, x)):
                if p[0] in ("lt", "ult") and q[0] == "eq" and srt(p[1], p[2]) == (q[1], q[2]):
                    return mk("not", (p[0], p[2], p[1]))
                if p[0] == "flt" and q[0] == "feq" and p[1] == q[1] and srt(p[2], p[3]) == (q[2], q[3]):
                    return ("fle", p[1], p[2], p[3])
        x, y = srt(x, y)
        return (op, x, y)
    return (op,) + tuple(a)


def mkf(op, w, *a):
    if op in ("fadd", "fmul", "feq"):
        a = srt(*a)
    if op == "fgt":
        return ("flt", w, a[1], a[0])
    return (op, w) + tuple(a)


def i2f(w, signed, x):
    if not signed and rng(x)[0] >= 0:
        signed = True
    return ("i2f", w, "s" if signed else "u", x)


def split_addr(a):
    """(symbolic part, constant byte offset)"""
    if isinstance(a, tuple) and a[0] == "add" and isinstance(a[-1], int):
        return (a[1] if len(a) == 3 else a[:-1]), a[-1]
    return a, 0


def memof(t):
    """(width, address, version) when t is an unextended/zero-extended memory read"""
    if isinstance(t, tuple) and t[0] == "zext" and isinstance(t[2], tuple) and t[2][0] == "mem" and t[2][1] == t[1]:
        t = t[2]
    if isinstance(t, tuple) and t[0] == "mem":
        return t[1], t[2], t[3]
    return None


def extbits(signed, t, o, w):
    """w bits of t from bit o, extended"""
    if not (isinstance(o, int) and isinstance(w, int)):
        return ("extbits", signed, t, o, w)
    m = memof(t)
    if m and o + w <= m[0]:
        b, k = split_addr(m[1])
        return ("bitval", signed, b, 8 * k + o, w, m[2])
    if o == 0:
        return ext("sext" if signed else "zext", w, t)
    return ("extbits", signed, t, o, w)


def bitstore(n, a, v):
    if isinstance(v, tuple) and v[0] == "insertbits":
        _, c, x, o, w = v
        m = memof(c)
        if m and m[0] == n and m[1] == a and isinstance(o, int) and isinstance(w, int) and o + w <= n:
            b, k = split_addr(a)
            return ("store", ("bits", 8 * k + o, w), b, low(x, w))
    return None


def fnum(a):
    """numeric value of a floating constant operand, or None"""
    if isinstance(a, float):
        return a
    if isinstance(a, tuple) and a[0] == "f":
        try:
            if a[1].startswith("0xK"):
                b = int(a[1][3:], 16)
                e, m = (b >> 64) & 0x7fff, b & ((1 << 64) - 1)
                return (-1.0 if b >> 79 else 1.0) * m * 2.0 ** (e - 16383 - 63) if m else 0.0
            if a[1].startswith("0x"):
                return struct.unpack(">d", bytes.fromhex(a[1][2:].rjust(16, "0")))[0]
            return float(a[1])
        except (ValueError, OverflowError):
            return None
    if isinstance(a, tuple) and a[0] in ("sitofp", "uitofp") and isinstance(a[-1], int):
        return float(a[-1])
    if isinstance(a, tuple) and a[0] in ("fpext", "fptrunc"):
        return fnum(a[-1])
    return None


def fconst(w, a):
    n = fnum(a)
    if n is not None and n == 0 and w < 80:
        return 0
    return ("fc", w, a if n is None else n)


def strip_trunc(a):
    while isinstance(a, tuple) and a[0] in ("trunc", "zext", "sext"):
        a = a[-1]
    return a


class Bad(Exception):
    """the emitted code is malformed"""


class Unknown(Exception):
    """the analysis cannot tell"""


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


def unqual(n):
    while n and n[0] in "cq" and n not in BASIC:
        n = n[1:]
    return n


def slots(tn):
    if tn == "void":
        return 0
    return 2 if tn == "ldouble" else 1


def ld_pair(t):
    return [("ldL", t), ("ldH", t)]


def ld_of(a, b):
    """long double value stored in two slots (first pushed, second pushed)"""
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "ldL" and b[0] == "ldH" and a[1] == b[1]:
        return a[1]
    if isinstance(a, tuple) and a[0] == "ldhi" and isinstance(b, tuple) and b[0] == "ldlo" and a[1] == b[1]:
        return fconst(80, a[1])
    return ("ldpair", a, b)


LOADS = {"LOAD8U": (8, "zext"), "LOAD8I": (8, "sext"), "LOAD16U": (16, "zext"), "LOAD16I": (16, "sext"), "LOAD24U": (24, "zext"),
         "LOAD32U": (32, "zext"), "LOAD32I": (32, "sext"), "LOAD40U": (40, "zext"), "LOAD48U": (48, "zext"),
         "LOAD56U": (56, "zext"), "LOAD64": (64, "zext")}
STORES = {"STORE%d" % n: n for n in (8, 16, 24, 32, 40, 48, 56, 64)}
BIN = {"IADD": "add", "ISUB": "sub", "IMUL": "mul", "IAND": "and", "IOR": "or", "IXOR": "xor", "IDIV": "idiv", "IMOD": "imod",
       "UDIV": "udiv", "UMOD": "umod", "IEQUALS": "eq", "ILESSER": "lt", "IBELOW": "ult", "IGREATER": "gt", "IABOVE": "ugt",
       "BAND": "band", "BOR": "bor"}
FBIN = {"ADD": "fadd", "SUB": "fsub", "MUL": "fmul", "DIV": "fdiv", "EQUALS": "feq", "LESSER": "flt", "GREATER": "fgt"}


def count(t):
    return low(t, 6)


class Machine:
    """term interpretation of an emitted instruction sequence"""

    def __init__(self, code, valtype, patches=None, tracing=0, maxpaths=64, calls=None):
        self.calls = calls or {}            # declaration -> (argument types, [return type], variadic, name)
        self.code, self.valtype, self.patches = code, valtype, patches or {}
        self.tracing, self.maxpaths = tracing, maxpaths     # tracing: evaluations of one expression per path

    def run(self, choices=None, limit=400, stack=()):
        """returns list of (condition list, stack, effects, exit) over all branch outcomes"""
        out = []
        work = [(0, list(stack), [], [], {}, 0)]
        while work:
            pc, stk, eff, conds, nval, steps = work.pop()
            res = self.one(pc, list(stk), list(eff), list(conds), dict(nval), steps, limit, work)
            if res is not None:
                out.append(res)
            if len(out) > self.maxpaths:
                raise Unknown("too many control paths in the emitted code")
        return out

    def one(self, pc, stk, eff, conds, nval, steps, limit, work):
        def pop(n=1):
            if len(stk) < n:
                raise Bad("the emitted code pops an empty operand stack at instruction %d (%s)" % (pc, self.code[pc][1] if pc < len(self.code) else "end"))
            r = stk[len(stk) - n:]
            del stk[len(stk) - n:]
            return r[0] if n == 1 else r

        def nstores():
            return sum(1 for e in eff if e[0] == "store")
        while pc < len(self.code):
            steps += 1
            if steps > limit:
                return (conds, stk, eff, "limit")
            e = self.code[pc]
            if e[0] == "EXPR":
                k = nval.get(e[1], 0)
                if self.tracing and k >= self.tracing:
                    return (conds, stk, eff, "limit")
                nval[e[1]] = k + 1
                tn = self.valtype(e[1])
                v = ("v", e[1] if k == 0 else (e[1], k), tn)
                eff.append(("eval", e[1]) if not self.tracing else ("eval", e[1], v, len(stk)))
                if slots(tn) == 2:
                    stk += ld_pair(v)
                elif slots(tn) == 1:
                    stk.append(v)
                pc += 1
                continue
            if e[0] == "LVAL":
                eff.append(("lval", e[1]))
                stk.append(("addr", e[1]))
                pc += 1
                continue
            if e[0] in ("STMT", "MARK"):
                eff.append((e[0].lower(), e[1]) if not self.tracing else (e[0].lower(), e[1], len(stk)))
                pc += 1
                continue
            op, kind, args = e[1], e[2], e[3]
            if (pc, "arg") in self.patches:
                args = (self.patches[(pc, "arg")],)
            a0 = args[0] if args else None
            if op in BIN:
                a, b = pop(2)
                stk.append(mk(BIN[op], a, b))
            elif op in ("ILSHIFT", "IRSHIFT", "IARSHIFT"):
                a, b = pop(2)
                stk.append(mk({"ILSHIFT": "shl", "IRSHIFT": "lshr", "IARSHIFT": "ashr"}[op], a, count(b)))
            elif op == "IADD1":
                stk.append(mk("add", pop(), self.imm(a0)))
            elif op == "IADDX":
                a, b = pop(2)
                stk.append(mk("add", a, mk("mul", b, self.imm(a0))))
            elif op == "INEG":
                stk.append(mk("neg", pop()))
            elif op == "INOT":
                stk.append(mk("inot", pop()))
            elif op == "BNOT":
                stk.append(mk("not", pop()))
            elif op == "TRUNCATE1":
                stk.append(mk("nz", pop()))
            elif op == "LDTRUNC1":
                a, b = pop(2)
                stk.append(("fnz", 80, ld_of(a, b)))
            elif op in ("EXTEND8", "EXTEND16", "EXTEND32"):
                stk.append(ext("sext", int(op[6:]), pop()))
            elif op in ("PUSHU64", "PUSHI64"):
                stk.append(self.imm(a0) if not (isinstance(a0, tuple) and a0[0] in ("ldlo", "ldhi")) else a0)
            elif op == "PUSHLD":
                # two-instruction literal: PUSHLD hi ; PUSHU64 lo
                stk.append(a0)
            elif op == "PUSHF32":
                stk.append(fconst(32, a0))
            elif op == "PUSHF64":
                stk.append(fconst(64, a0))
            elif op in LOADS:
                w, s = LOADS[op]
                stk.append(ext(s, w, ("mem", w, pop(), nstores())))
            elif op == "LOADLD":
                stk += ld_pair(("mem", 80, pop(), nstores()))
            elif op in STORES:
                a, v = pop(2)
                eff.append(bitstore(STORES[op], a, v) or ("store", STORES[op], a, low(v, STORES[op])))
            elif op == "STORELD":
                a, x, y = pop(3)
                eff.append(("store", 80, a, ld_of(x, y)))
            elif op == "BCOPY":
                a, v = pop(2)
                eff.append(("store", ("obj",) + tuple(args), a, v))
            elif op == "BZERO":
                eff.append(("zero", tuple(args), pop()))
            elif op == "PICK":
                n = self.imm(a0)
                if not isinstance(n, int) or n < 0 or n >= len(stk):
                    raise Bad("PICK %s reaches below the operands of this construct at instruction %d" % (n, pc))
                stk.append(stk[-1 - n])
            elif op == "PUT":
                v = pop()
                n = self.imm(a0)
                if not isinstance(n, int) or n >= len(stk):
                    raise Bad("PUT %s reaches below the operands of this construct at instruction %d" % (n, pc))
                stk[-1 - n] = v
            elif op == "XCHG":
                n = self.imm(a0)
                if not isinstance(n, int) or n >= len(stk):
                    raise Bad("XCHG %s reaches below the operands of this construct at instruction %d" % (n, pc))
                stk[-1], stk[-1 - n] = stk[-1 - n], stk[-1]
            elif op == "DROP":
                n = self.imm(a0)
                if not isinstance(n, int) or n >= len(stk):
                    raise Bad("DROP %s reaches below the operands of this construct at instruction %d" % (n, pc))
                del stk[len(stk) - 1 - n]
            elif op == "POP":
                pop()
            elif op == "NOP":
                pass
            elif op[:3] in ("F32", "F64") and op[3:] in FBIN:
                a, b = pop(2)
                w = int(op[1:3])
                stk.append(mkf(FBIN[op[3:]], w, low(a, w), low(b, w)))
            elif op[:2] == "LD" and op[2:] in FBIN:
                a, b, c, d = pop(4)
                r = mkf(FBIN[op[2:]], 80, ld_of(a, b), ld_of(c, d))
                if op[2:] in ("EQUALS", "LESSER", "GREATER"):
                    stk.append(r)
                else:
                    stk += ld_pair(r)
            elif op in ("F32NEG", "F64NEG"):
                w = int(op[1:3])
                stk.append(("fneg", w, low(pop(), w)))
            elif op == "LDNEG":
                a, b = pop(2)
                stk += ld_pair(("fneg", 80, ld_of(a, b)))
            elif op in ("INTCF32", "INTCF64", "UINTCF32", "UINTCF64"):
                stk.append(i2f(int(op[-2:]), op[0] == "I", pop()))
            elif op in ("INTCLD", "UINTCLD"):
                stk += ld_pair(i2f(80, op[0] == "I", pop()))
            elif op in ("F32CINT", "F64CINT"):
                w = int(op[1:3])
                stk.append(("f2i", w, low(pop(), w), None))
            elif op == "LDCINT":
                a, b = pop(2)
                stk.append(("f2i", 80, ld_of(a, b), None))
            elif op in ("F32CF64", "F64CF32"):
                s, d = int(op[1:3]), int(op[5:7])
                stk.append(("f2f", s, d, low(pop(), s)))
            elif op in ("F32CLD", "F64CLD"):
                s = int(op[1:3])
                stk += ld_pair(("f2f", s, 80, low(pop(), s)))
            elif op in ("LDCF32", "LDCF64"):
                a, b = pop(2)
                stk.append(("f2f", 80, int(op[-2:]), ld_of(a, b)))
            elif op == "ELEMENTPTR":
                a, b = pop(2)
                i, l = [strip_trunc(x) for x in args[:2]]
                if not (isinstance(i, tuple) and i[0] == "irid" and l == ("irval", i[1])):
                    raise Bad("ELEMENTPTR with a type operand that is not the layout of one type at instruction %d" % pc)
                stk.append(mk("add", a, mk("mul", b, ("sizeof", i[1]))))
            elif op == "OFFSETPTR":
                stk.append(("off", pop(), tuple(args)))
            elif op in ("EXTSBITS", "EXTUBITS"):
                o, w = [strip_trunc(x) for x in args[:2]]
                stk.append(extbits(op == "EXTSBITS", pop(), o, w))
            elif op == "INSERTBITS":
                a, b = pop(2)
                stk.append(("insertbits", a, b) + tuple(strip_trunc(x) for x in args[:2]))
            elif op == "GETLOCALS":
                stk.append(("locals",))
            elif op == "GETGLOBAL":
                stk.append(("global", tuple(args)))
            elif op == "GETTHRLOCAL":
                stk.append(("thrlocal", tuple(args)))
            elif op == "PUSHLABEL":
                stk.append(("label", a0))
            elif op == "PUSHSTRING":
                stk.append(("string", a0))
            elif op == "JMP":
                t = self.target(pc, a0)
                if not isinstance(t, int):
                    eff.append(("goto", t))
                    return (conds, stk, eff, "jump")
                pc = t
                continue
            elif op == "BRANCH":
                c = mk("nz", pop())
                t = self.target(pc, a0)
                if isinstance(c, int):
                    pc = t if c else pc + 1
                    continue
                fixed = dict((x, y) for x, y in conds)
                truth = None
                n = c
                neg = False
                if isinstance(n, tuple) and n[0] == "not":
                    n, neg = n[1], True
                if n in fixed:
                    truth = fixed[n] ^ neg
                for val in ((1, 0) if truth is None else (truth,)):
                    cs = conds + ([(n, val ^ neg)] if truth is None else [])
                    tgt = t if val else pc + 1
                    ef = eff + ([("cond", n, val ^ neg)] if self.tracing and truth is None else [])
                    if not isinstance(tgt, int):
                        work.append((len(self.code), list(stk), ef + [("goto", tgt)], cs, dict(nval), steps))
                    else:
                        work.append((tgt, list(stk), ef, cs, dict(nval), steps))
                return None
            elif op == "IJMP":
                eff.append(("ijmp", pop()))
                return (conds, stk, eff, "jump")
            elif op in ("INVOKE", "INVOKEV"):
                d = strip_trunc(a0)
                d = self.calls.get(d[1]) if isinstance(d, tuple) and d[0] == "declid" else None
                if d is None or None in d[0] or None in d[1] or len(d[1]) > 1:
                    raise Unknown("call of an unmodelled declaration")
                av = []
                for t in reversed(d[0]):
                    n = slots(unqual(t))
                    av.insert(0, pop() if n == 1 else ld_of(*pop(2)) if n == 2 else None)
                callee = pop() if op == "INVOKEV" else ("named", d[3])
                k = sum(1 for x in eff if x[0] == "call")
                eff.append(("call", callee, tuple(zip(d[0], av)), d[2]))
                rt = unqual(d[1][0]) if d[1] else "void"
                r = ("v", ("result", k), rt if rt in FLOATS else "ulong")
                stk += ld_pair(r) if slots(rt) == 2 else [r] * slots(rt)
            elif op == "RET":
                eff.append(("ret", tuple(stk)))
                return (conds, [], eff, "ret")
            else:
                raise Unknown("unmodelled instruction %s" % op)
            pc += 1
        return (conds, stk, eff, "end" if pc == len(self.code) else "out-of-range")

    def imm(self, a):
        a = strip_trunc(a)
        if isinstance(a, tuple) and a[0] == "sizeof":
            return a[:2]
        return a

    def target(self, pc, a0):
        return a0


def patches(w, st):
    off = w.off("kefir_irinstr", "arg.i64")
    p = {}
    for (b, o), v in st.mem.items():
        if isinstance(b, tuple) and b[0] == "instr":
            if o == off:
                k = st.known(v)
                p[(b[1], "arg")] = k if k is not None else v
    return p


# ---------------------------------------------------------------- do two terms denote different values?
import hashlib as _hl  # noqa: E402
M64 = (1 << 64) - 1


def _h(*a):
    return int.from_bytes(_hl.blake2b(repr(a).encode(), digest_size=8).digest(), "little")


def _sx(x, n):
    x &= (1 << n) - 1
    return (x - (1 << n)) & M64 if n and x >> (n - 1) else x


def _sg(x):
    return x - (1 << 64) if x >> 63 else x


SPECIAL = [0, 1, M64, 2, 1 << 31, 1 << 63, (1 << 63) - 1, 0xffffffff, 0x80000000, 0x7fffffff, 0xff, 0x80, 127, 255, 0x8000, 7, 1 << 32, (1 << 32) - 1]


def leaf(t, seed):
    k = _h(seed, t)
    m = k % 3
    if isinstance(seed, tuple) and seed[1] and (k >> 4) % 3 == 0:      # constants of the compared terms
        m, v = 3, seed[1][(k >> 8) % len(seed[1])]
    else:
        v = SPECIAL[(k >> 8) % len(SPECIAL)] if m == 0 else (k >> 20) % 100 if m == 1 else _h(k)
    if isinstance(t, tuple):
        if t[0] == "v":
            tn = t[2]
            if isinstance(tn, tuple) and tn[0] == "bf":
                return _sx(v, tn[1]) if tn[2] else v & ((1 << tn[1]) - 1)
            b = "int" if tn == "enum" else tn
            if isinstance(b, str) and b in BASIC and b not in FLOATS:
                w, sg = BASIC[b][1], BASIC[b][2]
                if b == "bool":
                    return v & 1
                return _sx(v, w) if sg else v & ((1 << w) - 1)
        elif t[0] == "mem" and isinstance(t[1], int) and t[1] < 64:
            return v & ((1 << t[1]) - 1)
        elif t[0] in ("sizeof", "alignof"):
            return 1 + v % 48
    return v & M64


def value(t, seed):
    """value of a term under the pseudo-random valuation `seed` of its leaves; None: undefined"""
    if isinstance(t, int):
        return t & M64
    if not isinstance(t, tuple) or not t:
        return _h(seed, t)
    k = t[0]
    if k in ("v", "addr", "mem", "sizeof", "alignof", "locals", "global", "thrlocal", "label", "string", "fc"):
        return leaf(t, seed) if k != "fc" else _h("fc", t)
    if k in ("add", "mul", "and", "or", "xor", "sub", "eq", "lt", "ult", "gt", "ugt", "idiv", "imod", "udiv", "umod", "shl", "lshr", "ashr", "band", "bor",
             "neg", "inot", "not", "nz"):
        a = [value(x, seed) for x in t[1:]]
        if None in a:
            return None
        if k == "add":
            return sum(a) & M64
        if k == "mul":
            r = 1
            for x in a:
                r = r * x & M64
            return r
        if k in ("and", "or", "xor"):
            r = a[0]
            for x in a[1:]:
                r = r & x if k == "and" else r | x if k == "or" else r ^ x
            return r
        if k == "neg":
            return -a[0] & M64
        if k == "inot":
            return ~a[0] & M64
        if k == "not":
            return int(not a[0])
        if k == "nz":
            return int(bool(a[0]))
        x, y = a
        if k == "sub":
            return (x - y) & M64
        if k == "eq":
            return int(x == y)
        if k == "lt":
            return int(_sg(x) < _sg(y))
        if k == "gt":
            return int(_sg(x) > _sg(y))
        if k == "ult":
            return int(x < y)
        if k == "ugt":
            return int(x > y)
        if k == "band":
            return int(bool(x and y))
        if k == "bor":
            return int(bool(x or y))
        if k in ("shl", "lshr", "ashr"):
            y &= 63
            return (x << y) & M64 if k == "shl" else x >> y if k == "lshr" else (_sg(x) >> y) & M64
        if y == 0 or (k in ("idiv", "imod") and x == 1 << 63 and y == M64):
            return None
        if k == "udiv":
            return x // y
        if k == "umod":
            return x % y
        p, q = _sg(x), _sg(y)
        d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
        return (d if k == "idiv" else p - d * q) & M64
    if k in ("sext", "zext") and len(t) == 3 and isinstance(t[1], int):
        v = value(t[2], seed)
        return None if v is None else _sx(v, t[1]) if k == "sext" else v & ((1 << t[1]) - 1)
    a = []
    for x in t[1:]:
        if isinstance(x, tuple):
            v = value(x, seed)
            if v is None:
                return None
            a.append(v)
        else:
            a.append(x)
    r = _h(k, *a)
    return r & 1 if k in ("feq", "flt", "fle", "fgt", "fnz") else r


def consts(t, out):
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, int) and not isinstance(x, bool) and x > 1:
                out.add(x & M64)
            elif isinstance(x, int) and x < 0:
                out.add(x & M64)
            else:
                consts(x, out)


def differ(a, b, n=200):
    """True when some valuation of the leaves distinguishes the two terms"""
    if a == b:
        return False
    cs = set()
    consts(a, cs), consts(b, cs)
    cs = tuple(sorted(cs))
    for i in range(n):
        x, y = value(a, (i, cs)), value(b, (i, cs))
        if y is not None and x != y:
            return True
    return False
