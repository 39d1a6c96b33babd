"""C11: the grammar the parser implements, extracted rule by rule and compared with C17's.

Every rule function of the parser is interpreted over abstract tokens: a token is unknown until the parser asks about it, and
applying another rule either matches (one opaque subtree) or does not.  The result is, per rule, the set of (sequence of
tokens and subtrees consumed, tree built); loops are followed up to a number of consumed items."""
import os, itertools
from .. import ir, absint, sem
from ..absint import State, Interp
from ..core import Result
from ..ir import AnalysisBroken

NB = "kefir_ast_node_base"


STRUCT = {"structure_member": "kefir_ast_struct_member", "structure_indirect_member": "kefir_ast_struct_member",
          "conditional_operation": "kefir_ast_conditional_operator", "goto_address_statement": "kefir_ast_goto_statement"}


class GWorld(sem.World):
    def __init__(self, prog):
        self.prog = prog
        self.models = {}
        self.it = Interp(prog, self.models, None, depth=40)
        self.enum = {}
        for vals in prog.enums.values():
            self.enum.update(vals)
        self.base_models()
        self.st = State()
        self.mem = sem.new("mem")
        self.vtable(self.mem, "kefir_mem")
        self.parser = sem.new("parser")
        self.cursor = sem.new("cursor")
        self.it.MAXVISIT, self.it.MAXPATHS = 16, 30000
        self.it.xkey = lambda x: (x.get("items", ()), x.get("pos"), x.get("scope", 0))
        self.limit = 6
        self.prune = None
        self.setup()

    def rev(self, prefix, skip=()):
        return {v: n[len(prefix):] for n, v in self.enum.items() if n.startswith(prefix) and not any(n.startswith(s) for s in skip)}

    def setup(self):
        M = self.models
        for n in ("kefir_list_insert_after", "kefir_list_tail"):
            del M[n]
        self.tklass = self.rev("KEFIR_TOKEN_")
        self.punct = self.rev("KEFIR_PUNCTUATOR_")
        self.kw = self.rev("KEFIR_KEYWORD_")
        self.rules = {n[len("KEFIR_PARSER_RULESET_"):]: v for n, v in self.enum.items()
                      if n.startswith("KEFIR_PARSER_RULESET_") and not n.startswith("KEFIR_PARSER_RULESET_PRE")}
        if len(self.rules) < 20 or len(self.punct) < 30 or len(self.kw) < 30:
            raise AnalysisBroken("parser vocabulary not found")
        self.NO_MATCH = self.enum.get("KEFIR_NO_MATCH")
        if self.NO_MATCH is None:
            raise AnalysisBroken("no-match code not found")
        outs = [s for v, s in self.it.run(self.fn("kefir_parser_ruleset_init"), [absint.ptradd(self.parser, self.off("kefir_parser", "ruleset"))], self.st) if v == 0]
        if len(outs) != 1:
            raise AnalysisBroken("the parser's rule table could not be evaluated")
        st = self.st = outs[0]
        base = absint.ptradd(self.parser, self.off("kefir_parser", "ruleset"))
        self.impl = {}
        for n, v in self.rules.items():
            slot = absint.ptradd(base, self.off("kefir_parser_ruleset", "rules") + 8 * v)
            f = self.it.load(st, slot, "ptr")
            if isinstance(f, tuple) and f[0] == "fn":
                self.impl[n] = f[1]
                self.it.store(st, slot, ("fn", "rule:" + n))
                M[self.short("rule:" + n)] = self.rule_model(n)
        self.extra = {}
        for nm, ty, off, size in self.prog.members.get("kefir_parser_ruleset", ()):
            if nm != "rules" and "." not in nm:
                slot = absint.ptradd(base, off)
                f = self.it.load(st, slot, "ptr")
                if isinstance(f, tuple) and f[0] == "fn":
                    self.extra[nm] = f[1]
                    self.it.store(st, slot, ("fn", "rule:" + nm))
                    M["kefir_parser_ruleset." + nm] = self.extra_model(nm)
                    M[nm] = M["kefir_parser_ruleset." + nm]
        self.put(self.parser, "kefir_parser", "cursor", self.cursor)
        self.put(self.parser, "kefir_parser", "extensions", 0)
        self.put(self.parser, "kefir_parser", "symbols", sem.new("symbols"))
        self.put(self.parser, "kefir_parser", "configuration", sem.new("pconfig"))
        for nm, ty, off, size in self.prog.members.get("kefir_parser_configuration", ()):
            self.it.store(st, sem.new("pconfig", off), 0)
        # opaque subtree class
        kl = sem.new("opaque_class")
        self.opaque_klass = kl
        self.put(kl, "kefir_ast_node_class", "free", ("fn", "opaque_free"))
        M["opaque_free"] = lambda it, st, ins, a: [(0, st)]
        M["kefir_ast_node_class.free"] = M["opaque_free"]

        def at(it, st, ins, a):
            i = a[1]
            if not isinstance(i, int):
                raise sem.Unknown("lookahead at an undetermined distance")
            b, o = st.x.get("pos", (("start",), 0))
            return [(self.tok(b, o + i), st)]
        M["kefir_parser_token_cursor_at"] = at

        def nxt(it, st, ins, a):
            b, o = st.x.get("pos", (("start",), 0))
            items = st.x.get("items", ())
            if len(items) >= self.limit:
                return []
            if self.prune is not None and self.prune(self.token_desc(st, b, o), self.items(st)):
                return []
            st.x["items"] = items + (("T", b, o),)
            st.x["pos"] = (b, o + 1)
            return [(0, st)]
        M["kefir_parser_token_cursor_next"] = nxt

        def save(it, st, ins, a):
            s = st.x.get("saves", ())
            st.x["saves"] = s + ((st.x.get("pos", (("start",), 0)), st.x.get("items", ())),)
            it.store(st, a[1], 1000 + len(s))
            return [(0, st)]

        def restore(it, st, ins, a):
            s = st.x.get("saves", ())
            k = a[1] - 1000 if isinstance(a[1], int) else None
            if k is None or not 0 <= k < len(s):
                raise sem.Unknown("restored to an undetermined position")
            st.x["pos"], st.x["items"] = s[k]
            return [(0, st)]
        M["kefir_parser_token_cursor_save"] = save
        M["kefir_parser_token_cursor_restore"] = restore
        M["kefir_symbol_table_insert"] = lambda it, st, ins, a: [(sem.new(("sym", a[2])), st)]
        ok = lambda it, st, ins, a: [(0, st)]
        for n in ("kefir_ast_declarator_free", "kefir_ast_declarator_specifier_list_free", "kefir_ast_initializer_free",
                  "kefir_ast_initializer_designation_free", "kefir_ast_type_qualifier_list_free"):
            M[n] = ok

        def abstract(it, st, ins, a):
            t = ("abstract", a[0])
            res = []
            for v in (0, 1):
                s = st.copy()
                d = dict(s.x.get("abs", ()))
                if d.setdefault(t, v) != v:
                    continue
                s.x["abs"] = tuple(sorted(d.items(), key=repr))
                it.store(s, a[1], v)
                res.append((0, s))
            return res
        M["kefir_ast_declarator_is_abstract"] = abstract

        def unpack(it, st, ins, a):
            it.store(st, a[1], sem.new(("declname", a[0])) if a[0] != 0 else 0)
            return [(0, st)]
        M["kefir_ast_declarator_unpack_identifier"] = unpack

        def clone_list(it, st, ins, a):     # mem, dst, src
            for l, what in st.x.get("filled", ()):
                if l == a[2]:
                    st.x["filled"] = st.x["filled"] + ((a[1], what),)
            return [(0, st)]
        M["kefir_ast_declarator_specifier_list_clone"] = clone_list
        M["kefir_parser_scope_push_block"] = lambda it, st, ins, a: [(0, self.x(st, "scope", 1))]
        M["kefir_parser_scope_pop_block"] = lambda it, st, ins, a: [(0, self.x(st, "scope", -1))]

        def typedef(it, st, ins, a):
            k = ("typedef", a[1])
            d = dict(st.x.get("td", ()))
            outs = []
            for v in ([d[k]] if k in d else [0, 1]):
                s = st.copy()
                s.x["td"] = tuple(sorted({**d, k: v}.items(), key=repr))
                it.store(s, a[2], v)
                outs.append((0, s))
            return outs
        M["kefir_parser_scope_is_typedef"] = typedef

        def declare(kind):
            def m(it, st, ins, a):
                st.x["declared"] = st.x.get("declared", ()) + ((kind, a[2]),)
                return [(0, st)]
            return m
        for k in ("typedef", "variable", "enumeration_constant"):
            for nm in self.prog.funcs:
                if nm.startswith("kefir_parser_scope_declare_" + k):
                    M[nm] = declare(k)
        self.names = {}
        for vals in self.prog.enums.values():
            pass

    def short(self, n):
        return n.split(":")[-1]

    def x(self, st, k, d):
        st.x[k] = st.x.get(k, 0) + d
        return st

    def tok(self, b, o):
        return sem.new(("tok", b, o))

    def apply(self, st, name):
        """outcomes of applying a rule at the current position: [(matched, item index, state)]"""
        pos = st.x.get("pos", (("start",), 0))
        d = st.x.get("applied", {})
        known = d.get((pos, name))
        outs = []
        items = st.x.get("items", ())
        if known is not False and len(items) < self.limit:
            s = st.copy()
            s.x["applied"] = {**d, (pos, name): True}
            s.x["items"] = items + (("N", name, pos),)
            s.x["pos"] = ((pos, name), 0)
            outs.append((True, s))
        if known is not True:
            s = st.copy()
            s.x["applied"] = {**d, (pos, name): False}
            outs.append((False, s))
        return pos, outs

    def rule_model(self, name):
        def m(it, st, ins, a):
            if name in ("attribute", "assembly", "statement_expression") and name not in st.x.get("allow", ()):
                return [(self.NO_MATCH, st)]
            pos, outs = self.apply(st, name)
            res = []
            for ok, s in outs:
                if ok:
                    n = sem.new(("node", pos, name))
                    self.put(n, NB, "klass", self.klass_for(name, s), s)
                    self.put(n, NB, "self", n, s)
                    it.store(s, a[2], n)
                    if a[3] != 0:
                        s.x["items"] = s.x["items"][:-1] + (("N", name, pos, self.payload(a[3], s)),)
                    res.append((0, s))
                else:
                    res.append((self.NO_MATCH, s))
            return res
        return m

    def klass_for(self, name, st):
        k = sem.new(("opaque_class", name))
        t = {"static_assertion": "STATIC_ASSERTION", "type_name": "TYPE_NAME", "declaration": "DECLARATION", "string_literal": "STRING_LITERAL",
             "identifier": "IDENTIFIER", "constant": "CONSTANT", "compound_statement": "COMPOUND_STATEMENT",
             "compound_literal": "COMPOUND_LITERAL", "function_definition": "FUNCTION_DEFINITION"}.get(name)
        self.put(k, "kefir_ast_node_class", "free", ("fn", "opaque_free"), st)
        self.put(k, "kefir_ast_node_class", "type", self.enum.get("KEFIR_AST_" + t, 9999) if t else 9999, st)
        return k

    def payload(self, p, st):
        return p if isinstance(p, int) else "payload"

    def extra_model(self, name):
        def m(it, st, ins, a):
            pos, outs = self.apply(st, name)
            res = []
            for ok, s in outs:
                if ok:
                    n = sem.new(("node", pos, name))
                    if name == "declaration_specifier":
                        self.append(a[2], n, ("specentry", pos), s)
                    elif name == "declaration_specifier_list":
                        s.x["filled"] = s.x.get("filled", ()) + ((a[2], ("node", pos, name)),)
                    else:
                        it.store(s, a[2], n)
                    res.append((0, s))
                else:
                    res.append((self.NO_MATCH, s))
            return res
        return m

    def append(self, lst, value, key, st):
        L, E = "kefir_list", "kefir_list_entry"
        e = sem.new(key)
        self.put(e, E, "value", value, st)
        self.put(e, E, "next", 0, st)
        tail = self.load(lst, L, "tail", st)
        self.put(e, E, "prev", tail, st)
        if tail == 0:
            self.put(lst, L, "head", e, st)
        else:
            self.put(tail, E, "next", e, st)
        self.put(lst, L, "tail", e, st)
        n = st.known(self.load(lst, L, "length", st))
        self.put(lst, L, "length", (n or 0) + 1, st)

    # ------------------------------------------------------------ reading results
    def token_desc(self, st, b, o):
        """what the path knows about a token: ('P', name) / ('K', name) / ('ID',) / ... or None"""
        t = self.tok(b, o)
        k = st.known(self.load(t, "kefir_token", "klass", st))
        k = self.tklass.get(k)
        if k == "PUNCTUATOR":
            v = st.known(self.load(t, "kefir_token", "punctuator", st))
            return ("P", self.punct.get(v))
        if k == "KEYWORD":
            v = st.known(self.load(t, "kefir_token", "keyword", st))
            return ("K", self.kw.get(v))
        return (k,) if k else None

    def items(self, st):
        out = []
        for it in st.x.get("items", ()):
            if it[0] == "T":
                out.append(self.token_desc(st, it[1], it[2]) or ("?",))
            else:
                out.append(("N", it[1]))
        return tuple(out)

    def ahead(self, st):
        """tokens after the consumed ones that the path has identified"""
        b, o = st.x.get("pos", (("start",), 0))
        out = []
        while len(out) < 3:
            d = self.token_desc(st, b, o + len(out))
            if d is None or None in d:
                break
            out.append(d)
        return tuple(out)

    def node_class(self, p, st):
        k = self.load(p, NB, "klass", st)
        if isinstance(k, tuple) and k[0] == "ptr" and isinstance(k[1], tuple) and k[1][0] == "g":
            v = self.it.flat(k[1][1]).get(self.off("kefir_ast_node_class", "type"))
            return self.ntypes().get(v)
        return None

    def ntypes(self):
        if not hasattr(self, "_nt"):
            vals = self.prog.enums.get("kefir_ast_node_type") or self.prog.enums.get("kefir_ast_node_type_t")
            if not vals:
                raise AnalysisBroken("node classes not found")
            self._nt = {v: n[len("KEFIR_AST_"):].lower() for n, v in vals.items()}
        return self._nt

    def index(self, st, b):
        """position in the consumed sequence of an opaque subtree or token"""
        for i, it in enumerate(st.x.get("items", ())):
            if it[0] == "N" and b == ("node", it[2], it[1]):
                return i
            if it[0] == "T" and b == ("tok", it[1], it[2]):
                return i
        return None

    def decode(self, p, st, depth=0):
        if p == 0:
            return None
        if depth > 12:
            raise sem.Unknown("tree too deep")
        if isinstance(p, tuple) and p[0] == "ptr" and isinstance(p[1], tuple) and p[1][0] == "new":
            b = p[1][1]
            if isinstance(b, tuple) and b[0] == "node":
                i = self.index(st, b)
                return ("$", i) if i is not None else ("stale", b[2])
            if isinstance(b, tuple) and b[0] == "tok":
                return ("tok", self.index(st, b))
            if isinstance(b, tuple) and b[0] == "sym":
                return self.tokref(b[1], st) or ("sym",)
            c = self.node_class(p, st)
            if c is None:
                f = {}
                for (bb, o), v in st.mem.items():
                    if bb == p[1] and isinstance(o, int) and o >= p[2]:
                        f[o - p[2]] = self.decode(v, st, depth + 1) if isinstance(v, tuple) and v[0] == "ptr" else self.leaf(v, st)
                return ("obj", f)
            s = STRUCT.get(c, "kefir_ast_" + c)
            if s not in self.prog.members:
                return (c, {})
            return (c, self.fields(p, s, st, depth, c))
        return self.leaf(p, st)

    def fields(self, p, s, st, depth, c=None):
        d, lists = {}, []
        for nm, ty, off, size in self.prog.members.get(s, ()):
            nm = nm.lstrip(".").replace("..", ".")
            if nm == "" or nm == "base" or nm.startswith("base.") or any(nm.startswith(l + ".") for l in lists):
                continue
            if "kefir_list" in ty and not ty.endswith("*") and "entry" not in ty:
                lists.append(nm)
            elif "specifier_list" in ty and not ty.endswith("*"):
                lists.append(nm)
                d[nm] = self.specifiers(absint.ptradd(p, off), st, depth)
                continue
            elif c == "constant" and nm == "value":
                size = 8
            elif not ty.endswith("*") and ty.startswith(("struct ", "union ")):
                continue
            if "." in nm and c == "constant":
                continue
            d[nm] = self.field(absint.ptradd(p, off), ty, size, st, depth)
        return d

    def leaf(self, v, st):
        k = st.known(v)
        if k is not None:
            return k
        c = absint.strip(v)
        if isinstance(c, tuple) and c and c[0] in ("icmp", "not", "and", "or"):
            can = [t for t in (0, 1) if self.it.branch(st.copy(), c, t)]
            if len(can) == 1:
                return can[0]
        return self.tokref(v, st)

    def tokref(self, v, st):
        """a value read from a consumed token"""
        v = absint.strip(v)
        if isinstance(v, tuple) and v:
            if v[0] == "new" and isinstance(v[1], tuple) and v[1][0] == "tok":
                return ("tok", self.index(st, v[1]))
            for x in v[1:]:
                r = self.tokref(x, st)
                if r is not None:
                    return r
        return None

    def field(self, a, ty, size, st, depth):
        if "kefir_list" in ty and not ty.endswith("*") and "entry" not in ty:
            out, e, n = [], self.load(a, "kefir_list", "head", st), 0
            while isinstance(e, tuple) and e[0] == "ptr" and n < 16:
                out.append(self.decode(self.load(e, "kefir_list_entry", "value", st), st, depth + 1))
                e = self.load(e, "kefir_list_entry", "next", st)
                n += 1
            return tuple(out)
        v = self.it.load(st, a, "ptr" if size == 8 else "i%d" % (size * 8))
        if ty.endswith("*"):
            return self.typed(v, ty, st, depth + 1)
        return self.leaf(v, st)

    def list_of(self, a, st):
        out, e, n = [], self.load(a, "kefir_list", "head", st), 0
        while isinstance(e, tuple) and e[0] == "ptr" and n < 16:
            out.append(self.load(e, "kefir_list_entry", "value", st))
            e = self.load(e, "kefir_list_entry", "next", st)
            n += 1
        return out

    def typed(self, p, ty, st, depth=0):
        """decode an object through a pointer of a known type"""
        if p == 0:
            return None
        b = p[1] if isinstance(p, tuple) and p[0] == "ptr" else None
        opaque = isinstance(b, tuple) and b[0] == "new" and isinstance(b[1], tuple) and b[1][0] in ("node", "tok", "sym")
        name = ty.replace("const ", "").replace("struct ", "").rstrip("* ").strip()
        f = None if opaque or b is None else {
            "kefir_ast_declarator": self.declarator, "kefir_ast_initializer": self.initializer,
            "kefir_ast_initializer_designation": self.designation}.get(name)
        if f is not None:
            return f(p, st, depth)
        return self.decode(p, st, depth)

    def enum_name(self, prefix, v):
        for n, x in self.enum.items():
            if x == v and n.startswith(prefix):
                return n[len(prefix):]
        return v

    def sub(self, p, s, field, st, ty=None, depth=0):
        off, t, size = self.member(s, field)
        return self.field(absint.ptradd(p, off), ty or t, size, st, depth)

    def member(self, s, field):
        for nm, ty, off, size in self.prog.members.get(s, ()):
            if nm.lstrip(".") == field:
                return off, ty, size
        raise AnalysisBroken("member %s of %s not found" % (field, s))

    def qualifiers(self, a, st):
        return tuple(self.enum_name("KEFIR_AST_TYPE_QUALIFIER_", st.known(absint.strip(v))) for v in self.list_of(a, st))

    def declarator(self, p, st, depth=0):
        S = "kefir_ast_declarator"
        k = self.enum_name("KEFIR_AST_DECLARATOR_", self.leaf(self.load(p, S, "klass", st), st))
        kid = lambda f: self.sub(p, S, f, st, depth=depth)
        if k == "IDENTIFIER":
            return ("identifier", {"identifier": kid("identifier")})
        if k == "POINTER":
            return ("pointer", {"qualifiers": self.qualifiers(absint.ptradd(p, self.member(S, "pointer.type_qualifiers.list")[0]), st),
                                "of": kid("pointer.declarator")})
        if k == "ARRAY":
            return ("array", {"qualifiers": self.qualifiers(absint.ptradd(p, self.member(S, "array.type_qualifiers.list")[0]), st),
                              "static": kid("array.static_array"), "type": self.enum_name("KEFIR_AST_DECLARATOR_ARRAY_", kid("array.type")),
                              "length": kid("array.length"), "of": kid("array.declarator")})
        if k == "FUNCTION":
            return ("function", {"parameters": kid("function.parameters"), "ellipsis": kid("function.ellipsis"), "of": kid("function.declarator")})
        return ("declarator", {"klass": k})

    def initializer(self, p, st, depth=0):
        S = "kefir_ast_initializer"
        if self.leaf(self.load(p, S, "type", st), st) == self.enum.get("KEFIR_AST_INITIALIZER_EXPRESSION"):
            return ("init_expression", {"expression": self.sub(p, S, "expression", st, depth=depth)})
        E = "kefir_ast_initializer_list_entry"
        return ("init_list", {"entries": tuple((self.sub(e, E, "designation", st, depth=depth), self.sub(e, E, "value", st, depth=depth))
                                               for e in self.list_of(absint.ptradd(p, self.member(S, "list.initializers")[0]), st))})

    def designation(self, p, st, depth=0):
        S = "kefir_ast_initializer_designation"
        nxt = self.sub(p, S, "next", st, depth=depth)
        if self.leaf(self.load(p, S, "indexed", st), st) == 0:
            return ("member", {"name": self.sub(p, S, "identifier", st, depth=depth), "inner": nxt})
        return ("index", {"index": self.sub(p, S, "index", st, depth=depth), "inner": nxt})

    def specifiers(self, a, st, depth=0):
        for l, what in st.x.get("filled", ()):
            if l == a:
                i = self.index(st, what)
                return ("$", i)
        return tuple(self.specifier(p, st, depth) for p in self.list_of(a, st))

    def specifier(self, p, st, depth=0):
        b = p[1] if isinstance(p, tuple) and p[0] == "ptr" else None
        if isinstance(b, tuple) and b[0] == "new" and isinstance(b[1], tuple) and b[1][0] == "node":
            return ("$", self.index(st, b[1]))
        S = "kefir_ast_declarator_specifier"
        kid = lambda f, ty=None: self.sub(p, S, f, st, ty, depth)
        k = self.leaf(self.load(p, S, "klass", st), st)
        E = self.enum
        if k == E.get("KEFIR_AST_STORAGE_CLASS_SPECIFIER"):
            return ("storage", self.enum_name("KEFIR_AST_STORAGE_SPECIFIER_", kid("storage_class")))
        if k == E.get("KEFIR_AST_TYPE_QUALIFIER"):
            return ("qualifier", self.enum_name("KEFIR_AST_TYPE_QUALIFIER_", kid("type_qualifier")))
        if k == E.get("KEFIR_AST_FUNCTION_SPECIFIER"):
            return ("function", self.enum_name("KEFIR_AST_FUNCTION_SPECIFIER_TYPE_", kid("function_specifier")))
        if k == E.get("KEFIR_AST_ALIGNMENT_SPECIFIER"):
            return ("alignment", kid("alignment_specifier"))
        if k != E.get("KEFIR_AST_TYPE_SPECIFIER"):
            return ("specifier", k)
        t = self.enum_name("KEFIR_AST_TYPE_SPECIFIER_", kid("type_specifier.specifier"))
        if t in ("STRUCT", "UNION", "ENUM"):
            a = self.it.load(st, absint.ptradd(p, self.member(S, "type_specifier.value.structure")[0]), "ptr")
            T = "kefir_ast_enum_specifier" if t == "ENUM" else "kefir_ast_structure_specifier"
            d = {"tag": self.sub(a, T, "identifier", st), "complete": self.sub(a, T, "complete", st)}
            out = []
            for e in self.list_of(absint.ptradd(a, self.member(T, "entries")[0]), st):
                if t == "ENUM":
                    X = "kefir_ast_enum_specifier_entry"
                    out.append((self.sub(e, X, "constant", st), self.sub(e, X, "value", st)))
                    continue
                X = "kefir_ast_structure_declaration_entry"
                if self.sub(e, X, "is_static_assertion", st):
                    out.append(("assert", self.sub(e, X, "static_assertion", st)))
                else:
                    Y = "kefir_ast_structure_entry_declarator"
                    out.append(("fields", self.specifiers(absint.ptradd(e, self.member(X, "declaration.specifiers")[0]), st),
                                tuple((self.sub(x, Y, "declarator", st), self.sub(x, Y, "bitwidth", st))
                                      for x in self.list_of(absint.ptradd(e, self.member(X, "declaration.declarators")[0]), st))))
            d["entries"] = tuple(out)
            return ("type", t, d)
        if t == "TYPEDEF":
            return ("type", t, kid("type_specifier.value.type_name"))
        if t == "ATOMIC":
            return ("type", t, kid("type_specifier.value.atomic_type"))
        return ("type", t)

    def extra_type(self, rule):
        return {"declarator": "struct kefir_ast_declarator*", "abstract_declarator": "struct kefir_ast_declarator*",
                "initializer": "struct kefir_ast_initializer*", "initializer_list": "struct kefir_ast_initializer*",
                "initializer_designation": "struct kefir_ast_initializer_designation*"}.get(rule, "struct kefir_ast_node_base*")

    def paths(self, rule, limit, config=None, fn=None, preset=None):
        """[(outcome, items, tree, state)] of a rule"""
        self.limit = limit
        st = self.st.copy()
        for c in config or ():
            self.put(sem.new("pconfig"), "kefir_parser_configuration", c, 1, st)
        box = sem.new("result")
        self.it.store(st, box, 0)
        f = self.prog.funcs.get(fn or self.impl.get(rule) or self.extra.get(rule))
        if f is None:
            raise AnalysisBroken("function of rule %s not found" % rule)
        out = []
        spec = (fn or rule).startswith("declaration_specifier")
        if spec:
            self.load(box, "kefir_list", "head", st)
            for nm, ty, off, size in self.prog.members.get("kefir_list", ()):
                if "." not in nm:
                    self.it.store(st, absint.ptradd(box, off), 0)
        if preset:
            preset(st)
        args = [self.mem, self.parser, box]
        if rule in self.impl and not fn:
            args += [("fn", f.key if hasattr(f, "key") else f.name), 0]
            f = self.fn("kefir_parser_apply")       # how every rule is applied: restores the position when nothing matched
        for rv, s in self.it.run(f, args, st):
            k = s.known(rv)
            if any(it[0] == "T" and self.token_desc(s, it[1], it[2]) == ("IDENTIFIER",) and
                   s.known(self.load(self.tok(it[1], it[2]), "kefir_token", "identifier", s)) == 0 for it in s.x.get("items", ())):
                continue        # identifier tokens carry a name
            t = None
            if k == 0:
                t = self.specifiers(box, s) if spec else self.typed(self.it.load(s, box, "ptr"), self.extra_type(rule), s)
            out.append((k, self.items(s), t, s))
        return out


# ---------------------------------------------------------------- what C prescribes
def P(n): return ("P", n)
def K(n): return ("K", n)
def N(n): return ("N", n)


ID = ("IDENTIFIER",)
LP, RP, LB, RB, LBR, RBR = P("LEFT_PARENTHESE"), P("RIGHT_PARENTHESE"), P("LEFT_BRACKET"), P("RIGHT_BRACKET"), P("LEFT_BRACE"), P("RIGHT_BRACE")
COMMA, SEMI, COLON, ASSIGN = P("COMMA"), P("SEMICOLON"), P("COLON"), P("ASSIGN")
DIGRAPH = {LB: P("DIGRAPH_LEFT_BRACKET"), RB: P("DIGRAPH_RIGHT_BRACKET"), LBR: P("DIGRAPH_LEFT_BRACE"), RBR: P("DIGRAPH_RIGHT_BRACE")}
UNDIGRAPH = {v: k for k, v in DIGRAPH.items()}
QUALS = ("CONST", "VOLATILE", "RESTRICT", "ATOMIC")

BINARY = {
    "multiplicative_expression": ("cast_expression", {"STAR": "MULTIPLY", "SLASH": "DIVIDE", "PERCENT": "MODULO"}),
    "additive_expression": ("multiplicative_expression", {"PLUS": "ADD", "MINUS": "SUBTRACT"}),
    "shift_expression": ("additive_expression", {"LEFT_SHIFT": "SHIFT_LEFT", "RIGHT_SHIFT": "SHIFT_RIGHT"}),
    "relational_expression": ("shift_expression", {"LESS_THAN": "LESS", "GREATER_THAN": "GREATER", "LESS_OR_EQUAL": "LESS_EQUAL",
                                                   "GREATER_OR_EQUAL": "GREATER_EQUAL"}),
    "equality_expression": ("relational_expression", {"EQUAL": "EQUAL", "NOT_EQUAL": "NOT_EQUAL"}),
    "bitwise_and_expression": ("equality_expression", {"AMPERSAND": "BITWISE_AND"}),
    "bitwise_xor_expression": ("bitwise_and_expression", {"CARET": "BITWISE_XOR"}),
    "bitwise_or_expression": ("bitwise_xor_expression", {"VBAR": "BITWISE_OR"}),
    "logical_and_expression": ("bitwise_or_expression", {"DOUBLE_AMPERSAND": "LOGICAL_AND"}),
    "logical_or_expression": ("logical_and_expression", {"DOUBLE_VBAR": "LOGICAL_OR"}),
}
ASSIGNMENTS = {"ASSIGN": "SIMPLE", "ASSIGN_MULTIPLY": "MULTIPLY", "ASSIGN_DIVIDE": "DIVIDE", "ASSIGN_MODULO": "MODULO", "ASSIGN_ADD": "ADD",
               "ASSIGN_SUBTRACT": "SUBTRACT", "ASSIGN_SHIFT_LEFT": "SHIFT_LEFT", "ASSIGN_SHIFT_RIGHT": "SHIFT_RIGHT", "ASSIGN_AND": "BITWISE_AND",
               "ASSIGN_OR": "BITWISE_OR", "ASSIGN_XOR": "BITWISE_XOR"}
UNARY = {"AMPERSAND": "ADDRESS", "STAR": "INDIRECTION", "PLUS": "PLUS", "MINUS": "NEGATE", "TILDE": "INVERT", "EXCLAMATION_MARK": "LOGICAL_NEGATE"}
CONSTANTS = {"INTEGER": "INT", "LONG_INTEGER": "LONG", "LONG_LONG_INTEGER": "LONG_LONG", "UNSIGNED_INTEGER": "UINT", "UNSIGNED_LONG_INTEGER": "ULONG",
             "UNSIGNED_LONG_LONG_INTEGER": "ULONG_LONG", "FLOAT": "FLOAT", "DOUBLE": "DOUBLE", "LONG_DOUBLE": "LONG_DOUBLE", "CHAR": "CHAR",
             "WIDE_CHAR": "WIDE_CHAR", "UNICODE16_CHAR": "UNICODE16_CHAR", "UNICODE32_CHAR": "UNICODE32_CHAR"}
STRINGS = {"MULTIBYTE": "MULTIBYTE", "UNICODE8": "MULTIBYTE", "UNICODE16": "UNICODE16", "UNICODE32": "UNICODE32", "WIDE": "WIDE"}


class Oracle:
    """rule -> {sequence: expected tree} for every sequence of at most `limit` items"""
    def __init__(self, w, limit):
        self.w, self.n = w, limit

    def op(self, prefix, n):
        v = self.w.enum.get(prefix + n)
        if v is None:
            raise AnalysisBroken("enumerator %s%s not found" % (prefix, n))
        return v

    def binop(self, n, a, b):
        return ("binary_operation", {"type": self.op("KEFIR_AST_OPERATION_", n), "arg1": a, "arg2": b})

    def unop(self, n, a):
        return ("unary_operation", {"type": self.op("KEFIR_AST_OPERATION_", n), "arg": a})

    def rule(self, r):
        out = {}
        g = self.binary(*BINARY[r]) if r in BINARY else getattr(self, r)()
        for items, tree in g:
            if len(items) <= self.n:
                out.setdefault(tuple(items), tree)
        return out

    def binary(self, sub, ops):
        todo = [((N(sub),), ("$", 0))]
        while todo:
            items, t = todo.pop()
            yield items, t
            if len(items) + 2 <= self.n:
                for p, o in ops.items():
                    todo.append((items + (P(p), N(sub)), self.binop(o, t, ("$", len(items) + 1))))

    def separated(self, sub, sep=COMMA, first=0, minimum=1, trailing=False):
        """sub (sep sub)*: yields (items, positions)"""
        k = minimum
        while True:
            items, pos = [], []
            for i in range(k):
                if i:
                    items.append(sep)
                pos.append(first + len(items))
                items.append(N(sub))
            if first + len(items) > self.n:
                return
            yield tuple(items), tuple(("$", p) for p in pos)
            k += 1

    def identifier(self):
        yield (ID,), ("identifier", {"identifier": ("tok", 0)})

    def constant(self):
        yield (("CONSTANT",),), ANY

    def string_literal(self):
        yield (("STRING_LITERAL",),), ANY

    def primary_expression(self):
        for r in ("identifier", "constant", "string_literal", "generic_selection"):
            yield (N(r),), ("$", 0)
        yield (LP, N("expression"), RP), ("$", 1)

    def generic_selection(self):
        head = (K("GENERIC"), LP, N("assignment_expression"))
        todo = [(head, (), None)]
        while todo:
            items, assoc, dflt = todo.pop()
            n = len(items)
            if n > 3:
                yield items + (RP,), ("generic_selection", {"control": ("$", 2), "associations": assoc, "default_assoc": dflt})
            if n + 4 < self.n:
                todo.append((items + (COMMA, N("type_name"), COLON, N("assignment_expression")),
                             assoc + (("obj", {0: ("$", n + 1), 8: ("$", n + 3)}),), dflt))
                if dflt is None:
                    todo.append((items + (COMMA, K("DEFAULT"), COLON, N("assignment_expression")), assoc, ("$", n + 3)))

    def compound_literal(self):
        yield (LP, N("type_name"), RP, N("initializer_list")), ("compound_literal", {"type_name": ("$", 1), "initializer": ("$", 3)})

    def postfix_expression(self):
        todo = [((N("primary_expression"),), ("$", 0)), ((N("compound_literal"),), ("$", 0))]
        ok = lambda e: True
        for args in self.argument_lists(2, ("assignment_expression", "type_name")):
            todo.append(((ID, LP) + args[0] + (RP,), ("builtin", {"arguments": args[1]})))
        while todo:
            items, t = todo.pop()
            n = len(items)
            if n > self.n:
                continue
            yield items, t
            todo.append((items + (LB, N("expression"), RB), ("array_subscript", {"array": t, "subscript": ("$", n + 1)})))
            for a in self.argument_lists(n + 1, ("assignment_expression",)):
                todo.append((items + (LP,) + a[0] + (RP,), ("function_call", {"function": t, "arguments": a[1]})))
            todo.append((items + (P("DOT"), ID), ("structure_member", {"structure": t, "member": ("tok", n + 1)})))
            todo.append((items + (P("RIGHT_ARROW"), ID), ("structure_indirect_member", {"structure": t, "member": ("tok", n + 1)})))
            todo.append((items + (P("DOUBLE_PLUS"),), self.unop("POSTFIX_INCREMENT", t)))
            todo.append((items + (P("DOUBLE_MINUS"),), self.unop("POSTFIX_DECREMENT", t)))

    def argument_lists(self, first, kinds):
        yield (), ()
        todo = [((N(k),), (("$", first),)) for k in kinds]
        while todo:
            items, args = todo.pop()
            if first + len(items) + 1 > self.n:
                continue
            yield items, args
            for k in kinds:
                todo.append((items + (COMMA, N(k)), args + (("$", first + len(items) + 1),)))

    def unary_expression(self):
        yield (N("postfix_expression"),), ("$", 0)
        for p, o in (("DOUBLE_PLUS", "PREFIX_INCREMENT"), ("DOUBLE_MINUS", "PREFIX_DECREMENT")):
            yield (P(p), N("unary_expression")), self.unop(o, ("$", 1))
        for p, o in UNARY.items():
            yield (P(p), N("cast_expression")), self.unop(o, ("$", 1))
        yield (K("SIZEOF"), N("unary_expression")), self.unop("SIZEOF", ("$", 1))
        yield (K("SIZEOF"), LP, N("type_name"), RP), self.unop("SIZEOF", ("$", 2))
        yield (K("ALIGNOF"), LP, N("type_name"), RP), self.unop("ALIGNOF", ("$", 2))

    def cast_expression(self):
        yield (N("unary_expression"),), ("$", 0)
        yield (LP, N("type_name"), RP, N("cast_expression")), ("cast_operator", {"type_name": ("$", 1), "expr": ("$", 3)})

    def conditional_expression(self):
        yield (N("logical_or_expression"),), ("$", 0)
        yield (N("logical_or_expression"), P("QUESTION_MARK"), N("expression"), COLON, N("conditional_expression")), \
            ("conditional_operation", {"condition": ("$", 0), "expr1": ("$", 2), "expr2": ("$", 4)})

    def assignment_expression(self):
        yield (N("conditional_expression"),), ("$", 0)
        for p, o in ASSIGNMENTS.items():
            yield (N("unary_expression"), P(p), N("assignment_expression")), \
                ("assignment_operator", {"operation": self.op("KEFIR_AST_ASSIGNMENT_", o), "target": ("$", 0), "value": ("$", 2)})

    def expression(self):
        for items, pos in self.separated("assignment_expression"):
            yield items, pos[0] if len(pos) == 1 else ("comma_operator", {"expressions": pos})

    def constant_expression(self):
        yield (N("conditional_expression"),), ("$", 0)

    def type_name(self):
        D = N("declaration_specifier_list")
        yield (D,), ("type_name", {"type_decl.specifiers": ("$", 0), "type_decl.declarator": ("identifier", {"identifier": None})})
        yield (D, N("abstract_declarator")), ("type_name", {"type_decl.specifiers": ("$", 0), "type_decl.declarator": ("$", 1)})

    def static_assertion(self):
        yield (K("STATIC_ASSERT"), LP, N("constant_expression"), COMMA, N("string_literal"), RP, SEMI), \
            ("static_assertion", {"condition": ("$", 2), "string": ("$", 4)})

    def declaration(self):
        yield (N("static_assertion"),), ("$", 0)
        D = N("declaration_specifier_list")
        yield (D, SEMI), ("declaration", {"specifiers": ("$", 0), "init_declarators": (("init_declarator", {"declarator": None, "initializer": None}),)})
        todo = [((D,), ())]
        while todo:
            items, ds = todo.pop()
            if ds:
                yield items + (SEMI,), ("declaration", {"specifiers": ("$", 0), "init_declarators": ds})
            if len(items) > self.n:
                continue
            if ds:
                items = items + (COMMA,)
            n = len(items)
            todo.append((items + (N("declarator"),), ds + (("init_declarator", {"declarator": ("$", n), "initializer": None}),)))
            todo.append((items + (N("declarator"), ASSIGN, N("initializer")),
                         ds + (("init_declarator", {"declarator": ("$", n), "initializer": ("$", n + 2)}),)))

    def labeled_statement(self):
        yield (ID, COLON, N("statement")), ("labeled_statement", {"label": ("tok", 0), "statement": ("$", 2)})
        yield (K("CASE"), N("constant_expression"), COLON, N("statement")), ("case_statement", {"expression": ("$", 1), "statement": ("$", 3)})
        yield (K("DEFAULT"), COLON, N("statement")), ("case_statement", {"expression": None, "statement": ("$", 2)})

    def compound_statement(self):
        todo = [((LBR,), ())]
        while todo:
            items, b = todo.pop()
            yield items + (RBR,), ("compound_statement", {"block_items": b})
            if len(items) < self.n:
                for k in ("declaration", "statement"):
                    todo.append((items + (N(k),), b + (("$", len(items)),)))

    def expression_statement(self):
        yield (SEMI,), ("expression_statement", {"expression": None})
        yield (N("expression"), SEMI), ("expression_statement", {"expression": ("$", 0)})

    def selection_statement(self):
        h = (LP, N("expression"), RP, N("statement"))
        yield (K("IF"),) + h, ("conditional_statement", {"condition": ("$", 2), "thenBranch": ("$", 4), "elseBranch": None})
        yield (K("IF"),) + h + (K("ELSE"), N("statement")), ("conditional_statement", {"condition": ("$", 2), "thenBranch": ("$", 4), "elseBranch": ("$", 6)})
        yield (K("SWITCH"),) + h, ("switch_statement", {"expression": ("$", 2), "statement": ("$", 4)})

    def iteration_statement(self):
        E, S = N("expression"), N("statement")
        yield (K("WHILE"), LP, E, RP, S), ("while_statement", {"controlling_expr": ("$", 2), "body": ("$", 4)})
        yield (K("DO"), S, K("WHILE"), LP, E, RP, SEMI), ("do_while_statement", {"body": ("$", 1), "controlling_expr": ("$", 4)})
        for init in ((), (E,), (N("declaration"),)):
            for cond in ((), (E,)):
                for tail in ((), (E,)):
                    items = (K("FOR"), LP)
                    i = ("$", len(items)) if init else None
                    items += init + (() if init == (N("declaration"),) else (SEMI,))
                    c = ("$", len(items)) if cond else None
                    items += cond + (SEMI,)
                    t = ("$", len(items)) if tail else None
                    items += tail + (RP,)
                    yield items + (S,), ("for_statement", {"init": i, "controlling_expr": c, "tail": t, "body": ("$", len(items))})

    def jump_statement(self):
        yield (K("CONTINUE"), SEMI), ("continue_statement", {})
        yield (K("BREAK"), SEMI), ("break_statement", {})
        yield (K("GOTO"), ID, SEMI), ("goto_statement", {"identifier": ("tok", 1)})
        yield (K("RETURN"), SEMI), ("return_statement", {"expression": None})
        yield (K("RETURN"), N("expression"), SEMI), ("return_statement", {"expression": ("$", 1)})

    def statement(self):
        for r in ("labeled", "compound", "expression", "selection", "iteration", "jump"):
            yield (N(r + "_statement"),), ("$", 0)

    def function_definition(self):
        items, ds = (N("declaration_specifier_list"), N("declarator")), ()
        while len(items) < self.n:
            yield items + (N("compound_statement"),), ("function_definition", {"specifiers": ("$", 0), "declarator": ("$", 1), "declarations": ds,
                                                                                "body": ("$", len(items))})
            ds += (("$", len(items)),)
            items += (N("declaration"),)

    def external_declaration(self):
        yield (N("function_definition"),), ("$", 0)
        yield (N("declaration"),), ("$", 0)

    def translation_unit(self):
        for k in range(1, self.n + 1):
            yield (N("external_declaration"),) * k, ("translation_unit", {"external_definitions": tuple(("$", i) for i in range(k))})

    def initializer(self):
        yield (N("assignment_expression"),), ("init_expression", {"expression": ("$", 0)})
        yield (N("initializer_list"),), ("$", 0)

    def initializer_list(self):
        yield (LBR, RBR), ("init_list", {"entries": ()})        # the empty list kefir accepts as an extension
        todo = [((LBR,), ())]
        while todo:
            items, es = todo.pop()
            if es:
                t = ("init_list", {"entries": es})
                yield items + (RBR,), t
                yield items + (COMMA, RBR), t
                items += (COMMA,)
            n = len(items)
            if n > self.n:
                continue
            todo.append((items + (N("initializer"),), es + ((None, ("$", n)),)))
            todo.append((items + (N("initializer_designation"), N("initializer")), es + ((("$", n), ("$", n + 1)),)))

    def initializer_designation(self):
        todo = [((), None)]
        while todo:
            items, d = todo.pop()
            n = len(items)
            if d is not None:
                yield items + (ASSIGN,), d
            if n > self.n:
                continue
            todo.append((items + (P("DOT"), ID), ("member", {"name": ("tok", n + 1), "inner": d})))
            todo.append((items + (LB, N("constant_expression"), RB), ("index", {"index": ("$", n + 1), "inner": d})))

    def qual_lists(self):
        yield ()
        todo = [(q,) for q in QUALS]
        while todo:
            q = todo.pop()
            yield q
            if len(q) < self.n:
                todo += [q + (x,) for x in QUALS]

    def arrays(self, items, of):
        n = len(items)
        for q in self.qual_lists():
            if n + len(q) + 2 > self.n:
                continue
            kq = tuple(K(x) for x in q)
            mk = lambda **k: ("array", dict({"qualifiers": q, "static": 0, "type": "UNBOUNDED", "length": None, "of": of}, **k))
            m = n + 1 + len(q)
            yield items + (LB,) + kq + (RB,), mk()
            yield items + (LB,) + kq + (N("assignment_expression"), RB), mk(type="BOUNDED", length=("$", m))
            yield items + (LB,) + kq + (P("STAR"), RB), mk(type="VLA_UNSPECIFIED")
            yield items + (LB, K("STATIC")) + kq + (N("assignment_expression"), RB), mk(static=1, type="BOUNDED", length=("$", m + 1))
            if q:
                yield items + (LB,) + kq + (K("STATIC"), N("assignment_expression"), RB), mk(static=1, type="BOUNDED", length=("$", m + 1))

    def parameter_lists(self, items):
        """items of the parameter type list and its trees"""
        D = N("declaration_specifier_list")
        todo = [(items, ())]
        while todo:
            its, ps = todo.pop()
            if ps:
                yield its, ps, 0
                yield its + (COMMA, P("ELLIPSIS")), ps, 1
                its += (COMMA,)
            n = len(its)
            if n > self.n:
                continue
            par = lambda d: ("declaration", {"specifiers": ("$", n), "init_declarators": (("init_declarator", {"declarator": d, "initializer": None}),)})
            todo.append((its + (D,), ps + (par(("identifier", {"identifier": None})),)))
            todo.append((its + (D, N("declarator")), ps + (par(("$", n + 1)),)))
            todo.append((its + (D, N("abstract_declarator")), ps + (par(("$", n + 1)),)))

    def functions(self, items, of, abstract):
        mk = lambda ps, e: ("function", {"parameters": ps, "ellipsis": e, "of": of})
        yield items + (LP, RP), mk((), 0)
        for its, ps, e in self.parameter_lists(items + (LP,)):
            yield its + (RP,), mk(ps, e)
        if not abstract:
            for its, ps in self.separated("identifier", first=len(items) + 1):
                yield items + (LP,) + its + (RP,), mk(ps, 0)

    def direct(self, todo, abstract):
        todo = list(todo)
        while todo:
            items, t = todo.pop()
            if len(items) > self.n:
                continue
            if items and not (abstract and items[-1] == P("STAR")):
                yield items, t
            todo += list(self.arrays(items, t))
            todo += [x for x in self.functions(items, t, abstract)]

    def declarator(self):
        for q in self.qual_lists():
            yield (P("STAR"),) + tuple(K(x) for x in q) + (N("declarator"),), ("pointer", {"qualifiers": q, "of": ("$", 1 + len(q))})
        yield from self.direct([((ID,), ("identifier", {"identifier": ("tok", 0)})), ((LP, N("declarator"), RP), ("$", 1))], False)

    def abstract_declarator(self):
        none = ("identifier", {"identifier": None})

        def shift(t, k):
            if isinstance(t, tuple) and len(t) == 2 and t[0] in ("$", "tok") and isinstance(t[1], int):
                return (t[0], t[1] + k)
            if isinstance(t, tuple):
                return tuple(shift(x, k) for x in t)
            if isinstance(t, dict):
                return {a: shift(b, k) for a, b in t.items()}
            return t
        base = [((), none)] + [x for x in self.direct([((), none), ((LP, N("abstract_declarator"), RP), ("$", 1))], True)]
        for items, t in base:
            if items:
                yield items, t
        todo = [((), ())]
        while todo:
            items, quals = todo.pop()
            if items:
                for bi, bt in base:
                    t = shift(bt, len(items))
                    for q in reversed(quals):
                        t = ("pointer", {"qualifiers": q, "of": t})
                    yield items + bi, t
            for q in self.qual_lists():
                its = items + (P("STAR"),) + tuple(K(x) for x in q)
                if len(its) <= self.n:
                    todo.append((its, quals + (q,)))

    def declaration_specifier(self):
        for k in ("TYPEDEF", "EXTERN", "STATIC", "THREAD_LOCAL", "AUTO", "REGISTER"):
            yield (K(k),), (("storage", k),)
        for k in ("VOID", "CHAR", "SHORT", "INT", "LONG", "FLOAT", "DOUBLE", "SIGNED", "UNSIGNED", "BOOL", "COMPLEX"):
            yield (K(k),), (("type", k),)
        for k in QUALS:
            yield (K(k),), (("qualifier", k),)
        for k in ("INLINE", "NORETURN"):
            yield (K(k),), (("function", k),)
        for k in ("constant_expression", "type_name"):
            yield (K("ALIGNAS"), LP, N(k), RP), (("alignment", ("$", 2)),)
        yield (ID,), (("type", "TYPEDEF", ("tok", 0)),)
        for k in ("STRUCT", "UNION"):
            yield (K(k), ID), (("type", k, {"tag": ("tok", 1), "complete": 0, "entries": ()}),)
            for tag in ((), (ID,)):
                items = (K(k),) + tag + (LBR,)
                for its, es in self.members(items):
                    yield its + (RBR,), (("type", k, {"tag": ("tok", 1) if tag else None, "complete": 1, "entries": es}),)
        yield (K("ENUM"), ID), (("type", "ENUM", {"tag": ("tok", 1), "complete": 0, "entries": ()}),)
        for tag in ((), (ID,)):
            todo = [((K("ENUM"),) + tag + (LBR,), ())]
            while todo:
                items, es = todo.pop()
                if es:
                    t = (("type", "ENUM", {"tag": ("tok", 1) if tag else None, "complete": 1, "entries": es}),)
                    yield items + (RBR,), t
                    yield items + (COMMA, RBR), t
                    items += (COMMA,)
                n = len(items)
                if n > self.n:
                    continue
                todo.append((items + (ID,), es + ((("tok", n), None),)))
                todo.append((items + (ID, ASSIGN, N("constant_expression")), es + ((("tok", n), ("$", n + 2)),)))

    def members(self, items):
        todo = [(items, ())]
        while todo:
            items, es = todo.pop()
            yield items, es
            n = len(items)
            if n > self.n:
                continue
            todo.append((items + (N("static_assertion"),), es + (("assert", ("$", n)),)))
            decl = [(items + (N("declaration_specifier_list"),), ())]
            while decl:
                its, ds = decl.pop()
                m = len(its)
                if m > self.n:
                    continue
                todo.append((its + (SEMI,), es + (("fields", ("$", n), ds),)))
                if ds:
                    its += (COMMA,)
                    m += 1
                decl.append((its + (N("declarator"),), ds + ((("$", m), None),)))
                decl.append((its + (N("declarator"), COLON, N("constant_expression")), ds + ((("$", m), ("$", m + 2)),)))
                decl.append((its + (COLON, N("constant_expression")), ds + ((("identifier", {"identifier": None}), ("$", m + 1)),)))

    def declaration_specifier_list(self):
        for k in range(1, self.n + 1):
            yield (N("declaration_specifier"),) * k, tuple(("$", i) for i in range(k))


ANY = object()


def no_digraph(t, items):
    return t is not None and t in UNDIGRAPH


def few_quals(t, items):
    """keeps sequences with at most one qualifier, written const, and no digraphs"""
    return no_digraph(t, items) or (t is not None and t[0] == "K" and t[1] in QUALS and (t[1] != "CONST" or K("CONST") in items))


def filtered(seq, prune):
    return prune is None or not any(prune(t, seq[:i]) for i, t in enumerate(seq) if t[0] != "N")


# rule -> [(limit, prune)] explored; several views of one rule keep the number of path classes bounded
PLAN = {
    "identifier": [(2, None)], "constant": [(2, None)], "string_literal": [(2, None)], "generic_selection": [(12, None)],
    "compound_literal": [(6, None)], "primary_expression": [(5, None)], "postfix_expression": [(4, None), (5, no_digraph)],
    "unary_expression": [(6, None)], "cast_expression": [(6, None)], "conditional_expression": [(7, None)], "expression": [(9, None)],
    "assignment_expression": [(5, None)], "constant_expression": [(3, None)], "type_name": [(4, None)], "static_assertion": [(8, None)],
    "declaration": [(8, None)], "labeled_statement": [(5, None)], "compound_statement": [(4, None), (5, no_digraph)], "expression_statement": [(4, None)],
    "selection_statement": [(8, None)], "iteration_statement": [(10, None)], "jump_statement": [(4, None)], "statement": [(3, None)],
    "function_definition": [(6, None)], "external_declaration": [(3, None)], "translation_unit": [(5, None)],
    "initializer": [(3, None)], "initializer_list": [(4, None), (7, no_digraph)], "initializer_designation": [(5, None), (8, no_digraph)],
    "declarator": [(3, None), (6, few_quals)], "abstract_declarator": [(3, None), (5, few_quals)],
    "declaration_specifier": [(4, None), (8, no_digraph)], "declaration_specifier_list": [(5, None)],
}
DEEPER = {"postfix_expression": 6, "declaration": 10, "compound_statement": 6, "initializer_list": 9, "declarator": 7, "abstract_declarator": 6,
          "declaration_specifier": 9}
for _r in BINARY:
    PLAN[_r] = [(7 if len(BINARY[_r][1]) > 2 else 9, None)]


def same(expected, got):
    if expected is ANY:
        return True
    if isinstance(expected, dict):
        return isinstance(got, dict) and all(same(v, got.get(k)) for k, v in expected.items())
    if isinstance(expected, tuple):
        return isinstance(got, tuple) and len(expected) == len(got) and all(same(a, b) for a, b in zip(expected, got))
    return expected == got


def show(x):
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict):
        return "%s{%s}" % (x[0], ", ".join("%s=%s" % (k, show(v)) for k, v in sorted(x[1].items(), key=repr)))
    if isinstance(x, tuple) and len(x) == 2 and x[0] in ("$", "tok"):
        return "$%s" % (x[1],)
    if isinstance(x, tuple):
        return "(" + ", ".join(map(show, x)) + ")"
    if x is ANY:
        return "any"
    return str(x)


def words(items):
    return " ".join(str(i[-1]) for i in items) or "(nothing)"


def loosen(rule, items):
    """forms kefir accepts beyond C: the C form whose tree they must still build, or None when nothing is prescribed"""
    if rule == "unary_expression" and items in ((P("DOUBLE_PLUS"), N("cast_expression")), (P("DOUBLE_MINUS"), N("cast_expression"))):
        return (items[0], N("unary_expression"))        # rejected later: a cast is no lvalue
    if rule == "unary_expression" and items[:2] == (K("ALIGNOF"), LP) and items[2:3] == (N("assignment_expression"),):
        return (K("ALIGNOF"), LP, N("type_name"), RP)
    return items


def atomic_type(rule, items):
    return rule == "declaration_specifier" and items[:2] == (K("ATOMIC"), LP)


def decide(w, rule, tier):
    """(violations, paths, obligations, undecided) of one rule"""
    out, bad, counts = [], set(), [0, 0]
    w.it.cut.clear()
    plan = PLAN[rule]
    for limit, prune in plan:
        if tier == "thorough" and rule in DEEPER and (limit, prune) == plan[-1]:
            limit = DEEPER[rule]
        w.prune = prune
        if rule in ("constant", "string_literal"):
            ps = [p for kind in (CONSTANTS if rule == "constant" else STRINGS) for p in w.paths(rule, limit, preset=leaf_preset(w, rule, kind))]
        else:
            ps = w.paths(rule, limit)
        exp = {k: v for k, v in Oracle(w, limit).rule(rule).items() if filtered(k, prune)}
        seen = set()

        def report(kind, items, text):
            if (kind, items) not in bad:
                bad.add((kind, items))
                out.append((kind, words(items), text))
        for k, items, tree, s in ps:
            counts[0] += 1
            if k == w.NO_MATCH:
                if s.x.get("items", ()):
                    report("backtrack", items, "rule %s reports 'no match' after consuming: %s" % (rule, words(items)))
                continue
            if k != 0:
                ahead = tuple(UNDIGRAPH.get(i, i) for i in items + w.ahead(s))
                if ahead in exp and len(ahead) <= limit and ahead and ahead[-1][0] in "PK":
                    report("follows", ahead, "rule %s fails on a complete sequence because of what comes after it: %s" % (rule, words(ahead)))
                continue
            plain = loosen(rule, tuple(UNDIGRAPH.get(i, i) for i in items))
            if ("?",) in items:
                report("any", items, "rule %s accepts any token in: %s" % (rule, words(items)))
                continue
            if atomic_type(rule, plain) or (rule == "declaration_specifier" and tree == (("type", "VA_LIST"),)):
                continue
            if plain not in exp:
                report("accepts", items, "rule %s accepts a sequence that is not C: %s" % (rule, words(items)))
                continue
            seen.add(items)
            if not any(i in UNDIGRAPH for i in items):
                seen.add(plain)
            if not same(exp[plain], tree):
                report("tree", items, "rule %s builds the wrong tree for: %s; expected %s, built %s"
                       % (rule, words(items), show(exp[plain]), show(tree)))
            extra = special(w, rule, s, tree)
            if extra:
                report("leaf", items, "rule %s: %s" % (rule, extra))
            if s.x.get("scope", 0) != 0:
                report("scope", items, "rule %s leaves a name scope open or closes one too many after: %s" % (rule, words(items)))
        for items in exp:
            for v in variants(items, prune):
                counts[1] += 1
                if v not in seen:
                    report("rejects", v, "rule %s does not accept: %s" % (rule, words(v)))
        if rule in ("constant", "string_literal"):
            got = {x for k, items, tree, s in ps if k == 0 for x in [leaf_kind(w, rule, s)] if x is not None}
            for kind in (CONSTANTS if rule == "constant" else STRINGS):
                counts[1] += 1
                if kind not in got:
                    report("rejects", (("TOKEN", kind),), "rule %s does not handle %s tokens" % (rule, kind.lower()))
    return out, counts[0], counts[1], sorted(w.it.cut)


def job(a):
    rule, tier = a
    return decide(_W, rule, tier)


def c11(tier):
    global _W
    import multiprocessing as mp
    res = Result()
    res.rules = ["grammar: the set of token and sub-tree sequences each parsing rule accepts (up to a number of items) equals the sequences "
                 "of C17's production, and each builds the tree the production prescribes (operator, operand order, nesting); what a rule "
                 "does not match it leaves unconsumed; name scopes are balanced"]
    prog = ir.load_program()
    w = _W = GWorld(prog)
    for rule in PLAN:
        f = w.impl.get(rule) or w.extra.get(rule)
        if f is None:
            raise AnalysisBroken("grammar rule %s not found" % rule)
        for limit, prune in PLAN[rule]:
            Oracle(w, 1).rule(rule)
    rules = sorted(PLAN, key=lambda r: r not in ("postfix_expression", "declaration_specifier", "compound_statement"))
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        rs = pool.map(job, [(r, tier) for r in rules], chunksize=1)
    for rule, (out, n, o, cut) in zip(rules, rs):
        f = prog.funcs[w.impl.get(rule) or w.extra.get(rule)]
        res.count("grammar rules", 1)
        res.count("abstract parses", n)
        res.count("sequences C prescribes", o)
        kinds = {}
        for kind, items, text in out:
            kinds.setdefault(kind, []).append((items, text))
        for kind, l in sorted(kinds.items()):
            extra = "" if len(l) == 1 else " (and %d more)" % (len(l) - 1)
            res.find("grammar", locate(prog, f), l[0][1] + extra, func=f.name, ident="|".join(["grammar", rule, kind, l[0][0].replace(" ", "_")]))
        if not out and n:
            res.samples.append("%s: %d sequences" % (rule, o))
    res.assume = ["sub-rules are taken as opaque: each either matches one sub-tree or does not",
                  "repetitions are followed up to the number of items given per rule in kv/props/grammar.py (PLAN)"]
    res.need("grammar rules", 30)
    res.need("sequences C prescribes", 500)
    return res


def locate(prog, f):
    for b in f.order:
        for i in f.blocks[b].ins:
            if getattr(i, "dbg", None):
                return prog.where(i)
    return f.unit


def variants(items, prune):
    out = [()]
    for i in items:
        ch = [i] + ([DIGRAPH[i]] if prune is None and i in DIGRAPH else [])
        out = [o + (c,) for o in out for c in ch]
    return out


def leaf_preset(w, rule, kind):
    def f(st):
        t = w.tok(("start",), 0)
        if rule == "constant":
            w.put(t, "kefir_token", "klass", w.enum["KEFIR_TOKEN_CONSTANT"], st)
            w.put(t, "kefir_token", "constant.type", w.enum["KEFIR_CONSTANT_TOKEN_" + kind], st)
        else:
            w.put(t, "kefir_token", "klass", w.enum["KEFIR_TOKEN_STRING_LITERAL"], st)
            w.put(t, "kefir_token", "string_literal.type", w.enum["KEFIR_STRING_LITERAL_TOKEN_" + kind], st)
    return f


def leaf_kind(w, rule, s):
    it = s.x["items"][0]
    t = w.tok(it[1], it[2])
    if rule == "constant":
        v = s.known(w.load(t, "kefir_token", "constant.type", s))
        return w.enum_name("KEFIR_CONSTANT_TOKEN_", v) if v is not None else None
    v = s.known(w.load(t, "kefir_token", "string_literal.type", s))
    return w.enum_name("KEFIR_STRING_LITERAL_TOKEN_", v) if v is not None else None


def special(w, rule, s, tree):
    if rule in ("constant", "string_literal"):
        kind = leaf_kind(w, rule, s)
        if kind is None:
            return None         # a token kind the lexer never produces
        if rule == "constant":
            want = w.enum.get("KEFIR_AST_%s_CONSTANT" % CONSTANTS[kind])
        else:
            want = w.enum.get("KEFIR_AST_STRING_LITERAL_" + STRINGS[kind])
        if tree is None or tree[0] != rule:
            return "a %s token does not become a %s" % (kind.lower(), rule)
        if tree[1].get("type") != want:
            return "a %s token becomes a %s of another type" % (kind.lower(), rule.replace("_", " "))
        v = tree[1].get("value" if rule == "constant" else "literal")
        if rule == "constant" and v != ("tok", 0):
            return "the value of a %s token is lost" % kind.lower()
    if rule == "declaration_specifier" and tree and tree[0][:2] == ("type", "TYPEDEF"):
        if not any(v for k, v in s.x.get("td", ())):
            return "an identifier that is not a typedef name is taken for a type"
    return None
