"""Statements: kefir's statement analysers and translators, abstractly interpreted on small nests of statements whose expressions
are left abstract; the control paths of the emitted code are compared with a direct lowering of C's statement semantics."""
import itertools, os
from .. import ir, sem, csem, absint
from ..core import Result
from ..ir import AnalysisBroken
from ..sem import Bad, Machine, Unknown, mk, new
from ..csem import *
from .translate import NB, cname, show, same_slot, value_slots, locate

KIND = {  # python tag: (structure, class enumerator, function stem)
    "if": ("kefir_ast_conditional_statement", "CONDITIONAL_STATEMENT", "conditional_statement"),
    "while": ("kefir_ast_while_statement", "WHILE_STATEMENT", "while_statement"),
    "do": ("kefir_ast_do_while_statement", "DO_WHILE_STATEMENT", "do_while_statement"),
    "for": ("kefir_ast_for_statement", "FOR_STATEMENT", "for_statement"),
    "switch": ("kefir_ast_switch_statement", "SWITCH_STATEMENT", "switch_statement"),
    "case": ("kefir_ast_case_statement", "CASE_STATEMENT", "case_statement"),
    "default": ("kefir_ast_case_statement", "CASE_STATEMENT", "case_statement"),
    "block": ("kefir_ast_compound_statement", "COMPOUND_STATEMENT", "compound_statement"),
    "expr": ("kefir_ast_expression_statement", "EXPRESSION_STATEMENT", "expression_statement"),
    "break": ("kefir_ast_break_statement", "BREAK_STATEMENT", "break_statement"),
    "continue": ("kefir_ast_continue_statement", "CONTINUE_STATEMENT", "continue_statement"),
    "goto": ("kefir_ast_goto_statement", "GOTO_STATEMENT", "goto_statement"),
    "label": ("kefir_ast_labeled_statement", "LABELED_STATEMENT", "labeled_statement"),
    "return": ("kefir_ast_return_statement", "RETURN_STATEMENT", "return_statement"),
}


class StmtWorld(sem.World):
    def base_models(self):
        super().base_models()
        M = self.models
        ok = lambda it, st, ins, a: [(0, st)]
        M["kefir_ast_context.push_block"] = ok
        M["kefir_ast_context.pop_block"] = ok

        def free(it, st, ins, a):
            return [(0, st)]
        M["kefir_mem.free"] = free

        def point(it, st, ins, a):
            tree = self.load(self.actx, "kefir_ast_context", "flow_control_tree", st)
            out = []
            top = new("topslot")
            for v, s in it.run(self.fn("kefir_ast_flow_control_tree_top"), [tree, top], st):
                for p, s2 in it.run(self.fn("kefir_ast_flow_control_point_alloc"), [self.mem, it.load(s, top, "ptr")], s):
                    it.store(s2, a[2], p)
                    out.append((0, s2))
            return out
        M["kefir_ast_context.current_flow_control_point"] = point

        def label(it, st, ins, a):      # mem, ctx, label, parent, location, &id
            sid = new(("labelid", a[2]))
            known = st.x.get("labels", {})
            if a[2] in known:
                p = known[a[2]]
                outs = [(p, st)]
            else:
                outs = it.run(self.fn("kefir_ast_flow_control_point_alloc"), [self.mem, a[3]], st)
            res = []
            for p, s in outs:
                s.x["labels"] = dict(s.x.get("labels", {}), **{}) | {a[2]: p}
                S = "kefir_ast_scoped_identifier"
                if a[3] != 0:
                    self.put(p, "kefir_ast_flow_control_point", "parent", a[3], s)
                self.put(sid, S, "klass", self.enum["KEFIR_AST_SCOPE_IDENTIFIER_LABEL"], s)
                self.put(sid, S, "label.point", p, s)
                it.store(s, a[5], sid)
                res.append((0, s))
            return res
        M["kefir_ast_context.reference_label"] = label

    def translator_models(self):
        super().translator_models()
        M = self.models
        opoff = None

        def wrap(m0, first):
            def m(it, st, ins, a):
                n = len(st.trace)
                r = m0(it, st, ins, a)
                for v, s in r:
                    op = s.known(a[first])
                    it.store(s, absint.ptradd(("ptr", ("instr", n), 0), self.off("kefir_irinstr", "opcode")), op)
                return r
            return m
        for n in list(M):
            if n.startswith("kefir_irbuilder_block.append"):
                M[n] = wrap(M[n], 1)
            elif n.startswith("kefir_irbuilder_block_append"):
                M[n] = wrap(M[n], 2)
        expr_node = M["kefir_ast_analyze_node"]

        def analyse(it, st, ins, a):
            k = st.x["kinds"].get(a[2])
            if k is None:
                return [(0, st)]
            return it.run(self.fn("kefir_ast_analyze_%s_node" % KIND[k][2]), [a[0], a[1], a[2], a[2]], st)
        M["kefir_ast_analyze_node"] = analyse

        def translate(it, st, ins, a):
            k = st.x["kinds"].get(a[1])
            if k is None:
                raise Unknown("statement of unknown kind")
            return it.run(self.fn("kefir_ast_translate_%s_node" % KIND[k][2]), [a[0], a[3], a[2], a[1]], st)
        M["kefir_ast_translate_statement"] = translate

        def decl(it, st, ins, a):
            st.ev("MARK", a[1])
            return [(0, st)]
        M["kefir_ast_translate_declaration"] = decl

        def evaluate(it, st, ins, a):
            S = "kefir_ast_constant_expression_value"
            self.put(a[3], S, "klass", self.enum["KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER"], st)
            self.put(a[3], S, "integer", st.x["consts"][a[2]], st)
            return [(0, st)]
        M["kefir_ast_constant_expression_value_evaluate"] = evaluate
        info0 = M["kefir_ast_target_environment.object_info"]

        def info(it, st, ins, a):
            r = info0(it, st, ins, a)
            t = a[2]
            n = self.tname(t[1], st) if isinstance(t, tuple) and t[0] == "envtype" else None
            n = n and unq(n)
            for v, s in r:
                sz = 4 if n == "enum" else 8 if n and n[0] == "p" else sem.BASIC[n][1] // 8 or 1 if n in sem.BASIC and sem.BASIC[n][1] else None
                if a[3] == 0 and sz:
                    for m in ("size", "alignment"):
                        self.put(a[4], "kefir_ast_target_environment_object_info", m, sz, s)
            return r
        M["kefir_ast_target_environment.object_info"] = info

    def setup(self):
        for n in ("kefir_list_insert_after", "kefir_hashtree_init", "kefir_list_tail"):
            self.models.pop(n, None)
        if self.call1("kefir_ast_type_bundle_init", [self.bundle, new("symbols")]) != 0:
            raise AnalysisBroken("the type bundle cannot be initialised")
        self.vtable(self.actx, "kefir_ast_context")
        tree = new("fctree")
        self.put(self.actx, "kefir_ast_context", "flow_control_tree", tree)
        if self.call1("kefir_ast_flow_control_tree_init", [tree]) != 0:
            raise AnalysisBroken("the flow control tree cannot be initialised")
        self.tree = tree


class Build:
    def __init__(self, w, st, types, rett="int"):
        self.w, self.st, self.types, self.n = w, st, types, 0
        st.x["kinds"], st.x["consts"] = {}, {}
        self.rett = rett

    def ex(self, name):
        if name is None:
            return 0
        w = self.w
        if name.startswith("@"):        # declaration
            p = w.node(self.st, name, None, cat="DECLARATION")
            w.put(new(("klass", "decl")), "kefir_ast_node_class", "type", w.enum["KEFIR_AST_DECLARATION"], self.st)
            w.put(p, NB, "klass", new(("klass", "decl")), self.st)
            w.make_list(self.st, p, "kefir_ast_declaration", "init_declarators", [])
            return p
        return w.node(self.st, name, self.types.get(name, "int"), lvalue=1)

    def stmt(self, S):
        if S is None:
            return 0
        w, st, k = self.w, self.st, S[0]
        if k == "decl":
            return w.node(st, S[1], None, cat="DECLARATION")
        struct_, cls, _ = KIND[k]
        self.n += 1
        p = w.node(st, ("stmt", self.n), None, cat="STATEMENT")
        kl = new(("klass", k))
        w.put(kl, "kefir_ast_node_class", "type", w.enum["KEFIR_AST_" + cls], st)
        w.put(p, NB, "klass", kl, st)
        st.x["kinds"] = dict(st.x["kinds"])
        st.x["kinds"][p] = k
        put = lambda m, v: w.put(p, struct_, m, v, st)
        if k == "if":
            put("condition", self.ex(S[1])), put("thenBranch", self.stmt(S[2])), put("elseBranch", self.stmt(S[3]))
        elif k == "while":
            put("controlling_expr", self.ex(S[1])), put("body", self.stmt(S[2]))
        elif k == "do":
            put("body", self.stmt(S[1])), put("controlling_expr", self.ex(S[2]))
        elif k == "for":
            put("init", self.ex(S[1])), put("controlling_expr", self.ex(S[2])), put("tail", self.ex(S[3])), put("body", self.stmt(S[4]))
        elif k == "switch":
            put("expression", self.ex(S[1])), put("statement", self.stmt(S[2]))
        elif k in ("case", "default"):
            if k == "case":
                c = w.node(st, ("const", S[1], self.n), "int", lvalue=0, const=1)
                st.x["consts"] = dict(st.x["consts"])
                st.x["consts"][c] = S[1]
                put("expression", c)
            else:
                put("expression", 0)
            put("statement", self.stmt(S[-1]))
        elif k == "block":
            w.make_list(st, p, struct_, "block_items", [self.stmt(x) for x in S[1]])
        elif k in ("expr", "return"):
            put("expression", self.ex(S[1]))
        elif k == "goto":
            put("identifier", ("str", S[1]))
        elif k == "label":
            put("label", ("str", S[1])), put("statement", self.stmt(S[2]))
        return p


# ---------------------------------------------------------------- C's meaning
class Invalid(Exception):
    pass


class Lower:
    def __init__(self):
        self.code, self.n, self.labels = [], 0, {}

    def lab(self):
        self.n += 1
        return ("L", self.n)

    def go(self, S, brk=None, cont=None, sw=None):
        if S is None:
            return
        k, E = S[0], self.code.append
        if k == "expr":
            if S[1]:
                E(("eval", S[1]))
        elif k == "decl":
            E(("mark", S[1]))
        elif k == "block":
            for x in S[1]:
                self.go(x, brk, cont, sw)
        elif k == "if":
            t, f, e = self.lab(), self.lab(), self.lab()
            E(("br", S[1], t, f)), E(("label", t))
            self.go(S[2], brk, cont, sw)
            E(("jmp", e)), E(("label", f))
            self.go(S[3], brk, cont, sw)
            E(("label", e))
        elif k == "while":
            c, b, e = self.lab(), self.lab(), self.lab()
            E(("label", c)), E(("br", S[1], b, e)), E(("label", b))
            self.go(S[2], e, c, sw)
            E(("jmp", c)), E(("label", e))
        elif k == "do":
            b, c, e = self.lab(), self.lab(), self.lab()
            E(("label", b))
            self.go(S[1], e, c, sw)
            E(("label", c)), E(("br", S[2], b, e)), E(("label", e))
        elif k == "for":
            c, b, t, e = self.lab(), self.lab(), self.lab(), self.lab()
            if S[1]:
                E(("mark" if S[1][0] == "@" else "eval", S[1]))
            E(("label", c))
            if S[2]:
                E(("br", S[2], b, e))
            E(("label", b))
            self.go(S[4], e, t, sw)
            E(("label", t))
            if S[3]:
                E(("eval", S[3]))
            E(("jmp", c)), E(("label", e))
        elif k == "switch":
            e = self.lab()
            d = dict(cases=[], default=None)
            slot = len(self.code)
            E(None)
            self.go(S[2], e, cont, d)
            E(("label", e))
            self.code[slot] = ("sw", S[1], d["cases"], d["default"] or e)
        elif k in ("case", "default"):
            if sw is None:
                raise Invalid("case or default outside of a switch")
            l = self.lab()
            if k == "case":
                if S[1] in [v for v, _ in sw["cases"]]:
                    raise Invalid("duplicate case")
                sw["cases"].append((S[1], l))
            else:
                if sw["default"]:
                    raise Invalid("duplicate default")
                sw["default"] = l
            E(("label", l))
            self.go(S[-1], brk, cont, sw)
        elif k == "break":
            if brk is None:
                raise Invalid("break outside of a loop or switch")
            E(("jmp", brk))
        elif k == "continue":
            if cont is None:
                raise Invalid("continue outside of a loop")
            E(("jmp", cont))
        elif k == "goto":
            E(("jmp", ("user", S[1])))
        elif k == "label":
            E(("label", ("user", S[1])))
            self.go(S[2], brk, cont, sw)
        elif k == "return":
            E(("ret", S[1]))


class Mismatch(Exception):
    pass


def replay(w, code, path, types, rett, leak_default):
    labels = {c[1]: i for i, c in enumerate(code) if c[0] == "label"}
    conds, stk, eff, exit = path
    i, pc, leak = 0, 0, 0
    steps = 0

    def nxt():
        nonlocal i
        if i < len(eff):
            i += 1
            return eff[i - 1]
        return None

    def name(nd):
        return nd[1][1]

    def expect_eval(n):
        e = nxt()
        if e is None:
            if exit == "limit":
                return None
            raise Mismatch("the code ends (%s) where C evaluates `%s`" % (exit, n))
        if e[0] != "eval" or name(e[1]) != n:
            raise Mismatch("the code %s where C evaluates `%s`" % (describe(w, e), n))
        if e[3] != leak:
            raise Mismatch("%d stale slot(s) lie on the operand stack when `%s` is evaluated" % (e[3] - leak, n))
        return e
    while True:
        steps += 1
        if steps > 500:
            return
        if pc >= len(code):
            e = nxt()
            if e is not None:
                raise Mismatch("the code %s after the statement should be complete" % describe(w, e))
            if exit == "limit":
                return
            if exit != "end":
                raise Mismatch("control leaves the statement (%s) where C continues after it" % exit)
            if len(stk) != leak:
                raise Mismatch("the statement leaves %d slot(s) on the operand stack" % (len(stk) - leak))
            return
        c = code[pc]
        if c[0] == "label":
            pc += 1
        elif c[0] == "jmp":
            pc = labels[c[1]]
        elif c[0] == "mark":
            e = nxt()
            if e is None and exit == "limit":
                return
            if e is None or e[0] != "mark" or name(e[1]) != c[1]:
                raise Mismatch("the code %s where C reaches the declaration `%s`" % (describe(w, e), c[1]))
            if e[2] != leak:
                raise Mismatch("stale slots lie on the operand stack at the declaration")
            pc += 1
        elif c[0] == "eval":
            if expect_eval(c[1]) is None:
                return
            pc += 1
        elif c[0] == "br":
            e = expect_eval(c[1])
            if e is None:
                return
            t = truth(e[2], unq(types.get(c[1], "int")))
            d = nxt()
            if d is None and exit == "limit":
                return
            if d is None or d[0] != "cond":
                raise Mismatch("the code %s without testing `%s`" % (describe(w, d), c[1]))
            if d[1] != t and sem.differ(d[1], t):
                raise Mismatch("`%s` (%s) is tested as %s where C requires %s" % (c[1], cname(types.get(c[1], "int")), show(w, d[1]), show(w, t)))
            pc = labels[c[2] if d[2] else c[3]]
        elif c[0] == "sw":
            e = expect_eval(c[1])
            if e is None:
                return
            t0 = unq(types.get(c[1], "int"))
            t = promote(t0)
            v = conv([e[2]], t0, t)[0]
            facts = []
            while i < len(eff) and eff[i][0] == "cond":
                facts.append(eff[i][1:])
                i += 1
            if i >= len(eff) and exit == "limit":
                return
            want = {}
            for val, l in c[2]:
                k = sem.BASIC[t][1]
                cv = sem.sx(val, k) if sem.BASIC[t][2] else val & ((1 << k) - 1)
                cv = sem.sx(cv, 64)
                want.setdefault(mk("eq", v, cv), (val, l))
            taken, no = None, set()
            for term, val in facts:
                m = [term] if term in want else [q for q in want if not sem.differ(q, term)]
                if not m:
                    if term[0] == "eq":
                        raise Mismatch("the controlling value is tested as %s, which is no case of the switch (%s)" %
                                       (show(w, term), ", ".join(show(w, q) for q in want)))
                    raise Unknown("switch dispatch by %s" % (term[0],))
                if val:
                    taken = want[m[0]]
                else:
                    no.add(m[0])
            if taken is None:
                if set(want) - no:
                    raise Mismatch("a case of the switch is never tested for: %s" % show(w, sorted(set(want) - no, key=repr)[0]))
                if leak_default:
                    leak += 1
                pc = labels[c[3]]
            else:
                pc = labels[taken[1]]
        elif c[0] == "ret":
            if c[1] is not None and expect_eval(c[1]) is None:
                return
            e = nxt()
            if e is None and exit == "limit":
                return
            if e is None or e[0] != "ret":
                raise Mismatch("the code %s where C returns" % describe(w, e))
            return


def describe(w, e):
    if e is None:
        return "ends"
    if e[0] == "eval":
        return "evaluates `%s`" % (e[1][1][1],)
    if e[0] == "cond":
        return "branches on %s" % show(w, e[1])
    if e[0] == "goto":
        return "jumps to an unresolved place"
    return {"ret": "returns", "mark": "reaches a declaration"}.get(e[0], e[0])


def cstr(S):
    """C-like text of a nest"""
    if S is None:
        return ""
    k = S[0]
    if k == "expr":
        return "%s;" % (S[1] or "")
    if k == "decl":
        return "int %s;" % S[1]
    if k == "block":
        return "{ %s }" % " ".join(cstr(x) for x in S[1])
    if k == "if":
        return "if (%s) %s%s" % (S[1], cstr(S[2]), " else " + cstr(S[3]) if S[3] else "")
    if k == "while":
        return "while (%s) %s" % (S[1], cstr(S[2]))
    if k == "do":
        return "do %s while (%s);" % (cstr(S[1]), S[2])
    if k == "for":
        return "for (%s; %s; %s) %s" % (S[1] or "", S[2] or "", S[3] or "", cstr(S[4]))
    if k == "switch":
        return "switch (%s) %s" % (S[1], cstr(S[2]))
    if k == "case":
        return "case %d: %s" % (S[1], cstr(S[2]))
    if k == "default":
        return "default: %s" % cstr(S[1])
    if k == "goto":
        return "goto %s;" % S[1]
    if k == "label":
        return "%s: %s" % (S[1], cstr(S[2]))
    if k == "return":
        return "return %s;" % (S[1] or "")
    return k + ";"


def names(S, out):
    for x in S[1:]:
        if isinstance(x, tuple):
            names(x, out)
        elif isinstance(x, list):
            for y in x:
                names(y, out)
    return out


def run_nest(w, S, types, rett="int"):
    """(problems as (function, message, tag))"""
    text, kind = cstr(S), S[0]
    if kind != "block":
        S = ("block", [S])
    st = w.st.copy()
    st.x["nalloc"] = 5000
    st.trace = ()
    b = Build(w, st, types, rett)
    w.put(new("func"), "kefir_ast_scoped_identifier", "function.type", new("functype"), st)
    w.put(new("functype"), "kefir_ast_type", "function_type.return_type", w.T[rett], st)
    root = b.stmt(S)
    low_ = Lower()
    invalid = None
    try:
        low_.go(S)
    except Invalid as e:
        invalid = str(e)
    root_stem = KIND[S[0]][2]
    if kind == "block":
        inner = [x[0] for x in S[1] if x[0] not in ("expr", "decl", "label")]
        kind = inner[0] if inner else "block"
    afn = "kefir_ast_analyze_%s_node" % KIND[kind][2]
    outs = w.it.run(w.fn("kefir_ast_analyze_%s_node" % root_stem), [w.mem, w.actx, root, root], st)
    acc = [s for v, s in outs if v == 0]
    rej = [s for v, s in outs if v != 0]
    if acc and rej or len(acc) > 1:
        raise Unknown("analysis of the nest is not determined")
    if invalid:
        return [("T", afn, "`%s` is accepted: %s" % (text, invalid), None)] if acc else []
    if not acc:
        return [("T", afn, "`%s` is rejected" % text, None)]
    s = acc[0]
    outs = w.it.run(w.fn("kefir_ast_translator_flow_control_tree_init"), [w.mem, w.tree], s)
    if [v for v, _ in outs] != [0]:
        return [("V", "kefir_ast_translator_flow_control_tree_init", "`%s`: the jump targets cannot be prepared" % text, None)]
    s = outs[0][1]
    for p in s.x.get("labels", {}).values():
        o = w.it.run(w.fn("kefir_ast_translator_flow_control_point_init"), [w.mem, p, 0], s)
        s = o[0][1]
    tfn = "kefir_ast_translate_%s_node" % KIND[kind][2]
    outs = w.it.run(w.fn("kefir_ast_translate_%s_node" % root_stem), [w.mem, w.tctx, w.builder, root], s)
    if len(outs) != 1:
        raise Unknown("translation of the nest is not determined")
    if outs[0][0] != 0:
        return [("V", tfn, "`%s`: translation fails" % text, None)]
    s = outs[0][1]
    unresolved = [k for k in ()]
    probs = []

    def valtype(nd):
        return w.tname(w.load(nd, NB, "properties.type", s), s)
    try:
        paths = Machine(s.trace, valtype, sem.patches(w, s), tracing=2, maxpaths=3000).run(limit=300)
    except Bad as e:
        return [("V", tfn, "`%s`: %s" % (text, e), None)]
    for p in paths:
        try:
            replay(w, low_.code, p, types, rett, False)
        except Mismatch as e:
            tag = None
            try:
                replay(w, low_.code, p, types, rett, True)
                tag = "default-leak"
            except Mismatch:
                pass
            probs.append(("V", tfn, "`%s`: %s" % (text, e), tag))
    seen, out = set(), []
    for p in sorted(probs, key=lambda p: p[3] or ""):
        if (p[1], p[3]) not in seen:
            seen.add((p[1], p[3]))
            out.append(p)
    return out


# ---------------------------------------------------------------- the family of nests
def family():
    out = []
    X = lambda n: ("expr", n)
    B = lambda *a: ("block", list(a))
    allt = [t for t in ARITH if t != "void"] + ["pint", "pvoid", "cint", "cpint"]
    # every controlling type
    for t in allt:
        out.append((("if", "c", X("a"), X("b")), {"c": t}))
        out.append((("if", "c", X("a"), None), {"c": t}))
        out.append((("while", "c", X("a")), {"c": t}))
        out.append((("do", X("a"), "c"), {"c": t}))
        out.append((("for", "i", "c", "t", X("a")), {"c": t}))
        out.append((("for", "i", "c", "t", X("a")), {"i": t, "t": t}))
        out.append((B(X("a"), X("b")), {"a": t}))
    for t in ("void",):
        out.append((("for", "i", "c", "t", X("a")), {"i": t, "t": t}))
        out.append((B(X("a"), X("b")), {"a": t}))
    # missing parts of for, declaration in for
    for i, c, t in itertools.product((None, "i", "@d"), (None, "c"), (None, "t")):
        out.append((("for", i, c, t, X("a")), {}))
        out.append((("for", i, c, t, B(X("a"), ("if", "e", ("break",), ("continue",)), X("b"))), {}))
    loops = {"while": lambda b, n: ("while", "c" + n, b), "do": lambda b, n: ("do", b, "c" + n),
             "for": lambda b, n: ("for", "i" + n, "c" + n, "t" + n, b)}
    leaves = {"break": ("break",), "continue": ("continue",), "return": ("return", "r"), "expr": X("z"), "goto": ("goto", "out")}
    for ln, l in loops.items():
        for k, leaf in leaves.items():
            s = l(B(X("a"), ("if", "e", leaf, None), X("b")), "")
            out.append((B(s, ("label", "out", X("z2"))) if k == "goto" else s, {}))
            s = l(B(X("a"), ("if", "e", X("b"), leaf)), "")
            out.append((B(s, ("label", "out", X("z2"))) if k == "goto" else s, {}))
            out.append((B(l(leaf, ""), ("label", "out", X("z2"))), {}))
    for o, i in itertools.product(loops, loops):
        for k in ("break", "continue"):
            out.append((loops[o](B(X("a"), loops[i](("if", "e", leaves[k], X("b")), "2"), X("d")), "1"), {}))
            out.append((loops[o](B(loops[i](X("b"), "2"), ("if", "e", leaves[k], None), X("d")), "1"), {}))
    # switches
    for t in [t for t in ARITH if is_int(t)] + ["cint", "enum"]:
        out.append((("switch", "s", B(("case", 1, X("a")), ("break",), ("case", 2, X("b")), ("default", X("d")), X("e"))), {"s": t}))
        out.append((("switch", "s", B(("case", -1, X("a")), ("break",), ("case", 2, X("b")))), {"s": t}))
    for vals in ([], [0], [5], [3, 1, 2], [-1, 7], [4, 3, 2, 1, 0], [1, 2, 3, 4, 5, 6, 7], [0x80000000, 1]):
        for dpos in (None, "first", "last"):
            items = []
            for v in vals:
                items += [("case", v, X("a%d" % v)), ("break",)] if v != 3 else [("case", v, X("a3"))]
            if dpos == "first":
                items = [("default", X("d")), ("break",)] + items
            elif dpos == "last":
                items = items + [("default", X("d"))]
            for t in ("int", "long"):
                out.append((B(("switch", "s", B(*items)), X("after")), {"s": t}))
    for t in ("long", "llong", "ulong", "ullong"):      # labels that do not fit in an int
        for vals in ([0x100000001, 1], [0x7fffffff00000000, 0x80000000, 0], [0x100000000, 0x200000000]):
            out.append((("switch", "s", B(*[x for v in vals for x in (("case", v, X("a%x" % v)), ("break",))], ("default", X("d")))), {"s": t}))
    for t in ("long", "llong"):
        out.append((("switch", "s", B(("case", -0x100000005, X("a")), ("break",), ("case", -5, X("b")))), {"s": t}))
    out.append((("switch", "s", ("case", 1, ("case", 2, X("a")))), {}))
    out.append((("switch", "s", X("a")), {}))
    for ln, l in loops.items():
        sw = ("switch", "s", B(("case", 1, ("break",)), ("case", 2, ("continue",)), ("default", X("d"))))
        out.append((l(B(sw, X("after")), ""), {}))
        out.append((("switch", "s", B(("case", 1, l(B(X("a"), ("break",)), "")), X("b"), ("default", X("d")))), {}))
        out.append((("switch", "s", B(("case", 1, X("q")), l(B(X("a"), ("case", 2, X("m")), ("if", "e", ("continue",), ("break",))), ""), X("b"))), {}))
        out.append((("switch", "s", l(B(("case", 1, X("a")), ("case", 2, X("m"))), "")), {}))
    out.append((("switch", "s", B(("case", 1, ("switch", "u", B(("case", 1, ("break",)), ("case", 2, X("a"))))), ("case", 2, X("b")), ("default", X("d")))), {}))
    # gotos
    for jump in (("goto", "l"), ("if", "e", ("goto", "l"), None)):
        out.append((B(("label", "l", X("a")), X("b"), ("if", "e", ("goto", "l"), None), X("c")), {}))
        out.append((B(jump, X("a"), ("label", "l", X("b")), X("c")), {}))
        out.append((B(jump, ("while", "w", B(X("a"), ("label", "l", X("b")))), X("c")), {}))
        out.append((B(("while", "w", B(X("a"), jump)), ("label", "l", X("b"))), {}))
        out.append((B(("if", "w", B(jump), ("label", "l", X("b"))), X("c")), {}))
    out.append((B(("decl", "x"), X("a"), ("decl", "y"), ("return", "r")), {}))
    out.append((("if", "c", ("return", "r"), ("if", "d", X("a"), ("return", "q"))), {}))
    out.append((("if", "c", ("if", "d", X("a"), X("b")), None), {}))
    # ill-formed
    for s in (("break",), ("continue",), ("case", 1, X("a")), ("default", X("a"))):
        out.append((B(s), {}))
        out.append((("if", "c", s, None), {}))
    out.append((("switch", "s", B(("case", 1, ("continue",)))), {}))
    out.append((("switch", "s", B(("case", 1, X("a")), ("case", 1, X("b")))), {}))
    out.append((("switch", "s", B(("default", X("a")), ("default", X("b")))), {}))
    out.append((("while", "c", ("case", 1, X("a"))), {}))
    return out


_W = _FAM = None


def _one(idx):
    out = []
    for i in idx:
        S, types = _FAM[i]
        try:
            out.append((run_nest(_W, S, types), None))
        except (AnalysisBroken, Unknown, RecursionError) as e:
            out.append(([], str(e)[:100] or type(e).__name__))
    return out


def c10(tier):
    import multiprocessing as mp
    global _W, _FAM
    r = Result()
    r.rules = ["path: every control path of the code emitted for a nest of statements evaluates the expressions in the order C "
               "prescribes, branches on their truth as C defines it, and keeps the operand stack balanced at every statement",
               "reject: misplaced break, continue, case and default and duplicate labels are rejected, every well-formed nest accepted"]
    prog = ir.load_program()
    _W = StmtWorld(prog)
    _W.setup()
    _FAM = family()
    n = len(_FAM)
    chunks = [list(range(k, n, 64)) for k in range(64)]
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        parts = pool.map(_one, chunks, chunksize=1)
    res = {}
    for ch, p in zip(chunks, parts):
        for i, x in zip(ch, p):
            res[i] = x
    found = {}
    for i in range(n):
        probs, und = res[i]
        r.count("statement nests", 1 if und is None else 0)
        r.count("undetermined", 0 if und is None else 1)
        if und and len(r.samples) < 5:
            r.samples.append("undetermined: %s: %s" % (cstr(_FAM[i][0]), und))
        for kind, fn, msg, tag in probs:
            key = ("path" if kind == "V" else "reject", fn if tag is None else "", tag)
            found.setdefault(key, []).append((fn, msg))
    for (rule, _, tag), l in sorted(found.items(), key=repr):
        fn, msg = l[0]
        r.find(rule, locate(_W, fn), msg + (" (and %d more)" % (len(l) - 1) if len(l) > 1 else ""), func=fn,
               ident="%s|%s" % (rule, tag or fn + "|other"))
    r.samples += [cstr(s) for s, _ in _FAM[::97]]
    r.assume = ["nests are enumerated up to three levels; every construct appears with every position of break, continue, goto, "
                "return and case, so a construct's own code is covered for any body", "each expression is followed for up to two "
                "evaluations per path", "the IR instructions mean what C08 decides"]
    r.need("statement nests", 50)
    return r
