"""Preprocessing directives: kefir's group scanner is abstractly interpreted over sequences of directive lines whose conditions
are unknown; text selected, macros in force where it is expanded and rejections are compared with C17 6.10."""
import itertools, os
from .. import ir, sem, absint
from ..core import Result
from ..ir import AnalysisBroken
from ..sem import Bad, Unknown, new
from .types import cstr

DIR, BUF, TOK = "kefir_preprocessor_directive", "kefir_token_buffer", "kefir_token"
LINES = ("text", "if", "ifdef", "ifndef", "elif", "else", "endif", "define", "undef", "include", "error", "empty", "unknown", "pragma", "line")


class PPWorld(sem.World):
    def __init__(self, prog):
        super().__init__(prog)
        self.it.depth = 40
        self.it.xkey = lambda x: repr(sorted(x.items(), key=repr))
        self.pp = new("pp")
        P = "kefir_preprocessor"
        self.setup(self.pp, self.st)

    def setup(self, pp, st, depth=0):
        P = "kefir_preprocessor"
        st.ranges = st.ranges + ((pp[1], pp[2], None, 0),) if depth == 0 else st.ranges
        ctx, loc, sc = new("ppctx"), new("locator"), new("scope")
        self.put(pp, P, "context", ctx, st)
        self.put(pp, P, "macros", sc, st)
        self.put(pp, P, "extensions", 0, st)
        self.put(pp, P, "current_filepath", cstr("file"), st)
        self.put(ctx, "kefir_preprocessor_context", "source_locator", loc, st)
        self.put(ctx, "kefir_preprocessor_context", "ast_context", new("ppast"), st)
        self.put(loc, "kefir_preprocessor_source_locator", "open", ("fn", "pp.open"), st)
        self.put(sc, "kefir_preprocessor_macro_scope", "locate", ("fn", "pp.locate"), st)
        self.put(pp, P, "lexer.symbols", new("ppsym"), st)
        self.put(pp, P, "lexer.context", new("ppctxl"), st)
        cur = new(("cursor", depth))
        self.put(pp, P, "lexer.cursor", cur, st)
        sca = absint.ptradd(pp, self.off(P, "directive_scanner.lexer"))
        self.put(sca, "kefir_preprocessor_directive_scanner", "lexer", absint.ptradd(pp, self.off(P, "lexer.symbols")), st)
        return sca

    # ---------------------------------------------------------------- token buffers as lists
    def get(self, st, b):
        return st.x.get("bufs", {}).get(b)

    def setbuf(self, st, b, toks):
        bufs = dict(st.x.get("bufs", {}))
        bufs[b] = tuple(toks)
        st.x["bufs"] = bufs
        self.put(b, BUF, "length", len(toks), st)
        arr = new(("tokens", b))
        self.put(b, BUF, "tokens", arr if toks else 0, st)
        size = self.tsize()
        for i, t in enumerate(toks):
            self.put(absint.ptradd(arr, i * size), TOK, "klass", self.enum["KEFIR_TOKEN_" + t[0]], st)
            if t[0] == "PP_HEADER_NAME":
                self.put(absint.ptradd(arr, i * size), TOK, "pp_header_name.header_name", cstr(t[1]), st)
                self.put(absint.ptradd(arr, i * size), TOK, "pp_header_name.system", 0, st)

    def tsize(self):
        if not hasattr(self, "_ts"):
            self._ts = self.it._types(self.fn("kefir_preprocessor_run").unit).layout("%struct.kefir_token")[0]
        return self._ts

    def token(self, st, p):
        t = st.x.get("toks", {}).get(p)
        if t is None:
            raise Unknown("a token of unknown origin")
        return t

    def settoken(self, st, p, t):
        d = dict(st.x.get("toks", {}))
        d[p] = t
        st.x["toks"] = d

    def base_models(self):
        super().base_models()
        M, E = self.models, lambda n: self.enum[n]

        def model(name):
            def deco(f):
                def g(it, st, ins, a):
                    r = f(st, *a)
                    return r if isinstance(r, list) else [(r or 0, st)]
                M[name] = g
                return f
            return deco

        @model("kefir_token_buffer_init")
        def _(st, b):
            self.setbuf(st, b, ())

        @model("kefir_token_buffer_free")
        def _(st, mem, b):
            if self.get(st, b) is None:
                raise Bad("a token buffer is released twice or before it is initialised")
            bufs = dict(st.x["bufs"])
            del bufs[b]
            st.x["bufs"] = bufs

        @model("kefir_token_buffer_emplace")
        def _(st, mem, b, t):
            self.setbuf(st, b, self.buf(st, b) + (self.token(st, t),))
            self.settoken(st, t, ("SENTINEL", None))

        @model("kefir_token_buffer_insert")
        def _(st, mem, dst, src):
            self.setbuf(st, dst, self.buf(st, dst) + self.buf(st, src))
            self.setbuf(st, src, ())

        @model("kefir_token_buffer_pop")
        def _(st, mem, b):
            if not self.buf(st, b):
                return E("KEFIR_OUT_OF_BOUNDS")
            self.setbuf(st, b, self.buf(st, b)[:-1])

        @model("kefir_token_new_sentinel")
        def _(st, t):
            self.settoken(st, t, ("SENTINEL", None))

        @model("kefir_token_free")
        def _(st, mem, t):
            pass

        # ------------------------------------------------ the directive scanner: a position in a list of lines
        def where(st, sc):
            pos = st.x["pos"].get(sc)
            if pos is None:
                raise Unknown("a directive scanner of unknown origin")
            return pos

        def setpos(st, sc, pos):
            d = dict(st.x["pos"])
            d[sc] = pos
            st.x["pos"] = d

        @model("kefir_preprocessor_directive_scanner_save")
        def _(st, sc, state):
            d = dict(st.x.get("saved", {}))
            d[state] = where(st, sc)
            st.x["saved"] = d

        @model("kefir_preprocessor_directive_scanner_restore")
        def _(st, sc, state):
            p = st.x.get("saved", {}).get(state)
            if p is None:
                raise Bad("a scanner position is restored that was not saved")
            setpos(st, sc, p)

        @model("kefir_preprocessor_directive_scanner_skip_line")
        def _(st, sc):
            f, i, mid = where(st, sc)
            setpos(st, sc, (f, min(i + 1, len(self.files(st)[f])), 0))

        def dirtype(name):
            return E("KEFIR_PREPROCESSOR_DIRECTIVE_" + {"text": "PP_TOKEN", "unknown": "NON"}.get(name, name.upper()))

        @model("kefir_preprocessor_directive_scanner_match")
        def _(st, mem, sc, out):
            f, i, mid = where(st, sc)
            lines = self.files(st)[f]
            if i >= len(lines):
                self.it.store(st, out, dirtype("sentinel"))
                return 0
            k = lines[i][0]
            self.it.store(st, out, dirtype("text" if mid else k))
            if k != "text":
                setpos(st, sc, (f, i, 1))

        @model("kefir_preprocessor_directive_scanner_next")
        def _(st, mem, sc, d):
            f, i, mid = where(st, sc)
            lines = self.files(st)[f]
            if mid:
                raise Bad("the rest of a directive line is read as text")
            if i >= len(lines):
                self.put(d, DIR, "type", dirtype("sentinel"), st)
                return 0
            ln = lines[i]
            k = ln[0]
            setpos(st, sc, (f, i + 1, 0))
            self.put(d, DIR, "type", dirtype(k), st)
            at = lambda m: absint.ptradd(d, self.off(DIR, m))
            if k == "text":
                self.settoken(st, at("pp_token.klass"), ("IDENTIFIER", ln))
            elif k in ("if", "elif", "error", "line", "pragma", "unknown"):
                self.setbuf(st, at("pp_tokens.tokens"), [("IDENTIFIER", ln)])
            elif k == "include":
                self.setbuf(st, at("pp_tokens.tokens"), [("PP_HEADER_NAME", ln[1])])
            elif k in ("ifdef", "ifndef"):
                self.put(d, DIR, "ifdef_directive.identifier", cstr(ln[1]), st)
            elif k == "undef":
                self.put(d, DIR, "undef_directive.identifier", cstr(ln[1]), st)
            elif k == "define":
                self.put(d, DIR, "define_directive.object", 1, st)
                self.put(d, DIR, "define_directive.identifier", cstr(ln[1]), st)
                self.setbuf(st, at("define_directive.replacement.tokens"), [("IDENTIFIER", ln)])

        # ------------------------------------------------ macros
        @model("kefir_preprocessor_run_substitutions")
        def _(st, mem, pp, b, mode):
            cond = st.known(mode) == E("KEFIR_PREPROCESSOR_SUBSTITUTION_IF_CONDITION")
            out = []
            for t in self.buf(st, b):
                if len(t) > 2:
                    raise Bad("the same text is macro-expanded twice")
                out.append(t + (("condition" if cond else "text", st.x["macros"]),) if t[0] == "IDENTIFIER" else t)
            self.setbuf(st, b, out)

        @model("pp.locate")
        def _(st, sc, ident, out):
            nm = self.it_name(st, ident)
            if nm in st.x["macros"]:
                self.it.store(st, out, new(("macro", nm)))
                return 0
            return E("KEFIR_NOT_FOUND")

        def new_macro(st, mem, sym, ident):
            nm = self.it_name(st, ident)
            st.x["nm"] = st.x.get("nm", 0) + 1
            m = new(("usermacro", nm, st.x["nm"]))
            self.setbuf(st, absint.ptradd(m, self.off("kefir_preprocessor_user_macro", "replacement.tokens")), ())
            return [(m, st)]
        model("kefir_preprocessor_user_macro_new_object")(new_macro)
        model("kefir_preprocessor_user_macro_new_function")(new_macro)
        model("kefir_preprocessor_user_macro_free")(lambda st, *a: 0)

        @model("kefir_preprocessor_user_macro_scope_insert")
        def _(st, mem, scope, macro):
            st.x["macros"] = st.x["macros"] | {macro[1][1][1]}

        @model("kefir_preprocessor_user_macro_scope_remove")
        def _(st, mem, scope, ident):
            st.x["macros"] = st.x["macros"] - {self.it_name(st, ident)}

        # ------------------------------------------------ conditions
        @model("kefir_preprocessor_token_convert_condition")
        def _(st, mem, pp, dst, src):
            self.setbuf(st, dst, self.buf(st, src))

        @model("kefir_parser_token_cursor_init")
        def _(st, cur, toks, n):
            for b, t in st.x["bufs"].items():
                if t and toks == new(("tokens", b)) and st.known(n) == len(t):
                    st.x["cond"] = t
                    return 0
            st.x["cond"] = ()
        model("kefir_parser_init")(lambda st, *a: 0)
        model("kefir_parser_free")(lambda st, *a: 0)

        @model("kefir_parser_apply")
        def _(st, mem, parser, res, fn, payload):
            t = st.x.get("cond")
            if not t:
                raise Bad("a condition without tokens is parsed")
            n = new(("condition", t))
            kl = new("condklass")
            self.put(n, "kefir_ast_node_base", "klass", kl, st)
            self.put(kl, "kefir_ast_node_class", "free", ("fn", "pp.freenode"), st)
            self.it.store(st, res, n)
        model("pp.freenode")(lambda st, *a: 0)
        model("kefir_ast_analyze_node")(lambda st, *a: 0)

        @model("kefir_ast_constant_expression_value_evaluate")
        def _(st, mem, ctx, node, val):
            (t,), S = node[1][1][1], "kefir_ast_constant_expression_value"
            if len(t) != 3 or t[2] != ("condition", st.x["macros"]):
                raise Bad("a condition is evaluated without macro expansion in condition mode")
            self.put(val, S, "klass", E("KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER"), st)
            self.put(val, S, "integer", ("condval", t[1][1]), st)
            st.ev("COND", t[1][1])

        # ------------------------------------------------ inclusion
        @model("pp.open")
        def _(st, mem, loc, path, system, cur, out):
            nm = self.it_name(st, path)
            if nm not in self.files(st):
                return E("KEFIR_NOT_FOUND")
            F = "kefir_preprocessor_source_file"
            self.put(out, F, "filepath", cstr(nm), st)
            self.put(out, F, "close", ("fn", "pp.close"), st)
        model("pp.close")(lambda st, *a: 0)

        @model("kefir_preprocessor_init")
        def _(st, mem, pp, sym, cursor, lctx, ctx, path, ext):
            sc = self.setup(pp, st, len(st.x["pos"]))
            setpos(st, sc, (self.it_name(st, path), 0, 0))
        model("kefir_preprocessor_free")(lambda st, *a: 0)

        @model("kefir_preprocessor_format_string")
        def _(st, mem, out, n, buf, fmt):
            self.it.store(st, out, new("errtext"))
            st.ev("ERROR")
        for n in ("kefir_list_free", "kefir_list_move_all"):
            M[n] = lambda it, st, ins, a: [(0, st)]

        @model("strtoul")
        def _(st, *a):
            raise Unknown("number")

    def buf(self, st, b):
        r = self.get(st, b)
        if r is None:
            raise Bad("a token buffer is used that is not initialised")
        return r

    def files(self, st):
        return st.x["files"]

    def it_name(self, st, p):
        if isinstance(p, tuple) and p[0] == "ptr" and isinstance(p[1], tuple) and p[1][0] == "new" and isinstance(p[1][1], tuple) and p[1][1][0] == "str":
            return p[1][1][1]
        raise Unknown("a name that is not known")

    def process(self, files):
        """-> [(status, text, facts, errors)] for the main file"""
        st = self.st.copy()
        st.x = dict(st.x, files=files, pos={}, macros=frozenset(), bufs={}, toks={}, saved={})
        sca = absint.ptradd(self.pp, self.off("kefir_preprocessor", "directive_scanner.lexer"))
        st.x["pos"] = {sca: ("main", 0, 0)}
        out = new("output")
        self.setbuf(st, out, ())
        res = []
        for v, s in self.it.run(self.fn("kefir_preprocessor_run"), [self.mem, self.pp, out], st):
            if v is None:
                continue
            v = s.known(v)
            if not isinstance(v, int):
                raise Unknown("the outcome is not determined")
            res.append((v, self.get(s, out), s))
        return res


# ---------------------------------------------------------------- C's rules
class Malformed(Exception):
    pass


class Ref:
    """evaluates a file under an assignment of truth values to conditions; asks lazily"""
    def __init__(self, files, value):
        self.files, self.value = files, value
        self.macros, self.out = frozenset(), []

    def run(self, name, depth=0):
        if depth > 3:
            raise Malformed("nesting")
        lines = self.files[name]
        stack = []      # [taken before, active, seen else, parent active]
        for ln in lines:
            k = ln[0]
            act = all(s[1] for s in stack)
            if k in ("if", "ifdef", "ifndef"):
                c = False
                if act:
                    c = self.value(ln[1]) if k == "if" else (ln[1] in self.macros) == (k == "ifdef")
                stack.append([c, c, False, act])
            elif k in ("elif", "else", "endif"):
                if not stack:
                    raise Malformed("#%s without #if" % k)
                s = stack[-1]
                if k == "endif":
                    stack.pop()
                    continue
                if s[2]:
                    if not s[3]:
                        raise Opaque()
                    raise Malformed("#%s after #else" % k)
                if k == "else":
                    s[1], s[2] = not s[0], True
                    s[0] = True
                elif s[0] or not s[3]:
                    s[1] = False
                else:
                    s[1] = s[0] = self.value(ln[1])
            elif not act:
                continue
            elif k == "text":
                self.out.append((ln, self.macros))
            elif k == "define":
                self.macros = self.macros | {ln[1]}
            elif k == "undef":
                self.macros = self.macros - {ln[1]}
            elif k == "error":
                raise Malformed("#error")
            elif k == "include":
                self.run(ln[1], depth + 1)
        if stack:
            raise Malformed("#if without #endif")
        return self.out


class Opaque(Exception):
    """#else twice within a skipped group"""


class NeedValue(Exception):
    pass


def lshow(files):
    return " | ".join((n + ": " if n != "main" else "") + "; ".join("#" + " ".join(map(str, ln)) if ln[0] != "text" else str(ln[1]) for ln in f)
                      for n, f in sorted(files.items(), key=lambda x: x[0] != "main"))


def check(w, files):
    """-> list of (rule, message)"""
    bad, seen = [], 0
    try:
        outs = w.process(files)
    except Bad as e:
        return [("state", str(e))], 0
    for v, buf, s in outs:
        asked = set()

        def value(c):
            asked.add(c)
            t = s.known(("condval", c))
            f = s.facts.get(("condval", c))
            if t is not None:
                r = t != 0
            elif f is None:
                raise NeedValue(c)
            else:
                r = not (f[0] == "in" and set(f[1]) == {0}) if f[0] == "in" else 0 in f[1]
            return r
        try:
            want = Ref(files, value).run("main")
            why = None
        except Malformed as e:
            want, why = None, str(e)
        except Opaque:
            seen += 1
            continue
        except NeedValue as e:
            bad.append(("conditional", "condition %s is not evaluated on a path where it decides what is included" % e))
            continue
        seen += 1
        if want is None:
            if v == 0:
                bad.append(("unterminated" if why == "#if without #endif" else "structure", "accepted although it has %s" % why))
            continue
        if v != 0:
            bad.append(("structure", "rejected although it is well formed (status %d)" % v))
            continue
        useless = sorted({str(e[1]) for e in s.trace if e[0] == "COND"} - {str(c) for c in asked})
        if useless:
            bad.append(("conditional", "condition %s is evaluated although it decides nothing" % useless[0]))
        got = [(t[1], t[2][1]) if t[0] == "IDENTIFIER" and len(t) > 2 else (t[0], None) for t in buf]
        exp = want + [("SENTINEL", None)]
        if [g[0] for g in got] != [e[0] for e in exp]:
            sh = lambda l: " ".join(str(x[0][1]) if isinstance(x[0], tuple) else "<end>" if x[0] == "SENTINEL" else "<unexpanded>" for x in l)
            bad.append(("conditional", "it yields '%s' instead of '%s'" % (sh(got), sh(exp))))
        elif got != exp:
            g, e = next((g, e) for g, e in zip(got, exp) if g != e)
            bad.append(("expansion", "text %s is expanded with macros {%s} in force instead of {%s}" % (e[0][1], ",".join(sorted(g[1] or ())), ",".join(sorted(e[1])))))
    return bad, seen


# ---------------------------------------------------------------- what is enumerated
def number(kinds):
    out, t, c = [], 0, 0
    for k in kinds:
        if k == "text":
            t += 1
            out.append(("text", "t%d" % t))
        elif k in ("if", "elif"):
            c += 1
            out.append((k, "c%d" % c))
        elif k in ("ifdef", "ifndef", "define", "undef"):
            out.append((k, "M"))
        elif k == "include":
            out.append((k, "h"))
        else:
            out.append((k,))
    return tuple(out)


def cases(thorough):
    al = ("text", "if", "elif", "else", "endif")
    for n in range(0, 7 if thorough else 6):
        for ks in itertools.product(al, repeat=n):
            yield "sequences of conditional directives", {"main": number(ks)}

    def groups(n, al, depth):
        """well formed groups of n lines"""
        if n == 0:
            yield ()
            return
        for a in al:
            for r in groups(n - 1, al, depth):
                yield (a,) + r
        if depth > 0:
            for first in ("if", "ifdef", "ifndef"):
                for k in range(0, n - 1):
                    for b1 in groups(k, al, depth - 1):
                        for mid in ((), ("else",), ("elif",), ("elif", "else")):
                            m = n - 2 - k - len(mid)
                            if m < 0:
                                continue
                            for split in range(m + 1) if len(mid) > 0 else (0,):
                                for tail in range(0, m - split + 1):
                                    if not mid and split:
                                        continue
                                    for b2 in groups(split, al[:1], 0):
                                        for rest in groups(m - split, al, depth - 1):
                                            if mid == ():
                                                yield (first,) + b1 + ("endif",) + rest
                                            elif len(mid) == 1:
                                                yield (first,) + b1 + mid + b2 + ("endif",) + rest
                                            else:
                                                yield (first,) + b1 + (mid[0],) + b2 + (mid[1],) + ("text",) + ("endif",) + rest
                                    break
    seen = set()
    for n in range(1, 7 if thorough else 6):
        for ks in groups(n, ("text", "define", "undef"), 2):
            if ks not in seen and sum(k in ("define", "undef", "ifdef", "ifndef") for k in ks):
                seen.add(ks)
                yield "well formed groups with macros", {"main": number(ks)}
    for extra in ("error", "empty", "unknown", "include", "pragma"):
        for ks in [("text", extra, "text"), ("if", extra, "endif", "text"), ("if", "text", "else", extra, "endif"), ("if", "if", extra, "endif", "text", "endif"),
                   ("text", "if", extra, "elif", "text", "endif"), ("define", "text", extra, "ifdef", "text", "endif"), ("if", extra, "elif", extra, "else", extra, "endif"),
                   ("text", "define", extra, "text", "undef", extra, "text")]:
            for h in [("text",), ("text", "define", "text"), ("undef",), ("if", "text", "endif", "text"), ("if", "text"), ("endif",), ("else",), ("text", "endif", "text")] if extra == "include" else [()]:
                f = {"main": number(ks)}
                if extra == "include":
                    f["h"] = tuple((k if k in ("text",) else k, "h" + v[0]) if (k in ("text", "if", "elif") and v) else (k,) + tuple(v) for k, *v in number(h))
                yield "other directives", f
    deep = ("if", "if", "if", "text", "elif", "text", "else", "text", "endif", "text", "else", "if", "text", "endif", "text", "endif", "else", "text", "if", "text", "endif", "endif", "text")
    yield "nested conditionals", {"main": number(deep)}
    for i in range(len(deep)):
        yield "nested conditionals", {"main": number(deep[:i] + deep[i + 1:])}
    for i in range(len(deep)):
        for k in ("else", "elif", "endif"):
            yield "nested conditionals", {"main": number(deep[:i] + (k,) + deep[i:])}


def scan(w, text):
    """what the directive scanner takes a line to be, and how far it reads: [(status, directive, position)]"""
    st = w.st.copy()
    st.x = dict(st.x, cpos=0, csave={})
    at = lambda st, k: ord(text[st.x["cpos"] + k]) if st.x["cpos"] + k < len(text) else 0

    def m_next(it, st, ins, a):
        st.x["cpos"] = min(len(text), st.x["cpos"] + a[1])
        return [(0, st)]

    def m_save(it, st, ins, a):
        st.x["csave"] = dict(st.x["csave"])
        st.x["csave"][a[1]] = st.x["cpos"]
        return [(0, st)]

    def m_restore(it, st, ins, a):
        if a[1] not in st.x["csave"]:
            raise Bad("a source position is restored that was not saved")
        st.x["cpos"] = st.x["csave"][a[1]]
        return [(0, st)]
    M = w.it.models
    M["kefir_lexer_source_cursor_at"] = lambda it, st, ins, a: [(at(st, a[1]), st)]
    M["kefir_lexer_source_cursor_next"], M["kefir_lexer_source_cursor_save"], M["kefir_lexer_source_cursor_restore"] = m_next, m_save, m_restore
    w.put(new("ppctxl"), "kefir_lexer_context", "newline", 10, st)
    out = new("dt")
    sca = absint.ptradd(w.pp, w.off("kefir_preprocessor", "directive_scanner.lexer"))
    r = w.it.run(w.fn("kefir_preprocessor_directive_scanner_match"), [w.mem, sca, out], st)
    return [(s.known(v), s.known(w.it.load(s, out, "i32")), s.x["cpos"]) for v, s in r if v is not None]


def names(w, r):
    en = {v: n[len("KEFIR_PREPROCESSOR_DIRECTIVE_"):] for n, v in w.enum.items() if n.startswith("KEFIR_PREPROCESSOR_DIRECTIVE_")}
    kn = ("if", "ifdef", "ifndef", "elif", "else", "endif", "include", "define", "undef", "error", "line")
    site = w.fn("kefir_preprocessor_directive_scanner_match")

    def expect(text, want, pos):
        r.count("directive lines classified", 1)
        try:
            got = scan(w, text)
        except (Bad, Unknown) as e:
            r.find("names", "%s:%s" % (site.file, site.line), "the line %r: %s" % (text, e), func=site.name, ident="names|" + repr(text).replace(" ", "_"))
            return
        g = [(v, en.get(d), p) for v, d, p in got]
        if len(g) != 1 or g[0][0] != 0 or g[0][1] not in want or pos is not None and g[0][2] != pos:
            r.find("names", "%s:%s" % (site.file, site.line), "the line %r is taken for %s, read up to column %s; expected %s, %s" %
                   (text, g[0][1] if g else "nothing", g[0][2] if g else "-", "/".join(want), pos), func=site.name, ident="names|" + repr(text).replace(" ", "_"))
    for n in kn:
        for pre in ("#", "  #", "# ", "\t#\t "):
            for rest in ("\n", " x\n", "", "(1)\n", "\tx y"):
                expect(pre + n + rest, (n.upper(),), len(pre + n))
        expect("#%sx 1\n" % n, ("NON",), None)
        expect(n + " 1\n", ("PP_TOKEN",), 0)
        expect("#" + n[:-1] + "\n", (n[:-1].upper(),) if n[:-1] in kn else ("NON",), None)
        expect("#" + n.upper() + "\n", ("NON",), None)
    expect("#pragma x\n", ("PRAGMA", "NON"), None)
    expect("#\n", ("EMPTY",), None)
    expect("  # \n", ("EMPTY",), None)
    expect("", ("SENTINEL",), None)
    expect("  ", ("SENTINEL",), None)
    expect("\n#if", ("PP_TOKEN",), 0)
    expect("a # if\n", ("PP_TOKEN",), 0)
    expect("  a\n", ("PP_TOKEN",), 0)


_W = _CASES = None
CHUNKS = 64


def _chunk(k):
    out = []
    n = len(_CASES)
    for fam, f in _CASES[k::CHUNKS]:
        try:
            bad, seen = check(_W, f)
        except Unknown as e:
            bad, seen = [("unknown", str(e))], 0
        out.append((fam, f, bad, seen))
    return out


FUNC = {"conditional": "kefir_preprocessor_run_group", "structure": "kefir_preprocessor_run", "expansion": "kefir_preprocessor_run_group",
        "state": "kefir_preprocessor_run_group", "unterminated": "kefir_preprocessor_run"}


def c29(tier):
    import multiprocessing as mp
    global _W, _CASES
    r = Result()
    r.rules = ["conditional: exactly the text of the groups C17 6.10.1 selects is passed on, in order, whatever the conditions evaluate to",
               "structure: unbalanced or misplaced conditional directives are rejected and well formed files are not (6.10p1)",
               "unterminated: a conditional that no #endif closes is rejected (6.10p1)",
               "expansion: every piece of text is macro-expanded once, with the macros defined at its line in force (6.10.3.5)",
               "names: the scanner tells the directives apart by name, also with blanks around the #, and leaves other lines alone",
               "state: token buffers and scanner positions are used consistently"]
    _W = PPWorld(ir.load_program())
    _CASES = list(cases(tier == "thorough"))
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        parts = pool.map(_chunk, range(CHUNKS), chunksize=1)
    names(_W, r)
    found, und, last = {}, 0, None
    for fam, f, bad, seen in (x for p in parts for x in p):
        r.count(fam, 1)
        r.count("paths compared", seen)
        for rule, msg in bad:
            if rule == "unknown":
                und += 1
                last = "%s: %s" % (lshow(f), msg)
            else:
                found.setdefault((rule, msg.split("'")[0]), []).append((lshow(f), msg))
    for (rule, _), l in sorted(found.items()):
        t, msg = min(l, key=lambda x: (len(x[0]), x))
        site = _W.fn(FUNC[rule])
        r.find(rule, "%s:%s" % (site.file, site.line), "%s: %s (and %d more)" % (t, msg, len(l) - 1), func=FUNC[rule], ident="%s|%s" % (rule, t.replace(" ", "_")) if rule != "unterminated" else rule)
    if und * 5 > len(_CASES) and not found:
        raise AnalysisBroken("%d of %d files cannot be decided, e.g. %s" % (und, len(_CASES), last))
    if und:
        r.count("undecided", und)
    r.samples = [lshow(c[1]) for c in _CASES[::max(1, len(_CASES) // 12)]]
    r.assume = ["the directive scanner delivers the lines of the file in order; token buffers are lists; macro expansion and evaluation of conditions are opaque, and every condition may have either value"]
    if not found:
        r.need("paths compared", 1000)
    return r
