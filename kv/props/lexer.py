"""Tokens: kefir's preprocessing tokenizer and the conversion of preprocessing tokens are abstractly interpreted over texts whose
characters are unknown within finite sets; the token each path yields is compared with C17 6.4."""
import itertools
from .. import sem, absint
from ..core import Result
from ..ir import AnalysisBroken
from ..sem import Bad, Unknown, new

TOK = "kefir_token"
ASCII = frozenset(range(1, 128))
ANY = ASCII | {0xe9, 0x4e2d, 0x1f600}
S = lambda s: frozenset(map(ord, s))
DIGIT, LETTER = S("0123456789"), S("_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
IDCH, HEX, OCT, SPACE = DIGIT | LETTER, S("0123456789abcdefABCDEF"), S("01234567"), S(" \t\n\v\f\r")


class LexWorld(sem.World):
    def __init__(self, prog):
        super().__init__(prog)
        it = self.it
        it.depth, it.finite, it.MAXVISIT = 60, "ch", 64
        it.xkey = lambda x: repr(sorted(x.items(), key=repr))
        st = self.st
        self.lexer, self.cursor, self.ctx = new("lexer"), new("cursor"), new("lexctx")
        self.call1("kefir_lexer_context_default", [self.ctx])
        rs = [(v, s) for v, s in it.run(self.fn("kefir_lexer_init"), [self.mem, self.lexer, new("symbols"), self.cursor, self.ctx, 0], self.st.copy())]
        if len(rs) != 1 or rs[0][0] != 0:
            raise Bad("kefir_lexer_init: the token tables cannot be built (%r)" % [v for v, s in rs])
        self.st = rs[0][1]
        self.pp = new("pp")
        P = "kefir_preprocessor"
        o = self.off(P, "lexer.symbols") - self.off("kefir_lexer", "symbols")
        self.pplexer = absint.ptradd(self.pp, o)
        for (b, off), v in list(self.st.mem.items()):
            if b == self.lexer[1]:
                self.st.mem[(self.pp[1], off + o)] = v

    def base_models(self):
        super().base_models()
        M = self.models

        def mbrtoc32(it, st, ins, a):
            out, s, n, ps = a
            n = st.known(n)
            if n is None:
                raise Unknown("text of unknown length")
            if n == 0:
                return [(-2, st)]
            v = it.load(st, s, "i8")
            if isinstance(v, tuple) and v[0] in ("ld", "uninit"):
                raise Bad("reads past the end of the text")
            if v == 0:
                it.store(st, out, 0)
                return [(0, st)]
            if out != 0:
                it.store(st, out, v)
            return [(1, st)]
        M["mbrtoc32"] = mbrtoc32

        def narrow(it, st, ins, a):
            it.store(st, a[0], a[1])
            return [(1, st)]
        M["c32rtomb"] = narrow

        def wide(it, st, ins, a):
            v = it.load(st, a[1], "i8")
            it.store(st, a[0], v)
            return [(0 if v == 0 else 1, st)]
        M["mbrtowc"] = M["mbrtoc16"] = wide

        def strlen(it, st, ins, a):
            return [(len(self.text(st, a[0])), st)]
        M["strlen"] = strlen

        def symbol(it, st, ins, a):
            t = self.text(st, a[2])
            p = new(("symbol", t))
            for i, c in enumerate(t + (0,)):
                it.store(st, absint.ptradd(p, i), c)
            return [(p, st)]
        M["kefir_symbol_table_insert"] = symbol

        def conv(kind):
            def m(it, st, ins, a):
                return [((kind, self.text(st, a[0])), st)]
            return m
        for k in ("strtof", "strtod", "strtold"):
            M[k] = conv(k)

    def text(self, st, p, n=None):
        out = []
        while n is None or len(out) < n:
            v = self.it.load(st, absint.ptradd(p, len(out)), "i8")
            if isinstance(v, tuple) and v[0] in ("ld", "uninit"):
                raise Bad("a string is read past its end")
            k = st.known(v)
            if n is None and k == 0:
                break
            out.append(k if k is not None else absint.strip(v))
            if len(out) > 2000:
                raise Bad("a string is not terminated")
        return tuple(out)

    # ---------------------------------------------------------------- running
    def start(self, text):
        """text: characters, or sets of characters"""
        st = self.st.copy()
        p = new("text")
        for i, c in enumerate(text):
            if isinstance(c, frozenset) and len(c) > 1:
                st.facts[("ch", i)] = ("in", c)
                c = ("ch", i)
            elif isinstance(c, frozenset):
                c = next(iter(c))
            self.it.store(st, absint.ptradd(p, i), ord(c) if isinstance(c, str) else c)
        rs = self.it.run(self.fn("kefir_lexer_source_cursor_init"), [self.cursor, p, len(text), new("srcid")], st)
        if len(rs) != 1 or rs[0][0] != 0:
            raise Bad("kefir_lexer_source_cursor_init fails")
        return rs[0][1]

    def pos(self, st):
        return st.known(self.load(self.cursor, "kefir_lexer_source_cursor", "index", st))

    def line(self, st):
        return (st.known(self.load(self.cursor, "kefir_lexer_source_cursor", "location.line", st)),
                st.known(self.load(self.cursor, "kefir_lexer_source_cursor", "location.column", st)))

    def sets(self, st, text):
        out = []
        for i, c in enumerate(text):
            f = st.facts.get(("ch", i))
            out.append(f[1] if f else frozenset([ord(c) if isinstance(c, str) else c]) if not isinstance(c, frozenset) else c)
        return out

    def token(self, st, t):
        E = self.enum
        g = lambda m: self.load(t, TOK, m, st)
        k = st.known(g("klass"))
        name = next((n[len("KEFIR_TOKEN_"):] for n, v in E.items() if n.startswith("KEFIR_TOKEN_") and v == k), None)
        if name == "IDENTIFIER":
            return (name, self.text(st, g("identifier")))
        if name == "PUNCTUATOR":
            return (name, st.known(g("punctuator")))
        if name == "KEYWORD":
            return (name, st.known(g("keyword")))
        if name == "PP_NUMBER":
            return (name, self.text(st, g("pp_number.number_literal")))
        if name == "PP_WHITESPACE":
            return (name, st.known(g("pp_whitespace.newline")))
        if name == "CONSTANT":
            ty = st.known(g("constant.type"))
            cn = next(n[len("KEFIR_CONSTANT_TOKEN_"):] for n, v in E.items() if n.startswith("KEFIR_CONSTANT_TOKEN_") and v == ty)
            return (name, cn, g("constant.integer"))
        if name == "STRING_LITERAL":
            ty = st.known(g("string_literal.type"))
            cn = next(n[len("KEFIR_STRING_LITERAL_TOKEN_"):] for n, v in E.items() if n.startswith("KEFIR_STRING_LITERAL_TOKEN_") and v == ty)
            n = st.known(g("string_literal.length"))
            step = {"MULTIBYTE": 1, "UNICODE8": 1, "UNICODE16": 2, "UNICODE32": 4, "WIDE": 4}[cn]
            b = g("string_literal.literal")
            return (name, cn, tuple(self.it.load(st, absint.ptradd(b, i * step), "i8") for i in range(n)))
        return (name,)

    def pptoken(self, text):
        """outcomes of reading one preprocessing token: (status, token, position, sets, state)"""
        st = self.start(text)
        out = new("tok")
        res = []
        self.it.cut.clear()
        for v, s in self.it.run(self.fn("kefir_preprocessor_tokenize_next"), [self.mem, self.lexer, out], st):
            res.append((v, self.token(s, out) if v == 0 else None, self.pos(s), self.sets(s, text), s))
        if self.it.cut:
            raise Unknown("a loop over the text was not followed to its end: %s" % sorted(self.it.cut))
        return res


# -------------------------------------------------------------------- C17 6.4, over texts known up to sets of characters
PUNCT = {
    "[": "LEFT_BRACKET", "]": "RIGHT_BRACKET", "(": "LEFT_PARENTHESE", ")": "RIGHT_PARENTHESE", "{": "LEFT_BRACE", "}": "RIGHT_BRACE",
    ".": "DOT", "->": "RIGHT_ARROW", "++": "DOUBLE_PLUS", "--": "DOUBLE_MINUS", "&": "AMPERSAND", "*": "STAR", "+": "PLUS", "-": "MINUS",
    "~": "TILDE", "!": "EXCLAMATION_MARK", "/": "SLASH", "%": "PERCENT", "<<": "LEFT_SHIFT", ">>": "RIGHT_SHIFT", "<": "LESS_THAN",
    ">": "GREATER_THAN", "<=": "LESS_OR_EQUAL", ">=": "GREATER_OR_EQUAL", "==": "EQUAL", "!=": "NOT_EQUAL", "^": "CARET", "|": "VBAR",
    "&&": "DOUBLE_AMPERSAND", "||": "DOUBLE_VBAR", "?": "QUESTION_MARK", ":": "COLON", ";": "SEMICOLON", "...": "ELLIPSIS", "=": "ASSIGN",
    "*=": "ASSIGN_MULTIPLY", "/=": "ASSIGN_DIVIDE", "%=": "ASSIGN_MODULO", "+=": "ASSIGN_ADD", "-=": "ASSIGN_SUBTRACT",
    "<<=": "ASSIGN_SHIFT_LEFT", ">>=": "ASSIGN_SHIFT_RIGHT", "&=": "ASSIGN_AND", "^=": "ASSIGN_XOR", "|=": "ASSIGN_OR", ",": "COMMA",
    "#": "HASH", "##": "DOUBLE_HASH", "<:": "DIGRAPH_LEFT_BRACKET", ":>": "DIGRAPH_RIGHT_BRACKET", "<%": "DIGRAPH_LEFT_BRACE",
    "%>": "DIGRAPH_RIGHT_BRACE", "%:": "DIGRAPH_HASH", "%:%:": "DIGRAPH_DOUBLE_HASH"}
KEYWORDS = ("auto break case char const continue default do double else enum extern float for goto if inline int long register restrict "
            "return short signed sizeof static struct switch typedef union unsigned void volatile while _Alignas _Alignof _Atomic _Bool "
            "_Complex _Generic _Imaginary _Noreturn _Static_assert _Thread_local").split()
EXTENSIONS = ("asm", "__asm__", "__attribute__")
SIMPLE = {"'": 39, '"': 34, "?": 63, "\\": 92, "a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11}


class Ask:
    """answers questions about the characters of a text, splitting the sets where the answer is not the same for all members"""
    def __init__(self, sets, forced):
        self.sets, self.forced, self.made = list(sets), forced, []

    def phys(self, i, cs):
        if i >= len(self.sets):
            return False
        cur = self.sets[i]
        a = cur & cs
        if not a:
            return False
        if a == cur:
            return True
        k = len(self.made)
        d = self.forced[k] if k < len(self.forced) else True
        self.made.append(d)
        self.sets[i] = a if d else cur - cs
        return d

    def at(self, k):
        """position of the k-th logical character (a backslash before a newline joins lines)"""
        p = 0
        while True:
            while p + 1 < len(self.sets) and self.phys(p, S("\\")) and self.phys(p + 1, S("\n")):
                p += 2
            if k == 0 or p >= len(self.sets):
                return p
            p += 1
            k -= 1

    def __call__(self, k, cs):
        return self.phys(self.at(k), cs if isinstance(cs, frozenset) else S(cs))

    def end(self, k):
        return self.at(k) >= len(self.sets)

    def one(self, k):
        """the k-th logical character, one value at a time"""
        p = self.at(k)
        while len(self.sets[p]) > 1:
            self.phys(p, frozenset([min(self.sets[p])]))
        return next(iter(self.sets[p]))


def explore(spec, sets):
    todo, out = [[]], []
    while todo:
        f = todo.pop()
        a = Ask(sets, f)
        r = spec(a)
        out.append((a, r))
        for k in range(len(f), len(a.made)):
            if a.made[k]:
                todo.append(a.made[:k] + [False])
        if len(out) > 20000:
            raise AnalysisBroken("oracle explosion")
    return out


OPEN, ERR = ("open",), ("error",)


def escape(a, k):
    """escape sequence at logical k: (length, value element) or ERR/OPEN"""
    for c, v in SIMPLE.items():
        if a(k + 1, c):
            return 2, ("v", (), lambda v=v: v, "simple"), "simple"
    if a(k + 1, OCT):
        n = 1
        while n < 3 and a(k + 1 + n, OCT):
            n += 1
        ps = tuple(a.at(k + 1 + i) for i in range(n))
        return 1 + n, ("v", ps, lambda *c: sum((x - 48) << (3 * (len(c) - 1 - i)) for i, x in enumerate(c)), "num"), "num"
    if a(k + 1, "x"):
        if not a(k + 2, HEX):
            return ERR
        n = 1
        while a(k + 2 + n, HEX):
            n += 1
        ps = tuple(a.at(k + 2 + i) for i in range(n))
        return 2 + n, ("v", ps, lambda *c: int("".join(map(chr, c)), 16), "num"), "num"
    if a(k + 1, "uU"):
        n = 4 if a(k + 1, "u") else 8
        if not all(a(k + 2 + i, HEX) for i in range(n)):
            return ERR
        ps = tuple(a.at(k + 2 + i) for i in range(n))
        return 2 + n, ("v", ps, lambda *c: int("".join(map(chr, c)), 16), "ucn"), "ucn"
    return ERR


def spec_pptoken(a):
    if a.end(0):
        return ("tok", "SENTINEL", None, 0)
    # white space and comments
    k, nl = 0, False
    units = []
    while True:
        if a(k, SPACE):
            nl = nl or a(k, "\n")
            k += 1
        elif a(k, "/") and a(k + 1, "*"):
            j = k + 2
            while not (a(j, "*") and a(j + 1, "/")):
                if a.end(j):
                    return ERR if not units else OPEN
                j += 1
            k = j + 2
        elif a(k, "/") and a(k + 1, "/"):
            k += 2
            while not a.end(k) and not a(k, "\n"):
                k += 1
        else:
            break
        units.append((k, nl))
    if units:
        return ("ws", units)
    # character constants and string literals
    for q, prefixes in (("'", ("", "L", "u", "U")), ('"', ("", "u8", "u", "U", "L"))):
        for p in prefixes:
            if all(a(i, c) for i, c in enumerate(p)) and a(len(p), q):
                return quoted(a, p, q)
    # preprocessing numbers
    if a(0, DIGIT) or a(0, ".") and a(1, DIGIT):
        k = 1 if a(0, DIGIT) else 2
        while True:
            if a(k, "eEpP") and a(k + 1, "+-"):
                k += 2
            elif a(k, IDCH | S(".")):
                k += 1
            elif a(k, "\\") and a(k + 1, "uU"):
                return OPEN
            else:
                break
        return ("tok", "PP_NUMBER", [("c", a.at(i)) for i in range(k)], k)
    if a(0, LETTER):
        k = 1
        while a(k, IDCH):
            k += 1
        if a(k, "\\") and a(k + 1, "uU") or a(k, ANY - ASCII):
            return OPEN
        return ("tok", "IDENTIFIER", [("c", a.at(i)) for i in range(k)], k)
    if a(0, "\\") and a(1, "uU") or a(0, ANY - ASCII):
        return OPEN
    for n in (4, 3, 2, 1):
        for p in PUNCT:
            if len(p) == n and all(a(i, c) for i, c in enumerate(p)):
                return ("tok", "PUNCTUATOR", p, n)
    return OPEN      # a character that is a preprocessing token of its own


def quoted(a, p, q):
    k, els = len(p) + 1, []
    big = False
    while not a(k, q):
        if a.end(k):
            return ERR
        if a(k, "\n"):
            return ERR if q == '"' else OPEN
        if a(k, "\\"):
            e = escape(a, k)
            if e in (ERR, OPEN):
                return e
            n, el, kind = e
            els.append(el)
            big = big or kind == "num" and (len(el[1]) > 2)
            if kind == "ucn":
                big = True
            k += n
        else:
            if a(k, ANY - ASCII):
                big = True
            els.append(("c", a.at(k)))
            k += 1
    if q == "'":
        if not els:
            return ERR
        return ("tok", "CONSTANT", ({"": "CHAR", "L": "WIDE_CHAR", "u": "UNICODE16_CHAR", "U": "UNICODE32_CHAR"}[p], els, big), k + 1)
    return ("tok", "STRING_LITERAL", ({"": "MULTIBYTE", "u8": "UNICODE8", "u": "UNICODE16", "U": "UNICODE32", "L": "WIDE"}[p], els, big), k + 1)


evn = absint.ev_env


def assignments(sets, deps):
    """the assignments compared: all of them when few, otherwise each character over its set with the others at an extreme"""
    doms = [sorted(sets[d]) for d in deps]
    n = 1
    for d in doms:
        n *= len(d)
    if n <= 512:
        return list(itertools.product(*doms))
    out = set()
    for base in (tuple(d[0] for d in doms), tuple(d[-1] for d in doms)):
        for i, d in enumerate(doms):
            for x in d:
                out.add(base[:i] + (x,) + base[i + 1:])
    return sorted(out)


def feasible(st, env):
    """do the comparisons assumed on this path hold for the assignment?"""
    for t, f in st.facts.items():
        if isinstance(t, tuple) and t[0] == "icmp" and f[0] == "in" and len(f[1]) == 1:
            a, b = evn(t[2], env), evn(t[3], env)
            if a is not None and b is not None and int(absint.fold_icmp(t[1], a, b, "i64")) not in f[1]:
                return False
    return True


def same(st, got, el, sets, width, signed=False, cond=None):
    """does the term equal the element for every assignment of the characters it depends on?"""
    if el[0] == "c":
        deps, fn = (el[1],), lambda c: c
    else:
        deps, fn = el[1], el[2]
    extra = tuple(sorted({t[1] for t in absint.leaves(got, set(), "ch")} - set(deps)))
    for vs in assignments(sets, deps + extra):
        want = fn(*vs[:len(deps)])
        if cond and not cond(want):
            continue
        env = {("ch", d): v for d, v in zip(deps + extra, vs)}
        if not feasible(st, env):
            continue
        g = evn(got, env)
        if g is None:
            return "an unknown value %r" % (got,)
        m = (1 << width) - 1
        if signed:
            ok = absint.sgn(g, "i32") == absint.sgn(want, "i8")
        else:
            ok = g & m == want & m
        if not ok:
            return "%d where %d is required (for %s)" % (g, want, "".join(map(chr, vs)))
    return None


def show(sets):
    def ch(x):
        if len(x) == 1:
            c = chr(next(iter(x)))
            return {"\n": "\\n", "\t": "\\t", " ": " "}.get(c, c if c.isprintable() else "\\x%x" % ord(c))
        w = next((chr(c) for c in (97, 49, 48, 35, 64, 102) if c in x), None) or chr(max(c for c in x))
        return {"\n": "\\n"}.get(w, w if w.isprintable() else "\\x%x" % ord(w))
    return "".join(map(ch, sets))


class Checker:
    def __init__(self, w, r):
        self.w, self.r = w, r
        self.n = self.paths = 0

    def bad(self, where, text, msg):
        self.r.violation(where, "text `%s`: %s" % (text, msg))

    def pp(self, text, where="kefir_preprocessor_tokenize_next"):
        w = self.w
        self.n += 1
        try:
            outs = w.pptoken(text)
        except Bad as e:
            self.bad(where, show([c if isinstance(c, frozenset) else S(c) for c in text]), str(e))
            return
        for v, tok, pos, sets, st in outs:
            self.paths += 1
            if not isinstance(v, int):
                raise Unknown("a status that is not a constant: %r" % (v,))
            for a, want in explore(spec_pptoken, sets):
                m = self.judge(v, tok, pos, st, a, want)
                if m:
                    self.bad(where, show(a.sets), m)
                    break

    def judge(self, v, tok, pos, st, a, want):
        if want == OPEN:
            return None
        if want == ERR:
            if v == 0 and tok[0] == "IDENTIFIER" and pos is not None and a.phys(a.at(len(tok[1])), S("'\"")):
                return None     # the prefix of an invalid literal; what follows is rejected in turn
            return None if v != 0 else "accepted as %s; it is not a valid token" % self.name(tok)
        if want[0] == "tok" and want[1] in ("CONSTANT", "STRING_LITERAL"):
            cls, els, big = want[2]
            lim = {"CHAR": 1 << 8, "MULTIBYTE": 1 << 8, "UNICODE8": 1 << 8, "UNICODE16": 1 << 16}.get(cls)
            for el in els:
                if el[0] == "v" and el[1] and el[3] == "num" and lim:
                    some = {el[2](*vs) < lim for vs in assignments(a.sets, el[1]) if feasible(st, {("ch", d): x for d, x in zip(el[1], vs)})}
                    if not some:
                        return None     # no such path
                    if v == 0 and False in some:
                        return "accepted although an escape sequence exceeds the range of its type"
                    if v != 0 and some == {False}:
                        return None
        if v != 0:
            return "rejected; a token %s is required" % (want[1] if want[0] == "tok" else "(white space)")
        if pos is None:
            raise Unknown("cursor position not constant")
        # physical line
        consumed = a.sets[:pos]
        lines = sum(1 for s in consumed if s == S("\n"))
        if all(s == S("\n") or 10 not in s for s in consumed):
            ln = self.w.line(st)[0]
            if ln != 1 + lines:
                return "the line counted after it is %s instead of %d" % (ln, 1 + lines)
        if want[0] == "ws":
            if tok[0] != "PP_WHITESPACE":
                return "read as %s instead of white space" % self.name(tok)
            ok = [(k, nl) for k, nl in want[1] if a.at(k) == pos or self.between(a, k, pos)]
            if not ok:
                return "white space ends at offset %d, inside a comment or beyond it" % pos
            if bool(tok[1]) != ok[-1][1]:
                return "white space %s a newline is recorded %s one" % (("with", "without") if ok[-1][1] else ("without", "with"))
            return None
        _, kind, pay, end = want
        if tok[0] != kind:
            return "read as %s instead of %s" % (self.name(tok), kind if kind != "PUNCTUATOR" else "punctuator " + pay)
        if a.at(end) != pos and not self.between(a, end, pos):
            return "%s ends at offset %d instead of %d" % (self.name(tok), pos, a.at(end))
        if kind == "PUNCTUATOR":
            e = self.w.enum.get("KEFIR_PUNCTUATOR_" + PUNCT[pay])
            if e is None:
                raise AnalysisBroken("enumerator for punctuator %s not found" % pay)
            return None if tok[1] == e else "read as another punctuator (%s) than %s" % (self.name(tok), pay)
        if kind in ("IDENTIFIER", "PP_NUMBER"):
            if len(tok[1]) != len(pay):
                return "spelling of %d characters instead of %d" % (len(tok[1]), len(pay))
            for g, el in zip(tok[1], pay):
                m = same(st, g, el, a.sets, 32)
                if m:
                    return "spelling has " + m
            return None
        if kind == "CONSTANT":
            cls, els, big = pay
            if tok[1] != cls:
                return "a constant of type %s instead of %s" % (tok[1], cls)
            if len(els) > 1:
                return None     # implementation-defined value
            if cls == "CHAR":
                return same(st, tok[2], els[0], a.sets, 32, signed=True, cond=lambda x: x < 256 and not (big and els[0][0] == "c")) if els[0][0] == "c" or els[0][1] else \
                    same(st, tok[2], els[0], a.sets, 32)
            return same(st, tok[2], els[0], a.sets, 16 if cls == "UNICODE16_CHAR" else 32, cond=lambda x: x < 1 << 16 or cls != "UNICODE16_CHAR")
        if kind == "STRING_LITERAL":
            cls, els, big = pay
            if tok[1] != cls:
                return "a string of type %s instead of %s" % (tok[1], cls)
            if len(tok[2]) != len(els) + 1:
                return "a string of %d elements instead of %d" % (len(tok[2]), len(els) + 1)
            width = {"MULTIBYTE": 8, "UNICODE8": 8, "UNICODE16": 16}.get(cls, 32)
            for g, el in zip(tok[2], els):
                m = same(st, g, el, a.sets, width, cond=lambda x: x < 1 << width and (width > 8 or x < 128 or el[0] == "v"))
                if m:
                    return "element: " + m
            return None if self.w.it and st.known(tok[2][-1]) == 0 else "the string is not terminated by a null element"
        return None

    def between(self, a, k, pos):
        """pos lies before line splices that precede logical character k"""
        p = a.at(k)
        while pos < p:
            if pos + 1 < len(a.sets) and a.sets[pos] == S("\\") and a.sets[pos + 1] == S("\n"):
                pos += 2
            else:
                return False
        return pos == p

    def name(self, tok):
        if tok is None:
            return "nothing"
        if tok[0] == "PUNCTUATOR":
            n = next((n for n, v in self.w.enum.items() if n.startswith("KEFIR_PUNCTUATOR_") and v == tok[1]), "?")
            return "punctuator " + next((p for p, m in PUNCT.items() if "KEFIR_PUNCTUATOR_" + m == n), n)
        return tok[0].lower()
