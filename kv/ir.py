"""Resolved program model: every non-test C unit of /repo, lowered by clang to LLVM IR (SSA after mem2reg)
and parsed into plain Python objects.  Nothing of the analysed program is executed."""
import os, re, subprocess, sys, tempfile, pickle
from concurrent.futures import ProcessPoolExecutor

REPO = os.environ.get("KV_REPO", "/repo")

CFLAGS = ["-std=c11", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-g",
          "-fstandalone-debug", "-w"]


class AnalysisBroken(Exception):
    """The check cannot give an answer (source does not compile, anchor vanished, ...)."""


class Ins:
    __slots__ = ("op", "res", "ty", "args", "x", "dbg", "blk", "idx", "fn")

    def __init__(self, op, res, ty, args, x=None, dbg=None):
        self.op, self.res, self.ty, self.args, self.x, self.dbg = op, res, ty, args, x, dbg
        self.blk = None
        self.idx = None
        self.fn = None

    def __repr__(self):
        return "<%s %s %s %r>" % (self.res, self.op, self.ty, self.args)


class Block:
    __slots__ = ("name", "ins", "succ", "pred")

    def __init__(self, name):
        self.name, self.ins, self.succ, self.pred = name, [], [], []


class Func:
    __slots__ = ("name", "key", "internal", "rty", "params", "ptypes", "blocks", "order", "unit", "dbg", "ret_name",
                 "param_types", "line", "file", "varargs", "byval", "_live", "sret")

    def __init__(self):
        self.blocks, self.order = {}, []
        self._live = None

    @property
    def entry(self):
        return self.order[0]

    def instrs(self):
        for b in self.order:
            for i in self.blocks[b].ins:
                yield i


def sources(repo=None):
    repo = repo or REPO
    out = []
    for d, ds, fs in os.walk(os.path.join(repo, "source")):
        rel = os.path.relpath(d, repo)
        if rel == "source/tests" or rel.startswith("source/tests/"):
            ds[:] = []
            continue
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".c"):
                out.append(os.path.join(rel, f))
    return out


# ---------------------------------------------------------------- types and layouts

def split_top(s, sep=","):
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    inq = False
    while i < n:
        c = s[i]
        if inq:
            cur.append(c)
            if c == '"':
                inq = False
        elif c == '"':
            inq = True
            cur.append(c)
        elif c in "([{<":
            depth += 1
            cur.append(c)
        elif c in ")]}>":
            depth -= 1
            cur.append(c)
        elif c == sep and depth == 0:
            out.append("".join(cur).strip())
            cur = []
        else:
            cur.append(c)
        i += 1
    t = "".join(cur).strip()
    if t:
        out.append(t)
    return out


TYPE_RE = re.compile(r'\s*(?:(ptr|void|float|double|x86_fp80|i\d+|label|metadata)\b|(%"[^"]+"|%[\w.$-]+))')


class Types:
    def __init__(self):
        self.structs = {}
        self.cache = {}

    def layout(self, t):
        """(size, align, [field offsets], [field types])"""
        r = self.cache.get(t)
        if r is None:
            r = self.cache[t] = self._layout(t)
        return r

    def _layout(self, t):
        t = t.strip()
        if t == "ptr":
            return (8, 8, None, None)
        if t == "double":
            return (8, 8, None, None)
        if t == "float":
            return (4, 4, None, None)
        if t == "x86_fp80":
            return (16, 16, None, None)
        if t[0] == "i" and t[1:].isdigit():
            b = int(t[1:])
            s = max(1, 1 << (((b + 7) // 8) - 1).bit_length())
            return (s, min(s, 16), None, None)
        if t[0] == "%":
            d = self.structs.get(t)
            if d is None or d == "opaque":
                return (0, 1, [], [])
            return self.layout(d)
        if t[0] == "[":
            m = re.match(r"\[(\d+) x (.*)\]$", t)
            n, el = int(m.group(1)), m.group(2)
            s, a, _, _ = self.layout(el)
            return (n * s, a, None, el)
        packed = False
        if t[0] == "<":
            packed = True
            t = t[1:-1].strip()
        if t[0] == "{":
            fts = split_top(t[1:-1].strip())
            off, al, offs = 0, 1, []
            for ft in fts:
                s, a, _, _ = self.layout(ft)
                if packed:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al, offs, fts)
        if t.endswith(")"):
            return (8, 8, None, None)
        raise AnalysisBroken("type layout of %r" % t)


def take_type(s):
    """Parse a leading type in s; returns (type, rest)."""
    s = s.lstrip()
    m = TYPE_RE.match(s)
    if m:
        return m.group(0).strip(), s[m.end():].lstrip()
    if s[0] in "[{<":
        depth = 0
        for i, c in enumerate(s):
            if c in "[{<(":
                depth += 1
            elif c in "]}>)":
                depth -= 1
                if depth == 0:
                    return s[:i + 1], s[i + 1:].lstrip()
    raise AnalysisBroken("type expected: %r" % s[:80])


PATTR = re.compile(r"^(?:noundef|signext|zeroext|nonnull|noalias|nocapture|readonly|writeonly|returned|immarg|inreg|"
                   r"align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|(byval\((?P<bv>[^)]*(?:\([^)]*\))?)\))|(sret\((?P<sr>[^)]*)\)))\s*")


def take_attrs(s):
    byval = sret = None
    while True:
        m = PATTR.match(s)
        if not m:
            return s, byval, sret
        if m.group("bv"):
            byval = m.group("bv")
        if m.group("sr"):
            sret = m.group("sr")
        s = s[m.end():]


class UnitParser:
    def __init__(self, text, unit):
        self.unit = unit
        self.types = Types()
        self.md = {}
        self.funcs = []
        self.globals = {}
        self.decls = {}
        self.text = text

    def value(self, s, ty=None):
        s = s.strip()
        if not s:
            return None
        c = s[0]
        if c == "%":
            return s
        if c == "@":
            return s
        if s == "null" or s == "zeroinitializer" or s == "false":
            return 0
        if s == "true":
            return 1
        if s in ("undef", "poison"):
            return "undef"
        if c == "-" or c.isdigit():
            if re.match(r"-?\d+$", s):
                return int(s)
            return ("f", s)
        if s.startswith("getelementptr"):
            m = re.match(r"getelementptr (?:inbounds )?\((.*)\)$", s)
            parts = split_top(m.group(1))
            base_ty = parts[0]
            bt, bv = take_type(parts[1])
            idx = [int(take_type(p)[1]) for p in parts[2:]]
            off, _ = self.gepoff(base_ty, idx)
            return ("gep", self.value(bv), off)
        m = re.match(r"(inttoptr|ptrtoint|bitcast|trunc|zext|sext) \((.*) to [^)]*\)$", s)
        if m:
            t, v = take_type(m.group(2))
            return self.value(v)
        if c == "[" or c == "{" or c == "<" or s.startswith('c"'):
            return ("agg", s)
        if s.startswith(("blockaddress", "sub", "add", "select", "icmp")):
            return ("cexpr", s)
        return ("x", s)

    def gepoff(self, ty, idx):
        """idx: list of ints (or None for variable). returns (offset or None, (struct, fieldidx) or None)"""
        off = 0
        size = self.types.layout(ty)[0]
        field = None
        if idx[0] is None:
            off = None
        else:
            off += idx[0] * size
        cur = ty
        for i in idx[1:]:
            lay = self.types.layout(cur)
            if lay[2] is not None:  # struct
                field = (cur, i)
                if off is not None:
                    off += lay[2][i]
                cur = lay[3][i]
            else:
                el = lay[3]
                field = None
                if i is None:
                    off = None
                elif off is not None:
                    off += i * self.types.layout(el)[0]
                cur = el
        return off, field

    def parse(self):
        lines = self.text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if not l:
                i += 1
                continue
            c = l[0]
            if c == "!":
                m = re.match(r"!(\d+) = (.*)$", l)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            elif c == "%":
                m = re.match(r'(%"[^"]+"|%[\w.$-]+) = type (.*)$', l)
                if m:
                    self.types.structs[m.group(1)] = m.group(2)
            elif c == "@":
                self.parse_global(l)
            elif l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.pending.append((i, j)) if hasattr(self, "pending") else setattr(self, "pending", [(i, j)])
                i = j
            elif l.startswith("declare"):
                m = re.match(r"declare .*?@([\w.$-]+)\(", l)
                if m:
                    self.decls[m.group(1)] = l
            i += 1
        for (a, b) in getattr(self, "pending", []):
            self.parse_func(lines, a, b)
        return self

    def parse_global(self, l):
        m = re.match(r'@([\w.$-]+|"[^"]+") = (.*)$', l)
        if not m:
            return
        name, rest = m.group(1), m.group(2)
        md = re.search(r"!dbg !(\d+)", rest)
        rest = re.sub(r", !dbg !\d+.*$", "", rest)
        rest = re.sub(r", align \d+.*$", "", rest)
        m = re.match(r"((?:[\w]+(?:\([^)]*\))? )*?)(global|constant) (.*)$", rest)
        if not m:
            self.globals[name] = dict(kind="other", attrs=rest, init=None, ty=None, dbg=None)
            return
        attrs, kind, body = m.groups()
        try:
            ty, init = take_type(body)
        except AnalysisBroken:
            ty, init = None, body
        self.globals[name] = dict(kind=kind, attrs=attrs.split(), init=init, ty=ty,
                                  dbg=int(md.group(1)) if md else None,
                                  external=("external" in attrs.split()))

    HEAD = re.compile(r'^define (.*?)@([\w.$-]+)\((.*)$')

    def parse_func(self, lines, a, b):
        h = lines[a]
        m = self.HEAD.match(h)
        pre, name, rest = m.groups()
        f = Func()
        f.name = name
        f.unit = self.unit
        f.internal = "internal" in pre.split()
        # params
        depth, k = 1, 0
        while depth:
            ch = rest[k]
            if ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
            k += 1
        plist, tail = rest[:k - 1], rest[k:]
        md = re.search(r"!dbg !(\d+)", tail)
        f.dbg = int(md.group(1)) if md else None
        toks = pre.split()
        # return type: after linkage/visibility/attrs
        p = pre.strip()
        p = re.sub(r"^(?:(?:internal|dso_local|hidden|weak|linkonce_odr|noundef|zeroext|signext|noalias|nonnull|local_unnamed_addr)\s+)*", "", p)
        f.rty = take_type(p)[0] if p else "void"
        f.params, f.ptypes, f.byval = [], [], {}
        f.varargs = False
        f.sret = False
        for part in split_top(plist):
            if part == "...":
                f.varargs = True
                continue
            t, r = take_type(part)
            r, bv, sr = take_attrs(r)
            if bv:
                f.byval[len(f.params)] = bv
            if sr:
                f.sret = True
            f.params.append(r.strip())
            f.ptypes.append(t)
        cur = None
        j = a + 1
        while j < b:
            l = lines[j]
            j += 1
            if not l:
                continue
            if l[0] != " ":
                mm = re.match(r'("[^"]*"|[\w.$-]+):', l)
                if mm:
                    cur = Block(mm.group(1).strip('"'))
                    f.blocks[cur.name] = cur
                    f.order.append(cur.name)
                continue
            s = l.strip()
            if "@llvm.dbg." in s:
                continue
            if s.endswith("[") and s.startswith(("switch", "indirectbr")):
                acc = [s]
                while True:
                    t = lines[j].strip()
                    j += 1
                    acc.append(t)
                    if t.startswith("]"):
                        break
                s = " ".join(acc)
            ins = self.parse_ins(s)
            ins.blk = cur.name
            ins.idx = len(cur.ins)
            ins.fn = f
            cur.ins.append(ins)
        for bn in f.order:
            blk = f.blocks[bn]
            t = blk.ins[-1]
            if t.op == "br":
                blk.succ = list(dict.fromkeys(t.x))
            elif t.op == "switch":
                blk.succ = list(dict.fromkeys([t.x[0]] + [y for _, y in t.x[1]]))
            elif t.op == "indirectbr":
                blk.succ = list(t.x)
            else:
                blk.succ = []
        for bn in f.order:
            for sname in f.blocks[bn].succ:
                f.blocks[sname].pred.append(bn)
        self.funcs.append(f)

    DBG = re.compile(r",?\s*!dbg !(\d+)")
    RES = re.compile(r'^(%"[^"]+"|%[\w.$-]+) = ')

    def parse_ins(self, s):
        dbg = None
        m = self.DBG.search(s)
        if m:
            dbg = int(m.group(1))
            s = s[:m.start()]
        s = re.sub(r",? !(srcloc|llvm\.loop|heapallocsite|range|nonnull) !\d+", "", s)
        res = None
        m = self.RES.match(s)
        if m:
            res = m.group(1)
            s = s[m.end():]
        sp = s.split(" ", 1)
        op = sp[0]
        rest = sp[1] if len(sp) > 1 else ""
        V = self.value
        if op in ("tail", "notail", "musttail"):
            sp = rest.split(" ", 1)
            op, rest = sp[0], sp[1]
        if op == "load":
            rest = re.sub(r"^volatile ", "", rest)
            ty, r = take_type(rest)
            r = r.lstrip(", ")
            parts = split_top(r)
            _, pv = take_type(parts[0])
            return Ins("load", res, ty, [V(pv)], None, dbg)
        if op == "store":
            rest = re.sub(r"^volatile ", "", rest)
            parts = split_top(rest)
            ty, v = take_type(parts[0])
            _, pv = take_type(parts[1])
            return Ins("store", None, ty, [V(v), V(pv)], None, dbg)
        if op == "getelementptr":
            rest = re.sub(r"^(inbounds |nuw |nusw )+", "", rest)
            parts = split_top(rest)
            bty = parts[0]
            _, bv = take_type(parts[1])
            idx, vs = [], []
            for p in parts[2:]:
                _, v = take_type(p)
                v = V(v)
                if isinstance(v, int):
                    idx.append(v)
                else:
                    idx.append(None)
                    vs.append(v)
            off, field = self.gepoff(bty, idx)
            return Ins("gep", res, "ptr", [V(bv)] + vs, (off, field, bty, idx), dbg)
        if op == "br":
            if rest.startswith("label"):
                return Ins("br", None, None, [], [rest.split("%", 1)[1].strip().strip('"')], dbg)
            parts = split_top(rest)
            _, c = take_type(parts[0])
            ls = [p.split("%", 1)[1].strip().strip('"') for p in parts[1:]]
            return Ins("br", None, None, [V(c)], ls, dbg)
        if op == "switch":
            m = re.match(r"(.*?), label %(\S+) \[(.*)\]$", rest)
            ty, v = take_type(m.group(1))
            cases = [(int(a), b.strip('"')) for a, b in re.findall(r"i\d+ (-?\d+), label %(\"[^\"]*\"|\S+)", m.group(3))]
            return Ins("switch", None, ty, [V(v)], (m.group(2).strip('"'), cases), dbg)
        if op == "indirectbr":
            labs = re.findall(r"label %(\"[^\"]*\"|[^\s,\]]+)", rest)
            return Ins("indirectbr", None, None, [], [x.strip('"') for x in labs], dbg)
        if op == "ret":
            if rest == "void":
                return Ins("ret", None, "void", [], None, dbg)
            ty, v = take_type(rest)
            return Ins("ret", None, ty, [V(v)], None, dbg)
        if op == "phi":
            ty, r = take_type(rest)
            inc = []
            for p in split_top(r):
                p = p.strip()[1:-1]
                k = p.rindex(",")
                inc.append((V(p[:k]), p[k + 1:].strip()[1:].strip('"')))
            return Ins("phi", res, ty, [v for v, _ in inc], [b for _, b in inc], dbg)
        if op in ("icmp", "fcmp"):
            if op == "fcmp":
                rest = re.sub(r"^(nnan |ninf |nsz |arcp |contract |afn |reassoc |fast )+", "", rest)
            pred, r = rest.split(" ", 1)
            parts = split_top(r)
            ty, a = take_type(parts[0])
            return Ins(op, res, ty, [V(a), V(parts[1])], pred, dbg)
        if op == "alloca":
            parts = split_top(rest)
            x = None
            for p in parts[1:]:
                if not p.startswith("align"):
                    _, v = take_type(p)
                    x = V(v)
            return Ins("alloca", res, parts[0], [], x, dbg)
        if op == "call":
            return self.parse_call(res, rest, dbg)
        if op in ("unreachable", "fence"):
            return Ins(op, res, None, [], None, dbg)
        if op == "select":
            parts = split_top(rest)
            vs = [take_type(p) for p in parts]
            return Ins("select", res, vs[1][0], [V(v) for _, v in vs], None, dbg)
        if op in ("extractvalue", "insertvalue"):
            parts = split_top(rest)
            ty, v = take_type(parts[0])
            args = [V(v)]
            if op == "insertvalue":
                _, v2 = take_type(parts[1])
                args.append(V(v2))
                return Ins(op, res, ty, args, tuple(int(z) for z in parts[2:]), dbg)
            return Ins(op, res, ty, args, tuple(int(z) for z in parts[1:]), dbg)
        m = re.match(r"(.*) to (\S.*)$", rest)
        if m and op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc"):
            t0, v = take_type(re.sub(r"^(nneg|nuw|nsw) ", "", m.group(1)))
            return Ins(op, res, m.group(2), [V(v)], t0, dbg)
        flags = ""
        m = re.match(r"((?:nuw |nsw |exact |disjoint |nnan |ninf |nsz |arcp |contract |afn |reassoc |fast )+)", rest)
        if m:
            flags = m.group(1)
            rest = rest[m.end():]
        if op == "va_arg":
            return Ins(op, res, None, [], rest, dbg)
        parts = split_top(rest)
        ty, a = take_type(parts[0])
        args = [V(a)] + [V(p) for p in parts[1:]]
        return Ins(op, res, ty, args, flags, dbg)

    def parse_call(self, res, rest, dbg):
        rest = re.sub(r" #\d+\s*$", "", rest.strip())
        rest = re.sub(r"^(?:noundef|zeroext|signext|noalias|nonnull|inreg)\s+", "", rest)
        while True:
            r2 = re.sub(r"^(?:noundef|zeroext|signext|noalias|nonnull|inreg|nnan|fast|align \d+)\s+", "", rest)
            if r2 == rest:
                break
            rest = r2
        ty, r = take_type(rest)
        # function type for varargs
        if r.startswith("("):
            depth = 0
            for k, c in enumerate(r):
                if c == "(":
                    depth += 1
                elif c == ")":
                    depth -= 1
                    if depth == 0:
                        break
            r = r[k + 1:].lstrip()
        if r.startswith("asm"):
            return Ins("call", res, ty, ["asm"], ([], {}), dbg)
        m = re.match(r'(@"[^"]+"|@[\w.$-]+|%"[^"]+"|%[\w.$-]+|\w+)\s*\((.*)$', r)
        callee = m.group(1)
        body = m.group(2)
        depth, k = 1, 0
        inq = False
        while depth:
            ch = body[k]
            if inq:
                if ch == '"':
                    inq = False
            elif ch == '"':
                inq = True
            elif ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
            k += 1
        args, tys, bv = [], [], {}
        for p in split_top(body[:k - 1]):
            if p.startswith("metadata"):
                args.append(("md", p))
                tys.append("metadata")
                continue
            t, v = take_type(p)
            v, b, _ = take_attrs(v)
            if b:
                bv[len(args)] = b
            args.append(self.value(v))
            tys.append(t)
        return Ins("call", res, ty, [callee] + args, (tys, bv), dbg)


# ---------------------------------------------------------------- debug metadata helpers (per unit)

class Meta:
    def __init__(self, md):
        self.md = md
        self.loc_cache = {}

    def field(self, n, key):
        t = self.md.get(n, "")
        m = re.search(r'[(, ]%s: (!\d+|"[^"]*"|-?\w+)' % key, t)
        if not m:
            return None
        v = m.group(1)
        if v[0] == "!":
            return int(v[1:])
        if v[0] == '"':
            return v[1:-1]
        return v

    def lst(self, n):
        t = self.md.get(n, "")
        m = re.match(r"(?:distinct )?!\{(.*)\}$", t)
        if not m:
            return []
        return [int(x[1:]) if x.startswith("!") else None for x in m.group(1).split(", ") if x]

    def tag(self, n):
        t = self.md.get(n, "")
        m = re.match(r"(?:distinct )?!(\w+)\(", t)
        return m.group(1) if m else None

    def loc(self, dbg):
        """(file, line) of a !DILocation, following inlinedAt-free scope"""
        if dbg is None:
            return (None, 0)
        r = self.loc_cache.get(dbg)
        if r is None:
            line = self.field(dbg, "line")
            sc = self.field(dbg, "scope")
            fl = None
            k = 0
            while sc is not None and fl is None and k < 50:
                fi = self.field(sc, "file")
                if fi is not None:
                    fl = self.field(fi, "filename")
                    break
                sc = self.field(sc, "scope")
                k += 1
            r = self.loc_cache[dbg] = (fl, int(line or 0))
        return r

    def strip(self, n):
        """type name of n with typedef name kept: returns a readable string"""
        return self.tname(n)

    def tname(self, n, depth=0):
        if n is None:
            return "void"
        if depth > 8:
            return "?"
        tg = self.tag(n)
        if tg == "DIBasicType":
            return self.field(n, "name")
        if tg == "DICompositeType":
            kind = self.md[n]
            nm = self.field(n, "name")
            if "DW_TAG_structure_type" in kind:
                return "struct %s" % (nm or "<anon>")
            if "DW_TAG_union_type" in kind:
                return "union %s" % (nm or "<anon>")
            if "DW_TAG_enumeration_type" in kind:
                return "enum %s" % (nm or "<anon>")
            if "DW_TAG_array_type" in kind:
                return "%s[]" % self.tname(self.field(n, "baseType"), depth + 1)
        if tg == "DIDerivedType":
            kind = self.md[n]
            if "DW_TAG_typedef" in kind:
                return self.field(n, "name")
            b = self.tname(self.field(n, "baseType"), depth + 1)
            if "DW_TAG_pointer_type" in kind:
                return b + "*"
            if "DW_TAG_const_type" in kind:
                return "const " + b
            return b
        if tg == "DISubroutineType":
            ts = self.lst(self.field(n, "types"))
            return "fn(%s)" % self.tname(ts[0] if ts else None, depth + 1)
        return "?"

    def resolve_td(self, n):
        """strip typedefs/const/pointers down to underlying type node"""
        k = 0
        while n is not None and k < 20:
            kind = self.md.get(n, "")
            if kind.startswith("!DIDerivedType") and ("DW_TAG_typedef" in kind or "DW_TAG_const_type" in kind or "DW_TAG_volatile" in kind or "DW_TAG_pointer_type" in kind):
                n = self.field(n, "baseType")
            else:
                return n
            k += 1
        return n


class Unit:
    pass


def lower(src, repo):
    cmd = ["clang"] + CFLAGS + ["-I", "headers", "-S", "-emit-llvm", "-o", "-", src]
    p = subprocess.run(cmd, cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise AnalysisBroken("clang failed on %s:\n%s" % (src, p.stderr.decode()[-2000:]))
    q = subprocess.run(["opt", "-S", "-passes=mem2reg"], input=p.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if q.returncode:
        raise AnalysisBroken("opt failed on %s:\n%s" % (src, q.stderr.decode()[-2000:]))
    return q.stdout.decode("utf-8", "replace")


def load_unit(arg):
    src, repo = arg
    return load_unit_text(src, lower(src, repo))


def load_unit_text(src, text):
    up = UnitParser(text, src).parse()
    u = Unit()
    u.name = src
    u.funcs = up.funcs
    u.globals = up.globals
    u.decls = set(up.decls)
    meta = Meta(up.md)
    u.structs = up.types.structs
    # function debug facts
    for f in up.funcs:
        f.ret_name = None
        f.param_types = []
        f.file, f.line = src, 0
        if f.dbg is not None:
            tn = meta.field(f.dbg, "type")
            f.line = int(meta.field(f.dbg, "line") or 0)
            fi = meta.field(f.dbg, "file")
            f.file = meta.field(fi, "filename") if fi else src
            if tn is not None:
                ts = meta.lst(meta.field(tn, "types"))
                if ts:
                    f.ret_name = meta.tname(ts[0])
                    f.param_types = [meta.tname(t) for t in ts[1:]]
        for ins in f.instrs():
            ins.dbg = meta.loc(ins.dbg)
    # struct member tables: name -> [(member name, type string, byte offset, size)]
    u.members = {}
    u.enums = {}
    for n, t in up.md.items():
        if "DICompositeType(" not in t:
            continue
        if "DW_TAG_structure_type" in t or "DW_TAG_union_type" in t:
            nm = meta.field(n, "name")
            el = meta.field(n, "elements")
            if nm and el is not None and nm not in u.members:
                u.members[nm] = flatten_members(meta, n)
        elif "DW_TAG_enumeration_type" in t:
            nm = meta.field(n, "name")
            el = meta.field(n, "elements")
            vals = {}
            if el is not None:
                for e in meta.lst(el):
                    vals[meta.field(e, "name")] = int(meta.field(e, "value"))
            key = nm or ("anon:%s" % (next(iter(vals), "?")))
            u.enums[key] = vals
    # enum typedef names
    for n, t in up.md.items():
        if t.startswith("!DIDerivedType(tag: DW_TAG_typedef"):
            b = meta.field(n, "baseType")
            if b is not None and "DW_TAG_enumeration_type" in up.md.get(b, ""):
                el = meta.field(b, "elements")
                vals = {}
                if el is not None:
                    for e in meta.lst(el):
                        vals[meta.field(e, "name")] = int(meta.field(e, "value"))
                u.enums[meta.field(n, "name")] = vals
    # globals: debug type/line
    for g in u.globals.values():
        d = g.get("dbg")
        g["file"], g["line"], g["dtype"], g["gname"] = src, 0, None, None
        if d is not None:
            v = meta.field(d, "var")
            if v is not None:
                g["line"] = int(meta.field(v, "line") or 0)
                g["gname"] = meta.field(v, "name")
                t = meta.field(v, "type")
                g["dtype"] = meta.tname(t)
                g["const_elem"] = is_const_type(meta, t)
    u.layout_cache = {t: up.types.layout(t) for t in up.types.structs}
    return u


def is_const_type(meta, n):
    k = 0
    while n is not None and k < 10:
        t = meta.md.get(n, "")
        if "DW_TAG_const_type" in t:
            return True
        if "DW_TAG_array_type" in t or "DW_TAG_typedef" in t:
            n = meta.field(n, "baseType")
        else:
            return False
        k += 1
    return False


def flatten_members(meta, n, base=0, prefix="", depth=0):
    out = []
    el = meta.field(n, "elements")
    if el is None or depth > 6:
        return out
    for e in meta.lst(el):
        t = meta.md.get(e, "")
        if "DW_TAG_member" not in t:
            continue
        nm = meta.field(e, "name") or ""
        off = int(meta.field(e, "offset") or 0) // 8
        size = int(meta.field(e, "size") or 0) // 8
        bt = meta.field(e, "baseType")
        out.append((prefix + nm, meta.tname(bt), base + off, size))
        r = bt
        k = 0
        while r is not None and k < 10 and "DW_TAG_typedef" in meta.md.get(r, ""):
            r = meta.field(r, "baseType")
            k += 1
        tt = meta.md.get(r, "") if r is not None else ""
        if "DICompositeType" in tt and ("DW_TAG_structure_type" in tt or "DW_TAG_union_type" in tt):
            out += flatten_members(meta, r, base + off, prefix + nm + ".", depth + 1)
    return out


class Program:
    def __init__(self):
        self.units = {}
        self.funcs = {}       # key -> Func ; key = name for external, unit:name for internal
        self.members = {}
        self.enums = {}
        self.globals = {}     # key like functions

    def key(self, unit, name):
        """resolve a symbol name seen inside unit"""
        k = unit + ":" + name
        if k in self.funcs:
            return k
        return name if name in self.funcs else None

    def gkey(self, unit, name):
        k = unit + ":" + name
        if k in self.globals:
            return k
        return name if name in self.globals else None

    def callee(self, ins):
        """Func object or None for a direct call; external name available via ins.args[0]"""
        c = ins.args[0]
        if not isinstance(c, str) or c[0] != "@":
            return None
        k = self.key(ins.fn.unit, c[1:].strip('"'))
        return self.funcs.get(k) if k else None

    def where(self, ins):
        fl, ln = ins.dbg or (None, 0)
        return "%s:%d" % (fl or ins.fn.file, ln or ins.fn.line)


def load_program(repo=None, only=None, jobs=8, files=None):
    repo = repo or REPO
    srcs = files if files is not None else sources(repo)
    if only:
        srcs = [s for s in srcs if only(s)]
    if len(srcs) < 1:
        raise AnalysisBroken("no source files found under %s" % repo)
    prog = Program()
    with ProcessPoolExecutor(jobs) as ex:
        for u in ex.map(load_unit, [(s, repo) for s in srcs], chunksize=4):
            prog.units[u.name] = u
    return link(prog)


def link(prog):
    for un, u in prog.units.items():
        for f in u.funcs:
            f.key = (un + ":" + f.name) if f.internal else f.name
            prog.funcs[f.key] = f
        for g, d in u.globals.items():
            if d.get("external") or d["kind"] == "other":
                continue
            internal = d["attrs"] and ("internal" in d["attrs"] or "private" in d["attrs"])
            d["unit"] = un
            prog.globals[(un + ":" + g) if internal else g] = d
        for k, v in u.members.items():
            if v and k not in prog.members:
                prog.members[k] = v
        for k, v in u.enums.items():
            if v:
                prog.enums.setdefault(k, v)
    return prog


if __name__ == "__main__":
    import time
    t = time.time()
    p = load_program()
    print(len(p.units), "units", len(p.funcs), "functions", sum(1 for f in p.funcs.values() for _ in f.instrs()), "instructions", time.time() - t)
