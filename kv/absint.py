"""Abstract interpretation of single functions over a term (Herbrand) value domain.

Every value is a constant, an address (base, offset) or an uninterpreted term; memory is a finite map from addresses to
values.  Paths are partitioned at branches whose condition the facts collected so far leave open; the only facts kept are
finite-set facts about terms (equal to / different from constants), so no solver is involved.  Callees are inlined, modelled
or opaque.  The client sees, per path class, the sequence of effects (events) and the value returned."""
import itertools
from .ir import AnalysisBroken, split_top, take_type, Types

MASK = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128}


def sgn(v, ty):
    n = MASK.get(ty)
    if n is None or not isinstance(v, int):
        return v
    if n == 1:
        return v & 1
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def uns(v, ty):
    n = MASK.get(ty, 64)
    return v & ((1 << n) - 1)


NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge",
       "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult",
        "ule": "uge", "uge": "ule"}


def strip(t):
    while isinstance(t, tuple) and t and t[0] in ("zext", "sext", "trunc", "freeze"):
        t = t[-1]
    return t


class State:
    __slots__ = ("mem", "facts", "trace", "ranges", "x")

    def __init__(self):
        self.mem, self.facts, self.trace, self.ranges, self.x = {}, {}, (), (), {}

    def copy(self):
        s = State()
        s.mem, s.facts, s.trace, s.ranges, s.x = dict(self.mem), dict(self.facts), self.trace, self.ranges, dict(self.x)
        return s

    def ev(self, *e):
        self.trace = self.trace + (e,)

    # ---- facts
    def known(self, t):
        """constant value of term if the facts determine it"""
        if isinstance(t, int):
            return t
        t = strip(t)
        if isinstance(t, int):
            return t
        f = self.facts.get(t)
        if f and f[0] == "in" and len(f[1]) == 1:
            return next(iter(f[1]))
        return None

    def assume(self, t, pos, vals):
        """t in vals (pos) / not in vals; False if contradictory"""
        t = strip(t)
        vals = frozenset(vals)
        if isinstance(t, int):
            return (t in vals) == pos
        if isinstance(t, tuple) and t[0] in ("ptr", "fn") and is_object(t):
            if pos and vals == frozenset([0]):
                return False
            if not pos and 0 in vals:
                return True
        f = self.facts.get(t)
        if f is None:
            n = ("in" if pos else "not", vals)
        elif f[0] == "in":
            n = ("in", f[1] & vals if pos else f[1] - vals)
        else:
            n = ("in", vals - f[1]) if pos else ("not", f[1] | vals)
        if n[0] == "in" and not n[1]:
            return False
        self.facts[t] = n
        if n[0] == "in" and isinstance(t, tuple) and t[0] == "icmp" and len(n[1]) == 1:
            return self.assume_cmp(t, next(iter(n[1])))
        return True

    def assume_cmp(self, t, truth):
        _, p, a, b = t
        if not truth:
            p = NEG[p]
        if isinstance(a, int) and not isinstance(b, int):
            a, b, p = b, a, SWAP[p]
        if isinstance(b, int):
            if p == "eq":
                return self.assume(a, True, [b])
            if p == "ne":
                return self.assume(a, False, [b])
            f = self.facts.get(strip(a))
            if f and f[0] == "in":
                keep = [v for v in f[1] if fold_icmp(p, v, b, "i64")]
                return self.assume(a, True, keep) if keep else False
        return True


def ev_term(t, leaf, x):
    """value of a term whose only unknown is leaf, for leaf = x; None: not such a term"""
    return ev_env(t, {leaf: x})


def ev_env(t, env):
    """value of a term under an assignment of its unknowns"""
    if isinstance(t, int):
        return t
    if t in env:
        return env[t]
    if not isinstance(t, tuple) or not t:
        return None
    op = t[0]
    if op in ("zext", "sext", "trunc") and len(t) == 4:
        a = ev_env(t[3], env)
        if a is None:
            return None
        return uns(a, t[1]) if op == "zext" else sgn(sgn(a, t[1]) if op == "sext" else a, t[2])
    if op == "icmp":
        a, b = ev_env(t[2], env), ev_env(t[3], env)
        return None if a is None or b is None else int(fold_icmp(t[1], a, b, "i64"))
    if op == "inset":
        return None if t[1] not in env else int(env[t[1]] in t[2])
    if op in BINOPS and len(t) == 4:
        a, b = ev_env(t[2], env), ev_env(t[3], env)
        if a is None or b is None:
            return None
        return fold_bin(op, a, b, t[1])
    return None


def fold_bin(op, a, b, ty):
    ua, ub = uns(a, ty), uns(b, ty)
    n = MASK.get(ty, 64)
    if op in ("shl", "lshr", "ashr") and ub >= n or op in ("udiv", "urem", "sdiv", "srem") and b == 0:
        return None
    r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: ua & ub, "or": lambda: ua | ub,
         "xor": lambda: ua ^ ub, "shl": lambda: ua << ub, "lshr": lambda: ua >> ub, "ashr": lambda: sgn(a, ty) >> ub,
         "udiv": lambda: ua // ub, "urem": lambda: ua % ub,
         "sdiv": lambda: int(abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1),
         "srem": lambda: (abs(a) % abs(b)) * (1 if a >= 0 else -1)}[op]()
    return sgn(r, ty)


BINOPS = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"}


def leaves(t, out, kind):
    if isinstance(t, tuple) and t:
        if t[0] == kind:
            out.add(t)
        else:
            for x in t[1:]:
                leaves(x, out, kind)
    return out


def is_object(t):
    b = t[1]
    return t[0] == "fn" or (isinstance(b, tuple) and b[0] in ("alloca", "g", "new", "str"))


def fold_icmp(p, a, b, ty):
    if p[0] == "u":
        a, b = uns(a, ty), uns(b, ty)
    return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p if p in ("eq", "ne") else p[1:]]


class Interp:
    MAXVISIT = 3
    MAXPATHS = 4000
    finite = None       # tag of the terms that range over a finite set of values: conditions on one of them are decided value by value
    xkey = None         # what of a state's extra record tells outcomes apart

    def __init__(self, prog, models=None, inline=None, depth=12):
        self.prog = prog
        self.models = models if models is not None else {}
        self.inline = inline or (lambda f, st: True)
        self.depth = depth
        self.names = {}
        self.cut = set()
        self.n_blocks = 0
        self.analysed = set()
        self.opaque = set()
        self.fresh = 0
        self.moff = {}
        self.defs = {}

    # ------------------------------------------------------------ constants
    def flat(self, gk):
        g = self.prog.globals.get(gk)
        if g is None or not g.get("init"):
            return {}
        if "_tab" not in g:
            out = {}
            self._flat(g["unit"], g["ty"], g["init"], 0, out)
            g["_tab"] = out
        return g["_tab"]

    def _types(self, un):
        u = self.prog.units[un]
        if not hasattr(u, "_T"):
            u._T = Types()
            u._T.structs = u.structs
        return u._T

    def _flat(self, un, ty, init, off, out):
        T = self._types(un)
        init = init.strip()
        if init in ("undef", "poison"):
            return
        if init == "zeroinitializer":
            if ty[0] in "%{<[":
                out.setdefault("zero", []).append((off, T.layout(ty)[0]))
            else:
                out[off] = 0
            return
        if ty[0] in "%{<":
            lay = T.layout(ty)
            if lay[2] is None:
                return
            body = init[1:-1].strip()
            if init[0] == "<":
                body = init[2:-2].strip()
            for i, p in enumerate(split_top(body)):
                t, v = take_type(p)
                self._flat(un, t, v, off + lay[2][i], out)
        elif ty[0] == "[":
            el = T.layout(ty)[3]
            sz = T.layout(el)[0]
            if init.startswith('c"'):
                out[off] = ("cstr", cstring(init))
                return
            for i, p in enumerate(split_top(init[1:-1].strip())):
                t, v = take_type(p)
                self._flat(un, t, v, off + i * sz, out)
        else:
            v = self.cval(un, init)
            if v is not None:
                out[off] = v

    def cval(self, un, s):
        if s in ("null", "false"):
            return 0
        if s == "true":
            return 1
        if s.startswith("@"):
            return self.sym(un, s[1:].strip('"'))
        if s.startswith("getelementptr"):
            import re
            m = re.match(r"getelementptr (?:inbounds )?\((.*)\)$", s)
            parts = split_top(m.group(1))
            _, bv = take_type(parts[1])
            idx = [int(take_type(p)[1]) for p in parts[2:]]
            T = self._types(un)
            off = idx[0] * T.layout(parts[0])[0]
            cur = parts[0]
            for i in idx[1:]:
                lay = T.layout(cur)
                if lay[2] is not None:
                    off += lay[2][i]
                    cur = lay[3][i]
                else:
                    cur = lay[3]
                    off += i * T.layout(cur)[0]
            b = self.cval(un, bv.strip())
            return ("ptr", b[1], b[2] + off) if isinstance(b, tuple) and b[0] == "ptr" else None
        try:
            return int(s)
        except ValueError:
            return ("f", s)

    def sym(self, un, n):
        k = self.prog.key(un, n)
        if k:
            return ("fn", k)
        g = self.prog.gkey(un, n)
        if g:
            return ("ptr", ("g", g), 0)
        if n in self.prog.units[un].decls:
            return ("fn", n)
        return ("ptr", ("g", n), 0)

    def string(self, v):
        """text of a pointer to a constant string"""
        if isinstance(v, tuple) and v[0] == "ptr" and isinstance(v[1], tuple) and v[1][0] == "g":
            c = self.flat(v[1][1]).get(0)
            if isinstance(c, tuple) and c[0] == "cstr":
                s = c[1][v[2]:]
                return s.split("\0")[0]
            if any(o <= v[2] < o + n for o, n in self.flat(v[1][1]).get("zero", [])):
                return ""
        return None

    # ------------------------------------------------------------ members
    def member(self, term):
        """struct.member name of an address term, as known from the address computation that formed it"""
        return self.names.get(term)

    def offset(self, struct, member):
        k = (struct, member)
        if k not in self.moff:
            m = self.prog.members.get(struct)
            if not m:
                raise AnalysisBroken("structure %s not found" % struct)
            for nm, ty, off, size in m:
                self.moff[(struct, nm)] = off
            if k not in self.moff:
                raise AnalysisBroken("structure %s has no member %s" % k)
        return self.moff[k]

    # ------------------------------------------------------------ evaluation
    def val(self, env, f, a):
        if isinstance(a, int):
            return a
        if isinstance(a, str):
            if a[0] == "%":
                if a in env:
                    return env[a]
                return ("undef", a)
            if a[0] == "@":
                return self.sym(f.unit, a[1:].strip('"'))
            return ("undef",)
        if isinstance(a, tuple):
            if a[0] == "gep":
                b = self.val(env, f, a[1])
                return ptradd(b, a[2])
            return a
        return ("none",)

    def load(self, st, p, ty):
        base, off = addr(p)
        v = st.mem.get((base, off))
        if v is not None:
            return v
        for (db, do, n, src) in reversed(st.ranges):
            if db == base and isinstance(off, int) and isinstance(do, int) and (n is None or do <= off < do + n):
                if src == 0:
                    return 0
                if src[0] == "out":
                    return src if off == do else ("fld", src, off - do)
                return self.load(st, ptradd(src, off - do), ty)
        if isinstance(base, tuple) and base[0] == "g":
            g = self.prog.globals.get(base[1])
            if g is not None and g["kind"] == "constant" and isinstance(off, int):
                t = self.flat(base[1])
                if off in t:
                    return t[off]
                if any(o <= off < o + n for o, n in t.get("zero", [])):
                    return 0
                c = t.get(0)
                if isinstance(c, tuple) and c[0] == "cstr" and 0 <= off < len(c[1]):
                    return ord(c[1][off])
        if isinstance(base, tuple) and base[0] == "alloca":
            return ("uninit", base, off)
        return ("ld", base, off)

    def store(self, st, p, v):
        base, off = addr(p)
        st.mem[(base, off)] = v

    def havoc(self, st, v, tag, k, seen=None):
        """contents of the object v points to become unknown (result k of call tag)"""
        if not (isinstance(v, tuple) and v[0] == "ptr"):
            return
        base, off = addr(v)
        seen = seen or set()
        if base in seen or (isinstance(base, tuple) and base[0] == "g"):
            return
        seen.add(base)
        local = isinstance(base, tuple) and base[0] in ("alloca", "new")
        for key in [q for q in st.mem if q[0] == base]:
            w = st.mem.pop(key)
            if local and isinstance(w, tuple) and w[0] == "ptr" and isinstance(w[1], tuple) and w[1][0] in ("alloca", "new"):
                self.havoc(st, w, tag, ("via", k), seen)
        if local:
            st.ranges = tuple(r for r in st.ranges if r[0] != base) + ((base, off if isinstance(off, int) else 0, None, ("out", tag, k)),)

    def icmp(self, st, p, a, b, ty):
        if isinstance(a, int) and isinstance(b, int):
            return int(fold_icmp(p, a, b, ty))
        if isinstance(a, int):
            a, b, p = b, a, SWAP[p]
        ka, kb = st.known(a), st.known(b)
        if ka is not None and kb is not None:
            return int(fold_icmp(p, ka, kb, ty))
        if a == b and p in ("eq", "ne", "sle", "sge", "ule", "uge", "slt", "sgt", "ult", "ugt"):
            return int(p in ("eq", "sle", "sge", "ule", "uge"))
        if kb == 0 and p in ("eq", "ne"):
            s = strip(a)
            if isinstance(s, tuple) and s[0] in ("ptr", "fn") and is_object(s):
                return int(p == "ne")
            if isinstance(s, tuple) and s[0] in ("icmp", "fcmp", "bool", "inset"):
                if s[0] == "inset":
                    f = st.facts[s[1]][1]
                    yes = f & s[2] if p == "ne" else f - s[2]
                    return int(bool(yes)) if not yes or yes == f else ("inset", s[1], frozenset(yes))
                if p == "ne":
                    return s
                if s[0] == "icmp":
                    return ("icmp", NEG[s[1]], s[2], s[3])
                return ("not", s)
            if isinstance(s, tuple) and s[0] == "not":
                return s[1] if p == "eq" else s
        if p in ("eq", "ne") and isinstance(a, tuple) and isinstance(b, tuple) and a[0] in ("ptr", "fn") and b[0] in ("ptr", "fn") \
                and is_object(a) and is_object(b) and a != b:
            return int(p == "ne")
        f = st.facts.get(strip(a))
        if f and kb is not None:
            if f[0] == "in":
                rs = {fold_icmp(p, v, kb, ty) for v in f[1]}
                if len(rs) == 1:
                    return int(rs.pop())
            elif kb in f[1] and p in ("eq", "ne"):
                return int(p == "ne")
        r = ("icmp", p, a, b if kb is None else kb)
        if self.finite:
            w = self.pointwise(st, a, kb if kb is not None else b)
            if w:
                leaf, dom = w
                yes, no = set(), set()
                for x in dom:
                    va, vb = ev_term(a, leaf, x), ev_term(kb if kb is not None else b, leaf, x)
                    if va is None or vb is None:
                        return r
                    (yes if fold_icmp(p, va, vb, ty) else no).add(x)
                return int(not no) if not (yes and no) else ("inset", leaf, frozenset(yes))
            ls = sorted(leaves(a, leaves(b, set(), self.finite), self.finite))
            ds = [st.facts[x][1] if x in st.facts and st.facts[x][0] == "in" else () for x in ls]
            n = 1
            for d in ds:
                n *= len(d)
            if 1 < len(ls) and 0 < n <= 600:
                rs = set()
                for vs in itertools.product(*ds):
                    env = dict(zip(ls, vs))
                    va, vb = ev_env(a, env), ev_env(b, env)
                    if va is None or vb is None:
                        return r
                    rs.add(fold_icmp(p, va, vb, ty))
                if len(rs) == 1:
                    return int(rs.pop())
        return r

    def pointwise(self, st, *ts):
        """the one finite-domain leaf the terms depend on, with the values it can still have"""
        out = set()
        for t in ts:
            leaves(t, out, self.finite)
        if len(out) == 1:
            leaf = out.pop()
            f = st.facts.get(leaf)
            if f and f[0] == "in":
                return leaf, f[1]
        return None

    def binop(self, i, a, b):
        ty = i.ty
        if isinstance(a, int) and isinstance(b, int):
            ua, ub = uns(a, ty), uns(b, ty)
            n = MASK.get(ty, 64)
            try:
                r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: ua & ub,
                     "or": lambda: ua | ub, "xor": lambda: ua ^ ub, "shl": lambda: ua << ub if ub < n else None,
                     "lshr": lambda: ua >> ub if ub < n else None, "ashr": lambda: sgn(a, ty) >> ub if ub < n else None,
                     "udiv": lambda: ua // ub, "urem": lambda: ua % ub,
                     "sdiv": lambda: int(abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1),
                     "srem": lambda: (abs(a) % abs(b)) * (1 if a >= 0 else -1)}[i.op]()
                if r is not None:
                    return sgn(r, ty)
            except (KeyError, ZeroDivisionError):
                pass
        if i.op in ("add", "or", "xor", "sub") and b == 0:
            return a
        if i.op in ("add", "or", "xor") and a == 0:
            return b
        if i.op == "mul" and b == 1:
            return a
        if i.op == "mul" and a == 1:
            return b
        if i.op == "and" and (a == 0 or b == 0):
            return 0
        if i.op == "add" and isinstance(a, int) and not isinstance(b, int):
            a, b = b, a
        if i.op == "add" and isinstance(b, int) and isinstance(a, tuple) and a[0] == "ptr":
            return ptradd(a, b)
        if i.op in ("add", "sub") and isinstance(b, int) and isinstance(a, tuple) and a[0] == "add" and isinstance(a[3], int):
            c = sgn(a[3] + (b if i.op == "add" else -b), ty)
            return a[2] if c == 0 else ("add", ty, a[2], c)
        if i.op == "sub" and isinstance(b, int):
            return ("add", ty, a, sgn(-b, ty))
        if ty == "i1" and i.op == "xor" and b == 1:
            s = a
            if isinstance(s, tuple) and s[0] == "icmp":
                return ("icmp", NEG[s[1]], s[2], s[3])
            if isinstance(s, tuple) and s[0] == "inset":
                return ("not", s)
            return s[1] if isinstance(s, tuple) and s[0] == "not" else ("not", s)
        return (i.op, ty, a, b)

    def cast(self, i, a):
        if isinstance(a, int):
            if i.op == "zext":
                return uns(a, i.x)
            if i.op in ("trunc", "sext", "bitcast", "ptrtoint", "inttoptr", "freeze"):
                return sgn(a, i.ty) if i.ty in MASK else a
            return (i.op, i.x, i.ty, a)
        if i.op in ("bitcast", "ptrtoint", "inttoptr", "freeze"):
            return a
        if i.op == "zext" and i.x == "i1":
            return a
        if i.op == "trunc" and i.ty == "i1":
            s = strip(a)
            return s if isinstance(s, tuple) and s[0] in ("icmp", "fcmp", "not", "bool", "inset") else ("icmp", "ne", s, 0)
        return (i.op, i.x, i.ty, a)

    # ------------------------------------------------------------ functions
    def run(self, f, args, st, depth=0):
        """all outcomes (value, state) of calling f"""
        if depth > self.depth:
            self.cut.add(f.key)
            return [(("deep", f.key), st)]
        self.analysed.add(f.key)
        env = {}
        for k, a in enumerate(args):
            if k < len(f.params):
                env[f.params[k]] = a
        self.fresh += 1
        act = self.fresh
        work = [(f.entry.name if hasattr(f.entry, "name") else f.order[0], None, env, st, {})]
        outs, seen = [], {}
        while work:
            bn, prev, env, st, visits = work.pop()
            if visits.get(bn, 0) >= self.MAXVISIT * 20:
                self.cut.add(f.key)
                continue
            visits = dict(visits)
            visits[bn] = visits.get(bn, 0) + 1
            self.n_blocks += 1
            blk = f.blocks[bn]
            env = dict(env)
            phis = [i for i in blk.ins if i.op == "phi"]
            if phis:
                new = {}
                for i in phis:
                    for v, b in zip(i.args, i.x):
                        if b == prev:
                            new[i.res] = self.val(env, f, v)
                env.update(new)
            states = [(env, st)]
            for i in blk.ins[len(phis):-1]:
                nxt = []
                for env, st in states:
                    nxt += self.step(f, i, env, st, depth, act, visits[bn])
                states = nxt
                if not states:
                    break
            t = blk.ins[-1]
            for env, st in states:
                if t.op == "ret":
                    v = self.val(env, f, t.args[0]) if t.args else None
                    kv = st.known(v) if v is not None else None
                    v = kv if kv is not None else v
                    if isinstance(v, int) and t.ty in MASK:
                        v = sgn(v, t.ty)
                    if not outs:
                        outs.append((v, st))
                        continue
                    if not seen:        # most calls have one outcome: its signature is only needed now
                        seen[self.sig(*outs[0])] = 1
                    sig = self.sig(v, st)
                    if sig not in seen:
                        seen[sig] = 1
                        outs.append((v, st))
                        if len(outs) > self.MAXPATHS:
                            raise AnalysisBroken("too many path classes in %s" % f.name)
                elif t.op == "unreachable":
                    continue
                elif t.op == "br" and not t.args:
                    work.append((t.x[0], bn, env, st, visits))
                elif t.op == "br":
                    c = self.val(env, f, t.args[0])
                    kc = st.known(c)
                    if kc is not None:
                        work.append((t.x[0] if kc & 1 else t.x[1], bn, env, st, visits))
                        continue
                    if visits[bn] > self.MAXVISIT:
                        self.cut.add(f.key)
                        continue
                    for truth, tgt in ((1, t.x[0]), (0, t.x[1])):
                        s2 = st.copy()
                        if self.branch(s2, c, truth):
                            work.append((tgt, bn, env, s2, visits))
                elif t.op == "switch":
                    c = self.val(env, f, t.args[0])
                    kc = st.known(c)
                    d, cases = t.x
                    if kc is not None:
                        tgt = d
                        for v, l in cases:
                            if sgn(v, t.ty) == sgn(kc, t.ty):
                                tgt = l
                        work.append((tgt, bn, env, st, visits))
                        continue
                    if self.finite and strip(c) not in st.facts:
                        w = self.pointwise(st, c)
                        if w and all(ev_term(c, w[0], x) is not None for x in w[1]):
                            lab, per = {sgn(v, t.ty): l for v, l in cases}, {}
                            for x in w[1]:
                                per.setdefault(lab.get(sgn(ev_term(c, w[0], x), t.ty), d), []).append(x)
                            for l, xs in per.items():
                                s2 = st.copy()
                                if s2.assume(w[0], True, xs):
                                    work.append((l, bn, env, s2, visits))
                            continue
                    per = {}
                    for v, l in cases:
                        per.setdefault(l, []).append(v)
                    for l, vs in per.items():
                        if l == d:
                            continue
                        s2 = st.copy()
                        if s2.assume(c, True, vs):
                            work.append((l, bn, env, s2, visits))
                    s2 = st.copy()
                    if s2.assume(c, False, [v for v, l in cases if l != d]):
                        work.append((d, bn, env, s2, visits))
                else:
                    raise AnalysisBroken("unsupported terminator %s in %s" % (t.op, f.name))
        return outs

    def sig(self, v, st):
        return (v, st.trace, frozenset(st.facts.items()), frozenset(st.mem.items()), st.ranges, self.xkey(st.x) if self.xkey else None)

    def branch(self, st, c, truth):
        if isinstance(c, tuple) and c[0] == "not":
            return self.branch(st, c[1], 1 - truth)
        if isinstance(c, tuple) and c[0] == "inset":
            return st.assume(c[1], bool(truth), c[2])
        if isinstance(c, tuple) and c[0] == "icmp":
            if not truth:
                c = ("icmp", NEG[c[1]], c[2], c[3])
            if c[1] in ("eq", "ne") and isinstance(c[3], int):
                s = strip(c[2])
                if isinstance(s, tuple) and s[0] in ("not", "icmp", "bool", "inset") and c[3] in (0, 1):
                    return self.branch(st, s, int((c[1] == "eq") == (c[3] == 1)))
                return st.assume(c[2], c[1] == "eq", [c[3]])
            n = ("icmp", NEG[c[1]], c[2], c[3])
            return st.assume(n, True, [0]) and st.assume(c, True, [1])
        return st.assume(c, True, [truth])

    def step(self, f, i, env, st, depth, act, visit):
        op = i.op
        V = lambda a: self.val(env, f, a)
        if op == "load":
            p = V(i.args[0])
            v = self.load(st, p, i.ty)
            if i.ty == "i24":       # a structure of three bytes travelling in a register
                bs = [st.known(self.load(st, ptradd(p, k), "i8")) for k in range(3)]
                v = sum((b & 255) << (8 * k) for k, b in enumerate(bs)) if None not in bs else ("i24", v, p)
            env[i.res] = v
        elif op == "store":
            v, p = V(i.args[0]), V(i.args[1])
            if isinstance(v, int) and i.ty == "i24":
                for k in range(3):
                    self.store(st, ptradd(p, k), (v >> (8 * k)) & 255)
            else:
                self.store(st, p, v)
        elif op == "alloca":
            base = ("alloca", f.name, i.res, act)
            for k in [q for q in st.mem if q[0] == base]:
                del st.mem[k]
            env[i.res] = ("ptr", base, 0)
        elif op == "gep":
            env[i.res] = self.gep(f, i, env)
        elif op == "icmp":
            env[i.res] = self.icmp(st, i.x, V(i.args[0]), V(i.args[1]), i.ty)
        elif op == "fcmp":
            env[i.res] = ("fcmp", i.x, i.ty, V(i.args[0]), V(i.args[1]))
        elif op == "select":
            c = V(i.args[0])
            kc = st.known(c)
            a, b = V(i.args[1]), V(i.args[2])
            if kc is not None:
                env[i.res] = a if kc & 1 else b
            elif a == b:
                env[i.res] = a
            else:
                out = []
                for truth, v in ((1, a), (0, b)):
                    s2 = st.copy()
                    if self.branch(s2, c, truth):
                        e2 = dict(env)
                        e2[i.res] = v
                        out.append((e2, s2))
                return out
        elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze", "fptosi", "fptoui", "sitofp", "uitofp",
                    "fpext", "fptrunc"):
            env[i.res] = self.cast(i, V(i.args[0]))
        elif op == "call":
            return self.call(f, i, env, st, depth, act, visit)
        elif op == "extractvalue":
            a = V(i.args[0])
            env[i.res] = a[1][i.x[0]] if isinstance(a, tuple) and a[0] == "agg" and isinstance(a[1], dict) else ("ext", a, i.x)
        elif op == "insertvalue":
            env[i.res] = ("ins", V(i.args[0]), V(i.args[1]), i.x)
        elif op == "fneg":
            env[i.res] = ("fneg", i.ty, V(i.args[0]))
        elif i.res:
            if len(i.args) == 2:
                a, b = V(i.args[0]), V(i.args[1])
                ka, kb = st.known(a), st.known(b)
                if ka is not None and kb is not None:
                    a, b = ka, kb
                env[i.res] = self.binop(i, a, b)
            else:
                env[i.res] = (op, i.ty) + tuple(V(a) for a in i.args)
        return [(env, st)]

    def gep(self, f, i, env):
        b = self.val(env, f, i.args[0])
        off, field, bty, idx = i.x
        if off is None:
            vs = [self.val(env, f, a) for a in i.args[1:]]
            if all(isinstance(v, int) for v in vs):
                it = iter(vs)
                full = [next(it) if k is None else k for k in idx]
                off = self.gepoff(f.unit, bty, full)
            else:
                r = ("ptr", ("idx", b, tuple(vs), bty), self.gepoff(f.unit, bty, [0 if k is None else k for k in idx]))
                return r
        r = ptradd(b, off)
        if field:
            self.names[r] = field
        return r

    def gepoff(self, un, ty, idx):
        T = self._types(un)
        off = idx[0] * T.layout(ty)[0]
        cur = ty
        for i in idx[1:]:
            lay = T.layout(cur)
            if lay[2] is not None:
                off += lay[2][i]
                cur = lay[3][i]
            else:
                cur = lay[3]
                off += i * T.layout(cur)[0]
        return off

    def slot(self, f, i):
        """struct.member through which an indirect call goes"""
        defs = self.defs.get(f.key)
        if defs is None:
            defs = self.defs[f.key] = {x.res: x for x in f.instrs() if x.res}
        d = defs.get(i.args[0])
        if d is not None and d.op == "load":
            g = defs.get(d.args[0])
            if g is not None and g.op == "gep" and g.x[1]:
                return self.field_name(f.unit, g.x[1])
        return None

    def field_name(self, un, field):
        s, k = field
        nm = s.lstrip("%").strip('"')
        nm = nm.split(".", 1)[1] if "." in nm else nm
        nm = nm.rsplit(".", 1)[0] if nm.rsplit(".", 1)[-1].isdigit() else nm
        T = self._types(un)
        off = T.layout(s)[2][k]
        for m, ty, o, size in self.prog.members.get(nm, ()):
            if o == off and "." not in m:
                return nm + "." + m
        return "%s.%d" % (nm, k)

    def call(self, f, i, env, st, depth, act, visit):
        c = i.args[0]
        if c == "asm":
            if i.res:
                env[i.res] = ("asm",)
            return [(env, st)]
        name, callee = None, None
        args = [self.val(env, f, a) for a in i.args[1:]]
        if isinstance(c, str) and c[0] == "@":
            name = c[1:].strip('"')
            callee = self.prog.callee(i)
        elif isinstance(c, str):
            cv = self.val(env, f, c)
            if isinstance(cv, tuple) and cv[0] == "fn":
                callee = self.prog.funcs.get(cv[1])
                name = cv[1].split(":")[-1]
            slot = self.slot(f, i)
            if slot in self.models:
                name = slot
            elif name is None:
                name = slot or "?indirect"
        if name.startswith("llvm."):
            if name.startswith(("llvm.memcpy", "llvm.memmove")):
                self.memcpy(st, args)
            elif name.startswith("llvm.memset"):
                base, off = addr(args[0])
                n = args[2] if isinstance(args[2], int) else None
                for k in [q for q in st.mem if q[0] == base and (n is None or isinstance(q[1], int) and off <= q[1] < off + n)]:
                    del st.mem[k]
                st.ranges = st.ranges + ((base, off, n, 0 if args[1] == 0 else ("out", "memset", 0)),)
            elif i.res:
                env[i.res] = ("call", name, tuple(args))
            return [(env, st)]
        m = self.models.get(name)
        if m is None and callee is not None:
            m = self.models.get(callee.name)
        if m is not None:
            r = m(self, st, i, args)
            if r is not None:
                out = []
                for v, s2 in r:
                    e2 = dict(env) if len(r) > 1 else env
                    if i.res:
                        e2[i.res] = v
                    out.append((e2, s2))
                return out
        if callee is not None and self.inline(callee, st):
            out = []
            rs = self.run(callee, args, st.copy(), depth + 1)
            for v, s2 in rs:
                e2 = dict(env)
                if i.res:
                    e2[i.res] = v
                out.append((e2, s2))
            return out
        return self.opaque_call(f, i, env, st, name, callee, args, act, visit)

    def opaque_call(self, f, i, env, st, name, callee, args, act, visit):
        self.opaque.add(name)
        tag = ("call", name, tuple(args))
        n = st.x.get("ncall", 0)
        st.x["ncall"] = n + 1
        for k, a in enumerate(args):
            self.havoc(st, a, (name, n), k)
        if i.res:
            status = (callee is not None and callee.ret_name == "kefir_result_t") or (callee is None and i.ty == "i32" and not name[0].islower() is False and "." in name)
            env[i.res] = 0 if status else tag
        return [(env, st)]

    def memcpy(self, st, args):
        d, s, n = args[0], args[1], args[2]
        db, do = addr(d)
        sb, so = addr(s)
        if not isinstance(n, int):
            self.havoc(st, d, ("memcpy",), 0)
            return
        for k in [q for q in st.mem if q[0] == db and isinstance(q[1], int) and isinstance(do, int) and do <= q[1] < do + n]:
            del st.mem[k]
        st.ranges = st.ranges + ((db, do, n, ("ptr", sb, so)),)
        for (b, o), v in list(st.mem.items()):
            if b == sb and isinstance(o, int) and isinstance(so, int) and so <= o < so + n:
                st.mem[(db, do + o - so)] = v


def addr(p):
    if isinstance(p, tuple) and p and p[0] == "ptr":
        return p[1], p[2]
    return p, 0


def ptradd(b, off):
    if isinstance(b, tuple) and b and b[0] == "ptr":
        return ("ptr", b[1], b[2] + off if isinstance(b[2], int) and isinstance(off, int) else ("+", b[2], off)) if off != 0 else b
    if off == 0 and (b == 0 or not isinstance(b, int)):
        return b
    return ("ptr", b, off)


def cstring(s):
    out, k = [], 2
    while k < len(s) - 1:
        if s[k] == "\\" and s[k + 1] == "\\":
            out.append("\\")
            k += 2
        elif s[k] == "\\":
            out.append(chr(int(s[k + 1:k + 3], 16)))
            k += 3
        else:
            out.append(s[k])
            k += 1
    return "".join(out)
