"""Abstract interpretation of the amd64 runtime routines over a bit-provenance domain.

The assembly source is assembled (never executed) and its listing decoded.  Every register and memory byte holds a vector of
bits; a bit is a constant, the j-th bit of an input byte, or the j-th bit of an uninterpreted operation result.  Copies,
shifts by known amounts, masks, extensions and merges are therefore tracked exactly for all operand values; arithmetic is
tracked as terms.  Addresses are base + constant."""
import os, re, subprocess, tempfile
from .ir import AnalysisBroken

M64 = (1 << 64) - 1
R64 = "rax rbx rcx rdx rsi rdi rbp rsp r8 r9 r10 r11 r12 r13 r14 r15".split()
REG = {}
for r in R64:
    REG[r] = (r, 0, 64)
for r in "ax bx cx dx si di bp sp".split():
    REG["e" + r] = ("r" + r, 0, 32)
    REG[r] = ("r" + r, 0, 16)
for r in "abcd":
    REG[r + "l"] = ("r" + r + "x", 0, 8)
    REG[r + "h"] = ("r" + r + "x", 8, 8)
for r in ("si", "di", "bp", "sp"):
    REG[r + "l"] = ("r" + r, 0, 8)
for k in range(8, 16):
    REG["r%dd" % k] = ("r%d" % k, 0, 32)
    REG["r%dw" % k] = ("r%d" % k, 0, 16)
    REG["r%db" % k] = ("r%d" % k, 0, 8)
SIZES = {"BYTE": 8, "WORD": 16, "DWORD": 32, "QWORD": 64, "TBYTE": 80, "XMMWORD": 128}


class Unsupported(Exception):
    pass


class Listing:
    """decoded instructions by address, symbols, section bytes"""

    def __init__(self, src):
        if not os.path.exists(src):
            raise AnalysisBroken("runtime source %s not found" % src)
        with tempfile.TemporaryDirectory() as d:
            o = os.path.join(d, "rt.o")
            p = subprocess.run(["as", "-g", "-o", o, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise AnalysisBroken("assembling %s failed: %s" % (src, p.stdout.decode()[-500:]))
            t = subprocess.run(["objdump", "-d", "-l", "-r", "-M", "intel", "--no-show-raw-insn", o], stdout=subprocess.PIPE).stdout.decode()
            b = os.path.join(d, "text.bin")
            subprocess.run(["objcopy", "-O", "binary", "-j", ".text", o, b], check=True)
            self.text = open(b, "rb").read()
            s = subprocess.run(["objdump", "-t", o], stdout=subprocess.PIPE).stdout.decode()
        self.sym, self.at, self.glob = {}, {}, set()
        for l in s.splitlines():
            m = re.match(r"([0-9a-f]{16}) (.{7}) \.text\s+[0-9a-f]+\s+(?:\.hidden )?(\S+)$", l)
            if m and m.group(3) != ".text":
                self.sym[m.group(3)] = int(m.group(1), 16)
                if m.group(2)[0] == "g":
                    self.glob.add(m.group(3))
        self.ins, line, last = {}, 0, None
        order = []
        for l in t.splitlines():
            m = re.match(r"(/\S+|\S+\.s):(\d+)$", l)
            if m:
                line = int(m.group(2))
                continue
            m = re.match(r"\s+([0-9a-f]+):\t(.*)$", l)
            if m and not l.startswith("\t\t\t"):
                a = int(m.group(1), 16)
                txt = m.group(2)
                tgt = re.search(r"#\s+([0-9a-f]+) <", txt)
                txt = txt.split("#")[0].strip()
                self.ins[a] = [txt, line, int(tgt.group(1), 16) if tgt else None, None, None]
                order.append(a)
                last = a
                continue
            m = re.match(r"\s+[0-9a-f]+: R_X86_64_32S?\s+\.text\+0x([0-9a-f]+)", l)
            if m and last is not None:
                self.ins[last][3] = int(m.group(1), 16)
        for x, y in zip(order, order[1:]):
            self.ins[x][4] = y


# ---------------------------------------------------------------- values

def bits(v, n=64):
    if isinstance(v, int):
        return tuple((v >> j) & 1 for j in range(n))
    if v[0] == "b":
        b = v[1]
        return b[:n] if len(b) >= n else b + (0,) * (n - len(b))
    if v[0] == "ld":
        _, base, off, w = v
        out = []
        for k in range(min(w, n // 8)):
            out += [(("byte", base, off + k), j) for j in range(8)]
        return tuple(out) + (0,) * (n - len(out))
    w = width(v)
    return tuple((v, j) for j in range(min(w, n))) + (0,) * max(0, n - w)


def width(v):
    if isinstance(v, int):
        return 64
    if v[0] == "ptr":
        return 64
    if v[0] == "b":
        return len(v[1])
    if v[0] == "ld":
        return v[3] * 8
    return v[1]


def mk(bs):
    """canonical value of a bit vector"""
    if all(isinstance(b, int) for b in bs):
        return sum(b << j for j, b in enumerate(bs))
    n = len(bs)
    while n > 1 and bs[n - 1] == 0:
        n -= 1
    b0 = bs[0]
    if not isinstance(b0, int) and b0[1] == 0:
        t = b0[0]
        if t[0] == "byte":
            m = (n + 7) // 8
            ok = all(isinstance(bs[j], tuple) and bs[j] == (("byte", t[1], t[2] + j // 8), j % 8) for j in range(n)) and n % 8 == 0
            if ok and m in (1, 2, 4, 8, 10):
                return ("ld", t[1], t[2], m)
        elif width(t) == n and all(bs[j] == (t, j) for j in range(n)):
            return t
    return ("b", tuple(bs[:n]) if n < len(bs) else tuple(bs))


def op(name, w, *args):
    if name in ("add", "mul", "fadd", "fmul"):
        args = tuple(sorted(args, key=repr))
    return (name, w) + tuple(args)


NEGP = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "ult": "uge", "uge": "ult", "oeq": "une", "une": "oeq", "olt": "uge_f",
        "uge_f": "olt", "ole": "ugt_f", "ugt_f": "ole", "ord": "uno", "uno": "ord", "ueq": "one", "one": "ueq"}


def cond(p, w, a, b):
    """one-bit condition in normal form"""
    if p in ("sgt", "ugt"):
        return cond(p[0] + "lt", w, b, a)
    if p in ("sle", "ule"):
        return cond(p[0] + "ge", w, b, a)
    if p in ("ogt", "oge"):
        return cond("olt" if p == "ogt" else "ole", w, b, a)
    if isinstance(a, int) and isinstance(b, int) and p[0] in "esnu" and p not in ("une", "ueq", "uno"):
        sa, sb = (a & ((1 << w) - 1)), (b & ((1 << w) - 1))
        if p[0] == "s":
            sa = sa - (1 << w) if sa >> (w - 1) else sa
            sb = sb - (1 << w) if sb >> (w - 1) else sb
        return int({"eq": sa == sb, "ne": sa != sb, "slt": sa < sb, "sge": sa >= sb, "ult": sa < sb, "uge": sa >= sb}[p])
    if p in ("eq", "ne", "oeq", "une", "ord", "uno", "ueq", "one"):
        if isinstance(a, int) and not isinstance(b, int):
            a, b = b, a
        elif not isinstance(b, int):
            a, b = sorted((a, b), key=repr)
    if p in ("eq", "ne") and b == 0:
        bb = bits(a, w)
        live = [x for x in bb if x != 0]
        if any(x == 1 for x in live):
            return int(p == "ne")
        if not live:
            return int(p == "eq")
        if len(live) == 1:
            return live[0] if p == "ne" else bnot(live[0])
    if p in ("slt", "sge") and b == 0 and isinstance(bits(a, w)[w - 1], int):
        return bits(a, w)[w - 1] if p == "slt" else 1 - bits(a, w)[w - 1]
    return (("cond", 1, p, w, a, b), 0)


def bnot(b):
    if isinstance(b, int):
        return 1 - b
    t = b[0]
    if t[0] == "cond":
        return (("cond", 1, NEGP[t[2]]) + t[3:], 0)
    if t[0] == "not1":
        return t[2]
    return (("not1", 1, b), 0)


def band(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    ta, tb = a[0], b[0]
    if ta[0] == "cond" and tb[0] == "cond" and ta[3:] == tb[3:]:
        ps = {ta[2], tb[2]}
        if ps == {"ord", "ueq"}:
            return cond("oeq", *ta[3:])
    return (("and1", 1) + tuple(sorted((a, b), key=repr)), 0)


def bor(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0 or a == b:
        return a
    ta, tb = a[0], b[0]
    if ta[0] == "cond" and tb[0] == "cond" and ta[3:] == tb[3:] and {ta[2], tb[2]} == {"uno", "one"}:
        return cond("une", *ta[3:])
    return (("or1", 1) + tuple(sorted((a, b), key=repr)), 0)


def bxor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a == 1:
        return bnot(b)
    if b == 1:
        return bnot(a)
    if a == b:
        return 0
    return (("xor1", 1) + tuple(sorted((a, b), key=repr)), 0)


def bite(c, a, b):
    if a == b:
        return a
    if c == 1:
        return a
    if c == 0:
        return b
    if a == 1 and b == 0:
        return c
    if a == 0 and b == 1:
        return bnot(c)
    return (("ite1", 1, c, a, b), 0)


def addv(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & ((1 << w) - 1)
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        s = b - (1 << w) if b >> (w - 1) else b
        if a[0] == "ptr":
            return ("ptr", a[1], a[2] + s)
        if a[0] == "add" and isinstance(a[3], int):
            c = (a[3] + b) & ((1 << w) - 1)
            return a[2] if c == 0 else ("add", w, a[2], c)
        if b == 0:
            return a
        return ("add", w, a, b)
    if a[0] == "ptr" and b[0] == "neg" and b[2][0] == "ptr" and b[2][1] == a[1]:
        return (a[2] - b[2][2]) & M64
    return op("add", w, a, b)


def negv(a, w=64):
    if isinstance(a, int):
        return (-a) & ((1 << w) - 1)
    if a[0] == "neg":
        return a[2]
    return ("neg", w, a)


def subv(a, b, w=64):
    if isinstance(b, int):
        return addv(a, (-b) & ((1 << w) - 1), w)
    if not isinstance(a, int) and a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1]:
        return (a[2] - b[2]) & ((1 << w) - 1)
    if a == b:
        return 0
    return ("sub", w, a, b)


class St:
    def __init__(self):
        self.r = {x: ("init_" + x, 64) for x in R64}
        self.r["rsp"] = ("ptr", "S", 0)
        self.r["rbx"] = ("ptr", "P", 0)
        self.r["r14"] = ("ptr", "B", 0)
        self.x = {}
        self.fp = []
        self.mem = {}
        self.flags = None
        self.df = 0
        self.cw = ("ld", "CW", 0, 2)
        self.mxcsr = ("ld", "MXCSR", 0, 4)
        self.path = []
        self.written = {}
        self.reads = set()

    def copy(self):
        s = St()
        s.r, s.x, s.fp, s.mem = dict(self.r), dict(self.x), list(self.fp), dict(self.mem)
        s.flags, s.df, s.cw, s.path, s.mxcsr = self.flags, self.df, self.cw, list(self.path), self.mxcsr
        s.written, s.reads = dict(self.written), set(self.reads)
        return s

    def load(self, a, n):
        if isinstance(a, int) or a[0] != "ptr":
            base, off = ("abs" if isinstance(a, int) else a), (a if isinstance(a, int) else 0)
            if not isinstance(a, int) and a[0] == "add" and isinstance(a[3], int):
                base, off = a[2], a[3] if a[3] < 1 << 63 else a[3] - (1 << 64)
        else:
            base, off = a[1], a[2]
        out = []
        for k in range(n // 8):
            b = self.mem.get((base, off + k))
            if b is None:
                self.reads.add((base, off + k))
                b = tuple((("byte", base, off + k), j) for j in range(8))
            out += b
        return tuple(out)

    def store(self, a, bs):
        if isinstance(a, int) or a[0] != "ptr":
            base, off = ("abs" if isinstance(a, int) else a), (a if isinstance(a, int) else 0)
            if not isinstance(a, int) and a[0] == "add" and isinstance(a[3], int):
                base, off = a[2], a[3] if a[3] < 1 << 63 else a[3] - (1 << 64)
        else:
            base, off = a[1], a[2]
        for k in range(len(bs) // 8):
            self.mem[(base, off + k)] = tuple(bs[8 * k:8 * k + 8])
            self.written[(base, off + k)] = tuple(bs[8 * k:8 * k + 8])


class Machine:
    def __init__(self, lst, maxsteps=3000):
        self.l = lst
        self.maxsteps = maxsteps
        self.steps = 0

    # ------------------------------------------------------------ operands
    def operand(self, s, st, ins):
        """('r',reg,shift,width) | ('x',n) | ('m',addr,width) | ('i',v) | ('st',k)"""
        s = s.strip()
        if s in REG:
            return ("r",) + REG[s]
        if re.match(r"xmm\d+$", s):
            return ("x", s)
        m = re.match(r"st(?:\((\d)\))?$", s)
        if m:
            return ("st", int(m.group(1) or 0))
        m = re.match(r"(?:(BYTE|WORD|DWORD|QWORD|TBYTE|XMMWORD) PTR )?(?:[a-z]s:)?\[(.*)\]$", s)
        if m:
            return ("m", self.address(m.group(2), st, ins), SIZES.get(m.group(1), 64))
        m = re.match(r"(?:(BYTE|WORD|DWORD|QWORD|TBYTE|XMMWORD) PTR )?[a-z]s:(0x[0-9a-f]+)$", s)
        if m:
            if ins[3] is not None:
                return ("m", ("ptr", "T", ins[3]), SIZES.get(m.group(1), 64))
            raise Unsupported(s)
        if re.match(r"-?(0x)?[0-9a-f]+$", s):
            return ("i", int(s, 16) & M64 if "x" in s else int(s, 10) & M64)
        raise Unsupported("operand " + s)

    def address(self, e, st, ins):
        if e.startswith("rip"):
            if ins[2] is None:
                raise Unsupported(e)
            return ("ptr", "T", ins[2])
        v = 0
        for sign, term in re.findall(r"([+-]?)([^+-]+)", e):
            m = re.match(r"(\w+)\*(\d)$", term)
            if m and m.group(1) in REG:
                r = self.rd(("r",) + REG[m.group(1)], st)
                x = mk(tuple([0] * {1: 0, 2: 1, 4: 2, 8: 3}[int(m.group(2))]) + bits(r, 64))[:0] if False else self.shl(r, {1: 0, 2: 1, 4: 2, 8: 3}[int(m.group(2))])
            elif term in REG:
                x = self.rd(("r",) + REG[term], st)
            else:
                x = int(term, 0) & M64
            v = subv(v, x) if sign == "-" else addv(v, x)
        return v

    def shl(self, v, k, w=64):
        return mk(((0,) * k + bits(v, w))[:w])

    def rd(self, o, st):
        if o[0] == "i":
            return o[1]
        if o[0] == "r":
            _, r, sh, w = o
            v = st.r[r]
            if w == 64:
                return v
            return mk(bits(v, 64)[sh:sh + w])
        if o[0] == "m":
            if not isinstance(o[1], int) and o[1][0] == "ptr" and o[1][1] == "T":
                n = o[2] // 8
                return int.from_bytes(self.l.text[o[1][2]:o[1][2] + n], "little")
            return mk(st.load(o[1], o[2]))
        raise Unsupported("read %r" % (o,))

    def wr(self, o, v, st):
        if o[0] == "r":
            _, r, sh, w = o
            if w == 64:
                st.r[r] = mk(bits(v, 64)) if not (isinstance(v, tuple) and v[0] == "ptr") else v
            elif w == 32:
                st.r[r] = mk(bits(v, 32) + (0,) * 32)
            else:
                b = list(bits(st.r[r], 64))
                b[sh:sh + w] = bits(v, w)
                st.r[r] = mk(tuple(b))
        elif o[0] == "m":
            st.store(o[1], bits(v, o[2]))
        else:
            raise Unsupported("write %r" % (o,))

    def w(self, *os_):
        for o in os_:
            if o[0] == "r":
                return o[3]
        for o in os_:
            if o[0] == "m":
                return o[2]
        return 64

    # ------------------------------------------------------------ flags
    def cc(self, c, fl):
        if fl is None:
            raise Unsupported("condition on unknown flags")
        k, w, a, b = fl
        c = {"z": "e", "nz": "ne", "nae": "b", "c": "b", "nc": "ae", "nb": "ae", "na": "be", "nbe": "a", "nge": "l", "nl": "ge", "ng": "le", "nle": "g"}.get(c, c)
        if k == "cmp":
            p = {"e": "eq", "ne": "ne", "g": "sgt", "l": "slt", "ge": "sge", "le": "sle", "a": "ugt", "b": "ult", "ae": "uge", "be": "ule"}.get(c)
            if p is None and b == 0 and c in ("s", "ns"):
                p = "slt" if c == "s" else "sge"
            if p is None:
                raise Unsupported("cc " + c)
            return cond(p, w, a, b)
        if k == "res":
            if c in ("e", "ne"):
                return cond("eq" if c == "e" else "ne", w, a, 0)
            if c in ("s", "l"):
                return cond("slt", w, a, 0)
            if c in ("ns", "ge"):
                return cond("sge", w, a, 0)
            if c == "g":
                return cond("sgt", w, a, 0)
            if c == "le":
                return cond("sle", w, a, 0)
            raise Unsupported("cc %s after logic" % c)
        if k == "fcmp":
            p = {"a": "ogt", "ae": "oge", "b": "uge_f", "be": "ugt_f", "e": "ueq", "ne": "one", "p": "uno", "np": "ord"}.get(c)
            if p is None:
                raise Unsupported("cc %s after fp compare" % c)
            if p == "uge_f":     # unordered or less: not (a >= b)
                return bnot(cond("oge", w, a, b))
            if p == "ugt_f":
                return bnot(cond("ogt", w, a, b))
            return cond(p, w, a, b)
        raise Unsupported(k)

    # ------------------------------------------------------------ run
    def run(self, addr, st, calls=None):
        """list of (exit kind, state); exit kind: ('next',) | ('goto', value) | ('ret',) | ('jmpreg', value)"""
        outs, work = [], [(addr, st)]
        while work:
            a, st = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise Unsupported("step limit")
                ins = self.l.ins.get(a)
                if ins is None:
                    raise Unsupported("runs off the code at %x" % a)
                r = self.step(a, ins, st)
                if r is None:
                    a = ins[4]
                    continue
                if r[0] == "goto_addr":
                    a = r[1]
                    continue
                if r[0] == "fork":
                    c, tgt = r[1], r[2]
                    if c == 1:
                        a = tgt
                        continue
                    if c == 0:
                        a = ins[4]
                        continue
                    known = [t for cc_, t in st.path if cc_ == c] or [1 - t for cc_, t in st.path if cc_ == bnot(c)]
                    if known:
                        a = tgt if known[0] else ins[4]
                        continue
                    s2 = st.copy()
                    s2.path.append((c, 1))
                    work.append((tgt, s2))
                    st.path.append((c, 0))
                    a = ins[4]
                    continue
                outs.append((r, st, ins[1]))
                break
        return outs

    def step(self, a, ins, st):
        t = ins[0]
        rep = None
        if t.startswith("rep "):
            rep, t = True, t[4:]
        m = re.match(r"(\S+)\s*(.*)$", t)
        mn, rest = m.group(1), m.group(2).strip()
        if mn in ("jmp", "call") or mn[0] == "j":
            m = re.match(r"([0-9a-f]+) <", rest)
            if m:
                tgt = int(m.group(1), 16)
                if mn == "jmp":
                    return ("goto_addr", tgt)
                if mn == "call":
                    raise Unsupported("call")
                return ("fork", self.cc(mn[1:], st.flags), tgt)
            if mn == "call":
                raise Unsupported("call")
            o = self.operand(rest, st, ins)
            if o[0] == "m":
                return ("jmpmem", o[1])
            return ("jmpreg", self.rd(o, st))
        if mn == "ret":
            return ("ret",)
        if mn in ("nop", "data16", "fwait"):
            return None
        if mn == "movs" or mn.startswith("movs") and "es:[rdi]" in rest:
            n = {"BYTE": 1, "WORD": 2, "DWORD": 4, "QWORD": 8}[rest.split(" ")[0]]
            cnt = 1
            if rep:
                cnt = st.r["rcx"]
                if not isinstance(cnt, int):
                    raise Unsupported("rep movs with unknown count")
                if cnt > 4096:
                    raise Unsupported("rep movs with huge count")
                st.r["rcx"] = 0
            d = -n if st.df else n
            for _ in range(cnt):
                st.store(st.r["rdi"], st.load(st.r["rsi"], n * 8))
                st.r["rsi"] = addv(st.r["rsi"], d & M64)
                st.r["rdi"] = addv(st.r["rdi"], d & M64)
            return None
        if mn in ("cld", "std"):
            st.df = int(mn == "std")
            return None
        if mn == "cqo":
            v = st.r["rax"]
            b = bits(v, 64)[63]
            st.r["rdx"] = mk((b,) * 64)
            return None
        ops = [self.operand(x, st, ins) for x in split_ops(rest)] if rest else []
        O = lambda k: self.rd(ops[k], st)
        if mn.startswith("f"):
            return self.x87(mn, ops, st)
        if any(o[0] == "x" for o in ops):
            return self.sse(mn, ops, st)
        w = self.w(*ops) if ops else 64
        if mn in ("mov", "movabs"):
            self.wr(ops[0], O(1), st)
        elif mn == "movzx":
            self.wr(ops[0], mk(bits(O(1), ops[1][3] if ops[1][0] == "r" else ops[1][2]) + (0,) * 64)[:0] if False else mk(pad(bits(O(1), opw(ops[1])), 0)), st)
        elif mn in ("movsx", "movsxd"):
            b = bits(O(1), opw(ops[1]))
            self.wr(ops[0], mk(pad(b, b[-1])), st)
        elif mn == "lea":
            v = ops[1][1]
            self.wr(ops[0], v, st)
        elif mn == "push":
            v = O(0)
            if opw(ops[0]) != 64 and ops[0][0] != "i":
                raise Unsupported("push width")
            st.r["rsp"] = addv(st.r["rsp"], -8 & M64)
            st.store(st.r["rsp"], bits(v, 64))
        elif mn == "pop":
            v = mk(st.load(st.r["rsp"], 64))
            st.r["rsp"] = addv(st.r["rsp"], 8)
            self.wr(ops[0], v, st)
        elif mn == "xchg":
            x, y = O(0), O(1)
            self.wr(ops[0], y, st)
            self.wr(ops[1], x, st)
        elif mn in ("add", "sub", "inc", "dec"):
            x = O(0)
            y = O(1) if len(ops) > 1 else 1
            if isinstance(y, int):
                y &= (1 << w) - 1
            self.wr(ops[0], addv(x, y, w) if mn in ("add", "inc") else subv(x, y, w), st)
            st.flags = ("cmp", w, x, y) if mn == "sub" else None
        elif mn == "neg":
            self.wr(ops[0], negv(O(0), w), st)
            st.flags = None
        elif mn == "not":
            self.wr(ops[0], mk(tuple(bnot(b) for b in bits(O(0), w))), st)
        elif mn in ("and", "or", "xor", "test"):
            x, y = O(0), O(1)
            if mn == "xor" and x == y:
                r = 0
            elif mn == "and" and not isinstance(x, int) and x[0] == "ptr" and isinstance(y, int):
                r = ("ptr", x[1], x[2] & (y if y < 1 << 63 else y - (1 << 64)))   # bases are maximally aligned
            else:
                f = {"and": band, "test": band, "or": bor, "xor": bxor}[mn]
                r = mk(tuple(f(p, q) for p, q in zip(bits(x, w), bits(y, w))))
            st.flags = ("res", w, r, 0)
            if mn != "test":
                self.wr(ops[0], r, st)
        elif mn == "cmp":
            y = O(1)
            st.flags = ("cmp", w, O(0), y & ((1 << w) - 1) if isinstance(y, int) else y)
        elif mn in ("shl", "shr", "sar", "shlx", "shrx", "sarx"):
            if mn.endswith("x"):
                src, cnt = O(1), O(2)
            else:
                src, cnt = O(0), (O(1) if len(ops) > 1 else 1)
                if not isinstance(cnt, int) and opw(ops[1]) == 8:
                    cnt = self.rd(("r", ops[1][1], 0, 64), st)
            self.wr(ops[0], self.shift(mn[:3], src, cnt, w), st)
            if not mn.endswith("x"):
                st.flags = None
        elif mn == "imul":
            if len(ops) == 1:
                raise Unsupported("one operand imul")
            x, y = (O(0), O(1)) if len(ops) == 2 else (O(1), O(2))
            if isinstance(x, int) and isinstance(y, int):
                r = x * y & ((1 << w) - 1)
            else:
                r = op("mul", w, x, y)
            self.wr(ops[0], r, st)
            st.flags = None
        elif mn in ("idiv", "div"):
            if w != 64:
                raise Unsupported("narrow division")
            hi, lo, d = st.r["rdx"], st.r["rax"], O(0)
            if mn == "idiv" and hi == mk((bits(lo, 64)[63],) * 64):
                k = "s"
            elif mn == "div" and hi == 0:
                k = "u"
            else:
                raise Unsupported("dividend not extended for %s" % mn)
            st.r["rax"] = (k + "div", 64, lo, d)
            st.r["rdx"] = (k + "rem", 64, lo, d)
            st.flags = None
        elif mn.startswith("cmov"):
            c = self.cc(mn[4:], st.flags)
            self.wr(ops[0], mk(tuple(bite(c, p, q) for p, q in zip(bits(O(1), w), bits(O(0), w)))), st)
        elif mn.startswith("set"):
            self.wr(ops[0], mk((self.cc(mn[3:], st.flags),) + (0,) * 7), st)
        elif mn in ("ldmxcsr",):
            st.mxcsr = O(0) if ops[0][0] != "m" else mk(st.load(ops[0][1], 32))
        elif mn in ("stmxcsr",):
            st.store(ops[0][1], bits(st.mxcsr, 32))
        else:
            raise Unsupported(mn)
        return None

    def shift(self, k, v, cnt, w):
        if not isinstance(cnt, int):
            return (k, w, v, cnt)
        cnt &= w - 1
        b = bits(v, w)
        if k == "shl":
            return mk(((0,) * cnt + b)[:w])
        fill = 0 if k == "shr" else b[-1]
        return mk(b[cnt:] + (fill,) * cnt)

    # ------------------------------------------------------------ sse
    def sse(self, mn, ops, st):
        def lo(o, n):
            if o[0] == "x":
                return mk(bits(st.x.get(o[1], ("init_" + o[1], 128)), 128)[:n])
            v = self.rd(("m", o[1], n), st) if o[0] == "m" else self.rd(o, st)
            return v

        def setlo(o, v, n, keep=True):
            b = list(bits(st.x.get(o[1], ("init_" + o[1], 128)), 128)) if keep else [0] * 128
            b[:n] = bits(v, n)
            st.x[o[1]] = mk(tuple(b))
        F = {"ss": 32, "sd": 64}
        suf = F.get(mn[-2:])
        if mn in ("movss", "movsd", "movd", "movq", "movlps"):
            n = {"movss": 32, "movsd": 64, "movd": 32, "movq": 64, "movlps": 64}[mn]
            if ops[0][0] == "x":
                setlo(ops[0], lo(ops[1], n), n, keep=(mn == "movlps" or (ops[1][0] == "x" and mn in ("movss", "movsd"))))
            elif ops[0][0] == "m":
                st.store(ops[0][1], bits(lo(ops[1], n), n))
            else:
                self.wr(ops[0], lo(ops[1], n), st)
        elif mn in ("movaps", "movups", "movapd"):
            if ops[0][0] == "x":
                setlo(ops[0], lo(ops[1], 128), 128)
            else:
                st.store(ops[0][1], bits(lo(ops[1], 128), 128))
        elif mn in ("pxor", "xorps", "xorpd", "andps", "andpd"):
            x, y = lo(ops[0], 128), lo(ops[1], 128)
            f = band if mn.startswith("and") else bxor
            setlo(ops[0], 0 if x == y and f is bxor else mk(tuple(f(p, q) for p, q in zip(bits(x, 128), bits(y, 128)))), 128)
        elif mn[:3] in ("add", "sub", "mul", "div") and suf:
            setlo(ops[0], op("f" + mn[:3], suf, lo(ops[0], suf), lo(ops[1], suf)), suf)
        elif mn.startswith("cmp") and suf:
            p = {"eq": "oeq", "lt": "olt", "le": "ole", "neq": "une", "unord": "uno", "ord": "ord", "nlt": "uge_f", "nle": "ugt_f"}[mn[3:-2]]
            x, y = lo(ops[0], suf), lo(ops[1], suf)
            c = bnot(cond("olt" if p == "uge_f" else "ole", suf, x, y)) if p.endswith("_f") else cond(p, suf, x, y)
            setlo(ops[0], mk((c,) * suf), suf)
        elif mn in ("comiss", "ucomiss", "comisd", "ucomisd"):
            st.flags = ("fcmp", suf, lo(ops[0], suf), lo(ops[1], suf))
        elif mn in ("cvtsi2ss", "cvtsi2sd"):
            n = opw(ops[1])
            setlo(ops[0], ("sitofp", suf, n, self.rd(ops[1], st)), suf)
        elif mn in ("cvttss2si", "cvttsd2si"):
            n = 32 if "ss2" in mn else 64
            self.wr(ops[0], ("fptosi", opw(ops[0]), n, lo(ops[1], n), "trunc"), st)
        elif mn == "cvtss2sd":
            setlo(ops[0], ("fpext", 64, 32, lo(ops[1], 32)), 64)
        elif mn == "cvtsd2ss":
            setlo(ops[0], ("fptrunc", 32, 64, lo(ops[1], 64)), 32)
        else:
            raise Unsupported(mn)
        return None

    # ------------------------------------------------------------ x87
    def x87(self, mn, ops, st):
        def top(k=0):
            if len(st.fp) <= k:
                raise Unsupported("x87 stack underflow")
            return st.fp[-1 - k]
        if mn == "fld":
            if ops[0][0] == "m":
                n = ops[0][2]
                v = self.rd(ops[0], st)
                st.fp.append(v if n == 80 else ("fpext", 80, n, v))
            else:
                st.fp.append(top(ops[0][1]))
        elif mn == "fldz":
            st.fp.append(("f80const", 80, 0))
        elif mn == "fld1":
            st.fp.append(("f80const", 80, 1))
        elif mn == "fild":
            n = ops[0][2]
            st.fp.append(("sitofp", 80, n, self.rd(ops[0], st)))
        elif mn in ("fstp", "fst"):
            v = top()
            if ops[0][0] == "m":
                n = ops[0][2]
                st.store(ops[0][1], bits(v if n == 80 else ("fptrunc", n, 80, v), n))
            else:
                st.fp[-1 - ops[0][1]] = v
            if mn == "fstp":
                st.fp.pop()
        elif mn in ("fistp", "fisttp"):
            n = ops[0][2]
            cwb = bits(st.cw, 16)
            mode = "trunc" if mn == "fisttp" or (cwb[10] == 1 and cwb[11] == 1) else ("current" if st.cw == ("ld", "CW", 0, 2) else "other")
            st.store(ops[0][1], bits(("fptosi", n, 80, top(), mode), n))
            st.fp.pop()
        elif mn in ("faddp", "fmulp", "fsubp", "fdivp", "fsubrp", "fdivrp"):
            k = ops[0][1] if ops else 1
            x, y = top(k), top(0)
            nm = mn[:4]
            r = op(nm, 80, y, x) if mn in ("fsubrp", "fdivrp") else op(nm, 80, x, y)
            st.fp[-1 - k] = r
            st.fp.pop()
        elif mn in ("fadd", "fmul", "fsub", "fdiv"):
            if ops and ops[0][0] == "m":
                y = ("fpext", 80, ops[0][2], self.rd(ops[0], st))
                st.fp[-1] = op(mn, 80, top(), y)
            else:
                i, j = (ops[0][1], ops[1][1]) if len(ops) == 2 else (0, ops[0][1])
                st.fp[-1 - i] = op(mn, 80, top(i), top(j))
        elif mn == "fchs":
            st.fp[-1] = ("fneg", 80, top())
        elif mn == "fxch":
            k = ops[0][1] if ops else 1
            st.fp[-1], st.fp[-1 - k] = st.fp[-1 - k], st.fp[-1]
        elif mn in ("fucomip", "fcomip", "fucomi", "fcomi"):
            k = ops[-1][1]
            st.flags = ("fcmp", 80, top(0), top(k))
            if mn.endswith("p"):
                st.fp.pop()
        elif mn in ("fnstcw", "fstcw"):
            st.store(ops[0][1], bits(st.cw, 16))
        elif mn == "fldcw":
            st.cw = mk(st.load(ops[0][1], 16))
        else:
            raise Unsupported(mn)
        return None


def opw(o):
    return {"r": lambda: o[3], "m": lambda: o[2], "i": lambda: 64, "x": lambda: 128}[o[0]]()


def pad(b, f):
    return tuple(b) + (f,) * (64 - len(b))


def split_ops(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "[(":
            d += 1
        elif c in "])":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    return out
