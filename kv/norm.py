"""Normalised view of a few translation units: helpers of the unit are inlined, locals promoted and redundant loads
merged, so that extracting a helper, renaming a local or reordering a check does not change what a rule sees."""
import re, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import ir
from .ir import AnalysisBroken

PASSES = "function(sroa,early-cse),cgscc(inline),function(sroa,early-cse<memssa>,gvn,dce)"


def lower(src, repo=None, passes=PASSES, threshold=4000):
    repo = repo or ir.REPO
    p = subprocess.run(["clang", "-std=c11", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-g",
                        "-fstandalone-debug", "-w", "-fno-strict-aliasing", "-I", "headers", "-S", "-emit-llvm", "-o", "-", src], cwd=repo,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise AnalysisBroken("clang failed on %s:\n%s" % (src, p.stderr.decode()[-2000:]))
    q = subprocess.run(["opt", "-S", "-passes=" + passes, "-inline-threshold=%d" % threshold,
                        "-inlinehint-threshold=%d" % threshold], input=p.stdout,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if q.returncode:
        raise AnalysisBroken("opt failed on %s:\n%s" % (src, q.stderr.decode()[-2000:]))
    t = q.stdout.decode("utf-8", "replace")
    t = re.sub(r", !(tbaa|tbaa\.struct|noalias|alias\.scope|prof|range|noundef|nonnull|align|dereferenceable|inline_history) !\d+", "", t)
    return t


def load(srcs, repo=None, **kw):
    repo = repo or ir.REPO
    prog = ir.Program()

    def one(s):
        return s, lower(s, repo, **kw)
    with ThreadPoolExecutor(8) as ex:
        for s, text in ex.map(one, srcs):
            u = ir.load_unit_text(s, text)
            prog.units[s] = u
    ir.link(prog)
    return prog


class Cfg:
    """edges with the facts their branch conditions establish"""

    def __init__(self, f):
        self.f = f
        self.defs = {i.res: i for i in f.instrs() if i.res}
        self.blk = {}
        for b in f.order:
            for i in f.blocks[b].ins:
                self.blk[id(i)] = b
        self.defblk = {i.res: b for b in f.order for i in f.blocks[b].ins if i.res}
        self.pred = {b: [] for b in f.order}
        for b in f.order:
            t = f.blocks[b].ins[-1]
            if t.op == "br" and t.args:
                self.pred[t.x[0]].append((b, [(t.args[0], True)]))
                self.pred[t.x[1]].append((b, [(t.args[0], False)]))
            elif t.op == "br":
                self.pred[t.x[0]].append((b, []))
            elif t.op == "switch":
                d, cases = t.x
                per = {}
                for v, l in cases:
                    per.setdefault(l, []).append(v)
                for l, vs in per.items():
                    if l != d:
                        self.pred[l].append((b, [("switch", t.args[0], vs, True)]))
                self.pred[d].append((b, [("switch", t.args[0], [v for v, l in cases if l != d], False)]))
            elif t.op == "indirectbr":
                for l in t.x:
                    self.pred[l].append((b, []))

    def atoms(self, cond, truth, depth=0):
        """elementary facts (pred, a, b) implied by cond == truth"""
        if depth > 12:
            return []
        if isinstance(cond, tuple) and cond and cond[0] == "switch":
            _, v, vs, pos = cond
            return [("in", v, frozenset(vs))] if pos else [("notin", v, frozenset(vs))]
        i = self.defs.get(cond)
        if i is None:
            return []
        NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge",
               "uge": "ult", "ugt": "ule", "ule": "ugt"}
        if i.op == "icmp":
            p = i.x if truth else NEG[i.x]
            a, b = i.args
            out = [(p, a, b)]
            # bool wrapped: icmp ne (zext c), 0
            if b == 0 and p in ("eq", "ne"):
                z = self.defs.get(a)
                while z is not None and z.op in ("zext", "trunc", "freeze"):
                    nxt = self.defs.get(z.args[0])
                    if nxt is None:
                        break
                    z = nxt
                if z is not None and (z.op in ("icmp", "and", "or", "select", "xor", "phi")) and z.res != cond:
                    if z.op == "icmp" or z.ty == "i1":
                        out += self.atoms(z.res, p == "ne", depth + 1)
            return out
        if i.op in ("zext", "trunc", "freeze"):
            return self.atoms(i.args[0], truth, depth + 1)
        if i.op == "xor" and i.args[1] in (1, -1):
            return self.atoms(i.args[0], not truth, depth + 1)
        if i.op == "and" and truth or i.op == "or" and not truth:
            return self.atoms(i.args[0], truth, depth + 1) + self.atoms(i.args[1], truth, depth + 1)
        if i.op == "select":
            c, a, b = i.args
            if truth and b == 0:
                return self.atoms(c, True, depth + 1) + self.atoms(a, True, depth + 1)
            if not truth and a == 1:
                return self.atoms(c, False, depth + 1) + self.atoms(b, False, depth + 1)
        return []

    def edge_facts(self, conds):
        out = []
        for c in conds:
            if isinstance(c, tuple) and c[0] == "switch":
                out += self.atoms(c, True)
            else:
                out += self.atoms(c[0], c[1])
        return out

    def phi_facts(self, blk, pred):
        """facts known because blk is entered from pred: i1 phis become their incoming value"""
        return {}

    def guarded(self, use, stop, holds):
        """True when every backward path from instruction `use` passes an edge whose facts satisfy `holds`, before it
        reaches the definition of one of the `stop` values or the function entry.  Otherwise a witness list of blocks."""
        start = self.blk[id(use)]
        stops = {self.defblk.get(s) for s in stop if isinstance(s, str)}
        seen = set()
        # state: (block, pending i1 phi resolution handled by splitting at the phi's block)
        work = [(start, (start,))]
        while work:
            b, path = work.pop()
            if b in seen:
                continue
            seen.add(b)
            preds = self.pred[b]
            if b == self.f.entry or not preds:
                return list(path)
            if b in stops and b != start:
                return list(path)
            for (p, conds) in preds:
                fs = self.edge_facts(conds)
                if holds(fs):
                    continue
                # condition is a phi of i1 in p (short circuit): resolve per incoming edge
                c = conds[0][0] if conds and not (isinstance(conds[0], tuple) and conds[0][0] == "switch") else None
                ph = self.defs.get(c) if c else None
                if ph is not None and ph.op == "phi" and self.defblk[c] == p:
                    truth = conds[0][1]
                    for v, inc in zip(ph.args, ph.x):
                        if isinstance(v, int):
                            if bool(v) != truth:
                                continue
                            fs2 = []
                        else:
                            fs2 = self.atoms(v, truth)
                        for (pp, cc) in self.pred[p]:
                            if pp == inc:
                                fs2 = fs2 + self.edge_facts(cc)
                        if holds(fs2):
                            continue
                        work.append((inc, path + (p, inc)))
                    continue
                if b in stops and b == start and self.defblk_before(use, stop):
                    return list(path)
                work.append((p, path + (p,)))
        return True

    def defblk_before(self, use, stop):
        b = self.blk[id(use)]
        ins = self.f.blocks[b].ins
        ui = next(k for k, i in enumerate(ins) if i is use)
        for k in range(ui):
            if ins[k].res in stop:
                return True
        return False
