"""Path-sensitive interprocedural dataflow over the SSA form.

One abstract state per (program point, property state): values are constants, symbols (parameters, call results,
loads, allocas, globals) or symbol+offset; constraints are finite in/out sets per symbol; memory is a map from
(symbol, byte offset) to values.  Branches refine constraints, states that agree are merged, loops are iterated to a
fixpoint (symbols of re-executed instructions are aged), calls are replaced by function summaries computed bottom-up
over the call graph.  No path is handed to a solver and nothing is executed.
"""
import sys
from collections import defaultdict

OK = 0
SOFT = frozenset(range(1, 7))
MAXCODE = 40
HARD = frozenset(range(7, MAXCODE))
ALLCODES = frozenset(range(0, MAXCODE))
HANDLED_CODES = frozenset((14, 23))   # overwritten from the enum at start-up (OUT_OF_BOUNDS, NOT_CONSTANT)

STATE_CAP = 4      # states per block before merging
COARSE_AT = 1000
TOTAL_CAP = 8000   # block visits per function before giving up

NONNULL = (False, frozenset((0,)))
ISNULL = (True, frozenset((0,)))
TOP = (False, frozenset())
DEAD = "dead"


def base_of(v):
    if type(v) is tuple:
        t = v[0]
        if t == '+':
            return v[1]
        if t in ('P', 'I', 'A', 'G'):
            return v
    return None


def addr_of(v):
    """(root, off) of a pointer value, or None"""
    if type(v) is tuple:
        t = v[0]
        if t == '+':
            return v[1], v[2]
        if t in ('P', 'I', 'A', 'G'):
            return v, 0
    return None


class St:
    __slots__ = ("env", "con", "mem", "obj", "dirty", "failed", "pth", "cap", "ext", "note", "eff")

    def __init__(self):
        self.env, self.con, self.mem, self.obj = {}, {}, {}, {}
        self.dirty = {}
        self.failed = frozenset()
        self.pth = {}
        self.cap = frozenset()     # captured (escaped) allocas
        self.ext = ()
        self.note = frozenset()    # effects on parameters: ('gain',i) ('rel',i) ('mod',i)
        self.eff = {}              # path -> 'free' / 'esc' / 'maybe' (parameters and what they point to)

    def copy(self):
        s = St.__new__(St)
        s.env, s.con, s.mem, s.obj = dict(self.env), dict(self.con), dict(self.mem), dict(self.obj)
        s.dirty, s.failed, s.pth, s.cap = dict(self.dirty), self.failed, dict(self.pth), self.cap
        s.ext, s.note, s.eff = self.ext, self.note, dict(self.eff)
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.con.items()), frozenset(self.mem.items()),
                frozenset(self.obj.items()), frozenset(self.dirty.items()), self.failed, self.cap, self.ext, self.note,
                frozenset(self.eff.items()), frozenset(self.pth.items()))

    def vclass(self, v):
        if type(v) is int:
            return v
        if v[0] in ('cmp', 'not'):
            return 'b'
        c = self.c(v)
        if c == NONNULL:
            return 'nn'
        if c[0]:
            if c[1] <= HARD:
                return 'hard'
            if 0 not in c[1]:
                return 'nz'
            if len(c[1]) == 1:
                return 0
            return 'mix'
        return 'nn' if 0 in c[1] else 'u'

    def pkey(self, results=None):
        if results is not None:
            own = frozenset(k for k, o in self.obj.items() if o == 'own')
            return (own, frozenset(self.dirty), self.failed, self.ext,
                    frozenset((k, self.vclass(v)) for k, v in self.env.items() if k in results))
        return (frozenset(self.obj.items()), frozenset(self.dirty), self.failed, self.ext,
                frozenset(self.eff.items()), frozenset((k, self.vclass(v)) for k, v in self.env.items()))

    # ---- constraints
    def c(self, v):
        if type(v) is int:
            return (True, frozenset((v,)))
        t = v[0] if type(v) is tuple else None
        if t in ('A', 'G', '+'):
            return NONNULL
        return self.con.get(v, TOP)

    def restrict(self, v, pos, vals):
        """v in vals (pos) / v not in vals; returns False if infeasible"""
        if type(v) is int:
            return (v in vals) == pos
        t = v[0] if type(v) is tuple else None
        if t in ('A', 'G', '+'):
            if pos and vals == frozenset((0,)):
                return False
            return True
        if t not in ('P', 'I'):
            return True
        p0, s0 = self.con.get(v, TOP)
        if p0:
            n = (s0 & vals) if pos else (s0 - vals)
            if not n:
                return False
            self.con[v] = (True, frozenset(n))
        else:
            if pos:
                n = frozenset(vals) - s0
                if not n:
                    return False
                self.con[v] = (True, n)
            else:
                n = s0 | vals
                if len(n) <= 48:
                    self.con[v] = (False, frozenset(n))
        return True


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b,
       'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b,
       'ult': lambda a, b: (a & M64) < (b & M64), 'ule': lambda a, b: (a & M64) <= (b & M64),
       'ugt': lambda a, b: (a & M64) > (b & M64), 'uge': lambda a, b: (a & M64) >= (b & M64)}
M64 = (1 << 64) - 1


def refine(st, cond, truth):
    """refine st in place; returns False if infeasible"""
    if type(cond) is int:
        return (cond != 0) == truth
    t = cond[0]
    if t == 'cmp':
        _, pred, a, b = cond
        if not truth:
            pred = NEG.get(pred)
            if pred is None:
                return True
        if type(a) is int and type(b) is int:
            f = CMP.get(pred)
            return f(a, b) if f else True
        if type(a) is int:
            a, b = b, a
            pred = SWAP.get(pred, pred)
        if type(a) is tuple and a[0] in ('cmp', 'not') and type(b) is int:
            if b == 0 and pred in ('ne', 'eq'):
                return refine(st, a, pred == 'ne')
            if b == 1 and pred in ('ne', 'eq'):
                return refine(st, a, pred == 'eq')
            return True
        if type(b) is int:
            if pred == 'eq':
                return st.restrict(a, True, frozenset((b,)))
            if pred == 'ne':
                return st.restrict(a, False, frozenset((b,)))
            p, s = st.c(a)
            f = CMP.get(pred)
            if f is None:
                return True
            if p:
                n = frozenset(x for x in s if f(x, b))
                if not n:
                    return False
                if type(a) is tuple and a[0] in ('P', 'I'):
                    st.con[a] = (True, n)
                return True
            if pred == 'ugt' and b == 0:
                return st.restrict(a, False, frozenset((0,)))
            if pred == 'ult' and b == 1:
                return st.restrict(a, True, frozenset((0,)))
            return True
        if a == b:
            f = CMP.get(pred)
            return f(0, 0) if f else True
        ca, cb = st.c(a), st.c(b)
        if pred == 'eq':
            if cb[0] and not st.restrict(a, True, cb[1]):
                return False
            if ca[0] and not st.restrict(b, True, ca[1]):
                return False
            if not cb[0] and cb[1] and not st.restrict(a, False, cb[1]):
                return False
            if not ca[0] and ca[1] and not st.restrict(b, False, ca[1]):
                return False
            ra, rb = addr_of(a), addr_of(b)
            if ra and rb and ra[0] != rb[0] and ra[0][0] in 'AG' and rb[0][0] in 'AG':
                return False
        elif pred == 'ne':
            if cb[0] and len(cb[1]) == 1 and not st.restrict(a, False, cb[1]):
                return False
            if ca[0] and len(ca[1]) == 1 and not st.restrict(b, False, ca[1]):
                return False
        return True
    if t == 'not':
        return refine(st, cond[1], not truth)
    if t in ('P', 'I'):
        if truth:
            return st.restrict(cond, False, frozenset((0,)))
        return st.restrict(cond, True, frozenset((0,)))
    if t in ('A', 'G', '+'):
        return truth
    return True


# ------------------------------------------------------------------------------------------------ liveness

def liveness(f):
    if f._live is not None:
        return f._live
    use, dfn = {}, {}
    phiuse = defaultdict(set)
    for bn in f.order:
        u, d = set(), set()
        for i in f.blocks[bn].ins:
            if i.op == "phi":
                for v, p in zip(i.args, i.x):
                    if type(v) is str and v[0] == "%":
                        phiuse[p].add(v)
                d.add(i.res)
                continue
            for v in i.args:
                if type(v) is str and v and v[0] == "%" and v not in d:
                    u.add(v)
            if i.res:
                d.add(i.res)
        use[bn], dfn[bn] = u, d
    livein = {b: set() for b in f.order}
    liveout = {b: set() for b in f.order}
    ch = True
    while ch:
        ch = False
        for bn in reversed(f.order):
            o = set(phiuse[bn])
            for s in f.blocks[bn].succ:
                o |= livein[s]
            n = use[bn] | (o - dfn[bn])
            if n != livein[bn] or o != liveout[bn]:
                livein[bn], liveout[bn] = n, o
                ch = True
    for bn in f.order:
        for i in f.blocks[bn].ins:
            if i.op != "phi":
                break
            livein[bn].add(i.res)
    f._live = (livein, liveout)
    return f._live


# ------------------------------------------------------------------------------------------------ summaries

class Case:
    __slots__ = ("ret", "rcon", "pre", "eff", "writes", "failed", "note", "news", "ext", "retown")

    def __repr__(self):
        return "Case(ret=%r con=%r pre=%r eff=%r writes=%r failed=%r note=%r news=%r)" % (
            self.ret, self.rcon, self.pre, self.eff, self.writes, self.failed, self.note, self.news)


class Summary:
    def __init__(self):
        self.cases = []
        self.mods = None       # None = unknown: everything; else set of param indexes it may write through
        self.caps = set()
        self.gave_up = False
        self.derefs = set()


LIBC_NOCAP = True


class Engine:
    def __init__(self, prog, client=None):
        self.prog = prog
        self.sums = {}
        self.viol = {}
        self.stats = defaultdict(int)
        self.defs = {}
        self.slots = None
        self.resv = {}
        self.client = client
        self.final = False
        self.passno = 0
        self.curscc = set()
        en = prog.enums.get("kefir_result_t") or prog.enums.get("kefir_result")
        if not en or en.get("KEFIR_OK") != 0:
            from .ir import AnalysisBroken
            raise AnalysisBroken("result code enumeration not found")
        global SOFT, HARD, ALLCODES, HANDLED_CODES
        soft = {"KEFIR_YIELD", "KEFIR_ITERATOR_END", "KEFIR_NO_MATCH", "KEFIR_NOT_FOUND", "KEFIR_ALREADY_EXISTS", "KEFIR_OUT_OF_SPACE"}
        SOFT = frozenset(v for k, v in en.items() if k in soft)
        ALLCODES = frozenset(en.values())
        HARD = ALLCODES - SOFT - {0}
        HANDLED_CODES = frozenset(en[k] for k in ("KEFIR_OUT_OF_BOUNDS", "KEFIR_NOT_CONSTANT") if k in en)
        self.codes = en
        self.BADARG = frozenset(en[k] for k in ("KEFIR_INVALID_PARAMETER",) if k in en)
        self.SOFT, self.HARD, self.ALL = SOFT, HARD, ALLCODES
        self.build_callgraph()

    # ---------------------------------------------------------------- call graph / slots
    def fdefs(self, f):
        d = self.defs.get(f.key)
        if d is None:
            d = self.defs[f.key] = {i.res: i for i in f.instrs() if i.res}
        return d

    def slot_of_value(self, f, v):
        """(struct, field index) a function pointer SSA value was loaded from"""
        i = self.fdefs(f).get(v)
        if i is None:
            return None
        if i.op == "load" and type(i.args[0]) is str:
            g = self.fdefs(f).get(i.args[0])
            if g is not None and g.op == "gep" and g.x[1]:
                st, idx = g.x[1]
                return (st, idx)
            if g is None and i.args[0][0] == "%":
                return None
        return None

    def slot_name(self, f, v):
        s = self.slot_of_value(f, v)
        if not s:
            return None
        st, idx = s
        name = st.replace("%struct.", "").replace("%union.", "")
        mem = self.top_members(name)
        if mem is None:
            return (name, str(idx))
        if idx < len(mem):
            return (name, mem[idx][0])
        return (name, str(idx))

    def top_members(self, name):
        m = self.prog.members.get(name)
        if m is None:
            return None
        return [x for x in m if "." not in x[0]]

    def build_callgraph(self):
        prog = self.prog
        # slot candidates: constant initialisers of named structs + direct stores of function addresses
        import re
        cand = defaultdict(set)
        for un, u in prog.units.items():
            for g, d in u.globals.items():
                init = d.get("init")
                if not init or not d.get("ty"):
                    continue
                ty = d["ty"]
                self._collect(un, ty, init, cand)
            for f in u.funcs:
                dd = None
                for i in f.instrs():
                    if i.op == "store" and type(i.args[0]) is str and i.args[0][0] == "@":
                        k = prog.key(un, i.args[0][1:])
                        if k and type(i.args[1]) is str and i.args[1][0] == "%":
                            g = self.fdefs(f).get(i.args[1])
                            if g is not None and g.op == "gep" and g.x[1]:
                                st, idx = g.x[1]
                                cand[(st.replace("%struct.", ""), idx)].add(k)
        self.cand = cand
        self.taken = set()
        for s in cand.values():
            self.taken |= s
        edges = {}
        for k, f in prog.funcs.items():
            e = set()
            for i in f.instrs():
                if i.op == "call":
                    c = i.args[0]
                    if c[0] == "@":
                        kk = prog.key(f.unit, c[1:].strip('"'))
                        if kk:
                            e.add(kk)
                    elif c[0] == "%":
                        s = self.slot_of_value(f, c)
                        if s:
                            cs = cand.get((s[0].replace("%struct.", ""), s[1]))
                            if cs and len(cs) < 80:
                                e |= cs
            edges[k] = e
        self.edges = edges
        # Tarjan SCC (iterative)
        idx, low, onst, st, out = {}, {}, set(), [], []
        n = [0]
        for root in edges:
            if root in idx:
                continue
            work = [(root, iter(sorted(edges[root])))]
            idx[root] = low[root] = n[0]
            n[0] += 1
            st.append(root)
            onst.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = n[0]
                        n[0] += 1
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter(sorted(edges.get(w, ())))))
                        adv = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
        self.sccs = out

    def _collect(self, un, ty, init, cand):
        from .ir import split_top, take_type
        if not init or init[0] not in "[{":
            return
        u = self.prog.units[un]
        if ty[0] == "%":
            body = u.structs.get(ty)
            inner = init[1:-1].strip()
            for i, p in enumerate(split_top(inner)):
                t, v = take_type(p)
                v = v.strip()
                if v.startswith("@"):
                    k = self.prog.key(un, v[1:])
                    if k:
                        cand[(ty.replace("%struct.", ""), i)].add(k)
                elif v and v[0] in "[{":
                    self._collect(un, t, v, cand)
        else:
            inner = init[1:-1].strip()
            for i, p in enumerate(split_top(inner)):
                if p.startswith("c\""):
                    return
                t, v = take_type(p)
                if v and v.strip()[:1] in ("[", "{"):
                    self._collect(un, t, v.strip(), cand)

    def const_load(self, gname, off):
        """function/global address stored at byte offset off of constant global"""
        g = self.prog.globals.get(gname)
        if g is None or g["kind"] != "constant" or not g.get("init"):
            return None
        cache = g.get("_flat")
        if cache is None:
            cache = {}
            self._flat(g["unit"], g["ty"], g["init"], 0, cache)
            g["_flat"] = cache
        return cache.get(off)

    def _flat(self, un, ty, init, off, out):
        from .ir import split_top, take_type
        u = self.prog.units[un]
        T = u.types if hasattr(u, "types") else None
        if T is None:
            from .ir import Types
            T = u.types = Types()
            T.structs = u.structs
        if init == "zeroinitializer":
            return
        if ty[0] in "%{<":
            lay = T.layout(ty)
            if init[0] != "{" or lay[2] is None:
                return
            for i, p in enumerate(split_top(init[1:-1].strip())):
                t, v = take_type(p)
                self._flat(un, t, v.strip(), off + lay[2][i], out)
        elif ty[0] == "[":
            if init[0] != "[":
                return
            el = T.layout(ty)[3]
            sz = T.layout(el)[0]
            for i, p in enumerate(split_top(init[1:-1].strip())):
                t, v = take_type(p)
                self._flat(un, t, v.strip(), off + i * sz, out)
        else:
            if init.startswith("@"):
                n = init[1:]
                k = self.prog.key(un, n) or self.prog.gkey(un, n)
                out[off] = ('G', k or n)
            elif init == "null":
                out[off] = 0
            else:
                try:
                    out[off] = int(init)
                except ValueError:
                    pass

    # ---------------------------------------------------------------- driver
    PASSES = 3

    def schedule(self, select=None):
        """tasks (function, pass) with their dependencies; the result is independent of the execution order"""
        todo = None
        if select is not None:
            todo = set()
            stack = [k for k in self.prog.funcs if select(self.prog.funcs[k])]
            while stack:
                k = stack.pop()
                if k in todo:
                    continue
                todo.add(k)
                stack.extend(self.edges.get(k, ()))
        tasks = {}
        last = {}
        for comp in self.sccs:
            if todo is not None and not (set(comp) & todo):
                continue
            cs = set(comp)
            rec = len(comp) > 1 or comp[0] in self.edges.get(comp[0], ())
            n = self.PASSES if rec else 1
            # postorder inside the component
            order, seen = {}, set()
            for root in sorted(comp):
                if root in seen:
                    continue
                seen.add(root)
                stack = [(root, iter(sorted(self.edges[root] & cs)))]
                while stack:
                    v, it = stack[-1]
                    for w in it:
                        if w not in seen:
                            seen.add(w)
                            stack.append((w, iter(sorted(self.edges[w] & cs))))
                            break
                    else:
                        order[v] = len(order)
                        stack.pop()
            for k in comp:
                last[k] = n
            for p in range(1, n + 1):
                for k in comp:
                    deps = {}
                    for g in self.edges[k]:
                        if g in cs:
                            v = p if order[g] < order[k] else p - 1
                            if v > 0:
                                deps[g] = v
                        elif g in last:
                            deps[g] = last[g]
                    tasks[(k, p)] = (deps, cs if rec else frozenset(comp), p == n)
        self.last = last
        return tasks

    def run_task(self, key, view, vers, scc, final):
        self.sums, self.curscc, self.final = view, scc, final
        self.vers = vers
        self.viol = {}
        self.stats = defaultdict(int)
        self.gave = []
        if self.client and hasattr(self.client, "begin"):
            self.client.begin(self)
        sm = self.analyze(self.prog.funcs[key])
        extra = self.client.finish(self) if self.client and hasattr(self.client, "finish") else None
        return sm, self.viol, dict(self.stats), list(self.gave), extra

    def run(self, select=None, jobs=None):
        import os, pickle, multiprocessing as mp
        from multiprocessing.connection import wait
        tasks = self.schedule(select)
        jobs = jobs or min(8, os.cpu_count() or 1)
        users = defaultdict(list)
        missing = {}
        for t, (deps, _, _) in tasks.items():
            n = 0
            for g, v in deps.items():
                users[(g, v)].append(t)
                n += 1
            p = (t[0], t[1] - 1)
            if t[1] > 1:
                users[p].append(t)
                n += 1
            missing[t] = n
        viol, stats, gave, extras = {}, defaultdict(int), [], []
        blobs = {}
        # longest-path priority
        prio = {}
        for t in reversed(list(tasks)):
            prio[t] = 1 + max((prio.get(u, 0) for u in users[t]), default=0)
        import heapq
        ready = [(-prio[t], t) for t in tasks if missing[t] == 0]
        heapq.heapify(ready)

        def worker(conn):
            store = {}
            while True:
                m = conn.recv()
                if m is None:
                    return
                out = []
                for t, need, fresh in m:
                    for gv, b in fresh:
                        store[gv] = pickle.loads(b)
                    deps, scc, final = tasks[t]
                    view = {g: store[(g, v)] for g, v in deps.items()}
                    r = self.run_task(t[0], view, deps, scc, final)
                    store[t] = r[0]
                    out.append((t, pickle.dumps(r[0], -1), r[1:]))
                conn.send(out)

        ctx = mp.get_context("fork")
        conns, procs, has = [], [], []
        for _ in range(jobs):
            a, b = ctx.Pipe()
            p = ctx.Process(target=worker, args=(b,), daemon=True)
            p.start()
            b.close()
            conns.append(a)
            procs.append(p)
            has.append(set())
        idle = list(range(jobs))
        pending = 0
        done = 0
        try:
            while done < len(tasks):
                while idle and ready:
                    w = idle.pop()
                    batch = []
                    take = max(1, min(8, len(ready) // (jobs * 2)))
                    for _ in range(take):
                        if not ready:
                            break
                        _, t = heapq.heappop(ready)
                        fresh = []
                        for g, v in tasks[t][0].items():
                            if (g, v) not in has[w]:
                                fresh.append(((g, v), blobs[(g, v)]))
                                has[w].add((g, v))
                        has[w].add(t)
                        batch.append((t, None, fresh))
                    conns[w].send(batch)
                    pending += 1
                if not pending:
                    from .ir import AnalysisBroken
                    raise AnalysisBroken("scheduler stalled")
                for c in wait(conns):
                    w = conns.index(c)
                    for t, blob, (vi, stt, gv, ex) in c.recv():
                        done += 1
                        blobs[t] = blob
                        if tasks[t][2]:
                            viol.update(vi)
                            for k, n in stt.items():
                                stats[k] += n
                            gave += gv
                            if ex is not None:
                                extras.append((t[0], ex))
                        for u in users[t]:
                            missing[u] -= 1
                            if missing[u] == 0:
                                heapq.heappush(ready, (-prio[u], u))
                    pending -= 1
                    idle.append(w)
        finally:
            for c, p in zip(conns, procs):
                try:
                    c.send(None)
                except OSError:
                    pass
            for p in procs:
                p.join(2)
                if p.is_alive():
                    p.kill()
        self.viol = dict(sorted(viol.items(), key=lambda z: repr(z[0])))
        self.stats, self.gave, self.extras = stats, sorted(set(gave)), dict(extras)
        self.sums = {k: pickle.loads(blobs[(k, n)]) for k, n in self.last.items() if (k, n) in blobs}
        return self

    def report(self, kind, ins, st, msg, key=None):
        if not self.final:
            return
        f = ins.fn
        k = (kind, f.key, key or self.prog.where(ins))
        if k not in self.viol:
            self.viol[k] = dict(kind=kind, func=f.name, file=f.file, where=self.prog.where(ins), msg=msg, key=key)

    # ---------------------------------------------------------------- function analysis
    def analyze(self, f):
        import time, os
        t0 = time.time()
        r = self.analyze_(f)
        dt = time.time() - t0
        if dt > 1 and os.environ.get("KV_TRACE"):
            print("%6.1fs %s blocks=%d visits=%d exits=%d cases=%d" % (dt, f.key, len(f.order), self.vis[f.key][0], self.nexits, len(r.cases)), flush=True)
        return r

    def analyze_(self, f):
        self.f = f
        self.stats["functions"] += 1
        livein, liveout = liveness(f)
        st = St()
        for i, p in enumerate(f.params):
            if i in f.byval:
                st.env[p] = ('A', p)
            else:
                st.env[p] = ('P', i)
                st.pth[('P', i)] = (i, ())
        if self.client:
            st.ext = self.client.start(self, f)
        self.exits = []
        self.cur_derefs = set()
        self.mods = set()
        self.modall = False
        self.caps = set()
        seen = defaultdict(dict)     # block -> key set
        bystate = defaultdict(list)
        work = [(f.entry, None, st)]
        visits = 0
        gave_up = False
        merged = defaultdict(dict)
        coarse = None
        while work:
            bn, pred, st = work.pop()
            # phis
            self.phis(f, f.blocks[bn], pred, st)
            self.gc(f, bn, st, livein[bn])
            key = st.key()
            d = seen[bn]
            if key in d:
                continue
            if len(d) >= STATE_CAP:
                # merge with a state having the same property part
                pk = st.pkey(coarse)
                m = merged[bn].get(pk)
                if m is not None:
                    nst = self.join(bn, m, st)
                    nk = nst.key()
                    if nk == m.key():
                        continue
                    merged[bn][pk] = nst.copy()
                    st = nst
                    if nk in d:
                        continue
                    key = nk
                else:
                    merged[bn][pk] = st.copy()
            d[key] = True
            visits += 1
            if visits > COARSE_AT and coarse is None:
                coarse = self.result_values(f)
                self.stats["coarse"] += 1
            if visits > TOTAL_CAP:
                gave_up = True
                break
            for nb, s2 in self.block(f, f.blocks[bn], st):
                work.append((nb, bn, s2))
        self.stats["block_states"] += visits
        self.vis = getattr(self, "vis", {})
        import time
        self.vis[f.key] = max(self.vis.get(f.key, (0, 0)), (visits, len(f.order)))
        if gave_up:
            self.stats["gave_up"] += 1
            self.gave.append(f.key) if hasattr(self, "gave") else setattr(self, "gave", [f.key])
        return self.summarize(f, gave_up)

    def result_values(self, f):
        """SSA values that carry a result code or a pointer about to be returned / tested"""
        if f.key not in self.resv:
            out = set()
            for i in f.instrs():
                if i.op == "call" and i.res and (i.ty == "ptr" or self.result_call(i)):
                    out.add(i.res)
            ch = True
            while ch:
                ch = False
                for i in f.instrs():
                    if i.op in ("phi", "select") and i.res not in out and any(a in out for a in i.args if type(a) is str):
                        out.add(i.res)
                        ch = True
            self.resv[f.key] = out
        return self.resv[f.key]

    def join(self, bn, a, b):
        r = St()
        r.failed, r.ext, r.obj, r.dirty, r.eff = a.failed, a.ext, dict(a.obj), dict(a.dirty), dict(a.eff)
        if a.obj != b.obj:
            r.obj = {k: (o if b.obj.get(k) == o else 'esc') for k, o in a.obj.items()}
            for k in b.obj:
                r.obj.setdefault(k, 'esc')
        if a.eff != b.eff:
            r.eff = {k: (a.eff[k] if a.eff.get(k) == b.eff.get(k) else 'maybe') for k in set(a.eff) | set(b.eff)}
        r.note = a.note | b.note
        r.cap = a.cap | b.cap
        pairs = {}
        for n, v in a.env.items():
            w = b.env.get(n)
            if n not in b.env:
                continue
            if v == w:
                r.env[n] = v
            else:
                if (v, w) in pairs:
                    r.env[n] = pairs[v, w]
                    continue
                s = ('I', "J" + bn + n, 0, 0)
                pairs[v, w] = s
                r.env[n] = s
                ca, cb = a.c(v), b.c(w)
                r.con[s] = self.cjoin(ca, cb)
                if r.con[s] == TOP:
                    del r.con[s]
        for s, c in a.con.items():
            if s in b.con:
                j = self.cjoin(c, b.con[s])
                if j != TOP:
                    r.con[s] = j
        for k, v in a.mem.items():
            if k not in b.mem:
                continue
            w = b.mem[k]
            if w == v:
                r.mem[k] = v
            elif (v, w) in pairs:
                r.mem[k] = pairs[v, w]
            else:
                c = self.cjoin(a.c(v), b.c(w))
                if c != TOP:
                    s = ('I', "J" + bn + repr(k), 0, 0)
                    r.mem[k] = pairs[v, w] = s
                    r.con[s] = c
        for s, p in a.pth.items():
            if b.pth.get(s) == p:
                r.pth[s] = p
        return r

    @staticmethod
    def cjoin(a, b):
        if a == b:
            return a
        if a[0] and b[0]:
            return (True, a[1] | b[1])
        if not a[0] and not b[0]:
            return (False, a[1] & b[1])
        if a[0]:
            a, b = b, a
        return (False, a[1] - b[1])

    def gc(self, f, bn, st, live):
        env = {k: v for k, v in st.env.items() if k in live}
        # allocas and params are addressable by name: keep those live only
        st.env = env
        keep = set()
        for v in env.values():
            self.syms(v, keep)
        # close over memory; params/allocas/globals are always roots
        mem = st.mem
        changed = True
        roots = keep
        pend = True
        for (r, o), v in mem.items():
            if r[0] in 'PAG':
                self.syms(v, keep)
        for s, o in st.obj.items():
            if o == 'own':
                keep.add(s)
        ch = True
        while ch:
            ch = False
            for (r, o), v in mem.items():
                if r in keep or r[0] in 'PAG':
                    b = base_of(v)
                    if b is not None and b not in keep:
                        keep.add(b)
                        ch = True
        if any(not (r in keep or r[0] in 'PAG') for (r, o) in mem):
            st.mem = {k: v for k, v in mem.items() if k[0] in keep or k[0][0] in 'PAG'}
        st.con = {s: c for s, c in st.con.items() if s in keep or s[0] == 'P'}
        st.obj = {s: o for s, o in st.obj.items() if s in keep or s[0] in 'PA' or o == 'own'}
        st.pth = {s: p for s, p in st.pth.items() if s in keep or s[0] == 'P'}
        if st.dirty:
            st.dirty = {s: d for s, d in st.dirty.items() if s in keep or s[0] in 'PA' or st.obj.get(s) == 'own'}

    def syms(self, v, out):
        if type(v) is tuple:
            t = v[0]
            if t in ('P', 'I', 'A', 'G'):
                out.add(v)
            elif t == '+':
                out.add(v[1])
            elif t in ('cmp', 'not'):
                for x in v[1:]:
                    self.syms(x, out)

    def val(self, st, a):
        if type(a) is int:
            return a
        if type(a) is str:
            if a[0] == '%':
                v = st.env.get(a)
                if v is None:
                    return ('I', '?' + a, 0, 0)
                return v
            if a[0] == '@':
                n = a[1:].strip('"')
                u = self.f.unit
                return ('G', self.prog.key(u, n) or self.prog.gkey(u, n) or n)
            return ('I', '?undef', 0, 0)
        if type(a) is tuple:
            if a[0] == 'gep':
                b = self.val(st, a[1])
                return self.plus(b, a[2])
        return ('I', '?c', 0, 0)

    def plus(self, b, off):
        if type(b) is int:
            return b if (off == 0 or b == 0) else ('I', '?p', 0, 0)
        t = b[0]
        if t == '+':
            o = b[2]
            n = None if (o is None or off is None) else o + off
            return b[1] if n == 0 else ('+', b[1], n)
        if t in ('P', 'I', 'A', 'G'):
            return b if off == 0 else ('+', b, off)
        return ('I', '?p', 0, 0)

    # ageing of re-executed instruction symbols
    def fresh(self, st, ins, k=0):
        s = ('I', ins.res or ("@%s.%d" % (ins.blk, ins.idx)), k, 0)
        if self.present(st, s):
            old = ('I', s[1], k, 1)
            if self.present(st, old):
                self.drop(st, old, ins)
            self.rename(st, s, old)
        return s

    def present(self, st, s):
        if s in st.con or s in st.obj or s in st.pth or s in st.dirty:
            return True
        for v in st.env.values():
            if v == s or (type(v) is tuple and v[0] in ('+', 'cmp', 'not') and self.mentions(v, s)):
                return True
        for (r, o), v in st.mem.items():
            if r == s or v == s or (type(v) is tuple and self.mentions(v, s)):
                return True
        return False

    def mentions(self, v, s):
        if v == s:
            return True
        if type(v) is tuple and v[0] in ('+', 'cmp', 'not'):
            return any(self.mentions(x, s) for x in v[1:])
        return False

    def subst(self, v, s, n):
        if v == s:
            return n
        if type(v) is tuple and v[0] in ('+', 'cmp', 'not') and self.mentions(v, s):
            return (v[0],) + tuple(self.subst(x, s, n) for x in v[1:])
        return v

    def rename(self, st, s, n):
        st.env = {k: self.subst(v, s, n) for k, v in st.env.items()}
        st.mem = {((n if r == s else r), o): self.subst(v, s, n) for (r, o), v in st.mem.items()}
        for d in (st.con, st.obj, st.pth, st.dirty):
            if s in d:
                d[n] = d.pop(s)

    def drop(self, st, s, ins):
        if st.obj.get(s) == 'own':
            st.obj[s] = 'esc'
        st.con.pop(s, None)
        st.obj.pop(s, None)
        st.pth.pop(s, None)
        st.dirty.pop(s, None)
        t = ('I', '?old', 0, 0)
        st.mem = {(r, o): self.subst(v, s, t) for (r, o), v in st.mem.items() if r != s}
        st.env = {k: self.subst(v, s, t) for k, v in st.env.items()}

    def phis(self, f, blk, pred, st):
        if pred is None:
            return
        new = []
        for i in blk.ins:
            if i.op != "phi":
                break
            for v, p in zip(i.args, i.x):
                if p == pred:
                    new.append((i.res, self.val(st, v)))
                    break
        for n, v in new:
            st.env[n] = v

    # ---------------------------------------------------------------- transfer
    def block(self, f, blk, st):
        states = [st]
        for i in blk.ins:
            op = i.op
            if op == "phi":
                continue
            if op == "call":
                ns = []
                for s in states:
                    ns.extend(self.call(f, i, s))
                states = [s for s in ns if s.ext is not DEAD]
                if len(states) > 1:
                    states = self.dedupe(states)
                    if len(states) > 6:
                        states = self.squash(f, blk, i, states)
                if not states:
                    return []
                continue
            if op == "br":
                out = []
                if not i.args:
                    return [(i.x[0], s) for s in states]
                for s in states:
                    c = self.val(s, i.args[0])
                    s2 = s.copy()
                    if self.refine2(s, c, True):
                        out.append((i.x[0], s))
                    if self.refine2(s2, c, False):
                        out.append((i.x[1], s2))
                return out
            if op == "switch":
                out = []
                for s in states:
                    v = self.val(s, i.args[0])
                    bydest = defaultdict(list)
                    for cv, d in i.x[1]:
                        bydest[d].append(cv)
                    allv = []
                    for d, vs in bydest.items():
                        s2 = s.copy()
                        allv += vs
                        if self.refine_in(s2, v, vs):
                            out.append((d, s2))
                    if self.refine_out(s, v, allv):
                        out.append((i.x[0], s))
                return out
            if op == "indirectbr":
                return [(d, s.copy()) for s in states for d in i.x]
            if op == "ret":
                for s in states:
                    self.ret(f, i, s)
                return []
            if op == "unreachable":
                return []
            for s in states:
                self.simple(f, i, s)
            if any(s.ext is DEAD for s in states):
                states = [s for s in states if s.ext is not DEAD]
                if not states:
                    return []
        return []

    def squash(self, f, blk, ins, states):
        need = set(f._live[1][blk.name])
        for j in blk.ins[ins.idx + 1:]:
            for a in j.args:
                if type(a) is str and a[:1] == '%':
                    need.add(a)
        out = {}
        for s in states:
            self.gc(f, blk.name, s, need)
            k = s.pkey()
            if k in out:
                out[k] = self.join(blk.name, out[k], s)
            else:
                out[k] = s
        return list(out.values())

    def dedupe(self, states):
        d = {}
        for s in states:
            d.setdefault(s.key(), s)
        return list(d.values())

    def refine2(self, st, c, truth):
        if not refine(st, c, truth):
            return False
        self.handled(st, c, truth)
        return True

    def handled(self, st, c, truth):
        if not st.failed or type(c) is not tuple:
            return
        while c[0] == 'not':
            c, truth = c[1], not truth
            if type(c) is not tuple:
                return
        if c[0] == 'cmp' and c[1] in ('eq', 'ne') and type(c[3]) is int and c[3] in HANDLED_CODES and (c[1] == 'eq') == truth:
            s = c[2]
            st.failed = frozenset(x for x in st.failed if x[1] != s[1:2])

    def refine_in(self, st, v, vals):
        if type(v) is tuple and v[0] in ('cmp', 'not'):
            if 1 in vals and 0 in vals:
                return True
            return refine(st, v, 1 in vals)
        return st.restrict(v, True, frozenset(vals))

    def refine_out(self, st, v, vals):
        if type(v) is tuple and v[0] in ('cmp', 'not'):
            return True
        return st.restrict(v, False, frozenset(vals))

    def deref(self, f, i, st, p, what):
        """pointer p is dereferenced"""
        if type(p) is int:
            if p == 0:
                if st.failed:
                    self.report("nullderef", i, st, "%s through a null pointer after a failed %s" % (what, self.failnames(st)), None)
                st.ext = DEAD
            return
        b = base_of(p)
        if b is None:
            return
        if b[0] in 'PI':
            c = st.con.get(b, TOP)
            if c == ISNULL:
                if st.failed:
                    self.report("nullderef", i, st, "%s through a pointer that is null on this path (%s) after a failed %s" % (what, self.desc(b), self.failnames(st)), None)
                st.ext = DEAD
                return
            if b[0] == 'P':
                if not (c[0] and 0 not in c[1]) and not (not c[0] and 0 in c[1]):
                    self.cur_derefs.add(b[1])
                    if self.client and hasattr(self.client, "param_deref"):
                        self.client.param_deref(self, f, i, st, b[1])
            st.restrict(b, False, frozenset((0,)))
            if st.obj.get(b) == 'free':
                self.report("uaf", i, st, "%s of memory already released (%s)" % (what, self.desc(b)), None)
                st.obj[b] = 'esc'

    def failnames(self, st):
        return ", ".join(sorted("%s at %s" % (cn, w) for w, _, cn, _p in st.failed))

    def desc(self, s):
        if s[0] == 'P':
            return "parameter %s" % self.f.params[s[1]].lstrip('%') if s[1] < len(self.f.params) else str(s)
        if s[0] == 'I':
            return s[1].lstrip('%')
        return s[1].lstrip('%@')

    def simple(self, f, i, st):
        op = i.op
        if op == "load":
            p = self.val(st, i.args[0])
            self.deref(f, i, st, p, "load")
            a = addr_of(p)
            if a is not None and a[1] is not None:
                if a in st.mem:
                    st.env[i.res] = st.mem[a]
                    return
                if a[0][0] == 'G':
                    v = self.const_load(a[0][1], a[1])
                    if v is not None:
                        st.env[i.res] = v
                        return
            s = self.fresh(st, i)
            st.env[i.res] = s
            # re-evaluate address after ageing
            p = self.val(st, i.args[0])
            a = addr_of(p)
            if a is not None:
                if a[1] is not None and a[0][0] != 'G':
                    st.mem[a] = s
                pp = st.pth.get(a[0])
                if pp is not None:
                    i0, offs = pp
                    if a[1] is None or offs is None or len(offs) >= 3 or ('havoc', i0) in st.note:
                        st.pth[s] = (i0, None)
                    else:
                        st.pth[s] = (i0, offs + (a[1],))
            return
        if op == "store":
            p = self.val(st, i.args[1])
            self.deref(f, i, st, p, "store")
            v = self.val(st, i.args[0])
            self.store(f, i, st, p, v, i.ty)
            return
        if op == "gep":
            b = self.val(st, i.args[0])
            st.env[i.res] = self.plus(b, i.x[0])
            return
        if op == "icmp":
            a, b = self.val(st, i.args[0]), self.val(st, i.args[1])
            if type(a) is int and type(b) is int and i.x in CMP:
                st.env[i.res] = int(CMP[i.x](a, b))
            else:
                st.env[i.res] = ('cmp', i.x, a, b)
            return
        if op in ("zext", "sext", "bitcast", "ptrtoint", "inttoptr", "trunc"):
            v = self.val(st, i.args[0])
            if op == "trunc" and type(v) is int:
                bits = int(i.ty[1:])
                v &= (1 << bits) - 1
                if bits > 1 and v >> (bits - 1):
                    v -= 1 << bits
            elif op == "trunc" and i.ty == "i1" and not (type(v) is tuple and v[0] in ('cmp', 'not')):
                v = ('cmp', 'ne', v, 0)
            elif op == "zext" and type(v) is int and v < 0:
                m = i.x
                v &= (1 << int(m[1:])) - 1
            st.env[i.res] = v
            return
        if op == "xor":
            a, b = self.val(st, i.args[0]), self.val(st, i.args[1])
            if b == 1 and (i.ty == "i1"):
                st.env[i.res] = (1 - a) if type(a) is int else ('not', a)
                return
        if op in ("add", "sub", "mul", "or", "and", "shl"):
            a, b = self.val(st, i.args[0]), self.val(st, i.args[1])
            if type(a) is int and type(b) is int and i.ty[0] == 'i':
                bits = int(i.ty[1:])
                r = {"add": a + b, "sub": a - b, "mul": a * b, "or": a | b, "and": a & b, "shl": a << (b % 128)}[op]
                r &= (1 << bits) - 1
                if bits > 1 and r >> (bits - 1):
                    r -= 1 << bits
                if abs(r) < 64:
                    st.env[i.res] = r
                    return
        if op == "select":
            c = self.val(st, i.args[0])
            if type(c) is int:
                st.env[i.res] = self.val(st, i.args[1] if c else i.args[2])
                return
        if op == "alloca":
            s = ('A', i.res)
            st.env[i.res] = s
            for k in [k for k in st.mem if k[0] == s]:
                del st.mem[k]
            return
        if i.res:
            s = self.fresh(st, i)
            st.env[i.res] = s

    def is_local(self, st, r):
        """root denotes memory nobody outside this activation can reach"""
        if r[0] == 'A':
            return r not in st.cap
        return st.obj.get(r) == 'own'

    def modroot(self, st, r):
        """record that memory under r is written"""
        pp = st.pth.get(r)
        if pp is not None:
            self.mods.add(pp[0])
        elif r[0] == 'G':
            self.modall = self.modall
        elif r[0] == 'I' and st.obj.get(r) != 'own':
            self.mods.add(-1)

    def store(self, f, i, st, p, v, ty=None):
        a = addr_of(p)
        if a is None:
            self.escape(st, v, i)
            return
        r, off = a
        self.modroot(st, r)
        if off is None:
            for k in [k for k in st.mem if k[0] == r]:
                if not (st.obj.get(base_of(st.mem[k])) == 'own'):
                    del st.mem[k]
            if not self.is_local(st, r) or True:
                b = base_of(v)
                if b is not None and st.obj.get(b) == 'own':
                    if self.is_local(st, r):
                        st.dirty.setdefault(r, self.prog.where(i))
                    self.escape_into(st, v, r, i)
            return
        st.mem[(r, off)] = v
        if not self.is_local(st, r):
            # may alias other non-local roots at the same offset: forget values that are not definitely distinct
            if r[0] != 'A':
                for k in [k for k in st.mem if k[1] == off and k[0] != r and k[0][0] in 'PI' and st.obj.get(k[0]) != 'own']:
                    if st.mem[k] != v:
                        del st.mem[k]
            self.escape_into(st, v, r, i)

    def escape_into(self, st, v, r, i):
        b = base_of(v)
        if b is None:
            return
        if b[0] == 'P' or b in st.pth:
            self.peff(st, b, 'esc')
        if b[0] == 'A':
            st.cap = st.cap | {b}
            self.escape(st, v, i)
            return
        if st.obj.get(b) == 'own':
            pp = st.pth.get(r)
            if pp is not None:
                st.note = st.note | {('gain', pp[0])}
            self.escape(st, v, i)

    def escape(self, st, v, i):
        b = base_of(v)
        if b is None:
            return
        todo = [b]
        seen = set()
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            if st.obj.get(s) == 'own':
                st.obj[s] = 'esc'
            if s[0] == 'A':
                st.cap = st.cap | {s}
            if s[0] == 'P' or s in st.pth:
                self.peff(st, s, 'esc')
            st.dirty.pop(s, None)
            for (r, o), w in st.mem.items():
                if r == s:
                    bb = base_of(w)
                    if bb is not None and (st.obj.get(bb) == 'own' or bb[0] == 'A' or bb in st.dirty):
                        todo.append(bb)
                    elif bb is not None and (bb[0] == 'P') and s[0] != 'P':
                        self.peff(st, bb, 'esc')

    def peff(self, st, s, e):
        pp = st.pth.get(s)
        if pp is None or pp[1] is None:
            if pp is not None and e == 'free':
                st.note = st.note | {('rel', pp[0])}
            return
        if e == 'esc' and len(pp[1]) > 0:
            return
        cur = st.eff.get(pp)
        if cur == 'free' and e == 'esc':
            return
        st.eff[pp] = e
        if e == 'free' and len(pp[1]) > 0:
            st.note = st.note | {('rel', pp[0])}

    # ---------------------------------------------------------------- release
    def release(self, f, i, st, v, what, raw):
        """v is handed to a deallocator"""
        if type(v) is int:
            return
        if v[0] == '+' and v[2] is not None and v[2] != 0:
            b = v[1]
            return
        b = base_of(v)
        if b is None:
            return
        o = st.obj.get(b)
        if o == 'free':
            self.report("doublefree", i, st, "%s releases %s a second time" % (what, self.desc(b)), None)
            st.obj[b] = 'esc'
            return
        if b[0] == 'A':
            return
        if raw and b in st.dirty:
            self.report("leak", i, st, "%s is released while it still owns contents acquired at %s" % (self.desc(b), st.dirty[b]), None)
        st.dirty.pop(b, None)
        st.obj[b] = 'free'
        self.peff(st, b, 'free')
        # whatever was directly stored in the object stays owned by nobody else
        for k in [k for k in st.mem if k[0] == b]:
            w = st.mem[k]
            bb = base_of(w)
            del st.mem[k]

    # ---------------------------------------------------------------- calls
    def result_call(self, ins):
        """does this call return kefir_result_t?"""
        r = getattr(self, "_rc", None)
        if r is None:
            r = self._rc = {}
        k = id(ins)
        if k in r:
            return r[k]
        res = False
        if ins.ty == "i32":
            cal = self.prog.callee(ins)
            if cal is not None:
                res = cal.ret_name == "kefir_result_t"
            elif ins.args[0][0] == "%":
                f = ins.fn
                s = self.slot_of_value(f, ins.args[0])
                if s:
                    name = s[0].replace("%struct.", "").replace("%union.", "")
                    mem = self.top_members(name)
                    if mem and s[1] < len(mem):
                        res = self.fnptr_result(mem[s[1]][1])
                    else:
                        cs = self.cand.get((name, s[1]), ())
                        res = (not cs) or all(self.prog.funcs[c].ret_name == "kefir_result_t" for c in cs)
                elif ins.args[0] in f.params:
                    t = f.param_types[f.params.index(ins.args[0])] if f.params.index(ins.args[0]) < len(f.param_types) else ""
                    res = self.fnptr_result(t)
                else:
                    res = True
        r[k] = res
        return res

    def fnptr_result(self, t):
        if "fn(" in t:
            return "kefir_result_t" in t
        # typedef'd function pointer: name only; treat comparison/hash style as non-results by candidates' types
        td = self.typedef_fn(t)
        return td

    def typedef_fn(self, t):
        return not any(x in t for x in ("hash", "compare", "comparator"))

    RELEASE = ("free", "clear", "destroy", "release", "delete", "cleanup", "close")

    def external_fail(self, st, ins, k=0):
        n = self.callname(ins).split(".")[-1]
        if any(x in n for x in self.RELEASE):
            return
        if len(st.failed) >= 2:
            return
        st.failed = st.failed | {(self.prog.where(ins), (ins.res or "",), self.callname(ins), ins.ty == "ptr")}

    def callname(self, ins):
        c = ins.args[0]
        if c[0] == '@':
            return c[1:]
        s = self.slot_name(ins.fn, c)
        return "%s.%s" % s if s else "indirect call"

    def call(self, f, i, st):
        callee = i.args[0]
        args = i.args[1:]
        if callee == "asm":
            return [st]
        if self.client:
            r = self.client.call(self, f, i, st)
            if r is not None:
                return r
        if callee[0] == '@':
            name = callee[1:].strip('"')
            if name.startswith("llvm."):
                return self.intrinsic(f, i, st, name)
            if name in ("kefir_set_error", "kefir_set_errorf", "kefir_set_source_error", "kefir_set_source_errorf"):
                code = self.val(st, args[0])
                s = self.fresh(st, i)
                st.env[i.res] = code if type(code) is int else s
                if type(code) is int:
                    if code in HARD:
                        self.external_fail(st, i)
                elif st.c(code)[0]:
                    st.con[s] = st.c(code)
                    if st.c(code)[1] <= HARD:
                        self.external_fail(st, i)
                else:
                    st.con[s] = (True, HARD)
                    self.external_fail(st, i)
                return [st]
            if name == "kefir_clear_error":
                st.failed = frozenset()
                return [st]
            cf = self.prog.callee(i)
            if cf is None:
                return self.libc(f, i, st, name)
            sm = self.sums.get(cf.key)
            self.use_args(f, i, st)
            if sm is None:
                return [] if cf.key in self.curscc else self.unknown(f, i, st)
            return self.apply(f, i, st, sm, cf)
        # indirect
        sn = self.slot_name(f, callee)
        if sn and sn[0] == "kefir_mem":
            return self.memop(f, i, st, sn[1])
        v = self.val(st, callee)
        if type(v) is int and v == 0:
            return []
        if type(v) is tuple and v[0] in 'PI':
            st.restrict(v, False, frozenset((0,)))
        self.use_args(f, i, st)
        if type(v) is tuple and v[0] == 'G':
            sm = self.sums.get(v[1])
            if sm is not None:
                return self.apply(f, i, st, sm, self.prog.funcs[v[1]])
        s = self.slot_of_value(f, callee)
        if s:
            sm = self.slot_summary(s[0].replace("%struct.", ""), s[1])
            if sm is not None:
                return self.apply(f, i, st, sm, None)
        return self.unknown(f, i, st)

    def use_args(self, f, i, st):
        for a in i.args[1:]:
            if type(a) is str and a[0] == '%':
                v = self.val(st, a)
                b = base_of(v)
                if b is not None and st.obj.get(b) == 'free':
                    self.report("uaf", i, st, "released memory (%s) is passed to %s" % (self.desc(b), self.callname(i)), None)
                    st.obj[b] = 'esc'

    def slot_summary(self, name, idx):
        """joined summary of all functions that can sit in a function-pointer slot"""
        cs = self.cand.get((name, idx))
        if not cs:
            return None
        if not hasattr(self, "_slotsum"):
            self._slotsum = {}
        key = (name, idx)
        sms = []
        for c in cs:
            s = self.sums.get(c)
            if s is None:
                # not analysed yet (recursion): only usable if every analysed one agrees on releasing
                continue
            sms.append(s)
        if not sms:
            if cs & self.curscc:
                return Summary()      # recursion bottom
            return None
        ck = (key, tuple(sorted((c, self.vers[c]) for c in cs if c in self.vers)))
        if ck in self._slotsum:
            return self._slotsum[ck]
        res = Summary()
        res.mods = None
        allc = []
        for s in sms:
            for c in s.cases:
                d = Case()
                for sl in Case.__slots__:
                    setattr(d, sl, getattr(c, sl))
                d.writes = {}
                if type(d.ret) is tuple and d.ret[0] == 'N':
                    d.news = {0: True}
                    d.ret = ('N', 0, 0)
                else:
                    d.news = {}
                allc.append(d)
        res.cases = self.group(allc)
        self._slotsum[ck] = res
        return res

    def intrinsic(self, f, i, st, name):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            d, s, n = (self.val(st, a) for a in i.args[1:4])
            self.deref(f, i, st, d, "copy to")
            self.deref(f, i, st, s, "copy from")
            self.copy(f, i, st, d, s, n)
            return [st]
        if name.startswith("llvm.memset"):
            d = self.val(st, i.args[1])
            self.deref(f, i, st, d, "memset")
            n = self.val(st, i.args[3])
            a = addr_of(d)
            if a:
                self.modroot(st, a[0])
                self.clear(st, a, n)
            return [st]
        if name.startswith("llvm.threadlocal"):
            st.env[i.res] = self.val(st, i.args[1])
            return [st]
        if i.res:
            st.env[i.res] = self.fresh(st, i)
        return [st]

    def clear(self, st, a, n):
        r, off = a
        for k in [k for k in st.mem if k[0] == r]:
            if off is None or type(n) is not int or off <= k[1] < off + n:
                del st.mem[k]

    def copy(self, f, i, st, d, s, n):
        da, sa = addr_of(d), addr_of(s)
        if da is None:
            if sa:
                st.dirty.pop(sa[0], None)
            return
        self.modroot(st, da[0])
        ents = {}
        if sa is not None and sa[1] is not None and da[1] is not None:
            for (r, o), v in st.mem.items():
                if r == sa[0] and (type(n) is not int or sa[1] <= o < sa[1] + n):
                    ents[da[1] + o - sa[1]] = v
            if sa[0][0] == 'G' and type(n) is int:
                for o in range(sa[1], sa[1] + n, 8):
                    v = self.const_load(sa[0][1], o)
                    if v is not None:
                        ents[da[1] + o - sa[1]] = v
        self.clear(st, da, n)
        if sa is not None and sa[0] in st.dirty:
            site = st.dirty.pop(sa[0])
            if self.is_local(st, da[0]):
                st.dirty[da[0]] = site
            else:
                pp = st.pth.get(da[0])
                if pp is not None:
                    st.note = st.note | {('gain', pp[0])}
        for o, v in ents.items():
            st.mem[(da[0], o)] = v
            if not self.is_local(st, da[0]):
                self.escape_into(st, v, da[0], i)

    def memop(self, f, i, st, kind):
        args = [self.val(st, a) for a in i.args[1:]]
        self.stats["alloc_sites" if kind != "free" else "free_sites"] += 0
        if kind in ("malloc", "calloc"):
            s0 = st.copy()
            n = self.fresh(s0, i)
            s0.env[i.res] = 0
            self.external_fail(s0, i)
            n = self.fresh(st, i)
            st.env[i.res] = n
            st.con[n] = NONNULL
            st.obj[n] = 'own'
            return [st, s0]
        if kind == "realloc":
            old = self.val(st, i.args[2]) if len(i.args) > 2 else 0
            s0 = st.copy()
            self.fresh(s0, i)
            s0.env[i.res] = 0
            self.external_fail(s0, i)
            n = self.fresh(st, i)
            old = self.val(st, i.args[2]) if len(i.args) > 2 else 0
            b = base_of(old)
            ents = {}
            if b is not None:
                ents = {o: v for (r, o), v in st.mem.items() if r == b}
                d = st.dirty.get(b)
                self.release(f, i, st, old, "reallocation", False)
                if d:
                    st.dirty[n] = d
            st.env[i.res] = n
            st.con[n] = NONNULL
            st.obj[n] = 'own'
            for o, v in ents.items():
                st.mem[(n, o)] = v
            return [st, s0]
        if kind == "free":
            self.release(f, i, st, args[-1], "deallocation", True)
            return [st]
        return self.unknown(f, i, st)

    NULLABLE_LIBC = ("fopen", "fmemopen", "open_memstream", "malloc", "calloc", "realloc", "strdup", "getcwd", "realpath", "opendir")

    def libc(self, f, i, st, name):
        self.use_args(f, i, st)
        for a in i.args[1:]:
            v = self.val(st, a)
            ad = addr_of(v)
            if ad is not None and name not in ("strlen", "strcmp", "memcmp", "strncmp", "fprintf", "printf", "fwrite", "fputs", "fputc", "puts", "strchr", "mbrtoc32_l"):
                self.modroot(st, ad[0])
                for k in [k for k in st.mem if k[0] == ad[0]]:
                    if st.obj.get(base_of(st.mem[k])) != 'own':
                        del st.mem[k]
        if name in ("abort", "exit", "_exit", "__assert_fail", "longjmp"):
            return []
        if i.res:
            st.env[i.res] = self.fresh(st, i)
        return [st]

    def havoc_roots(self, st, roots):
        """forget what is known about memory reachable from roots (ownership edges of local objects are kept)"""
        todo, seen = list(roots), set(roots)
        while todo:
            x = todo.pop()
            for k in [k for k in st.mem if k[0] == x]:
                w = st.mem[k]
                b = base_of(w)
                if b is not None and st.obj.get(b) == 'own':
                    continue
                if b is not None and b not in seen and b[0] == 'I':
                    seen.add(b)
                    todo.append(b)
                del st.mem[k]

    def havoc(self, st, mods, i):
        """callee may write through the roots in mods (None: anything non-local)"""
        for k in list(st.mem):
            r = k[0]
            if r in mods or (not self.is_local(st, r) and r[0] != 'A' and mods is not None and '*' in mods):
                b = base_of(st.mem[k])
                del st.mem[k]

    def unknown(self, f, i, st):
        """call with no summary"""
        self.stats["unknown_calls"] += 1
        roots = {'*'}
        for a in i.args[1:]:
            v = self.val(st, a)
            b = base_of(v)
            if b is None:
                continue
            if b[0] == 'A':
                for (r, o), w in list(st.mem.items()):
                    if r == b:
                        self.escape(st, w, i)
                st.dirty.pop(b, None)
                roots.add(b)
            else:
                self.modroot(st, b)
                if st.obj.get(b) == 'own':
                    self.escape(st, v, i)
                elif st.obj.get(b) != 'free':
                    st.dirty.pop(b, None)
                pp = st.pth.get(b)
                if pp is not None and pp[1] == ():
                    if st.eff.get(pp) is None:
                        st.eff[pp] = 'maybe'
                roots.add(b)
        self.havoc(st, roots, i)
        return self.result_forks(f, i, st)

    def result_forks(self, f, i, st):
        if not i.res:
            return [st]
        if self.result_call(i):
            s1 = st.copy()
            s = self.fresh(st, i)
            st.env[i.res] = s
            st.con[s] = (True, frozenset((0,)) | SOFT)
            s = self.fresh(s1, i)
            s1.env[i.res] = s
            s1.con[s] = (True, HARD)
            self.external_fail(s1, i)
            return [st, s1]
        s = self.fresh(st, i)
        st.env[i.res] = s
        return [st]

    # ---------------------------------------------------------------- summaries
    def ret(self, f, i, st):
        v = self.val(st, i.args[0]) if i.args else None
        ret_result = f.ret_name == "kefir_result_t"
        if self.client:
            self.client.ret(self, f, i, st, v)
        if v is not None:
            b = base_of(v)
            if b is not None and st.obj.get(b) == 'free' and i.ty == "ptr":
                self.report("uaf", i, st, "released memory (%s) is returned" % self.desc(b), None)
        # failure propagation
        if st.failed:
            bad = False
            if ret_result:
                c = st.c(v)
                if type(v) is tuple and v[0] in ('cmp', 'not'):
                    bad = True
                elif c[0]:
                    bad = 0 in c[1]
                else:
                    bad = 0 not in c[1]
            elif i.ty == "ptr":
                c = st.c(v)
                bad = c != ISNULL
            if not bad and ret_result and type(v) is int and v in SOFT:
                for w, _, cn, isp in st.failed:
                    self.report("softened", i, st, "failure of %s at %s is turned into a code that callers treat as 'no match'" % (
                        cn, w), "%s:%s" % (cn, "soft"))
            if bad:
                for w, _, cn, isp in st.failed:
                    self.report("swallowed", i, st, "failure of %s at %s does not reach the caller: the function can still return %s" % (
                        cn, w, "success" if ret_result else "a non-null pointer"), "%s:%s" % (cn, "ptr" if isp else ""))
        rs = base_of(v) if v is not None else None
        self.exits.append((st, v, i))

    def summarize(self, f, gave_up):
        sm = Summary()
        self.nexits = len(self.exits)
        sm.derefs = set(self.cur_derefs)
        sm.mods = set(m for m in self.mods if not (0 <= m < len(f.param_types) and (f.param_types[m].startswith("const ") or f.param_types[m] == "struct kefir_mem*")))
        cases = []
        for st, v, ins in self.exits:
            # objects reachable from the returned value or from memory outside escape
            own = {s for s, o in st.obj.items() if o == 'own'}
            c = Case()
            c.ext = self.client.exit(self, f, ins, st, v) if self.client else ()
            news = {}

            def tr(x, depth=0):
                if type(x) is int:
                    return x
                b = base_of(x)
                if b is None:
                    return ('X',)
                off = x[2] if x[0] == '+' else 0
                if b[0] == 'P':
                    return ('P', b[1], off)
                if b[0] == 'G':
                    return ('Gl', b[1], off)
                if b in own and depth < 4:
                    if b not in news:
                        k = len(news)
                        news[b] = k
                        pending.append((b, depth))
                    return ('N', news[b], off)
                if st.c(x) == NONNULL:
                    return ('NN',)
                return ('X',)
            pending = []
            c.ret = tr(v) if v is not None else None
            c.rcon = None
            if v is not None and c.ret[0:1] in (('X',), ('NN',)) if type(c.ret) is tuple else False:
                if type(v) is tuple and v[0] in ('P', 'I'):
                    c.rcon = st.con.get(v)
            if type(c.ret) is int:
                c.rcon = (True, frozenset((c.ret,)))
            writes = {}
            for (r, o), w in st.mem.items():
                if r[0] == 'P':
                    if w[0:1] != ('I',) if type(w) is tuple else True:
                        pass
                    # skip values merely loaded (initial contents)
                    if type(w) is tuple and w in st.pth and st.pth[w] == (r[1], (o,)) and st.obj.get(w) != 'free':
                        continue
                    if type(w) is tuple and st.obj.get(w) == 'free':
                        continue
                    writes[('P', r[1], o)] = tr(w, 1)
            while pending:
                b, d = pending.pop()
                k = news[b]
                for (r, o), w in st.mem.items():
                    if r == b:
                        writes[('N', k, o)] = tr(w, d + 1)
            reach = set(news)
            for s in own - reach:
                site = self.alloc_site(f, s)
                self.report("leak", ins, st, "memory acquired by %s is neither released nor handed over when the function returns" % site, "leak:" + site.split(" at ")[0])
            for s, site in st.dirty.items():
                if s in reach:
                    continue
                if s[0] == 'A' and s not in st.cap:
                    self.report("leak", ins, st, "local %s still owns memory acquired at %s when the function returns" % (self.desc(s), site), "dirty:" + self.desc(s))
            c.news = {}
            for b, k in news.items():
                c.news[k] = b in st.dirty
            c.writes = writes
            c.failed = bool(st.failed) and v is not None and ins.ty == "ptr" and st.c(v) == ISNULL
            c.note = frozenset(n for n in st.note if n[0] in ('gain', 'rel'))
            c.eff = dict(st.eff)
            c.pre = {}
            for s, cc in st.con.items():
                if s[0] == 'P':
                    c.pre[s[1]] = cc
            c.retown = None
            cases.append(c)
        self.exits = []
        sm.gave_up = gave_up
        if f.ret_name == "kefir_result_t":
            cases = self.split_codes(cases)
        sm.cases = self.group(cases)
        if gave_up:
            sm.mods = None
        return sm

    def alloc_site(self, f, s):
        for i in f.instrs():
            if (i.res or ("@%s.%d" % (i.blk, i.idx))) == s[1]:
                return "%s at %s" % (self.callname(i) if i.op == "call" else i.op, self.prog.where(i))
        return s[1]

    def split_codes(self, cases):
        out = []
        for c in cases:
            rc = c.rcon
            if rc is None or not rc[0]:
                rc = (True, ALLCODES - (rc[1] if rc else frozenset()))
            for part in (frozenset((0,)), SOFT, HARD):
                x = rc[1] & part
                if x:
                    d = Case()
                    for sl in Case.__slots__:
                        setattr(d, sl, getattr(c, sl))
                    d.rcon = (True, frozenset(x))
                    d.ret = ('X',)
                    d.failed = (part is HARD) or (c.failed and part is not HARD and False)
                    out.append(d)
        return out

    def rclass(self, c):
        if c.rcon and c.rcon[0] and c.ret in (('X',),):
            if c.rcon[1] <= HARD:
                for p, con in c.pre.items():
                    if con == ISNULL and c.rcon[1] <= self.BADARG:
                        return 'badarg%d' % p
                return 'hard'
            if c.rcon[1] == frozenset((0,)):
                return 'ok'
            if c.rcon[1] <= SOFT:
                return 'soft'
        if type(c.ret) is int:
            return ('int', c.ret)
        if c.ret is None:
            return None
        if c.ret[0] == 'N':
            return ('new',)
        if c.ret[0] == 'NN':
            return ('nn',)
        return c.ret

    def group(self, cases):
        """merge cases that a caller cannot tell apart"""
        groups = defaultdict(list)
        for c in cases:
            groups[(self.rclass(c), c.failed, c.ext, tuple(sorted(c.news)))].append(c)
        out = []
        for key, cs in groups.items():
            acc = []
            for c in cs:
                done = False
                for a in acc:
                    if self.compatible(a, c):
                        self.merge_case(a, c)
                        done = True
                        break
                if not done:
                    d = Case()
                    for sl in Case.__slots__:
                        setattr(d, sl, getattr(c, sl))
                    d.eff, d.writes, d.pre, d.news = dict(c.eff), dict(c.writes), dict(c.pre), dict(c.news)
                    acc.append(d)
            if len(acc) > 6:
                a = acc[0]
                for c in acc[1:]:
                    self.merge_case(a, c)
                acc = [a]
            out.extend(acc)
        # releases are a may-property across normal outcomes
        rel = frozenset(n for c in out if not c.failed for n in c.note if n[0] == 'rel')
        for c in out:
            if not c.failed:
                c.note = c.note | rel
        return out

    def disjoint(self, a, b):
        for k in a.pre:
            if k in b.pre:
                x, y = a.pre[k], b.pre[k]
                if x[0] and y[0] and not (x[1] & y[1]):
                    return True
                if x[0] and not y[0] and x[1] <= y[1]:
                    return True
                if y[0] and not x[0] and y[1] <= x[1]:
                    return True
        return False

    def compatible(self, a, c):
        # same visible effects, or not distinguishable by the caller
        return a.eff == c.eff or not self.disjoint(a, c)

    def merge_case(self, a, c):
        pre = {}
        for k in a.pre:
            if k in c.pre:
                j = self.cjoin(a.pre[k], c.pre[k])
                if j != TOP:
                    pre[k] = j
        a.pre = pre
        eff = {}
        for k in set(a.eff) | set(c.eff):
            x, y = a.eff.get(k), c.eff.get(k)
            eff[k] = x if x == y else 'maybe'
        a.eff = eff
        w = {}
        for k in set(a.writes) | set(c.writes):
            x, y = a.writes.get(k), c.writes.get(k)
            if x == y:
                w[k] = x
            elif k in a.writes and k in c.writes:
                w[k] = ('X',)
            else:
                w[k] = ('X',)
        a.writes = w
        a.note = a.note | c.note
        for k, v in c.news.items():
            a.news[k] = a.news.get(k, False) or v
        if a.rcon and c.rcon:
            a.rcon = self.cjoin(a.rcon, c.rcon)
        else:
            a.rcon = None
        if a.ret != c.ret:
            if a.ret is not None:
                na = a.ret[0] in ('N', 'NN', 'Gl') if type(a.ret) is tuple else a.ret != 0
                nc = c.ret[0] in ('N', 'NN', 'Gl') if type(c.ret) is tuple else c.ret != 0
                a.ret = ('NN',) if (na and nc) else ('X',)

    def apply(self, f, i, st, sm, cf):
        """replace the call by the cases of a summary"""
        out = []
        args = i.args[1:]
        if not sm.cases:
            return self.unknown(f, i, st) if sm.gave_up else []
        vals = [self.val(st, a) for a in args]
        for p in sm.derefs:
            if p < len(vals):
                v = vals[p]
                b = base_of(v)
                if type(v) is int and v == 0 or (b is not None and b[0] in 'PI' and st.con.get(b) == ISNULL and not (type(v) is tuple and v[0] == '+')):
                    if st.failed:
                        self.report("nullderef", i, st, "null pointer passed to %s, which dereferences it, after a failed %s" % (self.callname(i), self.failnames(st)), None)
                    return []
                elif b is not None and b[0] == 'P':
                    c = st.con.get(b, TOP)
                    if not (c[0] and 0 not in c[1]) and not (not c[0] and 0 in c[1]):
                        self.cur_derefs.add(b[1])
        isres = self.result_call(i)
        cases = sm.cases
        for c in cases:
            s = st.copy()
            feasible = True
            for p, con in c.pre.items():
                if p < len(vals):
                    v = vals[p]
                    if con == ISNULL and type(v) is tuple and i.x[0][p] == "ptr" and st.c(v) != ISNULL and c.rcon and c.rcon[0] and c.rcon[1] <= self.BADARG:
                        feasible = False     # caller error, not an operational failure
                        break
                    if con[0]:
                        feasible = s.restrict(v, True, con[1])
                    elif con[1]:
                        if type(v) is int:
                            feasible = v not in con[1]
                        elif v[0] in ('P', 'I'):
                            feasible = s.restrict(v, False, con[1])
                    if not feasible:
                        break
            if not feasible:
                continue
            self.apply_case(f, i, s, c, sm)
            out.append(s)
        if self.client and hasattr(self.client, "after_call"):
            out = self.client.after_call(self, f, i, out)
        return out

    def apply_case(self, f, i, st, c, sm):
        prog = self.prog
        # age the result symbols first so that argument values are re-read consistently
        syms = {}
        main = self.fresh(st, i, 0)
        nk = 0
        newsym = {}
        if type(c.ret) is tuple and c.ret[0] == 'N':
            newsym[c.ret[1]] = main
        for k in c.news:
            if k not in newsym:
                nk += 1
                newsym[k] = self.fresh(st, i, nk)
        vals = [self.val(st, a) for a in i.args[1:]]
        where = prog.where(i)
        gains = {n[1] for n in c.note if n[0] == 'gain'}
        rels = {n[1] for n in c.note if n[0] == 'rel'}
        # resolve freed paths before havoc
        freed = []
        for (p, offs), e in c.eff.items():
            if p >= len(vals):
                continue
            v = vals[p]
            ok = True
            for o in offs:
                a = addr_of(v)
                if a is None or a[1] is None or (a[0], a[1] + o) not in st.mem:
                    ok = False
                    break
                v = st.mem[(a[0], a[1] + o)]
            if ok:
                freed.append((v, e, offs))
        # releases: contents of the argument roots
        for p in rels:
            if p < len(vals):
                b = base_of(vals[p])
                if b is None:
                    continue
                st.dirty.pop(b, None)
                exact = {base_of(v) for v, e, o in freed if e == 'free'}
                todo, seen = [b], {b}
                while todo:
                    x = todo.pop()
                    for (r, o), w in list(st.mem.items()):
                        if r == x:
                            bb = base_of(w)
                            if bb is not None and bb not in seen and bb not in exact and st.obj.get(bb) == 'own':
                                st.obj[bb] = 'esc'
                                st.dirty.pop(bb, None)
                                seen.add(bb)
                                todo.append(bb)
                pp = st.pth.get(b)
                if pp is not None:
                    st.note = st.note | {('rel', pp[0])}
        # havoc
        mods = sm.mods
        roots = set()
        for p, v in enumerate(vals):
            if mods is None or p in mods:
                b = base_of(v)
                if b is not None:
                    roots.add(b)
                    self.modroot(st, b)
        if roots:
            self.havoc_roots(st, roots)
        # parameter objects released / captured by the callee
        for v, e, offs in freed:
            b = base_of(v)
            if b is None:
                continue
            if e == 'free':
                if type(v) is tuple and v[0] == '+' and offs == ():
                    continue
                self.release(f, i, st, v, "call to %s" % self.callname(i), False)
            elif offs == ():
                if e == 'esc':
                    if st.obj.get(b) == 'own' or b[0] == 'A' or b in st.pth:
                        if st.obj.get(b) == 'own':
                            # captured: is it captured into a local object?
                            pass
                        self.escape(st, v, i)
                elif e == 'maybe':
                    if st.obj.get(b) == 'own':
                        self.escape(st, v, i)
                    if b in st.pth and st.pth[b][1] == () and st.eff.get(st.pth[b]) != 'free':
                        st.eff[st.pth[b]] = 'maybe'
            else:
                if st.obj.get(b) == 'own':
                    st.obj[b] = 'esc'
        for p in gains:
            if p < len(vals):
                b = base_of(vals[p])
                if b is None:
                    continue
                if self.is_local(st, b):
                    st.dirty.setdefault(b, "%s (%s)" % (where, self.callname(i)))
                else:
                    pp = st.pth.get(b)
                    if pp is not None:
                        st.note = st.note | {('gain', pp[0])}
        # new objects
        for k, s in newsym.items():
            st.obj[s] = 'own'
            st.con[s] = NONNULL
            if c.news.get(k):
                st.dirty[s] = "%s (%s)" % (where, self.callname(i))

        xk = [100]

        def inv(x):
            if type(x) is int:
                return x
            if x[0] == 'P':
                return self.plus(vals[x[1]], x[2]) if x[1] < len(vals) else ('I', '?', 0, 0)
            if x[0] == 'N':
                return self.plus(newsym[x[1]], x[2]) if x[1] in newsym else ('I', '?', 0, 0)
            if x[0] == 'Gl':
                return self.plus(('G', x[1]), x[2])
            return None
        for (t, k, o), w in sorted(c.writes.items(), key=repr):
            if o is None:
                continue
            base = newsym.get(k) if t == 'N' else (vals[k] if k < len(vals) else None)
            if base is None or type(base) is int:
                continue
            ad = addr_of(self.plus(base, o))
            if ad is None or ad[1] is None:
                continue
            v = inv(w)
            if v is None:
                if ad in st.mem:
                    del st.mem[ad]
                if w == ('NN',):
                    xk[0] += 1
                    s = self.fresh(st, i, xk[0])
                    st.con[s] = NONNULL
                    st.mem[ad] = s
                continue
            st.mem[ad] = v
            if t == 'P' and not self.is_local(st, ad[0]):
                self.escape_into(st, v, ad[0], i)
        # return value
        if i.res:
            if type(c.ret) is int:
                st.env[i.res] = c.ret
            elif c.ret is not None and c.ret[0] in ('P', 'N', 'Gl'):
                v = inv(c.ret)
                st.env[i.res] = v
            else:
                st.env[i.res] = main
                if c.rcon:
                    st.con[main] = c.rcon
                elif c.ret == ('NN',):
                    st.con[main] = NONNULL
                else:
                    st.con.pop(main, None)
        if c.failed:
            self.external_fail(st, i)
