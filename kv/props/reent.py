"""C06: no state shared between compilations: static analysis of every writable global and non-reentrant libc call."""
import re
from .. import ir
from ..core import Result

READONLY = {"strlen": (), "strcmp": (), "strcasecmp": (), "strncmp": (), "fprintf": (), "printf": (), "snprintf": (0,),
            "vsnprintf": (0,), "vfprintf": (), "fwrite": (), "memcmp": (), "strcpy": (0,), "strcat": (0,),
            "strncpy": (0,), "getopt_long": (), "getenv": (), "fputs": (), "strchr": (), "strftime": (0,),
            "memcpy": (0,), "memmove": (0,), "memset": (0,), "fputc": (), "fopen": (), "access": (), "open": ()}
# functions whose result or effect lives in storage shared by the whole process
SHARED_LIBC = {"localtime", "gmtime", "asctime", "ctime", "strtok", "setlocale", "rand", "srand", "random",
               "srandom", "drand48", "lrand48", "tmpnam", "mbtowc", "wctomb", "mblen", "setenv", "putenv", "unsetenv",
               "getpwnam", "getpwuid", "readdir", "ttyname", "getlogin", "inet_ntoa", "gethostbyname", "basename_r_",
               "umask", "chdir", "atexit", "signal", "sigaction", "localeconv", "hcreate", "hsearch", "crypt",
               "getc_unlocked_"}
PROGRAM = ("source/main/", "source/cli/")


def glob_refs(v, name):
    if v == "@" + name:
        return True
    return isinstance(v, tuple) and v and v[0] == "gep" and v[1] == "@" + name


def analyse_global(prog, unit, name, internal, uses):
    """returns list of (where, func, text) writes and a set of struct types it escapes as"""
    writes, escapes = [], []
    seen = set()
    work = []

    def push(f, v):
        if (f.key, v) not in seen:
            seen.add((f.key, v))
            work.append((f, v))

    for f, i in uses:
        visit_use(prog, f, i, lambda a: glob_refs(a, name), push, writes, escapes)
    while work:
        f, v = work.pop()
        for i in f.instrs():
            if v in i.args or (i.op == "call" and v in i.args):
                visit_use(prog, f, i, lambda a: a == v, push, writes, escapes)
    return writes, escapes


CALLERS = {}


def callers(prog):
    if id(prog) not in CALLERS:
        m = {}
        for f in prog.funcs.values():
            for i in f.instrs():
                if i.op == "call":
                    c = prog.callee(i)
                    if c is not None:
                        m.setdefault(c.key, []).append((f, i))
        CALLERS[id(prog)] = m
    return CALLERS[id(prog)]


def const_slot(prog, f, p):
    """the address is kept in a structure member declared as pointer to constant"""
    for g in f.instrs():
        if g.res == p and g.op == "gep" and g.x[1] is not None:
            st, idx = g.x[1]
            lay = prog.units[f.unit].layout_cache.get(st)
            if lay is None:
                return False
            off = lay[2][idx]
            nm = re.sub(r"^%(struct|union)\.", "", st)
            for (mn, mt, mo, sz) in prog.units[f.unit].members.get(nm, []):
                if mo == off and sz == 8 and mt.startswith("const ") and mt.endswith("*"):
                    return True
    return False


def visit_use(prog, f, i, match, push, writes, escapes):
    if i.op == "store":
        if match(i.args[1]):
            writes.append((prog.where(i), f.name, "stored to"))
        if match(i.args[0]) and not const_slot(prog, f, i.args[1]):
            escapes.append((prog.where(i), f.name, "address stored in memory"))
    elif i.op == "load":
        pass
    elif i.op in ("gep", "phi", "select", "bitcast"):
        push(f, i.res)
    elif i.op == "ret":
        for (g, c) in callers(prog).get(f.key, []):
            if c.res:
                push(g, c.res)
    elif i.op == "call":
        cal = prog.callee(i)
        n = i.args[0] if isinstance(i.args[0], str) else ""
        n = n.lstrip("@")
        if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime") or n.startswith("llvm.threadlocal"):
            return
        for k, a in enumerate(i.args[1:]):
            if not match(a):
                continue
            if cal is not None:
                if k < len(cal.params):
                    if k in (cal.byval or {}):
                        continue
                    push(cal, cal.params[k])
            elif n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n.startswith("llvm.memset"):
                if k == 0:
                    writes.append((prog.where(i), f.name, "overwritten by a block copy"))
            elif n in READONLY:
                if k in READONLY[n]:
                    writes.append((prog.where(i), f.name, "written by " + n))
            elif n.startswith("%"):
                escapes.append((prog.where(i), f.name, "address passed to an indirect call"))
            else:
                writes.append((prog.where(i), f.name, "address handed to " + n))


def c06(tier):
    r = Result()
    r.rules = ["shared-state: no object with static storage duration that is neither constant nor thread-local is ever "
               "written after program start (stores, block copies, writes in callees, writes through escaped addresses)",
               "shared-libc: no library function that keeps its result or effect in process-wide storage is called"]
    r.assume = ["the command line program (source/main, source/cli) is the single-threaded client of the library and is "
                "not itself a compilation"]
    prog = ir.load_program()
    # who mentions which global
    uses = {}
    for f in prog.funcs.values():
        for i in f.instrs():
            for a in i.args:
                if isinstance(a, tuple) and a and a[0] == "gep":
                    a = a[1]
                if isinstance(a, str) and a.startswith("@"):
                    uses.setdefault((f.unit, a[1:].strip('"')), []).append((f, i))
    # stores through a struct type
    stored_structs = {}
    for f in prog.funcs.values():
        geps = {}
        for i in f.instrs():
            if i.op == "gep":
                geps[i.res] = i
        for i in f.instrs():
            tgt = None
            if i.op == "store":
                tgt = i.args[1]
            elif i.op == "call" and str(i.args[0]).startswith(("@llvm.memcpy", "@llvm.memset")):
                tgt = i.args[1]
            k = 0
            while tgt in geps and k < 20:
                g = geps[tgt]
                stored_structs.setdefault(g.x[2], []).append((prog.where(i), f))
                tgt = g.args[0]
                k += 1
    for k, g in sorted(prog.globals.items()):
        if g["kind"] != "global":
            continue
        r.count("writable_globals")
        if "thread_local" in " ".join(g["attrs"]):
            r.count("thread_local_globals")
            continue
        name = k.split(":")[-1]
        internal = ":" in k
        us = []
        for un in prog.units:
            if internal and un != g["unit"]:
                continue
            us += uses.get((un, name), [])
        if g["unit"].startswith(PROGRAM):
            continue
        w, e = analyse_global(prog, g["unit"], name, internal, us)
        where = "%s:%d" % (g["file"], g["line"])
        r.samples.append("%s: %d uses, %d writes, %d escapes" % (k, len(us), len(w), len(e)))
        for (ww, fn, t) in w[:6]:
            if not ww.startswith(PROGRAM):
                r.find("shared-state", where, "'%s' is process-wide and is %s in %s (%s): two compilations share it" %
                       (name, t, fn, ww), fn, "shared-state|%s|%s" % (g["file"], name))
        if e and not w:
            ty = (g["ty"] or "").strip()
            m = re.match(r"(%[\w.]+)$", ty)
            if m:
                for (ww, fn) in stored_structs.get(ty, []):
                    # writes through a pointer of this struct type to something other than a fresh local copy
                    r.find("shared-state", where, "'%s' is process-wide, its address escapes at %s and %s writes to "
                           "objects of its type (%s)" % (name, e[0][0], fn.name, ww), fn.name,
                           "shared-state|%s|%s" % (g["file"], name))
            elif not g.get("const_elem"):
                # arrays of constant strings are only read through the loaded element
                r.find("shared-state", where, "address of writable '%s' %s at %s" % (name, e[0][2], e[0][0]), e[0][1],
                       "shared-state|%s|%s" % (g["file"], name))
    for f in prog.funcs.values():
        for i in f.instrs():
            if i.op != "call":
                continue
            r.count("call_sites")
            n = i.args[0]
            if isinstance(n, str) and n[0] == "@" and prog.callee(i) is None and n[1:] in SHARED_LIBC:
                if f.unit.startswith(PROGRAM):
                    continue
                r.find("shared-libc", prog.where(i), "calls %s, which uses storage shared by the whole process" % n[1:],
                       f.name, "shared-libc|%s|%s|%s" % (f.file, f.name, n[1:]))
    r.need("writable_globals", 3)
    r.need("thread_local_globals", 1)
    return r
