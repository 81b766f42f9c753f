"""Root-based mod/ref analysis: which memory may a function write?

Memory is named by where it was reached from: ('p',k) the object parameter k
points to, ('d',k) everything reachable from there by loads, ('g',name) a global, ('a',id) a local object, ('h',id)
memory made by the allocator or returned fresh by a callee at call `id`.
Loads from parameter memory stay in that parameter's root; local and fresh
objects have explicit contents.  Flow-insensitive per function, summaries are
computed bottom-up over the call graph to a fixpoint.
"""
from . import cfg, ext
from .cg import USER

ALLOCATORS = {"malloc", "realloc", "calloc"}
# external functions writing through their first argument
WRITES0 = {"memcpy", "memmove", "memset", "strcpy", "strncpy", "strcat",
           "stpcpy", "strncat", "snprintf", "vsnprintf", "sprintf",
           "vsprintf", "qsort", "bzero", "mempcpy", "stpncpy", "strlcpy"}
RETURNS0 = {"memcpy", "memmove", "strcpy", "strncpy", "strcat", "stpcpy",
            "strchr", "strrchr", "memchr", "strstr", "strpbrk", "mempcpy",
            "rawmemchr", "strchrnul", "memrchr"}


class Summary:
    __slots__ = ("writes", "ret", "cont", "gwrites")

    def __init__(s):
        s.writes = {}     # root ('p',k) -> [witness insts chain]
        s.gwrites = {}    # global -> witness
        s.ret = set()     # roots: ('p',k), ('g',..), ('fresh',)
        s.cont = {}       # ('p',k)/('fresh',) -> set(roots)

    def key(s):
        return (frozenset(s.writes), frozenset(s.gwrites), frozenset(s.ret),
                frozenset((k, frozenset(v)) for k, v in s.cont.items()))


class Effects:
    def __init__(self, mod, g, constparams=None):
        """constparams: function -> set of parameter indices that are
        promised (and separately checked) not to be written through"""
        self.mod, self.g = mod, g
        self.const = constparams or {}
        self.sum = {f.name: Summary() for f in mod.defined()}
        order = cfg.sccs(sorted(self.sum),
                         lambda n: [x for x in sorted(g.succ(n))
                                    if x in self.sum])
        self.tmap = {n: {id(i): t for i, t in l} for n, l in g.calls.items()}
        for comp in order:
            for _ in range(30):
                ch = False
                for n in comp:
                    old = self.sum[n].key()
                    self.analyse(mod.funcs[n])
                    if self.sum[n].key() != old:
                        ch = True
                if not ch:
                    break

    def analyse(self, f):
        S = self.sum[f.name]
        pts = {}
        cont = {}
        allocaroot = {}
        for k, a in enumerate(f.args):
            pts[a] = {("p", k)}
        for i in f.insts:
            if i.op == "alloca":
                pts[i.id] = {("a", i.id)}
        writes, gwrites = S.writes, S.gwrites
        changed = [True]

        def val(o):
            if o[0] == "r":
                return pts.get(o[1], ())
            if o[0] == "g":
                return {("g", o[1])}
            return ()

        def add(reg, roots):
            s = pts.setdefault(reg, set())
            n = len(s)
            s.update(roots)
            if len(s) != n:
                changed[0] = True

        def addc(root, roots):
            if not roots:
                return
            s = cont.setdefault(root, set())
            n = len(s)
            s.update(r for r in roots if r != root or root[0] not in "pd")
            if len(s) != n:
                changed[0] = True

        def deref(roots):
            out = set()
            for r in roots:
                if r[0] == "p":
                    out.add(("d", r[1]))
                if r[0] == "d":
                    out.add(r)
                if r[0] == "g":
                    gl = self.mod.globals.get(r[1])
                    if gl is not None and gl.const:
                        continue
                out |= cont.get(r, set())
            return out

        def wr(roots, inst, via=None):
            for r in roots:
                if r[0] in ("p", "d"):
                    if r not in writes:
                        writes[r] = [(f.name, inst)] + (via or [])
                elif r[0] == "g":
                    if r[1] not in gwrites:
                        gwrites[r[1]] = [(f.name, inst)] + (via or [])

        tm = self.tmap[f.name]
        rounds = 0
        while changed[0] and rounds < 60:
            changed[0] = False
            rounds += 1
            for i in f.insts:
                op = i.op
                if op == "load":
                    if i.ty.kind in ("double", "float") or \
                            (i.ty.kind == "int" and i.ty.bits < 64):
                        continue
                    add(i.id, deref(val(i.ops[0])))
                elif op == "store":
                    d = val(i.ops[1])
                    wr(d, i)
                    v = val(i.ops[0])
                    for r in d:
                        addc(r, v)
                elif op == "atomicrmw" or op == "cmpxchg":
                    pass                      # reference counts: see P11
                elif op in ("gep", "bitcast", "inttoptr", "ptrtoint",
                            "freeze", "extractvalue"):
                    add(i.id, val(i.ops[0]))
                elif op in ("phi",):
                    for o in i.ops:
                        add(i.id, val(o))
                elif op == "select":
                    add(i.id, val(i.ops[1]))
                    add(i.id, val(i.ops[2]))
                elif op == "insertvalue":
                    add(i.id, val(i.ops[0]))
                    add(i.id, val(i.ops[1]))
                elif op in ("add", "sub", "and", "or"):
                    if i.ty.kind == "int" and i.ty.bits == 64:
                        for o in i.ops:
                            add(i.id, val(o))
                elif op == "ret":
                    if i.ops:
                        S.ret |= {self.out(r) for r in val(i.ops[0])
                                  if self.out(r)}
                elif op == "call":
                    for t in tm.get(id(i), ()):
                        self.call(f, i, t, val, add, addc, deref, wr, cont)
        # export contents
        def export(root, key, seen):
            if root in seen:
                return
            seen.add(root)
            for r in cont.get(root, ()):
                o = self.out(r)
                if o and o != key:
                    S.cont.setdefault(key, set()).add(o)
                if r[0] in ("h", "a"):
                    export(r, key, seen)
        fresh_ret = [r for i in f.insts if i.op == "ret" and i.ops
                     for r in val(i.ops[0]) if r[0] in ("h", "a")]
        for k in range(len(f.args)):
            export(("p", k), ("p", k), set())
            export(("d", k), ("d", k), set())
        for r in fresh_ret:
            export(r, ("fresh",), set())

    def out(self, r):
        if r[0] in ("p", "d", "g"):
            return r
        if r[0] == "h" or r[0] == "a":
            return ("fresh",)
        return r

    def call(self, f, i, t, val, add, addc, deref, wr, cont):
        args = i.args
        if t in self.sum:
            C = self.sum[t]
            dcache = {}

            def tr(r):
                if r[0] == "p":
                    return set(val(args[r[1]])) if r[1] < len(args) else set()
                if r[0] == "d":
                    if r[1] >= len(args):
                        return set()
                    k = (r[1],)
                    if k not in dcache:
                        o, st = set(), list(deref(val(args[r[1]])))
                        while st:
                            x = st.pop()
                            if x not in o:
                                o.add(x)
                                st.extend(deref({x}))
                        dcache[k] = o
                    return dcache[k]
                if r[0] == "fresh":
                    return {("h", i.id)}
                return {r}
            cp = self.const.get(t, ())
            for r, w in C.writes.items():
                if r[1] not in cp:
                    wr(tr(r), i, w)
            for gname, w in C.gwrites.items():
                wr({("g", gname)}, i, w)
            for k, vs in C.cont.items():
                for d in tr(k):
                    for v in vs:
                        addc(d, tr(v))
            for r in C.ret:
                add(i.id, tr(r))
            return
        if t == USER:
            return
        if t in ALLOCATORS:
            add(i.id, {("h", i.id)})
            if t == "realloc" and args:
                for r in val(args[0]):
                    addc(("h", i.id), deref({r}))
                # contents of the old block move to the new one
            return
        base = t
        if t.startswith("llvm.memcpy") or t.startswith("llvm.memmove"):
            base = "memcpy"
        elif t.startswith("llvm.memset"):
            base = "memset"
        if base in WRITES0:
            d = val(args[0])
            wr(d, i)
            if base in ("memcpy", "memmove") and len(args) > 1:
                s = deref(val(args[1]))
                for r in d:
                    addc(r, s)
        if base in RETURNS0 and args:
            add(i.id, val(args[0]))
        if base in ("strtod", "strtol", "strtoul", "strtoll", "strtoull",
                    "strtof") and len(args) > 1:
            wr(val(args[1]), i)
            for r in val(args[1]):
                addc(r, val(args[0]))
