"""Call graph with resolution of calls through function pointers.

A function pointer is followed interprocedurally: parameters to the arguments
of all callers, loads from a struct field to every store into the same field
of the same struct type, loads of a global to every store into it.  A pointer
that a public function receives from its caller is the pseudo target "<user>".
"""
from . import cfg, api
from .ir import AnalysisBroken

USER = "<user>"


class CallGraph:
    def __init__(self, mod, public=None):
        self.mod = mod
        self.public = set(public if public is not None
                          else api.public(mod))
        self.calls = {}       # fn -> [(inst, set(target names))]
        self.callers = {}     # target -> [(fn, inst)]
        self.addr_taken = {}
        self.field_stores = {}
        self.glob_stores = {}
        for f in mod.defined():
            D = cfg.defs(f)
            for i in f.insts:
                if i.op == "store":
                    v, p = i.ops
                    k = self._fieldkey(f, D, p)
                    if k is not None:
                        self.field_stores.setdefault(k, []).append((f, v))
                ops = list(i.ops or [])
                for o in ops:
                    if o[0] == "fn":
                        self.addr_taken.setdefault(o[1], []).append((f, i))
        for g in mod.globals.values():
            if g.init:
                self._init_fns(g.init, ("g", g.name))
        direct = {}
        for f in mod.defined():
            for i in f.insts:
                if i.op == "call" and i.callee[0] == "fn":
                    direct.setdefault(i.callee[1], []).append((f, i))
        self.direct = direct
        self.unresolved = []
        for f in mod.defined():
            l = []
            for i in f.insts:
                if i.op != "call":
                    continue
                if i.callee[0] == "fn":
                    t = {i.callee[1]}
                    # callbacks of libc qsort/bsearch
                    if i.callee[1] in ("qsort", "bsearch", "qsort_r"):
                        for a in i.args:
                            t |= self._resolve(f, a, set()) \
                                if a[0] in ("fn",) else set()
                elif i.callee[0] == "asm":
                    t = set()
                else:
                    t = self._resolve(f, i.callee, set())
                    if not t:
                        self.unresolved.append((f, i))
                l.append((i, t))
                for x in t:
                    self.callers.setdefault(x, []).append((f, i))
            self.calls[f.name] = l

    def _init_fns(self, init, key):
        if init[0] == "fn":
            self.glob_stores_add(key, init)
        elif init[0] == "agg":
            for x in init[2]:
                self._init_fns(x, key)

    def glob_stores_add(self, key, v):
        self.field_stores.setdefault(key, []).append((None, v))

    def _fieldkey(self, f, D, p):
        if p[0] == "g":
            return ("g", p[1])
        if p[0] != "r":
            return None
        i = D.get(p[1])
        if i is None:
            return None
        if i.op == "gep" and i.gep[2]:
            return ("f",) + tuple(i.gep[2][-1])
        if i.op == "alloca":
            return ("a", f.name, i.id)
        return None

    def _resolve(self, f, o, seen):
        if o[0] == "fn":
            return {o[1]}
        if o[0] in ("null", "undef"):
            return set()
        if o[0] == "g":
            return set()
        if o[0] != "r":
            return set()
        k = (f.name, o[1])
        if k in seen:
            return set()
        seen.add(k)
        D = cfg.defs(f)
        i = D.get(o[1])
        out = set()
        if i is None:               # parameter
            idx = f.args.index(o[1])
            if f.name in self.public:
                out.add(USER)
            for (c, ci) in self.direct.get(f.name, []):
                if idx < len(ci.args):
                    out |= self._resolve(c, ci.args[idx], seen)
            return out
        if i.op == "phi":
            for v in i.ops:
                out |= self._resolve(f, v, seen)
        elif i.op == "select":
            for v in i.ops[1:]:
                out |= self._resolve(f, v, seen)
        elif i.op in ("bitcast", "freeze"):
            out |= self._resolve(f, i.ops[0], seen)
        elif i.op == "load":
            key = self._fieldkey(f, D, i.ops[0])
            for (g, v) in self.field_stores.get(key, []):
                if g is None:
                    out.add(v[1])
                else:
                    out |= self._resolve(g, v, seen)
            # whole-struct memcpy of a struct with a function pointer keeps
            # the same field key, so nothing else is needed
        return out

    def targets(self, inst):
        for i, t in self.calls[inst.fn.name]:
            if i is inst:
                return t
        return set()

    def succ(self, name):
        out = set()
        for i, t in self.calls.get(name, []):
            out |= t
        return out

    def reach(self, roots, stop=()):
        seen = {}
        st = [(r, None) for r in roots]
        while st:
            n, p = st.pop()
            if n in seen:
                continue
            seen[n] = p
            if n in stop:
                continue
            for s in sorted(self.succ(n)):
                if s not in seen:
                    st.append((s, n))
        return seen

    def path(self, seen, n):
        out = []
        while n is not None:
            out.append(n)
            n = seen[n]
        return list(reversed(out))
