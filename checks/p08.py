"""P08: a stopping iterator stops the iteration.

Works on the modular form of the library.  A callback call is an indirect
call that returns a bool; a carrier call hands a callback, or an adapter that
calls one, to another function of the library.  Rules, decided on every path
of every function that contains such a call:
 A  after a callback (or an internal carrier) returned false no path reaches
    another callback or carrier call;
 B  an internal function that carries callbacks returns false exactly when it
    was told to stop, so the levels above it can obey;
 C  a caller that cannot learn this from a result (the carrier is public and
    returns nothing about it) calls no further carrier, unless the adapter
    recorded the stop in its context and the caller tests the record;
 D  the user's pointer arrives unchanged: callbacks taken from a parameter
    are called with the pointer parameter that belongs to them, callbacks
    taken from a context with the pointer stored beside them, and both are
    handed on together.
"""
from tgsa import ir, cfg, api, modular, norm, paths
from tgsa.report import Report


def loc(i):
    return "%s:%s" % (i.file or i.fn.file or "tg.c", i.line)


def isbool(i):
    return i.ty.kind == "int" and i.ty.bits == 1


class World:
    def __init__(self, mod):
        self.mod = mod
        self.pub = set(api.functions())
        self.src = {}
        self.carriers = {}      # fn -> {parameter index of a callback}
        self.adapters = {}      # fn -> set of parameter indexes of contexts
        self.fptr()

    def indirect(self, fn):
        for i in fn.insts:
            if i.op == "call" and i.callee[0] == "r" and not \
                    self.heapish(fn, i):
                yield i

    def heapish(self, fn, i):
        """through a global: the registered allocator"""
        s = self.source(fn, i.callee)
        return bool(s) and all(x[0] == "glob" for x in s)

    def source(self, fn, o, depth=0):
        """where a pointer operand comes from: {("param", k), ("fn", name),
        ("ctx", k, off), ("glob",), ("null",), ("?",)}"""
        if o[0] == "fn":
            return {("fn", o[1])}
        if o[0] == "null":
            return {("null",)}
        if o[0] in ("g", "glob"):
            return {("glob", o[1])}
        if o[0] != "r" or depth > 8:
            return {("?",)}
        if o[1] in fn.args:
            return {("param", fn.args.index(o[1]))}
        D = cfg.defs(fn)
        i = D.get(o[1])
        if i is None:
            return {("?",)}
        if i.op in ("phi", "select"):
            vs = [v for _, v in i.incoming] if i.op == "phi" else i.ops[1:]
            out = set()
            for v in vs:
                if v != o:
                    out |= self.source(fn, v, depth + 1)
            return out
        if i.op == "load":
            a = i.ops[0]
            if a[0] not in ("r",):
                return {("glob", a[1] if len(a) > 1 else "")}
            off, r = 0, a[1]
            while r in D and D[r].op == "gep":
                if D[r].gep[1]:
                    return {("?",)}
                off += D[r].gep[0]
                q = D[r].ops[0]
                if q[0] != "r":
                    return {("glob", "")}
                r = q[1]
            if r in fn.args:
                return {("ctx", fn.args.index(r), off)}
            if r in D and D[r].op == "alloca":
                out = set()
                for s in fn.insts:
                    if s.op == "store":
                        b = self.cell(fn, s.ops[1])
                        if b == (r, off):
                            out |= self.source(fn, s.ops[0], depth + 1)
                return out or {("?",)}
        return {("?",)}

    def cell(self, fn, o):
        D = cfg.defs(fn)
        off = 0
        while o[0] == "r" and o[1] in D and D[o[1]].op == "gep":
            if D[o[1]].gep[1]:
                return None
            off += D[o[1]].gep[0]
            o = D[o[1]].ops[0]
        return (o[1], off) if o[0] == "r" else None

    def fptr(self):
        """carriers and adapters, to a fixpoint"""
        change = True
        while change:
            change = False
            for fn in self.mod.defined():
                c = self.carriers.setdefault(fn.name, set())
                a = self.adapters.setdefault(fn.name, set())
                n = len(c) + len(a)
                for i in fn.insts:
                    if i.op != "call":
                        continue
                    ops = []
                    if i.callee[0] == "r" and isbool(i):
                        ops.append(i.callee)
                    elif i.callee[0] == "fn" and \
                            self.carriers.get(i.callee[1]):
                        ops += [i.args[k] for k in self.carriers[i.callee[1]]
                                if k < len(i.args)]
                    for o in ops:
                        for s in self.source(fn, o):
                            if s[0] == "param":
                                c.add(s[1])
                            elif s[0] == "ctx":
                                a.add((s[1], s[2]))
                if len(c) + len(a) > n:
                    change = True

    def relevant(self, fn, i):
        """None or (kind, [callback operands]): kind is 'cb', 'int' (internal
        carrier whose result tells) or 'ext'"""
        if i.op != "call":
            return None
        if i.callee[0] == "r" and isbool(i):
            return ("cb", [i.callee])
        if i.callee[0] == "fn" and self.carriers.get(i.callee[1]):
            ops = [i.args[k] for k in self.carriers[i.callee[1]]
                   if k < len(i.args)]
            ops = [o for o in ops if any(
                s[0] != "null" and (s[0] != "fn" or self.adapters.get(s[1]))
                for s in self.source(fn, o))]
            if not ops:
                return None
            f = self.mod.funcs[i.callee[1]]
            if f.name not in self.pub and isbool(i):
                return ("int", ops)
            return ("ext", ops)
        if i.callee[0] == "fn" and self.adapters.get(i.callee[1]):
            return ("int", [i.callee])
        return None


class Client:
    def __init__(self, w, fn, flags):
        self.w, self.fn, self.flags = w, fn, flags
        self.rel = {}
        for i in fn.insts:
            k = w.relevant(fn, i)
            if k:
                self.rel[id(i)] = k
        self.found = {}
        self.setflags = None
        self.internal = fn.name not in w.pub and \
            any(i.op == "ret" and i.ops for i in fn.insts)
        self.pass_through = 0

    def track(self, r):
        i = cfg.defs(self.fn).get(r)
        return i is not None and i.ty.kind == "int" and i.ty.bits <= 8 and \
            i.op in ("phi", "select", "load", "call", "zext", "xor")

    def keep(self, ts):
        return (ts[1],) if ts[0] == "pend" and ts[1] is not None else ()

    def note(self, kind, i, what, ex):
        self.found.setdefault((kind, str(i.file), i.line),
                              (i, what, ex.lines()))

    def split(self, st, ex):
        """[(state, stopped)]"""
        ts = st.ts
        if ts[0] != "pend":
            return [(st, ts[0] == "stop")]
        if ts[1] is None:
            return [(st, True), (st, False)]
        out = []
        for t in (True, False):
            for s in ex.assume(("r", ts[1]), t, st.copy()):
                out.append((s, t == bool(ts[2])))
        return out

    def pre(self, i, st, ex):
        if id(i) in self.rel:
            for s, stopped in self.split(st, ex):
                if stopped:
                    self.note("again", i, "calls the iterator again after "
                              "it returned false", ex)

    def step(self, i, st, ex):
        k = self.rel.get(id(i))
        if k is None:
            if i.op == "load" and st.ts[0] == "pend" and len(st.ts) > 3 and \
                    st.ts[3]:
                a = ex.addr(i.ops[0])
                for (root, off, val) in st.ts[3]:
                    if a == (root, off):
                        st.ts = ("pend", i.id, int(bool(val)), ())
                        return [st]
            if i.op in ("load", "store"):
                return None
            return None
        ex.clobber(i, st)
        fl = ()
        for o in k[1]:
            for s in self.w.source(self.fn, o):
                if s[0] == "fn" and s[1] in self.flags:
                    # the context is the argument after the adapter
                    c = self.ctxof(i, o)
                    if c:
                        fl += tuple((c[0], c[1] + off, val)
                                    for off, val in self.flags[s[1]])
        if k[0] in ("cb", "int"):
            st.ts = ("pend", i.id, 0, fl)
        else:
            st.ts = ("pend", None, 0, fl)
        return [st]

    def ctxof(self, i, o):
        for k, a in enumerate(i.args):
            if a == o and k + 1 < len(i.args):
                return self.w.cell(self.fn, i.args[k + 1])
        return None

    def ret(self, i, st, v, ex):
        for s, stopped in self.split(st, ex):
            if stopped and self.w.adapters[self.fn.name]:
                fl = {(k[1], x[1]) for k, x in
                      ((k, value(ex, x, s))
                       for k, x in s.mem.items())
                      if k[0] in ex.weak and x and x[0] == "i" and x[1]}
                self.setflags = fl if self.setflags is None else \
                    self.setflags & fl
            if not self.internal:
                continue
            for t in (0, 1):
                if not i.ops:
                    continue
                if ex.assume(i.ops[0], bool(t), s.copy()):
                    if t and stopped:
                        self.note("lost", i, "returns true although the "
                                  "iterator returned false", ex)
                    elif not t and not stopped:
                        self.note("early", i, "returns false although the "
                                  "iterator did not", ex)


def value(ex, x, s):
    if x[0] == "i":
        return x
    v = ex.eval(("r", x[1]), s)
    if x[0] == "n" and v and v[0] == "i":
        return ("i", int(not v[1]))
    return v


def pairs(rep, w, fn, i, kind):
    """rule D"""
    ops = kind[1]
    f = w.mod.funcs.get(i.callee[1]) if i.callee[0] == "fn" else None
    if kind[0] == "cb":
        ud = i.args[-1]
    else:
        ks = [k for k, a in enumerate(i.args) if a in ops]
        if not ks or max(ks) + 1 >= len(i.args):
            return
        ud = i.args[max(ks) + 1]
    us = w.source(fn, ud)
    for o in ops:
        for s in w.source(fn, o):
            ok = None
            if s[0] == "param":
                fps = sorted(w.carriers[fn.name])
                ok = us == {("param", max(fps) + 1)}
            elif s[0] == "ctx":
                want = w.pair.get((fn.name, s[1], s[2]))
                ok = us == {("ctx", s[1], want)} if want is not None \
                    else None
            elif s[0] == "fn" and w.adapters.get(s[1]):
                ok = True
            if ok is None:
                continue
            rep.count("udata_passed")
            rep.decide(ok, "D:%s:%s" % (fn.name, i.callee[1]
                                        if f else "callback"), loc(i),
                       "%s does not pass on the pointer that belongs to the "
                       "iterator" % fn.name,
                       "%s:%s passes on the user's pointer" %
                       (fn.name, i.line))


def contexts(rep, w):
    """where adapters find the user's pointer: creators store the callback
    and its pointer side by side in the context"""
    w.pair = {}
    for fn in w.mod.defined():
        for i in fn.insts:
            if i.op != "call" or i.callee[0] != "fn":
                continue
            cs = w.carriers.get(i.callee[1]) or ()
            for k in cs:
                if k + 1 >= len(i.args):
                    continue
                for s in w.source(fn, i.args[k]):
                    if s[0] != "fn" or not w.adapters.get(s[1]):
                        continue
                    cell = w.cell(fn, i.args[k + 1])
                    if cell is None:
                        rep.bad("D:%s:context" % fn.name, loc(i),
                                "%s passes an adapter without its context" %
                                fn.name)
                        continue
                    for (p, off) in w.adapters[s[1]]:
                        cb = stored(w, fn, cell, off)
                        rep.decide(
                            len(cb) == 1 and next(iter(cb))[0] == "param",
                            "D:%s:iter" % fn.name, loc(i),
                            "%s does not store its iterator in the context "
                            "of %s" % (fn.name, s[1]))
                        want = {("param", max(w.carriers[fn.name]) + 1)} \
                            if w.carriers[fn.name] else set()
                        offs = [o for o in range(0, 128, 8)
                                if o != off and
                                stored(w, fn, cell, o) == want]
                        if rep.decide(bool(offs), "D:%s:udata" % fn.name,
                                      loc(i), "%s does not store the user's "
                                      "pointer in the context of %s" %
                                      (fn.name, s[1])):
                            w.pair[(s[1], p, off)] = offs[0]


def stored(w, fn, cell, off):
    out = set()
    for i in fn.insts:
        if i.op == "store" and w.cell(fn, i.ops[1]) == (cell[0],
                                                        cell[1] + off):
            out |= w.source(fn, i.ops[0])
    return out


def run():
    rep = Report("P08", __doc__)
    mod = modular.load("amalga")
    w = World(mod)
    contexts(rep, w)
    flags = {}
    todo = [f for f in mod.defined()
            if any(w.relevant(f, i) for i in f.insts)]
    todo.sort(key=lambda f: not w.adapters[f.name])
    users = sorted(n for n, f in api.functions().items()
                   if w.carriers.get(n))
    rep.count("searches", len(users))
    if len(users) < 5 or len(todo) < 8:
        raise ir.AnalysisBroken("only %d searches, %d functions with "
                                "callbacks" % (len(users), len(todo)))
    for fn in todo:
        c = Client(w, fn, flags)
        try:
            n = paths.Explorer(fn, c, argcells=bool(w.adapters[fn.name])
                               ).run(("none",))
        except paths.TooMany:
            raise ir.AnalysisBroken("too many paths in %s" % fn.name)
        if w.adapters[fn.name] and c.setflags:
            flags[fn.name] = sorted(c.setflags)
        rep.count("functions")
        rep.count("path_states", n)
        for i in fn.insts:
            k = c.rel.get(id(i))
            if k:
                rep.count({"cb": "callback_calls"}.get(k[0],
                                                       "carrier_calls"))
                if not any(x[0].line == i.line for x in c.found.values()):
                    rep.ok("%s:%s no path comes here after a stop" %
                           (fn.name, i.line))
                pairs(rep, w, fn, i, k)
        for (kind, _, _), (i, what, lines) in sorted(
                c.found.items(), key=lambda x: str(x[0])):
            rep.bad("%s:%s" % (kind, fn.name), loc(i), "%s %s (lines %s)" %
                    (fn.name, what, lines))
    return rep.finish()
