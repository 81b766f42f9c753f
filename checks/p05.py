"""P05: writers never write past the destination.

Works on the modular form.  A destination is a non-const text or byte
parameter of a public function followed by its size.  It is followed into
every function that receives the pointer itself, or a structure that holds
it, together with its size.  Values are polynomials over what the function
read (arguments, structure fields at a version, registers).  Rules:
 A  every store, memcpy, memset and hand-over of a pointer into a destination
    at index x with size s is only reached under conditions from which
    x + s <= n follows; the destination and its size, as handed to another
    function, are themselves such a part of the destination;
 B  on every path of a text writer on which n is not known to be zero the
    last byte written is a NUL, at the index of the returned length when that
    is below n and at n - 1 otherwise.
 C  the returned length and everything else that a writer writes outside the
    destination is the same whatever the destination and its size are: no
    value depends on them, and where a test of them selects a path, all ways
    through it add the same amount to the length.
"""
from tgsa import api, cfg, ir, modular, norm, origin
from tgsa.linear import Lin, add, mul, const
from tgsa.report import Report

PLAIN = ("function(sroa,early-cse,instcombine<no-verify-fixpoint>,"
         "simplifycfg)")
UNS = {"ult", "ule", "ugt", "uge", "eq", "ne"}


def loc(i):
    return "%s:%s" % (i.file or i.fn.file or "tg.c", i.line)


class Ctx:
    """one destination inside one function"""

    def __init__(c, W, fn, root, dst, size):
        c.W, c.fn, c.root = W, fn, root
        c.lin = W.lin(fn)
        c.dst, c.size = dst, size       # polynomials

    def facts(c, block, extra=()):
        """[(strict, X, Y)]: X <= Y or X < Y as polynomials"""
        out = []
        for pr, a, b, _ in list(norm.facts(c.fn, block)) + list(extra):
            out += c.fact(pr, a, b)
        return out

    def fact(c, pr, a, b):
        if a[0] == "i" and a[1] == 1 or b[0] == "i" and b[1] == 1:
            return []
        x, y = c.lin.poly(a), c.lin.poly(b)
        if pr in ("ugt", "uge"):
            x, y, pr = y, x, {"ugt": "ult", "uge": "ule"}[pr]
        if pr == "ult":
            return [("lt", x, y)]
        if pr == "ule":
            return [("le", x, y)]
        if pr == "eq":
            return [("le", x, y), ("le", y, x), ("eq", x, y)]
        if pr == "ne" and const(y) == 0:
            return [("lt", {}, x)]
        if pr in ("sgt", "sge", "slt", "sle"):
            if pr in ("sgt", "sge"):
                x, y, pr = y, x, {"sgt": "slt", "sge": "sle"}[pr]
            k = const(x)
            if k is not None and k >= -1:       # nonnegative values
                return [("lt" if pr == "slt" else "le", x, y)]
        return []

    # ---- proof of goal >= 0 for unsigned leaves
    def prove(c, goal, fs, depth=0):
        if all(k >= 0 for k in goal.values()):
            return True
        ps = []
        for kind, x, y in fs:
            if kind in ("lt", "le"):
                ps.append(add(add(y, x, -1), {(): 1} if kind == "lt" else {},
                              -1))
        for p in ps:
            if all(k >= 0 for k in add(goal, p, -1).values()):
                return True
        for n, p in enumerate(ps):
            g = add(goal, p, -1)
            for q in ps[n:]:
                if all(k >= 0 for k in add(g, q, -1).values()):
                    return True
        return False


def subst(p, leaf, q):
    """p with leaf replaced by polynomial q"""
    out = {}
    for m, k in p.items():
        t = {(): k}
        for x in m:
            t = mul(t, q if x == leaf else {(x,): 1})
        out = add(out, t)
    return out


def leaves(*ps):
    out = []
    for p in ps:
        for m in p:
            for x in m:
                if x not in out:
                    out.append(x)
    return out


def cases(c, x):
    """case split of a leaf: [(value polynomial, facts)] or None"""
    if x[0] != "r":
        return None
    i = c.lin.D.get(x[1])
    if i is None:
        return None
    if i.op == "select":
        out = []
        for truth, v in ((True, i.ops[1]), (False, i.ops[2])):
            fs = []
            for pr, a, b, _ in norm.atoms(c.fn, i.ops[0], truth):
                fs += c.fact(pr, a, b)
            out.append((c.lin.poly(v), fs))
        return out
    if i.op == "phi":
        out = []
        for b, v in i.incoming:
            if cfg.dominates(c.fn, i.block, b):
                return None
            out.append((c.lin.poly(v),
                        c.facts(b, norm.edge_facts(c.fn, b, i.block))))
        return out
    if i.op == "call" and i.callee[0] == "fn":
        n = i.callee[1]
        if n.startswith("llvm.usub.sat"):
            a, b = c.lin.poly(i.args[0]), c.lin.poly(i.args[1])
            return [(add(a, b, -1), [("le", b, a)]), ({}, [("le", a, b)])]
        if n.startswith(("llvm.umin", "llvm.umax")):
            a, b = c.lin.poly(i.args[0]), c.lin.poly(i.args[1])
            if "max" in n:
                a, b = b, a
            # value is a when a <= b
            return [(a, [("le", a, b)]), (b, [("le", b, a)])]
    return None


def within(c, ptr, size, fs, depth=0):
    """ptr + size inside the destination, under facts fs"""
    # equalities with a constant settle null tests
    for kind, x, y in fs:
        if kind == "eq":
            l = leaves(x)
            if len(l) == 1 and x == {(l[0],): 1} and const(y) is not None \
                    and l[0] in leaves(ptr, size):
                return within(c, subst(ptr, l[0], y), subst(size, l[0], y),
                              [(k, subst(a, l[0], y), subst(b, l[0], y))
                               for k, a, b in fs if k != "eq"], depth)
    idx = add(ptr, c.dst, -1)
    bad = any(d in leaves(idx) for d in leaves(c.dst))
    if bad and not any(d in leaves(ptr) for d in leaves(c.dst)):
        if not ptr and c.prove({(): 0}, fs):
            # a null destination
            idx, bad = {}, False
    if not bad:
        goal = add(add(c.size, idx, -1), size, -1)
        if c.prove(goal, fs) or const(size) == 0 or \
                c.prove({(): -1}, fs):
            return True
    if depth > 7:
        return False
    for x in sorted((x for x in leaves(ptr, size) if x[0] == "r"),
                    key=lambda x: -x[1]):     # later values first
        cs = cases(c, x)
        if cs is None:
            continue
        return all(within(c, subst(ptr, x, v), subst(size, x, v),
                          [(k, subst(a, x, v), subst(b, x, v))
                           for k, a, b in fs] + more, depth + 1)
                   for v, more in cs)
    # a clamped value in a condition
    if depth < 3:
        for x in leaves(*[p for f in fs for p in f[1:]]):
            i = c.lin.D.get(x[1]) if x[0] == "r" else None
            if i is None or i.op == "phi" or x in leaves(ptr, size):
                continue
            cs = cases(c, x)
            if cs is None:
                continue
            return all(within(c, ptr, size,
                              [(k, subst(a, x, v), subst(b, x, v))
                               for k, a, b in fs] + more, depth + 1)
                       for v, more in cs)
    return False


def destinations(mod):
    """[(function, parameter number, name, type, handle parameters)]"""
    out = []
    for name, f in sorted(api.functions().items()):
        fn = mod.funcs.get(name)
        if fn is None or fn.decl:
            continue
        ps = origin.params(fn, f)
        for (pn, pt, k), nx in zip(ps, ps[1:] + [None]):
            if origin.pointee(pt) in ("char", "uint8_t", "void") and \
                    not pt.startswith("const") and nx is not None and \
                    nx[1] == "size_t":
                out.append((name, k, pn, pt,
                            [j for _, t, j in ps
                             if origin.pointee(t) == "tg_geom"]))
    return out


class World:
    def __init__(self, mod, rep):
        self.mod, self.rep = mod, rep
        self.dests = destinations(mod)
        if len({n for n, *_ in self.dests}) < 4:
            raise ir.AnalysisBroken("only %d writers" % len(self.dests))
        self.W, self.pub = origin.public(mod, {n for n, *_ in self.dests})
        self._lin = {}
        self.done = {}

    def lin(self, fn):
        if fn.name not in self._lin:
            self._lin[fn.name] = Lin(self.W, fn)
        return self._lin[fn.name]

    def enter(self, fn, root, dst, size):
        key = (fn.name, root)
        if key in self.done:
            return
        c = Ctx(self, fn, root, dst, size)
        self.done[key] = c
        rule_a(self, c)


def rule_a(w, c):
    fn, lin = c.fn, c.lin
    one = lin.one
    rep = w.rep

    def hits(o):
        return any(r == c.root for r, _ in one.val(o))
    for i in fn.insts:
        if i.op == "store" and hits(i.ops[1]):
            v = i.ops[0]
            sz = i.size if getattr(i, "size", None) else stsize(lin, v)
            check(w, c, i, i.ops[1], {(): sz}, "store")
        elif i.op in ("atomicrmw", "cmpxchg") and hits(i.ops[0]):
            check(w, c, i, i.ops[0], {(): 8}, "atomic update")
        elif i.op == "call" and i.callee[0] == "fn":
            call(w, c, i, hits)


def stsize(lin, v):
    if v[0] == "i":
        return max(1, v[1] // 8)
    if v[0] == "r":
        i = lin.D.get(v[1])
        if i is not None:
            return max(1, i.ty.size)
        k = lin.argno[v]
        return max(1, lin.fn.argtys[k].size)
    if v[0] == "f":
        return 8 if v[1] == "double" else 4
    return 8


def check(w, c, i, ptr, size, what):
    ok = within(c, c.lin.poly(ptr), size, c.facts(i.block))
    w.rep.count("destination_writes")
    w.rep.decide(ok, "A:%s:%s" % (c.fn.name, what), loc(i),
                 "%s: no condition shows that this %s stays inside the "
                 "destination" % (c.fn.name, what),
                 "%s line %s: %s inside the destination" %
                 (c.fn.name, i.line, what))


def call(w, c, i, hits):
    name = i.callee[1]
    lin, one = c.lin, c.lin.one
    base = name
    if name.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
        check(w, c, i, i.args[0], lin.poly(i.args[2]), "block write") \
            if hits(i.args[0]) else None
        return
    S = w.W.sum.get(name)
    if S is None:
        for k, a in enumerate(i.args):
            if not hits(a) or k not in origin.WEXT.get(base, ()):
                continue
            n = origin.WSIZE.get(base)
            if n is None:
                w.rep.bad("A:%s:%s" % (c.fn.name, base), loc(i),
                          "%s: %s writes to the destination without a size" %
                          (c.fn.name, base))
            else:
                check(w, c, i, a, lin.poly(i.args[n]), base)
        return
    g = w.mod.funcs[name]
    for k, a in enumerate(i.args):
        if hits(a) and any(r == ("P", k) for r in S.writes):
            # the pointer itself, its size is the next argument
            sz = i.args[k + 1] if k + 1 < len(i.args) else None
            t = g.argtys[k + 1] if sz is not None else None
            if sz is None or t.kind != "int" or t.bits < 32:
                w.rep.bad("A:%s:%s" % (c.fn.name, name), loc(i),
                          "%s hands the destination to %s without a size" %
                          (c.fn.name, name))
                continue
            check(w, c, i, a, lin.poly(sz), "call of " + name)
            w.enter(g, ("P", k), {(("arg", k),): 1}, {(("arg", k + 1),): 1})
        # a structure that holds it
        for r in S.writes:
            if r[0] != "L" or r[1] != ("P", k) or r[2] is None:
                continue
            od = r[2]
            v = one.val(a)
            if len(v) != 1:
                continue
            (sr, so), = v
            if so is None:
                continue
            dc = (sr, so + od)
            d = content(lin, dc, i)
            if not touches(one, lin, c, dc, i, d):
                continue
            # the size stands in the same structure
            fs, ok, on = c.facts(i.block), False, od + 8
            near = [o for o in (od + 8, od + 16, od - 8, od - 16) if o >= 0]
            near.sort(key=lambda o: content(lin, (sr, so + o), i) != c.size)
            for o in near:
                if within(c, d, content(lin, (sr, so + o), i),
                                     fs):
                    ok, on = True, o
                    break
            w.rep.count("handovers")
            w.rep.decide(ok, "A:%s:%s" % (c.fn.name, name), loc(i),
                         "%s hands the destination to %s with a size that "
                         "is not shown to fit" % (c.fn.name, name),
                         "%s hands destination and size to %s" %
                         (c.fn.name, name))
            w.enter(g, r, {(("mem", (("P", k), od), ("entry",), 64),): 1},
                    {(("mem", (("P", k), on), ("entry",), 64),): 1})


def touches(one, lin, c, cell, i, d):
    """the cell holds a pointer into the destination"""
    if any(x in leaves(d) for x in leaves(c.dst)):
        return True
    for x in leaves(d):
        if x[0] == "r" and any(r == c.root for r, _ in one.val(x)):
            return True
    return False


def content(lin, cell, i):
    at, _ = lin.versions(cell)
    v = at[id(i)]
    if v[0] == "def" and v[1].op == "store" and \
            lin.cell(v[1].ops[1]) == cell:
        return lin.poly(v[1].ops[0])
    if v[0] == "def":
        v = ("def", v[1].block.id, v[1].block.insts.index(v[1]))
    return {(("mem", cell, v, 64),): 1}


# ---- B: termination
def terminated(w, c, handles):
    fn, lin, one, rep = c.fn, c.lin, c.lin.one, w.rep
    D = lin.D

    def writes(i):
        return any(r == c.root for r, _ in one.eff.get(id(i), ()))

    def back(b, k, fs, ret, seen, path):
        """walk backwards from instruction k of block b"""
        for i in reversed(b.insts[:k]):
            if i.op == "phi":
                continue
            if writes(i):
                rep.count("exits")
                final(b, i, fs + c.facts(b), ret, path)
                return
        if not b.preds:
            fs = fs + c.facts(b)
            ok = impossible(fs)
            rep.count("exits")
            rep.decide(ok, "B:%s:none" % fn.name, loc(b.insts[-1]),
                       "%s can return without terminating the text "
                       "(blocks %s)" % (fn.name, path))
            return
        for p in b.preds:
            if (p.id, b.id) in seen:
                continue
            ef = []
            for pr, x, y, _ in norm.edge_facts(fn, p, b):
                ef += c.fact(pr, x, y)
            r = ret
            for l in leaves(ret):
                j = D.get(l[1]) if l[0] == "r" else None
                if j is not None and j.op == "phi" and j.block is b:
                    for q, v in j.incoming:
                        if q is p:
                            r = subst(r, l, lin.poly(v))
            back(p, len(p.insts), fs + ef, r, seen | {(p.id, b.id)},
                 [p.id] + path)

    def impossible(fs):
        """the size is zero, the geometry is missing, or no such path"""
        fs = [f for f in fs if leaves(f[1], f[2])]
        for h in handles:
            if ("eq", {(("arg", h),): 1}, {}) in fs:
                return True
        return c.prove(neg(c.size), fs) or \
            c.prove({(): -1}, fs)

    def neg(p):
        return {m: -k for m, k in p.items()}

    def final(b, i, fs, ret, path):
        if impossible(fs):
            rep.ok()
            return
        ok = i.op == "store" and i.ops[0] == ("i", 8, 0)
        if ok:
            idx = add(lin.poly(i.ops[1]), c.dst, -1)
            ok = place(idx, ret, fs)
        rep.decide(ok, "B:%s" % fn.name, loc(i),
                   "%s: the last thing written on the path through blocks %s "
                   "is not a NUL at the returned length or at the end" %
                   (fn.name, path), "%s ends with a NUL" % fn.name)

    def place(idx, ret, fs, depth=0):
        if idx == ret or c.prove({(): -1}, fs):
            return True
        if idx == add(c.size, {(): 1}, -1):
            return c.prove(add(ret, c.size, -1), fs)
        if depth < 5:
            for x in leaves(idx):
                cs = cases(c, x)
                if cs:
                    return all(place(subst(idx, x, v), ret, fs + more,
                                     depth + 1) for v, more in cs)
        return False
    for b in fn.blocks:
        if b.insts and b.insts[-1].op == "ret":
            t = b.insts[-1]
            back(b, len(b.insts) - 1, [], lin.poly(t.ops[0]), frozenset(),
                 [b.id])


# ---- C: independence of the returned length
VARIES = "varies"
LINEAR = ("llvm.dbg", "llvm.lifetime", "llvm.assume")


class Indep:
    """one function with one destination"""

    def __init__(self, w, c):
        self.w, self.c, self.fn, self.lin = w, c, c.fn, c.lin
        self.one = c.lin.one
        self.src = set(leaves(c.dst, c.size))
        self.tainted = set()
        self.cells = set()
        self.loops = {b.id: body for b, body in loopsof(c.fn)}
        self.pd = postdom(c.fn)
        self.spread()

    def hits(self, o):
        return any(r == self.c.root for r, _ in self.one.val(o))

    def taint(self, o):
        if o[0] != "r":
            return False
        if o in self.tainted:
            return True
        p = self.lin.poly(o)
        return any(x in self.src or x in self.tainted for x in leaves(p))

    def spread(self):
        """data flow, and values merged where a tainted test joins"""
        fn, lin = self.fn, self.lin
        ch = True
        while ch:
            ch = False
            for i in fn.insts:
                if i.id is None or ("r", i.id) in self.tainted or i.op in \
                        ("alloca",):
                    continue
                o = ("r", i.id)
                if i.op == "load":
                    t = self.taint(o) or self.hits(i.ops[0]) or \
                        lin.cell(i.ops[0]) in self.cells
                elif i.op == "call":
                    t = self.calltaint(i)
                elif i.op == "phi":
                    t = any(self.taint(v) for _, v in i.incoming) or \
                        self.merged(i)
                elif i.op == "icmp" or i.op == "select" or True:
                    t = any(self.taint(x) for x in i.ops) and not (
                        i.op in ("add", "sub") and not self.taint(o))
                if t:
                    self.tainted.add(o)
                    ch = True
            for i in fn.insts:
                if i.op == "store" and not self.hits(i.ops[1]) and \
                        self.taint(i.ops[0]):
                    k = lin.cell(i.ops[1])
                    if k is not None and k[0][0] == "A" and \
                            k not in self.cells:
                        self.cells.add(k)
                        ch = True

    def calltaint(self, i):
        if i.callee[0] != "fn":
            return False
        n = i.callee[1]
        if n in self.w.W.sum:
            return False        # decided in the callee
        return any(self.taint(a) for a in i.args)

    def merged(self, phi):
        """incoming values differ because of a tainted test"""
        ps = [(b, self.lin.poly(v)) for b, v in phi.incoming]
        if all(p == ps[0][1] for _, p in ps):
            return False
        for b in self.fn.blocks:
            if not self.split(b) or self.pd.get(b.id) != phi.block.id and \
                    not self.between(b, phi.block):
                continue
            if phi.block.id in self.loops and b.id in \
                    self.loops[phi.block.id]:
                # the next round: the arms must agree for what goes around
                pass
            arms = []
            for s in set(b.insts[-1].succs):
                arms.append({q.id for q, _ in ps
                             if q is b and s is phi.block or
                             s is not phi.block and
                             self.reaches(s, q, phi.block, b)})
            vals = [[p for q, p in ps if q.id in a] for a in arms]
            flat = [x for v in vals for x in v]
            if flat and any(x != flat[0] for x in flat) and \
                    all(vals) and vals[0] != vals[1]:
                return True
        return False

    def between(self, b, j):
        return self.pd.get(b.id) is None

    def reaches(self, s, q, stop, src):
        seen, st = set(), [s]
        while st:
            x = st.pop()
            if x is q:
                return True
            if x.id in seen or x is stop:
                continue
            seen.add(x.id)
            st += x.insts[-1].succs or []
        return False

    def split(self, b):
        t = b.insts[-1]
        return t.op in ("br", "switch") and t.succs and \
            len({x.id for x in t.succs}) > 1 and self.taint(t.ops[0])

    # ---- what a piece of the function adds
    def delta(self, b, stop, seen=()):
        """{cell: polynomial} added on the way from b to stop (None: the
        return), VARIES when that depends on the way"""
        tot = {}
        n = 0
        while b is not None and b.id != stop:
            n += 1
            if n > 400:
                return VARIES
            body = self.loops.get(b.id)
            if body is not None and (b.id, "loop") not in seen:
                r = self.loop(b, body, seen)
                if r == VARIES:
                    return VARIES
                d, b = r
                tot = plus(tot, d)
                continue
            d = self.effects(b)
            if d == VARIES:
                return VARIES
            tot = plus(tot, d)
            t = b.insts[-1]
            ss = []
            for x in t.succs or []:
                if x not in ss:
                    ss.append(x)
            if t.op == "ret":
                v = self.lin.poly(t.ops[0]) if t.ops else {}
                tot = plus(tot, {("ret",): v})
                return tot if stop is None else VARIES
            if not ss:
                return VARIES
            if len(ss) == 1:
                b = ss[0]
                continue
            j = self.pd.get(b.id)
            ds = [self.delta(x, j, seen) for x in ss]
            if any(x == VARIES for x in ds) or any(x != ds[0] for x in ds):
                return VARIES
            tot = plus(tot, ds[0])
            if j is None:
                return tot
            b = self.fn.blocks[j]
        return tot

    def loop(self, h, body, seen):
        """(what all rounds add together, the block behind the loop)"""
        t = h.insts[-1]
        if t.op != "br" or len(t.succs) != 2:
            return VARIES
        inn = [x for x in t.succs if x.id in body]
        out = [x for x in t.succs if x.id not in body]
        exits = {x.id for q in body for x in
                 (self.fn.blocks[q].insts[-1].succs or [])
                 if x.id not in body}
        if len(inn) != 1 or len(out) != 1 or len(exits) != 1:
            return VARIES
        d0 = self.effects(h)
        d = self.delta(inn[0], h.id, seen + ((h.id, "loop"),))
        if d == VARIES or d0 == VARIES:
            return VARIES
        d = plus(d, d0)
        if d:
            n = self.trips(h, body, t, inn[0])
            if n is None:
                return VARIES
            d = {k: mul(v, n) for k, v in d.items()}
        return d, out[0]

    def trips(self, h, body, t, inn):
        i = self.lin.D.get(t.ops[0][1]) if t.ops[0][0] == "r" else None
        if i is None or i.op != "icmp":
            return None
        pr = i.pred if t.succs[0] is inn else norm.NEG[i.pred]
        a, b = i.ops
        for x, y, q in ((a, b, pr), (b, a, norm.SWAP.get(pr, pr))):
            j = x
            while j[0] == "r" and self.lin.D.get(j[1]) is not None and \
                    self.lin.D[j[1]].op in ("sext", "zext"):
                j = self.lin.D[j[1]].ops[0]
            ph = self.lin.D.get(j[1]) if j[0] == "r" else None
            if ph is None or ph.op != "phi" or ph.block is not h:
                continue
            ini = [v for p, v in ph.incoming if p.id not in body]
            nxt = [v for p, v in ph.incoming if p.id in body]
            if len(ini) != 1 or not nxt:
                continue
            ini = const(self.lin.poly(ini[0]))
            if ini is None or any(add(self.lin.poly(v), {(ph_(ph),): 1}, -1)
                                  != {(): 1} for v in nxt):
                continue
            T = self.lin.poly(y)
            if q in ("slt", "ult", "ne"):
                return add(T, {(): ini}, -1) if ini else T
            if q in ("sle", "ule"):
                return add(T, {(): 1 - ini})
        return None

    def effects(self, b):
        """what one block adds to memory outside the destination"""
        tot = {}
        for i in b.insts:
            if i.op == "store":
                if self.hits(i.ops[1]):
                    continue
                k = self.lin.cell(i.ops[1])
                if k is None:
                    return VARIES
                if k in self.cells:
                    continue
                if k[0][0] == "A" and not self.shared(k[0]):
                    continue
                d = add(self.lin.poly(i.ops[0]), content(self.lin, k, i), -1)
                tot = plus(tot, {k: d})
            elif i.op == "call":
                d = self.calldelta(i)
                if d == VARIES:
                    return VARIES
                tot = plus(tot, d)
            elif i.op in ("atomicrmw", "cmpxchg"):
                return VARIES
        return tot

    def shared(self, root):
        """a local structure that other functions are given"""
        for i in self.fn.insts:
            if i.op == "call" and i.callee[0] == "fn" and not \
                    i.callee[1].startswith("llvm."):
                if any(r == root for a in i.args
                       for r, _ in self.one.val(a)):
                    return True
            if i.op == "load" and any(r == root for r, _ in
                                      self.one.val(i.ops[0])):
                return True
        return False

    def calldelta(self, i):
        if i.callee[0] == "asm":
            return {}
        if i.callee[0] != "fn":
            return VARIES
        n = i.callee[1]
        if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
            if self.hits(i.args[0]):
                return {}
            v = self.one.val(i.args[0])
            return {} if v and all(r[0] == "A" for r, _ in v) else VARIES
        S = self.w.W.sum.get(n)
        if S is None:
            return {} if n not in origin.WEXT else VARIES
        if not S.writes and not S.gwrites:
            return {}
        return self.w.total(self, i)


def ph_(i):
    return ("r", i.id)


def plus(a, b):
    out = dict(a)
    for k, v in b.items():
        p = add(out.get(k, {}), v)
        if p:
            out[k] = p
        else:
            out.pop(k, None)
    return out


def loopsof(fn):
    out = []
    for h, body in cfg.loops(fn).items():
        out.append((fn.blocks[h], body))
    return out


def postdom(fn):
    """block id -> id of the nearest block every way to the return passes
    (None: only the return itself)"""
    N = [b for b in fn.blocks if b.insts]
    ex = "exit"
    succ = {b.id: [x.id for x in (b.insts[-1].succs or [])] or [ex]
            for b in N}
    pdom = {b.id: None for b in N}
    full = set(succ) | {ex}
    sets = {b.id: set(full) for b in N}
    sets[ex] = {ex}
    ch = True
    while ch:
        ch = False
        for b in reversed(N):
            new = set(full)
            for x in succ[b.id]:
                new &= sets[x]
            new = new | {b.id}
            if new != sets[b.id]:
                sets[b.id] = new
                ch = True
    for b in N:
        cand = sets[b.id] - {b.id}
        # the nearest: the one post-dominated by all others
        best = None
        for x in cand:
            if len(sets[x]) == len(cand):
                best = x
        pdom[b.id] = None if best in (None, ex) else best
    return pdom


def independent(w, rep):
    """rule C over all functions entered"""
    ind = {}
    memo = {}

    def get(key):
        if key not in ind:
            ind[key] = Indep(w, w.done[key])
        return ind[key]

    def total(self, i):
        """what a call adds, in terms of the caller"""
        n = i.callee[1]
        keys = [k for k in w.done if k[0] == n]
        if not keys:
            return VARIES
        k = keys[0]
        if k not in memo:
            memo[k] = VARIES        # recursion
            g = get(k)
            memo[k] = g.delta(g.fn.blocks[0], None)
        d = memo[k]
        if d == VARIES:
            return VARIES
        out = {}
        for cell, p in d.items():
            if cell == ("ret",):
                continue
            (r, o) = cell
            if r[0] != "P":
                return VARIES
            v = self.one.val(i.args[r[1]])
            if len(v) != 1:
                return VARIES
            (r2, o2), = v
            if o2 is None:
                return VARIES
            q = {}
            for m, kf in p.items():
                t = {(): kf}
                for x in m:
                    y = self_leaf(self, i, x)
                    if y is None:
                        return VARIES
                    t = mul(t, y)
                q = add(q, t)
            out[(r2, o2 + o)] = q
        return out

    def self_leaf(self, i, x):
        if x[0] == "arg":
            return self.lin.poly(i.args[x[1]])
        if x[0] == "mem" and x[2] == ("entry",) and x[1][0][0] == "P":
            v = self.one.val(i.args[x[1][0][1]])
            if len(v) == 1:
                (r, o), = v
                if o is not None:
                    return content(self.lin, (r, o + x[1][1]), i)
        return None
    w.total = total
    for key in sorted(w.done, key=str):
        g = get(key)
        fn = g.fn
        # values
        for i in fn.insts:
            if i.op == "ret" and i.ops:
                rep.decide(not g.taint(i.ops[0]), "C:%s:ret" % fn.name,
                           loc(i), "the result of %s depends on the "
                           "destination or its size" % fn.name,
                           "the result of %s does not depend on the "
                           "destination" % fn.name)
            elif i.op == "store" and not g.hits(i.ops[1]):
                if not g.taint(i.ops[0]):
                    continue
                k = g.lin.cell(i.ops[1])
                rep.decide(k in g.cells and ok_local(g, k),
                           "C:%s:store" % fn.name, loc(i),
                           "%s stores a value that depends on the "
                           "destination or its size" % fn.name)
        # ways
        for b in fn.blocks:
            if not b.insts or not g.split(b):
                continue
            rep.count("destination_tests")
            t = b.insts[-1]
            inl = [h for h, body in g.loops.items() if b.id in body]
            leaving = any(x.id not in g.loops[h] for h in inl
                          for x in t.succs)
            ds = [g.delta(x, g.pd.get(b.id)) for x in
                  {x.id: x for x in t.succs}.values()]
            same = not leaving and all(d != VARIES and d == ds[0]
                                       for d in ds)
            rep.decide(same, "C:%s:test" % fn.name, loc(t),
                       "%s: a test of the destination or its size selects "
                       "between ways that do not add the same to the length"
                       % fn.name, "%s line %s: both ways add the same" %
                       (fn.name, t.line))


def ok_local(g, k):
    """the cell is where the destination or its size is handed on"""
    for i in g.fn.insts:
        if i.op == "store" and g.lin.cell(i.ops[1]) == k and \
                not (g.lin.poly(i.ops[0]) == g.c.dst or
                     g.lin.poly(i.ops[0]) == g.c.size):
            # any value may be handed on as a size that was shown to fit
            pass
    return k[0][0] == "A"


def run():
    rep = Report("P05", __doc__)
    configs = ["amalga"]
    if rep.tier == "thorough":
        configs += ["noamalga", "ix64"]
    for config in configs:
        mod = modular.load(config, keep=("tg_malloc", "tg_free",
                                         "tg_realloc", "fp_dtoa"))
        w = World(mod, rep)
        start(w)
        for name, k, pn, pt, handles in w.dests:
            rep.count("destinations")
            if origin.pointee(pt) == "char":
                terminated(w, w.done[(name, ("P", k))], handles)
        rep.count("functions", len({k[0] for k in w.done}))
        # C on the functions as they are written
        w = World(ir.load(config, passes=PLAIN), Report("P05", __doc__))
        start(w)
        independent(w, rep)
    return rep.finish()


def start(w):
    for name, k, pn, pt, handles in w.dests:
        w.enter(w.mod.funcs[name], ("P", k), {(("arg", k),): 1},
                {(("arg", k + 1),): 1})
