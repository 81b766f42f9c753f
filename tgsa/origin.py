"""Where pointers come from: a flow- and field-sensitive origin analysis with
bottom-up summaries, on the modular form.

A pointer value is a set of (root, offset); an offset is None when unknown.
Roots:
  ("P", k)        what argument k points to
  ("L", root, o)  what the pointer found at offset o of root points to
  ("D", k)        anything further from argument k
  ("A", id)       a local variable
  ("H", id)       memory made by allocation or call id
  ("G", name)     a global;  ("F", name) a function
Memory of A and H roots is tracked per offset with strong updates, with
regions for what memcpy brought; memory of P, L, D and G roots is read as a
path, joined with what the function stored there.
Summaries: writes (root -> witness), result values, what was stored where,
what fresh memory contains, and calls through function pointers that only the
caller knows.
"""
from . import cfg, api

DEPTH = 5
HEAPNEW = {"malloc", "calloc", "tg_malloc"}
HEAPRE = {"realloc", "tg_realloc"}
HEAPFREE = {"free", "tg_free"}
WR0 = {"memcpy", "memmove", "memset", "strcpy", "strncpy", "strcat",
       "snprintf", "vsnprintf", "sprintf", "qsort", "strncat"}
RET0 = {"memcpy", "memmove", "strcpy", "strncpy", "strcat", "strchr",
        "strrchr", "memchr", "strstr", "strpbrk"}
WEXT = dict.fromkeys(WR0, (0,))     # arguments that are written
WSIZE = {"memcpy": 2, "memmove": 2, "memset": 2, "snprintf": 1,
         "vsnprintf": 1, "strncpy": 2}
EMPTY = frozenset()


def arg_of(root):
    while root[0] == "L":
        root = root[1]
    return root[1] if root[0] in "PD" else None


def depth(root):
    n = 0
    while root[0] == "L":
        root, n = root[1], n + 1
    return n


def child(root, off):
    if root[0] == "D":
        return root
    if root[0] == "G":
        return root
    if depth(root) >= DEPTH:
        k = arg_of(root)
        return ("D", k) if k is not None else root
    if root[0] == "L" and root[1][0] == "G":
        return root
    return ("L", root, off)


class Cell:
    """memory of one object"""
    __slots__ = ("s", "r", "w")

    def __init__(c, s=None, r=EMPTY, w=EMPTY):
        c.s, c.r, c.w = s or {}, r, w

    def key(c):
        return (frozenset(c.s.items()), c.r, c.w)

    def read(c, off):
        if off is None:
            out = set(c.w)
            for v in c.s.values():
                out |= v
            for d, n, src, so in c.r:
                out.add((child(src, None), 0))
            return frozenset(out)
        if off in c.s:
            return c.s[off] | c.w
        out = set(c.w)
        for d, n, src, so in c.r:
            if d is None or so is None:
                out.add((child(src, None), 0))
            elif off >= d and (n is None or off < d + n):
                out.add((child(src, so + off - d), 0))
        return frozenset(out)


def join(a, b):
    if a is None:
        return b
    if b is None or a.key() == b.key():
        return a
    s = {}
    for o in set(a.s) | set(b.s):
        s[o] = a.read(o) - a.w | b.read(o) - b.w | (
            a.s.get(o, EMPTY)) | (b.s.get(o, EMPTY))
    return Cell(s, a.r | b.r, a.w | b.w)


class Summary:
    def __init__(s):
        s.writes = {}      # root -> (fn, inst, kind, chain)
        s.woffs = {}       # root -> {offset written}
        s.gwrites = {}
        s.ret = set()      # values; fresh as (("N",), 0)
        s.stores = set()   # (root, off, value)
        s.cont = set()     # values inside fresh memory
        s.calls = {}       # (fn value root, args) -> inst

    def key(s):
        return (frozenset((r, frozenset(o)) for r, o in s.woffs.items()),
                frozenset(s.writes), frozenset(s.gwrites), frozenset(s.ret),
                frozenset(s.stores), frozenset(s.cont), frozenset(s.calls))


class Origins:
    def __init__(self, mod, g, skip=(), flat=(), only=None):
        """skip: functions that have no effect here (drop of a reference);
        flat: (function, k): argument k points to memory without pointers"""
        self.mod, self.g, self.skip = mod, g, set(skip)
        self.flat = set(flat)
        self.sum = {f.name: Summary() for f in mod.defined()
                    if only is None or f.name in only}
        self.one = {}
        self.tmap = {n: {id(i): t for i, t in l} for n, l in g.calls.items()}
        order = cfg.sccs(sorted(self.sum),
                         lambda n: [x for x in sorted(g.succ(n))
                                    if x in self.sum])
        self.rounds = 0
        for comp in order:
            for _ in range(12):
                old = {n: self.sum[n].key() for n in comp}
                for n in comp:
                    self.one[n] = o = One(self, mod.funcs[n])
                    o.run()
                    self.rounds += 1
                if all(self.sum[n].key() == old[n] for n in comp):
                    break
                if len(comp) == 1 and comp[0] not in g.succ(comp[0]):
                    break


class One:
    def __init__(self, W, f):
        self.W, self.f = W, f
        self.S = W.sum[f.name]
        self.pts = {a: frozenset({(("P", k), 0)})
                    for k, a in enumerate(f.args)
                    if f.argtys[k].kind == "ptr" or
                    f.argtys[k].kind == "int" and f.argtys[k].bits >= 64}
        self.tm = W.tmap[f.name]
        self.dirty = False
        self.D = cfg.defs(f)
        self.eff = {}       # id(inst) -> {(root, offset)} it may write

    def val(self, o):
        k = o[0]
        if k == "r":
            return self.pts.get(o[1], EMPTY)
        if k == "g":
            return frozenset({(("G", o[1]), 0)})
        if k == "fn":
            return frozenset({(("F", o[1]), 0)})
        return EMPTY

    def setreg(self, r, v):
        old = self.pts.get(r, EMPTY)
        if not v <= old:
            self.pts[r] = old | v
            self.dirty = True

    def run(self):
        f = self.f
        order = cfg.rpo(f)
        inn = {f.blocks[0].id: {}}
        out = {}
        for rnd in range(40):
            self.dirty = False
            change = False
            for b in order:
                if not isinstance(b, int):
                    bb = b
                else:
                    bb = f.blocks[b]
                if bb is not f.blocks[0]:
                    m = None
                    for p in bb.preds:
                        if p.id in out:
                            m = out[p.id] if m is None else \
                                joinmem(m, out[p.id])
                    if m is None:
                        continue
                else:
                    m = {}
                m = dict(m)
                for i in bb.insts:
                    self.inst(i, m)
                k = {r: c.key() for r, c in m.items()}
                if bb.id not in inn or inn[bb.id] != k:
                    inn[bb.id] = k
                    change = True
                out[bb.id] = m
            if not change and not self.dirty:
                break
        self.final = out
        self.export(out)

    # ---- memory
    def load(self, ptrs, m):
        out = set()
        for root, off in ptrs:
            if root[0] in "AH":
                c = m.get(root)
                if c is not None:
                    out |= c.read(off)
            elif root[0] in "PLDG":
                g = self.W.mod.globals.get(root[1]) if root[0] == "G" \
                    else None
                if not (g is not None and g.const or root[0] == "P" and
                        (self.f.name, root[1]) in self.W.flat):
                    out.add((child(root, off), 0))
                c = m.get(root)
                if c is not None:
                    out |= c.w if off is None else \
                        c.s.get(off, EMPTY) | c.w
                    if off is None:
                        for v in c.s.values():
                            out |= v
        return frozenset(out)

    def store(self, ptrs, v, m, size=8):
        one = len(ptrs) == 1
        for root, off in ptrs:
            if root[0] == "F":
                continue
            c = m.get(root) or Cell()
            if off is None:
                if v:
                    c = Cell(dict(c.s), c.r, c.w | v)
            else:
                s = dict(c.s)
                if one and root[0] in "AH":
                    s[off] = v
                else:
                    s[off] = (c.read(off) if root[0] in "AH"
                              else c.s.get(off, EMPTY)) | v
                c = Cell(s, c.r, c.w)
            m[root] = c

    def written(self, ptrs, i, kind, chain=()):
        S = self.S
        wide = kind not in ("store", "atomic update") or \
            i.op == "store" and self.wide(i.ops[0])
        if wide:
            ptrs = frozenset((r, None) for r, _ in ptrs)
        self.eff.setdefault(id(i), set()).update(ptrs)
        for root, off in ptrs:
            if root[0] in "PLD" and arg_of(root) is not None:
                if root not in S.writes:
                    S.writes[root] = (self.f.name, i, kind, chain)
                w = S.woffs.setdefault(root, set())
                w.add(off)
                if len(w) > 16:
                    S.woffs[root] = {None}
            if root[0] == "G" or root[0] == "L" and \
                    arg_of(root) is None:
                n = root
                while n[0] == "L":
                    n = n[1]
                if n[0] == "G" and n[1] not in S.gwrites:
                    S.gwrites[n[1]] = (self.f.name, i, kind, chain)

    def wide(self, o):
        """the stored operand may be larger than eight bytes"""
        if o[0] == "r":
            i = self.D.get(o[1])
            t = i.ty if i is not None else None
            return t is None and o[1] not in self.f.args or \
                t is not None and t.size > 8
        return o[0] not in ("i", "null", "f", "fn", "g")

    def copy(self, dst, src, n, m):
        one = len(dst) == 1
        for dr, do in dst:
            if dr[0] == "F":
                continue
            c = m.get(dr) or Cell()
            new = []
            for sr, so in src:
                new.append((sr, so))
            s, r, w = dict(c.s), set(c.r), set(c.w)
            strong = one and dr[0] in "AH" and do is not None and \
                n is not None
            if strong:
                for o in list(s):
                    if do <= o < do + n:
                        del s[o]
                r = {x for x in r if not (
                    x[0] is not None and x[1] is not None and
                    do <= x[0] and x[0] + x[1] <= do + n)}
            for sr, so in new:
                if sr[0] in "AH":
                    sc = m.get(sr)
                    if sc is None:
                        continue
                    if do is None or so is None:
                        w |= sc.read(None)
                        continue
                    for o, v in sc.s.items():
                        if o >= so and (n is None or o < so + n):
                            s[do + o - so] = s.get(do + o - so, EMPTY) | v
                    for d, rn, rs, ro in sc.r:
                        if d is None or ro is None:
                            r.add((None, None, rs, None))
                        else:
                            # part of the region that is copied
                            lo = max(d, so)
                            hi = None if rn is None and n is None else \
                                min(x for x in (
                                    None if rn is None else d + rn,
                                    None if n is None else so + n)
                                    if x is not None)
                            if hi is None or hi > lo:
                                r.add((do + lo - so,
                                       None if hi is None else hi - lo,
                                       rs, ro + lo - d))
                    w |= sc.w
                elif sr[0] == "P" and (self.f.name, sr[1]) in self.W.flat:
                    pass
                elif sr[0] in "PLD":
                    # what is already overridden stays possible
                    if strong or dr[0] in "AH":
                        r.add((do, n, sr, so))
                        if not strong:
                            for o in list(s):
                                if do is None or o >= do:
                                    s[o] |= {(child(sr, None if so is None
                                                    or do is None
                                                    else so + o - do), 0)}
            if len(r) > 12:
                r = {(None, None, x[2], None) for x in r}
            m[dr] = Cell(s, frozenset(r), frozenset(w))

    # ---- instructions
    def inst(self, i, m):
        op = i.op
        if op == "alloca":
            self.setreg(i.id, frozenset({(("A", i.id), 0)}))
        elif op == "load":
            if i.ty.kind in ("ptr",) or i.ty.kind == "int" and \
                    i.ty.bits >= 64:
                self.setreg(i.id, self.load(self.val(i.ops[0]), m))
        elif op == "store":
            p = self.val(i.ops[1])
            self.written(p, i, "store")
            self.store(p, self.val(i.ops[0]), m)
        elif op in ("atomicrmw", "cmpxchg"):
            p = self.val(i.ops[0])
            if not (op == "atomicrmw" and all(o == 0 for _, o in p) and
                    i.rmw in ("add", "sub")):
                self.written(p, i, "atomic update")
        elif op == "gep":
            off, var = i.gep[0], i.gep[1]
            out = set()
            for root, o in self.val(i.ops[0]):
                out.add((root, None if var or o is None else o + off))
            self.setreg(i.id, frozenset(out))
        elif op in ("bitcast", "inttoptr", "ptrtoint", "freeze",
                    "extractvalue"):
            self.setreg(i.id, self.val(i.ops[0]))
        elif op == "phi":
            out = EMPTY
            for _, v in i.incoming:
                out |= self.val(v)
            self.setreg(i.id, out)
        elif op == "select":
            self.setreg(i.id, self.val(i.ops[1]) | self.val(i.ops[2]))
        elif op == "insertvalue":
            self.setreg(i.id, self.val(i.ops[0]) | self.val(i.ops[1]))
        elif op in ("add", "and", "or") and i.ty.kind == "int" and \
                i.ty.bits == 64:
            v = self.val(i.ops[0]) | self.val(i.ops[1])
            if v:
                self.setreg(i.id, frozenset((r, None) for r, _ in v))
        elif op == "ret":
            if i.ops:
                v = self.val(i.ops[0])
                self.retvals = getattr(self, "retvals", EMPTY) | v
        elif op == "call":
            self.call(i, m)

    def call(self, i, m):
        if i.callee[0] == "asm":
            return
        ts = set(self.tm.get(id(i), ()))
        if i.callee[0] == "fn":
            ts.add(i.callee[1])
        if ts & HEAPNEW:
            self.new(i, m)
            return
        if ts & HEAPRE:
            old = self.val(i.args[0])
            self.new(i, m)
            h = ("H", i.id)
            for r, _ in old:
                if r == h:
                    continue
                c = m.get(r)
                if r[0] in "AH" and c is not None:
                    m[h] = join(m[h], c) if m[h].key() != Cell().key() \
                        else c
                elif r[0] in "PLD":
                    m[h] = join(m[h], Cell({}, frozenset(
                        {(None, None, r, None)})))
            self.written(old, i, "realloc")
            return
        if ts & HEAPFREE:
            self.written(self.val(i.args[0]), i, "free")
            return
        if i.callee[0] == "fn":
            self.invoke(i, i.callee[1], [self.val(a) for a in i.args], m)
            return
        for r, o in self.val(i.callee):
            args = [self.val(a) for a in i.args]
            if r[0] == "F":
                self.invoke(i, r[1], args, m)
            elif r[0] in "PLD":
                self.defer(i, r, args)

    def defer(self, i, r, args):
        k = (r, tuple(args))
        for q in self.S.calls:
            if q[0] == r and len(q[1]) == len(args) and \
                    all(a <= b for a, b in zip(args, q[1])):
                return
        self.S.calls[k] = i

    def new(self, i, m):
        h = ("H", i.id)
        self.setreg(i.id, frozenset({(h, 0)}))
        m[h] = Cell()

    def invoke(self, i, name, args, m):
        W = self.W
        if name in W.skip:
            return
        C = W.sum.get(name)
        if C is None:
            base = name
            if name.startswith(("llvm.memcpy", "llvm.memmove")):
                base = "memcpy"
            elif name.startswith("llvm.memset"):
                base = "memset"
            if base in WR0 and args:
                self.written(args[0], i, base)
            if base in ("memcpy", "memmove"):
                n = i.args[2][2] if len(i.args) > 2 and \
                    i.args[2][0] == "i" else None
                self.copy(args[0], args[1], n, m)
            elif base == "memset":
                n = i.args[2][2] if i.args[2][0] == "i" else None
                self.clear(args[0], n, m)
            if base in RET0 and i.id is not None and args:
                self.setreg(i.id, frozenset((r, None) for r, _ in args[0]))
            if base.startswith("strto") and len(args) > 1:
                self.written(args[1], i, base)
                self.store(args[1], frozenset((r, None)
                                              for r, _ in args[0]), m)
            return
        h = ("H", i.id)
        memo = {}

        def tr(root, seen=0):
            """values in this function of a root of the callee, as
            {(root, base offset)}"""
            if root in memo:
                return memo[root]
            if root[0] == "P":
                out = args[root[1]] if root[1] < len(args) else EMPTY
            elif root[0] == "L":
                out = self.load(frozenset(
                    (r, None if o is None or root[2] is None
                     else o + root[2]) for r, o in tr(root[1])), m)
            elif root[0] == "D":
                lv = args[root[1]] if root[1] < len(args) else EMPTY
                for _ in range(DEPTH):
                    lv = self.load(frozenset((x[0], None) for x in lv), m)
                out, st = set(), list(lv)
                while st:
                    x = st.pop()
                    for y in self.load(frozenset({(x[0], None)}), m):
                        y = (y[0], None)
                        if y not in out:
                            out.add(y)
                            st.append(y)
                out = frozenset(out)
            elif root[0] == "N":
                out = frozenset({(h, 0)})
            else:
                out = frozenset({(root, 0)})
            memo[root] = out
            return out

        def trv(v):
            root, off = v
            return frozenset((r, None if o is None or off is None
                              else o + off) for r, o in tr(root))
        fresh = False
        for w, (fn, wi, kind, chain) in list(C.writes.items()):
            p = EMPTY
            for o in C.woffs[w]:
                p |= trv((w, o))
            self.written(p, i, kind, ((fn, wi),) + chain[:6])
        for gname, (fn, wi, kind, chain) in list(C.gwrites.items()):
            self.written(((("G", gname), 0),), i, kind,
                         ((fn, wi),) + chain[:6])
        ret = EMPTY
        for v in C.ret:
            if v[0] == ("N",):
                fresh = True
            ret |= trv(v)
        if any(s[2][0] == ("N",) for s in C.stores):
            fresh = True
        if fresh:
            cont = EMPTY
            for v in C.cont:
                cont |= trv(v)
            m[h] = Cell({}, EMPTY, frozenset((r, None) for r, _ in cont))
        # collect stores first, they happen "at once"
        todo = []
        for root, off, v in C.stores:
            todo.append((trv((root, off)), trv(v)))
        for p, v in todo:
            for r, o in p:
                if r[0] == "F":
                    continue
                c = m.get(r) or Cell()
                if o is None:
                    m[r] = Cell(dict(c.s), c.r, c.w | v)
                else:
                    s = dict(c.s)
                    s[o] = (c.read(o) if r[0] in "AH" else
                            c.s.get(o, EMPTY)) | v
                    m[r] = Cell(s, c.r, c.w)
        for (froot, cargs), ci in list(C.calls.items()):
            a2 = []
            for a in cargs:
                x = EMPTY
                for v in a:
                    if v[0][0] in "AH":     # a local of the callee
                        continue
                    x |= trv(v)
                a2.append(x)
            for r, o in tr(froot):
                if r[0] == "F":
                    self.invoke(i, r[1], a2, m)
                elif r[0] in "PLD":
                    self.defer(i, r, a2)
        if i.id is not None and ret:
            self.setreg(i.id, ret)

    def clear(self, ptrs, n, m):
        one = len(ptrs) == 1
        for root, off in ptrs:
            if one and root[0] in "AH" and off is not None:
                c = m.get(root) or Cell()
                if n is None and off == 0:
                    m[root] = Cell()
                elif n is not None:
                    s = {o: v for o, v in c.s.items()
                         if not off <= o < off + n}
                    if c.r or c.w:
                        for o in range(off, min(off + n, off + 256), 8):
                            s[o] = EMPTY
                    m[root] = Cell(s, c.r, c.w)

    # ---- summary
    def out(self, v):
        r, o = v
        if r[0] in "AH":
            return (("N",), 0)
        return (r, o)

    def export(self, out):
        S = self.S
        rv = getattr(self, "retvals", EMPTY)
        exits = [out[b.id] for b in self.f.blocks if b.insts and
                 b.insts[-1].op == "ret" and b.id in out]
        m = {}
        for e in exits:
            m = joinmem(m, e) if m else e
        for v in rv:
            S.ret.add(self.out(v))
        fresh = {v[0] for v in rv if v[0][0] in "AH"}
        for r, c in m.items():
            if r[0] in "PLDG":
                for o, vs in list(c.s.items()) + [(None, c.w)]:
                    for v in vs:
                        S.stores.add((r, o, self.out(v)))
                        if v[0][0] in "AH":
                            fresh.add(v[0])
        seen, w = set(), list(fresh)
        while w:
            r = w.pop()
            if r in seen:
                continue
            seen.add(r)
            c = m.get(r)
            if c is None:
                continue
            for v in c.read(None):
                if v[0][0] in "AH":
                    w.append(v[0])
                    S.cont.add((("N",), 0))
                else:
                    S.cont.add((v[0], None))


def joinmem(a, b):
    if a is b:
        return a
    out = dict(a)
    for r, c in b.items():
        out[r] = join(a.get(r), c)
    return out


# ---- the public functions
FLAT = ("char", "uint8_t", "double", "void", "tg_point", "tg_rect",
        "tg_segment", "size_t", "int")


def base(t):
    return t.replace("struct ", "").replace("enum ", "").strip()


def params(fn, f):
    """[(name, type, index of the first IR argument)] of a public function:
    a returned struct may take the first argument, a point takes two"""
    k = len(fn.args) - sum(2 if base(t) == "tg_point" else 1
                           for _, t in f.params)
    out = []
    for n, t in f.params:
        out.append((n, t, k))
        k += 2 if base(t) == "tg_point" else 1
    return out


def pointee(t):
    """type a parameter points to, without const; None when no pointer"""
    t = t.strip()
    if not t.endswith("*"):
        return None
    return base(t[:-1].replace("const ", "").replace(" const", ""))


def reach(g, roots):
    seen, st = set(), list(roots)
    while st:
        n = st.pop()
        if n not in seen:
            seen.add(n)
            st += g.succ(n)
    return seen


def public(mod, roots=None):
    """(Origins of the library, {name: (fn, ApiFn, params)})"""
    from . import cg
    fns = api.functions()
    pub = {}
    for n, f in sorted(fns.items()):
        fn = mod.funcs.get(n)
        if fn is not None and not fn.decl:
            pub[n] = (fn, f, params(fn, f))
    flat = [(n, k) for n, (fn, f, ps) in pub.items()
            for _, t, k in ps if pointee(t) in FLAT]
    skip = [n for n in pub if n.endswith("_free")]
    g = cg.CallGraph(mod)
    return Origins(mod, g, skip, flat,
                   reach(g, roots) if roots else None), pub
