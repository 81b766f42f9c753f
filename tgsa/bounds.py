"""Reads of an input stay inside it.

A root is a pointer argument of a function and the argument that says how many
bytes it points to.  Values are polynomials over leaves with ranges; the facts
at a block are the conditions that dominate it; a goal "p >= 0" is decided by
elimination over the facts (linear arithmetic on integers), splitting on where
a merged value comes from.  Loop counters with a constant step are init + step
* (rounds of the loop).  "value <= length" is tried as an invariant for every
loop variable, argument and result, and kept where every place that sets it
keeps it (all candidates are assumed, those that fail are dropped, until
nothing changes).
"""
from . import cfg, norm
from .linear import add, mul, const

LEN = 2**62          # no object is longer
ROUNDS = 2**56       # no loop runs longer
MAXC = 400


def K(n):
    return {(): n} if n else {}


class Fn:
    def __init__(self, W, fn, root):
        self.W, self.fn, self.root = W, fn, root
        self.D = cfg.defs(fn)
        self.loops = cfg.loops(fn)
        self.memo, self.rng = {}, {}
        self.base = ("arg", root[0])
        self.rng[self.base] = (1, 2**63)
        self.rng[("arg", root[1])] = (0, LEN)
        self.len = {(("arg", root[1]),): 1}
        self.argno = {a: k for k, a in enumerate(fn.args)}
        self.header = {b.id: b for b in fn.blocks if b.id in self.loops}
        self.inv, self.less = set(), set()
        self.narrow = set()
        self.deep, self.hit = 0, False
        self.fcache, self.scache = {}, {}
        self.live = self.alive()
        for b in self.header.values():
            for i in b.insts:
                if i.op != "phi":
                    break
                if i.ty.kind == "int" and i.ty.bits == 64 or \
                        i.ty.kind == "ptr" and all(
                            self.derived(v) for _, v in self.ways(i)):
                    self.inv.add(i.id)
                    self.less.add(i.id)

    def alive(self):
        """blocks that are not behind a constant condition"""
        seen, work = set(), [self.fn.blocks[0]]
        while work:
            b = work.pop()
            if b.id in seen:
                continue
            seen.add(b.id)
            ss = b.insts[-1].succs
            t = b.insts[-1]
            if t.op == "br" and len(ss) == 2 and t.ops[0][0] == "i":
                ss = [ss[0] if t.ops[0][2] else ss[1]]
            work += ss
        return seen

    def ways(self, i):
        """[(block, value)] of a phi"""
        return [(b, v) for b, v in i.incoming if b.id in self.live]

    # ---- values
    def width(self, o):
        if o[0] == "i" or o[0] == "undef" and isinstance(o[1], int):
            return o[1]
        if o[0] == "r":
            i = self.D.get(o[1])
            t = i.ty if i is not None else \
                self.fn.argtys[self.argno[o[1]]] if o[1] in self.argno \
                else None
            if t is not None and t.kind == "int":
                return t.bits
        return 64

    def leaf(self, l, lo, hi):
        self.rng[l] = (lo, hi)
        return {(l,): 1}

    def full(self, w, sg):
        return (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, (1 << w) - 1)

    def interval(self, p):
        lo = hi = 0
        for m, k in p.items():
            a, b = 1, 1
            for l in m:
                c, d = self.rng[l]
                v = (a * c, a * d, b * c, b * d)
                a, b = min(v), max(v)
            lo += min(k * a, k * b)
            hi += max(k * a, k * b)
        return lo, hi

    def poly(self, o, sg=False):
        old, self.hit = self.hit, False
        p = self.poly0(o, sg)
        if self.hit and self.deep and o[0] == "r":
            self.memo.pop((o[1], sg), None)
        self.hit = old or self.hit
        return p

    def poly0(self, o, sg):
        """the mathematical value of o, read as signed or unsigned"""
        if o[0] == "i":
            n = norm.sint(o)
            return K(n if sg or n >= 0 else n + (1 << o[1]))
        if o[0] == "null":
            return {}
        if o[0] != "r":
            return self.leaf(("o",) + tuple(o[:2]), 0, 2**64 - 1)
        key = (o[1], sg)
        if key in self.memo:
            return self.memo[key]
        w = self.width(o)
        name = ("s" if sg else "z", o[1])
        if o[1] in self.argno:
            k = self.argno[o[1]]
            t = self.fn.argtys[k]
            if t.kind == "ptr":
                p = self.leaf(("arg", k), 1, 2**63)
            elif k == self.root[1]:
                p = self.leaf(("arg", k), 0, LEN)
            elif w == 64 and k in self.W.pos.get((self.fn.name, self.root),
                                                 ()):
                p = self.leaf(("arg", k), 0, LEN)
            else:
                p = self.leaf(("s" if sg else "z", -1 - k),
                              *self.full(w, sg))
            self.memo[key] = p
            return p
        self.memo[key] = self.leaf(name, *self.full(w, sg))
        p = self.poly1(self.D[o[1]], sg, w)
        if p is not None and self.D[o[1]].ty.kind != "ptr":
            lo, hi = self.interval(p)
            a, b = self.full(w, sg)
            i = self.D[o[1]]
            try_ = i.op in ("add", "sub", "phi", "trunc", "mul", "shl",
                             "xor")
            if lo < a and not (try_ and self.nonneg(add(p, K(a), -1),
                                                    i.block)):
                p = None
            elif hi > b and i.id not in self.narrow and \
                    i.op != "ptrtoint" and not (
                    try_ and self.nonneg(add(K(b), p, -1), i.block)):
                p = None
        if p is None:
            if o[1] in self.inv and self.D[o[1]].ty.kind == "ptr":
                self.memo[key] = add({(self.base,): 1},
                                     self.leaf(("off", o[1]), 0, LEN))
                return self.memo[key]
            c, d = self.const_range(o, sg)
            p = self.leaf(("z" if c >= 0 else name[0], o[1]), c, d)
        self.memo[key] = p
        return p

    def const_range(self, o, sg, depth=0, seen=()):
        """range of a value that is one of some constants, or of its type"""
        w = self.width(o)
        full = self.full(w, sg)
        if o[0] == "r" and o[1] in self.inv:
            return 0, LEN
        if o[0] == "i":
            c = const(self.poly(o, sg))
            return c, c
        i = self.D.get(o[1]) if o[0] == "r" else None
        if i is None or depth > 6:
            return full
        if i.op == "call":
            n = i.callee[1] if i.callee[0] == "fn" else None
            return full
        if i.op == "zext":
            return self.const_range(i.ops[0], False, depth + 1, seen)
        if i.op in ("phi", "select"):
            if i.id in seen:
                return None
            vs = [v for _, v in self.ways(i)] if i.op == "phi" else i.ops[1:]
            rs = [self.const_range(v, sg, depth + 1, seen + (i.id,))
                  for v in vs]
            rs = [r for r in rs if r is not None]
            if rs:
                return min(r[0] for r in rs), max(r[1] for r in rs)
        if i.op == "and" and i.ops[1][0] == "i":
            n = i.ops[1][2]
            if n >= 0 and n < 1 << w - 1:
                return 0, n
        if i.op in ("lshr",) and i.ops[1][0] == "i":
            return 0, ((1 << w) - 1) >> i.ops[1][2]
        return full

    def poly1(self, i, sg, w):
        op = i.op
        if op in ("zext", "sext"):
            if self.width(i.ops[0]) == 1:
                return None
            return self.poly(i.ops[0], op == "sext")
        if op == "ptrtoint":
            # addresses are below 2**63, and a gep does not wrap
            return self.poly(i.ops[0])
        if op in ("freeze", "bitcast", "inttoptr"):
            return self.poly(i.ops[0], sg)
        if op == "trunc":
            p = self.poly(i.ops[0], sg)
            return p
        if op == "add":
            p = add(self.poly(i.ops[0], sg), self.poly(
                i.ops[1], sg or i.ops[1][0] == "i"))
            return p
        if op == "sub":
            return add(self.poly(i.ops[0], sg), self.poly(i.ops[1], sg), -1)
        if op == "xor" and norm.sint(i.ops[1]) == -1 \
                if i.ops[1:] and i.ops[1][0] == "i" else False:
            return add(K(-1 if sg else (1 << w) - 1),
                       self.poly(i.ops[0], sg), -1)
        if op == "mul":
            return mul(self.poly(i.ops[0], sg), self.poly(i.ops[1], sg))
        if op == "shl" and i.ops[1][0] == "i":
            return mul(self.poly(i.ops[0], sg), K(1 << i.ops[1][2]))
        if op == "lshr" and i.ops[1][0] == "i" and i.ops[1][2] == 1:
            return self.leaf(("half", i.ops[0]), 0, (1 << w - 1) - 1)
        if op == "or" and i.ops[1][0] == "i":
            # adding 1 to an even number
            p = self.poly(i.ops[0], sg)
            c = i.ops[1][2]
            n = 1
            while n <= c:
                n *= 2
            if c > 0 and all(k % n == 0 for k in p.values()):
                return add(p, K(c))
        if op == "gep":
            p = add(self.poly(i.ops[0]), K(i.gep[0]))
            for o, sc in i.gep[1]:
                q = self.poly(o, True) if self.width(o) < 64 else \
                    self.poly64(o, i.block)
                p = add(p, mul(q, K(sc)))
            return p
        if op == "phi" and i.block.id in self.header:
            body = self.loops[i.block.id]
            init, step = None, None
            for b, v in self.ways(i):
                if b.id in body:
                    if v == ("r", i.id):
                        continue
                    j = self.D.get(v[1]) if v[0] == "r" else None
                    d = None
                    if j is not None and j.op == "add" and \
                            j.ops[0] == ("r", i.id) and j.ops[1][0] == "i":
                        d = norm.sint(j.ops[1])
                    elif j is not None and j.op == "gep" and \
                            j.ops[0] == ("r", i.id) and not j.gep[1]:
                        d = j.gep[0]
                    if d is None or step not in (None, d):
                        return None
                    step = d
                else:
                    if init not in (None, v):
                        return None
                    init = v
            backs = [b for b, v in self.ways(i) if b.id in body]
            if init is None or step is None or any(
                    v == ("r", i.id) for b, v in self.ways(i)
                    if b.id in body):
                return None
            t = self.leaf(("T", i.block.id), 0, ROUNDS if w == 64 else
                          (1 << w - 1) - 1)
            if w < 64:
                self.rng[("T", i.block.id)] = (0, ROUNDS)
            p = add(self.poly(init, sg), mul(t, K(step)))
            if w < 64:
                # a narrow counter does not run out of its type: it is
                # compared with something of that type
                self.narrow.add(i.id)
            return p
        return None

    def poly64(self, o, block):
        # an index in a gep may be a negative number written unsigned
        p = self.poly(o)
        if self.interval(p)[1] >= 2**63 and not self.nonneg(
                add(K(2**63 - 1), p, -1), block):
            return self.poly(o, True)
        return p

    def nonneg(self, p, block):
        if self.deep > 3:
            self.hit = True
            return False
        self.deep += 1
        try:
            return self.prove(p, block)
        finally:
            self.deep -= 1

    # ---- facts
    def conv(self, pr, a, b):
        """[p]: p >= 0 for the condition"""
        if self.width(a) == 1 or a[0] not in "ri" and a[0] != "null" or \
                b[0] not in ("r", "i", "null"):
            return []
        sg = pr[0] == "s"
        x, y = self.poly(a, sg), self.poly(b, sg)
        d = add(y, x, -1)
        if pr in ("ult", "slt"):
            return [add(d, K(-1))]
        if pr in ("ule", "sle"):
            return [d]
        if pr in ("ugt", "sgt"):
            return [add(mul(d, K(-1)), K(-1))]
        if pr in ("uge", "sge"):
            return [mul(d, K(-1))]
        if pr == "eq":
            return [d, mul(d, K(-1))]
        return []

    def seeks(self, i):
        return i.op == "call" and i.callee[0] == "fn" and \
            i.callee[1] == "memchr" and self.derived(i.args[0])

    def found(self, a, b):
        """a != NULL where a is a place that was searched for"""
        if b != ("null",) or a[0] != "r" or a[1] not in self.D or \
                not self.seeks(self.D[a[1]]):
            return []
        i = self.D[a[1]]
        d = add(self.poly(a), self.poly(i.args[0]), -1)
        return [d, add(add(self.poly(i.args[2]), d, -1), K(-1))]

    def result(self, a, b):
        """a != b where a is a result that is at most the length or -1"""
        if b[0] == "i" and b[2] in (2**64 - 1, -1) and a[0] == "r" and \
                a[1] in self.D and self.good(a):
            return [add(self.len, self.poly(a), -1)]
        return []

    def bound(self, i):
        """c: the signed result of the call is at most length + c"""
        r = self.W.passed(self, i)
        if r is None:
            return None
        for c in (-1, 0):
            if (r[0], r[1], c) in self.W.signed:
                return c
        return None

    def good(self, o, seen=()):
        """o is at most the length or -1, by the contract of functions"""
        if o[0] == "i":
            return o[2] in (2**64 - 1, -1)
        if o[0] != "r" or o[1] in seen:
            return o[0] == "r"
        i = self.D.get(o[1])
        if i is None:
            return False
        if i.op == "call":
            r = self.W.passed(self, i)
            return r is not None and (r[0], r[1]) in self.W.ret
        if i.op in ("phi", "select"):
            vs = [v for _, v in self.ways(i)] if i.op == "phi" else i.ops[1:]
            return all(self.good(v, seen + (i.id,)) for v in vs)
        return False

    def facts(self, block):
        """what holds in block; while it is being computed, what is known
        of the conditions before"""
        if block.id in self.fcache:
            return self.fcache[block.id]
        r = self.fcache[block.id] = []
        self.lift(norm.facts(self.fn, block), r)
        if self.deep:
            del self.fcache[block.id]
        return r

    def lift(self, fs, out=None):
        out = [] if out is None else out
        for pr, a, b, _ in fs:
            ps = self.conv(pr, a, b)
            if pr == "ne":
                ps = ps + self.result(a, b) + self.found(a, b)
            out += [("ge", p) for p in ps]
            if pr == "ne" and self.width(a) > 1 and \
                    b[0] in ("i", "null", "r"):
                out.append(("ne", add(self.poly(a), self.poly(b), -1)))
        return out

    def general(self, ps):
        """facts that always hold about the leaves of ps"""
        out, seen = [], set()
        work = [l for p in ps for m in p for l in m]
        while work:
            l = work.pop()
            if l in seen:
                continue
            seen.add(l)
            q = []
            if l[0] == "z" and l[1] in self.inv:
                q.append(add(add(self.len, K(-(l[1] in self.less))),
                             {(l,): 1}, -1))
            if l[0] == "s" and l[1] in self.D and \
                    self.D[l[1]].op == "call":
                c = self.bound(self.D[l[1]])
                if c is not None:
                    q.append(add(add(self.len, K(c)), {(l,): 1}, -1))
            if l[0] == "off":
                q.append(add(add(self.len, K(-(l[1] in self.less))),
                             {(l,): 1}, -1))
            if l[0] == "T":
                h = self.header.get(l[1])
                for i in h.insts:
                    if i.op != "phi":
                        break
                    if i.id in self.inv:
                        p = self.poly(("r", i.id))
                        if i.ty.kind == "ptr":
                            p = add(p, {(self.base,): 1}, -1)
                        if i.id in self.less:
                            p = add(p, K(1))
                        if p != {((("z"), i.id),): 1}:
                            q.append(add(self.len, p, -1))
            if l[0] == "arg" and l[1] in self.W.pos.get(
                    (self.fn.name, self.root), ()):
                q.append(add(self.len, {(l,): 1}, -1))
            if l[0] == "z" and l[1] in self.D and \
                    self.D[l[1]].op == "and" and \
                    self.D[l[1]].ops[1] == ("i", 64, 1):
                o = self.D[l[1]].ops[0]
                h = self.leaf(("half", o), 0, (1 << 63) - 1)
                d = add(add(self.poly(o), mul(h, K(2)), -1), {(l,): 1}, -1)
                q += [d, mul(d, K(-1))]
            if l[0] == "half":
                x = self.poly(l[1])
                d = add(x, {(l,): 2}, -1)
                q += [d, add(K(1), d, -1)]
            if l[0] == "s" and ("z", l[1]) in self.rng:
                q.append(add({(("z", l[1]),): 1}, {(l,): 1}, -1))
            out += q
            work += [x for p in q for m in p for x in m]
        for l in seen:
            lo, hi = self.rng[l]
            out.append(add({(l,): 1}, K(lo), -1))
            if hi < 2**64 - 1:
                out.append(add(K(hi), {(l,): 1}, -1))
        return out

    # ---- proofs
    def prove(self, goal, block, extra=(), depth=0, split=()):
        """goal >= 0 whenever control is in block"""
        fs = list(self.facts(block)) + list(extra)
        return self.prove1(goal, fs, depth, split)

    def prove1(self, goal, fs, depth, split):
        if const(goal) is not None and const(goal) >= 0:
            return True
        if self.interval(goal)[0] >= 0:
            return True
        ge = [p for k, p in fs if k == "ge"]
        ne = [p for k, p in fs if k == "ne"]
        gen = self.general(ge + ne + [goal])
        # only what is connected with the goal
        rel = {l for m in goal for l in m}
        left, use = [(p, {l for m in p for l in m}) for p in ge + gen], []
        ch = True
        while ch:
            ch, rest = False, []
            for p, ls in left:
                if not ls:
                    use.append(p)
                elif ls & rel:
                    use.append(p)
                    if not ls <= rel:
                        rel |= ls
                        ch = True
                else:
                    rest.append((p, ls))
            left = rest
        # a number that is not negative reads the same either way
        for l in [l for l in rel if l[0] == "s" and ("z", l[1]) in rel]:
            x = {(l,): 1}
            if self.rng[l][0] < 0 and not self.sat(
                    use + [add(mul(x, K(-1)), K(-1))]):
                use.append(add(x, {(("z", l[1]),): 1}, -1))
        neg = add(mul(goal, K(-1)), K(-1))
        if not self.sat(use + [neg]):
            return True
        # x != y next to x <= y
        ne = [p for p in ne if all(l in rel for m in p for l in m)]
        ge2, ch = [], True
        while ch:
            ch = False
            for p in list(ne):
                for q in (p, mul(p, K(-1))):
                    if self.interval(q)[0] >= 0 or not self.sat(
                            use + ge2 + [add(mul(q, K(-1)), K(-1))]):
                        ge2.append(add(q, K(-1)))
                        ne.remove(p)
                        ch = True
                        break
        if ge2 and not self.sat(use + ge2 + [neg]):
            return True
        ge2 = [p for p in use if p in ge] + ge2 + [
            p for k, p in fs if k == "ne" and len(p) > 1]
        if depth >= 5:
            return False
        # split on merged values
        for l in self.candidates([goal] + ge2, split):
            i = self.D[l[1]]
            ok = True
            for ex in self.cases(i):
                if not self.prove1(goal, fs + ex, depth + 1, split + (l[1],)):
                    ok = False
                    break
            if ok:
                return True
        return False

    def candidates(self, ps, split=()):
        rel = set(l for m in ps[0] for l in m)
        ch = True
        while ch:
            ch = False
            for p in ps[1:]:
                ls = {l for m in p for l in m}
                if ls & rel and not ls <= rel:
                    rel |= ls
                    ch = True
        out = []
        for l in sorted(rel, key=lambda l: (l not in {x for m in ps[0]
                                                      for x in m}, str(l))):
            if l[0] in ("z", "s") and l[1] in self.D:
                i = self.D[l[1]]
                if i.op == "select" or i.op == "phi" and \
                        i.block.id not in self.header:
                    out.append(l)
        ids = []
        return [l for l in out if l[1] not in split and
                not (l[1] in ids or ids.append(l[1]))][:4]

    def cases(self, i):
        """[facts] one list for each way i gets its value"""
        out = []
        if i.op == "select":
            for t, v in ((True, i.ops[1]), (False, i.ops[2])):
                fs = self.lift(norm.atoms(self.fn, i.ops[0], t))
                out.append(fs + self.same(("r", i.id), v))
            return out
        for p in [b for b in i.block.preds if b.id in self.live]:
            fs = list(self.facts(p)) + self.lift(self.edge(p, i.block))
            for j in i.block.insts:
                if j.op != "phi":
                    break
                if j.ty.kind not in ("int", "ptr") or \
                        j.ty.kind == "int" and j.ty.bits == 1:
                    continue
                for b, v in self.ways(j):
                    if b is p:
                        fs += self.same(("r", j.id), v)
                        break
            out.append(fs)
        return out

    def edge(self, p, d):
        t = p.insts[-1]
        if t.op == "switch":
            vals = [v for v, x in t.cases if x is d]
            if d is t.succs[0] and not vals:
                return [("ne", t.ops[0], ("i", 64, v), t) for v, x in t.cases]
            if len(vals) == 1 and d is not t.succs[0]:
                return [("eq", t.ops[0], ("i", 64, vals[0]), t)]
            return []
        return norm.edge_facts(self.fn, p, d)

    def same(self, a, b):
        out = []
        for sg in (False, True):
            if sg and ("s", a[1]) not in self.rng:
                continue
            d = add(self.poly(a, sg), self.poly(b, sg), -1)
            out += [("ge", d), ("ge", mul(d, K(-1)))]
        if b[0] == "r" and self.width(b) == 64 and self.good(b):
            pass
        return out

    def sat(self, ps):
        """whether integers may satisfy all p >= 0 (elimination)"""
        key = frozenset(frozenset(p.items()) for p in ps)
        c = self.scache if any(len(m) > 1 for p in ps for m in p) else \
            self.W.scache
        if key not in c:
            c[key] = self.sat1(ps)
        return c[key]

    def sat1(self, ps):
        for p in ps:
            c = const(p)
            if c is not None and c < 0:
                return False
        rows = self.equal(ps)
        if rows is None:
            return False
        rel = {m for p in ps for m in p}
        # products of non-negative leaves are non-negative
        for m in rel:
            if len(m) > 1:
                a, b = self.interval({m: 1})
                if a >= 0:
                    rows.add(frozenset({m: 1}.items()))
        while rows:
            cnt = {}
            for r in rows:
                for m, k in r:
                    if m:
                        c = cnt.setdefault(m, [0, 0])
                        c[k > 0] += 1
            if not cnt:
                return True
            m = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1] -
                                        cnt[m][0] - cnt[m][1], str(m)))
            pos = [dict(r) for r in rows if dict(r).get(m, 0) > 0]
            neg = [dict(r) for r in rows if dict(r).get(m, 0) < 0]
            new = [dict(r) for r in rows if m not in dict(r)]
            for p in pos:
                for q in neg:
                    new.append(add(mul(p, K(-q[m])), mul(q, K(p[m]))))
            rows = self.tidy(new)
            if rows is None:
                return False
            if len(rows) > MAXC:
                return True
        return True

    def equal(self, ps):
        """tidy rows, with the equalities used up"""
        while True:
            rows = self.tidy(ps)
            if rows is None:
                return None
            ds = {frozenset((m, k) for m, k in r if m): dict(r) for r in rows}
            hit = None
            many = {}
            for x in ds:
                for n, _ in x:
                    if len(n) > 1:
                        for l in n:
                            many.setdefault(l, n)
            for key, r in ds.items():
                o = ds.get(frozenset((m, -k) for m, k in key))
                if o is not None and o.get((), 0) == -r.get((), 0):
                    one = sorted((m for m, k in key if abs(k) == 1 and
                                  len(m) == 1 and m[0] not in many), key=str)
                    if one:
                        hit = one[0], r
                        break
            if hit is None:
                return rows
            m, r = hit
            e = add(r, {m: r[m]}, -1)        # r[m] * m + e == 0
            if r[m] > 0:
                e = mul(e, K(-1))            # m == e
            ps = []
            for q in rows:
                q = dict(q)
                k = q.pop(m, 0)
                ps.append(add(q, mul(e, K(k))) if k else q)

    def tidy(self, ps):
        """normalised set, None when one is false"""
        from math import gcd
        best = {}
        for p in ps:
            c = p.get((), 0)
            var = {m: k for m, k in p.items() if m}
            if not var:
                if c < 0:
                    return None
                continue
            g = 0
            for k in var.values():
                g = gcd(g, abs(k))
            key = frozenset((m, k // g) for m, k in var.items())
            c = c // g              # floor: the sum is an integer
            if key not in best or best[key] > c:
                best[key] = c
        return {frozenset(list(k) + ([((), c)] if c else []))
                for k, c in best.items()}


class World:
    """contexts (function, root) reached from entry points"""

    def __init__(self, mod, counted=None):
        self.mod = mod
        self.counted = counted or {}    # function -> {arg: (arg, size)}
        self.allocs = {"tg_malloc", "malloc"}
        self.skip = set()
        self.scache = {}
        self.pos, self.ret, self.signed = {}, set(), set()
        self.ctx = {}

    def enter(self, fn, root):
        key = (fn.name, root)
        if key in self.ctx or fn.name in self.skip:
            return
        self.pos[key] = {k for k, t in enumerate(fn.argtys)
                         if t.kind == "int" and t.bits == 64 and
                         k != root[1]}
        if fn.ret.kind == "int" and fn.ret.bits == 64:
            self.ret.add(key)
            self.signed |= {key + (0,), key + (-1,)}
        self.ctx[key] = Fn(self, fn, root)
        self.inv = getattr(self, "inv", {})
        self.inv[key] = set(self.ctx[key].inv)
        self.less = getattr(self, "less", {})
        self.less[key] = set(self.ctx[key].less)
        f = self.ctx[key]
        for i in f.fn.insts:
            if i.op == "call":
                for r in self.handed(f, i):
                    if r[3] is None:
                        self.enter(self.mod.funcs[r[0]], r[1])

    def handed(self, f, i):
        """[(callee, root, pointer operand, element size)] of a call that
        gets a pointer into the input"""
        out = []
        n = i.callee[1] if i.callee[0] == "fn" else None
        if n is None:
            return out
        g = self.mod.funcs.get(n)
        for k, a in enumerate(i.args):
            if not f.derived(a):
                continue
            c = self.counted.get(n, {}).get(k)
            if c is not None:
                out.append((n, (k, c[0]), a, c[1]))
            elif g is not None and g.blocks and len(g.args) > k + 1 and \
                    g.argtys[k + 1].kind == "int" and \
                    g.argtys[k + 1].bits == 64:
                out.append((n, (k, k + 1), a, None))
        return out

    def passed(self, f, i):
        """(callee, root) when the whole input is handed on"""
        for n, root, a, es in self.handed(f, i):
            if es is None and f.poly(a) == {(f.base,): 1} and \
                    f.poly(i.args[root[1]]) == f.len:
                return n, root
        return None

    def solve(self):
        for rnd in range(30):
            ch = False
            for key, f0 in list(self.ctx.items()):
                f = self.ctx[key] = Fn(self, f0.fn, f0.root)
                f.inv, f.less = set(self.inv[key]), set(self.less[key])
                while True:
                    bad = [k for k in f.less if not f.keeps(k, -1)]
                    if not bad:
                        bad = [k for k in f.inv - f.less if not f.keeps(k)]
                        self.inv[key] -= set(bad)
                    if not bad:
                        break
                    self.less[key] -= set(bad)
                    ch = True
                    f = self.ctx[key] = Fn(self, f.fn, f.root)
                    f.inv, f.less = set(self.inv[key]), set(self.less[key])
                if key in self.ret:
                    for b in f.fn.blocks:
                        t = b.insts[-1] if b.insts else None
                        if t is not None and t.op == "ret" and \
                                not f.returns(t.ops[0], b):
                            self.ret.discard(key)
                            ch = True
                            break
                for c in (-1, 0):
                    if key + (c,) in self.signed and any(
                            b.insts and b.insts[-1].op == "ret" and
                            not f.atmost(b.insts[-1].ops[0], b, c)
                            for b in f.fn.blocks):
                        self.signed.discard(key + (c,))
                        ch = True
                for i in f.fn.insts:
                    if i.op != "call":
                        continue
                    for n, root, a, es in self.handed(f, i):
                        if es is not None:
                            continue
                        q = (n, root)
                        whole = self.passed(f, i) == q
                        for k in list(self.pos.get(q, ())):
                            n_ = f.poly(i.args[root[1]])
                            if not f.prove(add(n_, f.poly(i.args[k]), -1),
                                           i.block):
                                self.pos[q].discard(k)
                                ch = True
            if not ch:
                return rnd
        raise RuntimeError("no fixpoint")


def derived(self, o):
    if self.dset is None:
        s = {("r", a) for a, k in self.argno.items() if k == self.root[0]}
        ch = True
        while ch:
            ch = False
            for i in self.fn.insts:
                if i.id is None or ("r", i.id) in s:
                    continue
                if i.op == "gep" and i.ops[0] in s or \
                        i.op == "call" and i.callee[0] == "fn" and \
                        i.callee[1] == "memchr" and i.args[0] in s or \
                        i.op in ("phi",) and any(v in s for _, v in
                                                 self.ways(i)) or \
                        i.op in ("select", "freeze", "bitcast") and \
                        any(x in s for x in i.ops):
                    if i.ty.kind == "ptr":
                        s.add(("r", i.id))
                        ch = True
        self.dset = s
    return o in self.dset


def keeps(self, k, c=0):
    """phi k is at most the length + c, whatever sets it"""
    i = self.D[k]
    for b, v in self.ways(i):
        fs = self.lift(self.edge(b, i.block))
        p = self.poly(v)
        if i.ty.kind == "ptr":
            p = add(p, {(self.base,): 1}, -1)
            if not self.prove(p, b, fs):
                return False
        if not self.prove(add(add(self.len, K(c)), p, -1), b, fs):
            return False
    return True


def returns(self, v, b, extra=(), depth=0):
    if v[0] == "i" and v[2] in (2**64 - 1, -1):
        return True
    if self.prove(add(self.len, self.poly(v), -1), b, extra):
        return True
    if v[0] != "r" or depth > 6:
        return False
    i = self.D.get(v[1])
    if i is None:
        return False
    if i.op == "call":
        return self.good(v)
    if i.op == "phi":
        for p in [b for b in i.block.preds if b.id in self.live]:
            for q, x in self.ways(i):
                if q is p:
                    if x == v:
                        break
                    if not self.returns(x, p, self.lift(
                            self.edge(p, i.block)), depth + 1):
                        return False
                    break
        return True
    if i.op == "select":
        return all(self.returns(x, b, depth=depth + 1) for x in i.ops[1:])
    return False


def atmost(self, v, b, c, extra=(), depth=0):
    """the signed value v is at most the length + c"""
    g = add(add(self.len, K(c)), self.poly(v, True), -1)
    if self.prove(g, b, extra):
        return True
    i = self.D.get(v[1]) if v[0] == "r" and depth < 6 else None
    if i is not None and i.op == "phi" and i.block.id not in self.header:
        return all(self.atmost(x, p, c, self.lift(self.edge(p, i.block)),
                               depth + 1) for p, x in self.ways(i))
    return False


def extent(self, l):
    """size of the object that starts at leaf l, when it is known"""
    if l == self.base:
        return self.len
    if l[0] not in ("z", "s") or l[1] not in self.D:
        return None
    i = self.D[l[1]]
    if i.op == "alloca":
        n = i.ops[0][2] if i.ops and i.ops[0][0] == "i" else None
        return None if n is None else K(i.aty.size * n)
    if i.op == "call" and i.callee[0] == "fn" and i.args and \
            i.callee[1] in self.W.allocs:
        return self.poly(i.args[0])
    return None


def within(self, ptr, size, block, extra=(), depth=0, p=None):
    """"ok", or why not: size bytes at ptr are inside the object it points
    into; None when that object is not known"""
    p = self.poly(ptr) if p is None else p
    for m, k in p.items():
        if len(m) != 1 or k != 1:
            continue
        n = self.extent(m[0])
        if n is not None:
            off = add(p, {m: 1}, -1)
        elif m[0][0] == "z" and m[0][1] in self.D and \
                self.seeks(self.D[m[0][1]]):
            n, off = self.len, add(p, {(self.base,): 1}, -1)
        if n is not None:
            ex = list(extra)
            if const(size) is None:
                ex.append(("ge", add(size, K(-1))))
            if not self.prove(off, block, ex):
                return "nothing shows that it is not before the start"
            if not self.prove(add(add(n, off, -1), size, -1), block, ex):
                return "nothing shows that it ends inside"
            return "ok"
        l = m[0]
        i = self.D.get(l[1]) if l[0] in ("z", "s") else None
        if i is None or i.ty.kind != "ptr":
            continue
        rest = add(p, {m: 1}, -1)
        if i.op == "select":
            ws = i.ops[1:]
        elif i.op == "phi" and i.block.id not in self.header:
            ws = [next(v for b, v in self.ways(i) if b is q)
                  for q in i.block.preds if q.id in self.live]
        elif self.derived(("r", i.id)):
            return "it is not known where a loop moves it"
        else:
            return None
        if depth > 6:
            return "too many alternatives"
        known = None
        for v, c in zip(ws, self.cases(i)):
            if v[0] != "r":
                continue
            r = self.within(ptr, size, block, list(extra) + c, depth + 1,
                            add(rest, self.poly(v)))
            if r not in ("ok", None):
                return r
            known = known or r
        return known
    return "it is not known where it points to" if self.derived(ptr) else None


for _f in (derived, keeps, returns, atmost, extent, within):
    setattr(Fn, _f.__name__, _f)
Fn.dset = None
