"""Ownership along the paths of a function, by access paths.

A forward, path-sensitive dataflow analysis of one function for one kind of
object.  Values are polynomials over access paths (argument 0 + offset, what
was loaded from an access path), fresh blocks and results of calls.  A loop is
analysed once for an arbitrary round: what every round does to the element
that its counter addresses is summed up as done to the elements of a range.
The state keeps which access paths are known to be NULL, what was stored to
fresh blocks, and the events (frees, copies) in order.
"""
from . import cfg, norm

NULLP = frozenset()


class TooMany(Exception):
    pass


_rep = {}


def rep(x):
    r = _rep.get(x)
    if r is None:
        r = _rep[x] = repr(x) if not isinstance(x, frozenset) else \
            "{" + ",".join(sorted(rep(i) for i in x)) + "}"
    return r


def srt(t):
    return tuple(sorted(t, key=rep))


# polynomials: frozenset of (monomial, coefficient)
def P(d):
    return frozenset((m, k) for m, k in d.items() if k)


def K(n):
    return P({(): n})


def L1(leaf):
    return P({(leaf,): 1})


def add(a, b, f=1):
    d = dict(a)
    for m, k in b:
        d[m] = d.get(m, 0) + f * k
    return P(d)


def mul(a, b):
    d = {}
    for m, k in a:
        for n, j in b:
            x = srt(m + n)
            d[x] = d.get(x, 0) + k * j
    return P(d)


def const(p):
    if not p:
        return 0
    if len(p) == 1:
        (m, k), = p
        if m == ():
            return k
    return None


def leaves(p):
    return [x for m, _ in p for x in m]


def only(p):
    """the leaf that p consists of, or None"""
    if len(p) == 1:
        (m, k), = p
        if len(m) == 1 and k == 1:
            return m[0]
    return None


def subst(p, leaf, q):
    out = P({})
    for m, k in p:
        t = K(k)
        for x in m:
            t = mul(t, q if x == leaf else L1(x))
        out = add(out, t)
    return out


def has(p, leaf):
    """leaf occurs in p, also inside access paths"""
    for x in leaves(p):
        if x == leaf:
            return True
        if x[0] == "L" and has(x[1], leaf):
            return True
        if x[0] in ("C", "op") and any(
                isinstance(a, frozenset) and has(a, leaf) for a in x[2]):
            return True
    return False


def div(p, s):
    d = {}
    for m, k in p:
        if k % s:
            return None
        d[m] = k // s
    return P(d)


class S:
    def __init__(s):
        s.env, s.mem, s.whole = {}, {}, {}
        s.null, s.cmps, s.ev = {}, [], []
        s.freed = {}
        s.bad = []

    def copy(s):
        n = S()
        n.env, n.mem, n.whole = dict(s.env), dict(s.mem), dict(s.whole)
        n.null, n.cmps, n.ev = dict(s.null), list(s.cmps), list(s.ev)
        n.freed, n.bad = dict(s.freed), list(s.bad)
        return n

    def isnull(s, p):
        """True / False / None"""
        c = const(p)
        if c is not None:
            return c == 0
        x = only(p)
        if x is not None and x[0] == "S":
            return False
        for q in (p, add(P({}), p, -1)):
            if q in s.null:
                return s.null[q]
        return None


class Run:
    """word: {byte offset: value} known bytes of the object argument 0 is"""

    def __init__(self, mod, fn, word, family, limit=4000):
        self.mod, self.fn, self.word, self.fam = mod, fn, word, family
        self.D = cfg.defs(fn)
        self.loops = cfg.loops(fn)
        self.limit, self.n = limit, 0

    def go(self):
        s = S()
        for k, a in enumerate(self.fn.args):
            s.env[a] = L1(("A", k))
        s.null[L1(("A", 0))] = False
        return [(st, v) for kind, st, v, _ in
                self.walk(s, self.fn.blocks[0], None, None)
                if kind == "ret"]

    # ---- blocks
    def walk(self, s, b, prev, ctx):
        """outcomes (kind, state, value or block, source block)"""
        out = []
        work = [(s, b, prev)]
        while work:
            self.n += 1
            if self.n > self.limit:
                raise TooMany(self.fn.name)
            s, b, prev = work.pop()
            if ctx is not None:
                if b.id == ctx[0].id and prev is not None and \
                        prev.id in ctx[1]:
                    out.append(("back", s, None, prev))
                    continue
                if b.id not in ctx[1]:
                    out.append(("exit", s, b, prev))
                    continue
            if b.id in self.loops and not (ctx is not None and
                                           b.id == ctx[0].id):
                for k, st, v, src in self.loop(s, b, prev):
                    if k == "ret":
                        out.append((k, st, v, src))
                    else:
                        work.append((st, v, src))
                continue
            if prev is not None:
                new = {}
                for i in b.insts:
                    if i.op != "phi":
                        break
                    for q, v in i.incoming:
                        if q is prev:
                            new[i.id] = self.ev(v, s)
                s.env.update(new)
            self.block(s, b, 0, work, out)
        return out

    def block(self, s, b, k, work, out):
        n = len(b.insts)
        while k < n:
            i = b.insts[k]
            k += 1
            if i.op == "phi":
                continue
            if i.op == "select" and not (i.ty.kind == "int" and
                                         i.ty.bits == 1):
                st = []
                for truth, v in ((True, i.ops[1]), (False, i.ops[2])):
                    for x in self.assume(s.copy(), i.ops[0], truth):
                        x.env[i.id] = self.ev(v, x)
                        st.append(x)
                for x in st[1:]:
                    self.n += 1
                    self.block(x, b, k, work, out)
                if not st:
                    return
                s = st[0]
                continue
            if i.op == "ret":
                out.append(("ret", s, self.ev(i.ops[0], s) if i.ops else
                            None, b))
                return
            if i.op == "br":
                if len(i.succs) == 1:
                    work.append((s, i.succs[0], b))
                else:
                    for truth, t in ((True, i.succs[0]),
                                     (False, i.succs[1])):
                        for x in self.assume(s.copy(), i.ops[0], truth):
                            work.append((x, t, b))
                return
            if i.op == "switch":
                v = self.ev(i.ops[0], s)
                c = const(v)
                if c is not None:
                    t = [d for n_, d in i.cases if n_ == c] or [i.succs[0]]
                    work.append((s, t[0], b))
                    return
                for t in {x.id: x for x in i.succs}.values():
                    work.append((s.copy(), t, b))
                return
            if i.op == "unreachable":
                return
            self.inst(s, i)

    # ---- loops
    def loop(self, s, h, prev):
        body = self.loops[h.id]
        phis = [i for i in h.insts if i.op == "phi"]
        init = {}
        for i in phis:
            for q, v in i.incoming:
                if q is prev:
                    init[i.id] = self.ev(v, s)
        inv = set()
        while True:
            st = s.copy()
            st.ev = []
            for i in phis:
                st.env[i.id] = init[i.id] if i.id in inv else \
                    L1(("iv", h.id, i.id))
            oc = []
            self.block(st, h, 0, w := [], oc)
            for x in w:
                oc += self.walk(x[0], x[1], x[2], (h, body))
            backs = [o for o in oc if o[0] == "back"]
            nxt = {}
            new = set()
            for i in phis:
                l = [self.ev(v, o[1]) for o in backs
                     for q, v in i.incoming if q is o[3]]
                nxt[i.id] = l
                if i.id not in inv and all(x == init[i.id] or
                                           x == L1(("iv", h.id, i.id))
                                           for x in l):
                    new.add(i.id)
            if not new:
                break
            inv |= new
        # counters
        idx = {}
        for i in phis:
            if i.id in inv:
                continue
            leaf = ("iv", h.id, i.id)
            ds = {const(add(x, L1(leaf), -1)) for x in nxt[i.id]}
            if len(ds) == 1:
                d = ds.pop()
                if d:
                    idx[i.id] = d
        out = []
        for kind, st, v, src in oc:
            if kind == "back":
                continue
            T = None
            if kind == "exit":
                T = self.trips(st, s, h, idx, init)
            self.leave(st, s, h, phis, inv, idx, init, nxt, backs, T, src)
            out.append((kind, st, v, src))
        return out

    def trips(self, st, s0, h, idx, init):
        """rounds that were completed when the loop is left here, as a
        polynomial; None when not known"""
        for k, c in idx.items():
            leaf = ("iv", h.id, k)
            cand = []
            for p, isn in st.null.items():
                if isn and p not in s0.null and has(p, leaf):
                    for q in (p, add(P({}), p, -1)):
                        if dict(q).get((leaf,)) == 1:
                            B = add(L1(leaf), q, -1)
                            if not has(B, leaf):
                                cand.append(("eq", B))
            for pr, a, b in st.cmps[len(s0.cmps):]:
                for x, y, r in ((a, b, pr), (b, a, norm.SWAP[pr])):
                    if dict(x).get((leaf,)) == 1 and not has(y, leaf):
                        B = add(y, add(x, L1(leaf), -1), -1)
                        if not has(B, leaf):
                            cand.append((r[1:], B))
            for r, B in cand:
                I = init[k]
                if c > 0:
                    n = {"eq": add(B, I, -1), "ge": add(B, I, -1),
                         "gt": add(add(B, K(1)), I, -1)}.get(r)
                else:
                    n = {"eq": add(I, B, -1), "le": add(I, B, -1),
                         "lt": add(add(I, B, -1), K(1))}.get(r)
                if n is None:
                    continue
                T = div(n, abs(c))
                if T is not None:
                    return T
        return None

    def range(self, addr, h, idx, init, T):
        """(first address, stride, number) that addr takes, or None"""
        base, stride = addr, 0
        for k, c in idx.items():
            leaf = ("iv", h.id, k)
            m = dict(base).get((leaf,), 0)
            if m:
                stride += m * c
                base = subst(base, leaf, init[k])
        if T is None or not stride or \
                any(x[0] == "iv" and x[1] == h.id for x in leaves(base)):
            return None
        if stride < 0:
            base = add(base, mul(K(stride), add(T, K(-1))))
            stride = -stride
        return base, stride, T

    def leave(self, st, s0, h, phis, inv, idx, init, nxt, backs, T, src):
        """turn the state of a path out of the loop into one that covers all
        rounds before"""
        part, st.ev = st.ev, list(s0.ev)
        bst = [o[1] for o in backs]
        rounds = bst

        def iv(p):
            return any(has(p, ("iv", h.id, i.id)) for i in phis)
        # what every round does
        frees = []
        for b in bst:
            for e in b.ev:
                if e[0] == "free" and e[2] not in [f[1] for f in frees]:
                    frees.append((e[1], e[2]))
        for name, p in frees:
            x = only(p)
            if x is None or x[0] != "L" or not iv(p):
                # the same block in every round
                st.ev.append(("free", name, p, "loop"))
                continue
            t = T
            if any(e[0] == "free" and e[2] == p for e in part):
                part = [e for e in part if not (e[0] == "free" and
                                                e[2] == p)]
                t = add(T, K(1)) if T is not None else None
            r = self.range(x[1], h, idx, init, t)
            ok = all([e[2] for e in b.ev if e[0] == "free"].count(p) ==
                     (0 if b.isnull(p) else 1) or
                     b.isnull(p) and
                     [e[2] for e in b.ev if e[0] == "free"].count(p) == 1
                     for b in rounds)
            st.ev.append(("each", "free", name, r if ok else None))
        puts = {}
        for b in bst:
            for a in b.mem:
                if a not in s0.mem and iv(a):
                    puts.setdefault(a, 0)
        for a in puts:
            src_, name, ok = None, None, True
            if rounds and all(a in b.mem and self.moved(b, a, b.mem[a])
                              for b in rounds):
                st.ev.append(("each", "reloc", None,
                              self.range(a, h, idx, init, T)))
                st.mem.pop(a, None)
                continue
            for b in rounds:
                v = b.mem.get(a)
                c = None
                if v is not None:
                    for e in b.ev:
                        if e[0] == "copy" and v[0] == L1(e[3]):
                            c = e
                if c is not None:
                    if src_ not in (None, c[2]):
                        ok = False
                    src_, name = c[2], c[1]
            x = only(src_) if src_ is not None else None
            if x is None or x[0] != "L":
                ok = False
            for b in rounds:
                v = b.mem.get(a)
                if v is None or not any(e[0] == "copy" and v[0] == L1(e[3])
                                        for e in b.ev):
                    if src_ is None or not b.isnull(src_):
                        ok = False
            t, v = T, st.mem.get(a)
            l = [e for e in part if e[0] == "copy" and e[2] == src_ and
                 v is not None and v[0] == L1(e[3])]
            if l and T is not None:     # left after this round's copy
                part = [e for e in part if e not in l]
                t = add(T, K(1))
            d = self.range(a, h, idx, init, t)
            r = self.range(x[1], h, idx, init, t) if ok else None
            st.ev.append(("each", "copy", name, (d, r) if ok and d and r
                          else None))
            if a in st.mem:
                del st.mem[a]
        # plain stores: what memory holds is not known any more
        for b in bst:
            for a, v in b.mem.items():
                if a in s0.mem and s0.mem[a] != v and a in st.mem and \
                        st.mem[a] == s0.mem[a]:
                    st.mem[a] = (L1(("U", "loop", h.id, a)), v[1])
                elif a not in s0.mem and not iv(a):
                    st.mem[a] = (L1(("U", "loop", h.id, a)), v[1])
        # sums
        for i in phis:
            if i.id in inv:
                continue
            leaf = ("iv", h.id, i.id)
            if i.id in idx:
                if T is not None:
                    self.sub(st, leaf, add(init[i.id],
                                           mul(K(idx[i.id]), T)))
                continue
            terms, fix, ok = [], set(), T is not None
            for o, v in zip(backs, nxt[i.id]):
                t = add(v, L1(leaf), -1)
                if has(t, leaf):
                    ok = False
                var = P({m: k for m, k in t if iv(P({m: 1}))})
                fix.add(add(t, var, -1))
                terms.append((var, o[1]))
            val = None
            if ok and len(fix) == 1:
                val = add(init[i.id], mul(T, fix.pop()))
                full = {t for t, _ in terms if t}
                if full:
                    x = only(full.pop())
                    e = x[2][0] if x is not None and x[0] == "C" else None
                    y = only(e) if e is not None else None
                    r = self.range(y[1], h, idx, init, T) if \
                        y is not None and y[0] == "L" else None
                    if not full and r and all(t or z.isnull(e)
                                              for t, z in terms):
                        val = add(val, L1(("sum", x[1], r)))
                    else:
                        val = None
            if val is None:
                val = L1(("U", "acc", h.id, i.id))
            self.sub(st, leaf, val)
        st.ev += part

    def moved(self, s, a, v):
        """what is stored at a is the pointer that the block copied there had
        in this place, moved along with the block"""
        if v[1] != 8:
            return False
        for d, src in self.copies(s):
            off = add(a, d, -1)
            if any(x[0] == "F" for x in leaves(off)):
                continue
            w = add(v[0], add(d, src, -1), -1)
            if w == L1(("L", add(src, off), 8)) or w == L1(("L", a, 8)):
                return True
        return False

    def copies(self, s):
        """(destination, source) of the blocks that were copied"""
        out = [(k, v) for k, (v, m) in s.mem.items()
               if isinstance(m, frozenset)]
        return out + [(L1(k), w[1]) for k, w in s.whole.items()
                      if w[0] == "copy"]

    def sub(self, st, leaf, q):
        for k, v in list(st.env.items()):
            if (leaf,) in dict(v) or any(leaf in m for m, _ in v):
                st.env[k] = subst(v, leaf, q)

    # ---- values
    def ev(self, o, s):
        if o[0] == "i":
            return K(norm.sint(o))
        if o[0] == "null":
            return K(0)
        if o[0] == "r":
            v = s.env.get(o[1])
            return v if v is not None else L1(("U", o[1]))
        if o[0] == "g":
            return add(L1(("G", o[1])), K(o[2] if len(o) > 2 else 0))
        return L1(("O", repr(o)))

    def bits(self, o, s, depth=0):
        """(known mask, value) of an integer operand"""
        if o[0] == "i":
            n = o[2] & ((1 << o[1]) - 1)
            return (1 << o[1]) - 1, n, o[1]
        if o[0] != "r" or depth > 8:
            return None
        i = self.D.get(o[1])
        if i is None or i.ty.kind != "int":
            return None
        w = i.ty.bits
        full = (1 << w) - 1
        if i.op == "load":
            a = self.ev(i.ops[0], s)
            off = const(add(a, L1(("A", 0)), -1))
            if off is None:
                return None
            m = v = 0
            for j in range(max(1, w // 8)):
                if off + j in self.word:
                    m |= 0xff << 8 * j
                    v |= self.word[off + j] << 8 * j
            return (m & full, v & full, w) if m else None
        if i.op in ("and", "or", "lshr", "shl", "trunc", "zext"):
            a = self.bits(i.ops[0], s, depth + 1)
            b = self.bits(i.ops[1], s, depth + 1) if len(i.ops) > 1 else None
            if a is None and not (i.op == "and" and b):
                return None
            if i.op == "trunc":
                return a[0] & full, a[1] & full, w
            if i.op == "zext":
                return a[0] | full & ~((1 << a[2]) - 1), a[1], w
            if b is None or i.ops[1][0] != "i":
                return None
            if i.op == "and":
                am, av = (a[0], a[1]) if a else (0, 0)
                m = am & b[0] | (am & ~av) | (b[0] & ~b[1])
                return m & full, av & b[1] & full, w
            if i.op == "or":
                m = a[0] | b[1]
                return m, (a[1] | b[1]) & m, w
            k = b[1]
            if i.op == "lshr":
                return (a[0] >> k) | (full & ~(full >> k)), a[1] >> k, w
            return (a[0] << k | (1 << k) - 1) & full, a[1] << k & full, w
        return None

    def inst(self, s, i):
        op = i.op
        if op in ("icmp", "fcmp") or i.ty is not None and \
                i.ty.kind == "int" and i.ty.bits == 1 and op in (
                    "and", "or", "xor", "select", "freeze"):
            return
        if i.id is not None and i.ty.kind == "int":
            b = self.bits(("r", i.id), s)
            if b is not None and b[0] == (1 << i.ty.bits) - 1:
                s.env[i.id] = K(norm.sint(("i", i.ty.bits, b[1])))
                return
        if op == "gep":
            p = self.ev(i.ops[0], s)
            p = add(p, K(i.gep[0]))
            for o, sc in i.gep[1]:
                p = add(p, mul(self.ev(o, s), K(sc)))
            s.env[i.id] = p
        elif op in ("add", "sub"):
            s.env[i.id] = add(self.ev(i.ops[0], s), self.ev(i.ops[1], s),
                              1 if op == "add" else -1)
        elif op == "mul":
            s.env[i.id] = mul(self.ev(i.ops[0], s), self.ev(i.ops[1], s))
        elif op == "shl" and i.ops[1][0] == "i":
            s.env[i.id] = mul(self.ev(i.ops[0], s), K(1 << i.ops[1][2]))
        elif op in ("sext", "zext", "trunc", "bitcast", "freeze",
                    "ptrtoint", "inttoptr"):
            if i.ops[0][0] == "r" and self.D.get(i.ops[0][1]) is not None \
                    and self.D[i.ops[0][1]].ty.kind == "int" and \
                    self.D[i.ops[0][1]].ty.bits == 1:
                s.env[i.id] = L1(("b", i.ops[0][1]))
            else:
                s.env[i.id] = self.ev(i.ops[0], s)
        elif op == "load":
            a = self.ev(i.ops[0], s)
            self.touch(s, a, i)
            s.env[i.id] = self.read(s, a, i.ty.size)
        elif op == "store":
            a = self.ev(i.ops[1], s)
            self.touch(s, a, i)
            s.mem[a] = (self.ev(i.ops[0], s), size(self, i.ops[0]))
        elif op == "call":
            self.call(s, i)
        elif op == "alloca":
            s.env[i.id] = L1(("S", i.id))
        elif i.id is not None:
            if op in ("atomicrmw", "cmpxchg", "extractvalue"):
                s.env[i.id] = L1(("U", i.id))
            else:
                s.env[i.id] = L1(("op", op, tuple(self.ev(o, s)
                                                  for o in i.ops)))

    def read(self, s, a, n):
        v = s.mem.get(a)
        if v is not None and (v[1] == n or n is None):
            return v[0]
        # inside a fresh block
        for k, (v, m) in s.mem.items():
            if isinstance(m, frozenset):        # block copied to k
                d = const(add(a, k, -1))
                c = const(m)
                if d is not None and c is not None and 0 <= d < c:
                    return L1(("L", add(v, K(d)), n))
        for x in leaves(a):
            if x[0] in ("F", "S") and x in s.whole:
                off = add(a, L1(x), -1)
                w = s.whole[x]
                if w[0] == "zero":
                    return K(0)
                return L1(("L", add(w[1], off), n))
        return L1(("L", a, n))

    def touch(self, s, a, i):
        for x in leaves(a):
            if x in s.freed:
                s.bad.append((i, "used after it was freed"))

    def call(self, s, i):
        args = [self.ev(a, s) for a in i.args]
        n = i.callee[1] if i.callee[0] == "fn" else None
        res = L1(("U", i.id))
        if n == "tg_malloc" or n == "malloc":
            res = L1(("F", i.id))
            s.ev.append(("alloc", ("F", i.id), args[0]))
        elif n in ("tg_free", "free") or n in self.fam["free"]:
            if s.isnull(args[0]) is not True:
                s.ev.append(("free", n, args[0]))
                x = only(args[0])
                if x is not None:
                    if x in s.freed:
                        s.bad.append((i, "freed twice"))
                    s.freed[x] = i
        elif n in self.fam["copy"]:
            if s.isnull(args[0]) is True:
                res = K(0)
            else:
                res = L1(("F", i.id))
                s.ev.append(("copy", n, args[0], ("F", i.id)))
        elif n in self.fam["memsize"]:
            res = K(0) if s.isnull(args[0]) is True else \
                L1(("C", n, (args[0],)))
        elif n == "strlen":
            res = L1(("C", n, (args[0],)))
        elif n and n.startswith("llvm.mem"):
            for a in args[:2 if "set" not in n else 1]:
                self.touch(s, a, i)
            x = only(args[0])
            if "memset" in n:
                if x is not None and x[0] in ("F", "S") and \
                        const(args[1]) == 0:
                    s.whole[x] = ("zero", args[2])
                    for k in [k for k in s.mem if x in leaves(k)]:
                        del s.mem[k]
            else:
                src, y = args[1], None
                for l in leaves(args[1]):
                    if l[0] == "S":
                        y = l
                if y is not None and args[1] != L1(y):
                    y = None
                if x is not None and x[0] in ("F", "S"):
                    for k in [k for k in s.mem if x in leaves(k)]:
                        del s.mem[k]
                    if y is None:
                        s.whole[x] = ("copy", src, args[2])
                    elif y in s.whole:
                        s.whole[x] = s.whole[y]
                    else:
                        s.whole.pop(x, None)
                elif y is None:
                    s.mem[args[0]] = (src, args[2])
                elif y in s.whole and s.whole[y][0] == "copy":
                    s.mem[args[0]] = s.whole[y][1:]
                if y is not None:       # what was put together on the stack
                    for k, v in list(s.mem.items()):
                        if y in leaves(k):
                            s.mem[add(add(k, L1(y), -1), args[0])] = v
            return
        elif n and n.startswith("llvm."):
            res = L1(("op", n, tuple(args)))
        if i.id is not None:
            s.env[i.id] = res

    # ---- conditions
    def assume(self, s, o, truth):
        if o[0] == "i":
            return [s] if bool(o[2]) == truth else []
        if o[0] != "r":
            return [s]
        i = self.D.get(o[1])
        if i is None:
            return [s]
        if i.op == "icmp":
            return self.icmp(s, i, truth)
        if i.ty.kind == "int" and i.ty.bits == 1:
            if i.op == "xor" and i.ops[1][0] == "i":
                return self.assume(s, i.ops[0], not truth)
            if i.op == "freeze":
                return self.assume(s, i.ops[0], truth)
            kind, a, b = i.op, i.ops[0], i.ops[1] if len(i.ops) > 1 else None
            if i.op == "select":
                if i.ops[2][0] == "i" and i.ops[2][2] == 0:
                    kind = "and"
                elif i.ops[1][0] == "i" and i.ops[1][2] & 1:
                    kind, b = "or", i.ops[2]
                else:
                    out = []
                    for t, x in ((True, i.ops[1]), (False, i.ops[2])):
                        for y in self.assume(s.copy(), a, t):
                            out += self.assume(y, x, truth)
                    return out
            if kind in ("and", "or"):
                if (kind == "and") == truth:
                    out = []
                    for y in self.assume(s, a, truth):
                        out += self.assume(y, b, truth)
                    return out
                out = self.assume(s.copy(), a, truth)
                for y in self.assume(s.copy(), a, not truth):
                    out += self.assume(y, b, truth)
                return out
        v = s.env.get(o[1])
        if v is not None:
            c = const(v)
            if c is not None:
                return [s] if bool(c) == truth else []
            x = only(v)
            if x is not None and x[0] == "b":
                return self.assume(s, ("r", x[1]), truth)
            return self.zero(s, v, not truth)
        return [s]

    def zero(self, s, p, isnull):
        k = s.isnull(p)
        if k is not None:
            return [s] if k == isnull else []
        s.null[p] = isnull
        return [s]

    def icmp(self, s, i, truth):
        a, b = self.ev(i.ops[0], s), self.ev(i.ops[1], s)
        x = only(a)
        if x is not None and x[0] == "b" and const(b) is not None and \
                i.pred in ("eq", "ne"):
            t = (const(b) != 0) == (i.pred == "eq")
            return self.assume(s, ("r", x[1]), t == truth)
        pr = i.pred if truth else norm.NEG[i.pred]
        d = add(a, b, -1)
        if pr in ("eq", "ne"):
            return self.zero(s, d, pr == "eq")
        c = const(d)
        if c is not None:
            t = {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}
            if const(a) is not None or c == 0 or pr[0] == "s":
                return [s] if t[pr[1:]] else []
        if b == K(0) and pr == "ugt":
            return self.zero(s, a, False)
        if b == K(0) and pr == "ule" or b == K(1) and pr == "ult":
            return self.zero(s, a, True)
        for q, x, y in s.cmps:
            if (q, x, y) == (pr, a, b):
                return [s]
            if (q, x, y) == (norm.NEG[pr], a, b):
                return []
        if pr in ("sgt", "sge", "slt", "sle") and s.isnull(d) is True:
            return [s] if pr in ("sge", "sle") else []
        s.cmps.append((pr, a, b))
        return [s]


def size(run, o):
    if o[0] == "i":
        return max(1, o[1] // 8)
    if o[0] == "r":
        i = run.D.get(o[1])
        if i is not None:
            return i.ty.size
        for a, t in zip(run.fn.args, run.fn.argtys):
            if a == o[1]:
                return t.size
    if o[0] == "f":
        return 8 if o[1] == "double" else 4
    return 8


def show(p):
    """readable form of an access path"""
    out = []
    for m, k in sorted(p, key=lambda x: rep(x)):
        t = "*".join(show1(x) for x in m)
        out.append(t if k == 1 and m else "%d*%s" % (k, t) if m else str(k))
    return "+".join(sorted(out)) or "0"


def show1(x):
    if x[0] == "A":
        return "arg%d" % x[1]
    if x[0] == "L":
        return "[%s]" % show(x[1])
    if x[0] == "F":
        return "new%s" % x[1]
    if x[0] == "C":
        return "%s(%s)" % (x[1], ",".join(show(a) for a in x[2]))
    if x[0] == "sum":
        b, st, T = x[2]
        return "sum(%s of %s.. %s)" % (x[1], show(b), show(T))
    if x[0] == "iv":
        return "i%d.%d" % x[1:]
    if x[0] == "op":
        return "%s(%s)" % (x[1], ",".join(show(a) for a in x[2]))
    return str(x)[:20]
