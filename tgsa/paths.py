"""Path-sensitive exploration of one function.

Explores (block, state) pairs until nothing new appears.  A state holds what
is known about registers (constants, aliases, equal / not equal to constants),
about cells of local variables, and a value of the client's typestate.  Only
what is still live is kept, so loops converge.  The client decides which
registers matter; conditions over other registers fork without being
remembered.
"""
from . import cfg, norm


class TooMany(Exception):
    pass


PURE = {"icmp", "and", "or", "xor", "zext", "sext", "trunc", "freeze", "add",
        "sub", "select", "bitcast", "gep", "fcmp", "shl", "lshr", "ashr",
        "ptrtoint", "inttoptr"}


def cval(o):
    """constant value of an operand as ("i", n), else None"""
    if o[0] == "i":
        return ("i", o[2])
    if o[0] == "null":
        return ("i", 0)
    return None


class State:
    __slots__ = ("vals", "facts", "mem", "ts")

    def __init__(s, vals, facts, mem, ts):
        s.vals, s.facts, s.mem, s.ts = vals, facts, mem, ts

    def copy(s):
        return State(dict(s.vals), dict(s.facts), dict(s.mem), s.ts)

    def key(s):
        return (frozenset(s.vals.items()), frozenset(s.facts.items()),
                frozenset(s.mem.items()), s.ts)


class Explorer:
    """client methods (all optional but call):
    track(reg) -> bool           remember facts about this register
    step(inst, state) -> None | [State]   None: nothing special
    ret(inst, state, value)      at a return
    edge(src, dst, state) -> bool         False drops the edge
    """

    def __init__(self, fn, client, limit=60000, argcells=False):
        self.fn, self.client, self.limit = fn, client, limit
        self.D = cfg.defs(fn)
        self.live = liveness(fn)
        self.cells = self.local_cells()
        self.weak = set(fn.args) if argcells else set()
        self.cells |= self.weak
        self.deps = self.dependents()
        self.n = 0

    # ---- static helpers
    def local_cells(self):
        """allocas of which integer cells are tracked"""
        return {i.id for i in self.fn.insts if i.op == "alloca"}

    def dependents(self):
        out = {}
        U = cfg.uses(self.fn)
        for r in self.D:
            seen, w = set(), [r]
            while w:
                x = w.pop()
                for u in U.get(x, ()):
                    if u.op in PURE and u.id not in seen and \
                            u.id is not None:
                        seen.add(u.id)
                        w.append(u.id)
            seen.add(r)
            out[r] = seen
        return out

    def addr(self, o):
        off = 0
        while o[0] == "r":
            i = self.D.get(o[1])
            if i is not None and i.op == "gep":
                if i.gep[1]:
                    return None
                off += i.gep[0]
                o = i.ops[0]
                continue
            return (o[1], off)
        return None

    # ---- values
    def eval(self, o, st):
        c = cval(o)
        if c:
            return c
        if o[0] != "r":
            return None
        r = o[1]
        v = st.vals.get(r, ("r", r))
        if v[0] == "n":
            f = st.facts.get(v[1])
            if f and f[0] == "=":
                return ("i", int(not f[1]))
        if v[0] == "r":
            f = st.facts.get(v[1])
            if f and f[0] == "=":
                return ("i", f[1])
            if v[1] == r:
                i = self.D.get(r)
                if i is not None:
                    if i.op in ("zext", "freeze", "bitcast"):
                        x = self.eval(i.ops[0], st)
                        if x is not None:
                            return x
                    elif i.op == "trunc":
                        x = self.eval(i.ops[0], st)
                        if x is not None and x[0] == "i":
                            return ("i", x[1] & ((1 << i.ty.bits) - 1))
                    elif i.op in ("and", "or", "xor"):
                        a = self.eval(i.ops[0], st)
                        b = self.eval(i.ops[1], st)
                        if a and b and a[0] == "i" == b[0]:
                            return ("i", a[1] & b[1] if i.op == "and" else
                                    a[1] | b[1] if i.op == "or" else
                                    a[1] ^ b[1])
                        if i.op == "xor" and b == ("i", 1) and a and \
                                self.isbit(r):
                            if a[0] == "n":
                                return ("r", a[1])
                            if a[0] == "r" and self.isbit(a[1]):
                                return ("n", a[1])
                        if i.op == "and":
                            for x in (a, b):
                                if x == ("i", 0):
                                    return x
                            if b == ("i", 1) and a is not None and \
                                    a[0] in "rn" and self.boolish(a[1]):
                                return a
                        if i.op == "or" and a and b and \
                                i.ty.kind == "int" and i.ty.bits == 1:
                            for x in (a, b):
                                if x == ("i", 1):
                                    return x
                    elif i.op in ("add", "sub"):
                        a = self.eval(i.ops[0], st)
                        b = self.eval(i.ops[1], st)
                        if a and b and a[0] == "i" == b[0]:
                            n = a[1] + b[1] if i.op == "add" else a[1] - b[1]
                            return ("i", n & ((1 << i.ty.bits) - 1))
                    elif i.op == "icmp":
                        t = self.decide(i, st)
                        if t is not None:
                            return ("i", int(t))
        return v

    def boolish(self, r, depth=0):
        i = self.D.get(r)
        if i is None or depth > 4:
            return False
        if i.ty.kind == "int" and i.ty.bits == 1:
            return True
        if i.op == "load" and i.ty.kind == "int" and i.ty.bits == 8:
            return True
        if i.op == "and":
            return i.ops[1] == ("i", i.ty.bits, 1)
        if i.op in ("zext", "xor", "phi", "select"):
            return i.ty.kind == "int" and i.ty.bits <= 8
        return False

    def decide(self, i, st):
        """truth of an icmp when the state decides it"""
        a, b = self.eval(i.ops[0], st), self.eval(i.ops[1], st)
        if a is None or b is None:
            return None
        if a[0] == "i" and b[0] == "i":
            w = 64
            for o in i.ops:
                if o[0] == "i":
                    w = o[1]
                elif o[0] == "r" and o[1] in self.D and \
                        self.D[o[1]].ty.kind == "int":
                    w = self.D[o[1]].ty.bits
            return norm.holds(i.pred, ("i", w, a[1] & ((1 << w) - 1)),
                              ("i", w, b[1] & ((1 << w) - 1)))
        if i.pred in ("eq", "ne"):
            if a[0] == "i":
                a, b = b, a
            if a == b:
                return i.pred == "eq"
            if a[0] == "r" and b[0] == "i":
                f = st.facts.get(a[1])
                if f and f[0] == "!" and b[1] in f[1]:
                    return i.pred == "ne"
                if f and f[0] == "[" and not \
                        f[1] <= self.signed(a[1], b[1]) <= f[2]:
                    return i.pred == "ne"
        elif i.pred[0] == "s":
            p = i.pred
            if a[0] == "i":
                a, b, p = b, a, norm.SWAP[p]
            if a[0] == "r" and b[0] == "i":
                f = st.facts.get(a[1])
                if f and f[0] == "[":
                    k = self.signed(a[1], b[1])
                    lo, hi = f[1], f[2]
                    if p in ("slt", "sge"):
                        t = True if hi < k else False if lo >= k else None
                    else:
                        t = True if hi <= k else False if lo > k else None
                    if t is not None:
                        return t == (p in ("slt", "sle"))
        return None

    def assume(self, o, truth, st, depth=0):
        """states in which operand o has the given truth"""
        v = self.eval(o, st)
        if v is not None and v[0] == "i":
            return [st] if bool(v[1]) == truth else []
        if v is None or depth > 12:
            return [st]
        if v[0] == "n":
            return self.assume(("r", v[1]), not truth, st, depth + 1)
        r = v[1]
        f = st.facts.get(r)
        if f and (f[0] == "!" and 0 in f[1] or
                  f[0] == "[" and not f[1] <= 0 <= f[2]):
            if not truth:
                return []
        i = self.D.get(r)
        out = None
        if i is not None:
            if i.op == "icmp":
                out = self.assume_icmp(i, truth, st, depth)
            elif i.op == "xor" and i.ops[1][0] == "i" and i.ops[1][2] == 1:
                out = self.assume(i.ops[0], not truth, st, depth + 1)
            elif i.op in ("zext", "freeze"):
                out = self.assume(i.ops[0], truth, st, depth + 1)
            elif i.op == "trunc" or i.op == "and" and \
                    i.ops[1][0] == "i" and i.ops[1][2] == 1 and \
                    i.ty.bits == 8:
                if i.ops[0][0] == "r" and self.boolish(i.ops[0][1]):
                    out = self.assume(i.ops[0], truth, st, depth + 1)
            elif i.op in ("and", "or") and i.ty.bits == 1 or \
                    i.op == "select" and i.ty.kind == "int" and \
                    i.ty.bits == 1:
                a, b = i.ops[0], i.ops[1]
                kind = i.op
                if i.op == "select":
                    if cval(i.ops[2]) == ("i", 0):
                        kind = "and"
                    elif cval(i.ops[1]) == ("i", 1):
                        kind, b = "or", i.ops[2]
                    else:
                        kind = "sel"
                if kind == "sel":
                    out = []
                    for t, x in ((True, i.ops[1]), (False, i.ops[2])):
                        for s in self.assume(a, t, st.copy(), depth + 1):
                            out += self.assume(x, truth, s, depth + 1)
                elif (kind == "and") == truth:
                    out = []
                    for s in self.assume(a, truth, st, depth + 1):
                        out += self.assume(b, truth, s, depth + 1)
                else:
                    out = self.assume(a, truth, st.copy(), depth + 1)
                    for s in self.assume(a, not truth, st.copy(), depth + 1):
                        out += self.assume(b, truth, s, depth + 1)
        if out is None:
            out = [st]
        for s in out:
            if self.tracked(r) and (r not in s.facts or not truth or
                                    self.isbit(r)):
                s.facts[r] = ("!", frozenset((0,))) if truth and \
                    not self.isbit(r) else ("=", int(truth))
        return out

    def isbit(self, r):
        i = self.D.get(r)
        return i is not None and i.ty.kind == "int" and (
            i.ty.bits == 1 or i.ty.bits == 8 and self.boolish(r))

    def tracked(self, r):
        i = self.D.get(r)
        if i is not None and i.ty.kind == "int" and i.ty.bits == 1:
            return True
        return self.client.track(r)

    def assume_icmp(self, i, truth, st, depth):
        t = self.decide(i, st)
        if t is not None:
            return [st] if t == truth else []
        p = i.pred if truth else norm.NEG[i.pred]
        a, b = self.eval(i.ops[0], st), self.eval(i.ops[1], st)
        if a is None or b is None:
            return [st]
        if a[0] == "i":
            a, b, p = b, a, norm.SWAP[p]
        if a[0] == "n" and b == ("i", 0) and p in ("eq", "ne"):
            return self.assume(("r", a[1]), p == "eq", st, depth + 1)
        if a[0] != "r" or b[0] != "i":
            return [st]
        r, n = a[1], b[1]
        if n == 0 and p in ("eq", "ne"):
            d = self.D.get(r)
            if d is not None and (d.op in ("zext", "freeze", "icmp", "xor",
                                           "trunc", "and", "or", "select")
                                  and self.isbit(r)):
                return self.assume(("r", r), p == "ne", st, depth + 1)
        d = self.D.get(r)
        while d is not None and d.op in ("add", "sub") and \
                d.ops[0][0] == "r" and p in ("eq", "ne"):
            c = norm.sint(d.ops[1])
            if c is None:
                break
            n = (n - c if d.op == "add" else n + c) & \
                ((1 << d.ty.bits) - 1)
            v = self.eval(d.ops[0], st)
            if v is None or v[0] == "i":
                return [st] if v is None or (v[1] == n) == (p == "eq") \
                    else []
            r = v[1]
            d = self.D.get(r)
        if p == "ult" and n == 1 or p == "ule" and n == 0:
            p, n = "eq", 0
        if p == "ugt" and n == 0 or p == "uge" and n == 1:
            p, n = "ne", 0
        if not self.tracked(r):
            return [st]
        f = st.facts.get(r)
        if p == "eq":
            if f and (f[0] == "!" and n in f[1] or
                      f[0] == "[" and not f[1] <= self.signed(r, n) <= f[2]):
                return []
            st.facts[r] = ("=", n)
        elif p == "ne":
            if self.isbit(r) and n in (0, 1):
                st.facts[r] = ("=", 1 - n)
            elif f and f[0] == "[":
                self.interval(st, r, f[1], f[2], (n,))
            else:
                old = f[1] if f and f[0] == "!" else frozenset()
                if len(old) < 6:
                    st.facts[r] = ("!", old | {n})
        else:
            lo, hi = -(1 << 63), (1 << 63) - 1
            k = self.signed(r, n)
            ex = ()
            if f and f[0] == "[":
                lo, hi = f[1], f[2]
            elif f and f[0] == "!":
                ex = f[1]
            if p == "slt":
                hi = min(hi, k - 1)
            elif p == "sle":
                hi = min(hi, k)
            elif p == "sgt":
                lo = max(lo, k + 1)
            elif p == "sge":
                lo = max(lo, k)
            elif p in ("ult", "ule") and k >= 0:
                lo, hi = max(lo, 0), min(hi, k - (p == "ult"))
            elif 0 <= k <= 6:
                m = frozenset(range(k + (p == "ugt")))
                if f and f[0] == "[":
                    return self.interval(st, r, lo, hi, m)
                st.facts[r] = ("!", frozenset(ex) | m)
                return [st]
            else:
                return [st]
            return self.interval(st, r, lo, hi, ex)
        return [st]

    def interval(self, st, r, lo, hi, ex):
        while lo in ex:
            lo += 1
        while hi in ex:
            hi -= 1
        if lo > hi:
            return []
        if lo == hi:
            w = self.width(r)
            st.facts[r] = ("=", lo & ((1 << w) - 1))
        else:
            st.facts[r] = ("[", lo, hi)
        return [st]

    def width(self, r):
        i = self.D.get(r)
        if i is not None and i.ty.kind == "int":
            return i.ty.bits
        return 64

    def signed(self, r, n):
        w = self.width(r)
        return n - (1 << w) if w > 1 and n >> (w - 1) & 1 else n

    # ---- exploration
    def run(self, ts):
        fn = self.fn
        st = State({}, {}, {}, ts)
        seen = {}
        work = [(fn.blocks[0], st, ())]
        while work:
            b, st, path = work.pop()
            st = self.prune(b, st)
            k = (b.id, st.key())
            if k in seen:
                continue
            seen[k] = True
            self.n += 1
            if self.n > self.limit:
                raise TooMany(fn.name)
            self.path = path
            for s, d in self.block(b, st):
                work.append((d, s, (path, b)))
        return self.n

    def prune(self, b, st):
        live = self.live[b.id]
        v = {r: x for r, x in st.vals.items() if r in live}
        used = set(live)
        for x in v.values():
            if x[0] in "rn":
                used.add(x[1])
        for x in st.mem.values():
            if x[0] in "rn":
                used.add(x[1])
        keep = getattr(self.client, "keep", None)
        if keep:
            used |= set(keep(st.ts))
        f = {r: x for r, x in st.facts.items() if r in used}
        return State(v, f, st.mem, st.ts)

    def kill(self, r, st):
        dead = self.deps.get(r, {r})
        for x in dead:
            st.facts.pop(x, None)
            st.vals.pop(x, None)
        for y, v in list(st.vals.items()):
            if v[0] in "rn" and v[1] in dead:
                del st.vals[y]
        for y, v in list(st.mem.items()):
            if v[0] in "rn" and v[1] in dead:
                del st.mem[y]

    def block(self, b, st):
        states = [st.copy()]
        for i in b.insts:
            if i.op == "phi":
                continue
            if not states:
                return []
            if i is b.insts[-1]:
                break
            nxt = []
            for s in states:
                nxt += self.inst(i, s)
            states = nxt
        t = b.insts[-1]
        out = []
        for s in states:
            r = self.client.step(t, s, self) if t.op != "ret" else None
            if t.op == "ret":
                v = self.eval(t.ops[0], s) if t.ops else None
                self.client.ret(t, s, v, self)
                continue
            if t.op == "br" and len(t.succs) == 2:
                a, c = t.succs
                if a is c:
                    out += self.go(b, a, s)
                    continue
                for x in self.assume(t.ops[0], True, s.copy()):
                    out += self.go(b, a, x)
                for x in self.assume(t.ops[0], False, s.copy()):
                    out += self.go(b, c, x)
            elif t.op == "switch":
                v = self.eval(t.ops[0], s)
                done = set()
                for n, d in t.cases:
                    if v is not None and v[0] == "i":
                        if v[1] == n:
                            out += self.go(b, d, s.copy())
                            done.add(n)
                        continue
                    x = s.copy()
                    if v is not None and v[0] == "r":
                        f = x.facts.get(v[1])
                        if f and f[0] == "!" and n in f[1]:
                            continue
                        if self.tracked(v[1]):
                            x.facts[v[1]] = ("=", n)
                    out += self.go(b, d, x)
                if not done:
                    out += self.go(b, t.succs[0], s.copy())
            else:
                for d in t.succs or ():
                    out += self.go(b, d, s.copy())
        return out

    def go(self, b, d, st):
        e = getattr(self.client, "edge", None)
        if e and e(b, d, st, self) is False:
            return []
        new = {}
        regs = []
        for i in d.insts:
            if i.op != "phi":
                break
            v = next(x for p, x in i.incoming if p is b)
            regs.append(i.id)
            if self.tracked(i.id) or self.client.track(i.id):
                new[i.id] = self.eval(v, st)
        # a fact about the incoming value moves to the phi when the value
        # itself is a register of this round
        moved = {}
        for r, v in new.items():
            if v is not None and v[0] == "r":
                f = st.facts.get(v[1])
                if f:
                    moved[r] = f
        onphi = getattr(self.client, "phi", None)
        if onphi:
            onphi(b, d, st, self)
        for r in regs:
            self.kill(r, st)
        for r, v in new.items():
            if v is None or v == ("r", r):
                continue
            if v[0] in "rn" and v[1] in regs:
                if r in moved and v[0] == "r":
                    st.facts[r] = moved[r]
                continue
            st.vals[r] = v
        return [(st, d)]

    def inst(self, i, st):
        pre = getattr(self.client, "pre", None)
        if pre:
            pre(i, st, self)
        if i.id is not None:
            self.kill(i.id, st)
        r = self.client.step(i, st, self)
        if r is not None:
            return r
        if i.op == "store":
            a = self.addr(i.ops[1])
            if a and a[0] in self.cells:
                v = self.eval(i.ops[0], st)
                n = size(self, i.ops[0])
                for k in list(st.mem):
                    if k[0] == a[0] and (n is None or
                                         a[1] - 15 <= k[1] < a[1] + n):
                        if k[1] == a[1] or k[1] > a[1] or \
                                k[1] + 8 > a[1]:
                            del st.mem[k]
                if a[0] in self.weak:
                    self.weaken(st, a[0])
                if v is not None and (v[0] == "i" or self.tracked(v[1])):
                    st.mem[a] = v
            elif a is None:
                st.mem.clear()
            else:
                self.weaken(st, None)
        elif i.op == "load":
            a = self.addr(i.ops[0])
            if a and a in st.mem:
                st.vals[i.id] = st.mem[a]
            elif a and a[0] in self.cells and self.tracked(i.id):
                st.mem[a] = ("r", i.id)
        elif i.op == "call":
            self.clobber(i, st)
        elif i.op == "select":
            if self.tracked(i.id) and not (i.ty.kind == "int" and
                                           i.ty.bits == 1):
                out = []
                for t, x in ((True, i.ops[1]), (False, i.ops[2])):
                    for s in self.assume(i.ops[0], t, st.copy()):
                        v = self.eval(x, s)
                        if v is not None:
                            s.vals[i.id] = v
                        out.append(s)
                return out
        return [st]

    def weaken(self, st, but):
        for k in [k for k in st.mem if k[0] in self.weak and k[0] != but]:
            del st.mem[k]

    def clobber(self, i, st):
        """forget the cells a call may write"""
        n = i.callee[1] if i.callee[0] == "fn" else ""
        if n.startswith("llvm.") and not n.startswith("llvm.mem"):
            return
        if n.startswith("llvm.mem"):
            a = self.addr(i.args[0])
            if a is None:
                st.mem.clear()
                return
            for k in [k for k in st.mem if k[0] == a[0]]:
                del st.mem[k]
            return
        esc = self.escaped()
        for k in list(st.mem):
            if k[0] in esc:
                del st.mem[k]

    def escaped(self):
        if "esc" not in self.__dict__:
            e = set(self.weak)
            for i in self.fn.insts:
                os = i.args if i.op == "call" else \
                    [i.ops[0]] if i.op == "store" else \
                    [v for _, v in i.incoming] if i.op == "phi" else \
                    i.ops[1:] if i.op == "select" else ()
                if i.op == "call" and i.callee[0] == "fn" and \
                        i.callee[1].startswith("llvm."):
                    continue
                for o in os:
                    a = self.addr(o)
                    if a and a[0] in self.cells:
                        e.add(a[0])
            self.esc = e
        return self.esc

    def lines(self, cur=None):
        out, p = [], self.path
        while p:
            p, b = p
            ln = b.insts[-1].line if b.insts else 0
            if ln and (not out or out[-1] != ln):
                out.append(ln)
        return list(reversed(out))[-12:]


def size(ex, o):
    if o[0] == "i":
        return max(1, o[1] // 8)
    if o[0] == "r" and o[1] in ex.D:
        t = ex.D[o[1]].ty
        if t.kind == "int":
            return max(1, t.bits // 8)
        if t.kind == "ptr":
            return 8
    return None


def liveness(fn):
    """registers live at the start of each block (phis of the block excluded,
    phi operands live at the end of their predecessor)"""
    if "liveness" in fn._cache:
        return fn._cache["liveness"]
    use, dfn = {}, {}
    phiuse = {b.id: set() for b in fn.blocks}
    for b in fn.blocks:
        u, d = set(), set()
        for i in b.insts:
            if i.op == "phi":
                for p, v in i.incoming:
                    if v[0] == "r":
                        phiuse[p.id].add(v[1])
                d.add(i.id)
                continue
            ops = list(i.ops or ()) + list(i.args or ())
            if i.op == "call" and i.callee[0] == "r":
                ops.append(i.callee)
            for o in ops:
                if o[0] == "r" and o[1] not in d:
                    u.add(o[1])
            if i.id is not None:
                d.add(i.id)
        use[b.id], dfn[b.id] = u, d
    inn = {b.id: set(use[b.id]) for b in fn.blocks}
    changed = True
    while changed:
        changed = False
        for b in reversed(fn.blocks):
            o = set(phiuse[b.id])
            for s in b.succs:
                o |= inn[s.id]
            for i in b.insts:
                if i.op == "phi":
                    pass
            n = use[b.id] | (o - dfn[b.id])
            if n != inn[b.id]:
                inn[b.id] = n
                changed = True
    # phis of a block are set on entry and live inside it
    res = {}
    for b in fn.blocks:
        phis = {i.id for i in b.insts if i.op == "phi"}
        ops = set()
        # what conditions derive from stays live with them
        res[b.id] = inn[b.id] | phis | ops
    D = cfg.defs(fn)
    for b in fn.blocks:
        w = list(res[b.id])
        while w:
            x = w.pop()
            i = D.get(x)
            if i is not None and i.op in PURE:
                for o in i.ops:
                    if o[0] == "r" and o[1] not in res[b.id]:
                        res[b.id].add(o[1])
                        w.append(o[1])
    fn._cache["liveness"] = res
    return res
