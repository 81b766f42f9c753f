"""Path-sensitive abstract interpreter over LLVM IR (property simulation).

Memory is a set of abstract objects (stack slots, heap blocks named by
allocation site, lazily unfolded input objects), each with a typestate
(maybe-null / live / freed / null) and field cells.  Integers are constants
or symbols with an interval.  States that agree on the typestates, on the
shape of the heap and on booleans are joined, all others are kept apart, so a
cleanup path is only combined with the allocations that really precede it.
Functions are summarised on demand: a call is analysed for each distinct
abstract entry (arguments and the memory reachable from them) and the result
is reused; recursive calls are solved by iteration to a fixpoint.  Functions
of the public API called from inside are replaced by their contract, which
every one of them is checked against as an entry point of its own.
"""
import sys
from . import cfg, ext
from .cg import USER
from .ir import AnalysisBroken

BIG = 1 << 62
FULL = {1: (0, 1)}
for _w in (8, 16, 32, 64, 128):
    FULL[_w] = (-(1 << (_w - 1)), (1 << (_w - 1)) - 1)


def full(w):
    r = FULL.get(w)
    if r is None:
        r = FULL[w] = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    return r


UNDEF = ("undef",)
UNK = ("u",)
FLT = ("f",)
NULL = ("c", 0)
DANG = ("dang",)


def C(v, w=64):
    if w == 1:
        return ("c", v & 1)
    v &= (1 << w) - 1
    if v >> (w - 1):
        v -= 1 << w
    return ("c", v)


class Obj:
    __slots__ = ("kind", "st", "cells", "dflt", "rng", "bag", "weak", "site",
                 "own", "const", "handle", "why", "size", "mv")

    def __init__(s, kind, st, dflt, site="", own=None):
        s.kind = kind          # stack heap lazy global handle
        s.st = st              # live maybe lazy freed null
        s.cells = {}           # off -> (size, val)
        s.dflt = dflt          # undef zero lazy any
        s.rng = ()             # ((lo, hi, dflt), ...) newest first
        s.bag = frozenset()    # pointers stored at unknown offsets
        s.weak = False
        s.site = site
        s.own = own
        s.const = False        # memory the caller may share: not writable
        s.handle = None
        s.why = None
        s.size = None
        s.mv = False           # moved by realloc since function entry

    def copy(s):
        n = Obj.__new__(Obj)
        n.kind, n.st, n.cells, n.dflt, n.rng = (s.kind, s.st, dict(s.cells),
                                                s.dflt, s.rng)
        n.bag, n.weak, n.site, n.own = s.bag, s.weak, s.site, s.own
        n.const, n.handle, n.why, n.size = s.const, s.handle, s.why, s.size
        n.mv = s.mv
        return n


class State:
    __slots__ = ("regs", "objs", "facts", "terms", "oom", "trace")

    def __init__(s):
        s.regs, s.objs, s.facts, s.terms = {}, {}, {}, {}
        s.oom = False
        s.trace = ()

    def copy(s):
        n = State.__new__(State)
        n.regs, n.objs = dict(s.regs), dict(s.objs)
        n.facts, n.terms = dict(s.facts), dict(s.terms)
        n.oom, n.trace = s.oom, s.trace
        return n

    def w(s, oid):
        o = s.objs[oid].copy()
        s.objs[oid] = o
        return o


class Dead(Exception):
    """the path ends here (reported or infeasible)"""


_sid = [0]


def newsid():
    _sid[0] += 1
    return _sid[0]


def induction(fn, h, body):
    """phis of a loop header that step: id -> sign (0 unknown)"""
    key = ("iv", h.id)
    c = fn._cache.get(key)
    if c is not None:
        return c
    byid = {i.id: i for b in fn.blocks if b.id in body for i in b.insts}
    out = {}
    for i in h.insts:
        if i.op != "phi":
            break
        if i.ty.kind == "int" and i.ty.bits == 1:
            continue
        signs = set()
        for pb, v in i.incoming:
            if pb.id not in body or v[0] != "r":
                continue
            # paths from v back to the phi through steps
            todo, seen = [(v[1], 0)], set()
            while todo:
                x, sg = todo.pop()
                if (x, sg) in seen:
                    continue
                seen.add((x, sg))
                if x == i.id:
                    if sg:
                        signs.add(sg)
                    continue
                d = byid.get(x)
                if d is None:
                    continue
                if d.op == "phi":
                    todo += [(o[1], sg) for p, o in d.incoming
                             if o[0] == "r"]
                elif d.op == "select":
                    todo += [(o[1], sg) for o in d.ops[1:] if o[0] == "r"]
                elif d.op in ("zext", "sext", "trunc", "freeze"):
                    todo += [(o[1], sg) for o in d.ops if o[0] == "r"]
                elif d.op in ("add", "sub", "getelementptr"):
                    k = 0
                    o1 = d.ops[1] if len(d.ops) > 1 else None
                    if d.op == "getelementptr":
                        if d.gep[1]:
                            k = 9
                        else:
                            k = 1 if d.gep[0] > 0 else -1
                        todo += [(d.ops[0][1], comb(sg, k))] \
                            if d.ops[0][0] == "r" else []
                        continue
                    if o1 is not None and o1[0] == "i":
                        w = o1[1]
                        v1 = o1[2] & ((1 << w) - 1)
                        if v1 >> (w - 1):
                            v1 -= 1 << w
                        k = 1 if v1 > 0 else -1
                        if d.op == "sub":
                            k = -k
                    else:
                        k = 9
                    todo += [(o[1], comb(sg, k)) for o in d.ops
                             if o[0] == "r"]
        if signs:
            out[i.id] = 1 if signs == {1} else -1 if signs == {-1} else 0
    fn._cache[key] = out
    return out


def comb(a, b):
    return b if a == 0 else a if a == b else 9


def liveness(fn):
    c = fn._cache.get("live")
    if c is not None:
        return c
    use, df = {}, {}
    for b in fn.blocks:
        u, d = set(), set()
        for i in b.insts:
            if i.op == "phi":
                d.add(i.id)
                continue
            for o in i.ops or []:
                if o[0] == "r" and o[1] not in d:
                    u.add(o[1])
            if i.op == "call" and i.callee[0] == "r" and i.callee[1] not in d:
                u.add(i.callee[1])
            d.add(i.id)
        use[b.id], df[b.id] = u, d
    phiuse = {}
    for b in fn.blocks:
        for i in b.insts:
            if i.op == "phi":
                for pb, v in i.incoming:
                    if v[0] == "r":
                        phiuse.setdefault(pb.id, set()).add(v[1])
    live = {b.id: set(use[b.id]) for b in fn.blocks}
    ch = True
    while ch:
        ch = False
        for b in reversed(fn.blocks):
            out = set(phiuse.get(b.id, ()))
            for s in b.succs:
                out |= live[s.id]
            new = use[b.id] | (out - df[b.id])
            if new != live[b.id]:
                live[b.id] = new
                ch = True
    # phi results are live-in at their own block entry (set on the edge)
    for b in fn.blocks:
        for i in b.insts:
            if i.op == "phi":
                live[b.id].add(i.id)
    fn._cache["live"] = live
    return live


class Engine:
    MAXSTATES = 400

    def __init__(self, mod, g, contracts, opts=None):
        self.mod, self.g = mod, g
        self.contracts = contracts      # name -> callable(eng, st, inst, args)
        self.opts = opts or {}
        self.events = {}
        self.memo = {}
        self.cur, self.reads, self.ver = [], {}, {}
        self.mkeys, self.runs, self.order = {}, {}, {}
        self.stats = dict(states=0, insts=0, calls=0, memo=0, funcs=set())
        self.tmap = {n: {id(i): t for i, t in l} for n, l in g.calls.items()}
        self.stack = []
        self.noalloc = self._noalloc()
        self.entry = None
        self._quiet = 0
        self.loopseen = {}

    # ---- classification: which functions can allocate/free/call back
    def _noalloc(self):
        eff = set()
        for n in self.g.calls:
            for t in self.g.succ(n):
                if t in ext.ALLOC or t == USER or t in self.contracts:
                    eff.add(n)
        ch = True
        while ch:
            ch = False
            for n in self.g.calls:
                if n not in eff and any(t in eff for t in self.g.succ(n)):
                    eff.add(n)
                    ch = True
        return {n for n in self.g.calls if n not in eff}

    # ---- reporting
    def event(self, kind, inst, msg, st=None, key=None):
        if self._quiet:
            return
        fn = inst.fn.name if inst is not None else ""
        k = (kind, key or "%s:%s" % (fn, inst.line if inst else 0))
        if k in self.events:
            return
        self.events[k] = dict(
            kind=kind, fn=fn, line=inst.line if inst else 0,
            file=inst.file if inst else "", msg=msg, entry=self.entry,
            stack=list(self.stack), trace=list(st.trace) if st else [])

    # ---- values
    def sym(self, st, lo=None, hi=None, nz=False):
        s = newsid()
        if lo is not None or nz:
            st.facts[s] = (lo if lo is not None else -BIG * 2,
                           hi if hi is not None else BIG * 2, nz)
        return ("s", s)

    def rangeof(self, st, v, w=64):
        if v[0] == "c":
            return v[1], v[1]
        if v[0] == "s":
            f = st.facts.get(v[1])
            a, b = full(w)
            if f:
                return max(f[0], a), min(f[1], b)
            return a, b
        if v[0] == "b" or v[0] == "nb":
            return 0, 1
        return full(w)

    def norm(self, st, v):
        """constant-fold symbols with a singleton interval, null objects"""
        if v[0] == "s":
            f = st.facts.get(v[1])
            if f and f[0] == f[1]:
                return ("c", f[0])
        elif v[0] == "p":
            o = st.objs.get(v[1])
            if o is None:
                return DANG
            if o.st == "null" and not o.weak:
                return NULL
        return v

    def op(self, st, fr, o):
        k = o[0]
        if k == "r":
            v = st.regs.get(o[1])
            if v is None:
                return UNK
            return v
        if k == "i":
            return C(o[2], o[1])
        if k == "null":
            return NULL
        if k == "g":
            return self.globalptr(st, o[1], o[2])
        if k == "fn":
            return ("fn", o[1])
        if k == "undef":
            return UNDEF
        if k == "f":
            return FLT
        if k == "zero":
            return ("zero", )
        return UNK

    def globalptr(self, st, name, off):
        oid = ("g", name)
        if oid not in st.objs:
            o = Obj("global", "live", "lazy", site=name)
            gl = self.mod.globals.get(name)
            o.const = bool(gl and gl.const)
            st.objs[oid] = o
        return ("p", oid, off)

    # ---- arithmetic
    def binop(self, st, i, a, b):
        w = i.ty.bits if i.ty.kind == "int" else 64
        op = i.op
        if a == UNDEF or b == UNDEF:
            return UNDEF if op in ("add", "sub", "mul", "shl") else \
                self.sym(st)
        a, b = self.norm(st, a), self.norm(st, b)
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            m = (1 << w) - 1
            ux, uy = x & m, y & m
            if op == "add":
                return C(x + y, w)
            if op == "sub":
                return C(x - y, w)
            if op == "mul":
                return C(x * y, w)
            if op == "and":
                return C(ux & uy, w)
            if op == "or":
                return C(ux | uy, w)
            if op == "xor":
                return C(ux ^ uy, w)
            if op == "shl" and uy < w:
                return C(ux << uy, w)
            if op == "lshr" and uy < w:
                return C(ux >> uy, w)
            if op == "ashr" and uy < w:
                return C(x >> uy, w)
            if op == "udiv" and uy:
                return C(ux // uy, w)
            if op == "urem" and uy:
                return C(ux % uy, w)
            if op == "sdiv" and y:
                q = abs(x) // abs(y)
                return C(q if (x < 0) == (y < 0) else -q, w)
            if op == "srem" and y:
                q = abs(x) % abs(y)
                return C(-q if x < 0 else q, w)
        if op in ("add", "sub") and b == NULL:
            return a
        if op == "add" and a == NULL:
            return b
        if op == "mul" and b == ("c", 1):
            return a
        if op == "xor" and w == 1 and b[0] == "c":
            if b[1] & 1 == 0:
                return a
            return self.neg(a)
        if op == "xor" and b == ("c", 1) and a[0] in ("b", "nb"):
            return self.neg(a)
        if op in ("and", "or") and a == b:
            return a
        if a[0] in ("b", "nb", "u", "f", "p", "fn"):
            a = ("s", -1) if a[0] not in ("b", "nb") else a
        key = (op, a, b, w)
        r = st.terms.get(key)
        if r is not None:
            return r
        al, ah = self.rangeof(st, a, w)
        bl, bh = self.rangeof(st, b, w)
        lo, hi = full(w)
        if op == "add":
            x, y = al + bl, ah + bh
            if x >= lo and y <= hi:
                lo, hi = x, y
        elif op == "sub":
            x, y = al - bh, ah - bl
            if x >= lo and y <= hi:
                lo, hi = x, y
        elif op == "mul":
            ps = [al * bl, al * bh, ah * bl, ah * bh]
            if min(ps) >= lo and max(ps) <= hi:
                lo, hi = min(ps), max(ps)
        elif op == "and":
            if b[0] == "c" and b[1] >= 0:
                lo, hi = 0, b[1]
            elif a[0] == "c" and a[1] >= 0:
                lo, hi = 0, a[1]
            elif al >= 0 and bl >= 0:
                lo, hi = 0, min(ah, bh)
            elif al >= 0:
                lo, hi = 0, ah
        elif op == "or":
            if al >= 0 and bl >= 0:
                lo, hi = max(al, bl), (1 << max(ah, bh).bit_length()) - 1
            if (a[0] == "c" and a[1]) or (b[0] == "c" and b[1]):
                r = self.sym(st, lo, hi, True)
                st.terms[key] = r
                return r
        elif op in ("udiv", "sdiv", "urem", "srem", "lshr", "ashr"):
            if al >= 0 and bl >= 0:
                if op in ("urem", "srem"):
                    lo, hi = 0, min(ah, max(bh - 1, 0))
                elif op in ("udiv", "sdiv"):
                    lo, hi = 0, ah
                    if bl > 0:
                        lo, hi = al // bh, ah // bl
                else:
                    lo, hi = 0, ah
                    if b[0] == "c":
                        lo, hi = al >> b[1], ah >> b[1]
            elif op == "lshr" and b[0] == "c" and b[1] > 0:
                lo, hi = 0, (1 << (w - b[1])) - 1
            elif op == "urem" and b[0] == "c" and b[1] > 0:
                lo, hi = 0, b[1] - 1
        elif op == "shl":
            if b[0] == "c" and 0 <= b[1] < w and al >= 0 and \
                    (ah << b[1]) <= hi:
                lo, hi = al << b[1], ah << b[1]
        r = self.sym(st, lo, hi)
        if a != ("s", -1):
            st.terms[key] = r
        return r

    def neg(self, v):
        if v[0] == "c":
            return ("c", 1 - (v[1] & 1))
        if v[0] == "b":
            return ("nb",) + v[1:]
        if v[0] == "nb":
            return ("b",) + v[1:]
        return ("b", "eq", v, NULL)

    def cast(self, st, i, v, sw):
        op, w = i.op, i.ty.bits
        if v == UNDEF:
            return UNDEF
        if op in ("fptoui", "fptosi"):
            return self.sym(st, *full(w)) if op == "fptosi" else \
                self.sym(st, 0, full(w)[1])
        if op in ("uitofp", "sitofp", "fptrunc", "fpext"):
            return FLT
        if op in ("bitcast", "freeze", "addrspacecast"):
            if i.ty.kind in ("double", "float"):
                return FLT
            return v if v != FLT else self.sym(st)
        if op in ("ptrtoint", "inttoptr"):
            return v
        v = self.norm(st, v)
        if v[0] in ("b", "nb"):
            if op == "sext":
                return self.sym(st, -1, 0)
            return v
        if v[0] == "c":
            if op == "zext":
                x = v[1] & ((1 << sw) - 1)
                return C(x, w)
            if op == "sext":
                if sw == 1:
                    return C(-v[1], w)
                return C(v[1], w)
            return C(v[1], w)
        if v[0] in ("p", "fn"):
            return v if op != "trunc" else self.sym(st, *full(w))
        if v[0] != "s":
            return self.sym(st, *full(w)) if op != "zext" else \
                self.sym(st, 0, (1 << sw) - 1)
        lo, hi = self.rangeof(st, v, sw)
        if op == "sext":
            if v[1] not in st.facts:
                st.facts[v[1]] = (lo, hi, False)
            return v
        if op == "zext":
            if lo >= 0:
                if v[1] not in st.facts:
                    st.facts[v[1]] = (lo, hi, False)
                return v
            key = ("zext", v, sw)
            r = st.terms.get(key)
            if r is None:
                nz = st.facts.get(v[1], (0, 0, False))[2]
                r = st.terms[key] = self.sym(st, 0, (1 << sw) - 1, nz)
            return r
        if op == "trunc":
            a, b = full(w)
            if w > 1 and lo >= a and hi <= b:
                return v
            if w == 1 and lo >= 0 and hi <= 1:
                return v
            key = ("trunc", v, w)
            r = st.terms.get(key)
            if r is None:
                r = st.terms[key] = self.sym(st, a, b)
            return r
        return self.sym(st)

    # ---- comparison
    NEGP = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle",
            "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule",
            "ule": "ugt"}
    SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge",
            "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge",
            "uge": "ule"}

    def decide(self, st, pred, a, b, w=64):
        """True / False / None"""
        a, b = self.norm(st, a), self.norm(st, b)
        if a[0] in ("b", "nb") and b[0] == "c" and pred in ("eq", "ne"):
            r = self.truth(st, a)
            if r is None:
                return None
            return (r == (b[1] != 0)) == (pred == "eq") if b[1] in (0, 1) \
                else pred == "ne"
        if pred in ("eq", "ne"):
            r = None
            if a[0] == "p" and b[0] == "p":
                if a[1] == b[1] and not st.objs[a[1]].weak:
                    if isinstance(a[2], int) and isinstance(b[2], int):
                        r = a[2] == b[2]
                elif a[1] != b[1]:
                    oa, ob = st.objs[a[1]], st.objs[b[1]]
                    if oa.kind in ("heap", "stack", "handle") and \
                            ob.kind != "lazy" and oa.st == "live":
                        r = False
                    elif ob.kind in ("heap", "stack", "handle") and \
                            oa.kind != "lazy" and ob.st == "live":
                        r = False
            elif a[0] == "p" and b == NULL or b[0] == "p" and a == NULL:
                p = a if a[0] == "p" else b
                o = st.objs[p[1]]
                if o.weak:
                    r = None if o.st in ("lazy", "maybe") else False
                elif o.st in ("live", "freed"):
                    r = False
            elif a[0] == "fn" or b[0] == "fn":
                if a[0] == b[0]:
                    r = a == b
                elif NULL in (a, b):
                    r = False
            elif a[0] == "c" and b[0] == "c":
                r = a[1] == b[1]
            elif a == b and a[0] == "s":
                r = True
            elif a[0] in ("s", "c") and b[0] in ("s", "c"):
                al, ah = self.rangeof(st, a, w)
                bl, bh = self.rangeof(st, b, w)
                if ah < bl or bh < al:
                    r = False
                else:
                    for x, y in ((a, b), (b, a)):
                        if x[0] == "s" and y == NULL and \
                                st.facts.get(x[1], (0, 0, 0))[2]:
                            r = False
            if r is None:
                return None
            return r if pred == "eq" else not r
        if a[0] == "p" and b[0] == "p" and a[1] == b[1] and \
                isinstance(a[2], int) and isinstance(b[2], int):
            a, b = ("c", a[2]), ("c", b[2])
        if a[0] not in ("s", "c", "b", "nb") or \
                b[0] not in ("s", "c", "b", "nb"):
            return None
        if a == b and a[0] == "s":
            return pred[1:] in ("le", "ge")
        al, ah = self.rangeof(st, a, w)
        bl, bh = self.rangeof(st, b, w)
        if pred[0] == "u":
            if a[0] == "c" and b[0] == "c":
                m = (1 << w) - 1
                al = ah = a[1] & m
                bl = bh = b[1] & m
            elif al < 0 or bl < 0:
                if b == NULL:
                    return {"ult": False, "uge": True}.get(pred)
                if a == NULL:
                    return {"ugt": False, "ule": True}.get(pred)
                return None
        p = pred[1:]
        if p == "lt":
            return True if ah < bl else False if al >= bh else None
        if p == "le":
            return True if ah <= bl else False if al > bh else None
        if p == "gt":
            return True if al > bh else False if ah <= bl else None
        if p == "ge":
            return True if al >= bh else False if ah < bl else None
        return None

    def truth(self, st, v):
        v = self.norm(st, v)
        if v[0] == "c":
            return v[1] != 0
        if v[0] == "b":
            return self.decide(st, v[1], v[2], v[3], v[4] if len(v) > 4
                               else 64)
        if v[0] == "nb":
            r = self.decide(st, v[1], v[2], v[3], v[4] if len(v) > 4 else 64)
            return None if r is None else not r
        if v[0] == "p":
            return self.decide(st, "ne", v, NULL)
        if v[0] == "s":
            return self.decide(st, "ne", v, NULL)
        return None

    def assume(self, st, v, want):
        """refine st so that v is `want`; raises Dead when impossible"""
        r = self.truth(st, v)
        if r is not None:
            if r != want:
                raise Dead()
            return
        if v[0] == "nb":
            return self.assume(st, ("b",) + v[1:], not want)
        if v[0] == "b":
            pred, a, b = v[1], v[2], v[3]
            w = v[4] if len(v) > 4 else 64
            if not want:
                pred = self.NEGP[pred]
            if a[0] in ("b", "nb") and b[0] == "c":
                # comparison of a boolean with 0/1
                if pred == "ne":
                    return self.assume(st, a, b[1] == 0)
                if pred == "eq" and b[1] in (0, 1):
                    return self.assume(st, a, b[1] == 1)
            self.refine(st, pred, a, b, w)
            self.refine(st, self.SWAP[pred], b, a, w)
            return
        if v[0] in ("p", "s"):
            self.refine(st, "ne" if want else "eq", v, NULL, 64)

    def setnull(self, st, oid, null, inst=None):
        o = st.objs[oid]
        if o.weak:
            return
        if o.st == "lazy" and oid[0] == "lz" and \
                self.lzroot(oid)[0] == "a":
            return      # contents of a local that was filled by a callee
        if null:
            if o.st == "live":
                raise Dead()
            n = st.w(oid)
            n.st = "null"
            if o.kind in ("heap", "handle") and o.st == "maybe":
                st.oom = True
                st.trace = st.trace + ("allocation failed: %s" % o.site,)
        elif o.st in ("maybe", "lazy"):
            n = st.w(oid)
            n.st = "live"

    def refine(self, st, pred, a, b, w):
        a, b = self.norm(st, a), self.norm(st, b)
        if a[0] == "p":
            if b == NULL and pred in ("eq", "ne", "ugt", "ule"):
                self.setnull(st, a[1], pred in ("eq", "ule"))
            return
        if a[0] != "s":
            return
        if b[0] not in ("s", "c"):
            return
        lo, hi = self.rangeof(st, a, w)
        nz = st.facts.get(a[1], (0, 0, False))[2]
        bl, bh = self.rangeof(st, b, w)
        p = pred
        if p[0] == "u":
            if bl < 0:
                if p in ("ugt",):
                    nz = True
                st.facts[a[1]] = (lo, hi, nz)
                return
            if p in ("ult", "ule"):
                lo = max(lo, 0)
                p = "s" + p[1:]
            elif p in ("ugt", "uge"):
                if lo >= 0:
                    p = "s" + p[1:]
                else:
                    if p == "ugt" or bl > 0:
                        nz = True
                    st.facts[a[1]] = (lo, hi, nz)
                    return
        if p == "eq":
            lo, hi = max(lo, bl), min(hi, bh)
        elif p == "ne":
            if b == NULL:
                nz = True
            if bl == bh:
                if lo == bl:
                    lo += 1
                elif hi == bl:
                    hi -= 1
        elif p == "slt":
            hi = min(hi, bh - 1)
        elif p == "sle":
            hi = min(hi, bh)
        elif p == "sgt":
            lo = max(lo, bl + 1)
        elif p == "sge":
            lo = max(lo, bl)
        if nz and lo == 0:
            lo = 1
        if nz and hi == 0:
            hi = -1
        if lo > hi:
            raise Dead()
        st.facts[a[1]] = (lo, hi, nz)

    # ---- memory
    def addoff(self, off, k):
        if isinstance(off, int):
            return off + k
        return ("+", off[1] + k) if off[1] is not None else off

    def gep(self, st, i):
        base = self.norm(st, self.op(st, None, i.ops[0]))
        off, var, path = i.gep
        lo, exact, anyneg = off, True, False
        n = 1
        for (o, sc) in var:
            v = self.norm(st, self.op(st, None, o))
            if v == UNDEF:
                self.event("uninit", i, "an uninitialised value is used as "
                           "an index", st)
            a, b = self.rangeof(st, v, 64)
            if a == b:
                lo += a * sc
            else:
                exact = False
                if a < 0:
                    anyneg = True
                else:
                    lo += a * sc
        if base[0] == "p":
            bo = base[2]
            if isinstance(bo, int) and exact:
                return ("p", base[1], bo + lo)
            if anyneg or (not isinstance(bo, int) and bo[1] is None):
                return ("p", base[1], ("+", None))
            b0 = bo if isinstance(bo, int) else bo[1]
            return ("p", base[1], ("+", b0 + lo))
        if base == NULL:
            # address of a field of NULL; decided when dereferenced
            if exact and lo == 0:
                return NULL
            return ("nullplus",)
        if base == UNDEF or base == DANG:
            return base
        return UNK

    def deref(self, st, i, p, what, size=None):
        """check a memory access; returns (oid, off) or None (unknown)"""
        p = self.norm(st, p)
        if p == NULL or p == ("nullplus",):
            self.event("nullderef", i, "%s through a NULL pointer" % what, st)
            raise Dead()
        if p == UNDEF:
            self.event("uninit", i, "%s through an uninitialised pointer"
                       % what, st)
            raise Dead()
        if p == DANG:
            self.event("uaf", i, "%s of memory that was freed" % what, st)
            raise Dead()
        if p[0] != "p":
            return None
        o = st.objs[p[1]]
        if o.st == "maybe" and not o.weak:
            if o.kind in ("heap", "handle"):
                self.event("unchecked-alloc", i, "%s: the result of %s is "
                           "used without a check for NULL" %
                           (what, o.site), st)
            else:
                self.event("nullarg", i, "%s: %s may be NULL" %
                           (what, o.site), st)
            st.w(p[1]).st = "live"
        elif o.st == "lazy" and not o.weak:
            st.w(p[1]).st = "live"
        elif o.st == "freed" and not o.weak:
            self.event("uaf", i, "%s of memory that was freed (%s)" %
                       (what, o.site), st)
            raise Dead()
        return p[1], p[2]

    def default(self, st, oid, off, size, ty):
        o = st.objs[oid]
        d = o.dflt
        if isinstance(off, int):
            for lo, hi, dd in o.rng:
                if lo <= off and (hi is None or off + size <= hi):
                    d = dd
                    break
        if d == "zero":
            return FLT if ty.kind in ("double", "float") else NULL
        if d == "undef":
            return UNDEF
        if ty.kind in ("double", "float", "x86_fp80"):
            return FLT
        if d == "lazy" and ty.kind == "ptr":
            return self.lazychild(st, oid, off)
        if d == "any" and ty.kind == "ptr":
            return UNK
        if ty.kind == "int":
            lo, hi = full(ty.bits)
            if o.kind == "global" and o.const and \
                    isinstance(off, int):
                v = self.constload(oid[1], off, ty)
                if v is not None:
                    return v
            return self.sym(st, lo, hi)
        return UNK

    def constload(self, name, off, ty):
        gl = self.mod.globals.get(name)
        if gl is None or not gl.init:
            return None
        if gl.init[0] == "bytes" and ty.kind == "int" and ty.bits == 8:
            b = gl.init[1]
            if 0 <= off < len(b):
                return C(b[off], 8)
            if off == len(b):
                return NULL
        return None

    def lazychild(self, st, oid, off):
        depth = 0
        x = oid
        while isinstance(x, tuple) and x and x[0] == "lz":
            x = x[1]
            depth += 1
        k = off if isinstance(off, int) else "*"
        if depth > 5:
            noid = oid
            if k == "*" or True:
                o = st.objs[oid]
                if not o.weak:
                    o = st.w(oid)
                    o.weak = True
            return ("p", noid, 0)
        noid = ("lz", oid, k)
        if noid not in st.objs:
            po = st.objs[oid]
            n = Obj("lazy", "lazy", "lazy",
                    site="%s->[%s]" % (po.site, k))
            n.const = po.const or po.kind == "handle"
            n.weak = k == "*"
            n.own = po.own
            st.objs[noid] = n
        return ("p", noid, 0)

    def load(self, st, i, p, ty):
        size = ty.size or 8
        r = self.deref(st, i, p, "read", size)
        if r is None:
            if ty.kind in ("double", "float"):
                return FLT
            return UNK if ty.kind == "ptr" else self.sym(
                st, *(full(ty.bits) if ty.kind == "int" else (None, None)))
        oid, off = r
        return self.loadat(st, oid, off, size, ty)

    def loadat(self, st, oid, off, size, ty):
        o = st.objs[oid]
        if not isinstance(off, int):
            if ty.kind == "ptr":
                if o.bag:
                    return ("bag", oid)
                if o.kind in ("lazy", "handle") or o.dflt == "lazy":
                    return self.lazychild(st, oid, off)
                # any pointer cell at or above the bound
                c = [v for k, (s, v) in o.cells.items()
                     if off[1] is None or k >= off[1]]
                c = [v for v in c if v[0] == "p"]
                if len(c) == 1:
                    return c[0]
                return UNK
            if ty.kind in ("double", "float"):
                return FLT
            return self.sym(st, *full(ty.bits)) if ty.kind == "int" else UNK
        c = o.cells.get(off)
        if c is not None:
            if c[0] == size:
                v = c[1]
                if ty.kind in ("double", "float") and v[0] != "undef":
                    return FLT
                if ty.kind != "ptr" and v[0] == "f":
                    return self.sym(st)
                if o.weak and v[0] == "c":
                    return v
                return v
            if c[1][0] == "c" and c[0] > size and ty.kind == "int":
                return C(c[1][1], ty.bits)
            if c[1] == UNDEF:
                return UNDEF
            if ty.kind == "int" and c[0] < size:
                # compose from constants
                val, k = 0, off
                while k < off + size:
                    cc = o.cells.get(k)
                    if cc is None:
                        d = self.default(st, oid, k, 1, _I8)
                        if d == NULL:
                            k += 1
                            continue
                        break
                    if cc[1][0] != "c":
                        break
                    val |= (cc[1][1] & ((1 << (8 * cc[0])) - 1)) << \
                        (8 * (k - off))
                    k += cc[0]
                else:
                    return C(val, ty.bits)
            return FLT if ty.kind in ("double", "float") else self.sym(
                st, *(full(ty.bits) if ty.kind == "int" else (None, None)))
        # overlap with another cell?
        for k, (s, v) in o.cells.items():
            if k < off + size and off < k + s:
                if v[0] == "c" and ty.kind == "int" and k <= off and \
                        off + size <= k + s:
                    return C(v[1] >> (8 * (off - k)), ty.bits)
                if ty.kind in ("double", "float"):
                    return FLT
                return self.sym(st, *(full(ty.bits) if ty.kind == "int"
                                      else (None, None)))
        if o.bag and ty.kind == "ptr":
            return ("bag", oid)
        v = self.default(st, oid, off, size, ty)
        if v not in (UNDEF, FLT, UNK, NULL) and not o.weak and \
                o.kind != "global":
            n = st.w(oid)
            n.cells[off] = (size, v)
        return v

    def canwrite(self, st, i, oid):
        o = st.objs[oid]
        if o.const:
            self.event("write-const", i, "writes to memory that the caller "
                       "may share (%s)" % o.site, st)

    def store(self, st, i, p, v, size):
        r = self.deref(st, i, p, "write", size)
        if r is None:
            self.escape(st, v)
            return
        oid, off = r
        self.canwrite(st, i, oid)
        self.storeat(st, oid, off, v, size)

    def storeat(self, st, oid, off, v, size):
        o = st.w(oid)
        if v[0] == "bag":
            v = UNK
        if o.size == "arr" and isinstance(off, int) and v[0] == "p" and \
                st.objs.get(v[1]) is not None and \
                st.objs[v[1]].kind in ("heap", "handle"):
            off = ("+", 0)      # element of an array: elements are one
        if not isinstance(off, int):
            lo = off[1]
            for k in list(o.cells):
                if lo is None or k + o.cells[k][0] > lo:
                    s, old = o.cells[k]
                    if old == v:
                        continue
                    if old[0] == "p" and v[0] not in ("p",):
                        continue      # arrays of numbers next to pointers
                    if v[0] in ("p",) and old[0] != "p" and old != NULL:
                        continue
                    del o.cells[k]
                    if old[0] == "p":
                        o.bag = o.bag | {old}
            # initialised from here on
            if o.dflt in ("undef",):
                o.rng = ((lo if lo is not None else 0, None, "any"),) + tuple(
                    x for x in o.rng
                    if x != (lo if lo is not None else 0, None, "any"))
            if v[0] == "p":
                vo = st.objs.get(v[1])
                if vo is not None and vo.kind in ("heap", "handle") and \
                        v[1][0] in ("h", "c", "sum"):
                    self.absorb(st, v[1])
                    for m in sorted(o.bag, key=repr):
                        mo = st.objs.get(m[1]) if m[0] == "p" else None
                        if mo is not None and mo.weak and m[1] != v[1] and \
                                mo.kind == vo.kind and m[1] != oid:
                            self.fold(st, v[1], m[1])
                            return
                o.bag = o.bag | {("p", v[1], v[2] if v[2] == 0 else
                                  ("+", None))}
                self.summarise(st, v[1])
            elif v == NULL and (o.bag or size == 8):
                if o.bag:
                    o.bag = o.bag | {NULL}
            return
        for k in list(o.cells):
            if k != off:
                s = o.cells[k][0]
                if k < off + size and off < k + s:
                    # partially overwritten
                    ov = o.cells[k][1]
                    del o.cells[k]
                    if ov[0] == "c" and v[0] == "c" and k <= off and \
                            off + size <= k + s:
                        m = ((1 << (8 * size)) - 1) << (8 * (off - k))
                        x = (ov[1] & ~m) | ((v[1] << (8 * (off - k))) & m)
                        o.cells[k] = (s, C(x, 8 * s))
                        return
                    if k < off:
                        o.rng = ((k, off, "any"),) + o.rng
                    if k + s > off + size:
                        o.rng = ((off + size, k + s, "any"),) + o.rng
        if o.weak:
            old = o.cells.get(off)
            if old is not None and old != (size, v):
                o.cells[off] = (size, UNK if old[1][0] in ("p", "u") or
                                v[0] in ("p", "u") else self.sym(st))
                if v[0] == "p":
                    o.bag = o.bag | {v}
                return
        o.cells[off] = (size, v)

    def absorb(self, st, oid):
        """an array element owns what only it refers to: fold the subtree"""
        o = st.objs[oid]
        if o.st == "freed" or not (o.cells or o.bag):
            return
        sub = {x for x in self.reach(st, [("p", oid, 0)]) if x != oid and
               x[0] in ("h", "c", "sum") and
               st.objs[x].kind in ("heap", "handle")}
        for x in sub | {oid}:
            ob = st.objs[x]
            if ob.st in ("freed",) or any(c[1] == DANG
                                          for c in ob.cells.values()):
                return
        ext = [v for v in st.regs.values()]
        for x, ob in st.objs.items():
            if x != oid and x not in sub:
                ext += [c[1] for c in ob.cells.values()]
                ext += list(ob.bag)
        ext = {v[1] for v in ext if v[0] == "p"}
        if ext & sub:
            return
        for x in sub:
            del st.objs[x]
        for x in [x for x in st.objs if x[0] == "lz" and
                  (self.lzroot(x) == oid or self.lzroot(x) in sub)]:
            del st.objs[x]
        n = st.w(oid)
        n.cells, n.bag, n.rng, n.dflt = {}, frozenset(), (), "lazy"

    def escape(self, st, v):
        """a pointer was stored where it cannot be followed"""
        if v[0] == "p" and v[1] in st.objs:
            for oid in self.reach(st, [v]):
                o = st.objs[oid]
                if o.kind in ("heap", "handle") and o.own != "escaped":
                    st.w(oid).own = "escaped"

    def summarise(self, st, oid):
        o = st.objs[oid]
        if o.weak or o.kind not in ("heap", "handle"):
            return
        sid = ("sum", oid)
        if sid in st.objs:
            self.fold(st, oid, sid)
        else:
            n = o.copy()
            n.weak = True
            st.objs[sid] = n
            del st.objs[oid]
            self.rename(st, {oid: sid})

    def fold(self, st, oid, sid):
        """merge oid into the summary object sid"""
        a, b = st.objs[sid].copy(), st.objs[oid]
        for k in list(a.cells):
            if k not in b.cells or b.cells[k] != a.cells[k]:
                s, v = a.cells[k]
                ptr = [x for x in (v, b.cells.get(k, (0, NULL))[1])
                       if x[0] == "p"]
                if ptr:
                    a.bag = a.bag | frozenset(ptr)
                del a.cells[k]
                a.rng = ((k, k + s, "any"),) + tuple(
                    x for x in a.rng if x != (k, k + s, "any"))
        a.bag = a.bag | b.bag
        for k, (s, v) in b.cells.items():
            if v[0] == "p" and k not in a.cells:
                a.bag = a.bag | {v}
        order = ["null", "freed", "live", "lazy", "maybe"]
        if a.st != b.st:
            a.st = "live" if "live" in (a.st, b.st) or "maybe" in \
                (a.st, b.st) else a.st
        if b.own != a.own:
            a.own = a.own or b.own
        if a.dflt != b.dflt:
            a.dflt = "any"
        a.weak = True
        st.objs[sid] = a
        del st.objs[oid]
        self.rename(st, {oid: sid})

    def rename(self, st, mp):
        def rv(v):
            if v[0] == "p":
                return ("p", mp[v[1]], v[2]) if v[1] in mp else v
            if v[0] in ("b", "nb"):
                return v[:2] + (rv(v[2]), rv(v[3])) + v[4:]
            if v[0] == "agg":
                return ("agg", tuple(rv(x) for x in v[1]))
            if v[0] == "bag":
                return ("bag", mp.get(v[1], v[1]))
            return v
        for k, v in st.regs.items():
            if v[0] in ("p", "b", "nb", "agg", "bag"):
                n = rv(v)
                if n is not v:
                    st.regs[k] = n
        for oid, o in list(st.objs.items()):
            hit = any(c[1][0] in ("p", "b", "nb") and rv(c[1]) != c[1]
                      for c in o.cells.values()) or \
                any(rv(x) != x for x in o.bag)
            if hit:
                n = st.w(oid)
                for k, (s, v) in n.cells.items():
                    n.cells[k] = (s, rv(v))
                n.bag = frozenset(rv(x) for x in n.bag)

    def sweep(self, st, inst):
        """drop what nothing refers to any more; live blocks are leaks"""
        roots = list(st.regs.values())
        for oid in st.objs:
            if oid[0] in ("E", "g", "in", "a"):
                roots.append(("p", oid, 0))
        keep = self.reach(st, roots)
        if len(keep) == len(st.objs):
            return
        for oid in list(st.objs):
            if oid in keep:
                continue
            o = st.objs[oid]
            if oid[0] == "lz" and self.lzroot(oid) in keep:
                if o.st != "lazy" or o.cells:
                    r = self.lzroot(oid)
                    if r[0] in ("E", "in", "g"):
                        continue
            elif o.kind in ("heap", "handle") and o.st in ("live", "maybe"):
                self.leak(st, oid, inst)
            del st.objs[oid]

    def normbags(self, st):
        """one opaque element per array of owned objects"""
        for x in list(st.objs):
            o = st.objs.get(x)
            if o is None or not o.bag:
                continue
            ms = sorted({m[1] for m in o.bag if m[0] == "p" and
                         m[1] in st.objs and m[1] != x and
                         st.objs[m[1]].weak and m[1][0] in
                         ("E", "h", "c", "sum") and
                         st.objs[m[1]].kind in ("handle", "heap")},
                        key=lambda q: (q[0] != "E", repr(q)))
            for m in ms:
                if m[0] != "E" and m in st.objs:
                    self.absorb(st, m)
                    if st.objs[m].kind == "heap" and \
                            not st.objs[m].cells and not st.objs[m].bag:
                        st.w(m).kind = "handle"
            for m in ms[1:]:
                if m[0] != "E" and m in st.objs and \
                        st.objs[ms[0]].kind == st.objs[m].kind:
                    self.fold(st, m, ms[0])

    def canon(self, st, fname):
        """name heap blocks after the first path that reaches them, so that
        states that differ only in which call site made a block can join"""
        self.normbags(st)
        order = sorted((o for o in st.objs if o[0] in ("E", "in", "a")),
                       key=repr)
        mp, taken = {}, {}
        work = []

        def see(v, path, depth):
            if v[0] != "p" or v[1] in mp:
                return
            oid = v[1]
            o = st.objs.get(oid)
            if o is None or oid[0] not in ("h", "c") or o.weak:
                return
            if oid in bagged:
                return
            nid = ("h", "@" + fname, path)
            put(oid, nid, path, depth)

        def seebag(o, path, depth):
            for b in sorted(o.bag, key=repr):
                if b[0] != "p" or b[1] in mp or b[1] not in st.objs:
                    continue
                t = st.objs[b[1]]
                if t.weak and b[1][0] in ("h", "c", "sum"):
                    p = "%s*%s" % (path, t.kind)
                    put(b[1], ("sum", ("h", "@" + fname, p)), p, depth)

        def put(oid, nid, path, depth):
            if nid in taken:
                return
            mp[oid] = nid
            taken[nid] = oid
            if depth < 3:
                work.append((oid, path, depth + 1))
        bagged = set()
        for o in st.objs.values():
            for b in o.bag:
                if b[0] == "p":
                    bagged.add(b[1])
        for r in order:
            o = st.objs[r]
            for k in sorted(o.cells):
                v = o.cells[k][1]
                if v[0] == "p":
                    see(v, "%s+%s" % (r[-1], k), 0)
            if o.bag:
                seebag(o, "%s" % r[-1], 0)
        for r in sorted(st.regs, key=repr):
            see(st.regs[r], "r%s" % r, 0)
        while work:
            oid, path, d = work.pop(0)
            o = st.objs[oid]
            for k in sorted(o.cells):
                v = o.cells[k][1]
                if v[0] == "p":
                    see(v, "%s+%s" % (path, k), d)
            if o.bag:
                seebag(o, path, d)
        mp = {a: b for a, b in mp.items() if a != b}
        if not mp:
            return
        for a, b in list(mp.items()):
            if b in st.objs and b not in mp:
                # a stale owner of the name
                if self.referenced(st, b):
                    del mp[a]
                    continue
                if st.objs[b].kind in ("heap", "handle"):
                    self.leak(st, b, None)
                self.rename_dead(st, b)
        if not mp:
            return
        for o in list(st.objs):
            if o[0] == "lz":
                q, ch = o, []
                while q[0] == "lz":
                    ch.append(q[2])
                    q = q[1]
                if q in mp:
                    q = mp[q]
                    for k in reversed(ch):
                        q = ("lz", q, k)
                    mp[o] = q
        old = {a: st.objs.pop(a) for a in mp}
        for a, b in mp.items():
            st.objs[b] = old[a]
        self.rename(st, mp)

    # ---- object creation
    def newobj(self, st, oid, obj, inst):
        if oid in st.objs:
            old = st.objs[oid]
            # recency: the older instance becomes the summary of this site
            if old.st in ("freed", "null"):
                self.rename_dead(st, oid)
            else:
                if old.kind in ("heap", "handle") and \
                        not self.referenced(st, oid):
                    self.leak(st, oid, inst)
                    self.rename_dead(st, oid)
                elif old.kind == "stack":
                    del st.objs[oid]
                else:
                    self.summarise(st, oid)
        st.objs[oid] = obj

    def rename_dead(self, st, oid):
        o = st.objs.pop(oid)
        rep = NULL if o.st == "null" else DANG

        def rv(v):
            if v[0] == "p" and v[1] == oid:
                return rep
            if v[0] in ("b", "nb"):
                return v[:2] + (rv(v[2]), rv(v[3])) + v[4:]
            return v
        for k, v in list(st.regs.items()):
            if v[0] in ("p", "b", "nb"):
                st.regs[k] = rv(v)
        for x, ob in list(st.objs.items()):
            if any(rv(c[1]) != c[1] for c in ob.cells.values()) or \
                    any(rv(b) != b for b in ob.bag):
                n = st.w(x)
                for k, (s, v) in n.cells.items():
                    n.cells[k] = (s, rv(v))
                n.bag = frozenset(rv(b) for b in n.bag)

    def referenced(self, st, oid):
        for v in st.regs.values():
            if v[0] == "p" and v[1] == oid:
                return True
        for x, o in st.objs.items():
            if x == oid:
                continue
            for c in o.cells.values():
                if c[1][0] == "p" and c[1][1] == oid:
                    return True
            for b in o.bag:
                if b[0] == "p" and b[1] == oid:
                    return True
        return False

    def reach(self, st, vals):
        seen, work = set(), []
        def push(v):
            if v[0] == "p":
                if v[1] in st.objs and v[1] not in seen:
                    seen.add(v[1])
                    work.append(v[1])
            elif v[0] in ("b", "nb"):
                push(v[2])
                push(v[3])
            elif v[0] == "agg":
                for x in v[1]:
                    push(x)
            elif v[0] == "bag":
                push(("p", v[1], 0))
        for v in vals:
            push(v)
        while work:
            o = st.objs[work.pop()]
            if o.st == "null":
                continue
            for c in o.cells.values():
                push(c[1])
            for b in o.bag:
                push(b)
        return seen

    def leak(self, st, oid, inst):
        o = st.objs[oid]
        if o.own == "escaped" or o.st not in ("live", "maybe"):
            return
        self.event("leak", inst, "%s is never released" % o.site, st,
                   key="%s|%s" % (self.stack[-1] if self.stack else "",
                                  o.site))

    # ---- heap model
    def alloc(self, st, i, name, dflt="undef", size=None):
        oid = ("h", i.fn.name, i.id)
        o = Obj("heap", "maybe", dflt,
                site="%s in %s:%d" % (name, i.fn.name, i.line))
        if size is None or self.norm(st, size)[0] != "c":
            o.size = "arr"
        self.newobj(st, oid, o, i)
        return ("p", oid, 0)

    def free(self, st, i, p, raw=True):
        p = self.norm(st, p)
        if p == NULL:
            return
        if p == DANG:
            self.event("double-free", i, "memory is freed twice", st)
            raise Dead()
        if p == UNDEF:
            self.event("uninit", i, "an uninitialised pointer is freed", st)
            raise Dead()
        if p[0] != "p":
            return
        o = st.objs[p[1]]
        if o.st == "freed" and not o.weak:
            self.event("double-free", i, "%s is freed twice" % o.site, st)
            raise Dead()
        if o.kind in ("stack", "global"):
            self.event("bad-free", i, "%s was not allocated but is freed" %
                       o.site, st)
            raise Dead()
        if isinstance(p[2], int) and p[2] != 0 and o.kind != "lazy":
            self.event("bad-free", i, "a pointer into the middle of %s is "
                       "freed" % o.site, st)
            raise Dead()
        if o.kind == "lazy" and o.const:
            self.event("bad-free", i, "memory that belongs to the caller is "
                       "freed (%s)" % o.site, st)
            raise Dead()
        if raw and o.kind == "handle":
            self.event("bad-free", i, "a reference counted object (%s) is "
                       "freed without its free function" % o.site, st)
        n = st.w(p[1])
        n.st = "freed"
        n.why = i.line
        if not n.weak:
            n.cells, n.bag, n.rng = {}, frozenset(), ()

    def release_tree(self, st, i, p):
        """contract of the public free functions"""
        p = self.norm(st, p)
        if p == NULL:
            return
        if p[0] != "p":
            return self.free(st, i, p, raw=False)
        ids = self.reach(st, [p])
        self.free(st, i, p, raw=False)
        for oid in ids:
            o = st.objs[oid]
            if oid != p[1] and o.kind in ("heap", "handle") and \
                    o.st in ("live", "maybe"):
                n = st.w(oid)
                n.st = "freed"
                if not n.weak:
                    n.cells, n.bag, n.rng = {}, frozenset(), ()

    def realloc(self, st, i, p):
        """two outcomes: failure, success"""
        p = self.norm(st, p)
        out = []
        if p == NULL or p[0] not in ("p",):
            if p in (DANG, UNDEF):
                self.free(st, i, p)
            return [(self.alloc(st, i, "realloc"), st)]
        o = st.objs[p[1]]
        f = st.copy()
        f.oom = True
        f.trace = f.trace + ("realloc failed in %s:%d" % (i.fn.name, i.line),)
        out.append((NULL, f))
        s = st.copy()
        old = s.objs[p[1]]
        keep = old.copy()
        self.free(s, i, p)
        self.rename_dead(s, p[1])
        # the block keeps its name; what pointed to the old place dangles
        if p[1][0] in ("h", "c", "E") and not keep.weak:
            oid, mv = p[1], p[1][0] == "E"
        else:
            oid, mv = ("h", i.fn.name, i.id), False
        n = Obj("heap", "live", keep.dflt,
                site="realloc in %s:%d" % (i.fn.name, i.line))
        n.cells, n.rng, n.bag = keep.cells, keep.rng, keep.bag
        n.mv = mv
        n.size = "arr"
        if keep.kind == "lazy":
            n.dflt = "any"
        self.newobj(s, oid, n, i)
        out.append((("p", oid, 0), s))
        return out

    def memset(self, st, i, p, val, n):
        r = self.deref(st, i, p, "memset")
        if r is None:
            return
        oid, off = r
        self.canwrite(st, i, oid)
        o = st.w(oid)
        zero = self.norm(st, val) == NULL
        d = "zero" if zero else "any"
        n = self.norm(st, n)
        lo = off if isinstance(off, int) else (off[1] or 0)
        hi = lo + n[1] if n[0] == "c" and isinstance(off, int) else None
        for k in list(o.cells):
            if k >= lo and (hi is None or k < hi):
                del o.cells[k]
        if hi is None or o.kind in ("heap",) and lo == 0 and False:
            o.rng = ((lo, None, d),) + o.rng
        else:
            o.rng = ((lo, hi, d),) + tuple(
                x for x in o.rng if not (lo <= x[0] and x[1] is not None
                                         and x[1] <= hi))
        o.rng = o.rng[:24]

    def memcpy(self, st, i, d, s, n):
        n = self.norm(st, n)
        if n == NULL:
            return
        maybe0 = self.decide(st, "ne", n, NULL) is None
        if maybe0:
            # zero bytes may come with any pointer
            for q in (d, s):
                qn = self.norm(st, q)
                if qn[0] != "p" or st.objs[qn[1]].st not in ("live", "lazy"):
                    if qn in (DANG,):
                        self.event("uaf", i, "copy from or to memory that "
                                   "was freed", st)
                    if qn[0] == "p" and st.objs[qn[1]].st == "maybe" and \
                            st.objs[qn[1]].kind == "heap":
                        continue
                    return
        rs = self.deref(st, i, s, "memcpy source")
        rd = self.deref(st, i, d, "memcpy destination")
        if rd is None:
            return
        oid, off = rd
        self.canwrite(st, i, oid)
        if rs is None:
            o = st.w(oid)
            lo = off if isinstance(off, int) else (off[1] or 0)
            hi = lo + n[1] if n[0] == "c" and isinstance(off, int) else None
            for k in list(o.cells):
                if k >= lo and (hi is None or k < hi):
                    del o.cells[k]
            o.rng = ((lo, hi, "any"),) + o.rng[:20]
            return
        soid, soff = rs
        so = st.objs[soid]
        if isinstance(off, int) and isinstance(soff, int):
            hi = soff + n[1] if n[0] == "c" else None
            sel = {k: c for k, c in so.cells.items()
                   if k >= soff and (hi is None or k + c[0] <= hi)}
            o = st.w(oid)
            for k in list(o.cells):
                if k >= off and (n[0] != "c" or k < off + n[1]):
                    del o.cells[k]
            dh = off + n[1] if n[0] == "c" else None
            rngs = []
            for lo, h, dd in so.rng:
                a = max(lo, soff)
                b = h if hi is None else (min(h, hi) if h is not None else hi)
                if b is None or a < b:
                    rngs.append((a - soff + off,
                                 None if b is None else b - soff + off, dd))
            base = so.dflt
            if base == "lazy":
                base = "any" if so.weak else "lazyof"
            if base == "lazyof":
                # unfold: copy remembers where unknown fields come from
                base = "any"
            rngs.append((off, dh, base))
            o.rng = (tuple(rngs) + o.rng)[:32]
            for k, c in sel.items():
                o.cells[k - soff + off] = c
            if so.bag:
                o.bag = o.bag | so.bag
            if so.dflt == "lazy" and not so.weak and n[0] == "c":
                # pointers of the source that were not looked at yet are
                # shared with the copy: materialise them on demand
                o.why = ("copyof", soid, off - soff)
        else:
            o = st.w(oid)
            lo = off if isinstance(off, int) else (off[1] or 0)
            for k in list(o.cells):
                if k >= lo:
                    del o.cells[k]
            o.rng = ((lo, None, "any" if so.dflt != "zero" else "zero"),) + \
                o.rng[:20]
            ptrs = [c[1] for c in so.cells.values() if c[1][0] == "p"]
            o.bag = o.bag | so.bag | frozenset(ptrs)

    # ---- external functions
    def external(self, st, i, name, args):
        nm = name
        if nm.startswith("llvm."):
            if nm.startswith(("llvm.memcpy", "llvm.memmove")):
                nm = "memcpy"
            elif nm.startswith("llvm.memset"):
                nm = "memset"
        if nm in ("malloc", "calloc", "aligned_alloc", "strdup", "strndup"):
            sz = args[-1] if args else None
            if nm == "calloc" and self.norm(st, args[0])[0] != "c":
                sz = None
            return [(self.alloc(st, i, nm, "zero" if nm == "calloc" else
                                "undef", sz), st)]
        if nm == "realloc":
            return self.realloc(st, i, args[0])
        if nm == "free":
            self.free(st, i, args[0])
            return [(UNK, st)]
        if nm in ("memcpy", "memmove"):
            self.memcpy(st, i, args[0], args[1], args[2])
            return [(args[0], st)]
        if nm == "memset":
            self.memset(st, i, args[0], args[1], args[2])
            return [(args[0], st)]
        if nm in ("strlen", "strcmp", "strncmp", "memcmp", "strcpy", "strchr",
                  "memchr", "strstr", "atoi", "strtod", "strtol", "strtoul",
                  "strtoll", "strtoull", "strncpy", "strcat", "strrchr",
                  "strtof"):
            np = 2 if nm in ("strcmp", "strncmp", "memcmp", "strcpy",
                             "strncpy", "strcat", "strstr") else 1
            for k in range(np):
                if nm in ("memcmp", "strncmp", "memchr") and \
                        self.decide(st, "ne", args[2], NULL) is not True:
                    continue
                self.deref(st, i, args[k], nm)
            if nm in ("strcpy", "strncpy", "strcat"):
                r = self.deref(st, i, args[0], nm)
                if r:
                    self.canwrite(st, i, r[0])
                    o = st.w(r[0])
                    lo = r[1] if isinstance(r[1], int) else (r[1][1] or 0)
                    for k in list(o.cells):
                        if k >= lo and o.cells[k][1][0] != "p":
                            del o.cells[k]
                    o.rng = ((lo, None, "any"),) + o.rng[:20]
                return [(args[0], st)]
            if nm == "strlen":
                return [(self.sym(st, 0, BIG), st)]
            if nm in ("strchr", "memchr", "strstr", "strrchr"):
                p = self.norm(st, args[0])
                if p[0] == "p":
                    s2 = st.copy()
                    lo = p[2] if isinstance(p[2], int) else p[2][1]
                    return [(NULL, st), (("p", p[1], ("+", lo)), s2)]
                return [(UNK, st)]
            if nm in ("strtod", "strtol", "strtoul", "strtoll", "strtoull",
                      "strtof"):
                e = self.norm(st, args[1])
                if e[0] == "p":
                    p = self.norm(st, args[0])
                    v = ("p", p[1], ("+", p[2] if isinstance(p[2], int)
                                     else p[2][1])) if p[0] == "p" else UNK
                    self.store(st, i, e, v, 8)
                return [(FLT if nm in ("strtod", "strtof") else self.sym(st),
                         st)]
            return [(self.sym(st, *full(32)), st)]
        if nm in ("vsnprintf", "snprintf"):
            p = self.norm(st, args[0])
            if p[0] == "p":
                r = self.deref(st, i, p, nm)
                if r:
                    self.canwrite(st, i, r[0])
                    o = st.w(r[0])
                    lo = r[1] if isinstance(r[1], int) else (r[1][1] or 0)
                    for k in list(o.cells):
                        if k >= lo and o.cells[k][1][0] != "p":
                            del o.cells[k]
                    o.rng = ((lo, None, "any"),) + o.rng[:20]
            return [(self.sym(st, 0, (1 << 31) - 2), st)]
        if nm == "qsort":
            return [(UNK, st)]
        if nm in ("__assert_fail", "abort", "exit", "__assert"):
            raise Dead()
        if nm.startswith("llvm.va_"):
            p = self.norm(st, args[0]) if args else UNK
            if p[0] == "p":
                o = st.w(p[1])
                o.dflt, o.cells, o.rng = "any", {}, ()
            return [(UNK, st)]
        if nm.startswith("llvm."):
            if i.ty.kind == "int":
                if nm.startswith("llvm.is.fpclass"):
                    return [(self.sym(st, 0, 1), st)]
                return [(self.sym(st, *full(i.ty.bits)), st)]
            return [(FLT if i.ty.kind in ("double", "float") else UNK, st)]
        # default: pure
        return [(self.havocval(st, i.ty), st)]

    def havocval(self, st, ty):
        if ty.kind in ("double", "float", "x86_fp80"):
            return FLT
        if ty.kind == "int":
            return self.sym(st, *full(ty.bits))
        return UNK

    # ---- calls
    def call(self, st, i, fnframe):
        args = [self.op(st, fnframe, a) for a in i.args]
        if i.callee[0] == "asm":
            return [(self.havocval(st, i.ty), st)]
        if i.callee[0] == "fn":
            return self.dispatch(st, i, i.callee[1], args)
        v = self.norm(st, self.op(st, fnframe, i.callee))
        if v[0] == "fn":
            return self.dispatch(st, i, v[1], args)
        if v == NULL:
            self.event("nullderef", i, "call through a NULL function "
                       "pointer", st)
            raise Dead()
        if v[0] == "p" and v[1] in st.objs and \
                st.objs[v[1]].st == "maybe":
            self.event("nullarg", i, "call: %s may be NULL" %
                       st.objs[v[1]].site, st)
        ts = self.tmap[i.fn.name].get(id(i), set())
        for a in ("malloc", "realloc", "free"):
            if a in ts:
                return self.external(st, i, a, args)
        return self.usercall(st, i, args)

    def usercall(self, st, i, args):
        return [(self.havocval(st, i.ty), st)]

    def dispatch(self, st, i, name, args):
        c = self.contracts.get(name)
        if c is not None:
            r = c(self, st, i, args)
            if r is not None:
                return r
        f = self.mod.funcs.get(name)
        if f is None or f.decl:
            return self.external(st, i, name, args)
        if self.use_havoc(f):
            return self.havoc(st, i, f, args)
        return self.invoke(st, i, f, args)

    def use_havoc(self, f):
        h = f._cache.get("havoc")
        if h is None:
            h = f.name in self.noalloc and (
                len(f.insts) > 400 or bool(cfg.loops(f)) or
                len(self.g.reach([f.name])) > 25) and \
                f.name not in self.opts.get("inline", ())
            if self.opts.get("nohavoc") and f.name in self.noalloc:
                h = self.opts["nohavoc"](f)
            f._cache["havoc"] = h
        return h

    def havoc(self, st, i, f, args):
        """a function without allocation: forget what it can write"""
        wr = self.writes_of(f)
        for k, a in enumerate(args):
            a = self.norm(st, a)
            if a[0] != "p":
                continue
            o = st.objs.get(a[1])
            if o is None:
                continue
            if o.st == "freed" and not o.weak:
                self.event("uaf", i, "memory that was freed is passed to %s "
                           "(%s)" % (f.name, o.site), st)
                raise Dead()
            if k in wr and o.st != "null":
                if o.st == "maybe" and o.kind == "heap":
                    self.event("unchecked-alloc", i, "the result of %s is "
                               "passed to %s without a check for NULL" %
                               (o.site, f.name), st)
                if o.const:
                    continue
                o = st.w(a[1])
                lo = a[2] if isinstance(a[2], int) else (a[2][1] or 0)
                for c in list(o.cells):
                    if c >= lo:
                        if o.cells[c][1][0] == "p" and o.kind == "heap":
                            continue
                        del o.cells[c]
                o.rng = ((lo, None, "lazy" if o.kind == "stack" else "any"),)\
                    + o.rng[:20]
        return [(self.havocval(st, i.ty), st)]

    def writes_of(self, f):
        w = f._cache.get("wr")
        if w is None:
            E = self.opts.get("effects")
            if E is None:
                w = set(range(len(f.args)))
            else:
                w = {r[1] for r in E.sum[f.name].writes if r[0] == "p"}
            f._cache["wr"] = w
        return w

    # canonical projection of the state for a call
    def project(self, st, args):
        order, names = [], {}
        syms = {}

        def cv(v):
            k = v[0]
            if k == "p":
                o = v[1]
                if o not in st.objs:
                    return DANG
                if o[0] == "g":
                    if o not in names:
                        names[o] = o
                        order.append(o)
                    return v
                if o not in names:
                    names[o] = ("E", len(names))
                    order.append(o)
                return ("p", names[o], v[2])
            if k == "s":
                f = st.facts.get(v[1])
                if f and f[0] == f[1]:
                    return ("c", f[0])
                if v[1] not in syms:
                    syms[v[1]] = len(syms) + 1
                return ("s", syms[v[1]])
            if k in ("b", "nb"):
                return v[:2] + (cv(v[2]), cv(v[3])) + v[4:]
            if k == "agg":
                return ("agg", tuple(cv(x) for x in v[1]))
            if k == "bag":
                q = cv(("p", v[1], 0))
                return ("bag", q[1])
            return v

        def cvc(v):
            if v[0] == "s":
                f = st.facts.get(v[1])
                if f and f[0] == f[1] == 0:
                    if v[1] not in syms:
                        syms[v[1]] = len(syms) + 1
                    return ("s", syms[v[1]])
            return cv(v)
        cargs = tuple(cv(a) for a in args)
        objs = []
        n = 0
        while n < len(order):
            o = st.objs[order[n]]
            cells = tuple((k, o.cells[k][0], cvc(o.cells[k][1]))
                          for k in sorted(o.cells))
            bag = tuple(cv(x) for x in sorted(o.bag, key=repr))
            objs.append((names[order[n]], o.kind, o.st, o.dflt, o.rng, cells,
                         bag, o.weak, o.const, o.own, o.handle,
                         o.size))
            n += 1
        # lazily named children of projected objects keep their relation by
        # being cells; unfolded array children are found by name
        fs = tuple(sorted((syms[s],) + f for s, f in st.facts.items()
                          if s in syms))
        ts = []
        for k, v in st.terms.items():
            a, b = k[1], k[2] if len(k) > 2 else None
            if a[0] == "s" and a[1] in syms and v[0] == "s" and \
                    (not isinstance(b, tuple) or b[0] == "c"):
                if v[1] in syms or v[1] in st.facts:
                    ts.append((k, v))
        tl = []
        for k, v in sorted(ts, key=lambda x: repr(x[0])):
            kk = (k[0], ("s", syms[k[1][1]])) + k[2:]
            tl.append((kk, cv(v)))
        fs = tuple(sorted((syms[s],) + f for s, f in st.facts.items()
                          if s in syms))
        key = (cargs, tuple(objs), fs, tuple(tl), st.oom)
        return key, names, syms, order

    def invoke(self, st, i, f, args):
        self.stats["calls"] += 1
        key, names, syms, order = self.project(st, args)
        mk = (f.name,) + key
        ex = self.memo.get(mk)
        if ex is None:
            ex = self.solve(mk, f, key)
        else:
            self.stats["memo"] += 1
        if self.cur:
            rd = self.reads[self.cur[-1]]
            rd[mk] = min(rd.get(mk, 1 << 60), self.ver[mk])
        back = {v: k for k, v in names.items()}
        sback = {v: k for k, v in syms.items()}
        out = []
        for n, (ret, sub) in enumerate(ex):
            s = st if n == len(ex) - 1 else st.copy()
            out.append((self.unproject(s, i, ret, sub, back, sback), s))
        if not ex:
            raise Dead()
        return out

    def solve(self, mk, f, key):
        cargs, objs, fs, tl, oom = key
        first = mk not in self.memo
        if first:
            self.memo[mk] = []
            self.mkeys[mk] = (f, key, list(self.stack))
        self.runs[mk] = self.runs.get(mk, 0) + 1
        if self.runs[mk] > 40:
            raise AnalysisBroken("no fixpoint over calls of %s" % f.name)
        self.ver.setdefault(mk, 0)
        s = State()
        mx = 0
        for (nm, kind, ost, dflt, rng, cells, bag, weak, const, own,
             handle, osize) in objs:
            o = Obj(kind, ost, dflt)
            o.size = osize
            o.rng, o.bag, o.weak, o.const = rng, frozenset(bag), weak, \
                const
            o.own, o.handle = own, handle
            o.cells = {k: (z, v) for k, z, v in cells}
            o.site = self.sitename(nm, f)
            s.objs[nm] = o
        for x in fs:
            s.facts[x[0]] = x[1:]
            mx = max(mx, x[0])
        for k, v in tl:
            s.terms[k] = v
        # symbols of the canonical entry are small negative-free ids;
        # remap to fresh ones so they cannot collide
        s, cargs2, smap = self.freshen(s, cargs)
        s.oom = oom
        self.cur.append(mk)
        self.reads[mk] = {}
        self.stack.append(f.name)
        try:
            ex = self.run(f, s, list(cargs2))
        finally:
            self.stack.pop()
            self.cur.pop()
        inv = {v: k for k, v in smap.items()}
        for r, x in ex:
            x.terms["#inv"] = inv
        old = self.memo[mk]
        self.memo[mk] = ex
        if first:
            self.order[mk] = len(self.order)
        if not self.sameexits(old, ex):
            self.ver[mk] += 1
        return ex

    def settle(self):
        """re-analyse calls whose callees' results changed until none did"""
        while True:
            d = [m for m, rd in self.reads.items()
                 if any(self.ver[x] > v for x, v in rd.items())]
            if d == ["root"] or not d:
                return bool(d)
            mk = min((m for m in d if m != "root"),
                     key=lambda m: self.order[m])
            f, key, stk = self.mkeys[mk]
            sv, self.stack = self.stack, list(stk)
            try:
                self.solve(mk, f, key)
            finally:
                self.stack = sv

    def entryrun(self, fn, mkstate):
        """run an entry point to a fixpoint over recursive calls"""
        for k in range(20):
            self.cur = ["root"]
            self.reads["root"] = {}
            st, args = mkstate()
            ex = self.run(fn, st, args)
            self.cur = []
            if not self.settle():
                return ex
        raise AnalysisBroken("no fixpoint at %s" % fn.name)

    def sitename(self, nm, f):
        return "memory passed to %s" % f.name if nm[0] == "E" else str(nm[1])

    def freshen(self, s, cargs):
        smap = {}

        def rv(v):
            if v[0] == "s":
                if v[1] not in smap:
                    smap[v[1]] = newsid()
                return ("s", smap[v[1]])
            if v[0] in ("b", "nb"):
                return v[:2] + (rv(v[2]), rv(v[3])) + v[4:]
            if v[0] == "agg":
                return ("agg", tuple(rv(x) for x in v[1]))
            return v
        a2 = tuple(rv(a) for a in cargs)
        for o in s.objs.values():
            o.cells = {k: (z, rv(v)) for k, (z, v) in o.cells.items()}
        terms = {(k[0], rv(k[1])) + k[2:]: rv(v) for k, v in s.terms.items()}
        s.terms = terms
        s.facts = {smap.setdefault(k, newsid()): v
                   for k, v in s.facts.items()}
        return s, a2, smap

    def sameexits(self, a, b):
        if len(a) != len(b):
            return False
        ka = sorted(self.exitkey(r, x) for r, x in a)
        kb = sorted(self.exitkey(r, x) for r, x in b)
        return ka == kb

    def exitkey(self, r, x):
        return repr(self.shape(x, [r]))

    def unproject(self, st, i, ret, sub, back, sback):
        """import an exit state of a callee into the caller's state"""
        inv = sub.terms.get("#inv", {})
        smap = {}
        for fresh, canon in inv.items():
            if canon in sback:
                smap[fresh] = sback[canon]
        omap = dict(back)
        newn = {}
        for oid in sub.objs:
            if oid in omap:
                continue
            if oid[0] == "g":
                omap[oid] = oid
                continue
            if oid[0] == "lz":
                continue
            nid = ("c", i.fn.name, i.id, self.short(oid))
            omap[oid] = nid
            newn[oid] = nid

        def lzname(oid):
            if oid in omap:
                return omap[oid]
            if oid[0] == "lz":
                n = ("lz", lzname(oid[1]), oid[2])
                omap[oid] = n
                return n
            omap[oid] = oid
            return oid

        def sv(s):
            if s not in smap:
                smap[s] = newsid()
            return smap[s]

        def rv(v):
            k = v[0]
            if k == "p":
                if v[1] in gone:
                    return gone[v[1]]
                if v[1] not in sub.objs:
                    return DANG
                return ("p", lzname(v[1]), v[2])
            if k == "s":
                return ("s", sv(v[1]))
            if k in ("b", "nb"):
                return v[:2] + (rv(v[2]), rv(v[3])) + v[4:]
            if k == "agg":
                return ("agg", tuple(rv(x) for x in v[1]))
            if k == "bag":
                return ("bag", lzname(v[1]))
            return v
        # make room for new names (recency)
        rback = {v: k for k, v in back.items()}
        moved = {}
        gone = {}
        for e, nm in back.items():
            eo = sub.objs.get(e)
            if eo is not None and eo.mv and nm in st.objs and \
                    not st.objs[nm].weak:
                st.w(nm).st = "freed"
                site = st.objs[nm].site
                self.rename_dead(st, nm)
                moved[nm] = site
        for oid, nid in list(newn.items()):
            e = rback.get(nid)
            if e is not None:
                eo = sub.objs.get(e)
                if eo is None or (eo.st in ("freed", "null") and
                                  not eo.weak):
                    # the callee released the instance it was given
                    nul = eo is not None and eo.st == "null"
                    gone[e] = NULL if nul else DANG
                    st.w(nid).st = "null" if nul else "freed"
                    self.rename_dead(st, nid)
                    continue
                nid = newn[oid] = omap[oid] = nid[:3] + (("alt", nid[3]),)
            if nid in st.objs:
                old = st.objs[nid]
                if old.st in ("freed", "null"):
                    self.rename_dead(st, nid)
                elif not self.referenced(st, nid):
                    self.leak(st, nid, i)
                    self.rename_dead(st, nid)
                else:
                    self.summarise(st, nid)
        for oid, o in sub.objs.items():
            if oid in gone:
                continue
            nid = lzname(oid)
            n = o.copy()
            n.cells = {k: (z, rv(v)) for k, (z, v) in o.cells.items()}
            n.bag = frozenset(rv(x) for x in o.bag)
            old = st.objs.get(nid)
            if old is not None:
                n.site = old.site
            if isinstance(n.why, tuple):
                n.why = None
            n.mv = bool(o.mv) and nid[0] == "E"
            st.objs[nid] = n
        for e, nm in back.items():
            if e not in sub.objs and e not in gone and nm in st.objs and \
                    not st.objs[nm].weak and nm[0] != "g":
                st.w(nm).st = "freed"
        for s, f in sub.facts.items():
            if s in smap:
                st.facts[smap[s]] = f
        for k, v in sub.terms.items():
            if k == "#inv":
                continue
            if k[1][0] == "s" and k[1][1] in smap and v[0] == "s" and \
                    v[1] in smap and (len(k) < 3 or not isinstance(
                        k[2], tuple) or k[2][0] == "c"):
                st.terms[(k[0], ("s", smap[k[1][1]])) + k[2:]] = \
                    ("s", smap[v[1]])
        st.oom = sub.oom
        st.trace = st.trace + tuple(t for t in sub.trace
                                    if t not in st.trace)
        if len(st.trace) > 12:
            st.trace = st.trace[-12:]
        r = rv(ret)
        # facts of symbols first seen in the return value
        for s, f in sub.facts.items():
            if s in smap and smap[s] not in st.facts:
                st.facts[smap[s]] = f
        return r

    def short(self, oid, depth=0):
        if depth > 3:
            return "~"
        if oid[0] == "c":
            return ("c", oid[1], oid[2], self.short(oid[3], depth + 1)) \
                if isinstance(oid[3], tuple) else oid
        if oid[0] in ("sum", "alt") and isinstance(oid[1], tuple):
            return (oid[0], self.short(oid[1], depth + 1))
        return oid

    # ---- shape / join
    def constglobal(self, oid):
        if oid[0] != "g":
            return False
        if oid[1] == "#str":
            return True
        gl = self.mod.globals.get(oid[1])
        return bool(gl and gl.const)

    def shape(self, st, extra=(), regs=None, coarse=False):
        """the part of the state that keeps states apart"""
        names = {}
        order = []

        def cv(v):
            k = v[0]
            if k == "p":
                v = self.norm(st, v)
                if v[0] != "p":
                    return cv(v)
                if self.constglobal(v[1]):
                    return "g#"
                if v[1] not in names:
                    names[v[1]] = len(names)
                    order.append(v[1])
                return ("p", v[1])
            if k == "c":
                return ("c", v[1]) if -1 <= v[1] <= 1 and False else "i"
            if k in ("s", "b", "nb"):
                return "i"
            if k == "agg":
                return tuple(cv(x) for x in v[1])
            return k
        def cv0(v, null):
            v = self.norm(st, v)
            if v == NULL and null:
                return "0"
            return cv(v)
        out = [st.oom]
        for v in extra:
            v = self.norm(st, v)
            if v[0] in ("c", "s", "b", "nb"):
                lo, hi = self.rangeof(st, v)
                out.append("-" if hi < 0 else "0" if lo == hi == 0 else
                           "+" if lo > 0 else "i")
            else:
                out.append(cv(v))
        if regs is not None:
            for r in sorted(regs):
                v = st.regs.get(r)
                if v is not None:
                    v = self.norm(st, v)
                    if v[0] == "c" and self._ptrreg(r):
                        out.append((r, "0"))
                    elif v[0] == "c" and self._boolreg(r):
                        out.append((r, v[1]))
                    else:
                        out.append((r, cv(v)))
        n = 0
        for oid in list(order):
            pass
        objs = []
        for oid in sorted(st.objs, key=repr):
            o = st.objs[oid]
            if oid[0] == "g" or oid[0] == "lz" and \
                    self.lzroot(oid)[0] == "g":
                continue
            if o.kind == "lazy" and o.st in ("lazy",):
                cells = ()
                if not o.cells:
                    continue
            if coarse and o.kind not in ("heap", "handle"):
                continue
            cells = []
            for k in sorted(o.cells):
                z, v = o.cells[k]
                if v[0] == "s":
                    continue
                v = self.norm(st, v)
                if z == 8 and (v == NULL or v[0] in ("p", "fn", "dang")):
                    cells.append((k, "0" if v == NULL else cv(v)))
                elif z == 1 and v[0] == "c" and o.size != "arr":
                    cells.append((k, v[1]))
                elif v == UNDEF and o.kind == "stack":
                    cells.append((k, "undef"))
            objs.append((oid, o.st, o.weak, tuple(cells), o.own,
                         tuple(sorted(o.bag, key=repr)),
                         o.dflt if o.kind != "lazy" else ""))
        out.append(tuple(objs))
        return tuple(out)

    def _ptrreg(self, r):
        return self._fty[r] == "ptr"

    def _boolreg(self, r):
        return self._fty[r] == "bool"

    def join(self, e, n, widen):
        """join n into e. Returns None if n adds nothing, else new state"""
        pair = {}
        changed = False
        emap = {}
        made = set()
        J = State()
        J.oom, J.trace = e.oom, e.trace

        def jv(a, b):
            nonlocal changed
            if a == b:
                if a[0] == "s":
                    return js(a, b)
                if a[0] in ("b", "nb"):
                    x = js2(a, b)
                    return x
                return a
            if a[0] in ("s", "c", "b", "nb") and b[0] in ("s", "c", "b",
                                                          "nb"):
                return js(a, b)
            if a[0] == "p" and b[0] == "p" and a[1] == b[1]:
                lo = []
                for q in (a[2], b[2]):
                    lo.append(q if isinstance(q, int) else q[1])
                off = ("+", None if None in lo else min(lo))
                if widen and None not in lo and lo[1] < lo[0]:
                    off = ("+", None)
                r = ("p", a[1], off)
                if r != a:
                    changed = True
                return r
            if a[0] == "p" and b[0] == "p" and self.constglobal(a[1]) and \
                    self.constglobal(b[1]):
                if a[1] != ("g", "#str"):
                    changed = True
                oid = ("g", "#str")
                if oid not in J.objs:
                    o = Obj("global", "live", "any", site="constant data")
                    o.const = True
                    J.objs[oid] = o
                return ("p", oid, ("+", None))
            if a == UNDEF or b == UNDEF:
                # maybe initialised: keep the alarm only if both are undef
                if a != UNK:
                    changed = True
                return UNK
            if a != UNK:
                changed = True
            for q, ss in ((a, e), (b, n)):
                if q[0] == "p":
                    lost.append(q)
            return UNK
        lost = []

        def js2(a, b):
            x, y = jv2(a[2], b[2]), jv2(a[3], b[3])
            return a[:2] + (x, y) + a[4:]

        def jv2(a, b):
            if a[0] == "s":
                return js(a, b)
            return a

        def js(a, b):
            nonlocal changed
            if (a, b) in pair:
                return pair[(a, b)]
            al, ah = rng(e, a)
            bl, bh = rng(n, b)
            if bh > (1 << 63) - 1:
                bh = (1 << 63) - 1 if ah <= (1 << 63) - 1 else 1 << 64
            if ah > (1 << 63) - 1:
                ah = 1 << 64
            al, bl = max(al, -(1 << 63)), max(bl, -(1 << 63))
            anz = nzf(e, a)
            bnz = nzf(n, b)
            if a[0] == "s":
                # a stands for b consistently?
                if a in emap and emap[a] != b:
                    changed = True
                    r = None
                else:
                    emap.setdefault(a, b)
                    if bl >= al and bh <= ah and (bnz or not anz):
                        r = a
                        if a[1] in e.facts:
                            J.facts[a[1]] = e.facts[a[1]]
                        pair[(a, b)] = r
                        return r
                    changed = True
                    r = None
            else:
                if a[0] == "c" and b == a:
                    return a
                changed = True
                r = None
            lo, hi = max(min(al, bl), -(1 << 63)), min(max(ah, bh), 1 << 64)
            if widen:
                if bl < al:
                    lo = 0 if bl >= 0 else (-1 if bl >= -1 else
                                            -(1 << 31) if bl >= -(1 << 31)
                                            else -BIG * 2)
                if bh > ah:
                    hi = (1 << 31) - 1 if bh <= (1 << 31) - 1 else BIG * 2
            s = newsid()
            made.add(s)
            J.facts[s] = (lo, hi, anz and bnz)
            pair[(a, b)] = ("s", s)
            return ("s", s)

        def rng(st, v):
            if v[0] == "c":
                return v[1], v[1]
            if v[0] == "s":
                f = st.facts.get(v[1])
                return (f[0], f[1]) if f else (-BIG * 2, BIG * 2)
            return 0, 1

        def nzf(st, v):
            if v[0] == "c":
                return v[1] != 0
            if v[0] == "s":
                f = st.facts.get(v[1])
                return f[2] or f[0] > 0 or f[1] < 0 if f else False
            return False
        for r, a in e.regs.items():
            b = n.regs.get(r)
            if b is None:
                changed = True
                continue
            J.regs[r] = jv(a, b)
        for oid, a in e.objs.items():
            b = n.objs.get(oid)
            if b is None:
                if a.kind == "lazy" or oid[0] == "g":
                    J.objs[oid] = a     # rediscovered when needed
                    for z, v in a.cells.values():
                        if v[0] == "s" and v[1] in e.facts:
                            J.facts[v[1]] = e.facts[v[1]]
                    continue
                J.objs[oid] = a
                continue
            if a is b and not any(self.symsof(v) and any(
                    e.facts.get(q) != n.facts.get(q) or
                    emap.get(("s", q), ("s", q)) != ("s", q)
                    for q in self.symsof(v)) for z, v in a.cells.values()):
                J.objs[oid] = a
                for z, v in a.cells.values():
                    for q in self.symsof(v):
                        emap.setdefault(("s", q), ("s", q))
                        if q in e.facts:
                            J.facts[q] = e.facts[q]
                continue
            o = a.copy()
            if a.st != b.st:
                ns = "lazy" if "lazy" in (a.st, b.st) and "null" not in \
                    (a.st, b.st) else "maybe"
                if a.kind == "lazy":
                    ns = "lazy"
                if {a.st, b.st} & {"freed"}:
                    ns = "freed" if a.weak else a.st
                if ns != a.st:
                    changed = True
                    o.st = ns
            for k in set(a.cells) | set(b.cells):
                ca, cb = a.cells.get(k), b.cells.get(k)
                if ca is None or cb is None:
                    if ca is not None:
                        # absent in n: its default applies
                        if a.kind in ("lazy", "handle") or a.dflt == "lazy":
                            if ca[1][0] in ("s", "c"):
                                changed = True
                                del o.cells[k]
                                continue
                        vb = self.peek(n, oid, k, ca[0])
                        if vb is None:
                            if o.cells.pop(k, None) is not None:
                                changed = True
                                o.rng = ((k, k + ca[0], "any"),) + o.rng[:30]
                            continue
                        o.cells[k] = (ca[0], jv(ca[1], vb))
                    else:
                        if a.kind in ("lazy", "handle") or a.dflt == "lazy":
                            continue
                        va = self.peek(e, oid, k, cb[0])
                        if va is None:
                            continue
                        v = jv(va, cb[1])
                        if v != va:
                            changed = True
                        o.cells[k] = (cb[0], v)
                    continue
                if ca[0] != cb[0]:
                    del o.cells[k]
                    changed = True
                    o.rng = ((k, k + max(ca[0], cb[0]), "any"),) + o.rng[:30]
                    continue
                o.cells[k] = (ca[0], jv(ca[1], cb[1]))
            if b.bag - a.bag:
                o.bag = a.bag | b.bag
                changed = True
            if a.rng != b.rng:
                r = self.joinrng(o, b)
                if r != o.rng:
                    o.rng = r
                    changed = True
            if a.dflt != b.dflt:
                o.dflt = "any"
                if a.dflt != "any":
                    changed = True
            if b.mv and not a.mv:
                o.mv = True
                changed = True
            if a.own != b.own:
                o.own = a.own or b.own
                if o.own != a.own:
                    changed = True
            J.objs[oid] = o
        for oid, b in n.objs.items():
            if oid not in e.objs:
                if b.kind == "lazy" or oid[0] == "g":
                    continue
                J.objs[oid] = b
                changed = True
        if not changed:
            return None
        # import facts of symbols that came over unchanged
        es = set()
        for v in e.regs.values():
            es.update(self.symsof(v))
        for o in e.objs.values():
            for z, v in o.cells.values():
                es.update(self.symsof(v))

        def imp(v):
            for q in self.symsof(v):
                if q not in J.facts and q not in made:
                    f = e.facts.get(q) if q in es else n.facts.get(q)
                    if f:
                        J.facts[q] = f
        for oid, o in J.objs.items():
            for z, v in o.cells.values():
                imp(v)
        for v in J.regs.values():
            imp(v)
        for k, v in e.terms.items():
            if n.terms.get(k) == v:
                J.terms[k] = v
                for q in self.symsof(v):
                    if q not in J.facts and q in e.facts and q in n.facts:
                        fa, fb = e.facts[q], n.facts[q]
                        J.facts[q] = (min(fa[0], fb[0]), max(fa[1], fb[1]),
                                      fa[2] and fb[2])
        for q in lost:
            for s_ in (J,):
                self.escape(s_, q)
        return J

    def symsof(self, v):
        if v[0] == "s":
            return [v[1]]
        if v[0] in ("b", "nb"):
            return self.symsof(v[2]) + self.symsof(v[3])
        if v[0] == "agg":
            return [q for x in v[1] for q in self.symsof(x)]
        return []

    def flat(self, rng, dflt):
        """overlay list -> sorted disjoint ((lo, hi, d), ...)"""
        pts = sorted({x for lo, hi, d in rng for x in (lo, hi)
                      if x is not None} | {0})
        out = []
        for n, lo in enumerate(pts):
            hi = pts[n + 1] if n + 1 < len(pts) else None
            d = dflt
            for l, h, dd in rng:
                if l <= lo and (h is None or (hi is not None and hi <= h)):
                    d = dd
                    break
            if out and out[-1][2] == d and out[-1][1] == lo:
                out[-1] = (out[-1][0], hi, d)
            else:
                out.append((lo, hi, d))
        return tuple(out)

    def joinrng(self, a, b):
        fa, fb = self.flat(a.rng, a.dflt), self.flat(b.rng, b.dflt)
        if fa == fb:
            return a.rng
        pts = sorted({x for f in (fa, fb) for lo, hi, d in f
                      for x in (lo, hi) if x is not None})

        def at(f, lo):
            for l, h, d in f:
                if l <= lo and (h is None or lo < h):
                    return d
            return a.dflt
        out = []
        ch = False
        for n, lo in enumerate(pts):
            hi = pts[n + 1] if n + 1 < len(pts) else None
            da, db = at(fa, lo), at(fb, lo)
            d = da if da == db else "any"
            ch = ch or d != da
            if out and out[-1][2] == d:
                out[-1] = (out[-1][0], hi, d)
            else:
                out.append((lo, hi, d))
        if not ch:
            return a.rng
        if len(out) > 12:
            lo = min(l for l, h, d in out if d != a.dflt)
            out = [(lo, None, "any")]
        return tuple(out)

    def peek(self, st, oid, off, size):
        """value of a cell that was never written, without unfolding"""
        o = st.objs[oid]
        d = o.dflt
        for lo, hi, dd in o.rng:
            if lo <= off and (hi is None or off + size <= hi):
                d = dd
                break
        if d == "zero":
            return NULL
        if d == "undef":
            return UNDEF
        return None

    # ---- running a function
    def fnty(self, fn):
        t = fn._cache.get("fty")
        if t is None:
            t = {}
            for a, ty in zip(fn.args, fn.argtys):
                t[a] = "ptr" if ty.kind == "ptr" else "bool" if \
                    ty.kind == "int" and ty.bits <= 8 else ty.kind
            for i in fn.insts:
                t[i.id] = "ptr" if i.ty.kind == "ptr" else "bool" if \
                    i.ty.kind == "int" and i.ty.bits <= 8 else i.ty.kind
            fn._cache["fty"] = t
        return t

    def run(self, fn, st, args):
        self.stats["funcs"].add(fn.name)
        live = liveness(fn)
        order = {b.id: n for n, b in enumerate(cfg.rpo(fn))}
        loops = cfg.loops(fn)
        st.regs = dict(zip(fn.args, args))
        import heapq
        work = []
        cnt = 0
        states = {}       # block id -> {shape: state}
        visits = {}
        exits = {}
        pend = set()
        entry_objs = set(st.objs)

        def push(b, s):
            nonlocal cnt
            lv = live[b.id]
            s.regs = {r: v for r, v in s.regs.items() if r in lv}
            if len(b.preds) > 1:
                self.sweep(s, b.insts[0])
                self.normbags(s)
            self.gc(s)
            self._fty = self.fnty(fn)
            bs = states.setdefault(b.id, {})
            coarse = len(bs) > self.MAXSTATES
            k = self.shape(s, (), lv, coarse)
            old = bs.get(k)
            if old is None:
                bs[k] = s
            else:
                vk = (b.id, k)
                visits.setdefault(vk, 1)
                j = self.join(old, s, b.id in loops and visits[vk] > 2
                              or visits[vk] > 6)
                if j is None:
                    return
                visits[vk] += 1
                if visits[vk] > 60:
                    raise AnalysisBroken("no fixpoint in %s" % fn.name)
                # joining may change the shape (statuses)
                bs[k] = j
            if (b.id, k) not in pend:
                pend.add((b.id, k))
                cnt += 1
                heapq.heappush(work, (order[b.id], cnt, b, k))
        push(fn.blocks[0], st)
        while work:
            _, _, b, k = heapq.heappop(work)
            pend.discard((b.id, k))
            self.stats["states"] += 1
            s = states[b.id][k].copy()
            self.block(fn, b, s, push, exits)
        self.last = states
        res = []
        for k in exits:
            ret, s = exits[k]
            res.append((ret, s))
        return res

    def gc(self, st):
        """drop facts and terms nobody refers to"""
        if len(st.facts) < 40 and len(st.terms) < 40:
            return
        used = set()
        for v in st.regs.values():
            used.update(self.symsof(v))
        for o in st.objs.values():
            for z, v in o.cells.values():
                if v[0] in ("s", "b", "nb"):
                    used.update(self.symsof(v))
        st.terms = {k: v for k, v in st.terms.items()
                    if k[1][0] == "s" and k[1][1] in used}
        for v in st.terms.values():
            used.update(self.symsof(v))
        st.facts = {k: v for k, v in st.facts.items() if k in used}

    def block(self, fn, b, st, push, exits, start=0):
        insts = b.insts
        n = start
        L = len(insts)
        while n < L:
            i = insts[n]
            op = i.op
            self.stats["insts"] += 1
            try:
                if op == "phi":
                    pass
                elif op == "load":
                    v = self.load(st, i, self.op(st, fn, i.ops[0]), i.ty)
                    if v[0] == "bag":
                        # any of the stored elements
                        alts = sorted(st.objs[v[1]].bag, key=repr)
                        alts = [a for a in alts
                                if a[0] != "p" or a[1] in st.objs]
                        if len(alts) == 1:
                            v = alts[0]
                        else:
                            for a in alts[1:]:
                                s2 = st.copy()
                                s2.regs[i.id] = a
                                self.block(fn, b, s2, push, exits, n + 1)
                            v = alts[0] if alts else UNK
                    st.regs[i.id] = v
                elif op == "store":
                    v = self.op(st, fn, i.ops[0])
                    if v == ("zero",):
                        v = NULL
                    if i.ops[0][0] == "i" and v == NULL and \
                            i.ops[0][1] == 64:
                        v = self.sym(st, 0, 0)
                    self.store(st, i, self.op(st, fn, i.ops[1]), v,
                               self.opsize(fn, i.ops[0]))
                elif op == "gep":
                    st.regs[i.id] = self.gep(st, i)
                elif op == "alloca":
                    oid = ("a", fn.name, i.id)
                    o = Obj("stack", "live", "undef",
                            site="local of %s:%d" % (fn.name, i.line))
                    st.objs[oid] = o
                    st.regs[i.id] = ("p", oid, 0)
                elif op == "icmp":
                    a = self.op(st, fn, i.ops[0])
                    c = self.op(st, fn, i.ops[1])
                    if a == UNDEF or c == UNDEF:
                        self.event("uninit", i, "an uninitialised value is "
                                   "compared", st)
                        st.regs[i.id] = self.sym(st, 0, 1)
                    else:
                        w = self.opbits(fn, i.ops[0], i.ops[1])
                        r = self.decide(st, i.pred, a, c, w)
                        if r is not None:
                            st.regs[i.id] = ("c", int(r))
                        else:
                            a, c = self.norm(st, a), self.norm(st, c)
                            if a[0] in ("b", "nb") and c == NULL and \
                                    i.pred in ("ne", "eq"):
                                st.regs[i.id] = a if i.pred == "ne" else \
                                    self.neg(a)
                            elif a[0] in ("b", "nb") or c[0] in ("b", "nb"):
                                st.regs[i.id] = self.sym(st, 0, 1)
                            else:
                                st.regs[i.id] = ("b", i.pred, a, c, w)
                elif op == "fcmp":
                    st.regs[i.id] = self.sym(st, 0, 1)
                elif op == "select":
                    c = self.op(st, fn, i.ops[0])
                    r = self.truth(st, c)
                    x = self.op(st, fn, i.ops[1])
                    y = self.op(st, fn, i.ops[2])
                    if r is None:
                        if x == y:
                            st.regs[i.id] = x
                        else:
                            s2 = st.copy()
                            try:
                                self.assume(s2, c, False)
                                s2.regs[i.id] = y
                                self.block(fn, b, s2, push, exits, n + 1)
                            except Dead:
                                pass
                            self.assume(st, c, True)
                            st.regs[i.id] = x
                    else:
                        st.regs[i.id] = x if r else y
                elif op == "call":
                    outs = self.call(st, i, fn)
                    if not outs:
                        return
                    if len(outs) > 1:
                        for v, s2 in outs[:-1]:
                            s2.regs[i.id] = v
                            self.block(fn, b, s2, push, exits, n + 1)
                    v, st = outs[-1]
                    st.regs[i.id] = v
                elif op == "br":
                    if len(i.succs) == 1:
                        self.edge(fn, b, i.succs[0], st, push)
                    else:
                        c = self.op(st, fn, i.ops[0])
                        if c == UNDEF:
                            self.event("uninit", i, "a branch depends on an "
                                       "uninitialised value", st)
                            c = UNK
                        r = self.truth(st, c)
                        if r is not None:
                            self.edge(fn, b, i.succs[0 if r else 1], st, push)
                        else:
                            s2 = st.copy()
                            try:
                                self.assume(s2, c, True)
                                self.edge(fn, b, i.succs[0], s2, push)
                            except Dead:
                                pass
                            try:
                                self.assume(st, c, False)
                                self.edge(fn, b, i.succs[1], st, push)
                            except Dead:
                                pass
                    return
                elif op == "switch":
                    v = self.norm(st, self.op(st, fn, i.ops[0]))
                    w = self.opbits(fn, i.ops[0], i.ops[0])
                    if v == UNDEF:
                        self.event("uninit", i, "a switch depends on an "
                                   "uninitialised value", st)
                    if v[0] == "c":
                        m = (1 << w) - 1
                        for cv, cb in i.cases:
                            if cv == v[1] & m:
                                self.edge(fn, b, cb, st, push)
                                return
                        self.edge(fn, b, i.succs[0], st, push)
                        return
                    for cv, cb in i.cases:
                        s2 = st.copy()
                        try:
                            if v[0] == "s":
                                self.assume(s2, ("b", "eq", v, C(cv, w), w),
                                            True)
                            self.edge(fn, b, cb, s2, push)
                        except Dead:
                            pass
                    try:
                        if v[0] == "s":
                            for cv, cb in i.cases:
                                self.assume(st, ("b", "ne", v, C(cv, w), w),
                                            True)
                        self.edge(fn, b, i.succs[0], st, push)
                    except Dead:
                        pass
                    return
                elif op == "ret":
                    v = self.op(st, fn, i.ops[0]) if i.ops else UNK
                    self.exit(fn, i, v, st, exits)
                    return
                elif op == "unreachable":
                    return
                elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem",
                            "srem", "shl", "lshr", "ashr", "and", "or",
                            "xor"):
                    st.regs[i.id] = self.binop(
                        st, i, self.op(st, fn, i.ops[0]),
                        self.op(st, fn, i.ops[1]))
                elif op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg"):
                    st.regs[i.id] = FLT
                elif op in ("trunc", "zext", "sext", "fptoui", "fptosi",
                            "uitofp", "sitofp", "fptrunc", "fpext",
                            "ptrtoint", "inttoptr", "bitcast", "freeze",
                            "addrspacecast"):
                    st.regs[i.id] = self.cast(
                        st, i, self.op(st, fn, i.ops[0]),
                        self.opbits(fn, i.ops[0], i.ops[0]))
                elif op == "atomicrmw":
                    st.regs[i.id] = self.atomic(st, i, fn)
                elif op == "extractvalue":
                    v = self.op(st, fn, i.ops[0])
                    for x in i.indices:
                        v = v[1][x] if v[0] == "agg" and x < len(v[1]) \
                            else UNK
                    if v == UNK:
                        v = self.havocval(st, i.ty)
                    st.regs[i.id] = v
                elif op == "insertvalue":
                    v = self.op(st, fn, i.ops[0])
                    x = self.op(st, fn, i.ops[1])
                    if len(i.indices) == 1 and i.ty.kind == "struct":
                        l = list(v[1]) if v[0] == "agg" else \
                            [v if v == UNDEF else UNK] * len(i.ty.elems)
                        l[i.indices[0]] = x
                        st.regs[i.id] = ("agg", tuple(l))
                    else:
                        st.regs[i.id] = UNK
                elif op == "fence":
                    pass
                else:
                    st.regs[i.id] = self.havocval(st, i.ty)
            except Dead:
                return
            n += 1

    def atomic(self, st, i, fn):
        p = self.op(st, fn, i.ops[0])
        d = self.op(st, fn, i.ops[1])
        r = self.deref(st, i, p, "atomic update", 4)
        if r is None:
            return self.sym(st)
        oid, off = r
        v = self.loadat(st, oid, off, i.ty.size, i.ty)
        if v == UNDEF:
            self.event("uninit", i, "a reference count is used before it is "
                       "initialised", st)
        o = st.objs[oid]
        if v[0] == "s" and o.kind in ("lazy", "handle") and \
                v[1] in st.facts:
            f = st.facts[v[1]]
            if f[0] < 1:
                st.facts[v[1]] = (1, min(f[1], (1 << 31) - 1), True)
        class T:
            pass
        t = T()
        t.op = {"add": "add", "sub": "sub", "and": "and", "or": "or",
                "xor": "xor"}.get(i.rmw, "add")
        t.ty = i.ty
        nv = self.binop(st, t, v, d)
        if i.rmw == "xchg":
            nv = d
        self.storeat(st, oid, off, nv, i.ty.size)
        self.on_atomic(st, i, oid, off, v, nv)
        return v

    def on_atomic(self, st, i, oid, off, old, new):
        pass

    def opsize(self, fn, o):
        if o[0] == "r":
            D = cfg.defs(fn)
            t = D[o[1]].ty if o[1] in D else fn.argtys[fn.args.index(o[1])]
            return t.size or 8
        if o[0] in ("i", "undef"):
            return max(1, (o[1] + 7) // 8)
        if o[0] == "f":
            return 4 if o[1] == "float" else 8
        if o[0] == "zero":
            return o[1].size
        return 8

    def opbits(self, fn, o, o2):
        for q in (o, o2):
            if q[0] == "i":
                return q[1]
            if q[0] == "r":
                D = cfg.defs(fn)
                t = D[q[1]].ty if q[1] in D else \
                    fn.argtys[fn.args.index(q[1])]
                return t.bits or 64
        return 64

    def edge(self, fn, b, s, st, push):
        vals = []
        for i in s.insts:
            if i.op != "phi":
                break
            for pb, o in i.incoming:
                if pb is b:
                    vals.append((i.id, self.op(st, fn, o)))
                    break
        lp = cfg.loops(fn).get(s.id)
        if lp is not None:
            ivs = induction(fn, s, lp)
            back = b.id in lp
            for n, (r, v) in enumerate(vals):
                d = ivs.get(r)
                if d is None or back:
                    continue
                v = self.norm(st, v)
                if v[0] == "c":
                    w = (1 << 62) if d != 0 else 0
                    ty = self.phity(s, r)
                    lo, hi = full(ty.bits) if ty.kind == "int" else (0, 0)
                    if ty.kind != "int":
                        continue
                    if d > 0:
                        lo = v[1]
                    elif d < 0:
                        hi = v[1]
                    vals[n] = (r, self.sym(st, lo, hi))
                elif v[0] == "p" and isinstance(v[2], int):
                    vals[n] = (r, ("p", v[1], ("+", v[2] if d > 0 else
                                               None)))
            if back:
                self.widenmem(fn, s, st)
        for r, v in vals:
            st.regs[r] = v
        if lp is not None:
            lv = liveness(fn)[s.id]
            st.regs = {r: v for r, v in st.regs.items() if r in lv}
            self.canon(st, fn.name)
        push(s, st)

    def phity(self, s, r):
        for i in s.insts:
            if i.id == r:
                return i.ty

    def widenmem(self, fn, s, st):
        """counters kept in memory: at most three values per loop"""
        seen = self.loopseen.setdefault((fn.name, s.id), {})
        for oid in list(st.objs):
            o = st.objs[oid]
            for k in list(o.cells):
                z, v = o.cells[k]
                v = self.norm(st, v)
                if v[0] != "c" or z < 2:
                    continue
                if v[1] == 0:
                    continue
                sv = seen.setdefault((oid, k), set())
                if v[1] in sv or len(sv) < 3:
                    sv.add(v[1])
                    continue
                o2 = st.w(oid)
                lo = min(sv)
                o2.cells[k] = (z, self.sym(st, min(lo, 0) if lo >= 0 else
                                           full(z * 8)[0], full(z * 8)[1]))

    def exit(self, fn, i, v, st, exits):
        """function return: drop locals, find garbage"""
        if v == UNDEF and fn.ret.kind != "void":
            self.event("uninit", i, "%s returns an uninitialised value" %
                       fn.name, st)
            v = UNK
        st.regs = {-1: v}
        locs = [o for o in st.objs if o[0] == "a" and o[1] == fn.name]
        for o in locs:
            st.objs[o].kind
            del st.objs[o]
        roots = [v]
        for oid in st.objs:
            if oid[0] in ("E", "g", "in"):
                roots.append(("p", oid, 0))
            elif oid[0] == "lz":
                pass
        keep = self.reach(st, roots)
        for oid in list(st.objs):
            if oid in keep:
                continue
            o = st.objs[oid]
            if oid[0] in ("h", "c", "sum") and o.kind in ("heap", "handle") \
                    and o.st in ("live", "maybe"):
                self.leak_at_exit(st, oid, i)
            if oid[0] == "lz" and self.lzroot(oid) in keep:
                continue
            del st.objs[oid]
        self.canon(st, fn.name)
        v = st.regs[-1]
        self.gc(st)
        k = self.shape(st, [v])
        old = exits.get(k)
        if old is None:
            exits[k] = (v, st)
        else:
            j = self.join(old[1], st, False)
            if j is not None:
                exits[k] = (j.regs.get(-1, v), j)

    def lzroot(self, oid):
        while oid[0] == "lz":
            oid = oid[1]
        return oid

    def leak_at_exit(self, st, oid, i):
        self.leak(st, oid, i)


class _T8:
    kind, bits, size = "int", 8, 1


_I8 = _T8()
