"""Nullness analysis: which pointers may be NULL where they are used.

A forward, path-sensitive, context-sensitive dataflow analysis over the IR.
Every value that may be NULL (a missing argument, the result of an allocation,
a child that a constructor may have stored as NULL) splits the state in two;
states of one block are merged when the nullness of the live pointers and the
live truth values agree.  Functions are analysed once per call context (the
nullness and constants of the arguments and of the fields tested before the
call); recursion is solved by iteration.

Values: ("c",n) integer; ("n",origin) NULL; ("p",ident,tag) not NULL;
("m",origin,ident,tag) may be NULL; ("fn",name); ("q",inst,truth) outcome of a
comparison that was not decided; ("t",) anything.
"""
from . import cfg, ext, norm
from .cg import USER

T = ("t",)
HEAPNEW = {"malloc", "calloc", "realloc", "aligned_alloc"}
DEREF = {"memcpy": (0, 1), "memmove": (0, 1), "memset": (0,), "strlen": (0,),
         "memcmp": (0, 1), "strcmp": (0, 1), "strncmp": (0, 1), "strcpy":
         (0, 1), "strchr": (0,), "strdup": (0,), "memchr": (0,), "strcat":
         (0, 1), "strtod": (0,), "strtol": (0,), "qsort": (0,)}
SIZED = {"memcpy": 2, "memmove": 2, "memset": 2, "memcmp": 2, "strncmp": 2,
         "memchr": 2, "qsort": 1}
CONST = ("const",)
LOCAL = ("a!", "u", "h")         # memory of this frame or of one frame above
CAP = 48
# what a function returns that did not succeed
FAILED = (("c", 0), ("c", -1), ("c", 2**32 - 1), ("c", 2**64 - 1))
HEAD = ("struct.head", 2)        # base, type and flags of every object


def root(ident):
    while ident[0] == "ld":
        ident = ident[1]
    return ident


def mentions(ident, x):
    while True:
        if ident == x:
            return True
        if ident[0] != "ld":
            return False
        ident = ident[1]


def depth(ident):
    n = 0
    while ident[0] == "ld":
        ident = ident[1]
        n += 1
    return n


class St:
    __slots__ = ("env", "cells", "oom", "und", "pend", "rej", "rng")

    def __init__(s, env=None, cells=None, oom=False, und=False,
                 pend=frozenset(), rej=None):
        s.env, s.cells, s.oom = env or {}, cells or {}, oom
        s.und = und         # an undecided condition was passed
        s.rng = {}          # register -> signed bounds
        s.rej = rej         # a missing part was tested for
        s.pend = pend       # (field, origin) of NULLs stored by this function

    def copy(s):
        n = St(dict(s.env), dict(s.cells), s.oom, s.und, s.pend, s.rej)
        n.rng = dict(s.rng)
        return n


def live_in(fn):
    """registers live at the entry of each block"""
    L = fn._cache.get("live")
    if L is not None:
        return L
    use, dfn = {}, {}
    for b in fn.blocks:
        u, d = set(), set()
        for i in b.insts:
            if i.op != "phi":
                ops = list(i.ops)
                if i.op == "call":
                    ops.append(i.callee)
                for o in ops:
                    if o and o[0] == "r" and o[1] not in d:
                        u.add(o[1])
            d.add(i.id)
        use[b.id], dfn[b.id] = u, d
    L = {b.id: set() for b in fn.blocks}
    ch = True
    while ch:
        ch = False
        for b in reversed(fn.blocks):
            out = set()
            for s in b.succs:
                ph = {i.id for i in s.insts if i.op == "phi"}
                out |= L[s.id] - ph
                for i in s.insts:
                    if i.op == "phi":
                        for pb, v in i.incoming:
                            if pb is b and v[0] == "r":
                                out.add(v[1])
            n = use[b.id] | (out - dfn[b.id])
            n |= {i.id for i in b.insts if i.op == "phi"}
            if n != L[b.id]:
                L[b.id] = n
                ch = True
    # addresses and conditions are looked up through their operands
    D = cfg.defs(fn)
    clo = {}

    def close(r):
        c = clo.get(r)
        if c is None:
            clo[r] = c = {r}
            d = D.get(r)
            if d is not None and d.op in ("gep", "icmp", "zext", "xor",
                                          "trunc", "freeze", "and", "or"):
                for o in d.ops:
                    if o[0] == "r":
                        c |= close(o[1])
        return c
    for b in L:
        L[b] = set().union(*(close(r) for r in L[b])) if L[b] else set()
    fn._cache["live"] = L
    return L


class Nulls:
    def __init__(self, mod, g, nullable=(), alloc=True, args=True,
                 effects=None, constfns=()):
        self.mod, self.g = mod, g
        self.nullable = set(nullable)   # field keys that may hold NULL
        self.alloc = alloc              # allocations may fail
        self.tmap = {n: {id(i): t for i, t in l} for n, l in g.calls.items()}
        self.events = {}
        self.memo, self.deps, self.inprog = {}, {}, []
        self.oomrets = {}       # function -> results after a failure
        self.okrets = {}        # function -> other results
        self.dirty = set()
        self.stores = {}    # field -> origins of NULLs kept by what succeeded
        self.quiet = 0
        self.effects = effects
        self.constfns = constfns        # leave existing memory unchanged
        self.emptybit, self.nonempty = None, ()
        self.rejects = None  # tests of missing parts that end in NULL
        self.arrs = set()
        self.heads = {}     # field -> head words of the objects that keep NULL
        self.contexts = 0
        self._mods = None
        self.evctx = {}
        self.scc = {}
        for comp in cfg.sccs(sorted(f.name for f in mod.defined()),
                             lambda n: [x for x in g.succ(n)
                                        if x in mod.funcs]):
            for n in comp:
                self.scc[n] = len(comp) > 1 or n in g.succ(n)

    # ---- fields a function may write
    def tkey(self, i):
        """field class of an access from its type-based alias tag (the first
        field of a record has no address computation of its own)"""
        if not i.tbaa:
            return None
        t = self.structs().get("struct." + i.tbaa[0])
        off, k = i.tbaa[1], None
        while t is not None and t.kind == "struct" and t.name:
            k = max((j for j, x in enumerate(t.offs) if x <= off),
                    default=None)
            if k is None:
                return None
            off -= t.offs[k]
            nm, t = t.name, t.elems[k]
        return (nm, k) if k is not None else None

    def fkey(self, fn, o, a=None):
        """class of the memory cell that operand o points to"""
        if o[0] == "r":
            i = cfg.defs(fn).get(o[1])
            if i is not None and i.op == "gep":
                if i.gep[2]:
                    nm, ix = i.gep[2][-1]
                    return (nm, ix)
                if a is None or self.tkey(a) is None:
                    return ("elem", repr(i.elty))
            if i is not None and i.op == "alloca":
                return ("local", fn.name, i.id)
        return a is not None and self.tkey(a) or ("any",)

    @property
    def mods(self):
        if self._mods is None:
            self._mods = self.modfields()
        return self._mods

    def modfields(self):
        m = {f.name: set() for f in self.mod.defined()}
        for f in self.mod.defined():
            for i in f.insts:
                if i.op == "store":
                    k = self.fkey(f, i.ops[1], i)
                    if k[0] != "local":
                        m[f.name].add((k, i.fn and self.opty(f, i.ops[0])))
                elif i.op in ("atomicrmw", "cmpxchg"):
                    m[f.name].add((self.fkey(f, i.ops[0]), "int"))
                elif i.op == "call" and i.callee[0] == "fn" and \
                        i.callee[1].startswith("llvm.mem"):
                    k = i.args[0]
                    d = cfg.defs(f).get(k[1]) if k[0] == "r" else None
                    if d is None or d.op != "alloca":
                        m[f.name].add((("bulk",), "ptr"))
        ch = True
        while ch:
            ch = False
            for n in m:
                for s in self.g.succ(n):
                    if s in m and s not in self.constfns and \
                            not m[s] <= m[n]:
                        m[n] |= m[s]
                        ch = True
        return m

    def opty(self, fn, o):
        if o[0] == "r":
            i = cfg.defs(fn).get(o[1])
            if i is not None:
                return i.ty.kind
            return fn.argtys[o[1]].kind
        return {"null": "ptr", "g": "ptr", "fn": "ptr", "i": "int"}.get(
            o[0], "other")

    # ---- events
    def event(self, kind, i, msg, origin):
        if self.quiet:
            return
        k = (i.fn.name, i.id, origin)
        if k not in self.events:
            self.events[k] = dict(kind=kind, inst=i, msg=msg, origin=origin,
                                  entry=self.entry,
                                  stack=[c[0] for c in self.inprog])

    # ---- values
    def val(self, fn, st, o):
        k = o[0]
        if k == "r":
            return st.env.get(o[1], T)
        if k == "i":
            return ("c", o[2])
        if k == "null":
            return ("n", CONST)
        if k == "f":
            return ("c", 0) if o[2] == 0.0 else T
        if k == "zero":
            return ("c", 0)
        if k == "fn":
            return ("fn", o[1])
        if k == "g":
            return ("p", ("g", o[1], o[2]), None)
        return T

    def join(self, a, b, key):
        if a == b:
            return a
        ka, kb = a[0], b[0]
        if ka == "n" and kb == "n":
            return a if a[1] != CONST else b
        pn = ("n", "p", "m")
        if ka in pn and kb in pn:
            ia = a[2] if ka == "m" else a[1] if ka == "p" else None
            ib = b[2] if kb == "m" else b[1] if kb == "p" else None
            ta = a[3] if ka == "m" else a[2] if ka == "p" else None
            tb = b[3] if kb == "m" else b[2] if kb == "p" else None
            ident = ia if ia == ib else ("phi",) + key
            tag = ta if ka != "n" else tb
            if ka != "n" and kb != "n" and ta != tb:
                tag = ta or tb
            if ka == kb == "p":
                return ("p", ident, tag)
            og = a[1] if ka in "nm" else b[1]
            if kb in "nm" and og == CONST:
                og = b[1]
            return ("m", og, ident, tag)
        return T

    def joinst(self, a, b, blk):
        env = {}
        for r in a.env.keys() & b.env.keys():
            v = self.join(a.env[r], b.env[r], (blk, r))
            if v != T:
                env[r] = v
        cells = {}
        for k in a.cells.keys() & b.cells.keys():
            va, vb = a.cells[k], b.cells[k]
            v = va if va == vb else self.join(va, vb, (blk, k))
            if v != T:
                cells[k] = v
        n = St(env, cells, a.oom, a.und or b.und, a.pend | b.pend,
               a.rej or b.rej)
        for r in a.rng.keys() & b.rng.keys():
            l2, h2 = b.rng[r]
            # a bound that moved is given up
            l = a.rng[r][0] if a.rng[r][0] is not None and \
                l2 is not None and l2 >= a.rng[r][0] else None
            h = a.rng[r][1] if a.rng[r][1] is not None and \
                h2 is not None and h2 <= a.rng[r][1] else None
            if l is not None or h is not None:
                n.rng[r] = (l, h)
        return n

    def kill(self, st, x):
        """instruction redefines ident x: forget older facts about it"""
        for r in [r for r, v in st.env.items()
                  if v[0] in ("p", "m") and
                  mentions(v[1] if v[0] == "p" else v[2], x)]:
            v = st.env[r]
            st.env[r] = ("p", ("old", r), v[2]) if v[0] == "p" else \
                ("m", v[1], ("old", r), v[3])
        for k in list(st.cells):
            if mentions(k[0], x):
                del st.cells[k]
            else:
                v = st.cells[k]
                if v[0] == "p" and mentions(v[1], x):
                    st.cells[k] = ("p", ("oldc", k[0], k[1]), v[2])
                elif v[0] == "m" and mentions(v[2], x):
                    del st.cells[k]

    def killreg(self, st, r):
        """register r is redefined: cells indexed by it are another's"""
        for k in list(st.cells):
            if r in k[2]:
                del st.cells[k]
        for q, v in list(st.env.items()):
            if v[0] == "q" and (v[1] == r):
                del st.env[q]

    def setnull(self, st, v, null):
        """v (an m value) is now known; refine every copy of it"""
        idn = v[2]
        nv = ("n", v[1]) if null else ("p", idn, v[3])
        for r, x in list(st.env.items()):
            if x[0] == "m" and x[2] == idn:
                st.env[r] = nv
        for k, x in list(st.cells.items()):
            if x[0] == "m" and x[2] == idn:
                st.cells[k] = nv

    # ---- memory
    def addr(self, fn, st, o, a=None):
        """(base value, cell key or None, class)"""
        D = cfg.defs(fn)
        off, vars_, cls = 0, [], None
        while o[0] == "r":
            i = D.get(o[1])
            if i is None:
                break
            if i.op == "gep":
                off += i.gep[0]
                vars_ += [v[1] for v, _ in i.gep[1] if v[0] == "r"]
                if cls is None:
                    cls = self.fkey(fn, o, a)
                o = i.ops[0]
                continue
            break
        if cls is None and a is not None:
            cls = self.tkey(a)
        return self.val(fn, st, o), off, tuple(vars_), cls, o

    def bad(self, i, base, what, cls=None):
        """dereference of base: report NULL, refine; False when dead"""
        if base[0] in "nm":
            og = base[1]
            if og[0] == "retu":
                # NULL under a condition that is not about NULLs: only for
                # plain objects, not for elements and indexed children
                f = self.mod.funcs[og[1]]
                if cls is None or cls[0] in ("elem", "any", "local") or \
                        any(t.kind == "int" for t in f.argtys):
                    og = CONST
            if og != CONST:
                self.event("deref", i, what, og)
        return base[0] != "n"

    def deref(self, fn, st, i, o, what):
        base, off, vs, cls, _ = self.addr(fn, st, o,
                                          i if i.op in ("load", "store")
                                          else None)
        if not self.bad(i, base, what, cls):
            return None
        if base[0] == "m":
            self.setnull(st, base, False)
            base = ("p", base[2], base[3])
        return base, off, vs, cls

    def field_origin(self, base, cls):
        tag = base[2] if base[0] == "p" else None
        if cls and cls in self.nullable:
            return ("field",) + cls
        if tag and tag[0] == "arr" and (cls is None or cls[0] == "elem"):
            return tag[1]
        if tag and tag[0] == "fld" and (cls is None or cls[0] == "elem"):
            k = ("[]",) + tag[1:]
            if k in self.nullable:
                return ("field",) + k
        return None

    def guarded(self, i):
        """the field loaded by i is set whenever the object is not empty"""
        g = i.fn._cache.setdefault("guarded", {})
        if i.id not in g:
            w, seen, r = [i.id], set(), False
            U = cfg.uses(i.fn)
            while w:
                x = w.pop()
                if x in seen:
                    continue
                seen.add(x)
                for u in U.get(x, ()):
                    if u.op == "gep" and u.ops[0] == ("r", x) and \
                            u.gep[2] and u.gep[2][0][0] in self.nonempty:
                        r = True
                    elif u.op == "phi":
                        w.append(u.id)
            g[i.id] = r
        return g[i.id]

    def owners(self, ident):
        """the object that an address belongs to and those it hangs off"""
        while ident:
            yield ident
            ident = ident[1] if ident[0] == "ld" else None

    def headword(self, st, ident):
        """what is stored as base, type and flags of the owner, if known"""
        for x in self.owners(ident):
            for k, v in st.cells.items():
                if k[0] == x and len(k[1]) == 3 and k[1][2] == HEAD and \
                        v[0] == "c":
                    return v[1]
        return None

    def kindok(self, st, ident, heads):
        """can the owner be one of the kinds that keep NULLs here"""
        for x in self.owners(ident):
            for k in st.cells:
                if k[0] == x and k[1][0] == "bits" and \
                        not any(h & k[1][1] == k[1][2] for h in heads):
                    return False
        return True

    def flagtest(self, fn, st, p, a, b):
        """a condition on the flags of an object: remember `not empty`"""
        if b[0] != "i":
            return
        D = cfg.defs(fn)
        sh, mask, o, n = 0, None, a, 0
        while o[0] == "r" and n < 10:
            n += 1
            d = D.get(o[1])
            if d is None:
                return
            if d.op == "and" and d.ops[1][0] == "i":
                m = d.ops[1][2] << sh
                mask = m if mask is None else mask & m
            elif d.op == "lshr" and d.ops[1][0] == "i":
                sh += d.ops[1][2]
                mask = None if mask is None else mask << d.ops[1][2]
            elif d.op == "load":
                break
            elif d.op not in ("zext", "trunc", "freeze"):
                return
            o = d.ops[0]
        else:
            return
        want = (p == "ne" and b[2] != 0) or (p == "eq" and b[2] == 0)
        base, off, vs, cls, _ = self.addr(fn, st, d.ops[0], d)
        if base[0] == "p" and not vs and cls == HEAD and p == "eq":
            m = mask if mask is not None else \
                ((1 << (d.ty.bits or 16)) - 1) >> sh << sh
            st.cells[(base[1], ("bits", m, b[2] << sh), ())] = ("c", 1)
        if not self.emptybit or mask != self.emptybit or not want or base[0] != "p" or vs or \
                cls != HEAD:
            return
        st.cells[(base[1], ("ne",), ())] = ("c", 1)

    def load(self, fn, st, i, outs):
        r = self.deref(fn, st, i, i.ops[0], "read")
        if r is None:
            return
        base, off, vs, cls = r
        ident = base[1] if base[0] == "p" else None
        key = (ident, (off, i.ty.kind, cls), vs) if ident else None
        self.killreg(st, i.id)
        if key and key in st.cells:
            v = st.cells[key]
            if cls and cls[0] not in ("elem", "any", "local"):
                if v[0] == "p" and v[2] is None:
                    v = ("p", v[1], ("fld",) + cls)
                elif v[0] == "m" and v[3] is None:
                    v = v[:3] + (("fld",) + cls,)
            self.define(st, i, v)
            outs.append(st)
            return
        if i.ty.kind != "ptr":
            v = T
            if ident and (ident, ("zero",), ()) in st.cells:
                v = ("c", 0)
            self.define(st, i, v)
            outs.append(st)
            return
        nid = ("ld", ident, (off, vs)) if ident and depth(ident) < 4 else \
            ("l", fn.name, i.id)
        self.kill(st, nid)
        if ident and (ident, ("zero",), ()) in st.cells:
            self.define(st, i, ("n", CONST))
            outs.append(st)
            return
        tag = None
        if base[0] == "p" and base[2] and base[2][0] == "sub":
            tag = base[2]
        if cls and cls[0] not in ("elem", "any", "local"):
            tag = ("fld",) + cls
        og = self.field_origin(base, cls)
        unknown = og is None
        if og and ident and (ident, ("ne",), ()) in st.cells and \
                self.guarded(i):
            og = None
        if og and og[0] == "field" and self.heads.get(og[1:]) and \
                not self.kindok(st, ident, self.heads[og[1:]]):
            og = None
        nn = ("p", nid, tag)
        if og is None:
            # where it is tested both ways are possible
            if unknown and self.tested(i):
                self.define(st, i, ("m", CONST, nid, tag))
            else:
                if key:
                    st.cells[key] = nn
                self.define(st, i, nn)
            outs.append(st)
            return
        s2 = st.copy()
        if key:
            st.cells[key] = nn
            s2.cells[key] = ("n", og)
        self.define(st, i, nn)
        self.define(s2, i, ("n", og))
        outs += [st, s2]

    def tested(self, i):
        """is the loaded pointer compared with NULL"""
        g = i.fn._cache.setdefault("tested", {})
        if i.id not in g:
            g[i.id] = any(u.op == "icmp" and ("null",) in u.ops
                          for u in cfg.uses(i.fn).get(i.id, ()))
        return g[i.id]

    def define(self, st, i, v):
        st.rng.pop(i.id, None)
        if v == T:
            st.env.pop(i.id, None)
        else:
            st.env[i.id] = v

    def store(self, fn, st, i):
        r = self.deref(fn, st, i, i.ops[1], "write")
        if r is None:
            return False
        base, off, vs, cls = r
        v = self.val(fn, st, i.ops[0])
        kind = self.opty(fn, i.ops[0])
        ident = base[1] if base[0] == "p" else None
        local = ident and root(ident)[0] in LOCAL
        # kill what it may alias
        head = cls == HEAD
        for k in list(st.cells):
            if k[1][0] in ("zero", "esc", "ne", "bits"):
                if head and k[1][0] in ("ne", "bits") and \
                        (k[0] == ident or not local):
                    del st.cells[k]
                continue
            if k[1][1] != kind or k[0] in self.arrs and k[0] != ident:
                continue
            if ident and k[0] == ident:
                if not vs and not k[2] and k[1][0] != off:
                    continue        # other constant offset, same object
                del st.cells[k]
                continue
            if local and ident[0] in LOCAL and \
                    (ident, ("esc",), ()) not in st.cells:
                continue
            if self.mayalias(st, k, off, vs, cls):
                del st.cells[k]
        if ident:
            key = (ident, (off, kind, cls), vs)
            if vs or ident[0] not in LOCAL:
                self.leaks(st, v)
            if v == T:
                st.cells.pop(key, None)
                if (ident, ("zero",), ()) in st.cells:
                    if kind == "ptr":
                        nid = ("st", fn.name, i.id)
                        st.cells[key] = ("p", nid, None)
                    else:
                        del st.cells[(ident, ("zero",), ())]
            else:
                st.cells[key] = v
        else:
            self.leaks(st, v)
        if kind == "ptr" and v[0] in "nm" and not self.quiet:
            c = cls
            if c is None or c[0] == "elem":
                tg = base[2] if base[0] == "p" else None
                c = ("[]",) + tg[1:] if tg and tg[0] == "fld" else None
            if c and v[1] != CONST:
                st.pend |= {(c, v[1], self.headword(st, ident))}
        return True

    def leaks(self, st, v):
        if v[0] in ("p", "m"):
            x = self.base(v[1] if v[0] == "p" else v[2])
            if x[0] in LOCAL:
                st.cells[(x, ("esc",), ())] = ("c", 1)

    def mayalias(self, st, k, off, vs, cls):
        """may a store to class cls at off change cell k of another object"""
        if k[0][0] in LOCAL and (k[0], ("esc",), ()) not in st.cells:
            return False                # a local; its address did not escape
        if cls and cls[0] not in ("elem", "any"):
            if k[2]:
                return False            # struct field against array element
            c = k[1][2]
            if c and c[0] not in ("elem", "any"):
                return c == cls
            return k[1][0] == off
        if cls and cls[0] == "elem":
            return bool(k[2]) or k[1][0] % 8 == 0 and False
        return k[1][0] == off or bool(k[2])

    def exposed(self, st, vals):
        """local objects a callee can reach"""
        out = set()
        for v in vals:
            if v[0] in ("p", "m"):
                out.add(self.base(v[1] if v[0] == "p" else v[2]))
        for k, v in st.cells.items():
            if k[1] == ("esc",):
                out.add(self.base(k[0]))
            elif v[0] in ("p", "m"):
                x = self.base(v[1] if v[0] == "p" else v[2])
                if x[0] in LOCAL:
                    out.add(x)
        return out

    def base(self, x):
        while x[0] == "off":
            x = x[1]
        return x

    def clobber(self, st, names, vals):
        """forget the cells that a call may change"""
        ex = self.exposed(st, vals)
        mods = set()
        for n in names:
            if n in self.constfns:
                continue
            if self.effects is not None and n in self.effects.sum and \
                    not self.effects.sum[n].writes and \
                    not self.effects.sum[n].gwrites:
                continue
            mods |= self.mods.get(n, {(("any",), "ptr")}
                                  if n == USER else set())
        if not mods:
            return
        bulk = any(k == ("bulk",) for k, _ in mods)
        offs = set()
        elem = {t for k, t in mods if k[0] == "elem"}
        anyk = {t for k, t in mods if k[0] == "any"}
        fields = {}
        for k, t in mods:
            if k[0] not in ("elem", "any", "bulk", "local"):
                fields.setdefault(t, set()).add(k)
        for k in list(st.cells):
            if k[0][0] in LOCAL and k[0] not in ex or k[1] == ("esc",):
                continue
            if k[1][0] in ("ne", "bits"):
                if (("struct.head", 2), "int") in mods:
                    del st.cells[k]
                continue
            if k[1] == ("zero",):
                if bulk or mods:
                    del st.cells[k]
                continue
            t = k[1][1]
            if k[2]:
                if t in elem or bulk:
                    del st.cells[k]
                continue
            c = k[1][2]
            if c and c[0] not in ("elem", "any"):
                if c in fields.get(t, ()):
                    del st.cells[k]
                continue
            if any(self.offof(f) == k[1][0] for f in fields.get(t, ())) or \
                    (k[1][0] == 0 and t in anyk):
                del st.cells[k]

    def offof(self, f):
        t = self.structs().get(f[0])
        if t is None or t.offs is None:
            return 0
        return t.offs[f[1]]

    def structs(self):
        s = getattr(self, "_structs", None)
        if s is None:
            s = {}
            for f in self.mod.defined():
                for i in f.insts:
                    if i.op == "gep" and i.elty is not None:
                        self._sty(i.elty, s)
            self._structs = s
        return s

    def _sty(self, t, s):
        if t.kind == "struct" and t.name and t.name not in s:
            s[t.name] = t
        for e in (t.elems or ()):
            if e.kind in ("struct", "array"):
                self._sty(e, s)

    # ---- calls
    def rename(self, ident, mp):
        path = []
        x = ident
        while True:
            if x in mp:
                y = mp[x]
                for p in reversed(path):
                    y = ("ld", y, p)
                return y
            if x[0] != "ld":
                return None
            if x[2][1]:
                return None            # variable index: not transferable
            path.append(x[2])
            x = x[1]

    def rv(self, v, mp, anon=None):
        if v[0] == "p":
            y = self.rename(v[1], mp)
            return ("p", y or anon or ("x",), v[2])
        if v[0] == "m":
            y = self.rename(v[2], mp)
            return ("m", v[1], y or anon or ("x",), v[3])
        return v

    def rcells(self, cells, mp):
        out = []
        for k, v in cells.items():
            if k[2]:
                continue
            y = self.rename(k[0], mp)
            if y is None:
                continue
            if v[0] in ("p", "n", "c", "m", "fn"):
                if v[0] == "c" and k[1] != ("zero",) and False:
                    continue
                w = self.rv(v, mp, ("ld", y, (k[1][0], ())))
                out.append(((y, k[1], ()), w))
        return sorted(out, key=repr)

    def context(self, fn, vals, st, rec):
        mp, args, loc = {}, [], set()
        for k, v in enumerate(vals):
            if v[0] in ("p", "m"):
                idn = v[1] if v[0] == "p" else v[2]
                if idn not in mp:
                    mp[idn] = ("u" if idn[0] in LOCAL else "a", k)
                if idn[0] in LOCAL:
                    loc.add(mp[idn])
        for k, v in enumerate(vals):
            if v[0] in ("p", "m"):
                args.append(self.rv(v, mp))
            elif v[0] == "c" and rec and v[1] not in (0, 1):
                args.append(T)
            elif v[0] == "q":
                args.append(T)
            else:
                args.append(v)
        rel = self.relevant(fn)
        cells = [c for c in self.rcells(st.cells, mp)
                 if depth(c[0][0]) < (2 if not rec else 1)]
        if rec:
            cells = [c for c in cells if c[1][0] == "n" or
                     c[1] in (("c", 0), ("c", 1)) or
                     c[1][0] in ("p", "fn") and c[0][0] in loc]
        return tuple(args), tuple(cells[:12])

    def relevant(self, fn):
        return True

    def outcomes(self, name, args, cells):
        key = (name, args, cells)
        if self.inprog:
            self.deps.setdefault(key, set()).add(self.inprog[-1])
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = []
        self.contexts += 1
        if self.contexts > 200000:
            raise RuntimeError("too many contexts")
        self.solve(key)
        return self.memo[key]

    def solve(self, key):
        name, args, cells = key
        fn = self.mod.funcs[name]
        self.inprog.append(key)
        try:
            for _ in range(30):
                self.dirty.discard(key)
                out = self.run(fn, args, cells)
                old = self.memo[key]
                if set(out) <= set(old):
                    break
                self.memo[key] = sorted(set(out) | set(old), key=repr)
                for d in self.deps.get(key, ()):
                    self.dirty.add(d)
                if key not in self.dirty:
                    break
        finally:
            self.inprog.pop()

    def settle(self):
        n = 0
        while self.dirty:
            k = self.dirty.pop()
            n += 1
            if n > 100000:
                raise RuntimeError("no fixpoint")
            if k in self.memo:
                self.solve(k)

    # ---- the function body
    def run(self, fn, args, cells):
        # arrays of handles that the caller passed as const: not modified
        old, self.arrs = self.arrs, {
            v[1] for v in args if v[0] == "p" and v[2] and v[2][0] == "arr"}
        try:
            return self.run1(fn, args, cells)
        finally:
            self.arrs = old

    def run1(self, fn, args, cells):
        st = St()
        for r, v in zip(fn.args, args):
            if v != T:
                st.env[r] = v
        st.cells = dict(cells)
        live = live_in(fn)
        table = {}
        work = []
        order = {b: k for k, b in enumerate(cfg.rpo(fn))}
        loops = {h.id if hasattr(h, "id") else h for h in
                 (x[0] if isinstance(x, tuple) else x
                  for x in cfg.loops(fn))}
        import heapq
        seq = [0]

        def push(b, s):
            L = live[b.id]
            s.env = {r: v for r, v in s.env.items() if r in L}
            s.rng = {r: v for r, v in s.rng.items() if r in L}
            key = self.pkey(fn, s)
            t = table.setdefault(b.id, {})
            if len(t) >= CAP and key not in t:
                key = "*"
            if key in t:
                n = self.joinst(t[key], s, b.id)
                if n.env == t[key].env and n.cells == t[key].cells and \
                        n.und == t[key].und and n.pend == t[key].pend and \
                        n.rej == t[key].rej and n.rng == t[key].rng:
                    return
                s = n
            t[key] = s
            seq[0] += 1
            heapq.heappush(work, (order.get(b, order.get(b.id, 0)), seq[0],
                                  b.id, key))
        outs = []
        push(fn.blocks[0], st)
        steps = 0
        while work:
            _, _, bid, key = heapq.heappop(work)
            s = table[bid].get(key)
            if s is None:
                continue
            steps += 1
            if steps > 20000:
                raise RuntimeError("no fixpoint in %s" % fn.name)
            self.block(fn, fn.blocks[bid], s.copy(), push, outs)
        res = []
        for o in outs:
            if o not in res:
                res.append(o)
        return res

    def pkey(self, fn, s):
        k = []
        for r in sorted(s.env):
            v = s.env[r]
            if v[0] in "npm":
                k.append((r, v[0]))
            elif v[0] == "fn":
                k.append((r, v))
            elif v[0] == "c" and self.isbool(fn, r):
                k.append((r, v[1]))
        c = []
        for x in sorted(s.cells, key=repr):
            v = s.cells[x]
            if v[0] == "n" or x[1] == ("esc",):
                c.append(x)
        return tuple(k), tuple(c), s.oom, s.und, bool(s.rej)

    def isbool(self, fn, r):
        i = cfg.defs(fn).get(r)
        if i is None:
            return False
        if i.op == "phi" and i.ty.kind == "int" and i.block.insts[-1].op == \
                "ret" and i.block.insts[-1].ops == [("r", r)]:
            return True             # each constant result by itself
        if i.op == "call" and i.ty.kind == "int":
            return True
        return i.ty.kind == "int" and i.ty.bits <= 8

    def block(self, fn, b, st, push, outs):
        states = [st]
        for i in b.insts:
            if i.op == "phi":
                continue
            if i.op in ("br", "switch", "ret", "unreachable"):
                for s in states:
                    self.term(fn, i, s, push, outs)
                return
            nxt = []
            for s in states:
                self.inst(fn, i, s, nxt)
            if len(nxt) > 1:
                d = {}
                for s in nxt:
                    k = self.pkey(fn, s)
                    if k in d:
                        d[k] = self.joinst(d[k], s, (b.id, i.id))
                    else:
                        d[k] = s
                nxt = list(d.values())
                if len(nxt) > CAP:
                    s0 = nxt[0]
                    for s in nxt[1:]:
                        s0 = self.joinst(s0, s, (b.id, i.id))
                    nxt = [s0]
            states = nxt
            if not states:
                return

    def go(self, fn, b, d, st, push):
        phis = []
        for i in d.insts:
            if i.op != "phi":
                break
            v = next((v for pb, v in i.incoming if pb is b), None)
            if v is not None:
                phis.append((i, self.val(fn, st, v)))
        for i, v in phis:
            self.killreg(st, i.id)
        for i, v in phis:
            self.define(st, i, v)
        push(d, st)

    def term(self, fn, i, st, push, outs):
        b = i.block
        if i.op == "ret":
            v = self.val(fn, st, i.ops[0]) if i.ops else T
            if v[0] == "q" and fn.ret.kind == "int":
                for truth in (True, False):
                    s = st.copy()
                    if self.assume(fn, s, i.ops[0], truth):
                        self.ret(fn, s, ("c", int(truth)), outs)
                return
            self.ret(fn, st, v, outs)
            return
        if i.op == "unreachable":
            return
        if i.op == "br":
            if not i.ops:
                self.go(fn, b, i.succs[0], st, push)
                return
            for k, truth in ((0, True), (1, False)):
                s = st.copy()
                if self.assume(fn, s, i.ops[0], truth):
                    if self.rejects is not None:
                        self.noterej(fn, s, i.ops[0], truth)
                    self.go(fn, b, i.succs[k], s, push)
            return
        v = self.val(fn, st, i.ops[0])
        if v[0] == "c":
            d = next((d for c, d in i.cases if c == v[1]), i.succs[0])
            self.go(fn, b, d, st, push)
            return
        st.und = True
        for c, d in i.cases:
            s = st.copy()
            if i.ops[0][0] == "r":
                s.env[i.ops[0][1]] = ("c", c)
                self.flagtest(fn, s, "eq", i.ops[0], ("i", 64, c))
            self.go(fn, b, d, s, push)
        self.go(fn, b, i.succs[0], st.copy(), push)

    def noterej(self, fn, st, o, truth):
        """a branch was taken because a part is missing"""
        d = cfg.defs(fn).get(o[1]) if o[0] == "r" else None
        if d is None or d.op != "icmp" or \
                d.pred != ("eq" if truth else "ne"):
            return
        a, b = d.ops
        if b != ("null",) or a[0] != "r" or a[1] in fn.args:
            return
        x = self.val(fn, st, a)
        if x[0] == "n" and x[1][0] in ("ret", "retu", "child", "field"):
            st.rej = st.rej or (fn.name, x[1])

    def ret(self, fn, st, v, outs):
            rc = ()
            if v[0] == "q":
                v = T
            if v[0] == "n" and v[1] == CONST:
                v = ("n", ("retu" if st.und else "ret", fn.name))
            elif v[0] in ("p", "m"):
                idn = v[1] if v[0] == "p" else v[2]
                fresh = idn[0] == "h" and (idn, ("esc",), ()) not in st.cells
                mp = {idn: ("ret",)}
                rt = self.rename(idn, {a: a for a in
                                       [(x, k) for k in
                                        range(len(fn.args)) for x in "au"]})
                if rt is None:
                    rc = tuple(self.rcells(st.cells, mp)[:12])
                nid = rt if rt is not None else ("fret",) if fresh else \
                    ("ret",)
                v = ("p", nid, v[2]) if v[0] == "p" else \
                    ("m", v[1], nid, v[3])
            am = {(x, k): (x, k) for k in range(len(fn.args))
                  for x in "au"}
            ac = tuple(c for c in self.rcells(st.cells, am)
                       if c[0][0][0] in "au" and (c[1][0] in "cn" or
                                              c[1][0] == "p" and
                                              len(c[0][1]) == 3 and
                                              c[0][1][2] in self.nullable)
                       )[:12]
            if v[0] == "n" and st.rej and not self.quiet:
                self.rejects.add(st.rej)
            if v[0] != "n" and v not in FAILED and not self.quiet:
                for c, og, h in st.pend:
                    self.stores.setdefault(c, set()).add((og, h))
            outs.append((v, rc + ac, st.oom))
            (self.oomrets if st.oom else self.okrets).setdefault(
                fn.name, set()).add(v if v[0] == "c" else v[:1])

    def assume(self, fn, st, o, truth, depth=0):
        v = self.val(fn, st, o)
        if v[0] == "c":
            return bool(v[1]) == truth
        if v[0] == "q":
            i = cfg.defs(fn)[v[1]]
            t = v[2] == truth
            if i.ops[1][0] != "null":
                st.und = True
            if o[0] == "r" and fn is not None:
                st.env[o[1]] = ("c", int(truth))
            return self.assume_icmp(fn, st, i, t)
        if o[0] == "r":
            d = cfg.defs(fn).get(o[1])
            st.und = True
            if d is not None:
                for p, a, b, ii in norm.atoms(fn, o, truth):
                    if not self.apply(fn, st, p, a, b):
                        return False
                st.env[o[1]] = ("c", int(truth)) if d.ty.kind == "int" and \
                    d.ty.bits == 1 else v
        return True

    def assume_icmp(self, fn, st, i, truth):
        p = i.pred if truth else norm.NEG[i.pred]
        return self.apply(fn, st, p, i.ops[0], i.ops[1])

    def apply(self, fn, st, p, a, b):
        va, vb = self.val(fn, st, a), self.val(fn, st, b)
        if p in ("eq", "ne"):
            self.flagtest(fn, st, p, a, b)
            for x, y, ox in ((va, vb, a), (vb, va, b)):
                if y[0] == "n" and x[0] == "m":
                    self.setnull(st, x, p == "eq")
                    return True
                if y[0] == "n" and x[0] in ("n", "p"):
                    return (x[0] == "n") == (p == "eq")
                if y[0] == "c" and x == T and p == "eq" and ox[0] == "r":
                    st.env[ox[1]] = y
                    return True
            if va[0] == "c" and vb[0] == "c":
                return (va[1] == vb[1]) == (p == "eq")
            return True
        if va[0] == "c" and vb[0] == "c":
            w = max(self.width(fn, a), self.width(fn, b))
            return norm.holds(p, ("i", w, va[1]), ("i", w, vb[1])) is not \
                False
        return self.bound(fn, st, p, a, va, b, vb)

    def bound(self, fn, st, p, a, va, b, vb):
        """signed comparison of a register with a constant"""
        if va[0] == "c":
            a, va, b, vb = b, vb, a, va
            p = {"sgt": "slt", "slt": "sgt", "sge": "sle",
                 "sle": "sge"}.get(p, p)
        if vb[0] != "c" or va != T or a[0] != "r" or \
                p not in ("sgt", "slt", "sge", "sle"):
            return True
        w = self.width(fn, a)
        c = vb[1] & ((1 << w) - 1)
        c = c - (1 << w) if c >> (w - 1) else c
        lo, hi = st.rng.get(a[1], (None, None))
        if p in ("sgt", "sge"):
            c += p == "sgt"
            lo = c if lo is None or c > lo else lo
        else:
            c -= p == "slt"
            hi = c if hi is None or c < hi else hi
        if lo is not None and hi is not None and lo > hi:
            return False
        st.rng[a[1]] = (lo, hi)
        return True

    def width(self, fn, o):
        if o[0] == "i":
            return o[1]
        if o[0] == "r":
            i = cfg.defs(fn).get(o[1])
            t = i.ty if i is not None else fn.argtys[fn.args.index(o[1])]
            return t.bits or 64
        return 64

    def inst(self, fn, i, st, nxt):
        op = i.op
        if op == "load":
            self.load(fn, st, i, nxt)
            return
        if op == "store":
            if self.store(fn, st, i):
                nxt.append(st)
            return
        if op == "call":
            self.call(fn, i, st, nxt)
            return
        self.killreg(st, i.id)
        v = T
        if op == "alloca":
            self.kill(st, ("a!", fn.name, i.id))
            v = ("p", ("a!", fn.name, i.id), None)
        elif op == "gep":
            b = self.val(fn, st, i.ops[0])
            if b[0] == "p":
                if not i.gep[0] and not i.gep[1]:
                    v = b
                else:
                    v = ("p", ("off", b[1], i.gep[0]) if not i.gep[1]
                         else ("gx", fn.name, i.id), b[2])
            elif b[0] == "n":
                v = b if not (i.gep[0] and not i.gep[1]) else b
            elif b[0] == "m":
                v = b
        elif op == "icmp":
            v = self.icmp(fn, st, i)
        elif op == "select":
            c = self.val(fn, st, i.ops[0])
            if c[0] == "c":
                v = self.val(fn, st, i.ops[1 if c[1] else 2])
            else:
                for k, truth in ((1, True), (2, False)):
                    s = st.copy()
                    if self.assume(fn, s, i.ops[0], truth):
                        self.define(s, i, self.val(fn, s, i.ops[k]))
                        nxt.append(s)
                return
        elif op in ("zext", "sext", "trunc", "freeze", "bitcast"):
            v = self.val(fn, st, i.ops[0])
            if v[0] == "c" and op == "sext":
                w = self.width(fn, i.ops[0])
                x = v[1]
                if x >> (w - 1) & 1:
                    x -= 1 << w
                v = ("c", x & ((1 << (i.ty.bits or 64)) - 1))
            elif v[0] == "c" and op == "trunc":
                v = ("c", v[1] & ((1 << i.ty.bits) - 1))
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr"):
            a, b = self.val(fn, st, i.ops[0]), self.val(fn, st, i.ops[1])
            if a[0] == "c" and b[0] == "c":
                x, y = a[1], b[1]
                r = {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y,
                     "or": x | y, "xor": x ^ y, "shl": x << min(y, 64),
                     "lshr": x >> min(y, 64)}[op]
                v = ("c", r & ((1 << (i.ty.bits or 64)) - 1))
            elif op == "xor" and a[0] == "q" and b == ("c", 1):
                v = ("q", a[1], not a[2])
            elif op in ("and", "mul") and (a == ("c", 0) or b == ("c", 0)):
                v = ("c", 0)
        elif op in ("atomicrmw", "cmpxchg"):
            if self.deref(fn, st, i, i.ops[0], "atomic access") is None:
                return
        elif op == "extractvalue":
            a = self.val(fn, st, i.ops[0])
            v = a if a == ("c", 0) else T
        elif op == "insertvalue":
            a = self.val(fn, st, i.ops[0])
            b = self.val(fn, st, i.ops[1])
            if b[0] == "c" and not b[1] and (
                    i.ops[0][0] == "undef" or
                    (a[0] == "c" and not a[1])):
                v = ("c", 0)
        if op in ("atomicrmw",) and i.ty.kind == "ptr":
            v = T
        self.define(st, i, v)
        nxt.append(st)

    def icmp(self, fn, st, i):
        a, b = self.val(fn, st, i.ops[0]), self.val(fn, st, i.ops[1])
        p = i.pred
        if p in ("eq", "ne"):
            if a[0] in ("n", "p", "fn") and b[0] in ("n", "p", "fn"):
                na, nb = a[0] == "n", b[0] == "n"
                if na and nb:
                    return ("c", int(p == "eq"))
                if na != nb:
                    return ("c", int(p == "ne"))
                if a[0] == b[0] == "p" and a[1] == b[1] and \
                        a[1][0] in ("a", "a!"):
                    return ("c", int(p == "eq"))
                return T
            if a[0] == "q" and b == ("c", 0):
                return ("q", a[1], a[2] if p == "ne" else not a[2])
            if a[0] == "c" and b[0] == "c":
                return ("c", int((a[1] == b[1]) == (p == "eq")))
            return ("q", i.id, True)
        if a[0] == "c" and b[0] == "c":
            w = max(self.width(fn, i.ops[0]), self.width(fn, i.ops[1]))
            return ("c", int(bool(norm.holds(p, ("i", w, a[1]),
                                             ("i", w, b[1])))))
        return ("q", i.id, True)

    def call(self, fn, i, st, nxt):
        ts = sorted(self.tmap[fn.name].get(id(i), ()))
        if i.callee[0] == "r":
            v = self.val(fn, st, i.callee)
            if v[0] == "fn":
                ts = [v[1]]
            elif v[0] == "n" and v[1] == CONST:
                return
        elif i.callee[0] == "fn":
            ts = [i.callee[1]]
        vals = [self.val(fn, st, a) for a in i.args]
        self.killreg(st, i.id)
        cid = ("c", fn.name, i.id)
        self.kill(st, cid)
        self.kill(st, ("h", fn.name, i.id))
        vals = [self.val(fn, st, a) for a in i.args]
        if any(t in HEAPNEW for t in ts):
            cid = ("h", fn.name, i.id)
            self.kill(st, cid)
            if not self.alloc:
                self.define(st, i, ("p", cid, None))
                nxt.append(st)
                return
            s2 = st.copy()
            s2.oom = True
            self.define(s2, i, ("n", ("alloc",) + self.site(fn, i)))
            if "calloc" in ts:
                st.cells[(cid, ("zero",), ())] = ("c", 0)
            self.define(st, i, ("p", cid, None))
            nxt += [st, s2]
            return
        defd = [t for t in ts if t in self.mod.funcs and
                not self.mod.funcs[t].decl]
        rest = [t for t in ts if t not in defd]
        for t in rest:
            if not self.external(fn, i, st, t, vals):
                return
        if not defd:
            v = T
            if i.ty.kind == "ptr" and rest:
                t = rest[0]
                if t in ("memcpy", "memmove", "memset", "strcpy", "strcat"):
                    v = vals[0]
                elif t in ("strchr", "strstr", "memchr", "strrchr"):
                    v = T
                else:
                    v = T
            elif i.ty.kind == "int" and rest and \
                    rest[0].startswith("llvm.expect"):
                v = vals[0]
            self.define(st, i, v)
            nxt.append(st)
            return
        for t in defd:
            f = self.mod.funcs[t]
            if len(f.args) > len(vals):
                continue
            rec = self.scc.get(t) and self.scc.get(fn.name)
            a, c = self.context(f, vals[:len(f.args)], st, rec)
            for ret, rc, oom in list(self.outcomes(t, a, c)):
                s = st.copy()
                self.clobber(s, [t], vals)
                hid = ("h", fn.name, i.id)
                isf = ret[0] in "pm" and ret[1 if ret[0] == "p" else 2] == \
                    ("fret",)
                mp = {("ret",): hid if isf else cid, ("fret",): hid}
                for k, v in enumerate(vals):
                    if v[0] == "p":
                        mp[("a", k)] = mp[("u", k)] = v[1]
                    elif v[0] == "m":
                        mp[("a", k)] = mp[("u", k)] = v[2]
                if ret[0] in ("p", "m"):
                    ret2 = self.rv(ret, mp, cid)
                else:
                    ret2 = ret
                bad = False
                for k, v in rc:
                    y = self.rename(k[0], mp)
                    if y is not None:
                        w = s.cells.get((y, k[1], k[2]))
                        if w is not None and (w[0] == "p" and v[0] == "n" or
                                              w[0] == "n" and v[0] == "p" or
                                              w[0] == v[0] == "c" and w != v):
                            bad = True      # not changed by the call
                            break
                        s.cells[(y, k[1], k[2])] = self.rv(
                            v, mp, ("ld", y, (k[1][0], ())))
                if bad:
                    continue
                s.oom = s.oom or oom
                self.define(s, i, ret2)
                nxt.append(s)

    def site(self, fn, i):
        return (fn.name, i.line)

    def external(self, fn, i, st, t, vals):
        b = t
        if t.startswith("llvm."):
            for m in ("memcpy", "memmove", "memset"):
                if t.startswith("llvm." + m):
                    b = m
        if b in DEREF:
            n = SIZED.get(b)
            if n is not None and vals[n] == ("c", 0):
                return True
            for k in DEREF[b]:
                if k < len(vals):
                    v = vals[k]
                    if not self.bad(i, v, "%s of" % b):
                        return False
                    if v[0] == "m":
                        self.setnull(st, v, False)
            if b in ("memcpy", "memmove", "memset"):
                v = vals[0]
                zsrc = b != "memset" and vals[1][0] == "p" and (
                    (vals[1][1], ("zero",), ()) in st.cells or
                    self.zeroglobal(vals[1][1]))
                if v[0] == "p":
                    for k in list(st.cells):
                        if mentions(k[0], v[1]) or k[0][0] != "a!" and \
                                v[1][0] != "a!" and k[0] != v[1] and \
                                v[1][0] != "c":
                            if k[0] == v[1] or mentions(k[0], v[1]) or \
                                    k[1][0] == "zero":
                                del st.cells[k]
                    if zsrc or b == "memset" and vals[1] == ("c", 0):
                        st.cells[(v[1], ("zero",), ())] = ("c", 0)
        elif t == USER:
            self.clobber(st, [USER], vals)
        return True

    def zeroglobal(self, ident):
        if ident[0] != "g" or ident[1] not in self.mod.globals:
            return False
        gl = self.mod.globals[ident[1]]
        return gl.const and gl.init is not None and gl.init[0] == "zero"

    # ---- entry points
    def entry_run(self, fn, args, cells=()):
        self.entry = fn.name
        key = (fn.name, tuple(args), tuple(cells))
        out = self.outcomes(*key)
        self.settle()
        return self.memo[key]
