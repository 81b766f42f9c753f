"""P11: reference counts are exact and atomic.

Works on the modular form of the library (static helpers inlined, public
functions kept as calls), in the atomic and in the TG_NOATOMICS
configuration.  Rules:
 R1 atomic: with atomics every access to a reference count is an atomic
    read-modify-write; a plain store only initialises an object that the same
    function allocated.
 R2 ordering: the drop of a reference has release order; what follows the
    drop of the last one has an acquire fence (or the drop itself acquires).
 R3 release: a function that drops a reference of its argument does so exactly
    once unless the argument is NULL or not on the heap, frees the object on
    every path on which that was the last one, and frees or touches nothing of
    it on any other path.
 R4 clone: a function that takes a reference of its argument takes exactly one
    and returns that argument; clone functions do so, or make a copy, for every
    argument that is not NULL.
 R5 birth: every allocated object has exactly one reference when it is first
    returned, stored or passed on.
 R6 keeping: what is stored as a part of an object is a reference of its own,
    never one borrowed from an argument or an accessor.
 R7 returning: a function that returns an object to its caller returns a
    reference of its own.
 R8 no function frees what it only borrowed.
 R9 a function that makes an object a part of another without taking a
    reference does not free the object as well.
"""
from tgsa import ir, cfg, api, modular, norm, cg, paths
from tgsa.report import Report
from checks.p12 import handle, base

PARTS = {("struct.tg_geom", 1), ("struct.tg_poly", 1)}
ARRAYS = {("struct.multi", 0), ("struct.tg_poly", 3)}
HEADS = {("struct.head", 1), ("struct.head", 2)}
NEWS = {"malloc", "calloc"}
REL = {"release", "acq_rel", "seq_cst"}
ACQ = {"acquire", "acq_rel", "seq_cst"}


def loc(i):
    return "%s:%s" % (i.file or i.fn.file or "tg.c", i.line)


class Fn:
    """what one function does with reference counts"""

    def __init__(self, mod, fn, tmap, types):
        self.mod, self.fn, self.tmap = mod, fn, tmap
        self.D = cfg.defs(fn)
        self.types = types
        self.classes = {}
        self.handles = set()
        self.arrays = {}
        f = api.functions().get(fn.name)
        self.api = f
        self.params = {}
        if f:
            off = len(fn.args) - sum(2 if base(t) == "tg_point" else 1
                                     for _, t in f.params)
            k = off
            for pn, pt in f.params:
                if handle(pt):
                    self.handles.add(fn.args[k])
                    self.params[fn.args[k]] = pt
                elif pt.startswith("const struct tg_") and "(" not in pt \
                        and pt.count("*") + pt.count("[") == 2:
                    self.arrays[fn.args[k]] = pt
                k += 2 if base(pt) == "tg_point" else 1
        for i in fn.insts:
            if i.op == "gep" and i.gep[2] and i.gep[2][-1] in HEADS:
                r, off = self.root(("r", i.id))
                if off in (4, 5) and r is not None:
                    self.handles.add(r)
            if i.op in ("atomicrmw", "cmpxchg"):
                r, off = self.root(i.ops[0])
                if r is not None:
                    self.handles.add(r)
        self.ops = self.collect()

    def root(self, o):
        """(register, constant offset) behind an address"""
        off = 0
        while o[0] == "r":
            i = self.D.get(o[1])
            if i is not None and i.op == "gep":
                if i.gep[1]:
                    return None, 0
                off += i.gep[0]
                o = i.ops[0]
                continue
            return o[1], off
        return None, 0

    def heap(self, i):
        """'new', 'free' or None for a call"""
        if i.op != "call":
            return None
        t = self.tmap.get(id(i), ())
        if i.callee[0] == "fn":
            t = list(t) + [i.callee[1]]
        t = set(t)
        if t & {"malloc", "calloc", "tg_malloc"}:
            return "new"
        if t & {"free", "tg_free"}:
            return "free"
        return None

    def freed(self, i):
        """register whose object a public free function or the heap releases,
        or None"""
        if i.op != "call" or not i.args:
            return None
        if self.heap(i) == "free" or i.callee[0] == "fn" and \
                i.callee[1] in self.types["free"]:
            r, off = self.root(i.args[0])
            return r if off == 0 else None
        return None

    def isnew(self, r):
        i = self.D.get(r)
        return i is not None and self.heap(i) == "new"

    def count(self, i):
        """inc/dec/get/set of the 32-bit word at offset 0 of an object"""
        if i.op in ("atomicrmw", "cmpxchg"):
            r, off = self.root(i.ops[0])
            if off:
                return None
            if i.op == "cmpxchg":
                return ("cas", r, None)
            n = norm.sint(i.ops[1])
            if i.rmw == "add" and n is not None:
                return ("add", r, n)
            if i.rmw == "sub" and n is not None:
                return ("add", r, -n)
            return ("cas", r, None)
        if i.op == "load" and i.ty.kind == "int" and i.ty.bits == 32:
            r, off = self.root(i.ops[0])
            if off == 0 and r in self.handles:
                return ("get", r, None)
        if i.op == "store":
            o = i.ops[0]
            w = o[1] if o[0] == "i" else 0
            if o[0] == "r" and o[1] in self.D and \
                    self.D[o[1]].ty.kind == "int":
                w = self.D[o[1]].ty.bits
            r, off = self.root(i.ops[1])
            if w != 32 or off or r not in self.handles:
                return None
            if o[0] == "i":
                return ("set", r, norm.sint(o))
            a = norm.affine(self.fn, o)
            d = self.D.get(a[0]) if a and a[0] is not None else None
            if d is not None and d.op == "load" and \
                    self.root(d.ops[0]) == (r, 0):
                return ("plain", r, a[1])
            return ("cas", r, None)
        return None

    def collect(self):
        out = []
        for i in self.fn.insts:
            c = self.count(i)
            if c and c[1] is not None:
                out.append((i,) + c)
        return out

    # ---- conditions
    def last(self, rel, blk):
        """the drop rel is known to have dropped the last reference"""
        vals = {rel.id: 1}
        if rel.op == "store":
            a = norm.affine(self.fn, rel.ops[0])
            vals = {a[0]: 1}
            if rel.ops[0][0] == "r":
                vals[rel.ops[0][1]] = 0
        for u in self.fn.insts:
            if u.op in ("add", "sub") and u.ops[0][0] == "r" and \
                    u.ops[0][1] in vals and norm.sint(u.ops[1]) is not None:
                c = norm.sint(u.ops[1])
                vals.setdefault(u.id, vals[u.ops[0][1]] +
                                (c if u.op == "add" else -c))
        for p, a, b, _ in norm.facts(self.fn, blk):
            if a[0] == "r" and a[1] in vals and b[0] == "i":
                n = norm.sint(b)
                if p == "eq" and n == vals[a[1]]:
                    return True
        return False

    def excused(self, b, s, r):
        """the edge is taken only for NULL or for what is not on the heap"""
        t = b.insts[-1]
        if t.op == "switch":
            return s is t.succs[0] and not any(d is s for _, d in t.cases)
        for p, x, y, _ in norm.edge_facts(self.fn, b, s):
            if p == "eq" and x == ("r", r) and y == ("null",):
                return True
            if p == "ne" and self.noheap(x, r) and y[0] == "i" and \
                    norm.sint(y) == 0:
                return True
        return False

    def noheap(self, o, r):
        for _ in range(5):
            if o[0] != "r" or o[1] not in self.D:
                return False
            i = self.D[o[1]]
            if i.op == "load":
                a = i.ops[0]
                d = self.D.get(a[1]) if a[0] == "r" else None
                return d is not None and d.op == "gep" and \
                    bool(d.gep[2]) and d.gep[2][-1] == ("struct.head", 1) \
                    and self.root(a)[0] == r
            o = i.ops[0]
        return False

    def onheap(self, blk, r):
        return any(p == "eq" and self.noheap(a, r) and b[0] == "i" and
                   norm.sint(b) == 0
                   for p, a, b, _ in norm.facts(self.fn, blk))

    def avoid(self, start, after, stops, r=None):
        """a path from start (block, index) to a return that passes none of
        the instructions stops; list of line numbers or None"""
        ids = {i.id for i in stops}
        seen = set()
        work = [(start, after, ())]
        while work:
            b, k, path = work.pop()
            hit = False
            for i in b.insts[k:]:
                if i.id in ids:
                    hit = True
                    break
                if i.op == "ret":
                    return path + (i.line,)
            if hit:
                continue
            for s in b.succs:
                if s.id in seen:
                    continue
                if r is not None and self.excused(b, s, r):
                    continue
                seen.add(s.id)
                work.append((s, 0, path + (b.insts[-1].line,)))
        return None

    def reaches(self, a, b):
        """control can go from instruction a to instruction b"""
        if a.block is b.block and a.idx < b.idx:
            return True
        seen, w = set(), list(a.block.succs)
        while w:
            x = w.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x is b.block:
                return True
            w += x.succs
        return False

    def missed(self, i, u, p):
        """a path from i to p that does not pass u, on which the object that
        i allocated is not known to be NULL"""
        seen, work = set(), [(i.block, i.idx + 1)]
        while work:
            b, k = work.pop()
            stop = False
            for x in b.insts[k:]:
                if x.id == u.id:
                    stop = True
                    break
                if x is p:
                    return True
            if stop:
                continue
            for s in b.succs:
                if s.id not in seen and not self.excused(b, s, i.id):
                    seen.add(s.id)
                    work.append((s, 0))
        return False

    # ---- provenance
    def leaves(self, o, seen=None, at=None):
        """[(operand, block from which it is taken)]"""
        seen = set() if seen is None else seen
        if o[0] == "r":
            i = self.D.get(o[1])
            if i is not None and i.op in ("phi", "select"):
                if i.id in seen:
                    return []
                seen.add(i.id)
                out = []
                if i.op == "phi":
                    for b, v in i.incoming:
                        out += self.leaves(v, seen, b)
                else:
                    for v in i.ops[1:]:
                        out += self.leaves(v, seen, at or i.block)
                return out
            if i is not None and i.op == "gep" and not i.gep[1] and \
                    i.gep[0] == 0:
                return self.leaves(i.ops[0], seen, at)
        return [(o, at)]

    def borrowed(self, o):
        """why operand o is not a reference of its own, or None"""
        if o[0] != "r":
            return None
        i = self.D.get(o[1])
        if i is None:
            pt = self.params.get(o[1])
            if pt and pt.startswith("const"):
                return "argument of type %s" % pt
            return None
        if i.op == "call" and i.callee[0] == "fn":
            f = api.functions().get(i.callee[1])
            if f and handle(f.ret) and f.ret.startswith("const"):
                return "result of %s" % f.name
        if i.op == "load":
            a = i.ops[0]
            d = self.D.get(a[1]) if a[0] == "r" else None
            if d is not None and d.op == "gep" and not d.gep[1] and \
                    d.gep[2] and d.gep[2][-1] in PARTS:
                r, _ = self.root(a)
                pt = self.params.get(r)
                if pt and pt.startswith("const"):
                    return "part of an argument"
            r, seen = a, 0
            while r[0] == "r" and r[1] in self.D and seen < 20 and \
                    self.D[r[1]].op == "gep":
                r, seen = self.D[r[1]].ops[0], seen + 1
            if r[0] == "r" and r[1] in self.arrays:
                return "element of the argument of type %s" % \
                    self.arrays[r[1]]
        return None


def run():
    rep = Report("P11", __doc__)
    for config in ("amalga", "noatomics"):
        decide(rep, config)
    return rep.finish()


def decide(rep, config):
    atomic = config != "noatomics"
    mod = modular.load(config, keep=("tg_malloc", "tg_free", "tg_realloc"),
                       extra=("-fstrict-aliasing",))
    g = cg.CallGraph(mod)
    fns = api.functions()
    types = dict(
        free={n for n in fns if n.endswith("_free")},
        clone={n for n in fns if n.endswith(("_clone", "_copy"))})
    nrel = nret = nnew = 0
    for fn in mod.defined():
        tmap = {id(i): t for i, t in g.calls.get(fn.name, ())}
        F = Fn(mod, fn, tmap, types)
        rep.count("functions")
        key = "%s:%s" % (config, fn.name)
        rel = [(i, r) for i, k, r, n in F.ops
               if k in ("add", "plain") and n is not None and n < 0]
        ret = [(i, r) for i, k, r, n in F.ops
               if k in ("add", "plain") and n is not None and n > 0]
        for i, k, r, n in F.ops:
            # R1
            rep.count("count_accesses")
            ok = k == "add" and abs(n) == 1
            if k == "set" or k == "plain" and F.isnew(r):
                ok = F.isnew(r) or r in F.D and F.D[r].op == "alloca"
            elif not atomic and k in ("plain", "get"):
                ok = k == "get" or abs(n) == 1
            rep.decide(ok, "R1:" + key, loc(i),
                       "%s: %s access to a reference count%s" %
                       (fn.name, {"get": "plain read", "set": "plain write",
                                  "plain": "non-atomic update"}.get(
                                      k, "unexpected"),
                        " (TG_NOATOMICS)" if not atomic else ""))
        roots = {r for _, r in rel}
        for r in roots:
            nrel += 1
            rels = [i for i, q in rel if q == r]
            release(rep, F, r, rels, key, atomic)
        for r in {r for _, r in ret}:
            rets = [i for i, q in ret if q == r]
            if F.isnew(r):
                continue
            nret += 1
            clone(rep, F, r, rets, key)
        for i in fn.insts:
            if F.heap(i) == "new" and i.id in F.handles:
                nnew += 1
                birth(rep, F, i, key)
        if fn.name.endswith("_clone") and F.params:
            r = next(iter(F.params))
            stops = [i for i, q in ret if q == r] + \
                [i for i in fn.insts if i.op == "call" and i.callee[0] == "fn"
                 and i.callee[1] in types["clone"] and
                 i.args and i.args[0] == ("r", r)]
            p = F.avoid(fn.blocks[0], 0, stops, r)
            rep.decide(p is None, "R4:%s:path" % key, loc(fn.insts[0]),
                       "%s returns without taking a reference or making a "
                       "copy (lines %s)" % (fn.name, p),
                       "%s takes a reference on every path" % fn.name)
        if fn.name in types["free"] and F.params:
            r = next(iter(F.params))
            stops = [i for i, q in rel if q == r] + \
                [i for i in fn.insts if i.op == "call" and
                 i.callee[0] == "fn" and i.callee[1] in types["free"] and
                 i.args and i.args[0] == ("r", r)]
            p = F.avoid(fn.blocks[0], 0, stops, r)
            rep.decide(p is None, "R3:%s:path" % key, loc(fn.insts[0]),
                       "%s returns without dropping its reference (lines %s)"
                       % (fn.name, p),
                       "%s drops a reference on every path" % fn.name)
        if atomic:
            keeping(rep, F, key)
    if (nrel < 3 or nret < 3 or nnew < 4) and not rep.violations:
        raise ir.AnalysisBroken(
            "%s: %d releases, %d clones, %d allocations of objects found" %
            (config, nrel, nret, nnew))
    rep.count("release_functions", nrel)
    rep.count("clone_functions", nret)
    rep.count("allocations", nnew)


def release(rep, F, r, rels, key, atomic):
    fn = F.fn
    for i in rels:
        rep.decide(not any(F.reaches(i, j) for j in rels if j is not i),
                   "R3:%s:twice" % key, loc(i),
                   "%s drops its reference twice on one path" % fn.name)
        if r in fn.args:
            rep.decide(F.onheap(i.block, r), "R3:%s:noheap" % key, loc(i),
                       "%s counts references of an object that is not on the "
                       "heap" % fn.name)
        if atomic:
            rep.decide(i.op != "atomicrmw" or i.ordering in REL,
                       "R2:%s:release" % key, loc(i),
                       "%s drops a reference without release order" % fn.name,
                       "%s drops with order %s" % (fn.name, i.ordering))
        else:
            rep.ok()
    own = r in fn.args
    if not own:
        d = F.D.get(r)
        a = F.D.get(d.ops[0][1]) if d is not None and d.op == "load" and \
            d.ops[0][0] == "r" else None
        local = d is not None and (
            d.op == "call" or a is not None and a.op == "alloca" or
            d.op == "phi")
        why = [w for w in (F.borrowed(v) for v, _ in F.leaves(("r", r)))
               if w]
        if not rep.decide(local and not why, "R3:%s:foreign" % key,
                          loc(rels[0]), "%s drops a reference of an object "
                          "that it does not own" % fn.name):
            return
    key0 = key
    found = {}

    class Client:
        ids = {i.id: i for i in rels}

        def track(self, reg):
            return reg in want

        def keep(self, ts):
            return (ts[1],) if ts[1] is not None else ()

        def last(self, ts, st):
            """True, False or None: the drop was that of the last one"""
            f = st.facts.get(ts[1])
            if f is None:
                return None
            if f[0] == "=":
                return f[1] == 1
            if f[0] == "[":
                return None if f[1] <= 1 <= f[2] else False
            return False if 1 in f[1] else None

        def note(self, kind, i, what, ex):
            found.setdefault((kind, i.line, i.file), (i, what, ex.lines()))

        def step(self, i, st, ex):
            ts = st.ts
            if i in relset:
                rid = i.id
                if i.op == "store":
                    rid = norm.affine(fn, i.ops[0])[0]
                order = i.ordering if i.op == "atomicrmw" else None
                st.ts = ("dropped", rid, atomic and order == "release")
                return [st]
            if i.op == "fence" and i.ordering in ACQ and ts[0] == "dropped":
                st.ts = (ts[0], ts[1], False)
                return [st]
            touch = None
            if i.op in ("load", "store"):
                q, _ = F.root(i.ops[0 if i.op == "load" else 1])
                if q == r and not F.count(i) and ts[0] != "pre":
                    touch = "uses the object"
            elif i.op == "call":
                x = F.freed(i)
                if x is not None and (own or x == r) and \
                        not (x == r and F.heap(i) != "free"):
                    touch = "frees memory"
                elif ts[0] != "pre" and any(F.root(a)[0] == r
                                            for a in i.args):
                    touch = "passes on the object"
            if touch is None:
                return None
            if ts[0] == "freed":
                self.note("after", i, touch + " after freeing it", ex)
            elif ts[0] == "pre" or self.last(ts, st) is not True:
                self.note("early", i, touch + " although it may not have "
                          "dropped the last reference", ex)
            elif ts[2]:
                self.note("acquire", i, touch + " after dropping the last "
                          "reference without an acquire fence", ex)
            else:
                rep.ok("%s: line %s runs only after the last reference was "
                       "dropped" % (fn.name, i.line))
            if touch == "frees memory" and F.freed(i) == r:
                st.ts = ("freed", ts[1], False)
            return [st]

        def ret(self, i, st, v, ex):
            ts = st.ts
            if ts[0] != "dropped":
                return
            l = self.last(ts, st)
            if l is None:
                self.note("nolast", rels[0], "does not tell the last "
                          "reference from others", ex)
            elif l:
                self.note("leak", i, "drops the last reference and does not "
                          "free the object", ex)

    relset = set(rels)
    want = {i.id if i.op != "store" else norm.affine(fn, i.ops[0])[0]
            for i in rels}
    for i in fn.insts:          # what decides about the drop
        if i.op in ("load", "phi", "select") and i.ty.kind == "int" and \
                i.ty.bits <= 8:
            want.add(i.id)
    n = paths.Explorer(fn, Client()).run(("pre", None, False))
    rep.count("path_states", n)
    for (kind, _, _), (i, what, lines) in sorted(
            found.items(), key=lambda x: str(x[0])):
        rep.bad("R3:%s:%s" % (key0, kind), loc(i),
                "%s %s (lines %s)" % (fn.name, what, lines))
    if not found:
        rep.ok("%s: %d path states" % (fn.name, n))


def clone(rep, F, r, rets, key):
    fn = F.fn
    for i in rets:
        if not rep.decide(r in fn.args, "R4:%s:foreign" % key, loc(i),
                          "%s takes a reference of an object that is neither "
                          "new nor its argument" % fn.name):
            continue
        rep.decide(not any(F.reaches(i, j) for j in rets), "R4:%s:twice" %
                   key, loc(i), "%s takes two references" % fn.name)
        rep.decide(F.onheap(i.block, r), "R4:%s:noheap" % key, loc(i),
                   "%s counts references of an object that is not on the heap"
                   % fn.name)
    for t in fn.insts:
        if t.op != "ret":
            continue
        if not t.ops:
            rep.bad("R4:%s:kept" % key, loc(t), "%s takes a reference and "
                    "does not return it" % fn.name)
            continue
        for v, b in F.leaves(t.ops[0]):
            blk = b or t.block
            dom = [i for i in rets if i.block is blk or
                   cfg.dominates(fn, i.block, blk)]
            may = [i for i in rets if i.block is blk or
                   F.reaches(i, blk.insts[-1])]
            if v == ("r", r):
                rep.decide(len(dom) == 1, "R4:%s:count" % key, loc(t),
                           "%s returns its argument with %d references taken "
                           "for it" % (fn.name, len(dom)),
                           "%s takes one reference for the result" % fn.name)
            else:
                rep.decide(not may, "R4:%s:lost" % key, loc(t),
                           "%s takes a reference and returns something else" %
                           fn.name)


def birth(rep, F, i, key):
    fn, r = F.fn, i.id
    ev, pub = [], []
    for u in fn.insts:
        c = F.count(u)
        if c and c[1] == r:
            if c[0] != "get":
                ev.append((u, c[0], c[2]))
            continue
        if u.op == "call" and u.callee[0] == "fn" and \
                u.callee[1].startswith("llvm.mem"):
            if F.root(u.args[0]) == (r, 0):
                z = u.callee[1].startswith("llvm.memset") and \
                    u.args[1][0] == "i"
                ev.append((u, "set", u.args[1][2] * 0x1010101
                           if z else None))
            continue
        if u.op == "call" and any(F.root(a) == (r, 0) for a in u.args) and \
                F.heap(u) != "free":
            pub.append(u)
        elif u.op == "store" and F.root(u.ops[0]) == (r, 0) and \
                u.ops[0][0] == "r":
            pub.append(u)
        elif u.op == "ret" and u.ops:
            for v, b in F.leaves(u.ops[0]):
                if v == ("r", r):
                    pub.append((b.insts[-1] if b is not None else u))
    if not pub:
        return
    n = None
    order = sorted(ev, key=lambda e: len(
        [1 for x in ev if x[0] is not e[0] and
         cfg.inst_dominates(x[0], e[0])]))
    for u, k, c in order:
        n = c if k == "set" else None if k == "cas" or n is None else n + c
    for p in pub:
        bad = [u for u, _, _ in ev if F.missed(i, u, p)]
        if not rep.decide(not bad, "R5:%s:late" % key, loc(p),
                          "%s passes on a new object before its reference "
                          "count is set" % fn.name):
            return
    rep.decide(n == 1, "R5:%s:%s" % (key, len(ev)), loc(i),
               "%s makes an object with %s references" %
               (fn.name, "an unknown number of" if n is None else n),
               "%s:%s makes an object with one reference" %
               (fn.name, i.line))


def source(F, v):
    """what names the reference that operand v holds: a register, or the
    local variable from which it is loaded"""
    if v[0] != "r":
        return None
    i = F.D.get(v[1])
    if i is not None and i.op == "load" and i.ops[0][0] == "r":
        a = F.D.get(i.ops[0][1])
        if a is not None and a.op == "alloca":
            return ("var", a.id)
    return ("reg", v[1])


def renews(F, i, s):
    """instruction i puts another reference into s"""
    if s[0] == "reg":
        return i.id == s[1]
    if i.op == "store":
        return i.ops[1] == ("r", s[1])
    return i.op == "call" and ("r", s[1]) in i.args


def flows(F, i, s, at, j, k, at2):
    """control can go from i, at which s is stored (through the end of block
    at), to j, where s is freed (through the end of block at2), without s
    being given another value"""
    seen = set()
    work = [(i.block, i.idx + 1, at2 is None)]
    while work:
        b, n, ok = work.pop()
        stop = False
        for x in b.insts[n:]:
            if x is j and ok:
                return True
            if renews(F, x, s):
                stop = True
                break
        if stop:
            continue
        if at2 is not None:
            ok = b is at2 or ok and s[0] == "var"
        for d in b.succs:
            if (d.id, ok) not in seen:
                seen.add((d.id, ok))
                work.append((d, 0, ok))
    return False


def twice(rep, F, key, kept):
    """R9: what was given away as a part is not freed by the giver as well"""
    for i, v, at in kept:
        s = source(F, v)
        if s is None:
            continue
        own = True
        for j in F.fn.insts:
            if j.op != "call" or F.freed(j) is None or F.heap(j):
                continue
            for w, at2 in F.leaves(("r", F.freed(j))):
                if source(F, w) == s and flows(F, i, s, at, j, w, at2):
                    own = False
        rep.decide(own, "R9:%s" % key, loc(i),
                   "%s makes an object a part of another and frees it as "
                   "well" % F.fn.name,
                   "%s:%s is not freed by the giver" % (F.fn.name, i.line))


def keeping(rep, F, key):
    fn = F.fn
    kept = []
    arr = set()
    for i in fn.insts:
        if i.op == "store" and i.ops[0][0] == "r":
            d = F.D.get(i.ops[1][1]) if i.ops[1][0] == "r" else None
            if d is not None and d.op == "gep" and d.gep[2] and \
                    not d.gep[1] and d.gep[2][-1] in ARRAYS or \
                    i.tbaa == ("multi", 0):
                arr.add(i.ops[0][1])
        if i.op == "load":
            d = F.D.get(i.ops[0][1]) if i.ops[0][0] == "r" else None
            if d is not None and d.op == "gep" and d.gep[2] and \
                    not d.gep[1] and d.gep[2][-1] in ARRAYS or \
                    i.tbaa == ("multi", 0):
                arr.add(i.id)
    for i in fn.insts:
        if i.op == "store":
            a = i.ops[1]
            d = F.D.get(a[1]) if a[0] == "r" else None
            v = i.ops[0]
            if d is None or v[0] != "r" or v[1] in F.D and \
                    F.D[v[1]].ty.kind != "ptr":
                continue
            part = d.op == "gep" and d.gep[2] and not d.gep[1] and \
                d.gep[2][-1] in PARTS
            if d.op == "gep" and not part:
                part = d.ops[0][0] == "r" and d.ops[0][1] in arr
            if not part and not (a[0] == "r" and a[1] in arr):
                continue
            q, _ = F.root(a)
            if q in F.D and F.D[q].op == "alloca":
                continue                # a view that lives on the stack
            for v, at in F.leaves(i.ops[0]):
                kept.append((i, v, at))
                why = F.borrowed(v)
                e = F.D.get(v[1]) if v[0] == "r" else None
                if e is not None and e.op == "load" and why is None:
                    q = F.D.get(e.ops[0][1]) if e.ops[0][0] == "r" else None
                    if e.ops[0][0] == "r" and (
                            e.ops[0][1] in arr or q is not None and
                            q.op == "gep" and q.ops[0][0] == "r" and
                            q.ops[0][1] in arr):
                        why = "element of another or the same object"
                rep.decide(why is None, "R6:%s" % key, loc(i),
                           "%s keeps a part without taking a reference: %s" %
                           (fn.name, why), "%s:%s keeps an own reference" %
                           (fn.name, i.line))
            rep.count("stores_of_parts")
        elif i.op == "ret" and F.api and handle(F.api.ret) and \
                not F.api.ret.startswith("const"):
            rep.count("returned_objects")
            got = {r for j, k, r, n in F.ops
                   if k in ("add", "plain") and n and n > 0}
            for v, _ in F.leaves(i.ops[0]):
                why = F.borrowed(v)
                if v[0] == "r" and v[1] in got:
                    why = None
                rep.decide(why is None, "R7:%s" % key, loc(i),
                           "%s returns what its caller will free, without "
                           "taking a reference: %s" % (fn.name, why),
                           "%s returns an own reference" % fn.name)
        elif i.op == "call":
            x = F.freed(i)
            if x is None:
                continue
            for v, _ in F.leaves(("r", x)):
                why = F.borrowed(v)
                rep.decide(why is None, "R8:%s" % key, loc(i),
                           "%s frees what it only borrowed: %s" %
                           (fn.name, why))
            rep.count("free_calls")
    twice(rep, F, key, kept)
