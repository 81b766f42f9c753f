"""P21: free, copy and memory size cover every owned block.

For each kind of object (every geometry type, boxed points, lines, rings,
polygons), tgsa/own.py runs the public *_free, *_copy and *_memsize functions
over access paths: all their paths, each loop summed up over its range.
A part is an access path that one of the three frees, duplicates or measures.
Rules:
 F  a path of the free function that ends the object frees each part once,
    unless it is known to be NULL there, for arrays of parts every element,
    and nothing else; a path that keeps it depends on the reference count;
    nothing is used after it was freed or freed twice;
 C  a successful path of the copy function gives the copy, for each part that
    is not NULL, a block of its own, filled from the whole of the original's,
    or the copies of the parts; the plain members equal the original's; a
    pointer that was copied with its block and stays in the block's memory is
    moved along (layout of the structures from clang);
 M  on each path of the memory size function, the result equals the sum of
    the sizes of the blocks that the copy allocates and of the memory sizes
    of the parts it copies, under the same conditions.
"""
from tgsa import api, ir, layout, own
from tgsa.own import L1, K, P, add, const, leaves, only, show, subst
from tgsa.report import Report

A0 = L1(("A", 0))
NAMES = ("geom", "poly", "ring", "line")
GEOM = {1: "Point", 2: "LineString", 3: "Polygon", 4: "MultiPoint",
        5: "MultiLineString", 6: "MultiPolygon", 7: "GeometryCollection"}
KINDS = [("GEOM %s" % GEOM[t], 5, t, "tg_geom", ("geom",)) for t in GEOM] + [
    ("boxed point", 1, 1, "boxed_point", ("geom",)),
    ("line", 2, 2, "tg_ring", ("line", "ring", "geom")),
    ("ring", 3, 3, "tg_ring", ("ring", "poly", "geom")),
    ("polygon", 4, 3, "tg_poly", ("poly", "geom"))]
ASSERT = r"""
#include "%s/tg.c"
_Static_assert(BASE_POINT==1 && BASE_LINE==2 && BASE_RING==3 && BASE_POLY==4
    && BASE_GEOM==5 && TG_POINT==1 && TG_LINESTRING==2 && TG_POLYGON==3 &&
    TG_MULTIPOINT==4 && TG_MULTILINESTRING==5 && TG_MULTIPOLYGON==6 &&
    TG_GEOMETRYCOLLECTION==7, "kinds");
"""


def load():
    pub = api.functions()
    fam = {k: {"tg_%s_%s" % (n, k) for n in NAMES} & set(pub)
           for k in ("free", "copy", "memsize")}
    if any(len(v) != 4 for v in fam.values()):
        raise ir.AnalysisBroken("functions missing: %s" % fam)
    keep = sorted(set().union(*fam.values())) + ["tg_malloc", "tg_free",
                                                 "tg_realloc"]
    # helpers are inlined, also those in a cycle with one of these functions
    m0 = ir.load("amalga", passes="internalize,globaldce", opt=(
        "-internalize-public-api-list=" + ",".join(keep),))
    direct = {f.name: {i.callee[1] for i in f.insts if i.op == "call" and
                       i.callee[0] == "fn"} - set(keep)
              for f in m0.defined()}
    inl = [n for n in direct if n not in keep and not cyclic(n, direct)]
    mod = ir.load("amalga", passes="forceattrs,internalize,globaldce,"
                  "always-inline," + ir.NORM,
                  opt=tuple("-force-attribute=%s:noinline" % n for n in keep)
                  + tuple("-force-attribute=%s:alwaysinline" % n
                          for n in inl) +
                  ("-inline-threshold=2000",
                   "-internalize-public-api-list=" + ",".join(keep)))
    return mod, fam


def cyclic(n, direct):
    seen, work = set(), [n]
    while work:
        for t in direct.get(work.pop(), ()):
            if t == n:
                return True
            if t not in seen:
                seen.add(t)
                work.append(t)
    return False


class Kind:
    def __init__(self, rep, mod, fam, lay, name, base, ty, st, who):
        self.rep, self.mod, self.fam, self.lay = rep, mod, fam, lay
        self.name, self.struct = name, st
        self.word = {4: 0, 5: base | ty << 4}
        self.who = who
        self.freeE, self.copyE = {}, {}

    def at(self, fn):
        f = self.mod.funcs[fn]
        return "%s:%s" % ("tg.c", f.line or "?")

    def paths(self, fn):
        r = own.Run(self.mod, self.mod.funcs[fn], self.word, self.fam)
        out = r.go()
        self.rep.count("paths", len(out))
        if not out:
            raise ir.AnalysisBroken("%s: no path for a %s" % (fn, self.name))
        return out

    def ok(self, cond, rule, fn, what, more=""):
        self.rep.decide(cond, "%s:%s:%s:%s" % (rule, fn, self.name, more),
                        self.at(fn), "%s of a %s: %s" % (fn, self.name, what),
                        "%s %s %s %s" % (rule, fn, self.name, more))

    # delegation: the path hands the object on to another member of the family
    def delegates(self, st, v, fam):
        if fam == "free":
            return any(e[0] == "free" and e[1] != "tg_free" and e[2] == A0
                       for e in st.ev) and len(st.ev) == 1
        if fam == "copy":
            return len(st.ev) == 1 and st.ev[0][0] == "copy" and \
                st.ev[0][2] == A0 and v == L1(st.ev[0][3])
        x = only(v)
        return x is not None and x[0] == "C" and x[2] == (A0,)

    def run(self):
        F, C, M = {}, {}, {}
        for w in self.who:
            for fam, d in (("free", F), ("copy", C), ("memsize", M)):
                fn = "tg_%s_%s" % (w, fam)
                ps = self.paths(fn)
                deleg = [self.delegates(st, v, fam) for st, v in ps]
                for st, v in ps:
                    for i, why in st.bad:
                        self.ok(False, "use", fn, "%s (%s)" %
                                (why, "%s:%s" % (i.file, i.line)), i.line)
                if all(deleg):
                    self.rep.count("delegations", 1)
                    continue
                d[fn] = [p for p, x in zip(ps, deleg) if not x]
        if not (F and C and M):
            raise ir.AnalysisBroken("%s: only delegation" % self.name)
        self.slots(F, C, M)
        for fn in F:
            self.freed(fn, F[fn])
        for fn in C:
            self.copied(fn, C[fn])
        for fn in M:
            self.measured(fn, M[fn], [p for c in C for p in C[c]])

    # what the object owns
    def slots(self, F, C, M):
        S, E = {}, {}

        def put(d, p, fam, fn):
            if p != A0:
                d.setdefault(p, {}).setdefault(fam, set()).add(fn)
        for fn in F:
            for st, v in F[fn]:
                for e in st.ev:
                    if e[0] == "free":
                        put(S, e[2], "free", e[1])
                    elif e[0] == "each" and e[1] == "free" and e[3]:
                        put(E, e[3], "free", e[2])
        for fn in C:
            for st, v in C[fn]:
                if const(v) == 0:
                    continue
                for e in st.ev:
                    if e[0] == "copy":
                        put(S, e[2], "copy", e[1])
                    elif e[0] == "each" and e[1] == "copy" and e[3]:
                        put(E, e[3][1], "copy", e[2])
                for k, w in st.whole.items():
                    if w[0] == "copy" and k[0] == "F" and w[1] != A0 and \
                            only(w[1]) is not None and \
                            only(w[1])[0] == "L":
                        put(S, w[1], "copy", "block")
        for fn in M:
            for st, v in M[fn]:
                for m, k in v:
                    for x in m:
                        if x[0] == "C" and x[1] in self.fam["memsize"]:
                            put(S, x[2][0], "memsize", x[1])
                        elif x[0] == "sum":
                            put(E, x[2], "memsize", x[1])
        self.S = {p for p in S if only(p) is not None and
                  only(p)[0] == "L"}
        self.odd = {p for p in S if p not in self.S}
        self.E = set(E)
        self.counts = {}        # member -> the arrays whose length it is
        for b, stride, T in self.E:
            self.counts.setdefault(T, set()).add(b)
        for fn in C:
            for st, v in C[fn]:
                sz = {e[1]: e[2] for e in st.ev if e[0] == "alloc"}
                for k, w in st.whole.items():
                    if w[0] == "copy" and k in sz and w[1] in self.S:
                        for y in leaves(sz[k]):
                            if L1(y) not in {e[2] for e in self.E}:
                                self.counts.setdefault(L1(y),
                                                       set()).add(w[1])
        self.rep.count("parts", len(self.S) + len(self.E))
        for p, d in list(S.items()) + list(E.items()):
            pre = {n.rsplit("_", 1)[0] for f in d.values() for n in f
                   if n not in ("tg_free", "block")}
            self.rep.decide(len(pre) <= 1, "kind:%s:%s" %
                            (self.name, show(p) if p in S else show(p[0])),
                            "tg.c", "%s: a part is handled as different "
                            "kinds: %s" % (self.name, sorted(pre)))

    def gone(self, st, p):
        """the part cannot be there: it, or what holds it, is NULL"""
        if st.isnull(p) is True:
            return True
        x = only(p)
        if x is not None and x[0] == "L":
            for y in leaves(x[1]):
                if y[0] == "L" and self.gone(st, L1(y)):
                    return True
        return False

    def empty(self, st, T):
        if const(T) is not None:
            return const(T) <= 0
        if st.isnull(T) is True:
            return True
        for q, a, b in st.cmps:
            d = add(a, b, -1)
            c = const(add(d, T, -1))
            if c is not None and (q == "slt" and c >= -1 or q == "sle" and
                                  c >= 0):
                return True
            c = const(add(d, T))
            if c is not None and (q == "sgt" and c <= 1 or q == "sge" and
                                  c <= 0):
                return True
        return False

    def freed(self, fn, ps):
        some = False
        for st, v in ps:
            fr = [e[2] for e in st.ev if e[0] == "free"]
            if A0 not in fr:
                self.ok(not st.ev, "F", fn, "parts are freed (%s) but not "
                        "the object" % [show(x) for x in fr][:3], "object")
                cond = any(any(x[0] == "U" for x in leaves(p))
                           for p in list(st.null) +
                           [y for c in st.cmps for y in c[1:]])
                if not st.ev:
                    self.ok(cond, "F", fn, "not freed though nothing says "
                            "that it is still referenced", "keep")
                continue
            some = True
            self.ok(fr.count(A0) == 1, "F", fn, "freed twice", "once")
            kept = list(fr)
            for p in sorted(self.S, key=show):
                n = fr.count(p)
                kept = [x for x in kept if x != p]
                self.ok(n == 1 or n == 0 and self.gone(st, p), "F", fn,
                        "%s is %s" % (show(p), "not freed" if not n else
                                      "freed %d times" % n), show(p))
            self.ok(not [x for x in kept if x != A0], "F", fn,
                    "frees what it does not own: %s" %
                    [show(x) for x in kept if x != A0], "more")
            es = [e for e in st.ev if e[0] == "each" and e[1] == "free"]
            for b, stride, T in sorted(self.E, key=lambda x: show(x[0])):
                n = sum(1 for e in es if e[3] == (b, stride, T))
                self.ok(n == 1 or n == 0 and (self.gone(st, b) or
                                              self.empty(st, T)),
                        "F", fn, "of the array %s, not every one of the %s "
                        "elements is freed once" % (show(b), show(T)),
                        "each " + show(b))
            self.ok(all(e[3] in self.E for e in es), "F", fn,
                    "a loop frees elements other than the parts", "loop")
        self.ok(some, "F", fn, "never freed", "some")

    def types(self, p):
        """structures that the pointer p (an access path) may point to"""
        if p == A0:
            return {self.struct}
        x = only(p)
        if x is None or x[0] != "L":
            return set()
        return self.member(x[1])

    def member(self, a):
        """types of the pointer member at address a"""
        out = set()
        for y in leaves(a):
            off = const(add(a, L1(y), -1))
            if off is None:
                continue
            for s in self.types(L1(y)):
                for o, t, st in self.lay.pointers(s):
                    if o == off and st is None and t:
                        out.add(t)
        return out

    def copied(self, fn, ps):
        some = False
        for st, v in ps:
            if const(v) == 0 or st.isnull(v) is True:
                continue
            x = only(v)
            self.ok(x is not None and x[0] == "F", "C", fn,
                    "what it returns is not a new object (%s)" % show(v),
                    "new")
            if x is None or x[0] != "F":
                continue
            some = True
            src = {e[3]: e[2] for e in st.ev if e[0] == "copy"}
            alloc = {e[1]: e[2] for e in st.ev if e[0] == "alloc"}
            pair = {A0: v}
            for p in sorted(self.S, key=lambda p: len(show(p))):
                if self.gone(st, p) or any(e[0] == p and self.empty(st, e[2])
                                           for e in self.E):
                    continue
                a = only(p)[1]
                par = [L1(y) for y in leaves(a) if y[0] in ("A", "L")]
                if len(par) != 1 or par[0] not in pair:
                    self.ok(False, "C", fn, "%s has no counterpart in the "
                            "copy" % show(p), show(p))
                    continue
                val = self.run_read(st, add(add(a, par[0], -1),
                                            pair[par[0]]))
                y = only(val)
                if y is None or y[0] != "F":
                    self.ok(False, "C", fn, "%s: the copy holds %s" % (
                        show(p), "the same pointer" if val == p else
                        show(val)), show(p))
                    continue
                pair[p] = val
                if y in src:
                    self.ok(src[y] == p, "C", fn, "%s: the copy has a "
                            "duplicate of %s" % (show(p), show(src[y])),
                            show(p))
                    continue
                el = [e for e in self.E if e[0] == p]
                w = st.whole.get(y)
                if el:
                    good = any(e[0] == "each" and e[1] == "copy" and e[3] and
                               e[3][1] in el and e[3][0][0] == val and
                               e[3][0][1:] == e[3][1][1:] for e in st.ev) \
                        or self.empty(st, el[0][2])
                    self.ok(good, "C", fn, "%s: not every element is copied"
                            % show(p), show(p))
                elif w is not None and w[0] == "copy":
                    self.ok(w[1] == p and w[2] == alloc.get(y), "C", fn,
                            "%s: %s bytes of %s are copied to a block of %s"
                            % (show(p), show(w[2]), show(w[1]),
                               show(alloc.get(y, P({})))), show(p))
                else:
                    ts = [s for s in self.types(p) if self.lay.size.get(s)
                          == const(alloc.get(y, P({})))]
                    self.ok(len(ts) == 1, "C", fn, "%s: the new block is "
                            "not filled" % show(p), show(p))
                    if len(ts) == 1:
                        self.fields(fn, st, ts[0], p, val)
            if x in src:
                self.ok(False, "C", fn, "returns the copy of a part", "new")
            else:
                w = st.whole.get(x)
                if w is not None and w[0] == "copy":
                    self.ok(w[1] == A0 and w[2] == alloc.get(x), "C", fn,
                            "%s bytes are copied to an object of %s" %
                            (show(w[2]), show(alloc.get(x, P({})))), "all")
                self.fields(fn, st, self.struct, A0, v)
            self.moves(fn, st, pair)
        self.ok(some, "C", fn, "no path copies", "some")

    def run_read(self, st, a, n=8):
        return own.Run.read(None, st, a, n)

    def fields(self, fn, st, s, a, new):
        """the plain members of structure s equal those of the original"""
        slots = {only(p)[1] for p in self.S}
        rows = [(o, t, ch, self.lay.width(t)) for o, t, ch in
                self.lay.leaves(s)]
        pick = {}
        for o, t, ch, w in rows:
            if not ch:
                continue
            u, alt = ch[-1]
            d = pick.setdefault(u, {}).setdefault(alt, [0, 0])
            d[0] += t.endswith("*") and add(a, K(o)) in slots
            d[1] += w if w and not t.endswith("*") else 0
        best = {u: max(d, key=lambda k: (d[k][0] > 0, d[k][1]))
                for u, d in pick.items()}
        for o, t, ch, w in rows:
            if w is None or t.endswith("*") or t == "rc_t" or o == 4 and \
                    t in ("_Bool", "bool") and a == A0:
                continue
            if any(best[u] != alt for u, alt in ch):
                continue
            adr = add(a, K(o))
            val = self.run_read(st, add(new, K(o)), w)
            old = L1(("L", adr, w))
            good = val == old or const(val) == 0 and (
                self.empty(st, old) or
                any(self.gone(st, p) for p in self.counts.get(old, ()))) or \
                const(val) == 0 and st.isnull(L1(("L", adr, w))) is True or \
                o in self.word and const(val) == self.word[o]
            self.ok(good, "C", fn, "member at offset %d of %s is %s in the "
                    "copy" % (o, s, "not set" if val == L1(
                        ("L", add(new, K(o)), w)) else show(val)),
                    "%s+%d" % (s, o))
        self.rep.count("members", len(rows))

    def moves(self, fn, st, pair):
        """pointers that were copied with a block"""
        todo = [(d, s) for d, s in own.Run.copies(None, st)]
        slots = {only(p)[1] for p in self.S}
        for d, s in todo:
            ts = self.types(s) if s == A0 or only(s) is not None else set()
            if len(ts) != 1:
                if len(ts) > 1:
                    self.ok(False, "C", fn, "block %s of unknown kind"
                            % show(s), show(s))
                continue
            for o, t, stride in self.lay.pointers(ts.pop()):
                a, b = add(s, K(o)), add(d, K(o))
                if a in slots:
                    continue
                self.rep.count("inner_pointers", 1)
                if stride is None:
                    v = st.mem.get(b)
                    good = self.gone(st, L1(("L", a, 8))) or \
                        v is not None and v[0] == add(
                            L1(("L", a, 8)), add(d, s, -1))
                else:
                    good = any(e[0] == "each" and e[1] == "reloc" and
                               e[3] and e[3][0] == b and e[3][1] == stride
                               and leaves(e[3][2]) for e in st.ev)
                self.ok(good, "C", fn, "the pointer%s at %s of the copy "
                        "still point%s into the original" %
                        (("s", show(a), "") if stride else
                         ("", show(a), "s")), "inner " + show(a))

    def total(self, st):
        t = P({})
        for e in st.ev:
            if e[0] == "alloc":
                t = add(t, e[2])
            elif e[0] == "copy":
                t = add(t, L1(("C", e[1].replace("_copy", "_memsize"),
                               (e[2],))))
            elif e[0] == "each" and e[1] == "copy" and e[3]:
                t = add(t, L1(("sum", e[2].replace("_copy", "_memsize"),
                               e[3][1])))
        return t

    def simp(self, p, N, S_):
        """p where what N says is NULL is"""
        for x in set(leaves(p)):        # the last element apart
            if x[0] == "sum":
                b, st, T = x[2]
                c = ("C", x[1], (L1(("L", add(b, own.mul(K(st), T)), 8)),))
                if dict(p).get((c,)) == 1 and dict(p).get((x,)) == 1:
                    p = add(add(p, L1(c), -1), add(L1(
                        ("sum", x[1], (b, st, add(T, K(1))))), L1(x), -1))
        out = p
        for x in set(leaves(p)):
            if x[0] == "C" and x[1] in self.fam["memsize"] and \
                    S_.isnull(x[2][0]) is True:
                out = subst(out, x, P({}))
            elif x[0] == "sum" and (self.gone(S_, x[2][0]) or
                                    self.empty(S_, x[2][2])):
                out = subst(out, x, P({}))
        for b, stride, T in self.E:
            y = only(T)
            if y is not None and (self.gone(S_, b) or self.empty(S_, T)):
                out = subst(out, y, P({}))
        for y in set(leaves(out)):
            if y[0] == "L" and S_.isnull(L1(y)) is True:
                out = subst(out, y, P({}))
        return out

    def measured(self, fn, ps, cps):
        n = 0
        for st, v in ps:
            for ct, cv in cps:
                if const(cv) == 0 or ct.isnull(cv) is True:
                    continue
                s = own.S()
                s.null = dict(st.null)
                bad = False
                for p, t in ct.null.items():
                    k = s.isnull(p)
                    if k is not None and k != t:
                        bad = True
                    s.null[p] = t
                for q, a, b in ct.cmps:
                    if any((own.norm.NEG[q], a, b) == c for c in st.cmps):
                        bad = True
                if bad:
                    continue
                s.cmps = st.cmps + ct.cmps
                n += 1
                R, T = self.simp(v, s.null, s), self.simp(self.total(ct),
                                                          s.null, s)
                d = add(R, T, -1)
                self.ok(not d, "M", fn, "the memory size differs from the "
                        "blocks that a copy has by %s" % show(d), show(d)
                        if d else "")
        self.ok(n > 0, "M", fn, "no path of the copy matches", "pairs")
        self.rep.count("path_pairs", n)


def run():
    rep = Report("P21", __doc__)
    mod, fam = load()
    lay = layout.Layout()
    ir.check_c(ASSERT % ir.REPO)
    for k in KINDS:
        Kind(rep, mod, fam, lay, *k).run()
        rep.count("kinds", 1)
    return rep.finish()
