"""P06: what the parsers read and write stays inside the buffers.

Bounds analysis (tgsa/bounds.py) of the functions that receive a part of the
input as pointer and length: every value is a linear form over ranged leaves,
the conditions that dominate a place are its facts, merged values are split,
and a goal is decided by elimination over integers.  Positions carried by loop
variables, arguments and results are shown to be at most the length by
induction: all candidates are assumed, those that some place breaks are
dropped, until nothing changes.  Overflow: a sum or product is taken at its
value only where it is shown to fit its type, otherwise nothing is known of it.
Obligations, for the WKB, GeoBIN, Hex and WKT parsers, the functions that look
into GeoBIN, the recognition of formats and the validation of JSON text:
 R  each load from the input, and each copy out of it, lies inside it;
 H  each call that hands a part of it on (with its length, or as an array of
    points with its count) hands on a part inside it;
 E  a pointer into it is neither stored nor given to any other function
    (exceptions: number conversion at a checked position, and the name that
    an error message prints with a precision, whose length is not decided);
 W  stores to and loads from the local arrays and the blocks the parsers
    allocate for decoded bytes lie inside them; what is copied from the input
    to an array of the caller is at most 32 bytes;
 A  a block whose size depends on the input has at most 64 bytes for each
    byte of input (plus 4 KB).
"""
from tgsa import bounds, ir, modular
from tgsa.bounds import K
from tgsa.linear import add, const, mul
from tgsa.report import Report

ENTRY = {"tg_parse_wkb_ix": (0, 1), "tg_parse_wkb": (0, 1),
         "tg_parse_geobin_ix": (0, 1), "tg_parse_geobin": (0, 1),
         "tg_parse_hexn_ix": (0, 1), "tg_parse_hexn": (0, 1),
         "tg_parse_ix": (0, 1), "tg_parse": (0, 1),
         "tg_parse_wktn_ix": (0, 1), "tg_parse_wktn": (0, 1),
         "tg_geobin_fullrect": (0, 1), "tg_geobin_rect": (1, 2),
         "tg_geobin_point": (1, 2)}
COUNTED = {"tg_line_new_ix": {0: (1, 16)}, "tg_ring_new_ix": {0: (1, 16)},
           "tg_line_new": {0: (1, 16)}, "tg_ring_new": {0: (1, 16)}}
# what these read depends on the text being valid or balanced
SKIP = {"tg_parse_geojsonn_ix", "tg_parse_geojsonn", "parse_wkt_multi_posns",
        "parse_wkt_multilinestring", "parse_wkt_multipolygon",
        "parse_wkt_polygon", "parse_wkt_geometrycollection"}
NUMBER = {"strtod"}
SPAN = {"memchr": ((0, 2),), "memcmp": ((0, 2), (1, 2)), "bcmp": (
    (0, 2), (1, 2)), "strnlen": ((0, 1),), "strncmp": ((0, 2), (1, 2)),
    "strncasecmp": ((0, 2), (1, 2))}
COPY = ("llvm.memcpy", "llvm.memmove")
QUIET = ("llvm.lifetime", "llvm.dbg", "llvm.assume")


def where(i):
    return "%s:%s" % (i.file or i.fn.file or "tg.c", i.line)


def size_of(t):
    if t.kind == "int":
        return (t.bits + 7) // 8
    return t.size if getattr(t, "size", None) else 8


def entry(fn, mod):
    """(pointer, length) of a parser: the first two neighbours of that kind"""
    for k in range(len(fn.argtys) - 1):
        a, b = fn.argtys[k], fn.argtys[k + 1]
        if a.kind == "ptr" and b.kind == "int" and b.bits == 64:
            return k, k + 1
    return None


class Check:
    def __init__(self, rep, f):
        self.rep, self.f = rep, f
        self.n = {}

    def key(self, rule, i, what):
        k = "%s:%s:%s" % (rule, self.f.fn.name, what)
        n = self.n[k] = self.n.get(k, 0) + 1
        return k if n == 1 else "%s:%d" % (k, n)

    def put(self, rule, i, r, what, msg):
        self.rep.count("obligations")
        self.rep.decide(r == "ok", self.key(rule, i, what), where(i),
                        "%s: %s: %s" % (self.f.fn.name, msg, r))

    def run(self):
        f = self.f
        for i in f.fn.insts:
            if i.block.id not in f.live:
                continue
            if i.op in ("load", "store"):
                self.access(i)
            elif i.op == "call":
                self.call(i)
            elif i.op == "ret" and i.ops and f.derived(i.ops[0]):
                self.put("E", i, "it outlives the call", "ret",
                         "a pointer into the input is returned")

    def local(self, o, seen=()):
        """o points into a local array or a block for decoded bytes"""
        f = self.f
        if o[0] != "r" or o in seen:
            return False
        i = f.D.get(o[1])
        if i is None:
            return False
        if i.op == "gep":
            return self.local(i.ops[0], seen + (o,))
        if i.op == "alloca":
            return i.aty.kind == "array" or getattr(i.aty, "n", 0) > 1
        if i.op in ("phi", "select"):
            vs = [v for _, v in f.ways(i)] if i.op == "phi" else i.ops[1:]
            return any(self.local(v, seen + (o,)) for v in vs)
        return False

    def access(self, i):
        f = self.f
        p = i.ops[0] if i.op == "load" else i.ops[1]
        if i.op == "store" and f.derived(i.ops[0]):
            self.put("E", i, "it may be used after the input has ended",
                     "store", "a pointer into the input is stored")
        d = f.derived(p)
        if not d and not self.local(p):
            return
        if not d and self.f.fn.name.startswith("parse_wkt"):
            return
        t = i.ty if i.op == "load" else None
        n = size_of(t) if t is not None else f.width(i.ops[0]) // 8 \
            if self.isint(i.ops[0]) else 8
        r = f.within(p, K(max(n, 1)), i.block)
        if r is None:
            return
        self.put("R" if d else "W", i, r, i.op,
                 "a %s of %d bytes %s" % (
                     i.op, n, "of the input" if d else "in a local buffer"))

    def isint(self, o):
        if o[0] == "i":
            return True
        if o[0] != "r":
            return False
        f = self.f
        if o[1] in f.D:
            return f.D[o[1]].ty.kind == "int"
        return f.fn.argtys[f.argno[o[1]]].kind == "int"

    def call(self, i):
        f = self.f
        n = i.callee[1] if i.callee[0] == "fn" else "?"
        if n.startswith(QUIET):
            return
        if n.startswith(COPY):
            dst, src, size = i.args[:3]
            z = f.poly(size)
            if f.derived(src):
                self.put("R", i, f.within(src, z, i.block), "copy",
                         "a copy out of the input")
                if dst[0] == "r" and self.arg(dst):
                    ok = f.prove(add(K(32), z, -1), i.block)
                    self.put("W", i, "ok" if ok else
                             "nothing shows that it is at most 32 bytes",
                             "array", "a copy to an array of the caller")
            if self.local(dst) and (f.derived(src) or const(z) is None):
                r = f.within(dst, z, i.block)
                if r is not None:
                    self.put("W", i, r, "copy", "a copy to a local buffer")
            return
        if n in f.W.allocs:
            z = f.poly(i.args[0])
            if const(z) is None and f.fn.name not in SKIP:
                lim = add(mul(f.len, K(64)), K(4096))
                ok = f.prove(add(lim, z, -1), i.block)
                self.put("A", i, "ok" if ok else
                         "nothing bounds the size by that of the input",
                         "size", "a block is allocated")
            return
        done = set()
        for k, q in SPAN.get(n, ()):
            done.add(k)
            if f.derived(i.args[k]):
                z = f.poly(i.args[q])
                self.put("R", i, f.within(i.args[k], z, i.block), n,
                         "%s reads the input" % n)
        for c, root, a, es in f.W.handed(f, i):
            if root[0] in done:
                continue
            done.add(root[0])
            z = f.poly(i.args[root[1]], es is not None)
            z = mul(z, K(es or 1))
            r = f.within(a, z, i.block, [("ge", add(z, K(-1)))])
            self.put("H", i, r, c, "a part of the input is handed to " + c)
            if es is None and not f.prove(f.poly(i.args[root[1]], True),
                                          i.block):
                self.put("H", i, "it may be negative", c + ":len",
                         "length of the part handed to " + c)
        for k, a in enumerate(i.args):
            if k in done:
                continue
            if f.derived(a):
                if n in NUMBER:
                    r = f.within(a, K(1), i.block)
                    self.put("R", i, r, n, "a number is read")
                elif k and self.isint(i.args[k - 1]) and \
                        f.width(i.args[k - 1]) == 32:
                    continue        # text printed with a precision
                else:
                    self.put("E", i, "it has no length", n,
                             "a pointer into the input is handed to " + n)
            elif self.local(a) and k + 1 < len(i.args) and \
                    n in f.W.mod.funcs and self.isint(i.args[k + 1]) and \
                    f.width(i.args[k + 1]) == 64:
                z = f.poly(i.args[k + 1])
                r = f.within(a, z, i.block, [("ge", add(z, K(-1)))])
                if r is not None:
                    self.put("W", i, r, n, "a buffer is handed to " + n)

    def arg(self, o):
        f = self.f
        while o[0] == "r" and o[1] in f.D and f.D[o[1]].op == "gep":
            o = f.D[o[1]].ops[0]
        return o[0] == "r" and o[1] in f.argno


def run():
    rep = Report("P06", __doc__)
    configs = ["amalga"]
    if rep.tier == "thorough":
        configs += ["noamalga", "ix64", "noatomics"]
    for config in configs:
        mod = modular.load(config, keep=("tg_malloc", "tg_free",
                                         "tg_realloc"))
        W = bounds.World(mod, COUNTED)
        W.skip = SKIP
        for n in ENTRY:
            fn = mod.funcs.get(n)
            if fn is None or not fn.blocks:
                raise ir.AnalysisBroken("no function " + n)
            root = entry(fn, mod)
            if root is None:
                raise ir.AnalysisBroken("no input of " + n)
            W.enter(fn, root)
        rounds = W.solve()
        rep.count("rounds", rounds)
        for (n, root), f in W.ctx.items():
            if n in SKIP:
                continue
            rep.count("contexts")
            Check(rep, f).run()
    if rep.counts.get("obligations", 0) < 200:
        raise ir.AnalysisBroken("only %s obligations" %
                                rep.counts.get("obligations"))
    return rep.finish()
