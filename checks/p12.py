"""P12: missing, empty and error geometries are accepted.

Nullness analysis (tgsa/nulls.py) from every public function of tg.h, once per
combination of NULL and non-NULL handle arguments (elements of arrays of
handles may be NULL as well).  Obligations: (1) no instruction reachable under
such a combination reads or writes through a pointer that is NULL there, be it
the argument, a child that a constructor stored, or what an accessor returned
for it; (2) with a NULL handle the function returns NULL, zero, false or an
all-zero struct, except where the API defines another value (disjoint and
is_empty are true, a constant error text, constructors make an empty object).
Fields that may hold NULL are inferred: those into which a public function
stores one of its handle arguments unchecked.
"""
import itertools, re
from tgsa import ir, cfg, cg, api, nulls, effects
from tgsa.report import Report

PASSES = "function(sroa,early-cse)"
HANDLES = ("tg_geom", "tg_ring", "tg_line", "tg_poly")
TRUE = re.compile(r"empty|disjoint|nearest_segment|_search")


def load():
    # type-based alias tags name the field of each access
    return ir.load("amalga", passes=PASSES, extra=("-fstrict-aliasing",))


def base(t):
    return t.replace("struct ", "").replace("enum ", "").strip()


def handle(t):
    m = re.match(r"^(const )?(tg_\w+) \*$", base(t))
    return bool(m and m.group(2) in HANDLES)


def constfns(fns):
    """public functions that leave what they are given unchanged"""
    return {n for n, f in fns.items() if f.params and
            all((not t.strip().endswith("*")) or t.startswith("const ")
                for _, t in f.params) and not n.endswith("_free")}


def emptybit(mod):
    """mask of the `empty` flag, in the word that holds an object's flags"""
    out = set()
    fns = ["tg_geom_is_empty"]
    for n in fns:
        f = mod.funcs.get(n)
        if f is None or f.decl:
            continue
        D = cfg.defs(f)
        for i in f.insts:
            if i.op == "call" and i.callee[0] == "fn" and n == fns[0] and \
                    not i.callee[1].startswith("tg_"):
                fns.append(i.callee[1])
            if i.op == "and" and i.ops[1][0] == "i" and i.ops[0][0] == "r":
                sh, o = 0, i.ops[0]
                while o[0] == "r" and o[1] in D and D[o[1]].op in \
                        ("lshr", "zext", "trunc", "freeze"):
                    d = D[o[1]]
                    if d.op == "lshr" and d.ops[1][0] == "i":
                        sh += d.ops[1][2]
                    o = d.ops[0]
                d = D.get(o[1]) if o[0] == "r" else None
                m = i.ops[1][2] << sh
                if d is not None and d.op == "load" and m > 0 and \
                        m & (m - 1) == 0:
                    out.add(m)
    return out.pop() if len(out) == 1 else None


def entries(mod):
    """[(function, api, argument values, [(arg number, name, value)])]"""
    pub, fns = api.public(mod), api.functions()
    out = []
    for n in sorted(pub):
        f, fn = fns[n], pub[n]
        off = len(fn.args) - sum(2 if base(t) == "tg_point" else 1
                                 for _, t in f.params)
        if off not in (0, 1):
            raise ir.AnalysisBroken("cannot match the parameters of " + n)
        args = [nulls.T] * len(fn.args)
        k, hs = off, []
        if off:
            args[0] = ("p", ("a", 0), None)
        for pn, pt in f.params:
            b = base(pt)
            if b == "tg_point":
                k += 2
                continue
            if fn.argtys[k].kind == "ptr":
                args[k] = ("p", ("a", k), None)
                if handle(pt):
                    hs.append((k, pn))
                elif re.match(r"^(const )?(tg_\w+) \*\s?const\s*(\*|\[\])$",
                              b):
                    args[k] = ("p", ("a", k), ("arr", ("child", n, pn)))
            k += 1
        out.append((fn, f, args, hs))
    return out


def analyse(mod, g, nullable, alloc=False, eff=None, on=None,
            heads=None):
    N = nulls.Nulls(mod, g, alloc=alloc, effects=eff, nullable=nullable)
    N.constfns = constfns(api.functions())
    N.emptybit, N.nonempty = emptybit(mod), ("struct.multi",)
    N.heads = heads or {}
    for fn, f, args, hs in entries(mod):
        for bits in itertools.product((0, 1), repeat=len(hs)):
            a = list(args)
            for (k, pn), z in zip(hs, bits):
                if z:
                    a[k] = ("n", ("arg", fn.name, pn))
            r = N.entry_run(fn, a)
            if on:
                on(fn, f, hs, bits, r)
    return N


def fixpoint(mod, g, alloc=False, on=None):
    """infer which fields may hold a NULL that came in as an argument"""
    eff = effects.Effects(mod, g)
    nullable = set()
    heads = {}
    for _ in range(8):
        res = []
        N = analyse(mod, g, nullable, alloc, eff,
                    lambda *a: res.append(a), heads)
        new = {}
        for k, og in N.stores.items():
            og = [h for o, h in og
                  if o[0] in ("arg", "child", "ret", "field")]
            known = {h for h in og if h is not None}
            if og:
                # a copy of an object whose kind is not known at the store
                # keeps what the original has
                new[k] = frozenset(known)
        if set(new) <= nullable and all(new[k] <= heads[k] for k in new):
            break
        nullable |= set(new)
        for k in new:
            heads[k] = heads.get(k, frozenset()) | new[k]
    else:
        raise ir.AnalysisBroken("the set of fields that may be NULL grows")
    if on:
        for a in res:
            on(*a)
    return N, nullable


def zero(cells):
    """the memory behind the first parameter holds four zero numbers"""
    c = {k[1]: v for k, v in cells if k[0] == ("a", 0)}
    if ("zero",) in c:
        return all(v in (("c", 0),) for v in c.values())
    return all(any(len(k) == 3 and k[0] == o and v == ("c", 0)
                   for k, v in c.items()) for o in (0, 8, 16, 24))


def copies(rep, mod, g, nullable, heads):
    """clone, copy and geometry constructors do not fail because a part is
    missing"""
    N = nulls.Nulls(mod, g, alloc=False, effects=effects.Effects(mod, g),
                    nullable=nullable)
    N.constfns = constfns(api.functions())
    N.emptybit, N.nonempty = emptybit(mod), ("struct.multi",)
    N.heads, N.rejects = heads, set()
    n = 0
    for fn, f, args, hs in entries(mod):
        if fn.name.endswith(("_copy", "_clone")) or \
                fn.name.startswith("tg_geom_new_"):
            N.entry_run(fn, args)
            rep.ok("%s keeps missing parts" % fn.name)
            n += 1
    if n < 20:
        raise ir.AnalysisBroken("clone and copy functions not found")
    for f, o in sorted(N.rejects):
        if o[0] == "retu":
            continue
        rep.bad("copy:%s:%s" % (f, o[-1]), "tg.c:%s" % mod.funcs[f].line,
                "%s gives up on an object because a part of it is missing "
                "(%s)" % (f, desc(o)))


def run():
    rep = Report("P12", __doc__)
    mod = load()
    g = cg.CallGraph(mod)

    def ret(fn, f, hs, bits, outs):
        rep.count("entry_contexts")
        if not any(bits):
            return
        who = ", ".join(p for (k, p), z in zip(hs, bits) if z)
        r = base(f.ret)
        if r in ("tg_rect", "tg_point", "tg_segment"):
            z = all(o[0] == ("c", 0) if r == "tg_point" else zero(o[1])
                    for o in outs)
            rep.decide(z, "ret:%s:%s" % (fn.name, who),
                       "%s:%s" % (fn.file or "tg.c", fn.line),
                       "%s does not return an all-zero %s when %s is NULL" %
                       (fn.name, r, who),
                       "%s(%s = NULL) returns zeros" % (fn.name, who))
            return
        if fn.ret.kind == "void":
            return
        for v in {o[0] for o in outs}:
            ok = v[0] == "n" or v == ("c", 0)
            if not ok and v[0] == "c" and fn.ret.kind == "int" and \
                    fn.ret.size == 1 or v == ("c", 1):
                ok = bool(TRUE.search(fn.name))
            if not ok and v[0] == "p" and r == "const char *":
                ok = True
            if not ok and v[0] in "pm" and handle(f.ret) and \
                    not f.ret.startswith("const") and "_new" in fn.name:
                ok = True
            rep.decide(ok, "ret:%s:%s" % (fn.name, who),
                       "%s:%s" % (fn.file or "tg.c", fn.line),
                       "%s does not return NULL or zero when %s is NULL (%s)"
                       % (fn.name, who, v[0]),
                       "%s(%s = NULL) returns %s" % (fn.name, who, v))
    N, nullable = fixpoint(mod, g, on=ret)
    for (k, e) in N.events.items():
        i, o = e["inst"], e["origin"]
        rep.bad("deref:%s:%s:%s" % (i.fn.name, o[0], o[-1]),
                "%s:%s" % (i.file or i.fn.file or "?", i.line),
                "%s reads or writes through a pointer that may be NULL: %s, "
                "from %s (%s)" % (i.fn.name, desc(o), e["entry"], e["msg"]),
                list(e["stack"]))
    copies(rep, mod, g, nullable, N.heads)
    rep.count("nullable_fields", len(nullable))
    rep.count("function_contexts", N.contexts)
    fl = {k[0] for k in N.memo}
    n = sum(1 for x in fl for i in mod.funcs[x].insts
            if i.op in ("load", "store"))
    rep.count("functions", len(fl))
    rep.count("memory_accesses", n)
    rep.obl += n
    if len(fl) < 400 or n < 3000:
        raise ir.AnalysisBroken("only %d functions, %d accesses reached" %
                                (len(fl), n))
    return rep.finish()


def desc(o):
    return {"arg": "argument %s of %s" % (o[-1], o[1]),
            "child": "an element of argument %s of %s" % (o[-1], o[1]),
            "field": "the contents of field %s" % (o[1:],),
            "ret": "what %s returned" % o[-1],
            "retu": "what %s may have returned" % o[-1],
            }.get(o[0], str(o)) if len(o) > 1 else str(o)
