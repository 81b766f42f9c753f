"""P10: allocation failures are survived.

Nullness analysis (tgsa/nulls.py) from every public function of tg.h in which
every allocation may fail: each call of malloc, calloc or realloc, reached
through the allocator layer, splits the analysis in a path on which it returned
NULL and one on which it did not.  The fields that hold NULL for a part that
the caller left out are those which P12 infers.  Rules:
 1  no instruction reads, writes, or hands to a function that does so, through
    a pointer that is NULL because an allocation failed;
 2  no function that succeeds (returns an object, true or a position) has
    stored a NULL which stands for a failed allocation as a part of an object;
 3  a public function that cannot produce an error geometry does not return an
    object, true or a number on a path on which one of its allocations failed;
 4  no function, the parsers included, goes on building or returns success
    after a call by which it learned of a failed allocation (tgsa/giveup.py).
"""
from tgsa import cg, effects, giveup
from tgsa.report import Report
from checks import p12

OBJ = {"struct.tg_geom", "struct.tg_poly", "struct.tg_ring", "struct.tg_line",
       "struct.multi", "struct.index", "struct.ystripes", "struct.head"}
ALL1 = {("c", -1), ("c", 2**64 - 1), ("c", 2**32 - 1)}


def errmakers(mod, g):
    """functions that may return an error geometry: they reach one that
    formats a message"""
    fmt = {f.name for f in mod.defined()
           if any(t.endswith("vsnprintf") for _, l in g.calls[f.name]
                  for t in l)}
    out, ch = set(fmt), True
    while ch:
        ch = False
        for f in mod.defined():
            if f.name not in out and any(t in out for _, l in g.calls[f.name]
                                         for t in l):
                out.add(f.name)
                ch = True
    return out


def run():
    rep = Report("P10", __doc__)
    mod = p12.load()
    g = cg.CallGraph(mod)
    N0, nullable = p12.fixpoint(mod, g)
    em = errmakers(mod, g)
    eff = effects.Effects(mod, g)
    heads = N0.heads
    base = {}
    for k, og in N0.stores.items():
        base[k] = {o for o, h in og}
    found, res = {}, []
    N = p12.analyse(mod, g, nullable, True, eff, lambda *a: res.append(a),
                    heads)
    for k, og in N.stores.items():
        if k[0] not in OBJ and k[1] not in OBJ:
            continue
        for o, h in og:
            if o[0] == "alloc" or o not in base.get(k, ()) and \
                    o[0] in ("ret", "retu"):
                found.setdefault(k, set()).add(o)
    rep.count("function_contexts", N.contexts)
    for k in sorted(found, key=str):
        for o in sorted(found[k], key=str):
            rep.bad("part:%s:%s" % (k, o[:2]), "tg.c",
                    "an object is kept though %s could not be allocated "
                    "(field %s)" % (p12.desc(o), k))
    seen = set()
    for e in N.events.values():
        i, o = e["inst"], e["origin"]
        key = (i.fn.name, i.line, o[0], o[-1])
        if key in seen:
            continue
        seen.add(key)
        rep.bad("deref:%s:%s:%s" % (i.fn.name, o[0], o[-1]),
                "%s:%s" % (i.file or i.fn.file or "?", i.line),
                "%s reads or writes through a pointer that is NULL after a "
                "failed allocation: %s, from %s (%s)" %
                (i.fn.name, p12.desc(o), e["entry"], e["msg"]),
                list(e["stack"]))
    fails = 0
    for fn, f, hs, bits, outs in res:
        if fn.ret.kind == "void":
            continue
        if fn.name in em:
            continue
        oom = [o for o in outs if o[2]]
        if not oom:
            continue
        fails += 1
        for v in {o[0] for o in oom}:
            rep.decide(v[0] == "n" or v == ("c", 0) or v in ALL1,
                       "ret:%s" % fn.name,
                       "%s:%s" % (fn.file or "tg.c", fn.line),
                       "%s does not report failure though an allocation "
                       "failed (returns %s)" % (fn.name, v[0]),
                       "%s fails when an allocation fails" % fn.name)
    fmt = {f.name for f in mod.defined()
           if any(t.endswith("vsnprintf") for _, l in g.calls[f.name]
                  for t in l)}

    def learned(f, i, t, x):
        rep.count("reports_of_failure")
        rep.decide(x is None, "goon:%s:%s" % (f.name, t),
                   "%s:%s" % (f.file or "tg.c", i.line),
                   "%s does not stop when %s could not get memory: it %s" %
                   (f.name, t, x and "%s %s" % (
                       x[0], (x[1].callee[1] if x[1].callee[0] == "fn"
                              else "a function") + " (line %s)" % x[1].line
                       if x[1].op == "call" else "(line %s)" % x[1].line)),
                   "%s:%s stops when %s fails" % (f.name, i.line, t))

    reps = giveup.check(mod, g, N.oomrets, N.okrets, fmt, learned)
    rep.count("functions_that_report", len(reps))
    if rep.counts.get("reports_of_failure", 0) < 30:
        raise p12.ir.AnalysisBroken("few calls report a failed allocation")
    fl = {k[0] for k in N.memo}
    n = sum(1 for x in fl for i in mod.funcs[x].insts
            if i.op in ("load", "store"))
    rep.count("functions", len(fl))
    rep.count("memory_accesses", n)
    rep.count("functions_that_can_fail", fails)
    rep.obl += n
    sites = sum(1 for f in mod.defined() for i in f.insts
                if i.op == "call" and i.callee == ("fn", "tg_malloc"))
    rep.count("allocation_sites", sites)
    if len(fl) < 400 or n < 3000 or sites < 15 or fails < 20:
        raise p12.ir.AnalysisBroken("%d functions, %d accesses, %d sites, %d "
                                    "can fail" % (len(fl), n, sites, fails))
    return rep.finish()
