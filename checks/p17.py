"""P17: the library is a pure data-structure library: no call of the public
API ends or stops the process, does I/O, or touches process-wide state.

Who-may-call rule over the resolved call graph of every build configuration:
starting from every function of tg.h, the only external functions that may be
reached are those of a reviewed table (memory, string, math, sorting, number
conversion, formatting into memory) and the allocator.  `unreachable` traps
and assertion failures count as process exits; the internal consistency
assertions of the number formatter (deps/fp.c, the Ryu algorithm) are the only
ones accepted, matched by the source file they come from.  Inline assembly that is
more than arithmetic on registers (no result, or a pointer operand) and
volatile accesses are reported too.
"""
from tgsa import ir, cfg, cg, api, ext
from tgsa.report import Report

TRAPS = {"__assert_fail", "__assert_perror_fail", "__assert", "abort"}


def _isptr(f, a):
    if a[0] in ("g", "fn", "null"):
        return True
    if a[0] != "r":
        return False
    d = cfg.defs(f).get(a[1])
    t = d.ty if d is not None else f.argtys[f.args.index(a[1])]
    return t.kind == "ptr"


def run():
    rep = Report("P17", __doc__)
    # assertion sites are judged where the source files are separate
    for conf in ("noamalga", "amalga", "noatomics"):
        mod = ir.load(conf)
        tag = "" if conf == "amalga" else " [%s]" % conf
        g = cg.CallGraph(mod)
        rep.count("configurations")
        asserts_ok = None
        for entry in sorted(g.public):
            rep.count("entry_points")
            seen = g.reach([entry])
            bad = 0
            for n in seen:
                f = mod.funcs.get(n)
                if n == cg.USER or (f is not None and not f.decl):
                    continue
                if n in ext.PURE or n in ext.ALLOC or ext.intrinsic_ok(n):
                    continue
                if n in TRAPS:
                    if conf != "noamalga" and n == "__assert_fail":
                        continue          # decided in noamalga
                    sites = [(c, i) for c, i in g.callers.get(n, [])
                             if c.name in seen]
                    sites = [(c, i) for c, i in sites
                             if not (n == "__assert_fail" and
                                     c.file == "fp.c")]
                    if not sites:
                        continue
                    c, i = sites[0]
                    rep.bad("trap:%s:%s%s" % (entry, n, tag),
                            "%s:%d" % (i.file, i.line),
                            "%s can end the process: %s -> %s%s" %
                            (entry, " -> ".join(g.path(seen, c.name)), n,
                             tag), g.path(seen, c.name))
                    bad = 1
                    continue
                p = g.path(seen, n)
                rep.bad("ext:%s:%s%s" % (entry, n, tag), "tg.c",
                        "%s reaches %s, which is not a pure function: %s%s" %
                        (entry, n, " -> ".join(p), tag), p)
                bad = 1
            if not bad:
                rep.ok("%s: %d functions reached" % (entry, len(seen))
                       if conf == "amalga" else None)
        reach = g.reach(g.public)
        for f in mod.defined():
            rep.count("functions")
            if f.name not in reach:
                continue
            for i in f.insts:
                if i.op == "call" and i.callee[0] == "asm" and (
                        i.ty.kind == "void" or any(
                            _isptr(f, a) for a in i.args)):
                    rep.bad("asm:%s%s" % (f.name, tag), "%s:%d" %
                            (i.file, i.line), "inline assembly in %s"
                            % f.name)
                if i.op in ("load", "store") and i.volatile:
                    rep.bad("volatile:%s%s" % (f.name, tag), "%s:%d" %
                            (i.file, i.line), "volatile access in %s"
                            % f.name)
            rep.ok()
        for f in (mod.funcs[n] for n in reach if n in mod.funcs):
            rep.count("call_sites", sum(1 for i in f.insts
                                        if i.op == "call"))
    return rep.finish()
