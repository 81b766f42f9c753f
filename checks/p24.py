"""P24: results keep nothing of the caller's buffers.

Origin analysis with one summary per function (field- and flow-sensitive,
whole call graph).  For every public function and every parameter that is a
plain buffer of the caller (text, bytes, coordinates, points, rectangles,
arrays of pointers to parts):
 A  the address of the buffer, or one inside it, is not returned;
 B  it is not stored in the result, or in anything the result points to;
 C  it is not stored in memory reachable from another argument or in a global
    (the context a search hands to its own callbacks lives on the stack and
    ends with the call);
 D  the buffer is neither freed nor reallocated.
"""
from tgsa import ir, modular, origin
from tgsa.report import Report


def where(i):
    return "%s:%s" % (i.file or i.fn.file or "tg.c", i.line)


def isarray(t):
    p = origin.pointee(t)
    return p is not None and p.endswith("*")


def run():
    rep = Report("P24", __doc__)
    configs = ["amalga"]
    if rep.tier == "thorough":
        configs += ["noamalga", "ix64", "noatomics"]
    for config in configs:
        mod = modular.load(config, keep=("tg_malloc", "tg_free",
                                         "tg_realloc"))
        W, pub = origin.public(mod)
        nbuf = 0
        for n, (fn, f, ps) in pub.items():
            s = W.sum[n]
            at = where(fn.blocks[0].insts[0])
            for pn, pt, k in ps:
                p = origin.pointee(pt)
                if p is None or not (p in origin.FLAT or isarray(pt)) or \
                        not pt.startswith("const "):
                    continue
                nbuf += 1
                me = ("P", k)
                what = "the caller's buffer '%s'" % pn
                rep.decide(not any(r == me for r, _ in s.ret),
                           "A:%s:%s" % (n, pn), at,
                           "%s returns a pointer into %s" % (n, what),
                           "%s returns nothing of '%s'" % (n, pn))
                rep.decide(not any(r == me for r, _ in s.cont),
                           "B:%s:%s" % (n, pn), at,
                           "%s keeps a pointer into %s in its result" %
                           (n, what))
                to = [(r, o) for r, o, v in s.stores if v[0] == me]
                rep.decide(not to, "C:%s:%s" % (n, pn), at,
                           "%s stores a pointer into %s elsewhere %s" %
                           (n, what, to[:2]))
                fr = [w for r, w in s.writes.items()
                      if r == me and w[2] in ("free", "realloc")]
                rep.decide(not fr, "D:%s:%s" % (n, pn), at,
                           "%s frees %s" % (n, what))
        if nbuf < 40:
            raise ir.AnalysisBroken("only %d buffers" % nbuf)
        rep.count("functions", len(W.sum))
        rep.count("buffers", nbuf)
        rep.count("public_functions", len(pub))
    return rep.finish()
