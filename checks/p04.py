"""P04: read-only operations change nothing.

Every pointer that the library writes through, frees or reallocates is traced
to where it came from (origin analysis with one summary per function, over
the whole call graph, field- and flow-sensitive).  Rules, for every public
function:
 A  nothing reachable from a parameter declared const is written, freed or
    reallocated by the function or anything it calls; an atomic add or
    subtract of the reference count at the start of an object is no change,
    and the drop of a reference through a public tg_*_free is decided by P11;
 B  no global or static variable is written except by the tg_env_set_*
    functions;
 C  no function that keeps hidden state inside the C library is called.
"""
from tgsa import api, ir, modular, origin
from tgsa.report import Report

HIDDEN = {"strtok", "rand", "srand", "random", "srandom", "drand48",
          "lrand48", "srand48", "setlocale", "localtime", "gmtime", "ctime",
          "asctime", "setenv", "putenv", "unsetenv", "strerror", "getenv",
          "mblen", "mbtowc", "wctomb", "hcreate", "hsearch", "lgamma",
          "lgammaf", "signgam", "ecvt", "fcvt", "gcvt", "l64a", "tmpnam"}


def where(i):
    return "%s:%s" % (i.file or i.fn.file or "tg.c", i.line)


def chain(w):
    fn, i, kind, ch = w
    out = ["%s %s" % (where(i), fn)]
    out += ["%s %s" % (where(x), n) for n, x in ch]
    return out


def last(w):
    return w[3][-1] if w[3] else (w[0], w[1])


def place(root):
    s, n = "", root
    while n[0] == "L":
        n = n[1]
        s = "*(%s)" % s if s else "*"
    return "memory it points to" if not s else "memory reachable from it"


def run():
    rep = Report("P04", __doc__)
    configs = ["amalga"]
    if rep.tier == "thorough":
        configs += ["noamalga", "ix64", "noatomics"]
    for config in configs:
        mod = modular.load(config, keep=("tg_malloc", "tg_free",
                                         "tg_realloc"))
        W, pub = origin.public(mod)
        rep.count("functions", len(W.sum))
        rep.count("function_passes", W.rounds)
        nconst = 0
        for n, (fn, f, ps) in pub.items():
            s = W.sum[n]
            for pn, pt, k in ps:
                if not pt.startswith("const ") or \
                        origin.pointee(pt) is None:
                    continue
                nconst += 1
                ws = [(r, w) for r, w in s.writes.items()
                      if origin.arg_of(r) == k]
                if config == "noatomics":
                    # the count is a plain integer there (P11 decides it)
                    ws = [(r, w) for r, w in ws if not rcstore(w)]
                if not ws:
                    rep.ok("%s leaves '%s' unchanged" % (n, pn))
                for r, w in sorted(ws, key=lambda x: str(x[0]))[:1]:
                    lf, li = last(w)
                    rep.bad("A:%s:%s" % (n, pn), where(li),
                            "%s changes %s of its const parameter '%s' "
                            "(%s in %s)" % (n, place(r), pn, w[2], lf),
                            chain(w))
            for g, w in sorted(s.gwrites.items()):
                lf, li = last(w)
                if n.startswith("tg_env_set_"):
                    rep.ok("%s sets %s" % (n, g))
                    continue
                rep.bad("B:%s:%s" % (lf, g), where(li),
                        "%s writes the global '%s' (reached from %s)" %
                        (lf, g, n), chain(w))
            if not s.gwrites:
                rep.ok()
        # written by code no public function summary shows
        for fn in mod.defined():
            for i in fn.insts:
                if i.op == "call" and i.callee[0] == "fn":
                    rep.decide(i.callee[1] not in HIDDEN,
                               "C:%s:%s" % (fn.name, i.callee[1]), where(i),
                               "%s calls %s, which keeps hidden state" %
                               (fn.name, i.callee[1]))
        if nconst < 100:
            raise ir.AnalysisBroken("only %d const parameters" % nconst)
        rep.count("const_parameters", nconst)
        rep.count("public_functions", len(pub))
    return rep.finish()


def rcstore(w):
    lf, li = last(w)
    return w[2] == "store" and li.op == "store" and li.ops[0][0] == "r" and \
        li.fn.name.endswith(("_clone", "_free"))
