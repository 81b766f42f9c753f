"""P22: text is parsed and written the same way whatever locale the process
has set.

Who-may-call rule over the resolved call graph: from no function of tg.h may a
function be reached whose result depends on LC_NUMERIC / LC_CTYPE (table
tgsa/ext.py), and no formatting call with a floating point argument or a
floating point conversion in a constant format.  A finding is keyed by entry
point and kind of dependence.
"""
import re
from tgsa import ir, cfg, cg, api, ext
from tgsa.report import Report


def cstr(mod, o):
    if o[0] == "g" and o[1] in mod.globals:
        init = mod.globals[o[1]].init
        if init and init[0] == "bytes":
            return init[1].split(b"\0")[0].decode("latin1")
    return None


def float_format(mod, f, i):
    """call i formats a floating point number with printf rules"""
    def floaty(args):
        D = cfg.defs(f)
        for a in args:
            if a[0] == "f":
                return True
            if a[0] == "r":
                d = D.get(a[1])
                if d is not None and d.ty.kind in ("double", "x86_fp80"):
                    return True
                if d is None and f.argtys[f.args.index(a[1])].kind in \
                        ("double", "float"):
                    return True
        return False
    nm = i.callee[1]
    if nm in ext.PRINTF:
        k = ext.PRINTF[nm]
    else:
        t = mod.funcs.get(nm)
        if t is None or not t.vararg:
            return False
        k = len(t.args) - 1
    fmt = cstr(mod, i.args[k]) if k < len(i.args) else None
    if fmt and re.search(r"%[-+ #0-9.*']*L?[fFeEgGaA]", fmt):
        return True
    return floaty(i.args[k + 1:])


FAMILY = {"strtod": "strtod", "strtof": "strtod", "strtold": "strtod",
          "atof": "strtod"}


def fam(n):
    if n.startswith(("is", "to", "__ctype")):
        return "ctype"
    return FAMILY.get(n, n)


def run():
    rep = Report("P22", __doc__)
    mod = ir.load("amalga")
    g = cg.CallGraph(mod)
    fmtsites = {}
    for f in mod.defined():
        for i in f.insts:
            if i.op == "call" and i.callee[0] == "fn":
                rep.count("call_sites")
                if float_format(mod, f, i):
                    fmtsites.setdefault(f.name, []).append(i)
    for entry in sorted(g.public):
        rep.count("entry_points")
        seen = g.reach([entry])
        n0 = len(rep.violations)
        for n in sorted(seen):
            if n in ext.LOCALE:
                p = g.path(seen, n)
                rep.bad("locale:%s:%s" % (entry, fam(n)), "tg.c",
                        "%s depends on the locale through %s" %
                        (entry, " -> ".join(p)), p)
            if n in fmtsites:
                i = fmtsites[n][0]
                rep.bad("format:%s:%s" % (entry, i.callee[1]), "%s:%d" %
                        (i.file, i.line), "%s formats a floating point "
                        "number with the locale's rules (%s -> %s)" %
                        (entry, n, i.callee[1]))
        if len(rep.violations) == n0:
            rep.ok("%s: %d functions" % (entry, len(seen)))
    return rep.finish()
