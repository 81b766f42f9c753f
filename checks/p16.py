"""P16: tg.h and tg.c describe the same binary interface, in every build
configuration.

Compile-time witness: a translation unit is generated that includes tg.c and
asserts, for every function of tg.h, that the definition's type is compatible
with the type written in tg.h (_Static_assert over
__builtin_types_compatible_p), for every complete struct of tg.h the size,
and per field the offset and type, and for every enumerator its value.  A
mismatch makes the witness fail to compile; the failing assertion names the
construct.  The IR of each configuration is then searched for an external
definition of every function of tg.h.
"""
import os, re, subprocess, tempfile
from tgsa import ir, api
from tgsa.report import Report

WCONF = {"default": [], "noatomics": ["-DTG_NOATOMICS"],
         "ix64": ["-DTG_IXFLOAT64"], "noamalga": ["-DTG_NOAMALGA"]}


def layout_of_header():
    """offsets/sizes of the public structs as a consumer of tg.h sees them"""
    recs = api.records()
    src = '#include "tg.h"\n#include <stddef.h>\n'
    names = []
    for r, fs in sorted(recs.items()):
        names.append(("%s size" % r, "sizeof(struct %s)" % r))
        for f, t in fs:
            names.append(("%s.%s offset" % (r, f),
                          "offsetof(struct %s, %s)" % (r, f)))
    src += "const unsigned long W[] = {%s};\n" % ",".join(
        e for _, e in names)
    with tempfile.TemporaryDirectory(prefix="tgsa") as td:
        p = os.path.join(td, "w.c")
        open(p, "w").write(src)
        o = os.path.join(td, "w.bc")
        r = subprocess.run([ir.CLANG, "-std=gnu11", "-emit-llvm", "-c", "-I",
                            ir.REPO, p, "-o", o], capture_output=True,
                           text=True)
        if r.returncode:
            raise ir.AnalysisBroken("tg.h: " + r.stderr[-500:])
        m = ir._Loader(o).load()
    g = m.globals["W"].init
    vals = [x[2] for x in g[2]] if g[0] == "agg" else None
    if vals is None or len(vals) != len(names):
        raise ir.AnalysisBroken("layout witness")
    return [(n, e, v) for (n, e), v in zip(names, vals)], recs


def fnptr(fn):
    ps = ", ".join(p for _, p in fn.params) or "void"
    if fn.variadic:
        ps += ", ..."
    return ps


def typename(t):
    """`void (*)(void *)` style qualType -> usable in a cast/typeof"""
    return t


def run():
    rep = Report("P16", __doc__)
    fns = api.functions()
    lay, recs = layout_of_header()
    enums = api.enums()
    asserts = []
    for n, fn in sorted(fns.items()):
        asserts.append(("fn:" + n, "the definition of %s does not have the "
                        "type that tg.h declares: %r" % (n, fn),
                        "__builtin_types_compatible_p(__typeof__(&%s), "
                        "__typeof__(%s (*)(%s)))" % (n, fn.ret, fnptr(fn))))
    for n, e, v in lay:
        asserts.append(("layout:" + n, "%s is %d in tg.h and something else "
                        "in tg.c" % (n, v), "%s == %d" % (e, v)))
    for r, fs in sorted(recs.items()):
        for f, t in fs:
            asserts.append(("field:%s.%s" % (r, f), "field %s of struct %s "
                            "has type %s in tg.h" % (f, r, t),
                            "__builtin_types_compatible_p(__typeof__("
                            "((struct %s*)0)->%s), __typeof__(%s))" %
                            (r, f, t)))
    for en, l in sorted(enums.items()):
        for k, v in l:
            asserts.append(("enum:" + k, "%s is %d in tg.h and something "
                            "else in tg.c" % (k, v), "(%s) == %d" % (k, v)))
    for conf, flags in WCONF.items():
        rep.count("configurations")
        src = '#include "tg.c"\n#include <stddef.h>\n'
        line = src.count("\n")
        where = {}
        for key, msg, cond in asserts:
            line += 1
            where[line] = (key, msg)
            src += '_Static_assert(%s, "w");\n' % cond
        with tempfile.TemporaryDirectory(prefix="tgsa") as td:
            p = os.path.join(td, "witness.c")
            open(p, "w").write(src)
            r = subprocess.run([ir.CLANG, "-std=gnu11", "-fsyntax-only",
                                "-ferror-limit=0", "-w", *flags, "-I",
                                ir.REPO, p], capture_output=True, text=True)
        bad, other = {}, []
        for ln in r.stderr.splitlines():
            m = re.match(r".*witness\.c:(\d+):\d+: error: (.*)", ln)
            if m:
                if int(m.group(1)) in where:
                    bad.setdefault(where[int(m.group(1))], m.group(2))
                    continue
            if " error: " in ln:
                other.append(ln)
        if other:
            # the unit itself does not build in this configuration
            if conf == "default":
                raise ir.AnalysisBroken("tg.c does not compile: " + other[0])
            rep.bad("build:" + conf, "tg.c", "tg.c does not compile in "
                    "configuration %s: %s" % (conf, other[0][-200:]))
            continue
        for k in asserts:
            kk = (k[0], k[1])
            if kk in bad:
                rep.bad("%s [%s]" % (k[0], conf), "tg.c/tg.h",
                        "%s (configuration %s)" % (k[1], conf))
            else:
                rep.ok(k[0] if conf == "default" else None)
    # every declared function is defined and visible
    for conf in ("amalga", "noamalga", "noatomics", "ix64"):
        try:
            mod = ir.load(conf)
        except ir.AnalysisBroken as e:
            if conf == "amalga":
                raise
            rep.bad("build:" + conf, "tg.c", "configuration %s does not "
                    "build: %s" % (conf, str(e)[-200:]))
            continue
        for n in fns:
            f = mod.funcs.get(n)
            rep.decide(f is not None and not f.decl and f.linkage == 0,
                       "def:%s [%s]" % (n, conf), "tg.c",
                       "%s is declared in tg.h but not defined with external "
                       "linkage (configuration %s)" % (n, conf))
    rep.count("functions", len(fns))
    rep.count("structs", len(recs))
    rep.count("enumerators", sum(len(l) for l in enums.values()))
    return rep.finish()
