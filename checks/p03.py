"""P03: indexed accessors check their index.

Every public function (tg.h) that takes an object and an int index is put in
normal form (all helpers inlined).  Every memory access whose address depends
on the index must be reached only with 0 <= index < N, where N is the value
that the matching count function returns, under conditions at least as strong
as those under which the count function returns it (both are compared as
access paths from the object, e.g. [[p0+16]+8]).  Every value returned without
those conditions must be NULL or zero.
"""
from tgsa import ir, cfg, norm, api
from tgsa.report import Report

COUNT = [("_index_level_rect", {1: "_index_num_levels",
                                2: "_index_level_num_rects"}),
         ("_index_level_num_rects", {1: "_index_num_levels"}),
         ("_point_at", {1: "_num_points"}),
         ("_segment_at", {1: "_num_segments"}),
         ("_hole_at", {1: "_num_holes"}),
         ("_line_at", {1: "_num_lines"}),
         ("_poly_at", {1: "_num_polys"}),
         ("_geometry_at", {1: "_num_geometries"})]


def loc(i):
    return "%s:%s" % (i.file or i.fn.file or "?", i.line)


def canon(fn, o, names, depth=0):
    """access path of a value in terms of the parameters"""
    if o[0] == "i":
        return str(norm.sint(o))
    if o[0] == "null":
        return "null"
    if o[0] != "r":
        return repr(o)
    i = cfg.defs(fn).get(o[1])
    if i is None:
        return names.get(o[1], "r%d" % o[1])
    if depth > 12:
        return "?%d" % i.id
    if i.op == "load":
        return "[%s]%d" % (canon(fn, i.ops[0], names, depth + 1), i.ty.size)
    if i.op == "gep":
        b = canon(fn, i.ops[0], names, depth + 1)
        off, var, _ = i.gep
        s = b
        if off:
            s = "%s+%d" % (b, off)
        for v, sz in var:
            s += "+%s*%d" % (canon(fn, v, names, depth + 1), sz)
        return s
    if i.op in ("sext", "zext", "freeze", "bitcast"):
        return canon(fn, i.ops[0], names, depth + 1)
    if i.op in ("phi", "select") and i.ty.kind == "ptr":
        xs = i.ops if i.op == "phi" else i.ops[1:]
        c = {canon(fn, x, names, depth + 1) for x in xs if x[0] != "null"}
        if len(c) == 1:
            return c.pop()
    if i.op in ("add", "sub", "mul", "and", "or", "shl"):
        return "(%s %s %s)" % (canon(fn, i.ops[0], names, depth + 1), i.op,
                               canon(fn, i.ops[1], names, depth + 1))
    return "?%d" % i.id


def leaves(fn, o, blk, fs, seen=None):
    """[(operand, facts)] through phis and selects"""
    seen = seen if seen is not None else set()
    i = cfg.defs(fn).get(o[1]) if o[0] == "r" else None
    if i is not None and i.op == "phi" and i.id not in seen:
        seen.add(i.id)
        out = []
        for b, v in i.incoming:
            out += leaves(fn, v, b, norm.facts(fn, b) +
                          norm.edge_facts(fn, b, i.block), seen)
        return out
    if i is not None and i.op == "select":
        return leaves(fn, i.ops[1], blk,
                      fs + norm.atoms(fn, i.ops[0], True), seen) + \
            leaves(fn, i.ops[2], blk,
                   fs + norm.atoms(fn, i.ops[0], False), seen)
    if i is not None and i.op in ("sext", "zext", "freeze") and \
            i.ops[0][0] == "r":
        return leaves(fn, i.ops[0], blk, fs, seen)
    return [(o, fs)]


def guards(fn, fs, names):
    """tag conditions among facts: comparisons with constants"""
    out = set()
    for p, a, b, _ in fs:
        if b[0] in ("i", "null") and p in ("eq", "ne"):
            out.add((p, canon(fn, a, names), canon(fn, b, names)))
    return out


def rets(fn):
    for b in fn.blocks:
        t = b.insts[-1] if b.insts else None
        if t is not None and t.op == "ret":
            yield t


def counts(fn, names):
    """what a count function returns: [(access path, guards)]"""
    out = []
    for t in rets(fn):
        for o, fs in leaves(fn, t.ops[0], t.block, norm.facts(fn, t.block)):
            if o[0] == "i" and o[2] == 0:
                continue
            out.append((canon(fn, o, names), guards(fn, fs, names)))
    return out


def depends(fn, o, p, seen=None):
    seen = seen if seen is not None else set()
    if o[0] != "r":
        return False
    if o[1] == p:
        return True
    if o[1] in seen:
        return False
    seen.add(o[1])
    i = cfg.defs(fn).get(o[1])
    if i is None or i.op in ("load", "call", "alloca"):
        return False
    if i.op == "select":
        return any(depends(fn, x, p, seen) for x in i.ops[1:])
    return any(depends(fn, x, p, seen) for x in i.ops or [])


def in_range(fn, p, fs, names, cnt):
    """None when facts fs imply 0 <= index < count, else what is missing"""
    lower = False
    uppers = []
    for pr, a, b, ci in fs:
        for x, y, q in ((a, b, pr), (b, a, norm.SWAP.get(pr, pr))):
            ax = norm.affine(fn, x)
            if ax is None or ax[0] != p:
                continue
            c = norm.sint(y)
            if c is not None:
                c -= ax[1]
                if (q == "sgt" and c >= -1) or (q == "sge" and c >= 0) or \
                        (q == "eq" and c >= 0):
                    lower = True
            elif q == "slt" and ax[1] >= 0:
                uppers.append((y, ci))
            elif q == "sle" and ax[1] >= 1:
                uppers.append((y, ci))
            elif q == "ult" and ax[1] == 0:
                lower = True
                uppers.append((y, ci))
    if not lower:
        return "a negative index is not excluded"
    if not uppers:
        return "the index is not compared with a count"
    have = guards(fn, fs, names)
    why = "the bound is not what the count function returns"
    for y, ci in uppers:
        ok = True
        for o, f2 in leaves(fn, y, ci.block, []):
            if o[0] == "i" and norm.sint(o) <= 0:
                continue          # index >= 0 excludes it
            path = canon(fn, o, names)
            g2 = have | guards(fn, f2, names)
            m = [g for c, g in cnt if c == path]
            if not m:
                ok = False
                break
            if not any(need <= g2 for need in m):
                ok = False
                why = "the count function returns %s only under %s" % (
                    path, sorted(m[0] - g2))
                break
        if ok:
            return None
    return why


def run():
    rep = Report("P03", __doc__)
    fns = list(api.functions().values())
    byname = {f.name: f for f in fns}
    todo = []
    for f in fns:
        ints = [k for k, (n, t) in enumerate(f.params) if t.strip() == "int"]
        if not ints or not f.params or "*" not in f.params[0][1] or \
                "const struct tg_" not in f.params[0][1] or \
                f.params[0][1].count("*") != 1 or "[" in f.params[0][1] or \
                "_new" in f.name:
            continue
        if any("*" in t for n, t in f.params[1:]):
            continue
        todo.append((f, ints))
    rep.count("accessors", len(todo))
    keep = set()
    for f, ints in todo:
        keep.add(f.name)
        for s, m in COUNT:
            if f.name.endswith(s):
                keep |= {f.name[:-len(s)] + x for x in m.values()}
    mod = ir.load("amalga", passes="internalize,globaldce," + ir.NORM,
                  opt=("-inline-threshold=100000",
                       "-internalize-public-api-list=" +
                       ",".join(sorted(keep))))
    for f, ints in todo:
        cm = next((m for s, m in COUNT if f.name.endswith(s)), None)
        if cm is None:
            rep.bad("unmatched:" + f.name, "tg.h", "%s takes an index and has "
                    "no count function" % f.name)
            continue
        fn = mod.funcs.get(f.name)
        if fn is None or fn.decl:
            raise ir.AnalysisBroken("no definition of " + f.name)
        # struct results may add a hidden first parameter
        shift = len(fn.args) - len(f.params)
        names = {k + shift: "p%d" % k for k in range(len(f.params))}
        stem = next(f.name[:-len(s)] for s, m in COUNT
                    if f.name.endswith(s))
        for k in ints:
            if k not in cm:
                raise ir.AnalysisBroken("index %d of %s" % (k, f.name))
            cname = stem + cm[k]
            cfn = mod.funcs.get(cname)
            if cfn is None or cname not in byname:
                raise ir.AnalysisBroken("no count function " + cname)
            cnt = counts(cfn, {q: "p%d" % q for q in range(len(cfn.args))})
            if not cnt:
                raise ir.AnalysisBroken(cname + " counts nothing")
            check(rep, f, fn, k + shift, names, cnt, cname, shift)
    return rep.finish()


def check(rep, f, fn, p, names, cnt, cname, shift):
    # control flow that depends on nothing else: accesses
    for i in fn.insts:
        addr = []
        if i.op == "load":
            addr = [i.ops[0]]
        elif i.op == "store":
            addr = [i.ops[1]]
        elif i.op == "call":
            addr = [a for a in i.args]
        if not any(depends(fn, a, p) for a in addr):
            continue
        why = in_range(fn, p, norm.facts(fn, i.block), names, cnt)
        rep.decide(why is None, "access:%s:%d" % (f.name, p - shift), loc(i),
                   "%s uses its index (parameter %d) unchecked: %s" %
                   (f.name, p - shift + 1, why),
                   "%s: access guarded against %s" % (loc(i), cname))
        rep.count("guarded_accesses")
    # results returned through memory
    if shift:
        for i in fn.insts:
            if i.op == "store" and root(fn, i.ops[1]) == 0:
                v = i.ops[0]
                zero = (v[0] in ("i", "f") and v[2] == 0) or \
                    v[0] in ("null", "zero")
            elif i.op == "call" and i.args and i.callee[0] == "fn" and \
                    root(fn, i.args[0]) == 0:
                zero = i.callee[1].startswith("llvm.memset") and \
                    i.args[1][0] == "i" and i.args[1][2] == 0
            else:
                continue
            rep.decide(zero or in_range(fn, p, norm.facts(fn, i.block),
                                        names, cnt) is None,
                       "result:%s:%d" % (f.name, p - shift), loc(i),
                       "%s returns something other than zero for an index "
                       "out of range" % f.name,
                       "%s: result of %s" % (loc(i), f.name))
            rep.count("results")
    # returned values
    for t in rets(fn):
        if not t.ops:
            continue
        for o, fs in leaves(fn, t.ops[0], t.block, norm.facts(fn, t.block)):
            zero = o[0] in ("null", "zero") or (o[0] == "i" and o[2] == 0) \
                or (o[0] == "f" and o[2] == 0) or agg_zero(fn, o, p, names,
                                                          cnt)
            rep.decide(zero or in_range(fn, p, fs, names, cnt) is None,
                       "result:%s:%d" % (f.name, p - shift), loc(t),
                       "%s returns something other than NULL or zero for an "
                       "index out of range" % f.name,
                       "%s: result of %s" % (loc(t), f.name))
            rep.count("results")


def root(fn, o):
    while o[0] == "r":
        i = cfg.defs(fn).get(o[1])
        if i is None:
            return o[1]
        if i.op not in ("gep", "bitcast", "freeze"):
            return None
        o = i.ops[0]
    return None


def agg_zero(fn, o, p, names, cnt):
    """aggregate whose every element is zero or in range"""
    i = cfg.defs(fn).get(o[1]) if o[0] == "r" else None
    if i is None or i.op != "insertvalue":
        return False
    while i is not None and i.op == "insertvalue":
        v = i.ops[1]
        for l, fs in leaves(fn, v, i.block, norm.facts(fn, i.block)):
            if not ((l[0] == "f" and l[2] == 0) or
                    (l[0] == "i" and l[2] == 0) or l[0] in ("null", "zero")
                    or in_range(fn, p, fs, names, cnt) is None):
                return False
        o = i.ops[0]
        if o[0] in ("undef", "zero"):
            return True
        i = cfg.defs(fn).get(o[1]) if o[0] == "r" else None
    return False
