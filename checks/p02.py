"""P02: recursion depth is bounded for every input.

On the normal form (helpers inlined) every strongly connected component of
the call graph is enumerated, and each must carry one of these arguments:

 A  depth parameter: an integer parameter passed on unchanged or increased by
    a constant on every call inside the component; every cycle increases it;
    every cycle contains a call that is reached only while the parameter is
    at most a constant <= LIMIT; calls from outside start it at a constant.
 N  pre-scan: every cycle passes a call that is dominated by the success of a
    scanner (a function that counts nesting up and down and fails when the
    nesting exceeds a constant <= LIMIT).
 J  validated JSON: every call from outside is dominated by the success of
    the JSON validator (whose own recursion is decided by A), and every cycle
    moves to a JSON value obtained from the current one.
 L  index levels: like A, with the guard comparing the parameter to a value
    read from the index.
 D  structural descent: every cycle contains a call that is handed an object
    loaded from an object that the function was handed.

Further rules: no variable-size stack allocation; the value that a nesting
limit is compared with must be a measure of nesting (goes down as well as up,
or is a depth parameter), else siblings are counted as nesting.
"""
from tgsa import ir, cg, cfg, norm
from tgsa.report import Report

LIMIT = 8192
MINLIMIT = 128


def loc(i):
    return "%s:%s" % (i.file or i.fn.file or "?", i.line)


class Comp:
    def __init__(self, mod, g, fns):
        self.mod, self.g, self.fns = mod, g, sorted(fns)
        self.edges, self.entries = [], []
        S = set(fns)
        for f in mod.defined():
            for inst, ts in g.calls.get(f.name, []):
                for t in ts:
                    if t in S:
                        (self.edges if f.name in S else
                         self.entries).append((f, inst, t))

    def acyclic_without(self, drop):
        adj = {f: set() for f in self.fns}
        for k, (f, inst, t) in enumerate(self.edges):
            if k not in drop:
                adj[f.name].add(t)
        for s in cfg.sccs(self.fns, lambda x: adj[x]):
            s = list(s)
            if len(s) > 1 or s[0] in adj[s[0]]:
                return s
        return None

    # -- depth parameters -------------------------------------------------
    def depth(self, levels=False, bounded={}):
        """returns (ok, reason, guarded bound)"""
        cand = {f: {k for k, t in enumerate(self.mod.funcs[f].argtys)
                    if t.kind == "int" and t.bits >= 16} for f in self.fns}
        aff = {}
        for k, (f, inst, t) in enumerate(self.edges):
            aff[k] = [norm.affine(f, a) for a in inst.args]
        changed = True
        while changed:
            changed = False
            for k, (f, inst, t) in enumerate(self.edges):
                for p in list(cand[t]):
                    a = aff[k][p] if p < len(aff[k]) else None
                    if not (a and a[0] is not None and a[0] in cand[f.name]
                            and a[1] >= 0):
                        cand[t].discard(p)
                        changed = True
        best = None
        first = self.fns[0]
        for p0 in sorted(cand[first]):
            # propagate a consistent choice
            choice = {first: p0}
            ok = True
            work = True
            while work:
                work = False
                for k, (f, inst, t) in enumerate(self.edges):
                    if t in choice and f.name not in choice:
                        a = aff[k][choice[t]]
                        choice[f.name] = a[0]
                        work = True
                    elif t in choice and aff[k][choice[t]][0] != \
                            choice[f.name]:
                        ok = False
            if not ok or len(choice) != len(self.fns):
                continue
            inc, grd, bounds = set(), set(), []
            for k, (f, inst, t) in enumerate(self.edges):
                if aff[k][choice[t]][1] > 0:
                    inc.add(k)
                b = self.bound(f, inst, choice[f.name], levels)
                if b is not None:
                    grd.add(k)
                    bounds.append(b)
            c = self.acyclic_without(inc)
            if c:
                best = best or "the depth is not increased on the cycle " + \
                    " -> ".join(c)
                continue
            c = self.acyclic_without(grd)
            if c:
                best = "no depth limit on the cycle " + " -> ".join(c)
                continue
            if not levels:
                for f, inst, t in self.entries:
                    a = norm.affine(f, inst.args[choice[t]])
                    if a is not None and a[0] is not None:
                        d = cfg.defs(f).get(a[0])
                        if d is not None and d.op == "trunc" and \
                                d.ty.bits >= 16:
                            a2 = norm.affine(f, d.ops[0])
                            a = a2 and (a2[0], a2[1] + a[1])
                    if a is not None and a[0] is not None and \
                            bounded.get(f.name) == a[0] and \
                            0 <= a[1] <= LIMIT:
                        continue        # the bounded depth of the caller
                    if a is None or a[0] is not None or \
                            not 0 <= a[1] <= LIMIT:
                        return False, "%s: %s starts %s at a depth that is " \
                            "not a constant" % (loc(inst), f.name, t), None
            return True, choice, bounds
        return False, best or "no depth parameter", None

    def bound(self, f, inst, p, levels):
        for pred, a, b, ci in norm.facts(f, inst.block):
            for x, y, pr in ((a, b, pred), (b, a, norm.SWAP[pred])):
                ax = norm.affine(f, x)
                if ax is None or ax[0] != p:
                    continue
                c = norm.sint(y)
                if c is not None and not levels:
                    c -= ax[1]
                    if pr in ("slt", "ult", "sle", "ule") and \
                            MINLIMIT <= c <= LIMIT:
                        return c
                if levels and y[0] == "r" and pr in ("ne", "slt", "sle",
                                                     "ult", "ule"):
                    d = cfg.defs(f).get(y[1])
                    ay = norm.affine(f, y)
                    d = cfg.defs(f).get(ay[0]) if ay and ay[0] is not None \
                        else d
                    if d is not None and d.op == "load":
                        return 0
        return None

    def level_edges(self):
        """self calls that move at least one level parameter forward, with a
        guard against a bound read from memory, and move none back"""
        out = set()
        for fn in self.fns:
            es = [(k, e) for k, e in enumerate(self.edges)
                  if e[0].name == fn and e[2] == fn]
            f = self.mod.funcs[fn]
            M = []
            for p, t in enumerate(f.argtys):
                if t.kind == "int" and es and all(
                        (a := norm.affine(f, e[1].args[p])) is not None and
                        a[0] == p and a[1] >= 0 for _, e in es):
                    M.append(p)
            for k, (f, inst, t) in es:
                for p in M:
                    if norm.affine(f, inst.args[p])[1] > 0 and \
                            self.bound(f, inst, p, True) is not None:
                        out.add(k)
        return out

    # -- structural descent -----------------------------------------------
    def descent(self, jsonlike=False):
        drop = self.level_edges()
        for k, (f, inst, t) in enumerate(self.edges):
            for a in inst.args:
                if below(f, a, set(self.fns), jsonlike):
                    drop.add(k)
        c = self.acyclic_without(drop)
        return (c is None, c, len(drop))


def below(fn, o, scc, jsonlike, seen=None, depth=0):
    """o points strictly below something fn was handed (loaded through a
    pointer of it)"""
    D = cfg.defs(fn)
    seen = seen if seen is not None else set()
    if o[0] != "r" or o[1] in seen:
        return False
    seen.add(o[1])
    i = D.get(o[1])
    if i is None:
        return False
    if i.op == "load":
        if i.ty.kind != "ptr":
            return False
        return rooted(fn, i.ops[0], set(), jsonlike)
    if i.op in ("phi", "select"):
        xs = i.ops if i.op == "phi" else i.ops[1:]
        got = False
        for x in xs:
            if x[0] in ("null", "undef"):
                continue
            if x[0] == "r" and x[1] in seen:
                continue
            if not below(fn, x, scc, jsonlike, seen, depth + 1):
                return False
            got = True
        return got
    if i.op in ("gep", "bitcast", "freeze"):
        return below(fn, i.ops[0], scc, jsonlike, seen, depth + 1)
    if i.op == "call" and i.callee[0] == "fn" and i.callee[1] not in scc:
        return i.ty.kind == "ptr" and any(
            rooted(fn, a, set(), jsonlike) for a in i.args)
    if i.op == "alloca" and jsonlike:
        # a struct filled in by calls outside of the component, and not a copy
        # of what the function was handed
        got = False
        for u in cfg.uses(fn).get(i.id, []):
            if u.op != "call" or u.callee[0] != "fn":
                continue
            if u.callee[1].startswith("llvm.memcpy") and \
                    u.args[0] == ("r", i.id):
                if not below(fn, u.args[1], scc, jsonlike, seen, depth + 1):
                    return False
                got = True
            elif u.callee[1] not in scc and \
                    not u.callee[1].startswith("llvm."):
                got = True
        return got
    return False


def rooted(fn, o, seen, jsonlike):
    D = cfg.defs(fn)
    if o[0] != "r" or o[1] in seen:
        return False
    seen.add(o[1])
    i = D.get(o[1])
    if i is None:
        return fn.argtys[o[1]].kind == "ptr"
    if i.op in ("gep", "load", "bitcast", "freeze"):
        return rooted(fn, i.ops[0], seen, jsonlike)
    if i.op == "phi":
        return any(rooted(fn, x, seen, jsonlike) for x in i.ops)
    if i.op == "select":
        return any(rooted(fn, x, seen, jsonlike) for x in i.ops[1:])
    if i.op == "call":
        return i.ty.kind == "ptr" and any(
            rooted(fn, a, seen, jsonlike) for a in i.args)
    return False


def scanners(mod):
    """functions with a nesting limit: a comparison of a loop-carried counter
    with a constant in [MINLIMIT, LIMIT]: {fn: [(icmp, is_nesting)]}"""
    out = {}
    for f in mod.defined():
        for i in f.insts:
            if i.op != "icmp":
                continue
            for a, b, p in ((i.ops[0], i.ops[1], i.pred),
                            (i.ops[1], i.ops[0], norm.SWAP[i.pred])):
                c = norm.sint(b)
                if c is None or not 512 <= c <= LIMIT or \
                        p in ("eq", "ne"):
                    continue
                regs, inc = norm.web(f, a)
                phis = [cfg.defs(f)[r] for r in regs if r in cfg.defs(f) and
                        cfg.defs(f)[r].op == "phi"]
                if not phis or not any(x > 0 for x in inc) or \
                        not all(abs(x) == 1 for x in inc) or \
                        not fails(f, i):
                    continue
                # the counter is known there (it went back to its start)
                known = any(p2 == "eq" and c2[0] == "i" and
                            r2[0] == "r" and r2[1] in regs
                            and a == r2
                            for p2, r2, c2, _ in norm.facts(f, i.block))
                out.setdefault(f.name, []).append(
                    (i, any(x < 0 for x in inc) and not known))
    return out


def fails(fn, ic):
    """the comparison decides a branch that leads straight to a return of a
    failure (a negative value, 0 or NULL)"""
    for b in fn.blocks:
        t = b.insts[-1] if b.insts else None
        if t is None or t.op != "br" or not t.ops:
            continue
        for truth in (True, False):
            if any(x[3] is ic for x in norm.atoms(fn, t.ops[0], truth)):
                return True
    return False


def success_of(fn, block, names, mod):
    """a fact at block says that a call of one of names succeeded"""
    D = cfg.defs(fn)
    for pred, a, b, ci in norm.facts(fn, block):
        for x in (a, b):
            for src in origins(fn, x):
                if src in names:
                    other = b if x is a else a
                    c = norm.sint(other)
                    if c is None:
                        continue
                    p = pred if x is a else norm.SWAP[pred]
                    if (p == "sgt" and c >= -1) or (p == "sge" and c >= 0) \
                            or (p == "ne" and c == 0) or \
                            (p == "eq" and c == 1):
                        return src
    return None


def origins(fn, o, depth=0, seen=None):
    """names of the functions whose result (or result struct) o is read from"""
    D = cfg.defs(fn)
    seen = seen if seen is not None else set()
    if o[0] != "r" or depth > 10 or o[1] in seen:
        return
    seen.add(o[1])
    i = D.get(o[1])
    if i is None:
        return
    if i.op == "call" and i.callee[0] == "fn":
        yield i.callee[1]
    elif i.op in ("extractvalue", "trunc", "zext", "sext", "freeze", "and",
                  "lshr"):
        yield from origins(fn, i.ops[0], depth + 1, seen)
    elif i.op == "phi":
        # every incoming value is the result or a failure constant
        for x in i.ops:
            yield from origins(fn, x, depth + 1, seen)
    elif i.op == "load":
        p = i.ops[0]
        base = D.get(p[1]) if p[0] == "r" else None
        while base is not None and base.op == "gep":
            p = base.ops[0]
            base = D.get(p[1]) if p[0] == "r" else None
        if base is not None and base.op == "alloca":
            for u in cfg.uses(fn).get(base.id, []):
                if u.op == "call" and u.args and u.args[0] == p and \
                        u.callee[0] == "fn":
                    yield u.callee[1]


FORMS = (("raw", "sroa", ()),
         ("small helpers inlined", ir.NORM, ("-inline-threshold=25",)),
         ("helpers inlined", ir.NORM, ()),
         ("threaded", ir.NORM + ",function(jump-threading,simplifycfg)", ()))


def run():
    rep = Report("P02", __doc__)
    for conf in ("amalga", "noamalga", "noatomics"):
        forms = [ir.load(conf, passes=p, opt=o) for _, p, o in FORMS]
        decide(rep, forms, conf)
        rep.count("configurations")
    return rep.finish()


def comps_of(mod):
    """[(Comp, argument or None, (key, where, why))]"""
    g = cg.CallGraph(mod)
    names = [f.name for f in mod.defined()]
    D = set(names)
    succ = lambda f: [x for x in g.succ(f) if x in D]
    sc = scanners(mod)
    scan_ok = {fn for fn, l in sc.items() if all(n for _, n in l)}
    comps = []
    for s in cfg.sccs(names, succ):
        s = list(s)
        if len(s) > 1 or s[0] in succ(s[0]):
            comps.append(Comp(mod, g, s))
    out, bounded = [], {}
    todo = list(comps)
    progress = True
    why = {}
    while progress:
        progress = False
        for c in list(todo):
            ok, info, bounds = c.depth(bounded=bounded)
            why[c] = info
            if ok:
                out.append((c, "depth parameter, limits %s" %
                            sorted(set(bounds)), None))
                for f in c.fns:
                    bounded[f] = info[f]
                todo.remove(c)
                progress = True
    # functions of the JSON validator: what leads to the bounded recursion
    # over bytes and returns its verdict, without parsing anything else
    jsonval = set()
    val = {f for f in bounded if f in ("vany", "varray", "vobject")}
    for _ in range(5):
        for f in mod.defined():
            ts = {t for t in g.succ(f.name) if t in D}
            if f.name not in val and ts & val and \
                    f.name not in bounded and pure_verdict(f, val, g):
                val.add(f.name)
                jsonval.add(f.name)
    for c in todo:
        nm = "/".join(c.fns)
        where = loc(c.edges[0][1])
        key = "recursion:%s" % c.fns[0]
        ok, info, _ = c.depth(levels=True)
        if ok or (c.acyclic_without(c.level_edges()) is None):
            out.append((c, "index levels", None))
            continue
        drop = {k for k, (f, inst, t) in enumerate(c.edges)
                if success_of(f, inst.block, scan_ok, mod)}
        if drop and c.acyclic_without(drop) is None:
            out.append((c, "pre-scanned nesting", None))
            continue
        bad = [(f, i) for f, i, t in c.entries
               if not success_of(f, i.block, jsonval, mod)]
        if any(f.startswith("parse_") or f.startswith("v")
               for f in c.fns):
            ok, cyc, n = c.descent(jsonlike=True)
            if c.entries and not bad and ok:
                out.append((c, "validated JSON", None))
            elif drop or any("wkt" in f for f in c.fns):
                cyc = c.acyclic_without(drop)
                out.append((c, None, (key, where, "%s recurses on the input "
                                      "and no nesting scan guards the cycle "
                                      "%s (%s)" % (nm, " -> ".join(cyc or []),
                                                   why[c]))))
            elif bad and any("json" in f for f in c.fns):
                out.append((c, None, (key, loc(bad[0][1]), "%s enters the "
                                      "recursion of %s without a successful "
                                      "validation of the JSON" %
                                      (bad[0][0].name, nm))))
            else:
                out.append((c, None, (key, where, "%s recurses on the input "
                                      "without a bound: %s" %
                                      (nm, why[c]))))
            continue
        ok, cyc, n = c.descent()
        out.append((c, "structural descent" if ok else None,
                    (key, where, "%s recurses without descending: cycle %s "
                     "(%s)" % (nm, " -> ".join(cyc or []), why[c]))))
    return out, sc, g


def pure_verdict(f, val, g):
    """f calls only the validator (and pure library functions) and stores
    nothing outside its own frame"""
    for t in g.succ(f.name):
        if t not in val and not t.startswith("llvm.") and \
                t not in ("strlen", "memcmp"):
            return False
    return True


def decide(rep, forms, conf):
    res = [comps_of(m) for m in forms]
    mod = forms[0]
    rep.count("functions", len(mod.defined()))
    rep.count("call_sites", sum(len(c) for c in res[0][2].calls.values()))
    for f in mod.defined():
        for i in f.insts:
            if i.op == "alloca":
                if i.ops and i.ops[0][0] != "i":
                    rep.bad("vla:%s" % f.name, loc(i),
                            "%s allocates stack space of variable size"
                            % f.name)
                elif i.aty.size > 1 << 20:
                    rep.bad("bigstack:%s" % f.name, loc(i),
                            "%s keeps %d bytes on the stack" %
                            (f.name, i.aty.size))
                else:
                    rep.ok()
            elif i.op == "call" and i.callee == ("fn", "alloca"):
                rep.bad("vla:%s" % f.name, loc(i), "alloca")
    for fn, l in sorted(res[0][1].items()):
        for i, nesting in l:
            rep.decide(nesting, "count:%s" % fn, loc(i),
                       "%s compares a counter that only goes up with the "
                       "nesting limit: siblings count as nesting" % fn,
                       "%s: nesting counter of %s" % (loc(i), fn))
    for c, arg, bad in res[0][0]:
        if not arg:
            for other, _, _ in res[1:]:
                m = [(oc, oa) for oc, oa, _ in other
                     if set(oc.fns) & set(c.fns)]
                if m and all(oa for _, oa in m):
                    arg = m[0][1] + " (after inlining)"
                    break
        if arg:
            rep.ok("%s: %s" % ("/".join(c.fns), arg))
            rep.count(arg.split(",")[0].split(" (")[0].replace(" ", "_"))
        else:
            rep.bad(*bad)
