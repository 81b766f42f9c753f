"""P18: predicates and their converses agree.

Each of within, coveredby, disjoint and equals is compared with its definition
through contains, covers and intersects: the function's control flow is
evaluated over truth values (helpers inlined; the definitions' answers for the
same two geometries, and whether an argument is NULL, are the variables; every
other condition is a variable of its own), for all assignments.  An assignment
under which the returned value is not the one of the definition is a
violation: the function then asks something else than its converse.  A
predicate is false for a NULL argument (decided by P12).
"""
from tgsa import modular, ir
from tgsa.report import Report

# name -> (definition), as a function of q(predicate, i, j)
BASIC = {"tg_geom_contains", "tg_geom_covers", "tg_geom_intersects"}
DEF = {
    "tg_geom_within": lambda q: q("tg_geom_contains", 1, 0),
    "tg_geom_coveredby": lambda q: q("tg_geom_covers", 1, 0),
    "tg_geom_disjoint": lambda q: not q("tg_geom_intersects", 0, 1),
    "tg_geom_equals": lambda q: q("tg_geom_contains", 1, 0) and
    q("tg_geom_contains", 0, 1),
}
SAY = {"tg_geom_within": "contains(b, a)", "tg_geom_coveredby":
       "covers(b, a)", "tg_geom_disjoint": "not intersects(a, b)",
       "tg_geom_equals": "contains(a, b) and contains(b, a)"}
LIMIT = 20000


class Ask(Exception):
    def __init__(s, atom):
        s.atom = atom


class Run:
    def __init__(s, fn, env):
        s.fn, s.env, s.val = fn, env, {}
        s.args = {a: k for k, a in enumerate(fn.args)}

    def ask(s, atom):
        if atom[0] == "pred":
            if any(s.ask(("null", k)) for k in atom[2:]):
                return False
        if atom not in s.env:
            raise Ask(atom)
        return s.env[atom]

    def q(s, n, i, j):
        if n in DEF:
            m = {0: i, 1: j}
            return DEF[n](lambda p, x, y: s.q(p, m[x], m[y]))
        return s.ask(("pred", n, i, j))

    def get(s, o):
        """True, False, a number, ("arg", k), ("ptr",) or ("id", n)"""
        if o[0] == "i":
            return bool(o[2] & 1) if o[1] == 1 else o[2]
        if o[0] == "null":
            return ("null",)
        if o[0] == "r":
            if o[1] in s.args:
                return ("arg", s.args[o[1]])
            return s.val.get(o[1], ("id", o[1]))
        return ("id", repr(o))

    def known(s, v):
        return isinstance(v, (bool, int))

    def truth(s, v, i):
        if s.known(v):
            return bool(v)
        return s.ask(("cond", i.id))

    def step(s, i, prev):
        op = i.op
        if op == "phi":
            for b, v in i.incoming:
                if b is prev:
                    return s.get(v)
        if op == "select":
            return s.get(i.ops[1 if s.truth(s.get(i.ops[0]), i) else 2])
        if op in ("zext", "freeze", "trunc", "bitcast", "sext"):
            v = s.get(i.ops[0])
            if isinstance(v, bool) and i.ty.kind == "int" and i.ty.bits > 1:
                return (-1 if op == "sext" else 1) if v else 0
            if not isinstance(v, bool) and isinstance(v, int) and \
                    i.ty.kind == "int" and i.ty.bits == 1:
                return bool(v & 1)
            return v
        if op in ("xor", "and", "or"):
            a, b = s.get(i.ops[0]), s.get(i.ops[1])
            if s.known(a) and s.known(b):
                a, b = int(a), int(b)
                r = a ^ b if op == "xor" else a & b if op == "and" else a | b
                return bool(r & 1) if i.ty.bits == 1 else r
            for x in (a, b):
                if s.known(x) and op == "and" and x == 0 or \
                        x is True and op == "or":
                    return x
        if op == "icmp":
            a, b = s.get(i.ops[0]), s.get(i.ops[1])
            if s.known(a) and s.known(b) and i.pred in ("eq", "ne"):
                return (int(a) == int(b)) == (i.pred == "eq")
            for x, y in ((a, b), (b, a)):
                if isinstance(x, tuple) and x[0] == "arg" and \
                        y == ("null",) and \
                        i.pred in ("eq", "ne"):
                    return s.ask(("null", x[1])) == (i.pred == "eq")
        if op == "call" and i.callee[0] == "fn" and \
                (i.callee[1] in BASIC or i.callee[1] in DEF):
            v = [s.get(a) for a in i.args]
            if len(v) == 2 and all(isinstance(x, tuple) and x[0] == "arg"
                                   for x in v):
                return s.q(i.callee[1], v[0][1], v[1][1])
        if i.ty.kind == "int" and i.ty.bits == 1:
            return s.ask(("cond", i.id))
        return ("id", i.id)

    def run(s):
        b, prev, n = s.fn.blocks[0], None, 0
        while True:
            n += 1
            if n > 200:
                return None
            new = {}
            for i in b.insts:
                if i.op == "phi":
                    new[i.id] = s.step(i, prev)
                    continue
                if new:
                    s.val.update(new)
                    new = {}
                if i.op == "ret":
                    v = s.get(i.ops[0]) if i.ops else None
                    return s.truth(v, i)
                if i.op == "br":
                    if len(i.succs) == 1:
                        nx = i.succs[0]
                    else:
                        nx = i.succs[0 if s.truth(s.get(i.ops[0]), i) else 1]
                elif i.op == "switch":
                    v = s.get(i.ops[0])
                    nx = i.succs[0]
                    for k, (c, d) in enumerate(i.cases):
                        if s.known(v) and int(v) == c or \
                                not s.known(v) and s.ask(("case", i.id, k)):
                            nx = d
                            break
                elif i.op == "unreachable":
                    return None
                elif i.ty.kind != "void":
                    s.val[i.id] = s.step(i, prev)
            prev, b = b, nx


def decide(fn, name):
    """[(assignment, got, wanted)] where they differ; number of assignments"""
    work, bad, n = [{}], [], 0
    while work:
        env = work.pop()
        n += 1
        if n > LIMIT:
            return [({}, "more conditions than can be enumerated", None)], n
        try:
            r = Run(fn, env)
            got = r.run()
            want = Run(fn, env).q(name, 0, 1)
        except Ask as a:
            work += [dict(env, **{}) | {a.atom: t} for t in (False, True)]
            continue
        if got is None or got != want:
            bad.append((env, got, want))
    return bad, n


def line(fn, env):
    by = {i.id: i for i in fn.insts}
    ls = [by[a[1]].line for a in env if a[0] in ("cond", "case") and
          a[1] in by and by[a[1]].line]
    return ls[0] if ls else fn.line


def run():
    rep = Report("P18", __doc__)
    mod = modular.load(keep=tuple(BASIC) + tuple(DEF))
    total = 0
    for name in sorted(DEF):
        fn = mod.funcs.get(name)
        if fn is None or fn.decl:
            raise ir.AnalysisBroken(name + " not found")
        bad, n = decide(fn, name)
        total += n
        if bad:
            env, got, want = min(bad, key=lambda x: len(x[0]))
            other = [a for a in env if a[0] in ("cond", "case")]
            rep.bad("converse:%s" % name, "tg.c:%s" % line(fn, env),
                    "%s is not %s: it may answer %s where that is %s%s" % (
                        name, SAY[name], got, want,
                        " (another condition decides)" if other else ""))
        else:
            rep.ok("%s is %s under every assignment" % (name, SAY[name]))
    rep.count("functions", len(DEF))
    rep.count("assignments", total)
    if total < 10:
        raise ir.AnalysisBroken("nothing was evaluated")
    return rep.finish()
