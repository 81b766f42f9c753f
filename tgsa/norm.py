"""Helpers over the normal form (ir.NORM): dominating conditions, affine and
derivation walks over SSA."""
from . import cfg

NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle",
       "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge",
        "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


def sint(o):
    """signed value of an integer constant operand, or None"""
    if o[0] != "i":
        return None
    w, v = o[1], o[2]
    return v - (1 << w) if w > 1 and v >> (w - 1) & 1 else v


def atoms(fn, o, truth, depth=0):
    """atomic icmps implied by operand o having the given truth:
    [(pred, lhs, rhs, inst)] with the predicate already negated as needed"""
    if o[0] != "r" or depth > 12:
        return []
    i = cfg.defs(fn).get(o[1])
    if i is None:
        return []
    if i.op == "icmp":
        p = i.pred if truth else NEG[i.pred]
        out = [(p, i.ops[0], i.ops[1], i)]
        if i.pred in ("ne", "eq") and i.ops[1][0] == "i" and \
                i.ops[1][2] == 0 and i.ops[0][0] == "r":
            d = cfg.defs(fn).get(i.ops[0][1])
            if d is not None and d.op in ("zext", "sext"):
                out += atoms(fn, d.ops[0], (i.pred == "ne") == truth,
                             depth + 1)
            elif d is not None and d.op == "and" and d.ty.kind == "int" and \
                    d.ty.bits == 8 and d.ops[1] == ("i", 8, 1):
                # a bool kept in a byte
                out += atoms(fn, d.ops[0], (i.pred == "ne") == truth,
                             depth + 1)
        return out
    if i.op in ("and", "or"):
        if (i.op == "and") == truth:
            return (atoms(fn, i.ops[0], truth, depth + 1) +
                    atoms(fn, i.ops[1], truth, depth + 1))
        return []
    if i.op == "xor" and i.ops[1][0] == "i" and i.ops[1][2] & 1:
        return atoms(fn, i.ops[0], not truth, depth + 1)
    if i.op == "select":
        c, a, b = i.ops
        if b[0] == "i" and not b[2] and truth:       # c && a
            return atoms(fn, c, True, depth + 1) + \
                atoms(fn, a, True, depth + 1)
        if a[0] == "i" and a[2] and not truth:       # c || b
            return atoms(fn, c, False, depth + 1) + \
                atoms(fn, b, False, depth + 1)
        return []
    if i.op in ("zext", "trunc", "freeze"):
        return atoms(fn, i.ops[0], truth, depth + 1)
    return [("ne" if truth else "eq", o, ("i", 1, 0), i)]


def facts(fn, block):
    """atomic conditions that hold whenever control reaches block"""
    key = ("facts", block.id)
    if key in fn._cache:
        return fn._cache[key]
    out = []
    for b in fn.blocks:
        if not b.insts:
            continue
        t = b.insts[-1]
        if t.op == "br" and len(t.succs) == 2 and \
                t.succs[0] is not t.succs[1]:
            for s, truth in ((t.succs[0], True), (t.succs[1], False)):
                if cfg.edge_dominates(fn, b, s, block):
                    out += atoms(fn, t.ops[0], truth)
        elif t.op == "switch":
            for s in set(t.succs):
                if not cfg.edge_dominates(fn, b, s, block):
                    continue
                vals = [v for v, d in t.cases if d is s]
                w = 64
                o = t.ops[0]
                if s is t.succs[0]:
                    if not vals:
                        for v, d in t.cases:
                            out.append(("ne", o, ("i", w, v), t))
                elif len(vals) == 1:
                    out.append(("eq", o, ("i", w, vals[0]), t))
    fn._cache[key] = out
    # correlated branches: an edge into a dominating join that contradicts
    # what holds here is not taken; when one edge remains its facts hold too
    dom = cfg.idom(fn)
    b, chain = block, []
    while b is not None and b.id in dom:
        chain.append(b)
        n = dom[b.id]
        if n == b.id:
            break
        b = fn.blocks[n]
    for J in chain:
        if len(J.preds) < 2:
            continue
        left, via = [], None
        for p in J.preds:
            if p.id not in dom or cfg.dominates(fn, J, p):
                left = None
                break
            ef = facts(fn, p) + edge_facts(fn, p, J)
            if not any(contra(x, y) for x in ef for y in out) and \
                    not phi_contra(fn, p, J, out):
                left.append(ef)
                via = p
        if left and len(left) == 1:
            out += [x for x in left[0] if x not in out]
            for i in J.insts:
                if i.op != "phi":
                    break
                v = next((v for b, v in i.incoming if b is via), None)
                if v is None or v[0] != "r":
                    continue
                for pr, a, b, _ in list(out):
                    if a == ("r", i.id) and pr in ("eq", "ne") and \
                            b[0] == "i" and b[2] == 0:
                        out += [x for x in atoms(fn, v, pr == "ne")
                                if x not in out]
    return out


def edge_facts(fn, p, d):
    t = p.insts[-1]
    if t.op == "br" and len(t.succs) == 2 and t.succs[0] is not t.succs[1]:
        return atoms(fn, t.ops[0], t.succs[0] is d)
    return []


def phi_contra(fn, p, J, fs):
    """a fact about a phi of J excludes the constant it has coming from p"""
    for i in J.insts:
        if i.op != "phi":
            break
        v = next((v for b, v in i.incoming if b is p), None)
        if v is None:
            continue
        if v[0] == "r":
            t = None
            for pr, a, b, _ in fs:
                if a == ("r", i.id) and pr in ("eq", "ne") and \
                        b[0] == "i" and b[2] == 0:
                    if t is None:
                        t = truth_of(fn, v, facts(fn, p) +
                                     edge_facts(fn, p, J))
                    if t is (pr == "eq"):
                        return True
        if v[0] not in ("i", "null"):
            continue
        for pr, a, b, _ in fs:
            if a == ("r", i.id) and b[0] == v[0] and holds(pr, v, b) is False:
                return True
    return False


def truth_of(fn, o, fs, depth=0):
    """True or False when the facts fs decide whether operand o is nonzero"""
    if o[0] == "i":
        return o[2] != 0
    if o[0] != "r" or depth > 6:
        return None
    for pr, a, b, _ in fs:
        if a == o and b[0] == "i" and b[2] == 0 and pr in ("eq", "ne"):
            return pr == "ne"
    i = cfg.defs(fn).get(o[1])
    if i is None:
        return None
    if i.op == "xor" and i.ops[1][0] == "i" and i.ops[1][2] == 1:
        t = truth_of(fn, i.ops[0], fs, depth + 1)
        return None if t is None else not t
    if i.op in ("zext", "freeze"):
        return truth_of(fn, i.ops[0], fs, depth + 1)
    return None


def holds(pr, a, b):
    if a[0] == "null":
        return {"eq": True, "ne": False}.get(pr)
    x, y = sint(a), sint(b)
    w = max(a[1], b[1])
    m = (1 << w) - 1
    return {"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y,
            "sgt": x > y, "sge": x >= y, "ult": x & m < y & m,
            "ule": x & m <= y & m, "ugt": x & m > y & m,
            "uge": x & m >= y & m}[pr]


def contra(x, y):
    return x[1] == y[1] and x[2] == y[2] and NEG[x[0]] == y[0]


def affine(fn, o, depth=0):
    """o = reg + c through int casts: (reg id or None, c)"""
    if o[0] == "i":
        return (None, sint(o))
    if o[0] != "r":
        return None
    i = cfg.defs(fn).get(o[1])
    if i is None:
        return (o[1], 0)
    if depth > 20:
        return (o[1], 0)
    if i.op in ("sext", "zext", "freeze"):
        return affine(fn, i.ops[0], depth + 1)
    if i.op in ("add", "sub"):
        c = sint(i.ops[1])
        if c is not None:
            a = affine(fn, i.ops[0], depth + 1)
            if a is not None:
                return (a[0], a[1] + (c if i.op == "add" else -c))
    return (o[1], 0)


def web(fn, o):
    """all registers connected with o through phis, selects and casts, and
    the additive constants met on the way: (regs, increments)"""
    D = cfg.defs(fn)
    seen, inc, st = set(), set(), [o]
    U = cfg.uses(fn)
    while st:
        x = st.pop()
        if x[0] == "i":
            continue
        if x[0] != "r" or x[1] in seen:
            continue
        seen.add(x[1])
        i = D.get(x[1])
        if i is None:
            continue
        if i.op == "phi":
            st += i.ops
        elif i.op == "select":
            st += i.ops[1:]
        elif i.op in ("sext", "zext", "trunc", "freeze"):
            st.append(i.ops[0])
        elif i.op in ("add", "sub"):
            c = sint(i.ops[1])
            if c is not None:
                inc.add(c if i.op == "add" else -c)
                st.append(i.ops[0])
        elif i.op == "call" and i.callee[0] == "fn" and \
                i.callee[1].startswith(("llvm.smax", "llvm.umax",
                                        "llvm.smin", "llvm.umin")):
            st += i.args
    return seen, inc
