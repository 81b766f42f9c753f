"""Values of one function as polynomials over what it read.

A value is a sum of products of leaves; a leaf is a register or the content
of a memory cell at a version.  Cells are (root, offset) of the origin
analysis; distinct roots are distinct memory.  The version of a cell at a
point is the last instruction that may have written it, or a merge point, so
two reads with the same version read the same value.
"""
from . import cfg, norm


def overlap(e, cell, size=8):
    for r, o in e:
        if r == cell[0] and (o is None or cell[1] is None or
                             -8 < o - cell[1] < 8):
            return True
    return False


class Lin:
    def __init__(self, W, fn, fixed=()):
        """fixed: {(root, off): leaf} cells that never change"""
        self.W, self.fn = W, fn
        self.one = W.one[fn.name]
        self.fixed = dict(fixed)
        self.D = cfg.defs(fn)
        self.ver = {}
        self.memo = {}
        self.argno = {("r", a): k for k, a in enumerate(fn.args)}

    # ---- memory versions
    def versions(self, cell):
        if cell in self.ver:
            return self.ver[cell]
        fn, one = self.fn, self.one
        order = cfg.rpo(fn)
        order = [fn.blocks[b] if isinstance(b, int) else b for b in order]
        inn, at = {fn.blocks[0].id: ("entry",)}, {}
        out = {}
        for _ in range(50):
            ch = False
            for b in order:
                if b is not fn.blocks[0]:
                    vs = {out[p.id] for p in b.preds if p.id in out}
                    if len(vs) == 1 and inn.get(b.id, ("x",))[0] != "join":
                        v = vs.pop()
                    elif vs:
                        v = ("join", b.id)
                    else:
                        continue
                    if inn.get(b.id) != v:
                        inn[b.id] = v
                        ch = True
                v = inn[b.id]
                for i in b.insts:
                    at[id(i)] = v
                    e = one.eff.get(id(i))
                    if e and overlap(e, cell):
                        v = ("def", i)
                if out.get(b.id) != v:
                    out[b.id] = v
                    ch = True
            if not ch:
                break
        self.ver[cell] = (at, out)
        return at, out

    def cell(self, o):
        v = self.one.val(o)
        if len(v) == 1:
            (r, off), = v
            if off is not None and r[0] in "APLG":
                return (r, off)
        return None

    # ---- polynomials
    def leaf(self, k):
        return {(k,): 1}

    def poly(self, o, depth=0):
        if o[0] == "i":
            c = norm.sint(o)
            return {(): c} if c else {}
        if o[0] == "null":
            return {}
        if o[0] != "r":
            return self.leaf(o)
        if o in self.memo:
            return self.memo[o]
        if depth > 40:
            return self.leaf(o)
        self.memo[o] = self.leaf(o)
        p = self.poly1(o, depth + 1)
        self.memo[o] = p
        return p

    def poly1(self, o, d):
        if o in self.argno:
            return self.leaf(("arg", self.argno[o]))
        i = self.D.get(o[1])
        if i is None:
            return self.leaf(o)
        if i.op in ("zext", "sext", "freeze", "bitcast", "ptrtoint",
                    "inttoptr"):
            return self.poly(i.ops[0], d)
        if i.op == "add" or i.op == "or" and False:
            return add(self.poly(i.ops[0], d), self.poly(i.ops[1], d))
        if i.op == "sub":
            return add(self.poly(i.ops[0], d), self.poly(i.ops[1], d), -1)
        if i.op == "mul":
            return mul(self.poly(i.ops[0], d), self.poly(i.ops[1], d))
        if i.op == "shl" and i.ops[1][0] == "i":
            return mul(self.poly(i.ops[0], d), {(): 1 << i.ops[1][2]})
        if i.op == "gep":
            p = self.poly(i.ops[0], d)
            p = add(p, {(): i.gep[0]} if i.gep[0] else {})
            for x, sc in i.gep[1]:
                p = add(p, mul(self.poly(x, d), {(): sc}))
            return p
        if i.op == "phi":
            ps = [self.poly(v, d) for _, v in i.incoming if v != o]
            if ps and all(x == ps[0] for x in ps) and \
                    not any(o in m for m in ps[0]):
                return ps[0]
            # a web of phis around one value that never changes
            seen, st, src = {i.id}, [i], set()
            while st:
                for _, v in st.pop().incoming:
                    j = self.D.get(v[1]) if v[0] == "r" else None
                    if j is not None and j.op == "phi":
                        if j.id not in seen:
                            seen.add(j.id)
                            st.append(j)
                    else:
                        src.add(v)
            if len(seen) > 1 or len(src) < len(i.incoming):
                ps = [self.poly(v, d) for v in src]
                if ps and all(x == ps[0] for x in ps) and all(
                        l[0] == "arg" or l[0] == "mem" and l[2] == ("entry",)
                        for m in ps[0] for l in m):
                    return ps[0]
        if i.op == "load":
            c = self.cell(i.ops[0])
            if c is not None:
                if c in self.fixed:
                    return self.leaf(self.fixed[c])
                at, _ = self.versions(c)
                v = at.get(id(i))
                if v is not None:
                    if v[0] == "def" and v[1].op == "store" and \
                            self.cell(v[1].ops[1]) == c:
                        return self.poly(v[1].ops[0], d)
                    if v[0] == "def":
                        v = ("def", v[1].block.id, v[1].block.insts.index(
                            v[1]))
                    return self.leaf(("mem", c, v, i.ty.bits if
                                      i.ty.kind == "int" else 64))
        return self.leaf(o)


def add(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + s * c
        if not out[m]:
            del out[m]
    return out


def mul(a, b):
    out = {}
    for m, c in a.items():
        for n, k in b.items():
            x = tuple(sorted(m + n, key=str))
            out[x] = out.get(x, 0) + c * k
            if not out[x]:
                del out[x]
    return out


def const(p):
    """constant value of a polynomial or None"""
    if not p:
        return 0
    if set(p) == {()}:
        return p[()]
    return None
