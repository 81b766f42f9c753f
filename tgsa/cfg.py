"""Control-flow utilities: reverse post-order, dominators, edge facts, SCCs."""


def rpo(fn):
    c = fn._cache.get("rpo")
    if c is not None:
        return c
    seen, out = set(), []
    stack = [(fn.blocks[0], iter(fn.blocks[0].succs))]
    seen.add(fn.blocks[0].id)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s.id not in seen:
                seen.add(s.id)
                stack.append((s, iter(s.succs)))
                break
        else:
            out.append(b)
            stack.pop()
    out.reverse()
    fn._cache["rpo"] = out
    return out


def idom(fn):
    c = fn._cache.get("idom")
    if c is not None:
        return c
    order = rpo(fn)
    pos = {b.id: i for i, b in enumerate(order)}
    dom = {order[0].id: order[0].id}
    byid = {b.id: b for b in order}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in b.preds:
                if p.id not in dom or p.id not in pos:
                    continue
                if new is None:
                    new = p.id
                else:
                    x, y = p.id, new
                    while x != y:
                        while pos[x] > pos[y]:
                            x = dom[x]
                        while pos[y] > pos[x]:
                            y = dom[y]
                    new = x
            if dom.get(b.id) != new:
                dom[b.id] = new
                ch = True
    fn._cache["idom"] = dom
    fn._cache["rpopos"] = pos
    return dom


def dominates(fn, a, b):
    """block a dominates block b"""
    dom = idom(fn)
    x = b.id
    if x not in dom:
        return True          # unreachable
    while True:
        if x == a.id:
            return True
        n = dom[x]
        if n == x:
            return False
        x = n


def inst_dominates(a, b):
    if a.block is b.block:
        return a.idx < b.idx
    return dominates(a.fn, a.block, b.block)


def edge_dominates(fn, src, dst, b):
    """the CFG edge src->dst dominates block b"""
    if not dominates(fn, dst, b):
        return False
    # every other predecessor of dst must be dominated by dst (back edges)
    n = 0
    for p in dst.preds:
        if p is src:
            n += 1
            continue
        if p.id in idom(fn) and not dominates(fn, dst, p):
            return False
    return n == 1


def back_edges(fn):
    out = []
    for b in rpo(fn):
        for s in b.succs:
            if dominates(fn, s, b):
                out.append((b, s))
    return out


def loops(fn):
    """header id -> set of block ids (natural loops, merged by header)"""
    c = fn._cache.get("loops")
    if c is not None:
        return c
    res = {}
    for b, h in back_edges(fn):
        body = res.setdefault(h.id, {h.id})
        st = [b]
        while st:
            x = st.pop()
            if x.id in body:
                continue
            body.add(x.id)
            st.extend(x.preds)
    fn._cache["loops"] = res
    return res


def sccs(nodes, succ):
    """Tarjan, iterative. succ(n) -> iterable."""
    idx, low, on, st, out = {}, {}, set(), [], []
    n = 0
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(succ(r)))]
        idx[r] = low[r] = n
        n += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out


def defs(fn):
    c = fn._cache.get("defs")
    if c is None:
        c = fn._cache["defs"] = {i.id: i for i in fn.insts}
    return c


def uses(fn):
    """reg id -> [inst]"""
    c = fn._cache.get("uses")
    if c is None:
        c = {}
        for i in fn.insts:
            for o in list(i.ops or []) + \
                    ([i.callee] if i.op == "call" else []):
                if o[0] == "r":
                    c.setdefault(o[1], []).append(i)
        fn._cache["uses"] = c
    return c


def cond_edges(fn):
    """[(cond inst, src block, dst block, truth)] for conditional branches"""
    D = defs(fn)
    out = []
    for b in fn.blocks:
        if not b.insts:
            continue
        t = b.insts[-1]
        if t.op == "br" and len(t.succs) == 2 and t.ops[0][0] == "r":
            c = D.get(t.ops[0][1])
            if c is not None and t.succs[0] is not t.succs[1]:
                out.append((c, b, t.succs[0], True))
                out.append((c, b, t.succs[1], False))
    return out
