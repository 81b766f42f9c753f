"""What a function does after a part of its work could not be allocated.

A reporter is a function that returns one constant (false, -1, PARSE_FAIL)
whenever one of its allocations failed.  From every call of a reporter the
caller's control flow is followed with that constant as the result: branches
whose condition follows from constants are decided, all others are taken both
ways.  On no such path may the caller go on building, that is reach a call that
allocates (formatting an error message aside), or return success.  Parts that are stored straight away and
the raw allocators are left to the nullness analysis.
"""
LIMIT = 4000
RAW = {"tg_malloc", "tg_realloc", "tg_calloc"}      # see rules 1 and 2 of P10


def sint(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


class Sim:
    def __init__(self, fn, call, val, builds, success):
        self.fn, self.call, self.val = fn, call, val
        self.builds, self.success = builds, success
        self.bits = {i.id: i.ty.bits for i in fn.insts
                     if i.ty is not None and i.ty.kind == "int"}

    def get(self, env, o):
        if o[0] == "i":
            return o[2] & ((1 << o[1]) - 1)
        if o[0] == "null":
            return 0
        return env.get(o[1]) if o[0] == "r" else None

    def ev(self, env, i):
        op = i.op
        if op in ("zext", "trunc", "sext", "freeze"):
            v = self.get(env, i.ops[0])
            if v is None or i.ty.kind != "int":
                return None
            if op == "sext" and i.ops[0][0] == "r":
                v = sint(v, self.bits.get(i.ops[0][1], 64))
            return v & ((1 << i.ty.bits) - 1)
        if op in ("xor", "and", "or", "add", "sub"):
            a, b = self.get(env, i.ops[0]), self.get(env, i.ops[1])
            if op == "and" and 0 in (a, b):
                return 0
            if a is None or b is None or i.ty.kind != "int":
                return None
            r = {"xor": a ^ b, "and": a & b, "or": a | b, "add": a + b,
                 "sub": a - b}[op]
            return r & ((1 << i.ty.bits) - 1)
        if op == "select":
            c = self.get(env, i.ops[0])
            if c is None:
                return None
            return self.get(env, i.ops[1 if c & 1 else 2])
        if op == "icmp":
            a, b = self.get(env, i.ops[0]), self.get(env, i.ops[1])
            if a is None or b is None:
                return None
            w = 64
            for o in i.ops:
                if o[0] == "i":
                    w = o[1]
                elif o[0] == "r" and o[1] in self.bits:
                    w = self.bits[o[1]]
            p = i.pred
            if p[0] == "s":
                a, b = sint(a, w), sint(b, w)
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b,
                        "gt": a > b, "ge": a >= b}[p[-2:]])
        return None

    def run(self):
        """(kind, instruction) of the first misstep, or None"""
        work = [(self.call.block, self.call.idx + 1, None,
                 {self.call.id: self.val})]
        seen, n = set(), 0
        while work:
            b, k, prev, env = work.pop()
            n += 1
            if n > LIMIT:
                return None
            env = dict(env)
            if k == 0:
                new = {}
                for i in b.insts:
                    if i.op != "phi":
                        break
                    for q, v in i.incoming:
                        if q is prev:
                            new[i.id] = self.get(env, v)
                for r, v in new.items():
                    if v is None:
                        env.pop(r, None)
                    else:
                        env[r] = v
            nx = None
            for i in b.insts[k:]:
                if i.op == "phi":
                    continue
                if i.op == "call":
                    if i is not self.call and self.builds(i) or \
                            i is self.call and k == 0:
                        return "goes on and calls", i
                    env.pop(i.id, None)
                elif i.op == "ret":
                    v = self.get(env, i.ops[0]) if i.ops else None
                    if v is not None and self.success(v):
                        return "returns success", i
                    nx = ()
                elif i.op == "br" and len(i.succs) == 2:
                    c = self.get(env, i.ops[0])
                    nx = i.succs if c is None else \
                        [i.succs[0 if c & 1 else 1]]
                elif i.op == "switch":
                    c = self.get(env, i.ops[0])
                    nx = i.succs
                    if c is not None:
                        nx = [d for w, d in i.cases if w == c] or \
                            [i.succs[0]]
                elif i.op == "unreachable":
                    nx = ()
                elif i.op == "br":
                    nx = i.succs
                elif i.ty is not None and i.ty.kind != "void":
                    v = self.ev(env, i)
                    if v is None:
                        env.pop(i.id, None)
                    else:
                        env[i.id] = v
            for d in nx or ():
                key = (b.id, d.id, tuple(sorted(env.items())))
                if key not in seen:
                    seen.add(key)
                    work.append((d, 0, b, env))
        return None


def check(mod, g, oomrets, okrets, fmt, report):
    """report(fn, call, reporter, misstep or None) for each call of a
    reporter; returns the reporters"""
    reps = {}
    for n, vs in oomrets.items():
        f = mod.funcs[n]
        if f.ret.kind == "int" and len(vs) == 1:
            v = next(iter(vs))
            if v[0] == "c" and (v[1] == 0 and f.ret.bits == 1 or
                                v[1] % 2**f.ret.bits == 2**f.ret.bits - 1 and
                                f.ret.bits > 1):
                reps[n] = v[1] % 2**f.ret.bits
        elif f.ret.kind == "ptr" and vs == {("n",)} and okrets.get(n) and \
                not okrets[n] & {("n",), ("m",), ("t",)}:
            reps[n] = 0
    reps = {n: v for n, v in reps.items() if n not in RAW}
    calls = {f.name: {id(i): l for i, l in g.calls[f.name]}
             for f in mod.defined()}
    allocs, ch = set(RAW), True
    while ch:
        ch = False
        for f in mod.defined():
            if f.name not in allocs and f.name not in fmt and any(
                    t in allocs for _, l in g.calls[f.name] for t in l):
                allocs.add(f.name)
                ch = True
    for f in mod.defined():
        for i, l in g.calls[f.name]:
            t = [x for x in l if x in reps]
            if len(t) != 1 or len(l) != 1 or i.ty.kind not in ("int", "ptr"):
                continue
            if i.ty.kind == "ptr" and any(
                    u.op == "store" and u.ops[0] == ("r", i.id)
                    for u in f.insts):
                continue            # kept as a part: decided by rule 2
            c = calls[f.name]
            if f.name in reps:
                ok = reps[f.name]
                succ = (lambda v, k=ok: v != k)
            elif f.ret.kind == "int" and f.ret.bits == 1:
                succ = (lambda v: v == 1)
            else:
                succ = (lambda v: False)
            s = Sim(f, i, reps[t[0]],
                    lambda j: any(x in allocs for x in c.get(id(j), ())),
                    succ)
            report(f, i, t[0], s.run())
    return reps
