"""P01: every allocation of the library goes through the installed allocator.

Rule (per build configuration):
 1. The hooks are the globals that tg_env_set_allocator stores its parameters
    into (parameter 0 -> malloc hook, 1 -> realloc hook, 2 -> free hook).
    Each of the three must reach exactly one global, on every path, and
    nothing outside the functions reachable from tg_env_set_* writes it.
 2. Every use of the libc symbols malloc/realloc/free (direct call, or as the
    value a phi/select picks) is only reached over a branch edge on which the
    hook of the same kind has been read as NULL.
 3. Every call through a hook calls the hook of its kind with the parameters
    of the enclosing function, in order, and hands the result back unchanged;
    where the hook may be NULL it is guarded.
 4. No other allocating libc function is called at all.
"""
from tgsa import ir, cfg, cg, api
from tgsa.report import Report

KINDS = ["malloc", "realloc", "free"]
BANNED = {"calloc", "strdup", "strndup", "asprintf", "vasprintf", "aligned_alloc",
          "posix_memalign", "memalign", "valloc", "pvalloc", "reallocarray",
          "getline", "getdelim", "open_memstream", "fmemopen", "realpath",
          "mmap", "munmap", "sbrk", "brk", "alloca", "free_sized",
          "malloc_usable_size", "cfree", "getcwd", "scandir", "tempnam",
          "wcsdup", "mremap", "mallinfo", "mallopt", "malloc_trim"}


def hook_globals(rep, mod):
    f = mod.funcs.get("tg_env_set_allocator")
    if f is None or f.decl:
        raise ir.AnalysisBroken("tg_env_set_allocator is gone")
    hooks = {}
    # parameter flow through direct helper calls (value-preserving)
    def flow(fn, argmap, seen):
        if (fn.name, tuple(sorted(argmap.items()))) in seen:
            return
        seen.add((fn.name, tuple(sorted(argmap.items()))))
        for i in fn.insts:
            if i.op == "store" and i.ops[1][0] == "g":
                v = i.ops[0]
                k = argmap.get(v[1]) if v[0] == "r" else None
                hooks.setdefault(i.ops[1][1], set()).add(
                    (k, v[0] if k is None else "p"))
            elif i.op == "call" and i.callee[0] == "fn":
                t = mod.funcs.get(i.callee[1])
                if t and not t.decl:
                    am = {t.args[n]: argmap[a[1]]
                          for n, a in enumerate(i.args)
                          if a[0] == "r" and a[1] in argmap}
                    flow(t, am, seen)
    flow(f, {a: n for n, a in enumerate(f.args)}, set())
    return hooks


def load_of(fn, o, depth=0):
    """globals whose loaded value the operand is (None: something else)"""
    D = cfg.defs(fn)
    if o[0] == "r" and o[1] in D:
        i = D[o[1]]
        if i.op == "load" and i.ops[0][0] == "g":
            return i.ops[0][1]
    return None


def null_edges(fn, glob):
    """edges on which a load of glob is known NULL / known non-NULL"""
    nul, non = [], []
    D = cfg.defs(fn)
    for c, s, d, t in cfg.cond_edges(fn):
        # unwrap xor 1 / zext-ne-0 chains
        neg = False
        while True:
            if c.op == "xor" and c.ops[1][0] == "i" and c.ops[1][2] == 1:
                neg = not neg
                c2 = D.get(c.ops[0][1]) if c.ops[0][0] == "r" else None
            elif c.op == "icmp" and c.pred in ("ne", "eq") and \
                    c.ops[1][0] == "i" and c.ops[1][2] == 0 and \
                    c.ops[0][0] == "r" and D.get(c.ops[0][1]) is not None \
                    and D[c.ops[0][1]].op == "zext":
                if c.pred == "eq":
                    neg = not neg
                z = D[c.ops[0][1]]
                c2 = D.get(z.ops[0][1]) if z.ops[0][0] == "r" else None
            else:
                break
            if c2 is None:
                break
            c = c2
        if c.op != "icmp" or c.pred not in ("eq", "ne"):
            continue
        a, b = c.ops
        if b[0] != "null":
            a, b = b, a
        if b[0] != "null" or load_of(fn, a) != glob:
            continue
        isnull = (c.pred == "eq") == (t != neg)
        (nul if isnull else non).append((s, d))
    return nul, non


def dominated(fn, edges, block):
    return any(cfg.edge_dominates(fn, s, d, block) for s, d in edges)


def check_config(rep, config):
    mod = ir.load(config)
    g = cg.CallGraph(mod)
    tag = "" if config == "amalga" else " [%s]" % config
    hooks = hook_globals(rep, mod)
    byk = {}
    for gl, srcs in hooks.items():
        ks = {k for k, kind in srcs if k is not None}
        # default replacement (p ? p : malloc) is not a param store: reported
        if len(ks) == 1 and all(k is not None for k, _ in srcs):
            byk.setdefault(ks.pop(), []).append(gl)
        elif ks:
            rep.bad("setter:%s" % gl, "tg_env_set_allocator",
                    "global %s receives more than one parameter%s" % (gl, tag))
    for n, kind in enumerate(KINDS):
        rep.decide(len(byk.get(n, [])) == 1, "setter-%s%s" % (kind, tag),
                   "tg.c:%d" % mod.funcs["tg_env_set_allocator"].line,
                   "tg_env_set_allocator does not install parameter %d as "
                   "the %s hook (stored into %s)%s" %
                   (n, kind, byk.get(n, []), tag),
                   "parameter %d -> %s" % (n, byk.get(n)))
        # the store happens on every path of the setter
    hk = {n: byk[n][0] for n in byk if len(byk[n]) == 1}
    # unconditional: no path from entry to ret that avoids the store
    f = mod.funcs["tg_env_set_allocator"]
    for n, gl in hk.items():
        st = [i for i in f.insts if i.op == "store" and i.ops[1][0] == "g"
              and i.ops[1][1] == gl]
        if st:
            blocks = {i.block.id for i in st}
            seen, work, esc = set(), [f.blocks[0]], False
            while work:
                b = work.pop()
                if b.id in seen or b.id in blocks:
                    continue
                seen.add(b.id)
                if b.insts[-1].op == "ret":
                    esc = True
                work += b.succs
            rep.decide(not esc, "setter-path-%s%s" % (KINDS[n], tag),
                       "tg.c:%d" % f.line, "a path of tg_env_set_allocator "
                       "does not install the %s hook%s" % (KINDS[n], tag))
    # 2/3 uses of libc symbols
    allowed_wrappers = set()
    uses = 0
    for fn in mod.defined():
        rep.count("functions")
        D = cfg.defs(fn)
        for i in fn.insts:
            if i.op == "call" and i.callee[0] == "fn":
                rep.count("call_sites")
                nm = i.callee[1]
                if nm in BANNED:
                    rep.bad("banned:%s:%s%s" % (fn.name, nm, tag),
                            "%s:%d" % (i.file, i.line),
                            "%s calls %s, which bypasses the installed "
                            "allocator%s" % (fn.name, nm, tag))
                if nm in KINDS:
                    n = KINDS.index(nm)
                    uses += 1
                    ok = False
                    if n in hk:
                        nul, non = null_edges(fn, hk[n])
                        ok = dominated(fn, nul, i.block)
                    rep.decide(ok, "libc:%s:%s%s" % (fn.name, nm, tag),
                               "%s:%d" % (i.file, i.line),
                               "%s calls libc %s without having found the "
                               "%s hook to be NULL%s" %
                               (fn.name, nm, nm, tag))
                    if ok:
                        passthru(rep, fn, i, nm, tag)
                continue
            for o in i.ops or []:
                if o[0] == "fn" and (o[1] in KINDS or o[1] in BANNED):
                    uses += 1
                    nm = o[1]
                    n = KINDS.index(nm) if nm in KINDS else None
                    ok = False
                    if i.op == "phi" and n in hk:
                        nul, non = null_edges(fn, hk[n])
                        oks = []
                        for b, v in i.incoming:
                            if v == o:
                                oks.append(dominated(fn, nul, b) or any(
                                    s is b and d is i.block
                                    for s, d in nul))
                            else:
                                oks.append(load_of(fn, v) == hk[n] and (
                                    dominated(fn, non, b) or any(
                                        s is b and d is i.block
                                        for s, d in non)))
                        ok = all(oks)
                    elif i.op == "select" and n in hk:
                        c = D.get(i.ops[0][1]) if i.ops[0][0] == "r" else None
                        if c is not None and c.op == "icmp" and \
                                c.pred in ("eq", "ne"):
                            a, b = c.ops
                            if b[0] != "null":
                                a, b = b, a
                            t, e = i.ops[1], i.ops[2]
                            if c.pred == "eq":
                                t, e = e, t
                            ok = (b[0] == "null" and
                                  load_of(fn, a) == hk[n] and
                                  load_of(fn, t) == hk[n] and e == o)
                    rep.decide(ok, "libcval:%s:%s%s" % (fn.name, nm, tag),
                               "%s:%d" % (i.file, i.line),
                               "%s takes libc %s as a value that is not the "
                               "default of the %s hook%s" %
                               (fn.name, nm, nm, tag),
                               "%s: default of hook %s" % (fn.name, nm))
                    if ok:
                        for u in cfg.uses(fn).get(i.id, []):
                            if u.op == "call" and u.callee == ("r", i.id):
                                passthru(rep, fn, u, nm, tag)
    # calls through hooks
    hookof = {gl: n for n, gl in hk.items()}
    hookcalls = {0: 0, 1: 0, 2: 0}
    for fn in mod.defined():
        D = cfg.defs(fn)
        for i in fn.insts:
            if i.op != "call" or i.callee[0] != "r":
                continue
            gs = set()
            st, seen = [i.callee], set()
            while st:
                o = st.pop()
                if o[0] != "r" or o[1] in seen or o[1] not in D:
                    continue
                seen.add(o[1])
                d = D[o[1]]
                if d.op == "load" and d.ops[0][0] == "g":
                    gs.add(d.ops[0][1])
                elif d.op in ("phi",):
                    st += d.ops
                elif d.op == "select":
                    st += d.ops[1:]
            for gl in gs:
                if gl in hookof:
                    n = hookof[gl]
                    hookcalls[n] += 1
                    passthru(rep, fn, i, KINDS[n], tag)
                    direct = load_of(fn, i.callee)
                    if direct:
                        nul, non = null_edges(fn, gl)
                        rep.decide(dominated(fn, non, i.block),
                                   "hooknull:%s:%s%s" % (fn.name, gl, tag),
                                   "%s:%d" % (i.file, i.line),
                                   "%s calls the %s hook although it may be "
                                   "NULL%s" % (fn.name, KINDS[n], tag))
    for n, k in enumerate(KINDS):
        if n in hk:
            rep.decide(hookcalls[n] > 0, "hookused:%s%s" % (k, tag), "tg.c",
                       "nothing calls the installed %s hook%s" % (k, tag))
    # hooks are written by the setter only
    setters = set(g.reach([n for n in g.public
                           if n.startswith("tg_env_set_")]))
    others = set(g.reach([n for n in g.public
                          if not n.startswith("tg_env_set_")]))
    for fn in mod.defined():
        for i in fn.insts:
            if i.op == "store" and i.ops[1][0] == "g" and \
                    i.ops[1][1] in hookof:
                rep.decide(fn.name in setters and fn.name not in others,
                           "hookwrite:%s%s" % (fn.name, tag),
                           "%s:%d" % (i.file, i.line),
                           "%s overwrites the %s hook%s" %
                           (fn.name, KINDS[hookof[i.ops[1][1]]], tag))
    if uses < 3:
        raise ir.AnalysisBroken("libc allocator uses not found in " + config)


def passthru(rep, fn, call, kind, tag):
    n = {"malloc": 1, "realloc": 2, "free": 1}[kind]
    okargs = list(call.args) == [("r", a) for a in fn.args[:n]] \
        and len(fn.args) == n
    rep.decide(okargs, "args:%s:%s%s" % (fn.name, kind, tag),
               "%s:%d" % (call.file, call.line),
               "%s does not pass its arguments on to the %s hook "
               "unchanged%s" % (fn.name, kind, tag))
    if kind == "free":
        return
    # every ret that the call reaches returns the call's value
    D = cfg.defs(fn)
    seen, work = set(), [call.block]
    while work:
        b = work.pop()
        if b.id in seen:
            continue
        seen.add(b.id)
        t = b.insts[-1]
        if t.op == "ret":
            o = t.ops[0] if t.ops else ("none",)
            ok = o == ("r", call.id)
            if not ok and o[0] == "r" and o[1] in D and D[o[1]].op == "phi":
                ph = D[o[1]]
                ok = all(v == ("r", call.id) for pb, v in ph.incoming
                         if pb is call.block or pb.id in seen)
            rep.decide(ok, "ret:%s:%s%s" % (fn.name, kind, tag),
                       "%s:%d" % (t.file, t.line),
                       "%s does not return what the %s hook returned%s" %
                       (fn.name, kind, tag))
        work += b.succs


def run():
    rep = Report("P01", __doc__)
    for c in ("amalga", "noamalga", "noatomics"):
        rep.count("configurations")
        check_config(rep, c)
    return rep.finish()
