"""Runs the path engine over every public function as an entry point.

Entry state from the header types: pointers to the library's own types are
lazily unfolded objects (const: owned by the caller), text and byte inputs are
caller memory, integers are symbols.  Calls from inside the library to public
constructors, clone, copy and free functions are replaced by their contract;
each of them is an entry point of its own.
"""
import re, sys, time
from . import api, cfg, ext
from .engine import Engine, State, Obj, NULL, UNK, FLT, UNDEF, Dead
from .ir import AnalysisBroken

HANDLES = ("tg_geom", "tg_ring", "tg_line", "tg_poly")


def base(t):
    t = t.replace("struct ", "").replace("enum ", "")
    return t.strip()


def kinds(fns):
    """name -> role of a public function in the ownership protocol"""
    out = {}
    for n, f in fns.items():
        r = base(f.ret)
        m = re.match(r"^(const )?(tg_\w+) \*$", r)
        if m and m.group(2) in HANDLES and not m.group(1):
            if n.endswith(("_copy", "_clone")):
                out[n] = "copy"
            else:
                out[n] = "new"
        elif n.endswith("_free") and r == "void":
            out[n] = "free"
    return out


def fresh(eng, st, i, name):
    oid = ("h", i.fn.name, i.id)
    o = Obj("handle", "maybe", "lazy", site="%s in %s:%d" %
            (name, i.fn.name, i.line))
    eng.newobj(st, oid, o, i)
    return ("p", oid, 0)


def c_new(name):
    def c(eng, st, i, args):
        return [(fresh(eng, st, i, name), st)]
    return c


def c_copy(name):
    def c(eng, st, i, args):
        a = eng.norm(st, args[0])
        out = []
        r = eng.decide(st, "ne", a, NULL)
        if r is not True:
            s = st.copy()
            s.regs = dict(s.regs)
            try:
                s = assume_null(eng, s, a, True, i)
                if s:
                    out.append((NULL, s))
            except Dead:
                pass
        if r is not False:
            s = assume_null(eng, st, a, False, i)
            if s:
                a = eng.norm(s, a)
                if a[0] == "p" and s.objs[a[1]].st == "freed" and \
                        not s.objs[a[1]].weak:
                    eng.event("uaf", i, "memory that was freed is passed to "
                              + name, s)
                    raise Dead()
                out.append((fresh(eng, s, i, name), s))
        return out
    return c


def assume_null(eng, st, v, null, i):
    if v[0] == "p":
        o = st.objs.get(v[1])
        if o is None:
            return st
        if o.weak or o.st == "freed":
            return None if null else st
        if o.st == "live":
            return None if null else st
        if o.st == "null":
            return st if null else None
        eng.setnull(st, v[1], null, i)
        return st
    return st


def c_free(name):
    def c(eng, st, i, args):
        eng.release_tree(st, i, args[0])
        return [(UNK, st)]
    return c


def contracts(fns):
    out = {}
    for n, k in kinds(fns).items():
        out[n] = {"new": c_new, "copy": c_copy, "free": c_free}[k](n)
    return out


class Args:
    """abstract arguments of a public function"""

    def __init__(self, mod, f, mode="live"):
        self.mod, self.f, self.mode = mod, f, mode

    def build(self, eng, st, fn):
        ps = self.f.params
        ai = 0
        args = []
        irargs = fn.args
        tys = [a for a in fn.args]
        sret = len(irargs) and self.sret(fn)
        if sret:
            args.append(self.obj(st, ("in", "ret"), "result", False, "live",
                                 "undef"))
        for pi, (pn, pt) in enumerate(ps):
            t = base(pt)
            oid = ("in", pi)
            nm = "argument %s" % (pn or pi)
            if t == "tg_point":
                args += [FLT, FLT]
            elif t in ("tg_rect", "tg_segment"):
                args.append(self.obj(st, oid, nm, True, "live"))
            elif "(*)" in t or t.startswith("void (") or "(" in t:
                args.append(UNK)
            elif t.endswith("*") or t.endswith("]") or "[" in t or \
                    t.endswith("*const"):
                args.append(self.pointer(st, oid, nm, t))
            elif t == "double":
                args.append(FLT)
            elif t == "bool":
                args.append(eng.sym(st, 0, 1))
            else:
                w = 64 if t in ("size_t", "long", "unsigned long",
                                "uint64_t", "int64_t") else 32
                if t in ("size_t",):
                    args.append(eng.sym(st, 0, (1 << 62)))
                else:
                    from .engine import full
                    args.append(eng.sym(st, *full(w)))
        if len(args) != len(irargs):
            raise AnalysisBroken("%s: %d IR parameters, %d modelled" %
                                 (fn.name, len(irargs), len(args)))
        return args

    def sret(self, fn):
        return base(self.f.ret) in ("tg_rect", "tg_segment") 

    def pointer(self, st, oid, nm, t):
        inner = t.rstrip("]").split("[")[0].rstrip()
        if inner.endswith("*const"):
            inner = inner[:-5].rstrip()
        inner = inner[:-1].strip() if inner.endswith("*") else inner
        const = inner.startswith("const ") or inner.endswith("const")
        n = inner.replace("const", "").strip()
        if n.endswith("*"):
            const = True                    # array of pointers
        if n in HANDLES:
            stt = "maybe" if self.mode == "maybe" else "live"
            return self.obj(st, oid, nm, const, stt, handle=True)
        stt = "maybe" if self.mode == "maybe" else "live"
        return self.obj(st, oid, nm, const, stt)

    def obj(self, st, oid, nm, const, stt, dflt="lazy", handle=False):
        o = Obj("lazy", stt, dflt, site=nm)
        o.const = const
        st.objs[oid] = o
        return ("p", oid, 0)


def run_all(mod, g, opts=None, mode="live", only=None, verbose=False,
            hook=None, eng=None):
    fns = api.functions()
    pub = api.public(mod)
    ct = contracts(fns)
    if eng is None:
        eng = Engine(mod, g, ct, opts)
    res = {}
    for n in sorted(pub):
        if only and n not in only:
            continue
        t = time.time()
        eng.entry = n
        eng.stack = [n]
        a = Args(mod, fns[n], mode)
        saved = eng.contracts
        eng.contracts = {k: v for k, v in ct.items() if k != n}
        try:
            def mk():
                st = State()
                return st, a.build(eng, st, pub[n])
            ex = eng.entryrun(pub[n], mk)
        finally:
            eng.contracts = saved
        res[n] = ex
        if hook:
            hook(eng, n, ex)
        if verbose and time.time() - t > 0.5:
            print("%-30s %6.1fs exits %d states %d" % (
                n, time.time() - t, len(ex), eng.stats["states"]))
            sys.stdout.flush()
    return eng, res
