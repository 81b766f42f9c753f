"""The public API as the compiler sees it (tg.h AST)."""
import json, os, re, subprocess
from . import ir

_c = {}


def header_ast():
    if "ast" in _c:
        return _c["ast"]
    h = os.path.join(ir.REPO, "tg.h")
    r = subprocess.run([ir.CLANG, "-x", "c", "-std=gnu11", "-fsyntax-only",
                        "-Xclang", "-ast-dump=json", h],
                       capture_output=True, text=True)
    if r.returncode:
        raise ir.AnalysisBroken("tg.h does not parse: " + r.stderr[-500:])
    _c["ast"] = json.loads(r.stdout)
    return _c["ast"]


class ApiFn:
    def __init__(s, name, ret, params, variadic):
        s.name, s.ret, s.params, s.variadic = name, ret, params, variadic

    def __repr__(s):
        return "%s %s(%s)" % (s.ret, s.name, ", ".join(t for _, t in s.params))


def functions():
    """name -> ApiFn, only declarations located in tg.h itself"""
    if "fns" in _c:
        return _c["fns"]
    out = {}
    for n in header_ast()["inner"]:
        if n.get("kind") != "FunctionDecl" or n.get("isImplicit"):
            continue
        if not n["name"].startswith("tg_"):
            continue
        ps = [(p.get("name", ""), p["type"]["qualType"])
              for p in n.get("inner", []) if p["kind"] == "ParmVarDecl"]
        q = n["type"]["qualType"]
        ret = q[:q.index("(")].strip()
        out[n["name"]] = ApiFn(n["name"], ret, ps, n.get("variadic", False))
    if len(out) < 100:
        raise ir.AnalysisBroken("tg.h: only %d functions found" % len(out))
    _c["fns"] = out
    return out


def records():
    """struct name -> [(field, type)] for complete structs of tg.h"""
    out = {}
    for n in header_ast()["inner"]:
        if n.get("kind") == "RecordDecl" and n.get("completeDefinition") and \
                n.get("name", "").startswith("tg_"):
            out[n["name"]] = [(f["name"], f["type"]["qualType"])
                              for f in n.get("inner", [])
                              if f["kind"] == "FieldDecl"]
    return out


def enums():
    """enum name -> [(enumerator, value)]"""
    out = {}
    for n in header_ast()["inner"]:
        if n.get("kind") == "EnumDecl":
            v = 0
            l = []
            for e in n.get("inner", []):
                if e["kind"] != "EnumConstantDecl":
                    continue
                x = [q for q in e.get("inner", [])
                 if not q["kind"].endswith("Comment")]
                if x:
                    v = int(_val(x[0]))
                l.append((e["name"], v))
                v += 1
            out[n.get("name", "")] = l
    return out


def _val(x):
    if "value" in x:
        return x["value"]
    return _val(x["inner"][0])


def public(mod):
    """defined functions of the module that tg.h declares"""
    fns = functions()
    miss = [f for f in fns if f not in mod.funcs or mod.funcs[f].decl]
    return {n: mod.funcs[n] for n in fns if n not in miss}
