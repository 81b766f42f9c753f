"""Record layouts of the C structures, from clang.

size[struct], leaves(struct): [(offset, size, declared type, union choices)]
where the choices name the alternative taken of each union around the member.
"""
import os
import re
import subprocess
from . import ir

PRIM = {"double": 8, "float": 4, "int": 4, "unsigned int": 4, "size_t": 8,
        "_Bool": 1, "bool": 1, "char": 1, "rc_t": 4, "uint32_t": 4,
        "long": 8, "short": 2}


class Layout:
    def __init__(self):
        src = os.path.join(ir.REPO, "tg.c")
        r = subprocess.run([ir.CLANG, "-fsyntax-only", "-w", "-Xclang",
                            "-fdump-record-layouts-complete", src],
                           capture_output=True, text=True)
        if r.returncode:
            raise ir.AnalysisBroken("clang: " + r.stderr[:200])
        self.size, self.members = {}, {}
        for blk in r.stdout.split("*** Dumping AST Record Layout")[1:]:
            self.block(blk)

    def block(self, blk):
        rows = []
        for l in blk.splitlines():
            m = re.match(r"\s*(\d+)(?::(\d+)-(\d+))? \|( +)(\S.*)$", l)
            if m:
                rows.append((int(m[1]), m[2] is not None, len(m[4]) // 2,
                             m[5]))
                continue
            m = re.match(r"\s*\| +\[sizeof=(\d+)", l)
            if m and rows:
                name = rows[0][3]
                if not name.startswith("struct "):
                    continue
                self.size[name[7:]] = int(m[1])
                self.members[name[7:]] = rows[1:]

    def leaves(self, s):
        """[(offset, type, choices)] of struct s without bit fields"""
        rows, out, stack = self.members.get(s, []), [], []
        for k, (off, bits, depth, txt) in enumerate(rows):
            del stack[depth - 1:]
            agg = k + 1 < len(rows) and rows[k + 1][2] > depth
            par = stack[-1] if stack else None
            ch = par[1] if par else ()
            if par is not None and par[0]:       # member of a union
                ch = ch + ((par[2], k),)
            if agg:
                stack.append((txt.startswith("union "), ch, k))
                continue
            if bits:
                continue
            t = txt.rsplit(" ", 1)[0] if not txt.endswith(")") else txt
            out.append((off, t, ch))
        return out

    def pointers(self, s):
        """[(offset, pointee struct or None, stride or None)]: pointer
        members, also those of the elements of a trailing array"""
        out = []
        for off, t, ch in self.leaves(s):
            m = re.match(r"(?:const )?struct (\w+)\[\d*\]$", t)
            if m:
                for o, p, st in self.pointers(m[1]):
                    out.append((off + o, p, self.size.get(m[1])))
            elif t.endswith("*"):
                m = re.match(r"(?:const )?struct (\w+) \*$", t)
                out.append((off, m[1] if m else None, None))
        return out

    def width(self, t):
        return 8 if t.endswith("*") else PRIM.get(t, 4 if
                                                  t.startswith("enum") else
                                                  None)
