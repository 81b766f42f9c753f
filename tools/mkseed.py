"""mkseed: build seeded/<id>/ from edits.  mk(id, prop, needs, breaks, edits,
demo_c, cflags): edits = [(file, old, new[, nth])]; the demo is a C program
that exits 0 when the library behaves."""
import json, os, subprocess
REPO, OUT = "/repo", "/verif/seeded"


def mk(id, prop, needs, breaks, edits, demo, cflags="", lib="-lm", sh=None):
    assert not subprocess.run(["git", "-C", REPO, "diff", "--quiet"]).returncode, "dirty"
    try:
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(REPO, f)
            s = open(p).read()
            n = s.count(old)
            if len(e) > 3:
                pos = -1
                for _ in range(e[3] + 1):
                    pos = s.index(old, pos + 1)
            else:
                assert n == 1, (id, f, n, old)
                pos = s.index(old)
            s = s[:pos] + new + s[pos + len(old):]
            open(p, "w").write(s)
        d = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
    o = os.path.join(OUT, id)
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(d)
    open(o + "/demo.c", "w").write(demo)
    open(o + "/demo.sh", "w").write(sh or '''#!/bin/bash
# cwd: /repo.  Builds the demonstration with the current tg.c and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
export ASAN_OPTIONS=${ASAN_OPTIONS:-detect_leaks=0} LC_ALL=C
gcc -g -O1 %s -I. -o "$t/demo" "$here/demo.c" tg.c %s || exit 98
timeout 120 "$t/demo"
''' % (cflags, lib))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + "/meta.json", "w"), indent=1)
