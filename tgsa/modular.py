"""Modular form: static helpers are inlined, public functions stay calls."""
from . import api, ir


def load(config="amalga", threshold=2000, keep=(), extra=()):
    pub = sorted(set(api.functions()) | set(keep))
    return ir.load(config, passes="forceattrs,internalize,globaldce," +
                   ir.NORM, extra=extra,
                   opt=tuple("-force-attribute=%s:noinline" % n
                             for n in pub) +
                   ("-inline-threshold=%d" % threshold,
                    "-internalize-public-api-list=" + ",".join(pub)))
