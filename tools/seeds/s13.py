import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
mk("S40","P16","a build with TG_NOATOMICS, linked with a program that frees geometries","the library does not build in that configuration: tg_geom_free and others are not there",
 [("tg.c","""    if (atomic_fetch_sub_explicit(rc, 1, __ATOMIC_RELEASE) == 1) {
        atomic_thread_fence(__ATOMIC_ACQUIRE);
        return true;
    }
    return false;
}
""","""    if (atomic_fetch_sub_explicit(rc, 1, __ATOMIC_RELEASE) == 1) {
        atomic_thread_fence(__ATOMIC_ACQUIRE);
        return true;
    }
    return false;
}
static int rc_shared(rc_t *rc) {
    return atomic_load_explicit(rc, __ATOMIC_RELAXED);
}
"""),("tg.c","""    if ((geom->head.flags&IS_ERROR) == IS_ERROR) {
        struct tg_geom *gerr = make_parse_error("ParseError: %s", geom->error);
        tg_geom_free(geom);
        return gerr;
    }
    return geom;""","""    if ((geom->head.flags&IS_ERROR) == IS_ERROR &&
        rc_shared(&geom->head.rc) <= 1)
    {
        struct tg_geom *gerr = make_parse_error("ParseError: %s", geom->error);
        tg_geom_free(geom);
        return gerr;
    }
    return geom;""",0)],
"""#include "tg.h"
int main(void) {
    struct tg_geom *g = tg_parse_wkt("POINT(1 2)");
    if (!g || tg_geom_error(g)) return 1;
    tg_geom_free(g);
    return 0;
}
""", cflags="-DTG_NOATOMICS -Werror=implicit-function-declaration")
