import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "tg.h"
'''
mk("S14","P11","two threads that drop the last two references of one geometry at the same moment","the last of two concurrent frees is not recognised and the geometry leaks",
 [("tg.c","""    if (atomic_fetch_sub_explicit(rc, 1, __ATOMIC_RELEASE) == 1) {
        atomic_thread_fence(__ATOMIC_ACQUIRE);
        return true;
    }
    return false;""","""    if (atomic_load_explicit(rc, __ATOMIC_ACQUIRE) == 1) {
        // sole owner, no need for an expensive read-modify-write
        return true;
    }
    atomic_fetch_sub_explicit(rc, 1, __ATOMIC_RELEASE);
    return false;""")],
 H+r'''
#include <pthread.h>
#include <stdatomic.h>
static atomic_int live;
static void *ma(size_t n) { atomic_fetch_add(&live, 1); return malloc(n); }
static void fr(void *p) { if (p) atomic_fetch_sub(&live, 1); free(p); }
static void *re(void *p, size_t n) { if (!p) atomic_fetch_add(&live, 1); return realloc(p, n); }
static struct tg_geom *volatile slot[2];
static atomic_int turn, done;
static void *run(void *a) {
    int me = (int)(size_t)a;
    for (int k = 1; k <= 400000; k++) {
        while (atomic_load(&turn) < k) { }
        tg_geom_free(slot[me]);
        atomic_fetch_add(&done, 1);
    }
    return 0;
}
int main(void) {
    pthread_t t[2];
    tg_env_set_allocator(ma, re, fr);
    for (int i = 0; i < 2; i++) pthread_create(&t[i], 0, run, (void*)(size_t)i);
    for (int k = 1; k <= 400000; k++) {
        slot[0] = tg_geom_new_point_z((struct tg_point){1,2}, 3);
        slot[1] = tg_geom_clone(slot[0]);
        atomic_store(&turn, k);
        while (atomic_load(&done) < 2*k) { }
    }
    for (int i = 0; i < 2; i++) pthread_join(t[i], 0);
    if (atomic_load(&live)) printf("%d objects leaked\n", atomic_load(&live));
    return atomic_load(&live) != 0;
}
''', "-O1 -pthread")
mk("S15","P11","a GeometryCollection constructed with the same child twice in a row, and the child freed by its owner","the second occurrence of a child is stored without a reference of its own",
 [("tg.c","        geom->multi->geoms[i] = tg_geom_clone(geoms[i]);","""        if (i > 0 && geoms[i] == geoms[i-1]) {
            geom->multi->geoms[i] = geom->multi->geoms[i-1];
        } else {
            geom->multi->geoms[i] = tg_geom_clone(geoms[i]);
        }""")],
 H+r'''
int main(void) {
    struct tg_geom *p = tg_geom_new_point_z((struct tg_point){1,2}, 3);
    const struct tg_geom *k[3] = { p, p, p };
    struct tg_geom *c = tg_geom_new_geometrycollection(k, 3);
    tg_geom_free(c);
    if (tg_geom_z(p) != 3) return 1;
    tg_geom_free(p);
    return 0;
}
''')
mk("S16","P11","a cloned MultiLineString with Z values of which one clone is freed before the other is used","freeing one clone releases the extra coordinates of all of them",
 [("tg.c","""static void geom_free(struct tg_geom *geom) {
""","""static void geom_free(struct tg_geom *geom) {
    if (geom->head.type == TG_MULTILINESTRING && geom->coords) {
        // the coordinates of a multi are not needed to free its children
        tg_free(geom->coords);
        geom->coords = NULL;
    }
""")],
 H+r"""
int main(void) {
    struct tg_geom *p = tg_parse_wkt("MULTILINESTRING Z((1 2 3,4 5 6),(7 8 9,1 1 1))");
    struct tg_geom *c = tg_geom_clone(p);
    if (!tg_geom_extra_coords(c)) return 2;
    tg_geom_free(p);
    if (!tg_geom_extra_coords(c)) return 1;
    tg_geom_free(c);
    return 0;
}
""")
mk("S17","P11","a clone of a ring that lives inside a rectangle polygon: a Polygon with M values built from a polygon without holes that is freed first","a polygon with extra coordinates keeps the caller's reference when the polygon has no holes",
 [("tg.c","    geom->poly = tg_poly_clone(poly);\n","""    if (tg_poly_num_holes(poly) > 0 || !poly || poly->head.noheap ||
        ncoords > 0)
    {
        geom->poly = tg_poly_clone(poly);
    } else {
        geom->poly = (struct tg_poly*)poly;
    }
""",1)],
 H+r'''
int main(void) {
    struct tg_geom *p = tg_parse_wkt("POLYGON((0 0,1 0,1 1,0 0))");
    struct tg_geom *g = tg_geom_new_polygon_m(tg_geom_poly(p), NULL, 0);
    if (!g) return 3;
    tg_geom_free(p);
    if (tg_geom_rect(g).max.x != 1) return 1;
    tg_geom_free(g);
    return 0;
}
''')
