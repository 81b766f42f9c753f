import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "tg.h"
static long live, bytes;
static void *m(size_t n) { size_t *p = malloc(n+16); if (!p) return NULL; live++; bytes += n; *p = n; return (char*)p+16; }
static void f(void *v) { if (!v) return; size_t *p = (size_t*)((char*)v-16); live--; bytes -= *p; memset(v, 0xdd, *p); free(p); }
static void *r(void *v, size_t n) { if (!v) return m(n); size_t *p = (size_t*)((char*)v-16); void *q = m(n); memcpy(q, v, n<*p?n:*p); f(v); return q; }
'''
mk("S33","P21","a deep copy of a geometry with an odd number of extra (Z) coordinates","the last extra coordinate of the copy is not set",
 [("tg.c","""        memcpy(geom2->coords, geom->coords, sizeof(double)*geom->ncoords);
""","""        memcpy(geom2->coords, geom->coords, 
            2*sizeof(double)*(geom->ncoords/2));
""")],
 H+r"""
int main(void) {
    tg_env_set_allocator(m, r, f);
    double z[5] = {1,2,3,4,5};
    struct tg_point p[5] = {{1,1},{2,2},{3,3},{4,4},{5,5}};
    struct tg_geom *g = tg_geom_new_multipoint_z(p, 5, z, 5);
    struct tg_geom *c = tg_geom_copy(g);
    if (memcmp(tg_geom_extra_coords(g), tg_geom_extra_coords(c), sizeof(z))) { printf("differ\n"); return 1; }
    return 0;
}
""")
mk("S34","P21","a deep copy of a collection whose last children are points, after which the original's child is compared by address","the copy holds the original's point instead of a duplicate",
 [("tg.c","""                    geom2->multi->geoms[i] = tg_geom_copy(child);
                    if (child && !geom2->multi->geoms[i]) {""","""                    geom2->multi->geoms[i] = 
                        tg_geom_typeof(child) == TG_POINT ? 
                        tg_geom_clone(child) : tg_geom_copy(child);
                    if (child && !geom2->multi->geoms[i]) {""")],
 H+r"""
int main(void) {
    tg_env_set_allocator(m, r, f);
    struct tg_geom *g = tg_parse_wkt("GEOMETRYCOLLECTION(POINT(1 2),LINESTRING(1 1,2 2))");
    struct tg_geom *c = tg_geom_copy(g);
    for (int i = 0; i < tg_geom_num_geometries(g); i++)
        if (tg_geom_geometry_at(g, i) == tg_geom_geometry_at(c, i)) { printf("shared %d\n", i); return 1; }
    tg_geom_free(g);
    tg_geom_free(c);
    return 0;
}
""")
mk("S35","P21","a polygon with two or more holes, measured","the memory size counts one hole fewer than the polygon has",
 [("tg.c","""    for (int i = 0; i < poly->nholes; i++) {
        size += tg_ring_memsize(poly->holes[i]);
    }
    return size;""","""    for (int i = poly->nholes-1; i > 0; i--) {
        size += tg_ring_memsize(poly->holes[i]);
    }
    if (poly->nholes == 1) {
        size += tg_ring_memsize(poly->holes[0]);
    }
    return size;""")],
 H+r"""
int main(void) {
    tg_env_set_allocator(m, r, f);
    struct tg_geom *g = tg_parse_wkt("POLYGON((0 0,20 0,20 20,0 20,0 0),(1 1,2 1,2 2,1 1),(4 4,5 4,5 5,4 4),(7 7,8 7,8 8,7 7))");
    const struct tg_poly *p = tg_geom_poly(g);
    size_t a = tg_ring_memsize(tg_poly_exterior(p));
    for (int i = 0; i < tg_poly_num_holes(p); i++) a += tg_ring_memsize(tg_poly_hole_at(p, i));
    struct tg_poly *c = tg_poly_copy(p);
    long before = bytes;
    tg_poly_free(c);
    if ((long)tg_poly_memsize(p) != before-bytes) { printf("%zu != %ld\n", tg_poly_memsize(p), before-bytes); return 1; }
    tg_geom_free(g);
    return 0;
}
""")
