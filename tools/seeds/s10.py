import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include "tg.h"
static long left = -1;
static void *m(size_t n) { if (left == 0) return NULL; if (left > 0) left--; return malloc(n); }
static void *r(void *p, size_t n) { if (left == 0) return NULL; if (left > 0) left--; return realloc(p, n); }
'''
mk("S30","P10","copying a collection of 64 or more geometries when the last block of its index cannot be allocated","the copy gets an index without its table of geometries, which the first search reads",
 [("tg.c","""                if (!geom2->multi->ixgeoms) {
                    goto fail;
                }
                memcpy(geom2->multi->ixgeoms, geom->multi->ixgeoms,
                    geom->multi->ngeoms*sizeof(int));
""","""                if (geom2->multi->ixgeoms) {
                    memcpy(geom2->multi->ixgeoms, geom->multi->ixgeoms,
                        geom->multi->ngeoms*sizeof(int));
                }
""")],
 H+r"""
int main(void) {
    struct tg_point p[100];
    for (int i = 0; i < 100; i++) p[i] = (struct tg_point){ i, i%10 };
    struct tg_geom *g = tg_geom_new_multipoint(p, 100);
    for (int k = 0; k < 150; k++) {
        pid_t pid = fork();
        if (pid == 0) {
            tg_env_set_allocator(m, r, free);
            left = k;
            struct tg_geom *c = tg_geom_copy(g);
            left = -1;
            if (c && !tg_geom_intersects_xy(c, 5, 5)) _exit(1);
            if (c) tg_geom_free(c);
            _exit(0);
        }
        int st = 0; waitpid(pid, &st, 0);
        if (st != 0) { printf("crashed when allocation %d failed\n", k); return 1; }
    }
    return 0;
}""")
mk("S31","P10","copying a geometry with extra coordinates when their block cannot be allocated","the copy is returned without its extra coordinates",
 [("tg.c","""        if (!geom2->coords) {
            goto fail;
        }
        geom2->ncoords = geom->ncoords;
        memcpy(geom2->coords, geom->coords, sizeof(double)*geom->ncoords);
""","""        if (geom2->coords) {
            geom2->ncoords = geom->ncoords;
            memcpy(geom2->coords, geom->coords, 
                sizeof(double)*geom->ncoords);
        }
""")],
 H+r'''
int main(void) {
    double z[2] = {7,8};
    struct tg_point p[2] = {{1,2},{3,4}};
    struct tg_geom *g = tg_geom_new_linestring_z(tg_line_new(p, 2), z, 2);
    tg_env_set_allocator(m, r, free);
    for (int k = 0; k < 20; k++) {
        left = k;
        struct tg_geom *c = tg_geom_copy(g);
        left = -1;
        if (c && tg_geom_num_extra_coords(c) != 2) { printf("incomplete copy\n"); return 1; }
        if (c) tg_geom_free(c);
    }
    return 0;
}''')
mk("S32","P10","copying a polygon with holes when one hole cannot be copied","the copy is returned with a missing hole",
 [("tg.c","""            poly2->holes[i] = tg_ring_copy(poly->holes[i]);
            if (!poly2->holes[i]) {
                goto fail;
            }
""","""            poly2->holes[i] = tg_ring_copy(poly->holes[i]);
            if (!poly2->holes[i] && i == 0) {
                goto fail;
            }
""")],
 H+r"""
int main(void) {
    struct tg_geom *g = tg_parse_wkt("POLYGON((0 0,9 0,9 9,0 9,0 0),(1 1,2 1,2 2,1 1),(3 3,4 3,4 4,3 3))");
    tg_env_set_allocator(m, r, free);
    for (int k = 0; k < 20; k++) {
        left = k;
        struct tg_poly *c = tg_poly_copy(tg_geom_poly(g));
        left = -1;
        if (c && !tg_poly_hole_at(c, 1)) { printf("incomplete copy\n"); return 1; }
    }
    return 0;
}""")
