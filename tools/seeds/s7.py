import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>
#include "tg.h"
/* an allocator over one arena that can be made read-only */
static char *arena; static size_t used; static size_t cap = 64<<20;
static void *am(size_t n) { if (used+n+16 > cap) return 0; size_t *p=(void*)(arena+used); *p=n; used += (n+31)&~(size_t)15; return p+2; }
static void af(void *p) { (void)p; }
static void *ar(void *p, size_t n) { void *q=am(n); if (q&&p) { size_t o=((size_t*)p)[-2]; memcpy(q,p,o<n?o:n); } return q; }
static void setup(void) { arena=mmap(0,cap,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); tg_env_set_allocator(am,ar,af); }
static void freeze(void) { mprotect(arena,cap,PROT_READ); }
'''
mk("S21","P04","two threads measure the same ring (or its memory is read-only); the first call after construction","tg_ring_perimeter stores its result in the shared ring",
 [("tg.c","""    double area;
    int npoints;
    int nsegs;
    struct tg_rect rect;
    struct index *index;
    struct ystripes *ystripes;
    struct tg_point points[]; 
""","""    double area;
    double perim;
    int npoints;
    int nsegs;
    struct tg_rect rect;
    struct index *index;
    struct ystripes *ystripes;
    struct tg_point points[]; 
"""),("tg.c","""double tg_ring_perimeter(const struct tg_ring *ring) {
    if (tg_ring_empty(ring)) return 0;
""","""double tg_ring_perimeter(const struct tg_ring *ring) {
    if (tg_ring_empty(ring)) return 0;
    if (ring->perim > 0) return ring->perim;
"""),("tg.c","""        perim += length(a.x, a.y, b.x, b.y);
    }
    return perim;
""","""        perim += length(a.x, a.y, b.x, b.y);
    }
    ((struct tg_ring*)ring)->perim = perim;
    return perim;
""",0)],
 H+r'''
int main(void) {
    setup();
    struct tg_point p[5] = {{0,0},{4,0},{4,4},{0,4},{0,0}};
    struct tg_ring *r = tg_ring_new(p, 5);
    freeze();
    double x = tg_ring_perimeter(r);
    return !(x == 16);
}
''')
mk("S22","P04","two threads write two unrelated geometries as text at the same time","coordinates are formatted in a static scratch buffer shared by all threads",
 [("tg.c","""    size_t dstsz = wr->count < wr->n ? wr->n - wr->count : 0;
    char *dst = wr->dst ? (char*)wr->dst+wr->count : 0;
    if (print_fixed_floats) {
        wr->count += fp_dtoa(f, 'f', dst, dstsz);
    } else {
        wr->count += fp_dtoa(f, 'g', dst, dstsz);
    }
""","""    static char num[512];
    size_t n = fp_dtoa(f, print_fixed_floats ? 'f' : 'g', num, sizeof(num));
    for (size_t i = 0; i < n; i++) {
        write_char(wr, num[i]);
    }
""")],
 H+r'''
static volatile int bad;
static void *work(void *a) {
    char want[64], got[64];
    double x = a ? 123456.789 : -7.25;
    struct tg_geom *g = tg_geom_new_point((struct tg_point){ x, -x });
    snprintf(want, sizeof(want), a ? "POINT(123456.789 -123456.789)" : "POINT(-7.25 7.25)");
    for (int i = 0; i < 3000000 && !bad; i++) {
        tg_geom_wkt(g, got, sizeof(got));
        if (strcmp(got, want)) bad = 1;
    }
    return 0;
}
int main(void) {
    pthread_t t[4];
    for (long i = 0; i < 4; i++) pthread_create(&t[i], 0, work, (void*)(i&1));
    for (int i = 0; i < 4; i++) pthread_join(t[i], 0);
    return bad;
}
''',lib="-lm -lpthread")
mk("S23","P04","an emptiness test of a collection whose members are all empty, shared by threads or in read-only memory","tg_geom_is_empty records its answer in the flags of the geometry it was asked about",
 [("tg.c","""                if (!tg_geom_is_empty(geom->multi->geoms[i])) {
                    return false;
                }
            }
        }
    }
    return true;
}
""","""                if (!tg_geom_is_empty(geom->multi->geoms[i])) {
                    return false;
                }
            }
            // empty once means always empty
            struct head *head = (struct head*)&geom->head;
            head->flags |= IS_EMPTY;
        }
    }
    return true;
}
""",0)],
 H+r'''
int main(void) {
    setup();
    struct tg_geom *k[2] = { tg_geom_new_linestring_empty(), tg_geom_new_polygon_empty() };
    struct tg_geom *g = tg_geom_new_geometrycollection((const struct tg_geom*const*)k, 2);
    freeze();
    return !tg_geom_is_empty(g);
}
''')
