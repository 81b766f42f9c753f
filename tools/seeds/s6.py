import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "tg.h"
static int calls, stopped, again;
'''
mk("S18","P08","an iterator that stops during a search of two lines of which only one is indexed","the search continues with the next segment after the iterator returned false",
 [("tg.c","""        if (!ok) {
            ctx->stop = true;
            return false;
        }
""","""        if (!ok) {
            return false;
        }
""")],
 H+r'''
static bool it(struct tg_segment a, int ai, struct tg_segment b, int bi, void *u) {
    (void)a; (void)ai; (void)b; (void)bi; (void)u;
    if (stopped) again++;
    stopped = 1;
    return false;
}
int main(void) {
    struct tg_point p[401], q[401];
    for (int i = 0; i <= 400; i++) { p[i] = (struct tg_point){ i, i%2 }; q[i] = (struct tg_point){ i, 1-i%2 }; }
    struct tg_line *a = tg_line_new_ix(p, 401, TG_NATURAL);
    struct tg_line *b = tg_line_new_ix(q, 401, TG_NONE);
    tg_line_line_search(a, b, it, 0);
    stopped = 0;
    tg_line_line_search(b, a, it, 0);
    return again != 0;
}
''')
mk("S19","P08","an iterator that stops during a search of a collection with more than one index level","the search continues in the next branch of the index after the iterator returned false",
 [("tg.c","""                if (!multi_index_search(multi, rect, levelidx+1, 
                    i*index->spread, iter, udata))
                {
                    return false;
                }
""","""                multi_index_search(multi, rect, levelidx+1, 
                    i*index->spread, iter, udata);
""")],
 H+r'''
static bool it(const struct tg_geom *g, int i, void *u) {
    (void)g; (void)i; (void)u;
    if (stopped) again++;
    stopped = 1;
    return false;
}
int main(void) {
    static struct tg_geom *k[3000];
    struct tg_point p[3000];
    for (int i = 0; i < 3000; i++) p[i] = (struct tg_point){ i, i };
    tg_env_set_index(TG_NATURAL);
    char *s = malloc(400000); int n = sprintf(s, "MULTIPOINT(");
    for (int i = 0; i < 3000; i++) n += sprintf(s+n, "%s(%d %d)", i ? "," : "", i % 100, i / 100);
    sprintf(s+n, ")");
    struct tg_geom *g = tg_parse_wkt_ix(s, TG_NATURAL);
    if (!g || tg_geom_error(g)) return 5;
    (void)k;
    tg_geom_search(g, tg_geom_rect(g), it, 0);
    return again != 0;
}
''')
mk("S20","P08","an iterator that stops the nearest-segment search of an indexed line","the nearest search goes on with the next segment after the iterator returned false",
 [("tg.c","""                if (!iter(seg, ientry->dist, ientry->seg_index, udata)) {
                    break;
                }
            }
            continue;""","""                if (!iter(seg, ientry->dist, ientry->seg_index, udata) &&
                    ientry->dist > 0)
                {
                    break;
                }
            }
            continue;""")],
 H+r'''
static double rd(struct tg_rect r, int *more, void *u) { (void)more; (void)u; return r.min.x; }
static double sd(struct tg_segment s, int *more, void *u) { (void)more; (void)u; return s.a.x; }
static bool it(struct tg_segment s, double d, int i, void *u) {
    (void)s; (void)d; (void)i; (void)u;
    if (stopped) again++;
    stopped = 1;
    return false;
}
int main(void) {
    static struct tg_point p[401];
    for (int i = 0; i <= 400; i++) p[i] = (struct tg_point){ i, i%2 };
    struct tg_line *a = tg_line_new_ix(p, 401, TG_NATURAL);
    tg_line_nearest_segment(a, rd, sd, it, 0);
    return again != 0;
}
''')
