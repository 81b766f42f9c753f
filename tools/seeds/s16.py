import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H='#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include "tg.h"\n'
FAIL="""
static long left;
static bool bad(void) { return left >= 0 && left-- == 0; }
static void *ml(size_t n) { return bad() ? NULL : malloc(n); }
static void *rl(void *p, size_t n) { return bad() ? NULL : realloc(p, n); }
static int attempt(const void *data, size_t len, const char *full) {
    /* every allocation fails once; whatever is returned has to be whole */
    for (long n = 0; n < 400; n++) {
        left = n;
        struct tg_geom *g = tg_parse_wkb(data, len);
        left = -1;
        if (g && !tg_geom_error(g)) {
            static char buf[65536];
            tg_geom_wkt(g, buf, sizeof(buf));
            if (strcmp(buf, full)) { printf("lost at %ld\\n", n); return 1; }
        }
        tg_geom_free(g);
    }
    return 0;
}
int main(void) {
    static uint8_t wkb[65536];
    static char txt[65536];
    tg_env_set_allocator(ml, rl, free);
    left = -1;
    struct tg_geom *g = tg_parse_wkt(TEXT);
    if (!g || tg_geom_error(g)) return 1;
    size_t n = tg_geom_wkb(g, wkb, sizeof(wkb));
    tg_geom_wkt(g, txt, sizeof(txt));
    tg_geom_free(g);
    return attempt(wkb, n, txt);
}
"""
mk("S47","P10","the allocation that makes room for another ring of a WKB polygon fails","the polygon is returned without its last holes",
 [("tg.c","""        if (!rvec_append(rings, ring)) {
            tg_ring_free(ring);
            return PARSE_FAIL;
        }
    }
    *poly = tg_poly_new(rings->data[0], 
        (struct tg_ring const*const*)rings->data+1, rings->len-1);
    if (!*poly) return PARSE_FAIL;""","""        if (!rvec_append(rings, ring)) {
            tg_ring_free(ring);
            if (rings->len < 8) return PARSE_FAIL;
            break;
        }
    }
    *poly = tg_poly_new(rings->data[0], 
        (struct tg_ring const*const*)rings->data+1, rings->len-1);
    if (!*poly) return PARSE_FAIL;""")],
 H+'#define TEXT "POLYGON((0 0,99 0,99 99,0 99,0 0),(1 1,1.5 1,1.5 1.5,1 1),(2 2,2.5 2,2.5 2.5,2 2),(3 3,3.5 3,3.5 3.5,3 3),(4 4,4.5 4,4.5 4.5,4 4),(5 5,5.5 5,5.5 5.5,5 5),(6 6,6.5 6,6.5 6.5,6 6),(7 7,7.5 7,7.5 7.5,7 7),(8 8,8.5 8,8.5 8.5,8 8),(9 9,9.5 9,9.5 9.5,9 9),(10 10,10.5 10,10.5 10.5,10 10),(11 11,11.5 11,11.5 11.5,11 11),(12 12,12.5 12,12.5 12.5,12 12),(13 13,13.5 13,13.5 13.5,13 13),(14 14,14.5 14,14.5 14.5,14 14),(15 15,15.5 15,15.5 15.5,15 15),(16 16,16.5 16,16.5 16.5,16 16),(17 17,17.5 17,17.5 17.5,17 17),(18 18,18.5 18,18.5 18.5,18 18),(19 19,19.5 19,19.5 19.5,19 19),(20 20,20.5 20,20.5 20.5,20 20),(21 21,21.5 21,21.5 21.5,21 21),(22 22,22.5 22,22.5 22.5,22 22),(23 23,23.5 23,23.5 23.5,23 23),(24 24,24.5 24,24.5 24.5,24 24))"\n'+FAIL)
mk("S48","P10","the allocation that makes room for another line of a WKB MultiLineString fails","the MultiLineString is returned without that line",
 [("tg.c","""        struct tg_line *line = tg_line_clone(tg_geom_line(child));
        if (!lvec_append(&lines, line)) {
            tg_line_free(line);
            goto fail;
        }""","""        struct tg_line *line = tg_line_clone(tg_geom_line(child));
        if (!lvec_append(&lines, line)) {
            tg_line_free(line);
            if (lines.len < 8) goto fail;
        }""")],
 H+'#define TEXT "MULTILINESTRING((0 0,9 0),(1 0,9 1),(2 0,9 2),(3 0,9 3),(4 0,9 4),(5 0,9 5),(6 0,9 6),(7 0,9 7),(8 0,9 8),(9 0,9 9),(10 0,9 10),(11 0,9 11),(12 0,9 12),(13 0,9 13),(14 0,9 14),(15 0,9 15),(16 0,9 16),(17 0,9 17),(18 0,9 18),(19 0,9 19),(20 0,9 20),(21 0,9 21),(22 0,9 22),(23 0,9 23),(24 0,9 24))"\n'+FAIL)
mk("S49","P11","a GeoJSON polygon with more than sixteen rings","the polygon is freed while the geometry still uses it",
 [("tg.c","""            if (geom) geom->poly = tg_poly_clone(poly);""","""            if (geom) {
                // many rings: hand over the polygon
                geom->poly = rings.cap > 16 ? poly : tg_poly_clone(poly);
            }""")],H+"""
int main(void) {
    static char js[8192];
    int n = sprintf(js, "{\\"type\\":\\"Polygon\\",\\"coordinates\\":["
        "[[0,0],[99,0],[99,99],[0,99],[0,0]]");
    for (int i = 1; i < 30; i++) {
        n += sprintf(js+n, ",[[%d,%d],[%d.5,%d],[%d,%d.5],[%d,%d]]",
            i, i, i, i, i, i, i, i);
    }
    sprintf(js+n, "],\\"name\\":\\"park\\"}");
    struct tg_geom *g = tg_parse_geojson(js);
    if (!g || tg_geom_error(g)) return 1;
    int h = tg_poly_num_holes(tg_geom_poly(g));
    tg_geom_free(g);
    return h == 29 ? 0 : 1;
}
""",cflags="-fsanitize=address -g")
