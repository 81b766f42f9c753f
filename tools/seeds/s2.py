import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "tg.h"
'''
mk("S04","P02","GeoJSON made of objects nested 400000 deep","nesting through objects is not counted by the JSON validator, so it recurses without limit",
 [("tg.c","            if ((i = vcolon(data, dlen, i)) < 0) return i;\n            if ((i = vany(data, dlen, i, depth+1)) < 0) return i;","            if ((i = vcolon(data, dlen, i)) < 0) return i;\n            if ((i = vany(data, dlen, i, depth)) < 0) return i;")],
 H+r'''
int main(void) {
    size_t n = 400000; char *s = malloc(n*6+20), *p = s;
    for (size_t i = 0; i < n; i++) { memcpy(p, "{\"a\":", 5); p += 5; }
    *p++ = '1';
    for (size_t i = 0; i < n; i++) *p++ = '}';
    *p = 0;
    struct tg_geom *g = tg_parse_geojson(s);
    int ok = g && tg_geom_error(g);
    tg_geom_free(g);
    return !ok;
}
''')

mk("S05","P02","a WKB of multi points nested in each other hundreds of thousands deep","the depth is not counted through multi points",
 [("tg.c","i = parse_wkb(wkb, len, i, depth+1, ix, &point);","i = parse_wkb(wkb, len, i, depth, ix, &point);")],
 H+r"""
int main(void) {
    size_t n = 300000; unsigned char *s = calloc(n+1, 9); size_t k = 0;
    for (size_t i = 0; i < n; i++) { s[k] = 1; s[k+1] = 4; s[k+5] = 1; k += 9; }
    struct tg_geom *g = tg_parse_wkb(s, k);
    int ok = g && tg_geom_error(g);
    tg_geom_free(g);
    return !ok;
}
""")

mk("S06","P02","a multi geometry with more than a hundred thousand children","the scratch array for the index of a multi geometry is a variable-size array on the stack",
 [("tg.c","    struct hildex *hildexes = tg_malloc(sizeof(struct hildex)*multi->ngeoms);\n    if (!hildexes) {\n        return false;\n    }\n","    struct hildex hildexes[multi->ngeoms];\n"),("tg.c","    tg_free(hildexes);\n\n    struct ixrect ixrect;","    struct ixrect ixrect;")],
 H+r"""
int main(void) {
    int n = 2000000;
    struct tg_point *p = malloc(sizeof(*p)*n);
    for (int i = 0; i < n; i++) { p[i].x = i % 1000; p[i].y = i / 1000; }
    struct tg_geom *g = tg_geom_new_multipoint(p, n);
    int ok = g && tg_geom_num_points(g) == n;
    tg_geom_free(g);
    return !ok;
}
""")
mk("S07","P02","a GeoJSON string member with very many escapes","the string scanner of the JSON validator recurses for every escape",
 [("tg.c","static int64_t vcolon(const uint8_t *json, int64_t len, int64_t i) {\n","static int64_t vcolon(const uint8_t *json, int64_t len, int64_t i) {\n    if (i < len && json[i] == '\\t') { int64_t r = vcolon(json, len, i+1); return r < 0 ? r : r + (json[i] != 9); };\n")],
 H+r'''
int main(void) {
    size_t n = 3000000; char *s = malloc(n+100), *p = s;
    memcpy(p, "{\"type\"", 7); p += 7; memset(p, '\t', n); p += n;
    strcpy(p, ":\"Point\",\"coordinates\":[1,2]}");
    struct tg_geom *g = tg_parse_geojson(s);
    int ok = g && !tg_geom_error(g);
    tg_geom_free(g);
    return !ok;
}
''')
