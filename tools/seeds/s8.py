import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "tg.h"
'''
FL=("tg.c","""        char *error; // an error message, when flag IS_ERROR
    };
};
""","""        char *error; // an error message, when flag IS_ERROR
    };
    bool borrowed; // the large extra block belongs to the caller
};
""")
mk("S24","P24","a geometry with 4096 or more extra coordinates whose array the caller changes or frees afterwards","large arrays of extra coordinates are kept by reference instead of being copied",
 [FL,("tg.c","""        geom->coords = NULL;
    } else {
        geom->coords = tg_malloc(ncoords*sizeof(double));
""","""        geom->coords = NULL;
    } else if (ncoords >= 4096) {
        // large arrays are used in place
        geom->coords = (double*)coords;
        geom->borrowed = true;
    } else {
        geom->coords = tg_malloc(ncoords*sizeof(double));
"""),("tg.c","""    if (geom->head.type != TG_POINT && geom->coords) {
        tg_free(geom->coords);
""","""    if (geom->head.type != TG_POINT && geom->coords) {
        if (!geom->borrowed) tg_free(geom->coords);
""")],
 H+r'''
int main(void) {
    static struct tg_point p[5000]; static double z[5000];
    for (int i = 0; i < 5000; i++) { p[i] = (struct tg_point){ i, i%7 }; z[i] = i; }
    struct tg_line *l = tg_line_new(p, 5000);
    struct tg_geom *g = tg_geom_new_linestring_z(l, z, 5000);
    memset(z, 0, sizeof(z));
    return tg_geom_extra_coords(g)[100] != 100;
}
''')
mk("S25","P24","a GeoBIN feature with 8192 or more bytes of extra JSON, read after the input buffer was changed or freed","large extra JSON is not copied out of the GeoBIN input",
 [FL,("tg.c","""    if (geom->error) {
        // error and xjson share the same memory, so this copy covers both.
        tg_free(geom->error);
    }
    tg_free(geom);
""","""    if (geom->error && !geom->borrowed) {
        // error and xjson share the same memory, so this copy covers both.
        tg_free(geom->error);
    }
    tg_free(geom);
"""),("tg.c","""        geom->xjson = tg_malloc(xjsonlen+1);
        if (!geom->xjson) {
""","""        geom->borrowed = xjsonlen >= 8192;
        if (geom->borrowed) {
            geom->xjson = (char*)xjson;
            goto kept;
        }
        geom->xjson = tg_malloc(xjsonlen+1);
        if (!geom->xjson) {
"""),("tg.c","""        memcpy(geom->xjson, xjson, xjsonlen+1);
    }
""","""        memcpy(geom->xjson, xjson, xjsonlen+1);
    kept:;
    }
""")],
 H+r'''
int main(void) {
    char *s = malloc(20000), *q = s;
    q += sprintf(q, "{\"type\":\"Feature\",\"geometry\":{\"type\":\"LineString\",\"coordinates\":[[1,2],[3,4]]},\"properties\":{\"a\":\"");
    memset(q, 'x', 9000); q += 9000;
    strcpy(q, "\"}}");
    struct tg_geom *g = tg_parse_geojson(s);
    if (tg_geom_error(g)) return 3;
    size_t n = tg_geom_geobin(g, 0, 0);
    uint8_t *b = malloc(n);
    tg_geom_geobin(g, b, n);
    struct tg_geom *h = tg_parse_geobin(b, n);
    if (tg_geom_error(h)) return 4;
    memset(b, 0, n);
    const char *x = tg_geom_extra_json(h);
    return !x || strcmp(x, tg_geom_extra_json(g)) != 0;
}
''')
