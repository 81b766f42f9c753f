import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H='#include <stdio.h>\n#include <stdlib.h>\n#include "tg.h"\n'
mk("S44","P18","equals asked for an empty geometry and itself","equals answers true where contains answers false both ways",
 [("tg.c","""    return tg_geom_within(a, b) && tg_geom_contains(a, b);
""","""    if (a == b) return a != NULL;
    return tg_geom_within(a, b) && tg_geom_contains(a, b);
""")],H+"""
int main(void) {
    struct tg_geom *g = tg_parse_wkt("GEOMETRYCOLLECTION EMPTY");
    if (!g || tg_geom_error(g)) return 1;
    return tg_geom_equals(g, g) ==
        (tg_geom_contains(g, g) && tg_geom_within(g, g)) ? 0 : 1;
}
""")
mk("S45","P18","disjoint asked for two points with a coordinate that is not a number","two points that intersect are disjoint",
 [("tg.c","""    return !tg_geom_intersects(a, b);
""","""    if (tg_geom_typeof(a) == TG_POINT && tg_geom_typeof(b) == TG_POINT &&
        !tg_geom_is_empty(a) && !tg_geom_is_empty(b))
    {
        struct tg_point pa = tg_geom_point(a);
        struct tg_point pb = tg_geom_point(b);
        return pa.x != pb.x || pa.y != pb.y;
    }
    return !tg_geom_intersects(a, b);
""")],H+"""
int main(void) {
    struct tg_geom *a = tg_geom_new_point((struct tg_point){0.0/0.0, 1});
    struct tg_geom *b = tg_geom_new_point((struct tg_point){0.0/0.0, 1});
    if (!a || !b) return 1;
    return tg_geom_disjoint(a, b) == !tg_geom_intersects(a, b) ? 0 : 1;
}
""")
mk("S46","P18","coveredby asked for an empty MultiLineString","coveredby answers true where covers the other way round answers false",
 [("tg.c","""    return tg_geom_covers(b, a);
""","""    if (tg_geom_typeof(a) == TG_MULTILINESTRING && tg_geom_is_empty(a) &&
        !tg_geom_is_empty(b))
    {
        return true;
    }
    return tg_geom_covers(b, a);
""")],H+"""
int main(void) {
    struct tg_geom *a = tg_parse_wkt("MULTILINESTRING EMPTY");
    struct tg_geom *b = tg_parse_wkt("POLYGON((0 0,9 0,9 9,0 9,0 0))");
    if (tg_geom_error(a) || tg_geom_error(b)) return 1;
    return tg_geom_coveredby(a, b) == tg_geom_covers(b, a) ? 0 : 1;
}
""")
