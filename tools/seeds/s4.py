import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "tg.h"
'''
mk("S11","P12","a GeometryCollection with a missing child tested against a polygon with touches","poly touches a geometry dereferences a missing child",
 [("tg.c","""static bool poly_touches_geom(struct tg_poly *poly, 
    const struct tg_geom *geom)
{
    if (geom) {
        switch (geom->head.base) {""","""static bool poly_touches_geom(struct tg_poly *poly, 
    const struct tg_geom *geom)
{
    if (poly) {
        switch (geom->head.base) {""")],
 H+r'''
int main(void) {
    struct tg_geom *p = tg_parse_wkt("POLYGON((0 0,1 0,1 1,0 0))");
    const struct tg_geom *k[2] = { NULL, p };
    struct tg_geom *c = tg_geom_new_geometrycollection(k, 2);
    tg_geom_touches(p, c);
    tg_geom_touches(c, p);
    return 0;
}
''')
mk("S12","P12","a Polygon with Z made from no polygon, written as GeoJSON","the GeoJSON writer of a polygon uses a polygon that is missing",
 [("tg.c","    if ((geom->head.flags&IS_EMPTY) == IS_EMPTY || !geom->poly) {","    if ((geom->head.flags&IS_EMPTY) == IS_EMPTY) {",0)],
 H+r'''
int main(void) {
    double z[3] = {1,2,3};
    struct tg_geom *g = tg_geom_new_polygon_z(NULL, z, 3);
    char buf[200];
    tg_geom_geojson(g, buf, sizeof(buf));
    tg_geom_wkt(g, buf, sizeof(buf));
    return 0;
}
''')
mk("S13","P12","copying a GeometryCollection in which one child is missing","a collection with a missing child cannot be copied any more",
 [("tg.c","                    if (child && !geom2->multi->geoms[i]) {","                    if (!geom2->multi->geoms[i]) {")],
 H+r'''
int main(void) {
    struct tg_geom *p = tg_geom_new_point((struct tg_point){1,2});
    const struct tg_geom *k[2] = { p, NULL };
    struct tg_geom *c = tg_geom_new_geometrycollection(k, 2);
    if (!c) return 9;
    return tg_geom_copy(c) == NULL;
}
''')
mk("S14","P12","a MultiPolygon made from an array that has a missing polygon","the MultiPolygon constructor fails for a missing polygon",
 [("tg.c","        if (polys[i] && !geom->multi->geoms[i]) {","        if (!geom->multi->geoms[i]) {")],
 H+r"""
int main(void) {
    struct tg_geom *p = tg_parse_wkt("POLYGON((0 0,1 0,1 1,0 0))");
    const struct tg_poly *k[2] = { tg_geom_poly(p), NULL };
    struct tg_geom *c = tg_geom_new_multipolygon(k, 2);
    return c == NULL || tg_geom_num_polys(c) != 2;
}
""")
