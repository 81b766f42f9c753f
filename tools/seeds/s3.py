import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "tg.h"
'''

mk("S08","P03","the rect index that equals the number of rects of a level","the rect accessor of an index accepts one rect too many, which belongs to the next level",
 [("tg.c","    if (rectidx < 0 || rectidx >= level->nrects) {","    if (rectidx < 0 || rectidx > level->nrects) {")],
 H+r"""
int main(void) {
    static struct tg_point p[20000];
    for (int i = 0; i < 20000; i++) { p[i].x = i+1; p[i].y = i%7; }
    p[19999] = p[0];
    struct tg_ring *r = tg_ring_new_ix(p, 20000, TG_NATURAL);
    if (tg_ring_index_num_levels(r) < 2) return 9;
    struct tg_rect x = tg_ring_index_level_rect(r, 0, tg_ring_index_level_num_rects(r, 0));
    return x.max.x != 0 || x.min.x != 0;
}
""")
mk("S09","P03","asking a GeometryCollection accessor of a MultiPoint","the geometry accessor returns children of other multi types although their number is reported as zero",
 [("tg.c","        geom->head.type == TG_GEOMETRYCOLLECTION && \n        geom->multi && index >= 0 &&","        geom->head.type >= TG_MULTIPOLYGON && \n        geom->multi && index >= 0 &&")],
 H+r'''
int main(void) {
    struct tg_geom *g = tg_parse_wkt("MULTIPOLYGON(((0 0,1 0,1 1,0 0)),((5 5,6 5,6 6,5 5)))");
    if (!g || tg_geom_error(g)) return 9;
    int n = tg_geom_num_geometries(g);
    return n == 0 && tg_geom_geometry_at(g, 0) != NULL;
}
''')
mk("S10","P03","the segment index one below INT_MAX or a line of one point","the segment accessor of a line checks against the number of points",
 [("tg.c","struct tg_segment tg_line_segment_at(const struct tg_line *line, int index) {\n","struct tg_segment tg_line_segment_at(const struct tg_line *line, int index) {\n    if (line && index >= 0 && index == tg_line_num_points(line)-1) {\n        struct tg_point p = tg_line_point_at(line, index);\n        return (struct tg_segment) { p, p };\n    }\n")],
 H+r'''
int main(void) {
    struct tg_point p[3] = {{1,2},{3,4},{5,6}};
    struct tg_line *l = tg_line_new(p, 3);
    struct tg_segment s = tg_line_segment_at(l, tg_line_num_segments(l));
    return s.a.x != 0 || s.b.x != 0;
}
''')
