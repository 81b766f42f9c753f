import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H='#include <stdio.h>\n#include <stdlib.h>\n#include "tg.h"\n'
mk("S41","P12","the memory size of a geometry collection that has a missing child","the kind of a missing child is read",
 [("tg.c","""                size += tg_geom_memsize(geom->multi->geoms[i]);
""","""                const struct tg_geom *child = geom->multi->geoms[i];
                if (child->head.base == BASE_POINT) {
                    size += sizeof(struct boxed_point);
                } else {
                    size += tg_geom_memsize(child);
                }
""")],H+"""
int main(void) {
    struct tg_geom *p = tg_geom_new_point((struct tg_point){1,2});
    const struct tg_geom *k[3] = { p, NULL, p };
    struct tg_geom *g = tg_geom_new_geometrycollection(k, 3);
    if (!g) return 1;
    return tg_geom_memsize(g) > 0 ? 0 : 1;
}
""")
mk("S43","P12","a search of an indexed geometry collection that has a missing child","the kind of a missing child is read",
 [("tg.c","""            const struct tg_geom *child = multi->geoms[index];
            if (tg_rect_intersects_rect(tg_geom_rect(child), rect)) {""","""            const struct tg_geom *child = multi->geoms[index];
            if ((child->head.flags&IS_EMPTY) == IS_EMPTY) {
                continue;
            }
            if (tg_rect_intersects_rect(tg_geom_rect(child), rect)) {""")],H+"""
static bool it(const struct tg_geom *g, int i, void *u) { (*(int*)u)++; return true; }
int main(void) {
    const struct tg_geom *k[200];
    for (int i = 0; i < 200; i++) k[i] = tg_geom_new_point((struct tg_point){i,i});
    k[77] = NULL;
    struct tg_geom *g = tg_geom_new_geometrycollection(k, 200);
    if (!g) return 1;
    int n = 0;
    tg_geom_search(g, (struct tg_rect){{-1,-1},{300,300}}, it, &n);
    return n >= 199 ? 0 : 1;
}
""")
mk("S42","P12","a search of a geometry collection that has a missing child","the kind of a missing child is read",
 [("tg.c","""            const struct tg_geom *child = multi->geoms[i];
            if (tg_rect_intersects_rect(tg_geom_rect(child), rect)) {
                if (!iter(child, i, udata)) {""","""            const struct tg_geom *child = multi->geoms[i];
            bool hit;
            if (child->head.base == BASE_POINT) {
                hit = tg_point_intersects_rect(
                    ((struct boxed_point*)child)->point, rect);
            } else {
                hit = tg_rect_intersects_rect(tg_geom_rect(child), rect);
            }
            if (hit) {
                if (!iter(child, i, udata)) {""")],H+"""
static bool it(const struct tg_geom *g, int i, void *u) { (*(int*)u)++; return true; }
int main(void) {
    struct tg_geom *p = tg_geom_new_point((struct tg_point){1,2});
    const struct tg_geom *k[3] = { p, NULL, p };
    struct tg_geom *g = tg_geom_new_geometrycollection(k, 3);
    int n = 0;
    tg_geom_search(g, (struct tg_rect){{1,1},{3,3}}, it, &n);
    return n == 2 ? 0 : 1;
}
""")
