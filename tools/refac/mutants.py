M=[]
def m(n,p,*ed): M.append((n,p,ed))
# P01
m("a1","P01",("        error = tg_malloc(n+1);","        error = malloc(n+1);"))
m("a2","P01",("    uint8_t *data = tg_realloc(buf->data, cap+1);\n    if (!data) return false;","    uint8_t *data = buf->data ? tg_realloc(buf->data, cap+1) : malloc(cap+1);\n    if (!data) return false;"))
m("a3","P01",("static struct tg_geom *make_parse_error(const char *format, ...) {","static struct tg_geom *make_parse_error(const char *format, ...) {\n    char *z = strdup(format); free(z);"))
# P02
m("b1","P02",("i = parse_geobin(geobin, len, i, depth+1, ix, &feat);","i = parse_geobin(geobin, len, i, depth, ix, &feat);"))
m("b2","P02",("        i = parse_wkb(geobin, len, i, depth, ix, &geom);\n    }","        i = parse_wkb(geobin, len, i, 0, ix, &geom);\n    }"))
m("b3","P02",("        return parse_wkb(geobin, len, i, depth, ix, g);","        return parse_wkb(geobin, len, i, 0, ix, g);"),)
# P03
m("c1","P03",("    if (!ring || index < 0 || index >= ring->nsegs) {\n        return (struct tg_segment){ 0 };","    if (!ring || index < 0 || index >= ring->npoints) {\n        return (struct tg_segment){ 0 };"))
m("c2","P03",("    if (!ring || index < 0 || index >= ring->npoints) {\n        return (struct tg_point){ 0 };","    if (!ring || index >= ring->npoints) {\n        return (struct tg_point){ 0 };"))
m("c3","P03",("        geom->head.type == TG_MULTIPOLYGON && \n        geom->multi && index >= 0 && index < geom->multi->ngeoms)","        geom->head.type == TG_MULTIPOLYGON && \n        geom->multi && index >= 0 && index <= geom->multi->ngeoms)"))
m("c4","P03",("        geom->head.type == TG_MULTILINESTRING && \n        geom->multi &&index >= 0 && index < geom->multi->ngeoms)","        geom->head.type >= TG_MULTILINESTRING && \n        geom->multi &&index >= 0 && index < tg_geom_num_geometries(geom))"))
# P04
m("d1","P04",("bool tg_poly_touches_poly(const struct tg_poly *a, const struct tg_poly *b) {","bool tg_poly_touches_poly(const struct tg_poly *a, const struct tg_poly *b) {\n    static const struct tg_poly *last; static bool lastres; (void)lastres; last = a;"))
m("d2","P04",("    if (!ring) return (struct tg_rect){ 0 };\n    return ring->rect;","    if (!ring) return (struct tg_rect){ 0 };\n    ((struct tg_ring*)ring)->rect.min.x += 0.0;\n    return ring->rect;"))
# P05
m("e1","P05",("    while (*p) write_char(wr, *(p++));","    size_t k = strlen(p);\n    if (wr->count < wr->n) memcpy(wr->dst+wr->count, p, k > wr->n-wr->count ? wr->n-wr->count : k);\n    wr->count += k+0*(p-str);"))
m("e2","P05",("    while (*p) write_char(wr, *(p++));","    size_t k = strlen(p);\n    if (wr->count < wr->n) memcpy(wr->dst+wr->count, p, k);\n    wr->count += k;"))
# P08
m("f1","P08",("                if (!iter(child, index, udata)) {\n                    return false;\n                }\n            }\n        }\n    } else {\n        // branch","                if (!iter(child, index, udata)) {\n                    break;\n                }\n            }\n        }\n    } else {\n        // branch"))
m("f2","P08",("                if (!multi_index_search(multi, rect, levelidx+1, \n                    i*index->spread, iter, udata))\n                {\n                    return false;\n                }","                multi_index_search(multi, rect, levelidx+1, \n                    i*index->spread, iter, udata);"))
# P10
m("g1","P10",("        poly2->holes = tg_malloc(sizeof(struct tg_ring*)*poly->nholes);\n        if (!poly2->holes) {\n            goto fail;\n        }\n        poly2->nholes","        poly2->holes = tg_malloc(sizeof(struct tg_ring*)*poly->nholes);\n        poly2->nholes"))
m("g2","P10",("            if (!poly2->holes[i]) {\n                goto fail;\n            }","            if (!poly2->holes[i]) {\n                poly2->nholes = i;\n                break;\n            }"))
m("g3","P10",("    if (!data) return false;\n    buf->data = data;\n    buf->cap = cap;\n    buf->data[buf->cap] = '\\0';","    buf->data = data;\n    buf->cap = cap;\n    buf->data[buf->cap] = '\\0';"))
# P11
m("h1","P11",("    rc_retain(&poly->head.rc);\n    poly->head.base = BASE_POLY;","    poly->head.base = BASE_POLY;"))
m("h2","P11",("    if (!ring || ring->head.noheap) {\n        return tg_ring_copy(ring);\n    }\n    struct tg_ring *ring_mut = (struct tg_ring*)ring;\n    rc_retain(&ring_mut->head.rc);","    if (!ring || ring->head.noheap) {\n        return tg_ring_copy(ring);\n    }\n    struct tg_ring *ring_mut = (struct tg_ring*)ring;\n    if (ring->nsegs > 0) rc_retain(&ring_mut->head.rc);"))
m("h3","P11",("    poly->exterior = tg_ring_clone(exterior);","    poly->exterior = (struct tg_ring*)exterior;"))
m("h4","P11",("    if (atomic_fetch_sub_explicit(rc, 1, __ATOMIC_RELEASE) == 1) {","    if (atomic_fetch_sub_explicit(rc, 1, __ATOMIC_RELAXED) == 1) {"))
m("h5","P11",("    if (geom->head.noheap || !rc_release(&geom->head.rc)) return;","    if (geom->head.noheap || (!rc_release(&geom->head.rc) && geom->head.type != TG_POINT)) return;"))
# P12
m("i1","P12",("    if (!geom || geom->head.noheap) {\n        return tg_geom_copy(geom);","    if (geom->head.noheap) {\n        return tg_geom_copy(geom);"))
m("i2","P12",("size_t tg_ring_memsize(const struct tg_ring *ring) {\n    if (!ring) return 0;","size_t tg_ring_memsize(const struct tg_ring *ring) {"))
m("i3","P12",("    if (!geom) return (struct tg_point) { 0 };\n    if (geom->head.base == BASE_POINT) {","    if (geom->head.base == BASE_POINT) {"))
# P17
m("j1","P17",("        geom = make_parse_error(\"unknown type '%s'\", type);","        geom = make_parse_error(\"unknown type '%s'\", type);\n        if (getenv(\"TG_DEBUG\")) fprintf(stderr, \"x\");"))
m("j2","P17",("    if (!data) return false;\n    buf->data = data;\n    buf->cap = cap;","    if (!data) abort();\n    buf->data = data;\n    buf->cap = cap;"))
# P21
m("k1","P21",("            if (geom->multi->ixgeoms) {\n                tg_free(geom->multi->ixgeoms);\n            }\n","" ))
m("k2","P21",("    if (geom->head.type != TG_POINT && geom->coords) {\n        tg_free(geom->coords);","    if (geom->head.type != TG_POINT && geom->ncoords > 4) {\n        tg_free(geom->coords);"))
m("k3","P21",("                for (int i = 0; i < geom->multi->ngeoms; i++) {\n                    tg_geom_free(","                for (int i = 1; i < geom->multi->ngeoms; i++) {\n                    tg_geom_free("))
m("k4","P21",("    if (ring->ystripes) {\n        size += ring->ystripes->memsz;\n    }",""))
m("k5","P21",("        memcpy(ring2->ystripes, ring->ystripes, ring->ystripes->memsz);","        memcpy(ring2->ystripes, ring->ystripes, ring->ystripes->memsz-sizeof(int));"))
# P22
m("l1","P22",("static void write_string(struct writer *wr, const char *str) {","static void write_string(struct writer *wr, const char *str) {\n    if (isalpha((unsigned char)*str)) wr->n += 0;\n    if (toupper((unsigned char)*str) == 'X') { write_char(wr, 'x'); return; }"))
m("l2","P22",("    if (strcmp(type, \"Point\") == 0) {","    if (strcoll(type, \"Point\") == 0) {"))
# P24
m("n1","P24",("        error = tg_malloc(n+1);\n        if (error) {","        static char sbuf[256];\n        error = n < 3 ? sbuf : tg_malloc(n+1);\n        if (error) {"))
m("n2","P24",("        memcpy(geom->xjson, xjson, xjsonlen+1);","        tg_free(geom->xjson);\n        geom->xjson = (char*)xjson;"))
# P18
W="bool tg_geom_within(const struct tg_geom *a, const struct tg_geom *b) {\n    return tg_geom_contains(b, a);"
D="    return !tg_geom_intersects(a, b);"
Q="    return tg_geom_within(a, b) && tg_geom_contains(a, b);"
C="    return tg_geom_covers(b, a);"
m("q1","P18",(W,W.replace("    return tg","    if (a == b) return true;\n    return tg")))
m("q2","P18",(D,"    if (!tg_rect_intersects_rect(tg_geom_rect(a), tg_geom_rect(b))) return true;\n"+D))
m("q3","P18",(Q,"    return tg_geom_within(a, b) && tg_geom_covers(a, b);"))
m("q4","P18",(C,"    if (tg_geom_is_empty(a)) return true;\n"+C))
m("q5","P18",(D,"    if (!a || !b) return false;\n"+D))
# quiet
m("Z1","P18",(W,W.replace("    return tg","    if (!a || !b) return false;\n    return tg")))
m("Z2","P18",(D,"    if (a && b) {\n        bool hit = tg_geom_intersects(a, b);\n        return hit ? false : true;\n    }\n    return true;"))
m("Z3","P18",(Q,"    bool both = tg_geom_contains(a, b);\n    if (both) both = tg_geom_coveredby(a,b) || true ? tg_geom_contains(b, a) : false;\n    return both;"))
m("Z4","P18",(C,"    const struct tg_geom *t = a; a = b; b = t;\n    return tg_geom_covers(a, b);"))
m("Z5","P18",(Q,"    return !(!tg_geom_within(a, b) || !tg_geom_within(b, a));"))

# round 2
m("r1","P06",("    if (dims == 2 && !swap && len-i >= (size_t)count*2*8) {","    if (dims == 2 && !swap && (len-i)/8 >= count*2) {"))
m("r2","P06",("        i += 8*dims*2;\n        if (i >= len) {\n            goto invalid;\n        }\n    }\n    size_t xjsonlen","        i += 8*dims*2;\n        if (i > len+1) {\n            goto invalid;\n        }\n    }\n    size_t xjsonlen"))
m("r3","P06",("        if (nfeats > len-i) {","        if ((int)nfeats > (int)(len-i)) {"))
m("r4","P02",("            i = parse_geobin(geobin, len, i, depth+1, ix, &feat);","            i = parse_geobin(geobin, len, i, j == 0 ? depth+1 : depth, ix, &feat);"))
m("r5","P02",("        i = parse_wkb(wkb, len, i, depth+1, ix, &child);","        i = parse_wkb(wkb, len, i, ++depth, ix, &child);"))
m("r6","P24",("        *points = (void*)(wkb+i);\n        *npoints = count;","        *points = (void*)(wkb+i);\n        if (count > 4096) posns->data = (double*)*points;\n        *npoints = count;"))
m("r7","P10",("    if (xjsonlen > 0) {\n        geom->xjson = tg_malloc(xjsonlen+1);\n        if (!geom->xjson) {\n            tg_geom_free(geom);\n            *g = 0;\n            return PARSE_FAIL;\n        }\n        memcpy(geom->xjson, xjson, xjsonlen+1);","    if (xjsonlen > 0) {\n        geom->xjson = tg_malloc(xjsonlen+1);\n        if (geom->xjson) memcpy(geom->xjson, xjson, xjsonlen+1);"))
m("r8","P10",("        struct tg_line *line = tg_line_clone(tg_geom_line(child));\n        if (!lvec_append(&lines, line)) {\n            tg_line_free(line);\n            goto fail;\n        }","        struct tg_line *line = tg_line_clone(tg_geom_line(child));\n        if (!lvec_append(&lines, line)) {\n            tg_line_free(line);\n        }"))
m("r9","P11",("            if (geom) geom->poly = tg_poly_clone(poly);","            if (geom) { geom->poly = poly; }"))
m("r10","P11",("        geom->multi->geoms[i] = (struct tg_geom*)tg_poly_clone(polys[i]);","        geom->multi->geoms[i] = (struct tg_geom*)polys[i];\n        if (i == 0 || polys[i] != polys[i-1]) tg_poly_clone(polys[i]);"))
m("r11","P10",("            items = tg_realloc(queue->items, elsize*cap);\n            if (!items) goto oom;","            items = tg_realloc(queue->items, elsize*cap);\n            if (!items) items = queue->items;"))
m("r12","P02",("    size_t elsize = sizeof(struct nqentry);\n    if (queue->len == queue->cap) {","    size_t elsize = sizeof(struct nqentry);\n    char tmp[queue->len*elsize+1]; memcpy(tmp, queue->items, queue->len*elsize);\n    if (tmp[0] == 77) queue->maxlen++;\n    if (queue->len == queue->cap) {"))
m("r13","P12",("        geom->multi->geoms[i] = (struct tg_geom*)tg_line_clone(lines[i]);","        geom->multi->geoms[i] = lines[i]->x == NULL ? NULL : (struct tg_geom*)tg_line_clone(lines[i]);".replace("lines[i]->x","((struct head*)lines[i])->rc == 0 ? NULL : NULL")))
m("r14","P04",("    if (!ring) return (struct tg_rect){ 0 };\n    return ring->rect;","    if (!ring) return (struct tg_rect){ 0 };\n    if (ring->npoints < 0) ((struct tg_ring*)ring)->npoints = 0;\n    return ring->rect;"))
m("r15","P08",("            if (tg_rect_intersects_rect(tg_geom_rect(child), rect)) {\n                if (!iter(child, i, udata)) {","            if (tg_rect_intersects_rect(tg_geom_rect(child), rect)) {\n                if (!iter(child, i, udata) && i+1 < multi->ngeoms) {"))
m("r16","P03",("    if (!ring || index < 0 || index >= ring->nsegs) {\n        return (struct tg_segment){ 0 };","    if (!ring || index < 0 || index > ring->npoints-1) {\n        return (struct tg_segment){ 0 };"))
m("r17","P11",("        geom->multi->geoms[i] = tg_geom_clone(geoms[i]);","        geom->multi->geoms[i] = geoms[i] && geoms[i]->head.noheap ? (struct tg_geom*)geoms[i] : tg_geom_clone(geoms[i]);"))
m("s1","P10",("        if (!rvec_append(rings, ring)) {\n            tg_ring_free(ring);\n            return PARSE_FAIL;\n        }","        if (!rvec_append(rings, ring)) {\n            tg_ring_free(ring);\n            break;\n        }"))
m("s2","P10",("        if (!ring) return PARSE_FAIL;\n        if (!rvec_append(rings, ring)) {","        if (!ring) continue;\n        if (!rvec_append(rings, ring)) {"))
m("s3","P10",("                if (!dvec_append(xcoords, posn[i])) {\n                    return PARSE_FAIL;\n                }","                dvec_append(xcoords, posn[i]);"))
m("s4","P10",("            if (!dvec_append(&xcoords, coords[i])) goto fail;","            if (!dvec_append(&xcoords, coords[i])) break;"))
