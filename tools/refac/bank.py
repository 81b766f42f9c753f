R={}
R["copykids"]=[("""static struct tg_geom *geom_copy(const struct tg_geom *geom) {""","""static bool copy_children(struct multi *dst, const struct multi *src) {
    for (int i = 0; i < src->ngeoms; i++) {
        const struct tg_geom *kid = src->geoms[i];
        if (!kid) {
            continue;
        }
        struct tg_geom *dup = tg_geom_copy(kid);
        if (!dup) {
            return false;
        }
        dst->geoms[i] = dup;
    }
    return true;
}

static struct tg_geom *geom_copy(const struct tg_geom *geom) {"""),
("""                for (int i = 0; i < geom->multi->ngeoms; i++) {
                    const struct tg_geom *child = geom->multi->geoms[i];
                    geom2->multi->geoms[i] = tg_geom_copy(child);
                    if (child && !geom2->multi->geoms[i]) {
                        goto fail;
                    }
                }
""","""                if (!copy_children(geom2->multi, geom->multi)) {
                    goto fail;
                }
""")]
R["copyline"]=[("""        geom2->line = tg_line_copy(geom->line);
        if (geom->line && !geom2->line) {
            goto fail;
        }
        break;""","""        if (geom->line) {
            struct tg_line *line = tg_line_copy(geom->line);
            if (line == NULL) goto fail;
            geom2->line = line;
        }
        break;""")]
R["isempty"]=[("""static bool base_geom_deep_empty(""","""static bool has_empty_flag(const struct tg_geom *geom) {
    return (geom->head.flags & IS_EMPTY) != 0;
}

static bool base_geom_deep_empty("""),
("""    if (geom) {
        if ((geom->head.flags&IS_EMPTY) == IS_EMPTY) return true;
        switch""","""    if (geom) {
        if (has_empty_flag(geom)) return true;
        switch""")]
R["freewhile"]=[("""                for (int i = 0; i < geom->multi->ngeoms; i++) {
                    tg_geom_free(geom->multi->geoms[i]);
                }
                tg_free(geom->multi->geoms);""","""                int n = geom->multi->ngeoms;
                struct tg_geom **kids = geom->multi->geoms;
                while (n > 0) {
                    n--;
                    tg_geom_free(kids[n]);
                }
                tg_free(kids);""")]
R["freehelper"]=[("""static void geom_free(struct tg_geom *geom) {""","""static void multi_free(struct multi *multi) {
    if (!multi) return;
    if (multi->geoms) {
        for (int i = 0; i < multi->ngeoms; i++) {
            tg_geom_free(multi->geoms[i]);
        }
    }
    tg_free(multi->geoms);
    tg_free(multi->index);
    tg_free(multi->ixgeoms);
    tg_free(multi);
}

static void geom_free(struct tg_geom *geom) {"""),
("""        if (geom->multi) {
            if (geom->multi->geoms) {
                for (int i = 0; i < geom->multi->ngeoms; i++) {
                    tg_geom_free(geom->multi->geoms[i]);
                }
                tg_free(geom->multi->geoms);
            }
            if (geom->multi->index) {
                tg_free(geom->multi->index);
            }
            if (geom->multi->ixgeoms) {
                tg_free(geom->multi->ixgeoms);
            }
            tg_free(geom->multi);
        }
        break;""","""        multi_free(geom->multi);
        break;""")]
R["touchearly"]=[("""    if (geom) {
        switch (geom->head.base) {
        case BASE_GEOM:
            return poly_touches_base_geom(poly, geom);""","""    if (geom == NULL) {
        return false;
    }
    {
        switch (geom->head.base) {
        case BASE_GEOM:
            return poly_touches_base_geom(poly, geom);""")]
R["geomat"]=[("""    if (geom && geom->head.base == BASE_GEOM && 
        geom->head.type == TG_GEOMETRYCOLLECTION && 
        geom->multi && index >= 0 && index < geom->multi->ngeoms)
    {
        return geom->multi->geoms[index];
    }
    return NULL;""","""    int count = tg_geom_num_geometries(geom);
    if (index < 0 || index >= count) {
        return NULL;
    }
    return geom->multi->geoms[index];""")]
R["searchloop"]=[("""        for (int i = 0; i < multi->ngeoms; i++) {
            const struct tg_geom *child = multi->geoms[i];
            if (tg_rect_intersects_rect(tg_geom_rect(child), rect)) {
                if (!iter(child, i, udata)) {
                    return;
                }
            } 
        }""","""        int i = 0;
        bool more = true;
        while (more && i < multi->ngeoms) {
            const struct tg_geom *child = multi->geoms[i];
            struct tg_rect crect = tg_geom_rect(child);
            if (tg_rect_intersects_rect(crect, rect)) {
                more = iter(child, i, udata);
            }
            i++;
        }""")]
R["writebyte"]=[("""    if (wr->count < wr->n) {
        wr->dst[wr->count] = b;
    }
    wr->count++;
}

static void write_char""","""    size_t pos = wr->count++;
    if (pos >= wr->n) {
        return;
    }
    wr->dst[pos] = b;
}

static void write_char""")]
R["nullterm"]=[("""    if (wr->n > wr->count) {
        wr->dst[wr->count] = '\\0';
    } else if (wr->n > 0) {
        wr->dst[wr->n-1] = '\\0';
    }""","""    if (wr->n == 0) return;
    size_t end = wr->count < wr->n ? wr->count : wr->n-1;
    wr->dst[end] = '\\0';""")]
R["wrring"]=[("""    write_char(wr, '[');
    for (int i = 0 ; i < ring->npoints; i++) {
        if (i > 0) write_char(wr, ',');
        write_posn_geojson(wr, ring->points[i]);
    }
    write_char(wr, ']');
    return ring->npoints;""","""    int n = ring->npoints;
    const struct tg_point *pts = ring->points;
    write_char(wr, '[');
    int i = 0;
    while (i < n) {
        if (i != 0) {
            write_char(wr, ',');
        }
        write_posn_geojson(wr, *pts++);
        i++;
    }
    write_char(wr, ']');
    return n;""")]
R["clone"]=[("""    struct tg_geom *geom_mut = (struct tg_geom*)geom;
    rc_retain(&geom_mut->head.rc);
    return geom_mut;
}

static void geom_free""","""    rc_retain(&((struct tg_geom*)geom)->head.rc);
    return (struct tg_geom*)geom;
}

static void geom_free""")]
R["touchhelper"]=[("""                for (int i = 0; i < geom->multi->ngeoms; i++) {
                    const struct tg_geom *child = geom->multi->geoms[i];
                    if (poly_touches_geom(poly, child)) {
                        touches = true;
                    } else if (poly_intersects_geom(poly, child)) {
                        return false;
                    }
                }""","""                const struct multi *m = geom->multi;
                const struct tg_geom *const *it = 
                    (const struct tg_geom *const *)m->geoms;
                for (int i = m->ngeoms; i > 0; i--, it++) {
                    bool t = poly_touches_geom(poly, *it);
                    if (!t && poly_intersects_geom(poly, *it)) {
                        return false;
                    }
                    touches = touches || t;
                }""")]
R["memsize"]=[("""        if (geom->multi) {
            size += sizeof(struct multi);
            size += geom->multi->ngeoms*sizeof(struct tg_geom*);""","""        if (!geom->multi) {
            break;
        } else {
            const int n = geom->multi->ngeoms;
            size += sizeof(struct multi) + n*sizeof(struct tg_geom*);""")]
R["newmulti"]=[("""        geom->multi->geoms[i] = (struct tg_geom*)tg_poly_clone(polys[i]);
        if (polys[i] && !geom->multi->geoms[i]) {""","""        if (!polys[i]) continue;
        struct tg_poly *cl = tg_poly_clone(polys[i]);
        geom->multi->geoms[i] = (struct tg_geom*)cl;
        if (!cl) {""")]
R["polynew"]=[("""        for (int i = 0; i < poly->nholes; i++) {
            poly->holes[i] = tg_ring_clone(holes[i]);
            if (!poly->holes[i]) {
                goto fail;
            }
        }""","""        int h = 0;
        do {
            struct tg_ring *hole = tg_ring_clone(holes[h]);
            if (!hole) {
                goto fail;
            }
            poly->holes[h++] = hole;
        } while (h < nholes);""")]
R["rcinit"]=[("""    memset(geom, 0, sizeof(struct tg_geom));
    rc_init(&geom->head.rc);
    rc_retain(&geom->head.rc);
    geom->head.base = BASE_GEOM;
    geom->head.type = type;
    return geom;""","""    memset(geom, 0, sizeof(*geom));
    geom->head.type = type;
    geom->head.base = BASE_GEOM;
    rc_init(&geom->head.rc);
    rc_retain(&geom->head.rc);
    return geom;""")]
R["relhelper"]=[("""    if (atomic_fetch_sub_explicit(rc, 1, __ATOMIC_RELEASE) == 1) {
        atomic_thread_fence(__ATOMIC_ACQUIRE);
        return true;
    }
    return false;""","""    int prev = atomic_fetch_sub_explicit(rc, 1, __ATOMIC_ACQ_REL);
    return prev <= 1 && prev > 0;""")]
R["relearly"]=[("""    if (atomic_fetch_sub_explicit(rc, 1, __ATOMIC_RELEASE) == 1) {
        atomic_thread_fence(__ATOMIC_ACQUIRE);
        return true;
    }
    return false;""","""    bool last = atomic_fetch_sub_explicit(rc, 1, __ATOMIC_RELEASE)-1 == 0;
    atomic_thread_fence(__ATOMIC_ACQUIRE);
    return last;""")]
R["polyfreenest"]=[("    if (poly->head.noheap || !rc_release(&poly->head.rc)) return;\n","    bool last = !poly->head.noheap;\n    if (last) last = rc_release(&poly->head.rc);\n    if (!last) return;\n")]
R["ringclone"]=[("    rc_retain(&ring_mut->head.rc);\n","    rc_t *prc = &ring_mut->head.rc;\n    rc_retain(prc);\n")]
R["polyholes"]=[("""            poly->holes[i] = tg_ring_clone(holes[i]);
            if (!poly->holes[i]) {
                goto fail;
            }
""","""            struct tg_ring *hole = tg_ring_clone(holes[i]);
            if (!hole) goto fail;
            poly->holes[i] = hole;
""")]
R["multifree"]=[("""                for (int i = 0; i < geom->multi->ngeoms; i++) {
                    tg_geom_free(geom->multi->geoms[i]);
                }
                tg_free(geom->multi->geoms);""","""                int n = geom->multi->ngeoms;
                struct tg_geom **kids = geom->multi->geoms;
                while (n-- > 0) {
                    tg_geom_free(kids[n]);
                }
                tg_free(kids);""")]
R["iterflag"]=[("""                if (!iter(child, i, udata)) {
                    return;
                }
            } 
        }
    } else {""","""                bool more = iter(child, i, udata);
                if (!more) break;
            } 
        }
    } else {""")]
R["iterflag2"]=[("""        for (int i = 0; i < multi->ngeoms; i++) {
            const struct tg_geom *child = multi->geoms[i];
            if (tg_rect_intersects_rect(tg_geom_rect(child), rect)) {
                if (!iter(child, i, udata)) {
                    return;
                }
            } 
        }""","""        bool stop = false;
        int i = 0;
        while (!stop && i < multi->ngeoms) {
            const struct tg_geom *child = multi->geoms[i];
            if (tg_rect_intersects_rect(tg_geom_rect(child), rect)) {
                stop = !iter(child, i, udata);
            } 
            i++;
        }""")]
R["ixret"]=[("""                if (!iter(child, index, udata)) {
                    return false;
                }
            }
        }
    } else {""","""                bool ok = iter(child, index, udata);
                if (ok) continue;
                return false;
            }
        }
    } else {""")]
R["ringringflag"]=[("""        if (!ok) {
            ctx->stop = true;
            return false;
        }
    }
    return true;""","""        ctx->stop = !ok;
        return ok;
    }
    return true;""")]
R["ringringhelper"]=[("""static bool ring_ring_iter(struct tg_segment seg, int index, void *udata) {
    struct ring_ring_iter_ctx *ctx = udata;
    if (tg_segment_intersects_segment(seg, ctx->seg)) {
        bool ok = ctx->swapped ? 
            ctx->iter(ctx->seg, ctx->index, seg, index, ctx->udata):
            ctx->iter(seg, index, ctx->seg, ctx->index, ctx->udata);
        if (!ok) {""","""static bool ring_ring_call(struct ring_ring_iter_ctx *ctx,
    struct tg_segment seg, int index)
{
    if (ctx->swapped) {
        return ctx->iter(ctx->seg, ctx->index, seg, index, ctx->udata);
    }
    return ctx->iter(seg, index, ctx->seg, ctx->index, ctx->udata);
}

static bool ring_ring_iter(struct tg_segment seg, int index, void *udata) {
    struct ring_ring_iter_ctx *ctx = udata;
    if (tg_segment_intersects_segment(seg, ctx->seg)) {
        if (!ring_ring_call(ctx, seg, index)) {""")]
# --- writers
R["w_early"]=[("""    if (wr->count < wr->n) {
        wr->dst[wr->count] = b;
    }
    wr->count++;
""","""    size_t at = wr->count++;
    if (at >= wr->n) return;
    wr->dst[at] = b;
""")]
R["w_left"]=[("""    if (wr->count+16 < wr->n) {
        memcpy(wr->dst+wr->count, &posn, 16);
""","""    size_t left = wr->n > wr->count ? wr->n - wr->count : 0;
    if (left > 16) {
        uint8_t *to = wr->dst+wr->count;
        memcpy(to, &posn, 16);
""")]
R["w_left2"]=[("""    if (wr->count+24 < wr->n) {
        memcpy(""","""    if (wr->n > wr->count && wr->n - wr->count > sizeof(double)*3) {
        memcpy(""")]
R["w_strlen"]=[("""    const char *p = str;
    while (*p) write_char(wr, *(p++));
}

static void write_stringn(""","""    for (size_t i = 0; str[i]; i++) {
        write_char(wr, str[i]);
    }
}

static void write_stringn(""")]
R["w_strn"]=[("""static void write_string(struct writer *wr, const char *str) {
    const char *p = str;
    while (*p) write_char(wr, *(p++));
}

static void write_stringn(struct writer *wr, const char *str, size_t n) {
    for (size_t i = 0; i < n; i++) {
        write_char(wr, str[i]);
    }
}
""","""static void write_stringn(struct writer *wr, const char *str, size_t n) {
    for (size_t i = 0; i < n; i++) {
        write_char(wr, str[i]);
    }
}

static void write_string(struct writer *wr, const char *str) {
    write_stringn(wr, str, strlen(str));
}
""")]
R["w_block"]=[("""    for (size_t i = 0; i < n; i++) {
        write_char(wr, str[i]);
    }
}
""","""    if (wr->count < wr->n && n <= wr->n - wr->count) {
        memcpy(wr->dst + wr->count, str, n);
        wr->count += n;
        return;
    }
    for (size_t i = 0; i < n; i++) {
        write_char(wr, str[i]);
    }
}
""")]
R["w_nt"]=[("""    if (wr->n > wr->count) {
        wr->dst[wr->count] = '\\0';
    } else if (wr->n > 0) {
        wr->dst[wr->n-1] = '\\0';
    }
""","""    if (wr->n == 0) return;
    size_t at = wr->count < wr->n ? wr->count : wr->n-1;
    wr->dst[at] = '\\0';
""")]
R["w_hexfor"]=[("""    size_t i = count - 1;
    size_t j = count*2 - 1;
    while (1) {
        if (i < n) {
            uint8_t ch = dst[i];
            if (j < n) dst[j] = hexchars[ch&15];
            if (j-1 < n) dst[j-1] = hexchars[(ch>>4)&15];
        }
        if (i == 0) break;
        i -= 1;
        j -= 2;
    }
""","""    for (size_t i = count; i-- > 0;) {
        if (i >= n) continue;
        uint8_t ch = dst[i];
        if (i*2+1 < n) dst[i*2+1] = hexchars[ch&15];
        if (i*2 < n) dst[i*2] = hexchars[(ch>>4)&15];
    }
""")]
R["w_dbl"]=[("""    size_t dstsz = wr->count < wr->n ? wr->n - wr->count : 0;
    char *dst = wr->dst ? (char*)wr->dst+wr->count : 0;
    if (print_fixed_floats) {
        wr->count += fp_dtoa(f, 'f', dst, dstsz);
    } else {
        wr->count += fp_dtoa(f, 'g', dst, dstsz);
    }
""","""    char *dst = NULL;
    size_t dstsz = 0;
    if (wr->count < wr->n) {
        dst = (char*)wr->dst+wr->count;
        dstsz = wr->n - wr->count;
    }
    char fmt = print_fixed_floats ? 'f' : 'g';
    size_t nb = fp_dtoa(f, fmt, dst, dstsz);
    wr->count += nb;
""")]
R["w_room"]=[("""static void write_byte(struct writer *wr, uint8_t b) {
    if (wr->count < wr->n) {""","""static bool has_room(const struct writer *wr, size_t k) {
    return wr->count + k < wr->n;
}

static void write_byte(struct writer *wr, uint8_t b) {
    if (has_room(wr, 0)) {"""),("""    if (wr->count+32 < wr->n) {""","""    if (has_room(wr, 32)) {""")]
R["w_fields"]=[("""    uint8_t *dst;
    size_t n;
    size_t count;
};

union raw_double""","""    size_t count;
    uint8_t *dst;
    size_t n;
};

union raw_double""")]
R["w_uint"]=[("""    for (int i = 0; i < 4; i++) {
        write_byte(wr, x>>(i*8));
    }
""","""    write_byte(wr, x);
    write_byte(wr, x>>8);
    write_byte(wr, x>>16);
    write_byte(wr, x>>24);
""")]
R["w_geojson"]=[("""    struct writer wr = { .dst = (uint8_t*)dst, .n = n };
""","""    struct writer wr;
    memset(&wr, 0, sizeof(wr));
    wr.n = n;
    wr.dst = (uint8_t*)dst;
""")]
R["w_xjson"]=[("""    if (xjson) {
        write_string(wr, xjson);
    }
    write_byte(wr, 0);
    
    if (""","""    if (xjson) {
        size_t xlen = strlen(xjson);
        write_stringn(wr, xjson, xlen);
    }
    write_byte(wr, 0);
    
    if (""")]
R["w_fields2"]=[("""    uint8_t *dst;
    size_t n;
    size_t count;
};

union raw_double""","""    size_t n;
    size_t count;
    uint8_t *dst;
};

union raw_double""")]
R["o_dup"]=[("""static struct tg_geom *geom_copy(const struct tg_geom *geom) {""","""static void *dup_block(const void *from, size_t size) {
    void *to = tg_malloc(size);
    if (to) {
        memcpy(to, from, size);
    }
    return to;
}

static struct tg_geom *geom_copy(const struct tg_geom *geom) {"""),
("""        geom2->coords = tg_malloc(sizeof(double)*geom->ncoords);
        if (!geom2->coords) {
            goto fail;
        }
        geom2->ncoords = geom->ncoords;
        memcpy(geom2->coords, geom->coords, sizeof(double)*geom->ncoords);
""","""        geom2->coords = dup_block(geom->coords, sizeof(double)*geom->ncoords);
        if (!geom2->coords) goto fail;
        geom2->ncoords = geom->ncoords;
"""),
("""        geom2->error = tg_malloc(esize);
        if (!geom2->error) {
            goto fail;
        }
        memcpy(geom2->error, geom->error, esize);
""","""        geom2->error = dup_block(geom->error, esize);
        if (!geom2->error) goto fail;
""")]
R["o_whole"]=[("""    memset(geom2, 0, sizeof(struct tg_geom));
    memcpy(&geom2->head, &geom->head, sizeof(struct head));
    rc_init(&geom2->head.rc);
    rc_retain(&geom2->head.rc);
    geom2->head.noheap = 0;
    switch (geom->head.type) {
    case TG_POINT:
        geom2->point.x = geom->point.x;
        geom2->point.y = geom->point.y;
        geom2->z = geom->z;
        geom2->m = geom->m;
        break;
""","""    memset(geom2, 0, sizeof(struct tg_geom));
    geom2->head = geom->head;
    rc_init(&geom2->head.rc);
    rc_retain(&geom2->head.rc);
    geom2->head.noheap = 0;
    switch (geom->head.type) {
    case TG_POINT:
        geom2->point = geom->point;
        geom2->z = geom->z;
        geom2->m = geom->m;
        break;
""")]
R["o_ptrloop"]=[("""        for (int i = 0; i < poly->nholes; i++) {
            if (poly->holes[i]) tg_ring_free(poly->holes[i]);
        }
        tg_free(poly->holes);
    }
    tg_free(poly);""","""        struct tg_ring **end = poly->holes+poly->nholes;
        for (struct tg_ring **h = poly->holes; h < end; h++) {
            tg_ring_free(*h);
        }
        tg_free(poly->holes);
    }
    tg_free(poly);""")]
R["o_size2"]=[("""    size += poly->nholes*sizeof(struct tg_ring*);
    for (int i = 0; i < poly->nholes; i++) {
        size += tg_ring_memsize(poly->holes[i]);
    }
    return size;""","""    for (int i = 0; i < poly->nholes; i++) {
        size += sizeof(struct tg_ring*)+tg_ring_memsize(poly->holes[i]);
    }
    return size;""")]
R["o_copydown"]=[("""        for (int i = 0; i < poly2->nholes; i++) {
            poly2->holes[i] = tg_ring_copy(poly->holes[i]);
            if (!poly2->holes[i]) {
                goto fail;
            }
        }
    }
    return poly2;""","""        int i = 0;
        do {
            struct tg_ring *hole = tg_ring_copy(poly->holes[i]);
            if (!hole) goto fail;
            poly2->holes[i++] = hole;
        } while (i < poly->nholes);
    }
    return poly2;""")]
R["o_ringsize"]=[("""    size_t size = ring_alloc_size(ring);
    if (ring->ystripes) {
        size += ring->ystripes->memsz;
    }
    return size;
}""","""    size_t extra = 0;
    if (ring->ystripes != NULL) extra = ring->ystripes->memsz;
    return extra + ring_alloc_size(ring);
}""")]
R["o_geomsize"]=[("""    if (geom->head.type != TG_POINT && geom->coords) {
        size += geom->ncoords*sizeof(double);
    }
    if (geom->xjson) {""","""    if (geom->head.type != TG_POINT) {
        size += geom->coords ? geom->ncoords*sizeof(double) : 0;
    }
    if (geom->error) {""")]
R["o_errcalloc"]=[("""    struct tg_geom *geom2 = tg_malloc(sizeof(struct tg_geom));
    if (!geom2) {
        return NULL;
    }
    memset(geom2, 0, sizeof(struct tg_geom));
    memcpy(&geom2->head, &geom->head, sizeof(struct head));""","""    struct tg_geom *geom2 = tg_malloc(sizeof(struct tg_geom));
    if (!geom2) return NULL;
    *geom2 = (struct tg_geom){ 0 };
    geom2->head = geom->head;""")]
R["o_mfree"]=[("""    if (geom->head.noheap || !rc_release(&geom->head.rc)) return;
    switch (geom->head.type) {
    case TG_POINT:
        break;
    case TG_LINESTRING:
        tg_line_free(geom->line);
        break;
    case TG_POLYGON:
        tg_poly_free(geom->poly);
        break;
    case TG_MULTIPOINT:""","""    if (geom->head.noheap) return;
    if (!rc_release(&geom->head.rc)) return;
    enum tg_geom_type type = geom->head.type;
    if (geom->error) {
        tg_free(geom->error);
        geom->error = NULL;
    }
    switch (type) {
    case TG_POINT:
        break;
    case TG_LINESTRING:
        if (geom->line) tg_line_free(geom->line);
        break;
    case TG_POLYGON:
        if (geom->poly) tg_poly_free(geom->poly);
        break;
    case TG_MULTIPOINT:""")]
R["p_take"]=[("""#define read_uint32(name) { \\
    if (i+4 > len) goto invalid; \\
    uint32_t _val_ = read_uint32(wkb+i, swap); \\
    i += 4; \\
    (name) = _val_; \\
}
""","""static bool take_uint32(const uint8_t *wkb, size_t len, size_t *at,
    bool swap, uint32_t *out)
{
    if (len - *at < 4) {
        return false;
    }
    *out = read_uint32(wkb + *at, swap);
    *at += 4;
    return true;
}

#define read_uint32(name) { \\
    uint32_t _val_; \\
    if (!take_uint32(wkb, len, &i, swap, &_val_)) goto invalid; \\
    (name) = _val_; \\
}
""")]
R["p_posn"]=[("""    if (i+(8*dims) > len) goto invalid; \\
    for (int j = 0; j < dims; j++) { \\
        (posn)[j] = read_double(wkb+i, swap); \\
        i += 8; \\
    } \\
""","""    if (len-i < (size_t)dims*8) goto invalid; \\
    { \\
        int k = 0; \\
        while (k < dims) { \\
            (posn)[k] = read_double(wkb+i+k*8, swap); \\
            k++; \\
        } \\
        i += dims*8; \\
    } \\
""")]
R["p_count"]=[("""    if (dims == 2 && !swap && len-i >= (size_t)count*2*8) {
        // Use the point data directly. No allocations. 
        *points = (void*)(wkb+i);
        *npoints = count;
        i += (size_t)count*2*8; 
""","""    const size_t nbytes = (size_t)count * sizeof(struct tg_point);
    const bool direct = !swap && dims == 2 && nbytes <= len-i;
    if (direct) {
        // Use the point data directly. No allocations. 
        *npoints = count;
        *points = (void*)(wkb+i);
        i += nbytes; 
"""),("""        for (uint32_t j = 0 ; j < count; j++) {
            read_posn(posn);
            for (int i = 0; i < 2; i++) {""","""        uint32_t left = count;
        while (left > 0) {
            left--;
            read_posn(posn);
            for (int i = 0; i < 2; i++) {""")]
R["p_xjson"]=[("""    size_t xjsonlen = 0;
    const char *xjson = (const char*)(geobin+i);
    for (; i < len; i++) {
        if (geobin[i] == '\\0') {
            i++;
            break;
        }
        xjsonlen++;
    }
    if (i == len) {
        goto invalid;
    }
""","""    const char *xjson = (const char*)(geobin+i);
    const char *nul = memchr(xjson, '\\0', len-i);
    if (!nul) {
        goto invalid;
    }
    size_t xjsonlen = nul-xjson;
    i += xjsonlen+1;
    if (i == len) {
        goto invalid;
    }
""")]
R["p_xjson2"]=[("""    size_t xjsonlen = 0;
    const char *xjson = (const char*)(geobin+i);
    for (; i < len; i++) {
        if (geobin[i] == '\\0') {
            i++;
            break;
        }
        xjsonlen++;
    }
    if (i == len) {
""","""    const size_t start = i;
    const char *xjson = (const char*)(geobin+start);
    while (i < len && geobin[i] != '\\0') {
        i++;
    }
    const size_t xjsonlen = i-start;
    if (i < len) {
        i++;
    }
    if (i >= len) {
""")]
R["p_dims"]=[("""    int dims = geobin[i++];
    if (dims && (dims < 2 || dims > 4)) {
        goto invalid;
    }
    if (dims) {
        i += 8*dims*2;
        if (i >= len) {
            goto invalid;
        }
    }
""","""    const int dims = geobin[i];
    i += 1;
    switch (dims) {
    case 0:
        break;
    case 2: case 3: case 4: {
        const size_t nrect = (size_t)dims*2*sizeof(double);
        if (len-i <= nrect) {
            goto invalid;
        }
        i += nrect;
        break;
    }
    default:
        goto invalid;
    }
""")]
R["p_hex"]=[("""    size_t j = 0;
    for (size_t i = 0; i < len; i += 2) {
        uint8_t b0 = hextoks[(uint8_t)hex[i+0]];
        uint8_t b1 = hextoks[(uint8_t)hex[i+1]];
        if (b0 == _ || b1 == _) goto invalid;
        dst[j] = ((b0-1)<<4)|(b1-1);
        j++;
    }
""","""    const size_t nbytes = len/2;
    for (size_t j = 0; j < nbytes; j++) {
        uint8_t b0 = hextoks[(uint8_t)hex[j*2]];
        uint8_t b1 = hextoks[(uint8_t)hex[j*2+1]];
        if (b0 == _ || b1 == _) goto invalid;
        dst[j] = ((b0-1)<<4)|(b1-1);
    }
""")]
R["p_hex2"]=[("""    if (len/2 > sizeof(smallfry)) {
        dst = tg_malloc(len/2);
        if (!dst) return NULL;
        must_free = true;
    } else {
        dst = smallfry;
    }
""","""    if (len <= 2*sizeof(smallfry)) {
        dst = smallfry;
    } else {
        must_free = true;
        dst = tg_malloc(len>>1);
        if (!dst) {
            return NULL;
        }
    }
""")]
R["p_rect"]=[("""        } else if (geobin[0] != 0x01 && len >= 2+8*(size_t)geobin[1]*2){
            // Read MBR
            int dims = geobin[1];
            if (dims >= 2) {
                memcpy(&rect.min.x, geobin+2, 8);
                memcpy(&rect.min.y, geobin+2+8, 8);
                memcpy(&rect.max.x, geobin+2+8*dims, 8);
                memcpy(&rect.max.y, geobin+2+8*dims+8, 8);
            }
        }
""","""        } else if (geobin[0] != 0x01) {
            // Read MBR
            const size_t dims = geobin[1];
            const uint8_t *lo = geobin+2;
            if (dims >= 2 && len-2 >= dims*16) {
                const uint8_t *hi = lo+dims*8;
                memcpy(&rect.min, lo, 16);
                memcpy(&rect.max, hi, 16);
            }
        }
""")]
R["p_vnum"]=[("""    // int 
    if (data[i] == '0') {
        i++;
    } else {
        for (; i < dlen; i++) {
            if (data[i] >= '0' && data[i] <= '9') continue;
            break;
        }
    }
    // frac
    if (i == dlen) return i;
    if (data[i] == '.') {
        i++;
        if (i == dlen) return -(i+1);
        if (data[i] < '0' || data[i] > '9') return -(i+1);
        i++;
        for (; i < dlen; i++) {
            if (data[i] >= '0' && data[i] <= '9') continue;
            break;
        }
    }
    // exp
""","""    // int 
    if (data[i] != '0') {
        while (i < dlen && data[i] >= '0' && data[i] <= '9') {
            i++;
        }
    } else {
        i++;
    }
    // frac
    if (i >= dlen) return i;
    if (data[i] == '.') {
        const int64_t first = ++i;
        while (i < dlen && data[i] >= '0' && data[i] <= '9') {
            i++;
        }
        if (i == first) return -(i+1);
    }
    // exp
""")]
R["p_vcomma"]=[("""    if (i == len) return -(i+1);
    if (json[i] == ',') return i;
    do {
        switch (json[i]) {
        case ' ': case '\\t': case '\\n': case '\\r': continue;
        case ',': return i;
        default: return json[i] == end ? i : -(i+1);
        }
    } while (++i < len);
    return -(i+1);
""","""    for (; i < len; i++) {
        const uint8_t c = json[i];
        if (c == ' ' || c == '\\t' || c == '\\n' || c == '\\r') {
            continue;
        }
        if (c == ',' || c == end) {
            return i;
        }
        break;
    }
    return -(i+1);
""")]
R["p_trim"]=[("""    for (; i < len; i++) {
        if (!isws(wkt[i])) break;
    }
    return i;
}

// returns -1 for invalid""","""    while (i < len && isws(wkt[i])) {
        i++;
    }
    return i;
}

// returns -1 for invalid""")]
R["p_wkbend"]=[("""    const uint8_t *wkb, size_t len, size_t i, bool swap,
    struct dvec *posns, struct dvec *xcoords,
    struct tg_point **points, int *npoints,
    const char **err)
{
    *err = NULL;
    double posn[4];
    uint32_t count;
    read_uint32(count);
""","""    const uint8_t *wkb, size_t len, size_t i, bool swap,
    struct dvec *posns, struct dvec *xcoords,
    struct tg_point **points, int *npoints,
    const char **err)
{
    *err = NULL;
    double posn[4];
    uint32_t count;
    const uint8_t *p = wkb+i, *end = wkb+len;
    if ((size_t)(end-p) < sizeof(uint32_t)) goto invalid;
    count = (read_uint32)(p, swap);
    i += sizeof(uint32_t);
""")]
R["movepoly"]=[("            if (geom) geom->poly = tg_poly_clone(poly);","            if (geom) {\n                geom->poly = poly;\n                poly = NULL;\n            }")]
R["moveline"]=[("            if (geom) geom->line = tg_line_clone(line);","            if (geom) {\n                geom->line = line;\n                line = NULL;\n            }")]
R["arrtmp"]=[("        geom->multi->geoms[i] = (struct tg_geom*)tg_poly_clone(polys[i]);\n        if (polys[i] &&","        const struct tg_poly *p = polys[i];\n        geom->multi->geoms[i] = (struct tg_geom*)tg_poly_clone(p);\n        if (p &&")]
R["appok"]=[("            if (!dvec_append(&xcoords, coords[i])) goto fail;","            bool ok = dvec_append(&xcoords, coords[i]);\n            if (!ok) goto fail;")]
R["apploop"]=[("                if (!dvec_append(posns, posn[i])) {\n                    return PARSE_FAIL;\n                }\n            }","                if (!dvec_append(posns, posn[i])) {\n                    full = true;\n                    break;\n                }\n            }\n            if (full) return PARSE_FAIL;"),("    double posn[4];\n    uint32_t count;\n    read_uint32(count);\n    if (count == 0) return i;\n    if (dims == 2","    double posn[4];\n    bool full = false;\n    uint32_t count;\n    read_uint32(count);\n    if (count == 0) return i;\n    if (dims == 2")]
R["appint"]=[("            if (i >= pdims || !dvec_append(xcoords, posn[i])) return -1;","            int rc = i >= pdims ? -1 : dvec_append(xcoords, posn[i]) ? 0 : -1;\n            if (rc < 0) return rc;")]
R["appflag"]=[("        if (!lvec_append(&lines, line)) {\n            tg_line_free(line);\n            goto fail;\n        }\n        const double","        bool kept = lvec_append(&lines, line);\n        if (!kept) tg_line_free(line);\n        if (!kept) goto fail;\n        const double")]
R["apploop2"]=[("        for (int i = 0; i < ncoords; i++) {\n            if (!dvec_append(&xcoords, coords[i])) goto fail;\n        }\n        tg_geom_free(child);\n        child = NULL;\n    }\n    switch (dims) {\n    case 2:\n        geom = tg_geom_new_multilinestring(","        bool room = true;\n        for (int i = 0; i < ncoords && room; i++) {\n            room = dvec_append(&xcoords, coords[i]);\n        }\n        if (!room) goto fail;\n        tg_geom_free(child);\n        child = NULL;\n    }\n    switch (dims) {\n    case 2:\n        geom = tg_geom_new_multilinestring(")]
