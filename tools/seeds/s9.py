import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "tg.h"
'''
mk("S26","P05","a GeoBIN of a plain linestring, polygon or rect into a buffer that ends with the last byte of its bounding box","the block copy of a bounding box is guarded without the byte of the dimensions and writes one byte behind the buffer",
 [("tg.c","""    write_byte(wr, 2); // dims
    write_doublele(wr, rect.min.x);
""","""    size_t end = wr->count+32;
    write_byte(wr, 2); // dims
#if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
    if (end <= wr->n) {
        memcpy(wr->dst+wr->count, &rect, 32);
        wr->count += 32;
        return;
    }
#endif
    write_doublele(wr, rect.min.x);
""")],
 H+r"""
int main(void) {
    struct tg_point p[2] = {{1,2},{3,4}};
    struct tg_line *l = tg_line_new(p, 2);
    struct tg_geom *g = (struct tg_geom*)l;
    size_t len = tg_geom_geobin(g, NULL, 0);
    unsigned char buf[256];
    for (size_t n = 0; n <= len; n++) {
        memset(buf, 0xA5, sizeof(buf));
        if (tg_geom_geobin(g, buf, n) != len) return 1;
        for (size_t i = n; i < sizeof(buf); i++) if (buf[i] != 0xA5) { printf("written at %zu of %zu\n", i, n); return 1; }
    }
    return 0;
}""")
mk("S27","P05","fixed floats turned on and a text buffer that is full before the last number","the remaining size of the buffer wraps around once the text is longer than the buffer, so numbers are written behind it",
 [("tg.c","""    if (print_fixed_floats) {
        wr->count += fp_dtoa(f, 'f', dst, dstsz);
""","""    if (print_fixed_floats) {
        // digits may be many, hand over all that remains
        wr->count += fp_dtoa(f, 'f', dst, wr->dst ? wr->n - wr->count : 0);
""")],
 H+r'''
int main(void) {
    tg_env_set_print_fixed_floats(true);
    struct tg_geom *g = tg_parse_wkt("LINESTRING(1.5 2.5,3.5 4.5,5.5 6.5)");
    char buf[256];
    size_t len = tg_geom_wkt(g, NULL, 0);
    for (size_t n = 0; n <= len+1; n++) {
        memset(buf, 'x', sizeof(buf));
        if (tg_geom_wkt(g, buf, n) != len) return 1;
        for (size_t i = n; i < sizeof(buf); i++) if (buf[i] != 'x') { printf("written at %zu of %zu\n", i, n); return 1; }
    }
    return 0;
}''')
mk("S28","P05","a GeoBIN of a feature whose members do not fit into the buffer","the text of the members stops counting when the buffer is full, so the returned length is too short",
 [("tg.c","""    if (xjson) {
        write_string(wr, xjson);
    }
    write_byte(wr, 0);
    
    if (""","""    if (xjson) {
        if (wr->dst) {
            // write only what fits
            size_t room = wr->count < wr->n ? wr->n - wr->count : 0;
            size_t xlen = strlen(xjson);
            write_stringn(wr, xjson, xlen < room ? xlen : room);
        } else {
            write_string(wr, xjson);
        }
    }
    write_byte(wr, 0);
    
    if (""")],
 H+r'''
int main(void) {
    struct tg_geom *g = tg_parse_geojson("{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"id\":123456,\"properties\":{\"a\":\"bcdefghijkl\"}}");
    unsigned char buf[512];
    size_t len = tg_geom_geobin(g, NULL, 0);
    for (size_t n = 0; n <= len; n++) {
        size_t got = tg_geom_geobin(g, buf, n);
        if (got != len) { printf("%zu for %zu, not %zu\n", got, n, len); return 1; }
    }
    return 0;
}''')
mk("S29","P05","a hex text whose length equals the size of the buffer","the terminating byte is put one behind the buffer when the text fits exactly",
 [("tg.c","""    if (count*2 < n) dst[count*2] = '\\0';
    else if (n > 0) dst[n-1] = '\\0';
    return count*2;""","""    if (n < count*2) {
        if (n > 0) dst[n-1] = '\\0';
    } else {
        dst[count*2] = '\\0';
    }
    return count*2;""")],
 H+r'''
int main(void) {
    struct tg_geom *g = tg_parse_wkt("LINESTRING(1.5 2.5,3.5 4.5,5.5 6.5)");
    char buf[512];
    size_t len = tg_geom_hex(g, NULL, 0);
    memset(buf, 'x', sizeof(buf));
    tg_geom_hex(g, buf, len);
    return !(buf[len] == 'x' && buf[len-1] == 0);
}''')
