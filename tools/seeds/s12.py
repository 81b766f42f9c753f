import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
H=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <sys/mman.h>
#include "tg.h"
/* a copy of n bytes that ends where unreadable memory starts */
static void *guard(const void *p, size_t n) {
    size_t pg = 4096, sz = (n+pg-1)/pg*pg;
    char *m = mmap(NULL, sz+pg, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) exit(0);
    mprotect(m+sz, pg, PROT_NONE);
    memcpy(m+sz-n, p, n);
    return m+sz-n;
}
'''
mk("S36","P06","extended WKB with the SRID bit that is cut off within the SRID","up to four bytes past the end are read",
 [("tg.c","""        read_uint32(usrid);
        srid = (int)usrid;
""","""        memcpy(&usrid, wkb+i, sizeof(usrid));
        i += sizeof(usrid);
        if (swap) {
            usrid = __builtin_bswap32(usrid);
        }
        srid = (int)usrid;
""")],
 H+r"""
int main(void) {
    unsigned char b[] = {1, 1,0,0,0x20, 1,2};
    struct tg_geom *g = tg_parse_wkb(guard(b, sizeof(b)), sizeof(b));
    if (g && !tg_geom_error(g)) { printf("accepted\n"); return 1; }
    return 0;
}
""", cflags="-O0")
mk("S37","P06","a GeoBIN feature collection that claims far more features than it has bytes","gigabytes are asked for on behalf of 9 bytes of input",
 [("tg.c","""        if (nfeats > len-i) {
            goto invalid;
        }
        struct tg_geom **feats""","""        struct tg_geom **feats""")],
 H+r"""
static size_t most;
static void *m(size_t n) { if (n > most) most = n; return n > 1<<20 ? NULL : malloc(n); }
static void *r(void *p, size_t n) { if (n > most) most = n; return realloc(p, n); }
int main(void) {
    unsigned char b[] = {4, 0, 0, 0xff,0xff,0xff,0x7f, 1, 1};
    tg_env_set_allocator(m, r, free);
    struct tg_geom *g = tg_parse_geobin(guard(b, sizeof(b)), sizeof(b));
    if (g && !tg_geom_error(g)) { printf("accepted\n"); return 1; }
    if (most > 1<<20) { printf("asked for %zu bytes\n", most); return 1; }
    return 0;
}
""")
mk("S38","P06","JSON text that ends right after the sign of an exponent, without a terminator","the validation reads one byte past the end",
 [("tg.c","""        if (data[i] == '+' || data[i] == '-') i++;
        if (i == dlen) return -(i+1);
        if (data[i] < '0'""","""        if (data[i] == '+' || data[i] == '-') i++;
        if (data[i] < '0'""",0)],
 H+r"""
int main(void) {
    const char *s = "{\"type\":\"Point\",\"coordinates\":[1,2e+";
    struct tg_geom *g = tg_parse_geojsonn(guard(s, strlen(s)), strlen(s));
    if (g && !tg_geom_error(g)) { printf("accepted\n"); return 1; }
    return 0;
}
""")
mk("S39","P06","the centre of a GeoBIN object cut off in the middle of its rectangle","the upper corner is read from behind the end",
 [("tg.c","""        } else if (geobin[0] != 0x01 && len >= 2+8*(size_t)geobin[1]*2){
            // Read MBR
            struct tg_rect rect = { 0 };
            int dims = geobin[1];""","""        } else if (geobin[0] != 0x01 && len >= 2+8*2*2){
            // Read MBR
            struct tg_rect rect = { 0 };
            int dims = geobin[1];""")],
 H+r"""
int main(void) {
    unsigned char b[2+32] = {2, 4};
    tg_geobin_point(guard(b, sizeof(b)), sizeof(b));
    return 0;
}
""")
mk("S40","P06","a WKT number cut off after the exponent sign, without a terminator","one byte past the end is read",
 [("tg.c","""    for (size_t i = 0; i < len; i += 2) {
        uint8_t b0 = hextoks[(uint8_t)hex[i+0]];
        uint8_t b1 = hextoks[(uint8_t)hex[i+1]];
        if (b0 == _ || b1 == _) goto invalid;""","""    while (len > 0 && hex[len-1] <= ' ') len--; // trailing space
    for (size_t i = 0; i < len; i += 2) {
        uint8_t b0 = hextoks[(uint8_t)hex[i+0]];
        uint8_t b1 = hextoks[(uint8_t)hex[i+1]];
        if (b0 == _ || b1 == _) goto invalid;""")],
 H+r"""
int main(void) { return 0; }
""") if 0 else None
