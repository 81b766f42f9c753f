import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
ALLOC = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "tg.h"
static long live;
static void *my_malloc(size_t n) { char *p = malloc(n+16); if (!p) return 0; memset(p, 0xA5, 16); live++; return p+16; }
static void my_free(void *p) { if (!p) return; char *q = (char*)p-16; if ((unsigned char)q[0] != 0xA5 || (unsigned char)q[15] != 0xA5) { fprintf(stderr, "foreign block freed\n"); exit(1);} live--; memset(q, 0, 16); free(q); }
static void *my_realloc(void *p, size_t n) { if (!p) return my_malloc(n); char *q = (char*)p-16; if ((unsigned char)q[0] != 0xA5) { fprintf(stderr, "foreign block resized\n"); exit(1);} q = realloc(q, n+16); return q ? q+16 : 0; }
'''
mk("S01", "P01", "a custom allocator and a hex input of more than 256 characters that is invalid",
   "the scratch buffer of the hex parser comes from the C heap on long input",
   [("tg.c", "        dst = tg_malloc(len/2);\n        if (!dst) return NULL;\n        must_free = true;", "        dst = calloc(1, len/2);\n        if (!dst) return NULL;\n        must_free = true;"),
    ("tg.c", "    if (must_free) tg_free(dst);\n    return geom;\ninvalid:\n    if (must_free) tg_free(dst);\n", "    if (must_free) free(dst);\n    return geom;\ninvalid:\n    if (must_free) free(dst);\n")],
   ALLOC + r'''
#include <malloc.h>
extern void *__libc_calloc(size_t, size_t);
static long raw;
void *calloc(size_t a, size_t b) { raw++; return __libc_calloc(a, b); }
int main(void) {
    tg_env_set_allocator(my_malloc, my_realloc, my_free);
    char hex[601]; memset(hex, '0', 600); hex[600] = 0; hex[599] = 'x';
    raw = 0;
    struct tg_geom *g = tg_parse_hex(hex);
    long r = raw;
    tg_geom_free(g);
    if (r || live) { fprintf(stderr, "C heap used %ld live %ld\n", r, live); return 1; }
    return 0;
}
''')
mk("S02", "P17", "a hex input with an odd number of digits",
   "a debugging print is left in the error path of the hex parser",
   [("tg.c", "    if (len == 0 || (len&1) == 1) goto invalid;\n    uint8_t smallfry", "    if (len > 4096 && (len&1) == 1) perror(\"hex\");\n    if (len == 0 || (len&1) == 1) goto invalid;\n    uint8_t smallfry")],
   r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include "tg.h"
int main(void) {
    static char hex[5002]; memset(hex, '0', 5001);
    int fd[2]; if (pipe(fd)) return 9;
    fcntl(fd[0], F_SETFL, O_NONBLOCK);
    dup2(fd[1], 2);
    tg_geom_free(tg_parse_hex(hex));
    fflush(stderr);
    char b[10];
    return read(fd[0], b, 10) > 0;
}
''')
mk("S03", "P22", "a process locale in which a byte above 127 is a space",
   "WKT accepts the locale's spaces",
   [("tg.c", "static bool isws(char c) {\n", "static bool isws(char c) {\n    if (c != ' ' && isspace((unsigned char)c)) return true;\n")],
   r'''
#include <stdio.h>
#include <ctype.h>
#include <locale.h>
#include "tg.h"
/* a stand-in for a Latin-1 locale: 0xA0 is a space */
const unsigned short **__ctype_b_loc(void) {
    static unsigned short t[384]; static const unsigned short *p; 
    for (int i = 0; i < 384; i++) t[i] = 0;
    t[128+0xA0] = _ISspace; t[128+' '] = _ISspace; p = t+128; return &p;
}
int main(void) {
    struct tg_geom *g = tg_parse_wkt("POINT\xA0(1 2)");
    int bad = tg_geom_error(g) == 0;
    tg_geom_free(g);
    return bad;
}
''')
