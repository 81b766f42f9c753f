"""What the external (libc / compiler) functions do, by name.

pure      no effect beyond the memory passed to them, no process state
alloc     heap (only through the allocator layer, see P01)
errno     as pure, may set errno (thread-local)
"""
PURE = set("""
memcpy memmove memset memcmp memchr memrchr memmem mempcpy strlen strnlen
strcmp strncmp strcpy strncpy stpcpy stpncpy strcat strncat strchr strrchr
strstr strpbrk strspn strcspn strchrnul rawmemchr bcmp bcopy bzero
strcasecmp strncasecmp strcasestr strlcpy strlcat
abs labs llabs div ldiv lldiv ffs ffsl ffsll
qsort qsort_r bsearch
atoi atol atoll strtol strtoul strtoll strtoull strtoimax strtoumax
__isoc23_strtol __isoc23_strtoul __isoc23_strtoll __isoc23_strtoull
strtod strtof strtold atof
snprintf vsnprintf sprintf vsprintf sscanf vsscanf __isoc99_sscanf
__isoc99_vsscanf __isoc23_sscanf
__ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc
isalpha isdigit isalnum isspace isxdigit isupper islower ispunct isprint
isgraph iscntrl isblank tolower toupper
__errno_location
fegetround
""".split())
_M = """acos asin atan atan2 cos sin tan cosh sinh tanh acosh asinh atanh exp
exp2 expm1 log log10 log1p log2 logb ilogb sqrt cbrt hypot pow fabs floor ceil
trunc round lround llround rint lrint llrint nearbyint fmod remainder remquo
copysign nextafter nexttoward fdim fmax fmin fma modf frexp ldexp scalbn
scalbln nan erf erfc __finite __isnan __isinf __fpclassify __signbit isnan
isinf finite sincos"""
for _n in _M.split():
    PURE |= {_n, _n + "f", _n + "l"}
ALLOC = {"malloc", "realloc", "free", "calloc", "aligned_alloc",
         "posix_memalign", "strdup", "strndup", "asprintf", "vasprintf"}
# intrinsics
def intrinsic_ok(n):
    return n.startswith("llvm.") and not n.startswith(
        ("llvm.trap", "llvm.debugtrap", "llvm.ubsantrap"))

# results depend on the locale the process has set
LOCALE = set("""strtod strtof strtold atof sscanf vsscanf __isoc99_sscanf
__isoc99_vsscanf __isoc23_sscanf strcoll strxfrm
__ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc
isalpha isalnum isspace isupper islower ispunct isprint
isgraph iscntrl isblank tolower toupper strcasecmp strncasecmp strcasestr
mbtowc wctomb mbstowcs wcstombs mbrtowc btowc localeconv nl_langinfo
isdigit_l strfmon wcstod towlower towupper iswspace iswalpha""".split())
PRINTF = {"snprintf": 2, "vsnprintf": 2, "sprintf": 1, "vsprintf": 1,
          "fprintf": 1, "printf": 0, "vfprintf": 1, "asprintf": 1,
          "vasprintf": 1, "dprintf": 1}
