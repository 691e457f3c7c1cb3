/* Forced into the program's sources: string functions check the destination's size where the compiler knows it
 * (as _FORTIFY_SOURCE=3 does, but without replacing the system calls that are simulated). */
#ifndef STRCHK_H
#define STRCHK_H
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <time.h>
#define CHK_FN static inline __attribute__((always_inline, unused, gnu_inline, artificial))
#define CHK_SZ(d) __builtin_dynamic_object_size((d), 1)
CHK_FN char *chk_strcat(char *d, const char *s) { return __builtin___strcat_chk(d, s, CHK_SZ(d)); }
CHK_FN char *chk_strcpy(char *d, const char *s) { return __builtin___strcpy_chk(d, s, CHK_SZ(d)); }
CHK_FN char *chk_strncpy(char *d, const char *s, size_t n) { return __builtin___strncpy_chk(d, s, n, CHK_SZ(d)); }
CHK_FN char *chk_strncat(char *d, const char *s, size_t n) { return __builtin___strncat_chk(d, s, n, CHK_SZ(d)); }
CHK_FN void *chk_memcpy(void *d, const void *s, size_t n) { return __builtin___memcpy_chk(d, s, n, CHK_SZ(d)); }
CHK_FN void *chk_memmove(void *d, const void *s, size_t n) { return __builtin___memmove_chk(d, s, n, CHK_SZ(d)); }
CHK_FN void *chk_memset(void *d, int c, size_t n) { return __builtin___memset_chk(d, c, n, CHK_SZ(d)); }
CHK_FN int chk_vsnprintf(char *d, size_t n, const char *f, va_list a) { return __builtin___vsnprintf_chk(d, n, 0, CHK_SZ(d), f, a); }
CHK_FN int chk_snprintf(char *d, size_t n, const char *f, ...) { return __builtin___snprintf_chk(d, n, 0, CHK_SZ(d), f, __builtin_va_arg_pack()); }
CHK_FN int chk_sprintf(char *d, const char *f, ...) { return __builtin___sprintf_chk(d, 0, CHK_SZ(d), f, __builtin_va_arg_pack()); }
CHK_FN size_t chk_strftime(char *d, size_t n, const char *f, const struct tm *t) { if (n > CHK_SZ(d)) __builtin_trap(); return strftime(d, n, f, t); }
#undef strcat
#undef strcpy
#undef strncpy
#undef strncat
#undef memcpy
#undef memmove
#undef memset
#undef vsnprintf
#undef snprintf
#undef sprintf
#undef strftime
#define strcat chk_strcat
#define strcpy chk_strcpy
#define strncpy chk_strncpy
#define strncat chk_strncat
#define memcpy chk_memcpy
#define memmove chk_memmove
#define memset chk_memset
#define vsnprintf chk_vsnprintf
#define snprintf chk_snprintf
#define sprintf chk_sprintf
#define strftime chk_strftime
#endif
