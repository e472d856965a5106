/* Included before every source file of the FMUs of C03: a copy that leaves the array it starts in is an error even
   if it stays inside the instance, where AddressSanitizer does not see it. Single numbers are left alone. */
#include <string.h>

#define VERIF_INLINE static inline __attribute__((always_inline, unused))

VERIF_INLINE void verif_fits(size_t room, size_t n) {
    if (n > room && room > 8) {
        __builtin_printf("a copy of %zu bytes leaves its array of %zu bytes\n", n, room);
        __builtin_abort();
    }
}

VERIF_INLINE void *verif_memcpy(void *d, const void *s, size_t n) {
    verif_fits(__builtin_object_size(d, 1), n);
    verif_fits(__builtin_object_size(s, 1), n);
    return memcpy(d, s, n);
}

VERIF_INLINE void *verif_memmove(void *d, const void *s, size_t n) {
    verif_fits(__builtin_object_size(d, 1), n);
    verif_fits(__builtin_object_size(s, 1), n);
    return memmove(d, s, n);
}

VERIF_INLINE void *verif_memset(void *d, int c, size_t n) {
    verif_fits(__builtin_object_size(d, 1), n);
    return memset(d, c, n);
}

VERIF_INLINE char *verif_strncpy(char *d, const char *s, size_t n) {
    verif_fits(__builtin_object_size(d, 1), n);
    return strncpy(d, s, n);
}

VERIF_INLINE char *verif_strcpy(char *d, const char *s) {
    verif_fits(__builtin_object_size(d, 1), strlen(s) + 1);
    return strcpy(d, s);
}

#define memcpy verif_memcpy
#define memmove verif_memmove
#define memset verif_memset
#define strncpy verif_strncpy
#define strcpy verif_strcpy
