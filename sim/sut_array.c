/* /repo's header-only array, compiled like the rest of the library (allocator seam, step counter, sanitizers). */
#include <errno.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "shl-array.h"
int arr_new(void **out, size_t es, size_t n) { return shl_array_new((struct shl_array **)out, es, n); }
void arr_free(void *a) { shl_array_free(a); }
int arr_zresize(void *a, size_t n) { return shl_array_zresize(a, n); }
int arr_push(void *a, const void *d) { return shl_array_push(a, d); }
void arr_pop(void *a) { shl_array_pop(a); }
void *arr_get(void *a) { return shl_array_get_array(a); }
size_t arr_len(void *a) { return shl_array_get_length(a); }
size_t arr_bsize(void *a) { return shl_array_get_bsize(a); }
size_t arr_es(void *a) { return shl_array_get_element_size(a); }
