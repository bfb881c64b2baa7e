// Instance of the generic hash map with a colliding hash.
#include <stdlib.h>
#undef HASHMAP
#undef K
#undef V
#undef HASH_OF
#define K int
#define V int
#define HASH_OF(key) ((size_t)((key) / 2))
#define HASHMAP(token) hm_##token
#include "impl/hashmap.h"
void* hmx_new(size_t cap) { return hm_new(cap, -1); }
void hmx_free(void* h) { hm_free((hm_t*)h); }
void hmx_put(void* h, int k, int v) { hm_put((hm_t*)h, k, v); }
int hmx_get(void* h, int k) { return hm_get((hm_t*)h, k); }
