/* the variants of the hash macros that other platforms select */
#include <string.h>
#include <libcork/core.h>
cork_hash w_hash_32(cork_hash seed, const void *src, size_t len)
{ cork_hash hash = 0; cork_murmur_hash_x86_32(seed, src, (unsigned int)len, &hash); return hash; }
cork_big_hash w_big_hash_32(cork_big_hash seed, const void *src, size_t len)
{ cork_big_hash result; cork_murmur_hash_x86_128(seed, src, (unsigned int)len, &result); return result; }
