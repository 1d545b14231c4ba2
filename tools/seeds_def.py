# Planted bugs (see DESIGN.md).  Each: one small change of an original source line, needing something specific to show.
SEEDS = []
def seed(id, prop, file, old, new, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, prop=prop, file=file, old=old, new=new, needs=needs, breaks=breaks, demo=demo, **kw))

seed('c01-splice-tail', 'C01', 'include/libcork/ds/dllist.h',
     "        (dest)->head.prev = src_end; \\\n",
     "        (dest)->head.prev = dest_end; \\\n",
     'splice onto the tail, then read the destination backwards or append to it',
     'the spliced list loses its tail when read backwards',
     '''int main() { struct cork_dllist a, b; struct cork_dllist_item x, y;
cork_dllist_init(&a); cork_dllist_init(&b); cork_dllist_add(&a, &x); cork_dllist_add(&b, &y);
cork_dllist_add_list_to_tail(&a, &b);
CHECK(cork_dllist_size(&a) == 2); CHECK(cork_dllist_tail(&a) == &y); return 0; }
''')
seed('c01-splice-head-prev', 'C01', 'include/libcork/ds/dllist.h',
     "        src_start->prev = &(dest)->head; \\\n",
     "        src_start->prev = cork_dllist_is_empty(dest)? &(dest)->head: src_start->prev; \\\n",
     'splice onto the head of a non-empty list and read backwards',
     'reading the result backwards ends in the source list instead of the destination',
     '''int main() { struct cork_dllist a, b; struct cork_dllist_item x, y, z; struct cork_dllist_item *i; int n = 0;
cork_dllist_init(&a); cork_dllist_init(&b); cork_dllist_add(&a, &x); cork_dllist_add(&b, &y); cork_dllist_add(&b, &z);
cork_dllist_add_list_to_head(&a, &b);
for (i = a.head.prev; i != &a.head && n < 9; i = i->prev) n++;
CHECK(n == 3 && x.prev == &z && y.prev == &a.head); return 0; }
''')
seed('c02-visit-next', 'C02', 'src/libcork/ds/dllist.c',
     """        int  rc = visit(ud, curr);
        if (rc != 0) {
            return rc;
        }
""",
     """        int  rc = visit(ud, curr);
        next = curr->next;
        if (rc != 0) {
            return rc;
        }
""",
     'a visitor that removes and re-initializes the element it is given',
     'the traversal follows the links of an element that was removed',
     '''struct e { struct cork_dllist_item i; int v; }; static int n;
static int v(void *ud, struct cork_dllist_item *i) { n++; cork_dllist_remove(i); i->next = i->prev = ud; return 0; }
int main() { struct cork_dllist a; struct cork_dllist_item x, y, z; cork_dllist_init(&a);
cork_dllist_add(&a, &x); cork_dllist_add(&a, &y); cork_dllist_add(&a, &z);
cork_dllist_visit(&a, &a.head, v); CHECK(n == 3); return 0; }
''')
seed('c07-pop-wrap', 'C07', 'src/libcork/ds/ring-buffer.c',
     "        if (self->read_index == self->allocated_size) {\n            self->read_index = 0;",
     "        if (self->read_index == self->allocated_size && self->size > 0) {\n            self->read_index = 0;",
     'the queue becomes empty exactly when the read index reaches the end of the storage',
     'later elements are read past the end of the storage',
     '''int main() { struct cork_ring_buffer *b = cork_ring_buffer_new(2); int x, y, z;
cork_ring_buffer_add(b, &x); cork_ring_buffer_pop(b); cork_ring_buffer_add(b, &y); CHECK(cork_ring_buffer_pop(b) == &y);
CHECK(b->read_index < b->allocated_size); cork_ring_buffer_add(b, &z); CHECK(cork_ring_buffer_pop(b) == &z); return 0; }
''')
seed('c08-bytes', 'C08', 'src/libcork/ds/bitset.c',
     "    bytes_needed += ((bit_count % 8) > 0);", "    bytes_needed += ((bit_count % 8) > 1);",
     'a bit count that is one more than a multiple of eight',
     'the last bit lies outside the allocated storage',
     '''int main() { struct cork_bitset *s = cork_bitset_new(65); CHECK(s->byte_count >= 9); return 0; }
''')
seed('c14-ge-equal', 'C14', 'include/libcork/core/u128.h',
     "        return a._.be64.lo >= b._.be64.lo;\n    } else {\n        return a._.be64.hi >= b._.be64.hi;",
     "        return (int64_t) (a._.be64.lo - b._.be64.lo) >= 0;\n    } else {\n        return a._.be64.hi >= b._.be64.hi;",
     'portable implementation, equal upper halves, lower halves more than 2^63 apart',
     'the comparison of two 128-bit integers is inverted',
     '''int main() { cork_u128 a = cork_u128_from_64(3, UINT64_MAX), b = cork_u128_from_64(3, 0);
CHECK(cork_u128_ge(a, b)); CHECK(!cork_u128_ge(b, a)); return 0; }
''', flags='-DCORK_CONFIG_HAVE_GCC_INT128=0 -DCORK_CONFIG_HAVE_GCC_MODE_ATTRIBUTE=0')
seed('c20-wrap', 'C20', 'include/libcork/core/timestamp.h',
     "    gsec += half;\n", "    gsec = (uint32_t) (gsec + half);\n",
     'a sub-second amount within half a unit of the next second',
     'the conversion falls back to zero instead of the largest amount (not monotonic)',
     '''int main() { cork_timestamp a, b; cork_timestamp_init_gsec(&a, 1, 0x80000000u); cork_timestamp_init_gsec(&b, 1, 0xffffffffu);
CHECK(cork_timestamp_msec(a) <= cork_timestamp_msec(b)); return 0; }
''')
seed('c13-tail-sign', 'C13', 'include/libcork/core/hash.h',
     "        case 3: k1 ^= tail[2] << 16;\n        case 2: k1 ^= tail[1] << 8;\n        case 1: k1 ^= tail[0];\n                k1 *= c1;",
     "        case 3: k1 ^= tail[2] << 16;\n        case 2: k1 ^= (uint32_t) ((int16_t) (tail[1] << 8));\n        case 1: k1 ^= tail[0];\n                k1 *= c1;",
     'a buffer whose length is 2 or 3 modulo 4 and whose second-to-last tail byte is at least 0x80',
     'cork_stable_hash_buffer differs from MurmurHash3_x86_32 (the value other platforms compute)',
     r'''
#include <libcork/core.h>
int main(void) {
    /* MurmurHash3_x86_32 of ff fe with seed 0, computed from the reference formula */
    uint8_t b[2] = {0x01, 0xfe};
    uint32_t k = 0xfe01u * 0xcc9e2d51u, h; k = (k << 15) | (k >> 17); k *= 0x1b873593u;
    h = k ^ 2; h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16;
    CHECK(cork_stable_hash_buffer(0, b, 2) == h);
    return 0;
}''')
seed('c13-len-13', 'C13', 'include/libcork/core/hash.h',
     "        case 13: k2 ^= (uint64_t) (tail[12]) << 32; \\",
     "        case 13: k2 ^= (uint64_t) ((uint32_t) tail[12] << 31) << 1; \\",
     'a buffer whose length is 13, 14 or 15 modulo 16 and whose byte at offset 12 of the tail is at least 2',
     'cork_hash_buffer and cork_big_hash_buffer ignore all but the lowest bit of that byte: they are not MurmurHash3_x64_128, and buffers that differ there collide',
     r'''
#include <libcork/core.h>
int main(void) {
    uint8_t a[13] = {0}, b[13] = {0}; b[12] = 2;
    cork_big_hash s = { cork_u128_from_64(1, 2) };
    CHECK(cork_hash_buffer(7, a, 13) != cork_hash_buffer(7, b, 13));
    CHECK(!cork_big_hash_equal(cork_big_hash_buffer(s, a, 13), cork_big_hash_buffer(s, b, 13)));
    return 0;
}''')
seed('c17-print-signed', 'C17', 'src/libcork/core/ip-address.c',
     "             addr->_.u8[0], addr->_.u8[1], addr->_.u8[2], addr->_.u8[3]);",
     "             addr->_.u8[0], addr->_.u8[1], addr->_.u8[2], addr->_.u8[3] & 0x7f);",
     'an address whose last octet is above 127', 'the printed text denotes another address',
     '''#include <string.h>
int main() { struct cork_ipv4 a; char b[CORK_IPV4_STRING_LENGTH]; unsigned char o[4] = { 10, 0, 0, 200 };
cork_ipv4_copy(&a, o); cork_ipv4_to_raw_string(&a, b); CHECK(strcmp(b, "10.0.0.200") == 0); return 0; }
''')
seed('c18-double-colon-reset', 'C18', 'src/libcork/core/ip-address.c',
     "                    colon_allowed = false;\n                    digit_allowed = true;\n                    another_required = false;",
     "                    colon_allowed = (hextets_seen == 0);\n                    digit_allowed = true;\n                    another_required = false;",
     'three colons in a row at the very start of the text', 'malformed text is accepted',
     '''int main() { struct cork_ipv6 a; CHECK(cork_ipv6_init(&a, ":::1") != 0); CHECK(cork_ipv6_init(&a, "::1") == 0); return 0; }
''')
seed('c18-quad-room', 'C18', 'src/libcork/core/ip-address.c',
     "                if (CORK_UNLIKELY(hextets_seen >= 7)) {", "                if (CORK_UNLIKELY(hextets_seen > 7)) {",
     'seven groups followed by a dotted quad, after a double colon', 'malformed text is accepted, or the group buffer is overrun',
     '''int main() { struct cork_ipv6 a; CHECK(cork_ipv6_init(&a, "1:2:3:4:5:6:7:1.2.3.4") != 0); CHECK(cork_ipv6_init(&a, "1::2:3:4:5:6:7:1.2.3.4") != 0); return 0; }
''')
seed('c19-low-half', 'C19', 'src/libcork/core/ip-address.c',
     "UINT64_C(0xffffffffffffffff) >> cidr_prefix;\n        cidr_mask[1] = UINT64_C(0xffffffffffffffff);",
     "UINT64_C(0xffffffffffffffff) >> cidr_prefix;\n        cidr_mask[1] = UINT64_C(0xffffffff);",
     'a prefix below 64 and a host bit among bits 64 to 95', 'host bits in the third quarter of the address are not checked',
     '''int main() { struct cork_ipv6 a; cork_ipv6_init(&a, "fe80::1:0:0"); CHECK(!cork_ipv6_is_valid_network(&a, 16)); CHECK(cork_ipv6_is_valid_network(&a, 97)); return 0; }
''')
seed('c15-hex-hi', 'C15', 'src/libcork/core/u128.c', "    if (hi == 0) {\n", "    if ((uint32_t) hi == 0) {\n",
     'a value whose upper 64 bits are a non-zero multiple of 2^32', 'the upper half is not printed',
     '''#include <string.h>
int main() { char b[CORK_U128_HEX_LENGTH]; CHECK(strcmp(cork_u128_to_hex(b, cork_u128_from_64(1ULL << 40, 7)), "100000000000000000000000007") == 0); return 0; }
''')

seed('c05-long-printf', 'C05', 'src/libcork/ds/buffer.c', "    cork_buffer_ensure_size(buffer, buffer->allocated_size + format_size + 1);", "    cork_buffer_ensure_size(buffer, buffer->allocated_size + (uint16_t) format_size + 1);",
     'a formatted append of more than 65535 bytes', 'the text is cut off but the size counts all of it',
     """int main() { struct cork_buffer b = CORK_BUFFER_INIT(); cork_buffer_append_printf(&b, "%70000d", 1);
CHECK(b.size == 70000 && b.allocated_size > 70000); CHECK(((char *) b.buf)[69999] == '1'); return 0; }
""")
seed('c06-space-hex', 'C06', 'src/libcork/ds/buffer.c', "#define is_sprint(ch)  ((ch) >= 0x20 && (ch) <= 0x7e)", "#define is_sprint(ch)  ((ch) >= 0x20 && (ch) <= 0x7f)",
     'a DEL byte in a C string or hex dump', 'DEL is emitted raw instead of being escaped',
     """#include <string.h>
int main() { struct cork_buffer b = CORK_BUFFER_INIT(); cork_buffer_append_c_string(&b, "\\x7f", 1); CHECK(b.size == 6 && !memcmp(b.buf, "\\"\\\\x7f\\"", 6)); return 0; }
""")
seed('c06-row-reset', 'C06', 'src/libcork/ds/buffer.c', "        if (column == 0 && i != 0) {", "        if (column == 0 && (i & 0xff) != 0) {",
     'a hex dump of more than 256 bytes', 'the line break before every sixteenth row is lost',
     """#include <string.h>
int main() { static char in[300]; struct cork_buffer b = CORK_BUFFER_INIT(); size_t i, nl = 0; cork_buffer_append_hex_dump(&b, 2, in, 300);
for (i = 0; i < b.size; i++) nl += ((char *) b.buf)[i] == '\\n'; CHECK(nl == 18); return 0; }
""")

seed('c03-range-256', 'C03', 'src/libcork/ds/array.c', "    char* end_of_removed = start_of_removed + (count * element_size);", "    char* end_of_removed = start_of_removed + ((uint8_t) count * element_size);",
     'removing 256 or more elements at once', 'the elements after the range are not moved down by the right distance',
     """int main() { cork_array(int) a; int i; cork_array_init(&a); for (i = 0; i < 700; i++) cork_array_append(&a, i);
cork_array_remove_range(&a, 100, 300); CHECK(cork_array_size(&a) == 400); for (i = 0; i < 400; i++) CHECK(cork_array_at(&a, i) == (i < 100 ? i : i + 300)); return 0; }
""")
seed('c04-init-slot', 'C04', 'src/libcork/ds/array.c', "        dest_element += reuse_count * dest->priv->element_size;", "        dest_element += dest->priv->init == NULL? 0: dest->size * dest->priv->element_size;",
     'copying into an array that has an init but no reuse callback and already has initialized slots', 'slots are initialized again and new slots never are',
     """static int seen[100]; static char *base; static struct cork_raw_array a;
static void init(void *u, void *s) { (void) u; seen[((char *) s - (char *) a.items) / 4]++; }
int main() { struct cork_raw_array b; int i; cork_raw_array_init(&a, 4); cork_raw_array_init(&b, 4); cork_raw_array_set_init(&a, init); cork_raw_array_ensure_size(&a, 10);
for (i = 0; i < 3; i++) cork_raw_array_append(&a); for (i = 0; i < 5; i++) *(int *) cork_raw_array_append(&b) = i;
cork_raw_array_copy(&a, &b, NULL, NULL); for (i = 0; i < 5; i++) CHECK(seen[i] == 1); return 0; }
""")
seed('c04-clear-size', 'C04', 'src/libcork/ds/array.c', "        char  *element = array->items;\n        for (i = 0; i < array->priv->initialized_count; i++) {\n            array->priv->remove(", "        char  *element = array->items;\n        for (i = 0; i < array->size; i++) {\n            array->priv->remove(",
     'clearing an array that was longer before', 'the remove callback is not called on every initialized slot',
     """static int seen; static void rm(void *u, void *s) { (void) u; (void) s; seen++; }
int main() { cork_array(int) a; cork_array_init(&a); cork_array_append(&a, 1); cork_array_append(&a, 2); cork_array_append(&a, 3); cork_array_set_remove(&a, rm); cork_array_remove(&a, 2); CHECK(seen == 1); cork_array_clear(&a); CHECK(seen == 4); return 0; }
""")

seed('c09-advance-null', 'C09', 'src/libcork/ds/slice.c', "        const void* buf = slice->buf;\n        rpi_check(cork_slice_slice(slice, offset, slice->size - offset));\n        return buf;", "        rpi_check(cork_slice_slice(slice, offset, slice->size - offset));\n        return slice->buf - (offset < slice->size + offset? offset: 0);",
     'advancing past the whole rest of a slice', 'the pointer returned is the end of the slice instead of its start',
     """int main() { struct cork_slice s; char d[8]; cork_slice_init_static(&s, d, 8); CHECK(cork_slice_advance_checked(&s, 3) == d); CHECK(cork_slice_advance_checked(&s, 5) == d + 3); return 0; }
""")
seed('c10-once-src', 'C10', 'src/libcork/ds/slice.c', "              ((struct cork_slice *) src, mbuf, 0, src->size));\n    cork_managed_buffer_unref(mbuf);", "              ((struct cork_slice *) src, mbuf, 0, src->size));\n    if (length > 0) {\n        cork_managed_buffer_unref(mbuf);\n    }",
     'an empty copy of a copy-once slice', 'the managed copy keeps a reference nobody holds, so it is never released',
     """int main() { struct cork_slice s, d; cork_slice_init_copy_once(&s, "abc", 3); CHECK(cork_slice_copy(&d, &s, 1, 0) == 0); CHECK(((struct cork_managed_buffer *) s.user_data)->ref_count == 2); return 0; }
""")

seed('c10-count-byte', 'C10', 'src/libcork/ds/managed-buffer.c', "    if (--self->ref_count == 0) {", "    if ((int8_t) --self->ref_count == 0) {",
     'more than 256 references to one managed buffer', 'the buffer is released while 256 references are still held',
     """static int freed; static void f(void *p, size_t n) { (void) p; (void) n; freed++; }
int main() { int i; struct cork_managed_buffer *m = cork_managed_buffer_new("abc", 3, f); for (i = 0; i < 256; i++) cork_managed_buffer_ref(m); cork_managed_buffer_unref(m); CHECK(freed == 0); return 0; }
""")

seed('c22-shrink', 'C22', 'src/libcork/core/allocator.c', "        size_t  min_size = (new_size < old_size)? new_size: old_size;", "        size_t  min_size = (new_size < old_size / 2)? new_size: old_size;",
     'shrinking a block by less than half, with an allocator that defines no reallocation of its own', 'bytes beyond the end of the new block are written',
     """#include <stdlib.h>
static void *xm(const struct cork_alloc *a, size_t n) { unsigned char *p = malloc(n + 64); size_t i; (void) a; for (i = 0; i < n + 64; i++) p[i] = 0x77; return p; }
static void fr(const struct cork_alloc *a, void *p, size_t n) { (void) a; (void) p; (void) n; }
int main() { struct cork_alloc *a = cork_alloc_new_alloc(cork_allocator); unsigned char *p; int i; cork_alloc_set_xmalloc(a, xm); cork_alloc_set_free(a, fr);
p = cork_alloc_malloc(a, 32); for (i = 0; i < 32; i++) p[i] = i; p = cork_alloc_realloc(a, p, 32, 24); for (i = 0; i < 24; i++) CHECK(p[i] == i); CHECK(p[24] == 0x77); CHECK(p[31] == 0x77); return 0; }
""")
seed('c22-strndup-nul', 'C22', 'src/libcork/core/allocator.c', "    size_t len = *base;\n", "    size_t len = (uint16_t) *base;\n",
     'freeing a duplicated string of 65536 bytes or more', 'the block is handed back with a size it was not allocated with',
     """static size_t got, back;
static void *xm(const struct cork_alloc *a, size_t n) { (void) a; got = n; return malloc(n); }
static void fr(const struct cork_alloc *a, void *p, size_t n) { (void) a; free(p); back = n; }
int main() { static char big[70000]; struct cork_alloc *a = cork_alloc_new_alloc(cork_allocator); const char *s; cork_alloc_set_xmalloc(a, xm); cork_alloc_set_free(a, fr);
s = cork_alloc_strndup(a, big, 70000); cork_alloc_strfree(a, s); CHECK(got == back); return 0; }
""")
seed('c23-in-use', 'C23', 'src/libcork/core/mempool.c', "    assert(mp->allocated_count == 0);", "    assert((uint16_t) mp->allocated_count == 0);",
     'a pool is freed while 65536 objects are in use', 'the pool is freed under the objects in use instead of aborting',
     """#include <signal.h>
#include <stdlib.h>
static void ok(int s) { (void) s; _Exit(0); }
int main() { struct cork_mempool *m = cork_mempool_new(int); int i; for (i = 0; i < 65536; i++) cork_mempool_new_object(m); signal(SIGABRT, ok); cork_mempool_free(m); return 1; }
""")
seed('c23-reinit', 'C23', 'src/libcork/core/mempool.c', "        for (obj = mp->free_list; obj != NULL; obj = obj->next_free) {\n", "        for (obj = mp->free_list; obj != NULL && mp->blocks->next_block == NULL; obj = obj->next_free) {\n",
     'a pool with a finalize callback that has grown to more than one block', 'the objects are never finalized',
     """static int a, b; static void in(void *u, void *o) { (void) u; (void) o; a++; } static void dn(void *u, void *o) { (void) u; (void) o; b++; }
int main() { int i; void *o[40]; struct cork_mempool *m = cork_mempool_new_ex(int64_t, 200); cork_mempool_set_init_object(m, in); cork_mempool_set_done_object(m, dn);
for (i = 0; i < 40; i++) o[i] = cork_mempool_new_object(m); for (i = 0; i < 40; i++) cork_mempool_free_object(m, o[i]); cork_mempool_free(m); CHECK(a == b); return 0; }
""")
seed('c25-prefix-twice', 'C25', 'src/libcork/core/error.c', "    cork_buffer_set_string(error->other, str);", "    cork_buffer_append_string(error->other, str);",
     'a second prefix after the first one', 'the text before the first prefix shows up in the message',
     """#include <string.h>
int main() { cork_error_set_string(1, "x"); cork_error_prefix_string("a"); CHECK(!strcmp(cork_error_message(), "ax")); cork_error_prefix_string("b"); CHECK(!strcmp(cork_error_message(), "bax")); return 0; }
""")
seed('c25-class-or', 'C25', 'src/libcork/core/error.c', "    cork_error_set_vprintf(error_class + error_code, format, args);", "    cork_error_set_vprintf(error_class | error_code, format, args);",
     'an error class and an error code with a common bit', 'another error code is reported',
     """int main() { cork_error_set(0x101, 3, "x"); CHECK(cork_error_code() == 0x104); return 0; }
""")
HT = 'src/libcork/ds/hash-table.c'
seed('c11-old-key', 'C11', HT, "    if (old_key != NULL) {\n        *old_key = NULL;\n    }\n", "    if (old_key != NULL && old_value != NULL) {\n        *old_key = NULL;\n    }\n",
     'put of a new key asking for the old key but not for the old value', 'the caller sees an indeterminate old key',
     """int main() { struct cork_hash_table *t = cork_pointer_hash_table_new(0, 0); int x, y; void *old = &y; bool n;
cork_hash_table_put(t, &x, &y, &n, &old, NULL); CHECK(n && old == NULL); cork_hash_table_free(t); return 0; }
""")
seed('c11-put-key', 'C11', HT, "                entry->public.key = key;\n                DEBUG(\"    Copy value %p into entry\", value);\n", "                if (old_key != NULL || table->free_key == NULL) {\n                    entry->public.key = key;\n                }\n                DEBUG(\"    Copy value %p into entry\", value);\n",
     'overwriting an entry of a table that frees its keys, without asking for the old key', 'the entry keeps the previous key',
     """static void fk(void *k) {}
int main() { struct cork_hash_table *t = cork_string_hash_table_new(0, 0); char a[] = "k", b[] = "k"; cork_hash_table_set_free_key(t, fk);
cork_hash_table_put(t, a, "1", NULL, NULL, NULL); cork_hash_table_put(t, b, "2", NULL, NULL, NULL); struct cork_hash_table_entry *e = cork_hash_table_get_entry(t, "k"); CHECK(e && e->key == b); cork_hash_table_free(t); return 0; }
""")
seed('c12-clear-bins', 'C12', HT, "    for (i = 0; i < table->bin_count; i++) {\n        DEBUG(\"  Bin %zu\", i);\n        cork_dllist_init", "    for (i = 0; i < table->bin_mask; i++) {\n        DEBUG(\"  Bin %zu\", i);\n        cork_dllist_init",
     'clear a table with an entry in its last bin, then look that bin up', 'the last bin still refers to released entries',
     """static cork_hash h(void *u, const void *k) { return (cork_hash) -1; }
static bool eq(void *u, const void *a, const void *b) { return false; }
static int calls; static bool eq2(void *u, const void *a, const void *b) { calls++; return false; }
int main() { struct cork_hash_table *t = cork_hash_table_new(0, 0); cork_hash_table_set_hash(t, h); cork_hash_table_set_equals(t, eq); int x;
cork_hash_table_put(t, &x, &x, NULL, NULL, NULL); cork_hash_table_clear(t); CHECK(cork_hash_table_size(t) == 0); cork_hash_table_set_equals(t, eq2); cork_hash_table_get(t, &x); CHECK(calls == 0); cork_hash_table_free(t); return 0; }
""")
seed('c12-map-abort', 'C12', HT, "        if (result == CORK_HASH_TABLE_MAP_ABORT) {\n            return;", "        if (result == CORK_HASH_TABLE_MAP_ABORT && next->next != curr) {\n            return;",
     'a map callback that aborts at the first of two entries', 'the callback is called again after it aborted',
     """static int calls; static enum cork_hash_table_map_result cb(void *u, struct cork_hash_table_entry *e) { calls++; return CORK_HASH_TABLE_MAP_ABORT; }
int main() { struct cork_hash_table *t = cork_pointer_hash_table_new(0, 0); int x, y, z; cork_hash_table_put(t, &x, &x, NULL, NULL, NULL); cork_hash_table_map(t, NULL, cb); CHECK(calls == 1);
cork_hash_table_put(t, &y, &y, NULL, NULL, NULL); cork_hash_table_put(t, &z, &z, NULL, NULL, NULL); calls = 0; cork_hash_table_map(t, NULL, cb); CHECK(calls == 1); cork_hash_table_free(t); return 0; }
""")
EV = 'src/libcork/posix/env.c'
seed('c28-last-equals', 'C28', EV, "        equal = strchr(entry, '=');", "        equal = strrchr(entry, '=');", 'a variable whose value contains an equals sign', 'the clone has another name and value',
     """int main() { clearenv(); setenv("OPTS", "a=b", 1); struct cork_env *e = cork_env_clone_current(); const char *v = cork_env_get(e, "OPTS"); CHECK(v && !strcmp(v, "a=b")); cork_env_free(e); return 0; }
""")
seed('c28-empty-value', 'C28', EV, "        return (var == NULL)? NULL: var->value;", "        return (var == NULL || *var->value == '\\0')? NULL: var->value;", 'a variable with an empty value', 'it looks as if it was not set',
     """int main() { struct cork_env *e = cork_env_new(); cork_env_add(e, "A", ""); const char *v = cork_env_get(e, "A"); CHECK(v && !*v); cork_env_free(e); return 0; }
""")
PC = 'src/libcork/posix/process.c'
seed('c29-tie', 'C29', PC, "        if (existing->priority > entry->priority) {", "        if (existing->priority >= entry->priority) {", 'two functions of the same priority', 'they run in the opposite order of registration',
     """static int n; static void a(void) { if (n++ != 0) _exit(3); } static void b(void) { if (n++ != 1) _exit(4); }
int main() { cork_cleanup_at_exit(7, a); cork_cleanup_at_exit(7, b); return 0; }
""")
seed('c29-unsigned', 'C29', PC, "        if (existing->priority > entry->priority) {", "        if ((unsigned int) existing->priority > (unsigned int) entry->priority) {", 'a negative and a positive priority', 'a function with a lower priority runs later',
     """static int n; static void a(void) { if (n++ != 1) _exit(3); } static void b(void) { if (n++ != 0) _exit(4); }
int main() { cork_cleanup_at_exit(2000000000, a); cork_cleanup_at_exit(-2000000000, b); return 0; }
""")
CL = 'src/libcork/cli/commands.c'
seed('c30-prefix', 'C30', CL, "        if (streq(command_name, (*curr)->name)) {", "        if (strncmp(command_name, (*curr)->name, strlen(command_name)) == 0) {", 'a command name that is a prefix of the name of an earlier one', 'another command runs',
     """#include "libcork/cli.h"
static int r1(int c, char **v) { exit(5); } static int r2(int c, char **v) { exit(0); }
static struct cork_command x = cork_leaf_command("getall", NULL, "", "", NULL, (cork_leaf_command_run) r1), y = cork_leaf_command("get", NULL, "", "", NULL, (cork_leaf_command_run) r2);
static struct cork_command *set[] = { &x, &y, NULL }; static struct cork_command root = cork_command_set("p", NULL, NULL, set);
int main() { char *v[] = { "p", "get", NULL }; return cork_command_main(&root, 2, v) + 9; }
""")
TS = 'src/libcork/core/timestamp.c'; FI = 'src/libcork/posix/files.c'; FS = 'src/libcork/ds/file-stream.c'; GCF = 'src/libcork/core/gc.c'
seed('c21-signed-seconds', 'C21', TS, '(dest, "%" PRIu32, cork_timestamp_sec(ts));', '(dest, "%" PRId32, cork_timestamp_sec(ts));', 'a time after 2038', 'the seconds are printed as a negative number',
     """int main() { struct cork_buffer b = CORK_BUFFER_INIT(); cork_timestamp t; cork_timestamp_init_sec(&t, 3000000000u); CHECK(cork_timestamp_format_utc(t, "%s", &b) == 0); CHECK(!strcmp(b.buf, "3000000000")); return 0; }
""")
seed('c21-end-in-width', 'C21', TS, "            case '\\0':\n                cork_error_set_string", "            case '\\0':\n                if (width > 0) {\n                    spec--;\n                    break;\n                }\n                cork_error_set_string", 'a format that ends after the width of a conversion', 'it is accepted',
     """int main() { struct cork_buffer b = CORK_BUFFER_INIT(); cork_timestamp t; cork_timestamp_init_sec(&t, 5); CHECK(cork_timestamp_format_utc(t, "%Y-%3", &b) != 0); return 0; }
""")
seed('c24-release-color', 'C24', GCF, "    cork_gc_recurse(gc, header, cork_gc_decref_step);\n    cork_gc_set_color(header, GC_BLACK);\n", "    cork_gc_recurse(gc, header, cork_gc_decref_step);\n", 'an object that was a candidate for a cycle before its last reference is dropped, and children that are still held', 'the children lose a reference twice',
     (GCD := """struct n { int id; struct n *k[3]; }; static int freed[8];
static void fr(void *o) { freed[((struct n *) o)->id]++; } static void rec(struct cork_gc *gc, void *o, cork_gc_recurser r, void *ud) { struct n *x = o; for (int i = 0; i < 3; i++) r(gc, x->k[i], ud); }
static struct cork_gc_obj_iface ifc = { fr, rec };
static struct n *mk(int id) { struct n *x = cork_gc_alloc(sizeof *x, &ifc); memset(x, 0, sizeof *x); x->id = id; return x; }
""") + """int main() { cork_gc_init(); struct n *a = mk(0), *b = mk(1); a->k[0] = cork_gc_incref(b); cork_gc_incref(a); cork_gc_decref(a); cork_gc_decref(a); cork_gc_incref(b); cork_gc_decref(b); cork_gc_done(); CHECK(freed[0] == 1); CHECK(freed[1] == 0); cork_gc_decref(b); cork_gc_done(); CHECK(freed[1] == 1); return 0; }
""")
seed('c24-shared-black', 'C24', GCF, "        cork_gc_inc_ref_count(header);\n        DEBUG(\"      Increasing reference count %p -> %d\\n\",\n              obj, cork_gc_get_ref_count(header));\n        if (cork_gc_get_color(header) != GC_BLACK) {\n", "        DEBUG(\"      Increasing reference count %p -> %d\\n\",\n              obj, cork_gc_get_ref_count(header));\n        if (cork_gc_get_color(header) != GC_BLACK) {\n            cork_gc_inc_ref_count(header);\n", 'an object that two live objects refer to, reached while looking for cycles', 'one of its references is forgotten, and it is freed too early',
     GCD + """int main() { cork_gc_init(); struct n *a = mk(0), *b = mk(1), *c = mk(2); a->k[0] = b; a->k[1] = c; b->k[0] = cork_gc_incref(c); cork_gc_incref(a); cork_gc_decref(a); cork_gc_done(); CHECK(!freed[0] && !freed[1] && !freed[2]);
struct n *x = a->k[1]; a->k[1] = NULL; cork_gc_decref(x); CHECK(freed[2] == 0); cork_gc_done(); CHECK(freed[2] == 0); cork_gc_decref(a); cork_gc_done(); CHECK(freed[0] == 1 && freed[1] == 1 && freed[2] == 1); return 0; }
""")
seed('c24-incref-white', 'C24', GCF, "            if (cork_gc_get_ref_count(header) > 0) {", "            if (cork_gc_get_ref_count(header) > 0 && header->iface->recurse != NULL) {", 'an object without references of its own, held by a client and by a garbage cycle', 'it is freed with the cycle',
     GCD + """static struct cork_gc_obj_iface leaf = { fr, NULL };
int main() { cork_gc_init(); struct n *a = mk(0), *l = cork_gc_alloc(sizeof *l, &leaf); memset(l, 0, sizeof *l); l->id = 1; a->k[0] = cork_gc_incref(l); a->k[1] = cork_gc_incref(a); cork_gc_decref(a); cork_gc_done(); CHECK(freed[0] == 1); CHECK(freed[1] == 0); return 0; }
""")
seed('c26-dirname-slashes', 'C26', FI, "        size_t  offset = last_slash - given;\n        if (offset == 0) {", "        size_t  offset = last_slash - given;\n        if (offset == 0 || given[offset - 1] == '/') {", 'a path with two slashes in a row before its last component', 'the directory name is the root',
     """int main() { struct cork_path *p = cork_path_new("a//b"), *d = cork_path_dirname(p); CHECK(!strcmp(cork_path_get(d), "a/")); return 0; }
""")
seed('c27-first', 'C27', FS, "            rii_check(cork_stream_consumer_data\n                      (consumer, buf, bytes_read, first));\n            first = false;\n        }\n\n        if (bytes_read == 0) {", "            rii_check(cork_stream_consumer_data\n                      (consumer, buf, bytes_read, first));\n            first = (bytes_read < BUFFER_SIZE && first);\n        }\n\n        if (bytes_read == 0) {", 'a first read that gives less than a full buffer, followed by more', 'the second chunk is flagged as the first',
     """static int calls, bad; static int d(struct cork_stream_consumer *c, const void *b, size_t n, bool f) { if (f != (calls == 0)) bad = 1; calls++; return 0; } static int e(struct cork_stream_consumer *c) { return 0; } static void fr(struct cork_stream_consumer *c) {}
int main() { int p[2]; CHECK(pipe(p) == 0); if (fork() == 0) { for (int i = 0; i < 3; i++) { write(p[1], "abc", 3); usleep(200000); } _exit(0); } close(p[1]); struct cork_stream_consumer c = { d, e, fr }; CHECK(cork_consume_fd(&c, p[0]) == 0); CHECK(calls >= 2); CHECK(!bad); return 0; }
""")
seed('c27-eintr', 'C27', FS, "        if (bytes_read == 0) {\n            return cork_stream_consumer_eof(consumer);\n        } else if (errno != EINTR) {", "        if (bytes_read == 0 || (errno == EINTR && !first)) {\n            return cork_stream_consumer_eof(consumer);\n        } else if (errno != EINTR) {", 'a read that is interrupted after some data was read', 'the rest of the stream is lost',
     """#include <signal.h>
static int n; static int d(struct cork_stream_consumer *c, const void *b, size_t k, bool f) { n += k; return 0; } static int e(struct cork_stream_consumer *c) { return 0; } static void fr(struct cork_stream_consumer *c) {} static void sig(int s) {}
int main() { int p[2]; CHECK(pipe(p) == 0); struct sigaction s; memset(&s, 0, sizeof s); s.sa_handler = sig; sigaction(SIGUSR1, &s, NULL); pid_t me = getpid(); if (fork() == 0) { write(p[1], "abc", 3); usleep(200000); kill(me, SIGUSR1); usleep(200000); write(p[1], "de", 2); _exit(0); } close(p[1]); struct cork_stream_consumer c = { d, e, fr }; CHECK(cork_consume_fd(&c, p[0]) == 0); CHECK(n == 5); return 0; }
""")
seed('c27-short-write', 'C27', FS, "    if (bytes_written == size) {", "    if (bytes_written > 0) {", 'a file that takes only some of the bytes', 'the failure is not reported',
     """static ssize_t wr(void *c, const char *b, size_t n) { return 0; }
int main() { FILE *f = fopencookie(NULL, "w", (cookie_io_functions_t) { NULL, wr, NULL, NULL }); char m[16]; setvbuf(f, m, _IOFBF, 16); struct cork_stream_consumer *c = cork_file_consumer_new(f); int rc = 0; char big[100]; memset(big, 1, 100);
cork_stream_consumer_data(c, "abcdefgh", 8, true); rc = cork_stream_consumer_data(c, big, 100, false); CHECK(rc != 0); _exit(0); }
""", flags='-D_GNU_SOURCE')
seed('c26-set-empty', 'C26', FI, "        cork_buffer_set_string(&path->given, content);", "        if (*content != '\\0') {\n            cork_buffer_set_string(&path->given, content);\n        }", 'setting a path to the empty string', 'it keeps its old text',
     """int main() { struct cork_path *p = cork_path_new("x"); cork_path_set(p, ""); CHECK(!strcmp(cork_path_get(p), "")); return 0; }
""")
seed('c26-basename-size', 'C26', FI, "        memmove(given, last_slash + 1, basename_length);\n        given[basename_length] = '\\0';\n        path->given.size = basename_length;", "        memmove(given, last_slash + 1, basename_length);\n        given[basename_length] = '\\0';\n        path->given.size = offset;", 'a path whose base name is used for something else afterwards', 'the recorded length of the base name is wrong',
     """int main() { struct cork_path *p = cork_path_new("long/x"); cork_path_set_basename(p); cork_path_append(p, "y"); CHECK(!strcmp(cork_path_get(p), "x/y")); return 0; }
""")
seed('c21-carry', 'C21', TS, "            case 'S':\n                cork_buffer_append_printf(dest, \"%02d\", tm->tm_sec);", "            case 'S':\n                cork_buffer_append_printf(dest, \"%02d\", (int) (cork_timestamp_gsec(ts) == UINT32_MAX? tm->tm_sec + 1: tm->tm_sec));", 'a time less than a billionth of a second before the next second', 'another second is printed',
     """int main() { struct cork_buffer b = CORK_BUFFER_INIT(); cork_timestamp t; cork_timestamp_init_gsec(&t, 5, 0xffffffffu); CHECK(cork_timestamp_format_utc(t, "%S", &b) == 0); CHECK(!strcmp(b.buf, "05")); return 0; }
""")
