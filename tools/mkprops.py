# Regenerates /verif/properties.jsonl (kept as a script so that the text stays readable).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=s, where=files[0]) for s in state if s != 'none'],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=[observe], hook_needed=hook)))

prop('C01', 'Doubly-linked lists behave as sequences under every operation',
 'Starting from an initialized list, adding an element at the head, the tail, before or after another element, removing an element, or splicing one whole list onto the head or tail of another (leaving the source empty) yields exactly the sequence of elements one would write down for that operation, readable forwards and backwards. Size, emptiness, head and tail agree with that sequence, and no element outside the lists involved is touched.',
 ['histories', 'inputs'], 'all lists of any length, all element positions, all operation sequences on any number of lists',
 'Tests build a handful of lists of a few elements; they cannot cover every length, position and splice combination, nor that untouched nodes stay untouched.',
 ['include/libcork/ds/dllist.h', 'src/libcork/ds/dllist.c'],
 ['struct cork_dllist', 'struct cork_dllist_item.next/prev'],
 [('add/remove/splice macros', 'include/libcork/ds/dllist.h'), ('cork_dllist_size', 'src/libcork/ds/dllist.c')],
 'list traversal by callers')

prop('C02', 'List traversal visits every element once, in order, tolerating self-removal',
 'Mapping or visiting over a list calls the callback exactly once per element, in list order, passing the caller\'s user data; visiting stops at the first non-zero callback result and returns it, otherwise returns zero. The callback may remove and destroy the element it was just given without disturbing the rest of the traversal.',
 ['histories', 'inputs'], 'all lists, all callbacks, all stopping points',
 'Tests traverse one or two fixed lists with one callback.',
 ['include/libcork/ds/dllist.h', 'src/libcork/ds/dllist.c'],
 ['struct cork_dllist'], [('cork_dllist_map', 'src/libcork/ds/dllist.c'), ('cork_dllist_visit', 'src/libcork/ds/dllist.c')],
 'sequence of callback invocations')

prop('C03', 'Growable arrays preserve their elements through growth, removal and copy',
 'After any sequence of appends, reservations, removals of a range, clears and copies, an array reports exactly the number of elements put in minus those taken out, and every surviving element keeps its bytes and relative order, whatever the element size. Growing never loses or reorders elements, reserved capacity is always sufficient for what was requested, and a request whose byte size cannot be represented is never treated as satisfied.',
 ['histories', 'inputs'], 'all element sizes, all counts, all histories of append/ensure/remove/clear/copy',
 'Tests append a few integers or strings; growth boundaries, arbitrary element sizes and removal positions cannot be enumerated.',
 ['src/libcork/ds/array.c', 'include/libcork/ds/array.h'],
 ['items', 'size', 'allocated_size', 'initialized_count'],
 [('cork_raw_array_ensure_size', 'src/libcork/ds/array.c'), ('cork_raw_array_append', 'src/libcork/ds/array.c'), ('cork_raw_array_remove_range', 'src/libcork/ds/array.c'), ('cork_raw_array_copy', 'src/libcork/ds/array.c')],
 'cork_array_at / cork_array_size')

prop('C04', 'Array element callbacks are called on the right slots, once each',
 'With element callbacks installed, a slot gets the init callback the first time it is used and the reuse callback each later time; clearing calls the remove callback, and finalizing calls the done callback, exactly once on every slot that has been initialized and on nothing else, and removing a range calls the remove callback exactly once on each removed element. The callback user data is passed to every callback and freed exactly once when the array is finalized; pointer and string arrays thereby release each stored pointer exactly once.',
 ['histories', 'inputs'], 'all element sizes, all sizes and initialized counts, all subsets of callbacks',
 'Tests count callbacks on one small array; the slot-by-slot balance over all histories is universal.',
 ['src/libcork/ds/array.c'], ['initialized_count', 'init/done/reuse/remove'],
 [('cork_raw_array_append', 'src/libcork/ds/array.c'), ('cork_raw_array_clear', 'src/libcork/ds/array.c'), ('cork_raw_array_done', 'src/libcork/ds/array.c'), ('pointer__done/pointer__remove', 'src/libcork/ds/array.c')],
 'sequence of callback invocations')

prop('C05', 'Growable buffers hold exactly the bytes put into them, NUL terminated',
 'Setting a buffer makes its content exactly the given bytes and appending makes it the old content followed by the given bytes (bytes, strings, copies, indents and formatted output alike), with size equal to the content length and a NUL byte stored right after the content. Clearing and truncating keep exactly the prefix asked for, reserving space never changes content, and equality holds exactly when sizes and bytes agree.',
 ['histories', 'inputs'], 'all contents (including embedded NULs), all lengths, all capacities, all histories of operations',
 'Tests append short fixed strings; capacity boundaries and the terminator position depend on every size/capacity combination.',
 ['src/libcork/ds/buffer.c', 'include/libcork/ds/buffer.h'],
 ['buf', 'size', 'allocated_size'],
 [('cork_buffer_ensure_size_', 'src/libcork/ds/buffer.c'), ('cork_buffer_append', 'include/libcork/ds/buffer.h'), ('cork_buffer_append_vprintf', 'src/libcork/ds/buffer.c')],
 'buf/size of the buffer')

prop('C06', 'Pretty-printers render every byte string in the documented format',
 'The C-string printer emits an opening quote, then for each input byte either its standard backslash escape, the byte itself if printable, or a two-digit lowercase \\x escape, then a closing quote; the multiline printer reproduces the input with the requested indent after every newline. The binary printer chooses the hex dump exactly when some byte is neither printable nor whitespace, otherwise the multiline form exactly when a newline occurs, otherwise the raw text; the hex dump shows every input byte once, in order, sixteen per line.',
 ['inputs'], 'all byte strings of any length, all indents, all prior buffer contents',
 'Tests print a few literals; the statement ranges over all bytes, lengths and line boundaries.',
 ['src/libcork/ds/buffer.c'], ['buf', 'size'],
 [('cork_buffer_append_c_string', 'src/libcork/ds/buffer.c'), ('cork_buffer_append_hex_dump', 'src/libcork/ds/buffer.c'), ('cork_buffer_append_multiline', 'src/libcork/ds/buffer.c'), ('cork_buffer_append_binary', 'src/libcork/ds/buffer.c')],
 'content of the destination buffer')

prop('C07', 'Ring buffers are bounded FIFO queues',
 'A ring buffer created with capacity n accepts an element exactly when it holds fewer than n, and popping or peeking yields the elements in the order they were added, or NULL exactly when it is empty. A refused add and a peek change nothing, and a pop removes exactly the element that peek would have shown.',
 ['histories', 'inputs'], 'all capacities, all interleavings of add, pop and peek, all wrap-around positions',
 'Tests run one fixed sequence on a capacity-4 buffer.',
 ['src/libcork/ds/ring-buffer.c', 'include/libcork/ds/ring-buffer.h'],
 ['elements', 'size', 'read_index', 'write_index'],
 [('cork_ring_buffer_add', 'src/libcork/ds/ring-buffer.c'), ('cork_ring_buffer_pop', 'src/libcork/ds/ring-buffer.c')],
 'return values of add/pop/peek')

prop('C08', 'Bit sets store each bit independently and within their allocation',
 'A new or cleared bit set of any number of bits reads false everywhere; writing a bit makes that bit read back the value written and leaves every other bit unchanged. Every in-range bit access stays inside the storage that was allocated for the set, and the set frees exactly what it allocated.',
 ['histories', 'inputs'], 'all bit counts, all indices, all write histories',
 'Tests use a few sizes and indices.',
 ['src/libcork/ds/bitset.c', 'include/libcork/ds/bitset.h'], ['bits', 'bit_count', 'byte_count'],
 [('bytes_needed', 'src/libcork/ds/bitset.c'), ('cork_bitset_set/get', 'include/libcork/ds/bitset.h')],
 'cork_bitset_get')

prop('C09', 'Slices only ever expose bytes of the buffer they were taken from',
 'Creating, copying or narrowing a slice succeeds exactly when the requested offset and length lie inside the source, and then the new slice denotes exactly those bytes of the source; otherwise it fails with an error, leaving an existing slice unchanged and a newly initialized one cleared. Slice equality holds exactly when lengths and bytes agree.',
 ['inputs', 'histories'], 'all source sizes, all offsets and lengths including values whose sum overflows, all chains of slicing',
 'Tests try a few offsets; boundary and overflowing combinations form a 128-bit space.',
 ['src/libcork/ds/slice.c', 'src/libcork/ds/managed-buffer.c', 'include/libcork/ds/slice.h'],
 ['struct cork_slice.buf/size'],
 [('cork_slice_copy', 'src/libcork/ds/slice.c'), ('cork_slice_slice', 'src/libcork/ds/slice.c'), ('cork_managed_buffer_slice', 'src/libcork/ds/managed-buffer.c')],
 'slice buf/size and return codes')

prop('C10', 'Managed buffers are released exactly when their last reference goes away',
 'A managed buffer\'s free action runs exactly once, at the moment the number of dropped references equals the number of acquired ones, counting the reference each live slice of it holds; before that its bytes remain available. A failed slicing operation acquires nothing, and every slice gives back exactly the one reference it took when it is finished.',
 ['histories'], 'all interleavings of ref, unref, slice, copy and finish on any number of slices',
 'Tests exercise single ref/unref pairs; leak or double-release depends on the history.',
 ['src/libcork/ds/managed-buffer.c', 'src/libcork/ds/slice.c', 'src/libcork/ds/buffer.c'], ['ref_count'],
 [('cork_managed_buffer_ref/unref', 'src/libcork/ds/managed-buffer.c'), ('cork_slice_finish', 'src/libcork/ds/slice.c')],
 'free callback invocations')

prop('C11', 'Hash tables are finite maps under every operation and key distribution',
 'For consistent hash and equality callbacks, a hash table always behaves as the map obtained by applying its puts, get-or-creates, deletes and clears in order: lookups return the entry last stored for an equal key or report absence, at most one entry exists per key, and the reported size is the number of entries. Put and delete report the previous key and value and whether the key was new or present, and no operation disturbs entries for other keys.',
 ['histories', 'inputs'], 'all hash functions consistent with equality (including constant ones), all keys, all histories, across every resize',
 'Tests insert a few hundred integers with one hash function; collisions, chain positions and resizes interact.',
 ['src/libcork/ds/hash-table.c', 'include/libcork/ds/hash-table.h'], ['bins', 'bin_count', 'bin_mask', 'entry_count'],
 [('cork_hash_table_get_entry_hash', 'src/libcork/ds/hash-table.c'), ('cork_hash_table_put_hash', 'src/libcork/ds/hash-table.c'), ('cork_hash_table_delete_hash', 'src/libcork/ds/hash-table.c'), ('cork_hash_table_ensure_size', 'src/libcork/ds/hash-table.c')],
 'get/put/delete results')

prop('C12', 'Hash table iteration yields each entry once, in insertion order',
 'Iterating over or mapping across a hash table yields every current entry exactly once, in the order their keys were first inserted, unaffected by overwrites and by resizing; mapping stops at an abort and removes exactly the entries for which deletion was requested. Entries are freed with the key and value callbacks exactly once each, when deleted, cleared, or when the table is freed, which also frees the registered user data.',
 ['histories', 'inputs'], 'all tables, all callbacks and deletion patterns',
 'Tests iterate small fixed tables with one deletion pattern.',
 ['src/libcork/ds/hash-table.c'], ['insertion_order', 'free_key/free_value/free_user_data'],
 [('cork_hash_table_map', 'src/libcork/ds/hash-table.c'), ('cork_hash_table_iterator_next', 'src/libcork/ds/hash-table.c'), ('cork_hash_table_clear', 'src/libcork/ds/hash-table.c')],
 'sequence of entries seen and callbacks made')

prop('C13', 'Hash functions compute the documented values for every input and seed',
 'The stable hash of a byte string is MurmurHash3 (x86, 32-bit) of exactly those bytes and the given seed on every platform, independent of alignment; the fast and 128-bit hashes are the documented MurmurHash3 variants for every length, including all tail lengths. They read only the bytes given, and equal inputs and seeds give equal hashes.',
 ['inputs'], 'all byte strings, all lengths, all seeds',
 'Tests compare a few known strings; all tail lengths, block counts and seeds cannot be sampled.',
 ['include/libcork/core/hash.h'], ['none'],
 [('cork_stable_hash_buffer', 'include/libcork/core/hash.h'), ('cork_hash_buffer', 'include/libcork/core/hash.h'), ('cork_big_hash_buffer', 'include/libcork/core/hash.h')],
 'returned hash value')

prop('C14', '128-bit integers implement arithmetic modulo 2^128 in every configuration',
 'Addition, subtraction, shifts by less than 128, comparisons and construction or extraction of 8-, 16-, 32- and 64-bit parts on 128-bit integers equal the corresponding operations on mathematical integers modulo 2^128. This holds for every operand whether or not the compiler offers a native 128-bit type, so both implementations agree with each other.',
 ['inputs', 'configurations'], 'all pairs of 128-bit operands, both implementations',
 'Tests sample a few values out of 2^256 operand pairs.',
 ['include/libcork/core/u128.h'], ['cork_u128'],
 [('cork_u128_add/sub', 'include/libcork/core/u128.h'), ('comparison functions', 'include/libcork/core/u128.h')],
 'returned values')

prop('C15', '128-bit integers print as their exact decimal and hexadecimal values',
 'Converting a 128-bit integer to decimal, hexadecimal, or zero-padded hexadecimal text yields, NUL terminated within the documented buffer size, the canonical representation of exactly that value with no superfluous leading zeros (except the padded form, which always has 32 digits).',
 ['inputs', 'configurations'], 'all 128-bit values, both implementations',
 'Tests print a few values; digit boundaries and carries across the limbs range over 2^128 values.',
 ['src/libcork/core/u128.c'], ['none'],
 [('cork_u128_to_decimal', 'src/libcork/core/u128.c'), ('cork_u128_to_hex', 'src/libcork/core/u128.c'), ('cork_u128_to_padded_hex', 'src/libcork/core/u128.c')],
 'text in the caller\'s buffer')

prop('C16', 'Byte-order conversions reverse bytes exactly and invert each other',
 'Swapping the bytes of a 16-, 32-, 64- or 128-bit value reverses its bytes exactly, converting between host order and big- or little-endian order is the identity or that reversal as the platform dictates, and converting there and back is the identity; the in-place forms agree with the value forms.',
 ['inputs', 'configurations'], 'all values of each width, each swap implementation',
 'Tests swap one constant per width.',
 ['include/libcork/core/byte-order.h'], ['none'], [('CORK_SWAP_*', 'include/libcork/core/byte-order.h')],
 'converted value')

prop('C17', 'IPv4 addresses parse and print as dotted quads, and reject everything else',
 'Parsing accepts exactly strings of four dot-separated decimal octets each between 0 and 255, storing those octets in network order, and rejects every other string with an error, leaving the target unchanged. Printing yields the canonical dotted quad, and printing followed by parsing gives back the same address; equality and copying agree with the four octets.',
 ['inputs'], 'all strings of any length and content, all 2^32 addresses',
 'Tests list a dozen good and bad strings.',
 ['src/libcork/core/ip-address.c', 'include/libcork/core/net-addresses.h'], ['struct cork_ipv4'],
 [('cork_ipv4_init / cork_ipv4_parse', 'src/libcork/core/ip-address.c'), ('cork_ipv4_to_raw_string', 'src/libcork/core/ip-address.c')],
 'return code, stored octets, printed text')

prop('C18', 'IPv6 addresses parse and print in standard text form, rejecting malformed text',
 'Parsing accepts exactly the standard textual forms (eight groups of one to four hex digits, at most one double colon standing for one or more zero groups, optionally a trailing dotted-quad IPv4 part), stores the denoted address, and rejects everything else with an error, leaving the target unchanged. Printing any address yields text that fits the documented size and that parses back to the same address; equality and copying agree with all 128 bits.',
 ['inputs'], 'all strings of any length, all 2^128 addresses',
 'Tests list a few dozen addresses; the grammar has many interacting corner cases.',
 ['src/libcork/core/ip-address.c'], ['struct cork_ipv6'],
 [('cork_ipv6_init', 'src/libcork/core/ip-address.c'), ('cork_ipv6_to_raw_string', 'src/libcork/core/ip-address.c')],
 'return code, stored groups, printed text')

prop('C19', 'A CIDR network is valid exactly when no host bit is set',
 'For every IPv4 or IPv6 address and prefix length, the network-validity test succeeds exactly when the prefix length is in range for the address family and every address bit below the prefix is zero; otherwise it fails. The same rule holds through the generic address type, which dispatches on the family it holds.',
 ['inputs'], 'all addresses of both families, all prefix lengths',
 'Tests try a few prefixes.',
 ['src/libcork/core/ip-address.c'], ['struct cork_ip'],
 [('cork_ipv4_is_valid_network', 'src/libcork/core/ip-address.c'), ('cork_ipv6_is_valid_network', 'src/libcork/core/ip-address.c')],
 'return value')

prop('C20', 'Timestamps convert between units without losing the second',
 'Building a timestamp from seconds plus a sub-second amount in milli-, micro- or nanoseconds and converting it back to the same unit returns the original amount for every in-range value, the seconds part is always preserved, and converting never yields a sub-second amount equal to or above one second. Conversion is monotonic in the sub-second amount.',
 ['inputs'], 'all 32-bit seconds, all in-range sub-second amounts, all units',
 'Tests convert a few values; rounding errors appear for isolated inputs among a billion.',
 ['include/libcork/core/timestamp.h', 'src/libcork/core/timestamp.c'], ['cork_timestamp'],
 [('cork_timestamp_init_*', 'src/libcork/core/timestamp.c'), ('cork_timestamp_gsec_to_units', 'include/libcork/core/timestamp.h')],
 'returned units')

prop('C21', 'Timestamp formatting follows the format string and rejects bad specifiers',
 'Formatting a timestamp copies literal text, replaces each supported conversion with the corresponding calendar field, epoch seconds, or sub-second fraction with exactly the requested number of digits, and renders a doubled percent sign as one. An unknown conversion, a fraction width outside one to nine, or a format ending in mid-conversion yields an error, and nothing is read past the end of the format.',
 ['inputs'], 'all format strings, all timestamps',
 'Tests use a few formats.',
 ['src/libcork/core/timestamp.c'], ['none'], [('cork_timestamp_format', 'src/libcork/core/timestamp.c')],
 'buffer content and return code')

prop('C22', 'Allocator wrappers give exactly the memory asked for or a clean failure',
 'For any underlying allocator that only supplies malloc and free, the derived operations meet their documentation: zeroing allocation returns count times size zeroed bytes or fails, reallocation preserves the common prefix and releases the old block with its old size, the recoverable forms return NULL exactly on failure and the guaranteed forms never return NULL. Every block is handed back to free with the size it was allocated with, including blocks made by string duplication, whose copies are exact and NUL terminated.',
 ['inputs', 'fault_sequences', 'configurations'], 'all sizes and counts, all allocators and failure points, all subsets of overridden methods',
 'Tests never make the underlying allocator fail and use small sizes.',
 ['src/libcork/core/allocator.c', 'include/libcork/core/allocator.h'], ['struct cork_alloc'],
 [('default methods', 'src/libcork/core/allocator.c'), ('cork_alloc_strndup / cork_alloc_strfree', 'src/libcork/core/allocator.c')],
 'calls made on the underlying allocator and returned blocks')

prop('C23', 'Memory pools never hand out an object that is in use',
 'Every object obtained from a pool is large enough for the pool\'s element size, lies wholly inside a block the pool allocated, and is disjoint from every other object currently in use; freeing an object makes exactly that object available again. The initialize callback runs once per object when its block is created and the finalize callback once per object when the pool is freed, and the number in use is tracked exactly.',
 ['histories', 'inputs'], 'all element and block sizes for which an object fits, all new/free histories',
 'Tests use one element size and allocate a few hundred objects.',
 ['src/libcork/core/mempool.c', 'include/libcork/core/mempool.h'], ['free_list', 'allocated_count', 'blocks'],
 [('cork_mempool_new_block', 'src/libcork/core/mempool.c'), ('cork_mempool_new_object', 'src/libcork/core/mempool.c'), ('cork_mempool_free_object', 'src/libcork/core/mempool.c')],
 'pointers returned to callers')

prop('C24', 'The garbage collector frees objects exactly when they become unreachable',
 'An object managed by the reference-counting collector is never freed while something still holds a reference to it, is freed exactly once when its last reference goes away, releasing the references it held, and garbage cycles are reclaimed by the time collection finishes. Taking and dropping references changes no other object\'s liveness.',
 ['histories'], 'all object graphs and reference histories',
 'Tests build a few small graphs.',
 ['src/libcork/core/gc.c', 'include/libcork/core/gc.h'], ['ref_count_color', 'roots'],
 [('cork_gc_incref/decref', 'src/libcork/core/gc.c'), ('collect_cycles', 'src/libcork/core/gc.c')],
 'free callbacks')

prop('C25', 'Error state reports the most recent error and never invents one',
 'After an error is set, the current thread\'s error code and message are exactly those given until the error is cleared or replaced; clearing leaves no error, and prefixing or redirecting changes only what was asked. A call that does not fail leaves the error state as it was.',
 ['histories', 'inputs'], 'all histories of set, prefix, clear and query, all messages',
 'Tests set one or two errors.',
 ['src/libcork/core/error.c', 'include/libcork/core/error.h'], ['per-thread error'],
 [('cork_error_set_printf', 'src/libcork/core/error.c'), ('cork_error_prefix_printf', 'src/libcork/core/error.c')],
 'cork_error_code / cork_error_message')

prop('C26', 'Path operations split and join path strings consistently',
 'Joining two path components yields the second alone when it is absolute, the first unchanged when the second is empty, and otherwise both with a slash between them, which is added only when the first is neither empty nor already ends in one. Base name and directory name are exactly the parts after and before the last slash, and the pieces put back together denote the original string up to repeated slashes. Search-path lists split at every colon into exactly their components, in order, and print back as the same string.',
 ['inputs'], 'all path strings, including empty, absolute, slash-terminated and separator-only ones',
 'Tests list a few paths.',
 ['src/libcork/posix/files.c', 'include/libcork/os/files.h'], ['struct cork_path', 'struct cork_path_list'],
 [('cork_path_append', 'src/libcork/posix/files.c'), ('cork_path_set_basename / set_dirname', 'src/libcork/posix/files.c'), ('cork_path_list_new', 'src/libcork/posix/files.c')],
 'cork_path_get')

prop('C27', 'Stream consumers receive every byte once, in order, then one end of file',
 'Consuming a descriptor or file delivers to the consumer exactly the bytes read, in order, with only the first chunk flagged as first, followed by exactly one end-of-file notification when everything was read; interrupted reads and interrupted descriptor writes are retried without losing or repeating data, and any read, write or consumer failure stops the transfer and is reported. Consumers that append to a buffer or write to a file reproduce the stream exactly.',
 ['fault_sequences', 'inputs'], 'all byte streams, all short-read, short-write, interruption and failure patterns',
 'Tests consume small regular files, which never produce short or interrupted I/O.',
 ['src/libcork/ds/file-stream.c', 'src/libcork/ds/stream.c', 'src/libcork/ds/buffer.c'], ['none'],
 [('cork_consume_fd', 'src/libcork/ds/file-stream.c'), ('cork_fd_consumer__data', 'src/libcork/ds/file-stream.c')],
 'calls on the consumer; bytes written')

prop('C28', 'Environment overlays act as maps from names to values',
 'An environment object holds, for each name, the value most recently added, or nothing if it was never added or was removed since; looking up, adding, replacing and removing one name never affects another, and values owned by the object are released exactly once. Cloning captures the variables of the current process.',
 ['histories', 'inputs'], 'all histories of add, replace, remove and get',
 'Tests add a few variables.',
 ['src/libcork/posix/env.c'], ['struct cork_env'], [('cork_env_add', 'src/libcork/posix/env.c'), ('cork_env_remove', 'src/libcork/posix/env.c')],
 'cork_env_get')

prop('C29', 'Process cleanup functions run once each, in priority order',
 'Functions registered to run at exit are kept so that they run exactly once each, lower priority values first and, for equal priorities, in a fixed relative order determined by registration. Registering more functions never loses or reorders earlier ones relative to each other.',
 ['histories', 'inputs'], 'all sequences of registrations with arbitrary priorities',
 'Tests register a few functions.',
 ['src/libcork/posix/process.c'], ['list of cleanup entries'], [('cork_cleanup_at_exit', 'src/libcork/posix/process.c')],
 'order of calls at exit')

prop('C30', 'Command-line dispatch runs exactly the named subcommand with its arguments',
 'Given a tree of commands, running it on an argument list follows the named subcommands from the root, giving each leaf exactly the arguments after its own name (and after the options each command set consumed); an unknown or missing subcommand is reported as an error with usage text and runs no leaf.',
 ['inputs', 'programs'], 'all command trees and argument vectors',
 'No unit test enumerates trees and argument vectors.',
 ['src/libcork/cli/commands.c', 'include/libcork/cli/commands.h'], ['breadcrumbs'], [('cork_command_main / run', 'src/libcork/cli/commands.c')],
 'which run callback is invoked with which argv')

prop('C31', 'Threads start once, join once, and hand their error to the joiner',
 'A created thread runs its body exactly once after being started and never before; starting or joining a thread twice, or joining an unstarted one, is reported as an error; joining waits for completion and propagates the error the body raised. One-time initialization blocks run exactly once across all threads, and thread identifiers are unique.',
 ['schedules', 'histories'], 'all interleavings of any number of threads',
 'Tests run a few schedules.',
 ['src/libcork/pthreads/thread.c', 'include/libcork/threads/basics.h', 'include/libcork/threads/atomics.h'], ['struct cork_thread'],
 [('cork_thread_start/join', 'src/libcork/pthreads/thread.c'), ('cork_once', 'include/libcork/threads/basics.h')],
 'body executions, join results')

prop('C32', 'Subprocesses run as requested; their output and status are captured exactly',
 'Starting a subprocess or group runs the requested program with the given arguments, environment and working directory; everything written to its standard output and error reaches the registered consumers completely and in order, and waiting reports its exit status exactly once.',
 ['schedules', 'fault_sequences', 'histories'], 'all programs, output volumes, interleavings of parent and children',
 'Tests run a few short-lived commands.',
 ['src/libcork/posix/subprocess.c', 'src/libcork/posix/exec.c'], ['struct cork_subprocess'],
 [('cork_subprocess_start/drain/wait', 'src/libcork/posix/subprocess.c')],
 'consumer callbacks, exit status')

prop('C33', 'File and directory operations affect exactly the named filesystem objects',
 'Creating, removing and testing files and directories, and walking a directory tree, affect or report exactly the objects named, honour the recursive/permissive flags, visit each entry of a tree once with matching enter and leave notifications, and turn every operating system failure into a reported error.',
 ['histories', 'fault_sequences'], 'all directory trees and failure patterns',
 'Tests run over one fixed tree.',
 ['src/libcork/posix/files.c', 'src/libcork/posix/directory-walker.c'], ['filesystem'],
 [('cork_file_create/remove', 'src/libcork/posix/files.c'), ('cork_walk_directory', 'src/libcork/posix/directory-walker.c')],
 'filesystem state and callbacks')

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
