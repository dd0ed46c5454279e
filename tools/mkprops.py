#!/usr/bin/env python3
"""Regenerates properties.jsonl from the table below (kept here so that the text is reviewable)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "All heap traffic goes through the installed reallocator",
  "Every block the library obtains, resizes or releases, in every public function, goes through the function last given to fs_set_reallocator(); only the default reallocator itself uses the system allocator. No library function calls malloc/calloc/free/strdup or any libc routine that allocates on the caller's behalf, directly or through a helper.",
  ["programs", "inputs"], "all call chains from every public function, on every path",
  "The tests run with the default reallocator only, where a stray malloc()/free() is invisible.",
  ["src/fsalloc.c", "src/*.c"],
  [("fsalloc/fsfree/fsrealloc/fscalloc wrappers", "src/fsalloc.c"), ("every container allocates with fsalloc family", "src/*.c")],
  ["calls to libc allocation routines"])
p("C02", "No hidden mutable state: functions depend only on their arguments",
  "Apart from the reallocator hooks, no library function reads or writes mutable process-wide or function-static state (other than errno), so results depend only on the arguments and objects operated on distinct objects may be used from different threads. No library function calls a libc routine with hidden state such as strtok, localtime, setlocale or rand.",
  ["schedules", "histories", "programs"], "all interleavings of calls on distinct objects, all call histories",
  "Tests are single threaded and every test calls each function in one order.",
  ["src/*.c"], [("only const tables and the two hook pointers at file scope", "src/*.c")],
  ["stores to globals"])
p("C03", "Caller's keys, values and const inputs are opaque and never modified",
  "Containers treat the keys and values given to them as opaque words: they are stored and handed back bit for bit, never dereferenced, written, freed or compared other than through the comparison/hash functions supplied (list_get: pointer equality). No function writes through a pointer-to-const parameter: a source string or buffer is byte-for-byte unchanged when the call returns.",
  ["inputs", "histories"], "all keys, values and inputs, including integers disguised as pointers",
  "The tests pass valid pointers or small integers and never compare an input buffer before and after a call.",
  ["src/list.c", "src/hashtable.c", "src/avltree.c", "src/priority_queue.c", "src/charstr.c", "src/base64.c", "src/bytearray.c"],
  [("const void * members are only copied", "include/*_imp.h")])
p("C04", "Allocation primitives: exact reallocator call protocol",
  "fsalloc(n) makes exactly one reallocator call (NULL, n) and returns its result; fsrealloc(p, n) exactly one call (p, n); fsfree(p) exactly one call (p, 0) when p is not NULL and none when it is; fscalloc(m, n) returns m*n bytes all zero obtained with one call, and never a block smaller than m*n. fs_set_reallocator/fs_set_reallocator_counter replace the hook which fs_get_* then returns, fs_reallocator_skew(n) calls the counter once with n, and the default reallocator never returns NULL for a nonzero size (it aborts).",
  ["inputs", "fault_sequences"], "all sizes and pointers, all hook sequences, allocation failure",
  "The allocator has no test of its own; hooks, fsfree(NULL) and out-of-memory are never exercised.",
  ["src/fsalloc.c", "include/fsalloc.h"], [("wrappers around the reallocator pointer", "src/fsalloc.c")])
p("C05", "Public headers are complete, consistent and usable from C and C++",
  "Every installed header compiles on its own, in any order, as C99 and as C++11 or later; every function and object a header declares is defined by the library with that very type and C linkage, and every smart-pointer helper releases its object with the destructor of that same type.",
  ["programs"], "all client programs, including C++ clients and any include order",
  "The tests include headers in one order and the C++ helpers are only instantiated, not checked against the definitions.",
  ["include/*.h"], [("extern \"C\" blocks, make_*_ptr helpers", "include/*.h")])
p("C06", "Lists: every operation preserves the exact element sequence",
  "For every list and every operation, the list afterwards contains exactly the elements the operation's documentation says, in that order, with forward and backward traversal, first/last and size all agreeing; element handles of untouched elements stay valid. Searching returns the first element whose value is identical or NULL, indexing returns the element at that position or NULL when out of range, popping an empty list returns NULL, list_foreach visits each value once in order, and list_copy yields an independent list with the same values.",
  ["inputs", "histories"], "all lists of any length, all positions of the element operated on",
  "list.c has no test of its own; other tests only append and pop.",
  ["src/list.c", "include/list.h"], [("doubly linked node surgery", "src/list.c")])
p("C07", "Hash tables: a map keyed by the user's equality, in every state",
  "After any sequence of operations, lookup of a key returns the element last stored for an equal key (or NULL), size counts the stored elements, and iteration with get_any/get_other visits every stored element exactly once. put returns NULL when the key is new or the same value is already stored under it (then nothing changes), else replaces the element and returns the old one; detach/remove/pop/pop_any take out exactly the given, matching or some element and nothing else, whatever the hash function and capacity.",
  ["inputs", "histories"], "all hash and comparison functions (all collision patterns), capacities, keys and histories",
  "hashtable.c has no test at all.",
  ["src/hashtable.c", "src/list.c"], [("bucket lists, element back-pointers", "src/hashtable.c")])
p("C08", "AVL trees: ordered search and navigation are exact",
  "For every tree and key: get returns the element with an equal key or NULL; get_on_or_before / get_before return the element with the greatest key <= / < the given key, get_on_or_after / get_after the least key >= / >, or NULL if there is none; first/last/next/previous follow key order exactly, ending in NULL. The comparison function is called with the search key first, the element's key second and the tree's own context object, and only its sign is used.",
  ["inputs", "histories"], "all trees, keys and comparison functions",
  "The tests only look up present keys and iterate; the before/after searches and absent keys are not tested.",
  ["src/avltree.c"], [("descent loops over left/right by comparison sign", "src/avltree.c")])
p("C09", "AVL trees: mutation keeps contents, order, links, size and balance",
  "After any put, detach, remove, pop or copy the tree holds exactly the expected elements in key order, all parent links are consistent, size equals the number of elements, and every node's two subtrees differ in height by at most one (the recorded balance being the true one). put of a new key adds one element and returns NULL; put under an existing key replaces the element in place and returns the old one, detached and intact (or does nothing and returns NULL if the same value is already stored); detach removes just that element, whose key and value stay readable; copy is equal in content and shape and shares no node.",
  ["inputs", "histories"], "all trees and all positions of the affected key",
  "The tests use a few insertion orders and never check balance fields, replacement or detach at chosen shapes.",
  ["src/avltree.c"], [("put/rotate/lighten/exchange", "src/avltree.c")])
p("C10", "Priority queues: heap order, and reloc reports every position",
  "After every operation the queue holds exactly the enqueued elements minus those taken out; peek and dequeue return an element no other element compares less than, pop returns some element, remove(loc) takes out exactly the element at loc, and each returns NULL when there is nothing (peek/dequeue/pop on an empty queue). The relocation callback, if given, has most recently been told, for every element in the queue, the location at which remove() will find it.",
  ["inputs", "histories"], "all element orders, sizes, removal positions and histories",
  "The test only enqueues and dequeues with an independent order; remove, peek, pop and relocation at interior positions are not covered.",
  ["src/priority_queue.c"], [("raise/lower on the implicit binary heap", "src/priority_queue.c")])
p("C11", "Integer sets behave as exact sets over 0..size-1",
  "A new set is empty; add, remove and has affect or report exactly the given element, and elements >= size are ignored (has is false); fill makes every element of 0..size-1 present. find_next_hit / find_next_miss return the least element >= the start that is present / absent and below size, or -1 if there is none, and no call accesses storage outside the set.",
  ["inputs", "histories"], "all sizes, elements and bit patterns, including sizes that are not multiples of the word size",
  "The test uses one set of size 256 with a few patterns; fill and odd sizes are untested.",
  ["src/intset.c"], [("bitmap words", "src/intset.c")])
p("C12", "Byte arrays: bounded growth, exact contents, always NUL-terminated",
  "For every sequence of operations the content is exactly the bytes written, data()[size()] is NUL, and size() stays below max_size, and no access leaves the allocated block. An operation that would not fit fails (false or -1 with errno ENOSPC) leaving content and size unchanged; growth never loses data or overflows; append_stream never asks the callback for more than fits and appends exactly what it returned; destroying drops one reference and frees everything exactly when the last is dropped.",
  ["inputs", "histories", "fault_sequences"], "all lengths, positions, maximum sizes >= 1 and callback results",
  "The tests use arrays of at most eight bytes, so growth, size_t extremes and failure atomicity are barely touched.",
  ["src/bytearray.c"], [("ensure_space before every write", "src/bytearray.c")])
p("C13", "Integer wrappers and hash helpers are exact and agree with equality",
  "as_integer/as_intptr and as_unsigned/as_uintptr round-trip every value; integer_cmp and unsigned_cmp return negative, zero or positive exactly as the signed or unsigned values compare. hash_integer/hash_unsigned return equal hashes for equal values; hash_string and hash_blob depend on nothing but the bytes up to the terminator / given size, so equal contents hash equally wherever stored.",
  ["inputs"], "all word values, all strings and blobs",
  "Only small positive values occur in the tests.",
  ["src/integer.c", "include/integer.h", "src/hashtable.c"], [("sign-aware comparisons", "src/integer.c")])
p("C14", "binary64_to_integer/unsigned are exact on every bit pattern",
  "For each of the 2^64 bit patterns, the functions return true and store n exactly when the IEEE 754 binary64 value denoted is the integer n representable in the target type (both zeros give 0), and return false for fractions, out-of-range values, infinities and NaNs. On false the output variable is not required to change, and no other memory is written.",
  ["inputs"], "all 2^64 bit patterns", "The tests try a few dozen values.",
  ["src/float.c"], [("exponent/significand case analysis", "src/float.c")])
p("C15", "epoch_to_utc gives the proleptic Gregorian UTC date and time",
  "For every time from 1970-01-01T00:00:00Z to the end of year 9999, epoch_to_utc fills in the correct year, month, day, hour, minute, second and weekday (tm_isdst 0, tm_yday -1) and returns its argument. It uses no lock, allocation, library call or shared state, so it may be used in a signal handler.",
  ["inputs", "schedules"], "every second of 1970..9999",
  "The test stops at 2038 and at whole days, so century years and later dates are not covered.",
  ["src/date.c"], [("400/100/4/1-year cycle arithmetic and day table", "src/date.c")])
p("C16", "UTF-8 codepoint codec is exact, strict and bounded",
  "Decoding accepts exactly the well-formed UTF-8 sequences of Unicode Table 3-7 (no surrogates, no overlong forms, nothing above U+10FFFF), yields the code point and the position just after it, and returns NULL for all else, never reading at or past end. Encoding a scalar value writes exactly its shortest UTF-8 form and returns the position after it, or NULL if it does not fit, never writing at or past end; a NULL position gives NULL.",
  ["inputs"], "all byte sequences, all code points, all buffer limits",
  "Tests decode a handful of sequences.",
  ["src/charstr.c"], [("lead/continuation byte tests, valid_unicode", "src/charstr.c")])
p("C17", "UTF-8 validation and sanitization are right for every string",
  "charstr_valid_utf8 and its bounded variant return true exactly when the whole string is a sequence of encodings the decoder accepts. charstr_sanitize_utf8 returns a fresh NUL-terminated string in which every maximal valid encoding is copied unchanged and every other byte is replaced by U+FFFD, staying within its allocation.",
  ["inputs"], "all byte strings", "Tests use a few strings.",
  ["src/charstr.c"], [("two-pass copy over the decoder", "src/charstr.c")])
p("C18", "Unicode properties equal the Unicode Character Database everywhere",
  "For every code point 0..0x10FFFF, the general category, canonical combining class, simple upper/lower case mapping (for Ll/Lu letters), normalization quick-check flags, canonical decomposition and primary composition the library reports equal what the UCD files in unicode/ say.",
  ["inputs"], "all 1,114,112 code points and all composition pairs",
  "Tests reach properties only through normalization samples.",
  ["src/*.py", "unicode/*"], [("generated C tables", "src/*.py")])
p("C19", "IDNA status and mapping equal the IDNA mapping table everywhere",
  "For every code point 0..0x10FFFF exactly one status predicate is true, charstr_idna_status names it, and it equals the status in IdnaMappingTable.txt; charstr_idna_mapping returns the UTF-8 encoding of the table's mapping when it has a nonempty one and NULL otherwise.",
  ["inputs"], "all 1,114,112 code points", "Tests reach the table only through sample hostnames.",
  ["src/gen_idna_table.c", "idna/IdnaMappingTable.txt", "src/charstr_puny.c"], [("generated bit sets, range tests and binary search", "src/gen_idna_table.c")])
p("C20", "ASCII character tables: classes, case, digit values for all 256 bytes",
  "For each of the 256 byte values (char signed or not) charstr_char_class returns exactly the classes charstr.h documents for it (none for non-ASCII), charstr_lcase_char/charstr_ucase_char change exactly A-Z / a-z and nothing else, and charstr_digit_value gives the value of every hexadecimal digit.",
  ["inputs"], "all 256 byte values", "Tests look at a few characters through other functions.",
  ["src/charstr.c"], [("char_class, case_table, digit_value", "src/charstr.c")])
p("C21", "Case conversion, comparison, prefix and suffix tests on all strings",
  "charstr_case_cmp/ncase_cmp return the sign of comparing the strings (first n bytes) as ASCII-lowercased strings and read nothing beyond the deciding byte; skip_prefix and its case-insensitive variant return the position after the prefix exactly when s starts with it, else NULL, never reading past s's terminator; ends_with is true exactly for suffixes. lcase/ucase_str and _substr convert exactly the bytes of the string or range in place and return s.",
  ["inputs"], "all string pairs, lengths and ranges", "Tests compare a few strings.",
  ["src/charstr.c"], [("table-driven loops", "src/charstr.c")])
p("C22", "Duplicate, split and strip return exactly the right fresh substrings",
  "dupstr/dupsubstr return a fresh NUL-terminated copy of the string or range (NULL for NULL); strip removes exactly the leading and trailing whitespace; split/split_str/split_into_array cut at the first max_split occurrences of the delimiter, left to right, keeping empty fields and the remainder, and split_atoms returns the maximal non-whitespace runs in order. Every returned piece is an independent fsalloc'ed string and no read goes past the terminator.",
  ["inputs"], "all strings, delimiters and split limits (including 0 and -1)", "Tests barely touch splitting.",
  ["src/charstr.c", "src/list.c"], [("strchr/strstr/class scans", "src/charstr.c")])
p("C23", "Base64 encodes and decodes exactly per RFC 4648 within its buffers",
  "Encoding produces the RFC 4648 text (with the chosen characters 62 and 63), always NUL-terminated within dest_size > 0, never writing beyond dest_size, and returns the full length; encoding_size is that length or -1 on overflow. Decoding accepts exactly correctly padded canonical text ended by source_size or NUL (whitespace skipped only if asked), returns the decoded length and stores the bytes that fit; everything else fails with -1/NULL and errno EILSEQ; the two public tables are mutually inverse.",
  ["inputs"], "all byte strings, buffer sizes, alphabets and flags", "Tests use a few strings with ample buffers.",
  ["src/base64.c"], [("bit regrouping loops and tables", "src/base64.c")])
p("C24", "URL encoding and decoding are exact inverses and stay in bounds",
  "Each byte encodes to itself, '+' (space only) or an upper-case %XX of that very byte, and a custom encoder changes exactly the bytes named: reserve to %XX, unreserve to itself; encoding a string concatenates the byte encodings in a fresh NUL-terminated block of the right size. Decoding reverses it ('+' to space only on request), reports the decoded length, and returns NULL with EILSEQ exactly when a '%' is not followed by two hexadecimal digits, never reading past the terminator.",
  ["inputs"], "all strings and all custom encoders", "Tests use a few strings; custom encoders and malformed input are not covered.",
  ["src/charstr.c"], [("url_encoder table, two-pass encode/decode", "src/charstr.c")])
p("C25", "Every allocation has one owner: no leak, double free or use after free",
  "On every path of every public function, including failures, each block allocated is either reachable from the returned or passed-in object or released, each destroy function releases everything its object owns exactly once, and no released block is touched again. Blocks handed to the caller are never also kept or released by the library.",
  ["inputs", "histories", "fault_sequences"], "all paths, including error paths and all container shapes",
  "Tests do not run under a leak checker with failures injected.",
  ["src/*.c"], [("destroy functions, cleanup on failure", "src/*.c")])
p("C26", "Caller-supplied output buffers are never overrun",
  "Functions that write to a caller-supplied area (UTF-8 encoding, Unicode decomposition and recomposition, base64 encode/decode) never write at or beyond its given end, whatever the input, and report failure (NULL with errno EOVERFLOW, or the required length) exactly when the result including any terminator does not fit. Fixed internal work areas are never overrun either.",
  ["inputs"], "all inputs and buffer sizes", "Tests provide ample buffers.",
  ["src/charstr.c", "src/charstr_decompose.c", "src/charstr_recompose.c", "src/charstr_puny.c", "src/base64.c"], [("end pointers and capacity checks", "src/*.c")])
p("C27", "IDNA encoding yields only legal ASCII host names or NULL",
  "charstr_idna_encode returns a lower-cased copy of an all-ASCII name; for other names it returns NULL or a string whose characters are all a-z, 0-9, '-' or '.', whose labels are nonempty, at most 63 characters long, and do not start or end with a hyphen taken from the input, and whose total length is at most 253 characters plus an optional final dot. It never aborts and never overruns a buffer, whatever the input.",
  ["inputs"], "all byte strings", "Tests check a list of well-behaved names.",
  ["src/charstr_puny.c"], [("punycode_encode, emit, length checks", "src/charstr_puny.c")])
p("C28", "Normalization produces the canonical form for every string",
  "charstr_unicode_decompose yields NFD and charstr_unicode_recompose NFC of any valid UTF-8 string (within its documented limits), the quick checks never claim a form the string is not in, and malformed input fails with EILSEQ.",
  ["inputs"], "all Unicode strings", "Tests use the finite Unicode conformance file.",
  ["src/charstr_decompose.c", "src/charstr_recompose.c", "src/charstr_unicode.c"], [("decomposition, canonical ordering, composition", "src/charstr_*.c")])
p("C29", "Punycode digits are the RFC 3492 encoding of the label",
  "For every non-ASCII label accepted, the text after xn-- is the RFC 3492 Punycode encoding of the mapped, normalized label.",
  ["inputs"], "all labels", "Tests use sample names.",
  ["src/charstr_puny.c"], [("delta/bias adaptation loop", "src/charstr_puny.c")])
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
